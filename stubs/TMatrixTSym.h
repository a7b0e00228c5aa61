#pragma once
#include "Rtypes.h"
class TMatrixTSym;
