#pragma once
#include "Rtypes.h"
class TMatrixD;
