#pragma once
#include "Rtypes.h"
class TGraph;
