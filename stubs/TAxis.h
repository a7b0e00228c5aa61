#pragma once
#include "Rtypes.h"
class TAxis;
