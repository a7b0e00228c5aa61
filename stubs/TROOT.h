#pragma once
#include "Rtypes.h"
class TROOT;
