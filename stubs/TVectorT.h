#pragma once
#include "Rtypes.h"
class TVectorT;
