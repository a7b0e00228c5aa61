#pragma once
#include "Rtypes.h"
class TF2;
