#pragma once
#include "Rtypes.h"
class TF1;
