#pragma once
#include "Rtypes.h"
class TLeaf;
