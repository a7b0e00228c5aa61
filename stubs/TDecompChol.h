#pragma once
#include "Rtypes.h"
class TDecompChol;
