#pragma once
#include "Rtypes.h"
class TDirectory;
