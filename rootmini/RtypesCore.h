#include "Rtypes.h"
