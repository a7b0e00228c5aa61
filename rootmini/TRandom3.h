#include "TRandom.h"
