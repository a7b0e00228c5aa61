#include "TRandom3.h"
TRandom* gRandom = new TRandom3();
