#include "TH2.h"
