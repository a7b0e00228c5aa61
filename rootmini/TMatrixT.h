#include "TMatrixD.h"
