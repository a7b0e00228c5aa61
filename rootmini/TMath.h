#pragma once
#include "Rtypes.h"
namespace TMath { inline double ATan2(double y, double x){ return atan2(y,x); } inline double Pi(){ return M_PI; } inline double Sqrt(double x){ return sqrt(x); } inline double Prob(double chi2, int n){ return 0; } }
