// Declaration-only stand-in for CERN ROOT's TRandom3 (not installed here); values are never relied on.
#pragma once
#include <random>
#include "Rtypes.h"
class TRandom { public: virtual ~TRandom() = default; virtual double Uniform(double a=0, double b=1){ return a+(b-a)*std::uniform_real_distribution<double>()(g); } double Rndm(){ return Uniform(); }
  double Gaus(double m=0,double s=1){ return std::normal_distribution<double>(m,s)(g);} std::mt19937_64 g; };
class TRandom3 : public TRandom { public: TRandom3(unsigned s=4357){ g.seed(s);} };
extern TRandom* gRandom;
