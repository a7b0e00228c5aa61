#pragma once
#include "Rtypes.h"
class TRandom { public: virtual ~TRandom() = default; std::mt19937_64 g; TRandom(unsigned s=65539){ g.seed(s); }
  virtual double Rndm(){ return (0.5 + (g() >> 12)) / 4503599627370496.; } 
  virtual double Uniform(double a=1){ return a*Rndm(); } virtual double Uniform(double a, double b){ return a+(b-a)*Rndm(); }
  virtual double Exp(double tau){ return -tau*log(Rndm()); } virtual double Gaus(double m=0, double s=1){ double u=Rndm(), v=Rndm(); return m+s*sqrt(-2*log(u))*cos(2*M_PI*v); }
  virtual unsigned Integer(unsigned n){ return unsigned(g()%n); } virtual int Poisson(double m){ return int(m); } virtual void SetSeed(unsigned long s=0){ g.seed(s); } };
class TRandom3 : public TRandom { public: TRandom3(unsigned s=4357) : TRandom(s) {} };
inline TRandom*& gRandom_(){ static TRandom* r = new TRandom3(); return r; }
extern TRandom* gRandom;
