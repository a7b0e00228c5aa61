// one small function per operation of the vector types: a, b, c are inputs (complex: real lanes, then imaginary lanes), o the output
#include <cstdint>
#include "AmpGen/simd/utils.h"
#include <vector>
using namespace AmpGen; 
#ifdef LANES_FLOAT
// eight single-precision lanes: the four inputs and the same mirrored; the two halves of a result must mirror each other
static inline real_v Rf(const double* x){ return real_v(float(x[0]),float(x[1]),float(x[2]),float(x[3]),float(x[3]),float(x[2]),float(x[1]),float(x[0])); }
static inline void STf(const real_v& v, double* o){ float t[8]; v.store(t); for(int i=0;i<4;++i) o[i] = t[i]==t[7-i] || (t[i]!=t[i] && t[7-i]!=t[7-i]) ? t[i] : 1e300; }
#define R(x) Rf(x)
#define C(x) complex_v(Rf(x),Rf(x+4))
#define ARGS const double* a, const double* b, const double* c, double* o
#define WR(n, e) extern "C" void w_##n(ARGS){ using namespace AmpGen::AVX2f; real_v r_ = e; STf(r_,o); }
#define WC(n, e) extern "C" void w_##n(ARGS){ using namespace AmpGen::AVX2f; complex_v r_ = e; STf(r_.real(),o); STf(r_.imag(),o+4); }
#define WS(n, ...)
#elif defined(LANES_ARM)
// two lanes: the four inputs in two steps
static int HALF = 0;
#define R(x) real_v(x+2*HALF)
#define C(x) complex_v(real_v(x+2*HALF),real_v(x+4+2*HALF))
#define ARGS const double* a, const double* b, const double* c, double* o
#define WR(n, e) extern "C" void w_##n(ARGS){ using namespace AmpGen::ARM128d; for(HALF=0;HALF<2;++HALF){ real_v r_ = e; r_.store(o+2*HALF); } }
#define WC(n, e) extern "C" void w_##n(ARGS){ using namespace AmpGen::ARM128d; for(HALF=0;HALF<2;++HALF){ complex_v r_ = e; r_.real().store(o+2*HALF); r_.imag().store(o+4+2*HALF); } }
#define WS(n, ...)
#else
#define R(x) real_v(x)
#define C(x) complex_v(real_v(x),real_v(x+4))
#define ARGS const double* a, const double* b, const double* c, double* o
#define WR(n, e) extern "C" void w_##n(ARGS){ using namespace AmpGen::AVX2d; real_v r_ = e; r_.store(o); }
#define WC(n, e) extern "C" void w_##n(ARGS){ using namespace AmpGen::AVX2d; complex_v r_ = e; r_.real().store(o); r_.imag().store(o+4); }
#define WS(n, ...) extern "C" void w_##n(ARGS){ using namespace AmpGen::AVX2d; __VA_ARGS__ }
#endif
typedef std::complex<double> cd;
