// the vector form of the integration rule, over symbolic lanes
#include "AmpGen/simd/utils.h"
#include "AmpGen/NumericalIntegration.h"
using namespace AmpGen;
SYMMAIN
static int A(unsigned i){ return std::stoi(g_args.at(i)); }
template <unsigned dim> struct Fn { REAL_DOUBLE shadow(const Sym* x) const { REAL_DOUBLE s = 0; for( unsigned i = 0; i != dim; ++i ) s += x[i].v*(0.3+0.2*i); return ::exp(-s*s); }
  real_v operator()(const std::array<real_v,dim>& z) const { real_v r; for( int l = 0; l != 4; ++l ){ std::vector<Sym> a; for( unsigned i = 0; i != dim; ++i ) a.push_back(z[i].d[l]); r.d[l] = symapp("F", a, shadow(a.data())); } return r; } };
template <unsigned dim> void rule(){ std::array<double,dim> c,w; std::mt19937_64 g(5);
  for( unsigned i = 0; i != dim; ++i ){ c[i] = symvar("c"+std::to_string(i), 2*SymOut::rnd(g)-1); w[i] = symvar("w"+std::to_string(i), 0.2+SymOut::rnd(g)); }
  auto [v,e,ax] = integrate_fp<dim>(Fn<dim>(),c,w); SymOut::out("val",v); SymOut::out("err",e); SymOut::outj("axis",std::to_string(ax)); }
SYMCASE(rule){ switch( A(0) ){ case 2: rule<2>(); break; case 3: rule<3>(); break; case 4: rule<4>(); break; case 5: rule<5>(); break; case 6: rule<6>(); break; case 7: rule<7>(); break; case 8: rule<8>(); break; case 9: rule<9>(); break; case 10: rule<10>(); break; case 11: rule<11>(); break; case 12: rule<12>(); break; case 13: rule<13>(); break; case 14: rule<14>(); break; case 15: rule<15>(); break; } }
