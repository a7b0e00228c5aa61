// Numerical helpers of AmpGen evaluated over the symbolic scalar (see sym.h).
#include "AmpGen/NumericalIntegration.h"
#include "AmpGen/KahanSum.h"
#include "AmpGen/Pade.h"
#include <map>
using namespace AmpGen;
SYMMAIN
typedef REAL_DOUBLE RD;
static int A(unsigned i){ return std::stoi(g_args.at(i)); }
// an arbitrary integrand: value = uninterpreted application of its coordinates, shadow = a chosen function
template <unsigned dim> struct Fn { 
  int kind; RD par[16];
  Fn(int kind, int seed) : kind(kind) { std::mt19937_64 g(seed); for( auto& p : par ) p = SymOut::rnd(g); }
  RD shadow(const RD* x) const {
    RD s = 0, p = 1;
    switch( kind ){
      case 0 : for( unsigned i = 0; i != dim; ++i ) s += (x[i]-par[i])*(x[i]-par[i])*(1+3*par[(i+8)%16]); return ::exp(-s);
      case 1 : for( unsigned i = 0; i != dim; ++i ) s += x[i]*3*par[i]; return ::cos(s + par[15]);
      case 2 : for( unsigned i = 0; i != dim; ++i ) p *= 1/(0.3 + (x[i]-par[i])*(x[i]-par[i])); return p;
      case 3 : for( unsigned i = 0; i != dim; ++i ) s += par[i]*x[i]; return ::pow(1 + s*s, -1.5);
      default : { std::mt19937_64 g; for( unsigned i = 0; i != dim; ++i ) g.seed( g() ^ (unsigned long)(x[i]*1e9) ); g.discard(3); return SymOut::rnd(g); }
    } }
  double operator()(const std::array<double,dim>& z) const { std::vector<Sym> a(z.begin(), z.end()); RD x[dim]; for( unsigned i = 0; i != dim; ++i ) x[i] = z[i].v; return symapp("F", a, shadow(x)); } };
template <unsigned dim> void box( std::array<double,dim>& c, std::array<double,dim>& w, int seed ){
  std::mt19937_64 g(seed+77); for( unsigned i = 0; i != dim; ++i ){ c[i] = symvar("c"+std::to_string(i), 2*SymOut::rnd(g)-1); w[i] = symvar("w"+std::to_string(i), 0.2+SymOut::rnd(g)); } }
template <unsigned dim> void rule(){ std::array<double,dim> c,w; box<dim>(c,w,A(2)); Fn<dim> F(A(1),A(2));
  auto [v,e,ax] = integrate_fp_scalar<dim>(F,c,w); SymOut::out("val",v); SymOut::out("err",e); SymOut::outj("axis",std::to_string(ax)); }
template <unsigned dim> void wrap(){ std::array<double,dim> c,w; box<dim>(c,w,A(2)); Fn<dim> F(A(1),A(2));
  auto [v,e,ax] = integrate_fp<dim>(F,c,w); SymOut::out("val",v); SymOut::out("err",e); SymOut::outj("axis",std::to_string(ax)); }
template <unsigned dim> void full(){ std::array<double,dim> c,w; box<dim>(c,w,A(2)); Fn<dim> F(A(1),A(2)); 
  std::array<double,dim> lo, hi; for( unsigned i = 0; i != dim; ++i ){ lo[i] = c[i]; hi[i] = c[i] + w[i]; }
  auto v = integrate<dim>(F,lo,hi); SymOut::out("val",v); }
#define D(F) switch( A(0) ){ case 2: F<2>(); break; case 3: F<3>(); break; case 4: F<4>(); break; case 5: F<5>(); break; case 6: F<6>(); break; case 7: F<7>(); break; case 8: F<8>(); break; case 9: F<9>(); break; case 10: F<10>(); break; case 11: F<11>(); break; case 12: F<12>(); break; case 13: F<13>(); break; case 14: F<14>(); break; case 15: F<15>(); break; }
SYMCASE(rule){ D(rule) }
SYMCASE(wrap){ D(wrap) }
SYMCASE(full){ switch( A(0) ){ case 2: full<2>(); break; case 3: full<3>(); break; case 4: full<4>(); break; } }
template <unsigned N> void pade(){ std::vector<double> r; for( unsigned i = 0; i != 2*N+1; ++i ) r.push_back( symvar("r"+std::to_string(i), 0.1*i+0.3) );
  auto lo = symvar("lo",0.5), hi = symvar("hi",2.25), x = symvar("x",1.1);
  Pade<N> p(r, lo, hi); SymOut::out("val", p(x)); 
  Pade<N> q = p; SymOut::out("copy", q(x)); }
SYMCASE(pade){ switch( A(0) ){ case 1: pade<1>(); break; case 2: pade<2>(); break; case 3: pade<3>(); break; case 4: pade<4>(); break; case 5: pade<5>(); break; case 7: pade<7>(); break; } }
SYMCASE(sum){ int n = A(0); std::mt19937_64 g(A(1)); std::vector<double> x; for( int i = 0; i != n; ++i ) x.push_back( symvar("x"+std::to_string(i), (SymOut::rnd(g)-0.5)*::pow(10., (int)(g()%12)-4) ) );
  KahanSum<double> k; for( auto& e : x ) k += e; SymOut::out("inc", k());
  KahanSum<double> l; for( auto& e : x ) l = l + e; SymOut::out("plus", l());
  SymOut::out("kbk", KahanBabushkaKleinSum(x)); SymOut::out("x", x); }
#include "src/Pade.cpp"
struct F1 { double operator()(const double& x) const { return symapp("F",{x},0.3); } };
struct FA { double operator()(const std::array<double,1>& x) const { return symapp("F",{x[0]},0.3); } };
SYMCASE(wrap1d){ auto a = symvar("a",0.25), b = symvar("b",1.75), c = symvar("c",0.9); 
  SymOut::out("d", integrate_1d(F1(),a,b)); SymOut::out("da", integrate_1d(FA(),a,b)); SymOut::out("inf", integrate_1d_inf(F1())); SymOut::out("pv", integrate_1d_cauchy(F1(),c,a,b)); 
  gsl_integration_workspace* w = gsl_integration_workspace_alloc(1000); SymOut::out("dw", integrate_1d(F1(),a,b,w)); SymOut::out("infw", integrate_1d_inf(F1(),w)); SymOut::out("pvw", integrate_1d_cauchy(F1(),c,a,b,w)); 
  SymOut::outj("live", std::to_string(gsl_live())); SymOut::outj("eps", SymOut::num(gsl_weakest()));
  SymOut::out("i1", integrate<1>(F1(), std::array<double,1>{a}, std::array<double,1>{b})); SymOut::out("i1a", integrate<1>(FA(), std::array<double,1>{a}, std::array<double,1>{b}));
  auto lam = [](const double& x) -> double { return symapp("F",{x},0.3); }; SymOut::out("i1l", integrate<1>(lam, std::array<double,1>{a}, std::array<double,1>{b})); }
template <unsigned N> void fit(){ auto lo = symvar("lo",0.5), hi = symvar("hi",2.25); auto st = (Strategy)A(1); std::vector<Sym> at; int k = 0;
  std::function<double(const double&)> f = [&](const double& x) -> double { at.push_back(x); return symvar("f"+std::to_string(k++), ::exp(-x.v)+0.2*::cos(3*x.v)); };
  Pade<N> p(f, lo, hi, st); SymOut::outj("calls", std::to_string(k)); SymOut::out("at", at); std::vector<Sym> v; for( auto& x : at ) v.push_back(p(x)); SymOut::out("val", v); }
SYMCASE(fit){ switch( A(0) ){ case 1: fit<1>(); break; case 2: fit<2>(); break; case 3: fit<3>(); break; case 4: fit<4>(); break; case 5: fit<5>(); break; } }
