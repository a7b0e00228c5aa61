// numerical helpers executed as built
#include <array>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <vector>
#include <random>
#include "AmpGen/NumericalIntegration.h"
#include "AmpGen/KahanSum.h"
#include "AmpGen/Pade.h"
#include "AmpGen/simd/utils.h"
using namespace AmpGen;
static void pr(double v){ if( v-v != 0 ) printf("null"); else printf("%.17g", v); }
static bool first = true;
static void rec(const char* k, std::vector<double> v){ printf("%s[\"%s\",[", first ? "" : ",\n", k); first = false; for( size_t i = 0; i != v.size(); ++i ){ if( i ) printf(","); pr(v[i]); } printf("]]"); }
// integrands with known integrals over [a,b]^dim
template <class T> static T kf(int k, const T& x, double p){ using std::exp; using std::cos; using std::sin;
  switch(k){ case 0: return exp(-x*p); case 1: return cos(x*p+0.3); case 2: return 1./(0.5+(x-p)*(x-p)*3.); case 3: return x*x*x*p - x*2. + 1.; case 4: return exp(-(x-p)*(x-p)*4.); default: return T(1.)*x; } }
template <unsigned dim> struct Prod { int k; double operator()(const std::array<double,dim>& z) const { double r = 1; for( unsigned i = 0; i != dim; ++i ) r *= kf<double>(k, z[i], 0.4+0.3*i); return r; } 
 };
template <unsigned dim> struct ProdV { int k; real_v operator()(const std::array<real_v,dim>& z) const { double o[4]; for( int l = 0; l != 4; ++l ){ double r = 1; for( unsigned i = 0; i != dim; ++i ) r *= kf<double>(k, z[i].at(l), 0.4+0.3*i); o[l] = r; } return real_v(o); } };
template <unsigned dim> struct Basis { mutable int n = 0; int hot; mutable std::vector<double>* pts; real_v operator()(const std::array<real_v,dim>& z) const { double o[4]; for( int l = 0; l != 4; ++l ){ o[l] = n++ == hot; if( pts ) for( unsigned i = 0; i != dim; ++i ) pts->push_back(z[i].at(l)); } return real_v(o); } };
template <unsigned dim> struct BasisS { mutable int n = 0; int hot; mutable std::vector<double>* pts; double operator()(const std::array<double,dim>& z) const { if( pts ) for( unsigned i = 0; i != dim; ++i ) pts->push_back(z[i]); return n++ == hot; } };
template <unsigned dim> void rule(){ std::array<double,dim> c,w; for( unsigned i = 0; i != dim; ++i ){ c[i] = 0.25*i-0.5; w[i] = 0.5+0.125*i; }
  { std::vector<double> pts, wt, er; Basis<dim> b{0,-1,&pts}; integrate_fp<dim,4>(b,c,w); int n = b.n; for( int h = 0; h != n; ++h ){ Basis<dim> q{0,h,nullptr}; auto [v,e,a] = integrate_fp<dim,4>(q,c,w); wt.push_back(v); er.push_back(e); } rec(("vp"+std::to_string(dim)).c_str(),pts); rec(("vw"+std::to_string(dim)).c_str(),wt); }
  { std::vector<double> pts, wt, er; BasisS<dim> b{0,-1,&pts}; integrate_fp_scalar<dim>(b,c,w); int n = b.n; for( int h = 0; h != n; ++h ){ BasisS<dim> q{0,h,nullptr}; auto [v,e,a] = integrate_fp_scalar<dim>(q,c,w); wt.push_back(v); er.push_back(e); } rec(("sp"+std::to_string(dim)).c_str(),pts); rec(("sw"+std::to_string(dim)).c_str(),wt); } 
  for( int k = 0; k != 5; ++k ){ auto [v,e,a] = integrate_fp_scalar<dim>(Prod<dim>{k},c,w); auto [v2,e2,a2] = integrate_fp<dim,4>(ProdV<dim>{k},c,w); rec(("same"+std::to_string(dim)).c_str(),{v,v2,e,e2,(double)a,(double)a2}); } 
  for( unsigned ax = 0; ax != dim; ++ax ){ auto f = [ax](const std::array<double,dim>& z){ return std::exp(-z[ax]*z[ax]*3); }; auto g = [ax](const std::array<real_v,dim>& z){ double o[4]; for( int l = 0; l != 4; ++l ) o[l] = std::exp(-z[ax].at(l)*z[ax].at(l)*3); return real_v(o); };
    auto [v,e,a] = integrate_fp_scalar<dim>(f,c,w); auto [v2,e2,a2] = integrate_fp<dim,4>(g,c,w); rec("axis",{(double)ax,(double)a,(double)a2}); } }
template <unsigned dim> void full(){ for( int k = 0; k != 6; ++k ) for( int b = 0; b != 2; ++b ){ std::array<double,dim> lo,hi; std::vector<double> r = {(double)dim,(double)k}; for( unsigned i = 0; i != dim; ++i ){ lo[i] = b ? -1+0.2*i : 0; hi[i] = b ? 0.75+0.1*i : 1; r.push_back(lo[i]); r.push_back(hi[i]); } 
   r.push_back( integrate<dim>(ProdV<dim>{k}, lo, hi) ); rec("full", r); } 
  { std::array<double,dim> lo,hi; for( unsigned i = 0; i != dim; ++i ){ lo[i] = 0; hi[i] = 1; } auto f = [](const std::array<real_v,dim>& z){ double o[4]; for( int l = 0; l != 4; ++l ){ double x = z[0].at(l), y = z[1].at(l); o[l] = 1/(1e-2 + (x-0.3)*(x-0.3)) * ( 1 + y ); } return real_v(o); }; rec("peak", {(double)dim, integrate<dim>(f,lo,hi)}); auto sc = [&f](double k){ return [k,&f](const std::array<real_v,dim>& z){ return k*f(z); }; }; rec("peak", {(double)dim, integrate<dim>(sc(1e-7),lo,hi)*1e7}); rec("peak", {(double)dim, integrate<dim>(sc(-3e5),lo,hi)/-3e5}); } }
struct G1 { int k; double operator()(const double& x) const { return kf<double>(k,x,0.7); } };
struct GA { int k; double operator()(const std::array<double,1>& x) const { return kf<double>(k,x[0],0.7); } };
template <unsigned N> void pade(){ for( int st = 0; st != 4; ++st ) for( int k = 0; k != 3; ++k ){ std::vector<double> at; std::function<double(const double&)> f = [&](const double& x){ at.push_back(x); return kf<double>(k,x,0.9); }; Pade<N> p(f,0.5,2.25,(Strategy)st); auto pts = at; std::vector<double> r = {(double)N,(double)st,(double)k}; for( auto x : pts ){ r.push_back(x); r.push_back(p(x)); r.push_back(kf<double>(k,x,0.9)); } rec("pade",r); }
  std::vector<double> c; for( unsigned i = 0; i != 2*N+1; ++i ) c.push_back(0.25*(i+1)); Pade<N> q(c,0.5,2.5); rec("padeval",{(double)N,q(1.25),q(0.5),q(2.5)}); real_v xv(0.5,1.25,2.5,1.5); auto yv = q(xv); rec("padevec",{(double)N,yv.at(0),yv.at(1),yv.at(2),yv.at(3),q(1.5)}); }
static void sums(){ std::mt19937_64 g(11); for( int t = 0; t != 60; ++t ){ int n = 1 + g()%40; std::vector<double> x; for( int i = 0; i != n; ++i ) x.push_back( ((g()>>11)*0x1p-53-0.5)*std::pow(10., (int)(g()%(t%3==0?3:30))-10) ); if( t%2 ) for( int i = 0; i < n/2; ++i ) x[n-1-i] = -x[i]*(t%4==1 ? 1 : 1.0000001); 
    if( t == 0 ) x = {1, 1e100, 1, -1e100}; if( t == 1 ) x = {1e100,1,-1e100,1}; if( t == 2 ) x = {1e16,1,1,1,1,-1e16};
    KahanSum<double> k, l; for( auto e : x ) k += e; for( auto e : x ) l = l + e; rec("x",x); rec("sum",{k(),l(),KahanBabushkaKleinSum(x)});
    KahanSum<real_v> kv; for( auto e : x ) kv += real_v(e,-e,2*e,e*0.5); auto o = kv(); rec("sumv",{o.at(0),o.at(1),o.at(2),o.at(3)}); } }
static void lanes(){ std::vector<double> c; for( int n = 1; n <= 9; ++n ){ c.push_back(n*1.5); rec("aligned",{(double)n,(double)utils::aligned_size<real_v>(n),(double)utils::aligned_size<double>(n)});
    for( int o = 0; o < n; o += 4 ){ auto a = utils::gather<real_v>(c,[](double x){ return x+1; },o); auto b = utils::gather<real_v>(c,[](double x){ return x+1; },o,-7.); rec("gather",{(double)n,(double)o,a.at(0),a.at(1),a.at(2),a.at(3),b.at(0),b.at(1),b.at(2),b.at(3)}); auto z = utils::gather<real_v>(c,[](double x){ return x+1; },o,0.); rec("gather0",{(double)n,(double)o,z.at(0),z.at(1),z.at(2),z.at(3)}); } }
  real_v x(1,2,4,8.5); rec("sumel",{utils::sum_elements(x), utils::sum_elements(3.25), utils::get<0>(x),utils::get<3>(x),utils::at(x,2)}); double b[4]; utils::store(b,x); rec("store",{b[0],b[1],b[2],b[3]}); double q; utils::store(&q,2.5); rec("store1",{q}); 
  for( int m = 0; m != 16; ++m ){ real_v t(m&1?1.:2.,m&2?1.:2.,m&4?1.:2.,m&8?1.:2.); rec("allof",{(double)m,(double)utils::all_of(t,real_v(1.)),(double)utils::all_of(t<1.5)}); } }
int main(){ printf("["); rule<2>(); rule<3>(); rule<4>(); rule<5>(); full<2>(); full<3>(); 
  for( int k = 0; k != 5; ++k ){ rec("d1",{(double)k, integrate_1d(G1{k},0.25,1.75), integrate_1d(GA{k},0.25,1.75), integrate<1>(G1{k},std::array<double,1>{0.25},std::array<double,1>{1.75}), integrate<1>(GA{k},std::array<double,1>{0.25},std::array<double,1>{1.75})}); 
     auto* w = gsl_integration_workspace_alloc(1000); rec("pv",{(double)k, integrate_1d_cauchy(G1{k},0.9,0.25,1.75), integrate_1d_cauchy(G1{k},0.9,0.25,1.75,w), integrate_1d(G1{k},0.25,1.75,w)}); rec("inf",{integrate_1d_inf(G1{2}),integrate_1d_inf(G1{4}),integrate_1d_inf(G1{4},w)}); gsl_integration_workspace_free(w); }
  pade<1>(); pade<2>(); pade<3>(); pade<4>(); sums(); lanes(); printf("]\n"); fflush(stdout); _Exit(0); }
