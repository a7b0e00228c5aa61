// splines: the piecewise polynomial, the knot curvatures, and the lineshapes built from them
#include "h.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
using namespace AmpGen; using namespace H;
typedef const std::string& cs;
typedef CompiledExpression<complex_t(const double*, const double*)> CE;
template<class T> static std::string arr(const std::vector<T>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+num(v[i]); return s+"]"; }
static const std::vector<std::tuple<unsigned,double,double>> grids = {{3,0,1},{4,0.25,1.75},{5,-1,1},{6,0.5,3},{9,0,4},{12,-0.75,2},{2,0,1},{33,0.125,4.125}};
CASE("eval", for(auto& [n,a,b] : grids){ Spline s("S",n,a,b); Expression e = s(P("x"),nullptr); out("S"+std::to_string(n), cast<Spline>(e).m_eval); } )
// curvatures: the transfer is linear in the knot values, unit vectors decide it for every set of values
CASE("transfer", std::string s="["; bool f=true; for(unsigned n=3;n<=40;n += (n<12?1:7)) for(unsigned k=0;k<=n;++k){ double a=-0.5, b=a+0.25*(n-1);
  MinuitParameterSet mps; for(unsigned i=0;i<n;++i) mps.add("S::"+std::to_string(i), (i+k+n)%3==0 ? Flag::Fix : (i+k+n)%3==1 ? Flag::Free : Flag::Hide, k<n ? (i==k) : double((i*i*7+3*i)%11)-4.5, 0.1);
  Spline sp("S",n,a,b); Expression e = sp(P("x"),nullptr); std::map<std::string,unsigned> ev={{"x",0}}; CE ce(e,"tr",ev,&mps); ce.prepare(); 
  s += (f?"{":",\n{")+std::string("\"n\":")+std::to_string(n)+",\"k\":"+std::to_string(k)+",\"min\":"+num(a)+",\"max\":"+num(b)+",\"ext\":"+arr(ce.externBuffer())+"}"; f=false; } outj("t", s+"]"); )
static Expression shape(cs ls, unsigned L, cs name="rho(770)0"){ return Lineshape::Factory::get(ls, P("s"), P("s1"), P("s2"), name, L); }
static void opts(){ static bool done=false; if(done) return; done=true; OptionsParser::setArg("rho(770)0::Spline 9 0.25 2.25"); OptionsParser::setArg("omega(782)0::Spline::N 5"); OptionsParser::setArg("omega(782)0::Spline::Min 0.5"); OptionsParser::setArg("omega(782)0::Spline::Max 1.5"); }
static int reg = [](){
  auto add=[](cs n, std::function<void()> f){ H::cases().push_back({n,[f](){ opts(); f(); }}); };
  add("shapes", [](){
    for( std::string n : {"rho(770)0","omega(782)0"} ){ std::string t = n.substr(0,3)+".";
      for( auto ls : {"MIPWA","MIPWA.Polar","MIPWA.continue","InelasticSpline","DecaySpline"} ) out(t+ls, shape(ls,1,n));
      for( unsigned L=0;L<5;++L ){ for( std::string m : {"",".BL",".EFF",".Dis",".BL.Dis",".EFF.Dis",".EFF.BL"} ) out(t+"GSpline"+m+std::to_string(L), shape("GSpline"+m,L,n)); out(t+"FormFactorSpline"+std::to_string(L), shape("FormFactorSpline",L,n));
        Expression m=P(n+"_mass"), r=P(n+"_radius"), w=P(n+"_width"); auto q2=fcn::abs(Q2(P("s"),P("s1"),P("s2"))); auto l=std::to_string(L);
        out(t+"norm"+l, BlattWeisskopf_Norm(q2*r*r,0,L)); out(t+"bl"+l, BlattWeisskopf(q2*r*r,L)); out(t+"k"+l, kFactor(m,w)); out(t+"q2"+l, Q2(P("s"),P("s1"),P("s2"))); out(t+"aq2"+l, q2); out(t+"w"+l, width(P("s"),P("s1"),P("s2"),m,w,r,L)); }
    } });
  return 0; }();
// compiled end to end: values at given points for given knots
CASE("run", std::ifstream in(getenv("H_SCRIPT")); std::string l; std::string s="["; bool f=true;
  while(std::getline(in,l)){ std::istringstream is(l); unsigned n, np; double a, b; is >> n >> a >> b; static int id=-1; ++id; MinuitParameterSet mps; for(unsigned i=0;i<n;++i){ double v; is >> v; mps.add("S"+std::to_string(id)+"::Spline::y::"+std::to_string(i), i%3==2 ? Flag::Fix : Flag::Free, v, 0.1); }
    std::string nm="S"+std::to_string(id); std::ostringstream a_, b_; a_.precision(17); b_.precision(17); a_ << a; b_ << b; if( id%2 ) OptionsParser::setArg(nm+"::Spline "+std::to_string(n)+" "+a_.str()+" "+b_.str()); else { OptionsParser::setArg(nm+"::Spline::N "+std::to_string(n)); OptionsParser::setArg(nm+"::Spline::Min "+a_.str()); OptionsParser::setArg(nm+"::Spline::Max "+b_.str()); }
    Expression e = getSpline(nm, P("x"), "y", nullptr, id%3==0); std::map<std::string,unsigned> ev={{"x",0}}; CE ce(e,"spl"+std::to_string(id),ev,&mps); ce.prepare(); ce.compile();
    is >> np; std::vector<double> v; for(unsigned i=0;i<np;++i){ double x; is >> x; v.push_back(ce(&x).real()); }
    // change the knots: the compiled function must follow
    for(unsigned i=0;i<n;++i) mps.find(nm+"::Spline::y::"+std::to_string(i))->setCurrentFitVal(2*mps.find(nm+"::Spline::y::"+std::to_string(i))->mean()+1); ce.prepare(); std::istringstream js_(l); std::vector<double> w; { std::istringstream q(l); std::string t; std::vector<double> all; while(q>>t) all.push_back(strtod(t.c_str(),nullptr)); for(unsigned i=0;i<np;++i){ double x=all[3+n+1+i]; w.push_back(ce(&x).real()); } }
    s += (f?"[":",\n[")+arr(v)+","+arr(w)+"]"; f=false; } outj("v", s+"]"); )
HMAIN
