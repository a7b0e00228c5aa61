// compiled expressions: generated function text, sub-expression order, externals buffer and its update
#include "h.h"
#include "AmpGen/ASTResolver.h"
#include "AmpGen/CompiledExpression.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/Particle.h"
#include "AmpGen/EventType.h"
#include "AmpGen/CompilerWrapper.h"
#include "AmpGen/simd/utils.h"
#include <filesystem>
#include <sstream>
using namespace AmpGen; using namespace H;
typedef const std::string& cs;
static unsigned long long st=88172645463325252ULL; static unsigned rnd(unsigned n){ st^=st<<13; st^=st>>7; st^=st<<17; return unsigned(st%n); }
static double uq(){ static int k=0; ++k; return 0.3 + k*0.0078125 + (k%7)*0x1p-20; }   // distinct parameter values
static std::vector<Expression>& keep(){ static std::vector<Expression> k; return k; }
template<class T> static std::string arr(const std::vector<T>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+num(v[i]); return s+"]"; }
static std::string emapj(const std::map<std::string,unsigned>& m){ std::string s="{"; bool f=true; for(auto& [k,v]: m){ s+=(f?"":",")+js(k)+":"+std::to_string(v); f=false; } return s+"}"; }
// leaves: values recorded so that the buffer can be matched to parameters
static std::map<std::string,double>& vals(){ static std::map<std::string,double> v; return v; }
static std::map<std::string,Expression>& leafs(){ static std::map<std::string,Expression> v; return v; }
static Expression L(cs n){ auto it=leafs().find(n); if(it!=leafs().end() && rnd(2)) return it->second; if(!vals().count(n)) vals()[n]=uq(); return leafs()[n]=Parameter(n,vals()[n]); }
static std::string valj(){ std::string s="{"; bool f=true; for(auto& [k,v]: vals()){ s+=(f?"":",")+js(k)+":"+num(v); f=false; } return s+"}"; }
template<class CE> static std::string dump(cs nm, CE& ce, const Expression& e, const std::map<std::string,unsigned>& ev, const std::string& extra=""){
  keep().push_back(e); std::vector<double> ids;
  if( is<TensorExpression>(e) ){ auto t=cast<TensorExpression>(e).tensor(); for(unsigned i=0;i<t.size();++i) ids.push_back(exportNode(t[i])); } else ids.push_back(exportNode(e));
  std::stringstream ss; ce.to_stream(ss); std::vector<double> adr; for(auto& c: ce.orderedCacheFunctors()){ adr.push_back(c->address()); adr.push_back(c->size()); }
  return "{\"name\":"+js(nm)+",\"prog\":"+js(ce.progName())+",\"ids\":"+arr(ids)+",\"text\":"+js(ss.str())+",\"evt\":"+emapj(ev)+",\"ext\":"+arr(ce.externBuffer())+",\"adr\":"+arr(adr)+",\"vals\":"+valj()+",\"size\":"+std::to_string(ce.returnTypeSize())+extra+"}"; }
static void emit(cs n, const std::vector<std::string>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s += (i?",\n":"")+v[i]; outj(n, s+"]"); }
typedef CompiledExpression<complex_t(const double*, const double*)> CE;
typedef CompiledExpression<void(complex_t*, const size_t*, const double*, const double*)> CER;
typedef CompiledExpression<complex_v(const double*, const real_v*)> CEV;
static std::map<std::string,unsigned> ev0={{"E0",0},{"E1",1},{"E2",2},{"E3",3},{"E10",4}};
// random DAG of named sub-expressions: sharing, diamonds, nesting, duplicates with the same text but different nodes
static std::vector<Expression> dag(int n, bool simp, bool avx=false){
  std::vector<Expression> p; for(auto k: {"E0","E1","E2","E3","E10","a","b","c"}) p.push_back(L(k)); p.push_back(Constant(0.5)); p.push_back(Constant(0.25,-2));
  auto pick=[&]{ return rnd(3)==0? p[rnd(10)] : p[ p.size()-1-rnd(std::min<unsigned>(p.size(),8)) ]; };
  for(int i=0;i<n;++i){ auto x=pick(), y=pick(); Expression r; switch(rnd(9)){ case 0: case 1: r=x+y; break; case 2: r=x-y; break; case 3: case 4: r=x*y; break; case 5: r=x/(y*y+2.); break; case 6: r=fcn::exp(x)*y; break; case 7: if(avx){ r=Ternary(L("E0")>L("E1"),fcn::exp(L("E2")),L("E3")*2.)*x; break; } r=Ternary(fcn::norm(x)>fcn::norm(y),x,y); break; default: r= avx? fcn::sqrt(L("E1")*L("E1")+1.)-y : fcn::sqrt(fcn::norm(x)+1.)-y; }
    switch(rnd(4)){ case 0: break; case 1: r=make_cse(r, simp); break; case 2: r=make_cse(r,false); break; default: r=SubTree(r); }
    p.push_back(r); }
  return p; }
static void fresh(){ vals().clear(); leafs().clear(); }
static void dags(cs nm, int N, bool simp, bool avx){ std::vector<std::string> o;
  for(int i=0;i<N;++i){ fresh(); auto p=dag(4+rnd(14),simp,avx); auto e=p.back()+p[p.size()-2]*p[p.size()-3]; std::string n=nm+std::to_string(i);
    if(avx){ auto ce=new CEV(e,n,ev0); o.push_back(dump(n,*ce,e,ev0,",\"avx\":1")); } else { auto ce=new CE(e,n,ev0); o.push_back(dump(n,*ce,e,ev0)); } }
  emit("f",o); }
CASE("dag",      dags("dag",300,false,false); )
CASE("dag_simp", dags("simp",300,true,false); )
CASE("dag_avx",  dags("avx",100,false,true); )
static Expression chain(int n){ Expression x=L("E0"); for(int i=0;i<n;++i) x=make_cse(x*x + L(i%2?"a":"E1")); return x; }
CASE("shapes", std::vector<std::string> o;
  auto one=[&](cs n, const Expression& e){ auto ce=new CE(e,n,ev0); o.push_back(dump(n,*ce,e,ev0)); };
  fresh(); one("constant", Constant(0.1)); one("complex_constant", Constant(0.1,-0.7)); one("event_variable", L("E10")); one("parameter", L("a")); for(int n=1;n<=40;n+=3) one("chain"+std::to_string(n), chain(n));
  { auto t=make_cse(L("a")*L("E0")); auto u=make_cse(t+L("b")); auto v=make_cse(t-L("b")*u); one("diamond", u*v+t); one("late_leaf", make_cse(make_cse(u*v)*t)+u); one("leaf_last", u+make_cse(v*make_cse(u*u))); }
  { Expression s=0; for(int i=0;i<60;++i) s=s+make_cse(L("a"+std::to_string(i))*L("E1")); one("sixty_parameters", s); }
  { auto k=make_cse(L("E0")+0.5); one("function_argument", Function("f",{make_cse(k*L("a")),L("E1")})*k); }
  { one("ternary", Ternary(make_cse(L("E0")*2.)>L("a"), make_cse(fcn::sqrt(L("E1"))), make_cse(make_cse(L("E2"))*L("b")))); }
  for(int k=0;k<24;++k){ auto c=L("E1"), d=L("b"+std::to_string(k)), b=L("E2"); Expression x1, x2; if(k%2){ x1=make_cse(make_cse(c*d)+b,true); x2=make_cse(c*d+b,true); } else { x2=make_cse(c*d+b,true); x1=make_cse(make_cse(c*d)+b,true); }
    if(k%4<2) std::swap(x1,x2); Expression r=make_cse(x2*L("E0")); if(k%8<4) r=make_cse(make_cse(r+L("a"))*r); one("same_name"+std::to_string(k), r*x1+L("a")); }
  { one("complex_parameter", ComplexParameter(Parameter("ru",vals()["ru"]=uq()),Parameter("rv",vals()["rv"]=uq()))*L("E0")); }
  emit("f",o); )
CASE("tensor", std::vector<std::string> o;
  for(int i=0;i<40;++i){ fresh(); auto p=dag(6+rnd(12),false); Tensor t(std::vector<unsigned>(1+rnd(2), 2+rnd(3))); for(unsigned j=0;j<t.size();++j) t[j]=p[p.size()-1-rnd(std::min<unsigned>(12,p.size()))]; Expression e=TensorExpression(t); std::string n="tensor"+std::to_string(i);
    auto ce=new CER(e,n,ev0); o.push_back(dump(n,*ce,e,ev0,",\"rto\":1")); }
  fresh(); { auto p=dag(9,false); auto ce=new CER(p.back(),"scalar_rto",ev0); o.push_back(dump("scalar_rto",*ce,p.back(),ev0,",\"rto\":1")); }
  emit("f",o); )
CASE("debug", std::vector<std::string> o;
  for(int i=0;i<40;++i){ fresh(); auto p=dag(6+rnd(10),false); DebugSymbols db; for(int k=0;k<4;++k){ db.emplace_back("sym"+std::to_string(k), p[p.size()-1-rnd(std::min<unsigned>(12,p.size()))]); } std::string n="debug"+std::to_string(i), d=",\"db\":["; for(size_t k=0;k<db.size();++k) d+=(k?",":"")+std::to_string(exportNode(db[k].second));
    auto ce=new CE(p.back(),n,ev0,db); o.push_back(dump(n,*ce,p.back(),ev0,d+"]")); }
  emit("f",o); )
// parameters bound to a parameter set: values follow the set after prepare(), change flag raised exactly when something changed
template<class C> static std::string track(C& ce, MinuitParameterSet& mps, double* lam){
  std::string s=",\"hist\":["; auto snap=[&](bool f, cs what){ std::string v="{"; bool ff=true; for(auto& p: mps){ v+=(ff?"":",")+js(p->name())+":"+num(p->mean()); ff=false; } if(lam) v+=(ff?"":",")+js("lambda")+":"+num(*lam); s+=(s.back()=='['?"":",")+std::string("{\"what\":")+js(what)+",\"vals\":"+v+"},\"ext\":"+arr(ce.externBuffer())+",\"changed\":"+(ce.hasExternalsChanged()?"1":"0")+"}"; };
  snap(true,"built"); ce.resetExternals(); ce.prepare(); snap(false,"prepared again"); 
  std::vector<MinuitParameter*> ps; for(auto& p: mps) if(!dynamic_cast<MinuitExpression*>(p)) ps.push_back(p);
  for(size_t k=0;k<ps.size();++k){ ce.resetExternals(); ps[k]->setCurrentFitVal(uq()+7); ce.prepare(); snap(true,"changed "+ps[k]->name()); ce.resetExternals(); ce.prepare(); snap(false,"unchanged"); }
  if(lam){ ce.resetExternals(); *lam = uq()+7; ce.prepare(); snap(true,"changed lambda"); }
  ce.resetExternals(); for(auto& p: ps) p->setCurrentFitVal(uq()+9); ce.prepare(); snap(true,"changed all"); ce.resetExternals(); mps.resetToInit(); ce.prepare(); snap(true,"changed: reset");
  return s+"]"; }
CASE("mps", std::vector<std::string> o;
  for(int i=0;i<30;++i){ fresh(); auto mps=new MinuitParameterSet(); for(auto n: {"a","b"}){ L(n); mps->add(n,Flag::Free,vals()[n]=uq(),0.1); } mps->add("z",Flag::Fix,vals()["z"]=uq(),0); mps->add("E2",Flag::Free,uq(),0.1);   // E2 is also an event variable: the event wins
    auto p=dag(5+rnd(10),false); auto lam=new double(uq()); vals()["lambda"]=*lam; auto le=Expression(LambdaExpression([lam]()->double{ return *lam; })); S().keep.push_back(le); add(le.get(),"[\"var\",\"lambda\"]");
    auto lk=Expression(MinuitParameterLink(mps->find("z"))); S().keep.push_back(lk); add(lk.get(),"[\"var\",\"z\"]"); auto lk2=Expression(MinuitParameterLink(mps->find("a"))); S().keep.push_back(lk2); add(lk2.get(),"[\"var\",\"a\"]");
    mps->add("cc",Flag::CompileTimeConstant,vals()["cc"]=uq(),0); auto lk3=Expression(MinuitParameterLink(mps->find("cc"))); S().keep.push_back(lk3); add(lk3.get(),"[\"var\",\"cc\"]");
    auto e=p.back()*lk+make_cse(le*lk2)+p[p.size()-2]*lk3; std::string n="mps"+std::to_string(i); auto ce=new CE(e,n,ev0,mps); auto d=dump(n,*ce,e,ev0); auto h=track(*ce,*mps,lam); o.push_back(d.substr(0,d.size()-1)+h+"}"); }
  emit("f",o); )
// a parameter of the set that is itself an expression of other parameters
CASE("mps_expr", std::vector<std::string> o; fresh();
  auto mps=new MinuitParameterSet(); for(auto n: {"a","b"}) mps->add(n,Flag::Free,vals()[n]=uq(),0.1);
  auto la=Expression(MinuitParameterLink(mps->find("a"))), lb=Expression(MinuitParameterLink(mps->find("b"))); S().keep.push_back(la); S().keep.push_back(lb); add(la.get(),"[\"var\",\"a\"]"); add(lb.get(),"[\"var\",\"b\"]");
  auto ex=make_cse(la*la)+lb*0.5; auto mex=new MinuitExpression("d",ex); mps->add(mex); auto link=Expression(MinuitParameterLink(mex)); S().keep.push_back(link); int id=exportNode(ex); add(link.get(),"[\"sub\","+std::to_string(id)+",\"-\"]");
  auto e=link*L("E0")+la; auto ce=new CE(e,"mps_expr",ev0,mps); auto d=dump("mps_expr",*ce,e,ev0); auto h=track(*ce,*mps,nullptr); o.push_back(d.substr(0,d.size()-1)+h+"}");
  auto pd=Expression(Parameter("d",0)); e=pd*L("E0")+pd; vals()["d"]=mex->mean(); ce=new CE(e,"mps_expr2",ev0,mps); d=dump("mps_expr2",*ce,e,ev0); h=track(*ce,*mps,nullptr); o.push_back(d.substr(0,d.size()-1)+h+"}");
  emit("f",o); )
// parameter values as literals
CASE("literal_parameters", std::vector<std::string> o; OptionsParser::setArg("ASTResolver::CompileTimeConstants 1");
  for(int i=0;i<20;++i){ fresh(); auto p=dag(6+rnd(8),false); std::string n="ctc"+std::to_string(i); vals(); 
    auto neg=Expression(Parameter("neg",vals()["neg"]=-1.2345678901e-5*(i+1))); auto e=(p.back()-neg)*neg-L("E0"); auto ce=new CE(e,n,ev0); o.push_back(dump(n,*ce,e,ev0,",\"lit\":1")); 
    auto mps=new MinuitParameterSet(); mps->add("neg",Flag::CompileTimeConstant,vals()["neg"],0); mps->add("a",Flag::Free,vals()["a"],0.1); auto lk=Expression(MinuitParameterLink(mps->find("neg"))); S().keep.push_back(lk); add(lk.get(),"[\"var\",\"neg\"]"); auto e2=e+lk*L("E1")-lk; auto ce2=new CE(e2,n+"m",ev0,mps); o.push_back(dump(n+"m",*ce2,e2,ev0,",\"lit\":1")); }
  OptionsParser::setArg("ASTResolver::CompileTimeConstants 0"); emit("f",o); )
CASE("with_parameters", std::vector<std::string> o;
  for(int i=0;i<10;++i){ fresh(); auto p=dag(6+rnd(8),false); L("a"); vals()["tiny"]=1.2345678901234567e-7*(i+1); auto e=p.back()*L("a")+Expression(Parameter("tiny",vals()["tiny"])); std::string n="wp"+std::to_string(i);
    auto ce=new CE(e,n,ev0,includeParameters()); o.push_back(dump(n,*ce,e,ev0,",\"wp\":1")); 
    Tensor t(std::vector<unsigned>{3}); for(unsigned j=0;j<3;++j) t[j]=p[p.size()-1-j]+e; Expression te=TensorExpression(t); auto cr=new CER(te,n+"t",ev0,includeParameters()); o.push_back(dump(n+"t",*cr,te,ev0,",\"rto\":1,\"wp\":1")); }
  emit("f",o); )
// real amplitudes
static std::vector<std::pair<std::string,std::string>> decays(){ return {
  {"D0{K-,pi+}","D0 K- pi+"}, {"D0{K*(892)bar0{K-,pi+},pi0}","D0 K- pi+ pi0"}, {"D0[D]{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","D0 K- pi+ pi+ pi-"},{"D0{K(1)(1270)bar-{rho(770)0{pi+,pi-},K-},pi+}","D0 K- pi+ pi+ pi-"}, {"D0{a(1)(1260)+{rho(770)0{pi+,pi-},pi+},K-}","D0 K- pi+ pi+ pi-"}, {"D0{PiPi00[GounarisSakurai]{pi+,pi-},KPi00[LASS]{K-,pi+}}","D0 K- pi+ pi+ pi-"},
  {"B+{J/psi0{mu+,mu-},K+}","B+ mu+ mu- K+"}, {"Lambda(c)+{K*(892)bar0{K-,pi+},p+}","Lambda(c)+ K- pi+ p+"} }; }
template<class C> static void amp(std::vector<std::string>& o, cs nm, cs dec, cs et, cs extra, bool pols){ fresh(); EventType type(split(et,' ')); auto ev=type.getEventFormat(); Particle p(dec, type.finalStates()); DebugSymbols db; Expression e; 
  std::vector<int> pol; if(pols){ pol.push_back(type.mother()=="B+"? 0 : 1); for(auto& f: type.finalStates()) pol.push_back(Particle(f).spin()==0? 0 : 1); } e=p.getExpression(&db,pol);
  std::string d=",\"db\":["; for(size_t k=0;k<db.size();++k) d+=(k?",":"")+std::to_string(exportNode(db[k].second)); 
  for(auto& n: S().keep) if(auto q=dynamic_cast<const Parameter*>(n.get())) if(!ev.count(q->name())) if(!vals().count(q->name())) vals()[q->name()]=uq();
  auto mps=new MinuitParameterSet(); for(auto& [k,v]: vals()) mps->add(k,Flag::Free,v,0.1);
  auto ce=new C(e,nm,ev,db,mps); o.push_back(dump(nm,*ce,e,ev,d+"]"+extra)); }
CASE("amplitude", std::vector<std::string> o; int k=0; for(auto& [d,t]: decays()){ amp<CE>(o,"amp"+std::to_string(k++),d,t,",\"decay\":"+js(d)+",\"same\":1", d[0]=='B' || d[0]=='L'); } emit("f",o); )
CASE("amplitude_avx", std::vector<std::string> o; int k=0; for(auto& [d,t]: decays()){ if(d.find("LASS")!=std::string::npos) continue; // no arctangent in the SIMD dialect
  amp<CEV>(o,"ampv"+std::to_string(k++),d,t,",\"decay\":"+js(d)+",\"same\":1,\"avx\":1", d[0]=='B' || d[0]=='L'); } emit("f",o); )
// the whole pipeline: source written, compiled, linked and called through the public interface; parameters changed in between
static std::string cj(const std::vector<complex_t>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",[":"[")+num(v[i].real())+","+num(v[i].imag())+"]"; return s+"]"; }
static std::string call(cs what, const std::vector<double>& ids, const std::vector<double>& e, const std::vector<complex_t>& got){ return "{\"what\":"+js(what)+",\"ids\":"+arr(ids)+",\"vals\":"+valj()+",\"evt\":"+emapj(ev0)+",\"x\":"+arr(e)+",\"got\":"+cj(got)+"}"; }
CASE("pipeline", std::vector<std::string> o; char tmpl[]="/tmp/vpipeXXXXXX"; std::string dir=mkdtemp(tmpl); OptionsParser::setArg("CompilerWrapper::Flags -O1 --std=c++17 -w");
  auto point=[]{ std::vector<double> e(5); for(auto& x: e) x=0.3+rnd(1000)*0.0017; return e; };
  auto ids=[](const Expression& e){ keep().push_back(e); std::vector<double> r; if( is<TensorExpression>(e) ){ auto t=cast<TensorExpression>(e).tensor(); for(unsigned i=0;i<t.size();++i) r.push_back(exportNode(t[i])); } else r.push_back(exportNode(e)); return r; };
  { // one function per library, parameters followed through changes, copies share the function
    fresh(); auto mps=new MinuitParameterSet(); for(auto n: {"a","b","c"}){ L(n); mps->add(n,Flag::Free,vals()[n]=uq(),0.1); }
    auto p=dag(9,false); auto e=p.back()+p[p.size()-2]*L("a")+L("E3"); auto i=ids(e); CE ce(e,"pipe_one",ev0,mps); ce.prepare(); ce.compile(dir+"/one"); auto x=point();
    o.push_back(call("ready",{},{},{complex_t(ce.isReady()&&ce.isLinked(),0)}));
    o.push_back(call("one function",i,x,{ce(x.data())}));
    for(auto n: {"a","b","c"}) mps->find(n)->setCurrentFitVal(vals()[n]=uq()+1); ce.prepare(); o.push_back(call("after the parameters changed",i,x,{ce(x.data())}));
    CE cp(ce); x=point(); o.push_back(call("copy",i,x,{cp(x.data())}));
    std::vector<double> buf(5*7); std::vector<complex_t> out(4*3,complex_t(-7,0)); std::vector<std::vector<double>> xs; for(int k=0;k<4;++k){ xs.push_back(point()); std::copy(xs[k].begin(),xs[k].end(),buf.begin()+7*k); } auto ext=ce.externBuffer();
    ce.batch(size_t(4),size_t(7),size_t(3),out.data(),ext.data(),buf.data()); for(int k=0;k<4;++k) o.push_back(call("batch",i,xs[k],{out[3*k]})); }
  for(int lit=0;lit<2;++lit){ // every kind of parameter, many of them, some written as literals
    fresh(); if(lit) OptionsParser::setArg("ASTResolver::CompileTimeConstants 1"); auto mps=new MinuitParameterSet(); std::vector<std::pair<std::string,Flag>> K={{"fr",Flag::Free},{"fx",Flag::Fix},{"hd",Flag::Hide},{"bl",Flag::Blind},{"ct",Flag::CompileTimeConstant}}; for(int k=0;k<24;++k) K.push_back({"par"+std::to_string(k),k%3?Flag::Free:Flag::Fix});
    Expression e=L("E1"); for(auto& [n,f]: K){ auto l=L(n); mps->add(n,f,vals()[n]=uq(),f==Flag::Fix||f==Flag::CompileTimeConstant?0:.1); e=e*l/(1+l*l)+L("E"+std::to_string(n.size()%4))-l; } auto i=ids(e); CE ce(e,lit?"pipe_lit":"pipe_flags",ev0,mps); ce.prepare(); ce.compile(dir+(lit?"/lit":"/flags")); auto x=point();
    o.push_back(call("parameters of every kind",i,x,{ce(x.data())})); for(auto& [n,f]: K) if(f!=Flag::CompileTimeConstant) mps->find(n)->setCurrentFitVal(vals()[n]=uq()+1); ce.prepare(); o.push_back(call(lit?"parameters of every kind changed, compile-time constants as literals":"parameters of every kind changed",i,x,{ce(x.data())}));
    for(auto& [n,f]: K) if(f==Flag::Fix){ mps->find(n)->setCurrentFitVal(vals()[n]=uq()+2); ce.prepare(); o.push_back(call("one fixed parameter changed: "+n,i,x,{ce(x.data())})); }
    if(lit) OptionsParser::setArg("ASTResolver::CompileTimeConstants 0"); }
  { // several in one library, called out of order
    fresh(); std::vector<CompiledExpressionBase*> v; std::vector<CE*> c; std::vector<std::vector<double>> i; for(int k=0;k<8;++k){ auto p=dag(6+rnd(8),k%2); i.push_back(ids(p.back()+p[p.size()-3])); c.push_back(new CE(keep().back(),"pipe_"+std::to_string(k)+(k%2?"-":"+"),ev0)); v.push_back(c.back()); c.back()->prepare(); }
    CompilerWrapper().compile(v,dir+"/many.cpp"); for(int k=7;k>=0;--k){ auto x=point(); o.push_back(call("one of many",i[k],x,{(*c[k])(x.data())})); } }
  { // vector result
    fresh(); auto p=dag(9,false); Tensor t(std::vector<unsigned>{5}); for(unsigned j=0;j<5;++j) t[j]=p[p.size()-1-j]; Expression e=TensorExpression(t); auto i=ids(e); CER ce(e,"pipe_tensor",ev0); ce.prepare(); ce.compile(dir+"/tensor"); auto x=point();
    std::vector<size_t> s={4,0,2,1,3}; std::vector<complex_t> r(5), q(5); auto ext=ce.externBuffer(); ce(r.data(),s.data(),ext.data(),x.data()); for(int j=0;j<5;++j) q[j]=r[s[j]]; o.push_back(call("tensor",i,x,q)); }
  { // lanes, with debugging output
    fresh(); auto p=dag(9,false,true); DebugSymbols db; for(int k=0;k<3;++k) db.emplace_back("sym"+std::to_string(k),p[p.size()-1-k]); db.emplace_back("param",L("E1")); auto e=p.back()*2.+p[p.size()-2]; auto i=ids(e); std::vector<double> di; for(auto& d: db) di.push_back(exportNode(d.second));
    CEV ce(e,"pipe_avx",ev0,db); ce.prepare(); ce.compile(dir+"/avx"); constexpr unsigned W=utils::size<real_v>::value; std::vector<std::vector<double>> xs; for(unsigned k=0;k<W;++k) xs.push_back(point()); std::vector<real_v> v(5); for(unsigned j=0;j<5;++j){ alignas(64) double b[W]; for(unsigned k=0;k<W;++k) b[k]=xs[k][j]; v[j]=real_v(b); }
    auto z=ce(v.data()); for(unsigned k=0;k<W;++k) o.push_back(call("lane",i,xs[k],{complex_t(utils::at(z.real(),k),utils::at(z.imag(),k))}));
    std::stringstream ss; auto old=std::cout.rdbuf(ss.rdbuf()); ce.debug(v.data()); std::cout.rdbuf(old); auto d=call("debug",di,xs[0],{}); o.push_back(d.substr(0,d.size()-1)+",\"text\":"+js(ss.str())+"}"); }
  std::filesystem::remove_all(dir); emit("calls",o); )
CASE("names", std::vector<std::string> o; std::vector<std::string> v={"D0{K*(892)bar0{K-,pi+},rho(770)0{pi+,pi-}}","1abc","a-b","a+b","f'","K*","9","","x y","a::b","D0[D;GSpline.EFF]{K-,pi+}"}; for(auto& s: v) if(s.size()) o.push_back("["+js(s)+","+js(programatic_name(s))+"]"); emit("names",o); )
HMAIN
