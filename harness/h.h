// Harness support: calls the real AmpGen functions on symbolic leaves and exports the
// resulting expression DAG (or, in --eval mode, the numbers the real code computes).
#pragma once
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
#include "AmpGen/Spline.h"
#include "AmpGen/Array.h"
#include "AmpGen/Expression.h"
#include "AmpGen/Tensor.h"
#include "AmpGen/Utilities.h"

namespace H {
using namespace AmpGen;
struct State {
  bool eval = false;
  std::map<std::string,double> env;
  std::vector<std::string> nodes;                       // json of each node
  std::unordered_map<const IExpression*, int> seen;
  std::vector<Expression> keep;                          // keep nodes alive so pointers stay unique
  bool first = true;
  std::vector<std::string> only;
};
inline State& S(){ static State s; return s; }
inline std::string num(double v){ char b[64]; if( v!=v ) return "\"nan\""; if( v-v != 0 ) return v>0?"\"inf\"":"\"-inf\""; snprintf(b,64,"%.17g",v); return b; }
inline std::string js(const std::string& s){ std::string r="\""; for(unsigned char c: s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<0x20 || c >= 0x7f){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
// symbolic leaf: a named real parameter
inline Expression P(const std::string& name){ auto it = S().env.find(name); return Parameter(name, it==S().env.end()? 0.5 : it->second); }
inline Tensor V4(const std::string& n){ return Tensor({P(n+"x"),P(n+"y"),P(n+"z"),P(n+"t")}, {4}); }
inline int exportNode(const Expression& e);
inline int add(const IExpression* p, const std::string& j){ int id = S().nodes.size(); S().nodes.push_back(j); S().seen[p]=id; return id; }
template<class T> bool bin(const IExpression* p, const char* nm, int& id){
  auto q = dynamic_cast<const T*>(p); if(!q) return false;
  int a = exportNode(q->l()), b = exportNode(q->r());
  id = add(p, std::string("[\"")+nm+"\","+std::to_string(a)+","+std::to_string(b)+"]"); return true; }
template<class T> bool un(const IExpression* p, const char* nm, int& id){
  auto q = dynamic_cast<const T*>(p); if(!q) return false;
  int a = exportNode(q->arg());
  id = add(p, std::string("[\"")+nm+"\","+std::to_string(a)+"]"); return true; }
inline int exportNode(const Expression& e){
  const IExpression* p = e.get();
  if( p == nullptr ){ static int n = 0; S().nodes.push_back("[\"null\"]"); return S().nodes.size()-1; }
  auto it = S().seen.find(p); if( it != S().seen.end() ) return it->second;
  S().keep.push_back(e);
  int id=-1;
  if( auto c = dynamic_cast<const Constant*>(p) ){ auto v=(*c)(); return add(p,"[\"const\","+num(v.real())+","+num(v.imag())+"]"); }
  if( auto c = dynamic_cast<const Parameter*>(p) ) return add(p,"[\"var\","+js(c->name())+"]");
  if( bin<Sum>(p,"+",id) || bin<Sub>(p,"-",id) || bin<Product>(p,"*",id) || bin<Divide>(p,"/",id) || bin<Pow>(p,"pow",id)
   || bin<Fmod>(p,"fmod",id) || bin<LessThan>(p,"<",id) || bin<GreaterThan>(p,">",id) || bin<LessThanEqualTo>(p,"<=",id)
   || bin<GreaterThanEqualTo>(p,">=",id) || bin<And>(p,"&&",id) || bin<Or>(p,"||",id) || bin<Equal>(p,"==",id) || bin<ATan2>(p,"atan2",id) ) return id;
  if( un<Log>(p,"log",id)||un<Exp>(p,"exp",id)||un<Sqrt>(p,"sqrt",id)||un<Abs>(p,"abs",id)||un<Norm>(p,"norm",id)||un<Conj>(p,"conj",id)
   || un<Real>(p,"re",id)||un<Imag>(p,"im",id)||un<Sin>(p,"sin",id)||un<Cos>(p,"cos",id)||un<Tan>(p,"tan",id)||un<ASin>(p,"asin",id)
   || un<ACos>(p,"acos",id)||un<ATan>(p,"atan",id)||un<ISqrt>(p,"isqrt",id)||un<LGamma>(p,"lgamma",id) ) return id;
  if( auto t = dynamic_cast<const Ternary*>(p) ){ int a=exportNode(t->m_cond),b=exportNode(t->m_v1),c=exportNode(t->m_v2);
    return add(p,"[\"ite\","+std::to_string(a)+","+std::to_string(b)+","+std::to_string(c)+"]"); }
  if( auto t = dynamic_cast<const SubTree*>(p) ){ int a=exportNode(t->expression()); return add(p,"[\"sub\","+std::to_string(a)+","+js(std::to_string(t->key()))+"]"); }
  if( auto t = dynamic_cast<const ComplexParameter*>(p) ){ return add(p,"[\"cvar\","+js(t->m_real.name())+","+js(t->m_imag.name())+"]"); }
  if( auto t = dynamic_cast<const Function*>(p) ){ std::string s="[\"fn\","+js(t->m_name); for(auto& a: t->m_args) s+=","+std::to_string(exportNode(a)); return add(p,s+"]"); }
  if( auto t = dynamic_cast<const Spline*>(p) ){ int a=exportNode(t->m_x); return add(p,"[\"fn\","+js("spline "+t->m_name+" "+std::to_string(t->m_nKnots)+" "+num(t->m_min)+" "+num(t->m_max))+","+std::to_string(a)+"]"); }
  if( auto t = dynamic_cast<const Array*>(p) ){ int a=exportNode(t->m_address); return add(p,"[\"fn\","+js("array "+t->m_top.to_string()+" "+std::to_string(t->m_size))+","+std::to_string(a)+"]"); }
  return add(p,"[\"other\","+js(e.to_string())+"]");
}
struct Case { std::string name; std::function<void()> f; };
inline std::vector<Case>& cases(){ static std::vector<Case> c; return c; }
struct Reg { Reg(const std::string& n, std::function<void()> f){ cases().push_back({n,f}); } };
inline std::string& cur(){ static std::string s; return s; }
inline std::ostream& os(){ static std::ofstream f(getenv("H_OUT")? getenv("H_OUT") : "/dev/stdout"); return f; }
inline std::vector<std::map<std::string,double>>& envs(){ static std::vector<std::map<std::string,double>> e; return e; }
inline size_t& envIdx(){ static size_t i=0; return i; }
inline void rec(const std::string& j){ os() << (S().first?"":",\n") << "{\"env\":" << envIdx() << "," << j.substr(1); S().first=false; }
inline std::string cplx(const Expression& e){ auto v = e(); return "["+num(v.real())+","+num(v.imag())+"]"; }
inline void out(const std::string& n, const Expression& e){
  if( S().eval ) rec("{\"case\":"+js(cur())+",\"out\":"+js(n)+",\"dims\":[],\"val\":["+cplx(e)+"]}");
  else           rec("{\"case\":"+js(cur())+",\"out\":"+js(n)+",\"dims\":[],\"ids\":["+std::to_string(exportNode(e))+"]}");
}
inline void out(const std::string& n, const Tensor& t){
  std::string d, v; auto dims=t.dims();
  for(size_t i=0;i<dims.size();++i) d += (i?",":"")+std::to_string(dims[i]);
  for(unsigned i=0;i<t.size();++i) v += std::string(i?",":"") + (S().eval? cplx(t[i]) : std::to_string(exportNode(t[i])));
  rec("{\"case\":"+js(cur())+",\"out\":"+js(n)+",\"dims\":["+d+"],\""+(S().eval?"val":"ids")+"\":["+v+"]}");
}
inline void outn(const std::string& n, double v){ rec("{\"case\":"+js(cur())+",\"out\":"+js(n)+",\"num\":"+num(v)+"}"); }
inline void outs(const std::string& n, const std::string& v){ rec("{\"case\":"+js(cur())+",\"out\":"+js(n)+",\"str\":"+js(v)+"}"); }
inline void outj(const std::string& n, const std::string& json){ rec("{\"case\":"+js(cur())+",\"out\":"+js(n)+",\"json\":"+json+"}"); }
inline int main_(int argc, char** argv){
  std::vector<std::string> only;
  for(int i=1;i<argc;++i){ std::string a=argv[i];
    if(a=="--eval"){ S().eval=true; }
    else if(a=="--env"){ std::ifstream f(argv[++i]); std::string k; double v; while(f>>k>>v) S().env[k]=v; }
    else if(a=="--envs"){ std::ifstream f(argv[++i]); std::string l; std::map<std::string,double> m; while(std::getline(f,l)){ if(l=="---"){ envs().push_back(m); m.clear(); continue; } std::istringstream is(l); std::string k; double v; if(is>>k>>v) m[k]=v; } S().eval=true; }
    else if(a=="--list"){ for(auto& c: cases()) std::cout<<c.name<<"\n"; return 0; }
    else only.push_back(a); }
  os() << "{\"recs\":[\n";
  if( envs().empty() ) envs().push_back(S().env);
  for(size_t ie=0; ie<envs().size(); ++ie) for(auto& c: cases()){
    S().env = envs()[ie]; envIdx() = ie;
    if(!only.empty()){ bool ok=false; for(auto&o:only) if(c.name==o) ok=true; if(!ok) continue; }
    cur()=c.name;
    try { c.f(); } catch( std::exception& ex ){ rec("{\"case\":"+js(c.name)+",\"out\":\"!exception\",\"str\":"+js(ex.what())+"}"); }
  }
  os() << "],\n\"nodes\":[\n";
  for(size_t i=0;i<S().nodes.size();++i) os() << (i?",\n":"") << S().nodes[i];
  os() << "]}\n"; os().flush();
  return 0;
}
}
#define HC2(a,b) a##b
#define HC1(a,b) HC2(a,b)
#define CASE(name, ...) static H::Reg HC1(reg_,__COUNTER__)(name, [](){ __VA_ARGS__ });
#define HMAIN int main(int argc,char**argv){ return H::main_(argc,argv); }
