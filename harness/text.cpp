// text utilities, options files, parameter sets. Commands are read from the file named by H_SCRIPT: one per line,
// fields separated by tabs, %XX-encoded; a scenario is one line whose commands are separated by the field ";;".
#include "h.h"
#include "AmpGen/Utilities.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/ExpressionParser.h"
#include "AmpGen/Spline.h"
#include "AmpGen/Tensor.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace AmpGen; using namespace H;
using VS = std::vector<std::string>;
static std::string ks(long a){ return std::to_string(a); }
static std::string dec(const std::string& s){ std::string r; for(size_t i=0;i<s.size();++i) if( s[i]=='%' && i+2<s.size() ){ r += char(strtol(s.substr(i+1,2).c_str(),nullptr,16)); i+=2; } else r += s[i]; return r; }
static VS fields(const std::string& l, char d='\t'){ VS r; size_t p=0; for(;;){ auto e=l.find(d,p); r.push_back(dec(l.substr(p,e==std::string::npos?e:e-p))); if( e==std::string::npos ) return r; p=e+1; } }
static std::string strs(const VS& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+js(v[i]); return s+"]"; }
template<class T> static std::string nums(const std::vector<T>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+num(double(v[i])); return s+"]"; }
template<class T> static std::string lex(const std::string& w){ bool st=true; auto v = lexical_cast<T>(w,st); return std::string("[")+(st?"1":"0")+","+num(double(v))+"]"; }
template<class T> static std::string lexf(const std::string& w){ bool st=false; lexical_cast<T>(w,st); return st?"1":"0"; }
static std::string tens(const Expression& e){ if( !is<TensorExpression>(e) ){ auto v=e(); return "["+num(v.real())+","+num(v.imag())+"]"; } auto t = cast<TensorExpression>(e).tensor(); std::string s="{\"t\":["; for(unsigned i=0;i<t.size();++i) s+=(i?",":"")+tens(t[i]); return s+"]}"; }
template<class T> static std::string named(const std::string& n, const VS& d){ std::vector<T> dv; bool st=true; for(auto& x : d) dv.push_back(lexical_cast<T>(x,st));
  if( dv.size()==1 ){ NamedParameter<T> p(n, dv[0]); return nums(std::vector<double>(p.getVector().begin(),p.getVector().end())); } NamedParameter<T> p(n,dv); return nums(std::vector<double>(p.getVector().begin(),p.getVector().end())); }
static std::string par(const MinuitParameter* p){ if( !p ) return "null"; return "["+js(p->name())+","+num(p->mean())+","+num(p->meanInit())+","+num(p->stepInit())+","+num(p->minInit())+","+num(p->maxInit())+","+num(p->err())+","+js(to_string<Flag>(p->flag()))+","+ks(p->isFree())+","+ks(p->isFixed())+","+num(double(*p))+","+ks(p->isBlind())+","+num(p->errNeg())+","+num(p->errPos())+"]"; }
static MinuitParameterSet* m=nullptr;
static std::string run(const VS& a){
  auto& c = a[0]; VS r(a.begin()+1,a.end()); auto I=[&](size_t k){ return atol(r[k].c_str()); }; auto D=[&](size_t k){ return strtod(r[k].c_str(),nullptr); };
  auto rest=[&](size_t k){ return VS(r.begin()+std::min(k,r.size()), r.end()); };
  if( c=="split1" ) return strs(split(r[0], r[1][0], I(2)!=0));
  if( c=="split2" ) return strs(split(r[0], std::vector<char>(r[1].begin(),r[1].end()), I(2)!=0));
  if( c=="items" ) return strs(r.size()>1 ? getItems(r[0], {r[1],r[2]}, r[3]) : getItems(r[0]));
  if( c=="findall" ) return nums(findAll(r[0],r[1]));
  if( c=="vecfind" ){ std::string s="["; bool f=true; for(auto& kv : vecFindAll(r[0],rest(1))){ s += (f?"[":",[")+ks(kv.first)+","+js(kv.second)+"]"; f=false; } return s+"]"; }
  if( c=="next" ){ auto p = find_next_of(r[0], rest(2), I(1)); return p==std::string::npos ? "-1" : ks(p); }
  if( c=="replace" ) return js(replaceAll(r[0],r[1],r[2]));
  if( c=="replaces" ){ std::vector<std::pair<std::string,std::string>> v; for(size_t i=1;i+1<r.size();i+=2) v.emplace_back(r[i],r[i+1]); return js(replaceAll(r[0],v)); }
  if( c=="hash" ) return ks(FNV1a_hash(r[0]));
  if( c=="edit" ) return ks(editDistance(r[0],r[1]));
  if( c=="round" ) return js(AmpGen::round(D(0), I(1)));
  if( c=="werr" ) return js(numberWithError(D(0),D(1),I(2)));
  if( c=="wild" ) return ks(stringMatchesWildcard(r[0],r[1]));
  if( c=="trim" ) return strs({ltrim(r[0]),rtrim(r[0]),trim(r[0])});
  if( c=="swap" ){ auto s=r[0]; swapChars(s,r[1][0],r[2][0]); return js(s); }
  if( c=="ncr" ){ std::string s="["; bool f=true; for(auto& v : nCr<int>(I(0),I(1))){ s+=(f?"":",")+nums(v); f=false; } return s+"]"; }
  if( c=="comb" ){ std::vector<std::vector<int>> e; int k=0; for(auto& x : r){ std::vector<int> v; for(int i=0;i<atoi(x.c_str());++i) v.push_back(k++); e.push_back(v); } std::string s="["; bool f=true; for(auto& v : all_combinations(e)){ s+=(f?"":",")+nums(v); f=false; } return s+"]"; }
  if( c=="lex" ) return "["+lex<double>(r[0])+","+lex<int>(r[0])+","+lex<unsigned>(r[0])+","+lex<float>(r[0])+","+lex<bool>(r[0])+","+lex<long>(r[0])+","+lex<unsigned long>(r[0])+"]";
  if( c=="lexf" ) return "["+lexf<double>(r[0])+","+lexf<int>(r[0])+","+lexf<unsigned>(r[0])+","+lexf<float>(r[0])+","+lexf<bool>(r[0])+","+lexf<long>(r[0])+","+lexf<unsigned long>(r[0])+"]";
  if( c=="m.tens" ) return tens(ExpressionParser::parse(r.cbegin(), r.cend(), m));
  if( c=="vts" ) return js(vectorToString(rest(1), r[0]));
  if( c=="psort" ){ std::vector<double> v; for(size_t i=1;i<r.size();++i) v.push_back(D(i)); parallel_sort(v.begin(),v.end(),I(0)); return nums(v); }
  if( c=="pacc" ){ std::vector<double> v; for(size_t i=0;i<r.size();++i) v.push_back(D(i)); return num(parallel_accumulate(v.begin(),v.end(),0.,[](double x){ return 2*x; })); }
  if( c=="setenv" ){ setenv(r[0].c_str(),r[1].c_str(),1); return "1"; }
  if( c=="expand" ) return js(expandGlobals(r[0]));
  if( c=="file" ) return strs(r.size()>1 ? vectorFromFile(r[0], r[1][0]) : vectorFromFile(r[0]));
  if( c=="exists" ) return "["+ks(fileExists(r[0]))+","+ks(isDir(r[0]))+"]";
  if( c=="ls" ) return strs(r.size()>1 ? getListOfFiles(r[0],r[1]) : getListOfFiles(r[0]));
  // options
  if( c=="o.new" ){ OptionsParser::gOptionsParser = nullptr; OptionsParser::getMe()->setQuiet(); return "1"; }
  if( c=="o.import" ){ OptionsParser::getMe()->import(r[0]); return "1"; }
  if( c=="o.arg" ){ OptionsParser::setArg(r[0]); return "1"; }
  if( c=="o.argv" ){ static std::vector<std::string> keep; keep = r; keep.insert(keep.begin(),"prog"); std::vector<char*> v; for(auto& s : keep) v.push_back(&s[0]); v.push_back(nullptr); OptionsParser::setArgs(keep.size(), v.data()); return "1"; }
  if( c=="o.dump" ){ std::string s="{\"ordered\":["; bool f=true; for(auto& l : OptionsParser::getMe()->getInputOrdered()){ s+=(f?"":",")+strs(l); f=false; } s+="],\"map\":{"; f=true; for(auto& kv : *OptionsParser::getMe()){ s+=(f?"":",")+js(kv.first)+":"+strs(kv.second); f=false; } return s+"}}"; }
  if( c=="o.named" ){ auto t=r[0], n=r[1]; auto d=rest(2);
    if( t=="double" ) return named<double>(n,d); if( t=="int" ) return named<int>(n,d); if( t=="unsigned" ) return named<unsigned>(n,d); if( t=="bool" ) return named<bool>(n,d); if( t=="size_t" ) return named<size_t>(n,d);
    if( d.size()==1 ) return strs(NamedParameter<std::string>(n,d[0]).getVector()); return strs(NamedParameter<std::string>(n,d).getVector()); }
  if( c=="o.getval" ){ NamedParameter<double> p(r[0], 0.); try { return num(p.getVal(I(1))); } catch( std::runtime_error& ){ return "\"range\""; } }
  // parameter sets
  if( c=="m.new" ){ m = new MinuitParameterSet(); return "1"; }
  if( c=="m.del" ){ delete m; m=nullptr; return "1"; }
  if( c=="m.add" ) return par(m->add(r[0], parse<Flag>(r[1]), D(2), D(3), D(4), D(5)));
  if( c=="m.addp" ) return ks(m->add(new MinuitParameter(r[0], parse<Flag>(r[1]), D(2), D(3), D(4), D(5))));
  if( c=="m.addq" ) return ks(m->add(new MinuitParameter(r[0], D(1), D(2), D(3), D(4))));
  if( c=="m.addnull" ) return ks(m->add(nullptr));
  if( c=="m.get" ) return par(m->addOrGet(r[0], parse<Flag>(r[1]), D(2), D(3), D(4), D(5)));
  if( c=="m.try" ){ m->tryParameter(rest(0)); return "1"; }
  if( c=="m.alias" ){ m->tryAlias(rest(0)); return "1"; }
  if( c=="m.load" ){ m->loadFromStream(); return "1"; }
  if( c=="m.loadf" ){ m->loadFromFile(r[0]); return "1"; }
  if( c=="m.un" ){ auto p=m->find(r[0]); return ks(m->unregister(p)); }
  if( c=="m.ren" ) return ks(m->rename(r[0],r[1]));
  if( c=="m.renp" ){ auto p=m->find(r[0]); return ks( p ? m->rename(p->name(),r[1]) : m->rename(r[0],r[1]) ); }
  if( c=="m.find" ) return "["+par(m->find(r[0]))+","+par(m->at(r[0]))+","+par((*m)[r[0]])+","+par((*(const MinuitParameterSet*)m)[r[0]])+"]";
  if( c=="m.val" ) return num((*m)(r[0]));
  if( c=="m.set" ){ MinuitParameterSet o; for(size_t i=0;i+1<r.size();i+=2) o.add(r[i], Flag(Flag::Free), D(i+1), 0.25); m->set(o); return "1"; }
  if( c=="m.reset" ){ m->resetToInit(); return "1"; }
  if( c=="m.map" ){ std::vector<unsigned> v; for(size_t i=0;i<r.size();++i) v.push_back(I(i)); m->setMapping(v); return "1"; }
  if( c=="m.minuit" ){ std::vector<double> v; for(size_t i=0;i<r.size();++i) v.push_back(D(i)); m->setFromMinuit(v.data()); return "1"; }
  if( c=="m.mstate" ){ std::vector<double> v; for(size_t i=0;i<r.size();++i) v.push_back(D(i)); for(auto& p : *m) p->setFromMinuitState(v.data()); return "1"; }
  if( c=="m.idx" ){ m->setFromMinuitIndex(I(0), D(1)); return num(m->getFromMinuitIndex(I(0))); }
  if( c=="m.at" ){ auto p=m->at(size_t(I(0))); return par(p); }
  if( c=="m.op" ){ auto p=m->find(r[0]); auto& o=r[1]; if( !p ) return "null";
    if( o=="fix" ) p->fix(); else if( o=="free" ) p->setFree(); else if( o=="val" ) p->setVal(D(2)); else if( o=="cur" ) p->setCurrentFitVal(D(2)); else if( o=="init" ){ if( r.size()>3 ) p->setInit(D(2),D(3)); else p->setInit(D(2)); }
    else if( o=="lim" ) p->setLimits(D(2),D(3)); else if( o=="step" ) p->setStepInit(D(2)); else if( o=="scale" ) p->scaleStep(D(2)); else if( o=="res" ){ p->setResult(D(2),D(3),D(4),D(5)); return "["+num(p->errNeg())+","+num(p->errPos())+"]"; } else if( o=="reset" ) p->resetToInit();
    return par(p); }
  if( c=="m.dump" ){ std::string s="["; bool f=true; for(auto& p : *m){ s+=(f?"":",")+par(p); f=false; } return "{\"size\":"+ks(m->size())+",\"p\":"+s+"]}"; }
  if( c=="m.expr" ){ auto e = ExpressionParser::parse(rest(0).cbegin(), rest(0).cend(), m); auto v=e(); return "["+num(v.real())+","+num(v.imag())+"]"; }
  if( c=="m.exprv" ){ VS t=rest(0); auto e = ExpressionParser::parse(t.cbegin(), t.cend(), m); auto v=e(); return "["+num(v.real())+","+num(v.imag())+"]"; }
  if( c=="m.exprs" ){ auto e = ExpressionParser::parse(r[0], m); auto v=e(); return "["+num(v.real())+","+num(v.imag())+"]"; }
  if( c=="m.evalue" ){ auto p = dynamic_cast<MinuitExpression*>(m->find(r[0])); if( !p ) return "null"; auto v=p->getVal(); return "["+num(v.real())+","+num(v.imag())+","+num(p->mean())+","+num(double(*p))+","+ks(p->isFree())+"]"; }
  return "\"?\"";
}
static std::string line(const std::string& l){ auto f = fields(l); VS cur; std::string s="["; bool first=true;
  for(size_t i=0;i<=f.size();++i){ if( i==f.size() || f[i]==";;" ){ s += (first?"":",")+run(cur); first=false; cur.clear(); } else cur.push_back(f[i]); } return s+"]"; }
CASE("script", std::ifstream in(getenv("H_SCRIPT")); std::string l;
  std::vector<std::string> all; while(std::getline(in,l)) all.push_back(l);
  size_t at = 0; std::vector<std::string> res(all.size(), "\"!none\"");
  while( at < all.size() ){
    int fd[2]; if( pipe(fd) ) abort();
    pid_t pid = fork();
    if( pid == 0 ){ close(fd[0]); alarm(60); if( !freopen("/dev/null","w",stdout) ) _exit(4);
      for(size_t i = at; i < all.size(); ++i){ std::string o; try { o = line(all[i]); } catch( std::exception& e ){ o = "\"!exception\""; }
        o += "\n"; size_t w=0; while( w < o.size() ){ ssize_t n = write(fd[1], o.data()+w, o.size()-w); if( n <= 0 ) _exit(3); w += n; } }
      _exit(0); }
    close(fd[1]); std::string buf; char b[65536]; ssize_t n; while( (n = read(fd[0], b, sizeof b)) > 0 ) buf.append(b,n); close(fd[0]);
    int st=0; waitpid(pid,&st,0);
    size_t pos=0; while( at < all.size() ){ auto e = buf.find('\n',pos); if( e == std::string::npos ) break; res[at++] = buf.substr(pos,e-pos); pos = e+1; }
    if( at < all.size() ){ res[at] = "\"!crash "+ks(WIFSIGNALED(st)?WTERMSIG(st):-WEXITSTATUS(st))+"\""; ++at; }
  }
  std::string s="["; for(size_t i=0;i<res.size();++i) s += (i?",\n":"")+res[i]; outj("answers", s+"]"); )
HMAIN
