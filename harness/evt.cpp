// events and event types.  Commands from H_SCRIPT, one per line, fields separated by tabs.
#include "h.h"
#include "AmpGen/Event.h"
#include "AmpGen/EventType.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/ParticlePropertiesList.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace AmpGen; using namespace H;
static std::string ks(long a){ return std::to_string(a); }
template <class T> static std::string lst(const std::vector<T>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+num(v[i]); return s+"]"; }
static std::string strs(const std::vector<std::string>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+js(v[i]); return s+"]"; }
static std::string fmt(const std::map<std::string,unsigned>& m){ std::string s="{"; bool f=true; for( auto& [k,v] : m ){ s+=(f?"":",")+js(k)+":"+ks(v); f=false; } return s+"}"; }
static std::string names(const EventType& e){ auto t=e.finalStates(); t.insert(t.begin(), e.mother()); return strs(t); }
static std::vector<std::string> sp(const std::string& s){ return s == "-" ? std::vector<std::string>() : split(s,' '); }
static Event lab(unsigned n, unsigned extra=0){ Event e(4*n+extra); for( unsigned i = 0; i != 4*n+extra; ++i ) e[i] = 100*(i/4) + i%4 + 1; return e; }
static std::string ev(const Event& e){ return "["+lst(e.data())+","+num(e.weight())+","+num(e.genPdf())+","+ks(e.index())+"]"; }
static std::string run(const std::vector<std::string>& a){
  auto& c = a[0];
  if( c == "opt" ){ OptionsParser::setArg(a[1]); return "1"; }
  if( c == "type" ){ EventType t( sp(a[1]), a[2] == "1" ); for( auto& x : sp(a[3]) ) t.extendEventType(x);
    std::string s = "{\"names\":"+names(t)+",\"mother\":"+js(t.mother())+",\"M\":"+num(t.motherMass())+",\"masses\":"+lst(t.masses())+",\"size\":"+ks(t.size())+",\"esize\":"+ks(t.eventSize())+",\"td\":"+ks(t.isTimeDependent())+",\"dim\":["+ks(t.dim().first)+","+ks(t.dim().second)+"],\"fmt\":"+fmt(t.getEventFormat())+",\"out\":"+fmt(t.getEventFormat(true));
    s += ",\"mass\":["; for( unsigned i=0;i!=t.size();++i) s+=(i?",":"")+num(t.mass(i)); s += "],\"count\":["; for( unsigned i=0;i!=t.size();++i){ auto q=t.count(i); s+=(i?",[":"[")+ks(q.first)+","+ks(q.second)+"]"; }
    s += "],\"dof\":"+ks(t.dof())+",\"dd\":"+js(t.decayDescriptor())+",\"cs\":"+js(t.constructor_string())+",\"conj\":"+names(t.conj())+",\"conjh\":"+names(t.conj(true))+",\"conjd\":"+names(t.conj(false,true))+",\"conjtd\":"+ks(t.conj().isTimeDependent())+",\"cc\":"+ks(t.conj().conj()==t);
    s += ",\"pydim\":"+ks(python__EventType__dim(t.constructor_string().c_str()))+",\"minmax\":["; for( unsigned m=0;m!=(1u<<t.size());++m){ std::vector<unsigned> ix; for(unsigned i=0;i!=t.size();++i) if( m>>i&1 ) ix.push_back(i); auto q = t.minmax(ix); s+=(m?",[":"[")+num(q.first)+","+num(q.second)+"]"; }
    s += "],\"has\":["; bool f=true; for( auto& n : sp(a[4]) ){ s+=(f?"":",")+ks(t.has(n)); f=false; } s += "],\"eq\":["; f=true; for( size_t i=5;i<a.size();++i){ s+=(f?"":",")+ks(t==EventType(sp(a[i]))); f=false; } 
    std::string lb; for( unsigned i=0;i!=t.size();++i) lb += (i?",":"")+js(t.label(i)); return s+"],\"label\":["+lb+"]}"; }
  if( c == "sym" ){ EventType t( sp(a[1]) ); auto f = t.symmetriser(); int n = atoi(a[2].c_str()); std::map<std::string,int> h; std::string s="["; auto g = f; for( int i=0;i!=n;++i){ auto e = lab(t.size(),1); e.setWeight(0.5); f(e); h[ev(e)]++; } bool ff=true; for( auto& [k,v] : h ){ s+=(ff?"[":",[")+k+","+ks(v)+"]"; ff=false; } return s+"]"; }
  if( c == "order" ){ EventType t( sp(a[1]) ); auto e = lab(t.size(),1); std::vector<int> ids; for( auto& x : sp(a[2]) ) ids.push_back(atoi(x.c_str())); bool ok = t.automaticOrdering()(e, ids); return "["+ks(ok)+","+ev(e)+"]"; }
  if( c == "ev" ){ unsigned n = atoi(a[1].c_str()); auto v = sp(a[2]); Event e(n); for( unsigned i=0;i!=n;++i) e[i] = stod(v[i]); std::string s="{"; unsigned np=n/4;
    s += "\"s1\":["; for(unsigned i=0;i!=np;++i) s+=(i?",":"")+num(e.s(i)); s+="],\"s2\":["; for(unsigned i=0;i!=np;++i) for(unsigned j=0;j!=np;++j) s+=(i||j?",":"")+num(e.s(i,j)); s+="],\"s3\":["; for(unsigned i=0;i!=np;++i) for(unsigned j=0;j!=np;++j) for(unsigned k=0;k!=np;++k) s+=(i||j||k?",":"")+num(e.s(i,j,k));
    s += "],\"sv\":["; for( unsigned m=1;m!=(1u<<np);++m){ std::vector<unsigned> ix; for(unsigned i=0;i!=np;++i) if( m>>i&1 ) ix.push_back(i); s+=(m>1?",":"")+num(e.s(ix)); }
    Event w(e); w.swap(0,np-1); s += "],\"swap\":"+ev(w); w.swap(np-1,0); s += ",\"swap2\":"+ev(w); w.swap(0,0); s += ",\"swap0\":"+ev(w);
    Event r(e); std::vector<unsigned> ad; for( unsigned i=0;i!=np;++i) ad.push_back((i+1)%np); r.reorder(ad); s += ",\"reorder\":"+ev(r);
    Event q(n); q.set(e.address()); s += ",\"copy\":"+ev(q); real_t p4[4]={1,2,3,4}; q.set(1,p4); s += ",\"set\":"+ev(q); q.set(0,std::vector<real_t>{5,6,7,8}); s += ",\"setv\":"+ev(q); q.set(2u,9.5); s += ",\"set1\":"+ev(q); q.extendEvent(2.5); q.setWeight(3); q.setGenPdf(4); q.setIndex(7); s += ",\"ext\":"+ev(q); 
    Event z(e.address(), n); s += ",\"ptr\":"+ev(z)+",\"size\":"+ks(z.size())+",\"wp\":["+num(*q.pWeight())+","+num(*q.pGenPdf())+"],\"ad\":"+num(*e.address(5))+",\"cv\":"+num(((const real_t*)e)[2]); return s+"}"; }
  return "null"; }
CASE("script",
  std::ifstream in(getenv("H_SCRIPT")); std::string l; std::vector<std::string> all; while( std::getline(in,l) ) all.push_back(l);
  size_t at=0; std::vector<std::string> res(all.size(), "\"!none\"");
  while( at < all.size() ){
    int fd[2]; if( pipe(fd) ) abort();
    pid_t pid = fork();
    if( pid == 0 ){ close(fd[0]); alarm(120); dup2(2,1);
      for(size_t i = at; i < all.size(); ++i){ std::string o; try { o = run(split(all[i],'\t')); } catch( std::exception& e ){ o = "\"!exception\""; }
        o += "\n"; size_t w=0; while( w < o.size() ){ ssize_t n = write(fd[1], o.data()+w, o.size()-w); if( n <= 0 ) _exit(3); w += n; } }
      _exit(0); }
    close(fd[1]); std::string buf; char b[65536]; ssize_t n; while( (n = read(fd[0], b, sizeof b)) > 0 ) buf.append(b,n); close(fd[0]);
    int st=0; waitpid(pid,&st,0);
    size_t pos=0; while( at < all.size() ){ auto e = buf.find('\n',pos); if( e == std::string::npos ) break; res[at++] = buf.substr(pos,e-pos); pos = e+1; }
    if( at < all.size() ){ res[at] = "\"!crash "+ks(WIFSIGNALED(st)?WTERMSIG(st):-WEXITSTATUS(st))+"\""; ++at; }
  }
  std::string s="["; for(size_t i=0;i<res.size();++i) s += (i?",\n":"")+res[i]; outj("answers", s+"]"); )
HMAIN
