// discrete part of the library: particle table, quark content, decay trees, selection rules.
// Commands are read from the file named by H_SCRIPT: one per line, fields separated by tabs.
#include "h.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/QuarkContent.h"
#include "AmpGen/EventType.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/MinuitParameter.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/MinuitExpression.h"
#include "AmpGen/AmplitudeRules.h"
#include "AmpGen/AddCPConjugate.h"
#include <sys/wait.h>
#include <unistd.h>
using namespace AmpGen; using namespace H;
static std::string ks(long a){ return std::to_string(a); }
static std::string qs(const QuarkState& q){ std::string s="["; for(int i=0;i<6;++i) s+=(i?",":"")+ks(q[i]); return s+"]"; }
static std::string qc(const QuarkContent& q){ std::string s="["; for(size_t i=0;i<q.size();++i) s+=(i?",":"")+qs(q[i]); return s+"]"; }
static std::string pp(const ParticleProperties& p){
  std::string pol; if( p.twoSpin() >= 0 && ( p.twoSpin() <= 2 || p.twoSpin() == 4 ) ) for(auto& x : p.polarisations()) pol += (pol==""?"":",")+ks(x);
  return "{\"name\":"+js(p.name())+",\"mass\":"+num(p.mass())+",\"width\":"+num(p.width())+",\"charge\":"+ks(p.charge())+",\"P\":"+ks(p.P())+",\"C\":"+ks(p.C())+",\"G\":"+ks(p.G())
    +",\"id\":"+ks(p.pdgID())+",\"s2\":"+ks(p.twoSpin())+",\"J\":"+js(p.J())+",\"anti\":"+(p.hasDistinctAnti()?"1":"0")+",\"fermion\":"+(p.isFermion()?"1":"0")+",\"boson\":"+(p.isBoson()?"1":"0")+",\"q\":"+qc(p.quarkContent())
    +",\"radius\":"+num(p.radius())+",\"photon\":"+(p.isPhoton()?"1":"0")+",\"life\":"+num(p.lifetime())+",\"pol\":["+pol+"],\"I\":"+js(p.I())
    +",\"nu\":"+(p.isNeutrino()?"1":"0")+",\"nr\":"+(p.isNonResonant()?"1":"0")+",\"spin\":"+js(p.twoSpin()>=0 && p.twoSpin()<8 ? p.spinName() : std::string("?"))+",\"err\":["+num(p.mErrPlus())+","+num(p.mErrMinus())+","+num(p.wErrPlus())+","+num(p.wErrMinus())+"],\"label\":"+js(p.label())+",\"S\":"+js(std::string(1,p.S()))+",\"R\":"+ks(p.R())+"}"; }
static std::string tree(const Particle& p){
  std::string s="{\"n\":"+js(p.name())+",\"id\":"+(p.props()?ks(p.props()->pdgID()):"0")+",\"L\":"+ks(p.L())+",\"S\":"+num(p.S())+",\"ls\":"+js(p.lineshape())+",\"u\":"+js(p.uniqueString())+",\"dd\":"+js(p.decayDescriptor())+",\"good\":"+(p.isStateGood()?"1":"0")
    +",\"ix\":"+ks(p.index())+",\"ox\":"+ks(p.originalIndex())+",\"orb\":"+js(p.L()<7?p.orbitalString():std::string("?"))+",\"pol\":"+ks(p.polState())+",\"parity\":"+ks(p.parity())+",\"d\":[";
  bool f=true; for(auto& d : p.daughters()){ s+=(f?"":",")+tree(*d); f=false; }
  return s+"]}"; }
static std::string perms(const std::vector<std::vector<size_t>>& v){ std::string s="["; for(size_t i=0;i<v.size();++i){ s+=(i?",[":"["); for(size_t j=0;j<v[i].size();++j) s+=(j?",":"")+ks(v[i][j]); s+="]"; } return s+"]"; }
static std::string strs(const std::vector<std::string>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s+=(i?",":"")+js(v[i]); return s+"]"; }
static std::string et(const EventType& e){ auto t=e.finalStates(); t.insert(t.begin(), e.mother()); return strs(t); }
static MinuitParameterSet* mps = nullptr;
static std::string run(const std::vector<std::string>& a){
  auto& c = a[0]; std::vector<std::string> r(a.begin()+1,a.end());
  auto fs = [&](size_t k){ return std::vector<std::string>(r.begin()+k, r.end()); };
  if( c == "get" ){ auto p = ParticlePropertiesList::get(r[0], true); return p ? pp(*p) : "null"; }
  if( c == "getid" ){ auto p = ParticlePropertiesList::get(atoi(r[0].c_str()), true); return p ? pp(*p) : "null"; }
  if( c == "anti" ){ auto p = ParticlePropertiesList::get(r[0], true); return p ? "["+pp(p->anti())+","+pp(p->anti().anti())+"]" : "null"; }
  if( c == "props" ){ ParticlePropertiesList::getMutable()->addParticle(a); auto p = ParticlePropertiesList::get(r[0], true); return p ? pp(*p) : "null"; }
  if( c == "alias" ){ OptionsParser::setArg("ParticlePropertiesList::Alias "+r[0]+" "+r[1]); auto p = ParticlePropertiesList::get(r[1], true); auto o = ParticlePropertiesList::get(r[0], true); return p && o ? "["+pp(*p)+","+pp(*o)+"]" : "null"; }
  if( c == "optprops" ){ std::string l="ParticleProperties"; for(auto& x: r) l+=" "+x; OptionsParser::setArg(l); auto p = ParticlePropertiesList::get(r[0], true); return p ? pp(*p) : "null"; }
  if( c == "cmp" ){ auto x = ParticlePropertiesList::get(r[0], true), y = ParticlePropertiesList::get(r[1], true); if( !x || !y ) return "null"; return "["+ks(*x==*y)+","+ks(*x<*y)+","+ks(*x>*y)+","+ks(*x<=*y)+","+ks(*x>=*y)+"]"; }
  if( c == "q" ) return qc(QuarkContent(r[0]));
  if( c == "qq" ){ QuarkContent x(r[0]), y(r[1]); QuarkContent z(x); z.antiThis(); return "["+qc(x+y)+","+qc(x-y)+","+qc(z)+","+(x==y?"1":"0")+","+(x!=y?"1":"0")+"]"; }
  if( c == "s" ) return qs(QuarkState(r[0]));
  if( c == "ss" ){ QuarkState x(r[0]), y(r[1]); QuarkState z(x); z.antiThis(); return "["+qs(x+y)+","+qs(x-y)+","+qs(z)+","+(x==y?"1":"0")+","+(x!=y?"1":"0")+","+(x.isVacuum()?"1":"0")+"]"; }
  if( c == "tree" ) return tree(Particle(r[0], fs(1)));
  if( c == "treeu" ) return tree(Particle(r[0], fs(1), false));
  if( c == "rt" ){ Particle p(r[0], fs(1)); Particle q(p.decayDescriptor(), fs(1)); return "["+tree(p)+","+tree(q)+"]"; }
  if( c == "conj" ){ Particle p(r[0], fs(1)); Particle q = p.conj(); Particle b = q.conj(); return "["+tree(p)+","+tree(q)+","+tree(b)+","+ks(p.CP())+","+ks(q.CP())+","+ks(p.C())+","+ks(p.finalStateParity())+"]"; }
  if( c == "conjf" ){ Particle p(r[0]); Particle q = p.conj(false); return "["+tree(p)+","+tree(q)+"]"; }
  if( c == "conjn" ){ Particle p(r[0]); Particle q = p.conj(true,false); return "["+tree(p)+","+tree(q)+"]"; }
  if( c == "conjThis" ){ Particle p(r[0]); p.conjThis(); return tree(p); }
  if( c == "valid" ) return Particle::isValidDecayDescriptor(r[0]) ? "1" : "0";
  if( c == "L" ){ Particle p(r[0]); std::string s="["; for(int k=0;k<2;++k){ auto x = p.orbitalRange(k); s += (k?",[":"[")+ks(x.first)+","+ks(x.second)+",["; bool f=true; for(auto& y : p.spinOrbitCouplings(k)){ s += (f?"[":",[")+num(y.first)+","+num(y.second)+"]"; f=false; } s+="]]"; } return s+","+ks(p.L())+","+(p.quarks()==p.daughterQuarks()?"1":"0")+"]"; }
  if( c == "perm" ){ Particle p(r[0], fs(1)); return perms(p.identicalDaughterOrderings()); }
  if( c == "swap" ){ std::vector<size_t> ix; std::vector<int> ex; for(auto& x : split(r[0],',')) ix.push_back(stoi(x)); for(auto& x : split(r[1],',')) ex.push_back(stoi(x)); auto x = minSwaps(ix,ex); return "["+ks(x.first)+","+ks(x.second)+"]"; }
  if( c == "add" ){ std::vector<std::string> t={"Particle"}; for(auto& x : r) t.push_back(x); ParticlePropertiesList::getMutable()->addParticle(t); return "1"; }
  if( c == "alias" ){ ParticlePropertiesList::getMutable()->makeAlias(r[0],r[1]); return "1"; }
  if( c == "opt" ){ OptionsParser::setArg(r[0]); return "1"; }
  if( c == "etconj" ){ EventType e(r); auto f=e.conj(); return "["+et(e)+","+et(f)+","+et(f.conj())+","+et(e.conj(true))+","+et(e.conj(false,true))+"]"; }
  if( c == "evt" ) return et(Particle(r[0]).eventType());
  if( c == "qst" ) return tree(Particle(r[0]).quasiStableTree());
  if( c == "clone" ){ Particle p(r[0], fs(1)); Particle q = p.clone(); auto a0 = tree(p), b0 = tree(q); auto n = q.getFinalStateParticles().size(); std::vector<size_t> o; for(size_t i=0;i<n;++i) o.push_back(n+5+i); q.setOrdering(o); return "["+a0+","+b0+","+tree(p)+","+tree(q)+"]"; }
  if( c == "setd" ){ Particle p(r[0]); std::vector<Particle> d; for(auto& x : p.daughters()) d.push_back(*x); std::reverse(d.begin(), d.end()); Particle q(p.name()); q.setDaughters(d); Particle q2(p); q2.setDaughters(d); bool par=true; return "["+tree(p)+","+tree(q2)+"]"; }
  if( c == "match" ) { auto m = Particle(r[0]).matches(Particle(r[1])); using M = Particle; std::string o; if( m == M::Exact ) o += "E"; if( m & M::None ) o += "N"; if( m & M::PartialExpansion ) o += "P"; if( m & M::DifferentOrbital ) o += "L"; if( m & M::DifferentPolarisation ) o += "S"; return js(o); }
  if( c == "lt" ){ Particle x(r[0]), y(r[1]); return std::string("[")+(x<y?"1":"0")+","+(y<x?"1":"0")+"]"; }
  if( c == "mps" ){ mps = new MinuitParameterSet(); return "1"; }
  if( c == "par" ){ mps->add(r[0], Flag(Flag::Free), stod(r[1]), 0.1); return "1"; }
  if( c == "cp" ){ AddCPConjugate(*mps); std::string s="["; bool f=true; for(auto& p : *mps){ s += (f?"[":",[")+js(p->name())+","+num(p->mean())+"]"; f=false; } return s+"]"; }
  if( c == "rules" ){ AmplitudeRules ar(*mps); auto m = ar.getMatchingRules(EventType(fs(1)), r[0]=="-"?std::string(""):r[0]); std::string s="["; bool f=true;
    for(auto& [p,k] : m){ auto v = k(); std::vector<std::pair<MinuitParameter*,double>> old; for(auto& q : *mps) if( dynamic_cast<MinuitExpression*>(q) == nullptr ){ old.emplace_back(q, q->mean()); q->setCurrentFitVal(1.5*q->mean()+0.25); }
      auto v2 = k(); for(auto& o : old) o.first->setCurrentFitVal(o.second);
      S().nodes.clear(); S().seen.clear(); S().keep.clear(); int id = exportNode(k.to_expression()); std::string N="["; for(size_t i=0;i<S().nodes.size();++i) N += (i?",":"")+S().nodes[i]; N += "]";
      s += (f?"[":",[")+tree(p)+","+num(v.real())+","+num(v.imag())+","+num(v2.real())+","+num(v2.imag())+","+N+","+ks(id)+","+ks(k.size())+"]"; f=false; } return s+"]"; }
  if( c == "expr" ){ mps->add(new MinuitExpression(r, mps)); return "1"; }
  return "\"?\"";
}
CASE("table", std::string s="["; bool f=true; for(auto& p : *ParticlePropertiesList::getMe()){ s+=(f?"":",")+pp(p); f=false; } outj("table", s+"]");
  outj("names", strs(ParticlePropertiesList::getMe()->getParticleNames())); )
CASE("script", std::ifstream in(getenv("H_SCRIPT")); std::string l; int k=0;
  std::vector<std::string> all; while(std::getline(in,l)) all.push_back(l);
  // a crash must not lose the answers of the other lines: each batch runs in a child that streams its answers
  size_t at = 0; bool iso = getenv("H_ISO") != nullptr;
  std::vector<std::string> res(all.size(), "\"!none\"");
  while( at < all.size() ){
    int fd[2]; if( pipe(fd) ) abort();
    pid_t pid = fork();
    if( pid == 0 ){ close(fd[0]); alarm(120);
      for(size_t i = at; i < all.size(); ++i){ std::string o; try { o = run(split(all[i],'\t')); } catch( std::exception& e ){ o = "\"!exception "+std::string("")+"\""; }
        o += "\n"; size_t w=0; while( w < o.size() ){ ssize_t n = write(fd[1], o.data()+w, o.size()-w); if( n <= 0 ) _exit(3); w += n; } }
      _exit(0); }
    close(fd[1]); std::string buf; char b[65536]; ssize_t n; while( (n = read(fd[0], b, sizeof b)) > 0 ) buf.append(b,n); close(fd[0]);
    int st=0; waitpid(pid,&st,0);
    size_t pos=0; while( at < all.size() ){ auto e = buf.find('\n',pos); if( e == std::string::npos ) break; res[at++] = buf.substr(pos,e-pos); pos = e+1; }
    if( at < all.size() ){ res[at] = "\"!crash "+ks(WIFSIGNALED(st)?WTERMSIG(st):-WEXITSTATUS(st))+"\""; ++at; }
  }
  std::string s="["; for(size_t i=0;i<res.size();++i) s += (i?",\n":"")+res[i]; outj("answers", s+"]"); )
HMAIN
