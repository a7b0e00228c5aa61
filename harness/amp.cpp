// amplitudes of whole decays: each line of H_SCRIPT is  key <tab> options(';' separated) <tab> conj|same <tab> polarisation states <tab> descriptor <tab> final states...
#include "h.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/EventType.h"
using namespace AmpGen; using namespace H;
static std::vector<std::string> sp(const std::string& s, char d){ std::vector<std::string> r; std::string t; for(char c : s){ if(c==d){ r.push_back(t); t=""; } else t+=c; } r.push_back(t); return r; }
// independent recursion over the tree: one lineshape per decaying particle, one vertex per two-body decay
static Tensor mom(const Particle& p){ std::vector<Expression> c(4, Expression(0)); std::vector<unsigned> ix; if( p.isStable() ) ix = { p.index() }; else for(auto& f : p.getFinalStateParticles()) ix.push_back(f->index()); for(auto j : ix){ auto i = std::to_string(j); const char* n[] = {"_Px","_Py","_Pz","_E"}; for(int k=0;k!=4;++k) c[k] = c[k] + Parameter(i + n[k]); } return Tensor(c, Tensor::dim(4)); }
static Expression msq(const Particle& p){ if( p.isStable() ) return p.props()->mass()*p.props()->mass(); auto v = mom(p); return v[3]*v[3] - v[0]*v[0] - v[1]*v[1] - v[2]*v[2]; }
static Expression lsprod(const Particle& p){ if( p.isStable() ) return 1; auto d = p.daughters(); if( d.size() == 1 ) return lsprod(*d[0]);
  Expression t = Lineshape::Factory::get(d.size() == 3 && p.lineshape() == "BW" ? "SBW" : p.lineshape(), msq(p), msq(*d[0]), msq(*d[1]), p.name(), p.L());
  for(auto& k : d) t = t * lsprod(*k); return t; }
static std::string sname(const Particle& p){ int s = p.props()->twoSpin(); bool a = p.props()->pdgID() > 0; return s==0 ? "S" : s==2 ? "V" : s==4 ? "T" : s==1 ? (a?"f":"F") : (a?"r":"R"); }
#define EPS (-1)
static Tensor vert(const Particle& p){ if( p.isStable() ) return p.props()->twoSpin() == 0 ? Tensor(std::vector<double>({1.}), std::vector<unsigned>({1})) : p.externalSpinTensor(p.polState());
  auto d = p.daughters(); if( d.size() == 1 ) return vert(*d[0]);
  if( d.size() == 3 ){ if( p.props()->twoSpin() != 2 ) return Tensor(std::vector<double>({1.}), std::vector<unsigned>({1})); Tensor m[3] = {mom(*d[0]),mom(*d[1]),mom(*d[2])}; std::vector<Expression> r(4, Expression(0));
    int q[4]={0,1,2,3}; do { int s=1; for(int i=0;i<4;++i) for(int j=i+1;j<4;++j) if( q[i]>q[j] ) s=-s; r[q[0]] = r[q[0]] + (q[0]==3?EPS:-EPS)*s*m[0][q[1]]*m[1][q[2]]*m[2][q[3]]; } while( std::next_permutation(q,q+4) ); return Tensor(r, Tensor::dim(4)); }
  auto a = mom(*d[0]), b = mom(*d[1]); std::vector<Expression> P, Q; for(int k=0;k!=4;++k){ P.push_back(a[k]+b[k]); Q.push_back(a[k]-b[k]); }
  std::string w(1, "SPDFGH"[p.L()]); if( p.S() != 0 ) w += std::to_string(int(p.S()));
  return Vertex::Factory::getSpinFactor( Tensor(P,Tensor::dim(4)), Tensor(Q,Tensor::dim(4)), vert(*d[0]), vert(*d[1]), sname(p)+"_"+sname(*d[0])+sname(*d[1])+"_"+w ); }
static Expression factored(const Particle& p){ if( p.hasModifier("BgSpin0") ) return lsprod(p); Tensor t = vert(p); int s = p.props()->twoSpin(); Tensor::Index a; Expression f = 0;
  if( s == 0 ) f = t[0];
  auto e = p.externalSpinTensor(p.polState());
  if( s == 1 ){ auto sl = Bar(e); for(int k=0;k!=4;++k) f = f + sl[k]*t[k]; }
  if( s == 2 ){ for(int k=0;k!=4;++k) f = k == 3 ? f + fcn::conj(e[k])*t[k] : f - fcn::conj(e[k])*t[k]; }
  return f * lsprod(p); }
CASE("amps", std::ifstream in(getenv("H_SCRIPT")); std::string l;
  while(std::getline(in,l)){ auto a = sp(l,'\t');
    for(auto& o : sp(a[1],';')) if( o != "" ) OptionsParser::setArg(o);
    std::vector<int> pol; for(auto& o : sp(a[3],',')) if( o != "" ) pol.push_back(stoi(o));
    std::vector<std::string> fs(a.begin()+5, a.end());
    Particle p(a[4], fs);
    if( a[2] == "conj" ) p = Particle( p.conj().decayDescriptor(), EventType([&]{ auto t=fs; t.insert(t.begin(), p.name()); return t; }()).conj().finalStates() );
    if( a[2] == "twice" ) p.getExpression(nullptr, pol);
    if( !p.isStateGood() ){ outs(a[0], "bad state "+p.decayDescriptor()); continue; }
    if( a[2] == "after" ){ p.getExpression(nullptr, pol); out(a[0], p.propagator()); outs(a[0]+"#d", p.decayDescriptor()); continue; }
    { std::string ix; for(auto& f : p.getFinalStateParticles(false)) ix += std::to_string(f->index()) + " "; outs(a[0]+"#i", ix); }
    if( a[2] == "factor" ){ if( pol.size() != 0 ) p.setPolarisationState(pol); out(a[0], factored(p)); outs(a[0]+"#d", p.decayDescriptor()); continue; }
    if( a[2] == "prop" ){ out(a[0], p.propagator()); outs(a[0]+"#d", p.decayDescriptor()); continue; }
    out(a[0], p.getExpression(nullptr, pol)); outs(a[0]+"#d", p.decayDescriptor()); outn(a[0]+"#cp", p.CP()); outn(a[0]+"#n", p.identicalDaughterOrderings().size());
  } )
HMAIN
