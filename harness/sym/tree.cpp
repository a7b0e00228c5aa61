// DecayChainStack, TreePhaseSpace and DiscreteDistribution over the symbolic scalar.  The particle tree is a stand-in obeying the contract
// of Particle (names, masses, widths, daughters, indices), with symbols for masses and widths; random numbers are symbols u0, u1, ...
#include <numeric>
// a sum started from a literal is a sum of symbols when its terms are
namespace std { template <class I, class F, class = std::enable_if_t<std::is_same<std::decay_t<decltype(std::declval<F>()(std::declval<Sym>(), *std::declval<I>()))>, Sym>::value>> Sym accumulate(I a, I b, REAL_DOUBLE i, F f){ Sym r(i); for( ; a != b; ++a ) r = f(r, *a); return r; }
  template <class I, class = std::enable_if_t<std::is_same<std::decay_t<decltype(*std::declval<I>())>, Sym>::value>> Sym accumulate(I a, I b, REAL_DOUBLE i){ Sym r(i); for( ; a != b; ++a ) r = r + *a; return r; } }
#define AMPGEN_EXPRESSION_H
#define AMPGEN_PARTICLE_H
#define AMPGEN_PARTICLEPROPERTIES_H
#define AMPGEN_EVENTLIST_H
#define AMPGEN_EVENTLIST2_H
#define AMPGEN_NAMEDPARAMETER_H
#include "AmpGen/EventType.h"
#include "AmpGen/simd/utils.h"
namespace AmpGen {
  template <class T> struct NamedParameter { T v; NamedParameter(const std::string&, const T& d = T()) : v(d) {} NamedParameter(const std::string&, const T& d, const std::string&) : v(d) {} operator T() const { return v; } };
  struct ParticleProperties { Sym m, w; Sym mass() const { return m; } Sym width() const { return w; } };
  class Particle { public: std::string m_name; ParticleProperties pp; char kind = 's'; unsigned idx = 0, orig = 0; std::vector<std::shared_ptr<Particle>> m_d; static std::vector<std::vector<size_t>> orderings;
    Particle() = default; 
    Particle(const std::string& n, const Particle& a, const Particle& b) : m_name(n), m_d{std::make_shared<Particle>(a), std::make_shared<Particle>(b)} { take(n); }
    Particle(const std::string& n, const std::vector<Particle>& d) : m_name(n) { take(n); for( auto& x : d ) m_d.push_back(std::make_shared<Particle>(x)); }
    static std::map<std::string,std::pair<ParticleProperties,char>>& table(){ static std::map<std::string,std::pair<ParticleProperties,char>> t; return t; }
    void take(const std::string& n){ auto it = table().find(n); if( it == table().end() ) it = table().emplace(n, std::make_pair(ParticleProperties{symvar("M_"+n, 0.9), symvar("G_"+n, 0.2)}, 'w')).first; pp = it->second.first; kind = it->second.second; }
    std::string name() const { return m_name; } Sym mass() const { return pp.m; } const ParticleProperties* props() const { return &pp; } const std::vector<std::shared_ptr<Particle>>& daughters() const { return m_d; } std::shared_ptr<Particle> daughter(size_t i) const { return m_d[i]; } 
    bool isStable() const { return m_d.empty(); } bool isQuasiStable() const { return kind == 's' || kind == 'q'; } bool lineshapeContains(const std::vector<std::string>& l) const { return kind == 'f' && std::find(l.begin(), l.end(), "None") != l.end(); } unsigned index() const { return idx; } 
    std::vector<std::shared_ptr<Particle>> getFinalStateParticles(bool sort=true) const { std::vector<std::shared_ptr<Particle>> r; for( auto& d : m_d ){ if( d->isStable() ) r.push_back(d); else for( auto& x : d->getFinalStateParticles(sort) ) r.push_back(x); } if( sort ) std::sort(r.begin(), r.end(), [](auto& a, auto& b){ return a->orig < b->orig; }); return r; }
    Particle quasiStableTree() const { Particle r; r.m_name = m_name; r.pp = pp; r.kind = kind; for( auto& d : m_d ){ auto q = d->quasiStableTree(); if( q.m_d.empty() || (q.isQuasiStable() && m_d.size() != 1) ) r.m_d.push_back(std::make_shared<Particle>(q)); else for( auto& x : q.m_d ) r.m_d.push_back(x); } r.idx = idx; r.orig = orig; return r; }
    std::vector<std::vector<size_t>> identicalDaughterOrderings() const { return orderings; } void setOrdering(const std::vector<size_t>& o){ auto f = getFinalStateParticles(); for( size_t i = 0; i < o.size(); ++i ) f[i]->idx = o[i]; }
  };
  inline std::vector<std::vector<size_t>> Particle::orderings;
  inline std::ostream& operator<<(std::ostream& o, const Particle& p){ return o << p.name(); }
  class EventListSIMD { public: std::vector<std::vector<Sym>> d; std::vector<Sym> g; size_t nBlocks() const { return d.size(); } size_t size() const { return d.size(); } const Sym* block(unsigned i) const { return d[i].data(); } Sym genPDF(unsigned i) const { return g[i]; } };
  static unsigned g_n = 0; unsigned EventType::size() const { return g_n; }
}
// the whole part of a number used as an index: both bounds are recorded on the path
struct SymWhole { Sym s; SymWhole(const Sym& x) : s(x) {} operator unsigned long() const { REAL_DOUBLE k = ::floor(s.v); (void)(Sym(k) <= s); (void)(s < Sym(k+1)); return (unsigned long)k; } };
static SymWhole symwhole(const Sym& x){ return SymWhole(x); }
#define floor symwhole
#include "src/DiscreteDistribution.cpp"
#undef floor
#include "src/TreePhaseSpace.cpp"
#include "src/Event.cpp"
TRandom* gRandom = nullptr;
SYMMAIN
static int A(unsigned i){ return std::stoi(g_args.at(i)); }
struct SymRandom : public TRandom3 { std::mt19937_64 gg; unsigned n = 0; std::map<unsigned,REAL_DOUBLE> fix; std::vector<Sym> u; SymRandom(unsigned s) : gg(s) {} 
  Sym next(){ REAL_DOUBLE x = SymOut::rnd(gg); if( fix.count(n) ) x = fix[n]; Sym r = symvar("u"+std::to_string(n++), x); u.push_back(r); return r; }
  virtual Sym Rndm() override { return next(); } virtual Sym Uniform(Sym a=1) override { return a*next(); } virtual Sym Uniform(Sym a, Sym b) override { return a+(b-a)*next(); } };
static std::vector<REAL_DOUBLE> g_val;  // shadows: mother, leaves...
// kind:name[child,child,...] with kind w (resonance), f (flat), q (quasi-stable); a leaf is its index
static std::shared_ptr<Particle> parse(const std::string& s, size_t& k){ auto p = std::make_shared<Particle>(); 
  if( isdigit(s[k]) ){ unsigned i = 0; while( k < s.size() && isdigit(s[k]) ) i = 10*i + (s[k++]-'0'); p->m_name = "f"+std::to_string(i); p->idx = p->orig = i; p->kind = 's'; p->pp = { symvar("m"+std::to_string(i), g_val.at(1+i)), Sym(0.) }; return p; }
  p->kind = s[k]; k += 2; while( s[k] != '[' ) p->m_name += s[k++]; k++;
  while( s[k] != ']' ){ p->m_d.push_back(parse(s,k)); if( s[k] == ',' ) k++; } k++;
  REAL_DOUBLE mm = 0; auto qs = p->quasiStableTree().daughters(); for( auto& f : qs ) mm += f->pp.m.v; 
  p->pp = { symvar("M_"+p->m_name, p->m_name == "H" ? g_val.at(0) : mm + 0.11), p->kind == 'q' ? Sym(0.) : symvar("G_"+p->m_name, 0.15) }; Particle::table()[p->m_name] = {p->pp, p->kind}; return p; }
static void count(const Particle& p, unsigned& n){ if( p.isStable() ) n++; for( auto& d : p.m_d ) count(*d, n); }
static void setup(){ unsigned k = 0; std::string s = g_args.at(1); for( size_t i = 0; i <= s.size(); ){ size_t j = s.find(',', i); if( j == std::string::npos ) j = s.size(); g_val.push_back(std::stod(s.substr(i,j-i))); i = j+1; } }
template <unsigned N> static void stack(const Particle& p, unsigned seed){ DecayChainStack<N> s(p); SymRandom r(seed); std::string j = "[";
  for( unsigned i = 0; i != N-1; ++i ){ auto& n = s.m_nodes[i]; std::string l, q; for( auto x : n.lfs ) l += (l.empty()?"":",")+std::to_string(x); for( auto x : n.rfs ) q += (q.empty()?"":",")+std::to_string(x);
    j += std::string(i?",":"")+"{\"lfs\":["+l+"],\"rfs\":["+q+"]}"; SymOut::out("range"+std::to_string(i), std::vector<Sym>{n.range.first, n.range.second}); }
  SymOut::outj("nodes", j+"]"); SymOut::out("max", s.maxWeight()); SymOut::outj("NP", std::to_string(s.NP()));
  auto [w, st] = s.proposal(&r); SymOut::out("weight", w); SymOut::out("state", std::vector<Sym>(st.begin(), st.end())); SymOut::outj("k", std::to_string(r.n));
  std::vector<Sym> ev(4*N+1, Sym(-77.)); s.fill_from_state(ev.data(), st, &r); SymOut::out("ev", ev); SymOut::out("pdf", s.genPdf((const Sym*)ev.data())); SymOut::out("u", r.u); 
  std::vector<Sym> g; for( unsigned i = 0; i != 4*N; ++i ) g.push_back(symvar("p"+std::to_string(i), ::sin(1.3*i)+(i%4==3)*3)); SymOut::out("gen", s.genPdf((const Sym*)g.data()));
  for( unsigned i = 0; i != N-1; ++i ){ SymOut::out("dens"+std::to_string(i), s.m_nodes[i](symvar("s", 1.1))); SymRandom q(seed); SymOut::out("draw"+std::to_string(i), s.m_nodes[i]((TRandom3*)&q)); SymOut::outj("nd"+std::to_string(i), std::to_string(q.n)); } 
  SymOut::outj("same", std::to_string((int)(s == (const DecayChainStackBase&)s))); }
SYMCASE(chain){ setup(); size_t k = 0; auto p = parse(g_args.at(2), k); unsigned n = 0; count(*p, n);
  switch(n){ case 2: stack<2>(*p,A(0)); break; case 3: stack<3>(*p,A(0)); break; case 4: stack<4>(*p,A(0)); break; case 5: stack<5>(*p,A(0)); break; case 6: stack<6>(*p,A(0)); break; default: abort(); } }
// several chains (and orderings a-b-c|...): mixture seed values chain;chain;... orderings
SYMCASE(mixture){ setup(); std::vector<Particle> ps; std::string s = g_args.at(2); for( size_t k = 0; k < s.size(); ++k ) ps.push_back(*parse(s, k)); unsigned n = 0; count(ps[0], n); g_n = n;
  std::vector<size_t> cur; std::string o = g_args.at(3); for( size_t i = 0; i <= o.size(); ++i ){ if( i == o.size() || o[i] == '/' ){ if( cur.size() ) Particle::orderings.push_back(cur); cur.clear(); } else if( isdigit(o[i]) ) cur.push_back(o[i]-'0'); }
  SymRandom r(A(0)); bool one = A(4); auto* t = one ? new TreePhaseSpace(ps[0], EventType(), &r) : new TreePhaseSpace(ps, EventType(), &r); SymOut::outj("size", std::to_string(t->size())); SymOut::out("wmax", t->m_wmax); SymOut::out("prob", t->m_dice.probabilities());
  for( unsigned i = 0; i < t->m_gen.size(); ++i ) SymOut::out("max"+std::to_string(i), t->m_gen[i]->maxWeight());
  // channel weights as after an optimisation: any weights
  if( g_args.size() > 5 && A(5) ){ std::vector<Sym> w; for( unsigned i = 0; i < t->m_gen.size(); ++i ) w.push_back(Sym(double(1+(i*5+2)%7))); t->m_dice = DiscreteDistribution(w); SymOut::out("prob2", t->m_dice.probabilities()); }
  auto e = t->makeEvent(); SymOut::out("ev", e.data()); SymOut::out("gen", e.genPdf()); SymOut::out("u", r.u);
  std::vector<Sym> each; auto pdf = [&](auto* g){ return g->genPdf((const Sym*)e.data().data()); };
  for( auto g : t->m_gen ){ if( auto q = dynamic_cast<DecayChainStack<2>*>(g) ) each.push_back(pdf(q)); if( auto q = dynamic_cast<DecayChainStack<3>*>(g) ) each.push_back(pdf(q)); if( auto q = dynamic_cast<DecayChainStack<4>*>(g) ) each.push_back(pdf(q)); if( auto q = dynamic_cast<DecayChainStack<5>*>(g) ) each.push_back(pdf(q)); }
  SymOut::out("each", each); }
// alias table of a discrete distribution: shadows as arguments
SYMCASE(dice){ std::vector<Sym> w; for( size_t i = 0; i < g_args.size(); ++i ) w.push_back(symvar("w"+std::to_string(i), std::stod(g_args[i]))); DiscreteDistribution d(w); SymOut::out("prob", d.probabilities()); std::string j = "["; std::vector<Sym> t; 
  for( auto& [a,b,x] : d.m_buckets ){ j += std::string(j.size()>1?",":"")+"["+std::to_string(a)+","+std::to_string(b)+"]"; t.push_back(x); } SymOut::outj("buckets", j+"]"); SymOut::out("cut", t); SymOut::outj("range", "["+std::to_string(d.min())+","+std::to_string(d.max())+"]"); SymOut::out("w", w);
  // which index a given number selects: behaviour on a grid
  std::string g = "["; struct One : public TRandom3 { Sym x; virtual Sym Uniform(Sym a=1) override { return a*x; } virtual Sym Rndm() override { return x; } } o; for( int k = 0; k < 4000; ++k ){ o.x = Sym((k+0.5)/4000.); g += (k?",":"")+std::to_string(d(&o)); } SymOut::outj("grid", g+"]"); }
