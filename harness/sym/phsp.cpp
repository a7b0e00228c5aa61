// phase space and kinematics over the symbolic scalar; the random numbers are symbols u0, u1, ...
#define AMPGEN_EXPRESSION_H
#define AMPGEN_PARTICLE_H
#define AMPGEN_EVENTLIST_H
#include "AmpGen/EventType.h"
namespace AmpGen { class Particle { public: EventType eventType() const; }; }   // only named by a constructor not called here
#include "src/PhaseSpace.cpp"
#include "src/Kinematics.cpp"
#include "src/Event.cpp"
// the contract of the event type and particle table used by the phase space generator: masses as symbols
static std::vector<Sym> g_masses; static Sym g_mother(0.); static bool g_td = false; 
namespace AmpGen { Sym EventType::motherMass() const { return g_mother; } std::vector<Sym> EventType::masses() const { return g_masses; } bool EventType::isTimeDependent() const { return g_td; } std::string EventType::mother() const { return "X"; } 
  Sym ParticleProperties::lifetime() const { return symvar("tau", 0.41); } const ParticleProperties* ParticlePropertiesList::get(const std::string& n, const bool&){ if( n != "X" ) abort(); alignas(16) static char b[sizeof(ParticleProperties)]; return (const ParticleProperties*)b; } EventType Particle::eventType() const { return EventType(); } }
TRandom* gRandom = nullptr;
SYMMAIN
static int A(unsigned i){ return std::stoi(g_args.at(i)); }
struct SymRandom : public TRandom { std::mt19937_64 gg; unsigned n = 0; std::vector<Sym> u; SymRandom(unsigned s) : gg(s) {} 
  unsigned easy = 0; /* the draw that decides acceptance in the first trial, made small so that few trials are needed */
  Sym next(){ REAL_DOUBLE x = SymOut::rnd(gg); if( n == easy && easy ) x *= 1e-7; Sym r = symvar("u"+std::to_string(n++), x); u.push_back(r); return r; }
  virtual Sym Rndm() override { return next(); } virtual Sym Uniform(Sym a=1) override { return a*next(); } virtual Sym Uniform(Sym a, Sym b) override { return a+(b-a)*next(); } virtual Sym Exp(Sym tau) override { return symapp("exponential", {tau, next()}, 1.0); } };
static const REAL_DOUBLE MASS[] = {0.494, 0.1396, 0.135, 0.938, 0.000511, 0.1057, 0.77};
// fill N seed width massless-mask how(0: setDecay, 1: event type, 2: with decay time)
SYMCASE(fill){ unsigned N = A(0), w = A(2), zero = A(3), how = A(4); SymRandom r(A(1)); r.easy = N > 2 && A(5) ? N-2 : 0; std::vector<Sym> m; Sym s(0); REAL_DOUBLE tot = 0; 
  for( unsigned i = 0; i < N; ++i ){ REAL_DOUBLE v = (zero>>i&1) ? 0 : MASS[i%7]; tot += v; m.push_back( (zero>>i&1) ? Sym(0.) : symvar("m"+std::to_string(i), v) ); }
  Sym m0 = symvar("M", tot + 1.3); g_mother = m0; g_masses = m; g_td = how == 2; bool ok = true; PhaseSpace p; if( how == 0 ){ ok = p.setDecay(m0, m); p.setRandom(&r); } else p = PhaseSpace(EventType(), &r);
  std::vector<Sym> ev((4*N+1)*w, symvar("old", -77.));
  p.fill(ev.data() + (w > 1 ? 1 : 0), w); SymOut::out("ev", ev); SymOut::out("u", r.u); SymOut::outj("ok", ok ? "1" : "0"); SymOut::out("m", m); SymOut::outj("size", std::to_string(p.size())); if( w == 1 ){ unsigned k = r.n; r.easy = A(5) ? k+N-2 : 0; auto e = p.makeEvent(); SymOut::out("made", e.data()); SymOut::out("gen", e.genPdf()); SymOut::outj("k", std::to_string(k)); SymOut::out("u2", r.u); } }
static Event mk(unsigned n, REAL_DOUBLE salt=0){ Event e(4*n); for( unsigned i = 0; i != n; ++i ){ REAL_DOUBLE q2 = 0; for( unsigned k = 0; k != 3; ++k ){ REAL_DOUBLE v = ::sin(1.7*(4*i+k)+0.31*(4*i+k)*(4*i+k)+0.3+salt); q2 += v*v; e[4*i+k] = symvar("p"+std::to_string(4*i+k), v); } e[4*i+3] = symvar("p"+std::to_string(4*i+3), ::sqrt(q2 + 0.1*(i+1))); } return e; }
static std::vector<Sym> all(const Event& e){ return e.data(); }
SYMCASE(boost){ unsigned n = A(0); auto e = mk(n); std::tuple<Sym,Sym,Sym> d(symvar("nx",0.3), symvar("ny",-1.1), symvar("nz",0.7)); SymOut::out("in", all(e)); boost(e, d, symvar("v", 0.6)); SymOut::out("out", all(e)); }
SYMCASE(rotate){ unsigned n = A(0); auto e = mk(n); std::tuple<Sym,Sym,Sym> d(symvar("nx",0.3), symvar("ny",-1.1), symvar("nz",0.7)); rotate(e, d, symvar("v", 0.6)); SymOut::out("out", all(e)); }
SYMCASE(basis){ unsigned n = A(0); auto e = mk(n); std::vector<TVector3> b; for( int i = 0; i < 3; ++i ) b.emplace_back(symvar("a"+std::to_string(3*i),0.3+i), symvar("a"+std::to_string(3*i+1),-1.1), symvar("a"+std::to_string(3*i+2),0.7*i)); rotateBasis(e, b[0], b[1], b[2]); SymOut::out("out", all(e)); }
static std::vector<unsigned> set_(unsigned m){ std::vector<unsigned> r; for( unsigned i = 0; i < 8; ++i ) if( m>>i&1 ) r.push_back(i); return r; }
// helicity salt i-mask j-mask R-mask
SYMCASE(helicity){ auto e = mk(5, A(0)*0.37); SymOut::out("hc", HelicityCosine(set_(A(1)), set_(A(2)), set_(A(3)))(e)); auto s1 = set_(A(1)), s2 = set_(A(2)); if( s1.size() == 1 && s2.size() == 1 ) SymOut::out("hc1", HelicityCosine(s1[0], s2[0], set_(A(3)))(e)); 
  SymOut::out("dot", dotProduct(pFromEvent(e, s1), pFromEvent(e, s2), pFromEvent(e, set_(A(3))))); std::vector<Event> v{e}; SymOut::out("hci", HelicityCosine(s1, s2, set_(A(3)))(v.begin())); }
SYMCASE(transfer){ auto e = mk(5, A(0)*0.37); SymOut::out("q", MomentumTransfer(set_(A(1)), set_(A(2)))(e)); }
SYMCASE(planes){ auto e = mk(4, A(0)*0.37); SymOut::out("chi", acoplanarity(e)); SymOut::out("PHI", PHI(e)); SymOut::out("phi", phi(e, A(1), A(2), A(3), A(4))); }
