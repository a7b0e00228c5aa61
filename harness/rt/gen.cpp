// generated events against an independent weighted generator: histograms of invariant masses and angles.  One process per command (H_SCRIPT: tab separated fields).
#include "h.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Generator.h"
#include "AmpGen/PhaseSpace.h"
#include "AmpGen/RecursivePhaseSpace.h"
#include "AmpGen/TreePhaseSpace.h"
#include "AmpGen/Particle.h"
#include "TRandom3.h"
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <random>
#include <functional>
using namespace AmpGen; using namespace H;
typedef std::array<double,4> V; typedef std::vector<V> Ev;
static double dot(const V& a, const V& b){ return a[3]*b[3]-a[0]*b[0]-a[1]*b[1]-a[2]*b[2]; }
static V operator+(const V& a, const V& b){ return {a[0]+b[0],a[1]+b[1],a[2]+b[2],a[3]+b[3]}; }
static V up(const V& p, const V& Q){ double m = std::sqrt(dot(Q,Q)), s = p[0]*Q[0]+p[1]*Q[1]+p[2]*Q[2], e = (p[3]*Q[3]+s)/m, k = (p[3]+e)/(Q[3]+m); return {p[0]+k*Q[0],p[1]+k*Q[1],p[2]+k*Q[2],e}; }
static double mom(double M, double a, double b){ double x = (M*M-(a+b)*(a+b))*(M*M-(a-b)*(a-b)); return x > 0 ? 0.5*std::sqrt(x)/M : 0; }
// the reference: particles split off from the last to the first, weight the product of the momenta
static double ref(std::mt19937_64& g, double M, const std::vector<double>& m, Ev& out){ auto u = [&]{ return (0.5 + (g() >> 12)) / 4503599627370496.; }; unsigned n = m.size(); double T = M; for( auto x : m ) T -= x; std::vector<double> r; for( unsigned i = 0; i+2 < n; ++i ) r.push_back(u()); std::sort(r.begin(), r.end()); r.insert(r.begin(), 0); r.push_back(1);
  double w = 1, sum = 0, low = 0; out.assign(n, V{0,0,0,0}); 
  for( unsigned k = 0; k+1 < n; ++k ){ unsigned i = n-1-k; sum += m[i]; if( k == 0 ){ out[i] = {0,0,0,m[i]}; low = m[i]; } double hi = sum + m[i-1] + r[k+1]*T; double q = mom(hi, low, m[i-1]); w *= q; double z = 2*u()-1, p = 2*M_PI*u(), s = std::sqrt(1-z*z); V a{q*s*std::cos(p), q*z, q*s*std::sin(p), std::sqrt(q*q+low*low)}; for( unsigned j = i; j < n; ++j ) out[j] = up(out[j], a); out[i-1] = {-a[0],-a[1],-a[2],std::sqrt(q*q+m[i-1]*m[i-1])}; low = hi; } return w; }
struct Hists { unsigned n; double M; std::vector<std::vector<double>> w, w2; std::vector<std::string> name; std::vector<double> lo, hi; std::vector<double> m;
  Hists(double M, const std::vector<double>& m) : n(m.size()), M(M), m(m) { auto add = [&](std::string s, double a, double b){ name.push_back(s); lo.push_back(a); hi.push_back(b); w.emplace_back(20, 0.); w2.emplace_back(20, 0.); }; double T = M; for( auto x : m ) T -= x;
    if( n > 2 ) for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < i; ++j ) add("m"+std::to_string(j)+std::to_string(i), m[i]+m[j], m[i]+m[j]+T);
    for( unsigned i = 0; i < n; ++i ){ add("cos"+std::to_string(i), -1, 1); add("phi"+std::to_string(i), -M_PI, M_PI); }
    if( n > 2 ) for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) if( i != j ) add("hel"+std::to_string(i)+std::to_string(j), -1, 1); }
  void fill(const Ev& e, double x){ unsigned k = 0; auto put = [&](double v){ int b = int(20*(v-lo[k])/(hi[k]-lo[k])); if( b < 0 ) b = 0; if( b > 19 ) b = 19; w[k][b] += x; w2[k][b] += x*x; k++; };
    if( n > 2 ) for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < i; ++j ){ V q = e[i]+e[j]; put(std::sqrt(std::max(0.,dot(q,q)))); }
    for( unsigned i = 0; i < n; ++i ){ double p = std::sqrt(e[i][0]*e[i][0]+e[i][1]*e[i][1]+e[i][2]*e[i][2]); put(p > 0 ? e[i][2]/p : 0); put(std::atan2(e[i][1], e[i][0])); }
    if( n > 2 ) for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) if( i != j ){ V q = e[i]+e[j], Q{0,0,0,0}; for( auto& x : e ) Q = Q + x; auto f = [&](const V& a, const V& b){ return dot(a,q)*dot(b,q)/dot(q,q)-dot(a,b); }; double d = f(e[i],e[i])*f(Q,Q); put(d > 0 ? f(e[i],Q)/std::sqrt(d) : 0); } } };
static double lgq(double a, double x){ // log of the upper incomplete gamma ratio, by continued fraction or series
  if( x < a+1 ){ double s = 1/a, t = s; for( int k = 1; k < 500; ++k ){ t *= x/(a+k); s += t; } double p = std::exp(-x + a*std::log(x) - std::lgamma(a))*s; return std::log(std::max(1e-300, 1-p)); }
  double b = x+1-a, c = 1e300, d = 1/b, h = d; for( int i = 1; i < 500; ++i ){ double an = -i*(i-a); b += 2; d = an*d+b; if( std::abs(d) < 1e-300 ) d = 1e-300; c = b+an/c; if( std::abs(c) < 1e-300 ) c = 1e-300; d = 1/d; h *= d*c; } return -x + a*std::log(x) - std::lgamma(a) + std::log(h); }
static std::string compare(const Hists& a, const Hists& b){ std::string worst = ""; double lp = 0; for( unsigned k = 0; k < a.name.size(); ++k ){ double A = 0, B = 0; for( int i = 0; i < 20; ++i ){ A += a.w[k][i]; B += b.w[k][i]; } double chi = 0; int nd = -1; for( int i = 0; i < 20; ++i ){ double v = a.w2[k][i]/(A*A)+b.w2[k][i]/(B*B); if( v <= 0 ) continue; 
      double na = a.w2[k][i] > 0 ? a.w[k][i]*a.w[k][i]/a.w2[k][i] : 0, nb = b.w2[k][i] > 0 ? b.w[k][i]*b.w[k][i]/b.w2[k][i] : 0; if( na < 25 || nb < 25 ) continue; double d = a.w[k][i]/A-b.w[k][i]/B; chi += d*d/v; nd++; }
      if( nd < 1 ) continue; double l = chi > 0 ? lgq(nd/2., chi/2)/std::log(10.) : 0; if( l < lp ){ lp = l; worst = a.name[k]; } } return "\"log10p\":"+num(lp)+",\"worst\":"+js(worst); }
static Ev get(const Event& e, unsigned n){ Ev r(n); for( unsigned i = 0; i < n; ++i ) for( int k = 0; k < 4; ++k ) r[i][k] = e[4*i+k]; return r; }
struct Dev { double mass = 0, sum = 0; std::string ev; void add(const Ev& e, double M, const std::vector<double>& m){ V s{0,0,0,0}; double dm = 0, ds = 0; for( unsigned i = 0; i < m.size(); ++i ){ s = s + e[i]; double x = std::abs(dot(e[i],e[i])-m[i]*m[i]); if( !(x <= dm) ) dm = x; if( !(e[i][3] > 0) ) dm = 99; } for( int k = 0; k < 4; ++k ){ double x = std::abs(s[k]-(k==3?M:0)); if( !(x <= ds) ) ds = x; } if( !(std::max(dm,ds) <= std::max(mass,sum)) || ev.empty() ){ ev = "["; for( auto& p : e ) for( auto x : p ) ev += (ev.size()>1?",":"")+num(x); ev += "]"; } if( !(dm <= mass) ) mass = dm; if( !(ds <= sum) ) sum = ds; }
  std::string js() const { return "\"mass\":"+num(mass)+",\"sum\":"+num(sum)+",\"event\":"+ev; } };
static EventType type(const std::string& a){ return EventType(split(a,' ')); }
static Hists reference(const EventType& t, unsigned n, unsigned seed, double (*f)(const Ev&)=nullptr){ Hists h(t.motherMass(), t.masses()); std::mt19937_64 g(seed+99); Ev e; for( unsigned i = 0; i < n; ++i ){ double w = ref(g, t.motherMass(), t.masses(), e); if( f ) w *= f(e); h.fill(e, w); } return h; }
static double F(const Ev& e){ V q = e[0]+e[1]; double s = dot(q,q); return 1./((s-0.8)*(s-0.8)+0.02) + 3*e[2][3]; }
struct Pdf { unsigned n; bool hit = false; int prepared = 0; void reset(bool=false){} void prepare(){ prepared++; } template <class T> void setEvents(T&){ } void debug(const Event&){}
  double operator()(const Event& e) const { return F(get(e, n)); } size_t size() const { return 0; }
  real_v operator()(const real_v* b, unsigned) const { real_v r = 0.; std::array<double,real_v::size> o; for( unsigned k = 0; k < real_v::size; ++k ){ Ev e(n); for( unsigned i = 0; i < n; ++i ) for( int c = 0; c < 4; ++c ) e[i][c] = b[4*i+c].at(k); o[k] = F(e); } return real_v(o.data()); } };
static std::vector<Particle> chains(const std::string& s, const EventType& t){ std::vector<Particle> r; for( auto& c : split(s,';') ) r.emplace_back(c, t.finalStates()); return r; }
static std::string run(const std::vector<std::string>& a){
  unsigned seed = atoi(a[1].c_str()), n = atoi(a[2].c_str()); auto t = type(a[3]); double M = t.motherMass(); auto m = t.masses(); unsigned N = m.size(); TRandom3 r(seed); Hists h(M, m); Dev d; std::string x = "";
  if( a[0] == "phsp" ){ PhaseSpace p(t, &r); for( unsigned i = 0; i < n; ++i ){ auto e = p.makeEvent(); auto v = get(e,N); d.add(v,M,m); h.fill(v,1); if( e.genPdf() != 1 ) x = ",\"gen\":"+num(e.genPdf()); } return "{"+d.js()+","+compare(h, reference(t,3*n,seed))+x+"}"; }
  if( a[0] == "tree" || a[0] == "tree1" || a[0] == "dflt" ){ auto c = chains(a[4], t); gRandom = &r; TreePhaseSpace* p = a[0] == "tree1" ? new TreePhaseSpace(c[0], t, &r) : a[0] == "dflt" ? new TreePhaseSpace(c, t) : new TreePhaseSpace(c, t, &r); for( unsigned i = 0; i < n; ++i ){ auto e = p->makeEvent(); auto v = get(e,N); d.add(v,M,m); h.fill(v,1/e.genPdf()); } return "{"+d.js()+","+compare(h, reference(t,3*n,seed))+",\"size\":"+std::to_string(p->size())+"}"; }
  if( a[0] == "rec" ){ Particle c(a[4], t.finalStates()); RecursivePhaseSpace p(c, t, &r); auto q = c.quasiStableTree(); double worst = 0; Ev w; for( unsigned i = 0; i < n; ++i ){ auto e = p.makeEvent(); auto v = get(e,N); d.add(v,M,m); h.fill(v,1); 
      // every long-lived intermediate state has its mass
      std::function<void(const Particle&)> go = [&](const Particle& y){ if( y.daughters().empty() ) return; V s{0,0,0,0}; for( auto& f : y.getFinalStateParticles(false) ) s = s + v[f->index()]; worst = std::max(worst, std::abs(dot(s,s)-y.mass()*y.mass())); for( auto& z : y.daughters() ) go(*z); }; go(c); }
    // reference: nested phase spaces
    std::mt19937_64 g(seed+7); Hists H2(M, m); for( unsigned i = 0; i < 3*n; ++i ){ Ev o(N); double wt = 1; std::function<void(const Particle&, V)> go = [&](const Particle& y, V Q){ std::vector<double> mm; for( auto& z : y.daughters() ) mm.push_back(z->mass()); Ev e; wt *= ref(g, y.mass(), mm, e); unsigned k = 0; for( auto& z : y.daughters() ){ V p = up(e[k++], Q); if( z->daughters().empty() ) o[z->index()] = p; else go(*z, p); } }; go(c, V{0,0,0,M}); H2.fill(o, wt); }
    return "{"+d.js()+","+compare(h, H2)+",\"inner\":"+num(worst)+"}"; }
  if( a[0] == "flat" ){ Generator<PhaseSpace> G(t, &r); gRandom = &r; G.setRandom(&r); auto l = G.generate(n); for( const auto& e : l ){ auto v = get(e,N); d.add(v,M,m); h.fill(v,1); } return "{"+d.js()+","+compare(h, reference(t,3*n,seed))+",\"count\":"+std::to_string(l.size())+"}"; }
  if( a[0] == "gen" || a[0] == "gentree" ){ gRandom = &r; Pdf f{N}; EventList l(t); double bad = 0; 
    if( a[0] == "gen" ){ Generator<PhaseSpace> G(t, &r); G.setRandom(&r); G.setBlockSize(atoi(a[5].c_str())); G.fillEventList(f, l, n); } else { Generator<TreePhaseSpace> G(chains(a[4],t), t, &r); G.setRandom(&r); G.setBlockSize(atoi(a[5].c_str())); G.fillEventList(f, l, n); }
    for( const auto& e : l ){ auto v = get(e,N); d.add(v,M,m); h.fill(v,1); bad = std::max(bad, std::abs(e.genPdf()/F(v)-1)); } return "{"+d.js()+","+compare(h, reference(t,6*n,seed,F))+",\"count\":"+std::to_string(l.size())+",\"pdf\":"+num(bad)+"}"; }
  return "{}"; }
int main(){ const char* f = getenv("H_SCRIPT"); std::ifstream in(f ? f : ""); std::string line; std::cout << "{"; bool first = true; unsigned k = 0; std::vector<std::pair<pid_t,int>> kids; 
  while( std::getline(in, line) ){ if( line.empty() ) continue; int fd[2]; if( pipe(fd) ) return 2; fflush(stdout); pid_t p = fork(); if( p == 0 ){ close(fd[0]); alarm(100); int q = open("/dev/null", 1); dup2(q,1); std::string o; try { o = run(split(line,'\t',false)); } catch( std::exception& e ){ o = "{\"exception\":"+js(e.what())+"}"; } if( write(fd[1], o.data(), o.size()) < 0 ) _exit(3); _exit(0); } close(fd[1]); kids.push_back({p,fd[0]}); 
    if( kids.size() >= 200 ) break; }
  for( auto& [p,fd] : kids ){ std::string o; char b[65536]; ssize_t c; while( (c = read(fd,b,sizeof b)) > 0 ) o.append(b,c); int st; waitpid(p,&st,0); if( !WIFEXITED(st) || WEXITSTATUS(st) || o.empty() ) o = "{\"crash\":"+std::to_string(st)+"}"; std::cout << (first?"":",") << "\"" << k++ << "\":" << o; first = false; } std::cout << "}" << std::endl; }
