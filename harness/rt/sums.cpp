// sums of amplitudes: coherent, incoherent, polarised, sums of densities and their likelihood.  One process per command (H_SCRIPT: tab separated).
// The compiled amplitudes are replaced by functions obeying the contract of generated code (P03): r[s[k]] = A_k(x, externals).
#include "h.h"
#include "AmpGen/CoherentSum.h"
#include "AmpGen/IncoherentSum.h"
#include "AmpGen/PolarisedSum.h"
#include "AmpGen/SumPDF.h"
#include "AmpGen/FitFraction.h"
#include "AmpGen/ErrorPropagator.h"
#include "AmpGen/MinuitParameterSet.h"
#include "AmpGen/OptionsParser.h"
#include <sys/wait.h>
#include <unistd.h>
#include <deque>
#include <dlfcn.h>
using namespace AmpGen; using namespace H;
static std::string ks(long a){ return std::to_string(a); }
static std::string cn(complex_t z){ return "["+num(z.real())+","+num(z.imag())+"]"; }
static unsigned NF = 12, NC = 1; static int slot[16];
template <unsigned I> static void amp(complex_v* r, const size_t* s, const real_t* e, const real_v* x){
  for( unsigned c = 0; c != NC; ++c ){ double re[4], im[4]; double m = slot[I] >= 0 ? e[slot[I]] : 1;
    for( unsigned l = 0; l != 4; ++l ){ auto X = [&](unsigned f){ return x[f%NF].at(l); };
      re[l] = 0.5+0.125*I + m*X(I+c) + X(I+2*c+1)*X(3*I+c)*0.5; im[l] = 0.25*(c+1) - m*X(2*I+c+1) + X(I+c+2)*0.75; }
    r[s[c]] = complex_v(real_v(re), real_v(im)); } }
template <unsigned I> static void bat(const size_t& N, const size_t& es, const size_t& cs, void*, complex_v* r, const size_t* s, const real_t* e, const real_v* x){ for( size_t i = 0; i < N; ++i ) amp<I>(r+cs*i, s, e, x+i*es); }
template <unsigned I> static void inject(std::vector<MatrixElement>& m){ if( I < m.size() ){ auto& q = m[I]; q.m_fcn.m_fcn = amp<I>; q.m_batchFcn.m_fcn = [](const size_t& a, const size_t& b, const size_t& c, void* d, complex_v* r, const size_t* s, const real_t* e, const real_v* x){ bat<I>(a,b,c,d,r,s,e,x); }; if constexpr( I < 11 ) inject<I+1>(m); } }
static Event mk(unsigned k, unsigned seed){ Event e(NF); for( unsigned f = 0; f < NF; ++f ) e[f] = double((k*37+f*11+seed*7+k*f)%64)/32-1; e.setWeight(0.5+double((k*5+seed)%7)/8); e.setGenPdf(0.75+double((k*3+seed)%5)/8); e.setIndex(k); return e; }
template <class PDF> struct has_ae { template <class Q> static auto t(int) -> decltype(std::declval<Q>().amplitudeEvaluator(nullptr), std::true_type()); template <class> static std::false_type t(...); static const bool value = decltype(t<PDF>(0))::value; };
struct World { MinuitParameterSet mps; std::deque<EventList> lists; std::deque<EventListSIMD> simd; };
static EventListSIMD& fill(World& w, const EventType& t, unsigned n, unsigned seed){ w.lists.emplace_back(t); for( unsigned i = 0; i < n; ++i ) w.lists.back().push_back(mk(i,seed)); w.simd.emplace_back(w.lists.back()); return w.simd.back(); }
template <class PDF> static std::string look(PDF& p, World& w, EventListSIMD* ev, EventListSIMD* mc){ std::string s = "{\"coef\":["; auto mes = p.matrixElements(); for( unsigned i = 0; i < mes.size(); ++i ) s += (i?",":"")+cn(mes[i].coefficient);
  s += "],\"norm\":"+num(p.norm())+",\"m_norm\":"+num(p.m_norm)+",\"w\":"+num(p.getWeight())+",\"nij\":["; for( unsigned i = 0; i < mes.size(); ++i ) for( unsigned j = i; j < mes.size(); ++j ) s += (i||j?",":"")+cn(mc ? p.norm(i,j) : complex_t(0)); s += "]";
  auto vals = [&](const char* nm, auto f){ s += std::string(",\"")+nm+"\":["; for( unsigned i = 0; i < ev->size(); ++i ) s += (i?",":"")+f((*ev)[i]); s += "]"; };
  if( ev ){ vals("ev", [&](const Event& e){ return num(p(e)); }); s += ",\"blk\":["; for( unsigned i = 0; i < ev->size(); ++i ) s += (i?",":"")+num(p((const real_v*)nullptr, i/4).at(i%4)); s += "]";
    if constexpr( !std::is_same<PDF,CoherentSum>::value ){ s += ",\"dbl\":["; for( unsigned i = 0; i < ev->size(); ++i ) s += (i?",":"")+num(p((const double*)nullptr, i)); s += "]"; }
    if constexpr( std::is_same<PDF,CoherentSum>::value ){ vals("amp", [&](const Event& e){ return cn(p.getVal(e)); }); vals("ampnc", [&](const Event& e){ return cn(p.getValNoCache(e)); }); auto ae = p.amplitudeEvaluator(ev); vals("ae", [&](const Event& e){ return cn(ae(e)); }); }
    if constexpr( std::is_same<PDF,IncoherentSum>::value ){ vals("un", [&](const Event& e){ return num(p.prob_unnormalised(e)); }); vals("unnc", [&](const Event& e){ return num(p.prob_unnormalisedNoCache(e)); }); }
    if constexpr( std::is_same<PDF,PolarisedSum>::value ) vals("unnc", [&](const Event& e){ return num(p.getValNoCache(e)); });
    auto el = p.evaluator(ev); vals("eval", [&](const Event& e){ return num(el(e)); }); auto ce = p.componentEvaluator(ev); s += ",\"comp\":["; bool f = true; for( auto& fn : ce.functors ){ s += f?"[":",["; f = false; bool g = true; for( unsigned i = 0; i < ev->size(); ++i ){ s += (g?"":",")+num(fn((*ev)[i])); g = false; } s += "]"; } s += "]"; }
  if( mc ){ auto el = p.evaluator(); s += ",\"emc\":["; for( unsigned i = 0; i < mc->size(); ++i ) s += (i?",":"")+num(el((*mc)[i])); s += "]"; }
  return s+"}"; }
// the stand-alone model: written, compiled and loaded
template <class PDF> static std::string standalone(PDF& p, const EventType& t, const std::string& dir){ p.generateSourceCode(dir+"/model.cpp", 2.0, false); std::string so = dir+"/model.so"; void* h = dlopen(so.c_str(), RTLD_NOW); if( !h ) return "{\"crash\":"+js(dlerror())+"}";
  auto fcn = (double(*)(const double*, const int&))dlsym(h,"FCN"); auto ext = (double(*)(const double*, const int&, const double&, const double&, const double&))dlsym(h,"FCN_extPol"); auto all = (std::vector<complex_t>(*)(const double*))dlsym(h,"all_amplitudes_wParams"); if( !fcn || !all ) return "{\"crash\":\"missing functions\"}";
  std::string s = "{\"par\":["; auto& m = p.m_matrixElements; for( unsigned i = 0; i < m.size(); ++i ) s += (i?",":"")+ks(m[i].decayTree.finalStateParity()); s += "],\"pt\":[";
  for( unsigned k = 0; k < 3; ++k ){ std::vector<double> x(NF,0); double tot[3] = {0,0,0}; unsigned nb = t.size(); for( unsigned i = 0; i < nb; ++i ){ double e = t.mass(i)*t.mass(i); for( unsigned c = 0; c < 3; ++c ){ double q = i+1 == nb ? -tot[c] : double((k*37+(4*i+c)*11+k*i)%17)/40-0.2; tot[c] += q; x[4*i+c] = q; e += q*q; } x[4*i+3] = sqrt(e); }
    auto a = all(x.data()); s += (k?",{":"{"); s += "\"a\":["; for( unsigned i = 0; i < a.size(); ++i ) s += (i?",":"")+cn(a[i]); s += "],\"f\":["+num(fcn(x.data(),1))+","+num(fcn(x.data(),-1))+"]"; if( ext ) s += ",\"x\":"+num(ext(x.data(),1,0.25,-0.5,0.125)); s += "}"; }
  return s+"]}"; }
template <class PDF> static std::string history(const std::vector<std::string>& a){ World w; EventType t(split(a[1],' ')); std::string s = "["; bool first = true; std::unique_ptr<PDF> p; EventListSIMD *ev = nullptr, *mc = nullptr; auto add = [&](const std::string& x){ s += (first?"":",")+x; first = false; };
  for( size_t i = 2; i < a.size(); ++i ){ auto o = split(a[i],'|'); 
    if( o[0]=="par" ) w.mps.add(o[1], Flag::Free, std::stod(o[2]), 0.1, 0, 0);
    else if( o[0]=="opt" ) OptionsParser::setArg(o[1]);
    else if( o[0]=="set" ) w.mps.find(o[1])->setCurrentFitVal(std::stod(o[2]));
    else if( o[0]=="build" ){ if constexpr( std::is_same<PDF,PolarisedSum>::value ) p.reset(new PDF(t,w.mps)); else p.reset(new PDF(t,w.mps,o.size()>1?o[1]:"")); NF = t.eventSize(); auto& m = p->m_matrixElements; NC = m.size() ? m[0].returnTypeSize()/sizeof(complex_v) : 1; inject<0>(m);
      std::string q = "{\"nf\":"+ks(NF)+",\"nc\":"+ks(NC)+",\"me\":["; for( unsigned k = 0; k < m.size(); ++k ){ q += (k?",":"")+js(m[k].decayTree.uniqueString()); m[k].prepare(); slot[k] = -1; auto x = m[k].externBuffer(); for( unsigned z = 0; z < x.size(); ++z ) for( auto* mp : w.mps ) if( mp->name().find("_mass") != std::string::npos && mp->mean() == x[z] ) slot[k] = z; } q += "],\"slot\":["; for( unsigned k = 0; k < m.size(); ++k ) q += (k?",":"")+ks(slot[k]); add(q+"]}"); }
    else if( o[0]=="events" ){ ev = &fill(w,t,atoi(o[2].c_str()),atoi(o[3].c_str())); if( o[1]=="s" ) p->setEvents(*ev); else p->setEvents(w.lists.back()); }
    else if( o[0]=="mc" ){ mc = &fill(w,t,atoi(o[2].c_str()),atoi(o[3].c_str())); if( o[1]=="s" ) p->setMC(*mc); else p->setMC(w.lists.back()); }
    else if( o[0]=="weight" ) p->setWeight(w.mps.find(o[1]));
    else if( o[0]=="prep" ) p->prepare();
    else if( o[0]=="reset" ) p->reset();
    else if( o[0]=="look" ) add(look(*p,w,ev,mc));
    else if( o[0]=="ff" ){ size_t n = p->m_matrixElements.size(); std::vector<size_t> all; for( size_t k = 0; k < n; ++k ) all.push_back(k); FitFractionCalculator<PDF> c(p.get(), all, o.size()>1); for( size_t k = 0; k < n; ++k ) c.emplace_back("a", std::vector<size_t>{k}); c.emplace_back("b", std::vector<size_t>{0,n-1}); c.emplace_back("c", std::vector<size_t>{n-1}, std::vector<size_t>{0}); c.emplace_back("d", all); auto v = c(); std::string q = "["; for( auto& x : v ) q += num(x)+","; q += num(c.norm())+","+num(c.getVal(n+1,true))+"]"; add(q); }
    else if( o[0]=="fff" ){ auto v = p->fitFractions(LinearErrorPropagator(w.mps)); std::string q = "["; for( auto& x : v ) q += (q.size()>1?",[":"[")+js(x.name())+","+num(x.val())+","+num(x.err())+"]"; add(q+"]"); }
    else if( o[0]=="src" ){ if constexpr( !std::is_same<PDF,IncoherentSum>::value ) add(standalone(*p,t,o[1])); }
    else if( o[0]=="copy" ){ auto& m = p->m_matrixElements; auto q = p->matrixElements(); add(ks(q.size()==m.size())); }
  } return s+"]"; }
static std::string lik(const std::vector<std::string>& a){ World w; EventType t(split(a[1],' ')); std::string s = "["; bool first = true; auto add = [&](const std::string& x){ s += (first?"":",")+x; first = false; };
  size_t i = 2; for( ; split(a[i],'|')[0] == "par"; ++i ){ auto o = split(a[i],'|'); w.mps.add(o[1], Flag::Free, std::stod(o[2]), 0.1, 0, 0); }
  CoherentSum c(t,w.mps); IncoherentSum n(t,w.mps,"Inco"); NF = t.eventSize(); NC = 1; inject<0>(c.m_matrixElements); inject<0>(n.m_matrixElements); for( auto& x : slot ) x = -1; 
  std::string q = "{\"me\":["; for( unsigned k = 0; k < c.size(); ++k ) q += (k?",":"")+js(c[k].decayTree.uniqueString()); q += "],\"mi\":["; for( unsigned k = 0; k < n.size(); ++k ) q += (k?",":"")+js(n[k].decayTree.uniqueString()); add(q+"]}");
  auto o = split(a[i],'|'); auto& ev = fill(w,t,atoi(o[1].c_str()),3); auto& evl = w.lists.back(); auto& mc = fill(w,t,atoi(o[2].c_str()),5); c.setMC(mc); n.setMC(mc); c.setWeight(w.mps.find("fSig")); n.setWeight(w.mps.find("fBkg"));
  SumPDF<EventListSIMD,CoherentSum&,IncoherentSum&> L(c,n); SumPDF<EventList,CoherentSum&,IncoherentSum&> M(c,n); SumPDF<EventListSIMD,CoherentSum&,IncoherentSum&,IncoherentSum&> T(c,n,n); 
  for( ++i; i < a.size(); ++i ){ auto o = split(a[i],'|'); if( o[0]=="set" ) w.mps.find(o[1])->setCurrentFitVal(std::stod(o[2]));
    if( o[0]=="val" ){ L.setEvents(ev); auto v = L.getVal(); add(num(v)); add(num(L.getVal())); std::string q = "["; for( unsigned k = 0; k < ev.size(); ++k ) q += (k?",":"")+num(L(ev[k])); add(q+"]"); auto e = L.evaluator(&ev); q = "["; for( unsigned k = 0; k < ev.size(); ++k ) q += (k?",":"")+num(e(ev[k])); add(q+"]"); }
    if( o[0]=="val3" ){ T.setEvents(ev); add(num(T.getVal())); std::string q = "["; for( unsigned k = 0; k < ev.size(); ++k ) q += (k?",":"")+num(T(ev[k])); add(q+"]"); auto e = T.evaluator(&ev); q = "["; for( unsigned k = 0; k < ev.size(); ++k ) q += (k?",":"")+num(e(ev[k])); add(q+"]"); }
    if( o[0]=="vall" ){ M.setEvents(evl); add(num(M.getVal())); std::string q = "["; for( unsigned k = 0; k < evl.size(); ++k ) q += (k?",":"")+num(M(evl[k])); add(q+"]"); } }
  return s+"]"; }
static std::string run(const std::vector<std::string>& a){ if( a[0]=="coh" ) return history<CoherentSum>(a); if( a[0]=="inc" ) return history<IncoherentSum>(a); if( a[0]=="pol" ) return history<PolarisedSum>(a); if( a[0]=="lik" ) return lik(a); return "\"?\""; }
CASE("script", OptionsParser::setArg("AutoCompile 0"); std::ifstream f(getenv("H_SCRIPT")); std::string ln; unsigned k=0; while(std::getline(f,ln)){ std::vector<std::string> a; std::string cur; for(char ch: ln){ if(ch=='\t'){ a.push_back(cur); cur.clear(); } else cur+=ch; } a.push_back(cur);
  std::string tmp="o"+ks(k); fflush(stdout); pid_t pid=fork(); if(pid==0){ std::string r; try { r=run(a); } catch(std::exception& e){ r="{\"exception\":"+js(e.what())+"}"; } { std::ofstream o(tmp); o<<r; } _exit(0); }
  int st=0; waitpid(pid,&st,0); std::string r; if(WIFEXITED(st)&&WEXITSTATUS(st)==0){ std::ifstream i(tmp); std::getline(i,r); } else r="{\"crash\":"+ks(st)+"}"; unlink(tmp.c_str()); outj("r"+ks(k++),r); } )
HMAIN
