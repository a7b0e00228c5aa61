#include "h.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/kMatrix.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Particle.h"
#include "AmpGen/CoupledChannel.h"
using namespace AmpGen; using namespace H;
typedef const std::string& cs;
static Expression shape(cs ls, cs name="f(0)(980)0"){ return Lineshape::Factory::get(ls, P("s"), P("s1"), P("s2"), name, 0); }
static void masses(){ static bool done=false; if(done) return; done=true;
  std::vector<std::pair<std::string,std::string>> m = {{"pi+","0.140625"},{"pi-","0.140625"},{"pi0","0.1328125"},{"K+","0.484375"},{"K-","0.484375"},{"K0","0.5"},{"eta0","0.546875"},{"eta'(958)0","0.96875"}};
  for(auto& x : m) const_cast<ParticleProperties*>(ParticlePropertiesList::get(x.first))->setProperty("mass",x.second); }
static std::string str(unsigned i){ return std::to_string(i); }
static int reg_all = [](){
  auto add = [](cs n, std::function<void()> f){ H::cases().push_back({n,[f](){ masses(); f(); }}); };
  for(unsigned n=1;n<=5;++n) add("prop"+str(n), [=](){ Tensor K(Tensor::dim(n,n)); std::vector<Expression> r; for(unsigned i=0;i<n;++i){ r.push_back(P("r"+str(i))); for(unsigned j=0;j<n;++j) K[{i,j}] = P("k"+str(i)+str(j)); } out("F", getPropagator(K,r)); });
  for(unsigned n=1;n<=5;++n) for(unsigned np=0;np<=5;++np) add("K"+str(n)+str(np), [=](){ std::vector<poleConfig> pc; for(unsigned p=0;p<np;++p){ poleConfig c(P("m"+str(p))); for(unsigned i=0;i<n;++i) c.add(P("g"+str(p)+str(i))); pc.push_back(c); } 
     auto K = constructKMatrix(P("s"),n,pc); out("K", K); std::vector<Expression> r; for(unsigned i=0;i<n;++i) r.push_back(P("r"+str(i))); auto F = getPropagator(K,r); out("F",F); });
  add("phsp", [](){ out("two", phsp_twoBody(P("s"),0.25,0.5)); out("focus", phsp_FOCUS(P("s"),0.25,0.5)); out("four", phsp_fourPi(P("s"))); out("g", gFromGamma(P("m"),P("w"),P("r"))); auto v = paramVector("xx",4); for(unsigned i=0;i<4;++i) out("x"+str(i), Expression(v[i])); outn("nx", v.size()); });
  add("defaults", [](){ OptionsParser::setArg("kMatrix::fp 0"); exportNode(shape("kMatrix.prod.0")); exportNode(shape("kMatrix.scatt.0.0")); std::string j="{"; for(auto& e : S().keep) if(auto q=dynamic_cast<const Parameter*>(e.get())) j += (j.size()>1?",":"")+js(q->name())+":"+num(q->defaultValue()); outj("v", j+"}"); });
  add("kM", [](){ OptionsParser::setArg("kMatrix::fp 0"); 
    for(unsigned i=0;i<5;++i){ for(unsigned j=0;j<5;++j) out("scatt"+str(i)+str(j), shape("kMatrix.scatt."+str(i)+"."+str(j))); 
      out("pole"+str(i), shape("kMatrix.pole."+str(i))); out("poleKK"+str(i), shape("kMatrix.poleKK."+str(i))); out("prod"+str(i), shape("kMatrix.prod."+str(i))); out("prodKK"+str(i), shape("kMatrix.prodKK."+str(i))); } });
  for(int fp=0;fp<2;++fp) for(unsigned i=0;i<5;i+=4) add("kM1_"+str(fp)+str(i), [=](){ OptionsParser::setArg("kMatrix::fp "+str(fp)); out("pole", shape("kMatrix.pole."+str(i))); });
  for(unsigned np=1;np<=3;++np) for(unsigned nc=1;nc<=3;++nc) add("simple"+str(np)+str(nc), [=](){ OptionsParser::setArg("kMatrix::nPoles "+str(np)); OptionsParser::setArg("kMatrix::nChannels "+str(nc)); 
     OptionsParser::setArg("kMatrix::Channel::1 pi+ pi-"); OptionsParser::setArg("kMatrix::Channel::2 K+ K-"); OptionsParser::setArg("kMatrix::Channel::3 pi+ K-"); for(unsigned p=0;p<np;++p) out("A"+str(p), shape("kMatrixSimple."+str(p))); });
  for(std::string m : {"Kpi","KEta","I32"}) { add("FOCUS."+m, [=](){ out("A", shape("FOCUS."+m,"K(0)*(1430)0")); }); add("PALANO."+m, [=](){ out("A", shape("PALANO."+m,"K(0)*(1430)0")); }); }
  add("FOCUS", [=](){ for(std::string m : {"Kpi","KEta"}) out(m, shape("FOCUS."+m,"K(0)*(1430)0")); });
  add("PALANO", [=](){ for(std::string m : {"Kpi","KEta"}) out(m, shape("PALANO."+m,"K(0)*(1430)0")); });
  for(unsigned np=1;np<=3;++np) for(unsigned nc=1;nc<=3;++nc) for(std::string ty : {"PVec","QVec","ZVec"}) for(std::string nr : {"flat","pole"}) add("gen"+ty+nr+str(np)+str(nc), [=](){ 
     std::string X="f(0)(980)0"; OptionsParser::setArg(X+"::kMatrix::nPoles "+str(np)); OptionsParser::setArg(X+"::kMatrix::production_amplitude "+ty);
     const char* ch[3]={"f(0)(980)0{pi+,pi-}",nr=="pole"?"f(0)(980)0[D]{K+,K-}":"f(0)(980)0{K+,K-}",nr=="pole"?"f(0)(980)0[P]{pi0,pi0}":"f(0)(980)0{pi0,pi0}"}; std::string c; for(unsigned i=0;i<nc;++i) c += std::string(" ")+ch[i]; OptionsParser::setArg(X+"::kMatrix::channels"+c);
     if( nr=="pole" ) for(unsigned i=1;i<=nc;++i) for(unsigned j=i;j<=nc;++j) OptionsParser::setArg(X+"::"+str(i)+"::"+str(j)+"::nrShape pole");
     Particle p("f(0)(980)0{pi+,pi-}", std::vector<std::string>{"pi+","pi-"}); out("s", p.massSq());
     for(unsigned i=0;i<nc;++i){ Particle q(ch[i]); outn("L"+str(i), q.L()); out("rho"+str(i), phaseSpace(p.massSq(), q, q.L())); }
     if( ty=="ZVec" ) for(unsigned i=1;i<=np;++i){ out("A"+str(i-1), Lineshape::Factory::get("GenericKmatrix.pole."+str(i), p, nullptr)); for(unsigned k=1;k<=nc;++k) out("A"+str(i-1)+"c"+str(k-1), Lineshape::Factory::get("GenericKmatrix.pole."+str(i)+"."+str(k), p, nullptr)); }
     else out("A", Lineshape::Factory::get("GenericKmatrix", p, nullptr)); });
  add("const", [](){ for( std::string n : {"pi+","pi0","K+","K0","eta0","eta'(958)0"} ) outn(n, ParticlePropertiesList::get(n)->mass()); });
  return 0; }();
HMAIN
