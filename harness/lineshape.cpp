#include "h.h"
#include "AmpGen/Lineshapes.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/ParticlePropertiesList.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Particle.h"
#include "AmpGen/CoupledChannel.h"
using namespace AmpGen; using namespace H;
typedef const std::string& cs;
static Expression shape(cs ls, unsigned L, cs name="rho(770)0"){ return Lineshape::Factory::get(ls, P("s"), P("s1"), P("s2"), name, L); }
// masses of the final states as exactly representable constants, so that folded constants stay exact
static void masses(){ static bool done=false; if(done) return; done=true;
  std::vector<std::pair<std::string,std::string>> m = {{"pi+","0.140625"},{"pi-","0.140625"},{"pi0","0.1328125"},{"K+","0.484375"},{"K-","0.484375"},{"K0","0.5"},{"eta0","0.546875"}};
  for(auto& x : m) const_cast<ParticleProperties*>(ParticlePropertiesList::get(x.first))->setProperty("mass",x.second); }
static int reg_all = [](){
  auto add = [](cs n, std::function<void()> f){ H::cases().push_back({n,[f](){ masses(); f(); }}); };
  add("q2", [](){ out("q2", Q2(P("s"),P("s1"),P("s2"))); out("q2r", Q2(P("s"),P("s2"),P("s1"))); out("kf", kFactor(P("m"),P("w"))); 
     out("pol", pol(P("s"),{P("s1"),P("s2"),P("m"),P("w")})); out("pol0", pol(P("s"),{})); out("pol1", pol(P("s"),{P("m")})); });
  for(unsigned L=0;L<=4;++L){ std::string l=std::to_string(L);
    add("bw"+l, [=](){ out("B", BlattWeisskopf(P("z"),L)); out("N", BlattWeisskopf_Norm(P("z"),P("z0"),L)); out("B1", BlattWeisskopf(Expression(1),L)); out("N0", BlattWeisskopf_Norm(P("z"),0,L)); });
    add("BL"+l, [=](){ out("BL", BL(P("s"),P("m")*P("m"),P("s1"),P("s2"),P("r"),L)); out("BLp", BL(P("m")*P("m"),P("m")*P("m"),P("s1"),P("s2"),P("r"),L)); });
    add("width"+l, [=](){ out("w", width(P("s"),P("s1"),P("s2"),P("m"),P("w0"),P("r"),L)); out("wp", width(P("m")*P("m"),P("s1"),P("s2"),P("m"),P("w0"),P("r"),L)); });
    for( std::string mod : {"", ".BL", ".BELLE2018", ".NFF"} ) add("BW"+mod+l, [=](){ out("A", shape("BW"+mod, L)); });
    for( std::string mod : {"", ".BL", ".BELLE2018", ".NFF", ".L0", ".L1", ".L2", ".L3"} ) add("FormFactor"+mod+l, [=](){ out("A", shape("FormFactor"+mod, L)); });
    for( std::string mod : {"", ".BL", ".IncludeRadiusInWidth"} ) add("GounarisSakurai"+mod+l, [=](){ out("A", shape("GounarisSakurai"+mod, L)); });
    add("ExpFF"+l, [=](){ out("A", shape("ExpFF",L)); });
  }
  for( std::string n : {"SBW","NonRelBW","Photon","None","Isotensor","Bugg","Bugg.Az"} ) add(n, [=](){ out("A", shape(n,0)); });
  add("Gaussian", [](){ out("A", shape("Gaussian.gg",0)); });
  for(int d=0; d<=4; ++d) add("Poly"+std::to_string(d), [=](){ OptionsParser::setArg("pp"+std::to_string(d)+"::Degree "+std::to_string(d)); out("A", shape("Poly.pp"+std::to_string(d),0)); });
  for( std::string n : {"LASS","LASS.BW","LASS.NR","GLASS"} ) add(n, [=](){ out("A", shape(n,0,"K(0)*(1430)0")); });
  for( std::string n : {"Flatte","Flatte.CutKK"} ) add(n, [=](){ out("A", shape(n,0,"f(0)(980)0")); });
  add("FlatteA", [=](){ out("A", shape("Flatte",0,"a(0)(980)0")); });
  add("names", [](){ out("A", Lineshape::Factory::get("BW", P("s"), P("s1"), P("s2"), "K*(892)0", 1)); out("B", shape("BW",1)); 
     auto p = ParticlePropertiesList::get("K*(892)0"); outn("m", p->mass()); outn("w", p->width()); outn("r", p->radius()); });
  add("const", [](){ for( std::string n : {"pi+","pi0","K+","K0","eta0"} ) outn(n, ParticlePropertiesList::get(n)->mass()); });
  for( std::string mod : {"", ".BL", ".norm"} ) for( unsigned L=0; L<=2; ++L ) add("CoupledChannel"+mod+std::to_string(L), [=](){ 
     OptionsParser::setArg("rho(770)0_channels rho(770)0{pi+,pi-} rho_g1 rho(770)0{K+,K-} rho_g2");

     auto ch = NamedParameter<std::string>("rho(770)0_channels").getVector(); outn("nch", ch.size());
     out("A", shape("CoupledChannel"+mod, L)); for(size_t i=0;i+1<ch.size();i+=2){ Particle p(ch[i]); outn("L"+std::to_string(i/2), p.L()); out("m1"+std::to_string(i/2), p.daughter(0)->massSq()); out("m2"+std::to_string(i/2), p.daughter(1)->massSq()); } });
  add("phaseSpace", [](){ Particle p("rho(770)0{pi+,pi-}"), q("rho(770)0[phsp=arXiv.0707.3596]{pi+,K-}"); out("rho", phaseSpace(P("s"),p,1)); out("AS", phaseSpace(P("s"),q,0)); out("rho0", phaseSpace(P("s"),p,0)); out("rho2", phaseSpace(P("s"),p,2)); });
  for( int l=1; l<=3; ++l) add("CM"+std::to_string(l), [=](){ Particle p("rho(770)0[phsp=CM]{pi+,K-}"); out("rho", phaseSpace(P("s"),p,l)); outn("m1", p.daughter(0)->props()->mass()); outn("m2", p.daughter(1)->props()->mass()); outn("R", p.props()->radius()); });
  // values of the default parameters, by the name the user gives them
  add("defaults", [](){ std::string j="{"; for( std::string n : {"BW","SBW","NonRelBW","GounarisSakurai","LASS","GLASS","Bugg","Isotensor","FormFactor","ExpFF","Photon","Flatte","FlatteA"} ){
      std::string part = n == "LASS" || n == "GLASS" ? "K(0)*(1430)0" : n == "Flatte" ? "f(0)(980)0" : n == "FlatteA" ? "a(0)(980)0" : "rho(770)0"; size_t k0=S().keep.size(); exportNode(shape(n == "FlatteA" ? "Flatte" : n, 1, part));
      auto pp = ParticlePropertiesList::get(part); j += (j.size()>1?",":"")+js(n)+":{\"\":["+num(pp->mass())+","+num(pp->width())+","+num(pp->radius())+"]"; for(size_t i=k0;i<S().keep.size();++i) if(auto q=dynamic_cast<const Parameter*>(S().keep[i].get())) j += ","+js(q->name())+":"+num(q->defaultValue()); j+="}"; S().seen.clear(); } outj("v", j+"}"); });
  // phase space factors as numbers: three-body with a resonance, and dispersive forms with different masses
  add("numeric", [](){ std::vector<std::string> ps = {"D0{K*(892)bar0{K-,pi+},pi0}","D+{pi+,rho(770)0{pi+,pi-}}","K(1)(1270)+{rho(770)0{pi+,pi-},K+}","D0{a(1)(1260)+{K+,pi0},pi-}","D0{K-,rho(770)+{pi+,pi0}}","D+{K+,omega(782)0{pi0,eta0}}"}; std::string j="{\"three\":["; bool first=true;
    for(auto& n : ps){ Particle p(n); bool l = p.daughter(0)->isStable(); auto r = p.daughter(l?1:0), b = p.daughter(l?0:1); j += std::string(first?"":",")+"{\"p\":"+js(n)+",\"c\":["+num(r->props()->mass())+","+num(r->props()->width())+","+num(r->daughter(0)->props()->mass())+","+num(r->daughter(1)->props()->mass())+","+num(b->props()->mass())+"],\"v\":["; first=false; bool f=true; for(double x : {0.4,0.7,1.1,1.44,1.9,2.5,3.48,4.7,7.3}){ auto v = phaseSpace(Constant(x),p,0)(); j += std::string(f?"":",")+"["+num(x)+","+num(v.real())+","+num(v.imag())+"]"; f=false; } j+="]}"; }
    j += "],\"cm\":["; first=true; for( std::string n : {"rho(770)0[phsp=CM]{pi+,K-}","rho(770)0[phsp=CM]{K+,pi-}","rho(770)0[phsp=CM]{pi+,pi-}","a(0)(980)0[phsp=CM]{eta0,pi0}"} ) for(unsigned l=0;l<=3;++l){ Particle p(n); j += std::string(first?"":",")+"{\"p\":"+js(n)+",\"l\":"+std::to_string(l)+",\"c\":["+num(p.daughter(0)->props()->mass())+","+num(p.daughter(1)->props()->mass())+","+num(p.props()->radius())+"],\"v\":["; first=false; bool f=true; for(double x : {0.05,0.11,0.3,0.6,0.83,1.2,1.7,2.3,3.1,4.2}){ auto v = phaseSpace(Constant(x),p,l)(); j += std::string(f?"":",")+"["+num(x)+","+num(v.real())+","+num(v.imag())+"]"; f=false; } j+="]}"; } outj("v", j+"]}"); });
  return 0; }();
HMAIN
