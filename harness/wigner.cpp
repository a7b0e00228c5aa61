#include "h.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/OptionsParser.h"
#include "AmpGen/Transform.h"
using namespace AmpGen; using namespace H;
static std::string ks(int a){ return std::to_string(a); }
static int reg = [](){
  for(int tj=0; tj<=12; ++tj) H::cases().push_back({"d"+ks(tj), [tj](){
    for(int tm=-tj; tm<=tj; tm+=2) for(int tn=-tj; tn<=tj; tn+=2) out(ks(tm)+","+ks(tn), wigner_d(P("cb"), tj/2., tm/2., tn/2.)); }});
  for(int tj=0; tj<=10; ++tj) H::cases().push_back({"D"+ks(tj), [tj](){
    auto ang = std::make_pair( P("cb"), P("cp") + Constant(0,1)*P("sp") );
    for(int tm=-tj; tm<=tj; tm+=2) for(int tn=-tj; tn<=tj; tn+=2){ out("D"+ks(tm)+","+ks(tn), wigner_D(ang, tj/2., tm/2., tn/2., nullptr)); out("d"+ks(tm)+","+ks(tn), wigner_d(P("cb"), tj/2., tm/2., tn/2.)); } }});
  return 0; }();
CASE("cg", std::string s="["; bool f=true;
  for(int a=0;a<=12;++a) for(int b=0;b<=(a>8?4:8);++b) for(int ma=-a;ma<=a;ma+=2) for(int mb=-b;mb<=b;mb+=2) for(int J=std::abs(a-b);J<=a+b;J+=2) for(int M=-J;M<=J;M+=2){
    s += (f?"":",") + std::string("[")+ks(a)+","+ks(ma)+","+ks(b)+","+ks(mb)+","+ks(J)+","+ks(M)+","+num(CG(a/2.,ma/2.,b/2.,mb/2.,J/2.,M/2.))+"]"; f=false; }
  outj("cg", s+"]"); )
CASE("recouple", std::string s="["; bool f=true;
  for(int j1=0;j1<=4;++j1) for(int j2=0;j2<=4;++j2) for(int J=0;J<=9;++J) for(int L=0;L<=12;L+=2) for(int S=std::abs(j1-j2);S<=j1+j2;S+=2){
    if( (j1+j2+J)%2 || J < std::abs(L-S) || J > L+S ) continue;
    for(auto& ls: calculate_recoupling_constants(J/2., J/2., L/2., S/2., j1/2., j2/2.)){
      s += (f?"":",") + std::string("[")+ks(J)+","+ks(L)+","+ks(S)+","+ks(j1)+","+ks(j2)+","+num(2*ls.m1)+","+num(2*ls.m2)+","+num(ls.factor)+"]"; f=false; } }
  outj("r", s+"]"); )
static void wick(const std::string& nm, int ve){
  Particle p(nm); Tensor P = p.P(); out("P", P);
  auto t = wickTransform(P, p, ve); out("rest", t(P)); out("V", t(Transform::Vector)); out("S", t(Transform::Spinor)); out("B", t(Transform::Bispinor)); out("inv", t.inverse()(Transform::Vector)); }
CASE("wick+", Particle p("K*(892)0{K+,pi-}"); p.daughter(0)->setIndex(0,true); p.daughter(1)->setIndex(1,true); Tensor Pm=p.P(); out("P",Pm); auto t=wickTransform(Pm,p,1); out("rest",t(Pm)); out("V",t(Transform::Vector)); )
CASE("wick-", Particle p("K*(892)0{K+,pi-}"); p.daughter(0)->setIndex(0,true); p.daughter(1)->setIndex(1,true); Tensor Pm=p.P(); out("P",Pm); auto t=wickTransform(Pm,p,-1); out("rest",t(Pm)); out("V",t(Transform::Vector)); )
CASE("wickg+", Particle p("gamma0"); p.setIndex(0,true); Tensor Pm=p.P(); out("P",Pm); auto t=wickTransform(Pm,p,1); out("rest",t(Pm)); out("V",t(Transform::Vector)); )
CASE("wickg-", Particle p("gamma0"); p.setIndex(0,true); Tensor Pm=p.P(); out("P",Pm); auto t=wickTransform(Pm,p,-1); out("rest",t(Pm)); out("V",t(Transform::Vector)); )
HMAIN
