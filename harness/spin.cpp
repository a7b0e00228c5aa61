#include "h.h"
#include "AmpGen/DiracMatrices.h"
#include "AmpGen/Vertex.h"
#include "AmpGen/Particle.h"
#include "AmpGen/ParticleProperties.h"
#include "AmpGen/Wigner.h"
#include "AmpGen/OptionsParser.h"
using namespace AmpGen; using namespace H;
static Tensor T_(const std::string& n, const std::vector<unsigned>& d){ unsigned s=1; for(auto x:d) s*=x; std::vector<Expression> e; for(unsigned i=0;i<s;++i) e.push_back(P(n+std::to_string(i))); return Tensor(e,d); }
static Tensor Sp(const std::string& n){ std::vector<Expression> e; for(unsigned i=0;i<4;++i) e.push_back(P(n+std::to_string(i))+Constant(0,1)*P(n+"i"+std::to_string(i))); return Tensor(e,{4}); }
CASE("matrices", for(int i=0;i<5;++i) out("G"+std::to_string(i),Gamma[i]); for(int i=0;i<3;++i){ out("S"+std::to_string(i),Sigma[i]); out("F"+std::to_string(i),Sigma4[i]); out("J"+std::to_string(i),SO3[i]); } for(int i=0;i<8;++i) out("L"+std::to_string(i),SU3[i]); out("I",AmpGen::I); out("Z",AmpGen::Z); out("GV",Gamma4Vec()); )
CASE("slash", out("s", slash(V4("p"))); out("bar", Bar(Sp("u"))); out("gt", gamma_twiddle(V4("p"))); )
CASE("pwave", out("L", Orbital_PWave(V4("p"),V4("q"))); )
CASE("dwave", out("L", Orbital_PWave(V4("p"),V4("q"))); out("D", Orbital_DWave(V4("p"),V4("q"))); )
CASE("spin1", out("S", Spin1Projector(V4("p"))); )
CASE("spin2", out("S", Spin1Projector(V4("p"))); out("T", Spin2Projector(V4("p"))); )
CASE("spinh", out("F", Spin1hProjector(V4("p"))); out("B", Spin1hbProjector(V4("p"))); out("F3", Spin3hProjector(V4("p"))); out("B3", Spin3hbProjector(V4("p"))); )
// external polarisation states
static Particle mk(const std::string& name){ Particle p(name); p.setIndex(0,true); return p; }
static void ext(const std::string& basis, const std::string& name, const std::vector<int>& states, const std::string& mass=""){
  if( mass != "" ) const_cast<ParticleProperties*>( ParticleProperties::get(name) )->setProperty("mass", mass);
  OptionsParser::setArg("Particle::SpinBasis "+basis);
  Particle p(name); p.setIndex(0,true);
  outn("mass", p.mass()); outn("id", p.props()->pdgID());
  for(auto s: states){ std::string k = s<0? "m" : s==0? "z" : "p"; out(k, p.externalSpinTensor(s)); }
}
static int regx = [](){ for(std::string mass: {"", "0.5", "2"}) for(std::string b: {"Dirac","Weyl"}){ std::string k = std::string(b=="Dirac"?"dirac":"weyl");
  H::cases().push_back({k+"_V"+mass,[=](){ ext(b,"K*(892)+",{-1,0,1},mass); }});
  H::cases().push_back({k+"_f"+mass,[=](){ ext(b,"p+",{-1,1},mass); }});
  H::cases().push_back({k+"_F"+mass,[=](){ ext(b,"pbar-",{-1,1},mass); }});
  } return 0; }();
CASE("weyl_g",  ext("Weyl", "gamma0",{-1,1}); )
CASE("scalar",  Particle p("pi+"); p.setIndex(0,true); out("s", p.externalSpinTensor(0)); )
CASE("basis", for(int s: {-1,0,1}) out(std::string("v")+(s<0?"m":s==0?"z":"p"), basisVector(s)); for(int id: {1,-1}) for(int s: {-1,1}) out(std::string("s")+(id>0?"f":"F")+(s<0?"m":"p"), basisSpinor(s,id)); )
// vertices: registered under "vtx:<name>", with inputs p, q, V1, V2 built from the spin letters
static Tensor input(char c, const std::string& n){
  if( c=='S' ) return T_(n,{1});
  if( c=='V' ){ std::vector<Expression> e; for(unsigned i=0;i<4;++i) e.push_back(P(n+std::to_string(i))+Constant(0,1)*P(n+"i"+std::to_string(i))); return Tensor(e,{4}); }
  if( c=='f' || c=='F' ) return Sp(n);
  if( c=='T' ){ std::vector<Expression> e; for(unsigned i=0;i<4;++i) for(unsigned j=0;j<4;++j){ unsigned a=std::min(i,j), b=std::max(i,j); e.push_back(P(n+std::to_string(4*a+b))); } return Tensor(e,{4,4}); }
  if( c=='r' || c=='R' ) return T_(n,{4,4});
  return Tensor(); }
// transformed by matrices Lv (vector) Ls (bispinor), named elements
static Tensor lin(const Tensor& a, const Expression& s, const Tensor& b){ return a*s + b; }
static const char* VN[] = {"S_SS_S","S_VV_S","S_VV_S1","S_VV_D","S_VV_P","S_VS_P","V_SS_P","V_VS_P","V_VS_S","V_VS_D","V_VV_P","V_VV_P1","V_VV_P2","V_VV_S","T_VS_D","T_TS_S","T_VS_P","T_SS_D","S_TV_P","S_TS_D","S_TV_D","S_TT_S","V_TS_P","V_TS_D","S_fF_S","S_fF_S1","V_fF_S","V_fF_S1","V_fF_PL","V_fF_PR","S_VV_rp","S_VV_rm","S_TV_rp","S_TV_rm",
 "f_fS_S","f_fS_P","f_Vf_S","f_Vf_P","f_Vf_P1","f_Vf_D","f_Vf_S1","f_Vf_SL","f_Vf_SR","f_fS_SL","f_fS_SR","f_fS_S1","f_fS_P1","f_Tf_P","f_Vf_P2","f_Vf_P3","f_Vf_D1","r_fS_P","r_fS_D","f_rS_D","f_rS_P","f_rS_P1",
 "F_FS_S","F_FS_P","F_VF_S","F_VF_P","F_VF_P1","F_VF_D","F_VF_S1","F_VF_SL","F_VF_SR","F_FS_SL","F_FS_SR","F_FS_S1","F_FS_P1","F_TF_P","F_VF_P2","F_VF_P3","F_VF_D1","R_FS_P","R_FS_D","F_RS_D","F_RS_P","F_RS_P1"};
static int regv = [](){ for(auto vn: VN){ std::string n=vn;
    H::cases().push_back({"vtx:"+n, [n](){
      Tensor p=V4("p"), q=V4("q"), a=input(n[2],"a"), b=input(n[3],"b");
      out("A", Vertex::Factory::getSpinFactor(p,q,a,b,n)); }});
    H::cases().push_back({"lin:"+n, [n](){
      Tensor p=V4("p"), q=V4("q"), a=input(n[2],"a"), b=input(n[3],"b"), c=input(n[2],"c"), d=input(n[3],"d"); Expression s=P("s");
      out("A", Vertex::Factory::getSpinFactor(p,q,a,b,n)); out("C", Vertex::Factory::getSpinFactor(p,q,c,b,n)); out("AC", Vertex::Factory::getSpinFactor(p,q,lin(a,s,c),b,n));
      out("D", Vertex::Factory::getSpinFactor(p,q,a,d,n)); out("AD", Vertex::Factory::getSpinFactor(p,q,a,lin(b,s,d),n)); }});
    // same vertex on inputs transformed by one of six generators of the proper Lorentz group (index given by H_GEN)
    for(int g=0; g<6; ++g) H::cases().push_back({"cov"+std::to_string(g)+":"+n, [n,g](){
      Tensor L = Identity(4), B(Tensor::dim(4,4));
      // vector rep: rotation with cos=7/25, sin=24/25 about axis g; boost with gamma=17/8, gamma*beta=15/8 along axis g-3
      Tensor Sg(Tensor::dim(4,4)); Tensor Id=Identity(4);
      Tensor::Index i,j,k;
      if( g<3 ){ int x=(g+1)%3, y=(g+2)%3; L(x,x)=Constant(7./25); L(y,y)=Constant(7./25); L(x,y)=Constant(-24./25); L(y,x)=Constant(24./25);
        // exp(-i theta/2 Sigma): cos(theta/2)=4/5, sin(theta/2)=3/5
        B = 0.8*Id - (Constant(0,1)*0.6)*Sigma4[g]; }
      else { int x=g-3; L(3,3)=Constant(17./8); L(x,x)=Constant(17./8); L(3,x)=Constant(15./8); L(x,3)=Constant(15./8);
        // exp(eta/2 gamma^0 gamma^x): cosh(eta/2)=5/4, sinh(eta/2)=3/4
        Tensor ga = Gamma[3](i,j)*Gamma[x](j,k); B = 1.25*Id + 0.75*ga; }
      auto tr = [&](char c, const Tensor& t)->Tensor{
        Tensor::Index m,n,a,b;
        if( c=='S' ) return t;
        if( c=='V' ) return L(m,n)*t(n);
        if( c=='f'||c=='F' ) return B(m,n)*t(n);
        if( c=='T' ) return L(m,a)*L(n,b)*t(a,b);
        if( c=='r'||c=='R' ) return L(m,a)*B(n,b)*t(a,b);
        return t; };
      Tensor p=V4("p"), q=V4("q"), a=input(n[2],"a"), b=input(n[3],"b");
      Tensor A = Vertex::Factory::getSpinFactor(p,q,a,b,n);
      Tensor A2 = Vertex::Factory::getSpinFactor(tr('V',p),tr('V',q),tr(n[2],a),tr(n[3],b),n);
      out("LA", tr(n[0],A)); out("AL", A2); }});
  } return 0; }();
CASE("nbody", auto f=[](int i){ return V4(std::string(1,"pqr"[i])); }; std::vector<std::pair<Tensor,Tensor>> v={{f(0),T_("a",{1})},{f(1),T_("b",{1})},{f(2),T_("c",{1})}};
  out("V", Vertex::Factory::getSpinFactorNBody(v,1)); out("S", Vertex::Factory::getSpinFactorNBody(v,0)); )
HMAIN
