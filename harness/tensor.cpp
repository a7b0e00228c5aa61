#include "h.h"
#include <algorithm>
#include <random>
using namespace AmpGen; using namespace H;
typedef std::vector<unsigned> VU;
static Tensor T_(const std::string& n, const VU& d){ unsigned s=1; for(auto x:d) s*=x; std::vector<Expression> e; for(unsigned i=0;i<s;++i) e.push_back(P(n+std::to_string(i))); return Tensor(e,d); }
static Tensor Sym_(const std::string& n, const VU& d){ // symmetric values: element named by sorted coordinates
  unsigned s=1; for(auto x:d) s*=x; std::vector<Expression> e;
  for(unsigned i=0;i<s;++i){ unsigned r=i; VU c(d.size()); for(int k=int(d.size())-1;k>=0;--k){ c[k]=r%d[k]; r/=d[k]; } std::sort(c.begin(),c.end()); unsigned q=0; for(size_t k=0;k<d.size();++k) q=q*d[k]+c[k]; e.push_back(P(n+std::to_string(q))); }
  return Tensor(e,d); }
static std::string code(const std::vector<int>& l, const std::vector<int>& u){ std::string s; for(size_t i=0;i<l.size();++i){ s += char('a'+l[i]); s += u[i]?'+':'-'; } return s; }
struct Labels { std::vector<Tensor::Index> ix; Labels(){ for(int i=0;i<8;++i) ix.emplace_back(); }
  std::vector<Tensor::Index> get(const std::vector<int>& l, const std::vector<int>& u){ std::vector<Tensor::Index> r; for(size_t i=0;i<l.size();++i) r.push_back(u[i]? -ix[l[i]] : ix[l[i]]); return r; } };
static void outp(const std::string& nm, const TensorProxy& p, Labels& L){
  Tensor t = p; out(nm, t); std::string s; for(auto& x: p.indices()){ int k=-1; for(int i=0;i<8;++i) if( L.ix[i]==x ) k=i; s += char('a'+k); s += x.isUpper()?'+':'-'; } outs("ix:"+nm, s); }
static VU dimsOf(const std::vector<int>& l, int scheme){ static const unsigned d0[8]={4,2,3,4,2,3,2,2}; VU r; for(auto x:l) r.push_back( scheme==0? d0[x] : 4 ); return r; }
// every way of sharing labels between operands of rank r1, r2
static void products(int r1, int r2, int scheme, int least=0){
  Labels L; std::vector<int> l1; for(int i=0;i<r1;++i) l1.push_back(i);
  std::vector<std::vector<int>> l2s; std::vector<int> cur;
  std::function<void()> rec = [&](){ if( int(cur.size())==r2 ){ l2s.push_back(cur); return; }
    for(int x=0;x<r1;++x) if( std::find(cur.begin(),cur.end(),x)==cur.end() ){ cur.push_back(x); rec(); cur.pop_back(); }
    int fresh=r1; for(auto c:cur) if( c>=r1 ) ++fresh; cur.push_back(fresh); rec(); cur.pop_back(); };
  rec();
  for(auto& l2: l2s) for(int v=0; v<3; ++v){ int shared=0; for(auto x: l2) shared += x < r1; if( shared < least ) continue;
    std::vector<int> u1(r1,0), u2(r2,0);
    if( v==1 ) u2.assign(r2,1);
    if( v==2 ){ for(int i=0;i<r1;++i) u1[i]=i%2; for(int i=0;i<r2;++i) u2[i]=(i/2)%2; }
    Tensor A=T_("A",dimsOf(l1,scheme)), B=T_("B",dimsOf(l2,scheme));
    outp("mul:"+code(l1,u1)+","+code(l2,u2)+","+std::to_string(scheme), A(L.get(l1,u1))*B(L.get(l2,u2)), L);
  } }
static void sums(int r){
  Labels L; std::vector<int> l1; for(int i=0;i<r;++i) l1.push_back(i); auto l2=l1; std::vector<int> u(r,0);
  do { auto d1=dimsOf(l1,0), d2=dimsOf(l2,0); Tensor A=T_("A",d1), B=T_("B",d2);
    std::string c=code(l1,u)+","+code(l2,u)+",0";
    outp("add:"+c, A(L.get(l1,u))+B(L.get(l2,u)), L); outp("sub:"+c, A(L.get(l1,u))-B(L.get(l2,u)), L);
    outp("ord:"+c, A(L.get(l1,u)).reorder(L.get(l2,u)), L);
    if( r==2 || r==3 ){ Tensor S=Sym_("A", VU(r,3)); std::vector<unsigned> q; for(int i=0;i<r;++i) q.push_back(i); S.imposeSymmetry(q); Tensor G=T_("B", VU(r,3));
      outp("adds:"+c, S(L.get(l1,u))+G(L.get(l2,u)), L); outp("addt:"+c, G(L.get(l1,u))+S(L.get(l2,u)), L); outp("subs:"+c, S(L.get(l1,u))-G(L.get(l2,u)), L); }
  } while( std::next_permutation(l2.begin(), l2.end()) ); }
static int regall = [](){
  for(int r1=0;r1<=3;++r1) for(int r2=0;r2<=3;++r2) for(int s=0;s<2;++s){ if( s==1 && r1+r2>4 ) continue;
    H::cases().push_back({"mul"+std::to_string(r1)+std::to_string(r2)+std::to_string(s), [=](){ products(r1,r2,s); }}); }
  int hi[6][3] = {{4,2,0},{2,4,0},{4,3,2},{3,4,2},{4,4,3},{5,2,1}};
  for(auto& h: hi){ int r1=h[0], r2=h[1], k=h[2]; H::cases().push_back({"mul"+std::to_string(r1)+std::to_string(r2)+"0", [=](){ products(r1,r2,0,k); }}); }
  for(int r=0;r<=4;++r) H::cases().push_back({"sum"+std::to_string(r), [=](){ sums(r); }});
  return 0; }();
CASE("chain", Labels L; Tensor a=T_("A",{4}), b=T_("B",{4}), c=T_("C",{4}), M=T_("M",{4,4});
  auto m=L.ix[0], n=L.ix[1], k=L.ix[2];
  outp("abc", a(m)*b(-m)*c(n), L); outp("cab", c(n)*(a(m)*b(-m)), L); outp("aMb", a(-m)*M(m,n)*b(-n), L);
  outp("ss", (a(m)*b(-m))*(c(n)*a(-n)), L);
  outp("MMt", M(m,n)*M(k,-n), L); outp("sAa", (a(m)*b(-m))*M(n,k), L);
  Expression e = a(m)*b(m); out("e", e); Expression e2 = (a(m)*b(-m)) + (c(n)*a(-n)); out("e2",e2);
  out("dot", dot(a,b)); out("dotM", dot(M, T_("N",{4,4}))); )
CASE("elem", Tensor t=T_("A",{2,3,4}); std::string v; 
  for(unsigned i=0;i<2;++i) for(unsigned j=0;j<3;++j) for(unsigned k=0;k<4;++k){ out("g"+std::to_string(i)+std::to_string(j)+std::to_string(k), t.get(VU{i,j,k})); out("b"+std::to_string(i)+std::to_string(j)+std::to_string(k), static_cast<const Tensor&>(t)[VU{i,j,k}]); }
  Tensor m=T_("A",{2,3}); for(unsigned i=0;i<2;++i) for(unsigned j=0;j<3;++j) out("m"+std::to_string(i)+std::to_string(j), m(i,j));
  Tensor w(Tensor::dim(2,3)); for(unsigned i=0;i<2;++i) for(unsigned j=0;j<3;++j) w(i,j) = P("W"+std::to_string(i)+std::to_string(j)); out("w", w);
  Tensor o=T_("A",{3}); for(unsigned i=0;i<3;++i){ out("o"+std::to_string(i), o(i)); out("p"+std::to_string(i), o.get(i)); }
  outn("size", t.size()); outn("nel", t.nElements()); outn("rank", t.rank()); outn("ndim", t.nDim()); Tensor z(Tensor::dim(2,2)); out("z", z); )
CASE("linear", Tensor A=T_("A",{2,3}), B=T_("B",{2,3}); out("add",A+B); out("sub",A-B); out("neg",-A); out("se",P("s")*A); out("es",A*P("s")); out("sd",2.5*A); out("ds",A*2.5); out("de",A/P("s")); out("dd",A/4.);
  Tensor C=A; C+=B; out("pe",C); Tensor D=A; D-=B; out("me",D); out("conj",(A+AmpGen::Constant(0,1)*B).conjugate());
  Tensor::Index i; Tensor::Index j; out("xse",Tensor(P("s")*A(i,j))); out("xes",Tensor(A(i,j)*P("s"))); out("xsd",Tensor(2.5*A(i,j))); out("xds",Tensor(A(i,j)*2.5)); out("xde",Tensor(A(i,j)/P("s"))); out("xdd",Tensor(A(i,j)/4.)); 
  Expression ci = AmpGen::Constant(0,2); out("ce",A/ci); out("cm",ci*A); out("cn",A*ci); out("xce",Tensor(A(i,j)/ci)); out("xcm",Tensor(ci*A(i,j)));
  Tensor S = A+AmpGen::Constant(0,1)*B; S.st(); out("sc",S.conjugate()); out("sa",S+A); out("sm",S-A); out("sd2",S/ci); out("xsc",Tensor(S(i,j)).conjugate()); Tensor S2 = A+AmpGen::Constant(0,1)*B; S2.st(true); out("sc2",S2.conjugate());
  outn("rm1", A.rankMatches(B)); outn("rm2", A.rankMatches(T_("C",{3,2}))); outn("rm3", A.rankMatches(T_("C",{6}))); )
CASE("sym2", Tensor A=Sym_("A",{4,4}); A.imposeSymmetry(0,1); out("s",A); outn("nu",A.uniqueElements().size()); Tensor G=T_("B",{4,4}); G.imposeSymmetry(1,0); out("g",G);
   Tensor W=T_("B",{4,4}); W.imposeSymmetry(0,1); W(0,2)=P("x"); out("w", W); Tensor V=T_("B",{4,4}); V.imposeSymmetry(0,1); V(2,0)=P("x"); out("v", V); V.st(); out("vst", V); )
CASE("sym3", Tensor A=Sym_("A",{3,3,3}); A.imposeSymmetry({0,1,2}); out("s",A); outn("nu",A.uniqueElements().size()); Tensor G=T_("B",{3,3,3}); G.imposeSymmetry({2,0,1}); out("g",G); Tensor Q=T_("B",{3,3,3}); Q.imposeSymmetry({0,2}); out("q",Q); outn("qn",Q.uniqueElements().size()); )
CASE("sym4", Tensor A=Sym_("A",{2,2,2,2}); A.imposeSymmetry({0,1,2,3}); out("s",A); outn("nu",A.uniqueElements().size()); Tensor G=T_("B",{2,2,2,2}); G.imposeSymmetry({0,1,2,3}); out("g",G); )
CASE("const", for(unsigned n=1;n<=5;++n){ out("id"+std::to_string(n), Identity(n)); if(n>=2 && n<=4) out("lc"+std::to_string(n), LeviCivita(n)); }
  Tensor t(VU{4,4}); for(unsigned i=0;i<16;++i) outn("ms"+std::to_string(i), t.metricSgn(i)); )
// operations on a tensor whose stored elements differ from the ones its imposed symmetry shows
CASE("symlin", auto i_=AmpGen::Constant(0,1); auto mk=[&](const std::string& n, VU d, std::vector<unsigned> q){ auto t=T_(n,d); auto u=T_(n+"i",d); Tensor r=t+i_*u; r.imposeSymmetry(q); return r; };
  int k=0; for(auto& q : std::vector<std::vector<unsigned>>{{0,1},{0,1,2},{0,2},{1,2}}){ VU d(q.size()==2&&q[1]==1?2:3,2); auto K=std::to_string(k++); Tensor A=mk("A",d,q); Tensor G=T_("B",d); out("a"+K,A); out("conj"+K,A.conjugate()); out("neg"+K,-A); out("s"+K,P("s")*A); out("d"+K,A/P("s")); out("t"+K,A*P("s")); out("dd"+K,2.0*A); out("add"+K,A+G); out("add'"+K,G+A); out("sub"+K,A-G); out("sub'"+K,G-A); out("dot"+K,dot(A,G)); out("dot'"+K,dot(G,A)); Tensor C=A; C+=G; out("pe"+K,C); C=G; C-=A; out("me"+K,C); Tensor S=A; S.st(); out("st"+K,S); Tensor S2=A; S2.st(true); out("sts"+K,S2);
    std::vector<Expression> el; for(unsigned j=0;j<A.size();++j) el.push_back(A.get(j)); out("get"+K,Tensor(el,d)); el.clear(); for(unsigned j=0;j<A.size();++j) el.push_back(A.get(A.coords(j))); out("getc"+K,Tensor(el,d)); out("te"+K,TensorExpression(A).tensor()); } )
HMAIN
