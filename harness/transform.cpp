#include "h.h"
#include "AmpGen/Transform.h"
using namespace AmpGen; using namespace H;
static Tensor K(const std::string& n){ return Tensor({P(n+"x"),P(n+"y"),P(n+"z")}, {3}); }
typedef Transform T_;
static void reps(const std::string& p, const Transform& t){
  out(p+"V", t(T_::Vector)); out(p+"S", t(T_::Spinor)); out(p+"B", t(T_::Bispinor)); }
static void reps(const std::string& p, const TransformSequence& t){
  out(p+"V", t(T_::Vector)); out(p+"S", t(T_::Spinor)); out(p+"B", t(T_::Bispinor)); }
CASE("rotate", Transform t(P("c"), K("k"), T_::Rotate); reps("",t); reps("i",t.inverse()); out("app", t(V4("p"))); out("appB", t(V4("p"), T_::Bispinor)); )
CASE("boost",  Transform t(P("g"), K("k"), T_::Boost);  reps("",t); reps("i",t.inverse()); out("app", t(V4("p"))); out("appB", t(V4("p"), T_::Bispinor)); )
CASE("seq", 
  Transform a(P("c"), K("k"), T_::Rotate); Transform b(P("g"), K("l"), T_::Boost); 
  reps("a",a); reps("b",b);
  TransformSequence s1(a); s1.push_back(b); reps("s1",s1);
  TransformSequence s2(a,b); reps("s2",s2);
  TransformSequence ta(a), tb(b); TransformSequence s3(ta,tb); reps("s3",s3);
  TransformSequence s4; s4.push_back(s1); reps("s4",s4);
  TransformSequence s5(a); s5.push_back(b); s5.push_back(b.inverse()); s5.push_back(a.inverse()); outn("n5", s5.size());
  reps("inv", s1.inverse());
  reps("inv2", s2.inverse());
  out("app", s1(V4("p"))); out("appB", s1(V4("p"),T_::Bispinor));
  TransformSequence s6(s1); s6.clear(); reps("s6",s6);
  outn("size1", s1.size()); outn("size3", s3.size());
)
CASE("empty", TransformSequence e; reps("",e); TransformSequence i = e.inverse(); reps("i",i); Transform a(P("c"), K("k"), T_::Rotate); TransformSequence ta(a); TransformSequence s(e, ta), u(ta,e); reps("l",s); reps("r",u); reps("a",a); )
CASE("hyper", out("cosh", AmpGen::cosh(P("x"))); out("sinh", AmpGen::sinh(P("x"))); out("tanh", AmpGen::tanh(P("x")));
  out("asinh", AmpGen::asinh(P("x"))); out("acosh", AmpGen::acosh(P("y"))); out("atanh", AmpGen::atanh(P("z"))); )
// representation invariant of TransformSequence: matrix(r) = T_n(r) ... T_1(r); every operation preserves it from every pre-state with <= 3 steps
static Transform step(const std::string& n, int i){ Tensor ax = i%3==0 ? Tensor({0,0,1},{3}) : i%3==1 ? Tensor({0,1,0},{3}) : Tensor({1,0,0},{3});
  return Transform(P(n+std::to_string(i)), ax, i%2==0 ? T_::Rotate : T_::Boost); }
static int inv_ = [](){ for(int n1=0;n1<=3;++n1) for(int n2=0;n2<=3;++n2) for(int how=0;how<3;++how)
  H::cases().push_back({"inv_"+std::to_string(n1)+"_"+std::to_string(n2)+"_"+std::to_string(how), [=](){
    auto mk = [&](const std::string& n, int k, int h){ TransformSequence s; 
      if( h == 1 && k > 0 ){ TransformSequence t(step(n,0)); for(int i=1;i<k;++i) t.push_back(step(n,i)); return t; }
      if( h == 2 && k > 1 ){ TransformSequence t(step(n,0),step(n,1)); for(int i=2;i<k;++i) t.push_back(step(n,i)); return t; }
      for(int i=0;i<k;++i) s.push_back(step(n,i)); return s; };
    auto a = mk("a",n1,how), b = mk("b",n2,(how+1)%3);
    for(int i=0;i<n1;++i) reps("a"+std::to_string(i), step("a",i));
    for(int i=0;i<n2;++i) reps("b"+std::to_string(i), step("b",i));
    reps("A",a); auto c = a; c.push_back(b); reps("push",c); reps("cat", TransformSequence(a,b)); reps("minv", c.inverse()); 
    TransformSequence d = a; d.clear(); d.push_back(b); reps("clr", d); TransformSequence e(c); e.push_back(step("a",0)); reps("again", e); reps("a_", step("a",0)); 
    TransformSequence f = c.inverse(); f.push_back(c.inverse().inverse()); reps("back", f); outn("size", c.size()); }}); return 0; }();
HMAIN
