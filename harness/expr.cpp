// expression engine: rewriting operators, function builders, derivatives, normal ordering, generated text, tree evaluation
#include "h.h"
#include "AmpGen/ASTResolver.h"
#include "AmpGen/Simplify.h"
#include "AmpGen/CompiledExpression.h"
using namespace AmpGen; using namespace H;
typedef std::vector<std::pair<std::string,Expression>> Shapes;
static Expression C(double r, double i=0){ return Constant(r,i); }
// one node per class of text / per rewriting rule, built with the node constructors (not the operators under contract)
static Shapes atoms(const std::string& p){
  Shapes s;
  s.push_back({"0",C(0)}); s.push_back({"1",C(1)}); s.push_back({"-1",C(-1)}); s.push_back({"0.5",C(0.5)}); s.push_back({"-4",C(-4)});
  s.push_back({"(0.5,-0.5)",C(0.5,-0.5)}); s.push_back({"i",C(0,1)}); s.push_back({"(-2,2)",C(-2,2)}); s.push_back({"(1,1)",C(1,1)}); s.push_back({"1+2^-30",C(1+0x1p-30)}); s.push_back({"-2^-30",C(-0x1p-30)});
  s.push_back({"a",P(p+"a")}); 
  s.push_back({"cp",ComplexParameter(Parameter(p+"u",P(p+"u")().real()),Parameter(p+"v",P(p+"v")().real()))});
  return s; }
static Shapes level2(const std::string& p){
  Shapes s; Expression a=P(p+"a"), b=P(p+"b"), c=P(p+"c"), k=C(0.5), n=C(-4), z=C(0.5,-0.5), zn=C(-2,2);
  auto add=[&](const std::string& nm, const Expression& e){ s.push_back({nm,e}); };
  add("a+b",Sum(a,b)); add("k+a",Sum(k,a)); add("n+a",Sum(n,a)); add("z+a",Sum(z,a)); add("a+k",Sum(a,k));
  add("a-b",Sub(a,b)); add("k-a",Sub(k,a)); add("a-k",Sub(a,k));
  add("a*b",Product(a,b)); add("k*a",Product(k,a)); add("n*a",Product(n,a)); add("z*a",Product(z,a)); add("zn*a",Product(zn,a)); add("a*k",Product(a,k)); add("a*n",Product(a,n));
  add("a/b",Divide(a,b)); add("k/a",Divide(k,a)); add("a/k",Divide(a,k));
  add("sqrt(a)",Sqrt(a)); add("isqrt(a)",ISqrt(a)); add("sub(a+b)",SubTree(Sum(a,b))); add("conj(zb)",Conj(Product(z,b))); 
  add("pow",Pow(a,C(2))); add("a<b?c:k",Ternary(LessThan(a,b),c,k)); add("exp",Exp(a)); add("f",Function("f",{a,b}));
  add("abs",Abs(a)); add("norm",Norm(Product(z,a))); add("re",Real(Product(z,a)));
  return s; }
static Shapes level3(const std::string& p){
  Shapes s; Expression a=P(p+"a"), b=P(p+"b"), c=P(p+"c"), k=C(0.5), n=C(-4), z=C(0.5,-0.5), zn=C(-2,2);
  auto add=[&](const std::string& nm, const Expression& e){ s.push_back({nm,e}); };
  add("(k+a)+b",Sum(Sum(k,a),b)); add("a+(k+b)",Sum(a,Sum(k,b))); add("(a+b)+c",Sum(Sum(a,b),c)); add("(n*a)+b",Sum(Product(n,a),b)); add("a+(n*b)",Sum(a,Product(n,b))); add("(a+b)+(b-c)",Sum(Sum(a,b),Sub(b,c)));
  add("(-k)+a",Sum(C(-0.5),a)); add("(z+a)-b",Sub(Sum(z,a),b)); add("a-(b-c)",Sub(a,Sub(b,c))); add("a-(b+c)",Sub(a,Sum(b,c))); add("(a*b)-(k*c)",Sub(Product(a,b),Product(k,c)));
  add("(k*a)*b",Product(Product(k,a),b)); add("a*(k*b)",Product(a,Product(k,b))); add("(a+b)*(a-c)",Product(Sum(a,b),Sub(a,c))); add("(a+b)*c",Product(Sum(a,b),c)); add("c*(a-b)",Product(c,Sub(a,b))); add("(a/b)*c",Product(Divide(a,b),c)); add("c*(a/b)",Product(c,Divide(a,b))); add("(a*b)*c",Product(Product(a,b),c));
  add("(k*a)/b",Divide(Product(k,a),b)); add("a/(k*b)",Divide(a,Product(k,b))); add("a/(b*k)",Divide(a,Product(b,k))); add("a/(b*c)",Divide(a,Product(b,c))); add("(a/b)/c",Divide(Divide(a,b),c)); add("a/(b/c)",Divide(a,Divide(b,c))); add("(a+b)/(b-c)",Divide(Sum(a,b),Sub(b,c))); add("k/(z*a)",Divide(k,Product(z,a)));
  add("sqrt(a*b)",Sqrt(Product(a,b))); add("conj(z+a)*b",Product(Conj(Sum(z,a)),b)); add("sub(k*a)*b",Product(SubTree(Product(k,a)),b)); add("sub*sub",Product(SubTree(Sum(a,b)),SubTree(Sum(a,c)))); add("k*sub",Product(k,SubTree(Sum(a,b))));
  add("((k+a)+b)+(n*c)",Sum(Sum(Sum(k,a),b),Product(n,c))); add("((a/b)*c)/(a*k)",Divide(Product(Divide(a,b),c),Product(a,k))); add("isqrt(a)*b",Product(ISqrt(a),b)); add("a/isqrt(b)",Divide(a,ISqrt(b)));
  return s; }
static Shapes cat(Shapes a, const Shapes& b){ a.insert(a.end(), b.begin(), b.end()); return a; }
static std::string val(const Expression& e){ auto v=e(); return "["+num(v.real())+","+num(v.imag())+"]"; }
static std::string js1(const std::string& op, const std::string& na, const std::string& nb, const Expression& a, const Expression& b, const Expression& r){
  return "["+js(op)+","+js(na)+","+js(nb)+","+(S().eval? val(a) : std::to_string(exportNode(a)))+","+(S().eval? val(b): std::to_string(exportNode(b)))+","+(S().eval? val(r): std::to_string(exportNode(r)))+"]"; }
static void emit(const std::string& n, const std::vector<std::string>& v){ std::string s="["; for(size_t i=0;i<v.size();++i) s += (i?",\n":"")+v[i]; outj(n, s+"]"); }
static void binops(const Shapes& A, const Shapes& B){
  std::vector<std::string> o;
  for(auto& [na,a]: A) for(auto& [nb,b]: B){
    o.push_back(js1("+",na,nb,a,b,a+b)); o.push_back(js1("-",na,nb,a,b,a-b)); o.push_back(js1("*",na,nb,a,b,a*b));
    if( nb != "0" && nb != "1+2^-30" ) o.push_back(js1("/",na,nb,a,b,a/b)); }
  emit("ops", o); }
CASE("ops_atoms", auto A=cat(atoms("p"),level2("p")); auto B=cat(cat(atoms("q"),level2("q")),level3("q")); binops(A,B); )
CASE("ops_deep",  auto A=level3("p"); auto B=cat(cat(atoms("q"),level2("q")),level3("q")); binops(A,B); )
CASE("ops_same",  auto A=cat(cat(atoms("p"),level2("p")),level3("p")); binops(A,A); )
CASE("ops_rel", auto A=cat(atoms("p"),level2("p")); auto B=cat(atoms("q"),level2("q")); std::vector<std::string> o;
  for(auto& [na,a]: A) for(auto& [nb,b]: B){
    o.push_back(js1("<",na,nb,a,b,a<b)); o.push_back(js1(">",na,nb,a,b,a>b)); o.push_back(js1("<=",na,nb,a,b,a<=b)); o.push_back(js1(">=",na,nb,a,b,a>=b));
    o.push_back(js1("==",na,nb,a,b,a==b)); o.push_back(js1("&&",na,nb,a,b,a&&b)); o.push_back(js1("||",na,nb,a,b,a||b)); 
    Expression r=a; r+=b; o.push_back(js1("+",na+"+=",nb,a,b,r)); r=a; r-=b; o.push_back(js1("-",na+"-=",nb,a,b,r)); r=a; r*=b; o.push_back(js1("*",na+"*=",nb,a,b,r)); if(nb!="0" && nb!="1+2^-30"){ r=a; r/=b; o.push_back(js1("/",na+"/=",nb,a,b,r)); }
    o.push_back(js1("atan2",na,nb,a,b,fcn::atan2(a,b))); }
  for(auto& [na,a]: A) for(double d: {0.,1.,-1.,0.25,-4.}){ std::string nb=num(d); Expression b=C(d);
    o.push_back(js1("+",na,"double "+nb,a,b,a+d)); o.push_back(js1("-",na,"double "+nb,a,b,a-d)); o.push_back(js1("*",na,"double "+nb,a,b,a*d)); if(d!=0) o.push_back(js1("/",na,"double "+nb,a,b,a/d));
    o.push_back(js1("+","double "+nb,na,b,a,d+a)); o.push_back(js1("-","double "+nb,na,b,a,d-a)); o.push_back(js1("*","double "+nb,na,b,a,d*a)); if(na!="0" && na!="1+2^-30") o.push_back(js1("/","double "+nb,na,b,a,d/a));
    o.push_back(js1("==",na,"double "+nb,a,b,a==d)); o.push_back(js1("==","double "+nb,na,b,a,d==a)); }
  emit("ops",o); )
CASE("fcns", auto A=cat(cat(atoms("p"),level2("p")),level3("p")); std::vector<std::string> o;
  for(auto& [na,a]: A){
    auto u=[&](const std::string& f, const Expression& r){ o.push_back(js1(f,na,"",a,a,r)); };
    u("neg",-a); u("sqrt",fcn::sqrt(a)); u("safe_sqrt",fcn::safe_sqrt(a)); u("complex_sqrt",fcn::complex_sqrt(a)); if(na!="0") u("isqrt",fcn::isqrt(a)); u("conj",fcn::conj(a)); u("norm",fcn::norm(a)); u("abs",fcn::abs(a));
    u("sin",fcn::sin(a)); u("cos",fcn::cos(a)); u("tan",fcn::tan(a)); u("asin",fcn::asin(a)); u("acos",fcn::acos(a)); u("atan",fcn::atan(a)); u("exp",fcn::exp(a)); if(na!="0") u("log",fcn::log(a));
    u("id",make_cse(a)); u("id",make_cse(a,true)); u("id",Expression(a));
    for(int n=-4;n<=6;++n) if( n>=0 || (na!="0" && na!="1+2^-30" && na!="-2^-30") ){ o.push_back(js1("fpow",na,std::to_string(n),a,C(n),fcn::fpow(a,n))); }
    for(double n: {0.,1.,2.,3.,-1.,-2.,0.5,1.5}) if( n>0 || na!="0" ) o.push_back(js1("pow",na,num(n),a,C(n),fcn::pow(a,C(n)))); 
    o.push_back(js1("pow",na,"qa",a,P("qa"),fcn::pow(a,P("qa")))); }
  emit("ops",o); )
// every node class with every class of child: text is compositional in the children's text and class
static Shapes kids(const std::string& p){
  Shapes s; Expression a=P(p+"a"), b=P(p+"b"), c=P(p+"c");
  auto add=[&](const std::string& nm, const Expression& e){ s.push_back({nm,e}); };
  add("0",C(0)); add("const",C(0.1)); add("int const",C(3)); add("neg const",C(-1./3.)); add("small const",C(1.2345678901234567e-7)); add("large const",C(123456789.123456)); add("complex const",C(0.1,-2.2222222222)); add("param",a); add("cparam",ComplexParameter(Parameter(p+"u"),Parameter(p+"v")));
  add("Sum",Sum(a,b)); add("Sub",Sub(a,b)); add("Product",Product(a,b)); add("Divide",Divide(a,b)); add("Pow",Pow(a,b)); add("Fmod",Fmod(a,b)); add("<",LessThan(a,b)); add(">",GreaterThan(a,b)); add("<=",LessThanEqualTo(a,b)); add(">=",GreaterThanEqualTo(a,b)); add("&&",And(LessThan(a,b),LessThan(b,c))); add("||",Or(LessThan(a,b),LessThan(b,c))); add("==",Equal(a,b)); add("ATan2",ATan2(a,b));
  add("Log",Log(a)); add("Exp",Exp(a)); add("Sqrt",Sqrt(a)); add("Abs",Abs(a)); add("Norm",Norm(a)); add("Conj",Conj(a)); add("Real",Real(a)); add("Imag",Imag(a)); add("Sin",Sin(a)); add("Cos",Cos(a)); add("Tan",Tan(a)); add("ASin",ASin(a)); add("ACos",ACos(a)); add("ATan",ATan(a)); add("ISqrt",ISqrt(a)); add("LGamma",LGamma(a));
  add("Ternary",Ternary(LessThan(a,b),b,c)); add("Function",Function("f",{a,b})); add("SubTree",SubTree(Sum(a,b)));
  return s; }
static std::map<std::string,unsigned> emap(){ std::map<std::string,unsigned> m; unsigned k=0; for(auto p: {"p","q","r"}) for(auto n: {"a","b","c","u","v"}) m[std::string(p)+n]=k++; return m; }
static void text(std::vector<std::string>& o, const std::string& nm, const Expression& e, bool eq=true){
  ASTResolver r0(emap(), nullptr); e.resolve(r0); ASTResolver r1(emap(), nullptr); r1.setEnableAVX(); e.resolve(r1);
  o.push_back("["+js(nm)+","+std::to_string(exportNode(e))+","+js(e.to_string())+","+js(e.to_string(&r0))+","+js(e.to_string(&r1))+"]"); }
static std::vector<std::pair<std::string,std::function<Expression(Expression,Expression)>>> bins(){
  std::vector<std::pair<std::string,std::function<Expression(Expression,Expression)>>> r;
#define B_(X) r.push_back({#X,[](Expression a, Expression b)->Expression{ return X(a,b); }});
  B_(Sum) B_(Sub) B_(Product) B_(Divide) B_(Pow) B_(Fmod) B_(LessThan) B_(GreaterThan) B_(LessThanEqualTo) B_(GreaterThanEqualTo) B_(And) B_(Or) B_(Equal) B_(ATan2) return r; }
static std::vector<std::pair<std::string,std::function<Expression(Expression)>>> uns(){
  std::vector<std::pair<std::string,std::function<Expression(Expression)>>> r;
#define U_(X) r.push_back({#X,[](Expression a)->Expression{ return X(a); }});
  U_(Log) U_(Exp) U_(Sqrt) U_(Abs) U_(Norm) U_(Conj) U_(Real) U_(Imag) U_(Sin) U_(Cos) U_(Tan) U_(ASin) U_(ACos) U_(ATan) U_(ISqrt) U_(LGamma) U_(SubTree) return r; }
CASE("text_bin", std::vector<std::string> o; auto K1=kids("p"); auto K2=kids("q"); for(auto& [n,f]: bins()) for(auto& [na,a]: K1) for(auto& [nb,b]: K2) text(o, n+"("+na+", "+nb+")", f(a,b)); emit("text",o); )
CASE("text_un", std::vector<std::string> o; auto K=kids("p"); auto K2=kids("q"); for(auto& [na,a]: K) text(o,na,a); for(auto& [n,f]: uns()) for(auto& [na,a]: K) text(o,n+"("+na+")",f(a));
  Expression x=P("qa"), y=P("qb"), c=LessThan(P("ra"),P("rb"));
  for(auto& [na,a]: K){ text(o,"Ternary("+na+",x,y)",Ternary(a,x,y)); text(o,"Ternary(c,"+na+",y)",Ternary(c,a,y)); text(o,"Ternary(c,x,"+na+")",Ternary(c,x,a)); text(o,"Function("+na+",x)",Function("f",{a,x})); text(o,"Function(x,"+na+")",Function("f",{x,a})); text(o,"Function("+na+")",Function("g",{a})); 
    for(auto& [nb,b]: K2) text(o,"Ternary(c,"+na+","+nb+")",Ternary(c,a,b)); }
  text(o,"Function()",Function("h",{}));
  emit("text",o); )
CASE("text_deep", std::vector<std::string> o; unsigned long long st=88172645463325252ULL; auto rnd=[&](unsigned n){ st^=st<<13; st^=st>>7; st^=st<<17; return unsigned(st%n); };
  auto Kp=kids("p"); auto Kq=kids("q"); auto Kr=kids("r"); auto Bs=bins(); auto Us=uns();
  std::function<Expression(int)> gen=[&](int d)->Expression{ if(d==0 || rnd(8)==0){ auto& K = rnd(3)==0? Kp : (rnd(2)? Kq : Kr); return K[rnd(K.size())].second; }
    unsigned k=rnd(10); if(k<6) { auto x=gen(d-1); auto y=gen(d-1); return Bs[rnd(k<4? 4 : Bs.size())].second(x,y); } if(k<9){ auto x=gen(d-1); return Us[rnd(Us.size())].second(x);} auto c=gen(d-1); auto x=gen(d-1); auto y=gen(d-1); return Ternary(LessThan(c,x),x,y); };
  for(int i=0;i<1500;++i) text(o,"tree#"+std::to_string(i),gen(2+rnd(4))); emit("text",o); )
CASE("eval", std::vector<std::string> o; std::vector<std::complex<double>> Z={{0.5,0},{-1.25,0},{2,0},{0.3,0.7},{-0.6,1.1},{1.5,-0.4},{0,1}};
  for(auto& [n,f]: bins()) for(auto& a: Z) for(auto& b: Z) o.push_back("["+js(n)+","+val(Constant(a))+","+val(Constant(b))+","+val(f(Constant(a),Constant(b)))+"]");
  for(auto& [n,f]: uns()) for(auto& a: Z) o.push_back("["+js(n)+","+val(Constant(a))+",[0,0],"+val(f(Constant(a)))+"]");
  for(auto& a: Z) for(auto& b: Z) for(int c=0;c<2;++c) o.push_back("["+js(c?"Ternary1":"Ternary0")+","+val(Constant(a))+","+val(Constant(b))+","+val(Ternary(Expression(double(c)),Constant(a),Constant(b)))+"]");
  for(double u: {0.5,-2.,0.}) for(double v: {1.5,-0.25,0.}) o.push_back("[\"ComplexParameter\",["+num(u)+",0],["+num(v)+",0],"+val(ComplexParameter(Parameter("u",u),Parameter("v",v)))+"]");
  emit("eval",o); )
// literals: every double must be printed so that it reads back unchanged
CASE("literals", std::vector<std::string> o; std::vector<double> v={0,1,-1,0.1,1./3,2./3,1e-3,1e-10,1e10,123456789,1234567.875,0.1234567,1e-300,1e300,5e-324,3.141592653589793,-2.718281828459045,1e15,1e16,1e17,123456,1234567,999999.5,0.00001,0.000012345678,100000,1000000,2e6,4.9406564584124654e-324,2.2250738585072014e-308,1.7976931348623157e308};
  unsigned long long st=88172645463325252ULL; auto rnd=[&](){ st^=st<<13; st^=st>>7; st^=st<<17; return st; };
  for(int i=0;i<4000;++i){ union{ unsigned long long u; double d; } x; x.u=rnd(); if( x.d-x.d==0 ) v.push_back(x.d); v.push_back( double(rnd()%2000000)/1000000.-1.); v.push_back( double(rnd())*0x1p-64 ); }
  for(double d: v){ o.push_back("["+num(d)+",0,"+js(Expression(Constant(d)).to_string())+"]"); o.push_back("["+num(1.5)+","+num(d)+","+js(Expression(Constant(1.5,d)).to_string())+"]"); o.push_back("["+num(d)+","+num(-d)+","+js(Expression(Constant(d,-d)).to_string())+"]"); }
  emit("lit",o); )
// derivatives: d() of f(x) with respect to its argument

static void dcase(const std::string& k, const Expression& x){
#define D_(X) out(k+#X, X(x).d());
  D_(Log) D_(Exp) D_(Sqrt) D_(Sin) D_(Cos) D_(Tan) D_(ASin) D_(ACos) D_(ATan) D_(ISqrt) }
CASE("d", dcase("x:",P("x")); dcase("xy:",P("x")*P("y")); dcase("x-y:",P("x")-0.125*P("y")); dcase("cse:",make_cse(P("x")*P("y"))); )
// normal ordering
static std::string simp(const std::string& n, const Expression& e){
  Expression s0 = Simplify(e), s1 = Expression(NormalOrderedExpression(e,false)), s2 = Expression(NormalOrderedExpression(e,true)); auto c = make_cse(e,true);
  auto k = is<SubTree>(c)? std::to_string(cast<SubTree>(c).key()) : std::string("");
  return "["+js(n)+","+std::to_string(exportNode(e))+","+std::to_string(exportNode(s0))+","+std::to_string(exportNode(s1))+","+std::to_string(exportNode(s2))+","+std::to_string(exportNode(c))+","+js(k)+"]"; }
CASE("simplify_shapes", std::vector<std::string> o; auto A=cat(cat(atoms("p"),level2("p")),level3("p")); auto K=kids("p"); auto drop=[](Shapes& X, auto f){ Shapes r; for(auto& [n,e]: X) if(!f(n,e)) r.push_back({n,e}); X=r; };
  drop(A,[](auto& n, auto& e){ return n.find("2^-30")!=std::string::npos; }); drop(K,[](auto& n, auto& e){ return is<Constant>(e); });
  for(auto& [n,a]: A) o.push_back(simp(n,a)); for(auto& [n,a]: K) o.push_back(simp(n,a));
  for(auto& [n,a]: A) for(auto& [m,b]: A){ o.push_back(simp("("+n+")+("+m+")",Sum(a,b))); o.push_back(simp("("+n+")-("+m+")",Sub(a,b))); o.push_back(simp("("+n+")*("+m+")",Product(a,b))); if(m!="0") o.push_back(simp("("+n+")/("+m+")",Divide(a,b))); }
  for(auto& [n,a]: K) for(auto& [m,b]: K){ o.push_back(simp("("+n+")*("+m+")",Product(a,b))); if(m!="0") o.push_back(simp("("+n+")/("+m+")",Divide(a,b))); }
  for(auto& [n,a]: A) { o.push_back(simp("conj("+n+")",Conj(a))); o.push_back(simp("sub("+n+")",SubTree(a))); o.push_back(simp("conj("+n+"*z)",Conj(Product(C(0.5,-0.5),a)))); o.push_back(simp("conj(sub("+n+"))*"+n,Product(Conj(SubTree(a)),a))); }
  emit("simp",o); )
CASE("simplify_deep", std::vector<std::string> o; unsigned long long st=88172645463325252ULL; auto rnd=[&](unsigned n){ st^=st<<13; st^=st>>7; st^=st<<17; return unsigned(st%n); };
  std::vector<Expression> L={P("pa"),P("pb"),P("pc"),C(0.5),C(-4),C(0.5,-0.5),C(1),C(-1),C(2),Sqrt(P("pa")),Conj(Product(C(0,1),P("pb"))),Pow(P("pa"),P("pb")),LessThan(P("pa"),P("pb"))};
  std::function<Expression(int)> gen=[&](int d)->Expression{ if(d==0) return L[rnd(rnd(3)? 3 : L.size())];
    unsigned k=rnd(12); if(k==10) return SubTree(gen(d-1)); if(k==11) return Conj(gen(d-1)); auto x=gen(d-1); auto y=gen(k==9?0:d-1); if(k<3) return Sum(x,y); if(k<6) return Sub(x,y); if(k<9) return Product(x,y); return is<Constant>(y)? Expression(Product(x,y)) : Expression(Divide(x,y)); };
  for(int i=0;i<2500;++i) o.push_back(simp("tree#"+std::to_string(i),gen(1+rnd(3)))); emit("simp",o); )
// raw trees of any kind of node, as operands of every builder
struct Gen { unsigned long long st; std::vector<Expression> L; Gen(unsigned long long seed, const std::string& p) : st(88172645463325252ULL ^ (seed*2654435761ULL)) {
    L={P(p+"a"),P(p+"b"),P(p+"c"),ComplexParameter(Parameter(p+"u",P(p+"u")().real()),Parameter(p+"v",P(p+"v")().real())),C(0.5),C(-4),C(0.5,-0.5),C(1),C(-1),C(2),C(0,1),C(-2,2),C(0)}; }
  unsigned rnd(unsigned n){ st^=st<<13; st^=st>>7; st^=st<<17; return unsigned(st%n); }
  Expression leaf(bool nz=false){ return L[rnd(rnd(3)? 4 : L.size()-(nz?1:0))]; }
  Expression operator()(int d){ if(d<=0) return leaf(); unsigned k=rnd(24); auto x=(*this)(d-1-int(rnd(2)));
    switch(k){ case 12: return SubTree(x); case 13: return Conj(x); case 14: return Exp(x); case 15: return Sqrt(x); case 16: return Abs(x); case 17: return Norm(x); case 18: return Real(x); case 19: return Imag(x); case 20: return Function("f",{x,leaf()}); case 21: return Pow(x,C(2)); case 22: return Ternary(LessThan(P("pa"),P("pb")),x,leaf()); case 23: return ISqrt(x); default: break; }
    auto y=(*this)(d-1-int(rnd(2))); if(k<3) return Sum(x,y); if(k<5) return Sub(x,y); if(k<9) return Product(x,y); if(is<Constant>(y)) y=P("pc"); return Divide(x,y); } };
CASE("ops_gen", std::vector<std::string> o; for(int i=0;i<1500;++i){ Gen g(i+1,"p"), h(i+7777,i%2?"p":"q"); auto a=g(1+i%4), b=h(1+(i/4)%3); auto n="tree#"+std::to_string(i), m="tree'#"+std::to_string(i);
  o.push_back(js1("+",n,m,a,b,a+b)); o.push_back(js1("-",n,m,a,b,a-b)); o.push_back(js1("*",n,m,a,b,a*b)); if(!is<Constant>(b)) o.push_back(js1("/",n,m,a,b,a/b)); o.push_back(js1("<",n,m,a,b,a<b)); o.push_back(js1("&&",n,m,a,b,a&&b)); }
  emit("ops",o); )
CASE("fcns_gen", std::vector<std::string> o; for(int i=0;i<1500;++i){ Gen g(i+50001,"p"); auto a=g(1+i%4); if(is<Constant>(a)) continue; auto na="tree#"+std::to_string(i); auto u=[&](const std::string& f, const Expression& r){ o.push_back(js1(f,na,"",a,a,r)); };
    u("neg",-a); u("sqrt",fcn::sqrt(a)); u("safe_sqrt",fcn::safe_sqrt(a)); u("complex_sqrt",fcn::complex_sqrt(a)); u("isqrt",fcn::isqrt(a)); u("conj",fcn::conj(a)); u("norm",fcn::norm(a)); u("abs",fcn::abs(a));
    u("sin",fcn::sin(a)); u("cos",fcn::cos(a)); u("tan",fcn::tan(a)); u("asin",fcn::asin(a)); u("acos",fcn::acos(a)); u("atan",fcn::atan(a)); u("exp",fcn::exp(a)); u("log",fcn::log(a)); u("id",make_cse(a)); u("id",make_cse(a,true));
    for(int n=-2;n<=4;++n) o.push_back(js1("fpow",na,std::to_string(n),a,C(n),fcn::fpow(a,n))); o.push_back(js1("pow",na,num(0.5),a,C(.5),fcn::pow(a,C(.5)))); }
  emit("ops",o); )
CASE("simplify_small", std::vector<std::string> o; auto A=cat(level2("p"),level3("p")); double t=1./1099511627776.; int i=0;
  for(auto& [n,a]: A) for(auto& [m,b]: A){ if( (i++)%3 ) continue; o.push_back(simp("("+n+")+2^-40*("+m+")",Sum(a,Product(C(t),b)))); o.push_back(simp("("+n+")-("+m+")*(1-i)2^-40",Sub(a,Product(b,C(t,-t))))); o.push_back(simp("("+n+"+2^-40)*("+m+")",Product(Sum(C(t),a),b))); }
  emit("simp",o); )
HMAIN
