// Symbolic scalar.  This header is force-included (-include sym.h): it pulls in the standard library, then renames the
// token `double` to Sym, so that the unmodified sources of AmpGen compiled after it compute terms instead of numbers.
// A Sym is a node of an expression graph plus a shadow number; comparisons are decided by the shadow (the path taken is
// recorded).  Nothing else is changed.
#pragma once
#include <bits/stdc++.h>
#include <immintrin.h>
#include <omp.h>
#include <sys/mman.h>
#include <unistd.h>
#include <execinfo.h>
typedef double REAL_DOUBLE;
struct SymArena {
  struct N { int op; int a, b; double c; std::string s; };
  std::vector<N> n; std::map<std::tuple<int,int,int>,int> memo; std::map<double,int> cm; std::map<std::string,int> vm;
  std::vector<std::tuple<const char*,int,int,bool>> path;
  int cst(double c){ if( c != c ) c = 1.2345e300; auto it = cm.find(c); if( it != cm.end() ) return it->second; n.push_back({0,0,0,c,""}); return cm[c] = n.size()-1; }
  int var(const std::string& s){ auto it = vm.find(s); if( it != vm.end() ) return it->second; n.push_back({1,0,0,0,s}); return vm[s] = n.size()-1; }
  int mk(int op, int a, int b, const std::string& s=""){
    if( op != 9 ){ auto k = std::make_tuple(op,a,b); auto it = memo.find(k); if( it != memo.end() ) return it->second; n.push_back({op,a,b,0,s}); return memo[k] = n.size()-1; }
    n.push_back({op,a,b,0,s}); return n.size()-1; }
};
inline SymArena& SA(){ static SymArena* a = new SymArena(); return *a; }
enum { OPC=0, OPV=1, OADD, OSUB, OMUL, ODIV, ONEG, OFN1, OFN2, OAPP };
struct Sym {
  double v; int id;
  Sym() : v(0), id(-1) {}
  Sym(double x) : v(x), id(-1) {}
  Sym(float x) : v(x), id(-1) {}
  Sym(int x) : v(x), id(-1) {}
  Sym(unsigned x) : v(x), id(-1) {}
  Sym(long x) : v(x), id(-1) {}
  Sym(unsigned long x) : v(x), id(-1) {}
  Sym(long long x) : v(x), id(-1) {}
  Sym(unsigned long long x) : v(x), id(-1) {}
  Sym(bool x) : v(x), id(-1) {}
  Sym(double x, int i) : v(x), id(i) {}
  int nid() const { return id >= 0 ? id : SA().cst(v); }
  explicit operator double() const { return v; }
  explicit operator int() const { return (int)v; }
  explicit operator unsigned() const { return (unsigned)v; }
  explicit operator unsigned long() const { return (unsigned long)v; }
  explicit operator bool() const { return v != 0; }
  Sym operator-() const { return Sym(-v, SA().mk(ONEG, nid(), 0)); }
  Sym operator+() const { return *this; }
  Sym& operator+=(const Sym& o); Sym& operator-=(const Sym& o); Sym& operator*=(const Sym& o); Sym& operator/=(const Sym& o);
};
inline Sym symbin(int op, double v, const Sym& a, const Sym& b){ return Sym(v, SA().mk(op, a.nid(), b.nid())); }
inline Sym operator+(const Sym& a, const Sym& b){ return symbin(OADD, a.v+b.v, a, b); }
inline Sym operator-(const Sym& a, const Sym& b){ return symbin(OSUB, a.v-b.v, a, b); }
inline Sym operator*(const Sym& a, const Sym& b){ return symbin(OMUL, a.v*b.v, a, b); }
inline Sym operator/(const Sym& a, const Sym& b){ return symbin(ODIV, a.v/b.v, a, b); }
inline Sym& Sym::operator+=(const Sym& o){ return *this = *this + o; }
inline Sym& Sym::operator-=(const Sym& o){ return *this = *this - o; }
inline Sym& Sym::operator*=(const Sym& o){ return *this = *this * o; }
inline Sym& Sym::operator/=(const Sym& o){ return *this = *this / o; }
inline bool symcmp(const char* op, bool r, const Sym& a, const Sym& b){ if( a.id >= 0 || b.id >= 0 ) SA().path.emplace_back(op, a.nid(), b.nid(), r); return r; }
inline bool operator<(const Sym& a, const Sym& b){ return symcmp("<", a.v<b.v, a, b); }
inline bool operator>(const Sym& a, const Sym& b){ return symcmp(">", a.v>b.v, a, b); }
inline bool operator<=(const Sym& a, const Sym& b){ return symcmp("<=", a.v<=b.v, a, b); }
inline bool operator>=(const Sym& a, const Sym& b){ return symcmp(">=", a.v>=b.v, a, b); }
inline bool operator==(const Sym& a, const Sym& b){ return symcmp("==", a.v==b.v, a, b); }
inline bool operator!=(const Sym& a, const Sym& b){ return symcmp("!=", a.v!=b.v, a, b); }
inline std::ostream& operator<<(std::ostream& o, const Sym& s){ return o << s.v; }
inline std::istream& operator>>(std::istream& o, Sym& s){ double x; o >> x; s = Sym(x); return o; }
// a fresh symbol
inline Sym symvar(const std::string& n, double v){ return Sym(v, SA().var(n)); }
// an uninterpreted application
inline Sym symapp(const std::string& f, const std::vector<Sym>& a, double v){ int l = -1; for( auto& x : a ) l = SA().mk(OAPP, x.nid(), l, ""); return Sym(v, SA().mk(OAPP, -1, l, f)); }
#define SYMF1(F) inline Sym F(const Sym& a){ return Sym(::F(a.v), a.id < 0 ? -1 : SA().mk(OFN1+100*__LINE__, a.nid(), 0, #F)); } namespace std { inline ::Sym F(const ::Sym& a){ return ::F(a); } }
SYMF1(sqrt)
SYMF1(cos)
SYMF1(sin)
SYMF1(tan)
SYMF1(exp)
SYMF1(log)
SYMF1(acos)
SYMF1(asin)
SYMF1(atan)
SYMF1(fabs)
SYMF1(floor)
SYMF1(ceil)
SYMF1(cbrt)
inline Sym abs(const Sym& a){ return fabs(a); }
inline Sym atan2(const Sym& a, const Sym& b){ return Sym(::atan2(a.v,b.v), SA().mk(OFN2+100000, a.nid(), b.nid(), "atan2")); }
inline Sym fmod(const Sym& a, const Sym& b){ return Sym(::fmod(a.v,b.v), SA().mk(OFN2+100001, a.nid(), b.nid(), "fmod")); }
inline Sym pow(const Sym& a, const Sym& b){ if( b.id < 0 && b.v == (int)b.v && b.v >= 0 && b.v < 20 ){ Sym r(1.0); for( int i = 0; i < (int)b.v; ++i ) r = r*a; return r; } return Sym(::pow(a.v,b.v), SA().mk(OFN2+100002, a.nid(), b.nid(), "pow")); }
inline bool isnan(const Sym& a){ return a.v != a.v; }
inline bool isinf(const Sym& a){ return std::isinf(a.v); }
inline bool isfinite(const Sym& a){ return std::isfinite(a.v); }
namespace std {
  inline ::Sym abs(const ::Sym& a){ return ::fabs(a); }
  inline ::Sym atan2(const ::Sym& a, const ::Sym& b){ return ::atan2(a,b); }
  inline ::Sym fmod(const ::Sym& a, const ::Sym& b){ return ::fmod(a,b); }
  inline ::Sym pow(const ::Sym& a, const ::Sym& b){ return ::pow(a,b); }
  inline bool isnan(const ::Sym& a){ return ::isnan(a); }
  inline bool isfinite(const ::Sym& a){ return ::isfinite(a); }
  template<> struct numeric_limits<::Sym> { static constexpr bool is_specialized = true; static ::Sym max(){ return ::Sym(numeric_limits<double>::max()); } static ::Sym min(){ return ::Sym(numeric_limits<double>::min()); } static ::Sym lowest(){ return ::Sym(numeric_limits<double>::lowest()); } static ::Sym epsilon(){ return ::Sym(numeric_limits<double>::epsilon()); } static ::Sym infinity(){ return ::Sym(numeric_limits<double>::infinity()); } static ::Sym quiet_NaN(){ return ::Sym(numeric_limits<double>::quiet_NaN()); } };
  inline std::string to_string(const ::Sym& a){ return std::to_string(a.v); }
  inline ::Sym norm(const std::complex<::Sym>& c){ return c.real()*c.real() + c.imag()*c.imag(); }
}
namespace SymOut {
  inline std::map<std::string,std::vector<std::pair<int,double>>>& O(){ static std::map<std::string,std::vector<std::pair<int,double>>> o; return o; }
  inline std::map<std::string,std::string>& J(){ static std::map<std::string,std::string> o; return o; }
  inline void out(const std::string& k, const std::vector<Sym>& v){ auto& o = O()[k]; for( auto& s : v ) o.emplace_back(s.nid(), s.v); }
  inline void out(const std::string& k, const Sym& v){ O()[k].emplace_back(v.nid(), v.v); }
  inline void outj(const std::string& k, const std::string& v){ J()[k] = v; }
  inline std::string num(double v){ char b[64]; if( v-v != 0 ) return "\"nan\""; snprintf(b,64,"%.17g",v); return b; }
  inline void dump(FILE* f){
    fprintf(f, "{\"nodes\":["); bool first = true;
    for( auto& n : SA().n ){ if( !first ) fputc(',',f); first = false;
      int o = n.op % 100;
      if( n.op == OPC ) fprintf(f,"[\"c\",%s]", num(n.c).c_str());
      else if( n.op == OPV ) fprintf(f,"[\"v\",\"%s\"]", n.s.c_str());
      else if( n.op == OADD ) fprintf(f,"[\"+\",%d,%d]", n.a, n.b);
      else if( n.op == OSUB ) fprintf(f,"[\"-\",%d,%d]", n.a, n.b);
      else if( n.op == OMUL ) fprintf(f,"[\"*\",%d,%d]", n.a, n.b);
      else if( n.op == ODIV ) fprintf(f,"[\"/\",%d,%d]", n.a, n.b);
      else if( n.op == ONEG ) fprintf(f,"[\"neg\",%d]", n.a);
      else if( n.op == OAPP ) fprintf(f,"[\"app\",\"%s\",%d,%d]", n.s.c_str(), n.a, n.b);
      else if( n.op >= 100000 ) fprintf(f,"[\"%s\",%d,%d]", n.s.c_str(), n.a, n.b);
      else fprintf(f,"[\"%s\",%d]", n.s.c_str(), n.a); (void)o; }
    fprintf(f,"],\"path\":["); first = true;
    for( auto& [op,a,b,r] : SA().path ){ if( !first ) fputc(',',f); first = false; fprintf(f,"[\"%s\",%d,%d,%d]", op, a, b, (int)r); }
    fprintf(f,"],\"out\":{"); first = true;
    for( auto& [k,v] : O() ){ if( !first ) fputc(',',f); first = false; fprintf(f,"\"%s\":[", k.c_str()); bool g = true; for( auto& [i,x] : v ){ if( !g ) fputc(',',f); g = false; fprintf(f,"[%d,%s]", i, num(x).c_str()); } fputc(']',f); }
    fprintf(f,"},\"json\":{"); first = true;
    for( auto& [k,v] : J() ){ if( !first ) fputc(',',f); first = false; fprintf(f,"\"%s\":%s", k.c_str(), v.c_str()); }
    fprintf(f,"}}\n"); }
  struct Case { const char* name; void(*f)(); };
  inline std::vector<Case>& cases(){ static std::vector<Case> c; return c; }
  inline REAL_DOUBLE rnd(std::mt19937_64& g){ return (g() >> 11) * 0x1p-53; }
}
#define SYMCASE(NAME) static void symcase_##NAME(); static int symreg_##NAME = ( SymOut::cases().push_back({#NAME, symcase_##NAME}), 0 ); static void symcase_##NAME()
// main: every case in its own process: <exe> case args...
#define SYMMAIN std::vector<std::string> g_args; int main(int argc, char** argv){ for( int i = 2; i < argc; ++i ) g_args.push_back(argv[i]); \
  for( auto& c : SymOut::cases() ) if( argc > 1 && std::string(argv[1]) == c.name ){ \
    int fd = dup(1); dup2(2,1); c.f(); fflush(stdout); FILE* f = fdopen(fd,"w"); SymOut::dump(f); fflush(f); _exit(0); } \
  return 3; }
extern std::vector<std::string> g_args;
#define double Sym

