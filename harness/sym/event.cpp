// Event over the symbolic scalar
#include "src/Event.cpp"
SYMMAIN
static int A(unsigned i){ return std::stoi(g_args.at(i)); }
static Event mk(unsigned n, unsigned x=1){ Event e(4*n+x); for( unsigned i = 0; i != 4*n+x; ++i ) e[i] = symvar("p"+std::to_string(i), ::sin(1.7*i+0.3)); return e; }
static std::vector<Sym> all(const Event& e){ return e.data(); }
SYMCASE(s){ unsigned n = A(0); auto e = mk(n);
  for( unsigned i=0;i!=n;++i ) SymOut::out("s_"+std::to_string(i), e.s(i));
  for( unsigned i=0;i!=n;++i ) for( unsigned j=0;j!=n;++j ) SymOut::out("s_"+std::to_string(i)+"_"+std::to_string(j), e.s(i,j));
  for( unsigned i=0;i!=n;++i ) for( unsigned j=0;j!=n;++j ) for( unsigned k=0;k!=n;++k ) SymOut::out("s_"+std::to_string(i)+"_"+std::to_string(j)+"_"+std::to_string(k), e.s(i,j,k));
  for( unsigned m=1;m!=(1u<<n);++m){ std::vector<unsigned> ix; for(unsigned i=0;i!=n;++i) if( m>>i&1 ) ix.push_back(i); SymOut::out("v_"+std::to_string(m), e.s(ix)); std::reverse(ix.begin(),ix.end()); SymOut::out("r_"+std::to_string(m), e.s(ix)); } }
SYMCASE(move){ unsigned n = A(0);
  for( unsigned i=0;i!=n;++i ) for( unsigned j=0;j!=n;++j ){ auto e = mk(n); e.swap(i,j); SymOut::out("swap_"+std::to_string(i)+"_"+std::to_string(j), all(e)); }
  std::vector<unsigned> p(n); std::iota(p.begin(),p.end(),0); do { auto e = mk(n); e.reorder(p); std::string k; for( auto x : p ) k += "_"+std::to_string(x); SymOut::out("reorder"+k, all(e)); } while( std::next_permutation(p.begin(),p.end()) );
  for( unsigned i=0;i!=n;++i ){ auto e = mk(n); Sym q[4]; for( int k=0;k!=4;++k ) q[k] = symvar("q"+std::to_string(k),0.1*k); e.set(i,q); SymOut::out("setp_"+std::to_string(i), all(e)); e = mk(n); e.set(i,std::vector<real_t>{q[0],q[1],q[2],q[3]}); SymOut::out("setv_"+std::to_string(i), all(e)); }
  for( unsigned i=0;i!=4*n+1;++i ){ auto e = mk(n); e.set(i, symvar("q0",0.)); SymOut::out("set1_"+std::to_string(i), all(e)); }
  { Event e(4*n+1); auto o = mk(n); e.set(o.address()); SymOut::out("copy", all(e)); Event f(o.address(),4*n+1); SymOut::out("ctor", all(f)); e.extendEvent(symvar("q1",1.)); SymOut::out("ext", all(e)); } }
