// Contract of the four-lane vector type over the symbolic scalar: every operation acts lane by lane (property P22 shows
// that the real type does).
#pragma once
#include "AmpGen/Complex.h"
namespace AmpGen { namespace AVX2d {
  struct real_v { Sym d[4]; static constexpr unsigned size = 4; typedef Sym scalar_type;
    real_v(){ for( auto& x : d ) x = Sym(1.23e77); }
    real_v(const Sym& f){ for( auto& x : d ) x = f; }
    real_v(REAL_DOUBLE f){ for( auto& x : d ) x = Sym(f); }
    real_v(int f){ for( auto& x : d ) x = Sym(f); }
    real_v(const Sym& a, const Sym& b, const Sym& c, const Sym& e){ d[0]=a; d[1]=b; d[2]=c; d[3]=e; }
    explicit real_v(const Sym* f){ for( int i = 0; i != 4; ++i ) d[i] = f[i]; }
    real_v(const std::array<Sym,4>& f){ for( int i = 0; i != 4; ++i ) d[i] = f[i]; }
    void store(Sym* p) const { for( int i = 0; i != 4; ++i ) p[i] = d[i]; }
    const Sym* to_ptr() const { return d; }
    Sym* to_ptr(){ return d; }
    std::array<Sym,4> to_array() const { return {d[0],d[1],d[2],d[3]}; }
    Sym at(unsigned i) const { return d[i]; }
#define LANEOP(O) friend real_v operator O(const real_v& a, const real_v& b){ real_v r; for( int i = 0; i != 4; ++i ) r.d[i] = a.d[i] O b.d[i]; return r; } real_v& operator O##=(const real_v& o){ return *this = *this O o; }
    LANEOP(+) LANEOP(-) LANEOP(*) LANEOP(/)
    real_v operator-() const { real_v r; for( int i = 0; i != 4; ++i ) r.d[i] = -d[i]; return r; }
  };
  inline real_v abs(const real_v& a){ real_v r; for( int i = 0; i != 4; ++i ) r.d[i] = ::fabs(a.d[i]); return r; }
  using complex_v = Complex<real_v>;
} }
