// stand-in for the NEON intrinsics the ARM vector type uses, with the semantics of the Arm reference (two 64-bit lanes)
#pragma once
#include <cstdint>
#include <cmath>
typedef double   float64x2_t __attribute__((vector_size(16)));
typedef uint64_t uint64x2_t  __attribute__((vector_size(16)));
typedef int64_t  int64x2_t   __attribute__((vector_size(16)));
#define NEON static inline
NEON float64x2_t vmovq_n_f64(double x){ return float64x2_t{x,x}; }
NEON float64x2_t vdupq_n_f64(double x){ return float64x2_t{x,x}; }
NEON float64x2_t vsetq_lane_f64(double x, float64x2_t v, int i){ v[i]=x; return v; }
NEON double vgetq_lane_f64(float64x2_t v, int i){ return v[i]; }
NEON float64x2_t vld1q_f64(const double* p){ return float64x2_t{p[0],p[1]}; }
NEON void vst1q_f64(double* p, float64x2_t v){ p[0]=v[0]; p[1]=v[1]; }
NEON void vst1q_u64(uint64_t* p, uint64x2_t v){ p[0]=v[0]; p[1]=v[1]; }
NEON void vst1q_s64(int64_t* p, int64x2_t v){ p[0]=v[0]; p[1]=v[1]; }
NEON float64x2_t vaddq_f64(float64x2_t a, float64x2_t b){ return a+b; }
NEON float64x2_t vsubq_f64(float64x2_t a, float64x2_t b){ return a-b; }
NEON float64x2_t vmulq_f64(float64x2_t a, float64x2_t b){ return a*b; }
NEON float64x2_t vdivq_f64(float64x2_t a, float64x2_t b){ return a/b; }
NEON float64x2_t vnegq_f64(float64x2_t a){ return -a; }
NEON float64x2_t vmlaq_f64(float64x2_t a, float64x2_t b, float64x2_t c){ return a+b*c; }   // accumulator first
NEON float64x2_t vfmaq_f64(float64x2_t a, float64x2_t b, float64x2_t c){ return float64x2_t{std::fma(b[0],c[0],a[0]),std::fma(b[1],c[1],a[1])}; }
NEON float64x2_t vmlsq_f64(float64x2_t a, float64x2_t b, float64x2_t c){ return a-b*c; }
NEON float64x2_t vsqrtq_f64(float64x2_t a){ return float64x2_t{std::sqrt(a[0]),std::sqrt(a[1])}; }
NEON float64x2_t vabsq_f64(float64x2_t a){ return float64x2_t{std::fabs(a[0]),std::fabs(a[1])}; }
NEON float64x2_t vrndmq_f64(float64x2_t a){ return float64x2_t{std::floor(a[0]),std::floor(a[1])}; }
NEON float64x2_t vrndq_f64(float64x2_t a){ return float64x2_t{std::trunc(a[0]),std::trunc(a[1])}; }
NEON float64x2_t vrndpq_f64(float64x2_t a){ return float64x2_t{std::ceil(a[0]),std::ceil(a[1])}; }
NEON float64x2_t vminq_f64(float64x2_t a, float64x2_t b){ return float64x2_t{std::fmin(a[0],b[0]),std::fmin(a[1],b[1])}; }
NEON float64x2_t vmaxq_f64(float64x2_t a, float64x2_t b){ return float64x2_t{std::fmax(a[0],b[0]),std::fmax(a[1],b[1])}; }
NEON uint64_t neon_sat(double x){ return x != x || x <= 0 ? 0 : x >= 18446744073709551616.0 ? UINT64_MAX : uint64_t(x); }
NEON int64_t neon_sats(double x){ return x != x ? 0 : x >= 9223372036854775808.0 ? INT64_MAX : x <= -9223372036854775808.0 ? INT64_MIN : int64_t(x); }
NEON uint64x2_t vcvtq_u64_f64(float64x2_t a){ return uint64x2_t{neon_sat(a[0]),neon_sat(a[1])}; }
NEON int64x2_t vcvtq_s64_f64(float64x2_t a){ return int64x2_t{neon_sats(a[0]),neon_sats(a[1])}; }
NEON int64x2_t vcvtmq_s64_f64(float64x2_t a){ return int64x2_t{neon_sats(std::floor(a[0])),neon_sats(std::floor(a[1]))}; }
NEON float64x2_t vcvtq_f64_u64(uint64x2_t a){ return float64x2_t{double(a[0]),double(a[1])}; }
NEON float64x2_t vcvtq_f64_s64(int64x2_t a){ return float64x2_t{double(a[0]),double(a[1])}; }
#define NEON_CMP(n,op) NEON uint64x2_t n(float64x2_t a, float64x2_t b){ return uint64x2_t{a[0] op b[0] ? ~0ull : 0ull, a[1] op b[1] ? ~0ull : 0ull}; }
NEON_CMP(vcltq_f64,<) NEON_CMP(vcgtq_f64,>) NEON_CMP(vcleq_f64,<=) NEON_CMP(vcgeq_f64,>=) NEON_CMP(vceqq_f64,==)
NEON uint64x2_t vandq_u64(uint64x2_t a, uint64x2_t b){ return a&b; }
NEON uint64x2_t vorrq_u64(uint64x2_t a, uint64x2_t b){ return a|b; }
NEON uint64x2_t veorq_u64(uint64x2_t a, uint64x2_t b){ return a^b; }
NEON float64x2_t vbslq_f64(uint64x2_t m, float64x2_t a, float64x2_t b){ return (float64x2_t)((m&(uint64x2_t)a)|(~m&(uint64x2_t)b)); }
