#pragma once
#include "gsl/gsl_matrix.h"
// LU with pivoting by the shadow values: A -> L,U in place, row permutation p
inline int gsl_linalg_LU_decomp(gsl_matrix* A, gsl_permutation* p, int* s){ size_t n = A->size1; *s = 1; for( size_t i = 0; i != n; ++i ) p->p[i] = i;
  auto& d = A->d; for( size_t k = 0; k != n; ++k ){ size_t b = k; for( size_t i = k+1; i != n; ++i ) if( ::fabs(d[i*n+k].v) > ::fabs(d[b*n+k].v) ) b = i;
    if( b != k ){ for( size_t j = 0; j != n; ++j ) std::swap(d[b*n+j], d[k*n+j]); std::swap(p->p[b], p->p[k]); *s = -*s; }
    for( size_t i = k+1; i != n; ++i ){ d[i*n+k] = d[i*n+k]/d[k*n+k]; for( size_t j = k+1; j != n; ++j ) d[i*n+j] = d[i*n+j] - d[i*n+k]*d[k*n+j]; } } return 0; }
inline std::vector<Sym> gsl_lusolve(const gsl_matrix* A, const gsl_permutation* p, const std::vector<Sym>& b){ size_t n = A->size1; std::vector<Sym> y(n); auto& d = A->d;
  for( size_t i = 0; i != n; ++i ){ y[i] = b[p->p[i]]; for( size_t j = 0; j != i; ++j ) y[i] = y[i] - d[i*n+j]*y[j]; }
  for( size_t q = n; q-- > 0; ){ for( size_t j = q+1; j != n; ++j ) y[q] = y[q] - d[q*n+j]*y[j]; y[q] = y[q]/d[q*n+q]; } return y; }
inline int gsl_linalg_LU_invert(const gsl_matrix* A, const gsl_permutation* p, gsl_matrix* I){ size_t n = A->size1; for( size_t c = 0; c != n; ++c ){ std::vector<Sym> e(n, Sym(0)); e[c] = Sym(1); auto y = gsl_lusolve(A,p,e); for( size_t r = 0; r != n; ++r ) I->d[r*n+c] = y[r]; } return 0; }
inline int gsl_linalg_LU_solve(const gsl_matrix* A, const gsl_permutation* p, const gsl_vector* b, gsl_vector* x){ x->d = gsl_lusolve(A,p,b->d); return 0; }
