// GSL matrices over the symbolic scalar
#pragma once
struct gsl_matrix { size_t size1, size2; std::vector<Sym> d; };
struct gsl_vector { size_t size; std::vector<Sym> d; };
struct gsl_permutation { std::vector<size_t> p; };
inline gsl_matrix* gsl_matrix_alloc(size_t a, size_t b){ auto m = new gsl_matrix{a,b,{}}; m->d.assign(a*b, Sym(1.23e77)); return m; }
inline gsl_matrix* gsl_matrix_calloc(size_t a, size_t b){ auto m = new gsl_matrix{a,b,{}}; m->d.assign(a*b, Sym(0)); return m; }
inline void gsl_matrix_free(gsl_matrix* m){ delete m; }
inline void gsl_matrix_set_all(gsl_matrix* m, const Sym& x){ for( auto& e : m->d ) e = x; }
inline void gsl_matrix_set_zero(gsl_matrix* m){ gsl_matrix_set_all(m, Sym(0)); }
inline void gsl_matrix_set(gsl_matrix* m, size_t i, size_t j, const Sym& x){ if( i >= m->size1 || j >= m->size2 ) abort(); m->d[i*m->size2+j] = x; }
inline Sym gsl_matrix_get(const gsl_matrix* m, size_t i, size_t j){ if( i >= m->size1 || j >= m->size2 ) abort(); return m->d[i*m->size2+j]; }
inline gsl_vector* gsl_vector_alloc(size_t n){ auto v = new gsl_vector{n,{}}; v->d.assign(n, Sym(1.23e77)); return v; }
inline gsl_vector* gsl_vector_calloc(size_t n){ auto v = new gsl_vector{n,{}}; v->d.assign(n, Sym(0)); return v; }
inline void gsl_vector_free(gsl_vector* v){ delete v; }
inline void gsl_vector_set(gsl_vector* v, size_t i, const Sym& x){ if( i >= v->size ) abort(); v->d[i] = x; }
inline Sym gsl_vector_get(const gsl_vector* v, size_t i){ if( i >= v->size ) abort(); return v->d[i]; }
inline gsl_permutation* gsl_permutation_alloc(size_t n){ auto p = new gsl_permutation(); p->p.resize(n); return p; }
inline void gsl_permutation_free(gsl_permutation* p){ delete p; }
