// contract of the GSL quadrature routines over the symbolic scalar: the result is the integral of the body
#pragma once
struct gsl_function_struct { double (*function)(double x, void* params); void* params; };
typedef gsl_function_struct gsl_function;
struct gsl_integration_workspace { size_t n; };
inline int& gsl_live(){ static int n = 0; return n; }
inline gsl_integration_workspace* gsl_integration_workspace_alloc(size_t n){ gsl_live()++; return new gsl_integration_workspace{n}; }
inline void gsl_integration_workspace_free(gsl_integration_workspace* w){ gsl_live()--; delete w; }
inline REAL_DOUBLE& gsl_weakest(){ static REAL_DOUBLE e = 0; return e; }
inline Sym gsl_body(const gsl_function* f, REAL_DOUBLE at){ return f->function(symvar("bound", at), f->params); }
inline int gsl_integration_qags(const gsl_function* f, double a, double b, double epsabs, double epsrel, size_t limit, gsl_integration_workspace* w, double* result, double* abserr){
  if( limit > w->n ) abort(); gsl_weakest() = std::max(gsl_weakest(), std::max(epsrel.v, epsabs.v)); *result = symapp("int", {a, b, gsl_body(f, 0.5*(a.v+b.v))}, 0.7); *abserr = 0; return 0; }
inline int gsl_integration_qagi(const gsl_function* f, double epsabs, double epsrel, size_t limit, gsl_integration_workspace* w, double* result, double* abserr){
  if( limit > w->n ) abort(); gsl_weakest() = std::max(gsl_weakest(), std::max(epsrel.v, epsabs.v)); *result = symapp("intinf", {gsl_body(f, 0.37)}, 0.7); *abserr = 0; return 0; }
inline int gsl_integration_qawc(const gsl_function* f, double a, double b, double c, double epsabs, double epsrel, size_t limit, gsl_integration_workspace* w, double* result, double* abserr){
  if( limit > w->n ) abort(); gsl_weakest() = std::max(gsl_weakest(), std::max(epsrel.v, epsabs.v)); *result = symapp("intpv", {a, b, c, gsl_body(f, 0.5*(a.v+b.v))}, 0.7); *abserr = 0; return 0; }
