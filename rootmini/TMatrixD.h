#pragma once
#include "Rtypes.h"
template <class T> class TVectorT : public TObject { public: std::vector<T> d; TVectorT(int n=0) : d(n) {} T& operator[](int i){ return d[i]; } const T& operator[](int i) const { return d[i]; } T& operator()(int i){ return d[i]; } const T& operator()(int i) const { return d[i]; } int GetNrows() const { return d.size(); } int GetNoElements() const { return d.size(); } void ResizeTo(int n){ d.resize(n); } 
  TVectorT operator+(const TVectorT& o) const { auto r=*this; for(unsigned i=0;i<d.size();++i) r.d[i]+=o.d[i]; return r; } TVectorT operator-(const TVectorT& o) const { auto r=*this; for(unsigned i=0;i<d.size();++i) r.d[i]-=o.d[i]; return r; } T operator*(const TVectorT& o) const { T s=0; for(unsigned i=0;i<d.size();++i) s+=d[i]*o.d[i]; return s; } };
template <class T> inline T Dot(const TVectorT<T>& a, const TVectorT<T>& b){ return a*b; }
typedef TVectorT<double> TVectorD;
template <class T> class TMatrixTBase : public TObject { public: int r, c; std::vector<T> d; TMatrixTBase(int r=0,int c=0) : r(r), c(c), d(r*c) {} T& operator()(int i,int j){ return d[i*c+j]; } const T& operator()(int i,int j) const { return d[i*c+j]; } T* operator[](int i){ return &d[i*c]; } const T* operator[](int i) const { return &d[i*c]; } int GetNrows() const { return r; } int GetNcols() const { return c; } void ResizeTo(int a,int b){ std::vector<T> n(a*b); for(int i=0;i<a&&i<r;++i) for(int j=0;j<b&&j<c;++j) n[i*b+j]=d[i*c+j]; r=a; c=b; d=n; } T* GetMatrixArray(){ return d.data(); } const T* GetMatrixArray() const { return d.data(); } };
template <class T> class TMatrixT : public TMatrixTBase<T> { public: using TMatrixTBase<T>::TMatrixTBase; TMatrixT() = default; enum EOp { kTransposed }; TMatrixT(EOp, const TMatrixT& o) : TMatrixTBase<T>(o.c,o.r) { for(int i=0;i<o.r;++i) for(int j=0;j<o.c;++j) (*this)(j,i)=o(i,j); } TMatrixT(int r,int c,const T* p) : TMatrixTBase<T>(r,c) { for(int i=0;i<r*c;++i) this->d[i]=p[i]; }
  TMatrixT& Invert(T* =nullptr){ int n=this->r; TMatrixT a=*this, b(n,n); for(int i=0;i<n;++i) b(i,i)=1; for(int k=0;k<n;++k){ int p=k; for(int i=k;i<n;++i) if(std::fabs(a(i,k))>std::fabs(a(p,k))) p=i; for(int j=0;j<n;++j){ std::swap(a(k,j),a(p,j)); std::swap(b(k,j),b(p,j)); } T f=a(k,k); for(int j=0;j<n;++j){ a(k,j)/=f; b(k,j)/=f; } for(int i=0;i<n;++i) if(i!=k){ T g=a(i,k); for(int j=0;j<n;++j){ a(i,j)-=g*a(k,j); b(i,j)-=g*b(k,j); } } } *this=b; return *this; }
  
  TVectorT<T> operator*(const TVectorT<T>& x) const { TVectorT<T> y(this->r); for(int i=0;i<this->r;++i) for(int j=0;j<this->c;++j) y[i]+=(*this)(i,j)*x[j]; return y; } 
  TMatrixT operator*(const TMatrixT& o) const { TMatrixT y(this->r,o.c); for(int i=0;i<this->r;++i) for(int k=0;k<this->c;++k) for(int j=0;j<o.c;++j) y(i,j)+=(*this)(i,k)*o(k,j); return y; } 
  TMatrixT& operator*=(T x){ for(auto& v : this->d) v*=x; return *this; }
  TMatrixT operator*(T x) const { auto y=*this; for(auto& v : y.d) v*=x; return y; } TMatrixT operator-(const TMatrixT& o) const { auto y=*this; for(unsigned i=0;i<y.d.size();++i) y.d[i]-=o.d[i]; return y; } TMatrixT operator+(const TMatrixT& o) const { auto y=*this; for(unsigned i=0;i<y.d.size();++i) y.d[i]+=o.d[i]; return y; } };
typedef TMatrixT<double> TMatrixD;
template <class T> class TMatrixTSym : public TMatrixTBase<T> { public: TMatrixTSym(int n=0) : TMatrixTBase<T>(n,n) {} };
typedef TMatrixTSym<double> TMatrixDSym;
