#pragma once
#include "TMatrixD.h"
class TDecompChol : public TObject { TMatrixD m, u; public: template <class M> TDecompChol(const M& a) : m(a.r,a.c) { m.d=a.d; } 
  bool Decompose(){ int n=m.r; u=TMatrixD(n,n); for(int i=0;i<n;++i) for(int j=i;j<n;++j){ double s=m(i,j); for(int k=0;k<i;++k) s-=u(k,i)*u(k,j); if(i==j){ if(s<=0) return false; u(i,i)=sqrt(s); } else u(i,j)=s/u(i,i); } return true; } const TMatrixD& GetU() const { return u; } };
