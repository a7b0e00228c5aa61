#pragma once
#include "Rtypes.h"
class TVector3 : public TObject { public: double v[3]; TVector3(double x=0,double y=0,double z=0){ v[0]=x; v[1]=y; v[2]=z; }
  double x() const { return v[0]; } double y() const { return v[1]; } double z() const { return v[2]; } double X() const { return v[0]; } double Y() const { return v[1]; } double Z() const { return v[2]; }
  double Dot(const TVector3& o) const { return v[0]*o.v[0]+v[1]*o.v[1]+v[2]*o.v[2]; } double operator*(const TVector3& o) const { return Dot(o); } double Mag2() const { return Dot(*this); } double Mag() const { return sqrt(Mag2()); }
  TVector3 Cross(const TVector3& o) const { return TVector3(v[1]*o.v[2]-v[2]*o.v[1], v[2]*o.v[0]-v[0]*o.v[2], v[0]*o.v[1]-v[1]*o.v[0]); } TVector3 Unit() const { double m=Mag2(); m = m>0 ? 1/sqrt(m) : double(1); return TVector3(v[0]*m,v[1]*m,v[2]*m); }
  TVector3 operator+(const TVector3& o) const { return TVector3(v[0]+o.v[0],v[1]+o.v[1],v[2]+o.v[2]); } TVector3 operator-(const TVector3& o) const { return TVector3(v[0]-o.v[0],v[1]-o.v[1],v[2]-o.v[2]); } TVector3 operator-() const { return TVector3(-v[0],-v[1],-v[2]); } };
inline TVector3 operator*(double a, const TVector3& p){ return TVector3(a*p.v[0],a*p.v[1],a*p.v[2]); } inline TVector3 operator*(const TVector3& p, double a){ return a*p; }
