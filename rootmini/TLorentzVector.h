#pragma once
#include "TVector3.h"
class TLorentzVector : public TObject { public: double v[4]; TLorentzVector(double x=0,double y=0,double z=0,double t=0){ v[0]=x; v[1]=y; v[2]=z; v[3]=t; } TLorentzVector(const double* p){ for(int i=0;i<4;++i) v[i]=p[i]; }
  double X() const { return v[0]; } double Y() const { return v[1]; } double Z() const { return v[2]; } double T() const { return v[3]; } double Px() const { return v[0]; } double Py() const { return v[1]; } double Pz() const { return v[2]; } double E() const { return v[3]; }
  double Dot(const TLorentzVector& o) const { return v[3]*o.v[3]-v[0]*o.v[0]-v[1]*o.v[1]-v[2]*o.v[2]; } double operator*(const TLorentzVector& o) const { return Dot(o); } double Mag2() const { return Dot(*this); } double M2() const { return Dot(*this); } double Mag() const { double m=Mag2(); return m<0 ? -sqrt(-m) : sqrt(m); } double M() const { return Mag(); }
  TVector3 Vect() const { return TVector3(v[0],v[1],v[2]); } TVector3 BoostVector() const { return TVector3(v[0]/v[3],v[1]/v[3],v[2]/v[3]); }
  void Boost(const TVector3& b){ Boost(b.v[0],b.v[1],b.v[2]); }
  void Boost(double bx, double by, double bz){ double b2=bx*bx+by*by+bz*bz, g=1/sqrt(1-b2), bp=bx*v[0]+by*v[1]+bz*v[2], g2 = b2>0 ? (g-1)/b2 : double(0); double t=v[3]; v[0]+=g2*bp*bx+g*bx*t; v[1]+=g2*bp*by+g*by*t; v[2]+=g2*bp*bz+g*bz*t; v[3]=g*(t+bp); }
  TLorentzVector operator+(const TLorentzVector& o) const { return TLorentzVector(v[0]+o.v[0],v[1]+o.v[1],v[2]+o.v[2],v[3]+o.v[3]); } TLorentzVector operator-(const TLorentzVector& o) const { return TLorentzVector(v[0]-o.v[0],v[1]-o.v[1],v[2]-o.v[2],v[3]-o.v[3]); } TLorentzVector& operator+=(const TLorentzVector& o){ for(int i=0;i<4;++i) v[i]+=o.v[i]; return *this; } };
