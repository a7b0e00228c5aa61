#pragma once
#include "TH1.h"
class TH2 : public TH1 { public: int ny; TH2(const char* nm="",const char* t="",int nx=1,double a=0,double b=1,int ny=1,double c0=0,double c1=1) : TH1(nm,t,nx,a,b,ny,c0,c1), ny(ny) {} int GetNbinsY() const { return ny; } int GetBin(int i,int j) const { return i+j*(nb+2); } int Fill(double x,double y){ return Fill(x,y,1.); } int Fill(double x,double y,double w){ int k=GetBin(ax.FindBin(x),ay.FindBin(y)); c[k]+=w; s2[k]+=w*w; ++n; return k; } using TH1::GetBinContent; using TH1::SetBinContent; double GetBinContent(int i,int j) const { return c[GetBin(i,j)]; } void SetBinContent(int i,int j,double v){ c[GetBin(i,j)]=v; } };
class TH2D : public TH2 { public: using TH2::TH2; };
