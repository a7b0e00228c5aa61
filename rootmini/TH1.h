#pragma once
#include "Rtypes.h"
#include "TAxis.h"
class TH1 : public TNamed { public: TAxis ax, ay; std::vector<double> c, s2; double n=0; int nb; bool has2=false; TH1(const char* nm="",const char* t="",int nb=1,double a=0,double b=1,int ny=0,double c0=0,double c1=1) : TNamed(nm,t), ax(nb,a,b), ay(ny?ny:1,c0,c1), c((nb+2)*(ny?ny+2:1)), s2((nb+2)*(ny?ny+2:1)), nb(nb) {}
  TAxis* GetXaxis(){ return &ax; } TAxis* GetYaxis(){ return &ay; } const TAxis* GetXaxis() const { return &ax; } int GetNbinsX() const { return nb; } 
  int Fill(double x){ return Fill(x,1.); } int Fill(double x,double w){ int b=ax.FindBin(x); c[b]+=w; s2[b]+=w*w; ++n; return b; } 
  double GetBinContent(int b) const { return c[b]; } double GetBinError(int b) const { return sqrt(s2[b]); } void SetBinContent(int b,double v){ c[b]=v; } void SetBinError(int b,double e){ s2[b]=e*e; } double GetBinCenter(int b) const { return ax.GetBinCenter(b); } double GetBinLowEdge(int b) const { return ax.GetBinLowEdge(b); } double GetEntries() const { return n; } void SetEntries(double x){ n=x; }
  double Integral() const { double s=0; for(int i=1;i<=nb;++i) s+=c[i]; return s; } double GetMaximum() const { double m=c[1]; for(int i=1;i<=nb;++i) if(c[i]>m) m=c[i]; return m; } void Scale(double f){ for(auto& x : c) x*=f; for(auto& x : s2) x*=f*f; } void Add(const TH1* o,double f=1){ for(unsigned i=0;i<c.size();++i){ c[i]+=f*o->c[i]; s2[i]+=f*f*o->s2[i]; } } void Sumw2(bool=true){} void SetStats(bool=true){} void Reset(const char* =""){ for(auto& x : c) x=0; for(auto& x : s2) x=0; n=0; }
  void SetLineColor(int){} void SetLineStyle(int){} void SetLineWidth(int){} void SetMarkerSize(float){} void SetMarkerColor(int){} void SetFillColor(int){} void SetFillStyle(int){} void SetMarkerStyle(int){} void SetDrawOption(const char* =""){} void SetOption(const char* =""){} void SetTitle(const char* t){ m_t=t; } void SetMinimum(double=0){} void SetMaximum(double=0){} void SetDirectory(void*){} };
class TH1D : public TH1 { public: using TH1::TH1; TH1D(const char* nm="",const char* t="",int nb=1,double a=0,double b=1) : TH1(nm,t,nb,a,b) {} };
