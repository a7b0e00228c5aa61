#pragma once
#include "Rtypes.h"
class TAxis : public TNamed { public: int n; double a, b; TAxis(int n=1,double a=0,double b=1) : n(n), a(a), b(b) {} int FindBin(double x) const { if(x<a) return 0; if(!(x<b)) return n+1; return 1+int(n*(x-a)/(b-a)); } double GetBinCenter(int i) const { return a+(i-.5)*(b-a)/n; } double GetBinLowEdge(int i) const { return a+(i-1)*(b-a)/n; } double GetBinUpEdge(int i) const { return a+i*(b-a)/n; } double GetBinWidth(int) const { return (b-a)/n; } double GetXmin() const { return a; } double GetXmax() const { return b; } int GetNbins() const { return n; } void SetTitleOffset(float=1){} void SetLabelSize(float=1){} void SetTitleSize(float=1){} void SetRangeUser(double,double){} void SetNdivisions(int){} };
