#pragma once
#include "TAxis.h"
class TF2 : public TNamed { public: using TNamed::TNamed; TAxis a; int SetPoint(int,double,double){ return 0; } int GetN() const { return 0; } TAxis* GetXaxis(){ return &a; } TAxis* GetYaxis(){ return &a; } };
