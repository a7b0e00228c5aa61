#pragma once
#include "TH1.h"
class TList : public std::vector<TObject*> { public: TObject* At(int i) const { return (*this)[i]; } int GetEntries() const { return size(); } }; typedef TList TObjArray;
class THStack : public TNamed { public: TList h; using TNamed::TNamed; void Add(TH1* x,const char* =""){ h.push_back(x); } TList* GetHists(){ return &h; } };
