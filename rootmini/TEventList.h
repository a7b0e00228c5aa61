#pragma once
#include "Rtypes.h"
class TEventList : public TNamed { public: std::vector<long long> e; int GetN() const { return e.size(); } long long GetEntry(int i) const { return e[i]; } };
