#pragma once
#include "Rtypes.h"
class TDirectory : public TNamed { public: std::map<std::string,TObject*> o; TObject* Get(const char* n){ auto i=o.find(n); return i==o.end() ? nullptr : i->second; } };
extern TDirectory* gDirectory;
