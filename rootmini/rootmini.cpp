#include "TRandom3.h"
#include "TFile.h"
TRandom* gRandom = new TRandom3(); TFile* gFile = nullptr; TDirectory* gDirectory = new TDirectory();
