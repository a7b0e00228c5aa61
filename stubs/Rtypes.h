#pragma once
typedef int Int_t; typedef double Double_t; typedef unsigned UInt_t; typedef bool Bool_t; typedef float Float_t; typedef long long Long64_t;
