#pragma once
// Minimal functional stand-in for the parts of CERN ROOT (not installed here) that AmpGen's sources call; written from ROOT's documentation.
#include <string>
#include <vector>
#include <map>
#include <cmath>
#include <cstring>
#include <random>
typedef int Int_t; typedef double Double_t; typedef unsigned UInt_t; typedef bool Bool_t; typedef float Float_t; typedef long long Long64_t; typedef unsigned long long ULong64_t; typedef char Char_t; typedef const char Option_t; typedef short Color_t; typedef long Long_t; typedef unsigned long ULong_t;
enum { kWhite=0, kBlack=1, kGray=920, kRed=632, kGreen=416, kBlue=600, kYellow=400, kMagenta=616, kCyan=432, kOrange=800 };
class TObject { public: virtual ~TObject() = default; virtual const char* GetName() const { return ""; } virtual void Print(const char* = "") const {} virtual int Write(const char* = "") const { return 0; } };
class TNamed : public TObject { protected: std::string m_n, m_t; public: TNamed(const char* n="", const char* t="") : m_n(n), m_t(t) {} const char* GetName() const override { return m_n.c_str(); } const char* GetTitle() const { return m_t.c_str(); } void SetName(const char* n){ m_n=n; } void SetTitle(const char* t){ m_t=t; } };
