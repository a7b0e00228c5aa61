#pragma once
#include "Rtypes.h"
#include "THStack.h"
#include <functional>
template <class T> inline const char* rm_type();
template <> inline const char* rm_type<double>(){ return "Double_t"; } template <> inline const char* rm_type<float>(){ return "Float_t"; } template <> inline const char* rm_type<int>(){ return "Int_t"; } template <> inline const char* rm_type<unsigned>(){ return "UInt_t"; } template <> inline const char* rm_type<bool>(){ return "Bool_t"; } template <> inline const char* rm_type<unsigned long long>(){ return "ULong64_t"; }
class TLeaf : public TNamed { public: using TNamed::TNamed; const char* GetTypeName() const { return m_t.c_str(); } };
class TBranch : public TNamed { public: using TNamed::TNamed; std::string type; unsigned sz=8; const void* src=nullptr; void* dst=nullptr; bool on=true; std::vector<std::string> data; };
class TTree : public TNamed { public: std::vector<TBranch*> b; TObjArray l; long long n=0; std::vector<std::function<void()>> drawn; using TNamed::TNamed; 
  TBranch* find(const std::string& s) const { for(auto x : b) if(x->GetName()==s) return x; return nullptr; }
  template <class T> TBranch* Branch(const char* name, T* p){ auto x=new TBranch(name,name); x->type=rm_type<typename std::remove_const<T>::type>(); x->sz=sizeof(T); x->src=p; b.push_back(x); l.push_back(x); return x; }
  int Fill(){ for(auto x : b) x->data.emplace_back((const char*)x->src, x->sz); ++n; return 1; } long long GetEntries() const { return n; }
  int GetEntry(long long i){ if(i<0||i>=n) return 0; for(auto x : b) if(x->on&&x->dst) memcpy(x->dst,x->data[i].data(),x->sz); return 1; }
  TLeaf* GetLeaf(const char* s) const { auto x=find(s); return x ? new TLeaf(s,x->type.c_str()) : nullptr; } TObjArray* GetListOfBranches(){ return &l; }
  void SetBranchStatus(const char* s, bool on){ std::string t=s; for(auto x : b) if(t=="*"||t==x->GetName()) x->on=on; } void SetBranchStatus(const char* s, const char* on){ SetBranchStatus(s, on!=nullptr); } void SetBranchStatus(const char* s,int on){ SetBranchStatus(s,on!=0); }
  int SetBranchAddress(const char* s, void* p){ auto x=find(s); if(x) x->dst=p; return x?0:-1; } long long Draw(const char*, const char* ="", const char* =""){ return 0; } };
