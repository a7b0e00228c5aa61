// event lists, scalar and vectorised, trees and projections.  One process per command (H_SCRIPT: tab separated fields).
#include "h.h"
#include "AmpGen/EventList.h"
#include "AmpGen/EventListSIMD.h"
#include "AmpGen/EventType.h"
#include "AmpGen/Projection.h"
#include "AmpGen/Store.h"
#include "AmpGen/TreeReader.h"
#include "TTree.h"
#include "TFile.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace AmpGen; using namespace H;
static std::string ks(long a){ return std::to_string(a); }
static std::string ev(const Event& e, unsigned n){ std::string s="[["; for(unsigned i=0;i<n;++i) s+=(i?",":"")+num(e[i]); return s+"],"+num(e.weight())+","+num(e.genPdf())+","+ks(e.index())+"]"; }
static Event mk(unsigned k, unsigned nf){ Event e(nf); for(unsigned f=0;f<nf;++f) e[f]=1000.*k+f+0.25; e.setWeight(0.5+k); e.setGenPdf(2.+k); e.setIndex(777); return e; }
static EventType type(const std::string& a, const std::string& td){ return EventType(split(a,' '), td=="1"); }
static EventList make(const EventType& t, unsigned n, unsigned off=0, unsigned extra=0){ EventList l(t); for(unsigned i=0;i<n;++i){ auto e=mk(i+off,t.eventSize()+extra); if(i%2) l.push_back(e); else l.emplace_back(e); } return l; }
template <class L> static std::string all(const L& l, unsigned nf, int how=0){ std::string s="["; bool f=true; if(how==0) for(unsigned i=0;i<l.size();++i){ s+=(f?"":",")+ev(l[i],nf); f=false; } else if(how==1) for(const auto& e: l){ s+=(f?"":",")+ev(e,nf); f=false; } else for(unsigned i=0;i<l.size();++i){ s+=(f?"":",")+ev(l.at(i),nf); f=false; } return s+"]"; }
static std::string lanes(const EventListSIMD& l){ std::string s="["; for(unsigned b=0;b<l.nBlocks();++b){ s+=b?",[":"["; for(unsigned k=0;k<real_v::size;++k) s+=(k?",[":"[")+num(l.weight(b).at(k))+","+num(l.genPDF(b).at(k))+"]"; s+="]"; } return s+"]"; }
static std::string blocks(EventListSIMD& l){ std::string s="["; for(unsigned b=0;b<l.nBlocks();++b){ s+=b?",[":"["; for(unsigned f=0;f<l.nFields();++f){ s+=f?",[":"["; for(unsigned k=0;k<real_v::size;++k) s+=(k?",":"")+num(l.block(b)[f].at(k)); s+="]"; } s+="]"; } return s+"]"; }
static std::string hist(const TH1* h){ std::string s="["; for(unsigned i=0;i<h->c.size();++i) s+=(i?",":"")+num(h->c[i]); return s+"]"; }
static std::vector<size_t> idx(const std::string& s){ std::vector<size_t> r; if(s!="-") for(auto& x: split(s,',')) r.push_back(atoi(x.c_str())); return r; }
struct fx { std::string n; unsigned k; std::string name() const { return n; } unsigned returnTypeSize() const { return k*sizeof(complex_v); } };
struct fr { std::string n; unsigned k; std::string name() const { return n; } unsigned returnTypeSize() const { return k*sizeof(real_t); } };
template <class ST, class F, Alignment A> static std::string store(const std::vector<std::string>& a){ std::vector<F> fs; for(size_t i=2;i<a.size();++i){ auto q=split(a[i],':'); fs.push_back({q[0],unsigned(atoi(q[1].c_str()))}); } unsigned n=atoi(a[1].c_str());
  Store<ST,A> s(n, fs); std::string r="{\"size\":"+ks(s.size())+",\"raw\":"+ks(s.size_raw())+",\"nb\":"+ks(s.nBlocks())+",\"nf\":"+ks(s.nFields())+",\"al\":"+ks(s.aligned_size())+",\"idx\":{"; bool f=true; for(auto& x: fs){ auto v=s.find(x.n); r+=(f?"":",")+js(x.n)+":["; for(size_t i=0;i<v.size();++i) r+=(i?",":"")+ks(v[i]); r+="]"; f=false; } r+="},\"pos\":["; f=true; const auto& cs=s; bool same=true;
  for(unsigned b=0;b<s.nBlocks();++b) for(unsigned k=0;k<s.nFields();++k){ r+=(f?"":",")+ks(&s(b,k)-s.data()); same=same && &cs(b,k)==&s(b,k); f=false; } r+="],\"same\":"+ks(same); s.resize(n+5); r+=",\"nb2\":"+ks(s.nBlocks())+",\"raw2\":"+ks(s.size_raw())+",\"sz2\":"+ks(s.size()); 
  for(auto& x: fs) s.addFunctor(x); r+=",\"nf2\":"+ks(s.nFields()); s.resize(n,3); return r+",\"raw3\":"+ks(s.size_raw())+",\"nf3\":"+ks(s.nFields())+"}"; }
static std::string run(const std::vector<std::string>& a){
  auto& c=a[0];
  if(c=="store"){ auto b=a; b.erase(b.begin()); if(b[0]=="cs") return store<complex_v,fx,Alignment::SoA>(b); if(b[0]=="ca") return store<complex_v,fx,Alignment::AoS>(b); if(b[0]=="rs") return store<real_t,fr,Alignment::SoA>(b); return store<real_t,fr,Alignment::AoS>(b); }
  auto t=type(a[1],a[2]); unsigned n=atoi(a[3].c_str()), nf=t.eventSize();
  if(c=="list"){ auto l=make(t,n); std::string s="{\"a\":"+all(l,nf)+",\"b\":"+all(l,nf,1)+",\"c\":"+all(l,nf,2)+",\"int\":"+num(l.integral())+",\"w\":["; for(unsigned i=0;i<n;++i) s+=(i?",[":"[")+num(l.weight(i))+","+num(l.genPDF(i))+"]";
    auto m=make(t,3,50); l.add(m); s+="],\"add\":"+all(l,nf); auto l2=l; l2.filter([](const Event& e){ return int(e.weight())%3==0; }); s+=",\"filter\":"+all(l2,nf)+",\"count\":"+ks(l.count([](const Event& e){ return int(e.weight())%3==0; })); auto l3=l; if(n>2) l3.erase(l3.begin()+1,l3.begin()+n-1); s+=",\"erase\":"+all(l3,nf); l3.transform([](Event& e){ e[0]=-e[0]; e.setWeight(9); }); s+=",\"tr\":"+all(l3,nf); if(n){ l.setWeight(n-1,3.25,1.75); l.setGenPDF(0,8.5); } s+=",\"set\":"+all(l,nf); l.clear(); return s+",\"clear\":"+ks(l.size())+"}"; }
  if(c=="simd"){ auto l=make(t,n); EventListSIMD v(l); const EventListSIMD& cv=v; std::string s="{\"size\":"+ks(v.size())+",\"al\":"+ks(v.aligned_size())+",\"nb\":"+ks(v.nBlocks())+",\"nf\":"+ks(v.nFields())+",\"a\":"+all(cv,nf)+",\"b\":"+all(cv,nf,1)+",\"c\":"+all(cv,nf,2)+",\"lanes\":"+lanes(v)+",\"blk\":"+blocks(v); s+=",\"nc\":["; bool f=true; for(auto& e: v){ s+=(f?"":",")+ev(e,nf); f=false; } s+="]"; 
    v.transform([](Event& e){ e[1]=-e[1]; e.setWeight(e.weight()+0.125); e.setGenPdf(e.genPdf()*2); }); s+=",\"tr\":"+all(cv,nf)+",\"trl\":"+lanes(v); if(n) v.setWeight(0, real_v(1.,2.,3.,4.), real_v(5.,6.,7.,8.)); s+=",\"set\":"+lanes(v); { EventListSIMD q(l); q.clear(); s+=",\"cl\":["+ks(q.size())+","+ks(q.nBlocks()); auto tr=l.tree("x"); q.loadFromTree(tr,ArgumentPack()); s+=","+ks(q.size())+"]"; } auto m=EventListSIMD::makeEvent(l.size()?l[0]:mk(0,nf)); s+=",\"me\":["; for(unsigned i=0;i<m.size();++i){ s+=i?",[":"["; for(unsigned k=0;k<4;++k) s+=(k?",":"")+num(m[i].at(k)); s+="]"; } return s+"]}"; }
  if(c=="tree"){ auto l=make(t,n,0,a.size()>5?1:0); if(a.size()>5){ l.extend("extra",nf); } auto tr=l.tree("DalitzEventList"); std::string s="{\"n\":"+ks(tr->GetEntries())+",\"title\":"+js(tr->GetTitle())+",\"br\":["; bool f=true; for(auto b: tr->b){ s+=(f?"":",")+js(b->GetName()); f=false; } s+="]"; auto file=new TFile(); file->o["DalitzEventList"]=tr; file->o["Other"]=tr; TFile::all()["f.root"]=file; 
    auto el=idx(a[4]); auto xn=nf+(a.size()>5?1:0); { EventList m(tr,t,WeightBranch("weight"),EntryList(el),ExtraBranches(a.size()>5?std::vector<std::string>{"extra"}:std::vector<std::string>{})); s+=",\"back\":"+all(m,xn)+",\"bsz\":"+ks(m.size()?m[0].size():xn)+",\"key\":"+ks(a.size()>5?m.key("extra"):0); } { EventList m("f.root:Other",t,EntryList(el),GetGenPdf(false)); s+=",\"plain\":"+all(m,nf); } { EventList m(std::string("f.root")); s+=",\"auto\":"+all(m,nf)+",\"autot\":"+js(m.eventType().decayDescriptor())+",\"td\":"+ks(m.eventType().isTimeDependent()); } { EventList m(std::vector<std::string>{"f.root","f.root"},t); s+=",\"two\":"+all(m,nf); }
    if(a.size()<=5){ { EventListSIMD m(tr,t,WeightBranch("weight"),EntryList(el)); s+=",\"sback\":"+all(m,nf)+",\"sl\":"+lanes(m); } { EventListSIMD m("f.root:Other",t,EntryList(el),GetGenPdf(false)); s+=",\"splain\":"+all(m,nf); } { EventListSIMD m(std::string("f.root")); s+=",\"sauto\":"+all(m,nf); } { EventListSIMD m(std::vector<std::string>{"f.root","f.root"},t); s+=",\"stwo\":"+all(m,nf)+",\"stl\":"+lanes(m); } { EventListSIMD v(l); auto t2=v.tree("DalitzEventList"); EventList m(t2,t,WeightBranch("weight")); s+=",\"sw\":"+all(m,nf)+",\"st\":"+js(t2->GetTitle()); } }
    return s+"}"; }
  if(c=="branches"){ // momenta under other names, without energies, in other units, in another order with particle numbers
    EventType tt=t; auto l=make(t,n); auto src=new TTree("x","x"); std::vector<double> d(4*t.size()); std::vector<float> fl(4*t.size()); std::vector<int> id(t.size()); std::vector<std::string> nm, ids; const char* cm[]={"A","B","C","D"}; for(unsigned p=0;p<t.size();++p){ for(unsigned k=0;k<3;++k){ auto b=std::string("p")+ks(p)+cm[k]; nm.push_back(b); src->Branch(b.c_str(), (p%2)? (void*)nullptr==nullptr ? &d[4*p+k] : nullptr : &d[4*p+k]); } ids.push_back("id"+ks(p)); src->Branch(ids.back().c_str(), &id[p]); } double w=0; src->Branch("ww",&w);
    auto pid=idx(a[4]); for(unsigned i=0;i<n;++i){ for(unsigned p=0;p<t.size();++p){ for(unsigned k=0;k<3;++k) d[4*p+k]=1000.*(i+1)+100*p+10*k; id[p]=atoi(split(a[5],',')[p].c_str()); } w=i+0.5; src->Fill(); }
    std::string s="{"; { EventList m(src,t,Branches(nm),WeightBranch("ww"),GetGenPdf(false)); s+="\"a\":"+all(m,nf); } { EventList m(src,t,Branches(nm),InputUnits(Units::MeV),GetGenPdf(false)); s+=",\"mev\":"+all(m,nf); } { EventList m(src,t,Branches(nm),IdBranches(ids),GetGenPdf(false)); s+=",\"id\":"+all(m,nf); }
    { EventList m(src,t,Branches(nm),InputUnits(Units::MeV),ExtraBranches(std::vector<std::string>{"ww"}),GetGenPdf(false)); s+=",\"ex\":"+all(m,nf+1); } { EventList m(src,t,Branches(nm),ApplySym(true),GetGenPdf(false)); s+=",\"sy\":"+all(m,nf); } { EventList m(src,t,Branches(nm),ApplySym(true),IdBranches(ids),InputUnits(Units::MeV),GetGenPdf(false)); s+=",\"sid\":"+all(m,nf); } return s+"}"; }
  if(c=="proj"){ auto l=make(t,n); EventListSIMD v(l); Projection p([](const Event& e){ return int(e.weight())*0.1+0.05; },"x","x",8,0.,0.8), q([](const Event& e){ return int(e.weight())%3+0.5; },"y","y",4,0.,4.); auto wf=std::function<double(const Event&)>([](const Event& e){ return e[0]+1; }); auto sel=std::function<bool(const Event&)>([](const Event& e){ return int(e.weight())%2==0; });
    std::string s="{\"p\":"+hist(l.makeProjection(p))+",\"pw\":"+hist(l.makeProjection(p,WeightFunction(wf)))+",\"ps\":"+hist(l.makeProjection(p,PlotOptions::Selection(sel)))+",\"psw\":"+hist(l.makeProjection(p,PlotOptions::Selection(sel),WeightFunction(wf)))+",\"pi\":"+hist(p(l))+",\"piw\":"+hist(p(l,WeightFunction(wf)))+",\"pis\":"+hist(p(l,PlotOptions::Selection(sel)));
    s+=",\"vp\":"+hist(v.makeProjection(p))+",\"vpw\":"+hist(v.makeProjection(p,WeightFunction(wf)))+",\"vps\":"+hist(v.makeProjection(p,PlotOptions::Selection(sel)))+",\"vpsw\":"+hist(v.makeProjection(p,PlotOptions::Selection(sel),WeightFunction(wf)));
    s+=",\"bf\":["; auto bf=p.binFunctor(); for(unsigned i=0;i<n;++i) s+=(i?",":"")+ks(bf(l[i])); s+="]";
    Projection2D p2(p,q); auto S=PlotOptions::Selection(sel); auto W=WeightFunction(wf);
    s+=",\"q\":"+hist(l.makeProjection(p2))+",\"qw\":"+hist(l.makeProjection(p2,W))+",\"qs\":"+hist(l.makeProjection(p2,S))+",\"qsw\":"+hist(l.makeProjection(p2,S,W))+",\"qi\":"+hist(p2(l))+",\"qiw\":"+hist(p2(l,W))+",\"qis\":"+hist(p2(l,S))+",\"qisw\":"+hist(p2(l,W,S));
    s+=",\"vq\":"+hist(v.makeProjection(p2))+",\"vqw\":"+hist(v.makeProjection(p2,W))+",\"vqs\":"+hist(v.makeProjection(p2,S))+",\"vqsw\":"+hist(v.makeProjection(p2,S,W))+",\"vqi\":"+hist(p2(v))+",\"vqiw\":"+hist(p2(v,W))+",\"vqis\":"+hist(p2(v,S))+",\"vqisw\":"+hist(p2(v,W,S));
    KeyedFunctors<double(Event)> kf; kf.add([](const Event& e){ return e[0]+1; },"one"); kf.add([](const Event& e){ return e.weight()/4; },"two"); kf.add([](const Event& e){ return 2.; },"three");
    auto stack=[&](const std::string& k, const std::tuple<std::vector<TH1D*>,THStack*>& r){ s+=",\""+k+"\":["; bool f=true; for(auto h: std::get<0>(r)){ s+=(f?"":",")+hist(h); f=false; } s+="],\""+k+"n\":"+ks(std::get<1>(r)->GetHists()->size()); };
    stack("kf",p(l,kf)); stack("kfr",p(l,kf,PlotOptions::Norm(-1))); stack("kfs",p(l,kf,S,PlotOptions::Norm(3.5))); stack("vkf",p(v,kf)); stack("vkfr",p(v,kf,PlotOptions::Norm(-1))); stack("vkfs",p(v,kf,S,PlotOptions::Norm(3.5)));
    Projection o([](const Event& e){ return int(e.weight())*0.2-0.45; },"o","o",6,-.5,0.7); auto of=o.binFunctor(); s+=",\"of\":["; for(unsigned i=0;i<n && i<6;++i) s+=(i?",":"")+ks(of(l[i])); s+="],\"o\":"+hist(o(l))+",\"vo\":"+hist(o(v)); o.setRange(-.5,1.9); auto og=o.binFunctor(); s+=",\"og\":["; for(unsigned i=0;i<n && i<12;++i) s+=(i?",":"")+ks(og(l[i])); s+="],\"o2\":"+hist(o(l));
    { std::vector<Projection> ps={p,o}; auto h=l.makeProjections(ps); auto g=v.makeProjections(ps,W); s+=",\"mp\":["+hist(h[0])+","+hist(h[1])+"],\"vmp\":["+hist(g[0])+","+hist(g[1])+"]"; }
    return s+"}"; }
  return "\"?\""; }
CASE("script", std::ifstream f(getenv("H_SCRIPT")); std::string ln; unsigned k=0; while(std::getline(f,ln)){ std::vector<std::string> a; std::string cur; for(char ch: ln){ if(ch=='\t'){ a.push_back(cur); cur.clear(); } else cur+=ch; } a.push_back(cur);
  std::string tmp="o"+ks(k); fflush(stdout); pid_t pid=fork(); if(pid==0){ std::string r; try { r=run(a); } catch(std::exception& e){ r="{\"exception\":"+js(e.what())+"}"; } { std::ofstream o(tmp); o<<r; } _exit(0); }
  int st=0; waitpid(pid,&st,0); std::string r; if(WIFEXITED(st)&&WEXITSTATUS(st)==0){ std::ifstream i(tmp); std::getline(i,r); } else r="{\"crash\":"+ks(st)+"}"; unlink(tmp.c_str()); outj("r"+ks(k++),r); } )
HMAIN
