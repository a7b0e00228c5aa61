// The real ThreadPool (header and source) compiled over a controlled scheduler: std::thread, std::mutex, std::condition_variable,
// the lock guards and std::queue are replaced by stand-ins with the semantics the standard gives them, every operation on which is
// a scheduling point; all schedules up to a bound on preemptions are explored, and ghost counters check the contract of the pool.
#include <bits/stdc++.h>
#include <ucontext.h>
#include "AmpGen/MsgService.h"
#include "AmpGen/NamedParameter.h"
#include "AmpGen/OptionsParser.h"
namespace vs {
  struct Co { ucontext_t ctx; char* stack = nullptr; std::function<void()> fn; std::function<bool()> enabled; std::function<bool()> soft; bool done = false; int id = 0; };
  struct Choice { int n, pick; };
  std::vector<Co*> cos; Co* cur = nullptr; ucontext_t top; std::vector<Choice> trail; size_t pos = 0; int preempt = 0, spurious = 0; long steps = 0;
  int PB = 2, SP = 1; long MAXSTEPS = 20000; bool dead = false; std::string why; std::vector<std::string> log;
  const size_t STK = 128*1024; std::vector<char*> pool_of_stacks;
  [[noreturn]] void toTop(){ setcontext(&top); abort(); }
  [[noreturn]] void fail(const std::string& w){ if( !dead ){ dead = true; why = w; } toTop(); }
  int choose(int n){ if( n <= 1 ) return 0; if( pos < trail.size() ){ return trail[pos++].pick; } trail.push_back({n,0}); pos++; return 0; }
  void note(const std::string& s){ if( log.size() < 400 ) log.push_back("t"+std::to_string(cur?cur->id:-1)+" "+s); }
  void pick(bool);
  void entry(){ Co* me = cur; 
    try { me->fn(); } catch( std::exception& e ){ fail(std::string("an exception leaves a thread (std::terminate): ")+e.what()); } catch(...){ fail("an exception leaves a thread (std::terminate)"); }
    me->done = true; note("ends"); 
    pick(true); abort(); }
  // switch to some enabled coroutine; 'leave' if the current one cannot continue
  void sw(Co* to){ if( to == cur ) return; Co* from = cur; cur = to; if( from->done ) setcontext(&to->ctx); else swapcontext(&from->ctx, &to->ctx); }
  void pick(bool leave){
    if( ++steps > MAXSTEPS ) fail("no progress: the run does not end");
    std::vector<Co*> en, sf; bool curOk = false;
    for( auto c : cos ){ if( c->done ) continue; bool e = !c->enabled || c->enabled(); if( e ){ if( c == cur ) curOk = true; else en.push_back(c); } else if( c->soft && c->soft() && spurious < SP ) sf.push_back(c); }
    if( !curOk && en.empty() ){
      bool all = true; for( auto c : cos ) if( !c->done ) all = false;
      if( all ) toTop();
      std::string w = "deadlock: nothing can run, waiting:"; for( auto c : cos ) if( !c->done ) w += " t"+std::to_string(c->id); fail(w);
    }
    std::vector<Co*> opt; if( curOk ) opt.push_back(cur);
    if( !curOk || preempt < PB ) for( auto c : en ) opt.push_back(c);
    if( !curOk || preempt < PB ) for( auto c : sf ) if( c != cur ) opt.push_back(c);
    int k = choose(opt.size()); Co* to = opt[k];
    if( curOk && to != cur ) preempt++;
    for( auto c : sf ) if( c == to ) spurious++;
    sw(to);
  }
  void point(){ if( cur ) pick(false); }
  void block(std::function<bool()> en, std::function<bool()> soft = nullptr){ Co* me = cur; me->enabled = en; me->soft = soft; pick(false); me->enabled = nullptr; me->soft = nullptr; }
  Co* spawn(std::function<void()> f){ Co* c = new Co(); c->id = cos.size(); c->fn = f; if( pool_of_stacks.size() ){ c->stack = pool_of_stacks.back(); pool_of_stacks.pop_back(); } else c->stack = new char[STK];
    getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = STK; c->ctx.uc_link = nullptr; makecontext(&c->ctx, (void(*)())entry, 0); cos.push_back(c); return c; }
}
namespace std {
  struct v_mutex { vs::Co* owner = nullptr; int magic = 77; 
    ~v_mutex(){ if( owner ) vs::fail("a mutex is destroyed while it is held"); magic = 0; }
    void chk() const { if( magic != 77 ) vs::fail("a mutex is used after the pool was destroyed"); }
    void lock(){ chk(); vs::point(); vs::block([this]{ return magic != 77 || owner == nullptr; }); chk(); owner = vs::cur; }
    bool try_lock(){ chk(); vs::point(); if( owner ) return false; owner = vs::cur; return true; }
    void unlock(){ chk(); if( owner != vs::cur ) vs::fail("a mutex is released by a thread that does not hold it"); owner = nullptr; vs::point(); } };
  template<class M> struct v_unique_lock { M* m = nullptr; bool own = false; v_unique_lock() = default; explicit v_unique_lock(M& x) : m(&x) { m->lock(); own = true; } 
    v_unique_lock(M& x, std::defer_lock_t) : m(&x) {} v_unique_lock(M& x, std::adopt_lock_t) : m(&x), own(true) {}
    v_unique_lock(v_unique_lock&& o) : m(o.m), own(o.own) { o.m = nullptr; o.own = false; } 
    ~v_unique_lock(){ if( own ) m->unlock(); } void lock(){ m->lock(); own = true; } void unlock(){ m->unlock(); own = false; } bool owns_lock() const { return own; } explicit operator bool() const { return own; } M* mutex() const { return m; } };
  template<class M> struct v_lock_guard { M& m; explicit v_lock_guard(M& x) : m(x) { m.lock(); } v_lock_guard(M& x, std::adopt_lock_t) : m(x) {} ~v_lock_guard(){ m.unlock(); } };
  template<class M> struct v_scoped_lock { M& m; explicit v_scoped_lock(M& x) : m(x) { m.lock(); } ~v_scoped_lock(){ m.unlock(); } };
  struct v_condition_variable { struct W { bool notified = false; }; std::vector<W*> ws; int magic = 78;
    ~v_condition_variable(){ magic = 0; }
    void chk() const { if( magic != 78 ) vs::fail("a condition variable is used after the pool was destroyed"); }
    template<class L> void wait(L& l){ chk(); if( !l.owns_lock() ) vs::fail("waiting without holding the lock"); vs::point(); W w; ws.push_back(&w); auto m = l.mutex(); if( m->owner != vs::cur ) vs::fail("waiting on a lock another thread holds"); m->owner = nullptr;
      vs::block([&w, m]{ return w.notified && m->owner == nullptr; }, [&w, m]{ return !w.notified && m->owner == nullptr; });
      ws.erase(std::remove(ws.begin(), ws.end(), &w), ws.end()); m->owner = vs::cur; }
    template<class L, class F> void wait(L& l, F f){ while( !f() ) wait(l); }
    template<class L, class D, class F> bool wait_for(L& l, const D&, F f){ wait(l, f); return true; }
    void notify_one(){ chk(); vs::point(); std::vector<W*> c; for( auto w : ws ) if( !w->notified ) c.push_back(w); if( c.size() ) c[vs::choose(c.size())]->notified = true; vs::point(); }
    void notify_all(){ chk(); vs::point(); for( auto w : ws ) w->notified = true; vs::point(); } };
  struct v_thread { vs::Co* c = nullptr; v_thread() = default; template<class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, v_thread>>> explicit v_thread(F&& f, A&&... a){ auto g = std::bind(std::forward<F>(f), std::forward<A>(a)...); c = vs::spawn([g]() mutable { g(); }); vs::point(); }
    v_thread(v_thread&& o) noexcept : c(o.c) { o.c = nullptr; } v_thread& operator=(v_thread&& o) noexcept { if( c ) std::terminate(); c = o.c; o.c = nullptr; return *this; } v_thread(const v_thread&) = delete;
    ~v_thread(){ if( c ) std::terminate(); }
    bool joinable() const { return c != nullptr; } 
    void join(){ if( !c ) throw std::system_error(std::make_error_code(std::errc::invalid_argument), "join of a thread that is not joinable"); auto q = c; vs::block([q]{ return q->done; }); c = nullptr; }
    void detach(){ c = nullptr; } static unsigned hardware_concurrency(){ return 2; } };
  template<class T> struct v_queue { std::deque<T> d; bool empty() const { vs::point(); return d.empty(); } size_t size() const { vs::point(); return d.size(); } 
    T& front(){ vs::point(); if( d.empty() ) vs::fail("front of an empty queue"); return d.front(); } T& back(){ vs::point(); if( d.empty() ) vs::fail("back of an empty queue"); return d.back(); }
    void pop(){ vs::point(); if( d.empty() ) vs::fail("pop of an empty queue"); d.pop_front(); } template<class... A> void emplace(A&&... a){ vs::point(); d.emplace_back(std::forward<A>(a)...); } void push(T t){ vs::point(); d.push_back(std::move(t)); } void swap(v_queue& o){ vs::point(); d.swap(o.d); } };
  template<class T> void swap(v_queue<T>& a, v_queue<T>& b){ a.swap(b); }
}
#define thread v_thread
#define mutex v_mutex
#define unique_lock v_unique_lock
#define lock_guard v_lock_guard
#define scoped_lock v_scoped_lock
#define condition_variable v_condition_variable
#define queue v_queue
#define ThreadPool ThreadPoolV
#include "AmpGen/ThreadPool.h"
#include "src/ThreadPool.cpp"
#undef thread
#undef mutex
#undef queue
using namespace AmpGen;
typedef AmpGen::ThreadPoolV Pool;
#include "h.h"
namespace {
  struct Ghost { std::map<int,int> accepted, started, finished; std::map<int,std::future<int>*> fut; std::map<int,bool> throws; } *G;
  alignas(64) unsigned char arena[8192];
  Pool* make(unsigned n){ static_assert(sizeof(Pool) < sizeof(arena), "arena"); memset(arena, 0, sizeof arena); return new(arena) Pool(n); }
  int body(int id, int a, int b){ vs::note("starts task "+std::to_string(id)); if( !G->accepted[id] ) {} if( ++G->started[id] > 1 ) vs::fail("task "+std::to_string(id)+" is run twice"); vs::point(); G->finished[id]++; vs::note("ends task "+std::to_string(id)); if( G->throws[id] ) throw std::logic_error("task"); return 100*id + 10*a + b; }
  bool submit(Pool* p, int id, int a = 1, int b = 2){ try { auto f = p->enqueue([id,a,b](){ return body(id, a, b); }); G->accepted[id]++; G->fut[id] = new std::future<int>(std::move(f)); return true; } catch( std::runtime_error& e ){ return false; } }
  void allDone(const char* when){ for( auto& [id,n] : G->accepted ){ if( G->finished[id] != 1 ) vs::fail(std::string("task ")+std::to_string(id)+(G->started[id]?" has not finished ":" has not been run ")+when); } for( auto& [id,n] : G->started ) if( !G->accepted[id] && n ) vs::fail("a task that was refused is run"); }
  bool ready(int id){ return G->fut[id]->valid() && G->fut[id]->wait_for(std::chrono::seconds(0)) == std::future_status::ready; }
  void result(int id, int a = 1, int b = 2){ if( !ready(id) ) vs::fail("the future of a finished task is not ready"); 
    try { int v = G->fut[id]->get(); if( G->throws[id] ) vs::fail("the exception of a task is lost"); if( v != 100*id + 10*a + b ) vs::fail("the future holds another value than the task returned"); } catch( std::logic_error& e ){ if( !G->throws[id] || std::string(e.what()) != "task" ) vs::fail(std::string("the future holds an exception the task did not throw: ")+e.what()); } }
  void await(int id){ vs::block([id]{ return ready(id); }); }
  void scenario(const std::string& s, int nt, int k){
    Pool* p = nullptr;
    if( s == "destroy" ){ p = make(nt); for(int i=0;i<k;++i) submit(p, i, i, 2); p->~Pool(); allDone("when the pool is destroyed"); for(int i=0;i<k;++i) result(i, i, 2); }
    if( s == "wait" ){ p = make(nt); for(int i=0;i<k;++i) submit(p, i); p->waitForStoppedThreads(); allDone("when waiting returns"); for(int i=0;i<k;++i) result(i); p->~Pool(); allDone("when the pool is destroyed"); }
    if( s == "twice" ){ p = make(nt); for(int i=0;i<k;++i) submit(p, i); p->waitForStoppedThreads(); p->waitForStoppedThreads(); allDone("when waiting returns"); p->~Pool(); }
    if( s == "late" ){ p = make(nt); submit(p, 0); p->waitForStoppedThreads(); for(int i=1;i<k;++i) submit(p, i); p->~Pool(); allDone("when the pool is destroyed"); }
    if( s == "future" ){ p = make(nt); for(int i=0;i<k;++i) submit(p, i); for(int i=0;i<k;++i){ await(i); result(i); } p->~Pool(); allDone("when the pool is destroyed"); }
    if( s == "onebyone" ){ p = make(nt); for(int i=0;i<k;++i){ submit(p, i); await(i); result(i); } p->~Pool(); allDone("when the pool is destroyed"); }
    if( s == "throwing" ){ p = make(nt); for(int i=0;i<k;++i) G->throws[i] = i % 2 == 0; for(int i=0;i<k;++i) submit(p, i); p->~Pool(); allDone("when the pool is destroyed"); for(int i=0;i<k;++i) result(i); }
    if( s == "nested" ){ p = make(nt); Pool* q = p; for(int i=0;i<k;++i){ p->enqueue([q,i](){ body(i,0,0); submit(q, 10+i); }); G->accepted[i]++; } p->~Pool(); allDone("when the pool is destroyed"); }
    if( s == "together" ){ // nt tasks, each of which waits until all nt have started: needs nt workers, none of which holds the lock while it works
      p = make(nt); for(int i=0;i<nt;++i){ p->enqueue([i,nt](){ body(i,0,0); vs::block([nt]{ int n = 0; for( auto& [id,c] : G->started ) n += c; return n >= nt; }); }); G->accepted[i]++; } vs::block([nt]{ int n = 0; for( auto& [id,c] : G->finished ) n += c; return n >= nt; }); p->~Pool(); allDone("when the pool is destroyed"); }
    if( s == "atmost" ){ static int running; running = 0; p = make(nt); for(int i=0;i<k;++i){ p->enqueue([i,nt](){ if( ++running > nt ) vs::fail("more tasks at the same time than workers were asked for"); body(i,0,0); vs::point(); --running; }); G->accepted[i]++; } p->~Pool(); allDone("when the pool is destroyed"); }
    if( s == "clients" ){ p = make(nt); std::vector<std::v_thread> cl; for(int c=0;c<2;++c) cl.emplace_back([p,c,k]{ for(int i=0;i<k;++i) submit(p, 10*c+i); }); for( auto& c : cl ) c.join(); p->~Pool(); allDone("when the pool is destroyed"); for( auto& [id,f] : G->fut ) result(id); }
    if( s == "off" ){ p = make(nt); for(int i=0;i<k;++i) G->throws[i] = false; for(int i=0;i<k;++i){ submit(p, i, i, 1); if( G->finished[i] != 1 ) vs::fail("with the pool switched off a task is not run at once"); } p->~Pool(); allDone("when the pool is destroyed"); for(int i=0;i<k;++i) result(i, i, 1); }
  }
}
// args: scenario nt k preemptions max-executions
int main(int argc, char** argv){
  std::string s = argv[1]; int nt = atoi(argv[2]), k = atoi(argv[3]); vs::PB = atoi(argv[4]); long maxe = atol(argv[5]); double budget = argc > 6 ? atof(argv[6]) : 60;
  if( s == "off" ) OptionsParser::setArg("ThreadPool::Enable false");
  std::set_terminate([]{ vs::fail("std::terminate is called"); });
  long n = 0; bool complete = true; size_t deepest = 0; auto t0 = std::chrono::steady_clock::now();
  for(;;){
    vs::pos = 0; vs::preempt = vs::spurious = 0; vs::steps = 0; vs::dead = false; vs::log.clear(); for( auto c : vs::cos ){ vs::pool_of_stacks.push_back(c->stack); delete c; } vs::cos.clear();
    G = new Ghost(); volatile bool started = false; n++;
    getcontext(&vs::top);
    if( !started ){ started = true; vs::cur = vs::spawn([&]{ scenario(s, nt, k); }); setcontext(&vs::cur->ctx); }
    vs::cur = nullptr;
    deepest = std::max(deepest, vs::trail.size());
    if( vs::dead ){ std::string l; for( auto& x : vs::log ) l += (l.empty()?"":"; ")+x; std::string tr; for( auto& c : vs::trail ) tr += std::to_string(c.pick)+","; 
      printf("{\"executions\":%ld,\"fail\":%s,\"schedule\":%s,\"log\":%s}\n", n, H::js(vs::why).c_str(), H::js(tr).c_str(), H::js(l).c_str()); fflush(stdout); _exit(0); }
    for( auto& [i,f] : G->fut ) delete f; delete G;
    while( vs::trail.size() && vs::trail.back().pick + 1 >= vs::trail.back().n ) vs::trail.pop_back();
    if( vs::trail.empty() ) break;
    vs::trail.back().pick++;
    if( n >= maxe || std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count() > budget ){ complete = false; break; }
  }
  printf("{\"executions\":%ld,\"complete\":%s,\"deepest\":%zu}\n", n, complete?"true":"false", deepest); fflush(stdout); _exit(0);
}
