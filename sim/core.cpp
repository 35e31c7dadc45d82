#include "sim.h"
#include "api.h"
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <getopt.h>
#include <pthread.h>
#include <sys/mman.h>
#include <algorithm>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

const char* const g_faultNames[F_N] = { "spurious_wakeup","preemption","short_read","short_write","small_socket_buffer","network_delay",
 "connection_reset","client_crash","router_crash","connect_refused","stalled_thread_or_process","wall_clock_step","disk_full",
 "disk_open_failure","torn_or_corrupt_file","slow_or_silent_provider","hostile_bytes","connection_close_by_peer","pid_reuse","socket_creation_failure","interrupted_call" };

Shared* g_sh; unsigned char* g_cov; RunSpec g_spec; Knobs K;
i64 g_now=1000*SEC; i64 g_realOff=1700000000LL*SEC; std::vector<Node*> g_nodes; std::vector<Fiber*> g_fibers; Fiber* g_cur; u64 g_steps;
static bool g_active=false;

// ---------- rng --------------------------------------------------------------
static u64 s_rng[ST_N];
static inline u64 splitmix(u64& x){ u64 z=(x+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
static u32 recPut(Stream s,u32 v){
  u32 i=g_sh->len[s];
  if(i>=ST_CAP[s]) finishRun(RS_TRUNCATED);
  g_sh->rec[s][i]=v; g_sh->len[s]=i+1; if(v) g_sh->nz[s]++;
  return v;
}
static inline bool replaying(Stream s,u32& v){
  if(!g_spec.replay) return false;
  u32 i=g_sh->len[s]; v = i<g_spec.rep[s].size()? g_spec.rep[s][i]:0; return true;
}
static inline u32 rnd(Stream s,u32 n){ return n<=1?0:(u32)((splitmix(s_rng[s])>>11)%n); }
u32 choose(Stream s,u32 n){ u32 v; if(n<=1) return 0; if(replaying(s,v)) v = v<n? v : v%n; else v=rnd(s,n); return recPut(s,v); }
u32 choosew(Stream s,u32 n,u32 w0,u32 wrest){ u32 v; if(n<=1) return 0;
  if(replaying(s,v)) v=v<n?v:v%n; else if(rnd(s,w0+wrest)<w0) v=0; else v=1+rnd(s,n-1); return recPut(s,v); }
bool chance(Stream s,u32 num,u32 den){ if(!num) return false; u32 v; if(replaying(s,v)) v=v?1:0; else v=rnd(s,den)<num; return recPut(s,v)!=0; }
i64 chooseRange(Stream s,i64 lo,i64 hi){ if(hi<=lo) return lo; u64 span=hi-lo+1; u32 v; const u32 Q=1u<<20;
  if(span<=Q){ return lo+choose(s,(u32)span); }
  if(replaying(s,v)) v%=Q; else v=rnd(s,Q); recPut(s,v); return lo+(i64)((__int128)span*v/Q); }

// ---------- reporting ----------------------------------------------------------
void mixHash(u64 v){ u64 h=g_sh->hash; h^=v+0x9E3779B97F4A7C15ULL+(h<<6)+(h>>2); h*=0x100000001b3ULL; g_sh->hash=h; }
static void mixSkel(u64 v){ u64 h=g_sh->skelHash; h^=v; h*=0x100000001b3ULL; h^=h>>29; g_sh->skelHash=h; }
static u64 hstr(const char*s){ u64 h=1469598103934665603ULL; for(;*s;s++){h^=(unsigned char)*s;h*=1099511628211ULL;} return h; }
std::string strf(const char* fmt,...){ char b[2048]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a); return b; }
static FILE* s_vout;
void trace(const char* fmt,...){ if(!g_spec.verbose) return; va_list a; va_start(a,fmt); fprintf(s_vout,"%12.6f %-10s ",(g_now-1000*SEC)/1e9,g_cur?(g_cur->node?g_cur->node->name.c_str():"admin"):"-"); fprintf(s_vout,"%-14s ",g_cur?g_cur->name.c_str():""); vfprintf(s_vout,fmt,a); va_end(a); fputc('\n',s_vout); fflush(s_vout); }
void logev(const char* fmt,...){ char b[1024]; va_list a; va_start(a,fmt); vsnprintf(b,sizeof b,fmt,a); va_end(a);
  mixHash(hstr(b)); 
  size_t l=strlen(g_sh->sample); if(l+strlen(b)+48<sizeof g_sh->sample){ snprintf(g_sh->sample+l,sizeof g_sh->sample-l,"%.3fs %s: %s; ",(g_now-1000*SEC)/1e9,(g_cur&&g_cur->node)?g_cur->node->name.c_str():"sim",b); }
  trace("%s",b); }
void opCount(){ g_sh->ops++; }
void finishRun(RunStatus s){ g_active=false; g_sh->simTime=g_now-1000*SEC; g_sh->steps=g_steps; g_sh->status=s; if(s_vout) fflush(s_vout); _exit(s==RS_OK?0:10+s); }
void violate(const std::string& cls,const char* fmt,...){ va_list a; va_start(a,fmt); vsnprintf(g_sh->msg,sizeof g_sh->msg,fmt,a); va_end(a);
  snprintf(g_sh->cls,sizeof g_sh->cls,"%s",cls.c_str()); mixHash(hstr(g_sh->cls)); trace("VIOLATION %s: %s",cls.c_str(),g_sh->msg);
  if(g_spec.verbose) trace("%s",describeFibers().c_str());
  finishRun(RS_VIOLATION); }
void internalError(const char* fmt,...){ va_list a; va_start(a,fmt); vsnprintf(g_sh->msg,sizeof g_sh->msg,fmt,a); va_end(a); snprintf(g_sh->cls,sizeof g_sh->cls,"internal"); trace("INTERNAL %s",g_sh->msg); finishRun(RS_INTERNAL); }
std::string describeFibers(){ std::string o; for(auto f:g_fibers){ if(f->st==Fiber::DEAD) continue; o+=strf("  fiber %d %s/%s %s on %s",f->id,f->node?f->node->name.c_str():"admin",f->name.c_str(),f->st==Fiber::RUNNABLE?"runnable":"blocked",f->st==Fiber::BLOCKED?f->waitWhat:"-"); if(f->held.size()) o+=strf(" holds %zu mutex(es)",f->held.size()); if(f->deadline>=0) o+=strf(" until %.3f",(f->deadline-1000*SEC)/1e9); o+="\n"; } return o; }

// ---------- guards (operation deadlines) ---------------------------------------
struct GuardRec { std::string what; i64 deadline; Node* n; };
static std::multimap<i64,GuardRec*> s_guards;
OpGuard::OpGuard(const std::string& what,i64 limit){ auto g=new GuardRec{what,g_now+limit,curNode()}; s_guards.insert({g->deadline,g}); rec=g; t0=g_now; opCount(); }
static void guardDrop(GuardRec* g){ for(auto it=s_guards.lower_bound(g->deadline); it!=s_guards.end()&&it->first==g->deadline; ++it) if(it->second==g){ s_guards.erase(it); break; } delete g; }
OpGuard::~OpGuard(){ if(rec) guardDrop((GuardRec*)rec); }
static void guardCheck(){ while(!s_guards.empty() && g_now>s_guards.begin()->first){ auto g=s_guards.begin()->second;
    if(g->n && !g->n->alive){ s_guards.erase(s_guards.begin()); continue; }
    violate("stuck:"+g->what,"operation '%s' in %s did not complete within its bound (now %.3fs)\n%s",g->what.c_str(),g->n?g->n->name.c_str():"sim",(g_now-1000*SEC)/1e9,describeFibers().c_str()); } }

// ---------- timers ---------------------------------------------------------------
static std::multimap<i64,std::function<void()>> s_timers;
void at(i64 t,std::function<void()> fn){ s_timers.insert({t,std::move(fn)}); }

// ---------- context switch --------------------------------------------------------
extern "C" void sim_switch(void** from,void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
static const size_t STK=768*1024;
i64 g_budget=1LL<<60; static bool g_budgetPreempt=false;
static void fiberExit(Fiber* f);
static void fiberMain(){
  __sanitizer_finish_switch_fiber(nullptr,nullptr,nullptr);
  Fiber* f=g_cur; errno=0;
  if(f->start) f->ret=f->start(f->startArg); else f->fn();
  fiberExit(f);
  abort();
}
static Fiber* newFiber(Node* n,const std::string& name){
  Fiber* f=new Fiber; static int s_ids=1; f->id=s_ids++; f->node=n; f->name=name; f->stackSize=STK;
  f->stack=(char*)mmap(nullptr,STK+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(f->stack==MAP_FAILED) internalError("mmap stack");
  mprotect(f->stack,4096,PROT_NONE); f->stack+=4096;
  void** sp=(void**)(f->stack+STK-64); sp=(void**)((uintptr_t)sp & ~15ULL);
  *--sp=nullptr; *--sp=(void*)fiberMain; for(int i=0;i<6;i++) *--sp=nullptr;
  f->sp=sp; f->prio=1+rnd(ST_SCHED,1000000); f->windowStart=g_now;
  g_fibers.push_back(f); if(f->id>6000||g_fibers.size()>1500) finishRun(RS_TRUNCATED);
  return f;
}
static int s_spawned;
void fiberStartThread(Fiber* f){ (void)f; }
static void switchTo(Fiber* t){
  Fiber* c=g_cur; if(t==c) return;
  g_sh->switches++;
  c->err=errno; g_cur=t;
  bool dead = c->st==Fiber::DEAD;
  __sanitizer_start_switch_fiber(dead?nullptr:&c->fake,t->stack,t->stackSize);
  sim_switch(&c->sp,t->sp);
  __sanitizer_finish_switch_fiber(g_cur->fake,nullptr,nullptr);
  errno=g_cur->err;
}

// ---------- scheduler ---------------------------------------------------------------
static i64 effDeadline(Fiber* f){ return f->deadline<0?-1:(f->deadlineReal? f->deadline-g_realOff : f->deadline); }
static u64 s_pctChange[8]; static u32 s_pctLow=0;
static void fireTimers(){ while(!s_timers.empty() && s_timers.begin()->first<=g_now){ auto fn=std::move(s_timers.begin()->second); s_timers.erase(s_timers.begin()); fn(); }
  for(auto f:g_fibers) if(f->st==Fiber::BLOCKED && f->deadline>=0 && effDeadline(f)<=g_now){ f->st=Fiber::RUNNABLE; f->timedOut=true; f->woken=false; } }
static bool eligible(Fiber* f){ return f->st==Fiber::RUNNABLE && f->pausedUntil<=g_now && (!f->node || f->node->pausedUntil<=g_now); }
static u32 s_pauseCount;
static bool s_anyDead;
static void schedule(const char* point){
  std::vector<Fiber*>& fs=g_fibers; static Fiber* list[1600]; int n;
  g_steps++;
  if(s_anyDead){ s_anyDead=false; fs.erase(std::remove_if(fs.begin(),fs.end(),[](Fiber*f){return f->st==Fiber::DEAD;}),fs.end()); }
  if(g_steps>K.maxSteps || g_now-1000*SEC>K.maxSim) finishRun(RS_TRUNCATED);
  g_now+=K.stepCost; 
  for(;;){
    fireTimers(); guardCheck();
    n=0; for(auto f:fs) if(eligible(f)) list[n++]=f;
    if(n) break;
    i64 next=-1;
    if(!s_timers.empty()) next=s_timers.begin()->first;
    for(auto f:fs){ i64 d=-1;
      if(f->st==Fiber::BLOCKED) d=effDeadline(f);
      else if(f->st==Fiber::RUNNABLE){ d=f->pausedUntil; if(f->node && f->node->pausedUntil>d) d=f->node->pausedUntil; }
      if(d>=0 && (next<0 || d<next)) next=d; }
    if(next<0) violate("deadlock:global","nothing can run and no timer is pending\n%s",describeFibers().c_str());
    if(!s_guards.empty() && s_guards.begin()->first<next && s_guards.begin()->first>=g_now) next=s_guards.begin()->first+1;
    if(next>g_now) g_now=next; 
    if(g_now-1000*SEC>K.maxSim) finishRun(RS_TRUNCATED);
  }
  // order: current first, then least recently run
  Fiber* c=g_cur;
  std::sort(list,list+n,[c](Fiber*a,Fiber*b){ if(a==b) return false; if(a==c) return true; if(b==c) return false; if(a->lastRun!=b->lastRun) return a->lastRun<b->lastRun; return a->id<b->id; });
  u32 idx=0;
  if(n>1){
    u32 v; bool curFirst = list[0]==c;
    if(replaying(ST_SCHED,v)) idx=v%n;
    else if(K.policy==0) idx=rnd(ST_SCHED,n);
    else if(K.policy==1){ if(curFirst && rnd(ST_SCHED,K.stickDen)<K.stickNum) idx=0; else idx=rnd(ST_SCHED,n); }
    else { // PCT
      for(auto s:s_pctChange) if(s==g_steps){ Fiber* best=list[0]; for(int i=1;i<n;i++) if(list[i]->prio>best->prio) best=list[i]; best->prio=0; }
      for(int i=1;i<n;i++) if(list[i]->prio>list[idx]->prio) idx=i;
      if(list[idx]==c && ++s_pctLow>400){ c->prio=rnd(ST_SCHED,1000); s_pctLow=0; } else if(list[idx]!=c) s_pctLow=0;
    }
    recPut(ST_SCHED,idx);
  }
  Fiber* t=list[idx];
  t->lastRun=g_steps;
  if(g_now-t->windowStart>SEC){ t->windowStart=g_now; t->stepsInWindow=0; }
  if(++t->stepsInWindow>K.busyLimit && t->node) violate("busyloop","thread %s/%s ran %llu scheduling steps within one simulated second at %s",t->node->name.c_str(),t->name.c_str(),(unsigned long long)t->stepsInWindow,point);
  if(t!=c) mixSkel((u64)t->id*1315423911u ^ hstr(point));
  mixHash(((u64)t->id<<40)^(u64)g_now);
  // preemption budget for this slice
  g_budget=K.blockLimit; g_budgetPreempt=false;
  if(K.preemptNum && t->node){ u32 v; if(!replaying(ST_SCHED,v)) v = rnd(ST_SCHED,K.preemptDen)<K.preemptNum ? 1+rnd(ST_SCHED,K.preemptSpan) : 0; recPut(ST_SCHED,v); if(v){ g_budget=v; g_budgetPreempt=true; } }
  switchTo(t);
}
static int s_holdCount;
void preemptHook(){
  if(!g_active || !g_cur || !g_cur->node){ g_budget=1LL<<60; return; }
  if(!g_budgetPreempt){ violate("livelock","thread %s/%s executed more than %llu basic blocks without reaching a synchronisation point",g_cur->node->name.c_str(),g_cur->name.c_str(),(unsigned long long)K.blockLimit); }
  g_sh->preempts++; g_sh->faults[F_PREEMPT]++;
  // a thread that loses its processor may not get it back for a while
  if(K.holdPct && s_holdCount<300 && chance(ST_SCHED,K.holdPct,100)){ s_holdCount++; g_cur->pausedUntil=g_now+chooseRange(ST_SCHED,2*US,K.holdMax); }
  schedule("preempt");
}
void simYield(const char* what){
  if(!g_active||!g_cur) return;
  Fiber* f=g_cur; 
  if(K.stallPct && f->node && s_pauseCount<400 && chance(ST_FAULT,K.stallPct,1000)){ s_pauseCount++; f->pausedUntil=g_now+chooseRange(ST_FAULT,10*US,K.stallMax); fault(F_STALL); trace("stall until %.4f at %s",(f->pausedUntil-1000*SEC)/1e9,what); }
  schedule(what);
}
bool blockOn(const void* key,const char* what,i64 deadline,bool real,std::function<bool()> ready){
  Fiber* f=g_cur; f->st=Fiber::BLOCKED; f->waitKey=key; f->waitWhat=what; f->deadline=deadline; f->deadlineReal=real; f->ready=std::move(ready); f->timedOut=false; f->woken=false;
  schedule(what);
  f->deadline=-1; f->waitKey=nullptr; f->ready=nullptr;
  return !f->timedOut;
}
static inline void wakeFiber(Fiber* f){ f->st=Fiber::RUNNABLE; f->woken=true; f->timedOut=false; f->deadline=-1; }
void wakeAll(const void* key){ for(auto f:g_fibers) if(f->st==Fiber::BLOCKED && f->waitKey==key) wakeFiber(f); }
bool wakeOne(const void* key){ static Fiber* l[1600]; int n=0; for(auto f:g_fibers) if(f->st==Fiber::BLOCKED && f->waitKey==key) l[n++]=f; if(!n) return false; wakeFiber(l[n>1?choosew(ST_SCHED,n,1,1):0]); return true; }
void notifyNet(Node* n){ for(auto f:g_fibers) if(f->st==Fiber::BLOCKED && f->node==n && f->ready && f->ready()) wakeFiber(f); }

// ---------- thread exit, cancel, processes ---------------------------------------------
static void runTlsDtors(Fiber* f){ Node* n=f->node; if(!n) return; for(int pass=0;pass<3;pass++){ bool any=false; for(size_t k=0;k<f->tls.size();k++) if(f->tls[k] && k<n->keyDtor.size() && n->keyDtor[k]){ void* v=f->tls[k]; f->tls[k]=nullptr; any=true; n->keyDtor[k](v); } if(!any) break; } }
static void fiberExit(Fiber* f){
  runTlsDtors(f);
  f->st=Fiber::DEAD; s_anyDead=true; wakeAll(f); 
  if(f->node && f->node->mainFiber==f && f->node->alive){ Node* n=f->node; n->exited=true; simExit(n,0); }
  schedule("exit"); abort();
}
[[noreturn]] void fiberExitNow(void* ret){ g_cur->ret=ret; fiberExit(g_cur); abort(); }
void cancelPoint(){ Fiber* f=g_cur; if(f && f->cancelReq){ trace("thread cancelled"); fiberExitNow((void*)-1L); } }
void closeNodeFds(Node* n); void dropNodeFiles(Node* n,bool flush);
static void killNode(Node* n,bool orderly){
  if(!n->alive) return; n->alive=false; (void)orderly;
  for(auto f:g_fibers) if(f->node==n && f->st!=Fiber::DEAD){ f->st=Fiber::DEAD; s_anyDead=true; wakeAll(f); }
  dropNodeFiles(n,orderly); closeNodeFds(n);
}
void simCrash(Node* n,const char* why){ if(!n->alive) return; logev("CRASH %s (%s)",n->name.c_str(),why); killNode(n,false); if(g_cur&&g_cur->node==n) schedule("crash"); }
void simExit(Node* n,int code){ if(!n->alive) return; n->exitCode=code; n->exited=true; logev("EXIT %s code %d",n->name.c_str(),code); killNode(n,true); if(g_cur&&g_cur->node==n) schedule("exit"); }
static int s_nextPid=1200; 
static std::vector<LibCopy> s_lib[4]; static size_t s_libUsed[4];
std::vector<LibCopy>& libPool(int k){ return s_lib[k]; }
Node* simSpawn(NodeKind k,const std::string& name,const std::string& prog,std::function<void(Node*)> mainFn,bool){
  Node* n=new Node; n->id=(int)g_nodes.size(); n->kind=k; n->name=name; n->prog=prog; n->pid=s_nextPid; s_nextPid+=1+choose(ST_CFG,3); n->incarnation=s_spawned++;
  n->fds.resize(3); n->fds[0].kind=n->fds[1].kind=n->fds[2].kind=3;
  if(k!=NK_RAW){ if(s_libUsed[k]>=s_lib[k].size()) finishRun(RS_TRUNCATED); LibCopy& c=s_lib[k][s_libUsed[k]++]; n->api=c.api; n->dl=c.dl; static const char* empty=""; (void)empty; if(c.progname) *c.progname=strdup(prog.c_str()); }
  g_nodes.push_back(n);
  Fiber* f=newFiber(n,"main"); f->app=true; n->mainFiber=f; Node* nn=n;
  f->fn=[nn,mainFn]{ mainFn(nn); };
  logev("START %s pid %d",name.c_str(),n->pid);
  return n;
}
Fiber* simThread(Node* n,const std::string& name,std::function<void()> fn){ Fiber* f=newFiber(n,name); f->app=true; f->fn=std::move(fn); return f; }
Fiber* fiberForPthread(Node* n,void*(*start)(void*),void* arg){ static int c; Fiber* f=newFiber(n,strf("t%d",++c)); f->start=start; f->startArg=arg; return f; }
bool simJoin(Fiber* f,i64 timeout){ i64 dl=timeout<0?-1:g_now+timeout; while(f->st!=Fiber::DEAD){ if(!blockOn(f,"simJoin",dl)) return f->st==Fiber::DEAD; } return true; }
void simSleep(i64 ns){ if(ns<=0){ simYield("sleep0"); return; } static int key; blockOn(&key,"sleep",g_now+ns); }
bool simWaitUntil(std::function<bool()> p,i64 timeout,i64 poll){ i64 dl=g_now+timeout; while(!p()){ if(g_now>=dl) return false; simSleep(poll); } return true; }
void simPauseNode(Node* n,i64 dur){ n->pausedUntil=g_now+dur; fault(F_STALL); logev("PAUSE %s %.3fs",n->name.c_str(),dur/1e9); }
void simJumpClock(i64 d){ g_realOff+=d; fault(F_CLOCKJUMP); logev("CLOCK step %+.3fs",d/1e9); }

// ---------- knobs ---------------------------------------------------------------------------
void drawSchedKnobs(bool allowPreempt){
  K.policy=choose(ST_CFG,3); static const u32 sn[]={1,3,7,31}; u32 s=choose(ST_CFG,4); K.stickNum=sn[s]; K.stickDen=sn[s]+1;
  u32 p=choose(ST_CFG,4); if(allowPreempt){ static const u32 pn[]={0,1,4,12}; K.preemptNum=pn[p]; K.preemptDen=16; static const u32 sp[]={20,120,600,3000}; K.preemptSpan=sp[choose(ST_CFG,4)]; if(K.preemptNum){ static const u32 hp[]={0,10,50}; K.holdPct=hp[choose(ST_CFG,3)]; K.holdMax=pick<i64>(ST_CFG,{60*US,400*US,2*MS}); } }
  if(chance(ST_CFG,1,3)) K.spuriousPct=1+choose(ST_CFG,20);
  for(auto& c:s_pctChange) c=rnd(ST_SCHED,20000);
}
void drawNetKnobs(bool allowDelay){
  if(chance(ST_CFG,1,2)){ K.shortReads=true; K.shortReadPct=5+choose(ST_CFG,60); }
  if(allowDelay && chance(ST_CFG,1,2)){ K.delays=true; static const i64 md[]={100*US,1*MS,5*MS,40*MS}; K.maxDelay=md[choose(ST_CFG,4)]; }
  if(chance(ST_CFG,1,8)) K.shortWrites=true;
}

void drawStallKnobs(){ if(chance(ST_CFG,1,3)){ K.stallPct=1+choose(ST_CFG,10); static const i64 sm[]={200*US,2*MS,20*MS,100*MS}; K.stallMax=sm[choose(ST_CFG,4)]; } }

// ---------- coverage / preemption callbacks ------------------------------------------------
static u32 s_covBase=1; int g_covKind;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* a,uint32_t* b){ if(a==b||*a) return; u32 base = g_covKind*40000+1; for(uint32_t* x=a;x<b;x++){ *x=base++; if(base>=COV_CAP) base=1; } }
extern "C" __attribute__((no_sanitize("all"))) void __sanitizer_cov_trace_pc_guard(uint32_t* g){ g_cov[*g]=1; if(__builtin_expect(--g_budget<=0,0)) preemptHook(); }

// ---------- run entry ---------------------------------------------------------------------
static void asanReport(const char* r){ if(!g_sh) return; snprintf(g_sh->asanReport,sizeof g_sh->asanReport,"%s",r); 
  if(g_sh->status!=RS_RUNNING) return;
  const char* d=__asan_get_report_description(); g_sh->status=RS_VIOLATION; g_sh->simTime=g_now-1000*SEC; g_sh->steps=g_steps;
  std::string k=d?d:"segv"; snprintf(g_sh->cls,sizeof g_sh->cls,"memory:%s",k.c_str());
  snprintf(g_sh->msg,sizeof g_sh->msg,"memory error (%s) in %s/%s",k.c_str(),g_cur&&g_cur->node?g_cur->node->name.c_str():"?",g_cur?g_cur->name.c_str():"?"); mixHash(hstr(g_sh->cls)); }
extern "C" const char* __asan_default_options(){ return "detect_leaks=0:detect_odr_violation=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=66:max_malloc_fill_size=1048576:malloc_fill_byte=190:allocator_may_return_null=1:symbolize=0:quarantine_size_mb=16:malloc_context_size=6:handle_segv=1:allow_user_segv_handler=0:thread_local_quarantine_size_kb=64:print_legend=0:print_full_thread_history=0:detect_invalid_pointer_pairs=0:poison_heap=1:fast_unwind_on_malloc=1:check_initialization_order=0:strict_init_order=0"; }
void simRunChild(const Scenario& s){
  __asan_set_error_report_callback(asanReport);
  s_vout=stderr;
  for(int i=0;i<ST_N;i++){ s_rng[i]=g_spec.seed*0x9E3779B97F4A7C15ULL + 0x1234567ULL*(i+1); splitmix(s_rng[i]); }
  g_sh->hash=0xcbf29ce484222325ULL;
  Fiber* m=new Fiber; m->id=0; m->node=nullptr; m->name="admin"; m->app=true; pthread_attr_t at; pthread_getattr_np(pthread_self(),&at); void* sa; size_t ss; pthread_attr_getstack(&at,&sa,&ss); m->stack=(char*)sa; m->stackSize=ss; m->prio=2000000;
  g_fibers.push_back(m); g_cur=m; g_active=true;
  s.run();
  finishRun(RS_OK);
}
std::vector<Scenario>& scenarios(){ static std::vector<Scenario> v; return v; }
void addScenario(const Scenario& s){ scenarios().push_back(s); }

void probe(int i){ if(i<64) g_sh->probes[i]++; static const char* e=getenv("SIM_PROBEFAIL"); if(e&&strchr(e,'0'+i)) violate(strf("probe:%d",i),"probe %d",i); }
