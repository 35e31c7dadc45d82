// pthread and time seams.
#include "sim.h"
#include "api.h"
#include <pthread.h>
#include <errno.h>
#include <string.h>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <getopt.h>
#include <stdarg.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <sanitizer/asan_interface.h>

Fiber* fiberForPthread(Node* n,void*(*start)(void*),void* arg);
[[noreturn]] void fiberExitNow(void* ret);

// --- mutex: overlaid on the caller's pthread_mutex_t, same field meaning as glibc (kind at offset 16) -----
struct SimMutex { int lock; unsigned count; int owner; unsigned nusers; int kind; int pad; void* a; void* b; };
static_assert(sizeof(SimMutex)==sizeof(pthread_mutex_t),"mutex size");
static std::map<int,Fiber*> s_fib;   // id -> fiber
Fiber* fiberById(int id){ auto it=s_fib.find(id); return it==s_fib.end()?nullptr:it->second; }
static void chk(const void* p,size_t n,const char* what){ const char* bad=(const char*)__asan_region_is_poisoned((void*)p,n); if(bad){ volatile char c=*(volatile char*)bad; (void)c;
   // the simulator is not instrumented; report explicitly
   violate(std::string("memory:sync-object-invalid:")+what,"%s on a synchronisation object whose memory is freed or out of bounds, in %s/%s",what,g_cur->node?g_cur->node->name.c_str():"?",g_cur->name.c_str()); } }
static std::map<int,std::pair<Fiber*,Fiber*>> s_dummy;
static Fiber* waitsFor(Fiber* f){ // fiber that f is waiting for, if determined
  if(f->st!=Fiber::BLOCKED) return nullptr;
  if(f->waitMutex){ SimMutex* m=(SimMutex*)f->waitMutex; return m->lock? fiberById(m->owner):nullptr; }
  if(!strcmp(f->waitWhat,"join")) return (Fiber*)f->waitKey;
  return nullptr; }
static void checkCycle(Fiber* start){ Fiber* f=start; std::string chain; for(int i=0;i<40&&f;i++){ chain+=strf("%s/%s(%s) -> ",f->node?f->node->name.c_str():"-",f->name.c_str(),f->waitWhat); Fiber* n= f==start&&f->st!=Fiber::BLOCKED? nullptr : waitsFor(f); if(!n) return; if(n->st==Fiber::DEAD) return; if(n==start) violate("deadlock:cycle","threads wait for each other: %s%s\n%s",chain.c_str(),n->name.c_str(),describeFibers().c_str()); f=n; } }
static int mlock(pthread_mutex_t* pm,i64 deadline=-1,bool tryOnly=false){
  chk(pm,sizeof *pm,"pthread_mutex_lock"); SimMutex* m=(SimMutex*)pm; Fiber* f=g_cur; s_fib[f->id]=f;
  if(m->kind==-1) return EINVAL;
  simYield("lock");
  for(;;){
    chk(pm,sizeof *pm,"pthread_mutex_lock");
    if(!m->lock){ m->lock=1; m->owner=f->id; m->count=1; f->held.push_back(m); return 0; }
    if(m->owner==f->id){
      if((m->kind&3)==PTHREAD_MUTEX_RECURSIVE){ m->count++; return 0; }
      if((m->kind&3)==PTHREAD_MUTEX_ERRORCHECK) { probe(1); return EDEADLK; }
      if(tryOnly) return EBUSY;
      violate("deadlock:self","thread %s/%s locks a non-recursive mutex it already holds\n%s",f->node->name.c_str(),f->name.c_str(),describeFibers().c_str());
    }
    if(tryOnly) return EBUSY;
    Fiber* o=fiberById(m->owner);
    if(o && o->st==Fiber::DEAD && deadline<0) violate("deadlock:orphaned-mutex","thread %s/%s waits for a mutex whose holder (%s) has exited",f->node->name.c_str(),f->name.c_str(),o->name.c_str());
    f->waitMutex=m;
    // cycle check before blocking
    { Fiber* x=o; std::string chain=strf("%s/%s(lock) -> ",f->node->name.c_str(),f->name.c_str()); for(int i=0;i<40&&x;i++){ if(x==f) violate("deadlock:cycle","threads wait for each other: %s%s\n%s",chain.c_str(),f->name.c_str(),describeFibers().c_str()); chain+=strf("%s/%s(%s) -> ",x->node?x->node->name.c_str():"-",x->name.c_str(),x->waitWhat); x=waitsFor(x); } }
    bool ok=blockOn(m,"mutex",deadline); f->waitMutex=nullptr;
    if(!ok) return ETIMEDOUT;
  }
}
static int munlock(pthread_mutex_t* pm){
  chk(pm,sizeof *pm,"pthread_mutex_unlock"); SimMutex* m=(SimMutex*)pm; Fiber* f=g_cur;
  int k=m->kind&3;
  if(k!=0 && (!m->lock||m->owner!=f->id)) { probe(2); return EPERM; }
  if(k==0 && (!m->lock||m->owner!=f->id)) probe(3);
  if(k==PTHREAD_MUTEX_RECURSIVE && m->count>1){ m->count--; return 0; }
  Fiber* o=fiberById(m->owner); if(o) for(size_t i=o->held.size();i-->0;) if(o->held[i]==m){ o->held.erase(o->held.begin()+i); break; }
  m->lock=0; m->owner=0; m->count=0; wakeAll(m);
  return 0;
}
extern "C" {
int __wrap_pthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* a){ memset(m,0,sizeof *m); int t=0; if(a) pthread_mutexattr_gettype(a,&t); ((SimMutex*)m)->kind=t; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m){ chk(m,sizeof *m,"pthread_mutex_destroy"); if(((SimMutex*)m)->lock){ probe(4); return EBUSY; } ((SimMutex*)m)->kind=-1; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m){ return mlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m){ return mlock(m,-1,true); }
int __wrap_pthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* t){ return mlock(m,(i64)t->tv_sec*SEC+t->tv_nsec-g_realOff); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m){ int r=munlock(m); simYield("unlock"); return r; }
// rwlock: modelled as (writer, readers) in the first words
struct SimRw { int writer; int readers; };
int __wrap_pthread_rwlock_init(pthread_rwlock_t* r,const pthread_rwlockattr_t*){ memset(r,0,sizeof *r); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t*){ return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* p){ SimRw* r=(SimRw*)p; simYield("rdlock"); while(r->writer) blockOn(r,"rwlock"); r->readers++; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* p){ SimRw* r=(SimRw*)p; simYield("wrlock"); while(r->writer||r->readers) blockOn(r,"rwlock"); r->writer=g_cur->id; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* p){ SimRw* r=(SimRw*)p; if(r->writer) r->writer=0; else if(r->readers) r->readers--; wakeAll(r); simYield("rwunlock"); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t* s,int){ *(volatile int*)s=0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t*){ return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* s){ simYield("spin"); while(*(volatile int*)s) blockOn((const void*)s,"spin"); *(volatile int*)s=1; return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* s){ *(volatile int*)s=0; wakeAll((const void*)s); simYield("spin"); return 0; }

// --- condition variables: clock id kept in the first word of the overlay -------------------------------
struct SimCond { int clock; int magic; };
int __wrap_pthread_cond_init(pthread_cond_t* c,const pthread_condattr_t* a){ memset(c,0,sizeof *c); clockid_t k=CLOCK_REALTIME; if(a) pthread_condattr_getclock(a,&k); ((SimCond*)c)->clock=k; return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c){ chk(c,sizeof *c,"pthread_cond_destroy"); return 0; }
static int cwait(pthread_cond_t* c,pthread_mutex_t* pm,i64 deadline,bool real){
  chk(c,sizeof *c,"pthread_cond_wait"); chk(pm,sizeof *pm,"pthread_cond_wait"); SimMutex* m=(SimMutex*)pm; Fiber* f=g_cur; s_fib[f->id]=f;
  cancelPoint();
  simYield("cond_wait");
  if(deadline>=0 && (real? deadline-g_realOff : deadline)<=g_now){ munlock(pm); simYield("cond_timeout"); mlock(pm); return ETIMEDOUT; }
  int savedCount=m->count; (void)savedCount;
  i64 dl=deadline; bool dreal=real; bool spurious=false;
  if(K.spuriousPct && chance(ST_FAULT,K.spuriousPct,100)){ i64 s=g_now+chooseRange(ST_FAULT,1*US,200*MS); i64 eff=deadline<0?-1:(real?deadline-g_realOff:deadline); if(eff<0||s<eff){ dl=s; dreal=false; spurious=true; } }
  munlock(pm);
  f->inCancelPoint=true; bool ok=blockOn(c,"cond",dl,dreal); f->inCancelPoint=false;
  if(!ok && spurious) fault(F_SPURIOUS);
  chk(c,sizeof *c,"pthread_cond_wait-return");
  int r=mlock(pm); (void)r;
  cancelPoint();
  if(!ok && !spurious) return ETIMEDOUT;
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ return cwait(c,m,-1,false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){
  if(t->tv_nsec<0||t->tv_nsec>=1000000000L) return EINVAL;
  bool real=((SimCond*)c)->clock!=CLOCK_MONOTONIC; return cwait(c,m,(i64)t->tv_sec*SEC+t->tv_nsec,real); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* t){ return cwait(c,m,(i64)t->tv_sec*SEC+t->tv_nsec,k!=CLOCK_MONOTONIC); }
int __wrap_pthread_cond_signal(pthread_cond_t* c){ chk(c,sizeof *c,"pthread_cond_signal"); simYield("signal"); chk(c,sizeof *c,"pthread_cond_signal"); wakeOne(c); simYield("signalled"); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c){ chk(c,sizeof *c,"pthread_cond_broadcast"); simYield("broadcast"); chk(c,sizeof *c,"pthread_cond_broadcast"); wakeAll(c); simYield("broadcasted"); return 0; }

// --- threads -----------------------------------------------------------------------------------------------
int sim_pthread_create(pthread_t* t,const pthread_attr_t* a,void*(*fn)(void*),void* arg){
  int det=0; if(a) pthread_attr_getdetachstate(a,&det);
  Fiber* f=fiberForPthread(g_cur->node,fn,arg); f->detached=det==PTHREAD_CREATE_DETACHED; s_fib[f->id]=f; *t=(pthread_t)(0x70000000UL+f->id); simYield("create"); return 0; }
static Fiber* byPt(pthread_t t){ return fiberById((int)(t-0x70000000UL)); }
int __wrap_pthread_join(pthread_t t,void** r){ cancelPoint(); Fiber* f=byPt(t); simYield("join"); if(!f||f->node!=g_cur->node||f->joined||f->detached){ probe(5); return f&&f->detached?EINVAL:ESRCH; } if(f==g_cur) return EDEADLK;
  { Fiber* x=f; std::string chain=strf("%s/%s(join) -> ",g_cur->node->name.c_str(),g_cur->name.c_str()); for(int i=0;i<40&&x;i++){ if(x==g_cur) violate("deadlock:cycle","threads wait for each other: %s%s\n%s",chain.c_str(),g_cur->name.c_str(),describeFibers().c_str()); chain+=strf("%s(%s) -> ",x->name.c_str(),x->waitWhat); x= x->st==Fiber::DEAD?nullptr:waitsFor(x); } }
  while(f->st!=Fiber::DEAD) blockOn(f,"join"); if(f->joined){ probe(5); return ESRCH; } f->joined=true; if(r) *r=f->ret; return 0; }
int __wrap_pthread_detach(pthread_t t){ Fiber* f=byPt(t); if(!f) return ESRCH; f->detached=true; return 0; }
int __wrap_pthread_cancel(pthread_t t){ Fiber* f=byPt(t); simYield("cancel"); if(!f||f->node!=g_cur->node) { probe(6); return ESRCH; } if(f->st==Fiber::DEAD) return 0; f->cancelReq=true; if(f->st==Fiber::BLOCKED && f->inCancelPoint){ f->st=Fiber::RUNNABLE; f->woken=true; f->timedOut=false; f->deadline=-1; } simYield("cancelled"); return 0; }
pthread_t __wrap_pthread_self(void){ return (pthread_t)(0x70000000UL+(s_fib[g_cur->id]=g_cur)->id); }
void __wrap_pthread_exit(void* r){ fiberExitNow(r); }
int __wrap_pthread_setname_np(pthread_t,const char*){ return 0; }
int __wrap_pthread_kill(pthread_t,int){ return 0; }
int __wrap_sched_yield(void){ simYield("sched_yield"); return 0; }
int __wrap_pthread_setcancelstate(int,int* o){ if(o)*o=0; return 0; }
int __wrap_pthread_setcanceltype(int,int* o){ if(o)*o=0; return 0; }
void __wrap_pthread_testcancel(void){ cancelPoint(); }
int __wrap_pthread_once(pthread_once_t* o,void(*fn)(void)){ simYield("once"); for(;;){ if(*o==2) return 0; if(*o==0){ *o=1; fn(); *o=2; wakeAll(o); return 0; } blockOn(o,"once"); } }
int __wrap_pthread_key_create(pthread_key_t* k,void(*d)(void*)){ Node* n=g_cur->node; *k=n->keyCount++; n->keyDtor.push_back(d); return 0; }
int __wrap_pthread_key_delete(pthread_key_t k){ Node* n=g_cur->node; if(k<n->keyDtor.size()) n->keyDtor[k]=nullptr; return 0; }
void* __wrap_pthread_getspecific(pthread_key_t k){ Fiber* f=g_cur; return k<f->tls.size()?f->tls[k]:nullptr; }
int __wrap_pthread_setspecific(pthread_key_t k,const void* v){ Fiber* f=g_cur; if(k>=f->tls.size()) f->tls.resize(k+1,nullptr); f->tls[k]=(void*)v; return 0; }

// --- time ------------------------------------------------------------------------------------------------------
int __wrap_clock_gettime(clockid_t k,struct timespec* t){ i64 v = (k==CLOCK_REALTIME||k==CLOCK_REALTIME_COARSE)? g_now+g_realOff : g_now; t->tv_sec=v/SEC; t->tv_nsec=v%SEC; return 0; }
int __wrap_gettimeofday(struct timeval* t,void*){ i64 v=g_now+g_realOff; t->tv_sec=v/SEC; t->tv_usec=(v%SEC)/1000; return 0; }
time_t __wrap_time(time_t* p){ time_t v=(g_now+g_realOff)/SEC; if(p)*p=v; return v; }
static int dosleep(i64 ns){ cancelPoint(); static int key; Fiber* f=g_cur; f->inCancelPoint=true; blockOn(&key,"sleep",g_now+(ns>0?ns:0)); f->inCancelPoint=false; cancelPoint(); return 0; }
unsigned __wrap_sleep(unsigned s){ return dosleep((i64)s*SEC); }
int __wrap_usleep(unsigned u){ return dosleep((i64)u*US); }
int __wrap_nanosleep(const struct timespec* t,struct timespec*){ return dosleep((i64)t->tv_sec*SEC+t->tv_nsec); }
int __wrap_clock_nanosleep(clockid_t k,int fl,const struct timespec* t,struct timespec*){ i64 v=(i64)t->tv_sec*SEC+t->tv_nsec; if(fl&TIMER_ABSTIME) v-= k==CLOCK_REALTIME? g_now+g_realOff : g_now; return dosleep(v); }
int __wrap_pause(void){ cancelPoint(); static int key; Fiber* f=g_cur; f->inCancelPoint=true; blockOn(&key,"pause"); f->inCancelPoint=false; cancelPoint(); errno=EINTR; return -1; }

// --- process --------------------------------------------------------------------------------------------------
pid_t __wrap_getpid(void){ if(!g_cur) return 1; return g_cur->node->pid; }
pid_t __wrap_gettid(void){ return 20000+g_cur->id; }
long __wrap_syscall(long n,...){ if(!g_cur){ errno=ENOSYS; return -1; } if(n==SYS_gettid) return 20000+g_cur->id; if(n==SYS_getpid) return g_cur->node->pid; internalError("unmodelled syscall %ld",n); }
int __wrap_kill(pid_t p,int sig){ for(auto n:g_nodes) if(n->alive && n->pid==p){ if(sig!=0) internalError("kill(%d,%d)",p,sig); return 0; } errno=ESRCH; return -1; }
char* __wrap_getenv(const char* k){ if(!g_cur) return nullptr; auto& e=g_cur->node->env; auto it=e.find(k); return it==e.end()?nullptr:(char*)it->second.c_str(); }
void __wrap_exit(int c){ Node* n=g_cur->node; simExit(n,c); for(;;) simYield("exit"); }
void __wrap__exit(int c){ Node* n=g_cur->node; simExit(n,c); for(;;) simYield("exit"); }
void __wrap_abort(void){ violate("abort","abort() called in %s/%s",g_cur->node->name.c_str(),g_cur->name.c_str()); }
void __wrap___assert_fail(const char* e,const char* f,unsigned l,const char* fn){ violate(std::string("assert:")+(fn?fn:"?"),"assertion '%s' failed at %s:%u in %s",e,f,l,g_cur->node->name.c_str()); }
int __wrap_daemon(int,int){ return 0; }
typedef void (*sigh)(int);
sigh __wrap_signal(int,sigh){ return SIG_DFL; }
int __wrap_sigaction(int,const struct sigaction*,struct sigaction*){ return 0; }
int __wrap_rand(void){ u32& x=g_cur->node->rngState; x=x*1103515245u+12345u; return (x>>1)&0x7fffffff; }
void __wrap_srand(unsigned s){ g_cur->node->rngState=s*2654435761u+g_cur->node->pid; }
long __wrap_random(void){ return __wrap_rand(); }
void __wrap_srandom(unsigned s){ __wrap_srand(s); }
}
