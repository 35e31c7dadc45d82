// Deterministic simulator core: fibers, scheduler, clock, choice streams, nodes.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <sys/types.h>

typedef int64_t i64; typedef uint64_t u64; typedef uint32_t u32;
static const i64 US=1000, MS=1000000, SEC=1000000000LL;

// ---------- choice streams -------------------------------------------------
// Every nondeterministic decision is one entry in one of these streams; 0 is always the "plain" choice, so a
// trace is minimised by turning entries into 0.
enum Stream { ST_CFG=0, ST_WORK, ST_SCHED, ST_NET, ST_FAULT, ST_N };
static const u32 ST_CAP[ST_N] = { 4096, 1<<16, 1<<20, 1<<19, 1<<17 };

enum FaultKind { F_SPURIOUS=0, F_PREEMPT, F_SHORTREAD, F_SHORTWRITE, F_SMALLBUF, F_NETDELAY, F_RESET, F_CRASH_CLIENT, F_CRASH_ROUTER,
  F_CONNREFUSE, F_STALL, F_CLOCKJUMP, F_DISKFULL, F_DISKFAIL, F_DISKTORN, F_SLOWPROVIDER, F_GARBAGE, F_REORDER_CONNS, F_PIDREUSE, F_SOCKFAIL, F_EINTR, F_N };
extern const char* const g_faultNames[F_N];

enum RunStatus { RS_RUNNING=0, RS_OK=1, RS_VIOLATION=2, RS_TRUNCATED=3, RS_INTERNAL=4 };

struct Shared {            // lives in MAP_SHARED memory; survives the death of the run
  volatile u32 status;
  char cls[192];           // violation class (stable identity)
  char msg[4096];          // human text
  u64 hash;                // event/schedule hash
  u64 skelHash;            // coarse schedule hash (who ran at which kind of point)
  u64 steps, switches, preempts;
  i64 simTime;
  u64 faults[F_N];
  u64 ops;                 // workload operations performed
  u64 nontrivial;          // scenario-defined: run exercised the property
  u64 probes[64];
  u32 len[ST_N];           // entries recorded
  u32 nz[ST_N];
  char sample[2048];       // op log head for evidence
  char asanReport[8192];
  u32 *rec[ST_N];          // recorded choices
  unsigned char* cov;      // coverage bytes (shared by all workers)
  i64 msgfile;
};
extern Shared* g_sh;
extern unsigned char* g_cov; static const u32 COV_CAP=1<<17;

struct RunSpec {
  u64 seed=1;
  bool replay=false;                       // use rep streams, default 0 beyond
  std::vector<u32> rep[ST_N];
  bool verbose=false;
  int scenario=0;
};
extern RunSpec g_spec;

u32 choose(Stream s, u32 n);               // uniform in [0,n); 0 plain
u32 choosew(Stream s, u32 n, u32 w0, u32 wrest); // 0 with weight w0, others share wrest
bool chance(Stream s, u32 num, u32 den);   // true with prob num/den; false plain
i64 chooseRange(Stream s, i64 lo, i64 hi); // lo plain
template<class T> inline T pick(Stream s, std::initializer_list<T> l){ u32 k=choose(s,(u32)l.size()); return *(l.begin()+k); }

// ---------- nodes and fibers ------------------------------------------------
struct Node; struct Fiber; struct Sock; struct Api;
enum NodeKind { NK_CLIENT=0, NK_ROUTER, NK_SESSION, NK_RAW };

struct FdEnt { int kind=0; Sock* sock=nullptr; void* file=nullptr; };  // kind 1 socket 2 file

struct Node {
  int id; NodeKind kind; std::string name, prog; int pid; int incarnation;
  bool alive=true; Api* api=nullptr; void* dl=nullptr;
  std::map<std::string,std::string> env;
  std::vector<FdEnt> fds;
  i64 pausedUntil=0;
  void* app=nullptr;                        // scenario state
  Fiber* mainFiber=nullptr;
  int keyCount=0; std::vector<void(*)(void*)> keyDtor;
  u32 rngState=1;
  bool exited=false; int exitCode=0;
  std::vector<void*> files;
};

struct Fiber {
  int id; Node* node; std::string name;
  void* sp=nullptr; char* stack=nullptr; size_t stackSize=0;
  void* fake=nullptr;
  std::function<void()> fn; void*(*start)(void*)=nullptr; void* startArg=nullptr; void* ret=nullptr;
  enum St { RUNNABLE, BLOCKED, DEAD } st=RUNNABLE;
  const void* waitKey=nullptr; const char* waitWhat="";
  bool woken=false;                         // set when woken by key rather than deadline
  bool timedOut=false;
  i64 deadline=-1; bool deadlineReal=false; // absolute ns, or -1
  i64 pausedUntil=0;
  std::function<bool()> ready;              // for select/recv style waits
  bool detached=false, joined=false, cancelReq=false, inCancelPoint=false, app=false;
  int err=0;                                // saved errno
  u64 lastRun=0; u32 prio=0;
  std::vector<void*> tls;
  const void* waitMutex=nullptr;
  i64 budget=0;
  u64 stepsInWindow=0; i64 windowStart=0;
  std::vector<const void*> held;            // mutexes held, in order
};

struct Knobs {               // per-run swarm configuration (drawn by the scenario from ST_CFG)
  int policy=0;              // 0 uniform random, 1 sticky, 2 PCT
  u32 stickNum=7, stickDen=8;
  u32 preemptNum=0, preemptDen=16; u32 preemptSpan=200; u32 holdPct=0; i64 holdMax=0; // chance that a slice gets a preemption budget
  bool shortReads=false; u32 shortReadPct=30;
  bool shortWrites=false;
  bool delays=false; i64 maxDelay=5*MS;
  u32 sockBuf=212992;
  u32 spuriousPct=0;         // chance (percent) that a cond wait gets a spurious wakeup
  u32 stallPct=0;            // per-1000 chance at a yield that the fiber is paused for a while
  i64 stallMax=20*MS;
  u64 maxSteps=3000000;
  i64 maxSim=4*3600*SEC;
  u64 blockLimit=60000000;
  u64 busyLimit=60000;       // steps of one fiber within one simulated second without progress => busy loop
  i64 stepCost=2*US;
};
extern Knobs K;
void drawSchedKnobs(bool allowPreempt=true);     // common swarm settings for scheduling
void drawNetKnobs(bool allowDelay=true);
void drawStallKnobs();                            // random short pauses of threads

extern i64 g_now;                     // monotonic simulated ns
extern i64 g_realOff;                 // CLOCK_REALTIME = g_now + g_realOff
extern std::vector<Node*> g_nodes; extern std::vector<Fiber*> g_fibers;
extern Fiber* g_cur; extern u64 g_steps;

Node* simSpawn(NodeKind k, const std::string& name, const std::string& prog, std::function<void(Node*)> mainFn, bool startNow=true);
void  simCrash(Node* n, const char* why="crash");          // kill -9
void  simExit(Node* n, int code);                          // from a fiber of n or elsewhere
Fiber* simThread(Node* n, const std::string& name, std::function<void()> fn);  // application thread in node
bool  simJoin(Fiber* f, i64 timeout=-1);                   // true if finished
void  simSleep(i64 ns);
void  simYield(const char* what="yield");
bool  simWaitUntil(std::function<bool()> p, i64 timeout, i64 poll=5*MS);      // polls in simulated time
void  simPauseNode(Node* n, i64 dur);
void  simJumpClock(i64 delta);
inline Node* curNode(){ return g_cur?g_cur->node:nullptr; }
inline Api* A(){ return g_cur->node->api; }

// blocking primitives used by the wrappers
bool  blockOn(const void* key, const char* what, i64 deadline=-1, bool real=false, std::function<bool()> ready=nullptr); // false => timed out
void  wakeAll(const void* key);
bool  wakeOne(const void* key);
void  at(i64 t, std::function<void()> fn);
void  notifyNet(Node* n);             // re-evaluate ready() of this node's network waiters
void  cancelPoint();

// reporting
[[noreturn]] void violate(const std::string& cls, const char* fmt, ...) __attribute__((format(printf,2,3)));
[[noreturn]] void internalError(const char* fmt, ...) __attribute__((format(printf,1,2)));
[[noreturn]] void finishRun(RunStatus s);
void logev(const char* fmt, ...) __attribute__((format(printf,1,2)));  // event log + hash
void trace(const char* fmt, ...) __attribute__((format(printf,1,2)));  // verbose only
void mixHash(u64 v);
void opCount();
inline void fault(FaultKind k){ g_sh->faults[k]++; }
void probe(int i);
std::string strf(const char* fmt, ...) __attribute__((format(printf,1,2)));
std::string describeFibers();

// simulated disk (shared by all nodes; survives crashes)
struct SimFile { std::string data; };
bool  fsExists(const std::string& p); bool fsRead(const std::string& p, std::string& out);
void  fsWrite(const std::string& p, const std::string& d); void fsRemove(const std::string& p);
std::vector<std::string> fsList();
extern int g_diskFullBytes;           // <0 unlimited; else bytes that may still be written
extern u32 g_diskTornPct;             // chance (percent) that a write is done in two parts with other threads and crashes between
extern u32 g_diskFailPct;             // chance (percent) that fopen for writing fails
extern std::function<bool(const std::string& path)> g_diskFaultFilter;

// sockets for simulator-side raw clients
int   rawConnect(Node* n, const std::string& addr);
ssize_t rawSend(int fd, const void* p, size_t n);
ssize_t rawRecv(int fd, void* p, size_t n, i64 timeout);   // -2 timeout
void  rawClose(int fd);
bool  rawEof(int fd);
void  resetConnections(Node* a, Node* b);                  // break every connection between a and b
void  resetNth(Node* a, u32 k);
int   countConns(Node* a);
extern std::function<bool(Node*)> g_socketFault;
extern std::function<bool(Node*, const std::string&)> g_connectFault; // true => refuse

// property registry
struct Scenario { const char* prop; const char* name; void (*run)(); int weight; };
void addScenario(const Scenario&);
std::vector<Scenario>& scenarios();
struct AddScn { AddScn(const char* p,const char* n,void(*r)(),int w=1){ addScenario({p,n,r,w}); } };
#define SCENARIO(prop,name) static void scn_##prop##_##name(); static AddScn add_##prop##_##name(#prop,#name,scn_##prop##_##name); static void scn_##prop##_##name()
#define SCENARIO_W(prop,name,w) static void scn_##prop##_##name(); static AddScn add_##prop##_##name(#prop,#name,scn_##prop##_##name,w); static void scn_##prop##_##name()

void simRunChild(const Scenario& s);   // entry in the forked child
void loadLibs(const std::string& dir);
