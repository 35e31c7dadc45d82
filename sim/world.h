// Shared scenario vocabulary: processes, providers, values.
#pragma once
#include "sim.h"
#include "api.h"
#include <functional>
#include <memory>
#include <set>
#include <algorithm>
#include <string.h>
#include <stdlib.h>

extern Node* g_router;
Node* startRouter();                    // router daemon; returns once it listens
void  stopRouter();                     // crash
struct Proc;
typedef std::function<void(rbusEvent_t const*, rbusEventSubscription_t*)> EvFn;
struct Proc {
  Node* n=nullptr; std::string comp; rbusHandle_t h=nullptr; std::string prog;
  std::vector<std::function<void()>> q; bool stop=false; bool opened=false; bool busy=false;
  bool closed=false;                    // rbus_close returned
  // provider hooks: run on the library's threads
  std::function<rbusError_t(const std::string&, rbusProperty_t, rbusGetHandlerOptions_t*)> onGet;
  std::function<rbusError_t(const std::string&, rbusProperty_t, rbusSetHandlerOptions_t*)> onSet;
  std::function<rbusError_t(const std::string&, rbusObject_t, rbusObject_t, rbusMethodAsyncHandle_t)> onMethod;
  std::function<rbusError_t(rbusEventSubAction_t, const std::string&, rbusFilter_t, int32_t, bool*)> onSub;
  std::function<rbusError_t(const std::string&, const char*, uint32_t*)> onAddRow;
  std::function<rbusError_t(const std::string&)> onRemoveRow;
  std::map<std::string,std::string> store;    // default property store
  u64 getCount=0,setCount=0;
  Api* a(){ return n->api; }
  bool alive(){ return n && n->alive; }
};
extern std::vector<Proc*> g_procs;
Proc* proc(const std::string& comp, const std::string& prog="");     // process object, not started
void  start(Proc* p);                                       // start (or restart) the process; idle main thread
void  crash(Proc* p);
void  post(Proc* p, std::function<void()> fn);               // run on p's main thread later
void  call(Proc* p, const std::string& what, i64 limit, std::function<void()> fn);  // run on p's main thread and wait (guarded)
Fiber* bg(Proc* p, const std::string& name, std::function<void()> fn);             // extra application thread
rbusError_t openBus(Proc* p);           // must run inside p
rbusError_t closeBus(Proc* p);
void startAndOpen(Proc* p);             // from the scenario: start + open, must succeed
struct El { std::string name; rbusElementType_t type; int cb; };   // cb bits below
enum { CB_GET=1, CB_SET=2, CB_SUB=4, CB_METHOD=8, CB_ADD=16, CB_DEL=32 };
rbusError_t reg(Proc* p, const std::vector<El>& e);          // inside p
rbusError_t unreg(Proc* p, const std::vector<El>& e);
// guarded API wrappers (inside p). limit<0: default bound for the call
struct GetRes { rbusError_t rc; std::string val; i64 dur; };
GetRes doGet(Proc* p, const std::string& name, i64 limit=-1);
struct Rc { rbusError_t rc; i64 dur; };
Rc doSet(Proc* p, const std::string& name, const std::string& val, i64 limit=-1);
Rc doSetMulti(Proc* p, const std::vector<std::pair<std::string,std::string>>& kv, std::string* failed=nullptr, i64 limit=-1, uint32_t timeoutMs=0);
struct GetExtRes { rbusError_t rc; std::vector<std::pair<std::string,std::string>> vals; i64 dur; };
GetExtRes doGetExt(Proc* p, const std::vector<std::string>& names, i64 limit=-1);
struct MethRes { rbusError_t rc; std::string out; i64 dur; int errorCode; };
MethRes doMethod(Proc* p, const std::string& name, const std::string& arg, i64 limit=-1);
Rc doSub(Proc* p, const std::string& ev, EvFn* fn, int timeout=0, i64 limit=-1);
struct SubOpt { uint32_t interval=0, duration=0; rbusFilter_t filter=nullptr; bool pubOnSub=false; };
Rc doSubEx(Proc* p, const std::string& ev, EvFn* fn, SubOpt o, int timeout=0, i64 limit=-1);
Rc doUnsub(Proc* p, const std::string& ev, i64 limit=-1);
Rc doUnsubEx(Proc* p, const std::string& ev, EvFn* fn, SubOpt o, i64 limit=-1);
Rc doPublish(Proc* p, const std::string& ev, const std::string& val, i64 limit=-1, rbusEventType_t t=RBUS_EVENT_GENERAL);
std::string evStr(rbusEvent_t const* e, const char* prop="v");      // string property of the event data ("" if absent)
std::string valStr(rbusValue_t v);
rbusProperty_t mkProp(const std::string& name, const std::string& val);
void setVal(rbusProperty_t p, const std::string& s);
extern "C" void evTramp(rbusHandle_t h, rbusEvent_t const* e, rbusEventSubscription_t* s);
const char* en(rbusError_t e);
inline bool okRc(rbusError_t e){ return e==RBUS_ERROR_SUCCESS; }
static const i64 DEF_BOUND=25*SEC;
void netFaultsOff();
std::string payload(u64 id, size_t n);         // deterministic content with embedded id
bool checkPayload(const std::string& s, u64* id);

void joinAll(const std::vector<Fiber*>& fs,const std::string& what,i64 limit);   // guarded
// typed values with a canonical text form, e.g. "i32:-5"
std::string canon(rbusValue_t v); rbusValue_t mkVal(const std::string& canon); std::string randVal(u64 id,size_t maxLen);
std::string structVal(u64 id);   // the text of a structured value (object or property list) made from a number
std::string canonObj(rbusObject_t o); rbusObject_t mkObj(const std::vector<std::pair<std::string,std::string>>& kv);
Rc doSetC(Proc* p,const std::string& name,const std::string& canon,i64 limit=-1);       // typed set
struct GetC { rbusError_t rc; std::string val; i64 dur; }; GetC doGetC(Proc* p,const std::string& name,i64 limit=-1);
struct MethC { rbusError_t rc; std::string out; i64 dur; }; MethC doMethC(Proc* p,const std::string& name,const std::vector<std::pair<std::string,std::string>>& kv,i64 limit=-1);
void clockSteps();              // the wall clock starts anywhere and is stepped throughout the run
void swarm(bool delay=true,bool stall=true);      // draw all generic knobs
void setTimeouts(Proc* p,uint32_t ms);             // get/set/subscribe timeouts of the handle (inside p)
bool waitFor(const char* cls,std::function<bool()> f,i64 limit,const std::string& msg); // violation cls if not reached
struct AddRes { rbusError_t rc; uint32_t inst; i64 dur; }; AddRes doAddRow(Proc* p,const std::string& table,const char* alias,i64 limit=-1);
Rc doRemoveRow(Proc* p,const std::string& row,i64 limit=-1);
inline bool notFoundRc(rbusError_t e){ return e==RBUS_ERROR_DESTINATION_NOT_FOUND||e==RBUS_ERROR_DESTINATION_NOT_REACHABLE||e==RBUS_ERROR_ELEMENT_DOES_NOT_EXIST||e==RBUS_ERROR_COMPONENT_DOES_NOT_EXIST; }
