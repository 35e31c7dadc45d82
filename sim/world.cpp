#include "world.h"
#include <getopt.h>
Node* g_router; std::vector<Proc*> g_procs; static int s_routers;
const char* en(rbusError_t e){ static const char* N[]={"SUCCESS","BUS_ERROR","INVALID_INPUT","NOT_INITIALIZED","OUT_OF_RESOURCES","DESTINATION_NOT_FOUND","DESTINATION_NOT_REACHABLE","DESTINATION_RESPONSE_FAILURE","INVALID_RESPONSE_FROM_DESTINATION","INVALID_OPERATION","INVALID_EVENT","INVALID_HANDLE","SESSION_ALREADY_EXIST","COMPONENT_NAME_DUPLICATE","ELEMENT_NAME_DUPLICATE","ELEMENT_NAME_MISSING","COMPONENT_DOES_NOT_EXIST","ELEMENT_DOES_NOT_EXIST","ACCESS_NOT_ALLOWED","INVALID_CONTEXT","TIMEOUT","ASYNC_RESPONSE","INVALID_METHOD","NOSUBSCRIBERS","SUBSCRIPTION_ALREADY_EXIST","INVALID_NAMESPACE","DIRECT_CON_NOT_EXIST","NOT_WRITABLE","NOT_READABLE","INVALID_PARAMETER_TYPE","INVALID_PARAMETER_VALUE"}; return (unsigned)e<31?N[e]:"?"; }
bool simListening(const std::string& a);
Node* startRouter(){
  Node* r=simSpawn(NK_ROUTER,strf("router%d",s_routers++),"rtrouted",[](Node* n){ optind=0; static char a0[]="rtrouted",a1[]="-f",a2[]="-l",a3[]="fatal"; char* av[]={a0,a1,a2,a3,nullptr}; n->env["RT_LOG_LEVEL"]="fatal"; n->api->router_main(4,av); });
  g_router=r; simWaitUntil([]{ return simListening("unix:/tmp/rtrouted"); },60*SEC,1*MS);
  return r; }
// a crash, followed by what the unit's ExecStopPost= does (conf/rbus_rdkv.conf: rm -rf /tmp/rtrouted*)
void stopRouter(){ if(g_router&&g_router->alive){ fault(F_CRASH_ROUTER); simCrash(g_router,"router crash"); fsRemove("/tmp/rtrouted"); fsRemove("/tmp/rtrouted.pid"); } }
Proc* proc(const std::string& comp,const std::string& prog){ Proc* p=new Proc; p->comp=comp; p->prog=prog.empty()?"app_"+comp:prog; g_procs.push_back(p); return p; }
void start(Proc* p){
  p->q.clear(); p->stop=false; p->h=nullptr; p->opened=false; p->closed=false;
  p->n=simSpawn(NK_CLIENT,p->comp,p->prog,[p](Node* n){ 
    if(getenv("SIM_RBUSLOG")){ n->api->rbus_setLogLevel(RBUS_LOG_WARN); n->api->rbus_registerLogHandler([](rbusLogLevel,const char* f,int l,int,char* m){ trace("LOG %s:%d %s",f,l,m); }); } else n->api->rbus_setLogLevel(RBUS_LOG_FATAL);
    while(!p->stop){ if(p->q.empty()){ p->busy=false; blockOn(p,"idle"); continue; } p->busy=true; auto f=p->q.front(); p->q.erase(p->q.begin()); f(); } });
  p->n->env["RT_LOG_LEVEL"]="fatal"; p->n->app=p; }
void crash(Proc* p){ if(p->alive()){ fault(F_CRASH_CLIENT); simCrash(p->n,"process killed"); } }
void post(Proc* p,std::function<void()> fn){ if(!p->alive()) return; p->q.push_back(fn); wakeAll(p); }
void call(Proc* p,const std::string& what,i64 limit,std::function<void()> fn){
  auto done=std::make_shared<bool>(false); Node* n=p->n; OpGuard g(what,limit); post(p,[fn,done]{ fn(); *done=true; wakeAll(done.get()); });
  while(!*done){ if(!n->alive) return; blockOn(done.get(),"call",g_now+50*MS); } }
Fiber* bg(Proc* p,const std::string& name,std::function<void()> fn){ return simThread(p->n,name,fn); }
rbusError_t openBus(Proc* p){ OpGuard g("rbus_open",90*SEC); rbusError_t rc=p->a()->rbus_open(&p->h,p->comp.c_str()); p->opened=rc==0; p->closed=false; logev("open %s -> %s",p->comp.c_str(),en(rc)); return rc; }
rbusError_t closeBus(Proc* p){ OpGuard g("rbus_close",DEF_BOUND); rbusError_t rc=p->a()->rbus_close(p->h); p->opened=false; p->closed=true; logev("close %s -> %s",p->comp.c_str(),en(rc)); return rc; }
void startAndOpen(Proc* p){ start(p); rbusError_t rc=RBUS_ERROR_BUS_ERROR; call(p,"start",120*SEC,[&]{ rc=openBus(p); }); if(rc) violate(strf("setup:open:%s",en(rc)),"opening %s failed: %s",p->comp.c_str(),en(rc)); }

// ---- callbacks: find the process through the running fiber's node ---------------------------------------
static Proc* me(){ return (Proc*)g_cur->node->app; }
std::string valStr(rbusValue_t v){ if(!v) return "<null>"; Api* a=A(); if(a->rbusValue_GetType(v)==RBUS_STRING){ int l=0; char const* s=a->rbusValue_GetString(v,&l); return s?s:""; } char* s=a->rbusValue_ToString(v,nullptr,0); std::string r=s?s:"<null>"; free(s); return r; }
void setVal(rbusProperty_t p,const std::string& s){ Api* a=A(); rbusValue_t v; a->rbusValue_Init(&v); a->rbusValue_SetString(v,s.c_str()); a->rbusProperty_SetValue(p,v); a->rbusValue_Release(v); }
rbusProperty_t mkProp(const std::string& name,const std::string& val){ Api* a=A(); rbusProperty_t p; a->rbusProperty_Init(&p,name.c_str(),nullptr); setVal(p,val); return p; }
static rbusError_t cbGet(rbusHandle_t,rbusProperty_t prop,rbusGetHandlerOptions_t* o){ Proc* p=me(); p->getCount++; std::string nm=A()->rbusProperty_GetName(prop); if(p->onGet) return p->onGet(nm,prop,o); auto it=p->store.find(nm); setVal(prop,it==p->store.end()?"":it->second); return RBUS_ERROR_SUCCESS; }
static rbusError_t cbSet(rbusHandle_t,rbusProperty_t prop,rbusSetHandlerOptions_t* o){ Proc* p=me(); p->setCount++; std::string nm=A()->rbusProperty_GetName(prop); if(p->onSet) return p->onSet(nm,prop,o); p->store[nm]=valStr(A()->rbusProperty_GetValue(prop)); return RBUS_ERROR_SUCCESS; }
static rbusError_t cbMethod(rbusHandle_t,char const* nm,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t ah){ Proc* p=me(); if(p->onMethod) return p->onMethod(nm,in,out,ah); return RBUS_ERROR_SUCCESS; }
static rbusError_t cbSub(rbusHandle_t,rbusEventSubAction_t act,char const* nm,rbusFilter_t f,int32_t iv,bool* ap){ Proc* p=me(); if(p->onSub) return p->onSub(act,nm,f,iv,ap); return RBUS_ERROR_SUCCESS; }
static rbusError_t cbAdd(rbusHandle_t,char const* t,char const* al,uint32_t* inst){ Proc* p=me(); if(p->onAddRow) return p->onAddRow(t,al,inst); return RBUS_ERROR_INVALID_OPERATION; }
static rbusError_t cbDel(rbusHandle_t,char const* r){ Proc* p=me(); if(p->onRemoveRow) return p->onRemoveRow(r); return RBUS_ERROR_SUCCESS; }
static std::vector<rbusDataElement_t> mk(const std::vector<El>& e){ std::vector<rbusDataElement_t> v; for(auto& x:e){ rbusDataElement_t d; memset(&d,0,sizeof d); d.name=(char*)x.name.c_str(); d.type=x.type; if(x.cb&CB_GET) d.cbTable.getHandler=cbGet; if(x.cb&CB_SET) d.cbTable.setHandler=cbSet; if(x.cb&CB_SUB) d.cbTable.eventSubHandler=cbSub; if(x.cb&CB_METHOD) d.cbTable.methodHandler=(void*)cbMethod; if(x.cb&CB_ADD) d.cbTable.tableAddRowHandler=cbAdd; if(x.cb&CB_DEL) d.cbTable.tableRemoveRowHandler=cbDel; v.push_back(d); } return v; }
rbusError_t reg(Proc* p,const std::vector<El>& e){ auto v=mk(e); OpGuard g("regDataElements",60*SEC); rbusError_t rc=p->a()->rbus_regDataElements(p->h,(int)v.size(),v.data()); logev("reg %s.. n=%zu -> %s",e[0].name.c_str(),e.size(),en(rc)); return rc; }
rbusError_t unreg(Proc* p,const std::vector<El>& e){ auto v=mk(e); OpGuard g("unregDataElements",60*SEC); rbusError_t rc=p->a()->rbus_unregDataElements(p->h,(int)v.size(),v.data()); logev("unreg %s -> %s",e[0].name.c_str(),en(rc)); return rc; }
static i64 lim(i64 l,i64 d){ return l<0?d:l; }
GetRes doGet(Proc* p,const std::string& name,i64 limit){ OpGuard g("rbus_get",lim(limit,DEF_BOUND)); rbusValue_t v=nullptr; GetRes r; r.rc=p->a()->rbus_get(p->h,name.c_str(),&v); if(r.rc==0){ r.val=valStr(v); if(v) p->a()->rbusValue_Release(v); } r.dur=g.elapsed(); logev("get %s -> %s %.40s",name.c_str(),en(r.rc),r.val.c_str()); return r; }
Rc doSet(Proc* p,const std::string& name,const std::string& val,i64 limit){ OpGuard g("rbus_set",lim(limit,DEF_BOUND)); Api* a=p->a(); rbusValue_t v; a->rbusValue_Init(&v); a->rbusValue_SetString(v,val.c_str()); Rc r; r.rc=a->rbus_set(p->h,name.c_str(),v,nullptr); a->rbusValue_Release(v); r.dur=g.elapsed(); logev("set %s=%.40s -> %s",name.c_str(),val.c_str(),en(r.rc)); return r; }
Rc doSetMulti(Proc* p,const std::vector<std::pair<std::string,std::string>>& kv,std::string* failed,i64 limit,uint32_t tmo){ OpGuard g("rbus_setMulti",lim(limit,70*SEC)); Api* a=p->a(); rbusProperty_t head=nullptr,last=nullptr; for(auto& x:kv){ rbusProperty_t q=mkProp(x.first,x.second); if(!head) head=q; else { a->rbusProperty_SetNext(last,q); a->rbusProperty_Release(q); } last=q; }
  Rc r; char* f=nullptr; if(failed||tmo) r.rc=a->rbus_setMultiExt(p->h,kv.size(),head,nullptr,tmo,&f); else r.rc=a->rbus_setMulti(p->h,kv.size(),head,nullptr); if(failed) *failed=f?f:""; if(f) free(f); a->rbusProperty_Release(head); r.dur=g.elapsed(); logev("setMulti n=%zu first %s -> %s",kv.size(),kv[0].first.c_str(),en(r.rc)); return r; }
GetExtRes doGetExt(Proc* p,const std::vector<std::string>& names,i64 limit){ OpGuard g("rbus_getExt",lim(limit,130*SEC)); Api* a=p->a(); std::vector<char const*> c; for(auto& s:names) c.push_back(s.c_str()); int n=-77; rbusProperty_t pr=(rbusProperty_t)(uintptr_t)0x5a5a5a5a5a50; GetExtRes r; r.rc=a->rbus_getExt(p->h,(int)c.size(),c.data(),&n,&pr); if(r.rc==0){ if(pr==(rbusProperty_t)(uintptr_t)0x5a5a5a5a5a50) violate("getext:unset","getExt of %zu names, the first %s, reported success but left its result unset",names.size(),names[0].c_str()); for(rbusProperty_t q=pr;q;q=a->rbusProperty_GetNext(q)){ char const* nm=a->rbusProperty_GetName(q); r.vals.push_back({nm?nm:"",valStr(a->rbusProperty_GetValue(q))}); } if(n!=(int)r.vals.size()) violate("getext:count","getExt of %zu names, the first %s, said it returned %d values but returned %zu",names.size(),names[0].c_str(),n,r.vals.size()); if(pr) a->rbusProperty_Release(pr); } r.dur=g.elapsed(); logev("getExt %zu names first %s -> %s %zu values",names.size(),names[0].c_str(),en(r.rc),r.vals.size()); return r; }
MethRes doMethod(Proc* p,const std::string& name,const std::string& arg,i64 limit){ OpGuard g("rbusMethod_Invoke",lim(limit,DEF_BOUND)); Api* a=p->a(); rbusObject_t in,out=nullptr; a->rbusObject_Init(&in,nullptr); rbusValue_t v; a->rbusValue_Init(&v); a->rbusValue_SetString(v,arg.c_str()); a->rbusObject_SetValue(in,"arg",v); a->rbusValue_Release(v); MethRes r; r.errorCode=0; r.rc=a->rbusMethod_Invoke(p->h,name.c_str(),in,&out); a->rbusObject_Release(in); if(out){ rbusValue_t o=a->rbusObject_GetValue(out,"out"); if(o) r.out=valStr(o); a->rbusObject_Release(out); } r.dur=g.elapsed(); logev("invoke %s(%.30s) -> %s %.30s",name.c_str(),arg.c_str(),en(r.rc),r.out.c_str()); return r; }
extern "C" void evTramp(rbusHandle_t,rbusEvent_t const* e,rbusEventSubscription_t* s){ EvFn* f=(EvFn*)s->userData; if(f&&*f) (*f)(e,s); }
Rc doSub(Proc* p,const std::string& ev,EvFn* fn,int timeout,i64 limit){ OpGuard g("rbusEvent_Subscribe",lim(limit,DEF_BOUND+(i64)(timeout<0?600:timeout)*SEC)); Rc r; r.rc=p->a()->rbusEvent_Subscribe(p->h,ev.c_str(),evTramp,fn,timeout); r.dur=g.elapsed(); logev("subscribe %s -> %s",ev.c_str(),en(r.rc)); return r; }
Rc doSubEx(Proc* p,const std::string& ev,EvFn* fn,SubOpt o,int timeout,i64 limit){ OpGuard g("rbusEvent_SubscribeEx",lim(limit,DEF_BOUND+(i64)(timeout<0?600:timeout)*SEC)); rbusEventSubscription_t s; memset(&s,0,sizeof s); s.eventName=ev.c_str(); s.filter=o.filter; s.interval=o.interval; s.duration=o.duration; s.handler=(void*)evTramp; s.userData=fn; s.publishOnSubscribe=o.pubOnSub; Rc r; r.rc=p->a()->rbusEvent_SubscribeEx(p->h,&s,1,timeout); r.dur=g.elapsed(); logev("subscribeEx %s int %u dur %u filt %d -> %s",ev.c_str(),o.interval,o.duration,o.filter!=nullptr,en(r.rc)); return r; }
Rc doUnsub(Proc* p,const std::string& ev,i64 limit){ OpGuard g("rbusEvent_Unsubscribe",lim(limit,DEF_BOUND)); Rc r; r.rc=p->a()->rbusEvent_Unsubscribe(p->h,ev.c_str()); r.dur=g.elapsed(); logev("unsubscribe %s -> %s",ev.c_str(),en(r.rc)); return r; }
Rc doUnsubEx(Proc* p,const std::string& ev,EvFn* fn,SubOpt o,i64 limit){ OpGuard g("rbusEvent_UnsubscribeEx",lim(limit,DEF_BOUND)); rbusEventSubscription_t s; memset(&s,0,sizeof s); s.eventName=ev.c_str(); s.filter=o.filter; s.interval=o.interval; s.duration=o.duration; s.handler=(void*)evTramp; s.userData=fn; Rc r; r.rc=p->a()->rbusEvent_UnsubscribeEx(p->h,&s,1); r.dur=g.elapsed(); logev("unsubscribeEx %s -> %s",ev.c_str(),en(r.rc)); return r; }
Rc doPublish(Proc* p,const std::string& ev,const std::string& val,i64 limit,rbusEventType_t t){ OpGuard g("rbusEvent_Publish",lim(limit,DEF_BOUND)); Api* a=p->a(); rbusEvent_t e; memset(&e,0,sizeof e); rbusObject_t o; a->rbusObject_Init(&o,nullptr); rbusValue_t v; a->rbusValue_Init(&v); a->rbusValue_SetString(v,val.c_str()); a->rbusObject_SetValue(o,"v",v); a->rbusValue_Release(v); e.name=ev.c_str(); e.type=t; e.data=o; Rc r; r.rc=a->rbusEvent_Publish(p->h,&e); a->rbusObject_Release(o); r.dur=g.elapsed(); logev("publish %s %.30s -> %s",ev.c_str(),val.c_str(),en(r.rc)); return r; }
std::string evStr(rbusEvent_t const* e,const char* prop){ if(!e->data) return "<nodata>"; rbusValue_t v=A()->rbusObject_GetValue(e->data,prop); return v?valStr(v):"<none>"; }
std::string payload(u64 id,size_t n){ std::string s=strf("%llu:%zu:",(unsigned long long)id,n); u64 x=id*2654435761u+n; while(s.size()<n){ x=x*6364136223846793005ULL+1442695040888963407ULL; s+=(char)('a'+((x>>33)%26)); } return s; }
bool checkPayload(const std::string& s,u64* id){ unsigned long long i; size_t n; if(sscanf(s.c_str(),"%llu:%zu:",&i,&n)!=2) return false; *id=i; return s==payload(i,n); }
void netFaultsOff(){ K.delays=false; K.shortReads=false; K.shortWrites=false; K.stallPct=0; K.spuriousPct=0; }

void joinAll(const std::vector<Fiber*>& fs,const std::string& what,i64 limit){ OpGuard g(what,limit); for(auto f:fs) simJoin(f); }
// values as text: type:value; structured ones are built from a number and recognised by their text
static std::map<std::string,u64>& structured(){ static std::map<std::string,u64> m; return m; }
static std::string canonTree(rbusObject_t o,int depth){ Api* a=A(); std::string r; if(depth>8) return "too deep"; const char* nm=a->rbusObject_GetName(o); r+=strf("%s/%d{",nm?nm:"",(int)a->rbusObject_GetType(o)); r+=canonObj(o); for(rbusObject_t c=a->rbusObject_GetChildren(o);c;c=a->rbusObject_GetNext(c)) r+="("+canonTree(c,depth+1)+")"; return r+"}"; }
std::string canon(rbusValue_t v){ if(!v) return "null"; Api* a=A(); switch(a->rbusValue_GetType(v)){
  case RBUS_STRING: { int l=0; const char* s=a->rbusValue_GetString(v,&l); return std::string("s:")+(s?s:"<null>"); }
  case RBUS_INT32: return strf("i32:%d",a->rbusValue_GetInt32(v)); case RBUS_UINT32: return strf("u32:%u",a->rbusValue_GetUInt32(v)); case RBUS_INT64: return strf("i64:%lld",(long long)a->rbusValue_GetInt64(v)); case RBUS_UINT64: return strf("u64:%llu",(unsigned long long)a->rbusValue_GetUInt64(v));
  case RBUS_INT8: return strf("i8:%d",a->rbusValue_GetInt8(v)); case RBUS_UINT8: return strf("u8:%d",a->rbusValue_GetUInt8(v)); case RBUS_INT16: return strf("i16:%d",a->rbusValue_GetInt16(v)); case RBUS_UINT16: return strf("u16:%d",a->rbusValue_GetUInt16(v));
  case RBUS_CHAR: return strf("c:%d",a->rbusValue_GetChar(v)); case RBUS_BYTE: return strf("y:%d",a->rbusValue_GetByte(v)); case RBUS_SINGLE: return strf("f:%.9g",a->rbusValue_GetSingle(v));
  case RBUS_BOOLEAN: return a->rbusValue_GetBoolean(v)?"b:1":"b:0"; case RBUS_DOUBLE: return strf("d:%.17g",a->rbusValue_GetDouble(v));
  case RBUS_DATETIME: { auto t=a->rbusValue_GetTime(v); auto& m=t->m_time; return strf("t:%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d",m.tm_sec,m.tm_min,m.tm_hour,m.tm_mday,m.tm_mon,m.tm_year,m.tm_wday,m.tm_yday,m.tm_isdst,t->m_tz.m_tzhour,t->m_tz.m_tzmin,t->m_tz.m_isWest); }
  case RBUS_BYTES: { int l=0; const uint8_t* b=a->rbusValue_GetBytes(v,&l); std::string o="x:"; o.append((const char*)b,l); return o; }
  case RBUS_PROPERTY: { std::string r="p:"; for(rbusProperty_t p=a->rbusValue_GetProperty(v);p;p=a->rbusProperty_GetNext(p)){ const char* n=a->rbusProperty_GetName(p); r+=std::string(n?n:"?")+"="+canon(a->rbusProperty_GetValue(p))+";"; } return r; }
  case RBUS_OBJECT: return "o:"+(a->rbusValue_GetObject(v)?canonTree(a->rbusValue_GetObject(v),0):std::string("none"));
  default: return strf("type%d",a->rbusValue_GetType(v)); } }
static std::string scalar(u64 h){ switch(h%16){ case 0: return strf("i8:%d",(int)(int8_t)(h>>8)); case 1: return strf("u8:%d",(int)(uint8_t)(h>>8)); case 2: return strf("i16:%d",(int)(int16_t)(h>>8)); case 3: return strf("u16:%d",(int)(uint16_t)(h>>8)); case 4: return strf("c:%d",(int)(int8_t)(h>>8)); case 5: return strf("y:%d",(int)(uint8_t)(h>>8)); case 6: return strf("u64:%llu",(unsigned long long)(h*0x9E3779B97F4A7C15ULL)); case 7: return strf("f:%.9g",(float)((h>>8)*0.37));
  case 8: return strf("t:%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d",(int)((h>>4)%60),(int)((h>>5)%60),(int)((h>>6)%24),1+(int)((h>>7)%28),(int)((h>>9)%12),70+(int)((h>>11)%80),(int)((h>>13)%7),(int)((h>>14)%365),(int)((h>>15)%2),(int)((h>>16)%13),(int)((h>>17)%60),(int)((h>>18)%2)); case 9: return strf("i32:%d",(int)(h>>8)); case 10: return strf("u32:%u",(unsigned)(h>>8)); case 11: return strf("i64:%lld",(long long)(h*0x9E3779B97F4A7C15ULL)); case 12: return (h>>8)&1?"b:1":"b:0"; case 13: return strf("d:%.17g",(h>>8)*0.3); case 14: return "x:"+payload(h,(h>>8)%40); default: return "s:"+payload(h,(h>>8)%40); } }
static u64 mix64(u64 x){ x^=x>>31; x*=0x9E3779B97F4A7C15ULL; x^=x>>29; x*=0xBF58476D1CE4E5B9ULL; return x^(x>>32); }
static rbusProperty_t buildProps(u64 h,int n,int depth); 
static rbusObject_t buildTree(u64 h,int depth){ Api* a=A(); rbusObject_t o; h=mix64(h); std::string nm=strf("ob%u",(unsigned)h%1000); if(h&0x10000) a->rbusObject_InitMultiInstance(&o,nm.c_str()); else a->rbusObject_Init(&o,nm.c_str()); rbusProperty_t p=buildProps(h>>3,(h>>20)%4,depth+1); a->rbusObject_SetProperties(o,p); if(p) a->rbusProperty_Release(p);
  int nc= depth<2?(int)((h>>24)%3):0; rbusObject_t first=nullptr,prev=nullptr; for(int i=0;i<nc;i++){ rbusObject_t c=buildTree(h+i*77+1,depth+1); if(prev) a->rbusObject_SetNext(prev,c),a->rbusObject_Release(c); else first=c; prev=c; } if(first){ a->rbusObject_SetChildren(o,first); a->rbusObject_Release(first); } return o; }
static rbusValue_t buildValue(u64 h,int depth){ Api* a=A(); h=mix64(h); rbusValue_t v; if(depth<3&&h%7==0){ a->rbusValue_Init(&v); rbusObject_t o=buildTree(h,depth+1); a->rbusValue_SetObject(v,o); a->rbusObject_Release(o); return v; } if(depth<3&&h%7==1){ a->rbusValue_Init(&v); rbusProperty_t p=buildProps(h,1+(h>>9)%3,depth+1); a->rbusValue_SetProperty(v,p); a->rbusProperty_Release(p); return v; } return mkVal(scalar(h>>3)); }
static rbusProperty_t buildProps(u64 h,int n,int depth){ Api* a=A(); rbusProperty_t first=nullptr,prev=nullptr; for(int i=0;i<n;i++){ rbusValue_t v=buildValue(h+i*131,depth); rbusProperty_t p; a->rbusProperty_Init(&p,strf("q%d",i).c_str(),v); a->rbusValue_Release(v); if(prev) a->rbusProperty_SetNext(prev,p),a->rbusProperty_Release(p); else first=p; prev=p; } return first; }
static rbusValue_t mkStructured(u64 h){ Api* a=A(); rbusValue_t v; a->rbusValue_Init(&v); if(h&1){ rbusObject_t o=buildTree(h,0); a->rbusValue_SetObject(v,o); a->rbusObject_Release(o); } else { rbusProperty_t p=buildProps(h,1+(h>>1)%4,0); a->rbusValue_SetProperty(v,p); a->rbusProperty_Release(p); } return v; }
rbusValue_t mkVal(const std::string& c){ Api* a=A(); rbusValue_t v; size_t k=c.find(':'); std::string ty=c.substr(0,k),d=c.substr(k+1); if(ty=="o"||ty=="p"){ auto i=structured().find(c); if(i==structured().end()) internalError("no such value"); return mkStructured(i->second); } a->rbusValue_Init(&v);
  if(ty=="s") a->rbusValue_SetString(v,d.c_str()); else if(ty=="i32") a->rbusValue_SetInt32(v,atoi(d.c_str())); else if(ty=="u32") a->rbusValue_SetUInt32(v,strtoul(d.c_str(),0,10)); else if(ty=="i64") a->rbusValue_SetInt64(v,strtoll(d.c_str(),0,10)); else if(ty=="b") a->rbusValue_SetBoolean(v,d=="1"); else if(ty=="d") a->rbusValue_SetDouble(v,atof(d.c_str())); else if(ty=="i8") a->rbusValue_SetInt8(v,atoi(d.c_str())); else if(ty=="u8") a->rbusValue_SetUInt8(v,atoi(d.c_str())); else if(ty=="i16") a->rbusValue_SetInt16(v,atoi(d.c_str())); else if(ty=="u16") a->rbusValue_SetUInt16(v,atoi(d.c_str())); else if(ty=="u64") a->rbusValue_SetUInt64(v,strtoull(d.c_str(),0,10)); else if(ty=="c") a->rbusValue_SetChar(v,(char)atoi(d.c_str())); else if(ty=="y") a->rbusValue_SetByte(v,(unsigned char)atoi(d.c_str())); else if(ty=="f") a->rbusValue_SetSingle(v,strtof(d.c_str(),nullptr));
  else if(ty=="t"){ rbusDateTime_t t; memset(&t,0,sizeof t); int west=0; auto& m=t.m_time; sscanf(d.c_str(),"%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d",&m.tm_sec,&m.tm_min,&m.tm_hour,&m.tm_mday,&m.tm_mon,&m.tm_year,&m.tm_wday,&m.tm_yday,&m.tm_isdst,&t.m_tz.m_tzhour,&t.m_tz.m_tzmin,&west); t.m_tz.m_isWest=west; a->rbusValue_SetTime(v,&t); }
  else a->rbusValue_SetBytes(v,(uint8_t const*)d.data(),(int)d.size());
  return v; }
std::string structVal(u64 id){ rbusValue_t v=mkStructured(mix64(id)); std::string c=canon(v); A()->rbusValue_Release(v); structured()[c]=mix64(id); return c; }
std::string randVal(u64 id,size_t maxLen){ switch(choose(ST_WORK,10)){ case 1: return strf("i32:%d",(int)(id*77731)-1000); case 2: return strf("u32:%u",(unsigned)(id*2654435761u)); case 3: return strf("i64:%lld",(long long)(id*0x9E3779B97F4A7C15ULL)); case 4: return (id&1)?"b:1":"b:0"; case 5: return strf("d:%.17g",id*1.25+0.1); 
  case 6: { size_t n=1+choose(ST_WORK,(u32)maxLen); std::string o="x:"; u64 x=id; for(size_t i=0;i<n;i++){ x=x*6364136223846793005ULL+1; o+=(char)(x>>40); } return o; }
  case 7: return "s:"+payload(id,choose(ST_WORK,(u32)maxLen)); case 8: return scalar(mix64(id)); case 9: return structVal(id); default: return "s:"+payload(id,8); } }
std::string canonObj(rbusObject_t o){ if(!o) return "null"; Api* a=A(); std::string r; for(rbusProperty_t p=a->rbusObject_GetProperties(o);p;p=a->rbusProperty_GetNext(p)){ const char* n=a->rbusProperty_GetName(p); r+=std::string(n?n:"?")+"="+canon(a->rbusProperty_GetValue(p))+";"; } return r; }
rbusObject_t mkObj(const std::vector<std::pair<std::string,std::string>>& kv){ Api* a=A(); rbusObject_t o; a->rbusObject_Init(&o,nullptr); for(auto& x:kv){ rbusValue_t v=mkVal(x.second); a->rbusObject_SetValue(o,x.first.c_str(),v); a->rbusValue_Release(v); } return o; }
static std::string shortS(const std::string& s){ std::string o=s.substr(0,40); for(auto& c:o) if((unsigned char)c<32||(unsigned char)c>126) c='.'; return o; }
Rc doSetC(Proc* p,const std::string& name,const std::string& c,i64 limit){ OpGuard g("rbus_set",lim(limit,DEF_BOUND)); rbusValue_t v=mkVal(c); Rc r; r.rc=p->a()->rbus_set(p->h,name.c_str(),v,nullptr); p->a()->rbusValue_Release(v); r.dur=g.elapsed(); logev("set %s=%s -> %s",name.c_str(),shortS(c).c_str(),en(r.rc)); return r; }
GetC doGetC(Proc* p,const std::string& name,i64 limit){ OpGuard g("rbus_get",lim(limit,DEF_BOUND)); rbusValue_t v=nullptr; GetC r; r.rc=p->a()->rbus_get(p->h,name.c_str(),&v); if(r.rc==0){ r.val=canon(v); if(v) p->a()->rbusValue_Release(v); } r.dur=g.elapsed(); logev("get %s -> %s %s",name.c_str(),en(r.rc),shortS(r.val).c_str()); return r; }
MethC doMethC(Proc* p,const std::string& name,const std::vector<std::pair<std::string,std::string>>& kv,i64 limit){ OpGuard g("rbusMethod_Invoke",lim(limit,DEF_BOUND)); rbusObject_t in=mkObj(kv),out=nullptr; MethC r; r.rc=p->a()->rbusMethod_Invoke(p->h,name.c_str(),in,&out); p->a()->rbusObject_Release(in); if(out){ r.out=canonObj(out); p->a()->rbusObject_Release(out); } r.dur=g.elapsed(); logev("invoke %s(%s) -> %s %s",name.c_str(),kv.size()?shortS(kv[0].second).c_str():"",en(r.rc),shortS(r.out).c_str()); return r; }
void swarm(bool delay,bool stall){ drawSchedKnobs(true); drawNetKnobs(delay); if(stall) drawStallKnobs(); }
void setTimeouts(Proc* p,uint32_t ms){ p->a()->rbusHandle_ConfigGetTimeout(p->h,ms); p->a()->rbusHandle_ConfigSetTimeout(p->h,ms); }
bool waitFor(const char* cls,std::function<bool()> f,i64 limit,const std::string& msg){ if(simWaitUntil(f,limit)) return true; violate(cls,"%s (waited %.1f simulated s)",msg.c_str(),limit/1e9); }
AddRes doAddRow(Proc* p,const std::string& t,const char* alias,i64 limit){ OpGuard g("rbusTable_addRow",lim(limit,DEF_BOUND)); AddRes r; r.inst=0; r.rc=p->a()->rbusTable_addRow(p->h,t.c_str(),alias,&r.inst); r.dur=g.elapsed(); logev("addRow %s %s -> %s %u",t.c_str(),alias?alias:"-",en(r.rc),r.inst); return r; }
Rc doRemoveRow(Proc* p,const std::string& row,i64 limit){ OpGuard g("rbusTable_removeRow",lim(limit,DEF_BOUND)); Rc r; r.rc=p->a()->rbusTable_removeRow(p->h,row.c_str()); r.dur=g.elapsed(); logev("removeRow %s -> %s",row.c_str(),en(r.rc)); return r; }

// Wall-clock steps: NTP corrections of a few ms, a boot in 1970 followed by the real date, a day or twenty years back.
static void clockStep(){ if(choose(ST_FAULT,4)){ i64 real=g_now+g_realOff, d=0; switch(choose(ST_FAULT,7)){ case 0: d=chooseRange(ST_FAULT,1*MS,SEC); break; case 1: d=-chooseRange(ST_FAULT,1*MS,SEC); break; case 2: d=chooseRange(ST_FAULT,SEC,3600*SEC); break; case 3: d=-chooseRange(ST_FAULT,SEC,3600*SEC); break; case 4: d=chooseRange(ST_FAULT,1,7300)*86400*SEC; break; case 5: d=-chooseRange(ST_FAULT,1,7300)*86400*SEC; break; case 6: d=chooseRange(ST_FAULT,0,100)*SEC-real; break; } if(real+d<SEC) d=SEC-real; if(real+d>100*365*86400LL*SEC) d=1000000000LL*SEC-real; simJumpClock(d); }
  at(g_now+(choose(ST_FAULT,3)?chooseRange(ST_FAULT,1*MS,3*SEC):chooseRange(ST_FAULT,1*US,50*MS)),clockStep); }
void clockSteps(){ g_realOff=pick<i64>(ST_CFG,{1700000000LL,0,2147483640LL,4000000000LL})*SEC; at(g_now+chooseRange(ST_FAULT,0,SEC),clockStep); }
