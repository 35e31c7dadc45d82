// C01 correlation, C02 single dispatch, C15 framing, C03 timeouts: request/response workloads.
#include "world.h"
typedef std::vector<std::pair<std::string,std::string>> KV;
struct RpcCfg { int np=2,nc=2,nt=2,ops=6; bool slow=false; bool crashes=false; bool routerCrash=false; bool async=true; bool nested=true; size_t maxLen=300; uint32_t timeoutMs=0; bool bigOnly=false; bool twoHandles=false; bool longLater=false; };
static std::string kvCanon(const KV& kv){ std::string r; for(auto& x:kv) r+=x.first+"="+x.second+";"; return r; }
static KV randArgs(u64 id,size_t maxLen){ KV kv; kv.push_back({"id",strf("i64:%llu",(unsigned long long)id)}); int n=choose(ST_WORK,4); for(int i=0;i<n;i++) kv.push_back({strf("p%d",i),randVal(id*7+i,maxLen)}); return kv; }
struct Rpc { bool longPending=false;
  RpcCfg c; std::vector<Proc*> P,C; bool faulty=false, slowUsed=false; u64 nextId=1, nextTok=1; 
  std::map<std::string,int> sent,succ,ran;           // "kind|element|arg" -> counts
  struct Tok { std::string el; i64 issued; int uses=0; };
  std::map<u64,Tok> toks;
  std::string key(const char* k,const std::string& el,const std::string& a){ return std::string(k)+"|"+el+"|"+a; }
  bool mayFail(){ return faulty||slowUsed; }
  i64 bound(){ return (i64)(c.timeoutMs?c.timeoutMs:15000)*MS+10*SEC; }
  void setup(){
    startRouter();
    for(int i=0;i<c.np;i++) P.push_back(proc(strf("prov%d",i)));
    for(int i=0;i<c.nc;i++) C.push_back(proc(strf("cons%d",i)));
    for(auto p:P){ startAndOpen(p); regAll(p); }
    for(auto p:C){ startAndOpen(p); if(c.timeoutMs) call(p,"cfg",SEC*5,[&]{ setTimeouts(p,c.timeoutMs); }); } }
  std::string el(int p,const char* w){ return strf("Device.P%d.%s",p,w); }
  void maybeSlow(){ if(c.slow && chance(ST_WORK,1,8)){ slowUsed=true; fault(F_SLOWPROVIDER); i64 t=(i64)(c.timeoutMs?c.timeoutMs:15000)*MS; simSleep(chooseRange(ST_FAULT,t/2,t+t/2)); } }
  void regAll(Proc* p){
    int i=atoi(p->comp.c_str()+4);
    p->onGet=[this](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t*)->rbusError_t{ ran[key("get",nm,"")]++; u64 t=nextTok++; toks[t]={nm,g_now}; 
      if(nm.find(".big")!=std::string::npos){ std::string s=payload(t,choose(ST_WORK,(u32)c.maxLen)); maybeSlow(); setVal(pr,s); } else { maybeSlow(); setVal(pr,payload(t,10)); } return RBUS_ERROR_SUCCESS; };
    p->onSet=[this](const std::string& nm,rbusProperty_t pr,rbusSetHandlerOptions_t*)->rbusError_t{ ran[key("set",nm,canon(A()->rbusProperty_GetValue(pr)))]++; maybeSlow(); if(nm.find(".ro")!=std::string::npos) return RBUS_ERROR_ACCESS_NOT_ALLOWED; return RBUS_ERROR_SUCCESS; };
    p->onMethod=[this,p](const std::string& nm,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t ah)->rbusError_t{ std::string a=canonObj(in); ran[key("m",nm,a)]++; Api* api=A();
      std::string res="s:"+p->comp+"|"+nm+"|"+a; 
      if(nm.find("fail")!=std::string::npos){ maybeSlow(); return RBUS_ERROR_INVALID_PARAMETER_VALUE; }
      if(nm.find("later")!=std::string::npos){ // answered from another thread, later
        simThread(p->n,"responder",[this,ah,res,api]{ bool lng=c.longLater&&!longPending&&chance(ST_WORK,1,6); if(lng) longPending=true; if(lng&&choose(ST_WORK,3)){ u64 target=nextId+pick<int>(ST_WORK,{256,255,257,254,128,64,258,512}); i64 until=g_now+12*SEC; for(i64 d=300*US;nextId<target&&g_now<until;){ u64 n0=nextId; simSleep(d); d=nextId>n0?300*US:std::min<i64>(2*d,500*MS); } } else simSleep(lng?chooseRange(ST_WORK,1*SEC,12*SEC):chooseRange(ST_WORK,0,c.longLater?4*MS:60*MS)); longPending=longPending&&!lng; maybeSlow(); rbusObject_t o=mkObj({{"out",res}}); api->rbusMethod_SendAsyncResponse(ah,RBUS_ERROR_SUCCESS,o); api->rbusObject_Release(o); });
        return RBUS_ERROR_ASYNC_RESPONSE; }
      maybeSlow();
      rbusValue_t v=mkVal(res); api->rbusObject_SetValue(out,"out",v); api->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    rbusError_t rc=RBUS_ERROR_BUS_ERROR;
    call(p,"reg",60*SEC,[&]{ rc=reg(p,{{el(i,"v"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{el(i,"big"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{el(i,"ro"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{el(i,"echo()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{el(i,"fail()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{el(i,"later()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}}); });
    if(rc) violate("setup:reg","registering elements failed: %s",en(rc)); }
  void bad(const char* what,rbusError_t rc,const std::string& el){ violate(strf("call-failed:%s:%s",what,en(rc)),"%s on %s failed with %s although its provider is up and prompt",what,el.c_str(),en(rc)); }
  void op(Proc* p){
    int i=choose(ST_WORK,c.np); u64 id=nextId++; int k=choose(ST_WORK,c.async?7:6); if(c.bigOnly&&k==0) k=1;
    switch(k){
    case 0: case 1: { std::string e=el(i,k?"big":"v"); std::string ky=key("get",e,""); sent[ky]++; i64 t0=g_now; GetC r=doGetC(p,e,bound()); 
      if(r.rc==0){ succ[ky]++; u64 t; if(r.val.compare(0,2,"s:")||!checkPayload(r.val.substr(2),&t)) violate("wrong-answer:get-garbled","get %s returned a value that no handler produced: %.60s (%zu bytes)",e.c_str(),r.val.c_str(),r.val.size());
        auto it=toks.find(t); if(it==toks.end()) violate("wrong-answer:get-unknown","get %s returned token %llu that no handler issued",e.c_str(),(unsigned long long)t);
        if(it->second.el!=e) violate("wrong-answer:get-other-element","get %s returned the answer of %s",e.c_str(),it->second.el.c_str());
        if(it->second.issued<t0) violate("wrong-answer:get-stale","get %s returned an answer produced %.6fs before the call",e.c_str(),(t0-it->second.issued)/1e9);
        if(++it->second.uses>1) violate("wrong-answer:get-duplicated","one answer of %s was returned to two calls",e.c_str()); }
      else if(!mayFail()) bad("get",r.rc,e); } break;
    case 2: case 3: { bool ro=choose(ST_WORK,4)==1; std::string e=el(i,ro?"ro":"v"); std::string v=randVal(id,c.maxLen); std::string ky=key("set",e,v); sent[ky]++; Rc r=doSetC(p,e,v,bound());
      if(r.rc==(ro?RBUS_ERROR_ACCESS_NOT_ALLOWED:RBUS_ERROR_SUCCESS)) succ[ky]++; else if(r.rc==0||!mayFail()){ if(r.rc==0||r.rc==RBUS_ERROR_ACCESS_NOT_ALLOWED) violate("wrong-answer:set-code","set %s returned %s",e.c_str(),en(r.rc)); bad("set",r.rc,e); } } break;
    default: { const char* m= k==6?"later()":k==5?"fail()":"echo()"; std::string e=el(i,m); KV kv=randArgs(id,c.maxLen); std::string a=kvCanon(kv); std::string ky=key("m",e,a); sent[ky]++; MethC r=doMethC(p,e,kv,bound());
      if(k==5){ if(r.rc==RBUS_ERROR_INVALID_PARAMETER_VALUE) succ[ky]++; else if(r.rc==0) violate("wrong-answer:method-code","method %s succeeded although its handler rejects",e.c_str()); else if(!mayFail()) bad("method",r.rc,e); }
      else if(r.rc==0){ succ[ky]++; std::string want=strf("out=s:prov%d|",i)+e+"|"+a+";"; if(r.out!=want.substr(0,want.size())&&r.out!=cutNul(want)) violate("wrong-answer:method","method %s(%s) returned %.200s",e.c_str(),a.substr(0,60).c_str(),r.out.c_str()); }
      else if(r.rc==RBUS_ERROR_INVALID_PARAMETER_VALUE) violate("wrong-answer:method-code","method %s got another call's error",e.c_str());
      else if(!mayFail()) bad("method",r.rc,e); } break;
    } }
  static std::string cutNul(std::string s){ size_t n=s.find('\0'); if(n==std::string::npos) return s; return s.substr(0,n)+";"; }
  void dispatchCheck(bool final){
    for(auto& r:ran){ int s=sent.count(r.first)?sent[r.first]:0; if(r.second>s) violate(s?"dispatch:duplicated":"dispatch:unsent","handler for %.120s ran %d times but was requested %d times",r.first.c_str(),r.second,s); }
    if(final) for(auto& s:succ) if(ran[s.first]<s.second) violate("dispatch:false-success","%.120s: %d calls reported the handler's result but the handler ran %d times",s.first.c_str(),s.second,ran[s.first]); }
  void run(){
    std::vector<Fiber*> fs; 
    for(auto p:C) for(int t=0;t<c.nt;t++) fs.push_back(bg(p,strf("w%d",t),[this,p]{ for(int k=0;k<c.ops;k++){ op(p); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,3*MS)); dispatchCheck(false); } }));
    joinAll(fs,"workload",(i64)c.ops*c.nt*c.nc*bound()+60*SEC);
    if(c.slow) simSleep(40*SEC);
    simSleep(1*SEC); dispatchCheck(true); g_sh->nontrivial=1; }
};
static RpcCfg drawRpc(){ RpcCfg c; c.np=1+choose(ST_CFG,3); c.nc=1+choose(ST_CFG,3); c.nt=1+choose(ST_CFG,3); c.ops=2+choose(ST_CFG,7); return c; }
SCENARIO_W(C01,mix,3){ swarm(); Rpc r; r.c=drawRpc(); r.setup(); r.run(); }
SCENARIO_W(C01,slow,3){ swarm(); Rpc r; r.c=drawRpc(); r.c.slow=true; r.c.timeoutMs=500+choose(ST_CFG,3)*700; r.setup(); r.run(); }
SCENARIO_W(C02,mix,3){ swarm(); Rpc r; r.c=drawRpc(); r.setup(); r.run(); }
SCENARIO_W(C02,slow,1){ swarm(); Rpc r; r.c=drawRpc(); r.c.slow=true; r.c.timeoutMs=500+choose(ST_CFG,3)*700; r.setup(); r.run(); }
SCENARIO_W(C15,rpc,3){ drawSchedKnobs(); drawNetKnobs(); K.shortReads=true; K.delays=true; K.shortWrites=chance(ST_CFG,1,2); if(chance(ST_CFG,1,2)) K.sockBuf=512u<<choose(ST_CFG,8); Rpc r; r.c=drawRpc(); r.c.nt=1+choose(ST_CFG,2); r.c.maxLen= pick<size_t>(ST_CFG,{3000,70000,150000,600}); r.c.bigOnly=true; if(r.c.maxLen>3000){ K.sockBuf=std::max<u32>(K.sockBuf,r.c.maxLen/64); if(K.sockBuf<r.c.maxLen) K.maxDelay=std::min<i64>(K.maxDelay,MS); } r.c.ops=2+choose(ST_CFG,4); if(r.c.maxLen>3000) K.shortReadPct=5; r.setup(); r.run(); }
// long-lived connections: sequence numbers, buffers and pending lists over many hundred calls
SCENARIO_W(C01,soak,1){ if(chance(ST_CFG,1,3)) swarm(); else drawSchedKnobs(); K.busyLimit=1000000; Rpc r; r.c=drawRpc(); r.c.nc=1+choose(ST_CFG,2); r.c.nt=1+choose(ST_CFG,2); r.c.ops=pick<int>(ST_CFG,{20,100,300}); r.c.maxLen=40; if(chance(ST_CFG,2,3)){ r.c.longLater=true; r.c.nc=1; r.c.nt=2+choose(ST_CFG,2); if(r.c.ops==100) r.c.ops=400; } r.setup(); r.run(); }
