// C18 asynchronous method calls: one callback each, right result, in time.
#include "world.h"
typedef std::vector<std::pair<std::string,std::string>> KV;
struct T18; static T18* s_t;
struct T18 {
  int np=1,nc=2,M=3; std::vector<Proc*> P,C; bool slow=false,crashes=false; std::vector<i64> upSince,slowUntil; u64 nextId=1; u64 okCount=0; bool stop=false;
  struct Call { u64 id; i64 t0,tmo; int cbs=0; bool accepted=false; bool multi=false; std::string mode; int p; };
  std::map<u64,Call> calls; std::map<std::pair<Proc*,std::string>,u64> cur; std::map<std::pair<Proc*,std::string>,int> issuedM,cbM; std::map<u64,int> ran; u64 reliableFail=0;
  std::string el(int p,int c,int k){ return k<0?strf("Device.P%d.shared()",p):strf("Device.P%d.c%dm%d()",p,c,k); }
  bool reliable(int i,i64 t0){ return upSince[i]>=0&&upSince[i]<=t0&&slowUntil[i]<=t0; }
  void stall(int i){ if(slow&&chance(ST_WORK,1,8)){ fault(F_SLOWPROVIDER); i64 d=chooseRange(ST_FAULT,500*MS,7*SEC); slowUntil[i]=std::max(slowUntil[i],g_now+d+SEC); simSleep(d); slowUntil[i]=std::max(slowUntil[i],g_now+SEC); } }
  void regAll(int i){ Proc* p=P[i]; p->onMethod=[this,p,i](const std::string& nm,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t ah)->rbusError_t{ Api* a=A(); std::string args=canonObj(in); rbusValue_t iv=a->rbusObject_GetValue(in,"id"); u64 id=iv?(u64)a->rbusValue_GetInt64(iv):0; rbusValue_t mv=a->rbusObject_GetValue(in,"mode"); std::string mode=mv?valStr(mv):"?"; if(!id) violate("async:args","a method handler got arguments without id: %.100s",args.c_str()); if(++ran[id]>1) violate("async:dispatched-twice","the handler ran %d times for call %llu",ran[id],(unsigned long long)id);
      stall(i); std::string res="s:"+nm+"|"+args;
      if(mode=="later"||mode=="latererr"||mode=="latererr0"){ simThread(p->n,"responder",[this,ah,res,a,mode,id,i]{ simSleep(chooseRange(ST_WORK,0,choose(ST_WORK,3)?80*MS:700*MS)); stall(i); rbusObject_t o=nullptr; if(mode!="latererr0") o=mkObj({{"id",strf("i64:%llu",(unsigned long long)id)},{"out",res}}); rbusError_t e=a->rbusMethod_SendAsyncResponse(ah,mode=="later"?RBUS_ERROR_SUCCESS:RBUS_ERROR_INVALID_PARAMETER_VALUE,o); if(e) violate("async:send-response","rbusMethod_SendAsyncResponse returned %s",en(e)); if(o) a->rbusObject_Release(o); }); return RBUS_ERROR_ASYNC_RESPONSE; }
      rbusValue_t v=mkVal(strf("i64:%llu",(unsigned long long)id)); a->rbusObject_SetValue(out,"id",v); a->rbusValue_Release(v); v=mkVal(res); a->rbusObject_SetValue(out,"out",v); a->rbusValue_Release(v); return mode=="err"?RBUS_ERROR_INVALID_PARAMETER_VALUE:RBUS_ERROR_SUCCESS; };
    std::vector<El> e; for(int c=0;c<nc;c++) for(int k=0;k<M;k++) e.push_back({el(i,c,k),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); e.push_back({el(i,0,-1),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); rbusError_t rc=RBUS_ERROR_BUS_ERROR; call(p,"reg",60*SEC,[&]{ rc=reg(p,e); }); if(rc) violate("setup:reg","registering failed: %s",en(rc)); }
  void result(Proc* c,u64 id,const std::string& nm,rbusError_t err,rbusObject_t out,bool sync){ Call& k=calls[id]; (void)c; Api* a=A();
    if(err==RBUS_ERROR_SUCCESS||err==RBUS_ERROR_INVALID_PARAMETER_VALUE){ bool ok=err==0; bool wantOk=k.mode=="now"||k.mode=="later"; if(ok!=wantOk) violate("async:wrong-code","call %llu of %s in mode %s got %s",(unsigned long long)id,nm.c_str(),k.mode.c_str(),en(err)); if(!ran.count(id)) violate("async:not-run","call %llu of %s got a result but no handler ran for it",(unsigned long long)id,nm.c_str()); okCount++;
      if(k.mode!="latererr0"){ rbusValue_t v=out?a->rbusObject_GetValue(out,"out"):nullptr; std::string s=v?valStr(v):"<none>"; if(s.compare(0,nm.size()+1,nm+"|")||s.find(strf("id=i64:%llu;",(unsigned long long)id))==std::string::npos) violate("async:wrong-result","call %llu of %s got the result '%.120s'",(unsigned long long)id,nm.c_str(),s.c_str()); } else { rbusValue_t v=out?a->rbusObject_GetValue(out,"error_code"):nullptr; if(!v||a->rbusValue_GetInt32(v)!=RBUS_ERROR_INVALID_PARAMETER_VALUE) violate("async:error-code","an asynchronous error answer carries no error_code"); } }
    else { if(reliable(k.p,k.t0)&&!slow) violate(strf("async:failed:%s",en(err)),"call %llu of %s (%s) failed with %s although its provider is up and prompt",(unsigned long long)id,nm.c_str(),sync?"sync":"async",en(err)); }
    i64 d=g_now-k.t0; if(d>k.tmo+8*SEC) violate("async:late","the result of call %llu of %s came %.1f s after the call, its timeout is %.1f s",(unsigned long long)id,nm.c_str(),d/1e9,k.tmo/1e9); }
  void cb(Proc* c,const char* nm,rbusError_t err,rbusObject_t out){ Api* a=A(); std::string n=nm?nm:""; logev("callback %s %s",n.c_str(),en(err)); auto key=std::make_pair(c,n); cbM[key]++; if(cbM[key]>issuedM[key]) violate("async:extra-callback","%s had %d callbacks for %d accepted calls",n.c_str(),cbM[key],issuedM[key]);
    rbusValue_t v=out?a->rbusObject_GetValue(out,"id"):nullptr; u64 id=v?(u64)a->rbusValue_GetInt64(v):0; if(n.find("shared")==std::string::npos){ u64 want=cur[key]; if(!want) violate("async:extra-callback","%s was called back although no call is outstanding",n.c_str()); if(id&&id!=want) violate("async:swapped","the callback for call %llu of %s carries the result of call %llu",(unsigned long long)want,n.c_str(),(unsigned long long)id); id=want; cur[key]=0; }
    else if(id){ if(!calls.count(id)||calls[id].mode=="?") violate("async:unknown","a callback of %s carries unknown call %llu",n.c_str(),(unsigned long long)id); }
    if(id){ Call& k=calls[id]; if(++k.cbs>1) violate("async:duplicate","call %llu of %s was called back %d times",(unsigned long long)id,n.c_str(),k.cbs); result(c,id,n,err,out,false); } if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); }
  void invoke(Proc* c,int ci){ bool async=choose(ST_WORK,4)!=3; int p=choose(ST_WORK,np),k=(int)choose(ST_WORK,M+1)-1; std::string nm=el(p,ci,k); auto key=std::make_pair(c,nm); if(k>=0&&cur[key]) return; u64 id=nextId++; if(async&&k>=0) cur[key]=id; int T=choose(ST_WORK,4)==1?0:1+choose(ST_WORK,5); Call& q=calls[id]; q={id,g_now,(i64)(T?T:15)*SEC,0,false,k<0,pick<std::string>(ST_WORK,{"now","later","err","latererr","latererr0"}),p}; Api* a=c->a(); KV kv={{"id",strf("i64:%llu",(unsigned long long)id)},{"mode","s:"+q.mode}}; if(choose(ST_WORK,3)==1) kv.push_back({"x",randVal(id,200)});
    rbusObject_t in=mkObj(kv); if(async){ issuedM[key]++; rbusError_t rc; { OpGuard g("rbusMethod_InvokeAsync",2*SEC); rc=a->rbusMethod_InvokeAsync(c->h,nm.c_str(),in,[](rbusHandle_t,char const* m,rbusError_t e,rbusObject_t o){ s_t->cb((Proc*)g_cur->node->app,m,e,o); },T); logev("invokeAsync %s #%llu %s tmo %d -> %s",nm.c_str(),(unsigned long long)id,q.mode.c_str(),T,en(rc)); } if(rc) violate("async:refused","rbusMethod_InvokeAsync returned %s",en(rc)); a->rbusObject_Release(in); calls[id].accepted=true; }
    else { calls[id].tmo=15*SEC; rbusObject_t out=nullptr; rbusError_t rc; { OpGuard g("rbusMethod_Invoke",DEF_BOUND); rc=a->rbusMethod_Invoke(c->h,nm.c_str(),in,&out); logev("invoke %s #%llu %s -> %s",nm.c_str(),(unsigned long long)id,q.mode.c_str(),en(rc)); } a->rbusObject_Release(in); result(c,id,nm,rc,out,true); if(out) a->rbusObject_Release(out); } }
  void run(){ s_t=this; startRouter(); upSince.assign(np,-1); slowUntil.assign(np,-10*SEC); for(int i=0;i<np;i++){ P.push_back(proc(strf("prov%d",i))); startAndOpen(P[i]); regAll(i); upSince[i]=g_now; } for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); }
    int ops=4+choose(ST_CFG,12); std::vector<Fiber*> fs; Fiber* kf=nullptr; for(int ci=0;ci<nc;ci++) for(int t=0;t<1+(int)choose(ST_CFG,2);t++) fs.push_back(bg(C[ci],"w",[this,ci,ops]{ for(int k=0;k<ops;k++){ invoke(C[ci],ci); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,40*MS)); } }));
    if(crashes) kf=simThread(g_router,"killer",[this]{ while(!stop){ simSleep(chooseRange(ST_FAULT,1*MS,400*MS)); if(stop) break; int i=choose(ST_FAULT,np); upSince[i]=-1; crash(P[i]); simSleep(chooseRange(ST_FAULT,300*MS,3*SEC)); startAndOpen(P[i]); regAll(i); upSince[i]=g_now+1; } });
    joinAll(fs,"async workload",3000*SEC); stop=true; if(kf) joinAll({kf},"killer",100*SEC);
    waitFor("async:no-callback",[this]{ for(auto& x:issuedM) if(x.first.first->alive()&&cbM[x.first]<x.second) return false; return true; },(slow?60:30)*SEC,"an accepted asynchronous call was never called back"); simSleep(20*SEC); g_sh->nontrivial=okCount>2; }
};
SCENARIO_W(C18,plain,3){ swarm(); T18 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,3); t.run(); }
SCENARIO_W(C18,slow,2){ swarm(); T18 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.slow=true; t.run(); }
SCENARIO_W(C18,crash,2){ swarm(); T18 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.crashes=true; t.run(); }
SCENARIO_W(C24,async,1){ swarm(); clockSteps(); T18 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.slow=true; t.run(); }
