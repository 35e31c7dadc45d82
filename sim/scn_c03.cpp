// C03: every blocking call completes within its timeout; not-found is prompt; success only with an answer.
#include "world.h"
struct T3 {
  Proc *P,*Q; std::vector<Proc*> C; u32 T; u64 next=1; std::set<std::string> answered; i64 pDead=-1; bool restarted=false; bool slack1=false;
  i64 T_(){ return (i64)T*MS; }
  rbusError_t behave(const std::string& tag){
    int b=choose(ST_FAULT,9);
    if(b==1){ fault(F_SLOWPROVIDER); simSleep(chooseRange(ST_FAULT,T_()/2,T_()*2)); }
    else if(b==2){ fault(F_SLOWPROVIDER); simSleep(chooseRange(ST_FAULT,T_()-2*MS,T_()+2*MS)); }
    else if(b==3){ fault(F_SLOWPROVIDER); simSleep(3600*SEC); }
    else if(b==4 && chance(ST_FAULT,1,2)){ pDead=g_now; crash(P); }
    answered.insert(tag);
    return RBUS_ERROR_SUCCESS; }
  void setup(){
    startRouter(); P=proc("prov"); Q=proc("good"); int nc=1+choose(ST_CFG,2); for(int i=0;i<nc;i++) C.push_back(proc(strf("cons%d",i)));
    T=pick<u32>(ST_CFG,{1000,400,2500});
    startAndOpen(P); startAndOpen(Q); for(auto c:C) startAndOpen(c);
    P->onGet=[this](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t*){ u64 t=next++; behave(""); answered.insert(strf("g%llu",(unsigned long long)t)); setVal(pr,strf("g%llu",(unsigned long long)t)); return RBUS_ERROR_SUCCESS; };
    P->onSet=[this](const std::string& nm,rbusProperty_t pr,rbusSetHandlerOptions_t*){ return behave("s"+valStr(A()->rbusProperty_GetValue(pr))); };
    P->onMethod=[this](const std::string& nm,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t ah)->rbusError_t{ Api* a=A(); std::string arg=valStr(a->rbusObject_GetValue(in,"arg")); behave("m"+arg); rbusValue_t v; a->rbusValue_Init(&v); a->rbusValue_SetString(v,("r"+arg).c_str()); a->rbusObject_SetValue(out,"out",v); a->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    P->onAddRow=[this](const std::string& t,const char* al,uint32_t* inst){ static u32 n=0; *inst=++n; return behave(strf("a%u",*inst)); };
    P->onRemoveRow=[this](const std::string& r){ return behave("d"+r); };
    call(P,"reg",60*SEC,[&]{ if(reg(P,{{"Device.P.v",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{"Device.P.w",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{"Device.P.m()",RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{"Device.P.T.{i}.",RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{"Device.P.T.{i}.x",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}})) violate("setup:reg","registering elements failed"); });
    call(Q,"reg",60*SEC,[&]{ if(reg(Q,{{"Device.Q.v",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}})) violate("setup:reg","registering elements failed"); Q->store["Device.Q.v"]="qq"; });
    for(auto c:C) call(c,"cfg",5*SEC,[&]{ setTimeouts(c,T); c->a()->rbusHandle_ConfigSetMultiTimeout(c->h,T); c->a()->rbusHandle_ConfigGetMultiTimeout(c->h,T); }); }
  void dur(const char* what,i64 d,rbusError_t rc,i64 t0,int batches=1){
    if(d>batches*T_()+SEC) violate(strf("late:%s",what),"%s took %.3fs with a timeout of %.3fs (%s)",what,d/1e9,T_()/1e9,en(rc)); 
    if(pDead>=0 && t0>pDead+500*MS){ if(rc==0) violate(strf("false-success:%s-dead",what),"%s to a crashed provider reported success",what); if(d>SEC) violate(strf("not-prompt:%s",what),"%s to a provider that crashed %.3fs before took %.3fs (%s)",what,(t0-pDead)/1e9,d/1e9,en(rc)); if(!notFoundRc(rc)) violate(strf("wrong-code:%s:%s",what,en(rc)),"%s to a crashed provider returned %s",what,en(rc)); } }
  void op(Proc* c){
    i64 L=T_()*4+10*SEC; i64 t0=g_now; 
    switch(choose(ST_WORK,11)){
    case 0: { GetRes r=doGet(c,"Device.P.v",L); dur("get",r.dur,r.rc,t0); if(r.rc==0&&!answered.count(r.val)) violate("false-success:get","get reported success with '%s' which no handler returned",r.val.c_str()); } break;
    case 1: { std::string v=strf("%llu",(unsigned long long)next++); Rc r=doSet(c,"Device.P.v",v,L); dur("set",r.dur,r.rc,t0); if(r.rc==0&&!answered.count("s"+v)) violate("false-success:set","set reported success but its handler did not complete"); } break;
    case 2: { std::string v=strf("%llu",(unsigned long long)next++); MethRes r=doMethod(c,"Device.P.m()",v,L); dur("method",r.dur,r.rc,t0); if(r.rc==0&&(!answered.count("m"+v)||r.out!="r"+v)) violate("false-success:method","method reported success but its handler did not complete"); } break;
    case 3: { std::string v=strf("%llu",(unsigned long long)next++), w=strf("%llu",(unsigned long long)next++); Rc r=doSetMulti(c,{{"Device.P.v",v},{"Device.P.w",w}},nullptr,L); dur("setMulti",r.dur,r.rc,t0); if(r.rc==0&&!(answered.count("s"+v)&&answered.count("s"+w))) violate("false-success:setMulti","setMulti reported success but its handlers did not complete"); } break;
    case 4: { GetExtRes r=doGetExt(c,{"Device.P.v","Device.P.w"},L); dur("getExt",r.dur,r.rc,t0); if(r.rc==0){ if(r.vals.size()!=2) violate("false-success:getExt-partial","getExt of two properties reported success with %zu values",r.vals.size()); for(auto& v:r.vals) if(!answered.count(v.second)) violate("false-success:getExt","getExt returned a value no handler returned"); } } break;
    case 5: { AddRes r=doAddRow(c,"Device.P.T.",nullptr,L); dur("addRow",r.dur,r.rc,t0); if(r.rc==0&&!answered.count(strf("a%u",r.inst))) violate("false-success:addRow","addRow reported success for %u but its handler did not complete",r.inst); } break;
    case 6: { GetRes r=doGet(c,"Device.None.v",L); if(r.rc==0||!notFoundRc(r.rc)) violate(strf("wrong-code:none:%s",en(r.rc)),"get of a name nobody owns returned %s",en(r.rc)); if(r.dur>SEC) violate("not-prompt:none","get of an unknown name took %.3fs",r.dur/1e9); } break;
    case 7: { Rc r=doSet(c,"Device.None.v","1",L); if(r.rc==0||!notFoundRc(r.rc)) violate(strf("wrong-code:noneset:%s",en(r.rc)),"set of a name nobody owns returned %s",en(r.rc)); if(r.dur>SEC) violate("not-prompt:noneset","set of an unknown name took %.3fs",r.dur/1e9); } break;
    case 8: { MethRes r=doMethod(c,"Device.None.m()","1",L); if(r.rc==0||!(notFoundRc(r.rc)||r.rc==RBUS_ERROR_INVALID_METHOD)) violate(strf("wrong-code:nonemethod:%s",en(r.rc)),"invoking an unknown method returned %s",en(r.rc)); if(r.dur>SEC) violate("not-prompt:nonemethod","invoking an unknown method took %.3fs",r.dur/1e9); } break;
    case 9: { GetRes r=doGet(c,"Device.Q.v",L); if(r.rc||r.val!="qq") violate(strf("other-provider:%s",en(r.rc)),"get from the healthy provider returned %s '%s'",en(r.rc),r.val.c_str()); if(r.dur>SEC) violate("not-prompt:other","get from the healthy provider took %.3fs",r.dur/1e9); } break;
    case 10: { OpGuard g("rbus_discoverComponentName",L); char const* names[2]={"Device.Q.v","Device.P.v"}; int n=0; char** out=nullptr; rbusError_t rc=c->a()->rbus_discoverComponentName(c->h,2,names,&n,&out); i64 d=g.elapsed(); logev("discover -> %s %d",en(rc),n); if(d>3*SEC) violate("late:discover","discovery took %.3fs",d/1e9); if(rc==0){ for(int i=0;i<n;i++) free(out[i]); free(out); } } break;
    } }
  void run(){
    setup(); if(chance(ST_CFG,1,3)){ i64 t=chooseRange(ST_FAULT,0,8*SEC); at(g_now+t,[this]{ if(P->alive()){ pDead=g_now; crash(P);} }); }
    int nt=1+choose(ST_CFG,2), ops=3+choose(ST_CFG,7); std::vector<Fiber*> fs;
    for(auto c:C) for(int t=0;t<nt;t++) fs.push_back(bg(c,strf("w%d",t),[this,c,ops]{ for(int k=0;k<ops;k++){ op(c); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,700*MS)); } }));
    joinAll(fs,"workload",3600*SEC); simSleep(2*SEC); g_sh->nontrivial=1; }
};
SCENARIO_W(C03,provider,4){ swarm(); T3 t; t.run(); }
SCENARIO_W(C24,timeouts,3){ swarm(); clockSteps(); T3 t; t.run(); }
