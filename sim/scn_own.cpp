// C05 name ownership; C06 isolation of a client's failure or departure.
#include "evsim.h"
struct T5 {
  static constexpr u64 INF=~0ULL;
  struct Hold { Proc* p; u64 a0,a1,u0,u1; i64 t1; };               // reg call, acknowledged, end begins, end certain
  u64 clk=1; std::vector<Proc*> P; std::vector<std::string> names; std::map<std::string,std::vector<Hold>> H; static constexpr i64 GRACE=2*SEC; u64 okRegs=0,dup=0; bool frozen=false;
  void age(std::vector<Hold>& v){ for(auto& h:v) if(h.u1==INF&&h.u0!=INF&&h.t1>=0&&g_now>h.t1) h.u1=clk++; }
  Hold* mine(Proc* p,const std::string& n){ for(auto& h:H[n]) if(h.p==p&&h.u0==INF&&h.a1!=INF) return &h; return nullptr; }
  void end(Proc* p,const std::string& n){ for(auto& h:H[n]) if(h.p==p&&h.u0==INF) h.u0=clk++; }
  void ended(Proc* p,const std::string& n){ for(auto& h:H[n]) if(h.p==p&&h.u0!=INF&&h.u1==INF&&h.t1<0) h.t1=g_now+GRACE; }
  Proc* definite(const std::string& n,Proc* not_,u64 s,u64 e){ for(auto& h:H[n]) if(h.p!=not_&&h.a1<s&&h.u0>e) return h.p; return nullptr; }
  bool possible(const std::string& n,Proc* p,size_t skip,u64 s,u64 e){ size_t i=0; for(auto& h:H[n]) if(i++!=skip&&(!p||h.p==p)&&h.a0<e&&h.u1>s) return true; return false; }
  static bool meth(const std::string& n){ return n.size()>2&&n.substr(n.size()-2)=="()"; }
  static bool tab(const std::string& n){ return n.size()>5&&n.substr(n.size()-5)==".{i}."; }
  El el(const std::string& n){ return tab(n)?El{n,RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL}:meth(n)?El{n,RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}:n.back()=='!'?El{n,RBUS_ELEMENT_TYPE_EVENT,CB_SUB}:El{n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}; }
  void regOp(Proc* p,const std::string& n){ auto& v=H[n]; age(v); u64 s=clk++; v.push_back({p,s,INF,INF,INF,-1}); size_t ix=v.size()-1; Node* nd=p->n; rbusError_t rc=reg(p,{el(n)}); (void)nd; auto& w=H[n]; u64 e=clk++; age(w);
    if(rc==0){ w[ix].a1=e; okRegs++; if(Proc* q=definite(n,p,s,e)) violate("own:two-owners","%s registered %s although %s holds it",p->comp.c_str(),n.c_str(),q->comp.c_str()); }
    else { w[ix].u0=e; w[ix].u1=e; dup++; if(rc!=RBUS_ERROR_ELEMENT_NAME_DUPLICATE) violate(strf("own:reg-failed:%s",en(rc)),"%s registering %s failed with %s",p->comp.c_str(),n.c_str(),en(rc)); 
      if(!possible(n,nullptr,ix,s,e)) violate("own:refused-free","%s was refused %s although nobody holds it",p->comp.c_str(),n.c_str()); } }
  // several elements in one call: all or nothing
  void regBatch(Proc* p,std::vector<std::string> ns){ std::vector<El> els; u64 s=clk++; std::map<std::string,size_t> ix; for(auto& n:ns){ age(H[n]); H[n].push_back({p,s,INF,INF,INF,-1}); ix[n]=H[n].size()-1; els.push_back(el(n)); } rbusError_t rc=reg(p,els); u64 e=clk++;
    for(auto& n:ns){ Hold& h=H[n][ix[n]]; if(rc==0){ h.a1=e; if(Proc* q=definite(n,p,s,e)) violate("own:two-owners","%s registered %s (in a batch) although %s holds it",p->comp.c_str(),n.c_str(),q->comp.c_str()); } else { h.u0=e; h.t1=g_now+GRACE; } }
    if(rc&&rc!=RBUS_ERROR_ELEMENT_NAME_DUPLICATE) violate(strf("own:reg-failed:%s",en(rc)),"%s registering a batch failed with %s",p->comp.c_str(),en(rc));
    if(rc){ bool any=false; for(auto& n:ns) any|=possible(n,nullptr,ix[n],s,e); if(!any) violate("own:refused-free","%s was refused a batch of names nobody holds",p->comp.c_str()); } }
  void unregOp(Proc* p,const std::string& n){ end(p,n); rbusError_t rc=unreg(p,{el(n)}); ended(p,n); if(rc) violate(strf("own:unreg-failed:%s",en(rc)),"%s unregistering %s failed with %s",p->comp.c_str(),n.c_str(),en(rc)); }
  void endAll(Proc* p){ for(auto& x:H) end(p,x.first); } void endedAll(Proc* p){ for(auto& x:H) ended(p,x.first); }
  void probeOp(Proc* p,const std::string& n){ age(H[n]); u64 s=clk++; rbusError_t rc; std::string who; i64 dur;
    if(n.back()=='!') return;
    if(tab(n)){ AddRes r=doAddRow(p,n.substr(0,n.size()-4),nullptr); rc=r.rc; dur=r.dur; if(rc==0){ u32 o=r.inst/1000000,w=r.inst/1000%1000; who= o<P.size()&&w<names.size()?P[o]->comp+"|"+names[w]:strf("row %u",r.inst); } }
    else if(meth(n)){ MethRes r=doMethod(p,n,"x"); rc=r.rc; who=r.out; dur=r.dur; if(rc==RBUS_ERROR_INVALID_METHOD) rc=RBUS_ERROR_DESTINATION_NOT_FOUND; } else { GetRes r=doGet(p,n); rc=r.rc; who=r.val; dur=r.dur; }
    u64 e=clk++; age(H[n]); Proc* d=definite(n,nullptr,s,e);
    if(rc==0){ bool ok=false; for(auto q:P) if(q->comp+"|"+n==who&&possible(n,q,-1,s,e)) ok=true; if(!ok) violate("own:wrong-owner","a request for %s was answered by '%s', which does not hold that name",n.c_str(),who.c_str()); }
    else { if(d) violate(strf("own:owner-unreachable:%s",en(rc)),"a request for %s failed with %s after %.3fs although %s holds it",n.c_str(),en(rc),dur/1e9,d->comp.c_str()); if(!notFoundRc(rc)&&!possible(n,nullptr,-1,s,e)) violate(strf("own:not-found-code:%s",en(rc)),"a request for the free name %s returned %s",n.c_str(),en(rc)); } }
  void hooks(Proc* p){ p->onGet=[p](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t*){ setVal(pr,p->comp+"|"+nm); return RBUS_ERROR_SUCCESS; };
    p->onMethod=[p](const std::string& nm,rbusObject_t,rbusObject_t out,rbusMethodAsyncHandle_t)->rbusError_t{ rbusValue_t v=mkVal("s:"+p->comp+"|"+nm); A()->rbusObject_SetValue(out,"out",v); A()->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    p->onAddRow=[this,p](const std::string& t,const char*,uint32_t* i){ u32 o=std::find(P.begin(),P.end(),p)-P.begin(), w=std::find(names.begin(),names.end(),t+"{i}.")-names.begin(); *i=o*1000000+w*1000+(rowc++%1000); return RBUS_ERROR_SUCCESS; }; }
  u32 rowc=1;
  void run(bool crashes,bool batches){
    static const std::vector<std::vector<const char*>> POOL={{"Device.X.a","Device.X.b","Device.X.ab","Device.X","Device.X.a.c","Device.Y.m()","Device.X.e!","Device.Z.q.r.s","Device.Z.q","Device.Z.q.r.t"},
      {"Device.W.Tab.{i}.","Device.W.TabTwo.{i}.","Device.W","Device.W.v","Device.W.Tab2.U.{i}."},{"Device.X.a","Device.X.A","Device.x.a","Device.X.m()","Device.X.M()","Device.X.AB","Device.X.ab"},
      {"Device.X.QuiteALongNameOfAnElementWhichIsShared1","Device.X.QuiteALongNameOfAnElementWhichIsShared2","Device.X.QuiteALongNameOfAnElementWhichIsShared","Device.X.QuiteALongNameOfAnElementWhichIsShared1.a","Device.QuiteALongNameOfAnElementWhichIsShared1","Device.X.QuiteALongNameOfAnElementWhichIsSharedByTwoTokensThatAreVeryLong.a","Device.X.QuiteALongNameOfAnElementWhichIsSharedByTwoTokensThatAreVeryLonG.a"}};
    int np=2+choose(ST_CFG,3), nn=2+choose(ST_CFG,9); { auto& g=POOL[choosew(ST_CFG,4,4,3)]; bool mix=choose(ST_CFG,3)==1; while((int)names.size()<nn){ auto& h= mix&&choose(ST_CFG,3)==1?POOL[choose(ST_CFG,4)]:g; std::string n=h[choose(ST_CFG,(u32)h.size())]; if(std::find(names.begin(),names.end(),n)!=names.end()){ bool more=false; for(auto x:g) if(std::find(names.begin(),names.end(),std::string(x))==names.end()){ n=x; more=true; break; } if(!more) break; } names.push_back(n); } nn=(int)names.size(); } startRouter(); for(int i=0;i<np;i++){ Proc* p=proc(strf("p%d",i)); P.push_back(p); hooks(p); startAndOpen(p); } Proc* obs=proc("obs"); startAndOpen(obs);
    int ops=4+choose(ST_CFG,14); std::vector<Fiber*> fs;
    for(auto p:P) fs.push_back(simThread(curNode()?curNode():obs->n,strf("drv-%s",p->comp.c_str()),[this,p,ops,crashes,batches,nn]{ for(int k=0;k<ops;k++){ std::string n=names[choose(ST_WORK,nn)]; 
        switch(choose(ST_WORK,crashes?14:12)){ case 0: case 1: case 2: case 3: case 4: case 5: call(p,"op",120*SEC,[this,p,n]{ if(mine(p,n)) unregOp(p,n); else regOp(p,n); }); break;
          case 6: case 7: case 8: case 9: call(p,"op",120*SEC,[this,p,n]{ probeOp(p,n); }); break;
          case 10: if(batches) call(p,"op",120*SEC,[this,p,nn]{ std::vector<std::string> v; for(int i=0;i<nn;i++) if(choose(ST_WORK,2)&&!mine(p,names[i])) v.push_back(names[i]); if(v.size()>1) regBatch(p,v); }); else call(p,"op",120*SEC,[this,p,n]{ if(!mine(p,n)) unreg(p,{el(n)}); }); break;   // what somebody else may hold
          case 11: if(chance(ST_WORK,1,2)){ endAll(p); call(p,"reopen",120*SEC,[this,p]{ closeBus(p); endedAll(p); rbusError_t rc=openBus(p); if(rc) violate(strf("own:reopen:%s",en(rc)),"opening %s again after closing failed: %s",p->comp.c_str(),en(rc)); }); } break;
          default: if(chance(ST_FAULT,1,3)){ endAll(p); crash(p); endedAll(p); simSleep(chooseRange(ST_FAULT,0,50*MS)); startAndOpen(p); } }
        if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); } }));
    fs.push_back(bg(obs,"probe",[this,obs,ops,nn]{ for(int k=0;k<ops*3;k++){ probeOp(obs,names[choose(ST_WORK,nn)]); simSleep(chooseRange(ST_WORK,0,20*MS)); } }));
    joinAll(fs,"workload",3600*SEC);
    // afterwards: every name has the owner the history says, then all are given up and can be taken by anyone
    simSleep(3*SEC); call(obs,"probe",600*SEC,[&]{ for(auto& n:names) probeOp(obs,n); });
    for(auto p:P){ int how=choose(ST_FAULT,3); endAll(p); if(how==1){ crash(p); endedAll(p); } else call(p,"bye",60*SEC,[&]{ if(how==2||true){ for(auto& n:names){ bool h=false; for(auto& x:H[n]) if(x.p==p&&x.a1!=INF&&x.u1==INF&&x.t1<0) h=true; if(h&&how==0) unreg(p,{el(n)}); } if(how==2) closeBus(p); } endedAll(p); }); }
    simSleep(3*SEC); call(obs,"take",600*SEC,[&]{ for(auto& n:names) probeOp(obs,n); for(auto& n:names) regOp(obs,n); });
    P.push_back(obs); hooks(obs); frozen=true; Proc* q=proc("obs2"); startAndOpen(q); call(q,"probe",600*SEC,[&]{ for(auto& n:names) probeOp(q,n); }); 
    g_sh->nontrivial= okRegs>0; }
};
SCENARIO_W(C05,churn,3){ swarm(); T5 t; t.run(false,false); }
SCENARIO_W(C05,crash,3){ swarm(); T5 t; t.run(true,false); }
SCENARIO_W(C05,batch,2){ swarm(); T5 t; t.run(true,true); }

// C06: survivors S (provider) and C (consumer, subscriber) must not notice what the victims do.
struct T6 {
  EvSim E; Proc *S,*S2,*C; std::vector<Proc*> V; bool done=false; u64 ok=0; std::map<u64,int> msgs; size_t waiting=0; u64 nextMsg=1;
  static const char* longName(int k){ return k?"Device.S.QuiteALongNameOfAnElementWhichIsShared2":"Device.S.QuiteALongNameOfAnElementWhichIsShared1"; }
  static void lst(rbusHandle_t,rbusMessage_t* m,void* u){ T6* t=(T6*)u; unsigned long long id=0; std::string b((const char*)m->data,m->length); if(sscanf(b.c_str(),"m%llu",&id)!=1||!t->msgs.count(id)) violate("isolation:message-garbled","the surviving listener got '%s'",b.c_str()); if(t->msgs[id]++) violate("isolation:message-twice","the surviving listener got message %llu twice",id); t->waiting--; }
  void message(){ waitFor("isolation:message-lost",[this]{ return waiting<4; },60*SEC,"messages to a surviving listener are never delivered"); u64 id=nextMsg++; msgs[id]=0; waiting++; std::string b=strf("m%llu",(unsigned long long)id); rbusMessage_t m; m.topic="six.shared"; m.data=(uint8_t const*)b.data(); m.length=b.size(); rbusError_t rc; { OpGuard g("rbusMessage_Send",12*SEC); rc=S->a()->rbusMessage_Send(S->h,&m,choose(ST_WORK,2)?RBUS_MESSAGE_CONFIRM_RECEIPT:RBUS_MESSAGE_NONE); } if(rc) bad("message","six.shared",rc); } int tokenGet=0;
  void bad(const char* w,const std::string& n,rbusError_t rc){ violate(strf("isolation:%s:%s",w,en(rc)),"%s %s between two healthy processes failed with %s while another client came and went",w,n.c_str(),en(rc)); }
  void hooks(Proc* p){ p->onGet=[p](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t*){ if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); setVal(pr,p->comp+"|"+nm); return RBUS_ERROR_SUCCESS; };
    p->onMethod=[p](const std::string& nm,rbusObject_t,rbusObject_t out,rbusMethodAsyncHandle_t)->rbusError_t{ if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,60*MS)); rbusValue_t v=mkVal("s:"+p->comp+"|"+nm); A()->rbusObject_SetValue(out,"out",v); A()->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    p->onAddRow=[](const std::string&,const char*,uint32_t* i){ static u32 n=0; *i=++n; return RBUS_ERROR_SUCCESS; }; }
  void get(Proc* c,Proc* p,const std::string& n){ GetRes r=doGet(c,n); if(r.rc) bad("get",n,r.rc); if(r.val!=p->comp+"|"+n) violate("isolation:wrong-answer","get %s returned '%s'",n.c_str(),r.val.c_str()); ok++; }
  void survivors(){
    while(!done){ switch(choose(ST_WORK,11)){ case 9: get(C,S,longName(0)); break; case 10: { GetExtRes r=doGetExt(C,{"Device.Q."}); if(r.rc) bad("getExt","Device.Q.",r.rc); if(r.vals.size()!=3) violate("isolation:getExt","getExt of a path with three elements returned %zu",r.vals.size()); } break; case 0: get(C,S,"Device.S.v"); break; case 1: get(C,S2,"Device.S.w"); break; case 2: get(S2,S,"Device.T.1.x"); break;
        case 3: { Rc r=doSet(C,"Device.S.v","1"); if(r.rc) bad("set","Device.S.v",r.rc); ok++; } break;
        case 4: { MethRes r=doMethod(C,"Device.S.m()","1"); if(r.rc) bad("method","Device.S.m()",r.rc); if(r.out!=S->comp+"|Device.S.m()") violate("isolation:wrong-answer","method returned '%s'",r.out.c_str()); ok++; } break;
        case 5: { if(E.cur(C,"Device.S.e!")&&choose(ST_WORK,3)==1){ Rc r=E.unsub(C,"Device.S.e!"); if(r.rc) bad("unsubscribe","Device.S.e!",r.rc); } else if(!E.cur(C,"Device.S.e!")){ Rc r=E.sub(C,"Device.S.e!"); if(r.rc) bad("subscribe","Device.S.e!",r.rc); } } break;
        case 6: { Rc r=doSet(S,"Device.S.w","x"); if(r.rc) bad("set","Device.S.w",r.rc); } break;
        case 7: { char const* nm[2]={"Device.S.v","Device.S.w"}; int n=0; char** out=nullptr; OpGuard g("discover",30*SEC); rbusError_t rc=C->a()->rbus_discoverComponentName(C->h,2,nm,&n,&out); if(rc) bad("discover","two names",rc); if(n!=2||strcmp(out[0],"S")||strcmp(out[1],"S2")) violate("isolation:discover","discovering the owners of two names gave %d: %s %s",n,n>0?out[0]:"",n>1?out[1]:""); for(int i=0;i<n;i++) free(out[i]); free(out); } break;
        default: { GetExtRes r=doGetExt(C,{"Device.S.v","Device.S.w","Device.T.1.x"}); if(r.rc) bad("getExt","three names",r.rc); if(r.vals.size()!=3) violate("isolation:getExt","getExt of three names returned %zu",r.vals.size()); } }
      simSleep(chooseRange(ST_WORK,0,10*MS)); } }
  void victim(Proc* v,int ops){
    static const char* OWN[]={"Device.S.x","Device.S","Device.S.v.sub","Device.T.{i}.y","Device.S.e","Device.S.ev!","Device.V.q","Device.S.m",longName(1),"Device.S.V"}; bool lstn=false; std::set<std::string> mine; std::map<std::string,int> subs; EvFn* fn=new EvFn([](rbusEvent_t const*,rbusEventSubscription_t*){ simYield("h"); });
    auto start_=[&]{ if(!v->alive()) startAndOpen(v); mine.clear(); subs.clear(); lstn=false; }; 
    start_(); hooks(v);
    for(int k=0;k<ops;k++){
      std::string n=OWN[choose(ST_WORK,10)]; El e= n.back()=='!'?El{n,RBUS_ELEMENT_TYPE_EVENT,CB_SUB}:El{n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET};
      switch(choose(ST_WORK,10)){
      case 9: call(v,"v",120*SEC,[&]{ if(lstn){ v->a()->rbusMessage_RemoveListener(v->h,"six.shared",17); lstn=false; } else { rbusError_t rc=v->a()->rbusMessage_AddListener(v->h,"six.shared",[](rbusHandle_t,rbusMessage_t*,void*){ simYield("vl"); },nullptr,17); if(rc==0) lstn=true; } }); break;
      case 0: case 1: case 2: call(v,"v",120*SEC,[&]{ if(mine.count(n)){ unreg(v,{e}); mine.erase(n); } else if(reg(v,{e})==0) mine.insert(n); }); break;
      case 3: { std::string ev=choose(ST_WORK,2)?"Device.S.e!":"Device.S.f!"; bool raw=choose(ST_WORK,3)==1; call(v,"v",120*SEC,[&]{ std::string ky=ev; if(subs.count(ky)){ bool r=subs[ky]==2; if(r) v->a()->rbusEvent_UnsubscribeRawData(v->h,ev.c_str()); else doUnsub(v,ev); subs.erase(ky); } else { rbusError_t rc= raw?v->a()->rbusEvent_SubscribeRawData(v->h,ev.c_str(),evTramp,fn,0):doSub(v,ev,fn).rc; if(rc==0) subs[ky]=raw?2:1; } }); } break;
      case 4: call(v,"v",120*SEC,[&]{ doGet(v,"Device.S.v"); }); break;
      case 5: post(v,[v]{ doMethod(v,"Device.S.m()","x"); }); simSleep(chooseRange(ST_FAULT,0,5*MS)); crash(v); simSleep(chooseRange(ST_FAULT,0,30*MS)); start_(); break;   // dies with a request pending
      case 6: post(v,[v]{ for(int i=0;i<5;i++) doGet(v,"Device.S.v"); }); simSleep(chooseRange(ST_FAULT,0,20*MS)); crash(v); simSleep(chooseRange(ST_FAULT,0,30*MS)); start_(); break;
      case 7: call(v,"v",120*SEC,[&]{ closeBus(v); if(openBus(v)) violate("isolation:reopen","a client could not open the bus again"); mine.clear(); subs.clear(); lstn=false; }); break;
      case 8: call(v,"v",120*SEC,[&]{ // unregister or unsubscribe names that belong to somebody else
          static const char* O[]={"Device.S.v","Device.S.e!","Device.T.{i}.","Device.S.w"}; std::string o=O[choose(ST_WORK,4)]; if(choose(ST_WORK,2)) doUnsub(v,o); else unreg(v,{{o,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); }); break; }
      if(choose(ST_WORK,2)) simSleep(chooseRange(ST_WORK,0,20*MS)); } }
  void run(){
    startRouter(); int nv=1+choose(ST_CFG,3), ops=3+choose(ST_CFG,10); for(int i=0;i<nv;i++){ V.push_back(proc(strf("v%d",i))); hooks(V.back()); if(choose(ST_CFG,2)) startAndOpen(V.back()); } S=proc("S"); S2=proc("S2"); C=proc("C"); for(auto p:{S,S2,C}){ hooks(p); startAndOpen(p); }
    call(S,"reg",60*SEC,[&]{ rbusError_t rc=reg(S,{{"Device.S.v",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{"Device.S.m()",RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{"Device.S.e!",RBUS_ELEMENT_TYPE_EVENT,CB_SUB},{"Device.S.f!",RBUS_ELEMENT_TYPE_EVENT,0},{"Device.T.{i}.",RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{"Device.T.{i}.x",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{longName(0),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET},{"Device.Q.a.b",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); if(rc) violate("setup:reg","registering failed: %s",en(rc)); AddRes r=doAddRow(S,"Device.T.",nullptr); if(r.rc||r.inst!=1) violate("setup:row","adding a row failed: %s %u",en(r.rc),r.inst); });
    call(S2,"reg",60*SEC,[&]{ rbusError_t rc=reg(S2,{{"Device.S.w",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{"Device.Q.a.c",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET},{"Device.Q.d",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); if(rc) violate("setup:reg","registering failed: %s",en(rc)); });
    call(C,"sub",60*SEC,[&]{ for(auto e:{"Device.S.e!","Device.S.f!"}){ Rc r=E.sub(C,e); if(r.rc) bad("subscribe",e,r.rc); } rbusError_t rc=C->a()->rbusMessage_AddListener(C->h,"six.shared",lst,this,17); if(rc) bad("listen","six.shared",rc); rbusMessage_t m; m.topic="six.settle"; m.data=(uint8_t const*)"x"; m.length=1; C->a()->rbusMessage_Send(C->h,&m,RBUS_MESSAGE_CONFIRM_RECEIPT); });
    std::vector<Fiber*> fs,ss;
    Node* me=C->n; for(auto v:V) fs.push_back(simThread(me,"drv-"+v->comp,[this,v,ops]{ victim(v,ops); }));
    ss.push_back(bg(C,"surv",[this]{ survivors(); })); ss.push_back(bg(S,"pub",[this]{ while(!done){ E.publish(S,choose(ST_WORK,2)?"Device.S.e!":"Device.S.f!",10); if(choose(ST_WORK,3)==1) message(); simSleep(chooseRange(ST_WORK,0,20*MS)); } }));
    joinAll(fs,"victims",1800*SEC); simSleep(500*MS); done=true; joinAll(ss,"survivors",200*SEC); simSleep(5*SEC); E.final(); for(auto& m:msgs) if(!m.second) violate("isolation:message-lost","the surviving listener never got message %llu",(unsigned long long)m.first); call(C,"end",60*SEC,[&]{ get(C,S,"Device.S.v"); get(C,S2,"Device.S.w"); get(C,S,"Device.T.1.x"); }); g_sh->nontrivial= ok>3; }
};
SCENARIO_W(C06,churn,1){ swarm(); T6 t; t.E.strictRc=false; t.run(); }
