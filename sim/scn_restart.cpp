// C16 recovery: the router dies and comes back, or connections break; nobody restarts the clients.
#include "world.h"

struct T16 {
  static constexpr i64 RECOV=15*SEC; i64 badFrom=-1,badUntil=0; bool down=false; i64 lastBad=-1; bool done=false; u64 okOps=0,outOps=0; i64 OPB=40*SEC;
  std::vector<Proc*> P,C; Proc *M=nullptr,*Q=nullptr; u64 nextTok=1; std::map<u64,std::string> toks; std::map<u64,i64> tokAt; std::set<std::string> applied;
  // trusted: nothing was broken at any time since t0, and recovery is over
  bool good(i64 t0){ return !down&&t0>=badUntil+RECOV&&lastBad<t0; }
  void hit(){ lastBad=g_now; } void healed(){ badUntil=g_now; }
  struct Pub { i64 t,te; rbusError_t rc; }; std::map<u64,Pub> pubs; u64 nextPub=1; struct Sub { Proc* p; std::map<u64,int> got; u64 last=0; i64 from=-1,to=-1; bool on=false; EvFn* fn; }; std::vector<Sub*> subs;
  std::map<u64,Pub> msgs; u64 nextMsg=1; std::map<u64,int> mgot; u64 mlast=0; std::set<u64> confirmed; std::map<std::string,int> own;  // 1 held 0 free -1 unknown
  void fail(const char* w,const std::string& n,rbusError_t rc,i64 d){ violate(strf("recovery:%s:%s",w,en(rc)),"%s %s failed with %s after %.3f s although the router has been back for %.1f s and nothing else was broken",w,n.c_str(),en(rc),d/1e9,(g_now-d-badUntil)/1e9); }
  void get(Proc* c,const std::string& n){ i64 t0=g_now; GetRes r=doGet(c,n,OPB); if(!good(t0)) outOps++; if(r.rc==0){ u64 t; if(!checkPayload(r.val,&t)||!toks.count(t)||toks[t]!=n||tokAt[t]<t0) violate("recovery:false-answer","get %s returned '%.50s', which no handler produced for it",n.c_str(),r.val.c_str()); okOps++; } else if(good(t0)) fail("get",n,r.rc,r.dur); }
  void set(Proc* c,const std::string& n){ i64 t0=g_now; std::string v=payload(nextTok++,choose(ST_WORK,60)); Rc r=doSet(c,n,v,OPB); if(!good(t0)) outOps++; if(r.rc==0){ if(!applied.count(n+"="+v)) violate("recovery:false-success","set %s reported success but its handler never ran",n.c_str()); okOps++; } else if(good(t0)) fail("set",n,r.rc,r.dur); }
  void meth(Proc* c,const std::string& n){ i64 t0=g_now; std::string a=payload(nextTok++,choose(ST_WORK,60)); MethRes r=doMethod(c,n,a,OPB); if(!good(t0)) outOps++; if(r.rc==0){ if(r.out!=n+"|"+a) violate("recovery:false-answer","%s returned '%.50s'",n.c_str(),r.out.c_str()); okOps++; } else if(good(t0)) fail("method",n,r.rc,r.dur); }
  void hooks(Proc* p){ p->onGet=[this](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t*){ u64 t=nextTok++; toks[t]=nm; tokAt[t]=g_now; setVal(pr,payload(t,choose(ST_WORK,50))); return RBUS_ERROR_SUCCESS; };
    p->onSet=[this](const std::string& nm,rbusProperty_t pr,rbusSetHandlerOptions_t*){ applied.insert(nm+"="+valStr(A()->rbusProperty_GetValue(pr))); return RBUS_ERROR_SUCCESS; };
    p->onMethod=[](const std::string& nm,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t)->rbusError_t{ rbusValue_t v=mkVal("s:"+nm+"|"+valStr(A()->rbusObject_GetValue(in,"arg"))); A()->rbusObject_SetValue(out,"out",v); A()->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    p->onAddRow=[](const std::string&,const char*,uint32_t* i){ *i=1; return RBUS_ERROR_SUCCESS; }; }
  void publish(Proc* p){ u64 id=nextPub++; i64 t=g_now; Rc r=doPublish(p,"Device.R0.e!",strf("%llu:",(unsigned long long)id),OPB); pubs[id]={t,g_now,r.rc}; }
  void onEvent(Sub* s,rbusEvent_t const* e){ unsigned long long id=0; std::string v=evStr(e); if(sscanf(v.c_str(),"%llu:",&id)!=1||id>=nextPub) violate("recovery:event-garbled","an event nobody published: '%.50s'",v.c_str()); if(++s->got[id]>1) violate("recovery:event-duplicate","event %llu reached %s %d times",id,s->p->comp.c_str(),s->got[id]);
    if(id<s->last) violate("recovery:event-reordered","event %llu reached %s after event %llu",id,s->p->comp.c_str(),(unsigned long long)s->last); s->last=id; if(pubs.count(id)&&s->to>=0&&pubs[id].t>s->to) violate("recovery:event-after-unsubscribe","event %llu reached %s, which had unsubscribed before it was published",id,s->p->comp.c_str()); logev("%s got event %llu",s->p->comp.c_str(),id); }
  void subscribe(Sub* s){ i64 t0=g_now, was=s->to; s->to=-1; Rc r=doSub(s->p,"Device.R0.e!",s->fn,0,OPB); if(r.rc==0){ s->on=true; s->from=g_now; } else { if(was>=0) s->to=g_now; if(good(t0)) fail("subscribe","Device.R0.e!",r.rc,r.dur); } }
  void unsubscribe(Sub* s){ i64 t0=g_now; Rc r=doUnsub(s->p,"Device.R0.e!",OPB); if(r.rc==0){ s->on=false; s->to=g_now; } else { if(good(t0)) fail("unsubscribe","Device.R0.e!",r.rc,r.dur); s->on=false; s->to=g_now; } }
  // events published in good times to a subscription acknowledged before
  void checkEvents(){ for(auto s:subs) for(auto& x:pubs) if(s->on&&s->from<x.second.t&&x.second.rc==0&&x.second.t>=badUntil+RECOV&&!s->got.count(x.first)) violate("recovery:event-lost","event %llu, published %.1f s after the last fault, never reached %s",(unsigned long long)x.first,(x.second.t-badUntil)/1e9,s->p->comp.c_str()); }
  void sendMsg(Proc* p){ u64 id=nextMsg++; i64 t0=g_now; std::string b=payload(id,choose(ST_WORK,40)); rbusMessage_t m; m.topic="test.r"; m.data=(uint8_t const*)b.data(); m.length=b.size(); rbusError_t rc; { OpGuard g("rbusMessage_Send",OPB); rc=p->a()->rbusMessage_Send(p->h,&m,RBUS_MESSAGE_CONFIRM_RECEIPT); } logev("send #%llu -> %s",(unsigned long long)id,en(rc)); if(rc&&good(t0)) fail("send","test.r",rc,g_now-t0); if(rc==0) confirmed.insert(id); }
  void toggle(Proc* p,const std::string& n){ i64 t0=g_now; El e{n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}; if(own[n]==1){ OpGuard g("unreg",OPB); rbusError_t rc=unreg(p,{e}); own[n]= rc?-1:0; if(rc&&good(t0)) fail("unregister",n,rc,g_now-t0); } else if(own[n]==0){ rbusError_t rc=reg(p,{e}); own[n]=rc?-1:1; if(rc&&good(t0)) fail("register",n,rc,g_now-t0); } }
  void faults(int n){ for(int k=0;k<n;k++){ simSleep(chooseRange(ST_FAULT,20*MS,k?20*SEC:3*SEC)); u32 w=choose(ST_FAULT,6); hit();
      if(w<=2){ down=true; stopRouter(); i64 d; switch(choose(ST_FAULT,4)){ case 0: d=0; break; case 1: d=chooseRange(ST_FAULT,0,300*MS); break; case 2: d=chooseRange(ST_FAULT,300*MS,4*SEC); break; default: d=chooseRange(ST_FAULT,4*SEC,40*SEC); } simSleep(d); startRouter(); hit(); down=false; }
      else if(w<=4){ std::vector<Proc*> a=P; a.insert(a.end(),C.begin(),C.end()); a.push_back(M); a.push_back(Q); resetConnections(a[choose(ST_FAULT,a.size())]->n,g_router); }
      else { for(auto p:g_procs) resetConnections(p->n,g_router); }
      healed(); if(choose(ST_FAULT,3)==1) simSleep(RECOV+chooseRange(ST_FAULT,0,10*SEC)); } }
  std::string name(int i,const char* s){ return strf("Device.R%d.%s",i,s); }
  void run(bool sockErr){ startRouter(); int np=1+choose(ST_CFG,2), nc=1+choose(ST_CFG,2);
    for(int i=0;i<np;i++){ P.push_back(proc(strf("prov%d",i))); hooks(P[i]); startAndOpen(P[i]); call(P[i],"reg",60*SEC,[&]{ std::vector<El> e={{name(i,"v"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{name(i,"w"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{name(i,"m()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{name(i,"e!"),RBUS_ELEMENT_TYPE_EVENT,CB_SUB},{name(i,"T.{i}."),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{name(i,"T.{i}.x"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}}; rbusError_t rc=reg(P[i],e); if(rc) violate("setup:reg","registering failed: %s",en(rc)); AddRes r=doAddRow(P[i],name(i,"T."),nullptr); if(r.rc) violate("setup:row","adding a row failed"); }); }
    for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); } M=proc("msg"); startAndOpen(M); Q=proc("own"); hooks(Q); startAndOpen(Q); Proc* obs=proc("obs"); startAndOpen(obs);
    std::vector<Proc*> all=C; all.push_back(M); all.push_back(obs); for(auto p:all){ Sub* s=new Sub; s->p=p; s->fn=new EvFn([this,s](rbusEvent_t const* e,rbusEventSubscription_t*){ onEvent(s,e); }); subs.push_back(s); call(p,"sub",60*SEC,[&]{ subscribe(s); if(!s->on) violate("setup:sub","subscribing failed"); }); }
    call(M,"lst",30*SEC,[&]{ static T16* t; t=this; rbusError_t rc=M->a()->rbusMessage_AddListener(M->h,"test.r",[](rbusHandle_t,rbusMessage_t* m,void* u){ T16* t=(T16*)u; unsigned long long id=0; std::string b((const char*)m->data,m->length); if(sscanf(b.c_str(),"%llu:",&id)!=1||id>=t->nextMsg) violate("recovery:msg-garbled","a message nobody sent"); if(++t->mgot[id]>1) violate("recovery:msg-duplicate","message %llu arrived twice",id); },this,5); if(rc) violate("setup:lst","adding a listener failed"); });
    simSleep(2*SEC); hit(); badUntil=g_now-RECOV; std::vector<Fiber*> fs; bool kill=choose(ST_CFG,3)==1;
    for(auto c:C) for(int t=0;t<1+(int)choose(ST_CFG,2);t++) fs.push_back(bg(c,strf("w%d",t),[this,c,np,t]{ while(!done){ int i=choose(ST_WORK,np); switch(choose(ST_WORK,8)){ case 0: case 1: get(c,name(i,choose(ST_WORK,2)?"v":"T.1.x")); break; case 2: set(c,name(i,"v")); break; case 3: meth(c,name(i,"m()")); break; case 4: sendMsg(c); break; case 5: if(t==0){ for(auto s:subs) if(s->p==c){ if(s->on) unsubscribe(s); else { s->got.clear(); subscribe(s); } } } break; case 6: if(own["Device.Q.a"]==1&&g_now<0) break; [[fallthrough]]; default: get(c,name(i,"w")); } simSleep(chooseRange(ST_WORK,10*MS,3*SEC)); } }));
    fs.push_back(bg(P[0],"pub",[this]{ while(!done){ publish(P[0]); simSleep(chooseRange(ST_WORK,50*MS,2*SEC)); } }));
    fs.push_back(bg(Q,"own",[this]{ while(!done){ toggle(Q,strf("Device.Q.%c",'a'+choose(ST_WORK,3))); simSleep(chooseRange(ST_WORK,50*MS,4*SEC)); } }));
    Proc* X=nullptr; if(kill){ X=proc("fresh"); start(X); fs.push_back(simThread(obs->n,"drv-fresh",[this,X]{ while(!done){ rbusError_t rc=RBUS_ERROR_BUS_ERROR; i64 t0=g_now; call(X,"open",60*SEC,[&]{ rc=openBus(X); }); if(rc){ if(good(t0)) fail("open","fresh",rc,g_now-t0); } else { call(X,"use",90*SEC,[&]{ get(X,name(0,"v")); }); simSleep(chooseRange(ST_WORK,0,5*SEC)); call(X,"close",60*SEC,[&]{ rbusError_t c=closeBus(X); if(c) violate(strf("recovery:close:%s",en(c)),"rbus_close failed with %s",en(c)); }); } simSleep(chooseRange(ST_WORK,100*MS,5*SEC)); } })); }
    int nf=1+choose(ST_CFG,3); if(sockErr) g_socketFault=[this](Node* n){ return n!=g_router&&(down||g_now<badUntil+3*SEC)&&chance(ST_FAULT,1,3); };
    faults(nf); waitFor("recovery:stuck",[&]{ return g_now>badUntil+RECOV; },3600*SEC,"?"); simSleep(5*SEC); done=true; joinAll(fs,"workload",400*SEC);
    // everybody is reachable again, without having done anything for it
    i64 q=g_now; (void)q; for(auto c:all) call(c,"end",200*SEC,[&]{ for(int i=0;i<np;i++){ get(c,name(i,"v")); get(c,name(i,"T.1.x")); set(c,name(i,"w")); meth(c,name(i,"m()")); } sendMsg(c); });
    call(obs,"own",200*SEC,[&]{ for(auto& o:own){ i64 t0=g_now; if(o.second==1){ get(obs,o.first); rbusError_t rc=reg(obs,{{o.first,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); if(rc!=RBUS_ERROR_ELEMENT_NAME_DUPLICATE) violate("recovery:ownership","%s could be registered by another process although its owner never gave it up: %s",o.first.c_str(),en(rc)); } else if(o.second==0){ rbusError_t rc=doGet(obs,o.first).rc; if(!notFoundRc(rc)) violate(strf("recovery:revived:%s",en(rc)),"%s answers although it was unregistered: %s",o.first.c_str(),en(rc)); rc=reg(obs,{{o.first,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}}); if(rc) violate(strf("recovery:refused-free:%s",en(rc)),"%s was unregistered but cannot be taken: %s",o.first.c_str(),en(rc)); } (void)t0; } rbusError_t rc=reg(obs,{{"Device.Obs.v",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}}); if(rc) fail("register","Device.Obs.v",rc,0);
      for(int i=0;i<np;i++){ rc=reg(obs,{{name(i,"v"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); if(rc!=RBUS_ERROR_ELEMENT_NAME_DUPLICATE) violate("recovery:ownership","%s could be registered by another process: %s",name(i,"v").c_str(),en(rc)); } });
    for(auto s:subs) if(!s->on&&s->p->alive()) call(s->p,"sub",60*SEC,[&]{ s->got.clear(); subscribe(s); });
    call(P[0],"pub",60*SEC,[&]{ for(int i=0;i<3;i++){ publish(P[0]); Pub& b=pubs[nextPub-1]; if(b.rc) fail("publish","Device.R0.e!",b.rc,0); simSleep(200*MS); } }); simSleep(5*SEC); checkEvents(); for(u64 id:confirmed) if(!mgot.count(id)) violate("recovery:false-receipt","message %llu was confirmed but never received",(unsigned long long)id);
    for(auto p:g_procs) if(p->alive()&&p->opened){ int c=countConns(p->n); if(c!=1) violate("recovery:connections","%s has %d connections to the router",p->comp.c_str(),c); int f=0; for(auto& e:p->n->fds) f+=e.kind==1; if(f>1) violate("recovery:socket-leak","%s has %d open sockets",p->comp.c_str(),f); call(p,"close",60*SEC,[&]{ closeBus(p); }); }
    g_sh->nontrivial=okOps>3&&outOps>0; }
};
SCENARIO_W(C16,mix,3){ swarm(); T16 t; t.run(false); }
SCENARIO_W(C16,sockets,1){ swarm(); T16 t; t.run(true); }
SCENARIO_W(C24,reconnect,2){ swarm(); clockSteps(); T16 t; t.run(false); }
