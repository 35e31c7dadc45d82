// C09 subscription lifecycle: acknowledged once, effective, vetoable, undone.
#include "evsim.h"
struct T9 {
  EvSim E; int np=1,nc=2,slots=3; std::vector<Proc*> P,C; bool closes=false,crashes=false,late=false; u64 nsub=0,nveto=0;
  struct Act { u64 c; int a; }; std::map<std::string,std::vector<Act>> rec; std::map<std::string,rbusError_t> veto; std::map<std::string,bool> held; std::map<std::string,int> initial; std::map<std::string,EvFn*> fns; std::map<std::string,SubOpt> opt; std::map<std::string,std::string> initVal; std::set<std::string> getFail;
  std::string ev(int p,int c,int k){ return strf(k%2?"Device.P%d.c%dv%d":"Device.P%d.c%de%d!",p,c,k); }
  bool isProp(const std::string& n){ return n.back()!='!'; }
  int count(const std::string& n,u64 since,int act){ int k=0; for(auto& a:rec[n]) if(a.c>=since&&a.a==act) k++; return k; }
  int balance(const std::string& n){ int b=0; for(auto& a:rec[n]) b+= a.a==1?1:a.a==2?-1:0; return b; }   // 1 accepted, 2 undone, 3 vetoed
  void regAll(int i){ Proc* p=P[i]; p->onSub=[this](rbusEventSubAction_t a,const std::string& n,rbusFilter_t,int32_t,bool* ap)->rbusError_t{ *ap=false; if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); rbusError_t v=RBUS_ERROR_SUCCESS; if(a==RBUS_EVENT_ACTION_SUBSCRIBE&&veto.count(n)) v=veto[n]; rec[n].push_back({E.clk++,a==RBUS_EVENT_ACTION_SUBSCRIBE?(v?3:1):2}); trace("subhandler %s %d veto %d",n.c_str(),a,v); return v; };
    p->onGet=[this](const std::string& n,rbusProperty_t pr,rbusGetHandlerOptions_t*)->rbusError_t{ if(getFail.count(n)) return RBUS_ERROR_ACCESS_NOT_ALLOWED; setVal(pr,"init:"+n+":"+initVal[n]); return RBUS_ERROR_SUCCESS; };
    std::vector<El> e; for(int c=0;c<nc;c++) for(int k=0;k<slots;k++){ std::string n=ev(i,c,k); if(isProp(n)) e.push_back({n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SUB}); else e.push_back({n,RBUS_ELEMENT_TYPE_EVENT,CB_SUB}); }
    call(p,"reg",60*SEC,[&]{ rbusError_t rc=reg(p,e); if(rc) violate("setup:reg","registering failed: %s",en(rc)); }); }
  EvFn* handler(Proc* c,const std::string& n){ return new EvFn([this,c,n](rbusEvent_t const* e,rbusEventSubscription_t* s){
      if(e->type==RBUS_EVENT_INITIAL_VALUE){ initial[n]++; std::string v=evStr(e,"initialValue"); if(v!="init:"+n+":"+initVal[n]) violate("subscribe:initial-value","the initial value of %s came as '%.60s'",n.c_str(),v.c_str()); return; }
      if(s->eventName&&n!=s->eventName) violate("event:wrong-name","the handler of %s was called with the subscription of %s",n.c_str(),s->eventName);
      E.got(c,n,e->name?e->name:"",canonObj(e->data),e->type,RBUS_EVENT_GENERAL); if(E.handlerMax) simSleep(chooseRange(ST_WORK,0,E.handlerMax)); }); }
  void exist(Proc* c,const std::string& n){ bool x=c->a()->rbusEvent_IsSubscriptionExist(c->h,n.c_str(),nullptr); if(x!=held[n]) violate("subscribe:exist","rbusEvent_IsSubscriptionExist(%s) says %d but the subscription is %s",n.c_str(),x,held[n]?"held":"not held"); }
  void opened(Proc* c,const std::string& n,size_t ix,bool okk){ auto& x=E.iv[{c,n}][ix]; if(okk){ x.s1=E.clk++; x.tAck=g_now; held[n]=true; } else x.u0=x.u1=E.clk++; }
  size_t begin(Proc* c,const std::string& n,EvFn* f){ auto& v=E.iv[{c,n}]; v.push_back({E.clk++,EvSim::INF,EvSim::INF,EvSim::INF,f,0,false}); return v.size()-1; }
  void sub(Proc* c,const std::string& n){ u64 c0=E.clk; veto.erase(n); getFail.erase(n); if(choose(ST_WORK,4)==1) veto[n]=pick<rbusError_t>(ST_WORK,{RBUS_ERROR_ACCESS_NOT_ALLOWED,RBUS_ERROR_BUS_ERROR,RBUS_ERROR_OUT_OF_RESOURCES,RBUS_ERROR_INVALID_INPUT});
    bool ini=isProp(n)&&choose(ST_WORK,2); initVal[n]=strf("%llu",(unsigned long long)c0); initial[n]=0; if(ini&&choose(ST_WORK,5)==1) getFail.insert(n); EvFn* f=handler(c,n); size_t ix=begin(c,n,f); SubOpt o; o.pubOnSub=ini; Rc r= (ini||choose(ST_WORK,3)==1)? doSubEx(c,n,f,o) : doSub(c,n,f); nsub++;
    rbusError_t v=veto.count(n)?veto[n]:RBUS_ERROR_SUCCESS; if(v){ nveto++; if(r.rc!=v) violate("subscribe:veto","the provider refused the subscription to %s with %s but subscribe returned %s",n.c_str(),en(v),en(r.rc)); } else if(r.rc) violate(strf("subscribe:failed:%s",en(r.rc)),"subscribing to %s failed with %s",n.c_str(),en(r.rc));
    int a=count(n,c0,1),b=count(n,c0,3),u=count(n,c0,2); if(a!=(v?0:1)||b!=(v?1:0)||u) violate("subscribe:provider","one subscribe to %s made the provider see %d accepted, %d refused, %d removed",n.c_str(),a,b,u);
    int want= ini&&!v&&!getFail.count(n)?1:0; if(initial[n]!=want) violate("subscribe:initial-count","subscribing to %s delivered %d initial values instead of %d",n.c_str(),initial[n],want);
    opened(c,n,ix,r.rc==0); fns[n]=f; opt[n]=o; exist(c,n); }
  void dup(Proc* c,const std::string& n){ u64 c0=E.clk; EvFn* f=handler(c,n); Rc r= choose(ST_WORK,2)?doSub(c,n,f):doSubEx(c,n,f,SubOpt()); if(r.rc!=RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST) violate("subscribe:duplicate","a second subscribe to %s returned %s",n.c_str(),en(r.rc)); if(count(n,c0,1)+count(n,c0,2)+count(n,c0,3)) violate("subscribe:provider","a duplicate subscribe to %s reached the provider",n.c_str()); exist(c,n); }
  void unsub(Proc* c,const std::string& n){ auto& v=E.iv[{c,n}]; size_t ix=v.size()-1; v[ix].u0=E.clk++; u64 c0=E.clk; E.dropOwed(c,n); Rc r= choose(ST_WORK,2)?doUnsub(c,n):doUnsubEx(c,n,fns[n],SubOpt()); E.iv[{c,n}][ix].u1=E.clk++; held[n]=false;
    if(r.rc) violate(strf("unsubscribe:failed:%s",en(r.rc)),"unsubscribing from %s failed with %s",n.c_str(),en(r.rc)); if(count(n,c0,2)!=1||count(n,c0,1)) violate("unsubscribe:provider","one unsubscribe of %s made the provider see %d removals, %d additions",n.c_str(),count(n,c0,2),count(n,c0,1)); exist(c,n); }
  void unsubNone(Proc* c,const std::string& n){ u64 c0=E.clk; Rc r= choose(ST_WORK,2)?doUnsub(c,n):doUnsubEx(c,n,nullptr,SubOpt()); if(r.rc==0) violate("unsubscribe:false-success","unsubscribing from %s, which is not subscribed, reported success",n.c_str()); if(count(n,c0,1)+count(n,c0,2)) violate("unsubscribe:provider","an invalid unsubscribe of %s reached the provider",n.c_str()); }
  void batch(Proc* c,int ci){ std::vector<std::string> ns; for(int p=0;p<np;p++) for(int k=0;k<slots;k++) if(!held[ev(p,ci,k)]&&choose(ST_WORK,2)) ns.push_back(ev(p,ci,k)); if(ns.empty()) return; u64 c0=E.clk; int bad=-1; rbusError_t ve=RBUS_ERROR_SUCCESS; for(auto& n:ns) veto.erase(n); if(choose(ST_WORK,2)){ bad=choose(ST_WORK,ns.size()); ve=veto[ns[bad]]=RBUS_ERROR_ACCESS_NOT_ALLOWED; }
    std::vector<rbusEventSubscription_t> s(ns.size()); std::vector<size_t> ix; for(size_t k=0;k<ns.size();k++){ memset(&s[k],0,sizeof s[k]); EvFn* f=handler(c,ns[k]); fns[ns[k]]=f; s[k].eventName=ns[k].c_str(); s[k].handler=(void*)evTramp; s[k].userData=f; ix.push_back(begin(c,ns[k],f)); }
    rbusError_t rc; { OpGuard g("rbusEvent_SubscribeEx",DEF_BOUND*ns.size()); rc=c->a()->rbusEvent_SubscribeEx(c->h,s.data(),(int)s.size(),0); logev("subscribeEx n=%zu bad=%d -> %s",s.size(),bad,en(rc)); }
    if(rc!=ve) violate("subscribe:batch-rc","SubscribeEx of %zu events returned %s, expected %s",ns.size(),en(rc),en(ve)); for(size_t k=0;k<ns.size();k++){ opened(c,ns[k],ix[k],rc==0); int b=balance(ns[k]); if(b!=(rc==0?1:0)) violate("subscribe:batch","after SubscribeEx returned %s the provider holds %d subscriptions of %s",en(rc),b,ns[k].c_str()); if(count(ns[k],c0,1)>1) violate("subscribe:provider","SubscribeEx subscribed %s twice",ns[k].c_str()); exist(c,ns[k]); } }
  void run(){ startRouter(); E.handlerMax=choose(ST_CFG,3)*2*MS; for(int i=0;i<np;i++){ P.push_back(proc(strf("prov%d",i))); } for(int i=0;i<nc;i++) C.push_back(proc(strf("cons%d",i))); for(int i=0;i<np;i++){ startAndOpen(P[i]); regAll(i); } for(auto c:C) startAndOpen(c);
    bool done=false; std::vector<Fiber*> fs,pf; int ops=6+choose(ST_CFG,20);
    for(int i=0;i<np;i++) pf.push_back(bg(P[i],"pub",[&,i]{ while(!done){ E.publish(P[i],ev(i,choose(ST_WORK,nc),choose(ST_WORK,slots)),5+choose(ST_WORK,30)); simSleep(chooseRange(ST_WORK,1*MS,20*MS)); } }));
    for(int ci=0;ci<nc;ci++) fs.push_back(simThread(g_router,"drv",[&,ci]{ Proc* c=C[ci]; for(int k=0;k<ops;k++){
        if(closes&&choose(ST_WORK,8)==1){ Node* n=c->n; (void)n; call(c,"close",100*SEC,[&]{ for(auto& x:E.iv) if(x.first.first==c) for(auto& v:x.second) if(v.u0==EvSim::INF) v.u0=E.clk++; rbusError_t rc=closeBus(c); if(rc) violate("close:rc","rbus_close returned %s",en(rc)); E.gone(c); for(int p=0;p<np;p++) for(int q=0;q<slots;q++){ std::string nm=ev(p,ci,q); held[nm]=false; if(balance(nm)) violate("close:left-behind","after rbus_close of the subscriber the provider still holds %d subscriptions of %s",balance(nm),nm.c_str()); } rc=openBus(c); if(rc) violate(strf("setup:reopen:%s",en(rc)),"reopening failed with %s",en(rc)); }); continue; }
        if(crashes&&choose(ST_WORK,8)==1){ for(auto& x:E.iv) if(x.first.first==c) for(auto& v:x.second) if(v.u0==EvSim::INF) v.u0=E.clk++; E.owed.erase(c);
          if(choose(ST_WORK,2)){ bg(c,"op",[this,c,ci]{ op(c,ci); }); simSleep(chooseRange(ST_FAULT,0,4*MS)); } crash(c); E.gone(c); for(int p=0;p<np;p++) for(int q=0;q<slots;q++) held[ev(p,ci,q)]=false; simSleep(5*SEC); for(auto& x:rec) if(x.first.find(strf(".c%d",ci))!=std::string::npos) x.second.clear(); // a dead subscriber's subscriptions stay with the provider (by design): count from here
          startAndOpen(c); continue; }
        call(c,"op",200*SEC,[&]{ op(c,ci); }); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,20*MS)); } }));
    joinAll(fs,"subscribe workload",3000*SEC); done=true; joinAll(pf,"publishers",100*SEC); simSleep(5*SEC); E.final(); g_sh->nontrivial= nsub>2&&E.delivered>0; }
  void op(Proc* c,int ci){ std::string n=ev(choose(ST_WORK,np),ci,choose(ST_WORK,slots)); int w=choose(ST_WORK,10); if(w==9){ batch(c,ci); return; } if(held[n]){ if(w==1) dup(c,n); else unsub(c,n); } else { if(w==1) unsubNone(c,n); else sub(c,n); } }
};
// subscribing before the provider has registered the element: found as soon as it has, or an error after the given time
SCENARIO_W(C09,late,2){ swarm(); K.spuriousPct=0; EvSim E; startRouter(); Proc* p=proc("prov0"); startAndOpen(p); int nc=1+choose(ST_CFG,3), ne=2; std::vector<i64> regAt(ne,-1); std::map<std::string,int> seen; std::vector<Fiber*> fs; bool done=false;
  auto name=[](int e){ return strf("Device.P0.late%d!",e); };
  p->onSub=[&](rbusEventSubAction_t a,const std::string& n,rbusFilter_t,int32_t,bool*)->rbusError_t{ seen[n]+= a==RBUS_EVENT_ACTION_SUBSCRIBE?1:-1; return RBUS_ERROR_SUCCESS; };
  for(int e=0;e<ne;e++) fs.push_back(bg(p,"reg",[&,e]{ simSleep(chooseRange(ST_WORK,0,choose(ST_WORK,2)?4*SEC:60*SEC)); rbusError_t rc=reg(p,{{name(e),RBUS_ELEMENT_TYPE_EVENT,CB_SUB}}); if(rc) violate("setup:reg","registering failed: %s",en(rc)); regAt[e]=g_now; while(!done){ E.publish(p,name(e),5); simSleep(chooseRange(ST_WORK,50*MS,2*SEC)); } }));
  std::vector<Fiber*> cs; int good=0,bad=0; for(int c=0;c<nc;c++){ Proc* q=proc(strf("cons%d",c)); startAndOpen(q); for(int e=0;e<ne;e++) cs.push_back(bg(q,"sub",[&,q,e]{ simSleep(chooseRange(ST_WORK,0,2*SEC)); int T=choose(ST_WORK,8)?choose(ST_WORK,40):-1; i64 lim=(T<0?600:T)*SEC; i64 t0=g_now; Rc r=E.sub(q,name(e),false,T); i64 end=t0+lim; (void)end;
      if(r.rc==0){ good++; if(regAt[e]<0&&seen[name(e)]==0) violate("subscribe:false-success","subscribing to %s, which nobody has registered, reported success",name(e).c_str()); } else if(r.rc==RBUS_ERROR_ELEMENT_DOES_NOT_EXIST&&(regAt[e]<0||regAt[e]+SEC>t0+r.dur)){ bad++; } // the provider answered while it was registering
      else { bad++; if(r.rc!=RBUS_ERROR_TIMEOUT) violate(strf("subscribe:failed:%s",en(r.rc)),"subscribing to %s failed with %s",name(e).c_str(),en(r.rc));
        if(regAt[e]>=0&&regAt[e]<t0+lim-5*SEC) violate("subscribe:missed-late","subscribing to %s with %d s failed after %.1f s although the element was registered %.1f s after the call",name(e).c_str(),T,r.dur/1e9,(regAt[e]-t0)/1e9); if(r.dur<lim-SEC) violate("subscribe:gave-up-early","subscribing to %s with %d s gave up after %.2f s",name(e).c_str(),T,r.dur/1e9); }
      if(r.dur>lim+20*SEC) violate("subscribe:late-timeout","subscribing to %s with %d s returned after %.1f s",name(e).c_str(),T,r.dur/1e9); })); }
  joinAll(cs,"late subscribes",1000*SEC); simSleep(chooseRange(ST_WORK,0,5*SEC)); done=true; joinAll(fs,"providers",200*SEC); simSleep(3*SEC); E.final(); for(int e=0;e<ne;e++){ int held=0; for(auto& x:E.iv) if(x.first.second==name(e)) for(auto& v:x.second) if(v.s1!=EvSim::INF) held++; if(seen[name(e)]!=held) violate("subscribe:provider","%d subscriptions of %s succeeded but the provider holds %d",held,name(e).c_str(),seen[name(e)]); }
  g_sh->nontrivial=good>0; }
SCENARIO_W(C09,plain,3){ swarm(); T9 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,3); t.slots=2+choose(ST_CFG,3); t.run(); }
SCENARIO_W(C09,close,2){ swarm(); T9 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.closes=true; t.run(); }
SCENARIO_W(C09,crash,2){ swarm(); T9 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.crashes=true; t.run(); }
