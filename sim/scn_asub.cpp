// C12 asynchronous subscriptions: one response, as soon as a provider is there, nothing left behind.
#include "evsim.h"
struct T12; static T12* s_t;
extern "C" void asubResp(rbusHandle_t h,rbusEventSubscription_t* s,rbusError_t e);
struct T12 {
  EvSim E; int np=1,nc=2,slots=3; std::vector<Proc*> P,C; bool slow=false,closes=false,late=false,longer=false; std::map<std::string,i64> regAt; std::map<std::string,rbusError_t> veto; std::map<std::string,int> bal; std::map<std::string,int> accepts; u64 nok=0,nfail=0,ncancel=0; bool done=false,ending=false; int subTmo=60;
  struct Att { Proc* c; std::string n; i64 t0,tmo; int cbs=0; rbusError_t res=RBUS_ERROR_SUCCESS; bool cancelled=false; size_t ix; EvFn* fn; rbusError_t veto; bool gaveUp=false,keep=false; };
  struct Slot { std::string n; bool busy=false; Att* a=nullptr; };   // a: attempt pending or held
  std::map<Proc*,std::vector<Slot*>> S; std::map<void*,Att*> byFn; std::vector<Att*> atts;
  static std::string ev(int p,int c,int k){ return strf("Device.P%d.c%da%d!",p,c,k); }
  void provider(int i){ Proc* p=P[i]; p->onSub=[this](rbusEventSubAction_t a,const std::string& n,rbusFilter_t,int32_t,bool* ap)->rbusError_t{ if(ap) *ap=false; if(slow&&a==RBUS_EVENT_ACTION_SUBSCRIBE&&chance(ST_WORK,1,6)){ fault(F_SLOWPROVIDER); simSleep(chooseRange(ST_FAULT,200*MS,12*SEC)); } else if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); rbusError_t v=RBUS_ERROR_SUCCESS; if(a==RBUS_EVENT_ACTION_SUBSCRIBE&&veto.count(n)) v=veto[n]; if(!v){ bal[n]+= a==RBUS_EVENT_ACTION_SUBSCRIBE?1:-1; if(!slow&&(bal[n]<0||bal[n]>1)) violate("asub:provider","the provider of %s saw %d subscriptions",n.c_str(),bal[n]); if(a==RBUS_EVENT_ACTION_SUBSCRIBE) accepts[n]++; } trace("subhandler %s %d veto %d",n.c_str(),a,v); return v; }; }
  void resp(rbusEventSubscription_t* s,rbusError_t e){ auto it=byFn.find(s->userData); if(it==byFn.end()) violate("asub:unknown","a response callback came with unknown user data"); Att& a=*it->second; logev("response %s -> %s",a.n.c_str(),en(e)); if(!s->eventName||a.n!=s->eventName) violate("asub:wrong-name","the response to %s came for %s",a.n.c_str(),s->eventName?s->eventName:"?"); if(++a.cbs>1) violate("asub:duplicate","the response callback for %s was called %d times",a.n.c_str(),a.cbs); if(a.cancelled) violate("asub:after-cancel","the response callback for %s was called after it was unsubscribed or its handle closed",a.n.c_str());
    a.res=e; i64 d=g_now-a.t0; i64 r=regAt.count(a.n)&&regAt[a.n]>=0?regAt[a.n]:-1; auto& iv=E.iv[{a.c,a.n}][a.ix];
    if(e==RBUS_ERROR_SUCCESS){ nok++; if(r<0&&!accepts[a.n]) violate("asub:false-success","%s, which nobody has registered, was reported subscribed",a.n.c_str()); if(a.veto&&!slow) violate("asub:veto","the provider refuses %s but the response is success",a.n.c_str()); iv.s1=E.clk++; iv.tAck=g_now; }
    else { nfail++; iv.u0=E.clk++; if(!slow) iv.u1=iv.u0; bool racing=r<0||(r+SEC>g_now); if(slow) ; else if(e==RBUS_ERROR_TIMEOUT){ if(d<a.tmo-SEC) violate("asub:gave-up-early","subscribing to %s for %.0f s gave up after %.2f s",a.n.c_str(),a.tmo/1e9,d/1e9); if(r>=0&&r<a.t0+a.tmo-3*SEC) violate("asub:missed-late","subscribing to %s for %.0f s failed although it was registered %.1f s after the call",a.n.c_str(),a.tmo/1e9,(r-a.t0)/1e9); } else if(a.veto&&e==a.veto) ; else if(e==RBUS_ERROR_ELEMENT_DOES_NOT_EXIST&&racing) ; else violate(strf("asub:failed:%s",en(e)),"subscribing to %s failed with %s",a.n.c_str(),en(e)); }
    i64 lim=a.tmo; if(r>=0){ i64 x=std::max(r,a.t0)-a.t0, w=x+std::min(x,60*SEC)+3*SEC; if(w<lim) lim=w; } if(!slow&&d>lim+6*SEC) violate("asub:late","the response for %s came %.1f s after the call, expected within %.1f s",a.n.c_str(),d/1e9,lim/1e9);
    // inside the callback the application may use the bus
    switch(choose(ST_WORK,10)){ case 1: if(e==0&&!a.keep){ a.gaveUp=true; iv.u0=E.clk++; E.dropOwed(a.c,a.n); Rc x=doUnsub(a.c,a.n); E.iv[{a.c,a.n}][a.ix].u1=E.clk++; if(x.rc&&!slow) violate(strf("asub:unsub-in-callback:%s",en(x.rc)),"unsubscribing from %s in its response callback failed with %s",a.n.c_str(),en(x.rc)); } break;
      case 2: if(!ending) for(auto s2:S[a.c]) if(!s2->busy&&!s2->a){ s2->busy=true; sub(a.c,s2,choose(ST_WORK,2)); s2->busy=false; break; } break; case 3: simSleep(chooseRange(ST_WORK,0,100*MS)); break; case 4: doGet(a.c,"Device.P0.val"); break; default: break; } }
  void sub(Proc* c,Slot* s,bool ex){ Att* a=new Att; atts.push_back(a); a->c=c; a->n=s->n; a->t0=g_now; int T=choose(ST_WORK,3)==0?pick<int>(ST_WORK,{0,-1}):1+choose(ST_WORK,longer?600:40); a->tmo=(T>0?T:subTmo)*SEC; veto.erase(s->n); if(choose(ST_WORK,5)==1) veto[s->n]=pick<rbusError_t>(ST_WORK,{RBUS_ERROR_ACCESS_NOT_ALLOWED,RBUS_ERROR_OUT_OF_RESOURCES,RBUS_ERROR_INVALID_INPUT}); a->veto=veto.count(s->n)?veto[s->n]:RBUS_ERROR_SUCCESS; if(a->veto&&choose(ST_WORK,2)) {}
    a->fn=E.handler(c,s->n); auto& v=E.iv[{c,s->n}]; v.push_back({E.clk++,EvSim::INF,EvSim::INF,EvSim::INF,a->fn,0,false}); a->ix=v.size()-1; byFn[a->fn]=a; s->a=a; rbusError_t rc; { OpGuard g("rbusEvent_SubscribeAsync",slow?DEF_BOUND:3*SEC); if(ex){ rbusEventSubscription_t q; memset(&q,0,sizeof q); q.eventName=s->n.c_str(); q.handler=(void*)evTramp; q.userData=a->fn; rc=c->a()->rbusEvent_SubscribeExAsync(c->h,&q,1,asubResp,T); } else rc=c->a()->rbusEvent_SubscribeAsync(c->h,s->n.c_str(),evTramp,asubResp,a->fn,T); logev("subscribeAsync%s %s T %d veto %d -> %s",ex?"Ex":"",s->n.c_str(),T,a->veto,en(rc)); } if(rc) violate(strf("asub:refused:%s",en(rc)),"rbusEvent_SubscribeAsync(%s) returned %s",s->n.c_str(),en(rc)); }
  bool pend(Att* a){ return a&&!a->cbs&&!a->cancelled; } bool held(Att* a){ return a&&a->cbs&&a->res==0&&!a->gaveUp; }
  void unsub(Proc* c,Slot* s){ Att* a=s->a; bool wasHeld=held(a); E.iv[{c,s->n}][a->ix].u0=E.clk++; E.dropOwed(c,s->n); int before=a->cbs; Rc r=choose(ST_WORK,2)?doUnsub(c,s->n):doUnsubEx(c,s->n,a->fn,SubOpt()); auto& iv=E.iv[{c,s->n}][a->ix]; if(!slow||!r.rc) iv.u1=E.clk++;
    if(r.rc==0){ if(!a->cbs){ a->cancelled=true; ncancel++; } else if(a->res&&before) violate("asub:unsub-false-success","unsubscribing from %s, whose subscribe failed, returned success",s->n.c_str()); } else if(!slow&&!(a->cbs&&(a->res||a->gaveUp))) violate(strf("asub:unsub-failed:%s",en(r.rc)),"unsubscribing from %s (%s) failed with %s",s->n.c_str(),wasHeld?"subscribed":"pending",en(r.rc)); else if(slow&&!a->cbs) a->cancelled=false; s->a=nullptr; }
  void left(Slot* s,i64 lim){ if(!slow) waitFor("asub:left-behind",[&]{ return bal[s->n]==0; },lim,"the provider still holds a subscription of "+s->n+" after its subscriber unsubscribed or closed"); }
  void dup(Proc* c,Slot* s){ if(!pend(s->a)&&!held(s->a)) return; bool p=pend(s->a); if(p&&(s->a->veto||s->a->t0+s->a->tmo<g_now+3*SEC)) return; s->a->keep=true; EvFn* f=new EvFn([](rbusEvent_t const*,rbusEventSubscription_t*){}); rbusError_t rc; if(choose(ST_WORK,2)) rc=doSub(c,s->n,f).rc; else { OpGuard g("rbusEvent_SubscribeAsync",3*SEC); rc=c->a()->rbusEvent_SubscribeAsync(c->h,s->n.c_str(),evTramp,asubResp,f,5); logev("subscribeAsync(dup) %s -> %s",s->n.c_str(),en(rc)); } if(rc!=RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST&&!slow&&!(p&&!pend(s->a))&&!s->a->gaveUp) violate("asub:duplicate-accepted","subscribing again to %s while it is %s returned %s",s->n.c_str(),p?"pending":"subscribed",en(rc)); }
  void op(Proc* c,int){ Slot* s=S[c][choose(ST_WORK,S[c].size())]; if(s->busy) return; s->busy=true; Att* a=s->a; if(a&&!pend(a)&&!held(a)) a=s->a=nullptr; int w=choose(ST_WORK,10);
    if(!a){ if(w<8){ sub(c,s,w&1); } else if(!slow&&choose(ST_WORK,3)==0){ Rc r=doUnsub(c,s->n); if(r.rc==0) violate("asub:unsub-false-success","unsubscribing from %s, which is not subscribed, returned success",s->n.c_str()); } }
    else if(pend(a)){ if(w<3){ unsub(c,s); if(choose(ST_WORK,2)) left(s,30*SEC); else if(choose(ST_WORK,2)&&!s->a) sub(c,s,false); } else if(w==3&&!slow) { i64 t=g_now; dup(c,s); (void)t; } }
    else { if(w<3){ unsub(c,s); if(choose(ST_WORK,2)) left(s,30*SEC); } else if(w==3&&!slow) dup(c,s); } s->busy=false; }
  void doClose(Proc* c){ for(auto s:S[c]) if(s->busy) return; for(auto s:S[c]) s->busy=true; for(auto& x:E.iv) if(x.first.first==c) for(auto& v:x.second) if(v.u0==EvSim::INF) v.u0=E.clk++; { OpGuard g("rbus_close",(30+25*(i64)S[c].size())*SEC); rbusError_t rc=c->a()->rbus_close(c->h); c->opened=false; logev("close -> %s",en(rc)); if(rc) violate("asub:close","rbus_close returned %s",en(rc)); } E.gone(c); for(auto s:S[c]) if(s->a){ if(!s->a->cbs){ s->a->cancelled=true; ncancel++; } s->a=nullptr; } for(auto a:atts) if(a->c==c&&!a->cbs) a->cancelled=true;
    for(auto s:S[c]) left(s,30*SEC); rbusError_t rc=openBus(c); if(rc) violate(strf("setup:reopen:%s",en(rc)),"reopening failed with %s",en(rc)); c->a()->rbusHandle_ConfigSubscribeTimeout(c->h,subTmo*1000); for(auto s:S[c]) s->busy=false; }
  void run(){ s_t=this; startRouter(); subTmo=longer?300+choose(ST_CFG,300):3+choose(ST_CFG,60); for(int i=0;i<np;i++) P.push_back(proc(strf("prov%d",i))); for(int i=0;i<nc;i++) C.push_back(proc(strf("cons%d",i))); for(int ci=0;ci<nc;ci++) for(int k=0;k<slots;k++){ Slot* s=new Slot; s->n=ev(choose(ST_CFG,np),ci,k); S[C[ci]].push_back(s); }
    for(auto c:C){ startAndOpen(c); call(c,"cfg",10*SEC,[&]{ c->a()->rbusHandle_ConfigSubscribeTimeout(c->h,subTmo*1000); }); }
    std::vector<Fiber*> fs,pf; for(int i=0;i<np;i++){ bool lateStart=late&&choose(ST_CFG,2); auto bringUp=[this,i]{ provider(i); call(P[i],"reg0",60*SEC,[&]{ reg(P[i],{{strf("Device.P%d.val",i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); }); };
      if(!lateStart){ startAndOpen(P[i]); bringUp(); }
      pf.push_back(simThread(g_router,"reg",[this,i,lateStart,bringUp]{ if(lateStart){ simSleep(chooseRange(ST_WORK,0,20*SEC)); startAndOpen(P[i]); bringUp(); } std::vector<std::string> names; for(auto& x:S) for(auto s:x.second) if(s->n.find(strf(".P%d.",i))!=std::string::npos) names.push_back(s->n); for(auto& n:names){ u32 w=choose(ST_WORK,8); if(w==7) continue; if(w>=4) simSleep(chooseRange(ST_WORK,0,longer?300*SEC:pick<i64>(ST_WORK,{3*SEC,20*SEC,60*SEC}))); call(P[i],"reg",60*SEC,[&]{ rbusError_t rc=reg(P[i],{{n,RBUS_ELEMENT_TYPE_EVENT,CB_SUB}}); if(rc) violate("setup:reg","registering failed: %s",en(rc)); }); regAt[n]=g_now; }
        while(!done){ if(!names.empty()){ std::string n=names[choose(ST_WORK,names.size())]; if(regAt.count(n)){ Fiber* f=bg(P[i],"pub",[this,i,n]{ E.publish(P[i],n,5+choose(ST_WORK,30)); }); joinAll({f},"publish",100*SEC); } } simSleep(chooseRange(ST_WORK,5*MS,longer?60*SEC:2*SEC)); } })); }
    int ops=8+choose(ST_CFG,20); for(int ci=0;ci<nc;ci++) fs.push_back(simThread(g_router,"drv",[this,ci,ops]{ Proc* c=C[ci]; for(int k=0;k<ops;k++){ if(closes&&choose(ST_WORK,8)==1) call(c,"close",500*SEC,[&]{ doClose(c); }); else call(c,"op",200*SEC,[&]{ op(c,ci); }); u32 w=choose(ST_WORK,6); if(w==1) simSleep(chooseRange(ST_WORK,0,20*MS)); else if(w>=4) simSleep(chooseRange(ST_WORK,0,(longer?100:10)*SEC)); } }));
    joinAll(fs,"async subscribe workload",9000*SEC); ending=true; waitFor("asub:no-response",[this]{ for(auto a:atts) if(!a->cbs&&!a->cancelled) return false; return true; },(i64)(63+30+(slow?150:0)+(longer?600:0))*SEC,"an asynchronous subscribe was never answered"); done=true; joinAll(pf,"publishers",(longer?3000:200)*SEC); simSleep(15*SEC); E.final();
    if(!slow) for(auto& x:S) for(auto s:x.second){ int want=held(s->a)?1:0; if(bal[s->n]!=want) violate("asub:provider","the provider holds %d subscriptions of %s instead of %d",bal[s->n],s->n.c_str(),want); bool ex=false; call(x.first,"exist",30*SEC,[&]{ ex=x.first->a()->rbusEvent_IsSubscriptionExist(x.first->h,s->n.c_str(),nullptr); }); if(ex!=(want==1)) violate("asub:exist","rbusEvent_IsSubscriptionExist(%s) says %d",s->n.c_str(),ex); }
    g_sh->nontrivial=nok>0; }
};
extern "C" void asubResp(rbusHandle_t,rbusEventSubscription_t* s,rbusError_t e){ s_t->resp(s,e); }
SCENARIO_W(C12,plain,3){ swarm(); T12 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.slots=2+choose(ST_CFG,3); t.run(); }
SCENARIO_W(C12,late,2){ swarm(); T12 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.slots=2+choose(ST_CFG,3); t.late=true; t.run(); }
SCENARIO_W(C12,longer,1){ swarm(); T12 t; t.np=1; t.nc=1+choose(ST_CFG,2); t.slots=2+choose(ST_CFG,2); t.late=choose(ST_CFG,2); t.longer=true; t.run(); }
SCENARIO_W(C12,close,2){ swarm(); T12 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.slots=2+choose(ST_CFG,3); t.late=choose(ST_CFG,2); t.closes=true; t.run(); }
SCENARIO_W(C12,slow,1){ swarm(); T12 t; t.np=1; t.nc=1+choose(ST_CFG,2); t.slots=2+choose(ST_CFG,3); t.slow=true; t.run(); }
SCENARIO_W(C24,subscribe,2){ swarm(); clockSteps(); T12 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,2); t.slots=2+choose(ST_CFG,3); t.late=true; t.run(); }
