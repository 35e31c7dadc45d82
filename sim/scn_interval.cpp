// C11 interval subscriptions: ticks on schedule, durations end once, unsubscribing is prompt and final.
#include "world.h"
struct T11 {
  static constexpr i64 INF=INT64_MAX; static const i64 SL=1500*MS;
  struct Hist { std::vector<std::pair<i64,int>> v; i64 a0=0,a1=0,d0=INF,d1=INF; };
  struct Sub { Proc* c; std::string ev; uint32_t iv,dur; i64 t0,t1=INF,u0=INF,u1=INF; i64 after=0; int ticks=0; i64 last=0,done=INF; bool held=false,resub=false; EvFn* fn=nullptr; };
  std::map<std::string,Hist> H; std::vector<Sub*> S; std::vector<Proc*> P,C; u64 nticks=0,ndone=0,nrow=0; i64 handlerMax=0; bool rows=false,stop=false,vc=false,multi=false,failing=false; std::map<std::string,i64> failUntil,lastFail; int ne=2; i64 maxIv=5;
  std::string anyElem(){ std::vector<std::string> r; for(auto& x:H) if(x.second.d0==INF&&x.second.a1!=INF) r.push_back(x.first); return r.empty()?"":r[choose(ST_WORK,r.size())]; }
  int cur(const std::string& n){ return H[n].v.back().second; }
  void change(const std::string& n,int v){ H[n].v.push_back({g_now,v}); }
  bool was(const std::string& n,int x,i64 a,i64 b){ auto& v=H[n].v; for(size_t i=0;i<v.size();i++){ i64 s=v[i].first,e=i+1<v.size()?v[i+1].first:INF; if(s<=b&&e>=a&&v[i].second==x) return true; } return false; }
  static bool covers(const std::string& ev,const std::string& el){ size_t s=ev.find('*'); if(s==std::string::npos) return ev==el; return el.compare(0,s,ev,0,s)==0; }
  i64 work(const Sub* s){ if(s->ev.find('*')==std::string::npos) return handlerMax; int k=0; for(auto& x:H) if(covers(s->ev,x.first)) k++; return handlerMax*k; }   // one tick's get handlers
  i64 lag(const Sub* s){ return SL+work(s); }
  bool rowGone(const Sub* s){ auto it=H.find(s->ev); return it!=H.end()&&it->second.d0!=INF; }
  void event(Sub* s,rbusEvent_t const* e){ const char* nm=s->ev.c_str(); if(s->u1!=INF&&g_now>s->u1) violate("interval:after-unsubscribe","an event of %s came after unsubscribe had returned",nm); if(s->done!=INF) violate("interval:after-complete","an event of %s (type %d) came after the duration-complete event",nm,e->type);
    if(e->type==RBUS_EVENT_VALUE_CHANGED&&vc) return; if(e->type!=RBUS_EVENT_INTERVAL&&e->type!=RBUS_EVENT_DURATION_COMPLETE) violate("interval:type","the subscriber of %s got an event of type %d",nm,e->type); if(!e->name||s->ev!=e->name) violate("interval:name","the subscriber of %s got an event of '%s'",nm,e->name?e->name:"");
    Api* a=s->c->a(); auto it=H.find(s->ev); if(it!=H.end()&&it->second.d1!=INF&&g_now>it->second.d1+lag(s)) violate("interval:after-row","an event of %s came %.1f s after its row was removed",nm,(g_now-it->second.d1)/1e9);
    if(s->ev.find('*')!=std::string::npos){ int n=-1; sscanf(canon(a->rbusObject_GetValue(e->data,"numberOfEntries")).c_str(),"i32:%d",&n); int lo=0,hi=0; for(auto& x:H) if(covers(s->ev,x.first)){ auto& h=x.second; bool sure=h.a1<=g_now-lag(s)&&h.d0==INF, may=h.a0<=g_now&&(h.d1==INF||h.d1>=g_now-lag(s)); lo+=sure; hi+=may; rbusValue_t v=a->rbusObject_GetValue(e->data,x.first.c_str()); int xv; if(v){ if(!may) violate("interval:row","a tick of %s contains %s, which does not exist",nm,x.first.c_str()); if(sscanf(canon(v).c_str(),"i32:%d",&xv)!=1||!was(x.first,xv,g_now-lag(s),g_now)) violate("interval:value","a tick of %s says %s is %s",nm,x.first.c_str(),canon(v).c_str()); } else if(sure) violate("interval:row-missing","a tick of %s does not contain %s",nm,x.first.c_str()); } if(n<lo||n>hi) violate("interval:rows","a tick of %s counts %d rows; there are %d to %d",nm,n,lo,hi); }
    else { int xv; std::string cv=canon(a->rbusObject_GetValue(e->data,nm)); if(sscanf(cv.c_str(),"i32:%d",&xv)!=1||!was(s->ev,xv,g_now-lag(s),g_now)) violate("interval:value","a tick of %s says the value is %.40s, it is %d",nm,cv.c_str(),cur(s->ev)); }
    i64 iv=(i64)s->iv*SEC; i64 from=s->last?s->last:s->t0; i64 gap=g_now-from; bool old= !s->last&&s->resub&&g_now<=s->t0+SEC; // one of the subscription before, on its way when that was unsubscribed
    if(old) return;
    trace("tick %s/%s type %d gap %.3f",s->c->comp.c_str(),nm,e->type,gap/1e9);
    if(gap<iv-SL*(s->last?1:0)-(s->last?work(s):0)-1*MS||(s->last&&gap<iv/8)) violate("interval:early","%s: a tick %.2f s after the %s with an interval of %u s",nm,gap/1e9,s->last?"one before":"subscribing",s->iv);
    if(gap-std::max<i64>(0,failed(s)-from)>iv+lag(s)) violate("interval:late","%s: %.2f s from the %s to a tick with an interval of %u s",nm,gap/1e9,s->last?"tick before":"subscribing",s->iv);
    s->last=g_now; if(e->type==RBUS_EVENT_INTERVAL){ s->ticks++; nticks++; if(s->dur&&s->ticks>(int)(s->dur/s->iv)) violate("interval:too-many","%s: tick %d of an interval of %u s and a duration of %u s",nm,s->ticks,s->iv,s->dur); }
    else { ndone++; s->done=g_now; if(!s->dur) violate("interval:complete-none","%s: a duration-complete event without a duration",nm); if(s->ticks!=(int)(s->dur/s->iv)) violate("interval:complete-count","%s: the duration-complete event came after %d ticks, with an interval of %u s and a duration of %u s",nm,s->ticks,s->iv,s->dur); s->held=false;
      if(choose(ST_WORK,3)==1) sub(s->c,s->ev,s->iv,s->dur); return; }
    if(choose(ST_WORK,8)==1) simSleep(chooseRange(ST_WORK,0,20*MS)); }
  i64 failed(Sub* s){ auto i=lastFail.find(s->ev); return i==lastFail.end()?0:i->second; }   // a tick whose get failed is left out
  void silent(Sub* s){ if(s->t1==INF||s->done!=INF||s->u0!=INF||rowGone(s)) return; i64 from=std::max(s->last?s->last:s->t1,failed(s)); if(g_now-from>(i64)s->iv*SEC+lag(s)) violate("interval:silent","%s: no tick for %.1f s with an interval of %u s and a duration of %u s",s->ev.c_str(),(g_now-from)/1e9,s->iv,s->dur); }
  void sub(Proc* c,std::string ev="",uint32_t iv=0,uint32_t dur=0){ bool again=!ev.empty(); if(!again){ if(rows&&choose(ST_WORK,3)==1) ev=strf("Device.P%d.T.*.x",(int)choose(ST_WORK,P.size())); else ev=anyElem(); if(ev.empty()) return; iv=1+choose(ST_WORK,maxIv); if(choose(ST_WORK,8)==1) iv=60; dur= choose(ST_WORK,2)?0:(iv+(uint32_t)choose(ST_WORK,4*iv)); if(multi&&choose(ST_WORK,3)) for(auto s:S) if(s->held&&s->c==c){ ev=s->ev; if(choose(ST_WORK,2)) iv=s->iv, dur=dur?iv+choose(ST_WORK,4*iv):0; if(choose(ST_WORK,2)) break; } }
    bool re=false; for(auto s:S) if(s->c==c&&s->ev==ev&&(!multi||(s->iv==iv&&s->dur==dur))){ if(s->held) return; if((s->u1!=INF&&s->u1+SEC>g_now)||s->done!=INF) re=true; }
    Sub* s=new Sub(); s->c=c; s->ev=ev; s->iv=iv; s->dur=dur; s->resub=re; s->fn=new EvFn([this,s](rbusEvent_t const* e,rbusEventSubscription_t*){ event(s,e); }); s->t0=g_now; s->held=true; S.push_back(s); SubOpt o; o.interval=iv; o.duration=dur; Rc r=doSubEx(c,ev,s->fn,o);
    if(r.rc){ s->held=false; s->u0=s->u1=s->t0; if(!rowGone(s)) violate(strf("interval:subscribe:%s",::en(r.rc)),"subscribing to %s failed with %s",ev.c_str(),::en(r.rc)); return; } s->t1=g_now; }
  void unsub(Proc* c){ std::vector<Sub*> v; for(auto s:S) if(s->held&&s->c==c&&s->t1!=INF&&s->u0==INF) v.push_back(s); if(v.empty()) return; Sub* s=v[choose(ST_WORK,v.size())]; silent(s); s->u0=g_now; SubOpt o; o.interval=s->iv; o.duration=s->dur; Rc r=doUnsubEx(c,s->ev,s->fn,o); if(s->done==INF) s->u1=g_now; s->held=false;
    if(r.rc&&s->done==INF&&!rowGone(s)&&!(s->dur&&s->ticks>=(int)(s->dur/s->iv))) violate(strf("interval:unsubscribe:%s",::en(r.rc)),"unsubscribing from %s failed with %s",s->ev.c_str(),::en(r.rc)); if(r.dur>SL+handlerMax*4) violate("interval:slow-unsubscribe","unsubscribing from %s with an interval of %u s took %.2f s",s->ev.c_str(),s->iv,r.dur/1e9); }
  void addRow(int i){ Proc* p=P[i]; uint32_t inst=1+nrow++; std::string n=strf("Device.P%d.T.%u.x",i,inst); auto& h=H[n]; h.v.push_back({g_now,(int)choose(ST_WORK,1000)}); h.a0=g_now; h.a1=INF; rbusError_t rc=p->a()->rbusTable_registerRow(p->h,strf("Device.P%d.T.",i).c_str(),inst,nullptr); H[n].a1=g_now; if(rc) violate(strf("interval:row:%s",::en(rc)),"registering the row of %s failed with %s",n.c_str(),::en(rc)); }
  void delRow(int i){ std::vector<std::string> r; std::string pre=strf("Device.P%d.T.",i); for(auto& x:H) if(x.first.compare(0,pre.size(),pre)==0&&x.second.d0==INF&&x.second.a1!=INF) r.push_back(x.first); if(r.empty()) return; std::string n=r[choose(ST_WORK,r.size())]; H[n].d0=g_now; Proc* p=P[i]; std::string row=n.substr(0,n.size()-2); rbusError_t rc=p->a()->rbusTable_unregisterRow(p->h,row.c_str()); H[n].d1=g_now; if(rc) violate(strf("interval:row:%s",::en(rc)),"unregistering row %s failed with %s",row.c_str(),::en(rc)); }
  i64 nap(){ switch(choose(ST_WORK,4)){ case 0: return chooseRange(ST_WORK,0,50*MS); case 1: return chooseRange(ST_WORK,0,2*SEC); case 2: return (1+choose(ST_WORK,4))*SEC-20*MS+chooseRange(ST_WORK,0,40*MS); default: return chooseRange(ST_WORK,0,15*SEC); } }
  void provider(int i){ Proc* p=P[i];
    p->onGet=[this](const std::string& n,rbusProperty_t pr,rbusGetHandlerOptions_t* o)->rbusError_t{ auto it=H.find(n); if(it==H.end()) return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST; i64 d= handlerMax?chooseRange(ST_WORK,0,handlerMax):0; if(d) simSleep(d); if(failUntil.count(n)&&g_now<failUntil[n]&&o&&o->requestingComponent&&!strcmp(o->requestingComponent,"IntervalThread")){ lastFail[n]=g_now; return RBUS_ERROR_BUS_ERROR; } int v=cur(n); Api* a=g_cur->node->api; rbusValue_t x=mkVal(strf("i32:%d",v)); a->rbusProperty_SetValue(pr,x); a->rbusValue_Release(x); return RBUS_ERROR_SUCCESS; };
    p->onSet=[this](const std::string& n,rbusProperty_t pr,rbusSetHandlerOptions_t*)->rbusError_t{ if(!H.count(n)) return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST; int v=0; if(sscanf(canon(g_cur->node->api->rbusProperty_GetValue(pr)).c_str(),"i32:%d",&v)!=1) return RBUS_ERROR_INVALID_INPUT; change(n,v); return RBUS_ERROR_SUCCESS; };
    std::vector<El> e; for(int k=0;k<ne;k++){ std::string n=strf("Device.P%d.v%d",i,k); H[n].v.push_back({g_now,(int)choose(ST_WORK,1000)}); e.push_back({n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}); } if(rows){ e.push_back({strf("Device.P%d.T.{i}.",i),RBUS_ELEMENT_TYPE_TABLE,0}); e.push_back({strf("Device.P%d.T.{i}.x",i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}); }
    call(p,"reg",60*SEC,[&]{ rbusError_t rc=reg(p,e); if(rc) violate("setup:reg","registering failed: %s",::en(rc)); }); }
  void run(){ startRouter(); int np=1+choose(ST_CFG,2),nc=1+choose(ST_CFG,3); maxIv=1+choose(ST_CFG,8); failing=!rows&&choose(ST_CFG,3)==1; if(choose(ST_CFG,2)) handlerMax=pick<i64>(ST_CFG,{1*MS,20*MS,150*MS});
    for(int i=0;i<np;i++) P.push_back(proc(strf("prov%d",i))); for(int i=0;i<nc;i++) C.push_back(proc(strf("cons%d",i))); for(int i=0;i<np;i++){ startAndOpen(P[i]); provider(i); } for(auto c:C) startAndOpen(c);
    std::vector<Fiber*> fs,pf; int ops=6+choose(ST_CFG,20);
    for(int i=0;i<np;i++) pf.push_back(bg(P[i],"own",[&,i]{ while(!stop){ int w=choose(ST_WORK,8); if(rows&&w<2) addRow(i); else if(rows&&w==2) delRow(i); else if(failing&&w<2){ std::string n=anyElem(); if(!n.empty()) failUntil[n]=g_now+chooseRange(ST_WORK,0,12*SEC); } else for(auto& x:H) if(x.first.find(strf("P%d.",i))!=std::string::npos&&x.second.a1!=INF&&choose(ST_WORK,3)==1) change(x.first,choose(ST_WORK,1000)); simSleep(nap()); } }));
    for(int i=0;i<nc;i++) fs.push_back(bg(C[i],"drv",[&,i]{ Proc* c=C[i]; for(int k=0;k<ops;k++){ int w=choose(ST_WORK,10); if(w<4) sub(c); else if(w<6) unsub(c); else if(w==6){ std::string n=anyElem(); if(!n.empty()){ Rc r=doSetC(c,n,strf("i32:%d",(int)choose(ST_WORK,1000))); if(r.rc&&H[n].d0==INF) violate(strf("interval:set:%s",::en(r.rc)),"setting %s failed with %s",n.c_str(),::en(r.rc)); } } for(auto s:S) if(s->c==c) silent(s); simSleep(nap()); } }));
    // another subscriber of the same elements, told of changes
    if(vc){ Proc* w=proc("watch"); startAndOpen(w); call(w,"watch",60*SEC,[&]{ for(auto& x:H) if(x.second.a1==0) doSub(w,x.first,new EvFn([](rbusEvent_t const*,rbusEventSubscription_t*){})); }); }
    joinAll(fs,"subscribers",2500*SEC); stop=true; joinAll(pf,"providers",100*SEC); simSleep(chooseRange(ST_WORK,0,20*SEC)); for(auto s:S) silent(s);
    if(choose(ST_CFG,2)) for(auto c:C) call(c,"close",100*SEC,[&]{ for(auto s:S) if(s->c==c&&s->u0==INF) s->u0=g_now; i64 t=g_now; rbusError_t rc=closeBus(c); if(rc) violate("close:rc","rbus_close returned %s",::en(rc)); if(g_now-t>10*SEC) violate("interval:slow-close","closing the subscriber took %.1f s",(g_now-t)/1e9); for(auto s:S) if(s->c==c&&s->u1==INF) s->u1=g_now; });
    for(auto p:P) call(p,"close",100*SEC,[&]{ i64 t=g_now; rbusError_t rc=closeBus(p); if(rc) violate("close:rc","rbus_close returned %s",::en(rc)); if(g_now-t>10*SEC) violate("interval:slow-close","closing the provider took %.1f s",(g_now-t)/1e9); });
    g_sh->nontrivial=nticks>1; }
};
SCENARIO_W(C11,plain,3){ swarm(); T11 t; t.ne=1+choose(ST_CFG,3); t.run(); }
SCENARIO_W(C11,several,2){ swarm(); T11 t; t.ne=1+choose(ST_CFG,2); t.multi=true; t.run(); }
SCENARIO_W(C11,rows,3){ swarm(); T11 t; t.ne=choose(ST_CFG,2); t.rows=true; t.multi=chance(ST_CFG,1,3); t.run(); }
SCENARIO_W(C11,watched,1){ swarm(); T11 t; t.ne=1+choose(ST_CFG,2); t.vc=true; t.run(); }
SCENARIO_W(C24,interval,2){ swarm(); clockSteps(); T11 t; t.ne=1+choose(ST_CFG,3); t.run(); }
