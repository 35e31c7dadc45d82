// C19 sessions: linearizability of the session manager against a one-slot model.
#include "world.h"
extern "C" int sim_noprintf(const char*,...){ return 0; }
struct T19 {
  enum { CREATE, GET, CLOSE, CLOSEX };
  struct Op { int k; u64 s,e; bool amb; bool ok; u32 id; };     // ok: result; amb: outcome unknown (error other than the defined ones)
  std::vector<Op> h; u64 clk=1; std::vector<u64> resets; u64 created=0; std::vector<std::pair<u64,int>> evs; Node* mgr=nullptr; int mgrs=0; bool faults=false;
  void startMgr(){ mgr=simSpawn(NK_SESSION,strf("smgr%d",mgrs++),"rbus_session_mgr",[](Node* n){ static char a0[]="rbus_session_mgr"; char* av[]={a0,nullptr}; n->env["RT_LOG_LEVEL"]="fatal"; n->api->rbus_setLogLevel(RBUS_LOG_FATAL); n->api->session_main(1,av); }); }
  Rc one(Proc* p,int k,u32 id,i64 T){ Op o{k,clk++,0,false,false,0}; Rc r; uint32_t sid=77; i64 lim=T+5*SEC; { OpGuard g(k==CREATE?"rbus_createSession":k==GET?"rbus_getCurrentSession":"rbus_closeSession",lim);
      if(k==CREATE) r.rc=p->a()->rbus_createSession(p->h,&sid); else if(k==GET) r.rc=p->a()->rbus_getCurrentSession(p->h,&sid); else r.rc=p->a()->rbus_closeSession(p->h,id); r.dur=g.elapsed(); }
    o.e=clk++; logev("session op %d id %u -> %s %u",k,id,en(r.rc),sid); o.ok=r.rc==0; o.id=sid;
    if(r.rc!=0&&r.rc!=RBUS_ERROR_SESSION_ALREADY_EXIST){ if(!faults) violate(strf("session:failed:%s",en(r.rc)),"session operation %d failed with %s",k,en(r.rc)); o.amb=true; o.e=~0ULL; }
    else { if(k==GET&&r.rc) violate("session:get-failed","rbus_getCurrentSession returned %s",en(r.rc)); if(k==CREATE&&r.rc==0){ created++; if(sid==0) violate("session:id-zero","rbus_createSession succeeded with session id 0"); } if(k==CREATE&&r.rc&&sid!=0) violate("session:id-on-error","a refused rbus_createSession handed out session id %u",sid); }
    h.push_back(o); return r; }
  // Wing & Gong search; the state is the live session id (0 none); a manager crash clears it
  bool check(std::string& why){ std::vector<Op> a=h; for(u64 r:resets) a.push_back({4,r,r,false,true,0}); std::sort(a.begin(),a.end(),[](const Op& x,const Op& y){ return x.s<y.s; }); size_t n=a.size(); std::set<std::pair<std::vector<bool>,u32>> seen; size_t steps=0; size_t best=0;
    struct St { std::vector<bool> done; u32 s; size_t low; }; std::vector<St> st; st.push_back({std::vector<bool>(n,false),0,0});
    while(!st.empty()){ St c=st.back(); st.pop_back(); if(++steps>200000) return true; while(c.low<n&&c.done[c.low]) c.low++; bool left=false; for(size_t i=c.low;i<n;i++) if(!c.done[i]&&!a[i].amb) left=true; if(!left) return true; best=std::max(best,c.low); 
      u64 minE=~0ULL; for(size_t i=c.low;i<n;i++) if(!c.done[i]) minE=std::min(minE,a[i].e);
      for(size_t i=c.low;i<n&&a[i].s<=minE;i++) if(!c.done[i]){ const Op& o=a[i]; std::vector<u32> nx; 
          switch(o.k){ case CREATE: if(o.amb) nx={c.s?c.s:1u}; else if(o.ok){ if(c.s==0) nx={o.id}; } else if(c.s) nx={c.s}; break; case GET: if(o.amb||o.id==c.s) nx={c.s}; break;
            case CLOSE: if(o.amb) nx={0u}; else if(o.ok){ if(c.s) nx={0u}; } else if(!c.s) nx={c.s}; break; case CLOSEX: if(o.amb||!o.ok) nx={c.s}; break; default: nx={0u}; }
          for(u32 v:nx){ St d=c; d.done[i]=true; d.s=v; if(seen.insert({d.done,v}).second) st.push_back(d); } } }
    const Op& o=a[std::min(best,n-1)]; static const char* N[]={"create","get","close","close-other","crash"}; why=strf("%s -> %s id %u",N[o.k],o.ok?"success":"refused",o.id); return false; }
  void run(bool crash,bool slow){ faults=crash||slow; swarm(); startRouter(); int nc=1+choose(ST_CFG,4); std::vector<Proc*> C; startMgr(); simSleep(2*SEC); u32 tmo=slow?pick<u32>(ST_CFG,{200,1000,50}):15000;
    for(int i=0;i<nc;i++){ Proc* c=proc(strf("cons%d",i)); C.push_back(c); startAndOpen(c); if(slow) call(c,"cfg",5*SEC,[=]{ setTimeouts(c,tmo); }); }
    u64 nev=0; int last=-1; EvFn* fn=new EvFn([&](rbusEvent_t const* e,rbusEventSubscription_t*){ nev++; rbusValue_t v=e->data?A()->rbusObject_GetValue(e->data,"sessionid"):nullptr; if(!v) violate("session:event","a session event carries no session id"); last=A()->rbusValue_GetInt32(v); });
    if(!faults) call(C[0],"sub",30*SEC,[&]{ Rc r=doSub(C[0],"currentSessionIDSignal",fn); if(r.rc) violate(strf("session:subscribe:%s",en(r.rc)),"subscribing to the session event failed with %s",en(r.rc)); });
    int ops=3+choose(ST_CFG,12); std::vector<Fiber*> fs; u64 posted=0; bool done=false;
    for(int c=0;c<nc;c++) for(int t=0;t<1+(int)choose(ST_CFG,2);t++) fs.push_back(bg(C[c],"ops",[&,c]{ bool mine=false; for(int k=0;k<ops;k++){ int w=choose(ST_WORK,8); i64 T=(i64)tmo*MS+(faults?20*SEC:0);
        if(w==1) one(C[c],GET,0,T); else if(w==2){ u32 x=2+choose(ST_WORK,1000); one(C[c],CLOSEX,x,T); posted++; } else if(mine||w==3){ Rc r=one(C[c],CLOSE,1,T); if(r.rc==0||mine) mine=false; posted++; } else { Rc r=one(C[c],CREATE,0,T); if(r.rc==0) mine=true; posted++; }
        if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,20*MS)); } }));
    Fiber* ck=nullptr; if(crash) ck=simThread(g_router,"killer",[&]{ int n=1+choose(ST_FAULT,2); for(int i=0;i<n&&!done;i++){ simSleep(chooseRange(ST_FAULT,0,100*MS)); fault(F_CRASH_CLIENT); simCrash(mgr,"session manager killed"); resets.push_back(clk++); simSleep(chooseRange(ST_FAULT,300*MS,2*SEC)); startMgr(); simSleep(chooseRange(ST_FAULT,0,200*MS)); } });
    Fiber* sk=nullptr; if(slow) sk=simThread(g_router,"staller",[&]{ while(!done){ simSleep(chooseRange(ST_FAULT,1*MS,200*MS)); fault(F_SLOWPROVIDER); simPauseNode(mgr,chooseRange(ST_FAULT,1*MS,(i64)tmo*2*MS)); } });
    joinAll(fs,"session workload",2000*SEC); done=true; if(ck) joinAll({ck},"killer",60*SEC); if(sk) joinAll({sk},"staller",60*SEC);
    if(crash||slow){ i64 t0=g_now; (void)t0; simSleep(5*SEC); call(C[0],"up",100*SEC,[&]{ for(int k=0;k<20;k++){ if(one(C[0],GET,0,40*SEC).rc==0) break; simSleep(2*SEC); } }); } faults=false; call(C[0],"final",60*SEC,[&]{ setTimeouts(C[0],15000); one(C[0],GET,0,15*SEC); Rc r=one(C[0],CLOSE,1,15*SEC); (void)r; one(C[0],GET,0,15*SEC); Rc q=one(C[0],CREATE,0,15*SEC); if(q.rc) violate("session:not-recreated","after the session was closed creating one returned %s",en(q.rc)); one(C[0],GET,0,15*SEC); posted+=2; });
    std::string why; if(!check(why)) violate("session:not-linearizable","no order of the session operations explains their results (stuck at %s)",why.c_str());
    if(!crash&&!slow){ simSleep(2*SEC); bool fits=posted<=24; /*more could overflow the subscriber's queue of 26 pending events*/ if(fits?nev!=posted:nev>posted) violate("session:events","%llu session requests were served but the subscriber got %llu session events",(unsigned long long)posted,(unsigned long long)nev); if(fits&&last!=1) violate("session:event-last","the last session event says %d although session 1 is live",last); }
    g_sh->nontrivial=created>1; }
};
SCENARIO_W(C19,plain,3){ T19 t; t.run(false,false); }
SCENARIO_W(C19,crash,2){ T19 t; t.run(true,false); }
SCENARIO_W(C19,slow,2){ T19 t; t.run(false,true); }
SCENARIO_W(C24,session,1){ clockSteps(); T19 t; t.run(false,true); }
