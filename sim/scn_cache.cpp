// C13 provider restart: the subscription cache brings subscriptions back, exactly those, exactly once; a damaged cache does no harm.
#include "evsim.h"
struct T13 {
  enum { EVT, RAW, VC, FILT, INT, ROWEV, WILD, NKIND };
  struct S { Proc* c; int ci,kind; std::string ev; bool held=false; i64 since=0; EvFn* fn=nullptr; rbusFilter_t f=nullptr; uint32_t iv=0; int thr=50; std::vector<std::pair<i64,std::string>> got; bool lenient=false; int unsure=0; };
  EvSim E; Proc *P=nullptr,*K_=nullptr; std::vector<Proc*> C; std::vector<S*> subs; int nr=3; bool up=false,pubStop=false; bool lenient=false; u64 revived=0,restarts=0; std::map<std::string,int> val; i64 upAt=0,regAt=0; bool slowSub=false; int maxRows=3; size_t handlerN=0;
  struct Seen { i64 t; bool add; uint32_t iv; }; std::map<std::string,std::vector<Seen>> seen;      // what the provider's subscribe handler saw, in its current life
  std::string name(int k,int i){ switch(k){ case EVT: return strf("Device.P0.e%d!",i); case RAW: return strf("Device.P0.r%d!",i); case VC: return strf("Device.P0.v%d",i); case FILT: return strf("Device.P0.f%d",i); case INT: return strf("Device.P0.i%d",i); case ROWEV: return strf("Device.P0.T.%d.x!",i+1); default: return "Device.P0.T.*.y!"; } }
  int count(int k){ return k==ROWEV?nr: k==WILD?1:2; }
  void hooks(){ P->onSub=[this](rbusEventSubAction_t a,const std::string& n,rbusFilter_t,int32_t iv,bool* ap)->rbusError_t{ if(n.back()=='!') *ap=false; trace("subhandler %s %d interval %d",n.c_str(),a,iv); seen[n].push_back({g_now,a==RBUS_EVENT_ACTION_SUBSCRIBE,(uint32_t)iv}); if(slowSub&&choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,10*MS)); return RBUS_ERROR_SUCCESS; };
    P->onGet=[this](const std::string& n,rbusProperty_t pr,rbusGetHandlerOptions_t*)->rbusError_t{ Api* a=g_cur->node->api; rbusValue_t x=mkVal(strf("i32:%d",val[n])); a->rbusProperty_SetValue(pr,x); a->rbusValue_Release(x); return RBUS_ERROR_SUCCESS; }; }
  std::vector<El> els(){ std::vector<El> e; for(int i=0;i<2;i++){ e.push_back({name(EVT,i),RBUS_ELEMENT_TYPE_EVENT,CB_SUB}); e.push_back({name(RAW,i),RBUS_ELEMENT_TYPE_EVENT,CB_SUB}); for(int k:{VC,FILT,INT}) e.push_back({name(k,i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SUB}); } e.push_back({"Device.P0.T.{i}.",RBUS_ELEMENT_TYPE_TABLE,0}); e.push_back({"Device.P0.T.{i}.x!",RBUS_ELEMENT_TYPE_EVENT,CB_SUB}); e.push_back({"Device.P0.T.{i}.y!",RBUS_ELEMENT_TYPE_EVENT,CB_SUB}); return e; }
  // one life of the provider begins; inside P
  void serve(bool first){ std::vector<El> e=els(); size_t cut= first?0:choose(ST_WORK,e.size()-3); if(cut){ std::vector<El> a(e.begin(),e.begin()+cut); e.erase(e.begin(),e.begin()+cut); rbusError_t rc=reg(P,a); if(rc) violate(strf("setup:reg:%s",::en(rc)),"registering again after the restart failed with %s",::en(rc)); if(choose(ST_WORK,2)) simSleep(chooseRange(ST_WORK,0,20*MS)); }
    rbusError_t rc=reg(P,e); if(rc) violate(strf("setup:reg:%s",::en(rc)),"registering again after the restart failed with %s",::en(rc)); std::vector<int> rows; for(int i=1;i<=nr;i++) rows.push_back(i); if(!first) for(size_t i=rows.size();i>1;i--) std::swap(rows[i-1],rows[choose(ST_WORK,i)]);
    for(int i:rows){ rc=P->a()->rbusTable_registerRow(P->h,"Device.P0.T.",i,nullptr); if(rc) violate(strf("setup:row:%s",::en(rc)),"registering row %d failed with %s",i,::en(rc)); } }
  void startPub(){ pubStop=false; bg(P,"pub",[this]{ while(!pubStop){ int k=choose(ST_WORK,5); if(k<2) E.publish(P,name(EVT,choose(ST_WORK,2)),5+choose(ST_WORK,60)); else if(k<4) E.publish(P,name(ROWEV,choose(ST_WORK,nr)),5+choose(ST_WORK,60)); else E.publish(P,name(RAW,choose(ST_WORK,2)),5+choose(ST_WORK,60),true); simSleep(chooseRange(ST_WORK,1*MS,60*MS)); } pubStop=false; wakeAll(&pubStop); }); pubbing=true; }
  bool pubbing=false; void stopPub(){ if(!pubbing) return; pubStop=true; waitFor("event:lost",[&]{ return !pubStop; },200*SEC,"the publisher is stuck"); pubbing=false; }
  static bool evk(int k){ return k==EVT||k==RAW||k==ROWEV; }
  EvFn* fnOf(S* s){ return new EvFn([this,s](rbusEvent_t const* e,rbusEventSubscription_t*){ std::string n=e->name?e->name:""; if(!s->lenient&&!s->held&&s->since>=0) violate("restart:not-subscribed","%s's handler for %s was called although it had unsubscribed",s->c->comp.c_str(),s->ev.c_str());
      std::string d; Api* a=s->c->a(); if(s->kind==VC||s->kind==FILT){ if(e->type!=RBUS_EVENT_VALUE_CHANGED) violate("restart:type","the subscriber of %s got an event of type %d",s->ev.c_str(),e->type); d=canon(a->rbusObject_GetValue(e->data,"value")); rbusValue_t f=a->rbusObject_GetValue(e->data,"filter"); if(f) d+=strf(" filter %d",a->rbusValue_GetBoolean(f)); } else if(s->kind==INT){ if(e->type!=RBUS_EVENT_INTERVAL) return; d=canon(a->rbusObject_GetValue(e->data,s->ev.c_str())); } else d=n; trace("%s got %s of %s: %s",s->c->comp.c_str(),n.c_str(),s->ev.c_str(),d.c_str()); s->got.push_back({g_now,d}); }); }
  Rc call_(S* s,int timeout){ Proc* c=s->c; if(evk(s->kind)){ Rc r=E.sub(c,s->ev,s->kind==RAW,timeout,[this,c]{ doGet(c,"Device.K.v"); }); return r; } if(!s->fn) s->fn=fnOf(s); SubOpt o; o.interval=s->iv; Api* a=c->a(); if(s->kind==FILT){ rbusValue_t v=mkVal(strf("i32:%d",s->thr)); a->rbusFilter_InitRelation(&s->f,RBUS_FILTER_OPERATOR_GREATER_THAN,v); a->rbusValue_Release(v); if(choose(ST_WORK,3)==1){ rbusFilter_t g=nullptr,h=nullptr; rbusValue_t w=mkVal("s:never a number, just a string of some length"); a->rbusFilter_InitRelation(&g,RBUS_FILTER_OPERATOR_EQUAL,w); a->rbusValue_Release(w); a->rbusFilter_InitLogic(&h,RBUS_FILTER_OPERATOR_OR,s->f,g); s->f=h; } o.filter=s->f; } return s->kind==FILT||s->kind==INT?doSubEx(c,s->ev,s->fn,o,timeout):doSub(c,s->ev,s->fn,timeout); }
  void sub(S* s,bool must,int timeout=0){ s->got.clear(); if(s->kind==INT) s->iv=1+choose(ST_WORK,3); s->held=true; Rc r=call_(s,timeout); if(r.rc){ s->held=false; if(must) violate(strf("restart:subscribe:%s",::en(r.rc)),"subscribing to %s failed with %s",s->ev.c_str(),::en(r.rc)); } s->since=g_now; }
  void unsub(S* s,bool must){ Proc* c=s->c; Rc r; s->held=true; if(evk(s->kind)) r=E.unsub(c,s->ev,s->kind==RAW); else { SubOpt o; o.interval=s->iv; o.filter=s->f; r= s->kind==FILT||s->kind==INT?doUnsubEx(c,s->ev,s->fn,o):doUnsub(c,s->ev); } s->held=false; s->since=g_now; if(r.rc&&must) violate(strf("restart:unsubscribe:%s",::en(r.rc)),"unsubscribing from %s failed with %s",s->ev.c_str(),::en(r.rc)); if(!evk(s->kind)) s->fn=nullptr; }
  std::vector<S*> of(int ci){ std::vector<S*> v; for(auto s:subs) if(s->ci==ci) v.push_back(s); return v; }
  void op(int ci,bool must,int timeout=0){ auto v=of(ci); S* s=v[choose(ST_WORK,v.size())]; if(!must){ if(s->kind==FILT||s->kind==INT) s->unsure++; else s->unsure=1; E.lax.insert({s->c,s->ev}); } else if(s->kind!=FILT&&s->kind!=INT) s->unsure=0; if(s->held) unsub(s,must); else { sub(s,must,timeout); } }
  void lost(int ci){ Proc* c=C[ci]; E.gone(c); for(auto s:of(ci)){ s->held=false; s->unsure=0; s->since=-1; s->got.clear(); s->fn=nullptr; } }
  void checkSeen(){ for(int k=0;k<NKIND;k++) for(int i=0;i<count(k);i++){ std::string n=name(k,i); int held=0,b=0,ad=0; for(auto s:subs) if(s->ev==n&&s->held) held++; for(auto& x:seen[n]){ b+=x.add?1:-1; ad+=x.add; } int mb=0; for(auto s:subs) if(s->ev==n) mb+=s->unsure; if(b<held-mb||b>held+mb) violate("restart:provider","%d subscriptions of %s are held but the restarted provider was told of %d (%d subscribes)",held,n.c_str(),b,ad); revived+=held;
        if(k==INT&&!mb) for(auto s:subs) if(s->ev==n&&s->held){ bool f=false; for(auto& x:seen[n]) if(x.add&&x.iv==s->iv) f=true; if(!f) violate("restart:interval","the restarted provider was not told of the subscription of %s with interval %u",n.c_str(),s->iv); } } }
  void probe_(){ // every kind of subscription works, exactly once
    std::map<S*,size_t> n0; for(auto s:subs){ n0[s]=s->got.size(); }
    for(int step=0;step<2;step++){ for(int i=0;i<2;i++) for(int k:{VC,FILT}) val[name(k,i)]= step?10+i:90+i; simSleep(5*SEC+500*MS); for(auto s:subs) if(s->held&&(s->kind==VC||s->kind==FILT)){ size_t n=s->got.size()-n0[s]; std::string want=strf("i32:%d%s",val[s->ev],s->kind==FILT?strf(" filter %d",1-step).c_str():""); if(n!=1||s->got.back().second!=want) violate(n?"restart:value-change":"restart:lost","after the restart %s changed once but %s got %zu events (last '%s', expected '%s')",s->ev.c_str(),s->c->comp.c_str(),n,n?s->got.back().second.c_str():"",want.c_str()); n0[s]=s->got.size(); } }
    for(auto s:subs) n0[s]=s->got.size(); i64 t=g_now; simSleep(9*SEC); for(auto s:subs) if(s->held&&s->kind==INT){ int n=(int)(s->got.size()-n0[s]),w=(int)((g_now-t)/SEC/s->iv); if(n<w-2||n>w+1) violate(n<w?"restart:lost":"restart:interval","after the restart %s got %d ticks of %s in %.1f s with an interval of %u s",s->c->comp.c_str(),n,s->ev.c_str(),(g_now-t)/1e9,s->iv); }
    for(auto s:subs) n0[s]=s->got.size(); call(P,"wild",60*SEC,[&]{ for(int i=1;i<=nr;i++){ doPublish(P,strf("Device.P0.T.%d.y!",i),"x"); simSleep(20*MS); } }); simSleep(2*SEC); for(auto s:subs) if(s->held&&s->kind==WILD){ int n=(int)(s->got.size()-n0[s]); if(n!=nr) violate(n<nr?"restart:lost":"restart:duplicate","one event on each of %d rows made %d events for the subscriber of %s after the restart",nr,n,s->ev.c_str()); } }
  void setup(int nc){ startRouter(); P=proc("prov0"); hooks(); K_=proc("keep"); startAndOpen(K_); call(K_,"reg",60*SEC,[&]{ rbusError_t rc=reg(K_,{{"Device.K.v",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); if(rc) violate("setup:reg","registering failed"); }); startAndOpen(P); call(P,"reg",60*SEC,[&]{ serve(true); }); up=true; upAt=regAt=g_now; E.strictRc=true; for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); for(int k=0;k<NKIND;k++) for(int j=0;j<count(k);j++){ S* s=new S; s->c=C[i]; s->ci=i; s->kind=k; s->ev=name(k,j); subs.push_back(s); } } }
  void ops(int n){ std::vector<Fiber*> fs; for(size_t i=0;i<C.size();i++) fs.push_back(bg(C[i],"ops",[this,i,n]{ for(int k=choose(ST_WORK,n+1);k>=0;k--){ op(i,true); if(choose(ST_WORK,2)) simSleep(chooseRange(ST_WORK,0,30*MS)); } })); joinAll(fs,"subscribing",300*SEC); }
  void down(int how){ up=false; if(how==0){ crash(P); pubbing=false; for(auto& q:E.pubs) if(q.second.by==P&&q.second.e==EvSim::INF) for(auto& o:E.owed) o.second.erase(q.first); } else { stopPub(); call(P,"close",100*SEC,[&]{ rbusError_t rc=closeBus(P); if(rc) violate("close:rc","rbus_close of the provider returned %s",::en(rc)); }); if(how==1) simExit(P->n,0); } seen.clear(); }
  void again(int how){ int tries=how==2?0:choose(ST_FAULT,3); for(int t=0;t<tries;t++){ start(P); post(P,[this]{ if(openBus(P)==0) serve(false); }); simSleep(chooseRange(ST_FAULT,0,choose(ST_FAULT,2)?4*MS:60*MS)); crash(P); seen.clear(); restarts++; simSleep(chooseRange(ST_FAULT,400*MS,900*MS)); }
    rbusError_t rc=RBUS_ERROR_BUS_ERROR; if(how!=2) start(P); call(P,"open",120*SEC,[&]{ rc=openBus(P); if(rc) violate(strf("setup:open:%s",::en(rc)),"opening the provider again failed with %s",::en(rc)); upAt=g_now; serve(false); regAt=g_now; }); up=true; restarts++; }
  // the cache file is damaged, missing, or cannot be written: the provider serves all the same
  bool isCache(const std::string& p){ return p.compare(0,15,"/tmp/rbus_subs_")==0; }
  void damage(){ std::string f="/tmp/rbus_subs_prov0",d; if(!fsRead(f,d)){ if(choose(ST_FAULT,2)) return; } fault(F_GARBAGE); auto rnd=[&](size_t n){ std::string r; for(size_t i=0;i<n;i++) r+=(char)choose(ST_FAULT,256); return r; };
    switch(choose(ST_FAULT,8)){ case 0: fsRemove(f); return; case 1: d.resize(choose(ST_FAULT,d.size()+1)); break; case 2: for(int k=1+choose(ST_FAULT,4);k>0&&!d.empty();k--) d[choose(ST_FAULT,d.size())]=(char)choose(ST_FAULT,256); break; case 3: d=rnd(choose(ST_FAULT,400)); break; case 4: d+=rnd(1+choose(ST_FAULT,200)); break;
      case 5: if(!d.empty()){ size_t a=choose(ST_FAULT,d.size()),n=choose(ST_FAULT,40); d.erase(a,n); } break; case 6: if(!d.empty()){ size_t a=choose(ST_FAULT,d.size()); d.insert(a,rnd(1+choose(ST_FAULT,20))); } break;
      default: { // a length or type field set to an odd value
        std::vector<size_t> at; for(size_t i=0;i+1<d.size();i++) if((unsigned char)d[i+1]<=5&&(unsigned char)d[i]<0x20) at.push_back(i); for(int k=1+choose(ST_FAULT,3);k>0&&!at.empty();k--){ size_t i=at[choose(ST_FAULT,at.size())]; u32 v=pick<u32>(ST_FAULT,{0,1,2,3,4,5,63,64,65,255,256,0x500,0x501,0x502,0x503,0x505,0x506,0x507,0x50b,0x50c,0x50d,0x50e,0x50f,0x510,0x511,0x512,0x513,0x514,0x515,0x516,0x7fff,0xffff}); d[i]=(char)v; d[i+1]=(char)(v>>8); } } }
    fsWrite(f,d); trace("cache damaged, now %zu bytes",d.size()); }
  void runDamage(bool disk){ slowSub=choose(ST_CFG,2); int nc=1+choose(ST_CFG,2); setup(nc); K_->store["Device.K.v"]="x"; int rounds=1+choose(ST_CFG,3); if(disk) g_diskFaultFilter=[this](const std::string& p){ return isCache(p); };
    for(int r=0;r<rounds;r++){ if(disk){ int w=choose(ST_FAULT,4); g_diskFailPct= w==1?40:w==3?100:0; g_diskFullBytes= w==2?choose(ST_FAULT,2000):-1; if(choose(ST_FAULT,2)) g_diskTornPct=30; } startPub(); ops(8); stopPub(); simSleep(2*SEC); E.final(); probe_();
      int how=choose(ST_FAULT,3); down(how); if(!disk) damage(); simSleep(chooseRange(ST_FAULT,400*MS,2*SEC)); if(disk){ g_diskFailPct=0; g_diskFullBytes=-1; } for(int i=0;i<nc;i++) for(auto s:of(i)) if(s->held){ s->lenient=true; E.lax.insert({s->c,s->ev}); }
      for(auto& x:E.iv) for(auto& v:x.second) if(v.u0==EvSim::INF) v.mayLose=true; E.owed.clear(); E.strictRc=false; again(how); simSleep(chooseRange(ST_WORK,0,2*SEC));
      // those who subscribed before give up and come again; what they hold then is served like any other
      for(int i=0;i<nc;i++) call(C[i],"renew",300*SEC,[&]{ for(auto s:of(i)) if(s->held){ unsub(s,false); } rbusError_t rc=closeBus(C[i]); if(rc) violate("close:rc","rbus_close returned %s",::en(rc)); lost(i); rc=openBus(C[i]); if(rc) violate("setup:open","opening again failed with %s",::en(rc)); }); simSleep(1*SEC); E.strictRc=true; for(auto s:subs){ s->lenient=false; s->since=0; s->unsure=false; } revived++; }
    startPub(); ops(8); stopPub(); simSleep(2*SEC); E.final(); probe_(); g_sh->nontrivial=revived>0; }
  void run(){ slowSub=choose(ST_CFG,2); int nc=1+choose(ST_CFG,3); if(choose(ST_CFG,3)==1) nr=11; setup(nc); int rounds=1+choose(ST_CFG,3); K_->store["Device.K.v"]="x"; int conRestarts=0;
    for(int r=0;r<rounds;r++){ startPub(); ops(6); std::vector<Fiber*> fs;
      bool overlap=choose(ST_WORK,2); if(overlap){ for(int i=0;i<nc;i++) if(choose(ST_WORK,2)) fs.push_back(bg(C[i],"late",[this,i]{ for(int k=1+choose(ST_WORK,3);k>0;k--){ op(i,false,30); simSleep(chooseRange(ST_WORK,0,5*MS)); } })); simSleep(chooseRange(ST_FAULT,0,30*MS)); }
      int how=choose(ST_FAULT,4); if(how==3) how=0; if(overlap&&how==2) how=0; down(how);
      simSleep(chooseRange(ST_FAULT,400*MS,2*SEC));
      // what subscribers do meanwhile
      if(!overlap) for(int i=0;i<nc;i++) switch(choose(ST_WORK,7)){ case 1: case 2: fs.push_back(bg(C[i],"meanwhile",[this,i]{ op(i,false,60); })); break; case 3: if(conRestarts>=3||!C[i]->alive()) break; conRestarts++; lost(i); crash(C[i]); if(choose(ST_WORK,2)) startAndOpen(C[i]); break;
          case 4: call(C[i],"close",100*SEC,[&]{ rbusError_t rc=closeBus(C[i]); if(rc) violate("close:rc","rbus_close returned %s",::en(rc)); lost(i); rc=openBus(C[i]); if(rc) violate("setup:open","opening again failed with %s",::en(rc)); }); break; default: break; }
      if(choose(ST_WORK,2)) simSleep(chooseRange(ST_FAULT,0,3*SEC));
      again(how); joinAll(fs,"late calls",300*SEC); for(int i=0;i<nc;i++) if(!C[i]->alive()) startAndOpen(C[i]); if(choose(ST_WORK,2)) startPub(); simSleep(1*SEC); checkSeen(); stopPub(); simSleep(2*SEC); E.final(); probe_(); if(choose(ST_WORK,2)) checkSeen(); }
    startPub(); ops(6); simSleep(500*MS); stopPub(); simSleep(2*SEC); E.final(); g_sh->nontrivial=revived>0; }
};
SCENARIO_W(C13,restart,4){ swarm(); if(choose(ST_CFG,2)){ g_diskTornPct=30; g_diskFaultFilter=[](const std::string& p){ return p.compare(0,15,"/tmp/rbus_subs_")==0; }; } T13 t; t.run(); }
SCENARIO_W(C13,damage,3){ swarm(); T13 t; t.runDamage(false); }
SCENARIO_W(C13,disk,1){ swarm(); T13 t; t.runDamage(true); }
