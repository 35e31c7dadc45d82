// C04: event delivery.
#include "evsim.h"
struct T4 {
  EvSim E; std::vector<Proc*> P,S; bool raw=false, settle=true; size_t len=20; bool dyn=false, multi=false; int ne;
  std::string ev(int p,int e){ return strf("Device.P%d.e%d!",p,e); }
  void run(){
    int np=1+choose(ST_CFG,2), ns=1+choose(ST_CFG,3); ne=1+choose(ST_CFG,3); E.handlerMax=choose(ST_CFG,3)*2*MS; E.window=4+choose(ST_CFG,8);
    startRouter(); for(int i=0;i<np;i++){ Proc* p=proc(strf("prov%d",i)); P.push_back(p); startAndOpen(p); std::vector<El> e; for(int k=0;k<ne;k++) e.push_back({ev(i,k),RBUS_ELEMENT_TYPE_EVENT,choose(ST_CFG,2)?CB_SUB:0}); e.push_back({strf("Device.P%d.v",i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}); call(p,"reg",60*SEC,[&]{ rbusError_t rc=reg(p,e); if(rc) violate("setup:reg","registering events failed: %s",en(rc)); }); p->store[strf("Device.P%d.v",i)]="x"; }
    for(int i=0;i<ns;i++){ Proc* s=proc(strf("sub%d",i)); S.push_back(s); startAndOpen(s); }
    std::vector<Fiber*> fs; bool done=false; int nt=1+choose(ST_CFG,2), n=4+choose(ST_CFG,14);
    // a raw-data subscription adds its route with an unacknowledged message: one more round trip of the subscriber settles it (see rawrace)
    auto mustSub=[this](Proc* s,const std::string& e){ Rc r=E.sub(s,e,raw,0,[this,s]{ if(raw&&settle) doGet(s,"Device.P0.v"); }); if(r.rc) violate(strf("event:subscribe-failed:%s",en(r.rc)),"subscribing to %s failed with %s",e.c_str(),en(r.rc)); };
    auto mustUnsub=[this](Proc* s,const std::string& e){ Rc r=E.unsub(s,e,raw); if(r.rc) violate(strf("event:unsubscribe-failed:%s",en(r.rc)),"unsubscribing from %s failed with %s",e.c_str(),en(r.rc)); };
    for(auto s:S) call(s,"subs",120*SEC,[&]{ for(int p=0;p<np;p++) for(int k=0;k<ne;k++) if(choose(ST_WORK,4)!=1) mustSub(s,ev(p,k)); });
    for(int i=0;i<np;i++) for(int t=0;t<nt;t++) fs.push_back(bg(P[i],strf("pub%d",t),[this,i,n]{ for(int k=0;k<n;k++){ E.publish(P[i],ev(i,choose(ST_WORK,ne)),5+choose(ST_WORK,(u32)len),raw); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); } }));
    std::vector<Fiber*> bgf;
    if(dyn) for(auto s:S) bgf.push_back(bg(s,"dyn",[&,s]{ while(!done){ int p=choose(ST_WORK,np),k=choose(ST_WORK,ne); if(E.cur(s,ev(p,k))) mustUnsub(s,ev(p,k)); else mustSub(s,ev(p,k)); simSleep(chooseRange(ST_WORK,1*MS,20*MS)); } }));
    if(choose(ST_CFG,2)) bgf.push_back(bg(S[0],"rpc",[&]{ while(!done){ int p=choose(ST_WORK,np); GetRes r=doGet(S[0],strf("Device.P%d.v",p)); if(r.rc) violate(strf("event:get-failed:%s",en(r.rc)),"a get concurrent with events failed with %s",en(r.rc)); simSleep(chooseRange(ST_WORK,1*MS,20*MS)); } }));
    joinAll(fs,"publishers",600*SEC); done=true; joinAll(bgf,"background",120*SEC);
    simSleep(5*SEC); E.final(); g_sh->nontrivial= E.delivered>0; }
};
SCENARIO_W(C04,plain,3){ swarm(); T4 t; t.run(); }
SCENARIO_W(C04,dynamic,3){ swarm(); T4 t; t.dyn=true; t.run(); }
SCENARIO_W(C04,big,1){ swarm(); T4 t; t.len=60000; K.sockBuf=4096; K.shortReadPct=5; t.run(); }
SCENARIO_W(C04,raw,2){ swarm(); T4 t; t.raw=true; t.run(); }
SCENARIO_W(C04,rawdyn,2){ swarm(); T4 t; t.raw=true; t.dyn=true; t.run(); }
SCENARIO_W(C04,rawrace,1){ swarm(); T4 t; t.raw=true; t.settle=false; t.run(); }
SCENARIO_W(C15,events,1){ swarm(); K.shortReads=true; K.shortWrites=choose(ST_CFG,2); T4 t; t.len=choose(ST_CFG,2)?60000:3000; if(t.len>3000){ K.sockBuf=4096; K.shortReadPct=5; K.maxDelay=std::min<i64>(K.maxDelay,200*US); } t.dyn=choose(ST_CFG,2); t.run(); }
