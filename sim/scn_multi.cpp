// C07 multi-property set: honest, all or nothing.  C08 multi-property get: complete and correct.
#include "world.h"
typedef std::vector<std::pair<std::string,std::string>> KV;
struct Multi {
  int np=2,nc=2; bool crashes=false,slow=false; u32 tmo=0; std::vector<Proc*> P,C; std::vector<i64> upSince,slowUntil; std::vector<bool> want; bool stop=false; Fiber* killer=nullptr; u64 ok=0,failed=0;
  int idx(const std::string& n){ return atoi(n.c_str()+8); }                    // Device.P<i>....
  bool reliable(int i,i64 t0){ return upSince[i]>=0&&upSince[i]<=t0&&slowUntil[i]+SEC<=t0; }
  bool neverDown(int i,i64 t0){ return upSince[i]>=0&&upSince[i]<=t0; }
  // a handler that stalls past the timeout, or dies; returns after the stall
  void misbehave(int i){ i64 t=(i64)(tmo?tmo:15000)*MS;
    if(slow&&chance(ST_WORK,1,14)){ fault(F_SLOWPROVIDER); i64 d=chooseRange(ST_FAULT,t/2,t+t/2); slowUntil[i]=std::max(slowUntil[i],g_now+d); simSleep(d); slowUntil[i]=std::max(slowUntil[i],g_now); }
    if(crashes&&chance(ST_WORK,1,20)&&upSince[i]>=0){ want[i]=true; slowUntil[i]=g_now+3600*SEC; simSleep(3600*SEC); } }
  virtual void regAll(int i)=0; virtual void lost(int i){ (void)i; }
  void boot(){ startRouter(); upSince.assign(np,-1); slowUntil.assign(np,-10*SEC); want.assign(np,false);
    for(int i=0;i<np;i++){ P.push_back(proc(strf("prov%d",i))); } for(int i=0;i<nc;i++) C.push_back(proc(strf("cons%d",i)));
    for(int i=0;i<np;i++){ startAndOpen(P[i]); regAll(i); upSince[i]=g_now; } for(auto c:C){ startAndOpen(c); if(tmo) call(c,"cfg",5*SEC,[&]{ setTimeouts(c,tmo); c->a()->rbusHandle_ConfigSetMultiTimeout(c->h,tmo); c->a()->rbusHandle_ConfigGetMultiTimeout(c->h,tmo); }); }
    if(crashes) killer=simThread(C[0]->n,"killer",[this]{ while(!stop){ for(int i=0;i<np;i++){ bool k=want[i]; if(!k&&upSince[i]>=0&&chance(ST_FAULT,1,3000)) k=true; if(k){ want[i]=false; upSince[i]=-1; lost(i); crash(P[i]); lost(i); simSleep(chooseRange(ST_FAULT,0,3*SEC)); if(stop) return; startAndOpen(P[i]); regAll(i); upSince[i]=g_now+1; slowUntil[i]=g_now-10*SEC; } } simSleep(chooseRange(ST_FAULT,0,4*MS)); } }); }
};
struct T7 : Multi {
  std::map<std::string,std::string> model; std::map<std::string,bool> taint; u64 nextOp=1; std::map<std::pair<u64,int>,std::vector<bool>> commits; std::set<std::string> inits;
  std::string el(int i,int c,int q){ return strf("Device.P%d.c%dq%d",i,c,q); }
  void lost(int i) override { for(auto& m:model) if(idx(m.first)==i) taint[m.first]=true; }
  void regAll(int i) override { Proc* p=P[i]; p->store.clear();
    p->onSet=[this,p,i](const std::string& nm,rbusProperty_t pr,rbusSetHandlerOptions_t* o)->rbusError_t{ std::string v=valStr(A()->rbusProperty_GetValue(pr)); if(nm.find(".c")!=std::string::npos){ int ci=atoi(nm.c_str()+nm.find(".c")+2); if(!o||!o->requestingComponent||C[ci]->comp!=o->requestingComponent) violate("setmulti:requester","the provider was told that %s sets %s",o&&o->requestingComponent?o->requestingComponent:"<none>",nm.c_str()); } misbehave(i);
      unsigned long long op=0; if(sscanf(v.c_str(),"op%llu:",&op)==1){ auto& cv=commits[{op,i}]; cv.push_back(o&&o->commit); } 
      if(v.find("REJ")!=std::string::npos) return RBUS_ERROR_ACCESS_NOT_ALLOWED; p->store[nm]=v; if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); misbehave(i); return RBUS_ERROR_SUCCESS; };
    p->onAddRow=[](const std::string&,const char*,uint32_t* n){ *n=1; return RBUS_ERROR_SUCCESS; };
    std::vector<El> e; for(int c=0;c<nc;c++){ for(int q=0;q<3;q++){ e.push_back({el(i,c,q),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}); p->store[el(i,c,q)]="init"; } e.push_back({strf("Device.P%d.c%dro",i,c),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}); }
    e.push_back({strf("Device.P%d.T.{i}.",i),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL}); e.push_back({strf("Device.P%d.T.{i}.x",i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET});
    rbusError_t rc=RBUS_ERROR_BUS_ERROR; call(p,"reg",60*SEC,[&]{ rc=reg(p,e); }); if(rc&&!crashes) violate("setup:reg","registering failed: %s",en(rc)); }
  std::string store(const std::string& n){ Proc* p=P[idx(n)]; auto it=p->store.find(n); return it==p->store.end()?"<none>":it->second; }
  void resync(const std::string& n){ if(!taint[n]) return; int i=idx(n); waitFor("setup:resync",[&]{ return upSince[i]>=0&&slowUntil[i]+SEC<g_now; },4000*SEC,"provider up again"); simSleep(500*MS); if(upSince[i]<0) return; model[n]=store(n); taint[n]=false; }
  void op(Proc* c,int ci){ Api* a=c->a(); u64 id=nextOp++; KV kv; bool reject=false; std::string rej; std::set<std::string> seen; int n=1+choose(ST_WORK,6);
    for(int k=0;k<n;k++){ int i=choose(ST_WORK,np); std::string nm; std::string v=strf("op%llu:%d:%s",(unsigned long long)id,k,payload(id*10+k,choose(ST_WORK,60)).c_str());
      switch(choose(ST_WORK,14)){ case 11: nm=strf("Device.P%d.c%dro",i,ci); reject=true; break; case 12: nm=strf("Device.P%d.T.7.x",i); reject=true; break; case 13: nm=el(i,ci,choose(ST_WORK,3)); if(!seen.count(nm)){ v+="REJ"; reject=true; } break; default: nm=el(i,ci,choose(ST_WORK,3)); }
      if(seen.insert(nm).second) kv.push_back({nm,v}); }
    if(choose(ST_WORK,30)==1){ std::string nm=strf("Device.None.%d",ci); kv.push_back({nm,"x"}); reject=true; }
    auto known=[&](const std::string& s){ return model.count(s)>0; };
    for(auto& x:kv) if(known(x.first)) resync(x.first);
    std::set<int> inv; for(auto& x:kv) if(x.first.find("Device.P")==0) inv.insert(idx(x.first));
    i64 t0=g_now; rbusProperty_t head=nullptr,last=nullptr; for(auto& x:kv){ rbusProperty_t q=mkProp(x.first,x.second); if(!head) head=q; else { a->rbusProperty_SetNext(last,q); a->rbusProperty_Release(q); } last=q; }
    i64 T=(i64)(tmo?tmo:60000)*MS; char* f=nullptr; rbusError_t rc; { OpGuard g("rbus_setMulti",(2*(i64)inv.size()+2)*T+20*SEC); if(choose(ST_WORK,2)) rc=a->rbus_setMulti(c->h,(int)kv.size(),head,nullptr); else rc=a->rbus_setMultiExt(c->h,(int)kv.size(),head,nullptr,tmo,&f); }
    std::string fe=f?f:""; if(f) free(f); a->rbusProperty_Release(head); logev("setMulti op%llu n=%zu %s.. reject=%d -> %s %s",(unsigned long long)id,kv.size(),kv[0].first.c_str(),reject,en(rc),fe.c_str());
    bool rel=true; for(int i:inv) rel&=reliable(i,t0);
    if(rc==0){ ok++; if(reject) violate("setmulti:false-success","a setMulti of %zu properties reported success although one of them cannot be set",kv.size());
      for(auto& x:kv){ int i=idx(x.first); if(!known(x.first)) continue; if(neverDown(i,t0)){ std::string s=store(x.first); if(s!=x.second) violate("setmulti:not-applied","setMulti reported success but %s holds '%.40s' instead of '%.40s'",x.first.c_str(),s.c_str(),x.second.c_str()); model[x.first]=x.second; } else { taint[x.first]=true; } }
      for(int i:inv) if(neverDown(i,t0)){ auto& v=commits[{id,i}]; size_t nset=0; for(auto& x:kv) if(idx(x.first)==i) nset++; int nc_=0; for(auto b:v) nc_+=b; if(nc_!=1||!v.back()) violate("setmulti:commit","setMulti reported success but provider %d saw %d commits in %zu sets",i,nc_,v.size()); if(v.size()!=nset) violate("setmulti:set-count","setMulti sent %zu properties to provider %d, which was asked to set %zu",nset,i,v.size()); } }
    else { failed++; if(!reject&&rel) violate(strf("setmulti:failed:%s",en(rc)),"setMulti of settable properties at prompt providers failed with %s",en(rc));
      if(!fe.empty()&&reject&&rel){ bool in=false; for(auto& x:kv) in|=x.first==fe&&(!known(fe)||x.second.find("REJ")!=std::string::npos); if(!in) violate("setmulti:failed-name","setMulti names '%s' as the failed property",fe.c_str()); }
      for(auto& x:kv){ if(!known(x.first)) continue; int i=idx(x.first); if(reliable(i,t0)){ if(taint[x.first]) continue; std::string s=store(x.first); if(s!=model[x.first]) violate("setmulti:not-restored","setMulti failed with %s but %s was left at '%.40s' instead of its previous value '%.40s'",en(rc),x.first.c_str(),s.c_str(),model[x.first].c_str()); } else taint[x.first]=true; } }
    // visibility
    if(choose(ST_WORK,2)) for(auto& x:kv) if(known(x.first)&&!taint[x.first]&&choose(ST_WORK,2)){ int i=idx(x.first); i64 t1=g_now; GetRes r=doGet(c,x.first,130*SEC); if(!reliable(i,t1)) continue; if(r.rc) violate(strf("setmulti:get:%s",en(r.rc)),"get %s failed with %s",x.first.c_str(),en(r.rc)); if(r.val!=model[x.first]) violate("setmulti:not-visible","get %s returned '%.40s' but its value is '%.40s'",x.first.c_str(),r.val.c_str(),model[x.first].c_str()); } }
  void run(){ for(int i=0;i<np;i++) for(int c=0;c<nc;c++) for(int q=0;q<3;q++) model[el(i,c,q)]="init"; boot(); int ops=2+choose(ST_CFG,8); std::vector<Fiber*> fs;
    for(int ci=0;ci<nc;ci++) fs.push_back(bg(C[ci],"w",[this,ci,ops]{ for(int k=0;k<ops;k++){ op(C[ci],ci); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); } }));
    joinAll(fs,"setMulti workload",40000*SEC); stop=true; if(killer) joinAll({killer},"killer",200*SEC); g_sh->nontrivial= ok>0&&failed>0; }
};
SCENARIO_W(C07,reject,3){ swarm(); T7 t; t.np=1+choose(ST_CFG,3); t.nc=1+choose(ST_CFG,3); t.run(); }
SCENARIO_W(C07,slow,2){ swarm(); T7 t; t.np=2+choose(ST_CFG,3); t.nc=1+choose(ST_CFG,2); t.slow=true; t.tmo=pick<u32>(ST_CFG,{2000,1000,5000}); t.run(); }
SCENARIO_W(C07,crash,3){ swarm(); T7 t; t.np=2+choose(ST_CFG,3); t.nc=1+choose(ST_CFG,2); t.crashes=true; t.tmo=pick<u32>(ST_CFG,{2000,8000,5000}); t.run(); }

struct T8 : Multi {
  struct Tok { std::string el; i64 at; }; std::map<u64,Tok> toks; u64 nextTok=1; std::map<std::string,bool> els; // concrete readable name -> getter fails
  int rows[8]={0},sh[8]={0},syn[8]={0};   // sh: what the provider has below Device.Sh.: a value, a method, an empty table, nothing; syn: rows of the table G, which answers for itself (-1: none)
  void regAll(int i) override { Proc* p=P[i];
    p->onGet=[this,i](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t* o)->rbusError_t{ u64 t=nextTok++; toks[t]={nm,g_now}; { std::string by=o&&o->requestingComponent?o->requestingComponent:"<none>"; bool f=false; for(auto c:C) f|=c->comp==by; if(!f) violate("getext:requester","the provider was told that %s gets %s",by.c_str(),nm.c_str()); } if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,4*MS)); misbehave(i); if(nm.find("bad")!=std::string::npos) return RBUS_ERROR_ACCESS_NOT_ALLOWED;
      std::string G=strf("Device.P%d.G.",i); if(nm==G){ Api* a=A(); rbusProperty_t last=pr; for(int r=1;r<=syn[i];r++) for(auto x:{"x","y"}){ std::string e=G+strf("%d.%s",r,x); u64 t2=nextTok++; toks[t2]={e,g_now}; rbusProperty_t q=mkProp(e,payload(t2,choose(ST_WORK,40))); a->rbusProperty_SetNext(last,q); a->rbusProperty_Release(q); last=q; } return RBUS_ERROR_SUCCESS; }
      if(nm.find(G)==0){ int r=atoi(nm.c_str()+G.size()); if(r<1||r>syn[i]) return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST; }
      setVal(pr,payload(t,choose(ST_WORK,40))); return RBUS_ERROR_SUCCESS; };
    auto ctr=std::make_shared<u32>(0); p->onAddRow=[ctr](const std::string&,const char*,uint32_t* n){ *n=++*ctr; return RBUS_ERROR_SUCCESS; };
    std::vector<El> e; int G=CB_GET; auto P_=RBUS_ELEMENT_TYPE_PROPERTY; e.push_back({strf("Device.P%d.a",i),P_,G}); e.push_back({strf("Device.P%d.b",i),P_,G}); e.push_back({strf("Device.P%d.sub.c",i),P_,G|CB_SET}); e.push_back({strf("Device.P%d.ab",i),P_,G}); e.push_back({strf("Device.P%d.bad",i),P_,G}); e.push_back({strf("Device.P%d.wo",i),P_,CB_SET}); e.push_back({strf("Device.P%d.m()",i),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); if(sh[i]==0) e.push_back({strf("Device.Sh.p%dv",i),P_,G}); if(sh[i]==1) e.push_back({strf("Device.Sh.p%dm()",i),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); if(sh[i]==2){ e.push_back({strf("Device.Sh.p%dt.{i}.",i),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL}); e.push_back({strf("Device.Sh.p%dt.{i}.x",i),P_,G}); }
    e.push_back({strf("Device.P%d.T.{i}.",i),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL}); e.push_back({strf("Device.P%d.T.{i}.x",i),P_,G}); e.push_back({strf("Device.P%d.T.{i}.y",i),P_,G});
    if(syn[i]>=0){ e.push_back({strf("Device.P%d.G.{i}.",i),RBUS_ELEMENT_TYPE_TABLE,G}); e.push_back({strf("Device.P%d.G.{i}.x",i),P_,G}); e.push_back({strf("Device.P%d.G.{i}.y",i),P_,G}); }
    bool okk=true; call(p,"reg",60*SEC,[&]{ rbusError_t rc=reg(p,e); okk=rc==0; for(int r=0;okk&&r<rows[i];r++) okk=doAddRow(p,strf("Device.P%d.T.",i),nullptr).rc==0; }); if(!okk&&!crashes) violate("setup:reg","registering failed"); }
  void model(){ for(int i=0;i<np;i++){ for(auto s:{"a","b","sub.c","ab"}) els[strf("Device.P%d.%s",i,s)]=false; els[strf("Device.P%d.bad",i)]=true; if(sh[i]==0) els[strf("Device.Sh.p%dv",i)]=false; for(int r=1;r<=rows[i];r++){ els[strf("Device.P%d.T.%d.x",i,r)]=false; els[strf("Device.P%d.T.%d.y",i,r)]=false; } for(int r=1;r<=syn[i];r++){ els[strf("Device.P%d.G.%d.x",i,r)]=false; els[strf("Device.P%d.G.%d.y",i,r)]=false; } } }
  int owner(const std::string& n){ if(n.find("Device.Sh.p")==0) return atoi(n.c_str()+11); return idx(n); }
  void checkVals(const std::string& q,const GetExtRes& r,i64 t0,const std::set<std::string>& exp,bool complete){ std::set<std::string> got;
    for(auto& v:r.vals){ if(!exp.count(v.first)) violate("getext:extra","getExt %s returned %s, which was not asked for",q.c_str(),v.first.c_str()); if(!got.insert(v.first).second) violate("getext:twice","getExt %s returned %s twice",q.c_str(),v.first.c_str()); u64 t; if(!checkPayload(v.second,&t)||!toks.count(t)) violate("getext:garbled","getExt %s returned '%.60s' for %s",q.c_str(),v.second.c_str(),v.first.c_str()); Tok& k=toks[t]; if(k.el!=v.first) violate("getext:wrong-value","getExt %s returned for %s the value of %s",q.c_str(),v.first.c_str(),k.el.c_str()); if(k.at<t0) violate("getext:stale","getExt %s returned for %s a value produced before the call",q.c_str(),v.first.c_str()); }
    if(complete) for(auto& e:exp) if(!got.count(e)) violate("getext:missing","getExt %s reported success but left out %s",q.c_str(),e.c_str()); }
  void op(Proc* c){ i64 t0=g_now; int kind=choose(ST_WORK,3); i64 T=(i64)(tmo?tmo:15000)*MS;
    if(kind<=1){ std::vector<std::string> ns; std::set<std::string> exp,inv_; bool bad=false; int n=1+choose(ST_WORK,6); std::vector<std::string> all; for(auto& e:els) if(!e.second) all.push_back(e.first);
      for(int k=0;k<n;k++){ std::string nm=all[choose(ST_WORK,(u32)all.size())]; switch(choose(ST_WORK,24)){ case 20: nm=strf("Device.P%d.bad",choose(ST_WORK,np)); bad=true; break; case 21: nm="Device.None.x"; bad=true; break; case 22: nm=strf(choose(ST_WORK,2)?"Device.P%d.T.9.x":"Device.P%d.G.9.y",choose(ST_WORK,np)); bad=true; break; case 23: nm=strf("Device.P%d.wo",choose(ST_WORK,np)); bad=true; break; } if(exp.insert(nm).second) ns.push_back(nm); }
      GetExtRes r=doGetExt(c,ns,(i64)(np+1)*T+20*SEC); bool rel=true; for(auto& x:ns) if(x!="Device.None.x") rel&=reliable(owner(x),t0);
      if(r.rc==0){ ok++; if(bad) violate("getext:false-success","getExt of %zu names, one of which cannot be read, reported success",ns.size()); checkVals(ns[0]+"..",r,t0,exp,true); } else { failed++; if(rel&&!bad) violate(strf("getext:failed:%s",en(r.rc)),"getExt of readable names at prompt providers failed with %s",en(r.rc)); } }
    else { int i=choose(ST_WORK,np); std::string q; std::function<bool(const std::string&)> m; switch(choose(ST_WORK,10)){ case 8: q=strf("Device.P%d.G.",i); break; case 9: q=strf("Device.P%d.G.%d.",i,1+choose(ST_WORK,3)); break; case 0: case 1: q=strf("Device.P%d.",i); break; case 2: q="Device."; break; case 3: q="Device.Sh."; break; case 4: q=strf("Device.P%d.T.",i); break; case 5: q=strf("Device.P%d.T.1.",i); break; case 6: q=strf("Device.P%d.T.*.x",i); break; default: q=strf("Device.P%d.sub.",i); }
      std::set<std::string> exp; size_t st=q.find("*"); for(auto& e:els){ if(e.second) continue; if(st==std::string::npos){ if(e.first.compare(0,q.size(),q)==0) exp.insert(e.first); } else if(e.first.compare(0,st,q,0,st)==0&&e.first.substr(e.first.size()-2)==".x") exp.insert(e.first); }
      std::set<int> inv; for(auto& e:exp) inv.insert(owner(e)); if(q=="Device."||q=="Device.Sh.") for(int k=0;k<np;k++) inv.insert(k); else inv.insert(i);
      GetExtRes r=doGetExt(c,{q},(i64)(np+1)*130*SEC); bool rel=true; for(int k:inv) rel&=reliable(k,t0);
      if(r.rc==0){ ok++; checkVals(q,r,t0,exp,rel); } else { failed++; if(rel&&!exp.empty()) violate(strf("getext:path-failed:%s",en(r.rc)),"getExt %s at prompt providers failed with %s",q.c_str(),en(r.rc)); } } }
  void run(){ for(int i=0;i<np;i++){ rows[i]=choose(ST_CFG,4); sh[i]=choosew(ST_CFG,4,5,3); syn[i]=(int)choose(ST_CFG,5)-1; } model(); boot(); int ops=2+choose(ST_CFG,8); std::vector<Fiber*> fs;
    for(int ci=0;ci<nc;ci++) fs.push_back(bg(C[ci],"w",[this,ci,ops]{ for(int k=0;k<ops;k++){ op(C[ci]); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); } }));
    joinAll(fs,"getExt workload",40000*SEC); stop=true; if(killer) joinAll({killer},"killer",200*SEC); g_sh->nontrivial= ok>0; }
};
SCENARIO_W(C08,mix,3){ swarm(); T8 t; t.np=1+choose(ST_CFG,4); t.nc=1+choose(ST_CFG,3); t.run(); }
SCENARIO_W(C08,slow,2){ swarm(); T8 t; t.np=2+choose(ST_CFG,3); t.nc=1+choose(ST_CFG,2); t.slow=true; t.tmo=pick<u32>(ST_CFG,{2000,1000,5000}); t.run(); }
SCENARIO_W(C08,crash,3){ swarm(); T8 t; t.np=2+choose(ST_CFG,3); t.nc=1+choose(ST_CFG,2); t.crashes=true; t.tmo=pick<u32>(ST_CFG,{2000,8000,5000}); t.run(); }
// C08 while elements come and go: a partial path returns exactly what is registered beneath it, from every provider beneath it.
struct T8d {
  static constexpr i64 GRACE=2*SEC; struct Dyn { int p; std::string n; int st=0; bool busy=false; i64 since=-10*SEC; u64 ver=0; };   // st: registered or not; busy/since: in change, last change
  std::vector<Proc*> P,C; std::vector<Dyn> D; std::map<u64,std::string> toks; u64 nextTok=1,ok=0; u64 clk=1; bool stop=false;
  static std::vector<std::string> shapes(){ return {"Device.D.x.y.%da","Device.D.x.%db","Device.D.x.y.z.%dc","Device.D.%dd","Device.D.x.y.z.w.%de","Device.D.u.%df","Device.D.x.y.%dg","Device.D.u.v.%dh","Device.D.x.y"}; }
  void change(Dyn& d,bool up ){ d.busy=true; d.ver=clk++; El e{d.n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}; Proc* p=P[d.p]; rbusError_t rc=up?reg(p,{e}):unreg(p,{e}); if(up&&rc==RBUS_ERROR_ELEMENT_NAME_DUPLICATE&&d.since+GRACE>g_now){ d.busy=false; d.ver=clk++; d.since=g_now; return; } if(rc) violate(strf("setup:%s:%s",up?"reg":"unreg",en(rc)),"%s %s failed with %s",up?"registering":"unregistering",d.n.c_str(),en(rc)); d.st=up; d.busy=false; d.since=g_now; d.ver=clk++; }
  bool in(const Dyn& d){ return d.st&&!d.busy; }
  bool out(const Dyn& d,i64 t){ return !d.st&&!d.busy&&d.since+GRACE<=t; }
  static bool under(const std::string& n,const std::string& q){ return n.size()>q.size()&&n.compare(0,q.size(),q)==0; }
  void path(Proc* c){ static const char* QS[]={"Device.D.","Device.D.x.","Device.D.x.y.","Device.D.x.y.z.","Device.D.u.","Device.D.x.y.z.w.","Device.D.u.v."}; std::string q=QS[choose(ST_WORK,7)]; i64 t0=g_now; std::vector<Dyn> before=D; GetExtRes r=doGetExt(c,{q},600*SEC); bool quiet=true; std::map<int,bool> mayReach; std::set<std::string> got; bool some=false;
    for(size_t k=0;k<D.size();k++){ if(!under(D[k].n,q)) continue; bool same=D[k].ver==before[k].ver; bool i_=same&&in(before[k]), o_=same&&out(before[k],t0); if(!i_&&!o_) quiet=false; if(i_) some=true; if(!o_) mayReach[D[k].p]=true; }
    for(auto& v:r.vals){ bool f=false; for(size_t k=0;k<D.size();k++) if(D[k].n==v.first){ f=true; if(!under(v.first,q)) violate("getext:extra","getExt %s returned %s",q.c_str(),v.first.c_str());
          // an element unregistered earlier may still be offered as long as its provider is asked for others (rbus keeps it in its own tree)
          if(!mayReach.count(D[k].p)) violate("getext:unregistered","getExt %s returned %s, but its provider has no element below that path any more",q.c_str(),v.first.c_str()); }
      u64 t; if(!f||!checkPayload(v.second,&t)||toks[t]!=v.first) violate("getext:garbled","getExt %s returned '%.40s' for %s",q.c_str(),v.second.c_str(),v.first.c_str()); if(!got.insert(v.first).second) violate("getext:twice","getExt %s returned %s twice",q.c_str(),v.first.c_str()); }
    if(r.rc==0){ ok++; for(size_t k=0;quiet&&k<D.size();k++) if(under(D[k].n,q)&&D[k].ver==before[k].ver&&in(before[k])&&!got.count(D[k].n)) violate("getext:missing","getExt %s reported success but left out %s",q.c_str(),D[k].n.c_str()); }
    else if(quiet&&some) violate(strf("getext:path-failed:%s",en(r.rc)),"getExt %s failed with %s although nothing below it is changing",q.c_str(),en(r.rc)); }
  void names(Proc* c){ std::vector<std::string> ns; std::vector<size_t> ix; i64 t0=g_now; std::vector<Dyn> before=D; int n=1+choose(ST_WORK,4); for(int k=0;k<n;k++){ size_t i=choose(ST_WORK,(u32)D.size()); if(std::find(ix.begin(),ix.end(),i)==ix.end()){ ix.push_back(i); ns.push_back(D[i].n); } }
    GetExtRes r=doGetExt(c,ns,600*SEC); bool allIn=true,anyOut=false; for(auto i:ix){ bool same=D[i].ver==before[i].ver; if(!(same&&in(before[i]))) allIn=false; if(same&&out(before[i],t0)) anyOut=true; }
    for(auto& v:r.vals){ u64 t; if(std::find(ns.begin(),ns.end(),v.first)==ns.end()) violate("getext:extra","getExt of names returned %s",v.first.c_str()); if(!checkPayload(v.second,&t)||toks[t]!=v.first) violate("getext:garbled","getExt returned '%.40s' for %s",v.second.c_str(),v.first.c_str()); }
    if(r.rc==0){ ok++; if(anyOut) violate("getext:false-success","getExt succeeded although one of its names is not registered"); if(r.vals.size()!=ns.size()) violate("getext:missing","getExt of %zu names returned %zu",ns.size(),r.vals.size()); } else if(allIn) violate(strf("getext:failed:%s",en(r.rc)),"getExt of registered names failed with %s",en(r.rc)); }
  void run(){ startRouter(); int np=2+choose(ST_CFG,3),nc=1+choose(ST_CFG,2); auto sh=shapes(); for(int i=0;i<np;i++){ Proc* p=proc(strf("p%d",i)); P.push_back(p); p->onGet=[this](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t*){ u64 t=nextTok++; toks[t]=nm; if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,4*MS)); setVal(pr,payload(t,choose(ST_WORK,30))); return RBUS_ERROR_SUCCESS; }; startAndOpen(p);
      for(size_t k=0;k+1<sh.size();k++) if(choose(ST_CFG,2)) { Dyn d; d.p=i; d.n=strf(sh[k].c_str(),i); D.push_back(d); } }
    if(D.empty()){ Dyn d; d.p=0; d.n="Device.D.x.y.0a"; D.push_back(d); } if(choose(ST_CFG,3)==1){ Dyn d; d.p=choose(ST_CFG,np); d.n="Device.D.x.yy"; D.push_back(d); }
    for(int i=0;i<nc;i++){ C.push_back(proc(strf("c%d",i))); startAndOpen(C[i]); }
    for(int i=0;i<np;i++) call(P[i],"reg",120*SEC,[this,i]{ for(auto& d:D) if(d.p==i&&choose(ST_WORK,4)) change(d,true); });
    int rounds=2+choose(ST_CFG,5); for(int r=0;r<rounds;r++){ std::vector<Fiber*> fs; bool during=choose(ST_WORK,2);
      if(chance(ST_FAULT,1,5)){ int i=choose(ST_FAULT,np); for(auto& d:D) if(d.p==i){ d.busy=true; d.ver=clk++; } if(choose(ST_FAULT,2)) crash(P[i]); else { call(P[i],"close",60*SEC,[&]{ closeBus(P[i]); }); crash(P[i]); } for(auto& d:D) if(d.p==i){ d.busy=false; d.st=0; d.since=g_now; d.ver=clk++; } simSleep(chooseRange(ST_FAULT,0,50*MS)); startAndOpen(P[i]); }
      for(int i=0;i<np;i++) fs.push_back(bg(P[i],"toggle",[this,i]{ for(auto& d:D) if(d.p==i&&choose(ST_WORK,3)==1){ change(d,!d.st); if(choose(ST_WORK,2)) simSleep(chooseRange(ST_WORK,0,5*MS)); } }));
      if(during) for(auto c:C) fs.push_back(bg(c,"look",[this,c]{ for(int k=0;k<3;k++){ if(choose(ST_WORK,3)) path(c); else names(c); } }));
      joinAll(fs,"changes",6000*SEC); fs.clear(); simSleep(GRACE+100*MS); for(auto c:C) fs.push_back(bg(c,"look",[this,c]{ for(int k=0;k<4;k++){ if(choose(ST_WORK,3)) path(c); else names(c); } })); joinAll(fs,"queries",6000*SEC); }
    g_sh->nontrivial=ok>0; }
};
SCENARIO_W(C08,dynamic,3){ swarm(); T8d t; t.run(); }
