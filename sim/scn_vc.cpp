// C10 value-change subscriptions: every lasting change is reported, old values chain, filters flip.
#include "world.h"
struct T10 {
  static const i64 PER=2*SEC, SL=3*SEC; static constexpr i64 INF=INT64_MAX;
  struct Hist { std::vector<std::pair<i64,int>> v; i64 a0=0,a1=0,d0=INF; std::vector<i64> fails; struct By { i64 a,b; std::string who; }; std::vector<By> by; i64 slow=0; int kind=0; };   // a0..a1 created, d0 removal began
  struct Ev { i64 t; int nv,ov,filt; };
  // a filter: one relation, or relations joined by and, or, not
  struct Expr { int op,thr; Expr *l=nullptr,*r=nullptr; bool truth(int v){ switch(op){ case 0: return v>thr; case 1: return v<thr; case 2: return v==thr; case 3: return v>=thr; case 4: return v!=thr; case 5: return v<=thr; case 6: return l->truth(v)&&r->truth(v); case 7: return l->truth(v)||r->truth(v); default: return !l->truth(v); } } };
  Expr* drawExpr(int depth){ if(depth<3&&choose(ST_WORK,depth?3:2)==1){ Expr* e=new Expr{6+(int)choose(ST_WORK,3),0}; e->l=drawExpr(depth+1); if(e->op<8) e->r=drawExpr(depth+1); return e; } return new Expr{(int)choose(ST_WORK,6),(int)choose(ST_WORK,range)}; }
  rbusFilter_t mkFilter(Api* a,Expr* e,int kind){ rbusFilter_t f=nullptr; if(e->op<6){ static const rbusFilter_RelationOperator_t ops[]={RBUS_FILTER_OPERATOR_GREATER_THAN,RBUS_FILTER_OPERATOR_LESS_THAN,RBUS_FILTER_OPERATOR_EQUAL,RBUS_FILTER_OPERATOR_GREATER_THAN_OR_EQUAL,RBUS_FILTER_OPERATOR_NOT_EQUAL,RBUS_FILTER_OPERATOR_LESS_THAN_OR_EQUAL}; rbusValue_t v=mkVal(enc(kind,e->thr)); a->rbusFilter_InitRelation(&f,ops[e->op],v); a->rbusValue_Release(v); return f; }
    static const rbusFilter_LogicOperator_t lops[]={RBUS_FILTER_OPERATOR_AND,RBUS_FILTER_OPERATOR_OR,RBUS_FILTER_OPERATOR_NOT}; rbusFilter_t l=mkFilter(a,e->l,kind),r=e->r?mkFilter(a,e->r,kind):nullptr; a->rbusFilter_InitLogic(&f,lops[e->op-6],l,r); a->rbusFilter_Release(l); if(r) a->rbusFilter_Release(r); return f; }
  struct Sub { Expr* x=nullptr; Proc* c; std::string ev; int op=-1; rbusFilter_t f=nullptr; i64 t0,t1=INF,u0=INF,u1=INF; std::map<std::string,std::vector<Ev>> got; EvFn* fn=nullptr; bool held=false; bool truth(int v){ return x?x->truth(v):true; } };
  std::map<std::string,Hist> H; std::vector<Sub*> S; std::vector<Proc*> P,C; int subBusy=0; u64 events=0,nrow=0; int range=4; i64 handlerMax=0; bool failing=false; std::map<std::string,i64> failUntil;
  bool rows=false; bool stop=false; int ne=2; std::vector<int> rowKind;
  // the values 0..range-1 as values of some type, in the same order (but for the structured ones)
  static const int KINDS=12;
  std::string enc(int kind,int v){ switch(kind){ case 1: return strf("i64:%lld",9007199254740993LL+v); case 2: return strf("u64:%llu",0xFFFFFFFFFFFFFF00ULL+v); case 3: return "s:"+std::string(70,'k')+std::string(v,'x')+(char)('a'+v); case 4: return "x:"+std::string("\0\1\2",3)+std::string(1+v,'\0'); case 5: return strf("t:%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d",5+v,10,7,3,5,123,2,100,0,0,0,0); case 6: return strf("d:%.17g",0.1+v*1e-9); case 7: return strf("u8:%d",250+v); case 8: return strf("t:%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d",5,59-v,7,3,5,123,2,100,0,0,30,1); case 9: case 10: return structVal(kind*100+v); case 11: return "x:"+std::string(1+v*90,(char)7); default: return strf("i32:%d",v); } }
  int dec(int kind,const std::string& c){ for(int v=0;v<range;v++) if(enc(kind,v)==c) return v; return -1; }
  static bool ordered(int kind){ return kind<8; }
  int kindOf(const std::string& n){ auto i=H.find(n); if(i!=H.end()) return i->second.kind; int p=0; if(sscanf(n.c_str(),"Device.P%d.T.",&p)==1) return rowKind[p]; return 0; }
  std::vector<std::string> elems(){ std::vector<std::string> r; for(auto& x:H) r.push_back(x.first); return r; }
  std::string anyElem(bool live){ std::vector<std::string> r; for(auto& x:H) if(!live||(x.second.d0==INF&&x.second.a1!=INF)) r.push_back(x.first); return r.empty()?"":r[choose(ST_WORK,r.size())]; }
  int cur(const std::string& n){ return H[n].v.back().second; }
  void change(const std::string& n,int v,const std::string& who=""){ auto& h=H[n]; if(h.v.back().second!=v){ h.v.push_back({g_now,v}); if(!who.empty()) h.by.push_back({g_now,g_now,who}); trace("value %s = %d",n.c_str(),v); } }
  std::set<int> valuesIn(const std::string& n,i64 a,i64 b){ std::set<int> r; auto& v=H[n].v; for(size_t i=0;i<v.size();i++){ i64 s=v[i].first,e=i+1<v.size()?v[i+1].first:INF; if(s<=b&&e>=a) r.insert(v[i].second); } return r; }
  static bool covers(const std::string& ev,const std::string& el){ size_t s=ev.find('*'); if(s==std::string::npos) return ev==el; std::string pre=ev.substr(0,s),suf=ev.substr(s+1); return el.size()>=pre.size()+suf.size()&&el.compare(0,pre.size(),pre)==0&&el.compare(el.size()-suf.size(),suf.size(),suf)==0; }
  i64 lag(const std::string&){ return PER+SL+handlerMax*(i64)(H.size()+2); }
  void event(Sub* s,rbusEvent_t const* e,rbusEventSubscription_t*){ std::string n=e->name?e->name:""; if(s->u1!=INF&&g_now>s->u1) violate("value-change:after-unsubscribe","an event of %s came after unsubscribe had returned",s->ev.c_str());
    if(e->type!=RBUS_EVENT_VALUE_CHANGED) violate("value-change:type","the subscriber of %s got an event of type %d",s->ev.c_str(),e->type); if(!covers(s->ev,n)||!H.count(n)) violate("value-change:name","the subscriber of %s got an event of '%s'",s->ev.c_str(),n.c_str());
    Api* a=s->c->a(); std::string nvs=canon(a->rbusObject_GetValue(e->data,"value")),ovs=canon(a->rbusObject_GetValue(e->data,"oldValue")); int nv=dec(kindOf(n),nvs),ov=dec(kindOf(n),ovs); if(nv<0||ov<0) violate("value-change:data","the event of %s carries value '%.40s' and old value '%.40s'",n.c_str(),nvs.c_str(),ovs.c_str());
    rbusValue_t fv=a->rbusObject_GetValue(e->data,"filter"); int filt=fv?a->rbusValue_GetBoolean(fv):-1; events++; auto& g=s->got[n]; trace("event %s to %s/%s: %d->%d filter %d",n.c_str(),s->c->comp.c_str(),s->ev.c_str(),ov,nv,filt);
    if(nv==ov) violate("value-change:no-change","%s: an event says the value changed from %d to %d",n.c_str(),ov,nv);
    if(!valuesIn(n,g_now-lag(n),g_now).count(nv)) violate("value-change:wrong-value","%s: an event says the value is %d, which it has not been in the last %.1f s",n.c_str(),nv,lag(n)/1e9);
    const char* by=nullptr; if(rbusValue_t bv=a->rbusObject_GetValue(e->data,"by")) by=a->rbusValue_GetString(bv,nullptr); if(!by) violate("value-change:by","%s: an event does not say by whom the value was changed",n.c_str());
    if(H[n].fails.empty()){ bool ok=false; for(auto& x:H[n].by) if(x.who==by&&x.b>=g_now-lag(n)) ok=true; if(!ok) violate("value-change:by","%s: an event says %s changed the value from %d to %d, but it has not touched it in the last %.1f s",n.c_str(),by,ov,nv,lag(n)/1e9); }
    i64 st=std::max(s->t0,H[n].a0), en=std::max(s->t1==INF?g_now:s->t1,H[n].a1);
    if(s->op<0){ if(filt>=0) violate("value-change:filter-flag","%s: a subscriber without a filter got an event with 'filter'",n.c_str()); if(g.empty()){ bool f=false; for(i64 t:H[n].fails) if(t>=st-lag(n)) f=true; if(!f&&!valuesIn(n,st-lag(n),en).count(ov)) violate("value-change:first-old","%s: the first event of a subscription says the old value was %d, which it was not when subscribed",n.c_str(),ov); }
      else if(g.back().nv!=ov) violate("value-change:chain","%s: an event says the value changed from %d to %d but the event before said it was %d",n.c_str(),ov,nv,g.back().nv); }
    else { if(filt!=(int)s->truth(nv)) violate("value-change:filter-flag","%s: the event for value %d says the filter is %d",n.c_str(),nv,filt); if(s->truth(nv)==s->truth(ov)) violate("value-change:filter","%s: a filtered subscriber got an event for %d to %d, both %s the filter",n.c_str(),ov,nv,s->truth(nv)?"matching":"not matching");
      if(!g.empty()&&s->truth(g.back().nv)==s->truth(nv)) violate("value-change:filter-repeat","%s: two events in a row say the filter %s",n.c_str(),s->truth(nv)?"matches":"stopped matching"); }
    g.push_back({g_now,nv,ov,filt}); if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); }
  // lasting values: reported within a poll and the allowed lag
  void lasting(Sub* s){ if(s->t1==INF) return; for(auto& x:H){ const std::string& n=x.first; Hist& h=x.second; if(!covers(s->ev,n)) continue; i64 A=std::max(s->t1,h.a1),B=std::min({s->u0,h.d0,g_now}); auto& g=s->got[n];
      bool anyFail=false; for(i64 t:h.fails) if(t>=std::max(s->t0,h.a0)-lag(n)&&t<=A) anyFail=true; std::set<int> base=valuesIn(n,std::max(s->t0,h.a0)-lag(n),A);
      for(size_t i=0;i<h.v.size();i++){ i64 a=std::max(h.v[i].first,A),b=std::min(i+1<h.v.size()?h.v[i+1].first:INF,B); i64 w=a+lag(n); if(w>b) continue; bool f=false; for(i64 t:h.fails) if(t>=a-lag(n)&&t<=w) f=true; if(f||(anyFail&&g.empty())) continue; int V=h.v[i].second; const Ev* last=nullptr; for(auto& e:g) if(e.t<=w) last=&e;
        if(s->op<0){ if(last? last->nv!=V : !base.count(V)) violate("value-change:missed","%s has been %d for %.1f s but the subscriber %s was last told %s",n.c_str(),V,(b-a)/1e9,s->c->comp.c_str(),last?strf("%d",last->nv).c_str():"nothing"); }
        else { bool T=s->truth(V); bool bl=false; for(int v:base) if(s->truth(v)==T) bl=true; if(last? s->truth(last->nv)!=T : !bl) violate("value-change:missed-filter","%s has been %d for %.1f s, which %s the filter, but the subscriber %s was not told",n.c_str(),V,(b-a)/1e9,T?"matches":"does not match",s->c->comp.c_str()); } } } }
  void sub(Proc* c){ std::string ev; if(rows&&choose(ST_WORK,3)==1) ev=strf("Device.P%d.T.*.x",(int)choose(ST_WORK,P.size())); else ev=anyElem(true); if(ev.empty()) return; int op=choose(ST_WORK,2)?0:-1; if(!ordered(kindOf(ev))) op=-1;
    for(auto s:S) if(s->held&&s->c==c&&s->ev==ev) return;      // one subscription per element and subscriber: a plain unsubscribe cannot tell them apart
    Sub* s=new Sub(); s->c=c; s->ev=ev; s->op=op; Api* a=c->a(); if(op>=0){ s->x=drawExpr(0); s->f=mkFilter(a,s->x,kindOf(ev)); }
    s->fn=new EvFn([this,s](rbusEvent_t const* e,rbusEventSubscription_t* q){ event(s,e,q); }); s->t0=g_now; s->held=true; S.push_back(s); subBusy++; SubOpt o; o.filter=s->f; Rc r= s->f||choose(ST_WORK,2)?doSubEx(c,ev,s->fn,o):doSub(c,ev,s->fn); subBusy--;
    if(r.rc){ bool dead=!ev.empty()&&ev.find('*')==std::string::npos&&H[ev].d0!=INF; s->held=false; s->u0=s->u1=s->t0; if(!dead) violate(strf("value-change:subscribe:%s",::en(r.rc)),"subscribing to %s failed with %s",ev.c_str(),::en(r.rc)); return; } s->t1=g_now; }
  void unsub(Proc* c){ std::vector<Sub*> v; for(auto s:S) if(s->held&&s->c==c&&s->t1!=INF&&s->u0==INF) v.push_back(s); if(v.empty()) return; Sub* s=v[choose(ST_WORK,v.size())]; s->u0=g_now; SubOpt o; o.filter=s->f; bool conc=s->ev.find('*')==std::string::npos; Rc r= s->f||choose(ST_WORK,2)?doUnsubEx(c,s->ev,s->fn,o):doUnsub(c,s->ev); s->u1=g_now; s->held=false; if(r.rc&&!(conc&&H[s->ev].d0!=INF)) violate(strf("value-change:unsubscribe:%s",::en(r.rc)),"unsubscribing from %s failed with %s",s->ev.c_str(),::en(r.rc)); }
  void addRow(int i){ Proc* p=P[i]; uint32_t inst=1+nrow++; std::string n=strf("Device.P%d.T.%u.x",i,inst); auto& h=H[n]; h.kind=rowKind[i]; h.v.push_back({g_now,(int)choose(ST_WORK,range)}); h.a0=g_now; h.a1=INF; subBusy++; rbusError_t rc=p->a()->rbusTable_registerRow(p->h,strf("Device.P%d.T.",i).c_str(),inst,nullptr); subBusy--; H[n].a1=g_now; logev("registerRow %s -> %s",n.c_str(),::en(rc)); if(rc) violate(strf("value-change:row:%s",::en(rc)),"registering the row of %s failed with %s",n.c_str(),::en(rc)); }
  void delRow(int i){ std::vector<std::string> r; std::string pre=strf("Device.P%d.T.",i); for(auto& x:H) if(x.first.compare(0,pre.size(),pre)==0&&x.second.d0==INF&&x.second.a1!=INF) r.push_back(x.first); if(r.empty()) return; std::string n=r[choose(ST_WORK,r.size())]; H[n].d0=g_now; Proc* p=P[i]; std::string row=n.substr(0,n.size()-2); rbusError_t rc=p->a()->rbusTable_unregisterRow(p->h,row.c_str()); logev("unregisterRow %s -> %s",row.c_str(),::en(rc)); if(rc) violate(strf("value-change:row:%s",::en(rc)),"unregistering row %s failed with %s",row.c_str(),::en(rc)); }
  i64 nap(){ switch(choose(ST_WORK,4)){ case 0: return chooseRange(ST_WORK,0,50*MS); case 1: return chooseRange(ST_WORK,0,2*SEC); case 2: return PER-50*MS+chooseRange(ST_WORK,0,100*MS); default: return chooseRange(ST_WORK,0,9*SEC); } }
  int drawKind(){ return choose(ST_CFG,2)?(int)choose(ST_CFG,KINDS):0; }
  void provider(int i){ Proc* p=P[i]; rowKind.push_back(drawKind());
    p->onGet=[this](const std::string& n,rbusProperty_t pr,rbusGetHandlerOptions_t* o)->rbusError_t{ auto it=H.find(n); if(it==H.end()) return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST; bool poll=o&&o->requestingComponent&&!strcmp(o->requestingComponent,"valueChangePollThread"); i64 d= handlerMax?chooseRange(ST_WORK,0,handlerMax):0; bool late=choose(ST_WORK,2); if(d&&!late) simSleep(d);
      if(poll&&!subBusy&&failUntil.count(n)&&g_now<failUntil[n]){ it->second.fails.push_back(g_now); return RBUS_ERROR_BUS_ERROR; } int v=cur(n); if(d&&late) simSleep(d); Api* a=g_cur->node->api; rbusValue_t x=mkVal(enc(kindOf(n),v)); a->rbusProperty_SetValue(pr,x); a->rbusValue_Release(x); return RBUS_ERROR_SUCCESS; };
    p->onSet=[this](const std::string& n,rbusProperty_t pr,rbusSetHandlerOptions_t*)->rbusError_t{ if(!H.count(n)) return RBUS_ERROR_ELEMENT_DOES_NOT_EXIST; int v=dec(kindOf(n),canon(g_cur->node->api->rbusProperty_GetValue(pr))); if(v<0) return RBUS_ERROR_INVALID_INPUT; change(n,v); return RBUS_ERROR_SUCCESS; };
    std::vector<El> e; for(int k=0;k<ne;k++){ std::string n=strf("Device.P%d.v%d",i,k); H[n].kind=drawKind(); H[n].v.push_back({g_now,(int)choose(ST_WORK,range)}); e.push_back({n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}); } if(rows){ e.push_back({strf("Device.P%d.T.{i}.",i),RBUS_ELEMENT_TYPE_TABLE,0}); e.push_back({strf("Device.P%d.T.{i}.x",i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}); }
    call(p,"reg",60*SEC,[&]{ rbusError_t rc=reg(p,e); if(rc) violate("setup:reg","registering failed: %s",::en(rc)); }); }
  void run(){ startRouter(); int np=1+choose(ST_CFG,2),nc=1+choose(ST_CFG,3); range=2+choose(ST_CFG,4); if(choose(ST_CFG,2)) handlerMax=pick<i64>(ST_CFG,{1*MS,20*MS,150*MS}); failing=choose(ST_CFG,3)==1;
    for(int i=0;i<np;i++) P.push_back(proc(strf("prov%d",i))); for(int i=0;i<nc;i++) C.push_back(proc(strf("cons%d",i))); for(int i=0;i<np;i++){ startAndOpen(P[i]); provider(i); } for(auto c:C) startAndOpen(c);
    std::vector<Fiber*> fs,pf; int ops=6+choose(ST_CFG,20);
    for(int i=0;i<np;i++) pf.push_back(bg(P[i],"own",[&,i]{ while(!stop){ int w=choose(ST_WORK,8); if(rows&&w<2) addRow(i); else if(rows&&w==2) delRow(i); else if(w<6){ for(auto& n:elems()) if(n.find(strf("P%d.",i))!=std::string::npos&&choose(ST_WORK,3)==1) change(n,choose(ST_WORK,range),P[i]->comp); } else if(failing&&w==6){ std::string n=anyElem(true); if(!n.empty()) failUntil[n]=g_now+chooseRange(ST_WORK,0,6*SEC); } simSleep(nap()); } }));
    for(int i=0;i<nc;i++) fs.push_back(bg(C[i],"drv",[&,i]{ Proc* c=C[i]; for(int k=0;k<ops;k++){ int w=choose(ST_WORK,10); if(w<4) sub(c); else if(w<6) unsub(c); else if(w<8){ std::string n=anyElem(true); if(!n.empty()){ H[n].by.push_back({g_now,INF,c->comp}); size_t bi=H[n].by.size()-1; Rc r=doSetC(c,n,enc(kindOf(n),choose(ST_WORK,range))); H[n].by[bi].b=g_now; if(r.rc&&H[n].d0==INF) violate(strf("value-change:set:%s",::en(r.rc)),"setting %s failed with %s",n.c_str(),::en(r.rc)); } } simSleep(nap()); } }));
    joinAll(fs,"subscribers",1500*SEC); stop=true; joinAll(pf,"providers",100*SEC); failUntil.clear(); simSleep(lag("")+2*SEC); for(auto s:S) lasting(s);
    if(choose(ST_CFG,2)) for(auto c:C) call(c,"close",100*SEC,[&]{ for(auto s:S) if(s->c==c&&s->u0==INF) s->u0=g_now; rbusError_t rc=closeBus(c); if(rc) violate("close:rc","rbus_close returned %s",::en(rc)); });
    for(auto p:P) call(p,"close",100*SEC,[&]{ rbusError_t rc=closeBus(p); if(rc) violate("close:rc","rbus_close returned %s",::en(rc)); });
    g_sh->nontrivial=events>1; }
};
SCENARIO_W(C10,plain,3){ swarm(); T10 t; t.ne=1+choose(ST_CFG,4); t.run(); }
SCENARIO_W(C10,rows,3){ swarm(); T10 t; t.ne=choose(ST_CFG,3); t.rows=true; t.run(); }
SCENARIO_W(C24,poll,2){ swarm(); clockSteps(); T10 t; t.ne=1+choose(ST_CFG,3); t.run(); }
