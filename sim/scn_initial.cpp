// C09 subscribing with the initial value: a table's rows, or the values a wildcard names, as they were while the subscription was made; with the row events that follow the picture is complete.
#include "world.h"
struct T9i {
  static constexpr u64 INF=~0ULL; struct Row { uint32_t i; u64 a0,a1=INF,r0=INF,r1=INF; }; struct Tok { std::string n; u64 c; };
  Proc* P=nullptr; std::vector<Proc*> C; std::vector<std::vector<Row*>> R; std::vector<Row*> pend; int nt=1; u64 clk=1,nextTok=1; std::map<u64,Tok> toks; u64 nini=0,nrow=0; bool stop=false; std::map<int,bool> fail;
  struct Sub { Proc* c; std::string n; int t; bool wild; SubOpt o; EvFn* fn; bool held=false,ini=false; u64 s=0,e=INF; std::set<uint32_t> shown,made,gone; u64 nIni=0; };
  std::string T(int t){ return strf("Device.P0.T%d.",t); }
  void add(Proc* by,int t){ Row* r=new Row; r->a0=clk++; r->i=0; pend.push_back(r); AddRes a=doAddRow(by,T(t),nullptr); r->i=a.inst; if(a.rc) violate(strf("initial:addrow:%s",en(a.rc)),"adding a row to %s failed with %s",T(t).c_str(),en(a.rc)); r->a1=clk++; R[t].push_back(r); pend.erase(std::find(pend.begin(),pend.end(),r)); nrow++; }
  void del(Proc* by,int t){ std::vector<Row*> l; for(auto r:R[t]) if(r->r0==INF) l.push_back(r); if(l.empty()) return; Row* r=l[choose(ST_WORK,l.size())]; r->r0=clk++; Rc x=doRemoveRow(by,T(t)+strf("%u",r->i)); if(x.rc) violate(strf("initial:removerow:%s",en(x.rc)),"removing row %u of %s failed with %s",r->i,T(t).c_str(),en(x.rc)); r->r1=clk++; }
  void rowsWere(int t,const std::set<uint32_t>& g,u64 s,u64 e,const std::string& what){ for(auto r:R[t]){ if(r->a1<s&&r->r0>e&&!g.count(r->i)) violate("initial:row-missing","%s lacks row %u, which was there all the time",what.c_str(),r->i); if((r->a0>e||r->r1<s)&&g.count(r->i)) violate("initial:row-ghost","%s has row %u, which did not exist",what.c_str(),r->i); } if(pend.empty()) for(auto i:g){ bool f=false; for(auto r:R[t]) f|=r->i==i; if(!f) violate("initial:row-ghost","%s has row %u, which was never added",what.c_str(),i); } }
  void event(Sub* b,rbusEvent_t const* e){ Api* a=A(); if(b->wild&&e->type==RBUS_EVENT_VALUE_CHANGED) return; if(!e->name||b->n!=e->name) violate("initial:wrong-name","the handler of %s got an event of %s",b->n.c_str(),e->name?e->name:"?");
    if(e->type==RBUS_EVENT_INITIAL_VALUE){ if(++b->nIni>1) violate("initial:twice","%s delivered its initial value twice",b->n.c_str()); rbusValue_t nv=a->rbusObject_GetValue(e->data,"numberOfEntries"); if(!nv||a->rbusValue_GetType(nv)!=RBUS_INT32) violate("initial:count","the initial value of %s has no number of entries",b->n.c_str()); int n=a->rbusValue_GetInt32(nv),k=0; u64 now=clk++;
      for(rbusProperty_t p=a->rbusObject_GetProperties(e->data);p;p=a->rbusProperty_GetNext(p)){ std::string nm=a->rbusProperty_GetName(p); if(nm=="numberOfEntries") continue; k++; std::string v=valStr(a->rbusProperty_GetValue(p)); uint32_t i=0; char tail[16]="";
        if(!b->wild){ int c=0; if(sscanf(nm.c_str(),"path%u%n",&i,&c)!=1||nm.size()!=(size_t)c||v!=b->n+strf("%u.",i)) violate("initial:data","the initial value of %s has %s = '%.60s'",b->n.c_str(),nm.c_str(),v.c_str()); }
        else { if(nm.compare(0,T(b->t).size(),T(b->t))||sscanf(nm.c_str()+T(b->t).size(),"%u%15s",&i,tail)!=2||std::string(tail)!=".x") violate("initial:data","the initial value of %s has %s",b->n.c_str(),nm.c_str()); u64 id; if(!checkPayload(v,&id)||toks[id].n!=nm) violate("initial:data","the initial value of %s says %s is '%.60s'",b->n.c_str(),nm.c_str(),v.c_str()); if(toks[id].c<b->s) violate("initial:stale","the initial value of %s has a value from before the subscription",b->n.c_str()); }
        if(!b->shown.insert(i).second) violate("initial:row-twice","the initial value of %s has row %u twice",b->n.c_str(),i); }
      if(k!=n) violate("initial:count","the initial value of %s says %d entries and has %d",b->n.c_str(),n,k); rowsWere(b->t,b->shown,b->s,now,"the initial value of "+b->n); nini++; return; }
    if(b->wild) return; bool mk=e->type==RBUS_EVENT_OBJECT_CREATED; if(!mk&&e->type!=RBUS_EVENT_OBJECT_DELETED) violate("initial:wrong-type","%s got an event of type %d",b->n.c_str(),e->type); rbusValue_t v=a->rbusObject_GetValue(e->data,"rowName"); std::string rn=v?valStr(v):"?"; uint32_t i=0; if(rn.compare(0,b->n.size(),b->n)||sscanf(rn.c_str()+b->n.size(),"%u",&i)!=1) violate("initial:data","an event of %s names row %s",b->n.c_str(),rn.c_str()); (mk?b->made:b->gone).insert(i); }
  void sub(Sub* b){ b->shown.clear(); b->made.clear(); b->gone.clear(); b->nIni=0; b->ini=choose(ST_WORK,4)!=0; b->o.pubOnSub=b->ini; b->fn=new EvFn([this,b](rbusEvent_t const* e,rbusEventSubscription_t*){ event(b,e); }); b->s=clk++; Rc r=doSubEx(b->c,b->n,b->fn,b->o); if(r.rc) violate(strf("initial:subscribe:%s",en(r.rc)),"subscribing to %s failed with %s",b->n.c_str(),en(r.rc)); b->e=clk++; b->held=true; if(b->nIni!=(b->ini?1:0)) violate("initial:delivered","subscribing to %s delivered %llu initial values",b->n.c_str(),(unsigned long long)b->nIni); }
  void unsub(Sub* b){ Rc r=doUnsubEx(b->c,b->n,b->fn,b->o); if(r.rc) violate(strf("initial:unsubscribe:%s",en(r.rc)),"unsubscribing %s failed with %s",b->n.c_str(),en(r.rc)); b->held=false; }
  // (an event published between the provider's answer and the return of the subscribe call may be dropped)
  void whole(Sub* b){ if(!b->held||b->wild||!b->ini) return; std::set<uint32_t> have; for(auto i:b->shown) if(!b->gone.count(i)) have.insert(i); for(auto i:b->made) if(!b->gone.count(i)) have.insert(i);
    for(auto r:R[b->t]){ bool live=r->r0==INF; if(live&&r->a0>b->e&&!have.count(r->i)) violate("initial:lost-row","the initial value of %s and the events since know nothing of row %u",b->n.c_str(),r->i); if(!live&&r->r1!=INF&&r->r0>b->e&&have.count(r->i)) violate("initial:ghost-row","the initial value of %s and the events since still have row %u, which was removed",b->n.c_str(),r->i); } }
  void run(){ startRouter(); nt=1+choose(ST_CFG,2); R.resize(nt); P=proc("prov"); startAndOpen(P); int nc=1+choose(ST_CFG,3);
    P->onGet=[this](const std::string& n,rbusProperty_t p,rbusGetHandlerOptions_t*)->rbusError_t{ u64 t=nextTok++; toks[t]={n,clk++}; if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,2*MS)); setVal(p,payload(t,choose(ST_WORK,30))); return RBUS_ERROR_SUCCESS; };
    auto ctr=std::make_shared<std::map<std::string,u32>>(); P->onAddRow=[ctr](const std::string& t,const char*,uint32_t* n){ *n=++(*ctr)[t]; if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,2*MS)); return RBUS_ERROR_SUCCESS; }; P->onRemoveRow=[](const std::string&){ return RBUS_ERROR_SUCCESS; };
    call(P,"reg",60*SEC,[&]{ std::vector<El> e; for(int t=0;t<nt;t++){ e.push_back({T(t)+"{i}.",RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL}); e.push_back({T(t)+"{i}.x",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}); } rbusError_t rc=reg(P,e); if(rc) violate("setup:reg","registering failed: %s",en(rc)); for(int t=0;t<nt;t++) for(int k=choose(ST_WORK,4);k>0;k--) add(P,t); });
    for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); }
    std::vector<Sub*> S; for(auto c:C) for(int t=0;t<nt;t++) for(int w=0;w<2;w++){ Sub* b=new Sub; b->c=c; b->t=t; b->wild=w; b->n=T(t)+(w?"*.x":""); S.push_back(b); }
    int rounds=1+choose(ST_CFG,4); bool self=choose(ST_CFG,2); for(int r=0;r<rounds;r++){ std::vector<Fiber*> fs; 
      for(int k=0;k<2;k++){ Proc* by= k==0&&self?P:C[choose(ST_CFG,nc)]; int n=choose(ST_WORK,7); fs.push_back(bg(by,"rows",[this,by,n]{ for(int j=0;j<n;j++){ int t=choose(ST_WORK,nt); if(choose(ST_WORK,3)) add(by,t); else del(by,t); simSleep(chooseRange(ST_WORK,0,8*MS)); } })); }
      for(auto c:C) fs.push_back(bg(c,"subs",[this,c,&S]{ for(auto b:S) if(b->c==c&&choose(ST_WORK,3)){ if(b->held) unsub(b); else { sub(b); if(choose(ST_WORK,4)==1){ unsub(b); sub(b); } } simSleep(chooseRange(ST_WORK,0,10*MS)); } }));
      joinAll(fs,"subscriptions and rows",600*SEC); simSleep(2*SEC); for(auto b:S) whole(b); }
    g_sh->nontrivial=nini>0&&nrow>0; }
};
SCENARIO_W(C09,initial,2){ swarm(); T9i t; t.run(); }
