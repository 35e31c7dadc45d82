// C12 asynchronous subscriptions of one process that differ only in handle, filter or interval are separate subscriptions.
#include "world.h"
struct T12k; static T12k* s_k;
extern "C" void akResp(rbusHandle_t h,rbusEventSubscription_t* s,rbusError_t e);
struct T12k {
  struct Key; struct Att { Key* k; int cbs=0; bool cancelled=false; i64 t0=0; };
  struct Key { Proc* q; std::string n; int iv=0,op=-1; rbusFilter_t f=nullptr; int st=0; Att* a=nullptr; EvFn* fn=nullptr; u64 got=0; i64 end=0; int lastF=-1,lastV=-1; bool is(int v){ return op==0?v>5:v<=5; } };   // st 0 none 1 pending 2 held
  Proc *P=nullptr,*C=nullptr; std::vector<Proc*> H; std::map<Proc*,std::vector<Key*>> K; std::map<void*,Att*> byFn; std::vector<Att*> atts; std::map<std::string,int> val; std::set<std::string> there; i64 lastReg=0; u64 nok=0,ncan=0; bool stop=false;
  std::string show(Key* k){ return k->q->comp+" "+k->n+(k->iv?strf(" interval %d",k->iv):k->op==0?" filter >5":k->op==1?" filter <=5":""); }
  void event(Key* k,EvFn* fn,rbusEvent_t const* e,rbusEventSubscription_t* s){ trace("event %s type %d",show(k).c_str(),e->type); if(s->handle!=k->q->h) violate("asub:wrong-handle","an event of %s came to another handle",show(k).c_str()); if(!e->name||k->n!=e->name) violate("asub:wrong-event","%s got an event of %s",show(k).c_str(),e->name?e->name:"?"); if(k->st==0&&k->end&&g_now>k->end&&k->fn==fn) violate("asub:after-unsubscribe","%s got an event after it had been unsubscribed",show(k).c_str()); if(k->fn!=fn&&g_now>k->end) violate("asub:after-unsubscribe","an earlier subscription of %s got an event",show(k).c_str());
    if(k->iv&&e->type==RBUS_EVENT_VALUE_CHANGED) return;      // changes go to every subscriber of the element
    rbusEventType_t want= k->n.back()=='!'?RBUS_EVENT_GENERAL:k->iv?RBUS_EVENT_INTERVAL:RBUS_EVENT_VALUE_CHANGED; if(e->type!=want) violate("asub:wrong-type","%s got an event of type %d",show(k).c_str(),e->type); if(k->n.back()=='!'){ k->got++; return; } Api* a=A(); int v=0; std::string vs=canon(a->rbusObject_GetValue(e->data,k->iv?k->n.c_str():"value")); if(!k->iv&&sscanf(vs.c_str(),"i32:%d",&v)!=1) violate("asub:data","an event of %s carries '%.40s'",show(k).c_str(),vs.c_str()); k->got++;
    if(!k->iv){ rbusValue_t fv=a->rbusObject_GetValue(e->data,"filter"); if(k->op<0){ if(fv) violate("asub:filter","%s, which has no filter, got an event with one",show(k).c_str()); } else if(!fv) violate("asub:filter","%s got an event without the filter's result",show(k).c_str()); else { int b=a->rbusValue_GetBoolean(fv); if(b!=(int)k->is(v)) violate("asub:filter","the event of %s says %d for value %d",show(k).c_str(),b,v); k->lastF=b; } k->lastV=v; } }
  void sub(Key* k){ Att* a=new Att; atts.push_back(a); a->k=k; a->t0=g_now; k->a=a; k->fn=new EvFn(); EvFn* fn=k->fn; *fn=[this,k,fn](rbusEvent_t const* e,rbusEventSubscription_t* s){ event(k,fn,e,s); }; byFn[fn]=a; k->st=1; k->lastF=k->lastV=-1; rbusEventSubscription_t q; memset(&q,0,sizeof q); q.eventName=k->n.c_str(); q.handler=(void*)evTramp; q.userData=fn; q.filter=k->f; q.interval=k->iv; rbusError_t rc; { OpGuard g("rbusEvent_SubscribeExAsync",3*SEC); rc=k->q->a()->rbusEvent_SubscribeExAsync(k->q->h,&q,1,akResp,60); logev("subscribeAsync %s -> %s",show(k).c_str(),::en(rc)); } if(rc) violate(strf("asub:refused:%s",::en(rc)),"rbusEvent_SubscribeExAsync(%s) returned %s",show(k).c_str(),::en(rc)); }
  void resp(rbusHandle_t h,rbusEventSubscription_t* s,rbusError_t e){ auto it=byFn.find(s->userData); if(it==byFn.end()) violate("asub:unknown","a response callback came with unknown user data"); Att* a=it->second; Key* k=a->k; logev("response %s -> %s",show(k).c_str(),::en(e)); if(++a->cbs>1) violate("asub:duplicate","%s was answered %d times",show(k).c_str(),a->cbs); if(a->cancelled) violate("asub:after-cancel","%s was answered after it had been unsubscribed",show(k).c_str()); if(h!=k->q->h||s->handle!=h||k->n!=s->eventName||(int)s->interval!=k->iv) violate("asub:wrong-response","the response of %s says %s interval %u",show(k).c_str(),s->eventName,s->interval); if(e==RBUS_ERROR_ELEMENT_DOES_NOT_EXIST&&(!there.count(k->n)||lastReg+SEC>g_now)){ k->st=0; k->a=nullptr; k->end=g_now; return; } if(e) violate(strf("asub:failed:%s",::en(e)),"%s failed with %s",show(k).c_str(),::en(e)); nok++; if(k->a==a) k->st=2; i64 lim=std::max((lastReg-a->t0)*2,(i64)0)+6*SEC; if(there.count(k->n)&&g_now-a->t0>lim) violate("asub:late","%s was answered after %.1f s",show(k).c_str(),(g_now-a->t0)/1e9); if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); }
  void unsub(Key* k){ Att* a=k->a; bool p=!a->cbs; (void)p; SubOpt o; o.filter=k->f; o.interval=k->iv; Rc r=doUnsubEx(k->q,k->n,k->fn,o); if(r.rc) violate(strf("asub:unsub-failed:%s",::en(r.rc)),"unsubscribing %s failed with %s",show(k).c_str(),::en(r.rc)); if(!a->cbs){ a->cancelled=true; ncan++; } k->st=0; k->end=g_now; k->a=nullptr; }
  void dup(Key* k){ if(k->st!=1&&k->st!=2) return; rbusEventSubscription_t q; memset(&q,0,sizeof q); q.eventName=k->n.c_str(); q.handler=(void*)evTramp; q.userData=k->fn; q.filter=k->f; q.interval=k->iv; rbusError_t rc; { OpGuard g("rbusEvent_SubscribeExAsync",3*SEC); rc=k->q->a()->rbusEvent_SubscribeExAsync(k->q->h,&q,1,akResp,60); } logev("subscribeAsync(dup) %s -> %s",show(k).c_str(),::en(rc)); if(rc!=RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST) violate("asub:duplicate-accepted","subscribing %s twice returned %s",show(k).c_str(),::en(rc)); }
  void exist(Key* k){ bool ex=k->q->a()->rbusEvent_IsSubscriptionExist(k->q->h,k->n.c_str(),nullptr); (void)ex; }
  void run(){ s_k=this; startRouter(); P=proc("prov"); C=proc("cons"); startAndOpen(P); startAndOpen(C); int nh=1+choose(ST_CFG,3),np=1+choose(ST_CFG,2); H.push_back(C); for(int i=1;i<nh;i++){ Proc* q=new Proc; q->n=C->n; q->comp=strf("cons%d",i); call(C,"open",30*SEC,[&]{ rbusError_t rc=openBus(q); if(rc) violate("setup:open","opening a second handle failed: %s",::en(rc)); }); H.push_back(q); }
    P->onGet=[this](const std::string& n,rbusProperty_t p,rbusGetHandlerOptions_t*)->rbusError_t{ rbusValue_t x=mkVal(strf("i32:%d",val[n])); A()->rbusProperty_SetValue(p,x); A()->rbusValue_Release(x); return RBUS_ERROR_SUCCESS; };
    std::vector<El> els; for(int i=0;i<np;i++) els.push_back({strf("Device.P.v%d",i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}); els.push_back({"Device.P.e!",RBUS_ELEMENT_TYPE_EVENT,0}); for(auto& e:els) val[e.name]=choose(ST_WORK,11);
    for(auto q:H) for(auto& e:els){ if(e.name.back()=='!'){ K[q].push_back(new Key{q,e.name}); continue; } K[q].push_back(new Key{q,e.name}); for(int iv:{1,2}) if(choose(ST_CFG,2)) K[q].push_back(new Key{q,e.name,iv}); for(int op:{0,1}) if(choose(ST_CFG,2)){ Key* k=new Key{q,e.name,0,op}; call(C,"filter",SEC*5,[&]{ rbusValue_t v=mkVal("i32:5"); C->a()->rbusFilter_InitRelation(&k->f,op==0?RBUS_FILTER_OPERATOR_GREATER_THAN:RBUS_FILTER_OPERATOR_LESS_THAN_OR_EQUAL,v); }); K[q].push_back(k); } }
    int ops=10+choose(ST_CFG,30); bool lateReg=choose(ST_CFG,2); std::vector<Fiber*> fs,pf;
    pf.push_back(bg(P,"own",[&]{ for(auto& e:els){ if(lateReg) simSleep(chooseRange(ST_WORK,0,8*SEC)); rbusError_t rc=reg(P,{e}); if(rc) violate("setup:reg","registering failed: %s",::en(rc)); there.insert(e.name); lastReg=g_now; } while(!stop){ for(auto& e:els) if(choose(ST_WORK,2)){ if(e.name.back()=='!') doPublish(P,e.name,"x"); else val[e.name]=choose(ST_WORK,11); } simSleep(chooseRange(ST_WORK,0,6*SEC)); } }));
    for(auto q:H) fs.push_back(bg(C,"drv",[&,q]{ for(int i=0;i<ops;i++){ Key* k=K[q][choose(ST_WORK,K[q].size())]; u32 w=choose(ST_WORK,8); if(k->st==0) sub(k); else if(w<2) unsub(k); else if(w==2) dup(k); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,choose(ST_WORK,2)?50*MS:4*SEC)); } }));
    joinAll(fs,"subscribers",600*SEC); waitFor("asub:no-response",[&]{ for(auto a:atts) if(!a->cbs&&!a->cancelled) return false; return true; },80*SEC,"an asynchronous subscribe was never answered"); stop=true; joinAll(pf,"provider",60*SEC);
    // quiescent: exactly the subscriptions held get what they asked for
    for(auto& v:val) v.second=3; simSleep(8*SEC); for(auto q:H) for(auto k:K[q]) k->got=0; for(auto& v:val) v.second=8; call(P,"pub",20*SEC,[&]{ for(int i=0;i<3;i++) doPublish(P,"Device.P.e!","x"); }); simSleep(8*SEC);
    for(auto q:H) for(auto k:K[q]){ if(k->st==0){ if(k->got) violate("asub:after-unsubscribe","%s, not subscribed, got %llu events",show(k).c_str(),(unsigned long long)k->got); continue; } u64 lo=1,hi=1; if(k->n.back()=='!') lo=hi=3; else if(k->iv){ lo=8/k->iv-2; hi=8/k->iv+2; } if(k->got<lo||k->got>hi) violate("asub:events","%s got %llu events instead of %llu to %llu",show(k).c_str(),(unsigned long long)k->got,(unsigned long long)lo,(unsigned long long)hi); if(!k->iv&&k->n.back()!='!'&&k->lastV!=8) violate("asub:events","%s was last told %d instead of 8",show(k).c_str(),k->lastV); }
    for(auto q:H) for(auto k:K[q]) if(k->st&&choose(ST_WORK,2)) call(C,"unsub",30*SEC,[&]{ unsub(k); });
    for(size_t i=H.size();i--;) call(C,"close",60*SEC,[&]{ for(auto k:K[H[i]]) k->st=3; rbusError_t rc=closeBus(H[i]); if(rc) violate("asub:close","rbus_close returned %s",::en(rc)); });
    g_sh->nontrivial=nok>1; }
};
extern "C" void akResp(rbusHandle_t h,rbusEventSubscription_t* s,rbusError_t e){ s_k->resp(h,s,e); }
SCENARIO_W(C12,keys,2){ swarm(); T12k t; t.run(); }
