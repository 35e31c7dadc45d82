// C22: any mix of bus calls from several threads on several handles, with handlers that call the bus themselves.
#include "evsim.h"
struct T22; static T22* s_m;
struct T22 {
  EvSim E; Proc* B=nullptr; std::vector<Proc*> base, H; std::vector<int> procOf; int ops=12; int hot=0; bool done=false, quiet=false, closing=false; u64 next=1; int nestDepth=0; u64 nNested=0,nOps=0;
  // ---- registers: what each property handler stored or returned, in order
  struct Wr { i64 t; std::string v; }; std::map<std::string,std::vector<Wr>> hist; 
  std::vector<Wr>& reg_(const std::string& n){ auto& h=hist[n]; if(h.empty()) h.push_back({0,"s:init"}); return h; }
  void readOk(const std::string& n,const std::string& v,i64 t0,i64 t1){ auto& h=reg_(n); for(size_t i=h.size();i--;) if(h[i].v==v){ if(h[i].t>t1||(i+1<h.size()&&h[i+1].t<t0)) violate("mix:stale","get %s returned %s, which was overwritten %.3fs before the call",n.c_str(),v.c_str(),(t0-h[i+1].t)/1e9); return; } violate("mix:wrong-answer","get %s returned %.80s, which was never set",n.c_str(),v.c_str()); }
  void wrote(const std::string& n,const std::string& v,i64 t0,i64 t1){ auto& h=reg_(n); for(size_t i=h.size();i--;) if(h[i].v==v&&h[i].t>=t0&&h[i].t<=t1) return; violate("mix:lost-set","set %s to %s succeeded but the handler did not run during the call",n.c_str(),v.c_str()); }
  // ---- contended subscriptions: linearizable as a flag
  struct Op { u64 s,e; bool sub,ok; }; std::map<std::pair<Proc*,std::string>,std::vector<Op>> con; std::map<std::pair<Proc*,std::string>,int> conGot; u64 clk=1;
  static bool lin(std::vector<Op>& v){ size_t n=v.size(); std::vector<char> used(n,0); std::set<std::pair<std::vector<char>,bool>> seen; std::function<bool(bool,size_t)> go=[&](bool st,size_t left)->bool{ if(!left) return true; if(!seen.insert({used,st}).second) return false; u64 m=~0ULL; for(size_t i=0;i<n;i++) if(!used[i]) m=std::min(m,v[i].e); for(size_t i=0;i<n;i++) if(!used[i]&&v[i].s<=m){ bool want= v[i].sub? !st: st; if(v[i].ok!=want) continue; used[i]=1; if(go(v[i].ok?v[i].sub:st,left-1)) return true; used[i]=0; } return false; }; return go(false,n); }
  static std::string show(const std::vector<Op>& v){ std::string r; for(auto& o:v) r+=strf(" %s%s[%llu,%llu]",o.sub?"sub":"unsub",o.ok?"+":"-",(unsigned long long)o.s,(unsigned long long)o.e); return r; }
  Rc rawOp(Proc* q,const std::string& ev,bool sub,EvFn* fn){ Rc r; Api* a=q->a(); bool ex=choose(ST_WORK,2); rbusEventSubscription_t x; memset(&x,0,sizeof x); x.eventName=ev.c_str(); x.handler=(void*)evTramp; x.userData=fn; OpGuard g(sub?"rbusEvent_SubscribeRawData":"rbusEvent_UnsubscribeRawData",DEF_BOUND); r.rc= sub? (ex?a->rbusEvent_SubscribeExRawData(q->h,&x,1,0):a->rbusEvent_SubscribeRawData(q->h,ev.c_str(),evTramp,fn,0)) : (ex?a->rbusEvent_UnsubscribeExRawData(q->h,&x,1):a->rbusEvent_UnsubscribeRawData(q->h,ev.c_str())); r.dur=g.elapsed(); logev("%s%s %s %s -> %s",sub?"subscribeRaw":"unsubscribeRaw",ex?"Ex":"",q->comp.c_str(),ev.c_str(),::en(r.rc)); return r; }
  void pubRaw(Proc* o){ std::string n=dn(o,"raw!"); rbusEventRawData_t e; memset(&e,0,sizeof e); e.name=n.c_str(); e.rawData="raw"; e.rawDataLen=3; OpGuard g("rbusEvent_PublishRawData",DEF_BOUND); rbusError_t rc=o->a()->rbusEvent_PublishRawData(o->h,&e); logev("publishRaw %s -> %s",n.c_str(),::en(rc)); if(rc&&rc!=RBUS_ERROR_NOSUBSCRIBERS) ck("publishRaw",n,rc); }
  bool conOp(Proc* q,const std::string& ev,bool sub){ auto k=std::make_pair(q,ev); Op o{clk++,0,sub,false}; Rc r; EvFn* fn=sub?new EvFn([this,k](rbusEvent_t const*,rbusEventSubscription_t*){ conGot[k]++; if(!quiet) nested(k.first,false); }):nullptr; if(ev.find("raw")!=std::string::npos) r=rawOp(q,ev,sub,fn); else if(sub) r=doSub(q,ev,fn,0,DEF_BOUND); else r=doUnsub(q,ev); o.e=clk++; o.ok=r.rc==0; if(r.rc&&r.rc!=(sub?RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST:RBUS_ERROR_INVALID_OPERATION)) violate(strf("mix:%s:%s",sub?"subscribe":"unsubscribe",::en(r.rc)),"%s %s on %s failed with %s",sub?"subscribe":"unsubscribe",ev.c_str(),q->comp.c_str(),::en(r.rc)); con[k].push_back(o); return o.ok; }
  // ---- rows of the stable tables
  struct Row { u64 a0=0,a1=~0ULL,r0=~0ULL,r1=~0ULL; }; std::map<std::string,std::map<u32,Row>> rows; u32 nextRow=1,nextLocal=1000;
  std::string dn(Proc* q,const char* s){ return "Device."+q->comp+"."+s; }
  bool leaf(Proc* q){ return q==B; }
  void ck(const char* what,const std::string& n,rbusError_t rc){ if(rc) violate(strf("mix:%s:%s",what,::en(rc)),"%s %s failed with %s although every process is up and prompt",what,n.c_str(),::en(rc)); }
  void getSet(Proc* q,Proc* o,bool set){ std::string n=dn(o,choose(ST_WORK,2)?"s1":"s0"); i64 t0=g_now; if(set){ std::string v=strf("s:w%llu",(unsigned long long)next++); Rc r=doSetC(q,n,v); ck("set",n,r.rc); wrote(n,v,t0,g_now); } else { GetC r=doGetC(q,n); ck("get",n,r.rc); readOk(n,r.val,t0,g_now); } }
  void meth(Proc* q,Proc* o){ std::string a=strf("a%llu",(unsigned long long)next++),n=dn(o,"m()"); MethRes r=doMethod(q,n,a); ck("method",n,r.rc); if(r.out!="s:"+a&&r.out!=a) violate("mix:wrong-answer","method %s(%s) returned %s",n.c_str(),a.c_str(),r.out.c_str()); }
  bool room(){ for(auto& o:E.owed) if(E.backlog(o.first)>=E.window) return false; return true; }
  void pubStable(Proc* o,bool wait){ std::string n=dn(o,choose(ST_WORK,2)?"e1!":"e0!"); if(!wait&&!room()) return; rbusError_t rc=E.publish(o,n,5+choose(ST_WORK,40)); if(rc&&rc!=RBUS_ERROR_NOSUBSCRIBERS) ck("publish",n,rc); }
  void localRow(Proc* o){ std::string t=dn(o,"T."); auto& R=rows[t]; u32 i=nextLocal++; R[i].a0=clk++; rbusError_t rc; { OpGuard g("rbusTable_registerRow",DEF_BOUND); rc=o->a()->rbusTable_registerRow(o->h,t.c_str(),i,nullptr); logev("registerRow %s%u -> %s",t.c_str(),i,::en(rc)); } ck("registerRow",t,rc); rows[t][i].a1=clk++; if(choose(ST_WORK,3)) delLocal(o,t,i); }
  void delLocal(Proc* o,const std::string& t,u32 i){ rows[t][i].r0=clk++; std::string n=t+strf("%u.",i); rbusError_t rc; { OpGuard g("rbusTable_unregisterRow",DEF_BOUND); rc=o->a()->rbusTable_unregisterRow(o->h,n.c_str()); logev("unregisterRow %s -> %s",n.c_str(),::en(rc)); } ck("unregisterRow",n,rc); rows[t][i].r1=clk++; }
  // bus calls made inside a handler or callback of handle q; synchronous ones only towards the leaf, whose handlers make none
  bool stable(Proc* q){ for(auto h:H) if(h==q) return true; return false; }
  void nested(Proc* q,bool inTable){ if(closing||!stable(q)) return; if(leaf(q)){ if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,3*MS)); return; } u32 w=choose(ST_WORK,14); if(w&&w<8) nNested++; switch(w){ case 1: getSet(q,B,false); break; case 2: getSet(q,B,true); break; case 3: meth(q,B); break; case 4: pubStable(q,false); break; case 5: if(!inTable) localRow(q); break; case 6: conOp(q,dn(B,"shared!"),choose(ST_WORK,2)); break; case 7: { AddRes r=doAddRow(q,dn(B,"T."),nullptr); ck("addRow",dn(B,"T."),r.rc); rows[dn(B,"T.")][r.inst].a1=clk++; } break; case 8: simSleep(chooseRange(ST_WORK,0,5*MS)); break; default: break; } }
  Proc* owner(const std::string& n){ for(auto q:H) if(n.compare(0,dn(q,"").size(),dn(q,""))==0) return q; return nullptr; }
  void hooks(Proc* b){
    b->onGet=[this](const std::string& n,rbusProperty_t p,rbusGetHandlerOptions_t*)->rbusError_t{ Proc* q=owner(n); if(q&&!quiet) nested(q,false); std::string v=reg_(n).back().v; rbusValue_t x=mkVal(v); A()->rbusProperty_SetValue(p,x); A()->rbusValue_Release(x); return RBUS_ERROR_SUCCESS; };
    b->onSet=[this](const std::string& n,rbusProperty_t p,rbusSetHandlerOptions_t*)->rbusError_t{ Proc* q=owner(n); if(q&&!quiet&&choose(ST_WORK,2)) nested(q,false); reg_(n).push_back({g_now,canon(A()->rbusProperty_GetValue(p))}); if(q&&!quiet&&choose(ST_WORK,2)) nested(q,false); return RBUS_ERROR_SUCCESS; };
    b->onMethod=[this,b](const std::string& n,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t ah)->rbusError_t{ Proc* q=owner(n); std::string a=canon(A()->rbusObject_GetValue(in,"arg")); if(q&&!quiet) nested(q,false); if(choose(ST_WORK,4)==1){ Api* api=A(); simThread(b->n,"responder",[ah,api,a]{ simSleep(chooseRange(ST_WORK,0,20*MS)); rbusObject_t o=mkObj({{"out",a}}); api->rbusMethod_SendAsyncResponse(ah,RBUS_ERROR_SUCCESS,o); api->rbusObject_Release(o); }); return RBUS_ERROR_ASYNC_RESPONSE; } rbusValue_t v=mkVal(a); A()->rbusObject_SetValue(out,"out",v); A()->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    b->onSub=[this](rbusEventSubAction_t,const std::string& n,rbusFilter_t,int32_t,bool*)->rbusError_t{ Proc* q=owner(n); if(q&&!quiet&&choose(ST_WORK,3)==1) nested(q,false); return RBUS_ERROR_SUCCESS; };
    b->onAddRow=[this](const std::string& n,const char*,uint32_t* i)->rbusError_t{ Proc* q=owner(n); *i=nextRow++; rows[n][*i].a0=clk++; if(q&&!quiet) nested(q,true); return RBUS_ERROR_SUCCESS; };
    b->onRemoveRow=[this](const std::string& n)->rbusError_t{ Proc* q=owner(n); if(q&&!quiet) nested(q,true); return RBUS_ERROR_SUCCESS; }; }
  void regStable(Proc* q){ rbusError_t rc=reg(q,{{dn(q,"s0"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET|CB_SUB},{dn(q,"s1"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{dn(q,"m()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{dn(q,"e0!"),RBUS_ELEMENT_TYPE_EVENT,CB_SUB},{dn(q,"e1!"),RBUS_ELEMENT_TYPE_EVENT,0},{dn(q,"shared!"),RBUS_ELEMENT_TYPE_EVENT,choose(ST_WORK,2)?CB_SUB:0},{dn(q,"raw!"),RBUS_ELEMENT_TYPE_EVENT,0},{dn(q,"T.{i}."),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{dn(q,"T.{i}.x"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); if(rc) violate("setup:reg","registering failed: %s",::en(rc)); }
  // ---- worker threads
  struct Th { int k; Proc* home; bool reg=false; std::string p[2]; std::string v[2]; std::set<std::pair<std::string,u32>> mine; std::set<std::pair<Proc*,std::string>> subs; std::set<std::string> ivs; bool listening=false; int life=0; };
  std::vector<Th*> T; std::set<std::pair<Proc*,std::string>> taken;
  struct AC { std::string arg; int n=0; rbusError_t rc; }; std::map<std::string,AC> async_; 
  static void asyncCb(rbusHandle_t,char const* m,rbusError_t rc,rbusObject_t o){ std::string v; if(rc==0){ rbusValue_t x=A()->rbusObject_GetValue(o,"out"); v=canon(x); } auto it=s_m->async_.find(v); if(rc) violate(strf("mix:async:%s",::en(rc)),"asynchronous call of %s failed with %s",m,::en(rc)); if(it==s_m->async_.end()) violate("mix:wrong-answer","the answer of an asynchronous call of %s is %s",m,v.c_str()); if(++it->second.n>1) violate("mix:async-twice","an asynchronous call was answered twice"); }
  struct MsgCtx { std::string topic; int got=0; }; std::map<std::string,MsgCtx*> msgs;
  static void msgFn(rbusHandle_t,rbusMessage_t* m,void* u){ MsgCtx* c=(MsgCtx*)u; if(c->topic!=m->topic) violate("mix:wrong-topic","listener of %s got a message of %s",c->topic.c_str(),m->topic); c->got++; }
  Proc* any(){ return H[choose(ST_WORK,H.size())]; }
  Proc* mineOf(Th* t){ std::vector<Proc*> v; for(auto q:H) if(q->n==t->home->n) v.push_back(q); return v[choose(ST_WORK,v.size())]; }
  void wildcard(Proc* q,Proc* o){ std::string t=dn(o,"T."); u64 s=clk++; GetExtRes r=doGetExt(q,{t+"*.x"}); u64 e=clk++; std::set<u32> got; if(r.rc&&r.rc!=RBUS_ERROR_ELEMENT_DOES_NOT_EXIST&&r.rc!=RBUS_ERROR_DESTINATION_NOT_FOUND) ck("wildcard get",t,r.rc); for(auto& v:r.vals){ u32 i=0; if(sscanf(v.first.c_str()+t.size(),"%u",&i)!=1) continue; if(!got.insert(i).second) violate("mix:row-twice","wildcard get of %s returned row %u twice",t.c_str(),i); } if(got.empty()) return; for(auto& x:rows[t]){ auto& w=x.second; if(w.a1<s&&w.r0>e&&!got.count(x.first)) violate("mix:row-missing","wildcard get of %s lacks row %u",t.c_str(),x.first); if((w.a0>e||w.r1<s)&&got.count(x.first)) violate("mix:row-ghost","wildcard get of %s has row %u, which does not exist",t.c_str(),x.first); } for(u32 i:got) if(!rows[t].count(i)) violate("mix:row-ghost","wildcard get of %s has row %u, which was never added",t.c_str(),i); }
  void op(Th* t){ Proc* q=mineOf(t); nOps++; if(hot&&choose(ST_WORK,4)){ for(auto h:H) if(h->n==t->home->n){ q=h; break; } conOp(q,dn(H[choose(ST_WORK,2)],hot>1?"raw!":"shared!"),choose(ST_WORK,2)); return; } switch(choose(ST_WORK,20)){
    case 0: case 1: getSet(q,any(),false); break;
    case 2: getSet(q,any(),true); break;
    case 3: meth(q,any()); break;
    case 4: { // own elements come and go
      Proc* h=t->home; std::vector<El> el={{t->p[0],RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{t->p[1],RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}}; if(!t->reg){ rbusError_t rc=reg(h,el); ck("register",t->p[0],rc); t->reg=true; for(int i=0;i<2;i++){ reg_(t->p[i]); t->v[i]=reg_(t->p[i]).back().v; } } else { rbusError_t rc=unreg(h,el); ck("unregister",t->p[0],rc); t->reg=false; } } break;
    case 5: if(t->reg){ int i=choose(ST_WORK,2); GetC r=doGetC(q,t->p[i]); ck("get",t->p[i],r.rc); if(r.val!=t->v[i]) violate("mix:lost-set","%s is %s although its only writer set %s",t->p[i].c_str(),r.val.c_str(),t->v[i].c_str()); } else { GetC r=doGetC(q,t->p[0]); if(r.rc==0) violate("mix:unregistered","%s answered although it is not registered",t->p[0].c_str()); } break;
    case 6: if(t->reg){ std::vector<std::pair<std::string,std::string>> kv; std::string a=strf("x%llu",(unsigned long long)next++),b=strf("y%llu",(unsigned long long)next++); Rc r=doSetMulti(q,{{t->p[0],a},{t->p[1],b}}); ck("setMulti",t->p[0],r.rc); t->v[0]="s:"+a; t->v[1]="s:"+b; GetExtRes g=doGetExt(q,{t->p[0],t->p[1]}); ck("getExt",t->p[0],g.rc); for(auto& x:g.vals){ int i=x.first==t->p[1]; if("s:"+x.second!=t->v[i]&&x.second!=t->v[i]) violate("mix:lost-set","%s is %s after setMulti to %s",x.first.c_str(),x.second.c_str(),t->v[i].c_str()); } if(g.vals.size()!=2) violate("mix:getExt","getExt of two own properties returned %zu",g.vals.size()); } break;
    case 7: case 8: { // subscriptions this thread owns
      Proc* o=any(); std::string n=dn(o,choose(ST_WORK,2)?"e1!":"e0!"); auto k=std::make_pair(q,n); if(t->subs.count(k)){ Rc r=E.unsub(q,n); ck("unsubscribe",n,r.rc); t->subs.erase(k); taken.erase(k); } else if(!taken.count(k)){ taken.insert(k); t->subs.insert(k); Rc r=E.sub(q,n); ck("subscribe",n,r.rc); } } break;
    case 9: case 10: if(choose(ST_WORK,4)==1){ pubRaw(t->home); break; } { std::vector<Proc*> v; for(auto x:H) if(x->n==t->home->n) v.push_back(x); pubStable(v[choose(ST_WORK,v.size())],true); } break;
    case 11: case 12: { Proc* o=any(); u32 w=choose(ST_WORK,5); conOp(q,dn(o,w<2?"shared!":w<3?"s0":"raw!"),choose(ST_WORK,2)); } break;
    case 13: { std::string n=dn(any(),"T."); if(t->mine.size()&&choose(ST_WORK,2)){ auto x=*t->mine.begin(); t->mine.erase(x); rows[x.first][x.second].r0=clk++; Rc r=doRemoveRow(q,x.first+strf("%u.",x.second)); ck("removeRow",x.first,r.rc); rows[x.first][x.second].r1=clk++; } else { AddRes r=doAddRow(q,n,nullptr); ck("addRow",n,r.rc); rows[n][r.inst].a1=clk++; t->mine.insert({n,r.inst}); std::string x=n+strf("%u.x",r.inst); if(choose(ST_WORK,2)){ GetC g=doGetC(q,x); ck("get",x,g.rc); } } } break;
    case 14: localRow(t->home); break;
    case 15: wildcard(q,any()); break;
    case 16: { std::string n=dn(any(),"m()"); std::string a=strf("s:c%llu",(unsigned long long)next++); async_[a]; Api* api=q->a(); rbusObject_t in=mkObj({{"arg",a}}); rbusError_t rc; { OpGuard g("rbusMethod_InvokeAsync",5*SEC); rc=api->rbusMethod_InvokeAsync(q->h,n.c_str(),in,asyncCb,0); logev("invokeAsync %s %s -> %s",n.c_str(),a.c_str(),::en(rc)); } api->rbusObject_Release(in); ck("invokeAsync",n,rc); } break;
    case 17: { // another handle of the process opens and closes
      if(choose(ST_WORK,2)) break; Proc* x=new Proc; x->n=q->n; x->comp=strf("X%d_%d",t->k,t->life++); rbusError_t rc=openBus(x); ck("open",x->comp,rc); std::string n=dn(x,"v"); x->q.clear(); rc=reg(x,{{n,RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}}); ck("register",n,rc); reg_(n); GetC g=doGetC(q,n); ck("get",n,g.rc); bool sub=choose(ST_WORK,2); if(sub){ Rc r=E.sub(x,dn(B,"e0!")); ck("subscribe",dn(B,"e0!"),r.rc); } getSet(x,any(),choose(ST_WORK,2)); if(sub){ E.iv[{x,dn(B,"e0!")}].back().u0=E.clk++; E.owed.erase(x); } rc=closeBus(x); ck("close",x->comp,rc); E.gone(x); E.ghosts.erase(x); } break;
    case 18: { // raw messages
      std::string tp=strf("mix.k%d",t->k); Api* a=q->a(); if(!t->listening){ MsgCtx*& c=msgs[tp]; if(!c) c=new MsgCtx{tp}; OpGuard g("rbusMessage_AddListener",DEF_BOUND); rbusError_t rc=a->rbusMessage_AddListener(t->home->h,tp.c_str(),msgFn,c,t->k+1); logev("addListener %s -> %s",tp.c_str(),::en(rc)); ck("addListener",tp,rc); t->listening=true; } else if(choose(ST_WORK,3)){ rbusMessage_t m; m.topic=tp.c_str(); m.data=(uint8_t const*)"hi"; m.length=2; int g0=msgs[tp]->got; rbusError_t rc; { OpGuard g("rbusMessage_Send",DEF_BOUND); rc=a->rbusMessage_Send(q->h,&m,RBUS_MESSAGE_CONFIRM_RECEIPT); logev("send %s -> %s",tp.c_str(),::en(rc)); } ck("message",tp,rc); waitFor("mix:message",[&]{ return msgs[tp]->got!=g0; },10*SEC,"a confirmed message never reached its listener"); if(msgs[tp]->got!=g0+1) violate("mix:message","a confirmed message of %s was delivered %d times",tp.c_str(),msgs[tp]->got-g0); } else { OpGuard g("rbusMessage_RemoveListener",DEF_BOUND); rbusError_t rc=a->rbusMessage_RemoveListener(t->home->h,tp.c_str(),t->k+1); logev("removeListener %s -> %s",tp.c_str(),::en(rc)); ck("removeListener",tp,rc); t->listening=false; } } break;
    default: { std::string n=dn(any(),"s1"); if(t->ivs.count(t->home->comp+n)) break; bool first=true; for(auto x:T) if(x->home==t->home&&x->k<t->k) first=false; if(!first) break; SubOpt o; o.interval=1; EvFn* f=new EvFn([this,t](rbusEvent_t const*,rbusEventSubscription_t*){ if(!quiet) nested(t->home,false); }); Rc r=doSubEx(t->home,n,f,o); ck("interval subscribe",n,r.rc); if(choose(ST_WORK,2)){ simSleep(chooseRange(ST_WORK,0,2*SEC)); r=doUnsubEx(t->home,n,f,o); ck("interval unsubscribe",n,r.rc); } else t->ivs.insert(t->home->comp+n); } break;
    } }
  void run(){ s_m=this; E.window=3; E.inHandler=[this](Proc* q,const std::string&){ if(!quiet) nested(q,false); }; startRouter(); int np=1+choose(ST_CFG,2); ops=6+choose(ST_CFG,16);
    B=proc("B"); startAndOpen(B); H.push_back(B); hooks(B); for(int i=0;i<np;i++){ Proc* b=proc(strf("A%d",i)); startAndOpen(b); hooks(b); base.push_back(b); H.push_back(b); int extra=choose(ST_CFG,2); for(int j=0;j<extra;j++){ Proc* q=new Proc; q->n=b->n; q->comp=strf("A%dx%d",i,j); call(b,"open",30*SEC,[&]{ rbusError_t rc=openBus(q); if(rc) violate("setup:open","opening a second handle failed: %s",::en(rc)); }); H.push_back(q); } }
    for(auto q:H){ Proc* b=B; for(auto x:base) if(x->n==q->n) b=x; call(b,"reg",30*SEC,[&]{ regStable(q); }); }
    int k=0; std::vector<Fiber*> fs; std::vector<std::pair<Proc*,Th*>> plan; for(auto b:base){ int nt=2+choose(ST_CFG,2); std::vector<Proc*> v; for(auto q:H) if(q->n==b->n) v.push_back(q); for(int i=0;i<nt;i++){ Th* t=new Th; t->k=k++; t->home=v[i%v.size()]; plan.push_back({b,t}); } } if(choose(ST_CFG,2)){ Th* t=new Th; t->k=k++; t->home=B; plan.push_back({B,t}); }
    for(auto& x:plan){ Th* t=x.second; t->p[0]=dn(t->home,strf("k%d.p0",t->k).c_str()); t->p[1]=dn(t->home,strf("k%d.p1",t->k).c_str()); T.push_back(t); }
    for(auto& x:plan){ Th* t=x.second; fs.push_back(bg(x.first,strf("w%d",t->k),[this,t]{ for(int i=0;i<ops;i++){ op(t); if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,choose(ST_WORK,4)?10*MS:SEC)); } })); }
    joinAll(fs,"workload",600*SEC); quiet=true; waitFor("mix:async-lost",[&]{ for(auto& x:async_) if(!x.second.n) return false; return true; },60*SEC,"asynchronous calls are never answered"); simSleep(3*SEC);
    // quiescent: everything is as the calls said
    for(auto q:H){ Proc* b=B; for(auto x:base) if(x->n==q->n) b=x; call(b,"check",300*SEC,[&]{ for(auto o:H){ wildcard(q,o); for(const char* s:{"s0","s1"}){ GetC r=doGetC(q,dn(o,s)); ck("get",dn(o,s),r.rc); if(r.val!=reg_(dn(o,s)).back().v) violate("mix:stale","%s is %s at the end instead of %s",dn(o,s).c_str(),r.val.c_str(),reg_(dn(o,s)).back().v.c_str()); } for(const char* s:{"shared!","s0","raw!"}) conOp(q,dn(o,s),true); } }); }
    // a call may be refused while another thread is just subscribing or unsubscribing the same
    for(auto& x:con){ std::vector<Op> v; for(auto& o:x.second){ bool refused=false; if(!o.ok) for(auto& w:x.second) if(w.ok&&w.s<o.e&&o.s<w.e) refused=true; if(!refused) v.push_back(o); } x.second=v; }
    for(auto& x:con) if(!lin(x.second)) violate("mix:subscriptions","the results of concurrent calls for %s on handle %s fit no order:%s",x.first.second.c_str(),x.first.first->comp.c_str(),show(x.second).c_str());
    simSleep(SEC); conGot.clear(); for(auto o:H){ Proc* b=B; for(auto x:base) if(x->n==o->n) b=x; call(b,"pub",60*SEC,[&]{ for(int i=0;i<2;i++){ doPublish(o,dn(o,"shared!"),"x"); pubRaw(o); simSleep(50*MS); } for(auto h:H) if(choose(ST_WORK,2)){ Rc r=E.publish(o,dn(o,"e0!"),10)==0?Rc{RBUS_ERROR_SUCCESS,0}:Rc{RBUS_ERROR_SUCCESS,0}; (void)r; (void)h; } }); } simSleep(2*SEC);
    for(auto q:H) for(auto o:H) if(conGot[{q,dn(o,"shared!")}]!=2) violate("mix:shared-event","handle %s, subscribed to %s, got 2 events %d times",q->comp.c_str(),dn(o,"shared!").c_str(),conGot[{q,dn(o,"shared!")}]); else if(conGot[{q,dn(o,"raw!")}]!=2) violate("mix:raw-event","handle %s, subscribed to %s, got 2 raw events %d times",q->comp.c_str(),dn(o,"raw!").c_str(),conGot[{q,dn(o,"raw!")}]);
    E.final(); closing=true;
    for(auto q:H){ Proc* b=B; for(auto x:base) if(x->n==q->n) b=x; call(b,"close",60*SEC,[&]{ rbusError_t rc=closeBus(q); ck("close",q->comp,rc); }); }
    g_sh->nontrivial=nOps>10; }
};
SCENARIO_W(C22,mix,3){ swarm(); T22 t; t.run(); }
SCENARIO_W(C22,subs,1){ swarm(); T22 t; t.hot=1+choose(ST_CFG,2); t.run(); }
