// Event history model shared by the event scenarios.
#pragma once
#include "world.h"
struct EvSim {
  struct Pub { u64 id; Proc* by; std::string name,data; u64 s,e; i64 t; rbusError_t rc; std::map<Proc*,int> got; };
  struct Iv { u64 s0,s1,u0,u1; EvFn* fn; i64 tAck; bool raw; bool mayLose=false; };
  static constexpr u64 INF=~0ULL;
  u64 clk=1, nextId=1; std::map<u64,Pub> pubs; std::map<std::pair<Proc*,std::string>,std::vector<Iv>> iv; std::map<std::pair<Proc*,Proc*>,u64> maxStart;  // subscriber,publisher
  std::map<Proc*,std::set<u64>> owed; struct Ghost { Proc* by; u64 s; i64 t; }; std::map<Proc*,std::vector<Ghost>> ghosts; size_t window=8; u64 delivered=0; bool ordered=true; bool strictRc=true; i64 handlerMax=0; bool lossy=false; u64 quietFrom=0;  // ghosts: events no longer owed that may still sit in the subscriber's bounded queue
  std::function<void(Proc*,const std::string&)> inHandler; std::set<std::pair<Proc*,std::string>> lax;   // lax: the publisher may rightly believe it subscribed
  bool active(const Iv& v,const Pub& p){ return v.s1!=INF && p.s>v.s1 && p.e<v.u0; }
  void got(Proc* sub,const std::string& evt,const std::string& nm,const std::string& data,int type,int wantType){
    delivered++; unsigned long long id=0; size_t k=data.find("s:"); if(k==std::string::npos||sscanf(data.c_str()+k+2,"%llu:",&id)!=1) violate("event:garbled","%s got an event on %s without readable data: %.100s",sub->comp.c_str(),evt.c_str(),data.c_str());
    if(nm!=evt) violate("event:wrong-name","%s's handler for %s was called for event %s",sub->comp.c_str(),evt.c_str(),nm.c_str());
    auto it=pubs.find(id); if(it==pubs.end()) violate("event:unpublished","%s got event %llu on %s that nobody published",sub->comp.c_str(),id,evt.c_str());
    Pub& p=it->second; if(p.name!=evt) violate("event:wrong-name","%s got event %llu, published on %s, as %s",sub->comp.c_str(),id,p.name.c_str(),evt.c_str());
    if(p.data!=data) violate("event:wrong-data","%s got event %llu on %s with changed data: got %.120s, published %.120s",sub->comp.c_str(),id,evt.c_str(),data.c_str(),p.data.c_str());
    if(type!=wantType) violate("event:wrong-type","%s got event %llu on %s with type %d instead of %d",sub->comp.c_str(),id,evt.c_str(),type,wantType);
    if(++p.got[sub]>1) violate("event:duplicate","%s got event %llu on %s %d times",sub->comp.c_str(),id,evt.c_str(),p.got[sub]);
    bool legal=lax.count({sub,evt}); for(auto& v:iv[{sub,evt}]) if(p.e>v.s0 && p.s<v.u1) legal=true;
    if(!legal) violate("event:not-subscribed","%s got event %llu on %s although it held no subscription when it was published",sub->comp.c_str(),id,evt.c_str());
    if(ordered){ u64& m=maxStart[{sub,p.by}]; if(p.e<m) violate("event:reordered","%s got event %llu on %s after an event the same publisher published later",sub->comp.c_str(),id,evt.c_str()); if(p.s>m) m=p.s; }
    owed[sub].erase(id); auto& g=ghosts[sub]; for(size_t i=0;i<g.size();) if(g[i].by==p.by&&g[i].s<=p.s) g.erase(g.begin()+i); else i++; }
  size_t backlog(Proc* sub){ auto& g=ghosts[sub]; for(size_t i=0;i<g.size();) if(g[i].t+2*SEC<g_now) g.erase(g.begin()+i); else i++; return g.size()+owed[sub].size(); }
  EvFn* handler(Proc* sub,const std::string& evt){ return new EvFn([this,sub,evt](rbusEvent_t const* e,rbusEventSubscription_t*){ 
     got(sub,evt,e->name?e->name:"",canonObj(e->data),e->type,RBUS_EVENT_GENERAL); if(inHandler) inHandler(sub,evt); if(handlerMax) simSleep(chooseRange(ST_WORK,0,handlerMax)); }); }
  EvFn* rawHandler(Proc* sub,const std::string& evt){ return new EvFn([this,sub,evt](rbusEvent_t const* e,rbusEventSubscription_t*){ rbusEventRawData_t* r=(rbusEventRawData_t*)e; std::string nm=r->name?r->name:""; if(nm.compare(0,8,"rawdata.")==0) nm=nm.substr(8);
     got(sub,evt,nm,"s:"+std::string((const char*)r->rawData,r->rawDataLen),0,0); if(handlerMax) simSleep(chooseRange(ST_WORK,0,handlerMax)); }); }
  Iv* cur(Proc* sub,const std::string& evt){ auto& v=iv[{sub,evt}]; return v.empty()||v.back().u0!=INF||v.back().s1==INF?nullptr:&v.back(); }
  // publish one event (in a thread of p); waits for subscribers that are behind
  rbusError_t publish(Proc* p,const std::string& evt,size_t len,bool raw=false){
    waitFor("event:lost",[&]{ for(auto& o:owed) if(o.first->alive()&&backlog(o.first)>=window) return false; return true; },60*SEC,"events outstanding for over a minute are never delivered");
    if(!p->alive()) return RBUS_ERROR_BUS_ERROR;
    u64 id=nextId++; Pub& r=pubs[id]; r={id,p,evt,"",0,INF,g_now,RBUS_ERROR_SUCCESS,{}}; std::string pl=payload(id,len); Api* a=p->a(); rbusError_t rc;
    auto owe=[&]{ for(auto& x:iv) if(x.first.second==evt) for(auto& v:x.second) if(v.s1!=INF&&v.u0==INF&&!v.mayLose) owed[x.first.first].insert(id); else if(v.u1==INF||v.s1==INF) ghosts[x.first.first].push_back({p,clk,g_now}); };
    if(raw){ r.data="s:"+pl; r.s=clk++; owe(); OpGuard g("rbusEvent_PublishRawData",DEF_BOUND); rbusEventRawData_t e; memset(&e,0,sizeof e); e.name=evt.c_str(); e.rawData=pl.data(); e.rawDataLen=pl.size(); rc=a->rbusEvent_PublishRawData(p->h,&e); logev("publishRaw %s #%llu -> %s",evt.c_str(),(unsigned long long)id,en(rc)); }
    else { std::vector<std::pair<std::string,std::string>> kv={{"v","s:"+pl}}; if(id%3==1) kv.push_back({"n",strf("i32:%d",(int)id)}); if(id%5==1) kv.push_back({"b",std::string("x:\0\1\2",5)}); if(id%4==2) kv.push_back({"t",randVal(id*13,60)}); rbusObject_t o=mkObj(kv); r.data=canonObj(o); rbusEvent_t e; memset(&e,0,sizeof e); e.name=evt.c_str(); e.type=RBUS_EVENT_GENERAL; e.data=o; r.s=clk++; owe(); OpGuard g("rbusEvent_Publish",DEF_BOUND); rc=a->rbusEvent_Publish(p->h,&e); a->rbusObject_Release(o); logev("publish %s #%llu -> %s",evt.c_str(),(unsigned long long)id,en(rc)); }
    r.e=clk++; r.rc=rc; 
    bool some=false; for(auto& x:iv) if(x.first.second==evt) for(auto& v:x.second) if(x.first.first->alive()&&active(v,r)) some=true;
    if(rc && some && strictRc) violate(strf("event:publish-failed:%s",en(rc)),"publishing %s returned %s although it has a live subscriber",evt.c_str(),en(rc));
    return rc; }
  Rc sub(Proc* p,const std::string& evt,bool raw=false,int timeout=0,std::function<void()> settle=nullptr){
    auto& v=iv[{p,evt}]; v.push_back({clk++,INF,INF,INF,raw?rawHandler(p,evt):handler(p,evt),0,raw}); size_t ix=v.size()-1; Rc r;
    if(raw){ OpGuard g("rbusEvent_SubscribeRawData",DEF_BOUND+(i64)(timeout<0?600:timeout)*SEC); r.rc=p->a()->rbusEvent_SubscribeRawData(p->h,evt.c_str(),evTramp,v[ix].fn,timeout); r.dur=g.elapsed(); logev("subscribeRaw %s -> %s",evt.c_str(),en(r.rc)); } else r=doSub(p,evt,v[ix].fn,timeout);
    if(r.rc==0&&settle) settle();
    Iv& x=iv[{p,evt}][ix]; if(r.rc==0){ x.s1=clk++; x.tAck=g_now; } else { x.u0=x.u1=clk++; } return r; }
  Rc unsub(Proc* p,const std::string& evt,bool raw=false){
    auto& v=iv[{p,evt}]; size_t ix=v.size()-1; v[ix].u0=clk++; dropOwed(p,evt); Rc r;
    if(raw){ OpGuard g("rbusEvent_UnsubscribeRawData",DEF_BOUND); r.rc=p->a()->rbusEvent_UnsubscribeRawData(p->h,evt.c_str()); r.dur=g.elapsed(); logev("unsubscribeRaw %s -> %s",evt.c_str(),en(r.rc)); } else r=doUnsub(p,evt);
    iv[{p,evt}][ix].u1=clk++; return r; }
  // events still owed stay owed for the final check only if published wholly before the unsubscribe began
  void dropOwed(Proc* p,const std::string& evt){ auto& o=owed[p]; for(auto i=o.begin();i!=o.end();) if(pubs[*i].name==evt){ ghosts[p].push_back({pubs[*i].by,pubs[*i].s,g_now}); i=o.erase(i); } else ++i; }
  void gone(Proc* p){ for(auto& x:iv) if(x.first.first==p) for(auto& v:x.second){ if(v.u0==INF) v.u0=clk++; if(v.u1==INF) v.u1=clk++; } owed.erase(p); }
  // every event an uninterrupted, still open subscription is owed has arrived
  void final(){ for(auto& x:iv) if(x.first.first->alive()) for(auto& v:x.second) if(v.u0==INF&&!v.mayLose) for(auto& q:pubs) if(q.second.name==x.first.second && q.second.s>quietFrom && active(v,q.second) && q.second.rc==0 && !q.second.got.count(x.first.first)) violate("event:lost","%s never got event %llu on %s although it was subscribed",x.first.first->comp.c_str(),(unsigned long long)q.first,q.second.name.c_str()); }
};
