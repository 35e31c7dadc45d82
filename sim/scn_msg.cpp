// C23 raw messaging: identical bytes, once, in order, to each listener; confirmed sends tell the truth.
#include "world.h"
struct T23; static T23* s_t;
struct T23 {
  static constexpr u64 INF=~0ULL; u64 clk=1,nextId=1; size_t window=8; int nt=2; bool churn=false,crashes=false,stop=false,reply=false; i64 handlerMax=0; size_t maxLen=200; u64 delivered=0,confirmed=0;
  struct Lst { T23* t; int ix; Proc* p; std::string topic; uint32_t sid; u64 s0=0,s1=INF,u0=INF,u1=INF; bool crashed=false; i64 t0=0; };
  struct Msg { u64 id; Proc* by; std::string topic,bytes; bool confirm; u64 s=0,e=INF; i64 t=0; rbusError_t rc=RBUS_ERROR_SUCCESS; std::map<int,int> got; bool sent=false; };
  std::map<u64,Msg> msgs; std::vector<Lst*> L; std::map<int,std::set<u64>> owed; std::map<Proc*,std::vector<i64>> ghosts; std::map<std::pair<int,Proc*>,u64> maxStart; std::vector<Proc*> P,S;
  std::string topic(int k){ return strf("test.topic%d",k); }
  bool active(Lst* l,const Msg& m){ return l->s1!=INF&&m.s>l->s1&&m.e<l->u0; }
  size_t backlog(Proc* p){ auto& g=ghosts[p]; for(size_t i=0;i<g.size();) if(g[i]+2*SEC<g_now) g.erase(g.begin()+i); else i++; size_t n=g.size(); for(auto& o:owed) if(L[o.first]->p==p) n+=o.second.size(); return n; }
  void got(Lst* l,const rbusMessage_t* m){ delivered++; std::string b((const char*)m->data,m->length); unsigned long long id=0; std::string tp=m->topic?m->topic:"";
    if(sscanf(b.c_str(),"%llu:",&id)!=1||!msgs.count(id)) violate("msg:garbled","listener %d of %s got %u bytes that nobody sent: %.60s",l->ix,l->topic.c_str(),(unsigned)m->length,b.c_str());
    Msg& q=msgs[id]; if(tp!=q.topic||q.topic!=l->topic) violate("msg:wrong-topic","listener %d of %s got message %llu, sent on %s, as one on %s",l->ix,l->topic.c_str(),id,q.topic.c_str(),tp.c_str());
    if(b!=q.bytes) violate("msg:wrong-bytes","listener %d got message %llu with %zu bytes that differ from the %zu sent",l->ix,id,b.size(),q.bytes.size());
    if(++q.got[l->ix]>1) violate("msg:duplicate","listener %d got message %llu %d times",l->ix,id,q.got[l->ix]);
    // what was still on its way to the router when the listener was added may reach it
    if(!((q.e>l->s0||q.t+3*SEC>l->t0)&&q.s<l->u1)) violate("msg:after-removal","listener %d of %s got message %llu although it was not listening when it was sent",l->ix,l->topic.c_str(),id);
    u64& mx=maxStart[{l->ix,q.by}]; if(q.e<mx) violate("msg:reordered","listener %d got message %llu after one its sender sent later",l->ix,id); if(q.s>mx) mx=q.s;
    logev("listener %d got #%llu",l->ix,id); owed[l->ix].erase(id);
    if(reply&&choose(ST_WORK,6)==1) send(l->p,"test.nobody",10,choose(ST_WORK,2));
    if(handlerMax) simSleep(chooseRange(ST_WORK,0,handlerMax)); }
  void settle(Proc* p){ // one round trip to the router: what this process sent before has been processed
    rbusMessage_t m; m.topic="test.settle"; m.data=(uint8_t const*)"x"; m.length=1; OpGuard g("rbusMessage_Send",12*SEC); rbusError_t rc=p->a()->rbusMessage_Send(p->h,&m,RBUS_MESSAGE_CONFIRM_RECEIPT); if(rc==0) violate("msg:confirmed-without-listener","a confirmed send on a topic nobody listens to succeeded"); }
  Lst* add(Proc* p,const std::string& tp,uint32_t sid){ Lst* l=new Lst{this,(int)L.size(),p,tp,sid}; L.push_back(l); l->s0=clk++; l->t0=g_now; rbusError_t rc; { OpGuard g("rbusMessage_AddListener",12*SEC); rc=p->a()->rbusMessage_AddListener(p->h,tp.c_str(),[](rbusHandle_t,rbusMessage_t* m,void* u){ Lst* l=(Lst*)u; l->t->got(l,m); },l,sid); }
    logev("add listener %d %s sid %u -> %s",l->ix,tp.c_str(),sid,en(rc)); if(rc) violate(strf("msg:add-failed:%s",en(rc)),"adding a listener for %s failed with %s",tp.c_str(),en(rc)); settle(p); if(p->alive()) l->s1=clk++; return l; }
  void dropOwed(Lst* l){ auto& o=owed[l->ix]; for(size_t i=0;i<o.size();i++) ghosts[l->p].push_back(g_now); o.clear(); }
  void remove(Lst* l){ l->u0=clk++; dropOwed(l); rbusError_t rc; { OpGuard g("rbusMessage_RemoveListener",12*SEC); rc=l->p->a()->rbusMessage_RemoveListener(l->p->h,l->topic.c_str(),l->sid); } l->u1=clk++; logev("remove listener %d -> %s",l->ix,en(rc)); if(rc) violate(strf("msg:remove-failed:%s",en(rc)),"removing listener %d of %s failed with %s",l->ix,l->topic.c_str(),en(rc)); }
  void removeAll(Proc* p){ std::vector<Lst*> v; for(auto l:L) if(l->p==p&&l->s1!=INF&&l->u0==INF){ v.push_back(l); l->u0=clk++; dropOwed(l); } { OpGuard g("rbusMessage_RemoveAllListeners",12*SEC); p->a()->rbusMessage_RemoveAllListeners(p->h); } for(auto l:v) l->u1=clk++; logev("remove all"); }
  void gone(Proc* p){ for(auto l:L) if(l->p==p){ if(l->u0==INF) l->u0=clk++; if(l->u1==INF){ l->u1=clk++; l->crashed=true; } owed.erase(l->ix); } ghosts.erase(p); }
  rbusError_t send(Proc* p,const std::string& tp,size_t len,bool confirm){
    if(tp!="test.nobody") waitFor("msg:lost",[this]{ for(auto& o:owed) if(!o.second.empty()&&L[o.first]->p->alive()&&backlog(L[o.first]->p)>=window) return false; return true; },60*SEC,"messages outstanding for over a minute are never delivered");
    u64 id=nextId++; Msg& m=msgs[id]; m.id=id; m.by=p; m.topic=tp; m.bytes=payload(id,len); m.confirm=confirm; m.t=g_now; m.s=clk++;
    for(auto l:L) if(l->topic==tp&&l->p->alive()){ if(l->s1!=INF&&l->u0==INF) owed[l->ix].insert(id); else if(l->u1==INF||l->s1==INF) ghosts[l->p].push_back(g_now); }
    rbusMessage_t r; r.topic=tp.c_str(); r.data=(uint8_t const*)m.bytes.data(); r.length=m.bytes.size(); i64 d; { OpGuard g("rbusMessage_Send",12*SEC); m.rc=p->a()->rbusMessage_Send(p->h,&r,confirm?RBUS_MESSAGE_CONFIRM_RECEIPT:RBUS_MESSAGE_NONE); d=g.elapsed(); } m.e=clk++; m.sent=true; logev("send #%llu %s %s -> %s",(unsigned long long)id,tp.c_str(),confirm?"confirm":"",en(m.rc));
    if(!confirm&&m.rc) violate(strf("msg:send-failed:%s",en(m.rc)),"sending on %s failed with %s",tp.c_str(),en(m.rc));
    if(confirm){ if(m.rc==0) confirmed++; bool some=false,may=false; for(auto l:L) if(l->topic==tp){ if(active(l,m)&&l->p->alive()) some=true; if((m.e>l->s0||m.t+3*SEC>l->t0)&&m.s<l->u1) may=true; }
      if(m.rc==0&&!may) violate("msg:confirmed-without-listener","a confirmed send of message %llu succeeded although nobody listens to %s",(unsigned long long)id,tp.c_str());
      if(m.rc&&some&&(d<1900*MS||!K.stallPct)) violate(strf("msg:confirm-failed:%s",en(m.rc)),"a confirmed send of message %llu failed with %s after %.2f s although %s has a live listener",(unsigned long long)id,en(m.rc),d/1e9,tp.c_str());
      if(d>2*SEC+3*SEC) violate("msg:confirm-late","a confirmed send took %.1f s, its limit is 2 s",d/1e9); }
    return m.rc; }
  void final(){ for(auto& q:msgs) if(q.second.sent){ Msg& m=q.second; for(auto l:L) if(l->topic==m.topic&&l->u0==INF&&l->p->alive()&&!l->crashed&&active(l,m)&&(m.rc==0||!m.confirm)&&!m.got.count(l->ix)) violate("msg:lost","listener %d of %s never got message %llu",l->ix,l->topic.c_str(),(unsigned long long)m.id);
      if(m.confirm&&m.rc==0&&m.got.empty()){ bool cr=false; for(auto l:L) if(l->crashed&&l->topic==m.topic&&m.e>l->s0&&m.s<l->u1) cr=true; if(!cr) violate("msg:confirmed-not-received","a confirmed send of message %llu succeeded but no listener received it",(unsigned long long)m.id); } } }
  void run(){ s_t=this; startRouter(); int np=1+choose(ST_CFG,2), ns=1+choose(ST_CFG,3); nt=1+choose(ST_CFG,3); handlerMax=choose(ST_CFG,3)*2*MS; window=4+choose(ST_CFG,8); reply=choose(ST_CFG,2);
    for(int i=0;i<np;i++){ P.push_back(proc(strf("send%d",i))); startAndOpen(P[i]); } for(int i=0;i<ns;i++){ S.push_back(proc(strf("lst%d",i))); startAndOpen(S[i]); }
    bool selfL=choose(ST_CFG,3)==1; if(selfL) S.push_back(P[0]);
    uint32_t sid=1; for(auto s:S) call(s,"add",60*SEC,[&]{ for(int k=0;k<nt;k++){ int n=choose(ST_WORK,3); for(int j=0;j<n;j++) add(s,topic(k),choose(ST_WORK,2)?sid++:100+j); } });
    std::vector<Fiber*> fs,bgf; int n=5+choose(ST_CFG,15), th=1+choose(ST_CFG,2); bool done=false;
    for(int i=0;i<np;i++) for(int t=0;t<th;t++) fs.push_back(bg(P[i],strf("send%d",t),[this,i,n]{ for(int k=0;k<n;k++){ send(P[i],choose(ST_WORK,8)==7?"test.nobody":topic(choose(ST_WORK,nt)),5+choose(ST_WORK,(u32)maxLen),choose(ST_WORK,2)); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); } }));
    if(churn) for(auto s:S) bgf.push_back(bg(s,"churn",[&,s]{ while(!done){ std::vector<Lst*> mine; for(auto l:L) if(l->p==s&&l->s1!=INF&&l->u0==INF) mine.push_back(l); u32 w=choose(ST_WORK,12); if(w==11&&!mine.empty()) removeAll(s); else if(!mine.empty()&&w<6) remove(mine[choose(ST_WORK,mine.size())]); else if(mine.size()<6) add(s,topic(choose(ST_WORK,nt)),1000+(uint32_t)L.size()); simSleep(chooseRange(ST_WORK,1*MS,20*MS)); } }));
    if(crashes&&S[0]!=P[0]) bgf.push_back(simThread(g_router,"killer",[&]{ Proc* s=S[0]; simSleep(chooseRange(ST_FAULT,0,60*MS)); crash(s); gone(s); if(choose(ST_FAULT,2)){ simSleep(chooseRange(ST_FAULT,1*MS,50*MS)); startAndOpen(s); call(s,"add",60*SEC,[&]{ for(int k=0;k<nt;k++) add(s,topic(k),7+k); }); } }));
    joinAll(fs,"senders",600*SEC); done=true; joinAll(bgf,"background",120*SEC); simSleep(5*SEC); final(); g_sh->nontrivial=delivered>3; }
};
SCENARIO_W(C23,plain,3){ swarm(); T23 t; t.run(); }
SCENARIO_W(C23,churn,3){ swarm(); T23 t; t.churn=true; t.run(); }
SCENARIO_W(C23,crash,2){ swarm(); T23 t; t.crashes=true; t.churn=choose(ST_CFG,2); t.run(); }
SCENARIO_W(C23,big,1){ swarm(); T23 t; t.maxLen=60000; K.sockBuf=4096; K.shortReadPct=5; t.run(); }
// C15: payloads of every size around the buffer sizes of router and clients, sent by several threads at once.
struct T15 {
  struct Stream { std::string topic; std::vector<std::pair<size_t,u64>> sent; size_t got=0; Proc* to; }; std::vector<Stream*> st; size_t inFlight=0;
  static size_t size(){ static const size_t b[]={0,1,2,3,7,24,63,255,256,1023,1024,1025,4095,4096,8191,8192,32767,65000,65300,65400,65450,65500,65533,65534,65535,65536,65537,65560,66000,70000,131071,131072,131073,200000}; u32 w=choose(ST_WORK,8); if(w<5) return b[choose(ST_WORK,sizeof b/sizeof *b)]; if(w==5) return 65536-choose(ST_WORK,400); if(w==6) return choose(ST_WORK,200); return choose(ST_WORK,140000); }
  static void fill(std::string& s,size_t n,u64 seed){ s.resize(n); u64 x=seed*0x9e3779b97f4a7c15ULL+1; for(size_t i=0;i<n;i++){ x^=x<<13; x^=x>>7; x^=x<<17; s[i]=(char)x; } }
  static void fn(rbusHandle_t,rbusMessage_t* m,void* u){ Stream* s=(Stream*)u; if(s->topic!=m->topic) violate("frame:topic","a message of topic %s arrived as %s",s->topic.c_str(),m->topic); if(s->got>=s->sent.size()) violate("frame:extra","more messages on %s than were sent",m->topic); auto& e=s->sent[s->got]; std::string w; fill(w,e.first,e.second); if((size_t)m->length!=w.size()||(w.size()&&memcmp(m->data,w.data(),w.size()))) violate("frame:bytes","message %zu on %s: %zu bytes sent, %d bytes received%s",s->got,m->topic,w.size(),(int)m->length,(size_t)m->length==w.size()?" and they differ":""); s->got++; }
  void run(){ startRouter(); int np=2+choose(ST_CFG,2); std::vector<Proc*> P; for(int i=0;i<np;i++){ P.push_back(proc(strf("p%d",i))); startAndOpen(P.back()); } u64 id=1; int ns=1+choose(ST_CFG,4);
    for(int k=0;k<ns;k++){ Stream* s=new Stream; s->topic=strf("sz.%d",k)+std::string(choose(ST_CFG,3)?0:choose(ST_CFG,110),'t'); s->to=P[choose(ST_CFG,np)]; st.push_back(s); call(s->to,"add",30*SEC,[&]{ rbusError_t rc=s->to->a()->rbusMessage_AddListener(s->to->h,s->topic.c_str(),fn,s,k+1); if(rc) violate("setup:listener","adding a listener failed: %s",en(rc)); rbusMessage_t m; m.topic="sz.none"; m.data=(uint8_t const*)"x"; m.length=1; s->to->a()->rbusMessage_Send(s->to->h,&m,RBUS_MESSAGE_CONFIRM_RECEIPT); }); }
    std::vector<Fiber*> fs; int n=4+choose(ST_CFG,10); for(int k=0;k<ns;k++){ Stream* s=st[k]; Proc* p=P[choose(ST_CFG,np)]; fs.push_back(bg(p,strf("send%d",k),[&,s,p,n]{ std::string b; for(int i=0;i<n;i++){ size_t z=size(); u64 sd=id++; fill(b,z,sd); s->sent.push_back({z,sd}); rbusMessage_t m; m.topic=s->topic.c_str(); m.data=(uint8_t const*)b.data(); m.length=(int)z; bool conf=choose(ST_WORK,3)==1; rbusError_t rc; { OpGuard g("rbusMessage_Send",DEF_BOUND); rc=p->a()->rbusMessage_Send(p->h,&m,conf?RBUS_MESSAGE_CONFIRM_RECEIPT:RBUS_MESSAGE_NONE); logev("send %s %zu bytes -> %s",s->topic.c_str(),z,en(rc)); } if(rc) violate(strf("frame:send:%s",en(rc)),"sending %zu bytes failed with %s",z,en(rc)); waitFor("frame:lost",[s]{ return s->got+4>s->sent.size(); },30*SEC,"a message never arrived"); } waitFor("frame:lost",[s]{ return s->got==s->sent.size(); },30*SEC,"a message never arrived"); })); }
    joinAll(fs,"senders",600*SEC); for(auto p:P) call(p,"close",60*SEC,[&]{ closeBus(p); }); g_sh->nontrivial=true; }
};
SCENARIO_W(C15,sizes,2){ swarm(); K.shortReads=chance(ST_CFG,2,3); K.shortReadPct=5; K.shortWrites=choose(ST_CFG,2); if(chance(ST_CFG,1,2)) K.sockBuf=4096u<<choose(ST_CFG,6); if(K.maxDelay>MS) K.maxDelay=MS; T15 t; t.run(); }
