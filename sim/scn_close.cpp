// C17 closing a handle: bounded, quiet afterwards, harmless to the other handles of the process, and the component can be opened again.
#include "world.h"
struct T17; static T17* s_t;
struct T17 {
  enum St { CLOSED, OPENING, OPEN, CLOSING };
  struct H { Proc* q; int i; int gen=0; St st=CLOSED; i64 tClosed=-100*SEC,tOpen=0; int cbs=0,inCb=0; std::vector<std::string> subs; bool users=false; };
  struct Ctx { H* x; int gen; };
  Proc* base; std::vector<H*> X; std::vector<Proc*> Y; static constexpr int G=4; int nh=2,gens=3; bool crashes=false,routers=false; std::vector<i64> upSince; i64 routerBad=-100*SEC; bool done=false; u64 okX=0,okY=0,closes=0,nAsync=0; int maxHandler=200;
  static std::string xn(int i,const char* s){ return strf("Device.X%d.%s",i,s); } static std::string yn(int i,const char* s){ return strf("Device.Y%d.%s",i,s); }
  bool yGood(int y,i64 t0){ return upSince[y]>=0&&upSince[y]<=t0&&routerBad+20*SEC<t0; } bool netGood(i64 t0){ return routerBad+20*SEC<t0; }
  H* byName(const std::string& n){ for(auto x:X) if(n.compare(0,xn(x->i,"").size(),xn(x->i,""))==0) return x; violate("close:stray-handler","a handler was called for %s",n.c_str()); return nullptr; }
  // runs around every handler or callback of handle x, generation gen (<0: any)
  struct In { H* x; int g; const char* w; In(H* x_,int gen,const char* w_):x(x_),g(gen),w(w_){ check("was called"); x->inCb++; } void check(const char* h){ if(x->st==CLOSED) violate("close:handler-after-close","a %s of handle %s %s although rbus_close has returned %.3f s ago",w,x->q->comp.c_str(),h,(g_now-x->tClosed)/1e9); if(g>=0&&g!=x->gen) violate("close:old-handler","a %s of generation %d of handle %s %s in generation %d",w,g,x->q->comp.c_str(),h,x->gen); } ~In(){ check("was still running"); x->inCb--; x->cbs++; } };
  void dawdle(){ u32 w=choose(ST_WORK,10); if(w==1) simSleep(chooseRange(ST_WORK,0,maxHandler*MS)); else if(w<4) simSleep(chooseRange(ST_WORK,0,5*MS)); else if(w==4) simYield(); }
  void hooksX(){ base->onGet=[this](const std::string& n,rbusProperty_t p,rbusGetHandlerOptions_t*){ H* x=byName(n); In in(x,x->gen,"get handler"); int g=x->gen; dawdle(); setVal(p,strf("%s|%d",n.c_str(),g)); return RBUS_ERROR_SUCCESS; };
    base->onSet=[this](const std::string& n,rbusProperty_t,rbusSetHandlerOptions_t*){ H* x=byName(n); In in(x,x->gen,"set handler"); dawdle(); return RBUS_ERROR_SUCCESS; };
    base->onMethod=[this](const std::string& n,rbusObject_t,rbusObject_t out,rbusMethodAsyncHandle_t ah)->rbusError_t{ H* x=byName(n); In in(x,x->gen,"method handler"); dawdle(); if(n.find(".ax()")!=std::string::npos){ Api* a=A(); simThread(base->n,"responder",[ah,a]{ simSleep(chooseRange(ST_WORK,0,choose(ST_WORK,2)?20*MS:2*SEC)); rbusObject_t o=choose(ST_WORK,2)?mkObj({{"out","s:x"}}):nullptr; a->rbusMethod_SendAsyncResponse(ah,o?RBUS_ERROR_SUCCESS:RBUS_ERROR_INVALID_PARAMETER_VALUE,o); if(o) a->rbusObject_Release(o); }); return RBUS_ERROR_ASYNC_RESPONSE; } rbusValue_t v=mkVal("s:"+n); A()->rbusObject_SetValue(out,"out",v); A()->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    base->onSub=[this](rbusEventSubAction_t,const std::string& n,rbusFilter_t,int32_t,bool*)->rbusError_t{ H* x=byName(n); In in(x,x->gen,"subscription handler"); dawdle(); return RBUS_ERROR_SUCCESS; };
    base->onAddRow=[this](const std::string& n,const char*,uint32_t* i){ H* x=byName(n); In in(x,x->gen,"table handler"); dawdle(); static u32 k=0; *i=++k; return RBUS_ERROR_SUCCESS; };
    base->onRemoveRow=[this](const std::string& n){ H* x=byName(n); In in(x,x->gen,"table handler"); dawdle(); return RBUS_ERROR_SUCCESS; }; }
  void hooksY(int y){ Proc* p=Y[y]; p->onGet=[](const std::string& n,rbusProperty_t pr,rbusGetHandlerOptions_t*){ static int k=0; if(choose(ST_WORK,6)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); setVal(pr,n.find("vc")!=std::string::npos&&choose(ST_WORK,2)?strf("v%d",++k):n); return RBUS_ERROR_SUCCESS; };
    p->onMethod=[this,p](const std::string& n,rbusObject_t,rbusObject_t out,rbusMethodAsyncHandle_t ah)->rbusError_t{ Api* a=A(); u32 w=choose(ST_WORK,4); if(n.find("am")!=std::string::npos&&w){ if(w<3) simThread(p->n,"responder",[ah,a]{ simSleep(chooseRange(ST_WORK,0,choose(ST_WORK,2)?200*MS:8*SEC)); rbusObject_t o=mkObj({{"out","s:x"}}); a->rbusMethod_SendAsyncResponse(ah,RBUS_ERROR_SUCCESS,o); a->rbusObject_Release(o); }); return RBUS_ERROR_ASYNC_RESPONSE; } rbusValue_t v=mkVal("s:"+n); a->rbusObject_SetValue(out,"out",v); a->rbusValue_Release(v); return RBUS_ERROR_SUCCESS; };
    p->onSub=[](rbusEventSubAction_t,const std::string&,rbusFilter_t,int32_t,bool*)->rbusError_t{ if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); return RBUS_ERROR_SUCCESS; }; }
  void regY(int y){ hooksY(y); call(Y[y],"reg",60*SEC,[&]{ std::vector<El> e={{yn(y,"v"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{yn(y,"vc"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET},{yn(y,"m()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{yn(y,"e!"),RBUS_ELEMENT_TYPE_EVENT,CB_SUB}}; for(auto x:X) for(int g=0;g<=G;g++) for(int k=0;k<2;k++) e.push_back({yn(y,strf("am%d_%d_%d()",x->i,g,k).c_str()),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); rbusError_t rc=reg(Y[y],e); if(rc) violate("setup:reg","registering failed: %s",en(rc)); }); }
  EvFn* evFn(H* x){ int g=x->gen; return new EvFn([this,x,g](rbusEvent_t const*,rbusEventSubscription_t*){ In in(x,g,"event handler"); dawdle(); }); }
  static void asyncResp(rbusHandle_t,char const* m,rbusError_t,rbusObject_t){ int y,i,g,k; if(sscanf(m,"Device.Y%d.am%d_%d_%d",&y,&i,&g,&k)!=4) violate("close:stray-handler","method callback for %s",m); In in(s_t->X[i],g,"method callback"); s_t->dawdle(); }
  static void subResp(rbusHandle_t,rbusEventSubscription_t* s,rbusError_t){ Ctx* c=(Ctx*)s->userData; In in(c->x,c->gen,"subscribe callback"); s_t->dawdle(); }
  static void asubEv(rbusHandle_t,rbusEvent_t const*,rbusEventSubscription_t* s){ Ctx* c=(Ctx*)s->userData; In in(c->x,c->gen,"event handler"); s_t->dawdle(); }
  static void msgFn(rbusHandle_t,rbusMessage_t*,void* u){ Ctx* c=(Ctx*)u; In in(c->x,c->gen,"message listener"); s_t->dawdle(); }
  void userOp(H* x){ Proc* q=x->q; int y=choose(ST_WORK,Y.size()); i64 t0=g_now; switch(choose(ST_WORK,7)){
      case 0: case 1: { GetRes r=doGet(q,yn(y,"v")); if(r.rc&&yGood(y,t0)) violate(strf("close:others:%s",en(r.rc)),"get of a healthy peer by an open handle failed with %s",en(r.rc)); if(!r.rc) okX++; } break;
      case 2: { Rc r=doSet(q,yn(y,"v"),"1"); if(r.rc&&yGood(y,t0)) violate(strf("close:others:%s",en(r.rc)),"set of a healthy peer by an open handle failed with %s",en(r.rc)); } break;
      case 3: { MethRes r=doMethod(q,yn(y,"m()"),"a"); if(r.rc&&yGood(y,t0)) violate(strf("close:others:%s",en(r.rc)),"method of a healthy peer by an open handle failed with %s",en(r.rc)); } break;
      case 4: { Rc r=doPublish(q,xn(x->i,"e!"),"p"); if(r.rc&&r.rc!=RBUS_ERROR_NOSUBSCRIBERS&&netGood(t0)) violate(strf("close:publish:%s",en(r.rc)),"publishing by an open handle failed with %s",en(r.rc)); } break;
      case 5: { H* z=X[choose(ST_WORK,X.size())]; probe(q,z,choose(ST_WORK,3)); } break;
      default: { char const* al=nullptr; AddRes r=doAddRow(q,xn(x->i,"T."),al); if(r.rc==0) doRemoveRow(q,xn(x->i,strf("T.%u.",r.inst).c_str())); else if(netGood(t0)) violate(strf("close:others:%s",en(r.rc)),"adding a row to an own table failed with %s",en(r.rc)); } break; } }
  // a request to an element of handle x
  void probe(Proc* c,H* x,int kind){ St s0=x->st; int g0=x->gen; i64 t0=g_now,tc=x->tClosed; rbusError_t rc; i64 dur; std::string n=xn(x->i,kind==2?"m()":"v"),val; if(kind==2){ MethRes r=doMethod(c,n,"a"); rc=r.rc; dur=r.dur; } else if(kind==1){ Rc r=doSet(c,n,"s"); rc=r.rc; dur=r.dur; } else { GetRes r=doGet(c,n); rc=r.rc; dur=r.dur; val=r.val; }
    if(s0==OPEN&&x->st==OPEN&&x->gen==g0&&netGood(t0)&&t0>x->tOpen){ if(rc) violate(strf("close:unreachable:%s",en(rc)),"a request for %s failed with %s after %.2f s although its handle is open",n.c_str(),en(rc),dur/1e9); if(kind==0&&val!=strf("%s|%d",n.c_str(),g0)) violate("close:wrong-answer","get %s returned %s",n.c_str(),val.c_str()); }
    if(s0==CLOSED&&x->st==CLOSED&&x->gen==g0&&t0>tc+2*SEC&&netGood(t0)){ if(rc==0) violate("close:reachable","%s answered %.2f s after its handle was closed",n.c_str(),(t0-tc)/1e9); if(dur>5*SEC) violate("close:slow-refusal","a request for %s, whose handle was closed %.1f s before, took %.1f s to fail with %s",n.c_str(),(t0-tc)/1e9,dur/1e9,en(rc)); if(!notFoundRc(rc)&&rc!=RBUS_ERROR_INVALID_METHOD) violate(strf("close:code:%s",en(rc)),"a request for %s, whose handle is closed, returned %s",n.c_str(),en(rc)); }
    if(rc==0) okY++; }
  void register_(H* x){ i64 t0=g_now; std::vector<El> e={{xn(x->i,"v"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{xn(x->i,"m()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{xn(x->i,"ax()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{xn(x->i,"e!"),RBUS_ELEMENT_TYPE_EVENT,CB_SUB},{xn(x->i,"T.{i}."),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{xn(x->i,"T.{i}.z"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}};
    for(;;){ rbusError_t rc=reg(x->q,e); if(rc==0) break; if(g_now>t0+(netGood(t0)?3:60)*SEC) violate(strf("close:reregister:%s",en(rc)),"registering the elements of %s again failed with %s",x->q->comp.c_str(),en(rc)); simSleep(300*MS); } }
  void subscribe(H* x){ int n=choose(ST_WORK,4); for(int k=0;k<n;k++){ int y=choose(ST_WORK,Y.size()); i64 t0=g_now; Rc r; std::string nm; switch(choose(ST_WORK,3)){ case 0: nm=yn(y,"e!"); break; case 1: nm=yn(y,"vc"); break; default: nm=yn(y,"v"); break; } bool dup=false; for(auto& s:x->subs) if(s==nm) dup=true; if(dup) continue; SubOpt o; if(nm==yn(y,"v")){ o.interval=1+choose(ST_WORK,2); r=doSubEx(x->q,nm,evFn(x),o); } else r=doSub(x->q,nm,evFn(x)); if(r.rc==0) x->subs.push_back(nm); else if(yGood(y,t0)) violate(strf("close:subscribe:%s",en(r.rc)),"subscribing to %s of a healthy peer failed with %s",nm.c_str(),en(r.rc)); }
    if(choose(ST_WORK,2)){ Ctx* c=new Ctx{x,x->gen}; std::string tp=strf("x%d.msg",x->i); OpGuard g("rbusMessage_AddListener",DEF_BOUND); rbusError_t rc=x->q->a()->rbusMessage_AddListener(x->q->h,tp.c_str(),msgFn,c,x->gen+1); logev("addListener %s -> %s",tp.c_str(),en(rc)); } }
  void inFlight(H* x){ Api* a=x->q->a(); int n=choose(ST_WORK,3); for(int k=0;k<n;k++){ int y=choose(ST_WORK,Y.size()); nAsync++; std::string m=yn(y,strf("am%d_%d_%d()",x->i,x->gen,k).c_str()); rbusObject_t in=mkObj({{"a","s:b"}}); { OpGuard g("rbusMethod_InvokeAsync",2*SEC); rbusError_t rc=a->rbusMethod_InvokeAsync(x->q->h,m.c_str(),in,asyncResp,choose(ST_WORK,3)?1+choose(ST_WORK,30):0); logev("invokeAsync %s -> %s",m.c_str(),en(rc)); } a->rbusObject_Release(in); }
    n=choose(ST_WORK,3); for(int k=0;k<n;k++){ int y=choose(ST_WORK,Y.size()); std::string nm=choose(ST_WORK,3)?yn(y,strf("late%d!",k).c_str()):yn(y,"e!"); for(auto& s:x->subs) if(s==nm) nm=""; if(nm.empty()) continue; x->subs.push_back(nm); Ctx* c=new Ctx{x,x->gen}; char* nn=strdup(nm.c_str()); rbusError_t rc; { OpGuard g("rbusEvent_SubscribeAsync",5*SEC); rc=a->rbusEvent_SubscribeAsync(x->q->h,nn,asubEv,subResp,c,choose(ST_WORK,2)?0:1+choose(ST_WORK,20)); } free(nn); logev("subscribeAsync %s -> %s",nm.c_str(),en(rc)); } }
  void life(H* x){ bool have=false; for(int g=0;g<gens;g++){ x->gen++; x->st=OPENING; x->subs.clear(); rbusError_t rc=have?RBUS_ERROR_SUCCESS:openBus(x->q); have=false; if(rc){ if(routers){ x->st=CLOSED; x->tClosed=g_now; simSleep(SEC); g--; x->gen--; continue; } violate(strf("close:reopen:%s",en(rc)),"opening %s (time %d) failed with %s",x->q->comp.c_str(),x->gen,en(rc)); } register_(x); x->st=OPEN; x->tOpen=g_now;
      subscribe(x); x->users=true; std::vector<Fiber*> us; int nu=choose(ST_WORK,3); for(int u=0;u<nu;u++) us.push_back(bg(base,"user",[this,x]{ while(x->users){ userOp(x); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,300*MS)); else simYield(); } }));
      if(nu||choose(ST_WORK,2)) simSleep(chooseRange(ST_WORK,0,pick<i64>(ST_WORK,{50*MS,SEC,5*SEC}))); bool early=choose(ST_WORK,2); if(early) inFlight(x); x->users=false; joinAll(us,"users of the handle",120*SEC); if(!early) inFlight(x); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,100*MS));
      bool good=netGood(g_now); for(size_t y=0;y<Y.size();y++) if(upSince[y]<0) good=false; i64 lim=good&&!crashes&&!routers?(8+3*(i64)x->subs.size())*SEC+(i64)maxHandler*20*MS:(40+25*(i64)x->subs.size())*SEC; closes++;
      if(g+1<gens&&choose(ST_WORK,5)==1){ x->st=CLOSING; rbusError_t e=openBus(x->q); x->tClosed=g_now; x->st=CLOSED; if(x->inCb) violate("close:handler-running","opening %s again returned while %d handlers of the previous handle are running",x->q->comp.c_str(),x->inCb); if(e&&netGood(g_now)) violate(strf("close:reopen:%s",en(e)),"opening %s while it was open failed with %s",x->q->comp.c_str(),en(e)); have=e==0; continue; }
      x->st=CLOSING; { OpGuard og("rbus_close",lim); rbusError_t e=x->q->a()->rbus_close(x->q->h); x->q->opened=false; logev("close %s gen %d -> %s",x->q->comp.c_str(),x->gen,en(e)); if(e&&netGood(g_now)) violate(strf("close:rc:%s",en(e)),"rbus_close returned %s",en(e)); } x->tClosed=g_now; x->st=CLOSED; if(x->inCb) violate("close:handler-running","rbus_close of %s returned while %d of its handlers are running",x->q->comp.c_str(),x->inCb);
      if(choose(ST_WORK,2)) simSleep(chooseRange(ST_WORK,0,pick<i64>(ST_WORK,{10*MS,2*SEC,8*SEC}))); } }
  void peer(int y){ Proc* p=Y[y]; std::map<std::string,EvFn*> held; while(!done&&p->alive()){ H* x=X[choose(ST_WORK,X.size())]; u32 w=choose(ST_WORK,10); i64 t0=g_now; St s0=x->st; int g0=x->gen; if(w<4) probe(p,x,w%3); else if(w==4&&choose(ST_WORK,2)) doMethod(p,xn(x->i,"ax()"),"q",40*SEC); else if(w<6) doPublish(p,yn(y,"e!"),"data"); else if(w==6){ std::string tp=strf("x%d.msg",x->i); rbusMessage_t m; m.topic=tp.c_str(); m.data=(uint8_t const*)"hello"; m.length=5; OpGuard g("rbusMessage_Send",20*SEC+(routers?60*SEC:0)); p->a()->rbusMessage_Send(p->h,&m,choose(ST_WORK,2)?RBUS_MESSAGE_CONFIRM_RECEIPT:RBUS_MESSAGE_NONE); }
        else if(w==7){ AddRes r=doAddRow(p,xn(x->i,"T."),nullptr); if(r.rc==0) doGet(p,xn(x->i,strf("T.%u.z",r.inst).c_str())); }
        else { std::string n=xn(x->i,choose(ST_WORK,2)?"e!":"v"); if(held.count(n)){ Rc r=n.back()=='!'?doUnsub(p,n):doUnsub(p,n); if(r.rc==0||x->st!=OPEN) held.erase(n); else held.erase(n); } else { Rc r=doSub(p,n,new EvFn([](rbusEvent_t const*,rbusEventSubscription_t*){})); if(r.rc==0) held[n]=nullptr; if(r.rc&&r.rc!=RBUS_ERROR_SUBSCRIPTION_ALREADY_EXIST&&s0==OPEN&&x->st==OPEN&&x->gen==g0&&netGood(t0)) violate(strf("close:sub:%s",en(r.rc)),"subscribing to %s of an open handle failed with %s",n.c_str(),en(r.rc)); } }
        if(choose(ST_WORK,3)) simSleep(chooseRange(ST_WORK,0,pick<i64>(ST_WORK,{5*MS,50*MS,SEC}))); } }
  void run(){ s_t=this; startRouter(); gens=1+choose(ST_CFG,G-1); maxHandler=pick<int>(ST_CFG,{5,40,100}); base=proc("X0"); start(base); for(int i=0;i<nh;i++){ H* x=new H; x->i=i; if(i==0) x->q=base; else { x->q=new Proc; x->q->n=base->n; x->q->comp=strf("X%d",i); } X.push_back(x); } hooksX(); int ny=crashes?2:1; for(int y=0;y<ny;y++){ Y.push_back(proc(strf("Y%d",y))); upSince.push_back(-1); startAndOpen(Y[y]); regY(y); upSince[y]=g_now; }
    std::vector<Fiber*> fs,pf; for(auto x:X) fs.push_back(bg(base,"life",[this,x]{ life(x); })); for(int y=0;y<ny;y++) if(!(crashes&&y==ny-1)) pf.push_back(bg(Y[y],"peer",[this,y]{ peer(y); }));
    if(crashes) pf.push_back(simThread(g_router,"killer",[this,ny]{ int y=ny-1; while(!done){ simSleep(chooseRange(ST_FAULT,1*MS,3*SEC)); if(done) break; upSince[y]=-1; crash(Y[y]); simSleep(chooseRange(ST_FAULT,50*MS,5*SEC)); startAndOpen(Y[y]); regY(y); upSince[y]=g_now+SEC; } }));
    if(routers) pf.push_back(simThread(Y[0]->n,"killer",[this]{ for(int k=0;k<2&&!done;k++){ simSleep(chooseRange(ST_FAULT,1*MS,8*SEC)); if(done) break; routerBad=g_now+10*SEC; stopRouter(); simSleep(chooseRange(ST_FAULT,0,4*SEC)); startRouter(); routerBad=g_now; } }));
    joinAll(fs,"handle lives",4000*SEC); done=true; joinAll(pf,"peers",300*SEC); simSleep(35*SEC); if(base->n->alive==false) violate("close:died","the process died");
    // nothing of the process is left at the router
    call(Y[0],"after",300*SEC,[&]{ for(auto x:X) for(int k=0;k<3;k++) probe(Y[0],x,k); }); g_sh->nontrivial=closes>1&&okX+okY>0; }
};
SCENARIO_W(C17,plain,3){ swarm(); T17 t; t.nh=1+choose(ST_CFG,3); t.run(); }
SCENARIO_W(C17,crash,2){ swarm(); T17 t; t.nh=1+choose(ST_CFG,2); t.crashes=true; t.run(); }
SCENARIO_W(C17,router,1){ swarm(); T17 t; t.nh=1+choose(ST_CFG,2); t.routers=true; t.run(); }
