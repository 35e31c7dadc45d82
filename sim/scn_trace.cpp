// C26 trace contexts: a handler sees the context of the call it serves, nothing else ever does.
#include "world.h"
struct T26 {
  struct Ctx { std::string p,s; bool operator==(const Ctx& o) const { return p==o.p&&s==o.s; } };
  struct Th { std::string tag; Ctx cur; bool calling=false, multi=false; int seen=0; };
  std::vector<Proc*> P,C; std::vector<Th*> T; std::map<std::string,Th*> byTag; u64 checks=0,nctx=0,evs=0; bool events=false;
  static std::string keep(const std::string& s){ return s.size()<511?s:""; }      // longer ones are dropped, as a whole
  Ctx get(Proc* p){ char a[700],b[700]; memset(a,'#',sizeof a); memset(b,'#',sizeof b); int la=pick<int>(ST_WORK,{600,600,600,1,10}),lb=600; rbusError_t rc=p->a()->rbusHandle_GetTraceContextAsString(p->h,a,la,b,lb); if(rc) violate("trace:get","reading the trace context failed with %s",en(rc));
    if(la<600){ std::string head=a; if((int)head.size()>la-1) violate("trace:overrun","a buffer of %d bytes got a trace parent of %zu",la,head.size()); memset(a,'#',sizeof a); p->a()->rbusHandle_GetTraceContextAsString(p->h,a,600,nullptr,0); if(std::string(a).compare(0,head.size(),head)||((int)strlen(a)>la-1&&(int)head.size()<la-1)) violate("trace:prefix","a short buffer got %s of %s",head.c_str(),a); }
    return Ctx{a,b}; }
  void expect(Proc* p,const char* where,const std::string& what,const Ctx& w){ Ctx g=get(p); checks++; if(w.p.size()) nctx++; if(!(g==w)) violate(strf("trace:%s",where),"%s: the trace context is %zu '%.40s' / %zu '%.40s' and not that of its caller, %zu '%.40s' / %zu '%.40s'",what.c_str(),g.p.size(),g.p.c_str(),g.s.size(),g.s.c_str(),w.p.size(),w.p.c_str(),w.s.size(),w.s.c_str()); }
  Th* of(const std::string& nm){ size_t i=nm.find("_"); size_t j=i; while(j<nm.size()&&nm[j]!='('&&nm[j]!='!') j++; auto it=byTag.find(nm.substr(i,j-i)); if(it==byTag.end()) internalError("trace tag in %s",nm.c_str()); return it->second; }
  std::string rnd(){ size_t n=pick<size_t>(ST_WORK,{55,55,0,1,300,509,510,511,512,650}); std::string s; u64 x=nextId++; for(size_t i=0;i<n;i++) s+="0123456789abcdef"[(x*7+i*(1+x%13)+i/16)&15]; return s; }
  u64 nextId=1;
  void set(Proc* p,Ctx* c){ rbusError_t rc; int k=choose(ST_WORK,8); std::string a=rnd(),b=rnd(); if(k==6){ rc=p->a()->rbusHandle_ClearTraceContext(p->h); *c=Ctx(); } else if(k==7){ rc=p->a()->rbusHandle_SetTraceContextFromString(p->h,nullptr,b.c_str()); *c=Ctx{"",keep(b)}; } else if(k==5){ rc=p->a()->rbusHandle_SetTraceContextFromString(p->h,a.c_str(),nullptr); *c=Ctx{keep(a),""}; } else { rc=p->a()->rbusHandle_SetTraceContextFromString(p->h,a.c_str(),b.c_str()); *c=Ctx{keep(a),keep(b)}; }
    if(rc) violate("trace:set","setting the trace context failed with %s",en(rc)); }
  void inHandler(int i,Proc* p,const std::string& nm,int depth){ Th* t=of(nm); if(!t->calling) violate("trace:late","the handler of %s runs while its caller is not calling",nm.c_str()); t->seen++; expect(p,"handler","handler of "+nm,t->cur);
    if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,4*MS));
    if(i+1<(int)P.size()&&depth<2&&choose(ST_WORK,3)==1){ std::string e=strf("Device.P%d.in%s",i+1,t->tag.c_str()); GetRes r=doGet(p,e); if(r.rc) violate(strf("trace:nested:%s",en(r.rc)),"a call from a handler to %s failed with %s",e.c_str(),en(r.rc)); expect(p,"handler-after","handler of "+nm+" after a call of its own",t->cur); }
    if(!t->multi&&choose(ST_WORK,4)==1){ Ctx junk; set(p,&junk); expect(p,"own","handler of "+nm+" after setting a context",junk); } }  // left behind: must not reach what the thread does next
  void regAll(int i){ Proc* p=P[i];
    p->onGet=[this,i,p](const std::string& nm,rbusProperty_t pr,rbusGetHandlerOptions_t*)->rbusError_t{ inHandler(i,p,nm,nm.find(".in_")!=std::string::npos?1:0); setVal(pr,"x"); return RBUS_ERROR_SUCCESS; };
    p->onSet=[this,i,p](const std::string& nm,rbusProperty_t,rbusSetHandlerOptions_t*)->rbusError_t{ inHandler(i,p,nm,0); return RBUS_ERROR_SUCCESS; };
    p->onSub=[this,i,p](rbusEventSubAction_t,const std::string& nm,rbusFilter_t,int32_t,bool*)->rbusError_t{ inHandler(i,p,nm,2); return RBUS_ERROR_SUCCESS; };
    p->onMethod=[this,i,p](const std::string& nm,rbusObject_t,rbusObject_t,rbusMethodAsyncHandle_t ah)->rbusError_t{ inHandler(i,p,nm,0);
      if(nm.find("later")!=std::string::npos){ Api* api=A(); simThread(p->n,"responder",[this,p,ah,api]{ expect(p,"thread","a new thread of a provider",Ctx()); simSleep(chooseRange(ST_WORK,0,20*MS)); rbusObject_t o=mkObj({{"out","s:x"}}); api->rbusMethod_SendAsyncResponse(ah,RBUS_ERROR_SUCCESS,o); api->rbusObject_Release(o); }); return RBUS_ERROR_ASYNC_RESPONSE; }
      return RBUS_ERROR_SUCCESS; };
    std::vector<El> e; for(auto t:T){ const char* g=t->tag.c_str(); e.push_back({strf("Device.P%d.v%s",i,g),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET}); e.push_back({strf("Device.P%d.in%s",i,g),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}); e.push_back({strf("Device.P%d.m%s()",i,g),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); e.push_back({strf("Device.P%d.later%s()",i,g),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); e.push_back({strf("Device.P%d.e%s!",i,g),RBUS_ELEMENT_TYPE_EVENT,CB_SUB}); }
    e.push_back({strf("Device.P%d.bell!",i),RBUS_ELEMENT_TYPE_EVENT,0});
    call(p,"reg",100*SEC,[&]{ rbusError_t rc=reg(p,e); if(rc) violate("setup:reg","registering elements failed: %s",en(rc)); }); }
  void one(Proc* c,Th* t,int i){ std::string b=strf("Device.P%d.",i); const char* g=t->tag.c_str(); t->calling=true; int before=t->seen; rbusError_t rc; const char* w; bool count=true;
    switch(choose(ST_WORK,6)){
      case 1: rc=doSet(c,b+"v"+g,"y").rc; w="set"; break;
      case 2: rc=doMethC_(c,b+"m"+g+"()"); w="method"; break;
      case 3: rc=doMethC_(c,b+"later"+g+"()"); w="later"; break;
      case 4: { static EvFn nop=[](rbusEvent_t const*,rbusEventSubscription_t*){}; rc=doSub(c,b+"e"+g+"!",&nop).rc; w="subscribe"; if(rc==0){ expect(c,"caller","a caller after subscribe",t->cur); rc=doUnsub(c,b+"e"+g+"!").rc; } break; }
      case 5: { t->multi=true; GetExtRes r=doGetExt(c,{b+"v"+g,b+"in"+g}); t->multi=false; rc=r.rc; w="getExt"; break; }
      default: rc=doGet(c,b+"v"+g).rc; w="get"; }
    t->calling=false; if(rc) violate(strf("trace:call:%s:%s",w,en(rc)),"%s failed with %s",w,en(rc)); if(count&&t->seen==before) violate("trace:unserved","%s succeeded without its handler",w);
    expect(c,"caller",strf("a caller after %s",w),t->cur); }
  rbusError_t doMethC_(Proc* c,const std::string& m){ return doMethC(c,m,{{"a","i32:1"}}).rc; }
  void run(){ swarm(); startRouter(); int np=1+choose(ST_CFG,3),nc=1+choose(ST_CFG,3); int nt=1+choose(ST_CFG,3); events=chance(ST_CFG,1,2);
    for(int c=0;c<nc;c++) for(int t=0;t<nt;t++){ Th* x=new Th; x->tag=strf("_%d%c",c,'a'+t); T.push_back(x); byTag[x->tag]=x; }
    for(int i=0;i<np;i++) P.push_back(proc(strf("prov%d",i))); for(int i=0;i<np;i++){ startAndOpen(P[i]); } for(int i=np-1;i>=0;i--) regAll(i);
    for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); }
    // event handlers serve no call: also in a process that serves calls on the same thread
    std::vector<Proc*> L=C; if(np>1) L.push_back(P[0]);
    if(events) for(auto c:L){ EvFn* f=new EvFn([this,c](rbusEvent_t const*,rbusEventSubscription_t*){ evs++; expect(c,"event","an event handler",Ctx()); }); call(c,"sub",60*SEC,[&]{ Rc r=doSub(c,strf("Device.P%d.bell!",np-1),f); if(r.rc) violate("setup:sub","%s",en(r.rc)); }); }
    std::vector<Fiber*> fs; int ops=2+choose(ST_CFG,8); bool done=false;
    for(int c=0;c<nc;c++) for(int t=0;t<nt;t++){ Th* x=T[c*nt+t]; fs.push_back(bg(C[c],"w",[this,c,x,ops,np]{ expect(C[c],"thread","a new thread",Ctx()); for(int k=0;k<ops;k++){ if(choose(ST_WORK,3)!=1) set(C[c],&x->cur); one(C[c],x,choose(ST_WORK,np)); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,3*MS)); } })); }
    Fiber* pf=nullptr; if(events) pf=bg(P[np-1],"ring",[&]{ int k=0; while(!done&&k++<15){ Ctx own; set(P[np-1],&own); Rc r=doPublish(P[np-1],strf("Device.P%d.bell!",np-1),"ding"); if(r.rc) violate("trace:publish","%s",en(r.rc)); simSleep(chooseRange(ST_WORK,0,12*MS)); } });
    joinAll(fs,"workload",300*SEC); done=true; if(pf) joinAll({pf},"ring",60*SEC); g_sh->nontrivial=nctx>0&&checks>3; }
};
SCENARIO_W(C26,calls,1){ T26 t; t.run(); }
