// C14: whatever bytes a client sends the router, the router stays up, sound and of service to the other clients.
#include "world.h"
#include "evsim.h"
struct Hostile {
  Node* n; int id; int fd=-1; Fiber* drain=nullptr; u64 sent=0; std::vector<std::string> mine; std::vector<u32> ids; bool polite=false;
  Hostile(int i):id(i){ n=simSpawn(NK_RAW,strf("raw%d",i),"raw",[this](Node*){ for(;;) blockOn(this,"idle"); }); }
  static void u16(std::string& s,u32 v){ s+=(char)(v>>8); s+=(char)v; } static void u32_(std::string& s,u32 v){ u16(s,v>>16); u16(s,v&0xffff); }
  static std::string frame(const std::string& topic,const std::string& reply,const std::string& pl,u32 flags,u32 seq,u32 ctl){ std::string s; u16(s,0xAAAA); u16(s,2); u16(s,52+topic.size()+reply.size()); u32_(s,seq); u32_(s,flags); u32_(s,ctl); u32_(s,pl.size()); u32_(s,topic.size()); s+=topic; u32_(s,reply.size()); s+=reply; for(int i=0;i<5;i++) u32_(s,0); u16(s,0xAAAA); return s+pl; }
  std::string word(){ switch(choose(ST_WORK,6)){ case 1: return strf("h%u",choose(ST_WORK,4)); case 2: return "{i}"; case 3: return "*"; case 4: return "1"; case 5: return "[a]"; default: return "x"; } }
  // names under the client's own prefix, odd names, and the router's own topics - never the names other clients live on
  std::string name(bool topic){ switch(choose(ST_WORK,topic?14:10)){ case 1: { std::string s=strf("H%d",id); int k=choose(ST_WORK,12); for(int i=0;i<k;i++) s+="."+word(); return s; } case 2: { std::string s="H"; int k=choose(ST_WORK,130); for(int i=0;i<k;i++) s+=".a"; return s; } case 3: { std::string s; int k=choose(ST_WORK,260); for(int i=0;i<k;i++) s+=choose(ST_WORK,9)?'a':'.'; return "Z"+s; } case 4: return ""; case 5: return "."; case 6: return "H..a"; case 7: return strf("rbus.raw%d.INBOX.%u",id,choose(ST_WORK,3)); case 8: return mine.empty()?strf("H%d.x",id):mine[choose(ST_WORK,mine.size())]; case 9: return choose(ST_WORK,2)?"_RTROUTED.INBOX.SUBSCRIBE":"_RTROUTED.ADVISORY"; 
      case 10: return "_RTROUTED.INBOX.SUBSCRIBE"; case 11: return "_RTROUTED."; case 12: return "_RTROUTED.INBOX.HELLO"; case 13: return std::string("H\x01\xff\0z",5); default: return strf("H%d.x",id); } }
  std::string js(const std::string& v){ std::string o="\""; for(char c:v) if((unsigned char)c<32||c=='"'||c=='\\') o+=strf("\\u%04x",(unsigned char)c); else o+=c; return o+"\""; }
  std::string odd(const std::string& good){ switch(choose(ST_WORK,40)){ case 1: return "null"; case 2: return "-1"; case 3: return "1e99"; case 4: return "[]"; case 5: return "{}"; case 6: return "\"\""; case 7: return "2147483648"; default: return good; } }
  std::string obj(const std::vector<std::pair<std::string,std::string>>& kv){ std::string s="{"; bool first=true; for(auto& x:kv){ if(choose(ST_WORK,20)==1) continue; if(!first) s+=","; first=false; s+="\""+x.first+"\":"+odd(x.second); } s+="}"; int m=choose(ST_WORK,20); if(m==1) s=s.substr(0,choose(ST_WORK,s.size())); if(m==2) s=std::string(choose(ST_WORK,2000),'['); if(m==3) s.clear(); if(m==4){ s="{\"a\":\""+std::string((choose(ST_WORK,6)?0:65000),'q')+(choose(ST_WORK,2)?"":"\"}"); } else if(choose(ST_WORK,2)) s+='\0'; return s; }
  std::string names(){ std::string s="["; int k=choose(ST_WORK,6); for(int i=0;i<k;i++){ if(i) s+=","; s+=odd(js(name(false))); } return s+"]"; }
  std::string message(){
    std::string topic,pl; u32 flags=choose(ST_WORK,3)?1:choose(ST_WORK,64); std::string nm=name(false);
    switch(choose(ST_WORK,9)){
      case 1: topic="_RTROUTED.INBOX.QUERY"; pl=obj({{"expression",js(nm)}}); break;
      case 2: topic="_enumerate_elements"; pl=obj({{"expression",js(nm)}}); break;
      case 3: topic="_trace_origin_object"; pl=obj({{"count",strf("%d",(int)choose(ST_WORK,6))},{"items",names()}}); break;
      case 4: topic="_registered_components"; pl=obj({}); break;
      case 5: { static const char* cmds[]={"enableVerboseLogs","disableVerboseLogs","logRoutingStats","logRoutingTopics","logRoutingRoutes","heartbeat","resetBenchmarkData","dumpBenchmarkData","nonsense"}; topic="_RTROUTED.INBOX.DIAG"; pl=obj({{"_RTROUTED.INBOX.DIAG.KEY",js(cmds[choose(ST_WORK,9)])},{"_RTROUTED.INBOX.DIAG.VALUE",js(nm)}}); break; }
      case 6: topic="TransactionTime"; pl=obj({{"T1","1"},{"T2","-2"},{"T5","2147483647"},{"topic",js(nm)},{"reply_topic",js(name(false))}}); break;
      case 7: topic=name(true); pl=std::string(choose(ST_WORK,9)?choose(ST_WORK,300):choose(ST_WORK,80000),'p'); break;
      default: { topic="_RTROUTED.INBOX.SUBSCRIBE"; bool add=choose(ST_WORK,3)!=0; u32 id=choose(ST_WORK,4); if(!add&&!mine.empty()&&choose(ST_WORK,4)){ size_t k=choose(ST_WORK,mine.size()); nm=mine[k]; id=ids[k]; } else if(add){ mine.push_back(nm); ids.push_back(id); } pl=obj({{"add",add?"1":"0"},{"topic",js(nm)},{"route_id",strf("%u",id)}}); } }
    std::string reply=choose(ST_WORK,3)?strf("rbus.raw%d.INBOX.%u",id,choose(ST_WORK,3)):name(true); if(reply.size()>255) reply.resize(255); if(topic.size()>255) topic.resize(255);
    std::string f=frame(topic,reply,pl,flags,choose(ST_WORK,1000),choose(ST_WORK,4));
    switch(choose(ST_FAULT,24)){ // spoil the frame
      case 1: { int k=1+choose(ST_FAULT,4); while(k--){ size_t at=choose(ST_FAULT,std::min<size_t>(f.size(),80)); f[at]=(char)choose(ST_FAULT,256); } break; }
      case 2: f.resize(choose(ST_FAULT,f.size())); break;
      case 3: { static const u32 v[]={0,1,5,6,31,33,51,53,600,65535}; u32 x=v[choose(ST_FAULT,10)]; f[4]=x>>8; f[5]=x; break; }              // header length
      case 4: { static const u32 v[]={0,1,0x7fffffff,0x80000000u,0xffffffffu,0xffffff00u,0x10000,0x7fff0000,0x20000000}; u32 x=v[choose(ST_FAULT,9)]; for(int i=0;i<4;i++) f[18+i]=x>>(24-8*i); break; }  // payload length
      case 5: { static const u32 v[]={0,255,256,300,0xffffffffu}; u32 x=v[choose(ST_FAULT,5)]; for(int i=0;i<4;i++) f[22+i]=x>>(24-8*i); break; }       // topic length
      case 6: { int k=choose(ST_FAULT,200); f.clear(); while(k--) f+=(char)choose(ST_FAULT,256); break; }
      default: return f; }
    fault(F_GARBAGE); return f; }
  bool up(){ fd=rawConnect(n,"unix:/tmp/rtrouted"); if(fd<0) return false; int f=fd; drain=simThread(n,"drain",[f]{ static char b[65536]; while(rawRecv(f,b,sizeof b,-1)>0){} }); return true; }
  void run(int msgs){ for(int k=0;k<msgs;k++){ if(fd<0&&!up()) violate("bytes:no-accept","the router accepts no new client"); 
      std::string f=message(); size_t o=0; while(o<f.size()){ size_t m=f.size()-o; if(choose(ST_NET,3)==1) m=1+choose(ST_NET,std::min<size_t>(m,40)); ssize_t r=rawSend(fd,f.data()+o,m); if(r<=0) break; o+=r; if(choose(ST_NET,4)==1) simSleep(chooseRange(ST_NET,0,20*MS)); }
      sent++; if(choose(ST_FAULT,10)==1||(fd>=0&&rawEof(fd))){ rawClose(fd); fd=-1; mine.clear(); ids.clear(); } else if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,30*MS)); }
    if(fd>=0&&choose(ST_FAULT,2)){ rawClose(fd); fd=-1; } }
};
struct T14 { Proc *P,*C; u64 got=0,pub=0; bool done=false; int nh; std::vector<Hostile*> H; u64 ok=0;
  void check(Rc r,const char* what){ if(r.rc) violate(strf("bytes:%s-failed:%s",what,en(r.rc)),"%s of another client failed with %s",what,en(r.rc)); if(r.dur>2*SEC) violate(strf("bytes:%s-slow",what),"%s of another client took %.2f s",what,r.dur/1e9); ok++; }
  void run(){ startRouter(); P=proc("prov"); C=proc("cons"); startAndOpen(P); startAndOpen(C);
    P->onMethod=[](const std::string&,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t)->rbusError_t{ Api* a=A(); rbusValue_t v=a->rbusObject_GetValue(in,"arg"); a->rbusObject_SetValue(out,"out",v); return RBUS_ERROR_SUCCESS; };
    call(P,"reg",60*SEC,[&]{ if(reg(P,{{"Device.P.v",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{"Device.P.m()",RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{"Device.P.e!",RBUS_ELEMENT_TYPE_EVENT,CB_SUB}})) violate("setup:reg","registering elements failed"); });
    call(C,"sub",60*SEC,[&]{ Rc r=doSub(C,"Device.P.e!",new EvFn([this](rbusEvent_t const* e,rbusEventSubscription_t*){ std::string v=evStr(e); if(v!=strf("e%llu",(unsigned long long)got)) violate("bytes:event-wrong","got event '%s' instead of e%llu",v.c_str(),(unsigned long long)got); got++; }),0); if(r.rc) violate("setup:sub","subscribe failed"); });
    nh=1+choose(ST_CFG,3); int msgs=4+choose(ST_CFG,24); std::vector<Fiber*> fs; for(int i=0;i<nh;i++){ H.push_back(new Hostile(i)); fs.push_back(simThread(H[i]->n,"hostile",[this,i,msgs]{ H[i]->run(msgs); })); }
    Fiber* fc=bg(C,"use",[this]{ u64 k=0; while(!done){ std::string v=strf("v%llu",(unsigned long long)k++); check(doSet(C,"Device.P.v",v),"set"); GetRes g=doGet(C,"Device.P.v"); check({g.rc,g.dur},"get"); if(g.val!=v) violate("bytes:wrong-value","get returned %.40s after setting %s",g.val.c_str(),v.c_str()); MethRes m=doMethod(C,"Device.P.m()",v); check({m.rc,m.dur},"method"); if(m.out.find(v)==std::string::npos) violate("bytes:wrong-result","method returned %.40s for %s",m.out.c_str(),v.c_str()); if(!g_router->alive) violate("bytes:router-ended","the router ended (exit code %d)",g_router->exitCode); simSleep(chooseRange(ST_WORK,3*MS,30*MS)); } });
    Fiber* fp=bg(P,"pub",[this]{ while(!done){ if(pub-got<10){ check(doPublish(P,"Device.P.e!",strf("e%llu",(unsigned long long)pub++)),"publish"); } simSleep(chooseRange(ST_WORK,1*MS,20*MS)); } });
    joinAll(fs,"hostile clients",600*SEC); simSleep(500*MS); done=true; joinAll({fc,fp},"other clients",60*SEC); simSleep(3*SEC); if(got!=pub) violate("bytes:event-lost","%llu of %llu events arrived",(unsigned long long)got,(unsigned long long)pub);
    // newcomers are served too
    Proc* N=proc("late"); startAndOpen(N); call(N,"late",60*SEC,[&]{ if(reg(N,{{"Device.N.v",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}})) violate("bytes:reg-failed","a new provider cannot register"); }); call(C,"late",60*SEC,[&]{ GetRes g=doGet(C,"Device.N.v"); check({g.rc,g.dur},"get"); });
    if(!g_router->alive) violate("bytes:router-ended","the router ended"); g_sh->nontrivial=ok>10; }
};
SCENARIO(C14,frames){ swarm(false,false); K.maxSteps=8000000; K.busyLimit=3000000; T14 t; t.run(); }
