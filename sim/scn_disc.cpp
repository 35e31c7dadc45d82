// C25 discovery and listing tell the truth: what was there throughout the query is reported, what was absent throughout is not.
#include "world.h"
struct T25; static T25* g25; static rbusError_t sync25(rbusHandle_t,char const*);
struct T25 {
  static constexpr u64 INF=~0ULL; typedef std::vector<std::string> Segs;
  struct Rec { int p; std::string key; int type; u32 acc; u64 s0,s1=INF,u0=INF,u1=INF; bool may(u64 s,u64 e) const { return s0<e&&u1>s; } bool sure(u64 s,u64 e) const { return s1<s&&u0>e; } };   // what the router knows; in the provider's own tree an element stays until it closes
  struct Life { u64 s0,s1=INF,u0=INF,u1=INF; };                       // of a provider: its tree goes with it
  struct Row { int p; std::string tbl; uint32_t inst; std::string alias; Row* par; Life l; bool sub; bool may(u64 s,u64 e) const { return l.s0<e&&l.u1>s&&(!par||par->may(s,e)); } bool sure(u64 s,u64 e) const { return l.s1<s&&l.u0>e&&(!par||par->sure(s,e)); } std::string key() const { return tbl+"."+std::to_string(inst); } };
  struct It { int p; std::string key; int type; u32 acc; bool sure,may; };
  struct Sync { u64 t; std::set<uint32_t> rows; };
  std::vector<Proc*> P,C; std::vector<Rec*> R; std::vector<Row*> W; std::vector<std::vector<Life>> tree; std::vector<std::vector<Sync>> syncs; std::vector<std::set<uint32_t>> cur; std::vector<std::vector<El>> stable,churn; std::vector<bool> dyn; std::map<int,uint32_t> top;
  u64 clk=1,queries=0,items=0,changes=0; int np=1,nc=1,nalias=0; bool crashes=false, burst=false; int active=0; void rest(i64 t){ if(burst&&choose(ST_WORK,8)){ if(!active) blockOn(&active,"lull",g_now+20*MS); simSleep(choose(ST_WORK,3)==1?0:chooseRange(ST_WORK,0,pick<i64>(ST_WORK,{300*US,60*US,20*US}))); } else simSleep(chooseRange(ST_WORK,0,t)); } std::vector<std::vector<std::pair<u64,u64>>> down; bool done=false; int delay=0;
  static Segs split(const std::string& k){ Segs v; size_t i=0; while(i<k.size()){ size_t d=k.find('.',i); if(d==std::string::npos) d=k.size(); v.push_back(k.substr(i,d-i)); i=d+1; } return v; }
  static std::string strip(std::string n){ if(!n.empty()&&n.back()=='.') n.pop_back(); return n; }
  static bool under(const std::string& k,const std::string& b){ return k==b||(k.size()>b.size()&&k.compare(0,b.size(),b)==0&&k[b.size()]=='.'); }
  static std::string tmpl(const std::string& k){ std::string r; for(auto& s:split(k)){ if(!r.empty()) r+="."; r+=isdigit(s[0])||s[0]=='['?"{i}":s; } return r; }
  static u32 acc(int cb){ return (cb&CB_GET?1:0)|(cb&CB_SET?2:0)|(cb&CB_ADD?4:0)|(cb&CB_DEL?8:0)|(cb&CB_SUB?16:0)|(cb&CB_METHOD?32:0); }
  bool wasDown(int p,u64 s,u64 e){ for(auto& d:down[p]) if(d.first<e&&d.second>s) return true; return false; }
  bool anyDown(u64 s,u64 e){ for(int p=0;p<np;p++) if(wasDown(p,s,e)) return true; return false; }
  // everything that is, or may be, in the provider's element tree
  std::vector<It> content(int p,u64 s,u64 e){ std::map<std::string,It> m; auto put=[&](const std::string& k,int type,u32 a,bool sure,bool may){ if(!may) return; auto i=m.find(k); if(i==m.end()) m[k]={p,k,type,a,sure,may}; else { if(type||a){ i->second.type=type; i->second.acc=a; } i->second.sure|=sure; } };
    auto path=[&](const std::string& k,bool sure,bool may){ std::string a; for(auto& x:split(k)){ if(!a.empty()) put(a,0,0,sure,may); a+=(a.empty()?"":".")+x; } };
    for(auto r:R) if(r->p==p&&r->key.find('{')==std::string::npos){ bool may=false,sure=r->s1<s; for(auto& t:tree[p]) if(t.s0<r->s0&&t.u0>r->s0){ may=r->s0<e&&t.u1>s; if(t.u0<=e) sure=false; } put(r->key,r->type,r->acc,sure,may); path(r->key,sure,may); }
    // tables carry their key without the template
    for(auto r:R) if(r->p==p&&r->type==RBUS_ELEMENT_TYPE_TABLE){ std::string k=r->key.substr(0,r->key.size()-4); if(k.find('{')!=std::string::npos) continue; bool may=false,sure=r->s1<s; for(auto& t:tree[p]) if(t.s0<r->s0&&t.u0>r->s0){ may=r->s0<e&&t.u1>s; if(t.u0<=e) sure=false; } put(k,r->type,r->acc,sure,may); path(k,sure,may); }
    for(auto w:W) if(w->p==p){ bool su=w->sure(s,e),ma=w->may(s,e); std::string k=w->key(); put(k,0,3,su,ma); if(w->par) put(k+".w",RBUS_ELEMENT_TYPE_PROPERTY,1,su,ma); else { put(k+".v",RBUS_ELEMENT_TYPE_PROPERTY,3,su,ma); put(k+".U",RBUS_ELEMENT_TYPE_TABLE,12,su,ma); put(k+".go()",RBUS_ELEMENT_TYPE_METHOD,32,su,ma); } }
    std::vector<It> v; for(auto& x:m) v.push_back(x.second); return v; }
  void addRec(int p,const El& e,u64 s0){ R.push_back(new Rec{p,strip(e.name),e.type,acc(e.cb),s0}); }
  rbusError_t sync(int p){ if(delay) simSleep(chooseRange(ST_WORK,0,delay)*MS); Api* a=A(); std::set<uint32_t> want=cur[p]; int n=choose(ST_WORK,3); for(int k=0;k<n;k++){ uint32_t i=1+choose(ST_WORK,6); if(!want.erase(i)) want.insert(i); }
    std::string t=strf("Device.D%d.S.",p); for(uint32_t i=1;i<=6;i++) if(want.count(i)!=cur[p].count(i)){ rbusError_t rc; if(want.count(i)) rc=a->rbusTable_registerRow(P[p]->h,t.c_str(),i,nullptr); else rc=a->rbusTable_unregisterRow(P[p]->h,(t+std::to_string(i)).c_str()); if(rc) violate(strf("disc:sync:%s",en(rc)),"%sregistering row %u of %s in its sync handler failed with %s",want.count(i)?"":"un",i,t.c_str(),en(rc)); changes++; }
    cur[p]=want; syncs[p].push_back({clk++,want}); return RBUS_ERROR_SUCCESS; }
  void checkSync(int p,const std::set<uint32_t>& got,u64 s,u64 e,const std::string& what){ for(auto& x:syncs[p]) if(x.t>s&&x.t<e&&x.rows==got) return; std::string g; for(auto i:got) g+=strf("%u ",i); violate("disc:sync-stale","%s of %s returned the rows %s, which no sync during the query had left",what.c_str(),P[p]->comp.c_str(),g.c_str()); }
  // a wildcard get resolves, and so syncs, each row in turn
  void checkSyncs(int p,const std::set<uint32_t>& got,u64 s,u64 e){ std::set<uint32_t> any,all; bool first=true; for(auto& x:syncs[p]) if(x.t>s&&x.t<e){ any.insert(x.rows.begin(),x.rows.end()); if(first) all=x.rows; else for(auto i=all.begin();i!=all.end();) if(!x.rows.count(*i)) i=all.erase(i); else ++i; first=false; } for(auto i:got) if(!any.count(i)) violate("disc:sync-stale","a wildcard get of %s returned row %u, which no sync during the query had left",P[p]->comp.c_str(),i); for(auto i:all) if(!got.count(i)) violate("disc:sync-missing","a wildcard get of %s did not return row %u, which every sync had left",P[p]->comp.c_str(),i); }
  bool stayed(int p,uint32_t i,u64 s,u64 e){ for(auto& x:syncs[p]) if(x.t>s&&x.t<e&&!x.rows.count(i)) return false; return true; }   // a row removed and made again during the get may come twice
  void setup(int i){ auto& st=stable[i]; auto& ch=churn[i]; auto nm=[&](const char* f){ return strf(f,i); }; auto cb=[&](int a,int b,int c){ int r=0; for(int x:{a,b,c}) if(x&&choose(ST_CFG,3)!=1) r|=x; return r?r:a; };
    st={{nm("Device.D%d.A.x"),RBUS_ELEMENT_TYPE_PROPERTY,cb(CB_GET,CB_SET,CB_SUB)},{nm("Device.D%d.A.B.y"),RBUS_ELEMENT_TYPE_PROPERTY,cb(CB_SET,CB_GET,0)},{nm("Device.D%d.A.m()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{nm("Device.D%d.A.e!"),RBUS_ELEMENT_TYPE_EVENT,choose(ST_CFG,2)?0:CB_SUB},{nm("Device.D%d.T.{i}."),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{nm("Device.D%d.T.{i}.v"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{nm("Device.D%d.T.{i}.go()"),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{nm("Device.D%d.T.{i}.U.{i}."),RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{nm("Device.D%d.T.{i}.U.{i}.w"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET},{nm("Device.Shared.p%d"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET},{nm("Device.Shared.In.q%d!"),RBUS_ELEMENT_TYPE_EVENT,CB_SUB}};
    for(int k=0;k<3;k++) ch.push_back({strf("Device.D%d.A.c%d",i,k),RBUS_ELEMENT_TYPE_PROPERTY,cb(CB_GET,CB_SET,0)}); for(int k=0;k<2;k++) ch.push_back({strf("Device.Shared.c%d_%d",i,k),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}); ch.push_back({strf("Device.Opt.c%d",i),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}); ch.push_back({strf("Device.D%d.N.z",i),RBUS_ELEMENT_TYPE_EVENT,CB_SUB});
    if(dyn[i]){ st.push_back({nm("Device.D%d.S.{i}."),RBUS_ELEMENT_TYPE_TABLE,0}); st.push_back({nm("Device.D%d.S.{i}.k"),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET}); }
    Proc* p=P[i]; p->onGet=[](const std::string&,rbusProperty_t pr,rbusGetHandlerOptions_t*)->rbusError_t{ setVal(pr,"x"); return RBUS_ERROR_SUCCESS; };
    p->onAddRow=[this,i](const std::string& t,const char* al,uint32_t* inst)->rbusError_t{ Row* w=new Row; w->p=i; w->tbl=strip(t); w->inst=*inst=++top[i]; w->alias=al?al:""; w->par=nullptr; w->l.s0=clk++; w->sub=false; if(wasDownNow(i)) w->l.u0=w->l.u1=clk; W.push_back(w); changes++; if(delay) simSleep(chooseRange(ST_WORK,0,delay)*MS); return RBUS_ERROR_SUCCESS; };
    p->onRemoveRow=[this](const std::string&)->rbusError_t{ changes++; if(delay) simSleep(chooseRange(ST_WORK,0,delay)*MS); return RBUS_ERROR_SUCCESS; }; }
  bool wasDownNow(int){ return false; }
  void regAll(int i){ Proc* p=P[i]; Life l; l.s0=clk++; tree[i].push_back(l); u64 s0=clk++; size_t n=R.size(); for(auto& e:stable[i]) addRec(i,e,s0); cur[i].clear();
    call(p,"reg",100*SEC,[&]{ rbusError_t rc=reg(p,stable[i]); if(rc) violate("setup:reg","registering elements failed: %s",en(rc)); if(dyn[i]){ rc=p->a()->rbus_registerDynamicTableSyncHandler(p->h,strf("Device.D%d.S.",i).c_str(),sync25); if(rc) violate("setup:sync","%s",en(rc)); } });
    u64 s1=clk++; for(size_t k=n;k<R.size();k++) if(R[k]->p==i&&R[k]->s0==s0) R[k]->s1=s1; }
  void flush(Proc* p){ int k=0; char** o=nullptr; const char* n="Device.none"; p->a()->rbus_discoverComponentName(p->h,1,&n,&k,&o); if(k||o) violate("disc:unknown","a component owns Device.none"); }
  // a provider's own threads: registrations come and go, rows too
  void churner(int i,int gen){ Proc* p=P[i]; std::vector<Rec*> in(churn[i].size(),nullptr); 
    for(int k=0;k<(burst?60:30)&&!done;k++){ rest(10*MS); int w=choose(ST_WORK,churn[i].size()); El& e=churn[i][w]; (void)gen;
      if(!in[w]){ u64 s0=clk++; addRec(i,e,s0); Rec* r=R.back(); rbusError_t rc=reg(p,{e}); if(rc) violate(strf("disc:register:%s",en(rc)),"registering %s failed with %s",e.name.c_str(),en(rc)); r->s1=clk++; in[w]=r; }
      else { Rec* r=in[w]; r->u0=std::min(r->u0,clk++); rbusError_t rc=unreg(p,{e}); if(rc) violate(strf("disc:unregister:%s",en(rc)),"unregistering %s failed with %s",e.name.c_str(),en(rc)); flush(p); r->u1=std::min(r->u1,clk++); in[w]=nullptr; }
      changes++; } }
  void ownRows(int i,int th){ Proc* p=P[i]; std::vector<Row*> mine; std::set<uint32_t> used; uint32_t base=1000*(th+1);
    for(int k=0;k<(burst?200:40)&&!done;k++){ rest(6*MS); std::vector<Row*> live; for(auto w:mine) if(w->l.u0==INF) live.push_back(w); bool sub=!live.empty()&&choose(ST_WORK,3)==1;
      if(live.size()<2||choose(ST_WORK,2)==0){ Row* par=nullptr; if(sub) for(auto w:live) if(!w->par) par=w; Row* w=new Row; w->p=i; w->par=par; w->tbl=par?par->key()+".U":strf("Device.D%d.T",i); do w->inst=base+choose(ST_WORK,20); while([&]{ for(auto x:live) if(x->tbl==w->tbl&&x->inst==w->inst) return true; return false; }()); w->alias=choose(ST_WORK,3)==1?strf("own%d",nalias++):""; w->l.s0=clk++; W.push_back(w); mine.push_back(w); rbusError_t rc=p->a()->rbusTable_registerRow(p->h,(w->tbl+".").c_str(),w->inst,w->alias.empty()?nullptr:w->alias.c_str()); if(rc) violate(strf("disc:register-row:%s",en(rc)),"registering row %s failed with %s",w->key().c_str(),en(rc)); w->l.s1=clk++; }
      else { Row* w=live[choose(ST_WORK,live.size())]; w->l.u0=std::min(w->l.u0,clk++); for(auto x:live) if(x->par==w) x->l.u0=std::min(x->l.u0,clk); rbusError_t rc=p->a()->rbusTable_unregisterRow(p->h,w->key().c_str()); if(rc) violate(strf("disc:unregister-row:%s",en(rc)),"unregistering row %s failed with %s",w->key().c_str(),en(rc)); w->l.u1=std::min(w->l.u1,clk++); }
      changes++; } }
  void consRow(Proc* c,std::vector<Row*>& mine){ int p=choose(ST_WORK,np); std::vector<Row*> live; for(auto w:mine) if(w->l.u0==INF) live.push_back(w);
    if(live.size()<2||choose(ST_WORK,2)==0){ std::string t=strf("Device.D%d.T.",p),al=choose(ST_WORK,2)?strf("al%d",nalias++):""; u64 s=clk++; AddRes r=doAddRow(c,t,al.empty()?nullptr:al.c_str()); u64 e=clk++; if(r.rc){ if(!wasDown(p,s,e)) violate(strf("disc:add:%s",en(r.rc)),"adding a row to %s failed with %s",t.c_str(),en(r.rc)); return; } for(auto w:W) if(w->p==p&&!w->par&&w->inst==r.inst&&w->alias==al&&w->l.s0>s&&w->l.s0<e){ w->l.s1=e; mine.push_back(w); } }
    else { Row* w=live[choose(ST_WORK,live.size())]; w->l.u0=std::min(w->l.u0,clk++); u64 s=clk; Rc r=doRemoveRow(c,w->key()+(choose(ST_WORK,2)?".":"")); u64 e=clk++; if(r.rc==0) w->l.u1=std::min(w->l.u1,e); else if(!wasDown(w->p,s,e)&&w->l.u1==INF) violate(strf("disc:remove:%s",en(r.rc)),"removing row %s failed with %s",w->key().c_str(),en(r.rc)); } }
  Row* pickRow(){ if(W.empty()) return nullptr; for(int k=0;k<4;k++){ Row* w=W[W.size()-1-choose(ST_WORK,std::min<size_t>(W.size(),12))]; if(w->l.u0==INF||choose(ST_WORK,4)==1) return w; } return W.back(); }
  std::string rowName(Row* w){ auto n=[&](Row* x){ return !x->alias.empty()&&choose(ST_WORK,3)==1?"["+x->alias+"]":std::to_string(x->inst); }; return w->par?w->par->tbl+"."+n(w->par)+".U."+n(w):w->tbl+"."+n(w); }
  // keys of provider trees a name may denote
  std::set<std::string> denotes(const std::string& n){ std::set<std::string> cur_{""}; for(auto& x:split(n)){ std::set<std::string> nx; for(auto& c:cur_){ if(x[0]=='['){ for(auto w:W) if(w->tbl==c&&"["+w->alias+"]"==x) nx.insert(w->key()); } else nx.insert(c.empty()?x:c+"."+x); } cur_=nx; } return cur_; }
  // an alias in the name may have belonged to an earlier row of the same number
  bool ambiguous(const std::string& n){ size_t i=n.find('['); if(i==std::string::npos) return false; std::string al=n.substr(i+1,n.find(']')-i-1); for(auto w:W) if(w->alias==al) for(auto x:W) if(x!=w&&x->key()==w->key()&&x->alias!=al) return true; return n.find('[',i+1)!=std::string::npos&&ambiguous(n.substr(i+1)); }
  void qNames(Proc* c){ struct N { std::string name; bool partial; }; std::vector<N> ns; int k=1+choose(ST_WORK,4); for(int i=0;i<k;i++){ int p=choose(ST_WORK,np); switch(choose(ST_WORK,7)){ case 1: ns.push_back({"Device.Shared.",true}); break; case 2: ns.push_back({churn[p][choose(ST_WORK,churn[p].size())].name,false}); break; case 3: ns.push_back({strf("Device.none%d",choose(ST_WORK,3)),false}); break; case 4: ns.push_back({pick<std::string>(ST_WORK,{"Device.Opt.","Device.",strf("Device.D%d.N.",p),strf("Device.D%d.A.",p),"Device.Shared.In."}),true}); break; case 5: { Row* w=pickRow(); if(w) ns.push_back({rowName(w)+(w->par?".w":".v"),false}); else ns.push_back({strf("Device.D%d.T.4.v",p),false}); break; } default: { El& e=stable[p][choose(ST_WORK,4)]; ns.push_back({e.name,false}); } } }
    std::vector<const char*> v; for(auto& n:ns) v.push_back(n.name.c_str()); int cnt=-1; char** out=nullptr; rbusError_t rc; u64 s=clk++; { OpGuard g("rbus_discoverComponentName",DEF_BOUND); rc=c->a()->rbus_discoverComponentName(c->h,v.size(),v.data(),&cnt,&out); } u64 e=clk++; queries++; std::vector<std::string> got; for(int i=0;i<cnt;i++){ got.push_back(out[i]); free(out[i]); } free(out); std::string all,gs; for(auto& n:ns) all+=n.name+" "; for(auto& g:got) gs+=g+" "; logev("components of %s-> %s: %s",all.c_str(),en(rc),gs.c_str());
    if(rc) violate(strf("disc:names:%s",en(rc)),"discovering the components of %s failed with %s",all.c_str(),en(rc));
    // the answer is the owners of each name in turn
    std::set<size_t> pos{0}; for(auto& n:ns){ std::string key=tmpl(strip(n.name)); std::set<std::string> sure,may; for(auto r:R) if(n.partial?under(r->key,key)&&r->key!=key:r->key==key){ if(r->sure(s,e)) sure.insert(P[r->p]->comp); if(r->may(s,e)) may.insert(P[r->p]->comp); }
      std::set<size_t> nx; for(size_t a:pos) for(size_t b=a;b<=got.size();b++){ std::set<std::string> seg(got.begin()+a,got.begin()+b); if(seg.size()!=b-a) break; bool ok=true; for(auto& x:seg) if(!may.count(x)) ok=false; if(!ok) break; for(auto& x:sure) if(!seg.count(x)) ok=false; if(ok) nx.insert(b); if(!n.partial&&b>a) break; }
      pos=nx; if(pos.empty()) violate(ns.size()>1?"disc:names-multi":"disc:names-wrong","discovering the components of %sreturned %s, wrong from %s on",all.c_str(),gs.c_str(),n.name.c_str()); }
    if(!pos.count(got.size())) violate(ns.size()>1?"disc:names-multi":"disc:names-wrong","discovering the components of %sreturned %s, which is more than there are",all.c_str(),gs.c_str()); }
  void qElements(Proc* c){ int p=choose(ST_WORK,np+1); std::string comp=p<np?P[p]->comp:pick<std::string>(ST_WORK,{"nobody","prov","prov01","cons"}); int cnt=-1; char** out=nullptr; rbusError_t rc; u64 s=clk++; { OpGuard g("rbus_discoverComponentDataElements",DEF_BOUND); rc=c->a()->rbus_discoverComponentDataElements(c->h,comp.c_str(),choose(ST_WORK,2),&cnt,&out); } u64 e=clk++; queries++; std::multiset<std::string> got; for(int i=0;i<cnt;i++){ got.insert(strip(out[i])); free(out[i]); } free(out); logev("elements of %s -> %s %d",comp.c_str(),en(rc),cnt);
    if(rc) violate(strf("disc:elements:%s",en(rc)),"discovering the elements of %s failed with %s",comp.c_str(),en(rc)); std::map<std::string,std::pair<bool,bool>> want; if(p<np){ bool up=true,was=false; if(wasDown(p,s,e)) up=false; for(auto& t:tree[p]) if(t.s0<e&&t.u1>s) was=true; want[comp]={up,was}; for(auto r:R) if(r->p==p){ auto& x=want[r->key]; x.first|=r->sure(s,e); x.second|=r->may(s,e); } }
    for(auto& g:got){ items++; if(got.count(g)>1) violate("disc:elements-twice","the elements of %s include %s %zu times",comp.c_str(),g.c_str(),got.count(g)); auto i=want.find(g); if(i==want.end()||!i->second.second) violate("disc:elements-extra","the elements of %s include %s, which it does not provide",comp.c_str(),g.c_str()); }
    for(auto& x:want) if(x.second.first&&!got.count(x.first)) violate("disc:elements-missing","the elements of %s lack %s",comp.c_str(),x.first.c_str()); }
  void qInfo(Proc* c){ int p=choose(ST_WORK,np); std::string base; switch(choose(ST_WORK,9)){ case 1: base="Device.Shared."; break; case 2: base="Device."; break; case 3: case 4: { Row* w=pickRow(); base=w?rowName(w):strf("Device.D%d.T.",p); if(w&&choose(ST_WORK,3)==1) base+=w->par?".w":".v"; else base+="."; break; } case 5: base=strf("Device.D%d.T.",p); break; case 6: base=stable[p][choose(ST_WORK,4)].name; break; case 7: base=pick<std::string>(ST_WORK,{"Device.Opt.",strf("Device.D%d.N.",p),churn[p][choose(ST_WORK,churn[p].size())].name,"Device.none"}); break; case 8: if(dyn[p]){ base=strf("Device.D%d.S.",p); break; } /* fall through */ default: base=strf("Device.D%d.",p); }
    int d=pick<int>(ST_WORK,{16,-1,1,0,2,-2,3,-3,16,-16}); rbusElementInfo_t* l=nullptr; rbusError_t rc; u64 s=clk++; { OpGuard g("rbusElementInfo_get",DEF_BOUND); rc=c->a()->rbusElementInfo_get(c->h,base.c_str(),d,&l); } u64 e=clk++; queries++;
    std::map<std::pair<std::string,std::string>,rbusElementInfo_t*> got; int n=0; for(auto x=l;x;x=x->next){ n++; if(!got.insert({{x->component,strip(x->name)},x}).second) violate("disc:info-twice","%s of %s is listed twice under %s (depth %d)",x->name,x->component,base.c_str(),d); std::string k=strip(x->name); bool dot=k!=x->name; if(dot!=(x->type==0||x->type==RBUS_ELEMENT_TYPE_TABLE)) violate("disc:info-name","%s of type %d is listed so under %s",x->name,x->type,base.c_str()); }
    logev("info of %s depth %d -> %s %d",base.c_str(),d,en(rc),n);
    std::set<std::string> keys=denotes(strip(base)); bool clear=keys.size()==1&&!ambiguous(base); bool rowish=base.find(".T.")!=std::string::npos&&tmpl(base)!=base; bool sureBase=false,mayBase=false,crashed=anyDown(s,e);
    for(int q=0;q<np;q++){ bool dest=false; { std::string t=tmpl(strip(base)); for(auto r:R) if(r->p==q&&under(r->key,t)&&r->sure(s,e)) dest=true; } std::vector<It> all=content(q,s,e); std::map<std::string,It*> m; for(auto& x:all) m[x.key]=&x; bool dynHere=false;
      for(auto& b:keys) if(m.count(b)){ mayBase=true; if(m[b]->sure&&dest&&clear) sureBase=true; size_t bs=split(b).size(); auto at=[&](const std::string& k){ int rel=(int)split(k).size()-(int)bs; return under(k,b)&&(d>=0?rel<=d:rel==-d); };
          // an alias names one of several rows in the course of time: only what is the only candidate is due
          if(dest&&m[b]->sure&&clear) for(auto& x:all) if(x.sure&&at(x.key)&&!got.count({P[q]->comp,x.key})) violate("disc:info-missing","%s of %s is not listed under %s (depth %d)",x.key.c_str(),P[q]->comp.c_str(),base.c_str(),d); }
      if(dyn[q]&&!crashed){ std::string S=strf("Device.D%d.S",q); for(auto& b:keys) if(under(S,b)&&dest){ int rel=2+(int)split(S).size()-1-(int)split(b).size(); (void)rel; int rr=(int)split(S).size()+1-(int)split(b).size(); if(d>=0?rr<=d:rr==-d) dynHere=true; } if(dynHere&&sureBase){ std::set<uint32_t> rows; for(auto& g:got) if(g.first.first==P[q]->comp&&under(g.first.second,S)&&split(g.first.second).size()==split(S).size()+1) rows.insert(atoi(g.first.second.c_str()+S.size()+1)); checkSync(q,rows,s,e,"listing "+base); } }
      for(auto& g:got) if(g.first.first==P[q]->comp){ items++; const std::string& k=g.first.second; auto i=m.find(k); bool isDyn=dyn[q]&&under(k,strf("Device.D%d.S",q))&&k!=strf("Device.D%d.S",q); if(isDyn){ if(split(k).size()==4?(g.second->type!=0||g.second->access!=3):(g.second->type!=RBUS_ELEMENT_TYPE_PROPERTY||g.second->access!=1)) violate("disc:info-access","%s is listed with type %d access %u",k.c_str(),g.second->type,g.second->access); continue; }
        if(i==m.end()) violate("disc:info-extra","%s of %s is listed under %s although there is no such element",k.c_str(),P[q]->comp.c_str(),base.c_str());
        bool fits=false; for(auto& b:keys){ int rel=(int)split(k).size()-(int)split(b).size(); if(under(k,b)&&(d>=0?rel<=d:rel==-d)) fits=true; } if(!fits) violate("disc:info-depth","%s is listed under %s depth %d",k.c_str(),base.c_str(),d);
        if(g.second->type!=i->second->type||g.second->access!=i->second->acc) violate("disc:info-access","%s is listed with type %d access %u, it is of type %d and access %u",k.c_str(),g.second->type,g.second->access,i->second->type,i->second->acc); } }
    for(auto& g:got){ bool known=false; for(auto q:P) if(q->comp==g.first.first) known=true; if(!known) violate("disc:info-component","%s is listed as provided by %s",g.first.second.c_str(),g.first.first.c_str()); }
    (void)rowish; if(rc&&!crashed&&sureBase) violate(strf("disc:info:%s",en(rc)),"listing %s failed with %s",base.c_str(),en(rc)); if(rc&&!crashed&&!notFoundRc(rc)) violate(strf("disc:info:%s",en(rc)),"listing %s failed with %s",base.c_str(),en(rc)); (void)mayBase;
    c->a()->rbusElementInfo_free(c->h,l); }
  void qRows(Proc* c){ int p=choose(ST_WORK,np); Row* w=choose(ST_WORK,3)==1?pickRow():nullptr; if(w&&w->par) w=w->par; bool s25=dyn[p]&&choose(ST_WORK,2); if(s25) w=nullptr; std::string t=w?rowName(w)+".U.":s25?strf("Device.D%d.S.",p):strf("Device.D%d.T.",p); if(w) p=w->p; rbusRowName_t* l=nullptr; rbusError_t rc; u64 s=clk++; { OpGuard g("rbusTable_getRowNames",DEF_BOUND); rc=c->a()->rbusTable_getRowNames(c->h,t.c_str(),&l); } u64 e=clk++; queries++; std::map<uint32_t,std::string> got; 
    for(auto x=l;x;x=x->next){ items++; if(!got.insert({x->instNum,x->alias?x->alias:""}).second) violate("disc:rows-twice","the rows of %s include %u twice",t.c_str(),x->instNum); if(t+std::to_string(x->instNum)+"."!=x->name) violate("disc:rows-name","row %u of %s is called %s",x->instNum,t.c_str(),x->name); }
    c->a()->rbusTable_freeRowNames(c->h,l); logev("rows of %s -> %s %zu",t.c_str(),en(rc),got.size()); bool crashed=wasDown(p,s,e);
    std::set<std::string> keys=denotes(strip(t)); bool sureT=!w||(w->sure(s,e)&&!ambiguous(t));
    if(rc){ if(!crashed&&(sureT||!notFoundRc(rc))) violate(strf("disc:rows:%s",en(rc)),"listing the rows of %s failed with %s",t.c_str(),en(rc)); return; }
    if(s25){ std::set<uint32_t> g; for(auto& x:got) g.insert(x.first); if(!crashed) checkSync(p,g,s,e,"listing rows"); return; }
    for(auto& x:got){ bool ok=false; for(auto r:W) if(r->p==p&&r->inst==x.first&&r->alias==x.second&&keys.count(r->tbl)&&r->may(s,e)) ok=true; if(!ok) violate("disc:rows-extra","the rows of %s include %u (alias '%s'), which is no row of it",t.c_str(),x.first,x.second.c_str()); }
    if(keys.size()==1&&!ambiguous(t)) for(auto r:W) if(r->p==p&&keys.count(r->tbl)&&r->sure(s,e)){ auto i=got.find(r->inst); if(i==got.end()||i->second!=r->alias) violate("disc:rows-missing","the rows of %s lack %u",t.c_str(),r->inst); } }
  void qWild(Proc* c){ int p=choose(ST_WORK,np); if(!dyn[p]) return; u64 s=clk++; GetExtRes r=doGetExt(c,{strf("Device.D%d.S.*.k",p)}); u64 e=clk++; if(wasDown(p,s,e)) return; std::set<uint32_t> g; for(auto& x:r.vals){ uint32_t i=0; if(sscanf(x.first.c_str()+strlen("Device.D0.S."),"%u.k",&i)!=1) violate("disc:wild","a wildcard get returned %s",x.first.c_str()); if(!g.insert(i).second&&stayed(p,i,s,e)) violate("disc:wild-twice","a wildcard get returned %s twice",x.first.c_str()); } if(r.rc&&!g.empty()) violate("disc:wild","a wildcard get failed with %s and values",en(r.rc)); if(r.rc==0||r.rc==RBUS_ERROR_ELEMENT_DOES_NOT_EXIST) checkSyncs(p,g,s,e); else violate(strf("disc:wild:%s",en(r.rc)),"a wildcard get failed with %s",en(r.rc)); }
  void query(Proc* c){ active++; wakeAll(&active); query_(c); active--; }
  void query_(Proc* c){ switch(choose(ST_WORK,8)){ case 0: case 1: case 2: qInfo(c); break; case 3: case 4: qNames(c); break; case 5: qElements(c); break; case 6: qRows(c); break; default: qWild(c); } }
  void goDown(int i,bool clean){ Proc* p=P[i]; u64 t=clk++; down[i].push_back({t,INF}); auto end=[&](u64 u0,u64 u1){ for(auto r:R) if(r->p==i){ if(u0) r->u0=std::min(r->u0,u0); if(u1&&r->u1>u1) r->u1=u1; } for(auto w:W) if(w->p==i){ if(u0) w->l.u0=std::min(w->l.u0,u0); if(u1&&w->l.u1>u1) w->l.u1=u1; } if(u0) tree[i].back().u0=u0; if(u1) tree[i].back().u1=u1; };
    end(t,0); if(clean) call(p,"close",60*SEC,[&]{ rbusError_t rc=closeBus(p); if(rc) violate("disc:close","closing failed with %s",en(rc)); }); else crash(p); simSleep(1*SEC); end(0,clk++); simSleep(chooseRange(ST_WORK,0,2*SEC)); if(clean) call(p,"open",60*SEC,[&]{ rbusError_t rc=openBus(p); if(rc) violate("disc:open","opening failed with %s",en(rc)); }); else startAndOpen(p); regAll(i); down[i].back().second=clk++; }
  void run(){ g25=this; startRouter(); np=1+choose(ST_CFG,3); nc=1+choose(ST_CFG,2); int nq=1+choose(ST_CFG,2); delay=choose(ST_CFG,4); burst=choose(ST_CFG,2); tree.resize(np); syncs.resize(np); cur.resize(np); stable.resize(np); churn.resize(np); dyn.resize(np); down.resize(np);
    for(int i=0;i<np;i++){ dyn[i]=choose(ST_CFG,2); P.push_back(proc(strf("prov%d",i))); startAndOpen(P[i]); setup(i); regAll(i); } for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); }
    std::vector<Fiber*> qs,bgs; int ops=4+choose(ST_CFG,14); if(crashes) ops+=10;
    for(auto c:C) for(int t=0;t<nq;t++) qs.push_back(bg(c,"q",[this,c,ops]{ std::vector<Row*> mine; for(int k=0;k<ops;k++){ if(choose(ST_WORK,4)==1) consRow(c,mine); else query(c); if(choose(ST_WORK,3)==1) simSleep(chooseRange(ST_WORK,0,crashes?400*MS:5*MS)); } }));
    if(!crashes){ if(choose(ST_CFG,3)==1) qs.push_back(bg(P[0],"q",[this,ops]{ for(int k=0;k<ops;k++) query(P[0]); }));
      for(int i=0;i<np;i++){ if(choose(ST_CFG,4)!=1) bgs.push_back(bg(P[i],"churn",[this,i]{ churner(i,0); })); for(int t=0;t<(int)choose(ST_CFG,3);t++) bgs.push_back(bg(P[i],"rows",[this,i,t]{ ownRows(i,t); })); } }
    Fiber* drv=nullptr; if(crashes) drv=simThread(C[0]->n,"drv",[this]{ for(int k=0;k<2;k++){ simSleep(chooseRange(ST_WORK,0,600*MS)); int i=choose(ST_WORK,np); goDown(i,choose(ST_WORK,2)); changes++; } });
    joinAll(qs,"queries",300*SEC); done=true; if(!bgs.empty()) joinAll(bgs,"changes",120*SEC); if(drv) joinAll({drv},"restarts",120*SEC);
    call(C[0],"final",300*SEC,[&]{ for(int k=0;k<8;k++) query(C[0]); }); g_sh->nontrivial=queries>3&&items>10&&changes>0; }
};
static rbusError_t sync25(rbusHandle_t,char const* t){ return g25->sync(atoi(t+strlen("Device.D"))); }
SCENARIO_W(C25,churn,3){ swarm(); T25 t; t.run(); }
SCENARIO_W(C25,crash,1){ swarm(); T25 t; t.crashes=true; t.run(); }
