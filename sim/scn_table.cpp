// C21 table rows: addressable, reported once, removed completely, wildcard subscriptions follow.
#include "world.h"
struct T21 {
  static constexpr u64 INF=~0ULL;
  struct Row { int uid,p; std::string tbl,alias; uint32_t inst; Row* parent; u64 s0,u0=INF; std::string x; std::string name() const { return tbl+std::to_string(inst); } u64 end() const { return parent?std::min(u0,parent->u0):u0; } };
  struct Log { int kind; Row* r; u64 id; u64 t; };            // 0 created, 1 deleted, 2 event
  struct Sub { Proc* c; int p,what; size_t next=0; };          // what: 0 table, 1 nested tables, 2 events of all rows
  struct RSub { Proc* c; std::string ev; u64 s0,s1=INF,u0=INF; std::map<u64,int> got; };
  u64 clk=1,nextEv=1; int nuid=0,nalias=0; int np=1,nc=2; bool reuse=false,rowsubs=false,own=false,stop=false; std::vector<Proc*> P,C; std::vector<Row*> R; std::vector<std::vector<Log>> log; std::vector<Sub*> subs; std::vector<RSub*> rs; std::map<std::string,int> accepts; std::map<std::string,int> rejects; std::map<int,uint32_t> top; u64 okAdds=0,okDels=0; size_t window=8; std::map<std::pair<Proc*,std::string>,bool> usedSub;
  std::string T(int p){ return strf("Device.P%d.T.",p); }
  // "Device.P0.T.3.S.[a4].x" -> the row chain named, tail = what follows
  struct Ref { int p; std::vector<std::string> tok; std::string tail; };
  Ref parse(const std::string& n){ Ref r; r.p=atoi(n.c_str()+8); size_t i=T(r.p).size(); if(n.size()<i) i=n.size(); std::string rest=n.substr(i); while(!rest.empty()){ size_t d=rest.find('.'); std::string t=rest.substr(0,d); if(t.empty()||!(isdigit(t[0])||t[0]=='[')) break; r.tok.push_back(t); rest=d==std::string::npos?"":rest.substr(d+1); if(rest.compare(0,2,"S.")==0&&r.tok.size()==1) rest=rest.substr(2); else break; } r.tail=rest; return r; }
  std::vector<Row*> named(const Ref& f){ std::vector<Row*> par{nullptr},cur; for(size_t k=0;k<f.tok.size();k++){ cur.clear(); for(auto r:R) if(r->p==f.p) for(auto q:par) if(r->parent==q&&(k==0)==(q==nullptr)){ const std::string& t=f.tok[k]; if(t[0]=='['?("["+r->alias+"]"==t&&!r->alias.empty()):std::to_string(r->inst)==t) cur.push_back(r); } par=cur; } return f.tok.empty()?std::vector<Row*>():cur; }
  bool surely(const std::string& n,u64 s,u64 e){ for(auto r:named(parse(n))) if(r->s0<s&&r->end()>e) return true; return false; }
  bool maybe(const std::string& n,u64 s,u64 e){ for(auto r:named(parse(n))) if(r->s0<e&&r->end()>s) return true; return false; }
  Row* now(const std::string& n){ for(auto r:named(parse(n))) if(r->end()==INF) return r; return nullptr; }
  // the table a table name denotes, in instance numbers; parent=nullptr for the top table, ok=false if the parent row is missing
  bool table(const std::string& n,Row** parent,std::string* tbl){ Ref f=parse(n); if(f.tok.empty()){ *parent=nullptr; *tbl=T(f.p); return true; } *parent=now(n); if(!*parent) return false; *tbl=(*parent)->name()+".S."; return true; }
  std::string any(Row* r){ std::string pre=r->parent?any(r->parent)+".S.":T(r->p); return pre+(!r->alias.empty()&&choose(ST_WORK,3)==1?"["+r->alias+"]":std::to_string(r->inst)); }
  uint32_t newInst(const std::string& tbl,int p){ if(!reuse) return ++top[p]; for(uint32_t i=1;;i++){ bool used=false; for(auto r:R) if(r->tbl==tbl&&r->inst==i&&r->end()==INF) used=true; if(!used) return i; } }
  Row* create(int p,const std::string& tbl,Row* par,const std::string& alias,uint32_t inst){ Row* r=new Row{nuid++,p,tbl,alias,inst,par,clk++}; R.push_back(r); log[p].push_back({0,r,0,r->s0}); return r; }
  void destroy(Row* r){ r->u0=clk++; log[r->p].push_back({1,r,0,r->u0}); }
  void provider(int i){ Proc* p=P[i];
    p->onAddRow=[this,i](const std::string& t,const char* al,uint32_t* inst)->rbusError_t{ Row* par; std::string tbl; if(!table(t,&par,&tbl)) violate("table:handler-after-remove","the add handler was called for %s although its row is gone",t.c_str()); std::string a=al?al:""; if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); if(a.compare(0,3,"rej")==0) return RBUS_ERROR_ACCESS_NOT_ALLOWED; Row* r=create(i,tbl,par,a,newInst(tbl,i)); *inst=r->inst; return RBUS_ERROR_SUCCESS; };
    p->onRemoveRow=[this](const std::string& n)->rbusError_t{ Row* r=now(n); if(!r) violate("table:handler-after-remove","the remove handler was called for %s, which is no row any more",n.c_str()); if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); if(choose(ST_WORK,8)==7){ rejects[n]++; return RBUS_ERROR_ACCESS_NOT_ALLOWED; } destroy(r); accepts[n]++; return RBUS_ERROR_SUCCESS; };
    p->onGet=[this](const std::string& n,rbusProperty_t pr,rbusGetHandlerOptions_t*)->rbusError_t{ if(n.find(".T.")==std::string::npos){ setVal(pr,"x"); return RBUS_ERROR_SUCCESS; } Row* r=now(n); if(!r) violate("table:handler-after-remove","the get handler was called for %s although its row is gone",n.c_str()); setVal(pr,strf("row%d=%s",r->uid,r->x.c_str())); return RBUS_ERROR_SUCCESS; };
    p->onSet=[this](const std::string& n,rbusProperty_t pr,rbusSetHandlerOptions_t*)->rbusError_t{ Row* r=now(n); if(!r) violate("table:handler-after-remove","the set handler was called for %s although its row is gone",n.c_str()); r->x=valStr(A()->rbusProperty_GetValue(pr)); return RBUS_ERROR_SUCCESS; };
    p->onMethod=[this,i,p](const std::string& nm,rbusObject_t in,rbusObject_t out,rbusMethodAsyncHandle_t)->rbusError_t{ Api* a=A(); std::string row=valStr(a->rbusObject_GetValue(in,"row")); (void)out;
      if(nm.find(".pub()")!=std::string::npos){ Row* r=now(row); u64 id=nextEv++; if(r) log[i].push_back({2,r,id,clk++}); rbusObject_t d=mkObj({{"id",strf("i64:%llu",(unsigned long long)id)}}); rbusEvent_t e; memset(&e,0,sizeof e); std::string en_=row+".ev!"; e.name=en_.c_str(); e.type=RBUS_EVENT_GENERAL; e.data=d; rbusError_t rc=a->rbusEvent_Publish(p->h,&e); a->rbusObject_Release(d); logev("publish %s #%llu -> %s",en_.c_str(),(unsigned long long)id,en(rc));
        if(r&&rc&&rc!=RBUS_ERROR_NOSUBSCRIBERS) violate(strf("table:publish-failed:%s",en(rc)),"publishing %s of an existing row failed with %s",en_.c_str(),en(rc)); if(!r&&rc==0) violate("table:published-on-missing","publishing %s succeeded although its row is gone",en_.c_str()); }
      else if(nm.find(".own()")!=std::string::npos) ownOp(i,row);
      return RBUS_ERROR_SUCCESS; };
    std::vector<El> e={{T(i)+"{i}.",RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{T(i)+"{i}.x",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{T(i)+"{i}.ev!",RBUS_ELEMENT_TYPE_EVENT,CB_SUB},{T(i)+"{i}.S.{i}.",RBUS_ELEMENT_TYPE_TABLE,CB_ADD|CB_DEL},{T(i)+"{i}.S.{i}.x",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET|CB_SET},{strf("Device.P%d.v",i),RBUS_ELEMENT_TYPE_PROPERTY,CB_GET},{strf("Device.P%d.pub()",i),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD},{strf("Device.P%d.own()",i),RBUS_ELEMENT_TYPE_METHOD,CB_METHOD}};
    call(p,"reg",60*SEC,[&]{ rbusError_t rc=reg(p,e); if(rc) violate("setup:reg","registering tables failed: %s",en(rc)); }); }
  // the provider registers or unregisters a row of its own
  void ownOp(int i,const std::string& row){ Proc* p=P[i]; Row* r=row.empty()?nullptr:now(row);
    if(!row.empty()&&choose(ST_WORK,2)){ if(!r) return; std::string n=r->name(); if(r->end()!=INF) return; destroy(r); rbusError_t rc=p->a()->rbusTable_unregisterRow(p->h,n.c_str()); logev("unregisterRow %s -> %s",n.c_str(),en(rc)); if(rc) violate(strf("table:unregister-failed:%s",en(rc)),"unregistering row %s failed with %s",n.c_str(),en(rc)); okDels++; }
    else { std::string tbl=r?r->name()+".S.":T(i); std::string al=choose(ST_WORK,2)?strf("a%d",nalias++):""; Row* q=create(i,tbl,r,al,newInst(tbl,i)); rbusError_t rc=p->a()->rbusTable_registerRow(p->h,tbl.c_str(),q->inst,al.empty()?nullptr:al.c_str()); logev("registerRow %s%u %s -> %s",tbl.c_str(),q->inst,al.c_str(),en(rc)); if(rc) violate(strf("table:register-failed:%s",en(rc)),"registering row %s%u failed with %s",tbl.c_str(),q->inst,en(rc)); okAdds++; } }
  bool matches(const Sub* s,const Log& l){ return s->what==2?l.kind==2:l.kind<2&&(l.r->parent!=nullptr)==(s->what==1); }
  void got(Sub* s,rbusEvent_t const* e){ auto& L=log[s->p]; while(s->next<L.size()&&!matches(s,L[s->next])) s->next++; 
    static const char* kn[]={"created","deleted","row"}; int kind=e->type==RBUS_EVENT_OBJECT_CREATED?0:e->type==RBUS_EVENT_OBJECT_DELETED?1:2; std::string rn; if(kind<2){ rbusValue_t v=A()->rbusObject_GetValue(e->data,"rowName"); rn=v?valStr(v):"?"; if(!rn.empty()&&rn.back()=='.') rn.pop_back(); }
    if(s->next>=L.size()) violate("table:extra-event","%s got a %s event (%s %s) that nothing caused",s->c->comp.c_str(),kn[kind],e->name,rn.c_str());
    Log& l=L[s->next++]; std::string id; if(kind==2){ rbusValue_t v=A()->rbusObject_GetValue(e->data,"id"); id=v?std::to_string(A()->rbusValue_GetInt64(v)):"?"; }
    bool ok=kind==l.kind&&(kind==2?id==std::to_string(l.id):rn==l.r->name()); if(ok&&kind==0){ rbusValue_t a=A()->rbusObject_GetValue(e->data,"alias"),n=A()->rbusObject_GetValue(e->data,"instNum"); ok=a&&n&&valStr(a)==l.r->alias&&A()->rbusValue_GetUInt32(n)==l.r->inst; }
    logev("event %s %s %s",kn[kind],e->name,rn.c_str());
    if(!ok) violate("table:wrong-event","%s got a %s event for %s%s where the next one due is %s for %s (alias '%s')",s->c->comp.c_str(),kn[kind],rn.c_str(),id.c_str(),kn[l.kind],l.r->name().c_str(),l.r->alias.c_str()); }
  size_t behind(Proc* c){ size_t n=0; for(auto s:subs) if(s->c==c){ for(size_t k=s->next;k<log[s->p].size();k++) if(matches(s,log[s->p][k])) n++; } return n; }
  void throttle(){ waitFor("table:event-lost",[this]{ for(auto c:C) if(behind(c)>=window) return false; return true; },60*SEC,"row events outstanding for over a minute are never delivered"); }
  Row* pickRow(bool topOnly){ std::vector<Row*> v; for(auto r:R) if(!(topOnly&&r->parent)) v.push_back(r); if(v.empty()) return nullptr; for(int k=0;k<4;k++){ Row* r=v[choose(ST_WORK,v.size())]; if(r->end()==INF||choose(ST_WORK,5)==4) return r; } return v.back(); }
  void add(Proc* c,int p){ Row* par=choose(ST_WORK,3)==2?pickRow(true):nullptr; std::string t=par?any(par)+".S.":T(p); u32 w=choose(ST_WORK,8); std::string al=w==7?strf("rej%d",nalias++):w>=4?strf("a%d",nalias++):""; u64 s=clk++; AddRes r=doAddRow(c,t,al.empty()?nullptr:al.c_str()); u64 e=clk++;
    bool sure=!par||surely(t,s,e),may=!par||maybe(t,s,e);
    if(w==7&&r.rc!=RBUS_ERROR_ACCESS_NOT_ALLOWED&&!(notFoundRc(r.rc)&&!sure)) violate("table:wrong-code","the provider refused a row in %s, but addRow returned %s",t.c_str(),en(r.rc));
    if(w==7) return;
    if(r.rc==0){ okAdds++; bool found=false; for(auto q:R) if(q->inst==r.inst&&q->s0>s&&q->s0<e&&(al.empty()||q->alias==al)) found=true; if(!found||!may) violate("table:phantom-add","addRow to %s returned row %u, which the provider did not create in this call",t.c_str(),r.inst); }
    else if(sure||!notFoundRc(r.rc)) violate(strf("table:add-failed:%s",en(r.rc)),"adding a row to %s failed with %s",t.c_str(),en(r.rc)); }
  void del(Proc* c){ Row* q=pickRow(false); if(!q) return; std::string n=any(q)+(choose(ST_WORK,2)?".":""); u64 s=clk++; Rc r=doRemoveRow(c,n); u64 e=clk++; auto take=[&](std::map<std::string,int>& m){ auto i=m.find(n); if(i!=m.end()&&i->second>0){ i->second--; return true; } return false; };
    if(r.rc==0){ okDels++; if(!take(accepts)) violate("table:phantom-remove","removeRow %s succeeded although the provider removed nothing",n.c_str()); }
    else if(r.rc==RBUS_ERROR_ACCESS_NOT_ALLOWED){ if(!take(rejects)) violate("table:wrong-code","removeRow %s was refused although the provider refused nothing",n.c_str()); }
    else if(notFoundRc(r.rc)){ if(surely(n,s,e)) violate("table:row-unreachable","removeRow %s returned %s although the row exists",n.c_str(),en(r.rc)); }
    else violate(strf("table:remove-failed:%s",en(r.rc)),"removeRow %s failed with %s",n.c_str(),en(r.rc)); }
  void checkVal(const std::string& n,const std::string& v,u64 s,u64 e){ int uid=-1; if(sscanf(v.c_str(),"row%d=",&uid)!=1) violate("table:wrong-value","get %s returned '%.60s'",n.c_str(),v.c_str()); bool ok=false; for(auto r:named(parse(n))) if(r->uid==uid&&r->s0<e&&r->end()>s) ok=true; if(!ok) violate("table:wrong-row","get %s was answered by row %d, which is not what the name means",n.c_str(),uid); }
  void get(Proc* c){ Row* q=pickRow(false); if(!q) return; std::string n=any(q)+".x"; u64 s=clk++; if(choose(ST_WORK,3)==1){ Rc r=doSet(c,n,strf("v%llu",(unsigned long long)s)); u64 e=clk++; if(r.rc==0){ if(!maybe(n,s,e)) violate("table:removed-reachable","setting %s succeeded although its row is gone",n.c_str()); } else if(!notFoundRc(r.rc)||surely(n,s,e)) violate(strf("table:row-unreachable:%s",en(r.rc)),"setting %s failed with %s although the row exists",n.c_str(),en(r.rc)); return; }
    GetRes r=doGet(c,n); u64 e=clk++; if(r.rc==0) checkVal(n,r.val,s,e); else if(!notFoundRc(r.rc)||surely(n,s,e)) violate(strf("table:row-unreachable:%s",en(r.rc)),"get %s failed with %s although the row exists",n.c_str(),en(r.rc)); }
  void list(Proc* c,int p){ Row* q=choose(ST_WORK,2)?pickRow(true):nullptr; std::string t=q?any(q)+".S.":T(p); rbusRowName_t* rn=nullptr; u64 s=clk++; rbusError_t rc; { OpGuard g("rbusTable_getRowNames",DEF_BOUND); rc=c->a()->rbusTable_getRowNames(c->h,t.c_str(),&rn); } u64 e=clk++; std::set<uint32_t> seen; std::set<Row*> cov; int cnt=0; 
    if(rc==0){ for(auto x=rn;x;x=x->next){ cnt++; Row* hit=nullptr; for(auto r:R) if(r->p==parse(t).p&&r->inst==x->instNum&&r->alias==(x->alias?x->alias:"")&&r->s0<e&&r->end()>s){ if(!q? r->parent==nullptr : (r->parent&&[&]{ for(auto y:named(parse(t))) if(y==r->parent) return true; return false; }())) hit=r; }
        if(!hit) violate("table:list-extra","the rows of %s include %u (alias '%s'), which is no row",t.c_str(),x->instNum,x->alias?x->alias:""); if(!seen.insert(x->instNum).second) violate("table:list-duplicate","the rows of %s include %u twice",t.c_str(),x->instNum); cov.insert(hit); }
      for(auto r:R) if(r->s0<s&&r->end()>e){ bool here=!q?(r->parent==nullptr&&r->p==p):[&]{ for(auto y:named(parse(t))) if(y==r->parent) return true; return false; }(); if(here&&!seen.count(r->inst)) violate("table:list-missing","the rows of %s lack %u",t.c_str(),r->inst); }
      c->a()->rbusTable_freeRowNames(c->h,rn); }
    else if(!q||surely(t,s,e)||!notFoundRc(rc)) violate(strf("table:list-failed:%s",en(rc)),"listing the rows of %s failed with %s",t.c_str(),en(rc)); logev("rows of %s -> %s %d",t.c_str(),en(rc),cnt); }
  void wild(Proc* c,int p){ std::string n=T(p)+(choose(ST_WORK,2)?"*.x":"*.S.*.x"); bool nest=n.find(".S.")!=std::string::npos; u64 s=clk++; GetExtRes r=doGetExt(c,{n}); u64 e=clk++; std::set<std::string> seen; for(auto& kv:r.vals){ if(!seen.insert(kv.first).second) violate("table:wild-duplicate","getting %s returned %s twice",n.c_str(),kv.first.c_str()); Ref f=parse(kv.first); if((f.tok.size()==2)!=nest) violate("table:wild-extra","getting %s returned %s",n.c_str(),kv.first.c_str()); checkVal(kv.first,kv.second,s,e); }
    for(auto q:R) if(q->p==p&&(q->parent!=nullptr)==nest&&q->s0<s&&q->end()>e){ if(r.rc) violate(strf("table:wild-failed:%s",en(r.rc)),"getting %s failed with %s although rows exist",n.c_str(),en(r.rc)); if(!seen.count(q->name()+".x")) violate("table:wild-missing","getting %s did not return %s.x",n.c_str(),q->name().c_str()); } }
  void pub(Proc* c){ Row* q=pickRow(true); if(!q) return; MethC r=doMethC(c,strf("Device.P%d.pub()",q->p),{{"row","s:"+q->name()}}); if(r.rc) violate(strf("table:method-failed:%s",en(r.rc)),"calling pub() failed with %s",en(r.rc)); }
  void ownCall(Proc* c,int p){ Row* q=choose(ST_WORK,2)?pickRow(false):nullptr; if(q&&q->p!=p) q=nullptr; if(q&&q->parent&&choose(ST_WORK,2)) q=q->parent; std::string n=q&&!q->parent?any(q):""; MethC r=doMethC(c,strf("Device.P%d.own()",p),{{"row","s:"+n}}); if(r.rc) violate(strf("table:method-failed:%s",en(r.rc)),"calling own() failed with %s",en(r.rc)); }
  void rowSub(Proc* c){ std::vector<RSub*> mine; for(auto r:rs) if(r->c==c&&r->s1!=INF&&r->u0==INF) mine.push_back(r);
    if(!mine.empty()&&choose(ST_WORK,3)==1){ RSub* r=mine[choose(ST_WORK,mine.size())]; r->u0=clk++; u64 s=r->u0; Rc x=doUnsub(c,r->ev); u64 e=clk++; if(x.rc&&surely(r->ev,s,e)) violate(strf("table:unsubscribe-failed:%s",en(x.rc)),"unsubscribing from %s failed with %s",r->ev.c_str(),en(x.rc)); return; }
    Row* q=pickRow(true); if(!q) return; std::string ev=any(q)+".ev!"; if(usedSub[{c,ev}]) return; usedSub[{c,ev}]=true; RSub* r=new RSub{c,ev,clk++}; rs.push_back(r); EvFn* fn=new EvFn([this,r](rbusEvent_t const* e,rbusEventSubscription_t*){ rbusValue_t v=A()->rbusObject_GetValue(e->data,"id"); u64 id=v?(u64)A()->rbusValue_GetInt64(v):0; Log* l=nullptr; for(auto& L:log) for(auto& x:L) if(x.kind==2&&x.id==id) l=&x; bool ok=false; if(l) for(auto y:named(parse(r->ev))) if(y==l->r) ok=true; if(!ok) violate("table:wrong-event","%s's subscription to %s got event %llu of another row",r->c->comp.c_str(),r->ev.c_str(),(unsigned long long)id); if(++r->got[id]>1) violate("table:event-duplicate","%s's subscription to %s got event %llu twice",r->c->comp.c_str(),r->ev.c_str(),(unsigned long long)id); });
    Rc x=doSub(c,ev,fn,0); u64 e=clk++; if(x.rc==0){ if(!maybe(ev,r->s0,e)) violate("table:removed-reachable","subscribing to %s succeeded although its row is gone",ev.c_str()); r->s1=e; } else if(!notFoundRc(x.rc)||surely(ev,r->s0,e)) violate(strf("table:subscribe-failed:%s",en(x.rc)),"subscribing to %s failed with %s although the row exists",ev.c_str(),en(x.rc)); }
  void final(){ for(auto s:subs) for(size_t k=s->next;k<log[s->p].size();k++) if(matches(s,log[s->p][k])) violate("table:event-lost","%s never got the %s event of %s",s->c->comp.c_str(),log[s->p][k].kind==0?"created":log[s->p][k].kind==1?"deleted":"row",log[s->p][k].r->name().c_str());
    for(auto r:rs) if(r->s1!=INF){ auto f=parse(r->ev); for(auto y:named(f)) if(y->s0<r->s0) for(auto& l:log[f.p]) if(l.kind==2&&l.r==y&&l.t>r->s1&&l.t<r->u0&&!r->got.count(l.id)&&r->u0==INF) violate("table:event-lost","%s's subscription to %s never got event %llu",r->c->comp.c_str(),r->ev.c_str(),(unsigned long long)l.id); } }
  void run(){ startRouter(); log.resize(np); for(int i=0;i<np;i++){ P.push_back(proc(strf("prov%d",i))); startAndOpen(P[i]); provider(i); } for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); }
    for(auto c:C) for(int p=0;p<np;p++) for(int w=0;w<3;w++) if(choose(ST_CFG,4)!=1){ Sub* s=new Sub{c,p,w}; subs.push_back(s); std::string ev=w==0?T(p):w==1?T(p)+"*.S.":T(p)+"*.ev!"; call(c,"sub",60*SEC,[&]{ Rc r=doSub(c,ev,new EvFn([this,s](rbusEvent_t const* e,rbusEventSubscription_t*){ got(s,e); }),0); if(r.rc) violate(strf("table:subscribe-failed:%s",en(r.rc)),"subscribing to %s failed with %s",ev.c_str(),en(r.rc)); }); }
    int ops=6+choose(ST_CFG,25); std::vector<Fiber*> fs; for(auto c:C) for(int t=0;t<1+(int)choose(ST_CFG,2);t++) fs.push_back(bg(c,"w",[this,c,ops]{ for(int k=0;k<ops;k++){ throttle(); int p=choose(ST_WORK,np); u32 w=choose(ST_WORK,16); if(w<5) add(c,p); else if(w<7) del(c); else if(w<9) get(c); else if(w<10) list(c,p); else if(w<11) wild(c,p); else if(w<13) pub(c); else if(w<14) ownCall(c,p); else if(rowsubs) rowSub(c); else get(c); if(choose(ST_WORK,4)==1) simSleep(chooseRange(ST_WORK,0,5*MS)); } }));
    joinAll(fs,"table workload",900*SEC); for(auto c:C) call(c,"list",60*SEC,[&]{ for(int p=0;p<np;p++) list(c,p); }); simSleep(5*SEC); final(); g_sh->nontrivial=okAdds>2&&okDels>0; }
};
SCENARIO_W(C21,unique,3){ swarm(); T21 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,3); t.rowsubs=choose(ST_CFG,2); t.run(); }
SCENARIO_W(C21,reuse,2){ swarm(); T21 t; t.np=1+choose(ST_CFG,2); t.nc=1+choose(ST_CFG,3); t.reuse=true; t.run(); }

// the provider's own threads register, publish on and remove rows of a second table while consumers use them
struct T21o { T21 t; bool race=false; struct ORow { uint32_t n; u64 s0,s1=T21::INF,u0=T21::INF,u1=T21::INF; int users=0; }; std::map<uint32_t,ORow> O; bool done=false; std::map<Proc*,std::map<uint32_t,int>> cr,dl; u64 evs=0;
  // the delivery queue of a consumer holds 26 messages; wait while many table events are still on their way
  void settle(const std::vector<Proc*>& C,int max){ simWaitUntil([&]{ for(auto c:C){ int out=0; for(auto& o:O){ if(o.second.s1!=T21::INF&&!cr[c][o.first]) out++; if(o.second.u1!=T21::INF&&!dl[c][o.first]) out++; } if(out>max) return false; } return true; },60*SEC,2*MS); }
  void run(){ startRouter(); Proc* p=proc("prov0"); startAndOpen(p); int nc=1+choose(ST_CFG,2); std::vector<Proc*> C; for(int i=0;i<nc;i++){ C.push_back(proc(strf("cons%d",i))); startAndOpen(C[i]); }
    p->onGet=[this](const std::string& n,rbusProperty_t pr,rbusGetHandlerOptions_t*)->rbusError_t{ uint32_t k=0; sscanf(n.c_str(),"Device.P0.O.%u.x",&k); if(k&&O.count(k)&&O[k].u1!=T21::INF&&(!race||!O[k].users)) violate("table:handler-after-remove","the get handler was called for %s after its removal",n.c_str()); setVal(pr,"own"); return RBUS_ERROR_SUCCESS; };
    call(p,"reg",60*SEC,[&]{ rbusError_t rc=reg(p,{{"Device.P0.O.{i}.",RBUS_ELEMENT_TYPE_TABLE,0},{"Device.P0.O.{i}.x",RBUS_ELEMENT_TYPE_PROPERTY,CB_GET},{"Device.P0.O.{i}.ev!",RBUS_ELEMENT_TYPE_EVENT,0}}); if(rc) violate("setup:reg","registering tables failed: %s",en(rc)); });
    for(auto c:C) call(c,"sub",60*SEC,[&]{ doSub(c,"Device.P0.O.",new EvFn([this,c](rbusEvent_t const* e,rbusEventSubscription_t*){ rbusValue_t v=A()->rbusObject_GetValue(e->data,"rowName"); std::string rn=v?valStr(v):"?"; uint32_t k=0; sscanf(rn.c_str(),"Device.P0.O.%u",&k); bool c1=e->type==RBUS_EVENT_OBJECT_CREATED; if(!O.count(k)||(c1?O[k].s0:O[k].u0)==T21::INF) violate("table:extra-event","an event for row %s came unasked",rn.c_str()); if((c1?cr:dl)[c][k]++) violate("table:event-duplicate","two events of one kind for row %s",rn.c_str()); evs++; }),0); doSub(c,"Device.P0.O.*.ev!",new EvFn([this](rbusEvent_t const*,rbusEventSubscription_t*){ evs++; }),0); });
    int nt=1+choose(ST_CFG,2), n=3+choose(ST_CFG,8); std::vector<Fiber*> fs; for(int t_=0;t_<nt;t_++) fs.push_back(bg(p,"own",[this,p,t_,n,C]{ for(int k=0;k<n;k++){ uint32_t i=1+t_*100+k; settle(C,6); O[i]={i,t.clk++}; rbusError_t rc=p->a()->rbusTable_registerRow(p->h,"Device.P0.O.",i,nullptr); if(rc) violate(strf("table:register-failed:%s",en(rc)),"registering row %u failed with %s",i,en(rc)); O[i].s1=t.clk++; for(int e=choose(ST_WORK,3);e>0;e--){ simSleep(chooseRange(ST_WORK,0,2*MS)); doPublish(p,strf("Device.P0.O.%u.ev!",i),"v"); }
      simSleep(chooseRange(ST_WORK,0,8*MS)); if(choose(ST_WORK,3)){ O[i].u0=t.clk++; if(!race) simWaitUntil([&]{ return O[i].users==0; },60*SEC,1*MS); settle(C,6);  rc=p->a()->rbusTable_unregisterRow(p->h,strf("Device.P0.O.%u",i).c_str()); if(rc) violate(strf("table:unregister-failed:%s",en(rc)),"unregistering row %u failed with %s",i,en(rc)); O[i].u1=t.clk++; } } }));
    std::vector<Fiber*> bgf; for(auto c:C) bgf.push_back(bg(c,"use",[&,c]{ while(!done){ uint32_t i=1+choose(ST_WORK,nt)*100+choose(ST_WORK,n); if(O.count(i)&&O[i].s1!=T21::INF&&(race||O[i].u0==T21::INF||O[i].u1!=T21::INF)){ O[i].users++; u64 s=t.clk++; GetRes r=doGet(c,strf("Device.P0.O.%u.x",i)); u64 e=t.clk++; ORow& o=O[i]; if(r.rc&&o.s1<s&&o.u0>e) violate(strf("table:row-unreachable:%s",en(r.rc)),"get of row %u failed with %s although it exists",i,en(r.rc)); if(!r.rc&&o.u1<s) violate("table:removed-reachable","get of row %u succeeded after its removal",i); O[i].users--; } simSleep(chooseRange(ST_WORK,0,4*MS)); } }));
    joinAll(fs,"own rows",300*SEC); done=true; joinAll(bgf,"users",60*SEC); simSleep(5*SEC); for(auto c:C) for(auto& o:O){ if(cr[c][o.first]!=1) violate("table:event-lost","%s got no created event of row %u",c->comp.c_str(),o.first); if((o.second.u1!=T21::INF)!=(dl[c][o.first]==1)) violate("table:event-lost","%s got %d deleted events of row %u",c->comp.c_str(),dl[c][o.first],o.first); } g_sh->nontrivial=evs>3; }
};
SCENARIO_W(C21,own,1){ swarm(); T21o t; t.run(); }
// the same without waiting for the users of a row (a request being handled when the row goes may still reach the handler)
SCENARIO_W(C21,rowrace,2){ swarm(); T21o t; t.race=true; t.run(); }
