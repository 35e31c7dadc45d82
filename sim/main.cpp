// Runner: single runs, seeded batches, minimisation, replay.
#include "sim.h"
#include "api.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <set>
#include <algorithm>

static const char* SN[ST_N]={"CFG","WORK","SCHED","NET","FAULT"};
extern int g_covKind;
static double wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec/1e9; }
static Shared* newShared(unsigned char* cov){
  size_t n=sizeof(Shared); size_t tot=n; for(int i=0;i<ST_N;i++) tot+=ST_CAP[i]*4ul;
  char* p=(char*)mmap(nullptr,tot,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(p==MAP_FAILED){ perror("mmap"); exit(2); }
  Shared* s=(Shared*)p; char* q=p+((n+63)&~63ul); for(int i=0;i<ST_N;i++){ s->rec[i]=(u32*)q; q+=ST_CAP[i]*4ul; } s->cov=cov; return s; }
static void resetShared(Shared* s){ u32* r[ST_N]; for(int i=0;i<ST_N;i++) r[i]=s->rec[i]; unsigned char* c=s->cov; memset((void*)s,0,sizeof *s); for(int i=0;i<ST_N;i++) s->rec[i]=r[i]; s->cov=c; }

struct LibInfo { const char* file; int kind; int copies; };
void loadLibs(const std::string& dir){
  struct { const char* base; int kind; int copies; } L[]={ {"client",NK_CLIENT,14},{"router",NK_ROUTER,5},{"session",NK_SESSION,3} };
  for(auto& l:L) for(int i=0;i<l.copies;i++){
    std::string f=strf("%s/%s_%d.so",dir.c_str(),l.base,i); g_covKind=l.kind;
    void* h=dlopen(f.c_str(),RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"dlopen %s: %s\n",f.c_str(),dlerror()); exit(2); }
    Api* a=(Api*)calloc(1,sizeof(Api));
#define X(n) a->n=(decltype(&::n))dlsym(h,#n); if(!a->n && l.kind!=NK_ROUTER){ fprintf(stderr,"missing %s\n",#n); exit(2); }
    API_LIST(X) API_LIST2(X)
#undef X
    a->router_main=(int(*)(int,char**))dlsym(h,"sim_rtrouted_main"); a->session_main=(int(*)(int,char**))dlsym(h,"sim_session_main");
    libPool(l.kind).push_back({h,a,(char**)dlsym(h,"sim_progname")});
  }
}
static const Scenario* findScn(const std::string& p,const std::string& n){ for(auto& s:scenarios()) if(p==s.prop&&(n.empty()||n==s.name)) return &s; return nullptr; }
static u64 mix(u64 a){ a^=a>>33; a*=0xff51afd7ed558ccdULL; a^=a>>33; a*=0xc4ceb9fe1a85ec53ULL; a^=a>>33; return a; }
static const Scenario* scnForSeed(const std::string& p,const std::string& only,u64 seed){ std::vector<const Scenario*> v; for(auto& s:scenarios()) if(p==s.prop&&(only.empty()||only==s.name)) for(int i=0;i<s.weight;i++) v.push_back(&s); if(v.empty()) return nullptr; return v[mix(seed^0xabcdef)%v.size()]; }
static int s_realTimeout=60; static std::set<std::string> s_known;
// run one spec in a forked child; result in g_sh
static void runForked(const Scenario& s,const RunSpec& spec){
  resetShared(g_sh); fflush(stdout); fflush(stderr);
  pid_t p=fork();
  if(p<0){ perror("fork"); exit(2); }
  if(p==0){
    setpgid(0,0); struct rlimit rl={0,0}; setrlimit(RLIMIT_CORE,&rl);
    if(!spec.verbose){ int n=open("/dev/null",O_WRONLY); dup2(n,1); if(!getenv("SIM_KEEP_STDERR")) dup2(n,2); }
    alarm(s_realTimeout); g_spec=spec; simRunChild(s); _exit(0);
  }
  int st=0; while(waitpid(p,&st,0)<0&&errno==EINTR); 
  if(g_sh->status==RS_RUNNING){ if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGALRM){ g_sh->status=RS_INTERNAL; snprintf(g_sh->cls,sizeof g_sh->cls,"internal:realtime-timeout"); } else { g_sh->status=RS_INTERNAL; snprintf(g_sh->cls,sizeof g_sh->cls,"internal:child-died-%d",st); } }
}
static void printResult(const Scenario& s,u64 seed){
  static const char* N[]={"RUNNING","OK","VIOLATION","TRUNCATED","INTERNAL"};
  printf("{\"scenario\":\"%s\",\"seed\":%llu,\"status\":\"%s\",\"class\":\"%s\",\"hash\":\"%016llx\",\"skel\":\"%016llx\",\"steps\":%llu,\"simtime\":%.3f,\"ops\":%llu,\"nontrivial\":%llu}\n",s.name,(unsigned long long)seed,N[g_sh->status],g_sh->cls,(unsigned long long)g_sh->hash,(unsigned long long)g_sh->skelHash,(unsigned long long)g_sh->steps,g_sh->simTime/1e9,(unsigned long long)g_sh->ops,(unsigned long long)g_sh->nontrivial);
  if(g_sh->msg[0]) printf("MSG %s\n",g_sh->msg);
  if(g_sh->asanReport[0]) printf("REPORT %s\n",g_sh->asanReport);
}
static void saveReplay(const std::string& f,const std::string& prop,const Scenario& s,const RunSpec& sp,const char* cls,u64 hash,const char* msg){
  FILE* o=fopen(f.c_str(),"w"); if(!o){ perror(f.c_str()); exit(2); }
  fprintf(o,"rbus-sim-replay 1\nproperty %s\nscenario %s\nseed %llu\nclass %s\nhash %016llx\n",prop.c_str(),s.name,(unsigned long long)sp.seed,cls,(unsigned long long)hash);
  for(int i=0;i<ST_N;i++){ fprintf(o,"stream %s",SN[i]); for(size_t k=0;k<sp.rep[i].size();k++) if(sp.rep[i][k]) fprintf(o," %zu:%u",k,sp.rep[i][k]); fprintf(o,"\n"); }
  std::string m=msg; for(auto& c:m) if(c=='\n') c='|'; fprintf(o,"# %s\n",m.c_str()); fclose(o); }
static bool loadReplay(const std::string& f,std::string& prop,std::string& scn,RunSpec& sp,std::string& cls,u64& hash){
  FILE* i=fopen(f.c_str(),"r"); if(!i) return false; sp.replay=true; char* line=nullptr; size_t cap=0; 
  while(getline(&line,&cap,i)>0){ char* nl=strchr(line,'\n'); if(nl)*nl=0;
    if(!strncmp(line,"property ",9)) prop=line+9; else if(!strncmp(line,"scenario ",9)) scn=line+9; else if(!strncmp(line,"seed ",5)) sp.seed=strtoull(line+5,0,10); else if(!strncmp(line,"class ",6)) cls=line+6; else if(!strncmp(line,"hash ",5)) hash=strtoull(line+5,0,16);
    else if(!strncmp(line,"stream ",7)){ char* p=line+7; int k=-1; for(int j=0;j<ST_N;j++) if(!strncmp(p,SN[j],strlen(SN[j]))) k=j; if(k<0) continue; p+=strlen(SN[k]); while(*p==' '){ size_t ix=strtoul(p,&p,10); if(*p!=':') break; u32 v=strtoul(p+1,&p,10); if(sp.rep[k].size()<=ix) sp.rep[k].resize(ix+1,0); sp.rep[k][ix]=v; } } }
  free(line); fclose(i); return true; }
static RunSpec recorded(u64 seed){ RunSpec r; r.seed=seed; r.replay=true; for(int i=0;i<ST_N;i++){ r.rep[i].assign(g_sh->rec[i],g_sh->rec[i]+g_sh->len[i]); } return r; }
static std::string baseClass(const char* c){ return c; }

static int cmdMinimise(const std::string& prop,const Scenario& s,u64 seed,const std::string& out,double budget){
  RunSpec sp; sp.seed=seed; runForked(s,sp); if(g_sh->status!=RS_VIOLATION){ printf("not a violation: %d %s\n",g_sh->status,g_sh->cls); return 3; }
  std::string cls=baseClass(g_sh->cls); std::string msg=g_sh->msg; u64 h1=g_sh->hash;
  runForked(s,sp); if(g_sh->status!=RS_VIOLATION||g_sh->hash!=h1||cls!=g_sh->cls){ printf("nondeterministic: same seed gave different results\n"); return 4; }
  RunSpec best=recorded(seed); 
  double t0=wall(); int tries=0;
  auto test=[&](RunSpec& c)->bool{ tries++; runForked(s,c); return g_sh->status==RS_VIOLATION && cls==g_sh->cls; };
  if(!test(best)){ printf("nondeterministic: recorded trace does not reproduce (%d %s)\n",g_sh->status,g_sh->cls); return 4; }
  auto nz=[&](){ size_t n=0; for(auto& v:best.rep) for(auto x:v) if(x) n++; return n; }; size_t n0=nz();
  auto trim=[&](){ for(auto& v:best.rep) while(v.size()&&!v.back()) v.pop_back(); }; trim();
  int order[]={ST_FAULT,ST_NET,ST_SCHED,ST_WORK,ST_CFG};
  for(int st:order){ if(wall()-t0>budget) break; RunSpec c=best; c.rep[st].clear(); if(c.rep[st]!=best.rep[st]&&test(c)) best=c; }
  for(int round=0;round<3&&wall()-t0<budget;round++){
    size_t before=nz();
    for(int st:order){
      // indices of nonzero entries
      std::vector<size_t> ix; for(size_t i=0;i<best.rep[st].size();i++) if(best.rep[st][i]) ix.push_back(i);
      size_t ch=ix.size()/2; if(ch<1) ch=1;
      while(ix.size()&&wall()-t0<budget){
        bool any=false; size_t pos=ix.size();
        while(pos>0&&wall()-t0<budget){ size_t lo=pos>ch?pos-ch:0; RunSpec c=best; for(size_t k=lo;k<pos;k++) c.rep[st][ix[k]]=0; if(test(c)){ best=c; ix.erase(ix.begin()+lo,ix.begin()+pos); any=true; } pos=lo; if(pos>ix.size()) pos=ix.size(); }
        if(ch==1&&!any) break; if(ch>1) ch/=2; else if(!any) break; }
    }
    trim(); if(nz()==before) break; }
  if(!test(best)){ printf("nondeterministic: minimised trace does not reproduce\n"); return 4; }
  u64 h=g_sh->hash; saveReplay(out,prop,s,best,cls.c_str(),h,g_sh->msg);
  printf("{\"minimised\":true,\"class\":\"%s\",\"choices_before\":%zu,\"choices_after\":%zu,\"tries\":%d,\"hash\":\"%016llx\"}\nMSG %s\n",cls.c_str(),n0,nz(),tries,(unsigned long long)h,g_sh->msg);
  return 0; }

struct WorkerStat { u64 runs,ok,viol,trunc,internal,steps,switches,preempts,ops,nontrivial; i64 sim; u64 faults[F_N]; u64 probes[64]; u64 faultRuns; u64 scnRuns[32]; };
static int cmdBatch(const std::string& prop,const std::string& only,u64 seed,u64 runs,double maxT,int jobs,const std::string& out,u64 maxViol,u64 start){
  unsigned char* cov=g_cov; WorkerStat* ws=(WorkerStat*)mmap(nullptr,sizeof(WorkerStat)*jobs,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  u64* hashes=(u64*)mmap(nullptr,runs*16+16,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  volatile u64* violCount=(volatile u64*)mmap(nullptr,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  volatile u64* next=violCount+8;
  FILE* o=fopen(out.c_str(),"w"); if(!o){ perror("out"); return 2; } setvbuf(o,nullptr,_IOLBF,1<<16); double t0=wall();
  std::vector<pid_t> ps;
  for(int w=0;w<jobs;w++){ pid_t p=fork(); if(p==0){
      g_sh=newShared(cov); WorkerStat& S=ws[w]; int fd=open(out.c_str(),O_WRONLY|O_APPEND);
      for(;;){ u64 r=__sync_fetch_and_add(next,1); if(r>=runs) break;
        if(wall()-t0>maxT || *violCount>=maxViol) break;
        u64 sd=mix(seed*0x1000003ULL+start+r+1)&0x7fffffffffffffffULL; const Scenario* s=scnForSeed(prop,only,sd); RunSpec sp; sp.seed=sd;
        runForked(*s,sp);
        S.runs++; S.steps+=g_sh->steps; S.switches+=g_sh->switches; S.preempts+=g_sh->preempts; S.ops+=g_sh->ops; S.sim+=g_sh->simTime; if(g_sh->nontrivial) S.nontrivial++; for(int i=0;i<F_N;i++) S.faults[i]+=g_sh->faults[i]; for(int i=0;i<64;i++) S.probes[i]+=g_sh->probes[i];
        hashes[r*2]=g_sh->skelHash; hashes[r*2+1]=g_sh->nontrivial?1:0; for(size_t i=0;i<scenarios().size()&&i<512;i++) if(&scenarios()[i]==s) { static int idx[512]; (void)idx; }
        if(g_sh->status==RS_OK) S.ok++; else if(g_sh->status==RS_TRUNCATED) S.trunc++; else {
          if(g_sh->status==RS_VIOLATION){ S.viol++; if(!s_known.count(std::string(s->name)+"|"+g_sh->cls)) __sync_fetch_and_add(violCount,1); } else S.internal++;
          std::string m=g_sh->msg; for(auto& c:m) if(c=='\n'||c=='"'||c=='\\'||(unsigned char)c<32) c='~'; std::string cl=g_sh->cls; for(auto& c:cl) if(c=='"'||c=='\\') c='~';
          std::string line=strf("{\"kind\":\"%s\",\"scenario\":\"%s\",\"seed\":%llu,\"class\":\"%s\",\"hash\":\"%016llx\",\"msg\":\"%s\"}\n",g_sh->status==RS_VIOLATION?"violation":"internal",s->name,(unsigned long long)sd,cl.c_str(),(unsigned long long)g_sh->hash,m.substr(0,900).c_str());
          if(write(fd,line.data(),line.size())<0){} }
        if(S.runs<=1 && w<3){ std::string sm=g_sh->sample; for(auto& c:sm) if(c=='"'||c=='\\'||(unsigned char)c<32) c='~'; std::string line="{\"kind\":\"sample\",\"scenario\":\""+std::string(s->name)+"\",\"seed\":"+strf("%llu",(unsigned long long)sd)+",\"log\":\""+sm.substr(0,1500)+"\"}\n"; if(write(fd,line.data(),line.size())<0){} }
      } _exit(0); } ps.push_back(p); }
  for(auto p:ps){ int st; waitpid(p,&st,0); }
  double el=wall()-t0; WorkerStat T; memset(&T,0,sizeof T); for(int w=0;w<jobs;w++){ u64* a=(u64*)&T; u64* b=(u64*)&ws[w]; for(size_t i=0;i<sizeof(T)/8;i++) a[i]+=b[i]; }
  std::set<u64> ds,dn; for(u64 r=0;r<runs;r++) if(hashes[r*2]){ ds.insert(hashes[r*2]); if(hashes[r*2+1]) dn.insert(hashes[r*2]); }
  u64 edges=0; for(u32 i=0;i<COV_CAP;i++) edges+=cov[i]!=0;
  int fd=open(out.c_str(),O_WRONLY|O_APPEND); std::string l=strf("{\"kind\":\"summary\",\"runs\":%llu,\"ok\":%llu,\"violations\":%llu,\"truncated\":%llu,\"internal\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"ops\":%llu,\"nontrivial\":%llu,\"sim_seconds\":%.1f,\"wall\":%.2f,\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"edges\":%llu,\"faults\":{",(unsigned long long)T.runs,(unsigned long long)T.ok,(unsigned long long)T.viol,(unsigned long long)T.trunc,(unsigned long long)T.internal,(unsigned long long)T.steps,(unsigned long long)T.switches,(unsigned long long)T.preempts,(unsigned long long)T.ops,(unsigned long long)T.nontrivial,T.sim/1e9,el,ds.size(),dn.size(),(unsigned long long)edges);
  for(int i=0;i<F_N;i++) l+=strf("%s\"%s\":%llu",i?",":"",g_faultNames[i],(unsigned long long)T.faults[i]); l+="},\"probes\":{"; bool first=true; for(int i=0;i<64;i++) if(T.probes[i]){ l+=strf("%s\"%d\":%llu",first?"":",",i,(unsigned long long)T.probes[i]); first=false; } l+="}}\n"; if(write(fd,l.data(),l.size())<0){}
  close(fd); printf("%s",l.c_str()); return 0; }

int main(int argc,char** argv){
  std::string cmd=argc>1?argv[1]:"", prop,scn,lib=".",out="out.jsonl",file; u64 seed=1,runs=100,maxViol=1000000,start=0; double T=1e9; int jobs=8; bool verbose=false; int times=1;
  for(int i=2;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if(a=="--prop") prop=nx(); else if(a=="--scn") scn=nx(); else if(a=="--seed") seed=strtoull(nx().c_str(),0,10); else if(a=="--runs") runs=strtoull(nx().c_str(),0,10); else if(a=="--time") T=atof(nx().c_str()); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--lib") lib=nx(); else if(a=="--out") out=nx(); else if(a=="--max-violations") maxViol=strtoull(nx().c_str(),0,10); else if(a=="--start") start=strtoull(nx().c_str(),0,10); else if(a=="-v") verbose=true; else if(a=="--known") s_known.insert(nx()); else if(a=="--times") times=atoi(nx().c_str()); else file=a; }
  if(cmd=="list"){ for(auto& s:scenarios()) printf("%s %s\n",s.prop,s.name); return 0; }
  g_cov=(unsigned char*)mmap(nullptr,COV_CAP,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  signal(SIGPIPE,SIG_IGN);
  loadLibs(lib);
  g_sh=newShared(g_cov);
  if(cmd=="batch") return cmdBatch(prop,scn,seed,runs,T,jobs,out,maxViol,start);
  if(cmd=="run"){ const Scenario* s=scnForSeed(prop,scn,seed); if(!s) return 2; for(int i=0;i<times;i++){ RunSpec sp; sp.seed=seed; sp.verbose=verbose; runForked(*s,sp); printResult(*s,seed); } return g_sh->status==RS_OK?0:g_sh->status==RS_VIOLATION?1:2; }
  if(cmd=="minimise"){ const Scenario* s=scnForSeed(prop,scn,seed); if(!s) return 2; return cmdMinimise(prop,*s,seed,out,T>1e8?30:T); }
  if(cmd=="replay"){ RunSpec sp; std::string cls; u64 h=0; if(!loadReplay(file,prop,scn,sp,cls,h)) return 2; const Scenario* s=findScn(prop,scn); if(!s) return 2; sp.verbose=verbose; runForked(*s,sp); printResult(*s,sp.seed);
    bool same=g_sh->status==RS_VIOLATION && cls==g_sh->cls && g_sh->hash==h; printf("REPLAY %s\n",same?"exact":(g_sh->status==RS_VIOLATION&&cls==g_sh->cls)?"same-class":"different"); return g_sh->status==RS_VIOLATION?1:g_sh->status==RS_OK?0:2; }
  fprintf(stderr,"usage\n"); return 2; }
