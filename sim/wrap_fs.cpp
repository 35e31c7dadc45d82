// Simulated disk. All paths live here; nothing reaches the real filesystem.
#include "sim.h"
#include "api.h"
#include <stdio.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <set>

static std::map<std::string,SimFile*>& fs(){ static std::map<std::string,SimFile*> m; return m; }
static std::set<std::string>& dirs(){ static std::set<std::string> d={"/","/tmp","/var","/etc","/dev","/dev/shm"}; return d; }
int g_diskFullBytes=-1; u32 g_diskFailPct=0,g_diskTornPct=0; std::function<bool(const std::string&)> g_diskFaultFilter;
static std::string norm(const char* p){ std::string s; for(;*p;p++){ if(*p=='/'&&!s.empty()&&s.back()=='/') continue; s+=*p; } if(s.size()>1&&s.back()=='/') s.pop_back(); return s; }
bool fsExists(const std::string& p){ return fs().count(norm(p.c_str()))||dirs().count(norm(p.c_str())); }
bool fsRead(const std::string& p,std::string& o){ auto it=fs().find(norm(p.c_str())); if(it==fs().end()) return false; o=it->second->data; return true; }
void fsWrite(const std::string& p,const std::string& d){ auto*& f=fs()[norm(p.c_str())]; f=new SimFile; f->data=d; }
void fsRemove(const std::string& p){ fs().erase(norm(p.c_str())); }
std::vector<std::string> fsList(){ std::vector<std::string> r; for(auto& k:fs()) r.push_back(k.first); return r; }
static bool faulty(const std::string& p){ return !g_diskFaultFilter || g_diskFaultFilter(p); }

struct OpenFile { SimFile* f; std::string path; off64_t pos=0; bool rd,wr,app; Node* node; FILE* fp=nullptr; int fd=-1; bool dead=false; bool lock=false; };
static std::vector<OpenFile*> s_open;
static int allocFd(Node* n){ for(size_t i=3;i<n->fds.size();i++) if(!n->fds[i].kind) return (int)i; n->fds.emplace_back(); return (int)n->fds.size()-1; }
int simAllocFd(Node* n){ return allocFd(n); }
static ssize_t ckRead(void* c,char* b,size_t n){ OpenFile* o=(OpenFile*)c; if(o->dead) return 0; simYield("fread"); if(o->pos>=(off64_t)o->f->data.size()) return 0; size_t k=std::min(n,o->f->data.size()-(size_t)o->pos); memcpy(b,o->f->data.data()+o->pos,k); o->pos+=k; return k; }
static ssize_t ckWrite(void* c,const char* b,size_t n){ OpenFile* o=(OpenFile*)c; if(o->dead) return n; simYield("fwrite"); if(o->dead) return n;
  size_t k=n; if(g_diskFullBytes>=0 && faulty(o->path)){ if((size_t)g_diskFullBytes<k) { k=g_diskFullBytes; fault(F_DISKFULL); } g_diskFullBytes-=k; if(k==0){ errno=ENOSPC; return 0; } }
  if(g_diskTornPct && k>1 && faulty(o->path) && chance(ST_FAULT,g_diskTornPct,100)){ size_t a=1+choose(ST_FAULT,(u32)k-1); fault(F_DISKTORN); if(o->app) o->pos=o->f->data.size(); if(o->f->data.size()<o->pos+a) o->f->data.resize(o->pos+a); memcpy(&o->f->data[o->pos],b,a); o->pos+=a; b+=a; k-=a; if(choose(ST_FAULT,2)) simSleep(chooseRange(ST_FAULT,0,3*MS)); else simYield("torn"); if(o->dead) return n; ssize_t r=a+k; if(o->app) o->pos=o->f->data.size(); if(o->f->data.size()<o->pos+k) o->f->data.resize(o->pos+k); memcpy(&o->f->data[o->pos],b,k); o->pos+=k; return r; }
  if(o->app) o->pos=o->f->data.size(); if(o->f->data.size()<o->pos+k) o->f->data.resize(o->pos+k); memcpy(&o->f->data[o->pos],b,k); o->pos+=k; trace("write %s %zu bytes",o->path.c_str(),k);
  simYield("fwritten"); return k; }
static int ckSeek(void* c,off64_t* off,int wh){ OpenFile* o=(OpenFile*)c; off64_t p= wh==SEEK_SET?*off: wh==SEEK_CUR?o->pos+*off:(off64_t)o->f->data.size()+*off; if(p<0){ errno=EINVAL; return -1; } o->pos=p; *off=p; return 0; }
static int ckClose(void* c){ OpenFile* o=(OpenFile*)c; for(size_t i=0;i<s_open.size();i++) if(s_open[i]==o){ s_open.erase(s_open.begin()+i); break; } if(!o->dead && o->fd>=0 && (size_t)o->fd<o->node->fds.size()) o->node->fds[o->fd]=FdEnt(); delete o; return 0; }
void dropNodeFiles(Node* n,bool flush){ for(auto o:s_open) if(o->node==n){ if(flush && o->fp) fflush(o->fp); } for(auto o:s_open) if(o->node==n) o->dead=true; }
extern "C" {
static FILE* doOpen(const char* path,const char* mode){
  std::string p=norm(path); simYield("fopen");
  bool wr=mode[0]=='w'||mode[0]=='a'||strchr(mode,'+'); bool rd=mode[0]=='r'||strchr(mode,'+');
  if(wr && g_diskFailPct && faulty(p) && chance(ST_FAULT,g_diskFailPct,100)){ fault(F_DISKFAIL); errno=EACCES; return nullptr; }
  auto it=fs().find(p);
  if(mode[0]=='r' && it==fs().end()){ errno=ENOENT; return nullptr; }
  if(wr){ std::string dir=p.substr(0,p.rfind('/')); if(dir.empty()) dir="/"; if(!dirs().count(dir)){ errno=ENOENT; return nullptr; } }
  if(it==fs().end()) fs()[p]=new SimFile; else if(mode[0]=='w') it->second->data.clear();
  OpenFile* o=new OpenFile; o->f=fs()[p]; o->path=p; o->rd=rd; o->wr=wr; o->app=mode[0]=='a'; o->node=g_cur->node;
  o->fd=allocFd(o->node); o->node->fds[o->fd].kind=2; o->node->fds[o->fd].file=o;
  cookie_io_functions_t io={ckRead,ckWrite,ckSeek,ckClose}; FILE* fp=fopencookie(o,mode,io); o->fp=fp; s_open.push_back(o);
  return fp; }
FILE* __wrap_fopen(const char* p,const char* m){ return doOpen(p,m); }
FILE* __wrap_fopen64(const char* p,const char* m){ return doOpen(p,m); }
int __wrap_fileno(FILE* fp){ for(auto o:s_open) if(o->fp==fp) return o->fd; if(fp==stdout) return 1; if(fp==stderr) return 2; return 0; }
int __wrap_flock(int fd,int op){ Node* n=g_cur->node; if(fd<3||(size_t)fd>=n->fds.size()||n->fds[fd].kind!=2){ errno=EBADF; return -1; } OpenFile* o=(OpenFile*)n->fds[fd].file;
  if(op&LOCK_UN){ o->lock=false; return 0; } for(auto x:s_open) if(x!=o && !x->dead && x->f==o->f && x->lock){ errno=EWOULDBLOCK; return -1; } o->lock=true; return 0; }
int __wrap_fsync(int){ simYield("fsync"); return 0; }
int __wrap_fdatasync(int){ simYield("fsync"); return 0; }
static int rmfile(const char* path){ std::string p=norm(path); simYield("remove"); if(fs().erase(p)) return 0; if(dirs().erase(p)) return 0; errno=ENOENT; return -1; }
int __wrap_remove(const char* p){ return rmfile(p); }
int __wrap_unlink(const char* p){ return rmfile(p); }
int __wrap_rmdir(const char* p){ return rmfile(p); }
int __wrap_rename(const char* a,const char* b){ std::string x=norm(a),y=norm(b); simYield("rename"); auto it=fs().find(x); if(it==fs().end()){ errno=ENOENT; return -1; } SimFile* f=it->second; fs().erase(it); fs()[y]=f; simYield("renamed"); return 0; }
int __wrap_access(const char* path,int){ std::string p=norm(path); if(fs().count(p)||dirs().count(p)) return 0; errno=ENOENT; return -1; }
int __wrap_mkdir(const char* path,mode_t){ std::string p=norm(path); simYield("mkdir"); if(fs().count(p)||dirs().count(p)){ errno=EEXIST; return -1; } std::string d=p.substr(0,p.rfind('/')); if(d.empty()) d="/"; if(!dirs().count(d)){ errno=ENOENT; return -1; } dirs().insert(p); return 0; }
int __wrap_chmod(const char* path,mode_t){ return __wrap_access(path,0); }
static int dostat(const char* path,struct stat* st){ std::string p=norm(path); memset(st,0,sizeof *st); auto it=fs().find(p); if(it!=fs().end()){ st->st_mode=S_IFREG|0644; st->st_size=it->second->data.size(); return 0; } if(dirs().count(p)){ st->st_mode=S_IFDIR|0755; return 0; } errno=ENOENT; return -1; }
int __wrap_stat(const char* p,struct stat* st){ return dostat(p,st); }
int __wrap_stat64(const char* p,struct stat64* st){ return dostat(p,(struct stat*)st); }
int __wrap_lstat(const char* p,struct stat* st){ return dostat(p,st); }
int __wrap_lstat64(const char* p,struct stat64* st){ return dostat(p,(struct stat*)st); }
int __wrap_ioctl(int,unsigned long,...){ errno=ENODEV; return -1; }
}
