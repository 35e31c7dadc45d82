// Simulated stream sockets, select/poll, and connection faults.
#include <ctype.h>
#include "sim.h"
#include "api.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <string.h>
#include <unistd.h>
#include <stdarg.h>
#include <deque>
#include <algorithm>

int simAllocFd(Node* n); extern "C" int __wrap_fclose_fd(int);
struct Seg { i64 at; std::string d; size_t off=0; };
struct Sock {
  int id; Node* node; int domain; enum { NEW, BOUND, LISTEN, CONN, CLOSED } st=NEW; std::string addr;
  Sock* peer=nullptr; std::deque<Seg> rx; size_t rxBytes=0; bool peerClosed=false; i64 eofAt=-1; bool rst=false; bool nb=false; bool shutRd=false, shutWr=false;
  std::deque<Sock*> backlog; i64 lastAt=0; i64 stalledUntil=0; std::string remote; std::string boundAddr;
};
static std::map<std::string,Sock*> s_listen; static int s_id; static std::vector<Sock*> s_all;
std::function<bool(Node*,const std::string&)> g_connectFault; std::function<bool(Node*)> g_socketFault;
static Sock* mk(Node* n,int dom){ Sock* s=new Sock; s->id=++s_id; s->node=n; s->domain=dom; s_all.push_back(s); return s; }
static Sock* get(int fd){ Node* n=g_cur->node; if(fd<0||(size_t)fd>=n->fds.size()||n->fds[fd].kind!=1) return nullptr; return n->fds[fd].sock; }
static bool readable(Sock* s){ if(s->st==Sock::LISTEN) return !s->backlog.empty(); if(s->st!=Sock::CONN) return true; if(s->shutRd) return true; if(!s->rx.empty()) return s->rx.front().at<=g_now && s->stalledUntil<=g_now; if(s->rst) return true; if(s->eofAt>=0 && s->eofAt<=g_now) return true; return false; }
static size_t space(Sock* s){ Sock* p=s->peer; if(!p) return 0; return p->rxBytes>=K.sockBuf?0:K.sockBuf-p->rxBytes; }
static bool writable(Sock* s){ return s->st!=Sock::CONN||s->rst||s->peerClosed||s->shutWr||space(s)>0; }
static void poke(Sock* s){ if(s&&s->node) notifyNet(s->node); }
static void pokeAt(Sock* s,i64 t){ if(t<=g_now) poke(s); else at(t,[s]{ poke(s); }); }
static void closeSock(Sock* s){
  if(s->st==Sock::CLOSED) return; auto old=s->st; s->st=Sock::CLOSED;
  if(old==Sock::LISTEN){ auto it=s_listen.find(s->addr); if(it!=s_listen.end()&&it->second==s) s_listen.erase(it); for(auto b:s->backlog){ if(b->peer){ b->peer->eofAt=g_now; b->peer->peerClosed=true; b->peer->rst=true; Sock* p=b->peer; p->peer=nullptr; b->peer=nullptr; poke(p); } b->st=Sock::CLOSED; } }
  if(s->peer){ Sock* p=s->peer; p->peerClosed=true; if(s->rxBytes>0 && s->domain!=AF_UNIX) p->rst=true; if(s->rxBytes>0 && s->domain==AF_UNIX) p->rst=true; i64 t=std::max(g_now,p->lastAt); p->eofAt=t; p->peer=nullptr; s->peer=nullptr; pokeAt(p,t); }
  poke(s);
}
void closeNodeFds(Node* n){ for(auto& e:n->fds){ if(e.kind==1){ Sock* s=e.sock; e=FdEnt(); closeSock(s); } } }
static void breakConn(Sock* s){ if(s->st!=Sock::CONN) return; Sock* p=s->peer; s->rst=true; s->peerClosed=true; s->rx.clear(); s->rxBytes=0; s->peer=nullptr; if(p){ p->rst=true; p->peerClosed=true; p->rx.clear(); p->rxBytes=0; p->peer=nullptr; poke(p);} poke(s); fault(F_RESET); }
void resetConnections(Node* a,Node* b){ for(auto s:s_all) if(s->st==Sock::CONN && s->node==a && s->peer && s->peer->node==b) breakConn(s); }
int countConns(Node* a){ int c=0; for(auto s:s_all) if(s->st==Sock::CONN&&s->node==a&&s->peer) c++; return c; }
void resetNth(Node* a,u32 k){ std::vector<Sock*> v; for(auto s:s_all) if(s->st==Sock::CONN&&s->node==a&&s->peer) v.push_back(s); if(v.size()) breakConn(v[k%v.size()]); }
static std::string addrOf(const struct sockaddr* a){ if(a->sa_family==AF_UNIX) return std::string("unix:")+((struct sockaddr_un*)a)->sun_path; if(a->sa_family==AF_INET) return strf("tcp:%u",ntohs(((struct sockaddr_in*)a)->sin_port)); return strf("tcp6:%u",ntohs(((struct sockaddr_in6*)a)->sin6_port)); }
// deliver n bytes from s to its peer, possibly cut and delayed
static void push(Sock* s,const char* d,size_t n){ Sock* p=s->peer; i64 base=std::max(g_now,p->lastAt);
  while(n){ size_t k=n; i64 t=base;
    if(K.delays){ if(n>1 && chance(ST_NET,1,4)) k=1+choose(ST_NET,(u32)std::min<size_t>(n,4096)); if(chance(ST_NET,1,3)){ t=std::max(base,g_now+chooseRange(ST_NET,1*US,K.maxDelay)); fault(F_NETDELAY); } }
    p->rx.push_back(Seg{t,std::string(d,k),0}); p->rxBytes+=k; p->lastAt=t; base=t; d+=k; n-=k; pokeAt(p,t); } }
static ssize_t doSend(Sock* s,const std::string& all,int flags){
  Node* n=g_cur->node; simYield("send"); size_t off=0;
  for(;;){
    if(s->st!=Sock::CONN){ errno= s->st==Sock::CLOSED?EBADF:ENOTCONN; return off?off:-1; }
    if(s->rst||s->peerClosed||s->shutWr){ if(off) return off; if(!(flags&MSG_NOSIGNAL)){ logev("SIGPIPE"); simExit(n,141); } errno= (s->rst && !s->shutWr && chance(ST_NET,1,2))?ECONNRESET:EPIPE; return -1; }
    if(K.shortWrites && !off && chance(ST_NET,1,12)){ fault(F_EINTR); errno=EINTR; return -1; }
    size_t sp=space(s); if(sp){ size_t k=std::min(sp,all.size()-off);
      if(K.shortWrites && k>1 && chance(ST_NET,1,6)){ k=1+choose(ST_NET,(u32)std::min<size_t>(k-1,4096)); push(s,all.data()+off,k); off+=k; fault(F_SHORTWRITE); return off; }
      push(s,all.data()+off,k); off+=k; if(off==all.size()){ simYield("sent"); return off; } 
      fault(F_SMALLBUF); continue; }
    if(s->nb||(flags&MSG_DONTWAIT)){ if(off) return off; errno=EAGAIN; return -1; }
    Fiber* f=g_cur; f->inCancelPoint=true; fault(F_SMALLBUF); blockOn(s,"send-full",-1,false,[s]{ return writable(s); }); f->inCancelPoint=false; cancelPoint();
  }
}
// a signal handler (the application's) interrupts a blocking call: when, or -1
static i64 signalAt(){ return K.shortWrites && g_cur->node->kind!=NK_RAW && chance(ST_NET,1,16) ? g_now+chooseRange(ST_NET,0,5*MS) : -1; }
static ssize_t doRecv(Sock* s,void* buf,size_t n,int flags,i64 deadline=-1){
  simYield("recv"); cancelPoint();
  for(;;){
    if(s->st==Sock::CLOSED){ errno=EBADF; return -1; } if(s->st!=Sock::CONN){ errno=s->domain==AF_UNIX?EINVAL:ENOTCONN; return -1; }
    if(n==0) return 0;
    if(s->rx.size() && s->rx.front().at<=g_now && s->stalledUntil<=g_now){
      size_t want=n; if(K.shortReads && n>1 && !(flags&MSG_WAITALL) && chance(ST_NET,K.shortReadPct,100)){ want=1+choose(ST_NET,(u32)std::min<size_t>(n-1,2048)); fault(F_SHORTREAD); }
      size_t got=0; char* o=(char*)buf; 
      if(flags&MSG_PEEK){ Seg& g=s->rx.front(); got=std::min(want,g.d.size()-g.off); memcpy(o,g.d.data()+g.off,got); return got; }
      while(got<want && s->rx.size() && s->rx.front().at<=g_now){ Seg& g=s->rx.front(); size_t k=std::min(want-got,g.d.size()-g.off); memcpy(o+got,g.d.data()+g.off,k); g.off+=k; got+=k; s->rxBytes-=k; if(g.off==g.d.size()) s->rx.pop_front(); }
      if(s->peer) poke(s->peer);
      return got; }
    if(s->rst && s->rx.empty()){ s->rst=false; s->eofAt=0; errno=ECONNRESET; return -1; }
    if(s->shutRd || (s->eofAt>=0 && s->eofAt<=g_now && s->rx.empty())) return 0;
    if(s->nb||(flags&MSG_DONTWAIT)){ errno=EAGAIN; return -1; }
    i64 sig=signalAt(); bool bySig=sig>=0&&(deadline<0||sig<deadline);
    Fiber* f=g_cur; f->inCancelPoint=true; bool ok=blockOn(s,"recv",bySig?sig:deadline,false,[s]{ return readable(s); }); f->inCancelPoint=false; cancelPoint(); if(!ok){ if(bySig){ fault(F_EINTR); errno=EINTR; return -1; } errno=EAGAIN; return -2; }
  }
}
static int doConnect(Sock* s,const std::string& a){
  Node* n=g_cur->node; simYield("connect"); cancelPoint();
  if(s->st==Sock::CONN){ errno=EISCONN; return -1; }
  if(g_connectFault && g_connectFault(n,a)){ fault(F_CONNREFUSE); errno=ECONNREFUSED; return -1; }
  auto it=s_listen.find(a); if(it==s_listen.end()){ errno= (a.compare(0,5,"unix:")==0 && !fsExists(a.substr(5)))?ENOENT:ECONNREFUSED; return -1; }
  Sock* l=it->second; if(l->backlog.size()>16){ errno=EAGAIN; return -1; }
  Sock* p=mk(l->node,s->domain); p->st=s->st=Sock::CONN; p->peer=s; s->peer=p; p->remote=strf("node%d",n->id); s->remote=a; p->boundAddr=l->addr; l->backlog.push_back(p); poke(l); trace("connect %s",a.c_str()); simYield("connected"); return 0;
}
static int accept_(Sock* l,struct sockaddr* a,socklen_t* len){ simYield("accept"); cancelPoint();
  for(;;){ if(l->st!=Sock::LISTEN){ errno= l->st==Sock::CLOSED?EBADF:EINVAL; return -1; } if(l->shutRd){ errno=EINVAL; return -1; }
    if(l->backlog.size()){ Sock* s=l->backlog.front(); l->backlog.pop_front(); Node* n=g_cur->node; int fd=simAllocFd(n); n->fds[fd].kind=1; n->fds[fd].sock=s;
      if(a&&len){ if(l->domain==AF_UNIX){ struct sockaddr_un u; memset(&u,0,sizeof u); u.sun_family=AF_UNIX; memcpy(a,&u,std::min<size_t>(*len,sizeof(sa_family_t))); *len=sizeof(sa_family_t); } else { struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_port=htons(30000+s->id); in.sin_addr.s_addr=htonl(INADDR_LOOPBACK); memcpy(a,&in,std::min<size_t>(*len,sizeof in)); *len=sizeof in; } }
      return fd; }
    if(l->nb){ errno=EAGAIN; return -1; }
    Fiber* f=g_cur; f->inCancelPoint=true; blockOn(l,"accept",-1,false,[l]{ return readable(l)||l->shutRd; }); f->inCancelPoint=false; cancelPoint(); } }

extern "C" {
int __wrap_socket(int d,int t,int){ if((t&0xf)!=SOCK_STREAM){ errno=EPROTONOSUPPORT; return -1; } Node* n=g_cur->node; simYield("socket"); if(g_socketFault&&g_socketFault(n)){ fault(F_SOCKFAIL); errno=EMFILE; return -1; } int fd=simAllocFd(n); n->fds[fd].kind=1; n->fds[fd].sock=mk(n,d); return fd; }
int __wrap_bind(int fd,const struct sockaddr* a,socklen_t){ Sock* s=get(fd); if(!s){ errno=EBADF; return -1; } simYield("bind"); std::string ad=addrOf(a);
  if(a->sa_family==AF_UNIX){ if(fsExists(ad.substr(5))){ errno=EADDRINUSE; return -1; } fsWrite(ad.substr(5),""); auto it=s_listen.find(ad); if(it!=s_listen.end()) s_listen.erase(it); } else if(s_listen.count(ad)){ errno=EADDRINUSE; return -1; }
  s->addr=ad; s->st=Sock::BOUND; return 0; }
int __wrap_listen(int fd,int){ Sock* s=get(fd); if(!s){ errno=EBADF; return -1; } simYield("listen"); if(s->st!=Sock::BOUND&&s->st!=Sock::LISTEN){ errno=EINVAL; return -1; } s->st=Sock::LISTEN; s_listen[s->addr]=s; return 0; }
int __wrap_accept(int fd,struct sockaddr* a,socklen_t* l){ Sock* s=get(fd); if(!s){ errno=EBADF; return -1; } return accept_(s,a,l); }
int __wrap_accept4(int fd,struct sockaddr* a,socklen_t* l,int){ return __wrap_accept(fd,a,l); }
int __wrap_connect(int fd,const struct sockaddr* a,socklen_t){ Sock* s=get(fd); if(!s){ errno=EBADF; return -1; } return doConnect(s,addrOf(a)); }
int __wrap_shutdown(int fd,int how){ Sock* s=get(fd); simYield("shutdown"); if(!s){ errno=EBADF; return -1; } if(s->st!=Sock::CONN && s->st!=Sock::LISTEN){ errno=ENOTCONN; return -1; }
  if(how==SHUT_RD||how==SHUT_RDWR) s->shutRd=true; if(how==SHUT_WR||how==SHUT_RDWR){ s->shutWr=true; if(s->peer){ s->peer->eofAt=std::max(g_now,s->peer->lastAt); pokeAt(s->peer,s->peer->eofAt); } } poke(s); return 0; }
int __wrap_close(int fd){ Node* n=g_cur->node; simYield("close"); if(fd<0||(size_t)fd>=n->fds.size()||!n->fds[fd].kind){ errno=EBADF; return -1; } if(n->fds[fd].kind==1){ Sock* s=n->fds[fd].sock; n->fds[fd]=FdEnt(); closeSock(s); } else n->fds[fd]=FdEnt(); simYield("closed"); return 0; }
int __wrap_fcntl(int fd,int c,...){ va_list a; va_start(a,c); long v=va_arg(a,long); va_end(a); Node* n=g_cur->node; if(fd<0||(size_t)fd>=n->fds.size()||!n->fds[fd].kind){ errno=EBADF; return -1; } Sock* s=get(fd); if(c==F_GETFL) return s&&s->nb?O_NONBLOCK|O_RDWR:O_RDWR; if(c==F_SETFL){ if(s) s->nb=(v&O_NONBLOCK)!=0; return 0; } return 0; }
int __wrap_fcntl64(int fd,int c,...){ va_list a; va_start(a,c); long v=va_arg(a,long); va_end(a); return __wrap_fcntl(fd,c,v); }
int __wrap_setsockopt(int fd,int,int,const void*,socklen_t){ if(!get(fd)){ errno=EBADF; return -1; } return 0; }
int __wrap_getsockopt(int fd,int,int,void* v,socklen_t* l){ if(!get(fd)){ errno=EBADF; return -1; } if(v&&l) memset(v,0,*l); return 0; }
int __wrap_getsockname(int fd,struct sockaddr* a,socklen_t* l){ Sock* s=get(fd); if(!s){ errno=EBADF; return -1; } if(s->domain==AF_UNIX){ struct sockaddr_un u; memset(&u,0,sizeof u); u.sun_family=AF_UNIX; memcpy(a,&u,std::min<size_t>(*l,sizeof(sa_family_t))); *l=sizeof(sa_family_t); } else { struct sockaddr_in in; memset(&in,0,sizeof in); in.sin_family=AF_INET; in.sin_port=htons(30000+s->id); in.sin_addr.s_addr=htonl(INADDR_LOOPBACK); memcpy(a,&in,std::min<size_t>(*l,sizeof in)); *l=sizeof in; } return 0; }
int __wrap_getpeername(int fd,struct sockaddr* a,socklen_t* l){ return __wrap_getsockname(fd,a,l); }
ssize_t __wrap_sendmsg(int fd,const struct msghdr* m,int fl){ Sock* s=get(fd); if(!s){ simYield("send"); errno=fd>=0&&(size_t)fd<g_cur->node->fds.size()&&g_cur->node->fds[fd].kind?ENOTSOCK:EBADF; return -1; } std::string all; for(size_t i=0;i<m->msg_iovlen;i++) all.append((const char*)m->msg_iov[i].iov_base,m->msg_iov[i].iov_len); static bool tr=getenv("SIM_NET"); if(tr){ std::string o; for(size_t i=0;i<all.size()&&o.size()<300;i++) if(isprint((unsigned char)all[i])) o+=all[i]; else if(!o.empty()&&o.back()!=' ') o+=' '; trace("SEND fd%d %zu %s",fd,all.size(),o.c_str()); } return doSend(s,all,fl); }
ssize_t __wrap_send(int fd,const void* b,size_t n,int fl){ struct iovec v={(void*)b,n}; struct msghdr m; memset(&m,0,sizeof m); m.msg_iov=&v; m.msg_iovlen=1; return __wrap_sendmsg(fd,&m,fl); }
ssize_t __wrap_write(int fd,const void* b,size_t n){ return __wrap_send(fd,b,n,0); }
ssize_t __wrap_writev(int fd,const struct iovec* v,int c){ struct msghdr m; memset(&m,0,sizeof m); m.msg_iov=(struct iovec*)v; m.msg_iovlen=c; return __wrap_sendmsg(fd,&m,0); }
ssize_t __wrap_recv(int fd,void* b,size_t n,int fl){ Sock* s=get(fd); if(!s){ simYield("recv"); errno=EBADF; return -1; } 
  ssize_t r=doRecv(s,b,n,fl); return r; }
ssize_t __wrap_read(int fd,void* b,size_t n){ return __wrap_recv(fd,b,n,0); }
ssize_t __wrap_recvmsg(int fd,struct msghdr* m,int fl){ return __wrap_recv(fd,m->msg_iov[0].iov_base,m->msg_iov[0].iov_len,fl); }
int __wrap_select(int nfds,fd_set* r,fd_set* w,fd_set* e,struct timeval* tv){
  simYield("select"); cancelPoint(); Node* n=g_cur->node; i64 dl= tv? g_now+(i64)tv->tv_sec*SEC+(i64)tv->tv_usec*US : -1;
  fd_set ir,iw; if(r) ir=*r; else FD_ZERO(&ir); if(w) iw=*w; else FD_ZERO(&iw);
  auto eval=[&](fd_set* orr,fd_set* ow)->int{ int c=0; for(int i=0;i<nfds;i++){ if(FD_ISSET(i,&ir)){ if((size_t)i>=n->fds.size()||!n->fds[i].kind) return -1; Sock* s=n->fds[i].kind==1?n->fds[i].sock:nullptr; if(!s||readable(s)){ c++; if(orr) FD_SET(i,orr); } } if(FD_ISSET(i,&iw)){ if((size_t)i>=n->fds.size()||!n->fds[i].kind) return -1; Sock* s=n->fds[i].kind==1?n->fds[i].sock:nullptr; if(!s||writable(s)){ c++; if(ow) FD_SET(i,ow); } } } return c; };
  for(;;){ fd_set orr,ow; FD_ZERO(&orr); FD_ZERO(&ow); int c=eval(&orr,&ow); if(c<0){ errno=EBADF; return -1; }
    if(c>0){ if(r)*r=orr; if(w)*w=ow; if(e) FD_ZERO(e); return c; }
    if(dl>=0 && g_now>=dl){ if(r)FD_ZERO(r); if(w)FD_ZERO(w); if(e)FD_ZERO(e); return 0; }
    i64 sig=signalAt(); bool bySig=sig>=0&&(dl<0||sig<dl);
    Fiber* f=g_cur; f->inCancelPoint=true; bool ok=blockOn(&f->id,"select",bySig?sig:dl,false,[&]{ return eval(nullptr,nullptr)!=0; }); f->inCancelPoint=false; cancelPoint(); if(!ok&&bySig){ fault(F_EINTR); errno=EINTR; return -1; } }
}
int __wrap_poll(struct pollfd* p,nfds_t k,int ms){ simYield("poll"); cancelPoint(); Node* n=g_cur->node; i64 dl=ms<0?-1:g_now+(i64)ms*MS;
  auto eval=[&]()->int{ int c=0; for(nfds_t i=0;i<k;i++){ p[i].revents=0; if(p[i].fd<0) continue; if((size_t)p[i].fd>=n->fds.size()||!n->fds[p[i].fd].kind){ p[i].revents=POLLNVAL; c++; continue; } Sock* s=n->fds[p[i].fd].sock; if((p[i].events&POLLIN)&&readable(s)) p[i].revents|=POLLIN; if((p[i].events&POLLOUT)&&writable(s)) p[i].revents|=POLLOUT; if(s->peerClosed&&s->rx.empty()) p[i].revents|=POLLHUP; if(p[i].revents) c++; } return c; };
  for(;;){ int c=eval(); if(c) return c; if(dl>=0&&g_now>=dl) return 0; Fiber* f=g_cur; f->inCancelPoint=true; blockOn(&f->id,"poll",dl,false,[&]{ return eval()!=0; }); f->inCancelPoint=false; cancelPoint(); } }
}
// raw clients driven by the simulator (run in a fiber of an NK_RAW node)
int rawConnect(Node* n,const std::string& a){ (void)n; int fd=__wrap_socket(a.compare(0,5,"unix:")==0?AF_UNIX:AF_INET,SOCK_STREAM,0); if(doConnect(get(fd),a)){ __wrap_close(fd); return -1; } return fd; }
ssize_t rawSend(int fd,const void* p,size_t n){ return __wrap_send(fd,p,n,MSG_NOSIGNAL); }
ssize_t rawRecv(int fd,void* p,size_t n,i64 to){ Sock* s=get(fd); if(!s) return -1; return doRecv(s,p,n,0,to<0?-1:g_now+to); }
void rawClose(int fd){ __wrap_close(fd); }
bool rawEof(int fd){ Sock* s=get(fd); return !s||s->peerClosed; }
bool simListening(const std::string& a){ return s_listen.count(a)!=0; }
