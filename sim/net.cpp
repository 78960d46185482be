// Simulated sockets, pipes and descriptor table.
#include "sim.h"
#include "fd.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>

vector<FdEnt>* fds; static deque<Conn*>* backlog; static int listen_fd=-1; static i64 fd_limit=100000;
void net_init(){ fds=new vector<FdEnt>(3); for(int i=0;i<3;i++) (*fds)[i].type=FD_SOCK; backlog=new deque<Conn*>(); listen_fd=-1; fd_limit=W->cfg.knob("fd_limit",100000); }
int fd_alloc(){ for(size_t i=3;i<fds->size();i++) if((*fds)[i].type==FD_NONE){ (*fds)[i]=FdEnt(); return (int)i; } if((i64)fds->size()>=fd_limit){ errno=EMFILE; return -1; } fds->push_back(FdEnt()); return (int)fds->size()-1; }
FdEnt* fd_get(int fd){ if(!fds||fd<0||fd>=(int)fds->size()||(*fds)[fd].type==FD_NONE) return nullptr; return &(*fds)[fd]; }
int node_open_fds(){ int n=0; for(size_t i=3;i<fds->size();i++) if((*fds)[i].type!=FD_NONE) n++; return n; }
int node_open_conns(){ int n=0; for(size_t i=3;i<fds->size();i++) if((*fds)[i].type==FD_CONN) n++; return n; }
bool net_listening(){ return listen_fd>=0; }

bool fd_readable(int fd){ FdEnt*e=fd_get(fd); if(!e) return false; switch(e->type){
  case FD_LISTEN: return !backlog->empty();
  case FD_CONN: { Conn*c=e->conn; return !c->srv_in.empty()||c->cli_fin_arrived||c->rst; }
  case FD_CLIENT: { Conn*c=e->conn; return !c->cli_in.empty()||c->cli_eof||c->cli_dead; }
  case FD_PIPE_R: return !e->pipe->buf.empty()||e->pipe->writers==0; default: return false; } }
bool fd_writable(int fd){ FdEnt*e=fd_get(fd); if(!e) return false; switch(e->type){
  case FD_CONN: { Conn*c=e->conn; return c->rst||c->cli_dead||(int)c->srv_out_pending<(c->sndbuf-c->sndbuf/(c->sndbuf>4000?3:16)); }
  case FD_PIPE_W: return e->pipe->buf.size()<e->pipe->cap; case FD_CLIENT: return true; default: return false; } }

// ---------------------------------------------------------------- client side
static i64 delay(){ double u=W->rnet.unit(); return (i64)(W->cfg.net_delay_ns*(0.3+1.4*u)); }
static void closed_later(Conn*c);
Conn* net_connect(int client){
  Conn*c=new Conn(); c->id=W->conns.size(); c->client=client; c->epoch=W->epoch; c->sndbuf=W->cfg.sndbuf; W->conns.push_back(c);
  at_node(delay(),[c]{ if(c->rst||c->cli_dead) return; if(listen_fd<0){ c->refused=true; c->cli_eof=true; director_conn_closed(c); return; }
     backlog->push_back(c); c->opened=true; fd_changed(listen_fd); director_connected(c); });
  return c; }
static void deliver_c2s(Conn*c,string data){ if(c->srv_closed||c->rst) return; c->srv_in+=data; H(data.size()*7+c->id); if(c->srv_fd>=0) fd_changed(c->srv_fd); }
void net_client_send(Conn*c,const string&data){
  if(c->cli_dead) return; c->tx+=data.size();
  size_t off=0; i64 t=std::max(c->c2s_last,W->now);
  while(off<data.size()){
    size_t n=data.size()-off;
    if(n>1 && fault_p(F_SEGMENT,W->cfg.p_seg)){ size_t m=1+W->rnet.below(std::min<size_t>(n-1,(size_t)W->cfg.seg_max)); n=m; }
    t+=delay(); string part=data.substr(off,n); off+=n;
    if(fault_p(F_NETDELAY,W->cfg.rate[F_NETDELAY])) t+=(i64)W->rnet.logu((u64)W->cfg.knob("netdelay_max_ms",200))*1000000LL;
    at_node(t-W->now,[c,part]{ deliver_c2s(c,part); });
  }
  c->c2s_last=t; }
void net_client_fin(Conn*c){ if(c->cli_dead) return; c->cli_dead=true; i64 t=std::max(c->c2s_last,W->now)+delay(); c->c2s_last=t;
  at_node(t-W->now,[c]{ c->cli_fin_arrived=true; c->srv_out_pending=0; if(c->srv_fd>=0) fd_changed(c->srv_fd); }); }
void net_client_rst(Conn*c){ if(c->cli_dead) return; c->cli_dead=true; i64 t=W->now+delay();
  at_node(t-W->now,[c]{ c->rst=true; c->srv_in.clear(); c->srv_out_pending=0; if(c->srv_fd>=0) fd_changed(c->srv_fd); }); }
static void arrive(Conn*c,const string&part){ size_t n=part.size(); c->srv_out_pending-=std::min(c->srv_out_pending,n); c->rx+=n; W->rx_step=W->step; c->cli_in+=part; H(n*13+c->id);
     if(c->srv_fd>=0) fd_changed(c->srv_fd); 
     if(c->client==-2){ fiber_wake(&c->cli_in,true); } else director_conn_data(c); }
static void push_s2c(Conn*c){ // move buffered server output to the client
  if(c->stalled||c->cli_dead) return; if(c->s2c_buf.empty()) return;
  size_t n=c->s2c_buf.size(); string part=c->s2c_buf; c->s2c_buf.clear();
  i64 t=std::max(c->s2c_last,W->now)+delay(); c->s2c_last=t;
  at_node(t-W->now,[c,part]{ if(c->cli_dead) return; if(c->stalled||!c->held.empty()){ c->held+=part; return; } arrive(c,part); });
}
void net_client_stall(Conn*c,bool s){ c->stalled=s; if(!s){ if(!c->held.empty()) at_node(1000,[c]{ if(c->cli_dead||c->stalled) return; string h; h.swap(c->held); if(!h.empty()) arrive(c,h); }); push_s2c(c); if(c->srv_closed) closed_later(c);} }
static void closed_later(Conn*c){ if(c->stalled) return; i64 t=std::max(c->s2c_last,W->now)+delay(); c->s2c_last=t; at_node(t-W->now,[c]{ if(c->cli_eof) return; if(c->stalled) return; c->cli_eof=true; if(c->client==-2) fiber_wake(&c->cli_in,true); else if(!c->cli_dead) director_conn_closed(c); }); }
void net_node_down(){ for(auto c:W->conns){ if(c->epoch==W->epoch && !c->cli_eof){ c->cli_eof=true; c->srv_closed=true; c->rst=true; bool dead=c->cli_dead; c->cli_dead=true; if(!dead && c->client!=-2) director_conn_closed(c); } } listen_fd=-1; }

static void conn_server_close(Conn*c){ c->srv_closed=true; c->srv_fd=-1; push_s2c(c); closed_later(c); }

extern "C" {
int sim_socket(int dom,int type,int){ int fd=fd_alloc(); if(fd<0) return -1; (*fds)[fd].type=(type&0xf)==SOCK_DGRAM?FD_UDP:FD_SOCK; (void)dom; return fd; }
int sim_bind(int fd,const struct sockaddr*a,socklen_t){ FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } e->port=ntohs(((struct sockaddr_in*)a)->sin_port); return 0; }
int sim_listen(int fd,int){ FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } if(e->type==FD_SOCK) e->type=FD_LISTEN; listen_fd=fd; return 0; }
int sim_getaddrinfo(const char*,const char*port,const struct addrinfo*h,struct addrinfo**o){ struct addrinfo*a=(struct addrinfo*)calloc(1,sizeof *a+sizeof(struct sockaddr_in)); struct sockaddr_in*s=(struct sockaddr_in*)(a+1); s->sin_family=AF_INET; s->sin_port=htons(atoi(port?port:"0")); a->ai_family=AF_INET; a->ai_socktype=h?h->ai_socktype:SOCK_STREAM; a->ai_addr=(struct sockaddr*)s; a->ai_addrlen=sizeof *s; *o=a; return 0; }
static struct hostent*host(const char*name,u32 ip,int n){ static struct hostent h; static u32 a[3]; static char*l[4]; static char nm[64]; snprintf(nm,sizeof nm,"%s",name); for(int i=0;i<n;i++){ a[i]=htonl(ip+i); l[i]=(char*)&a[i]; } l[n]=nullptr; h.h_name=nm; h.h_aliases=nullptr; h.h_addrtype=AF_INET; h.h_length=4; h.h_addr_list=l; return &h; }
struct hostent*sim_gethostbyname(const char*n){ return strstr(n,"nohost")?nullptr:host(n,0x0a0000c8,strstr(n,"cloud")?3:1); }
struct hostent*sim_gethostbyaddr(const void*,socklen_t,int){ return W->cfg.knob("no_reverse",0)?nullptr:host("cache-host",0x0a000064,1); }
int sim_gethostname(char*b,size_t n){ snprintf(b,n,"cachehost"); return 0; }
void sim_freeaddrinfo(struct addrinfo*a){ free(a); }
static void fill_addr(struct sockaddr*a,socklen_t*l,u32 ip,int port){ struct sockaddr_in s; memset(&s,0,sizeof s); s.sin_family=AF_INET; s.sin_addr.s_addr=htonl(ip); s.sin_port=htons(port); if(a&&l){ memcpy(a,&s,std::min<socklen_t>(*l,sizeof s)); *l=sizeof s; } }
int sim_accept(int fd,struct sockaddr*a,socklen_t*l){
  fiber_yield((u64)__builtin_return_address(0)); FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; }
  if(backlog->empty()){ errno=EAGAIN; return -1; }
  if(fault(F_ACCEPT_EMFILE)){ errno=EMFILE; return -1; }
  int nf=fd_alloc(); if(nf<0){ fault_note(F_ACCEPT_EMFILE); errno=EMFILE; return -1; }
  Conn*c=backlog->front(); backlog->pop_front();
  if(fault(F_ACCEPT_ABORT)){ c->rst=true; conn_server_close(c); errno=ECONNABORTED; return -1; }
  FdEnt&n=(*fds)[nf]; n.type=FD_CONN; n.conn=c; c->srv_fd=nf; c->accepted=true; fill_addr(a,l,c->client==-2?0x7f000001:0x0a000001+c->client,20000+c->id); H(nf*101+c->id); LOG("accept fd=%d conn=%d client=%d",nf,c->id,c->client);
  return nf; }
int sim_accept4(int fd,struct sockaddr*a,socklen_t*l,int){ return sim_accept(fd,a,l); }
int sim_setsockopt(int fd,int lv,int op,const void*v,socklen_t n){ FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } 
  if(lv==SOL_SOCKET&&(op==SO_RCVTIMEO||op==SO_SNDTIMEO)&&n>=sizeof(struct timeval)){ const struct timeval*t=(const struct timeval*)v; i64 x=(i64)t->tv_sec*1000000000LL+t->tv_usec*1000LL; (op==SO_RCVTIMEO?e->rcvtimeo:e->sndtimeo)=x?x:-1; }
  if(fault(F_SETSOCKOPT)){ errno=ENOBUFS; return -1; } return 0; }
int sim_getsockopt(int,int,int,void*v,socklen_t*n){ if(v&&n&&*n>=4) *(int*)v=std::min(1<<18,W->cfg.sndbuf); return 0; }
int sim_getpeername(int fd,struct sockaddr*a,socklen_t*l){ FdEnt*e=fd_get(fd); if(!e||e->type!=FD_CONN){ errno=ENOTCONN; return -1; } if(e->conn->rst){ errno=ENOTCONN; return -1; } fill_addr(a,l,e->conn->client==-2?0x7f000001:0x0a000001+e->conn->client,20000+e->conn->id); return 0; }
int sim_getsockname(int fd,struct sockaddr*a,socklen_t*l){ FdEnt*e=fd_get(fd); fill_addr(a,l,e&&e->type==FD_UDP?0x0a000064:0x7f000001,e&&e->port?e->port:11211); return 0; }
int sim_fcntl(int fd,int cmd,long arg){ FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } if(cmd==F_GETFL) return e->nonblock?O_NONBLOCK|O_RDWR:O_RDWR; if(cmd==F_SETFL) e->nonblock=(arg&O_NONBLOCK)!=0; return 0; }
int sim_connect(int fd,const struct sockaddr*a,socklen_t){
  FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } if(e->type==FD_UDP){ return 0; } (void)a;
  fiber_yield((u64)__builtin_return_address(0));
  if(listen_fd<0){ errno=ECONNREFUSED; return -1; }
  Conn*c=net_connect(-2); e=fd_get(fd); e->type=FD_CLIENT; e->conn=c; return 0; }
ssize_t sim_read(int fd,void*b,size_t n){
  fiber_yield((u64)__builtin_return_address(0)); FdEnt*e=fd_get(fd); if(!e){ LOG("read on closed fd %d",fd); errno=EBADF; return -1; }
  if(e->type==FD_FILE) return disk_read(e->of,b,n);
  if(e->type==FD_PIPE_R){ Pipe*p=e->pipe; while(p->buf.empty()){ if(p->writers==0) return 0; if(e->nonblock){ errno=EAGAIN; return -1; } fiber_block(p,-1,"pipe read"); } size_t k=std::min(n,p->buf.size()); if(k>1&&fault(F_PIPE_SHORT)) k=1; memcpy(b,p->buf.data(),k); p->buf.erase(0,k); fiber_wake((char*)p+1,true); return k; }
  if(e->type==FD_CONN){ Conn*c=e->conn;
    if(c->rst){ errno=ECONNRESET; return -1; }
    if(c->srv_in.empty()){ if(c->cli_fin_arrived) return 0; errno=EAGAIN; return -1; }
    if(fault_p(F_READ_AGAIN,W->cfg.p_ragain)){ errno=EAGAIN; return -1; }
    size_t k=std::min(n,c->srv_in.size()); if(k>1&&fault_p(F_READ_SHORT,W->cfg.p_rshort)) k=1+W->rnet.below(k-1);
    memcpy(b,c->srv_in.data(),k); c->srv_in.erase(0,k); H(k*17+fd); LOG("read fd=%d %zu of %zu \"%s\"",fd,k,n,esc(string((char*)b,k),60).c_str()); return k; }
  if(e->type==FD_CLIENT){ extern ssize_t sim_recv(int,void*,size_t,int); return sim_recv(fd,b,n,0); }
  errno=EINVAL; return -1; }
ssize_t sim_recv(int fd,void*b,size_t n,int flags){ FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } if(e->type!=FD_CLIENT) return sim_read(fd,b,n); (void)flags;
  Conn*c=e->conn; i64 dl=e->rcvtimeo>=0?W->now+e->rcvtimeo:-1;
  while(c->cli_in.empty()){ if(c->cli_eof) return 0; if(e->nonblock||(flags&MSG_DONTWAIT)){ errno=EAGAIN; return -1; } if(!fiber_block(&c->cli_in,dl,"recv")){ errno=EAGAIN; return -1; } }
  size_t k=std::min(n,c->cli_in.size()); memcpy(b,c->cli_in.data(),k); c->cli_in.erase(0,k); return k; }
static ssize_t conn_send(int fd,FdEnt*e,const struct iovec*iov,int cnt){
  Conn*c=e->conn;
  if(c->rst){ errno=ECONNRESET; return -1; } if(c->cli_fin_arrived&&c->cli_dead){ errno=EPIPE; return -1; }
  if(fault(F_SEND_ERR)){ c->rst=true; c->srv_in.clear(); if(!c->cli_dead){ c->cli_dead=true; Conn*cc=c; at_node(delay(),[cc]{ cc->cli_eof=true; if(cc->client!=-2) director_conn_closed(cc); }); } errno=ECONNRESET; return -1; }
  i64 space=(i64)c->sndbuf-(i64)c->srv_out_pending; if(space<=c->sndbuf/(c->sndbuf>4000?3:16)){ // like the kernel: a buffer counts as writable again only once a part of it is free
    fault_note(F_SEND_AGAIN); errno=EAGAIN; return -1; }
  if(fault_p(F_SEND_AGAIN,W->cfg.p_sagain)){ int f=fd; at_node(delay(),[f]{ fd_changed(f); }); errno=EAGAIN; return -1; }
  size_t tot=0; for(int i=0;i<cnt;i++) tot+=iov[i].iov_len; size_t k=std::min<size_t>(tot,space);
  if(k<tot) fault_note(F_SEND_SHORT);
  if(k>1&&fault_p(F_SEND_SHORT,W->cfg.p_sshort)) k=1+W->rnet.below(k-1);
  size_t left=k; string part; part.reserve(k); for(int i=0;i<cnt&&left;i++){ size_t m=std::min(left,iov[i].iov_len); extern void sim_check_read(const void*,size_t); sim_check_read(iov[i].iov_base,m); part.append((char*)iov[i].iov_base,m); left-=m; }
  c->s2c_buf+=part; c->srv_out_pending+=k; push_s2c(c); H(k*19+fd); return k; }
ssize_t sim_sendmsg(int fd,const struct msghdr*m,int){ fiber_yield((u64)__builtin_return_address(0)); FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } if(e->type==FD_UDP){ size_t t=0; for(size_t i=0;i<m->msg_iovlen;i++) t+=m->msg_iov[i].iov_len; return t; } if(e->type!=FD_CONN){ errno=EINVAL; return -1; } return conn_send(fd,e,m->msg_iov,m->msg_iovlen); }
ssize_t sim_write(int fd,const void*b,size_t n){
  fiber_yield((u64)__builtin_return_address(0)); FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; }
  if(e->type==FD_FILE) return disk_write(e->of,b,n);
  if(e->type==FD_PIPE_W){ Pipe*p=e->pipe; if(p->readers==0){ errno=EPIPE; return -1; } while(p->buf.size()+n>p->cap){ if(e->nonblock){ errno=EAGAIN; return -1; } fiber_block((char*)p+1,-1,"pipe write"); } p->buf.append((const char*)b,n); fiber_wake(p,true); for(size_t i=0;i<fds->size();i++) if((*fds)[i].type==FD_PIPE_R&&(*fds)[i].pipe==p) fd_changed(i); return n; }
  if(e->type==FD_CONN){ struct iovec v={(void*)b,n}; return conn_send(fd,e,&v,1); }
  if(e->type==FD_CLIENT){ net_client_send(e->conn,string((const char*)b,n)); return n; }
  errno=EINVAL; return -1; }
ssize_t sim_writev(int fd,const struct iovec*v,int c){ FdEnt*e=fd_get(fd); if(e&&e->type==FD_CONN) return conn_send(fd,e,v,c); ssize_t t=0; for(int i=0;i<c;i++){ ssize_t r=sim_write(fd,v[i].iov_base,v[i].iov_len); if(r<0) return t?t:-1; t+=r; if((size_t)r<v[i].iov_len) break; } return t; }
ssize_t sim_send(int fd,const void*b,size_t n,int){ FdEnt*e=fd_get(fd); if(e&&e->type==FD_CLIENT){ fiber_yield(5); if(e->conn->cli_eof){ errno=EPIPE; return -1; } net_client_send(e->conn,string((const char*)b,n)); return n; } return sim_write(fd,b,n); }
ssize_t sim_sendto(int fd,const void*b,size_t n,int f,const struct sockaddr*,socklen_t){ return sim_send(fd,b,n,f); }
ssize_t sim_recvfrom(int fd,void*b,size_t n,int,struct sockaddr*,socklen_t*){ FdEnt*e=fd_get(fd); if(!e){ errno=EBADF; return -1; } if(e->type==FD_UDP){ errno=EAGAIN; return -1; } return sim_read(fd,b,n); }
int sim_shutdown(int fd,int){ FdEnt*e=fd_get(fd); if(e&&e->type==FD_CLIENT) net_client_fin(e->conn); return 0; }
int sim_pipe(int p[2]){ int a=fd_alloc(); if(a<0) return -1; (*fds)[a].type=FD_PIPE_R; int b=fd_alloc(); if(b<0){ (*fds)[a].type=FD_NONE; return -1; } Pipe*q=new Pipe(); (*fds)[a].pipe=q; (*fds)[b].type=FD_PIPE_W; (*fds)[b].pipe=q; p[0]=a; p[1]=b; return 0; }
int sim_close(int fd){
  fiber_yield((u64)__builtin_return_address(0)); FdEnt*e=fd_get(fd); if(!e||fd<3){ LOG("close of bad fd %d",fd); if(W->cfg.knob("strict_close",1)&&fd>=0) { violate("bad-close","close(%d) of a descriptor that is not open, thread %s",fd,cur_fname()); } errno=EBADF; return -1; }
  FdEnt x=*e; e->type=FD_NONE; H(fd*23);
  switch(x.type){ case FD_FILE: if(fault(F_D_CLOSE)){ disk_close(x.of); errno=EIO; return -1; } disk_close(x.of); break; case FD_CONN: LOG("server closes fd=%d conn=%d",fd,x.conn->id); conn_server_close(x.conn); break; case FD_CLIENT: net_client_fin(x.conn); break;
    case FD_PIPE_R: x.pipe->readers--; break; case FD_PIPE_W: x.pipe->writers--; fiber_wake(x.pipe,true); break; case FD_LISTEN: if(listen_fd==fd) listen_fd=-1; for(auto c:*backlog){ c->rst=true; conn_server_close(c);} backlog->clear(); break; }
  return 0; }
int sim_poll(struct pollfd*p,nfds_t n,int ms){ i64 dl=ms<0?-1:W->now+(i64)ms*1000000LL; for(;;){ int r=0; for(nfds_t i=0;i<n;i++){ p[i].revents=0; if((p[i].events&POLLIN)&&fd_readable(p[i].fd)) p[i].revents|=POLLIN; if((p[i].events&POLLOUT)&&fd_writable(p[i].fd)) p[i].revents|=POLLOUT; if(p[i].revents) r++; } if(r||ms==0) return r; if(dl>=0&&W->now>=dl) return 0; char k; i64 t=W->now+1000000; if(dl>=0&&t>dl)t=dl; fiber_block(&k,t,"poll"); } }
}
