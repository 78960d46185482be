// Thread, time, process and libevent services of the simulated operating system.
#include "sim.h"
#include "fd.h"
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <pwd.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <event.h>
#include <dlfcn.h>

bool tolerate_assert(const char*,const char*,const char*);
// ------------------------------------------------------------ threads
struct SMutex { int owner; int kind; int count; };
extern Fiber* fiber_get(int); extern bool fiber_done(int); extern void fiber_detach(int); extern const void* fiber_joinkey(int); extern void fiber_set_ret(void*); extern void* fiber_ret(int);
static map<const void*,int>* detach_attr;
extern "C" {
int sim_pthread_attr_init(pthread_attr_t*a){ *(int*)a=0; return 0; }
int sim_pthread_attr_destroy(pthread_attr_t*){ return 0; }
int sim_pthread_attr_setdetachstate(pthread_attr_t*a,int d){ *(int*)a=d; return 0; }
int sim_pthread_attr_setscope(pthread_attr_t*,int){ return 0; }
int sim_pthread_attr_setstacksize(pthread_attr_t*,size_t){ return 0; }
static int thread_no=0;
int sim_pthread_create(pthread_t*t,const pthread_attr_t*a,void*(*fn)(void*),void*arg){
  fiber_yield((u64)__builtin_return_address(0));
  if(fault(F_THREAD_CREATE)) return EAGAIN;
  int id=fiber_spawn(strf("t%d",++thread_no).c_str(),[fn,arg]{ fiber_set_ret(fn(arg)); }); if(id<0) return EAGAIN;
  if(a&&*(int*)a==PTHREAD_CREATE_DETACHED) fiber_detach(id);
  *t=(pthread_t)(id+1); return 0; }
int sim_pthread_join(pthread_t t,void**r){ int id=(int)t-1; fiber_yield((u64)__builtin_return_address(0)); while(!fiber_done(id)) fiber_block(fiber_joinkey(id),-1,"pthread_join"); if(r) *r=fiber_ret(id); fiber_detach(id); return 0; }
int sim_pthread_detach(pthread_t t){ fiber_detach((int)t-1); return 0; }
pthread_t sim_pthread_self(){ return (pthread_t)(cur_fid()+1); }
int sim_pthread_equal(pthread_t a,pthread_t b){ return a==b; }
int sim_pthread_mutexattr_init(pthread_mutexattr_t*a){ *(int*)a=0; return 0; }
int sim_pthread_mutexattr_settype(pthread_mutexattr_t*a,int k){ *(int*)a=k; return 0; }
int sim_pthread_mutexattr_destroy(pthread_mutexattr_t*){ return 0; }
int sim_pthread_mutex_init(pthread_mutex_t*m,const pthread_mutexattr_t*a){ SMutex*s=(SMutex*)m; s->owner=0; s->kind=a?*(int*)a:0; s->count=0; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t*){ return 0; }
static int lock_(SMutex*s){
  int me=cur_fid()+1;
  if(s->owner==me){ if(s->kind==PTHREAD_MUTEX_RECURSIVE){ s->count++; return 0; } violate("deadlock","thread %s locks a mutex it already holds",cur_fname()); }
  while(s->owner){ fiber_block(s,-1,"mutex"); }
  s->owner=me; s->count=1; return 0; }
static void unlock_(SMutex*s){ if(s->kind==PTHREAD_MUTEX_RECURSIVE && --s->count>0) return; s->owner=0; fiber_wake(s,true); }
int sim_pthread_mutex_lock(pthread_mutex_t*m){ fiber_yield((u64)__builtin_return_address(0)); int rc=lock_((SMutex*)m); sim_locked(); return rc; }
int sim_pthread_mutex_trylock(pthread_mutex_t*m){ fiber_yield((u64)__builtin_return_address(0)); SMutex*s=(SMutex*)m; if(s->owner){ if(s->owner==cur_fid()+1&&s->kind==PTHREAD_MUTEX_RECURSIVE){ s->count++; return 0;} return EBUSY; } s->owner=cur_fid()+1; s->count=1; return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t*m){ SMutex*s=(SMutex*)m; unlock_(s); fiber_yield((u64)__builtin_return_address(0)); return 0; }
int sim_pthread_cond_init(pthread_cond_t*,const pthread_condattr_t*){ return 0; }
int sim_pthread_cond_destroy(pthread_cond_t*){ return 0; }
static int cwait(pthread_cond_t*c,pthread_mutex_t*m,i64 deadline){
  SMutex*s=(SMutex*)m; int cnt=s->count; s->owner=0; s->count=0; fiber_wake(s,true);
  bool ok=true;
  if(fault(F_SPURIOUS_WAKE)){ fiber_yield(77); }
  else ok=fiber_block(c,deadline,"cond_wait");
  while(s->owner) fiber_block(s,-1,"mutex(after cond)");
  s->owner=cur_fid()+1; s->count=cnt; return ok?0:ETIMEDOUT; }
int sim_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m){ return cwait(c,m,-1); }
int sim_pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const struct timespec*ts){
  i64 dl=(i64)ts->tv_sec*1000000000LL+ts->tv_nsec-W->wall_off; if(dl<=W->now){ SMutex*s=(SMutex*)m; int cnt=s->count; s->owner=0; fiber_wake(s,true); fiber_yield(78); while(s->owner) fiber_block(s,-1,"mutex(after cond)"); s->owner=cur_fid()+1; s->count=cnt; return ETIMEDOUT; }
  return cwait(c,m,dl); }
int sim_pthread_cond_signal(pthread_cond_t*c){ fiber_yield((u64)__builtin_return_address(0)); fiber_wake(c,false); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t*c){ fiber_yield((u64)__builtin_return_address(0)); fiber_wake(c,true); return 0; }
int sim_pthread_once(pthread_once_t*o,void(*f)()){ if(*(int*)o==0){ *(int*)o=1; f(); } return 0; }
int sim_pthread_rwlock_init(pthread_rwlock_t*m,const pthread_rwlockattr_t*){ SMutex*s=(SMutex*)m; s->owner=0; s->kind=0; s->count=0; return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t*){ return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t*m){ fiber_yield(1); SMutex*s=(SMutex*)m; while(s->owner>0) fiber_block(s,-1,"rwlock"); s->owner--; return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t*m){ fiber_yield(1); SMutex*s=(SMutex*)m; while(s->owner) fiber_block(s,-1,"rwlock"); s->owner=1; return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t*m){ SMutex*s=(SMutex*)m; if(s->owner<0) s->owner++; else s->owner=0; fiber_wake(s,true); fiber_yield(1); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t*l,int){ *(int*)l=0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t*){ return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t*l){ fiber_yield(1); while(*(int*)l) fiber_block((void*)l,-1,"spin"); *(int*)l=1; return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t*l){ *(int*)l=0; fiber_wake((void*)l,true); fiber_yield(1); return 0; }
int sim_sched_yield(){ fiber_block("yield",W->now+1,"sched_yield"); return 0; }

// ---------------------------------------------------------- time
static char sleep_key;
static void slp(i64 ns){ if(ns<1) ns=1; char k; (void)k; fiber_block(&k,W->now+ns,"sleep"); }
int sim_usleep(unsigned us){ slp((i64)us*1000); return 0; }
unsigned sim_sleep(unsigned s){ slp((i64)s*1000000000LL); return 0; }
int sim_nanosleep(const struct timespec*t,struct timespec*){ slp((i64)t->tv_sec*1000000000LL+t->tv_nsec); return 0; }
int sim_gettimeofday(struct timeval*tv,void*){ W->now+=20; i64 r=W->now+W->wall_off; tv->tv_sec=r/1000000000LL; tv->tv_usec=(r/1000)%1000000; return 0; }
time_t sim_time(time_t*t){ W->now+=20; time_t r=(W->now+W->wall_off)/1000000000LL; if(t)*t=r; return r; }
int sim_clock_gettime(int id,struct timespec*ts){ W->now+=20; i64 r=W->now+((id==CLOCK_REALTIME||id==CLOCK_REALTIME_COARSE)?W->wall_off:0); ts->tv_sec=r/1000000000LL; ts->tv_nsec=r%1000000000LL; return 0; }
struct tm* sim_localtime(const time_t*t){ static struct tm r; time_t x=*t+W->tz_off; return gmtime_r(&x,&r); }
struct tm* sim_localtime_r(const time_t*t,struct tm*o){ time_t x=*t+W->tz_off; t=&x; return gmtime_r(t,o); }
// ---------------------------------------------------------- process
int sim_rand(){ return (int)(W->rmisc.next()&0x7fffffff); }
void sim_srand(unsigned){}
long sim_random(){ return (long)(W->rmisc.next()&0x7fffffff); }
void sim_srandom(unsigned){}
void sim_exit(int c){ node_stop(NX_EXIT,c,strf("exit(%d) by %s",c,cur_fname())); }
void sim__exit(int c){ node_stop(NX_EXIT,c,strf("_exit(%d) by %s",c,cur_fname())); }
void sim_abort(){ violate("server-abort","abort() called in thread %s",cur_fname()); _exit(3); }
void sim_assert_fail(const char*e,const char*f,unsigned l,const char*fn){ 
  const char*b=strrchr(f,'/'); b=b?b+1:f;
  if(tolerate_assert(e,b,fn)) node_stop(NX_CRASH,0,strf("assert %s",e));
  violate("assertion-failure","assertion `%s' failed in %s (%s:%u) thread %s",e,fn,b,l,cur_fname()); _exit(3); }
static void (*sig_handlers[65])(int);
int sim_sigaction(int s,const struct sigaction*a,struct sigaction*){ if(a) sig_handlers[s]=a->sa_handler; return 0; }
void (*sim_signal(int s,void(*h)(int)))(int){ auto o=sig_handlers[s]; sig_handlers[s]=h; return o; }
int sim_raise(int s){ if(sig_handlers[s]&&sig_handlers[s]!=SIG_IGN&&sig_handlers[s]!=SIG_DFL){ sig_handlers[s](s); return 0; } node_stop(NX_EXIT,128+s,"raise"); }
int sim_kill(pid_t,int s){ return sim_raise(s); }
char* sim_getenv(const char*){ return nullptr; }
int sim_getuid(){ return 1000; } int sim_geteuid(){ return 1000; } int sim_setuid(int){ return 0; } int sim_setgid(int){ return 0; } int sim_setsid(){ return 1; }
int sim_getpid(){ return 4242; }
struct passwd* sim_getpwnam(const char*n){ static struct passwd p; memset(&p,0,sizeof p); p.pw_name=(char*)n; p.pw_uid=1000; p.pw_gid=1000; return &p; }
int sim_getrlimit(int,struct rlimit*r){ r->rlim_cur=r->rlim_max=1000000; return 0; }
int sim_setrlimit(int,const struct rlimit*){ return 0; }
int sim_getrusage(int,struct rusage*r){ memset(r,0,sizeof *r); return 0; }
int sim_mlockall(int){ return 0; }
int sim_umask(int){ return 022; }
int sim_fork(){ errno=ENOSYS; return -1; }
int sim_chdir(const char*){ return 0; }
int sim_dup2(int,int b){ return b; }
// ---------------------------------------------------------- dynamic loading
extern void* create_instance(); extern void* scrub_memcached_extensions_initialize();
static const char*dle=nullptr;
void* sim_dlopen(const char*n,int){ if(!n) return (void*)1; if(strstr(n,"default_engine")) return (void*)1; if(strstr(n,"ascii_scrub")) return (void*)2; dle="no such module"; return nullptr; }
void* sim_dlsym(void*h,const char*n){ if(!strcmp(n,"create_instance")) return (void*)&create_instance; if(!strcmp(n,"memcached_extensions_initialize")&&h==(void*)2) return (void*)&scrub_memcached_extensions_initialize; dle="no such symbol"; return nullptr; }
int sim_dlclose(void*){ return 0; } char* sim_dlerror(){ return (char*)(dle?dle:""); }
FILE* sim_fopen(const char*p,const char*m){ if(m[0]!='r'){ errno=EACCES; return nullptr; } string c; if(!disk_exists(p)){ errno=ENOENT; return nullptr; } c=disk_read_file(p); char*b=(char*)malloc(c.size()+1); memcpy(b,c.data(),c.size()); b[c.size()]=0; return fmemopen(b,c.size()?c.size():1,"r"); }
}
int (*g_sigdeliver)(int);
extern void wake_bases();
static int deliver(int s){ if(sig_handlers[s]&&sig_handlers[s]!=SIG_IGN) sig_handlers[s](s); else if(sig_handlers[s]==nullptr) node_stop(NX_CRASH,0,"killed by a signal it does not handle yet"); wake_bases(); return 0; }

// ------------------------------------------------------------ libevent
struct SEv { struct event*e; bool io=false, timer=false; i64 deadline=-1; u64 order; };
struct SBase { vector<SEv*> evs; bool brk=false; u64 gen=0; };
static vector<SBase*>* bases; static std::unordered_map<struct event*,SEv*>* evmap; static u64 evorder;
void wake_bases(){ for(auto b:*bases) fiber_wake(b,true); }
void fd_changed(int fd){ if(fd<0||!bases) return; for(auto b:*bases) for(auto s:b->evs) if(s->io&&s->e->ev_fd==fd){ fiber_wake(b,true); break; } }
void os_init(){ bases=new vector<SBase*>(); evmap=new std::unordered_map<struct event*,SEv*>(); memset(sig_handlers,0,sizeof sig_handlers); g_sigdeliver=deliver; }
extern "C" {
struct event_base* sim_event_base_new(){ SBase*b=new SBase(); bases->push_back(b); return (struct event_base*)b; }
struct event_base* sim_event_init(){ return sim_event_base_new(); }
void sim_event_base_free(struct event_base*b){ (void)b; }
const char* sim_event_get_version(){ return "2.1.12-sim"; }
void sim_event_set(struct event*e,evutil_socket_t fd,short ev,void(*cb)(evutil_socket_t,short,void*),void*arg){ e->ev_fd=fd; e->ev_events=ev; e->ev_evcallback.evcb_cb_union.evcb_callback=cb; e->ev_evcallback.evcb_arg=arg; e->ev_base=nullptr; e->ev_evcallback.evcb_flags=0x80; }
int sim_event_base_set(struct event_base*b,struct event*e){ e->ev_base=b; return 0; }
int sim_event_del(struct event*e){ auto it=evmap->find(e); if(it==evmap->end()) return 0; SEv*s=it->second; SBase*b=(SBase*)e->ev_base; for(auto b2:*bases) for(size_t i=0;i<b2->evs.size();i++) if(b2->evs[i]==s){ b2->evs.erase(b2->evs.begin()+i); break; } (void)b; delete s; evmap->erase(it); return 0; }
int sim_event_add(struct event*e,const struct timeval*tv){
  if(e->ev_fd>=0&&fault(F_EVENT_ADD)){ errno=ENOMEM; return -1; }
  auto it=evmap->find(e); SEv*s; SBase*b=(SBase*)e->ev_base; if(!b) b=(*bases)[0];
  if(it==evmap->end()){ s=new SEv(); s->e=e; s->order=evorder++; (*evmap)[e]=s; b->evs.push_back(s);} else s=it->second;
  s->io=e->ev_fd>=0&&(e->ev_events&(EV_READ|EV_WRITE)); 
  if(tv){ s->timer=true; s->deadline=W->now+(i64)tv->tv_sec*1000000000LL+tv->tv_usec*1000LL; }
  fiber_wake(b,true); return 0; }
int sim_event_base_loopbreak(struct event_base*b_){ SBase*b=(SBase*)b_; b->brk=true; return 0; }
int sim_event_pending(struct event*e,short,struct timeval*){ return evmap->count(e); }
int sim_event_base_loop(struct event_base*b_,int){
  SBase*b=(SBase*)b_; b->brk=false; fiber_mark_loop();
  for(;;){
    if(b->brk){ b->brk=false; return 0; }
    struct R{ SEv*s; short what; u64 order; }; vector<R> ready; i64 dl=-1;
    for(auto s:b->evs){ short w=0; 
      if(s->io){ if((s->e->ev_events&EV_READ)&&fd_readable(s->e->ev_fd)) w|=EV_READ; if((s->e->ev_events&EV_WRITE)&&fd_writable(s->e->ev_fd)) w|=EV_WRITE; }
      if(s->timer){ if(s->deadline<=W->now) w|=EV_TIMEOUT; else if(dl<0||s->deadline<dl) dl=s->deadline; }
      if(w) ready.push_back({s,w,s->order}); }
    if(ready.empty()){ fiber_block(b,dl,"event_loop"); continue; }
    for(size_t i=ready.size();i>1;i--) std::swap(ready[i-1],ready[W->rnet.below(i)]);
    for(auto&r:ready){
      bool alive=false; for(auto s:b->evs) if(s==r.s&&s->order==r.order){ alive=true; break; }
      if(!alive) continue;
      struct event*e=r.s->e; int fd=e->ev_fd; auto cb=e->ev_evcallback.evcb_cb_union.evcb_callback; void*arg=e->ev_evcallback.evcb_arg;
      if(!(e->ev_events&EV_PERSIST)) sim_event_del(e); else if(r.what&EV_TIMEOUT){ r.s->timer=false; }
      H(fd*31+r.what); fiber_yield(((u64)fd<<8)|r.what);
      cb(fd,r.what,arg);
      if(b->brk) break;
    }
    fiber_yield((u64)b);
  } }
}
