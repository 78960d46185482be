// World arena, events, fault decisions, fibers and the seeded scheduler.
#include "sim.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <new>
#include <ucontext.h>

const char* fault_name[F_COUNT]={"none",
 "malloc_fail","short_read","read_eagain","short_send","send_eagain","tcp_segmentation","net_delay","client_stall",
 "client_reset","client_half_close","accept_emfile","accept_abort","send_error","setsockopt_error","pipe_short","spurious_wakeup",
 "timer_late","thread_stall","clock_jump","event_add_fail",
 "disk_write_eio","disk_write_enospc","disk_short_write","disk_fsync_eio","disk_open_fail","disk_read_eio","disk_unlink_fail","disk_close_fail","disk_slow","disk_rename_fail","disk_opendir_fail",
 "crash_kill","crash_power_loss","torn_write","lost_write","sigterm",
 "zk_lost_response","zk_delay","zk_error","zk_disconnect","zk_session_expire","zk_membership_change","zk_node_deleted","hb_stall",
 "memory_pressure","sasl_fail","logfile_fail","thread_create_fail","zk_reconfigured"};

// ------------------------------------------------------------ world arena allocator
bool arena_on=false;
struct ArenaHdr { char*bump; void*freel[100]; };
static ArenaHdr* AH(){ return (ArenaHdr*)WORLD_BASE; }
static int cls(size_t n){ // classes: 16..., geometric with 4 steps per octave
  if(n<=256) return (int)((n+15)/16);            // 1..16
  int lz=63-__builtin_clzll(n-1); int oct=lz-8;  // n in (256,512] -> lz=8
  int sub=(int)(((n-1)>>(lz-2))&3); int c=17+oct*4+sub; return c<100?c:-1; }
static size_t cls_size(int c){ if(c<=16) return c*16; int o=(c-17)/4, s=(c-17)%4; return ((size_t)256<<o) + ((size_t)(s+1)<<(6+o)); }
static void* arena_alloc(size_t n){
  if(n==0)n=1; int c=cls(n); if(c<0){ fprintf(stderr,"arena: huge alloc %zu\n",n); abort(); }
  ArenaHdr*a=AH();
  if(a->freel[c]){ void*p=a->freel[c]; a->freel[c]=*(void**)p; ((u64*)p)[-1]=c; return p; }
  size_t sz=cls_size(c)+16; char*p=a->bump; a->bump+=sz;
  if(a->bump>(char*)WORLD_BASE+WORLD_SIZE){ fprintf(stderr,"arena exhausted\n"); abort(); }
  ((u64*)p)[1]=c; return p+16; }
static inline bool in_arena(void*p){ return (u64)p>=WORLD_BASE && (u64)p<WORLD_BASE+WORLD_SIZE; }
static void arena_free(void*p){ u64 c=((u64*)p)[-1]; *(void**)p=AH()->freel[c]; AH()->freel[c]=p; }
void* operator new(size_t n){ if(arena_on) return arena_alloc(n); void*p=malloc(n); if(!p) abort(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void*p)noexcept{ if(!p)return; if(in_arena(p)) arena_free(p); else free(p); }
void operator delete[](void*p)noexcept{ operator delete(p); }
void operator delete(void*p,size_t)noexcept{ operator delete(p); }
void operator delete[](void*p,size_t)noexcept{ operator delete(p); }

World* W=nullptr;
static bool arena_mapped=false;
void world_create(const Cfg&c,const Masks&m,bool tracing){
  void*p=mmap((void*)WORLD_BASE,WORLD_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0);
  if(p==MAP_FAILED){ perror("mmap world"); exit(2); }
  arena_mapped=true;
  ArenaHdr*a=AH(); memset(a,0,sizeof *a); a->bump=(char*)WORLD_BASE+4096;
  arena_on=true;
  W=new World(); W->cfg=c; W->masks=m; W->tracing=tracing;
  memset(W->fault_ord,0,sizeof W->fault_ord); memset(W->fault_fired,0,sizeof W->fault_fired);
  u64 s=c.seed; W->rsched=Rng(mix64(s^0x5c4ed)); W->rnet=Rng(mix64(s^0x9e7)); W->rtime=Rng(mix64(s^0x71e)); W->rdisk=Rng(mix64(s^0xd15c)); W->rmisc=Rng(mix64(s^0x3215));
  W->wall_off=1700000000LL*1000000000LL + (i64)(mix64(s^77)%1000000000ULL);
  disk_init();
}
void world_destroy(){ arena_on=false; W=nullptr; if(arena_mapped) munmap((void*)WORLD_BASE,WORLD_SIZE); arena_mapped=false; }

// ------------------------------------------------------------ utilities
string strf(const char*fmt,...){ char b[8192]; va_list ap; va_start(ap,fmt); int n=vsnprintf(b,sizeof b,fmt,ap); va_end(ap); if(n<0)n=0; if(n>=(int)sizeof b){ string o(n+1,0); va_start(ap,fmt); vsnprintf(&o[0],n+1,fmt,ap); va_end(ap); o.resize(n); return o; } return string(b,n); }
string esc(const string&s,size_t max){ string o; size_t n=0; for(unsigned char ch:s){ if(n++>=max){ o+=strf("...(%zu bytes)",s.size()); break; }
   if(ch=='\r') o+="\\r"; else if(ch=='\n') o+="\\n"; else if(ch=='\\') o+="\\\\"; else if(ch<32||ch>=127) o+=strf("\\x%02x",ch); else o+=(char)ch; } return o; }
void logf_(const char*fmt,...){ char b[4096]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  if(W->log.size()<(16u<<20)){ W->log+=strf("[%llu %.6f %s] ",(unsigned long long)W->step,W->now/1e9,in_node()?cur_fname():"-"); W->log+=b; W->log+='\n'; } }
static bool g_in_node=false;
bool in_node(){ return g_in_node; }
void violate(const char*kind,const char*fmt,...){
  if(W->viol.set) return;
  char b[8192]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  W->viol.set=true; W->viol.kind=kind; W->viol.detail=b; LOG("VIOLATION %s: %s",kind,b);
  if(g_in_node) node_stop(NX_VIOLATION,0,b);
}
// ------------------------------------------------------------ faults
bool fault_p(FaultKind k,double p){
  if(p<=0) return false;
  u64 o=W->fault_ord[k]++;
  if(!W->faults_on) return false;
  if(W->faults.size()>=W->cfg.fault_budget) return false;
  u64 r=mix64(W->cfg.seed*0x100000001b3ULL ^ ((u64)k<<48) ^ o ^ 0xfa017);
  if((r>>11)*(1.0/9007199254740992.0) >= p) return false;
  if(W->masks.faults.count(((u64)k<<40)|o)) return false;
  W->fault_fired[k]++; W->faults.push_back(FaultRec{(u32)k,o,W->step,W->now}); W->last_fault_t=W->now; H(k*1000003+o);
  LOG("FAULT %s #%llu",fault_name[k],(unsigned long long)o);
  return true;
}
bool fault(FaultKind k){ return fault_p(k,W->cfg.rate[k]); }
void fault_note(FaultKind k){ u64 o=W->fault_ord[k]++; W->fault_fired[k]++; W->faults.push_back(FaultRec{(u32)k,o|(1ULL<<39),W->step,W->now}); LOG("FAULT %s (environment)",fault_name[k]); }

// ------------------------------------------------------------ events
static void push_event(i64 t,std::function<void()>fn,int epoch){ Event*e=new Event{t,W->evseq++,std::move(fn),epoch}; W->evq.push_back(e); std::push_heap(W->evq.begin(),W->evq.end(),EvCmp()); }
void at(i64 d,std::function<void()>fn){ push_event(W->now+(d<0?0:d),std::move(fn),-1); }
void at_node(i64 d,std::function<void()>fn){ push_event(W->now+(d<0?0:d),std::move(fn),W->epoch); }
i64 next_event_time(){ return W->evq.empty()? -1 : W->evq.front()->at; }
static int ev_depth=0;
bool run_due_events(){
  if(ev_depth) return false;
  bool any=false; ev_depth++;
  while(!W->evq.empty() && W->evq.front()->at<=W->now){
    std::pop_heap(W->evq.begin(),W->evq.end(),EvCmp()); Event*e=W->evq.back(); W->evq.pop_back();
    if(e->epoch<0 || e->epoch==W->epoch){ H(e->seq); e->fn(); any=true; }
    delete e; }
  ev_depth--; return any;
}

// ------------------------------------------------------------ fibers
struct Fiber { int id; void*sp; string name; std::function<void()> fn; bool done=false, runnable=true; const void*key=nullptr; i64 deadline=-1; bool timedout=false; const char*why="";
  int err=0; u64 prio=0; i64 stalled_until=0; map<void*,void*> tls; bool detached=false; void*ret=nullptr; u64 lastsite=0; bool loops=false; };
Fiber* cur=nullptr;
static vector<Fiber*>* fibers; static void* host_sp; static u64 sig_pending=0; static bool stopping=false;
static i64 g_countdown_store;
extern "C" { i64 g_countdown=0x7fffffffffffLL; u64 g_accesses=0; }
extern "C" void sim_switch(void**save,void*to);
asm(R"(
.globl sim_switch
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
int cur_fid(){ return cur?cur->id:-1; }
const char* cur_fname(){ return cur?cur->name.c_str():"host"; }
map<void*,void*>& cur_tls(){ static map<void*,void*> host; return cur?cur->tls:host; }
static void to_host(){ Fiber*me=cur; int e=errno; sim_switch(&me->sp,host_sp); errno=e; }
static void fiber_main(){ Fiber*me=cur; me->fn(); me->done=true; me->runnable=false; fiber_wake((char*)me+1,true); to_host(); abort(); }
int fiber_spawn(const char*name,std::function<void()> fn){
  if((int)fibers->size()>=MAX_FIBERS){ // reuse a finished slot
    for(auto f:*fibers) if(f->done && f->detached){ int id=f->id; Fiber*n=new Fiber(); n->id=id; n->name=name; n->fn=fn; (*fibers)[id]=n; n->detached=false;
      u64 top=STACK_BASE+(id+1)*STACK_SIZE-64; void**sp=(void**)top; *--sp=nullptr; *--sp=(void*)fiber_main; for(int i=0;i<6;i++) *--sp=nullptr; n->sp=sp; n->prio=W->rsched.next()>>8|(1ULL<<60); return id; }
    return -1; }
  Fiber*f=new Fiber(); f->id=fibers->size(); f->name=name; f->fn=fn; fibers->push_back(f);
  u64 top=STACK_BASE+(f->id+1)*STACK_SIZE-64; void**sp=(void**)top; *--sp=nullptr; *--sp=(void*)fiber_main; for(int i=0;i<6;i++) *--sp=nullptr; f->sp=sp;
  f->prio=(W->rsched.next()>>8)|(1ULL<<60);
  LOG("spawn fiber %d %s",f->id,name);
  return f->id; }
Fiber* fiber_get(int id){ return (id>=0&&id<(int)fibers->size())?(*fibers)[id]:nullptr; }
bool fiber_done(int id){ Fiber*f=fiber_get(id); return !f||f->done; }
void fiber_detach(int id){ Fiber*f=fiber_get(id); if(f) f->detached=true; }
void fiber_set_ret(void*r){ cur->ret=r; }
void* fiber_ret(int id){ return fiber_get(id)->ret; }
const void* fiber_joinkey(int id){ return (char*)fiber_get(id)+1; }

static inline void advance(){ // a scheduler step costs simulated CPU time
  W->step++; double u=W->rtime.unit(); W->now+=(i64)(W->cfg.ns_per_step*(0.2+1.6*u)); }
// a schedule choice: returns true to deviate from the default
static bool sched_choice(double p,u64&r){
  u64 o=W->sched_ord++; u64 h=mix64(W->cfg.seed*0x9E3779B1ULL^(o*0x51ed27)^0x5c); r=mix64(h);
  if((h>>11)*(1.0/9007199254740992.0)>=p) return false;
  if(o>=W->masks.sched_limit || W->masks.scheds.count(o)) return false;
  return true; }
static void note_switch(u64 site){ W->switches++; W->ilhash=mix64(W->ilhash^site^((u64)cur_fid()<<50)); H(site); }
extern int (*g_sigdeliver)(int); 
// a signal sent to the process: the kernel prefers the main thread, which handles it on top of whatever it is doing; a blocked call returns early
static u64 sig_running=0; static int sig_lock_n=0, sig_lock_s=0;   // a handler may be interrupted by another signal, not by its own
static bool sig_ready(){ return (sig_pending&~sig_running)!=0; }
static void run_signal(){ while(g_sigdeliver && cur && cur->id==0 && sig_ready()){ int s=__builtin_ctzll(sig_pending&~sig_running); sig_pending&=~(1ULL<<s); LOG("signal %d delivered",s); sig_running|=1ULL<<s; g_sigdeliver(s); sig_running&=~(1ULL<<s); } }
void node_deliver_signal(int s){ sig_pending|=1ULL<<s; if(!fibers||fibers->empty()) return; Fiber*m=(*fibers)[0]; if(!m->done&&!m->runnable&&sig_ready()){ m->runnable=true; m->key=nullptr; m->timedout=false; } }
// the signal arrives just after the main thread has taken its n-th lock from now on
void node_signal_at_lock(int s,int n){ sig_lock_s=s; sig_lock_n=n; }
void sim_locked(){ if(sig_lock_n>0&&cur&&cur->id==0&&--sig_lock_n==0){ sig_pending|=1ULL<<sig_lock_s; run_signal(); } }
static u64 pct_low=1ULL<<59;
// a thread that gets no processor for a while, or a timer that fires late; the total per run is bounded so that
// the oracles know how far behind the server may be
static i64 delay_left(FaultKind k,const char*knob_max){ if(W->cfg.rate[k]<=0||W->stall_used>=W->cfg.stall_total||!fault(k)) return 0; i64 m=std::min<i64>(W->cfg.knob(knob_max,20000000),W->cfg.stall_total-W->stall_used); i64 d=(i64)W->rtime.logu((u64)std::max<i64>(m,1)); W->stall_used+=d; return d; }
static void maybe_stall(){ i64 d=delay_left(F_THREAD_STALL,"stall_max_ns"); if(d){ cur->stalled_until=W->now+d; LOG("thread %s gets no processor for %lld ns",cur_fname(),(long long)d); to_host(); } }
static i64 late(){ return delay_left(F_TIMER_LATE,"late_max_ns"); }

void fiber_yield(u64 site){
  if(!cur||stopping) return;
  struct SaveErr{ int e=errno; ~SaveErr(){ errno=e; } } save_err;
  advance();
  if(!W->evq.empty() && W->evq.front()->at<=W->now) run_due_events();
  if(sig_pending) run_signal();
  u64 r; bool sw=false; cur->lastsite=site;
  switch(W->cfg.strategy){
    case 1: { // PCT: at random points lower the current thread's priority
      if(sched_choice(W->cfg.p_sync*0.02,r)){ cur->prio=pct_low--; sw=true; W->sched_dev.push_back(W->sched_ord-1);} 
      else { for(auto f:*fibers) if(f->runnable&&!f->done&&f!=cur&&f->prio>cur->prio){ sw=true; break; } }
      break; }
    default: if(sched_choice(W->cfg.p_sync,r)){ sw=true; W->sched_dev.push_back(W->sched_ord-1);} break;
  }
  if(W->cfg.rate[F_THREAD_STALL]>0) maybe_stall();
  if(sw){ note_switch(site); to_host(); }
  if(sig_pending) run_signal();
}
// preemption in the middle of ordinary code (called from the memory access hook)
extern "C" void sim_preempt(void*site){
  i64 m=W->cfg.mean_preempt;
  if(m<=0||!cur||stopping){ // accesses since the last scheduler step: a loop that never reaches a scheduling point
    static u64 last=~0ULL; if(m<=0&&cur&&!stopping&&last==W->step) violate("no-progress","thread %s has made more than 40 million memory accesses without any system call or lock",cur_fname()); last=W->step; g_countdown=40000000; return; }
  g_countdown = (i64)(1+ -__builtin_log(1.0-W->rsched.unit())*m);
  struct SaveErr{ int e=errno; ~SaveErr(){ errno=e; } } save_err;
  W->preempts++; advance();
  if(!W->evq.empty() && W->evq.front()->at<=W->now) run_due_events();
  if(sig_pending) run_signal();
  u64 r; if(sched_choice(W->cfg.strategy==1?0.05:0.9,r)){ W->sched_dev.push_back(W->sched_ord-1); if(W->cfg.strategy==1) cur->prio=pct_low--; note_switch((u64)site); if(W->cfg.rate[F_THREAD_STALL]>0&&W->stall_used<W->cfg.stall_total&&fault_p(F_THREAD_STALL,0.02)){ i64 d=(i64)W->rtime.logu((u64)std::min<i64>(W->cfg.knob("stall_max_ns",20000000),W->cfg.stall_total-W->stall_used)); W->stall_used+=d; cur->stalled_until=W->now+d; } to_host(); if(sig_pending) run_signal(); }
}
bool fiber_block(const void*key,i64 deadline,const char*why){
  if(!cur){ fprintf(stderr,"block on host: %s\n",why); abort(); }
  if(cur->id==0&&sig_ready()){ run_signal(); return true; }
  cur->key=key; cur->deadline=deadline; cur->why=why; cur->runnable=false; cur->timedout=false;
  if(deadline>=0){ Fiber*f=cur; const void*k=key; i64 lt=W->cfg.rate[F_TIMER_LATE]>0&&deadline-W->now>=1000000?late():0; at_node(deadline-W->now+lt,[f,k,deadline]{ if(!f->runnable&&!f->done&&f->key==k&&f->deadline==deadline){ f->timedout=true; f->runnable=true; f->key=nullptr; } }); }
  advance(); note_switch((u64)(uintptr_t)why*31);
  to_host(); bool to=cur->timedout; if(sig_pending) run_signal();
  return !to; }
int fiber_wake(const void*key,bool all){
  vector<Fiber*> w; for(auto f:*fibers) if(!f->done&&!f->runnable&&f->key==key) w.push_back(f);
  if(w.empty()) return 0;
  if(all){ for(auto f:w){ f->runnable=true; f->key=nullptr; } return (int)w.size(); }
  u64 r; size_t i=0; if(w.size()>1 && sched_choice(0.7,r)){ i=r%w.size(); W->sched_dev.push_back(W->sched_ord-1);} 
  w[i]->runnable=true; w[i]->key=nullptr; return 1; }
string fiber_report(){ string s; for(auto f:*fibers) if(!f->done) s+=strf(" %s:%s",f->name.c_str(),f->runnable?"running":f->why); return s; }
void fiber_mark_loop(){ cur->loops=true; }
int node_freeze(i64 until,int which,int n){ int k=0; for(auto f:*fibers) if(!f->done&&f->loops&&((which&1)&&f->id==0||(which&2)&&f->id!=0&&(n<0||k<n))){ f->stalled_until=until; k++; LOG("thread %s is frozen until %.3f",f->name.c_str(),until/1e9); } if(k) fault_note(F_HB_STALL); return k; }
static size_t rr=0;
static Fiber* pick(){
  Fiber* arr[MAX_FIBERS]; int n=0;
  for(auto f:*fibers) if(f->runnable&&!f->done){ if(f->stalled_until>W->now) continue; f->stalled_until=0; arr[n++]=f; }
  if(n==0) return nullptr; if(n==1) return arr[0];
  if(W->cfg.strategy==1){ Fiber*b=arr[0]; for(int i=1;i<n;i++) if(arr[i]->prio>b->prio) b=arr[i];
     // avoid starvation by spinning threads
     u64 x; if(sched_choice(0.01,x)) b=arr[x%n]; return b; }
  if(W->cfg.strategy==3){ // one thread at a time runs only when nothing else can
    static u64 epoch_step=0; static int victim=-1; if(W->step>=epoch_step||victim<0){ epoch_step=W->step+200+W->rsched.below(4000); victim=(int)W->rsched.below(fibers->size()); }
    u64 y; if(!sched_choice(0.005,y)){ int m=0; for(int i=0;i<n;i++) if(arr[i]->id!=victim) arr[m++]=arr[i]; if(m>0) n=m; if(n==1) return arr[0]; } }
  u64 x; if(sched_choice(1.0,x)){ W->sched_dev.push_back(W->sched_ord-1); return arr[x%n]; }
  // default: round robin
  for(size_t k=1;k<=fibers->size();k++){ size_t i=(rr+k)%fibers->size(); for(int j=0;j<n;j++) if(arr[j]->id==(int)i){ rr=i; return arr[j]; } }
  return arr[0]; }

void node_stop(int how,int code,const string&why){
  stopping=true; W->node_exit=how; W->node_code=code; W->node_why=why; LOG("node stop %d %d %s",how,code,why.c_str());
  _exit(how==NX_VIOLATION?3:0);
}
void run_done(){ W->finished=true; node_stop(NX_DONE,0,""); }
extern void node_prepare(); extern int sut_main();
static char altstack[65536];
extern string sig_where(void*);
static void on_segv(int s,siginfo_t*si,void*uc){
  ucontext_t*u=(ucontext_t*)uc; u64 rip=u->uc_mcontext.gregs[REG_RIP];
  arena_on=true;
  if(!W->viol.set){ W->viol.set=true; W->viol.kind="server-crash"; W->viol.detail=strf("signal %d (%s) at rip=0x%llx addr=%p thread %s",s,strsignal(s),(unsigned long long)rip,si->si_addr,cur_fname()); }
  W->node_exit=NX_SIGNAL; W->node_code=s; W->node_why=W->viol.detail; _exit(3); }
int node_main(){
  g_in_node=true; stopping=false; sig_pending=sig_running=0; sig_lock_n=0; cur=nullptr;
  stack_t ss; memset(&ss,0,sizeof ss); ss.ss_sp=altstack; ss.ss_size=sizeof altstack; sigaltstack(&ss,nullptr);
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=on_segv; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; for(int s: {SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT}) sigaction(s,&sa,nullptr);
  if(mmap((void*)STACK_BASE,STACK_SIZE*MAX_FIBERS,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0)==MAP_FAILED) abort();
  fibers=new vector<Fiber*>(); fibers->reserve(MAX_FIBERS);
  W->epoch++; W->boots++; W->node_exit=NX_NONE; ev_depth=0;
  node_prepare();
  g_countdown=W->cfg.mean_preempt>0?W->cfg.mean_preempt:40000000;
  fiber_spawn("main",[]{ int rc=sut_main(); node_stop(NX_EXIT,rc,"main returned"); });
  if(W->dir) W->dir->boot();
  for(;;){
    run_due_events();
    if(W->step>W->cfg.max_steps&&W->step-W->rx_step<W->cfg.max_steps/8){ signal(SIGALRM,SIG_DFL); raise(SIGALRM); _exit(9); } // replies were still arriving: the run is too long, and decides nothing
    if(W->step>W->cfg.max_steps){ violate("no-progress","step budget exhausted (%llu steps) t=%.3fs:%s",(unsigned long long)W->step,W->now/1e9,fiber_report().c_str()); }
    if(W->now>W->cfg.max_simtime){ violate("no-progress","simulated time budget exhausted t=%.3fs:%s",W->now/1e9,fiber_report().c_str()); }
    Fiber*f=pick();
    if(!f){
      i64 t=next_event_time();
      for(auto g:*fibers) if(g->runnable&&!g->done&&g->stalled_until>W->now && (t<0||g->stalled_until<t)) t=g->stalled_until;
      if(t<0){ violate("deadlock","no runnable thread and no pending event:%s",fiber_report().c_str()); }
      if(t>W->now) W->now=t; continue; }
    cur=f; H(f->id*7919+1);
    sim_switch(&host_sp,f->sp);
    cur=nullptr;
  }
}
