// Deterministic simulator for arcus-memcached: shared declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <functional>
#include <memory>
#include <algorithm>
#include <sys/types.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;
using std::string; using std::vector; using std::map; using std::set; using std::deque;

// ---------------------------------------------------------------- rng
static inline u64 mix64(u64 z){ z+=0x9E3779B97F4A7C15ULL; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);}
struct Rng {
  u64 s;
  explicit Rng(u64 seed=1):s(mix64(seed)){}
  u64 next(){ s+=0x9E3779B97F4A7C15ULL; u64 z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);}
  u64 below(u64 n){ return n? next()%n:0; }
  i64 range(i64 a,i64 b){ return a+(i64)below((u64)(b-a+1)); }
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  bool chance(double p){ return p>0 && unit()<p; }
  template<class T> const T& pick(const vector<T>&v){ return v[below(v.size())]; }
  // log-uniform in [1,n]
  u64 logu(u64 n){ double l=unit()*__builtin_log((double)n+1.0); u64 r=(u64)__builtin_exp(l); if(r<1)r=1; if(r>n)r=n; return r; }
};

// ---------------------------------------------------------------- memory layout
#define WORLD_BASE  0x200000000000ULL
#define WORLD_SIZE  (4ULL<<30)
#define HEAP_BASE   0x300000000000ULL
#define HEAP_SIZE   (4ULL<<30)
#define SHADOW_BASE 0x310000000000ULL
#define SHADOW_SIZE (HEAP_SIZE/16)
#define STACK_BASE  0x320000000000ULL
#define STACK_SIZE  (8ULL<<20)
#define MAX_FIBERS  96

// ---------------------------------------------------------------- faults
enum FaultKind { F_NONE=0,
  F_MALLOC, F_READ_SHORT, F_READ_AGAIN, F_SEND_SHORT, F_SEND_AGAIN, F_SEGMENT, F_NETDELAY, F_CLIENT_STALL,
  F_CLIENT_RST, F_CLIENT_FIN, F_ACCEPT_EMFILE, F_ACCEPT_ABORT, F_SEND_ERR, F_SETSOCKOPT, F_PIPE_SHORT, F_SPURIOUS_WAKE,
  F_TIMER_LATE, F_THREAD_STALL, F_CLOCK_JUMP, F_EVENT_ADD,
  F_D_WRITE_EIO, F_D_WRITE_ENOSPC, F_D_WRITE_SHORT, F_D_FSYNC_EIO, F_D_OPEN, F_D_READ_EIO, F_D_UNLINK, F_D_CLOSE, F_D_SLOW, F_D_RENAME, F_D_OPENDIR,
  F_CRASH_KILL, F_CRASH_POWER, F_TORN, F_LOSTWRITE, F_SIGTERM,
  F_ZK_LOST_RESP, F_ZK_DELAY, F_ZK_ERR, F_ZK_DISCONNECT, F_ZK_EXPIRE, F_ZK_MEMBER, F_ZK_NODE_DEL, F_HB_STALL,
  F_MEM_PRESSURE, F_SASL_FAIL, F_LOGFILE, F_THREAD_CREATE, F_ZK_RECONFIG,
  F_COUNT };
extern const char* fault_name[F_COUNT];

// ---------------------------------------------------------------- configuration of one run
struct Cfg {
  u64 seed=0; string profile;
  vector<string> argv;            // node command line
  string engine_cfg;
  // scheduling
  int strategy=0;                 // 0 random, 1 pct, 3 starve
  double p_sync=0.3;              // probability of rescheduling at a sync point
  i64 mean_preempt=0;             // mean number of shared accesses between preemptions (0=never)
  int pct_depth=3;
  double ns_per_step=500; i64 stall_total=100000000; // bound on the sum of thread stalls and timer delays of a run
  // network
  double p_seg=0.3;               // probability a client write is segmented
  int seg_max=32; i64 net_delay_ns=50000; int sndbuf=65536; double p_rshort=0, p_ragain=0, p_sshort=0, p_sagain=0;
  // faults
  double rate[F_COUNT];
  u64 fault_budget=1000000;
  // misc
  i64 max_simtime=3600LL*1000000000LL;
  u64 max_steps=4000000;
  i64 liveness_ns=120LL*1000000000LL;
  map<string,i64> k;              // profile specific knobs
  Cfg(){ for(auto&r:rate) r=0; }
  i64 knob(const char*n,i64 d=0)const{ auto it=k.find(n); return it==k.end()?d:it->second; }
};

// ---------------------------------------------------------------- replay masks
struct Masks { set<u64> ops, faults, scheds; u64 sched_limit=~0ULL; };

struct FaultRec { u32 kind; u64 ord; u64 step; i64 t; };

// ---------------------------------------------------------------- world
struct Event { i64 at; u64 seq; std::function<void()> fn; int epoch; };
struct EvCmp { bool operator()(const Event*a,const Event*b)const{ return a->at!=b->at? a->at>b->at : a->seq>b->seq; } };

enum NodeExit { NX_NONE=0, NX_CRASH, NX_EXIT, NX_DONE, NX_VIOLATION, NX_SIGNAL };

struct Conn; struct Disk; struct Director; struct Zk;

struct Violation { bool set=false; string kind, detail; };

struct World {
  Cfg cfg; Masks masks;
  i64 now=0;                       // simulated monotonic ns
  i64 tz_off=0; // seconds added by localtime
  i64 wall_off=0;                  // realtime = now + wall_off
  u64 step=0,rx_step=0; // the last is that of the latest bytes a client received
//                    // scheduler steps
  u64 hash=0xcbf29ce484222325ULL;  // execution hash
  u64 ilhash=0;                    // interleaving hash (switch sites)
  u64 switches=0, preempts=0;
  u64 evseq=0;
  vector<Event*> evq;              // heap
  int epoch=0;                     // incremented at each (re)boot of the node
  Rng rsched, rnet, rtime, rdisk, rmisc;
  u64 fault_ord[F_COUNT]; u64 fault_fired[F_COUNT]; vector<FaultRec> faults;
  bool faults_on=false;
  i64 last_fault_t=0;
  u64 sched_ord=0; vector<u64> sched_dev; // schedule deviations taken
  vector<Conn*> conns;
  Disk* disk=nullptr; Director* dir=nullptr; Zk* zk=nullptr;
  Violation viol;
  int node_exit=NX_NONE; int node_code=0; string node_why;
  bool finished=false;
  string log; bool tracing=false;
  map<string,u64> probes;
  i64 boots=0; i64 stall_used=0;
  i64 crash_at_disk=-1; int crash_kind=0; u64 disk_ops=0;
};
extern World* W;

void world_create(const Cfg&, const Masks&, bool tracing);
void world_destroy();
extern bool arena_on;
struct ArenaOff { bool s; ArenaOff(){ s=arena_on; arena_on=false; } ~ArenaOff(){ arena_on=s; } };

static inline void H(u64 v){ W->hash=(W->hash^v)*0x100000001b3ULL; W->hash^=W->hash>>29; }
void logf_(const char*fmt,...) __attribute__((format(printf,1,2)));
#define LOG(...) do{ if(W->tracing) logf_(__VA_ARGS__); }while(0)
static inline void probe(const char*n){ W->probes[n]++; }
bool fault(FaultKind k);             // decide whether fault k fires now (by its configured rate)
bool fault_p(FaultKind k,double p);  // explicit probability
void fault_note(FaultKind k);        // count an environment-driven fault
void violate(const char*kind,const char*fmt,...) __attribute__((format(printf,2,3)));
void at(i64 delay_ns, std::function<void()> fn);          // schedule simulator event
void at_node(i64 delay_ns, std::function<void()> fn);     // dropped when the node restarts
bool run_due_events();
i64 next_event_time();

// ---------------------------------------------------------------- node process
int node_main();                  // runs in forked child; never returns normally
[[noreturn]] void node_stop(int how,int code,const string&why);
bool in_node();
// fibers
struct Fiber;
extern Fiber* cur;
void fiber_yield(u64 site);
// block current fiber on key until woken or deadline (abs ns, -1 none). returns true if woken, false on timeout
bool fiber_block(const void*key,i64 deadline,const char*why);
int fiber_wake(const void*key,bool all); void fiber_mark_loop(); int node_freeze(i64 until,int which,int n=-1); // which: 1 main thread, 2 worker threads (n of them)
int fiber_spawn(const char*name,std::function<void()> fn);
int cur_fid();
const char* cur_fname();
void node_deliver_signal(int sig); void node_signal_at_lock(int sig,int n); void sim_locked(); string fiber_report();
u64 heap_live_bytes(); u64 heap_live_blocks();
string heap_report(); map<u64,u64> heap_sites(); // live blocks per allocation site
int node_open_fds(); int node_open_conns();
extern bool g_malloc_fail_armed;

// network: see net.cpp
struct Conn {
  int id; int client; bool opened=false;      // client side established
  // client->server
  deque<std::pair<i64,string>> c2s; string srv_in; bool cli_fin=false, cli_fin_arrived=false, rst=false; i64 c2s_last=0;
  // server->client
  string s2c_buf, held; bool srv_closed=false; i64 s2c_last=0; size_t srv_out_pending=0; bool stalled=false;
  string cli_in; bool cli_eof=false;
  int srv_fd=-1; bool accepted=false; bool cli_dead=false; int epoch=0; bool refused=false;
  int sndbuf=65536; u64 rx=0, tx=0; 
};
Conn* net_connect(int client);
void net_client_send(Conn*,const string&);
void net_client_fin(Conn*); void net_client_rst(Conn*);
void net_client_stall(Conn*,bool);
bool net_listening();
void net_node_down();      // called in the runner when the node process has ended
// called by net on client-side activity
void director_conn_data(Conn*); void director_conn_closed(Conn*); void director_connected(Conn*);

// disk: see disk.cpp
void disk_init(); void disk_crash(bool power);
struct DiskStat { u64 writes,fsyncs,bytes; };
void disk_install(const char*path,const string&content);
string disk_read_file(const string&path); vector<string> disk_list(const string&dir);
bool disk_exists(const string&path);

// runner
struct Director { virtual ~Director(){} virtual void boot(){} virtual void started(){} virtual void tick(){}
  virtual void on_data(Conn*){} virtual void on_closed(Conn*){} virtual void on_connected(Conn*){}
  virtual bool node_ended(){return false;} // in runner: return true to reboot
  virtual void finish(){} };
void run_done();   // director: the run is over (called inside node)
string strf(const char*fmt,...) __attribute__((format(printf,1,2)));
string esc(const string&s,size_t max=200);
