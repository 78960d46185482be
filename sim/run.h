// Workload director: simulated clients, control script, verification of one run.
#pragma once
#include "work.h"
struct Plan {
  vector<string> keys; vector<std::pair<int,int>> mix; vector<vector<std::pair<int,int>>> keymix; // per-key mix (overrides mix when not empty)
  int clients=3, ops=12, depth=1; i64 think_ns=300000; double p_bin=0, p_noreply=0.1, p_quiet=0.2, p_reconn=0.01, p_batch=0.4;
  double p_rst=0, p_fin=0, p_stall=0, p_partial=0;  // client misbehaviour per operation
  bool audit=true, joint=false, close_ok=false, oom_close=false, leave=false, check_lin=true, audit_after_crash=true;
  ModelCfg mc; u64 budget=60000;
  int maxval=60; double p_big=0.02; int bigval=4000; double p_crlf=0.1; int numeric=0; // % of numeric values
  vector<i64> exps={0}; vector<int> flushexp={0};
  int bk=0; /*0 numeric 1 binary4 2 binary var 3 mixed*/ int nbk=14; double p_ef=0.5; bool mbr=false; i64 minmax=2,maxmax=8; double p_max=0.8,p_over=0; int nelem=10; double p_unread=0.05; double p_create=0.5;
  double p_flt=0.3; int maxkeys=4; vector<string> prefixes; int nfields=8;
  vector<i64> crash_after; int crashes=0; int crash_mode=0; // crash plan
  i64 settle_ns=0; int gen_pipe_max=7; bool bincoll=false; // binary clients use collection and attribute commands too
  int fixval=0; // >0: values all have this length
};
struct CS { int id; Conn*conn=nullptr; deque<Op*> out; int next=0, total=0; bool bin=false; bool waiting=false; bool done=false; string buf; int reconn=0; bool hold=false; bool stop=false; int depth=1; bool stalled=false, doomed=false; };
struct Work: Director {
  Plan p; History H_; u64 evs=1; vector<CS*> cs; CS*ctl=nullptr; map<string,vector<u64>> tokens; int phase=0; /*0 run 1 audit 2 post 3 finished*/ 
  deque<std::function<bool(Work*)>> script; // control steps: return true if an operation was issued (wait for it)
  vector<std::function<void(Work*)>> on_boot, on_post; vector<std::function<string(Work*)>> checks; std::function<Op*(Work*,CS*,int,Rng&)> gen; std::function<void(Work*,Op*)> on_op; std::function<void(Work*,CS*,Op*)> on_send; std::function<bool(Work*,Conn*)> may_close; std::function<bool(Work*,Conn*,string&)> on_unsolicited; std::function<void(Work*)> at_end; std::function<bool(Work*)> on_exit; std::function<i64(Work*,CS*)> think;
  map<int,CS*> byconn; bool ended=false; u64 inc=0, searched=0; int nconn=0; i64 last_progress=0; bool ctl_wait=false; std::function<void(Op*)> ctl_cb; int boot_no=0; bool watchdog_on=false; map<string,string> mem; vector<string> notes; bool expect_exit=false; bool recovering=false;
  Rng crng{1};
  void boot()override; void on_data(Conn*)override; void on_closed(Conn*)override; void on_connected(Conn*)override; bool node_ended()override;
  void connect(CS*); void issue(CS*); void send_op(CS*,Op*,string*batch); void got(CS*,Op*); void maybe_phase(); void start_audit(); void step_script(); void watchdog(); void lose(CS*,const char*);
  Op* mk(int kind,const string&key); Op* genop(CS*,int idx,Rng&); Op* gen_kind(int kind,const string&key,Rng&,CS*);
  void ctl_op(Op*,std::function<void(Op*)> cb=nullptr); void finish_run();
  string verify(string&kind);
};
void audit_ops(Work*,vector<Op*>&out);
struct ProfileDef { const char*name; void(*setup)(Cfg&,Work*,Rng&); int weight; };
struct PropDef { const char*id; vector<ProfileDef> profs; };
const vector<PropDef>& all_props();
map<string,string> parse_stats(const string&);
const vector<PropDef>& props_sys(); const vector<PropDef>& props_dur(); const vector<PropDef>& props_stat(); const vector<PropDef>& props_scan(); const vector<PropDef>& props_mem(); const vector<PropDef>& props_diag(); const vector<PropDef>& props_live(); const vector<PropDef>& props_auth(); const vector<PropDef>& props_zk(); const vector<PropDef>& props_wide();
void no_drop(Work*w); void kv_mix(Plan&p,bool counters); void keys(Plan&p,int n,const char*pre="k"); void load(Plan&p,Rng&r,int cmin,int cmax,int total); void coll(Cfg&c,Work*w,Rng&r); void deep(Cfg&c,Work*w,Rng&r); void seg(Cfg&c,Rng&r); Op* rawop(Work*w,Rng&r); Op* admop(Work*w,Rng&r,int jobs); void with_admin(Work*w,double pr,int jobs); void all_mix(Plan&p); void churn_drain(Cfg&c,Work*w,Rng&r); void dur_orderly(Cfg&c,Work*w,Rng&r);
