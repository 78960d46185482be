// Profiles of the system-level properties: connections, memory, statistics, scans, failures.
#include "run.h"
#include <stdlib.h>
#include "step.h"
extern "C" void cache_alloc(); // its free lists keep what the busiest moment needed
// ---- everything that clients held is given back once they and their data are gone
struct Drain { int base_fds=-1; map<u64,u64> base_sites; u64 base_blocks=0; bool heap=true; bool slabs=true; bool conns=true; bool fds=true; u64 slack=40; };
static void drain_base(Work*w,std::shared_ptr<Drain> d){ w->on_boot.push_back([d](Work*w){ d->base_fds=-1; Work*x=w; static std::function<void()> poll; poll=[x,d]{ if(d->base_fds>=0) return; if(net_listening()){ d->base_fds=node_open_fds(); d->base_sites=heap_sites(); } else at_node(50000,poll); }; poll(); }); }
static void drain(Work*w,std::shared_ptr<Drain> d){
  w->on_post.push_back([d](Work*w){ vector<Step> s;
    s.push_back([](Work*w){ for(auto c:w->cs) if(c->conn&&!c->conn->cli_dead){ if(c->stalled){ net_client_stall(c->conn,false); c->stalled=false; } net_client_fin(c->conn); w->lose(c,"run over"); } return false; });
    s.push_back(wait_ns(3000000000LL)); // requests already sent by the clients are still carried out
    for(auto k:w->p.keys) s.push_back(ask("delete "+k,F_LINE,nullptr,{"DELETED","NOT_FOUND"}));
    for(auto k:{"zz","z0","z1","z2","z3"}) s.push_back(ask(string("delete ")+k,F_LINE,nullptr,{"DELETED","NOT_FOUND"}));
    s.push_back(wait_ns(4000000000LL));
    s.push_back(ask("stats",F_MULTI,[d](Work*w,const string&r){ auto m=parse_stats(r);
      if(num(m,"curr_items")!=0) violate("leak","%lld items are left after every key was deleted",(long long)num(m,"curr_items"));
      else if(num(m,"bytes")!=0) violate("leak","%lld bytes of items are left after every key was deleted",(long long)num(m,"bytes"));
      else if(num(m,"sticky_items")>0||num(m,"sticky_bytes")>0) violate("leak","sticky items %lld bytes %lld are left after every key was deleted",(long long)num(m,"sticky_items"),(long long)num(m,"sticky_bytes"));
      else if(d->conns&&num(m,"curr_connections")!=1) violate("leak","curr_connections is %lld with one client connected",(long long)num(m,"curr_connections")); LOG("%s",r.c_str()); }));
    s.push_back(ask("stats slabs",F_MULTI,[d](Work*w,const string&r){ auto m=parse_stats(r); LOG("%s",r.c_str()); if(!d->slabs) return; for(auto&x:m){ size_t p=x.first.find(":used_chunks"); if(p!=string::npos&&x.first.compare(0,2,"0:")&&strtoll(x.second.c_str(),0,10)!=0){ violate("leak","slab class %s has %s used chunks after every key was deleted",x.first.substr(0,p).c_str(),x.second.c_str()); return; } } if(num(m,"SM:used_total_space")>0) violate("leak","%lld bytes of small memory are in use after every key was deleted",(long long)num(m,"SM:used_total_space")); }));
    s.push_back(ask("stats prefixes",F_MULTI,[d](Work*w,const string&r){ LOG("%s",r.c_str()); if(r!="END\r\n"&&r.find("PREFIX")!=string::npos) violate("leak","prefixes are left after every key was deleted: %s",r.c_str()); }));
    s.push_back([d](Work*w){ int n=node_open_conns(); if(d->fds&&n!=1) violate("leak","%d connection descriptors are open with one client connected",n); n=node_open_fds(); if(d->fds&&d->base_fds>=0&&n>d->base_fds+2) violate("leak","%d descriptors are open with one client connected, %d were before the first client",n,d->base_fds);
      LOG("fds %d base %d\n%s",n,d->base_fds,heap_report().c_str());
      if(d->heap){ u64 lim=d->slack+3*(u64)w->p.clients; for(auto&x:heap_sites()){ u64 b=d->base_sites.count(x.first)?d->base_sites[x.first]:0; if(getenv("SITES")) fprintf(stderr,"SITE %llx %lld %d\n",(unsigned long long)x.first,(long long)(x.second-b),w->nconn); if(x.second>b+lim+(x.first>=(u64)&cache_alloc&&x.first<(u64)&cache_alloc+512&&w->mem.count("pooled")?strtoull(w->mem["pooled"].c_str(),0,10):0)){ violate("leak","%llu blocks allocated at %llx are still held with one client connected, %llu were before the first client (%d connections in all)",(unsigned long long)x.second,(unsigned long long)x.first,(unsigned long long)b,w->nconn); break; } } }
      return false; });
    front(w,s); }); }
static int fd_need(Cfg&c){ int t=4; for(size_t i=0;i<c.argv.size();i++) if(c.argv[i]=="-t") t=atoi(c.argv[i+1].c_str()); return 3+1+2*t+2; } // stdio, listening socket, wake-up pipes of the threads
// ---- C09
void all_mix(Plan&p){ p.mix={{K_GET,6},{K_GETS,3},{K_MGET,3},{K_MGETS,2},{K_SET,6},{K_ADD,2},{K_REPLACE,2},{K_APPEND,2},{K_CAS,2},{K_DELETE,3},{K_INCR,2},{L_INSERT,5},{L_GET,3},{L_DELETE,1},{S_INSERT,4},{S_EXIST,2},{S_GET,2},{S_DELETE,1},{M_INSERT,5},{M_GET,3},{M_DELETE,2},{M_UPDATE,1},{B_INSERT,7},{B_UPSERT,2},{B_GET,4},{B_MGET,2},{B_SMGET,2},{B_COUNT,1},{B_DELETE,2},{B_UPDATE,1},{B_INCR,1},{B_POS,1},{B_PWG,1},{B_GBP,1},{K_GETATTR,2},{K_SETATTR,1},{X_PIPE,3}}; }
void no_drop(Work*w){ auto g0=w->gen; w->gen=[g0](Work*w,CS*c,int idx,Rng&r)->Op*{ Op*o=g0?g0(w,c,idx,r):nullptr; if(!o){ auto g=w->gen; w->gen=nullptr; o=w->genop(c,idx,r); w->gen=g; } if(o&&o->kind==S_GET&&o->dd&&o->count) o->dd=0; return o; }; } // a lost reply must not leave an unknown random choice behind
static void c09_churn(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(2,6)); load(p,r,3,8,110); all_mix(p); p.depth=1+(int)r.logu(12); p.p_noreply=0.15; p.maxkeys=5; p.mbr=false; p.p_bin=r.chance(0.3)?0.3:0; p.bincoll=true; p.p_rst=r.chance(0.7)?0.08:0.01; p.p_fin=r.chance(0.7)?0.08:0.01; p.p_stall=r.chance(0.5)?0.05:0; p.close_ok=true; p.p_reconn=0.02;
  if(r.chance(0.5)) seg(c,r); c.sndbuf=(int)r.range(64,r.chance(0.5)?400:60000); if(r.chance(0.4)){ p.maxval=3000; p.p_big=0.1; p.bigval=15000; p.ops=std::min(p.ops,15); }
  if(r.chance(0.3)) c.rate[F_SEND_ERR]=0.01; if(r.chance(0.3)) c.rate[F_ACCEPT_ABORT]=0.1; if(r.chance(0.3)) c.rate[F_ACCEPT_EMFILE]=0.1; if(r.chance(0.2)) c.rate[F_SETSOCKOPT]=0.3;
  if(r.chance(0.25)) w->gen=[](Work*w,CS*c,int,Rng&r)->Op*{ return c->bin||!r.chance(0.1)?nullptr:rawop(w,r); };
  no_drop(w); auto d=std::make_shared<Drain>(); drain_base(w,d); drain(w,d); }
static void c09_long(Cfg&c,Work*w,Rng&r){ c09_churn(c,w,r); Plan&p=w->p; p.check_lin=false; p.ops=(int)r.range(1200,2400)/p.clients; p.p_rst=0.15; p.p_fin=0.15; p.think_ns=20000; c.max_steps=8000000; p.maxval=200; p.p_big=0.02; c.p_rshort*=0.3; c.p_sshort*=0.3; c.sndbuf=std::max(c.sndbuf,300); c.mean_preempt=0; }
// more clients than the server admits, or than there are descriptors
static void c09_limits(Cfg&c,Work*w,Rng&r){ c09_churn(c,w,r); Plan&p=w->p; p.clients=(int)r.range(6,14); p.ops=(int)r.range(4,14); p.leave=true; p.p_reconn=0.3; p.think_ns=(i64)r.logu(400000); if(r.chance(0.6)) for(size_t i=0;i<c.argv.size();i++) if(c.argv[i]=="-c") c.argv[i+1]=strf("%d",(int)r.range(3,8)); if(r.chance(0.6)) c.k["fd_limit"]=(i64)r.range(3,8)+fd_need(c); }
// ---- C15: allocations and system calls fail while requests are served
static void arm(Work*w){ w->on_boot.push_back([](Work*w){ g_malloc_fail_armed=false; W->faults_on=false; static std::function<void()> poll; poll=[w]{ if(!net_listening()) at_node(50000,poll); else at_node(100000,[w]{ if(w->phase==0&&!w->mem.count("building")) g_malloc_fail_armed=W->faults_on=true; }); }; poll(); }); } // starting up may fail as a whole; only serving counts
static void c15_base(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; p.close_ok=true; p.mc.may_oom=true; p.oom_close=true; p.p_noreply=0.1; p.p_reconn=0.05; p.p_rst=r.chance(0.3)?0.03:0; no_drop(w);
  int m=(int)r.below(4); if(m==0){ c.rate[F_MALLOC]=0.003+0.02*r.unit(); c.fault_budget=1; } else if(m==1){ c.rate[F_MALLOC]=0.02; c.fault_budget=5; } else c.rate[F_MALLOC]=r.chance(0.5)?0.02:0.1*r.unit();
  if(r.chance(0.3)) c.rate[F_EVENT_ADD]=0.02; if(r.chance(0.3)) c.rate[F_SETSOCKOPT]=0.2; if(r.chance(0.3)) c.rate[F_ACCEPT_EMFILE]=0.1; if(r.chance(0.3)) c.rate[F_ACCEPT_ABORT]=0.1; if(r.chance(0.3)) c.rate[F_SEND_ERR]=0.01; if(r.chance(0.3)) c.rate[F_PIPE_SHORT]=0.05; if(r.chance(0.5)) seg(c,r);
  arm(w); auto d=std::make_shared<Drain>(); drain_base(w,d); drain(w,d); }
void fail_drain(Cfg&c,Work*w,Rng&r){ c15_base(c,w,r); }
static void c15_kv(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(2,6)); load(p,r,2,6,90); kv_mix(p,true); p.p_bin=r.chance(0.4)?0.4:0; p.depth=1+(int)r.logu(10); if(r.chance(0.3)){ p.maxval=3000; p.p_big=0.1; p.bigval=15000; p.ops=std::min(p.ops,15); } c15_base(c,w,r); }
static void c15_coll(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(2,5)); load(p,r,2,6,80); all_mix(p); p.depth=1+(int)r.logu(8); p.maxkeys=4; p.p_bin=r.chance(0.3)?0.4:0; p.bincoll=true; c15_base(c,w,r); }
static void c15_conn(Cfg&c,Work*w,Rng&r){ c15_coll(c,w,r); Plan&p=w->p; p.clients=(int)r.range(5,12); p.ops=(int)r.range(4,12); p.leave=true; p.p_reconn=0.3; p.think_ns=(i64)r.logu(400000); if(r.chance(0.4)) c.k["fd_limit"]=(i64)r.range(4,9)+fd_need(c); }
// ---- requests of an operator: reports, settings, background jobs; none of them changes what clients stored
Op* admop(Work*w,Rng&r,int jobs){ Op*o=w->mk(X_RAW,""); o->frame=F_VER; string q; string k=w->p.keys.empty()?string("k0"):w->p.keys[r.below(w->p.keys.size())]; string px=k.substr(0,k.find(':')); auto any=[&](vector<string> a){ a.push_back("SERVER_ERROR out of memory"); a.push_back("SERVER_ERROR no more memory"); o->expect_any=a; };
  int x=(int)r.below(jobs?40:26);
  if(x<14){ static const char*st[]={"stats","stats settings","stats zookeeper","stats aggregate","stats items","stats sizes","stats slabs","stats scrub","stats dump","stats persistence","stats hash","stats vbucket","stats topkeys","stats no such report"}; q=st[x]; if(x==13) any({"ERROR no matching stat"}); else if(x==12) any({"STAT ","END\r\n","NOT_SUPPORTED"}); else if(x==2||x==10||x==11) any({"STAT ","END\r\n","ERROR","NOT_SUPPORTED"}); else any({"STAT ","END\r\n"}); if(x==0&&r.chance(0.5)) any({"STAT "}); }
  else if(x==14){ q="stats prefixes"; any({"PREFIX ","END\r\n"}); } else if(x==15){ q=r.chance(0.5)?"stats prefixlist item":"stats prefixlist operation"; if(r.chance(0.5)) q+=" "+px+(r.chance(0.3)?" <null>":""); any({"PREFIX ","END\r\n","CLIENT_ERROR"}); }
  else if(x==16){ q=strf("stats cachedump %d %d%s",(int)r.below(12),(int)r.below(30),r.chance(0.3)?" backward":""); any({"ITEM ","END","CLIENT_ERROR"}); } else if(x==17){ q=r.chance(0.6)?"stats detail dump":r.chance(0.5)?"stats detail on":"stats detail off"; any({"OK\r\n","PREFIX ","END\r\n"}); }
  else if(x<21){ static const char*cf[]={"maxconns","memlimit","max_list_size","max_set_size","max_map_size","max_btree_size","max_element_bytes","scrub_count","max_stats_prefixes","verbosity","zkfailstop","hbtimeout","hbfailstop","chkpt_interval_pct_snapshot","chkpt_interval_min_logsize","async_logging","nosuch"}; int i=(int)r.below(17); q=string("config ")+cf[i]; if(i<10) any({string(cf[i])+" "}); else any({string(cf[i])+" ","NOT_SUPPORTED","CLIENT_ERROR","ERROR"}); }
  else if(x==21){ q=strf("config scrub_count %d",(int)r.range(1,200)); any({"END","CLIENT_ERROR"}); } else if(x==22){ q=strf("config verbosity %d",(int)r.below(4)); any({"END","SERVER_ERROR"}); }
  else if(x==23){ q="help"+string(r.chance(0.5)?" bop":""); any({"\t"}); } else if(x==24){ q="ready"; any({"READY","NOT_READY","ERROR","ALIVE","OK"}); } else if(x==25){ bool pf=r.chance(0.4); q=strf(pf?"scan prefix 0 count %d":"scan key 0 count %d",(int)r.range(1,200)); any({pf?"PREFIXES ":"KEYS "}); if(r.chance(0.4)){ q="set zz 0 0 1\r\na\r\nget zz k0 zz "+string(16001+r.below(3000),'k')+"\r\n"+q; any({"STORED","TYPE_MISMATCH"}); } }
  else if(x<29){ q=r.chance(0.8)?"scrub":"scrub stale"; any({"OK","BUSY","NOT_SUPPORTED","ERROR"}); } else if(x<32){ q=strf("dump start key%s /sim/dump%d",r.chance(0.3)?(" "+px).c_str():"",(int)r.below(3)); any({"OK","SERVER_ERROR","CLIENT_ERROR"}); } else if(x<33){ q="dump stop"; any({"OK","SERVER_ERROR","CLIENT_ERROR"}); }
  else if(x<35){ q="cmdlog start /sim"; any({"\tcommand logging"}); } else if(x<36){ q="cmdlog stop"; any({"\tcommand logging"}); } else if(x<37){ q="cmdlog stats"; any({"\tCommand"}); } else if(x<38){ q=r.chance(0.7)?"lqdetect start 3":"lqdetect stop"; any({"\tlong query"}); } else if(x<39){ q="lqdetect show"; any({"sop get"}); } else { q="lqdetect stats"; any({"\tLong"}); }
  o->req=q+"\r\nversion\r\n"; probe("operator requests"); return o; }
void with_admin(Work*w,double pr,int jobs){ auto g0=w->gen; w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(!c->bin&&r.chance(pr)) return admop(w,r,jobs); return g0?g0(w,c,idx,r):nullptr; }; }
void churn_drain(Cfg&c,Work*w,Rng&r){ c09_churn(c,w,r); }
static const vector<PropDef> P={
 {"C09",{{"churn",c09_churn,20},{"limits",c09_limits,6},{"long",c09_long,1}}},
 {"C15",{{"kv",c15_kv,4},{"coll",c15_coll,5},{"conn",c15_conn,2}}},
};
const vector<PropDef>& props_sys(){ return P; }
