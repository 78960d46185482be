// C23: every request is answered, background work ends, an orderly shutdown terminates the process.
#include "run.h"
#include <stdlib.h>
#include <signal.h>
#include "step.h"
struct Stop { bool asked=false, may=false; i64 at=0, limit=0; int sig=0; bool clean=true; int restarts=0; };
typedef std::shared_ptr<Stop> SP;
static void due(Work*w,SP s,i64 extra){ i64 lim=W->now+extra+60000000000LL; if(lim>s->limit) s->limit=lim; int b=w->boot_no; at_node(s->limit-W->now,[w,s,b]{ if(w->boot_no==b&&s->asked&&W->now>=s->limit) violate("no-exit","the server was asked to stop %.1f s ago and is still running:%s",(W->now-s->at)/1e9,fiber_report().c_str()); }); }
static void may(Work*w,SP s){ s->may=true; w->expect_exit=true; w->p.close_ok=true; }
static void asked(Work*w,SP s,i64 extra){ may(w,s); if(!s->asked){ s->asked=true; s->at=W->now; probe("orderly stops"); } due(w,s,extra); }
static void sig(Work*w,SP s){ asked(w,s,0); Rng&q=W->rmisc; int a=q.chance(0.9)?SIGTERM:SIGINT; node_deliver_signal(a); if(q.chance(0.2)) node_signal_at_lock(q.chance(0.5)?SIGTERM:SIGINT,(int)q.logu(200)); }
static i64 span_of(Plan&p){ return std::max<i64>(2000000,(i64)p.ops*(p.think_ns/2+200000)/p.depth); }
// ways to ask: a signal (several, sometimes) at a random instant, or the command
static void stopper(Cfg&c,Work*w,Rng&r,SP s,i64 span,int stops){ (void)c; bool cmd=r.chance(0.5); double pc=cmd?1.0/std::max(1,w->p.ops*w->p.clients):0; s->restarts=stops-1;
  w->on_boot.push_back([s,span,cmd](Work*w){ s->asked=s->may=false; s->limit=0; w->expect_exit=false; Rng&q=W->rmisc; if(cmd&&q.chance(0.7)) return; i64 t=q.chance(0.15)?(i64)q.logu(4000000):(i64)q.below((u64)(span*1.3)); at_node(t,[w,s]{ if(w->phase==3) return; sig(w,s); if(W->rmisc.chance(0.5)){ int n=1+(int)W->rmisc.below(3); for(int i=0;i<n;i++) at_node((i64)W->rmisc.logu(3000000000ULL),[w,s]{ sig(w,s); }); } }); });
  if(cmd){ auto g0=w->gen; w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(!c->bin&&r.chance(pc*2)){ Op*o=w->mk(X_RAW,""); int d=r.chance(0.3)?-1:r.chance(0.3)?0:r.chance(0.7)?(int)r.range(1,6):(int)r.range(0,600); o->req=d<0?"shutdown\r\n":strf("shutdown %d\r\n",d); o->frame=F_LINE; o->expect_any={"OK","DENIED"}; o->note="shutdown"; o->count=d<0?2:d; may(w,s); due(w,s,o->count*1000000000LL); if(d<0&&r.chance(0.3)) at_node((i64)r.logu(3000000000ULL),[w,s]{ sig(w,s); }); return o; } return g0?g0(w,c,idx,r):nullptr; }; }
  w->on_op=[s](Work*w,Op*o){ if(o->note=="shutdown"&&o->resp.compare(0,2,"OK")==0) asked(w,s,o->count*1000000000LL); };
  // nobody asked while the clients were busy: now
  w->on_post.push_back([s](Work*w){ w->script.push_front([s](Work*w){ if(!s->asked){ if(W->rmisc.chance(0.3)){ Op*o=line(w,"shutdown",F_LINE,{"OK","DENIED"}); o->note="shutdown"; o->count=2; may(w,s); w->ctl_op(o,nullptr); if(W->rmisc.chance(0.3)) at_node((i64)W->rmisc.logu(2000000000ULL),[w,s]{ sig(w,s); }); } else sig(w,s); } return true; }); });
  w->on_exit=[s](Work*w){ if(W->node_exit==NX_EXIT){ if(!s->may) violate("server-exit","%s",W->node_why.c_str()); if(s->clean&&W->node_code!=0) violate("exit-code","the server ended with status %d after an orderly stop: %s",W->node_code,W->node_why.c_str()); probe("orderly exits"); } if(s->restarts-->0) return true; return false; }; }
static void busy(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(2,6)); load(p,r,2,6,r.chance(0.2)?250:100); all_mix(p); p.mix.insert(p.mix.end(),{{K_DELETE,4},{L_CREATE,1},{B_CREATE,1}}); p.depth=1+(int)r.logu(10); p.maxkeys=5; p.mbr=false; p.p_bin=r.chance(0.3)?0.3:0; p.bincoll=true; p.p_rst=r.chance(0.4)?0.05:0; p.p_fin=r.chance(0.4)?0.05:0; p.p_stall=r.chance(0.4)?0.05:0; p.p_reconn=0.02; p.close_ok=true; p.audit=false; no_drop(w);
  if(r.chance(0.5)) seg(c,r); if(r.chance(0.5)) c.sndbuf=(int)r.range(64,r.chance(0.5)?400:60000); if(r.chance(0.3)){ p.maxval=3000; p.p_big=0.1; p.bigval=15000; p.ops=std::min(p.ops,15); } if(r.chance(0.4)) p.think_ns=(i64)r.logu(100000000); 
  if(r.chance(0.6)) with_admin(w,0.02+0.2*r.unit(),1); if(r.chance(0.3)){ c.rate[F_THREAD_STALL]=0.003; } if(r.chance(0.3)) c.rate[F_TIMER_LATE]=0.3; if(r.chance(0.3)) c.rate[F_SPURIOUS_WAKE]=0.1; c.k["disk_write_ns"]=(i64)r.logu(r.chance(0.4)?50000000:200000); }
static void fill_colls(Work*w,Rng&r,int n,int big){ auto left=std::make_shared<int>(n); auto g0=w->gen; w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(!c->bin&&*left>0&&r.chance(0.3)){ (*left)--; Op*o=w->mk(X_RAW,""); int t=(int)r.below(4), m=(int)r.range(30,big); string k=strf("z%d",*left); string b; const char*cr[]={"lop create %s 0 0 5000 noreply\r\n","sop create %s 0 0 5000 noreply\r\n","mop create %s 0 0 5000 noreply\r\n","bop create %s 0 0 5000 noreply\r\n"}; b=strf(cr[t],k.c_str()); for(int i=0;i<m;i++){ string v=strf("%06d",i); b+=t==0?strf("lop insert %s -1 6 noreply\r\n",k.c_str()):t==1?strf("sop insert %s 6 noreply\r\n",k.c_str()):t==2?strf("mop insert %s f%d 6 noreply\r\n",k.c_str(),i):strf("bop insert %s %d 6 noreply\r\n",k.c_str(),i); b+=v+"\r\n"; } b+=strf("delete %s\r\n",k.c_str()); o->req=b; o->frame=F_LINE; o->expect_any={"DELETED"}; return o; } return g0?g0(w,c,idx,r):nullptr; }; (void)r; }
static void c23_stop(Cfg&c,Work*w,Rng&r){ busy(c,w,r); if(r.chance(0.4)) fill_colls(w,r,3,r.chance(0.5)?100:1500); auto s=std::make_shared<Stop>(); stopper(c,w,r,s,span_of(w->p),1); }
// what runs in the background ends when nobody asks for more
static void until(Work*w,const string&req,const string&bad,const string&what,int secs){ auto left=std::make_shared<int>(secs); auto f=std::make_shared<Step>(); *f=[=](Work*w){ Op*o=line(w,req+"\r\nversion",F_VER); w->ctl_op(o,[=](Op*o){ if(o->resp.find(bad)==string::npos) return; if(--*left<=0){ violate("no-progress","%s is not over after %d quiet seconds: %s",what.c_str(),secs,o->resp.c_str()); return; } front((Work*)W->dir,{wait_ns(1000000000LL),*f}); }); return true; }; w->on_post.push_back([f](Work*w){ front(w,{*f}); }); }
static void c23_progress(Cfg&c,Work*w,Rng&r){ churn_drain(c,w,r); Plan&p=w->p; if(r.chance(0.7)) with_admin(w,0.03+0.2*r.unit(),1); fill_colls(w,r,(int)r.below(4),r.chance(0.5)?100:1500); c.rate[F_THREAD_STALL]=r.chance(0.5)?0.003:0; if(r.chance(0.4)) c.rate[F_TIMER_LATE]=0.3; if(r.chance(0.4)) c.rate[F_SPURIOUS_WAKE]=0.1; if(r.chance(0.3)) c.rate[F_PIPE_SHORT]=0.05; if(p.think_ns<1000000&&r.chance(0.3)) p.think_ns=(i64)r.logu(100000000); c.k["disk_write_ns"]=(i64)r.logu(r.chance(0.4)?50000000:200000);
  until(w,"stats scrub","scrubber:status running","scrubbing",60); until(w,"stats dump","dumper:status running","the key dump",60); w->on_post.push_back([](Work*w){ front(w,{ask("cmdlog stop",F_LINE,nullptr,{"\tcommand logging"}),ask("lqdetect stop",F_LINE,nullptr,{"\tlong query"})}); }); until(w,"cmdlog stats",": running","the command log",60); }
static void c23_persist(Cfg&c,Work*w,Rng&r){ dur_orderly(c,w,r); auto s=std::make_shared<Stop>(); stopper(c,w,r,s,span_of(w->p)*3,(int)r.range(1,4)+1); }
static const vector<PropDef> P={ {"C23",{{"stop",c23_stop,6},{"progress",c23_progress,4},{"persist",c23_persist,2}}} };
const vector<PropDef>& props_live(){ return P; }
