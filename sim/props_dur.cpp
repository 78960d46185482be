// Profiles of the durability properties: command log, checkpoint, recovery.
#include "run.h"
#include <stdlib.h>
#include <signal.h>
size_t arcus_sim_cmdlog_buffer_size, arcus_sim_cmdlog_flush_auto_size, arcus_sim_snapshot_buffer_size; uint32_t arcus_sim_hash_power, arcus_sim_prefix_hash_power, arcus_sim_cmdlog_input_buffer_size, arcus_sim_cmdlog_input_write_size; int arcus_sim_cmdlog_input_file_size, arcus_sim_btree_item_count, arcus_sim_hashchain_size;
extern "C" { }
void dur_prepare(){ arcus_sim_btree_item_count=(int)W->cfg.knob("bt_items",32); arcus_sim_hashchain_size=(int)W->cfg.knob("chain",64); arcus_sim_cmdlog_buffer_size=W->cfg.knob("clog_buf",256<<10); arcus_sim_cmdlog_flush_auto_size=W->cfg.knob("clog_auto",32<<10); arcus_sim_snapshot_buffer_size=W->cfg.knob("snap_buf",256<<10); arcus_sim_cmdlog_input_buffer_size=(uint32_t)W->cfg.knob("cl_buf",256<<10); arcus_sim_cmdlog_input_write_size=(uint32_t)W->cfg.knob("cl_write",4<<10); arcus_sim_cmdlog_input_file_size=(int)W->cfg.knob("cl_file",10<<20); arcus_sim_hash_power=(uint32_t)W->cfg.knob("hash_power",16); arcus_sim_prefix_hash_power=(uint32_t)W->cfg.knob("prefix_hash_power",10); }
struct DurState { int crashes=0; int left=0; bool final_done=false; bool fin=false; int finalkind=0; };
static void mixall(Plan&p,bool kvonly){
  p.mix={{K_GET,2},{K_SET,8},{K_ADD,3},{K_REPLACE,2},{K_APPEND,3},{K_PREPEND,1},{K_INCR,2},{K_DECR,1},{K_DELETE,3},{K_TOUCH,1},{K_SETATTR,2},{K_GETATTR,1}};
  if(!kvonly) for(auto x:vector<std::pair<int,int>>{{L_CREATE,1},{L_INSERT,8},{L_DELETE,3},{L_GET,2},{S_CREATE,1},{S_INSERT,6},{S_DELETE,2},{S_GET,1},{M_CREATE,1},{M_INSERT,5},{M_UPSERT,2},{M_UPDATE,2},{M_DELETE,2},{M_GET,2},{B_CREATE,2},{B_INSERT,10},{B_UPSERT,3},{B_UPDATE,3},{B_DELETE,3},{B_INCR,1},{B_GET,3}}) p.mix.push_back(x); }
static void one_type(Work*w,Rng&r){ Plan&p=w->p; vector<vector<std::pair<int,int>>> t={
  {{L_CREATE,2},{L_INSERT,16},{L_DELETE,4},{L_GET,4}},{{S_CREATE,2},{S_INSERT,14},{S_DELETE,4},{S_GET,3}},{{M_CREATE,2},{M_INSERT,10},{M_UPSERT,4},{M_UPDATE,4},{M_DELETE,3},{M_GET,3}},
  {{B_CREATE,2},{B_INSERT,18},{B_UPSERT,5},{B_UPDATE,4},{B_DELETE,4},{B_INCR,1},{B_DECR,1},{B_GET,3}},{{K_SET,8},{K_ADD,2},{K_APPEND,3},{K_PREPEND,1},{K_REPLACE,2},{K_INCR,3},{K_GET,1}}};
  for(size_t i=0;i<p.keys.size();i++){ auto m=t[r.below(t.size())]; m.insert(m.end(),{{K_DELETE,1},{K_SETATTR,2},{K_GETATTR,1},{K_TOUCH,1}}); p.keymix.push_back(m); } }
static void persist(Cfg&c,Work*w,Rng&r,bool async,i64 chkpt_min){
  Plan&p=w->p; c.argv.insert(c.argv.end(),{"-e",strf("use_persistence=true;data_path=/sim/data;logs_path=/sim/logs;async_logging=%s;chkpt_interval_min_logsize=%lld;chkpt_interval_pct_snapshot=%d",async?"true":"false",(long long)chkpt_min,(int)r.range(1,r.chance(0.5)?20:200))});
  c.k["clog_buf"]=(i64)r.range(24<<10,r.chance(0.5)?40<<10:200<<10); c.k["clog_auto"]=r.chance(0.6)?32<<10:(i64)r.range(64,8000); c.k["snap_buf"]=r.chance(0.5)?(i64)r.range(24<<10,60<<10):256<<10;
  if(async) c.k["clog_auto"]=std::min<i64>(c.k["clog_auto"],c.k["clog_buf"]/3); // nothing else starts a flush
  c.k["disk_write_ns"]=(i64)r.logu(r.chance(0.3)?3000000:20000); c.k["disk_fsync_ns"]=(i64)r.logu(r.chance(0.3)?20000000:300000);
  p.maxval=80; p.p_big=0.03; p.bigval=3000; p.p_unread=0.02; p.p_max=0.5; p.budget=150000; p.mc.async=async; p.close_ok=false; p.audit=true; p.audit_after_crash=true; p.p_reconn=0; p.p_create=0.6; no_drop(w); }
static void boot_plan(Cfg&c,Work*w,Rng&r,std::shared_ptr<DurState> d,int crashes,i64 span,double near5=0){ (void)c; (void)r;
  d->left=crashes; w->on_boot.push_back([d,span,near5](Work*w){ w->p.close_ok=false; w->expect_exit=false; if(d->left<=0) return; Rng&q=W->rmisc; int kind=q.chance(0.5)?1:0;
      if(q.chance(0.25)){ i64 t=q.chance(0.2)?(i64)q.logu(4000000):(i64)q.below(span); at_node(t,[w]{ if(!W->faults_on) return; probe("SIGTERM under load"); w->expect_exit=true; w->p.close_ok=true; node_deliver_signal(SIGTERM); }); return; }
      if(q.chance(near5)){ i64 t=(1+(i64)q.below(span/5000000000LL))*5000000000LL+(i64)q.logu(q.chance(0.5)?30000000:600000000)-2000000; at_node(t,[kind]{ if(!W->faults_on) return; if(W->rmisc.chance(0.5)){ W->crash_kind=kind; W->crash_at_disk=(i64)W->disk_ops+1+(i64)W->rmisc.logu(30); return; } fault_note(kind?F_CRASH_POWER:F_CRASH_KILL); node_stop(NX_CRASH,kind,"crash around a checkpoint"); }); return; }
      if(q.chance(0.5)){ W->crash_kind=kind; W->crash_at_disk=(i64)W->disk_ops+1+(i64)(q.chance(0.3)?q.below(8):q.logu(400)); }
      else { i64 t=q.chance(0.2)?(i64)q.logu(4000000):(i64)q.below(span); at_node(t,[kind]{ if(!W->faults_on) return; fault_note(kind?F_CRASH_POWER:F_CRASH_KILL); node_stop(NX_CRASH,kind,"crash at a random instant"); }); } });
  w->on_exit=[d](Work*){ if(d->left>0) d->left--; d->crashes++; probe("crash"); return true; }; }
// at the end of the run: stop the node once more (crash or orderly) and look at what is left
static void final_stop(Work*w,std::shared_ptr<DurState> d,int how){ // 0 kill, 1 power, 2 SIGTERM
  d->finalkind=how; w->on_post.push_back([d,how](Work*w){ if(d->final_done) return; w->script.push_front([d,how](Work*w){ d->final_done=true;
      if(how<2){ fault_note(how?F_CRASH_POWER:F_CRASH_KILL); node_stop(NX_CRASH,how,"final crash"); }
      w->expect_exit=true; w->p.close_ok=true; node_deliver_signal(SIGTERM); return true; }); }); }
static void c16_base(Cfg&c,Work*w,Rng&r,bool onet){ Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,1,4,80); p.p_noreply=r.chance(0.6)?0:0.2; persist(c,w,r,false,256); p.think_ns=(i64)r.logu(2000000); mixall(p,false); if(onet) one_type(w,r);
  if(r.chance(0.3)){ p.prefixes={"k0","<null>"}; p.mix.push_back({r.chance(0.5)?K_FLUSH:K_FLUSHPFX,1}); } p.mbr=r.chance(0.3); p.bk=(int)r.below(2); if(r.chance(0.3)) p.numeric=30;
  auto d=std::make_shared<DurState>(); boot_plan(c,w,r,d,(int)r.range(0,3),std::max<i64>(2000000,(i64)p.ops*(p.think_ns/2+2500000)/p.depth)); final_stop(w,d,(int)r.below(3)); }
static void c16_mixed(Cfg&c,Work*w,Rng&r){ c16_base(c,w,r,false); }
static void c16_typed(Cfg&c,Work*w,Rng&r){ c16_base(c,w,r,true); }
static void c16_expire(Cfg&c,Work*w,Rng&r){ c16_base(c,w,r,r.chance(0.5)); Plan&p=w->p; c.argv.insert(c.argv.end(),{"-g","32"}); p.exps={0,0,1,2,2,3,4,6,100000}; if(r.chance(0.4)) p.exps.push_back(-1); p.think_ns=(i64)r.range(1000000,400000000); c.k["reboot_ns"]=r.chance(0.5)?(i64)r.below(6000000000LL):1000000; p.mc.slack_ns=7500000000LL; if(r.chance(0.6)) p.mc.slack_ns=3500000000LL; }
// ---------------------------------------------------------------- C17: asynchronous logging
static void c17_base(Cfg&c,Work*w,Rng&r,bool onet,i64 chk){ Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,1,4,80); p.p_noreply=r.chance(0.6)?0:0.2; persist(c,w,r,true,chk); p.think_ns=(i64)r.logu(r.chance(0.5)?2000000:20000000); mixall(p,false); if(onet) one_type(w,r);
  if(r.chance(0.3)){ p.prefixes={"k0","<null>"}; p.mix.push_back({r.chance(0.5)?K_FLUSH:K_FLUSHPFX,1}); } p.mbr=r.chance(0.3); p.bk=(int)r.below(2); if(r.chance(0.3)) p.numeric=30;
  auto d=std::make_shared<DurState>(); boot_plan(c,w,r,d,(int)r.below(3),std::max<i64>(2000000,(i64)p.ops*(p.think_ns/2+100000)/p.depth)); int how[]={0,1,2,2,2}; final_stop(w,d,how[r.below(5)]); }
static void c17_mixed(Cfg&c,Work*w,Rng&r){ c17_base(c,w,r,r.chance(0.5),256); }
struct RegW { Op*o; string reg, tag; };
static string regname(const Op*o){ switch(o->kind){ case K_SET: return o->key; case M_UPSERT: return o->key+"/"+o->fields[0]; case B_UPSERT: return o->key+"/"+o->b1.text(); default: return ""; } }
// recovered = a prefix of the order of the updates: an update that was answered before another one was sent survives when the other one does
static string order_check(Work*w){ const History&H=w->H_; size_t ne=H.crash_seq.size();
  for(size_t e=0;e<ne;e++){ u64 lo=e?H.crash_seq[e-1]:0, hi=H.crash_seq[e], nx=e+1<ne?H.crash_seq[e+1]:~0ULL; map<string,string> seen; map<string,int> nseen; map<string,vector<Op*>> wr; 
    for(Op*o:H.ops){ if(o->inv>hi&&o->inv<nx&&o->client>=90&&o->st==S_DONE&&(o->kind==K_GETS||o->kind==M_GET||o->kind==B_GET)) { nseen[o->key]|=o->kind==K_GETS?1:o->kind==M_GET?2:4; if(seen[o->key].find("VALUE")==string::npos) seen[o->key]+=o->resp; }
      if(o->inv>lo&&o->inv<hi&&o->client<90&&o->st!=S_NEW){ string g=regname(o); if(!g.empty()) wr[g].push_back(o); } }
    bool full=true; for(auto&k:w->p.keys) if(nseen[k]!=7) full=false; if(!full) continue; // the audit of this recovery did not finish
    map<string,Op*> got; for(auto&x:wr){ got[x.first]=nullptr; for(Op*o:x.second){ string tag=o->val.substr(0,o->val.find('.',o->val.find('.')+1)+1); const string&t=seen[o->key]; size_t q=0; bool f=false; while((q=t.find(tag,q))!=string::npos){ if(q&&(t[q-1]=='\n'||t[q-1]==' ')){ f=true; break; } q++; } if(f) got[x.first]=o; } }
    for(auto&y:got) if(y.second) for(auto&a:wr) if(a.first!=y.first) for(Op*x:a.second){ if(!(x->st==S_DONE||x->st==S_IMPLIED)||x->ret>=y.second->inv) continue; if(x->st==S_DONE&&!x->noreply&&x->resp.find("STORED")==string::npos&&x->resp.find("REPLACED")==string::npos) continue; if(x->resp.find("NOT_STORED")!=string::npos) continue; Op*z=got[a.first]; if(z&&!(z->st!=S_SENT&&z->st!=S_LOST&&z->ret<x->inv)) continue;
        return "not-a-prefix::after stop "+std::to_string(e)+" a later update survived and an earlier one did not\n  survived: "+op_text(y.second)+"\n  lost:     "+op_text(x)+"\n  "+a.first+" recovered as: "+(z?op_text(z):string("its value before that run of the server"))+"\n"; } }
  return ""; }
// clients that send bursts around the instants at which the checkpoint thread looks at the log, so that operations meet running checkpoints
static void bursts(Cfg&c,Work*w,Rng&r,int nburst){ Plan&p=w->p; auto t0=std::make_shared<i64>(0); w->on_boot.push_back([t0](Work*){ *t0=W->now; }); i64 lead=(i64)r.logu(40000000), dense=(i64)r.logu(r.chance(0.5)?300000:5000000); int per=std::max(2,p.ops/std::max(1,nburst)); double idle=r.chance(0.5)?0:r.unit()*0.3;
  w->think=[=](Work*w,CS*cs)->i64{ i64 d=(i64)(dense*2*w->crng.unit()*w->crng.unit()); if(w->crng.chance(1.0/per)||w->crng.chance(idle/per)){ i64 at=5000000000LL, el=W->now-*t0; i64 k=el/at+1; d=*t0+k*at-lead+(i64)w->crng.below(lead+200000)-W->now; if(d<0) d=dense; } return d; };
  c.k["disk_write_ns"]=(i64)r.logu(r.chance(0.5)?100000000:1000000); c.k["snap_buf"]=(i64)r.range(5<<10,r.chance(0.6)?12<<10:60<<10); }
static void c17_ordbase(Cfg&c,Work*w,Rng&r,bool chk){ Plan&p=w->p; p.keys={}; bool many=chk&&r.chance(0.7); int nk=many?(int)r.range(18,60):(int)r.range(2,6); for(int i=0;i<nk;i++) p.keys.push_back(strf("k%d",i)); vector<int> kd; for(int i=0;i<nk;i++) kd.push_back(many&&r.chance(0.9)?0:(int)r.below(3)); 
  load(p,r,2,4,many?500:r.chance(0.3)?300:100); p.p_noreply=r.chance(0.5)?0:0.2; persist(c,w,r,true,chk?0:256); p.p_unread=0; p.p_max=0; p.maxval=r.chance(0.5)?60:900; p.p_crlf=0; p.numeric=0; p.think_ns=(i64)r.logu(r.chance(0.5)?1000000:20000000); p.mix={{K_SET,1},{M_UPSERT,1},{B_UPSERT,1}};
  if(chk&&r.chance(0.5)) c.argv.back()=c.argv.back().substr(0,c.argv.back().rfind('='))+"=1";
  p.nfields=(int)r.range(1,8); p.nbk=(int)r.range(1,12); p.bk=0; p.p_ef=0.3; p.check_lin=r.chance(0.2); p.budget=30000;
  w->gen=[kd](Work*w,CS*c,int,Rng&r){ size_t i=r.below(w->p.keys.size()); int k[]={K_SET,M_UPSERT,B_UPSERT}; Op*o=w->gen_kind(k[kd[i]],w->p.keys[i],r,c); o->create=true; o->getrim=false; o->attr.exp=0; return o; };
  i64 span=std::max<i64>(2000000,(i64)p.ops*(p.think_ns/2+100000)/p.depth); if(chk){ int nb=(int)r.range(2,4); bursts(c,w,r,nb); span=5000000000LL*nb; }
  auto d=std::make_shared<DurState>(); boot_plan(c,w,r,d,(int)r.range(1,3),span); final_stop(w,d,(int)r.below(3)); w->checks.push_back(order_check); }
static void c17_order(Cfg&c,Work*w,Rng&r){ c17_ordbase(c,w,r,false); }
static void c17_ckorder(Cfg&c,Work*w,Rng&r){ c17_ordbase(c,w,r,true); }
// ---------------------------------------------------------------- C18: checkpoints
static Op* filler(Work*w,Rng&r,int n,int maxlen){ Op*o=w->mk(X_RAW,""); size_t L=r.below(maxlen+1); o->req=strf("set z%d 0 0 %zu\r\n",n,L)+string(L,'z')+"\r\n"; o->expect_any={"STORED"}; return o; }
static string two_files(){ vector<string> d=disk_list("/sim/data"), l=disk_list("/sim/logs"); auto show=[&]{ string s; for(auto&x:d) s+=x+" "; s+="| "; for(auto&x:l) s+=x+" "; return s; };
  if(d.size()!=1||l.size()!=1) return "obsolete-files::files left after 50 quiet seconds: "+show(); if(d[0].substr(d[0].find('_'))!=l[0].substr(l[0].find('_'))) return "obsolete-files::snapshot and log differ: "+show(); return ""; }
// the server has nothing to do for a while: obsolete files are gone, the needed ones are not
static void idle_step(Work*w,std::shared_ptr<string> bad,int left){ w->script.push_front([w,bad,left](Work*){ at_node(6100000000LL,[w,bad,left]{ string s=two_files(); if(s.empty()) probe("file check"); else if(left<=0){ if(bad->empty()) *bad=s; } else idle_step(w,bad,left-1); w->step_script(); }); return true; });
  w->script.push_front([](Work*w){ Op*o=filler(w,W->rmisc,0,1); static u32 n; o->id=8500000+(n++)%100000; w->ctl_op(o); return true; }); }
static void idle_files(Work*w){ auto bad=std::make_shared<string>(); w->on_post.push_back([bad](Work*w){ idle_step(w,bad,8); }); w->checks.push_back([bad](Work*){ return *bad; }); }
static void c18_base(Cfg&c,Work*w,Rng&r,int mode){ Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,1,4,r.chance(0.3)?160:90); p.p_noreply=r.chance(0.6)?0:0.2; persist(c,w,r,false,0); mixall(p,false); if(r.chance(0.5)) one_type(w,r);
  if(r.chance(0.5)) c.argv.back()=c.argv.back().substr(0,c.argv.back().rfind('='))+"=1";
  if(r.chance(0.3)){ p.prefixes={"k0","<null>"}; p.mix.push_back({r.chance(0.5)?K_FLUSH:K_FLUSHPFX,1}); for(auto&m:p.keymix) m.push_back({r.chance(0.5)?K_FLUSH:K_FLUSHPFX,1}); } p.mbr=r.chance(0.3); p.bk=(int)r.below(2); if(r.chance(0.3)) p.numeric=30;
  int nb=(int)r.range(1,4); bursts(c,w,r,nb); c.k["clog_auto"]=std::max<i64>(c.k["clog_auto"],1500); c.k["snap_buf"]=std::max<i64>(c.k["snap_buf"],6000); if(c.k["disk_write_ns"]>30000000) c.k["disk_write_ns"]=30000000;
  int fill=r.chance(0.8)?(int)r.range(10,80):0, per=fill/p.clients; double noise=r.chance(0.4)?0:r.unit()*0.5; int flen=(int)r.range(0,120); p.ops+=per; p.ops=(int)(p.ops*(1+noise));
  auto g0=w->gen; w->gen=[g0,per,fill,noise,flen](Work*w,CS*c,int idx,Rng&r)->Op*{ if(idx<per) return filler(w,r,c->id*per+idx,flen); if(fill&&r.chance(noise)) return filler(w,r,(int)r.below(fill),flen); return g0?g0(w,c,idx,r):nullptr; };
  if(mode==1){ c.k["tolerate_assert"]=1; c.k["disk_target"]=r.chance(0.6)?1:0; double q=r.unit()*r.unit()*0.5; if(c.k["disk_target"]==0) q*=0.03; int n=(int)r.range(1,3); FaultKind fk[]={F_D_WRITE_EIO,F_D_WRITE_ENOSPC,F_D_WRITE_SHORT,F_D_FSYNC_EIO,F_D_OPEN,F_D_UNLINK,F_D_OPENDIR,F_D_CLOSE,F_D_SLOW}; for(int i=0;i<n;i++){ FaultKind k=fk[r.below(9)]; c.rate[k]=(k==F_D_UNLINK||k==F_D_OPENDIR)?r.unit():q; } }
  i64 span=5000000000LL*nb; auto d=std::make_shared<DurState>(); boot_plan(c,w,r,d,mode==1?(int)r.below(2):(int)r.range(0,3),span,0.6);
  if(mode==2) w->on_boot.push_back([](Work*w){ Rng&q=W->rmisc; if(w->boot_no>1&&q.chance(0.5)){ W->wall_off-=(i64)q.logu(q.chance(0.3)?7200:30)*1000000000LL; fault_note(F_CLOCK_JUMP); } // the clock was set back while the server was down
      if(q.chance(0.5)){ i64 t=(i64)q.below(15000000000LL); at_node(t,[]{ if(!W->faults_on||W->tz_off) return; W->tz_off=-3600; fault_note(F_CLOCK_JUMP); }); } }); // the end of daylight saving time
  final_stop(w,d,(int)r.below(3)); idle_files(w); }
static void c18_crash(Cfg&c,Work*w,Rng&r){ c18_base(c,w,r,0); }
static void c18_errors(Cfg&c,Work*w,Rng&r){ c18_base(c,w,r,1); }
static void c18_clock(Cfg&c,Work*w,Rng&r){ c18_base(c,w,r,2); }
// many keys in few hash chains, a snapshot that takes long, and updates while it stands in the middle of a chain
static void c18_many(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; p.keys.clear(); int nk=(int)r.range(20,90); for(int i=0;i<nk;i++) p.keys.push_back(strf("k%d",i)); load(p,r,2,4,100); p.p_noreply=0; persist(c,w,r,false,0); mixall(p,true); if(r.chance(0.3)) one_type(w,r); p.p_big=0; p.maxval=(int)r.range(8,60); p.bigval=p.maxval;
  p.ops=(int)(nk*(1+r.unit()*4))/p.clients+2; int nb=(int)r.range(1,3); bursts(c,w,r,nb); c.k["clog_auto"]=std::max<i64>(c.k["clog_auto"],1500); c.k["snap_buf"]=(i64)r.range(900,2500); c.k["disk_write_ns"]=(i64)r.logu(300000); c.k["disk_fsync_ns"]=(i64)r.logu(1000000); c.k["snap_write_ns"]=2000000+(i64)(r.unit()*r.unit()*80e6); c.k["hash_power"]=1+(i64)r.below(3);
  auto g0=w->gen; int per=std::max(1,nk/p.clients); bool fl=r.chance(0.35); if(fl) p.prefixes={"<null>"}; auto t0=std::make_shared<i64>(0); auto fp=std::make_shared<i64>(-1); w->on_boot.push_back([t0,fp](Work*){ *t0=W->now; *fp=-1; });
  w->gen=[g0,per,nk,fl,t0,fp](Work*w,CS*c,int idx,Rng&r)->Op*{ i64 el=W->now-*t0,pd=el/5000000000LL;
    if(fl&&idx>per&&pd!=*fp&&el%5000000000LL>3000000&&el%5000000000LL<300000000){ *fp=pd; return w->gen_kind(r.chance(0.5)?K_FLUSH:K_FLUSHPFX,w->p.keys[0],r,c); } // a flush soon after the checkpoint has started, then stores
    if(idx<per&&w->p.keymix.empty()) return w->gen_kind(K_SET,w->p.keys[(c->id*per+idx)%nk],r,c); return g0?g0(w,c,idx,r):nullptr; }; p.ops+=per;
  if(r.chance(0.7)){ double gu=r.unit(); i64 gap=(i64)(c.k["snap_write_ns"]*(0.02+gu*gu*0.7)); double stop=1.0/std::max(2,p.ops/nb); w->think=[=](Work*w,CS*cs)->i64{ if(cs->next<=per) return cs->next==per? (i64)w->crng.logu(4000000000LL): 30000; i64 d=(i64)(gap*2*w->crng.unit()), at=5000000000LL, el=W->now-*t0, ph=el%at; // updates from the moment a checkpoint starts
      if(ph>2000000000LL||(ph>1000000&&w->crng.chance(stop))) d=at-ph+8000000+(i64)w->crng.below(12000000); return d; }; }
  if(r.chance(0.3)){ p.prefixes={"<null>"}; p.mix.push_back({r.chance(0.5)?K_FLUSH:K_FLUSHPFX,1}); for(auto&m:p.keymix) if(r.chance(0.1)) m.push_back({r.chance(0.5)?K_FLUSH:K_FLUSHPFX,1}); }
  if(r.chance(0.25)){ p.p_stall=0.02+0.1*r.unit(); c.sndbuf=(int)r.range(100,1000); p.maxkeys=8; p.mix.push_back({K_GET,10}); } // slow readers keep references while the snapshot is taken
  auto d=std::make_shared<DurState>(); boot_plan(c,w,r,d,r.chance(0.3)?1:0,5000000000LL*nb,0.6); final_stop(w,d,(int)r.below(2)); idle_files(w); }
// persistence and only orderly stops (C23): nothing may be missing afterwards
void dur_orderly(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,1,4,r.chance(0.3)?160:90); p.p_noreply=r.chance(0.6)?0:0.2; bool async=r.chance(0.5); persist(c,w,r,async,r.chance(0.5)?0:256); p.mc.async=false; p.think_ns=(i64)r.logu(2000000); mixall(p,false); if(r.chance(0.5)) one_type(w,r); p.mbr=r.chance(0.3); p.bk=(int)r.below(2);
  if(r.chance(0.5)){ c.argv.back()=c.argv.back().substr(0,c.argv.back().rfind('='))+"=1"; bursts(c,w,r,(int)r.range(1,3)); if(c.k["disk_write_ns"]>30000000) c.k["disk_write_ns"]=30000000; }
  c.k["clog_auto"]=std::min<i64>(std::max<i64>(c.k["clog_auto"],1500),c.k["clog_buf"]/3); c.k["snap_buf"]=std::max<i64>(c.k["snap_buf"],6000); }
static const vector<PropDef> P={
 {"C16",{{"mixed",c16_mixed,1},{"typed",c16_typed,2},{"expire",c16_expire,1}}},
 {"C18",{{"crash",c18_crash,3},{"errors",c18_errors,2},{"clock",c18_clock,1},{"many",c18_many,3}}},
 {"C17",{{"mixed",c17_mixed,2},{"order",c17_order,2},{"ckorder",c17_ckorder,1}}},
};
const vector<PropDef>& props_dur(){ return P; }
