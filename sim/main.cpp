// Runner: seeded batches over worker processes, confirmation, minimisation, replay and evidence.
#include "run.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <getopt.h>
#include <time.h>
#include <signal.h>
#include <errno.h>
extern void heap_init(); extern void os_init(); extern void net_init(); extern void zk_init() __attribute__((weak));
extern "C" int memcached_main(int,char**);
void dur_prepare();
void node_prepare(){ dur_prepare(); heap_init(); net_init(); os_init(); if(zk_init) zk_init(); }
int sut_main(){ static vector<char*> av; av.clear(); for(auto&s:W->cfg.argv) av.push_back((char*)s.c_str()); av.push_back(nullptr); optind=1; return memcached_main((int)av.size()-1,av.data()); }
bool tolerate_assert(const char*e,const char*f,const char*fn){ if(!W->cfg.knob("tolerate_assert",0)) return false; (void)e;(void)f;(void)fn; for(auto&r:W->faults) if((r.kind>=F_D_WRITE_EIO&&r.kind<=F_D_OPENDIR)||r.kind==F_MALLOC){ fault_note(F_CRASH_KILL); return true; } return false; }
void director_conn_data(Conn*c){ if(W->dir) W->dir->on_data(c);} void director_conn_closed(Conn*c){ if(W->dir) W->dir->on_closed(c);} void director_connected(Conn*c){ if(W->dir) W->dir->on_connected(c);} 
static double wall(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Result { bool viol=false, inconclusive=false, harness=false; string kind,detail; u64 hash=0,ilhash=0,steps=0,switches=0,preempts=0,inc=0,searched=0,boots=0,ops=0,answered=0; i64 simtime=0; u64 faults[F_COUNT]; map<string,u64> probes; vector<FaultRec> frec; vector<u64> opids; vector<u64> devs; u64 sched_ord=0; string log, ophist, cfgtext; };
static const PropDef* find_prop(const string&id){ for(auto&p:all_props()) if(id==p.id) return &p; return nullptr; }
static int pick_profile(const PropDef*p,u64 idx){ u64 tot=0; for(auto&x:p->profs) tot+=x.weight; u64 r=mix64(idx*977+5)%tot; for(size_t i=0;i<p->profs.size();i++){ if(r<(u64)p->profs[i].weight) return i; r-=p->profs[i].weight; } return 0; }
static u64 run_seed(const string&prop,u64 base,u64 idx){ u64 h=mix64(base); for(char c:prop) h=mix64(h^c); return mix64(h^idx*0x9E3779B97F4A7C15ULL)>>1; }
static int child_wall=40;
static string cfg_text(){ string s; for(auto&a:W->cfg.argv) s+=a+" "; s+=strf("| strategy=%d p_sync=%.2f mean_preempt=%lld p_seg=%.2f",W->cfg.strategy,W->cfg.p_sync,(long long)W->cfg.mean_preempt,W->cfg.p_seg); for(int i=0;i<F_COUNT;i++) if(W->cfg.rate[i]>0) s+=strf(" %s=%.4f",fault_name[i],W->cfg.rate[i]); for(auto&k:W->cfg.k) s+=strf(" %s=%lld",k.first.c_str(),(long long)k.second); return s; }
static void run_one(const PropDef*P,int prof,u64 seed,const Masks&m,bool tracing,Result&R,bool detail=false){
  Cfg c; c.seed=seed; c.profile=P->profs[prof].name; world_create(c,m,tracing); Work*w=nullptr;
  { Rng r(mix64(seed^0xabcdef)); w=new Work(); W->dir=w; 
    static const i64 pre[]={0,0,40,400,4000,40000}; W->cfg.mean_preempt=pre[r.below(6)]; W->cfg.strategy= r.chance(0.25)?1:r.chance(0.15)?3:0; W->cfg.p_sync=r.chance(0.3)?0.05:r.chance(0.5)?0.3:0.7; W->cfg.p_seg= r.chance(0.4)?0:r.unit()*0.6; W->cfg.seg_max=1+(int)r.logu(400);
    W->cfg.argv={"memcached","-E","default_engine.so","-X","ascii_scrub.so","-m","64","-t",strf("%d",(int)r.range(1,4)),"-c","60","-p","11211","-U","0"};
    { Rng q(mix64(seed^0x57a11)); if(q.chance(0.2)) W->cfg.rate[F_THREAD_STALL]=0.001; if(q.chance(0.1)) W->cfg.rate[F_TIMER_LATE]=0.2; W->cfg.k["hash_power"]=q.chance(0.3)?16:1+(i64)q.below(6); W->cfg.k["prefix_hash_power"]=q.chance(0.4)?10:(i64)q.below(4); }
    P->profs[prof].setup(W->cfg,w,r); Rng q(mix64(W->cfg.seed^0xdee9)); if(q.chance(0.5)){ if(!W->cfg.k.count("bt_items")) W->cfg.k["bt_items"]=8+(int)q.logu(24); if(!W->cfg.k.count("chain")) W->cfg.k["chain"]=4+(int)q.logu(60); } }
  memset(R.faults,0,sizeof R.faults);
  for(int boot=0;boot<40;boot++){
    arena_on=false; fflush(stdout); fflush(stderr); pid_t p=fork(); if(p<0){ R.harness=true; break; }
    if(p==0){ if(!tracing&&!getenv("DST_STDERR")&&!freopen("/dev/null","w",stderr)){} arena_on=true; alarm(child_wall); node_main(); _exit(9); }
    int st; while(waitpid(p,&st,0)<0&&errno==EINTR); arena_on=true;
    if(WIFSIGNALED(st)){ if(WTERMSIG(st)==SIGALRM) R.inconclusive=true; else { R.harness=true; R.detail=strf("child killed by signal %d",WTERMSIG(st)); } break; }
    if(W->viol.set) break;
    if(W->finished) break;
    if(W->node_exit==NX_NONE){ R.harness=true; R.detail=strf("child ended with status %x",st); break; }
    if(W->node_exit==NX_CRASH||W->node_exit==NX_EXIT){ bool power=W->node_exit==NX_CRASH&&W->node_code==1; if(W->node_exit==NX_EXIT&&!w->expect_exit){ violate("server-exit","%s",W->node_why.c_str()); break; }
      w->evs++; w->H_.crash_seq.push_back(w->evs++); w->H_.crash_t.push_back(W->now); w->H_.crash_kind.push_back(W->node_exit==NX_EXIT?1:power?2:0); net_node_down(); disk_crash(power); W->now+=W->cfg.knob("reboot_ns",1000000); int ne=W->node_exit; (void)ne; bool again=w->node_ended(); if(W->viol.set) break; if(!again){ W->finished=true; break; } continue; }
    break; }
  if(!R.harness&&!R.inconclusive&&!W->viol.set){ string kind; string d=w->verify(kind); if(!d.empty()){ W->viol.set=true; W->viol.kind=kind; W->viol.detail=d; } }
  { R.viol=W->viol.set; string k=W->viol.kind,d=W->viol.detail; bool ar=arena_on; arena_on=false; R.kind=string(k.c_str()); R.detail=R.viol?string(d.c_str()):R.detail; R.hash=W->hash; R.ilhash=W->ilhash; R.steps=W->step; R.switches=W->switches; R.preempts=W->preempts; R.simtime=W->now; R.inc=w->inc; R.searched=w->searched; R.boots=W->boots; R.sched_ord=W->sched_ord; memcpy(R.faults,W->fault_fired,sizeof R.faults); R.ops=w->H_.ops.size(); for(auto o:w->H_.ops) if(o->st==S_DONE) R.answered++;
    for(auto&x:W->probes) R.probes[string(x.first.c_str())]=x.second;
    if(detail){ R.frec.assign(W->faults.begin(),W->faults.end()); for(auto o:w->H_.ops) if(o->id&&o->client<90) R.opids.push_back(o->id); R.devs.assign(W->sched_dev.begin(),W->sched_dev.end()); R.log=string(W->log.data(),W->log.size()); for(auto o:w->H_.ops){ arena_on=true; string t=op_text(o); arena_on=false; R.ophist+=string(t.c_str())+"\n"; } arena_on=true; string ct=cfg_text(); arena_on=false; R.cfgtext=string(ct.c_str()); }
    (void)ar; }
  world_destroy(); }
// ---------------------------------------------------------------- shared batch state
struct Shared { volatile int stop, found; u64 next; u64 runs,steps,simtime,switches,preempts,inc_runs,lin_inc,lin_searched,boots,ops,answered,harness,distinct,known; u64 faults[F_COUNT]; u64 prof_runs[32]; u64 vidx; u64 fault_runs; u64 nontrivial; volatile int plock; struct { char name[56]; u64 n; } probes[64]; u64 table[1<<21]; };
static Shared*S;
static vector<std::pair<string,string>> known; // (property, signature)
static bool is_known(const string&prop,const string&kind,const string&detail,string*which=nullptr){ for(auto&k:known) if(k.first==prop){ string all=kind+" "+detail; size_t p=0; bool ok=true; string sig=k.second; size_t i=0; while(i<=sig.size()){ size_t j=sig.find("*",i); if(j==string::npos) j=sig.size(); string part=sig.substr(i,j-i); if(!part.empty()){ size_t q=all.find(part,p); if(q==string::npos){ ok=false; break; } p=q+part.size(); } i=j+1; } if(ok){ if(which) *which=k.second; return true; } } return false; }
static void load_known(const char*path){ FILE*f=fopen(path,"r"); if(!f) return; char b[4096]; while(fgets(b,sizeof b,f)){ string l=b; if(l.compare(0,6,"known:")) continue; size_t a=l.find("property="); size_t s=l.find("sig="); if(a==string::npos||s==string::npos) continue; string id=l.substr(a+9); id=id.substr(0,id.find_first_of(" \t\n")); string sig=l.substr(s+4); while(!sig.empty()&&(sig.back()=='\n'||sig.back()==' ')) sig.pop_back(); size_t h=sig.find(" ## "); if(h!=string::npos) sig=sig.substr(0,h); known.push_back({id,sig}); } fclose(f); }
static bool table_add(u64 h){ if(!h) h=1; u64 i=h&((1<<21)-1); for(int k=0;k<64;k++,i=(i+1)&((1<<21)-1)){ u64 v=__atomic_load_n(&S->table[i],__ATOMIC_RELAXED); if(v==h) return false; if(v==0){ u64 e=0; if(__atomic_compare_exchange_n(&S->table[i],&e,h,false,__ATOMIC_RELAXED,__ATOMIC_RELAXED)) return true; if(e==h) return false; } } return false; }
#define ADD(f,v) __atomic_fetch_add(&S->f,(u64)(v),__ATOMIC_RELAXED)
static void add_probes(const map<string,u64>&m){ while(__atomic_exchange_n(&S->plock,1,__ATOMIC_ACQUIRE)) usleep(50); for(auto&x:m) for(auto&p:S->probes){ if(!p.name[0]) snprintf(p.name,sizeof p.name,"%s",x.first.c_str()); if(x.first.compare(0,sizeof p.name-1,p.name)==0){ p.n+=x.second; break; } } __atomic_store_n(&S->plock,0,__ATOMIC_RELEASE); }
static void accumulate(const Result&R,int prof){ if(!R.probes.empty()) add_probes(R.probes); ADD(runs,1); ADD(steps,R.steps); ADD(simtime,R.simtime/1000000); ADD(switches,R.switches); ADD(preempts,R.preempts); ADD(inc_runs,R.inconclusive); ADD(lin_inc,R.inc); ADD(lin_searched,R.searched); ADD(boots,R.boots); ADD(ops,R.ops); ADD(answered,R.answered); ADD(harness,R.harness); ADD(prof_runs[prof],1); bool any=false; for(int i=0;i<F_COUNT;i++) if(R.faults[i]){ ADD(faults[i],R.faults[i]); if(i!=F_SEGMENT) any=true; } if(any) ADD(fault_runs,1); if(table_add(R.ilhash)&&R.answered>=2) ADD(distinct,1); }
static string jesc(const string&s){ string o; for(unsigned char c:s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if(c<32||c>=127) { char b[8]; snprintf(b,8,"\\u%04x",c); o+=b; } else o+=c; } return o; }
struct Repro { string prop; int prof; u64 seed; Masks m; };
static bool try_repro(const Repro&r,const string&kind,Result&R,bool detail=true){ R=Result(); run_one(find_prop(r.prop),r.prof,r.seed,r.m,false,R,detail); return R.viol&&R.kind==kind&&!is_known(r.prop,R.kind,R.detail); }
template<class T> static void ddmin(vector<T> items,std::function<bool(const vector<T>&removed)> test,vector<T>&removed,double deadline){
  // try to remove chunks of `items`
  size_t n=items.size(); for(size_t chunk=std::max<size_t>(1,n/2);;chunk=chunk/2){ bool prog=true; while(prog&&wall()<deadline){ prog=false; for(size_t i=0;i<items.size()&&wall()<deadline;){ vector<T> r=removed; size_t e=std::min(items.size(),i+chunk); for(size_t j=i;j<e;j++) r.push_back(items[j]); if(test(r)){ removed=r; items.erase(items.begin()+i,items.begin()+e); prog=true; } else i+=chunk; } if(chunk>1) break; } if(chunk<=1||wall()>deadline) break; } }
static Repro minimise(Repro r,const string&kind,double budget){
  double dl=wall()+budget; Result R; if(!try_repro(r,kind,R)) return r;
  { vector<u64> ops=R.opids; std::sort(ops.begin(),ops.end()); ops.erase(std::unique(ops.begin(),ops.end()),ops.end()); vector<u64> rem; ddmin<u64>(ops,[&](const vector<u64>&x){ Repro t=r; t.m.ops.insert(x.begin(),x.end()); Result q; return try_repro(t,kind,q,false); },rem,wall()+budget*0.45); r.m.ops.insert(rem.begin(),rem.end()); }
  try_repro(r,kind,R);
  { vector<u64> f; for(auto&x:R.frec) if(!(x.ord>>39)) f.push_back(((u64)x.kind<<40)|x.ord); vector<u64> rem; ddmin<u64>(f,[&](const vector<u64>&x){ Repro t=r; t.m.faults.insert(x.begin(),x.end()); Result q; return try_repro(t,kind,q,false); },rem,std::min(dl,wall()+budget*0.25)); r.m.faults.insert(rem.begin(),rem.end()); }
  // schedule: find the shortest prefix of deviations that still fails, then drop some
  { u64 lo=0,hi=~0ULL; try_repro(r,kind,R); u64 top=R.sched_ord+1; u64 a=0,b=top; (void)lo;(void)hi; while(a<b&&wall()<dl){ u64 mid=(a+b)/2; Repro t=r; t.m.sched_limit=mid; Result q; if(try_repro(t,kind,q,false)) b=mid; else a=mid+1; } Repro t=r; t.m.sched_limit=b; Result q; if(b<top&&try_repro(t,kind,q,false)) r=t; }
  { try_repro(r,kind,R); vector<u64> d=R.devs; if(d.size()<4000){ vector<u64> rem; ddmin<u64>(d,[&](const vector<u64>&x){ Repro t=r; t.m.scheds.insert(x.begin(),x.end()); Result q; return try_repro(t,kind,q,false); },rem,dl); r.m.scheds.insert(rem.begin(),rem.end()); } }
  return r; }
static string write_replay(const string&path,const Repro&r,const Result&R0,double wall_used){
  Result R; run_one(find_prop(r.prop),r.prof,r.seed,r.m,true,R,true); (void)R0;
  FILE*f=fopen(path.c_str(),"w"); if(!f) return path; fprintf(f,"arcus-dst-replay 1\nproperty %s\nprofile %d %s\nseed %llu\nkind %s\nhash %llx\n",r.prop.c_str(),r.prof,find_prop(r.prop)->profs[r.prof].name,(unsigned long long)r.seed,R.kind.c_str(),(unsigned long long)R.hash);
  fprintf(f,"mask_ops"); for(u64 x:r.m.ops) fprintf(f," %llu",(unsigned long long)x); fprintf(f,"\nmask_faults"); for(u64 x:r.m.faults) fprintf(f," %llu",(unsigned long long)x); fprintf(f,"\nmask_scheds"); for(u64 x:r.m.scheds) fprintf(f," %llu",(unsigned long long)x); fprintf(f,"\nsched_limit %llu\nend\n",(unsigned long long)r.m.sched_limit);
  fprintf(f,"\n# node and environment: %s\n# violation: %s\n# %s\n# minimised in %.1f s: %zu operations sent, %zu injected faults, %zu schedule deviations\n",R.cfgtext.c_str(),R.kind.c_str(),esc(R.detail,6000).c_str(),wall_used,(size_t)R.ops,R.frec.size(),R.devs.size());
  fprintf(f,"\n# detail\n%s\n\n# operations in the order they were sent [sent..answered, simulated seconds]\n%s\n# faults: kind ordinal step time\n",R.detail.c_str(),R.ophist.c_str()); for(auto&x:R.frec) fprintf(f,"%s %llu %llu %.6f\n",fault_name[x.kind],(unsigned long long)(x.ord&((1ULL<<39)-1)),(unsigned long long)x.step,x.t/1e9);
  string lg=R.log; if(lg.size()>400000) lg="... "+lg.substr(lg.size()-400000); fprintf(f,"\n# event log (step, simulated time, thread)\n%s",lg.c_str()); fclose(f); return path; }
extern double lin_wall;
static int do_check(const string&prop,const string&tier,u64 seed,double secs,int workers,u64 maxruns,const string&evdir,const string&repdir){
  const PropDef*P=find_prop(prop); if(!P){ fprintf(stderr,"unknown property %s\n",prop.c_str()); return 2; }
  S=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); double t0=wall(); vector<pid_t> pids; vector<string> knownhits;
  for(int w=0;w<workers;w++){ pid_t p=fork(); if(p==0){ u64 n=0; while(!S->stop&&wall()-t0<secs){ u64 idx=__atomic_fetch_add(&S->next,1,__ATOMIC_RELAXED); if(idx>=maxruns) break; int prof=pick_profile(P,idx); u64 sd=run_seed(prop,seed,idx); double w0=wall(); Result R; run_one(P,prof,sd,Masks(),false,R); n++;
        if(R.harness){ fprintf(stderr,"harness problem: %s profile %s seed %llu: %s\n",prop.c_str(),P->profs[prof].name,(unsigned long long)sd,R.detail.c_str()); }
        accumulate(R,prof); if(getenv("DST_SLOW")&&wall()-w0>2) fprintf(stderr,"slow: %s seed %llu %.1f s\n",P->profs[prof].name,(unsigned long long)sd,wall()-w0);
        if(R.viol){ if(is_known(prop,R.kind,R.detail)){ ADD(known,1); continue; } int e=0; if(__atomic_compare_exchange_n((int*)&S->found,&e,1,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST)){ S->vidx=idx; S->stop=1; } } }
      _exit(0); } pids.push_back(p); }
  for(auto p:pids){ int st; waitpid(p,&st,0); }
  lin_wall=40;
  double tw=wall()-t0; int rc=0; string vline; string vkind,vdetail;
  if(S->found){ u64 idx=S->vidx; Repro r{prop,pick_profile(P,idx),run_seed(prop,seed,idx),Masks()}; Result a,b; run_one(P,r.prof,r.seed,r.m,false,a,true); run_one(P,r.prof,r.seed,r.m,false,b,true);
    if(!a.viol||a.hash!=b.hash||a.kind!=b.kind){ fprintf(stderr,"violation of %s at seed %llu did not repeat exactly (%d/%d %llx/%llx)\n",prop.c_str(),(unsigned long long)r.seed,a.viol,b.viol,(unsigned long long)a.hash,(unsigned long long)b.hash); rc=3; if(a.viol||b.viol) rc=1; }
    else rc=1;
    if(rc==1){ double m0=wall(); Repro z=minimise(r,a.kind,tier=="quick"?45:120); mkdir(repdir.c_str(),0755); string path=repdir+"/"+prop+"-"+strf("%llu",(unsigned long long)r.seed)+".replay"; write_replay(path,z,a,wall()-m0); Result c; run_one(P,z.prof,z.seed,z.m,false,c,true); vkind=c.viol?c.kind:a.kind; vdetail=c.viol?c.detail:a.detail;
      printf("seed %llu profile %s: %s\n%s\n",(unsigned long long)r.seed,P->profs[r.prof].name,vkind.c_str(),vdetail.c_str()); printf("VIOLATION property=%s replay=%s\n",prop.c_str(),path.c_str()); } }
  // determinism self-check and samples
  string samples; for(u64 i=0;i<3;i++){ u64 idx=i*7; Result a; int prof=pick_profile(P,idx); run_one(P,prof,run_seed(prop,seed,idx),Masks(),false,a,true); if(i==0){ Result b; run_one(P,prof,run_seed(prop,seed,idx),Masks(),false,b,true); if(a.hash!=b.hash){ fprintf(stderr,"determinism self-check failed for %s\n",prop.c_str()); if(!rc) rc=3; } }
    string h=a.ophist; if(h.size()>1500) h=h.substr(0,1500)+"..."; string fl; int nf=0; for(auto&x:a.frec) if(nf++<12) fl+=string(fault_name[x.kind])+strf("@%.6f ",x.t/1e9); if(!samples.empty()) samples+=",\n"; samples+="    {\"seed\": "+std::to_string(run_seed(prop,seed,idx))+", \"profile\": \""+P->profs[prof].name+"\", \"node\": \""+jesc(a.cfgtext)+"\", \"steps\": "+std::to_string(a.steps)+", \"thread_switches\": "+std::to_string(a.switches)+", \"simulated_s\": "+strf("%.3f",a.simtime/1e9)+", \"boots\": "+std::to_string(a.boots)+", \"execution_hash\": \""+strf("%llx",(unsigned long long)a.hash)+"\", \"faults\": \""+jesc(fl)+"\", \"operations\": \""+jesc(h)+"\"}"; }
  if(rc==0){ double frac=S->runs?(double)(S->inc_runs+S->harness)/S->runs:1; if(S->runs<3||frac>0.2){ fprintf(stderr,"%s: %llu runs, %llu inconclusive, %llu harness problems\n",prop.c_str(),(unsigned long long)S->runs,(unsigned long long)S->inc_runs,(unsigned long long)S->harness); rc=3; } }
  set<string> seenk; for(auto&k:known) if(k.first==prop&&seenk.insert(k.second).second) printf("KNOWN-FINDING: property=%s %s\n",prop.c_str(),k.second.c_str());
  mkdir(evdir.c_str(),0755); string ev=evdir+"/"+prop+".json"; FILE*f=fopen(ev.c_str(),"w"); if(!f){ perror(ev.c_str()); return 2; }
  fprintf(f,"{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n",prop.c_str(),tier.c_str(),(unsigned long long)seed);
  fprintf(f,"  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"rule\": \"one evaluation = one seeded simulated run (whole server process, clients, network, clock, disk); non-trivial = at least two requests answered and a thread interleaving (hash over the sequence of thread switches and their code sites) not seen in an earlier run of this batch\",\n",(unsigned long long)S->runs,(unsigned long long)S->distinct);
  fprintf(f,"  \"simulated_runs_per_hour\": %.0f,\n  \"simulated_time_s\": %.1f,\n  \"scheduler_steps\": %llu,\n  \"thread_switches\": %llu,\n  \"preemptions_inside_code\": %llu,\n  \"server_boots\": %llu,\n  \"requests_sent\": %llu,\n  \"requests_answered\": %llu,\n  \"state_group_searches\": %llu,\n  \"searches_out_of_budget\": %llu,\n  \"runs_out_of_wall_time\": %llu,\n  \"runs_with_faults\": %llu,\n  \"runs_hitting_known_findings\": %llu,\n",S->runs/tw*3600,S->simtime/1000.0,(unsigned long long)S->steps,(unsigned long long)S->switches,(unsigned long long)S->preempts,(unsigned long long)S->boots,(unsigned long long)S->ops,(unsigned long long)S->answered,(unsigned long long)S->lin_searched,(unsigned long long)S->lin_inc,(unsigned long long)S->inc_runs,(unsigned long long)S->fault_runs,(unsigned long long)S->known);
  fprintf(f,"  \"faults_injected\": {"); bool first=true; for(int i=0;i<F_COUNT;i++) if(S->faults[i]){ fprintf(f,"%s\"%s\": %llu",first?"":", ",fault_name[i],(unsigned long long)S->faults[i]); first=false; } fprintf(f,"},\n  \"profiles\": {"); for(size_t i=0;i<P->profs.size();i++) fprintf(f,"%s\"%s\": %llu",i?", ":"",P->profs[i].name,(unsigned long long)S->prof_runs[i]);
  fprintf(f,"},\n  \"events_counted\": {"); first=true; for(auto&p:S->probes) if(p.name[0]){ fprintf(f,"%s\"%s\": %llu",first?"":", ",jesc(p.name).c_str(),(unsigned long long)p.n); first=false; }
  fprintf(f,"},\n  \"real_code\": \"memcached.c, thread.c, engines/default/*, cmdlog, checkpoint, lqdetect, topkeys, stats_prefix, arcus_zk.c, arcus_hb.c, cluster_config.c, config_parser.c and the rest of the server compiled from the working tree\",\n  \"simulated\": \"kernel sockets, pipes and files, threads and locks, clocks, libevent loop, malloc, ZooKeeper client library, SASL library\",\n  \"samples\": [\n%s\n  ]\n },\n",samples.c_str());
  fprintf(f," \"assumptions\": [\"sequentially consistent memory; preemption at synchronisation calls, system calls and (in most runs) individual shared memory accesses\", \"the simulated kernel, disk and libraries behave as described in DESIGN.md\"],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n",wall()-t0,rc==1?1:0); fclose(f);
  printf("%s %s: %llu runs in %.1f s (%.0f/h), %llu distinct interleavings, %.0f s simulated, %llu ops, faults in %llu runs, lin searches %llu (%llu out of budget), inconclusive %llu, known %llu\n",prop.c_str(),rc==0?"held":"FAILED",(unsigned long long)S->runs,tw,S->runs/tw*3600,(unsigned long long)S->distinct,S->simtime/1000.0,(unsigned long long)S->ops,(unsigned long long)S->fault_runs,(unsigned long long)S->lin_searched,(unsigned long long)S->lin_inc,(unsigned long long)S->inc_runs,(unsigned long long)S->known);
  return rc; }
int main(int argc,char**argv){
  setvbuf(stdout,0,_IOLBF,0); struct rlimit rl; getrlimit(RLIMIT_CORE,&rl); rl.rlim_cur=0; setrlimit(RLIMIT_CORE,&rl);
  string cmd=argc>1?argv[1]:""; map<string,string> o; vector<string> pos; for(int i=2;i<argc;i++){ string a=argv[i]; if(a.compare(0,2,"--")==0&&i+1<argc){ o[a.substr(2)]=argv[i+1]; i++; } else pos.push_back(a); }
  auto opt=[&](const char*k,const char*d){ return o.count(k)?o[k]:string(d); };
  load_known(opt("known","/verif/known_findings.txt").c_str());
  if(cmd=="list"){ for(auto&p:all_props()){ printf("%s:",p.id); for(auto&x:p.profs) printf(" %s(%d)",x.name,x.weight); printf("\n"); } return 0; }
  if(cmd=="check"&&pos.size()==1) return do_check(pos[0],opt("tier","quick"),strtoull(opt("seed","1").c_str(),0,10),atof(opt("secs","35").c_str()),atoi(opt("workers","8").c_str()),strtoull(opt("runs","1000000000").c_str(),0,10),opt("evidence","/verif/evidence"),opt("replays","/verif/build/replays"));
  lin_wall=40;
  if(cmd=="run"&&pos.size()>=1){ const PropDef*P=find_prop(pos[0]); if(!P) return 2; u64 seed=strtoull(opt("seed","1").c_str(),0,10); int prof=-1; string pn=opt("profile",""); for(size_t i=0;i<P->profs.size();i++) if(pn==P->profs[i].name) prof=i; u64 idx=strtoull(opt("idx","0").c_str(),0,10); if(prof<0) prof=pick_profile(P,idx); if(!o.count("seed")) seed=run_seed(pos[0],strtoull(opt("base","1").c_str(),0,10),idx);
    Result R; run_one(P,prof,seed,Masks(),o.count("trace"),R,true); if(o.count("trace")) printf("%s",R.log.c_str()); if(o.count("ops")) printf("%s",R.ophist.c_str()); printf("%s seed=%llu %s viol=%d inc=%d harness=%d %s\n%s\nsteps=%llu hash=%llx sim=%.3fs ops=%llu answered=%llu searched=%llu linc=%llu boots=%llu\n%s\n",P->profs[prof].name,(unsigned long long)seed,R.cfgtext.c_str(),R.viol,R.inconclusive,R.harness,R.kind.c_str(),R.detail.c_str(),(unsigned long long)R.steps,(unsigned long long)R.hash,R.simtime/1e9,(unsigned long long)R.ops,(unsigned long long)R.answered,(unsigned long long)R.searched,(unsigned long long)R.inc,(unsigned long long)R.boots,""); for(int i=0;i<F_COUNT;i++) if(R.faults[i]) printf("%s=%llu ",fault_name[i],(unsigned long long)R.faults[i]); for(auto&x:R.probes) printf("probe %s=%llu ",x.first.c_str(),(unsigned long long)x.second); printf("\n"); return R.viol?1:0; }
  if(cmd=="replay"&&pos.size()==1){ FILE*f=fopen(pos[0].c_str(),"r"); if(!f){ perror(pos[0].c_str()); return 2; } static char b[1<<22]; Repro r; string kind; u64 hash=0; while(fgets(b,sizeof b,f)){ char*t=strtok(b," \n"); if(!t) continue; string k=t; if(k=="end") break; auto nx=[&]{ char*q=strtok(0," \n"); return string(q?q:""); }; if(k=="property") r.prop=nx(); else if(k=="profile") r.prof=atoi(nx().c_str()); else if(k=="seed") r.seed=strtoull(nx().c_str(),0,10); else if(k=="kind") kind=nx(); else if(k=="hash") hash=strtoull(nx().c_str(),0,16); else if(k=="sched_limit") r.m.sched_limit=strtoull(nx().c_str(),0,10); else if(k.compare(0,5,"mask_")==0){ string v; while(!(v=nx()).empty()){ u64 x=strtoull(v.c_str(),0,10); (k=="mask_ops"?r.m.ops:k=="mask_faults"?r.m.faults:r.m.scheds).insert(x); } } } fclose(f);
    const PropDef*P=find_prop(r.prop); if(!P) return 2; Result R; run_one(P,r.prof,r.seed,r.m,true,R,true); if(o.count("trace")) printf("%s",R.log.c_str()); printf("replay of %s: %s %s, execution hash %llx (%s)\n%s\n",r.prop.c_str(),R.viol?"violation":"no violation",R.kind.c_str(),(unsigned long long)R.hash,R.hash==hash?"identical to the recorded execution":"different from the recorded execution",R.detail.c_str()); if(R.viol){ printf("VIOLATION property=%s replay=%s\n",r.prop.c_str(),pos[0].c_str()); return 1; } return 0; }
  fprintf(stderr,"usage: dst list | check PROP [--secs N --seed S --tier T --runs N] | run PROP [--profile P --seed S --idx N --trace 1 --ops 1] | replay FILE\n"); return 2; }
