// C19: cluster membership and key ownership. C20: heartbeat.
#include "run.h"
#include <stdlib.h>
#include <signal.h>
#include <sstream>
#include "step.h"
#include "zk_sim.h"
static const char*SVC="/arcus/cache_list/svc", *ME="10.0.0.100:11211", *MYNODE="10.0.0.100:11211-cache-host";
// ---- the documented ring, computed independently
static void md5(const string&s,u8 out[16]){ static u32 K[64]; static const int R[64]={7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21}; if(!K[0]) for(int i=0;i<64;i++) K[i]=(u32)(__builtin_fabs(__builtin_sin((double)(i+1)))*4294967296.0);
  string m=s; m+=(char)0x80; while(m.size()%64!=56) m+='\0'; u64 bits=s.size()*8; for(int i=0;i<8;i++) m+=(char)(bits>>(8*i)); u32 h[4]={0x67452301,0xefcdab89,0x98badcfe,0x10325476};
  for(size_t o=0;o<m.size();o+=64){ u32 w[16]; for(int i=0;i<16;i++) w[i]=(u8)m[o+4*i]|((u32)(u8)m[o+4*i+1]<<8)|((u32)(u8)m[o+4*i+2]<<16)|((u32)(u8)m[o+4*i+3]<<24); u32 a=h[0],b=h[1],c=h[2],d=h[3];
    for(int i=0;i<64;i++){ u32 f; int g; if(i<16){ f=(b&c)|(~b&d); g=i; } else if(i<32){ f=(d&b)|(~d&c); g=(5*i+1)%16; } else if(i<48){ f=b^c^d; g=(3*i+5)%16; } else { f=c^(b|~d); g=(7*i)%16; } u32 t=d; d=c; c=b; u32 x=a+f+K[i]+w[g]; b=b+((x<<R[i])|(x>>(32-R[i]))); a=t; }
    h[0]+=a; h[1]+=b; h[2]+=c; h[3]+=d; } for(int i=0;i<4;i++) for(int j=0;j<4;j++) out[4*i+j]=(u8)(h[i]>>(8*j)); }
struct Ring { vector<std::pair<u32,string>> p; Ring(){} explicit Ring(const vector<string>&members){ set<string> names; for(auto&m:members) names.insert(m.substr(0,m.find('-'))); for(auto&n:names) for(int h=0;h<40;h++){ u8 d[16]; md5(n+strf("-%d",h),d); for(int i=0;i<4;i++) p.push_back({d[4*i]|((u32)d[4*i+1]<<8)|((u32)d[4*i+2]<<16)|((u32)d[4*i+3]<<24),n}); } std::sort(p.begin(),p.end()); }
  string owner(const string&k)const{ if(p.empty()) return ""; u8 d[16]; md5(k,d); u32 v=d[0]|((u32)d[1]<<8)|((u32)d[2]<<16)|((u32)d[3]<<24); auto i=std::lower_bound(p.begin(),p.end(),std::make_pair(v,string())); return i==p.end()?p[0].second:i->second; } };
struct Cl { vector<string> univ; int round=0, rounds=0; i64 added_at=0; bool noexp=true; vector<string> rk; int rkn=0; bool failstop=true; string hostname; bool paused=false; u64 cfgver=0x10000000, seterr=0; string servers; };
typedef std::shared_ptr<Cl> CP;
static void base(Cfg&c,Work*w,Rng&r,CP s,int timeout){ c.k["zk"]=1; c.argv.insert(c.argv.end(),{"-z","10.0.0.200:2181,10.0.0.201:2181","-o",strf("%d",timeout)}); c.k["zk_lat_ns"]=(i64)r.logu(r.chance(0.3)?50000000:500000);
  int n=(int)r.range(0,r.chance(0.3)?24:6); for(int i=0;i<n;i++) s->univ.push_back(strf("%d.0.%d.%d:%d-h%d",r.chance(0.5)?10:(int)r.range(1,99),(int)r.range(0,2),(int)r.range(1,30),(int)(r.chance(0.7)?11211:r.range(11200,11220)),i)); set<string> seen={ME}; vector<string> u; for(auto&x:s->univ) if(seen.insert(x.substr(0,x.find('-'))).second) u.push_back(x); s->univ=u;
  auto cfg=[&](int v){ string t; int k=(int)r.range(1,4); for(int i=1;i<=k;i++) t+=strf("server.%d=10.0.0.%d:2888:3888:participant;%s2181\n",i,199+i,r.chance(0.5)?"0.0.0.0:":""); return t+strf("version=%x",v); };
  string cf=r.chance(0.4)?cfg(0x100000000>>4):""; bool map_ip=r.chance(0.2), map_host=!map_ip&&r.chance(0.2); vector<string> start; for(auto&x:s->univ) if(r.chance(0.5)) start.push_back(x);
  w->on_boot.push_back([=](Work*w){ Zk*z=zks(); if(z->n.empty()){ z->dir=SVC; for(auto p:{"/arcus","/arcus/cache_list","/arcus/cache_list/svc","/arcus/cache_server_log","/arcus/cache_server_mapping"}) zk_put(p,""); string m=string("/arcus/cache_server_mapping/")+(map_ip?"10.0.0.100":map_host?"cache-host:11211":ME); zk_put(m,""); zk_put(m+"/svc",""); for(auto&x:start) zk_put(string(SVC)+"/"+x,"64MB",1); if(!cf.empty()) zk_setcfg(cf); ZSess one; one.to=1000000000; z->s[1]=one; } }); }
static string members(){ string t; for(auto&x:zk_children(SVC)) t+=x+" "; return t; }
static bool here(){ return zks()->n.count(string(SVC)+"/"+MYNODE)>0; }
static void churn(CP s,Rng&q,int n){ for(int i=0;i<n&&!s->univ.empty();i++){ string p=string(SVC)+"/"+s->univ[q.below(s->univ.size())]; fault_note(F_ZK_MEMBER); if(zks()->n.count(p)) zk_rm(p); else { zk_put(p,"64MB",1); s->added_at=W->now; } } }
// the ensemble is reconfigured: the node connects to the servers of the newest configuration from then on
static void reconf(CP s,Rng&q){ if(!zks()->hascfg) return; fault_note(F_ZK_RECONFIG); string t,want; int k=(int)q.range(1,4), at=(int)q.below(50); s->cfgver+=q.chance(0.2)?q.range(1,0x20000):1; for(int i=1;i<=k;i++){ string ip=strf("10.0.0.%d",199+at+i); int port=(int)(q.chance(0.8)?2181:q.range(2000,2400)); int form=(int)q.below(3); t+=strf("server.%d=%s:2888:3888:participant;%s%d\n",i,ip.c_str(),form==0?"":form==1?"0.0.0.0:":"10.9.9.9:",port); want+=(want.empty()?"":",")+(form==2?string("10.9.9.9"):ip)+strf(":%d",port); } zk_setcfg(t+strf("version=%llx",(unsigned long long)s->cfgver)); s->servers=want; s->seterr=zks()->seterr+W->fault_fired[F_MALLOC]; }
static Step servers_known(CP s){ return [=](Work*w){ string want=s->servers; if(want.empty()||zks()->seterr+W->fault_fired[F_MALLOC]!=s->seterr) return false; w->ctl_op(line(w,"zkensemble get\r\nversion",F_VER),[=](Op*o){ string got=o->resp.substr(0,o->resp.find('\r')); if(got!=want) violate("cluster","the newest configuration of the coordination service lists %s, the node uses %s",want.c_str(),got.c_str()); probe("ensemble reconfigurations followed"); s->servers.clear(); }); return true; }; }
// never long enough to end the session: it may last have been heard of a third of the timeout before, and coming back takes up to 3 s.  "again": only while connected, so that outages do not add up
static void outage(Work*w,Rng&q,i64 max_ns,bool again=false){ if(!zks()->link||(again&&zk_state()!=3)) return; i64 to=std::min<i64>(W->cfg.knob("zk_to",20)*1000,W->cfg.knob("zk_max_to",1000000))*1000000; max_ns=std::max<i64>(100000000LL,std::min<i64>(max_ns,to*2/3-3200000000LL)); fault_note(F_ZK_DISCONNECT); if(q.chance(0.4)){ zk_break(); return; } zk_link(false,q.chance(0.4)); at_node((i64)q.logu((u64)max_ns),[]{ zk_link(true); }); (void)w; }
// wait (bounded) until the reply to a request satisfies f; f returns "" or what is wrong
static Step eventually(const string&what,const string&req,int frame,i64 within,std::function<string(Work*,const string&)> f){ auto dl=std::make_shared<i64>(-1); auto st=std::make_shared<Step>(); *st=[=](Work*w){ if(*dl<0) *dl=W->now+within; w->ctl_op(line(w,req,frame),[=](Op*o){ Work*w=(Work*)W->dir; string bad=f(w,o->resp); if(bad.empty()){ *dl=-1; return; } if(W->now>*dl){ violate("cluster","%s: %s after %.0f s",what.c_str(),bad.c_str(),within/1e9); return; } front(w,{wait_ns(300000000LL),*st}); }); return true; }; return *st; }
static Step readiness(bool ready,i64 within){ return eventually(ready?"the node is in the cluster":"the node has lost its place in the cluster","ready",F_LINE,within,[ready](Work*,const string&a)->string{ bool rd=a.compare(0,5,"READY")==0; if(rd!=ready) return rd?"it reports READY":"it reports NOT_READY"; if(ready&&!here()) return "READY but not registered"; return ""; }); }
static Step settle(i64 ns=9000000000LL){ return [ns](Work*w){ zk_link(true); W->faults_on=false; at_node(ns,[w]{ w->step_script(); }); return true; }; }
// the node's keys after a scrub are exactly the ring's
static void exact(Work*w,CP s,bool autoscrub){ vector<Step> v; auto ks=std::make_shared<vector<string>>(); int n=40; int b=s->rkn; s->rkn+=n; for(int i=0;i<n;i++) ks->push_back(strf(i%3?"r%d":"p%d:r",b+i));
  v.push_back([=](Work*w){ string q; for(auto&k:*ks) q+="set "+k+" 0 0 1 noreply\r\nx\r\n"; q+="version"; w->ctl_op(line(w,q,F_LINE),nullptr); return true; });
  if(!autoscrub){ auto go=std::make_shared<Step>(); *go=[=](Work*w){ w->ctl_op(line(w,"scrub stale",F_LINE,{"OK","BUSY"}),[=](Op*o){ if(o->resp.compare(0,2,"OK")) front((Work*)W->dir,{wait_ns(200000000LL),*go}); }); return true; }; v.push_back(*go); }
  else { probe("stale scrubs started by the node itself awaited"); v.push_back([=](Work*w){ i64 t=s->added_at+W->cfg.knob("zk_to",10)*1000000000LL+4500000000LL-W->now; at_node(std::max<i64>(t,1000000),[w]{ w->step_script(); }); return true; }); }
  v.push_back(eventually("scrubbing","stats scrub",F_MULTI,60000000000LL,[](Work*,const string&a)->string{ return a.find("scrubber:status running")!=string::npos?"still running":""; }));
  auto ring=std::make_shared<Ring>(); v.push_back([=](Work*w){ *ring=Ring(zk_children(SVC)); string q="get"; for(auto&k:*ks) q+=" "+k; Op*o=line(w,q,F_GETR); w->ctl_op(o,[=](Op*o){ int mine=0; for(auto&k:*ks){ bool have=o->resp.find("VALUE "+k+" ")!=string::npos; bool own=ring->owner(k)==ME; mine+=own; if(have!=own){ violate("ownership","%s belongs to %s under members {%s} but the node %s it when stale items are scrubbed%s",k.c_str(),ring->owner(k).c_str(),members().c_str(),have?"keeps":"removes",autoscrub?" automatically":""); return; } } W->probes["ownership decisions compared with the ring"]+=ks->size(); W->probes["of them the node's own"]+=mine; }); return true; });
  front(w,v); }
static void ring_rounds(Work*w,CP s,Rng&r){ s->rounds=(int)r.range(1,4); auto round=std::make_shared<Step>(); *round=[=](Work*w){ if(s->rounds--<=0) return false; Rng&q=W->rmisc; auto before=std::make_shared<vector<string>>(zk_children(SVC)); bool f=q.chance(0.5); W->faults_on=f; W->cfg.rate[F_MALLOC]=f&&q.chance(0.3)?0.002+0.1*q.unit():0; g_malloc_fail_armed=true; int bursts=(int)q.range(1,3); vector<Step> v; for(int i=0;i<bursts;i++){ v.push_back([=](Work*w){ Rng&q=W->rmisc; churn(s,q,(int)q.logu(q.chance(0.2)?30:4)); if(q.chance(0.3)) reconf(s,q); if(q.chance(0.3)) outage(w,q,2500000000LL,true); return false; }); v.push_back(wait_ns((i64)q.logu(2000000000ULL))); }
    v.push_back(settle()); v.push_back(readiness(true,20000000000LL)); v.push_back(servers_known(s)); v.push_back([=](Work*w){ bool add=false; for(auto&x:zk_children(SVC)) if(std::find(before->begin(),before->end(),x)==before->end()) add=true; exact(w,s,add&&W->rmisc.chance(0.4)); return false; }); v.push_back(*round); front(w,v); return false; };
  w->on_post.push_back([round](Work*w){ front(w,{settle(),readiness(true,30000000000LL),*round}); }); }
static void zk_faults(Cfg&c,Rng&r){ if(r.chance(0.5)) c.rate[F_ZK_LOST_RESP]=0.1*r.unit(); if(r.chance(0.5)) c.rate[F_ZK_DELAY]=0.2*r.unit(); if(r.chance(0.5)) c.rate[F_ZK_ERR]=0.1*r.unit(); if(r.chance(0.3)) c.rate[F_THREAD_STALL]=0.002; if(r.chance(0.3)) c.rate[F_TIMER_LATE]=0.2; if(r.chance(0.3)) c.rate[F_SPURIOUS_WAKE]=0.1; c.k["zk_delay_ms"]=2000; }
static void timing(Cfg&c,Work*w,Rng&r,int to){ c.k["zk_to"]=to; (void)w; c.ns_per_step=20; c.max_steps=30000000; c.max_simtime=3600LL*1000000000LL; (void)r; }
// starting: a boot may fail while the service misbehaves; it is started again
static void once_in(Work*w,std::function<void()> f){ at_node(50000000LL,[w,f]{ if(here()){ f(); return; } once_in(w,f); }); }
static void joined(Work*w,std::function<void(Work*)> f){ once_in(w,[w,f]{ at_node(80*W->cfg.knob("zk_lat_ns",0)+50000000LL,[w,f]{ f(w); }); }); }
static void starts(Work*w,bool quiet){ w->on_boot.push_back([quiet](Work*w){ w->expect_exit=!quiet; if(quiet){ W->faults_on=false; joined(w,[](Work*w){ if(w->phase==0) W->faults_on=true; }); } }); }
static void c19_ring(Cfg&c,Work*w,Rng&r){ auto s=std::make_shared<Cl>(); int to=(int)r.range(20,30); starts(w,true); base(c,w,r,s,to); timing(c,w,r,to); zk_faults(c,r); Plan&p=w->p; kv_mix(p,true); no_drop(w); load(p,r,2,4,60); p.think_ns=(i64)r.logu(100000000);
  vector<string> all=s->univ; all.push_back(MYNODE); Ring full(all); p.keys.clear(); int want=(int)r.range(2,5); for(int i=0;i<5000&&(int)p.keys.size()<want;i++){ string k=strf(i%2?"k%d":"q:%d",i); if(full.owner(k)==ME) p.keys.push_back(k); }
  w->on_boot.push_back([=](Work*w){ joined(w,[s](Work*w){ Rng&q=W->rmisc; i64 span=2000000000LL; int n=(int)q.range(1,12); for(int i=0;i<n;i++) at_node((i64)q.below((u64)span),[=]{ if(w->phase) return; Rng&q=W->rmisc; if(q.chance(0.75)) churn(s,q,(int)q.logu(4)); else outage(w,q,2500000000LL,true); }); }); });
  auto g0=w->gen; auto fill=std::make_shared<string>(); int nf=r.chance(0.5)?(int)r.logu(400):0; auto fk=std::make_shared<string>("get"); auto filled=std::make_shared<bool>(false); for(int i=0,m=0;i<20000&&m<nf;i++){ string k=strf(i%2?"f%d":"g:%d",i); if(full.owner(k)==ME){ m++; *fill+="set "+k+" 0 0 1 noreply\r\nx\r\n"; *fk+=" "+k; } }
  w->gen=[=](Work*w,CS*cs,int idx,Rng&r)->Op*{ if(!cs->bin&&nf&&r.chance(0.03)){ Op*o=w->mk(X_RAW,""); o->req=*fill+"version\r\n"; o->frame=F_LINE; o->note="fill"; return o; } if(!cs->bin&&r.chance(0.08)){ Op*o=w->mk(X_RAW,""); o->req="scrub stale\r\n"; o->frame=F_LINE; o->expect_any={"OK","BUSY"}; o->note="scrub"; return o; } return g0?g0(w,cs,idx,r):nullptr; };
  if(nf){ w->on_op=[=](Work*,Op*o){ if(o->note=="fill"&&o->resp.compare(0,7,"VERSION")==0) *filled=true; }; w->on_post.push_back([=](Work*w){ front(w,{ask(*fk,F_GETR,[=](Work*,const string&a){ if(!*filled) return; size_t n=0,at=0; while((at=a.find("VALUE ",at))!=string::npos){ n++; at+=6; } size_t want=std::count(fk->begin(),fk->end(),' '); W->probes["own keys looked for after the load"]+=want; if(n!=want){ std::istringstream is(*fk); string k; string miss; is>>k; while(is>>k) if(a.find("VALUE "+k+" ")==string::npos) miss+=k+" "; violate("ownership","keys that belong to this node under every member list seen were removed: %s",miss.c_str()); } })}); }); }
  if(nf&&r.chance(0.6)){ c.k["zk_lat_ns"]=(i64)r.logu(20000); c.mean_preempt=(i64)r.logu(2000); c.p_sync=r.unit(); }
  if(r.chance(0.7)) w->on_send=[=](Work*w,CS*,Op*o){ if(o->note!="scrub"||w->phase||!here()||W->rmisc.chance(0.3)) return; at_node((i64)W->rmisc.logu(300000),[=]{ if(w->phase==0) churn(s,W->rmisc,1+(int)W->rmisc.below(2)); }); };
  ring_rounds(w,s,r); }
// ---- losing and regaining the place in the cluster
static bool alive_session(){ for(auto&x:zks()->s) if(x.first!=1) return true; return false; }
// its older sessions end at the latest when their timeout is over
static Step vacated(i64 within){ auto dl=std::make_shared<i64>(-1); auto st=std::make_shared<Step>(); *st=[=](Work*w){ if(*dl<0) *dl=W->now+within; zk_tick(); if(!alive_session()&&!here()){ *dl=-1; return false; } if(W->now>*dl){ violate("cluster","%.0f s after the node left the cluster it still has a session or a registration",within/1e9); return true; } at_node(300000000LL,[w,st]{ front(w,{*st}); w->step_script(); }); return true; }; return *st; }
static void do_rejoin(Work*w,CP s,std::shared_ptr<Step> st,bool last){ w->ctl_op(line(w,"zkensemble rejoin",F_LINE,{"Successfully rejoined","ERROR failed"}),[=](Op*o){ Work*w=(Work*)W->dir; bool ok=o->resp.compare(0,12,"Successfully")==0; if(ok){ probe("rejoins"); s->paused=false; W->faults_on=false; return; } if(last){ violate("cluster","the node cannot rejoin although the service is well: %s (members %s)",o->resp.c_str(),members().c_str()); return; } front(w,{wait_ns(2500000000LL+(i64)W->rmisc.below(2000000000)),*st}); }); }
static Step rejoin(CP s,bool faults){ auto left=std::make_shared<int>(faults?(int)W->rmisc.range(1,4):1); auto st=std::make_shared<Step>(); *st=[=](Work*w){ bool last=*left<=1; (*left)--; probe("rejoin requests"); if(faults) W->faults_on=!last; if(last){ zk_link(true); front(w,{vacated((W->cfg.knob("zk_to",20)+5)*1000000000LL),[=](Work*w){ do_rejoin(w,s,st,true); return true; }}); return false; }
    if(W->rmisc.chance(0.3)) at_node((i64)W->rmisc.logu(300000000),[w]{ outage(w,W->rmisc,2000000000LL); }); do_rejoin(w,s,st,false); return true; }; return *st; }
static void lose_and_rejoin(Work*w,CP s){ Rng&q=W->rmisc; int to=(int)W->cfg.knob("zk_to",20); bool del=q.chance(0.5), all=q.chance(0.15); bool f=q.chance(0.5); vector<Step> v;
  v.push_back(ask("config zkfailstop off",F_LINE,nullptr,{"END"})); v.push_back([=](Work*w){ (void)w; W->faults_on=f; W->cfg.rate[F_MALLOC]=f&&W->rmisc.chance(0.3)?0.002+0.1*W->rmisc.unit():0; g_malloc_fail_armed=true; if(f&&W->rmisc.chance(0.3)) outage(w,W->rmisc,2000000000LL); if(all) for(auto&x:zk_children(SVC)) if(x!=MYNODE){ fault_note(F_ZK_MEMBER); zk_rm(string(SVC)+"/"+x); } if(del){ fault_note(F_ZK_NODE_DEL); zk_rm(string(SVC)+"/"+MYNODE); } else { fault_note(F_ZK_EXPIRE); zk_expire_now(); } return false; });
  if(!all&&q.chance(0.4)) v.push_back([=](Work*w){ churn(s,W->rmisc,1+(int)W->rmisc.below(3)); return false; }); v.push_back(wait_ns((i64)q.logu(1000000000))); v.push_back(settle((i64)q.logu(9000000000LL))); v.push_back(readiness(false,15000000000LL)); v.push_back(vacated((to+5)*1000000000LL)); // also a session left by a failed rejoin whose close could not be sent
  if(q.chance(0.5)) v.push_back(ask("scrub stale",F_LINE,nullptr,{"OK","BUSY"})); if(q.chance(0.3)) v.push_back(wait_ns((i64)(q.unit()*2e9*to)));
  v.push_back(rejoin(s,q.chance(0.6))); v.push_back(settle()); v.push_back(readiness(true,20000000000LL)); v.push_back(ask("config zkfailstop on",F_LINE,nullptr,{"END"})); if(q.chance(0.6)) v.push_back([=](Work*w){ exact(w,s,false); return false; }); front(w,v); }
static void blips(Work*w,CP s){ Rng&q=W->rmisc; int n=(int)q.range(1,5); vector<Step> v; for(int i=0;i<n;i++){ v.push_back([=](Work*w){ W->faults_on=true; outage(w,W->rmisc,W->cfg.knob("zk_to",20)*300000000LL,true); return false; }); v.push_back(wait_ns((i64)q.logu(8000000000ULL))); } v.push_back(settle()); v.push_back(readiness(true,20000000000LL)); front(w,v); (void)s; }
static void c19_session(Cfg&c,Work*w,Rng&r){ auto s=std::make_shared<Cl>(); int to=(int)r.range(10,30); starts(w,true); base(c,w,r,s,to); timing(c,w,r,to); zk_faults(c,r); Plan&p=w->p; kv_mix(p,true); keys(p,3); load(p,r,1,3,20); p.think_ns=(i64)r.logu(200000000); p.check_lin=false; p.audit=false; p.close_ok=true; c.k["reboot_ns"]=(i64)r.range(1000,3000)*1000000LL; if(r.chance(0.3)) c.k["zk_max_to"]=(int)r.range(6,20)*1000;
  struct X { int left; i64 due=0; int want=0; }; auto x=std::make_shared<X>(); x->left=r.chance(0.5)?(int)r.range(1,2):0;
  w->on_boot.push_back([=](Work*w){ x->want=0; w->expect_exit=!here()?false:true; if(here()) x->want=76; /* an older session still holds the name */ joined(w,[=](Work*w){ w->expect_exit=false; x->want=0; if(w->phase||x->left<=0) return; Rng&q=W->rmisc; at_node((i64)q.below(1500000000),[=]{ if(w->phase||W->dir==nullptr) return; x->left--; int b=w->boot_no; if(W->rmisc.chance(0.3)){ probe("kills"); node_stop(NX_CRASH,0,"killed"); } zk_link(true); fault_note(F_ZK_EXPIRE); zk_expire_now(); x->want=75; w->expect_exit=true; at_node(30000000000LL,[=]{ if(w->boot_no==b) violate("cluster","the session expired 30 s ago, zkfailstop is on, and the server is still running:%s",fiber_report().c_str()); }); }); }); });
  w->on_exit=[=](Work*w){ if(W->node_exit==NX_EXIT){ if(!x->want||W->node_code!=x->want) violate("server-exit","%s (members %s)",W->node_why.c_str(),members().c_str()); probe(x->want==75?"stops because the session expired":"starts refused while an older session holds the name"); } return true; };
  auto stopdue=std::make_shared<i64>(0); bool stop=r.chance(0.4);
  w->on_post.push_back([=](Work*w){ vector<Step> v={[x](Work*w){ x->left=0; return false; },settle(),readiness(true,60000000000LL)}; Rng&q=W->rmisc; int n=(int)q.range(1,3); for(int i=0;i<n;i++) v.push_back([=](Work*w){ Rng&q=W->rmisc; if(q.chance(0.65)) lose_and_rejoin(w,s); else blips(w,s); return false; });
    v.push_back(ask("zkensemble rejoin",F_LINE,nullptr,{"ERROR failed"})); v.push_back(ask("zkensemble get\r\nversion",F_VER,nullptr));
    if(stop) v.push_back([=](Work*w){ // an orderly stop, at any moment of any of this
      Rng&q=W->rmisc; W->faults_on=true; if(q.chance(0.5)) churn(s,q,2); if(q.chance(0.3)){ fault_note(F_ZK_NODE_DEL); zk_rm(string(SVC)+"/"+MYNODE); } if(q.chance(0.3)) outage(w,q,2000000000LL); at_node((i64)q.logu(q.chance(0.5)?2000000:1500000000),[=]{ w->expect_exit=true; x->want=-1; node_deliver_signal(SIGTERM); int b=w->boot_no; at_node(30000000000LL,[=]{ if(w->boot_no==b) violate("no-exit","the server was asked to stop 30 s ago and is still running:%s",fiber_report().c_str()); }); }); return true; });
    front(w,v); });
  auto ex=w->on_exit; w->on_exit=[=](Work*w){ if(x->want==-1&&W->node_exit==NX_EXIT){ if(W->node_code) violate("exit-code","status %d after SIGTERM",W->node_code); probe("orderly stops of a cluster node"); return false; } return ex(w); }; }
// ---- heartbeat
static void c20_hb(Cfg&c,Work*w,Rng&r){ auto s=std::make_shared<Cl>(); starts(w,true); base(c,w,r,s,30); timing(c,w,r,30); c.k["zk_lat_ns"]=(i64)r.logu(500000); Plan&p=w->p; kv_mix(p,true); keys(p,3); load(p,r,1,3,15); p.check_lin=false; p.audit=false; p.close_ok=true; c.liveness_ns=1000LL*1000000000LL;
  int to=(int)(r.chance(0.3)?r.range(1000,10000):50+r.logu(2000)), fs=(int)(r.chance(0.1)?0:std::max<i64>(std::max(3000,to),(i64)r.logu(30000))); int n=(int)r.range(1,6); bool kill=r.chance(0.6), mainhang=r.chance(0.1); i64 slack=300000000;
  auto over=std::make_shared<bool>(false); auto alive=std::make_shared<bool>(false);
  w->on_exit=[=](Work*){ if(W->node_exit==NX_EXIT){ if(!*over) violate("heartbeat","the server stopped although its longest silence was within the limits (hbtimeout %d ms, hbfailstop %d ms): %s",to,fs,W->node_why.c_str()); probe("stops by the heartbeat"); } return false; };
  w->on_post.push_back([=](Work*w){ vector<Step> v={settle(100000000),ask(strf("config hbtimeout %d",to),F_LINE,nullptr,{"END"}),ask(strf("config hbfailstop %d",fs),F_LINE,nullptr,{"END"}),wait_ns(4000000000LL)};
    for(int i=0;i<n;i++){ v.push_back([=](Work*w){ Rng&q=W->rmisc; i64 cap=fs==0?40000000000LL:(i64)fs*1000000LL-(to+50)*1000000LL-slack; if(cap<1000) return false; i64 d=q.chance(0.4)?cap-(i64)q.logu(cap):(i64)q.below(cap); i64 one=(i64)to*1000000-slack; if(one>1000&&q.chance(0.3)) d=std::min(cap,one); bool all=q.chance(0.7); node_freeze(W->now+d,q.chance(0.2)?3:2,all?-1:1); probe("freezes below the limit"); i64 gap=(i64)q.logu(6000000000ULL); at_node(d+slack+gap,[w]{ w->step_script(); }); return true; }); }
    v.push_back(readiness(true,5000000000LL));
    if(kill&&fs>0) v.push_back([=](Work*w){ i64 step=(to+50)*1000000LL; i64 bound=3000000000LL+((i64)fs*1000000/step+2)*step+2000000000LL+slack+3000000000LL; i64 extra=W->rmisc.chance(0.5)?(i64)W->rmisc.logu(20000000000ULL):90000000000LL; *over=true; w->expect_exit=true; w->p.close_ok=true; i64 t0=W->now; node_freeze(W->now+bound+extra,mainhang?3:2); probe("freezes above the limit"); zk_link(true);
      at_node(bound,[=]{ if(here()) violate(mainhang?"heartbeat-main":fs/(to+50)>=45?"heartbeat-connections":"heartbeat","the service has not answered for %.1f s (hbtimeout %d ms, hbfailstop %d ms) and the node is still in the cluster:%s",(W->now-t0)/1e9,to,fs,fiber_report().c_str()); });
      at_node(bound+60000000000LL,[=]{ violate(W->now<t0+bound+extra?"heartbeat-stuck":"heartbeat","the heartbeat failed and the process is still running 60 s later:%s",fiber_report().c_str()); }); return true; });
    else v.push_back([=](Work*w){ (void)w; return false; });
    front(w,v); }); }
static const vector<PropDef> P={ {"C19",{{"ring",c19_ring,6},{"session",c19_session,5}}}, {"C20",{{"heartbeat",c20_hb,1}}} };
const vector<PropDef>& props_zk(){ return P; }
