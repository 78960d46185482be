// Profiles: how each property is exercised and what is checked.
#include "run.h"
#include <stdlib.h>
void kv_mix(Plan&p,bool counters){
  p.mix={{K_GET,6},{K_GETS,4},{K_SET,8},{K_ADD,3},{K_REPLACE,3},{K_APPEND,3},{K_PREPEND,2},{K_CAS,4},{K_DELETE,3},{K_INCR,counters?8:2},{K_DECR,counters?5:1},{K_MGET,1},{K_MGETS,1}}; }
void keys(Plan&p,int n,const char*pre){ for(int i=0;i<n;i++) p.keys.push_back(strf("%s%d",pre,i)); }
void load(Plan&p,Rng&r,int cmin,int cmax,int total){ p.clients=(int)r.range(cmin,cmax); p.ops=std::max(3,(int)r.range(total/2,total)/p.clients); p.depth=(int)r.range(1,r.chance(0.3)?8:2); p.think_ns=(i64)r.logu(3000000); p.p_noreply=r.chance(0.5)?0:0.2; p.p_batch=r.unit(); }
void limits(Cfg&c,Work*w,Rng&r);
static void c01_kv(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,2,6,60); kv_mix(p,false); p.p_bin=r.chance(0.4)?0:0.5; p.numeric=r.chance(0.3)?30:0; if(r.chance(0.2)){ p.maxval=3000; p.p_big=0.1; p.bigval=60000; p.ops=std::min(p.ops,8); } if(r.chance(0.3)){ c.p_rshort=0.1; c.p_ragain=0.05; c.p_sshort=0.1; c.p_sagain=0.05; c.sndbuf=(int)r.range(64,4000); } }
static void c01_mixed(Cfg&c,Work*w,Rng&r){ c01_kv(c,w,r); w->p.mix.push_back({L_INSERT,2}); w->p.mix.push_back({B_INSERT,2}); w->p.mix.push_back({K_TOUCH,1}); w->p.p_bin=0; }
static void c02_cas(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(1,2)); load(p,r,3,7,60); p.mix={{K_GETS,8},{K_CAS,10},{K_SET,2},{K_DELETE,1},{K_INCR,5},{K_DECR,3},{K_APPEND,1},{K_TOUCH,1}}; p.numeric=(int)r.below(2)*100; p.p_bin=r.chance(0.5)?0:0.4; p.think_ns=(i64)r.logu(200000); (void)c; }
void coll(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(1,2)); load(p,r,1,4,70); p.p_reconn=0; p.p_noreply=r.chance(0.5)?0:0.15; if(r.chance(0.3)){ c.p_rshort=0.1; c.p_sshort=0.1; c.sndbuf=(int)r.range(64,4000); } }
static void c03_list(Cfg&c,Work*w,Rng&r){ coll(c,w,r); Plan&p=w->p; p.mix={{L_CREATE,3},{L_INSERT,20},{L_DELETE,5},{L_GET,9},{K_DELETE,1},{K_GETATTR,2},{K_SETATTR,2},{K_SET,1}}; }
static void c04_set(Cfg&c,Work*w,Rng&r){ coll(c,w,r); Plan&p=w->p; p.mix={{S_CREATE,2},{S_INSERT,18},{S_DELETE,6},{S_EXIST,6},{S_GET,7},{K_DELETE,1},{K_GETATTR,2},{K_SETATTR,1}}; if(r.chance(0.5)){ p.nelem=60; p.maxmax=50; } }
static void c05_map(Cfg&c,Work*w,Rng&r){ coll(c,w,r); Plan&p=w->p; p.mix={{M_CREATE,2},{M_INSERT,12},{M_UPSERT,6},{M_UPDATE,5},{M_DELETE,5},{M_GET,8},{K_DELETE,1},{K_GETATTR,2},{K_SETATTR,1}}; if(r.chance(0.5)){ p.nfields=60; p.maxmax=50; } }
static void c06_btree(Cfg&c,Work*w,Rng&r){ coll(c,w,r); Plan&p=w->p; p.mix={{B_CREATE,2},{B_INSERT,20},{B_UPSERT,6},{B_UPDATE,5},{B_DELETE,5},{B_INCR,2},{B_DECR,2},{B_GET,8},{B_COUNT,3},{B_POS,2},{B_PWG,2},{B_GBP,3},{K_DELETE,1},{K_GETATTR,2},{K_SETATTR,2}}; p.bk=(int)r.below(4); p.numeric=r.chance(0.5)?0:20; p.mbr=p.bk<2&&r.chance(0.4); }

// readers that take their replies slowly, a few bytes at a time, while others change what is being sent; values of one size, so that
// updates may happen in place
static void slow(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; p.keys.clear(); keys(p,1); p.clients=(int)r.range(3,6); p.ops=(int)r.range(40,90)/p.clients; p.depth=(int)r.range(1,3); p.think_ns=(i64)r.logu(100000); p.p_noreply=0; p.p_reconn=0; c.sndbuf=(int)r.range(64,300); c.p_sagain=r.unit()*0.4; c.p_sshort=r.unit()*0.6; c.seg_max=1+(int)r.logu(200); c.p_seg=r.unit(); p.fixval=(int)r.range(10,r.chance(0.5)?60:400); p.p_create=1; p.nelem=(int)r.range(2,8); p.nfields=(int)r.range(2,8); p.nbk=(int)r.range(2,8); p.minmax=4; p.maxmax=40; p.p_unread=0; p.p_ef=r.chance(0.5)?0:0.5; }
static void c01_slow(Cfg&c,Work*w,Rng&r){ c01_kv(c,w,r); slow(c,w,r); Plan&p=w->p; p.mix={{K_SET,6},{K_GET,8},{K_GETS,6},{K_MGET,2},{K_APPEND,3},{K_PREPEND,2},{K_CAS,3},{K_INCR,10},{K_DECR,6},{K_DELETE,1}}; p.numeric=(int)r.below(3)*50; if(r.chance(0.5)) p.fixval=(int)r.range(200,3000); }
// limits on collections given by the engine configuration, or raised by the only client's first command
void limits(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; ModelCfg&m=p.mc; p.p_over=r.chance(0.5)?0.2:0; if(!r.chance(0.5)) return; struct L { const char*n; i64*v; } ls[]={{"list",&m.list_max},{"set",&m.set_max},{"map",&m.map_max},{"btree",&m.btree_max}}; string e; auto cmds=std::make_shared<vector<std::pair<string,string>>>();
  for(auto&l:ls) if(r.chance(0.5)){ *l.v=r.range(10000,60000); e+=strf("max_%s_size=%lld;",l.n,(long long)*l.v); } if(r.chance(0.5)){ m.elem_max=r.range(1024,32768); e+=strf("max_element_bytes=%lld;",(long long)m.elem_max); }
  if(e.size()) c.argv.insert(c.argv.end(),{"-e",e.substr(0,e.size()-1)});
  p.maxval=r.chance(0.5)?p.maxval:40; if(r.chance(0.5)){ p.p_big=0.15; p.bigval=(int)(m.elem_max+m.elem_max/4); p.ops=std::min(p.ops,30); }
  if(p.clients==1&&p.p_reconn==0){ for(auto&l:ls) if(r.chance(0.4)){ i64 n=r.chance(0.1)?-1:r.range(9000,1100000); i64 q=n<0||n>1000000?1000000:n; bool ok=q>*l.v; if(ok) *l.v=q; cmds->push_back({strf("config max_%s_size %lld",l.n,(long long)n),ok?"END\r\n":"CLIENT_ERROR"}); }
    if(r.chance(0.4)){ i64 n=r.range(500,40000); bool ok=n>=1024&&n<=32768; if(ok) m.elem_max=n; cmds->push_back({strf("config max_element_bytes %lld",(long long)n),ok?"END\r\n":"CLIENT_ERROR"}); }
    auto g0=w->gen; w->gen=[g0,cmds](Work*w,CS*cs,int idx,Rng&r)->Op*{ if(idx<(int)cmds->size()&&!cs->bin){ Op*o=w->mk(X_RAW,""); o->req=(*cmds)[idx].first+"\r\n"; o->expect_any={(*cmds)[idx].second}; return o; } return g0?g0(w,cs,idx,r):nullptr; }; p.ops+=(int)cmds->size(); p.p_bin=0; p.depth=1; } }
// the same histories with about half of the clients speaking the binary protocol
static void binmix(Work*w){ Plan&p=w->p; p.bincoll=true; p.p_bin=0.6; p.p_quiet=0; if(w->crng.chance(0.4)) p.p_reconn=0.05; }
static void c03_bin(Cfg&c,Work*w,Rng&r){ c03_list(c,w,r); binmix(w); }
static void c04_bin(Cfg&c,Work*w,Rng&r){ c04_set(c,w,r); binmix(w); }
static void c06_bin(Cfg&c,Work*w,Rng&r);
static void c24_bin(Cfg&c,Work*w,Rng&r);
static void c03_slow(Cfg&c,Work*w,Rng&r){ c03_list(c,w,r); slow(c,w,r); w->p.mix={{L_INSERT,16},{L_DELETE,6},{L_GET,14},{K_DELETE,1}}; }
static void c04_slow(Cfg&c,Work*w,Rng&r){ c04_set(c,w,r); slow(c,w,r); w->p.mix={{S_INSERT,14},{S_DELETE,7},{S_GET,14},{K_DELETE,1}}; }
static void c05_slow(Cfg&c,Work*w,Rng&r){ c05_map(c,w,r); slow(c,w,r); w->p.mix={{M_INSERT,6},{M_UPSERT,8},{M_UPDATE,12},{M_DELETE,3},{M_GET,16},{K_DELETE,1}}; }
static void c06_slow(Cfg&c,Work*w,Rng&r){ c06_btree(c,w,r); slow(c,w,r); Plan&p=w->p; p.bk=(int)r.below(2); p.mbr=false; p.numeric=r.chance(0.2)?40:0; p.mix={{B_INSERT,8},{B_UPSERT,8},{B_UPDATE,14},{B_DELETE,3},{B_INCR,p.numeric?6:0},{B_DECR,p.numeric?4:0},{B_GET,14},{B_GBP,5},{B_PWG,3},{K_DELETE,1}}; }

// ---- deep structures: one or two clients, many elements (multi-level trees, split hash tables, long lists)
void deep(Cfg&c,Work*w,Rng&r){ coll(c,w,r); Plan&p=w->p; p.keys.resize(1); p.clients=(int)r.range(1,2); p.ops=(int)r.range(200,900)/p.clients; p.depth=(int)r.range(1,16); p.p_create=1; p.p_max=0.25; p.minmax=30; p.maxmax=500; p.maxval=30; p.p_big=0; p.p_unread=0; p.p_crlf=0; p.think_ns=20000; p.budget=400000; c.mean_preempt=r.chance(0.5)?0:40000; c.seg_max=2000; c.p_seg*=0.2; if(r.chance(0.6)){ c.k["bt_items"]=8+(int)r.logu(8); c.k["chain"]=4+(int)r.logu(12); } }
static void c03_deep(Cfg&c,Work*w,Rng&r){ deep(c,w,r); Plan&p=w->p; p.clients=1; p.mix={{L_INSERT,60},{L_DELETE,(int)r.below(3)},{L_GET,3},{K_GETATTR,1},{K_SETATTR,1}}; }
static void c04_deep(Cfg&c,Work*w,Rng&r){ deep(c,w,r); Plan&p=w->p; p.nelem=(int)r.range(200,1500); p.mix={{S_INSERT,40},{S_DELETE,(int)r.below(20)},{S_EXIST,12},{S_GET,r.chance(0.4)?12:1},{K_GETATTR,1}}; }
static void c05_deep(Cfg&c,Work*w,Rng&r){ deep(c,w,r); Plan&p=w->p; p.nfields=(int)r.range(200,1500); p.mix={{M_INSERT,30},{M_UPSERT,10},{M_UPDATE,6},{M_DELETE,(int)r.below(20)},{M_GET,6},{K_GETATTR,1}}; 
  w->gen=[](Work*w,CS*c,int,Rng&r)->Op*{ // whole-map deletes would keep the structure shallow
    for(;;){ auto g=w->gen; w->gen=nullptr; Op*o=w->genop(c,0,r); w->gen=g; if((o->kind==M_DELETE||(o->kind==M_GET&&o->dd))&&o->fields.empty()&&!r.chance(0.03)){ o->fields={strf("f%llu",(unsigned long long)r.below(w->p.nfields))}; } return o; } }; }
static void c06_deep(Cfg&c,Work*w,Rng&r){ deep(c,w,r); Plan&p=w->p; p.bk=(int)r.below(3); p.nbk=p.bk==1?256:(int)r.range(100,3000); p.mix={{B_INSERT,60},{B_UPSERT,8},{B_UPDATE,4},{B_DELETE,(int)r.below(8)},{B_INCR,1},{B_GET,6},{B_COUNT,3},{B_POS,3},{B_PWG,3},{B_GBP,5},{K_GETATTR,1},{K_SETATTR,r.chance(0.3)?1:0}}; if(r.chance(0.2)) p.p_max=0.9; p.mbr=p.bk<2&&r.chance(0.2); int lim=(int)r.range(2,120);
  w->gen=[lim](Work*w,CS*c,int idx,Rng&r)->Op*{ auto g=w->gen; w->gen=nullptr; Op*o=w->genop(c,idx,r); w->gen=g; // large but bounded range deletes, counts and positions
    if((o->kind==B_DELETE||(o->kind==B_GET&&o->dd))&&!r.chance(0.04)){ o->has_count=true; o->count=1+(i64)r.below(lim); } else if(o->kind==B_GET&&o->has_count){ o->count=(i64)r.below(150); if(o->offset>=0) o->offset=(i64)r.below(150); } if(o->kind==B_GBP){ o->posfrom=(i64)r.below(400); if(o->range) o->posto=std::max<i64>(0,o->posfrom+(i64)r.below(80)-40); } if(o->kind==B_PWG&&o->has_count) o->count=(i64)r.below(60); return o; }; }
// a tree of several thousand elements (three levels), loaded in a seeded order, then thinned out
static void c06_huge(Cfg&c,Work*w,Rng&r){ deep(c,w,r); Plan&p=w->p; p.clients=1; int n=(int)r.range(1100,3500); p.ops=n+(int)r.range(150,500); p.depth=64; p.bk=0; p.p_ef=0.2; p.audit=true; p.think_ns=1000; c.mean_preempt=0; c.p_seg=0; c.p_sync=0.02; p.budget=2000000; int order=(int)r.below(5), blk=(int)r.range(20,900), lim=(int)r.range(30,1200); u64 salt=r.next(); int aud=(int)r.range(0,1);
  p.mix={{B_DELETE,8},{B_GET,8},{B_COUNT,6},{B_POS,8},{B_PWG,8},{B_GBP,8},{B_INSERT,6},{B_UPSERT,2},{B_UPDATE,2},{K_GETATTR,1}}; if(aud) p.mix[0].second=25; p.nbk=n+5;
  w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(idx==0){ Op*o=w->mk(B_CREATE,w->p.keys[0]); o->attr.maxcount=(i64)n+10; return o; }
    if(idx<=n){ u64 k=idx-1; if(order==1) k=n-idx; else if(order==2) k=(idx*7919ULL+salt%n)%n; else if(order==3){ u64 b=k/blk, nb=n/blk; if(b<nb) k=(nb-1-b)*blk+k%blk; } else if(order==4){ u64 b=k/blk; if(b<(u64)n/blk) k=b*blk+(blk-1-k%blk); } Op*o=w->mk(B_INSERT,w->p.keys[0]); o->b1.n=k; o->val=strf("%d",idx); o->noreply=idx%16!=0; return o; }
    auto g=w->gen; w->gen=nullptr; Op*o=w->genop(c,idx,r); w->gen=g; o->noreply=false; o->filt=EFilter();
    if(o->kind==B_DELETE||(o->kind==B_GET&&o->dd)){ o->has_count=true; o->count=1+(i64)r.logu(lim); } else if(o->kind==B_GET){ o->has_count=true; o->count=1+(i64)r.below(60); o->offset=(i64)r.below(n); } if(o->kind==B_GBP){ o->posfrom=(i64)r.below(n+5); if(o->range) o->posto=std::max<i64>(0,o->posfrom+(i64)r.below(80)-40); } if(o->kind==B_PWG) { o->has_count=true; o->count=(i64)r.below(60); } return o; }; }
// ---- C07
static void c07_mget(Cfg&c,Work*w,Rng&r){ coll(c,w,r); Plan&p=w->p; p.keys.clear(); keys(p,(int)r.range(2,5)); p.maxkeys=(int)p.keys.size(); p.clients=(int)r.range(1,3); p.mix={{B_INSERT,20},{B_DELETE,3},{B_MGET,12},{K_DELETE,1},{K_SETATTR,2},{K_SET,1},{K_GETATTR,1}}; p.bk=(int)r.below(4); p.mbr=p.bk<2&&r.chance(0.2); }
static void c07_smget(Cfg&c,Work*w,Rng&r){ coll(c,w,r); Plan&p=w->p; p.keys.clear(); keys(p,(int)r.range(2,5)); p.maxkeys=(int)p.keys.size(); p.clients=(int)r.range(1,2); p.ops=(int)r.range(30,60)/p.clients; p.depth=1; p.p_noreply=0; p.joint=true; p.mix={{B_INSERT,24},{B_DELETE,2},{B_SMGET,14},{K_DELETE,1},{K_SETATTR,1},{K_SET,r.chance(0.2)?1:0}}; p.bk=r.chance(0.1)?3:(int)r.below(3); p.nbk=(int)r.range(6,20); p.budget=200000; p.p_unread=r.chance(0.3)?0.05:0; }
static void c07_deep(Cfg&c,Work*w,Rng&r){ c07_smget(c,w,r); Plan&p=w->p; p.clients=1; p.ops=(int)r.range(150,300); p.p_create=1; p.nbk=(int)r.range(60,300); p.bk=0; p.p_max=0.5; p.minmax=5; p.maxmax=60; p.mix={{B_INSERT,60},{B_DELETE,0},{B_SMGET,6},{B_MGET,2}}; p.maxval=20; w->gen=[](Work*w,CS*c,int idx,Rng&r)->Op*{ auto g=w->gen; w->gen=nullptr; Op*o=w->genop(c,idx,r); w->gen=g; if(o->kind==B_SMGET||o->kind==B_MGET){ o->count=1+(i64)r.below(o->kind==B_MGET?50:120); if(o->offset>0&&r.chance(0.5)) o->offset=(i64)r.below(60); } return o; }; }
static void c07_slow(Cfg&c,Work*w,Rng&r){ c07_mget(c,w,r); slow(c,w,r); Plan&p=w->p; p.keys.clear(); keys(p,(int)r.range(2,3)); p.maxkeys=(int)p.keys.size(); p.bk=(int)r.below(2); p.mbr=false; p.mix={{B_INSERT,12},{B_UPSERT,6},{B_UPDATE,12},{B_DELETE,3},{B_MGET,16},{K_DELETE,1}}; }
// ---- C24
static void c06_bin(Cfg&c,Work*w,Rng&r){ c06_btree(c,w,r); binmix(w); }
static void c03_limits(Cfg&c,Work*w,Rng&r){ c03_list(c,w,r); limits(c,w,r); }
static void c04_limits(Cfg&c,Work*w,Rng&r){ c04_set(c,w,r); limits(c,w,r); }
static void c05_limits(Cfg&c,Work*w,Rng&r){ c05_map(c,w,r); limits(c,w,r); }
static void c06_limits(Cfg&c,Work*w,Rng&r){ c06_btree(c,w,r); limits(c,w,r); }
static void c24_attr0(Cfg&c,Work*w,Rng&r){ coll(c,w,r); c.argv.insert(c.argv.end(),{"-g","32"}); Plan&p=w->p; p.keys.clear(); keys(p,(int)r.range(1,4)); p.clients=(int)r.range(1,4); p.p_unread=0.3; p.exps={0,0,0,1000,100000,-1}; p.mbr=r.chance(0.5); p.bk=(int)r.below(2); p.mix={{K_SETATTR,14},{K_GETATTR,14},{K_TOUCH,2},{K_DELETE,2},{K_SET,3},{K_GET,2},{L_CREATE,3},{L_INSERT,4},{L_GET,2},{L_DELETE,1},{S_CREATE,3},{S_INSERT,3},{S_GET,2},{M_CREATE,3},{M_INSERT,3},{M_GET,2},{B_CREATE,3},{B_INSERT,8},{B_GET,2},{B_DELETE,1}}; if(r.chance(0.5)){ // one type per key, so that items live long
    vector<vector<std::pair<int,int>>> t={{{L_CREATE,3},{L_INSERT,10},{L_GET,3},{L_DELETE,2},{K_SETATTR,8},{K_GETATTR,8}},{{S_CREATE,3},{S_INSERT,10},{S_GET,3},{S_DELETE,2},{K_SETATTR,8},{K_GETATTR,8}},{{M_CREATE,3},{M_INSERT,10},{M_GET,3},{M_DELETE,1},{K_SETATTR,8},{K_GETATTR,8}},{{B_CREATE,3},{B_INSERT,14},{B_GET,3},{B_DELETE,2},{K_SETATTR,8},{K_GETATTR,8}},{{K_SET,6},{K_GET,3},{K_APPEND,2},{K_INCR,1},{K_SETATTR,8},{K_GETATTR,8}}}; for(size_t i=0;i<p.keys.size();i++) p.keymix.push_back(t[r.below(t.size())]); } }
static void c24_attr(Cfg&c,Work*w,Rng&r){ c24_attr0(c,w,r); if(r.chance(0.4)) limits(c,w,r); }
static void c24_bin(Cfg&c,Work*w,Rng&r){ c24_attr0(c,w,r); w->p.p_over=r.chance(0.4)?0.2:0; binmix(w); }
// clients that now and then pause for longer than the server takes an access time for current
static void idle(Work*w,double often){ i64 base=w->p.think_ns; w->think=[=](Work*w,CS*)->i64{ return w->crng.chance(often)? 55000000000LL+(i64)w->crng.below(20000000000ULL): (i64)(base*2*w->crng.unit()*w->crng.unit()); }; }
// threads that stall and timers that fire late, by up to seconds: the server's clock may lag by their sum
static void lagging(Cfg&c,Work*w,Rng&r){ c.stall_total=(i64)r.range(300,4000)*1000000LL; c.k["stall_max_ns"]=(i64)r.range(1,2000)*1000000LL; c.k["late_max_ns"]=(i64)r.range(1,2000)*1000000LL; if(r.chance(0.7)) c.rate[F_THREAD_STALL]=0.001; if(r.chance(0.7)) c.rate[F_TIMER_LATE]=0.1; w->p.mc.slack_ns+=c.stall_total; }
// ---- C10: expiration. Long simulated time, every way of giving an expiration time
static void c10_common(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(1,3)); load(p,r,1,4,90); p.depth=1; p.p_noreply=r.chance(0.5)?0:0.15; p.think_ns=(i64)(2e8*(1+r.below(12))); p.mbr=false; i64 base=W->wall_off/1000000000LL; c.argv.insert(c.argv.end(),{"-g","32"});
  p.exps={0,1,2,2,3,3,4,5,7,10,-5,2592000,2592001,base-100,base+1,base+3,base+6,base+12,base+2592100,2000000000}; if(r.chance(0.5)) p.exps.push_back(-1); if(r.chance(0.25)) lagging(c,w,r); if(r.chance(0.15)){ idle(w,0.06); p.exps.insert(p.exps.end(),{55,60,63,70,80,130}); } }
static void c10_kv(Cfg&c,Work*w,Rng&r){ c10_common(c,w,r); Plan&p=w->p; p.p_bin=r.chance(0.5)?0:0.4; p.numeric=r.chance(0.5)?0:40; p.mix={{K_GET,10},{K_GETS,3},{K_SET,8},{K_ADD,4},{K_REPLACE,3},{K_APPEND,3},{K_PREPEND,1},{K_CAS,3},{K_DELETE,1},{K_INCR,3},{K_DECR,1},{K_MGET,1},{K_TOUCH,4},{K_GETATTR,5},{K_SETATTR,5}}; }
static void c10_coll(Cfg&c,Work*w,Rng&r){ c10_common(c,w,r); Plan&p=w->p; p.p_create=0.8; if(r.chance(0.3)){ p.bincoll=true; p.p_bin=0.5; p.p_quiet=0; }  vector<vector<std::pair<int,int>>> t={{{L_CREATE,4},{L_INSERT,10},{L_GET,6},{L_DELETE,1}},{{S_CREATE,4},{S_INSERT,10},{S_GET,5},{S_EXIST,3},{S_DELETE,2}},{{M_CREATE,4},{M_INSERT,8},{M_UPSERT,2},{M_UPDATE,3},{M_GET,5},{M_DELETE,1}},{{B_CREATE,4},{B_INSERT,10},{B_UPSERT,2},{B_UPDATE,2},{B_GET,4},{B_DELETE,1},{B_COUNT,3},{B_POS,1},{B_PWG,1},{B_GBP,2},{B_INCR,1},{B_MGET,2}}};
  for(size_t i=0;i<p.keys.size();i++){ auto m=t[r.below(4)]; m.insert(m.end(),{{K_TOUCH,3},{K_GETATTR,6},{K_SETATTR,6},{K_DELETE,1},{K_SET,1},{K_GET,1}}); p.keymix.push_back(m); } }
// ---- C11: flush_all and flush_prefix, immediate or delayed
static void c11_flush(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; const char*k[]={"k0","a:1","a:2","b:1","a:b:1","k1"}; for(int i=0;i<6;i++) if(r.chance(0.6)) p.keys.push_back(k[i]); if(p.keys.empty()) p.keys={"a:1","k0"}; load(p,r,1,4,90); p.depth=1; p.p_noreply=r.chance(0.5)?0:0.1; p.think_ns=r.chance(0.3)?(i64)r.logu(3000000):(i64)(1e8*(1+r.below(14))); p.prefixes={"a","b","<null>","zz","a:b"}; c.argv.insert(c.argv.end(),{"-g","32"}); p.exps={0,0,0,0,100,-1}; p.p_create=0.8;
  int mode=(int)r.below(3); p.flushexp= mode==0?vector<int>{0}:vector<int>{0,0,1,2,3,5}; int fa=mode==2?0:4, fp=mode==1?0:5; if(mode==0&&r.chance(0.5)) fp=0;
  vector<std::pair<int,int>> m={{K_GET,12},{K_SET,12},{K_ADD,3},{K_REPLACE,2},{K_APPEND,2},{K_INCR,1},{K_DELETE,1},{L_INSERT,2},{L_GET,2},{M_INSERT,2},{M_GET,2},{B_INSERT,3},{B_GET,2},{B_COUNT,1},{S_INSERT,1},{S_EXIST,1},{K_GETATTR,2},{K_TOUCH,1}}; if(fa) m.push_back({K_FLUSH,fa}); if(fp) m.push_back({K_FLUSHPFX,fp}); p.mix=m; p.p_bin=r.chance(0.5)?0:0.3; if(r.chance(0.2)) lagging(c,w,r); if(mode!=0&&r.chance(0.3)){ idle(w,0.06); p.flushexp.insert(p.flushexp.end(),{4,30,62,70}); p.exps.insert(p.exps.end(),{65,90}); } }
// ---- C08
struct RawT { const char*req; const char*exp[3]; bool nr; };
static const RawT RAW[]={
 {"bogus\r\n",{"ERROR"}},{"\r\n",{"ERROR"}},{"get\r\n",{"ERROR","CLIENT_ERROR"}},{"set k0\r\n",{"ERROR","CLIENT_ERROR"}},{"set k0 0 0 x\r\n",{"CLIENT_ERROR"}},{"set k0 0 0 -5\r\n",{"CLIENT_ERROR"}},{"incr k0 abc\r\n",{"CLIENT_ERROR"}},{"incr k0\r\n",{"ERROR","CLIENT_ERROR"}},{"delete\r\n",{"ERROR","CLIENT_ERROR"}},
 {"lop insert k0\r\n",{"ERROR","CLIENT_ERROR"}},{"lop get k0 x\r\n",{"CLIENT_ERROR"}},{"sop get k0 z\r\n",{"CLIENT_ERROR"}},{"mop get k0 5 0\r\n",{"CLIENT_ERROR"}},{"bop get k0 zz\r\n",{"CLIENT_ERROR"}},{"bop get k0 0..10 9 EQ 0x0\r\n",{"CLIENT_ERROR"}},{"bop count k0 1..\r\n",{"CLIENT_ERROR"}},{"bop position k0 1 up\r\n",{"CLIENT_ERROR"}},{"bop gbp k0 asc x\r\n",{"CLIENT_ERROR"}},
 {"getattr\r\n",{"ERROR","CLIENT_ERROR"}},{"getattr zz foo\r\n",{"ATTR_ERROR","NOT_FOUND"}},{"setattr zz foo=bar\r\n",{"ATTR_ERROR"}},{"touch zz abc\r\n",{"CLIENT_ERROR"}},{"flush_prefix\r\n",{"ERROR","CLIENT_ERROR"}},{"flush_all abc\r\n",{"ERROR","CLIENT_ERROR"}},{"mget 5\r\n",{"ERROR","CLIENT_ERROR"}},{"mget 0 0\r\n",{"CLIENT_ERROR"}},
 {"set zz 0 0 5\r\nabcdeXY",{"CLIENT_ERROR bad data chunk"}},{"lop insert zz 0 3 create 0 0 0\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"sop insert zz 3 create 0 0 0\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"mop insert zz f 3 create 0 0 0\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"bop insert zz 1 3 create 0 0 0\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"sop exist zz 3\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"sop delete zz 3\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"mop update zz f 3\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"bop update zz 1 3\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},{"append zz 0 0 3\r\nabcXY",{"CLIENT_ERROR bad data chunk"}},
 {"mget 5 2\r\nk0 k1XY",{"CLIENT_ERROR bad data chunk"}},{"mop get zz 5 2\r\nf1 f2XY",{"CLIENT_ERROR bad data chunk"}},{"bop mget 5 2 0..10 5\r\nk0 k1XY",{"CLIENT_ERROR bad data chunk"}},{"bop smget 5 2 0..10 5\r\nk0 k1XY",{"CLIENT_ERROR bad data chunk"}},
 {"mget 5 9\r\nk0 k1\r\n",{"CLIENT_ERROR bad value"}},{"mop get zz 5 9\r\nf1 f2\r\n",{"CLIENT_ERROR bad value"}},{"mop delete zz 5 9\r\nf1 f2\r\n",{"CLIENT_ERROR bad value"}},{"mop delete zz 5 9 noreply\r\nf1 f2\r\n",{""},true},{"bop mget 5 9 0..10 5\r\nk0 k1\r\n",{"CLIENT_ERROR bad value"}},{"bop smget 5 9 0..10 5\r\nk0 k1\r\n",{"CLIENT_ERROR bad value"}},{"bop smget 5 2 0..10 5000\r\nk0 k1\r\n",{"CLIENT_ERROR bad value"}},{"bop mget 5 2 0..10 51\r\nk0 k1\r\n",{"CLIENT_ERROR bad value"}},{"bop mget 5 2 0..10 0\r\nk0 k1\r\n",{"CLIENT_ERROR bad value"}},
 {"mget 5 3\r\nk0 k1\r\n",{"CLIENT_ERROR bad data chunk"}},{"mop get zz 5 3\r\nf1 f2\r\n",{"CLIENT_ERROR bad data chunk","CLIENT_ERROR bad value"}},
 {"set zz 0 0 3 noreply\r\nabcXY",{""},true},{"lop insert zz 0 3 noreply\r\nabcXY",{""},true},{"bop insert zz 1 3 noreply\r\nabcXY",{""},true},{"mop insert zz f 3 noreply\r\nabcXY",{""},true},{"sop insert zz 3 noreply\r\nabcXY",{""},true},{"mop delete zz 5 2 noreply\r\nf1 f2XY",{""},true},
 {"version\r\n",{"VERSION "}},{"set zz 0 0 1\r\n\n\r\n",{"STORED","TYPE_MISMATCH"}},{"delete zz\r\n",{"DELETED","NOT_FOUND"}},
};
Op* rawop(Work*w,Rng&r){ Op*o=w->mk(X_RAW,""); if(r.chance(0.12)){ size_t n= r.below(3)==0? 2000000: r.below(2)? 1100000: 1048577; int k=(int)r.below(5); string h= k==0?strf("set zz 0 0 %zu\r\n",n): k==1?strf("set zz 0 0 %zu noreply\r\n",n): k==2?strf("bop insert zz 1 %zu create 0 0 0\r\n",n=16383+r.below(40000)): k==3? strf("lop insert zz 0 %zu noreply\r\n",n=16383+r.below(40000)): strf("mop update zz f %zu\r\n",n=16383+r.below(40000)); o->req=h+string(n,'x')+"\r\n"; o->noreply=k==1||k==3; o->expect_any= k==0?vector<string>{"SERVER_ERROR","CLIENT_ERROR"}:vector<string>{"CLIENT_ERROR too large value"}; return o; }
  if(r.chance(0.06)){ string key(16001+r.below(3000),'k'); o->req="get zz k0 "+key+"\r\n"; o->expect_any={"CLIENT_ERROR"}; return o; }
  const RawT&t=RAW[r.below(sizeof RAW/sizeof RAW[0])]; o->req=t.req; o->noreply=t.nr; for(auto e:t.exp) if(e) o->expect_any.push_back(e); return o; }
void seg(Cfg&c,Rng&r){ c.p_seg=r.unit(); c.seg_max=1+(int)r.logu(600); c.p_rshort=r.unit()*0.5; c.p_ragain=r.unit()*0.2; c.p_sshort=r.unit()*0.5; c.p_sagain=r.unit()*0.2; c.sndbuf=(int)r.range(64,r.chance(0.5)?300:100000); }
static void c08_stream(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,1,3,80); p.depth=1+(int)r.logu(40); p.p_noreply=0.25; p.maxkeys=4; seg(c,r); p.mbr=false;
  p.mix={{K_GET,6},{K_GETS,3},{K_MGET,3},{K_MGETS,2},{K_SET,6},{K_ADD,2},{K_REPLACE,2},{K_APPEND,2},{K_CAS,2},{K_DELETE,3},{K_INCR,2},{L_INSERT,4},{L_GET,2},{L_DELETE,1},{S_INSERT,3},{S_EXIST,2},{S_GET,1},{S_DELETE,1},{M_INSERT,4},{M_GET,3},{M_DELETE,2},{M_UPDATE,1},{B_INSERT,6},{B_GET,3},{B_MGET,2},{B_COUNT,1},{B_DELETE,1},{B_UPDATE,1},{K_GETATTR,2},{X_PIPE,4}};
  if(r.chance(0.3)){ p.maxval=2500; p.p_big=0.05; p.bigval=60000; p.ops=std::min(p.ops,30); }
  double pr=r.chance(0.3)?0:0.25; w->gen=[pr](Work*w,CS*c,int,Rng&r)->Op*{ if(c->bin||!r.chance(pr)) return nullptr; return rawop(w,r); }; }
static void c08_bin(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,1,3,80); p.depth=1+(int)r.logu(40); p.p_bin=1; p.p_quiet=0.4; kv_mix(p,false); p.mix.push_back({X_NOOP,3}); p.mix.push_back({K_FLUSH,1}); seg(c,r); if(r.chance(0.3)){ p.maxval=2500; p.p_big=0.05; p.bigval=60000; p.ops=std::min(p.ops,30); } }
static void c08_pipe(Cfg&c,Work*w,Rng&r){ c08_stream(c,w,r); Plan&p=w->p; p.gen_pipe_max=r.chance(0.1)?600:(int)r.range(3,60); p.mix={{L_INSERT,4},{L_DELETE,2},{S_INSERT,4},{S_EXIST,2},{S_DELETE,2},{M_INSERT,4},{M_DELETE,3},{M_UPDATE,2},{B_INSERT,4},{B_UPDATE,2},{B_DELETE,2},{B_INCR,1},{K_DELETE,1},{X_PIPE,8}}; p.maxval=20; p.p_big=r.chance(0.5)?0.02:0; p.bigval=20000; p.ops=std::min(p.ops,20); p.p_create=0.8; p.keymix.clear(); }
static const vector<PropDef> P={
 {"C01",{{"kv",c01_kv,5},{"mixed",c01_mixed,2},{"slow",c01_slow,2}}},
 {"C02",{{"cas",c02_cas,1}}},
 {"C03",{{"list",c03_list,20},{"binary",c03_bin,8},{"limits",c03_limits,2},{"slow",c03_slow,5},{"deep",c03_deep,1}}},
 {"C04",{{"set",c04_set,20},{"binary",c04_bin,8},{"limits",c04_limits,2},{"slow",c04_slow,5},{"deep",c04_deep,1}}},
 {"C05",{{"map",c05_map,20},{"limits",c05_limits,2},{"slow",c05_slow,5},{"deep",c05_deep,1}}},
 {"C06",{{"btree",c06_btree,200},{"binary",c06_bin,60},{"limits",c06_limits,15},{"slow",c06_slow,70},{"deep",c06_deep,20},{"huge",c06_huge,1}}},
 {"C07",{{"mget",c07_mget,6},{"smget",c07_smget,10},{"deep",c07_deep,2},{"slow",c07_slow,3}}},
 {"C08",{{"stream",c08_stream,6},{"binary",c08_bin,3},{"pipe",c08_pipe,3}}},
 {"C10",{{"kv",c10_kv,1},{"coll",c10_coll,1}}},
 {"C11",{{"flush",c11_flush,1}}},
 {"C24",{{"attr",c24_attr,3},{"binary",c24_bin,1}}},
};
const vector<PropDef>& all_props(){ static vector<PropDef> a; if(a.empty()){ a=P; for(auto&x:props_sys()) a.push_back(x); for(auto&x:props_dur()) a.push_back(x); for(auto&x:props_stat()) a.push_back(x); for(auto&x:props_scan()) a.push_back(x); for(auto&x:props_mem()) a.push_back(x); for(auto&x:props_diag()) a.push_back(x); for(auto&x:props_auth()) a.push_back(x); for(auto&x:props_zk()) a.push_back(x); for(auto&x:props_live()) a.push_back(x);  for(auto&x:props_wide()) for(auto&y:a) if(!strcmp(y.id,x.id)) y.profs.insert(y.profs.end(),x.profs.begin(),x.profs.end()); } return a; }
