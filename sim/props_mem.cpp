// C12: small memory limits: eviction, refusal, sticky items, accounting, reuse of freed space.
#include "step.h"
void all_mix(Plan&);
static void arg(Cfg&c,const char*o,const string&v){ for(size_t i=0;i+1<c.argv.size();i++) if(c.argv[i]==o){ c.argv[i+1]=v; return; } c.argv.push_back(o); c.argv.push_back(v); }
struct Mem {  bool large=false; /* the other classes may have taken all memory: then no page is left for small values */  bool evict=true; int limit_mb=1; i64 page=1048576; u64 junk=0; int nj=40; i64 jmin=100,jmax=30000; double pj=0.5; bool sticky=false; bool coll=true; i64 sticky_lim=0; int samples=0; i64 pre=0, prelen=3000; map<int,int> pren; map<int,std::pair<i64,i64>> last; i64 last_total=-1, last_limit=0; };
typedef std::shared_ptr<Mem> MR;
// the pages of all classes add up to the total, and the total stays within the limit but for the pages every class has reserved
static string judge_slabs(MR M,const string&t){
  auto m=parse_stats(t); i64 total=num(m,"total_malloced"), limit=num(m,"memory_limit"); if(total<0||limit<=0) return "stats slabs has no total"; i64 sum=0, extra=0; i64 blocks=0, bchunk=0;
  for(int c=0;c<256;c++){ auto g=[&](const char*n){ return num(m,strf("%d:%s",c,n).c_str()); }; i64 pages=g("total_pages"); if(pages<0) continue; i64 ps=g("chunk_size")*g("chunks_per_page"); sum+=pages*ps; if(c==0){ extra+=std::max<i64>(4,pages/20)*ps; blocks=g("used_chunks"); bchunk=g("chunk_size"); } else extra+=std::min(pages,g("reserved_pages"))*ps;
    if(g("used_chunks")<0||g("used_chunks")>g("total_chunks")) return strf("slab class %d uses %lld of %lld chunks",c,(long long)g("used_chunks"),(long long)g("total_chunks")); }
  if(sum!=total) return strf("the pages of the slab classes hold %lld bytes, total_malloced is %lld",(long long)sum,(long long)total);
  if(total>limit+extra) return strf("memory for items is %lld bytes, the limit is %lld and %lld bytes are reserved for the classes",(long long)total,(long long)limit,(long long)extra);
  // a page beyond those reserved for its class was added since the last look: it must have fitted
  for(int c=0;c<256;c++){ i64 pages=num(m,strf("%d:total_pages",c).c_str()); if(pages<0) continue; i64 rs=num(m,strf("%d:reserved_pages",c).c_str()), ps=num(m,strf("%d:chunk_size",c).c_str())*num(m,strf("%d:chunks_per_page",c).c_str()); auto l=M->last.find(c); i64 lp=l==M->last.end()?0:l->second.first, lr=l==M->last.end()?(c?rs:0):l->second.second; if(M->last_total>=0&&M->last_limit==limit&&pages>lp&&rs>0&&rs==lr&&pages>rs&&M->last_total+ps>limit) return strf("slab class %d got a page of %lld bytes with %lld bytes of items held, the limit is %lld (it has %lld pages, %lld are reserved)",c,(long long)ps,(long long)M->last_total,(long long)limit,(long long)pages,(long long)rs); if(pages>lp) W->probes["pages seen added"]++; M->last[c]={pages,rs}; }
  M->last_total=total; M->last_limit=limit;
  i64 used=num(m,"SM:used_total_space"); if(used>blocks*bchunk) return strf("%lld bytes of small memory in use in %lld blocks",(long long)used,(long long)blocks);
  M->samples++; return ""; }
static string judge_stats(Work*w,MR M,const string&t){ auto m=parse_stats(t); if(M->sticky_lim){ i64 b=num(m,"sticky_bytes"); i64 slack=(i64)(w->p.clients+2)*2*std::max<i64>(std::max<i64>(M->jmax,w->p.bigval),16384)+200000; if(b>M->sticky_lim+slack) return strf("sticky_bytes is %lld, the sticky limit is %lld",(long long)b,(long long)M->sticky_lim); } if(!M->evict&&num(m,"evictions")>0) return strf("%lld evictions while eviction is off",(long long)num(m,"evictions")); return ""; }
static Op* junk(Work*w,MR M,Rng&r){ Op*o=w->mk(X_RAW,""); i64 len=r.chance(0.5)?r.range(M->jmin,M->jmax):M->jmin+(i64)r.logu(M->jmax-M->jmin); int k=(int)r.below(M->nj); string e=r.chance(0.85)?"0":M->sticky&&r.chance(0.5)?"-1":r.chance(0.5)?"1":"2";
  o->expect_any={"STORED","SERVER_ERROR out of memory","TYPE_MISMATCH"}; W->probes["junk ops"]++; int what=M->coll?(int)r.below(10):0;
  if(what<6){ o->req=strf("set j%d 0 %s %lld\r\n",k,e.c_str(),(long long)len)+string((size_t)len,(char)('a'+k%26))+"\r\n"; return o; }
  if(what==9){ o->req=strf("delete %s%d\r\n",r.chance(0.5)?"j":"J",k); o->expect_any={"DELETED","NOT_FOUND"}; return o; }
  if(len>15000) len=15000; string b=string((size_t)len,'x')+"\r\n"; string cr=strf(" create 0 %s 4000",e.c_str()); o->expect_any={"STORED","CREATED_STORED","SERVER_ERROR out of memory","TYPE_MISMATCH","OVERFLOWED","ELEMENT_EXISTS"};
  switch(k%4){ case 0: o->req=strf("lop insert J%d -1 %lld",k,(long long)len)+cr+"\r\n"+b; break; case 1: o->req=strf("bop insert J%d %llu %lld",k,(unsigned long long)r.below(5000),(long long)len)+cr+"\r\n"+b; break; case 2: o->req=strf("mop insert J%d f%llu %lld",k,(unsigned long long)r.below(5000),(long long)len)+cr+"\r\n"+b; break; default: { string v=strf("%llu.",(unsigned long long)r.below(100000)); v.resize((size_t)len+8,'y'); o->req=strf("sop insert J%d %zu",k,v.size())+cr+"\r\n"+v+"\r\n"; } }
  return o; }
// after the run: values of one size are stored until memory is full, by one client and with nobody else active
struct Fill { int round=0,n=0,stored=0,refused=0; i64 len=0; int want=0; vector<char> ok; int n1=0; bool sampled=false; };
static string fkey(int round,int i){ return strf("f%d_%06d",round,i); }
static string fval(int i,i64 len){ string s=strf("%d.",i); while((i64)s.size()<len) s+=(char)('a'+(s.size()*7+i)%26); s.resize((size_t)len); return s; }
static Step repeat(std::function<bool(Work*,std::function<void()>)> body){ // body issues one operation and returns false when it is done
  auto st=std::make_shared<Step>(); *st=[body,st](Work*w)->bool{ w->script.push_front(*st); if(!body(w,[]{})){ w->script.pop_front(); return false; } return true; }; return *st; }
static void fill_steps(Work*w,MR M,std::shared_ptr<Fill> F,vector<Step>&s,int round){
  s.push_back([=](Work*w){ F->round=round; F->n=F->stored=F->refused=0; F->ok.clear(); return false; });
  s.push_back(repeat([=](Work*w,std::function<void()>)->bool{ if(W->viol.set||F->n>=F->want||(!M->evict&&F->refused>=3)) return false; if(F->n%(F->len>4000?5:60)==4&&!F->sampled){ F->sampled=true; w->ctl_op(line(w,"stats slabs",F_MULTI),[=](Op*o){ string e=judge_slabs(M,o->resp); if(!e.empty()) violate("memory","%s",e.c_str()); }); return true; } F->sampled=false; int i=F->n++; Op*o=line(w,"",F_LINE,{"STORED","SERVER_ERROR out of memory"}); o->req=strf("set %s 7 0 %lld\r\n",fkey(F->round,i).c_str(),(long long)F->len)+fval(i,F->len)+"\r\n";
    w->ctl_op(o,[=](Op*o){ bool st=o->resp.compare(0,6,"STORED")==0; F->ok.push_back(st); if(st) F->stored++; else { F->refused++; if(M->evict&&i>=40&&F->round>1&&(F->stored>0||!M->large)) violate("memory","value %d of a uniform fill is refused although older ones could be evicted",i); } }); return true; }));
  auto pos=std::make_shared<int>(0); auto seen=std::make_shared<int>(-1); auto alive=std::make_shared<int>(0);
  s.push_back([=](Work*){ *pos=0; *seen=-1; *alive=0; return false; });
  s.push_back(repeat([=](Work*w,std::function<void()>)->bool{ if(W->viol.set||*pos>=F->n) return false; int i=*pos; (*pos)++; Op*o=line(w,"get "+fkey(F->round,i),F_GETR); w->ctl_op(o,[=](Op*o){ string hit=strf("VALUE %s 7 %lld\r\n",fkey(F->round,i).c_str(),(long long)F->len)+fval(i,F->len)+"\r\nEND\r\n"; bool h=o->resp==hit; if(!h&&o->resp!="END\r\n"){ violate("memory","value %d of the fill reads as \"%s\"",i,esc(o->resp,200).c_str()); return; }
      if(h){ (*alive)++; if(!F->ok[i]) violate("memory","value %d of the fill was refused and is there",i); if(*seen<0) *seen=i; }
      else if(F->ok[i]){ if(!M->evict) violate("memory","value %d of the fill is gone although eviction is off",i); else if(*seen>=0) violate("memory","value %d of the fill is gone, value %d, stored before it, is still there",i,*seen); } }); return true; }));
  s.push_back([=](Work*w){ LOG("fill %d: size %lld tried %d stored %d refused %d alive %d",F->round,(long long)F->len,F->n,F->stored,F->refused,*alive); W->probes["fills"]++; if(M->evict&&F->len<=1200&&F->n>=1500&&*alive==0&&(F->stored>0||!M->large)) violate("memory","nothing of a fill of %d values is left",F->n);
    if(F->n<F->want||F->refused) W->probes["refused fills"]++; if(*alive<F->stored) W->probes["evicting fills"]++;
    if(!M->evict){ if(F->round==1) F->n1=F->stored; else if(F->n1>0&&F->stored<F->n1) violate("memory","%d values of %lld bytes fitted, after they were deleted only %d fit",F->n1,(long long)F->len,F->stored); } return false; });
  auto d=std::make_shared<int>(0); s.push_back([=](Work*){ *d=0; return false; });
  s.push_back(repeat([=](Work*w,std::function<void()>)->bool{ if(W->viol.set||*d>=F->n||(M->evict&&F->round==1)) return false; int i=(*d)++; if(M->evict) i=F->n-1-i; w->ctl_op(line(w,"delete "+fkey(F->round,i),F_LINE,{"DELETED","NOT_FOUND"}),nullptr); return true; })); }
static void checks(Work*w,MR M,Rng&r){
  auto slabs=[M](Work*,const string&t){ LOG("%s",t.c_str()); string e=judge_slabs(M,t); if(!e.empty()) violate("memory","%s",e.c_str()); }; auto stats=[M](Work*w,const string&t){ string e=judge_stats(w,M,t); if(!e.empty()) violate("memory","%s",e.c_str()); };
  w->on_op=[=](Work*w,Op*o){ if(o->note=="slabs") slabs(w,o->resp); if(o->note=="stats") stats(w,o->resp); if(o->note.empty()&&o->kind!=X_RAW){ if(o->resp.compare(0,26,"SERVER_ERROR out of memory")==0) W->probes["refused modelled ops"]++; } };
  auto g0=w->gen; w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{
    if(!c->bin&&M->pre>0){ Op*o=w->mk(X_RAW,""); o->note="pre"; o->expect_any={"STORED","SERVER_ERROR out of memory"}; int n=1+(int)(40000/M->prelen); for(int i=0;i<n;i++){ i64 len=M->prelen/2+(i64)r.below(M->prelen); if(len>M->page-2000) len=M->page-2000; M->pre-=len+100; o->req+=strf("set q%d_%d 0 0 %lld%s\r\n",c->id,M->pren[c->id]++,(long long)len,i+1<n?" noreply":"")+string((size_t)len,'q')+"\r\n"; } return o; }
    if(c->bin) return g0?g0(w,c,idx,r):nullptr; double x=r.unit(); if(x<0.02){ Op*o=w->mk(X_RAW,""); bool s=r.chance(0.7); o->req=s?"stats slabs\r\n":"stats\r\n"; o->frame=F_MULTI; o->note=s?"slabs":"stats"; o->expect_any={"STAT "}; return o; }
    if(x<0.03){ Op*o=w->mk(X_RAW,""); o->note="cfg"; o->req=strf("config memlimit %d\r\n",(int)r.range(1,2*M->limit_mb+3)); o->expect_any={"END","CLIENT_ERROR"}; return o; }
    if(x<0.03+M->pj) return junk(w,M,r); return g0?g0(w,c,idx,r):nullptr; };
  i64 lens[]={40,300,1000,4000,12000,30000,47000,49300,100000,200000}; i64 maxlen=M->page-2000; i64 len; do len=lens[r.below(10)]; while(len>maxlen); if(!M->evict&&len<4000&&!r.chance(0.1)) len=len<1000?12000:5000; len+=(i64)r.below(200); if(r.chance(0.1)) len=std::max<i64>(1,(len/8)*8-62);
  w->on_post.push_back([=](Work*w){ auto F=std::make_shared<Fill>(); F->len=len; vector<Step> s; // clients go; what they referenced is free
    s.push_back([](Work*w){ for(auto c:w->cs) if(c->conn&&!c->conn->cli_dead){ if(c->stalled){ net_client_stall(c->conn,false); c->stalled=false; } net_client_fin(c->conn); w->lose(c,"run over"); } return false; });
    s.push_back(wait_ns(3000000000LL)); s.push_back(ask("stats slabs",F_MULTI,slabs)); s.push_back(ask("stats",F_MULTI,stats));
    F->want= M->evict? (int)std::min<i64>(w->crng.chance(0.1)?2600:len<2000?700:400,(i64)M->limit_mb*3*1048576/(len+120)+6*M->page/(len+120)+60): w->crng.chance(0.1)?3000:500;
    fill_steps(w,M,F,s,1); s.push_back(wait_ns(100000000LL)); s.push_back(ask("stats slabs",F_MULTI,slabs)); fill_steps(w,M,F,s,2);
    s.push_back(ask("stats slabs",F_MULTI,slabs)); s.push_back(ask("stats",F_MULTI,stats)); front(w,s); }); }
static MR base(Cfg&c,Work*w,Rng&r){ auto M=std::make_shared<Mem>(); Plan&p=w->p; M->evict=r.chance(0.65); M->limit_mb=r.chance(0.6)?1:(int)r.range(1,8); arg(c,"-m",strf("%d",M->limit_mb)); if(!M->evict) c.argv.push_back("-M");
  switch(r.below(6)){ case 0: case 1: case 2: M->page=262144; arg(c,"-I","256k"); break; case 3: M->page=131072; arg(c,"-I","128k"); break; case 4: M->page=524288; arg(c,"-I","512k"); break; default: break; }
  if(r.chance(0.4)){ M->sticky=true; int g=(int)r.range(1,M->limit_mb); M->sticky_lim=(i64)g<<20; arg(c,"-g",strf("%d",g)); p.exps={0,0,0,-1,-1,3,1000}; } else p.exps={0,0,0,0,2,1000};
  if(r.chance(0.2)) arg(c,"-f",r.chance(0.5)?"1.08":"2"); if(r.chance(0.2)) arg(c,"-n",strf("%d",(int)r.range(16,400)));
  load(p,r,1,5,160); p.p_noreply=r.chance(0.5)?0:0.1; p.think_ns=(i64)r.logu(2000000); p.mbr=false; p.p_reconn=0.005; p.mc.may_evict=M->evict; p.mc.may_oom=true; p.maxkeys=4; p.budget=30000; c.seg_max=40000; c.p_seg*=0.2; c.max_steps=8000000; if(c.mean_preempt>0&&c.mean_preempt<2000) c.mean_preempt=2000;
  M->jmin=r.chance(0.5)?20:1000; M->jmax=M->jmin+(i64)r.logu(std::min<i64>(M->page-2000,200000)); M->nj=(int)r.range(5,300); M->pj=r.chance(0.8)?0.3+0.5*r.unit():0; M->coll=r.chance(0.7);
  if(r.chance(0.8)){ M->pre=(i64)((M->limit_mb*1048576+5*std::max<i64>(M->page,262144))*(0.7+0.5*r.unit())); M->prelen=(i64)r.logu(r.chance(0.7)?30000:100000)+(M->evict?300:2000); if(M->limit_mb>2){ M->pre/=3; M->prelen+=2000; } }
  return M; }
static void c12_kv(Cfg&c,Work*w,Rng&r){ MR M=base(c,w,r); Plan&p=w->p; keys(p,(int)r.range(2,12)); kv_mix(p,false); p.mix.push_back({K_TOUCH,1}); p.mix.push_back({K_GETATTR,2}); p.mix.push_back({K_SETATTR,1}); p.p_bin=r.chance(0.5)?0:0.3; p.maxval=r.chance(0.5)?3000:60; p.p_big=0.3; p.bigval=(int)std::min<i64>(M->page-4000,r.chance(0.5)?45000:200000); checks(w,M,r); }
static void c12_coll(Cfg&c,Work*w,Rng&r){ MR M=base(c,w,r); Plan&p=w->p; keys(p,(int)r.range(2,6)); all_mix(p); p.mix.insert(p.mix.end(),{{K_PREPEND,1},{L_CREATE,1},{S_CREATE,1},{M_CREATE,1},{B_CREATE,1},{K_TOUCH,1}}); p.maxval=r.chance(0.5)?3000:200; p.p_big=0.3; p.bigval=15000; p.minmax=5; p.maxmax=200; 
  if(r.chance(0.7)) for(size_t i=0;i<p.keys.size();i++){ vector<std::pair<int,int>> m; int a=(int)r.below(5); int lo[]={K_GET,L_CREATE,S_CREATE,M_CREATE,B_CREATE},hi[]={K_TOUCH,L_GET,S_GET,M_GET,B_GBP}; for(auto&x:p.mix) if((x.first>=lo[a]&&x.first<=hi[a])||x.first==K_GETATTR||x.first==K_SETATTR||x.first==K_DELETE) m.push_back(x); p.keymix.push_back(m); }
  no_drop(w); checks(w,M,r); }
// clients that stop reading keep items referenced while the others fill the memory
static void c12_slow(Cfg&c,Work*w,Rng&r){ c12_kv(c,w,r); Plan&p=w->p; p.clients=(int)r.range(3,6); p.p_stall=0.1; p.close_ok=true; p.depth=1+(int)r.logu(8); c.sndbuf=(int)r.range(1000,20000); p.p_rst=r.chance(0.5)?0.02:0; p.p_noreply=0; p.p_bin=0; p.mix={{K_GET,6},{K_MGET,4},{K_SET,6},{K_DELETE,2},{K_APPEND,1},{K_INCR,1}}; }
// values too large for the small-memory allocator: an item of another class is reused in place when it expires, while clients that stopped reading still hold it
static void c12_large(Cfg&c,Work*w,Rng&r){ MR M=base(c,w,r); Plan&p=w->p; keys(p,(int)r.range(2,5)); p.clients=(int)r.range(2,6); p.ops=(int)r.range(30,120); M->pre=r.chance(0.7)?0:M->pre; M->coll=false; M->large=true; M->pj=r.chance(0.5)?0:0.2;
  p.fixval=(int)r.range(49500,std::max<i64>(52000,std::min<i64>(M->page-4000,r.chance(0.7)?120000:400000))); p.numeric=0; M->jmin=(i64)(p.fixval*0.97); M->jmax=p.fixval; M->nj=(int)r.range(3,12); p.exps=M->sticky?vector<i64>{0,1,2,3,-1}:vector<i64>{0,1,1,2,3}; p.think_ns=(i64)r.range(1,400)*1000000LL; p.p_stall=0.05+0.3*r.unit(); p.close_ok=true; p.depth=1+(int)r.logu(4);
  c.sndbuf=(int)r.range(1000,30000); p.p_rst=r.chance(0.3)?0.03:0; p.p_noreply=0; p.p_bin=r.chance(0.7)?0:0.3; p.mix={{K_GET,8},{K_MGET,2},{K_SET,8},{K_ADD,1},{K_REPLACE,1},{K_DELETE,1},{K_TOUCH,1},{K_SETATTR,1}}; p.mc.may_oom=true; checks(w,M,r); }
static const vector<PropDef> P={ {"C12",{{"kv",c12_kv,3},{"coll",c12_coll,4},{"slow",c12_slow,2},{"large",c12_large,2}}}, };
const vector<PropDef>& props_mem(){ return P; }
