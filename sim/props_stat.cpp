// C13: statistics against the counts implied by the replies the clients got.
#include "step.h"
void all_mix(Plan&);
struct Iv { i64 lo=0,hi=0; };
typedef map<string,Iv> Cnt;
struct Tally { Cnt s; map<string,Cnt> d; u64 sent=0, got=0; };
static string first(const string&t){ return t.substr(0,t.find("\r\n")); }
static bool pre(const string&t,const char*p){ return t.compare(0,strlen(p),p)==0; }
static void up(Cnt&c,const string&k,i64 n=1){ c[k].lo+=n; c[k].hi+=n; }
static void may(Cnt&c,const string&k,i64 n=1){ c[k].hi+=n; }
static const struct { int kind; const char*name; int cls; const char*dn,*dh; } COLL[]={ // cls 1 create 2 insert 3 element write 4 element read 5 membership or count 6 multi-key
 {L_CREATE,"lop_create",1,"lcs",0},{L_INSERT,"lop_insert",2,"lis","lih"},{L_DELETE,"lop_delete",3,"lds","ldh"},{L_GET,"lop_get",4,"lgs","lgh"},
 {S_CREATE,"sop_create",1,"scs",0},{S_INSERT,"sop_insert",2,"sis","sih"},{S_DELETE,"sop_delete",3,"sds","sdh"},{S_GET,"sop_get",4,"sgs","sgh"},{S_EXIST,"sop_exist",5,"ses","seh"},
 {M_CREATE,"mop_create",1,"mcs",0},{M_INSERT,"mop_insert",2,"mis","mih"},{M_UPSERT,"mop_insert",2,"mis","mih"},{M_UPDATE,"mop_update",7,"mus","muh"},{M_DELETE,"mop_delete",3,"mds","mdh"},{M_GET,"mop_get",4,"mgs","mgh"},
 {B_CREATE,"bop_create",1,"bcs",0},{B_INSERT,"bop_insert",2,"bis","bih"},{B_UPSERT,"bop_insert",2,"bis","bih"},{B_UPDATE,"bop_update",3,"bus","buh"},{B_DELETE,"bop_delete",3,"bds","bdh"},{B_INCR,"bop_incr",3,"bps","bph"},{B_DECR,"bop_decr",3,"bms","bmh"},
 {B_GET,"bop_get",4,"bgs","bgh"},{B_COUNT,"bop_count",5,"bns","bnh"},{B_POS,"bop_position",4,"pfs","pfh"},{B_PWG,"bop_pwg",4,"pgs","pgh"},{B_GBP,"bop_gbp",4,"gps","gph"},{B_MGET,"bop_mget",6,0,0},{B_SMGET,"bop_smget",6,0,0}};
static string pfx(const string&k){ string p=key_prefix(k); return p.empty()?"<null>":p; }
static void tally(Tally&T,const Op*o){
  if(o->kind==X_PIPE){ for(auto*x:o->sub) if(x->st==S_DONE) tally(T,x); else if(o->st!=S_DONE) abort(); return; }
  if(o->kind==X_RAW||o->kind==X_NOOP) return;
  bool bc=o->proto&&bin_coll(o->kind); string t=first(bc?bin_coll_text(o):o->resp); if(bc&&t=="OK"&&o->kind!=K_SETATTR) t=o->kind==L_CREATE||o->kind==S_CREATE||o->kind==B_CREATE?"CREATED":o->kind==L_DELETE||o->kind==S_DELETE?"DELETED":o->kind==B_UPDATE?"UPDATED":"STORED";
  Cnt&s=T.s; bool err=(!o->proto||bc)&&(pre(t,"CLIENT_ERROR")||pre(t,"SERVER_ERROR")||t=="ERROR");
  Obs b; if(o->kind<=K_TOUCH||o->kind==K_FLUSH) if(!o->pipe_parent) b=op_observe(o,0);
  auto D=[&](const string&k)->Cnt&{ return T.d[pfx(k)]; };
  switch(o->kind){
    case K_GET: case K_GETS: case K_MGET: case K_MGETS:
      if(o->proto){ up(s,"cmd_get"); bool h=b.st==R_HIT; if(b.st==R_HIT) up(s,"get_hits"); else if(b.st==R_MISS) up(s,"get_misses"); else { s["cmd_get"].lo--; may(s,"get_hits"); may(s,"get_misses"); may(D(o->key),"hit"); D(o->key)["get"].lo--; } up(D(o->key),"get"); if(h) up(D(o->key),"hit"); return; }
      if(err){ for(auto&k:o->keys){ may(s,"cmd_get"); may(s,"get_hits"); may(s,"get_misses"); may(D(k),"get"); may(D(k),"hit"); } return; }
      { vector<Blk2> v; parse_get_blocks(o->resp,o->kind==K_GETS||o->kind==K_MGETS,v); up(s,"cmd_get",o->keys.size()); up(s,"get_hits",v.size()); up(s,"get_misses",(i64)o->keys.size()-(i64)v.size()); for(auto&k:o->keys) up(D(k),"get"); for(auto&x:v) up(D(x.key),"hit"); return; }
    case K_SET: case K_ADD: case K_REPLACE: case K_APPEND: case K_PREPEND: case K_CAS: {
      const char*c=o->kind==K_CAS?"cmd_cas":"cmd_set"; if(o->proto) c=o->cas&&o->kind!=K_APPEND&&o->kind!=K_PREPEND?"cmd_cas":"cmd_set";
      
      if(err||b.st==R_OOM||b.st==R_TEXT){ may(s,c); may(D(o->key),"set"); if(!strcmp(c,"cmd_cas")){ may(s,"cas_hits"); may(s,"cas_badval"); may(s,"cas_misses"); } return; }
      up(s,c); up(D(o->key),"set"); if(!strcmp(c,"cmd_cas")){ if(b.st==R_STORED) up(s,"cas_hits"); else if(b.st==R_EXISTS) up(s,"cas_badval"); else if(b.st==R_NOT_FOUND||b.st==R_TYPE) up(s,"cas_misses"); } return; }
    case K_INCR: case K_DECR: { string n=o->kind==K_INCR?"incr":"decr"; up(D(o->key),o->kind==K_INCR?"inc":"dec"); if(err&&!pre(t,"CLIENT_ERROR cannot")) { may(s,"cmd_"+n); return; } if(o->proto&&b.st!=R_NUM&&b.st!=R_NOT_FOUND){ may(s,"cmd_"+n); return; } up(s,"cmd_"+n); if(b.st==R_NUM||b.st==R_NUMOK) up(s,n+"_hits"); else if(b.st==R_NOT_FOUND) up(s,n+"_misses"); return; }
    case K_DELETE: up(s,"cmd_delete"); up(D(o->key),"del"); if(o->proto? b.st==R_DELETED: t=="DELETED") up(s,"delete_hits"); else if(o->proto? b.st==R_NOT_FOUND: t=="NOT_FOUND") up(s,"delete_misses"); return;
    case K_GETATTR: case K_SETATTR: case K_TOUCH: { string n=o->kind==K_GETATTR?"getattr":"setattr"; const char*d=o->kind==K_GETATTR?"gas":"sas"; if(err){ may(s,"cmd_"+n); may(D(o->key),d); return; } up(s,"cmd_"+n); if(pre(t,"ATTR_ERROR")) may(D(o->key),d); else up(D(o->key),d); if(pre(t,"ATTR ")||t=="OK"||t=="TOUCHED"||t=="END") up(s,n+"_hits"); else if(t=="NOT_FOUND") up(s,n+"_misses"); return; }
    case K_FLUSH: up(s,"cmd_flush"); return;
    case K_FLUSHPFX: up(s,"cmd_flush_prefix"); return;
    default: break; }
  for(auto&x:COLL) if(x.kind==o->kind){ string n=x.name; string cmd="cmd_"+n; 
    if(err){ may(s,cmd); if(x.dn) may(D(o->key),x.dn); return; }
    up(s,cmd); if(x.dn) up(D(o->key),x.dn);
    bool nf=t=="NOT_FOUND", ne=t=="NOT_FOUND_ELEMENT", un=t=="UNREADABLE", val=pre(t,"VALUE ");
    auto hit=[&]{ if(x.dh) up(D(o->key),x.dh); };
    switch(x.cls){
      case 1: if(t=="CREATED") up(s,n+"_oks"); break;
      case 2: if(t=="STORED"||t=="CREATED_STORED"||t=="REPLACED"||val){ up(s,n+"_hits"); hit(); } else if(nf) up(s,n+"_misses"); break;
      case 3: case 7: if(pre(t,"DELETED")||t=="UPDATED"||(t.size()&&t[0]>='0'&&t[0]<='9')){ up(s,n+"_elem_hits"); hit(); } else if(ne){ up(s,n+"_none_hits"); if(x.cls==3) hit(); } else if(nf) up(s,n+"_misses"); break;
      case 4: if(val||pre(t,"POSITION=")){ up(s,n+"_elem_hits"); hit(); } else if(ne){ up(s,n+"_none_hits"); hit(); } else if(nf||un||(t=="OUT_OF_RANGE"&&o->kind==B_GET)) up(s,n+"_misses"); break;
      case 5: if(t=="EXIST"||t=="NOT_EXIST"||pre(t,"COUNT=")){ up(s,n+"_hits"); hit(); } else if(nf||un) up(s,n+"_misses"); break;
      case 6: if(o->kind==B_MGET){ for(size_t i=0;i<o->keys.size();i++){ if(!val) break; Obs e=op_observe(o,(int)i); string h=first(e.text).substr(7+o->keys[i].size()); up(s,"cmd_bop_get"); up(D(o->keys[i]),"bgs"); if(pre(h,"OK")||pre(h,"TRIMMED")){ up(s,"bop_get_elem_hits"); up(D(o->keys[i]),"bgh"); } else if(h=="NOT_FOUND_ELEMENT"){ up(s,"bop_get_none_hits"); up(D(o->keys[i]),"bgh"); } else if(h=="NOT_FOUND"||h=="UNREADABLE"||h=="OUT_OF_RANGE") up(s,"bop_get_misses"); } }
        if(val||pre(t,"ELEMENTS")||pre(t,"MISSED_KEYS")||t=="END") up(s,n+"_oks"); break; }
    return; } }
// with detailed statistics on, flush_prefix drops what was counted for the prefix so far
struct Fl { string p; i64 inv,ret; bool ok; };
static vector<Fl> flushes(Work*w,size_t from){ vector<Fl> v; for(size_t i=from;i<w->H_.ops.size();i++){ Op*o=w->H_.ops[i]; if(o->kind==K_FLUSHPFX&&o->st==S_DONE){ Obs b=op_observe(o,0); v.push_back({o->key,(i64)o->inv,(i64)o->ret,b.st==R_OK||b.text=="OK\r\n"}); } } return v; }
static void join(Tally&T,const Tally&t,const Op*o,const vector<Fl>&fl){ for(auto&x:t.s){ T.s[x.first].lo+=x.second.lo; T.s[x.first].hi+=x.second.hi; }
  for(auto&x:t.d){ bool gone=false,maybe=false; for(auto&f:fl) if(f.p==x.first){ if((i64)o->ret<f.inv) gone=true; else if((i64)o->inv<f.ret) maybe=true; } if(gone) continue; auto&d=T.d[x.first]; for(auto&y:x.second){ if(!maybe) d[y.first].lo+=y.second.lo; d[y.first].hi+=y.second.hi; } } }
static Tally tally_all(Work*w,size_t from,bool detail=false){ Tally T; auto fl=detail?flushes(w,from):vector<Fl>(); for(size_t i=0;i<w->H_.ops.size();i++){ Op*o=w->H_.ops[i]; T.sent+=o->req.size(); if(o->st==S_DONE) T.got+=o->resp.size(); if(i<from||o->st!=S_DONE) continue; Tally t; tally(t,o); join(T,t,o,fl);
  for(auto&x:t.d){ bool any=false; for(auto&y:x.second) if(y.second.lo>0) any=true; if(any) for(auto&f:fl) if(!f.ok&&f.p==x.first&&f.inv>(i64)o->ret){ bool other=false; for(auto&g:fl) if(&g!=&f&&g.p==f.p&&g.ret>(i64)o->inv&&g.inv<f.ret) other=true; if(!other){ violate("stats","flush_prefix %s answered that nothing is known of the prefix, although its statistics had been kept",f.p.c_str()); return T; } } } } return T; }
static const char* EXTRA[]={"cmd_get","cmd_set","cmd_incr","cmd_decr","cmd_delete","cmd_cas","cmd_flush","cmd_flush_prefix","cmd_getattr","cmd_setattr","get_hits","get_misses","incr_hits","incr_misses","decr_hits","decr_misses","delete_hits","delete_misses","cas_hits","cas_badval","cas_misses","getattr_hits","getattr_misses","setattr_hits","setattr_misses"};
static vector<string> names(){ vector<string> v(EXTRA,EXTRA+sizeof EXTRA/sizeof*EXTRA); for(auto&x:COLL){ string n=x.name; if(x.kind==M_UPSERT||x.kind==B_UPSERT) continue; v.push_back("cmd_"+n); vector<string> suf; switch(x.cls){ case 1: case 6: suf={"_oks"}; break; case 2: case 5: suf={"_hits","_misses"}; break; default: suf={"_elem_hits","_none_hits","_misses"}; } for(auto&q:suf) v.push_back(n+q); } return v; }
struct StatRun { size_t from=0; bool detail=false; int cur=0; i64 tot0=-1; bool pf=false; };
static bool clean(Work*w){ for(Op*o:w->H_.ops) if(o->st==S_LOST||o->st==S_SENT) return false; return true; }
static void check_counters(Work*w,std::shared_ptr<StatRun> R,const string&r){
  auto m=parse_stats(r); Tally T=tally_all(w,R->from); LOG("%s",r.c_str());
  for(auto&n:names()){ i64 v=num(m,n.c_str()); if(v<0){ violate("stats","stats does not report %s",n.c_str()); return; } Iv e=T.s.count(n)?T.s[n]:Iv(); if(v<e.lo||v>e.hi){ violate("stats","stats reports %s %lld, the replies imply %lld%s",n.c_str(),(long long)v,(long long)e.lo,e.hi>e.lo?strf("..%lld",(long long)e.hi).c_str():""); return; } }
  i64 br=num(m,"bytes_read"), bw=num(m,"bytes_written");
  if(R->from==0){ if(br!=(i64)T.sent) violate("stats","stats reports bytes_read %lld, the clients sent %llu bytes",(long long)br,(unsigned long long)T.sent); else if(bw!=(i64)(T.got-r.size())) violate("stats","stats reports bytes_written %lld, the clients received %llu bytes",(long long)bw,(unsigned long long)(T.got-r.size())); }
  int live=1; for(auto c:w->cs) if(c->conn&&!c->conn->cli_dead) live++;
  if(num(m,"curr_connections")!=live) violate("stats","stats reports curr_connections %lld, %d clients are connected",(long long)num(m,"curr_connections"),live);
  else if(R->from==0&&num(m,"total_connections")!=w->nconn+1) violate("stats","stats reports total_connections %lld, the clients made %d",(long long)num(m,"total_connections")-1,w->nconn);
}
static map<string,map<string,i64>> parse_prefix(const string&r){ map<string,map<string,i64>> o; size_t p=0; while(p<r.size()){ size_t e=r.find("\r\n",p); if(e==string::npos) break; string l=r.substr(p,e-p); p=e+2; if(l.compare(0,7,"PREFIX ")) continue; size_t q=l.find(' ',7); string n=l.substr(7,q-7); auto&m=o[n]; size_t i=q; while(i<l.size()){ size_t a=l.find(' ',i+1); if(a==string::npos) break; size_t b2=l.find(' ',a+1); if(b2==string::npos) b2=l.size(); m[l.substr(i+1,a-i-1)]=strtoll(l.c_str()+a+1,0,10); i=b2; } } return o; }
static void check_detail(Work*w,std::shared_ptr<StatRun> R,const string&r){
  auto P=parse_prefix(r); Tally T=tally_all(w,R->from,true); auto fl=flushes(w,R->from); if(!fl.empty()) probe("prefix flushes with detailed statistics"); LOG("%s",r.c_str()); vector<string> f={"get","hit","set","del","inc","dec","gas","sas"}; for(auto&x:COLL){ if(x.dn) f.push_back(x.dn); if(x.dh) f.push_back(x.dh); }
  for(auto&x:T.d){ bool any=false; for(auto&y:x.second) if(y.second.lo>0) any=true; if(any&&!P.count(x.first)){ violate("stats","stats detail dump has no line for prefix %s",x.first.c_str()); return; } }
  for(auto&x:P){ if(!T.d.count(x.first)){ violate("stats","stats detail dump has a line for prefix %s, which no command used",x.first.c_str()); return; } Cnt&c=T.d[x.first]; for(auto&n:f){ auto i=x.second.find(n); if(i==x.second.end()){ violate("stats","stats detail dump lacks %s",n.c_str()); return; } Iv e=c.count(n)?c[n]:Iv(); if(i->second<e.lo||i->second>e.hi){ violate("stats","stats detail of prefix %s reports %s %lld, the replies imply %lld%s",x.first.c_str(),n.c_str(),(long long)i->second,(long long)e.lo,e.hi>e.lo?strf("..%lld",(long long)e.hi).c_str():""); return; } } } }
struct Inv { map<string,map<string,i64>> n; i64 total=0, bytes=0; bool collok=true; };
static void stat_steps(Work*w,std::shared_ptr<StatRun> R,bool last){
  vector<Step> s; auto I=std::make_shared<Inv>();
  s.push_back(wait_ns(last?4000000000LL:2000000000LL));
  for(auto k:w->p.keys) s.push_back([k,I](Work*w){ Op*o=w->mk(K_GETATTR,k); o->attrs={{"type",""}}; static u32 n; o->id=7000000+(n++)%900000; w->ctl_op(o,[k,I](Op*o){ string t=first(o->resp); if(!pre(t,"ATTR type=")) return; string ty=t.substr(10); const char*f= ty=="kv"?"kitm":ty=="list"?"litm":ty=="set"?"sitm":ty=="map"?"mitm":"bitm"; I->total++; auto&m=I->n[pfx(k)]; m["itm"]++; m[f]++; }); return true; });
  s.push_back(ask("stats",F_MULTI,[R,I](Work*w,const string&r){ if(!clean(w)) return; check_counters(w,R,r); auto m=parse_stats(r); I->bytes=num(m,"bytes"); if(num(m,"curr_items")!=I->total) violate("stats","stats reports curr_items %lld, %lld keys exist",(long long)num(m,"curr_items"),(long long)I->total); }));
  s.push_back(ask("stats items",F_MULTI,[I](Work*w,const string&r){ (void)w; i64 n=0; for(auto&x:parse_stats(r)) if(x.first.find(":number")!=string::npos||x.first.find(":sticky")!=string::npos) n+=strtoll(x.second.c_str(),0,10); LOG("%s",r.c_str()); if(n!=I->total) violate("stats","stats items counts %lld items, %lld keys exist",(long long)n,(long long)I->total); }));
  s.push_back(ask("stats prefixes",F_MULTI,[I](Work*w,const string&r){ (void)w; auto P=parse_prefix(r); LOG("%s",r.c_str()); i64 tsz=0; const char*f[]={"itm","kitm","litm","sitm","mitm","bitm"}; const char*z[]={"ktsz","ltsz","stsz","mtsz","btsz"};
    for(auto&x:P){ i64 sum=0; for(auto q:z) sum+=x.second[q]; tsz+=x.second["tsz"]; if(sum!=x.second["tsz"]) { violate("stats","stats prefixes: tsz %lld of %s is not the sum over the types, %lld",(long long)x.second["tsz"],x.first.c_str(),(long long)sum); return; } for(auto q:f){ i64 e=I->n.count(x.first)?I->n[x.first][q]:0; if(x.second[q]!=e){ violate("stats","stats prefixes reports %s %lld for prefix %s, the keys that exist imply %lld",q,(long long)x.second[q],x.first.c_str(),(long long)e); return; } if(q!=f[0]&&(x.second[q]==0)!=(x.second[string(1,q[0])+"tsz"]==0)){ violate("stats","stats prefixes: %s %lld but %ctsz %lld",q,(long long)x.second[q],q[0],(long long)x.second[string(1,q[0])+"tsz"]); return; } } }
    for(auto&x:I->n) if(!P.count(x.first)){ violate("stats","stats prefixes has no line for prefix %s, which has %lld items",x.first.c_str(),(long long)x.second["itm"]); return; }
    if(tsz!=I->bytes) violate("stats","the sizes reported by stats prefixes add up to %lld, stats reports bytes %lld",(long long)tsz,(long long)I->bytes); }));
  if(R->detail) s.push_back(ask("stats detail dump",F_MULTI,[R](Work*w,const string&r){ if(clean(w)) check_detail(w,R,r); }));
  front(w,s); }
static void c13_all(Cfg&c,Work*w,Rng&r,bool bin){
  Plan&p=w->p; const char*k[]={"k0","a:1","a:2","b:1","a:b:1","k1"}; for(int i=0;i<6;i++) if(r.chance(0.5)) p.keys.push_back(k[i]); if(p.keys.empty()) p.keys={"a:1","k0"};
  load(p,r,2,7,110); p.p_noreply=0; p.p_quiet=0; p.p_reconn=0; p.prefixes={"a","b","<null>","zz"}; p.mbr=r.chance(0.2); p.nelem=8; p.check_lin=false; p.audit=false;
  auto R=std::make_shared<StatRun>(); R->detail=r.chance(0.6);
  if(bin&&r.chance(0.4)){ all_mix(p); p.mix.insert(p.mix.end(),{{L_CREATE,1},{S_CREATE,1},{B_CREATE,1},{L_GET,3},{S_GET,3},{S_EXIST,3},{B_UPDATE,2}}); p.p_bin=0.7; p.bincoll=true; }
  else if(bin){ kv_mix(p,true); p.p_bin=0.6; p.numeric=r.chance(0.5)?50:0; }
  else { all_mix(p); p.mix.insert(p.mix.end(),{{K_PREPEND,1},{K_DECR,2},{L_CREATE,1},{S_CREATE,1},{M_CREATE,1},{M_UPSERT,1},{B_CREATE,1},{B_DECR,1},{K_TOUCH,1}}); if(r.chance(0.5)) for(auto&x:p.mix) if(x.first==X_PIPE) x.second=0; p.numeric=r.chance(0.4)?30:0; if(r.chance(0.4)){ for(size_t i=0;i<p.keys.size();i++){ vector<std::pair<int,int>> m; int a=(int)r.below(5); int lo[]={K_GET,L_CREATE,S_CREATE,M_CREATE,B_CREATE},hi[]={K_TOUCH,L_GET,S_GET,M_GET,B_GBP}; for(auto&x:p.mix) if((x.first>=lo[a]&&x.first<=hi[a])||x.first==K_GETATTR||x.first==K_SETATTR||x.first==K_DELETE) m.push_back(x); p.keymix.push_back(m); } } }
  if(r.chance(0.5)) p.mix.push_back({K_FLUSH,1}); if(r.chance(0.5)) p.mix.push_back({K_FLUSHPFX,2});
  if(r.chance(0.4)) seg(c,r);
  if(r.chance(0.3)){ p.maxval=2500; p.p_big=0.05; p.bigval=40000; p.ops=std::min(p.ops,30); }
  if(R->detail) c.argv.insert(c.argv.end(),{"-D",":"});
  bool reset=r.chance(0.4);
  w->on_post.push_back([R,reset](Work*w){ vector<Step> s;
    s.push_back([R](Work*w){ stat_steps(w,R,false); return false; });
    if(reset) s.push_back(ask("stats reset",F_LINE,[R](Work*w,const string&){ R->from=w->H_.ops.size(); },{"RESET"}));
    if(reset) s.push_back([R](Work*w){ if(R->detail) return false; stat_steps(w,R,false); return false; });
    for(auto k:w->p.keys) s.push_back([k](Work*w){ Op*o=w->mk(K_DELETE,k); static u32 n; o->id=7900000+(n++)%90000; w->ctl_op(o); return true; });
    s.push_back([R](Work*w){ if(R->from) R->detail=false; stat_steps(w,R,true); return false; });
    s.push_back(ask("stats",F_MULTI,[](Work*w,const string&r){ (void)w; auto m=parse_stats(r); if(num(m,"curr_items")!=0||num(m,"bytes")!=0) violate("stats","curr_items %lld and bytes %lld are left after every key was deleted",(long long)num(m,"curr_items"),(long long)num(m,"bytes")); }));
    s.push_back(ask("stats prefixes",F_MULTI,[](Work*w,const string&r){ (void)w; if(r.find("PREFIX")!=string::npos) violate("stats","prefixes are left after every key was deleted: %s",r.c_str()); }));
    front(w,s); }); }
static void c13_mixed(Cfg&c,Work*w,Rng&r){ c13_all(c,w,r,false); }
// elements that are being sent to one client while others replace or remove them
static void c13_refs(Cfg&c,Work*w,Rng&r){ c13_all(c,w,r,false); Plan&p=w->p; p.keys.resize(std::min<size_t>(p.keys.size(),2)); p.maxval=r.chance(0.5)?3000:300; p.p_big=0.2; p.bigval=14000; c.sndbuf=(int)r.range(200,3000); p.p_stall=r.chance(0.6)?0.1:0; p.nfields=(int)r.range(1,5); p.nbk=(int)r.range(2,10); p.ops=std::min(p.ops,25); p.p_create=0.8; p.think_ns=(i64)r.logu(300000); p.keymix.clear();
  vector<vector<std::pair<int,int>>> t={{{L_INSERT,8},{L_GET,6},{L_DELETE,3}},{{S_INSERT,8},{S_GET,6},{S_DELETE,4}},{{M_INSERT,5},{M_UPSERT,6},{M_UPDATE,6},{M_GET,8},{M_DELETE,2}},{{B_INSERT,6},{B_UPSERT,6},{B_UPDATE,5},{B_GET,7},{B_MGET,2},{B_DELETE,2},{B_GBP,2},{B_SMGET,1}},{{K_SET,6},{K_GET,6},{K_APPEND,3},{K_MGET,2},{K_DELETE,2}}}; for(size_t i=0;i<p.keys.size();i++){ auto m=t[r.below(5)]; m.push_back({K_DELETE,1}); m.push_back({K_GETATTR,1}); p.keymix.push_back(m); } }
static void c13_kv(Cfg&c,Work*w,Rng&r){ c13_all(c,w,r,true); }
static const vector<PropDef> P={
 {"C13",{{"mixed",c13_mixed,3},{"kv",c13_kv,2},{"refs",c13_refs,2}}},
};
const vector<PropDef>& props_stat(){ return P; }
