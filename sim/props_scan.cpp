// C14: cursor scans of keys and prefixes against what the history says was there, while the hash table grows.
#include "step.h"
struct Scan { bool dump=false, stop=false; int no=0; int client=0; bool pfx=false; string pat; char type='A'; int count=0; string cursor="0"; u64 s=0,e=0; i64 st=0,et=0; bool open=true, busy=false, complete=false, quiet=false; int pages=0; vector<std::pair<string,string>> got; /* name, rest of the line */ };
struct ScanRun { vector<std::shared_ptr<Scan>> all; map<int,std::shared_ptr<Scan>> cur; map<u32,std::shared_ptr<Scan>> byop; int page_limit=100000; double often=0.3; };
typedef std::shared_ptr<ScanRun> SR;
// glob match written from the documentation: * any string, ? any character, backslash quotes the next
static bool glob(const char*p,const char*pe,const char*s,const char*se){ while(p<pe){ if(*p=='*'){ for(const char*q=s;q<=se;q++) if(glob(p+1,pe,q,se)) return true; return false; } if(s==se) return false; if(*p=='?'){ p++; s++; continue; } if(*p=='\\') p++; if(*p!=*s) return false; p++; s++; } return s==se; }
static bool glob(const string&p,const string&s){ return glob(p.data(),p.data()+p.size(),s.data(),s.data()+s.size()); }
static string page_req(const Scan&s){ string r=s.pfx?"scan prefix ":"scan key "; r+=s.cursor; vector<string> o; if(s.count) o.push_back(strf(" count %d",s.count)); if(!s.pat.empty()) o.push_back(" match "+s.pat); if(!s.pfx&&s.type!='A') o.push_back(strf(" type %c",s.type)); if(s.pages%2) std::reverse(o.begin(),o.end()); for(auto&x:o) r+=x; return r+"\r\n"; }
static string some_pattern(Work*w,Rng&r){ const string&k=w->p.keys[r.below(w->p.keys.size())]; switch(r.below(9)){ case 0: return "*"; case 1: return k; case 2: { string t=k; t[r.below(t.size())]='?'; return t; } case 3: return k.substr(0,1+r.below(k.size()))+"*"; case 4: return "*"+k.substr(r.below(k.size())); case 5: { size_t a=r.below(k.size()); return k.substr(0,a)+"*"+k.substr(a+1+r.below(k.size()-a)); } case 6: return "*"+k.substr(r.below(k.size()),1)+"*"+k.substr(k.size()-1)+"*"; case 7: return "**?"; default: { string t; for(char c:k){ if(c=='*'||c=='?'||c=='\\') t+='\\'; t+=c; } return t; } } }
static bool valid(const string&p){ int st=0; if(p.empty()||p.size()>64) return false; for(size_t i=0;i<p.size();i++){ if(p[i]=='\\'){ if(i+1==p.size()||!strchr("*?\\",p[i+1])) return false; i++; } else if(p[i]=='*'&&++st>4) return false; } return true; }
static void open_scan(Work*w,Scan&s,Rng&r){ s.pfx=r.chance(0.3); if(r.chance(0.3)){ s.pat=s.pfx&&r.chance(0.7)?string(r.chance(0.5)?"p?":r.chance(0.5)?"<null>":"*"):some_pattern(w,r); if(!valid(s.pat)) s.pat.clear(); } if(!s.pfx&&r.chance(0.3)) s.type="KLSMB"[r.below(5)]; int hp=(int)W->cfg.knob("hash_power",16); if(hp>10||(s.pfx&&W->cfg.knob("prefix_hash_power",10)>5)) s.count=(int)r.range(150,2000); else s.count=r.chance(0.1)?0:r.chance(0.3)?1:(int)r.logu(r.chance(0.1)?2000:30); }
static Op* page(Work*w,SR R,std::shared_ptr<Scan> s){ Op*o=w->mk(X_RAW,""); o->req=page_req(*s); o->frame=F_MULTI; o->note="scan"; o->expect_any={s->pfx?"PREFIXES ":"KEYS "}; s->busy=true; (void)R; return o; }
// one page of a scan has been answered
static void took(Work*w,SR R,std::shared_ptr<Scan> s,const string&t,const string&what){ s->busy=false; s->pages++; int n=0; char cur[40]=""; size_t p=t.find("\r\n"); if(sscanf(t.c_str(),s->pfx?"PREFIXES %d %39s":"KEYS %d %39s",&n,cur)!=2){ violate("protocol","unreadable scan header: %s",what.c_str()); return; } p+=2; int lines=0;
  while(p<t.size()){ size_t e=t.find("\r\n",p); string l=t.substr(p,e-p); p=e+2; if(l=="END"&&p==t.size()) break; size_t b=l.find(' '); if(b==string::npos){ violate("protocol","unreadable scan line \"%s\": %s",esc(l).c_str(),what.c_str()); return; } s->got.push_back({l.substr(0,b),l.substr(b+1)}); lines++; }
  if(lines!=n){ violate("scan","a scan page announces %d entries and carries %d: %s",n,lines,what.c_str()); return; }
  s->cursor=cur; if(s->cursor=="0"){ s->open=false; s->complete=true; s->e=w->evs; s->et=W->now; } else if(s->pages>R->page_limit) violate("scan","a scan has not ended after %d pages: %s",s->pages,what.c_str()); }
static int otype(const Op*o){ if(o->kind>=K_SET&&o->kind<=K_PREPEND) return T_KV; if(o->kind==K_CAS||o->kind==K_INCR||o->kind==K_DECR) return T_KV; if(o->kind>=L_CREATE&&o->kind<=L_GET) return T_LIST; if(o->kind>=S_CREATE&&o->kind<=S_GET) return T_SET; if(o->kind>=M_CREATE&&o->kind<=M_GET) return T_MAP; return T_BTREE; }
static bool creates(const Op*o){ switch(o->kind){ case K_SET: case K_ADD: case L_CREATE: case S_CREATE: case M_CREATE: case B_CREATE: return true; case K_INCR: case K_DECR: case L_INSERT: case S_INSERT: case M_INSERT: case M_UPSERT: case B_INSERT: case B_UPSERT: return o->create; default: return false; } }
static bool removes(const Op*o){ switch(o->kind){ case K_DELETE: case K_FLUSH: case K_FLUSHPFX: return true; case L_DELETE: case L_GET: case S_DELETE: case S_GET: case M_DELETE: case M_GET: case B_DELETE: case B_GET: return o->dd==2; default: return false; } }
// may the item vanish later because of an expiration time this operation gave?
static bool expires(const Op*o){ if(o->kind==K_SETATTR){ for(auto&a:o->attrs) if(a.first=="expiretime"&&a.second!="0"&&a.second!="-1") return true; return false; } if(o->kind==K_TOUCH) return o->exp!=0&&o->exp!=-1; if(o->kind>=K_SET&&o->kind<=K_DECR) return o->exp!=0&&o->exp!=-1; if(creates(o)) return o->attr.exp!=0&&o->attr.exp!=-1; return false; }
static bool ok_reply(const Op*o,const char*a){ return o->st==S_DONE&&o->resp.compare(0,strlen(a),a)==0; }
static bool shows_present(const Op*o){ if(o->proto) return false; return ok_reply(o,"STORED")||ok_reply(o,"CREATED")||ok_reply(o,"EXISTS")||ok_reply(o,"DUPLICATED")||ok_reply(o,"REPLACED")||ok_reply(o,"ELEMENT_EXISTS"); }
struct Ev { const Op*op; u64 inv,ret; };
struct KeyHist { vector<Ev> ev; int types=0; };
static void history(Work*w,map<string,KeyHist>&K,vector<Ev>&flush){ for(Op*o:w->H_.ops){ if(o->kind==X_RAW||o->kind==X_NOOP||o->st==S_NEW) continue; auto add=[&](Op*x){ Ev e{x,x->inv?x->inv:o->inv,o->st==S_DONE||o->st==S_IMPLIED?(o->ret):~0ULL}; if(x->kind==K_FLUSH||x->kind==K_FLUSHPFX) flush.push_back(e); else if(x->keys.empty()) K[x->key].ev.push_back(e); }; if(o->kind==X_PIPE){ for(auto x:o->sub) add(x); } else add(o); } }
// 1 certainly there during all of [s,e], -1 certainly not there at any time of it, 0 cannot tell
static int presence(const KeyHist&h,const vector<Ev>&flush,u64 s,u64 e,int&types){
  types=0; bool was=false; const Ev*A=nullptr; for(auto&x:h.ev) if(x.ret<=s&&shows_present(x.op)&&(!A||x.inv>A->inv)) A=&x;
  if(A){ was=true; for(auto&x:h.ev) if((removes(x.op)||expires(x.op))&&x.inv<=e&&(x.ret>=A->inv||expires(x.op))) was=false; for(auto&x:flush) if(x.inv<=e) was=false; if(was){ types=1<<otype(A->op); return 1; } }
  const Ev*D=nullptr; bool never=true; for(auto&x:h.ev) if(x.ret<=s&&x.op->kind==K_DELETE&&(ok_reply(x.op,"DELETED")||ok_reply(x.op,"NOT_FOUND"))&&!x.op->proto&&(!D||x.inv>D->inv)) D=&x;
  for(auto&x:h.ev) if(creates(x.op)&&x.inv<=e&&x.op->st!=S_NEW){ types|=1<<otype(x.op); if(!D||x.ret>=D->inv) never=false; }
  return never?-1:0; }
static const char TCH[]="?KLSMB";
static string key_pre(const string&k){ string p=key_prefix(k); return p.empty()?"<null>":p; }
// key dumps: the file is complete once the report says so; nobody starts a second one in between
struct Dumps { std::shared_ptr<Scan> cur; int n=0; double often=0.05; bool faults=false; bool asked=false; };
typedef std::shared_ptr<Dumps> DP;
static Op* dump_op(Work*w,SR R,DP D,int client,Rng&r,bool quiet){ Op*o=w->mk(X_RAW,""); if(!D->cur){ auto s=std::make_shared<Scan>(); s->dump=true; s->no=D->n++; s->client=client; s->quiet=quiet; if(r.chance(0.4)) s->pat=r.chance(0.3)?string("<null>"):key_pre(w->p.keys[r.below(w->p.keys.size())]); s->s=w->evs++; s->st=W->now; R->all.push_back(s); D->cur=s; D->asked=false; o->req=strf("dump start key %s/sim/dump%d\r\n",s->pat.empty()?"":(s->pat+" ").c_str(),s->no); o->frame=F_LINE; o->note="dump:start"; o->count=s->no; o->expect_any={"OK"}; if(D->faults) o->expect_any.push_back("SERVER_ERROR failed"); return o; }
  if(!quiet&&r.chance(0.02)){ D->cur->stop=true; o->req="dump stop\r\n"; o->frame=F_LINE; o->expect_any={"OK"}; return o; }
  o->req="stats dump\r\n"; o->frame=F_MULTI; o->note="dump:stats"; o->count=D->cur->no; o->expect_any={"STAT "}; return o; }
static void dump_reply(Work*w,DP D,Op*o){ auto s=D->cur; if(!s||o->count!=s->no) return; if(o->note=="dump:start"){ if(o->resp.compare(0,2,"OK")){ s->open=false; D->cur=nullptr; } else D->asked=true; return; }
  if(!D->asked||o->resp.find("dumper:status stopped")==string::npos) return; if(o->resp.find(strf("dumper:filepath /sim/dump%d\r\n",s->no))==string::npos) return; D->cur=nullptr; s->open=false; s->e=w->evs++; s->et=W->now; bool good=o->resp.find("dumper:success true")!=string::npos; if(!good&&!s->stop&&!D->faults){ violate("scan","a key dump failed: %s",esc(o->resp,400).c_str()); return; } s->complete=good; probe(good?"complete key dumps":"failed key dumps");
  string t=disk_read_file(strf("/sim/dump%d",s->no)); size_t p=0; u64 n=0; bool sum=false; while(p<t.size()){ size_t e=t.find('\n',p); if(e==string::npos){ if(good) violate("scan","a complete key dump ends within a line"); break; } string l=t.substr(p,e-p); p=e+1; if(l.compare(0,12,"DUMP SUMMARY")==0){ sum=true; string want="DUMP SUMMARY: { prefix="+(s->pat.empty()?string("<all>"):s->pat)+strf(", count=%llu, elapsed=",(unsigned long long)n); if(good&&(l.compare(0,want.size(),want)||p<t.size())) violate("scan","the key dump ends \"%s\" after %llu keys",esc(l).c_str(),(unsigned long long)n); continue; }
    size_t a=l.find(' '), b=l.rfind(' '); if(a!=1||b<=a){ if(good) violate("scan","unreadable line in a key dump: \"%s\"",esc(l).c_str()); break; } s->got.push_back({l.substr(2,b-2),l.substr(0,1)+l.substr(b)}); n++; W->probes["keys dumped"]++; } if(good&&!sum) violate("scan","a complete key dump has no summary"); string st=strf("dumper:dumped %llu\r\n",(unsigned long long)n); if(good&&o->resp.find(st)==string::npos) violate("scan","%llu keys are in the dump: %s",(unsigned long long)n,esc(o->resp,400).c_str()); }
static string check_scans(Work*w,SR R){
  map<string,KeyHist> K; vector<Ev> flush; history(w,K,flush); set<string> known(w->p.keys.begin(),w->p.keys.end());
  for(auto&sp:R->all){ Scan&s=*sp; u64 e=s.complete?s.e:w->evs; probe(s.complete?"complete scans":"unfinished scans"); if(s.complete) W->probes["scan pages"]+=s.pages; string id=s.dump?strf("key dump %d%s%s",s.no,s.pat.empty()?"":" of prefix ",s.pat.c_str()):strf("scan of client %d, %s%s, %d pages",s.client,page_req(s).substr(0,page_req(s).size()-2).c_str(),s.quiet?" (no other client active)":"",s.pages);
    map<string,int> seen; for(auto&g:s.got) seen[g.first]++;
    if(s.quiet) for(auto&x:seen) if(x.second>1) return "scan::"+id+": "+x.first+strf(" is reported %d times although nothing changes",x.second);
    if(!s.pfx){
      for(auto&g:s.got){ if(!known.count(g.first)) return "scan::"+id+": reports the key \""+esc(g.first)+"\", which was never stored"; int ty=0; int pr=presence(K[g.first],flush,s.s,e,ty); if(pr<0) return "scan::"+id+": reports the key "+g.first+", which did not exist at any time of the scan"; char c=g.second.empty()?'?':g.second[0]; const char*q=strchr(TCH,c); int t=q&&c!='?'?(int)(q-TCH):0; if(!t||!(ty>>t&1)) return "scan::"+id+": reports the key "+g.first+" with type "+c+", which it did not have"; if(s.dump){ if(key_pre(g.first)!=s.pat&&!s.pat.empty()) return "scan::"+id+": reports the key "+g.first; if(pr==1&&g.second!=string(1,c)+" 0"&&g.second!=string(1,c)+" -1") return "scan::"+id+": reports the key "+g.first+" as \""+g.second+"\", it never expires"; if(pr==1&&seen[g.first]>1) return "scan::"+id+": reports the key "+g.first+strf(", which existed during all of it, %d times",seen[g.first]); continue; } if(s.type!='A'&&c!=s.type) return "scan::"+id+": reports the key "+g.first+" of type "+c; if(!s.pat.empty()&&!glob(s.pat,g.first)) return "scan::"+id+": reports the key "+g.first+", which does not match"; }
      if(s.complete) for(auto&k:known){ if(seen.count(k)||(s.dump?!s.pat.empty()&&key_pre(k)!=s.pat:!s.pat.empty()&&!glob(s.pat,k))) continue; int ty=0; if(presence(K[k],flush,s.s,e,ty)==1&&(s.type=='A'||(strchr(TCH,s.type)&&(ty>>(strchr(TCH,s.type)-TCH)&1)))) return "scan::"+id+": does not report the key "+k+", which existed during all of it"; else if(presence(K[k],flush,s.s,e,ty)==1) probe("stable keys of another type"); }
      if(s.complete){ u64 n=0; int ty; for(auto&k:known) if(seen.count(k)&&presence(K[k],flush,s.s,e,ty)==1) n++; W->probes["stable keys reported"]+=n; }
    } else {
      map<string,int> must, may; for(auto&k:known){ string p=key_prefix(k); if(p.empty()) p="<null>"; int ty; int pr=presence(K[k],flush,s.s,e,ty); if(pr==1) must[p]++; if(pr>=0) may[p]++; }
      auto match=[&](const string&n){ return s.pat.empty()||glob(s.pat,n=="<null>"?string(""):n)||glob(s.pat,n); };
      for(auto&g:s.got){ if(!may.count(g.first)) return "scan::"+id+": reports the prefix \""+esc(g.first)+"\", which had no item at any time of the scan"; if(!match(g.first)) return "scan::"+id+": reports the prefix "+g.first+", which does not match"; unsigned long long n=0,b=0,d=0; if(sscanf(g.second.c_str(),"%llu %llu %llu",&n,&b,&d)!=3) return "scan::"+id+": unreadable line for prefix "+g.first+": "+g.second; if((int)n>may[g.first]) return strf("scan::%s: prefix %s has %llu items, at most %d keys exist",id.c_str(),g.first.c_str(),n,may[g.first]); if((int)n<must[g.first]) return strf("scan::%s: prefix %s has %llu items, at least %d keys exist",id.c_str(),g.first.c_str(),n,must[g.first]); }
      if(s.complete) for(auto&m:must) if(m.second&&!seen.count(m.first)&&(s.pat.empty()||(glob(s.pat,m.first)&&m.first!="<null>"))) return "scan::"+id+": does not report the prefix "+m.first+", which had an item during all of it"; }
  }
  return ""; }
static std::shared_ptr<Scan> next_scan(Work*w,SR R,int client,Rng&r){ auto s=std::make_shared<Scan>(); s->client=client; open_scan(w,*s,r); s->s=w->evs; s->st=W->now; w->evs++; R->all.push_back(s); R->cur[client]=s; return s; }
static void scans(Work*w,SR R){
  auto g0=w->gen; w->gen=[R,g0](Work*w,CS*c,int idx,Rng&r)->Op*{ if(c->bin||!r.chance(R->often)) return g0?g0(w,c,idx,r):nullptr; auto&s=R->cur[c->id]; if(!s||!s->open) next_scan(w,R,c->id,r); auto q=R->cur[c->id]; if(q->busy){ bool live=false; for(Op*o:c->out) if(o->note=="scan") live=true; if(live) return g0?g0(w,c,idx,r):nullptr; } return page(w,R,q); };
  w->on_op=[R](Work*w,Op*o){ if(o->note!="scan"||o->client>=90) return; auto f=R->cur.find(o->client); if(f!=R->cur.end()) took(w,R,f->second,o->resp,op_text(o)); };
  w->on_post.push_back([R](Work*w){ // complete scans while nothing changes: every key exactly once
    auto rr=std::make_shared<Rng>(mix64(W->cfg.seed^0x5ca9)); auto left=std::make_shared<int>(3); auto st=std::make_shared<Step>(); std::weak_ptr<Step> ws=st; w->mem["scan_step"]=""; 
    *st=[R,rr,left,st](Work*w)->bool{ auto s=R->cur[99]; if(!s||!s->open){ if((*left)--<=0){ return false; } s=next_scan(w,R,99,*rr); s->quiet=true; } w->script.push_front(*st); w->ctl_op(page(w,R,s),[w,R,s](Op*o){ took(w,R,s,o->resp,op_text(o)); }); return true; };
    w->script.push_front(*st); });
  w->checks.push_back([R](Work*w){ return check_scans(w,R); }); }
// clients of which some load and change keys and some scan
static void c14_base(Cfg&c,Work*w,Rng&r,int nkeys){ Plan&p=w->p; static const char*pre[]={"","","p1:","p2:","p3:","p4:x:","*?","a\\b"}; for(int i=0;i<nkeys;i++) p.keys.push_back(strf("%s%s%d",pre[r.below(8)],r.chance(0.5)?"k":"key*",i));
  p.clients=(int)r.range(2,5); p.ops=std::max(20,nkeys*(int)r.range(2,5)/p.clients); p.depth=1+(int)r.logu(6); p.think_ns=(i64)r.logu(300000); p.p_noreply=r.chance(0.5)?0:0.1; p.p_reconn=0.005; p.maxval=20; p.p_big=0; p.p_crlf=0; p.p_create=1; p.p_unread=0; p.mbr=false; p.budget=30000; c.seg_max=2000; c.p_seg*=0.3; p.exps=r.chance(0.6)?vector<i64>{0}:vector<i64>{0,0,0,0,1,2,1000}; if(c.mean_preempt>0&&c.mean_preempt<400) c.mean_preempt=400;
  if(r.chance(0.85)) c.k["hash_power"]=1+(i64)r.below(5);
  vector<vector<std::pair<int,int>>> t={{{K_SET,10},{K_GET,2},{K_DELETE,1}},{{L_CREATE,5},{L_INSERT,6},{L_GET,1},{K_DELETE,1}},{{S_CREATE,5},{S_INSERT,6},{S_EXIST,1},{K_DELETE,1}},{{M_CREATE,5},{M_INSERT,6},{M_GET,1},{K_DELETE,1}},{{B_CREATE,5},{B_INSERT,6},{B_COUNT,1},{K_DELETE,1}},{{K_SET,6},{K_ADD,3},{K_DELETE,6},{K_GET,2}},{{K_SET,10}},{{K_SET,8},{K_REPLACE,3},{K_APPEND,2}}};
  for(size_t i=0;i<p.keys.size();i++) p.keymix.push_back(t[r.chance(0.4)?6:r.below(t.size())]); 
  auto g0=w->gen; w->gen=[](Work*w,CS*c,int idx,Rng&r)->Op*{ // at first load the keys in order, then go on at random
    int n=(int)w->p.keys.size(), per=(n+w->p.clients-1)/w->p.clients; if(idx>=per||c->bin) return nullptr; int k=idx*w->p.clients+c->id; if(k>=n||r.chance(0.1)) return nullptr; int kd=w->p.keymix[k%w->p.keymix.size()][0].first; Op*o=w->gen_kind(kd,w->p.keys[k],r,c); return o; };
  auto R=std::make_shared<ScanRun>(); R->often=r.chance(0.5)?0.15:0.5; int hp=(int)c.knob("hash_power",16); R->page_limit=(1<<std::min(hp,16))*2+8*nkeys+200+(1<<(int)c.knob("prefix_hash_power",10)); scans(w,R); }
// slow readers keep references to what they asked for
static void slow_readers(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; p.p_stall=0.03+0.1*r.unit(); c.sndbuf=(int)r.range(200,3000); p.maxval=(int)r.range(100,1500); p.maxkeys=(int)r.range(2,20); for(auto&m:p.keymix) if(m[0].first==K_SET||m[0].first==K_ADD) m.push_back({K_GET,8}); }
static void c14_scan(Cfg&c,Work*w,Rng&r){ c14_base(c,w,r,(int)r.range(10,r.chance(0.3)?260:70)); if(r.chance(0.15)){ w->p.mix.clear(); for(auto&m:w->p.keymix) m.push_back({K_FLUSHPFX,1}); w->p.prefixes={"p1","p2","zz"}; } if(r.chance(0.2)) slow_readers(c,w,r); }
// enough keys on a tiny table that the table of tables itself has to grow
static void c14_grow(Cfg&c,Work*w,Rng&r){ c14_base(c,w,r,(int)r.range(900,2600)); Plan&p=w->p; c.k["hash_power"]=1+(i64)r.below(3); p.ops=(int)p.keys.size()*3/2/p.clients; p.audit=r.chance(0.3); p.check_lin=p.audit; p.depth=16; p.think_ns=2000; c.mean_preempt=0; c.max_steps=20000000; }
static void c14_dump(Cfg&c,Work*w,Rng&r){ c14_base(c,w,r,(int)r.range(5,r.chance(0.4)?300:80)); if(r.chance(0.4)) slow_readers(c,w,r); if(r.chance(0.3)){ int n=(int)r.range(3,60); for(int i=0;i<n;i++){ auto&k=w->p.keys[r.below(w->p.keys.size())]; if(k.size()<40) k+=string(r.range(200,r.chance(0.3)?15900:4000),'x'); } } SR R=std::make_shared<ScanRun>(); w->checks.clear(); w->on_post.clear(); w->on_op=nullptr; auto D=std::make_shared<Dumps>(); D->often=r.chance(0.5)?0.05:0.3; c.k["disk_write_ns"]=(i64)r.logu(r.chance(0.4)?20000000:200000); if(r.chance(0.2)){ D->faults=true; FaultKind f[]={F_D_WRITE_EIO,F_D_WRITE_ENOSPC,F_D_WRITE_SHORT,F_D_OPEN}; c.rate[f[r.below(4)]]=0.5*r.unit(); }
  int n=(int)w->p.keys.size(); w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(c->bin) return nullptr; bool busy=false; for(Op*o:c->out) if(o->note.compare(0,4,"dump")==0) busy=true; if(!busy&&r.chance(D->often)&&(D->cur?D->cur->client==c->id:true)) return dump_op(w,R,D,c->id,r,false); int per=(n+w->p.clients-1)/w->p.clients; if(idx>=per) return nullptr; int k=idx*w->p.clients+c->id; if(k>=n||r.chance(0.1)) return nullptr; return w->gen_kind(w->p.keymix[k%w->p.keymix.size()][0].first,w->p.keys[k],r,c); };
  w->on_op=[D](Work*w,Op*o){ if(o->note.compare(0,5,"dump:")==0) dump_reply(w,D,o); };
  w->on_post.push_back([=](Work*w){ auto left=std::make_shared<int>(120); auto runs=std::make_shared<int>(D->faults?0:2); auto st=std::make_shared<Step>(); *st=[=](Work*w)->bool{ if(W->viol.set) return false; if(!D->cur&&(*runs)--<=0) return false; if(--*left<=0){ violate("no-progress","a key dump does not end"); return false; } Rng q(mix64(W->cfg.seed^0xd0^*left)); if(D->cur&&!D->asked) D->cur=nullptr; bool fresh=!D->cur; Op*o=dump_op(w,R,D,99,q,true); static u32 m; o->id=8300000+(m++)%100000; w->ctl_op(o,[=](Op*o){ (void)o; if(D->cur&&!fresh) front((Work*)W->dir,{wait_ns(300000000LL),*st}); else front((Work*)W->dir,{*st}); }); return true; }; front(w,{*st}); });
  w->checks.push_back([R](Work*w){ return check_scans(w,R); }); }
static const vector<PropDef> P={ {"C14",{{"scan",c14_scan,30},{"grow",c14_grow,1},{"dump",c14_dump,12}}}, };
const vector<PropDef>& props_scan(){ return P; }
