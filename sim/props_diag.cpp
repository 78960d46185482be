// C22: what command logging and long-query detection recorded, against the commands the clients sent.
#include "step.h"
#include <algorithm>
static const u64 INF=~0ULL; void all_mix(Plan&);
static bool pre(const string&t,const char*p){ return t.compare(0,strlen(p),p)==0; }
static vector<string> lines(const string&t,const char*sep){ vector<string> v; size_t p=0,n=strlen(sep); while(p<t.size()){ size_t e=t.find(sep,p); if(e==string::npos){ v.push_back(t.substr(p)); break; } v.push_back(t.substr(p,e-p)); p=e+n; } return v; }
static string ip(const Op*o){ return strf("10.0.0.%d",o->client+1); }
static i64 day(i64 ns){ i64 us=(ns+W->wall_off)/1000+W->tz_off*1000000LL; i64 D=86400000000LL; return ((us%D)+D)%D; }
static bool clock_of(const string&s,i64&us){ int h,m,c; long u; if(s.size()<15||sscanf(s.c_str(),"%2d:%2d:%2d.%6ld",&h,&m,&c,&u)!=4) return false; us=((h*60+m)*60LL+c)*1000000+u; return true; }
static bool within(i64 us,i64 lo,i64 hi){ i64 D=86400000000LL, a=day(lo)-1, d=((us-a)%D+D)%D; return d<=(hi-lo)/1000+3; }
// one command as the server received it
struct Cmd { string text; const Op*o; u64 inv,ret; i64 tlo,thi; bool sure; };
static void cmds(const Op*o,vector<Cmd>&v){
  if(o->proto) return; bool rep=o->st==S_DONE||o->st==S_IMPLIED; Cmd c{"",o,o->inv,rep?o->ret:INF,o->inv_t,rep?o->ret_t:W->now,rep};
  if(o->kind==X_PIPE){ for(size_t i=0;i<o->sub.size();i++){ string d; Op*s=o->sub[i]; c.text=op_cmdline(s,d); if(i+1<o->sub.size()) c.text+=" pipe"; s->frame=F_LINE; c.sure=rep&&s->st==S_DONE; if(!c.sure){ c.ret=INF; c.thi=W->now; } /* the rest of a failed pipe may be read after its reply */ v.push_back(c); } return; }
  if(o->kind==X_RAW){ for(auto&l:lines(o->req,"\r\n")){ c.text=l; v.push_back(c); } return; }
  c.text=o->req.substr(0,o->req.find("\r\n")); v.push_back(c); }
// a period in which recording was on: surely on between on_hi and off_lo, surely off before on_lo and after off_hi
struct Sess { u64 on_lo,on_hi,off_lo=INF,off_hi=INF; u32 thr=0; bool vague=false; };
static string sessions(Work*w,const char*tag,const char*started,const char*stopped,vector<Sess>&out){
  struct Ev { const Op*o; int eff; int need; }; vector<Ev> v; // eff 1 starts, 0 stops, -1 changes nothing; need: the state it found (-1 any)
  for(Op*o:w->H_.ops) if(o->kind==X_RAW&&(o->note==string(tag)+":start"||o->note==string(tag)+":stop")){ if(o->st==S_LOST) return "skip"; if(o->st!=S_DONE) continue; bool st=o->note==string(tag)+":start", did=pre(o->resp,st?started:stopped), alr=o->resp.find("already")!=string::npos; v.push_back({o,did?(st?1:0):-1,did?(st?0:1):alr?(st?1:0):-1}); }
  std::sort(v.begin(),v.end(),[](const Ev&x,const Ev&y){ return x.o->ret<y.o->ret; }); size_t n=v.size(); vector<char> used(n,0); vector<int> ord; set<std::pair<vector<char>,int>> dead; std::function<bool(int)> go=[&](int on)->bool{ if(ord.size()==n) return true; if(dead.count({used,on})) return false; u64 mr=INF; for(size_t i=0;i<n;i++) if(!used[i]) mr=std::min(mr,v[i].o->ret);
    for(size_t i=0;i<n;i++) if(!used[i]&&v[i].o->inv<mr&&(v[i].need<0||v[i].need==on)){ used[i]=1; ord.push_back(i); if(go(v[i].eff<0?on:v[i].eff)) return true; ord.pop_back(); used[i]=0; } dead.insert({used,on}); return false; };
  if(!go(0)){ string t=strf("sessions::no order explains what starting and stopping %s answered:",tag); for(auto&e:v) t+="\n  "+op_text(e.o); return t; }
  bool vague=false; for(size_t i=0;i<n;i++) for(size_t k=i+1;k<n;k++) if(v[i].eff>=0&&v[i].eff==v[k].eff&&v[i].o->inv<v[k].o->ret&&v[k].o->inv<v[i].o->ret) vague=true;
  u64 first=INF; for(int i:ord){ auto&e=v[i]; if(e.eff==1){ Sess s; s.on_lo=e.o->inv; s.on_hi=e.o->ret; s.thr=(u32)e.o->count; s.vague=vague; first=std::min(first,s.on_lo); out.push_back(s); } if(e.eff==0){ out.back().off_lo=e.o->inv; out.back().off_hi=e.o->ret; } }
  if(vague) for(auto&s:out){ s.on_lo=first; s.off_hi=INF; } // which start goes with which stop is open
  return ""; }
// ---- command log
struct CLog { bool single=false; bool skip=false; bool faults=false; i64 file=10<<20, buf=10<<20; };
struct Rec { string text,ip; i64 us; };
static string cmdlog_check(Work*w,CLog k){
  if(!w->mem.count("cmdlog stats")) return ""; string st=w->mem["cmdlog stats"]; u64 entered=0,skipped=0; int nfile=0; { size_t p; if((p=st.find("entered commands : "))!=string::npos) entered=strtoull(st.c_str()+p+19,0,10); if((p=st.find("skipped commands : "))!=string::npos) skipped=strtoull(st.c_str()+p+19,0,10); if((p=st.find("log files : "))!=string::npos) nfile=atoi(st.c_str()+p+12); }
  bool over=st.find("stopped by command log overflow")!=string::npos, ferr=st.find("stopped by disk flush error")!=string::npos, implicit=over||ferr;
  vector<Sess> ss; string e; if(!k.single){ e=sessions(w,"cmdlog","\tcommand logging started","\tcommand logging stopped",ss); if(e=="skip") return ""; if(!e.empty()) return e; if(implicit) return "state::logging ended by itself: "+esc(st); }
  else { const Op*a=0,*b=0; for(Op*o:w->H_.ops) if(o->kind==X_RAW){ if(o->note=="cmdlog:start"){ if(o->st!=S_DONE) return ""; if(pre(o->resp,"\tcommand logging started")){ if(a) return "sessions::started twice: "+op_text(o); a=o; } } if(o->note=="cmdlog:stop"&&o->st==S_DONE&&pre(o->resp,"\tcommand logging stopped")) b=o; }
    if(!a) return ""; Sess s; s.on_lo=a->inv; s.on_hi=a->ret; if(b){ s.off_lo=b->inv; s.off_hi=b->ret; if(over||(ferr&&!k.faults)) { if(!k.faults||over){ /* may have overflowed while the rest was being written */ } } } else if(!implicit) return "state::logging was not running at its stop although it had not ended by itself: "+esc(st); ss.push_back(s); }
  if(ss.empty()) return ""; if(ferr&&!k.faults) return "state::a flush error without a disk error: "+esc(st);
  vector<Cmd> all; for(Op*o:w->H_.ops) cmds(o,all);
  // files
  map<string,vector<std::pair<int,string>>> groups; u64 bytes=0; for(auto&f:disk_list("/sim")){ if(!pre(f,"command_")) continue; size_t a=f.rfind('_'); groups[f.substr(0,a)].push_back({atoi(f.c_str()+a+1),f}); bytes+=disk_read_file("/sim/"+f).size(); }
  vector<vector<Rec>> seqs; size_t nrec=0; bool torn=false;
  for(auto&g:groups){ std::sort(g.second.begin(),g.second.end()); for(size_t i=0;i<g.second.size();i++) if(g.second[i].first!=(int)i) return "files::command log files are not numbered in a row: "+g.second[i].second; string t; for(auto&f:g.second){ string x=disk_read_file("/sim/"+f.second); t+=x; LOG("file %s\n%s",f.second.c_str(),x.c_str()); if(f.first+1<(int)g.second.size()&&(i64)x.size()<k.file) return strf("files::%s was left for the next file at %zu bytes, before the limit of %lld",f.second.c_str(),x.size(),(long long)k.file); if(k.single&&(i64)x.size()>k.file+k.buf) return strf("files::%s has %zu bytes, the limit is %lld",f.second.c_str(),x.size(),(long long)k.file); } if(g.second.size()>10) return "files::more than 10 command log files";
    if(!t.empty()&&t.back()!='\n'){ size_t q=t.rfind('\n'); if(!implicit) return "record::a record is cut off: "+esc(t.substr(q==string::npos?0:q+1)); t.resize(q==string::npos?0:q+1); torn=true; }
    vector<Rec> v; for(auto&l:lines(t,"\n")){ Rec r; size_t a=l.find(' '), b=a==string::npos?a:l.find(' ',a+1); if(b==string::npos||!clock_of(l,r.us)||a!=15) return "record::not a record of a command: "+esc(l,200); r.ip=l.substr(a+1,b-a-1); r.text=l.substr(b+1); v.push_back(r); nrec++; } seqs.push_back(v); }
  (void)torn; w->mem["cmdlog records"]=strf("%zu",nrec); W->probes["commands recorded in the command log"]+=nrec; W->probes["command log files"]+=0; for(auto&g:groups) W->probes["command log files"]+=g.second.size();
  // the text that should be recorded: cut to the size of a record
  map<string,vector<Cmd*>> idx; for(auto&c:all){ size_t room=399-1-15-1-ip(c.o).size()-1; if(c.text.size()>room) c.text=c.text.substr(0,room-2)+".."; idx[ip(c.o)+" "+c.text].push_back(&c); }
  auto may=[&](const Cmd&c){ for(auto&s:ss) if(c.ret>s.on_lo&&c.inv<s.off_hi) return true; return false; };
  auto must=[&](const Cmd&c){ if(!c.sure) return false; for(auto&s:ss) if(!s.vague&&c.inv>s.on_hi&&c.ret<s.off_lo) return true; return false; };
  map<string,int> seen; u64 lastinv=0;
  for(auto&v:seqs){ u64 maxinv=0; const Op*maxop=0; for(auto&r:v){ string key=r.ip+" "+r.text; auto i=idx.find(key); if(i==idx.end()) return "record::no client sent this command: "+esc(key,300); bool ok=false,okt=false; const Cmd*one=0; int n=0; for(Cmd*c:i->second) if(may(*c)){ ok=true; n++; one=c; if(within(r.us,c->tlo,c->thi)) okt=true; }
      if(!ok) return "record::recorded although it was sent while logging was off: "+esc(key,300); if(!okt) return strf("record::recorded with a time (%02lld:%02lld:%02lld.%06lld) at which it was not executed: ",(long long)(r.us/3600000000LL),(long long)(r.us/60000000%60),(long long)(r.us/1000000%60),(long long)(r.us%1000000))+esc(key,300);
      if(++seen[key]>n) return strf("record::recorded %d times, sent %d times while logging was on: ",seen[key],n)+esc(key,300);
      if(n==1){ if(one->ret<maxinv) return "order::"+esc(key,200)+" was recorded after a command sent later: "+op_text(maxop); if(one->inv>maxinv){ maxinv=one->inv; maxop=one->o; } lastinv=std::max(lastinv,one->inv); } } }
  bool complete=!k.skip||skipped==0;
  if(complete) { map<string,int> need; for(auto&c:all) if(must(c)&&(!implicit||c.ret<lastinv)) need[ip(c.o)+" "+c.text]++; for(auto&n:need) if(seen[n.first]<n.second) return strf("missing::%d of %d executions of this command are not in the log (logging %s): ",n.second-seen[n.first],n.second,implicit?"ended by itself":"ran throughout")+esc(n.first,300); }
  if(k.single){ u64 lo=0,hi=0; for(auto&c:all){ if(must(c)&&!implicit) lo++; if(may(c)) hi++; } if(entered<lo||entered>hi) return strf("stats::entered commands %llu, executed while logging was on: %llu to %llu",(unsigned long long)entered,(unsigned long long)lo,(unsigned long long)hi);
    if(!implicit&&nrec+skipped!=entered) return strf("stats::%zu records, %llu skipped, %llu entered",nrec,(unsigned long long)skipped,(unsigned long long)entered); if(implicit&&nrec+skipped>entered) return strf("stats::%zu records, %llu skipped, %llu entered",nrec,(unsigned long long)skipped,(unsigned long long)entered);
    size_t nf=groups.empty()?0:groups.begin()->second.size(); if((int)nf!=nfile&&!(ferr&&nf==1&&nfile==0) /* the start tries the first file, then its thread opens it again */ ) return strf("stats::%d log files, there are %zu",nfile,nf);
    if(over&&(nf!=10||(i64)bytes<10*k.file)) return strf("state::stopped for overflow with %zu files of %llu bytes in all",nf,(unsigned long long)bytes); if(!implicit&&nf==10&&(i64)disk_read_file("/sim/"+groups.begin()->second.back().second).size()>=k.file) return strf("state::%llu bytes were logged but logging did not end by itself",(unsigned long long)bytes);
    if(skipped) W->probes["commands skipped for lack of log buffer"]+=skipped; if(over) W->probes["command logging ended by overflow"]++; if(ferr) W->probes["command logging ended by a disk error"]++; }
  return ""; }
static Op* verop(Work*w,const string&q){ Op*o=w->mk(X_RAW,""); o->req=q+"\r\nversion\r\n"; o->frame=F_VER; return o; }
static Op* ctlop(Work*w,Rng&r,int which,bool lq,const string&path){ Op*o;
  if(!lq){ if(which<4){ o=w->mk(X_RAW,""); o->req="cmdlog start"+(r.chance(0.9)?" "+path:string(""))+"\r\n"; o->note="cmdlog:start"; o->expect_any={"\tcommand logging started.\n\r\n","\tcommand logging already started.\n\r\n","\tcommand logging failed to start.\n\r\n"}; return o; }
    if(which<7){ o=w->mk(X_RAW,""); o->req="cmdlog stop\r\n"; o->note="cmdlog:stop"; o->expect_any={"\tcommand logging stopped.\n\r\n","\tcommand logging already stopped.\n\r\n"}; return o; }
    o=verop(w,"cmdlog stats"); o->expect_any={"\tCommand logging state : "}; return o; }
  if(which<3){ o=w->mk(X_RAW,""); int t[]={1,1,2,3,4,6,10}; o->count=t[r.below(7)]; o->req=strf("lqdetect start %d\r\n",(int)o->count); o->note="lq:start"; o->expect_any={"\tlong query detection started.\n\r\n","\tlong query detection already started.\n\r\n"}; return o; }
  if(which<5){ o=w->mk(X_RAW,""); o->req="lqdetect stop\r\n"; o->note="lq:stop"; o->expect_any={"\tlong query detection stopped.\n\r\n","\tlong query detection already stopped.\n\r\n"}; return o; }
  if(which<8){ o=verop(w,"lqdetect show"); o->note="lq:show"; o->expect_any={"sop get : "}; return o; }
  o=verop(w,"lqdetect stats"); o->expect_any={"\tLong query detection stats : "}; return o; }
static void cmdlog_end(Work*w){ w->on_post.push_back([](Work*w){ vector<Step> s; s.push_back([](Work*w){ Op*o=line(w,"cmdlog stop",F_LINE,{"\tcommand logging stopped.\n\r\n","\tcommand logging already stopped.\n\r\n"}); o->note="cmdlog:stop"; w->ctl_op(o); return true; });
    static std::function<bool(Work*)> poll; static int left; left=60; poll=[](Work*w){ Op*o=verop(w,"cmdlog stats"); o->id=8900000; w->ctl_op(o,[](Op*o){ Work*w=(Work*)W->dir; w->mem["cmdlog stats"]=o->resp; if(o->resp.find(": running")!=string::npos){ if(!--left){ violate("no-progress","the command log is still being written 60 s after the stop"); return; } front(w,{wait_ns(1000000000LL),poll}); } }); return true; };
    s.push_back(wait_ns(200000000LL)); s.push_back(poll); front(w,s); }); }
// ---- long query detection
static const char* LQ[10]={"sop get","mop delete","mop get","lop insert","lop delete","lop get","bop delete","bop get","bop count","bop gbp"};
struct Long { int cmd; string key,query; i64 lo,hi; u64 inv,ret; i64 tlo,thi; const Op*o; };
static string lqkey(const string&k){ return k.size()<=250?k:k.substr(0,124)+"..."+k.substr(k.size()-123); }
static void longs(const Op*o,vector<Long>&v){
  if(o->proto) return; if(o->kind==X_PIPE){ for(Op*s:o->sub){ if(s->st!=S_DONE){ s->inv=o->inv; s->inv_t=o->inv_t; } s->client=o->client; longs(s,v); } return; }
  int c=-1; string dd=o->dd==2?" drop":o->dd==1?" delete":"", dr=o->dd==2?" drop":"", bk; i64 lo=0,hi=1<<30,n=0; bool done=o->st==S_DONE; if(done&&pre(o->resp,"VALUE ")){ size_t p=o->resp.find(' ',6); n=atoll(o->resp.c_str()+p+1); } string q; bool ok=true;
  auto idxc=[](i64 i){ return i>=0?i+1:-i; }; i64 to=o->range?o->to:o->from; i64 span= (o->from>=0)==(to>=0)?std::llabs(to-o->from)+1:1<<30; if(o->kind>=B_CREATE){ bk=o->b1.text(); if(o->range&&o->kind!=B_GBP) bk+=".."+o->b2.text(); if(o->filt.on) bk+=" efilter"; }
  switch(o->kind){
    case L_INSERT: c=3; q=strf("%lld",(long long)o->from); lo=hi=idxc(o->from); ok=pre(o->resp,"STORED")||pre(o->resp,"CREATED_STORED"); break;
    case L_DELETE: c=4; q=strf("%lld..%lld",(long long)o->from,(long long)to)+dr; lo=1+idxc(o->from); hi=span+idxc(o->from); ok=pre(o->resp,"DELETED"); break;
    case L_GET: c=5; q=strf("%lld..%lld",(long long)o->from,(long long)to)+dd; lo=hi=n+idxc(o->from); ok=n>0; break;
    case S_GET: c=0; q=strf("%lld",(long long)o->count)+dd; lo=hi=n; ok=n>0; break;
    case M_GET: c=2; q=strf("%zu",o->fields.size())+dd; lo=hi=n; ok=n>0; break;
    case M_DELETE: c=1; q=strf("%zu",o->fields.size())+dr; lo=1; if(!o->fields.empty()) hi=o->fields.size(); ok=pre(o->resp,"DELETED"); break;
    case B_DELETE: c=6; q=bk+strf(" %lld",(long long)(o->has_count?o->count:0))+dr; lo=1; if(!o->range) hi=1; else if(!o->filt.on&&o->has_count&&o->count) hi=o->count; ok=pre(o->resp,"DELETED"); break;
    case B_GET: c=7; q=bk+strf(" %lld %lld",(long long)(o->has_count&&o->offset>0?o->offset:0),(long long)(o->has_count?o->count:0))+dd; lo=n+(o->has_count&&o->offset>0?o->offset:0); if(!o->filt.on) hi=lo; ok=n>0; break;
    case B_COUNT: c=8; q=bk; ok=pre(o->resp,"COUNT="); { i64 k=ok?atoll(o->resp.c_str()+6):0; lo=(o->filt.on||!o->range)?k:0; if(!o->filt.on) hi=k; } break;
    case B_GBP: c=9; q=strf("%lld..%lld ",(long long)o->posfrom,(long long)(o->range?o->posto:o->posfrom))+(o->desc?"desc":"asc"); lo=hi=n; ok=n>0; break;
    default: return; }
  if(done&&!ok) return; if(!done){ if(c==5||c==0||c==2||c==7||c==8||c==9) hi=1<<30; lo=-1; } // not known to have succeeded
  bool rep=done||o->st==S_IMPLIED; v.push_back({c,lqkey(o->key),q,lo,hi,o->inv,rep?o->ret:INF,o->inv_t,rep?o->ret_t:W->now,o}); }
static string lq_check(Work*w,bool overflow){
  vector<Sess> ss; if(!overflow){ string e=sessions(w,"lq","\tlong query detection started","\tlong query detection stopped",ss); if(e=="skip") return ""; if(!e.empty()) return e; }
  else { vector<Op*> ev; for(Op*o:w->H_.ops) if(o->kind==X_RAW&&(o->note=="lq:start"||o->note=="lq:stop")){ if(o->st==S_LOST) return ""; if(o->st==S_DONE) ev.push_back(o); } // one client starts and stops, so these never overlap
    std::sort(ev.begin(),ev.end(),[](Op*x,Op*y){ return x->inv<y->inv; }); bool open=false; for(Op*o:ev){ if(pre(o->resp,"\tlong query detection started")){ if(open){ Sess&p=ss.back(); p.off_lo=p.off_hi=o->inv; } Sess s; s.on_lo=o->inv; s.on_hi=o->ret; s.thr=(u32)o->count; ss.push_back(s); open=true; } else if(open&&pre(o->resp,"\tlong query detection stopped")){ ss.back().off_lo=o->inv; ss.back().off_hi=o->ret; open=false; } }
    if(ss.empty()) return ""; if(ss.size()>1) W->probes["long query detection restarted"]++; }
  vector<Long> all; for(Op*o:w->H_.ops) longs(o,all);
  for(Op*sh:w->H_.ops){ if(sh->kind!=X_RAW||sh->note!="lq:show"||sh->st!=S_DONE) continue;
    int si=-1; bool amb=false; for(size_t i=0;i<ss.size();i++){ if(ss[i].on_hi<sh->inv) si=i; else if(ss[i].on_lo<sh->ret) amb=true; if(ss[i].vague) amb=true; } if(amb) continue;
    auto ls=lines(sh->resp,"\n"); size_t at=0; int full=0; struct Row { u64 total; vector<string> rec; } row[10];
    for(int c=0;c<10;c++){ string h=string(LQ[c])+" : "; if(at>=ls.size()||!pre(ls[at],h.c_str())) return "show::the line \""+h+"\" is missing in "+op_text(sh); row[c].total=strtoull(ls[at].c_str()+h.size(),0,10); at++; while(at<ls.size()&&ls[at].size()>2&&ls[at][2]==':') row[c].rec.push_back(ls[at++]); if(row[c].rec.size()>20) return strf("show::%zu saved queries of %s",row[c].rec.size(),LQ[c]); if(row[c].rec.size()==20) full++; }
    if(si<0){ for(int c=0;c<10;c++) if(row[c].total||row[c].rec.size()) return strf("show::%s: %llu long queries though detection never ran",LQ[c],(unsigned long long)row[c].total); continue; }
    Sess s=ss[si]; u64 olo=std::min(s.off_lo,sh->inv), ohi=std::min(s.off_hi,sh->ret); bool self=full==10; W->probes["long query reports checked"]++; if(self) W->probes["long query detection ended by itself"]++;
    for(int c=0;c<10;c++){ u64 lo=0,hi=0; map<string,bool> need; auto id=[&](const Long&l){ return (c<3&&l.query[0]=='0')?l.query+" "+l.key:l.query; };
      for(auto&l:all) if(l.cmd==c){ bool mu=l.lo>=(i64)s.thr&&l.inv>s.on_hi&&l.ret<olo, ma=(l.hi>=(i64)s.thr||l.inv<s.on_hi)&&l.ret>s.on_lo&&l.inv<ohi; if(mu){ lo++; need[id(l)]=false; } if(ma||mu) hi++; }
      if(row[c].total>hi||(!self&&row[c].total<lo)) return strf("count::%s: %llu long queries are reported, between %llu and %llu were executed: ",LQ[c],(unsigned long long)row[c].total,(unsigned long long)lo,(unsigned long long)hi)+op_text(sh);
      W->probes["long queries counted"]+=row[c].total; set<string> dup;
      for(auto&t:row[c].rec){ i64 us; size_t a=t.find(" <"), b=t.find("> ",a); if(!clock_of(t,us)||a==string::npos||b==string::npos) return "record::not a record: "+esc(t,200); string rip=t.substr(16,a-16); i64 over=atoll(t.c_str()+a+2); string rest=t.substr(b+2); string h=string(LQ[c])+" "; if(!pre(rest,h.c_str())) return "record::not a record of "+h+": "+esc(t,300); rest=rest.substr(h.size()); string why="no such command was executed while detection was on"; bool ok=false; string key;
        for(auto&l:all) if(l.cmd==c&&rest==l.key+" "+l.query&&ip(l.o)==rip&&l.ret>s.on_lo&&l.inv<ohi){ if(over<l.lo||over>l.hi||(over<(i64)s.thr&&l.inv>s.on_hi)){ why="another cost: "+op_text(l.o); continue; } if(!within(us,l.tlo,l.thi)){ why="another time: "+op_text(l.o); continue; } ok=true; key=id(l); break; }
        if(!ok) return "record::"+why+": "+esc(t,300); if(!dup.insert(key).second) return "record::the same query is saved twice: "+esc(t,300); need[key]=true; }
      if(row[c].rec.size()<20) for(auto&n:need) if(!n.second) return strf("missing::long query \"%s %s\" was executed but not saved, %zu others were: ",LQ[c],n.first.c_str(),row[c].rec.size())+op_text(sh); } }
  if(w->mem.count("lq stats")){ string t=w->mem["lq stats"]; bool over=t.find("stopped by internal buffer overflow")!=string::npos; string sh=w->mem["lq show"]; int full=0; for(int c=0;c<10;c++){ int n=0; for(auto&l:lines(sh,"\n")) if(l.find(string("> ")+LQ[c]+" ")!=string::npos) n++; if(n>=20) full++; } if(over!=(full==10)) return strf("state::detection is \"%s\" with %d of 10 commands full",esc(t,60).c_str(),full); if(!over&&!ss.empty()&&t.find("stopped by explicit request")==string::npos) return "state::detection was stopped but says "+esc(t,80); }
  return ""; }
static void lq_end(Work*w){ w->on_post.push_back([](Work*w){ vector<Step> s; s.push_back([](Work*w){ Op*o=line(w,"lqdetect stop",F_LINE,{"\tlong query detection stopped.\n\r\n","\tlong query detection already stopped.\n\r\n"}); o->note="lq:stop"; w->ctl_op(o); return true; });
  s.push_back([](Work*w){ Op*o=verop(w,"lqdetect show"); o->id=8910000; o->note="lq:show"; w->ctl_op(o,[w](Op*o){ w->mem["lq show"]=o->resp; }); return true; }); s.push_back([](Work*w){ Op*o=verop(w,"lqdetect stats"); o->id=8910001; w->ctl_op(o,[w](Op*o){ w->mem["lq stats"]=o->resp; }); return true; }); front(w,s); }); }
static void base(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(2,5)); load(p,r,2,5,r.chance(0.3)?200:80); all_mix(p); p.mix.push_back({M_GET,2}); p.depth=1+(int)r.logu(8); p.maxkeys=4; p.p_bin=r.chance(0.2)?0.3:0; p.mbr=false; p.p_create=0.8; p.p_unread=0; if(r.chance(0.3)) seg(c,r); if(r.chance(0.3)) p.think_ns=(i64)r.logu(300000000); }
static void controls(Work*w,Rng&r,bool cl,bool lq){ double pr=0.04+0.15*r.unit(); bool any=r.chance(0.6); string longk=r.chance(0.3)?string(380+r.below(40),'q'):"";
  w->gen=[=](Work*w,CS*c,int,Rng&r)->Op*{ if(c->bin) return nullptr; if((any||c->id==0)&&r.chance(any?pr:std::min(0.5,3*pr))) return ctlop(w,r,(int)r.below(10),!cl||(lq&&r.chance(0.5)),"/sim"); if(!longk.empty()&&r.chance(0.15)){ Op*o=w->mk(X_RAW,""); o->req="get "+string(330+r.below(90),'v')+"\r\n"; o->frame=F_GETR; o->expect_any={"END"}; return o; } return nullptr; };
  no_drop(w); if(cl){ cmdlog_end(w); w->checks.push_back([](Work*w){ return cmdlog_check(w,CLog()); }); } if(lq){ lq_end(w); w->checks.push_back([](Work*w){ return lq_check(w,false); }); } }
static void c22_both(Cfg&c,Work*w,Rng&r){ base(c,w,r); controls(w,r,true,true); }
static void c22_lq(Cfg&c,Work*w,Rng&r){ base(c,w,r); Plan&p=w->p; p.p_bin=0; if(r.chance(0.2)) p.keys.push_back(string(200+r.below(120),'K')); p.mix={{L_INSERT,10},{L_GET,6},{L_DELETE,3},{S_INSERT,10},{S_GET,6},{M_INSERT,10},{M_GET,6},{M_DELETE,3},{B_INSERT,12},{B_GET,8},{B_COUNT,5},{B_GBP,5},{B_DELETE,3},{X_PIPE,3},{K_DELETE,1}}; p.bk=(int)r.below(3); controls(w,r,false,true); }
static void one_start(Work*w,bool lq,u64 at){ auto g0=w->gen; w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(c->id==0&&!c->bin&&idx==(int)at) return ctlop(w,r,0,lq,"/sim"); if(!c->bin&&r.chance(0.02)) return ctlop(w,r,9,lq,"/sim"); return g0?g0(w,c,idx,r):nullptr; }; }
static void c22_wrap(Cfg&c,Work*w,Rng&r){ base(c,w,r); Plan&p=w->p; p.p_bin=0; p.ops=(int)r.range(150,900)/p.clients; p.think_ns=(i64)r.logu(r.chance(0.5)?3000000:100000); p.maxval=100; p.p_big=0; c.k["cl_buf"]=(i64)r.range(900,12000); c.k["cl_write"]=(i64)r.range(50,r.chance(0.5)?400:4000); CLog k; k.single=true; k.skip=true; if(r.chance(0.5)) k.file=c.k["cl_file"]=(i64)r.range(200,4000); c.k["cl_write"]=std::min<i64>(c.k["cl_write"],c.k["cl_buf"]/2); k.buf=c.k["cl_buf"];
  c.k["disk_write_ns"]=(i64)r.logu(r.chance(0.4)?50000000:200000); if(r.chance(0.3)) c.rate[F_D_SLOW]=0.05; if(r.chance(0.4)){ k.faults=true; c.rate[r.pick(vector<int>{F_D_WRITE_EIO,F_D_WRITE_ENOSPC,F_D_WRITE_SHORT,F_D_OPEN})]=0.1*r.unit(); c.fault_budget=100; }
  one_start(w,false,r.below(4)); no_drop(w); cmdlog_end(w); w->checks.push_back([k](Work*w){ return cmdlog_check(w,k); }); }
static void c22_full(Cfg&c,Work*w,Rng&r){ base(c,w,r); Plan&p=w->p; p.p_bin=0; p.clients=(int)r.range(1,3); p.ops=(int)r.range(900,1600)/p.clients; p.depth=8; p.think_ns=30000; p.keys.clear(); keys(p,24); p.check_lin=false; p.audit=false; p.p_noreply=0; p.maxval=20; p.p_big=0; c.p_seg*=0.2; c.mean_preempt=r.chance(0.5)?0:40000; p.mix={{B_COUNT,4},{B_GBP,4},{L_INSERT,2}}; i64 at=(i64)r.below(20), at2=r.chance(0.7)?r.range(at+1,p.ops*3/4):-5;
  w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(c->id==0&&(idx==at||idx==at2+1)){ Op*o=ctlop(w,r,0,true,""); o->count=1; o->req="lqdetect start 1\r\n"; return o; } if(c->id==0&&idx==at2) return ctlop(w,r,3,true,""); if(r.chance(0.01)) return ctlop(w,r,r.chance(0.5)?6:9,true,""); int m=(int)r.below(4); string k=w->p.keys[m*6+r.below(6)]; int kd; Op*o; auto gk=[&](int kind){ return w->gen_kind(kind,k,r,c); };
    if(m==0){ kd=r.chance(0.5)?L_INSERT:r.chance(0.6)?L_GET:L_DELETE; o=gk(kd); if(kd==L_INSERT){ o->create=true; o->attr=CAttr(); o->from=r.range(-20,20); if(r.chance(0.5)) o->from=-1; } else { o->from=r.range(-3,3); o->to=r.range(-12,12); o->range=true; } return o; }
    if(m==1){ kd=r.chance(0.5)?S_INSERT:S_GET; o=gk(kd); if(kd==S_INSERT){ o->create=true; o->attr=CAttr(); } else { o->count=(i64)r.below(30); o->dd=0; } return o; }
    if(m==2){ kd=r.chance(0.5)?M_INSERT:r.chance(0.5)?M_GET:M_DELETE; o=gk(kd); o->noreply=false; if(kd==M_INSERT){ o->create=true; o->attr=CAttr(); o->fields={strf("f%d",(int)r.below(40))}; } else { set<string> s; int n=1+(int)r.below(32); for(int i=0;i<n;i++) s.insert(strf("f%d",(int)r.below(40))); o->fields.assign(s.begin(),s.end()); o->dd=r.chance(0.3)?2:0; if(kd==M_DELETE&&!o->dd) o->dd=1; } return o; }
    kd=r.chance(0.4)?B_INSERT:r.chance(0.35)?B_GET:r.chance(0.4)?B_COUNT:r.chance(0.6)?B_GBP:B_DELETE; o=gk(kd); if(kd==B_INSERT){ o->create=true; o->attr=CAttr(); } return o; };
  lq_end(w); w->checks.push_back([](Work*w){ return lq_check(w,true); }); }
static const vector<PropDef> P={ {"C22",{{"both",c22_both,6},{"lq",c22_lq,4},{"wrap",c22_wrap,5},{"full",c22_full,2}}} };
const vector<PropDef>& props_diag(){ return P; }
