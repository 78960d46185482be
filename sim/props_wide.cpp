// Requests and replies far larger than the buffers they pass through: key and field lists over several memory blocks, replies of thousands of vectors.
// The collections and keys are built once by client 0 and never change afterwards, so every reply is known in full.
#include "run.h"
#include <algorithm>
#include <set>
#include "step.h"
struct WObj { int type; /*0 kv 1 list 2 set 3 map 4 btree*/ string key; vector<string> v; vector<string> f; vector<u64> bk; vector<string> ef; };
struct Wide { vector<WObj> o; vector<int> kv,forest,big; deque<string> build; int nbuild=0; bool built=false, rep=false, oom=false, hexb=false; map<u32,std::pair<string,int>> want; double rst=0,fin=0,stall=0,reconn=0; u32 types=31; bool fits=true; };
typedef std::shared_ptr<Wide> WR;
static string val(int o,int i,int len){ string s=strf("o%d.%d.",o,i); while((int)s.size()<len) s+=(char)('a'+(s.size()*7+i*3+o)%26); return s; }
static string longname(const char*p,int i,int len){ string s=strf("%s%d_",p,i); while((int)s.size()<len) s+=(char)('A'+(s.size()*5+i)%26); return s; }
static string el(const WObj&x,int i,int mode,bool hexb){ string h; if(mode==1) h=x.f[i]+" "; if(mode==2){ h=hexb?strf("0x%016llX ",(unsigned long long)x.bk[i]):strf("%llu ",(unsigned long long)x.bk[i]); if(!x.ef[i].empty()) h+="0x"+x.ef[i]+" "; } return h+strf("%zu ",x.v[i].size())+x.v[i]+"\r\n"; }
static string bkt(u64 b,bool hexb){ return hexb?strf("0x%016llX",(unsigned long long)b):strf("%llu",(unsigned long long)b); }
static void plan_build(Wide&M,Rng&r){
  auto ins=[&](const WObj&x,int i,bool first)->string{ const string&v=x.v[i]; string cr=first?" create 11 0 50000":""; string t=strf("%zu",v.size()); switch(x.type){ case 0: return strf("set %s 11 0 %zu",x.key.c_str(),v.size()); case 1: return "lop insert "+x.key+" -1 "+t+cr; case 2: return "sop insert "+x.key+" "+t+cr; case 3: return "mop insert "+x.key+" "+x.f[i]+" "+t+cr; default: return "bop insert "+x.key+" "+bkt(x.bk[i],M.hexb)+(x.ef[i].empty()?"":" 0x"+x.ef[i])+" "+t+cr; } };
  vector<std::pair<int,int>> all; for(size_t k=0;k<M.o.size();k++){ vector<int> id(M.o[k].v.size()); for(size_t i=0;i<id.size();i++) id[i]=(int)i; if(M.o[k].type==4) for(size_t i=id.size();i>1;i--) std::swap(id[i-1],id[r.below(i)]); for(int i:id) all.push_back({(int)k,i}); }
  set<int> seen; size_t per=M.oom?1:(size_t)r.range(20,200); string cur; size_t n=0; for(size_t q=0;q<all.size();q++){ const WObj&x=M.o[all[q].first]; int i=all[q].second; bool first=seen.insert(all[q].first).second; n++; bool last=n>=per||q+1==all.size()||cur.size()>40000; cur+=ins(x,i,first)+(last?"\r\n":" noreply\r\n")+x.v[i]+"\r\n"; if(last){ M.build.push_back(cur); cur.clear(); n=0; } }
  M.nbuild=(int)M.build.size(); }
static string srt(const string&s){ // element lines of a reply whose order is not fixed
  size_t p=s.find("\r\n"); if(p==string::npos) return s; vector<string> l; string head=s.substr(0,p+2); p+=2; while(p<s.size()){ size_t e=s.find("\r\n",p); if(e==string::npos) e=s.size(); l.push_back(s.substr(p,e-p)); p=e+2; } std::sort(l.begin(),l.end()); string o=head; for(auto&x:l) o+=x+"\r\n"; return o; }
static vector<int> pickidx(Rng&r,int n,int k){ vector<int> a(n); for(int i=0;i<n;i++) a[i]=i; for(int i=0;i<k&&i<n;i++) std::swap(a[i],a[i+r.below(n-i)]); a.resize(std::min(n,k)); return a; }
static Op* wread(Work*w,WR M,Rng&r){ Op*o=w->mk(X_RAW,""); string ex; int cmp=0; // 1: any order 2: subset of the members
  vector<int> ch; if(M->types&1&&!M->kv.empty()) ch.push_back(0); if(!M->big.empty()) { ch.push_back(1); ch.push_back(1); } if(M->types&16&&!M->forest.empty()){ ch.push_back(2); ch.push_back(2); } int c=ch[r.below(ch.size())];
  if(c==0){ int n=r.chance(M->rep?0.9:0.25)?(int)M->kv.size()+20:1+(int)r.logu(M->kv.size()+20); vector<int> id=pickidx(r,(int)M->kv.size()+20,n); string ks; for(int i:id){ if(!ks.empty()) ks+=" "; if(i<(int)M->kv.size()){ const WObj&x=M->o[M->kv[i]]; ks+=x.key; ex+=strf("VALUE %s 11 %zu\r\n",x.key.c_str(),x.v[0].size())+x.v[0]+"\r\n"; } else ks+=longname("nokv",i,(int)r.range(8,60)); } ex+="END\r\n";
    o->frame=F_GETR; bool line=r.chance(0.4)&&ks.size()<60000; if(line) o->req="get "+ks+"\r\n"; else o->req=strf("mget %zu %zu\r\n",ks.size(),id.size())+ks+"\r\n"; probe(ks.size()>32768?"key lists over one memory block":"short key lists"); }
  else if(c==1){ const WObj&x=M->o[M->big[r.below(M->big.size())]]; int n=(int)x.v.size(); string body; int cnt=0;
    if(x.type==1){ int a=(int)r.below(n),b=r.chance(0.4)?(r.chance(0.5)?0:n-1):(int)r.below(n); if(r.chance(0.2)){ a=0; b=n-1; if(r.chance(0.5)) std::swap(a,b); } for(int i=a;;i+=a<=b?1:-1){ body+=el(x,i,0,false); cnt++; if(i==b) break; } int A=r.chance(0.3)?a-n:a,B=r.chance(0.3)?b-n:b; o->req=strf("lop get %s %d..%d\r\n",x.key.c_str(),A,B); o->frame=F_LOPSOP; }
    else if(x.type==2){ int k=r.chance(0.5)?0:(int)r.range(1,std::min(n,1000)); for(int i=0;i<n;i++) body+=el(x,i,0,false); cnt=k==0?n:k; cmp=cnt==n?1:2; o->req=strf("sop get %s %d\r\n",x.key.c_str(),k); o->frame=F_LOPSOP; }
    else if(x.type==3){ o->frame=F_MAP; cmp=1; if(r.chance(0.3)){ for(int i=0;i<n;i++) body+=el(x,i,1,false); cnt=n; o->req=strf("mop get %s 0 0\r\n",x.key.c_str()); } else { int k=r.chance(M->rep?0.9:0.25)?n:1+(int)r.logu(n); vector<int> id=pickidx(r,n,k); string fs; for(int i:id){ if(!fs.empty()) fs+=" "; fs+=x.f[i]; body+=el(x,i,1,false); cnt++; } if(r.chance(0.3)&&(int)id.size()<n) fs+=" nofield"; size_t nf=std::count(fs.begin(),fs.end(),' ')+1; o->req=strf("mop get %s %zu %zu\r\n",x.key.c_str(),fs.size(),nf)+fs+"\r\n"; probe(fs.size()>32768?"field lists over one memory block":"short field lists"); } }
    else { int k=(int)r.below(3); if(k==0){ u64 hi=x.bk.back()+5; u64 a=r.below(hi),b=r.below(hi); if(r.chance(0.3)){ a=0; b=hi; if(r.chance(0.5)) std::swap(a,b); } bool desc=a>b; vector<int> in; for(int i=0;i<n;i++) if(x.bk[i]>=std::min(a,b)&&x.bk[i]<=std::max(a,b)) in.push_back(i); if(desc) std::reverse(in.begin(),in.end()); size_t off=r.chance(0.5)?0:r.below(n/4+1); size_t ct=r.chance(0.5)?0:1+r.below(n); o->req=strf("bop get %s %s..%s",x.key.c_str(),bkt(a,M->hexb).c_str(),bkt(b,M->hexb).c_str())+(off?strf(" %zu",off):"")+(ct||off?strf(" %zu",ct?ct:n):"")+"\r\n"; if(!ct) ct=n; for(size_t q=off;q<in.size()&&cnt<(int)ct;q++){ body+=el(x,in[q],2,M->hexb); cnt++; } o->frame=F_BOP; if(!cnt){ o->expect_any={"NOT_FOUND_ELEMENT\r\n"}; if(M->oom) o->expect_any.insert(o->expect_any.end(),{"SERVER_ERROR out of memory","SERVER_ERROR internal\r\n"}); probe("wide reads"); return o; } }
      else if(k==1){ bool desc=r.chance(0.5); int a=(int)r.below(n),b=r.chance(0.4)?(r.chance(0.5)?0:n-1):(int)r.below(n); for(int i=a;;i+=a<=b?1:-1){ body+=el(x,desc?n-1-i:i,2,M->hexb); cnt++; if(i==b) break; } o->req=strf("bop gbp %s %s %d..%d\r\n",x.key.c_str(),desc?"desc":"asc",a,b); o->frame=F_BOP; }
      else { u64 hi=x.bk.back()+5,a=r.below(hi),b=r.below(hi); int cn=0; for(u64 t:x.bk) if(t>=std::min(a,b)&&t<=std::max(a,b)) cn++; o->req=strf("bop count %s %s..%s\r\n",x.key.c_str(),bkt(a,M->hexb).c_str(),bkt(b,M->hexb).c_str()); ex=strf("COUNT=%d\r\n",cn); } }
    if(ex.empty()) ex=strf("VALUE 11 %d\r\n",cnt)+body+"END\r\n"; }
  else { int F=(int)M->forest.size(); bool mg=r.chance(0.4); int n=r.chance(M->rep?0.9:0.25)?F+8:1+(int)r.logu(F+8); if(mg&&n>200) n=200; vector<int> id=pickidx(r,F+8,n); string ks; u64 hi=0; for(int i:M->forest) hi=std::max(hi,M->o[i].bk.back()); hi+=5; u64 a=r.below(hi),b=r.below(hi); if(r.chance(0.5)){ a=0; b=hi; if(r.chance(0.5)) std::swap(a,b); } bool desc=a>b; u64 lo=std::min(a,b),up=std::max(a,b); vector<string> names;
    for(int i:id){ names.push_back(i<F?M->o[M->forest[i]].key:longname("nobt",i,(int)r.range(8,60))); if(!ks.empty()) ks+=" "; ks+=names.back(); }
    if(mg){ size_t off=r.chance(0.6)?0:r.below(4),ct=r.range(1,50); for(size_t q=0;q<id.size();q++){ if(id[q]>=F){ ex+="VALUE "+names[q]+" NOT_FOUND\r\n"; continue; } const WObj&x=M->o[M->forest[id[q]]]; vector<int> in; for(int i=0;i<(int)x.v.size();i++) if(x.bk[i]>=lo&&x.bk[i]<=up) in.push_back(i); if(desc) std::reverse(in.begin(),in.end()); string e; size_t k=0; for(size_t i=off;i<in.size()&&k<ct;i++,k++) e+="ELEMENT "+el(x,in[i],2,M->hexb); if(!k) ex+="VALUE "+names[q]+" NOT_FOUND_ELEMENT\r\n"; else ex+="VALUE "+names[q]+strf(" OK 11 %zu\r\n",k)+e; } ex+="END\r\n";
      o->req=strf("bop mget %zu %zu %s..%s",ks.size(),id.size(),bkt(a,M->hexb).c_str(),bkt(b,M->hexb).c_str())+(off?strf(" %zu",off):"")+strf(" %zu\r\n",ct)+ks+"\r\n"; o->frame=F_BMGET; }
    else { int mode=(int)r.below(3); size_t off=mode==0&&r.chance(0.3)?r.below(20):0,ct=1+r.logu(1900); vector<std::pair<u64,std::pair<int,int>>> m; string miss; int nm=0; for(size_t q=0;q<id.size();q++){ if(id[q]>=F){ miss+=names[q]+(mode==0?"\r\n":" NOT_FOUND\r\n"); nm++; continue; } const WObj&x=M->o[M->forest[id[q]]]; for(int i=0;i<(int)x.v.size();i++) if(x.bk[i]>=lo&&x.bk[i]<=up) m.push_back({x.bk[i],{M->forest[id[q]],i}}); } std::sort(m.begin(),m.end()); if(desc) std::reverse(m.begin(),m.end()); string e; size_t k=0; for(size_t i=off;i<m.size()&&k<ct;i++,k++) e+=M->o[m[i].second.first].key+" 11 "+el(M->o[m[i].second.first],m[i].second.second,2,M->hexb);
      ex=strf(mode==0?"VALUE %zu\r\n":"ELEMENTS %zu\r\n",k)+e+strf("MISSED_KEYS %d\r\n",nm)+miss+(mode==0?"":"TRIMMED_KEYS 0\r\n")+"END\r\n"; o->req=strf("bop smget %zu %zu %s..%s",ks.size(),id.size(),bkt(a,M->hexb).c_str(),bkt(b,M->hexb).c_str())+(off?strf(" %zu",off):"")+strf(" %zu%s\r\n",ct,mode==0?"":mode==1?" duplicate":" unique")+ks+"\r\n"; o->frame=F_BSMGET; if(mode==0) probe("old sort-merge requests"); }
    probe(ks.size()>32768?"key lists over one memory block":"short key lists"); }
  probe("wide reads"); if(ex.size()>40000) probe("replies over 40 kB"); o->note="wide"; static u32 seq; o->opaque=++seq; M->want[o->opaque]={ex,cmp}; return o; }
static void judge(Work*w,WR M,Op*o){ auto f=M->want.find(o->opaque); if(f==M->want.end()) return; auto q=f->second; M->want.erase(f); if(o->resp==q.first) return; if(M->oom&&(o->resp.compare(0,26,"SERVER_ERROR out of memory")==0||o->resp=="SERVER_ERROR internal\r\n")){ probe("wide reads refused"); return; }
  bool ok=false; if(q.second==1) ok=srt(o->resp)==srt(q.first); else if(q.second==2){ string a=srt(o->resp),b=srt(q.first); size_t pa=a.find("\r\n"),pb=b.find("\r\n"); if(pa!=string::npos&&a.substr(0,pa)==b.substr(0,pb)){ int n=atoi(a.c_str()+9); vector<string> x,y; auto sp=[](const string&s,size_t p,vector<string>&v){ p+=2; while(p<s.size()){ size_t e=s.find("\r\n",p); if(e==string::npos) break; v.push_back(s.substr(p,e-p)); p=e+2; } }; sp(a,pa,x); sp(b,pb,y); bool dup=false; for(size_t i=1;i<x.size();i++) if(x[i]==x[i-1]) dup=true; ok=!dup&&(int)x.size()==n+1&&std::includes(y.begin(),y.end(),x.begin(),x.end()); } }
  if(ok) return; size_t d=0; while(d<o->resp.size()&&d<q.first.size()&&o->resp[d]==q.first[d]) d++; size_t s=d>40?d-40:0; violate("wrong-reply","the reply to \"%s\" (%zu bytes, expected %zu) differs at byte %zu: \"%s\" instead of \"%s\"",esc(o->req.substr(0,160)).c_str(),o->resp.size(),q.first.size(),d,esc(o->resp.substr(s,160)).c_str(),esc(q.first.substr(s,160)).c_str()); }
static WR wide(Cfg&c,Work*w,Rng&r,u32 types,bool oom){ auto M=std::make_shared<Wide>(); M->types=types; M->oom=oom; M->rep=w->mem.count("lists"); Plan&p=w->p; p.p_bin=0; M->hexb=r.chance(0.2); int lim=oom?120:1500; bool rep=w->mem.count("lists"); bool lots=rep||(!oom&&r.chance(0.3)); size_t aim=33000+(rep?r.below(15000):r.logu(130000)); int kl=rep?(int)r.range(100,250):lots?(r.chance(0.6)?(int)r.range(100,250):r.chance(0.6)?(int)r.range(250,6000):(int)r.range(6000,15900)):r.chance(0.5)?(int)r.range(5,40):r.chance(0.7)?(int)r.range(100,250):(int)r.range(250,6000); 
  auto vlen=[&]{ return r.chance(0.5)?(int)r.range(1,20):(int)r.range(1,200); };
  if(types&1){ int n=oom?(int)r.range(5,40):lots?(int)(aim*4/(3*kl))+2:1+(int)r.logu(kl>1000?60:400); int vl=vlen(); for(int i=0;i<n;i++){ WObj x; x.type=0; x.key=longname("wkv",i,(int)r.range(kl/2,kl)); x.v.push_back(val((int)M->o.size(),i,r.chance(0.03)?(int)r.range(1000,9000):(int)r.range(1,vl))); M->kv.push_back((int)M->o.size()); M->o.push_back(x); } }
  int nb=(int)r.range(1,2); vector<int> ty; for(int t=1;t<=4;t++) if(types&(1u<<t)) ty.push_back(t); for(int k=0;k<nb&&!ty.empty();k++){ WObj x; x.type=ty[r.below(ty.size())]; x.key=longname("wbig",k,(int)r.range(5,30)); int n=oom?(int)r.range(10,lim):50+(int)r.logu(lim); int vl=vlen(),fl=(int)r.range(6,r.chance(0.5)?30:240); if(lots){ fl=(int)r.range(60,240); n=std::max(n,(int)(aim*4/(3*fl))+2); } u64 b=r.below(10); for(int i=0;i<n;i++){ x.v.push_back(val((int)M->o.size(),i,(int)r.range(1,vl))); x.f.push_back(longname("f",i,(int)r.range(4,fl))); b+=1+r.below(5); x.bk.push_back(b); x.ef.push_back(r.chance(0.3)?strf("%02X",(int)r.below(256)):""); } M->big.push_back((int)M->o.size()); M->o.push_back(x); }
  if((types&16)&&r.chance(0.7)){ int F=oom?(int)r.range(2,20):lots?(int)(aim*4/(3*kl))+2:2+(int)r.logu(kl>1000?60:250); F=std::min(F,990); int per=(int)r.range(1,oom?4:8); for(int k=0;k<F;k++){ WObj x; x.type=4; x.key=longname("wbt",k,(int)r.range(kl/2,kl)); int n=(int)r.range(1,per); u64 b=0; for(int i=0;i<n;i++){ x.v.push_back(val((int)M->o.size(),i,(int)r.range(1,30))); b+=1+r.below(20); x.bk.push_back(b*1000+k); x.ef.push_back(r.chance(0.2)?strf("%02X",(int)r.below(256)):""); } M->forest.push_back((int)M->o.size()); M->o.push_back(x); } }
  if(M->o.empty()||(M->kv.empty()&&M->big.empty()&&M->forest.empty())) return M; plan_build(*M,r); { size_t big=0; for(auto&x:M->o) for(size_t i=0;i<x.v.size();i++) big+=x.v[i].size()+x.key.size()+(i<x.f.size()?x.f[i].size():0)+30; if(big>300000&&p.ops>12&&!rep) p.ops=12; c.sndbuf=std::max(c.sndbuf,big>40000?std::max(4100,(int)(big/10)):0); c.seg_max=std::max(c.seg_max,(int)(big/30)); } M->rst=p.p_rst; M->fin=p.p_fin; M->stall=p.p_stall; M->reconn=p.p_reconn; p.p_rst=p.p_fin=p.p_stall=p.p_reconn=0; bool arms=oom; w->mem["building"]="1"; c.max_steps=std::max<u64>(c.max_steps,12000000); if(c.mean_preempt>0&&c.mean_preempt<1500) c.mean_preempt=1500; c.seg_max=std::max(c.seg_max,2000); c.p_seg*=0.3; c.p_rshort*=0.3; c.p_sshort*=0.5; c.sndbuf=std::max(c.sndbuf,400); p.p_batch=std::max(p.p_batch,0.2);
  w->on_boot.push_back([=](Work*w){ if(w->boot_no>1) return; for(auto x:w->cs) if(x->id) x->hold=true; w->cs[0]->total+=M->nbuild; W->faults_on=false; });
  auto g0=w->gen; double pr=rep||r.chance(0.5)?1:0.3+0.6*r.unit(); w->gen=[=](Work*w,CS*c,int idx,Rng&r)->Op*{ if(!M->build.empty()&&c->id==0){ Op*o=w->mk(X_RAW,""); o->req=M->build.front(); M->build.pop_front(); o->note=M->build.empty()?"built":"build"; o->expect_any={"STORED\r\n","CREATED_STORED\r\n"}; return o; } if(r.chance(pr)) return wread(w,M,r); return g0?g0(w,c,idx,r):nullptr; };
  auto h0=w->on_op; w->on_op=[=](Work*w,Op*o){ if(h0) h0(w,o); if(o->note=="wide") judge(w,M,o); if(o->note=="built"){ M->built=true; w->mem.erase("building"); w->p.p_rst=M->rst; w->p.p_fin=M->fin; w->p.p_stall=M->stall; w->p.p_reconn=M->reconn; W->faults_on=true; if(arms) g_malloc_fail_armed=true; for(auto x:w->cs) if(x->hold){ x->hold=false; CS*y=x; at_node((i64)W->rnet.below(2000000),[w,y]{ if(!y->conn) w->connect(y); }); } } };
  return M; }
static void light(Plan&p,Rng&r,int total){ p.clients=(int)r.range(1,4); p.ops=std::max(3,(int)r.range(total/2,total)/p.clients); p.think_ns=(i64)r.logu(1000000); p.depth=1+(int)r.logu(6); p.p_noreply=0; }
static void wcommon(Cfg&c,Work*w,Rng&r,u32 types){ Plan&p=w->p; keys(p,(int)r.range(1,3)); load(p,r,1,3,40); light(p,r,50); kv_mix(p,false); if(r.chance(0.6)) c.sndbuf=(int)r.range(400,r.chance(0.5)?5000:60000); if(r.chance(0.4)) seg(c,r); wide(c,w,r,types,false); }
static void c01w(Cfg&c,Work*w,Rng&r){ wcommon(c,w,r,1); }
static void c03w(Cfg&c,Work*w,Rng&r){ wcommon(c,w,r,2); }
static void c04w(Cfg&c,Work*w,Rng&r){ wcommon(c,w,r,4); }
static void c05w(Cfg&c,Work*w,Rng&r){ wcommon(c,w,r,8); }
static void c06w(Cfg&c,Work*w,Rng&r){ wcommon(c,w,r,16); }
static void c08w(Cfg&c,Work*w,Rng&r){ wcommon(c,w,r,31); Plan&p=w->p; p.p_stall=0; if(r.chance(0.4)){ p.close_ok=false; } auto g=w->gen; if(r.chance(0.5)) w->gen=[g](Work*w,CS*c,int idx,Rng&r)->Op*{ Op*o=g(w,c,idx,r); if(o&&o->note.empty()&&r.chance(0.3)) return rawop(w,r); return o; }; }
static void wide_keys(Work*w,WR M){ w->mem["pooled"]=strf("%d",(int)(M->kv.size()+M->forest.size()+40)*4*std::max(1,w->p.clients)); w->on_post.insert(w->on_post.begin(),[M](Work*w){ for(auto&x:M->o) w->p.keys.push_back(x.key); }); } // they are deleted with the others before the accounts are checked
static void c09w(Cfg&c,Work*w,Rng&r){ churn_drain(c,w,r); Plan&p=w->p; light(p,r,70); p.clients=(int)r.range(2,6); p.p_stall=r.chance(0.5)?0.1:0; u32 ty=31; if(r.chance(0.2)){ w->mem["lists"]="1"; ty=r.chance(0.5)?1:r.chance(0.5)?8:16; p.p_stall=0; p.p_rst=p.p_fin=p.p_reconn=0; p.clients=(int)r.range(1,3); p.ops=150/p.clients; } WR M=wide(c,w,r,ty,false); wide_keys(w,M); }
void fail_drain(Cfg&c,Work*w,Rng&r);
static void c15w(Cfg&c,Work*w,Rng&r){ Plan&p=w->p; keys(p,(int)r.range(2,4)); load(p,r,2,5,60); kv_mix(p,true); light(p,r,60); fail_drain(c,w,r); WR M=wide(c,w,r,31,true); wide_keys(w,M); }
static const vector<PropDef> P={ {"C01",{{"wide",c01w,1}}},{"C03",{{"wide",c03w,1}}},{"C04",{{"wide",c04w,1}}},{"C05",{{"wide",c05w,1}}},{"C06",{{"wide",c06w,6}}},{"C07",{{"wide",c06w,1}}},{"C08",{{"wide",c08w,1}}},{"C09",{{"wide",c09w,1}}},{"C15",{{"wide",c15w,1}}} };
const vector<PropDef>& props_wide(){ return P; }
