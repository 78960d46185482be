// Linearizability search (Wing-Gong-Lowe style) over per-connection sequential histories with crash barriers.
#include "work.h"
#include <stdlib.h>
#include <time.h>
double lin_wall=6; // CPU seconds one search may take; over that it counts as out of budget
struct Lin {
  const ModelCfg&c; vector<HOp>&hs; vector<vector<int>> procs; int epochs=1; u64 budget,nodes=0; std::unordered_set<u64> seen; vector<vector<int>> base; // base[e][p] first index of epoch e in proc p
  vector<HOp*> crash; size_t best=0; string bestwhy; bool over=false; vector<MState> finals; bool want; vector<int> path,bestpath; double t0=cpu(); static double cpu(){ struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+t.tv_nsec/1e9; }
  Lin(const ModelCfg&c_,vector<HOp>&h_,u64 b,bool w):c(c_),hs(h_),budget(b),want(w){
    map<int,int> pm; for(size_t i=0;i<hs.size();i++){ auto&h=hs[i]; if(h.crash){ crash.push_back(&h); continue; } if(!pm.count(h.proc)){ int n=pm.size(); pm[h.proc]=n; procs.push_back({}); } procs[pm[h.proc]].push_back(i); }
    epochs=crash.size()+1; }
  static u64 ih(const vector<int>&ix,int e,const MState&m){ u64 h=mix64(e); for(int x:ix) h=mix64(h^x); for(auto&s:m) h=mix64(h^s.hash()); return h; }
  void track(const MState&in,MState&out,const HOp&h){ if(!c.crashes){ for(int k:h.k) out[k].mut=out[k].nochg=false; return; } for(int k:h.k){ State&s=out[k]; if(!s.mut){ s.cand=in[k].cand; continue; } s.mut=false;
      { auto a=in[k].it, b=s.it; s.cand=in[k].cand; bool nc=s.nochg||(a?a->hash():0)==(b?b->hash():0); s.nochg=false; if(nc&&h.acked&&!c.async) continue; } // nothing changed: nothing may have been logged
      auto z=s.it; if(z&&z->cas){ auto y=std::make_shared<Item>(*z); y->cas=0; z=y; }
      if(h.acked&&!c.async) s.cand.assign(1,z); else { u64 q=z?z->hash():0; bool f=false; for(auto&x:s.cand) if((x?x->hash():0)==q) f=true; if(!f) s.cand.push_back(z); } } }
  bool dfs(vector<int> ix,int e,MState st,size_t done){
    size_t plen=path.size();
    for(;;){
      if(over) return false;
      // enabled operations
      u64 minret=~0ULL; bool req=false; for(size_t p=0;p<procs.size();p++) if(ix[p]<(int)procs[p].size()){ auto&h=hs[procs[p][ix[p]]]; if(h.epoch!=e) continue; if(!h.pending){ req=true; minret=std::min(minret,h.ret); } }
      if(!req&&e==epochs-1){ finals.push_back(st); if(done>best||bestpath.empty()) bestpath=path; return true; }
      vector<std::pair<u64,int>> cs; for(size_t p=0;p<procs.size();p++) if(ix[p]<(int)procs[p].size()){ auto&h=hs[procs[p][ix[p]]]; if(h.epoch==e&&h.inv<minret) cs.push_back({h.pending?~0ULL:h.ret,(int)p}); }
      std::sort(cs.begin(),cs.end());
      struct Next{ int p; vector<MState> out; }; vector<Next> nx; bool greedy=false; string why;
      vector<u64> hk(st.size()); for(size_t i=0;i<st.size();i++) hk[i]=st[i].hash();
      for(auto&q:cs){ int p=q.second; auto&h=hs[procs[p][ix[p]]]; if(++nodes>budget||((nodes&127)==0&&cpu()-t0>lin_wall)){ over=true; path.resize(plen); return false; }
        Next n; n.p=p; string w; model_apply(c,st,h,n.out,done>=best?&w:nullptr);
        if(const Op*pp=h.op->pipe_parent) if(!h.obs.known&&pp->st!=S_DONE&&!pp->sub.empty()&&h.op!=pp->sub[0]){ bool have=false; for(auto&o:n.out){ bool sm=true; for(size_t i=0;i<st.size();i++) if(o[i].hash()!=hk[i]) sm=false; have=have||sm; } if(!have){ n.out.push_back(st); for(int k:h.k) n.out.back()[k].mut=n.out.back()[k].nochg=false; } } // an error earlier in the pipe may have ended it
        if(n.out.size()==1&&!h.pending&&h.obs.known&&h.op->kind!=K_FLUSH&&h.op->kind!=K_FLUSHPFX/* a flush that changes nothing now may replace another one later */&&!(h.op->kind>=B_CREATE&&h.op->kind<=B_DECR&&h.obs.text.compare(0,12,"OUT_OF_RANGE")==0)&&!(c.may_oom&&(h.obs.st==R_OOM||(h.obs.st==R_TEXT&&h.obs.text.compare(0,12,"SERVER_ERROR")==0)))){ bool same=true; for(int k:h.k) if(n.out[0][k].hash()!=hk[k]) same=false; bool mut=false; for(int k:h.k) if(n.out[0][k].mut) mut=true;
          if(same&&!mut){ ix[p]++; done++; path.push_back(procs[p][ix[p]-1]); greedy=true; break; } }
        if(n.out.empty()&&done>=best&&w.size()) why+="  cannot be next: "+op_text(h.op)+(h.sub>=0?strf(" (part %d)",h.sub):"")+"\n    would need: "+w+"\n";
        if(!n.out.empty()) nx.push_back(std::move(n)); }
      if(greedy) continue;
      if(done>=best){ best=done; bestpath=path; bestwhy=""; for(size_t k=0;k<st.size();k++) bestwhy+=strf("  state[%zu]: ",k)+model_text(st[k])+"\n"; if(c.crashes) for(size_t k=0;k<st.size();k++) for(auto&x:st[k].cand){ State y; y.it=x; bestwhy+=strf("    may be recovered[%zu]: ",k)+model_text(y)+"\n"; } bestwhy+=why; }
      u64 key=ih(ix,e,st); if(!seen.insert(key).second){ path.resize(plen); return false; }
      for(auto&n:nx) for(auto&o:n.out){ auto&h=hs[procs[n.p][ix[n.p]]]; track(st,o,h); auto jx=ix; jx[n.p]++; path.push_back(procs[n.p][ix[n.p]]); if(dfs(jx,e,o,done+1)&&!want) return true; path.pop_back(); if(over){ path.resize(plen); return false; } }
      if(!req&&e<epochs-1){ // crash: every key reverts to one of its surviving candidates
        vector<int> jx=ix; for(size_t p=0;p<procs.size();p++) while(jx[p]<(int)procs[p].size()&&hs[procs[p][jx[p]]].epoch<=e) jx[p]++;
        MState m=st; if(crash[e]->orderly) for(auto&x:st){ auto y=x.it; if(y&&y->cas){ auto q=std::make_shared<Item>(*y); q->cas=0; y=q; } x.cand.assign(1,y); } vector<size_t> z(st.size(),0);
        for(;;){ for(size_t k=0;k<st.size();k++){ State n; n.it= st[k].cand.empty()? nullptr: st[k].cand[z[k]]; if(crash[e]->soft&&st[k].cand.size()>1) n.cand=st[k].cand; else n.cand.assign(1,n.it); m[k]=n; }
          if(dfs(jx,e+1,m,done)&&!want) return true; if(over) break;
          size_t k=0; while(k<z.size()&&++z[k]>=std::max<size_t>(1,st[k].cand.size())) z[k++]=0; if(k==z.size()) break; } }
      path.resize(plen); return want&&!finals.empty(); } }
};
LinResult lin_check(const ModelCfg&c,vector<HOp>&hs,MState init,u64 budget,bool want){
  LinResult r; Lin l(c,hs,budget,want); if(c.crashes) for(auto&s:init) if(s.cand.empty()) s.cand.assign(1,s.it);
  bool ok=l.dfs(vector<int>(l.procs.size(),0),0,init,0); if(ok||!l.finals.empty()){ r.verdict=1; r.finals=l.finals; if(l.over&&want) r.verdict=-1; return r; }
  if(l.over){ r.verdict=-1; return r; }
  r.verdict=0; string d="longest consistent order:\n"; size_t n=l.bestpath.size(), from= n>25? n-25:0; if(from) d+=strf("  ... %zu earlier operations ...\n",from); for(size_t i=from;i<n;i++) d+="  "+op_text(hs[l.bestpath[i]].op)+"\n"; r.detail=d+l.bestwhy; return r; }
// ---------------------------------------------------------------- observations
static bool pre(const string&s,const char*t){ return s.compare(0,strlen(t),t)==0; }
static bool digits(const string&s){ if(s.empty()||s.size()>20) return false; for(char c:s) if(c<'0'||c>'9') return false; return true; }
static bool iskvkind(int k){ return k>=K_GET&&k<=K_TOUCH; }
static int textcode(const string&t){
  if(t=="STORED\r\n") return R_STORED; if(t=="NOT_STORED\r\n") return R_NOT_STORED; if(t=="EXISTS\r\n") return R_EXISTS; if(t=="NOT_FOUND\r\n") return R_NOT_FOUND; if(t=="DELETED\r\n") return R_DELETED; if(t=="TOUCHED\r\n") return R_TOUCHED; if(t=="TYPE_MISMATCH\r\n") return R_TYPE;
  if(pre(t,"SERVER_ERROR out of memory")) return R_OOM; if(t=="CLIENT_ERROR cannot increment or decrement non-numeric value\r\n") return R_NONNUM; if(pre(t,"CLIENT_ERROR bad value")) return R_BADVALUE; if(pre(t,"CLIENT_ERROR object too large")||pre(t,"SERVER_ERROR object too large")) return R_TOOBIG; return R_TEXT; }
static u32 g32(const string&b,size_t p){ return ((u8)b[p]<<24)|((u8)b[p+1]<<16)|((u8)b[p+2]<<8)|(u8)b[p+3]; } static u64 g64(const string&b,size_t p){ return ((u64)g32(b,p)<<32)|g32(b,p+4); }
Obs op_observe(const Op*o,int sub){
  Obs b; if(o->pipe_parent){ const Op*pp=o->pipe_parent; if(pp->st!=S_DONE) return b; }
  else if(o->st==S_IMPLIED&&o->proto&&o->quiet){ b.known=true; switch(o->kind){ case K_GET: case K_GETS: b.st=R_MISS; break; case K_DELETE: b.st=R_DELETED; break; case K_INCR: case K_DECR: b.known=false; break; case K_FLUSH: b.st=R_OK; break; default: b.st=R_STORED; } return b; }
  else if(o->st!=S_DONE) return b;
  b.known=true;
  if(o->proto&&bin_coll(o->kind)){ b.st=R_TEXT; b.text=bin_coll_text(o); return b; }
  if(o->proto){ const string&r=o->resp; int stt=((u8)r[6]<<8)|(u8)r[7]; b.cas=g64(r,16); u8 ext=r[4]; u32 bl=g32(r,8); u32 kl=((u8)r[2]<<8)|(u8)r[3]; string body=r.substr(24+ext+kl,bl-ext-kl); b.text=body;
    switch(stt){ case 0: switch(o->kind){ case K_GET: case K_GETS: b.st=R_HIT; b.flags=g32(r,24); b.data=body; break; case K_DELETE: b.st=R_DELETED; b.cas=0; break; case K_INCR: case K_DECR: b.st=R_NUM; b.num=body.size()==8?g64(body,0):~0ULL; break; case K_FLUSH: case K_FLUSHPFX: b.st=R_OK; b.cas=0; break; default: b.st=R_STORED; } break;
      case 0x52: b.st=R_TEXT; b.text="NOT_FOUND\r\n"; b.cas=0; break;
      case 1: b.st= (o->kind==K_GET||o->kind==K_GETS)?R_MISS:R_NOT_FOUND; b.cas=0; break; case 2: b.st=R_EXISTS; b.cas=0; break; case 5: b.st=R_NOT_STORED; b.cas=0; break; case 6: b.st=R_NONNUM; b.cas=0; break; case 0x32: b.st=R_TYPE; b.cas=0; break; case 0x82: b.st=R_OOM; b.cas=0; break; case 3: b.st=R_TOOBIG; b.cas=0; break;
      default: b.st=R_TEXT; b.text=strf("binary status 0x%x",stt); b.cas=0; } 
    if(b.st==R_NOT_STORED&&o->kind==K_REPLACE) b.st=R_NOT_FOUND; if(b.st==R_NOT_STORED&&o->kind==K_ADD) b.st=R_EXISTS; return b; }
  b.text=o->resp;
  if(o->kind==K_GET||o->kind==K_GETS||o->kind==K_MGET||o->kind==K_MGETS){ vector<Blk2> v; if(!parse_get_blocks(o->resp,o->kind==K_GETS||o->kind==K_MGETS,v)){ b.st=pre(o->resp,"SERVER_ERROR")?R_OOM:R_TEXT; return b; } b.st=R_MISS; for(auto&x:v) if(x.key==o->keys[sub]){ b.st=R_HIT; b.flags=x.flags; b.cas=x.cas; b.data=x.data; } return b; }
  if(o->kind==K_INCR||o->kind==K_DECR){ string t=o->resp.substr(0,o->resp.size()-2); if(digits(t)){ b.st=R_NUM; b.num=strtoull(t.c_str(),0,10); return b; } }
  if(iskvkind(o->kind)){ b.st=textcode(o->resp); return b; }
  if(o->kind==K_FLUSH||o->kind==K_FLUSHPFX){ b.st=R_TEXT; return b; }
  if(o->kind==B_MGET){ b.st=R_TEXT; if(!pre(o->resp,"VALUE ")){ return b; } size_t p=0; const string&t=o->resp; for(int n=0;;n++){ size_t e=t.find("\r\n",p); if(e==string::npos||t.compare(p,6,"VALUE ")) break; size_t q=e+2; while(t.compare(q,8,"ELEMENT ")==0){ size_t i=q+8; // bkey [eflag] len data
          size_t s1=t.find(' ',i); i=s1+1; if(t.compare(i,2,"0x")==0) i=t.find(' ',i)+1; size_t L=atol(t.c_str()+i); i=t.find(' ',i)+1; q=i+L+2; } if(n==sub){ b.text=t.substr(p,q-p); return b; } p=q; } b.text="(no entry)"; return b; }
  b.st=R_TEXT; return b; }
string op_check_reply(const Op*o){ const string&t=o->resp;
  if(o->proto) return "";
  bool err=pre(t,"ERROR")||pre(t,"CLIENT_ERROR")||pre(t,"SERVER_ERROR");
  if(o->kind==K_GET||o->kind==K_GETS||o->kind==K_MGET||o->kind==K_MGETS){ if(err) return ""; vector<Blk2> v; if(!parse_get_blocks(t,o->kind==K_GETS||o->kind==K_MGETS,v)) return pre(t.substr(t.rfind("\r\n",t.size()-3)==string::npos?0:t.rfind("\r\n",t.size()-3)+2),"SERVER_ERROR")?"":"unparsable get reply"; size_t k=0; for(auto&x:v){ while(k<o->keys.size()&&o->keys[k]!=x.key) k++; if(k==o->keys.size()) return "get reply carries a key that was not asked for, or out of order: "+esc(x.key,60); k++; } return ""; }
  if(o->kind==B_MGET){ if(err||!pre(t,"VALUE ")) return ""; size_t n=0,p=0; while(t.compare(p,6,"VALUE ")==0){ size_t e=t.find("\r\n",p); string l=t.substr(p,e-p); if(n>=o->keys.size()||l.compare(6,o->keys[n].size()+1,o->keys[n]+" ")) return "bop mget reply does not name its keys in request order"; Op tmp=*o; Obs b=op_observe(o,(int)n); p+=b.text.size(); n++; } if(n!=o->keys.size()) return "bop mget reply misses keys"; return ""; }
  return ""; }
string key_prefix(const string&k){ size_t p=k.find(':',1); return p==string::npos?"":k.substr(0,p); }
static void add(vector<HOp>&v,const Op*o,const Op*time,int sub,vector<int> k,const vector<u64>&cs){
  HOp h; h.op=(Op*)o; h.sub=sub; h.k=std::move(k); h.proc=time->connid; h.inv=time->inv; h.inv_t=time->inv_t; h.obs=op_observe(o,sub); h.pending= !(time->st==S_DONE||time->st==S_IMPLIED); h.ret=h.pending?~0ULL:time->ret; h.ret_t=h.pending?0:time->ret_t; h.acked=time->st==S_DONE&&!time->noreply&&h.obs.text.compare(0,12,"OUT_OF_RANGE")&&h.obs.st!=R_OOM; /* only a success waits for the log */ h.epoch=0; for(u64 c:cs) if(c<h.inv) h.epoch++; v.push_back(h); }
string history_check(const ModelCfg&c0,const History&H,const vector<string>&keys,bool joint,u64 budget,u64&inc,u64&searched,map<string,vector<State>>*finals){
  map<string,int> id; for(size_t i=0;i<keys.size();i++) id[keys[i]]=i;
  size_t ng=joint?1:keys.size(); vector<vector<HOp>> g(ng); vector<size_t> muts(ng,0);
  auto put=[&](const Op*o,const Op*t,const string&key,int sub){ auto f=id.find(key); if(f==id.end()) return; int gi=joint?0:f->second; add(g[gi],o,t,sub,{joint?f->second:0},H.crash_seq); };
  for(const Op*o:H.ops){ if(o->st==S_NEW) continue; vector<const Op*> list; if(o->kind==X_PIPE) for(auto*x:o->sub){ if(o->st==S_DONE&&x->st!=S_DONE) continue; list.push_back(x); } else list.push_back(o);
    for(const Op*x:list){ switch(x->kind){
      case X_RAW: case X_NOOP: break;
      case K_GET: case K_GETS: case K_MGET: case K_MGETS: if(x->proto){ put(x,o,x->key,0); break; } for(size_t i=0;i<x->keys.size();i++) put(x,o,x->keys[i],i); break;
      case B_MGET: if(x->st==S_DONE&&x->resp.compare(0,6,"VALUE ")) break; for(size_t i=0;i<x->keys.size();i++) put(x,o,x->keys[i],i); break;
      case B_SMGET: if(joint){ vector<int> k; for(auto&q:x->keys) k.push_back(id[q]); add(g[0],x,o,-1,k,H.crash_seq); } break;
      case K_FLUSH: for(auto&k:keys) put(x,o,k,-1); break;
      case K_FLUSHPFX: for(auto&k:keys) if(key_prefix(k)==(x->key=="<null>"?string():x->key)) put(x,o,k,-1); break;
      default: put(x,o,x->key,-1); } } }
  ModelCfg c=c0; c.crashes=!H.crash_seq.empty();
  for(size_t i=0;i<ng;i++){
    for(auto&h:g[i]) if(h.pending){ h.ret_t=c.end_t; for(size_t e=0;e<H.crash_seq.size();e++) if(h.inv<H.crash_seq[e]){ h.ret_t=H.crash_t[e]; break; } }
    std::stable_sort(g[i].begin(),g[i].end(),[](const HOp&a,const HOp&b){ return a.inv<b.inv; });
    for(size_t e=0;e<H.crash_seq.size();e++){ HOp h; h.op=nullptr; h.crash=true; h.orderly=H.crash_kind[e]==1; h.soft=H.crash_kind[e]==0; /* a killed process: what recovery reads may not be durable yet */ h.proc=-1; h.inv=h.ret=H.crash_seq[e]; h.inv_t=h.ret_t=H.crash_t[e]; g[i].push_back(h); }
    MState init(joint?keys.size():1); LinResult r=lin_check(c,g[i],init,budget,finals!=nullptr); searched++;
    if(r.verdict<0) inc++; else if(r.verdict==0) return "no linearization for "+(joint?string("the keys"):"key "+esc(keys[i],80))+"\n"+r.detail;
    if(finals&&r.verdict==1&&!joint) for(auto&m:r.finals) (*finals)[keys[i]].push_back(m[0]); }
  return ""; }
