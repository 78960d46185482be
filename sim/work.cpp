#include "run.h"
#include <stdlib.h>
#include <stdio.h>
map<string,string> parse_stats(const string&t){ map<string,string> m; size_t p=0; while(p<t.size()){ size_t e=t.find("\r\n",p); if(e==string::npos) break; string l=t.substr(p,e-p); p=e+2; if(l.compare(0,5,"STAT ")) continue; size_t s=l.find(' ',5); if(s!=string::npos) m[l.substr(5,s-5)]=l.substr(s+1); } return m; }
Op* Work::mk(int kind,const string&key){ Op*o=new Op(); o->kind=kind; o->key=key; return o; }
static u64 opid(int c,int i){ return (u64)c*100000+i; }
void Work::connect(CS*c){ if(c->done||phase==3) return; CS*x=c;
  if(!net_listening()){ at_node(2000000,[this,x]{ connect(x); }); return; }
  c->conn=net_connect(c->id); byconn[c->conn->id]=c; nconn++; c->buf.clear(); c->doomed=false; }
void Work::boot(){
  boot_no++; phase=0; ended=false; recovering=boot_no>1; W->faults_on=true;
  if(boot_no==1){ for(int i=0;i<p.clients;i++){ CS*c=new CS(); c->id=i; c->total=p.ops; cs.push_back(c); } crng=Rng(mix64(W->cfg.seed^0xc11e47)); }
  for(auto f:on_boot) f(this);
  if(boot_no>1&&p.audit_after_crash&&p.audit){ for(auto c:cs) c->hold=true; start_audit(); }
  for(auto c:cs){ c->conn=nullptr; if(c->hold||c->done) continue; CS*x=c; at_node((i64)W->rnet.below(2000000),[this,x]{ connect(x); }); }
  if(boot_no>1&&phase==0) at_node(1000,[this]{ maybe_phase(); });
  last_progress=W->now; watchdog_on=true; at_node(5000000000LL,[this]{ watchdog(); }); }
void Work::watchdog(){ if(phase==3||ended) return;
  auto chk=[&](CS*c){ if(c&&!c->stalled) for(Op*o:c->out) if(o->st==S_SENT&&W->now-o->inv_t>W->cfg.liveness_ns){ violate("no-progress","no reply after %.1f s of simulated time: %s",(W->now-o->inv_t)/1e9,op_text(o).c_str()); return; } };
  for(auto c:cs) chk(c); chk(ctl);
  at_node(5000000000LL,[this]{ watchdog(); }); }
void Work::on_connected(Conn*c){ auto f=byconn.find(c->id); if(f==byconn.end()) return; CS*x=f->second; if(x==ctl){ step_script(); return; }
  x->bin=crng.chance(p.p_bin); x->depth=1+(int)crng.below(p.depth); issue(x); }
void Work::send_op(CS*c,Op*o,string*batch){
  o->client=c->id; o->conn=c->conn; o->connid=c->conn->id; o->proto=(o->kind!=X_RAW&&c->bin)?1:o->proto; if(o->proto){ o->opaque=o->id; o->noreply=false; } if(o->kind!=X_RAW||o->req.empty()) op_encode(o); if(on_send) on_send(this,c,o);
  o->inv=evs++; o->inv_t=W->now; o->st=S_SENT; H_.ops.push_back(o); c->out.push_back(o); LOG("send %s",op_text(o).c_str()); H(o->id*31+o->kind);
  if(batch) *batch+=o->req; else net_client_send(c->conn,o->req); }
void Work::issue(CS*c){
  if(phase==3||c->done||!c->conn||c->conn->cli_dead||c->hold||c->stop) return; string batch; size_t nb=0;
  while((int)c->out.size()<c->depth&&c->next<c->total&&!c->stop){
    int idx=c->next++; u64 id=opid(c->id,idx); if(W->masks.ops.count(id)) continue;
    Rng r(mix64(W->cfg.seed*0x2545F4914F6CDD1DULL^id)); 
    if(p.p_rst+p.p_fin>0&&r.chance(p.p_rst+p.p_fin)){ // leave in the middle of things
      Op*o=genop(c,idx,r); if(o){ o->id=id; string b2; send_op(c,o,&b2); size_t cut=r.chance(0.5)?b2.size():r.below(b2.size()+1); batch+=b2.substr(0,cut); if(cut<b2.size()) o->st=S_SENT; }
      if(!batch.empty()) net_client_send(c->conn,batch); bool rst=r.chance(p.p_rst/(p.p_rst+p.p_fin)); CS*x=c; Conn*cn=c->conn; i64 d=r.chance(0.5)?0:(i64)r.below(400000);
      c->stop=true; at_node(d,[this,x,cn,rst]{ if(x->conn!=cn||cn->cli_dead) return; if(rst){ fault_note(F_CLIENT_RST); net_client_rst(cn);} else { fault_note(F_CLIENT_FIN); net_client_fin(cn);} lose(x,"client closed"); }); return; }
    Op*o=genop(c,idx,r); if(!o) continue; o->id=id; send_op(c,o,&batch); nb++;
    if(p.p_stall>0&&r.chance(p.p_stall)){ fault_note(F_CLIENT_STALL); net_client_stall(c->conn,true); c->stalled=true; Conn*cn=c->conn; CS*x=c; at_node((i64)r.logu(3000)*1000000LL,[cn,x]{ if(x->conn==cn) x->stalled=false; net_client_stall(cn,false); }); }
    if(!crng.chance(p.p_batch)) { net_client_send(c->conn,batch); batch.clear(); } }
  if(!batch.empty()) net_client_send(c->conn,batch);
  if(c->out.empty()&&c->next>=c->total){ c->done=true; if(p.leave){ net_client_fin(c->conn); c->conn=nullptr; } maybe_phase(); }
  else if(!c->out.empty()){ // trailing noreply operations: flush them with a probe so that their outcome is bounded
    bool need=true; for(Op*o:c->out) if(!(o->noreply||o->quiet)) need=false;
    if(need&&(c->next>=c->total||(int)c->out.size()>=c->depth)){ Op*o; if(c->bin){ o=mk(X_NOOP,""); } else { o=mk(K_GET,""); o->keys={p.keys.empty()?string("probe"):p.keys[0]}; } o->id=opid(c->id,50000+(int)evs%40000); send_op(c,o,nullptr); } } }
void Work::lose(CS*c,const char*why){ LOG("client %d loses conn: %s",c->id,why); for(Op*o:c->out){ if(o->st==S_SENT) o->st=S_LOST; } c->out.clear(); c->buf.clear(); c->conn=nullptr; c->stop=false; c->stalled=false;
  if(c==ctl) return; if(c->next>=c->total){ c->done=true; maybe_phase(); return; } CS*x=c; at_node((i64)crng.below(3000000),[this,x]{ if(!x->conn) connect(x); }); }
void Work::on_closed(Conn*cn){ auto f=byconn.find(cn->id); if(f==byconn.end()) return; CS*c=f->second; if(c->conn!=cn) return;
  if(in_node()&&!cn->refused&&!p.close_ok&&!cn->rst&&phase!=3&&!(may_close&&may_close(this,cn))){ string why="server closed a connection without being asked to"; if(!c->out.empty()) why+=", first unanswered: "+op_text(c->out.front()); violate("connection-closed","conn %d client %d: %s",cn->id,c->id,why.c_str()); return; }
  if(c==ctl){ lose(c,"closed"); if(in_node()&&phase!=3){ CS*x=ctl; ctl_cb=nullptr; at_node(3000000,[this,x]{ if(!x->conn) connect(x); }); } return; }
  lose(c,"closed by server"); }
static u32 r32(const string&b,size_t p){ return ((u8)b[p]<<24)|((u8)b[p+1]<<16)|((u8)b[p+2]<<8)|(u8)b[p+3]; }
void Work::on_data(Conn*cn){
  auto f=byconn.find(cn->id); if(f==byconn.end()) return; CS*c=f->second; c->buf+=cn->cli_in; cn->cli_in.clear(); if(c->conn!=cn) return; if(c->doomed){ c->buf.clear(); return; }
  // an error that ends the connection (p.oom_close): the server answers no particular request and must close
  auto doom=[&]()->bool{ if(!p.oom_close) return false; bool t=c->buf.compare(0,std::min<size_t>(26,c->buf.size()),string("SERVER_ERROR out of memory").substr(0,std::min<size_t>(26,c->buf.size())))==0, b=c->buf.size()>=8&&(u8)c->buf[0]==0x81&&(u8)c->buf[6]==0&&(u8)c->buf[7]==0x82; if(!t&&!b) return false; c->doomed=true; c->buf.clear(); probe("connections ended by an out-of-memory error"); LOG("client %d: connection doomed",c->id); return true; };
  while(!c->buf.empty()){
    if(c->out.empty()){ if(on_unsolicited&&on_unsolicited(this,cn,c->buf)) continue; if(doom()) return; violate("protocol","conn %d client %d: bytes that answer no request: \"%s\"",cn->id,c->id,esc(c->buf).c_str()); return; }
    size_t k=0; while(k<c->out.size()&&c->out[k]->noreply) k++;
    if(c->out.front()->proto){ // binary: match by opaque, skipping quiet requests that stay silent
      size_t used=0; int r=op_frame(c->out.front(),c->buf,used); if(r==0) return; if(r<0){ if(doom()) return; violate("protocol","conn %d: malformed binary reply \"%s\"",cn->id,esc(c->buf,80).c_str()); return; }
      u32 oq=r32(c->buf,12); k=0; while(k<c->out.size()&&c->out[k]->opaque!=oq){ if(!c->out[k]->quiet){ if(doom()) return; violate("protocol","conn %d: reply with opaque %u while the answer to %s is due",cn->id,oq,op_text(c->out[k]).c_str()); return; } k++; }
      if(k==c->out.size()){ if(doom()) return; violate("protocol","conn %d: binary reply with an opaque (%u) that was never sent",cn->id,oq); return; }
      Op*o=c->out[k]; if((u8)c->buf[1]!=(u8)o->req[1]){ if(doom()) return; violate("protocol","conn %d: reply opcode 0x%02x for %s",cn->id,(u8)c->buf[1],op_text(o).c_str()); return; }
      u32 bl=r32(c->buf,8), kl=((u8)c->buf[2]<<8)|(u8)c->buf[3], el=(u8)c->buf[4]; if(kl+el>bl){ violate("protocol","conn %d: inconsistent binary reply lengths",cn->id); return; }
      o->resp=c->buf.substr(0,used); c->buf.erase(0,used); for(size_t i=0;i<k;i++){ Op*q=c->out[i]; q->st=S_IMPLIED; q->ret=evs; q->ret_t=W->now; } evs+=1; c->out.erase(c->out.begin(),c->out.begin()+k+1); got(c,o); if(c->conn!=cn) return; continue; }
    if(p.oom_close&&c->buf.compare(0,42,"SERVER_ERROR out of memory reading request")==0&&doom()) return;
    if(k==c->out.size()){ if(doom()) return; violate("protocol","conn %d: a reply to noreply requests: \"%s\"",cn->id,esc(c->buf).c_str()); return; }
    Op*o=c->out[k]; size_t used=0; int r=op_frame(o,c->buf,used); if(r==0) return;
    if(r<0){ violate("protocol","conn %d: malformed reply \"%s\" to %s",cn->id,esc(c->buf,300).c_str(),op_text(o).c_str()); return; }
    o->resp=c->buf.substr(0,used); c->buf.erase(0,used); for(size_t i=0;i<k;i++){ Op*q=c->out[i]; q->st=S_IMPLIED; q->ret=evs; q->ret_t=W->now; } evs++; c->out.erase(c->out.begin(),c->out.begin()+k+1); got(c,o); if(c->conn!=cn) return; } }
void Work::got(CS*c,Op*o){
  o->st=S_DONE; o->ret=evs++; o->ret_t=W->now; last_progress=W->now; LOG("recv %s",op_text(o).c_str()); for(unsigned char ch:o->resp) W->hash=(W->hash^ch)*0x100000001b3ULL;
  if(o->kind==X_PIPE){ // distribute the response lines
    if(o->resp.compare(0,9,"RESPONSE ")==0){ long n=atol(o->resp.c_str()+9); size_t p2=o->resp.find("\r\n")+2; for(long i=0;i<n&&i<(long)o->sub.size();i++){ size_t e=o->resp.find("\r\n",p2); Op*s=o->sub[i]; s->resp=o->resp.substr(p2,e+2-p2); s->st=S_DONE; s->ret=o->ret; s->ret_t=o->ret_t; s->inv=o->inv; s->inv_t=o->inv_t; p2=e+2; }
      if(n>(long)o->sub.size()){ violate("protocol","pipe reply carries %ld lines for %zu commands",n,o->sub.size()); return; } if(n<(long)o->sub.size()&&o->resp.compare(p2,11,"PIPE_ERROR ")){ violate("protocol","pipe reply carries %ld lines for %zu commands: %s",n,o->sub.size(),esc(o->resp).c_str()); return; } } }
  else { string e=op_check_reply(o); if(!e.empty()){ violate("protocol","%s: %s",e.c_str(),op_text(o).c_str()); return; }
    if(o->kind==X_RAW&&!o->expect_any.empty()){ bool ok=false; for(auto&x:o->expect_any) if(o->resp.compare(0,x.size(),x)==0) ok=true; if(!ok){ violate("protocol","unexpected reply to %s",op_text(o).c_str()); return; } }
    if(o->kind==K_GETS||(o->proto&&o->kind!=K_DELETE)){ if(o->proto){ Obs b=op_observe(o,0); if(b.cas){ auto&t=tokens[o->key]; t.push_back(b.cas); if(t.size()>4) t.erase(t.begin()); } } else { vector<Blk2> v; parse_get_blocks(o->resp,true,v); for(auto&x:v){ auto&t=tokens[x.key]; t.push_back(x.cas); if(t.size()>4) t.erase(t.begin()); } } } }
  if(on_op) on_op(this,o);
  if(c==ctl){ auto cb=ctl_cb; ctl_cb=nullptr; if(cb) cb(o); step_script(); return; }
  if(c->stop) return;
  if(p.p_reconn>0&&c->out.empty()&&crng.chance(p.p_reconn)){ net_client_fin(c->conn); lose(c,"client reconnects"); return; }
  CS*x=c; i64 d=think? think(this,c): (i64)(p.think_ns*2*crng.unit()*crng.unit()); Conn*cn=c->conn; at_node(d,[this,x,cn]{ if(x->conn==cn) issue(x); }); }
void Work::maybe_phase(){ if(phase!=0) return; for(auto c:cs) if(!c->done) return; if(p.settle_ns){ phase=1; at_node(p.settle_ns,[this]{ start_audit(); }); } else start_audit(); }
void Work::start_audit(){
  phase=1; bool after_crash=recovering; recovering=false; if(!after_crash){ W->faults_on=W->cfg.knob("faults_in_audit",0); g_malloc_fail_armed=false; W->crash_at_disk=-1; }
  ctl=new CS(); ctl->id=90+boot_no; ctl->total=0; CS*x=ctl; 
  if(p.audit){ vector<Op*> ops; audit_ops(this,ops); int i=0; for(Op*o:ops){ o->id=opid(ctl->id,i++); script.push_back([o](Work*w){ w->ctl_op(o); return true; }); } }
  if(after_crash) script.push_back([](Work*w){ w->phase=0; w->ctl->done=true; bool all=true; for(auto c:w->cs){ c->hold=false; if(!c->done){ all=false; CS*y=c; at_node((i64)W->rnet.below(2000000),[w,y]{ if(!y->conn) w->connect(y); }); } } if(all) { w->start_audit(); } return true; });
  else { script.push_back([](Work*w){ w->phase=2; return false; }); for(auto&f:on_post){ auto g=f; script.push_back([g](Work*w){ g(w); return false; }); } script.push_back([](Work*w){ w->finish_run(); return true; }); }
  at_node(1000,[this,x]{ connect(x); }); }
void Work::finish_run(){ if(at_end){ auto f=at_end; at_end=nullptr; f(this); return; } phase=3; ended=true; run_done(); }
void Work::ctl_op(Op*o,std::function<void(Op*)> cb){ ctl_cb=cb; send_op(ctl,o,nullptr); }
void Work::step_script(){ while(!script.empty()){ auto f=script.front(); script.pop_front(); if(f(this)) return; } }
bool Work::node_ended(){
  for(auto c:cs){ for(Op*o:c->out) if(o->st==S_SENT) o->st=S_LOST; c->out.clear(); c->buf.clear(); c->conn=nullptr; c->stop=false; c->hold=false; c->stalled=false; }
  if(ctl){ for(Op*o:ctl->out) if(o->st==S_SENT) o->st=S_LOST; ctl->out.clear(); ctl->buf.clear(); ctl=nullptr; } script.clear(); ctl_cb=nullptr;
  if(on_exit) return on_exit(this); return false; }
string Work::verify(string&kind){
  for(auto&c:checks){ string s=c(this); if(!s.empty()){ kind="property"; size_t p2=s.find("::"); if(p2!=string::npos&&p2<40){ kind=s.substr(0,p2); s=s.substr(p2+2); } return s; } }
  if(!p.check_lin) return "";
  p.mc.end_t=W->now; p.mc.wall_off=W->wall_off; kind="not-linearizable"; return history_check(p.mc,H_,p.keys,p.joint,p.budget,inc,searched); }
void audit_ops(Work*w,vector<Op*>&out){
  set<int> kinds; for(auto&m:w->p.mix) kinds.insert(m.first); for(auto&v:w->p.keymix) for(auto&m:v) kinds.insert(m.first);
  auto has=[&](int a,int b){ for(int k:kinds) if(k>=a&&k<=b) return true; return false; };
  for(auto&k:w->p.keys){
    if(has(K_GET,K_TOUCH)){ Op*o=w->mk(K_GETS,k); o->keys={k}; out.push_back(o); }
    if(has(L_CREATE,L_GET)){ Op*o=w->mk(L_GET,k); o->from=0; o->to=-1; o->range=true; out.push_back(o); }
    if(has(S_CREATE,S_GET)){ Op*o=w->mk(S_GET,k); o->count=0; out.push_back(o); }
    if(has(M_CREATE,M_GET)){ Op*o=w->mk(M_GET,k); out.push_back(o); }
    if(has(B_CREATE,B_GBP)){ if(w->p.bk!=1&&w->p.bk!=2){ Op*o=w->mk(B_GET,k); o->b1.n=0; o->b2.n=~0ULL; o->range=true; out.push_back(o); }
      if(w->p.bk!=0){ Op*o=w->mk(B_GET,k); o->b1.bin=o->b2.bin=true; o->b1.s=string(1,'\0'); o->b2.s=string(31,'\xff'); o->range=true; out.push_back(o); } }
    out.push_back(w->mk(K_GETATTR,k)); } }
// ---------------------------------------------------------------- operation generator
static string value(Work*w,Rng&r,CS*c,int idx){ Plan&p=w->p; if(p.numeric&&(int)r.below(100)<p.numeric){ if(r.chance(0.06)){ const char*odd[]={""," ","\r\n","  \t","-1","18446744073709551616","12 x"," 7","9x"}; return odd[r.below(9)]; } u64 m=r.below(4); return strf("%llu",(unsigned long long)(m==0?~0ULL-r.below(5): m==1? r.below(10): r.below(100000))); }
  string s=strf("v%d.%d.",c->id,idx); if(p.fixval>0){ while((int)s.size()<p.fixval) s+=(char)('a'+r.below(26)); return s; } size_t n= r.chance(p.p_big)? (size_t)r.range(p.maxval,p.bigval): (size_t)r.below(p.maxval+1); while(s.size()<n){ if(r.chance(p.p_crlf)) s+="\r\n"; else s+=(char)('a'+r.below(26)); } return s; }
static BKey bkey(Work*w,Rng&r){ Plan&p=w->p; BKey k; int m=p.bk; if(m==3) m=r.chance(0.8)?0:1; u64 v=r.below(p.nbk); if(m==0){ k.n= r.chance(0.04)? ~0ULL-r.below(3): v; return k; } k.bin=true; if(m==1){ k.s=string(3,'\0')+(char)v; } else { size_t L=1+r.below(4); for(size_t i=0;i<L;i++) k.s+=(char)(r.below(3)*100); } return k; }
static string efl(Rng&r){ string s; size_t n=1+r.below(3); for(size_t i=0;i<n;i++) s+=(char)r.below(4); return s; }
static i64 overcap(Rng&r){ static const i64 v[]={-1,9999,10000,10001,20000,49999,50000,50001,100000,1000000,2000000000}; return v[r.below(11)]; }
static CAttr cattr(Work*w,Rng&r,int type){ Plan&p=w->p; CAttr a; a.flags=(u32)r.below(1000); a.exp=r.pick(p.exps); a.maxcount= p.p_over>0&&r.chance(p.p_over)? overcap(r): r.chance(p.p_max)? r.range(p.minmax,p.maxmax): (i64)r.below(2)*100-0; if(r.chance(0.7)){ a.has_ovfl=true; if(type==T_LIST) a.ovfl=OV_ERROR+(int)r.below(3); else if(type==T_BTREE){ int z[5]={OV_ERROR,OV_SMALL,OV_LARGE,OV_SSMALL,OV_SLARGE}; a.ovfl=z[r.below(5)]; } else a.ovfl=OV_ERROR; } a.unreadable=r.chance(p.p_unread); return a; }
static EFilter filter(Work*w,Rng&r){ EFilter f; if(!r.chance(w->p.p_flt)) return f; f.on=true; f.foff=(u32)r.below(3); size_t L=1+r.below(2); auto v=[&]{ string s; for(size_t i=0;i<L;i++) s+=(char)r.below(4); return s; }; if(r.chance(0.4)){ f.bitop=1+(int)r.below(3); f.bitv=v(); } f.cmp=(int)r.below(6); f.vals.push_back(v()); if(f.cmp<2&&r.chance(0.3)) f.vals.push_back(v()); return f; }
Op* Work::gen_kind(int kind,const string&key,Rng&r,CS*c){
  Op*o=mk(kind,key); int idx=c->next-1; auto V=[&]{ return value(this,r,c,idx); }; o->noreply=!c->bin&&r.chance(p.p_noreply); o->quiet=c->bin&&r.chance(p.p_quiet);
  auto nonr=[&]{ o->noreply=false; };
  switch(kind){
    case K_GET: case K_GETS: nonr(); o->keys={key}; if(!c->bin&&p.maxkeys>1&&r.chance(0.3)){ int n=1+(int)r.below(p.maxkeys); set<string> s; for(int i=0;i<n;i++) s.insert(r.pick(p.keys)); o->keys.assign(s.begin(),s.end()); for(size_t i=o->keys.size();i>1;i--) std::swap(o->keys[i-1],o->keys[r.below(i)]); } break;
    case K_MGET: case K_MGETS: case B_MGET: case B_SMGET: { nonr(); int n=1+(int)r.below(std::max<int>(1,std::min<int>(p.maxkeys,p.keys.size()))); vector<string> k=p.keys; for(size_t i=k.size();i>1;i--) std::swap(k[i-1],k[r.below(i)]); k.resize(n); o->keys=k; 
      if(kind==B_MGET||kind==B_SMGET){ o->b1=bkey(this,r); if(r.chance(0.85)){ o->range=true; do o->b2=bkey(this,r); while(o->b2.bin!=o->b1.bin); } o->filt=filter(this,r); if(r.chance(0.3)) o->offset=(i64)r.below(4); o->count=1+(i64)r.below(12); o->unique=r.chance(0.5); if(kind==B_SMGET&&o->offset>0&&r.chance(0.5)) o->offset=-1; if(kind==B_SMGET&&r.chance(0.15)){ o->oldsm=true; o->unique=false; } } break; }
    case K_SET: case K_ADD: case K_REPLACE: o->val=V(); o->flags=(u32)r.below(100000); o->exp=r.pick(p.exps); if(c->bin&&kind!=K_ADD&&r.chance(0.15)&&!tokens[key].empty()) o->cas=r.pick(tokens[key]); break;
    case K_CAS: o->val=V(); o->flags=(u32)r.below(1000); o->exp=r.pick(p.exps); { auto&t=tokens[key]; if(t.empty()||r.chance(0.05)) o->cas=0x7000000000000000ULL+r.below(1000); else o->cas=r.chance(0.7)?t.back():r.pick(t); } break;
    case K_APPEND: case K_PREPEND: o->val=V(); if(o->val.size()>200) o->val.resize(200); if(p.numeric&&r.chance(0.5)) o->val="1"; if(c->bin&&r.chance(0.1)&&!tokens[key].empty()) o->cas=r.pick(tokens[key]); break;
    case K_INCR: case K_DECR: o->delta=r.chance(0.1)?~0ULL-r.below(3):r.below(20); if(r.chance(0.3)){ o->create=true; o->init=r.below(100); o->flags=(u32)r.below(100); o->exp=r.pick(p.exps); } if(o->quiet) o->quiet=false; break;
    case K_DELETE: if(c->bin&&r.chance(0.2)&&!tokens[key].empty()) o->cas=r.pick(tokens[key]); break;
    case K_TOUCH: o->exp=r.pick(p.exps); break;
    case K_GETATTR: nonr(); if(r.chance(0.3)){ const char*n[]={"flags","expiretime","type","count","maxcount","overflowaction","readable","maxbkeyrange","trimmed"}; int k=1+(int)r.below(3); for(int i=0;i<k;i++) o->attrs.push_back({n[r.below(9)],""}); } break;
    case K_SETATTR: { nonr(); int k=1+(int)r.below(2); for(int i=0;i<k;i++){ switch(r.below(6)){ case 0: case 5: o->attrs.push_back({"expiretime",strf("%lld",(long long)r.pick(p.exps))}); break; case 1: o->attrs.push_back({"maxcount",strf("%lld",(long long)(p.p_over>0&&r.chance(p.p_over)?overcap(r):r.range(0,p.maxmax)))}); break; case 2: o->attrs.push_back({"overflowaction",ovfl_name[1+r.below(7)]}); break; case 3: o->attrs.push_back({"readable",r.chance(0.9)?"on":"off"}); break; case 4: if(p.mbr){ BKey b=bkey(this,r); if(r.chance(0.2)){ b=BKey(); b.n=0; } o->attrs.push_back({"maxbkeyrange",b.text()}); } else o->attrs.push_back({"expiretime","0"}); break; } }
      for(size_t i=1;i<o->attrs.size();i++) if(o->attrs[i].first==o->attrs[0].first){ o->attrs.resize(1); } break; }
    case K_FLUSH: o->exp=p.flushexp[r.below(p.flushexp.size())]; o->key=""; break;
    case K_FLUSHPFX: o->quiet=false; o->exp=p.flushexp[r.below(p.flushexp.size())]; o->key=p.prefixes.empty()?"pfx":r.pick(p.prefixes); break;
    case L_CREATE: o->attr=cattr(this,r,T_LIST); break; case S_CREATE: o->attr=cattr(this,r,T_SET); break; case M_CREATE: o->attr=cattr(this,r,T_MAP); break; case B_CREATE: o->attr=cattr(this,r,T_BTREE); break;
    case L_INSERT: o->val=V(); o->from= r.chance(0.6)? -(i64)r.below(2): r.range(-9,9); o->create=r.chance(p.p_create); o->attr=cattr(this,r,T_LIST); break;
    case L_DELETE: case L_GET: o->from=r.range(-9,9); o->range=r.chance(0.7); o->to=r.chance(0.4)?-1:r.range(-9,9); if(kind==L_DELETE) o->dd=r.chance(0.4)?2:1; else { nonr(); if(r.chance(0.3)) o->dd=1+(int)r.below(2); } break;
    case S_INSERT: case S_DELETE: case S_EXIST: o->val=strf("e%llu",(unsigned long long)r.below(p.nelem)); if(kind==S_INSERT){ o->create=r.chance(p.p_create); o->attr=cattr(this,r,T_SET); } if(kind==S_DELETE) o->dd=r.chance(0.4)?2:1; if(kind==S_EXIST) nonr(); break;
    case S_GET: nonr(); o->count=r.chance(0.5)?0:(i64)r.below(6); if(r.chance(0.3)) o->dd=1+(int)r.below(2); break;
    case M_INSERT: case M_UPSERT: case M_UPDATE: o->fields={strf("f%llu",(unsigned long long)r.below(p.nfields))}; o->val=V(); o->create=kind!=M_UPDATE&&r.chance(p.p_create); o->attr=cattr(this,r,T_MAP); break;
    case M_DELETE: case M_GET: { if(r.chance(0.7)){ set<string> s; int n=1+(int)r.below(4); for(int i=0;i<n;i++) s.insert(strf("f%llu",(unsigned long long)r.below(p.nfields+2))); o->fields.assign(s.begin(),s.end()); } if(kind==M_DELETE) o->dd=r.chance(0.4)?2:1; else { nonr(); if(r.chance(0.3)) o->dd=1+(int)r.below(2); } break; }
    case B_INSERT: case B_UPSERT: o->b1=bkey(this,r); o->val=p.numeric&&r.chance(0.5)?strf("%llu",(unsigned long long)r.below(1000)):V(); if(r.chance(p.p_ef)){ o->hasef=true; o->ef=efl(r); } o->create=r.chance(p.p_create); o->attr=cattr(this,r,T_BTREE); if(r.chance(0.2)){ o->getrim=true; nonr(); } break;
    case B_UPDATE: o->b1=bkey(this,r); o->range=r.chance(0.7); if(o->range) o->val=V(); if(!o->range||r.chance(0.6)){ o->efop=1+(int)r.below(3); if(o->efop<3) o->ef=efl(r); if(o->efop==2){ o->efbit=1+(int)r.below(3); o->efoff=(u32)r.below(2); } } break;
    case B_DELETE: case B_GET: case B_COUNT: o->b1=bkey(this,r); if(r.chance(0.75)){ o->range=true; do o->b2=bkey(this,r); while(o->b2.bin!=o->b1.bin); } o->filt=filter(this,r); if(kind!=B_COUNT&&r.chance(0.5)){ o->has_count=true; o->count=(i64)r.below(6); if(kind==B_GET&&r.chance(0.4)) o->offset=(i64)r.below(5); }
      if(kind==B_DELETE) o->dd=r.chance(0.4)?2:1; else { nonr(); if(kind==B_GET&&r.chance(0.25)) o->dd=1+(int)r.below(2); } break;
    case B_INCR: case B_DECR: o->b1=bkey(this,r); o->delta=r.chance(0.05)?~0ULL:1+r.below(20); if(r.chance(0.4)){ o->create=true; o->init=r.below(100); if(r.chance(0.5)){ o->hasef=true; o->ef=efl(r); } } break;
    case B_POS: case B_PWG: nonr(); o->b1=bkey(this,r); o->desc=r.chance(0.5); if(kind==B_PWG&&r.chance(0.8)){ o->has_count=true; o->count=(i64)r.below(5); } break;
    case B_GBP: nonr(); o->desc=r.chance(0.5); o->posfrom=(i64)r.below(9); if(r.chance(0.7)){ o->range=true; o->posto=(i64)r.below(9); } break;
    case X_NOOP: nonr(); o->quiet=false; o->key=""; break;
    case X_PIPE: { nonr(); int n=2+(int)r.below(p.gen_pipe_max-1); vector<std::pair<int,int>>&mx=p.mix; for(int i=0;i<n;i++){ for(int tries=0;tries<40;tries++){ int tot=0; for(auto&m:mx) tot+=m.second; int x=(int)r.below(tot); int kd=0; for(auto&m:mx){ if(x<m.second){ kd=m.first; break; } x-=m.second; }
        bool ok= kd==L_CREATE||kd==L_INSERT||kd==L_DELETE||kd==S_CREATE||kd==S_INSERT||kd==S_DELETE||kd==S_EXIST||kd==M_CREATE||kd==M_INSERT||kd==M_UPSERT||kd==M_UPDATE||kd==M_DELETE||kd==B_CREATE||kd==B_INSERT||kd==B_UPSERT||kd==B_UPDATE||kd==B_DELETE||kd==B_INCR||kd==B_DECR||kd==B_COUNT;
        if(kd==L_CREATE||kd==S_CREATE||kd==M_CREATE||kd==B_CREATE||kd==B_COUNT) ok=false; if(!ok) continue; Op*s=gen_kind(kd,r.pick(p.keys),r,c); s->noreply=false; s->getrim=false; s->frame=F_LINE; o->sub.push_back(s); break; } }
      if(o->sub.size()<2){ Op*q=gen_kind(K_GETATTR,key,r,c); return q; } break; }
  }
  if(c->bin&&o->exp<0) o->exp=0; // the binary field is unsigned
  if(c->bin&&bin_coll(kind)){ o->quiet=false; o->noreply=false; o->getrim=false; if(o->val.empty()&&(kind!=B_UPDATE||o->range)) o->val="v"; if(kind==K_GETATTR) o->attrs.clear(); if(kind==K_SETATTR) for(auto&a:o->attrs) { if(a.first=="readable") a.second="on"; if(a.first=="maxbkeyrange"&&a.second=="0") a.second="1000"; }
    if(o->create){ o->attr.has_ovfl=false; o->attr.unreadable=false; } } // what the binary request cannot say
  return o; }
Op* Work::genop(CS*c,int idx,Rng&r){ if(gen){ Op*o=gen(this,c,idx,r); if(o) return o; }
  size_t ki=r.below(p.keys.size()); string key=p.keys[ki]; auto&mx=p.keymix.empty()?p.mix:p.keymix[ki%p.keymix.size()];
  for(int tries=0;tries<50;tries++){ int tot=0; for(auto&m:mx) tot+=m.second; int x=(int)r.below(tot); int kd=0; for(auto&m:mx){ if(x<m.second){ kd=m.first; break; } x-=m.second; }
    if(c->bin){ bool ok=kd==K_GET||kd==K_GETS||kd==K_SET||kd==K_ADD||kd==K_REPLACE||kd==K_APPEND||kd==K_PREPEND||kd==K_INCR||kd==K_DECR||kd==K_DELETE||kd==X_NOOP||kd==K_FLUSH||kd==K_FLUSHPFX||kd==K_CAS||(p.bincoll&&bin_coll(kd)); if(!ok) continue; }
    else if(kd==X_NOOP) continue;
    return gen_kind(kd,key,r,c); }
  return nullptr; }
