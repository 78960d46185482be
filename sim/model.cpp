// Executable reference model of one arcus item, used by the linearizability search.
// Times are absolute server seconds; an operation executed at an unknown instant of [inv,ret] sees a clock in [clo,chi].
#include "work.h"
#include <stdlib.h>
#include <errno.h>
#include <ctype.h>
#define LL(x) ((long long)(x))
#define ULL(x) ((unsigned long long)(x))
static const i64 D30=60*60*24*30;
static u64 hs(const string&s,u64 h){ for(unsigned char c:s) h=(h^c)*0x100000001b3ULL; return mix64(h^s.size()); }
u64 Item::hash()const{ if(hm.v) return hm.v;
  u64 h=mix64(type*31+flags); h=mix64(h^expk^((u64)elo<<8)^((u64)ehi<<24)); h=mix64(h^(u64)slo*3^(u64)shi*7); h=hs(val,h); h=mix64(h^cas);
  if(type>T_KV){ h=mix64(h^(u64)maxcount^((u64)ovfl<<40)^((u64)readable<<50)^((u64)trimmed<<51)^((u64)hasmbr<<52)^((u64)bkt<<53)); if(hasmbr){ h=mix64(h^mbr.n); h=hs(mbr.s,h);} 
    for(auto&x:list) h=hs(x,h); for(auto&x:kv){ h=hs(x.first,h); h=hs(x.second,h);} for(auto&x:bt){ h=mix64(h^x.first.n); h=hs(x.first.s,h); h=hs(x.second.ef,h^x.second.hasef); h=hs(x.second.data,h);} }
  return hm.v=h; }
u64 State::hash()const{ u64 h=it?it->hash():0x1234567; h=mix64(h^flk^((u64)flo<<3)^((u64)fhi<<20)^((u64)ghi<<41)); for(u64 o:old) h=mix64(h^o); for(auto&c:cand) h=mix64(h^(c?c->hash():99)); return h; }
bool ef_match(const EFilter&f,const BElem&e){
  if(!f.on) return true; size_t L=f.bitop? f.bitv.size(): (f.vals.empty()?0:f.vals[0].size());
  if(!e.hasef||f.foff>=e.ef.size()||L>e.ef.size()-f.foff) return f.cmp==1;
  string x=e.ef.substr(f.foff,L); if(f.bitop) for(size_t i=0;i<L;i++){ char b=f.bitv[i]; x[i]= f.bitop==1? x[i]&b: f.bitop==2? x[i]|b: x[i]^b; }
  if(f.vals.size()>1){ bool any=false; for(auto&v:f.vals) if(v==x) any=true; return f.cmp==0?any:!any; }
  string v=f.vals[0]; 
  int c=memcmp(x.data(),v.data(),std::min(x.size(),v.size())); if(c==0) c= x.size()<v.size()?-1: x.size()>v.size();
  switch(f.cmp){ case 0: return c==0; case 1: return c!=0; case 2: return c<0; case 3: return c<=0; case 4: return c>0; default: return c>=0; } }
static string hexs(const string&s){ string o="0x"; for(unsigned char c:s) o+=strf("%02X",c); return o; }
static string elemtext(const BKey&k,const BElem&e){ string o=k.text(); if(e.hasef) o+=" "+hexs(e.ef); return o+strf(" %zu ",e.data.size())+e.data+"\r\n"; }
static u64 bknum(const BKey&k){ if(!k.bin) return k.n; u64 v=0; for(unsigned char c:k.s) v=v<<8|c; return v; }
string model_text(const State&s){
  if(!s.it) return "absent"; const Item&i=*s.it; string o=strf("type=%d flags=%u",i.type,i.flags);
  if(i.expk==2) o+=" sticky"; else if(i.expk==1) o+=strf(" exp[%lld,%lld]",LL(i.elo),LL(i.ehi)); if(i.cas) o+=strf(" cas=%llu",ULL(i.cas));
  if(i.type==T_KV) return o+" val="+esc(i.val,80);
  o+=strf(" n=%zu max=%lld ovfl=%s%s%s",i.size(),LL(i.maxcount),ovfl_name[i.ovfl],i.readable?"":" unreadable",i.trimmed?" trimmed":""); if(i.hasmbr) o+=" mbr="+i.mbr.text();
  int n=0; for(auto&x:i.list) if(n++<40) o+=" "+esc(x,16); for(auto&x:i.kv) if(n++<40) o+=" "+esc(x.first,16)+"="+esc(x.second,16); for(auto&x:i.bt) if(n++<40) o+=" "+x.first.text()+(x.second.hasef?"/"+hexs(x.second.ef):"")+"="+esc(x.second.data,16); return o; }
static i64 realmax(i64 m,i64 cap){ if(m<0) return -1; if(m==0) return 4000; if(m>cap) return cap; return m; }
static i64 effmax(const ModelCfg&c,const Item&i){ return i.maxcount>0?i.maxcount:c.cap(i.type); }

struct Exec {
  const ModelCfg&c; const HOp&h; const Op*o; i64 clo,chi; const Obs&ob; State s; vector<State>&outs; string*why;
  Exec(const ModelCfg&c_,const HOp&h_,i64 a,i64 b,const State&s_,vector<State>&o_,string*w):c(c_),h(h_),o(h_.op),clo(a),chi(b),ob(h_.obs),s(s_),outs(o_),why(w){}
  void push(const State&n){ for(auto&x:outs) if(x.hash()==n.hash()) return; outs.push_back(n); }
  static void retire(State&n){ if(n.it&&n.it->cas){ auto p=std::lower_bound(n.old.begin(),n.old.end(),n.it->cas); if(p==n.old.end()||*p!=n.it->cas) n.old.insert(p,n.it->cas); } }
  State with(IP ni,bool mod=true){ State n=s; if(mod){ retire(n); n.mut=true; } n.it=ni; if(!ni&&n.flk==1) n.flk=2; return n; }
  void miss(const string&exp){ if(why&&why->size()<600) *why+=(why->empty()?"":" | ")+exp; }
  // text outcome
  bool T(const string&t,IP ni,bool mod){ if(ob.known&&ob.text!=t&&!(o->proto&&ob.text==coll_canon(t))){ miss("\""+esc(t,160)+"\""); return false; } push(with(ni,mod)); return true; }
  bool same(const string&t){ return T(t,s.it,false); }
  // code outcome
  bool C(int code,IP ni,bool mod){ if(ob.known&&ob.st!=code){ miss(strf("code %d",code)); return false; } State n=with(ni,mod); if(ob.known&&ob.cas&&ni&&mod){ if(!bind(n,ob.cas)) return false; } push(n); return true; }
  bool bind(State&n,u64 cas){ // the current cas token of the item is observed to be `cas`
    if(n.it->cas){ if(n.it->cas!=cas){ miss(strf("cas %llu",ULL(n.it->cas))); return false; } return true; }
    if(std::binary_search(n.old.begin(),n.old.end(),cas)){ miss(strf("a cas token not used before (got %llu again)",ULL(cas))); return false; }
    auto x=std::make_shared<Item>(*n.it); x->cas=cas; n.it=x; return true; }
  void setexp(Item&i,i64 e){ if(e==0) i.expk=0; else if(e==-1) i.expk=2; else { i.expk=1; if(e<0) i.elo=i.ehi=-1; else if(e>D30) i.elo=i.ehi=e; else { i.elo=clo+e; i.ehi=chi+e; } } if(i.expk!=1) i.elo=i.ehi=0; }
  std::shared_ptr<Item> fresh(int type,u32 fl,i64 exp){ auto n=std::make_shared<Item>(); n->type=type; n->flags=fl; setexp(*n,exp); n->slo=clo; n->shi=chi; return n; }
  std::shared_ptr<Item> dupl(){ auto n=std::make_shared<Item>(*s.it); n->cas=0; return n; }
  void kv();
  void list(); void sett(); void mapp(); void btree(); void attr(); void flush();
  std::shared_ptr<Item> coll(int type,const CAttr&a){ auto n=fresh(type,a.flags,a.exp); n->maxcount=realmax(a.maxcount,c.cap(type)); n->readable=!a.unreadable;
    n->ovfl=a.has_ovfl?a.ovfl:0; if(!n->ovfl) n->ovfl= type==T_LIST?OV_TAIL: type==T_BTREE?OV_SMALL: OV_ERROR; return n; }
  void create(int type){ if(s.it) same("EXISTS\r\n"); else T("CREATED\r\n",coll(type,o->attr),true); }
  void run(){
    if((o->kind==L_INSERT||o->kind==S_INSERT||o->kind==S_DELETE||o->kind==S_EXIST||o->kind==M_INSERT||o->kind==M_UPSERT||o->kind==M_UPDATE||o->kind==B_INSERT||o->kind==B_UPSERT||o->kind==B_UPDATE)&&(i64)o->val.size()+2>c.elem_max){ same("CLIENT_ERROR too large value\r\n"); return; }
    switch(o->kind){
      case K_GET: case K_GETS: case K_MGET: case K_MGETS: case K_SET: case K_ADD: case K_REPLACE: case K_APPEND: case K_PREPEND: case K_CAS: case K_INCR: case K_DECR: case K_DELETE: case K_TOUCH: kv(); break;
      case K_GETATTR: case K_SETATTR: attr(); break;
      case K_FLUSH: case K_FLUSHPFX: flush(); break;
      case L_CREATE: create(T_LIST); break; case S_CREATE: create(T_SET); break; case M_CREATE: create(T_MAP); break; case B_CREATE: create(T_BTREE); break;
      case L_INSERT: case L_DELETE: case L_GET: list(); break;
      case S_INSERT: case S_DELETE: case S_EXIST: case S_GET: sett(); break;
      case M_INSERT: case M_UPSERT: case M_UPDATE: case M_DELETE: case M_GET: mapp(); break;
      default: if(o->kind>=B_CREATE&&o->kind<=B_GBP) btree(); else if(o->kind==X_RAW||o->kind==X_NOOP) push(s); else abort(); }
    if(c.may_oom) oom(); }
  void oom(){
    if(ob.known&&!(ob.st==R_OOM||(ob.st==R_TEXT&&ob.text.compare(0,12,"SERVER_ERROR")==0)||(o->kind==K_APPEND||o->kind==K_PREPEND)&&ob.st==R_NOT_STORED)) return;
    push(s); if((o->kind==K_SET||(o->proto&&o->kind==K_CAS))&&(!(o->proto&&o->cas)||(s.it&&(!s.it->cas||s.it->cas==o->cas)))) push(with(nullptr));
    bool del= o->getrim||(o->dd&&(o->kind==L_GET||o->kind==S_GET||o->kind==M_GET||o->kind==B_GET)); // done, but its reply could not be written
    if(del&&ob.known){ Obs u; HOp hh=h; hh.obs=u; Exec e(c,hh,clo,chi,s,outs,nullptr); const_cast<ModelCfg&>(c).may_oom=false; e.run(); const_cast<ModelCfg&>(c).may_oom=true; } }
};
// a number as the server reads one: strtoull over the value and its "\r\n", nothing but white space after the digits
static bool allnum(const string&s0,u64*out=nullptr){ string s=s0+"\r\n"; const char*b=s.c_str(); const char*e=b+s0.size(); const char*p=b; while(p<e&&isspace((unsigned char)*p)) p++; if(p==e) return false; char*q; errno=0; u64 v=strtoull(b,&q,10); if(errno==ERANGE||q==b||!isspace((unsigned char)*q)) return false; if((i64)v<0&&memchr(b,0x2d,q-b)) return false; if(out)*out=v; return true; }
void Exec::kv(){
  const Item*i=s.it.get(); bool isk=i&&i->type==T_KV;
  switch(o->kind){
  case K_GET: case K_GETS: case K_MGET: case K_MGETS: {
    if(!i){ C(R_MISS,s.it,false); return; }
    if(!isk){ C(o->proto?R_TYPE:R_MISS,s.it,false); return; }
    if(ob.known){ if(ob.st!=R_HIT||ob.flags!=i->flags||ob.data!=i->val){ miss(strf("hit flags=%u ",i->flags)+esc(i->val,100)); return; } State n=s; if(ob.cas&&!bind(n,ob.cas)) return; push(n); } else push(s); return; }
  case K_SET: case K_ADD: case K_REPLACE: case K_CAS: {
    auto n=fresh(T_KV,o->flags,o->exp); n->val=o->val; bool cas= o->kind==K_CAS||(o->proto&&o->cas&&o->kind!=K_ADD);
    if(i&&!isk){ C(R_TYPE,s.it,false); return; }
    if(cas){ if(!i) C(o->kind==K_REPLACE&&!o->proto?R_NOT_STORED:R_NOT_FOUND,s.it,false); else if(i->cas&&i->cas==o->cas) C(R_STORED,n,true); else C(R_EXISTS,s.it,false); return; }
    if(o->kind==K_ADD&&i){ C(o->proto?R_EXISTS:R_NOT_STORED,s.it,false); return; }
    if(o->kind==K_REPLACE&&!i){ C(o->proto?R_NOT_FOUND:R_NOT_STORED,s.it,false); return; }
    C(R_STORED,n,true); return; }
  case K_APPEND: case K_PREPEND: {
    if(!i){ C(R_NOT_STORED,s.it,false); return; } if(!isk){ C(R_TYPE,s.it,false); return; }
    if(o->proto&&o->cas&&!(i->cas&&i->cas==o->cas)){ C(R_EXISTS,s.it,false); return; }
    auto n=dupl(); n->slo=clo; n->shi=chi; n->val= o->kind==K_APPEND? i->val+o->val: o->val+i->val; C(R_STORED,n,true); return; }
  case K_INCR: case K_DECR: {
    if(i&&!isk){ C(R_TYPE,s.it,false); return; }
    if(!i){ if(!o->create){ C(R_NOT_FOUND,s.it,false); return; }
      auto n=fresh(T_KV,o->proto?0:o->flags,o->exp); n->val=strf("%llu",ULL(o->init)); if(ob.known&&ob.st==R_NUM&&ob.num!=o->init){ miss(strf("%llu",ULL(o->init))); return; } C(R_NUM,n,true); return; }
    if(!allnum(i->val)){ C(R_NONNUM,s.it,false); return; }
    u64 v=0; allnum(i->val,&v); u64 r= o->kind==K_INCR? v+o->delta: (o->delta>v?0:v-o->delta);
    auto n=dupl(); n->slo=clo; n->shi=chi; n->val=strf("%llu",ULL(r)); if(ob.known&&ob.st==R_NUM&&ob.num!=r){ miss(strf("%llu",ULL(r))); return; } C(R_NUM,n,true); return; }
  case K_DELETE:
    if(!i){ C(R_NOT_FOUND,s.it,false); return; }
    if(o->proto&&o->cas&&!(i->cas&&i->cas==o->cas)){ C(R_EXISTS,s.it,false); return; }
    C(R_DELETED,nullptr,true); return;
  case K_TOUCH: {
    if(!i){ C(R_NOT_FOUND,s.it,false); return; }
    bool st=i->expk==2, want=o->exp==-1; if(st!=want){ C(R_BADVALUE,s.it,false); return; }
    auto n=std::make_shared<Item>(*i); setexp(*n,o->exp); State x=s; x.it=n; x.mut=true; if(ob.known&&ob.st!=R_TOUCHED){ miss("TOUCHED"); return; } push(x); return; }
  } }
void Exec::list(){
  if(!s.it&&!(o->kind==L_INSERT&&o->create)){ same("NOT_FOUND\r\n"); return; }
  if(s.it&&s.it->type!=T_LIST){ same("TYPE_MISMATCH\r\n"); return; }
  if(o->kind==L_INSERT){
    bool cr=!s.it; std::shared_ptr<Item> n=cr?coll(T_LIST,o->attr):dupl(); i64 cc=n->list.size(), m=effmax(c,*n), x=o->from;
    bool bad= x>=0? (x>cc||x>m-1): (-x>cc+1||-x>m);
    if(bad){ same("OUT_OF_RANGE\r\n"); return; }
    if(cc>=m&&n->ovfl==OV_ERROR){ same("OVERFLOWED\r\n"); return; }
    if(cc>=m){ bool head; 
      if(x==0||x==-1) head= x==-1; 
      else { head= n->ovfl==OV_HEAD; if(head){ if(x>0) x--; } else { if(x<0) x++; } }
      if(head) n->list.pop_front(); else n->list.pop_back(); cc--; }
    if(x<0){ x+=cc+1; if(x<0) x=0; } if(x>cc) x=cc;
    n->list.insert(n->list.begin()+x,o->val); T(cr?"CREATED_STORED\r\n":"STORED\r\n",n,true); return; }
  const Item&i=*s.it; i64 cc=i.list.size(); i64 f=o->from, t=o->range?o->to:o->from;
  if(o->kind==L_GET&&!i.readable){ same("UNREADABLE\r\n"); return; }
  bool bad=cc<=0; if(!bad){ if(f<0) f+=cc; if(t<0) t+=cc; if(f<0){ if(t<0) bad=true; f=0; } else if(f>=cc){ if(t>=cc) bad=true; f=cc-1; } if(t<0) t=0; else if(t>=cc) t=cc-1; }
  if(bad){ same("NOT_FOUND_ELEMENT\r\n"); return; }
  string body; i64 cnt=0; if(f<=t) for(i64 k=f;k<=t;k++){ body+=strf("%zu ",i.list[k].size())+i.list[k]+"\r\n"; cnt++; } else for(i64 k=f;k>=t;k--){ body+=strf("%zu ",i.list[k].size())+i.list[k]+"\r\n"; cnt++; }
  IP ni=s.it; string tail="END\r\n"; bool mod=false;
  if(o->kind==L_DELETE||o->dd){ auto n=dupl(); n->list.erase(n->list.begin()+std::min(f,t),n->list.begin()+std::max(f,t)+1); mod=true; if(o->dd==2&&n->list.empty()){ ni=nullptr; tail="DELETED_DROPPED\r\n"; } else { ni=n; tail="DELETED\r\n"; } }
  if(o->kind==L_DELETE) T(tail,ni,true); else T(strf("VALUE %u %lld\r\n",i.flags,LL(cnt))+body+tail,ni,mod); }
static bool parse_elems(const string&t,u32&flags,vector<string>&v,string&tail){ // lop/sop get body
  size_t e=t.find("\r\n"); if(e==string::npos||t.compare(0,6,"VALUE ")) return false; char*q; flags=strtoul(t.c_str()+6,&q,10); long n=strtol(q,0,10); size_t p=e+2;
  for(long i=0;i<n;i++){ size_t sp=t.find(' ',p); if(sp==string::npos) return false; size_t L=atol(t.c_str()+p); if(sp+1+L+2>t.size()) return false; v.push_back(t.substr(sp+1,L)); p=sp+1+L+2; } tail=t.substr(p); return true; }
void Exec::sett(){
  if(!s.it&&!(o->kind==S_INSERT&&o->create)){ same("NOT_FOUND\r\n"); return; }
  if(s.it&&s.it->type!=T_SET){ same("TYPE_MISMATCH\r\n"); return; }
  if(o->kind==S_INSERT){ bool cr=!s.it; std::shared_ptr<Item> n=cr?coll(T_SET,o->attr):dupl(); i64 m=effmax(c,*n);
    if((i64)n->kv.size()>=m){ same("OVERFLOWED\r\n"); return; } if(n->kv.count(o->val)){ same("ELEMENT_EXISTS\r\n"); return; }
    n->kv[o->val]=""; T(cr?"CREATED_STORED\r\n":"STORED\r\n",n,true); return; }
  const Item&i=*s.it;
  if(o->kind==S_DELETE){ if(!i.kv.count(o->val)){ same("NOT_FOUND_ELEMENT\r\n"); return; } auto n=dupl(); n->kv.erase(o->val); if(o->dd==2&&n->kv.empty()) T("DELETED_DROPPED\r\n",nullptr,true); else T("DELETED\r\n",n,true); return; }
  if(!i.readable){ same("UNREADABLE\r\n"); return; }
  if(o->kind==S_EXIST){ same(i.kv.count(o->val)?"EXIST\r\n":"NOT_EXIST\r\n"); return; }
  if(i.kv.empty()){ same("NOT_FOUND_ELEMENT\r\n"); return; }
  u32 fl; vector<string> v; string tail; i64 want= (o->count==0||o->count>=(i64)i.kv.size())?(i64)i.kv.size():o->count;
  if(!ob.known){ if(o->dd==0){ push(s); return; } if(want==(i64)i.kv.size()){ if(o->dd==2) push(with(nullptr)); else { auto n=dupl(); n->kv.clear(); push(with(n)); } } else { auto n=dupl(); for(i64 k=0;k<want;k++) n->kv.erase(n->kv.begin()); push(with(n)); } return; }
  if(!parse_elems(ob.text,fl,v,tail)||fl!=i.flags||(i64)v.size()!=want){ miss(strf("VALUE %u %lld ...",i.flags,LL(want))); return; }
  auto n=dupl(); for(auto&x:v){ auto f=n->kv.find(x); if(f==n->kv.end()){ miss("only distinct members (got "+esc(x,40)+")"); return; } n->kv.erase(f); }
  string et= o->dd==0?"END\r\n": (o->dd==2&&n->kv.empty())?"DELETED_DROPPED\r\n":"DELETED\r\n"; if(o->proto?!tail.empty():tail!=et){ miss(et); return; }
  if(o->dd==0) push(s); else if(o->dd==2&&n->kv.empty()) push(with(nullptr)); else push(with(n)); }
static bool parse_map(const string&t,u32&flags,vector<std::pair<string,string>>&v,string&tail){ size_t e=t.find("\r\n"); if(e==string::npos||t.compare(0,6,"VALUE ")) return false; char*q; flags=strtoul(t.c_str()+6,&q,10); long n=strtol(q,0,10); size_t p=e+2;
  for(long i=0;i<n;i++){ size_t sp=t.find(' ',p); if(sp==string::npos) return false; string f=t.substr(p,sp-p); size_t sq=t.find(' ',sp+1); if(sq==string::npos) return false; size_t L=atol(t.c_str()+sp+1); if(sq+1+L+2>t.size()) return false; v.push_back({f,t.substr(sq+1,L)}); p=sq+1+L+2; } tail=t.substr(p); return true; }
void Exec::mapp(){
  bool ins=o->kind==M_INSERT||o->kind==M_UPSERT;
  if(!s.it&&!(ins&&o->create)){ same("NOT_FOUND\r\n"); return; }
  if(s.it&&s.it->type!=T_MAP){ same("TYPE_MISMATCH\r\n"); return; }
  if(ins){ bool cr=!s.it; std::shared_ptr<Item> n=cr?coll(T_MAP,o->attr):dupl(); auto f=n->kv.find(o->fields[0]);
    if(f!=n->kv.end()){ if(o->kind==M_UPSERT){ f->second=o->val; T("REPLACED\r\n",n,true); } else same("ELEMENT_EXISTS\r\n"); return; }
    if((i64)n->kv.size()>=effmax(c,*n)){ same("OVERFLOWED\r\n"); return; }
    n->kv[o->fields[0]]=o->val; T(cr?"CREATED_STORED\r\n":"STORED\r\n",n,true); return; }
  const Item&i=*s.it;
  if(o->kind==M_UPDATE){ if(!i.kv.count(o->fields[0])){ same("NOT_FOUND_ELEMENT\r\n"); return; } auto n=dupl(); n->kv[o->fields[0]]=o->val; T("UPDATED\r\n",n,true); return; }
  if(o->kind==M_DELETE){ auto n=dupl(); int d=0; if(o->fields.empty()){ d=n->kv.size(); n->kv.clear(); } else for(auto&f:o->fields) d+=n->kv.erase(f);
    if(!d){ same("NOT_FOUND_ELEMENT\r\n"); return; } if(o->dd==2&&n->kv.empty()) T("DELETED_DROPPED\r\n",nullptr,true); else T("DELETED\r\n",n,true); return; }
  if(!i.readable){ same("UNREADABLE\r\n"); return; }
  map<string,string> want; if(o->fields.empty()) want=i.kv; else for(auto&f:o->fields) if(i.kv.count(f)) want[f]=i.kv.at(f);
  if(want.empty()){ same("NOT_FOUND_ELEMENT\r\n"); return; }
  auto n=dupl(); if(o->dd) for(auto&x:want) n->kv.erase(x.first);
  State nx= o->dd==0? s: (o->dd==2&&n->kv.empty())? with(nullptr): with(n);
  if(ob.known){ u32 fl; vector<std::pair<string,string>> v; string tail; if(!parse_map(ob.text,fl,v,tail)||fl!=i.flags||v.size()!=want.size()){ miss(strf("VALUE %u %zu ...",i.flags,want.size())); return; }
    set<string> seen; for(auto&x:v){ auto f=want.find(x.first); if(f==want.end()||f->second!=x.second||!seen.insert(x.first).second){ miss("field "+esc(x.first,40)+" = "+(f==want.end()?string("(not requested or absent)"):esc(f->second,60))); return; } }
    string et= o->dd==0?"END\r\n": (o->dd==2&&n->kv.empty())?"DELETED_DROPPED\r\n":"DELETED\r\n"; if(tail!=et){ miss(et); return; } }
  push(nx); }
// ---------------------------------------------------------------- b+tree
struct Rng2 { bool sin, asc; BKey lo, hi; };
static Rng2 mkrange(const Op*o){ Rng2 r; BKey b2=o->range?o->b2:o->b1; r.sin=!o->range||o->b1==b2; r.asc= r.sin||o->b1<b2; r.lo=r.asc?o->b1:b2; r.hi=r.asc?b2:o->b1; return r; }
struct Scan { vector<std::pair<BKey,BElem>> got; bool edge=false; /* the scan ran off the end of the tree in its direction */ bool overlap=false;  };
// offset elements are skipped (after filtering), at most count (0: unlimited) are taken
static Scan scan(const Item&i,const Rng2&r,const EFilter&f,i64 off,i64 cnt){
  Scan z; const BKey&first=i.bt.begin()->first; const BKey&last=i.bt.rbegin()->first;
  if(r.sin){ auto p=i.bt.find(r.lo); if(p!=i.bt.end()&&off<=0&&ef_match(f,p->second)) z.got.push_back(*p);
    if(p==i.bt.end()&&i.trimmed){ if(i.ovfl==OV_SMALL&&r.lo<first) z.overlap=true; if(i.ovfl==OV_LARGE&&last<r.lo) z.overlap=true; } return z; }
  i64 sk=0; bool full=false;
  if(r.asc){ auto p=i.bt.lower_bound(r.lo); for(;p!=i.bt.end()&&!(r.hi<p->first);++p){ if(!ef_match(f,p->second)) continue; if(sk<off){ sk++; continue; } z.got.push_back(*p); if(cnt>0&&(i64)z.got.size()>=cnt){ full=true; break; } } }
  else { auto p=i.bt.upper_bound(r.hi); while(p!=i.bt.begin()){ --p; if(p->first<r.lo) break; if(!ef_match(f,p->second)) continue; if(sk<off){ sk++; continue; } z.got.push_back(*p); if(cnt>0&&(i64)z.got.size()>=cnt){ full=true; break; } } }
  if(i.trimmed){ if(i.ovfl==OV_SMALL&&r.lo<first&&(r.asc||!full)) z.overlap=true; if(i.ovfl==OV_LARGE&&last<r.hi&&(!r.asc||!full)) z.overlap=true; }
  return z; }
void Exec::btree(){
  bool ins=o->kind==B_INSERT||o->kind==B_UPSERT;
  string keyp= o->kind==B_MGET? "VALUE "+o->keys[h.sub]+" ":"";
  auto err=[&](const char*e){ if(o->kind==B_MGET) same(keyp+e+"\r\n"); else same(string(e)+"\r\n"); };
  if(!s.it&&!(ins&&o->create)){ err("NOT_FOUND"); return; }
  if(s.it&&s.it->type!=T_BTREE){ err("TYPE_MISMATCH"); return; }
  bool incr=o->kind==B_INCR||o->kind==B_DECR;
  if(ins||incr){
    bool cr=!s.it; std::shared_ptr<Item> n=cr?coll(T_BTREE,o->attr):dupl();
    if((n->bt.size()>0||n->hasmbr)&&n->bkt&&(n->bkt==2)!=o->b1.bin){ err("BKEY_MISMATCH"); return; }
    auto f=n->bt.find(o->b1); BElem ne; ne.hasef=o->hasef; ne.ef=o->ef; ne.data=o->val; string okresp=cr?"CREATED_STORED\r\n":"STORED\r\n";
    if(incr){
      if(f!=n->bt.end()){ if(!allnum(f->second.data)){ same("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"); return; }
        u64 v=0; allnum(f->second.data,&v); u64 r=o->kind==B_INCR? v+o->delta: (o->delta>=v?0:v-o->delta); f->second.data=strf("%llu",ULL(r)); T(strf("%llu\r\n",ULL(r)),n,true); return; }
      if(!o->create){ err("NOT_FOUND_ELEMENT"); return; }
      ne.data=strf("%llu",ULL(o->init)); okresp=ne.data+"\r\n"; }
    else if(f!=n->bt.end()){ if(o->kind==B_UPSERT){ f->second=ne; T("REPLACED\r\n",n,true); } else same("ELEMENT_EXISTS\r\n"); return; }
    // overflow checks
    bool trimone=false; bool dosmall=n->ovfl==OV_SMALL||n->ovfl==OV_SSMALL, dolarge=n->ovfl==OV_LARGE||n->ovfl==OV_SLARGE; bool silent=n->ovfl==OV_SSMALL||n->ovfl==OV_SLARGE; bool rangeov=false;
    if(n->bt.empty()) n->bkt=o->b1.bin?2:1;
    else {
      BKey first=n->bt.begin()->first,last=n->bt.rbegin()->first;
      if(n->hasmbr){ u64 mb=bknum(n->mbr), x=bknum(o->b1), lo=bknum(first), hi=bknum(last);
        if(o->b1<first&&hi-x>mb){ if(!dolarge){ err("OUT_OF_RANGE"); return; } rangeov=true; while(!n->bt.empty()&&bknum(n->bt.rbegin()->first)-x>mb) n->bt.erase(std::prev(n->bt.end())); if(!silent) n->trimmed=false; }
        else if(last<o->b1&&x-lo>mb){ if(!dosmall){ err("OUT_OF_RANGE"); return; } rangeov=true; while(!n->bt.empty()&&x-bknum(n->bt.begin()->first)>mb) n->bt.erase(n->bt.begin()); if(!silent) n->trimmed=false; } }
      if(!rangeov&&(i64)n->bt.size()>=effmax(c,*n)){
        if(n->ovfl==OV_ERROR){ err("OVERFLOWED"); return; }
        if(dosmall&&o->b1<first){ auto m=dupl(); if(!silent) m->trimmed=true; T("OUT_OF_RANGE\r\n",m,m->trimmed!=s.it->trimmed); return; }
        if(dolarge&&last<o->b1){ auto m=dupl(); if(!silent) m->trimmed=true; T("OUT_OF_RANGE\r\n",m,m->trimmed!=s.it->trimmed); return; }
        trimone=true; } }
    n->bt[o->b1]=ne; string tr;
    if(trimone){ auto v=dosmall? n->bt.begin(): std::prev(n->bt.end()); if(!silent) n->trimmed=true; tr=elemtext(v->first,v->second); n->bt.erase(v); }
    if(ins&&o->getrim&&trimone){ T(strf("VALUE %u 1\r\n",n->flags)+tr+"TRIMMED\r\n",n,true); return; }
    T(okresp,n,true); return; }
  const Item&i=*s.it; bool empty=i.bt.empty();
  bool mism= i.bkt&&(i.bkt==2)!=o->b1.bin;
  if(o->kind==B_UPDATE){
    if(empty){ err("NOT_FOUND_ELEMENT"); return; } if(mism){ err("BKEY_MISMATCH"); return; } auto n=dupl(); auto f=n->bt.find(o->b1); if(f==n->bt.end()){ err("NOT_FOUND_ELEMENT"); return; }
    if(o->efop==2){ size_t L=f->second.hasef?f->second.ef.size():0; if(o->efoff>=L||o->ef.size()>L-o->efoff){ err("EFLAG_MISMATCH"); return; } for(size_t k=0;k<o->ef.size();k++){ char&x=f->second.ef[o->efoff+k]; char b=o->ef[k]; x= o->efbit==1? x&b: o->efbit==2? x|b: x^b; } }
    else if(o->efop==1){ f->second.hasef=true; f->second.ef=o->ef; } else if(o->efop==3){ f->second.hasef=false; f->second.ef.clear(); }
    if(o->range) f->second.data=o->val; T("UPDATED\r\n",n,true); return; }
  Rng2 r=mkrange(o);
  switch(o->kind){
  case B_DELETE: { if(empty){ err("NOT_FOUND_ELEMENT"); return; } if(mism){ err("BKEY_MISMATCH"); return; } Scan z=scan(i,r,o->filt,0,o->has_count?o->count:0); if(z.got.empty()){ err("NOT_FOUND_ELEMENT"); return; } auto n=dupl(); for(auto&x:z.got) n->bt.erase(x.first); if(o->dd==2&&n->bt.empty()) T("DELETED_DROPPED\r\n",nullptr,true); else T("DELETED\r\n",n,true); return; }
  case B_GET: case B_MGET: {
    if(!i.readable){ err("UNREADABLE"); return; } i64 off=o->offset>0?o->offset:0;
    if(empty||off>=(i64)i.bt.size()){ err("NOT_FOUND_ELEMENT"); return; } if(mism){ err("BKEY_MISMATCH"); return; }
    i64 cnt=o->kind==B_MGET?o->count:(o->has_count?o->count:0); Scan z=scan(i,r,o->filt,off,cnt);
    if(z.got.empty()){ err(z.overlap?"OUT_OF_RANGE":"NOT_FOUND_ELEMENT"); return; }
    string body; 
    if(o->kind==B_MGET){ for(auto&x:z.got) body+="ELEMENT "+elemtext(x.first,x.second); string rest=strf(" %u %zu\r\n",i.flags,z.got.size())+body; same(keyp+(z.overlap?"TRIMMED":"OK")+rest); return; }
    for(auto&x:z.got) body+=elemtext(x.first,x.second); string head=strf("VALUE %u %zu\r\n",i.flags,z.got.size());
    if(o->dd==0){ same(head+body+(z.overlap?"TRIMMED\r\n":"END\r\n")); return; }
    auto n=dupl(); for(auto&x:z.got) n->bt.erase(x.first); if(o->dd==2&&n->bt.empty()) T(head+body+"DELETED_DROPPED\r\n",nullptr,true); else T(head+body+"DELETED\r\n",n,true); return; }
  case B_COUNT: { if(!i.readable){ err("UNREADABLE"); return; } if(mism){ err("BKEY_MISMATCH"); return; } size_t c2=0; if(!empty) c2=scan(i,r,o->filt,0,0).got.size(); same(strf("COUNT=%zu\r\n",c2)); return; }
  case B_POS: { if(!i.readable){ err("UNREADABLE"); return; } if(empty){ err("NOT_FOUND_ELEMENT"); return; } if(mism){ err("BKEY_MISMATCH"); return; } auto f=i.bt.find(o->b1); if(f==i.bt.end()){ err("NOT_FOUND_ELEMENT"); return; } i64 p=std::distance(i.bt.begin(),f); if(o->desc) p=i.bt.size()-1-p; same(strf("POSITION=%lld\r\n",LL(p))); return; }
  case B_PWG: { if(!i.readable){ err("UNREADABLE"); return; } if(empty){ err("NOT_FOUND_ELEMENT"); return; } if(mism){ err("BKEY_MISMATCH"); return; } auto f=i.bt.find(o->b1); if(f==i.bt.end()){ err("NOT_FOUND_ELEMENT"); return; }
    vector<std::pair<BKey,BElem>> v(i.bt.begin(),i.bt.end()); i64 p=std::distance(i.bt.begin(),f), N=v.size(); if(o->desc){ std::reverse(v.begin(),v.end()); p=N-1-p; } i64 ct=o->has_count?o->count:0; i64 a=std::max<i64>(0,p-ct), b=std::min<i64>(N-1,p+ct); string body; for(i64 k=a;k<=b;k++) body+=elemtext(v[k].first,v[k].second);
    same(strf("VALUE %lld %u %lld %lld\r\n",LL(p),i.flags,LL(b-a+1),LL(p-a))+body+"END\r\n"); return; }
  case B_GBP: { if(!i.readable){ err("UNREADABLE"); return; } i64 N=i.bt.size(); i64 a=o->posfrom,b=o->range?o->posto:o->posfrom; if(!N||(a>=N&&b>=N)){ err("NOT_FOUND_ELEMENT"); return; } a=std::min(a,N-1); b=std::min(b,N-1);
    vector<std::pair<BKey,BElem>> v(i.bt.begin(),i.bt.end()); if(o->desc) std::reverse(v.begin(),v.end()); string body; i64 cn=0; if(a<=b) for(i64 k=a;k<=b;k++,cn++) body+=elemtext(v[k].first,v[k].second); else for(i64 k=a;k>=b;k--,cn++) body+=elemtext(v[k].first,v[k].second);
    same(strf("VALUE %u %lld\r\n",i.flags,LL(cn))+body+"END\r\n"); return; }
  }
  abort(); }
// ---------------------------------------------------------------- attributes
static const char* type_name[]={"","kv","list","set","map","b+tree"};
void Exec::attr(){
  if(!s.it&&ob.known&&o->kind==K_SETATTR&&ob.text=="ATTR_ERROR bad value\r\n") for(auto&a:o->attrs) if(a.first=="readable"&&a.second!="on"){ push(s); return; }
  if(!s.it){ same("NOT_FOUND\r\n"); return; } const Item&i=*s.it; bool coll=i.type!=T_KV, bt=i.type==T_BTREE;
  if(o->kind==K_GETATTR){
    vector<string> names; for(auto&a:o->attrs) names.push_back(a.first);
    if(names.empty()){ names={"type","flags","expiretime"}; if(coll) for(auto n:{"count","maxcount","overflowaction","readable"}) names.push_back(n); if(bt){ if(o->proto) names.push_back("maxbkeyrange"); else for(auto n:{"maxbkeyrange","minbkey","maxbkey","trimmed"}) names.push_back(n); } }
    else for(auto&n:names){ bool col=n=="count"||n=="maxcount"||n=="overflowaction"||n=="readable", b=n=="maxbkeyrange"||n=="trimmed"; if((col&&!coll)||(b&&!bt)){ same("ATTR_ERROR not found\r\n"); return; } }
    i64 N=-2; vector<string> lines; auto kx=std::make_shared<Item>(i); bool narrow=false;
    for(auto&n:names){ string v; if(n=="type") v=type_name[i.type]; else if(n=="flags") v=strf("%u",i.flags); else if(n=="count") v=strf("%zu",i.size()); else if(n=="maxcount") v=strf("%lld",LL(effmax(c,i))); else if(n=="overflowaction") v=ovfl_name[i.ovfl]; else if(n=="readable") v=i.readable?"on":"off";
      else if(n=="maxbkeyrange") v=i.hasmbr?i.mbr.text():"0"; else if(n=="minbkey") v=i.bt.empty()?"-1":i.bt.begin()->first.text(); else if(n=="maxbkey") v=i.bt.empty()?"-1":i.bt.rbegin()->first.text(); else if(n=="trimmed") v=i.trimmed?"1":"0"; else if(n=="expiretime") v= i.expk==0?"0": i.expk==2?"-1":"?"; lines.push_back("ATTR "+n+"="+v); }
    lines.push_back("END"); string full; for(auto&l:lines) full+=l+"\r\n";
    if(ob.known){ size_t p=0; bool okk=true; for(auto&l:lines){ size_t e=ob.text.find("\r\n",p); if(e==string::npos){ okk=false; break; } string g=ob.text.substr(p,e-p); p=e+2;
        if(l.size()>2&&l.substr(l.size()-2)=="=?"){ if(g.compare(0,l.size()-1,l,0,l.size()-1)){ okk=false; break; } char*q; N=strtoll(g.c_str()+l.size()-1,&q,10); if(*q||(N<1&&N!=-2)){ okk=false; break; } i64 lo=std::max(i.elo,clo+N), hi=std::min(i.ehi,chi+N); if(N==-2){ lo=i.elo; hi=std::min(i.ehi,chi); } // it expired after it had been found
        if(lo>hi){ okk=false; miss(strf("expiretime in [%lld,%lld]",LL(i.elo-chi),LL(i.ehi-clo))); break; } kx->elo=std::max(kx->elo,lo); kx->ehi=std::min(kx->ehi,hi); narrow=true; if(kx->elo>kx->ehi){ okk=false; break; } }
        else if(g!=l){ okk=false; break; } }
      if(!okk||p!=ob.text.size()){ miss("\""+esc(full,400)+"\""); return; } }
    State n=s; if(narrow) n.it=kx; push(n); return; }
  // setattr: everything is validated before anything is changed
  auto n=std::make_shared<Item>(i); bool inapp=false; const char*e=nullptr; bool clrtrim=false;
  for(auto&a:o->attrs){ const string&k=a.first,&v=a.second;
    if(k=="expiretime"){ i64 x=atoll(v.c_str()); if((x==-1)!=(i.expk==2)){ e="ATTR_ERROR bad value\r\n"; break; } setexp(*n,x); }
    else if(!coll){ if(k=="maxcount"||k=="overflowaction"||k=="readable"||k=="maxbkeyrange"){ inapp=true; if(k=="overflowaction"){ bool okn=false; for(int q=1;q<=7;q++) if(v==ovfl_name[q]) okn=true; if(!okn){ e="ATTR_ERROR bad value\r\n"; break; } } if(k=="readable"&&v!="on"){ e="ATTR_ERROR bad value\r\n"; break; } } else { e="ATTR_ERROR not found\r\n"; break; } }
    else if(k=="maxcount"){ i64 m=realmax(atoll(v.c_str()),c.cap(i.type)); if(m>0&&m<(i64)i.size()){ e="ATTR_ERROR bad value\r\n"; break; } n->maxcount=m; }
    else if(k=="overflowaction"){ int q=0; for(int z=1;z<=7;z++) if(v==ovfl_name[z]) q=z; bool fit= q==OV_ERROR||(i.type==T_LIST&&(q==OV_HEAD||q==OV_TAIL))||(bt&&q>=OV_SMALL); if(!fit){ e="ATTR_ERROR bad value\r\n"; break; } if(bt&&q!=i.ovfl) clrtrim=true; n->ovfl=q; }
    else if(k=="readable"){ if(v!="on"){ e="ATTR_ERROR bad value\r\n"; break; } n->readable=true; }
    else if(k=="maxbkeyrange"){ if(!bt){ inapp=true; continue; } // ignored or refused
      BKey m; if(v.size()>2&&v[1]=='x'){ m.bin=true; for(size_t p=2;p+1<v.size();p+=2) m.s+=(char)strtol(v.substr(p,2).c_str(),0,16); } else m.n=strtoull(v.c_str(),0,10);
      if(!m.bin&&m.n==0){ if(n->hasmbr){ n->hasmbr=false; if(i.bt.empty()) n->bkt=0; } }
      else { if(!i.bt.empty()){ if((i.bkt==2)!=m.bin){ e="ATTR_ERROR bad value\r\n"; break; } if(i.bt.size()>=2&&!(i.hasmbr&&i.mbr==m)&&bknum(i.bt.rbegin()->first)-bknum(i.bt.begin()->first)>bknum(m)){ e="ATTR_ERROR bad value\r\n"; break; } } else n->bkt=m.bin?2:1; n->hasmbr=true; n->mbr=m; } }
    else { e="ATTR_ERROR not found\r\n"; break; } }
  if(clrtrim) n->trimmed=false;
  if(e){ // which of several errors is reported is not specified
    if(ob.known&&ob.text.compare(0,10,"ATTR_ERROR")){ miss("\""+esc(e,80)+"\""); return; } push(s); return; }
  if(inapp&&ob.known&&ob.text.compare(0,10,"ATTR_ERROR")==0){ push(s); return; }
  if(ob.known&&ob.text!="OK\r\n"){ miss("\"OK\\r\\n\""); return; }
  State x=s; x.it=n; x.mut=true; x.nochg=n->hash()==i.hash(); push(x); } // an attribute that keeps its value need not be logged
void Exec::flush(){
  bool isp=o->kind==K_FLUSHPFX;
  if(ob.known&&isp&&ob.text=="NOT_FOUND\r\n"){ if(!s.it) push(s); else miss("OK (the prefix holds this item)"); return; }
  bool okr= !ob.known|| ob.st==R_OK|| ob.text=="OK\r\n"; if(!okr){ miss("OK"); return; }
  if(o->exp<=0){ State n=with(nullptr); if(n.flk==1) n.flk=2; push(n); return; }
  State n=s; if(n.flk&&n.flo<=chi) n.ghi=std::max(n.ghi,n.fhi); n.flk=(isp&&!s.it)?2:1; n.flo=clo+o->exp-1; n.fhi=chi+o->exp-1; push(n); }

// views of a key that the clock, a delayed flush or eviction allow at the instant of the operation
static void views(const ModelCfg&c,const HOp&h,i64 clo,i64 chi,const State&s,vector<State>&out){
  vector<State> v; 
  if(s.it&&s.it->expk==1){ if(s.it->elo<=chi){ State d=s; Exec::retire(d); d.it=nullptr; if(d.flk==1) d.flk=2; v.push_back(d); }
    if(!(s.it->ehi<=clo)){ State a=s; if(a.it->elo<clo+1){ auto x=std::make_shared<Item>(*a.it); x->elo=clo+1; a.it=x; } v.push_back(a); } }
  else v.push_back(s);
  for(auto&x:v){
    bool dead=false,alive=true;
    if(x.it&&x.flk){ dead= x.flo<=chi&&x.it->slo<=x.fhi; alive= x.fhi>clo||x.it->shi>x.flo||x.flk==2; }
    if(x.it&&x.ghi&&x.it->slo<=x.ghi) dead=true;
    if(x.it&&c.may_evict&&x.it->expk!=2) dead=true;
    if(dead){ State d=x; Exec::retire(d); d.it=nullptr; if(d.flk==1) d.flk=2; out.push_back(d); }
    if(alive){ State a=x; if(a.it&&chi-a.it->slo>=60&&a.it->shi<chi){ auto y=std::make_shared<Item>(*a.it); y->shi=chi; a.it=y; } out.push_back(a); } } }

// trimmed keys with equal bkeys may come in any order: put such runs in key order
static string canon_trim(const string&t){ size_t p=t.find("TRIMMED_KEYS "); if(p==string::npos) return t; p=t.find("\r\n",p); if(p==string::npos) return t; p+=2; vector<std::pair<string,string>> v; size_t e; string tail;
  while((e=t.find("\r\n",p))!=string::npos){ string l=t.substr(p,e-p); size_t sp=l.find(' '); if(sp==string::npos) break; v.push_back({l.substr(sp+1),l.substr(0,sp)}); p=e+2; }
  tail=t.substr(p); string o=t.substr(0,t.find("\r\n",t.find("TRIMMED_KEYS "))+2);
  for(size_t i=0;i<v.size();){ size_t j=i; while(j<v.size()&&v[j].first==v[i].first) j++; std::sort(v.begin()+i,v.begin()+j); i=j; }
  for(auto&x:v) o+=x.second+" "+x.first+"\r\n"; return o+tail; }
static void smget(const ModelCfg&c,const HOp&h,i64 clo,i64 chi,const MState&m,vector<MState>&out,string*why){
  const Op*o=h.op; size_t nk=h.k.size(); vector<vector<State>> vs(nk); for(size_t i=0;i<nk;i++) views(c,h,clo,chi,m[h.k[i]],vs[i]);
  vector<size_t> ix(nk,0); Rng2 r=mkrange(o);
  for(;;){
    struct El{ BKey b; string key; BElem e; u32 fl; }; vector<El> els; string missed,err; int nm=0; struct Tr{ string key; BKey b; }; vector<Tr> trs;
    auto lt=[&](const El&a,const El&b){ bool asc=r.asc; if(a.b==b.b) return asc? a.key<b.key: b.key<a.key; return asc? a.b<b.b: b.b<a.b; };
    i64 off=o->offset>0?o->offset:0, cnt=o->count; int kt=0; 
    bool anytrim=false; // without "duplicate" or "unique": an older form of the reply, whose handling of trimmed ranges is left open here
    for(size_t i=0;i<nk&&err.empty();i++){ const State&s=vs[i][ix[i]]; const string&key=o->keys[i]; if(o->oldsm&&s.it&&s.it->type==T_BTREE&&s.it->trimmed) anytrim=true;
      if(!s.it){ missed+=key+(o->oldsm?"\r\n":" NOT_FOUND\r\n"); nm++; continue; } const Item&it=*s.it; if(it.type!=T_BTREE){ err="TYPE_MISMATCH\r\n"; break; }
      if(!it.readable){ missed+=key+(o->oldsm?"\r\n":" UNREADABLE\r\n"); nm++; continue; } if(it.bt.empty()) continue; if((it.bkt==2)!=o->b1.bin){ err="BKEY_MISMATCH\r\n"; break; }
      const BKey&first=it.bt.begin()->first,&last=it.bt.rbegin()->first; bool exact=it.bt.count(o->b1); 
      // start of the request in space that was trimmed away
      if(it.trimmed&&!exact){ if(r.asc&&it.ovfl==OV_SMALL&&r.lo<first){ missed+=key+" OUT_OF_RANGE\r\n"; nm++; continue; } if(!r.asc&&it.ovfl==OV_LARGE&&last<r.hi){ missed+=key+" OUT_OF_RANGE\r\n"; nm++; continue; }
        if(r.sin&&((it.ovfl==OV_SMALL&&r.lo<first)||(it.ovfl==OV_LARGE&&last<r.lo))){ missed+=key+" OUT_OF_RANGE\r\n"; nm++; continue; } }
      Scan z=scan(it,r,o->filt,0,0);
      if(it.trimmed&&!r.sin){ if(z.got.empty()&&!exact&&z.overlap&&((r.asc&&last<r.lo)||(!r.asc&&r.hi<first))){ missed+=key+" OUT_OF_RANGE\r\n"; nm++; continue; }
        if(r.asc&&it.ovfl==OV_LARGE&&last<r.hi) trs.push_back({key,last}); if(!r.asc&&it.ovfl==OV_SMALL&&r.lo<first) trs.push_back({key,first}); }
      for(auto&x:z.got) els.push_back({x.first,key,x.second,it.flags}); }
    string text; (void)kt;
    if(!err.empty()) text=err;
    else { std::sort(els.begin(),els.end(),lt); vector<El> rs; for(auto&x:els){ if(o->unique&&!rs.empty()&&rs.back().b==x.b) continue; rs.push_back(x); }
      vector<El> rr; for(size_t i=off;i<rs.size()&&(i64)rr.size()<cnt;i++) rr.push_back(rs[i]); bool dup=false; for(size_t i=1;i<rr.size();i++) if(rr[i].b==rr[i-1].b) dup=true;
      bool full=(i64)rr.size()>=cnt; text=strf(o->oldsm?"VALUE %zu\r\n":"ELEMENTS %zu\r\n",rr.size()); for(auto&x:rr) text+=x.key+strf(" %u ",x.fl)+elemtext(x.b,x.e);
      text+=strf("MISSED_KEYS %d\r\n",nm)+missed; vector<Tr> tt; for(auto&t:trs) if(!full||(r.asc? t.b<rr.back().b: rr.back().b<t.b)) tt.push_back(t);
      std::sort(tt.begin(),tt.end(),[&](const Tr&a,const Tr&b){ if(a.b==b.b) return r.asc? a.key<b.key: b.key<a.key; return r.asc? a.b<b.b: b.b<a.b; });
      if(!o->oldsm){ text+=strf("TRIMMED_KEYS %zu\r\n",tt.size()); for(auto&t:tt) text+=t.key+" "+t.b.text()+"\r\n"; } text+=dup?"DUPLICATED\r\n":"END\r\n"; }
    if(h.obs.known&&!anytrim&&h.obs.text!=text&&canon_trim(h.obs.text)!=canon_trim(text)){ if(why&&why->size()<3000) *why+=(why->empty()?"":" | ")+esc(text,1200); }
    else { MState n=m; for(size_t i=0;i<nk;i++) n[h.k[i]]=vs[i][ix[i]]; out.push_back(n); }
    size_t q=0; while(q<nk&&++ix[q]==vs[q].size()) ix[q++]=0; if(q==nk) break; if(out.size()>16) break; } }

void model_apply(const ModelCfg&c,const MState&m,const HOp&h,vector<MState>&out,string*why){
  i64 clo,chi; { __int128 a=(__int128)h.inv_t+c.wall_off-c.slack_ns; clo=(i64)(a/1000000000); chi=(h.ret_t+c.wall_off)/1000000000; }
  if(h.op->kind==B_SMGET){ smget(c,h,clo,chi,m,out,why); if(c.may_oom&&h.obs.known&&h.obs.text.compare(0,12,"SERVER_ERROR")==0) out.push_back(m); return; }
  vector<State> vs,res; views(c,h,clo,chi,m[h.k[0]],vs); for(auto&v:vs) v.mut=false;
  for(auto&v:vs){ Exec e(c,h,clo,chi,v,res,why); e.run(); }
  for(auto&r:res){ MState n=m; n[h.k[0]]=r; out.push_back(std::move(n)); } }
