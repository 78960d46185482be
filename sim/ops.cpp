// Encoding of client requests and framing of responses.
#include "work.h"
#include <stdlib.h>
#include <arpa/inet.h>
const char* kind_name[K_COUNT]={"none","get","gets","mget","mgets","set","add","replace","append","prepend","cas","incr","decr","delete","touch",
 "getattr","setattr","flush_all","flush_prefix","lop create","lop insert","lop delete","lop get","sop create","sop insert","sop delete","sop exist","sop get",
 "mop create","mop insert","mop upsert","mop update","mop delete","mop get",
 "bop create","bop insert","bop upsert","bop update","bop delete","bop incr","bop decr","bop get","bop count","bop mget","bop smget","bop position","bop pwg","bop gbp","raw","pipe","noop","crash"};
const char* ovfl_name[8]={"","error","head_trim","tail_trim","smallest_trim","largest_trim","smallest_silent_trim","largest_silent_trim"};
static string hex(const string&s){ string o="0x"; for(unsigned char c:s) o+=strf("%02X",c); return o; }
string BKey::text()const{ return bin?hex(s):strf("%llu",(unsigned long long)n); }
string BKey::raw()const{ return bin?s:string(); }
static const char* cmpn[]={"EQ","NE","LT","LE","GT","GE"}; static const char* bitn[]={"","&","|","^"};
string EFilter::text()const{ string o=strf("%u",foff); if(bitop) o+=strf(" %s %s",bitn[bitop],hex(bitv).c_str()); o+=string(" ")+cmpn[cmp]+" "; for(size_t i=0;i<vals.size();i++){ if(i) o+=","; o+=hex(vals[i]); } return o; }
static string attr_text(const CAttr&a){ string o=strf("%u %lld %lld",a.flags,(long long)a.exp,(long long)a.maxcount); if(a.has_ovfl) o+=string(" ")+ovfl_name[a.ovfl]; if(a.unreadable) o+=" unreadable"; return o; }
static void put16(string&s,u32 v){ s+=(char)(v>>8); s+=(char)v; } static void put32(string&s,u32 v){ put16(s,v>>16); put16(s,v&0xffff); } static void put64(string&s,u64 v){ put32(s,v>>32); put32(s,(u32)v); }
static string binpkt(int op,const string&key,const string&ext,const string&val,u32 opaque,u64 cas){ string s; s+=(char)0x80; s+=(char)op; put16(s,key.size()); s+=(char)ext.size(); s+=(char)0; put16(s,0); put32(s,key.size()+ext.size()+val.size()); put32(s,opaque); put64(s,cas); return s+ext+key+val; }
// collection and attribute commands over the binary protocol (b+tree reads cannot be sent: their extras exceed what the length field can hold)
bool bin_coll(int k){ return (k>=L_CREATE&&k<=S_GET)||(k>=B_CREATE&&k<=B_UPDATE)||k==K_GETATTR||k==K_SETATTR; }
static void enc_bincoll(Op*o){
  string e,v; auto raw=[&](u32 x){ e.append((char*)&x,4); }; auto b1=[&](int x){ e+=(char)x; }; auto pad=[&](const string&d,size_t n){ string t=d; t.resize(n,0); e+=t; }; int op=0; o->frame=F_BINP;
  auto create=[&]{ put32(e,o->attr.flags); put32(e,(u32)o->attr.exp); put32(e,(u32)o->attr.maxcount); b1(o->attr.has_ovfl?o->attr.ovfl:0); b1(o->attr.unreadable?0:1); b1(0); b1(0); };
  auto cins=[&]{ put32(e,o->attr.flags); put32(e,(u32)o->attr.exp); put32(e,(u32)o->attr.maxcount); b1(o->create?1:0); b1(0); b1(0); b1(0); };
  auto bk=[&](const BKey&k){ string d; if(k.bin) d=k.s; else put64(d,k.n); pad(d,31); b1(k.bin?(int)k.s.size():0); };
  int del=o->dd?1:0, drop=o->dd==2?1:0; i64 to=o->range?o->to:o->from;
  switch(o->kind){
    case L_CREATE: op=0x50; create(); break; case S_CREATE: op=0x60; create(); break; case B_CREATE: op=0x70; create(); break;
    case L_INSERT: op=0x51; put32(e,(u32)o->from); cins(); v=o->val; break;
    case L_DELETE: op=0x52; put32(e,(u32)o->from); put32(e,(u32)to); b1(drop); b1(0); b1(0); b1(0); break;
    case L_GET: op=0x53; put32(e,(u32)o->from); put32(e,(u32)to); b1(del); b1(drop); b1(0); b1(0); break;
    case S_INSERT: op=0x61; cins(); v=o->val; break;
    case S_DELETE: op=0x62; b1(drop); b1(0); b1(0); b1(0); v=o->val; break;
    case S_EXIST: op=0x63; v=o->val; break;
    case S_GET: op=0x64; put32(e,(u32)o->count); b1(del); b1(drop); b1(0); b1(0); break;
    case B_INSERT: case B_UPSERT: op=o->kind==B_INSERT?0x71:0x72; bk(o->b1); pad(o->hasef?o->ef:"",31); b1(o->hasef?(int)o->ef.size():0); cins(); v=o->val; break;
    case B_UPDATE: op=0x73; bk(o->b1); pad(o->efop==1||o->efop==2?o->ef:"",31); b1(o->efop==0?255:o->efop==3?0:(int)o->ef.size()); b1(o->efop==2?(int)o->efoff:0); b1(o->efop==2?o->efbit-1:3); b1(o->range?0:1); pad("",5); if(o->range) v=o->val; break;
    case K_GETATTR: op=0x4e; pad("",56); break;
    case K_SETATTR: { op=0x4f; i64 ex=0,mc=0; int ov=0,rd=0,fe=0,fm=0,ml=255; string mb; for(auto&a:o->attrs){ const string&k=a.first,&x=a.second; if(k=="expiretime"){ ex=atoll(x.c_str()); fe=1; } else if(k=="maxcount"){ mc=atoll(x.c_str()); fm=1; } else if(k=="readable") rd=1; else if(k=="overflowaction"){ for(int q=1;q<=7;q++) if(x==ovfl_name[q]) ov=q; } else if(k=="maxbkeyrange"){ if(x.compare(0,2,"0x")==0){ for(size_t i=2;i+1<x.size();i+=2) mb+=(char)strtol(x.substr(i,2).c_str(),0,16); ml=(int)mb.size(); } else { put64(mb,strtoull(x.c_str(),0,10)); ml=0; } } }
      put32(e,(u32)ex); put32(e,(u32)mc); pad(mb,31); b1(ml); b1(ov); b1(rd); b1(fe); b1(fm); break; }
    default: abort(); }
  o->req=binpkt(op,o->key,e,v,o->opaque,0); }
static u32 g32b(const string&s,size_t p){ return ((u8)s[p]<<24)|((u8)s[p+1]<<16)|((u8)s[p+2]<<8)|(u8)s[p+3]; }
static u32 g32n(const string&s,size_t p){ u32 v; memcpy(&v,s.data()+p,4); return v; }
// what a binary reply says, in the words of the text protocol, as far as it says it
string bin_coll_text(const Op*o){
  const string&r=o->resp; int st=((u8)r[6]<<8)|(u8)r[7]; string b=r.substr(24);
  switch(st){ case 0: break;
    case 0x01: return "NOT_FOUND\r\n"; case 0x02: return "EXISTS\r\n"; case 0x03: return "CLIENT_ERROR too large value\r\n"; case 0x32: return "TYPE_MISMATCH\r\n"; case 0x33: return "OVERFLOWED\r\n"; case 0x34: return "ATTR_ERROR bad value\r\n";
    case 0x35: return o->kind==L_INSERT?"OUT_OF_RANGE\r\n":"NOT_FOUND_ELEMENT\r\n"; case 0x36: return "OUT_OF_RANGE\r\n"; case 0x37: return "NOT_FOUND_ELEMENT\r\n"; case 0x38: return "ELEMENT_EXISTS\r\n"; case 0x39: return "ATTR_ERROR not found\r\n"; case 0x3a: return "BKEY_MISMATCH\r\n"; case 0x3b: return "EFLAG_MISMATCH\r\n"; case 0x3c: return "UNREADABLE\r\n"; case 0x51: return "CLIENT_ERROR invalid prefix name\r\n"; case 0x82: return "SERVER_ERROR out of memory\r\n"; case 0x84: return "SERVER_ERROR internal\r\n";
    default: return strf("binary status 0x%x\r\n",st); }
  switch(o->kind){
    case S_EXIST: if(b.size()!=4||g32b(b,0)>1) return "malformed"; return g32b(b,0)?"EXIST\r\n":"NOT_EXIST\r\n";
    case L_GET: case S_GET: { if(b.size()<8) return "malformed"; u32 n=g32b(b,4); if((size_t)n*4+8>b.size()) return "malformed"; size_t p=8+(size_t)n*4; string t=strf("VALUE %u %u\r\n",g32b(b,0),n); for(u32 i=0;i<n;i++){ u32 L=g32b(b,8+4*i); if(p+L>b.size()) return "malformed"; t+=strf("%u ",L)+b.substr(p,L)+"\r\n"; p+=L; } return p==b.size()?t:"malformed"; }
    case K_GETATTR: { if(b.size()!=56) return "malformed"; int ty=(u8)b[48]; static const char*tn[]={"kv","list","set","map","b+tree"}; if(ty>4) return "malformed"; string t=strf("ATTR type=%s\r\nATTR flags=%u\r\nATTR expiretime=%d\r\n",tn[ty],g32b(b,0),(int)g32b(b,4)); if(ty){ int ov=(u8)b[49]; t+=strf("ATTR count=%d\r\nATTR maxcount=%d\r\nATTR overflowaction=%s\r\nATTR readable=%s\r\n",(int)g32b(b,8),(int)g32b(b,12),ov>=1&&ov<=7?ovfl_name[ov]:"?",b[50]?"on":"off"); }
      if(ty==4){ int ml=(u8)b[47]; string m; if(ml==255) m="0"; else if(ml==0){ u64 x=((u64)g32b(b,16)<<32)|g32b(b,20); m=strf("%llu",(unsigned long long)x); } else m=hex(b.substr(16,ml)); t+="ATTR maxbkeyrange="+m+"\r\n"; } return t+"END\r\n"; }
    default: return b.empty()?"OK\r\n":"malformed"; } }
// the part of a text reply that the binary one carries as well
string coll_canon(const string&t){
  for(const char*w:{"CREATED\r\n","STORED\r\n","CREATED_STORED\r\n","REPLACED\r\n","UPDATED\r\n","DELETED\r\n","DELETED_DROPPED\r\n"}) if(t==w) return "OK\r\n";
  if(t.compare(0,6,"VALUE ")) return t; for(const char*w:{"END\r\n","DELETED\r\n","DELETED_DROPPED\r\n"}){ size_t n=strlen(w); if(t.size()>n+2&&t.compare(t.size()-n-2,n+2,string("\r\n")+w)==0) return t.substr(0,t.size()-n); } return t; }
static void enc_bin(Op*o){
  if(bin_coll(o->kind)){ enc_bincoll(o); return; }
  int c=0; string ext,val; u64 cas=o->cas; bool q=o->quiet; o->frame=F_BINP;
  switch(o->kind){
    case K_GET: case K_GETS: c=q?0x09:0x00; break;
    case K_SET: c=q?0x11:0x01; break; case K_ADD: c=q?0x12:0x02; break; case K_REPLACE: c=q?0x13:0x03; break;
    case K_CAS: c=q?0x11:0x01; break;
    case K_APPEND: c=q?0x19:0x0e; break; case K_PREPEND: c=q?0x1a:0x0f; break;
    case K_DELETE: c=q?0x14:0x04; break; case K_INCR: c=q?0x15:0x05; break; case K_DECR: c=q?0x16:0x06; break;
    case K_FLUSH: c=q?0x18:0x08; break; case K_FLUSHPFX: c=0x90; break; case X_NOOP: c=0x0a; break;
    default: abort(); }
  if(o->kind==K_SET||o->kind==K_ADD||o->kind==K_REPLACE||o->kind==K_CAS){ put32(ext,o->flags); put32(ext,(u32)o->exp); val=o->val; }
  else if(o->kind==K_APPEND||o->kind==K_PREPEND) val=o->val;
  else if(o->kind==K_INCR||o->kind==K_DECR){ put64(ext,o->delta); put64(ext,o->init); put32(ext,o->create?(u32)o->exp:0xffffffffu); }
  else if(o->kind==K_FLUSH||o->kind==K_FLUSHPFX){ if(o->exp){ put32(ext,(u32)o->exp); } }
  o->req=binpkt(c,o->key,ext,val,o->opaque,cas);
}
string op_cmdline(Op*o,string&data){ // ascii command line without CRLF, data block (without CRLF) in data, returns line
  string k=o->key; string s; data.clear(); o->hasval=false; const char*nr=o->noreply?" noreply":"";
  #define ULL(x) ((unsigned long long)(x))
  #define LL(x) ((long long)(x))
  string cr=o->create?" create "+attr_text(o->attr):"";
  auto D=[&](const string&v){ data=v; o->hasval=true; };
  string dd=o->dd==1?" delete":o->dd==2?" drop":"";
  switch(o->kind){
    case K_GET: case K_GETS: s=o->kind==K_GET?"get":"gets"; for(auto&x:o->keys) s+=" "+x; o->frame=F_GETR; return s;
    case K_MGET: case K_MGETS: { string v; for(size_t i=0;i<o->keys.size();i++){ if(i) v+=" "; v+=o->keys[i]; } s=strf("%s %zu %zu",o->kind==K_MGET?"mget":"mgets",v.size(),o->keys.size()); D(v); o->frame=F_GETR; return s; }
    case K_SET: case K_ADD: case K_REPLACE: case K_APPEND: case K_PREPEND: s=strf("%s %s %u %lld %zu%s",kind_name[o->kind],k.c_str(),o->flags,LL(o->exp),o->val.size(),nr); D(o->val); return s;
    case K_CAS: s=strf("cas %s %u %lld %zu %llu%s",k.c_str(),o->flags,LL(o->exp),o->val.size(),ULL(o->cas),nr); D(o->val); return s;
    case K_INCR: case K_DECR: s=strf("%s %s %llu",kind_name[o->kind],k.c_str(),ULL(o->delta)); if(o->create) s+=strf(" %u %lld %llu",o->flags,LL(o->exp),ULL(o->init)); return s+nr;
    case K_DELETE: return "delete "+k+nr;
    case K_TOUCH: return strf("touch %s %lld%s",k.c_str(),LL(o->exp),nr);
    case K_GETATTR: s="getattr "+k; for(auto&a:o->attrs) s+=" "+a.first; o->frame=F_MULTI; return s;
    case K_SETATTR: s="setattr "+k; for(auto&a:o->attrs) s+=" "+a.first+"="+a.second; return s;
    case K_FLUSH: s="flush_all"; if(o->exp) s+=strf(" %lld",LL(o->exp)); return s+nr;
    case K_FLUSHPFX: s="flush_prefix "+k; if(o->exp) s+=strf(" %lld",LL(o->exp)); return s+nr;
    case L_CREATE: return "lop create "+k+" "+attr_text(o->attr)+nr;
    case S_CREATE: return "sop create "+k+" "+attr_text(o->attr)+nr;
    case M_CREATE: return "mop create "+k+" "+attr_text(o->attr)+nr;
    case B_CREATE: return "bop create "+k+" "+attr_text(o->attr)+nr;
    case L_INSERT: s=strf("lop insert %s %lld %zu",k.c_str(),LL(o->from),o->val.size())+cr+nr; D(o->val); return s;
    case L_DELETE: s=strf("lop delete %s %lld",k.c_str(),LL(o->from)); if(o->range) s+=strf("..%lld",LL(o->to)); if(o->dd==2) s+=" drop"; return s+nr;
    case L_GET: s=strf("lop get %s %lld",k.c_str(),LL(o->from)); if(o->range) s+=strf("..%lld",LL(o->to)); o->frame=F_LOPSOP; return s+dd;
    case S_INSERT: s=strf("sop insert %s %zu",k.c_str(),o->val.size())+cr+nr; D(o->val); return s;
    case S_DELETE: s=strf("sop delete %s %zu",k.c_str(),o->val.size())+(o->dd==2?" drop":"")+nr; D(o->val); return s;
    case S_EXIST: s=strf("sop exist %s %zu",k.c_str(),o->val.size()); D(o->val); return s;
    case S_GET: o->frame=F_LOPSOP; return strf("sop get %s %lld",k.c_str(),LL(o->count))+dd;
    case M_INSERT: case M_UPSERT: s=strf("%s %s %s %zu",kind_name[o->kind],k.c_str(),o->fields[0].c_str(),o->val.size())+cr+nr; D(o->val); return s;
    case M_UPDATE: s=strf("mop update %s %s %zu",k.c_str(),o->fields[0].c_str(),o->val.size())+nr; D(o->val); return s;
    case M_DELETE: case M_GET: { string v; for(size_t i=0;i<o->fields.size();i++){ if(i) v+=" "; v+=o->fields[i]; } s=strf("%s %s %zu %zu",kind_name[o->kind],k.c_str(),v.size(),o->fields.size()); 
       if(o->kind==M_DELETE){ if(o->dd==2) s+=" drop"; s+=nr; } else { s+=dd; o->frame=F_MAP; } if(!o->fields.empty()) D(v); return s; }
    case B_INSERT: case B_UPSERT: s=string(kind_name[o->kind])+" "+k+" "+o->b1.text(); if(o->hasef) s+=" "+hex(o->ef); s+=strf(" %zu",o->val.size())+cr; if(o->getrim){ s+=" getrim"; o->frame=F_BOP; } else s+=nr; D(o->val); return s;
    case B_UPDATE: s="bop update "+k+" "+o->b1.text(); if(o->efop==1) s+=" "+hex(o->ef); else if(o->efop==2) s+=strf(" %u %s ",o->efoff,bitn[o->efbit])+hex(o->ef); else if(o->efop==3) s+=" 0"; 
       if(o->range){ s+=strf(" %zu",o->val.size()); D(o->val); } else s+=" -1"; return s+nr;
    case B_DELETE: s="bop delete "+k+" "+o->b1.text(); if(o->range) s+=".."+o->b2.text(); if(o->filt.on) s+=" "+o->filt.text(); if(o->has_count) s+=strf(" %lld",LL(o->count)); if(o->dd==2) s+=" drop"; return s+nr;
    case B_INCR: case B_DECR: s=string(kind_name[o->kind])+" "+k+" "+o->b1.text()+strf(" %llu",ULL(o->delta)); if(o->create){ s+=strf(" %llu",ULL(o->init)); if(o->hasef) s+=" "+hex(o->ef); } return s+nr;
    case B_GET: s="bop get "+k+" "+o->b1.text(); if(o->range) s+=".."+o->b2.text(); if(o->filt.on) s+=" "+o->filt.text(); if(o->has_count){ if(o->offset>=0) s+=strf(" %lld",LL(o->offset)); s+=strf(" %lld",LL(o->count)); } o->frame=F_BOP; return s+dd;
    case B_COUNT: s="bop count "+k+" "+o->b1.text(); if(o->range) s+=".."+o->b2.text(); if(o->filt.on) s+=" "+o->filt.text(); return s;
    case B_MGET: case B_SMGET: { string v; for(size_t i=0;i<o->keys.size();i++){ if(i) v+=" "; v+=o->keys[i]; } s=strf("%s %zu %zu ",kind_name[o->kind],v.size(),o->keys.size())+o->b1.text(); if(o->range) s+=".."+o->b2.text(); if(o->filt.on) s+=" "+o->filt.text(); if(o->offset>=0) s+=strf(" %lld",LL(o->offset)); s+=strf(" %lld",LL(o->count)); if(o->kind==B_SMGET&&!o->oldsm) s+=o->unique?" unique":" duplicate"; D(v); o->frame=o->kind==B_MGET?F_BMGET:F_BSMGET; return s; }
    case B_POS: return "bop position "+k+" "+o->b1.text()+(o->desc?" desc":" asc");
    case B_PWG: s="bop pwg "+k+" "+o->b1.text()+(o->desc?" desc":" asc"); if(o->has_count) s+=strf(" %lld",LL(o->count)); o->frame=F_BPWG; return s;
    case B_GBP: s="bop gbp "+k+(o->desc?" desc":" asc")+strf(" %lld",LL(o->posfrom)); if(o->range) s+=strf("..%lld",LL(o->posto)); o->frame=F_BOP; return s;
  }
  abort(); }
void op_encode(Op*o){
  if(o->kind==X_RAW) return;
  if(o->kind==X_PIPE){ o->req.clear(); o->frame=F_PIPE; for(size_t i=0;i<o->sub.size();i++){ Op*p=o->sub[i]; p->pipe_parent=o; string d; p->noreply=false; string l=op_cmdline(p,d); if(i+1<o->sub.size()) l+=" pipe"; o->req+=l+"\r\n"; if(p->hasval) o->req+=d+"\r\n"; p->frame=F_LINE; } return; }
  if(o->proto){ enc_bin(o); return; }
  string d; string l=op_cmdline(o,d); o->req=l+"\r\n"; if(o->hasval) o->req+=d+"\r\n"; }
string op_text(const Op*o){ string s=strf("#%u c%d/%d conn%d %s",o->id,o->client,o->idx,o->connid,o->proto?(o->quiet?"binq ":"bin "):"");
  if(o->proto&&bin_coll(o->kind)){ Op t=*o; string d; s+="\""+esc(op_cmdline(&t,d),300)+"\""; if(t.hasval) s+=" val="+esc(d,60); }
  else if(o->proto) s+=strf("%s %s val=%s flags=%u exp=%lld cas=%llu delta=%llu%s",kind_name[o->kind],o->key.c_str(),esc(o->val,40).c_str(),o->flags,(long long)o->exp,(unsigned long long)o->cas,(unsigned long long)o->delta,o->create?strf(" init=%llu",(unsigned long long)o->init).c_str():"");
  else s+="\""+esc(o->req,400)+"\"";
  s+=strf(" [%.6f..",o->inv_t/1e9); if(o->st==S_DONE||o->st==S_IMPLIED) s+=strf("%.6f]",o->ret_t/1e9); else s+="-]"; 
  if(o->st==S_DONE) s+=" -> \""+esc(o->resp,400)+"\""; else if(o->st==S_IMPLIED) s+=" -> (none)"; else s+=" -> (lost)";
  return s; }
// ---------------------------------------------------------------- framing
static bool line_at(const string&b,size_t p,size_t&e){ e=b.find("\r\n",p); return e!=string::npos; }
static vector<string> split(const string&s){ vector<string> v; size_t i=0; while(i<s.size()){ size_t j=s.find(' ',i); if(j==string::npos) j=s.size(); if(j>i) v.push_back(s.substr(i,j-i)); i=j+1; } return v; }
static bool isnum(const string&s){ if(s.empty()) return false; for(char c:s) if(c<'0'||c>'9') return false; return true; }
static bool starts(const string&s,size_t p,const char*t){ return s.compare(p,strlen(t),t)==0; }
// elements: returns 0 incomplete 1 ok -1 malformed
static int elem(const string&b,size_t&p,int mode){ // mode 0 "len data" 1 "field len data" 2 bop, 3 "key flags bkey.."
  size_t i=p; auto tok=[&](string&t)->int{ size_t j=i; while(j<b.size()&&b[j]!=' '&&b[j]!='\r') j++; if(j>=b.size()) return j-i>20000?-1:0; if(b[j]=='\r') return -1; t=b.substr(i,j-i); i=j+1; return 1; };
  string t; int r;
  if(mode==1){ if((r=tok(t))<=0) return r; }
  if(mode==3){ if((r=tok(t))<=0) return r; if((r=tok(t))<=0) return r; if(!isnum(t)) return -1; }
  if(mode>=2){ if((r=tok(t))<=0) return r; if(!(isnum(t)||(t.size()>2&&t[0]=='0'&&t[1]=='x'))) return -1; if((r=tok(t))<=0) return r; if(t.size()>2&&t[0]=='0'&&t[1]=='x'){ if((r=tok(t))<=0) return r; } }
  else { if((r=tok(t))<=0) return r; }
  if(!isnum(t)||t.size()>9) return -1; size_t n=atoll(t.c_str()); if(i+n+2>b.size()) return 0; if(b[i+n]!='\r'||b[i+n+1]!='\n') return -1; p=i+n+2; return 1; }
int op_frame(const Op*o,const string&b,size_t&used){
  size_t e,p=0;
  if(o->frame==F_BINP){ if(b.empty()) return 0; if((u8)b[0]!=0x81) return -1; if(b.size()<24) return 0; u32 bl=((u8)b[8]<<24)|((u8)b[9]<<16)|((u8)b[10]<<8)|(u8)b[11]; if(bl>(64u<<20)) return -1; if(b.size()<24+(size_t)bl) return 0; used=24+bl; return 1; }
  if(o->frame==F_VER) for(;;){ if(starts(b,p,"VERSION ")){ if(!line_at(b,p,e)) return 0; used=e+2; return 1; } size_t q=b.find('\n',p); if(q==string::npos) return b.size()-p>70000?-1:0; p=q+1; } // a reply without a terminator, followed by the one of "version"
  if(!line_at(b,0,e)) return b.size()>70000?-1:0;
  if(o->frame==F_LINE){ used=e+2; return 1; }
  bool err=starts(b,0,"ERROR")||starts(b,0,"CLIENT_ERROR")||starts(b,0,"SERVER_ERROR");
  if(err){ used=e+2; return 1; }
  switch(o->frame){
  case F_GETR: for(;;){ if(!line_at(b,p,e)) return b.size()-p>70000?-1:0; if(starts(b,p,"END\r\n")){ used=e+2; return 1; } if(!starts(b,p,"VALUE ")){ if(starts(b,p,"SERVER_ERROR")){ used=e+2; return 1; } return -1; } auto v=split(b.substr(p,e-p)); if(v.size()<4||v.size()>5||!isnum(v[3])) return -1; size_t n=atoll(v[3].c_str()); size_t q=e+2+n; if(q+2>b.size()) return 0; if(b[q]!='\r'||b[q+1]!='\n') return -1; p=q+2; }
  case F_MULTI: for(;;){ if(!line_at(b,p,e)) return b.size()-p>70000?-1:0; if(starts(b,p,"END\r\n")){ used=e+2; return 1; } if(p==0&&!starts(b,0,"ATTR ")&&!starts(b,0,"STAT ")&&!starts(b,0,"PREFIX ")&&!starts(b,0,"ITEM ")&&!starts(b,0,"KEY ")&&!starts(b,0,"KEYS ")&&!starts(b,0,"PREFIXES ")){ used=e+2; return 1; } p=e+2; }
  case F_LOPSOP: case F_MAP: case F_BOP: case F_BPWG: { if(!starts(b,0,"VALUE ")){ used=e+2; return 1; } auto v=split(b.substr(0,e)); size_t need=o->frame==F_BPWG?5:3; if(v.size()!=need) return -1; string cs=v[o->frame==F_BPWG?3:2]; if(!isnum(cs)) return -1; long n=atol(cs.c_str()); p=e+2; for(long i=0;i<n;i++){ int r=elem(b,p,o->frame==F_LOPSOP?0:o->frame==F_MAP?1:2); if(r<=0) return r; } if(!line_at(b,p,e)) return b.size()-p>200?-1:0; string t=b.substr(p,e-p); if(t!="END"&&t!="DELETED"&&t!="DELETED_DROPPED"&&t!="TRIMMED") return -1; used=e+2; return 1; }
  case F_BMGET: { for(;;){ if(!line_at(b,p,e)) return b.size()-p>70000?-1:0; string l=b.substr(p,e-p); auto v=split(l); if(v.empty()) return -1; if(v[0]=="VALUE"){ if(v.size()<3) return -1; p=e+2; long n=v.size()>=5?atol(v[4].c_str()):0; for(long i=0;i<n;i++){ if(p+8>b.size()) return 0; if(!starts(b,p,"ELEMENT ")) return -1; size_t q=p+8; int r=elem(b,q,2); if(r<=0) return r; p=q; } continue; } if(l=="END"){ used=e+2; return 1; } return -1; } }
  case F_BSMGET: { bool old=starts(b,0,"VALUE "); if(!old&&!starts(b,0,"ELEMENTS ")){ used=e+2; return 1; } long n=atol(b.c_str()+(old?6:9)); p=e+2; for(long i=0;i<n;i++){ int r=elem(b,p,3); if(r<=0) return r; } for(;;){ if(!line_at(b,p,e)) return b.size()-p>70000?-1:0; string l=b.substr(p,e-p); if(l=="END"||l=="DUPLICATED"||(old&&(l=="TRIMMED"||l=="DUPLICATED_TRIMMED"))){ used=e+2; return 1; } p=e+2; } }
  case F_PIPE: { if(!starts(b,0,"RESPONSE ")){ used=e+2; return 1; } long n=atol(b.c_str()+9); p=e+2; for(long i=0;i<n;i++){ if(!line_at(b,p,e)) return 0; p=e+2; } if(!line_at(b,p,e)) return b.size()-p>200?-1:0; if(!starts(b,p,"END\r\n")&&!starts(b,p,"PIPE_ERROR ")) return -1; used=e+2; return 1; }
  }
  return -1; }
bool parse_get_blocks(const string&b,bool cas,vector<Blk2>&out){ size_t p=0,e; for(;;){ if(!line_at(b,p,e)) return false; if(starts(b,p,"END")) return p+5==b.size(); if(!starts(b,p,"VALUE ")) return false; auto v=split(b.substr(p,e-p)); if(v.size()!=(cas?5u:4u)) return false; Blk2 k; k.key=v[1]; if(!isnum(v[2])) return false; k.flags=(u32)strtoull(v[2].c_str(),0,10); size_t n=atoll(v[3].c_str()); if(cas) k.cas=strtoull(v[4].c_str(),0,10); k.data=b.substr(e+2,n); out.push_back(k); p=e+2+n+2; } }
