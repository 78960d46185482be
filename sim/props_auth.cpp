// C21: a server that requires authentication gives no service to a connection that has not authenticated.
#include "run.h"
#include <stdlib.h>
#include "step.h"
#include "sasl_sim.h"
// what the server must think of one connection
enum { NO=0, YES=1, MAYBE=2 };
struct Sess { int auth=NO; int ver=0; bool over=false; /* a request that may end the connection was sent */ int ex=0; /* exchange: 0 none 1 first message due 2 proof due 3 second proof due 9 unknown */ string nonce, pass, mech; bool good=false; };
struct Auth { map<int,Sess> s; int oks=0, errs=0; bool faults=false; };
typedef std::shared_ptr<Auth> AP;
static string bin(int opc,const string&ext,const string&key,const string&val){ string b(24,'\0'); u32 n=(u32)(ext.size()+key.size()+val.size()); b[0]=(char)0x80; b[1]=(char)opc; b[2]=(char)(key.size()>>8); b[3]=(char)key.size(); b[4]=(char)ext.size(); for(int i=0;i<4;i++) b[8+i]=(char)(n>>(24-8*i)); return b+ext+key+val; }
static Op* raw(Work*w,int opc,const string&ext,const string&key,const string&val,const char*note){ Op*o=w->mk(X_RAW,""); o->req=bin(opc,ext,key,val); o->proto=1; o->frame=F_BINP; o->note=note; return o; }
static int status(Op*o){ return ((u8)o->resp[6]<<8)|(u8)o->resp[7]; }
static string body(Op*o){ u32 kl=((u8)o->resp[2]<<8)|(u8)o->resp[3], el=(u8)o->resp[4]; return o->resp.substr(24+kl+el); }
// o->count of an authentication request: the version of the connection's state it leads to; o->create: valid credentials that complete it; o->has_count: valid and leads to a challenge
static Op* authop(Work*w,Sess&s,Rng&r,bool good){
  static const char*mechs[]={"PLAIN","CHAL","CHAL3"}; Op*o; string z(1,'\0'); int u=r.chance(0.5)?0:r.chance(0.6)?1:3; string user=sasl_sim_user(u), pass=sasl_sim_pass(u); bool was=s.auth!=NO; (void)was; s.ver++;
  auto fin=[&](bool done,bool cont){ o->count=s.ver; o->create=done; o->has_count=cont; s.auth=done?MAYBE:NO; return o; };
  if(good&&s.ex>=1&&s.ex<=3&&s.good&&r.chance(0.9)){ int ex=s.ex; s.ex=9; if(ex==1&&s.mech=="PLAIN"){ o=raw(w,0x22,"","PLAIN",z+user+z+pass,"auth"); return fin(true,false); }
    if(ex==1){ s.pass=pass; o=raw(w,0x22,"",s.mech,user,"auth"); return fin(false,true); }
    o=raw(w,0x22,"",s.mech,sasl_sim_proof(s.nonce,s.pass),"auth"); bool more=ex==2&&s.mech=="CHAL3"; return fin(!more,more); }
  if(good){ s.mech=mechs[r.below(3)]; s.good=true; s.ex=9; s.pass=pass; bool empty=r.chance(0.15); if(empty){ o=raw(w,0x21,"",s.mech,"","auth"); return fin(false,true); }
    if(s.mech=="PLAIN"){ o=raw(w,0x21,"","PLAIN",(r.chance(0.3)?user:"")+z+user+z+pass,"auth"); return fin(true,false); }
    o=raw(w,0x21,"",s.mech,user,"auth"); return fin(false,true); }
  // bad ones
  int ex=s.ex; s.good=false; s.ex=9; string m=mechs[r.below(3)];
  switch(r.below(8)){
    case 0: { static const char*pw[]={"wonde","wonder ","wonderf","","builder","Wonder"}; o=raw(w,0x21,"","PLAIN",z+user+z+pw[r.below(6)],"auth"); break; }
    case 1: { static const char*us[]={"","ali","alicee","carol","root","al","bob "}; const char*x=us[r.below(7)]; string p=string(x)=="carol"||string(x)==""?"":"wonder"; o=raw(w,0x21,"","PLAIN",z+x+z+p,"auth"); break; }
    case 2: { static const char*bm[]={"PLAI","PLAINX","plain","ANONYMOUS","CHAL4","EXTERNAL"}; o=raw(w,0x21,"",bm[r.below(6)],z+user+z+pass,"auth"); break; }
    case 3: { int n=r.chance(0.5)?32:r.chance(0.5)?33:(int)r.range(34,400); o=raw(w,0x21,"",string(n,'P'),z+user+z+pass,"auth"); if(n>32){ o->count=s.ver; if(s.auth==YES) s.auth=MAYBE; o->note="auth-other"; return o; } break; }
    case 4: { if(ex==9||ex==1) { o=raw(w,0x21,"","PLAIN","nothing useful","auth"); break; } string p=r.chance(0.4)?sasl_sim_proof(s.nonce+"x",s.pass):r.chance(0.5)?"":sasl_sim_pass((int)r.below(2)); if(r.chance(0.3)) p=sasl_sim_proof(s.nonce,"no such"); if(ex==0&&r.chance(0.5)) p=z+user+z+pass; o=raw(w,0x22,"",s.mech.empty()?m:s.mech,p,"auth"); break; } // a wrong proof, or a step nothing asked for
    case 5: { o=raw(w,0x21,"",m=="PLAIN"?"CHAL":m,r.chance(0.3)?string("nobody"):user,"auth"); s.mech=m=="PLAIN"?"CHAL":m; s.pass=r.chance(0.5)?"":sasl_sim_pass((u+1)%2); o->has_count=true; o->count=s.ver; s.auth=NO; return o; } // begun and left, or to be finished with another password
    case 6: { o=raw(w,0x21,"",m,r.chance(0.5)?string((size_t)r.range(1,3000),'\0'):string((size_t)r.range(1,60),'q'),"auth"); if(m!="PLAIN") o->has_count=true; o->count=s.ver; s.auth=NO; s.mech=m; s.pass="no such"; return o; }
    default: { o=raw(w,0x21,"","PLAIN",user+z+user+z+pass+z,"auth"); break; } }
  return fin(false,false); }
static Op* denied(Work*w,CS*c,Rng&r){ string k=r.pick(w->p.keys); Op*o; string z(1,'\0'), e8(8,'\0');
  switch(r.below(12)){ case 0: o=raw(w,0x10,"","","","adm"); break; case 1: o=raw(w,0x10,"",r.chance(0.5)?"settings":"reset","","adm"); break; case 2: o=raw(w,0x1b,string("\0\0\0\1",4),"","","adm"); break; case 3: o=raw(w,0x07,"","","","adm"); break; case 4: o=raw(w,0x08,"","","","adm"); break; case 5: o=raw(w,0x0a,"","","","adm"); break;
    case 6: { int c=(int)(r.chance(0.2)?0xf0:r.chance(0.2)?0x18:r.below(256)); if(c==0x0b||(c>=0x20&&c<=0x22)) c=0x18; int sh=(int)r.below(4); if(c==0x18||c==0x17) sh=0; o=raw(w,c,sh==2?e8:sh==3?string((size_t)r.below(21),'\0'):"",sh?k:"",sh>=2?"stolen":"","adm"); break; } case 7: o=raw(w,0x01,e8,k,"stolen","adm"); break; case 8: o=raw(w,0x00,"",k,"","adm"); break; case 9: o=raw(w,0x0c,"",k,"","adm"); break; case 10: o=raw(w,0x04,"",k,"","adm"); break;
    default: o=w->mk(X_RAW,""); { static const char*a[]={"get %s\r\n","set %s 0 0 6\r\nstolen\r\n","delete %s\r\n","flush_all\r\n","stats\r\n","version\r\n","lop insert %s 0 1 create 0 0 0\r\nx\r\n","sasl mech\r\n","shutdown\r\n"}; o->req=strf(a[r.below(9)],k.c_str()); o->req+="version\r\nversion\r\nversion\r\n"; o->frame=F_LINE; o->note="ascii"; } return o; }
  (void)c; return o; }
static void c21(Cfg&c,Work*w,Rng&r){
  Plan&p=w->p; keys(p,(int)r.range(1,4)); load(p,r,2,7,r.chance(0.2)?200:90); p.depth=r.chance(0.6)?1:1+(int)r.logu(6); kv_mix(p,true); p.p_bin=1; p.audit=false; p.p_reconn=r.chance(0.5)?0.15:0.02; p.p_quiet=r.chance(0.5)?0.3:0; p.p_rst=r.chance(0.4)?0.04:0; p.p_fin=r.chance(0.4)?0.04:0; if(r.chance(0.5)) seg(c,r); no_drop(w);
  c.argv.push_back("-S"); if(r.chance(0.4)) c.argv.insert(c.argv.end(),{"-B","binary"}); if(r.chance(0.3)) c.argv.push_back(r.chance(0.5)?"-v":"-vv");
  double pf=r.chance(0.3)?0.02+0.2*r.unit():0; c.rate[F_SASL_FAIL]=pf; auto A=std::make_shared<Auth>(); A->faults=pf>0; double pgood=r.chance(0.3)?0.2:0.6, pd=r.chance(0.5)?0.25:0.05, pre=r.chance(0.5)?0.03:0.15;
  w->gen=[=](Work*w,CS*c,int,Rng&r)->Op*{ Sess&s=A->s[c->conn->id]; Op*o=nullptr; 
    if(s.auth==NO){ if(s.ex>=1&&s.ex<=3&&r.chance(0.85)) o=authop(w,s,r,s.good); else if(r.chance(pd)) o=r.chance(0.5)?denied(w,c,r):nullptr; else if(r.chance(0.1)) o=raw(w,r.chance(0.5)?0x0b:0x20,"","","","free"); else o=authop(w,s,r,r.chance(pgood)); }
    else if(r.chance(pre)) o=r.chance(0.2)?raw(w,0x20,"","","","free"):authop(w,s,r,r.chance(pgood));
    if(o&&o->note=="free"&&(u8)o->req[1]==0x20&&s.auth!=NO){ s.auth=MAYBE; s.ver++; s.ex=9; }
    if(o&&(o->note=="auth"||o->note=="auth-other"||o->note=="free")){ o->delta=(u64)s.auth; return o; }
    bool harmless=!o; if(harmless){ for(int t=0;t<50&&!o;t++){ int tot=0; for(auto&m:w->p.mix) tot+=m.second; int x=(int)r.below(tot), kd=0; for(auto&m:w->p.mix){ if(x<m.second){ kd=m.first; break; } x-=m.second; } if(kd==K_GET||kd==K_SET||kd==K_ADD||kd==K_REPLACE||kd==K_APPEND||kd==K_PREPEND||kd==K_INCR||kd==K_DECR||kd==K_DELETE||kd==X_NOOP||kd==K_CAS||kd==K_FLUSH) o=w->gen_kind(kd,r.pick(w->p.keys),r,c); } if(!o) return nullptr; }
    o->note=(harmless?"data":o->note)+(s.auth==NO?"!no":s.auth==YES?"!yes":"!maybe"); if(s.auth!=YES||!harmless){ s.over=true; }
    if(s.auth==NO&&harmless){ // encoded here: an operation that must have no effect is none for the search
      o->proto=1; o->noreply=false; op_encode(o); o->kind=X_RAW; W->probes["requests without authentication"]++; }
    if(!harmless&&s.auth!=NO&&o->proto){ delete o; o=raw(w,0x0b,"","","","free"); } // with authentication: nothing that would have to be modelled
    return o; };
  w->on_send=[](Work*,CS*,Op*o){ if(o->kind==X_RAW&&o->proto) for(int i=0;i<4;i++) o->req[12+i]=(char)(o->opaque>>(24-8*i)); };
  w->may_close=[A](Work*,Conn*cn){ return A->s[cn->id].over; };
  w->on_op=[A](Work*w,Op*o){ if(!o->proto){ violate("service","a server that requires authentication answers ASCII: %s -> %s",esc(o->req).c_str(),esc(o->resp).c_str()); return; }
    if(o->client>=90) return; int st=status(o); Sess&s=A->s[o->connid]; bool last=s.ver==(int)o->count;
    if(o->note=="auth"){ 
      if(st==0){ A->oks++; W->probes["authentications"]++; if(!o->create) violate("service","authenticated without valid credentials: %s",esc(o->req).c_str()); else if(last){ s.auth=YES; s.ex=0; } }
      else if(st==0x21){ W->probes["challenges"]++; if(!o->has_count) violate("protocol","a challenge is not due here: %s",esc(o->req).c_str()); if(last){ s.auth=NO; string m=s.mech; int step=(u8)o->req[1]==0x22; if(body(o).empty()) s.ex=1; else { s.nonce=body(o); u32 kl=((u8)o->req[2]<<8)|(u8)o->req[3]; bool proof=step&&o->req.size()-24-kl==16; s.ex=proof?3:2; } } }
      else if(st==0x20){ A->errs++; W->probes["refused authentications"]++; if((o->create||(o->has_count&&s.good&&last))&&!A->faults) violate("refused","valid credentials are refused: %s -> status 0x%x",esc(o->req).c_str(),st); if(last){ s.auth=NO; s.ex=0; s.good=false; } }
      else violate("protocol","status 0x%x to an authentication request",st);
      return; }
    if(o->note=="auth-other"){ if(st==0||st==0x21) violate("service","an authentication with an oversize mechanism is accepted"); return; }
    if(o->note=="free"){ if((u8)o->req[1]==0x0b){ if(st) violate("protocol","version answered with status 0x%x",st); } else if(st==0){ if(body(o).find("PLAIN")==string::npos) violate("protocol","mechanism list: %s",esc(o->resp).c_str()); } else if(!A->faults) violate("protocol","the mechanism list is refused: 0x%x",st); return; }
    bool no=o->note.find("!no")!=string::npos, yes=o->note.find("!yes")!=string::npos;
    if(st==0x20){ W->probes["denied requests"]++; if(yes) violate("refused","an authenticated connection is denied: %s",op_text(o).c_str()); o->kind=X_RAW; s.over=true; return; }
    if(no){ violate("service","a request of a connection that has not authenticated is served: %s -> status 0x%x",esc(o->req).c_str(),st); return; }
    if(yes) W->probes["served requests"]++; };
  w->checks.push_back([](Work*w)->string{ for(Op*o:w->H_.ops) if(o->st==S_IMPLIED&&o->note.find("!no")!=string::npos) return "service::a request of a connection that has not authenticated is not refused: "+esc(o->req); return ""; });
  // read everything back through an authenticated connection
  w->on_post.push_back([A](Work*w){ w->ctl->bin=true; vector<Step> v; string z(1,'\0');
    v.push_back([z](Work*w){ Op*o=raw(w,0x21,"","PLAIN",z+"bob"+z+sasl_sim_pass(1),"ctl"); o->id=8000000; w->ctl_op(o,[](Op*o){ if(status(o)) violate("refused","valid credentials are refused at the end: status 0x%x",status(o)); }); return true; });
    int i=0; for(auto&k:w->p.keys){ int n=i++; v.push_back([k,n](Work*w){ Op*o=w->mk(K_GET,k); o->keys={k}; o->id=8000001+n; w->ctl_op(o,nullptr); return true; }); }
    v.push_back([](Work*w){ for(auto c:w->cs) if(c->conn){ net_client_fin(c->conn); w->lose(c,"over"); } return false; }); v.push_back(wait_ns(2000000000LL));
    v.push_back([](Work*){ if(sasl_sim_live()>1) violate("leak","%d SASL connections are left with one client connected",sasl_sim_live()); return false; });
    front(w,v); }); }
static const vector<PropDef> P={ {"C21",{{"sasl",c21,1}}} };
const vector<PropDef>& props_auth(){ return P; }
