// Stand-in for libsasl2: the mechanisms PLAIN (one message), CHAL (challenge, proof) and CHAL3 (two challenges).
#include "sim.h"
#include "sasl_sim.h"
#include <sasl/sasl.h>
#include <string.h>
struct sasl_conn { u32 magic=0x5a51; string mech, user, nonce, out; int st=0; /*0 idle 1 waiting for the first message 2 waiting for the proof 3 waiting for the second proof 4 done*/ };
static int live, inited;
int sasl_sim_live(){ return live; }
void sasl_sim_reset(){ live=0; inited=0; }
static const char*users[][2]={{"alice","wonder"},{"bob","builder:1"},{"carol",""},{"al","wonderful"}};
string sasl_sim_pass(int i){ return users[i][1]; } string sasl_sim_user(int i){ return users[i][0]; }
string sasl_sim_proof(const string&nonce,const string&pass){ u64 h=0xcbf29ce484222325ULL; for(unsigned char c:nonce+"/"+pass) h=mix64(h^c); return strf("%016llx",(unsigned long long)h); }
static const char*pass_of(const string&u){ for(auto&x:users) if(u==x[0]) return x[1]; return nullptr; }
static void pt(){ if(cur_fid()>=0) fiber_yield((u64)__builtin_return_address(0)); }
static sasl_conn*chk(sasl_conn_t*c){ sasl_conn*s=(sasl_conn*)c; if(s->magic!=0x5a51) violate("sasl","a SASL connection is used after it was disposed of"); return s; }
extern "C" {
int sasl_server_init(const sasl_callback_t*,const char*){ inited=1; return SASL_OK; }
void sasl_done(void){ inited=0; }
int sasl_auxprop_add_plugin(const char*,void*){ return SASL_OK; }
int sasl_server_new(const char*,const char*,const char*,const char*,const char*,const sasl_callback_t*,unsigned,sasl_conn_t**p){ pt(); if(!inited) return SASL_NOTINIT; if(fault(F_SASL_FAIL)){ *p=nullptr; return SASL_NOMEM; } *p=(sasl_conn_t*)new sasl_conn(); live++; return SASL_OK; }
void sasl_dispose(sasl_conn_t**p){ if(!p||!*p) return; sasl_conn*s=chk(*p); s->magic=0; delete s; *p=nullptr; live--; }
int sasl_listmech(sasl_conn_t*c,const char*,const char*,const char*,const char*,const char**r,unsigned*n,int*k){ pt(); if(!c) return SASL_BADPARAM; if(fault(F_SASL_FAIL)) return SASL_NOMEM; *r="PLAIN CHAL CHAL3"; if(n) *n=(unsigned)strlen(*r); if(k) *k=3; return SASL_OK; }
int sasl_getprop(sasl_conn_t*c,int what,const void**v){ if(!c) return SASL_BADPARAM; sasl_conn*s=chk(c); if(what!=SASL_USERNAME) return SASL_BADPARAM; if(s->st!=4) return SASL_NOTDONE; *v=s->user.c_str(); return SASL_OK; }
static int ask(sasl_conn*s,int st,const char**o,unsigned*n){ s->nonce=strf("%08llx",(unsigned long long)(W->rmisc.next()&0xffffffffULL)); s->st=st; s->out=s->nonce; *o=s->out.data(); *n=(unsigned)s->out.size(); return SASL_CONTINUE; }
static int plain(sasl_conn*s,const string&m){ s->st=0; size_t a=m.find('\0'); if(a==string::npos) return SASL_BADPROT; size_t b=m.find('\0',a+1); if(b==string::npos) return SASL_BADPROT; string u=m.substr(a+1,b-a-1), p=m.substr(b+1); const char*q=pass_of(u); if(!q||!*q||p!=q||(a&&m.substr(0,a)!=u)) return SASL_BADAUTH; s->user=u; s->st=4; return SASL_OK; }
static int begin(sasl_conn*s,const string&m,const char**o,unsigned*n){ const char*q=pass_of(m); s->user=m; (void)q; return ask(s,2,o,n); } // an unknown user is only refused at the end
int sasl_server_start(sasl_conn_t*c,const char*mech,const char*in,unsigned inl,const char**o,unsigned*on){ pt(); if(!inited) return SASL_NOTINIT; if(!c||!mech) return SASL_BADPARAM; sasl_conn*s=chk(c); s->st=0; s->user.clear(); s->mech=mech; *o=nullptr; *on=0; if(fault(F_SASL_FAIL)) return SASL_NOMEM;
  if(s->mech=="PLAIN"){ if(!in){ s->st=1; return SASL_CONTINUE; } return plain(s,string(in,inl)); }
  if(s->mech=="CHAL"||s->mech=="CHAL3"){ if(!in){ s->st=1; return SASL_CONTINUE; } return begin(s,string(in,inl),o,on); }
  return SASL_NOMECH; }
int sasl_server_step(sasl_conn_t*c,const char*in,unsigned inl,const char**o,unsigned*on){ pt(); if(!inited) return SASL_NOTINIT; if(!c) return SASL_BADPARAM; sasl_conn*s=chk(c); *o=nullptr; *on=0; string m=in?string(in,inl):string(); int st=s->st; if(st==0||st==4){ s->st=0; return SASL_FAIL; } s->st=0; if(fault(F_SASL_FAIL)) return SASL_NOMEM;
  if(st==1) return s->mech=="PLAIN"? plain(s,m): begin(s,m,o,on);
  const char*q=pass_of(s->user); bool ok=q&&*q&&m==sasl_sim_proof(s->nonce,q); if(!ok){ s->user.clear(); return SASL_BADAUTH; } 
  if(st==2&&s->mech=="CHAL3") return ask(s,3,o,on);
  s->st=4; return SASL_OK; }
}
