// Simulated ZooKeeper: the service (znodes, sessions, one-shot watches), the network to it, and the client library's
// threads. Calls, replies and notifications are events of the simulation; callbacks run on a completion thread.
#include "zk_sim.h"
#include <zookeeper.h>
#include <errno.h>
#include <stdlib.h>
struct Pend { bool done=false; int rc=0; std::function<int()> exec; std::function<void(int)> cb; watcher_fn wfn=nullptr; void*wctx=nullptr; string wpath; bool wset=false; };
struct ZWatch { string path; watcher_fn fn; void*ctx; u64 ver; u64 id; bool fired; };
struct _zhandle { u32 magic=0x2007; watcher_fn w; void*ctx; clientid_t id; int to; int state=0; bool closed=false, comp_done=false; string hosts; vector<ZWatch> watch; deque<std::function<void()>> q; vector<Pend*> pend; int gen=0; i64 c2s=0,s2c=0; deque<std::function<void()>> stuck; int comp=-1; };
typedef _zhandle ZH;
static vector<ZH*>*hs; static int vectors; int zk_live_vectors(){ return vectors; }
Zk* zks(){ if(!W->zk) W->zk=new Zk(); return W->zk; }
static string parent(const string&p){ size_t s=p.rfind('/'); return s==0?"/":p.substr(0,s); }
static void fire(const string&path,int type); static void view(const string&dir){ Zk*z=zks(); if(dir!=z->dir) return; z->views.push_back({W->now,zk_children(dir)}); }
vector<string> zk_children(const string&path){ vector<string> v; for(auto i=zks()->n.lower_bound(path+"/");i!=zks()->n.end()&&i->first.compare(0,path.size()+1,path+"/")==0;++i) if(i->first.find('/',path.size()+1)==string::npos) v.push_back(i->first.substr(path.size()+1)); return v; }
bool zk_put(const string&path,const string&data,i64 owner){ Zk*z=zks(); if(z->n.count(path)) return false; ZNode n; n.data=data; n.owner=owner; z->n[path]=n; string d=parent(path); z->cver[d]++; view(d); LOG("zk: + %s",path.c_str()); fire(d,ZOO_CHILD_EVENT); return true; }
bool zk_rm(const string&path){ Zk*z=zks(); if(!z->n.erase(path)) return false; string d=parent(path); z->cver[d]++; view(d); LOG("zk: - %s",path.c_str()); fire(d,ZOO_CHILD_EVENT); return true; }
void zk_setcfg(const string&c){ Zk*z=zks(); z->cfg=c; z->hascfg=true; z->cver["*config"]++; fire("*config",ZOO_CHANGED_EVENT); }
static i64 lat(){ return 20000+(i64)(W->rnet.unit()*2*W->cfg.knob("zk_lat_ns",300000)); }
// ---- the client library's side
static void push(ZH*h,std::function<void()> f){ if(h->closed) return; h->q.push_back(f); fiber_wake(&h->q,true); }
static void session_event(ZH*h,int st){ h->state=st; push(h,[h,st]{ h->w(h,ZOO_SESSION_EVENT,st,"",h->ctx); vector<ZWatch> v=h->watch; for(auto&x:v) if(!h->closed) x.fn(h,ZOO_SESSION_EVENT,st,"",x.ctx); }); }
static void finish(Pend*p,int rc){ if(p->done) return; p->done=true; p->rc=rc; if(p->cb) p->cb(rc); fiber_wake(p,true); }
static bool set_watch(ZH*h,const string&path,watcher_fn fn,void*ctx){ for(auto&x:h->watch) if(x.path==path&&x.fn==fn&&x.ctx==ctx&&!x.fired) return false; static u64 n; h->watch.push_back({path,fn,ctx,zks()->cver[path],++n,false}); return true; }
static void drop_watch(ZH*h,Pend*p){ if(!p->wset) return; for(size_t i=0;i<h->watch.size();i++) if(h->watch[i].path==p->wpath&&h->watch[i].fn==p->wfn&&h->watch[i].ctx==p->wctx){ h->watch.erase(h->watch.begin()+i); break; } p->wset=false; }
static void fail_all(ZH*h,int rc){ vector<Pend*> v; v.swap(h->pend); for(auto p:v) if(!p->done){ drop_watch(h,p); finish(p,rc); } }
static void connect_later(ZH*h,i64 d);
static void lost(ZH*h){ if(h->closed||h->state!=ZOO_CONNECTED_STATE) return; zks()->lost++; h->gen++; h->stuck.clear(); fail_all(h,ZCONNECTIONLOSS); LOG("zk: connection lost"); session_event(h,ZOO_CONNECTING_STATE); connect_later(h,(i64)W->rnet.logu(2000)*1000000LL); }
static void deliver(ZH*h,std::function<void()> f){ i64 t=std::max(h->s2c,W->now)+lat(); h->s2c=t; int g=h->gen; at_node(t-W->now,[h,f,g]{ if(h->gen!=g||h->closed) return; if(!zks()->link||!h->stuck.empty()){ h->stuck.push_back(f); return; } f(); }); }
static void fire_one(ZH*h,size_t i,int type){ h->watch[i].fired=true; u64 id=h->watch[i].id; deliver(h,[h,id,type]{ for(size_t i=0;i<h->watch.size();i++) if(h->watch[i].id==id){ ZWatch x=h->watch[i]; h->watch.erase(h->watch.begin()+i); push(h,[h,x,type]{ x.fn(h,type,h->state,x.path.c_str(),x.ctx); }); return; } }); }
static void fire(const string&path,int type){ if(!hs) return; for(auto h:*hs) if(!h->closed&&h->state==ZOO_CONNECTED_STATE&&zks()->s.count(h->id.client_id)) for(size_t i=0;i<h->watch.size();i++) if(h->watch[i].path==path&&!h->watch[i].fired) fire_one(h,i,type); }
static void served(ZH*h,Pend*p){ Zk*z=zks(); auto s=z->s.find(h->id.client_id); if(s==z->s.end()){ lost(h); return; } s->second.heard=W->now; int rc=p->exec(); if(rc==ZOK&&p->wfn) p->wset=set_watch(h,p->wpath,p->wfn,p->wctx); if(fault(F_ZK_LOST_RESP)){ lost(h); return; } deliver(h,[p,rc]{ finish(p,rc); }); }
static void send(ZH*h,Pend*p){ i64 t=std::max(h->c2s,W->now)+lat(); if(fault(F_ZK_DELAY)) t+=(i64)W->rnet.logu((u64)W->cfg.knob("zk_delay_ms",4000))*1000000LL; h->c2s=t; int g=h->gen; at_node(t-W->now,[h,p,g]{ if(h->gen!=g||h->closed||p->done) return; if(!zks()->link){ h->stuck.push_back([h,p]{ if(!p->done) served(h,p); }); return; } served(h,p); }); }
static void expired(ZH*h){ LOG("zk: session expired"); fail_all(h,ZSESSIONEXPIRED); probe("session expiries seen by the node"); session_event(h,ZOO_EXPIRED_SESSION_STATE); }
static void try_connect(ZH*h){ if(h->closed||h->state==ZOO_CONNECTED_STATE||h->state<0) return; Zk*z=zks(); zk_tick();
  if(!z->link){ fail_all(h,ZCONNECTIONLOSS); connect_later(h,1000000000LL+(i64)W->rnet.below(2000000000)); return; }
  if(h->id.client_id==0){ h->id.client_id=z->next++; h->id.passwd[0]=1; ZSess s; s.to=h->to; z->s[h->id.client_id]=s; }
  auto s=z->s.find(h->id.client_id); if(s==z->s.end()){ expired(h); return; }
  s->second.heard=W->now; h->gen++; h->c2s=h->s2c=W->now; h->state=ZOO_CONNECTED_STATE; LOG("zk: connected, session %llx",(unsigned long long)h->id.client_id); session_event(h,ZOO_CONNECTED_STATE);
  for(size_t i=0;i<h->watch.size();i++){ h->watch[i].fired=false; if(h->watch[i].ver!=z->cver[h->watch[i].path]) fire_one(h,i,h->watch[i].path=="*config"?ZOO_CHANGED_EVENT:ZOO_CHILD_EVENT); }
  for(auto p:h->pend) if(!p->done) send(h,p); }
static void connect_later(ZH*h,i64 d){ at_node(d+lat(),[h]{ try_connect(h); }); }
void zk_link(bool up,bool silent){ Zk*z=zks(); if(z->link==up) return; z->link=up; LOG("zk: link %s",up?"up":"down"); if(!hs) return; zk_tick();
  for(auto h:*hs) if(!h->closed){ if(!up){ auto s=z->s.find(h->id.client_id); if(s!=z->s.end()&&h->state==ZOO_CONNECTED_STATE) s->second.heard=W->now-(i64)W->rnet.below((u64)h->to*1000000/3); int g=h->gen; at_node(silent?(i64)h->to*1000000*2/3:lat(),[h,g]{ if(h->gen==g&&!zks()->link) lost(h); }); }
    else { deque<std::function<void()>> q; q.swap(h->stuck); for(auto&f:q) f(); auto s=z->s.find(h->id.client_id); if(h->state==ZOO_CONNECTED_STATE&&s==z->s.end()) lost(h); } } }
void zk_break(){ if(hs&&!hs->empty()) lost(hs->back()); }
static void end_session(i64 id){ Zk*z=zks(); if(!z->s.erase(id)) return; vector<string> v; for(auto&x:z->n) if(x.second.owner==id) v.push_back(x.first); for(auto&p:v) zk_rm(p); }
void zk_tick(){ Zk*z=zks(); vector<i64> v; for(auto&x:z->s){ bool live=false; if(z->link&&hs) for(auto h:*hs) if(!h->closed&&h->state==ZOO_CONNECTED_STATE&&h->id.client_id==x.first){ live=true; x.second.heard=W->now; } if(!live&&x.second.heard+(i64)x.second.to*1000000<W->now) v.push_back(x.first); } for(auto i:v){ z->expired++; end_session(i); } }
void zk_expire_now(){ if(hs&&!hs->empty()){ ZH*h=hs->back(); if(h->closed||!h->id.client_id) return; zks()->expired++; end_session(h->id.client_id); lost(h); } }
int zk_state(){ return hs&&!hs->empty()&&!hs->back()->closed?hs->back()->state:0; } i64 zk_session(){ return hs&&!hs->empty()&&!hs->back()->closed?hs->back()->id.client_id:0; }
static void ticker(){ zk_tick(); at_node(500000000LL,[]{ ticker(); }); }
void zk_init(){ hs=new vector<ZH*>(); vectors=0; if(W->cfg.knob("zk",0)){ zk_tick(); ticker(); } }
static int submit(ZH*h,const char*what,Pend*p){ fiber_yield((u64)what); if(!h) return ZBADARGUMENTS; if(h->closed){ violate("zk","%s on a closed handle in thread %s",what,cur_fname()); return ZINVALIDSTATE; } if(h->state<0) return ZINVALIDSTATE;
  if(fault(F_ZK_ERR)){ fiber_block(p,W->now+lat(),"zookeeper error"); return W->rmisc.chance(0.5)?ZOPERATIONTIMEOUT:ZCONNECTIONLOSS; }
  h->pend.push_back(p); if(h->state==ZOO_CONNECTED_STATE) send(h,p); return ZOK; }
static int call(ZH*h,const char*what,Pend*p){ int rc=submit(h,what,p); if(rc!=ZOK) return rc; while(!p->done) fiber_block(p,-1,what); for(size_t i=0;i<h->pend.size();i++) if(h->pend[i]==p){ h->pend.erase(h->pend.begin()+i); break; } LOG("zk: %s -> %d",what,p->rc); return p->rc; }
static Pend* mk(std::function<int()> f){ Pend*p=new Pend(); p->exec=f; return p; }
static void fillvec(struct String_vector*v,const vector<string>&n){ v->count=(int)n.size(); v->data=(char**)calloc(n.size()+1,sizeof(char*)); for(size_t i=0;i<n.size();i++) v->data[i]=strdup(n[i].c_str()); vectors++; }
static int kids(ZH*h,const char*what,const char*path,watcher_fn fn,void*ctx,struct String_vector*out){ string pa=path; auto names=new vector<string>(); Pend*p=mk([pa,names]{ if(pa!="/"&&!zks()->n.count(pa)) return (int)ZNONODE; *names=zk_children(pa); if(W->rmisc.chance(0.5)) for(size_t i=names->size();i>1;i--) std::swap((*names)[i-1],(*names)[W->rmisc.below(i)]); return (int)ZOK; }); if(fn){ p->wfn=fn; p->wctx=ctx; p->wpath=pa; } int rc=call(h,what,p); if(rc==ZOK) fillvec(out,*names); return rc; }
static int config(ZH*h,const char*what,watcher_fn fn,void*ctx,char*b,int*len){ auto d=new string(); Pend*p=mk([d]{ if(!zks()->hascfg) return (int)ZNONODE; *d=zks()->cfg; return (int)ZOK; }); if(fn){ p->wfn=fn; p->wctx=ctx; p->wpath="*config"; } int rc=call(h,what,p); if(rc==ZOK){ int n=std::min<int>(*len,(int)d->size()); memcpy(b,d->data(),n); *len=n; } return rc; }
static void stat_of(const string&p,struct Stat*st){ if(!st) return; memset(st,0,sizeof *st); auto i=zks()->n.find(p); if(i!=zks()->n.end()){ st->version=i->second.ver; st->dataLength=(int)i->second.data.size(); st->ephemeralOwner=i->second.owner; } }
extern "C" {
const int ZOO_EPHEMERAL=1,ZOO_SEQUENCE=2,ZOO_CREATED_EVENT=1,ZOO_DELETED_EVENT=2,ZOO_CHANGED_EVENT=3,ZOO_CHILD_EVENT=4,ZOO_SESSION_EVENT=-1,ZOO_NOTWATCHING_EVENT=-2,ZOO_AUTH_FAILED_STATE=-113,ZOO_EXPIRED_SESSION_STATE=-112,ZOO_CONNECTING_STATE=1,ZOO_ASSOCIATING_STATE=2,ZOO_CONNECTED_STATE=3;
struct ACL_vector ZOO_OPEN_ACL_UNSAFE;
zhandle_t*zookeeper_init(const char*host,watcher_fn fn,int to,const clientid_t*id,void*ctx,int){ fiber_yield(31); if(!host||!*host||strchr(host,'!')){ errno=EINVAL; return nullptr; } if(fault(F_ZK_ERR)){ errno=ENOMEM; return nullptr; }
  ZH*h=new ZH(); h->w=fn; h->ctx=ctx; memset(&h->id,0,sizeof h->id); if(id) h->id=*id; h->to=std::min<i64>(to,W->cfg.knob("zk_max_to",1000000000)); h->hosts=host; h->state=ZOO_CONNECTING_STATE; hs->push_back(h);
  h->comp=fiber_spawn("zk completion",[h]{ while(!h->closed){ if(h->q.empty()){ fiber_block(&h->q,-1,"zookeeper completion queue"); continue; } auto f=h->q.front(); h->q.pop_front(); fiber_yield(33); f(); } h->comp_done=true; fiber_wake(h,true); });
  connect_later(h,0); return (zhandle_t*)h; }
int zookeeper_close(zhandle_t*z){ ZH*h=(ZH*)z; fiber_yield(34); if(!h) return ZBADARGUMENTS; if(h->closed){ violate("zk","the ZooKeeper handle is closed twice (thread %s)",cur_fname()); return ZOK; }
  bool up=h->state==ZOO_CONNECTED_STATE&&zks()->link; h->closed=true; LOG("zk: close by %s",cur_fname()); zks()->closes++; fail_all(h,ZCLOSING); fiber_wake(&h->q,true);
  if(up){ fiber_block(h,W->now+lat(),"zookeeper close"); end_session(h->id.client_id); } if(cur_fid()!=h->comp) while(!h->comp_done) fiber_block(h,-1,"zookeeper close: completion thread"); h->state=0; return ZOK; }
int zoo_state(zhandle_t*z){ return z?((ZH*)z)->state:0; }
int zoo_recv_timeout(zhandle_t*z){ return ((ZH*)z)->to; }
const clientid_t*zoo_client_id(zhandle_t*z){ return &((ZH*)z)->id; }
const char*zoo_get_current_server(zhandle_t*){ return "10.0.0.200:2181"; }
int zoo_exists(zhandle_t*z,const char*path,int,struct Stat*st){ string pa=path; return call((ZH*)z,"zoo_exists",mk([pa,st]{ if(!zks()->n.count(pa)) return (int)ZNONODE; stat_of(pa,st); return (int)ZOK; })); }
int zoo_wexists(zhandle_t*z,const char*path,watcher_fn,void*,struct Stat*st){ return zoo_exists(z,path,0,st); }
int zoo_create(zhandle_t*z,const char*path,const char*v,int n,const struct ACL_vector*,int flags,char*out,int outlen){ ZH*h=(ZH*)z; string pa=path,d=v?string(v,n>0?n:0):""; auto made=new string(); int rc=call(h,"zoo_create",mk([h,pa,d,flags,made]{ Zk*z=zks(); if(!z->n.count(parent(pa))) return (int)ZNONODE; string p=pa; if(flags&2){ char b[16]; snprintf(b,sizeof b,"%010llu",(unsigned long long)z->seq++); p+=b; } if(z->n.count(p)) return (int)ZNODEEXISTS; z->creates++; zk_put(p,d,flags&1?h->id.client_id:0); *made=p; return (int)ZOK; })); if(rc==ZOK&&out&&outlen>0) snprintf(out,outlen,"%s",made->c_str()); return rc; }
int zoo_getconfig(zhandle_t*z,int,char*b,int*n,struct Stat*){ return config((ZH*)z,"zoo_getconfig",nullptr,nullptr,b,n); }
int zoo_wgetconfig(zhandle_t*z,watcher_fn f,void*c,char*b,int*n,struct Stat*){ return config((ZH*)z,"zoo_wgetconfig",f,c,b,n); }
int zoo_async(zhandle_t*z,const char*path,string_completion_t cb,const void*data){ ZH*h=(ZH*)z; string pa=path; Pend*p=mk([]{ return (int)ZOK; }); p->cb=[h,pa,cb,data](int rc){ push(h,[rc,pa,cb,data]{ cb(rc,pa.c_str(),data); }); }; return submit(h,"zoo_async",p); }
int zoo_get_children(zhandle_t*z,const char*path,int,struct String_vector*v){ return kids((ZH*)z,"zoo_get_children",path,nullptr,nullptr,v); }
int zoo_wget_children(zhandle_t*z,const char*path,watcher_fn f,void*c,struct String_vector*v){ return kids((ZH*)z,"zoo_wget_children",path,f,c,v); }
int zoo_set_servers(zhandle_t*z,const char*hosts){ fiber_yield(35); if(!z||((ZH*)z)->closed){ violate("zk","zoo_set_servers on a closed handle"); return ZBADARGUMENTS; } if(fault(F_ZK_ERR)){ zks()->seterr++; return ZSYSTEMERROR; } ((ZH*)z)->hosts=hosts; zks()->servers.push_back(hosts); return ZOK; }
int zookeeper_change_ensemble(zhandle_t*z,const char*hosts){ fiber_yield(36); if(!z||((ZH*)z)->closed){ violate("zk","zookeeper_change_ensemble on a closed handle"); return ZBADARGUMENTS; } if(strchr(hosts,'!')||fault(F_ZK_ERR)) return ZBADARGUMENTS; ((ZH*)z)->hosts=hosts; return ZOK; }
int zookeeper_get_ensemble_string(zhandle_t*z,char*b,int n){ snprintf(b,n,"%s",((ZH*)z)->hosts.c_str()); return ZOK; }
int zoo_get(zhandle_t*z,const char*path,int,char*b,int*n,struct Stat*st){ string pa=path; return call((ZH*)z,"zoo_get",mk([pa,b,n,st]{ auto i=zks()->n.find(pa); if(i==zks()->n.end()) return (int)ZNONODE; int l=std::min<int>(*n,(int)i->second.data.size()); memcpy(b,i->second.data.data(),l); *n=l; stat_of(pa,st); return (int)ZOK; })); }
int zoo_delete(zhandle_t*z,const char*path,int){ string pa=path; return call((ZH*)z,"zoo_delete",mk([pa]{ return zk_rm(pa)?(int)ZOK:(int)ZNONODE; })); }
int zoo_set(zhandle_t*z,const char*path,const char*b,int n,int){ string pa=path,d(b,n>0?n:0); return call((ZH*)z,"zoo_set",mk([pa,d]{ auto i=zks()->n.find(pa); if(i==zks()->n.end()) return (int)ZNONODE; i->second.data=d; i->second.ver++; return (int)ZOK; })); }
int deallocate_String_vector(struct String_vector*v){ if(v->data){ for(int i=0;i<v->count;i++) free(v->data[i]); free(v->data); v->data=nullptr; vectors--; } return 0; }
const char*zerror(int c){ switch(c){ case ZOK: return "ok"; case ZNONODE: return "no node"; case ZNODEEXISTS: return "node exists"; case ZCONNECTIONLOSS: return "connection loss"; case ZSESSIONEXPIRED: return "session expired"; case ZCLOSING: return "zookeeper is closing"; case ZOPERATIONTIMEOUT: return "operation timeout"; default: return "error"; } }
void zoo_forward_logs_to_syslog(const char*,int){} void zoo_set_debug_level(ZooLogLevel){} const char*zoo_version_str(){ return "3.5.9-sim"; }
}
