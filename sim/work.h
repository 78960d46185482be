// Client operations, histories, reference model and linearizability checker.
#pragma once
#include "sim.h"

enum OpKind { K_NONE=0,
  K_GET, K_GETS, K_MGET, K_MGETS, K_SET, K_ADD, K_REPLACE, K_APPEND, K_PREPEND, K_CAS, K_INCR, K_DECR, K_DELETE, K_TOUCH,
  K_GETATTR, K_SETATTR, K_FLUSH, K_FLUSHPFX,
  L_CREATE, L_INSERT, L_DELETE, L_GET,
  S_CREATE, S_INSERT, S_DELETE, S_EXIST, S_GET,
  M_CREATE, M_INSERT, M_UPSERT, M_UPDATE, M_DELETE, M_GET,
  B_CREATE, B_INSERT, B_UPSERT, B_UPDATE, B_DELETE, B_INCR, B_DECR, B_GET, B_COUNT, B_MGET, B_SMGET, B_POS, B_PWG, B_GBP,
  X_RAW, X_PIPE, X_NOOP, X_CRASH, K_COUNT };
extern const char* kind_name[K_COUNT];
enum FrameKind { F_LINE=0, F_GETR, F_LOPSOP, F_MAP, F_BOP, F_BPWG, F_BMGET, F_BSMGET, F_MULTI, F_PIPE, F_BINP, F_BINSTAT, F_VER };
enum { T_NONE=0, T_KV, T_LIST, T_SET, T_MAP, T_BTREE };
enum { OV_ERROR=1, OV_HEAD, OV_TAIL, OV_SMALL, OV_LARGE, OV_SSMALL, OV_SLARGE };
extern const char* ovfl_name[8];

struct BKey { bool bin=false; u64 n=0; string s; bool operator<(const BKey&o)const{ return bin? s<o.s : n<o.n; } bool operator==(const BKey&o)const{ return bin==o.bin&&(bin? s==o.s: n==o.n); } string text()const; string raw()const; };
struct BElem { bool hasef=false; string ef, data; bool operator==(const BElem&o)const{return hasef==o.hasef&&ef==o.ef&&data==o.data;} };
struct EFilter { bool on=false; u32 foff=0; int bitop=0; string bitv; int cmp=0; vector<string> vals; string text()const; }; // cmp 0 EQ 1 NE 2 LT 3 LE 4 GT 5 GE
bool ef_match(const EFilter&,const BElem&);
struct CAttr { u32 flags=0; i64 exp=0; i64 maxcount=0; int ovfl=0; bool unreadable=false; bool has_ovfl=false; };

struct Op {
  u32 id=0; int client=0, idx=0; Conn*conn=nullptr; int connid=-1;
  int kind=0, proto=0; bool noreply=false, quiet=false; int frame=F_LINE; u32 opaque=0;
  string key; vector<string> keys; string val; u32 flags=0; i64 exp=0; u64 cas=0, delta=0, init=0; bool create=false;
  // collections
  CAttr attr; i64 from=0,to=0; bool range=false; i64 count=0, offset=-1; bool has_count=false; int dd=0; /*0 none 1 delete 2 drop*/
  BKey b1,b2; bool hasef=false; string ef; EFilter filt; bool getrim=false; int efop=0; /*0 none 1 set 2 bitop 3 clear*/ int efbit=0; u32 efoff=0; bool hasval=true;
  bool desc=false; int posn=0; vector<string> fields; bool all=false; bool dup=true, unique=false, oldsm=false; i64 posfrom=0,posto=0;
  vector<std::pair<string,string>> attrs;  // setattr / getattr names
  vector<Op*> sub;                          // pipe
  Op* pipe_parent=nullptr; bool partial_ok=false;
  string req, resp;
  u64 inv=0, ret=0; i64 inv_t=0, ret_t=0; int st=0; // 0 new 1 sent 2 answered 3 noreply executed before a later reply 4 lost
  string expect_prefix;                     // X_RAW: allowed response prefix ("" any)
  vector<string> expect_any;
  string note;
};
enum { S_NEW=0,S_SENT,S_DONE,S_IMPLIED,S_LOST };
void op_encode(Op*); string op_cmdline(Op*,string&data);                       // fills req, frame
int op_frame(const Op*,const string&buf,size_t&used); // 0 incomplete 1 complete -1 malformed
string op_text(const Op*); bool bin_coll(int kind); string bin_coll_text(const Op*); string coll_canon(const string&);

// ---------------------------------------------------------------- model
struct HashMemo { mutable u64 v=0; HashMemo(){} HashMemo(const HashMemo&){} HashMemo& operator=(const HashMemo&){ v=0; return *this; } }; // never copied with the item: copies get changed
struct Item { HashMemo hm; int type=0; u32 flags=0; int expk=0; i64 elo=0,ehi=0; i64 slo=0,shi=0; string val; u64 cas=0;
  i64 maxcount=0; int ovfl=0; bool readable=true; bool trimmed=false; bool hasmbr=false; BKey mbr;
  deque<string> list; map<string,string> kv; map<BKey,BElem> bt; int bkt=0; /*0 none 1 num 2 bin*/
  size_t size()const{ return type==T_LIST?list.size(): type==T_BTREE?bt.size(): kv.size(); }
  u64 hash()const; };
typedef std::shared_ptr<const Item> IP;
struct State { IP it; vector<u64> old; int flk=0; i64 flo=0,fhi=0; /* pending flush */ i64 ghi=0; /* a replaced flush that had begun may remove items stamped up to here */ vector<IP> cand; bool mut=false, nochg=false; u64 hash()const; };
struct Blk2 { string key; u32 flags=0; u64 cas=0; string data; };
struct Obs { bool known=false; int st=0; u32 flags=0; u64 cas=0; u64 num=0; string data; string text; };
enum { R_NONE=0,R_STORED,R_NOT_STORED,R_EXISTS,R_NOT_FOUND,R_HIT,R_MISS,R_NUM,R_NUMOK,R_NONNUM,R_TYPE,R_OOM,R_DELETED,R_TOUCHED,R_TOOBIG,R_OK,R_BADVALUE,R_TEXT };
struct HOp { Op*op; int sub=-1; vector<int> k; /* state indexes */ int proc; u64 inv, ret; bool pending=false; i64 inv_t, ret_t; Obs obs; bool crash=false; bool orderly=false, soft=false; bool acked=true; int epoch=0; };
struct ModelCfg { bool may_evict=false, may_oom=false; i64 slack_ns=1300000000LL; bool async=false; i64 end_t=0; i64 wall_off=0; i64 btree_max=50000,list_max=50000,set_max=50000,map_max=50000; i64 elem_max=16*1024; i64 cap(int t)const{ return t==T_LIST?list_max:t==T_SET?set_max:t==T_MAP?map_max:btree_max; } bool crashes=false; };
typedef vector<State> MState;
// all states possible after h; empty when the observation is impossible. expected text of the first mismatch in *why
void model_apply(const ModelCfg&,const MState&,const HOp&,vector<MState>&out,string*why);
string model_text(const State&);
struct LinResult { int verdict; /*1 ok 0 violation -1 budget*/ string detail; vector<MState> finals; };
LinResult lin_check(const ModelCfg&,vector<HOp>&,MState init,u64 budget,bool want_finals=false);
bool parse_get_blocks(const string&resp,bool cas,vector<Blk2>&out);
// histories
string op_check_reply(const Op*);                       // structural check of a complete reply, "" when fine
Obs op_observe(const Op*,int sub);
struct History { vector<Op*> ops; vector<u64> crash_seq; vector<i64> crash_t; vector<int> crash_kind; /* 0 killed 1 orderly end 2 power loss */ };
string key_prefix(const string&);
// check every key (or, joint, all keys together) of a history; returns "" or a description. inconclusive counts searches that ran out of budget
string history_check(const ModelCfg&,const History&,const vector<string>&keys,bool joint,u64 budget,u64&inconclusive,u64&searched,map<string,vector<State>>*finals=nullptr);
