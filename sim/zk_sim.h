// The simulated coordination service (ZooKeeper) and its client library.
#pragma once
#include "sim.h"
struct ZNode { string data; i64 owner=0; int ver=0; };
struct ZSess { int to=0; i64 heard=0; };
struct ZView { i64 t; vector<string> names; };
struct Zk { map<string,ZNode> n; map<string,u64> cver; map<i64,ZSess> s; i64 next=0x10000; u64 seq=0; bool link=true; bool hascfg=false; string cfg; u64 cfgver=0; string dir; vector<ZView> views; vector<string> servers; u64 expired=0, seterr=0, creates=0, closes=0, lost=0; };
Zk* zks();
bool zk_put(const string&path,const string&data,i64 owner=0); bool zk_rm(const string&path); void zk_setcfg(const string&);
vector<string> zk_children(const string&path);
void zk_link(bool up,bool silent=false);   // the network between the node and the service
void zk_expire_now();                      // the service ends the running node's session
void zk_break();                           // the connection is reset; the client connects again
int zk_state(); i64 zk_session();          // of the running node's newest handle: state (0 none/closed), session id
int zk_live_vectors();
void zk_tick();
