// Steps of the control script that runs once the clients are done.
#pragma once
#include "run.h"
#include <stdlib.h>
typedef std::function<bool(Work*)> Step;
static inline void front(Work*w,vector<Step> v){ for(size_t i=v.size();i-->0;) w->script.push_front(v[i]); }
static inline Step wait_ns(i64 ns){ return [ns](Work*w){ at_node(ns,[w]{ w->step_script(); }); return true; }; }
static inline Op* line(Work*w,const string&req,int frame,vector<string> any={}){ Op*o=w->mk(X_RAW,""); o->req=req+"\r\n"; o->frame=frame; o->expect_any=any; static u32 n; o->id=8000000+(n++)%1000000; return o; }
static inline Step ask(const string&req,int frame,std::function<void(Work*,const string&)> f,vector<string> any={}){ return [=](Work*w){ w->ctl_op(line(w,req,frame,any),[w,f](Op*o){ if(f) f(w,o->resp); }); return true; }; }
static inline i64 num(map<string,string>&m,const char*k){ auto i=m.find(k); return i==m.end()?-1:strtoll(i->second.c_str(),0,10); }
