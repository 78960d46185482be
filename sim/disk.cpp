// Simulated disk: page cache versus durable state, ordered metadata journal, crash and error injection.
// Assumptions (ext4 data=ordered like): unsynced writes to one file survive as a prefix, the last one possibly torn;
// directory operations are journalled in order and any fsync commits all of them.
#include "sim.h"
#include "fd.h"
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>

struct DOp { bool trunc; u64 off; string data; };
struct Inode { int id; string cur, dur; vector<DOp> pend; i64 mtime=0; };
struct MOp { int kind; string a,b; Inode*ino; }; // 0 create 1 unlink 2 rename
struct Disk { map<string,Inode*> cur, dur; vector<MOp> mpend; set<string> dirs; int nextino=1; u64 bytes=0; };
struct OFile { Inode*ino; u64 pos=0; int flags=0; string path; };
#define DK (W->disk)
void disk_init(){ W->disk=new Disk(); DK->dirs={"/sim","/sim/data","/sim/logs"}; }
static string norm(const char*p){ string s=p; string o; for(size_t i=0;i<s.size();i++){ if(s[i]=='/'&&!o.empty()&&o.back()=='/') continue; o+=s[i]; } 
  if(!o.empty()&&o[0]!='/') o="/sim/"+o; size_t q; while((q=o.find("/./"))!=string::npos) o.erase(q,2); if(o.size()>1&&o.back()=='/') o.pop_back(); return o; }
void disk_install(const char*path,const string&c){ string p=norm(path); Inode*i=DK->cur.count(p)?DK->cur[p]:nullptr; if(!i){ i=new Inode(); i->id=DK->nextino++; } i->cur=i->dur=c; i->pend.clear(); DK->cur[p]=i; DK->dur[p]=i; }
bool disk_exists(const string&p){ return DK->cur.count(norm(p.c_str()))>0; }
string disk_read_file(const string&p){ auto it=DK->cur.find(norm(p.c_str())); return it==DK->cur.end()?"":it->second->cur; }
vector<string> disk_list(const string&d){ vector<string> r; string pre=norm(d.c_str())+"/"; for(auto&x:DK->cur) if(x.first.compare(0,pre.size(),pre)==0) r.push_back(x.first.substr(pre.size())); return r; }
static void apply(string&s,const DOp&o,size_t n){ if(o.trunc){ s.resize(o.off); return; } if(s.size()<o.off+n) s.resize(o.off+n); memcpy(&s[o.off],o.data.data(),n); }
void disk_crash(bool power){
  Disk*d=DK; if(!power) return;
  Rng&r=W->rdisk;
  // metadata prefix
  size_t k=d->mpend.size(); int m=r.below(3); if(m==0) k=0; else if(m==1) k=r.below(k+1);
  if(k<d->mpend.size()) W->fault_fired[F_LOSTWRITE]++;
  for(size_t i=0;i<k;i++){ MOp&o=d->mpend[i]; if(o.kind==0) d->dur[o.a]=o.ino; else if(o.kind==1) d->dur.erase(o.a); else { auto it=d->dur.find(o.a); if(it!=d->dur.end()){ d->dur[o.b]=it->second; d->dur.erase(o.a);} } }
  d->mpend.clear();
  set<Inode*> all; for(auto&x:d->cur) all.insert(x.second); for(auto&x:d->dur) all.insert(x.second);
  vector<Inode*> v(all.begin(),all.end()); std::sort(v.begin(),v.end(),[](Inode*a,Inode*b){return a->id<b->id;});
  for(Inode*i:v){ size_t n=i->pend.size(); if(n){ size_t k=n; int m=r.below(4); if(m==0) k=0; else if(m<=2) k=r.below(n+1);
      string s=i->dur; for(size_t j=0;j<k;j++) apply(s,i->pend[j],i->pend[j].data.size());
      if(k<n && !i->pend[k].trunc && r.chance(0.6)){ size_t L=i->pend[k].data.size(); size_t t=r.below(L+1); if(r.chance(0.4)) t=std::min<size_t>(L,t/512*512); if(t) { apply(s,i->pend[k],t); W->fault_fired[F_TORN]++; LOG("disk: torn write inode %d at %zu of %zu",i->id,t,L);} }
      if(k<n){ W->fault_fired[F_LOSTWRITE]++; LOG("disk: inode %d keeps %zu of %zu unsynced writes",i->id,k,n); }
      i->dur=s; }
    i->cur=i->dur; i->pend.clear(); }
  d->cur=d->dur;
}
// disk errors: only while the server serves unless the profile says otherwise; disk_target 1 = snapshot files only
static bool dfault(FaultKind k,const string&path){ if(!net_listening()&&!W->cfg.knob("faults_in_recovery",0)) return false; i64 t=W->cfg.knob("disk_target",0); if(t==1&&path.find("snapshot_")==string::npos) return false; return fault(k); }
static void dpoint(){ W->disk_ops++; H(W->disk_ops); }
static bool crash_here(){ return W->crash_at_disk>=0 && (i64)W->disk_ops==W->crash_at_disk; }
[[noreturn]] static void do_crash(){ W->crash_at_disk=-1; fault_note(W->crash_kind?F_CRASH_POWER:F_CRASH_KILL); node_stop(NX_CRASH,W->crash_kind,"crash at disk operation"); }
static void lat(i64 base){ i64 d=(i64)(base*(0.2+1.6*W->rdisk.unit())); if(fault(F_D_SLOW)) d+=(i64)W->rdisk.logu(2000)*1000000LL; if(d>0&&cur_fid()>=0){ char k; fiber_block(&k,W->now+d,"disk"); } }
#define LATW W->cfg.knob("disk_write_ns",3000)
#define LATS W->cfg.knob("disk_fsync_ns",60000)
ssize_t disk_write(OFile*f,const void*b,size_t n){
  extern void sim_check_read(const void*,size_t) __asm__("sim_check_read"); sim_check_read(b,n);
  dpoint(); bool cr=crash_here(); int mode=cr?(int)W->rdisk.below(3):-1; if(cr&&mode==0) do_crash();
  lat(f->path.find("snapshot_")!=string::npos?W->cfg.knob("snap_write_ns",LATW):LATW);
  if(dfault(F_D_WRITE_EIO,f->path)){ errno=EIO; return -1; }
  size_t k=n;
  if(cr&&mode==1) k=W->rdisk.below(n+1);
  else if(dfault(F_D_WRITE_ENOSPC,f->path)){ k=W->rdisk.chance(0.5)?0:W->rdisk.below(n); if(k==0){ errno=ENOSPC; return -1; } }
  else if(n>1&&dfault(F_D_WRITE_SHORT,f->path)) k=1+W->rdisk.below(n-1);
  if(f->flags&O_APPEND) f->pos=f->ino->cur.size();
  DOp o{false,f->pos,string((const char*)b,k)}; apply(f->ino->cur,o,k); f->ino->pend.push_back(o); f->pos+=k; DK->bytes+=k; f->ino->mtime=W->now;
  LOG("disk write %s off=%llu n=%zu/%zu",f->path.c_str(),(unsigned long long)o.off,k,n);
  if(cr) do_crash();
  return k; }
ssize_t disk_read(OFile*f,void*b,size_t n){ if(dfault(F_D_READ_EIO,f->path)){ errno=EIO; return -1; } string&s=f->ino->cur; if(f->pos>=s.size()) return 0; size_t k=std::min<size_t>(n,s.size()-f->pos); memcpy(b,s.data()+f->pos,k); f->pos+=k; return k; }
void disk_close(OFile*f){ delete f; }
static void commit_meta(){ for(auto&o:DK->mpend){ if(o.kind==0) DK->dur[o.a]=o.ino; else if(o.kind==1) DK->dur.erase(o.a); else { auto it=DK->dur.find(o.a); if(it!=DK->dur.end()){ DK->dur[o.b]=it->second; DK->dur.erase(o.a);} } } DK->mpend.clear(); }
extern "C" {
int sim_open(const char*path,int flags,...){
  fiber_yield((u64)__builtin_return_address(0)); string p=norm(path); if(p=="/dev/null"){ errno=ENOENT; return -1; }
  dpoint(); if(crash_here()) do_crash();
  if(dfault(F_D_OPEN,p)){ errno=(W->rdisk.chance(0.5)&&(flags&O_CREAT))?ENOSPC:EMFILE; return -1; }
  auto it=DK->cur.find(p); Inode*i;
  if(it==DK->cur.end()){ if(!(flags&O_CREAT)){ errno=ENOENT; return -1; } size_t s=p.rfind('/'); if(!DK->dirs.count(p.substr(0,s))){ errno=ENOENT; return -1; } i=new Inode(); i->id=DK->nextino++; DK->cur[p]=i; DK->mpend.push_back({0,p,"",i}); }
  else { i=it->second; if((flags&O_CREAT)&&(flags&O_EXCL)){ errno=EEXIST; return -1; } if(flags&O_TRUNC){ DOp o{true,0,""}; apply(i->cur,o,0); i->pend.push_back(o); } }
  int fd=fd_alloc(); if(fd<0) return -1; OFile*f=new OFile(); f->ino=i; f->flags=flags; f->path=p; (*fds)[fd].type=FD_FILE; (*fds)[fd].of=f; LOG("disk open %s flags=%x fd=%d",p.c_str(),flags,fd); return fd; }
int sim_creat(const char*p,mode_t){ return sim_open(p,O_CREAT|O_WRONLY|O_TRUNC,0644); }
static OFile* of(int fd){ FdEnt*e=fd_get(fd); if(!e||e->type!=FD_FILE){ errno=EBADF; return nullptr; } return e->of; }
off_t sim_lseek(int fd,off_t o,int w){ OFile*f=of(fd); if(!f) return -1; i64 p=w==SEEK_SET?o:w==SEEK_CUR?(i64)f->pos+o:(i64)f->ino->cur.size()+o; if(p<0){ errno=EINVAL; return -1; } f->pos=p; return p; }
ssize_t sim_pwrite(int fd,const void*b,size_t n,off_t o){ OFile*f=of(fd); if(!f) return -1; u64 s=f->pos; f->pos=o; ssize_t r=disk_write(f,b,n); f->pos=s; return r; }
ssize_t sim_pread(int fd,void*b,size_t n,off_t o){ OFile*f=of(fd); if(!f) return -1; u64 s=f->pos; f->pos=o; ssize_t r=disk_read(f,b,n); f->pos=s; return r; }
int sim_ftruncate(int fd,off_t n){ fiber_yield(3); OFile*f=of(fd); if(!f) return -1; dpoint(); bool cr=crash_here(); if(cr&&W->rdisk.chance(0.5)) do_crash(); DOp o{true,(u64)n,""}; apply(f->ino->cur,o,0); f->ino->pend.push_back(o); LOG("disk ftruncate %s %lld",f->path.c_str(),(long long)n); if(cr) do_crash(); return 0; }
int sim_truncate(const char*p,off_t n){ string s=norm(p); auto it=DK->cur.find(s); if(it==DK->cur.end()){ errno=ENOENT; return -1; } DOp o{true,(u64)n,""}; apply(it->second->cur,o,0); it->second->pend.push_back(o); return 0; }
int sim_fsync(int fd){ fiber_yield((u64)__builtin_return_address(0)); OFile*f=of(fd); if(!f) return -1; dpoint(); bool cr=crash_here(); int mode=cr?(int)W->rdisk.below(2):-1; if(mode==0) do_crash();
  Inode*ino=f->ino; size_t covered=ino->pend.size(); string path=f->path; string snap=ino->cur; size_t mc=DK->mpend.size(); (void)mc;
  lat(LATS);
  if(dfault(F_D_FSYNC_EIO,path)){ // the kernel drops the error state; the pages stay unsynced
    errno=EIO; return -1; }
  // everything written before the call is durable
  if(covered<=ino->pend.size()){ for(size_t j=0;j<covered;j++) apply(ino->dur,ino->pend[j],ino->pend[j].data.size()); ino->pend.erase(ino->pend.begin(),ino->pend.begin()+covered); }
  commit_meta(); LOG("disk fsync %s size=%zu",path.c_str(),ino->dur.size());
  if(cr) do_crash(); return 0; }
int sim_fdatasync(int fd){ return sim_fsync(fd); }
static void fillstat(struct stat*st,Inode*i){ memset(st,0,sizeof *st); st->st_mode=S_IFREG|0644; st->st_size=i->cur.size(); st->st_ino=i->id; st->st_mtime=(i->mtime+W->wall_off)/1000000000LL; }
int sim_fstat(int fd,struct stat*st){ OFile*f=of(fd); if(!f) return -1; fillstat(st,f->ino); return 0; }
int sim_stat(const char*p,struct stat*st){ string s=norm(p); auto it=DK->cur.find(s); if(it!=DK->cur.end()){ fillstat(st,it->second); return 0; } if(DK->dirs.count(s)){ memset(st,0,sizeof *st); st->st_mode=S_IFDIR|0755; return 0; } errno=ENOENT; return -1; }
int sim_lstat(const char*p,struct stat*st){ return sim_stat(p,st); }
int sim_access(const char*p,int){ string s=norm(p); if(DK->cur.count(s)||DK->dirs.count(s)) return 0; errno=ENOENT; return -1; }
int sim_mkdir(const char*p,mode_t){ DK->dirs.insert(norm(p)); return 0; }
int sim_unlink(const char*p){ fiber_yield((u64)__builtin_return_address(0)); string s=norm(p); dpoint(); bool cr=crash_here(); if(cr&&W->rdisk.chance(0.5)) do_crash(); if(dfault(F_D_UNLINK,"snapshot_")){ errno=EIO; return -1; } auto it=DK->cur.find(s); if(it==DK->cur.end()){ errno=ENOENT; return -1; } DK->mpend.push_back({1,s,"",it->second}); DK->cur.erase(it); LOG("disk unlink %s",s.c_str()); if(cr) do_crash(); return 0; }
int sim_remove(const char*p){ return sim_unlink(p); }
int sim_rename(const char*a,const char*b){ fiber_yield((u64)__builtin_return_address(0)); string x=norm(a),y=norm(b); dpoint(); if(crash_here()) do_crash(); if(dfault(F_D_RENAME,"snapshot_")){ errno=EIO; return -1; } auto it=DK->cur.find(x); if(it==DK->cur.end()){ errno=ENOENT; return -1; } Inode*i=it->second; DK->cur.erase(it); DK->cur[y]=i; DK->mpend.push_back({2,x,y,i}); LOG("disk rename %s %s",x.c_str(),y.c_str()); return 0; }
struct SDir { vector<string> names; size_t pos=0; struct dirent de; };
DIR* sim_opendir(const char*p){ string s=norm(p); if(!DK->dirs.count(s)){ errno=ENOENT; return nullptr; } if(dfault(F_D_OPENDIR,"snapshot_")){ errno=EMFILE; return nullptr; } SDir*d=new SDir(); d->names=disk_list(s); d->names.push_back("."); d->names.push_back(".."); return (DIR*)d; }
struct dirent* sim_readdir(DIR*D){ SDir*d=(SDir*)D; if(d->pos>=d->names.size()) return nullptr; memset(&d->de,0,sizeof d->de); strncpy(d->de.d_name,d->names[d->pos++].c_str(),255); d->de.d_type=DT_REG; return &d->de; }
int sim_closedir(DIR*D){ delete (SDir*)D; return 0; }
void* sim_malloc(size_t);
int sim_scandir(const char*p,struct dirent***out,int(*filter)(const struct dirent*),int(*cmp)(const struct dirent**,const struct dirent**)){
  if(dfault(F_D_OPENDIR,"snapshot_")){ errno=EMFILE; return -1; }
  string s=norm(p); if(!DK->dirs.count(s)){ errno=ENOENT; return -1; } vector<string> n=disk_list(s); n.push_back("."); n.push_back(".."); std::sort(n.begin(),n.end());
  vector<struct dirent*> r; for(auto&x:n){ struct dirent d; memset(&d,0,sizeof d); strncpy(d.d_name,x.c_str(),255); if(filter&&!filter(&d)) continue; struct dirent*q=(struct dirent*)sim_malloc(sizeof d); if(!q){ errno=ENOMEM; return -1; } *q=d; r.push_back(q); }
  (void)cmp; struct dirent**a=(struct dirent**)sim_malloc(sizeof(void*)*(r.size()+1)); if(!a){ errno=ENOMEM; return -1; } for(size_t i=0;i<r.size();i++) a[i]=r[i]; *out=a; return (int)r.size(); }
int sim_alphasort(const struct dirent**a,const struct dirent**b){ return strcmp((*a)->d_name,(*b)->d_name); }
}
