// Simulated heap of the node (fixed addresses, shadow memory, failure injection) and the
// memory-access hooks emitted by -fsanitize=thread, which double as preemption points.
#include "sim.h"
#include <sys/mman.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <execinfo.h>

extern "C" { extern i64 g_countdown; void sim_preempt(void*); }
struct Blk { u64 size; u32 cls; u32 state; u64 cap; u64 seq; void*site; u64 pad; };      // 48 bytes before the payload
enum { ST_LIVE=0xA11C, ST_FREE=0xF4EE };
static char*hbump; static Blk* hfree[80]; static std::multimap<u64,Blk*>* big;
static deque<Blk*>* quar; static u64 quar_bytes; static u64 live_bytes, live_blocks, heap_seq;
bool g_malloc_fail_armed=false;
static inline u8* SH(u64 a){ return (u8*)(SHADOW_BASE+((a-HEAP_BASE)>>4)); }
static void shadow_set(u64 a,u64 n,bool valid){ // a is 16-aligned
  u8*s=SH(a); u64 g=n>>4; if(valid){ memset(s,16,g); if(n&15) s[g]=n&15; } else memset(s,0,(n+15)>>4); }
static int hcls(u64 n){ if(n<=512) return (int)((n+15)/16)-1; // 0..31
  int lz=63-__builtin_clzll(n-1); int c=32+(lz-9)*4+(int)(((n-1)>>(lz-2))&3); return c; }
static u64 hcls_size(int c){ if(c<32) return (c+1)*16; int o=(c-32)/4,s=(c-32)%4; return ((u64)512<<o)+((u64)(s+1)<<(7+o)); }
void heap_init(){
  if(mmap((void*)HEAP_BASE,HEAP_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0)==MAP_FAILED) abort();
  if(mmap((void*)SHADOW_BASE,SHADOW_SIZE,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED|MAP_NORESERVE,-1,0)==MAP_FAILED) abort();
  hbump=(char*)HEAP_BASE+4096; memset(hfree,0,sizeof hfree); quar=new deque<Blk*>(); big=new std::multimap<u64,Blk*>(); quar_bytes=live_bytes=live_blocks=heap_seq=0;
}
u64 heap_live_bytes(){ return live_bytes; } u64 heap_live_blocks(){ return live_blocks; }
u64 heap_seq_now(){ return heap_seq; }
static void recycle(Blk*b){ if(b->cls<80 && b->cap<65536){ *(Blk**)(b+1)=hfree[b->cls]; hfree[b->cls]=b; } else big->insert({b->cap,b}); }
static void* halloc(u64 n,bool zero,void*site){
  if(n==0) n=1; if(n>HEAP_SIZE/2){ errno=ENOMEM; return nullptr; }
  u64 want=n+16; int c=hcls(want); u64 cap=want<65536?hcls_size(c):(want+4095)&~4095ULL; Blk*b=nullptr; bool fresh=false;
  if(cap<65536 && hfree[c]){ b=hfree[c]; hfree[c]=*(Blk**)(b+1); }
  else if(cap>=65536){ auto it=big->lower_bound(cap); if(it!=big->end() && it->first<cap*2){ b=it->second; cap=b->cap; big->erase(it);} }
  if(!b){ if((u64)hbump+sizeof(Blk)+cap+4096>HEAP_BASE+HEAP_SIZE){ errno=ENOMEM; return nullptr; }
    b=(Blk*)hbump; hbump+=sizeof(Blk)+cap; b->cap=cap; b->cls=cap<65536?c:200; fresh=true; }
  b->size=n; b->state=ST_LIVE; b->seq=++heap_seq; char*p=(char*)(b+1);
  shadow_set((u64)p,n,true); if(n&15){} 
  live_bytes+=n; live_blocks++; b->site=site;
  if(zero){ if(!fresh){ if(n>=65536){ u64 a=((u64)p+4095)&~4095ULL,e=((u64)p+n)&~4095ULL; memset(p,0,a-(u64)p); madvise((void*)a,e-a,MADV_DONTNEED); memset((void*)e,0,(u64)p+n-e);} else memset(p,0,n);} }
  else memset(p,0xCD,n<2048?n:2048);
  return p; }
static void hfree_(void*p,void*site){
  Blk*b=(Blk*)p-1; u64 a=(u64)p;
  if(a<HEAP_BASE||a>=HEAP_BASE+HEAP_SIZE||(a&15)||(b->state!=ST_LIVE)){
    bool dbl=a>=HEAP_BASE&&a<HEAP_BASE+HEAP_SIZE&&!(a&15)&&b->state==ST_FREE;
    violate(dbl?"double-free":"bad-free","free(%p) at %p thread %s",p,site,cur_fname()); return; }
  b->state=ST_FREE; live_bytes-=b->size; live_blocks--; shadow_set(a,b->size,false);
  memset(p,0xDB,b->size<512?b->size:512);
  quar->push_back(b); quar_bytes+=b->cap;
  while(quar_bytes>(8u<<20)||quar->size()>4000){ Blk*q=quar->front(); quar->pop_front(); quar_bytes-=q->cap; recycle(q); }
}
map<u64,u64> heap_sites(){ map<u64,u64> m; for(char*p=(char*)HEAP_BASE+4096;p<hbump;){ Blk*b=(Blk*)p; if(b->state==ST_LIVE) m[(u64)b->site]++; p+=sizeof(Blk)+b->cap; } return m; }
string heap_report(){ map<void*,std::pair<u64,u64>> m; for(char*p=(char*)HEAP_BASE+4096;p<hbump;){ Blk*b=(Blk*)p; if(b->state==ST_LIVE){ auto&x=m[b->site]; x.first++; x.second+=b->size; } p+=sizeof(Blk)+b->cap; } string o; for(auto&x:m) o+=strf("%p n=%llu bytes=%llu\n",x.first,(unsigned long long)x.second.first,(unsigned long long)x.second.second); return o; }

extern "C" {
void* sim_malloc(size_t n){ fiber_yield((u64)__builtin_return_address(0)); if(g_malloc_fail_armed&&fault(F_MALLOC)){ errno=ENOMEM; return nullptr; } return halloc(n,false,__builtin_return_address(0)); }
void* sim_calloc(size_t a,size_t b){ if(g_malloc_fail_armed&&fault(F_MALLOC)){ errno=ENOMEM; return nullptr; } return halloc(a*b,true,__builtin_return_address(0)); }
void sim_free(void*p){ if(!p) return; fiber_yield((u64)__builtin_return_address(0)); hfree_(p,__builtin_return_address(0)); }
void* sim_realloc(void*p,size_t n){
  if(!p) return sim_malloc(n);
  if(g_malloc_fail_armed&&fault(F_MALLOC)){ errno=ENOMEM; return nullptr; }
  Blk*b=(Blk*)p-1; if(b->state!=ST_LIVE){ violate("use-after-free","realloc(%p)",p); return nullptr; }
  void*q=halloc(n,false,__builtin_return_address(0)); if(!q) return nullptr; memcpy(q,p,b->size<n?b->size:n); hfree_(p,__builtin_return_address(0)); return q; }
char* sim_strdup(const char*s){ size_t n=strlen(s)+1; if(g_malloc_fail_armed&&fault(F_MALLOC)){ errno=ENOMEM; return nullptr; } char*p=(char*)halloc(n,false,__builtin_return_address(0)); if(p) memcpy(p,s,n); return p; }
char* sim_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); if(g_malloc_fail_armed&&fault(F_MALLOC)){ errno=ENOMEM; return nullptr; } char*p=(char*)halloc(n+1,false,__builtin_return_address(0)); if(p){ memcpy(p,s,n); p[n]=0; } return p; }
int sim_posix_memalign(void**o,size_t al,size_t n){ (void)al; void*p=halloc(n,false,__builtin_return_address(0)); if(!p) return ENOMEM; *o=p; return 0; }
void* sim_aligned_alloc(size_t,size_t n){ return halloc(n,false,__builtin_return_address(0)); }
size_t sim_malloc_usable_size(void*p){ return p?((Blk*)p-1)->size:0; }
}
// ---------------------------------------------------------- access hooks
static void bad_access(u64 a,int n,bool w,void*site){
  violate("invalid-memory-access","%s of %d bytes at %p (heap) from %p thread %s",w?"write":"read",n,(void*)a,site,cur_fname()); }
#define IN_HEAP(a) ((a)-HEAP_BASE<HEAP_SIZE)
#define IN_STACK(a) ((a)-STACK_BASE<STACK_SIZE*MAX_FIBERS)
static inline bool heap_ok(u64 a,int n){ u8*s=SH(a); int off=a&15; if(off+n<=16) return *s>=off+n; if(*s!=16) return false; return s[1]>=off+n-16; }
// An aligned word read that starts inside a block may run past its end: word-at-a-time readers (the item hash) do so by design and mask the excess.
static inline bool word_read(u64 a,int n){ return (n==4||n==8)&&!(a&(n-1))&&heap_ok(a,1); }
#define ACC(nm,n,w) extern "C" void nm(void*p){ u64 a=(u64)p; if(IN_STACK(a)) return; \
  if(IN_HEAP(a) && __builtin_expect(!heap_ok(a,n),0) && (w||!word_read(a,n))) bad_access(a,n,w,__builtin_return_address(0)); \
  if(__builtin_expect(--g_countdown<=0,0)) sim_preempt(__builtin_return_address(0)); }
ACC(__tsan_read1,1,false) ACC(__tsan_read2,2,false) ACC(__tsan_read4,4,false) ACC(__tsan_read8,8,false) ACC(__tsan_read16,16,false)
ACC(__tsan_write1,1,true) ACC(__tsan_write2,2,true) ACC(__tsan_write4,4,true) ACC(__tsan_write8,8,true) ACC(__tsan_write16,16,true)
ACC(__tsan_unaligned_read2,2,false) ACC(__tsan_unaligned_read4,4,false) ACC(__tsan_unaligned_read8,8,false) ACC(__tsan_unaligned_read16,16,false)
ACC(__tsan_unaligned_write2,2,true) ACC(__tsan_unaligned_write4,4,true) ACC(__tsan_unaligned_write8,8,true) ACC(__tsan_unaligned_write16,16,true)
static void range_ok(const void*p,size_t n,bool w,void*site){
  u64 a=(u64)p; if(!IN_HEAP(a)||n==0) return; u64 e=a+n; u8*s=SH(a);
  // first granule .. last granule
  u64 g0=a>>4,g1=(e-1)>>4; for(u64 g=g0;g<=g1;g++,s++){ int need= g==g1? (int)((e-1)&15)+1 : 16; if(*s<need){ bad_access(a,(int)(n>1000000?1000000:n),w,site); return; } } }
extern "C" {
void __tsan_init(){}
void __tsan_func_entry(void*){} void __tsan_func_exit(){}
void __tsan_ignore_thread_begin(){} void __tsan_ignore_thread_end(){}
void __tsan_vptr_update(void**,void*){} void __tsan_vptr_read(void**){}
void __tsan_read_range(void*p,unsigned long n){ range_ok(p,n,false,__builtin_return_address(0)); } void __tsan_write_range(void*p,unsigned long n){ range_ok(p,n,true,__builtin_return_address(0)); }
static inline void tick(void*s){ if(--g_countdown<=0) sim_preempt(s); }
void* __tsan_memcpy(void*d,const void*s,size_t n){ void*r=__builtin_return_address(0); range_ok(s,n,false,r); range_ok(d,n,true,r); tick(r); 
  if(n>=32 && g_countdown < (i64)(n/8) && W->cfg.mean_preempt>0 && W->cfg.mean_preempt<3000){ size_t h=n/2; memcpy(d,s,h); g_countdown=0; tick(r); memcpy((char*)d+h,(const char*)s+h,n-h); return d; }
  return memcpy(d,s,n); }
void* __tsan_memmove(void*d,const void*s,size_t n){ void*r=__builtin_return_address(0); range_ok(s,n,false,r); range_ok(d,n,true,r); tick(r); return memmove(d,s,n); }
void* __tsan_memset(void*d,int v,size_t n){ void*r=__builtin_return_address(0); range_ok(d,n,true,r); tick(r);
  u64 a=(u64)d; if(v==0&&n>=262144&&IN_HEAP(a)){ u64 s=(a+4095)&~4095ULL,e=(a+n)&~4095ULL; memset(d,0,s-a); madvise((void*)s,e-s,MADV_DONTNEED); memset((void*)e,0,a+n-e); return d; }
  return memset(d,v,n); }
void* sim_memset(void*d,int v,size_t n){ return __tsan_memset(d,v,n); }
#define ATOM(T,B) \
 T __tsan_atomic##B##_load(const volatile T*p,int){ tick(__builtin_return_address(0)); return *p; } \
 void __tsan_atomic##B##_store(volatile T*p,T v,int){ tick(__builtin_return_address(0)); *p=v; } \
 T __tsan_atomic##B##_exchange(volatile T*p,T v,int){ tick(__builtin_return_address(0)); T o=*p; *p=v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T*p,T v,int){ tick(__builtin_return_address(0)); T o=*p; *p=o+v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T*p,T v,int){ tick(__builtin_return_address(0)); T o=*p; *p=o-v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T*p,T v,int){ tick(__builtin_return_address(0)); T o=*p; *p=o&v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T*p,T v,int){ tick(__builtin_return_address(0)); T o=*p; *p=o|v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T*p,T v,int){ tick(__builtin_return_address(0)); T o=*p; *p=o^v; return o; } \
 T __tsan_atomic##B##_fetch_nand(volatile T*p,T v,int){ T o=*p; *p=~(o&v); return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T*p,T*e,T v,int,int){ tick(__builtin_return_address(0)); if(*p==*e){ *p=v; return 1;} *e=*p; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T*p,T*e,T v,int a,int b){ (void)a;(void)b; tick(__builtin_return_address(0)); if(*p==*e){ *p=v; return 1;} *e=*p; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T*p,T e,T v,int,int){ tick(__builtin_return_address(0)); T o=*p; if(o==e) *p=v; return o; }
ATOM(u8,8) ATOM(uint16_t,16) ATOM(u32,32) ATOM(u64,64)
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
}
// per-fiber thread-local storage (-femulated-tls)
extern map<void*,void*>& cur_tls();
struct emutls { u64 size, align; void*ptr; void*val; };
extern "C" void* __emutls_get_address(emutls*c){ auto&m=cur_tls(); auto it=m.find(c); if(it!=m.end()) return it->second; void*p=operator new(c->size+16); if(c->val) memcpy(p,c->val,c->size); else memset(p,0,c->size); m[c]=p; return p; }
extern "C" void sim_check_read(const void*p,size_t n){ range_ok(p,n,false,__builtin_return_address(0)); }
