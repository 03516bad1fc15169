// Shared run-time monitoring support: random source, allocator monitor, event log of native
// calls, program runner, progress reporting to the Python driver.
#pragma once
#include "wrench.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <algorithm>

typedef std::string Str;
template<class T> using Vec = std::vector<T>;

//---------------------------------------------------------------- random
static inline uint64_t mix64(uint64_t z){ z+=0x9E3779B97F4A7C15ull; z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed=1):s(mix64(seed)){}
  uint64_t u64(){ s+=0x9E3779B97F4A7C15ull; return mix64(s); }
  uint32_t u32(){ return (uint32_t)(u64()>>32); }
  int below(int n){ return n<=1?0:(int)(u64()%(uint64_t)n); }
  int range(int a,int b){ return a+(int)(u64()%(uint64_t)((int64_t)b-a+1)); }
  bool chance(int pct){ return below(100)<pct; }
  template<class T> const T& pick(const Vec<T>&v){ return v[below((int)v.size())]; }
};
static inline Str fmt(const char*f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }
static inline Str esc(const Str&s){ Str o; for(unsigned char c:s){ if(c=='\n')o+="\\n"; else if(c=='\t')o+="\\t"; else if(c=='\\')o+="\\\\"; else if(c<32||c>=127)o+=fmt("\\x%02x",c); else o+=c;} return o; }
static inline uint64_t hashStr64(const Str&s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s){h^=c;h*=1099511628211ull;} return mix64(h); }

//---------------------------------------------------------------- statistics and verdicts
struct Stats {
  std::map<Str,uint64_t> n;
  std::unordered_set<uint64_t> distinct;
  Vec<Str> samples;
  void inc(const Str&k,uint64_t d=1){ n[k]+=d; }
  void seen(uint64_t h){ if(distinct.size()<400000) distinct.insert(h); }
  void sample(const Str&s){ if(samples.size()<3) samples.push_back(s); }
};
static Stats g_st;
static Str g_prop, g_replayDir;
static uint64_t g_seed=1;
static long g_case=0;
static int g_violations=0;
static bool g_verbose=false;
static const char* g_variant="?";

// one violation: key identifies the specific failure for known-findings matching
static void violation(const Str&key,const Str&what,const Str&details){
  ++g_violations;
  Str path="-";
  if(!g_replayDir.empty()){
    path=fmt("%s/%s-%s-s%llu-c%ld.txt",g_replayDir.c_str(),g_prop.c_str(),g_variant,(unsigned long long)g_seed,g_case);
    FILE*f=fopen(path.c_str(),"a"); if(f){ fprintf(f,"key: %s\nwhat: %s\nvariant: %s seed: %llu case: %ld\n%s\n",key.c_str(),what.c_str(),g_variant,(unsigned long long)g_seed,g_case,details.c_str()); fclose(f);} }
  printf("V\t%s\t%ld\t%s\t%s\n",key.c_str(),g_case,path.c_str(),esc(what).substr(0,600).c_str()); fflush(stdout);
  if(g_verbose) printf("%s\n%s\n",what.c_str(),details.c_str());
}

//---------------------------------------------------------------- allocator monitor
// Every block wrench obtains carries a header and trailer canary; live blocks are tracked, so
// leaks, double frees, foreign frees and overruns are seen even without a sanitizer.
struct AllocMon {
  std::unordered_map<void*,size_t> live;
  uint64_t total=0, bytes=0, peak=0; uint64_t maxLive=600ull<<20;
  long failAt=-1; bool failForever=false; uint64_t seq=0; uint64_t failed=0;
  Vec<Str> errors;
  bool active=true;
} static g_am;
enum { EXIT_RESOURCE=78, EXIT_TIMEOUT=77, EXIT_SKIP=79 };
static bool g_unbounded=false; // this case may ask for any amount of memory
// where bounded memory is the property, running into the limit is a violation
static const char* g_overLimit=0; static Str g_overSrc;
static void overLimit(size_t n){ if(g_overLimit){ const char*k=g_overLimit; g_overLimit=0; violation(k,fmt("memory limit exceeded: %llu bytes live, %zu more requested",(unsigned long long)g_am.bytes,n),g_overSrc); } fflush(stdout); _exit(g_unbounded?EXIT_SKIP:EXIT_RESOURCE); }
static void* monAlloc(size_t n){
  ++g_am.seq;
  if(g_am.failAt>=0 && ((long)g_am.seq==g_am.failAt || (g_am.failForever && (long)g_am.seq>=g_am.failAt))){ ++g_am.failed; return 0; }
  if(n>(512u<<20) || g_am.bytes+n>g_am.maxLive) overLimit(n);
  char*p=(char*)malloc(n+8); if(!p) _exit(EXIT_RESOURCE);
  memset(p,0xD5,n); memcpy(p+n,"\x5a\xa5\x5a\xa5\x5a\xa5\x5a\xa5",8);
  g_am.live[p]=n; g_am.total++; g_am.bytes+=n; if(g_am.bytes>g_am.peak)g_am.peak=g_am.bytes; return p;
}
static void monFree(void*p){
  if(!p) return;
  auto it=g_am.live.find(p);
  if(it==g_am.live.end()){ g_am.errors.push_back("free of a block that is not live"); return; }
  if(memcmp((char*)p+it->second,"\x5a\xa5\x5a\xa5\x5a\xa5\x5a\xa5",8)) g_am.errors.push_back(fmt("bytes past the end of a %zu-byte block were overwritten",it->second));
  memset(p,0xDD,it->second);
  g_am.bytes-=it->second; g_am.live.erase(it); free(p);
}
// under ASan the allocator leaves overrun and use-after-free detection to ASan
static void* monAllocPlain(size_t n){
  ++g_am.seq;
  if(g_am.failAt>=0 && ((long)g_am.seq==g_am.failAt || (g_am.failForever && (long)g_am.seq>=g_am.failAt))){ ++g_am.failed; return 0; }
  if(n>(512u<<20) || g_am.bytes+n>g_am.maxLive) overLimit(n);
  char*p=(char*)malloc(n); if(!p) _exit(EXIT_RESOURCE);
  memset(p,0xD5,n);
  g_am.live[p]=n; g_am.total++; g_am.bytes+=n; if(g_am.bytes>g_am.peak)g_am.peak=g_am.bytes; return p;
}
static void monFreePlain(void*p){
  if(!p) return;
  auto it=g_am.live.find(p);
  if(it==g_am.live.end()){ g_am.errors.push_back("free of a block that is not live"); return; }
  g_am.bytes-=it->second; g_am.live.erase(it); free(p);
}
// the harness itself is not instrumented and shared by builds; the library may be instrumented
extern "C" void __asan_init() __attribute__((weak));
#define VP_ASAN (&__asan_init!=0)
static void installAllocator(){ if(VP_ASAN) wr_setGlobalAllocator(monAllocPlain,monFreePlain); else wr_setGlobalAllocator(monAlloc,monFree); }

//---------------------------------------------------------------- typed rendering of values
static Str f2s(float f){ if(f==0) f=0; uint32_t u; memcpy(&u,&f,4); return fmt("f:%08x(%.9g)",u,f); }
// hash tables identify keys by their 32-bit hash (h.name and h["name"] are the same entry)
static Str showKey(const WRValue&v){ const WRValue d=v.deref(); if(d.type==WR_INT) return fmt("#%08x",(unsigned)d.i); return fmt("#%08x",(unsigned)d.getHash()); }
static Str showVal(const WRValue&v0,int depth=0){
  const WRValue v=v0.deref();
  if(v.type==WR_INT) return fmt("i:%d",v.i);
  if(v.type==WR_FLOAT) return f2s(v.f);
  if(depth>8) return "...";
  int len=0;
  if(v.isString(&len)){ unsigned int l=0; void*p=v.array(&l,SV_CHAR); return p?"s:"+esc(Str((char*)p,l)):Str("s:<null>"); }
  if(v.isWrenchArray(&len)){ Str o="["; bool first=true; for(WRValue::Iterator it=v.begin();it!=v.end();++it){ if(!first)o+=","; first=false; o+=(*it).value?showVal(*(*it).value,depth+1):Str("?"); } return o+"]"; }
  if(v.isHashTable()){ Vec<Str> e; for(WRValue::Iterator it=v.begin();it!=v.end();++it){ e.push_back(((*it).key?showKey(*(*it).key):Str("?"))+"="+((*it).value?showVal(*(*it).value,depth+1):Str("?"))); } std::sort(e.begin(),e.end()); Str o="{"; for(size_t i=0;i<e.size();++i){ if(i)o+=","; o+=e[i]; } return o+"}"; }
  if(v.isStruct()) return "struct";
  return "other";
}

//---------------------------------------------------------------- program runner
struct RunCfg {
  uint8_t flags=WR_INCLUDE_GLOBALS; int gc=-1; int stack=2000; int slice=0; bool libs=true;
  std::function<void(WRState*)> setup; std::function<void(WRState*,WRContext*)> after;
  int maxResume=2000000; bool shrinkGCInNative=false;
};
struct RunOut {
  int cerr=0, err=0; bool ctx=false; bool yieldedAtEnd=false; long forced=0, yields=0; Vec<Str> trace; Vec<Str> globals; Str ret; size_t leaked=0; size_t codeLen=0; uint64_t codeHash=0; Str cmsg;
};
struct Recorder { Vec<Str>* t; long n=0; size_t cap=200000; };
static Recorder g_rec;
static void nat_log(WRContext*,const WRValue*a,const int n,WRValue&,void*){
  Str o; for(int i=0;i<n;i++){ if(i)o+=" "; o+=showVal(a[i]); }
  if(g_rec.t && g_rec.t->size()<g_rec.cap) g_rec.t->push_back(o); g_rec.n++;
}
static void nat_id(WRContext*,const WRValue*a,const int n,WRValue&r,void*){ if(n>0) r=a[0].deref(); }
static void nat_sum(WRContext*,const WRValue*a,const int n,WRValue&r,void*){ uint32_t s=0; for(int i=0;i<n;i++) s+=(uint32_t)a[i].asInt(); wr_makeInt(&r,(int)s); }
static void nat_yieldless(WRContext*,const WRValue*,const int,WRValue&,void*){}

static int compileSrc(const Str&src,unsigned char**o,int*l,uint8_t flags,Str*msg=0){ *o=0;*l=0; WRstr m; int e=wr_compile(src.c_str(),(int)src.size(),o,l,&m,flags); if(msg)*msg=m.c_str(); return e; }

static RunOut runProgram(const Str&src,const RunCfg&c,const Vec<Str>&globalNames=Vec<Str>()){
  RunOut r; size_t live0=g_am.live.size();
  unsigned char*o; int l;
  r.cerr=compileSrc(src,&o,&l,c.flags,&r.cmsg);
  if(r.cerr){ r.leaked=g_am.live.size()-live0; return r; }
  r.codeLen=l; r.codeHash=hashStr64(Str((char*)o,l));
  Recorder save=g_rec; g_rec.t=&r.trace; g_rec.n=0;
  WRState*w=wr_newState(c.stack);
  if(c.libs) wr_loadAllLibs(w);
  wr_registerFunction(w,"log",nat_log,0); wr_registerFunction(w,"id",nat_id,0); wr_registerFunction(w,"nsum",nat_sum,0);
  if(c.gc>=0) wr_setAllocatedMemoryGCHint(w,(uint32_t)c.gc);
#ifdef WRENCH_TIME_SLICES
  if(c.slice) wr_setInstructionsPerSlice(w,c.slice);
#endif
  if(c.setup) c.setup(w);
  WRContext*x=wr_run(w,o,l,false);
  r.ctx=x!=0;
  if(x){
    WRValue*args; int an; WRValue*rv; long k=0;
    while(wr_getYieldInfo(x,&args,&an,&rv) && k++<c.maxResume){
      if(an==0 && rv==0) r.forced++;
      else {
        r.yields++; Str t="Y"; for(int i=0;i<an;i++) t+=" "+showVal(args[i]); r.trace.push_back(t);
        if(rv) wr_makeInt(rv,(int)(r.yields*3+1));
      }
      wr_continue(x);
    }
    r.yieldedAtEnd=wr_getYieldInfo(x);
  }
  r.err=wr_getLastError(w);
  if(x && !r.err){ WRValue*rv=wr_returnValueFromLastCall(x); if(rv) r.ret=showVal(*rv); }
  if(x && (c.flags&WR_INCLUDE_GLOBALS) && !r.err) for(auto&g:globalNames){ WRValue*v=wr_getGlobalRef(x,g.c_str()); r.globals.push_back(v?showVal(*v):Str("<none>")); }
  if(c.after) c.after(w,x);
  wr_destroyState(w); wr_free(o);
  g_rec=save;
  r.leaked=g_am.live.size()-live0;
  return r;
}

//---------------------------------------------------------------- case loop
struct Progress { volatile long cur; volatile long done; };
static Progress* g_prog=0;
static int g_caseCpu=20;
static void onTimeout(int){ _exit(EXIT_TIMEOUT); }
static void armCase(int cpu){ struct itimerval t; memset(&t,0,sizeof t); t.it_value.tv_sec=cpu; setitimer(ITIMER_PROF,&t,0); }
typedef std::function<void(Rng&,long)> CaseFn;
static std::map<Str,CaseFn> g_modes;

static int harnessMain(int argc,char**argv){
  long from=0,to=1; Str mode, progFile, hashFile; 
  for(int i=1;i<argc;i++){ Str a=argv[i];
    auto nx=[&]{ return Str(i+1<argc?argv[++i]:""); };
    if(a=="--mode") mode=nx(); else if(a=="--prop") g_prop=nx(); else if(a=="--seed") g_seed=strtoull(nx().c_str(),0,10);
    else if(a=="--from") from=atol(nx().c_str()); else if(a=="--to") to=atol(nx().c_str());
    else if(a=="--progress") progFile=nx(); else if(a=="--hashes") hashFile=nx(); else if(a=="--replay-dir") g_replayDir=nx();
    else if(a=="-v") g_verbose=true; else if(a=="--variant") g_variant=strdup(nx().c_str()); else if(a=="--cpu") g_caseCpu=atoi(nx().c_str()); }
  if(g_prop.empty()) g_prop=mode;
  auto it=g_modes.find(mode); if(it==g_modes.end()){ fprintf(stderr,"unknown mode %s\n",mode.c_str()); return 2; }
  static Progress local; g_prog=&local;
  if(!progFile.empty()){ int fd=open(progFile.c_str(),O_RDWR|O_CREAT,0644); if(fd<0||ftruncate(fd,sizeof(Progress))) return 2; g_prog=(Progress*)mmap(0,sizeof(Progress),PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd); }
  signal(SIGPROF,onTimeout); signal(SIGPIPE,SIG_IGN);
  installAllocator();
  for(long c=from;c<to;c++){
    g_case=c; g_unbounded=false; g_prog->cur=c; armCase(g_caseCpu);
    Rng r(mix64(g_seed*0x100000001B3ull+hashStr64(mode))^mix64((uint64_t)c+77));
    it->second(r,c);
    g_st.inc("cases"); g_prog->done=c+1;
  }
  armCase(0);
  for(auto&k:g_st.n) printf("S\t%s\t%llu\n",k.first.c_str(),(unsigned long long)k.second);
  for(auto&s:g_st.samples) printf("X\t%s\n",esc(s).substr(0,900).c_str());
  if(!hashFile.empty()){ FILE*f=fopen(hashFile.c_str(),"ab"); if(f){ for(uint64_t h:g_st.distinct) fwrite(&h,8,1,f); fclose(f);} }
  printf("S\tdistinct_local\t%zu\n",g_st.distinct.size());
  printf("E\tdone\n"); fflush(stdout);
  return 0;
}
