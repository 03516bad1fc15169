// Execution-mode checks over reference programs: suspension (P11), collection thresholds (P05),
// compile options and builds (P04), stack sizes (P21).
#include "langlib.h"

//---------------------------------------------------------------- several programs in one state
struct Prog { Generated g; Vec<Str> trace; unsigned char*o=0; int l=0; WRContext*x=0; bool done=false; long yields=0, forced=0, steps=0; Str err; int flags=0; };
static Vec<Prog*>* g_sess=0; static Prog* g_cur=0;
static void sessLog(WRContext*c,const WRValue*a,const int n,WRValue&,void*){ Prog*p=0; for(Prog*q:*g_sess) if(q->x==c) p=q; if(!p) p=g_cur; Str o; for(int i=0;i<n;i++){ if(i)o+=" "; o+=showVal(a[i]); } p->trace.push_back(o); }
static void pump(Prog*p){ // after a run/continue: serve one yield
  WRValue*args; int an; WRValue*rv; 
  if(!wr_getYieldInfo(p->x,&args,&an,&rv)){ p->done=true; return; }
  if(an==0&&rv==0) p->forced++; else { p->yields++; Str t="Y"; for(int i=0;i<an;i++) t+=" "+showVal(args[i]); p->trace.push_back(t); if(rv) wr_makeInt(rv,(int)(p->yields*3+1)); } }
static Str checkProg(Prog&p,WRState*w){ if(!p.err.empty()) return p.err; if(!p.done) return "never finished"; if(p.trace!=p.g.trace) return "native calls differ, "+diffTrace(p.g.trace,p.trace);
  if(p.flags&WR_INCLUDE_GLOBALS) for(size_t i=0;i<p.g.gnames.size();i++){ WRValue*v=wr_getGlobalRef(p.x,p.g.gnames[i].c_str()); if(v&&showVal(*v)!=p.g.gvals[i]) return fmt("global %s is %s, expected %s",p.g.gnames[i].c_str(),showVal(*v).c_str(),p.g.gvals[i].c_str()); }
  return ""; }
// interleave n programs, each suspended by slices and/or its own yields, in host-chosen order
static void interleave(Rng&r,long,int maxProgs,bool own){
  size_t live0=g_am.live.size(); Vec<Prog> ps(r.range(1,maxProgs)); Vec<Prog*> sess; for(auto&p:ps) sess.push_back(&p); g_sess=&sess;
  for(auto&p:ps){ Profile pf=profFor(own||r.chance(50)?"yield":"mix",r); for(int t=0;t<6;t++){ p.g=generate(r,pf); if(p.g.ok) break; } if(!p.g.ok){ g_st.inc("discard"); return; } }
  WRState*w=wr_newState(r.pick(Vec<int>{600,2000})); wr_loadAllLibs(w); wr_registerFunction(w,"log",sessLog,0); wr_registerFunction(w,"id",nat_id,0); wr_registerFunction(w,"nsum",nat_sum,0);
  int gc=r.pick(Vec<int>{-1,0,1,50,1000}); if(gc>=0) wr_setAllocatedMemoryGCHint(w,gc);
  int slice=0;
#ifdef WRENCH_TIME_SLICES
  if(!own||r.chance(50)){ slice=r.pick(Vec<int>{1,1,2,3,4,5,7,11,20,50,100,1000}); wr_setInstructionsPerSlice(w,slice); }
#endif
  Str what; Prog*bad=0; uint64_t order=0; bool reslice=slice&&r.chance(30); long notYielded=0; std::function<void(Prog&)> fin;
  for(auto&p:ps){ p.flags=WR_INCLUDE_GLOBALS|(r.chance(20)?WR_EMBED_DEBUG_CODE:0); Str m; if(compileSrc(p.g.src,&p.o,&p.l,p.flags,&m)){ what="compile error "+m; bad=&p; break; } }
  if(what.empty()){
    // programs start one after another, possibly while others are suspended
    size_t started=0; long budget=3000000;
    while(budget-->0){
      Vec<Prog*> live; for(size_t i=0;i<started;i++) if(!ps[i].done&&ps[i].err.empty()) live.push_back(&ps[i]);
      if(live.empty()&&started==ps.size()) break;
#ifdef WRENCH_TIME_SLICES
      if(reslice&&r.chance(10)) wr_setInstructionsPerSlice(w,r.range(1,40));
#endif
      if(started<ps.size()&&(live.empty()||r.chance(25))){ Prog*p=&ps[started]; g_cur=p; p->x=wr_run(w,p->o,p->l,false); started++; if(!p->x){ p->err=fmt("no context, error %d",wr_getLastError(w)); } else if(wr_getLastError(w)) p->err=fmt("error %d",wr_getLastError(w)); else { pump(p); if(p->done&&fin) fin(*p); } continue; }
      Prog*p=live[r.below((int)live.size())]; order=order*31+(p-&ps[0])+1; p->steps++; g_cur=p;
      WRValue*rv=wr_continue(p->x); int e=wr_getLastError(w); if(e){ p->err=fmt("continue ended with error %d",e); continue; }
      bool was=wr_getYieldInfo(p->x); if(rv==0&&!was) p->err="continue returned nothing although the program finished"; if(rv!=0&&was) p->err="continue returned a value although the program is suspended"; pump(p);
      if(p->done&&r.chance(20)){ WRValue*z=wr_continue(p->x); if(z||wr_getLastError(w)!=WR_ERR_context_not_yielded) p->err=fmt("continuing a finished program gave error %d",wr_getLastError(w)); notYielded++; }
    }
    for(auto&p:ps){ Str s=checkProg(p,w); if(!s.empty()&&what.empty()){ what=s; bad=&p; } g_st.inc("suspensions",p.steps); g_st.inc("yields",p.yields); g_st.inc("forced_yields",p.forced); countFeat(p.g); }
  }
  g_st.inc("programs",ps.size()); g_st.inc("not_yielded_refused",notYielded); g_st.seen(hashStr64(ps[0].g.src)^order); if(g_st.samples.size()<2&&ps[0].g.src.size()<600) g_st.sample(ps[0].g.src);
  wr_destroyState(w); for(auto&p:ps) if(p.o) wr_free(p.o);
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0);
  if(!what.empty()){ Str d=fmt("slice=%d gc=%d programs=%zu\n",slice,gc,ps.size())+what+"\n"; if(bad) d+="--- source\n"+bad->g.src+"--- expected\n"+joinTrace(bad->g.trace)+"--- observed\n"+joinTrace(bad->trace); for(auto&p:ps) if(&p!=bad) d+="--- other program\n"+p.g.src; violation("suspend",what,d); }
  g_sess=0;
}

//---------------------------------------------------------------- collection thresholds
static void gcCase(Rng&r,long){
  const char*m=r.pick(Vec<const char*>{"P03","P03","mix","yield"}); Profile pf=profFor(m,r); Generated g=generate(r,pf); if(!g.ok){ g_st.inc("discard"); return; }
  Vec<int> th={0,1,r.range(2,40),r.range(40,400),r.range(400,6000),1000000000}; bool sl=r.chance(30); int slice=r.range(1,60);
  for(int t:th){ RunCfg c; c.gc=t; if(sl) c.slice=slice; size_t a0=g_am.total; RunOut o=runProgram(g.src,c,g.gnames); g_st.inc("runs"); g_st.inc("blocks_allocated",g_am.total-a0); if(reportIfBad(g,o,c,"gc.ref")) break; if(o.leaked){ violation("gc.leak",fmt("%zu blocks leaked",o.leaked),g.src); break; } }
  countFeat(g); g_st.inc("programs"); g_st.seen(hashStr64(g.src)); if(g_st.samples.size()<2&&g.src.size()<600) g_st.sample(g.src);
}
// ... and memory stays bounded: the same garbage-producing loop, run longer, needs no more memory
static Str garbage(Rng&r,int d=0){
  switch(r.below(22)){
    case 0: return "t = \"abc\" + i;\n"; case 1: return "t = \"x\"; t = t + t + i + \"tail\";\n"; case 2: return "a = { i, 2, 3, i };\n";
    case 3: return "h = { \"k\" : i, 7 : \"seven\" };\n"; case 4: return "s = new Node(); s.a = \"v\" + i; s.b = { 1, 2 };\n"; case 5: return "u = mk( i );\n";
    case 6: return "a = { { 1, i }, { \"q\" + i, 3 } };\n"; case 7: return "h = { \"n\" : { \"m\" : { i, i } } }; u = h.n.m[0];\n"; case 8: return "ga[ i & 7 ] = \"elem\" + i;\n";
    case 9: return "gh[ i & 3 ] = { i, \"inner\" + i };\n"; case 10: return "gh._remove( i & 3 );\n"; case 11: return "s = new Node(); s.b = s; s.a = { s };\n"; // cycle
    case 12: return "t = str::sprintf( \"%d and %s\", i, \"text\" );\n"; case 13: return "t = str::left( \"some longer text\", 3 + (i & 3) ) + str::toupper( \"abc\" );\n"; case 14: return "a = { 1, 2, 3 }; array::clear( a ); array::insert( a, 0, 2 ); a[ 1 ] = \"s\" + i;\n";
    case 15: return "u = std::serialize( { i, \"abc\", { 1 : 2 } } );\n"; case 16: return "if ( 1 ) { var q[] = { 1, 2, 3, 4 }; for( var e : q ) { t = \"e\" + e; } }\n"; case 17: return "u = deep( 5, i );\n";
    case 18: return "var z[40]; z[ 39 ] = \"last\" + i; a = z;\n"; case 19: return "lst = new Link( 0 ); lst.next = new Link( lst ); lst.next.val = \"l\" + i; lst = 0;\n"; case 20: return "gs = gs + \"x\"; if ( gs._count > 40 ) { gs = \"\"; }\n";
    default: if(d>2) return "u = \"f\" + i;\n"; return "for( k = 0; k < 3; ++k ) { "+garbage(r,d+1)+" }\n"; } }
static void boundedCase(Rng&r,long){
  Str body; int n=r.range(1,5); for(int i=0;i<n;i++) body+="  "+garbage(r);
  Str src="struct Node { var a = 0; var b = 0; };\nstruct Link( x ) { var next = x; var val = 0; };\nvar ga[8]; var gh = { 0 : 0 }; var gs = \"\"; var lst;\n"
    "function mk( n ) { var l = { n, \"made\" + n }; return l; }\nfunction deep( d, n ) { var l = { \"d\" : d, \"n\" : \"s\" + n }; if ( d > 0 ) { return deep( d - 1, n ); } return l.n; }\n"
    "";
  static const char*LP[][2]={{"for( var i = 0; i < n; ++i ) {\n","}\n"},{"var i = 0; while( i < n ) { ++i;\n","}\n"},{"var i = 0; do { ++i;\n","} while( i < n );\n"},{"var i = 0;\nagain:\n++i;\n","if ( i < n ) { goto again; }\n"},{"for( var i = 0; i < n; ++i ) {\n if ( i & 1 ) { continue; }\n","}\n"}};
  int lp=r.below(5); Str vars="var t; var a; var h; var s; var u; var k;\n"; bool glob=r.chance(40);
  if(glob) src+=vars; // garbage held by globals
  src+=Str("function work( n ) { ")+(glob?"":vars)+LP[lp][0]+body+LP[lp][1]+" return 0; }\n"; g_st.inc(fmt("loop.%d%s",lp,glob?".glob":""));
  if(g_verbose) printf("%s\n",src.c_str()),fflush(stdout);
  int N=r.range(60,120), gc=r.pick(Vec<int>{0,100,1000,4000,-1,20000}); int slice=r.chance(30)?r.range(5,200):0; bool hostLoop=r.chance(40);
  g_am.maxLive=g_am.bytes+(64u<<20); g_overLimit="gc.bounded"; g_overSrc=src;
  uint64_t peak[3]={0,0,0}; size_t live[3]={0,0,0}; int mult[3]={1,4,16}; RunOut o;
  for(int k=0;k<3;k++){ RunCfg c; c.gc=gc; c.slice=slice; c.stack=2000; Str s=src; if(!hostLoop) s+=fmt("work( %d );\n",N*mult[k]);
    uint64_t base=g_am.bytes; g_am.peak=g_am.bytes;
    c.after=[&](WRState*w,WRContext*x){ if(hostLoop&&x) for(int q=0;q<mult[k];q++){ WRValue a(N); wr_callFunction(x,"work",&a,1); WRValue*ar; int an; WRValue*rv; while(wr_getYieldInfo(x,&ar,&an,&rv)) wr_continue(x); if(wr_getLastError(w)) o.err=wr_getLastError(w); } live[k]=g_am.live.size(); };
    o=runProgram(s,c); peak[k]=g_am.peak-base; g_st.inc("runs"); g_st.inc("iterations",N*mult[k]);
    if(o.cerr||o.err||o.leaked){ violation("gc.bounded",fmt("compile %d %s run %d leaked %zu",o.cerr,o.cmsg.c_str(),o.err,o.leaked),s); return; } }
  g_st.inc("programs"); g_st.seen(hashStr64(src)); g_st.inc("peak_bytes",peak[2]); if(g_st.samples.size()<2) g_st.sample(src);
  // slack: two collection thresholds plus the largest single allocation these loops make
  uint64_t slack=20000+(gc<0?4000:gc)*3;
  if(peak[2]>peak[1]+slack) violation("gc.bounded",fmt("peak memory grows with the number of iterations: %llu, %llu, %llu bytes for %d, %d, %d iterations (threshold %d)",(unsigned long long)peak[0],(unsigned long long)peak[1],(unsigned long long)peak[2],N,N*4,N*16,gc),src);
}

//---------------------------------------------------------------- builds and compile options
static void cfgCase(Rng&r,long cs){
  const char*m=r.pick(Vec<const char*>{"P01","P02","P03","mix","yield","div"}); Profile pf=profFor(m,r); Generated g=generate(r,pf);
  Str src=g.src; bool ref=g.ok; g_unbounded=!ref; if(!ref&&g.why&&!strcmp(g.why,"steps")){ g_st.inc("discard"); printf("D\t%ld\tskip\n",cs); return; }
  if(!ref&&!strcmp(g.why,"trace")){ printf("D\t%ld\tskip\n",cs); return; }
  int mut=r.below(10); bool broken=false;
  if(mut<2){ // damaged text: every build must report the same error
    broken=true; ref=false; int k=r.range(1,3); for(int i=0;i<k;i++){ size_t at=r.below((int)src.size()); switch(r.below(3)){ case 0: src.erase(at,1); break; case 1: src.insert(at,1,";(){}[]+=\"'09aZ_:,."[r.below(18)]); break; default: src[at]=";(){}[]+=\"'09aZ_:,."[r.below(18)]; } } }
  else if(mut==2){ src+="\nmissing_function_xyz( 1 );\nlog( 1 );\n"; ref=false; }
  else if(mut==3){ src+="\nlog( 1 );\nnolib::nofunc( 1 );\nlog( 2 );\n"; ref=false; }
  static const int flags[]={0,WR_EMBED_DEBUG_CODE,WR_EMBED_SOURCE_CODE,WR_INCLUDE_GLOBALS,WR_NON_STRICT_VAR};
  Vec<int> masks={WR_INCLUDE_GLOBALS}; for(int i=0;i<5;i++){ int k=0; for(int b:flags) if(r.chance(50)) k|=b; masks.push_back(k); } masks.push_back(WR_EMBED_DEBUG_CODE|WR_EMBED_SOURCE_CODE|WR_INCLUDE_GLOBALS|WR_NON_STRICT_VAR); masks.push_back(0);
  uint64_t dig=0; bool first=true; Str d0; int slice=r.range(3,80);
  for(int k:masks){
    unsigned char*a,*b; int la,lb; int ea=compileSrc(src,&a,&la,k), eb=compileSrc(src,&b,&lb,k); g_st.inc("compiles",2);
    if(ea!=eb||la!=lb||(la&&memcmp(a,b,la))){ violation("cfg.determinism",fmt("two compilations of the same text with options %d differ (errors %d %d, sizes %d %d)",k,ea,eb,la,lb),src); }
    wr_free(a); wr_free(b);
    if(broken&&!ea) { g_st.inc("damaged_accepted"); printf("D\t%ld\taccepted\n",cs); return; } // an accepted damaged program may do anything: P06's business
    if(broken){ g_st.inc("compile_errors"); Str d=fmt("cerr=%d",ea); if(first){ d0=d; first=false; } else if(d!=d0){ if(k&WR_NON_STRICT_VAR) continue; violation("cfg.options",fmt("options %d: %s, options %d: %s",masks[0],d0.c_str(),k,d.c_str()),src); return; } continue; }
    RunCfg c; c.flags=k; c.slice=slice; RunOut o=runProgram(src,c,(k&WR_INCLUDE_GLOBALS)?g.gnames:Vec<Str>()); g_st.inc("runs"); g_st.inc("events",o.trace.size());
    Str d=fmt("cerr=%d err=%d;",o.cerr,o.err); for(auto&t:o.trace) d+=t+";"; d+="ret="+o.ret; 
    if(ref&&reportIfBad(g,o,c,"cfg.ref")) return;
    if(first){ d0=d; first=false; if(getenv("VP_SHOW")) printf("%s\n%s\n",src.c_str(),d.c_str()); } else if(d!=d0){ size_t i=0; while(i<d.size()&&d[i]==d0[i]) i++; violation("cfg.options",fmt("options %d and %d behave differently near \"%s\" / \"%s\"",masks[0],k,esc(d0.substr(i>20?i-20:0,80)).c_str(),esc(d.substr(i>20?i-20:0,80)).c_str()),src); return; }
    if(o.leaked){ violation("cfg.leak",fmt("options %d leak %zu blocks",k,o.leaked),src); return; } }
  if(!g.ok) g_st.inc("undefined_by_reference"); g_st.inc("programs"); g_st.seen(hashStr64(src)); if(g_st.samples.size()<2&&src.size()<600) g_st.sample(src);
  // builds must agree on everything the reference defines (and on errors)
  if(ref||broken||mut<4) printf("D\t%ld\t%016llx\n",cs,(unsigned long long)(g.ok||broken?hashStr64(d0):0));
}

int main(int n,char**v){
  g_modes["slice"]=[](Rng&r,long c){ interleave(r,c,1,false); }; g_modes["pair"]=[](Rng&r,long c){ interleave(r,c,4,false); }; g_modes["own"]=[](Rng&r,long c){ interleave(r,c,3,true); };
  g_modes["gc"]=gcCase; g_modes["bounded"]=boundedCase; g_modes["cfg"]=cfgCase;
  return harnessMain(n,v);
}
