// P21: stack protection. Programs of every shape at every stack size, in protected builds under
// ASan (the stack is the last part of the context block, so the first write past it is seen); the
// monitor checks the error, that what ran before is a prefix of the reference, that everything
// still works afterwards, and that programs which fit are not refused.
#include "langlib.h"
#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
static const char* LITS[]={"1","-7","300","70000","1.5","\"str\"","n","g","{1,2,3}","str::strlen(\"abc\")","math::floor(2.5)","nat()","id(n)","nsum(1,2,3,4,5,6,7,8)","(n+g*3-2)","h[1]","a[1]","h.k","math::pow(2,n)","helper(n)","!n","~n","-n","(int)2.5","a._count"};
static Str lit(Rng&r){ return LITS[r.below(sizeof LITS/sizeof*LITS)]; }
static void nat_nat(WRContext*,const WRValue*,const int,WRValue&,void*){}
static long g_deep; static void nat_deep(WRContext*,const WRValue*a,const int n,WRValue&,void*){ if(n>0){ long d=a[0].asInt(); if(d>g_deep) g_deep=d; } }

struct Run { int err=0; long deep=0; Str val; bool ctx=false; };
// program whose recursion goes to depth d = f( 0, d )
static Str recProgram(Rng&r,int&frame,int&slack){
  int args=r.below(r.chance(80)?5:30), locals=r.below(r.chance(80)?6:60); int shape=r.below(9);
  Str ps="n, d", pass="n + 1, d"; for(int i=0;i<args;i++){ ps+=fmt(", p%d",i); if(r.chance(60)&&pass.find("~")==Str::npos) pass+=", "+Str(r.chance(50)?"n":lit(r)); else pass+="~"; }
  // arguments can only be left out at the end
  Str clean; for(char c:pass) if(c!='~') clean+=c; pass=clean; if(r.chance(10)) pass+=", 1, 2, 3";
  Str body; for(int i=0;i<locals;i++) body+=fmt(" var l%d = ",i)+(r.chance(60)?fmt("%d",i):lit(r))+";"; 
  int extra=r.below(4); for(int i=0;i<extra;i++) switch(r.below(8)){ case 0: body+=" g = "+lit(r)+";"; break; case 1: body+=" nsum( "+lit(r)+", "+lit(r)+", "+lit(r)+" );"; break; case 2: body+=" var t"+fmt("%d",i)+" = "+lit(r)+" + "+lit(r)+";"; break; case 3: body+=" helper( 1 );"; break; case 4: body+=" var q"+fmt("%d",i)+" = { "+lit(r)+", "+lit(r)+", "+lit(r)+" };"; break; case 5: body+=" for( var e"+fmt("%d",i)+" : a ) { g = e"+fmt("%d",i)+"; }"; break; case 6: body+=" str::sprintf( \"%d %d %d %d\", 1, 2, n, 4 );"; break; default: body+=" switch( n ) { case 1: g = 1; break; case 900: g = 3; break; default: g = 2; }"; }
  Str pre; int tmp=0; if(r.chance(50)){ int k=r.below(10); for(int i=0;i<k;i++){ pre+="0 + ( "; } tmp=k; }
  Str call="f( "+pass+" )"; for(int i=0;i<tmp;i++) call="0 + ( "+call+" )"; 
  Str src="var g = 1; var a[] = { 1, 2, 3 }; var h = { 1:2, \"k\":5 };\nstruct S { var x; var y; };\nfunction helper( z ) { var b = z; return b; }\n";
  Str stop="deep( n ); if ( n >= d ) { return n; } ";
  switch(shape){
    case 0: case 1: src+="function f( "+ps+" ) { "+stop+body+" return "+call+"; }\n"; break;
    case 2: src+="function f( "+ps+" ) { "+stop+body+" var z = "+call+"; return z; }\n"; break;
    case 3: src+="function f( "+ps+" ) { "+stop+body+" g = "+call+"; return g; }\n"; break;
    case 4: src+="function f( "+ps+" ) { "+stop+body+" return k( "+pass+" ); }\nfunction k( "+ps+" ) { "+stop+" var w1; var w2; return f( "+pass+" ); }\n"; break;
    case 5: src+="function f( "+ps+" ) { "+stop+body+" for( var i = 0; i < 1; ++i ) { return "+call+"; } }\n"; break;
    case 6: src+="function f( "+ps+" ) { "+stop+body+" return id( "+call+" ); }\n"; break;
    case 7: src+="function f( "+ps+" ) { "+stop+body+" switch( 1 ) { case 1: return nsum( "+call+", 0, 0 ); } }\n"; break;
    default: src+="function f( "+ps+" ) { "+stop+body+" a[ 0 ] = "+call+"; return a[ 0 ]; }\n"; break; }
  frame=2+args+locals+extra*2+3+(shape==4?4:0)+tmp+4; slack=120; // generous: what one level and one leaf may need
  return src; }
static Run runOnce(WRContext*x,WRState*w,int d){ Run o; g_deep=-1; WRValue a[2]={WRValue(0),WRValue(d)}; WRValue*v=wr_callFunction(x,"f",a,2); o.err=wr_getLastError(w); o.deep=g_deep; if(v&&!o.err) o.val=showVal(*v); o.ctx=v!=0; return o; }
static void setupNat(WRState*w){ wr_loadAllLibs(w); wr_registerFunction(w,"log",nat_log,0); wr_registerFunction(w,"id",nat_id,0); wr_registerFunction(w,"nsum",nat_sum,0); wr_registerFunction(w,"nat",nat_nat,0); wr_registerFunction(w,"deep",nat_deep,0); }
static int pickSize(Rng&r){ return r.chance(30)?r.range(4,40):r.chance(60)?r.range(20,200):r.range(100,3000); }

static void recCase(Rng&r,long){
  int frame,slack; Str src=recProgram(r,frame,slack)+"function ok( x, y ) { var q = x * 2; var s = \"v\" + y; return q + str::strlen( s ); }\n"; Str what; size_t live0=g_am.live.size();
  unsigned char*o; int l; Str msg; int e=compileSrc(src,&o,&l,WR_INCLUDE_GLOBALS,&msg); if(e){ violation("stack.gen",fmt("generated program does not compile: %d %s",e,msg.c_str()),src); return; }
  int S=pickSize(r); WRState*w=wr_newState(S); setupNat(w); if(r.chance(30)) wr_setAllocatedMemoryGCHint(w,r.below(500));
  g_st.inc("programs"); g_st.seen(hashStr64(src)^S);
  WRContext*x=wr_run(w,o,l,false); int re=wr_getLastError(w);
  if(!x||re){ if(re!=WR_ERR_stack_overflow) what=fmt("run ended with error %d",re); else if(S>=slack) what=fmt("a main program of one page does not fit a stack of %d",S); g_st.inc("overflow_in_main"); }
  else {
    int lo=-1,hi=-1; Vec<int> ds={0,1,r.range(2,20),r.range(20,400),20000000,r.range(0,S/frame+2),1}; 
    for(int d:ds){ Run q=runOnce(x,w,d); g_st.inc("calls");
      if(q.err==WR_ERR_stack_overflow){ g_st.inc("overflows"); g_st.seen(mix64(hashStr64(src)+q.deep)); if(hi<0||d<hi) hi=d; if(q.ctx) what="a value was returned together with the overflow error"; if(d<20000000&&S>=slack+frame*d) what=fmt("depth %d with about %d entries a level does not fit a stack of %d",d,frame,S); if(q.deep>S) what=fmt("depth %ld was reached in a stack of %d entries",q.deep,S); }
      else if(q.err) what=fmt("depth %d ended with error %d",d,q.err);
      else { if(d>lo) lo=d; g_st.inc("fits"); if(q.val!=fmt("i:%d",d)) what=fmt("depth %d returned %s",d,q.val.c_str()); if(d>=20000000) what="unbounded recursion ended normally"; }
      if(hi>=0&&lo>=hi) what=fmt("depth %d overflows but depth %d fits",hi,lo);
      // the context still works
      WRValue a[2]={WRValue(21),WRValue(7)}; WRValue*v=wr_callFunction(x,"ok",a,2); int oe=wr_getLastError(w); if(oe==WR_ERR_stack_overflow&&S<40){ g_st.inc("ok_does_not_fit"); } else if(oe||!v||showVal(*v)!="i:44") what=fmt("after depth %d a harmless call gave %s, error %d",d,v?showVal(*v).c_str():"nothing",oe); else g_st.inc("reused");
      if(!what.empty()) break; }
    // and so does the state
    if(what.empty()&&S>=60){ Str s2="var z = 0; for( var i = 0; i < 5; ++i ) { z = z + i; }\nfunction get() { return z; }\n"; unsigned char*o2; int l2; if(!compileSrc(s2,&o2,&l2,WR_INCLUDE_GLOBALS)){ WRContext*y=wr_run(w,o2,l2,true); WRValue*v=y?wr_callFunction(y,"get"):0; if(!v||showVal(*v)!="i:10") what="another program in the same state misbehaves after overflow"; else g_st.inc("others_run"); } }
  }
  wr_destroyState(w); wr_free(o); if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(g_st.samples.size()<2) g_st.sample(src); if(!what.empty()) violation("stack.rec",what,fmt("stack %d\n",S)+src); }

// host calls with any number of arguments
static void hostCase(Rng&r,long){
  int params=r.below(12), locals=r.below(12); Str src="var g = 5;\nfunction f( "; for(int i=0;i<params;i++) src+=(i?", p":"p")+fmt("%d",i); src+=" ) {"; for(int i=0;i<locals;i++) src+=fmt(" var l%d = %d;",i,i); src+=" return "; for(int i=0;i<params;i++) src+=fmt("p%d + ",i); src+="g; }\n";
  int S=r.chance(70)?r.range(4,60):r.range(4,300); unsigned char*o; int l; if(compileSrc(src,&o,&l,0)) return; WRState*w=wr_newState(S); setupNat(w); Str what; g_st.inc("programs");
  WRContext*x=wr_run(w,o,l,false); if(!x||wr_getLastError(w)){ if(S>=20||wr_getLastError(w)!=WR_ERR_stack_overflow) what="a two-line program does not run"; } else for(int k=0;k<6&&what.empty();k++){ int n=r.chance(50)?r.below(20):r.below(S*2+40); Vec<WRValue> a; int want=5; for(int i=0;i<n;i++){ int v=r.range(-100,100); a.push_back(WRValue(v)); if(i<params) want+=v; } a.push_back(WRValue(0));
    WRValue*v=wr_callFunction(x,"f",a.data(),n); int e=wr_getLastError(w); g_st.inc("calls"); g_st.inc("host_args",n); g_st.seen(mix64(S*1000000007ull+n*1009+params*31+locals));
    if(e==WR_ERR_stack_overflow){ g_st.inc("overflows"); if(S>n+params+locals+20) what=fmt("%d arguments do not fit a stack of %d",n,S); } else if(e||!v||showVal(*v)!=fmt("i:%d",want)) what=fmt("%d arguments: error %d value %s expected %d",n,e,v?showVal(*v).c_str():"none",want); else g_st.inc("fits"); }
  wr_destroyState(w); wr_free(o); if(!what.empty()) violation("stack.host",what,fmt("stack %d\n",S)+src); }

// reference programs at every stack size: a prefix of the reference, then overflow - or all of it
static void fitCase(Rng&r,long){
  const char*ms[]={"P01","P02","P03","mix","yield"}; Profile pf=profFor(ms[r.below(5)],r); Generated g=generate(r,pf); if(!g.ok||g.trapped){ g_st.inc("discard"); return; }
  int S0=r.range(4,60); int fitAt=-1, over=-1; 
  for(int k=0;k<6;k++){ int S=k==5?3000:S0+(k*k*r.range(1,6)); RunCfg c; c.stack=S; c.gc=r.pick(Vec<int>{-1,0,100}); if(r.chance(30)) c.slice=r.range(1,50); RunOut o=runProgram(g.src,c,g.gnames); g_st.inc("runs");
    Str what; if(o.err==WR_ERR_stack_overflow){ g_st.inc("overflows"); g_st.inc("fit.overflow"); over=std::max(over,S); if(o.trace.size()>g.trace.size()||!std::equal(o.trace.begin(),o.trace.end(),g.trace.begin())) what="before the overflow native calls differ, "+diffTrace(g.trace,o.trace); else if(S>=2500) what="does not fit a stack of 3000"; }
    else { Cmp m=compare(g,o,c); if(m.bad) what=m.what; else { g_st.inc("fits"); if(fitAt<0||S<fitAt) fitAt=S; } }
    if(what.empty()&&fitAt>=0&&over>fitAt) what=fmt("fits a stack of %d but not of %d",fitAt,over);
    if(what.empty()&&o.leaked) what=fmt("%zu blocks leaked",o.leaked); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
    if(!what.empty()){ violation("stack.fit",what,fmt("stack=%d slice=%d gc=%d\n",S,c.slice,c.gc)+g.src+"--- expected\n"+joinTrace(g.trace)+"--- observed\n"+joinTrace(o.trace)); return; } }
  g_st.inc("programs"); g_st.seen(hashStr64(g.src)); }

// imported functions share the importer's stack
static void importCase(Rng&r,long){
  Str mod="var m = 3;\nfunction deepIn( n"; int pa=r.below(6), lo=r.below(20); for(int i=0;i<pa;i++) mod+=fmt(", p%d",i); mod+=" ) {"; for(int i=0;i<lo;i++) mod+=fmt(" var l%d;",i); mod+=" deep( n ); if ( n <= 0 ) { return m; } var z = deepIn( n - 1 ); return z + 1; }\n";
  Str src="var g = 1;\nfunction f( n, d"; int pb=r.below(6); for(int i=0;i<pb;i++) src+=fmt(", q%d",i); src+=" ) { "; int lb=r.below(20); for(int i=0;i<lb;i++) src+=fmt(" var k%d;",i); src+=r.chance(50)?" if ( n < d ) { return f( n + 1, d ); } return deepIn( 5 ); }\n":" if ( n < d ) { return f( n + 1, d ); } deepIn( 5 ); return 8; }\n";
  unsigned char*o,*o2; int l,l2; if(compileSrc(src,&o,&l,0)||compileSrc(mod,&o2,&l2,0)){ violation("stack.gen","does not compile",src+mod); return; }
  int S=pickSize(r); WRState*w=wr_newState(S); setupNat(w); Str what; WRContext*x=wr_run(w,o,l,false); g_st.inc("programs"); g_st.seen(hashStr64(src+mod)^S);
  if(x&&!wr_getLastError(w)){ WRContext*im=wr_import(x,o2,l2,false); if(!im){ if(wr_getLastError(w)!=WR_ERR_stack_overflow) what=fmt("import failed with %d",wr_getLastError(w)); }
    else for(int k=0;k<6&&what.empty();k++){ int d=r.chance(60)?r.below(12):r.below(S); WRValue a[2]={WRValue(0),WRValue(d)}; WRValue*v=wr_callFunction(x,"f",a,2); int e=wr_getLastError(w); g_st.inc("calls"); if(e==WR_ERR_stack_overflow){ g_st.inc("overflows"); g_st.inc("import.overflow"); if(S>(d+2)*(pb+lb+8)+7*(pa+lo+10)+60) what=fmt("depth %d does not fit a stack of %d",d,S); } else if(e||!v||showVal(*v)!="i:8") what=fmt("depth %d: error %d value %s",d,e,v?showVal(*v).c_str():"none"); else g_st.inc("fits"); } }
  wr_destroyState(w); wr_free(o); wr_free(o2); if(!what.empty()) violation("stack.import",what,fmt("stack %d\n",S)+src+"--- module\n"+mod); }
#endif
int main(int n,char**v){
#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
  g_modes["rec"]=recCase; g_modes["host"]=hostCase; g_modes["fit"]=fitCase; g_modes["import"]=importCase;
#endif
  return harnessMain(n,v); }
