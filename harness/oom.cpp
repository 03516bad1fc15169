// P10: every single allocation of a scenario is made to fail in turn (and, in a second pass, it and all
// later ones). Scenarios: create a state, load the libraries, compile, run, call functions, import,
// serialize, tear down. What is reported as success must be the undisturbed result; teardown must work and
// return every block; sanitizers watch the rest.
#include "langlib.h"
static Vec<Str> g_tr; static void nat_ol(WRContext*,const WRValue*a,const int n,WRValue&,void*){ Str o; for(int i=0;i<n;i++){ if(i)o+=" "; o+=showVal(a[i]); } g_tr.push_back(o); }
struct Scen { Str src,imp; bool gen=false; int kind=0; int flags=0; int gc=-1; };
static Str tmpl(Rng&r){ int n=r.range(1,12); switch(r.below(12)){
  case 0: return fmt("var a = { 1, \"two\", { 3 } }; var h = { \"k\" : { 1, 2 } }; for( var i = 0; i < %d; ++i ) { h[i] = { i, str::format( \"%%d\", i ) }; } log( a[2][0], h[\"k\"], h._count ); function f( x ) { return { x, a }; }",n);
  case 1: return fmt("var a[%d]; for( var i = 0; i < %d; ++i ) { a[i] = str::concat( \"ab\", \"cd\" ); } log( a ); function f( x ) { a[%d] = x; return a; }",n,n,n+8);
  case 2: return "struct S( a ) { var x = a; var y = { 1, 2 }; } var s = new S( 4 ); log( s.x, s.y ); function f( v ) { var s = new S( v ); return { s.x, s.y }; }";
  case 3: return fmt("var h = {}; for( var i = 0; i < %d; ++i ) { h[ str::format( \"key%%d\", i ) ] = i; } var t = 0; for( var k, var v : h ) { t += v; } log( t, h._count ); function f( x ) { h[x] = x; return h[x]; }",n*3);
  case 4: return "var s = std::serialize( { 1, \"two\", { \"k\" : 3.5 } } ); var d = std::deserialize( s ); log( d ); function f( x ) { return std::deserialize( std::serialize( { x, x } ) ); }";
  case 5: return "var s = \"base\"; s = str::concat( s, \"-more\" ); s = str::toupper( s ); log( s, str::mid( s, 2, 3 ), str::left( s, 2 ), str::right( s, 3 ), str::trim( \"  x \" ) ); str::insert( s, \"zz\", 2 ); log( s ); function f( x ) { return str::format( \"%d<%s>\", x, \"q\" ); }";
  case 6: return fmt("var t = { 0 }; for( var i = 0; i < %d; ++i ) { t = { t[0], i, \"s\" }; } log( t ); function f( x ) { var q = { t, x }; return q[1]; }",n);
  case 7: return "msg::write( \"k\", 1 ); var y = msg::read( \"k\" ); log( y ); function f( x ) { msg::write( \"z\", x ); return msg::peek( \"z\" ); }";
  case 8: return "var a = { 5, 3, 1 }; array::insert( a, 1, 3 ); a[1] = 7; array::remove( a, 0, 1 ); log( a ); var h = { 1 : 2 }; h[9] = { 1 }; h._remove( 1 ); log( h._count ); function f( x ) { array::truncate( a, 1 ); return a; }";
  case 9: return "sys::importCompile( \"var m = { 1, 2 }; function mf( x ) { return { x, m }; } struct MS { var a = { 1 }; }\" ); var q = mf( 5 ); log( q ); function f( x ) { return mf( x ); }";
  case 10: return "function g( n ) { if( n < 1 ) { return { 0 }; } var l = g( n - 1 ); return { n, l[0] }; } log( g( 4 ) ); var y = yield( 1 ); log( y ); function f( x ) { return g( 3 ); }";
  default: return "enum { A, B = 5, C }; var s = 0; for( var i = 0; i < 5; ++i ) { switch( i ) { case 0: s += A; break; case 2: s += B; break; default: s += C; } } goto done; s = 0; done: log( s ); var k[3] = { 1, 2, 3 }; log( k ); function f( x ) { return { x }; }"; } }
// one pass: returns what happened; "!" prefix = a failure was reported
static Str pass(const Scen&s,long failAt,bool forever,long&allocs,Str&bad){
  g_tr.clear(); g_am.errors.clear(); size_t live0=g_am.live.size(); Str res; uint64_t base=g_am.seq; g_am.failed=0; unsigned char*o=0; int l=0; unsigned char*o2=0; int l2=0; char*ser=0; int sl=0; WRState*w=0; WRContext*c=0; bool rep=false;
  do { w=wr_newState(600); if(!w){ rep=true; res="newState"; break; } wr_loadAllLibs(w); wr_registerFunction(w,"log",nat_ol,0); if(s.gc>=0) wr_setAllocatedMemoryGCHint(w,s.gc);
    { WRstr em; WRError e=wr_compile(s.src.c_str(),(int)s.src.size(),&o,&l,s.kind&1?&em:0,(uint8_t)s.flags); if(e){ rep=true; res=fmt("compile %d",e); if(o) bad="a failed compilation handed out a block"; break; } }
    if(s.imp.size()&&wr_compile(s.imp.c_str(),(int)s.imp.size(),&o2,&l2,0,0)){ rep=true; res="compile2"; break; }
    base=g_am.seq; g_am.failForever=forever; g_am.failAt=failAt<0?-1:(long)(base+failAt);
    c=wr_run(w,o,l,false); if(!c||wr_getLastError(w)){ rep=true; res=fmt("run %d",wr_getLastError(w)); break; }
    for(int q=0;q<400&&wr_getYieldInfo(c);q++){ wr_continue(c); if(wr_getLastError(w)){ rep=true; res=fmt("continue %d",wr_getLastError(w)); break; } } if(rep) break;
    if(s.imp.size()){ if(!wr_import(c,o2,l2,false)){ rep=true; res="import"; break; } }
    if(s.gen) break;
    for(int q=0;q<3;q++){ WRValue a(q+3); WRValue*v=wr_callFunction(c,"f",&a,1); if(!v||wr_getLastError(w)){ rep=true; res=fmt("call %d",wr_getLastError(w)); break; } g_tr.push_back("-> "+showVal(*v)); if(q==1){ if(!wr_serialize(&ser,&sl,*v)){ rep=true; res="serialize"; break; } WRValue d; if(!wr_deserialize(c,d,ser,sl)){ rep=true; res="deserialize"; break; } g_tr.push_back("=> "+showVal(d)); } }
  } while(0);
  WRError le=w?wr_getLastError(w):WR_ERR_None; (void)le; long failed=(long)g_am.failed; if(failAt<0) allocs=(long)(g_am.seq-base); g_am.failAt=-1; g_am.failForever=false;
  if(w) wr_destroyState(w); if(o) wr_free(o); if(o2) wr_free(o2); if(ser) wr_free(ser);
  if(bad.empty()&&g_am.live.size()!=live0) bad=fmt("%zu blocks leaked (%s)",g_am.live.size()-live0,rep?res.c_str():"success reported"); if(bad.empty()&&g_am.errors.size()) bad=g_am.errors[0]; g_am.errors.clear();
  if(bad.size()){ while(g_am.live.size()>live0) g_am.live.erase(g_am.live.begin()); }
  if(failed) g_st.inc("injected"); return rep?"!"+res:joinTrace(g_tr); }
static void oomCase(Rng&r,long cs){
  Scen s; s.kind=r.below(4); s.flags=r.pick(Vec<int>{0,WR_INCLUDE_GLOBALS,0}); s.gc=r.pick(Vec<int>{-1,0,300}); if(r.chance(25)){ Profile p=profFor(r.pick(Vec<Str>{"P01","P02","P03","yield"}),r); Generated g; for(int q=0;q<30;q++){ g=generate(r,p); if(g.src.size()<700) break; } if(g.src.size()>=1500) return; s.src=g.src; s.gen=true; } else s.src=tmpl(r);
  if(r.chance(20)) s.imp="var mm = { 1, { 2 } }; function mmf( x ) { return { mm, x }; } struct MM { var a = 1; }";
  Str bad; long n=0; Str want=pass(s,-1,false,n,bad); if(bad.size()||want[0]=='!'){ violation("oom.base","without any failure: "+bad+want,s.src); return; }
  g_st.inc("scenarios"); g_st.inc("allocations",n); long step=n>1500?n/1500+1:1; long off=step>1?r.below((int)step):0;
  for(long i=1+off;i<=n;i+=step) for(int fv=0;fv<2;fv++){ if(fv&&i%7) continue; long d; Str b2; Str got=pass(s,i,fv,d,b2); g_st.inc(got[0]=='!'?"reported":"survived"); Str tag=fmt("allocation %ld of %ld%s: ",i,n,fv?" and all later ones":""); if(b2.empty()&&got[0]!='!'&&got!=want) b2="success is reported but the result differs:\n"+got+"undisturbed:\n"+want; if(b2.size()){ violation("oom",tag+b2,s.src); return; } }
  g_st.seen(hashStr64(s.src)); if(g_st.samples.size()<2) g_st.sample(s.src.substr(0,300)); }
int main(int n,char**v){ g_modes["oom"]=oomCase; return harnessMain(n,v); }
