// P09: random histories over the whole API on several states at once. Every block carries the history
// step's owner (a state, or the host for what the library hands out); when a state is destroyed nothing of
// it may remain, at the end nothing at all, and nothing is released twice. In the uninstrumented build the
// process allocator is watched too: library code that bypasses the installed allocator is seen.
#include "langlib.h"
#include "srcgen.h"
#include <dlfcn.h>
static int g_inW=0; static long g_bypass=0; static Str g_bypassWhat; extern "C" char __executable_start, etext;
static inline void seenBypass(void*ra,const char*f){ if(g_inW>0&&(char*)ra>=&__executable_start&&(char*)ra<&etext){ int s=g_inW; g_inW=0; g_bypass++; if(g_bypassWhat.empty()) g_bypassWhat=fmt("%s called at +0x%zx",f,(size_t)((char*)ra-&__executable_start)); g_inW=s; } }
#ifndef VP_NO_INTERPOSE
extern "C" { void*__libc_malloc(size_t); void __libc_free(void*); void*__libc_calloc(size_t,size_t); void*__libc_realloc(void*,size_t); }
#endif
void* operator new(size_t n){ seenBypass(__builtin_return_address(0),"operator new"); int s=g_inW; g_inW=0; void*p=malloc(n); g_inW=s; if(!p) abort(); return p; }
void* operator new[](size_t n){ seenBypass(__builtin_return_address(0),"operator new[]"); int s=g_inW; g_inW=0; void*p=malloc(n); g_inW=s; if(!p) abort(); return p; }
void operator delete(void*p) noexcept { int s=g_inW; g_inW=0; free(p); g_inW=s; }
void operator delete[](void*p) noexcept { int s=g_inW; g_inW=0; free(p); g_inW=s; }
void operator delete(void*p,size_t) noexcept { int s=g_inW; g_inW=0; free(p); g_inW=s; }
void operator delete[](void*p,size_t) noexcept { int s=g_inW; g_inW=0; free(p); g_inW=s; }
static int pk(Rng&r,std::initializer_list<int> l){ return *(l.begin()+r.below((int)l.size())); }
struct In { In(){ g_inW++; } ~In(){ g_inW--; } }; struct Out { int s; Out(){ s=g_inW; g_inW=0; } ~Out(){ g_inW=s; } };
static int g_tag=0; static std::unordered_map<void*,int>* g_tags;
static void* tagAlloc(size_t n){ Out o; void*p=VP_ASAN?monAllocPlain(n):monAlloc(n); if(p) (*g_tags)[p]=g_tag; return p; }
static void tagFree(void*p){ Out o; if(p) g_tags->erase(p); if(VP_ASAN) monFreePlain(p); else monFree(p); }
static size_t ofTag(int t){ size_t n=0; for(auto&q:*g_tags) if(q.second==t) n++; return n; }
static void nat_l(WRContext*c,const WRValue*a,const int n,WRValue&r,void*){ Out o; if(n>0) showVal(a[0]); if(n>1){ int s=g_inW; g_inW=1; wr_makeString(c,&r,"native",6); g_inW=s; } }
static Str tmpl(Rng&r){ int n=r.range(1,40); switch(r.below(14)){
  case 0: return fmt("var a = { 1, \"two\", { 3 } }; var h = { \"k\" : { 1, 2 } }; for( var i = 0; i < %d; ++i ) { h[i] = { i, str::format( \"%%d\", i ) }; } missing( a, h ); var z = 1;",n);
  case 1: return fmt("var a = { 1 }; function f( n ) { var l = { n, \"x\" }; yield( l, n ); return l; } for( var i = 0; i < %d; ++i ) { a = { a[0], f( i ) }; }",n);
  case 2: return "function f( n ) { var l = { n }; if( n > 5 ) { return l; } return f( n + 1 ); } function g() { var q = { \"a\" : 1 }; return nosuch::thing( q ); } var keep = \"k\"; struct S( a ) { var x = a; var y = { 1, 2 }; } function mk( v ) { var s = new S( v ); return s; }";
  case 3: return fmt("var h = { \"a\" : 1 }; for( var i = 0; i < %d; ++i ) { h[ str::format( \"key%%d\", i ) ] = { i }; } for( var k, var v : h ) { if( v == 1 ) { yield( k ); } h[ k ] = { v }; } function f( x ) { return { x, h }; }",n);
  case 4: return "var s = std::serialize( { 1, \"two\", { \"k\" : 3.5 } } ); var d = std::deserialize( s ); var e = std::deserialize( \"garbage\" ); function f( x ) { return std::serialize( { x } ); }";
  case 5: return fmt("var a[%d]; for( var i = 0; i < %d; ++i ) { a[i] = str::format( \"%%d-%%s\", i, \"abc\" ); array::insert( a, i, { i } ); } function f( x ) { a = 0; return x; } array::remove( a, 0, 2 ); hash::clear( a );",n,n);
  case 6: return "msg::write( \"k\", 1 ); msg::write( \"k2\", 2 ); var x = msg::read( \"k\" ); var y = str::sprintf( x, \"%d %s\", 5, \"q\" ); log( y, 1 ); function f( x ) { return log( x, x ); }";
  case 7: return "sys::importCompile( \"var m = { 1, 2 }; function mf( x ) { return { x, m }; } struct MS { var a = { 1 }; }\" ); var q = mf( 5 ); var ms = new MS(); function f( x ) { return mf( x ); }";
  case 8: return "sys::importCompile( \"var m = { 1, 2 }; missing();\" ); var z = { 1 }; function f( x ) { return { x }; }";
  case 9: return "sys::importCompile( \"var m = ( { 1, 2 ;\" ); sys::importByteCode( \"nonsense\" ); var z = { 1 }; function f( x ) { return { x }; }";
  case 10: return "sys::importCompile( \"var m = { 1, 2 }; yield( m );\" ); var z = { 1 };";
  case 11: return "struct In { var a = { 1 }; var b = \"s\"; } struct T( x ) { var i = new In(); var v = x; missing( i ); } var t = new T( { 1, 2 } );";
  case 12: return fmt("var t = { 0 }; for( var i = 0; i < %d; ++i ) { t = { t, i, { \"k\" : t } }; } t[0] = t; function f( x ) { return t; }",n);
  default: return fmt("var h = {}; for( var i = 0; i < %d; ++i ) { h[i] = { i }; if( i %% 3 == 2 ) { h._remove( i - 1 ); } } var c = h._count; function f( x ) { h[x] = { x, h }; return h; } array::clear( h );",n*4); } }
struct St { WRState*w; int tag; Vec<WRContext*> c; Vec<std::pair<unsigned char*,int>> lent; bool libs; };
static void balCase(Rng&r,long){
  static std::unordered_map<void*,int> tags; g_tags=&tags; tags.clear(); wr_setGlobalAllocator(tagAlloc,tagFree); size_t live0=g_am.live.size(); Str what,hist; Vec<St> ss; int nextTag=1; Vec<void*> host; Vec<Str> srcs; g_bypassWhat.clear();
  struct Img { unsigned char*o; int l; }; Vec<Img> img; auto own=[&]{ g_tag=0; };
  auto compile=[&](const Str&s,int fl){ own(); unsigned char*o=0; int l=0; WRstr*m=0; char*buf=(char*)malloc(s.size()+1); memcpy(buf,s.data(),s.size()); WRError e; { WRstr em; In in; e=wr_compile(buf,(int)s.size(),&o,&l,r.chance(50)?&em:0,(uint8_t)fl); } free(buf); (void)m; g_st.inc(e?"failed_compiles":"compiles"); if(e){ if(o) what="a failed compilation handed out a block"; size_t n=ofTag(0); if(n!=host.size()+img.size()&&what.empty()) what=fmt("a failed compilation (%d) left %zu blocks\n",e,n-host.size()-img.size())+"source:\n"+s.substr(0,4000); return; } if(!o){ what="a successful compilation handed out nothing"; return; } img.push_back({o,l}); size_t n=ofTag(0); if(n!=host.size()+img.size()) what=fmt("a compilation left %zu extra blocks\n",n-host.size()-img.size())+"source:\n"+s.substr(0,4000); };
  auto newState=[&]{ St s; s.tag=nextTag++; g_tag=s.tag; { In in; s.w=wr_newState(pk(r,{400,1000})); } s.libs=r.chance(90); if(s.libs){ In in; wr_loadAllLibs(s.w); if(r.chance(10)) wr_loadAllLibs(s.w); } if(r.chance(60)){ In in; wr_setAllocatedMemoryGCHint(s.w,pk(r,{0,200,5000})); } { In in; wr_registerFunction(s.w,"log",nat_l,0); } if(r.chance(20)) for(int q=0;q<r.range(1,80);q++){ Str nm=fmt("f%d",q); In in; wr_registerFunction(s.w,nm.c_str(),nat_l,0); } ss.push_back(s); g_st.inc("states"); hist+="newState\n"; };
  auto killState=[&](int i){ St&s=ss[i]; g_tag=s.tag; { In in; wr_destroyState(s.w); } for(auto&b:s.lent){ In in; wr_free(b.first); } size_t n=ofTag(s.tag); hist+="destroyState\n"; if(n&&what.empty()) what=fmt("destroying a state left %zu of its blocks",n); ss.erase(ss.begin()+i); g_st.inc("states_destroyed"); };
  newState(); int n=r.range(6,40); Generated g; Str last;
  for(int st=0;st<n&&what.empty();st++){ if(ss.empty()) newState(); St&s=ss[r.below((int)ss.size())]; WRContext*c=s.c.size()?s.c[r.below((int)s.c.size())]:0; int k=r.below(26);
    if(k<=3){ int w=r.below(10); Str src; if(w<4) src=tmpl(r); else if(w<7){ Generated q=generate(r,profFor(r.pick(Vec<Str>{"P01","P02","P03","mix","yield"}),r)); src=q.src; } else if(w<9){ Str o=tmpl(r); src=mutate(r,r.chance(50)?tmpl(r):o,o); } else src=extreme(r); bool runnable=w<7; hist+=fmt("compile %s\n",esc(src.substr(0,70)).c_str()); size_t b=img.size(); compile(src,r.below(16)); if(img.size()>b&&!runnable){ In in; wr_free(img.back().o); img.pop_back(); } continue; }
    if(k<=9){ if(img.empty()) continue; Img m=img[r.below((int)img.size())]; g_tag=s.tag; unsigned char*b; { In in; b=(unsigned char*)wr_malloc(m.l); } memcpy(b,m.o,m.l); bool o=r.chance(50),d=r.chance(15); if(!o) s.lent.push_back({b,m.l}); hist+=fmt("run own=%d destroy=%d\n",o,d); WRContext*x; if(r.chance(25)){ { In in; x=wr_newContext(s.w,b,m.l,o); } if(x&&r.chance(70)){ In in; wr_executeContext(x); } g_st.inc("contexts"); if(x) s.c.push_back(x); continue; } { In in; x=wr_run(s.w,b,m.l,o,d); } g_st.inc("runs"); if(wr_getLastError(s.w)) g_st.inc("failed_runs"); if(x&&!d){ s.c.push_back(x); if(wr_getYieldInfo(x)) g_st.inc("yields"); } continue; }
    g_tag=s.tag;
    switch(k){
      case 10: case 11: { if(!c) break; WRValue a[3]; { In in; wr_makeString(c,&a[0],"arg",3); } a[1]=WRValue(5); hist+="call\n"; const char*f=r.pick(Vec<const char*>{"f","f","g","mk","nosuch","str::concat"}); g_st.inc("calls"); In in; wr_callFunction(c,f,a,r.below(3)); break; }
      case 12: case 13: { if(!c) break; hist+="continue\n"; { In in; wr_continue(c); } g_st.inc("continues"); break; }
      case 14: { if(!c||!r.chance(60)) break; hist+="destroyContext\n"; { In in; wr_destroyContext(c); } for(size_t q=0;q<s.c.size();q++) if(s.c[q]==c){ s.c.erase(s.c.begin()+q); break; } g_st.inc("contexts_destroyed"); break; }
      case 15: case 16: { if(!c||img.empty()||wr_getYieldInfo(c)) break; Img m=img[r.below((int)img.size())]; unsigned char*b; { In in; b=(unsigned char*)wr_malloc(m.l); } memcpy(b,m.o,m.l); bool o=r.chance(50); if(!o) s.lent.push_back({b,m.l}); hist+="import\n"; WRContext*x; { In in; x=wr_import(c,b,m.l,o); } g_st.inc(x?"imports":"failed_imports"); break; }
      case 17: { WRValue v; int cnt=r.below(30); hist+=fmt("container %d\n",cnt); { In in; wr_makeContainer(&v,pk(r,{0,3,40})); for(int q=0;q<cnt;q++){ char nm[20]; snprintf(nm,20,"m%d",q%20); wr_addIntToContainer(&v,nm,q); } wr_destroyContainer(&v); } g_st.inc("containers"); break; }
      case 18: { if(!c||wr_getYieldInfo(c)) break; WRValue v,a(3); hist+="instance\n"; g_st.inc("instances"); In in; wr_instanceStruct(&v,c,r.chance(80)?"S":"Nope",&a,1); break; }
      case 19: { if(!c||wr_getYieldInfo(c)) break; own(); g_tag=s.tag; WRValue*v=0; { In in; v=wr_callFunction(c,"f"); } char*b=0; int l=0; if(!v) break; own(); bool ok; hist+="serialize\n"; { In in; ok=r.chance(0)?false:wr_serialize(&b,&l,WRValue(7)); } if(ok){ host.push_back(b); g_tag=s.tag; WRValue o; In in; wr_deserialize(c,o,b,l); wr_deserialize(c,o,b,r.below(l+1)); } g_st.inc("serialized"); break; }
      case 20: { if(img.empty()) break; Img m=img[r.below((int)img.size())]; if(m.l>2500) break; own(); char*t=0; hist+="disassemble\n"; { In in; wr_disassemble(m.o,m.l,&t); } if(t) host.push_back(t); { WRstr q; In in; wr_disassemble(m.o,m.l,q); } g_st.inc("disassembled"); break; }
      case 21: { hist+="runCommand\n"; Str src=r.chance(60)?tmpl(r):r.pick(Vec<Str>{"var a = { 1, 2 }; log( a, 1 );","var a = { 1, 2 ; log( a, 1 );","if( 1 ) { var b = \"x\"; ","var q = \"abc; log( q );","log( { 1, 2 }, nosuch( 3 ) );"}); if(src.find("while")!=Str::npos||src.find("for")!=Str::npos) src="var a = { 1, { 2 } }; missing();"; g_st.inc("commands"); { In in; wr_runCommand(s.w,src.c_str(),(int)src.size()); } break; }
      case 22: { if(!c) break; hist+="strings\n"; In in; for(int q=0;q<20;q++){ WRValue v; wr_makeString(c,&v,"some text",r.below(9)); char*m=v.asMallocString(); if(m) wr_free(m); } break; }
      case 23: if(ss.size()<3&&r.chance(50)) newState(); break;
      case 24: if(r.chance(40)) for(size_t q=0;q<ss.size();q++) if(ss[q].w==s.w){ killState((int)q); break; } break;
      default: if(img.size()>1){ hist+="free image\n"; { In in; wr_free(img[0].o); } img.erase(img.begin()); } break; }
    if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; if(what.empty()&&g_bypassWhat.size()) what="memory obtained or released outside the installed allocator: "+g_bypassWhat; }
  while(ss.size()) killState(r.below((int)ss.size())); for(auto&m:img){ In in; wr_free(m.o); } for(void*p:host){ In in; wr_free(p); }
  if(what.empty()&&tags.size()) what=fmt("%zu blocks leaked",tags.size()); if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear(); if(what.empty()&&g_bypassWhat.size()) what="memory obtained or released outside the installed allocator: "+g_bypassWhat; g_tag=0;
  { Vec<void*> left; for(auto&q:tags) left.push_back(q.first); installAllocator(); for(void*p:left) wr_free(p); } g_am.errors.clear();
  g_st.seen(hashStr64(hist)); if(g_st.samples.size()<2) g_st.sample(hist.substr(0,400)); g_st.n["blocks_allocated"]=g_am.total; if(!what.empty()) violation("balance",what,hist); }
int main(int n,char**v){ g_modes["bal"]=balCase; return harnessMain(n,v); }
