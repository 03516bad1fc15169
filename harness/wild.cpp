// P06: programs the compiler accepts but nobody would write. Every operator, index, member, call, loop and
// library function is applied to values of every kind, with wrong argument counts and extreme numbers; and
// texts of well-formed programs are damaged, and what still compiles is run. Sanitizers and the allocator
// monitor watch; each run is cut into slices and abandoned after a fixed number of instructions. In the
// monitored build every instruction reports its stack height: it may never go below the frame's own start
// and is the same whenever the same instruction is reached. After the run the same state must still execute
// a known program correctly.
#include "langlib.h"
#include "srcgen.h"
static Str g_stackBad; static long g_steps=0;
#ifdef WRENCH_VM_MONITOR
struct Frm { const WRValue*fb; const WRValue*low; }; static Vec<Frm> g_fr; static std::unordered_map<const unsigned char*,long> g_height; static const void*g_lastC=0; static const unsigned char*g_lastPc=0;
void wr_vmMonitor(const void*c,const unsigned char*pc,const WRValue*top,const WRValue*fb,const WRValue*base){
  g_steps++; const WRValue*lo=fb?fb:base; if(g_lastC!=c){ g_fr.clear(); g_lastC=c; }
  while(g_fr.size()&&g_fr.back().fb>fb) g_fr.pop_back(); if(g_fr.empty()||g_fr.back().fb!=fb) g_fr.push_back({fb,fb?lo:base});
  if(!g_stackBad.empty()) return; long h=top-lo; if(top<g_fr.back().low) g_stackBad=fmt("the stack is %ld below the start of its frame",(long)(g_fr.back().low-top));
  auto q=g_height.emplace(pc,h); if(!q.second&&q.first->second!=h&&fb&&g_stackBad.empty()) g_stackBad=fmt("an instruction is reached with %ld and with %ld values on the stack",q.first->second,h); }
static void monReset(){ g_fr.clear(); g_height.clear(); g_lastC=0; g_stackBad.clear(); }
#else
static void monReset(){ g_stackBad.clear(); }
#endif
static const char* LIB[]={"array::clear","array::count","array::insert","array::remove","array::truncate","hash::add","hash::clear","hash::count","hash::exists","hash::remove","list::clear","list::count","list::peek","list::pop","list::pop_back","list::pop_front","list::push","list::push_back","list::push_front","math::abs","math::acos","math::asin","math::atan","math::atan2","math::ceil","math::cos","math::cosh","math::deg2rad","math::exp","math::floor","math::fmod","math::iscale","math::ldexp","math::ln","math::log","math::log10","math::pow","math::rad2deg","math::sin","math::sinh","math::sqrt","math::tan","math::tanh","math::trunc","msg::clear","msg::peek","msg::read","msg::write","queue::clear","queue::count","queue::peek","queue::pop","queue::push","stack::clear","stack::count","stack::peek","stack::pop","stack::push","std::deserialize","std::rand","std::serialize","std::srand","std::time","str::chr","str::concat","str::format","str::insert","str::isalpha","str::isdigit","str::isspace","str::left","str::mid","str::right","str::sprintf","str::strlen","str::substr","str::tol","str::tolower","str::toupper","str::trim","str::trimleft","str::trimright","str::trunc","sys::importByteCode","sys::importCompile","sys::isFunction","sys::halt","time::ms"};
struct WildGen { Rng&r; Vec<Str> vars; int depth=0; bool local=false; int loops=0; bool inFn=false;
  bool calm=false; WildGen(Rng&r_,bool c=false):r(r_),calm(c){}
  Str var(){ return vars[r.below((int)vars.size())]; }
  Str num(){ switch(r.below(8)){ case 0: if(!r.chance(8)) return r.pick(Vec<Str>{"-2147483647","4095","255","256","127","128","-128","-129","3000","-9999999"}); return r.pick(Vec<Str>{"2147483647","65536","9999999","0x80000000","0xFFFFFFFF"}); case 1: return r.pick(Vec<Str>{"0","-1","1"}); case 2: return r.pick(Vec<Str>{"1.5","-0.25","3000000000.0","0.0","-1.0","99999999999999999999.0"}); default: return fmt("%d",r.range(-3,12)); } }
  Str str(){ return r.pick(Vec<Str>{"\"\"","\"a\"","\"abc\"","\"%d %s %x %f %%\"","\"%s%s%s%s\"","\"%99999d\"","\"  pad  \"","\"0123456789012345678901234567890123456789\"","\"\\n\\t\"","'c'","\"x\"","\"%08.3f|%-5d|%c|%i|%u|%p|%g\"","\"function q() { return 1; }\"","\"f0\""}); }
  Str lit(){ switch(r.below(9)){ case 0: case 1: case 2: return num(); case 3: case 4: return str(); case 5: return "{}"; case 6: { Str o="{ "; int n=r.range(1,4); for(int i=0;i<n;i++) o+=Str(i?", ":"")+at(); return o+" }"; } case 7: { Str o="{ "; int n=r.range(1,4); for(int i=0;i<n;i++) o+=Str(i?", ":"")+r.pick(Vec<Str>{"\"x\"","\"y\"","1","2","-1"})+" : "+at(); return o+" }"; } default: return num(); } }
  Str at(){ return r.chance(60)?var():(r.chance(70)?num():str()); }
  Str place(){ if(calm) switch(r.below(6)){ case 0: case 1: return var(); case 2: case 3: return var()+"["+idx()+"]"; default: return var()+"."+mem(); } return deep(); }
  // a call can drop the container an element reference points into: its result goes to a plain variable
  Str to(const Str&op,const Str&rhs){ bool c=calm&&rhs[0]!='('&&rhs[0]!='"'&&rhs.find('(')!=Str::npos; return (c?var():place())+op+rhs+";\n"; }
  Str deep(){ switch(r.below(10)){ case 0: case 1: case 2: case 3: return var(); case 4: case 5: return var()+"["+idx()+"]"; case 6: return var()+"["+idx()+"]["+idx()+"]"; case 7: return var()+"."+mem(); case 8: return var()+"["+idx()+"]."+mem(); default: return var()+"."+mem()+"["+idx()+"]"; } }
  Str mem(){ return r.pick(Vec<Str>{"x","y","a","nope","x","raw","num"}); }
  Str idx(){ switch(r.below(7)){ case 0: return num(); case 1: return str(); case 2: return var(); case 3: return r.pick(Vec<Str>{"1.5","-1.0","0.0","5000.0"}); default: return fmt("%d",r.range(-1,5)); } }
  Str call(){ int n=r.below(5); Str f; int k=r.below(20); if(k<11) f=LIB[r.below((int)(sizeof LIB/sizeof*LIB))]; else if(k<15) f=fmt("f%d",r.below(4)); else if(k<17) f="nid"; else if(k<18) f=r.pick(Vec<Str>{"nid","log","nosuch","lib::nosuch"}); else return var()+r.pick(Vec<Str>{"._count","._exists( "+at()+" )","._remove( "+at()+" )","._hash"}); if(f=="sys::halt"&&!r.chance(10)) f="str::format"; Str o=f+"("; for(int i=0;i<n;i++) o+=Str(i?", ":" ")+(calm||r.chance(70)?at():ex()); return o+(n?" )":")"); }
  Str ex(){ if(calm) switch(r.below(6)){ case 0: return at(); case 1: return place(); case 2: return r.pick(Vec<Str>{"-","!","~","(int)","(float)"})+var(); case 3: return call(); default: { Str a=r.chance(50)?at():place(),b=r.chance(50)?at():place(); return "( "+a+" "+r.pick(Vec<Str>{"+","-","*","/","%","&","|","^","<<",">>","<",">","<=",">=","==","!=","&&","||"})+" "+b+" )"; } }
    if(++depth>4){ depth--; return at(); } Str o; switch(r.below(16)){ case 0: case 1: o=at(); break; case 2: case 3: o=place(); break; case 4: o=lit(); if(o[0]=='{') o=var(); break; case 5: case 6: case 7: case 8: o="( "+ex()+" "+r.pick(Vec<Str>{"+","-","*","/","%","&","|","^","<<",">>","<",">","<=",">=","==","!=","&&","||"})+" "+ex()+" )"; break; case 9: o=r.pick(Vec<Str>{"-","!","~"})+var(); break; case 10: o=place()+r.pick(Vec<Str>{"++","--"}); break; case 11: o=r.pick(Vec<Str>{"++","--"})+var(); break; case 12: o="( "+place()+r.pick(Vec<Str>{" = "," += "," -= "," *= "," /= "," %= "," |= "," &= "," ^= "," <<= "," >>= "})+ex()+" )"; break; case 13: o=r.pick(Vec<Str>{"(int)","(float)"})+var(); break; default: o=call(); } depth--; return o; }
  Str ss(){ return r.chance(60)?to(" = ",ex()):call()+";\n"; }
  Str block(int n){ Str o="{\n"; while(n--) o+=st(); return o+"}\n"; }
  Str st(){ if(++depth>3){ depth--; return place()+" = "+at()+";\n"; } Str o; switch(r.below(24)){
    case 0: case 1: case 2: case 3: if(calm&&r.chance(30)){ o=r.chance(50)?var()+" = "+deep()+";\n":deep()+r.pick(Vec<Str>{" = "," += "," /= "," |= "," <<= "})+at()+";\n"; break; } o=to(" = ",r.chance(40)?lit():ex()); break; case 4: case 5: o=to(r.pick(Vec<Str>{" += "," -= "," *= "," /= "," %= "," |= "," &= "," ^= "," <<= "," >>= "}),ex()); break; case 6: case 7: case 8: o=call()+";\n"; break; case 9: o=place()+r.pick(Vec<Str>{"++","--"})+";\n"; break;
    case 10: o="if( "+ex()+" ) "+block(r.range(1,3))+(r.chance(40)?"else "+block(1):Str()); break; case 11: o=fmt("for( var i%d = 0; i%d < %d; ++i%d ) ",depth,depth,r.range(1,9),depth)+block(r.range(1,3)); break; case 12: case 13: o=fmt("for( var e%d : ",depth)+var()+" ) "+block(r.range(1,3)); break; case 14: o=fmt("for( var k%d, var e%d : ",depth,depth)+var()+" ) "+block(r.range(1,3)); break;
    case 15: o="switch( "+ex()+" ) { case 0: "+ss()+" break; case 1: "+ss()+r.pick(Vec<Str>{" break;","" })+r.pick(Vec<Str>{" case 2000: "," default: "})+ss()+" }\n"; break; case 16: o="while( "+ex()+" ) "+block(r.range(1,3)); break; case 17: o=var()+" = new "+r.pick(Vec<Str>{"S","T","S","Nope"})+"("+(r.chance(50)?at():Str())+");\n"; break; case 18: o=fmt("var n%d[ %s ];\n",r.below(3),r.chance(80)?fmt("%d",r.range(0,9)).c_str():num().c_str()); break; case 19: o=inFn&&r.chance(60)?"return "+ex()+";\n":place()+" = "+place()+";\n"; break; case 20: o=loops?"break;\n":var()+" = yield( "+at()+" );\n"; break;
    case 21: o="if( "+var()+"._exists( "+at()+" ) ) "+block(1); break; case 22: o="do "+block(2)+"while( "+ex()+" );\n"; break; default: o=to(" = ",ex()); } depth--; return o; }
  Str program(){ Str o="struct S( p ) { var x = p; var y = { 1, 2 }; var a; }\nstruct T { var x = \"tx\"; var num = 5; }\n"; vars.clear(); vars.push_back("g0"); for(int i=0;i<6;i++){ o+=fmt("var g%d = ",i)+(i?lit():fmt("%d",r.range(-4,9)))+";\n"; if(i) vars.push_back(fmt("g%d",i)); }  if(r.chance(40)) o+="g3 = new S( 4 );\n"; Str fs;
    for(int f=0;f<4;f++){ int np=r.below(4); Str p; Vec<Str> keep=vars; vars.clear(); for(int i=0;i<np;i++){ p+=Str(i?", ":" ")+fmt("p%d",i); vars.push_back(fmt("p%d",i)); } fs+=fmt("function f%d(",f)+p+" ) {\n"; for(int i=0;i<2;i++){ fs+=fmt("var v%d = ",i)+(i&&r.chance(50)?lit():num())+";\n"; vars.push_back(fmt("v%d",i)); } for(auto&k:keep) if(r.chance(50)) vars.push_back(k); inFn=true; int n=r.range(1,6); while(n--) fs+=st(); inFn=false; if(r.chance(70)) fs+="return "+ex()+";\n"; fs+="}\n"; vars=keep; }
    bool first=r.chance(50); if(first) o+=fs; int n=r.range(2,12); while(n--) o+=st(); if(!first) o+=fs; else if(r.chance(30)) o+="g4 = f1; g5 = g4( 1 );\n"; return o; } };
static WRValue g_box; static char g_raw[16];
static void nat_hostc(WRContext*,const WRValue*,const int,WRValue&o,void*){ o=g_box; }
static const char* KNOWN="var h = { \"k\" : 1, 2 : \"two\" }; function fib( n ) { if( n < 2 ) { return n; } return fib( n - 1 ) + fib( n - 2 ); } var a = {}; for( var i = 0; i < 9; ++i ) { a[i] = fib( i ); } h[\"s\"] = str::format( \"%d/%s\", a[8], h[2] ); var s = h[\"s\"];";
static unsigned char*g_known=0; static int g_knownLen=0;
static void runWild(Rng&r,const Str&src,const char*key,bool must){
  unsigned char*o=0; int l=0; Str m; int e=compileSrc(src,&o,&l,(uint8_t)(r.chance(50)?WR_INCLUDE_GLOBALS:0),&m); if(e){ g_st.inc(fmt("refused_%d",e).c_str()); g_st.inc("refused"); if(must&&g_verbose) printf("%s\n%s\n",src.c_str(),m.c_str()); return; } g_st.inc("accepted");
  if(!g_known){ Str mm; if(compileSrc(KNOWN,&g_known,&g_knownLen,WR_INCLUDE_GLOBALS,&mm)){ violation("wild.gen",mm,KNOWN); return; } }
  size_t live0=g_am.live.size()-1; monReset(); Str what; wr_makeContainer(&g_box,0); wr_addIntToContainer(&g_box,"num",5); memset(g_raw,7,sizeof g_raw); wr_addArrayToContainer(&g_box,"raw",g_raw,10); WRValue hv; wr_makeInt(&hv,3); wr_addValueToContainer(&g_box,"x",&hv);
  WRState*w=wr_newState(r.pick(Vec<int>{120,300})); wr_loadSysLib(w); wr_loadMathLib(w); wr_loadStdLib(w); wr_loadStringLib(w); wr_loadMessageLib(w); wr_loadSerializeLib(w); wr_loadContainerLib(w); Vec<Str> tr; g_rec.t=0; wr_registerFunction(w,"hostc",nat_hostc,0); wr_registerFunction(w,"nid",nat_id,0); wr_registerFunction(w,"log",nat_yieldless,0); wr_setAllocatedMemoryGCHint(w,r.pick(Vec<int>{0,0,1000,50000}));
  wr_setInstructionsPerSlice(w,400); int left=6; 
  auto go=[&](WRContext*c){ while(c&&what.empty()&&left-->0){ WRValue*a;int n;WRValue*rv=0; if(!wr_getYieldInfo(c,&a,&n,&rv)) break; g_st.inc("resumed"); if(rv&&r.chance(50)) rv->setInt(r.range(-2,5)); wr_continue(c); } };
  auto errOk=[&](const char*at){ int er=(int)wr_getLastError(w); g_st.inc(fmt("err_%d",er).c_str()); if(er<0||er>255) what=fmt("%s ends with error %d",at,er); };
  WRContext*c=wr_newContext(w,o,l,true); if(!c){ what="an accepted program does not load"; wr_free(o); } else { wr_executeContext(c); go(c); errOk("the run"); bool ended=!wr_getYieldInfo(c)&&!wr_getLastError(w); g_st.inc(ended?"ended":wr_getLastError(w)?"failed":"abandoned");
    if(ended&&what.empty()) for(int k=0;k<3&&what.empty();k++){ WRValue a[4]; int n=r.below(5); for(int i=0;i<n;i++){ switch(r.below(4)){ case 0: a[i]=WRValue(r.range(-3,9)); break; case 1: wr_makeFloat(&a[i],2.5f); break; case 2: wr_makeString(c,&a[i],"host",4); break; default: a[i]=WRValue(7); } } left=3; { int q=r.below(4); if(getenv("WILD_DBG")) fprintf(stderr,"call f%d n=%d\n",q,n); wr_callFunction(c,fmt("f%d",q).c_str(),a,n); } go(c); errOk("a call"); g_st.inc("calls"); if(wr_getYieldInfo(c)||wr_getLastError(w)) break; } }
  if(what.empty()){ wr_setInstructionsPerSlice(w,0); WRContext*k=wr_run(w,g_known,g_knownLen); WRValue*v=k?wr_getGlobalRef(k,"s"):0; Str t=v?showVal(*v):Str("nothing"); if(t!="s:21/two") what="the known program run afterwards gives "+t+fmt(" (error %d)",(int)wr_getLastError(w)); g_st.inc("known_runs"); }
  if(what.empty()&&r.chance(50)&&c) wr_destroyContext(c); wr_destroyState(w); wr_destroyContainer(&g_box); if(what.empty()&&!g_stackBad.empty()) what=g_stackBad; for(int i=10;i<16&&what.empty();i++) if(g_raw[i]!=7) what="host memory after a raw array was written";
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear(); g_st.seen(hashStr64(src)); if(g_st.samples.size()<2) g_st.sample(src.substr(0,500)); if(g_steps) g_st.n["instructions_monitored"]=g_steps; if(!what.empty()) violation(key,what,src); }
static void wildCase(Rng&r,long){ WildGen w(r); Str s=w.program(); if(getenv("WILD_DUMP")){ FILE*q=fopen(getenv("WILD_DUMP"),"wb"); if(q){ fwrite(s.data(),1,s.size(),q); fclose(q); } } runWild(r,s,"wild",true); }
static void calmCase(Rng&r,long){ WildGen w(r,true); Str s=w.program(); if(getenv("WILD_DUMP")){ FILE*q=fopen(getenv("WILD_DUMP"),"wb"); if(q){ fwrite(s.data(),1,s.size(),q); fclose(q); } } runWild(r,s,"calm",true); }
static void damCase(Rng&r,long){ Str a,b; if(r.chance(50)){ WildGen w(r,true); a=w.program(); WildGen x(r,true); b=x.program(); } else { Generated q=generate(r,profFor(r.pick(Vec<Str>{"P01","P02","P03"}),r)); a=q.src; WildGen x(r,true); b=x.program(); } for(int k=0;k<8;k++){ Str s=mutate(r,a,b); unsigned char*o=0;int l=0; Str m; if(!compileSrc(s,&o,&l,0,&m)){ wr_free(o); runWild(r,s,"damaged",false); return; } g_st.inc("refused"); } }
static void srcCase(Rng&r,long){ const char*f=getenv("WILD_SRC"); if(!f){ violation("wild.gen","WILD_SRC names no file",""); return; } Str s; FILE*q=fopen(f,"rb"); if(q){ char b[4096]; size_t n; while((n=fread(b,1,sizeof b,q))>0) s.append(b,n); fclose(q); } runWild(r,s,"src",true); }
int main(int n,char**v){ g_modes["wild"]=wildCase; g_modes["calm"]=calmCase; g_modes["dam"]=damCase; g_modes["src"]=srcCase; return harnessMain(n,v); }
