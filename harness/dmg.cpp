// P08: damaged or foreign bytecode. Every single-bit flip and every truncation of small images, and
// random heavier damage of any image, in exactly sized blocks under ASan; every way to load code
// must refuse it with the bad-bytecode error, run none of it and leave other programs alone.
#include "langlib.h"
static uint32_t fnv(const unsigned char*p,size_t n){ uint32_t h=0x811C9DC5u; for(size_t i=0;i<n;i++){ h^=p[i]; h*=0x1000193u; } return h; }
static bool soundImage(const Str&b){ if(b.size()<8) return false; uint32_t c=0; for(int i=3;i>=0;i--) c=(c<<8)|(unsigned char)b[b.size()-4+i]; return c==fnv((const unsigned char*)b.data(),b.size()-4)+WRENCH_VERSION_MAJOR; }
static void sealAs(Str&b,uint32_t add){ uint32_t c=fnv((const unsigned char*)b.data(),b.size()-4)+add; for(int i=0;i<4;i++) b[b.size()-4+i]=(char)(c>>(8*i)); }
static long g_logs; static void nat_clog(WRContext*,const WRValue*,const int,WRValue&,void*){ g_logs++; }
static Str g_img; static void nat_img(WRContext*c,const WRValue*,const int,WRValue&r,void*){ wr_makeString(c,&r,g_img.data(),(int)g_img.size()); }
// an exactly sized block, so that reading outside is seen (header canaries without ASan)
struct Block { unsigned char*p; int n; Block(const Str&b){ n=(int)b.size(); p=(unsigned char*)malloc(n?n:1); memcpy(p,b.data(),n); } ~Block(){ free(p); } };
static Str damage(Rng&r,const Str&img,const Str&other,Str&kind){ Str b=img; int n=(int)b.size();
  switch(r.below(14)){
    case 0: kind="bit"; b[r.below(n)]^=(char)(1<<r.below(8)); break; case 1: kind="byte"; b[r.below(n)]=(char)r.u32(); break;
    case 2: { kind="bytes"; int k=r.range(2,12); while(k--) b[r.below(n)]=(char)r.u32(); break; } case 3: kind="truncated"; b.resize(r.below(n)); break;
    case 4: { kind="extended"; int k=r.range(1,40); while(k--) b+=(char)(r.chance(50)?0:r.u32()); break; } case 5: { kind="removed"; int a=r.below(n); b.erase(a,r.range(1,8)); break; }
    case 6: { kind="inserted"; b.insert(r.below(n+1),Str(r.range(1,8),(char)r.u32())); break; } case 7: { kind="swapped"; int a=r.below(n),c=r.below(n); std::swap(b[a],b[c]); break; }
    case 8: { kind="spliced"; int a=r.below(n); b=b.substr(0,a)+other.substr(std::min((size_t)a,other.size())); break; } case 9: { kind="crc of another"; if(other.size()>4) b=b.substr(0,n-4)+other.substr(other.size()-4); break; }
    case 10: { kind="another version"; sealAs(b,r.pick(Vec<int>{0,1,2,3,4,5,6,8,9,255,-7})); break; } case 11: { kind="zeros"; int a=r.below(n); for(int i=a;i<n&&i<a+16;i++) b[i]=0; break; }
    case 12: { kind="short"; b.resize(r.below(8)); for(auto&c:b) c=(char)r.u32(); break; } default: { kind="noise"; int k=r.range(8,300); b.clear(); while(k--) b+=(char)r.u32(); } }
  return b; }
static const char* OK="var t = 5;\nfunction ask( x ) { t = t + x; return t; }\nfunction imp() { return sys::importByteCode( img() ); }\n";
struct World { WRState*w; WRContext*ok; unsigned char*o; int l; int sum=5;
  World(){ w=wr_newState(400); wr_loadAllLibs(w); wr_registerFunction(w,"log",nat_clog,0); wr_registerFunction(w,"id",nat_id,0); wr_registerFunction(w,"nsum",nat_sum,0); wr_registerFunction(w,"img",nat_img,0); compileSrc(OK,&o,&l,WR_INCLUDE_GLOBALS); ok=wr_run(w,o,l,false); }
  ~World(){ wr_destroyState(w); wr_free(o); }
  Str alive(Rng&r){ int x=r.range(-50,50); WRValue a(x); WRValue*v=wr_callFunction(ok,"ask",&a,1); sum+=x; if(!v||wr_getLastError(w)||showVal(*v)!=fmt("i:%d",sum)) return fmt("another program is disturbed: %s, error %d",v?showVal(*v).c_str():"no value",wr_getLastError(w)); return ""; } };
// every loader refuses it
static Str refused(World&W,Rng&r,const Str&b,bool all){ Block k(b); uint32_t h=0x1234; g_logs=0; g_st.inc("images_refused_checked");
  if(wr_isBytecodeValid(k.p,k.n,r.chance(50)?&h:0)) return "the validity check accepts it";
  if(h!=0x1234) return "the validity check reports a hash for it";
  Str cl; if(all&&!(cl=W.alive(r)).empty()) return cl; WRContext*x=wr_newContext(W.w,k.p,k.n,false); if(x){ wr_destroyContext(x); return "context creation accepts it"; } if(wr_getLastError(W.w)!=WR_ERR_bad_bytecode_CRC) return fmt("context creation reports error %d",wr_getLastError(W.w));
  if(!all) return "";
  if(!(cl=W.alive(r)).empty()) return cl; x=wr_run(W.w,k.p,k.n,false,r.chance(30)); if(x) return "running accepts it"; if(wr_getLastError(W.w)!=WR_ERR_bad_bytecode_CRC) return fmt("running reports error %d",wr_getLastError(W.w));
  if(!(cl=W.alive(r)).empty()) return cl; x=wr_import(W.ok,k.p,k.n,false); if(x) return "import accepts it"; if(wr_getLastError(W.w)!=WR_ERR_bad_bytecode_CRC) return fmt("import reports error %d",wr_getLastError(W.w));
  if(!(cl=W.alive(r)).empty()) return cl; g_img=b; WRValue*v=wr_callFunction(W.ok,"imp"); if(wr_getLastError(W.w)!=WR_ERR_bad_bytecode_CRC&&!b.empty()) return fmt("sys::importByteCode ends with error %d",wr_getLastError(W.w)); (void)v;
#ifdef WRENCH_TIME_SLICES
  { WrenchScheduler S(100); wr_registerFunction(S.state(),"log",nat_clog,0); int id=S.addThread(k.p,k.n,1000,false); S.tick(100); if(wr_getLastError(S.state())!=WR_ERR_bad_bytecode_CRC&&S.lastErr()!=WR_ERR_bad_bytecode_CRC&&id>0) return fmt("the scheduler accepts it as task %d",id); }
#endif
  g_st.inc("all_loaders_checked"); if(g_logs) return fmt("%ld native calls were made",g_logs); return W.alive(r); }
static Str smallSrc(Rng&r){ if(r.chance(40)){ const char*ms[]={"P01","P02","P03","mix"}; Generated g=generate(r,profFor(ms[r.below(4)],r)); return g.src; } Str s="log( 1 );\n"; int n=r.below(4); for(int i=0;i<n;i++) s+=fmt("function f%d( a ) { var l = a * %d; log( l ); return l; }\nvar v%d = f%d( %d );\n",i,i+2,i,i,i); if(r.chance(30)) s+="var h = { 1:2, \"k\":3 }; struct S { var a; };\nvar q = new S();\n"; return s; }
static void dmgCase(Rng&r,long){
  size_t live0=g_am.live.size(); Str src=smallSrc(r), src2=smallSrc(r); unsigned char*o,*o2; int l,l2; if(compileSrc(src,&o,&l,r.below(32)&(WR_EMBED_DEBUG_CODE|WR_EMBED_SOURCE_CODE|WR_INCLUDE_GLOBALS))){ g_st.inc("discard"); return; } if(compileSrc(src2,&o2,&l2,WR_INCLUDE_GLOBALS)){ wr_free(o); return; }
  Str img((char*)o,l), other((char*)o2,l2); wr_free(o); wr_free(o2); Str what, kind; Str bad; g_st.seen(hashStr64(img)); g_st.inc("programs");
  { World W;
    // the undamaged image is accepted by all of them
    { Block k(img); uint32_t h=0; if(!soundImage(img)) what="the compiler's image is not sealed as documented"; else if(!wr_isBytecodeValid(k.p,k.n,&h)||h!=fnv(k.p,k.n-4)+WRENCH_VERSION_MAJOR) what="the validity check refuses an intact image"; else { WRContext*x=wr_newContext(W.w,k.p,k.n,false); if(!x) what="context creation refuses an intact image"; else wr_destroyContext(x); } g_st.inc("intact_accepted"); }
    if(what.empty()&&l<=300){ // every bit and every length
      for(int i=0;i<l*8&&what.empty();i++){ Str b=img; b[i/8]^=(char)(1<<(i%8)); kind=fmt("bit %d flipped",i); bad=b; what=refused(W,r,b,r.chance(1)); g_st.inc("bit_flips"); }
      for(int i=0;i<l&&what.empty();i++){ Str b=img.substr(0,i); if(soundImage(b)) continue; kind=fmt("truncated to %d bytes",i); bad=b; what=refused(W,r,b,r.chance(3)); g_st.inc("truncations"); } }
    for(int i=0;i<40&&what.empty();i++){ Str b=damage(r,img,other,kind); if(b==img||soundImage(b)){ g_st.inc("damage_without_effect"); continue; } bad=b; what=refused(W,r,b,true); g_st.inc("kind."+kind); g_st.seen(hashStr64(b)); }
  }
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(g_st.samples.size()<2) g_st.sample(src); if(!what.empty()){ Str d="damage: "+kind+"\nimage ("+fmt("%zu",img.size())+" bytes): "; for(unsigned char c:bad.substr(0,600)) d+=fmt("%02x",c); violation("damaged",what+" ("+kind+")",d+"\n"+src); } }
int main(int n,char**v){ g_modes["dmg"]=dmgCase; return harnessMain(n,v); }
