// P15, P17: string, math and standard library functions. A script calls the functions with
// arguments held in every kind of place (literals, host values, globals, locals, elements, members,
// call results); each result, and each argument afterwards, is compared with the C definition.
#include "langlib.h"
#include <ctype.h>
#include <time.h>
struct Exp { Str s; bool approx=false; double v=0, tol=0; };
static Vec<Val>* g_hv; static Val FR(float f){ Val v; v.k='f'; v.f=f; return v; } static Val SR(const Str&s){ Val v; v.k='s'; v.s=std::make_shared<Str>(s); return v; }
static void nat_hv(WRContext*c,const WRValue*a,const int n,WRValue&r,void*){ if(n<1) return; Val&v=(*g_hv)[a[0].asInt()]; if(v.k=='i') wr_makeInt(&r,v.i); else if(v.k=='f') wr_makeFloat(&r,v.f); else wr_makeString(c,&r,v.s->data(),(int)v.s->size()); }
struct LGen {
  Rng&r; Str body; Vec<Exp> exp; Vec<Val> hv; int nv=0; bool local; Vec<std::pair<Str,Val>> watch; long calls=0; std::map<Str,long> fn; Str decl;
  LGen(Rng&q):r(q){ local=r.chance(50); }
  void line(const Str&s){ body+=s+"\n"; }
  static bool plain(const Str&s){ if(s.size()>60) return false; for(unsigned char c:s) if(c<32||c>126||c=='"'||c=='\\') return false; return true; }
  Str lit(const Val&v){ if(v.k=='i') return v.i<0?(v.i==INT32_MIN?Str():fmt("(%d)",v.i)):fmt("%d",v.i); if(v.k=='s') return plain(*v.s)?"\""+*v.s+"\"":Str(); float a=fabsf(v.f); Str t=fmt("%.5f",v.f); if(!(a<100000)||strtof(t.c_str(),0)!=v.f) return ""; return v.f<0?"("+t+")":t; }
  Str host(const Val&v){ hv.push_back(v); return fmt("hv( %d )",(int)hv.size()-1); }
  // an expression that yields v
  Str arg(const Val&v){ Str l=lit(v); if(!l.empty()&&r.chance(50)) return l; Str e=l.empty()||r.chance(50)?host(v):l; Str n=fmt("v%d",nv++);
    switch(r.below(9)){ case 0: case 1: return e; case 2: case 3: line("var "+n+" = "+e+";"); watch.push_back({n,v}); return n; case 4: line("var "+n+" = { 0, "+e+" };"); watch.push_back({n+"[1]",v}); return n+"[1]"; case 5: line("var "+n+" = { \"k\" : "+e+" };"); watch.push_back({n+".k",v}); return n+".k"; case 6: return "back( "+e+" )"; case 7: line("var "+n+" = new Box(); "+n+".m = "+e+";"); watch.push_back({n+".m",v}); return n+".m"; default: { Str g=fmt("g%d",r.below(6)); for(auto&w:watch) if(w.first=="::"+g) return e; line("::"+g+" = "+e+";"); watch.push_back({"::"+g,v}); return "::"+g; } } }
  Str show(const Val&v){ if(v.k=='f'&&v.f!=v.f) return "f:nan"; return M::show(v); }
  void expect(const Val&v){ exp.push_back({show(v)}); }
  void call(const Str&f,const Vec<Val>&as,const Val&want,int mode=0,double tol=0){ Str e; for(size_t i=0;i<as.size();i++) e+=(i?", ":" ")+arg(as[i]); e=f+"("+e+" )"; calls++; fn[f]++;
    if(mode==1){ line("log( "+e+" != 0 );"); expect(want); } // truth value
    else { switch(r.below(4)){ case 0: { Str n=fmt("v%d",nv++); line("var "+n+" = "+e+"; log( "+n+" );"); break; } case 1: line("log( back( "+e+" ) );"); break; default: line("log( "+e+" );"); }
      if(mode==2){ Exp x; x.approx=true; x.v=want.f; x.tol=tol; exp.push_back(x); } else expect(want); }
    if(watch.size()>0&&r.chance(40)){ auto&w=watch[r.below((int)watch.size())]; line("log( "+w.first+" );"); expect(w.second); } }
  void finish(){ for(auto&w:watch){ line("log( "+w.first+" );"); expect(w.second); } }
  Str src(){ return "struct Box { var m; var n; };\nvar g0; var g1; var g2; var g3; var g4; var g5;\nfunction back( x ) { return x; }\nfunction spr( t, a, b, c ) { return str::sprintf( t, a, b, c ); }\n"+(local?"function main_() {\n"+body+"}\nmain_();\n":body); }
};
static Str rndStr(Rng&r){ int k=r.below(10); Str s; if(k==0) return ""; int n=k<6?r.range(1,12):k<9?r.range(1,90):r.range(90,2000); int kind=r.below(5); for(int i=0;i<n;i++){ char c; switch(kind){ case 0: c=(char)r.u32(); break; case 1: c=" \t\n\r\v\f"[r.below(6)]; if(r.chance(30)) c='a'+r.below(26); break; case 2: c="aAbBzZ@[`{09"[r.below(12)]; break; case 3: c=(char)r.range(32,126); break; default: c='a'+r.below(26); } if(c=='%') c='$'; s+=c; } if(r.chance(30)) s=Str(r.below(4)," \t\n"[r.below(3)])+s+Str(r.below(4)," \n\f"[r.below(3)]); return s; }
static int rndInt(Rng&r){ switch(r.below(6)){ case 0: return r.range(-3,12); case 1: return r.range(-300,300); case 2: return r.range(-70000,70000); case 3: return (int)(1u<<r.below(32))-r.below(2); case 4: return r.pick(Vec<int>{0,1,-1,INT32_MAX,INT32_MIN,INT32_MIN+1,255,256,32767,-32768,65535,99,100,9,10}); default: return (int)r.u32(); } }
static Str bin(uint32_t v){ Str s; do{ s.insert(s.begin(),'0'+(v&1)); v>>=1; }while(v); return s; }
// one conversion: text of the specification, its argument and the C result
static Str conv(Rng&r,Str&spec,Val&a,bool&has){ has=true; char c="diuxXobpcs%"[r.below(11)]; 
  Str fl; bool left=false,zero=false,alt=false; int w=0; if(r.chance(25)){ fl+="-"; left=true; } if(r.chance(25)&&c!='p'){ fl+="0"; zero=true; } if(strchr("xXob",c)&&r.chance(30)){ alt=true; fl+="#"; } if(r.chance(30)) std::reverse(fl.begin(),fl.end()); Str ws; if(r.chance(50)){ w=r.chance(90)?r.range(1,14):r.range(15,130); ws=fmt("%d",w); }
  if(c=='%'){ has=false; spec="%%"; return "%"; }
  spec="%"+fl+ws+c; auto pad=[&](const Str&p,const Str&d,bool z){ int n=w-(int)(p.size()+d.size()); if(n<=0) return p+d; if(left) return p+d+Str(n,' '); if(z) return p+Str(n,'0')+d; return Str(n,' ')+p+d; };
  if(c=='s'){ Str s=rndStr(r); if(s.size()>100&&r.chance(80)) s.resize(100); a=SR(s); return pad("",s,false); }
  if(c=='c'){ int ch=r.chance(80)?r.range(32,126):r.range(1,255); a=Val::I(ch); return pad("",Str(1,(char)ch),false); }
  int v=rndInt(r); if(r.chance(15)&&abs(v)<100000&&v!=INT32_MIN){ a=FR((float)v+(v<0?-0.25f:0.25f)); if((int)a.f!=v) a=Val::I(v); } else a=Val::I(v); uint32_t u=(uint32_t)v;
  switch(c){ case 'd': case 'i': return pad(v<0?"-":"",fmt("%u",v<0?0u-u:u),zero); case 'u': return pad("",fmt("%u",u),zero); case 'x': return pad(alt&&u?"0x":"",fmt("%x",u),zero); case 'X': return pad(alt&&u?"0X":"",fmt("%X",u),zero); case 'o': return pad(alt&&u?"0":"",fmt("%o",u),zero); case 'b': return pad(alt&&u?"0b":"",bin(u),zero); default: return pad("0x",fmt("%X",u),zero); } }
static Str fmtStr(Rng&r,Vec<Val>&as,Str&out){ Str f; int n=r.range(0,6); for(int i=0;i<n;i++){ if(r.chance(60)){ Str t=rndStr(r); if(t.size()>40) t.resize(40); f+=t; out+=t; } Str sp; Val a; bool has; Str o=conv(r,sp,a,has); f+=sp; out+=o; if(has) as.push_back(a); } if(r.chance(50)){ Str t=rndStr(r); if(t.size()>100) t.resize(100); f+=t; out+=t; } return f; }
static Str captured(const std::function<void()>&fn){ fflush(stdout); int save=dup(1); char nm[]="/tmp/vp-libs-XXXXXX"; int fd=mkstemp(nm); unlink(nm); dup2(fd,1); fn(); fflush(stdout); dup2(save,1); close(save); off_t n=lseek(fd,0,SEEK_END); Str s((size_t)n,'\0'); pread(fd,&s[0],n,0); close(fd); return s; }

static bool sameExp(const Exp&e,const Str&o){ if(!e.approx) return e.s==o||(e.s=="f:nan"&&o.find("nan)")!=Str::npos); size_t p=o.find('('); if(o.compare(0,2,"f:")||p==Str::npos) return false; double v=atof(o.c_str()+p+1); if(e.v!=e.v) return v!=v; if(std::isinf(e.v)) return v==e.v; return fabs(v-e.v)<=e.tol*fabs(e.v)+1e-44; }
static void runGen(LGen&g,Rng&r,const Str&key,const Str*out=0){
  g.finish(); g_hv=&g.hv; Str src=g.src(); if(g_verbose) printf("%s\n",src.c_str()),fflush(stdout); RunCfg c; c.gc=r.pick(Vec<int>{-1,0,1,200}); c.setup=[](WRState*w){ wr_registerFunction(w,"hv",nat_hv,0); }; RunOut o; Str text;
  if(out) text=captured([&]{ o=runProgram(src,c); }); else o=runProgram(src,c);
  g_st.inc("calls",g.calls); for(auto&f:g.fn) g_st.inc("fn."+f.first,f.second); g_st.inc("results",g.exp.size()); Str hs; for(auto&v:g.hv) hs+=M::show(v)+";"; g_st.seen(hashStr64(src+hs)); if(g_st.samples.size()<2&&src.size()<900) g_st.sample(src);
  Str what; if(o.cerr) what=fmt("compile error %d %s",o.cerr,o.cmsg.c_str()); else if(o.err) what=fmt("error %d",o.err); else if(o.leaked) what=fmt("%zu blocks leaked",o.leaked); else { for(size_t i=0;i<g.exp.size()||i<o.trace.size();i++) if(i>=g.exp.size()||i>=o.trace.size()||!sameExp(g.exp[i],o.trace[i])){ size_t at=0; int k=0; Str ln; size_t p=0; while(p<src.size()){ size_t e=src.find('\n',p); Str q=src.substr(p,e-p); if(q.find("log(")!=Str::npos&&k++==(int)i){ ln=q; break; } p=e+1; } what=fmt("result %zu is %s, expected %s, in: %s",i,i<o.trace.size()?o.trace[i].substr(0,200).c_str():"<none>",i<g.exp.size()?(g.exp[i].approx?fmt("%.9g",g.exp[i].v):g.exp[i].s).substr(0,200).c_str():"<none>",ln.substr(0,200).c_str()); break; } }
  if(what.empty()&&out&&text!=*out){ size_t i=0; while(i<text.size()&&i<out->size()&&text[i]==(*out)[i]) i++; what=fmt("printed text differs at byte %zu: \"%s\", expected \"%s\"",i,esc(text.substr(i,60)).c_str(),esc(out->substr(i,60)).c_str()); }
  if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(!what.empty()){ Str d; for(size_t i=0;i<g.hv.size();i++) d+=fmt("hv( %zu ) = ",i)+M::show(g.hv[i]).substr(0,400)+"\n"; violation(key,what,fmt("gc=%d\n",c.gc)+src+d); } }

static void strCase(Rng&r,long){
  LGen g(r); Str out; bool prints=false; int n=r.range(4,40); struct Tgt { Str name; Val v; }; Vec<Tgt> tg; for(int i=0;i<4;i++){ Tgt t; t.name=fmt("t%d",i); int k=r.below(4); t.v=k==0?Val::I(0):SR(k==1?Str(""):rndStr(r)); g.line("var "+t.name+" = "+(k==0?Str("0"):g.host(t.v))+";"); tg.push_back(t); }
  for(int i=0;i<n;i++){ Str s=rndStr(r), t=rndStr(r); int len=(int)s.size(); auto cnt=[&]{ return r.chance(70)?r.range(0,len+2):r.chance(50)?r.below(5):r.pick(Vec<int>{100000,INT32_MAX,len}); }; 
    switch(r.below(26)){
      case 0: g.call("str::strlen",{SR(s)},Val::I(len)); break;
      case 1: case 2: case 3: case 4: { Vec<Val> as; Str o; Str f=fmtStr(r,as,o); as.insert(as.begin(),SR(f)); if(r.chance(10)) as.push_back(Val::I(7)); if(as.size()>20) break; g.call("str::format",as,SR(o)); break; }
      case 5: case 6: case 7: { Tgt&x=tg[r.below(4)]; Vec<Val> as; Str o; Str f=fmtStr(r,as,o); if(r.chance(15)){ f=o=Str(r.range(60,700),'a'+r.below(26)); as.clear(); } Str e; for(size_t k=0;k<as.size();k++) e+=", "+g.arg(as[k]); Str fa=g.arg(SR(f)); if(as.size()<3&&r.chance(30)){ Str a2=e; for(size_t k=as.size();k<2;k++) a2+=", 0"; g.line("log( spr( "+x.name+", "+fa+a2+" ) );"); } else g.line("log( str::sprintf( "+x.name+", "+fa+e+" ) );"); g.expect(Val::I((int)o.size())); x.v=SR(o); g.calls++; g.fn["str::sprintf"]++; g.line("log( "+x.name+" );"); g.expect(x.v); if(r.chance(30)){ g.line("log( "+x.name+" + \"+\" );"); g.expect(SR(o+"+")); g.line("log( str::strlen( "+x.name+" ) );"); g.expect(Val::I((int)o.size())); } if(r.chance(20)){ Tgt&y=tg[r.below(4)]; g.line("log( "+y.name+" );"); g.expect(y.v); } break; }
      case 8: { prints=true; Vec<Val> as; Str o; Str f=fmtStr(r,as,o); as.insert(as.begin(),SR(f)); if(as.size()>20) break; g.call("str::printf",as,Val::I((int)o.size())); out+=o; break; }
      case 9: { int c=r.range(0,255); g.call("str::isspace",{Val::I(c)},Val::I(c<128&&isspace(c)),1); break; } case 10: { int c=r.range(0,255); g.call("str::isdigit",{Val::I(c)},Val::I(c<128&&isdigit(c)),1); break; } case 11: { int c=r.range(0,255); g.call("str::isalpha",{Val::I(c)},Val::I(c<128&&isalpha(c)),1); break; }
      case 12: case 13: { int p=cnt(); const char*f=r.chance(50)?"str::mid":"str::substr"; if(r.chance(30)) g.call(f,{SR(s),Val::I(p)},SR(p<len?s.substr(p):"")); else { int k=cnt(); g.call(f,{SR(s),Val::I(p),Val::I(k)},SR(p<len?s.substr(p,k):"")); } break; }
      case 14: { int ch; if(len&&r.chance(70)) ch=(unsigned char)s[r.below(len)]; else ch=r.range(0,255); size_t p=s.find((char)ch); g.call("str::chr",{SR(s),Val::I(ch)},Val::I(p==Str::npos?-1:(int)p)); break; }
      case 15: case 16: { bool up=r.chance(50); const char*f=up?"str::toupper":"str::tolower"; auto cv=[&](int c){ return c<128?(up?toupper(c):tolower(c)):c; }; if(r.chance(40)){ int c=r.range(0,255); g.call(f,{Val::I(c)},Val::I(cv(c))); } else { Str o; for(unsigned char c:s) o+=(char)cv(c); g.call(f,{SR(s)},SR(o)); } break; }
      case 17: { int base=r.pick(Vec<int>{10,10,10,2,8,16,36,0,3,7,12}); int v=rndInt(r); if(v==INT32_MIN) v++; Str d; uint32_t u=v<0?0u-(uint32_t)v:(uint32_t)v; int b=base?base:r.pick(Vec<int>{8,10,16}); do{ int q=u%b; d.insert(d.begin(),q<10?'0'+q:(r.chance(50)?'a':'A')+q-10); u/=b; }while(u); if(base==16&&r.chance(30)) d="0x"+d; if(!base) d=(b==16?"0x":b==8?"0":"")+d; if(r.chance(20)&&base) d=Str(r.below(30),'0')+(d.compare(0,2,"0x")?d:d.substr(2)); d=(v<0?"-":r.chance(20)?"+":"")+d; if(r.chance(20)) d=Str(r.below(6)," \t\n"[r.below(3)])+d; if(r.chance(30)) d+=r.pick(Vec<Str>{" ","!","zz"," 12",".5","-1"}).substr(0); if(d.size()>80) break; long want=strtol(d.c_str(),0,base); if(want!=(int)want) break; if(base==10&&r.chance(50)) g.call("str::tol",{SR(d)},Val::I((int)want)); else g.call("str::tol",{SR(d),Val::I(base)},Val::I((int)want)); break; }
      case 18: { Vec<Val> as{SR(s),SR(t)}; Str o=s+t; while(r.chance(30)&&as.size()<8){ Str q=rndStr(r); as.push_back(SR(q)); o+=q; } g.call("str::concat",as,SR(o)); break; }
      case 19: { int k=cnt(); g.call(r.chance(50)?"str::left":"str::trunc",{SR(s),Val::I(k)},SR(s.substr(0,k))); break; }
      case 20: { int k=cnt(); g.call("str::right",{SR(s),Val::I(k)},SR(k>=len?s:s.substr(len-k))); break; }
      case 21: case 22: case 23: { int a=0,b=len; int k=r.below(3); if(k!=0) while(a<b&&isspace((unsigned char)s[a])&&(unsigned char)s[a]<128) a++; if(k!=1) while(b>a&&isspace((unsigned char)s[b-1])&&(unsigned char)s[b-1]<128) b--; const char*f[]={"str::trimright","str::trimleft","str::trim"}; g.call(f[k],{SR(s)},SR(s.substr(a,b-a))); break; }
      case 24: { int p=cnt(); int q=std::min(p,len); g.call("str::insert",{SR(s),SR(t),Val::I(p)},SR(s.substr(0,q)+t+s.substr(q))); break; }
      default: { int v=rndInt(r); Str x=g.arg(Val::I(v)); g.line("log( \"<\" + "+x+" );"); g.expect(SR(fmt("<%d",v))); break; } } }
  for(auto&t:tg){ g.line("log( "+t.name+" );"); g.expect(t.v); }
  runGen(g,r,"string",prints?&out:0); }

// formats with floats (builds with WRENCH_FLOAT_SPRINTF)
static void fspCase(Rng&r,long){ LGen g(r); int n=r.range(2,20); for(int i=0;i<n;i++){ Vec<Val> as; Str f,o; int k=r.range(1,4); for(int j=0;j<k;j++){ if(r.chance(60)){ Str t=rndStr(r).substr(0,20); f+=t; o+=t; } if(r.chance(30)){ Str sp; Val a; bool has; o+=conv(r,sp,a,has); f+=sp; if(has) as.push_back(a); continue; } float v=r.chance(70)?(float)r.range(-100000,100000)/r.pick(Vec<float>{1,3,8,100,7000}):r.pick(Vec<float>{0,1e10f,-3.4e38f,1e-20f,123456789,0.5f,1e20f}); Str sp="%"+Str(r.chance(20)?"-":"")+Str(r.chance(20)?"0":"")+(r.chance(40)?fmt("%d",r.range(1,30)):Str())+(r.chance(60)?fmt(".%d",r.range(0,12)):Str())+(r.chance(60)?"f":"g"); char b[400]; snprintf(b,sizeof b,sp.c_str(),v); f+=sp; o+=b; as.push_back(FR(v)); } Vec<Val> all{SR(f)}; for(auto&a:as) all.push_back(a); g.call("str::format",all,SR(o)); } runGen(g,r,"float-format"); }

static float rndFloat(Rng&r){ switch(r.below(9)){ case 0: return (float)r.range(-10,10); case 1: case 2: return (float)r.range(-2000,2000)/256.f; case 3: return (float)r.range(-1000,1000)/1000.f; case 4: return (float)r.range(-1000000,1000000); case 5: { uint32_t u=r.u32(); float f; memcpy(&f,&u,4); return f==f?f:0.25f; } case 6: return r.pick(Vec<float>{0,1,-1,0.5f,-0.5f,2,-2,100,1e10f,-1e10f,1e-10f,3.14159265f,1.5707963f,(float)INFINITY,-(float)INFINITY,1e38f,1e-40f,2.5f,3.5f,-2.5f,0.49999997f}); default: return (float)r.range(-100000,100000)/1024.f; } }
static Val rndNum(Rng&r,float&f){ if(r.chance(30)){ int v=rndInt(r); f=(float)v; return Val::I(v); } f=rndFloat(r); return FR(f); }
static void mathCase(Rng&r,long){
  static const struct { const char*n; float(*f)(float); } F1[]={{"sin",sinf},{"cos",cosf},{"tan",tanf},{"sinh",sinhf},{"cosh",coshf},{"tanh",tanhf},{"asin",asinf},{"acos",acosf},{"atan",atanf},{"log",logf},{"ln",logf},{"log10",log10f},{"exp",expf},{"trunc",truncf},{"sqrt",sqrtf},{"ceil",ceilf},{"floor",floorf},{"abs",fabsf}};
  LGen g(r); int n=r.range(8,50); for(int i=0;i<n;i++){ volatile float a,b; float fa,fb; Val va=rndNum(r,fa), vb=rndNum(r,fb); a=fa; b=fb; 
    switch(r.below(12)){
      case 0: case 1: case 2: case 3: case 4: case 5: { auto&f=F1[r.below(18)]; if(r.chance(40)&&(f.n[0]=='a'||f.n[0]=='s')){ fa=(float)r.range(-1100,1100)/1000.f; va=FR(fa); a=fa; } g.call(Str("math::")+f.n,{va},FR(f.f(a))); break; }
      case 6: g.call("math::atan2",{va,vb},FR(atan2f(b,a))); break;
      case 7: { if(r.chance(60)){ fa=(float)r.range(0,400)/16.f; fb=(float)r.range(-80,80)/8.f; va=FR(fa); vb=FR(fb); a=fa; b=fb; } g.call("math::pow",{va,vb},FR(powf(a,b))); break; }
      case 8: g.call("math::fmod",{va,vb},FR(fmodf(a,b))); break;
      case 9: { int e=r.chance(90)?r.range(-40,40):r.range(-300,300); g.call("math::ldexp",{va,r.chance(80)?Val::I(e):FR((float)e)},FR(ldexpf(a,e))); break; }
      case 10: { const double PI=3.14159265358979323846; if(fabsf(fa)>1e30f||(fa!=0&&fabsf(fa)<1e-30f)) break; if(r.chance(50)) g.call("math::deg2rad",{va},FR((float)(fa*PI/180)),2,5e-7); else g.call("math::rad2deg",{va},FR((float)(fa*180/PI)),2,5e-7); break; }
      default: { int x=rndInt(r), y=rndInt(r), d=rndInt(r); if(!d) d=3; int64_t q=(int64_t)x*y/d; if(q!=(int32_t)q){ y=r.range(-40,40); q=(int64_t)x*y/d; if(q!=(int32_t)q) break; } g.call("math::iscale",{Val::I(x),Val::I(y),Val::I(d)},Val::I((int)q)); break; } } }
  runGen(g,r,"math"); }
static void randCase(Rng&r,long){
  int seed; do seed=rndInt(r); while(seed==0||seed==INT32_MAX||seed==-INT32_MAX||seed==INT32_MIN); int k=r.below(5); int lo=0,hi; bool two=true; if(k==0){ two=false; hi=r.below(3)?r.range(1,6):rndInt(r); } else if(k<4){ lo=r.range(-1000,1000); if(r.chance(20)) lo=rndInt(r); hi=(int)std::min<int64_t>(INT32_MAX,(int64_t)lo+r.range(0,6)); } else { lo=rndInt(r); hi=rndInt(r); } int n=r.range(20,60); if(hi>lo&&(int64_t)hi-lo<8) n=500;
  LGen g(r); Str call=two?"std::rand( "+g.arg(Val::I(lo))+", "+g.arg(Val::I(hi))+" )":"std::rand( "+g.arg(Val::I(hi))+" )"; Str sd=g.arg(Val::I(seed)); Str other=r.chance(50)?fmt("for( var j = 0; j < %d; ++j ) { std::rand( 1000 ); }\n",r.below(50)):Str();
  Str src=g.src(); if(g.local) src=src.substr(0,src.rfind("}\nmain_();")); src+=other+"std::srand( "+sd+" );\nfor( var i = 0; i < "+fmt("%d",n)+"; ++i ) { log( "+call+" ); }\nvar t1 = std::time(); var m1 = time::ms(); log( t1, m1 ); var m2 = time::ms(); log( m2 - m1 );\n"+(g.local?"}\nmain_();\n":"");
  if(g_verbose) printf("%s\n",src.c_str()),fflush(stdout); RunCfg c; g_hv=&g.hv; c.setup=[](WRState*w){ wr_registerFunction(w,"hv",nat_hv,0); }; struct timeval t0,t1; gettimeofday(&t0,0); RunOut a=runProgram(src,c), b=runProgram(src,c); gettimeofday(&t1,0); Str what; g_st.inc("calls",n*2); g_st.inc("fn.std::rand",n*2); g_st.inc("results",a.trace.size()); g_st.seen(hashStr64(src)^mix64(seed)); 
  if(a.cerr||a.err||b.err) what=fmt("error %d %d %s",a.cerr,a.err,a.cmsg.c_str()); else if((int)a.trace.size()!=n+2||(int)b.trace.size()!=n+2) what="wrong number of results"; else {
    std::set<long> seen; for(int i=0;i<n;i++){ if(a.trace[i]!=b.trace[i]){ what=fmt("draw %d from the same seed differs: %s and %s",i,a.trace[i].c_str(),b.trace[i].c_str()); break; } long v=atol(a.trace[i].c_str()+2); seen.insert(v); if(a.trace[i][0]!='i'||(hi>lo?v<lo||v>hi:v!=lo)){ what=fmt("draw %d is %s, outside %d..%d",i,a.trace[i].c_str(),lo,hi); break; } }
    if(what.empty()&&hi>lo&&(int64_t)hi-lo<8&&(long)seen.size()!=hi-lo+1) what=fmt("%d draws over %d..%d give only %zu of the values",n,lo,hi,seen.size());
    if(what.empty()&&hi>lo&&(int64_t)hi-lo>100000&&seen.size()<5) what=fmt("%d draws over %d..%d give only %zu values",n,lo,hi,seen.size());
    if(what.empty()){ long ts; unsigned ms; int q; if(sscanf(a.trace[n].c_str(),"i:%ld i:%d",&ts,(int*)&ms)!=2) what="time is not an integer"; else { if(ts<t0.tv_sec-1||ts>t1.tv_sec+1) what=fmt("time is %ld, the clock says %ld",ts,(long)t0.tv_sec); uint32_t m0=(uint32_t)(t0.tv_sec*1000+t0.tv_usec/1000); uint32_t d=ms-m0; if(d>600000u&&d<(uint32_t)-2000) what=fmt("milliseconds are %u, the clock says %u",ms,m0); q=atoi(a.trace[n+1].c_str()+2); if(q<0||q>600000) what=fmt("the millisecond clock moved by %d",q); } } }
  if(!what.empty()) violation("random",what,src); }
// numbers as text: integers exactly, floats to five decimals
static void textCase(Rng&r,long){ LGen g(r); int n=r.range(5,40); Str pre; Vec<std::pair<float,int>> fl; Vec<Str> want;
  for(int i=0;i<n;i++){ if(r.chance(50)){ int v=rndInt(r); Str x=g.arg(Val::I(v)); switch(r.below(3)){ case 0: g.line("log( \"\" + "+x+" );"); g.expect(SR(fmt("%d",v))); break; case 1: g.line("log( str::tol( \"\" + "+x+" ) );"); g.expect(Val::I(v)); break; default: g.line("log( "+x+" + \"|\" );"); g.expect(SR(fmt("%d|",v))); } g.calls++; }
    else { float f=rndFloat(r); if(fabsf(f)>1e9f||f!=f) continue; Str x=g.arg(FR(f)); g.line("log( \"\" + "+x+" );"); fl.push_back({f,(int)g.exp.size()}); g.exp.push_back({}); g.calls++; } }
  // float texts are judged by value
  g.finish(); Str src=g.src(); if(g_verbose) printf("%s\n",src.c_str()),fflush(stdout); g_hv=&g.hv; RunCfg c; c.gc=r.pick(Vec<int>{-1,0}); c.setup=[](WRState*w){ wr_registerFunction(w,"hv",nat_hv,0); }; RunOut o=runProgram(src,c); g_st.inc("calls",g.calls); g_st.inc("results",g.exp.size()); g_st.inc("fn.text",g.calls); Str hs; for(auto&v:g.hv) hs+=M::show(v); g_st.seen(hashStr64(src+hs)); Str what;
  if(o.cerr||o.err) what=fmt("error %d %d",o.cerr,o.err); else if(o.trace.size()!=g.exp.size()) what="wrong number of results"; else { for(auto&p:fl){ const Str&t=o.trace[p.second]; Str s=t.substr(2); char*e=0; double v=strtod(s.c_str(),&e); double f=p.first; size_t dot=s.find('.'); bool shape=t[0]=='s'&&!s.empty()&&*e==0&&s.find_first_not_of("-0123456789.")==Str::npos&&(dot==Str::npos||(s.size()-dot-1<=5&&dot+1<s.size()&&s.back()!='0')); double tol=1.2e-5+fabs(f)*3e-7; if(!shape||fabs(v-f)>tol){ what=fmt("text of %.9g is \"%s\"",f,esc(s).c_str()); break; } g.exp[p.second].s=t; } for(size_t i=0;what.empty()&&i<g.exp.size();i++) if(!sameExp(g.exp[i],o.trace[i])) what=fmt("result %zu is %s, expected %s",i,o.trace[i].c_str(),g.exp[i].s.c_str()); }
  if(!what.empty()) violation("text",what,src); }
int main(int n,char**v){ g_modes["str"]=strCase; g_modes["math"]=mathCase; g_modes["rand"]=randCase; g_modes["text"]=textCase; g_modes["fsp"]=fspCase; return harnessMain(n,v); }
