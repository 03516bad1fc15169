// P12: the host boundary. Random histories of calls, global accesses, native callbacks, host-made
// containers, struct instances, conversions and refused calls against one program; every value that
// crosses in either direction is compared with a model of what was sent.
#include "langlib.h"
static const char* PROG=
"var g0 = 0;\nvar g1 = 0;\nvar g2 = 0;\nvar held = 0;\nvar a_global_with_quite_a_long_name_indeed = 5;\n"
"struct S( x, y ) { var a = x; var b = y; var c = 7; var d; }\n"
"function f0() { log( \"f0\" ); return 10; }\nfunction f1( a ) { log( a ); return a; }\nfunction f2( a, b ) { log( a, b ); return b; }\nfunction f3( a, b, c ) { log( a, b, c ); return a; }\nfunction f5( a, b, c, d, e ) { log( a, b, c, d, e ); return d; }\n"
"function loc( a ) { var l = a; var m = { l, a, 3 }; return m[0]; }\n"
"function seta( x ) { g0 = x; return 0; }\nfunction setb( x ) { g1 = x; return 0; }\nfunction setc( x ) { g2 = x; return 0; }\nfunction geta() { return g0; }\nfunction getb() { return g1; }\nfunction getc() { return g2; }\n"
"function nat1( x ) { return swap( x ); }\nfunction nat2( x, y ) { var r = swap( x, y, g0 ); return r; }\nfunction nat3( x ) { g1 = swap(); var q = { swap( x ), 4 }; return q[0]; }\n"
"function churn() { var q = 0; for( var i = 0; i < 12; ++i ) { q = { i, str::concat( \"ab\", \"cd\" ), q[1] }; } return 0; }\n"
"function hold( x ) { held = x; churn(); return 0; }\nfunction heldv() { churn(); return held; }\n"
"function mk( a, b ) { var s = new S( a, b ); return s; }\nfunction sa( s ) { return s.a; }\nfunction sb( s ) { return s.b; }\nfunction setsa( s, v ) { s.a = v; return s.c; }\nfunction setsd( s, v ) { s.d = v; return s.d; }\n"
"function ci( c ) { return c.inum; }\nfunction cf( c ) { return c.fnum; }\nfunction cv( c ) { return c.val; }\nfunction cr( c, i ) { return c.raw[i]; }\nfunction crw( c, i, v ) { c.raw[i] = v; return c.raw[i]; }\nfunction ciw( c, v ) { c.inum = v; return 0; }\nfunction cvw( c, v ) { c.val = v; return 0; }\nfunction ccnt( c ) { return c.raw._count; }\nfunction cdyn( c, k ) { return c[k]; }\n"
"function ai( x, i ) { return x[i]; }\nfunction ac( x ) { return x._count; }\nfunction aw( x, i, v ) { x[i] = v; return x[i]; }\n"
"function mkarr( n ) { var r[0]; for( var i = 0; i < n; ++i ) { list::push_back( r, i * i ); } return r; }\nfunction mkhash( n ) { var h = { 100000 : 1 }; for( var i = 0; i < n; ++i ) { h[i * 7] = i; } return h; }\n"
"function kadd() { return lib::konst + lib::fkonst; }\nfunction self( n ) { if( n <= 0 ) { return 0; } return back( n - 1 ) + 1; }\n";
struct HSt { Rng*r; Vec<Str> exp; Val ret; Str bad; long n=0; int usr1=11,usr2=22; }; static HSt*H;
static WRValue hostVal(WRContext*c,const Val&v);
static Val sv(const Str&s){ Val v; v.k='s'; v.s=std::make_shared<Str>(s); return v; }
static Val arr(){ Val v; v.k='a'; v.c=std::make_shared<Cont>(); v.c->kind='a'; return v; }
static Val hsh(){ Val v; v.k='h'; v.c=std::make_shared<Cont>(); v.c->kind='h'; return v; }
static Val rnd(Rng&r,int d=2){ switch(r.below(d>0?10:7)){ case 0: return Val::I(r.range(-5,300)); case 1: return Val::I((int)r.u32()); case 2: return Val::I(r.pick(Vec<int>{0,-1,127,128,255,256,-128,65535,65536,INT32_MAX,INT32_MIN})); case 3: return Val::F((float)r.range(-4000,4000)/8.f); case 4: { float f; uint32_t u; do { u=r.u32(); memcpy(&f,&u,4); } while(!(f==f)||fabsf(f)>1e29f||(f!=0&&fabsf(f)<1e-29f)); return Val::F(f); } case 5: case 6: { Str s; int n=r.chance(90)?r.below(20):r.below(900); while(n--) s+=(char)(r.chance(70)?r.range(32,126):r.below(256)); return sv(s); }
    case 7: case 8: { Val a=arr(); int n=r.range(1,6); while(n--) a.c->a.push_back(rnd(r,d-1)); return a; } default: { Val h=hsh(); int n=r.range(1,6); while(n--){ Val k=r.chance(50)?Val::I(r.range(0,40)):sv(fmt("k%d",r.below(20))); h.c->h[keyHash(k)]={k,rnd(r,d-1)}; } return h; } } }
// built with the public element accessors; values made here are only reachable from the result
static WRValue hostVal(WRContext*c,const Val&v){ WRValue o; o.init(); switch(v.k){ case 'i': if(v.i&1) wr_makeInt(&o,v.i); else o.setInt(v.i); break; case 'f': wr_makeFloat(&o,v.f); break; case 's': { // from an exactly sized block
      size_t n=v.s->size(); char*p=(char*)malloc(n+1); memcpy(p,v.s->data(),n); p[n]=0; if(n){ char*q=(char*)malloc(n); memcpy(q,p,n); wr_makeString(c,&o,q,(int)n); free(q); } else wr_makeString(c,&o,p); free(p); break; }
    case 'a': { size_t n=v.c->a.size(); for(size_t i=n;i-->0;){ WRValue e=hostVal(c,v.c->a[i]); *o.indexArray(c,(uint32_t)i,true)=e; } break; }
    case 'h': for(auto&q:v.c->h){ WRValue e=hostVal(c,q.second.second); const Val&k=q.second.first; if(k.k=='s'){ WrenchValue w(c,&o); *w.addHashTableValue(k.s->c_str())=e; } else { WRValue*p=o.indexHash(c,(uint32_t)k.i,true); p[0]=e; p[1]=WRValue((int)k.i); } } break; }
  return o; }
static Str showH(const WRValue&v){ return showVal(v); }
static void nat_swap(WRContext*c,const WRValue*a,const int n,WRValue&r,void*u){ if(u!=&H->usr1) H->bad="the registered pointer is not passed"; Str o="swap"; for(int i=0;i<n;i++) o+=" "+showH(a[i]); if(g_rec.t) g_rec.t->push_back(o); H->n++; if(H->ret.k=='i'&&H->ret.i==0) return; r=hostVal(c,H->ret); }
static void nat_back(WRContext*c,const WRValue*a,const int n,WRValue&r,void*u){ if(u!=&H->usr2) H->bad="the registered pointer is not passed"; if(n!=1) H->bad="argument count"; WRValue x(a[0].asInt()); WRValue keep=hostVal(c,sv("kept")); int in=x.asInt(); (void)keep; wr_makeInt(&r,in); }
static WRContext*g_c;
static void hostCase(Rng&r,long){
  size_t live0=g_am.live.size(); HSt hs; H=&hs; hs.r=&r; Vec<Str> tr; Str what,hist; WRState*w=wr_newState(r.pick(Vec<int>{60,100,400})); wr_loadAllLibs(w); wr_registerFunction(w,"log",nat_log,0); wr_registerFunction(w,"swap",nat_log,0); wr_registerFunction(w,"swap",nat_swap,&hs.usr1); wr_registerFunction(w,"back",nat_back,&hs.usr2); int K=r.range(-1000,1000); float KF=(float)r.range(0,80)/8.f; wr_registerLibraryConstant(w,"lib::konst",(int32_t)K); wr_registerLibraryConstant(w,"lib::fkonst",KF);
  if(r.chance(50)) wr_setAllocatedMemoryGCHint(w,r.pick(Vec<int>{0,0,300}));
  unsigned char*o; int l; Str m; if(compileSrc(PROG,&o,&l,WR_INCLUDE_GLOBALS,&m)){ violation("host.gen",m,PROG); wr_destroyState(w); return; }
  WRContext*c=wr_newContext(w,o,l,false); if(!c){ violation("host.gen","no context",PROG); wr_destroyState(w); wr_free(o); return; }
  if(r.chance(50)){ WRValue a(3); if(wr_callFunction(c,"f1",&a,1)||wr_getLastError(w)!=WR_ERR_run_must_be_called_by_itself_first) what=fmt("a call before the program ran gives error %d",wr_getLastError(w)); g_st.inc("refused_early"); }
  g_rec.t=&tr; if(!wr_executeContext(c)||wr_getLastError(w)) what=fmt("execution: error %d",wr_getLastError(w)); g_c=c;
  WRContext*c2=r.chance(40)?wr_run(w,o,l,false):0; Val G[3]; Val held; std::map<Str,Val> raw;
  WRFunction* ff=0; int n=r.range(8,60);
  auto call=[&](const char*f,const Vec<Val>&a)->WRValue*{ Vec<WRValue> v; for(auto&x:a) v.push_back(hostVal(c,x)); hist+=f; for(auto&x:a) hist+=" "+show(x).substr(0,300); hist+="\n"; g_st.inc("calls"); g_st.inc("values",a.size()+1); WRValue*q=0; if(r.chance(20)){ WRFunction*fn=wr_getFunction(c,f); if(!fn){ what=fmt("wr_getFunction does not find %s",f); return 0; } q=wr_callFunction(c,fn,v.empty()?0:&v[0],(int)v.size()); } else q=wr_callFunction(c,f,v.empty()?0:&v[0],(int)v.size()); if(!q||wr_getLastError(w)){ what=fmt("%s: error %d",f,wr_getLastError(w)); return 0; } return q; };
  auto is=[&](WRValue*q,const Val&e,const Str&t){ if(!what.empty()||!q) return; Str s=showH(*q); if(s!=show(e)) what=t+" gives "+s+", expected "+show(e); };
  auto chk=[&](const Vec<Str>&e){ if(!what.empty()) return; if(tr!=e) what=diffTrace(e,tr); tr.clear(); };
  auto argsShow=[&](const Vec<Val>&a,size_t n){ Str s; for(size_t i=0;i<n;i++) s+=(i?" ":"")+(i<a.size()?show(a[i]):Str("i:0")); return s; };
  static const char*gn[3]={"g0","g1","g2"}; static const char*sn[3]={"seta","setb","setc"}; static const char*ge[3]={"geta","getb","getc"};
  for(int i=0;i<n&&what.empty();i++){ tr.clear(); int k=r.below(22); g_st.inc(fmt("kind.%d",k));
    switch(k){
      case 0: case 1: case 2: { int np=r.pick(Vec<int>{0,1,2,3,5}); int na=r.below(8); Vec<Val> a; for(int j=0;j<na;j++) a.push_back(rnd(r)); Str f=fmt("f%d",np); WRValue*q=call(f.c_str(),a); auto A=[&](size_t x){ return x<a.size()?a[x]:Val::I(0); }; Val e=np==0?Val::I(10):np==1?A(0):np==2?A(1):np==3?A(0):A(3); is(q,e,f); chk({np?argsShow(a,np):Str("s:f0")}); if(q&&r.chance(30)){ WRValue*z=wr_returnValueFromLastCall(c); is(z,e,"the last return value"); } break; }
      case 3: { int j=r.below(3); Val v=rnd(r); call(sn[j],{v}); G[j]=v; break; }
      case 4: { int j=r.below(3); is(call(ge[j],{}),G[j],gn[j]); break; }
      case 5: { int j=r.below(3); WRValue*p=wr_getGlobalRef(c,r.chance(50)?gn[j]:(Str("::")+gn[j]).c_str()); if(!p){ what="no reference to a global"; break; } is(p,G[j],"the global reference"); Val v=rnd(r); WRValue x=hostVal(c,v); *p=x; hist+=fmt("*%s = ",gn[j])+show(v)+"\n"; G[j]=v; g_st.inc("global_writes"); is(call(ge[j],{}),v,"the global written by the host"); break; }
      case 6: { Val v=rnd(r); hs.ret=rnd(r); is(call("nat1",{v}),hs.ret,"a native result"); chk({"swap "+show(v)}); break; }
      case 7: { Val a=rnd(r),b=rnd(r); hs.ret=rnd(r); is(call("nat2",{a,b}),hs.ret,"a native result"); chk({"swap "+show(a)+" "+show(b)+" "+show(G[0])}); break; }
      case 8: { Val a=rnd(r); hs.ret=rnd(r,1); is(call("nat3",{a}),hs.ret,"a native result"); G[1]=hs.ret; chk({"swap","swap "+show(a)}); is(wr_getGlobalRef(c,"g1"),G[1],"g1"); break; }
      case 9: { Val v=rnd(r); call("hold",{v}); held=v; if(c2&&r.chance(30)) wr_callFunction(c2,"churn"); is(call("heldv",{}),held,"a held value"); break; }
      case 10: { is(call("heldv",{}),held,"a held value"); break; }
      case 11: { // struct instances
        Val a=rnd(r,0),b=rnd(r,0); WRValue s; s.init(); WRValue as[2]={hostVal(c,a),hostVal(c,b)}; int na=r.below(3); hist+=fmt("instance %d ",na)+show(a)+" "+show(b)+"\n"; if(!wr_instanceStruct(&s,c,"S",as,na)){ what="no instance"; break; } if(na<2) b=Val::I(0); if(na<1) a=Val::I(0); if(!s.isStruct()||s.isHashTable()||s.isWrenchArray()) what="an instance is not a struct"; WRValue*p=s.indexStruct("a"); if(!p) what="no member a"; else is(p,a,"member a"); p=s.indexStruct("b"); if(!p) what="no member b"; else is(p,b,"member b"); p=s.indexStruct("c"); if(!p) what="no member c"; else is(p,Val::I(7),"member c"); if(s.indexStruct("nomember")) what="a member that does not exist"; if(!what.empty()) break;
        WRValue z[2]; z[0]=s; WRValue*q=wr_callFunction(c,"sa",z,1); is(q,a,"s.a"); q=wr_callFunction(c,"sb",z,1); is(q,b,"s.b"); Val nv=rnd(r,1); z[1]=hostVal(c,nv); q=wr_callFunction(c,"setsa",z,2); if(!q) what="setsa fails"; is(q,Val::I(7),"s.c"); p=s.indexStruct("a"); is(p,nv,"the changed member"); wr_callFunction(c,"churn"); q=wr_callFunction(c,"sa",z,1); is(q,nv,"the changed member in the script"); WRValue no; no.init(); if(what.empty()&&wr_instanceStruct(&no,c,"NoSuch")) what="an instance of nothing"; g_st.inc("structs"); break; }
      case 12: { Val a=rnd(r,1),b=rnd(r,1); WRValue*q=call("mk",{a,b}); if(!q) break; if(!q->isStruct()){ what="a returned struct is not a struct"; break; } is(q->indexStruct("a"),a,"member a"); is(q->indexStruct("b"),b,"member b"); WRValue x[2]; x[0]=*q; x[1]=hostVal(c,a); q=wr_callFunction(c,"setsd",x,2); is(q,a,"s.d"); g_st.inc("structs"); break; }
      case 13: case 14: { // a container made by the host
        WRValue ct; wr_makeContainer(&ct,r.chance(50)?0:r.below(40)); int iv=(int)r.u32(); float fv=(float)r.range(-800,800)/8.f; int rl=r.range(1,40); char*rw=(char*)malloc(rl); for(int q=0;q<rl;q++) rw[q]=(char)r.below(256); Val vv=rnd(r,1); WRValue ext=hostVal(c,vv); int extra=r.chance(30)?r.range(1,40):0; Str h=fmt("container i=%d f=%g raw[%d] v=",iv,fv,rl)+show(vv)+fmt(" extra=%d\n",extra); hist+=h; for(int q=0;q<extra;q++) wr_addIntToContainer(&ct,fmt("e%d",q).c_str(),q*3);
        wr_addIntToContainer(&ct,"inum",iv); wr_addFloatToContainer(&ct,"fnum",fv); wr_addArrayToContainer(&ct,"raw",rw,rl); *wr_getGlobalRef(c,"held")=ext; held=vv; wr_addValueToContainer(&ct,"val",&ext);
        WRValue z[3]; z[0]=ct; is(wr_callFunction(c,"ci",z,1),Val::I(iv),"container.inum"); is(wr_callFunction(c,"cf",z,1),Val::F(fv),"container.fnum"); is(wr_callFunction(c,"cv",z,1),vv,"container.val"); for(int q=0;q<3&&what.empty();q++){ int ix=r.below(rl); z[1]=WRValue(ix); is(wr_callFunction(c,"cr",z,2),Val::I((unsigned char)rw[ix]),fmt("container.raw[%d]",ix)); int nb=r.below(256); z[2]=WRValue(nb); WRValue*e=wr_callFunction(c,"crw",z,3); is(e,Val::I(nb),"the written byte"); if(what.empty()&&(unsigned char)rw[ix]!=nb) what="a byte written by the script does not reach the host memory"; }
        z[1]=WRValue(rl+r.below(5)); is(wr_callFunction(c,"cr",z,2),Val::I(0),"a byte past the end"); is(wr_callFunction(c,"ccnt",z,1),Val::I(rl),"raw._count"); z[1]=hostVal(c,Val::I(77)); wr_callFunction(c,"ciw",z,2); is(wr_getValueFromContainer(ct,"inum"),Val::I(77),"a member written by the script"); Val nv=rnd(r,0); z[1]=hostVal(c,nv); wr_callFunction(c,"cvw",z,2); is(&ext,nv,"a host value written by the script"); if(what.empty()&&wr_getValueFromContainer(ct,"nosuch")) what="a member that was never added"; for(int q=0;q<extra;q++) is(wr_getValueFromContainer(ct,fmt("e%d",q).c_str()),Val::I(q*3),"a container member"); if(extra){ int e=r.below(extra); z[1]=hostVal(c,sv(fmt("e%d",e))); is(wr_callFunction(c,"cdyn",z,2),Val::I(e*3),"container[name]"); }
        wr_callFunction(c,"churn"); WRValue*last=wr_callFunction(c,"ci",z,1); is(last,Val::I(77),"container.inum"); wr_callFunction(c,"churn"); wr_destroyContainer(&ct); free(rw); g_st.inc("containers"); break; }
      case 15: { // refused calls
        Str f=r.pick(Vec<Str>{"nosuch","f9","F1","lib::nothing","","S2"}); if(f.empty()) f="zz"; WRValue a[3]; for(auto&x:a) x=hostVal(c,rnd(r,0)); WRValue*q=wr_callFunction(c,f.c_str(),a,r.below(4)); hist+="call "+f+"\n"; if(q||wr_getLastError(w)!=WR_ERR_wrench_function_not_found) what=fmt("calling %s gives error %d",f.c_str(),wr_getLastError(w)); if(wr_getFunction(c,f.c_str())) what="wr_getFunction finds "+f; g_st.inc("refused"); if(tr.size()) what="a refused call runs something"; if(what.empty()&&r.chance(50)){ Str t="abcdefgh"; t.resize(r.range(1,8)); WRValue b[3]; wr_makeString(c,&b[0],t.c_str(),(int)t.size()); WRValue*z=wr_callFunction(c,"str::strlen",b,1); hist+="call str::strlen\n"; if(!z||wr_getLastError(w)||showVal(*z)!=fmt("i:%d",(int)t.size())) what=fmt("calling a library function after a refused call gives %s, error %d",z?showVal(*z).c_str():"nothing",wr_getLastError(w)); g_st.inc("library_calls"); } break; }
      case 16: { if(wr_getGlobalRef(c,r.pick(Vec<const char*>{"nosuch","f1","x","::","g00"}))) what="a reference to a global that does not exist"; WRValue*p=wr_getGlobalRef(c,"a_global_with_quite_a_long_name_indeed"); is(p,Val::I(5),"a long global name"); break; }
      case 17: { // library functions by name
        int x=r.range(-1000,1000); WRValue a[2]={WRValue(x),WRValue(r.range(-1000,1000))}; Str s=fmt("t%d",x); if(r.chance(50)){ WRValue*q=wr_callFunction(c,"math::abs",a,1); is(q,Val::F((float)abs(x)),"math::abs"); } else { WRValue z=hostVal(c,sv(s)); WRValue*q=wr_callFunction(c,"str::strlen",&z,1); is(q,Val::I((int)s.size()),"str::strlen"); } g_st.inc("library_calls"); break; }
      case 18: { is(call("kadd",{}),Val::F((float)K+KF),"library constants"); break; }
      case 19: { // conversions to text and numbers
        Val v=rnd(r,0); WRValue x=hostVal(c,v); Str full=v.k=='i'?fmt("%d",v.i):v.k=='s'?*v.s:Str(); hist+="convert "+show(v)+"\n"; if(v.k=='f'){ if(x.asFloat()!=v.f||!x.isFloat()||x.isInt()||x.isString()) what="float access"; if(fabsf(v.f)<2e9f&&x.asInt()!=(int)v.f) what="float as integer"; unsigned len=0; char*ms=x.asMallocString(&len); if(!ms||strlen(ms)!=len) what="text of a float"; else { double d=atof(ms); if(fabs(d-(double)v.f)>fabs((double)v.f)*2e-6+1e-5&&fabs(v.f)<1e9) what=fmt("text of %.9g is %s",v.f,ms); full=ms; } if(ms) wr_free(ms); } else if(v.k=='i'){ if(x.asInt()!=v.i||x.asFloat()!=(float)v.i||!x.isInt()||x.isFloat()) what="integer access"; } else { int sl=-1; unsigned al=0; void*p=x.array(&al,SV_CHAR); if(!x.isString(&sl)||sl!=(int)v.s->size()||al!=v.s->size()||memcmp(p,v.s->data(),al)||x.arraySize()!=sl||x.isInt()||x.isFloat()||x.isHashTable()||x.isWrenchArray()) what="string access"; Str it; for(WRValue::Iterator q=x.begin();q!=x.end();++q){ if((*q).index!=(int)it.size()) what="string iterator index"; it+=(*q).character; } if(it!=*v.s) what="string iterator"; }
        if(what.empty()){ unsigned len=99; char*ms=x.asMallocString(&len); if(!ms||len!=full.size()||memcmp(ms,full.data(),len)||ms[len]) what="asMallocString gives "+(ms?esc(Str(ms,len)):Str("nothing")); if(ms) wr_free(ms); unsigned mx=r.chance(50)?r.range(1,12):(unsigned)r.range(1,(int)full.size()+3); char*b=(char*)malloc(mx); memset(b,0x55,mx); unsigned sl=99; char*q=x.asString(b,mx,&sl); size_t wantN=std::min<size_t>(full.size(),mx-1); if(what.empty()&&(q!=b||sl!=wantN||memcmp(b,full.data(),wantN)||b[wantN])) what=fmt("asString( %u ) of ",mx)+esc(full)+fmt(" has length %u: ",sl)+esc(Str(b,std::min(sl,mx))); free(b); } g_st.inc("conversions"); break; }
      case 20: { // iterators over script-made containers
        int q=r.below(30); hist+=fmt("iterate %d\n",q); WRValue a(q); WRValue*z=wr_callFunction(c,"mkarr",&a,1); if(!z){ what="mkarr"; break; } int cnt=0,ln=-1; if(!z->isWrenchArray(&ln)||ln!=q||z->arraySize()!=q) what="array size"; for(WRValue::Iterator it=z->begin();it!=z->end();++it,++cnt) if((*it).index!=cnt||!(*it).value||(*it).value->asInt()!=cnt*cnt) what=fmt("array iterator at %d",cnt); if(cnt!=q&&what.empty()) what=fmt("array iterator sees %d of %d",cnt,q); if(what.empty()) for(int e=0;e<3;e++){ int ix=r.below(q+5); WRValue*p=z->indexArray(c,ix,false); if((p!=0)!=(ix<q)||(p&&p->asInt()!=ix*ix)) what=fmt("indexArray( %d ) of %d",ix,q); }
        z=wr_callFunction(c,"mkhash",&a,1); if(!z){ what="mkhash"; break; } std::map<int,int> seen; for(WRValue::Iterator it=z->begin();it!=z->end();++it){ if(!(*it).key||!(*it).value){ what="hash iterator"; break; } seen[(*it).key->asInt()]=(*it).value->asInt(); } std::map<int,int> want; want[100000]=1; for(int e=0;e<q;e++) want[e*7]=e; if(what.empty()&&seen!=want) what=fmt("hash iterator sees %zu of %zu entries",seen.size(),want.size()); int hl=-1; if(what.empty()&&(!z->isHashTable(&hl)||hl!=(int)want.size())) what=fmt("hash size %d of %zu",hl,want.size()); if(what.empty()) for(int e=0;e<3;e++){ int ix=r.below(q*7+5); WRValue*p=z->indexHash(c,(uint32_t)ix,false); if((p!=0)!=(want.count(ix)!=0)||(p&&p->asInt()!=want[ix])) what=fmt("indexHash( %d )",ix); } g_st.inc("iterations"); break; }
      default: { // the global wrapper, and a container built by the host and used by the script
        int j=r.below(3); WrenchValue wv(c,gn[j]); if(!wv.isValid()||WrenchValue(c,"nosuch").isValid()){ what="WrenchValue"; break; } int q=r.below(4); hist+=fmt("wrap %s %d\n",gn[j],q); if(q==0){ int*p=wv.Int(); if(!p){ what="Int()"; break; } if(G[j].k=='i'&&*p!=G[j].i) what="Int() loses the value"; *p=(int)r.u32(); G[j]=Val::I(*p); } else if(q==1){ float*p=wv.Float(); if(!p){ what="Float()"; break; } if(G[j].k=='f'&&*p!=G[j].f) what="Float() loses the value"; *p=(float)r.range(-500,500)/4.f; G[j]=Val::F(*p); } else if(q==2){ if(G[j].k!='a') G[j]=arr(); int ix=r.below(9); Val v=rnd(r,0); WRValue x=hostVal(c,v); wv[ix]=x; if((int)G[j].c->a.size()<=ix) G[j].c->a.resize(ix+1,Val::I(0)); G[j].c->a[ix]=v; if(wv.arraySize()!=(int)G[j].c->a.size()) what=fmt("arraySize() %d, expected %zu",wv.arraySize(),G[j].c->a.size()); } else { if(G[j].k!='h') G[j]=hsh(); for(int e=r.range(1,4);e-->0;){ Val kk=sv(fmt("h%d",r.below(12))); if(G[j].c->h.count(keyHash(kk))){ WRValue*p=wv.getHashTableValue(kk.s->c_str()); if(!p) what="a key that was added is not found"; else is(p,G[j].c->h[keyHash(kk)].second,"a hash member"); } else if(wv.getHashTableValue(kk.s->c_str())) what="a key that was not added is found"; Val v=rnd(r,0); WRValue x=hostVal(c,v); WRValue*p=wv.addHashTableValue(kk.s->c_str()); if(!p){ what="addHashTableValue"; break; } *p=x; G[j].c->h[keyHash(kk)]={kk,v}; } }
        if(what.empty()){ is(call(ge[j],{}),G[j],"a global changed by the host"); is(wr_getGlobalRef(c,gn[j]),G[j],"a global changed by the host"); } g_st.inc("wrapped"); } }
    if(what.empty()&&!hs.bad.empty()) what=hs.bad; }
  if(what.empty()) for(int j=0;j<3;j++) is(call(ge[j],{}),G[j],gn[j]);
  if(what.empty()){ WRValue*p=wr_getGlobalRef(c2?c2:c,"a_global_with_quite_a_long_name_indeed"); is(p,Val::I(5),"an untouched global"); }
  g_rec.t=0; wr_destroyState(w); wr_free(o); g_st.seen(hashStr64(hist)); if(g_st.samples.size()<2) g_st.sample(hist.substr(0,300)); (void)ff;
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear(); if(!what.empty()) violation("host",what,hist); }
// containers made by the host and kept by the program: what scripts store in their members, and the numbers in
// host values behind members, stay readable through any number of collections
static void boxCase(Rng&r,long){
  size_t live0=g_am.live.size(); Str what,hist; WRState*w=wr_newState(200); wr_loadAllLibs(w); int gch=r.pick(Vec<int>{0,0,200,3000}); wr_setAllocatedMemoryGCHint(w,gch);
  Str src="var g;\nvar h;\nfunction holdg( c ) { g = c; return 0; }\nfunction holdh( c ) { h = c; return 0; }\nfunction mk( n ) { if( n % 3 == 0 ) { return str::format( \"s-%d\", n ); } if( n % 3 == 1 ) { return { n, str::format( \"e%d\", n ), { n + 1 } }; } return n; }\nfunction churn( n ) { var q = 0; for( var i = 0; i < n; ++i ) { q = { i, str::concat( \"ab\", \"cd\" ), { i } }; } return q[2][0]; }\n";
  for(const char*b:{"g","h"}) for(const char*m:{"i0","i1","v0","v1"}) src+=fmt("function set_%s_%s( n ) { %s.%s = %s; return 0; }\nfunction get_%s_%s() { return %s.%s; }\n",b,m,b,m,m[0]=='v'?"n":"mk( n )",b,m,b,m);
  unsigned char*o; int l; Str m; if(compileSrc(src,&o,&l,WR_INCLUDE_GLOBALS,&m)){ violation("box.gen",m,src); wr_destroyState(w); return; }
  WRContext*c=wr_run(w,o,l,true); const char*bn[2]={"g","h"}; const char*mn[4]={"i0","i1","v0","v1"}; WRValue box[2]; WRValue hv[2][2]; Str M[2][4];
  auto mkS=[&](int n)->Str{ if(n%3==0) return fmt("s:s-%d",n); if(n%3==1) return fmt("[i:%d,s:e%d,[i:%d]]",n,n,n+1); return fmt("i:%d",n); };
  auto make=[&](int b){ wr_makeContainer(&box[b],r.pick(Vec<int>{0,3,20})); for(int k=0;k<2;k++){ int v=r.below(1000); wr_addIntToContainer(&box[b],mn[k],v); M[b][k]=fmt("i:%d",v); v=r.below(1000); wr_makeInt(&hv[b][k],v); wr_addValueToContainer(&box[b],mn[2+k],&hv[b][k]); M[b][2+k]=fmt("i:%d",v); } wr_callFunction(c,b?"holdh":"holdg",&box[b],1); };
  if(!c){ violation("box.gen","load failed",src); wr_destroyState(w); return; } make(0); make(1); int n=r.range(8,50);
  for(int st=0;st<n&&what.empty();st++){ int b=r.below(2),k=r.below(4); switch(r.below(9)){
    case 0: case 1: case 2: { int v=r.below(3000); WRValue a(v); hist+=fmt("%s.%s = mk(%d)\n",bn[b],mn[k],v); WRValue*q=wr_callFunction(c,fmt("set_%s_%s",bn[b],mn[k]).c_str(),&a,1); if(!q||wr_getLastError(w)) what="set failed"; M[b][k]=k>=2?fmt("i:%d",v):mkS(v); g_st.inc("stores"); break; }
    case 3: case 4: { int v=r.range(1,30); WRValue a(v); hist+=fmt("churn(%d)\n",v); WRValue*q=wr_callFunction(c,"churn",&a,1); if(!q||showVal(*q)!=fmt("i:%d",v-1)) what="churn gives a wrong value"; g_st.inc("collections"); break; }
    case 5: if(r.chance(25)){ hist+=fmt("replace %s\n",bn[b]); WRValue z(0); wr_callFunction(c,b?"holdh":"holdg",&z,1); if(r.chance(50)){ WRValue a(3); wr_callFunction(c,"churn",&a,1); } wr_destroyContainer(&box[b]); make(b); g_st.inc("replaced"); } break;
    case 6: { hist+=fmt("host reads %s.%s\n",bn[b],mn[k]); WRValue*q=wr_getValueFromContainer(box[b],mn[k]); Str t=q?showVal(*q):Str("nothing"); if(t!=M[b][k]) what=fmt("the host reads %s.%s as ",bn[b],mn[k])+t+", stored "+M[b][k]; if(k>=2&&what.empty()){ t=showVal(hv[b][k-2]); if(t!=M[b][k]) what="the host value is "+t+", stored "+M[b][k]; } g_st.inc("host_reads"); break; }
    case 7: { hist+=fmt("host iterates %s\n",bn[b]); std::map<Str,Str> seen,want; for(int q=0;q<4;q++) want[Str("s:")+mn[q]]=M[b][q]; for(WRValue::Iterator it=box[b].begin();it!=box[b].end();++it) seen[(*it).key?showVal(*(*it).key):Str("?")]+=(*it).value?showVal(*(*it).value)+((*it).value->isInt()||(*it).value->isString()||(*it).value->isWrenchArray()?"":"(of no kind)"):Str("nothing"); for(auto&q:want) if(what.empty()&&seen[q.first]!=q.second) what="the iterator over "+Str(bn[b])+" sees "+q.first+" as "+seen[q.first]+", stored "+q.second; if(what.empty()&&seen.size()!=want.size()) what="the iterator sees other keys"; g_st.inc("host_iterations"); break; }
    default: { hist+=fmt("%s.%s\n",bn[b],mn[k]); WRValue*q=wr_callFunction(c,fmt("get_%s_%s",bn[b],mn[k]).c_str()); Str t=q?showVal(*q):Str("nothing"); if(t!=M[b][k]) what=fmt("%s.%s is ",bn[b],mn[k])+t+", stored "+M[b][k]; g_st.inc("script_reads"); } } }
  for(int b=0;b<2&&what.empty();b++) for(int k=0;k<4&&what.empty();k++){ WRValue*q=wr_callFunction(c,fmt("get_%s_%s",bn[b],mn[k]).c_str()); Str t=q?showVal(*q):Str("nothing"); if(t!=M[b][k]) what=fmt("%s.%s is ",bn[b],mn[k])+t+", stored "+M[b][k]; }
  wr_destroyState(w); wr_destroyContainer(&box[0]); wr_destroyContainer(&box[1]); g_st.seen(hashStr64(hist)); if(g_st.samples.size()<2) g_st.sample(hist.substr(0,300));
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear(); if(!what.empty()) violation("box",what,fmt("gc hint %d\n",gch)+hist); }
int main(int n,char**v){ g_modes["host"]=hostCase; g_modes["box"]=boxCase; return harnessMain(n,v); }
