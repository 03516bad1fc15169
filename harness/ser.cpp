// P14: serialization. rt: values of every shape are built by a program, serialized by the program and by
// the host, and read back in the same program, another program and another state; the copies must be equal
// to a model, independent of the original, and ordinary containers (count, lookup, iteration, insertion,
// removal, surviving garbage collection). hostile: damaged and made-up bytes must be refused or give a value
// that can be shown, used, stored and serialized again, with nothing read outside the buffer (ASan).
#include "langlib.h"
static Str dump(const WRValue&v0,int depth=0){ const WRValue v=v0.deref(); int len=0; if(v.type==WR_INT||v.type==WR_FLOAT||v.isString(&len)||depth>8) return showVal(v,depth);
  if(v.isWrenchArray(&len)){ Str o="["; bool first=true; for(WRValue::Iterator it=v.begin();it!=v.end();++it){ if(!first)o+=","; first=false; o+=(*it).value?dump(*(*it).value,depth+1):Str("?"); } return o+"]"; }
  if(v.isHashTable()){ Vec<Str> e; for(WRValue::Iterator it=v.begin();it!=v.end();++it){ Str k="?"; if((*it).key){ const WRValue d=(*it).key->deref(); k=d.isWrenchArray(&len)||d.isHashTable()?Str("*"):showKey(d); } e.push_back(k+"="+((*it).value?dump(*(*it).value,depth+1):Str("?"))); } std::sort(e.begin(),e.end()); Str o="{"; for(size_t i=0;i<e.size();++i){ if(i)o+=","; o+=e[i]; } return o+"}"; }
  return "other"; }
static void nat_dump(WRContext*,const WRValue*a,const int n,WRValue&,void*){ Str o; for(int i=0;i<n;i++){ if(i)o+=" "; o+=dump(a[i]); } if(g_rec.t) g_rec.t->push_back(o); }
static Val arr(){ Val v; v.k='a'; v.c=std::make_shared<Cont>(); v.c->kind='a'; return v; }
static Val hsh(){ Val v; v.k='h'; v.c=std::make_shared<Cont>(); v.c->kind='h'; return v; }
static Str lit(const Val&v){ switch(v.k){ case 'i': return v.i==INT32_MIN?Str("(0-2147483647-1)"):v.i<0?fmt("(%d)",v.i):fmt("%d",v.i); case 'f': return v.f<0?fmt("(%.4f)",v.f):fmt("%.4f",v.f); default: { Str o="\""; for(unsigned char c:*v.s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else o+=c; } return o+"\""; } } }
static Val scalar(Rng&r){ switch(r.below(7)){ case 0: return Val::I(r.range(-5,300)); case 1: return Val::I((int)r.u32()); case 2: return Val::I(r.pick(Vec<int>{0,-1,127,128,255,256,-128,-129,65535,65536,32767,-32768,INT32_MAX,INT32_MIN+1})); case 3: return Val::F((float)r.range(-4000,4000)/8.f); case 4: return Val::F((float)r.range(-100000000,100000000)); default: { Str s; int n=r.chance(90)?r.below(20):r.below(700); while(n--) s+=(char)(r.chance(85)?r.range(32,126):r.range(160,255)); return Val::S(s); } } }
static Val keyOf(Rng&r){ switch(r.below(6)){ case 0: return Val::I(r.below(12)); case 1: return Val::I((int)(r.u32()&0x3fffffff)); case 2: return Val::S(fmt("k%d",r.below(30))); case 3: return Val::S(r.pick(Vec<Str>{"","name","a longer key","x y"})); case 4: return Val::I(r.range(-30,3000)); default: return Val::I(r.pick(Vec<int>{3,7,14,31,62,127,254,1021,65521})); } }
struct Build { Rng&r; Str body; int n=0; Build(Rng&q):r(q){}
  Str make(Val&out,int d,int&budget){ budget--; if(d<=0||budget<0||r.chance(35)){ out=scalar(r); return lit(out); }
    Str t=fmt("t%d",n++); if(n>200){ out=scalar(r); return lit(out); }
    if(r.chance(50)){ out=arr(); int k=r.chance(90)?r.below(6):r.range(5,40); Vec<Str> x; for(int i=0;i<k;i++){ Val e; x.push_back(make(e,d-1,budget)); out.c->a.push_back(e); }
      if(!k||r.chance(30)){ body+=fmt("var %s[%d];\n",t.c_str(),k); for(int i=0;i<k;i++) body+=fmt("list::pop_back( %s );\n",t.c_str()); for(int i=0;i<k;i++) body+="list::push_back( "+t+", "+x[i]+" );\n"; } else { body+="var "+t+" = { "; for(int i=0;i<k;i++) body+=(i?", ":"")+x[i]; body+=" };\n"; } }
    else { out=hsh(); body+="var "+t+" = { 1 : 0 };\nhash::remove( "+t+", 1 );\n"; int k=r.chance(85)?r.below(6):r.range(5,60); for(int i=0;i<k;i++){ Val key=keyOf(r), e; Str x=make(e,d-1,budget); body+=(r.chance(50)?t+"["+lit(key)+"] = "+(x.size()&&x[0]=='{'?Str("0"):x)+";\n":"hash::add( "+t+", "+x+", "+lit(key)+" );\n"); out.c->h[keyHash(key)]={key,e}; if(r.chance(10)){ Val kk=keyOf(r); body+="hash::remove( "+t+", "+lit(kk)+" );\n"; out.c->h.erase(keyHash(kk)); } } }
    return t; } };
static Val deep(const Val&v){ if(v.k=='a'){ Val o=arr(); for(auto&x:v.c->a) o.c->a.push_back(deep(x)); return o; } if(v.k=='h'){ Val o=hsh(); for(auto&x:v.c->h) o.c->h[x.first]={x.second.first,deep(x.second.second)}; return o; } return v; }
static const char* LIB="var keep = 0;\nvar other = 0;\nfunction churn() { var q = 0; for( var i = 0; i < 12; ++i ) { q = { i, str::concat( \"ab\", \"cd\" ), q[1] }; } return 0; }\nfunction use( v ) { keep = v; churn(); log( keep ); return 0; }\nfunction again() { churn(); log( keep ); return 0; }\nfunction use2( v ) { log( v ); other = v; var s = std::serialize( v ); churn(); var d = std::deserialize( s ); churn(); log( d ); log( std::serialize( d ) == s ); keep = 0; churn(); log( other ); log( d ); return s; }\nfunction de( s ) { var d = std::deserialize( s ); churn(); log( d ); return 0; }\nfunction probe( x ) { return x * 2 + 1; }\nfunction poke( v ) { v[12] = 77; v[\"zz\"] = 78; var pp = { 1, 2 }; v[1] = pp; log( v[12] ); var c = v._count; for( var e : v ) { c = c + 1; } hash::remove( v, 12 ); hash::add( v, 5, 99 ); churn(); return 0; }\n";
struct World { WRState*w; WRContext*c; unsigned char*o; Vec<Str> t; };
static bool g_huge=false;
static bool open(World&W,const Str&src,Rng&r,Str&what){ W.w=wr_newState(400); W.o=0; W.c=0; wr_loadAllLibs(W.w); wr_registerFunction(W.w,"log",nat_dump,0); if(!g_huge&&r.chance(60)) wr_setAllocatedMemoryGCHint(W.w,r.pick(Vec<int>{0,0,300})); int l; Str m; if(compileSrc(src,&W.o,&l,WR_INCLUDE_GLOBALS,&m)){ what="does not compile: "+m; return false; } g_rec.t=&W.t; W.c=wr_run(W.w,W.o,l,false); if(!W.c||wr_getLastError(W.w)){ what=fmt("error %d",wr_getLastError(W.w)); return false; } return true; }
static void close(World&W){ wr_destroyState(W.w); if(W.o) wr_free(W.o); }
static bool deser(WRContext*c,WRValue&v,const Str&b){ char*p=(char*)malloc(b.size()?b.size():1); memcpy(p,b.data(),b.size()); bool ok=wr_deserialize(c,v,p,(int)b.size()); free(p); return ok; }
static bool hostSer(const WRValue&v,Str&out){ char*b=0; int n=0; if(!wr_serialize(&b,&n,v)) return false; out.assign(b,n); wr_free(b); return true; }
static int topKeys(const Val&v,Rng&r,Val&k){ if(v.k!='h'||v.c->h.empty()) return 0; auto i=v.c->h.begin(); std::advance(i,r.below((int)v.c->h.size())); k=i->second.first; return 1; }
static size_t biggest(const Val&v){ size_t m=v.k=='s'?v.s->size():0; if(v.k=='a'){ m=v.c->a.size(); for(auto&x:v.c->a) m=std::max(m,biggest(x)); } if(v.k=='h') for(auto&x:v.c->h) m=std::max(m,biggest(x.second.second)); return m; }
static void rtCase(Rng&r,long){ g_huge=false;
  size_t live0=g_am.live.size(); Str what; Build b(r); Val v; int budget=r.range(3,60); Str x;
  do { b.body=""; b.n=0; x=b.make(v,r.range(1,5),budget); } while(0);
  if(v.k!='a'&&v.k!='h'&&r.chance(70)){ Val a=arr(); a.c->a.push_back(v); v=a; b.body+="var tt = { "+x+" };\n"; x="tt"; }
  bool big=false; if(r.chance(2)){ int n=r.range(300,5000); g_huge=n>1000; if(VP_ASAN) n=n%900+20; else if(r.chance(25)){ n=r.pick(Vec<int>{65535,65536,70000,65534}); g_huge=true; } Val a; if(r.chance(40)){ a=arr(); b.body+=fmt("var tb[%d];\nfor( var bi = 0; bi < %d; ++bi ) { tb[bi] = bi * 3; }\n",n,n); for(int i=0;i<n;i++) a.c->a.push_back(Val::I(i*3)); } else if(r.chance(50)&&n<6000){ a=hsh(); b.body+=fmt("var tb = { 0 : 0 };\nfor( var bi = 0; bi < %d; ++bi ) { tb[bi * 3] = bi; }\n",n); for(int i=0;i<n;i++){ Val k=Val::I(i*3); a.c->h[keyHash(k)]={k,Val::I(i)}; } } else { Str s; int c=n; s.assign(c,'q'); b.body+=fmt("var tb = \"\";\nvar t1k = \"\";\nfor( var bi = 0; bi < 1000; ++bi ) { t1k += \"q\"; }\nfor( bi = 0; bi < %d; ++bi ) { tb += t1k; }\nfor( bi = 0; bi < %d; ++bi ) { tb += \"q\"; }\n",n/1000,n%1000); a.k='s'; a.s=std::make_shared<Str>(s); } Val o=arr(); o.c->a.push_back(a); o.c->a.push_back(v); b.body+="var tv = { tb, "+x+", 5 };\n"; o.c->a.push_back(Val::I(5)); v=o; x="tv"; big=true; }
  bool over=biggest(v)>65535; Vec<Str> exp; Str body=b.body+"var g = "+x+";\nvar s = std::serialize( g );\n"; Str shown=show(v);
  Val d=deep(v); bool self=!over;
  if(self){ body+="var d = std::deserialize( s );\nchurn();\nlog( d );\nlog( g );\n"; exp.push_back(shown); exp.push_back(shown);
    auto cnt=[&](const Str&n,const Val&q){ if(q.k=='a'){ body+="log( "+n+"._count );\n"; exp.push_back(fmt("i:%zu",q.c->a.size())); } if(q.k=='h'){ body+="log( "+n+"._count );\nlog( hash::count( "+n+" ) );\n"; exp.push_back(fmt("i:%zu",q.c->h.size())); exp.push_back(exp.back()); } };
    cnt("d",d); // walk into the copy and change it in places; the original must not move
    for(int q=big?r.below(3):r.range(0,12);q-->0;){ Val*cur=&d; Str path="d"; int dep=r.range(0,3); while(dep-->0){ if(cur->k=='a'&&!cur->c->a.empty()){ int i=r.below((int)cur->c->a.size()); Val*nx=&cur->c->a[i]; if(nx->k!='a'&&nx->k!='h') break; path+=fmt("[%d]",i); cur=nx; } else if(cur->k=='h'){ Val k; if(!topKeys(*cur,r,k)) break; Val*nx=&cur->c->h[keyHash(k)].second; if(nx->k!='a'&&nx->k!='h') break; path+="["+lit(k)+"]"; cur=nx; } else break; }
      if(cur->k!='a'&&cur->k!='h') continue; body+="var m = "+path+";\n"; path="m"; cnt("m",*cur); Val s=scalar(r); g_st.inc("mutations");
      if(cur->k=='a'){ if(r.chance(50)||cur->c->a.empty()){ body+="list::push_back( m, "+lit(s)+" );\n"; cur->c->a.push_back(s); } else { int i=r.below((int)cur->c->a.size()); body+=fmt("m[%d] = ",i)+lit(s)+";\n"; cur->c->a[i]=s; } }
      else switch(r.below(3)){ case 0: { Val k=keyOf(r); body+="m["+lit(k)+"] = "+lit(s)+";\n"; cur->c->h[keyHash(k)]={k,s}; break; } case 1: { Val k; if(!topKeys(*cur,r,k)) break; body+="log( hash::exists( m, "+lit(k)+" ) );\nlog( m["+lit(k)+"] );\nlog( hash::remove( m, "+lit(k)+" ) );\n"; exp.push_back("i:1"); exp.push_back(show(cur->c->h[keyHash(k)].second)); exp.push_back("i:1"); cur->c->h.erase(keyHash(k)); break; }
        default: { Val k=keyOf(r); Val e=cur->c->h.count(keyHash(k))?Val::I(1):Val::I(0); body+="log( hash::exists( m, "+lit(k)+" ) );\n"; exp.push_back(show(e)); } }
      cnt("m",*cur); body+="log( d );\n"; exp.push_back(show(d)); if(r.chance(40)){ body+="log( g );\n"; exp.push_back(shown); } }
    // keys and values come back in iteration
    if(v.k=='h'&&v.c->h.size()<80){ body+="var e = std::deserialize( s );\nlog( \"<keys>\" );\nfor( var kk, var vv : e ) { log( kk, vv ); }\nlog( \"<end>\" );\n"; Vec<Str> es; for(auto&q:v.c->h) es.push_back(show(q.second.first)+" "+show(q.second.second)); std::sort(es.begin(),es.end()); exp.push_back("s:<keys>"); for(auto&q:es) exp.push_back(q); exp.push_back("s:<end>"); } }
  Str src=Str(LIB)+body; World A; if(!open(A,src,r,what)){ violation("ser.run",what,src); close(A); g_rec.t=0; return; }
  Vec<Str>&t=A.t; { size_t i=0; while(i<t.size()&&t[i]!="s:<keys>") i++; size_t j=i; while(j<t.size()&&t[j]!="s:<end>") j++; if(j<t.size()) std::sort(t.begin()+i+1,t.begin()+j); }
  if(t!=exp) what=diffTrace(exp,t); g_st.inc("events",t.size()); t.clear();
  if(what.empty()){ WRValue*g=wr_getGlobalRef(A.c,"g"), *s=wr_getGlobalRef(A.c,"s"); Str bytes; bool ok=hostSer(*g,bytes); bool sok=s->isString(); Str sb; if(sok){ unsigned l=0; void*p=s->array(&l,SV_CHAR); sb.assign((char*)p,l); }
    if(ok!=sok) what=fmt("host serialization %s, script serialization %s",ok?"succeeds":"fails",sok?"succeeds":"fails"); else if(!ok&&!over) what="serialization fails"; else if(ok&&bytes!=sb) what="host and script bytes differ"; else if(!ok) g_st.inc("refused_large");
    if(what.empty()&&ok){ g_st.inc("round_trips"); World B; if(!open(B,LIB,r,what)){ violation("ser.gen",what,LIB); close(A); close(B); g_rec.t=0; return; }
      int ways=0; for(WRContext*c:{A.c,B.c}){ World&W=c==A.c?A:B; g_rec.t=&W.t; W.t.clear(); WRValue nv; nv.init(); if(!deser(c,nv,bytes)){ what="the bytes are refused"; break; } Str sh=showVal(nv); if(sh!=shown){ what="read back as "+sh; break; }
        if(!wr_callFunction(c,"use",&nv,1)||wr_getLastError(W.w)){ what=fmt("using the copy: error %d",wr_getLastError(W.w)); break; } if(c==B.c){ // the original disappears
          for(int q=0;q<3;q++) wr_callFunction(c,"again"); }
        for(auto&q:W.t) if(q!=shown){ what="the copy becomes "+q; break; } if(!what.empty()) break; ways++; g_st.inc("events",W.t.size()); }
      if(what.empty()){ bytes.resize(bytes.size()?bytes.size():0); Str cut=bytes.substr(0,r.below((int)bytes.size())); WRValue nv; nv.init(); g_rec.t=&B.t; if(deser(B.c,nv,cut)) what=fmt("accepts the first %zu of %zu bytes as %s",cut.size(),bytes.size(),showVal(nv).c_str()); g_st.inc("truncations"); }
      close(B); } }
  close(A); g_rec.t=0; g_st.seen(hashStr64(shown)); if(big) g_st.inc("large"); if(g_st.samples.size()<2) g_st.sample(shown.substr(0,200));
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(!what.empty()) violation("roundtrip",what,src); }
static void refuseCase(Rng&r,long){ g_huge=false; // values that cannot be represented are refused as a whole, wherever they sit
  size_t live0=g_am.live.size(); Str what; Str src="struct P { var a = 1; var b = 2; };\nvar p = new P;\n"; Str in=r.pick(Vec<Str>{"p","p","p"}); int d=r.below(4); Str e=in; for(int i=0;i<d;i++){ Str t=fmt("q%d",i); if(r.chance(50)) src+="var "+t+" = { 1, "+e+", 2 };\n"; else src+="var "+t+" = { 1 : 2, 3 : "+e+", \"z\" : 4 };\n"; e=t; } src+="var g = "+e+";\nvar s = std::serialize( g );\nvar d = std::deserialize( s );\nlog( d == 0 );\n";
  World A; if(!open(A,src,r,what)){ violation("ser.refuse",what,src); close(A); g_rec.t=0; return; } Str b; WRValue*g=wr_getGlobalRef(A.c,"g"); if(hostSer(*g,b)){ what="a value holding a structure is serialized"; } close(A); g_rec.t=0; g_st.inc("refused_other"); g_st.seen(hashStr64(src));
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(!what.empty()) violation("refuse",what,src); }
static void put16(Str&s,int v){ s+=(char)(v&255); s+=(char)(v>>8&255); }
static Str hostileBytes(Rng&r,int d){ Str s; switch(r.below(d>0?9:4)){ case 0: s+=(char)WR_INT; for(int i=0;i<4;i++) s+=(char)r.below(256); return s; case 1: s+=(char)WR_FLOAT; for(int i=0;i<4;i++) s+=(char)r.below(256); return s; case 2: { s+=(char)WR_EX; s+=(char)WR_EX_ARRAY; s+=(char)SV_CHAR; int n=r.below(12); put16(s,r.chance(85)?n:r.below(65536)); while(n--) s+=(char)r.below(256); return s; } case 3: s+=(char)r.below(256); if(r.chance(50)) s+=(char)r.below(256); return s;
    case 4: case 5: { s+=(char)WR_EX; s+=(char)WR_EX_ARRAY; s+=(char)(r.chance(90)?(int)SV_VALUE:r.below(256)); int n=r.below(5); put16(s,r.chance(85)?n:r.pick(Vec<int>{n+1,65535,256,r.below(65536)})); for(int i=0;i<n;i++) s+=hostileBytes(r,d-1); return s; }
    default: { s+=(char)WR_EX; s+=(char)(r.chance(95)?(int)WR_EX_HASH_TABLE:r.below(256)); int n=r.pick(Vec<int>{2,3,5,7,11,13,17,23,31,0,1,4,6,r.below(100),r.below(400)}); put16(s,r.chance(93)?n:r.pick(Vec<int>{65521,65535,65522,32768,r.below(65536)})); int p=r.range(1,100); for(int i=0;i<n&&i<60;i++) if(r.chance(p)){ s+=(char)r.pick(Vec<int>{1,1,1,2,255}); s+=hostileBytes(r,d-1); if(r.chance(70)){ s+=(char)WR_INT; int k=r.chance(50)?r.below(20):r.chance(90)?(int)r.u32():(int)0xABABABAB; for(int q=0;q<4;q++) s+=(char)(k>>(8*q)); } else s+=hostileBytes(r,d-1); } else s+=(char)0; return s; } } }
static void hostileCase(Rng&r,long){
  size_t live0=g_am.live.size(); Str what; World W; Str base; Build b(r); Val v; int budget=r.range(3,30); Str x; bool made=r.chance(55); Str src=LIB; if(!made){ x=b.make(v,r.range(1,4),budget); src+=b.body+"var g = "+x+";\n"; } if(!open(W,src,r,what)){ violation("ser.gen",what,src); close(W); g_rec.t=0; return; }
  if(!made){ WRValue*g=wr_getGlobalRef(W.c,"g"); hostSer(*g,base); }
  int rounds=r.range(4,14); for(int i=0;i<rounds&&what.empty();i++){ Str s=made?hostileBytes(r,r.range(1,4)):base; int mut=made?r.below(2):r.range(1,5); while(mut--&&s.size()) switch(r.below(7)){ case 0: case 1: s[r.below((int)s.size())]=(char)r.below(256); break; case 2: s[r.below((int)s.size())]^=(char)(1<<r.below(8)); break; case 3: s.resize(r.below((int)s.size()+1)); break; case 4: s.insert(r.below((int)s.size()+1),1,(char)r.below(8)); break; case 5: s.erase(r.below((int)s.size()),r.range(1,4)); break; default: { int p=r.below((int)s.size()); s.insert(p,s.substr(r.below((int)s.size()),r.range(1,30))); } }
    W.t.clear(); g_st.inc("inputs"); g_st.seen(hashStr64(s)); WRValue nv; nv.init(); bool ok=deser(W.c,nv,s); Str sh; if(ok){ sh=dump(nv); g_st.inc("accepted"); } else g_st.inc("refused");
    WRValue sv; wr_makeString(W.c,&sv,s.data(),(int)s.size()); // script path must agree; the first value is not kept alive by anything here
    if(!wr_callFunction(W.c,"de",&sv,1)||wr_getLastError(W.w)){ what=fmt("script deserialization: error %d",wr_getLastError(W.w)); break; } if(W.t.size()!=1||W.t[0]!=(ok?sh:Str("i:0"))){ what="the host gets "+(ok?sh:Str("a refusal"))+", the script "+(W.t.size()?W.t[0]:Str("nothing")); break; }
    if(ok){ WRValue n2; n2.init(); if(!deser(W.c,n2,s)||dump(n2)!=sh){ what="a second reading differs"; break; } bool cont=n2.isHashTable(), ar=n2.isWrenchArray(); W.t.clear(); WRValue a=n2; WRValue*q=wr_callFunction(W.c,"use2",&a,1); if(!q||wr_getLastError(W.w)){ what=fmt("using the value: error %d",wr_getLastError(W.w)); break; }
      if(W.t.size()!=5||W.t[0]!=sh||W.t[1]!=sh||W.t[3]!=sh||W.t[4]!=sh){ what="the accepted value "+sh+" does not survive use and a further round trip: "+joinTrace(W.t); break; } g_st.inc("reused");
      if(cont||ar){ WRValue n3; n3.init(); deser(W.c,n3,s); if(!wr_callFunction(W.c,"poke",&n3,1)||wr_getLastError(W.w)){ what=fmt("changing the value: error %d",wr_getLastError(W.w)); break; } } }
    WRValue p(21); WRValue*q=wr_callFunction(W.c,"probe",&p,1); if(!q||showVal(*q)!="i:43"||wr_getLastError(W.w)){ what="the program no longer works"; break; }
    if(!what.empty()) break; base.size(); if(what.empty()&&i+1==rounds) base=s; x=s; }
  close(W); g_rec.t=0; if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear(); if(!what.empty()) violation("hostile",what,esc(x)); }
int main(int n,char**v){ g_modes["rt"]=rtCase; g_modes["refuse"]=refuseCase; g_modes["hostile"]=hostileCase; return harnessMain(n,v); }
