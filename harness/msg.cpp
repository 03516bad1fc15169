// P18: messages. Several programs in one state write, read, test and clear messages in random order,
// from their own text and through host calls, while programs are loaded and destroyed and garbage is
// collected; every answer is compared with a map keyed by the hash of the key.
#include "langlib.h"
static const char* PROG="var base = 100;\nvar keep = { 1, 2, 3 };\nfunction w( k, v ) { msg::write( k, v ); return 0; }\nfunction rd( k ) { return msg::read( k ); }\nfunction rd0( k ) { return msg::read( k, false ); }\nfunction rdc( k ) { return msg::read( k, 1 ); }\nfunction cl( k ) { msg::clear( k ); return 0; }\nfunction pk( k ) { return msg::peek( k ); }\nfunction fn( x ) { keep = { x, x + 1, str::concat( \"a\", \"b\" ) }; return id( x ) + base + nsum( 1, 2 ) + keep[1]; }\nfunction churn( n ) { for( var i = 0; i < n; ++i ) { msg::write( i * 7919, i ); } var s = 0; for( var j = 0; j < n; ++j ) { s = s + msg::read( j * 7919, 1 ); } return s; }\n";
struct Key { Str lit; Val v; uint32_t h; };
static uint32_t valHash(const Val&v){ if(v.k=='s') return wr_hash(v.s->data(),(int)v.s->size()); uint32_t u; if(v.k=='f') memcpy(&u,&v.f,4); else u=(uint32_t)v.i; return u; }
static WRValue hostVal(WRContext*c,const Val&v){ WRValue r; if(v.k=='i') wr_makeInt(&r,v.i); else if(v.k=='f') wr_makeFloat(&r,v.f); else wr_makeString(c,&r,v.s->data(),(int)v.s->size()); return r; }
static Val SR(const Str&s){ Val v; v.k='s'; v.s=std::make_shared<Str>(s); return v; }
static Val rndV(Rng&r){ switch(r.below(4)){ case 0: return Val::I(r.range(-5,300)); case 1: return Val::I((int)r.u32()&0x7fffffff); case 2: return Val::F((float)r.range(-4000,4000)/8.f); default: { Str s; int n=r.below(12); while(n--) s+=(char)r.range(97,122); return SR(s); } } }
static Str litV(const Val&v){ if(v.k=='s') return "\""+*v.s+"\""; if(v.k=='f') return v.f<0?fmt("(%.4f)",v.f):fmt("%.4f",v.f); return v.i<0?fmt("(%d)",v.i):fmt("%d",v.i); }
static void msgCase(Rng&r,long){
  size_t live0=g_am.live.size(); Vec<Str> tr; g_rec.t=&tr; Str what, hist; WRState*w=wr_newState(r.pick(Vec<int>{100,400})); wr_loadAllLibs(w); wr_registerFunction(w,"log",nat_log,0); wr_registerFunction(w,"id",nat_id,0); wr_registerFunction(w,"nsum",nat_sum,0); if(r.chance(50)) wr_setAllocatedMemoryGCHint(w,r.pick(Vec<int>{0,100,1000}));
  unsigned char*o; int l; Str m; if(compileSrc(PROG,&o,&l,WR_INCLUDE_GLOBALS,&m)){ violation("msg.gen",m,PROG); wr_destroyState(w); return; }
  std::map<uint32_t,uint32_t> M; Vec<Val> keys; Vec<Val> names={SR("log"),SR("id"),SR("nsum"),SR("w"),SR("rd"),SR("base"),SR("fn"),SR("msg::write"),SR("msg::read"),SR("str::concat"),SR("msg::peek")}; int nk=r.range(1,r.chance(80)?12:200); for(int i=0;i<nk;i++) keys.push_back(r.chance(20)?r.pick(names):rndV(r)); Vec<Vec<unsigned char*>> owned; Vec<WRContext*> cx; Vec<unsigned char*> blocks;
  auto load=[&]{ WRContext*x=wr_run(w,o,l,false); if(!x||wr_getLastError(w)) what=fmt("loading a program ends with error %d",wr_getLastError(w)); else cx.push_back(x); }; load();
  int n=r.range(10,r.chance(80)?80:400); for(int i=0;i<n&&what.empty();i++){
    int k=r.below(20); if(k==0&&cx.size()<5){ load(); hist+="load\n"; continue; } if(k==1&&cx.size()>1){ int q=r.below((int)cx.size()); wr_destroyContext(cx[q]); cx.erase(cx.begin()+q); hist+="destroy\n"; continue; }
    Val key=keys[r.below((int)keys.size())]; uint32_t h=valHash(key); if(h==0xABABABABu) continue; Val v=rndV(r); uint32_t vh=valHash(v); auto has=M.count(h); Val want=Val::I(0); Str f; bool two=false;
    if(k==2){ // a program that does several operations in its own text
      Str s; Vec<Str> exp; int q=r.range(1,12); for(int j=0;j<q;j++){ Val kk=keys[r.below((int)keys.size())], vv=rndV(r); uint32_t hh=valHash(kk); if(hh==0xABABABABu) continue; Str K=litV(kk); if(r.chance(40)){ s+=fmt("var k%d = ",j)+K+";\n"; K=fmt("k%d",j); } switch(r.below(5)){ case 0: case 1: s+="msg::write( "+K+", "+litV(vv)+" );\n"; M[hh]=valHash(vv); break; case 2: s+="log( msg::read( "+K+" ) );\n"; exp.push_back(fmt("i:%d",M.count(hh)?(int)M[hh]:0)); break; case 3: s+="log( msg::read( "+K+r.pick(Vec<Str>{", true",", 1",", 2",", -1",", 256"})+" ) );\n"; exp.push_back(fmt("i:%d",M.count(hh)?(int)M[hh]:0)); M.erase(hh); break; default: s+="log( msg::peek( "+K+" ) );\n"; exp.push_back(fmt("i:%d",M.count(hh)?1:0)); } g_st.inc("operations"); }
      unsigned char*b; int bl; if(compileSrc(s,&b,&bl,WR_INCLUDE_GLOBALS,&m)){ what="generated program does not compile: "+m; hist+=s; break; } tr.clear(); WRContext*x=wr_run(w,b,bl,true); hist+="{\n"+s+"}\n"; if(!x||wr_getLastError(w)) what=fmt("error %d",wr_getLastError(w)); else if(tr!=exp) what=diffTrace(exp,tr); if(x&&r.chance(70)) wr_destroyContext(x); g_st.inc("answers",exp.size()); continue; }
    if(k==3){ int x=r.range(-100,100); WRContext*c=cx[r.below((int)cx.size())]; WRValue a(x); WRValue*q=wr_callFunction(c,"fn",&a,1); hist+=fmt("fn %d\n",x); if(!q||wr_getLastError(w)||showVal(*q)!=fmt("i:%d",x+100+3+x+1)) what=fmt("functions of the state are disturbed: fn gives %s, error %d",q?showVal(*q).c_str():"nothing",wr_getLastError(w)); g_st.inc("function_probes"); continue; }
    if(k==4){ int q=r.range(1,60); bool clash=false; for(int j=0;j<q;j++) if(M.count((uint32_t)(j*7919))) clash=true; if(clash) continue; WRContext*c=cx[r.below((int)cx.size())]; WRValue a(q); WRValue*z=wr_callFunction(c,"churn",&a,1); hist+=fmt("churn %d\n",q); if(!z||wr_getLastError(w)||showVal(*z)!=fmt("i:%d",q*(q-1)/2)) what=fmt("churn %d gives %s",q,z?showVal(*z).c_str():"nothing"); g_st.inc("operations",q*2); continue; }
    if(k<10){ f="w"; two=true; M[h]=vh; } else if(k<13){ f=r.chance(50)?"rd":"rd0"; if(has) want=Val::I((int)M[h]); } else if(k<15){ f="rdc"; if(has) want=Val::I((int)M[h]); M.erase(h); } else if(k<17){ f="pk"; want=Val::I(has?1:0); } else { f="cl"; M.erase(h); }
    WRContext*c=cx[r.below((int)cx.size())]; WRValue a[2]; a[0]=hostVal(c,key); if(two) a[1]=hostVal(c,v); WRValue*q=wr_callFunction(c,f.c_str(),a,two?2:1); hist+=f+" "+show(key)+(two?" "+show(v):Str())+"\n"; g_st.inc("operations"); g_st.inc("answers"); g_st.inc("op."+f);
    if(!q||wr_getLastError(w)) what=fmt("%s ends with error %d",f.c_str(),wr_getLastError(w)); else if(showVal(*q)!=show(want)) what=f+" "+show(key)+" answers "+showVal(*q)+", expected "+show(want); }
  // everything left is still there
  if(what.empty()) for(auto&k:keys){ uint32_t h=valHash(k); if(h==0xABABABABu) continue; WRContext*c=cx[0]; WRValue a=hostVal(c,k); WRValue*q=wr_callFunction(c,"rd",&a,1); Str e=fmt("i:%d",M.count(h)?(int)M[h]:0); if(!q||showVal(*q)!=e){ what="at the end "+show(k)+" is "+(q?showVal(*q):Str("nothing"))+", expected "+e; break; } }
  wr_destroyState(w); wr_free(o); g_rec.t=0; g_st.seen(hashStr64(hist)); g_st.inc("histories"); if(g_st.samples.size()<2) g_st.sample(hist);
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(!what.empty()) violation("message",what,hist); }
int main(int n,char**v){ g_modes["msg"]=msgCase; return harnessMain(n,v); }
