// P13: several programs in one state, some importing others (by host, by script as bytecode or source,
// also from within a module), with equal global, function and struct names. Random calls, global writes,
// resumptions and destructions; every instance has its own model and every answer and every global of
// every living instance is compared with it.
#include "langlib.h"
#include <deque>
struct Inst { int id; int base; int tally; Str keep; bool alive=true; WRContext*c=0; Vec<Inst*> imports; Inst*owner=0; };
static const int NM=6;
static Str modSrc(int id,const Vec<int>&loads,bool bySource,std::map<int,Str>&srcs){ Str s=fmt("var base = %d;\nvar tally = 0;\nvar keep = \"k%d\";\nvar list = { 1, 2, { 3, \"four\" } };\n",id*1000+7,id);
  s+=fmt("function bump( x ) { base = base + x; ++tally; return base; }\nfunction name() { return \"m%d\"; }\nfunction getKeep() { return keep; }\nfunction churn() { var q = 0; for( var i = 0; i < 10; ++i ) { q = { i, str::concat( \"ab\", \"cd\" ), q[1] }; } return list[2][1]; }\nfunction tail( n ) { if( n < 1 ) { return base; } return tail( n - 1 ) + 1; }\n",id);
  s+=fmt("export function m%d_bump( x ) { base = base + x; ++tally; return base * 10 + %d; }\nexport function m%d_get() { return base; }\nexport function m%d_str( s ) { keep = str::concat( s, \"-%d\" ); churn(); return keep; }\nexport function m%d_list( a, b ) { var r = { a, b, { base, keep } }; churn(); return r; }\nexport function m%d_deep( n ) { var l = { n }; if( n < 1 ) { return %d; } return m%d_deep( n - 1 ) + l[0]; }\nexport function m%d_log( a, b ) { log( a, b, base ); }\nstruct T%d( x ) { var a = x; var b = ::base; var c = %d; }\n",id,id,id,id,id,id,id,id,id,id,id,id);
  for(int j=0;j<NM;j++) s+=fmt("function call%d( x ) { return m%d_bump( x ); }\nfunction stmt%d( x ) { m%d_bump( x ); return base; }\nfunction get%d() { return m%d_get(); }\nfunction str%d( s ) { var z = { s, \"p\" }; var y = m%d_str( s ); return str::concat( str::concat( y, z[0] ), z[1] ); }\nfunction list%d( a ) { var z = m%d_list( a, \"b\" ); churn(); return z; }\nfunction deep%d( n ) { return m%d_deep( n ); }\nfunction log%d( a ) { m%d_log( a, keep ); return 1; }\nfunction mk%d( x ) { var s = new T%d( x ); churn(); return { s.a, s.b, s.c }; }\n",j,j,j,j,j,j,j,j,j,j,j,j,j,j,j,j);
  for(int j:loads) if(bySource){ Str q; for(char ch:srcs[j]){ if(ch=='"'||ch=='\\') q+='\\'; if(ch=='\n') q+="\\n"; else q+=ch; } s+="sys::importCompile( \""+q+"\" );\n"; } else s+=fmt("sys::importByteCode( image%d() );\n",j);
  return s; }
static std::map<int,Str>* g_img; // bytecode handed to scripts by a native
template<int J> static void nat_image(WRContext*c,const WRValue*,const int,WRValue&r,void*){ Str&b=(*g_img)[J]; wr_makeString(c,&r,b.data(),(int)b.size()); }
static void ctxCase(Rng&r,long){
  size_t live0=g_am.live.size(); Vec<Str> tr; Str what,hist; WRState*w=wr_newState(r.pick(Vec<int>{200,600})); wr_loadAllLibs(w); wr_registerFunction(w,"log",nat_log,0); if(r.chance(60)) wr_setAllocatedMemoryGCHint(w,r.pick(Vec<int>{0,0,300,2000})); g_rec.t=&tr;
  wr_registerFunction(w,"image0",nat_image<0>,0); wr_registerFunction(w,"image1",nat_image<1>,0); wr_registerFunction(w,"image2",nat_image<2>,0); wr_registerFunction(w,"image3",nat_image<3>,0); wr_registerFunction(w,"image4",nat_image<4>,0); wr_registerFunction(w,"image5",nat_image<5>,0);
  // module j may load modules with larger numbers
  std::map<int,Str> srcs,img; g_img=&img; std::map<int,Vec<int>> loads; Vec<unsigned char*> blocks; bool nested=r.chance(40);
  for(int j=NM-1;j>=0&&what.empty();j--){ if(nested&&j<NM-1&&r.chance(45)){ int n=r.range(1,2); for(int q=0;q<n;q++){ int t=r.range(j+1,NM-1); bool dup=false; for(int e:loads[j]) if(e==t) dup=true; if(!dup) loads[j].push_back(t); } } srcs[j]=modSrc(j,loads[j],loads[j].size()&&r.chance(20)&&srcs[loads[j][0]].size()<6000,srcs); unsigned char*o; int l; Str m; if(compileSrc(srcs[j],&o,&l,WR_INCLUDE_GLOBALS,&m)){ violation("ctx.gen",m,srcs[j]); what="x"; break; } img[j].assign((char*)o,l); wr_free(o); }
  if(!what.empty()){ wr_destroyState(w); g_rec.t=0; return; }
  std::deque<Inst> all; Vec<Inst*> roots;
  std::function<void(Inst*,Inst*)> expand=[&](Inst*i,Inst*root){ for(int t:loads[i->id]){ all.push_back(Inst()); Inst*k=&all.back(); k->id=t; k->base=t*1000+7; k->tally=0; k->keep=fmt("k%d",t); k->owner=root; i->imports.push_back(k); expand(k,root); } };
  auto mk=[&](int id,Inst*root)->Inst*{ all.push_back(Inst()); Inst*i=&all.back(); i->id=id; i->base=id*1000+7; i->tally=0; i->keep=fmt("k%d",id); i->owner=root?root:i; expand(i,i->owner); return i; };
  // what an instance can reach: the newest import of that module, searched in its own imports first
  std::function<Inst*(Inst*,int,bool)> find=[&](Inst*i,int j,bool self)->Inst*{ if(self&&i->id==j) return i; for(size_t q=i->imports.size();q-->0;){ Inst*k=find(i->imports[q],j,true); if(k) return k; } return 0; };
  std::function<int(Inst*,int)> count=[&](Inst*i,int j){ int n=i->id==j; for(auto*k:i->imports) n+=count(k,j); return n; };
  auto load=[&]{ int id=r.below(NM); Inst*i=mk(id,0); unsigned char*b=(unsigned char*)wr_malloc(img[id].size()); memcpy(b,img[id].data(),img[id].size()); bool own=r.chance(50); if(!own) blocks.push_back(b); i->c=wr_run(w,b,(int)img[id].size(),own); hist+=fmt("load m%d\n",id); if(!i->c||wr_getLastError(w)){ what=fmt("loading m%d: error %d",id,wr_getLastError(w)); return; } roots.push_back(i); g_st.inc("loads"); };
  load(); int n=r.range(8,60);
  auto show1=[&](WRContext*c,const char*g){ WRValue*v=wr_getGlobalRef(c,g); return v?showVal(*v):Str("<none>"); };
  auto verify=[&](Inst*i){ if(!i->c) return; Str a=show1(i->c,"base")+" "+show1(i->c,"tally")+" "+show1(i->c,"keep")+" "+show1(i->c,"list"), e=fmt("i:%d i:%d s:",i->base,i->tally)+esc(i->keep)+" [i:1,i:2,[i:3,s:four]]"; if(a!=e&&what.empty()) what=fmt("globals of m%d are ",i->id)+a+", expected "+e; g_st.inc("global_checks"); };
  for(int st=0;st<n&&what.empty();st++){ int k=r.below(24); Inst*R=roots[r.below((int)roots.size())]; Inst*I=R; WRContext*c=R->c;
    if(k==0&&roots.size()<5){ load(); continue; }
    if(k==1&&roots.size()>1){ int q=r.below((int)roots.size()); hist+=fmt("destroy m%d\n",roots[q]->id); wr_destroyContext(roots[q]->c); for(auto&x:all) if(x.owner==roots[q]) x.alive=false, x.c=0; roots.erase(roots.begin()+q); g_st.inc("destroyed"); for(auto*x:roots) verify(x); continue; }
    if(k<=4){ int total=0; for(auto&x:all) if(x.owner==R) total++; if(total>8) continue; int id=r.below(NM); bool own=r.chance(50); unsigned char*b=(unsigned char*)wr_malloc(img[id].size()); memcpy(b,img[id].data(),img[id].size()); if(!own) blocks.push_back(b); WRContext*x=wr_import(c,b,(int)img[id].size(),own); hist+=fmt("m%d imports m%d\n",R->id,id); if(!x||wr_getLastError(w)){ what=fmt("import: error %d",wr_getLastError(w)); break; } Inst*q=mk(id,R); q->c=x; R->imports.push_back(q); g_st.inc("imports"); verify(q); continue; }
    if(k==5){ WRValue*v=wr_getGlobalRef(c,"base"); int nv=r.range(-1000,1000); wr_makeInt(v,nv); I->base=nv; hist+=fmt("m%d base = %d\n",I->id,nv); continue; }
    int j=r.below(NM); if(R->imports.size()&&r.chance(60)) j=R->imports[r.below((int)R->imports.size())]->id; Inst*T=find(I,j,true); if(T&&T!=I&&count(I,j)>1&&(nested)) { /* which of several instances nested imports are searched for is not specified */ continue; }
    int x=r.range(-50,50); WRValue a(x); WRValue*q=0; Str f,e; Vec<Str> le; tr.clear(); bool call=true;
    switch(r.below(13)){
      case 0: f="bump"; I->base+=x; I->tally++; e=fmt("i:%d",I->base); T=I; break;
      case 1: f="name"; e=fmt("s:m%d",I->id); T=I; break;
      case 2: f="tail"; x=r.below(8); wr_makeInt(&a,x); e=fmt("i:%d",I->base+x); T=I; break;
      case 3: case 4: case 5: f=fmt("call%d",j); if(T){ T->base+=x; T->tally++; e=fmt("i:%d",T->base*10+j); } break;
      case 6: f=fmt("stmt%d",j); if(T){ T->base+=x; T->tally++; e=fmt("i:%d",I->base); } break;
      case 7: f=fmt("get%d",j); if(T) e=fmt("i:%d",T->base); break;
      case 8: { f=fmt("str%d",j); Str s=fmt("s%d",x); wr_makeString(c,&a,s.c_str(),(int)s.size()); if(T){ T->keep=s+fmt("-%d",j); e="s:"+T->keep+s+"p"; } break; }
      case 9: f=fmt("list%d",j); if(T) e=fmt("[i:%d,s:b,[i:%d,s:",x,T->base)+T->keep+"]]"; break;
      case 10: f=fmt("deep%d",j); x=r.below(7); wr_makeInt(&a,x); if(T) e=fmt("i:%d",x*(x+1)/2+j); break;
      case 11: f=fmt("log%d",j); if(T){ e="i:1"; le.push_back(fmt("i:%d s:",x)+I->keep+fmt(" i:%d",T->base)); } break;
      default: f=fmt("mk%d",j); if(T) e=fmt("[i:%d,i:%d,i:%d]",x,T->base,j); break; }
    hist+=fmt("m%d.%s( %d )\n",I->id,f.c_str(),x); q=wr_callFunction(c,f.c_str(),&a,1); g_st.inc("calls");
    if(!T){ if(q||wr_getLastError(w)!=WR_ERR_function_not_found) what=fmt("%s reaches a function of a program that was not imported (error %d)",f.c_str(),wr_getLastError(w)); g_st.inc("refused"); }
    else { if(T!=I) g_st.inc("cross_calls"); if(!q||wr_getLastError(w)) what=fmt("%s: error %d",f.c_str(),wr_getLastError(w)); else if(showVal(*q)!=e) what=f+" gives "+showVal(*q)+", expected "+e; else if(tr!=le) what=diffTrace(le,tr); }
    if(r.chance(25)) for(auto&q:all) if(q.alive) verify(&q);
    if(what.empty()&&r.chance(8)){ // function queries are answered for the asking program
      Str fn=r.pick(Vec<Str>{"bump",fmt("m%d_bump",j),"nosuch","log",fmt("m%d_get",I->id)}); WRValue z; wr_makeString(c,&z,fn.c_str(),(int)fn.size()); if(r.chance(40)) wr_callFunction(roots[r.below((int)roots.size())]->c,r.chance(50)?"nosuch":fn.c_str()=="log"?"nosuch":"nosuch2"); WRValue*p=wr_callFunction(c,"sys::isFunction",&z,1); int want=fn=="log"?1:fn=="bump"||fn==fmt("m%d_get",I->id)||fn==fmt("m%d_bump",I->id)?2:0; if(!p||showVal(*p)!=fmt("i:%d",want)) what="sys::isFunction( "+fn+fmt(" ) in m%d gives ",I->id)+(p?showVal(*p):Str("nothing"))+fmt(", expected %d",want); g_st.inc("queries"); } }
  if(what.empty()) for(auto&q:all) if(q.alive) verify(&q);
  g_rec.t=0; bool part=r.chance(50); if(part) for(auto*x:roots) wr_destroyContext(x->c); wr_destroyState(w); for(auto*b:blocks) wr_free(b); g_st.seen(hashStr64(hist)); if(g_st.samples.size()<2) g_st.sample(hist.substr(0,300)); if(nested) g_st.inc("nested");
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(!what.empty()){ Str L; for(auto&q:loads) for(int t:q.second) L+=fmt("m%d loads m%d\n",q.first,t); violation("context",what,L+hist); } }
int main(int n,char**v){ g_modes["ctx"]=ctxCase; return harnessMain(n,v); }
