// P16: histories of container library calls. A script performs a random history on arrays, lists,
// queues, stacks and hash tables held in globals, locals, parameters, container elements and struct
// members; after every step it logs results and contents, which must equal those of a model.
#include "langlib.h"
static Val arr(){ Val v; v.k='a'; v.c=std::make_shared<Cont>(); v.c->kind='a'; return v; }
static Val hsh(){ Val v; v.k='h'; v.c=std::make_shared<Cont>(); v.c->kind='h'; return v; }
struct Loc { Str name; Val v; };
struct Hist {
  Rng&r; Str body; Vec<Str> exp; Vec<Loc> A,H; Vec<std::pair<Str,Val>> sc; int n=0; bool big=false; long ops=0;
  Hist(Rng&q):r(q){}
  void line(const Str&s){ body+=s+"\n"; }
  void logv(const Str&e,const Val&v){ line("log( "+e+" );"); exp.push_back(show(v)); }
  Str litOf(const Val&v){ switch(v.k){ case 'i': return v.i<0?fmt("(%d)",v.i):fmt("%d",v.i); case 'f': { Str s=fmt("%.4f",v.f); return v.f<0?"("+s+")":s; } case 's': { Str o="\""; for(unsigned char c:*v.s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else o+=c; } return o+"\""; } case 'a': { Str o="{ "; for(size_t i=0;i<v.c->a.size();i++) o+=(i?", ":"")+litOf(v.c->a[i]); return o+" }"; } } return "0"; }
  Val scalar(){ switch(r.below(4)){ case 0: return Val::I(r.range(-5,300)); case 1: return Val::I((int)r.u32()&0x3fffffff); case 2: return Val::F((float)r.range(-4000,4000)/8.f); default: { static const char*w[]={"","a","text","longer text with spaces","quote\"d","two\nlines","0","12"}; return Val::S(w[r.below(8)]); } } }
  // an item: expression text and value
  bool containsC(const Val&v,const Cont*c,int d=0){ if(d>6) return true; if(v.k=='a'){ if(v.c.get()==c) return true; for(auto&x:v.c->a) if(containsC(x,c,d+1)) return true; } if(v.k=='h'){ if(v.c.get()==c) return true; for(auto&x:v.c->h) if(containsC(x.second.second,c,d+1)) return true; } return false; }
  int depthOf(const Val&v){ int m=0; if(v.k=='a') for(auto&x:v.c->a) m=std::max(m,depthOf(x)+1); if(v.k=='h') for(auto&x:v.c->h) m=std::max(m,depthOf(x.second.second)+1); return m; }
  Str item(Val&out,const Cont*into){ for(int t=0;t<8;t++) switch(r.below(11)){
      case 0: case 1: case 2: out=scalar(); return litOf(out);
      case 3: case 4: { auto&s=sc[r.below((int)sc.size())]; out=s.second; return s.first; }
      case 5: { Val a=arr(); int k=r.range(1,4); for(int i=0;i<k;i++) a.c->a.push_back(scalar()); out=a; return litOf(a); }
      case 6: { auto&l=A[r.below((int)A.size())]; if(l.v.k!='a'||l.v.c->a.empty()) break; int i=r.below((int)l.v.c->a.size()); out=l.v.c->a[i]; if(depthOf(out)>1||containsC(out,into)) break; return l.name+fmt("[%d]",i); }
      case 7: { auto&l=A[r.below((int)A.size())]; if(l.v.c->a.empty()||l.v.c.get()==into) break; out=l.v.c->a[0]; if(depthOf(out)>1||containsC(out,into)) break; return Str(r.chance(50)?"list::peek( ":"stack::peek( ")+l.name+" )"; }
      case 8: { auto&l=A[r.below((int)A.size())]; if(l.v.c->a.empty()||l.v.c.get()==into) break; out=l.v.c->a.back(); if(depthOf(out)>1||containsC(out,into)) break; l.v.c->a.pop_back(); return Str(r.chance(50)?"queue::pop( ":"list::pop_back( ")+l.name+" )"; }
      case 9: { out=Val::I(r.below(50)); return fmt("twice( %d )",out.i/2)+(out.i&1?" + 1":""); }
      default: { auto&l=r.chance(50)?A[r.below((int)A.size())]:H[r.below((int)H.size())]; out=l.v; if(depthOf(out)>1||containsC(out,into)) break; return l.name; } }
    out=Val::I(7); return "7"; }
  Str key(Val&k){ switch(r.below(5)){ case 0: k=Val::I(r.below(12)); break; case 1: k=Val::I((int)(r.u32()&0x3fffffff)); break; case 2: k=Val::S(fmt("k%d",r.below(8))); break; case 3: k=Val::S(r.pick(Vec<Str>{"","name","a longer key","x y"})); break; default: k=Val::I(r.pick(Vec<int>{7,14,31,62,127,254,1021,65521})); } if(r.chance(20)&&k.k=='i'){ line(fmt("kv = %d;",k.i)); return "kv"; } return litOf(k); }
  void call(const Str&e,const Val*ret){ ops++; if(ret&&r.chance(60)){ if(r.chance(30)){ line("rv = "+e+";"); logv("rv",*ret); line("rv = 0;"); } else logv(e,*ret); } else line(e+";"); }
  size_t total(const Val&v,int d=0){ if(d>6) return 1000000; size_t t=1; if(v.k=='a') for(auto&x:v.c->a) t+=total(x,d+1); if(v.k=='h') for(auto&x:v.c->h) t+=total(x.second.second,d+1); return t; }
  void check(Loc&l){ Val v=l.v; if(v.k=='a'){ auto&a=v.c->a; if(total(v)<60||r.chance(3)) logv(l.name,v); logv(r.chance(50)?r.pick(Vec<Str>{"array","list","queue","stack"})+"::count( "+l.name+" )":l.name+"._count",Val::I((int)a.size())); if(!a.empty()){ int i=r.below((int)a.size()); if(depthOf(a[i])<2) logv(l.name+fmt("[%d]",i),a[i]); } }
    else { if(total(v)<60) logv(l.name,v); logv(r.chance(50)?"hash::count( "+l.name+" )":l.name+"._count",Val::I((int)v.c->h.size())); } }
  Str kh(const Val&k){ return keyHash(k); }
  void step(){
    if(r.chance(65)){ Loc&l=A[r.below((int)A.size())]; auto a=l.v.c; Val it; Val ret; Str e;
      switch(r.below(24)){
        case 0: { if(l.name=="box[1]") return; /* an element is passed by value, so there is no variable to re-create */ int k=r.chance(50)?0:r.below(12); if(k||r.chance(50)) e=fmt("array::clear( %s, %d )",l.name.c_str(),k); else e=r.pick(Vec<Str>{"array","list","queue","stack"})+"::clear( "+l.name+" )"; l.v=arr(); l.v.c->a.resize(k,Val::I(0)); ret=l.v; if(e[0]=='a'||e[0]=='l') call(e,&ret); else call(e,0); break; }
        case 1: case 2: { if(a->a.empty()&&r.chance(70)) return; int w=r.chance(90)&&a->a.size()?r.below((int)a->a.size()):(int)a->a.size()+r.below(3); int c=r.chance(30)?1:r.below(5); bool one=c==1&&r.chance(60); e=one?fmt("array::remove( %s, %d )",l.name.c_str(),w):fmt("array::remove( %s, %d, %d )",l.name.c_str(),w,c); if(w<(int)a->a.size()) a->a.erase(a->a.begin()+w,a->a.begin()+std::min<size_t>(a->a.size(),w+c)); ret=l.v; call(e,total(l.v)<60?&ret:0); break; }
        case 3: case 4: { if(total(l.v)>20000) return; int w=r.chance(50)?r.below((int)a->a.size()+1):r.chance(50)?0:(int)a->a.size(); int c=r.chance(30)?1:r.below(6); bool one=c==1&&r.chance(60); e=one?fmt("array::insert( %s, %d )",l.name.c_str(),w):fmt("array::insert( %s, %d, %d )",l.name.c_str(),w,c); a->a.insert(a->a.begin()+w,c,Val::I(0)); ret=l.v; call(e,total(l.v)<60?&ret:0); break; }
        case 5: { int s=r.below((int)a->a.size()+3); e=fmt("array::truncate( %s, %d )",l.name.c_str(),s); if(s<(int)a->a.size()) a->a.resize(s); ret=l.v; call(e,total(l.v)<60?&ret:0); break; }
        case 6: case 7: case 8: { if(total(l.v)>20000) return; Str x=item(it,a.get()); const char*f=r.pick(Vec<const char*>{"list::push","list::push_front","queue::push","stack::push"}); if(r.chance(25)){ e="put( "+l.name+", "+x+" )"; } else e=fmt("%s( ",f)+l.name+", "+x+" )"; a->a.insert(a->a.begin(),it); call(e,0); break; }
        case 9: case 10: case 11: { if(total(l.v)>20000) return; Str x=item(it,a.get()); if(r.chance(25)) e="putb( "+l.name+", "+x+" )"; else e="list::push_back( "+l.name+", "+x+" )"; a->a.push_back(it); call(e,0); break; }
        case 12: case 13: { e=r.pick(Vec<Str>{"list::pop","list::pop_front","stack::pop"})+"( "+l.name+" )"; if(!a->a.empty()){ ret=a->a[0]; a->a.erase(a->a.begin()); } call(e,depthOf(ret)<2?&ret:0); break; }
        case 14: case 15: { e=r.pick(Vec<Str>{"list::pop_back","queue::pop"})+"( "+l.name+" )"; if(!a->a.empty()){ ret=a->a.back(); a->a.pop_back(); } call(e,depthOf(ret)<2?&ret:0); break; }
        case 16: { bool back=r.chance(50); e=back?"queue::peek( "+l.name+" )":r.pick(Vec<Str>{"list::peek","stack::peek"})+"( "+l.name+" )"; if(!a->a.empty()) ret=back?a->a.back():a->a[0]; call(e,depthOf(ret)<2?&ret:0); break; }
        case 17: { if(a->a.empty()) return; int i=r.below((int)a->a.size()); Val s=scalar(); line(l.name+fmt("[%d] = ",i)+litOf(s)+";"); a->a[i]=s; break; }
        case 18: case 19: { auto&s=sc[r.below((int)sc.size())]; Val v=scalar(); line(s.first+" = "+litOf(v)+";"); s.second=v; for(auto&q:A) check(q); return; } // pushed values must not follow the variable
        case 20: { Loc&m=A[r.below((int)A.size())]; if(&m==&l||containsC(l.v,m.v.c.get())||containsC(m.v,a.get())) return; line(m.name+" = "+l.name+";"); m.v=l.v; break; } // now the same array
        case 21: { if(!big||total(l.v)>3000) return; int k=r.range(20,400); int m=r.range(1,9); Str f=r.pick(Vec<Str>{"list::push_back","stack::push"}); line(fmt("for( i = 0; i < %d; ++i ) { %s( %s, i * %d ); }",k,f.c_str(),l.name.c_str(),m)); for(int i=0;i<k;i++) if(f=="stack::push") a->a.insert(a->a.begin(),Val::I(i*m)); else a->a.push_back(Val::I(i*m)); break; }
        case 22: { int k=r.range(0,10); line(fmt("for( i = 0; i < %d; ++i ) { log( queue::pop( %s ) ); }",k,l.name.c_str())); for(int i=0;i<k;i++){ Val q; if(!a->a.empty()){ q=a->a.back(); a->a.pop_back(); } exp.push_back(show(q)); } break; }
        default: { if(a->a.empty()) return; Str x=item(it,a.get()); if(a->a.empty()) x="0", it=Val::I(0); if(x[0]=='{'){ line("rv = "+x+";"); x="rv"; } /* name[n] = { .. } re-declares name */ int i=r.below((int)a->a.size()); line(l.name+fmt("[%d] = ",i)+x+";"); a->a[i]=it; break; } }
      check(l); for(auto&q:A) if(&q!=&l&&r.chance(20)) check(q); }
    else { Loc&l=H[r.below((int)H.size())]; Val k; Val it; Val ret; Str e; Str ks=key(k); auto c=l.v.c;
      switch(r.below(8)){
        case 0: { if(r.chance(60)) return; e="hash::clear( "+l.name+" )"; l.v=hsh(); ret=l.v; call(e,&ret); break; }
        case 1: case 2: case 3: { if(total(l.v)>4000) return; Str x=item(it,c.get()); e="hash::add( "+l.name+", "+x+", "+ks+" )"; c->h[kh(k)]={k,it}; call(e,depthOf(it)<2?&it:0); break; }
        case 4: { if(r.chance(60)&&!c->h.empty()){ auto i=c->h.begin(); std::advance(i,r.below((int)c->h.size())); k=i->second.first; ks=litOf(k); } e="hash::remove( "+l.name+", "+ks+" )"; ret=Val::I((int)c->h.erase(kh(k))); call(e,&ret); break; }
        case 5: { if(r.chance(60)&&!c->h.empty()){ auto i=c->h.begin(); std::advance(i,r.below((int)c->h.size())); k=i->second.first; ks=litOf(k); } e="hash::exists( "+l.name+", "+ks+" )"; ret=Val::I((int)c->h.count(kh(k))); call(e,&ret); break; }
        case 6: { if(total(l.v)>4000) return; Val s=scalar(); line(l.name+"["+ks+"] = "+litOf(s)+";"); c->h[kh(k)]={k,s}; break; }
        default: { if(!big||total(l.v)>1500) return; int n=r.range(20,200), m=r.range(1,9); line(fmt("for( i = 0; i < %d; ++i ) { hash::add( %s, i, i * %d ); }",n,l.name.c_str(),m)); for(int i=0;i<n;i++){ Val q=Val::I(i*m); c->h[kh(q)]={q,Val::I(i)}; } int d=r.range(0,n); line(fmt("for( i = 0; i < %d; ++i ) { log( hash::remove( %s, i ) ); }",d,l.name.c_str())); for(int i=0;i<d;i++) exp.push_back(show(Val::I((int)c->h.erase(kh(Val::I(i)))))); break; } }
      check(l); if(!c->h.empty()&&r.chance(50)){ auto i=c->h.begin(); std::advance(i,r.below((int)c->h.size())); if(depthOf(i->second.second)<2){ logv("hash::exists( "+l.name+", "+litOf(i->second.first)+" )",Val::I((int)l.v.c->h.count(i->first))); if(l.v.c->h.count(i->first)) logv(l.name+"["+litOf(i->second.first)+"]",l.v.c->h[i->first].second); } } }
  }
};
static void contCase(Rng&r,long){
  Hist h(r); bool local=r.chance(50); h.big=r.chance(25);
  Str pre="struct St { var q; var m; };\nfunction twice( x ) { return x * 2; }\nfunction put( c, x ) { var y = x; list::push( c, y ); y = 99; }\nfunction putb( c, x ) { var y = x; var z = 1; list::push_back( c, y ); y = \"other\"; return z; }\n";
  Str glob="var kv; var rv; var i; var g0; var g1; var gh; var box; var st; var hb; var sa = 5; var sb = \"text\"; var sf = 2.5;\n";
  Str locals="var l0; var l1; var lh; var la = 9; var lb = \"local\";\n";
  auto addA=[&](const Str&n){ h.A.push_back({n,arr()}); }; auto addH=[&](const Str&n){ h.H.push_back({n,hsh()}); };
  addA("g0"); addA("g1"); addA("box[1]"); addA("st.q"); addA("hb.k"); addH("gh"); addH("st.m"); h.sc={{"sa",Val::I(5)},{"sb",Val::S("text")},{"sf",Val::F(2.5f)}};
  if(local){ addA("l0"); addA("l1"); addH("lh"); h.sc.push_back({"la",Val::I(9)}); h.sc.push_back({"lb",Val::S("local")}); }
  h.line("box = { 0, 0 }; st = new St(); hb = { \"k\" : 0 };");
  for(auto&l:h.A){ if(l.name!="box[1]"&&r.chance(50)) h.line("array::clear( "+l.name+" );"); else { int k=r.range(1,6); Str s=l.name+" = { "; for(int i=0;i<k;i++){ Val v=h.scalar(); s+=(i?", ":"")+h.litOf(v); l.v.c->a.push_back(v); } if(l.name.find('[')!=Str::npos){ h.line("rv = "+s.substr(s.find('{'))+" };"); h.line(l.name+" = rv;"); h.line("rv = 0;"); } else h.line(s+" };"); } }
  for(auto&l:h.H) h.line("hash::clear( "+l.name+" );");
  for(auto&l:h.A) h.check(l);
  int n=r.range(5,60); for(int i=0;i<n;i++) h.step();
  for(auto&l:h.A) h.check(l); for(auto&l:h.H) h.check(l);
  Str src=pre+glob+(local?"function main_() {\n"+locals+h.body+"}\nmain_();\n":h.body); if(g_verbose) printf("%s\n",src.c_str()),fflush(stdout);
  RunCfg c; c.gc=r.pick(Vec<int>{-1,0,1,100,1000}); if(r.chance(20)) c.slice=r.range(1,40); RunOut o=runProgram(src,c);
  g_st.inc("operations",h.ops); g_st.inc("events",h.exp.size()); g_st.inc("programs"); g_st.seen(hashStr64(src)); if(g_st.samples.size()<2&&src.size()<1500) g_st.sample(src);
  Str what; if(o.cerr) what=fmt("compile error %d %s",o.cerr,o.cmsg.c_str()); else if(o.err) what=fmt("error %d",o.err); else if(o.trace!=h.exp) what=diffTrace(h.exp,o.trace); else if(o.leaked) what=fmt("%zu blocks leaked",o.leaked); else if(g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(!what.empty()){ size_t k=0; while(k<h.exp.size()&&k<o.trace.size()&&h.exp[k]==o.trace[k]) k++; Str ctx; { Str b=h.body; size_t e=0; size_t logs=0; Vec<Str> ln; for(size_t i=0;i<b.size();){ size_t j=b.find('\n',i); Str q=b.substr(i,j-i); ln.push_back(q); if(q.compare(0,4,"for(")&&q.find("log(")!=Str::npos&&logs++==k) break; i=j+1; } for(size_t i=ln.size()>12?ln.size()-12:0;i<ln.size();i++) ctx+="  "+ln[i]+"\n"; } violation("container",what,"steps up to the mismatch (approximate when loops log):\n"+ctx+"--- source\n"+src+"--- expected\n"+joinTrace(h.exp)+"--- observed\n"+joinTrace(o.trace)); } }
int main(int n,char**v){ g_modes["hist"]=contCase; return harnessMain(n,v); }
