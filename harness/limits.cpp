// P02/P03/P07: programs at the edges of the format (frame, function, global, member, argument and
// literal counts around 255 and 65535, code and jump distances around 127, 32767 and 65535). Each has a
// known trace; the compiler may refuse one that is too large, but what it accepts must run exactly.
#include "langlib.h"
static bool g_lim3=false;
static void limCase(Rng&r,long){
  Str s; Vec<Str> exp; bool must=false; int shape=g_lim3?r.pick(Vec<int>{4,4,6,7,8,12,12}):r.below(14); auto edge=[&](int e){ int k=r.below(10); return k<7?e+r.range(-8,8):k<9?r.range(1,e):e+r.range(1,60); };
  uint32_t sum=0; Str d; uint8_t flags=WR_INCLUDE_GLOBALS; if(r.chance(20)) flags|=WR_EMBED_DEBUG_CODE; if(r.chance(10)) flags|=WR_EMBED_SOURCE_CODE;
  auto fill=[&](int n,const char*v){ Str o; for(int i=0;i<n;i++){ int k=r.range(100000,9999999); o+=fmt("%s = %s + %d;\n",v,v,k); sum+=(uint32_t)k; } return o; };
  switch(shape){
    case 0: case 1: { // frame: arguments and locals
      int a=r.chance(50)?r.below(6):r.below(258), t=edge(254), l=t>a?t-a:0; if(a+l<1) l=1; Str ps,ar,body; bool twice=r.chance(30);
      for(int i=0;i<a;i++){ ps+=fmt("%sp%d",i?", ":"",i); ar+=fmt("%s%d",i?", ":"",i*3+1); } for(int i=0;i<l;i++) body+=fmt("var l%d = %d;\n",i,i*7+2);
      if(twice) body+="if ( again ) { again = 0; f( "+ar+" ); }\n"; // an inner activation with its own locals
      for(int i=0;i<a;i++){ body+=fmt("tt = tt + p%d;\n",i); sum+=i*3+1; } for(int i=0;i<l;i++){ body+=fmt("tt = tt + l%d;\n",i); sum+=i*7+2; }
      s="var tt = 0; var again = 1;\nfunction f( "+ps+" ) {\n"+body+"return tt; }\nlog( f( "+ar+" ) );\nlog( tt );\n"; if(twice) sum*=2; exp={fmt("i:%u",sum),fmt("i:%u",sum)}; must=a+l<=250; d=fmt("%d arguments, %d locals",a,l); break; }
    case 2: { int n=edge(255); for(int i=0;i<n;i++) s+=fmt("function f%d( a ) { return a * 2 + %d; }\n",i,i); for(int i=0;i<12;i++){ int k=i<4?n-1-i:r.below(n); if(k<0) continue; s+=fmt("log( f%d( %d ) );\n",k,i); exp.push_back(fmt("i:%d",i*2+k)); } must=n<=250; d=fmt("%d functions",n); break; }
    case 3: { int n=edge(255); for(int i=0;i<n;i++) s+=fmt("var v%d = %d;\n",i,i*5+1); s+="function bump( a ) { ::v0 = a; return ::v0; }\n"; int m=r.below(n); s+=fmt("v%d = 77;\n",m); for(int i=0;i<14;i++){ int k=i<4?n-1-i:i<5?m:r.below(n); if(k<0) continue; s+=fmt("log( v%d );\n",k); exp.push_back(fmt("i:%d",k==m?77:k*5+1)); } s+="log( bump( 9 ) );\n"; exp.push_back("i:9"); must=n<=250; d=fmt("%d globals",n); break; }
    case 4: { int n=edge(r.chance(50)?128:254); s="struct S {\n"; for(int i=0;i<n;i++) s+=fmt("var m%d = %d;\n",i,i*5+1); s+="};\nvar a = new S();\nvar b = new S();\n"; int m=r.below(n); s+=fmt("a.m%d = 77;\n",m); for(int i=0;i<14;i++){ int k=i<4?n-1-i:i<6?m:r.below(n); if(k<0) continue; const char*o=r.chance(50)?"a":"b"; s+=fmt("log( %s.m%d );\n",o,k); exp.push_back(fmt("i:%d",k==m&&*o=='a'?77:k*5+1)); } must=n<=120; d=fmt("%d members",n); break; }
    case 5: { int n=edge(r.chance(60)?254:128); Str ar; for(int i=0;i<n;i++){ ar+=fmt("%s%d",i?", ":"",i+1); sum+=i+1; } bool nat=r.chance(60); s="function f( a, b, c ) { return a * 100 + b * 10 + c; }\nlog( 5 );\n"; s+=nat?"log( nsum( "+ar+" ) );\n":"log( f( "+ar+" ) );\n"; s+="log( 6 );\n"; exp={"i:5",nat?fmt("i:%u",sum):fmt("i:%d",100+(n>1?20:0)+(n>2?3:0)),"i:6"}; must=n<=120; d=fmt("%d arguments in a call",n); break; }
    case 6: { int n=r.chance(96)?edge(r.chance(50)?255:1000):65535+r.range(-4,4); bool big=n>60000; s="var a[] = { "; for(int i=0;i<n;i++) s+=fmt("%s%d%s",i?",":"",big?i%90:i*3,i%50==49?"\n":""); s+=" };\nlog( a._count );\n"; exp.push_back(fmt("i:%d",n)); for(int i=0;i<10;i++){ int k=i<3?n-1-i:r.below(n); if(k<0) continue; s+=fmt("log( a[%d] );\n",k); exp.push_back(fmt("i:%d",big?k%90:k*3)); } must=n<=1100; d=fmt("%d array elements",n); break; }
    case 7: { int n=edge(r.chance(50)?255:r.chance(70)?2000:65535); s="var t = \""; for(int i=0;i<n;i++) s+=(char)('a'+i%23); s+="\";\nlog( t._count );\n"; exp.push_back(fmt("i:%d",n)); for(int i=0;i<10;i++){ int k=i<3?n-1-i:r.below(n); if(k<0) continue; s+=fmt("log( t[%d] );\n",k); exp.push_back(fmt("i:%d",'a'+k%23)); } must=n<=2100; d=fmt("%d characters",n); break; }
    case 8: { int n=edge(r.chance(60)?255:600); s="var h = { "; for(int i=0;i<n;i++) s+=fmt("%s%d:%d",i?",":"",i*11,i+5); s+=" };\nlog( h._count );\n"; exp.push_back(fmt("i:%d",n)); for(int i=0;i<12;i++){ int k=i<3?n-1-i:r.below(n); if(k<0) continue; s+=fmt("log( h[%d] );\n",k*11); exp.push_back(fmt("i:%d",k+5)); } must=n<=200; d=fmt("%d hash entries",n); break; }
    case 9: { // code size before functions
      int n=r.range(r.chance(50)?5000:100,7800); s="var g = 0;\n"+fill(n,"g")+"function f( a ) { var z = a + 1; return z; }\nstruct S { var q = 4; };\nfunction k( a ) { return f( a ) * 2; }\nlog( g );\nlog( f( 41 ) );\nlog( k( 2 ) );\nvar o = new S();\nlog( o.q );\n"; exp={fmt("i:%d",(int)sum),"i:42","i:6","i:4"}; must=n<=3000; d=fmt("%d statements before the functions",n); break; }
    case 10: { // many large functions
      int n=r.range(2,12), per=r.range(100,9000/n); s="var g = 0;\n"; Vec<uint32_t> su; for(int i=0;i<n;i++){ sum=0; s+=fmt("function f%d() { ::g = 0;\n",i)+fill(per,"::g")+"return ::g; }\n"; su.push_back(sum); } for(int i=0;i<n;i++){ s+=fmt("log( f%d() );\n",i); exp.push_back(fmt("i:%d",(int)su[i])); } must=n*per<=3000; d=fmt("%d functions of %d statements",n,per); break; }
    case 11: { // jumps over a large body
      int n=r.chance(30)?r.range(2,40):r.range(3000,5200); int k=r.below(6); s="var g = 0; var i = 0;\n"; Str b=fill(n,"g"); switch(k){
        case 0: s+="for( i = 0; i < 2; ++i ) {\n"+b+"}\n"; sum*=2; break; case 1: s+="while( i < 3 ) { ++i;\nif ( i == 2 ) { continue; }\n"+b+"}\n"; sum*=2; break; case 2: s+="do {\n"+b+"++i; } while( i < 2 );\n"; sum*=2; break;
        case 3: s+="if ( i ) {\n"+b+"} else { g = 5; }\n"; sum=5; break; case 4: s+="goto over;\n"+b+"over:\ng = g + 3;\n"; sum=3; break; default: s+="again:\n"+b+"++i; if ( i < 3 ) { goto again; }\n"; sum*=3; break; }
      s+="log( g );\n"; exp={fmt("i:%d",(int)sum)}; must=n<=2000; d=fmt("jump kind %d over %d statements",k,n); break; }
    case 12: { // names and keys whose hashes agree on half of their bits, or modulo the sizes tables take
      Vec<Vec<Str>> gr; std::map<uint32_t,Vec<Str>> by; int how=r.below(5); for(int i=0;i<(how<2?6000:400);i++){ Str nm; for(int j=r.range(2,7);j>0;j--) nm+=(char)('a'+r.below(26)); nm+=(char)('0'+r.below(10)); uint32_t h=wr_hashStr(nm.c_str()); uint32_t k=how==0?h&0xFFFF:how==1?h>>16:how==2?h&0xFF:how==3?h%11:h>>24; auto&b=by[k]; if(std::find(b.begin(),b.end(),nm)==b.end()) b.push_back(nm); }
      for(auto&b:by) if(b.second.size()>1) gr.push_back(b.second); Vec<Str> nm; for(int j=r.range(1,6);j>0&&gr.size();j--){ auto&g=gr[r.below((int)gr.size())]; for(auto&x:g) if(nm.size()<40&&std::find(nm.begin(),nm.end(),x)==nm.end()) nm.push_back(x); } if(nm.empty()) nm={"a1","b2"};
      int n=(int)nm.size(), use=r.below(4); auto val=[&](int i){ return i*7+3; };
      if(use==0){ Str miss; if(n>1&&r.chance(60)){ int k=r.below(n); miss=nm[k]; nm.erase(nm.begin()+k); n--; } s="struct S {\n"; for(int i=0;i<n;i++) s+=fmt("var %s = %d;\n",nm[i].c_str(),val(i)); s+="};\nvar a = new S();\nvar b = new S();\n"; if(miss.size()){ s+="log( a."+miss+" );\na."+miss+" = 4321;\nlog( a."+miss+" );\n"; exp.push_back("i:0"); exp.push_back("i:0"); g_st.inc("missing_member_reads"); } for(int i=0;i<n;i+=2) s+=fmt("a.%s = %d;\n",nm[i].c_str(),1000+i); for(int i=0;i<n;i++){ s+=fmt("log( a.%s );\nlog( b.%s );\n",nm[i].c_str(),nm[i].c_str()); exp.push_back(fmt("i:%d",i%2?val(i):1000+i)); exp.push_back(fmt("i:%d",val(i))); } }
      else if(use==1){ s="var h = {};\n"; for(int i=0;i<n;i++) s+=fmt("h[\"%s\"] = %d;\n",nm[i].c_str(),val(i)); for(int i=0;i<n;i+=3) s+=fmt("h._remove( \"%s\" );\n",nm[i].c_str()); for(int i=0;i<n;i++){ s+=fmt("log( h._exists( \"%s\" ) );\n",nm[i].c_str()); exp.push_back(fmt("i:%d",i%3?1:0)); if(i%3){ s+=fmt("log( h[\"%s\"] );\n",nm[i].c_str()); exp.push_back(fmt("i:%d",val(i))); } } s+="log( h._count );\n"; exp.push_back(fmt("i:%d",n-(n+2)/3)); }
      else if(use==2){ for(int i=0;i<n;i++) s+=fmt("function %s( x ) { return x + %d; }\n",nm[i].c_str(),val(i)); for(int i=0;i<n;i++){ s+=fmt("log( %s( 1 ) );\n",nm[i].c_str()); exp.push_back(fmt("i:%d",val(i)+1)); } }
      else { for(int i=0;i<n;i++) s+=fmt("var %s = %d;\n",nm[i].c_str(),val(i)); s+="function rd() { return 0"; for(int i=0;i<n;i++) s+=fmt(" + ::%s",nm[i].c_str()); s+="; }\n"; for(int i=0;i<n;i++){ s+=fmt("log( %s );\n",nm[i].c_str()); exp.push_back(fmt("i:%d",val(i))); sum+=val(i); } s+="log( rd() );\n"; exp.push_back(fmt("i:%u",sum)); }
      must=true; d=fmt("%d names with close hashes (%d), use %d",n,how,use); g_st.inc("close_hash_programs"); break; }
    default: { // switches
      int n=edge(r.chance(60)?254:20), step=r.chance(60)?1:r.range(2,997), pad=r.chance(30)?r.range(1,5000/n+1):0; s="var g = 0;\nfunction sw( x ) { var q = 0; var w = 0; switch( x ) {\n"; bool def=r.chance(60); for(int i=0;i<n;i++){ s+=fmt("case %d: q = %d;\n",i*step,i+1000); for(int j=0;j<pad;j++) s+=fmt("w = w + %d;\n",123456+j); s+="break;\n"; } if(def) s+="default: q = 7;\n"; s+="} return q; }\n";
      for(int i=0;i<14;i++){ int k=i<4?n-1-i:i<6?n+i-4:r.below(n); if(k<0) continue; s+=fmt("log( sw( %d ) );\n",k*step); exp.push_back(fmt("i:%d",k<n?k+1000:def?7:0)); } s+="log( sw( -1 ) );\n"; exp.push_back(fmt("i:%d",def?7:0)); must=n*(pad+1)<=1000; d=fmt("switch of %d cases, step %d, %d statements each",n,step,pad); break; } }
  if(flags&WR_EMBED_SOURCE_CODE) must=must&&s.size()<20000; // the source counts as code
  if(g_verbose){ fprintf(stderr,"%s\n",d.c_str()); if(const char*f=getenv("DUMP")){ FILE*o=fopen(f,"w"); fwrite(s.data(),1,s.size(),o); fclose(o);} }
  RunCfg c; c.flags=flags; c.stack=3000; RunOut o=runProgram(s,c); g_st.inc("shape."+fmt("%d",shape)); g_st.seen(hashStr64(s)); if(g_st.samples.size()<2) g_st.sample(d+": "+s.substr(0,300));
  if(o.cerr){ g_st.inc("refused_as_too_large"); if(must){ violation("limit-refused",d+fmt(" is refused with error %d",o.cerr),s); return; } if(o.leaked) violation("limit-leak",d+fmt(": refused, %zu blocks leaked",o.leaked),s); return; }
  g_st.inc("accepted_at_limits"); if(o.codeLen>30000) g_st.inc("images_above_30000"); g_st.inc("events",o.trace.size());
  if(o.err||!o.ctx) violation("limit-error",d+fmt(": error %d",o.err),s); else if(o.trace!=exp) violation("limit-trace",d+": "+diffTrace(exp,o.trace),s); else if(o.leaked) violation("limit-leak",d+fmt(": %zu blocks leaked",o.leaked),s); }
// every construct that compiles to a jump, over bodies whose encoded length sweeps the edge of the one-byte distance (and, rarely, of others)
static void jumpCase(Rng&r,long){
  bool fn=r.chance(60); int kind=r.below(13); long len=r.chance(85)?r.range(70,150):r.range(0,400); uint32_t g=0; int i=0; Vec<Str> exp;
  auto body=[&](uint32_t&sum){ Str o; long left=len; sum=0; while(left>0){ int q=r.below(5); if(left<8) q=r.below(2); int k=q==2?r.range(0,127):q==3?r.range(200,30000):r.range(70000,9999999);
    switch(q){ case 0: o+="++g; "; sum++; left-=3; break; case 1: k=r.range(1,100); o+=fmt("g += %d; ",k); sum+=k; left-=5; break; default: o+=fmt("g = g + %d; ",k); sum+=(uint32_t)k; left-=q==2?7:q==3?8:10; break; } } return o; };
  auto big=[&](uint32_t&sum){ Str o="g"; sum=0; for(long left=len;left>0;left-=5){ int k=r.range(0,r.chance(50)?120:100000); o+=fmt(" + %d",k); sum+=(uint32_t)k; } return o; };
  int N=r.range(1,4), m=r.range(0,3); i=r.range(0,3); Str pre=fmt("var g = 0; var i = %d; var n = %d; var m = %d;\n",i,N,m), s;
  auto cond=[&](bool&v){ int q=r.below(9); Str R=r.chance(50)?"m":fmt("%d",m); Str L="i"; int a=i,b=m; if(r.chance(30)){ std::swap(L,R); std::swap(a,b); } if(r.chance(15)) R+=" + 0";
    switch(q){ case 0: v=a<b; return L+" < "+R; case 1: v=a<=b; return L+" <= "+R; case 2: v=a>b; return L+" > "+R; case 3: v=a>=b; return L+" >= "+R; case 4: v=a==b; return L+" == "+R; case 5: v=a!=b; return L+" != "+R; case 6: v=i!=0; return Str("i"); case 7: v=!i; return Str("!i"); default: v=i&&m; return Str("i && m"); } };
  auto loop=[&](){ switch(r.below(7)){ case 0: return Str("i < n"); case 1: return fmt("i < %d",N); case 2: return Str("n > i"); case 3: return fmt("i <= %d",N-1); case 4: return Str("i != n"); case 5: return fmt("%d > i",N); default: return Str("n - i"); } };
  uint32_t a=0,b=0,c=0; bool v; Str B=body(a); int q=r.range(0,4); bool brk=r.chance(50); Str d=fmt("jump kind %d, body of about %ld bytes, %s",kind,len,fn?"function":"global");
  auto run=[&](int from,bool early){ int x=from; g=0; while(x<N){ if(early&&x==q){ if(brk) return x; ++x; continue; } g+=a; ++x; } return x; };
  switch(kind){
    case 0: { Str C=cond(v); s="if ( "+C+" ) { "+B+"}\n"; g=v?a:0; break; }
    case 1: { Str C=cond(v); Str B2=body(b); s="if ( "+C+" ) { "+B+"} else { "+B2+"}\n"; g=v?a:b; break; }
    case 2: i=0; s="i = 0; while( "+loop()+" ) { "+B+"++i; }\n"; i=run(0,false); break;
    case 3: s="for( i = 0; "+loop()+"; ++i ) { "+B+"}\n"; i=run(0,false); break;
    case 4: s="i = 0; do { "+B+"++i; } while( "+loop()+" );\n"; i=run(0,false); break;
    case 5: s="i = 0; while( "+loop()+" ) { "+fmt("if ( i == %d ) { ",q)+(brk?"break; } ":"++i; continue; } ")+B+"++i; }\n"; i=run(0,true); break;
    case 6: s="for( i = 0; "+loop()+"; ++i ) { "+fmt("if ( i == %d ) { ",q)+(brk?"break; } ":"continue; } ")+B+"}\n"; i=run(0,true); break;
    case 7: s="goto over; "+B+"\nover:\ng = g + 3;\n"; g=3; break;
    case 8: s="i = 0;\nagain:\n"+B+"++i; if ( "+loop()+" ) { goto again; }\n"; i=run(0,false); break;
    case 9: brk=true; s="i = 0; while( "+loop()+" ) { "+fmt("if ( i == %d ) { goto out; } ",q)+B+"++i; }\nout:\ng = g + 0;\n"; i=run(0,true); break;
    case 10: { Str B2=body(b),B3=body(c); bool df=r.chance(70), b1=r.chance(80), b2=r.chance(80); s="switch( i ) { case 0: "+B+(b1?"break; ":"")+"case 1: "+B2+(b2?"break; ":"")+(df?"default: "+B3:Str("case 3: "+B3))+"}\n"; bool third=df||i==3; g=i==0?a+(b1?0:b+(b2?0:c)):i==1?b+(b2?0:c):third?c:0; break; }
    case 11: { int k=r.range(0,4); s="var arr[] = { 0"; for(int j=0;j<k;j++) s+=",1"; s+=" }; for ( var e : arr ) { "+B+"g = g + e; }\n"; g=a*(uint32_t)(k+1)+k; break; }
    default: { bool an=r.chance(50); Str C=cond(v), E=big(a); s="if ( ("+C+") "+(an?"&&":"||")+" ("+E+") ) { "+body(b)+"} else { g = 1; }\n"; bool t=a!=0; g=(an?v&&t:v||t)?b:1; break; } }
  Str src; if(fn) src="function f() {\n"+pre+s+"log( g ); log( i ); return n; }\nlog( f() );\n"; else src=pre+s+"log( g ); log( i ); log( n );\n";
  exp={fmt("i:%d",(int)g),fmt("i:%d",i),fmt("i:%d",N)}; RunCfg cf; cf.flags=WR_INCLUDE_GLOBALS|(r.chance(10)?WR_EMBED_DEBUG_CODE:0); cf.stack=300; RunOut o=runProgram(src,cf); g_st.inc("jump."+fmt("%d",kind)); g_st.seen(hashStr64(src)); if(g_st.samples.size()<2) g_st.sample(d+": "+src.substr(0,300));
  if(o.cerr){ violation("jump-refused",d+fmt(" is refused with error %d",o.cerr),src); return; }
  g_st.inc("events",o.trace.size()); if(o.err||!o.ctx) violation("jump-error",d+fmt(": error %d",o.err),src); else if(o.trace!=exp) violation("jump-trace",d+": "+diffTrace(exp,o.trace),src); else if(o.leaked) violation("jump-leak",d+fmt(": %zu blocks leaked",o.leaked),src); }
static Str lit(Rng&r,const Str&b){ Str o="\""; bool esc=false; for(unsigned char c:b){ if(c=='"'||c=='\\'||c=='\''||c<32||c==127||(esc&&isdigit(c))||(c>127&&r.chance(30))||r.chance(4)){ if(c=='\n'&&r.chance(50)) o+="\\n",esc=false; else o+=fmt("\\0%d",c),esc=true; } else o+=(char)c,esc=false; } return o+"\""; }
static Str bytes(Rng&r,int n){ Str o; for(int i=0;i<n;i++) o+=(char)(r.chance(12)?0:r.chance(40)?r.range(128,255):r.chance(80)?r.range(32,126):r.below(32)); return o; }
// histories of in-place edits of one array and one byte string, observed by count, index and both forms of foreach
static void editCase(Rng&r,long){
  Vec<int> a; Str t; Vec<Str> exp; Str s="var a[] = { "; int n=r.range(1,6), v=0; for(int i=0;i<n;i++){ v=r.range(-50,5000); a.push_back(v); s+=fmt("%s%d",i?", ":"",v); } t=bytes(r,r.range(1,40)); s+=" };\nvar t = "+lit(r,t)+";\nvar b = a; var u = t;\n";
  bool fn=r.chance(50); if(fn) s+="function ed( a, t ) {\n"; Str w; s+="var w = \"\"; var c[] = { \"\", 5 };\n"; Str cw; auto I=[&](int x){ exp.push_back(fmt("i:%d",x)); }; int ops=r.range(4,30);
  for(int q=0;q<ops;q++){ int an=(int)a.size(), tn=(int)t.size(); switch(r.below(14)){
      case 9: { Str x=bytes(r,r.range(0,9)); s+=(r.chance(50)?"w = w + ":"w += ")+lit(r,x)+";\n"; w+=x; break; }
      case 10: { Str x=bytes(r,r.range(0,9)); s+="w = "+lit(r,x)+" + w;\n"; w=x+w; break; }
      case 11: if(r.chance(50)){ s+="w = w + t;\n"; w+=t; } else { int x=r.range(-9999999,9999999); s+=fmt("w = w + (%d);\n",x); w+=fmt("%d",x); } if(w.size()>400){ w.clear(); s+="w = \"\";\n"; } break;
      case 12: { Str x=bytes(r,r.range(0,5)); s+="c[0] += "+lit(r,x)+"; c[0] = c[0] + t;\n"; cw+=x+t; if(cw.size()>400){ cw.clear(); s+="c[0] = \"\";\n"; } s+="log( c[0]._count );\n"; I((int)cw.size()); break; }
      case 13: { Str y=w; if(y.size()&&r.chance(50)) y[r.below((int)y.size())]^=1; s+="log( w == "+lit(r,y)+" ); log( w != "+lit(r,w)+" ); log( c[0] == w );\nfor( var e : w ) { log( e ); }\nlog( w._count );\n"; I(y==w); I(0); I(cw==w); for(char q2:w) I((unsigned char)q2); I((int)w.size()); g_st.inc("concatenations_read"); break; }
      case 0: { int i=r.chance(60)?r.range(0,an):r.range(0,an+3); v=r.range(-99,99); s+=fmt("a[%d] = %d;\n",i,v); if(i>=an) a.resize(i+1,0); a[i]=v; break; }
      case 1: case 2: { int i=r.chance(40)?an+r.range(-1,2):r.range(0,an+1); if(i<0) i=0; s+=fmt("a._remove( %d );\n",i); if(i<an){ a.erase(a.begin()+i); g_st.inc("removals"); } break; }
      case 3: { int i=r.chance(40)?tn+r.range(-1,2):r.range(0,tn+1); if(i<0) i=0; s+=fmt("t._remove( %d );\n",i); if(i<tn){ t.erase(i,1); g_st.inc("removals"); } break; }
      case 4: s+="log( a._count ); log( t._count );\n"; I(an); I(tn); break;
      case 5: if(an){ int i=r.below(an); s+=fmt("log( a[%d] );\n",i); I(a[i]); } if(tn){ int i=r.below(tn); s+=fmt("log( t[%d] );\n",i); I((unsigned char)t[i]); } break;
      case 6: s+="for( var e : t ) { log( e ); }\n"; for(char c:t) I((unsigned char)c); break;
      case 7: s+="for( var k, var e : a ) { log( k ); log( e ); }\n"; for(int i=0;i<an;i++){ I(i); I(a[i]); } break;
      default: s+=fmt("for( var k, var e : t ) { if ( k == e ) { log( 7 ); } else { log( e + k ); } }\nfor( var e : a ) { log( e ); }\n"); for(int i=0;i<tn;i++) I((unsigned char)t[i]==i?7:(unsigned char)t[i]+i); for(int x:a) I(x); } }
  if(fn) s+="}\ned( a, t );\n"; s+="log( b._count ); log( u._count ); for( var e : b ) { log( e ); }\nfor( var e : u ) { log( e ); }\n"; I((int)a.size()); I((int)t.size()); for(int x:a) I(x); for(char c:t) I((unsigned char)c);
  RunCfg c; c.flags=WR_INCLUDE_GLOBALS; c.stack=300; RunOut o=runProgram(s,c); g_st.inc("histories"); g_st.inc("events",o.trace.size()); g_st.seen(hashStr64(s));
  if(o.cerr) violation("edit-refused",fmt("error %d",o.cerr),s); else if(o.err||!o.ctx) violation("edit-error",fmt("error %d",o.err),s); else if(o.trace!=exp) violation("edit-trace",diffTrace(exp,o.trace),s); else if(o.leaked) violation("edit-leak",fmt("%zu blocks leaked",o.leaked),s); }
int main(int n,char**v){ g_modes["limits"]=limCase; g_modes["data"]=[](Rng&r,long n){ g_lim3=true; limCase(r,n); }; g_modes["jumps"]=jumpCase; g_modes["edits"]=editCase; return harnessMain(n,v); }
