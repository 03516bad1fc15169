// damaged, random and extreme source texts (used by src.cpp, bal.cpp)
#pragma once
static const char* VOC[]={"var","int","float","function","struct","enum","new","if","else","while","for","do","break","continue","return","switch","case","default","goto","yield","gc_pause","true","false","null","global","::","this","unit","meta","const","export","library","namespace","import","include",
 "(",")","{","}","[","]",";",",",":",".","=","==","!=","<",">","<=",">=","+","-","*","/","%","&","|","^","~","!","&&","||","<<",">>","++","--","+=","-=","*=","/=","%=","&=","|=","^=","<<=",">>=","->","=>","@","#","$","?","\\","'","\"","\"a\"","'c'","'\\n'","'ab'","\"\\x41\"","\"unterminated","/*","*/","//","0","1","-1","127","128","255","256","32767","32768","65535","65536","2147483647","2147483648","4294967295","4294967296","99999999999999999999","0x","0xFFFFFFFF","0x1FFFFFFFF","0b","0b101","08","017","1.5","1.","1e5",".5","1.5f","3.4e39","0.000001","a","b","c","i","x","f","g","S","T","_count","_exists","_remove","_hash","a._count","a.b","a[0]","a[b]","f()","f(1,2)","S::x","::a","lib::fn","str::len","math::sin","x::y::z","a:b","(int)","(float)","{1,2}","{1:2}","{}","[]","\n","\t","\r"," ","label:","L:","goto L","case 1:","default:","var a","var a[]","var a[5]","var a = 1","function f(a,b)","struct S{var a;}","struct S(x){var a=x;}","new S()","new S(1){2,3}","for(;;)","for(var i:a)","for(k,v:a)","while(0)","if(1)","switch(a)","enum{A,B=5,C}","enum E{A}","E::A","\x00","\xff","\x80","`"};
static Str tok(Rng&r){ const char*t=VOC[r.below(sizeof VOC/sizeof*VOC)]; if(!*t) return Str(1,'\0'); return t; }
static Vec<Str> lex(const Str&s){ Vec<Str> t; size_t i=0; while(i<s.size()){ size_t j=i+1; if(isalnum((unsigned char)s[i])||s[i]=='_') while(j<s.size()&&(isalnum((unsigned char)s[j])||s[j]=='_')) j++; else if(s[i]=='"'){ while(j<s.size()&&s[j]!='"') j+=s[j]=='\\'?2:1; j=std::min(s.size(),j+1); } t.push_back(s.substr(i,j-i)); i=j; } return t; }
static Str mutate(Rng&r,const Str&src,const Str&other){ Vec<Str> t=lex(src), u=lex(other); int n=r.range(1,6);
  for(int k=0;k<n&&!t.empty();k++){ size_t at=r.below((int)t.size()); switch(r.below(12)){
    case 0: t.erase(t.begin()+at); break; case 1: t.insert(t.begin()+at,tok(r)); break; case 2: t[at]=tok(r); break; case 3: t.insert(t.begin()+at,t[r.below((int)t.size())]); break;
    case 4: { size_t b=r.below((int)t.size()); std::swap(t[at],t[b]); break; } case 5: { size_t e=std::min(t.size(),at+1+r.below(30)); t.erase(t.begin()+at,t.begin()+e); break; }
    case 6: if(!u.empty()){ size_t a=r.below((int)u.size()),e=std::min(u.size(),a+1+r.below(30)); t.insert(t.begin()+at,u.begin()+a,u.begin()+e); } break;
    case 7: { size_t e=std::min(t.size(),at+1+r.below(20)); Vec<Str> c(t.begin()+at,t.begin()+e); t.insert(t.begin()+at,c.begin(),c.end()); break; }
    case 8: if(!t[at].empty()) t[at].erase(r.below((int)t[at].size()),1); break; case 9: if(!t[at].empty()) t[at][r.below((int)t[at].size())]=(char)r.u32(); break;
    case 10: t.resize(at); break; default: t[at].insert(r.below((int)t[at].size()+1),1,";(){}[]+=\"'09aZ_:,.<>!~*/-&|^%\\"[r.below(31)]); } }
  Str o; for(auto&x:t) o+=x; return o; }
static Str rep(const Str&s,int n){ Str o; o.reserve(s.size()*n); for(int i=0;i<n;i++) o+=s; return o; }
static Str num(const char*f,int n,const char*sep=""){ Str o; for(int i=0;i<n;i++){ if(i)o+=sep; o+=fmt(f,i,i); } return o; }
static Str extreme(Rng&r){ static const int EDGE[]={1,2,7,8,15,16,17,31,63,64,100,120,126,127,128,129,130,200,253,254,255,256,257,258,300,500,511,512,513,1000,2000}; int n=EDGE[r.below(31)]; int big=r.pick(Vec<int>{1000,4000,8000,16000,32000,32767,33000,40000,65530,65535,65536,66000});
  if(r.chance(12)){ // nesting of any depth: the host's stack is not the program's to exhaust
    static const char*N[][2]={{"(",")"},{"if(a){","}"},{"{","}"},{"function f(){","}"},{"while(1)",""},{"a[","]"},{"f(",")"},{"switch(a){case 1:","}"},{"for(;;)",""},{"do ",""},{"new S(",")"},{"if(a){}else ",""},{"struct S{","}"},{"{1:","}"},{"return(",")"},{"-",""},{"!",""},{"(int)",""},{"/**/",""},{"//\n",""},{"a=",""},{"x::",""}};
    int k=r.below(22); int d=r.pick(Vec<int>{50,400,990,1100,8000}); if(k>=15&&k!=18&&k!=19) d=std::min(d,400); if(k==18||k==19) d*=4; return Str(r.chance(50)?"var a = ":"")+rep(N[k][0],d)+"1"+rep(N[k][1],r.chance(80)?d:d/2)+";"; }
  switch(r.below(40)){
    case 0: return num("var v%d = %d;\n",std::min(n,600)); case 1: return "function f() {\n"+num("var v%d = %d;\n",std::min(n,600))+"}\nf();\n"; case 2: return num("function f%d() { return %d; }\n",n); case 3: return "function f("+num("a%d",n,",")+") { return a0; }\nf("+num("%d",n,",")+");\n";
    case 4: return "log("+num("%d",n,",")+");\n"; case 5: return "var a[] = {"+num("%d",r.chance(95)?n:big/8,",")+"};\n"; case 6: return "var h = {"+num("%d:%d",r.chance(95)?n:big/16,",")+"};\n"; case 7: return num("struct S%d { var a; };\n",n)+"var x = new S0();\n";
    case 8: return "struct S {"+num("var m%d = %d;",std::min(n,600))+"};\nvar s = new S();\n"; case 9: return "enum {"+num("e%d",n,",")+"}\n"; case 10: return "var a = 1;\nswitch(a) {"+num("case %d: a = %d; break;\n",n)+"}\n"; case 11: return "var a;\nswitch(a) {"+num("case %d000: a = %d; break;\n",n)+"}\n";
    case 12: { int d=r.pick(Vec<int>{5,30,60,90,200}); return "var a = "+rep("(",d)+"1"+rep(")",r.chance(80)?d:d-1)+";\n"; } case 13: { int d=r.pick(Vec<int>{5,30,90,200}); return "var a;\n"+rep("if ( a ) {\n",d)+"a = 1;\n"+rep("}\n",r.chance(80)?d:d-1); }
    case 14: { int d=r.pick(Vec<int>{5,30,90}); return "var a = "+rep("{",d)+"1"+rep("}",d)+";\n"; } case 15: { int d=r.pick(Vec<int>{5,30,90}); return "var a;\n"+rep("while ( a ) {\n",d)+"break;\n"+rep("}\n",d); }
    case 16: return "var a = 0;\nif ( a ) {\n"+rep("a = \""+rep("k",997)+"\";\n",big/1000+r.below(2))+rep("a = a + 1;\n",r.below(300))+"}\nelse { a = 2; }\n"; case 17: return "var a = 1"+rep(" + 1",std::min(n,300))+";\n"; case 18: return "var a = 1; a = a"+rep(" * a - a",std::min(n,130))+";\n"; case 19: return "var a = \""+rep("s",r.chance(50)?n:big)+"\";\n";
    case 20: return "var "+rep("v",r.chance(50)?n:big)+" = 1;\n"; case 21: return num("lab%d:\n",n)+"goto lab0;\n"; case 22: return "function f() {"+num("goto l%d;\n",n)+num("l%d:\n",n)+"}\n"; case 23: return "function f() {"+num("l%d:\n",n)+num("goto l%d;\n",n)+"}\n";
    case 24: return rep("{",r.range(1,200)); case 25: return rep("(",r.range(1,200)); case 26: return rep("[",r.range(1,200)); case 27: return "var a = "+rep("-",r.range(1,100))+"1;"; case 28: return "/* "+rep("x",n); case 29: return "var a = \"abc"+rep("\\",r.range(1,5));
    case 30: return "var s = \"a"+Str(r.chance(50)?"\\x":"\\0")+rep("9",n)+"\";\n"; case 31: return "var a = "+rep("9",n)+";\n"; case 32: return "var a = 0x"+rep("F",n)+";\n"; case 33: return "var a = 0."+rep("3",n)+";\n"; case 34: return "var a; a"+rep("[0]",std::min(n,300))+" = 1;\n"; case 35: return "var a; a"+rep(".b",std::min(n,300))+" = 1;\n";
    case 36: return "var a; var b; a = b"+rep(" = b",std::min(n,300))+";\n"; case 37: return "var a; for(;;) {"+rep("for( var i = 0; i < 3; ++i ) {",r.range(1,40))+"break;\n"+rep("}",r.range(1,41)); case 38: return "function f"+rep("(a)",r.range(0,3))+"{ return"+rep(" f(a)",r.range(1,3))+"; }\n"; default: return rep(tok(r)+" ",n); } }

