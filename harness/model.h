// Random wrench programs together with an independent reference evaluator.
//
// The reference semantics is taken from the documentation ("c-defined" operators on 32-bit ints
// and single floats, containers by reference, numbers by value, missing arguments are 0 ...).
// The evaluator refuses ("wild") executions whose meaning the documentation leaves open:
// float overflow/NaN, float->int out of range, nearly-but-not-exactly equal floats.
#pragma once
#include "common.h"
#include <array>
#include <cmath>

namespace M {

struct Wild { const char* why; };
struct Trap {};                    // division by zero in a build that traps it
static bool g_trap=false;
static bool g_noReply=false;        // nobody answers yields: they give 0
struct Cont;
struct Val {
  char k='i'; int32_t i=0; float f=0; std::shared_ptr<Str> s; std::shared_ptr<Cont> c;
  static Val I(int32_t v){ Val r; r.i=v; return r; }
  static Val F(float v){ Val r; r.k='f'; r.f=v; if(!(v==v)||fabsf(v)>1e30f) throw Wild{"float range"}; if(v!=0&&fabsf(v)<1e-30f) throw Wild{"tiny float"}; return r; }
  static Val S(const Str&v){ if(v.size()>3000) throw Wild{"long string"}; Val r; r.k='s'; r.s=std::make_shared<Str>(v); return r; }
};
struct Cont { char kind; int sid=-1; uint64_t sized=0; /* when its size or set of keys was last observed */ Vec<Val> a; std::map<Str,std::pair<Val,Val>> h; };

static Str keyHash(const Val&v){ return fmt("#%08x",v.k=='s'?(unsigned)wr_hash(v.s->data(),(int)v.s->size()):(unsigned)v.i); }
static Str show(const Val&v,int d=0){
  switch(v.k){
    case 'i': return fmt("i:%d",v.i);
    case 'f': return f2s(v.f);
    case 's': return "s:"+esc(*v.s);
    case 'a': { Str o="["; for(size_t i=0;i<v.c->a.size();i++){ if(i)o+=","; o+=show(v.c->a[i],d+1);} return o+"]"; }
    case 'h': { Vec<Str> e; for(auto&p:v.c->h) e.push_back(keyHash(p.second.first)+"="+show(p.second.second,d+1)); std::sort(e.begin(),e.end()); Str o="{"; for(size_t i=0;i<e.size();i++){ if(i)o+=","; o+=e[i]; } return o+"}"; }
    case 't': return "struct";
  } return "?";
}

enum TK { TI, TN, TS, AI, AN, AS, AA, HI, HS, TST };
struct Ty { TK k; int sid=-1; bool operator==(const Ty&o)const{return k==o.k&&sid==o.sid;} };
struct Var { Str name; Ty ty; bool global; int slot; bool param=false; int minlen=4; int maxval=-1; bool ro=false; bool shadowed=false; bool unordered=false; bool alias=false; };
struct Func;
struct Field { Str name; Ty ty; };
struct Stmt; struct Expr;
typedef std::shared_ptr<Expr> E; typedef std::shared_ptr<Stmt> S_;
struct StructDef { Str name; Vec<Field> f; Vec<Var*> ctorArgs; Vec<E> init; bool semi; };
struct EnumDef { Str name; Vec<std::pair<Str,int>> e; Vec<bool> explicitVal; };
struct Func { Str name; Vec<Var*> params; Ty ret; bool pure=true; bool recursive=false; bool logs=false; Vec<S_> body; int nslots=0; Vec<std::unique_ptr<Var>> own; bool forceGlobalSyntax=false; };

enum EK { eLit, eVar, eBin, eUn, eCast, eCall, eNat, eIdx, eHIdx, eHDot, eMem, eCount, eExists, eInc, eAsg, eArrLit, eHashLit, eNew, eEnum, eYield };
struct Expr { EK k; Val lit; Str text; Str op; Vec<E> a; Var* v=0; Func* fn=0; int idx=0; int sid=-1; bool paren=false; Ty ty{TI}; bool byName=false; Vec<int> names; bool dot=false; };
enum SK { sDecl, sExpr, sAsg, sLog, sIf, sWhile, sDo, sFor, sForeach, sSwitch, sBreak, sContinue, sReturn, sGotoBlk, sGoto, sBackGoto, sBlock, sYield, sRemove, sExistsLog, sArrDecl };
struct Case { bool def=false; E label; Vec<S_> body; Val val; };
struct Stmt { SK k; int id=0; E e,e2,e3; Var* v=0; Var* v2=0; Str op; Vec<E> ex; Vec<S_> b,b2; Vec<Case> cases; Str label; int n=0; bool flag=false; bool braces=true; bool flag2=false; };

static E mk(EK k){ auto e=std::make_shared<Expr>(); e->k=k; return e; }

static int prec(const Str&op){
  static std::map<Str,int> p={{"*",5},{"/",5},{"%",5},{"+",6},{"-",6},{"<<",7},{">>",7},{"<",9},{">",9},{"<=",9},{">=",9},{"==",10},{"!=",10},{"&",11},{"^",12},{"|",13},{"&&",14},{"||",15}};
  return p[op];
}

struct Profile { // percentages / weights
  int floats=30, strings=15, containers=30, control=50, funcs=50, effects=12, structs=25, yields=0, gotos=15, switches=30, exprDepth=4, stmts=12, bigcode=3, foreachs=25, swstr=20, zerodiv=2; bool quietFuncs=false;
};

struct Program {
  Vec<std::unique_ptr<Var>> globals; Vec<std::unique_ptr<Func>> funcs; Vec<std::unique_ptr<StructDef>> structs; Vec<std::unique_ptr<EnumDef>> enums;
  Vec<S_> decls, main; Vec<int> fnAfter; // function i printed after main if set
  std::set<int> off; int nextId=1;
  Str text; Vec<Str> scalarNames, contNames;
};

//------------------------------------------------------------------ generator
struct Gen {
  Rng&r; Program&p; const Profile&pf; int uniq=0; int budget=0;
  Gen(Rng&r_,Program&p_,const Profile&f):r(r_),p(p_),pf(f){}
  Func*cur=0; Vec<Var*> scope; int loopDepth=0, brk=0; Vec<Str> labels; Var* effVar=0; bool noGlobals=false; bool inSwitchInLoop=false;
  int callDepthLimit=0; int fnIndex=0; bool mayYield=true;

  Str ident(const char*base){ Str s=fmt("%s%d",base,uniq++); if(r.chance(40)){ int n=r.range(1,6); s+="_"; for(int i=0;i<n;i++) s+=(char)("abcdefghijklmnopqrstuvwxyzABCDEFXYZ0123456789_"[r.below(46)]); } return s; }
  static bool isNum(const Ty&t){ return t.k==TI||t.k==TN; }

  Var* newGlobal(Ty t,int minlen=4){ auto v=std::make_unique<Var>(); v->name=ident("g"); v->ty=t; v->global=true; v->slot=(int)p.globals.size(); v->minlen=minlen; Var*q=v.get(); p.globals.push_back(std::move(v)); return q; }
  Var* newLocal(Ty t,int minlen=4,const char*base="v"){
    if(!cur) return newGlobal(t,minlen);
    auto v=std::make_unique<Var>(); v->name=ident(base); v->ty=t; v->global=false; v->slot=cur->nslots++; v->minlen=minlen; Var*q=v.get(); cur->own.push_back(std::move(v)); return q; }

  Val randInt(){
    switch(r.below(9)){ case 0: return Val::I(0); case 1: return Val::I(r.range(-3,9)); case 2: return Val::I(r.range(-128,127)); case 3: return Val::I(r.range(-32768,32767)); case 4: return Val::I((int32_t)r.u32());
      case 5: { static const int32_t e[]={127,128,-128,-129,255,256,32767,32768,-32768,-32769,65535,65536,2147483647,-2147483647,(int32_t)0x80000000,1,-1,0x7f7f7f7f}; return Val::I(e[r.below(18)]); }
      case 6: return Val::I(1<<r.below(31)); default: return Val::I(r.range(0,20)); } }
  Val randFloat(){ switch(r.below(6)){ case 0: return Val::F((float)r.range(-20,20)); case 1: return Val::F(r.range(-1000,1000)/8.0f); case 2: return Val::F(r.range(1,9)/4.0f); case 3: return Val::F((float)r.range(-100000,100000)/64.0f); case 4: return Val::F(0.5f); default: return Val::F(r.range(-64,64)/16.0f);} }
  Str randStr(){ static const char*w[]={"","a","b","ab","abc","hello","Wrench","x y","0","42","-1","tail ","A longer string literal for concat","\xc3\xa9","zz","q"}; if(r.chance(60)) return w[r.below(16)]; int n=r.below(12); Str s; for(int i=0;i<n;i++) s+=(char)r.range(32,126); return s; }

  E lit(Val v){ auto e=mk(eLit); e->lit=v; e->ty={v.k=='i'?TI:v.k=='f'?TN:TS};
    if(v.k=='i'){ int m=r.below(12); int32_t x=v.i;
      if(m==0&&x>=0) e->text=fmt("0x%X",x); else if(m==1&&x>0) e->text=fmt("0%o",x); else if(m==2&&x>=0&&x<100000){ Str b; int y=x; do{ b.insert(b.begin(),(char)('0'+(y&1))); y>>=1; }while(y); e->text="0b"+b; }
      else if(m==3&&x>=32&&x<127&&x!='\''&&x!='\\'&&x!='"') e->text=fmt("'%c'",x); else if(m==4&&x==1) e->text="true"; else if(m==4&&x==0) e->text=r.chance(50)?"false":"null"; else e->text=fmt("%d",x); }
    else if(v.k=='f'){ e->text=fmt("%.6f",v.f); while(e->text.size()>3&&e->text.back()=='0'&&e->text[e->text.size()-2]!='.'&&r.chance(90)) e->text.pop_back(); if((float)strtod(e->text.c_str(),0)!=v.f) e->text=fmt("%.12f",v.f); if(r.chance(15)&&e->text.back()!='f') e->text+="f"; }
    else { Str t="\""; for(unsigned char c:*v.s){ if(c=='"')t+="\\\""; else if(c=='\\')t+="\\\\"; else if(c=='\n')t+="\\n"; else if(c=='\t')t+="\\t"; else t+=(char)c; } e->text=t+"\""; }
    return e; }
  E smallLit(int a,int b){ return lit(Val::I(r.range(a,b))); }

  Vec<Var*> cands(std::function<bool(Var*)> ok){ Vec<Var*> o; for(Var*v:scope) if(v!=effVar&&!(noGlobals&&v->global)&&ok(v)) o.push_back(v); return o; }
  E var(Var*v){ auto e=mk(eVar); e->v=v; e->ty=v->ty; return e; }
  Var* pickVar(std::function<bool(Var*)> ok){ auto c=cands(ok); return c.empty()?0:c[r.below((int)c.size())]; }

  E index(int minlen,int depth){ // int expression guaranteed inside [0,minlen)
    Var*v=pickVar([&](Var*x){return x->ty.k==TI&&x->maxval>=0&&x->maxval<minlen;});
    if(v&&r.chance(60)) return var(v);
    if(depth>0&&r.chance(25)){ auto b=mk(eBin); b->op="&"; int m=1; while(m*2<=minlen) m*=2; b->a={genI(depth-1),lit(Val::I(m-1))}; return b; }
    return smallLit(0,minlen-1); }
  E key(bool baseOnly){ static const char*bk[]={"a","b"}; if(baseOnly){ int q=r.below(4); if(q<2) return lit(Val::I(q)); return lit(Val::S(bk[q-2])); }
    switch(r.below(6)){ case 0: return lit(Val::I(r.range(2,40))); case 1: return lit(Val::I((int)r.u32()&0x7ffffff0)); case 2: return lit(Val::S(fmt("k%d",r.below(30)))); case 3: return lit(Val::I(-r.range(2,1000))); case 4: return lit(Val::I(r.range(2,12)*11)); default: return lit(Val::S(randStr()+"_")); } }

  E elemOf(TK arrK,int depth){ Var*v=pickVar([&](Var*x){return x->ty.k==arrK;}); if(!v) return 0; auto e=mk(eIdx); e->a={var(v),index(v->minlen,depth)}; e->ty={arrK==AI?TI:arrK==AN?TN:arrK==AS?TS:AI}; return e; }
  E elemOfAA(int depth){ Var*v=pickVar([&](Var*x){return x->ty.k==AA;}); if(!v) return 0; auto e=mk(eIdx); e->a={var(v),index(v->minlen,0)}; e->ty={AI}; auto e2=mk(eIdx); e2->a={e,index(4,depth)}; e2->ty={TI}; return e2; }
  E hashOf(TK hk,int depth){ Var*v=pickVar([&](Var*x){return x->ty.k==hk;}); if(!v) return 0; E k=key(true); E e;
    if(k->lit.k=='s'&&r.chance(40)){ e=mk(eHDot); e->text=*k->lit.s; e->a={var(v)}; e->lit=k->lit; } else { e=mk(eHIdx); e->a={var(v),k}; }
    e->ty={hk==HI?TI:TS}; return e; }
  E memberOf(std::function<bool(const Ty&)> ok){ Vec<std::pair<Var*,int>> o; for(Var*v:scope) if(v!=effVar&&!(noGlobals&&v->global)&&v->ty.k==TST){ auto&d=*p.structs[v->ty.sid]; for(size_t i=0;i<d.f.size();i++) if(ok(d.f[i].ty)) o.push_back({v,(int)i}); }
    if(o.empty()) return 0; auto q=o[r.below((int)o.size())]; auto e=mk(eMem); e->a={var(q.first)}; e->sid=q.first->ty.sid; e->idx=q.second; e->ty=p.structs[e->sid]->f[e->idx].ty; return e; }

  Func* pickFn(std::function<bool(Func*)> ok){ Vec<Func*> o; for(int i=0;i<fnIndex&&i<(int)p.funcs.size();i++) if(ok(p.funcs[i].get())) o.push_back(p.funcs[i].get()); return o.empty()?0:o[r.below((int)o.size())]; }
  E callArg(Var*prm,int depth){ if(prm->maxval>=0) return smallLit(0,prm->maxval); switch(prm->ty.k){ case TI: return genI(depth-1); case TN: return genN(depth-1); case TS: return genS(depth-1); default: { Var*v=pickVar([&](Var*x){return x->ty==prm->ty&&x->minlen>=prm->minlen;}); return v?var(v):E(); } } }
  E call(Func*f,int depth){ auto e=mk(eCall); e->fn=f; e->ty=f->ret; size_t n=f->params.size();
    size_t given=n; while(given>0&&isNum(f->params[given-1]->ty)&&f->params[given-1]->maxval<0&&r.chance(7)) --given;
    for(size_t i=0;i<given;i++){ E a=callArg(f->params[i],depth); if(!a) return 0;
      // a variable is passed by reference: keep functions that assign variables from seeing their own effect through a parameter
      if(!f->pure&&a->k!=eLit&&a->ty.k<=TS){ auto w=mk(eNat); w->ty=a->ty; w->text="id"; w->a={a}; a=w; }
      e->a.push_back(a); }
    if(given==n&&r.chance(n?5:12)) do e->a.push_back(smallLit(0,9)); while(r.chance(50)&&e->a.size()<n+6);
    return e; }

  E bin(const Str&op,E a,E b,Ty t){ auto e=mk(eBin); e->op=op; e->a={a,b}; e->ty=t; e->paren=r.chance(12); return e; }
  E genLeafI(){ for(int t=0;t<3;t++){ E e; switch(r.below(10)){ case 0:case 1:case 2:case 3:{ Var*v=pickVar([](Var*x){return x->ty.k==TI;}); if(v) return var(v); break; }
      case 4: e=elemOf(AI,0); break; case 5: e=memberOf([](const Ty&t){return t.k==TI;}); break; case 6: e=hashOf(HI,0); break; case 7: e=elemOfAA(0); break;
      case 8: if(!p.enums.empty()&&r.chance(40)){ auto&d=*p.enums[r.below((int)p.enums.size())]; auto&q=d.e[r.below((int)d.e.size())]; e=mk(eEnum); e->text=d.name.empty()?q.first:d.name+"::"+q.first; e->lit=Val::I(q.second); } break; default: break; }
      if(e) return e; }
    return lit(randInt()); }
  E zd(E d){ if(r.below(100)<pf.zerodiv){ if(d->k==eLit&&d->lit.k=='f') return lit(r.chance(50)?Val::F(0):Val::I(0)); if(r.chance(60)) return lit(Val::I(0)); Var*v=pickVar([](Var*x){return x->ty.k==TI;}); if(v){ E z=bin("-",var(v),var(v),{TI}); z->paren=true; return z; } return lit(Val::I(0)); } return d; }
  E genI(int depth){
    if(depth<=0||r.chance(18)) return genLeafI();
    switch(r.below(16)){
      case 0: case 1: case 2: { static const char*o[]={"+","-","*"}; return bin(o[r.below(3)],genI(depth-1),genI(depth-1),{TI}); }
      case 3: { static const char*o[]={"/","%"}; Str q=o[r.below(2)]; E d; if(r.chance(70)){ d=lit(Val::I(r.chance(80)?r.range(1,17):-r.range(1,9))); } else d=genI(depth-1); return bin(q,genI(depth-1),zd(d),{TI}); }
      case 4: case 5: { static const char*o[]={"&","|","^"}; return bin(o[r.below(3)],genI(depth-1),genI(depth-1),{TI}); }
      case 6: { static const char*o[]={"<<",">>"}; E s; if(r.chance(70)) s=smallLit(0,31); else { s=bin("&",genI(depth-1),lit(Val::I(31)),{TI}); } return bin(o[r.below(2)],genI(depth-1),s,{TI}); }
      case 7: case 8: return cond(depth);
      case 9: { static const char*o[]={"&&","||"}; return bin(o[r.below(2)],r.chance(70)?cond(depth-1):genNum(depth-1),r.chance(70)?cond(depth-1):genNum(depth-1),{TI}); }
      case 10: { static const char*o[]={"-","!","~"}; auto e=mk(eUn); e->op=o[r.below(3)]; e->a={e->op=="!"?genNum(depth-1):genI(depth-1)}; e->ty={TI}; return e; }
      case 11: { if(r.below(100)>=pf.funcs) return genLeafI(); Func*f=pickFn([&](Func*f){return f->pure&&f->ret.k==TI;}); if(f){ E e=call(f,depth); if(e) return e; } return genLeafI(); }
      case 12: { auto e=mk(eNat); e->ty={TI}; if(r.chance(50)){ e->text="nsum"; int n=r.below(4); for(int i=0;i<n;i++) e->a.push_back(genI(depth-1)); } else { e->text="id"; e->a={genI(depth-1)}; } return e; }
      case 13: { if(r.below(100)>=pf.floats) return genLeafI(); auto e=mk(eCast); e->op="int"; e->a={genN(depth-1)}; e->ty={TI}; return e; }
      case 14: { Var*v=pickVar([](Var*x){return x->ty.k>=TS&&x->ty.k!=TST;}); if(v){ auto e=mk(eCount); e->a={var(v)}; e->ty={TI}; return e; } return genLeafI(); }
      default: { if(r.below(100)<pf.strings){ Var*v=pickVar([](Var*x){return x->ty.k==TS;}); if(v&&r.chance(30)){ auto e=mk(eIdx); e->a={var(v),smallLit(0,2)}; e->ty={TI}; return e; } return bin(r.chance(50)?"==":"!=",genS(depth-1),genS(depth-1),{TI}); } E e=elemOf(AI,depth-1); return e?e:genLeafI(); }
    } }
  E cond(int depth){ static const char*o[]={"<",">","<=",">=","==","!="}; Str op=o[r.below(6)];
    if(depth<=1||r.chance(45)){ // shapes the optimizer fuses
      E a=simple(), b=r.chance(55)?simple():lit(r.chance(70)||r.below(100)>=pf.floats?Val::I(r.range(-4,12)):randInt()); if(r.chance(15)) std::swap(a,b); return bin(op,a,b,{TI}); }
    return bin(op,genNum(depth-1),genNum(depth-1),{TI}); }
  E simple(){ Var*v=pickVar([](Var*x){return isNum(x->ty);}); if(v) return var(v); return genLeafI(); }
  E genNum(int depth){ return r.below(100)<pf.floats?genN(depth):genI(depth); }
  E genLeafN(){ E e; switch(r.below(8)){ case 0:case 1:case 2:{ Var*v=pickVar([](Var*x){return x->ty.k==TN;}); if(v) return var(v); break; } case 3: e=elemOf(AN,0); break; case 4: e=memberOf([](const Ty&t){return t.k==TN;}); break; case 5: return genLeafI(); default: break; } return e?e:lit(randFloat()); }
  E genN(int depth){
    if(depth<=0||r.chance(22)) return genLeafN();
    switch(r.below(10)){
      case 0:case 1:case 2:case 3: { static const char*o[]={"+","-","*"}; return bin(o[r.below(3)],r.chance(50)?genN(depth-1):genI(depth-1),genN(depth-1),{TN}); }
      case 4: return bin("/",genN(depth-1),r.chance(70)?zd(lit(Val::F(r.range(1,16)/4.0f))):genNum(depth-1),{TN});
      case 5: { auto e=mk(eUn); e->op="-"; e->a={genN(depth-1)}; e->ty={TN}; return e; }
      case 6: { auto e=mk(eCast); e->op="float"; e->a={genI(depth-1)}; e->ty={TN}; return e; }
      case 7: { if(r.below(100)>=pf.funcs) return genLeafN(); Func*f=pickFn([&](Func*f){return f->pure&&f->ret.k==TN;}); if(f){ E e=call(f,depth); if(e) return e; } return genLeafN(); }
      case 8: { auto e=mk(eNat); e->ty={TN}; e->text="id"; e->a={genN(depth-1)}; return e; }
      default: return genI(depth-1); } }
  E genLeafS(){ E e; switch(r.below(6)){ case 0:case 1:{ Var*v=pickVar([](Var*x){return x->ty.k==TS;}); if(v) return var(v); break; } case 2: e=elemOf(AS,0); break; case 3: e=hashOf(HS,0); break; case 4: e=memberOf([](const Ty&t){return t.k==TS;}); break; default: break; } return e?e:lit(Val::S(randStr())); }
  E genS(int depth){
    if(depth<=0||r.chance(35)) return genLeafS();
    switch(r.below(6)){
      case 0: case 1: return bin("+",genS(depth-1),genS(depth-1),{TS});
      case 2: return bin("+",genS(depth-1),r.chance(75)?genI(1):lit(Val::F(r.range(-400,400)/4.0f)),{TS});
      case 3: return bin("+",r.chance(75)?genI(1):lit(Val::F(r.range(-400,400)/4.0f)),genS(depth-1),{TS});
      case 4: { Func*f=pickFn([&](Func*f){return f->pure&&f->ret.k==TS;}); if(f){ E e=call(f,depth); if(e) return e; } return genLeafS(); }
      default: { auto e=mk(eNat); e->ty={TS}; e->text="id"; e->a={genS(depth-1)}; return e; } } }
  E genOf(const Ty&t,int depth){ switch(t.k){ case TI: return genI(depth); case TN: return genNum(depth); case TS: return genS(depth); default: return container(t,4,depth); } }

  E arrLit(TK k,int minlen,int depth){ auto e=mk(eArrLit); e->ty={k}; int n=minlen+r.below(4); for(int i=0;i<n;i++){ if(k==AI) e->a.push_back(genI(depth>1?1:0)); else if(k==AN) e->a.push_back(genNum(depth>1?1:0)); else if(k==AS) e->a.push_back(genS(depth>1?1:0)); else e->a.push_back(arrLit(AI,4,0)); } return e; }
  E hashLit(TK k,int depth){ auto e=mk(eHashLit); e->ty={k}; auto add=[&](E key){ e->a.push_back(key); e->a.push_back(k==HI?genI(depth>1?1:0):genS(depth>1?1:0)); };
    add(lit(Val::I(0))); add(lit(Val::I(1))); add(lit(Val::S("a"))); add(lit(Val::S("b"))); int n=r.below(5); std::set<Str> used; for(int i=0;i<n;i++){ E q=key(false); if(used.insert(show(q->lit)).second) add(q); } return e; }
  // the grammar of named member initialisers takes operators on plain names and literals only
  E flatOf(const Ty&t){ auto leaf=[&](TK k){ Var*v=r.chance(60)?pickVar([&](Var*x){return x->ty.k==k;}):0; if(v) return var(v); return lit(k==TI?Val::I(r.range(0,300)):k==TN?Val::F(r.range(0,64)/8.0f):Val::S(r.chance(50)?"tail":"q")); };
    E a=leaf(t.k); if(r.chance(50)){ static const char*o[]={"+","-","*"}; E b=leaf(t.k); E e=bin(t.k==TS?"+":o[r.below(3)],a,b,t); e->paren=false; return e; } return a; }
  E newStruct(int sid,int depth){ auto e=mk(eNew); e->sid=sid; e->ty={TST,sid}; auto&d=*p.structs[sid];
    for(size_t i=0;i<d.ctorArgs.size();i++) e->a.push_back(genOf(d.ctorArgs[i]->ty,depth>1?1:0));
    e->idx=(int)e->a.size();
    int m=r.below(3); if(m){ e->byName=m==1; if(m==1){ for(size_t i=0;i<d.f.size();i++) if(r.chance(50)&&d.f[i].ty.k<=TS){ e->names.push_back((int)i); e->a.push_back(flatOf(d.f[i].ty)); } } else { int n=r.range(1,(int)d.f.size()); for(int i=0;i<n;i++){ if(d.f[i].ty.k>TS) break; e->names.push_back(i); e->a.push_back(genOf(d.f[i].ty,1)); } } }
    return e; }
  E container(const Ty&t,int minlen,int depth){ if(t.k==TST) return newStruct(t.sid,depth); if(t.k==HI||t.k==HS) return hashLit(t.k,depth); return arrLit(t.k,minlen,depth); }

  //---- statements
  S_ st(SK k){ auto s=std::make_shared<Stmt>(); s->k=k; s->id=p.nextId++; s->braces=true; return s; }
  Ty randTy(bool withCont){ int q=r.below(100); if(withCont&&q<pf.containers){ switch(r.below(pf.strings?8:6)){ case 0:case 1: return {AI}; case 2: return {AN}; case 3: return {HI}; case 4: return {AA}; case 5: if(!p.structs.empty()) return {TST,r.below((int)p.structs.size())}; return {AI}; case 6: return {HS}; default: return {AS}; } }
    if(r.below(100)<pf.strings) return {TS}; return {r.below(100)<pf.floats?TN:TI}; }
  bool typeUsable(const Ty&t){ if(t.k==AN&&!pf.floats) return false; return true; }

  void collectVars(const E&e,std::set<Var*>&o,bool&impure){ if(!e) return; if(e->v) o.insert(e->v); if(e->k==eCall&&!e->fn->pure) impure=true; for(auto&q:e->a) collectVars(q,o,impure); }
  // attach at most one side effect to an expression tree (never under && or ||)
  bool injectEffect(E&root){ Vec<E*> leaves; std::function<void(E&)> walk=[&](E&e){ if(e->k==eBin&&(e->op=="&&"||e->op=="||")) return; if(e->k==eIdx||e->k==eHIdx||e->k==eHDot||e->k==eMem||e->k==eCount||e->k==eExists) return; if((e->k==eVar||e->k==eLit)&&(e->ty.k==TI||e->ty.k==TN)) leaves.push_back(&e); for(auto&q:e->a) walk(q); };
    walk(root); if(leaves.empty()) return false; std::set<Var*> used; bool imp=false; collectVars(root,used,imp); if(imp) return false;
    Vec<Var*> c; for(Var*v:scope) if(isNum(v->ty)&&!v->ro&&!v->param&&!used.count(v)) c.push_back(v); if(c.empty()) return false;
    E*tgt=leaves[r.below((int)leaves.size())]; Vec<Var*> c2; for(Var*v:c) if(v->ty.k==(*tgt)->ty.k||(v->ty.k==TI)) c2.push_back(v); if(c2.empty()) return false; Var*v=c2[r.below((int)c2.size())];
    E e; if(r.chance(65)){ static const char*o[]={"++x","--x","x++","x--"}; e=mk(eInc); e->op=o[r.below(4)]; e->a={var(v)}; e->ty=v->ty; }
    else { e=mk(eAsg); static const char*o[]={"=","=","+=","-=","*="}; e->op=o[r.below(5)]; Var*sv=effVar; effVar=v; e->a={var(v),v->ty.k==TI?genI(1):genNum(1)}; effVar=sv; std::set<Var*> u2; bool im2=false; collectVars(e->a[1],u2,im2); if(im2) return false; e->ty=v->ty; }
    *tgt=e; return true; }

  // a pure function leaves the containers it is handed alone (containers are passed by reference)
  static bool rootParam(const E&e){ E q=e; while(q&&q->k!=eVar&&!q->a.empty()) q=q->a[0]; return q&&q->k==eVar&&(q->v->param||q->v->alias); }
  E lvalue(Ty*t){ // assignable place
    for(int k=0;k<6;k++){ E e; switch(r.below(9)){ case 0:case 1:case 2:case 3:{ Var*v=pickVar([](Var*x){return !x->ro&&!x->param&&x->ty.k<=TS;}); if(v) e=var(v); break; } case 4: e=elemOf(AI,1); break; case 5: e=r.chance(50)?elemOf(AN,1):elemOf(AS,1); break; case 6: e=hashOf(r.chance(70)?HI:HS,1); break; case 7: e=memberOf([](const Ty&t){return t.k<=TS;}); break; default: e=elemOfAA(1); }
      if(e&&cur&&cur->pure&&rootParam(e)) e=0; if(e){ *t=e->ty; return e; } } return 0; }
  S_ assign(){ Ty t; E lv=lvalue(&t); if(!lv) return logStmt(); auto s=st(sAsg); s->e=lv;
    if(t.k==TS){ s->op=r.chance(60)?"=":"+="; s->e2=s->op=="="||r.chance(60)?genS(2):(r.chance(70)?genI(1):lit(Val::F(r.range(-400,400)/4.0f))); return s; }
    if(t.k==TI){ static const char*o[]={"=","=","=","=","+=","-=","*=","/=","%=","|=","&=","^=","<<=",">>="}; s->op=o[r.below(14)]; if(s->op=="<<="||s->op==">>=") s->e2=smallLit(0,31); else if(s->op=="/="||s->op=="%=") s->e2=r.chance(60)?smallLit(1,9):genI(1); else s->e2=genI(r.chance(40)?pf.exprDepth:r.below(3)); }
    else { static const char*o[]={"=","=","=","+=","-=","*=","/="}; s->op=o[r.below(7)]; s->e2=s->op=="/="?(r.chance(60)?zd(lit(Val::F(r.range(1,16)/4.0f))):genNum(1)):genNum(r.chance(40)?pf.exprDepth:r.below(3)); }
    if(s->op!="="&&lv->k==eVar){ std::set<Var*> u; bool im=false; collectVars(s->e2,u,im); (void)u; }
    if(lv->k==eVar&&s->op=="="&&r.below(100)<pf.effects){ Var*sv=effVar; // do not modify the assigned variable itself
        Vec<Var*> keep=scope; scope.erase(std::remove(scope.begin(),scope.end(),lv->v),scope.end()); injectEffect(s->e2); scope=keep; effVar=sv; }
    return s; }
  S_ incStmt(){ auto c=cands([](Var*x){return isNum(x->ty)&&!x->ro&&!x->param;}); E tgt; Ty t; if(!c.empty()&&r.chance(70)) tgt=var(c[r.below((int)c.size())]); else { tgt=lvalue(&t); if(!tgt||!isNum(tgt->ty)) return logStmt(); }
    static const char*o[]={"++x","--x","x++","x--"}; auto s=st(sExpr); auto e=mk(eInc); e->op=o[r.below(4)]; e->a={tgt}; e->ty=tgt->ty; s->e=e; return s; }
  int logId=0;
  S_ logStmt(){ if(cur&&cur->pure){ auto s=st(sExpr); auto e=mk(eNat); e->ty={TI}; e->text="nsum"; e->a={genI(2)}; s->e=e; return s; }
    auto s=st(sLog); int n=r.range(1,4); bool eff=r.below(100)<pf.effects; if(eff) n=1; for(int i=0;i<n;i++){ int q=r.below(100); E e=q<55?genI(pf.exprDepth):q<55+pf.floats/2?genN(pf.exprDepth):q<75&&pf.strings?genS(2):genI(2); s->ex.push_back(e);} if(eff) injectEffect(s->ex[0]); return s; }
  S_ logVars(){ auto s=st(sLog); for(Var*v:scope) if(v->ty.k<=TS&&s->ex.size()<12) s->ex.push_back(var(v)); if(s->ex.empty()) s->ex.push_back(lit(Val::I(7))); return s; }
  S_ decl(){ Ty t=randTy(true); int ml=r.chance(30)?8:4; auto s=st(sDecl);
    s->e=t.k<=TS?genOf(t,r.chance(40)?pf.exprDepth:r.below(3)):container(t,ml,2);
    if(t.k>TS){ Var*q=pickVar([&](Var*x){return x->ty==t&&x->minlen>=ml;}); if(q&&r.chance(25)) s->e=var(q); }
    s->v=newLocal(t,ml); if(t.k>TS&&s->e->k==eVar&&(s->e->v->param||s->e->v->alias)) s->v->alias=true; scope.push_back(s->v); s->flag=(t.k==AI||t.k==AN||t.k==AS||t.k==AA)&&s->e->k==eArrLit&&r.chance(60); return s; }
  S_ impureCall(){ Func*f=pickFn([&](Func*f){return !f->pure&&!(cur&&cur->pure)&&frozen.empty();}); if(!f) return logStmt(); E c=call(f,2); if(!c) return logStmt();
    if(isNum(f->ret)||f->ret.k==TS){ int q=r.below(4); if(q==0){ auto s=st(sExpr); s->e=c; return s; } if(q==1){ auto s=st(sLog); s->ex={c}; return s; } Var*v=pickVar([&](Var*x){return x->ty==f->ret&&!x->ro&&!x->param;}); if(v){ auto s=st(sAsg); s->e=var(v); s->op="="; s->e2=c; return s; } }
    else { Var*v=pickVar([&](Var*x){return x->ty==f->ret&&x->minlen<=4&&!x->ro&&!x->param&&!(cur&&x->global);}); if(v){ auto s=st(sAsg); s->e=var(v); s->op="="; s->e2=c; return s; } }
    auto s=st(sExpr); s->e=c; return s; }
  // whether the target entry exists when the right side is evaluated is left open: no counts there
  static bool hasCount(const E&e){ if(!e) return false; if(e->k==eCount) return true; for(auto&q:e->a) if(hasCount(q)) return true; return false; }
  E noCount(E e,const Ty&t){ if(hasCount(e)) return lit(t.k==TS?Val::S("nc"):t.k==TI?Val::I(r.below(99)):Val::F(r.below(40)/4.0f)); return e; }
  bool own_(Var*x){ return !(cur&&cur->pure&&(x->param||x->alias)); }
  S_ contStmt(){ // container-only operations
    switch(r.below(6)){
      case 0: { Var*v=pickVar([&](Var*x){return (x->ty.k==HI||x->ty.k==HS)&&own_(x);}); if(!v) break; auto s=st(sAsg); auto e=mk(eHIdx); e->a={var(v),key(false)}; e->ty={v->ty.k==HI?TI:TS}; s->e=e; s->op="="; s->e2=noCount(genOf(e->ty,2),e->ty); return s; }
      case 1: { Var*v=pickVar([&](Var*x){return (x->ty.k==HI||x->ty.k==HS)&&own_(x);}); if(!v) break; auto s=st(sRemove); s->e=var(v); s->e2=key(false); return s; }
      case 2: { Var*v=pickVar([](Var*x){return x->ty.k==HI||x->ty.k==HS;}); if(!v) break; auto s=st(sExistsLog); s->e=var(v); s->e2=key(r.chance(20)); return s; }
      case 3: { Var*v=pickVar([&](Var*x){return (x->ty.k==AI||x->ty.k==AN)&&own_(x);}); if(!v||!frozen.empty()) break; auto s=st(sAsg); auto e=mk(eIdx); int far=r.chance(10)?r.range(20,300):r.range(0,12); e->a={var(v),r.chance(50)?lit(Val::I(far)):index(v->minlen,1)}; e->ty={v->ty.k==AI?TI:TN}; s->e=e; s->op="="; s->e2=noCount(genOf(e->ty,2),e->ty); return s; }
      case 4: { Var*v=pickVar([&](Var*x){return x->ty.k>TS&&!x->ro&&!x->param&&!(cur&&x->global);}); if(!v||!frozen.empty()) break; auto s=st(sAsg); s->e=var(v); s->op="="; Var*q=pickVar([&](Var*x){return x!=v&&x->ty==v->ty&&x->minlen>=v->minlen;}); s->e2=q&&r.chance(50)?var(q):container(v->ty,v->minlen,2); if(s->e2->k==eVar&&(q->param||q->alias)) v->alias=true; return s; }
      default: { Var*v=pickVar([](Var*x){return x->ty.k>TS&&x->ty.k!=TST;}); if(!v) break; auto s=st(sLog); s->ex={var(v)}; return s; } }
    return assign(); }

  Vec<S_> block(int n,int depth){ size_t mark=scope.size(); Vec<S_> b; for(int i=0;i<n;i++) b.push_back(stmt(depth)); scope.resize(mark); return b; }
  S_ counterDecl(int n,Var**v){ auto s=st(sDecl); s->v=newLocal({TI},4,"c"); s->v->ro=true; s->e=lit(Val::I(n)); s->e->text=fmt("%d",n); scope.push_back(s->v); *v=s->v; return s; }
  S_ wrap(Vec<S_> b){ auto s=st(sBlock); s->b=b; return s; }
  E condE(int depth){ E c=r.chance(75)?cond(depth):(r.chance(70)?genI(depth):genNum(depth)); return c; }

  S_ stmt(int depth){
    if(budget--<=0) return r.chance(50)?logStmt():assign();
    bool deep=depth>0;
    int q=r.below(100);
    if(deep&&q<pf.control){
      switch(r.below(12)){
        case 0:case 1:case 2: { auto s=st(sIf); s->e=condE(pf.exprDepth-1); if(r.below(100)<pf.effects/2) injectEffect(s->e); s->b=block(r.range(1,3),depth-1); if(r.chance(50)) s->b2=block(r.range(1,3),depth-1); s->braces=r.chance(80); s->flag=r.chance(40); return s; }
        case 3: { Var*v; auto d=counterDecl(r.range(0,4),&v); auto s=st(sWhile); s->v=v; s->n=r.below(4); if(r.chance(50)) s->e=condE(2); loopDepth++; brk++; s->b=block(r.range(1,3),depth-1); loopDepth--; brk--; return seq(d,s); }
        case 4: { Var*v; auto d=counterDecl(r.range(0,3),&v); auto s=st(sDo); s->v=v; s->n=r.below(3); loopDepth++; brk++; s->b=block(r.range(1,3),depth-1); loopDepth--; brk--; return seq(d,s); }
        case 5:case 6: { auto s=st(sFor); int n=r.range(1,8); s->v=newLocal({TI},4,"i"); s->v->ro=true; s->v->maxval=n; s->n=n; s->op=r.pick(Vec<Str>{"++i","i++","i+=1","i=i+1","i+=2","--i"}); s->flag=r.chance(70); if(r.chance(20)) s->e=condE(1); size_t mark=scope.size(); scope.push_back(s->v); s->v->maxval=s->op=="--i"?n:n-1; loopDepth++; brk++; s->b=block(r.range(1,3),depth-1); loopDepth--; brk--; scope.resize(mark); if(!s->flag){ auto d=st(sDecl); d->v=s->v; d->e=lit(Val::I(99)); d->e->text="99"; return seq(d,s);} return s; }
        case 7: { if(r.below(100)>=pf.foreachs) return assign(); Var*a=pickVar([](Var*x){return x->ty.k==AI||x->ty.k==AN||x->ty.k==AS||x->ty.k==HI;}); if(!a) return assign(); auto s=st(sForeach); s->e=var(a); s->flag=r.chance(50); 
            Ty et={a->ty.k==AI||a->ty.k==HI?TI:a->ty.k==AN?TN:TS}; s->v=newLocal(et,4,"e"); s->v->ro=true; if(s->flag){ s->v2=newLocal({TI},4,"k"); s->v2->ro=true; }
            if(a->ty.k==HI){ // order is unspecified: only commutative accumulation
              Var*acc=pickVar([&](Var*x){return x->ty.k==TI&&!x->ro&&!x->param;}); if(!acc) return assign(); auto b=st(sAsg); b->e=var(acc); b->op=r.chance(50)?"+=":"^="; b->e2=var(s->v); s->b={b}; s->flag=false; s->v2=0; return s; }
            size_t mark=scope.size(); scope.push_back(s->v); if(s->v2) scope.push_back(s->v2); bool aro=a->ro; frozen.insert(a); loopDepth++; brk++; int sd=depth; s->b=block(r.range(1,3),std::min(sd-1,1)); loopDepth--; brk--; a->ro=aro; frozen.erase(a); scope.resize(mark); return s; }
        case 8:case 9: { if(r.below(100)>=pf.switches) return assign(); return switchStmt(depth); }
        case 10: { if(r.below(100)>=pf.gotos) return assign(); if(r.chance(60)){ auto s=st(sGotoBlk); s->label=ident("L"); labels.push_back(s->label); s->b=block(r.range(2,4),depth-1); labels.pop_back(); return s; } Var*v; auto d=counterDecl(r.range(0,3),&v); auto s=st(sBackGoto); s->v=v; s->label=ident("L"); int ld=loopDepth,bk=brk; auto lb=labels; loopDepth=0; brk=0; s->b=block(r.range(1,3),depth-1); loopDepth=ld; brk=bk; labels=lb; return seq(d,s); }
        default: return wrap(block(r.range(1,3),depth-1)); } }
    q=r.below(100);
    if(q<4&&brk>0&&!noBreakHere){ auto s=st(sIf); s->e=condE(2); auto b=st(loopDepth>0&&r.chance(50)?sContinue:sBreak); s->b={b}; s->braces=r.chance(70); return s; }
    if(q<6&&!labels.empty()){ auto s=st(sIf); s->e=condE(2); auto b=st(sGoto); b->label=labels[r.below((int)labels.size())]; s->b={b}; return s; }
    if(q<8&&cur&&!inForeach()){ auto s=st(sIf); s->e=condE(2); auto b=st(sReturn); b->e=retExpr(); s->b={b}; return s; }
    if(q<8+pf.yields&&!(cur&&cur->pure)&&mayYield){ auto s=st(sYield); int n=r.below(3); for(int i=0;i<n;i++) s->ex.push_back(genOf({r.chance(70)?TI:TN},2)); s->v=pickVar([&](Var*x){return x->ty.k==TI&&!x->ro&&!x->param;}); return s; }
    bool canLog=!(cur&&cur->pure);
    q=r.below(100);
    if(q<30) return assign();
    if(q<38) return incStmt();
    if(q<60) return canLog?logStmt():assign();
    if(q<72) return decl();
    if(q<84&&r.below(100)<pf.containers+15) { auto s=contStmt(); if(!canLog&&(s->k==sLog||s->k==sExistsLog)) return assign(); return s; }
    if(q<94&&canLog&&r.below(100)<pf.funcs) return impureCall();
    return canLog?logStmt():assign();
  }
  bool noBreakHere=false; std::set<Var*> frozen; bool inForeach(){ return false; }
  S_ seq(S_ a,S_ b){ auto s=st(sBlock); s->b={a,b}; s->flag=true; return s; } // printed without braces
  E retExpr(){ return cur->ret.k<=TS?genOf(cur->ret,2):retCont(); }
  E retCont(){ Var*v=pickVar([&](Var*x){return x->ty==cur->ret;}); return v?var(v):E(); }
  S_ switchStmt(int depth){ auto s=st(sSwitch); int kind=r.below(5); int nc=r.range(1,7); std::set<Str> used; Vec<Val> labelsV;
    if(kind==4&&r.below(100)>=pf.swstr) kind=0;
    if(kind==4&&pf.strings==0) kind=1;
    int base=kind==0?0:r.range(0,240);
    for(int i=0;i<nc;i++){ Val v; switch(kind){ case 0: v=Val::I(r.range(0,nc+2)); break; case 1: v=Val::I(r.range(0,300)); break; case 2: v=Val::I(randInt().i&0x7FFFFFFF); break; case 3: v=Val::I(base+r.below(14)); break; default: v=Val::S(r.chance(60)?fmt("k%d",r.below(5)):randStr()); } if(v.k=='i'&&v.i==(int32_t)0xABABABAB) v.i=1; if(!used.insert(show(v)).second) continue; labelsV.push_back(v); }
    if(kind==4) s->e=r.chance(50)?lit(r.pick(labelsV)):genS(1); else if(r.chance(35)) s->e=lit(r.chance(75)?r.pick(labelsV):randInt()); else if(r.chance(60)){ // hit the cases often
        int lo=kind==3?base:0; auto m=bin("&",genI(1),lit(Val::I(7)),{TI}); m->paren=true; s->e=lo?bin("+",m,lit(Val::I(lo)),{TI}):m; } else s->e=genI(2);
    int defAt=r.chance(70)?r.below((int)labelsV.size()+1):-1;
    brk++; for(size_t i=0;i<=labelsV.size();i++){ if((int)i==defAt){ Case c; c.def=true; c.body=caseBody(depth); s->cases.push_back(c); } if(i<labelsV.size()){ Case c; c.label=lit(labelsV[i]); c.val=labelsV[i]; if(!r.chance(25)) c.body=caseBody(depth); s->cases.push_back(c); } } brk--;
    return s; }
  Vec<S_> caseBody(int depth){ Vec<S_> b=block(r.range(1,2),std::min(depth-1,2)); int q=r.below(10); if(q<6) b.push_back(st(sBreak)); else if(q<7&&loopDepth>0) b.push_back(st(sContinue)); else if(q<8&&cur){ auto s=st(sReturn); s->e=retExpr(); b.push_back(s); } return b; }

  void makeFunction(bool pure){ auto f=std::make_unique<Func>(); f->name=ident("fn"); f->pure=pure; int np=r.below(4); int rk=r.below(10); f->ret= rk<6?Ty{TI}: rk<8&&pf.floats?Ty{TN}: rk<9&&pf.strings?Ty{TS}:Ty{TI};
    if(!pure&&r.chance(12)&&pf.containers) f->ret={r.chance(50)||p.structs.empty()?TK(AI):TST,0};
    cur=f.get(); Vec<Var*> saved=scope; Vec<Var*> gs; if(!pure) for(Var*v:scope) if(v->global) gs.push_back(v); scope=gs; noGlobals=pure;
    for(int i=0;i<np;i++){ Ty t=randTy(true); if(t.k==AA||(t.k==TST&&false)) t={AI}; Var*v=newLocal(t,4,"p"); v->param=true; v->ro=true; f->params.push_back(v); }
    // copies of parameters: afterwards they are ordinary locals
    Vec<S_> pre; bool direct=pure||r.chance(40);
    for(Var*v:f->params){ if(!direct&&isNum(v->ty)){ auto s=st(sDecl); s->e=var(v); s->v=newLocal(v->ty,4,"v"); scope.push_back(s->v); pre.push_back(s); } else if(!direct&&v->ty.k==TS){ auto s=st(sDecl); s->e=var(v); s->v=newLocal({TS},4,"v"); scope.push_back(s->v); pre.push_back(s); } else scope.push_back(v); }
    if(r.chance(20)){ auto s=st(sDecl); s->v=newLocal({TI}); s->flag2=true; s->e=lit(Val::I(0)); scope.push_back(s->v); pre.push_back(s); } // uninitialised local: zero
    f->recursive=r.chance(pure?20:10);
    int ld=loopDepth,bk=brk; auto lb=labels; loopDepth=brk=0; labels.clear(); auto fz=frozen; frozen.clear();
    if(f->recursive){ Var*n=newLocal({TI},4,"n"); n->param=true; n->ro=true; n->maxval=4; f->params.insert(f->params.begin(),n); scope.push_back(n); }
    // renumber: parameters must own the first slots in order
    { int k=0; std::set<Var*> ps(f->params.begin(),f->params.end()); for(Var*v:f->params) v->slot=k++; for(auto&v:f->own) if(!ps.count(v.get())) v->slot=k++; }
    f->body=pre;
    if(f->recursive){ auto s=st(sIf); auto c=mk(eBin); c->op="<="; c->a={var(f->params[0]),lit(Val::I(0))}; c->a[1]->text="0"; s->e=c; auto b=st(sReturn); b->e=retExpr(); s->b={b}; f->body.push_back(s); }
    int bsave=budget; budget=pure?5:9; int n=r.range(1,pure?3:5); size_t mark=scope.size(); for(int i=0;i<n;i++) f->body.push_back(stmt(pure?2:3)); 
    if(f->recursive){ E c=mk(eCall); c->fn=f.get(); c->ty=f->ret; auto m=mk(eBin); m->op="-"; m->a={var(f->params[0]),lit(Val::I(1))}; m->a[1]->text="1"; c->a.push_back(m); bool ok=true; for(size_t i=1;i<f->params.size();i++){ E a; Var*prm=f->params[i]; if(prm->ty.k<=TS) a=genOf(prm->ty,1); else { Var*q=pickVar([&](Var*x){return x->ty==prm->ty;}); if(q) a=var(q); } if(!a) ok=false; else { if(!pure&&a->k!=eLit&&a->ty.k<=TS){ auto w=mk(eNat); w->ty=a->ty; w->text="id"; w->a={a}; a=w; } c->a.push_back(a); } }
      if(ok&&f->ret.k<=TS){ auto s=st(sDecl); s->v=newLocal(f->ret); s->e=c; scope.push_back(s->v); f->body.push_back(s); if(!pure) f->body.push_back(logVars()); } }
    if(!pure&&r.chance(60)) f->body.push_back(logVars());
    if(r.chance(92)||f->ret.k!=TI){ auto s=st(sReturn); s->e=retExpr(); if(!s->e||s->e->k==eNew){ if(f->ret.k==TST){ auto d=st(sDecl); d->e=container(f->ret,4,1); d->v=newLocal(f->ret); f->body.push_back(d); s->e=var(d->v); } else s->e=container(f->ret,4,1);} f->body.push_back(s); }
    scope.resize(mark); budget=bsave; loopDepth=ld; brk=bk; labels=lb; frozen=fz; noGlobals=false; cur=0; scope=saved; p.funcs.push_back(std::move(f)); fnIndex=(int)p.funcs.size(); p.fnAfter.push_back(0); }

  void makeStruct(){ auto d=std::make_unique<StructDef>(); d->name=ident("St"); d->semi=r.chance(50); int n=r.range(1,7); static const char*mn[]={"x","y","name","value","next","a","b","count","r","g"};
    std::set<Str> used; for(int i=0;i<n;i++){ Field f; do { f.name=r.chance(50)?Str(mn[r.below(10)]):ident("m"); } while(!used.insert(f.name).second); int q=r.below(10); f.ty= q<5?Ty{TI}: q<7&&pf.floats?Ty{TN}: q<9&&pf.strings?Ty{TS}:Ty{TI}; if(i>0&&q==9&&pf.containers) f.ty={AI}; d->f.push_back(f);} 
    // string members must be initialised by the struct body
    int na=r.below(3); for(int i=0;i<na;i++){ auto v=std::make_unique<Var>(); v->name=ident("q"); v->ty={r.chance(70)||!pf.floats?TI:TN}; v->global=false; v->slot=i; v->ro=true; d->ctorArgs.push_back(v.get()); ctorVars.push_back(std::move(v)); }
    Vec<Var*> saved=scope; scope.clear(); for(Var*v:d->ctorArgs) scope.push_back(v); int fi=fnIndex; fnIndex=0;
    for(auto&f:d->f){ bool need=f.ty.k>=TS; if(need||r.chance(60)) d->init.push_back(f.ty.k<=TS?genOf(f.ty,1):arrLit(AI,4,0)); else d->init.push_back(E()); }
    scope=saved; fnIndex=fi; p.structs.push_back(std::move(d)); }
  static Vec<std::unique_ptr<Var>> ctorVars;
  void makeEnum(){ auto d=std::make_unique<EnumDef>(); if(r.chance(50)) d->name=ident("En"); int n=r.range(1,6); int cur=0; for(int i=0;i<n;i++){ bool ex=r.chance(35); if(ex) cur=r.chance(60)?r.range(0,40):r.chance(50)?-r.range(1,100):r.range(-40000,80000); d->e.push_back({ident("K"),cur}); d->explicitVal.push_back(ex); cur++; } p.enums.push_back(std::move(d)); }

  void program(){
    int ns=r.below(100)<pf.structs?r.range(1,2):0; for(int i=0;i<ns;i++) makeStruct();
    if(r.chance(30)) makeEnum();
    int ng=r.range(3,9); cur=0; for(int i=0;i<ng;i++){ auto s=decl(); p.decls.push_back(s); }
    int nf=r.below(100)<pf.funcs?r.range(1,4):0; for(int i=0;i<nf;i++){ makeFunction(r.chance(45)); p.fnAfter.back()=r.chance(30); }
    budget=pf.stmts*2; int n=r.range(pf.stmts/2,pf.stmts); for(int i=0;i<n;i++) p.main.push_back(stmt(4));
    p.main.push_back(logVars());
    { auto s=st(sLog); for(Var*v:scope) if(v->ty.k>TS&&v->ty.k!=TST&&s->ex.size()<8) s->ex.push_back(var(v)); if(!s->ex.empty()) p.main.push_back(s); }
    for(Var*v:scope) if(v->ty.k==TST){ auto s=st(sLog); auto&d=*p.structs[v->ty.sid]; for(size_t i=0;i<d.f.size();i++){ auto e=mk(eMem); e->a={var(v)}; e->sid=v->ty.sid; e->idx=(int)i; s->ex.push_back(e);} p.main.push_back(s); }
  }
};
Vec<std::unique_ptr<Var>> Gen::ctorVars;

//------------------------------------------------------------------ printer
struct Printer {
  Program&p; Str o; int ind=0; Rng r; int pad=0; bool shadowPrefix=false;
  Printer(Program&p_,uint64_t seed):p(p_),r(seed){}
  void nl(){ o+="\n"; o.append(ind*2,' '); if(r.chance(3)) o+="/* note */ "; if(r.chance(2)) o+="// c\n"; }
  static bool atom(const E&e){ switch(e->k){ case eLit: return !(e->text.size()&&e->text[0]=='-'); case eVar:case eCall:case eNat:case eIdx:case eHIdx:case eHDot:case eMem:case eCount:case eExists:case eEnum: return true; default: return false; } }
  Str ex(const E&e){
    switch(e->k){
      case eLit: case eEnum: return e->text;
      case eVar: return e->v->name;
      case eBin: { int q=prec(e->op); auto side=[&](const E&c,bool right){ Str t=ex(c); bool par=false; if(c->k==eBin){ int cq=prec(c->op); par=cq>q||(right&&cq==q)||c->paren; } else if(c->k==eAsg) par=true; else if(c->k==eUn||c->k==eCast) par=c->paren; if(par) t="("+t+")"; return t; };
        return side(e->a[0],false)+" "+e->op+" "+side(e->a[1],true); }
      case eUn: { Str t=ex(e->a[0]); if(!atom(e->a[0])) t="("+t+")"; return e->op+t; }
      case eCast: { Str t=ex(e->a[0]); if(!atom(e->a[0])) t="("+t+")"; return "("+e->op+")"+t; }
      case eCall: return e->fn->name+args(e->a,0,e->a.size());
      case eNat: return e->text+args(e->a,0,e->a.size());
      case eIdx: case eHIdx: return ex(e->a[0])+"["+ex(e->a[1])+"]";
      case eHDot: return ex(e->a[0])+"."+e->text;
      case eMem: return ex(e->a[0])+"."+p.structs[e->sid]->f[e->idx].name;
      case eCount: return ex(e->a[0])+"._count";
      case eExists: return ex(e->a[0])+"._exists("+ex(e->a[1])+")";
      case eInc: { Str t=ex(e->a[0]); return e->op[0]=='x'?t+e->op.substr(1):e->op.substr(0,2)+t; }
      case eAsg: return ex(e->a[0])+" "+e->op+" "+ex(e->a[1]);
      case eArrLit: { Str t="{ "; for(size_t i=0;i<e->a.size();i++){ if(i)t+=", "; t+=ex(e->a[i]); } return t+" }"; }
      case eHashLit: { Str t="{ "; for(size_t i=0;i<e->a.size();i+=2){ if(i)t+=", "; t+=ex(e->a[i])+" : "+ex(e->a[i+1]); } return t+" }"; }
      case eNew: { Str t="new "+p.structs[e->sid]->name+args(e->a,0,e->idx); if((int)e->a.size()>e->idx){ t+=" { "; for(size_t i=e->idx;i<e->a.size();i++){ if((int)i>e->idx) t+=", "; if(e->byName) t+=p.structs[e->sid]->f[e->names[i-e->idx]].name+" = "; t+=ex(e->a[i]); } t+=" }"; } return t; }
      default: return "?"; } }
  Str args(const Vec<E>&a,size_t f,size_t n){ Str t="("; for(size_t i=f;i<n;i++){ if(i>f)t+=", "; Str q=ex(a[i]); t+=(a[i]->k==eAsg?"("+q+")":q); } return t+")"; }
  bool on(const S_&s){ return !p.off.count(s->id); }
  void blk(const Vec<S_>&b,bool braces=true){ size_t n=0; for(auto&s:b) if(on(s)) n++; if(!braces&&n==1&&b.size()==1&&simple(b[0])){ ind++; st(b[0]); ind--; return; } o+=" {"; ind++; for(auto&s:b) st(s); ind--; nl(); o+="}"; }
  static bool simple(const S_&s){ return s->k==sAsg||s->k==sExpr||s->k==sLog||s->k==sBreak||s->k==sContinue||s->k==sReturn||s->k==sGoto; }
  void st(const S_&s){
    if(!on(s)) return; if(!(s->k==sBlock&&(s->flag||ind>0))) nl();
    switch(s->k){
      case sDecl: { o+="var "+s->v->name; if(s->flag2){ o+=";"; break; } if(s->flag) o+="[]"; o+=" = "+ex(s->e)+";"; break; }
      case sExpr: o+=ex(s->e)+";"; break;
      case sAsg: o+=ex(s->e)+" "+s->op+" "+ex(s->e2)+";"; break;
      case sLog: o+="log( "+fmt("%d",s->id); for(auto&e:s->ex){ Str q=ex(e); o+=", "+(e->k==eAsg?"("+q+")":q); } o+=" );"; break;
      case sIf: o+="if ( "+cnd(s->e)+" )"; blk(s->b,s->braces||!s->b2.empty()); if(!s->b2.empty()){ nl(); o+="else"; if(s->flag&&s->b2.size()==1&&s->b2[0]->k==sIf&&on(s->b2[0])){ o+=" "; st(s->b2[0]); } else blk(s->b2); } break;
      case sWhile: { Str c=s->v->name; switch(s->n){ case 0: o+="while ( "+c+"-- > 0"; break; case 1: o+="while ( --"+c+" >= 0"; break; case 2: o+="while ( 0 < "+c+"--"; break; default: o+="while ( "+c+" > 0"; } if(s->e) o+=" && ("+ex(s->e)+")"; o+=" ) {"; ind++; if(s->n==3){ nl(); o+=c+" -= 1;"; } for(auto&q:s->b) st(q); ind--; nl(); o+="}"; break; }
      case sDo: { Str c=s->v->name; o+="do"; blk(s->b); switch(s->n){ case 0: o+=" while( "+c+"-- > 0 );"; break; case 1: o+=" while( --"+c+" > 0 );"; break; default: o+=" while( 0 < "+c+"-- );"; } break; }
      case sFor: { Str v=s->v->name; Str inc=s->op; Str x; for(size_t i=0;i<inc.size();i++){ if(inc[i]=='i') x+=v; else x+=inc[i]; } bool down=s->op=="--i"; o+="for ( "; o+=(s->flag?"var ":"")+v+fmt(" = %d; ",down?s->n:0); o+=down?v+" > 0":(s->n%2?v+fmt(" < %d",s->n):v+fmt(" <= %d",s->n-1)); if(s->e) o+=" && ("+ex(s->e)+")"; o+="; "+x+" )"; blk(s->b); break; }
      case sForeach: o+="for ( "; if(s->v2) o+="var "+s->v2->name+", "; o+="var "+s->v->name+" : "+ex(s->e)+" )"; blk(s->b); break;
      case sSwitch: { o+="switch( "+ex(s->e)+" ) {"; ind++; for(auto&c:s->cases){ nl(); o+=c.def?"default:":"case "+c.label->text+":"; ind++; for(auto&q:c.body) st(q); ind--; } ind--; nl(); o+="}"; break; }
      case sBreak: o+="break;"; break;
      case sContinue: o+="continue;"; break;
      case sReturn: o+=s->e?"return "+ex(s->e)+";":"return;"; break;
      case sGotoBlk: { bool br=ind==0&&!s->flag2; if(br){ o+="{"; ind++; } for(auto&q:s->b) st(q); if(br){ ind--; nl(); o+="}"; } nl(); o+=s->label+":"; nl(); o+="log( "+fmt("%d",s->id)+" );"; break; }
      case sGoto: o+="goto "+s->label+";"; break;
      case sBackGoto: { o+=s->label+":"; nl(); o+="log( "+fmt("%d",s->id)+" );"; bool br=ind==0; if(br){ nl(); o+="{"; ind++; } for(auto&q:s->b) st(q); if(br){ ind--; nl(); o+="}"; } nl(); o+="if ( "+s->v->name+"-- > 0 ) goto "+s->label+";"; break; }
      case sBlock: if(s->flag||ind>0){ for(auto&q:s->b) st(q); } else { o+="{"; ind++; for(auto&q:s->b) st(q); ind--; nl(); o+="}"; } break;
      case sYield: { if(s->v) o+=s->v->name+" = "; o+="yield"+args(s->ex,0,s->ex.size())+";"; break; }
      case sRemove: o+=ex(s->e)+"._remove( "+ex(s->e2)+" );"; break;
      case sExistsLog: o+="if ( "+ex(s->e)+"._exists( "+ex(s->e2)+" ) ) { log( "+fmt("%d",s->id)+", "+ex(s->e)+"["+ex(s->e2)+"] ); } else { log( "+fmt("%d",s->id)+" ); }"; break;
      default: break; } }
  Str cnd(const E&e){ Str t=ex(e); return e->k==eAsg?"("+t+")":t; }
  void fn(Func&f){ nl(); o+="function "+f.name+"("; for(size_t i=0;i<f.params.size();i++){ if(i)o+=", "; o+=f.params[i]->name; } o+=")"; blk(f.body); }
  Str print(){
    for(auto&e:p.enums){ nl(); o+="enum "+e->name+" {"; for(size_t i=0;i<e->e.size();i++){ o+=(i?", ":" ")+e->e[i].first; if(e->explicitVal[i]) o+=fmt(" = %d",e->e[i].second); } o+=" }"; }
    for(auto&d:p.structs){ nl(); o+="struct "+d->name; if(!d->ctorArgs.empty()||r.chance(20)){ o+="("; for(size_t i=0;i<d->ctorArgs.size();i++){ if(i)o+=", "; o+=d->ctorArgs[i]->name; } o+=")"; } o+=" {"; for(size_t i=0;i<d->f.size();i++){ o+=" var "+d->f[i].name; if(d->init[i]) o+=" = "+ex(d->init[i]); o+=";"; } o+=" }"; if(d->semi) o+=";"; }
    for(auto&s:p.decls) st(s);
    for(size_t i=0;i<p.funcs.size();i++) if(!p.fnAfter[i]) fn(*p.funcs[i]);
    for(auto&s:p.main) st(s);
    for(size_t i=0;i<p.funcs.size();i++) if(p.fnAfter[i]) fn(*p.funcs[i]);
    o+="\n"; return o; }
};

//------------------------------------------------------------------ reference evaluator
static Str fltText(float f);
struct Eval {
  Program&p; Vec<Val> g; Vec<Str> trace; long steps=0, maxSteps; int depth=0; long yields=0; long divz=0; int exprNest=0; size_t mark=0; std::map<Str,uint64_t> feat;
  Eval(Program&p_,long ms=40000):p(p_),g(p_.globals.size()),maxSteps(ms){}
  struct Frame { Vec<Val> l; }; Frame*fr=0;
  enum Flow { Next, Brk, Cnt, Ret, Goto }; Str gotoLabel; Val retv;
  void tick(){ if(++steps>maxSteps) throw Wild{"steps"}; }
  static bool truth(const Val&v){ if(v.k=='i') return v.i!=0; if(v.k=='f') return v.f!=0; throw Wild{"truth of container"}; }
  static float num(const Val&v){ return v.k=='i'?(float)v.i:v.f; }
  static Str key(const Val&v){ return show(v); }
  static bool feq(float a,float b){ if(a==b) return true; float m=fmaxf(fabsf(a),fabsf(b)); if(fabsf(a-b)<=m*2e-6f) throw Wild{"nearly equal floats"}; return false; }
  Val bin(const Str&op,const Val&a,const Val&b){
    if(a.k=='s'||b.k=='s'){ if(op=="+"){ auto t=[&](const Val&v){ return v.k=='s'?*v.s:v.k=='i'?fmt("%d",v.i):v.f==0&&std::signbit(v.f)?throw Wild{"text of -0"}:fltText(v.f); }; return Val::S(t(a)+t(b)); } if(a.k=='s'&&b.k=='s'){ if(op=="==") return Val::I(*a.s==*b.s); if(op=="!=") return Val::I(*a.s!=*b.s); } throw Wild{"string op"}; }
    if((a.k!='i'&&a.k!='f')||(b.k!='i'&&b.k!='f')) throw Wild{"container op"};
    if(op=="&&") return Val::I(truth(a)&&truth(b)); if(op=="||") return Val::I(truth(a)||truth(b));
    if(a.k=='i'&&b.k=='i'){ uint32_t x=a.i,y=b.i; int64_t X=a.i,Y=b.i;
      if(op=="+") return Val::I((int32_t)(x+y)); if(op=="-") return Val::I((int32_t)(x-y)); if(op=="*") return Val::I((int32_t)(x*y));
      if((op=="/"||op=="%")&&!Y){ ++divz; if(g_trap) throw Trap(); }
      if(op=="/") return Val::I(Y?(int32_t)(X/Y):0); if(op=="%") return Val::I(Y?(int32_t)(X%Y):0);
      if(op=="&") return Val::I(x&y); if(op=="|") return Val::I(x|y); if(op=="^") return Val::I(x^y);
      if(op=="<<"){ if(y>31) throw Wild{"shift"}; return Val::I((int32_t)(x<<y)); } if(op==">>"){ if(y>31) throw Wild{"shift"}; return Val::I((int32_t)(X>>y)); }
      if(op=="<") return Val::I(X<Y); if(op==">") return Val::I(X>Y); if(op=="<=") return Val::I(X<=Y); if(op==">=") return Val::I(X>=Y); if(op=="==") return Val::I(X==Y); if(op=="!=") return Val::I(X!=Y); }
    else { float x=num(a),y=num(b); volatile float z; 
      if(op=="+"){ z=x+y; return Val::F(z);} if(op=="-"){ z=x-y; return Val::F(z);} if(op=="*"){ z=x*y; return Val::F(z);} if(op=="/"){ if(y==0){ ++divz; if(g_trap) throw Trap(); return Val::F(0); } z=x/y; return Val::F(z);} 
      if(op=="<"){ feq(x,y); return Val::I(x<y);} if(op==">"){ feq(x,y); return Val::I(x>y);} if(op=="<="){ feq(x,y); return Val::I(x<=y);} if(op==">="){ feq(x,y); return Val::I(x>=y);} if(op=="==") return Val::I(feq(x,y)); if(op=="!=") return Val::I(!feq(x,y)); }
    throw Wild{"op on float"}; }
  Val& slot(Var*v){ return v->global?g[v->slot]:fr->l[v->slot]; }
  Val* lv(const E&e){ tick();
    switch(e->k){
      case eVar: return &slot(e->v);
      case eIdx: { Val idx=ev(e->a[1]); Val*b=lv(e->a[0]); if(!b||b->k!='a'||idx.k!='i'||idx.i<0) throw Wild{"index"}; auto&a=b->c->a; if(idx.i>=(int)a.size()){ if(!growing) throw Wild{"index range"}; if(idx.i>5000) throw Wild{"index range"}; if(b->c->sized>orderFrom) throw Wild{"order"}; a.resize(idx.i+1); } return &a[idx.i]; }
      case eHIdx: case eHDot: { Val k=e->k==eHDot?e->lit:ev(e->a[1]); Val*b=lv(e->a[0]); if(!b||b->k!='h') throw Wild{"hash index"}; auto it=b->c->h.find(key(k)); if(it==b->c->h.end()){ if(!growing) throw Wild{"missing key"}; if(b->c->sized>orderFrom) throw Wild{"order"}; b->c->h[key(k)]={k,Val::I(0)}; return &b->c->h[key(k)].second; } if(e->k==eHIdx) it->second.first=k; return &it->second.second; }
      case eMem: { Val*b=lv(e->a[0]); if(!b||b->k!='t') throw Wild{"member of non-struct"}; return &b->c->a[e->idx]; }
      default: return 0; } }
  bool growing=false; uint64_t clk=1, orderFrom=~0ull; // place may be created before or after the right side is evaluated
  void touch(const Val&v,int d=0){ if(!v.c||d>6) return; v.c->sized=++clk; for(auto&q:v.c->a) touch(q,d+1); for(auto&q:v.c->h) touch(q.second.second,d+1); }
  Val ev(const E&e){ tick();
    switch(e->k){
      case eLit: case eEnum: return e->lit;
      case eVar: return slot(e->v);
      case eIdx: { if(e->a[0]->ty.k==TS){ Val b=ev(e->a[0]); Val i=ev(e->a[1]); if(b.k!='s'||i.k!='i'||i.i<0||i.i>=(int)b.s->size()) throw Wild{"string index"}; return Val::I((unsigned char)(*b.s)[i.i]); } return *lv(e); }
      case eHIdx: case eHDot: case eMem: { bool s=growing; growing=false; Val*q=lv(e); growing=s; if(!q) throw Wild{"lvalue"}; return *q; }
      case eBin: { Val a=ev(e->a[0]); Val b=ev(e->a[1]); feat["op"+e->op+a.k+b.k]++; return bin(e->op,a,b); }
      case eUn: { Val a=ev(e->a[0]); if(e->op=="!") return Val::I(!truth(a)); if(e->op=="~"){ if(a.k!='i') throw Wild{"~float"}; return Val::I(~a.i);} if(a.k=='i') return Val::I((int32_t)(0u-(uint32_t)a.i)); if(a.k=='f') return Val::F(-a.f); throw Wild{"-cont"}; }
      case eCast: { Val a=ev(e->a[0]); if(e->op=="float"){ return a.k=='f'?a:Val::F((float)a.i); } if(a.k=='i') return a; if(a.k!='f'||fabsf(a.f)>2e9f) throw Wild{"cast range"}; return Val::I((int32_t)a.f); }
      case eNat: { if(e->text=="id") return ev(e->a[0]); uint32_t s=0; for(auto&q:e->a){ Val v=ev(q); if(v.k!='i') throw Wild{"nsum"}; s+=(uint32_t)v.i; } return Val::I((int32_t)s); }
      case eCount: { Val a=ev(e->a[0]); if(a.k=='s') return Val::I((int)a.s->size()); if(a.c) a.c->sized=++clk; if(a.k=='a') return Val::I((int)a.c->a.size()); if(a.k=='h') return Val::I((int)a.c->h.size()); throw Wild{"count"}; }
      case eExists: { Val a=ev(e->a[0]); Val k=ev(e->a[1]); if(a.k!='h') throw Wild{"exists"}; a.c->sized=++clk; return Val::I(a.c->h.count(key(k))?1:0); }
      case eInc: { Val*q=lv(e->a[0]); Val old=*q; if(old.k!='i'&&old.k!='f') throw Wild{"inc"}; Str s=e->op[0]=='x'?e->op.substr(1):e->op.substr(0,2); *q=bin(s=="++"?"+":"-",old,old.k=='i'?Val::I(1):Val::F(1)); return e->op[0]=='x'?old:*q; }
      case eAsg: { Val b=ev(e->a[1]); Val*q=lv(e->a[0]); *q=e->op=="="?b:bin(e->op.substr(0,e->op.size()-1),*q,b); return *q; }
      case eArrLit: { Val v; v.k='a'; v.c=std::make_shared<Cont>(); v.c->kind='a'; for(auto&q:e->a) v.c->a.push_back(ev(q)); return v; }
      case eHashLit: { Val v; v.k='h'; v.c=std::make_shared<Cont>(); v.c->kind='h'; for(size_t i=0;i<e->a.size();i+=2){ Val k=ev(e->a[i]); Val x=ev(e->a[i+1]); v.c->h[key(k)]={k,x}; } return v; }
      case eNew: { auto&d=*p.structs[e->sid]; Frame nf; for(size_t i=0;i<d.ctorArgs.size();i++) nf.l.push_back((int)i<e->idx?ev(e->a[i]):Val::I(0)); Vec<Val> over; for(size_t i=e->idx;i<e->a.size();i++) over.push_back(ev(e->a[i])); Val v; v.k='t'; v.c=std::make_shared<Cont>(); v.c->kind='t'; v.c->sid=e->sid; Frame*sv=fr; fr=&nf; for(size_t i=0;i<d.f.size();i++) v.c->a.push_back(d.init[i]?ev(d.init[i]):Val::I(0)); fr=sv; for(size_t i=0;i<over.size();i++) v.c->a[e->names[i]]=over[i]; feat["new"]++; return v; }
      case eCall: { Vec<Val> a; for(auto&q:e->a) a.push_back(ev(q)); ++exprNest; Val cr=call(e->fn,a); --exprNest; return cr; }
      default: throw Wild{"expr"}; } }
  Val call(Func*f,const Vec<Val>&a){ if(++depth>40) throw Wild{"depth"}; feat[f->recursive?"callrec":"call"]++; if(a.size()<f->params.size()) feat["missingarg"]++; if(a.size()>f->params.size()) feat["extraarg"]++; Frame nf; nf.l.resize(f->nslots); for(size_t i=0;i<f->params.size();i++) nf.l[i]=i<a.size()?a[i]:Val::I(0); Frame*sv=fr; fr=&nf; Flow w=run(f->body); Val r=w==Ret?retv:Val::I(0); fr=sv; --depth; return r; }
  bool on(const S_&s){ return !p.off.count(s->id); }
  Flow run(const Vec<S_>&b){ for(auto&s:b){ Flow f=st(s); if(f!=Next) return f; } return Next; }
  void log(int id,const Vec<Val>&v){ for(auto&q:v) touch(q); Str o=fmt("i:%d",id); for(auto&q:v) o+=" "+show(q); trace.push_back(o); if(trace.size()>3000) throw Wild{"trace"}; }
  // value of a loop body's flow for the loop: returns true when the loop must stop
  bool loopFlow(Flow f,Flow&out){ if(f==Brk){ feat["break"]++; out=Next; return true; } if(f==Cnt){ feat["continue"]++; return false; } if(f==Ret||f==Goto){ out=f; return true; } return false; }
  Flow st(const S_&s){ if(!on(s)) return Next; tick(); if(!exprNest) mark=trace.size();
    switch(s->k){
      case sDecl: slot(s->v)=ev(s->e); return Next;
      case sExpr: ev(s->e); return Next;
      case sAsg: { uint64_t t0=clk; Val b=ev(s->e2); orderFrom=t0; bool gs=growing; growing=s->op=="="; Val*q=lv(s->e); growing=gs; orderFrom=~0ull; if(!q) throw Wild{"lv"}; feat["asg"+s->op+(s->e->k==eVar?(s->e->v->global?"g":"l"):"m")]++; *q=s->op=="="?b:bin(s->op.substr(0,s->op.size()-1),*q,b); return Next; }
      case sLog: { Vec<Val> v; for(auto&q:s->ex) v.push_back(ev(q)); log(s->id,v); return Next; }
      case sIf: { bool c=truth(ev(s->e)); feat[c?"if1":"if0"]++; return c?run(s->b):run(s->b2); }
      case sWhile: { Val&c=slot(s->v); Flow o=Next; for(;;){ tick(); bool go; switch(s->n){ case 0: go=slot(s->v).i>0; slot(s->v).i--; break; case 1: slot(s->v).i--; go=slot(s->v).i>=0; break; case 2: go=0<slot(s->v).i; slot(s->v).i--; break; default: go=slot(s->v).i>0; } if(s->e){ bool q=truth(ev(s->e)); go=go&&q; } if(!go) break; if(s->n==3) slot(s->v).i--; if(loopFlow(run(s->b),o)) return o; } (void)c; return Next; }
      case sDo: { Flow o=Next; for(;;){ tick(); Flow f=run(s->b); if(loopFlow(f,o)) return o; bool go; switch(s->n){ case 0: go=slot(s->v).i>0; slot(s->v).i--; break; case 1: slot(s->v).i--; go=slot(s->v).i>0; break; default: go=0<slot(s->v).i; slot(s->v).i--; } if(!go) break; } return Next; }
      case sFor: { Flow o=Next; bool down=s->op=="--i"; for(slot(s->v)=Val::I(down?s->n:0);;){ tick(); bool go=down?slot(s->v).i>0:slot(s->v).i<s->n; if(s->e){ bool q=truth(ev(s->e)); go=go&&q; } if(!go) break; if(loopFlow(run(s->b),o)) return o; slot(s->v).i+=down?-1:s->op=="i+=2"?2:1; } return Next; }
      case sForeach: { Val a=ev(s->e); if(a.c) a.c->sized=++clk; Flow o=Next; if(a.k=='h') s->v->unordered=true; feat[a.k=='a'?"foreach-a":"foreach-h"]++; if(a.k=='a'){ for(size_t i=0;i<a.c->a.size();i++){ tick(); slot(s->v)=a.c->a[i]; if(s->v2) slot(s->v2)=Val::I((int)i); if(loopFlow(run(s->b),o)) return o; } } else if(a.k=='h'){ for(auto&q:a.c->h){ slot(s->v)=q.second.second; if(loopFlow(run(s->b),o)) return o; } } else throw Wild{"foreach"}; return Next; }
      case sSwitch: { Val v=ev(s->e); int at=-1; for(size_t i=0;i<s->cases.size();i++) if(!s->cases[i].def&&s->cases[i].val.k==v.k&&show(s->cases[i].val)==show(v)) at=(int)i; if(v.k!='i'&&v.k!='s') throw Wild{"switch"}; if(v.k=='i') for(auto&c:s->cases) if(!c.def&&c.val.k=='s') throw Wild{"mixed"}; feat[at>=0?"case-hit":"case-miss"]++; if(at<0) for(size_t i=0;i<s->cases.size();i++) if(s->cases[i].def) at=(int)i; if(at<0) return Next; for(size_t i=at;i<s->cases.size();i++){ Flow f=run(s->cases[i].body); if(f==Brk) return Next; if(f!=Next) return f; } return Next; }
      case sBreak: return Brk; case sContinue: return Cnt;
      case sReturn: retv=s->e?ev(s->e):Val::I(0); return Ret;
      case sGotoBlk: { Flow f=run(s->b); if(f==Goto&&gotoLabel==s->label){ feat["goto"]++; f=Next; } if(f!=Next) return f; log(s->id,{}); return Next; }
      case sGoto: gotoLabel=s->label; return Goto;
      case sBackGoto: { for(;;){ tick(); log(s->id,{}); Flow f=run(s->b); if(f!=Next) return f; bool go=slot(s->v).i>0; slot(s->v).i--; if(!go) break; feat["backgoto"]++; } return Next; }
      case sBlock: return run(s->b);
      case sYield: { Str t="Y"; for(auto&q:s->ex) t+=" "+show(ev(q)); trace.push_back(t); ++yields; Val r=Val::I(g_noReply?0:(int)(yields*3+1)); if(s->v) slot(s->v)=r; return Next; }
      case sRemove: { Val a=ev(s->e); Val k=ev(s->e2); if(a.k!='h') throw Wild{"remove"}; a.c->h.erase(key(k)); feat["remove"]++; return Next; }
      case sExistsLog: { Val a=ev(s->e); Val k=ev(s->e2); if(a.k!='h') throw Wild{"exists"}; auto it=a.c->h.find(key(k)); if(it==a.c->h.end()) log(s->id,{}); else { it->second.first=k; log(s->id,{it->second.second}); } feat["exists"]++; return Next; }
      default: throw Wild{"stmt"}; } }
  void runAll(){ run(p.decls); run(p.main); }
};
// text of the quarter-valued floats the generator concatenates to strings
static Str fltText(float f){ float q=f*4; if(q!=(float)(int)q||fabsf(f)>100) throw Wild{"float text"}; Str s=fmt("%.2f",f); while(s.back()=='0') s.pop_back(); if(s.back()=='.') s.pop_back(); return s; }

struct Generated { std::unique_ptr<Program> p; Str src; Vec<Str> trace; Vec<Str> gnames; Vec<Str> gvals; std::map<Str,uint64_t> feat; bool ok=false; const char*why=""; long steps=0; bool trapped=false; size_t mark=0; long divz=0; };
static void reprint(Generated&g,uint64_t ps){ Printer pr(*g.p,ps); g.src=pr.print(); }
static bool evaluate(Generated&g){ Eval ev(*g.p); g.ok=false; g.trapped=false; g.trace.clear(); g.gnames.clear(); g.gvals.clear(); try { ev.runAll(); g.trace=ev.trace; for(auto&v:g.p->globals) if(v->ty.k<=TS&&!v->unordered){ g.gnames.push_back(v->name); g.gvals.push_back(show(ev.g[v->slot])); } g.ok=true; } catch(Wild&w){ g.why=w.why; } catch(Trap&){ g.ok=g.trapped=true; g.trace=ev.trace; g.mark=ev.mark; } g.divz=ev.divz; g.feat=ev.feat; g.steps=ev.steps; return g.ok; }
static Generated generate(Rng&r,const Profile&pf){ Generated g; g.p=std::make_unique<Program>(); Gen::ctorVars.clear(); { Gen ge(r,*g.p,pf); ge.program(); } evaluate(g); reprint(g,r.u64()); return g; }
} // namespace M
