// Random programs against the reference evaluator: comparison, reporting, reduction.
#pragma once
#include "model.h"
using namespace M;

static Str joinTrace(const Vec<Str>&t){ Str o; for(auto&s:t){ o+="  "+s+"\n"; if(o.size()>6000){ o+="  ...\n"; break; } } return o; }
static Str diffTrace(const Vec<Str>&e,const Vec<Str>&a){ size_t i=0; while(i<e.size()&&i<a.size()&&e[i]==a[i]) i++; return fmt("event %zu: expected [%s] observed [%s]",i,i<e.size()?e[i].c_str():"<end>",i<a.size()?a[i].c_str():"<end>"); }

struct Cmp { bool bad=false; Str what; };
static Cmp compare(const Generated&g,const RunOut&o,const RunCfg&c){
  Cmp r; if(o.cerr){ r.bad=true; r.what=fmt("compile error %d %s",o.cerr,o.cmsg.c_str()); return r; }
  if(g.trapped){ if(o.err!=WR_ERR_division_by_zero){ r.bad=true; r.what=fmt("division by zero ended with error %d",o.err); } else if(o.trace!=g.trace){ r.bad=true; r.what="stopped at the wrong place, "+diffTrace(g.trace,o.trace); } return r; }
  if(o.err){ r.bad=true; r.what=fmt("run-time error %d",o.err); return r; }
  if(!o.ctx){ r.bad=true; r.what="no context"; return r; }
  if(o.yieldedAtEnd){ r.bad=true; r.what="never finished"; return r; }
  if(o.trace!=g.trace){ r.bad=true; r.what="native calls differ, "+diffTrace(g.trace,o.trace); return r; }
  if((c.flags&WR_INCLUDE_GLOBALS)&&o.globals.size()) for(size_t i=0;i<g.gvals.size();i++) if(g.gvals[i]!=o.globals[i]&&!(o.globals[i]=="<none>"&&g.src.find("var "+g.gnames[i])==Str::npos)){ r.bad=true; r.what=fmt("global %s is %s, expected %s",g.gnames[i].c_str(),o.globals[i].c_str(),g.gvals[i].c_str()); return r; }
  return r; }

// run in a child so that crashes are seen as results (used by the reducer only)
static bool closedSrc(Generated&g){ std::set<Str> names; for(auto&v:g.p->globals) names.insert(v->name); for(auto&f:g.p->funcs) for(size_t i=0;i<f->own.size();i++){ bool prm=false; for(auto*q:f->params) if(q==f->own[i].get()) prm=true; if(!prm) names.insert(f->own[i]->name); }
  std::set<Str> fns; Str w; for(size_t i=0;i<=g.src.size();i++){ char ch=i<g.src.size()?g.src[i]:' '; if(isalnum((unsigned char)ch)||ch=='_'){ w+=ch; continue; } if(names.count(w)){ bool d=false; for(const char*t:{" ","[",";",":",")","="}) if(g.src.find("var "+w+t)!=Str::npos) d=true; if(!d) return false; } if(w.compare(0,2,"fn")==0&&w.size()>2&&isdigit(w[2])&&g.src.find("function "+w+"(")==Str::npos) return false; w.clear(); } return true; }
static bool g_closed=true;
static int childVerdict(Generated&g,const RunCfg&c){ if(g_closed&&!closedSrc(g)) return 0; fflush(stdout); pid_t p=fork(); if(!p){ int n=open("/dev/null",O_WRONLY); dup2(n,1); dup2(n,2); armCase(5); RunOut o=runProgram(g.src,c,g.gnames); if(o.cerr) _exit(40); for(size_t i=0;i<o.globals.size();i++) if(o.globals[i]=="<none>") o.globals[i]=g.gvals[i]; Cmp r=compare(g,o,c); _exit(r.bad?41:42); } int s=0; waitpid(p,&s,0); if(WIFEXITED(s)&&WEXITSTATUS(s)==40) return 0; if(WIFEXITED(s)&&WEXITSTATUS(s)==42) return 0; return s; }
static void allStmts(const Vec<S_>&b,Vec<S_>&o){ for(auto&s:b){ if(s->k!=sDecl&&s->k!=sArrDecl) o.push_back(s); allStmts(s->b,o); allStmts(s->b2,o); for(auto&c:s->cases) allStmts(c.body,o); } }
static void reduceCase(Generated&g,const RunCfg&c,uint64_t ps){ int want=childVerdict(g,c);
  Vec<S_> all; allStmts(g.p->main,all); for(auto&f:g.p->funcs) allStmts(f->body,all); allStmts(g.p->decls,all);
  for(int round=0;round<3;round++){ bool any=false; for(int chunk=std::max(1,(int)all.size()/2);chunk>=1;chunk/=2) for(size_t i=0;i<all.size();i+=chunk){ Vec<int> ad; for(size_t j=i;j<i+chunk&&j<all.size();j++) if(g.p->off.insert(all[j]->id).second) ad.push_back(all[j]->id); if(ad.empty()) continue; bool ok=evaluate(g); if(ok){ reprint(g,ps); if(childVerdict(g,c)!=want) ok=false; } if(!ok) for(int q:ad) g.p->off.erase(q); else any=true; } if(!any) break; }
  { Vec<S_> ds; std::function<void(const Vec<S_>&)> w=[&](const Vec<S_>&b){ for(auto&s:b){ if(s->k==sDecl||s->k==sArrDecl) ds.push_back(s); w(s->b); w(s->b2); for(auto&q:s->cases) w(q.body); } }; w(g.p->decls); w(g.p->main); for(auto&f:g.p->funcs) w(f->body);
    for(int round=0;round<2;round++) for(int i=(int)ds.size()-1;i>=0;i--){ if(!ds[i]->v||!g.p->off.insert(ds[i]->id).second) continue; bool ok=evaluate(g); if(ok){ reprint(g,ps); size_t q=g.src.find(ds[i]->v->name); bool used=false; while(q!=Str::npos){ char c1=q+ds[i]->v->name.size()<g.src.size()?g.src[q+ds[i]->v->name.size()]:0; if(!isalnum(c1)&&c1!='_') used=true; q=g.src.find(ds[i]->v->name,q+1); } ok=!used&&childVerdict(g,c)==want; } if(!ok) g.p->off.erase(ds[i]->id); } }
  // drop functions and structs that are not needed
  for(size_t i=0;i<g.p->funcs.size();){ auto f=std::move(g.p->funcs[i]); int fa=g.p->fnAfter[i]; g.p->funcs.erase(g.p->funcs.begin()+i); g.p->fnAfter.erase(g.p->fnAfter.begin()+i); bool ok=evaluate(g); if(ok){ reprint(g,ps); ok=childVerdict(g,c)==want; } if(!ok){ g.p->funcs.insert(g.p->funcs.begin()+i,std::move(f)); g.p->fnAfter.insert(g.p->fnAfter.begin()+i,fa); i++; } else { static Vec<std::unique_ptr<Func>> keep; keep.push_back(std::move(f)); } }
  evaluate(g); reprint(g,ps);
}
static bool g_reduce=false;

static Profile profFor(const Str&mode,Rng&r){ Profile p;
  if(mode=="P01"){ p.exprDepth=r.range(2,6); p.floats=r.pick(Vec<int>{0,20,45,70}); p.control=r.pick(Vec<int>{5,20}); p.strings=r.pick(Vec<int>{0,15,30}); p.effects=25; p.stmts=r.range(6,18); }
  else if(mode=="P02"){ p.exprDepth=r.range(1,4); p.floats=r.pick(Vec<int>{0,20}); p.control=r.range(45,80); p.funcs=75; p.gotos=35; p.switches=60; p.foreachs=50; p.stmts=r.range(6,22); p.swstr=25; }
  else if(mode=="P03"){ p.exprDepth=r.range(1,3); p.containers=70; p.structs=50; p.strings=30; p.control=r.range(20,50); p.foreachs=70; p.stmts=r.range(10,30); }
  else if(mode=="mix"){ p.exprDepth=r.range(1,5); p.floats=r.pick(Vec<int>{0,30,60}); p.control=r.range(10,70); p.stmts=r.range(5,25); p.containers=r.range(10,60); p.strings=r.range(0,40); }
  else if(mode=="yield"){ p.exprDepth=r.range(1,4); p.control=r.range(30,70); p.yields=20; p.funcs=70; p.stmts=r.range(6,18); p.strings=25; p.containers=45; }
  else if(mode=="div"){ p.exprDepth=r.range(2,5); p.floats=r.pick(Vec<int>{0,30,60}); p.control=r.range(5,50); p.zerodiv=r.pick(Vec<int>{0,3,10,40}); p.strings=5; p.containers=r.range(10,60); p.stmts=r.range(5,18); }
  return p; }

static void countFeat(const Generated&g){ for(auto&f:g.feat) g_st.inc("ev."+f.first,f.second); g_st.inc("events",g.trace.size()); g_st.inc("ev.zero-divisor",g.divz); g_st.inc("ref_steps",g.steps); }

static bool reportIfBad(Generated&g,const RunOut&o,const RunCfg&c,const Str&tag,uint64_t ps=0){
  Cmp r=compare(g,o,c); if(!r.bad) return false;
  Str d=fmt("config: flags=%d gc=%d slice=%d stack=%d\n",c.flags,c.gc,c.slice,c.stack)+r.what+"\n--- source\n"+g.src+"--- expected\n"+joinTrace(g.trace)+"--- observed\n"+joinTrace(o.trace);
  violation(tag,r.what,d); return true; }

