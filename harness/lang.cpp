// Language-level checks: random programs against the reference evaluator.
#include "langlib.h"

static void langCase(Rng&r,long,const Str&mode){
  Profile pf=profFor(mode,r); Generated g=generate(r,pf);
  RunCfg c; c.gc=r.pick(Vec<int>{-1,-1,0,1,50,500,100000}); uint64_t ps=r.u64();
  if(r.chance(25)) c.flags|=WR_EMBED_DEBUG_CODE; if(r.chance(15)) c.flags|=WR_EMBED_SOURCE_CODE; if(r.chance(10)) c.flags|=WR_NON_STRICT_VAR; if(r.chance(10)) c.flags&=~WR_INCLUDE_GLOBALS;
  if(!g.ok){ g_st.inc(Str("discard.")+g.why); return; }
  if(g_verbose&&!g_reduce) printf("%s\n",g.src.c_str());
  if(g_reduce){ reprint(g,ps); g_closed=false; bool cv=childVerdict(g,c); g_closed=closedSrc(g); if(!cv){ printf("not reproduced\n"); return; } reduceCase(g,c,ps); printf("REDUCED flags=%d gc=%d\n%s\n--- expected\n%s\n",c.flags,c.gc,g.src.c_str(),joinTrace(g.trace).c_str()); for(size_t i=0;i<g.gnames.size();i++) if(g.src.find(g.gnames[i])!=Str::npos) printf("  %s=%s\n",g.gnames[i].c_str(),g.gvals[i].c_str()); fflush(stdout); }
  reprint(g,ps);
  RunOut o=runProgram(g.src,c,g.gnames);
  countFeat(g); g_st.inc("programs"); g_st.seen(hashStr64(g.src)); if(g_st.samples.size()<2&&g.src.size()<700) g_st.sample(g.src);
  reportIfBad(g,o,c,mode+".ref");
}

int main(int n,char**v){
  g_reduce=getenv("REDUCE")!=0;
#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
  g_trap=true;
#endif
  for(const char*m:{"P01","P02","P03","mix","yield","div"}){ Str s=m; g_modes[s]=[s](Rng&r,long c){ langCase(r,c,s); }; }
  return harnessMain(n,v);
}
