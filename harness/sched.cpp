// P20: the scheduler. Random sets of reference programs (some yield, some fail half way) are added,
// ticked and removed in random order; each task's native calls must be exactly its own, in order,
// it must advance on every tick (it finishes on the tick that its solo run predicts), and failures
// and removals must be reported for the right task and touch no other.
#include "langlib.h"
#ifdef WRENCH_TIME_SLICES
enum { NT=10 };
struct Task { int k=-1, id=0; Str src; Vec<Str> want, got; int err=0; bool live=false, added=false, removed=false, finished=false; Vec<long> susp; long ticks=0; unsigned char*o=0; int l=0; bool own=false; bool yields=false; };
static Task* g_bind[NT]; static Str g_bad;
static void nat_tlog(WRContext*,const WRValue*a,const int n,WRValue&,void*u){ int k=(int)(intptr_t)u; Task*t=g_bind[k]; Str o; for(int i=0;i<n;i++){ if(i)o+=" "; o+=showVal(a[i]); } if(!t){ g_bad=fmt("a native call by program %d, which is not loaded",k); return; } if(t->removed||t->finished){ g_bad=fmt("program %d makes native calls after it ended",k); return; } t->got.push_back(o); g_st.inc("events"); }
static void reg(WRState*w){ wr_loadAllLibs(w); for(int k=0;k<NT;k++) wr_registerFunction(w,fmt("log%d",k).c_str(),nat_tlog,(void*)(intptr_t)k); wr_registerFunction(w,"id",nat_id,0); wr_registerFunction(w,"nsum",nat_sum,0); }
static Str ren(const Str&s,int k){ Str o; for(size_t i=0;i<s.size();i++){ if(s.compare(i,3,"log")==0&&(i==0||(!isalnum((unsigned char)s[i-1])&&s[i-1]!='_'&&s[i-1]!=':'))&&i+3<s.size()&&!isalnum((unsigned char)s[i+3])&&s[i+3]!='_'){ o+=fmt("log%d",k); i+=2; } else o+=s[i]; } return o; }
// alone, with a constant slice: how often it is suspended, and how it ends
static long solo(Task&t,int slice,int stack,int gc,int&err,Vec<Str>&tr){ Task x; x.k=t.k; Task*save=g_bind[t.k]; g_bind[t.k]=&x; WRState*w=wr_newState(stack); reg(w); if(gc>=0) wr_setAllocatedMemoryGCHint(w,gc); wr_setInstructionsPerSlice(w,slice); WRContext*c=wr_run(w,t.o,t.l,false); long n=0; err=0; if(!c) err=wr_getLastError(w); else { while(wr_getYieldInfo(c)&&n<200000){ n++; wr_continue(c); } err=wr_getLastError(w); } tr=x.got; wr_destroyState(w); g_bind[t.k]=save; return n; }
static Str tallied(Task&t,bool complete){ size_t i=0; while(i<t.got.size()&&i<t.want.size()&&t.got[i]==t.want[i]) i++; if(i<t.got.size()||(complete&&i<t.want.size())) return fmt("program %d: ",t.k)+diffTrace(t.want,t.got); return ""; }
static void schedCase(Rng&r,long){
  size_t live0=g_am.live.size(); g_noReply=true; g_bad.clear(); int n=r.range(1,NT); Vec<Task> ts(n); int stack=r.pick(Vec<int>{300,1000}); int gc=r.pick(Vec<int>{-1,-1,0,200}); bool constant=r.chance(60); int slice=r.pick(Vec<int>{1,2,3,5,10,30,100}); Str what; for(auto&b:g_bind) b=0;
  for(int k=0;k<n;k++){ Task&t=ts[k]; t.k=k; Generated g; for(int i=0;i<6;i++){ g=generate(r,profFor(r.chance(50)?"yield":"mix",r)); if(g.ok&&!g.trapped) break; } if(!g.ok||g.trapped){ g_noReply=false; for(auto&x:ts) if(x.o) wr_free(x.o); g_st.inc("discard"); return; }
    Str s=ren(g.src,k); for(auto&e:g.trace) if(e.compare(0,1,"Y")) t.want.push_back(e); else t.yields=true; 
    if(r.chance(30)){ int m=r.range(2,60); s+=fmt("\nfor( var zz = 0; zz < %d; ++zz ) { log%d( zz ); }\n",m,k); for(int i=0;i<m;i++) t.want.push_back(fmt("i:%d",i)); }
    if(r.chance(25)){ s+="\nno_such_function_"+fmt("%d",k)+"( 1 );\nlog"+fmt("%d",k)+"( \"never\" );\n"; t.err=WR_ERR_function_not_found; }
    t.src=s; Str msg; if(compileSrc(s,&t.o,&t.l,WR_INCLUDE_GLOBALS,&msg)){ violation("sched.gen","does not compile: "+msg,s); for(auto&x:ts) if(x.o) wr_free(x.o); g_noReply=false; return; }
    int e; Vec<Str> tr; t.susp.push_back(solo(t,slice,stack,gc,e,tr)); if(e!=t.err||tr!=t.want){ if(what.empty()) what=fmt("alone in slices of %d: error %d, ",slice,e)+diffTrace(t.want,tr); } t.own=r.chance(40); }
  Str hist;
  if(what.empty()){ WrenchScheduler*S=new WrenchScheduler(stack); reg(S->state()); if(gc>=0) wr_setAllocatedMemoryGCHint(S->state(),gc); int next=0; long idle=0; long ticks=0; std::set<int> ids;
    auto add=[&](){ Task&t=ts[next++]; g_bind[t.k]=&t; int s=constant?slice:r.range(1,200); t.added=true; S->clearErr(); int id=S->addThread(t.o,t.l,s,t.own); hist+=fmt("add %d slice %d -> %d\n",t.k,s,id); t.id=id; g_st.inc("adds");
      if(id<0){ t.finished=true; if(t.own){ t.o=0; } if(!t.err) what=fmt("program %d is refused, error %d",t.k,wr_getLastError(S->state())); else if(constant&&t.susp[0]>0) what=fmt("program %d fails at once although it is suspended %ld times when alone",t.k,t.susp[0]); else { what=tallied(t,true); g_st.inc("failed_at_once"); } }
      else if(id==0){ t.finished=true; if(t.own) t.o=0; if(t.err) what=fmt("program %d ended normally instead of error %d",t.k,t.err); else if(constant&&t.susp[0]>0) what=fmt("program %d is reported finished although it is suspended %ld times when alone",t.k,t.susp[0]); else what=tallied(t,true); g_st.inc("finished_at_once"); }
      else { if(!ids.insert(id).second) what=fmt("task id %d was given twice",id); t.live=true; if(t.own) t.o=0; if(constant&&t.susp[0]==0) what=fmt("program %d is kept as a task although it needs one slice",t.k); if(what.empty()) what=tallied(t,false); } };
    while(what.empty()&&(next<n||std::any_of(ts.begin(),ts.end(),[](Task&t){return t.live;}))&&ticks<20000){
      if(next<n&&(r.chance(30)||next==0)){ add(); continue; }
      if(r.chance(6)){ Task&t=ts[r.below(n)]; if(!t.added||t.id<=0){ continue; } bool was=t.live; bool got=S->removeTask(t.id); hist+=fmt("remove %d -> %d\n",t.k,got); g_st.inc("removes"); if(got!=was&&constant) what=fmt("removing program %d (%s) answers %s",t.k,was?"running":"ended",got?"true":"false"); if(got){ t.live=false; t.removed=true; } else if(was){ t.live=false; t.finished=true; what=tallied(t,true); } continue; }
      if(r.chance(2)){ if(S->removeTask(r.range(1<<29,1<<30))) what="a task that never existed was removed"; }
      int s=constant?slice:r.range(1,200); S->clearErr(); S->tick(s); ticks++; g_st.inc("ticks"); int failing=0; Task*who=0;
      for(auto&t:ts) if(t.live){ t.ticks++; what=tallied(t,false); if(!what.empty()) break;
        if(constant){ if(t.ticks==t.susp[0]){ // must have ended on this tick
            t.live=false; t.finished=true; g_st.inc("predicted_ends"); what=tallied(t,true); if(t.err){ failing++; who=&t; } if(what.empty()&&r.chance(50)&&S->removeTask(t.id)) what=fmt("program %d is still a task on tick %ld, when it should have ended",t.k,t.ticks); } }
        if(!what.empty()) break; }
      if(what.empty()&&constant){ if(failing==0&&S->lastErr()) what=fmt("error %d reported for task %d, no program failed",S->lastErr(),S->lastErrTaskId()); if(failing==1){ g_st.inc("failures"); if(S->lastErr()!=who->err||S->lastErrTaskId()!=who->id) what=fmt("program %d (task %d) failed with error %d, reported: error %d task %d",who->k,who->id,who->err,S->lastErr(),S->lastErrTaskId()); } }
      if(what.empty()&&!constant){ if(S->lastErr()){ Task*t=0; for(auto&q:ts) if(q.live&&q.id==S->lastErrTaskId()) t=&q; if(!t) what=fmt("error %d reported for unknown task %d",S->lastErr(),S->lastErrTaskId()); else if(t->err!=S->lastErr()) what=fmt("program %d reported with error %d",t->k,S->lastErr()); else { t->live=false; t->finished=true; what=tallied(*t,true); g_st.inc("failures"); } }
        for(auto&t:ts) if(t.live&&t.got.size()==t.want.size()&&!t.err&&r.chance(10)){ /* perhaps ended: nothing more may come from it */ g_st.inc("complete_traces"); } }
      if(what.empty()&&!constant&&ticks>15000){ bool stuck=false; for(auto&t:ts) if(t.live&&t.got.size()<t.want.size()) stuck=true; if(stuck) what="a task never finishes"; break; }
      if(!constant){ bool all=next==n; for(auto&t:ts) if(t.live&&(t.got.size()<t.want.size()||t.err)) all=false; if(all&&++idle>300) break; } 
      if(!g_bad.empty()) what=g_bad; }
    if(what.empty()&&!g_bad.empty()) what=g_bad;
    if(what.empty()&&!constant) for(auto&t:ts) if(t.live){ if(t.err) what=fmt("program %d never reported its error",t.k); else what=tallied(t,true); if(!what.empty()) break; }
    hist+=fmt("%ld ticks\n",ticks); for(auto&t:ts) if(t.added&&t.o==0&&!t.own) t.o=0; 
    delete S; }
  for(auto&t:ts) if(t.o&&!(t.own&&t.added)) wr_free(t.o);
  for(auto&b:g_bind) b=0; g_noReply=false; Str all; for(auto&t:ts) all+=fmt("--- program %d\n",t.k)+t.src; g_st.seen(hashStr64(all+hist)); g_st.inc("schedules"); g_st.inc("tasks",n); if(g_st.samples.size()<2) g_st.sample(hist);
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear();
  if(!what.empty()) violation("sched",what,fmt("slice=%d constant=%d stack=%d gc=%d\n",slice,constant,stack,gc)+hist+all); }
#endif
int main(int n,char**v){
#ifdef WRENCH_TIME_SLICES
  g_modes["sched"]=schedCase;
#endif
  return harnessMain(n,v); }
