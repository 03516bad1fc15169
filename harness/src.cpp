// P07: any byte string as source. The source sits in an exactly sized heap block (so reading past
// it is seen), the allocator monitor balances every block, sanitizers watch compiler, loader and
// disassembler.
#include "langlib.h"

#include "srcgen.h"
static void checkSource(const Str&src,int flags){
  size_t live0=g_am.live.size(); char*exact=(char*)malloc(src.size()?src.size():1); memcpy(exact,src.data(),src.size());
  unsigned char*o=(unsigned char*)(uintptr_t)0xBAD0; int l=-7; Str what; int e; size_t mlen=0;
  { WRstr m; bool wantMsg=hashStr64(src)&1; e=wr_compile(exact,(int)src.size(),&o,&l,wantMsg?&m:0,flags); mlen=m.size(); if(e&&wantMsg&&!mlen) g_st.inc("errors_without_message"); }
  free(exact);
  if(e){ g_st.inc("rejected"); g_st.inc(fmt("err.%d",e)); if(e<0||e>=WR_ERR_LAST) what=fmt("undocumented error code %d",e); if(o&&o!=(unsigned char*)(uintptr_t)0xBAD0){ what=fmt("error %d but an output block was returned",e); } }
  else { g_st.inc("accepted"); if(!o||o==(unsigned char*)(uintptr_t)0xBAD0||l<=0) what="success without bytecode"; else {
      // an exactly sized copy: loader and disassembler must stay inside it
      unsigned char*c=(unsigned char*)malloc(l); memcpy(c,o,l);
      WRState*w=wr_newState(200); WRContext*x=wr_newContext(w,c,l,false); if(!x) what=fmt("the loader refuses the compiler's output (error %d)",wr_getLastError(w)); wr_destroyState(w);
      // (listing time grows with the square of the code size, so large images are not listed)
      if(l<2500){ char*t=0; unsigned int tl=0; wr_disassemble(c,l,&t,&tl); if(t){ if(strlen(t)!=tl) what="disassembly length is wrong"; g_st.inc("disassembled_bytes",tl); wr_free(t); }
      if(l<2500){ WRstr d; wr_disassemble(c,l,d,true); WRstr d2; wr_disassemble(c,l,d2,false); } }
      free(c); wr_free(o); } }
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks not released (error %d)",g_am.live.size()-live0,e);
  if(what.empty()&&!g_am.errors.empty()) what=g_am.errors[0]; g_am.errors.clear();
  g_st.inc("bytes",src.size()); g_st.seen(hashStr64(src)); if(e&&g_st.samples.size()<2&&src.size()<300) g_st.sample(src);
  if(!what.empty()) violation("compile",what,fmt("flags=%d\n",flags)+src);
}
static Str genSrc(Rng&r){ const char*ms[]={"P01","P02","P03","mix","yield"}; Generated g=generate(r,profFor(ms[r.below(5)],r)); return g.src; }
static void srcCase(Rng&r,long){
  int k=r.below(100); Str s;
  if(k<45){ s=genSrc(r); s=mutate(r,s,r.chance(30)?genSrc(r):s); }
  else if(k<65){ int n=r.range(1,60); for(int i=0;i<n;i++){ s+=tok(r); if(r.chance(70)) s+=" "; } }
  else if(k<70){ int n=r.range(0,200); for(int i=0;i<n;i++) s+=(char)r.u32(); }
  else if(k<78){ s=genSrc(r); s.resize(r.below((int)s.size()+1)); }
  else if(k<92) s=extreme(r);
  else { s=extreme(r); s=mutate(r,s.substr(0,4000),genSrc(r)); }
  if(s.size()>300000) s.resize(300000);
  if(g_verbose) printf("%s\n----\n",esc(s).substr(0,20000).c_str()),fflush(stdout);
  checkSource(s,r.below(32)&~0);
}
int main(int n,char**v){
  if(getenv("SRC_FILE")){ Str s; FILE*f=fopen(getenv("SRC_FILE"),"rb"); int c; while((c=fgetc(f))!=EOF) s+=(char)c; fclose(f); installAllocator(); g_verbose=true; checkSource(s,getenv("FLAGS")?atoi(getenv("FLAGS")):WR_INCLUDE_GLOBALS); printf("done %s\n",g_st.n.count("rejected")?"rejected":"accepted"); return 0; }
  g_modes["src"]=srcCase; return harnessMain(n,v); }
