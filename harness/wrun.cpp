// debug tool: compile and run a script, printing log() calls with types
#include "wrench.h"
#include <stdio.h>
#include <string>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string.h>
#include <stdlib.h>
static void logf(WRContext*c,const WRValue*a,const int n,WRValue&r,void*){
  for(int i=0;i<n;i++){ char b[4096]; const WRValue&v=a[i].deref(); 
    if(v.type==WR_INT)printf("i:%d ",v.i); else if(v.type==WR_FLOAT)printf("f:%.9g ",v.f); else {printf("x:%s ",a[i].asString(b,4000));} }
  printf("\n"); }
static void nid(WRContext*,const WRValue*a,const int n,WRValue&r,void*){ if(n>0) r=a[0].deref(); }
static void nsum(WRContext*,const WRValue*a,const int n,WRValue&r,void*){ unsigned s=0; for(int i=0;i<n;i++) s+=(unsigned)a[i].asInt(); wr_makeInt(&r,(int)s); }
int main(int n,char**v){
  std::ifstream f(v[1]); std::stringstream ss; ss<<f.rdbuf(); std::string s=ss.str();
  int flags = getenv("NS")?WR_NON_STRICT_VAR:0; flags|=WR_INCLUDE_GLOBALS;
  unsigned char*o;int l; WRError e=wr_compile(s.c_str(),s.size(),&o,&l,0,flags);
  if(e){printf("compile err %d\n",e);return 1;}
  if(getenv("DIS")){ WRstr d; wr_disassemble(o,l,d); printf("%s\n",d.c_str()); }
  WRState*w=wr_newState(); wr_loadAllLibs(w); wr_registerFunction(w,"log",logf,0); wr_registerFunction(w,"id",nid,0); wr_registerFunction(w,"nsum",nsum,0);
  if(getenv("GC")) wr_setAllocatedMemoryGCHint(w,atoi(getenv("GC")));
  WRContext*c=wr_run(w,o,l,true);
  while( c && wr_getYieldInfo(c) ) { printf("[yield]\n"); wr_continue(c);} 
  printf("ctx=%s err=%d\n",c?"ok":"null",wr_getLastError(w)); wr_destroyState(w);
}
