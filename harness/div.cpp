// P22: one division site per program, in every operand form, operator, kind and syntactic position.
#include "common.h"
struct Opd { Str setup, use; };
// an operand holding value v (int or float) in a given form
static Str num(bool flt,double v){ return flt?fmt("%.4f",v):fmt("%d",(int)v); }
static const char* FORMS[]={"literal","local","global","array","hash","hashdot","struct","call","expr","arrarr","param","native","hasharr"};
static Opd opd(int form,bool flt,double v,const Str&n){ Str t=num(flt,v); Opd o;
  switch(form){
    case 0: o.use=t; break;
    case 1: o.setup="var "+n+" = "+t+";\n"; o.use=n; break;
    case 2: o.use="::"+n; break;                 // global, declared by the caller
    case 3: o.setup="var "+n+"[] = { 9, "+t+", 8 };\n"; o.use=n+"[1]"; break;
    case 4: o.setup="var "+n+" = { \"k\" : "+t+", 3 : 5 };\n"; o.use=n+"[\"k\"]"; break;
    case 5: o.setup="var "+n+" = { \"k\" : "+t+" };\n"; o.use=n+".k"; break;
    case 6: o.setup="var "+n+" = new Box() { 1, "+t+" };\n"; o.use=n+".v"; break;
    case 7: o.use="ret( "+t+" )"; break;
    case 8: o.setup="var "+n+" = "+t+";\n"; o.use="("+n+" + "+n+" - "+n+")"; break;
    case 9: o.setup="var "+n+"[] = { { 1, "+t+" }, { 2, 3 } };\n"; o.use=n+"[0][1]"; break;
    case 10: o.use=n+"p"; break;                 // parameter of the function the site is in
    case 11: o.use="id( "+t+" )"; break;
    case 12: o.setup="var "+n+" = { 7 : { 4, "+t+" } };\n"; o.use=n+"[7][1]"; break;
  } return o; }
static bool trapping(){
#ifdef WRENCH_TRAP_DIVISION_BY_ZERO
  return true;
#else
  return false;
#endif
}
static const char* POS[]={"decl","stmt","logarg","if","while","return","arg","index","foreach","ctor","switch","nested","hostcall","element"};
static void divCase(Rng&r,long){
  static const double iv[]={7,-7,1,-1,0,100,12345}, fv[]={7.5,-2.25,0.5,0,1,100.25};
  bool mod=r.chance(25), comp=r.chance(40), af=!mod&&r.chance(45), bf=!mod&&r.chance(45);
  double a=af?fv[r.below(6)]:iv[r.below(7)], b;
  bool zero=r.chance(55); if(zero) b=0; else { do b=bf?fv[r.below(6)]:iv[r.below(7)]; while(b==0); }
  int fa=r.below(13), fb=r.below(13); if(comp) while(fa==0||fa==7||fa==8||fa==11) fa=r.below(13);
  Opd A=opd(fa,af,a,"aa"), B=opd(fb,bf,b,"bb");
  Str op=mod?"%":"/"; Str ex;
  if(comp) ex=A.use+" "+op+"= "+B.use; else ex=A.use+" "+op+" "+B.use;
  bool flt=af||bf; Str want; double val=0;
  if(flt){ volatile float z=b==0?0:(float)a/(float)b; if(z==0) z=0; val=z; want=f2s(z); } else { int X=(int)a,Y=(int)b; val=Y?(mod?X%Y:X/Y):0; want=fmt("i:%d",(int)val); }
  int pos=r.below(14); if(comp&&pos!=1&&pos!=5&&pos!=12) pos=r.pick(Vec<int>{1,12,1});
  if(flt&&(pos==7||pos==10)) pos=2;
  Str after="log( 2 );\n", body; bool expectAfter=true; Vec<Str> t={"i:1"};
  Str pre=A.setup+B.setup+"log( 1 );\n";
  Str V="i:5 "+want;
  auto W=[&](const Str&s){ t.push_back(s); };
  switch(pos){
    case 0: body="var q = "+ex+"; log( 5, q );\n"; W(V); break;
    case 1: if(comp){ body=ex+"; log( 5, "+A.use+" );\n"; W(V); } else { body="var q; q = "+ex+"; log( 5, q );\n"; W(V); } break;
    case 2: body="log( 5, "+ex+" );\n"; W(V); break;
    case 3: body="if ( "+ex+" ) { log( 6 ); } else { log( 7 ); }\n"; W(val!=0?"i:6":"i:7"); break;
    case 4: body="var n = 0; while ( "+ex+" ) { log( 6 ); n++; if ( n > 1 ) { break; } }\n"; if(val!=0){ W("i:6"); W("i:6"); } break;
    case 5: break; // return, below
    case 6: body="log( 5, ret( "+ex+" ) );\n"; W(V); break;
    case 7: body="var z[] = { 1, 2, 3 }; var q = z[ ("+ex+") & 1 ]; log( 5, q );\n"; W(fmt("i:5 i:%d",((int)val&1)?2:1)); break;
    case 8: body="var z[] = { 1, 2 }; var q; for( var e : z ) { q = "+ex+"; log( 5, q ); }\n"; W(V); if(true) W(V); break;
    case 9: body="var s = new Two( "+ex+" ); log( 5, s.x );\n"; W(V); break;
    case 10: body="switch ( "+ex+" ) { case 0: log( 6 ); break; case 1: log( 8 ); break; default: log( 7 ); }\n"; W(val==0?"i:6":val==1?"i:8":"i:7"); break;
    case 11: body="log( 5, 1 + ( 2 * ("+ex+") ) );\n"; if(flt){ volatile float z=2.0f*(float)val; z=1.0f+z; W("i:5 "+f2s(z)); } else W(fmt("i:5 i:%d",1+2*(int)val)); break;
    case 12: if(comp) body=ex+"; log( 5, "+A.use+" );\n"; else body="log( 5, "+ex+" );\n"; W(V); break;
    case 13: body="var z[] = { 0, 0 }; z[1] = "+ex+"; log( 5, z[1] );\n"; W(V); break;
  }
  if(pos==5) { W("i:2 "+want); }
  else if(r.chance(30)&&pos!=12){ body="var w = 3; if ( w == 3 ) { "+body+" }\n"; }
  Str glob; if(fa==2) glob+="var aa = "+num(af,a)+";\n"; if(fb==2) glob+="var bb = "+num(bf,b)+";\n";
  Str src="struct Box { var u = 0; var v = 0; };\nstruct Two( n ) { var x = n; var y = 1; };\nfunction ret( x ) { return x; }\n"+glob;
  Str call="go( "+num(af,a)+", "+num(bf,b)+" )"; 
  bool host=pos==12;
  src+="function go( aap, bbp ) {\n"+pre+(pos==5?(comp?ex+"; return "+A.use+";\n":"return "+ex+";\n"):body+after)+"}\n";
  bool wrap=r.chance(50)||host; // an unwrapped site runs at top level
  if(pos==5){ src+="log( 2, "+call+" );\nlog( 3 );\n"; wrap=true; }
  else { W("i:2");
    if(!wrap&&fa!=10&&fb!=10){ src="struct Box { var u = 0; var v = 0; };\nstruct Two( n ) { var x = n; var y = 1; };\nfunction ret( x ) { return x; }\n"+glob+pre+body+after+"log( 3 );\n"; }
    else if(host) src+="log( 0 );\n"; else src+=call+";\nlog( 3 );\n"; }
  Vec<Str> exp=t; if(!host) exp.push_back("i:3"); else exp.insert(exp.begin(),"i:0");
  bool willTrap=trapping()&&zero; if(willTrap){ exp.clear(); if(host) exp={"i:0"}; exp.push_back("i:1"); }
  RunCfg c; c.gc=r.pick(Vec<int>{-1,0,64}); if(r.chance(20)) c.flags|=WR_EMBED_DEBUG_CODE;
  int herr=0; bool hnull=false; Str again;
  c.after=[&](WRState*w,WRContext*x){
    if(host&&x){ WRValue av[2]={WRValue(0),WRValue(0)}; if(af) av[0].setFloat((float)a); else av[0].setInt((int)a); if(bf) av[1].setFloat((float)b); else av[1].setInt((int)b);
      WRValue*rv=wr_callFunction(x,"go",av,2); hnull=rv==0; herr=wr_getLastError(w); }
    // the state is still usable: another program runs in it
    if(r.chance(30)){ size_t n0=g_rec.t->size(); unsigned char*o; int l; if(!compileSrc("log( 77, 12 / 4 );",&o,&l,WR_INCLUDE_GLOBALS)){ WRContext*y=wr_run(w,o,l,true); if(!y||wr_getLastError(w)) again="second program failed"; else if(g_rec.t->size()!=n0+1||g_rec.t->back()!="i:77 i:3") again="second program misbehaved"; if(g_rec.t->size()>n0) g_rec.t->resize(n0); g_st.inc("state_reused"); } }
  };
  RunOut o=runProgram(src,c); g_st.inc("programs"); g_st.inc("events",o.trace.size()); g_st.seen(hashStr64(src)); g_st.inc(Str("form.")+FORMS[fb]+(zero?".zero":".nonzero")); g_st.inc(Str("pos.")+POS[pos]); if(willTrap) g_st.inc("traps_expected"); if(g_st.samples.size()<2) g_st.sample(src);
  Str what; int err=host?herr:o.err;
  if(o.cerr) what=fmt("compile error %d %s",o.cerr,o.cmsg.c_str());
  else if(willTrap&&err!=WR_ERR_division_by_zero) what=fmt("division by zero was not reported (error %d)",err);
  else if(!willTrap&&err) what=fmt("error %d although nothing divides by zero in a trapping build",err);
  else if(host&&willTrap&&!hnull) what="host call that divided by zero returned a value";
  else if(o.trace!=exp) { what="native calls differ: "; for(auto&s:exp) what+="["+s+"]"; what+=" expected, observed "; for(auto&s:o.trace) what+="["+s+"]"; }
  else if(!again.empty()) what=again;
  else if(o.leaked) what=fmt("%zu blocks leaked",o.leaked);
  if(!what.empty()) violation(fmt("div.%s",willTrap?"trap":"value"),what,src);
}
int main(int n,char**v){ g_modes["site"]=divCase; return harnessMain(n,v); }
