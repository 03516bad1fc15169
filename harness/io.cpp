// P19: random histories of file library calls on a scratch directory, by script and by host, against a
// byte-array model of every file and every descriptor; after each step the directory and all bytes on disk
// are compared. File system calls of the library are watched: a name the program never gave, or one
// outside the scratch directory, is recorded and not carried out.
#include "langlib.h"
#include <memory>
#include <set>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <sys/syscall.h>
static bool g_watch=false; static std::set<Str> g_given; static Str g_escape; static long g_calls=0; static int g_dir=-1;
static bool admit(const char*op,const char*n){ if(!g_watch) return true; g_calls++; Str s=n?n:"(null)"; bool ok=n&&g_given.count(s)&&s[0]!='/'&&s.find("..")==Str::npos; if(!ok&&g_escape.empty()) g_escape=Str(op)+" on \""+esc(s.substr(0,80))+"\", a name the program did not give"; return ok; }
extern "C" int unlink(const char*n){ if(!admit("unlink",n)){ errno=EACCES; return -1; } long r=syscall(SYS_unlinkat,AT_FDCWD,n,0); return (int)r; }
extern "C" int open(const char*n,int f,...){ va_list a; va_start(a,f); int m=va_arg(a,int); va_end(a); if(!admit("open",n)){ errno=EACCES; return -1; } return (int)syscall(SYS_openat,AT_FDCWD,n,f,m); }
static int fmode(const char*m){ int f=m[0]=='r'?O_RDONLY:m[0]=='a'?O_WRONLY|O_CREAT|O_APPEND:O_WRONLY|O_CREAT|O_TRUNC; if(strchr(m,'+')) f=(f&~O_ACCMODE)|O_RDWR; return f; }
extern "C" FILE* fopen(const char*n,const char*m){ if(!admit("fopen",n)){ errno=EACCES; return 0; } int f=(int)syscall(SYS_openat,AT_FDCWD,n,fmode(m),0666); return f<0?0:fdopen(f,m); }
struct File { Str d; }; typedef std::shared_ptr<File> FP;
struct Fd { int fd; FP f; long pos; bool wr,app; };
static int nfds(){ int n=0; DIR*d=opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
static bool slurp(const Str&n,Str&o){ int f=(int)syscall(SYS_openat,AT_FDCWD,n.c_str(),O_RDONLY,0); if(f<0) return false; o.clear(); char b[65536]; ssize_t q; while((q=read(f,b,sizeof b))>0) o.append(b,q); close(f); return true; }
static Str g_scratch; static void cleanup(){ if(g_scratch.empty()) return; DIR*d=opendir(g_scratch.c_str()); if(!d) return; struct dirent*e; while((e=readdir(d))){ Str s=e->d_name; if(s!="."&&s!="..") unlinkat(dirfd(d),e->d_name,e->d_type==DT_DIR?AT_REMOVEDIR:0); } closedir(d); rmdir(g_scratch.c_str()); }
static void ioCase(Rng&r,long){
  g_watch=false; if(g_scratch.empty()){ char t[200]; if(!getcwd(t,100)){ exit(2);} strcat(t,"/io-XXXXXX"); if(!mkdtemp(t)||chdir(t)) exit(2); g_scratch=t; atexit(cleanup); }
  { DIR*d=opendir("."); struct dirent*e; while((e=readdir(d))){ Str s=e->d_name; if(s!="."&&s!="..") unlinkat(dirfd(d),e->d_name,e->d_type==DT_DIR?AT_REMOVEDIR:0); } closedir(d); }
  size_t live0=g_am.live.size(); int fds0=nfds(); Str what,hist; Vec<Str> names={"a","b.txt","with space","long-"+Str(r.range(1,180),'n')}; Vec<Str> bad={"nodir/x","","missing"+Str(300,'y')}; g_given.clear(); for(auto&n:names) g_given.insert(n); for(auto&n:bad) g_given.insert(n);
  std::map<Str,FP> disk; Vec<Fd> open_; WRState*w=wr_newState(200); wr_loadAllLibs(w); if(r.chance(50)) wr_setAllocatedMemoryGCHint(w,r.chance(50)?0:500);
  // files of others, which must not move
  mkdir("dir",0755); { int f=(int)syscall(SYS_openat,AT_FDCWD,"other",O_WRONLY|O_CREAT,0600); if(write(f,"untouched",9)!=9) exit(2); close(f); } disk["other"]=FP(new File{"untouched"});
  Str src="function openF( n, f ) { return io::open( n, f ); }\nfunction openD( n ) { return io::open( n ); }\nfunction openNew( n ) { return io::open( n, io::O_RDWR | io::O_CREAT | io::O_EXCL ); }\nfunction openTr( n ) { return io::open( n, io::O_RDWR | io::O_CREAT | io::O_TRUNC ); }\nfunction openAp( n ) { return io::open( n, io::O_RDWR | io::O_CREAT | io::O_APPEND ); }\nfunction openRd( n ) { return io::open( n, io::O_RDONLY ); }\nfunction rd( f, n ) { return io::read( f, n ); }\nfunction wrt( f, d ) { return io::write( f, d ); }\nfunction wrtn( f, d, n ) { return io::write( f, d, n ); }\nfunction seekS( f, o ) { return io::seek( f, o, io::SEEK_SET ); }\nfunction seekC( f, o ) { return io::seek( f, o, io::SEEK_CUR ); }\nfunction seekE( f, o ) { return io::seek( f, o, io::SEEK_END ); }\nfunction sync( f ) { return io::fsync( f ); }\nfunction cls( f ) { return io::close( f ); }\nfunction rdF( n ) { return io::readFile( n ); }\nfunction wrF( n, d ) { return io::writeFile( n, d ); }\nfunction del( n ) { io::deleteFile( n ); return 1; }\nfunction line() { return io::getline(); }\n"
    "function copyF( a, b, n ) { var f = io::open( a, io::O_RDONLY ); if( f < 0 ) { return -1; } var g = io::open( b, io::O_RDWR | io::O_CREAT | io::O_TRUNC ); var t = 0; for(;;) { var d = io::read( f, n ); if( d._count == 0 ) { break; } t = t + io::write( g, d ); } io::close( f ); io::close( g ); return t; }\nfunction rewrite( n ) { var d = io::readFile( n ); return io::writeFile( n, str::concat( d, \"+tail\" ) ); }\nfunction wrRaw( f, c ) { return io::write( f, c.raw ); }\n";
  unsigned char*o; int l; Str m; if(compileSrc(src,&o,&l,0,&m)){ violation("io.gen",m,src); wr_destroyState(w); return; } WRContext*c=wr_run(w,o,l,true); if(!c){ violation("io.gen","not loaded",src); wr_destroyState(w); return; }
  auto mks=[&](WRValue&v,const Str&s){ wr_makeString(c,&v,s.data(),(int)s.size()); };
  auto data=[&]{ int n=r.pick(Vec<int>{0,1,2,5,r.below(40),r.below(40),r.below(300),r.chance(4)?70000:20}); Str s; for(int q=0;q<n;q++) s+=r.chance(60)?(char)('a'+r.below(26)):(char)r.below(256); return s; };
  auto call=[&](const char*f,WRValue*a,int n)->Str{ g_watch=true; WRValue*q=wr_callFunction(c,f,a,n); g_watch=false; g_st.inc("calls"); if(!q||wr_getLastError(w)) return fmt("error %d",wr_getLastError(w)); return showVal(*q); };
  auto is=[&](const Str&g,const Str&e,const char*f){ if(g!=e&&what.empty()) what=Str(f)+" gives "+g.substr(0,200)+", expected "+e.substr(0,200); };
  auto S=[&](const Str&s){ WRValue v; mks(v,s); return showVal(v); };
  auto put=[&](Fd&d,const Str&s){ if(d.app&&s.size()) d.pos=(long)d.f->d.size(); if(s.size()){ if((long)d.f->d.size()<d.pos) d.f->d.resize(d.pos,'\0'); if(d.f->d.size()<d.pos+s.size()) d.f->d.resize(d.pos+s.size()); memcpy(&d.f->d[d.pos],s.data(),s.size()); } d.pos+=s.size(); };
  int n=r.range(5,60); WRValue a[3];
  for(int st=0;st<n&&what.empty();st++){ Str nm=r.chance(92)?r.pick(names):r.pick(bad); bool isbad=!(std::find(names.begin(),names.end(),nm)!=names.end()); bool ex=disk.count(nm); int k=r.below(20); mks(a[0],nm); Fd*d=open_.size()?&open_[r.below((int)open_.size())]:0; bool lib=r.chance(30);
    switch(k){
      case 0: case 1: case 2: { if(open_.size()>6) break; int kind=r.below(5); const char*fn[5]={"openD","openNew","openTr","openAp","openRd"}; int fl[5]={O_RDWR|O_CREAT,O_RDWR|O_CREAT|O_EXCL,O_RDWR|O_CREAT|O_TRUNC,O_RDWR|O_CREAT|O_APPEND,O_RDONLY}; Str q; hist+=Str(fn[kind])+" "+esc(nm)+"\n"; if(lib){ a[1]=WRValue(fl[kind]); q=call(r.chance(50)?"openF":"io::open",a,2); } else q=call(fn[kind],a,1);
        bool ok=!isbad&&(kind==4?ex:kind==1?!ex:true); if(!ok){ is(q,"i:-1",fn[kind]); g_st.inc("refused"); break; } int fd=atoi(q.c_str()+2); if(q.substr(0,2)!="i:"||fd<3){ what=Str(fn[kind])+" gives "+q; break; } if(!ex) disk[nm]=FP(new File()); if(kind==2) disk[nm]->d.clear(); open_.push_back(Fd{fd,disk[nm],0,kind!=4,kind==3}); g_st.inc("opened"); break; }
      case 3: case 4: case 5: { if(!d) break; Str s=data(); int lim=-1; a[0]=WRValue(d->fd); mks(a[1],s); hist+=fmt("write %d bytes\n",(int)s.size()); if(r.chance(25)){ lim=r.below((int)s.size()+20); a[2]=WRValue(lim); } Str q=lim>=0?call(lib?"io::write":"wrtn",a,3):call(lib?"io::write":"wrt",a,2); if(lim>=0&&lim<(int)s.size()) s.resize(lim); if(!d->wr){ is(q,"i:-1","write to a read-only file"); g_st.inc("refused"); break; } is(q,fmt("i:%d",(int)s.size()),"write"); put(*d,s); g_st.inc("writes"); g_st.inc("bytes_written",s.size()); break; }
      case 6: case 7: case 8: { if(!d) break; int want=r.pick(Vec<int>{1,2,7,r.range(1,60),r.range(1,600),r.chance(5)?100000:30}); a[0]=WRValue(d->fd); a[1]=WRValue(want); hist+=fmt("read %d\n",want); Str q=call(lib?"io::read":"rd",a,2); Str e; if(d->pos<(long)d->f->d.size()) e=d->f->d.substr(d->pos,want); is(q,S(e),"read"); d->pos+=e.size(); g_st.inc("reads"); g_st.inc("bytes_read",e.size()); break; }
      case 9: case 10: { if(!d) break; int wh=r.below(3); long base=wh==0?0:wh==1?d->pos:(long)d->f->d.size(); int off=wh==0?r.range(-3,(int)d->f->d.size()+20):r.range(-(int)base-3,30); a[0]=WRValue(d->fd); a[1]=WRValue(off); a[2]=WRValue(wh==0?SEEK_SET:wh==1?SEEK_CUR:SEEK_END); const char*fn[3]={"seekS","seekC","seekE"}; hist+=fmt("%s %d\n",fn[wh],off); Str q=lib?call("io::seek",a,3):call(fn[wh],a,2); long np=base+off; if(np<0){ is(q,"i:-1","a seek before the start"); g_st.inc("refused"); } else { is(q,fmt("i:%ld",np),fn[wh]); d->pos=np; } g_st.inc("seeks"); break; }
      case 11: { if(!d||!r.chance(60)) break; a[0]=WRValue(d->fd); hist+="close\n"; is(call(lib?"io::close":"cls",a,1),"i:0","close"); open_.erase(open_.begin()+(d-&open_[0])); a[0]=WRValue(r.chance(50)?-1:9999); if(r.chance(30)){ is(call("cls",a,1),"i:-1","close of no file"); is(call("sync",a,1),"i:-1","fsync of no file"); a[1]=WRValue(5); is(call("rd",a,2),S(""),"read of no file"); mks(a[1],"x"); is(call("wrt",a,2),"i:-1","write to no file"); a[1]=WRValue(0); is(call("seekS",a,2),"i:-1","seek of no file"); g_st.inc("refused"); } break; }
      case 12: { Str q; hist+="readFile "+esc(nm)+"\n"; if(r.chance(6)){ mks(a[0],"dir"); g_given.insert("dir"); q=call("rdF",a,1); if(q!="i:0") what="readFile of a directory gives "+q; g_st.inc("refused"); break; } q=call(lib?"io::readFile":"rdF",a,1); is(q,ex?S(disk[nm]->d):Str("i:0"),"readFile"); g_st.inc(ex?"reads":"refused"); break; }
      case 13: case 14: { Str s=data(); mks(a[1],s); hist+="writeFile "+esc(nm)+fmt(" %d\n",(int)s.size()); Str q=call(lib?"io::writeFile":"wrF",a,2); if(isbad){ is(q,"i:0","writeFile"); g_st.inc("refused"); break; } is(q,s.size()?"i:1":"i:0","writeFile"); if(!ex) disk[nm]=FP(new File()); disk[nm]->d=s; g_st.inc("writes"); break; }
      case 15: { hist+="deleteFile "+esc(nm)+"\n"; Str q=call(lib?"io::deleteFile":"del",a,1); is(q,lib?q:Str("i:1"),"deleteFile"); disk.erase(nm); g_st.inc("deleted"); break; }
      case 16: { if(!d) break; a[0]=WRValue(d->fd); is(call(lib?"io::fsync":"sync",a,1),"i:0","fsync"); break; }
      case 17: { Str b=r.pick(names); int ch=r.range(1,50); if(b==nm||(ex&&disk[nm]->d.size()>5000)) break; mks(a[1],b); a[2]=WRValue(ch); hist+="copy "+esc(nm)+" "+esc(b)+fmt(" by %d\n",ch); Str q=call("copyF",a,3); if(!ex){ is(q,"i:-1","copy"); break; } is(q,fmt("i:%d",(int)disk[nm]->d.size()),"copy"); if(!disk.count(b)) disk[b]=FP(new File()); disk[b]->d=disk[nm]->d; g_st.inc("copies"); break; }
      case 18: { if(r.chance(50)){ if(!ex||isbad) break; hist+="rewrite "+esc(nm)+"\n"; Str q=call("rewrite",a,1); disk[nm]->d+="+tail"; is(q,"i:1","writeFile"); g_st.inc("writes"); } else if(d&&d->wr){ int rl=r.range(1,200); Str raw; for(int q=0;q<rl;q++) raw+=(char)r.below(256); WRValue ct; wr_makeContainer(&ct); wr_addArrayToContainer(&ct,"raw",&raw[0],rl); a[0]=WRValue(d->fd); a[1]=ct; hist+=fmt("write host memory %d\n",rl); is(call("wrRaw",a,2),fmt("i:%d",rl),"write of host memory"); put(*d,raw); wr_destroyContainer(&ct); g_st.inc("writes"); } break; }
      default: { // lines of the standard input
        Str in; int lines=r.range(1,5); for(int q=0;q<lines;q++){ int len=r.chance(15)?r.range(250,600):r.below(60); for(int z=0;z<len;z++) in+=r.chance(95)?(char)r.range(32,126):(char)r.range(128,255); if(q<lines-1||r.chance(70)) in+=r.chance(90)?"\n":"\r"; }
        int f=(int)syscall(SYS_openat,AT_FDCWD,".stdin",O_RDWR|O_CREAT|O_TRUNC,0600); if(write(f,in.data(),in.size())!=(ssize_t)in.size()) exit(2); close(f); if(!freopen(".stdin","rb",stdin)) exit(2); unlinkat(AT_FDCWD,".stdin",0); size_t p=0; hist+=fmt("lines of %d bytes\n",(int)in.size());
        for(int q=0;q<12&&what.empty();q++){ Str e; while(p<in.size()&&e.size()<256&&in[p]!='\n'&&in[p]!='\r') e+=in[p++]; if(p<in.size()&&e.size()<256) p++; is(call(lib?"io::getline":"line",0,0),S(e),"getline"); g_st.inc("lines"); } } }
    if(what.empty()&&g_escape.size()) what=g_escape; g_escape.clear();
    if(what.empty()){ std::set<Str> seen; DIR*dd=opendir("."); struct dirent*e; while((e=readdir(dd))){ Str s=e->d_name; if(s=="."||s==".."||s=="dir") continue; seen.insert(s); if(!disk.count(s)&&what.empty()) what="a file that should not be there: "+esc(s); } closedir(dd); for(auto&q:disk){ Str s; if(!seen.count(q.first)){ if(what.empty()) what="a file is missing: "+esc(q.first); } else if(slurp(q.first,s)&&s!=q.second->d&&what.empty()) what="file "+esc(q.first)+fmt(" has %d bytes on disk, ",(int)s.size())+fmt("expected %d (or different bytes)",(int)q.second->d.size()); g_st.inc("disk_checks"); } } }
  for(auto&d:open_) close(d.fd); int f1=nfds(); if(what.empty()&&f1!=fds0) what=fmt("%d descriptors leaked",f1-fds0);
  wr_destroyState(w); g_st.seen(hashStr64(hist)); if(g_st.samples.size()<2) g_st.sample(hist.substr(0,300)); g_st.inc("watched_calls",g_calls); g_calls=0;
  if(what.empty()&&g_am.live.size()!=live0) what=fmt("%zu blocks leaked",g_am.live.size()-live0); if(what.empty()&&g_am.errors.size()) what=g_am.errors[0]; g_am.errors.clear(); if(!what.empty()) violation("io",what,hist); }
int main(int n,char**v){ g_modes["io"]=ioCase; return harnessMain(n,v); }
