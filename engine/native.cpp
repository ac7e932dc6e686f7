// Native meaning of the harness interface: replays one counterexample (or witness) against the
// real, natively compiled code.   usage: replay ENTRY INPUTS   (INPUTS: lines "name value")
#include "vs.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <fstream>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <fcntl.h>
static std::map<std::string,std::string>* in; static std::map<std::string,int>* cnt; static std::string* scratch; static bool inHarnessIO;
static std::string uniq(const char*n){ return std::string(n)+"#"+std::to_string((*cnt)[n]++); }
static bool get(const std::string&k,std::string&v){ auto it=in->find(k); if(it==in->end()) return false; v=it->second; return true; }
static std::stringbuf* outBuf; static double tol=1e-6;
static void fail(const char*kind,const char*msg){ fprintf(stderr,"VS-FAIL %s: %s\n",kind,msg); fflush(stderr); _exit(42); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*));
#define HOOKS 1
#endif
#endif
static bool tracking; static const void* live[200000]; static size_t liveSz[200000]; static int nLive;
static void onMalloc(const volatile void*p,size_t n){ if(tracking&&nLive<200000){ live[nLive]=(const void*)p; liveSz[nLive++]=n; } }
static void onFree(const volatile void*p){ if(tracking) for(int i=nLive;i-->0;) if(live[i]==(const void*)p){ live[i]=live[--nLive]; liveSz[i]=liveSz[nLive]; break; } }
extern "C" {
double vs_real(const char*n,double lo,double hi){ std::string v; if(get(uniq(n),v)) return strtod(v.c_str(),0); return lo>0?lo:hi<0?hi:0; }
int vs_int(const char*n,int lo,int hi){ std::string v; if(get(uniq(n),v)) return atoi(v.c_str()); return lo; }
int vs_char(const char*n,const char*al){ std::string v; int k=0; if(get(uniq(n),v)) k=atoi(v.c_str()); return (unsigned char)al[k]; }
int vs_choice(const char*n,int k){ std::string v; if(get(uniq(n),v)) return atoi(v.c_str()); return 0; }
int vs_param(const char*n,int d){ std::string v; if(get(std::string("param:")+n,v)) return atoi(v.c_str()); return d; }
void vs_assume(int c){ if(!c){ fprintf(stderr,"VS-ASSUME not satisfied\n"); _exit(44); } }
void vs_assert(int c,const char*m){ if(!c) fail("assert",m); }
void vs_assert_eq(double a,double b,const char*m){ if(a==b) return; double s=std::fmax(1.0,std::fmax(std::fabs(a),std::fabs(b))); if(std::isinf(a)||std::isinf(b)||!(std::fabs(a-b)<=tol*s)) { fprintf(stderr,"%.17g vs %.17g\n",a,b); fail("assert",m); } }
void vs_assert_same(double a,double b,const char*m){ if(a==b) return; fprintf(stderr,"%.17g vs %.17g\n",a,b); fail("assert",m); }
void vs_assert_le(double a,double b,const char*m){ if(a<=b) return; double s=std::fmax(1.0,std::fabs(b)); if(std::isinf(a)||std::isinf(b)||!(a<=b+tol*s)) { fprintf(stderr,"%.17g vs %.17g\n",a,b); fail("assert",m); } }
void vs_reach(const char*t){ fprintf(stderr,"VS-REACH %s\n",t); }
int vs_is_inf(double v){ return std::isinf(v)&&v>0; }
int vs_is_nan(double v){ return std::isnan(v); }
int vs_concrete(int v){ return v; }
void vs_stop(){ _exit(0); }
void vs_fail(const char*k,const char*m){ fail(k,m); }
int vs_native(){ return 1; }
int vs_defined(const void*,size_t){ return 1; }
void vs_debug(const char*m){ fprintf(stderr,"[debug] %s\n",m); }
void vs_debug_d(const char*m,double v){ fprintf(stderr,"[debug] %s = %.17g\n",m,v); }
void vs_debug_i(const char*m,long v){ fprintf(stderr,"[debug] %s = %ld\n",m,v); }
void vs_leak_begin(){ nLive=0; tracking=true; }
void vs_leak_check(const char*m){ tracking=false;
#ifdef HOOKS
  if(nLive){ fprintf(stderr,"%d live, e.g. %zu bytes\n",nLive,liveSz[0]); fail("leak",m); }
#endif
}
void* vs_model_alloc(size_t n){ return malloc(n); }
void vs_model_free(void*p){ free(p); }
int vs_fmt_real(double v,int prec,int fl,char*b){ return sprintf(b,fl==1?"%.*f":fl==2?"%.*e":"%.*g",prec,v); }
double vs_token_value(int,int){ return 0; }
int vs_num_token(double v,char*b){ return sprintf(b,"%.17g",v); }
const char* vs_path(const char*n){ static char ring[64][512]; static int k; char*p=ring[k++%64]; snprintf(p,512,"%s/%s",scratch->c_str(),n); return p; }
static std::string slurp(const char*n,bool&ok){ inHarnessIO=true; FILE*f=fopen(vs_path(n),"rb"); ok=f!=0; std::string r; if(f){ char b[4096]; size_t k; while((k=fread(b,1,4096,f))>0) r.append(b,k); fclose(f);} inHarnessIO=false; return r; }
static void spit(const char*n,const std::string&s){ inHarnessIO=true; FILE*f=fopen(vs_path(n),"wb"); fwrite(s.data(),1,s.size(),f); fclose(f); inHarnessIO=false; }
void vs_file_put(const char*n,const char*d,long k){ spit(n,std::string(d,k)); }
long vs_file_len(const char*n){ bool ok; std::string s=slurp(n,ok); return ok?(long)s.size():-1; }
int vs_file_get(const char*n,long i){ bool ok; std::string s=slurp(n,ok); return ok?(unsigned char)s[i]:-1; }
void vs_file_set(const char*n,long i,int c){ bool ok; std::string s=slurp(n,ok); if(ok){ s[i]=(char)c; spit(n,s);} }
void vs_file_resize(const char*n,long k){ bool ok; std::string s=slurp(n,ok); if(ok&&k<=(long)s.size()){ s.resize(k); spit(n,s);} }
static int fWhat; static long fAfter,fCount; static int fHits;
void vs_fault(int w,long a){ fWhat=w; fAfter=a; fCount=0; fHits=0; }
int vs_fault_hits(){ return fHits; }
static int clockMode; static long clockNow;
void vs_clock_mode(int m){ clockMode=m; }
static std::vector<const char*>* script; static size_t posScript;
void vs_script(const char*l){ script->push_back(l?strdup(l):0); }
char* readline(const char*){ if(posScript>=script->size()) return 0; const char*l=(*script)[posScript++]; return l?strdup(l):0; }
void add_history(const char*){}
long vs_out_len(){ return (long)outBuf->str().size(); }
int vs_out_get(long i){ return (unsigned char)outBuf->str()[i]; }
struct FailBuf: std::streambuf{ int_type overflow(int_type) override { return -1; } };
void vs_stdout_fail(){ static FailBuf fb; std::cout.rdbuf(&fb); }
#ifndef NOINTERPOSE
ssize_t read(int fd,void*b,size_t n){ if(fWhat==1&&!inHarnessIO&&fd>2){ if(fCount>=fAfter){ fHits++; errno=EIO; return -1; } long k=fAfter-fCount; if((long)n>k) n=k; ssize_t r=syscall(SYS_read,fd,b,n); if(r>0) fCount+=r; return r; } return syscall(SYS_read,fd,b,n); }
ssize_t write(int fd,const void*b,size_t n){ if(fWhat==2&&!inHarnessIO&&fd>2){ long k=fAfter-fCount; if((long)n>k){ fHits++; if(k<=0){ errno=ENOSPC; return -1; } n=k; } ssize_t r=syscall(SYS_write,fd,b,n); if(r>0) fCount+=r; return r; } return syscall(SYS_write,fd,b,n); }
ssize_t writev(int fd,const struct iovec*v,int c){ ssize_t t=0; for(int i=0;i<c;i++){ size_t off=0; while(off<v[i].iov_len){ ssize_t r=write(fd,(char*)v[i].iov_base+off,v[i].iov_len-off); if(r<0) return t?t:-1; off+=r; t+=r; } } return t; }
static FILE* anyOpen(const char*name,const char*p,const char*m){ if(fWhat==3&&!inHarnessIO){ if(fCount++==fAfter){ fHits++; errno=EMFILE; return 0; } } return ((FILE*(*)(const char*,const char*))dlsym(RTLD_NEXT,name))(p,m); }
FILE* fopen64(const char*p,const char*m){ return anyOpen("fopen64",p,m); }
#undef fopen
FILE* fopen(const char*p,const char*m){ return anyOpen("fopen",p,m); }
#endif
#ifdef WITH_CLI
int onex_main(); int vs_onex_main(){ return onex_main(); }
#endif
}
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { if(clockMode==1){ { int c=vs_choice("clock",3); clockNow+= c==0?0:c==1?10:-25; } } else if(clockMode==2) clockNow+=10; return time_point(duration_cast<duration>(seconds(1000000+clockNow))); } } } }
int main(int argc,char**argv){
  in=new std::map<std::string,std::string>; cnt=new std::map<std::string,int>; script=new std::vector<const char*>;
  { std::ifstream f(argv[2]); std::string l; while(std::getline(f,l)){ size_t p=l.find(' '); if(p!=std::string::npos) (*in)[l.substr(0,p)]=l.substr(p+1); } }
  if(getenv("VS_TOL")) tol=atof(getenv("VS_TOL"));
  char t[]="/tmp/vsreplayXXXXXX"; if(getenv("VS_SCRATCH")) scratch=new std::string(getenv("VS_SCRATCH")); else { char*d=mkdtemp(t); scratch=new std::string(d); }
  outBuf=new std::stringbuf; std::streambuf*old=std::cout.rdbuf(outBuf);
#ifdef HOOKS
  __sanitizer_install_malloc_and_free_hooks(onMalloc,onFree);
#endif
  void(*e)()=(void(*)())dlsym(RTLD_DEFAULT,argv[1]); if(!e){ fprintf(stderr,"no entry %s\n",argv[1]); return 45; }
  e();
  std::cout.rdbuf(old); fprintf(stderr,"VS-DONE\n"); fflush(stderr); _exit(0);
}
