// Models of what the C++ library gets from libstdc++.so / libc: compiled to IR and linked
// with the code under test. Everything that lives in headers (streams, strings, containers,
// filebuf buffering, getline, boost) is the real code.
#define __NO_INLINE__ 1
#include "vs.h"
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <locale>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <limits>
#include <chrono>
#include <cstring>
#include <cerrno>
#include <unordered_map>
#include <map>
#include <list>
#include <functional>
#include <ctime>
#include <climits>

// ------------------------------------------------------------------ C library
extern "C" {
size_t strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (unsigned char)*a-(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ for(;n;n--,a++,b++){ if(*a!=*b) return (unsigned char)*a-(unsigned char)*b; if(!*a) return 0; } return 0; }
char* strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char* strdup(const char*s){ size_t n=strlen(s)+1; char*r=(char*)malloc(n); memcpy(r,s,n); return r; }
const char* vsm_strchr(const char*s,int c) __asm__("strchr");
const char* vsm_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return s; if(!*s) return 0; } }
int memcmp(const void*a,const void*b,size_t n){ const unsigned char*x=(const unsigned char*)a,*y=(const unsigned char*)b; for(;n;n--,x++,y++) if(*x!=*y) return *x<*y?-1:1; return 0; }
const void* vsm_memchr(const void*,int,size_t) __asm__("memchr");
const void* vsm_memchr(const void*a,int c,size_t n){ const unsigned char*x=(const unsigned char*)a; for(;n;n--,x++) if(*x==(unsigned char)c) return x; return 0; }
int isspace(int c){ return c==' '||(c>=9&&c<=13); }
int isdigit(int c){ return c>='0'&&c<='9'; }
int isupper(int c){ return c>='A'&&c<='Z'; }
int islower(int c){ return c>='a'&&c<='z'; }
int isalpha(int c){ return (c>='A'&&c<='Z')||(c>='a'&&c<='z'); }
int isalnum(int c){ return isalpha(c)||isdigit(c); }
int isprint(int c){ return c>=32&&c<127; }
int ispunct(int c){ return c>32&&c<127&&!isalnum(c); }
int tolower(int c){ return isupper(c)?c+32:c; }
int toupper(int c){ return islower(c)?c-32:c; }
static int vsm_errno; int* __errno_location(){ return &vsm_errno; }
void* __dso_handle=0;
int __gxx_personality_v0(...){ return 0; }
time_t time(time_t*t){ if(t) *t=0; return 0; }
clock_t clock(){ return 0; }
int printf(const char*,...){ return 0; }
int puts(const char*){ return 0; }
int putchar(int c){ return c; }
int fprintf(FILE*,const char*,...){ return 0; }
void qsort(void*base,size_t n,size_t w,int(*cmp)(const void*,const void*)){ char*b=(char*)base; char tmp[64]; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&cmp(b+(j-1)*w,b+j*w)>0;j--){ memcpy(tmp,b+(j-1)*w,w); memcpy(b+(j-1)*w,b+j*w,w); memcpy(b+j*w,tmp,w); } }

// decimal text to number; understands number tokens \1<id>\2
static int vsm_dig(char c){ return c>='0'&&c<='9'; }
static double vsm_strtod(const char*s,char**end,int digits){
  const char*p=s; while(isspace(*p)) p++; bool neg=false; if(*p=='-'){neg=true;p++;} else if(*p=='+') p++;
  if(*p==1){ const char*q=p+1; int id=0; while(*q&&*q!=2){ id=id*10+(*q-'0'); q++; } if(end) *end=(char*)q+1; double v=vs_token_value(id,digits); return neg?-v:v; }
  if((p[0]=='i'||p[0]=='I')&&(p[1]=='n'||p[1]=='N')&&(p[2]=='f'||p[2]=='F')){ if(end)*end=(char*)p+3; return neg?-__builtin_inf():__builtin_inf(); }
  if((p[0]=='n'||p[0]=='N')&&(p[1]=='a'||p[1]=='A')&&(p[2]=='n'||p[2]=='N')){ if(end)*end=(char*)p+3; return __builtin_nan(""); }
  double m=0, scale=1; int nd=0; const char*q=p;
  while(vsm_dig(*q)){ m=m*10+vs_concrete(*q-'0'); q++; nd++; }
  if(*q=='.'){ const char*f=q+1; while(vsm_dig(*f)){ m=m*10+vs_concrete(*f-'0'); scale*=10; f++; nd++; } if(nd) q=f; }
  if(!nd){ if(end)*end=(char*)s; return 0; }
  int ex=0; if(*q=='e'||*q=='E'){ const char*x=q+1; bool en=false; if(*x=='-'){en=true;x++;} else if(*x=='+') x++; if(vsm_dig(*x)){ while(vsm_dig(*x)){ if(ex<10000) ex=ex*10+vs_concrete(*x-'0'); x++; } q=x; if(en) ex=-ex; } }
  double v=m/scale; if(ex>400||ex<-400){ if(m!=0){ vsm_errno=ERANGE; v= ex>0?__builtin_inf():0; } } else { for(int i=0;i<ex;i++) v*=10; for(int i=0;i>ex;i--) v/=10; if(__builtin_isinf(v)) vsm_errno=ERANGE; }
  if(end)*end=(char*)q; return neg?-v:v; }
double strtod(const char*s,char**e){ return vsm_strtod(s,e,17); }
float strtof(const char*s,char**e){ return (float)vsm_strtod(s,e,9); }
long double strtold(const char*s,char**e){ return vsm_strtod(s,e,17); }
double atof(const char*s){ return strtod(s,0); }
static long vsm_strtol(const char*s,char**end,int base){ const char*p=s; while(isspace(*p)) p++; bool neg=false; if(*p=='-'){neg=true;p++;} else if(*p=='+') p++; unsigned long v=0; int n=0; bool of=false; if(base==0) base=10; while(vsm_dig(*p)&&(*p-'0')<base){ if(v>922337203685477579ul) of=true; v=v*base+(*p-'0'); p++; n++; } if(end)*end=(char*)(n?p:s); if(of){ vsm_errno=ERANGE; return neg?LONG_MIN:LONG_MAX; } return neg?-(long)v:(long)v; }
long vsm_strtol_(const char*,char**,int) __asm__("strtol"); long vsm_strtol_(const char*s,char**e,int b){ return (long)vsm_strtol(s,e,b); }
long vsm___isoc23_strtol_(const char*,char**,int) __asm__("__isoc23_strtol"); long vsm___isoc23_strtol_(const char*s,char**e,int b){ return (long)vsm_strtol(s,e,b); }
long long vsm_strtoll_(const char*,char**,int) __asm__("strtoll"); long long vsm_strtoll_(const char*s,char**e,int b){ return (long long)vsm_strtol(s,e,b); }
long long vsm___isoc23_strtoll_(const char*,char**,int) __asm__("__isoc23_strtoll"); long long vsm___isoc23_strtoll_(const char*s,char**e,int b){ return (long long)vsm_strtol(s,e,b); }
unsigned long vsm_strtoul_(const char*,char**,int) __asm__("strtoul"); unsigned long vsm_strtoul_(const char*s,char**e,int b){ return (unsigned long)vsm_strtol(s,e,b); }
unsigned long vsm___isoc23_strtoul_(const char*,char**,int) __asm__("__isoc23_strtoul"); unsigned long vsm___isoc23_strtoul_(const char*s,char**e,int b){ return (unsigned long)vsm_strtol(s,e,b); }
unsigned long long vsm_strtoull_(const char*,char**,int) __asm__("strtoull"); unsigned long long vsm_strtoull_(const char*s,char**e,int b){ return (unsigned long long)vsm_strtol(s,e,b); }
unsigned long long vsm___isoc23_strtoull_(const char*,char**,int) __asm__("__isoc23_strtoull"); unsigned long long vsm___isoc23_strtoull_(const char*s,char**e,int b){ return (unsigned long long)vsm_strtol(s,e,b); }
int atoi(const char*s){ return (int)vsm_strtol(s,0,10); }
char* getenv(const char*){ return 0; }
}

// ------------------------------------------------------------------ virtual files
namespace vsm {
struct File { char name[48]; char* data; long size, cap; bool exists; };
struct Handle { int file; long pos; bool used, rd, wr, app; };
static File files[10]; static Handle handles[16];
static int faultWhat; static long faultAfter; static int faultHits; static long faultCount;
static File out; static bool outFail;
static bool eqn(const char*a,const char*b){ return strcmp(a,b)==0; }
static File* vfind(const char*n,bool create){ for(int i=0;i<10;i++) if(files[i].name[0]&&eqn(files[i].name,n)){ if(create||files[i].exists) return &files[i]; return 0; } if(!create) return 0; for(int i=0;i<10;i++) if(!files[i].name[0]){ int k=0; for(;n[k]&&k<47;k++) files[i].name[k]=n[k]; files[i].name[k]=0; return &files[i]; } vs_fail("engine","too many files"); return 0; }
static void reserve(File*f,long n){ if(n<=f->cap) return; long c=f->cap?f->cap*2:256; while(c<n) c*=2; char*d=(char*)vs_model_alloc(c); if(f->data){ memcpy(d,f->data,f->size); vs_model_free(f->data); } f->data=d; f->cap=c; }
static void append(File*f,const char*s,long n){ reserve(f,f->size+n); memcpy(f->data+f->size,s,n); f->size+=n; }
static void writeAt(File*f,long pos,const char*s,long n){ reserve(f,pos+n); if(pos>f->size) memset(f->data+f->size,0,pos-f->size); memcpy(f->data+pos,s,n); if(pos+n>f->size) f->size=pos+n; }
}
using namespace vsm;
extern "C" {
const char* vs_path(const char*n){ return n; }
void vs_file_put(const char*n,const char*d,long len){ File*f=vfind(n,true); f->exists=true; f->size=0; append(f,d,len); }
long vs_file_len(const char*n){ File*f=vfind(n,false); return f?f->size:-1; }
int vs_file_get(const char*n,long i){ File*f=vfind(n,false); return f?(unsigned char)f->data[i]:-1; }
void vs_file_set(const char*n,long i,int c){ File*f=vfind(n,false); if(f) f->data[i]=(char)c; }
void vs_file_resize(const char*n,long k){ File*f=vfind(n,false); if(f&&k<=f->size) f->size=k; }
void vs_fault(int w,long a){ faultWhat=w; faultAfter=a; faultHits=0; faultCount=0; }
int vs_fault_hits(){ return faultHits; }
long vs_out_len(){ return vsm::out.size; }
int vs_out_get(long i){ return (unsigned char)vsm::out.data[i]; }
void vs_stdout_fail(){ outFail=true; }
static int clockMode; static long clockNow;
void vs_clock_mode(int m){ clockMode=m; }
static const char* script[64]; static int nScript, posScript;
void vs_script(const char*l){ script[nScript++]=l; }
char* readline(const char*){ if(posScript>=nScript) return 0; const char*l=script[posScript++]; return l?strdup(l):0; }   // a null line is an end of input
void add_history(const char*){}
}
namespace std {
namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { if(clockMode==1){ { int c=vs_choice("clock",3); clockNow+= c==0?0:c==1?10:-25; } } else if(clockMode==2) clockNow+=10; return time_point(duration_cast<duration>(seconds(1000000+clockNow))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(seconds(1000000+clockNow))); } } }

__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {}
bool __basic_file<char>::is_open() const throw() { return _M_cfile!=0; }
static Handle* hnd(FILE*f){ return &handles[(long)f-1]; }
__basic_file<char>* __basic_file<char>::open(const char*name,ios_base::openmode m,int){
  if(_M_cfile) return 0; bool in=m&ios_base::in, out=m&ios_base::out, trunc=m&ios_base::trunc, app=m&ios_base::app;
  if(trunc&&app) return 0; if(!in&&!out&&!app) return 0; if(trunc&&!out) return 0;
  if(faultWhat==3){ if(faultCount++==faultAfter){ faultHits++; return 0; } }
  bool create= (out&&!in)||trunc||app; if(!name[0]) return 0; bool dir=true; for(const char*p=name;*p;p++) dir=*p=='/'; { const char*p=name; while(*p) p++; if(p[-1]=='/') return 0; }
  { const char*p=name; const char*slash=0; while(*p){ if(*p=='/') slash=p; p++; } if(slash) return 0; }
  File*f=vfind(name,create); if(!f) return 0; if(!f->exists){ f->exists=true; f->size=0; }
  if(out&&!app&&(!in||trunc)) f->size=0;
  for(int i=0;i<16;i++) if(!handles[i].used){ handles[i].used=true; handles[i].file=f-files; handles[i].pos= (m&ios_base::ate)||app?f->size:0; handles[i].rd=in; handles[i].wr=out||app; handles[i].app=app; _M_cfile=(FILE*)(long)(i+1); _M_cfile_created=true; return this; }
  vs_fail("resource","too many open files: streams are not being closed"); return 0; }
__basic_file<char>* __basic_file<char>::close(){ if(!_M_cfile) return 0; hnd(_M_cfile)->used=false; _M_cfile=0; return this; }
__basic_file<char>::~__basic_file(){ close(); }
streamsize __basic_file<char>::xsgetn(char*s,streamsize n){ Handle*h=hnd(_M_cfile); File*f=&files[h->file]; long k=f->size-h->pos; if(k<0) k=0; if(k>n) k=n;
  if(faultWhat==1){ if(faultCount>=faultAfter){ faultHits++; vsm_errno=EIO; return -1; } if(k>faultAfter-faultCount) k=faultAfter-faultCount; faultCount+=k; }
  memcpy(s,f->data+h->pos,k); h->pos+=k; return k; }
streamsize __basic_file<char>::xsputn(const char*s,streamsize n){ Handle*h=hnd(_M_cfile); File*f=&files[h->file]; long k=n; if(!h->wr) return 0;
  if(faultWhat==2){ if(k>faultAfter-faultCount){ k=faultAfter-faultCount; faultHits++; vsm_errno=ENOSPC; } faultCount+=k; }
  if(h->app) h->pos=f->size; writeAt(f,h->pos,s,k); h->pos+=k; return k; }
streamsize __basic_file<char>::xsputn_2(const char*a,streamsize n,const char*b,streamsize m){ streamsize k=n?xsputn(a,n):0; if(k==n) k+=xsputn(b,m); return k; }
streamoff __basic_file<char>::seekoff(streamoff o,ios_base::seekdir w) throw(){ Handle*h=hnd(_M_cfile); File*f=&files[h->file]; long p= w==ios_base::beg?o: w==ios_base::cur?h->pos+o:f->size+o; if(p<0) return -1; h->pos=p; return p; }
int __basic_file<char>::sync(){ return 0; }
streamsize __basic_file<char>::showmanyc(){ Handle*h=hnd(_M_cfile); return files[h->file].size-h->pos; }
int __basic_file<char>::fd() throw(){ return 3; }

// ------------------------------------------------------------------ locale and facets (the "C" locale)
locale::locale() throw() : _M_impl(0) {}
locale::locale(const locale&) throw() : _M_impl(0) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale&) throw() { return *this; }
static char vsm_loc[sizeof(locale)];
const locale& locale::classic(){ return *(locale*)vsm_loc; }
bool locale::operator==(const locale&) const throw() { return true; }
size_t locale::id::_M_id() const throw() { return 0; }
locale::facet::~facet(){}
locale::id ctype<char>::id; locale::id codecvt<char,char,mbstate_t>::id;
ctype<char>::~ctype(){}
ctype<char>::ctype(const mask*t,bool,size_t r) : facet(r), _M_table(t) { _M_widen_ok=1; _M_narrow_ok=1; for(int i=0;i<256;i++){ _M_widen[i]=i; _M_narrow[i]=i; } }
char ctype<char>::do_toupper(char c) const { return (char)toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char*a,const char*b) const { while(a<b){ *a=do_toupper(*a); a++; } return b; }
char ctype<char>::do_tolower(char c) const { return (char)tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char*a,const char*b) const { while(a<b){ *a=do_tolower(*a); a++; } return b; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}
codecvt<char,char,mbstate_t>::codecvt(size_t r):__codecvt_abstract_base<char,char,mbstate_t>(r){}
codecvt<char,char,mbstate_t>::~codecvt(){}
codecvt_base::result codecvt<char,char,mbstate_t>::do_out(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; }
codecvt_base::result codecvt<char,char,mbstate_t>::do_unshift(state_type&,char*t,char*,char*&tn) const { tn=t; return noconv; }
codecvt_base::result codecvt<char,char,mbstate_t>::do_in(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; }
int codecvt<char,char,mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char,char,mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char,char,mbstate_t>::do_length(state_type&,const char*a,const char*b,size_t m) const { size_t n=b-a; return n<m?n:m; }
int codecvt<char,char,mbstate_t>::do_max_length() const throw() { return 1; }
static ctype<char>* vsm_ct; static codecvt<char,char,mbstate_t>* vsm_cv;
template<> const ctype<char>* __try_use_facet<ctype<char> >(const locale&) throw() { return vsm_ct; }
template<> const codecvt<char,char,mbstate_t>* __try_use_facet<codecvt<char,char,mbstate_t> >(const locale&) throw() { return vsm_cv; }
template<> const num_get<char>* __try_use_facet<num_get<char> >(const locale&) throw() { return 0; }
template<> const num_put<char>* __try_use_facet<num_put<char> >(const locale&) throw() { return 0; }

// ------------------------------------------------------------------ ios
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base(){}
void ios_base::_M_init() throw() { _M_precision=6; _M_width=0; _M_flags=skipws|dec; _M_ios_locale=locale(); }
ios_base::Init::Init(){} ios_base::Init::~Init(){}
void ios_base_library_init(){}
locale ios_base::imbue(const locale&l) throw() { return l; }
void ios_base::_M_call_callbacks(event) throw() {}
bool ios_base::sync_with_stdio(bool){ return true; }
template<> void basic_ios<char>::_M_cache_locale(const locale&){ _M_ctype=vsm_ct; _M_num_put=0; _M_num_get=0; }
template<> char basic_ios<char>::widen(char c) const { return c; }
template<> char basic_ios<char>::narrow(char c,char) const { return c; }
template<> char basic_ios<char>::fill() const { return _M_fill_init?_M_fill:' '; }
bool uncaught_exception() throw() { return false; }

// ------------------------------------------------------------------ numeric output
static ostream& putPadded(ostream&o,const char*b,int n){ return __ostream_insert(o,b,n); }
static int utoa(unsigned long v,char*b){ char t[24]; int n=0; do { t[n++]='0'+v%10; v/=10; } while(v); for(int i=0;i<n;i++) b[i]=t[n-1-i]; return n; }
static ostream& putLong(ostream&o,long v){ char b[32]; int n=0; unsigned long u; if(v<0){ b[n++]='-'; u=-(unsigned long)v; } else { if(o.flags()&ios_base::showpos) b[n++]='+'; u=v; } n+=utoa(u,b+n); return putPadded(o,b,n); }
static ostream& putReal(ostream&o,double v,bool){ char b[400]; ios_base::fmtflags f=o.flags()&ios_base::floatfield; int prec=o.precision(); if(f==0&&prec==0) prec=1; int n=vs_fmt_real(v,prec, f==ios_base::fixed?1:f==ios_base::scientific?2:0, b); return putPadded(o,b,n); }
template<> template<> ostream& ostream::_M_insert<long>(long v){ return putLong(*this,v); }
template<> template<> ostream& ostream::_M_insert<long long>(long long v){ return putLong(*this,v); }
template<> template<> ostream& ostream::_M_insert<unsigned long>(unsigned long v){ char b[32]; int n=utoa(v,b); return putPadded(*this,b,n); }
template<> template<> ostream& ostream::_M_insert<unsigned long long>(unsigned long long v){ char b[32]; int n=utoa(v,b); return putPadded(*this,b,n); }
template<> template<> ostream& ostream::_M_insert<bool>(bool v){ if(flags()&ios_base::boolalpha) return putPadded(*this,v?"true":"false",v?4:5); return putLong(*this,v); }
template<> template<> ostream& ostream::_M_insert<double>(double v){ return putReal(*this,v,false); }
template<> template<> ostream& ostream::_M_insert<long double>(long double v){ return putReal(*this,(double)v,false); }
template<> template<> ostream& ostream::_M_insert<const void*>(const void*){ return putPadded(*this,"0x0",3); }

// ------------------------------------------------------------------ numeric input
typedef char_traits<char> CT;
static bool isEof(int c){ return c==-1; }
// the characters num_get<char> accepts for a number in the "C" locale; returns the count
static int scan(istream&in,char*b,int cap,bool flt,bool&hitEof){
  streambuf*sb=in.rdbuf(); int n=0; int c=sb->sgetc(); bool digits=false,dot=false,exp=false; hitEof=false;
  if(!isEof(c)&&(c=='+'||c=='-')){ b[n++]=c; c=sb->snextc(); }
  while(true){
    if(isEof(c)){ hitEof=true; break; }
    if(n>=cap-1) break;
    if(c>='0'&&c<='9'){ b[n++]=c; digits=true; }
    else if(flt&&c==1&&!digits&&!dot){ // number token
      while(!isEof(c)&&c!=2&&n<cap-2){ b[n++]=c; c=sb->snextc(); } if(isEof(c)){ hitEof=true; break; } b[n++]=c; c=sb->snextc(); if(isEof(c)) hitEof=true; break; }
    else if(flt&&c=='.'&&!dot&&!exp){ b[n++]=c; dot=true; }
    else if(flt&&(c=='e'||c=='E')&&digits&&!exp){ b[n++]=c; exp=true; c=sb->snextc(); if(isEof(c)){ hitEof=true; break; } if(c=='+'||c=='-'){ b[n++]=c; } else continue; }
    else break;
    c=sb->snextc(); }
  b[n]=0; return n; }
static long getLong(istream&in,long lo,long hi,ios_base::iostate&st){
  char b[64]; bool e; int n=scan(in,b,64,false,e); if(e) st|=ios_base::eofbit; int i=0; bool neg=false; if(i<n&&(b[i]=='+'||b[i]=='-')){ neg=b[i]=='-'; i++; }
  if(i>=n){ st|=ios_base::failbit; return 0; }
  long v=0; bool of=false; for(;i<n;i++){ v=v*10+(b[i]-'0'); if(v>0x3fffffffffffL) { of=true; v=0x3fffffffffffL; } } if(neg) v=-v;
  if(v>hi||(of&&!neg)){ st|=ios_base::failbit; return hi; } if(v<lo||of){ st|=ios_base::failbit; return lo; } return v; }
template<class V> static istream& readInt(istream&in,V&v,long lo,long hi){ istream::sentry ok(in,false); if(ok){ ios_base::iostate st=ios_base::goodbit; try { v=(V)getLong(in,lo,hi,st); } catch(...) { in._M_setstate(ios_base::badbit); } if(st) in.setstate(st); } return in; }
template<class V> static istream& readReal(istream&in,V&v,int digits){ istream::sentry ok(in,false); if(ok){ ios_base::iostate st=ios_base::goodbit; try { char b[160]; bool e; int n=scan(in,b,160,true,e); if(e) st|=ios_base::eofbit; char*end; vsm_errno=0; double d= n?vsm_strtod(b,&end,digits):0; if(!n||end!=b+n){ v=0; st|=ios_base::failbit; } else { v=(V)d; if(__builtin_isinf(v)){ v= v>0?numeric_limits<V>::max():-numeric_limits<V>::max(); st|=ios_base::failbit; } } } catch(...) { in._M_setstate(ios_base::badbit); } if(st) in.setstate(st); } return in; }
template<> istream& istream::operator>>(int&v){ return readInt(*this,v,INT_MIN,INT_MAX); }
template<> istream& istream::operator>>(short&v){ return readInt(*this,v,-32768,32767); }
template<> template<> istream& istream::_M_extract<long>(long&v){ return readInt(*this,v,-0x3ffffffffffeL,0x3ffffffffffeL); }
template<> template<> istream& istream::_M_extract<long long>(long long&v){ return readInt(*this,v,-0x3ffffffffffeL,0x3ffffffffffeL); }
template<> template<> istream& istream::_M_extract<unsigned long>(unsigned long&v){ return readInt(*this,v,-0x3ffffffffffeL,0x3ffffffffffeL); }
template<> template<> istream& istream::_M_extract<unsigned long long>(unsigned long long&v){ return readInt(*this,v,-0x3ffffffffffeL,0x3ffffffffffeL); }
template<> template<> istream& istream::_M_extract<unsigned int>(unsigned int&v){ return readInt(*this,v,-4294967295L,4294967295L); }
template<> template<> istream& istream::_M_extract<unsigned short>(unsigned short&v){ return readInt(*this,v,-65535L,65535L); }
template<> template<> istream& istream::_M_extract<bool>(bool&v){ int x=0; readInt(*this,x,0,1); v=x; return *this; }
template<> template<> istream& istream::_M_extract<double>(double&v){ return readReal(*this,v,17); }
template<> template<> istream& istream::_M_extract<float>(float&v){ return readReal(*this,v,9); }
template<> template<> istream& istream::_M_extract<long double>(long double&v){ double d=0; readReal(*this,d,17); v=d; return *this; }
template<> istream& getline(istream&in,string&str,char delim){
  ios_base::iostate err=ios_base::goodbit; size_t n=0; istream::sentry ok(in,true);
  if(ok){ try { str.erase(); streambuf*sb=in.rdbuf(); int c=sb->sgetc(); while(!isEof(c)&&(char)c!=delim){ str.push_back((char)c); n++; c=sb->snextc(); } if(isEof(c)) err|=ios_base::eofbit; else { sb->sbumpc(); n++; } } catch(...) { in._M_setstate(ios_base::badbit); } }
  if(!n) err|=ios_base::failbit; if(err) in.setstate(err); return in; }
template<> istream& operator>>(istream&in,string&str){
  ios_base::iostate err=ios_base::goodbit; size_t n=0; istream::sentry ok(in,false);
  if(ok){ try { str.erase(); long w=in.width(); streambuf*sb=in.rdbuf(); int c=sb->sgetc(); while(!isEof(c)&&!isspace(c)&&(w<=0||(long)n<w)){ str.push_back((char)c); n++; c=sb->snextc(); } if(isEof(c)) err|=ios_base::eofbit; in.width(0); } catch(...) { in._M_setstate(ios_base::badbit); } }
  if(!n) err|=ios_base::failbit; if(err) in.setstate(err); return in; }
template<> istream& istream::ignore(streamsize k){ return ignore(k,-1); }
template<> istream& istream::ignore(streamsize k,int_type d){ _M_gcount=0; sentry ok(*this,true); if(ok){ ios_base::iostate err=ios_base::goodbit; try { streambuf*sb=rdbuf(); int c=sb->sgetc(); while(_M_gcount<k&&!isEof(c)&&c!=d){ _M_gcount++; c=sb->snextc(); } if(_M_gcount<k||k==numeric_limits<streamsize>::max()){ if(isEof(c)) err|=ios_base::eofbit; else if(c==d){ _M_gcount++; sb->sbumpc(); } } } catch(...) { _M_setstate(ios_base::badbit); } if(err) setstate(err); } return *this; }

// ------------------------------------------------------------------ standard streams
struct OutBuf : streambuf { int_type overflow(int_type c) override { if(c==-1) return 0; if(outFail) return -1; char x=(char)c; append(&vsm::out,&x,1); return c; } streamsize xsputn(const char*s,streamsize n) override { if(outFail) return 0; append(&vsm::out,s,n); return n; } };
struct NullBuf : streambuf { int_type overflow(int_type c) override { return c==-1?0:c; } streamsize xsputn(const char*,streamsize n) override { return n; } };
}
alignas(16) char vsm_cout[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char vsm_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char vsm_clog[sizeof(std::ostream)] __asm__("_ZSt4clog");
alignas(16) char vsm_cin[sizeof(std::istream)] __asm__("_ZSt3cin");
alignas(16) static char mCt[sizeof(std::ctype<char>)], mCv[sizeof(std::codecvt<char,char,mbstate_t>)], mOb[sizeof(std::OutBuf)], mNb[sizeof(std::NullBuf)];
static std::ctype_base::mask mTab[256];
FILE* stdin_ __asm__("stdin"); FILE* stdout_ __asm__("stdout"); FILE* stderr_ __asm__("stderr");
__attribute__((constructor(101))) static void vsm_init(){
  for(int i=0;i<256;i++){ int m=0; if(i<128){ if(isspace(i)) m|=std::ctype_base::space; if(isprint(i)) m|=std::ctype_base::print; if(isupper(i)) m|=std::ctype_base::upper; if(islower(i)) m|=std::ctype_base::lower; if(isalpha(i)) m|=std::ctype_base::alpha; if(isdigit(i)) m|=std::ctype_base::digit|std::ctype_base::xdigit; if((i>='a'&&i<='f')||(i>='A'&&i<='F')) m|=std::ctype_base::xdigit; if(ispunct(i)) m|=std::ctype_base::punct; if(i<32||i==127) m|=std::ctype_base::cntrl; } mTab[i]=m; }
  std::vsm_ct=new(mCt) std::ctype<char>(mTab,false,1); struct CV: std::codecvt<char,char,mbstate_t>{ CV():std::codecvt<char,char,mbstate_t>(1){} ~CV(){} }; std::vsm_cv=new(mCv) CV();
  std::streambuf*ob=new(mOb) std::OutBuf(), *nb=new(mNb) std::NullBuf();
  new(vsm_cout) std::ostream(ob); new(vsm_cerr) std::ostream(nb); new(vsm_clog) std::ostream(nb); new(vsm_cin) std::istream(nb);
}

// ------------------------------------------------------------------ exceptions
namespace std {
exception::~exception() throw() {} const char* exception::what() const throw() { return "std::exception"; }
bad_alloc::~bad_alloc() throw() {} const char* bad_alloc::what() const throw() { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() throw() {} const char* bad_array_new_length::what() const throw() { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() throw() {} const char* bad_cast::what() const throw() { return "std::bad_cast"; }
bad_typeid::~bad_typeid() throw() {} const char* bad_typeid::what() const throw() { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() throw() {} const char* bad_function_call::what() const throw() { return "bad_function_call"; }
__cow_string::__cow_string():_M_p(0){}
__cow_string::__cow_string(const char*s,size_t n){ char*p=(char*)vs_model_alloc(n+1); memcpy(p,s,n); p[n]=0; _M_p=p; }
__cow_string::__cow_string(const string&s):__cow_string(s.data(),s.size()){}
__cow_string::__cow_string(const __cow_string&o) throw():_M_p(o._M_p){}
__cow_string& __cow_string::operator=(const __cow_string&o) throw(){ _M_p=o._M_p; return *this; }
__cow_string::~__cow_string(){}
__cow_string::__cow_string(__cow_string&&o) noexcept:_M_p(o._M_p){}
__cow_string& __cow_string::operator=(__cow_string&&o) noexcept{ _M_p=o._M_p; return *this; }
#define EXC(C) C::C(const char*s):_M_msg(s,strlen(s)){} C::C(const string&s):_M_msg(s){} C::C(const C&o) throw():exception(o),_M_msg(o._M_msg){} C::C(C&&o) noexcept:exception(o),_M_msg(o._M_msg){} C& C::operator=(const C&o) throw(){ _M_msg=o._M_msg; return *this; } C& C::operator=(C&&o) noexcept{ _M_msg=o._M_msg; return *this; } C::~C() throw() {} const char* C::what() const throw() { return _M_msg._M_p; }
EXC(logic_error) EXC(runtime_error)
#define EXD(C,B) C::C(const char*s):B(s){} C::C(const string&s):B(s){} C::~C() throw() {}
EXD(domain_error,logic_error) EXD(invalid_argument,logic_error) EXD(length_error,logic_error) EXD(out_of_range,logic_error) EXD(range_error,runtime_error) EXD(overflow_error,runtime_error) EXD(underflow_error,runtime_error)
void __throw_bad_alloc(){ throw bad_alloc(); }
void __throw_bad_array_new_length(){ throw bad_array_new_length(); }
void __throw_bad_cast(){ throw bad_cast(); }
void __throw_bad_typeid(){ throw bad_typeid(); }
void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_logic_error(const char*s){ throw logic_error(s); }
void __throw_domain_error(const char*s){ throw domain_error(s); }
void __throw_invalid_argument(const char*s){ throw invalid_argument(s); }
void __throw_length_error(const char*s){ throw length_error(s); }
void __throw_out_of_range(const char*s){ throw out_of_range(s); }
void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); }
void __throw_runtime_error(const char*s){ throw runtime_error(s); }
void __throw_range_error(const char*s){ throw range_error(s); }
void __throw_overflow_error(const char*s){ throw overflow_error(s); }
void __throw_ios_failure(const char*s){ throw runtime_error(s); }
void __throw_ios_failure(const char*s,int){ throw runtime_error(s); }
type_info::~type_info(){}

// ------------------------------------------------------------------ red-black tree (std::map, std::set)
typedef _Rb_tree_node_base N;
static N* inc(N*x){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; } else { N*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; } return x; }
static N* dec(N*x){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) x=x->_M_right; else if(x->_M_left){ N*y=x->_M_left; while(y->_M_right) y=y->_M_right; x=y; } else { N*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } x=y; } return x; }
N* _Rb_tree_increment(N*x) throw() { return inc(x); } const N* _Rb_tree_increment(const N*x) throw() { return inc((N*)x); }
N* _Rb_tree_decrement(N*x) throw() { return dec(x); } const N* _Rb_tree_decrement(const N*x) throw() { return dec((N*)x); }
static void rotl(N*x,N*&root){ N*y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotr(N*x,N*&root){ N*y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,N*x,N*p,N&h) throw() {
  N*&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ N*g=x->_M_parent->_M_parent;
    if(x->_M_parent==g->_M_left){ N*y=g->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotl(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotr(g,root); } }
    else { N*y=g->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; g->_M_color=_S_red; x=g; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotr(x,root); } x->_M_parent->_M_color=_S_black; g->_M_color=_S_red; rotl(g,root); } } }
  root->_M_color=_S_black; }
N* _Rb_tree_rebalance_for_erase(N*const z,N&h) throw() {
  N*&root=h._M_parent; N*&lm=h._M_left; N*&rm=h._M_right; N*y=z; N*x=0; N*xp=0;
  if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; _Rb_tree_color c=y->_M_color; y->_M_color=z->_M_color; z->_M_color=c; y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x;
    if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { N*m=x; while(m->_M_left) m=m->_M_left; lm=m; } } if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { N*m=x; while(m->_M_right) m=m->_M_right; rm=m; } } }
  if(y->_M_color!=_S_red){
    while(x!=root&&(!x||x->_M_color==_S_black))
      if(x==xp->_M_left){ N*w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotl(xp,root); w=xp->_M_right; }
        if((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(!w->_M_right||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotl(xp,root); break; } }
      else { N*w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotr(xp,root); w=xp->_M_left; }
        if((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; }
        else { if(!w->_M_left||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotr(xp,root); break; } }
    if(x) x->_M_color=_S_black; }
  return y; }
// lists and hash tables
namespace __detail {
void _List_node_base::_M_hook(_List_node_base*p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
void _List_node_base::_M_transfer(_List_node_base*f,_List_node_base*l) noexcept { if(this!=l){ l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
static const unsigned long primes[]={2,5,11,23,47,97,197,397,797,1597,3203,6421,12853};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for(unsigned long p:primes) if(p>=n){ _M_next_resize=p; return p; } return n; }
pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t b,size_t e,size_t i) const { if(e+i>_M_next_resize||_M_next_resize==0){ size_t m=e+i; if(m>b) return {true,_M_next_bkt(m*2>11?m*2:11)}; _M_next_resize=b; } return {false,0}; }
}
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ const unsigned char*c=(const unsigned char*)p; size_t h=seed^1469598103934665603ul; for(;n;n--,c++) h=(h^*c)*1099511628211ul; return h; }
}
extern "C" void vsm_throw_bad_alloc(){ throw std::bad_alloc(); }
