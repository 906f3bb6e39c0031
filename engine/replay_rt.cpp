// Native implementation of the harness interface: replays recorded inputs against the real build.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <exception>
static std::vector<unsigned char> in; static size_t pos; static std::vector<unsigned long long> obs; static bool batch; static const char* cur="";
static void out(const char* what,const char* msg){ printf("REPLAY %s: %s\n",what,msg); fflush(stdout); }
#include <new>
static long live;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif
#if defined(HAVE_ASAN) || defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*,size_t), void (*)(const volatile void*));
static void hookM(const volatile void* p,size_t){ if(p) ++live; }
static void hookF(const volatile void* p){ if(p) --live; }
static int hooked=__sanitizer_install_malloc_and_free_hooks(hookM,hookF);
#else
void* operator new(size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); ++live; return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void* p) noexcept { if(p) --live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p,size_t) noexcept { operator delete(p); }
void operator delete[](void* p,size_t) noexcept { operator delete(p); }
#endif
extern "C" {
unsigned long sym_live(){ return (unsigned long)live; }
void sym_bytes(void* p,size_t n){ for(size_t i=0;i<n;++i){ ((unsigned char*)p)[i]= pos<in.size()? in[pos] : 0; ++pos; } }
void sym_assume(int c){ if(!c){ out("ASSUME-FALSE",""); _exit(3); } }
void sym_assert(int c,const char* m){ if(!c){ out("ASSERTION-FAILED",m); _exit(1); } }
int sym_choose(int n){ unsigned char c=0; sym_bytes(&c,1); if(c>=n){ out("BAD-CHOICE",""); _exit(3);} return c; }
void sym_observe(unsigned long long v){ obs.push_back(v); }
void sym_reach(const char*){}
unsigned long sym_concretize(unsigned long v){ return v; }
void sym_close(double a,long long num,int k,double tol,const char* m){ long double ex=(long double)num*powl(10.0L,k); long double d=fabsl((long double)a-ex); if(!(d<=fabsl(ex)*(long double)tol*(1+1e-6L)+ldexpl(1.0L,-1059))){ out("ASSERTION-FAILED",m); _exit(1);} }
int sym_is_engine(){ return 0; }
}
static void onAlarm(int){ write(1,"REPLAY HANG: time limit\n",24); _exit(1); }
int main(int argc,char** argv){ // job arg hex | job arg -batch < lines
  if(argc<3) return 4; void* h=dlopen(0,RTLD_NOW); void (*f)(int)=(void(*)(int))dlsym(h,argv[1]); if(!f){ out("NO-JOB",argv[1]); return 4; }
  int arg=atoi(argv[2]); signal(SIGALRM,onAlarm);
  auto one=[&](const char* hx){ in.clear(); pos=0; obs.clear(); for(const char*p=hx;p[0]&&p[1]&&p[0]!='\n';p+=2){ char b[3]={p[0],p[1],0}; in.push_back((unsigned char)strtoul(b,0,16)); } alarm(10); try{ f(arg); }catch(std::exception& e){ out("UNCAUGHT-EXCEPTION",e.what()); _exit(1);} catch(...){ out("UNCAUGHT-EXCEPTION","?"); _exit(1);} alarm(0); };
  if(argc>3&&!strcmp(argv[3],"-batch")){ std::string line; char buf[8192]; while(fgets(buf,sizeof buf,stdin)){ one(buf); printf("OBS"); for(auto v:obs) printf(" %llu",v); printf("\n"); } return 0; }
  one(argc>3?argv[3]:""); printf("REPLAY OK:"); for(auto v:obs) printf(" %llu",v); printf("\n"); return 0; }
