//@ job conv args=0..20
//@ job convd args=1..15
//@ job check args=0..20
//@ job tmpl args=0..19
//@ job sgn args=1..10,15,18,19 thorough=11,12,13,14,16,17
//@ job sgnbad args=1..6,12,19
//@ bound every length 0..20 (the whole domain of the unrolled routines), every value of every byte; signed form: every text of 1..20 bytes made of a sign, leading zeros and digits
//@ assume results that exceed the destination type are outside the contract (the routines state that they perform no range checks)
#include "common.h"
static bool dig(char c){ return (unsigned char)(c-'0')<=9; }
static unsigned long long ref(const char* p,int n){ unsigned long long v=0; for(int i=0;i<n;++i) v=v*10+(unsigned long long)(p[i]-'0'); return v; }
static char* digits(int n){ char* p=new char[n]; sym_bytes(p,n); for(int i=0;i<n;++i) sym_assume((p[i]>='0')&(p[i]<='9')); return p; }
template <typename T> static void conv(const char* p,int n,int maxn){ if (n>maxn) return; T v=T(77); bool ok=strtk::fast::numeric_convert(n,p,v); CHECKM(ok,"length supported"); CHECKM(v==(T)ref(p,n),"value of the digits");
   T w=T(77); ok=strtk::fast::numeric_convert(n,p,w,true); CHECKM(ok==(n<=19),"digits accepted"); if (ok) CHECKM(w==(T)ref(p,n),"value of the checked digits"); else CHECKM(w==T(77),"destination untouched"); }
JOB(conv){ char* p=digits(arg); if (arg==20) sym_assume(p[0]<='0'+0); conv<unsigned long long>(p,arg,20); conv<long long>(p,arg,18); conv<unsigned int>(p,arg,9); conv<int>(p,arg,9); conv<unsigned short>(p,arg,4); conv<short>(p,arg,4); sym_reach("conv"); delete[] p; }
JOB(convd){ char* p=digits(arg); double v=-1; CHECK(strtk::fast::numeric_convert(arg,p,v)); sym_close(v,(long long)ref(p,arg),0,0,"value of the digits"); if (arg<=6) { float f=-1; CHECK(strtk::fast::numeric_convert(arg,p,f)); sym_close((double)f,(long long)ref(p,arg),0,0,"value of the digits"); } delete[] p; }
JOB(check){ char* p=new char[arg]; sym_bytes(p,arg); bool all=true; for(int i=0;i<arg;++i) all=all&&dig(p[i]);
   CHECKM(strtk::fast::all_digits_check(arg,p)==(all&&arg<=19),"digit check agrees with the text"); CHECKM(strtk::fast::all_digits_check(std::string(p,arg))==(all&&arg<=19),"digit check on a string"); CHECKM(strtk::fast::all_digits_check(p,p+arg)==(all&&arg<=19),"digit check on a range");
   unsigned long long v=77; bool ok=strtk::fast::numeric_convert(std::string(p,arg),v,true); CHECKM(ok==(all&&arg<=19),"conversion accepts digits only"); if (!ok) CHECKM(v==77,"destination untouched"); else CHECKM(v==ref(p,arg),"value");
   if (arg>0){ bool s=p[0]=='-'||p[0]=='+'; bool rest=true; for(int i=s;i<arg;++i) rest=rest&&dig(p[i]); CHECKM(strtk::fast::signed_all_digits_check(arg,p)==(rest&&arg-s<=19),"signed digit check"); } sym_observe(ok); sym_reach("check"); delete[] p; }
template <int N> struct TM { static void go(int n){ if (n!=N) { TM<N-1>::go(n); return; } char* p=new char[N]; sym_bytes(p,N); bool all=true; for(int i=0;i<N;++i) all=all&&dig(p[i]);
   CHECKM((strtk::fast::all_digits_check<N,const char*>(p))==all,"fixed length digit check"); unsigned long long v=77; strtk::fast::numeric_convert<N,unsigned long long,const char*>(p,v,true); CHECKM(v==(all?ref(p,N):0),"fixed length checked conversion");
   if (all) { unsigned long long w=77; strtk::fast::numeric_convert<N>(std::string(p,N),w); CHECKM(w==ref(p,N),"fixed length conversion"); sym_reach("tmpl"); } delete[] p; } };
template <> struct TM<-1> { static void go(int){} };
JOB(tmpl){ TM<19>::go(arg); }
template <typename T> static void sg(const char* p,int n,int maxd){ bool s=p[0]=='-'||p[0]=='+'; if (n-s>maxd) return; T v=T(77); bool ok=strtk::fast::signed_numeric_convert(p,p+n,v,true); if (s&&n==1) { CHECKM(!ok,"lone sign rejected"); return; }
   CHECKM(ok,"signed digits accepted"); T r=(T)ref(p+s,n-s); if (p[0]=='-') r=-r; CHECKM(v==r,"signed value"); T w=T(77); CHECK(strtk::fast::signed_numeric_convert(std::string(p,n),w)); CHECKM(w==r,"signed value of a string"); }
JOB(sgn){ int sg_=sym_choose(3); int n=arg+(sg_?1:0); char* p=new char[n]; char* q=p; if (sg_) *q++=(sg_==1?'-':'+'); int z=sym_choose(4); if (z>arg) z=0; sym_bytes(q,arg); for(int i=0;i<arg;++i) sym_assume((q[i]>='0')&(q[i]<='9')); for(int i=0;i<z;++i) q[i]='0'; if (z<arg) sym_assume(q[z]!='0'); sg<long long>(p,n,18); sg<int>(p,n,9); sym_reach("sgn"); delete[] p; }
JOB(sgnbad){ char* p=new char[arg]; sym_bytes(p,arg); bool s=p[0]=='-'||p[0]=='+'; bool rest=arg>s; for(int i=s;i<arg;++i) rest=rest&&dig(p[i]); long long v=77; bool ok=strtk::fast::signed_numeric_convert(p,p+arg,v,true); CHECKM(ok==rest,"signed conversion accepts exactly sign and digits"); if (!ok) CHECKM(v==77,"destination untouched"); sym_observe(ok); delete[] p; }
