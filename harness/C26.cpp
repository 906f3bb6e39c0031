//@ job weave args=0..8
//@ job tables args=0..2
//@ job combine args=0..8
//@ job count args=0..9
//@ job bits args=1..6
//@ job distance args=0..8
//@ job far args=15,16,17,32,33,64,65,129,257
//@ bound byte ranges of up to 9 bytes with every content; every bit index of up to 6 bytes; every 8, 16, 32 and 64-bit value
//@ bound ranges of 15..257 bytes with three arbitrary ones
#include "common.h"
#include <cstring>
static std::string key(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
static int bit(const std::string& s,int i){ return ((unsigned char)s[i/8]>>(i%8))&1; }
JOB(weave){ int n=arg; std::string a=key(n),b=key(n),o(n&1?0:40,'o'); CHECKM(strtk::twoway_bitwise_interleave(a,b,o),"equal lengths"); CHECKM((int)o.size()==2*n,"length"); for(int i=0;i<n;++i) for(int j=0;j<8;++j){ CHECKM(bit(o,16*i+2*j)==bit(a,8*i+j),"even bits from the first"); CHECKM(bit(o,16*i+2*j+1)==bit(b,8*i+j),"odd bits from the second"); } char* p=new char[2*n]; CHECK(strtk::twoway_bitwise_interleave(a.data(),a.data()+n,b.data(),b.data()+n,p)); CHECK(std::string(p,2*n)==o); delete[] p; std::string c=key(n+1),u="u"; CHECKM(!strtk::twoway_bitwise_interleave(a,c,u)&&u=="u","different lengths are refused"); }
template <size_t N> static void table(){ typename strtk::interleave_ary<N>::type t[256]; strtk::create_nway_interleave_table<N>(t); size_t i=sym_u8(); unsigned long long x=t[i],e=0; for(int j=0;j<8;++j) e|=(unsigned long long)((i>>j)&1)<<(j*N); CHECKM(x==(typename strtk::interleave_ary<N>::type)e,"bits spread n apart"); }
JOB(tables){ if (arg==0) table<2>(); else if (arg==1) table<4>(); else table<8>(); }
JOB(combine){ std::string a=key(arg),b=key(arg),o(arg&1?0:40,'o'); int op=sym_choose(3); strtk::bitwise_operation::type t=(strtk::bitwise_operation::type)op; strtk::bitwise_transform(t,a,b,o); CHECKM((int)o.size()==arg,"length"); int ok=1; for(int i=0;i<arg;++i){ unsigned char x=a[i],y=b[i]; ok&=((unsigned char)o[i]==(unsigned char)(op==0?(x&y):op==1?(x|y):(x^y))); } CHECKM(ok,"bitwise combination"); char* p=new char[arg]; strtk::bitwise_transform(t,a.data(),a.data()+arg,b.data(),p); CHECK(std::string(p,arg)==o); delete[] p; std::string c=key(arg+1),u="u"; strtk::bitwise_transform(t,a,c,u); CHECKM(u=="u","different lengths change nothing"); strtk::bitwise_transform(t,a,b,a); CHECKM(a==o,"in place"); }
struct P { size_t t[256]; P(){ for(int i=0;i<256;++i){ t[i]=0; for(int j=0;j<8;++j) t[i]+=(i>>j)&1; } } };
static size_t pop(const P& p,const unsigned char* b,int n){ size_t c=0; for(int i=0;i<n;++i) c+=p.t[b[i]]; return c; }
JOB(count){ P q; std::string s=key(arg); size_t c=pop(q,(const unsigned char*)s.data(),arg); CHECKM(strtk::high_bit_count(s)==c,"number of set bits"); CHECK(strtk::high_bit_count(s.data(),s.data()+arg)==c); unsigned char a=sym_u8(); CHECKM(strtk::high_bit_count(a)==q.t[a],"byte"); unsigned char v[8]; sym_bytes(v,8); unsigned short h; memcpy(&h,v,2); CHECKM(strtk::high_bit_count(h)==pop(q,v,2),"16 bits"); unsigned d; memcpy(&d,v,4); CHECKM(strtk::high_bit_count(d)==pop(q,v,4),"32 bits"); long long e; memcpy(&e,v,8); CHECKM(strtk::high_bit_count(e)==pop(q,v,8),"64 bits"); }
JOB(bits){ std::string s=key(arg),o=s; size_t i=sym_choose(8*arg); unsigned char* p=(unsigned char*)&s[0]; CHECKM(strtk::bit_state(i,p)==(bit(s,i)!=0),"state of a bit"); int op=sym_choose(2); if (op) strtk::set_bit_high(i,p); else strtk::set_bit_low(i,p); for(int j=0;j<8*arg;++j) CHECKM(bit(s,j)==(j==(int)i?op:bit(o,j)),"exactly that bit is set"); CHECK(strtk::bit_state(i,p)==(op!=0)); }
JOB(distance){ std::string a=key(arg),b=key(arg),c=key(arg+1); P q; int d=0,e=0; for(int i=0;i<arg;++i) d+=q.t[(unsigned char)(a[i]^b[i])]; for(int i=0;i<arg;++i) e+=(a[i]!=b[i]); CHECKM((int)strtk::hamming_distance(a,b)==d,"number of differing bits"); CHECK((int)strtk::hamming_distance(a.data(),a.data()+arg,b.data(),b.data()+arg)==d); CHECKM((int)strtk::hamming_distance_elementwise(a,b)==e,"number of differing characters"); CHECKM(strtk::hamming_distance(a,c)==~(size_t)0&&strtk::hamming_distance_elementwise(c,b)==~(size_t)0,"different lengths"); std::vector<int> v(2),w(2); for(int i=0;i<2;++i){ v[i]=sym<int>(); w[i]=sym<int>(); } CHECK((int)strtk::hamming_distance_elementwise(v.begin(),v.end(),w.begin(),w.end())==(v[0]!=w[0])+(v[1]!=w[1])); }
JOB(far){ int n=arg; P q; std::string a=MIXED(n,"a\xF0\x0Fz\x81"),b=MIXED(n,"ab\x7F\xFE"),o(n&1?0:900,'o'),w="w"; int k=sym_choose(5); if (k==0) { CHECK(strtk::twoway_bitwise_interleave(a,b,o)&&(int)o.size()==2*n); int ok=1; for(int i=0;i<n;++i) { if (i>3&&i<n-3&&i!=n/2) continue; for(int j=0;j<8;++j) ok&=(bit(o,16*i+2*j)==bit(a,8*i+j))&(bit(o,16*i+2*j+1)==bit(b,8*i+j)); } CHECKM(ok,"bits alternate"); }
   else if (k==1) { int op=sym_choose(3); strtk::bitwise_transform((strtk::bitwise_operation::type)op,a,b,o); CHECK((int)o.size()==n); int ok=1; for(int i=0;i<n;++i){ unsigned char x=a[i],y=b[i]; ok&=((unsigned char)o[i]==(unsigned char)(op==0?(x&y):op==1?(x|y):(x^y))); } CHECKM(ok,"bitwise combination"); }
   else if (k==2) CHECKM(strtk::high_bit_count(a)==pop(q,(const unsigned char*)a.data(),n),"number of set bits");
   else if (k==3) { int d=0,e=0; for(int i=0;i<n;++i) { d+=q.t[(unsigned char)(a[i]^b[i])]; e+=(a[i]!=b[i]); } CHECKM((int)strtk::hamming_distance(a,b)==d,"number of differing bits"); CHECKM((int)strtk::hamming_distance_elementwise(a,b)==e,"number of differing characters"); std::string f(3*n,'a'),g(3*n,'b'); g[n]=(char)sym_u8(); CHECKM((int)strtk::hamming_distance_elementwise(f,g)==3*n-(g[n]=='a'),"number of differing characters"); CHECKM((int)strtk::hamming_distance(std::string(n,'\xFF'),std::string(n,'\0'))==8*n,"number of differing bits"); CHECKM((int)strtk::high_bit_count(std::string(n,'\xFF'))==8*n,"number of set bits"); }
   else { std::string s=a; int t=sym_choose(4); size_t i=t==0?8*n-1:t==1?4*n+3:t==2?8*(n/2):7; unsigned char* p=(unsigned char*)&s[0]; CHECKM(strtk::bit_state(i,p)==(bit(a,i)!=0),"state of a bit"); int op=sym_choose(2); if (op) strtk::set_bit_high(i,p); else strtk::set_bit_low(i,p); int ok=1; for(int j=0;j<n;++j) ok&=(unsigned char)s[j]==(j==(int)i/8?(unsigned char)(op?((unsigned char)a[j]|(1<<(i%8))):((unsigned char)a[j]&~(1<<(i%8)))):(unsigned char)a[j]); CHECKM(ok,"exactly that bit is set"); } sym_reach("far"); }
