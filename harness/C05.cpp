//@ job p_short args=0..10
//@ job p_ushort args=0..10
//@ job p_int args=0..13 thorough=14..16
//@ job p_uint args=0..13 thorough=14..16
//@ job p_long args=0..22 thorough=23..26
//@ job p_ulong args=0..22 thorough=23..26
//@ job p_llong args=0..22 thorough=23..26
//@ job p_ullong args=0..22 thorough=23..26
//@ job iters args=0..7,10
//@ job bytes args=0..3
//@ job far args=30,40,64,100,129,257,1025
//@ bound every byte string of length 0..10 (16-bit), 0..13 (32-bit), 0..22 (64-bit; thorough up to 26) as candidate text; forward and random-access character iterators; entry points taking ranges and strings
//@ bound texts of 30..1025 characters, mostly zeros, with up to four arbitrary ones
#include "ref_int.h"
template <typename T> static void one(int n)
{
   char* p=new char[n]; sym_bytes(p,n); const T init=(T)sym<T>(); T v=init;
   bool ok=strtk::string_to_type_converter((const char*)p,(const char*)p+n,v);
   T r=0; bool good=ref_int<T>(p,n,r);
   CHECKM(ok==good,"accepted exactly the decimal representations in range");
   if (ok) { CHECKM(v==r,"converted value"); sym_reach("accept"); } else { CHECKM(v==init,"destination untouched on rejection"); sym_reach("reject"); }
   sym_observe(ok); sym_observe((unsigned long long)v);
   delete[] p;
}
JOB(p_short){ one<short>(arg); } JOB(p_ushort){ one<unsigned short>(arg); } JOB(p_int){ one<int>(arg); } JOB(p_uint){ one<unsigned int>(arg); }
JOB(p_long){ one<long>(arg); } JOB(p_ulong){ one<unsigned long>(arg); } JOB(p_llong){ one<long long>(arg); } JOB(p_ullong){ one<unsigned long long>(arg); }
template <typename T> static void variants(int n)
{
   std::string s; for(int i=0;i<n;++i) s.push_back((char)sym_u8()); T r=0; bool good=ref_int<T>(s.data(),n,r);
   T a=1; bool ok=strtk::string_to_type_converter(s,a); CHECK(ok==good); if (ok) CHECK(a==r);
   T b=1; ok=strtk::string_to_type_converter(s.begin(),s.end(),b); CHECK(ok==good); if (ok) CHECK(b==r);
   const unsigned char* u=(const unsigned char*)s.data(); T c=1; ok=strtk::string_to_type_converter(u,u+n,c); CHECK(ok==good); if (ok) CHECK(c==r);
   std::deque<char> dq(s.begin(),s.end()); T d=1; ok=strtk::string_to_type_converter(dq.begin(),dq.end(),d); CHECK(ok==good); if (ok) CHECK(d==r);
   if (good) CHECK(strtk::string_to_type_converter<T>(s)==r); else { bool thrown=false; try { strtk::string_to_type_converter<T>(s); } catch(const std::invalid_argument&) { thrown=true; } CHECKM(thrown,"the returning form throws on invalid text"); }
   sym_observe(good);
}
JOB(iters){ if (sym_choose(2)) variants<int>(arg); else variants<unsigned short>(arg); }
JOB(bytes) // single-character and boolean tokens: exactly one character
{
   std::string s; for(int i=0;i<arg;++i) s.push_back((char)sym_u8());
   char c='?'; bool ok=strtk::string_to_type_converter(s,c); CHECK(ok==(arg==1)); if (ok) CHECK(c==s[0]);
   unsigned char u='?'; ok=strtk::string_to_type_converter(s,u); CHECK(ok==(arg==1)); if (ok) CHECK(u==(unsigned char)s[0]);
   signed char g='?'; ok=strtk::string_to_type_converter(s,g); CHECK(ok==(arg==1)); if (ok) CHECK(g==(signed char)s[0]);
   bool b=false; ok=strtk::string_to_type_converter(s,b); CHECK(ok==(arg==1)); if (ok) CHECK(b==(s[0]!='0'));
   std::string t; CHECK(strtk::string_to_type_converter(s,t)); CHECK(t==s); sym_observe(b);
}
// long texts: many leading zeros before arbitrary characters, an arbitrary character among the zeros, too many digits
template <typename T> static void farone(int n)
{
   std::string s(n,'0'); int k=sym_choose(3); if (k==2) { s.assign(n,'7'); s[n-1]=(char)sym_u8(); } else { int m=k?3:1; for(int i=0;i<m;++i) s[n-1-i]=(char)sym_u8(); s[k?0:n/2]=(char)sym_u8(); } T r=0; bool good=ref_int<T>(s.data(),n,r); T v=7; bool ok=strtk::string_to_type_converter(s,v); CHECKM(ok==good,"accepted exactly the decimal representations in range"); if (ok) CHECKM(v==r,"converted value"); else CHECKM(v==7,"destination untouched on rejection"); sym_observe(ok);
   v=7; ok=strtk::string_to_type_converter(s.data(),s.data()+n,v); CHECK(ok==good); if (ok) CHECK(v==r);
}
JOB(far){ switch(sym_choose(8)){ case 0: farone<short>(arg); break; case 1: farone<unsigned short>(arg); break; case 2: farone<int>(arg); break; case 3: farone<unsigned>(arg); break; case 4: farone<long>(arg); break; case 5: farone<unsigned long>(arg); break; case 6: farone<long long>(arg); break; default: farone<unsigned long long>(arg); } }
