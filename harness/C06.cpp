//@ job s_short args=0
//@ job s_ushort args=0
//@ job s_int args=0..1
//@ job s_uint args=0
//@ job s_long args=0..3
//@ job s_ulong args=0,2
//@ job s_llong args=0..3
//@ job s_ullong args=0,2
//@ job s_small args=0
//@ job reuse args=0
//@ bound every value of each of the eight integer types (all 2^16, 2^32 or 2^64 of them), single bytes, booleans
#include "common.h"
#include <limits>
template <typename T> struct U; template<> struct U<short>{typedef unsigned short t;}; template<> struct U<int>{typedef unsigned t;}; template<> struct U<long>{typedef unsigned long t;}; template<> struct U<long long>{typedef unsigned long long t;};
template<> struct U<unsigned short>{typedef unsigned short t;}; template<> struct U<unsigned>{typedef unsigned t;}; template<> struct U<unsigned long>{typedef unsigned long t;}; template<> struct U<unsigned long long>{typedef unsigned long long t;};
template <typename T> static void canonical(const std::string& s, T v)
{
   typedef typename U<T>::t UT;
   size_t i=0; bool neg=v<0; CHECKM(s.size()>0,"text not empty");
   if (neg) { CHECKM(s[0]=='-',"minus sign exactly for negative values"); i=1; }
   CHECKM(i<s.size(),"at least one digit");
   if (v==0) { CHECK(s=="0"); return; }
   CHECKM(s[i]!='0',"no leading zero");
   UT a=0; for (size_t k=i;k<s.size();++k) { unsigned d=(unsigned char)(s[k]-'0'); CHECKM(d<=9,"decimal digits only"); a=(UT)(a*10u+d); }
   CHECKM(s.size()-i<=20,"digit count");
   UT m= neg ? (UT)(0u-(UT)v) : (UT)v;
   CHECKM(a==m,"text denotes the value");
}
template <typename T> static void one(int part)
{
   T v=sym<T>(); const bool big = part & 2; part &= 1; // parts: sign, and for 64-bit types the magnitude
   if (std::numeric_limits<T>::is_signed && part==1) sym_assume(v<0); else if (std::numeric_limits<T>::is_signed) sym_assume(v>=0);
   if (sizeof(T)==8) { const bool b = (v<0) ? v<=T(-1000000000000000LL) : v>=T(1000000000000000LL); sym_assume(b==big); }
   std::string s; CHECK(strtk::type_to_string(v,s));
   canonical(s,v); sym_observe(s.size());
   T w=(T)(v+1); CHECKM(strtk::string_to_type_converter(s,w),"own text is accepted"); CHECKM(w==v,"round trip"); sym_reach("rt");
}
JOB(s_short){ one<short>(sym_choose(2)); } JOB(s_ushort){ one<unsigned short>(0); } JOB(s_int){ one<int>(arg); } JOB(s_uint){ one<unsigned int>(0); }
JOB(s_long){ one<long>(arg); } JOB(s_ulong){ one<unsigned long>(arg); } JOB(s_llong){ one<long long>(arg); } JOB(s_ullong){ one<unsigned long long>(arg); }
JOB(s_small)
{
   char c=(char)sym_u8(); std::string s("zz"); CHECK(strtk::type_to_string(c,s)); CHECK(s.size()==1 && s[0]==c);
   unsigned char u=sym_u8(); CHECK(strtk::type_to_string(u,s)); CHECK(s.size()==1 && (unsigned char)s[0]==u);
   signed char g=(signed char)sym_u8(); CHECK(strtk::type_to_string(g,s)); CHECK(s.size()==1 && (signed char)s[0]==g);
   sym_observe(s.size());
}
JOB(reuse) // the text replaces whatever the destination held; the value-returning form agrees
{
   int v=(signed char)sym_u8(); if (sym_choose(2)) v*=1000003; std::string s("previous content that is longer"); CHECK(strtk::type_to_string(v,s)); canonical(s,v); CHECK(strtk::type_to_string(v)==s); sym_observe(s.size());
}
