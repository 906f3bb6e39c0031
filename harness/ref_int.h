#pragma once
#include "common.h"
#include <limits>
// reference: optional sign (minus only for signed types), one or more decimal digits, value within the type's range
template <typename T> struct U; template<> struct U<short>{typedef unsigned short t;}; template<> struct U<int>{typedef unsigned t;}; template<> struct U<long>{typedef unsigned long t;}; template<> struct U<long long>{typedef unsigned long long t;};
template<> struct U<unsigned short>{typedef unsigned short t;}; template<> struct U<unsigned>{typedef unsigned t;}; template<> struct U<unsigned long>{typedef unsigned long t;}; template<> struct U<unsigned long long>{typedef unsigned long long t;};
static int limit_digits(unsigned long long m,char* o){ char t[24]; int n=0; while(m){ t[n++]='0'+m%10; m/=10; } for(int i=0;i<n;++i) o[i]=t[n-1-i]; return n; }
template <typename T> static bool ref_int(const char* p,int n,T& v)
{
   const bool is_signed=std::numeric_limits<T>::is_signed; bool neg=false; int i=0;
   if (n==0) return false;
   if (p[0]=='+') i=1; else if (is_signed && p[0]=='-') { i=1; neg=true; }
   if (i==n) return false;
   while (i<n && p[i]=='0') ++i;
   char lim[24]; unsigned long long m=(unsigned long long)std::numeric_limits<T>::max(); if (neg) m+=1; int ln=limit_digits(m,lim);
   int len=n-i; if (len>ln) return false;
   for (int k=i;k<n;++k) if ((unsigned char)(p[k]-'0')>9) return false;
   if (len==ln) for (int k=0;k<ln;++k) { if (p[i+k]<lim[k]) break; if (p[i+k]>lim[k]) return false; }
   typename U<T>::t a=0; for (int k=i;k<n;++k) a=(typename U<T>::t)(a*10u+(unsigned)(p[k]-'0'));
   v= neg ? (T)(0u-a) : (T)a; return true;
}
