//@ job conv args=0..5
//@ job stream args=0..5
//@ bound every 16, 32 and 64-bit value, signed and unsigned; sequences of two conversions in one buffer
#include "common.h"
#include <cstring>
using strtk::binary::reader; using strtk::binary::writer; namespace bd=strtk::binary::details;
template <typename T> static bool rev(T a,T b){ unsigned char x[sizeof(T)],y[sizeof(T)]; memcpy(x,&a,sizeof a); memcpy(y,&b,sizeof b); bool ok=true; for(size_t i=0;i<sizeof(T);++i) ok=ok&(x[i]==y[sizeof(T)-1-i]); return ok; }
template <typename T> static void conv(){ T v=sym<T>(); CHECKM(rev<T>(bd::convert(v),v),"conversion reverses the bytes"); CHECKM(bd::convert(T(bd::convert(v)))==v,"converting twice is the identity"); CHECK(bd::is_little_endian()!=bd::is_big_endian()); T b=bd::convert_to_be(v),l=T(bd::convert_to_le(v)); unsigned char p[sizeof(T)]; memcpy(p,&b,sizeof b); unsigned long long u=0; for(size_t i=0;i<sizeof(T);++i) u=u*256+p[i]; CHECKM(T(u)==v,"big-endian form has the most significant byte first"); memcpy(p,&l,sizeof l); u=0; for(size_t i=sizeof(T);i-->0;) u=u*256+p[i]; CHECKM(T(u)==v,"little-endian form has the least significant byte first"); sym_reach("conv"); }
JOB(conv){ switch(arg){ case 0: conv<short>(); break; case 1: conv<unsigned short>(); break; case 2: conv<int>(); break; case 3: conv<unsigned int>(); break; case 4: conv<long long>(); break; case 5: conv<unsigned long long>(); break; } }
template <typename T> static void stream(){ T v=sym<T>(),w=sym<T>(); const size_t n=sizeof(T); unsigned char* b=new unsigned char[2*n]; writer o(b,2*n); CHECK(o.native_to_be(v)&&o.native_to_le(w)); CHECK(o.position()==2*n); unsigned long long u=0; for(size_t i=0;i<n;++i) u=u*256+b[i]; CHECKM(T(u)==v,"value written most significant byte first"); u=0; for(size_t i=2*n;i-->n;) u=u*256+b[i]; CHECKM(T(u)==w,"value written least significant byte first");
   reader r(b,2*n); T x=0,y=0; CHECK(r.be_to_native(x)&&r.le_to_native(y)); CHECKM(x==v&&y==w,"values read back"); CHECK(r.position()==2*n&&!r.be_to_native(x)&&!r.le_to_native(y)); CHECK(!o.native_to_be(v)&&!o.native_to_le(v)); sym_reach("stream"); delete[] b; }
JOB(stream){ switch(arg){ case 0: stream<short>(); break; case 1: stream<unsigned short>(); break; case 2: stream<int>(); break; case 3: stream<unsigned int>(); break; case 4: stream<long long>(); break; case 5: stream<unsigned long long>(); break; } }
