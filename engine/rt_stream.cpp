// String streams for the symbolic executor: the libstdc++ templates themselves are instantiated here; only the locale and ios_base
// pieces that live in the shared library are modelled (classic locale; character facet, decimal integer output; no real numbers).
#include <cstring>
#include <sstream>
#include <iostream>
template class std::basic_streambuf<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_stringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_ostringstream<char>;
template std::ostream& std::ostream::_M_insert(long); template std::ostream& std::ostream::_M_insert(unsigned long); template std::ostream& std::ostream::_M_insert(long long); template std::ostream& std::ostream::_M_insert(unsigned long long); template std::ostream& std::ostream::_M_insert(bool);
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);
#include <locale>
typedef std::ostreambuf_iterator<char> Out;
static Out put_u(Out o, std::ios_base& b, char fill, unsigned long v, bool neg) {
  char t[24]; int n=0; do { t[n++]=(char)('0'+v%10); v/=10; } while (v); if (neg) t[n++]='-';
  for (long k=b.width(); k>n; --k) { *o=fill; ++o; } b.width(0); while (n) { *o=t[--n]; ++o; } return o; }
static Out put_b(const void*, Out o, std::ios_base& b, char f, bool v) { return put_u(o,b,f,v,false); }
static Out put_l(const void*, Out o, std::ios_base& b, char f, long v) { return put_u(o,b,f,v<0?0ul-(unsigned long)v:(unsigned long)v,v<0); }
static Out put_ul(const void*, Out o, std::ios_base& b, char f, unsigned long v) { return put_u(o,b,f,v,false); }
static int cv_enc(const void*) { return 1; } static bool cv_no(const void*) { return true; } static int cv_max(const void*) { return 1; }
static int cv_len(const void*, std::mbstate_t&, const char* a, const char* e, size_t n) { return (size_t)(e-a)<n?(int)(e-a):(int)n; }
static const void* const vt_put[] = { 0, 0, (void*)put_b, (void*)put_l, (void*)put_ul, (void*)put_l, (void*)put_ul, 0, 0, 0 };
static const void* const vt_cvt[] = { 0, 0, 0, 0, 0, (void*)cv_enc, (void*)cv_no, (void*)cv_len, (void*)cv_max };
static const void* const vt_none[16] = { 0 };
struct Ctype { const void* const* vt; int refs; void* loc; bool del; const int* up; const int* low; const unsigned short* table; char widen_ok; char widen[256]; char narrow[256]; char narrow_ok; };
struct Facet { const void* const* vt; long pad[4]; };
#define B(i) (char)(i),(char)(i+1),(char)(i+2),(char)(i+3),(char)(i+4),(char)(i+5),(char)(i+6),(char)(i+7)
#define B4(i) B(i),B(i+8),B(i+16),B(i+24),B(i+32),B(i+40),B(i+48),B(i+56)
#define ALL { B4(0),B4(64),B4(128),B4(192) }
#define S 0x2000
static const unsigned short sp[256] = { 0,0,0,0,0,0,0,0,0,S,S,S,S,S,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,S };
static Ctype f_ctype = { vt_none, 1, 0, false, 0, 0, sp, 1, ALL, ALL, 1 };
static Facet f_put = { vt_put, {1} }, f_cvt = { vt_cvt, {1} };
static const void* all_facets[] = { 0, &f_ctype, &f_put, &f_cvt };
static struct Impl { int refs; const void** facets; size_t n; const void** caches; char** names; } no_facets = { 1, all_facets, 4, 0, 0 };
struct Ios { void* v; long precision, width; int flags, exceptions, state, pad; void* callbacks; void* word_zero[2]; void* words[16]; int word_size, pad2; void* word; Impl* loc; };
extern "C" {
  void rt_locale(Impl** l) __asm__("_ZNSt6localeC1Ev"); void rt_locale(Impl** l) { *l=&no_facets; }
  void rt_localec(Impl** l, Impl* const* o) __asm__("_ZNSt6localeC1ERKS_"); void rt_localec(Impl** l, Impl* const* o) { *l=*o; }
  void rt_localed(Impl**) __asm__("_ZNSt6localeD1Ev"); void rt_localed(Impl**) {}
  Impl** rt_localea(Impl** l, Impl* const* o) __asm__("_ZNSt6localeaSERKS_"); Impl** rt_localea(Impl** l, Impl* const* o) { *l=*o; return l; }
  size_t rt_id(const void*) __asm__("_ZNKSt6locale2id5_M_idEv"); size_t rt_id(const void* p) { return p==&std::ctype<char>::id ? 1 : p==&std::num_put<char>::id ? 2 : p==&std::codecvt<char,char,std::mbstate_t>::id ? 3 : 0; }
  void rt_ios(Ios* i) __asm__("_ZNSt8ios_baseC2Ev"); void rt_ios(Ios* i) { memset(&i->precision,0,sizeof(Ios)-8); i->word_size=8; i->word=i->words; i->loc=&no_facets; }
  void rt_iosinit(Ios* i) __asm__("_ZNSt8ios_base7_M_initEv"); void rt_iosinit(Ios* i) { i->precision=6; i->width=0; i->flags=0x1002; i->loc=&no_facets; }
  void rt_iosd(Ios*) __asm__("_ZNSt8ios_baseD2Ev"); void rt_iosd(Ios*) {}
  bool rt_unc() __asm__("_ZSt18uncaught_exceptionv"); bool rt_unc() { return false; }
}
namespace std {
  template<> istream& getline(istream& in, string& str, char delim) {   // as in libstdc++: unlimited line, delimiter removed
    size_t n=0; ios_base::iostate err=ios_base::goodbit; istream::sentry ok(in,true);
    if (ok) { str.erase(); streambuf* sb=in.rdbuf(); int c=sb->sgetc();
      while (c!=EOF && c!=(unsigned char)delim) { str+=(char)c; ++n; c=sb->snextc(); }
      if (c==EOF) err|=ios_base::eofbit; else { ++n; sb->sbumpc(); } }
    if (!n) err|=ios_base::failbit;
    if (err) in.setstate(err);
    return in; }
}
