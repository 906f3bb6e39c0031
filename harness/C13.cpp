//@ job pod args=0..9
//@ job str args=0..9
//@ job cont args=0..10,100..110,200..210,300..310,400..410
//@ job scont args=0..13,100..113,200..208,300..313
//@ job user args=0..14
//@ job ptr args=0..10
//@ job capw args=0..9
//@ job field args=0..5
//@ job far args=20,33,64,65,129,257
//@ job nest args=0..4
//@ job huge args=0..4
//@ bound every size and distance of the width of the machine for text fields, arrays, seeking and rewinding
//@ bound every buffer of 0..14 arbitrary bytes (so every length field from 0 to 2^32-1), read as plain values, strings, short strings, arrays, all containers of plain and of variable-size elements and user structures
//@ bound buffers of up to 257 bytes with any count; any length at three places inside a list of up to 17 texts
//@ assume buffer and size arguments given by the caller describe real memory
#include "common.h"
#include <cstring>
using strtk::binary::reader; using strtk::binary::writer;
static unsigned u32(const char* p){ unsigned v; memcpy(&v,p,4); return v; }
struct rec { short k; std::string t; rec():k(0){} strtk_binary_reader_begin() strtk_binary_reader(k) strtk_binary_reader(t) strtk_binary_reader_end() };
template <typename T> static void one(char* b,int n){ reader r(b,n); T x; memset(&x,0x33,sizeof x); T y=x; bool ok=r(x); CHECKM(ok==(n>=(int)sizeof(T)),"a plain value is read exactly when it is all there"); if (ok) { CHECK(!memcmp(&x,b,sizeof x)&&r.position()==sizeof x); } else { CHECKM(!memcmp(&x,&y,sizeof x)&&r.position()==0,"nothing happens on failure"); } bool o2=r(x); CHECK(o2==(n>=2*(int)sizeof(T))); }
JOB(pod){ char* b=new char[arg]; sym_bytes(b,arg); one<char>(b,arg); one<short>(b,arg); one<unsigned>(b,arg); one<long long>(b,arg); one<double>(b,arg); unsigned short a[3]={1,2,3}; reader r(b,arg); bool ok=r(a); CHECKM(ok==(arg>=6),"array"); if (ok) CHECK(!memcmp(a,b,6)); else CHECK(a[0]==1&&a[2]==3); unsigned x=7; reader q(b,arg); CHECK(q.be_to_native(x)==(arg>=4)); CHECK(q.le_to_native(x)==(arg>=8)); delete[] b; }
JOB(str){ char* b=new char[arg]; sym_bytes(b,arg); { reader r(b,arg); std::string s("old"); bool ok=r(s); bool good=arg>=4&&u32(b)<=(unsigned)(arg-4); CHECKM(ok==good,"a string is read exactly when it is all there"); if (ok) { CHECKM(s.size()==u32(b)&&!memcmp(s.data(),b+4,s.size())&&r.position()==4+s.size(),"string content"); sym_reach("str"); } else CHECKM(s=="old","a string that is not there leaves the destination alone"); }
   { reader r(b,arg); std::string s; strtk::binary::pascal_string p(s); bool ok=r(p); bool good=arg>=1&&(unsigned char)b[0]<=arg-1; CHECKM(ok==good,"short string"); if (ok) CHECK(s.size()==(unsigned char)b[0]&&!memcmp(s.data(),b+1,s.size())); }
   delete[] b; }
JOB(field){ char* b=new char[arg]; sym_bytes(b,arg); reader r(b,arg); unsigned short h=0; size_t n=sym_choose(arg+3); int x=7; bool ok=r(x,n); if (n>(size_t)arg) { CHECK(!ok&&x==7&&r.position()==0); } else CHECK(r.position()==n); bool o2=r(h); CHECK(o2==((n>(size_t)arg?0:n)+2<=(size_t)arg)); delete[] b; }
template <typename C> static void cont(char* b,int n){ typedef typename C::value_type T; reader r(b,n); C c; bool ok=r(c); unsigned m=n>=4?u32(b):0; bool good=n>=4&&(unsigned long long)m*sizeof(T)<=(unsigned)(n-4); CHECKM(ok==good,"a container is read exactly when it is all there"); CHECKM(r.position()<=(size_t)n&&r.position_ptr()==b+r.position(),"never past the end");
   if (ok) { CHECK(r.position()==4+m*sizeof(T)); C d; for(unsigned i=0;i<m;++i){ T t; memcpy(&t,b+4+i*sizeof(T),sizeof(T)); d.insert(d.end(),t); } CHECKM(c==d,"container content"); sym_reach("cont"); } }
JOB(cont){ int n=arg%100; char* b=new char[n]; sym_bytes(b,n); switch(arg/100){ case 0: cont<std::vector<unsigned short> >(b,n); break; case 1: cont<std::deque<unsigned char> >(b,n); break; case 2: cont<std::list<unsigned> >(b,n); break; case 3: cont<std::multiset<short> >(b,n); break; case 4: cont<std::set<char> >(b,n); break; } delete[] b; }
template <typename C> static void scont(char* b,int n){ reader r(b,n); C c; bool ok=r(c); bool good=n>=4; unsigned m=0; int p=4; C d; if (good) { m=u32(b); for(unsigned i=0;i<m&&good;++i){ if (p+4>n) { good=false; break; } unsigned l=u32(b+p); p+=4; if (l>(unsigned)(n-p)) { good=false; break; } l=(unsigned)sym_concretize(l); d.insert(d.end(),std::string(b+p,l)); p+=l; } } CHECKM(ok==good,"a container of strings is read exactly when it is all there"); CHECKM(r.position()<=(size_t)n&&r.position_ptr()==b+r.position(),"never past the end"); if (ok) { CHECK(r.position()==(size_t)p); CHECKM(c==d,"strings"); sym_reach("scont"); } }
JOB(scont){ int n=arg%100; char* b=new char[n]; sym_bytes(b,n); switch(arg/100){ case 0: scont<std::vector<std::string> >(b,n); break; case 1: scont<std::list<std::string> >(b,n); break; case 2: scont<std::deque<std::string> >(b,n); break; case 3: scont<std::multiset<std::string> >(b,n); break; } delete[] b; }
JOB(user){ char* b=new char[arg]; sym_bytes(b,arg); { reader r(b,arg); rec x; bool ok=r(x); bool good=arg>=6&&u32(b+2)<=(unsigned)(arg-6); CHECKM(ok==good,"a structure is read exactly when all of it is there"); if (ok) CHECK(!memcmp(&x.k,b,2)&&x.t.size()==u32(b+2)&&!memcmp(x.t.data(),b+6,x.t.size())); } { reader r(b,arg); std::pair<short,std::string> x; bool ok=r(x); CHECK(ok==(arg>=6&&u32(b+2)<=(unsigned)(arg-6))); } { reader r(b,arg); std::vector<rec> v; bool ok=r(v); CHECKM(!ok||arg>=4,"count present"); CHECK(r.position()<=(size_t)arg); if (ok) CHECK(v.size()==u32(b)); } delete[] b; }
JOB(ptr){ char* b=new char[arg]; sym_bytes(b,arg); reader r(b,arg); unsigned short* p=0; unsigned len=5; bool ok=r(p,len); bool good=arg>=4&&2ull*u32(b)<=(unsigned)(arg-4); CHECKM(ok==good,"a counted array is read exactly when it is all there"); if (ok) { CHECK(len==u32(b)&&!memcmp(p,b+4,2*len)&&r.position()==4+2*len); delete[] p; } else CHECK(p==0); delete[] b; }
// every write into a buffer of arbitrary capacity: refused when it does not fit, never past the end
JOB(capw){ size_t cap=arg; char* b=new char[cap]; { writer w(b,cap); CHECK(w(sym<short>())==(cap>=2)); CHECK(w(sym<unsigned>())==(cap>=6)); CHECK(w((char)1)==(cap>=7||(cap>=1&&cap<2)||(cap>=3&&cap<6))); CHECK(w.position()<=cap); }
   { writer w(b,cap); std::vector<std::string> v(sym_choose(3),"ab"); bool ok=w(v); CHECK(ok==(cap>=4+6*v.size())); CHECK(w.position()<=cap); } { writer w(b,cap); CHECK(w.native_to_be(sym<unsigned>())==(cap>=4)); CHECK(w.native_to_le(sym<unsigned>())==(cap>=8)); } { writer w(b,cap); std::set<int> v; v.insert(1); v.insert(2); CHECK(w(v)==(cap>=12)); CHECK(w.position()<=cap); } { writer w(b,cap); std::deque<std::pair<char,short> > v(2); CHECK(w(v)==(cap>=10)); CHECK(w.position()<=cap); } delete[] b; }
// larger buffers with an arbitrary count in front
JOB(far){ int n=arg; char* b=new char[n]; for(int i=0;i<n;++i) b[i]=(char)(i*5+1); sym_bytes(b,4); switch(sym_choose(5)){ case 0: { reader r(b,n); std::string s("old"); bool good=u32(b)<=(unsigned)(n-4),ok=r(s); CHECKM(ok==good,"a string is read exactly when it is all there"); if (ok) { size_t z=sym_concretize(s.size()); CHECK(z==u32(b)&&!memcmp(s.data(),b+4,z)); } else CHECK(s=="old"); break; } case 1: cont<std::vector<unsigned short> >(b,n); break; case 2: cont<std::deque<unsigned> >(b,n); break; case 3: cont<std::list<long long> >(b,n); break; default: { reader r(b,n); unsigned short* p=0; unsigned len=5; bool ok=r(p,len),good=2ull*u32(b)<=(unsigned)(n-4); CHECKM(ok==good,"a counted array is read exactly when it is all there"); if (ok) { unsigned z=(unsigned)sym_concretize(len); CHECK(z==u32(b)&&!memcmp(p,b+4,2*z)); delete[] p; } else CHECK(p==0); } } sym_reach("far"); delete[] b; }
// an arbitrary length inside a container of texts or structures
JOB(nest){ char b[200]; memset(b,0,200); int n=200,m=5+arg*3; unsigned u=m; memcpy(b,&u,4); int p=4; int at=sym_choose(3); at=at==0?0:at==1?m/2:m-1; std::vector<std::string> e; int pos=0; for(int i=0;i<m;++i){ unsigned l=i%4; memcpy(b+p,&l,4); if (i==at) { sym_bytes(b+p,4); pos=p; } p+=4; for(unsigned k=0;k<l;++k) b[p+k]=(char)('a'+i); e.push_back(std::string(b+p,l)); p+=l; } n=p; char* x=new char[n]; memcpy(x,b,n); unsigned l=u32(x+pos); reader r(x,n); std::vector<std::string> v; bool ok=r(v); CHECKM(r.position()<=(size_t)n&&r.position_ptr()==x+r.position(),"never past the end"); if (l==(unsigned)(at%4)) { CHECKM(ok&&v==e,"strings"); sym_reach("same"); } if (l>(unsigned)(n-pos-4)) CHECKM(!ok,"a text that is not there"); if (ok) CHECK((int)v.size()==m); delete[] x; }

// sizes and distances of any magnitude, from any position
JOB(huge){ const size_t cap=8,k=arg; char* b=new char[cap]; sym_bytes(b,cap); char keep[8]; memcpy(keep,b,8); const size_t n=sym<size_t>(); { reader r(b,cap); CHECK(r.seek((int)k)==true); int x=-7; unsigned short h=0; switch(sym_choose(4)){ case 0: sym_assume(n>cap-k); CHECKM(!r(x,n),"a field that does not fit is refused"); CHECK(x==-7&&r.position()==k); break; case 1: { const bool ok=r.rewind(n); CHECKM(ok==(n<=k),"rewinding stays inside"); CHECKM(r.position()==(ok?k-n:k),"or changes nothing"); break; } case 2: { const int d=(int)n; const bool ok=r.seek(d); const long long t=(long long)k+d; CHECKM(ok==((t>=0)&(t<=(long long)cap)),"seeking stays inside"); CHECKM(r.position()==(ok?(size_t)t:k),"or changes nothing"); break; } default: { unsigned* q=&((unsigned*)0)[0]; unsigned l=(unsigned)n; sym_assume((unsigned long long)l*4>cap-k); CHECKM(!r(q,l,false),"an array that does not fit is refused"); CHECK(r.position()==k); } } (void)h; }
   { writer w(b,cap); for(size_t i=0;i<k;++i) CHECK(w(keep[i])); if (sym_choose(2)) { sym_assume(n>cap-k); CHECKM(!w(5,n,sym_choose(2)?writer::left_padding:writer::right_padding,'0'),"a field that does not fit is refused"); } else { unsigned l=(unsigned)n; sym_assume((unsigned long long)l*4>cap-k); const unsigned* q=0; CHECKM(!w(q,l,false),"an array that does not fit is refused"); } CHECK(w.position()==k); }
   CHECKM(!memcmp(keep,b,8),"and nothing is written"); delete[] b; }
