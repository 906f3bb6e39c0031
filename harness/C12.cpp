//@ job pod args=0..13
//@ job str args=0..4
//@ job sstr args=0..3
//@ job cont args=0..13 need=cont
//@ job arr args=0..3
//@ job user args=0..2
//@ job pos args=0..4
//@ job pad args=0..11
//@ job seq args=0
//@ job reuse args=0..2
//@ job far args=0..9
//@ bound every value of every plain type; strings and containers of up to 4 elements with every content, in buffers of every capacity from 0 to two more than the encoding needs; arrays of 3 elements; a structure with plain, string, container and nested members; padded text fields of every width 0..7 for every number of up to four digits
//@ bound strings and containers of up to 1025 (short strings up to 65537) elements, a few of them arbitrary, in buffers one short, exact and one larger
#include "common.h"
#include <cstring>
using strtk::binary::reader; using strtk::binary::writer;
struct inner { short k; std::string t; inner():k(0){} strtk_binary_reader_begin() strtk_binary_reader(k) strtk_binary_reader(t) strtk_binary_reader_end() strtk_binary_writer_begin() strtk_binary_writer(k) strtk_binary_writer(t) strtk_binary_writer_end() bool operator==(const inner& o) const { return k==o.k&&t==o.t; } };
struct outer { unsigned long long a; std::string s; std::vector<int> v; inner n; std::list<inner> l; bool b; std::pair<char,std::string> p; outer():a(0),b(false){}
   strtk_binary_reader_begin() strtk_binary_reader(a) strtk_binary_reader(s) strtk_binary_reader(v) strtk_binary_reader(n) strtk_binary_reader(l) strtk_binary_reader(b) strtk_binary_reader(p) strtk_binary_reader_end()
   strtk_binary_writer_begin() strtk_binary_writer(a) strtk_binary_writer(s) strtk_binary_writer(v) strtk_binary_writer(n) strtk_binary_writer(l) strtk_binary_writer(b) strtk_binary_writer(p) strtk_binary_writer_end() };
// writes x into buffers of every capacity 0..need+2: accepted exactly when the encoding fits; what is accepted is read back from exactly the bytes written
template <typename T> static bool round_trip(const T& x,T& y,size_t need){
   size_t cap=sym_choose((int)need+3); char* b=new char[cap]; memset(b,0x5A,cap); writer w(b,cap); bool ok=w(x); CHECKM(ok==(need<=cap),"a value is written exactly when its encoding fits in the buffer");
   if (ok) { CHECKM(w.position()==need&&w.amount_written()==need&&w.position_ptr()==b+need,"amount written"); for(size_t i=need;i<cap;++i) CHECKM(b[i]==0x5A,"bytes past the encoding are left alone"); char* c=new char[need]; memcpy(c,b,need); reader r(c,need); CHECKM(r(y),"what was written can be read"); CHECKM(r.position()==need&&r.amount_read()==need&&r.position_ptr()==c+need,"amount read equals amount written"); delete[] c; }
   delete[] b; return ok; }
template <typename T> static void pod(){ T x,y; sym_bytes(&x,sizeof x); memset(&y,0,sizeof y); if (round_trip(x,y,sizeof x)) { CHECKM(!memcmp(&x,&y,sizeof x),"value read equals value written"); sym_reach("pod"); } }
JOB(pod){ switch(arg){ case 0: { bool x=sym_u8()&1,y=!x; if (round_trip(x,y,1)) { CHECK(x==y); } break; } case 1: pod<signed char>(); break; case 2: pod<char>(); break; case 3: pod<short>(); break; case 4: pod<int>(); break; case 5: pod<long>(); break; case 6: pod<long long>(); break; case 7: pod<unsigned char>(); break; case 8: pod<unsigned short>(); break; case 9: pod<unsigned int>(); break; case 10: pod<unsigned long>(); break; case 11: pod<unsigned long long>(); break; case 12: pod<float>(); break; case 13: pod<double>(); break; } }
static std::string ss(int n){ std::string s; for(int i=0;i<n;++i) s+=(char)sym_u8(); return s; }
JOB(str){ std::string x=ss(arg),y("previous content"); if (round_trip(x,y,4+arg)) { CHECKM(x==y,"string read equals string written"); sym_reach("str"); }
   std::pair<std::string,int> p(x,(int)sym<int>()),q; q.first="zz"; if (round_trip(p,q,8+arg)) CHECKM(p.first==q.first&&p.second==q.second,"pair read equals pair written"); }
template <typename S,typename N> static void shorts(const std::string& s){ size_t need=sizeof(N)+s.size(),cap=sym_choose((int)need+3); char* b=new char[cap]; memset(b,0x5A,cap); writer w(b,cap); std::string t=s; S x(t); bool ok=w(x); CHECKM(ok==(need<=cap),"a short string is written exactly when it fits");
   if (ok) { CHECK(w.position()==need); char* c=new char[need]; memcpy(c,b,need); reader r(c,need); std::string u("old"); S y; CHECKM(!y(r),"a short string without target fails"); y.set(u); CHECKM(r(y),"short string read"); CHECKM(u==s,"short string read equals short string written"); CHECK(r.position()==need); delete[] c; sym_reach("sstr"); } delete[] b; }
JOB(sstr){ std::string s=ss(arg); if (sym_choose(2)) shorts<strtk::binary::short_string,unsigned short>(s); else shorts<strtk::binary::pascal_string,unsigned char>(s);
   if (arg==0) { std::string l(256,'x'); strtk::binary::pascal_string p(l); char* b=new char[600]; writer w(b,600); CHECKM(!w(p)&&w.position()==0,"a string too long for its length field is refused"); l.resize(255); strtk::binary::pascal_string q(l); CHECKM(w(q)&&w.position()==256,"the longest short string is accepted"); std::string u; reader r(b,256); strtk::binary::pascal_string z(u); CHECK(r(z)&&u==l); strtk::binary::short_string sl(l); w.reset(); CHECK(w(sl)&&w.position()==257); delete[] b; } }
template <typename C> static void check(const C& x,size_t need){ C y; if (round_trip(x,y,need)) { CHECKM(x==y,"container read equals container written"); sym_reach("cont"); } }
JOB(cont){ int n=sym_choose(4); 
   if (arg<8) { short v[3]; sym_bytes(v,sizeof v); size_t need=4+2*n; switch(arg){ case 0: check(std::vector<short>(v,v+n),need); break; case 1: check(std::deque<short>(v,v+n),need); break; case 2: check(std::list<short>(v,v+n),need); break;
      case 3: { for(int i=0;i+1<n;++i) sym_assume(v[i]<v[i+1]); check(std::set<short>(v,v+n),need); break; } case 4: { for(int i=0;i+1<n;++i) sym_assume(v[i]<=v[i+1]); check(std::multiset<short>(v,v+n),need); break; }
      case 5: { std::vector<std::pair<short,char> > x; for(int i=0;i<n;++i) x.push_back(std::make_pair(v[i],(char)v[2-i])); check(x,4+3*n); break; } case 6: { std::vector<std::vector<short> > x; for(int i=0;i<n;++i) x.push_back(std::vector<short>(v,v+i)); check(x,4+4*n+n*(n-1)); break; } case 7: { std::vector<double> x; for(int i=0;i<n;++i) x.push_back(v[i]); check(x,4+8*n); break; } } }
   else { std::string s[3]; size_t len=0; for(int i=0;i<n;++i) { s[i]=ss((i+arg)%3); if (arg==11||arg==12) s[i]=(char)('a'+i)+s[i]; len+=s[i].size(); } size_t need=4+4*n+len; switch(arg){ case 8: check(std::vector<std::string>(s,s+n),need); break; case 9: check(std::deque<std::string>(s,s+n),need); break; case 10: check(std::list<std::string>(s,s+n),need); break; case 11: check(std::set<std::string>(s,s+n),need); break; case 12: check(std::multiset<std::string>(s,s+n),need); break;
      case 13: { std::vector<inner> x; for(int i=0;i<n;++i) { inner e; e.k=(short)sym<short>(); e.t=s[i]; x.push_back(e); } check(x,need+2*n); break; } } } }
JOB(arr){ int v[3]; sym_bytes(v,sizeof v); 
   if (arg==0) { size_t cap=sym_choose(15); char* b=new char[cap]; writer w(b,cap); bool ok=w(v); CHECKM(ok==(cap>=12),"fixed array written when it fits"); if (ok) { CHECK(w.position()==12); int u[3]={0,0,0}; reader r(b,cap); CHECK(r(u)&&!memcmp(u,v,12)&&r.position()==12); } delete[] b; }
   else if (arg==1) { size_t cap=sym_choose(19); unsigned n=sym_choose(4); char* b=new char[cap]; writer w(b,cap); const int* p=v; bool ok=w(p,n); CHECKM(ok==(cap>=4+4*n),"counted array written when it fits"); if (ok) { int* u=0; unsigned m=77; reader r(b,cap); CHECKM(r(u,m)&&m==n,"counted array read"); CHECK(!memcmp(u,v,4*n)&&r.position()==4+4*n); delete[] u; unsigned long long m64=77; r.reset(); u=0; CHECKM(r(u,m64)&&m64==n,"counted array read with a 64-bit count"); CHECK(!memcmp(u,v,4*n)); delete[] u; } delete[] b; }
   else if (arg==2) { size_t cap=sym_choose(15); unsigned n=sym_choose(4); char* b=new char[cap]; writer w(b,cap); const int* p=v; int k=sym_choose(4); bool ok=k==0?w(p,n,false):k==1?w(p,(unsigned long long)n,false):k==2?w(p,(unsigned short)n,false):w(p,(unsigned char)n,false); CHECKM(ok==(cap>=4*n),"uncounted array written when it fits"); if (ok) { CHECK(w.position()==4*n); int u[3]={0,0,0}; int* q=u; reader r(b,cap); bool g; if (sym_choose(2)) g=r(q,n,false); else { unsigned long long m=n; g=r(q,m,false); CHECKM(m==n,"count left alone"); } CHECKM(g,"uncounted array read"); CHECKM(!memcmp(u,v,4*n)&&r.position()==4*n,"elements"); } delete[] b; }
   else { int* b=new int[3]; writer w(b,3); const int* p=v; CHECKM(w(p,3u,false)&&w.position()==12,"buffer length counts elements of the buffer"); reader r(b,3); int u[3]={0,0,0}; CHECK(r(u)&&!memcmp(u,v,12)); char c; CHECK(!r(c)&&!w(c)); CHECK(!!w&&!!r); writer e(b,0); CHECK(!e); reader f((int*)0,3); CHECK(!f); reader f0(b,0); CHECK(!f0); writer f1((int*)0,3); CHECK(!f1); char one=0; writer w1(&one,1); reader r1(&one,1); CHECK(!!w1&&!!r1); w.clear(); CHECKM(w.position()==0&&b[0]==0&&b[1]==0&&b[2]==0,"clear"); delete[] b; } }
JOB(user){ outer x,y; x.a=sym<unsigned long long>(); x.s=ss(arg); for(int i=0;i<arg;++i) x.v.push_back(sym<int>()); x.n.k=sym<short>(); x.n.t=ss(2-arg); for(int i=0;i<arg;++i) { inner e; e.k=sym<short>(); e.t=ss(1); x.l.push_back(e); } x.b=sym_u8()&1; x.p.first=(char)sym_u8(); x.p.second=ss(1); size_t need=8+4+arg+4+4*arg+2+4+(2-arg)+4+arg*7+1+1+5;
   if (round_trip(x,y,need)) { CHECKM(x.a==y.a&&x.b==y.b,"plain members"); CHECKM(x.s==y.s,"string member"); CHECKM(x.v==y.v&&x.l==y.l,"container members"); CHECKM(x.n==y.n,"nested member"); CHECKM(x.p==y.p,"pair member"); sym_reach("user"); } }
JOB(pos){ char* b=new char[8]; sym_bytes(b,8); reader r(b,8); unsigned short h; if (arg==0) { int a=(int)sym_choose(12),c=(int)sym_choose(24)-12; bool o=r.seek(a); CHECKM(o==(a<=8),"seek stays inside the buffer"); size_t p=o?a:0; CHECK(r.position()==p&&r.position_ptr()==b+p); bool q=r.seek(c); long t=(long)p+c; CHECKM(q==(t>=0&&t<=8),"relative seek"); if (q) p=t; CHECK(r.position()==p); bool k=r(h); CHECKM(k==(p+2<=8),"read after seek"); if (k) CHECK(!memcmp(&h,b+p,2)); }
   else if (arg==1) { unsigned n=sym_choose(9),m=sym_choose(12); r.seek(n); bool o=r.rewind(m); CHECKM(o==(m<=n),"rewind stays inside the buffer"); CHECK(r.position()==(o?n-m:n)); }
   else if (arg==2) { CHECKM(!r.reset_to_mark(),"no mark"); unsigned n=sym_choose(4),m=sym_choose(4); r.seek(n); r.mark(); r.seek(1); r.mark(); r.seek(m); CHECK(r.reset_to_mark()&&r.position()==n+1&&r.position_ptr()==b+n+1); CHECK(r.reset_to_mark()&&r.position()==n&&r.position_ptr()==b+n); CHECK(!r.reset_to_mark()); r.reset(); CHECK(r.position()==0&&r.position_ptr()==b); r(h); CHECK(!memcmp(&h,b,2)); r.reset(true); for(int i=0;i<8;++i) CHECK(b[i]==0); }
   else if (arg==3) { writer w(b,8); CHECKM(!w.reset_to_mark(),"no mark"); unsigned short x=sym<unsigned short>(),y=sym<unsigned short>(); w(x); w.mark(); w(y); CHECK(w.position()==4); CHECK(w.reset_to_mark()&&w.position()==2&&w.position_ptr()==b+2); w(x); CHECK(!memcmp(b,&x,2)&&!memcmp(b+2,&x,2)&&w.amount_written()==4); w.reset(); CHECK(w.position()==0&&w.position_ptr()==b); w(y); CHECK(!memcmp(b,&y,2)&&!memcmp(b+2,&x,2)); w.reset(true); for(int i=0;i<8;++i) CHECK(b[i]==0); }
   else { unsigned x=sym<unsigned>(),y=0,z=0; const unsigned& cy=z; writer w(b,8); CHECK(w(x)&&w(x)&&!w((char)1)&&w.position()==8); CHECK(r(y)&&r(cy)&&!r(h)&&r.position()==8&&x==y&&x==z); r.reset(); r.clear(); } delete[] b; }
JOB(pad){ unsigned v=sym<unsigned short>(); sym_assume(v<10000); bool neg=arg>=8; int d=1+(v>=10)+(v>=100)+(v>=1000); d=(int)sym_concretize(d); sym_assume(!neg||d<3); size_t sz=neg?(arg-8)*1+1:arg; int x=neg?-(int)v:(int)v; int len=d+(neg&&v>0); len=(int)sym_concretize(len); char* b=new char[12]; memset(b,'#',12); writer w(b,12); bool left=sym_choose(2); char f=sym_choose(2)?' ':'0'; bool ok=f==' '?w(x,sz,left?writer::left_padding:writer::right_padding):w(x,sz,left?writer::left_padding:writer::right_padding,f); CHECKM(ok==(len<=(int)sz),"a text field is written exactly when it fits its width");
   if (ok) { CHECKM(w.position()==sz,"the field occupies exactly its width"); int o=left?(int)sz-len:0; bool good=true; for(int i=0;i<(int)sz;++i) if (i<o||i>=o+len) good=good&(b[i]==f); unsigned r=0; for(int i=(neg&&v>0);i<len;++i) r=r*10+(unsigned)(b[o+i]-'0'); CHECKM(r==v,"digits of the field"); if (neg&&v>0) CHECK(b[o]=='-'); CHECKM(good,"padding of the field"); for(int i=sz;i<12;++i) CHECK(b[i]=='#');
      if (len==(int)sz||(left&&f=='0'&&x>=0)) { reader q(b,12); int y=77777; CHECKM(q(y,sz)&&y==x&&q.position()==sz,"the field reads back"); sym_reach("pad"); } reader e(b,sz); int y=0; CHECKM(!e(y,sz+1),"a field beyond the end is refused"); } delete[] b; }
JOB(seq){ char* b=new char[64]; writer w(b,64); short s=sym<short>(); std::string t=ss(2); double d; sym_bytes(&d,8); std::vector<char> v(2); v[0]=sym_u8(); v[1]=sym_u8(); char c=(char)sym_u8(); int a[2]; sym_bytes(a,8); std::set<int> e; e.insert(a[0]); CHECK(w(c)&&w(s)&&w(t)&&w(d)&&w(a)&&w(v)&&w(e)); size_t n=w.position(); CHECK(n==1+2+6+8+8+6+8); char* q=new char[n]; memcpy(q,b,n); reader r(q,n); short s2; std::string t2; double d2; std::vector<char> v2; char c2; int a2[2]; std::set<int> e2; CHECK(r(c2)&&r(s2)&&r(t2)&&r(d2)&&r(a2)&&r(v2)&&r(e2)); CHECKM(c==c2&&s==s2&&t==t2&&!memcmp(&d,&d2,8)&&!memcmp(a,a2,8)&&v==v2&&e==e2,"a sequence of values reads back in order"); CHECK(r.position()==n); CHECK(!r(c2)); delete[] b; delete[] q; }
JOB(reuse){ int n=sym_choose(3); std::vector<int> x,y(arg,77); for(int i=0;i<n;++i) x.push_back(sym<int>()); std::vector<std::string> u,z(arg,"old"); for(int i=0;i<n;++i) u.push_back(ss(1)); char* b=new char[40]; writer w(b,40); CHECK(w(x)&&w(u)); reader r(b,w.position()); CHECK(r(y)&&r(z)); CHECKM(x==y&&u==z,"reading into a vector that already has content"); delete[] b; }
// sizes around the limits of the length fields and buffers, a few arbitrary elements
template <typename T> static void fit(const T& x,size_t need){ T y; static const int D[]={-1,0,1}; size_t cap=need+D[sym_choose(3)]; char* b=new char[cap]; writer w(b,cap); bool ok=w(x); CHECKM(ok==(need<=cap),"a value is written exactly when its encoding fits in the buffer"); if (ok) { CHECKM(w.position()==need,"amount written"); char* c=new char[need]; memcpy(c,b,need); reader r(c,need); CHECKM(r(y)&&r.position()==need,"what was written can be read"); CHECKM(x==y,"value read equals value written"); delete[] c; if (need>1) { c=new char[need-1]; memcpy(c,b,need-1); reader q(c,need-1); T z; CHECKM(!q(z),"a truncated value is refused"); delete[] c; } sym_reach("far"); } delete[] b; }
template <typename C> static C spread(int n){ C c; typedef typename C::value_type V; for(int i=0;i<n;++i) c.insert(c.end(),(V)(i*3+1)); return c; }
JOB(far){ static const int L[]={15,16,31,64,127,128,129,255,256,257,1023,1025}; int n=L[sym_choose(arg==5||arg==9?4:arg==4?9:12)]; switch(arg){ case 0: fit(MIXED(n,"ab\0\xFF"),4+n); break; case 1: { std::vector<int> v=spread<std::vector<int> >(n); v[n/2]=sym<int>(); v[n-1]=sym<int>(); fit(v,4+4*n); break; } case 2: { std::deque<short> v=spread<std::deque<short> >(n); v[n/2]=sym<short>(); fit(v,4+2*n); break; } case 3: { std::list<double> v; for(int i=0;i<n;++i) v.push_back(i*0.5); fit(v,4+8*n); break; } case 4: fit(spread<std::set<int> >(n),4+4*n); break;
   case 5: { std::vector<std::string> v; size_t need=4; for(int i=0;i<n;++i) { v.push_back(std::string(i%19,(char)('a'+i%26))); need+=4+i%19; } v[n-1]=MIXED((n-1)%19,"xy"); fit(v,need); break; } case 6: { std::string s=MIXED(n,"ab\0\xFF"); if (n<256) shorts<strtk::binary::pascal_string,unsigned char>(s.substr(0,3)+std::string()); char* b=new char[n+2]; writer w(b,n+2); strtk::binary::short_string x(s); CHECK(w(x)&&w.position()==(size_t)n+2); std::string u; strtk::binary::short_string y(u); reader r(b,n+2); CHECKM(r(y)&&u==s,"short string read equals short string written"); reader q(b,n+1); std::string t; strtk::binary::short_string z(t); CHECK(!q(z)); delete[] b; break; }
   case 7: { std::string s=MIXED(n,"ab\0\xFF"); char* b=new char[n+1]; writer w(b,n+1); strtk::binary::pascal_string x(s); bool ok=w(x); CHECKM(ok==(n<=255),"a string too long for its length field is refused"); if (ok) { std::string u; strtk::binary::pascal_string y(u); reader r(b,n+1); CHECKM(r(y)&&u==s,"short string read equals short string written"); } else CHECK(w.position()==0); delete[] b; break; }
   case 8: { static const int M[]={65534,65535,65536,65537,70000}; int m=M[sym_choose(5)]; std::string s(m,'x'); s[m-1]=(char)sym_u8(); s[m-5]=(char)sym_u8(); char* b=new char[m+4]; writer w(b,m+4); strtk::binary::short_string x(s); bool ok=w(x); CHECKM(ok==(m<=65535),"a string too long for its length field is refused"); if (ok) { std::string u; strtk::binary::short_string y(u); reader r(b,m+2); CHECKM(r(y)&&u==s,"short string read equals short string written"); } else CHECK(w.position()==0); w.reset(); CHECK(w(s)); reader r(b,m+4); std::string t; CHECKM(r(t)&&t==s,"string read equals string written"); delete[] b; break; }
   default: { std::vector<inner> v(n); size_t need=4; for(int i=0;i<n;++i){ v[i].k=i; v[i].t=std::string(i%17,'q'); need+=6+i%17; } v[n-1].k=sym<short>(); fit(v,need); } } }
