//@ rt rt_stream rt_file
//@ job file args=0..7 thorough=8,9
//@ job copy args=0..4,100..104
//@ job concat args=0..6,100..103
//@ job same args=0..5,100..103
//@ job pod args=1..10
//@ job podshort args=1..10
//@ job array args=0..3
//@ job container args=0..4
//@ job count args=0..4
//@ job offset args=0..5
//@ job binary args=0..4
//@ job bloom args=0..3
//@ job truncated args=0..6
//@ job corrupt args=0 need=ok,bad
//@ job squeezed args=0..2 need=full
//@ job grid args=0..5 thorough=6
//@ job reload args=0..4
//@ job far args=0..4
//@ bound files of up to 7 (thorough 9) symbolic bytes; files around one and two 16 KiB blocks with symbolic bytes at the block boundaries; every offset and length within and past the file; 1 to 10 values; bloom filters of 16 and 64 bits with every truncation and every value of a byte of the table size field, before and after compression; grids of up to 5 symbolic characters
//@ bound 300 values, files of up to 301 bytes and grids of up to 75 rows with a few arbitrary bytes
//@ assume files live in an in-memory file system whose reads and writes never fail (engine/rt_file.cpp); the replays use real files
#include "common.h"
#include "files.h"
namespace io=strtk::fileio;
static const size_t BLK=16*1024;
static std::string load(int k){ std::string s; CHECK(io::load_file(F(k),s)); return s; }
// a text of n bytes, symbolic in the first, the last and the bytes around the block boundaries
static std::string big(size_t n){ std::string s(n,'a'); for(size_t i=0;i<n;i+=97) s[i]=(char)('b'+i%23); size_t p[]={0,n-1,BLK-1,BLK,BLK+1,2*BLK-1,2*BLK}; for(int i=0;i<7;++i) if (p[i]<n) s[p[i]]=(char)sym_u8(); return s; }
static size_t sz(int k){ size_t n[]={BLK-1,BLK,BLK+1,2*BLK,2*BLK+1}; return n[k]; }
static bool eq(const std::string& a,const std::string& b){ if (a.size()!=b.size()) return false; return memcmp(a.data(),b.data(),a.size())==0; }
JOB(file){ scratch x; std::string s=txt(arg),r; CHECKM(!io::file_exists(F(0))&&io::file_size(F(0))==0,"not there"); std::string z="##"; CHECK(!io::load_file(F(0),z)); CHECKM(io::write_file(F(0),s),"written"); CHECKM(io::file_exists(F(0))&&io::file_size(F(0))==(size_t)arg,"there with its size"); CHECKM(io::load_file(F(0),r)&&r==s,"the same bytes are loaded"); char* b=new char[arg+1]; b[arg]='#'; CHECK(io::load_file(F(0),b,(size_t)arg)); CHECKM(std::string(b,b+arg)==s&&b[arg]=='#',"no byte past the buffer"); if (arg) { CHECK(io::load_file(F(0),b,(size_t)arg-1)); CHECK(std::string(b,b+arg)==s); } std::string t=txt(arg/2); CHECK(io::write_file(F(0),(char*)t.data(),t.size())); CHECKM(load(0)==t,"replaced, not overlaid"); CHECK(!io::load_file(F(1),b,(size_t)arg)); CHECK(!io::write_file("nodir/f",s)); delete[] b; }
JOB(copy){ scratch x; std::string s=arg<100?txt(arg):big(sz(arg-100)); put(0,s); if (sym_choose(2)) put(1,"longer than that"); CHECKM(io::copy_file(F(0),F(1)),"copied"); CHECKM(eq(load(1),s),"the copy has the same bytes"); CHECKM(eq(load(0),s),"the original is unchanged"); CHECK(!io::copy_file(F(2),F(3))); }
JOB(concat){ scratch x; std::string s=arg<100?txt(arg/2):big(sz(arg-100)),t=arg<100?txt(arg-arg/2):(arg%2?big(sz(arg-99)):txt(1)); put(0,s); put(1,t); CHECKM(io::concatenate(F(0),F(1),F(2)),"concatenated"); CHECKM(eq(load(2),s+t),"the bytes of both in order"); CHECK(!io::concatenate(F(0),F(3),F(4))); CHECK(!io::concatenate(F(3),F(0),F(4))); }
JOB(same){ scratch x; std::string s,t; if (arg<100) { s=txt(arg); t=txt(sym_choose(arg+2)); } else { s=big(sz(arg-100)); t=s; size_t n=s.size(),p[]={0,n-1,BLK-1,BLK,BLK+1,n/2}; size_t k=p[sym_choose(6)]; if (k<n) t[k]=(char)sym_u8(); } put(0,s); put(1,t); CHECKM(io::files_identical(F(0),F(1))==eq(s,t),"identical exactly if all bytes are"); CHECK(io::files_identical(F(0),F(0))); CHECK(!io::files_identical(F(0),F(2))&&!io::files_identical(F(2),F(0))); if (eq(s,t)) sym_reach("same"); }
struct P { char c; short s; int i; unsigned u; long long l; unsigned char b; unsigned short w; long q; signed char d; int e; };
#define A1(p) p.c
#define A2(p) A1(p),p.s
#define A3(p) A2(p),p.i
#define A4(p) A3(p),p.u
#define A5(p) A4(p),p.l
#define A6(p) A5(p),p.b
#define A7(p) A6(p),p.w
#define A8(p) A7(p),p.q
#define A9(p) A8(p),p.d
#define A10(p) A9(p),p.e
static bool rd(std::ifstream& i,int n,P& p){ switch(n){
#define R(n) case n: return io::read_pod(i,A##n(p));
 R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8) R(9) R(10) } return false; }
static bool wr(std::ofstream& o,int n,const P& p){ switch(n){
#define W(n) case n: return io::write_pod(o,A##n(p));
 W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) } return false; }
static std::string bytes(int n,const P& p){ std::string s; const void* a[]={&p.c,&p.s,&p.i,&p.u,&p.l,&p.b,&p.w,&p.q,&p.d,&p.e}; size_t z[]={1,2,4,4,8,1,2,8,1,4}; for(int i=0;i<n;++i) s.append((const char*)a[i],z[i]); return s; }
JOB(pod){ scratch x; P p,q; memset(&p,0,sizeof p); memset(&q,0x5A,sizeof q); std::string r=txt(35); memcpy(&p.c,&r[0],1); memcpy(&p.s,&r[1],2); memcpy(&p.i,&r[3],4); memcpy(&p.u,&r[7],4); memcpy(&p.l,&r[11],8); memcpy(&p.b,&r[19],1); memcpy(&p.w,&r[20],2); memcpy(&p.q,&r[22],8); memcpy(&p.d,&r[30],1); memcpy(&p.e,&r[31],4); { std::ofstream o(F(0).c_str(),std::ios::binary); CHECKM(wr(o,arg,p),"written"); o.put('!'); } std::string e=bytes(arg,p)+"!"; CHECKM(load(0)==e,"the bytes of the values in order"); std::ifstream i(F(0).c_str(),std::ios::binary); CHECKM(rd(i,arg,q),"read"); CHECKM(bytes(arg,q)==bytes(arg,p),"the same values"); CHECKM(i.get()=='!',"and nothing else is consumed"); for(size_t k=bytes(arg,p).size();k<bytes(10,p).size();++k) CHECK(bytes(10,q)[k]==0x5A); }
JOB(podshort){ scratch x; P p; memset(&p,0,sizeof p); std::string s=bytes(arg,p); s.resize(sym_choose(s.size())); put(0,s); std::ifstream i(F(0).c_str(),std::ios::binary); CHECKM(!rd(i,arg,p),"a file that is too short is reported"); }
JOB(array){ scratch x; int a[3],b[3]; unsigned char c[5],d[5]; sym_bytes(a,sizeof a); sym_bytes(c,5); const short k[2]={(short)sym_u8(),-2}; short l[2]; { std::ofstream o(F(0).c_str(),std::ios::binary); CHECKM(io::write_pod(o,a)&&io::write_pod(o,c)&&io::write_pod(o,k),"written"); } std::string e((char*)a,sizeof a); e.append((char*)c,5); e.append((char*)k,4); CHECKM(load(0)==e,"the bytes of the arrays"); if (arg) put(0,e.substr(0,arg==1?3:arg==2?14:20)); std::ifstream i(F(0).c_str(),std::ios::binary); bool x1=io::read_pod(i,b); CHECKM(x1==(arg!=1),"succeeds exactly if the file holds the whole array"); if (!x1) return; CHECK(b[0]==a[0]&&b[1]==a[1]&&b[2]==a[2]); bool x2=io::read_pod(i,d); CHECK(x2==(arg!=2)); if (!x2) return; CHECK(memcmp(c,d,5)==0); CHECK(io::read_pod(i,l)==(arg==0)); if (arg==0) CHECK(l[0]==k[0]&&l[1]==-2); }
template <typename C> static void cont(){ scratch x; C c,d; int n=sym_choose(4); for(int i=0;i<n;++i) c.insert(c.end(),sym<short>()); n=c.size(); { std::ofstream o(F(0).c_str(),std::ios::binary); CHECKM(io::write_pod(o,c),"written"); } std::string e; for(typename C::iterator i=c.begin();i!=c.end();++i){ short v=*i; e.append((char*)&v,2); } CHECKM(load(0)==e,"the elements in order"); std::ifstream i(F(0).c_str(),std::ios::binary); const std::size_t k=n; CHECKM(io::read_pod(i,k,d)&&d==c,"the same elements are read"); CHECKM(!io::read_pod(i,(std::size_t)1,d)&&d==c,"no more"); }
JOB(container){ switch(arg){ case 0: cont<std::vector<short> >(); break; case 1: cont<std::deque<short> >(); break; case 2: cont<std::list<short> >(); break; case 3: cont<std::set<short> >(); break; default: cont<std::multiset<short> >(); } }
template <typename C> static void cnt(){ scratch x; std::string s=txt(6); s[1]=1; s[3]=2; s[5]=3; put(0,s); C c; std::size_t n=sym_choose(5); std::size_t w=n; std::ifstream i(F(0).c_str(),std::ios::binary); CHECKM(io::read_pod(i,n,c)==(w<=3),"reads that many elements"); CHECK(c.size()==std::min(w,(size_t)3)); int k=0; for(typename C::iterator j=c.begin();j!=c.end();++j,++k) CHECK(*j==(short)((k+1)*256+(unsigned char)s[2*k])); CHECKM(n==w,"the count is only read"); }
JOB(count){ switch(arg){ case 0: cnt<std::vector<short> >(); break; case 1: cnt<std::deque<short> >(); break; case 2: cnt<std::list<short> >(); break; case 3: cnt<std::set<short> >(); break; default: cnt<std::multiset<short> >(); } }
JOB(offset){ scratch x; std::string s=txt(arg); put(0,s); size_t o=sym_choose(arg+3),n=sym_choose(arg+2); bool w=o+n<=(size_t)arg; char* b=new char[n+1]; b[n]='#'; if (n>0) CHECKM(io::read_at_offset(F(0),o,b,n)==w,"succeeds exactly if the file holds those bytes"); if (n>0&&w) CHECKM(std::string(b,b+n)==s.substr(o,n),"the bytes at the offset"); CHECK(b[n]=='#'); std::string t; if (n>0) { CHECK(io::read_at_offset(F(0),o,t,n)==w); if (w) CHECKM(t==s.substr(o,n),"as a string"); std::ifstream i(F(0).c_str(),std::ios::binary); CHECK(io::read_at_offset(i,o,b,n)==w); } CHECK(!io::read_at_offset(F(1),o,b,n)&&!io::read_at_offset(F(1),o,t,n)); delete[] b; }
JOB(binary){ scratch x; unsigned char b[64],c[64]; memset(b,0,64); memset(c,0x77,64); strtk::binary::writer w(b,64); int v=sym<int>(),u=0; std::string s=txt(arg),t; unsigned short h=sym<unsigned short>(),g=0; CHECK(w(v)&&w(s)&&w(h)); { std::ofstream o(F(0).c_str(),std::ios::binary); CHECKM(w(o)==w.amount_written(),"the whole buffer is written"); } CHECKM(load(0)==std::string((char*)b,w.amount_written()),"exactly the bytes written so far"); std::ifstream i(F(0).c_str(),std::ios::binary); strtk::binary::reader r(c,64); CHECKM(r(i,w.amount_written()),"loaded"); CHECKM(r(u)&&r(t)&&r(g)&&u==v&&t==s&&g==h,"what was written to the file is read from it"); CHECK(r.amount_read()==w.amount_written()); CHECK(c[w.amount_written()]==0x77); std::ifstream j(F(0).c_str(),std::ios::binary); strtk::binary::reader q(c,64); CHECKM(!q(j,(std::size_t)65),"more than the buffer is refused"); CHECKM(!q(j,w.amount_written()+1),"a stream that is too short is reported"); CHECK(!q(j)); }
namespace bl=strtk::bloom;
static bl::parameters par(unsigned k,unsigned long long bits){ bl::parameters p; p.projected_element_count=10; p.false_positive_probability=0.01; p.random_seed=0xA5A5A5A55A5A5A5AULL; p.optimal_parameters.number_of_hashes=k; p.optimal_parameters.table_size=bits; return p; }
JOB(bloom){ scratch x; bl::filter f(par(2,arg<2?16:64)),g,h(par(3,32)); std::string k=txt(2),l=txt(1); f.insert(k); CHECKM(f.write_to_file(F(0)),"written"); bl::filter& t=arg%2?h:g; CHECKM(t.read_from_file(F(0)),"read"); CHECKM(t==f&&!!t,"the same filter"); CHECKM(t.contains(k)&&t.hash_count()==2&&t.element_count()==1&&t.size()==f.size(),"with its keys"); CHECKM(t.contains(l)==f.contains(l),"and no others"); t.insert(l); CHECK(t.contains(l)&&t.contains(k)); CHECK(!g.read_from_file(F(1))); CHECK(!f.write_to_file("nodir/f")); }
JOB(truncated){ scratch x; bl::filter f(par(2,16)),g(par(1,32)); f.insert("ab",2); CHECK(f.write_to_file(F(0))); std::string s=load(0); size_t n=s.size(); size_t cut=arg*10+sym_choose(10); if (cut>=n) cut=n-1-cut%3; put(0,s.substr(0,cut)); CHECKM(!g.read_from_file(F(0)),"a truncated file is reported"); std::string k=txt(1); g.contains(k); g.insert(k); bl::filter h(g); h.contains(k); CHECK(!(h!=g)); put(0,s); CHECKM(g.read_from_file(F(0))&&g==f&&g.contains("ab",2),"and the whole one is read afterwards"); }
JOB(corrupt){ scratch x; bl::filter f(par(2,16)),g(par(1,32)); f.insert("ab",2); CHECK(f.write_to_file(F(0))); std::string s=load(0); unsigned long long t=0; memcpy(&t,&s[4],8); CHECKM(t==16,"the table size is the second field"); if (sym_choose(2)) s[4]=(char)sym_u8(); else s[4+1+sym_choose(7)]=(char)(1<<sym_choose(8)); memcpy(&t,&s[4],8); put(0,s); bool ok=g.read_from_file(F(0)); CHECKM(ok==((t>=1)&(t<=16)),"a table too small for its size is reported"); if (!ok||sym_choose(2)==0) { if (ok) t=sym_concretize(t); std::string k("k"); g.contains(k); g.insert(k); CHECK(g.contains(k)); if (ok) sym_reach("ok"); else sym_reach("bad"); } }
JOB(squeezed){ scratch x; bl::compressible_filter c(par(2,64)),d(par(1,16+8*arg)); std::string k=txt(1); c.insert(k); d.insert("q",1); const bool z=sym_choose(2); if (z) CHECK(c.compress(30.0+arg*20)); CHECK(c.write_to_file(F(0))); bl::filter g(par(1,32)); const bool a=d.read_from_file(F(0)),b=g.read_from_file(F(0)); CHECKM(a==!z&&b==!z,"read exactly when the table has its full size"); if (!z) { CHECKM(d.contains(k)&&d.size()==64&&d.hash_count()==2,"with its keys"); CHECK(d.compress(40.0)&&d.contains(k)); CHECKM(g.contains(k),"with its keys"); sym_reach("full"); } d.contains(k); d.insert(k); CHECK(d.contains(k)); g.insert(k); CHECKM(!d.read_from_file(F(1)),"no such file"); CHECK(d.contains(k)); }
JOB(grid){ scratch x; std::string s=txt(arg); for(int i=0;i<arg;++i) sym_assume((s[i]==',')|(s[i]=='\n')|(s[i]=='a')|((unsigned char)s[i]==200)); put(0,s); strtk::token_grid::options o; o.set_column_delimiters(",").set_row_delimiters("\n"); strtk::token_grid a(F(0),o),b(s,s.size(),o),c; CHECKM(!a==(arg==0),"an empty or missing file is reported"); bool ok=c.load(F(0),o); CHECK(ok==(arg>0)&&!c==(arg==0)); if (!arg) { CHECK(c.row_count()==0); return; } CHECKM(a.source_file()==F(0),"source"); CHECKM(a.row_count()==b.row_count()&&c.row_count()==b.row_count()&&a.min_column_count()==b.min_column_count()&&a.max_column_count()==b.max_column_count(),"as the grid of the same text"); for(size_t r=0;r<b.row_count();++r) { CHECK(a.row(r).size()==b.row(r).size()&&c.row(r).size()==b.row(r).size()); for(size_t k=0;k<b.row(r).size();++k) { std::string e(b.token(r,k).first,b.token(r,k).second),g(a.token(r,k).first,a.token(r,k).second),h(c.token(r,k).first,c.token(r,k).second); CHECKM(g==e&&h==e,"cell"); } } if (b.row_count()>1) sym_reach("rows"); }
JOB(reload){ scratch x; put(0,"a,b\nc,d\ne,f"); put(1,"1,2,3"); strtk::token_grid::options o; o.set_column_delimiters(",").set_row_delimiters("\n"); std::string s="x,y"; strtk::token_grid g; int step=arg; for(int k=0;k<3;++k){ int w=k==0?step:sym_choose(5); switch(w){ case 0: CHECK(g.load(F(0),o)); CHECKM(g.row_count()==3&&g.max_column_count()==2&&*g.token(2,1).first=='f',"the new contents"); break; case 1: CHECK(g.load(F(1),o)); CHECKM(g.row_count()==1&&g.max_column_count()==3&&*g.token(0,2).first=='3',"the new contents"); break; case 2: CHECK(g.load((unsigned char*)&s[0],s.size(),o)); CHECKM(g.row_count()==1&&g.token(0,0).first==(unsigned char*)&s[0],"views into the buffer"); break; case 3: CHECKM(!g.load(F(3),o),"no such file"); CHECKM(!g&&g.row_count()==0,"an empty grid after a failure"); break; default: g.clear(); CHECKM(!g&&g.row_count()==0,"cleared"); } CHECK(s=="x,y"); } }
JOB(far){ scratch x; static const int L[]={33,65,129,300}; int n=L[sym_choose(4)]; switch(arg){ case 0: { std::vector<int> c,d; for(int i=0;i<n;++i) c.push_back(i*7919); c[n-1]=sym<int>(); c[n/2]=sym<int>(); { std::ofstream o(F(0).c_str(),std::ios::binary); CHECK(io::write_pod(o,c)); } CHECK((int)io::file_size(F(0))==4*n); std::ifstream i(F(0).c_str(),std::ios::binary); const size_t k=n; CHECKM(io::read_pod(i,k,d)&&d==c,"the same elements are read"); break; }
   case 1: { std::string s=MIXED(n,"rst"); put(0,s); size_t o=sym_choose(3),m; o=o==0?1:o==1?n/2:n-2; m=sym_choose(3); m=m==0?n-o:m==1?1:n-o+1; char* b=new char[m]; bool r=io::read_at_offset(F(0),o,b,m); CHECKM(r==(o+m<=(size_t)n),"succeeds exactly if the file holds those bytes"); if (r) CHECKM(std::string(b,b+m)==s.substr(o,m),"the bytes at the offset"); delete[] b; break; }
   case 2: { std::string s=MIXED(n,"rst\0"),t=s; int k=sym_choose(3); t[k==0?0:k==1?n/2:n-1]=(char)sym_u8(); put(0,s); put(1,t); CHECKM(io::files_identical(F(0),F(1))==eq(s,t),"identical exactly if all bytes are"); put(2,s+"x"); CHECK(!io::files_identical(F(0),F(2))&&!io::files_identical(F(2),F(0))); CHECK(io::concatenate(F(0),F(1),F(3))); CHECKM(eq(load(3),s+t),"the bytes of both in order"); break; }
   case 3: { bl::filter f(par(2,1024)),g; std::string k=txt(1); f.insert(k); f.insert(MIXED(1,"a")); CHECK(f.write_to_file(F(0))); CHECKM(g.read_from_file(F(0))&&g==f&&g.contains(k),"the same filter"); std::string s=load(0); put(0,s.substr(0,s.size()-1-sym_choose(3))); CHECKM(!g.read_from_file(F(0)),"a truncated file is reported"); break; }
   default: { std::string s; for(int r=0;r<n/4;++r) s+=std::string(1+r%4,'a'+r%26)+",x"+(char)('0'+r%10)+"\n"; s[s.size()/2]=(char)sym_u8(); put(0,s); strtk::token_grid::options o; o.set_column_delimiters(",").set_row_delimiters("\n"); strtk::token_grid a(F(0),o),b(s,s.size(),o); CHECKM(a.row_count()==b.row_count(),"as the grid of the same text"); for(size_t r=0;r<b.row_count();++r){ CHECK(a.row(r).size()==b.row(r).size()); CHECKM(a.row(r).as_string()==b.row(r).as_string(),"cells"); } } } sym_reach("far"); }
