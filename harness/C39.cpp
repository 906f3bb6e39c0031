//@ rt rt_stream rt_file
//@ job delims args=0,1,2,31,32,33,40,64
//@ job grid args=0..3 t=300
//@ job trie args=0..4
//@ job bloom args=0..2 t=300
//@ job bloomfile args=0..4
//@ job choose args=0..3
//@ job reader args=0..4
//@ job clear args=1,2,17
//@ job far args=0..7
//@ bound delimiter sets of 0..64 entries; three operations of six kinds on a grid, four on two filters; tries of up to 4 words of 2 arbitrary letters; files cut at every length
//@ bound 12 grid operations, 12 filter operations and 30 trie words in a fixed mixture with a few arbitrary bytes
//@ assume blocks obtained with operator new and not yet released are counted by the executor's memory model (natively by replaced operators or sanitizer hooks); files live in an in-memory file system
#include "common.h"
#include "files.h"
#include <stdexcept>
namespace bl=strtk::bloom;
#define LIVE(f) do { unsigned long before=sym_live(); f; CHECKM(sym_live()==before,"everything that was allocated has been released"); } while(0)
template <typename T> static void delims(int n,int form){ T a[65]; for(int i=0;i<n;++i) a[i]=(T)(3*i+1); T q=sym<T>(); int in=0; for(int i=0;i<n;++i) in|=(a[i]==q); bool r=false;
   switch(form){ case 0: { strtk::multiple_delimiter_predicate<T> p(a,a+n); r=p(q); break; } case 1: { strtk::multiple_delimiter_predicate<T> p(a,(size_t)n); r=p(q); break; } case 2: { std::vector<T> v(a,a+n); strtk::multiple_delimiter_predicate<T> p(v.begin(),v.end()); v.assign(n,0); r=p(q); break; }
     default: { std::deque<T> v(a,a+n); strtk::multiple_delimiter_predicate<T>* p=new strtk::multiple_delimiter_predicate<T>(v.begin(),v.end()); r=(*p)(q); delete p; break; } }
   CHECKM(r==(in!=0),"a delimiter exactly if it is in the set"); }
JOB(delims){ int f=sym_choose(4); if (sym_choose(2)) LIVE(delims<int>(arg,f)); else LIVE(delims<char>(arg,f)); }
typedef strtk::token_grid grid_t;
static grid_t::options opt(){ grid_t::options o; o.column_delimiters=","; o.row_delimiters="\n"; o.support_dquotes=false; return o; }
static void op(grid_t& g,int k,std::string& buf){ switch(k){
   case 0: CHECK(g.load(F(0),opt())&&g.row_count()==2); break;
   case 1: CHECK(!g.load(F(1),opt())); break; // not there
   case 2: CHECK(!g.load(F(2),opt())); break; // empty
   case 3: CHECK(g.load((unsigned char*)&buf[0],buf.size(),opt())&&g.row_count()==1); break;
   case 4: g.load((unsigned char*)&buf[0],0,opt()); break;
   default: g.clear(); CHECK(!g); break; } }
static void files(char c){ std::string t("a,b\nc,d"); t[4]=c; put(0,t); put(2,""); }
static void ingrid(int start,int n,char c){ std::string buf="p,q"; switch(start){ case 0: { grid_t g; for(int i=0;i<n;++i) op(g,sym_choose(6),buf); break; }
   case 1: { grid_t g(F(0),",","\n"); CHECK(!!g); for(int i=0;i<n;++i) op(g,sym_choose(6),buf); break; } case 2: { grid_t g(F(1),",","\n"); CHECK(!g); for(int i=0;i<n;++i) op(g,sym_choose(6),buf); break; }
   default: { grid_t* g=new grid_t(F(0),opt()); for(int i=0;i<n;++i) op(*g,sym_choose(6),buf); if (!!*g&&g->row_count()) { try { (void)g->row(0).get<int>(0); } catch(std::exception&) {} } delete g; break; } } }
JOB(grid){ scratch x; char c=(char)sym_u8(); sym_assume((c!=',')&(c!='\n')); files(c); LIVE(ingrid(arg,3,c)); }
static std::string word(int n){ std::string s(n,0); for(int i=0;i<n;++i) s[i]=sym_char_of("ab",2); return s; }
static void tries(int n){ std::vector<std::string> w; for(int i=0;i<n;++i) w.push_back(word(2-i%2)); { strtk::trie::prefix<std::string::const_iterator,std::string> t; for(int i=0;i<n;++i) t.insert(w[i].begin(),w[i].end(),std::string(20+i,'v')); std::string v; for(int i=0;i<n;++i) CHECKM(t.find(w[i].begin(),w[i].end(),v)&&v.size()>=20u+i,"inserted words are found"); CHECK(!t.find_prefix(std::string("c").begin(),std::string("c").begin())); } }
JOB(trie){ LIVE(tries(arg)); }
static bl::parameters par(unsigned k,unsigned long long bits){ bl::parameters p; p.projected_element_count=10; p.false_positive_probability=0.01; p.random_seed=5; p.optimal_parameters.number_of_hashes=k; p.optimal_parameters.table_size=bits; return p; }
static void bop(bl::filter& a,bl::filter& b,int k){ switch(k){ case 0: a=b; CHECK(a==b); break; case 1: { bl::filter c(a); CHECK(c==a); b=c; break; } case 2: { bl::filter& me=a; a=me; break; } case 3: a|=b; break; case 4: { bl::filter c=a&b; bl::filter d=c^a; b=d; break; } default: if (!!a) a.clear(); break; } }
static void filters(int start,int n){ bl::filter a(par(2,32)); if (start==0) { bl::filter b(par(1,64)); for(int i=0;i<n;++i) bop(a,b,sym_choose(6)); } else if (start==1) { bl::filter b; for(int i=0;i<n;++i) bop(b,a,sym_choose(6)); }
   else { bl::compressible_filter c(par(2,256)); c.insert("k",1); for(int i=0;i<n;++i) { static const double P[]={0,30,50,120}; c.compress(P[sym_choose(4)]); CHECK(c.contains("k",1)); } bl::compressible_filter d(c); d=c; CHECK(d.contains("k",1)); } }
JOB(bloom){ LIVE(filters(arg,arg==2?3:4)); }
static void bfile(int k){ bl::filter a(par(2,16)); a.insert("key",3); CHECK(a.write_to_file(F(0))); if (k==0) { bl::filter b; CHECK(b.read_from_file(F(0))&&b==a); CHECK(b.read_from_file(F(0))&&b==a); return; } if (k==1) { bl::filter b(par(3,32)); CHECK(b.read_from_file(F(0))&&b==a); bl::filter c(b); CHECK(!c.read_from_file(F(1))); CHECK(c==a); CHECK(!a.write_to_file("nodir/f")); return; }
   std::string s=get(0); size_t cut=k==2?(size_t)sym_choose((int)s.size()/2):k==3?s.size()/2+sym_choose((int)(s.size()-s.size()/2)):s.size()-1; put(1,s.substr(0,cut)); if (cut) { bl::filter b(par(3,32)); CHECKM(!b.read_from_file(F(1)),"a truncated file is refused"); CHECKM(b.read_from_file(F(0))&&b==a,"a later complete one is read"); } }
JOB(bloomfile){ scratch x; LIVE(bfile(arg)); }
JOB(choose){ unsigned n=arg==0?50:100+arg; unsigned k=sym_choose(3); unsigned long long e=k==0?1:k==1?n:(unsigned long long)n*(n-1)/2; LIVE(CHECKM(strtk::n_choose_k(n,k)==e,"binomial coefficient")); }
static void readers(int k,char* buf,size_t n,size_t cut){ strtk::binary::reader r(buf,cut); r.reset(); int* p=0; unsigned len=0; unsigned long long len2=0; bool ok=k%2?r(p,len2):r(p,len); if (ok) { CHECKM((k%2?len2:(unsigned long long)len)==(unsigned long long)(k),"as many as were written"); for(int i=0;i<k;++i) CHECK(p[i]==i*7); delete[] p; } else CHECKM(p==0,"nothing is handed over by a failed read"); CHECK(ok==(cut>=n)); }
JOB(reader){ char buf[64]; strtk::binary::writer w(buf,sizeof buf); w.reset(true); int aa[5]={0,7,14,21,28}; const int* a=aa; CHECK(w(a,(unsigned)arg)); size_t n=w.amount_written(); size_t cut=sym_choose((int)n+2); LIVE(readers(arg,buf,n,cut)); }
template <typename S> static void cleared(S& s){ unsigned long held=sym_live(); strtk::util::clear(s); CHECK(s.empty()); CHECKM(sym_live()<held,"clearing gives the storage back"); }
template <typename S> static void seqs(int n){ S s; for(int i=0;i<n;++i) s.push_back(std::string(20,'a'+i)); cleared(s); s.push_back("again"); CHECK(s.size()==1); }
template <typename S> static void sets(int n){ S s; for(int i=0;i<n;++i) s.insert(std::string(20,'a'+i)); cleared(s); }
JOB(clear){ switch(sym_choose(4)){ case 0: LIVE(seqs<std::vector<std::string> >(arg)); break; case 1: LIVE(seqs<std::list<std::string> >(arg)); break; case 2: LIVE(sets<std::set<std::string> >(arg)); break; default: LIVE(sets<std::multiset<std::string> >(arg)); break; } }
static void fargrid(int k,char c){ std::string buf="p,q"; unsigned x=777u+k; grid_t g(F(0),opt()); for(int i=0;i<12;++i){ x=x*1103515245u+12345u; op(g,(x>>16)%6,buf); if (i==5) buf[0]=c; } }
static void farfilter(int k){ bl::filter a(par(2,256)),b(par(3,512)),e; unsigned x=99u+k; for(int i=0;i<12;++i){ x=x*1103515245u+12345u; int o=(x>>16)%6; if (i%5==4) bop(e,b,o); else if (i%3) bop(a,b,o); else bop(b,a,o); } }
static void fartrie(){ strtk::trie::prefix<std::string::const_iterator,int> t; for(int i=0;i<30;++i){ std::string w(1+i%9,(char)('a'+i%5)); w[w.size()-1]=(char)('a'+i%7); if (i==20) w[0]=sym_char_of("abz",3); t.insert(w.begin(),w.end(),i); int v=-1; CHECK(t.find(w.begin(),w.end(),v)&&v==i); } }
JOB(far){ scratch x; char c=(char)sym_u8(); sym_assume((c!=',')&(c!='\n')); files(c); LIVE(fargrid(arg,c)); LIVE(farfilter(arg)); if (arg==0) LIVE(fartrie()); }
