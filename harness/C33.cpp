//@ rt rt_stream rt_file
//@ job lines args=0..7 thorough=8,9
//@ job limited args=0..6 thorough=7
//@ job conditional args=0..6 thorough=7
//@ job value args=0..5
//@ job load args=0..6
//@ job bad args=0..3
//@ job write args=0..4
//@ job numbers args=0..2 thorough=3
//@ job fields args=1..12
//@ job short args=0..5 thorough=6
//@ job rest args=0..5
//@ job bounded args=0..5
//@ job far args=0..7
//@ job deep args=0..4
//@ job deepw args=0..4
//@ job deepc args=0..3
//@ bound texts of up to 7 (thorough 9) symbolic bytes including newlines, as string streams and as files; line limits of 0..7; every stopping line; lists of up to 4 values in every container; lines of 1 to 12 fields
//@ bound up to 300 lines in every container and lines of up to 1025 characters with one arbitrary byte
//@ assume files live in an in-memory file system whose reads and writes never fail (engine/rt_file.cpp); the replays use real files
#include "common.h"
#include "ref_int.h"
#include <queue>
#include <stack>
#include "files.h"
typedef std::vector<std::string> V;
struct Put { V* v; void operator()(const std::string& s) const { v->push_back(s); } };
struct Until { V* v; size_t stop; bool operator()(const std::string& s) const { if (v->size()==stop) return false; v->push_back(s); return true; } };
static V head(const V& v,size_t n){ return V(v.begin(),v.begin()+std::min(n,v.size())); }
JOB(lines){ scratch x; std::string s=txt(arg); V w=linesof(s),v; Put p={&v}; std::istringstream i(s); CHECKM(strtk::for_each_line(i,p)==w.size(),"number of lines"); CHECKM(v==w,"every line once, in order, without its newline"); put(0,s); V u; Put q={&u}; CHECKM(strtk::for_each_line(F(0),q)==w.size()&&u==w,"lines of a file"); CHECKM(strtk::for_each_line(F(1),q)==0&&u==w,"no such file"); if (w.size()>1) sym_reach("two"); }
JOB(limited){ scratch x; std::string s=txt(arg); V w=linesof(s),v; size_t n=sym_choose(arg+3); Put p={&v}; std::istringstream i(s); size_t c=strtk::for_each_line_n(i,n,p); CHECKM(c==std::min(n,w.size()),"at most n lines"); CHECKM(v==head(w,n),"the first lines"); CHECKM(strtk::for_each_line(i,p)==w.size()-c&&v==w,"the rest stays in the stream"); put(0,s); V u; Put q={&u}; CHECK(strtk::for_each_line_n(F(0),n,q)==c&&u==head(w,n)); CHECK(strtk::for_each_line_n(F(1),n,q)==0); }
JOB(conditional){ scratch x; std::string s=txt(arg); V w=linesof(s),v; size_t k=sym_choose(arg+2); Until p={&v,k}; std::istringstream i(s); size_t c=strtk::for_each_line_conditional(i,p); CHECKM(c==std::min(k,w.size())&&v==head(w,k),"up to the first line that is refused"); put(0,s); V u; Until q={&u,k}; CHECK(strtk::for_each_line_conditional(F(0),q)==c&&u==v); 
   size_t n=sym_choose(arg+2),m=std::min(n,k); V t; Until r={&t,k}; std::istringstream j(s); c=strtk::for_each_line_n_conditional(j,n,r); CHECKM(c==std::min(m,w.size())&&t==head(w,m),"and at most n lines"); V y; Until z={&y,k}; CHECK(strtk::for_each_line_n_conditional(F(0),n,z)==c&&y==t); CHECK(strtk::for_each_line_conditional(F(1),z)==0&&strtk::for_each_line_n_conditional(F(1),n,z)==0); }
JOB(value){ std::string s=txt(arg); V w=linesof(s); std::istringstream i(s); for(size_t k=0;k<w.size();++k){ int v=-7,e=0; bool num=ref_int<int>(w[k].data(),w[k].size(),e); CHECKM(strtk::read_line_as_value(i,v)==num,"succeeds exactly if the line is a value"); CHECKM(v==(num?e:-7),"the value of the line"); if (num) sym_reach("value"); } int v=-7; CHECKM(!strtk::read_line_as_value(i,v)&&v==-7,"no more lines"); }
static std::vector<int> items(std::queue<int> q){ std::vector<int> v; for(;!q.empty();q.pop()) v.push_back(q.front()); return v; }
static std::vector<int> items(std::stack<int> q){ std::vector<int> v; for(;!q.empty();q.pop()) v.insert(v.begin(),q.top()); return v; }
static std::vector<int> items(std::priority_queue<int> q){ std::vector<int> v; for(;!q.empty();q.pop()) v.push_back(q.top()); return v; }
template <typename C> static std::vector<int> items(const C& c){ return std::vector<int>(c.begin(),c.end()); }
template <typename C> static void load(int sorted){ scratch x; int n=sym_choose(4); std::string s; std::vector<int> w; for(int i=0;i<n;++i){ char d=(char)sym_u8(); sym_assume((d>='0')&(d<='9')); if (sorted) d=(char)sym_concretize(d); bool two=i==1&&sym_choose(2); if (two) { s+='1'; w.push_back(10+d-'0'); } else w.push_back(d-'0'); s+=d; if (i+1<n||sym_choose(2)) s+='\n'; } if (sorted) std::sort(w.begin(),w.end()); if (sorted==2) w.erase(std::unique(w.begin(),w.end()),w.end()); if (sorted==3) std::reverse(w.begin(),w.end()); C c,d,e; std::istringstream i(s); CHECKM((int)strtk::load_from_text_file(i,c)==n,"number of lines"); CHECKM(items(c)==w,"the values of the lines"); put(0,s); CHECKM((int)strtk::load_from_text_file(F(0),d)==n&&items(d)==w,"the values in the file"); CHECKM(strtk::load_from_text_file(F(1),e)==0&&e.empty(),"no such file"); }
JOB(load){ switch(arg){ case 0: load<std::vector<int> >(0); break; case 1: load<std::deque<int> >(0); break; case 2: load<std::list<int> >(0); break; case 3: load<std::set<int> >(2); break; case 4: load<std::multiset<int> >(1); break; case 5: load<std::queue<int> >(0); load<std::stack<int> >(0); break; default: load<std::priority_queue<int> >(3); } }
JOB(bad){ std::string s; for(int i=0;i<arg;++i) s+=std::string(1,(char)('1'+i))+"\n"; s+="x\n5"; std::vector<int> v; std::istringstream i(s); bool thrown=false; try { strtk::load_from_text_file(i,v); } catch(const std::invalid_argument&) { thrown=true; } CHECKM(thrown&&(int)v.size()==arg,"a line that is no value is reported, the values before it are there"); }
template <typename C> static void wr(const std::vector<std::string>& v,const std::string& d){ scratch x; C c; for(size_t i=0;i<v.size();++i) c.insert(c.end(),v[i]); std::string e; for(typename C::iterator i=c.begin();i!=c.end();++i) e+=*i+d; std::ostringstream o; size_t n=d.empty()?strtk::write_to_text_file(o,c):strtk::write_to_text_file(o,c,d); CHECKM(n==c.size(),"number of elements"); CHECKM(o.str()==e,"every element, each followed by the delimiter"); CHECK(strtk::write_to_text_file(F(0),c,d)==n&&get(0)==e); CHECKM(strtk::write_to_text_file(std::string("nodir/f"),c,d)==0,"a file that cannot be created"); if (d=="\n") { C r; CHECKM(strtk::load_from_text_file(F(0),r)==n&&r==c,"what was written is read back"); } }
JOB(write){ std::vector<std::string> v; int n=sym_choose(4); for(int i=0;i<n;++i){ std::string s=txt(1+i%2); for(size_t k=0;k<s.size();++k) sym_assume(s[k]!='\n'); v.push_back(s); } static const char* d[]={"\n","","|","--"}; std::string dl=d[sym_choose(4)]; switch(arg){ case 0: wr<std::vector<std::string> >(v,dl); break; case 1: wr<std::deque<std::string> >(v,dl); break; case 2: wr<std::list<std::string> >(v,dl); break; case 3: wr<std::set<std::string> >(v,dl); break; default: wr<std::multiset<std::string> >(v,dl); } }
JOB(numbers){ std::vector<int> v; std::string e; for(int i=0;i<arg;++i){ int k=(int)(signed char)sym_u8(); v.push_back(k); std::string t; strtk::type_to_string(k,t); e+=t; e+=','; } std::ostringstream o; CHECK((int)strtk::write_to_text_file(o,v,",")==arg); CHECKM(o.str()==e,"numbers in decimal"); }
#define T1 t[0]
#define T2 T1,t[1]
#define T3 T2,t[2]
#define T4 T3,t[3]
#define T5 T4,t[4]
#define T6 T5,t[5]
#define T7 T6,t[6]
#define T8 T7,t[7]
#define T9 T8,t[8]
#define T10 T9,t[9]
#define T11 T10,t[10]
#define T12 T11,t[11]
static bool pl(std::ifstream& i,const char* d,int n,int* t){ switch(n){
#define P(n) case n: return strtk::parse_line(i,d,T##n);
 P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12) } return false; }
JOB(fields){ scratch x; int n=arg,have=std::max(0,n-1+sym_choose(3)),odd=sym_choose(n); std::string s; int e[14]; for(int i=0;i<have;++i){ if (i) s+=(i%2)?"|":";|"; char c='0'+(i*7+3)%10; if (i==odd) { c=(char)sym_u8(); sym_assume((c!='|')&(c!=';')&(c!='\n')); } s+=c; e[i]=c-'0'; } s+="\n42"; put(0,s); std::ifstream i(F(0).c_str()); int t[13]; for(int k=0;k<13;++k) t[k]=-9; bool ok=pl(i,"|;",n,t); bool w=have>=n&&(unsigned)e[odd]<10; CHECKM(ok==w,"succeeds exactly if there is a field for every variable and each converts"); if (ok) { for(int k=0;k<n;++k) CHECKM(t[k]==e[k],"field"); sym_reach("ok"); } CHECK(t[12]==-9); int z=0; CHECKM(pl(i,"|;",1,&z)&&z==42,"exactly one line is consumed"); CHECKM(!pl(i,"|;",1,&z)&&z==42,"no more lines"); std::ifstream none(F(1).c_str()); CHECK(!pl(none,"|;",n,t)); }
JOB(short){ scratch x; std::string s=txt(arg); V l=linesof(s); put(0,s); std::ifstream i(F(0).c_str(),std::ios::binary); for(size_t k=0;k<l.size();++k){ std::string a="#",b="#",c="#",d="#"; bool ok=strtk::parse_line(i,",",a,b); bool w=!l[k].empty()&&strtk::parse(l[k],",",c,d); CHECKM(ok==w&&a==c&&b==d,"as parsing the line itself"); if (ok) sym_reach("ok"); } std::string a="#"; CHECKM(!strtk::parse_line(i,",",a)&&a=="#","no more lines"); }
template <typename C> static void rest(bool lim){ scratch x; std::string s=txt(3); for(int k=0;k<3;++k) sym_assume((s[k]==',')|((s[k]>='0')&(s[k]<='9'))); put(0,s+"\n\n7,8"); std::ifstream i(F(0).c_str()); C c,d,e,f,g,h; const size_t n=sym_choose(4); bool cd=sym_choose(2); const strtk::split_options::type o=cd?strtk::split_options::compress_delimiters:strtk::split_options::default_mode; size_t r,w; if (lim) { r=strtk::parse_line_n(i,",",n,c,o); w=strtk::parse_n(s,",",n,d,o); } else { r=strtk::parse_line(i,",",c,o); w=strtk::parse(s,",",d,o); } CHECKM(r==w&&items(c)==items(d),"as parsing the line itself"); CHECKM((lim?strtk::parse_line_n(i,",",n,e):strtk::parse_line(i,",",e))==0&&e.empty(),"an empty line has no fields"); r=lim?strtk::parse_line_n(i,",",2,f):strtk::parse_line(i,",",f); CHECKM(r==2,"the next line"); std::vector<int> v=items(f); std::sort(v.begin(),v.end()); CHECK(v.size()==2&&v[0]==7&&v[1]==8); CHECK((lim?strtk::parse_line_n(i,",",2,g):strtk::parse_line(i,",",g))==0&&g.empty()); }
JOB(rest){ switch(arg){ case 0: rest<std::vector<int> >(0); break; case 1: rest<std::set<int> >(0); break; case 2: rest<std::multiset<int> >(0); break; case 3: rest<std::queue<int> >(0); break; case 4: rest<std::stack<int> >(0); break; default: rest<std::priority_queue<int> >(0); } }
JOB(bounded){ switch(arg){ case 0: rest<std::list<int> >(1); break; case 1: rest<std::set<int> >(1); break; case 2: rest<std::multiset<int> >(1); break; case 3: rest<std::queue<int> >(1); break; case 4: rest<std::stack<int> >(1); break; default: rest<std::priority_queue<int> >(1); } }
// long lines and many lines; two arbitrary bytes (which may be newlines)
JOB(far){ scratch x; static const int N[]={1,2,17,65,130,9,40,3},W[]={1025,513,7,5,2,120,16,300}; std::string s; for(int i=0;i<N[arg];++i){ s+=std::string((i*7+W[arg])%(W[arg]+1)?W[arg]-(i*5)%((W[arg]+1)/2):W[arg],char('a'+i%26)); s+=i%9==7?"\n\n":"\n"; } int k=sym_choose(3); size_t at=k==0?0:k==1?s.size()/2:s.size()-2; s[at]=(char)sym_u8(); if (sym_choose(2)) s.resize(s.size()-1); V w=linesof(s),v,u; Put p={&v},q={&u}; put(0,s); size_t n=sym_choose(4); n=n==0?w.size():n==1?w.size()+1:n==2?w.size()-1:w.size()/2; switch(sym_choose(4)){ case 0: CHECKM(strtk::for_each_line(F(0),p)==w.size()&&v==w,"every line once, in order, without its newline"); break; case 1: { std::istringstream i(s); CHECKM(strtk::for_each_line_n(i,n,p)==std::min(n,w.size())&&v==head(w,n),"the first lines"); CHECK(strtk::for_each_line(i,p)==w.size()-std::min(n,w.size())&&v==w); break; } case 2: { Until z={&u,n}; CHECKM(strtk::for_each_line_conditional(F(0),z)==std::min(n,w.size())&&u==head(w,n),"up to the first line that is refused"); break; } default: { std::deque<std::string> d; CHECKM(strtk::load_from_text_file(F(0),d)==w.size()&&V(d.begin(),d.end())==w,"every line is an element"); std::ostringstream o; CHECK(strtk::write_to_text_file(o,w,"\n")==w.size()); std::string e; for(size_t i=0;i<w.size();++i) e+=w[i]+"\n"; CHECKM(o.str()==e,"every element, each followed by the delimiter"); } } sym_reach("far"); }

static std::string sid(int n){ std::string s; do { s.insert(s.begin(),char('0'+n%10)); n/=10; } while(n); return s; }
// many lines through every container, every line reader and every writer
static const int DN[]={19,40,70,130,300};
template <typename C> static void deepl(int n,int sorted){ scratch x; std::vector<int> w; std::string s; const int at=n-1-sym_choose(2)*(n/2); for(int i=0;i<n;++i){ std::string l=sid(i*7%(n+3)); if (i==at){ l=std::string("-")+l; char c=(char)sym_u8(); sym_assume((c>='1')&(c<='9')); if (sorted) c=(char)('1'+sym_choose(9)); l[1]=c; int e=0; ref_int<int>(l.data(),l.size(),e); w.push_back(e); } else w.push_back(i*7%(n+3)); s+=l+"\n"; } if (sorted) std::sort(w.begin(),w.end()); if (sorted==2) w.erase(std::unique(w.begin(),w.end()),w.end()); if (sorted==3) std::reverse(w.begin(),w.end()); C c,d; std::istringstream i(s); if (sym_choose(2)) { CHECKM((int)strtk::load_from_text_file(i,c,1)==n,"number of lines"); CHECKM(items(c)==w,"the values of the lines"); } else { put(0,s); CHECKM((int)strtk::load_from_text_file(F(0),d)==n&&items(d)==w,"the values in the file"); } }
JOB(deep){ const int n=DN[arg]; switch(sym_choose(7)){ case 0: deepl<std::vector<int> >(n,0); break; case 1: deepl<std::list<int> >(n,0); break; case 2: deepl<std::set<int> >(n,2); break; case 3: deepl<std::multiset<int> >(n,1); break; case 4: deepl<std::queue<int> >(n,0); break; case 5: deepl<std::stack<int> >(n,0); break; default: deepl<std::priority_queue<int> >(n,3); } }
template <typename C> static void deepwr(int n){ scratch x; C c; std::string e; const std::string d=sym_choose(2)?"; ":""; for(int i=0;i<n;++i){ std::string t=sid(1000+i); if (i==n-1) t+=(char)sym_u8(); c.insert(c.end(),t); e+=t+d; } std::ostringstream o; CHECKM((int)strtk::write_to_text_file(o,c,d)==n&&o.str()==e,"every element, each followed by the delimiter"); CHECK((int)strtk::write_to_text_file(F(0),c,d)==n&&get(0)==e); }
JOB(deepw){ const int n=DN[arg]; switch(sym_choose(4)){ case 0: deepwr<std::vector<std::string> >(n); break; case 1: deepwr<std::list<std::string> >(n); break; case 2: deepwr<std::set<std::string> >(n); break; default: deepwr<std::multiset<std::string> >(n); } }
JOB(deepc){ scratch x; const int n=DN[arg]; std::string s; for(int i=0;i<n;++i) s+=sid(i)+"\n"; s[s.size()-2]=(char)sym_u8(); V w=linesof(s),v,u; put(0,s); static const int K[]={0,5,18,65,200,999}; const size_t k=sym_choose(2)?K[sym_choose(6)]:(size_t)n-1,m=sym_choose(2)?K[sym_choose(6)]:(size_t)n-1; Until p={&v,k},q={&u,k}; std::istringstream i(s); const size_t c=std::min(std::min(k,m),w.size()); CHECKM(strtk::for_each_line_n_conditional(i,m,p)==c&&v==head(w,c),"at most n lines, up to the first that is refused"); CHECK(strtk::for_each_line_n_conditional(F(0),m,q)==c&&u==v); V y,z; Put a={&y},b={&z}; CHECK(strtk::for_each_line_n(F(0),m,a)==std::min(m,w.size())&&y==head(w,m)); std::istringstream j(s); CHECK(strtk::for_each_line(j,b)==w.size()&&z==w); }
