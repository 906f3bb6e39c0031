//@ rt rt_stream
//@ job lists args=0..5,10..15,20..25
//@ job ints args=0..4
//@ job select args=0..4,10..14
//@ job build args=2..12,102..112
//@ job round args=0..4
//@ job bracket args=0..4
//@ job argv args=0..4
//@ job copies args=0..5
//@ job every args=1..4
//@ job far args=0..5
//@ bound sequences of up to 5 texts of up to 2 symbolic bytes, delimiters of up to 2 symbolic bytes; vector, list, deque, set, multiset, range and iterator forms; construct of 2..12 values; up to 5 copies; insertion intervals 1..4
//@ bound sequences of up to 65 texts with one arbitrary, delimiters of up to 13 characters; 19 copies of up to 65 characters; intervals up to the whole text
//@ assume texts reach the library through std::stringstream in the classic locale (its templates are executed; the locale lookup is modelled)
#include "common.h"
static std::string key(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
typedef std::vector<std::string> vs;
template <typename C> static std::string ref(const C& v,const std::string& d){ std::string r; bool first=true; for(typename C::const_iterator i=v.begin();i!=v.end();++i){ if (!first) r+=d; first=false; r+=*i; } return r; }
static vs texts(int n){ vs v; for(int i=0;i<n;++i) v.push_back(key((i+n)%3)); return v; }
template <typename C> static void seq(const C& v,const std::string& d){ std::string e=ref(v,d),o="x"; CHECKM(strtk::join(d,v)==e,"sequence joined"); { std::string z; strtk::join(z,d,v); CHECKM(z==e,"into an empty output"); } strtk::join(o,d,v); CHECKM(o=="x"+e,"appended to the output"); }
JOB(lists){ int n=arg%10; std::string d=key(arg/10); vs v=texts(n); std::string e=ref(v,d),o; seq(v,d); seq(std::list<std::string>(v.begin(),v.end()),d); seq(std::deque<std::string>(v.begin(),v.end()),d); CHECKM(strtk::join(d,v.begin(),v.end())==e,"iterators"); CHECKM(strtk::join(d,std::make_pair(v.begin(),v.end()))==e,"range"); strtk::join(o,d,v.begin(),v.end()); CHECK(o==e); strtk::join(o,d,std::make_pair(v.begin(),v.end())); CHECKM(o==e+e,"output is kept"); o.clear(); strtk::join(o,d,std::make_pair(v.begin(),v.end())); CHECKM(o==e,"range into an empty output"); o="x"; strtk::join(o,d,v.begin(),v.end()); CHECKM(o=="x"+e,"iterators, output kept"); if (n<4) { seq(std::set<std::string>(v.begin(),v.end()),d); seq(std::multiset<std::string>(v.begin(),v.end()),d); } }
JOB(ints){ std::vector<int> v; std::vector<char> c; std::string e,f; for(int i=0;i<arg;++i){ int x=(int)(sym_u8()&127)-64; x=sym_choose(2)?x:-x; if (i<2) {} else x=i*-1000; v.push_back(x); c.push_back((char)sym_u8()); if (i) { e+=", "; f+=", "; } int a=x<0?-x:x; if (x<0) e+='-'; if (a>=1000) { e+=char('0'+a/1000); e+="000"; } else { if (a>=10) e+=char('0'+a/10); e+=char('0'+a%10); } f+=c[i]; } CHECKM(strtk::join(", ",v)==e,"numbers joined"); CHECKM(strtk::join(", ",c)==f,"characters joined"); std::string o; strtk::join(o,", ",v); CHECK(o==e); }
struct pick { bool operator()(const std::string& s) const { return !s.empty()&&s[0]=='a'; } };
template <typename C> static void sel(const C& v,const std::string& d){ vs w; for(typename C::const_iterator i=v.begin();i!=v.end();++i) if (pick()(*i)) w.push_back(*i); std::string e=ref(w,d),o="x"; CHECKM(strtk::join_if(d,pick(),v)==e,"the selected elements joined"); strtk::join_if(o,d,pick(),v); CHECKM(o=="x"+e,"appended to the output"); o.clear(); strtk::join_if(o,d,pick(),v.begin(),v.end()); CHECK(o==e); o.clear(); strtk::join_if(o,d,pick(),std::make_pair(v.begin(),v.end())); CHECK(o==e); o="z"; strtk::join_if(o,d,pick(),v.begin(),v.end()); CHECK(o=="z"+e); CHECK(strtk::join_if(d,pick(),v.begin(),v.end())==e); o="y"; strtk::join_if(o,d,pick(),std::make_pair(v.begin(),v.end())); CHECK(o=="y"+e); CHECK(strtk::join_if(d,pick(),std::make_pair(v.begin(),v.end()))==e); }
JOB(select){ std::string d=key(1); vs v=texts(arg%10); if (arg<10) sel(v,d); else if (arg%10<4) { sel(std::list<std::string>(v.begin(),v.end()),d); sel(std::deque<std::string>(v.begin(),v.end()),d); sel(std::set<std::string>(v.begin(),v.end()),d); sel(std::multiset<std::string>(v.begin(),v.end()),d); } }
#include <tuple>
template <int I,int K> struct val { static std::string get(const vs& v,const std::vector<int>&){ return v[I]; } }; template <int I> struct val<I,1> { static int get(const vs&,const std::vector<int>& n){ return n[I]; } }; template <int I> struct val<I,2> { static char get(const vs& v,const std::vector<int>& n){ return (char)n[I]; } };
template <size_t... I> static void con(std::string& o,const std::string& d,const vs& v,const std::vector<int>& n,std::index_sequence<I...>){ strtk::construct(o,d,val<I,(int)I%3>::get(v,n)...); }
template <int N> struct Dis { static void go(int n,std::string& o,const std::string& d,const vs& v,const std::vector<int>& x){ if (n==N) con(o,d,v,x,std::make_index_sequence<N>()); else Dis<N-1>::go(n,o,d,v,x); } }; template <> struct Dis<1> { static void go(int,std::string&,const std::string&,const vs&,const std::vector<int>&){} };
// construct of k values: texts, small numbers and characters in turn
JOB(build){ int k=arg%100; std::string d=key(arg/100); vs v; std::vector<int> n; std::string e="<"; for(int i=0;i<k;++i){ v.push_back(key(i==6?2:i%3+(i==9))); int x=sym_u8()%10; if (i%3==2) x=(signed char)sym_u8(); n.push_back(x); if (i) e+=d; if (i%3==0) e+=v[i]; else if (i%3==1) e+=char('0'+x); else e+=(char)x; } std::string o="<"; Dis<12>::go(k,o,d,v,n); CHECKM(o==e,"values in order, one delimiter between neighbours"); }
// joining and splitting again gives the texts back
JOB(round){ int n=arg+1; vs v; for(int i=0;i<n;++i){ v.push_back(key(1+i%2)); for(size_t j=0;j<v[i].size();++j) sym_assume(v[i][j]!=','); } std::string t=strtk::join(",",v); vs w; strtk::parse(t,",",w); CHECKM(w==v,"split(join(x)) is x"); vs u; CHECK(strtk::split(",",t,strtk::range_to_type_back_inserter(u))==(size_t)n); CHECK(u==v); }
template <typename C> static void bra(C v,const std::string& p,const std::string& q){ std::string e; for(typename C::const_iterator i=v.begin();i!=v.end();++i) e+=p+*i+q; std::string o="x"; strtk::bracketize(o,p,q,v); CHECKM(o=="x"+e,"each element bracketed"); CHECK(strtk::bracketize(p,q,v)==e); CHECK(strtk::bracketize(p,q,v.begin(),v.end())==e); }
JOB(bracket){ vs v=texts(arg); std::string p=key(1),q=key(2); bra(v,p,q); bra(std::list<std::string>(v.begin(),v.end()),p,q); bra(std::deque<std::string>(v.begin(),v.end()),p,q); if (arg<4) { bra(std::set<std::string>(v.begin(),v.end()),p,q); bra(std::multiset<std::string>(v.begin(),v.end()),p,q); }
   strtk::build_string b; std::string e; for(int i=0;i<arg;++i){ char c=(char)sym_u8(); b<<v[i]<<c<<(i*37-40); e+=v[i]; e+=c; char n[8]; int x=i*37-40,a=x<0?-x:x; if (x<0) e+='-'; if (a>=10) e+=char('0'+a/10); e+=char('0'+a%10); } CHECKM(b.to_str()==e,"values appended in order"); CHECK(std::string((const char*)b,e.size())==e); }
JOB(argv){ std::string s[4]; char* a[4]; vs v; for(int i=0;i<arg;++i){ s[i]=key(i%3); for(size_t j=0;j<s[i].size();++j) sym_assume(s[i][j]!=0); a[i]=&s[i][0]; v.push_back(s[i]); } std::string d=key(1),o="x"; CHECKM(strtk::join(d,arg,a)==ref(v,d),"program arguments joined"); strtk::join(o,d,arg,a); CHECK(o=="x"+ref(v,d)); }
JOB(copies){ std::string s=key(sym_choose(4)),e; for(int i=0;i<arg;++i) e+=s; CHECKM(strtk::replicate(arg,s)==e,"n copies"); std::string o="ab"; strtk::replicate(arg,s,o); CHECKM(o=="ab"+e,"appended"); std::string p=s; strtk::replicate_inplace(arg,p); CHECKM(p==s+e,"n further copies in place"); }
JOB(every){ int n=sym_choose(9); std::string s=key(n),o,e; char c=(char)sym_u8(); size_t r=strtk::inserter(strtk::interval_inserter<char>(arg,c),s.begin(),s.end(),std::back_inserter(o)); for(int i=0;i<n;++i){ e+=s[i]; if ((i+1)%arg==0) e+=c; } CHECKM(o==e,"inserted after every interval"); CHECKM(r==e.size(),"size reported"); }
JOB(far){ static const int K[]={9,17,33,65}; int n=K[arg<2?sym_choose(3):sym_choose(4)]; vs v; for(int i=0;i<n;++i) v.push_back(i%5==4?std::string():std::string(1+i%4,char('a'+i%26))); int at=sym_choose(3); at=at==0?0:at==1?n/2:n-1; v[at]=key(2); std::string d=sym_choose(2)?std::string(key(1)):std::string(" and so on, ")+key(1); switch(arg){ case 0: seq(v,d); break; case 1: seq(std::deque<std::string>(v.begin(),v.end()),d); break; case 2: sel(v,d); break; case 3: { std::string p=key(1); std::string e; for(int i=0;i<n;++i) e+=p+v[i]+d; CHECKM(strtk::bracketize(p,d,v)==e,"each element bracketed"); break; }
   case 4: { std::string s=MIXED(n,"ab"),e; for(int i=0;i<19;++i) e+=s; CHECKM(strtk::replicate(19,s)==e,"n copies"); std::string p=s; strtk::replicate_inplace(18,p); CHECKM(p==e,"n further copies in place"); break; }
   default: { std::string s=MIXED(n,"abc"),o,e; char c=(char)sym_u8(); size_t iv=sym_choose(4); iv=iv==0?7:iv==1?8:iv==2?n-1:n; size_t r=strtk::inserter(strtk::interval_inserter<char>(iv,c),s.begin(),s.end(),std::back_inserter(o)); for(int i=0;i<n;++i){ e+=s[i]; if ((i+1)%iv==0) e+=c; } CHECKM(o==e&&r==e.size(),"inserted after every interval"); } } sym_reach("far"); }
