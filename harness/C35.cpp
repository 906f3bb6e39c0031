//@ job wildcard args=0..3 thorough=4
//@ job words args=0..4 thorough=5
//@ job filled args=0..4
//@ job sizes args=0..5 thorough=6
//@ job skip args=0..6 thorough=8
//@ job copies args=0..5 thorough=6
//@ job unique args=0..4 thorough=5
//@ job number args=0..4 thorough=5
//@ job adapter args=0..5 thorough=8
//@ job far args=0..5
//@ job stop args=0..5
//@ bound tokens of up to 4 (thorough 5) symbolic bytes; five wildcard patterns; word lists of three words; both directions of every filter; sizes 0..5 (thorough 6) in every container; sequences of up to 6 (thorough 8) symbolic elements with symbolic thresholds
//@ bound texts and ranges of 9..129 elements with two arbitrary ones, twenty words
#include "common.h"
#include "ref_int.h"
static std::string txt(int n){ std::string s(n,' '); for(int i=0;i<n;++i) s[i]=(char)sym_u8(); return s; }
struct Rec { std::vector<std::string>* v; template <typename I> void operator()(const std::pair<I,I>& r) const { v->push_back(std::string(r.first,r.second)); } void operator()(const std::string& s) const { v->push_back(s); } };
struct Exact { char* p; size_t n; Exact(const std::string& s):p(new char[s.size()]),n(s.size()){ for(size_t i=0;i<n;++i) p[i]=s[i]; } ~Exact(){ delete[] p; } std::pair<const char*,const char*> range() const { return std::pair<const char*,const char*>(p,p+n); } };
static void through(const std::vector<std::string>& v,bool want,const std::string& s,const char* m){ CHECKM(v.size()==(want?1u:0u),m); if (want) { CHECKM(v[0]==s,"unchanged"); sym_reach("through"); } else sym_reach("held"); }
JOB(wildcard){ static const char* pat[]={"*","a*","?b","*a?","b"}; std::string p=pat[sym_choose(5)],s=txt(arg); std::vector<std::string> a,b,c,d; Rec ra={&a},rb={&b},rc={&c}; bool allow=sym_choose(2); bool w=strtk::match(p,s)==allow; strtk::filter_on_wildcard_match<Rec> fa(p,ra,allow),fb(p,rb,allow),fc(p,rc,allow); fa(s); through(a,w,s,"strings that match are let through or held back as asked"); fb(std::pair<std::string::const_iterator,std::string::const_iterator>(s.begin(),s.end())); through(b,w,s,"ranges"); Exact e(s); if (allow) { Rec rd={&d}; strtk::filter_on_wildcard_match<Rec> fd(p,rd); fd(s); through(d,w,s,"matches are let through by default"); } }
static char low(char c){ return (char)(c|(((c>='A')&(c<='Z'))<<5)); }
static bool same(const std::string& a,const std::string& b,bool ci){ if (a.size()!=b.size()) return false; int ok=1; for(size_t i=0;i<a.size();++i) ok&=ci?low(a[i])==low(b[i]):a[i]==b[i]; return ok; }
JOB(words){ std::string w[3]={"ab","aBc",sym_choose(2)?"":"Q"}; std::string s=txt(arg); int ci=sym_choose(2),allow=sym_choose(2),n=sym_choose(4); bool in=false; for(int i=0;i<n;++i) in=in||same(w[i],s,ci); bool want=in==(bool)allow; std::vector<std::string> a,b,c,d; Rec ra={&a},rb={&b},rc={&c},rd={&d}; strtk::filter_on_match<Rec> fa(w,w+n,ra,ci,allow),fb(w,w+n,rb,ci,allow),fc(w,w+n,rc,ci,allow); Exact e(s); fa(s); through(a,want,s,"strings equal to one of the words are let through or held back as asked"); fb(e.range()); through(b,want,s,"ranges equal to one of the words"); strtk::filter_on_match<Rec> g(fc); g(e.range()); through(c,want,s,"a copied filter"); strtk::filter_on_match<Rec> h(w,w+n,rd,ci); h(s); through(d,in,s,"matches are let through by default"); }
JOB(filled){ std::string s=txt(arg); int i=sym_choose(arg+1),j=i+sym_choose(arg-i+1); typedef std::string::const_iterator It; std::pair<It,It> r(s.begin()+i,s.begin()+j); CHECK(strtk::empty_range()(r.first,r.second)==(i==j)); CHECK(strtk::nonempty_range()(r.first,r.second)==(i!=j)); std::vector<std::pair<It,It> > v; strtk::filter_non_empty_range<std::back_insert_iterator<std::vector<std::pair<It,It> > > > f(std::back_inserter(v)); f(r); f(r); CHECKM(v.size()==(i==j?0u:2u),"empty ranges are dropped"); if (v.size()) CHECKM(v[0]==r&&v[1]==r,"others are kept"); }
template <typename P> static void size_is(P p,int n,bool w){ std::vector<int> v(n); std::deque<char> d(n); std::list<short> l(n); std::set<int> s; std::multiset<int> m; std::string t(n,'x'); for(int i=0;i<n;++i) { s.insert(i*3); m.insert(i/2); } CHECKM(p(v)==w,"vector"); CHECKM(p(d)==w,"deque"); CHECKM(p(l)==w,"list"); CHECKM(p(s)==w,"set"); CHECKM(p(m)==w,"multiset"); CHECKM(p(t)==w,"string"); CHECKM(p(t.begin(),t.end())==w,"iterators"); CHECKM(p(l.begin(),l.end())==w,"list iterators"); CHECKM(p(std::make_pair(v.begin(),v.end()))==w,"pair of iterators"); CHECKM(p(std::make_pair(s.begin(),s.end()))==w,"pair of set iterators"); }
template <size_t L> static void rel(int n){ size_is(strtk::size_equal_to<L>(),n,n==(int)L); size_is(strtk::size_less_than<L>(),n,n<(int)L); size_is(strtk::size_greater_than<L>(),n,n>(int)L); }
JOB(sizes){ switch(sym_choose(4)){ case 0: rel<0>(arg); break; case 1: rel<2>(arg); break; case 2: rel<5>(arg); break; default: size_is(strtk::size_is_even(),arg,arg%2==0); size_is(strtk::size_is_odd(),arg,arg%2!=0); } }
struct Below { unsigned char t; bool operator()(const unsigned char& c) const { return c<t; } };
JOB(skip){ std::vector<unsigned char> v; for(int i=0;i<arg;++i) v.push_back(sym_u8()); Below p={sym_u8()}; std::vector<unsigned char>::iterator it=v.begin(); strtk::skip_while_matching(it,v.end(),p); size_t k=it-v.begin(); CHECKM(k<=v.size(),"inside the range"); for(size_t i=0;i<k;++i) CHECKM(v[i]<p.t,"everything skipped matches"); if (k<v.size()) CHECKM(v[k]>=p.t,"the first that does not match stops it"); bool all=k==v.size(); CHECKM(strtk::range_only_contains(p,v.begin(),v.end())==all,"only elements that match"); }
JOB(copies){ std::list<unsigned char> v; std::vector<unsigned char> x; for(int i=0;i<arg;++i) { v.push_back(sym_u8()); x.push_back(v.back()); } Below p={sym_u8()}; std::vector<unsigned char> a,b,c,e,w; size_t k=0; bool st=true; for(int i=0;i<arg;++i) { if (x[i]<p.t) e.push_back(x[i]); else st=false; if (st) { w.push_back(x[i]); ++k; } } strtk::copy_if(p,v.begin(),v.end(),std::back_inserter(a)); CHECKM(a==e,"every element that satisfies the predicate"); std::list<unsigned char>::iterator it=strtk::copy_while(p,v.begin(),v.end(),std::back_inserter(b)); CHECKM(b==w,"the leading elements that satisfy the predicate"); CHECKM((size_t)std::distance(v.begin(),it)==k,"where it stopped"); size_t u=0; while(u<x.size()&&!(x[u]<p.t)) ++u; it=strtk::copy_until(p,v.begin(),v.end(),std::back_inserter(c)); CHECKM(c==std::vector<unsigned char>(x.begin(),x.begin()+u),"the elements before the first that satisfies the predicate"); CHECKM((size_t)std::distance(v.begin(),it)==u,"where it stopped"); size_t n=sym_choose(arg+1); std::vector<unsigned char> d(arg+1,0xEE); strtk::copy_n(v.begin(),n,d.begin()); for(size_t i=0;i<d.size();++i) CHECKM(d[i]==(i<n?x[i]:0xEE),"exactly n elements"); }
JOB(unique){ std::vector<unsigned char> v,r; for(int i=0;i<arg;++i) v.push_back(sym_u8()); const std::vector<unsigned char> o=v; strtk::extract_unique(v.begin(),v.end(),std::back_inserter(r)); for(size_t i=1;i<r.size();++i) CHECKM(r[i-1]<r[i],"increasing, no duplicates"); for(size_t i=0;i<o.size();++i) { int in=0; for(size_t j=0;j<r.size();++j) in|=r[j]==o[i]; CHECKM(in,"every value is there"); } for(size_t j=0;j<r.size();++j) { int in=0; for(size_t i=0;i<o.size();++i) in|=r[j]==o[i]; CHECKM(in,"no other value is there"); } CHECKM(v==o,"the range is left alone"); }
JOB(number){ std::string s="9"+txt(arg)+"7"; std::pair<std::string::const_iterator,std::string::const_iterator> r(s.begin()+1,s.end()-1); int e=0,t=-5; bool num=arg&&ref_int<int>(s.data()+1,arg,e),ok=false,thrown=false; try { ok=strtk::convert_string_range(r,t); } catch(const std::invalid_argument&) { thrown=true; } CHECKM(ok==num,"converts exactly the integers"); CHECKM(thrown==(arg&&!num),"anything else but the empty range is reported"); if (num) CHECK(t==e); if (!arg) CHECK(t==-5); }
template <typename A> static void view(A a,const std::string& s){ CHECKM(a.size()==s.size(),"size"); CHECK((size_t)(a.end()-a.begin())==s.size()); const A& c=a; for(size_t i=0;i<s.size();++i) { CHECKM(a[i]==s[i]&&c[i]==s[i]&&*(a.begin()+i)==s[i],"element"); } CHECKM(static_cast<std::string>(a)==s,"as string"); }
JOB(adapter){ std::string s=txt(arg); Exact e(s); const char* p=e.p; char* q=e.p; view(strtk::range::string(p,p+arg),s); view(strtk::range::string(p,(size_t)arg),s); view(strtk::range::string(e.range()),s); view(strtk::range::adapter<char>(q,q+arg),s); view(strtk::range::adapter<char>(q,(size_t)arg),s); view(strtk::range::type(p,p+arg),s); view(strtk::range::type(s),s); CHECK(strtk::range::as_string(strtk::range::string(p,p+arg))==s); const unsigned char* u=reinterpret_cast<const unsigned char*>(p); CHECK(strtk::range::as_string(strtk::range::ustring(u,u+arg))==s); char f[3]={'x',(char)sym_u8(),'\0'}; view(strtk::range::type(f),std::string(f,f+3)); if (arg) { strtk::range::adapter<char> w(q,q+arg); w[0]='!'; CHECKM(e.p[0]=='!',"writes through"); } int n[4]={1,2,sym<int>(),4}; strtk::range::adapter<int> z(n+1,(size_t)2); CHECK(z.size()==2&&z[1]==n[2]); z[1]=9; CHECK(n[2]==9&&*z.begin()==2); }
JOB(far){ static const int L[]={9,17,33,65,129}; int n=L[sym_choose(5)]; std::string s=MIXED(n,"abC"); int allow=sym_choose(2); switch(arg){ case 0: { std::vector<std::string> a; Rec r={&a}; std::string p=s.substr(0,3)+"*"; p[1]=(char)sym_u8(); sym_assume((p[0]!='*')&(p[0]!='?')&(p[1]!='*')&(p[1]!='?')); strtk::filter_on_wildcard_match<Rec> f(p,r,allow); f(s); through(a,((p[0]==s[0])&(p[1]==s[1])&(p[2]==s[2]))==allow,s,"strings that match"); break; }
   case 1: { std::vector<std::string> w; for(int i=0;i<20;++i) w.push_back(std::string(i,'w')); int k=sym_choose(3); std::string t=s; t[0]=(char)sym_u8(); w[k==0?0:k==1?7:19]=t; int ci=sym_choose(2); std::vector<std::string> a; Rec r={&a}; strtk::filter_on_match<Rec> f(&w[0],&w[0]+20,r,ci,allow); f(s); bool in=false; for(int i=0;i<20;++i) in=in||same(w[i],s,ci); through(a,in==(bool)allow,s,"strings equal to one of the words"); break; }
   case 2: { rel<2>(n); rel<65>(n); rel<64>(n); rel<66>(n); size_is(strtk::size_is_even(),n,n%2==0); size_is(strtk::size_is_odd(),n+1,n%2==0); break; }
   case 3: { std::vector<unsigned char> v(n); for(int i=0;i<n;++i) v[i]=(i*31)%50; v[n-1]=sym_u8(); v[n/2]=sym_u8(); Below p={50}; std::vector<unsigned char>::iterator it=v.begin(); strtk::skip_while_matching(it,v.end(),p); size_t k=it-v.begin(),e=0; while(e<v.size()&&v[e]<50) ++e; CHECKM(k==e,"the first that does not match stops it"); CHECKM(strtk::range_only_contains(p,v.begin(),v.end())==(e==v.size()),"only elements that match"); break; }
   case 4: { std::vector<unsigned char> v(n),a,b,c,e,w; for(int i=0;i<n;++i) v[i]=(i*31)%50; v[n-1]=sym_u8(); v[n/2]=sym_u8(); Below p={25}; bool st=true; for(int i=0;i<n;++i) if (v[i]<25) e.push_back(v[i]); strtk::copy_if(p,v.begin(),v.end(),std::back_inserter(a)); CHECKM(a==e,"every element that satisfies the predicate"); Below q={50}; for(int i=0;i<n&&v[i]<50;++i) w.push_back(v[i]); strtk::copy_while(q,v.begin(),v.end(),std::back_inserter(b)); CHECKM(b==w,"the leading elements"); std::vector<unsigned char> d(n+1,0xEE); strtk::copy_n(v.begin(),(size_t)(n-1),d.begin()); for(int i=0;i<n-1;++i) CHECKM(d[i]==v[i],"exactly n elements"); CHECK(d[n-1]==0xEE); break; }
   default: { std::vector<int> v(n),r; for(int i=0;i<n;++i) v[i]=(i*37)%40; v[n/2]=(int)sym_u8(); strtk::extract_unique(v.begin(),v.end(),std::back_inserter(r)); std::set<int> z; for(int i=0;i<n;++i) if (i!=n/2) z.insert(v[i]); int in=0; for(std::set<int>::iterator i=z.begin();i!=z.end();++i) in|=(*i==v[n/2]); CHECKM(r.size()==z.size()+!in,"one of every value"); for(size_t i=1;i<r.size();++i) CHECKM(r[i-1]<r[i],"increasing, no duplicates"); } } sym_reach("far2"); }

// long sequences: where leading elements end and matching elements lie
JOB(stop){ static const int N[]={16,19,40,70,130,300}; const int n=N[arg]; std::vector<unsigned char> x(n); const int w=sym_choose(3),k=w==0?n-1:w==1?n/2:n-2; const bool lo=sym_choose(2); for(int i=0;i<n;++i) x[i]=lo?(unsigned char)(i%90):(unsigned char)(160+i%90); x[k]=sym_u8(); Below p={128}; std::list<unsigned char> l(x.begin(),x.end()); std::vector<unsigned char> a,b,c,e; for(int i=0;i<n;++i) if (x[i]<128) e.push_back(x[i]); strtk::copy_if(p,l.begin(),l.end(),std::back_inserter(a)); CHECKM(a==e,"every element that satisfies the predicate"); int f=0,u=0; while(f<n&&x[f]<128) ++f; while(u<n&&!(x[u]<128)) ++u; std::list<unsigned char>::iterator i=strtk::copy_while(p,l.begin(),l.end(),std::back_inserter(b)); CHECKM((int)std::distance(l.begin(),i)==f&&b==std::vector<unsigned char>(x.begin(),x.begin()+f),"the leading elements that satisfy the predicate"); i=strtk::copy_until(p,l.begin(),l.end(),std::back_inserter(c)); CHECKM((int)std::distance(l.begin(),i)==u&&c==std::vector<unsigned char>(x.begin(),x.begin()+u),"the elements before the first that satisfies the predicate"); std::vector<unsigned char>::iterator j=x.begin(); strtk::skip_while_matching(j,x.end(),p); CHECKM(j-x.begin()==f,"the first that does not match stops it"); CHECK(strtk::range_only_contains(p,x.begin(),x.end())==(f==n)); std::vector<unsigned char> d(n+1,0xEE); strtk::copy_n(l.begin(),k,d.begin()); for(int q=0;q<=n;++q) CHECKM(d[q]==(q<k?x[q]:0xEE),"exactly n elements"); }
