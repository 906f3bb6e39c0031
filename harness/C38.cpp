//@ rt rt_stream
//@ job pushed args=0..3 thorough=4
//@ job inserted args=0..3 thorough=4
//@ job counted args=0..4 thorough=5
//@ job called args=0..4 thorough=5
//@ job array args=0..4 thorough=5
//@ job printed args=0..4 thorough=6
//@ job distinct args=0..3 thorough=4
//@ job clock args=0..1
//@ job scoped args=0
//@ job far args=0..4
//@ bound texts of up to 4 (thorough 6) symbolic bytes; containers of up to 3 (thorough 4) symbolic elements; every clock reading of up to 2^31 seconds and 10^6 microseconds
//@ bound up to 65 values with one arbitrary, texts of up to 65 characters
//@ assume the system clock is a stub that returns arbitrary readings
#include "common.h"
#include "ref_int.h"
#include <queue>
#include <stack>
#include <sstream>
#include <sys/time.h>
static long now_s[2],now_us[2]; static int ticks;
extern "C" int gettimeofday(struct timeval* t,void*) noexcept { int k=ticks++&1; t->tv_sec=now_s[k]; t->tv_usec=now_us[k]; return 0; }
static std::string txt(int n){ std::string s(n,' '); for(int i=0;i<n;++i) s[i]=(char)sym_u8(); return s; }
JOB(pushed){ std::vector<unsigned char> v; for(int i=0;i<arg;++i) v.push_back(sym_u8()); std::queue<int> q; q.push(7); std::stack<int> s; std::priority_queue<int> p; std::copy(v.begin(),v.end(),strtk::push_inserter(q)); std::copy(v.begin(),v.end(),strtk::push_inserter(s)); std::copy(v.begin(),v.end(),strtk::push_inserter(p)); CHECKM((int)q.size()==arg+1&&(int)s.size()==arg&&(int)p.size()==arg,"every element pushed"); CHECK(q.front()==7); for(int i=0;i<arg;++i) { q.pop(); CHECKM(q.front()==v[i],"queue in order"); } for(int i=arg;i-->0;s.pop()) CHECKM(s.top()==v[i],"stack in reverse order"); std::sort(v.begin(),v.end()); for(int i=arg;i-->0;p.pop()) CHECKM(p.top()==v[i],"priority queue, largest first"); strtk::push_inserter_iterator<std::queue<int> > it=strtk::push_inserter(q),jt(it); *it=1; ++it; *(jt)=2; jt++; CHECK(q.back()==2); }
JOB(inserted){ std::vector<unsigned char> v; for(int i=0;i<arg;++i) v.push_back(sym_u8()); std::set<int> s; std::multiset<int> m; std::copy(v.begin(),v.end(),strtk::inserter_with_valuetype(s)); std::copy(v.begin(),v.end(),strtk::inserter_with_valuetype(m)); strtk::inserter_with_valuetype_iterator<std::multiset<int> > it=strtk::inserter_with_valuetype(m); it(300); CHECK(m.count(300)==1&&(int)m.size()==arg+1); for(int i=0;i<arg;++i) CHECKM(s.count(v[i])==1&&m.count(v[i])>=1,"every element inserted"); std::sort(v.begin(),v.end()); std::multiset<int>::iterator k=m.begin(); for(int i=0;i<arg;++i,++k) CHECKM(*k==v[i],"with its multiplicity"); CHECK((int)s.size()==std::distance(v.begin(),std::unique(v.begin(),v.end()))); std::vector<int> b; strtk::back_inserter_with_valuetype_iterator<std::vector<int> > bi=strtk::back_inserter_with_valuetype(b); std::copy(v.begin(),v.end(),bi); bi(5); CHECK((int)b.size()==arg+1&&b.back()==5); }
JOB(counted){ std::string s=txt(arg); size_t n=3,m=0; typedef std::pair<std::string::const_iterator,std::string::const_iterator> R; strtk::single_delimiter_predicate<char> p(','); size_t r=strtk::split(p,s.begin(),s.end(),strtk::counting_back_inserter<R>(n)); std::vector<std::string> w; strtk::split(p,s,strtk::range_to_type_back_inserter(w)); CHECKM(n==3+w.size()&&r==w.size(),"counts every token"); strtk::counting_back_inserter_iterator<int> c=strtk::counting_back_inserter<int>(m),d(c); c(1); d(2); *c=3; ++c; d++; CHECKM(m==3,"copies share the counter"); }
struct Rec { std::vector<std::string>* v; template <typename I> void operator()(const std::pair<I,I>& r) const { v->push_back(std::string(r.first,r.second)); } void operator()(const std::string& s) const { v->push_back(s); } };
JOB(called){ std::string s=txt(arg); std::vector<std::string> v,w,u; Rec r={&v},q={&u}; strtk::single_delimiter_predicate<char> p(','); strtk::split(p,s,strtk::functional_inserter(r)); strtk::split(p,s,strtk::range_to_type_back_inserter(w)); CHECKM(v==w,"the function gets every token in order"); std::copy(w.begin(),w.end(),strtk::functional_inserter(q)); CHECK(u==w); strtk::functional_inserter_iterator<Rec> f=strtk::functional_inserter(q),g(f); g(std::string("z")); CHECK(u.size()==w.size()+1&&u.back()=="z"); }
JOB(array){ std::string s=txt(arg); std::vector<std::string> w; strtk::split(",",s,strtk::range_to_type_back_inserter(w)); std::vector<int> e; for(size_t i=0;i<w.size();++i) { int v; if (ref_int<int>(w[i].data(),w[i].size(),v)) e.push_back(v); } size_t n=0,m=10,k=0; int* a=new int[e.size()]; strtk::split(",",s,strtk::range_to_ptr_type(a,n)); CHECKM(n==e.size(),"counts the values"); for(size_t i=0;i<e.size();++i) CHECKM(a[i]==e[i],"the values in order"); for(size_t i=0;i<e.size();++i) a[i]=-7; std::copy(w.begin(),w.end(),strtk::range_to_ptr_type(a,m)); CHECK(m==10+e.size()); for(size_t i=0;i<e.size();++i) CHECKM(a[i]==e[i],"from strings"); for(size_t i=0;i<e.size();++i) a[i]=-7; strtk::for_each_token(s,",",strtk::range_to_ptr_type(a,k)); for(size_t i=0;i<e.size();++i) CHECKM(a[i]==e[i],"as a function"); CHECK(k==e.size()); strtk::split(",",s,strtk::range_to_ptr_type(a)); for(size_t i=0;i<e.size();++i) CHECKM(a[i]==e[i],"without a counter"); int o[2]={-7,-7}; const char t[]="12"; strtk::range_to_ptr_type(o,k)(t,t+2); CHECK(o[0]==12&&o[1]==-7); delete[] a; }
JOB(printed){ std::string s=txt(arg); const std::string c=s; const char* b=s.data(); std::ostringstream o1,o2,o3,o4,o5; o1<<std::make_pair(b,b+arg); CHECKM(o1.str()==s,"pair of pointers"); const unsigned char* u=(const unsigned char*)b; o2<<std::make_pair(u,u+arg); CHECK(o2.str()==s); o3<<std::make_pair(c.begin(),c.end()); CHECKM(o3.str()==s,"pair of iterators"); o4<<std::make_pair(s.begin(),s.end()); CHECK(o4.str()==s); strtk::single_delimiter_predicate<char> p(','); typedef strtk::std_string::tokenizer<strtk::single_delimiter_predicate<char> >::type T; T t(s,p); std::vector<std::string> w; strtk::split(p,s,strtk::range_to_type_back_inserter(w)); std::string e; for(size_t i=0;i<w.size();++i) e+=w[i]+"|"; for(T::iterator i=t.begin();i!=t.end();++i) { o5<<i; o5<<"|"; } CHECKM(o5.str()==e,"the token an iterator stands on"); }
JOB(distinct){ std::string s=txt(arg); if (arg>2) for(int i=0;i<arg;++i) sym_assume((unsigned char)(s[i]-'a')<4); std::string o; for(int i=0;i<arg;++i) { bool in=false; for(int j=0;j<i;++j) in=in||s[i]==s[j]; if (!in) o+=s[i]; } CHECKM(strtk::remove_duplicates(s)==o,"the first occurrence of every character"); std::string t=s; CHECKM(strtk::remove_duplicates_inplace(t)==o&&t==o,"in place"); }
static void readings(){ for(int k=0;k<2;++k) { unsigned a=sym<unsigned>(),b=sym<unsigned>(); sym_assume((a<0x80000000u)&(b<1000000u)); now_s[k]=a; now_us[k]=b; } sym_assume((now_s[0]<now_s[1])|((now_s[0]==now_s[1])&(now_us[0]<=now_us[1]))); }
JOB(clock){ readings(); ticks=0; strtk::util::timer t; CHECK(!t.in_use()&&t.usec_time()==0); t.start(); CHECKM(t.in_use(),"running"); CHECKM(t.usec_time()==~0ull,"no time while running"); t.stop(); CHECKM(!t.in_use(),"stopped"); long s=now_s[1]-now_s[0],u=now_us[1]-now_us[0]; if (u<0) { s-=1; u+=1000000; } CHECKM(t.usec_time()==(unsigned long long)s*1000000ull+(unsigned long long)u,"microseconds between start and stop"); if (arg) { t.start(); CHECK(t.in_use()&&t.usec_time()==~0ull); t.stop(); CHECKM(t.usec_time()==(unsigned long long)s*1000000ull+(unsigned long long)u,"again"); } }
JOB(scoped){ readings(); ticks=0; sym_assume(now_s[1]-now_s[0]<2000000000L); double v=-1; { strtk::util::scoped_timer t(v); CHECK(v==-1); } long long us=(now_s[1]-now_s[0])*1000000LL+(now_us[1]-now_us[0]); CHECKM(v==(unsigned long long)us*0.000001,"seconds between start and end of the scope"); }
JOB(far){ static const int L[]={9,17,33,65}; int n=L[sym_choose(4)]; std::string s; std::vector<int> e; for(int i=0;i<n;++i){ if (i) s+=','; std::string d; strtk::type_to_string(i*37%500,d); s+=d; e.push_back(i*37%500); } char c=(char)sym_u8(); sym_assume(c!=','); int k=sym_choose(3); k=k==0?0:k==1?n/2:n-1; { size_t p=0; for(int i=0;i<k;++i) p=s.find(',',p)+1; size_t q=s.find(',',p); if (q==std::string::npos) q=s.size(); s=s.substr(0,p)+"5"+c+s.substr(q); } bool good=(unsigned char)(c-'0')<10; std::vector<int> w; for(int i=0;i<n;++i) if (i!=k) w.push_back(e[i]); else if (good) w.push_back(50+c-'0'); switch(arg){ case 0: { size_t m=0; std::vector<int> a(n+1,-7); strtk::split(",",s,strtk::range_to_ptr_type(&a[0],m)); CHECKM(m==w.size(),"counts the values"); for(size_t i=0;i<w.size();++i) CHECKM(a[i]==w[i],"the values in order"); CHECK(a[w.size()]==-7); break; }
   case 1: { typedef std::pair<std::string::const_iterator,std::string::const_iterator> R; size_t m=3; strtk::single_delimiter_predicate<char> p(','); strtk::split(p,s.begin(),s.end(),strtk::counting_back_inserter<R>(m)); CHECKM((int)m==3+n,"counts every token"); break; }
   case 2: { std::vector<std::string> v,u; Rec r={&v}; strtk::single_delimiter_predicate<char> p(','); strtk::split(p,s,strtk::functional_inserter(r)); strtk::split(p,s,strtk::range_to_type_back_inserter(u)); CHECKM(v==u&&(int)v.size()==n,"the function gets every token in order"); break; }
   case 3: { std::queue<int> q; std::stack<int> t; std::copy(w.begin(),w.end(),strtk::push_inserter(q)); std::copy(w.begin(),w.end(),strtk::push_inserter(t)); CHECK(q.size()==w.size()&&t.size()==w.size()); for(size_t i=0;i<w.size();++i){ CHECKM(q.front()==w[i]&&t.top()==w[w.size()-1-i],"every element pushed"); q.pop(); t.pop(); } break; }
   default: { std::string d; for(int i=0;i<n;++i) d+=char('a'+i*7%26); d[n-1]=c; std::string o; for(int i=0;i<n;++i){ if (i<n-1) { if (o.find(d[i])==std::string::npos) o+=d[i]; } } int in=0; for(size_t i=0;i<o.size();++i) in|=(o[i]==c); if (!in) o+=c; CHECKM(strtk::remove_duplicates(d)==o,"the first occurrence of every character"); std::ostringstream os; os<<std::make_pair(d.data(),d.data()+n); CHECKM(os.str()==d,"pair of pointers"); } } sym_reach("far"); }
