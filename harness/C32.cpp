//@ job find args=0..7 thorough=0..9
//@ job match args=0..7 thorough=0..9
//@ job split args=0..7 thorough=0..9
//@ job splitn args=0..6 thorough=0..8
//@ job pred args=0..7 thorough=0..9
//@ job predn args=0..6 thorough=0..8
//@ job far args=17,33,64,65,129,257,1025
//@ bound texts of up to 6 or 7 symbolic bytes (9 thorough); every character class, both modes; run lengths 1..n+1 and one far larger; limits of 0..4 ranges; predicates with a symbolic threshold; const char*, unsigned char* and std::string forms
//@ bound texts of 17..1025 characters, run lengths up to the whole text
//@ assume a run length of zero is outside the property except where the splitter returns 0 for it
#include "common.h"
namespace ft=strtk::find_type; namespace fm=strtk::find_mode;
typedef std::pair<const char*,const char*> R; typedef std::pair<char*,char*> RM;
static int cls(int k,unsigned char c){ int up=(c>='A')&(c<='Z'),lo=(c>='a')&(c<='z'),d=(c>='0')&(c<='9'); return k==0?d:k==1?(up|lo):k==2?lo:k==3?up:(up|lo|d); }
static const ft::type T[5]={ft::digits,ft::letters,ft::lowercase_letters,ft::uppercase_letters,ft::letters_digits};
static size_t len(int n){ int k=sym_choose(n+2); return k<=n?(size_t)k+1:(size_t)100; }
struct Ge { unsigned char t; bool operator()(unsigned char c) const { return c>=t; } };
// the ranges wanted: left to right, each inside a maximal run of members; exactly: consecutive pieces of n, at least: the whole run
static void ref(const int* m,int L,size_t n,bool whole,size_t lim,std::vector<std::pair<int,int> >& w){ int i=0; while (i<L&&w.size()<lim) { if (!m[i]) { ++i; continue; } int j=i; while (j<L&&m[j]) ++j; if (whole) { if ((size_t)(j-i)>=n) w.push_back(std::make_pair(i,j)); } else for(int k=i;(size_t)(j-k)>=n&&w.size()<lim;k+=(int)n) w.push_back(std::make_pair(k,k+(int)n)); i=j; } }
template<class V> static void same(const V& g,const char* b,const std::vector<std::pair<int,int> >& w){ CHECKM(g.size()==w.size(),"number of ranges"); for(size_t i=0;i<w.size();++i) CHECKM(g[i].first==b+w[i].first&&g[i].second==b+w[i].second,"range"); }
JOB(find){ static char s[9]; sym_bytes(s,arg); int k=sym_choose(5),mode=sym_choose(2); size_t n=len(arg); int m[9]; for(int i=0;i<arg;++i) m[i]=cls(k,s[i])!=0; std::vector<std::pair<int,int> > w; ref(m,arg,n,mode,1,w); RM r=strtk::find_n_consecutive<char*>(n,T[k],mode?fm::atleast_n:fm::exactly_n,RM(s,s+arg)); if (w.empty()) CHECKM(r.first==s+arg&&r.second==s+arg,"an empty range at the end if there is none"); else CHECKM(r.first==s+w[0].first&&r.second==s+w[0].second,"the first run that is long enough"); if (!w.empty()&&w[0].first>0) sym_reach("inside"); R q=strtk::find_n_consecutive<const char*>(n,T[k],mode?fm::atleast_n:fm::exactly_n,R(s,s+arg)); CHECK(q.first==r.first&&q.second==r.second); }
JOB(match){ static char s[9]; sym_bytes(s,arg); int k=sym_choose(5),mode=sym_choose(2); size_t n=len(arg); int ok=n<=(size_t)arg; for(int i=0;i<arg&&(size_t)i<n;++i) ok&=cls(k,s[i]); bool r=strtk::match_n_consecutive<char*>(n,T[k],mode?fm::atleast_n:fm::exactly_n,RM(s,s+arg)); CHECKM(r==(ok!=0),"matches if and only if the range starts with n members"); if (r) sym_reach("match"); }
static std::string txt(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
JOB(split){ std::string s=txt(arg); int k=sym_choose(5),mode=sym_choose(2); fm::type md=mode?fm::atleast_n:fm::exactly_n; size_t n=len(arg); int m[9]; for(int i=0;i<arg;++i) m[i]=cls(k,s[i])!=0; std::vector<std::pair<int,int> > w; ref(m,arg,n,mode,99,w); const char* b=s.data();
 std::deque<R> g; size_t c=strtk::split_on_consecutive(n,T[k],md,b,b+arg,std::back_inserter(g)); CHECKM(c==w.size(),"number returned"); same(g,b,w); if (c>1) sym_reach("two");
 if (arg<=4) { const unsigned char* u=(const unsigned char*)b; std::deque<R> h; CHECK(strtk::split_on_consecutive(n,T[k],md,u,u+arg,std::back_inserter(h))==c&&h==g); std::deque<R> e; CHECK(strtk::split_on_consecutive(n,T[k],md,s,std::back_inserter(e))==c&&e==g); CHECK(strtk::split_on_consecutive(0,T[k],md,s,std::back_inserter(e))==0&&e==g); } }
JOB(splitn){ std::string s=txt(arg); int k=sym_choose(5),mode=sym_choose(2); fm::type md=mode?fm::atleast_n:fm::exactly_n; size_t n=len(arg),lim=sym_choose(4); int m[9]; for(int i=0;i<arg;++i) m[i]=cls(k,s[i])!=0; std::vector<std::pair<int,int> > w; ref(m,arg,n,mode,lim,w); const char* b=s.data();
 std::deque<R> g; size_t c=strtk::split_on_consecutive_n(lim,n,T[k],md,b,b+arg,std::back_inserter(g)); CHECKM(c==w.size(),"number returned"); same(g,b,w); if (c==lim&&lim>0) sym_reach("limit");
 if (arg<=4) { const unsigned char* u=(const unsigned char*)b; std::deque<R> h; CHECK(strtk::split_on_consecutive_n(lim,n,T[k],md,u,u+arg,std::back_inserter(h))==c&&h==g); std::deque<R> e; CHECK(strtk::split_on_consecutive_n(lim,n,T[k],md,s,std::back_inserter(e))==c&&e==g); } }
JOB(pred){ std::string s=txt(arg); Ge p; p.t=sym_u8(); size_t n=len(arg); int m[9]; for(int i=0;i<arg;++i) m[i]=p(s[i])!=0; std::vector<std::pair<int,int> > w; ref(m,arg,n,false,99,w); const char* b=s.data();
 std::deque<R> g; size_t c=strtk::split_on_consecutive(n,p,b,b+arg,std::back_inserter(g)); CHECKM(c==w.size(),"number returned"); same(g,b,w); if (c>1) sym_reach("two");
 if (arg<=4) { const unsigned char* u=(const unsigned char*)b; std::deque<R> h; CHECK(strtk::split_on_consecutive(n,p,u,u+arg,std::back_inserter(h))==c&&h==g); std::deque<R> e; CHECK(strtk::split_on_consecutive(n,p,s,std::back_inserter(e))==c&&e==g); CHECK(strtk::split_on_consecutive(0,p,s,std::back_inserter(e))==0&&e==g); } }
JOB(predn){ std::string s=txt(arg); Ge p; p.t=sym_u8(); size_t n=len(arg),lim=sym_choose(4); int m[9]; for(int i=0;i<arg;++i) m[i]=p(s[i])!=0; std::vector<std::pair<int,int> > w; ref(m,arg,n,false,lim,w); const char* b=s.data();
 std::deque<R> g; size_t c=strtk::split_on_consecutive_n(lim,n,p,b,b+arg,std::back_inserter(g)); CHECKM(c==w.size(),"number returned"); same(g,b,w); if (c==lim&&lim>0) sym_reach("limit");
 if (arg<=4) { const unsigned char* u=(const unsigned char*)b; std::deque<R> h; CHECK(strtk::split_on_consecutive_n(lim,n,p,u,u+arg,std::back_inserter(h))==c&&h==g); std::deque<R> e; CHECK(strtk::split_on_consecutive_n(lim,n,p,s,std::back_inserter(e))==c&&e==g); } }
// long texts, a run of members of almost the whole length with an arbitrary byte inside, several runs after it
JOB(far){ int n=arg; static const char* mem="7mqZx"; int k=sym_choose(5),mode=sym_choose(2); fm::type md=mode?fm::atleast_n:fm::exactly_n; std::string s(n,mem[k]); s[n/2]=(char)sym_u8(); s[n-1]=(char)sym_u8(); s[n-4]='-'; if (sym_choose(2)) s[1]=' '; std::vector<int> m(n); for(int i=0;i<n;++i) m[i]=cls(k,s[i])!=0; static const int ls[]={1,2,8,16}; int q=sym_choose(7); size_t r=q<4?ls[q]:q==4?n/2:q==5?n/2-2:n-4; std::vector<std::pair<int,int> > w; const char* b=s.data(); int form=sym_choose(4); std::deque<R> g;
   if (r<3&&n>65) r+=n/9;
   if (form==0) { ref(&m[0],n,r,mode,9999,w); size_t c=strtk::split_on_consecutive(r,T[k],md,b,b+n,std::back_inserter(g)); CHECKM(c==w.size(),"number returned"); same(g,b,w); }
   else if (form==1) { ref(&m[0],n,r,mode,3,w); size_t c=strtk::split_on_consecutive_n(3,r,T[k],md,s,std::back_inserter(g)); CHECKM(c==w.size(),"number returned"); same(g,b,w); }
   else if (form==2) { ref(&m[0],n,r,mode,1,w); R x=strtk::find_n_consecutive<const char*>(r,T[k],md,R(b,b+n)); if (w.empty()) CHECKM(x.first==b+n&&x.second==b+n,"an empty range at the end if there is none"); else CHECKM(x.first==b+w[0].first&&x.second==b+w[0].second,"the first run that is long enough"); int ok=1; for(size_t i=0;i<r;++i) ok&=m[i]; CHECKM(strtk::match_n_consecutive<const char*>(r,T[k],md,R(b,b+n))==(ok!=0),"starts with n members"); }
   else { Ge p; p.t=(unsigned char)mem[k]; for(int i=0;i<n;++i) m[i]=p(s[i])!=0; ref(&m[0],n,r,false,9999,w); size_t c=strtk::split_on_consecutive(r,p,b,b+n,std::back_inserter(g)); CHECKM(c==w.size(),"number returned"); same(g,b,w); } if (w.size()>1) sym_reach("two"); }
