//@ job all args=0..5 thorough=6 need=two
//@ job bounded args=0..5 thorough=6
//@ job forms args=0..4
//@ job sub args=0..4
//@ job long args=17,40,70,130,300
//@ bound texts of up to 5 (thorough 6) arbitrary characters, and of up to 300 with an arbitrary character at three places; bounds of 1 to 8 tokens; the whole match and the first nine sub-expressions
//@ assume the regular expression engine is a stand-in with boost's interface (its matches are the maximal runs of a class of characters, with nine sub-expressions); what is decided is how strtk iterates over the matches
// the stand-in takes the place of <boost/regex.hpp>
#define BOOST_RE_REGEX_HPP
#define BOOST_RE_REGEX_HPP_INCLUDED
#include <string>
#include <vector>
#include <utility>
namespace boost
{
   struct regex { std::string set; regex(){} explicit regex(const std::string& s):set(s){} bool in(char c) const { int h=0; for(size_t i=0;i<set.size();++i) h|=set[i]==c; return h!=0; } };
   template <typename It> struct sub_match { It first,second; bool matched; };
   template <typename It> struct match_results { sub_match<It> s[10]; sub_match<It> operator[](int i) const { return s[i]; } };
   // sub-expression k (1..9): the first k characters of the match if it has that many, otherwise nothing at its end
   template <typename It> struct regex_iterator { It b,e; const regex* r; bool done; match_results<It> m; regex_iterator():r(0),done(true){} regex_iterator(It x,It y,const regex& g):b(x),e(y),r(&g),done(false){ step(); }
      void step(){ while(b!=e&&!r->in(*b)) ++b; if (b==e) { done=true; return; } It f=b; while(b!=e&&r->in(*b)) ++b; m.s[0].first=f; m.s[0].second=b; for(int k=1;k<10;++k){ const bool h=(b-f)>=k; m.s[k].first=h?f:b; m.s[k].second=h?f+k:b; } }
      const match_results<It>& operator*() const { return m; } const match_results<It>* operator->() const { return &m; } regex_iterator& operator++(){ step(); return *this; } regex_iterator operator++(int){ regex_iterator t(*this); step(); return t; } bool operator==(const regex_iterator& o) const { return done==o.done&&(done||b==o.b); } bool operator!=(const regex_iterator& o) const { return !operator==(o); } };
   typedef regex_iterator<std::string::const_iterator> sregex_iterator; typedef regex_iterator<const char*> cregex_iterator;
}
#define strtk_enable_regex
#include "common.h"
typedef std::string::const_iterator SI; typedef std::vector<std::pair<SI,SI> > R; typedef std::vector<std::pair<int,int> > V;
static const char* cls="ab";
static V ref(const std::string& s,int mode){ V v; for(size_t i=0;i<s.size();){ if (s[i]!='a'&&s[i]!='b') { ++i; continue; } size_t j=i; while(j<s.size()&&(s[j]=='a'||s[j]=='b')) ++j; if (mode==0) v.push_back(std::make_pair((int)i,(int)j)); else if ((int)(j-i)>=mode) v.push_back(std::make_pair((int)i,(int)i+mode)); else v.push_back(std::make_pair((int)j,(int)j)); i=j; } return v; }
static void same(const R& r,const std::string& s,const V& w,size_t n,size_t cap=~size_t(0)){ const size_t k=std::min(w.size(),cap); CHECKM(n==k,"number of tokens"); CHECKM(r.size()==k,"every match once, up to the bound"); for(size_t i=0;i<k;++i) CHECKM(r[i].first-s.begin()==w[i].first&&r[i].second-s.begin()==w[i].second,"the match"); if (k>1) sym_reach("two"); }
static std::string text(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
JOB(all){ const std::string s=text(arg); R r; const size_t n=strtk::split_regex(boost::regex(cls),s.begin(),s.end(),std::back_inserter(r)); same(r,s,ref(s,0),n); }
JOB(bounded){ const std::string s=text(arg); const size_t m=1+sym_choose(arg+3); R r; const size_t n=strtk::split_regex_n(boost::regex(cls),s.begin(),s.end(),m,std::back_inserter(r)); same(r,s,ref(s,0),n,m); }
static const strtk::regex_match_mode::type modes[]={strtk::regex_match_mode::match_all,strtk::regex_match_mode::match_1,strtk::regex_match_mode::match_2,strtk::regex_match_mode::match_3,strtk::regex_match_mode::match_4,strtk::regex_match_mode::match_5,strtk::regex_match_mode::match_6,strtk::regex_match_mode::match_7,strtk::regex_match_mode::match_8,strtk::regex_match_mode::match_9};
static void forms(const std::string& s,int k){ const std::string c(cls); const boost::regex x(c); const strtk::regex_match_mode::type m=modes[k]; const V w=ref(s,k); R r; const size_t cap=2; switch(sym_choose(8)){ case 0: { size_t n=strtk::split_regex(x,s,std::back_inserter(r),m); same(r,s,w,n); break; }
   case 1: { size_t n=strtk::split_regex(c,s,std::back_inserter(r),m); same(r,s,w,n); break; } case 2: { size_t n=strtk::split_regex(c,s.begin(),s.end(),std::back_inserter(r),m); same(r,s,w,n); break; } case 3: { size_t n=strtk::split_regex(x,s.begin(),s.end(),std::back_inserter(r),m); same(r,s,w,n); break; }
   case 4: { size_t n=strtk::split_regex_n(x,s,cap,std::back_inserter(r),m); same(r,s,w,n,cap); break; } case 5: { size_t n=strtk::split_regex_n(c,s,cap,std::back_inserter(r),m); same(r,s,w,n,cap); break; } case 6: { size_t n=strtk::split_regex_n(c,s.begin(),s.end(),cap,std::back_inserter(r),m); same(r,s,w,n,cap); break; } default: { size_t n=strtk::split_regex_n(x,s.begin(),s.end(),cap,std::back_inserter(r),m); same(r,s,w,n,cap); } } }
JOB(forms){ forms(text(arg),sym_choose(4)); }
JOB(sub){ std::string s("abababababa-ab-aaa-"); s[arg*4]=(char)sym_u8(); forms(s,sym_choose(10)); }
JOB(long){ std::string s=MIXED(arg,"ab--a.bb"); R r; switch(sym_choose(2)){ case 0: { size_t n=strtk::split_regex(boost::regex(cls),s.begin(),s.end(),std::back_inserter(r)); same(r,s,ref(s,0),n); break; } default: { const size_t m=(size_t)std::max(1,arg/4-sym_choose(3)); size_t n=strtk::split_regex_n(std::string(cls),s,m,std::back_inserter(r)); same(r,s,ref(s,0),n,m); } } 
   const char* b=s.data(); std::vector<std::pair<const char*,const char*> > p; size_t n=strtk::split_regex(boost::regex(cls),b,b+s.size(),std::back_inserter(p)); const V w=ref(s,0); CHECKM(n==w.size()&&p.size()==n,"every match once"); for(size_t i=0;i<n;++i) CHECKM(p[i].first-b==w[i].first&&p[i].second-b==w[i].second,"the match"); }
