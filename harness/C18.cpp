//@ job rm args=0..6
//@ job cons args=0..6
//@ job dup args=0..5
//@ job trail args=0..6
//@ job lead args=0..6
//@ job empt args=0..3
//@ job emptn args=19,40,70,130,300
//@ job wild args=0..6
//@ job sets args=5,15,16,17,18,33,64,65,129,200,222
//@ job far args=17,33,64,65,129,257,1025
//@ bound every text of up to 6 bytes with every single character or predicate, every text of up to 5 (trailing removal: 3) bytes with every two-character set; sequences of up to 3 strings
//@ bound sets of 5..222 characters, as text or C string, with texts made of members at any place of the set, non-members and one arbitrary byte at each end
//@ bound texts of 17..1025 characters (trimming up to 3000) with a few arbitrary ones
#include "common.h"
#include <cstring>
static std::string ss(int n){ std::string s; for(int i=0;i<n;++i) s+=(char)sym_u8(); return s; }
struct lower { bool operator()(unsigned char c) const { return (unsigned)c-'a'<26u; } };
static std::string ref_rm(const std::string& s,char a,char b){ std::string o; for(size_t i=0;i<s.size();++i) if (!((s[i]==a)|(s[i]==b))) o+=s[i]; return o; }
JOB(rm){ std::string s=ss(arg),t=s; char c=(char)sym_u8(); int k5=sym_choose(5); if (arg>5&&k5==1) k5=0; switch(k5){ case 0: strtk::remove_inplace(c,t); CHECKM(t==ref_rm(s,c,c),"the character is removed, the rest kept"); break; case 1: { char d=(char)sym_u8(); char k[2]={c,d}; strtk::remove_inplace(strtk::multiple_char_delimiter_predicate(k,k+2),t); CHECKM(t==ref_rm(s,c,d),"the set is removed"); break; }
   case 2: { std::vector<char> v(s.begin(),s.end()); size_t n=strtk::remove_inplace(strtk::single_delimiter_predicate<char>(c),v); CHECK(n+v.size()==s.size()); CHECKM(std::string(v.begin(),v.end())==ref_rm(s,c,c),"vector"); break; } case 3: { char* b=new char[arg]; memcpy(b,s.data(),arg); size_t n=strtk::remove_inplace(strtk::single_delimiter_predicate<char>(c),b,b+arg); CHECKM(std::string(b,arg-n)==ref_rm(s,c,c),"range"); delete[] b; break; } default: { std::deque<char> v(s.begin(),s.end()); std::string e=ref_rm(s,c,c); size_t n=strtk::remove_inplace(strtk::single_delimiter_predicate<char>(c),v); CHECK(n==s.size()-e.size()&&std::string(v.begin(),v.end())==e); } } }
// runs of characters in the set shrink to their first character
static std::string ref_cons(const std::string& s,char a,char b){ std::string o; for(size_t i=0;i<s.size();++i){ bool in=(s[i]==a)|(s[i]==b); bool pv=i>0&&((s[i-1]==a)|(s[i-1]==b)); if (!(in&pv)) o+=s[i]; } return o; }
static std::string ref_same(const std::string& s){ std::string o; for(size_t i=0;i<s.size();++i) if (i==0||s[i]!=s[i-1]) o+=s[i]; return o; }
JOB(cons){ std::string s=ss(arg),t=s; char c=(char)sym_u8(); int k8=sym_choose(8); if (arg>5&&(k8==1||k8==2)) k8=0; switch(k8){ case 0: strtk::remove_consecutives_inplace(c,t); CHECKM(t==ref_cons(s,c,c),"runs of one character"); break; case 1: { char d=(char)sym_u8(); std::string k; k+=c; k+=d; strtk::remove_consecutives_inplace(k,t); CHECKM(t==ref_cons(s,c,d),"runs of a set"); break; } case 2: { char d=(char)sym_u8(); sym_assume(c!=0&&d!=0); char k[3]={c,d,0}; strtk::remove_consecutives_inplace((const char*)k,t); CHECKM(t==ref_cons(s,c,d),"runs of a set"); break; }
   case 3: strtk::remove_consecutives_inplace(strtk::single_delimiter_predicate<char>(c),t); CHECKM(t==ref_cons(s,c,c),"runs by predicate"); break; case 4: strtk::remove_consecutives_inplace(t); CHECKM(t==ref_same(s),"runs of equal characters"); break; case 5: { std::vector<char> v(s.begin(),s.end()); strtk::remove_consecutives_inplace(v); CHECKM(std::string(v.begin(),v.end())==ref_same(s),"vector"); break; } case 6: { char* b=new char[arg]; memcpy(b,s.data(),arg); size_t n=strtk::remove_consecutives_inplace(strtk::single_delimiter_predicate<char>(c),b,b+arg); CHECKM(std::string(b,arg-n)==ref_cons(s,c,c),"range"); delete[] b; break; } default: { char* b=new char[arg]; memcpy(b,s.data(),arg); size_t n=strtk::remove_consecutives_inplace(b,b+arg); CHECKM(std::string(b,arg-n)==ref_same(s),"range"); delete[] b; } } sym_reach("cons"); }
JOB(dup){ std::string s=ss(arg); if (arg>4) sym_assume((unsigned char)(s[0]-'a')<4); std::string o; for(int i=0;i<arg;++i){ int seen=0; for(int j=0;j<i;++j) seen|=(s[j]==s[i]); if (!seen) o+=s[i]; } std::string s0=s; CHECKM(strtk::remove_duplicates(s)==o,"the first of each character is kept in order"); CHECK(s==s0); }
static int in2(char x,char a,char b){ return (x==a)|(x==b); }
JOB(trail){ std::string s=ss(arg),t=s; char c=(char)sym_u8(),d=c; int k=sym_choose(5); if ((k==1||k==2)&&arg>3) k=0; if (k==1||k==2) d=(char)sym_u8(); switch(k){ case 0: strtk::remove_trailing(c,t); break; case 1: { std::string m; m+=c; m+=d; strtk::remove_trailing(m,t); break; } case 2: { sym_assume(c!=0&&d!=0); char m[3]={c,d,0}; strtk::remove_trailing((const char*)m,t); break; } case 3: strtk::remove_trailing(strtk::single_delimiter_predicate<char>(c),t); break; default: { size_t n=strtk::remove_trailing(strtk::single_delimiter_predicate<char>(c),s.begin(),s.end()); t.resize(arg-n); } } CHECK(t.size()<=s.size()); bool ok=t==s.substr(0,t.size()); for(int i=t.size();i<arg;++i) ok=ok&in2(s[i],c,d); CHECKM(ok,"only trailing characters of the set go"); CHECKM(t.empty()||!in2(t[t.size()-1],c,d),"all of them go"); sym_reach("trail"); }
JOB(lead){ std::string s=ss(arg),t=s; char c=(char)sym_u8(),d=c; int k=sym_choose(6); if (k==1||k==2||k==5) d=(char)sym_u8(); int hi=arg; switch(k){ case 0: strtk::remove_leading(c,t); break; case 1: { std::string m; m+=c; m+=d; strtk::remove_leading(m,t); break; } case 2: { sym_assume(c!=0&&d!=0); char m[3]={c,d,0}; strtk::remove_leading((const char*)m,t); break; } case 3: strtk::remove_leading(strtk::single_delimiter_predicate<char>(c),t); break; case 4: { char* b=new char[arg]; memcpy(b,s.data(),arg); size_t n=strtk::remove_leading(strtk::single_delimiter_predicate<char>(c),b,b+arg); t.assign(b,arg-n); delete[] b; break; } default: { std::string m; m+=c; m+=d; strtk::remove_leading_trailing(m,t); while (hi>0&&in2(s[hi-1],c,d)) --hi; } }
   int lo=0; while (lo<hi&&in2(s[lo],c,d)) ++lo; CHECKM(t==s.substr(lo,hi-lo),"exactly the leading (and trailing) characters of the set go"); }
JOB(empt){ std::string v[3]; for(int i=0;i<3;++i) { int n=sym_choose(2); v[i]=ss(n); } std::vector<std::string> e; for(int i=0;i<3;++i) if (!v[i].empty()) e.push_back(v[i]); if (arg==0) { std::vector<std::string> c(v,v+3); strtk::remove_empty_strings(c); CHECK(c==e); } else if (arg==1) { std::list<std::string> c(v,v+3); strtk::remove_empty_strings(c); CHECK(std::vector<std::string>(c.begin(),c.end())==e); } else if (arg==2) { std::set<std::string> c(v,v+3); strtk::remove_empty_strings(c); CHECK(c==std::set<std::string>(e.begin(),e.end())); } else { std::multiset<std::string> c(v,v+3); strtk::remove_empty_strings(c); CHECK(c==std::multiset<std::string>(e.begin(),e.end())); } }
JOB(wild){ std::string s=ss(arg),t=s; lower p; int k=sym_choose(4); std::string o; if (k==0) { strtk::remove_inplace(p,t); for(int i=0;i<arg;++i) if (!p(s[i])) o+=s[i]; } else if (k==1) { strtk::remove_consecutives_inplace(p,t); for(int i=0;i<arg;++i) if (!(p(s[i])&(i>0&&p(s[i-1])))) o+=s[i]; } else if (k==2) { strtk::remove_leading(p,t); int i=0; while(i<arg&&p(s[i])) ++i; o=s.substr(i); } else { strtk::remove_trailing(p,t); int i=arg; while(i>0&&p(s[i-1])) --i; o=s.substr(0,i); } CHECKM(t==o,"by any predicate"); }
JOB(far){ int n=arg; std::string s=MIXED(n,"aabbbc ."),t=s; char c="a\xE9"[sym_choose(2)]; if (c!='a') c=(char)sym_u8(); std::string m; m+=c; m+='b'; switch(sym_choose(9)){ case 0: strtk::remove_inplace(c,t); CHECKM(t==ref_rm(s,c,c),"the character is removed, the rest kept"); break; case 1: strtk::remove_inplace(strtk::multiple_char_delimiter_predicate(m),t); CHECKM(t==ref_rm(s,c,'b'),"the set is removed"); break; case 2: strtk::remove_consecutives_inplace(c,t); CHECKM(t==ref_cons(s,c,c),"runs of one character"); break; case 3: strtk::remove_consecutives_inplace(m,t); CHECKM(t==ref_cons(s,c,'b'),"runs of a set"); break; case 4: strtk::remove_consecutives_inplace(t); CHECKM(t==ref_same(s),"runs of equal characters"); break;
   case 5: { s=std::string(n,'b')+s.substr(n/3)+std::string(n,'b'); s[n-1]=(char)sym_u8(); t=s; strtk::remove_leading(m,t); size_t lo=0; while(lo<s.size()&&in2(s[lo],c,'b')) ++lo; CHECKM(t==s.substr(lo),"exactly the leading characters of the set go"); break; } case 6: { s=s.substr(n/3)+std::string(n,'b'); s[s.size()-n]=(char)sym_u8(); t=s; strtk::remove_trailing(m,t); size_t hi=s.size(); while(hi&&in2(s[hi-1],c,'b')) --hi; CHECKM(t==s.substr(0,hi),"exactly the trailing characters of the set go"); break; }
   case 7: { std::vector<std::string> v; size_t k=0; for(int i=0;i<n;++i){ v.push_back(i%3?std::string("x"):std::string()); if (i%3) ++k; } strtk::remove_empty_strings(v); CHECKM(v.size()==k,"empty strings removed"); for(size_t i=0;i<k;++i) CHECK(v[i]=="x"); break; } default: { for(int i=0;i<n;++i) t[i]=(char)(i*7); t[n/2]=(char)sym_u8(); std::string o; for(int i=0;i<n;++i){ int seen=0; for(int j=0;j<i&&!seen;++j) if (j!=n/2&&i!=n/2) seen=t[j]==t[i]; if (i>256) { seen=1; if (i-256!=n/2) ; else continue; } if (i==n/2||n>256) break; if (!seen) o+=t[i]; } if (n<257) { std::string r=strtk::remove_duplicates(t); bool ok=r.substr(0,o.size())==o; CHECKM(ok,"the first of each character is kept in order"); for(size_t i=1;i<r.size();++i) CHECK(r[i]!=r[i-1]); } } } sym_reach("far"); }

// sets of many characters: the members are the arg characters from '!' on
static bool mem(char x,int n){ return (unsigned)(unsigned char)x-0x21u<(unsigned)n; }
JOB(sets){ int n=arg; std::string m; for(int i=0;i<n;++i) m+=(char)(0x21+i); int pick[]={0,1,n/2,14,15,16,31,32,63,64,127,128,n-2,n-1}; int pi=pick[sym_choose(14)]; if (pi<0||pi>=n) pi=n-1; char a=m[pi],z=m[n-1-pi]; char e0=(char)sym_u8(),e1=(char)sym_u8();
   std::string s; s+=e0; s+=a; s+=a; s+=z; s+="\x02 "; s+=a; s+=z; s+='\x03'; s+=z; s+=a; s+=a; s+=e1; std::string t=s,o; bool cs=sym_choose(2); const char* c=m.c_str(); size_t lo=0,hi=s.size();
   switch(sym_choose(5)) { case 0: strtk::remove_inplace(strtk::multiple_char_delimiter_predicate(m),t); for(size_t i=0;i<s.size();++i) if (!mem(s[i],n)) o+=s[i]; break;
   case 1: if (cs) strtk::remove_consecutives_inplace(c,t); else strtk::remove_consecutives_inplace(m,t); for(size_t i=0;i<s.size();++i) if (!(i&&mem(s[i],n)&&mem(s[i-1],n))) o+=s[i]; break;
   case 2: if (cs) strtk::remove_trailing(c,t); else strtk::remove_trailing(m,t); while(hi&&mem(s[hi-1],n)) --hi; o=s.substr(0,hi); break;
   case 3: if (cs) strtk::remove_leading(c,t); else strtk::remove_leading(m,t); while(lo<hi&&mem(s[lo],n)) ++lo; o=s.substr(lo); break;
   default: strtk::remove_leading_trailing(m,t); while(hi&&mem(s[hi-1],n)) --hi; while(lo<hi&&mem(s[lo],n)) ++lo; o=s.substr(lo,hi-lo); }
   CHECKM(t==o,"every character of the set counts, however many there are"); sym_reach("sets"); }

JOB(emptn){ int n=arg; std::vector<std::string> v,e; for(int i=0;i<n;++i){ std::string t; if (i%3==1||i==n-1||i<n/4) t=""; else t=std::string(1,(char)('a'+i%26)); if (i==n/2||i==n-2) { t=""; if (sym_choose(2)) t+=(char)sym_u8(); } v.push_back(t); if (!t.empty()) e.push_back(t); } switch(sym_choose(4)){ case 0: { std::vector<std::string> c(v); strtk::remove_empty_strings(c); CHECKM(c==e,"exactly the empty strings go"); break; } case 1: { std::list<std::string> c(v.begin(),v.end()); strtk::remove_empty_strings(c); CHECKM(std::vector<std::string>(c.begin(),c.end())==e,"exactly the empty strings go"); break; } case 2: { std::set<std::string> c(v.begin(),v.end()),x(e.begin(),e.end()); strtk::remove_empty_strings(c); CHECKM(c==x,"exactly the empty strings go"); break; } default: { std::multiset<std::string> c(v.begin(),v.end()),x(e.begin(),e.end()); strtk::remove_empty_strings(c); CHECKM(c==x,"exactly the empty strings go"); } } }
