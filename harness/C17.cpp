//@ job pat args=0..5,100..106,200..206,300..305 t=300
//@ job itr args=0..4,100..105,200..205,300..304
//@ job chr args=0..6
//@ job rem args=0..4,100..105,200..205
//@ job far args=17,33,64,65,129,257,1025
//@ bound every text of up to 6 bytes, every pattern of up to 3, every replacement of up to 4; character replacement in every text of up to 6 bytes
//@ bound texts of 17..1025 characters with up to five arbitrary ones, patterns of up to 33 and replacements of up to 40 characters
#include "common.h"
#include <cstring>
static int ceq(const char* a,const char* b,int n){ int r=1; for(int i=0;i<n;++i) r&=(a[i]==b[i]); return r; }
// reference: scan left to right, replacing each occurrence
static std::string ref(const std::string& s,const std::string& p,const std::string& r){ std::string o; if (p.empty()) return s; size_t i=0; while (i<s.size()) { if (i+p.size()<=s.size()&&ceq(s.data()+i,p.data(),p.size())) { o+=r; i+=p.size(); } else o+=s[i++]; } return o; }
static std::string ss(int n){ std::string s; for(int i=0;i<n;++i) s+=(char)sym_u8(); return s; }
static std::string repl(){ int n=sym_choose(5); std::string r; for(int i=0;i<n;++i) r+=(char)sym_u8(); return r; }
JOB(pat){ std::string s=ss(arg%100),p=ss(arg/100),r=repl(); std::string n("old content which is longer than needed"); if (sym_choose(2)) n.clear(); std::string s0=s,p0=p,r0=r; strtk::replace_pattern(s,p,r,n); std::string e=ref(s,p,r); CHECKM(n.size()==e.size(),"length of the result"); CHECKM(n==e,"every occurrence replaced, everything else kept"); CHECKM(s==s0&&p==p0&&r==r0,"inputs unchanged"); if (n.size()!=s.size()) sym_reach("rep"); }
JOB(itr){ std::string s=ss(arg%100),p=ss(arg/100),r=repl(); std::string e=ref(s,p,r); size_t c; std::string n; switch(sym_choose(3)){ case 0: c=strtk::replace_pattern(s.data(),s.data()+s.size(),p.data(),p.data()+p.size(),r.data(),r.data()+r.size(),std::back_inserter(n)); break; case 1: { std::list<char> l; c=strtk::replace_pattern(s.begin(),s.end(),p.begin(),p.end(),r.begin(),r.end(),std::back_inserter(l)); n.assign(l.begin(),l.end()); break; } default: { char* b=new char[e.size()]; memset(b,'#',e.size()); const char *sb=s.data(),*pb=p.data(),*rb=r.data(); c=strtk::replace_pattern(sb,sb+s.size(),pb,pb+p.size(),rb,rb+r.size(),b); n.assign(b,e.size()); delete[] b; } } CHECKM(c==e.size(),"size reported"); CHECKM(n==e,"every occurrence replaced, everything else kept"); }
JOB(chr){ std::string s=ss(arg); char a=(char)sym_u8(),b=(char)sym_u8(); std::string t=s; strtk::replace(a,b,t); CHECK(t.size()==s.size()); bool ok=true; for(int i=0;i<arg;++i) ok=ok&((t[i]==b)|(s[i]!=a))&((t[i]==s[i])|(s[i]==a)); CHECKM(ok,"exactly the given character replaced"); std::vector<short> v; for(int i=0;i<arg&&i<3;++i) v.push_back((short)s[i]); std::vector<short> w=v; strtk::replace((short)a,(short)b,w.begin(),w.end()); ok=true; for(size_t i=0;i<v.size();++i) ok=ok&((w[i]==b)|(v[i]!=a))&((w[i]==v[i])|(v[i]==a)); CHECKM(ok,"in any sequence"); }
JOB(rem){ std::string s=ss(arg%100),p=ss(arg/100),n("zz"); strtk::remove_pattern(s,p,n); CHECKM(n==ref(s,p,""),"every occurrence removed"); }
JOB(far){ int n=arg; std::string s=MIXED(n,"ababbc"); static const int PL[]={1,2,3,16,33}; int pl=PL[sym_choose(5)]; std::string p=pl<4?std::string("aba").substr(0,pl):s.substr(n/2-pl/4,pl<n/2?pl:n/4); if (pl<4) p[pl-1]=(char)sym_u8(); static const int RL[]={0,1,2,3,17,40}; std::string r(RL[sym_choose(6)],'R'); if (!r.empty()) r[r.size()-1]=(char)sym_u8(); std::string o("old"),e=ref(s,p,r); strtk::replace_pattern(s,p,r,o); CHECKM(o.size()==e.size(),"length of the result"); CHECKM(o==e,"every occurrence replaced, everything else kept"); std::string i; size_t c=strtk::replace_pattern(s.begin(),s.end(),p.begin(),p.end(),r.begin(),r.end(),std::back_inserter(i)); CHECKM(c==e.size()&&i==e,"every occurrence replaced, everything else kept"); if (r.empty()) { strtk::remove_pattern(s,p,o); CHECKM(o==e,"every occurrence removed"); } char x=(char)sym_u8(); std::string q=s; strtk::replace(x,'#',q); bool ok=true; for(int k=0;k<n;++k) ok=ok&(q[k]==(s[k]==x?'#':s[k])); CHECKM(ok,"exactly the given character replaced"); if (o.size()!=s.size()) sym_reach("rep"); }
