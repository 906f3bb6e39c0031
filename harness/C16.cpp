//@ job imatch args=0..5,100..105
//@ job iseq args=0..5
//@ job begins args=0..4,100..104,200..204,300..304
//@ job find args=0..5,100..106,200..206,300..305
//@ job all args=100..106,200..206,300..305
//@ job words args=4..9,17,40
//@ job pats args=4..9,16,17,33
//@ job whole args=1..9,16,17,33,64,65,129,257,1025
//@ job far args=16,17,33,64,65,129,257,1025
//@ bound every pair of texts of up to 5 bytes; prefixes, suffixes and searches with every pattern of up to 3 bytes in every text of up to 6 bytes
//@ bound sequences of up to 40 words; patterns of 4..33 characters that overlap themselves in texts three times as long, patterns as long as the text or nearly so, with one or two arbitrary characters
//@ bound texts of 16..1025 characters with a few arbitrary ones
//@ assume letters compare case-insensitively as in the "C" locale
#include "common.h"
#include <cstring>
static unsigned lo(char c){ unsigned u=(unsigned char)c; return u+(unsigned)(u-'A'<26u)*32; }
static int ieq(const char* a,const char* b,int n){ int r=1; for(int i=0;i<n;++i) r&=(lo(a[i])==lo(b[i])); return r; }
static int ceq(const char* a,const char* b,int n){ int r=1; for(int i=0;i<n;++i) r&=(a[i]==b[i]); return r; }
JOB(imatch){ int n=arg%100,d=arg/100; char* a=new char[n]; char* b=new char[n+d]; sym_bytes(a,n); sym_bytes(b,n+d); std::string s(a,n),t(b,n+d); bool r=strtk::imatch(s,t); CHECKM(r==(d==0&&ieq(a,b,n)),"equal up to letter case"); CHECK(strtk::imatch(t,s)==r); CHECK(strtk::imatch(s,s)); if (n<3) CHECK(strtk::imatch((const char*)a,(const char*)a+n,(const char*)b,(const char*)b+n+d)==r); if (r) sym_reach("im"); delete[] a; delete[] b; }
JOB(iseq){ char b[3][2]; sym_bytes(b,6); char k[2]; sym_bytes(k,2); std::string key(k,2); std::vector<std::string> v; for(int i=0;i<3;++i) v.push_back(std::string(b[i],2)); int w[3]; for(int i=0;i<3;++i) w[i]=ieq(b[i],k,2); int any=w[0]|w[1]|w[2]; bool r; 
   switch(arg){ case 0: r=strtk::imatch(key,v); break; case 1: r=strtk::imatch(key,std::list<std::string>(v.begin(),v.end())); break; case 2: { std::set<std::string> s(v.begin(),v.end()); r=strtk::imatch(key,s); break; } case 5: { std::multiset<std::string> s(v.begin(),v.end()); r=strtk::imatch(key,s); break; } case 3: { std::deque<std::string> s(v.begin(),v.end()); r=strtk::imatch(key,s); break; } case 4: default: { std::string* p=&v[0]; std::string* q=strtk::imatch(key,p,p+3); r=q!=p+3; if (r) CHECKM((q-p)==(w[0]?0:w[1]?1:2),"first equal element"); std::string* e=strtk::imatch(key,p,p); CHECK(e==p); } } CHECKM(r==(any!=0),"some element equal up to letter case"); }
JOB(begins){ int n=arg/100,m=arg%100; char* a=new char[n]; char* b=new char[m]; sym_bytes(a,n); sym_bytes(b,m); std::string p(a,n),s(b,m); int f=n<=m; const char* pb=a; const char* sb=b; switch(sym_choose(8)){ case 0: CHECKM(strtk::begins_with(p,s)==(f&&ceq(a,b,n)),"prefix"); break; case 1: CHECKM(strtk::ibegins_with(p,s)==(f&&ieq(a,b,n)),"prefix up to case"); break; case 2: CHECKM(strtk::ends_with(p,s)==(f&&ceq(a,b+m-n,n)),"suffix"); break; case 3: CHECKM(strtk::iends_with(p,s)==(f&&ieq(a,b+m-n,n)),"suffix up to case"); break;
   case 4: CHECKM(strtk::begins_with(pb,pb+n,sb,sb+m)==(f&&ceq(a,b,n)),"prefix"); break; case 5: CHECKM(strtk::ibegins_with(pb,pb+n,sb,sb+m)==(f&&ieq(a,b,n)),"prefix up to case"); break; case 6: CHECKM(strtk::ends_with(pb,pb+n,sb,sb+m)==(f&&ceq(a,b+m-n,n)),"suffix"); break; default: CHECKM(strtk::iends_with(pb,pb+n,sb,sb+m)==(f&&ieq(a,b+m-n,n)),"suffix up to case"); } delete[] a; delete[] b; }
JOB(find){ int n=arg/100,m=arg%100; char* a=new char[n]; char* b=new char[m]; sym_bytes(a,n); sym_bytes(b,m); std::string p(a,n),s(b,m); long ci=-1,cc=-1; for(int i=m-n;i>=0;--i){ int e=ieq(a,b+i,n),c=ceq(a,b+i,n); ci=e*(long)i+(1-e)*ci; cc=c*(long)i+(1-c)*cc; } if (sym_choose(2)) { std::size_t r=strtk::ifind(p,s); if (n>0) CHECKM((long)r==ci,"first occurrence up to case"); else CHECKM(r==0||r==std::string::npos,"empty pattern"); } else { std::size_t r=strtk::index_of(p,s); CHECKM((long)r==(n>0?cc:-1),"first occurrence"); } delete[] a; delete[] b; }
// every non-overlapping occurrence from left to right
JOB(all){ int n=arg/100,m=arg%100; char* a=new char[n]; char* b=new char[m]; sym_bytes(a,n); sym_bytes(b,m); std::string p(a,n),s(b,m); int ic=sym_choose(2); typedef std::pair<const char*,const char*> R; std::vector<R> v; std::size_t c; 
   switch(sym_choose(4)){ case 0: c=ic?strtk::ifind_all(p,s,v):strtk::find_all(p,s,v); break; case 1: { std::deque<R> d; c=ic?strtk::ifind_all(p,s,d):strtk::find_all(p,s,d); v.assign(d.begin(),d.end()); break; } case 2: { R o[8]; c=ic?strtk::ifind_all(p,s,&o[0]):strtk::find_all(p,s,&o[0]); v.assign(o,o+c); break; } default: { const char* q=a; const char* t=s.data(); c=ic?strtk::ifind_all(q,q+n,t,t+m,std::back_inserter(v)):strtk::find_all(q,q+n,t,t+m,v); } }
   CHECKM(c==v.size(),"count"); bool ok=true; int next=0; for(size_t k=0;k<v.size();++k){ int o=v[k].first-s.data(); ok=ok&&o>=next&&o+n<=m&&v[k].second-v[k].first==n; if (!ok) break; for(int i=next;i<o;++i) ok=ok&!(ic?ieq(a,b+i,n):ceq(a,b+i,n)); ok=ok&&(ic?ieq(a,b+o,n):ceq(a,b+o,n)); next=o+n; } if (ok) for(int i=next;i+n<=m;++i) ok=ok&!(ic?ieq(a,b+i,n):ceq(a,b+i,n)); CHECKM(ok,"occurrences in order, none skipped"); if (c>1) sym_reach("two"); delete[] a; delete[] b; }
JOB(far){ int n=arg; std::string a=MIXED(n,"aBcX.z@[`{"),b=a; for(int i=0;i<n;++i) if (i&&i!=n/2&&i!=n-1) b[i]=(unsigned char)(b[i]-'a')<26&&i%2?b[i]-32:b[i]; b[n/2]=(char)sym_u8(); const char* pa=a.data(); const char* pb=b.data(); int k=sym_choose(6); std::string big=b+b;
   switch(k){ case 0: CHECKM(strtk::imatch(a,b)==(ieq(pa,pb,n)!=0),"equal up to letter case"); b[n-1]=(char)sym_u8(); CHECKM(strtk::imatch(a,b)==(ieq(pa,b.data(),n)!=0),"equal up to letter case"); CHECK(!strtk::imatch(a,a+"x")&&!strtk::imatch(a+"x",a)); break;
     case 1: CHECKM(strtk::begins_with(a,a+"q")&&strtk::begins_with(a,big)==(ceq(pa,pb,n)!=0),"prefix"); CHECKM(strtk::ibegins_with(a,big)==(ieq(pa,pb,n)!=0),"prefix up to case"); CHECK(!strtk::begins_with(a+"q",a)&&!strtk::ibegins_with(a+"q",a)); break; case 2: CHECKM(strtk::ends_with(a,"q"+a)&&strtk::ends_with(a,big)==(ceq(pa,pb,n)!=0),"suffix"); CHECKM(strtk::iends_with(a,big)==(ieq(pa,pb,n)!=0),"suffix up to case"); CHECK(!strtk::ends_with("q"+a,a)&&!strtk::iends_with("q"+a,a)); break;
     case 3: { std::string p(4,'q'); p[1]=(char)sym_u8(); std::string t(n,'r'); int at=sym_choose(3); at=at==0?0:at==1?n/2:n-4; t.replace(at,4,"qQqq"); if (at>4) t.replace(at-3,3,"qqq"); long c=-1,d=-1; for(int i=n-4;i>=0;--i){ int e=ieq(p.data(),t.data()+i,4),f=ceq(p.data(),t.data()+i,4); c=e*(long)i+(1-e)*c; d=f*(long)i+(1-f)*d; } CHECKM((long)strtk::ifind(p,t)==c,"first occurrence up to case"); CHECKM((long)strtk::index_of(p,t)==d,"first occurrence"); break; }
     case 4: { std::vector<std::string> v(n,std::string("zz")); v[n-1]="aB"; v[n/2]="cc"; std::string key("ab"); key[1]=(char)sym_u8(); CHECKM(strtk::imatch(key,v)==((lo(key[1])=='b')!=0),"some element equal up to letter case"); break; }
     default: { std::string p("ab"); p[1]=(char)sym_u8(); std::string t; for(int i=0;i<n;++i) t+="abAbbc"[i%6]; int ic=sym_choose(2); std::vector<std::pair<const char*,const char*> > v; size_t c=ic?strtk::ifind_all(p,t,v):strtk::find_all(p,t,v); size_t e=0; bool ok=true; for(int i=0;i+2<=n;){ bool h=ic?ieq(p.data(),t.data()+i,2):ceq(p.data(),t.data()+i,2); if (h) { ok=ok&&e<v.size()&&v[e].first==t.data()+i&&v[e].second==t.data()+i+2; ++e; i+=2; } else ++i; } CHECKM(ok&&c==e&&v.size()==e,"occurrences in order, none skipped"); } } sym_reach("far"); }

// one word among many, in every kind of container
JOB(words){ int n=arg; std::vector<std::string> v; for(int i=0;i<n;++i) v.push_back(std::string(1+i%3,(char)('b'+i%20))+"Q"); int at=sym_choose(4); at=at==0?0:at==1?n/2:at==2?n-1:n-2; std::string w="Xy"; w[1]=(char)sym_u8(); v[at]=w; std::string key="x?"; key[1]=(char)sym_u8(); bool e=lo(w[1])==lo(key[1]),r; switch(sym_choose(6)){ case 0: r=strtk::imatch(key,v); break; case 1: r=strtk::imatch(key,std::list<std::string>(v.begin(),v.end())); break; case 2: r=strtk::imatch(key,std::deque<std::string>(v.begin(),v.end())); break; case 3: { std::set<std::string> s(v.begin(),v.end()); r=strtk::imatch(key,s); break; } case 4: { std::multiset<std::string> s(v.begin(),v.end()); r=strtk::imatch(key,s); break; } default: { std::string* p=&v[0]; std::string* q=strtk::imatch(key,p,p+n); r=q!=p+n; CHECKM(!r||q==p+at,"the first equal element"); } } CHECKM(r==e,"some element equal up to letter case"); sym_reach("words"); }
// patterns that overlap themselves
typedef std::pair<const char*,const char*> R16;
static void occ(const std::string& p,const std::string& t,int ic,const std::vector<R16>& v,size_t c){ size_t n=p.size(),e=0; bool ok=true; for(size_t i=0;i+n<=t.size();){ bool h=ic?ieq(p.data(),t.data()+i,n):ceq(p.data(),t.data()+i,n); if (h) { ok=ok&&e<v.size()&&v[e].first==t.data()+i&&v[e].second==t.data()+i+n; ++e; i+=n; } else ++i; } CHECKM(ok&&c==e&&v.size()==e,"occurrences in order, none skipped"); if (e>1) sym_reach("two"); }
JOB(pats){ int n=arg,k=sym_choose(3); std::string p; for(int i=0;i<n;++i) p+= k==0?'a':k==1?"ab"[i%2]:(i==0||i==n-1)?'a':'b'; if (k==2) p[n/2]='c'; std::string t; for(int i=0;i<n-1;++i) t+=p[i]; for(int r=0;r<2;++r) for(int i=k==0?0:k==1?(n%2?1:0):1;i<n;++i) t+=p[i]; int ic=sym_choose(2); if (ic) for(size_t i=0;i<t.size();i+=3) t[i]-=32; int at=sym_choose(4),m=t.size(); at=at==0?0:at==1?n-1:at==2?m-1:m/2; t[at]=(char)sym_u8(); std::vector<R16> v; size_t c;
   switch(sym_choose(3)){ case 0: c=ic?strtk::ifind_all(p,t,v):strtk::find_all(p,t,v); break; case 1: { std::deque<R16> d; c=ic?strtk::ifind_all(p,t,d):strtk::find_all(p,t,d); v.assign(d.begin(),d.end()); break; } default: { const char* q=p.data(); const char* b=t.data(); c=ic?strtk::ifind_all(q,q+n,b,b+m,std::back_inserter(v)):strtk::find_all(q,q+n,b,b+m,v); } } occ(p,t,ic,v,c);
   long fi=-1,fc=-1; for(int i=m-n;i>=0;--i){ int e=ieq(p.data(),t.data()+i,n),f=ceq(p.data(),t.data()+i,n); fi=e*(long)i+(1-e)*fi; fc=f*(long)i+(1-f)*fc; } CHECKM((long)strtk::ifind(p,t)==fi,"first occurrence up to case"); CHECKM((long)strtk::index_of(p,t)==fc,"first occurrence"); }
// patterns as long as the text, one shorter, one longer
JOB(whole){ int n=arg,d=sym_choose(4)-1; std::string t=mixed(n,"aBcX.z@[`{",10,n>2?2:0),p=t; if (d==1&&n>1) p=t.substr(1); else if (d==2&&n>1) p=t.substr(0,n-1); else if (d==-1) p=t+"a"; p[p.size()-1]=(char)sym_u8(); if (p.size()>4) p[p.size()/3]=(char)sym_u8(); int m=p.size(); long fi=-1,fc=-1; for(int i=n-m;i>=0;--i){ int e=ieq(p.data(),t.data()+i,m),f=ceq(p.data(),t.data()+i,m); fi=e*(long)i+(1-e)*fi; fc=f*(long)i+(1-f)*fc; } CHECKM((long)strtk::ifind(p,t)==fi,"first occurrence up to case"); CHECKM((long)strtk::index_of(p,t)==fc,"first occurrence"); bool fit=m<=n; const char* a=p.data(); const char* b=t.data();
   CHECKM(strtk::imatch(p,t)==(m==n&&ieq(a,b,n)),"equal up to letter case"); CHECKM(strtk::begins_with(p,t)==(fit&&ceq(a,b,m))&&strtk::begins_with(a,a+m,b,b+n)==(fit&&ceq(a,b,m)),"prefix"); CHECKM(strtk::ibegins_with(p,t)==(fit&&ieq(a,b,m))&&strtk::ibegins_with(a,a+m,b,b+n)==(fit&&ieq(a,b,m)),"prefix up to case"); if (fit) b+=n-m; CHECKM(strtk::ends_with(p,t)==(fit&&ceq(a,b,m)),"suffix"); CHECKM(strtk::iends_with(p,t)==(fit&&ieq(a,b,m)),"suffix up to case"); b=t.data(); int s=fit?n-m:0; CHECKM(strtk::ends_with(a,a+m,b,b+n)==(fit&&ceq(a,b+s,m)),"suffix"); CHECKM(strtk::iends_with(a,a+m,b,b+n)==(fit&&ieq(a,b+s,m)),"suffix up to case"); sym_reach("whole"); }
