//@ job expect args=0..4
//@ job like args=0..7
//@ job range args=0..4,10..12,20..23
//@ job trim args=0..4,10..14,20..24 thorough=5,15,25 t=400
//@ job letters args=0..5
//@ job fill args=0..7
//@ job trunc args=0..5,10..15
//@ job decimal args=0..3,10..13,20..23,30..33,101,112,203 thorough=131,222 t=200
//@ job decsafe args=0..5 t=200
//@ job sink args=0..7
//@ job count args=0..5
//@ job ignore args=0..4
//@ job far args=0..6
//@ job again args=0..9
//@ bound tokens of up to 5 symbolic bytes inside lines of three fields; ranges with every low and high bound; every trimming set of up to 2 bytes; arrays of 4 bytes; decimals of up to 3+3 digits with every value; lists of up to 5 items
//@ bound an adaptor used for two tokens in a row, the first of them accepted or not
//@ bound tokens of 9..129 characters with a few arbitrary ones; lists of up to 65 items
#include "common.h"
#include "ref_int.h"
#include "ref_tokens.h"
#include <queue>
#include <stack>
static std::string txt(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
static std::string field(int n){ std::string s=txt(n); for(int i=0;i<n;++i) sym_assume((s[i]!='|')&(s[i]!=0)); return s; }
// parses "12|<token>|34" with the adaptor in the middle; the neighbours must get their values
template <typename A> static bool line(const std::string& s,A& a){ int x=0,y=0; std::string t="12|"+s+"|34"; bool ok=strtk::parse(t,"|",x,a,y); CHECKM(x==12,"field before"); if (ok) CHECKM(y==34,"field after"); return ok; }
template <typename A> static bool line(const std::string& s,A& a,int form){ if (!form) return line(s,a); int x=0,y=0; std::string t="12|"+s+"|34",dl("|"); const unsigned char* p=(const unsigned char*)t.data(); bool ok=strtk::parse(p,p+t.size(),dl,x,a,y); CHECKM(x==12,"field before"); if (ok) CHECKM(y==34,"field after"); return ok; }
static char low(char c){ return (char)(c+((unsigned char)(c-'A')<26?32:0)); }
static int rm(const char* p,int n,const char* t,int m){ int M[12][12]; for(int i=n;i>=0;--i) for(int j=m;j>=0;--j){ if (i==n) { M[i][j]=(j==m); continue; } int st=(p[i]=='*'),q=(p[i]=='?'); int v=(st|q)&M[i+1][j]; if (j<m) { v|=(st&M[i][j+1]); v|=(q&M[i+1][j+1]); v|=((st|q)^1)&(p[i]==t[j])&M[i+1][j+1]; } M[i][j]=v; } return M[0][0]; }
JOB(expect){ std::string e=txt(arg),f=field(std::max(1,arg)),g=field(arg+1); int eq=(e.size()==f.size()),ie=eq; for(int i=0;i<arg;++i){ eq&=(e[i]==f[i]); ie&=(low(e[i])==low(f[i])); } CHECKM(line(f,strtk::expect(e).ref())==(eq!=0),"accepted exactly if equal"); CHECKM(line(f,strtk::iexpect(e).ref())==(ie!=0),"accepted exactly if equal up to case"); CHECKM(!line(g,strtk::expect(e).ref())&&!line(g,strtk::iexpect(e).ref()),"longer"); strtk::details::expect_impl x=strtk::expect("zz"); x.set_value(f); CHECK(line(f,x)); strtk::details::iexpect_impl y=strtk::iexpect("zz"); y.set_value(f); CHECK(line(f,y)); if (eq) sym_reach("equal"); }
JOB(like){ static const char* pt[]={"a*b","?a","*","a??","x?*y","**a","ab","?*?"}; std::string p(pt[arg]); int n=1+sym_choose(4); std::string f=field(n); bool m=rm(p.data(),p.size(),f.data(),n)!=0; CHECKM(line(f,strtk::like(p).ref())==m,"accepted exactly if the pattern matches"); strtk::details::like_impl l=strtk::like("#"); l.set_pattern(p); CHECK(line(f,l)==m); }
JOB(range){ int n=arg%10; if (arg<10) { int lo=sym<int>(),hi=sym<int>(),t=-9,v=0; if (n==0) { std::string e; CHECK(!strtk::string_to_type_converter(e,strtk::inrange(t,lo,hi).ref())&&t==-9); return; } std::string s=field(n); bool num=ref_int<int>(s.data(),n,v); bool in=num&&lo<=v&&v<=hi; CHECKM(line(s,strtk::inrange(t,lo,hi).ref(),sym_choose(2))==in,"accepted exactly if within the bounds"); CHECKM(t==(in?v:-9),"stored exactly if accepted"); if (in) sym_reach("in"); strtk::details::inrange_impl<int> r=strtk::inrange(t,1,0); r.set_low_hi(lo,hi); CHECK(line(s,r)==in); }
   else if (arg<20) { std::string s=field(n+1),lo=txt(2),hi=txt(1),t="#"; bool in=!(s<lo)&&!(hi<s); CHECKM(line(s,strtk::inrange(t,lo,hi).ref())==in,"texts in lexicographic order"); CHECK(t==(in?s:"#")); }
   else { static const char* d[]={"nan","0.5","inf","-1"}; double t=-9; bool in=line(std::string(d[n]),strtk::inrange(t,0.0,1.0).ref()); CHECKM(in==(n==1),"not a number is in no range"); CHECK(in?t==0.5:t==-9); unsigned char c=0; unsigned char lo=sym_u8(),hi=sym_u8(); std::string s=field(1); bool b=line(s,strtk::inrange(c,lo,hi).ref()); CHECK(b==(lo<=(unsigned char)s[0]&&(unsigned char)s[0]<=hi)); } }
JOB(trim){ int n=arg%10,mode=arg/10; std::string r=txt(1+sym_choose(2)),s; if (n) s=field(n); std::string t="#"; bool ok; int a=0,b=n; for(;mode!=2&&a<b;++a) if (r.find(s[a])==std::string::npos) break; for(;mode!=1&&b>a;--b) if (r.find(s[b-1])==std::string::npos) break; std::string e=s.substr(a,b-a); if (n==0) { CHECK(strtk::string_to_type_converter(s,strtk::trim(r,t).ref())&&t.empty()); return; } if (mode==0) ok=line(s,strtk::trim(r,t).ref()); else if (mode==1) ok=line(s,strtk::trim_leading(r,t).ref()); else ok=line(s,strtk::trim_trailing(r,t).ref()); CHECKM(ok&&t==e,"exactly the ends are removed"); 
   int v=-9,w=0; bool num=ref_int<int>(e.data(),e.size(),w); if (mode==0) ok=line(s,strtk::trim(r,v).ref()); else if (mode==1) ok=line(s,strtk::trim_leading(r,v).ref()); else ok=line(s,strtk::trim_trailing(r,v).ref()); CHECKM(ok==num,"number inside the trimmed text"); if (num) CHECK(v==w); }
JOB(letters){ std::string s=arg?field(arg):std::string(),a="#",b="#"; if (arg==0) { CHECK(strtk::string_to_type_converter(s,strtk::as_lcase(a).ref())&&a.empty()); CHECK(strtk::string_to_type_converter(s,strtk::as_ucase(b).ref())&&b.empty()); return; } CHECK(line(s,strtk::as_lcase(a).ref())&&line(s,strtk::as_ucase(b).ref())); int ok=(a.size()==s.size())&(b.size()==s.size()); for(int i=0;i<arg;++i){ ok&=(a[i]==low(s[i])); ok&=(b[i]==(char)(s[i]-((unsigned char)(s[i]-'a')<26?32:0))); } CHECKM(ok,"letters converted"); }
JOB(fill){ std::string s=arg?field(arg):std::string(); unsigned char* p=new unsigned char[4]; char q[4]={'x','x','x','x'}; std::fill_n(p,4,'#'); typedef unsigned char A4[4]; std::string z("abcd"),w("ab"); if (arg==0) { CHECK(!strtk::string_to_type_converter(s,strtk::fill_array(*(A4*)p).ref())); delete[] p; return; } bool e=arg==4; CHECKM(line(s,strtk::fill_array(*(A4*)p).ref())==e,"exactly the size of the array"); for(int i=0;i<4;++i) CHECKM(p[i]==(e?(unsigned char)s[i]:'#'),"bytes of the token"); CHECK(line(s,strtk::fill_array(q).ref())==e); for(int i=0;i<4;++i) CHECK(q[i]==(e?s[i]:'x')); CHECK(line(s,strtk::fill_array(z).ref())==e); CHECK(z==(e?s:"abcd")); bool e2=arg==2; CHECK(line(s,strtk::fill_array(w,2).ref())==e2); CHECK(w==(e2?s:"ab")); std::fill_n(p,4,'#'); strtk::details::fill_array_impl f=strtk::fill_array(q,4); f.set(p,3); CHECK(line(s,f)==(arg==3)); CHECK(p[3]=='#'); f.set_data(q).set_size(1); CHECK(line(s,f)==(arg==1)); if (arg==1) CHECK(q[0]==s[0]); delete[] p; }
JOB(trunc){ int n=arg%10,t=-9,v=0; std::string s=n?field(n):std::string(); strtk::truncated_int<int> ti; if (arg<10) { size_t d=s.find('.'); std::string e=s.substr(0,d); bool num=ref_int<int>(e.data(),e.size(),v); bool ok=n?line(s,ti(t)):strtk::string_to_type_converter(s,ti(t)); CHECKM(ok==num,"the text before the point is the number"); if (num) CHECKM(t==v,"value before the point"); if (num&&d<s.size()) sym_reach("point"); } else { int k=sym_choose(4); bool fits=n>k; bool num=false; if (fits) num=ref_int<int>(s.data(),n-k-1,v); bool ok=n?line(s,ti(t).fractional_size(k)):strtk::string_to_type_converter(s,ti(t).fractional_size(k)); CHECKM(ok==num,"the text before the fraction of the given size is the number"); if (num) CHECK(t==v); std::string u="56.7"; int q=0; CHECK(strtk::string_to_type_converter(u,ti(q).fractional_unknown_size())&&q==56); strtk::truncated_int<int> none; CHECK(!strtk::string_to_type_converter(u,none)); } }
JOB(decimal){ bool neg=arg>=100; int ni=arg/10%10,nf=arg%10; if (ni+nf==0) return; std::string s; int plus=neg?0:sym_choose(2); if (neg) s+='-'; else if (plus) s+='+'; long long num=0; for(int i=0;i<ni+nf;++i){ char c=(char)sym_u8(); sym_assume((c>='0')&(c<='9')); if (i==ni) s+='.'; s+=c; num=num*10+(c-'0'); } double d=-7.25; strtk::decimal_sink<double> ds(3,3); bool ok=strtk::string_to_type_converter(s,ds(d)); CHECKM(ok,"a decimal is accepted"); if (neg) d=-d; sym_close(d,num,-nf,1e-15,"value of the decimal"); sym_observe(ok); sym_reach("value"); }
JOB(decsafe){ char* p=new char[arg]; if (arg) sym_bytes(p,arg); double d=-7.25; strtk::decimal_sink<double> ds(2,2),none(2,2); bool ok=ds(d)((const char*)p,(const char*)p+arg); if (!ok) CHECKM(d==-7.25,"rejected text changes nothing"); int i=0; bool good=arg>0; if (good&&(p[0]=='+'||p[0]=='-')) { ++i; good=i<arg; } while(i<arg&&p[i]=='0') ++i; int nd=0; for(;i<arg&&nd<2&&(unsigned char)(p[i]-'0')<10;++i) ++nd; if (good&&i<arg) { good=p[i]=='.'; ++i; for(int k=0;good&&k<2&&i<arg;++k,++i) good=(unsigned char)(p[i]-'0')<10; } CHECKM(ok==good,"accepted exactly when the digits, a point and the decimals are there"); CHECK(!none((const char*)p,(const char*)p+arg)); delete[] p; }
template <typename C> static std::vector<int> items(const C& c){ return std::vector<int>(c.begin(),c.end()); }
static std::vector<int> items(std::queue<int> q){ std::vector<int> v; for(;!q.empty();q.pop()) v.push_back(q.front()); return v; }
static std::vector<int> items(std::stack<int> q){ std::vector<int> v; for(;!q.empty();q.pop()) v.insert(v.begin(),q.top()); return v; }
static std::vector<int> items(std::priority_queue<int> q){ std::vector<int> v; for(;!q.empty();q.pop()) v.insert(v.begin(),q.top()); return v; }
template <typename C> static void sink(int sorted){ C c; int n=1+sym_choose(4); std::string s; std::vector<int> w; for(int i=0;i<n;++i){ if (i) s+=','; char d='0'+sym_choose(i<2?10:2); s+=d; w.push_back(d-'0'); } bool bad=sym_choose(2); if (bad) s+=",x"; strtk::sink_type<C> k(","); int form=sym_choose(3); bool ok; if (form==0) ok=line(s,k(c)); else if (form==1) { strtk::sink_type<C> b(c,","); ok=line(s,b); } else { strtk::sink_type<C> b(";"); ok=line(s,b(c,",").reference()); } if (sorted) { std::sort(w.begin(),w.end()); if (sorted==2) w.erase(std::unique(w.begin(),w.end()),w.end()); } CHECKM(ok,"a list of items is accepted"); CHECKM(items(c)==w,"the valid items in order"); strtk::sink_type<C> none(","); CHECK(!line(s,none)); }
JOB(sink){ switch(arg){ case 0: sink<std::vector<int> >(0); break; case 1: sink<std::deque<int> >(0); break; case 2: sink<std::list<int> >(0); break; case 3: sink<std::set<int> >(2); break; case 4: sink<std::multiset<int> >(1); break; case 5: sink<std::queue<int> >(0); break; case 6: sink<std::stack<int> >(0); break; default: sink<std::priority_queue<int> >(1); } }
template <typename C> static void count(int n){ std::string s; std::vector<int> w; for(int i=0;i<n;++i){ if (i) s+=','; char d='0'+(i*3+1)%10; s+=d; w.push_back(d-'0'); } if (!n) s="x"; int k=1+sym_choose(5); int bad=sym_choose(2)?sym_choose(n+1):n; if (bad<n) s[2*bad]='x'; C c; strtk::sink_type<C> b(","); bool ok=line(s,b(c).count(k)); CHECKM(ok==(n>=k&&bad>=k),"accepted exactly if the first items are there and convert"); if (ok) { w.resize(k); std::sort(w.begin(),w.end()); std::vector<int> v(items(c)); std::sort(v.begin(),v.end()); CHECKM(v==w,"exactly the first items"); } C e; if (n) CHECK(line(s,b(e).count())&&(int)items(e).size()==n-(bad<n)); }
JOB(count){ switch(sym_choose(4)){ case 0: count<std::vector<int> >(arg); break; case 1: count<std::list<int> >(arg); break; case 2: count<std::set<int> >(arg); break; default: count<std::queue<int> >(arg); } }
JOB(ignore){ std::string s=arg?field(arg):std::string("?"); strtk::ignore_token g; CHECKM(line(s,g),"any token is skipped"); int a=0,b=0; std::string t=s+"|5|"+s+"|6"; CHECK(strtk::parse(t,"|",g,a,g,b)&&a==5&&b==6); }
JOB(far){ static const int L[]={9,16,17,33,65,129}; int n=L[sym_choose(6)]; std::string f=MIXED(n,"aB z.x"); for(int i=0;i<n;++i) sym_assume((f[i]!='|')&(f[i]!=0)); switch(arg){ case 0: { std::string e=f; char c=(char)sym_u8(); int at=sym_choose(3); at=at==0?0:at==1?n/3:n-1; e[at]=c; int eq=(f[at]==c),ie=(low(f[at])==low(c)); CHECKM(line(f,strtk::expect(e).ref())==(eq!=0),"accepted exactly if equal"); CHECKM(line(f,strtk::iexpect(e).ref())==(ie!=0),"accepted exactly if equal up to case"); CHECK(!line(f,strtk::expect(e+"x").ref())&&!line(f+"x",strtk::iexpect(e).ref())); break; }
   case 1: { std::string p="*"+f.substr(n-3),q=f.substr(0,2)+"*"; for(size_t i=0;i<f.size();++i) sym_assume((f[i]!='*')&(f[i]!='?')); CHECKM(line(f,strtk::like(p).ref())&&line(f,strtk::like(q).ref()),"accepted exactly if the pattern matches"); q[0]=(char)sym_u8(); sym_assume((q[0]!='*')&(q[0]!='?')&(q[0]!=0)); CHECK(line(f,strtk::like(q).ref())==(q[0]==f[0])); break; }
   case 2: { std::string s=std::string(n,'_')+f+std::string(n,'_'),t="#"; for(size_t i=0;i<f.size();++i) sym_assume(f[i]!='_'); CHECKM(line(s,strtk::trim("_",t).ref())&&t==f,"exactly the ends are removed"); CHECK(line(s,strtk::trim_leading("_ ",t).ref())&&t==s.substr(n+(f[0]==' '?1:0))); CHECK(line(s,strtk::trim_trailing("_",t).ref())&&t==s.substr(0,s.size()-n)); break; }
   case 3: { std::string a,b; CHECK(line(f,strtk::as_lcase(a).ref())&&line(f,strtk::as_ucase(b).ref())); int ok=((int)a.size()==n)&((int)b.size()==n); for(int i=0;i<n;++i){ ok&=(a[i]==low(f[i])); ok&=(b[i]==(char)(f[i]-((unsigned char)(f[i]-'a')<26?32:0))); } CHECKM(ok,"letters converted"); break; }
   case 4: { char q[65]; memset(q,'#',65); bool e=n==65; CHECKM(line(f,strtk::fill_array(q).ref())==e,"exactly the size of the array"); for(int i=0;i<65;++i) CHECKM(q[i]==(e?f[i]:'#'),"bytes of the token"); std::string z(n,'#'); CHECK(line(f,strtk::fill_array(z).ref())&&z==f); break; }
   case 5: { std::string lo=f,hi=f,t="#"; lo[n-1]=(char)sym_u8(); hi[n/2]=(char)sym_u8(); bool in=!(f<lo)&&!(hi<f); CHECKM(line(f,strtk::inrange(t,lo,hi).ref())==in,"texts in lexicographic order"); CHECK(t==(in?f:"#")); break; }
   default: { int k=n>65?65:n; std::string s; std::vector<int> w; for(int i=0;i<k;++i){ if (i) s+=','; int v=(i*37)%200; std::string d; strtk::type_to_string(v,d); s+=d; w.push_back(v); } int c=sym_choose(3); c=c==0?k:c==1?k/2:1; std::vector<int> a; std::list<int> b; std::deque<int> d; strtk::sink_type<std::vector<int> > sa(","); strtk::sink_type<std::list<int> > sb(","); strtk::sink_type<std::deque<int> > sd(","); CHECKM(line(s,sa(a))&&a==w,"the valid items in order"); CHECK(line(s,sb(b))&&(int)b.size()==k); CHECK(line(s,sd(d).count(c))); w.resize(c); CHECKM(items(d)==w,"exactly the first items"); CHECK(!line(s,sd(d).count(k+1))); } } sym_reach("far"); }

// an adaptor that has seen another token before treats the next one as a fresh adaptor would
template <typename A,typename T> static void twice(A used,A fresh,T& t,T& u,const T& t0,const std::string& s1,const std::string& s2){ line(s1,used); t=t0; u=t0; bool a=line(s2,used),b=line(s2,fresh); CHECKM(a==b,"accepted exactly as by an unused adaptor"); if (b) CHECKM(t==u,"stored exactly as by an unused adaptor"); bool c=line(s2,used); CHECKM(c==b,"the same token again"); if (a) sym_reach("taken"); else sym_reach("refused"); }
JOB(again){ std::string s1=field(1+sym_choose(3)),s2=field(2); int t=0,u=0; std::string x,y; switch(arg){ case 0: { strtk::details::expect_impl a=strtk::expect("a?"),b=a; twice(a,b,t,u,0,s1,s2); break; } case 1: { strtk::details::iexpect_impl a=strtk::iexpect("aB"),b=a; twice(a,b,t,u,0,s1,s2); break; } case 2: { strtk::details::like_impl a=strtk::like("?b*"),b=a; twice(a,b,t,u,0,s1,s2); break; }
   case 3: twice(strtk::inrange(t,-5,50),strtk::inrange(u,-5,50),t,u,-77,s1,s2); break; case 4: twice(strtk::inrange(x,"a1","c"),strtk::inrange(y,"a1","c"),x,y,std::string("before"),s1,s2); break; case 5: twice(strtk::trim(" _",t),strtk::trim(" _",u),t,u,-77,s1,s2); break; case 6: twice(strtk::trim_leading("_",x),strtk::trim_leading("_",y),x,y,std::string("__before__"),s1,s2); break; case 7: twice(strtk::trim_trailing("_",x),strtk::trim_trailing("_",y),x,y,std::string("__before__"),s1,s2); break;
   case 8: { if (sym_choose(2)) twice(strtk::as_lcase(x),strtk::as_lcase(y),x,y,std::string("A longer text"),s1,s2); else twice(strtk::as_ucase(x),strtk::as_ucase(y),x,y,std::string("a longer text"),s1,s2); break; }
   default: { strtk::truncated_int<int> a,b; a(t); b(u); if (sym_choose(2)) { a.fractional_size(1); b.fractional_size(1); } twice(a,b,t,u,-77,s1,s2); } } }
