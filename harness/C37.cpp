//@ rt rt_stream
//@ job cond args=0..4 thorough=5
//@ job like args=0..4 thorough=5
//@ job copied args=0..3
//@ job make args=0..4
//@ job append args=0..2 thorough=3
//@ job join args=0..3
//@ job minus args=0..4 thorough=5
//@ job times args=0..3
//@ job cases args=0..4 thorough=6
//@ job strip args=0..4 thorough=5
//@ job cut args=0..3 thorough=4
//@ job value args=0..4 thorough=5
//@ job classes args=0
//@ job far args=15,16,17,33,65,129,257
//@ bound texts of up to 4 (thorough 6) symbolic bytes; condition strings of 0..3 symbolic bytes; five wildcard patterns; three removal patterns; up to 3 copies; every signed byte as number
//@ bound texts of 15..257 characters with three arbitrary ones
#include "common.h"
#include "ref_int.h"
#include <sstream>
typedef strtk::string_condition SC; typedef strtk::ext_string ES;
static std::string txt(int n){ std::string s(n,' '); for(int i=0;i<n;++i) s[i]=(char)sym_u8(); return s; }
static int eq(const char* a,const char* b,size_t n){ int ok=1; for(size_t i=0;i<n;++i) ok&=a[i]==b[i]; return ok; }
static bool holds(SC::condition_type t,const std::string& s,const std::string& x){ switch(t){ case SC::equal: return s.size()==x.size()&&eq(s.data(),x.data(),s.size()); case SC::notequal: return !(s.size()==x.size()&&eq(s.data(),x.data(),s.size())); case SC::begins_with: return s.size()<=x.size()&&eq(s.data(),x.data(),s.size()); case SC::ends_with: return s.size()<=x.size()&&eq(s.data(),x.data()+x.size()-s.size(),s.size()); default: { int in=0; for(size_t i=0;i+s.size()<=x.size();++i) in|=eq(s.data(),x.data()+i,s.size()); return t==SC::within?in:!in; } } }
static const SC::condition_type kinds[]={SC::equal,SC::notequal,SC::begins_with,SC::ends_with,SC::within,SC::notwithin};
JOB(cond){ int k=sym_choose(6),n=sym_choose(4); if (k>=4&&n==0) n=1; std::string s=txt(n),x=txt(arg); SC c(kinds[k],s); bool w=holds(kinds[k],s,x); CHECKM(c(x)==w,"the condition as named"); unsigned char* h=new unsigned char[arg]; for(int i=0;i<arg;++i) h[i]=(unsigned char)x[i]; const unsigned char* p=h; CHECKM(c(p,p+arg)==w,"ranges"); delete[] h; if (w) sym_reach("holds"); else sym_reach("fails"); }
JOB(like){ static const char* pat[]={"*","a*","?b","*a?",""}; std::string p=pat[sym_choose(5)],x=txt(arg); SC c(SC::like,p); CHECKM(c(x)==strtk::match(p,x),"wildcard match"); }
JOB(copied){ int k=sym_choose(6); std::string s=txt(arg==0?1:arg),x=txt(3); bool w=holds(kinds[k],s,x); SC* o=new SC(kinds[k],s); SC c(*o),a(SC::equal,"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"); a=*o; CHECK((*o)(x)==w); delete o; CHECKM(c(x)==w,"a copy does not depend on the original"); CHECKM(a(x)==w,"nor does an assigned condition"); a=a; CHECKM(a(x)==w,"self assignment"); std::vector<SC> v; v.push_back(c); v.push_back(SC(SC::equal,s)); v.push_back(SC(SC::notequal,s)); CHECKM(v[0](x)==w&&v[1](x)!=v[2](x),"in a container"); }
JOB(make){ std::string s=txt(arg); ES e(s),f(e),z; CHECK(e.as_string()==s&&f.as_string()==s&&z.as_string().empty()); CHECK(e.clone()==s&&static_cast<std::string>(e)==s); f.as_string()+='!'; CHECKM(e.as_string()==s&&f.as_string()==s+'!',"copies are independent"); std::vector<char> b(s.begin(),s.end()); b.push_back('x'); ES r(strtk::range::adapter<char>(&b[0],(size_t)arg)); CHECKM(r.as_string()==s,"from a range"); int nul=0; for(int i=0;i<arg;++i) nul|=s[i]==0; sym_assume(!nul); CHECKM(ES(s.c_str()).as_string()==s,"from a C string"); std::ostringstream o; o<<e; CHECKM(o.str()==s,"to a stream"); z=e; CHECK(z.as_string()==s); }
JOB(append){ std::string s=txt(arg); ES e(s); int v=(signed char)sym_u8(); std::string d; strtk::type_to_string(v,d); e+=v; CHECKM(e.as_string()==s+d,"appends a number in decimal"); ES f(s); f<<v<<std::string("|")<<7; CHECKM(f.as_string()==s+d+"|7","appends each operand"); }
JOB(join){ std::string s=txt(arg),t=txt(2); ES e(s); CHECKM((e+t).as_string()==s+t,"text appended"); CHECKM((t+e).as_string()==t+s,"text prepended"); int n=(signed char)sym_u8(); std::string d; strtk::type_to_string(n,d); CHECKM((e+n).as_string()==s+d&&(n+e).as_string()==d+s,"numbers in decimal"); CHECKM(e.as_string()==s,"operands are left alone"); }
static std::string without(const std::string& s,const std::string& p,const std::string& r){ std::string o; for(size_t i=0;i<s.size();) if (i+p.size()<=s.size()&&s.compare(i,p.size(),p)==0) { o+=r; i+=p.size(); } else o+=s[i++]; return o; }
JOB(minus){ static const char* pat[]={"a","ab","aa"}; std::string s=txt(arg); ES e(s); const char* p=pat[sym_choose(3)]; std::string w=without(s,p,""); CHECKM((e-std::string(p)).as_string()==w,"every occurrence removed"); CHECK((e-p).as_string()==w); CHECK((e-ES(p)).as_string()==w); CHECKM(e.as_string()==s,"the operand is left alone"); ES f(s); f-=p; CHECKM(f.as_string()==w,"removed in place"); ES g(s); g.replace(p,"xyz"); CHECKM(g.as_string()==without(s,p,"xyz"),"every occurrence replaced"); }
JOB(times){ std::string s=txt(arg),w; ES e(s); size_t n=sym_choose(4); for(size_t i=0;i<n;++i) w+=s; CHECKM((e*n).as_string()==w&&(n*e).as_string()==w,"n copies"); CHECK(e.as_string()==s); e*=n; CHECKM(e.as_string()==w,"n copies in place"); }
static char low(char c){ return (char)(c+(((c>='A')&(c<='Z'))<<5)); } static char up(char c){ return (char)(c-(((c>='a')&(c<='z'))<<5)); }
JOB(cases){ std::string s=txt(arg),t=txt(arg),l=s,u=s; int same=1; for(int i=0;i<arg;++i) { l[i]=low(s[i]); u[i]=up(s[i]); same&=low(s[i])==low(t[i]); } ES e(s); CHECKM(e.imatch(t)==(bool)same,"equal but for case"); CHECK(e.imatch(ES(t))==(bool)same); CHECK(!e.imatch(s+"x")); CHECKM(&e.to_lowercase()==&e&&e.as_string()==l,"lower case"); e=ES(s); CHECKM(e.to_uppercase().as_string()==u,"upper case"); }
JOB(strip){ std::string s=txt(arg); static const char* sets[]={"a","ab",""}; std::string set=sets[sym_choose(3)]; size_t i=0,j=s.size(); while(i<s.size()&&set.find(s[i])!=std::string::npos) ++i; ES e(s); CHECKM(e.remove_leading(set).as_string()==s.substr(i),"leading characters of the set"); while(j>0&&set.find(s[j-1])!=std::string::npos) --j; ES f(s); CHECKM(f.remove_trailing(set).as_string()==s.substr(0,j),"trailing characters of the set"); ES g(s),h(s); strtk::single_delimiter_predicate<char> p('a'); i=0; while(i<s.size()&&s[i]=='a') ++i; j=s.size(); while(j>0&&s[j-1]=='a') --j; CHECKM(g.remove_leading(p).as_string()==s.substr(i)&&h.remove_trailing(p).as_string()==s.substr(0,j),"with a predicate"); }
JOB(cut){ std::string s=txt(arg); ES e(s); bool cd=sym_choose(2); const strtk::split_options::type o=cd?strtk::split_options::compress_delimiters:strtk::split_options::default_mode; std::vector<std::string> v,w,a,b; size_t r=strtk::split(",;",s,strtk::range_to_type_back_inserter(w),o); strtk::multiple_char_delimiter_predicate p(",;"); CHECKM(e.split(p,v,o)==r&&v==w,"as splitting the text"); CHECK(e.split(p,strtk::range_to_type_back_inserter(a),o)==r&&a==w); size_t n=sym_choose(3); v.clear(); w.clear(); r=strtk::split_n(",;",s,n,strtk::range_to_type_back_inserter(w),o); CHECKM(e.split_n(p,n,v,o)==r&&v==w,"as splitting off n fields"); CHECK(e.split_n(p,n,strtk::range_to_type_back_inserter(b),o)==r&&b==w); std::vector<std::string> c,d,f; r=strtk::parse(s,",;",c); CHECKM(e.parse(std::string(",;"),d)==r&&d==c,"as parsing the text"); CHECK(e.parse(",;",f)==r&&f==c); }
JOB(value){ std::string s=txt(arg); ES e(s); int v=-7,w=0; bool num=ref_int<int>(s.data(),arg,w); CHECKM(e.as_type(v)==num,"converts exactly the integers"); CHECKM(v==(num?w:-7),"its value"); int t=-7; bool thrown=false; try { t=e.as_type<int>(); } catch(const std::invalid_argument&) { thrown=true; } CHECKM(thrown==!num&&t==(num?w:-7),"anything else is reported"); }
JOB(classes){ std::string d=ES::all_digits(),l=ES::all_lowercase_letters(),u=ES::all_uppercase_letters(),a=ES::all_letters(),c=ES::all_chars(); unsigned char x=sym_u8(); char y=(char)x; CHECKM((d.find(y)!=std::string::npos)==(x>='0'&&x<='9')&&d.size()==10,"digits"); CHECKM((l.find(y)!=std::string::npos)==(x>='a'&&x<='z')&&l.size()==26,"lower case letters"); CHECKM((u.find(y)!=std::string::npos)==(x>='A'&&x<='Z')&&u.size()==26,"upper case letters"); CHECKM((a.find(y)!=std::string::npos)==((x>='a'&&x<='z')||(x>='A'&&x<='Z'))&&a.size()==52,"letters"); CHECKM(c.size()==256,"256 characters"); for(int i=0;i<256;++i) CHECKM((unsigned char)c[i]==i,"each of them once, in order"); }
JOB(far){ int n=arg; std::string s=MIXED(n,"ab aXab"),x=s; ES e(s); switch(sym_choose(8)){ case 0: { int k=sym_choose(6),q=sym_choose(3); std::string c=kinds[k]==SC::begins_with?s.substr(0,n/2):kinds[k]==SC::ends_with?s.substr(n/2):k>=4?s.substr(sym_choose(3)*(n-7)/2,7):s; c[q==0?0:q==1?c.size()/2:c.size()-1]=(char)sym_u8(); SC z(kinds[k],c),y(z); CHECKM(z(x)==holds(kinds[k],c,x),"the condition as named"); CHECK(y(x)==z(x)); break; }
   case 1: { ES f(e),z; f.as_string()+='!'; z=f; CHECK(e.as_string()==s&&z.as_string()==s+"!"&&(int)z.as_string().size()==n+1); CHECKM((e+s).as_string()==s+s&&(s+e).as_string()==s+s,"text appended"); e+=123456; CHECKM(e.as_string()==s+"123456","appends a number in decimal"); break; }
   case 2: { const char* p[]={"a","ab","bab","zz"}; const char* q=p[sym_choose(4)]; std::string w=without(s,q,""); CHECKM((e-std::string(q)).as_string()==w,"every occurrence removed"); e.replace(q,"a longer text"); CHECKM(e.as_string()==without(s,q,"a longer text"),"every occurrence replaced"); break; }
   case 3: { std::string w; for(int i=0;i<5;++i) w+=s; CHECKM((e*5).as_string()==w,"n copies"); e*=5; CHECKM(e.as_string()==w,"n copies in place"); break; }
   case 4: { std::string l=s,u=s; for(int i=0;i<n;++i) { l[i]=low(s[i]); u[i]=up(s[i]); } CHECKM(e.imatch(l)&&e.imatch(u),"equal but for case"); e.to_lowercase(); CHECKM(e.as_string()==l,"lower case"); e.to_uppercase(); CHECKM(e.as_string()==u,"upper case"); l[n/3]=(char)sym_u8(); CHECK(e.imatch(l)==(up(l[n/3])==u[n/3])); break; }
   case 5: { std::string t=std::string(n,'c')+s+std::string(n,'c'); size_t i=0,j=t.size(); while(t[i]=='c'&&i<t.size()) ++i; while(j>0&&t[j-1]=='c') --j; ES f(t),g(t); CHECKM(f.remove_leading("c").as_string()==t.substr(i),"leading characters of the set"); CHECKM(g.remove_trailing("c").as_string()==t.substr(0,j),"trailing characters of the set"); break; }
   case 6: { if (n>65) break; std::vector<std::string> v,w; strtk::multiple_char_delimiter_predicate p(" X"); size_t r=strtk::split(" X",s,strtk::range_to_type_back_inserter(w)); CHECKM(e.split(p,v)==r&&v==w,"as splitting the text"); break; }
   default: { std::string d(n>9?9:n,'1'); d[0]=(char)sym_u8(); int v=-7,w=0; bool num=ref_int<int>(d.data(),d.size(),w); CHECKM(ES(d).as_type(v)==num&&v==(num?w:-7),"converts exactly the integers"); } } sym_reach("far"); }
