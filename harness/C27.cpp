//@ job letters args=0..9
//@ job table args=0..6,11..13 thorough=7
//@ job single args=0..1 thorough=2 t=300
//@ job singles args=3..5 thorough=6
//@ job spin args=0..5 thorough=6 t=300
//@ job dups args=0..7
//@ job extreme args=1..4 thorough=5
//@ job slices args=0..5
//@ job count args=0..8,21,34
//@ job far args=17,33,64,65,129,257
//@ bound texts of up to 9 bytes with every content; translation tables of up to 2 symbolic pairs, up to 7 (some repeated) with symbolic outputs; first unique character of 1 (thorough 2) arbitrary bytes, up to 5 over three byte values; rotations of up to 5 (thorough 6) values; ranges of up to 7 values; up to 3 texts of up to 5 bytes with every pair of cut positions
//@ bound texts and ranges of 17..257 elements with a few arbitrary ones; a 26-letter table
#include "common.h"
static std::string txt(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
static char up(char c){ return (char)(c-((unsigned char)(c-'a')<26?32:0)); }
static char lo(char c){ return (char)(c+((unsigned char)(c-'A')<26?32:0)); }
static char pr(char c){ return (unsigned char)(c-33)<94?c:'.'; }
// the output compared to a per-character function of the input, all bytes at once
static void each(const std::string& o,const std::string& r,char (*f)(char),const char* what){ CHECKM(r.size()==o.size(),"length"); int ok=1; for(size_t i=0;i<o.size();++i) ok&=(r[i]==f(o[i])); CHECKM(ok,what); }
JOB(letters){ std::string s=txt(arg),r; r=strtk::as_uppercase(s); each(s,r,up,"upper case"); r=strtk::as_lowercase(s); each(s,r,lo,"lower case"); r=s; strtk::convert_to_printable_chars(r); each(s,r,pr,"printable characters stay, others become dots");
   r=s; strtk::convert_to_uppercase(r); each(s,r,up,"upper case in place"); r=s; strtk::convert_to_lowercase(r); each(s,r,lo,"lower case in place"); char* p=new char[arg]; std::copy(s.begin(),s.end(),p); strtk::convert_to_uppercase(p,p+arg); each(s,std::string(p,arg),up,"range"); std::copy(s.begin(),s.end(),p); strtk::convert_to_lowercase(p,p+arg); each(s,std::string(p,arg),lo,"range"); std::copy(s.begin(),s.end(),p); strtk::convert_to_lowercase((const char*)p,(const char*)p+arg); each(s,std::string(p,arg),lo,"range"); std::copy(s.begin(),s.end(),p); strtk::convert_to_printable_chars(p,p+arg); each(s,std::string(p,arg),pr,"range"); delete[] p; }
JOB(table){ int k=arg%10,n=k<3?2:1; std::string a=k<3?txt(k):std::string("a\0\xFFmA~a",k),b=txt(k),s=txt(n); if (arg>=10) { bool thrown=false; try { strtk::translation_table t(a,txt(k+1)); } catch(const std::runtime_error&) { thrown=true; } CHECKM(thrown,"tables of different sizes are refused"); thrown=false; try { strtk::translation_table t(txt(k+1),b); } catch(const std::runtime_error&) { thrown=true; } CHECKM(thrown,"tables of different sizes are refused"); return; }
   strtk::translation_table t(a,b); std::string r=strtk::translate(t,s); CHECKM((int)r.size()==n,"length"); int ok=1; for(int i=0;i<n;++i){ char e=s[i]; for(int j=0;j<k;++j) e=(a[j]==s[i])?b[j]:e; ok&=(r[i]==e); } CHECKM(ok,"every character is mapped by the table, others stay"); std::string q=s; strtk::translate_inplace(t,q); CHECKM(q==r,"in place"); unsigned char c=sym_u8(); CHECK((unsigned char)t((char)c)==t(c)); }
static void single(const std::string& s){ int arg=s.size(); size_t p=strtk::first_non_repeated_char(s); p=sym_concretize(p); size_t e=std::string::npos; for(int i=arg;i-->0;){ bool rep=false; for(int j=0;j<arg;++j) if (j!=i&&s[j]==s[i]) rep=true; if (!rep) e=i; } CHECKM(p==e,"the first character occurring once"); const unsigned char* u=(const unsigned char*)s.data(); const unsigned char* q=strtk::first_non_repeated_char(u,u+arg); size_t d=q-u; CHECKM(d==(e==std::string::npos?(size_t)arg:e),"range"); if (e!=std::string::npos&&e>0) sym_reach("later"); }
JOB(single){ single(txt(arg)); }
JOB(singles){ std::string s(arg,0); for(int i=0;i<arg;++i) s[i]="b\0\xFF"[sym_choose(3)]; single(s); }
template <typename S> static void spin(const S& s){ S a=s; strtk::lexicographically_canonicalize(a); typedef std::vector<typename S::value_type> V; V v(s.begin(),s.end()),b=v,r(a.begin(),a.end()); CHECKM(r.size()==v.size(),"length"); bool rot=v.empty(); for(size_t i=0;i<v.size();++i){ std::rotate(v.begin(),v.begin()+1,v.end()); CHECKM(!(v<r),"no rotation is smaller"); if (v==r) rot=true; } CHECKM(rot,"a rotation"); }
JOB(spin){ switch(sym_choose(3)){ case 0: spin(txt(arg)); break; case 1: { std::vector<int> v(arg); for(int i=0;i<arg;++i) v[i]=sym<int>(); spin(v); break; } default: { std::list<unsigned short> v; for(int i=0;i<std::min(arg,4);++i) v.push_back(sym<unsigned short>()); 
   std::deque<unsigned short> d(v.begin(),v.end()); spin(d); } } }
JOB(dups){ std::vector<int> v(arg); for(int i=0;i<arg;++i) v[i]=sym<int>(); int e=0; for(int i=1;i<arg;++i) e+=(v[i]==v[i-1]); size_t c=strtk::count_consecutive_duplicates(v.begin(),v.end()); CHECKM((int)c==e,"elements equal to their predecessor"); std::string s=txt(arg); e=0; for(int i=1;i<arg;++i) e+=(s[i]==s[i-1]); CHECK((int)strtk::count_consecutive_duplicates(s.data(),s.data()+arg)==e); }
template <typename S> static void ext(const std::vector<int>& v,const std::vector<int>& sub){ S s(sub.begin(),sub.end()); int lo=strtk::min_of_cont(s),hi=strtk::max_of_cont(s); int ok=1,in=0,ih=0; for(size_t i=0;i<v.size();++i){ ok&=(lo<=v[i])&(v[i]<=hi); in|=(v[i]==lo); ih|=(v[i]==hi); } CHECKM(ok,"bounds of the range"); CHECKM(in&ih,"elements of the range"); int a=sym<int>(),b=sym<int>(); strtk::min_max_of_cont(s,a,b); CHECKM(a==lo&&b==hi,"both at once"); }
JOB(extreme){ std::vector<int> v(arg); for(int i=0;i<arg;++i) v[i]=sym<int>(); switch(sym_choose(5)){ case 0: ext<std::vector<int> >(v,v); break; case 1: ext<std::deque<int> >(v,v); break; case 2: ext<std::list<int> >(v,v); break; case 3: ext<std::set<int> >(v,v); break; default: ext<std::multiset<int> >(v,v); } int a=1,b=2; strtk::min_max_of_range(v.begin(),v.end(),a,b); int lo=v[0],hi=v[0]; for(int i=1;i<arg;++i){ lo=v[i]<lo?v[i]:lo; hi=v[i]>hi?v[i]:hi; } CHECKM((a==lo)&(b==hi),"range"); }
JOB(slices){ int n[3]={arg,(arg+3)%6,(arg*2+1)%6}; std::vector<std::string> v; for(int i=0;i<3;++i) v.push_back(txt(n[i])); size_t r0=sym<size_t>(),d=sym<size_t>(); sym_assume(r0+d>=r0); if (r0>6) { sym_assume(r0>6); } size_t r1=r0+d; r0=r0>6?r0:sym_concretize(r0); if (r1<=6) r1=sym_concretize(r1); std::vector<std::string> o,e,f=v; for(int i=0;i<3;++i) { std::string x; if (v[i].size()>=r0) { for(size_t j=r0;j<v[i].size()&&j<r1;++j) x+=v[i][j]; e.push_back(x); f[i]=x; } }
   std::vector<std::string> w=v; int form=sym_choose(3); if (form==0) strtk::cut(r0,r1,v,std::back_inserter(o)); else if (form==1) { std::list<std::string> l(v.begin(),v.end()); strtk::cut(r0,r1,l.begin(),l.end(),std::back_inserter(o)); } else { strtk::cut_inplace(r0,r1,w.begin(),w.end()); CHECKM(w==f,"cut in place"); return; } CHECKM(o==e,"exactly the characters between the positions, of the texts long enough"); CHECK(v==w); }
JOB(count){ int n=arg,x=sym<int>(); sym_assume(x<1000000); std::vector<int> r; switch(sym_choose(8)){ case 0: r.resize(n,7); strtk::iota(r.begin(),r.end(),x); break; case 1: strtk::iota(r,(size_t)n,x); break; case 2: strtk::iota((size_t)n,x,std::back_inserter(r)); break; case 3: { std::set<int> s; strtk::iota(s,(size_t)n,x); r.assign(s.begin(),s.end()); break; } case 4: { std::multiset<int> s; strtk::iota(s,(size_t)n,x); r.assign(s.begin(),s.end()); break; } case 5: r.resize(n,7); strtk::iota(r,x); break; case 6: { std::deque<int> d; strtk::iota(d,(size_t)n,x); r.assign(d.begin(),d.end()); break; } default: { std::vector<int> b(n+1,-5); strtk::range::adapter<int> a(&b[0],&b[0]+n); strtk::iota(a,x); CHECK(b[n]==-5); r.assign(b.begin(),b.begin()+n); } }
   CHECKM((int)r.size()==n,"number of values"); int ok=1; for(int i=0;i<n;++i) ok&=(r[i]==x+i); CHECKM(ok,"consecutive values"); }
JOB(far){ int n=arg; std::string s=MIXED(n,"aZ9 mQ\x7F\x1F~{@"); switch(sym_choose(7)){ case 0: { std::string r=s; strtk::convert_to_uppercase(r); each(s,r,up,"upper case in place"); r=s; strtk::convert_to_lowercase(r); each(s,r,lo,"lower case in place"); r=s; strtk::convert_to_printable_chars(r); each(s,r,pr,"printable characters stay, others become dots"); break; }
   case 1: { s[0]=s[n/2]='q'; std::string a,b; for(int i=0;i<26;++i){ a+=char('a'+i); b+=char('a'+(i*7+3)%26); } b[25]=(char)sym_u8(); strtk::translation_table t(a,b); std::string r=strtk::translate(t,s); int ok=1; for(int i=0;i<n;++i){ char e=s[i]; for(int j=0;j<26;++j) e=(a[j]==s[i])?b[j]:e; ok&=(r[i]==e); } CHECKM(ok&&(int)r.size()==n,"every character is mapped by the table, others stay"); break; }
   case 2: { if (n>129) n=129; std::string q; for(int i=0;i<n;++i) q+=char('a'+i%(n/2)%20); q[n-1]='!'; char c=(char)sym_u8(); q[n-2]=c; single(q); break; }
   case 3: { std::vector<int> v(n); for(int i=0;i<n;++i) v[i]=i/3; v[n-1]=sym<int>(); v[n/2]=sym<int>(); int e=0; for(int i=1;i<n;++i) e+=(v[i]==v[i-1]); CHECKM((int)strtk::count_consecutive_duplicates(v.begin(),v.end())==e,"elements equal to their predecessor"); break; }
   case 4: { if (n>65) n=65; std::vector<int> v(n); for(int i=0;i<n;++i) v[i]=(i*37)%101; v[n-1]=sym<int>(); v[0]=sym<int>(); if (sym_choose(2)) ext<std::vector<int> >(v,v); else ext<std::list<int> >(v,v); break; }
   case 5: { if (n>65) n=65; std::string q; for(int i=0;i<n;++i) q+=char('b'+(i*5)%7); q[n-1]=(char)sym_u8(); spin(q); break; }
   default: { const int nv=arg==33?40:9; if (nv==40) n=60,s=MIXED(n,"aZ9"); std::vector<std::string> v(nv,s),o; size_t a=sym_choose(3),b; a=a==0?0:a==1?n/2:n-1; b=a+sym_choose(3)*(n/3); for(int i=0;i<nv;++i) v[i].resize(n-i); strtk::cut(a,b,v,std::back_inserter(o)); if (b>=a&&sym_choose(2)) { std::vector<std::string> w=v; strtk::cut_inplace(a,b,w.begin(),w.end()); for(int i=0;i<nv;++i) CHECKM(w[i]==(v[i].size()>=a?v[i].substr(a,b-a):v[i]),"cut in place"); } size_t k=0; for(int i=0;i<nv;++i) if (v[i].size()>=a) { CHECKM(k<o.size()&&o[k]==v[i].substr(a,b-a),"exactly the characters between the positions"); ++k; } CHECK(o.size()==k); std::vector<int> r; strtk::iota(r,(size_t)n,-3); for(int i=0;i<n;++i) CHECK(r[i]==i-3); } } sym_reach("far"); }
