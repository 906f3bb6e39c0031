//@ job parse args=1..12
//@ job sequence args=1..12
//@ job text args=0..4 thorough=5,6
//@ job mixed args=0..3
//@ job select args=1..12
//@ job into args=2..10
//@ job rows args=0..3 thorough=4
//@ job late args=0..2
//@ job far args=0..3
//@ job partial args=1..4,101..103
//@ bound 1 to 12 columns out of up to 14, any one gap, a missing or a surplus field, a field that does not convert at any position; free texts of up to 4 (thorough 6) symbolic bytes with any two columns
//@ bound rows of up to 200 columns with any two arbitrary fields
//@ bound up to four feeds of 0 to 4 fields to one selector of two or three columns, each followed by a reset or not
//@ assume column lists are strictly increasing (what selecting a column twice or out of order should do is not documented)
#include "common.h"
#include "ref_int.h"
#include <new>
static std::string txt(int n){ std::string s(n,' '); for(int i=0;i<n;++i) s[i]=(char)sym_u8(); return s; }
struct Setup { std::string s; size_t idx[12]; int n,have,odd,gap,off; int e[16]; bool okc; Setup(int n_,bool runs):n(n_) { gap=sym_choose(n+1); off=gap==0?0:sym_choose(2); for(int i=0;i<n;++i) idx[i]=off+i+(i>=gap?1:0); int last=(int)idx[n-1]; have=last+sym_choose(3); odd=sym_choose(n); for(int i=0;i<have;++i) { if (i) s+=runs?((i%2)?"|":";|"):","; char c=(char)('0'+(i*7+3)%10); if (i==(int)idx[odd]) { c=(char)sym_u8(); sym_assume((c!='|')&(c!=';')&(c!=',')); } s+=c; e[i]=c-'0'; } okc=(unsigned)e[idx[odd]<16?idx[odd]:0]<10; } bool enough() const { return have>(int)idx[n-1]; } };
#define I1 x[0]
#define I2 I1,x[1]
#define I3 I2,x[2]
#define I4 I3,x[3]
#define I5 I4,x[4]
#define I6 I5,x[5]
#define I7 I6,x[6]
#define I8 I7,x[7]
#define I9 I8,x[8]
#define I10 I9,x[9]
#define I11 I10,x[10]
#define I12 I11,x[11]
#define A1 t[0]
#define A2 A1,t[1]
#define A3 A2,t[2]
#define A4 A3,t[3]
#define A5 A4,t[4]
#define A6 A5,t[5]
#define A7 A6,t[6]
#define A8 A7,t[7]
#define A9 A8,t[8]
#define A10 A9,t[9]
#define A11 A10,t[10]
#define A12 A11,t[11]
static bool parse_range(const std::string& s,int n,const size_t* x,int* t){ const char* b=s.data(); const char* e=b+s.size(); switch(n){
#define P(n) case n: return strtk::parse_columns(b,e,"|;",strtk::column_list(I##n),A##n);
 P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12)
#undef P
 } return false; }
static bool parse_string(const std::string& s,int n,const size_t* x,int* t){ switch(n){
#define P(n) case n: return strtk::parse_columns(s,"|;",strtk::column_list(I##n),A##n);
 P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12)
#undef P
 } return false; }
template <typename C> static bool parse_seq(const std::string& s,int n,const size_t* x,C& c,bool range){ const char* b=s.data(); const char* e=b+s.size(); switch(n){
#define P(n) case n: return range?strtk::parse_columns(b,e,"|;",strtk::column_list(I##n),c):strtk::parse_columns(s,"|;",strtk::column_list(I##n),c);
 P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10) P(11) P(12)
#undef P
 } return false; }
JOB(parse){ Setup u(arg,true); int t[13]; for(int k=0;k<13;++k) t[k]=-9; bool str=sym_choose(2); bool ok=str?parse_string(u.s,arg,u.idx,t):parse_range(u.s,arg,u.idx,t); bool w=u.enough()&&u.okc; CHECKM(ok==w,"succeeds exactly if every selected column is there and converts"); if (w) { for(int k=0;k<arg;++k) CHECKM(t[k]==u.e[u.idx[k]],"the selected column"); sym_reach("ok"); } else if (!u.enough()) for(int k=0;k<arg;++k) CHECKM(t[k]==-9,"nothing is assigned when columns are missing"); CHECK(t[12]==-9||arg==12); }
JOB(sequence){ Setup u(arg,true); bool range=sym_choose(2); std::vector<int> v(arg+1,-9); std::deque<int> d(arg+1,-9); bool ok=parse_seq(u.s,arg,u.idx,v,range); bool w=u.enough()&&u.okc; CHECKM(ok==w,"succeeds exactly if every selected column is there and converts"); if (arg!=1) CHECK(parse_seq(u.s,arg,u.idx,d,range)==w); if (w) for(int k=0;k<arg;++k) { CHECKM(v[k]==u.e[u.idx[k]],"the selected column"); if (arg!=1) CHECK(d[k]==v[k]); } CHECKM(v[arg]==-9,"nothing behind them"); }
JOB(text){ std::string s=txt(arg); std::vector<std::string> f; strtk::split(",;",s,strtk::range_to_type_back_inserter(f),strtk::split_options::compress_delimiters); size_t i=sym_choose(3),j=i+1+sym_choose(2); std::string a="#",b="#"; bool ok=strtk::parse_columns(s,",;",strtk::column_list(i,j),a,b); bool w=j<f.size(); CHECKM(ok==w,"succeeds exactly if there are enough fields"); CHECKM(a==(w?f[i]:"#")&&b==(w?f[j]:"#"),"the fields at these positions"); std::string c="#"; CHECK(strtk::parse_columns(s,",;",strtk::column_list(i),c)==(i<f.size())); CHECK(c==(i<f.size()?f[i]:"#")); if (w) sym_reach("ok"); }
JOB(mixed){ std::string m=txt(arg); for(int i=0;i<arg;++i) sym_assume((m[i]!=',')&(m[i]!='|')); std::string s="12,abc,"+m+(arg?",x":"|,x"); int i=-9,k=-9,e=0; std::string a="#"; char c='#'; bool num=arg&&ref_int<int>(m.data(),arg,e); std::string t=s; bool ok=strtk::parse_columns(t,",",strtk::column_list(0,1,2,3),i,a,k,c); CHECKM(ok==num,"succeeds exactly if each column converts to the type of its variable"); CHECKM(i==12&&a=="abc","columns before the one that does not convert"); CHECKM(k==(num?e:-9),"the column"); CHECKM(c==(num?'x':'#'),"the last column"); }
static std::pair<const char*,const char*> piece(const std::string& s,size_t i){ return std::make_pair(s.data()+i,s.data()+i+1); }
template <typename S> static void feed(S& sel,const std::string& s){ for(size_t i=0;i<s.size();i+=2) { (*sel)=piece(s,i); if (i%4) ++sel; else sel++; } }
static void pick(const std::string& s,int n,const size_t* x,int* t,bool manual){ switch(n){
 case 1: { strtk::details::column_selector_impl<int> sel=strtk::column_selector(strtk::column_list(I1),A1); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I1),A1)); return; }
 case 2: { strtk::details::column_selector_impl<int,int> sel=strtk::column_selector(strtk::column_list(I2),A2); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I2),A2)); return; }
 case 3: { strtk::details::column_selector_impl<int,int,int> sel=strtk::column_selector(strtk::column_list(I3),A3); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I3),A3)); return; }
 case 4: { strtk::details::column_selector_impl<int,int,int,int> sel=strtk::column_selector(strtk::column_list(I4),A4); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I4),A4)); return; }
 case 5: { strtk::details::column_selector_impl<int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I5),A5); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I5),A5)); return; }
 case 6: { strtk::details::column_selector_impl<int,int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I6),A6); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I6),A6)); return; }
 case 7: { strtk::details::column_selector_impl<int,int,int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I7),A7); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I7),A7)); return; }
 case 8: { strtk::details::column_selector_impl<int,int,int,int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I8),A8); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I8),A8)); return; }
 case 9: { strtk::details::column_selector_impl<int,int,int,int,int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I9),A9); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I9),A9)); return; }
 case 10: { strtk::details::column_selector_impl<int,int,int,int,int,int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I10),A10); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I10),A10)); return; }
 case 11: { strtk::details::column_selector_impl<int,int,int,int,int,int,int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I11),A11); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I11),A11)); return; }
 case 12: { strtk::details::column_selector_impl<int,int,int,int,int,int,int,int,int,int,int,int> sel=strtk::column_selector(strtk::column_list(I12),A12); if (manual) feed(sel,s); else strtk::split(",",s,strtk::column_selector(strtk::column_list(I12),A12)); return; }
} }
JOB(select){ Setup u(arg,false); int t[13]; for(int k=0;k<13;++k) t[k]=-9; pick(u.s,arg,u.idx,t,sym_choose(2)); for(int k=0;k<arg;++k) { bool there=(int)u.idx[k]<u.have,conv=k!=u.odd||u.okc; CHECKM(t[k]==(there&&conv?u.e[u.idx[k]]:-9),"each variable gets its column if that is there and converts, else keeps its value"); } CHECK(t[12]==-9||arg==12); }
template <typename C> static void pickseq(const std::string& s,int n,const size_t* x,C& c){ switch(n){
#define P(n) case n: strtk::split(",",s,strtk::column_selector(strtk::column_list(I##n),c)); return;
 P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9) P(10)
#undef P
} }
template <typename C> static void inseq(int n){ Setup u(n,false); C c(n+sym_choose(2),-9),small(n-1,-9); pickseq(u.s,n,u.idx,c); int k=0; for(typename C::iterator i=c.begin();i!=c.end();++i,++k) { bool get=k<n&&(int)u.idx[k]<u.have&&(k!=u.odd||u.okc); CHECKM(*i==(get?u.e[u.idx[k]]:-9),"each element gets its column"); } bool thrown=false; try { pickseq(u.s,n,u.idx,small); } catch(const std::invalid_argument&) { thrown=true; } CHECKM(thrown,"a sequence shorter than the column list is refused"); for(typename C::iterator i=small.begin();i!=small.end();++i) CHECK(*i==-9); }
JOB(into){ switch(sym_choose(3)){ case 0: inseq<std::vector<int> >(arg); break; case 1: inseq<std::deque<int> >(arg); break; default: inseq<std::list<int> >(arg); } }
JOB(rows){ std::string m=txt(1); sym_assume(m[0]!=','); size_t i=sym_choose(2),j=i+1+sym_choose(2); int a=-9; std::string b="#"; strtk::details::column_selector_impl<int,std::string> sel=strtk::column_selector(strtk::column_list(i,j),a,b); int lasta=-9; std::string lastb="#"; for(int r=0;r<=arg;++r) { std::string s=std::string(1,(char)('1'+r))+","+m+","+(char)('a'+r)+",z"; feed(sel,s); char ca=s[2*i]; if ((unsigned)(ca-'0')<10) lasta=ca-'0'; lastb=std::string(1,s[2*j]); CHECKM(a==lasta,"number of this row"); CHECKM(b==lastb,"text of this row"); feed(sel,"7,8,9"); CHECKM(a==lasta&&b==lastb,"no more columns until it is reset"); sel.reset(); } }
JOB(late){ size_t i=sym_choose(2); int a=-9,b=-9; strtk::details::column_list_impl<2>* l=new strtk::details::column_list_impl<2>(strtk::column_list(i,i+1)); strtk::details::column_selector_impl<int,int> sel=strtk::column_selector(*l,a,b); strtk::details::column_selector_impl<int,int> cp(sel); l->index_list[0]=7; delete l; char c=(char)sym_u8(); sym_assume((c>='0')&(c<='9')); std::string s="1,2,3"; s[2*arg]=c; feed(cp,s); CHECKM(a==s[2*i]-'0'&&b==s[2*i+2]-'0',"the selector does not depend on the list it was made from"); a=b=-9; feed(sel,s); CHECKM(a==s[2*i]-'0'&&b==s[2*i+2]-'0',"nor on its copies"); sel.reset(); a=b=-9; feed(sel,s); CHECKM(a==s[2*i]-'0'&&b==s[2*i+2]-'0',"after a reset"); }
// wide rows: columns far apart and far to the right, the selected fields arbitrary
JOB(far){ static const int W[]={17,33,65,200}; int n=W[sym_choose(4)]; size_t i=sym_choose(3),j; i=i==0?0:i==1?n/3:n-2; j=sym_choose(3); j=j==0?i+1:j==1?n-1:(i+n)/2; sym_assume(j>i&&j<(size_t)n); std::vector<std::string> f; std::string s; for(int k=0;k<n;++k) f.push_back(std::string(1+k%3,char('0'+k%10))); char c=(char)sym_u8(),d=(char)sym_u8(); sym_assume((c!=',')&(d!=',')); f[i]=std::string("1")+c; f[j]=std::string("7")+d; for(int k=0;k<n;++k){ if (k) s+=','; s+=f[k]; } bool gc=(unsigned char)(c-'0')<10,gd=(unsigned char)(d-'0')<10; int a=-9,b=-9; switch(arg){ case 0: { bool ok=strtk::parse_columns(s,",",strtk::column_list(i,j),a,b); CHECKM(ok==(gc&&gd),"succeeds exactly if every selected column converts"); if (ok) CHECKM(a==10+c-'0'&&b==70+d-'0',"the selected columns"); break; }
   case 1: { std::vector<int> v(3,-9); bool ok=strtk::parse_columns(s,",",strtk::column_list(i,j),v); CHECKM(ok==(gc&&gd),"succeeds exactly if every selected column converts"); if (ok) CHECKM(v[0]==10+c-'0'&&v[1]==70+d-'0'&&v[2]==-9,"the selected columns"); break; }
   case 2: { strtk::split(",",s,strtk::column_selector(strtk::column_list(i,j),a,b)); CHECKM(a==(gc?10+c-'0':-9),"the selected column or nothing"); CHECKM(b==(gd?70+d-'0':-9),"the selected column or nothing"); break; }
   default: { std::string x="#",y="#"; CHECKM(strtk::parse_columns(s,",",strtk::column_list(i,j),x,y)&&x==f[i]&&y==f[j],"the fields at these positions"); CHECK(!strtk::parse_columns(s,",",strtk::column_list(i,(size_t)n),x,y)); } } sym_reach("far"); }
// any history of feeds (rows may be short, or continued by the next feed) and resets
template <typename S> static void hist(S& sel,int steps,size_t nc,const size_t* col,int* v,std::string& w){ int ev[2]={v[0],v[1]}; std::string ew=w; size_t at=0; char c=(char)sym_u8(); sym_assume(c!=','); int k=0;
   for(int r=0;r<steps;++r){ int n=sym_choose(5); std::string s; for(int i=0;i<n;++i){ char f=k==2?c:(char)('0'+k%10); ++k; if (i) s+=','; s+=f; bool d=(unsigned char)(f-'0')<10; if (at==col[0]&&d) ev[0]=f-'0'; if (nc==3&&at==col[1]&&d) ev[1]=f-'0'; if (at==col[nc-1]) ew=std::string(1,f); ++at; } if (n) feed(sel,s); CHECKM(v[0]==ev[0]&&v[1]==ev[1]&&w==ew,"exactly the selected columns of the rows so far"); if (sym_choose(2)) { sel.reset(); at=0; } } sym_reach("hist"); }
JOB(partial){ int v[2]={-9,-8}; std::string w="#"; int steps=arg%100; size_t a=sym_choose(2),b=a+1+sym_choose(2); if (arg<100) { size_t col[2]={a,b}; strtk::details::column_selector_impl<int,std::string> sel=strtk::column_selector(strtk::column_list(a,b),v[0],w); hist(sel,steps,2,col,v,w); } else { size_t col[3]={a,b,b+1+(size_t)sym_choose(2)}; strtk::details::column_selector_impl<int,int,std::string> sel=strtk::column_selector(strtk::column_list(col[0],col[1],col[2]),v[0],v[1],w); hist(sel,steps,3,col,v,w); } }
