//@ job gram args=0..5 thorough=6..7
//@ job gramd args=4..8 thorough=9..10
//@ job acc args=1..9,101..108,203,301..306,505,808,1000,1500,1700,909,612,1302 thorough=10,202,404,707,1111,215,1503,1800
//@ job accf args=1..7,102,203,403,600
//@ job accexp args=0..20
//@ job accexpf args=0..7
//@ job extreme args=0..8
//@ job words args=0..3
//@ job zeros args=0..5
//@ bound acceptance: every byte string of length 0..5 (thorough 7); strings of length 4..8 (thorough 10) over the characters of numbers (digits, sign, dot, exponent, suffix)
//@ bound value: every choice of up to 18 digits split around the decimal point, relative error below 1e-15 (double) and 1e-7 (float); every exponent -300..300 with every 4-digit mantissa; exponents up to 9999
//@ bound three arbitrary digits with up to 100 zeros before, between or after them
//@ assume the accuracy queries use exact real arithmetic with the IEEE rounding error of each operation bounded by half an ulp (sound over-approximation of double arithmetic); long double destinations are not covered
#include "common.h"
#include <cstring>
static bool dig(char c){ return (unsigned char)(c-'0')<=9; }
// must be accepted: [+-] digits [. digits] | . digits, optional exponent with 1..3 significant digits, optional f/F/l/L; or inf / infinity / nan in one case
static bool word(const char* p,int n)
{
   static const char* w[]={"inf","INF","infinity","INFINITY","nan","NAN"};
   for(int k=0;k<6;++k) if ((int)strlen(w[k])==n && memcmp(w[k],p,n)==0) return true; return false;
}
static bool must_accept(const char* p,int n)
{
   int i=0; if (i<n && (p[i]=='+'||p[i]=='-')) ++i; if (i<n && word(p+i,n-i)) return true;
   int d=0; while(i<n && dig(p[i])) { ++i; ++d; } if (i<n && p[i]=='.') { ++i; while(i<n && dig(p[i])) { ++i; ++d; } } if (d==0) return false; 
   if (i<n && (p[i]=='e'||p[i]=='E')) { ++i; if (i<n && (p[i]=='+'||p[i]=='-')) ++i; int z=0,m=0; while(i<n && p[i]=='0') { ++i; ++z; } while(i<n && dig(p[i])) { ++i; ++m; } if (z+m==0 || m>3) return false; }
   if (i<n && (p[i]=='f'||p[i]=='F'||p[i]=='l'||p[i]=='L')) ++i; return i==n;
}
// may be accepted: the above plus lenient tails (exponent letter without digits before a suffix, a special value after a number); everything else must be rejected
static bool may_accept(const char* p,int n)
{
   int i=0; if (i<n && (p[i]=='+'||p[i]=='-')) ++i; 
   int d=0; while(i<n && dig(p[i])) { ++i; ++d; } if (i<n && p[i]=='.') { ++i; while(i<n && dig(p[i])) { ++i; ++d; } }
   if (i<n && (p[i]=='e'||p[i]=='E')) { ++i; if (i<n && (p[i]=='+'||p[i]=='-')) ++i; while(i<n && dig(p[i])) ++i; }
   if (i==n) return d>0;
   if (i+1==n && (p[i]=='f'||p[i]=='F'||p[i]=='l'||p[i]=='L')) return d>0;
   if (p[i]=='#') ++i; return word(p+i,n-i);
}
static unsigned long long bits(double d){ unsigned long long u; memcpy(&u,&d,8); return u; } static unsigned long long bits(float d){ unsigned u; memcpy(&u,&d,4); return u; }
template <typename T> static void grammar(const char* p,int n)
{
   T v=T(-7.25); const unsigned long long b0=bits(v); bool ok=strtk::string_to_type_converter(p,p+n,v); sym_observe(ok);
   if (must_accept(p,n)) { CHECKM(ok,"a well formed real number is accepted"); sym_reach("accept"); }
   if (!may_accept(p,n)) { CHECKM(!ok,"text that is not a real number is rejected"); sym_reach("reject"); }
   if (!ok) CHECKM(bits(v)==b0,"destination untouched on rejection");
}
JOB(gram){ char* p=new char[arg]; sym_bytes(p,arg); if (arg<5 && sym_choose(2)) grammar<float>(p,arg); else grammar<double>(p,arg); delete[] p; }
JOB(gramd){ char* p=new char[arg]; sym_bytes(p,arg); for(int i=0;i<arg;++i){ char c=p[i]; sym_assume((c>='0')&(c<='9') | (i==0)&((c=='+')|(c=='-')) | (i<4)&(c=='.') | (i>0)&((c=='e')|(c=='-')) | (i+1>=arg)&((c=='f')|(c=='x'))); } grammar<double>(p,arg); delete[] p; }
template <typename T> static void accuracy(int ni,int nf,const char* ex,int e,double tol)
{
   std::string s; long long num=0; int neg=sym_choose(2); if (neg) s+='-';
   for(int i=0;i<ni+nf;++i){ char c=(char)sym_u8(); sym_assume((c>='0')&(c<='9')); if (i==ni) s+='.'; s+=c; num=num*10+(c-'0'); }
   s+=ex; T v=T(-7.25); bool ok=strtk::string_to_type_converter(s,v); CHECKM(ok,"decimal text accepted"); if (!ok) return;
   if (neg) v=-v; sym_close((double)v,num,e-nf,tol,"value of the decimal text"); sym_reach("value"); sym_observe(ok);
}
JOB(acc){ accuracy<double>(arg/100,arg%100,"",0,1e-15); }
JOB(accf){ accuracy<float>(arg/100,arg%100,"",0,1e-7); }
static std::string etext(int e,int style){ std::string d; int a=e<0?-e:e; do { d.insert(d.begin(),char('0'+a%10)); a/=10; } while(a); if (style==2) d="0"+d; std::string r(style==1?"E":"e"); if (e<0) r+="-"; else if (style==1) r+="+"; r+=d; if (style==3) r+="f"; return r; }
JOB(accexp){ int e=arg*30-315+sym_choose(30); if (e<-300||e>300||e==0) { return; } int st=e%4; if (st<0) st+=4; accuracy<double>(1,3,etext(e,st).c_str(),e,1e-15); }
JOB(accexpf){ int e=arg*10-36+sym_choose(10); if (e<-30||e>30||e==0) return; accuracy<float>(1,3,etext(e,e&3).c_str(),e,1.5e-7); }
JOB(extreme) // far outside the representable range: zero or infinity of the right sign, no other effect
{
   static const int E[]={309,400,616,999,1000,9999,324,700,311}; int e=E[arg]; bool up=sym_choose(2); bool neg=sym_choose(2); char c="159"[sym_choose(3)]; std::string s; if (neg) s+='-'; s+=c; s+=etext(up?e:-(e>9000?e:e+30),0);
   double v=1; bool ok=strtk::string_to_type_converter(s,v); CHECK(ok); if (neg) v=-v; if (up) CHECKM(v>1.7e308,"overflow saturates"); else CHECKM(v>=0 && v<1e-300,"underflow goes to zero"); float f=1; ok=strtk::string_to_type_converter(s,f); CHECK(ok); sym_observe(ok);
   s="0"+s.substr(neg+1); v=1; CHECK(strtk::string_to_type_converter(s,v)); CHECKM(v==0,"zero mantissa is zero whatever the exponent");
}
JOB(words)
{
   static const char* w[]={"inf","infinity","nan","INFINITY"}; std::string s(w[arg]); int k=sym_choose((int)s.size()); s[k]=(char)sym_u8(); int sg=sym_choose(3); if (sg) s=(sg==1?"-":"+")+s;
   double v=-7.25; bool ok=strtk::string_to_type_converter(s,v); sym_observe(ok); if (must_accept(s.data(),s.size())) CHECKM(ok,"special value accepted"); if (!may_accept(s.data(),s.size())) CHECKM(!ok,"misspelled special value rejected");
   if (ok && word(s.data()+(sg?1:0),s.size()-(sg?1:0))) { if (arg==2) CHECKM(v!=v,"not-a-number"); else CHECKM(sg==1 ? v<-1.7e308 : v>1.7e308,"infinity of the right sign"); sym_reach("word"); }
}
// long runs of zeros before, inside and after the digits
JOB(zeros){ static const int Z[]={5,24,17,64,100}; int z=Z[sym_choose(arg==0?5:3)]; std::string O(z,'0'); std::string s; long long num=0; std::string d; int nd=arg==1||arg>3?1:2; for(int i=0;i<nd;++i){ char c=(char)sym_u8(); sym_assume((c>='0')&(c<='9')); d+=c; num=num*10+(c-'0'); } int e=0;
   switch(arg){ case 0: s=O+d; break; case 1: s=d+O; e=z; break; case 2: s="0."+O+d; e=-z-nd; break; case 3: s="."+O+d; e=-z-nd; break; case 4: s=O+"."+d+O; e=-nd; break; default: s=d+O+"."+O; e=z; } double v=-7.25; bool ok=strtk::string_to_type_converter(s,v); CHECKM(ok,"decimal text accepted"); if (ok) sym_close(v,num,e,1e-13,"value of the decimal text"); sym_reach("value"); sym_observe(ok); }
