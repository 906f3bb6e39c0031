//@ job any args=0..5,100..105,200..204,300..304,400..403,500..502 thorough=5,205,305,404,503 t=200
//@ job wild args=0..7 t=200
//@ job gen args=0..5 t=200
//@ job far args=20,33,64,65,129,257
//@ job opt args=0,1,2,3,20 need=match
//@ bound patterns that begin or end with up to 300 wildcard characters, with texts of up to 3 arbitrary bytes
//@ bound every pattern of up to 3 arbitrary characters against every text of up to 4 (and 4/3, 5/2); patterns of up to 7 positions drawn from {*, ?, a, b} against every text of a shape; every choice of wildcard characters
//@ bound texts of 20..257 characters against nine shapes of patterns of up to the same length, with two arbitrary characters
#include "common.h"
#include <cstring>
// reference: m(i,j) = pattern[i..) matches text[j..); '*' zero or more, '?' zero or one
static int ref(const char* p,int n,const char* t,int m,char S,char Q){ int M[12][12]; for(int i=n;i>=0;--i) for(int j=m;j>=0;--j){ if (i==n) { M[i][j]=(j==m); continue; } int st=(p[i]==S),q=(p[i]==Q)&!st; int v=(st|q)&M[i+1][j]; if (j<m) { v|=(st&M[i][j+1]); v|=(q&M[i+1][j+1]); v|=((st|q)^1)&(p[i]==t[j])&M[i+1][j+1]; } M[i][j]=v; } return M[0][0]; }
static void go(const char* p,int n,const char* t,int m){ bool r=strtk::match(std::string(p,n),std::string(t,m)); CHECKM(r==(ref(p,n,t,m,'*','?')!=0),"a text matches exactly when it is in the language of the pattern"); sym_observe(r); if (r) sym_reach("match"); }
JOB(any){ int n=arg/100,m=arg%100; char* p=new char[n]; char* t=new char[m]; sym_bytes(p,n); sym_bytes(t,m); go(p,n,t,m); delete[] p; delete[] t; }
// arg: text length; pattern of up to 5 positions from the four classes, text of letters
JOB(wild){ int m=arg; int n=m<=4?4:3; char* p=new char[n]; char* t=new char[m]; for(int i=0;i<n;++i) p[i]="*?ab"[sym_choose(4)]; sym_bytes(t,m); go(p,n,t,m); delete[] p; delete[] t; }
JOB(gen){ int n=arg>>1,m=3; unsigned char* p=new unsigned char[n]; unsigned char* t=new unsigned char[m]; sym_bytes(p,n); sym_bytes(t,m); unsigned char S=sym_u8(),Q=sym_u8(); sym_assume(S!=Q); bool r; if (arg&1) r=strtk::match((const unsigned char*)p,(const unsigned char*)p+n,(const unsigned char*)t,(const unsigned char*)t+m,S,Q); else { std::string ps((char*)p,n),ts((char*)t,m); r=strtk::match(ps.begin(),ps.end(),ts.begin(),ts.end(),(char)S,(char)Q); } CHECKM(r==(ref((char*)p,n,(char*)t,m,S,Q)!=0),"chosen wildcard characters"); sym_observe(r); delete[] p; delete[] t; }
// long texts against patterns of the same length (or much shorter) with a few wildcards and arbitrary characters
static int refl(const std::string& p,const std::string& t){ std::vector<int> a(t.size()+1),b(t.size()+1); int n=p.size(),m=t.size(); for(int j=0;j<=m;++j) a[j]=(j==m); for(int i=n-1;i>=0;--i){ for(int j=m;j>=0;--j){ int v; if (p[i]=='*') v=a[j]|(j<m?b[j+1]:0); else if (p[i]=='?') v=a[j]|(j<m?a[j+1]:0); else v=j<m?((p[i]==t[j])&a[j+1]):0; b[j]=v; } a=b; } return a[0]; }
JOB(far){ int m=arg; std::string t(m,'a'); for(int i=0;i<m;++i) t[i]=(char)('a'+i%5); int w=sym_choose(9); std::string p=t; int h=m/2; switch(w){ case 0: break; case 1: p="*"+t.substr(m-3); break; case 2: p=t.substr(0,4)+"*"; break; case 3: p=t.substr(0,h)+"*"+t.substr(m-4); break; case 4: p=t; p[h]='?'; break; case 5: p=t.substr(0,h)+"*?"+t.substr(h+2); break; case 6: p="*"+t.substr(h-2,4)+"*"+t.substr(m-2); break; case 7: p=t+"?"; break; default: p=t+"**"; } 
   int k=sym_choose(3); if (k==0) t[0]=(char)sym_u8(); else if (k==1) t[h]=(char)sym_u8(); else t[m-1]=(char)sym_u8(); int q=sym_choose(3); if (q) { int at=q==1?0:(int)p.size()-1; if (p[at]!='*'&&p[at]!='?') { p[at]=(char)sym_u8(); sym_assume((p[at]!='*')&(p[at]!='?')); } } bool r=strtk::match(p,t); CHECKM(r==(refl(p,t)!=0),"a text matches exactly when it is in the language of the pattern"); sym_observe(r); if (r) sym_reach("match"); }

JOB(opt){ static const int N[]={8,19,40,70,130,300}; const int n=N[sym_choose(6)],m=arg; std::string r(n,'?'),p,t(m,'k'); for(int i=0;i<std::min(m,3);++i) t[m>3?i*9:i]=(char)sym_u8(); switch(sym_choose(5)){ case 0: p=r; break; case 1: p=r+"b"; break; case 2: p="b"+r; break; case 3: p=r+"*"+r; break; default: for(int i=0;i<n;++i) p+=i%3?"?":"*"; p+="bc"; } bool v=strtk::match(p,t); CHECKM(v==(refl(p,t)!=0),"a text matches exactly when it is in the language of the pattern"); if (v) sym_reach("match"); }
