//@ job hnum args=0..7
//@ job hdig args=1..18,101..110,201..206
//@ job hstr args=0..10,16
//@ job b64num args=1..8
//@ job b64any args=0..6,9,12,13
//@ job parse args=0..3
//@ job far args=33,64,65,129,257,1025
//@ bound hexadecimal numbers: every text of 0..7 bytes, digit strings of up to 18 digits (all digits free up to 5, five free digits beyond) with and without 0x (8/4-byte and 2-byte targets); base64 numbers: values of 1..8 bytes (all bytes free up to 3, three free bytes beyond), every text of up to 13 bytes for memory safety; embedded in a parsed line: every 3-byte field pair
//@ bound hexadecimal strings of up to 2050 digits with three arbitrary ones
#include "common.h"
#include <cstring>
static bool hexc(unsigned char c){ unsigned d=c-'0',u=(c&0xDF)-'A'; return (d<=9)|(u<=5); }
static unsigned val(unsigned char c){ unsigned d=c-'0',u=(c&0xDF)-'A'; return (d<=9)*d+(u<=5)*(u+10); }
template <typename T> static void hnum(const char* p,int n)
{
   int o=(n>2&&p[0]=='0'&&(p[1]=='x'||p[1]=='X'))?2:0; bool good=(n-o>0)&&(n-o<=(int)(2*sizeof(T))); unsigned long long r=0; if (good) for(int i=o;i<n;++i){ good=good&hexc(p[i]); r=r*16+val(p[i]); }
   T v=T(77); strtk::hex_to_number_sink<T> s(v); CHECKM(!s.valid(),"nothing read yet"); s=std::make_pair(p,p+n); CHECKM(s.valid()==good,"validity reported"); if (good) { CHECKM(v==T(r),"value of the hexadecimal number"); sym_reach("value"); } else CHECKM(v==T(77),"destination untouched"); sym_observe(good);
   s=std::string("0x1"); CHECKM(s.valid()&&v==T(1),"a sink can be reused"); s=std::string("g"); CHECKM(!s.valid()&&v==T(1),"an invalid text clears validity"); strtk::hex_to_number_sink<T> c(s); CHECKM(!c.valid(),"copies carry the state");
}
JOB(hnum){ char* p=new char[arg]; sym_bytes(p,arg); hnum<unsigned short>(p,arg); delete[] p; }
JOB(hdig){ int n=arg%100,m=arg/100; std::string s; if (sym_choose(2)) s="0x"; for(int i=0;i<n;++i){ if (n>5 && !(i==0||i==n-1||i==n/2||i==n/4||i==n-2)) { s+="9A3cF"[i%5]; continue; } unsigned char c=sym_u8(); sym_assume(hexc(c)); s+=(char)c; } if (s.size()<=2||s[1]!='x') if (n>2) sym_assume(s[1]!='x');
   char* p=new char[s.size()]; memcpy(p,s.data(),s.size()); if (m==0) hnum<unsigned long long>(p,s.size()); else if (m==1) hnum<int>(p,s.size()); else hnum<short>(p,s.size()); delete[] p; }
JOB(hstr){ char* p=new char[arg]; sym_bytes(p,arg); int o=(arg>2&&p[0]=='0'&&(p[1]=='x'||p[1]=='X'))?2:0; int n=arg-o; std::string d="q"; strtk::hex_to_string_sink s(d); s=std::make_pair((const char*)p,(const char*)p+arg); bool good=n>=2&&n%2==0; CHECKM(s.valid()==good,"validity reported");
   if (good) { CHECKM((int)d.size()==n/2,"length"); bool ok=true; for(int i=0;i<n/2;++i) ok=ok&((unsigned char)d[i]==(unsigned char)(val(p[o+2*i])*16+val(p[o+2*i+1]))); CHECKM(ok,"bytes"); std::string d2; strtk::hex_to_string_sink s2(d2); s2=std::string(p,arg); CHECK(s2.valid()&&d2==d); sym_reach("str"); } delete[] p; }
JOB(b64num){ std::string b(arg,'\0'); for(int i=0;i<arg;++i) if (arg<=3||i==0||i==arg-1||i==arg/2) b[i]=(char)sym_u8(); else b[i]=(char)(0x9D*i+3); std::string e; strtk::convert_bin_to_base64(b,e); unsigned long long r=0; for(int i=0;i<arg;++i) r=r*256+(unsigned char)b[i];
   unsigned long long v=77; strtk::base64_to_number_sink<unsigned long long> s(v); s=e; CHECKM(s.valid()&&v==r,"value of the base64 number"); unsigned int w=77; strtk::base64_to_number_sink<unsigned int> t(w); t=std::make_pair(e.data(),e.data()+e.size()); CHECKM(t.valid()==(arg<=4),"a number that does not fit is rejected"); if (arg<=4) CHECKM(w==(unsigned)r,"value"); else CHECKM(w==77,"destination untouched"); strtk::base64_to_number_sink<unsigned int> c(t); CHECK(c.valid()==t.valid()); }
JOB(b64any){ char* p=new char[arg]; sym_bytes(p,arg); unsigned int v[2]={77,0xA5A5A5A5u}; strtk::base64_to_number_sink<unsigned int> s(v[0]); s=std::make_pair((const char*)p,(const char*)p+arg); bool alpha=true; for(int i=0;i<arg;++i){ unsigned char c=p[i]; alpha=alpha&(((c>='0')&(c<='9'))|((c>='A')&(c<='Z'))|((c>='a')&(c<='z'))|(c=='+')|(c=='/')|(c=='=')); }
   if (!alpha||arg==0||arg>8) { CHECKM(!s.valid(),"text outside the alphabet rejected"); CHECKM(v[0]==77,"destination untouched"); } CHECKM(v[1]==0xA5A5A5A5u,"nothing written past the number"); sym_observe(s.valid()); delete[] p; }
JOB(parse){ std::string s("12|"); int n=arg; std::string f; for(int i=0;i<n;++i){ char c=(char)sym_u8(); sym_assume(c!='|'); f+=c; } s+=f; s+="|0x1F|QQ=="; int a=0; unsigned int h=77; unsigned int h2=77; unsigned short b=77; strtk::hex_to_number_sink<unsigned int> k(h),k2(h2); strtk::base64_to_number_sink<unsigned short> q(b);
   bool ok=strtk::parse(s,"|",a,k,k2,q); bool good=n>0; unsigned r=0; int o=(n>2&&f[0]=='0'&&(f[1]=='x'||f[1]=='X'))?2:0; for(int i=o;i<n;++i){ good=good&hexc(f[i]); r=r*16+val(f[i]); } CHECKM(ok==good,"a line parses exactly when its hexadecimal field does"); if (ok) { CHECK(a==12&&h2==0x1F&&b==0x41); CHECKM(h==r,"value"); sym_reach("line"); } else CHECKM(h==77,"destination untouched"); sym_observe(ok); }
JOB(far){ std::string h=MIXED(2*arg,"09afAFc4"); if (sym_choose(2)) h="0x"+h; else sym_assume((h[1]!='x')&(h[1]!='X')); std::string d="q"; strtk::hex_to_string_sink s(d); s=h; int o=h.size()-2*arg; CHECKM(s.valid(),"validity reported"); CHECKM((int)d.size()==arg,"length"); bool ok=true; for(int i=0;i<arg;++i) ok=ok&((unsigned char)d[i]==(unsigned char)(val(h[o+2*i])*16+val(h[o+2*i+1]))); CHECKM(ok,"bytes"); h.erase(h.size()-1); std::string e="q"; strtk::hex_to_string_sink t(e); t=h; CHECKM(!t.valid(),"odd text rejected");
   unsigned long long v=77; strtk::hex_to_number_sink<unsigned long long> k(v); k=h; CHECKM(!k.valid()&&v==77,"a number that does not fit is rejected"); strtk::base64_to_number_sink<unsigned long long> b(v); b=std::string(arg,'Q'); CHECKM(!b.valid()&&v==77,"a number that does not fit is rejected"); }
