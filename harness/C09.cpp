//@ job hex args=0..12,17,32 thorough=48,64
//@ job bad args=0..6,9,16,24 thorough=40,64
//@ job ptr args=1..8
//@ job digit args=0
//@ job far args=31,33,63..65,127..129,255..257,513,1025,4097
//@ bound round trip: every binary string of 0..12, 17 and 32 bytes (thorough 64); decoding: every text of 0..6, 9, 16 and 24 bytes (thorough 64)
//@ bound selected lengths up to 4097 with the first, middle and last byte arbitrary
#include "common.h"
static const char* D="0123456789ABCDEF";
static unsigned val(unsigned char c){ unsigned d=c-'0',u=(c&0xDF)-'A'; return (d<=9)*d+(u<=5)*(u+10); }
JOB(hex){ std::string s(arg,'\0'); if (arg) sym_bytes(&s[0],arg); std::string h(arg&1?3:600,'z'); strtk::convert_bin_to_hex(s,h); CHECKM((int)h.size()==2*arg,"two digits per byte"); bool good=true;
   for(int i=0;i<arg;++i){ unsigned char c=s[i]; good=good&((unsigned char)h[2*i]==(unsigned char)((c>>4)<10?'0'+(c>>4):'A'+(c>>4)-10))&((unsigned char)h[2*i+1]==(unsigned char)((c&15)<10?'0'+(c&15):'A'+(c&15)-10)); } CHECKM(good,"upper case hexadecimal digits in order");
   CHECKM(strtk::convert_bin_to_hex(s)==h,"by-value form agrees"); std::string b(arg&2?1:300,'q'); bool ok=strtk::convert_hex_to_bin(h,b); CHECKM(ok==(arg>0),"decoding accepted"); if (ok) CHECKM(b==s,"decode(encode(x)) == x"); sym_observe(ok); sym_reach("hex"); }
JOB(bad){ char* p=new char[arg]; sym_bytes(p,arg); std::string h(p,arg),q(arg%3?1:300,'q'),b=q; bool ok=strtk::convert_hex_to_bin(h,b); CHECKM(ok==(arg>0&&arg%2==0),"odd or empty text rejected"); if (!ok) CHECKM(b==q,"destination untouched");
   else { CHECKM((int)b.size()==arg/2,"half the length"); bool good=true; for(int i=0;i<arg/2;++i) good=good&((unsigned char)b[i]==(unsigned char)(val(p[2*i])*16+val(p[2*i+1]))); CHECKM(good,"each pair of digits is one byte, either case"); sym_reach("ok"); }
   unsigned char* u=new unsigned char[arg/2+1]; u[arg/2]=0xA5; ok=strtk::convert_hex_to_bin((unsigned char*)p,(unsigned char*)p+arg,u); CHECK(ok==(arg>0&&arg%2==0)); CHECKM(u[arg/2]==0xA5,"nothing written past the output"); if (ok) CHECKM(std::string((char*)u,arg/2)==b,"pointer form agrees"); delete[] u; delete[] p; }
JOB(ptr){ unsigned char* p=new unsigned char[arg]; sym_bytes(p,arg); unsigned char* o=new unsigned char[2*arg]; strtk::convert_bin_to_hex(p,p+arg,o); unsigned char* q=new unsigned char[arg]; CHECK(strtk::convert_hex_to_bin(o,o+2*arg,q)); bool good=true; for(int i=0;i<arg;++i) good=good&(p[i]==q[i]); CHECKM(good,"round trip through exact buffers");
   strtk::convert_bin_to_hex(std::make_pair((const unsigned char*)p,(const unsigned char*)p+arg),o); CHECK(strtk::convert_hex_to_bin(std::make_pair((const char*)o,(const char*)o+2*arg),(char*)q)); for(int i=0;i<arg;++i) good=good&(p[i]==q[i]); CHECKM(good,"round trip through ranges"); for(int i=0;i<2*arg;++i) o[i]=(unsigned char)(o[i]|((o[i]>='A')<<5)); CHECK(strtk::convert_hex_to_bin(o,o+2*arg,q)); for(int i=0;i<arg;++i) good=good&(p[i]==q[i]); CHECKM(good,"lower case digits accepted"); delete[] p; delete[] o; delete[] q; sym_reach("ptr"); }
JOB(digit){ unsigned char c=sym_u8(); bool is=(c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'); CHECKM(strtk::text::is_hex_digit(c)==is,"hex digit predicate"); CHECKM(strtk::text::is_hex_digit((char)c)==is,"hex digit predicate (char)"); sym_observe(is); }
JOB(far){ std::string s=MIXED(arg,"\x00\xFF" "a9\x7F\x80\n"),h(arg&1?0:9000,'z'),b(arg&1?0:9000,'z'); strtk::convert_bin_to_hex(s,h); CHECKM((int)h.size()==2*arg,"two digits per byte"); bool good=true; for(int i=0;i<arg;++i){ unsigned char c=s[i]; good=good&((unsigned char)h[2*i]==(unsigned char)((c>>4)<10?'0'+(c>>4):'A'+(c>>4)-10))&((unsigned char)h[2*i+1]==(unsigned char)((c&15)<10?'0'+(c&15):'A'+(c&15)-10)); } CHECKM(good,"upper case hexadecimal digits in order"); CHECKM(strtk::convert_hex_to_bin(h,b)&&b==s,"decode(encode(x)) == x"); h.resize(2*arg-1); b="q"; CHECKM(!strtk::convert_hex_to_bin(h,b)&&b=="q","odd text rejected"); sym_reach("far"); }
