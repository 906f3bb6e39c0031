//@ job b64 args=0..18,30,31,32 thorough=45,46,47
//@ job dec args=0..8,11,12 thorough=20,21
//@ job canon args=1..6
//@ job far args=33,63..65,127..129,255..257,513,1025,3073
//@ bound round trip: every binary string of 0..18 and 30..32 bytes (thorough 47); decoding memory safety: every text of 0..8, 11, 12 bytes (thorough 21)
//@ bound selected lengths up to 3073 with the first, middle and last byte arbitrary
#include "common.h"
#include <cstring>
static const char* A="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static unsigned char enc6(unsigned v){ return (unsigned char)A[v&63]; }
JOB(b64){ std::string s(arg,'\0'); if (arg) sym_bytes(&s[0],arg); std::string e(arg&1?3:600,'z'); strtk::convert_bin_to_base64(s,e); CHECKM((int)e.size()==(arg+2)/3*4,"four characters per started triple"); bool good=true;
   for(int i=0;i<arg;i+=3){ unsigned b0=(unsigned char)s[i],b1=i+1<arg?(unsigned char)s[i+1]:0,b2=i+2<arg?(unsigned char)s[i+2]:0; unsigned char* q=(unsigned char*)&e[i/3*4]; good=good&(q[0]==enc6(b0>>2))&(q[1]==enc6((b0<<4)|(b1>>4)))&(q[2]==(i+1<arg?enc6((b1<<2)|(b2>>6)):'='))&(q[3]==(i+2<arg?enc6(b2):'=')); }
   CHECKM(good,"RFC 4648 alphabet, order and padding"); std::string d(arg&2?1:600,'q'); strtk::convert_base64_to_bin(e,d); CHECKM(d==s,"decode(encode(x)) == x"); sym_observe(d.size()); sym_reach("b64");
   if (arg%3){ std::string n=e; while(!n.empty()&&n[n.size()-1]=='=') n.erase(n.size()-1); std::string d2; strtk::convert_base64_to_bin(n,d2); CHECKM(d2==s,"padding may be omitted"); }
   if (arg){ unsigned char* p=new unsigned char[arg]; memcpy(p,s.data(),arg); unsigned char* o=new unsigned char[e.size()]; CHECKM(strtk::convert_bin_to_base64(p,p+arg,o)==e.size(),"reported size"); CHECKM(memcmp(o,e.data(),e.size())==0,"pointer form agrees"); unsigned char* r=new unsigned char[arg]; CHECKM((int)strtk::convert_base64_to_bin(o,o+e.size(),r)==arg,"reported decoded size"); CHECKM(memcmp(r,p,arg)==0,"decoding into an exact buffer"); delete[] p; delete[] o; delete[] r; } }
JOB(dec){ unsigned char* p=new unsigned char[arg]; sym_bytes(p,arg); unsigned char* o=new unsigned char[(3*arg)/4+1]; o[(3*arg)/4]=0xA5; std::size_t n=strtk::convert_base64_to_bin(p,p+arg,o); CHECKM(n<=(std::size_t)(3*arg)/4,"decoded size bounded by three quarters of the text"); CHECKM(o[(3*arg)/4]==0xA5,"nothing written past the output"); sym_observe(n); delete[] p; delete[] o; sym_reach("dec"); }
JOB(canon){ // any unpadded text over the alphabet decodes to the bits it denotes
   unsigned char* p=new unsigned char[arg]; unsigned v[8]; for(int i=0;i<arg;++i){ unsigned char x=sym_u8(); sym_assume(x<64); v[i]=x; p[i]=A[x]; } unsigned char* o=new unsigned char[(3*arg)/4+1]; std::size_t n=strtk::convert_base64_to_bin(p,p+arg,o); CHECK((int)n==3*arg/4); bool good=true;
   for(int i=0;i<(int)n && (i/3*4+(i%3)+1)<arg;++i){ int k=i/3*4; unsigned r= i%3==0? (v[k]<<2)|(v[k+1]>>4) : i%3==1? (v[k+1]<<4)|(v[k+2]>>2) : (v[k+2]<<6)|v[k+3]; good=good&(o[i]==(unsigned char)r); } if (arg%4!=1) CHECKM(good,"each group of four characters denotes three bytes"); delete[] p; delete[] o; sym_reach("canon"); }
JOB(far){ std::string s=MIXED(arg,"\x00\xFF" "a9\x7F\x80\n"),e(arg&1?0:9000,'z'),d(arg&1?0:9000,'z'); strtk::convert_bin_to_base64(s,e); CHECKM((int)e.size()==(arg+2)/3*4,"four characters per started triple"); bool good=true;
   for(int i=0;i<arg;i+=3){ unsigned b0=(unsigned char)s[i],b1=i+1<arg?(unsigned char)s[i+1]:0,b2=i+2<arg?(unsigned char)s[i+2]:0; unsigned char* q=(unsigned char*)&e[i/3*4]; good=good&(q[0]==enc6(b0>>2))&(q[1]==enc6((b0<<4)|(b1>>4)))&(q[2]==(i+1<arg?enc6((b1<<2)|(b2>>6)):'='))&(q[3]==(i+2<arg?enc6(b2):'=')); }
   CHECKM(good,"RFC 4648 alphabet, order and padding"); strtk::convert_base64_to_bin(e,d); CHECKM(d==s,"decode(encode(x)) == x"); while(!e.empty()&&e[e.size()-1]=='=') e.erase(e.size()-1); if (arg&1) d.clear(); strtk::convert_base64_to_bin(e,d); CHECKM(d==s,"padding may be omitted"); sym_reach("far"); }
