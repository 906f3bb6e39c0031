//@ job uint args=0..5,100..105 thorough=6..7,106..107 t=600
//@ job text args=0..6,100..106 thorough=7,107 t=400
//@ job uns args=0..5,100..105 thorough=6,106 t=400
//@ job many args=1..6,101..106
//@ job again args=0..5
//@ job checked args=0..4
//@ job far args=0..5,100..105
//@ bound every text of up to 5 (text keys 6; thorough 6, 7) bytes, strict and lenient mode, for unsigned keys by table (12 slots) and by map and for text keys; up to 2 pairs with every single-digit key, up to 4 with three keys (one unknown), 5 and 6 distinct ones, every single-character value; keys registered twice; parsers used twice; other delimiter bytes
//@ bound up to 40 pairs with keys of up to 11 and values of up to 40 characters
//@ assume an unsigned key of no digits is not part of the claim (the library reads it as key 0)
#include "ref_tokens.h"
#include "ref_int.h"
namespace kv=strtk::keyvalue;
// the two variables: an int under one key and a string under another
struct vars { int i; std::string s; vars():i(-7),s("#"){} bool operator==(const vars& o) const { return (i==o.i)&(s==o.s); } };
enum { NONE=0, INT=1, STR=2 };
// key: maps key text to NONE/INT/STR; returns false when the text is outside the claim
template <typename K> static bool ref(const std::string& t,char bd,char pd,bool lenient,K key,vars& v,size_t& fails)
{
   std::vector<char> isd; for(size_t i=0;i<t.size();++i) isd.push_back(t[i]==bd);
   ref_tokens r=ref_split(isd,M_DEFAULT); fails=0; if (!lenient&&r.empty()) return false;
   for(size_t k=0;k<r.size();++k){ int b=r[k].first,e=r[k].second; if (b==e) continue; int d=b; while(d<e&&t[d]!=pd) ++d; bool ok=false;
      if (d<e&&d+1<e) { int w=key(t.substr(b,d-b)); if (w==INT) { int x; ok=ref_int<int>(t.data()+d+1,e-d-1,x); if (ok) v.i=x; } else if (w==STR) { v.s=t.substr(d+1,e-d-1); ok=true; } }
      if (!ok) { if (!lenient) return false; ++fails; } }
   return true;
}
template <typename P,typename K> static void run(P& p,const std::string& t,char bd,char pd,bool lenient,K key,vars& v,vars& e,bool str=true)
{
   size_t f; bool ok=ref(t,bd,pd,lenient,key,e,f); typedef unsigned char u; bool g; if (str) g=p(t,lenient); else { u* b=(u*)const_cast<char*>(t.data()); g=p(std::make_pair(b,b+t.size()),lenient); }
   CHECKM(g==ok,lenient?"lenient parsing always completes":"strict parsing succeeds exactly when every pair is good");
   CHECKM(v.i==e.i,"integer variable"); CHECKM(v.s==e.s,"text variable"); if (lenient) CHECKM(p.failure_count()==f,"number of bad pairs"); if (ok&&v.i!=-7&&v.s!="#") sym_reach("both");
   if (lenient&&f==1) sym_reach("failed");
}
static int ukey(const std::string& k){ sym_assume(!k.empty()); unsigned long x=0; bool ok=true; for(size_t i=0;i<k.size();++i){ if ((unsigned char)(k[i]-'0')>9) return NONE; } for(size_t i=0;i<k.size();++i) x=x*10+(k[i]-'0'); return x==1?INT:x==10?STR:NONE; }
static int tkey(const std::string& k){ return k=="a"?INT:k=="bc"?STR:NONE; }
static std::string txt(int n){ std::string t(n,0); if (n) sym_bytes(&t[0],n); return t; }
JOB(uint){ kv::uintkey_map::options o; o.pair_block_delimiter='|'; o.pair_delimiter='='; o.key_count=12; kv::parser<kv::uintkey_map> p(o); vars v,e; CHECK(p.register_keyvalue(1,v.i)&&p.register_keyvalue(10,v.s)); CHECK(p.register_keyvalue(11,v.i)&&p.register_keyvalue(0,v.s)); int z=0; CHECKM(!p.register_keyvalue(12,z),"key outside the table refused");
   struct K { int operator()(const std::string& k) const { sym_assume(!k.empty()); unsigned long x=0; for(size_t i=0;i<k.size();++i){ if ((unsigned char)(k[i]-'0')>9) return NONE; } for(size_t i=0;i<k.size();++i) x=x*10+(k[i]-'0'); return (x==1)|(x==11)?INT:(x==10)|(x==0)?STR:NONE; } }; run(p,txt(arg%100),'|','=',arg>=100,K(),v,e,arg%2); }
JOB(text){ kv::options<unsigned char> o; o.pair_block_delimiter='|'; o.pair_delimiter='='; kv::parser<kv::stringkey_map> p(o); vars v,e; CHECK(p.register_keyvalue("a",v.i)&&p.register_keyvalue("bc",v.s)); run(p,txt(arg%100),'|','=',arg>=100,tkey,v,e,arg%2); }
JOB(uns){ kv::options<unsigned char> o; o.pair_block_delimiter=0xFE; o.pair_delimiter=','; kv::parser<kv::key_map<unsigned> > p(o); vars v,e; CHECK(p.register_keyvalue(1,v.i)&&p.register_keyvalue(10,v.s)); run(p,txt(arg%100),(char)0xFE,',',arg>=100,ukey,v,e,arg%2); }
// k pairs d=d, every key and value digit arbitrary, each key bound to its own variable except key 9
JOB(many){ int k=arg%100; bool len=arg>=100; std::string t; char key[8],val[8]; for(int i=0;i<k;++i){ key[i]=k<3?'0'+sym_choose(10):k<5?"089"[sym_choose(3)]:"012394"[i]; val[i]=(char)sym_u8(); sym_assume((val[i]!='|')); if (i) t+='|'; t+=key[i]; t+='='; t+=val[i]; }
   kv::uintkey_map::options o; o.pair_block_delimiter='|'; o.pair_delimiter='='; o.key_count=10; kv::parser<kv::uintkey_map> p(o); int x[9],e[9]; for(int i=0;i<9;++i){ x[i]=e[i]=-7; CHECK(p.register_keyvalue(i,x[i])); } bool ok=true; size_t f=0; for(int i=0;i<k;++i){ if (key[i]!='9'&&(unsigned char)(val[i]-'0')<10) e[key[i]-'0']=val[i]-'0'; else { ++f; if (!len) { ok=false; break; } } }
   bool g=p(t,len); CHECKM(g==ok,"every pair good"); for(int i=0;i<9;++i) CHECKM(x[i]==e[i],"each pair sets its own variable, the last one wins"); if (len) CHECKM(p.failure_count()==f,"number of bad pairs"); }
JOB(again){ kv::options<unsigned char> o; o.pair_block_delimiter='|'; o.pair_delimiter='='; vars v,w,e; 
   switch(arg){ case 0: { kv::parser<kv::stringkey_map> p(o); CHECK(p.register_keyvalue("a",w.i)&&p.register_keyvalue("bc",w.s)&&p.register_keyvalue("a",v.i)&&p.register_keyvalue("bc",v.s)); run(p,txt(4),'|','=',false,tkey,v,e); CHECKM(w==vars(),"a key registered again moves to the new variable"); break; }
     case 1: { kv::uintkey_map::options u; u.pair_block_delimiter='|'; u.pair_delimiter='='; u.key_count=11; kv::parser<kv::uintkey_map> p(u); CHECK(p.register_keyvalue(1,w.i)&&p.register_keyvalue(10,w.s)&&p.register_keyvalue(1,v.i)&&p.register_keyvalue(10,v.s)); run(p,txt(4),'|','=',false,ukey,v,e); CHECK(w==vars()); break; }
     case 2: case 3: { kv::parser<kv::stringkey_map> p(o); CHECK(p.register_keyvalue("a",v.i)&&p.register_keyvalue("bc",v.s)); std::string a=txt(arg==2?3:4),b=txt(arg==2?4:3); run(p,a,'|','=',true,tkey,v,e); run(p,b,'|','=',sym_choose(2),tkey,v,e); break; }
     case 4: { kv::parser<kv::stringkey_map> q(o); CHECK(q.register_keyvalue("a",v.i)&&q.register_keyvalue("bc",v.s)); kv::parser<kv::stringkey_map>* h=new kv::parser<kv::stringkey_map>(q); kv::parser<kv::stringkey_map> p(*h); delete h; run(p,txt(4),'|','=',true,tkey,v,e); break; }
     default: { kv::uintkey_map::options u; u.pair_block_delimiter='|'; u.pair_delimiter='='; u.key_count=11; kv::parser<kv::uintkey_map>* h=new kv::parser<kv::uintkey_map>(u); CHECK(h->register_keyvalue(1,v.i)&&h->register_keyvalue(10,v.s)); kv::parser<kv::uintkey_map> p(*h); delete h; run(p,txt(4),'|','=',true,ukey,v,e); } } }
struct kval { template <typename R> bool operator()(const R& r){ return r.second-r.first==1; } };
struct vval { template <typename R> bool operator()(const R& r){ return *r.first!='5'; } };
JOB(checked){ kv::options<unsigned char> o; o.pair_block_delimiter='|'; o.pair_delimiter='='; typedef kv::key_map<std::string,std::map<std::string,strtk::util::value>,kval,vval> M; kv::parser<M> p(o); vars v,e; CHECK(p.register_keyvalue("a",v.i)&&p.register_keyvalue("bc",v.s)&&p.register_keyvalue("b",v.s)); std::string t=txt(arg); size_t f=0; 
   // reference: a pair whose key has not one character, or whose value starts with '5', is bad
   bool ok=true; std::vector<char> isd; for(size_t i=0;i<t.size();++i) isd.push_back(t[i]=='|'); ref_tokens r=ref_split(isd,M_DEFAULT); for(size_t k=0;k<r.size();++k){ int b=r[k].first,d=r[k].second; if (b==d) continue; bool g=false; if (d-b>=3&&t[b]!='='&&t[b+1]=='='&&t[b+2]!='5') { if (t[b]=='a') { int x; g=ref_int<int>(t.data()+b+2,d-b-2,x); if (g) e.i=x; } else if (t[b]=='b') { e.s=t.substr(b+2,d-b-2); g=true; } } if (!g) ++f; }
   CHECK(p(t,true)==ok); CHECKM(v.i==e.i&&v.s==e.s,"validators decide which pairs are taken"); CHECK(p.failure_count()==f); }
// many pairs with long keys and values; one key byte and two value bytes arbitrary
JOB(far){ bool len=arg>=100; int a=arg%100; static const int K[]={9,17,33,40,20,12}; int k=K[a]; std::vector<std::string> key,val; for(int i=0;i<k;++i){ std::string q; if (a%2) { q=std::string("key")+std::string(i%7,'_')+char('A'+i%26)+char('a'+i/26); } else { int v=i*3+1; if (v>=100) q+=char('0'+v/100); if (v>=10) q+=char('0'+v/10%10); q+=char('0'+v%10); } key.push_back(q); val.push_back(std::string(1+i*7%40,char('a'+i%26))); } 
   int at=sym_choose(3); at=at==0?0:at==1?k/2:k-1; std::string& v=val[at]; v[0]=(char)sym_u8(); v[v.size()-1]=(char)sym_u8(); sym_assume((v[0]!='|')&(v[v.size()-1]!='|')); int unk=sym_choose(3); std::string t; for(int i=0;i<k;++i){ if (i) t+='|'; t+=(unk==1&&i==k/3)?std::string(a%2?"nokey":"998"):key[i]; t+='='; t+=val[i]; } if (unk==2) { t+="|"; t+=key[0]; t+="=last"; } 
   std::vector<std::string> x(k,"#"),e(k,"#"); bool ok=true; for(int i=0;i<k;++i) if (unk==1&&i==k/3) { if (!len) { ok=false; break; } } else e[i]=val[i]; if (unk==2&&ok) e[0]="last"; bool g; size_t fails=0;
   if (a%2) { kv::options<unsigned char> o; o.pair_block_delimiter='|'; o.pair_delimiter='='; kv::parser<kv::stringkey_map> p(o); for(int i=0;i<k;++i) CHECK(p.register_keyvalue(key[i],x[i])); g=p(t,len); fails=p.failure_count(); } else if (a==4) { kv::options<unsigned char> o; o.pair_block_delimiter='|'; o.pair_delimiter='='; kv::parser<kv::key_map<unsigned> > p(o); for(int i=0;i<k;++i) CHECK(p.register_keyvalue(i*3+1,x[i])); g=p(t,len); fails=p.failure_count(); } else { kv::uintkey_map::options o; o.pair_block_delimiter='|'; o.pair_delimiter='='; o.key_count=999; kv::parser<kv::uintkey_map> p(o); for(int i=0;i<k;++i) CHECK(p.register_keyvalue(i*3+1,x[i])); g=p(t,len); fails=p.failure_count(); }
   CHECKM(g==ok,"every pair good"); for(int i=0;i<k;++i) CHECKM(x[i]==e[i],"each pair sets its own variable, the last one wins"); if (len) CHECKM(fails==(unk==1?1u:0u),"number of bad pairs"); sym_reach("far"); }
