//@ job member args=0..19 t=300
//@ job keep args=0..5 t=300
//@ job table args=0..7
//@ job combine args=0..5 t=300
//@ job squash args=0..5 t=300
//@ job forms args=0..6
//@ job params args=0
//@ job far args=0..5
//@ job wide args=0..5
//@ bound filters of 8..256 bits (also sizes that are no multiple of 8), 1..3 (one with 128) hash functions; keys of up to 19 bytes with every content; up to 2 keys inserted; compression in one or two steps by 10..90 percent
//@ bound tables of up to 2048 bits with up to 4 hash functions, 12 keys (600 in each operand of a combination), one of up to 65 bytes with one arbitrary one
//@ assume table sizes and hash counts are set directly (computing them from the wanted false positive rate uses log and pow)
#include "common.h"
namespace bl=strtk::bloom;
static bl::parameters par(unsigned k,unsigned long long bits,unsigned long long seed=0xA5A5A5A55A5A5A5AULL){ bl::parameters p; p.projected_element_count=10; p.false_positive_probability=0.01; p.random_seed=seed; p.optimal_parameters.number_of_hashes=k; p.optimal_parameters.table_size=bits; return p; }
static std::string key(int n){ std::string s(n,0); if (n) sym_bytes(&s[0],n); return s; }
struct F : bl::filter { F(const bl::parameters& p):bl::filter(p){} F(){} size_t bytes() const { return (size_t)((table_size_+7)/8); } };
struct C : bl::compressible_filter { C(const bl::parameters& p):bl::compressible_filter(p){} };
static bool zero(const F& f){ int z=1; for(size_t i=0;i<f.bytes();++i) z&=(f.table()[i]==0); return z; }
JOB(member){ F f(par(arg%3+1,arg%2?16:64)); CHECK(!!f&&f.size()==(arg%2?16u:64u)&&f.hash_count()==(size_t)(arg%3+1)); std::string k=key(arg); CHECKM(!f.contains(k),"an empty filter contains nothing"); f.insert(k); CHECKM(f.contains(k),"an inserted key is contained"); CHECK(f.element_count()==1); CHECKM(f.contains((const unsigned char*)k.data(),k.size())&&f.contains(k.data(),k.size()),"in every form"); F g(par(arg%3+1,arg%2?16:64)); g.insert((const unsigned char*)k.data(),k.size()); CHECKM(f==g,"all forms insert the same key"); f.clear(); CHECKM(!f.contains(k)&&zero(f)&&f.element_count()==0,"cleared"); }
JOB(keep){ int b[]={16,24,64,20,8,32}; F f(par(2,b[arg])); std::string k=key(sym_choose(4)),l=key(3); f.insert(k); CHECK(f.contains(k)); f.insert(l); CHECKM(f.contains(k)&&f.contains(l),"later insertions lose nothing"); CHECK(f.element_count()==2); }
// sizes that are no multiple of 8: every index fits; the extreme hash counts
JOB(table){ int b[]={1,7,9,15,17,100,250,63}; F f(par(arg==7?3:1,b[arg])); std::string k=key(2); f.insert(k); CHECKM(f.contains(k),"an inserted key is contained"); CHECK(f.size()==(unsigned)b[arg]); F g(f); CHECK(g==f&&g.contains(k)); f.clear(); CHECK(zero(f)&&!(g==f)); }
JOB(combine){ int op=arg%3; bool member=arg>=3; F a(par(2,16)),b(par(2,16)); std::string x=key(2),y=key(2),z=key(1); if (op==2) { a.insert(x); b.insert(x); } else { a.insert(x); b.insert(y); if (op==1) { a.insert(z); b.insert(z); } } 
   F r(a); CHECKM(r==a&&!(r!=a),"a copy is equal"); if (op==0) { if (member) r|=b; else r=F(static_cast<const F&>(a)), static_cast<bl::filter&>(r)=a|b; CHECKM(r.contains(x)&&r.contains(y),"the union contains the keys of both"); } else if (op==1) { if (member) r&=b; else static_cast<bl::filter&>(r)=a&b; CHECKM(r.contains(z),"the intersection contains the common keys"); } else { if (member) r^=b; else static_cast<bl::filter&>(r)=a^b; CHECKM(zero(r),"the difference of equal tables is empty"); }
   const unsigned char* t=r.table(); for(int i=0;i<2;++i) { unsigned char e=op==0?(a.table()[i]|b.table()[i]):op==1?(a.table()[i]&b.table()[i]):(a.table()[i]^b.table()[i]); CHECKM(t[i]==e,"bitwise combination"); }
   // other geometry or seed: nothing happens
   F c(par(2,24)),d(par(2,16,77)),e(par(1,16)); F s(r); r|=c; r&=d; r^=e; r&=c; r^=d; r|=e; CHECKM(r==s,"filters of different geometry are not combined"); }
JOB(squash){ double pc[]={10,50,25,75,90,60}; C f(par(2,arg==4?128:arg==1?24:32)); std::string k=key(2),l=key(1); f.insert(k); double p=pc[arg]; unsigned long long n=f.size(); bool ok=f.compress(p); CHECKM(ok,"compressed"); CHECKM(f.size()<n&&f.size()%8==0,"smaller"); CHECKM(f.contains(k),"compression loses nothing"); f.insert(l); CHECKM(f.contains(k)&&f.contains(l),"insertion after compression"); C g(f); n=f.size(); if (f.compress(50)) { CHECK(f.size()<n); CHECKM(f.contains(k)&&f.contains(l),"compression twice"); } CHECK(g.contains(k)&&g.contains(l)); g&=f; f|=g; CHECKM(f.contains(k),"no overrun when sizes differ"); CHECK(!f.compress(0)&&!f.compress(-1)&&!f.compress(100)&&!f.compress(1000)); C h(par(1,8)); CHECK(!h.compress(50)); f.clear(); CHECKM(!f.contains(k),"cleared"); }
JOB(forms){ switch(arg){ case 0: { F f(par(2,32)); int x=sym<int>(); f.insert(x); CHECK(f.contains(x)); CHECK(f.contains((const unsigned char*)&x,sizeof x)); break; } case 1: { F f(par(2,32)); double x=sym<double>(); f.insert(x); CHECK(f.contains(x)); break; } case 2: { F f(par(2,16)); std::vector<std::string> v; for(int i=0;i<2;++i) v.push_back(key(i)); f.insert(v.begin(),v.end()); CHECK(f.element_count()==2); CHECKM(f.contains_all(v.begin(),v.end())==v.end(),"all inserted keys are contained"); CHECKM(f.contains_none(v.begin(),v.end())==v.begin(),"the first contained key"); break; }
     case 3: { F f(par(2,16)); std::vector<std::string> v; for(int i=0;i<2;++i) v.push_back(key(1)); f.insert(v[0]); std::vector<std::string>::iterator a=f.contains_all(v.begin(),v.end()),n=f.contains_none(v.begin(),v.end()); CHECK(a==(f.contains(v[1])?v.end():v.begin()+1)); CHECK(n==v.begin()); CHECK(f.contains_none(v.begin()+1,v.end())==(f.contains(v[1])?v.begin()+1:v.end())); break; }
     case 4: { F f(par(2,16)),e; CHECK(!e); F g(e); CHECK(!g); e=f; CHECK(e==f&&!!e); f.insert(key(1)); e=f; CHECK(e==f); F& me=f; f=me; CHECK(e==f); f=g; CHECK(!f); break; }
     case 5: { F f(par(128,64)); CHECK(f.hash_count()==128); f.insert("abc",3); CHECK(f.contains("abc",3)); break; }
     default: { F a(par(3,64)),b(par(3,64)); std::string k=key(3),l=key(3); a.insert(k); b.insert(l); bool same=(k[0]==l[0])&(k[1]==l[1])&(k[2]==l[2]); if (same) CHECKM(a==b,"equal keys make equal tables"); CHECKM(a.contains(l)==b.contains(k)||a!=b,"membership depends on the table only"); } } }
JOB(params){ bl::parameters p; CHECK(!!p); p.minimum_size=sym<unsigned long long>(); p.maximum_size=sym<unsigned long long>(); p.minimum_number_of_hashes=sym<unsigned>(); p.maximum_number_of_hashes=sym<unsigned>(); p.projected_element_count=sym<unsigned long long>(); p.random_seed=sym<unsigned long long>(); int bad=(p.minimum_size>p.maximum_size)|(p.minimum_number_of_hashes>p.maximum_number_of_hashes)|(p.minimum_number_of_hashes<1)|(p.maximum_number_of_hashes==0)|(p.projected_element_count==0)|(p.random_seed==0)|(p.random_seed==~0ULL); CHECKM(!p==(bad!=0),"invalid parameters are refused"); if (bad) CHECK(!p.compute_optimal_parameters()); 
   unsigned char buf[64]; strtk::binary::writer w(buf,sizeof buf); CHECK(p(w)); strtk::binary::reader r(buf,w.amount_written()); bl::parameters q; CHECK(q(r)); CHECKM((q.minimum_size==p.minimum_size)&(q.maximum_size==p.maximum_size)&(q.minimum_number_of_hashes==p.minimum_number_of_hashes)&(q.maximum_number_of_hashes==p.maximum_number_of_hashes)&(q.projected_element_count==p.projected_element_count)&(q.random_seed==p.random_seed),"parameters survive serialisation"); }
// larger tables, more hash functions, more keys, long keys
JOB(far){ static const int B[]={256,512,1024,320,2048,511},H[]={3,4,3,2,3,2}; F f(par(H[arg],B[arg])); int n=1+arg*2; std::vector<std::string> k; for(int i=0;i<n;++i){ std::string s(1+(i*13)%60,char('a'+i)); k.push_back(s); } std::string y(20+arg*9,'q'); y[sym_choose(2)?0:y.size()-1]=(char)sym_u8(); f.insert(y); for(int i=0;i<n;++i) f.insert(k[i]); CHECKM(f.contains(y),"an inserted key is contained"); int ok=1; for(int i=0;i<n;++i) ok&=f.contains(k[i]); CHECKM(ok,"later insertions lose nothing"); CHECK((int)f.element_count()==n+1); F g(f),h(par(H[arg],B[arg])); CHECK(g==f&&g.contains(y)); h|=f; CHECKM(h.contains(y),"the union contains the keys of both"); f.clear(); CHECK(zero(f)&&g.contains(y)); sym_reach("far"); }

// combinations of well filled larger tables, every byte of the table
JOB(wide){ static const int B[]={64,72,128,512,2048,333}; int op=sym_choose(3); bool member=sym_choose(2); F a(par(2,B[arg])),b(par(2,B[arg])); int n=B[arg]>600?600:B[arg]*3/8,v=sym_choose(8)*10007; for(int i=0;i<n;++i) { int x=i*77+5+v,y=i*91+3+v; if (i%3) a.insert(x); if (i%3!=1) b.insert(y); if (i%5==0) { a.insert(-x); b.insert(-x); } } char z[2]={'k',(char)sym_u8()}; (sym_choose(2)?a:b).insert(z,2); F r(a); if (member) { if (op==0) r|=b; else if (op==1) r&=b; else r^=b; } else static_cast<bl::filter&>(r)=op==0?a|b:op==1?a&b:a^b; int ok=1; for(size_t i=0;i<r.bytes();++i) { unsigned char e=op==0?(a.table()[i]|b.table()[i]):op==1?(a.table()[i]&b.table()[i]):(a.table()[i]^b.table()[i]); ok&=r.table()[i]==e; } CHECKM(ok,"bitwise combination"); if (op==0) { CHECKM(r.contains(z,2),"the union contains the keys of both"); for(int i=0;i<n;++i) { if (i%3) CHECK(r.contains(i*77+5+v)); if (i%3!=1) CHECK(r.contains(i*91+3+v)); } } if (op==1) for(int i=0;i<n;i+=5) CHECKM(r.contains(-(i*77+5+v)),"the intersection contains the common keys"); sym_reach("wide"); }
