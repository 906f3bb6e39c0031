//@ flags -Dstrtk_enable_random
//@ job perm args=0..5 need=done
//@ job comb args=0..5 need=done
//@ job selk args=0..4,104..106,204..206,305,405 need=done
//@ job sel1 args=0..6
//@ job seeded args=0,1,2,7,40,130,300
//@ job data args=0..9,13,64,257
//@ job values args=0..9
//@ job refuse args=0..3
//@ bound every sequence of draws of a generator with 256 (from the third draw on 16) equally spaced values in [0,1) and of its extreme values, for up to 5 elements; any elements
//@ bound the seeded forms with two seeds for up to 300 elements with arbitrary contents; random data of 0..257 bytes; random values of every supported type over eight ranges per type
//@ assume a random number generator passed by the caller returns values in [0,1); boost's generators are executed as they are, with the seeds given
#include "common.h"
// an arbitrary generator: every draw is any multiple of 1/256, or the smallest or largest value below 1
struct Any { int n; Any():n(0){} double operator()(){ ++n; return sym_u8()/256.0; } double min() const { return 0.0; } double max() const { return 1.0; } };
struct Grid { int n; Grid():n(0){} double operator()(){ ++n; return sym_choose(16)/16.0; } double min() const { return 0.0; } double max() const { return 1.0; } };
struct Edge { int n; Edge():n(0){} double operator()(){ ++n; switch(sym_choose(3)){ case 0: return 0.0; case 1: return 1.0-1.0/9007199254740992.0; default: return 0.5; } } double min() const { return 0.0; } double max() const { return 1.0; } };
struct Bad { double lo,hi; double operator()(){ return 0.5; } double min() const { return lo; } double max() const { return hi; } };
struct El { int id; unsigned char v; };
typedef std::vector<El> S;
static S els(int n){ S s(n); for(int i=0;i<n;++i){ s[i].id=i; s[i].v=sym_u8(); } return s; }
// o holds elements of s at pairwise different positions
static void distinct(const S& o,const S& s){ std::vector<int> seen(s.size()); for(size_t i=0;i<o.size();++i){ CHECKM(o[i].id>=0&&o[i].id<(int)s.size(),"an element of the input"); int id=(int)sym_concretize(o[i].id); CHECKM(!seen[id],"no element twice"); seen[id]=1; CHECKM(o[i].v==s[id].v,"unchanged"); } }
template <typename R> static void perm(int n){ S s=els(n),o; R r; strtk::random_permutation(s.begin(),s.end(),r,std::back_inserter(o)); CHECKM((int)o.size()==n,"every element once"); distinct(o,s); sym_reach("done"); }
JOB(perm){ if (arg<=2&&sym_choose(2)) perm<Any>(arg); else if (arg==3&&sym_choose(2)) perm<Grid>(arg); else perm<Edge>(arg); }
template <typename R> static void comb(int n,int k){ S s=els(n),o; R r; CHECKM(strtk::random_combination(s.begin(),s.end(),k,r,std::back_inserter(o)),"possible"); CHECKM((int)o.size()==k,"as many as asked for"); distinct(o,s); sym_reach("done"); }
JOB(comb){ const int k=sym_choose(arg+1); if ((arg<=2||k<2)&&sym_choose(2)) comb<Any>(arg,k); else if (k<=3&&sym_choose(2)) comb<Grid>(arg,k); else comb<Edge>(arg,k); }
template <typename R> static void selk(int n,int k){ S s=els(n),o; R r; const size_t c=strtk::select_k_randomly(s.begin(),s.end(),k,std::back_inserter(o),r); CHECKM((int)c==std::min(n,k)&&(int)o.size()==std::min(n,k),"as many as asked for, or all"); distinct(o,s); sym_reach("done"); }
JOB(selk){ const int k=arg/100,n=arg%100; if (n-k<=2&&sym_choose(2)) selk<Any>(n,k); else selk<Edge>(n,k); }
template <typename R> static void sel1(int n){ S s=els(n),o; R r; strtk::select_1_randomly(s.begin(),s.end(),std::back_inserter(o),r); CHECKM((int)o.size()==(n?1:0),"one element"); distinct(o,s); }
JOB(sel1){ if (arg<=4&&sym_choose(2)) sel1<Any>(arg); else sel1<Edge>(arg); }
JOB(refuse){ S s=els(arg),o; Any r; CHECKM(!strtk::random_combination(s.begin(),s.end(),arg+1+sym_choose(3),r,std::back_inserter(o))&&o.empty()&&r.n==0,"more elements than there are"); Bad b={-1.0,1.0},c={0.0,2.0}; CHECKM(!strtk::random_combination(s.begin(),s.end(),arg,b,std::back_inserter(o))&&!strtk::random_combination(s.begin(),s.end(),arg,c,std::back_inserter(o))&&o.empty(),"a generator outside [0,1]"); strtk::random_permutation(s.begin(),s.end(),b,std::back_inserter(o)); strtk::random_permutation(s.begin(),s.end(),c,std::back_inserter(o)); CHECKM(o.empty(),"a generator outside [0,1]"); }
static const size_t seeds[]={0xA5A5A5A5,7};
static bool eq(const S& a,const S& b){ if (a.size()!=b.size()) return false; for(size_t i=0;i<a.size();++i) if (a[i].id!=b[i].id) return false; return true; }
JOB(seeded){ S s(arg); for(int i=0;i<arg;++i){ s[i].id=i; s[i].v=(unsigned char)i; } if (arg) s[arg/2].v=sym_u8(); const size_t sd=seeds[sym_choose(2)],pg=sym_choose(2)*5; S o,p,q; if (sym_choose(2)) { strtk::random_permutation(s.begin(),s.end(),std::back_inserter(o),sd,pg); strtk::random_permutation(s,std::back_inserter(p),sd,pg); CHECKM((int)o.size()==arg,"every element once"); } else { const size_t k=arg/2; strtk::random_combination(s.begin(),s.end(),k,std::back_inserter(o),sd,pg); strtk::random_combination(s,k,std::back_inserter(p),sd,pg); CHECKM(o.size()==k,"as many as asked for"); strtk::uniform_real_rng g(sd,pg); CHECK(strtk::select_k_randomly(s.begin(),s.end(),k,std::back_inserter(q),g)==k&&q.size()==k); distinct(q,s); double d=g(); CHECKM(d>=0.0&&d<1.0,"a value of [0,1)"); S z; strtk::select_1_randomly(s.begin(),s.end(),std::back_inserter(z),g); CHECK(z.size()==(arg?1:0)); distinct(z,s); } distinct(o,s); CHECKM(eq(o,p),"the same selection for the same seed"); }
JOB(data){ const int n=arg; unsigned char* b=new unsigned char[n]; unsigned char* c=new unsigned char[n+8]; for(int i=0;i<n;++i) b[i]=sym_u8(); std::vector<unsigned char> k(n+8); for(int i=0;i<n+8;++i) k[i]=c[i]=i<200?sym_u8():9; const int at=sym_choose(5); const unsigned sd=sym_choose(2)?7u:0xA5A5A5A5u; const unsigned pg=sym_choose(2)*3; strtk::generate_random_data(b,n,pg,sd); strtk::generate_random_data(c+at,n,pg,sd); for(int i=0;i<n;++i) CHECKM(b[i]==c[at+i],"the same data for the same seed"); for(int i=0;i<n+8;++i) if (i<at||i>=at+n) CHECKM(c[i]==k[i],"nothing outside is written"); if (n>=13) { int z=0; for(int i=0;i<n;++i) z|=b[i]^b[0]; CHECKM(z!=0,"random data"); } delete[] b; delete[] c; }
template <typename T> static void vals(T lo,T hi,bool half){ const size_t n=sym_choose(3)*20; const size_t sd=seeds[sym_choose(2)],pg=sym_choose(2)*3; std::vector<T> v; T* a=new T[n]; strtk::generate_random_values<T>(n,lo,hi,v,sd,pg); strtk::generate_random_values<T>(n,lo,hi,a,sd,pg); CHECKM(v.size()==n,"as many as asked for"); for(size_t i=0;i<n;++i){ CHECKM(v[i]>=lo&&(half?v[i]<hi:v[i]<=hi),"inside the range"); CHECKM(v[i]==a[i],"the same values for the same seed"); } if (n&&!half&&lo==hi) CHECK(v[0]==lo); delete[] a; }
template <typename T> static void ints(){ const T m=std::numeric_limits<T>::min(),x=std::numeric_limits<T>::max(); switch(sym_choose(6)){ case 0: vals<T>(m,x,false); break; case 1: vals<T>(0,1,false); break; case 2: vals<T>(T(3),T(3),false); break; case 3: vals<T>(T(x-1),x,false); break; case 4: vals<T>(m,T(m+2),false); break; default: vals<T>(T(m/2+1),T(x/2),false); } }
JOB(values){ switch(arg){ case 0: ints<char>(); break; case 1: ints<unsigned char>(); break; case 2: ints<short>(); break; case 3: ints<unsigned short>(); break; case 4: ints<int>(); break; case 5: ints<unsigned>(); break; case 6: ints<long>(); break; case 7: ints<unsigned long>(); break; case 8: vals<double>(-2.5,3.5,true); break; default: vals<float>(0.0f,1.0f,true); } }
