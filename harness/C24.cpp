//@ job next args=0..5,11..15,22..25,33..35,44..45 thorough=6,16,26,36,46 t=300
//@ job each args=0..6,10..16,20..26,30..36,40..46
//@ job stop args=0..5,10..15,20..25,30..35
//@ job nth args=0..8,11..18,22..28,33..38,44..48,55..58,66..68 t=300
//@ job perm args=0..5 thorough=6 t=800
//@ job perms args=0..5
//@ job iter args=1..5,11..15,22..25,33..35 thorough=6,16,26,36
//@ job choose args=1..70 thorough=71..103
//@ job far args=0..3
//@ job more args=0..4
//@ bound every sorted sequence of up to 5 symbolic values (equal ones included) for next_combination and the iterator; up to 6 distinct positions for the callbacks with every stopping point; every index of combinations of up to 8 and permutations of up to 5 (thorough 6) elements; binomials up to n=66 exactly (beyond modulo 2^64, thorough up to 103)
//@ bound steps and indexes of combinations of 20..40 elements (ends and a grid of selections), permutations of 20 elements at a grid of indexes
//@ bound 2, n-2 and n-1 of up to 16 elements; every index of their combinations
#include "common.h"
typedef std::vector<int> vec;
static vec sorted(int n){ vec v(n); for(int i=0;i<n;++i){ v[i]=(unsigned char)sym_u8(); if (i) sym_assume(v[i-1]<=v[i]); } return v; }
static bool less(const vec& a,const vec& b,int n){ for(int i=0;i<n;++i){ if (a[i]<b[i]) return true; if (a[i]>b[i]) return false; } return false; }
static unsigned long long binom(int n,int k){ if (k<0||k>n) return 0; std::vector<unsigned long long> r(k+1,0); r[0]=1; for(int i=1;i<=n;++i) for(int j=k;j>0;--j) r[j]+=r[j-1]; return r[k]; }
// distinct k-element selections of a sorted multiset, counted over its runs of equal values
static unsigned long long selections(const vec& v,int k){ std::vector<unsigned long long> c(k+1,0); c[0]=1; size_t i=0; while(i<v.size()){ size_t j=i; while(j<v.size()&&v[j]==v[i]) ++j; int m=j-i; std::vector<unsigned long long> d(k+1,0); for(int a=0;a<=k;++a) for(int b=0;b<=m&&b<=a;++b) d[a]+=c[a-b]; c=d; i=j; } return c[k]; }
// arg = k*10 + n
JOB(next){ int n=arg%10,k=arg/10; sym_assume(k<=n); vec v=sorted(n),o=v,prev; unsigned long long count=1,total=selections(v,k); bool seq=sym_choose(2); for(;;){ prev=v; bool more=seq?strtk::next_combination(v,(size_t)k):strtk::next_combination(v.begin(),v.begin()+k,v.end()); if (!more) break; ++count; CHECKM(count<=total,"no selection twice"); int ok=1; for(int i=1;i<k;++i) ok&=(v[i-1]<=v[i]); for(int i=k+1;i<n;++i) ok&=(v[i-1]<=v[i]); CHECKM(ok,"selection and rest are sorted"); CHECKM(less(prev,v,k),"selections in increasing order"); vec s=v; std::sort(s.begin(),s.end()); CHECKM(s==o,"the elements are rearranged only"); }
   CHECKM(count==(k==0||k==n?1:total),"every selection visited"); CHECKM(v==o,"the last step restores the sorted order"); }
static std::vector<vec> all(int n,int k){ std::vector<vec> r; for(int m=0;m<(1<<n);++m) if (__builtin_popcount(m)==k){ vec s; for(int i=0;i<n;++i) if (m>>i&1) s.push_back(i); r.push_back(s); } return r; }
struct col { std::vector<vec>* o; int stop; template <typename I> bool operator()(I b,I e){ o->push_back(vec(b,e)); return (int)o->size()!=stop; } };
struct colv { std::vector<vec>* o; template <typename I> void operator()(I b,I e){ o->push_back(vec(b,e)); } };
static void match(const std::vector<vec>& got,const vec& v,int n,int k)
{  // every position subset exactly once: values are distinct, so identify positions by value
   std::vector<vec> want=all(n,k); CHECKM(got.size()==want.size(),"number of combinations"); std::vector<int> seen(want.size(),0); for(size_t g=0;g<got.size();++g){ CHECK((int)got[g].size()==k); unsigned m=0; for(int i=0;i<k;++i) for(int j=0;j<n;++j) if (got[g][i]==v[j]) m|=1u<<j; CHECKM(__builtin_popcount(m)==k,"elements of the sequence"); for(size_t w=0;w<want.size();++w){ unsigned x=0; for(int i=0;i<k;++i) x|=1u<<want[w][i]; if (x==m) seen[w]++; } } for(size_t w=0;w<want.size();++w) CHECKM(seen[w]==1,"each combination exactly once"); }
JOB(each){ int n=arg%10,k=arg/10; vec v(n); for(int i=0;i<n;++i) v[i]=(i*5+3)%7*10+(int)(sym_u8()&7); vec o=v; std::vector<vec> got; bool cond=sym_choose(2); if (cond) strtk::for_each_combination_conditional(v.begin(),v.end(),k,col{&got,-1}); else strtk::for_each_combination(v.begin(),v.end(),k,colv{&got}); if (k>n) CHECKM(got.empty(),"too few elements"); else match(got,o,n,k); CHECKM(v==o,"the order is restored"); }
JOB(stop){ int n=arg%10,k=arg/10; vec v(n); for(int i=0;i<n;++i) v[i]=i; vec o=v; std::vector<vec> got,full; strtk::for_each_combination(v.begin(),v.end(),k,colv{&full}); v=o; int s=1+sym_choose((int)full.size()+1); strtk::for_each_combination_conditional(v.begin(),v.end(),k,col{&got,s}); CHECKM(got.size()==std::min((size_t)s,full.size()),"stops when told"); for(size_t i=0;i<got.size();++i) CHECKM(got[i]==full[i],"same order"); std::sort(v.begin(),v.end()); CHECK(v==o); }
JOB(nth){ int n=arg%10,k=arg/10; sym_assume(k<=n); unsigned long long c=binom(n,k),m=sym_u8(); sym_assume(m<c); bool comp=sym_choose(2); vec r; if (sym_choose(2)) strtk::nth_combination_sequence(m,(size_t)n,(size_t)k,std::back_inserter(r),comp); else { std::string s("abcdefgh"),o; s.resize(n); strtk::nth_combination_sequence((size_t)m,(size_t)k,s.begin(),s.end(),std::back_inserter(o),comp); for(size_t i=0;i<o.size();++i) r.push_back(o[i]-'a'); }
   std::vector<vec> w=all(n,k); std::sort(w.begin(),w.end()); m=sym_concretize(m); CHECKM((int)r.size()==(comp?n:k),"length"); for(int i=0;i<k;++i) CHECKM(r[i]==w[m][i],"the n-th combination in lexicographic order"); if (comp){ vec x; for(int i=0;i<n;++i) if (std::find(w[m].begin(),w[m].end(),i)==w[m].end()) x.push_back(i); for(int i=k;i<n;++i) CHECKM(r[i]==x[i-k],"followed by the others in order"); } }
// every index of the permutations, symbolically: the result is a permutation whose rank is the index
JOB(perm){ int k=arg; unsigned long f=1; for(int i=2;i<=k;++i) f*=i; unsigned long n=sym<unsigned>(); sym_assume(n<f); std::string s("abcdefgh"); s.resize(k); std::vector<unsigned long> p; int form=sym_choose(3); if (form==0) strtk::nth_permutation_sequence(n,(size_t)k,std::back_inserter(p)); else if (form==1) { std::string t=strtk::nth_permutation_sequence(n,s); for(size_t i=0;i<t.size();++i) p.push_back(t[i]-'a'); } else { std::vector<std::string::iterator> t; strtk::nth_permutation_sequence(n,s.begin(),s.end(),std::back_inserter(t)); for(size_t i=0;i<t.size();++i) p.push_back(t[i]-s.begin()); }
   CHECKM((int)p.size()==k,"length"); unsigned mask=0; for(int i=0;i<k;++i){ CHECKM(p[i]<(unsigned)k,"element"); mask|=1u<<p[i]; } CHECKM(mask==(1u<<k)-1,"a permutation"); unsigned long rank=0; for(int i=0;i<k;++i){ unsigned long c=0; for(int j=i+1;j<k;++j) c+=(p[j]<p[i]); rank=rank*(k-i)+c; } CHECKM(rank==n,"of the given rank"); }
JOB(perms){ vec v=sorted(arg),o=v; std::vector<vec> got; bool cond=sym_choose(2); int s=-1; if (cond){ s=1+sym_choose(7); bool r=strtk::for_each_permutation_conditional(v.begin(),v.end(),col{&got,s}); CHECKM(r==((int)got.size()<s||false)||(int)got.size()==s,"result"); CHECKM((int)got.size()<=s,"stops when told"); if ((int)got.size()==s) CHECKM(!r,"reports stopping"); else CHECKM(r,"reports completion"); } else strtk::for_each_permutation(v.begin(),v.end(),colv{&got}); unsigned long f=1; for(int i=2;i<=arg;++i) f*=i; size_t i=0; while(i<o.size()){ size_t j=i; while(j<o.size()&&o[j]==o[i]) ++j; for(size_t q=2;q<=j-i;++q) f/=q; i=j; } if ((int)got.size()!=s) { CHECKM(got.size()==f,"every distinct permutation"); CHECKM(v==o,"the order is restored"); } CHECK(got[0]==o); for(size_t g=1;g<got.size();++g) CHECKM(less(got[g-1],got[g],arg),"in increasing order"); }
JOB(iter){ int n=arg%10,k=arg/10; sym_assume(k<=n&&n>0); vec v=sorted(n),o=v; unsigned long long total=(k==0||k==n)?1:selections(v,k),count=0; typedef strtk::combination_iterator<vec::iterator> it_t; bool uns=sym_choose(2); if (uns) std::reverse(v.begin(),v.end()); int form=sym_choose(2); it_t it=form?it_t(k,v,!uns):it_t(k,v.begin(),v.end(),!uns),end=form?it_t(v):it_t(v.end()); vec prev; while(it!=end){ ++count; CHECKM(count<=total,"no selection twice"); CHECK((*it).first==v.begin()&&(*it).second==v.begin()+k); vec c((*it).first,(*it).second); if (count>1) CHECKM(less(prev,c,k),"increasing"); prev=c; if (count%3==0) it+=1; else if (count%3==1) ++it; else { it_t b=it++; CHECK(*b==*it||it==end); } } CHECKM(count==total,"every selection visited"); CHECKM(it==end,"end"); ++it; CHECKM(it==end,"stays at the end"); CHECKM(v==o,"sorted order restored"); if (count>2) sym_reach("several");
   std::string s("dcba"); strtk::combination_iterator<char*> a(2,s,false),e(s); int m=0; while(a!=e){ ++m; ++a; } CHECK(m==6&&s=="abcd"); const std::string cs("abcd"); strtk::combination_iterator<char*> ce(cs); (void)ce; }
JOB(choose){ int n=arg; for(int k=0;k<=n+1;++k) CHECKM(strtk::n_choose_k(n,k)==binom(n,k),"binomial coefficient"); unsigned long long k=sym<unsigned long long>(); sym_assume(k>(unsigned long long)n); CHECKM(strtk::n_choose_k(n,k)==0,"nothing to choose"); }
// more elements: the callbacks and the iterator with 2 and n-2 of n, indexes of large combinations and permutations
JOB(far){ static const int N[]={8,10,12,16}; int n=N[sym_choose(4)],k=sym_choose(2)?2:n-2; if (n>10&&k>2) k=n-1; vec v(n); for(int i=0;i<n;++i) v[i]=i*3; vec o=v; switch(arg){ case 0: { std::vector<vec> got; strtk::for_each_combination(v.begin(),v.end(),k,colv{&got}); CHECKM(got.size()==binom(n,k),"number of combinations"); std::set<vec> u(got.begin(),got.end()); CHECKM(u.size()==got.size(),"each combination exactly once"); CHECKM(v==o,"the order is restored"); break; }
   case 1: { unsigned long long m=sym_choose((int)binom(n,k)); vec r; strtk::nth_combination_sequence(m,(size_t)n,(size_t)k,std::back_inserter(r),false); CHECK((int)r.size()==k); unsigned long long rank=0; int prev=-1; for(int i=0;i<k;++i){ for(int j=prev+1;j<r[i];++j) rank+=binom(n-1-j,k-1-i); prev=r[i]; } CHECKM(rank==m,"of the given rank"); for(int i=1;i<k;++i) CHECK(r[i-1]<r[i]); break; }
   case 2: { size_t q=n>12?12:n; static const unsigned long long P[]={0,1,40319,40320,3628799,479001599,123456789}; unsigned long long f=1; for(size_t i=2;i<=q;++i) f*=i; unsigned long long m=P[sym_choose(7)]; sym_assume(m<f); std::vector<unsigned long> p; strtk::nth_permutation_sequence((size_t)m,q,std::back_inserter(p)); unsigned long long rank=0; unsigned mask=0; for(size_t i=0;i<q;++i){ unsigned long c=0; for(size_t j=i+1;j<q;++j) c+=(p[j]<p[i]); rank=rank*(q-i)+c; mask|=1u<<p[i]; } CHECKM(rank==m&&mask==(1u<<q)-1,"the permutation of the given rank"); break; }
   default: { v[n-1]=v[n-2]; v[1]=v[0]; o=v; unsigned long long total=selections(v,k),c=0; typedef strtk::combination_iterator<vec::iterator> it_t; it_t it(k,v.begin(),v.end(),true),end(v.end()); while(it!=end){ ++c; CHECKM(c<=total,"no selection twice"); ++it; } CHECKM(c==total&&v==o,"every selection visited"); } } sym_reach("far"); }

// still more elements: single steps, indexes and callbacks on 20 to 40 elements
static bool succ(vec& s,int n){ int k=s.size(),i=k-1; while(i>=0&&s[i]==n-k+i) --i; if (i<0) { for(int j=0;j<k;++j) s[j]=j; return false; } ++s[i]; for(int j=i+1;j<k;++j) s[j]=s[j-1]+1; return true; }
static vec rest(const vec& s,int n){ std::vector<char> in(n,0); for(size_t i=0;i<s.size();++i) in[s[i]]=1; vec r; for(int i=0;i<n;++i) if (!in[i]) r.push_back(i); return r; }
JOB(more){ static const int N[]={20,24,40}; const int n=N[sym_choose(3)]; switch(arg){
   case 0: { static const int D[]={1,2,3,19,20}; int k=D[sym_choose(5)]; if (sym_choose(2)) k=n-k; if (k<=0) return; int a=sym_choose(k+1),g=sym_choose(3); vec s; for(int i=0;i<k;++i) s.push_back(i<a?i:n-k+i); if (a<k) s[a]=std::max(a,s[a]-g); vec v=s,w=rest(s,n); v.insert(v.end(),w.begin(),w.end()); if (sym_choose(2)) { int x=sym_u8(); for(int i=0;i<n;++i) v[i]=v[i]*2+(x&1); const bool m=strtk::next_combination(v.begin(),v.begin()+k,v.end()); for(int i=0;i<n;++i) v[i]=(v[i]-(x&1))/2; CHECKM(m==succ(s,n),"whether there is another"); } else CHECKM(strtk::next_combination(v,(size_t)k)==succ(s,n),"whether there is another"); vec e=s; w=rest(s,n); e.insert(e.end(),w.begin(),w.end()); CHECKM(v==e,"the next selection in order, the rest sorted"); break; }
   case 1: { if (n==40) return; static const int D[]={1,2,3,19,20}; int k=D[sym_choose(5)]; if (k>n||(k==3&&n>20)||(k>n-2&&0)) return; const unsigned long long c=binom(n,k); int q=sym_choose(c>200?200:(int)c); unsigned long long m=c>200&&q>=100?c-1-(199-q):q; vec r; const bool comp=sym_choose(2); if (sym_choose(2)) strtk::nth_combination_sequence(m,(size_t)n,(size_t)k,std::back_inserter(r),comp); else { vec v(n),o; for(int i=0;i<n;++i) v[i]=i*3+1; strtk::nth_combination_sequence((size_t)m,(size_t)k,v.begin(),v.end(),std::back_inserter(o),comp); for(size_t i=0;i<o.size();++i) r.push_back((o[i]-1)/3); } CHECKM((int)r.size()==(comp?n:k),"length"); unsigned long long rank=0; int prev=-1; for(int i=0;i<k;++i){ CHECKM(r[i]>prev&&r[i]<n,"increasing"); for(int j=prev+1;j<r[i];++j) rank+=binom(n-1-j,k-1-i); prev=r[i]; } CHECKM(rank==m,"of the given rank"); if (comp) { vec w=rest(vec(r.begin(),r.begin()+k),n); CHECKM(std::equal(w.begin(),w.end(),r.begin()+k),"followed by the others in order"); } break; }
   case 2: { if (n!=20) return; unsigned long long f=1; for(int i=2;i<=n;++i) f*=i; const int q=sym_choose(24); const unsigned long long m=q<8?q:q<16?f-1-(q-8):f/17*(q-15)+q; std::vector<unsigned long> p; std::string s("abcdefghijklmnopqrst"); s[3]=(char)sym_u8(); switch(sym_choose(3)){ case 0: strtk::nth_permutation_sequence((size_t)m,(size_t)n,std::back_inserter(p)); break; case 1: { strtk::nth_permutation_sequence((size_t)m,(size_t)n,std::back_inserter(p)); std::string t=strtk::nth_permutation_sequence((size_t)m,s); CHECK((int)t.size()==n&&(int)p.size()==n); int ok=1; for(int i=0;i<n;++i) ok&=t[i]==s[p[i]]; CHECKM(ok,"the letters in the order of the permutation"); break; } default: { std::vector<std::string::iterator> t; strtk::nth_permutation_sequence((size_t)m,s.begin(),s.end(),std::back_inserter(t)); for(size_t i=0;i<t.size();++i) p.push_back(t[i]-s.begin()); } } unsigned long long rank=0; unsigned mask=0; CHECK((int)p.size()==n); for(int i=0;i<n;++i){ unsigned c=0; for(int j=i+1;j<n;++j) c+=p[j]<p[i]; rank=rank*(n-i)+c; mask|=1u<<p[i]; } CHECKM(rank==m&&mask==(1u<<n)-1,"the permutation of the given rank"); break; }
   case 3: { const int k=n==40?(sym_choose(2)?1:39):n==24?(sym_choose(2)?1:23):(sym_choose(2)?2:18); vec v(n); for(int i=0;i<n;++i) v[i]=i*3; vec o=v; std::vector<vec> got; if (sym_choose(2)) strtk::for_each_combination(v.begin(),v.end(),k,colv{&got}); else strtk::for_each_combination_conditional(v.begin(),v.end(),k,col{&got,-1}); CHECKM(got.size()==binom(n,k),"number of combinations"); for(size_t i=0;i<got.size();++i) { CHECK((int)got[i].size()==k); std::sort(got[i].begin(),got[i].end()); CHECKM(std::adjacent_find(got[i].begin(),got[i].end())==got[i].end(),"different elements"); for(int j=0;j<k;++j) CHECK(got[i][j]%3==0&&got[i][j]<3*n); } std::set<vec> u(got.begin(),got.end()); CHECKM(u.size()==got.size(),"each combination exactly once"); CHECKM(v==o,"the order is restored"); break; }
   default: { const int k=n==20?2:n==24?1:39; vec v(n); for(int i=0;i<n;++i) v[i]=i; vec s(v.begin(),v.begin()+k); typedef strtk::combination_iterator<vec::iterator> it_t; it_t it(k,v.begin(),v.end(),true),end(v.end()); const int by=sym_choose(3)?1:19; unsigned long long c=0,total=binom(n,k); if (by==19) { it+=19; for(int i=0;i<19;++i) { succ(s,n); ++c; } } while(it!=end){ CHECKM(vec((*it).first,(*it).second)==s,"the next selection"); ++c; CHECKM(c<=total,"no selection twice"); succ(s,n); ++it; } CHECKM(c==total,"every selection"); } } sym_reach("more"); }
