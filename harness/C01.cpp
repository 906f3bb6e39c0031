//@ job split_single args=0..8,100..108,200..208,300..308,400..408,500..508 thorough=9..12,109..112,209..212,309..312,409..412,509..512
//@ job split_multi args=0..7,100..107,200..207,300..307,400..407,500..507 thorough=8..10,108..110,208..210,308..310,408..410,508..510
//@ job split_multi_sym args=0..3,100..103,200..203,400..403 thorough=4..5,104..105,204..205,404..405
//@ job split_mdp args=0..4,100..104,200..204,400..404 thorough=5,105,205,405
//@ job split_long_alpha args=0..2,100..102,400..402
//@ job overloads args=0..4,100..104,200..204,400..404
//@ job tokenizer_single args=0..8,100..108,200..208,300..308,400..408,500..508 thorough=9..12,109..112,209..212,309..312,409..412,509..512
//@ job tokenizer_multi args=0..7,100..107,200..207,300..307,400..407 thorough=8..10,108..110,208..210,308..310,408..410,508..510
//@ job tokenizer_reassign args=0..5,100..105,200..205,400..405
//@ job tokenizer_ints args=0..6,100..106,200..206,400..406
//@ job tokenizer_misc args=0..5,100..105
//@ job sparse args=17,33,117,133,217,317,417,433,517
//@ job dense args=17,33,117,133,217,317,333,417,433,517
//@ job far args=64,65,129,257,1025,30065,30257,40129,40257,20129,50065,11025 t=200
//@ job runs args=0..5
//@ job dset args=15,16,17,32,33,64,65,129,130
//@ bound long inputs (17 and 33 elements, all bytes symbolic) with at most two delimiters, and with at most two non-delimiters, at every position
//@ bound input sequences of length 0..8 (thorough 0..12) over all 256 byte values with one symbolic delimiter; 0..7 (thorough 0..10) with a fixed three-byte delimiter table (including a byte >= 0x80), 0..3 (thorough 0..5) with a table of 3 symbolic bytes; delimiter sets of 1..3 symbolic bytes up to length 4, of 31..33 bytes up to length 2; all six option combinations
//@ bound texts of 64..1025 bytes of irregular tokens whose first, middle and last byte are arbitrary
//@ bound runs of 1..300 delimiters between tokens of up to 300 characters, and skipping up to that many tokens, with arbitrary bytes inside and beside the runs
//@ bound sets of 15..130 delimiter characters with members at telling places of the set and one or two arbitrary bytes
#include "ref_tokens.h"
// arg = mode*100 + length
template <typename It> static void compare(const ref_tokens& r, const std::vector<std::pair<It,It> >& t, It base, size_t n)
{
   CHECKM(n==r.size(),"token count returned");
   CHECKM(t.size()==r.size(),"number of tokens emitted");
   for (size_t i=0;i<r.size();++i)
   {
      CHECKM(t[i].first-base==r[i].first,"token start");
      CHECKM(t[i].second-base==r[i].second,"token end");
      sym_observe((unsigned long long)(t[i].first-base)*1000+(t[i].second-base));
   }
}
struct In { int n, mode; char* p; std::vector<char> isd; In(int a):n(a%100),mode(a/100),p(new char[a%100]){ sym_bytes(p,n); } ~In(){ delete[] p; }
  const char* b() const { return p; } const char* e() const { return p+n; } };
JOB(split_single)
{
   In in(arg); char d=(char)sym_u8(); for(int i=0;i<in.n;++i) in.isd.push_back(in.p[i]==d);
   std::vector<std::pair<const char*,const char*> > v;
   size_t k=strtk::split(strtk::single_delimiter_predicate<char>(d),in.b(),in.e(),std::back_inserter(v),in.mode);
   compare<const char*>(ref_split(in.isd,in.mode),v,in.b(),k); sym_reach("end");
}
static void split_multi_with(int arg,const char* d)
{
   In in(arg); for(int i=0;i<in.n;++i) in.isd.push_back((in.p[i]==d[0])|(in.p[i]==d[1])|(in.p[i]==d[2]));
   std::vector<std::pair<const char*,const char*> > v;
   strtk::multiple_char_delimiter_predicate pr(d,d+3);
   size_t k=strtk::split(pr,in.b(),in.e(),std::back_inserter(v),in.mode);
   compare<const char*>(ref_split(in.isd,in.mode),v,in.b(),k);
}
JOB(split_multi) { static const char d[3]={',','\xE9','\0'}; split_multi_with(arg,d); }
JOB(split_multi_sym) { char d[3]; sym_bytes(d,3); split_multi_with(arg,d); }
JOB(split_mdp)
{
   In in(arg); int nd=sym_choose(3)+1; char d[3]; sym_bytes(d,3); for(int i=0;i<in.n;++i) { int h=0; for(int j=0;j<nd;++j) h|=(in.p[i]==d[j]); in.isd.push_back(h); }
   std::vector<std::pair<const char*,const char*> > v;
   strtk::multiple_delimiter_predicate<char> pr(d,d+nd);
   size_t k=strtk::split(pr,in.b(),in.e(),std::back_inserter(v),in.mode);
   compare<const char*>(ref_split(in.isd,in.mode),v,in.b(),k);
}
JOB(split_long_alpha) // delimiter sets at and beyond the small-buffer size of the set predicate
{
   In in(arg); int nd=31+sym_choose(3); char d[33]; for(int i=0;i<33;++i) d[i]=(char)(33+i); char x=(char)sym_u8(); d[nd-1]=x;
   for(int i=0;i<in.n;++i) { int h=((unsigned char)in.p[i]>=33)&((unsigned char)in.p[i]<33+nd-1); h|=(in.p[i]==x); in.isd.push_back(h); }
   std::vector<std::pair<const char*,const char*> > v;
   strtk::multiple_delimiter_predicate<char> pr(d,nd);
   size_t k=strtk::split(pr,in.b(),in.e(),std::back_inserter(v),in.mode);
   compare<const char*>(ref_split(in.isd,in.mode),v,in.b(),k);
}
JOB(overloads)
{
   In in(arg); const std::string s(in.b(),in.e()); const char* b=s.data();
   int which=sym_choose(9); bool multi = which&1;
   std::string ds = multi ? ",;" : ","; if (which==8) multi=false;
   for(int i=0;i<in.n;++i) in.isd.push_back((in.p[i]==',')|(multi&(in.p[i]==';')));
   std::vector<std::pair<const char*,const char*> > v; size_t k=0;
   if (which<2)       k=strtk::split(ds.c_str(),s,std::back_inserter(v),in.mode);
   else if (which<4)  k=strtk::split(ds,s,std::back_inserter(v),in.mode);
   else if (which<6)  k=strtk::split(ds,s,v,in.mode);
   else if (which<8)  k=strtk::split(ds.c_str(),s,v,in.mode);
   else               k=strtk::split(',',s,std::back_inserter(v),in.mode);
   compare<const char*>(ref_split(in.isd,in.mode),v,b,k);
   // tokens collected as strings hold exactly the token characters, in every container kind
   if (which==8)
   {
      ref_tokens r=ref_split(in.isd,in.mode);
      std::vector<std::string> a; std::deque<std::string> dq; std::list<std::string> l;
      strtk::split(',',s,strtk::range_to_type_back_inserter(a),in.mode);
      strtk::split(',',s,strtk::range_to_type_back_inserter(dq),in.mode);
      strtk::split(',',s,strtk::range_to_type_back_inserter(l),in.mode);
      CHECK(a.size()==r.size()); CHECK(dq.size()==r.size()); CHECK(l.size()==r.size());
      std::list<std::string>::iterator li=l.begin();
      for (size_t i=0;i<r.size();++i,++li) { std::string e(b+r[i].first,b+r[i].second); CHECK(a[i]==e); CHECK(dq[i]==e); CHECK(*li==e); }
   }
}
template <typename Tk,typename It> static void walk(Tk& tk, const ref_tokens& r, It base)
{
   typename Tk::iterator it=tk.begin(); size_t i=0;
   while (it!=tk.end())
   {
      CHECKM(i<r.size(),"tokenizer yields too many tokens"); if (i>=r.size()) return;
      std::pair<It,It> t=*it;
      CHECKM(t.first-base==r[i].first,"tokenizer token start"); CHECKM(t.second-base==r[i].second,"tokenizer token end");
      sym_observe((unsigned long long)(t.first-base)*1000+(t.second-base));
      if (i%2) ++it; else it++;
      ++i;
   }
   CHECKM(i==r.size(),"tokenizer yields too few tokens");
   typename Tk::iterator e=tk.end(); CHECK(it==e);
}
JOB(tokenizer_single)
{
   In in(arg); char d=(char)sym_u8(); for(int i=0;i<in.n;++i) in.isd.push_back(in.p[i]==d);
   typedef strtk::tokenizer<const char*,strtk::single_delimiter_predicate<char> > T;
   strtk::single_delimiter_predicate<char> pr(d); T tk(in.b(),in.e(),pr,in.mode);
   walk<T,const char*>(tk,ref_split(in.isd,in.mode),in.b());
}
JOB(tokenizer_multi)
{
   In in(arg); static const char d[3]={',','\xE9','\0'}; for(int i=0;i<in.n;++i) in.isd.push_back((in.p[i]==d[0])|(in.p[i]==d[1])|(in.p[i]==d[2]));
   typedef strtk::std_string::tokenizer<>::md_type T;
   strtk::multiple_char_delimiter_predicate pr(d,d+3); T tk(in.b(),in.e(),pr,in.mode);
   walk<T,const char*>(tk,ref_split(in.isd,in.mode),in.b());
}
JOB(tokenizer_reassign) // a reused tokenizer behaves like a fresh one; the two walks do not interfere
{
   In in(arg); std::string s0("a,,b,"); for(int i=0;i<in.n;++i) in.isd.push_back(in.p[i]==',');
   typedef strtk::std_string::tokenizer<>::type T; strtk::single_delimiter_predicate<char> pr(',');
   std::vector<char> d0; for(size_t i=0;i<s0.size();++i) d0.push_back(s0[i]==',');
   T tk(s0,pr,in.mode); walk<T,const char*>(tk,ref_split(d0,in.mode),s0.data());
   std::string s(in.b(),in.e());
   tk.assign(s); walk<T,const char*>(tk,ref_split(in.isd,in.mode),s.data());
   walk<T,const char*>(tk,ref_split(in.isd,in.mode),s.data());
   T t2(s0,pr,strtk::tokenize_options::type(in.mode==0?1:0)); t2=tk; walk<T,const char*>(t2,ref_split(in.isd,in.mode),s.data());
   t2.assign(s0); walk<T,const char*>(t2,ref_split(d0,in.mode),s0.data());
   T t3(s0,pr,strtk::tokenize_options::type(in.mode==0?1:0)); T::iterator a=t3.begin(); int k=sym_choose(3); T::iterator b=tk.begin(); for(int i=0;i<k && b!=tk.end();++i) ++b; // an iterator assigned in the middle of a walk continues that walk
   a=b; ref_tokens r=ref_split(in.isd,in.mode); for(size_t i=std::min<size_t>(k,r.size());i<r.size();++i,++a){ CHECKM(a!=tk.end(),"assigned iterator continues"); CHECKM((*a).first-s.data()==r[i].first && (*a).second-s.data()==r[i].second,"assigned iterator yields the same tokens"); } CHECKM(a==tk.end(),"assigned iterator ends with the walk");
   tk.assign(s0.data(),s0.data()+s0.size()); walk<T,const char*>(tk,ref_split(d0,in.mode),s0.data());
}
JOB(tokenizer_ints)
{
   int n=arg%100, mode=arg/100; std::vector<unsigned> v; std::vector<char> isd; unsigned d=sym<unsigned>(); for(int i=0;i<n;++i){ v.push_back(sym<unsigned>()); isd.push_back(v[i]==d); }
   typedef std::vector<unsigned>::const_iterator It; typedef strtk::tokenizer<It,strtk::single_delimiter_predicate<unsigned> > T;
   strtk::single_delimiter_predicate<unsigned> pr(d); const std::vector<unsigned>& cv=v; T tk(cv.begin(),cv.end(),pr,mode);
   ref_tokens r=ref_split(isd,mode); walk<T,It>(tk,r,cv.begin());
   std::vector<std::pair<It,It> > o; size_t k=strtk::split(pr,cv.begin(),cv.end(),std::back_inserter(o),mode); compare<It>(r,o,cv.begin(),k);
}
JOB(tokenizer_misc) // text of the current token, remaining text, skipping ahead
{
   In in(arg); for(int i=0;i<in.n;++i) in.isd.push_back(in.p[i]==',');
   typedef strtk::std_string::tokenizer<>::type T; strtk::single_delimiter_predicate<char> pr(',');
   std::string s(in.b(),in.e()); T tk(s,pr,in.mode); ref_tokens r=ref_split(in.isd,in.mode);
   for (size_t k=0;k<r.size();++k)
   {
      T::iterator it=tk.begin(); it+=(int)k; CHECK(it!=tk.end());
      CHECK(it.as_string()==s.substr(r[k].first,r[k].second-r[k].first));
      CHECK(it.remaining()==s.substr(r[k].first));
   }
   T::iterator it=tk.begin(); it+=(int)r.size(); CHECK(it==tk.end());
}

static void few(int arg,bool invert) // all but two (chosen) positions are constrained; the two are free
{
   In in(arg); int a=sym_choose(in.n), b=sym_choose(in.n); sym_assume(a<=b);
   for(int i=0;i<in.n;++i) { bool is=in.p[i]==','; if (i!=a && i!=b) { sym_assume(is==invert); is=invert; } else is = is ? true : false; in.isd.push_back(is); }
   ref_tokens r=ref_split(in.isd,in.mode); strtk::single_delimiter_predicate<char> pr(',');
   std::vector<std::pair<const char*,const char*> > v; size_t k=strtk::split(pr,in.b(),in.e(),std::back_inserter(v),in.mode);
   compare<const char*>(r,v,in.b(),k);
   typedef strtk::std_string::tokenizer<>::type T; T tk(in.b(),in.e(),pr,in.mode); walk<T,const char*>(tk,r,in.b());
}
JOB(sparse) { few(arg,false); }
JOB(dense) { few(arg,true); }
// long texts of tokens, short and empty ones, whose first, middle and last byte are arbitrary
JOB(far)
{
   int n=arg%10000, mode=arg/10000; std::string s=MIXED(n,"a,bcd;efgh,,ijk"); std::vector<char> d1,d2; for(int i=0;i<n;++i){ d1.push_back(s[i]==','); d2.push_back((s[i]==',')|(s[i]==';')); }
   const char* b=s.data(); std::vector<std::pair<const char*,const char*> > v; bool multi=sym_choose(2); ref_tokens r=ref_split(multi?d2:d1,mode); size_t k=0;
   if (multi) { k=strtk::split(strtk::multiple_char_delimiter_predicate(",;"),b,b+n,std::back_inserter(v),mode); compare<const char*>(r,v,b,k); typedef strtk::std_string::tokenizer<>::md_type T; strtk::multiple_char_delimiter_predicate pr(",;"); T tk(s,pr,mode); walk<T,const char*>(tk,r,b); }
   else { k=strtk::split(strtk::single_delimiter_predicate<char>(','),b,b+n,std::back_inserter(v),mode); compare<const char*>(r,v,b,k); typedef strtk::std_string::tokenizer<>::type T; strtk::single_delimiter_predicate<char> pr(','); T tk(s,pr,mode); walk<T,const char*>(tk,r,b); }
}
JOB(dset) // many delimiter characters, given in every form
{
   std::string d=many(arg); int k=place(arg),mode=sym_choose(6); char a=d[k],z=d[arg-1-k]; std::string s="kx"; s+=a; s+="yy"; s+=z; s+=a; s+=(char)sym_u8(); s+="q"; s+=d[arg-1]; int n=s.size(); const char* b=s.data();
   std::vector<char> isd; for(int i=0;i<n;++i) isd.push_back(inmany(s[i],arg)); ref_tokens r=ref_split(isd,mode); std::vector<std::pair<const char*,const char*> > v; std::vector<std::string> w; size_t c=0; typedef strtk::std_string::tokenizer<>::md_type T;
   switch(sym_choose(7)) { case 0: c=strtk::split<int>(d.c_str(),std::make_pair(b,b+n),std::back_inserter(v),mode); compare<const char*>(r,v,b,c); break; case 1: c=strtk::split<int>(d,std::make_pair(b,b+n),std::back_inserter(v),mode); compare<const char*>(r,v,b,c); break; case 2: c=strtk::split(strtk::multiple_char_delimiter_predicate(d.c_str()),b,b+n,std::back_inserter(v),mode); compare<const char*>(r,v,b,c); break; case 3: c=strtk::split(strtk::multiple_char_delimiter_predicate(d.begin(),d.end()),s,std::back_inserter(v),mode); compare<const char*>(r,v,b,c); break;
   case 4: c=strtk::split(d.c_str(),s,std::back_inserter(v),mode); compare<const char*>(r,v,b,c); break;
   case 5: { strtk::multiple_delimiter_predicate<char> p(d.data(),d.size()); c=strtk::split(p,b,b+n,std::back_inserter(v),mode); compare<const char*>(r,v,b,c); break; } default: { strtk::multiple_char_delimiter_predicate p(d.data(),d.data()+d.size()); T tk(s,p,mode); walk<T,const char*>(tk,r,b); } }
}

JOB(runs) // long runs of delimiters and of other characters, in every mode
{
   static const int N[]={1,19,40,70,130,300}; const int n=N[sym_choose(6)],m=N[sym_choose(6)],mode=arg; std::string s="a"; s+=std::string(n,','); s+="bc"; s+=std::string(m,'x'); s+=std::string(n,','); if (sym_choose(2)) s+="de"; s[1+n/2]=(char)sym_u8(); s[3+n+m/2]=(char)sym_u8();
   std::vector<char> isd; for(size_t i=0;i<s.size();++i) isd.push_back(s[i]==','); ref_tokens r=ref_split(isd,mode); const char* b=s.data(); std::vector<std::pair<const char*,const char*> > v; size_t c=0;
   if (sym_choose(2)) { c=strtk::split(strtk::multiple_char_delimiter_predicate(",;"),b,b+s.size(),std::back_inserter(v),mode); for(size_t i=0;i<s.size();++i) isd[i]=(s[i]==',')|(s[i]==';'); r=ref_split(isd,mode); } else c=strtk::split(strtk::single_delimiter_predicate<char>(','),b,b+s.size(),std::back_inserter(v),mode);
   compare<const char*>(r,v,b,c); if (r.size()>1 && isd.size()<900) { typedef strtk::std_string::tokenizer<>::md_type T; strtk::multiple_char_delimiter_predicate pr(",;"); T tk(s,pr,mode); for(size_t i=0;i<s.size();++i) isd[i]=(s[i]==',')|(s[i]==';'); r=ref_split(isd,mode); walk<T,const char*>(tk,r,b); size_t k=sym_choose(2)?r.size()-1:r.size()/2; T::iterator it=tk.begin(); it+=(int)k; CHECKM(it!=tk.end(),"skipping ahead"); CHECKM((*it).first-b==r[k].first&&(*it).second-b==r[k].second,"skipping ahead"); }
}
