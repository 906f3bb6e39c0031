//@ job rmrow args=0..6
//@ job rmif args=0..6,100..105
//@ job rmtok args=0..5,100..105,200..205
//@ job enf args=0..6
//@ job width args=0..6
//@ job ext args=1..5
//@ job extc args=0..6
//@ job acc args=0..7
//@ job accrow args=0..3
//@ job join args=0..4
//@ job gaps args=0..3
//@ job enfr args=0..6
//@ job joinc args=0..4
//@ job part args=0..3
//@ job hist args=0..3
//@ job far args=0..7
//@ job farmod args=0..4
//@ job wide args=0..8
//@ bound every text of up to 6 bytes (so every grid shape it can hold) with every row, token set or row range chosen; extraction, sums and joins over grids of up to 3 rows and 5 columns with every field content of one character; sequences of three removals
//@ bound grids of up to 65 rows with one arbitrary field; removals of rows and tokens from them
#include "grid.h"
static unsigned char* text(int n){ unsigned char* t=new unsigned char[n]; sym_bytes(t,n); return t; }
JOB(rmrow){ int n=arg; unsigned char* t=text(n); grid_t g((const unsigned char*)t,n,opt(false)); model m=ref(t,n,",","\n",false,false,false); size_t i=sym_choose(m.size()+2); g.remove_row(i); if (i<m.size()) m.erase(m.begin()+i); same(g,t,m,"the other rows are kept"); if (!m.empty()) { i=sym_choose(m.size()); g.remove_row(i); m.erase(m.begin()+i); same(g,t,m,"the other rows are kept"); sym_reach("rm"); } delete[] t; }
struct pick_row { unsigned mask; bool operator()(const row_t& r) const { return (mask>>r.index())&1; } };
struct pick_tok { unsigned mask; const unsigned char* t; bool operator()(const rng& r) const { return (mask>>(r.first-t))&1; } };
JOB(rmif){ int n=arg%100; bool range=arg/100; unsigned char* t=text(n); grid_t g((const unsigned char*)t,n,opt(false)); model m=ref(t,n,",","\n",false,false,false); pick_row p; p.mask=sym_u8(); size_t a=0,b=m.size(); bool ok; if (range) { a=sym_choose(m.size()+2); b=sym_choose(m.size()+2); ok=g.remove_row_if(grid_t::row_range_t(a,b),p); } else ok=g.remove_row_if(p); bool valid=a<=b&&b<=m.size(); CHECKM(ok==valid,"a range outside the grid is refused"); model e; for(size_t i=0;i<m.size();++i) if (!(valid&&i>=a&&i<b&&((p.mask>>i)&1))) e.push_back(m[i]); same(g,t,e,"exactly the chosen rows are removed"); if (e.size()<m.size()) sym_reach("rmif"); delete[] t; }
JOB(rmtok){ int n=arg%100,k=arg/100; unsigned char* t=text(n); grid_t g((const unsigned char*)t,n,opt(false)); model m=ref(t,n,",","\n",false,false,false); pick_tok p; p.mask=sym_u8(); p.t=t; size_t a=0,b=m.size(),c; if (k<2) sym_assume(p.mask<(1u<<(n+1))); if (k==0) { c=g.remove_token_if(g.all_rows(),p); } else if (k==1) { a=sym_choose(m.size()+1); b=sym_choose(m.size()+2); c=g.remove_token_if(grid_t::row_range_t(a,b),p); } else c=g.remove_empty_tokens(); bool valid=a<=b&&b<=m.size(); model e; size_t cnt=0; for(size_t i=0;i<m.size();++i){ std::vector<std::pair<int,int> > r; for(size_t j=0;j<m[i].size();++j) { bool del=valid&&i>=a&&i<b&&(k==2?m[i][j].first==m[i][j].second:((p.mask>>m[i][j].first)&1)); if (del) ++cnt; else r.push_back(m[i][j]); } if (!r.empty()) e.push_back(r); } CHECKM(c==cnt,"number of removed tokens"); same(g,t,e,"exactly the chosen tokens are removed"); if (cnt) sym_reach("rmtok"); delete[] t; }
JOB(enf){ int n=arg; unsigned char* t=text(n); grid_t g((const unsigned char*)t,n,opt(false)); model m=ref(t,n,",","\n",false,false,false),e; size_t a=sym_choose(5),b=a; bool two=sym_choose(2); if (two) { b=sym_choose(5); g.enforce_min_max_column_count(a,b); } else g.enforce_column_count(a); for(size_t i=0;i<m.size();++i) if (m[i].size()>=a&&m[i].size()<=b) e.push_back(m[i]); CHECKM(g.row_count()==e.size(),"rows with an acceptable number of columns are kept"); for(size_t i=0;i<e.size();++i) { CHECK(g.row(i).size()==e[i].size()); for(size_t c=0;c<e[i].size();++c) CHECK(g.token(i,c).first==t+e[i][c].first&&g.token(i,c).second==t+e[i][c].second); } CHECK(g.min_column_count()==a&&g.max_column_count()==b); delete[] t; }
JOB(width){ int n=arg; unsigned char* t=text(n); grid_t g((const unsigned char*)t,n,opt(false)); model m=ref(t,n,",","\n",false,false,false); size_t mx=0; for(size_t i=0;i<m.size();++i) if (m[i].size()>mx) mx=m[i].size(); std::vector<size_t> w; g.get_column_widths(w); std::vector<std::pair<size_t,size_t> > w2; g.get_column_widths(w2); CHECK(w.size()==mx&&w2.size()==mx); for(size_t c=0;c<mx;++c){ size_t e=0; for(size_t i=0;i<m.size();++i) if (c<m[i].size()&&(size_t)(m[i][c].second-m[i][c].first)>e) e=m[i][c].second-m[i][c].first; CHECKM(g.column_width(c)==e&&w[c]==e&&w2[c]==std::make_pair(c,e),"widest field of the column"); size_t a=sym_choose(m.size()+1),b=sym_choose(m.size()+2),f=0; if (a<=b&&b<=m.size()) for(size_t i=a;i<b;++i) if (c<m[i].size()&&(size_t)(m[i][c].second-m[i][c].first)>f) f=m[i][c].second-m[i][c].first; CHECKM(g.column_width(c,grid_t::row_range_t(a,b))==f,"widest field in a range of rows"); if (c==1) break; } CHECK(g.column_width(mx)==0); delete[] t; }
// R rows of up to C single-character columns; ragged shapes chosen, contents arbitrary
struct ragged { unsigned char* t; int n,R; int cols[4]; int off[4][5]; };
static void make(ragged& g,int R,int lo,int hi,bool digits,int freerow=-1){ g.R=R; g.n=0; g.t=new unsigned char[64]; for(int r=0;r<R;++r){ g.cols[r]=lo+sym_choose(hi-lo+1); for(int c=0;c<g.cols[r];++c){ if (c) g.t[g.n++]=','; g.off[r][c]=g.n; unsigned char ch=sym_u8(); if (digits) sym_assume((unsigned char)(ch-'0')<10); else if (freerow>=0&&r!=freerow) ch='1'+c; else sym_assume((ch!=',')&(ch!='\n')); g.t[g.n++]=ch; } g.t[g.n++]='\n'; } }
JOB(ext){ int k=arg; ragged x; make(x,2,1,k<3?3:5,true); grid_t g((const unsigned char*)x.t,x.n,opt(false)); size_t idx[5]; size_t mx=0; for(int i=0;i<k;++i) { idx[i]=(k<3)?sym_choose(3):(size_t)(i*2+1)%5; if (idx[i]>mx) mx=idx[i]; } size_t gm=0; for(int r=0;r<x.R;++r) if ((size_t)x.cols[r]>gm) gm=x.cols[r]; bool range=sym_choose(2); size_t a=0,b=x.R; if (range) { a=sym_choose(3); b=sym_choose(4); } grid_t::row_range_t rr(a,b); bool vec=sym_choose(2); std::vector<int> v[5]; int o[5][4]; bool ok=false; if (k>1||range) { 
   #define I(i) strtk::back_inserter_with_valuetype(v[i])
   #define O(i) &o[i][0]
   if (vec) switch(k){ case 1: ok=g.extract_column(rr,idx[0],I(0)); break; case 2: ok=g.extract_column(rr,idx[0],idx[1],I(0),I(1)); break; case 3: ok=g.extract_column(rr,idx[0],idx[1],idx[2],I(0),I(1),I(2)); break; case 4: ok=g.extract_column(rr,idx[0],idx[1],idx[2],idx[3],I(0),I(1),I(2),I(3)); break; default: ok=g.extract_column(rr,idx[0],idx[1],idx[2],idx[3],idx[4],I(0),I(1),I(2),I(3),I(4)); }
   else switch(k){ case 1: ok=g.extract_column(rr,idx[0],O(0)); break; case 2: ok=g.extract_column(rr,idx[0],idx[1],O(0),O(1)); break; case 3: ok=g.extract_column(rr,idx[0],idx[1],idx[2],O(0),O(1),O(2)); break; case 4: ok=g.extract_column(rr,idx[0],idx[1],idx[2],idx[3],O(0),O(1),O(2),O(3)); break; default: ok=g.extract_column(rr,idx[0],idx[1],idx[2],idx[3],idx[4],O(0),O(1),O(2),O(3),O(4)); } }
   else ok=vec?g.extract_column(idx[0],I(0)):g.extract_column(idx[0],O(0));
   bool valid=a<=b&&b<=(size_t)x.R&&mx<=gm; if (mx!=gm) CHECKM(ok==valid,"extraction of existing columns from existing rows succeeds"); if (ok) { size_t cnt=0; bool good=true; for(size_t r=a;r<b;++r) if (mx<(size_t)x.cols[r]) { for(int i=0;i<k;++i) { int got=vec?(cnt<v[i].size()?v[i][cnt]:-1):o[i][cnt]; good=good&(got==x.t[x.off[r][idx[i]]]-'0'); } ++cnt; } CHECKM(good,"each row with all the columns contributes its values in order"); for(int i=0;i<k;++i) if (vec) CHECKM(v[i].size()==cnt,"number of values"); if (cnt>1) sym_reach("ext"); } delete[] x.t; }
JOB(extc){ ragged x; make(x,3,1,2,false); grid_t g((const unsigned char*)x.t,x.n,opt(false)); size_t c=sym_choose(2); std::vector<int> e,v; for(int r=0;r<3;++r) if (c<(size_t)x.cols[r]) { unsigned char ch=x.t[x.off[r][c]]; if ((unsigned char)(ch-'0')<10) e.push_back(ch-'0'); } int gm=std::max(x.cols[0],std::max(x.cols[1],x.cols[2])); sym_assume(c<=(size_t)gm); switch(arg){ case 0: g.extract_column_checked(c,v); break; case 1: { std::list<int> l; g.extract_column_checked(c,l); v.assign(l.begin(),l.end()); break; } case 2: { std::multiset<int> l; g.extract_column_checked(c,l); v.assign(l.begin(),l.end()); std::sort(e.begin(),e.end()); break; } case 3: { std::set<int> l; g.extract_column_checked(c,l); v.assign(l.begin(),l.end()); std::set<int> q(e.begin(),e.end()); e.assign(q.begin(),q.end()); break; } case 4: { int o[3]={-1,-1,-1}; CHECK(g.extract_column_checked(c,&o[0])); v.assign(o,o+e.size()); for(size_t i=e.size();i<3;++i) CHECK(o[i]==-1); break; } case 5: { size_t a=sym_choose(4),b=sym_choose(5); bool ok=g.extract_column_checked(grid_t::row_range_t(a,b),c,strtk::back_inserter_with_valuetype(v)); CHECK(ok==(a<=b&&b<=3)); e.clear(); if (ok) for(size_t r=a;r<b;++r) if (c<(size_t)x.cols[r]) { unsigned char ch=x.t[x.off[r][c]]; if ((unsigned char)(ch-'0')<10) e.push_back(ch-'0'); } break; } default: { std::deque<int> l; g.extract_column_checked(c,l); v.assign(l.begin(),l.end()); } } CHECKM(v==e,"every valid field of the column, in order"); delete[] x.t; }
JOB(acc){ ragged x; make(x,3,arg<4?2:1,2,false); grid_t g((const unsigned char*)x.t,x.n,opt(false)); size_t c=sym_choose(2); { size_t gm=std::max(x.cols[0],std::max(x.cols[1],x.cols[2])); sym_assume(c<gm); } size_t a=0,b=3; int sum=100; pick_row p; p.mask=7; size_t n; if (arg&1) { a=sym_choose(4); b=sym_choose(5); } if (arg&2) { p.mask=sym_choose(8); n=(arg&1)?g.accumulate_column(c,grid_t::row_range_t(a,b),p,sum):g.accumulate_column(c,p,sum); } else n=(arg&1)?g.accumulate_column(c,grid_t::row_range_t(a,b),sum):g.accumulate_column(c,sum); if (a>b||b>3) { CHECK(n==0&&sum==100); } else { int e=100; size_t k=0; bool ok=true; for(size_t r=a;r<b;++r) if (((p.mask>>r)&1)&&c<(size_t)x.cols[r]) { unsigned char ch=x.t[x.off[r][c]]; if ((unsigned char)(ch-'0')<10) { e+=ch-'0'; ++k; } else { ok=false; break; } } if (ok) { CHECKM(sum==e,"sum of the column"); CHECKM(n==k,"number of summed rows"); if (k>1) sym_reach("sum"); } else CHECKM(n==0,"an invalid field fails"); } delete[] x.t; }
JOB(accrow){ ragged x; make(x,2,1,4,false,arg&1); grid_t g((const unsigned char*)x.t,x.n,opt(false)); size_t r=sym_choose(3); long sum=7; size_t n=g.accumulate_row(r,sum); if (r>=2) CHECK(n==0&&sum==7); else { long e=7; bool ok=true; for(int c=0;c<x.cols[r];++c){ unsigned char ch=x.t[x.off[r][c]]; if ((unsigned char)(ch-'0')<10) e+=ch-'0'; else { ok=false; break; } } if (ok) { CHECKM(sum==e&&n==(size_t)x.cols[r],"sum of the row"); } else CHECKM(n==0,"an invalid field fails"); } delete[] x.t; }
struct odd_tok { bool operator()(const rng& r) const { return (*r.first)&1; } };
JOB(join){ ragged x; make(x,2,1,arg<3?4:3,false); grid_t g((const unsigned char*)x.t,x.n-(arg&1),opt(false)); size_t r=sym_choose(3); std::string d; for(int i=0;i<arg/2;++i) d+=(char)sym_u8(); std::string o("pre"),e("pre"); bool pred=arg>=3; bool ok; if (pred) { ok=arg==3?g.join_row(r,odd_tok(),d,o):g.join_row(r,odd_tok(),"--",o); if (arg==4) d="--"; } else ok=g.join_row(r,d,o); CHECKM(ok==(r<2),"row exists"); if (ok) { bool first=true; for(int c=0;c<x.cols[r];++c){ unsigned char ch=x.t[x.off[r][c]]; if (pred&&!(ch&1)) continue; if (!first) e+=d; e+=(char)ch; first=false; } CHECKM(o==e,"fields of the row separated by the delimiter"); sym_reach("join"); } else CHECK(o=="pre"); delete[] x.t; }
JOB(joinc){ ragged x; make(x,3,1,2,false); grid_t g((const unsigned char*)x.t,x.n,opt(false)); size_t c=sym_choose(2); int gm=std::max(x.cols[0],std::max(x.cols[1],x.cols[2])); sym_assume(c<(size_t)gm); std::string d; for(int i=0;i<arg%2+1;++i) d+=(char)sym_u8(); std::string o("pre"),e("pre"); pick_row p; p.mask=7; bool pred=arg>=2; size_t a=0,b=3; bool ok; if (pred) { p.mask=sym_choose(8); } if (arg==4) { p.mask=7; a=sym_choose(4); b=sym_choose(5); ok=g.join_column(c,grid_t::row_range_t(a,b),d,o); } else ok=pred?g.join_column(c,p,d,o):g.join_column(c,d,o); CHECK(ok==(a<=b&&b<=3)); if (ok) { bool first=true; for(size_t r=a;r<b;++r) if (c<(size_t)x.cols[r]&&((p.mask>>r)&1)) { if (!first) e+=d; e+=(char)x.t[x.off[r][c]]; first=false; } CHECKM(o==e,"fields of the column separated by the delimiter"); } delete[] x.t; }
struct collect { std::vector<std::pair<size_t,size_t> >* v; const grid_t* g; bool operator()(const grid_t& h,const grid_t::row_range_t& r) const { CHECK(&h==g); v->push_back(std::make_pair((size_t)r.first,(size_t)r.second)); return true; } };
struct some { std::vector<std::pair<size_t,size_t> >* v; size_t n; bool operator()(const grid_t&,const grid_t::row_range_t& r) const { v->push_back(std::make_pair((size_t)r.first,(size_t)r.second)); return v->size()<=n; } };
JOB(part){ ragged x; make(x,4,1,1,true); grid_t g((const unsigned char*)x.t,x.n,opt(false)); pick_row p; p.mask=sym_choose(16); std::vector<std::pair<size_t,size_t> > v; collect f; f.v=&v; f.g=&g; size_t a=0,b=4; bool ok; if (arg&1) { a=sym_choose(5); b=sym_choose(6); ok=g.sequential_partition(grid_t::row_range_t(a,b),p,f); } else ok=g.sequential_partition(p,f); CHECK(ok==(a<=b&&b<=4)); if (ok) { size_t pos=a; for(size_t i=0;i<v.size();++i){ CHECKM(v[i].first==pos&&v[i].second>pos,"partitions are consecutive and non-empty"); if (pos!=a) CHECKM((p.mask>>pos)&1,"a partition starts at a transition"); for(size_t k=pos+1;k<v[i].second;++k) CHECKM(!((p.mask>>k)&1),"every transition starts a partition"); pos=v[i].second; } CHECKM(pos==b,"the partitions cover all the rows"); } else CHECK(v.empty()); 
   if (arg>1&&ok&&v.size()>1) { std::vector<std::pair<size_t,size_t> > w; some h; h.v=&w; h.n=sym_choose(v.size()); CHECKM(!g.sequential_partition(grid_t::row_range_t(a,b),p,h),"a refusal is reported"); v.resize(h.n+1); CHECKM(w==v,"nothing is delivered after a refusal"); } delete[] x.t; }
// several modifications after one another
JOB(hist){ ragged x; make(x,3,1,3,true); int n=x.n; grid_t g((const unsigned char*)x.t,n,opt(false)); model m=ref(x.t,n,",","\n",false,false,false); for(int step=0;step<2;++step){ int op=sym_choose(3); if (op==0) { size_t i=sym_choose(3); g.remove_row(i); if (i<m.size()) m.erase(m.begin()+i); } else if (op==1) { pick_row p; p.mask=sym_choose(8); g.remove_row_if(p); model e; for(size_t i=0;i<m.size();++i) if (!((p.mask>>i)&1)) e.push_back(m[i]); m=e; } else { pick_tok p; p.mask=arg==0?0x1111:arg==1?0x0404:arg==2?0x5005:0x0001; p.t=x.t; g.remove_token_if(g.all_rows(),p); model e; for(size_t i=0;i<m.size();++i){ std::vector<std::pair<int,int> > r; for(size_t j=0;j<m[i].size();++j) if (!((p.mask>>m[i][j].first)&1)) r.push_back(m[i][j]); if (!r.empty()) e.push_back(r); } m=e; } same(g,x.t,m,"grid after several modifications"); } delete[] x.t; }
// many rows: extraction, sums, joins, partitions and removals reach all of them
static std::string many(int R,int C){ std::string s; for(int r=0;r<R;++r){ for(int c=0;c<C;++c){ if (c) s+=','; s+=char('0'+(r*7+c*3)%10); } s+='\n'; } return s; }
struct bump { int lim; bool operator()(const row_t& r) const { return (int)(r.index()*29%64)<lim; } };
JOB(far){ static const int R[]={9,17,33,65}; int n=R[sym_choose(4)],C=n<20?5:3; std::string s=many(n,C); int a=sym_choose(4); int row=a==0?0:a==1?n/2:a==2?n-2:n-1,col=sym_choose(C); char ch=(char)sym_u8(); sym_assume((ch!=',')&(ch!='\n')); s[2*C*row+2*col]=ch; grid_t g(s,s.size(),opt(false)); CHECK((int)g.row_count()==n); bool dig=(unsigned char)(ch-'0')<10; 
   #define F(r,c) (s[2*C*(r)+2*(c)])
   if (arg==0||arg==7) sym_assume(dig);
   switch(arg){ case 0: { std::vector<int> v; bool ok=g.extract_column((size_t)col,strtk::back_inserter_with_valuetype(v)); CHECK(ok); if (dig) { CHECKM((int)v.size()==n,"number of values"); int e=1; for(int r=0;r<n;++r) e&=(v[r]==F(r,col)-'0'); CHECKM(e,"values in row order"); } break; }
     case 1: { std::vector<int> v,e; g.extract_column_checked((size_t)col,v); for(int r=0;r<n;++r) if ((unsigned char)(F(r,col)-'0')<10) e.push_back(F(r,col)-'0'); CHECKM(v==e,"every valid field of the column"); break; }
     case 2: { int sum=5,e=5; size_t c=g.accumulate_column((size_t)col,sum); for(int r=0;r<n;++r) e+=F(r,col)-'0'; if (dig) CHECKM(sum==e&&(int)c==n,"sum of the column"); else CHECK(c==0); break; }
     case 3: { std::string o,e; bump p={(int)sym_choose(3)*30}; CHECK(g.join_column((size_t)col,p,"::",o)); bool f=true; for(int r=0;r<n;++r) if (r*29%64<p.lim){ if (!f) e+="::"; f=false; e+=F(r,col); } CHECKM(o==e,"fields of the chosen rows"); o.clear(); e.clear(); CHECK(g.join_column((size_t)col,"-",o)); for(int r=0;r<n;++r){ if (r) e+='-'; e+=F(r,col); } CHECKM(o==e,"fields of the column"); break; }
     case 4: { bump p={(int)sym_choose(4)*20}; std::vector<std::pair<size_t,size_t> > v; collect f; f.v=&v; f.g=&g; CHECK(g.sequential_partition(p,f)); size_t pos=0; for(size_t i=0;i<v.size();++i){ CHECKM(v[i].first==pos&&v[i].second>pos,"partitions are consecutive and non-empty"); for(size_t k=pos;k<v[i].second;++k) if (k) CHECKM(((int)(k*29%64)<p.lim)==(k==pos),"a partition starts exactly at each transition"); pos=v[i].second; } CHECKM((int)pos==n,"the partitions cover all the rows"); break; }
     case 5: { std::vector<size_t> w; g.get_column_widths(w); CHECK((int)w.size()==C); for(int c=0;c<C;++c) CHECKM(w[c]==1,"widest field"); static const int W[]={127,128,255,256,257,300,1000}; int x=W[sym_choose(7)],y=W[sym_choose(7)]; std::string q=std::string(x,'p')+",s\nr,"+std::string(y,'q')+"\n"; q[x/2]=(char)sym_u8(); sym_assume((q[x/2]!=',')&(q[x/2]!='\n')); grid_t h(q,q.size(),opt(false)); CHECKM((int)h.column_width(0)==x&&(int)h.column_width(1)==y,"widest field"); break; }
     case 6: { long sum=0,e=0; size_t c=g.accumulate_row((size_t)row,sum); for(int k=0;k<C;++k) e+=F(row,k)-'0'; if (dig) CHECKM(sum==e&&(int)c==C,"sum of the row"); else CHECK(c==0); std::string o,x; CHECK(g.join_row((size_t)row,"; ",o)); for(int k=0;k<C;++k){ if (k) x+="; "; x+=F(row,k); } CHECKM(o==x,"fields of the row"); break; }
     default: { std::vector<int> u,v; grid_t::row_range_t rr((size_t)(n/3),(size_t)(n-1)); bool ok=g.extract_column(rr,0,1,strtk::back_inserter_with_valuetype(u),strtk::back_inserter_with_valuetype(v)); CHECK(ok); if (dig) { CHECKM((int)u.size()==n-1-n/3&&u.size()==v.size(),"rows of the range"); int e=1; for(size_t r=0;r<u.size();++r) e&=(u[r]==F(n/3+r,0)-'0')&(v[r]==F(n/3+r,1)-'0'); CHECKM(e,"values in row order"); } } } sym_reach("far"); }
struct low_tok { const unsigned char* t; unsigned char k; bool operator()(const rng& r) const { return (unsigned char)((r.first-t)*37%101)<k; } };
JOB(farmod){ static const int R[]={9,17,33,65}; int n=R[sym_choose(4)],C=n<20?5:3; std::string s=many(n,C); unsigned char* t=new unsigned char[s.size()]; memcpy(t,s.data(),s.size()); grid_t g((const unsigned char*)t,s.size(),opt(false)); model m=ref(t,s.size(),",","\n",false,false,false),e; switch(arg){ case 0: { size_t i=sym_u8(); sym_assume(i<m.size()+2); i=sym_concretize(i); g.remove_row(i); if (i<m.size()) m.erase(m.begin()+i); same(g,t,m,"the other rows are kept"); break; }
   case 1: { bump p={(int)sym_choose(66)}; CHECK(g.remove_row_if(p)); for(int i=0;i<n;++i) if (!(i*29%64<p.lim)) e.push_back(m[i]); same(g,t,e,"exactly the chosen rows are removed"); break; }
   case 2: { low_tok p={t,(unsigned char)(sym_choose(27)*4)}; size_t a=sym_choose(3)*3,c=0; size_t k=g.remove_token_if(grid_t::row_range_t(a,(size_t)n-1),p); for(int i=0;i<n;++i){ std::vector<std::pair<int,int> > r; for(size_t j=0;j<m[i].size();++j) if (i>=(int)a&&i<n-1&&(m[i][j].first*37%101)<p.k) ++c; else r.push_back(m[i][j]); if (!r.empty()) e.push_back(r); } CHECKM(k==c,"number of removed tokens"); same(g,t,e,"exactly the chosen tokens are removed"); break; }
   case 3: { bump p={20}; size_t a=sym_choose(n+1),b=n-sym_choose(3); bool ok=g.remove_row_if(grid_t::row_range_t(a,b),p); CHECK(ok==(a<=b)); for(int i=0;i<n;++i) if (!(ok&&i>=(int)a&&i<(int)b&&(i*29%64)<20)) e.push_back(m[i]); same(g,t,e,"exactly the chosen rows are removed"); break; }
   default: { for(int k=0;k<4;++k){ size_t i=k==0?0:k==1?m.size()-1:k==2?m.size()/2:sym_choose(m.size()); g.remove_row(i); m.erase(m.begin()+i); } same(g,t,m,"the other rows are kept"); } } delete[] t; sym_reach("farmod"); }

// empty tokens at every place, in rows and in columns
JOB(gaps){ unsigned char t[32]; int n=0; std::vector<int> off[3]; std::vector<int> len[3]; for(int r=0;r<(arg<2?1:3);++r){ int k=arg<2?4:2; for(int c=0;c<k;++c){ if (c) t[n++]=','; int l=sym_choose(2); off[r].push_back(n); len[r].push_back(l); if (l) { t[n]=sym_u8(); sym_assume((t[n]!=',')&(t[n]!='\n')); ++n; } } t[n++]='\n'; } grid_t g((const unsigned char*)t,n,opt(false)); std::string o("<"),e("<"); bool first=true; 
   if (arg<2) { CHECK(arg==0?g.join_row(0,"+-",o):g.join_row(0,odd_tok(),std::string("+-"),o)); for(int c=0;c<4;++c) if (len[0][c]&&(arg==0||(t[off[0][c]]&1))) { if (!first) e+="+-"; first=false; e+=(char)t[off[0][c]]; } }
   else { size_t c=sym_choose(2); pick_row p; p.mask=arg==2?7:sym_choose(8); CHECK(arg==2?g.join_column(c,"+-",o):g.join_column(c,p,"+-",o)); for(int r=0;r<3;++r) if (len[r][c]&&((p.mask>>r)&1)) { if (!first) e+="+-"; first=false; e+=(char)t[off[r][c]]; } } CHECKM(o==e,"non-empty fields separated by the delimiter"); if (!first) sym_reach("gaps"); }
// enforcing column counts in a range of rows
JOB(enfr){ int n=arg; unsigned char* t=text(n); grid_t g((const unsigned char*)t,n,opt(false)); model m=ref(t,n,",","\n",false,false,false),e; size_t lo=sym_choose(4),hi=lo; bool two=sym_choose(2); size_t a=sym_choose(m.size()+1),b=sym_choose(m.size()+2); sym_assume(a!=0||b!=m.size()); if (two) { hi=sym_choose(4); g.enforce_min_max_column_count(grid_t::row_range_t(a,b),lo,hi); } else g.enforce_column_count(grid_t::row_range_t(a,b),lo); bool valid=a<=b&&b<=m.size(); for(size_t i=0;i<m.size();++i) if (!valid||i<a||i>=b||(m[i].size()>=lo&&m[i].size()<=hi)) e.push_back(m[i]); same(g,t,e,"exactly the unacceptable rows of the range are removed"); if (e.size()<m.size()) sym_reach("enfr"); delete[] t; }

// long rows: 25 to 90 columns, 24 or 50 rows, ranges that leave 20 and more rows on either side
struct third { bool operator()(const row_t& r) const { return r.index()%3==1; } };
struct oddm { bool operator()(const rng& r) const { return (*r.first)&1; } };
JOB(wide){ const bool tall=sym_choose(2); const int n=tall?50:24,C=tall?25:(arg==3||arg==4?90:40); std::string s=many(n,C); const int row=sym_choose(2)?n-2:n/2,col=sym_choose(2)?C-1:20; char ch=(char)sym_u8(); if (arg==3||arg==4||arg==6) sym_assume((unsigned char)(ch-'0')<10); else sym_assume((ch!=',')&(ch!='\n')); s[2*C*row+2*col]=ch; unsigned char* t=new unsigned char[s.size()]; memcpy(t,s.data(),s.size()); grid_t g((const unsigned char*)t,s.size(),opt(false)); model m=ref(t,s.size(),",","\n",false,false,false),e; const size_t a=sym_choose(2)?0:n/3,b=sym_choose(2)?n/2+1:n; const grid_t::row_range_t rr(a,b);
   switch(arg){ case 0: { CHECK(g.remove_row_if(rr,third())); for(int i=0;i<n;++i) if (i<(int)a||i>=(int)b||i%3!=1) e.push_back(m[i]); same(g,t,e,"exactly the chosen rows are removed"); break; }
   case 1: { low_tok p={t,(unsigned char)(sym_choose(3)*40)}; size_t c=0; const size_t k=g.remove_token_if(rr,p); for(int i=0;i<n;++i){ std::vector<std::pair<int,int> > r; for(size_t j=0;j<m[i].size();++j) if (i>=(int)a&&i<(int)b&&(m[i][j].first*37%101)<p.k) ++c; else r.push_back(m[i][j]); if (!r.empty()) e.push_back(r); } CHECKM(k==c,"number of removed tokens"); same(g,t,e,"exactly the chosen tokens are removed"); break; }
   case 2: { std::vector<size_t> w; g.get_column_widths(w); CHECK((int)w.size()==C); for(int c=0;c<C;++c) CHECKM(w[c]==1,"widest field"); std::string q=s; const int at=2*C*row+2*col; q.insert(at,"xyz"); grid_t h(q,q.size(),opt(false)); w.clear(); h.get_column_widths(w); for(int c=0;c<C;++c) CHECKM(w[c]==(c==col?4u:1u),"widest field"); CHECKM(h.column_width((size_t)col,grid_t::row_range_t(a,b))==(row>=(int)a&&row<(int)b?4u:1u),"widest field of the rows"); std::vector<std::pair<size_t,size_t> > w2; h.get_column_widths(w2); CHECK((int)w2.size()==C); for(int c=0;c<C;++c) CHECKM(w2[c].first==(size_t)c&&w2[c].second==w[c],"column and width"); break; }
   case 3: { long sum=1,x=1; CHECKM((int)g.accumulate_row((size_t)row,sum)==C,"all columns counted"); for(int c=0;c<C;++c) x+=s[2*C*row+2*c]-'0'; CHECKM(sum==x,"sum of the row"); sum=x=1; size_t c=g.accumulate_column((size_t)col,rr,sum),k=0; for(size_t i=a;i<b;++i) { x+=s[2*C*i+2*col]-'0'; ++k; } CHECKM(sum==x&&c==k,"sum of the column"); sum=x=1; k=0; c=g.accumulate_column((size_t)col,rr,third(),sum); for(size_t i=a;i<b;++i) if (i%3==1) { x+=s[2*C*i+2*col]-'0'; ++k; } CHECKM(sum==x&&c==k,"sum of the chosen rows"); break; }
   case 4: { std::string o,x; CHECK(g.join_row((size_t)row,"+",o)); for(int c=0;c<C;++c){ if (c) x+='+'; x+=s[2*C*row+2*c]; } CHECKM(o==x,"fields of the row"); o.clear(); x.clear(); CHECK(g.join_row((size_t)row,oddm(),"+",o)); for(int c=0;c<C;++c) if (s[2*C*row+2*c]&1){ if (!x.empty()) x+='+'; x+=s[2*C*row+2*c]; } CHECKM(o==x,"chosen fields of the row"); break; }
   case 5: { std::string o,x; CHECK(g.join_column((size_t)col,rr,third(),std::string("/"),o)); for(size_t i=a;i<b;++i) if (i%3==1){ if (!x.empty()) x+='/'; x+=s[2*C*i+2*col]; } CHECKM(o==x,"fields of the chosen rows"); break; }
   case 6: { std::vector<int> v[3]; CHECK(g.extract_column(rr,(size_t)20,(size_t)col,(size_t)3,strtk::back_inserter_with_valuetype(v[0]),strtk::back_inserter_with_valuetype(v[1]),strtk::back_inserter_with_valuetype(v[2]))); const int cs[]={20,col,3}; for(int k=0;k<3;++k){ CHECK(v[k].size()==b-a); int ok=1; for(size_t i=0;i<b-a;++i) ok&=(v[k][i]==s[2*C*(a+i)+2*cs[k]]-'0'); CHECKM(ok,"values in row order"); } break; }
   case 7: { std::vector<std::pair<size_t,size_t> > v; collect f; f.v=&v; f.g=&g; CHECK(g.sequential_partition(rr,third(),f)); size_t pos=a; for(size_t i=0;i<v.size();++i){ CHECKM(v[i].first==pos&&v[i].second>pos,"partitions are consecutive and non-empty"); for(size_t k=pos;k<v[i].second;++k) if (k>a) CHECKM((k%3==1)==(k==pos),"a partition starts exactly at each transition"); pos=v[i].second; } CHECKM(pos==b,"the whole range is covered"); break; }
   default: { low_tok p={t,60}; g.remove_token_if(rr,p); CHECK(g.remove_row_if(third())); for(int i=0;i<n;++i) { std::vector<std::pair<int,int> > r; for(size_t j=0;j<m[i].size();++j) if (!(i>=(int)a&&i<(int)b&&(m[i][j].first*37%101)<60)) r.push_back(m[i][j]); if (!r.empty()) e.push_back(r); } m.clear(); for(size_t i=0;i<e.size();++i) if (i%3!=1) m.push_back(e[i]); same(g,t,m,"rows after tokens"); g.enforce_min_max_column_count(1,C-10); e.clear(); for(size_t i=0;i<m.size();++i) if (m[i].size()<=(size_t)C-10) e.push_back(m[i]); CHECK(g.row_count()==e.size()); for(size_t i=0;i<e.size();++i){ CHECK(g.row(i).size()==e[i].size()); for(size_t c=0;c<e[i].size();++c){ rng k=g.token(i,c); CHECKM(k.first==t+e[i][c].first&&k.second==t+e[i][c].second,"rows of the asked lengths"); } } } } delete[] t; sym_reach("wide"); }
