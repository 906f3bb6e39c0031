//@ job geom args=0..7,100..107 t=300
//@ job quote args=0..6,100..106,200..206,300..306 t=300
//@ job ctor args=0..10
//@ job access args=0..5
//@ job parse args=1..10,101..110
//@ job seq args=0..9
//@ job sets args=0..4
//@ job far args=0..11
//@ bound every text of up to 7 bytes (6 with quoting) in both column modes; every combination of constructors; rows of up to 10 columns with every single-character field content
//@ bound grids of up to 64 rows or 40 columns or tokens of 120 bytes with two arbitrary bytes
#include "grid.h"
JOB(geom){ int n=arg%100; bool comp=arg/100; unsigned char* t=new unsigned char[n]; sym_bytes(t,n); grid_t g((const unsigned char*)t,n,opt(comp)); CHECKM(!!g,"loaded"); same(g,t,ref(t,n,",","\n",comp,false,false)); if (g.row_count()>1) sym_reach("rows"); delete[] t; }
JOB(quote){ int n=arg%100,k=arg/100; unsigned char* t=new unsigned char[n]; sym_bytes(t,n); bool comp=k&1,trim=k&2; grid_t g((const unsigned char*)t,n,opt(comp,true,trim)); same(g,t,ref(t,n,",","\n",comp,true,trim),"quoted delimiters do not split"); delete[] t; }
JOB(ctor){ const int n=6; unsigned char* t=new unsigned char[n]; for(int i=0;i<n;++i) t[i]="a,;\n\r b"[sym_choose(i%2?3:7)]; std::string s((char*)t,n); const char* cd=",;"; const char* rd="\n\r"; model m=ref(t,n,cd,rd,true,false,false),d=ref(t,n,cd,rd,false,false,false); const unsigned char* sp=(const unsigned char*)s.data();
   switch(arg){ case 0: { grid_t g((const unsigned char*)t,n,cd,rd); same(g,t,m); break; } case 1: { grid_t g((const char*)t,n,cd,rd); same(g,t,m); break; } case 2: { grid_t g(s,n,cd,rd); same(g,sp,m); break; } case 3: { grid_t g((const char*)t,n,opt(false,false,false,cd,rd)); same(g,t,d); break; } case 4: { grid_t g(s,n,opt(false,false,false,cd,rd)); same(g,sp,d); break; } case 5: { grid_t g; CHECK(!g); CHECK(g.row_count()==0); CHECK(g.load(t,n,opt(false,false,false,cd,rd))&&!!g); same(g,t,d); CHECK(g.load(t,n-2,opt(true,false,false,cd,rd))); same(g,t,ref(t,n-2,cd,rd,true,false,false)); g.clear(); CHECK(!g&&g.row_count()==0&&g.max_column_count()==0); break; }
      case 6: { grid_t g(s,n-3,cd,rd); same(g,sp,ref(sp,n-3,cd,rd,true,false,false)); break; } case 7: { grid_t::options o=grid_t::default_options(); o.set_column_delimiters(cd).set_row_delimiters(rd).set_column_split_option(strtk::split_options::default_mode).set_row_split_option(strtk::split_options::compress_delimiters); grid_t g(s,n,o); same(g,sp,d); break; } case 8: { grid_t g((const unsigned char*)t,n); same(g,t,ref(t,n,",|;\t","\n\r",true,false,false)); break; } case 9: { grid_t g(s,n); same(g,sp,ref(sp,n,",;|\t ","\n\r",true,false,false)); break; } default: { grid_t g(s,n,grid_t::options()); same(g,sp,ref(sp,n,",|;\t ","\n\r",true,false,false)); } } delete[] t; }
struct rowcol { std::vector<std::pair<int,int> >* v; const unsigned char* t; void operator()(const rng& r) const { v->push_back(std::make_pair((int)(r.first-t),(int)(r.second-t))); } };
struct rowfn { std::vector<size_t>* v; void operator()(const row_t& r) const { v->push_back(r.index()); } };
JOB(access){ int n=arg; unsigned char* t=new unsigned char[n]; sym_bytes(t,n); grid_t g((const unsigned char*)t,n,opt(false)); model m=ref(t,n,",","\n",false,false,false); std::vector<size_t> rows; CHECK(g.for_each_row(rowfn{&rows})==m.size()&&rows.size()==m.size()); for(size_t i=0;i<rows.size();++i) CHECKM(rows[i]==i,"rows visited in order"); CHECK(g.all_rows()==grid_t::row_range_t(0,m.size())); 
   for(size_t r=0;r<m.size();++r){ row_t w=g.row(r); std::vector<std::pair<int,int> > v; CHECK(w.for_each_column(rowcol{&v,t})==m[r].size()); CHECKM(v==m[r],"columns visited in order"); std::string all; size_t len=0; for(size_t c=0;c<m[r].size();++c){ int b=m[r][c].first,e=m[r][c].second; std::string tok((char*)t+b,e-b); CHECKM(w.get<std::string>(c)==tok&&g.get<std::string>(r,c)==tok,"token as text"); CHECKM(w.is_null(c)==(b==e),"empty token"); CHECK(w.raw_length(c)==tok.size()); all+=tok; len+=tok.size(); } CHECKM(w.as_string()==all&&w.raw_length()==len,"row as text"); std::string o("x"); w.as_string(o); CHECK(o==all); rng k=w.range(); CHECKM(k.first==t+m[r][0].first&&k.second==t+m[r].back().second,"extent of the row"); CHECK(w.all_columns()==grid_t::col_range_t(0,m[r].size())&&w.range(1)==grid_t::col_range_t(1,m[r].size())&&w.range(0,1)==grid_t::col_range_t(0,1));
      v.clear(); size_t a=sym_choose(m[r].size()+1),b=sym_choose(m[r].size()+2); size_t c=w.for_each_column(grid_t::col_range_t(a,b),rowcol{&v,t}); if (a>b||b>m[r].size()) CHECK(c==0&&v.empty()); else CHECKM((c==b-a&&v==std::vector<std::pair<int,int> >(m[r].begin()+a,m[r].begin()+b)),"range of columns"); if (r==1) break; }
   size_t a=sym_choose(m.size()+1),b=sym_choose(m.size()+2); rows.clear(); size_t c=g.for_each_row(grid_t::row_range_t(a,b),rowfn{&rows}); if (a>b||b>m.size()) CHECKM(c==0&&rows.empty(),"invalid range of rows"); else { CHECKM(c==b-a&&rows.size()==c,"range of rows"); CHECK(rows.empty()||rows[0]==a); CHECKM(g.range(a,b)==grid_t::row_range_t(a,b),"row range"); CHECKM(g.range(a)==grid_t::row_range_t(a,m.size()),"row range to the end"); } if (b>m.size()) CHECK(g.range(a,b)!=grid_t::row_range_t(a,b)); delete[] t; }
// one row of 10 single-character fields, parsed into k variables; all fields arbitrary
JOB(parse){ int k=arg%100; bool idx=arg>100; char* t=new char[19]; char f[10]; for(int i=0;i<10;++i){ f[i]=(char)sym_u8(); sym_assume((f[i]!=',')&(f[i]!='\n')); t[2*i]=f[i]; if (i<9) t[2*i+1]=','; } grid_t g((const char*)t,19,opt(false)); CHECK(g.row_count()==1&&g.row(0).size()==10); row_t w=g.row(0); int v[10]; for(int i=0;i<10;++i) v[i]=-7; bool ok=false; int p[10]; for(int i=0;i<10;++i) p[i]=idx?(i*3+k)%10:i;
   #define V(i) v[i]
   #define P(i) (size_t)p[i]
   if (!idx) switch(k){ case 1: ok=w.parse(V(0)); break; case 2: ok=w.parse(V(0),V(1)); break; case 3: ok=w.parse(V(0),V(1),V(2)); break; case 4: ok=w.parse(V(0),V(1),V(2),V(3)); break; case 5: ok=w.parse(V(0),V(1),V(2),V(3),V(4)); break; case 6: ok=w.parse(V(0),V(1),V(2),V(3),V(4),V(5)); break; case 7: ok=w.parse(V(0),V(1),V(2),V(3),V(4),V(5),V(6)); break; case 8: ok=w.parse(V(0),V(1),V(2),V(3),V(4),V(5),V(6),V(7)); break; case 9: ok=w.parse(V(0),V(1),V(2),V(3),V(4),V(5),V(6),V(7),V(8)); break; case 10: ok=w.parse(V(0),V(1),V(2),V(3),V(4),V(5),V(6),V(7),V(8),V(9)); break; }
   else switch(k){ case 1: ok=w.parse_with_index(P(0),V(0)); break; case 2: ok=w.parse_with_index(P(0),P(1),V(0),V(1)); break; case 3: ok=w.parse_with_index(P(0),P(1),P(2),V(0),V(1),V(2)); break; case 4: ok=w.parse_with_index(P(0),P(1),P(2),P(3),V(0),V(1),V(2),V(3)); break; case 5: ok=w.parse_with_index(P(0),P(1),P(2),P(3),P(4),V(0),V(1),V(2),V(3),V(4)); break; case 6: ok=w.parse_with_index(P(0),P(1),P(2),P(3),P(4),P(5),V(0),V(1),V(2),V(3),V(4),V(5)); break; case 7: ok=w.parse_with_index(P(0),P(1),P(2),P(3),P(4),P(5),P(6),V(0),V(1),V(2),V(3),V(4),V(5),V(6)); break; case 8: ok=w.parse_with_index(P(0),P(1),P(2),P(3),P(4),P(5),P(6),P(7),V(0),V(1),V(2),V(3),V(4),V(5),V(6),V(7)); break; case 9: ok=w.parse_with_index(P(0),P(1),P(2),P(3),P(4),P(5),P(6),P(7),P(8),V(0),V(1),V(2),V(3),V(4),V(5),V(6),V(7),V(8)); break; case 10: ok=w.parse_with_index(P(0),P(1),P(2),P(3),P(4),P(5),P(6),P(7),P(8),P(9),V(0),V(1),V(2),V(3),V(4),V(5),V(6),V(7),V(8),V(9)); break; }
   int good=1; for(int i=0;i<k;++i) good&=((unsigned char)(f[p[i]]-'0')<10); CHECKM(ok==(good!=0),"a row parses exactly when the fields asked for are numbers"); if (ok) { int eq=1; for(int i=0;i<k;++i) eq&=(v[i]==f[p[i]]-'0'); CHECKM(eq,"values in column order"); sym_reach("parsed"); } for(int i=k;i<10;++i) CHECK(v[i]==-7); delete[] t; }
template <typename C> static std::vector<int> drain(C& c){ std::vector<int> v(c.begin(),c.end()); return v; }
static std::vector<int> drain(std::queue<int>& c){ std::vector<int> v; while(!c.empty()) { v.push_back(c.front()); c.pop(); } return v; }
static std::vector<int> drain(std::stack<int>& c){ std::vector<int> v; while(!c.empty()) { v.push_back(c.top()); c.pop(); } std::reverse(v.begin(),v.end()); return v; }
static const int NC=4;
template <typename C> static void seqs(bool sorted){ char t[2*NC-1]; for(int i=0;i<NC;++i){ t[2*i]=(char)sym_u8(); sym_assume((t[2*i]!=',')&(t[2*i]!='\n')); if (i+1<NC) t[2*i+1]=','; } grid_t g((const char*)t,2*NC-1,opt(false)); row_t w=g.row(0); size_t a=sym_choose(NC+2),b=sym_choose(NC+2); int mode=sym_choose(3); C c; bool ok; if (mode==0) ok=w.parse(grid_t::col_range_t(a,b),c); else { sym_assume(a==0&&b==NC); if (mode==1) ok=w.parse(c); else { w.parse_checked(c); ok=true; } }
   bool valid=a<=b&&b<=(size_t)NC; std::vector<int> e; bool good=valid; if (valid) for(size_t i=a;i<b;++i){ bool d=(unsigned char)(t[2*i]-'0')<10; if (d) e.push_back(t[2*i]-'0'); else if (mode!=2) { good=false; break; } } CHECKM(ok==good,"a range of columns parses exactly when it lies in the row and its fields are numbers"); if (sorted) std::sort(e.begin(),e.end()); std::vector<int> v=drain(c); if (sorted) std::sort(v.begin(),v.end()); if (ok) CHECKM(v==e,"values of the columns"); if (ok&&v.size()>1) sym_reach("seq"); }
JOB(seq){ switch(arg){ case 0: seqs<std::vector<int> >(false); break; case 1: seqs<std::list<int> >(false); break; case 2: seqs<std::deque<int> >(false); break; case 3: seqs<std::queue<int> >(false); break; case 4: seqs<std::stack<int> >(false); break; case 5: seqs<std::multiset<int> >(true); break;
   default: { char t[2*NC-1]; for(int i=0;i<NC;++i){ t[2*i]=(char)sym_u8(); sym_assume((t[2*i]!=',')&(t[2*i]!='\n')); if (i+1<NC) t[2*i+1]=','; } grid_t g((const char*)t,2*NC-1,opt(false)); row_t w=g.row(0); if (arg==6) { std::vector<int> v; size_t n=sym_choose(NC+2); size_t c=w.parse_n(n,v); size_t m=n<(size_t)NC?n:NC; bool all=true; for(size_t i=0;i<m;++i) if ((unsigned char)(t[2*i]-'0')>=10) { all=false; break; } if (all) { CHECKM(c==m&&v.size()==m,"first n columns"); for(size_t i=0;i<m;++i) CHECK(v[i]==t[2*i]-'0'); } else CHECKM(c==0,"an invalid field fails"); }
      else if (arg==7) { std::vector<std::string> v; w.parse<std::string>(std::back_inserter(v)); CHECK(v.size()==(size_t)NC); for(int i=0;i<NC;++i) CHECK(v[i].size()==1&&v[i][0]==t[2*i]); std::vector<std::string> u; CHECK(w.parse(u)&&u==v); } else if (arg==8) { std::vector<int> v; w.parse_checked<int>(std::back_inserter(v)); std::vector<int> e; for(int i=0;i<NC;++i) if ((unsigned char)(t[2*i]-'0')<10) e.push_back(t[2*i]-'0'); CHECK(v==e); } else { int x=-1; bool ok=w.parse(x); CHECK(ok==((unsigned char)(t[0]-'0')<10)); if (ok) CHECK(w.get<int>(0)==x&&g.get<int>(0,0)==x); } } } }
JOB(sets){ char t[5]; for(int i=0;i<3;++i){ t[2*i]=(char)sym_u8(); sym_assume((unsigned char)(t[2*i]-'0')<10); if (i<2) t[2*i+1]=','; } grid_t g((const char*)t,5,opt(false)); row_t w=g.row(0); std::set<int> e; std::multiset<int> em; for(int i=0;i<3;++i) { e.insert(t[2*i]-'0'); em.insert(t[2*i]-'0'); } switch(arg){ case 0: { std::set<int> s; CHECK(w.parse(s)&&s==e); break; } case 1: { std::set<int> s; w.parse_checked(s); CHECK(s==e); break; } case 2: { std::priority_queue<int> q; CHECK(w.parse(q)&&q.size()==3&&q.top()==*em.rbegin()); break; } case 3: { std::priority_queue<int> q; w.parse_checked(q); CHECK(q.size()==3&&q.top()==*em.rbegin()); break; } default: { std::multiset<int> s; w.parse_checked(s); CHECK(s==em); } } }
// large grids: rows x columns of irregular tokens with two arbitrary bytes
static std::string big(int R,int C,int L){ std::string s; static const char* w="17qz.4-x90"; int k=0; for(int r=0;r<R;++r){ int cols=1+(r*7+C-1)%C; if (r==R/2) cols=C; for(int c=0;c<cols;++c){ if (c) s+=','; int l=(k*5)%(L+1); if (cols==1&&!l) l=1; for(int i=0;i<l;++i) s+=w[(k+i)%10]; ++k; } s+='\n'; } return s; }
JOB(far){ static const int R[]={1,2,17,40,64,5},C[]={40,17,5,3,2,33},L[]={3,20,2,5,3,2}; int g=arg%6; std::string s=big(R[g],C[g],arg>=6&&g==1?120:L[g]); int n=s.size(); int q=sym_choose(4); bool quoted=q>=2; if (quoted) { s[n/4]='"'; s[n-3]='"'; } s[n/2]=(char)sym_u8(); if (arg<6) s[n-1]=(char)sym_u8(); else s[1]=(char)sym_u8(); unsigned char* t=new unsigned char[n]; memcpy(t,s.data(),n); grid_t x((const unsigned char*)t,n,opt(q&1,quoted)); CHECKM(!!x,"loaded"); same(x,t,ref(t,n,",","\n",q&1,quoted,false)); delete[] t; 
   if (arg<6) { std::vector<size_t> rows; CHECK(x.for_each_row(rowfn{&rows})==x.row_count()&&rows.size()==x.row_count()); } sym_reach("far"); }
