// sym_close(double a, long long num, int k, double tol, msg):  |a - num*10^k| <= tol * |num*10^k|
// decided by Z3 over linear real arithmetic: every IEEE operation in 'a' is replaced by its exact real
// counterpart plus a rounding error bounded by half an ulp (relative u, absolute eta); maximal integer
// sub-terms become real variables bounded by ranges proved with bit-vector queries on the path.
static bool provable(State& s,Node* c){ if(c->op==CONST) return c->k!=0; Model m; X->newEval(s.model); if(!X->ev(c)) return false; return solve(s,X->not_(c),m)==0; }
// an integer that depends on one input byte only and equals that byte plus a constant for every value the path allows: canonical form with a tight range
static Node* canonByte(State& s,Node* n){ if(n->op==CONST||n->w>64||n->vs->count()!=1) return n;
  unsigned id=0; while(!(*n->vs)[id]) id++; std::vector<Node*> cs; for(auto p=s.cons;p;p=p->prev) if(p->n->vs==n->vs) cs.push_back(p->n);
  Model m; m.v.assign(id+1,0); bool first=true; i128 d=0; u64 mx=0; u64 mn=~0ull;
  for(int v=0;v<256;v++){ m.v[id]=v; X->newEval(m); bool ok=true; for(auto c:cs) if(!X->ev(c)){ ok=false; break; } if(!ok) continue;
    i128 x=sx(X->ev(n),n->w); if(x<0||x>255) return n; if(first){ d=x-v; first=false; } else if(x-v!=d) return n; mx=std::max<u64>(mx,(u64)x); mn=std::min<u64>(mn,(u64)x); }
  if(first) return n; u64 mask=1; while(mask<mx) mask=mask*2+1;
  Node* b=X->mk(VAR,8,0,0,0,0,id); Node* e=X->bin(ADD,b,X->K((u128)d&255,8)); e=X->bin(AND,e,X->K(mask,8)); return n->w>8? X->zext(e,n->w) : n->w==8? e : n; }
struct RealAbs { State& s; z3::context& c; z3::expr_vector cs; std::map<Node*,z3::expr> im, fm; int fresh=0; bool ok=true; std::string why;
  RealAbs(State& st):s(st),c(Z->c),cs(Z->c){}
  z3::expr rat(long double d){ // exact decimal expansion of a double via integer scaling
    int e; double f=frexp((double)d,&e); long long m=(long long)ldexp(f,53); e-=53; z3::expr r=c.real_val(std::to_string(m).c_str());
    z3::expr p=pow2(std::abs(e)); return e>=0? r*p : r/p; }
  z3::expr pow2(int n){ std::string d="1"; for(int i=0;i<n;i++){ int cy=0; for(int j=(int)d.size()-1;j>=0;j--){ int v=(d[j]-'0')*2+cy; d[j]='0'+v%10; cy=v/10; } if(cy) d.insert(d.begin(),'0'+cy); } return c.real_val(d.c_str()); }
  z3::expr pow10(int n){ std::string d="1"+std::string(n,'0'); return c.real_val(d.c_str()); }
  z3::expr var(){ char b[32]; snprintf(b,32,"r%d",fresh++); return c.real_const(b); }
  std::map<unsigned,z3::expr> bm; std::map<unsigned,std::pair<int,int>> br;
  bool byteAffine(Node* n,z3::expr& r){ if(n->w>64||n->vs->count()!=1) return false; unsigned id=0; while(!(*n->vs)[id]) id++;
    std::vector<Node*> l; for(auto p=s.cons;p;p=p->prev) if(p->n->vs==n->vs) l.push_back(p->n);
    Model m; m.v.assign(id+1,0); std::vector<std::pair<int,i128>> pts;
    for(int v=0;v<256;v++){ m.v[id]=v; X->newEval(m); bool good=true; for(auto q:l) if(!X->ev(q)){ good=false; break; } if(good) pts.push_back({v,sx(X->ev(n),n->w)}); }
    if(pts.empty()) return false; if(pts.size()==1){ r=c.real_val(std::to_string((long long)pts[0].second).c_str()); return true; }
    i128 dv=pts[1].first-pts[0].first, dx=pts[1].second-pts[0].second; for(auto& q:pts) if((q.second-pts[0].second)*dv!=(q.first-pts[0].first)*dx) return false;
    auto it=bm.find(id); if(it==bm.end()){ z3::expr b=var(); cs.push_back((b==pts[0].first||b>=pts[0].first+1)&&b<=pts.back().first); it=bm.emplace(id,b).first; br[id]={pts[0].first,pts.back().first}; }
    r=(it->second-pts[0].first)*c.real_val((long)dx)/c.real_val((long)dv)+c.real_val(std::to_string((long long)pts[0].second).c_str()); return true; }
  // integer node -> real (signed interpretation), requires bounded atoms
  bool range(Node* n,i128& lo,i128& hi){ // proved signed range by binary search on powers of ten style candidates
    unsigned w=n->w; static const long long cand[]={0,9,99,255,999,9999,99999,999999,9999999,99999999,999999999,9999999999ll,99999999999ll,999999999999ll,9999999999999ll,99999999999999ll,999999999999999ll,9999999999999999ll,99999999999999999ll,999999999999999999ll,1999999999999999999ll,4611686018427387903ll};
    if(!provable(s,X->bin(SLE,X->K(0,w),n))) { return false; } lo=0;
    for(long long k:cand){ if(w<64&&(k>>(w-1))) break; if(provable(s,X->bin(SLE,n,X->K((u128)k,w)))){ hi=k; return true; } } return false; }
  z3::expr ii(Node* n){ auto it=im.find(n); if(it!=im.end()) return it->second; z3::expr r(c); i128 lo,hi;
    if(n->op==CONST) r=c.real_val(std::to_string((long long)sx(n->k,n->w)).c_str());
    else if(byteAffine(n,r)) {}
    else if(n->op==ADD&&n->b->op==CONST&&range(n->a,lo,hi)&&hi<((i128)1<<(n->w-2))&&sx(n->b->k,n->w)<((i128)1<<(n->w-2))&&sx(n->b->k,n->w)>-((i128)1<<(n->w-2))) r=ii(n->a)+c.real_val(std::to_string((long long)sx(n->b->k,n->w)).c_str());
    else if(n->op==SEXT||(n->op==ZEXT&&X->lz(n->a)>0)) r=ii(n->a);
    else if(n->op==ZEXT){ i128 l,h; if(range(n,l,h)){ // zero extension of a value whose top bit may be set: treat as atom unless small
          if(provable(s,X->bin(SLE,X->K(0,n->a->w),n->a))) r=ii(n->a); else { r=var(); cs.push_back(r>=0&&r<=c.real_val(std::to_string((long long)h).c_str())); } } else { ok=false; why="range"; r=c.real_val(0);} }
    else if(n->op==ADD&&n->b->op!=CONST&&range(n->a,lo,hi)&&hi<((i128)1<<(n->w-2))&&range(n->b,lo,hi)&&hi<((i128)1<<(n->w-2))) r=ii(n->a)+ii(n->b);
    else if(n->op==MUL&&n->b->op==CONST&&range(n->a,lo,hi)&&n->b->k>0&&hi<(((i128)1<<(n->w-1))/(i128)n->b->k)) r=ii(n->a)*c.real_val(std::to_string((unsigned long long)n->b->k).c_str());
    else if(n->op==SUB||n->op==ADD||true){ if(range(n,lo,hi)){ r=var(); cs.push_back(r>=0&&r<=c.real_val(std::to_string((long long)hi).c_str())); } else { ok=false; why="unbounded integer atom"; r=c.real_val(0);} }
    im.emplace(n,r); return r; }
  z3::expr rnd(z3::expr t,unsigned w){ z3::expr r=var(); z3::expr u=c.real_val(1)/pow2(w==64?53:24), eta=c.real_val(1)/pow2(w==64?1075:150);
    z3::expr at=z3::ite(t>=0,t,-t); z3::expr tiny=c.real_val(1)/pow2(w==64?1022:126); z3::expr e=at*u+z3::ite(t==0||at>=tiny,c.real_val(0),eta); cs.push_back(r<=t+e&&r>=t-e); return r; }
  z3::expr f(Node* n){ auto it=fm.find(n); if(it!=fm.end()) return it->second; z3::expr r(c);
    if(n->op==CONST){ double d=n->w==64?Ctx::asD(n->k):(double)Ctx::asF(n->k); if(!std::isfinite(d)){ ok=false; why="non-finite constant"; r=c.real_val(0);} else r= d==0? c.real_val(0):rat(d); }
    else if(n->isint) r=ii(X->intOf(n));
    else switch(n->op){ case FADD: r=rnd(f(n->a)+f(n->b),n->w); break; case FSUB: r=rnd(f(n->a)-f(n->b),n->w); break;
      case FMUL: if(n->a->op!=CONST&&n->b->op!=CONST){ ok=false; why="nonlinear"; r=c.real_val(0);} else r=rnd(f(n->a)*f(n->b),n->w); break;
      case FDIV: if(n->b->op!=CONST){ ok=false; why="nonlinear"; r=c.real_val(0);} else r=rnd(f(n->a)/f(n->b),n->w); break;
      case FNEG: r=-f(n->a); break; case FPEXT: r=f(n->a); break; case FPTRUNC: r=rnd(f(n->a),n->w); break;
      case SI2FP: r=rnd(ii(n->a),n->w); break; case UI2FP: r=rnd(ii(X->zext(n->a,n->a->w+1)),n->w); break;
      case CONCAT: { Node* q=resolveConds(s,n); if(q->op!=CONCAT) r=f(q); else { ok=false; why="split fp value"; r=c.real_val(0); } break; }
      case ITE: { bool t=branch(s,n->a); r=f(t?n->b:n->c); break; }
      default: ok=false; why="fp operator "+std::to_string((int)n->op); r=c.real_val(0); }
    fm.emplace(n,r); return r; }
};
static void closeCheck5(State& s,Val a,Val num,int k,double tol,const std::string& msg){
  Node* A=N(a,64); Node* B=N(num,64);
  if(A->op==CONST&&B->op==CONST){ long double ex=(long double)(long long)(u64)B->k*powl(10.0L,k); long double d=fabsl((long double)Ctx::asD(A->k)-ex); if(!(d<=fabsl(ex)*tol)) violate(s,"assertion",msg); return; }
  // strip sign
  RealAbs R(s); z3::expr ra=R.f(A); z3::expr rb=R.ii(B);
  if(!R.ok) throw Unsupported{"real abstraction: "+R.why+" ("+msg+")"};
  z3::expr ex= k>=0? rb*R.pow10(k) : rb/R.pow10(-k); z3::expr d=ra-ex; z3::expr tl=z3::ite(ex>=0,ex,-ex)*R.rat(tol)+ R.c.real_val(1)/R.pow2(tol>1e-10?148:1060);
  z3::solver sv(Z->c,"QF_LRA"); z3::params p(Z->c); p.set("timeout",O_qtimeout); sv.set(p); for(unsigned i=0;i<R.cs.size();i++) sv.add(R.cs[i]); sv.add(d>tl||d<-tl);
  S_queries++; double t=now(); auto r=sv.check(); S_solver+=now()-t;
  if(r==z3::unsat){ S_unsat++; return; }
  if(r==z3::unknown) throw Unsupported{"real query unknown"};
  if(getenv("SYMEX_DUMP")) { FILE* o=fopen("/tmp/close.smt2","w"); fputs(sv.to_smt2().c_str(),o); fclose(o); }
  S_sat++; // candidate: extreme values of the abstraction; the concrete witness is the current path model, confirmed or rejected natively
  // search for a concrete witness: digits of the rational model, then extreme and mixed digits, each checked against the path and the exact value
  std::vector<Node*> l; for(auto p=s.cons;p;p=p->prev) l.push_back(p->n); std::vector<Model> cand; z3::model zm=sv.get_model();
  for(int k2=0;k2<24;k2++){ Model m=s.model; u64 seed=0x9E3779B97F4A7C15ull*(k2+1); for(auto& q:R.bm){ int lo=R.br[q.first].first,hi=R.br[q.first].second,v; 
      if(k2==0){ double d=0; std::string ds=zm.eval(q.second,true).get_decimal_string(6); d=atof(ds.c_str()); v=(int)floor(d+0.5); } else if(k2==1) v=hi; else if(k2==2) v=lo+(hi>lo); else if(k2==3) v=lo; else { seed=seed*6364136223846793005ull+1442695040888963407ull; v=lo+(int)((seed>>33)%(unsigned)(hi-lo+1)); }
      if(q.first>=m.v.size()) m.v.resize(q.first+1,0); m.v[q.first]=v<lo?lo:v>hi?hi:v; } cand.push_back(m); }
  for(auto& m:cand){ X->newEval(m); bool good=true; for(auto n:l) if(!X->ev(n)){ good=false; break; } if(!good) continue; 
    long double nm=(long double)(long long)(u64)X->ev(B), ex=k>=0? nm*powl(10.0L,k) : nm/powl(10.0L,-k); long double d2=fabsl((long double)Ctx::asD(X->ev(A))-ex); if(!(d2<=fabsl(ex)*tol+1e-320L)){ report(s,"assertion",msg,m); endPath(2); } }
  report(s,"assertion",msg+" (real-arithmetic bound exceeded)",s.model); endPath(2); }
