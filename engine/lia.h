// Exact translation of a bit-vector query into linear integer arithmetic (wrap-around made explicit by
// quotient variables, dropped where interval analysis under the query's byte ranges shows they are constant).
struct LIA { Ctx& X; z3::context& c; z3::expr_vector cs; struct T { z3::expr e; i128 lo,hi; };
  std::unordered_map<Node*,T> memo; std::unordered_map<Node*,z3::expr> bm; int vlo[MAXV],vhi[MAXV]; bool ok=true; std::string why; int fresh=0;
  LIA(Ctx& x,z3::context& cc):X(x),c(cc),cs(cc){ for(int i=0;i<MAXV;i++){vlo[i]=0;vhi[i]=255;} }
  std::string str(i128 v){ bool n=v<0; u128 u=n?-(u128)v:(u128)v; std::string s; do{ s.insert(s.begin(),'0'+(int)(u%10)); u/=10; }while(u); return n?"-"+s:s; }
  z3::expr k(i128 v){ return c.int_val(str(v).c_str()); }
  z3::expr fv(i128 lo,i128 hi){ char b[32]; snprintf(b,32,"q%d",fresh++); z3::expr r=c.int_const(b); cs.push_back(r>=k(lo)&&r<=k(hi)); return r; }
  static i128 fdiv(i128 a,i128 b){ i128 q=a/b; if(a%b!=0&&((a<0)!=(b<0))) q--; return q; }
  T wrap(z3::expr e,i128 lo,i128 hi,unsigned w){ i128 m=(i128)1<<w; i128 a=fdiv(lo,m),b=fdiv(hi,m); if(a==b) return T{a==0?e:e-k(a*m),lo-a*m,hi-a*m};
    z3::expr q=fv(a,b); z3::expr r=e-q*k(m); cs.push_back(r>=0&&r<k(m)); return T{r,0,m-1}; }
  T fail(const char* s,unsigned w){ ok=false; why=s; return T{c.int_val(0),0,(i128)mask128(w>100?100:w)}; }
  void divmod(const T& x,i128 d,T& q,T& r){ // x>=0
    if(x.hi<d){ q=T{k(0),0,0}; r=x; return; }
    z3::expr qv=fv(x.lo/d,x.hi/d); z3::expr rv=x.e-qv*k(d); cs.push_back(rv>=0&&rv<k(d)); q=T{qv,x.lo/d,x.hi/d}; r=T{rv,0,d-1}; if(q.lo==q.hi){ r.lo=x.lo-q.lo*d; r.hi=x.hi-q.lo*d; } }
  std::map<std::pair<Node*,u64>,std::pair<T,T>> dm;
  std::pair<T,T> divm(Node* n,i128 d){ auto key=std::make_pair(n,(u64)d); auto it=dm.find(key); if(it!=dm.end()) return it->second; T q{k(0),0,0},r{k(0),0,0}; T x=t(n); divmod(x,d,q,r); auto p=std::make_pair(q,r); dm.emplace(key,p); return p; }
  T sgn(Node* n){ T x=t(n); i128 h=(i128)1<<(n->w-1),m=(i128)1<<n->w; if(x.hi<h) return x; if(x.lo>=h) return T{x.e-k(m),x.lo-m,x.hi-m}; return T{z3::ite(x.e>=k(h),x.e-k(m),x.e),-h,h-1}; }
  T t(Node* n){ if(n->w>100) return fail("wide",n->w); if(n->op==CONST) return T{k((i128)n->k),(i128)n->k,(i128)n->k};
    auto it=memo.find(n); if(it!=memo.end()) return it->second; T r=t2(n); memo.emplace(n,r); return r; }
  T andc(Node* x,u128 kk){ // x & constant: the sum of the constant's contiguous fields
    if(kk&&((kk+1)&kk)==0) return divm(x,(i128)kk+1).second;
    T s{k(0),0,0}; unsigned lo=0; int nf=0; while(kk>>lo){ while(!((kk>>lo)&1)) lo++; unsigned hi=lo; while((kk>>hi)&1) hi++; if(++nf>4) return fail("and mask",x->w);
      T q{k(0),0,0},r{k(0),0,0}; if(lo){ T q0=divm(x,(i128)1<<lo).first; divmod(q0,(i128)1<<(hi-lo),q,r);} else r=divm(x,(i128)1<<hi).second; i128 m=(i128)1<<lo; s=T{s.e+r.e*k(m),s.lo+r.lo*m,s.hi+r.hi*m}; lo=hi; }
    return s; }
  T t2(Node* n){ unsigned w=n->w;
    if(w==1&&n->op!=EXTRACT&&n->op!=CONST){ z3::expr b_=b(n); return T{z3::ite(b_,k(1),k(0)),0,1}; }
    switch(n->op){
      case VAR:{ char nm[32]; snprintf(nm,32,"i%u",n->aux); z3::expr e=c.int_const(nm); cs.push_back(e>=vlo[n->aux]&&e<=vhi[n->aux]); return T{e,vlo[n->aux],vhi[n->aux]}; }
      case ADD:{ // treat large constants as negative
        T a=t(n->a); if(n->b->op==CONST){ i128 v=sx(n->b->k,w); return wrap(a.e+k(v),a.lo+v,a.hi+v,w); } T b=t(n->b); 
        if(n->a->op==MUL&&n->a->b->op==CONST&&sx(n->a->b->k,w)<0){ T x=t(n->a->a); i128 v=sx(n->a->b->k,w); return wrap(b.e+x.e*k(v),b.lo+x.hi*v,b.hi+x.lo*v,w); }
        if(n->b->op==MUL&&n->b->b->op==CONST&&sx(n->b->b->k,w)<0){ T x=t(n->b->a); i128 v=sx(n->b->b->k,w); return wrap(a.e+x.e*k(v),a.lo+x.hi*v,a.hi+x.lo*v,w); }
        return wrap(a.e+b.e,a.lo+b.lo,a.hi+b.hi,w); }
      case SUB:{ T a=t(n->a),b=t(n->b); return wrap(a.e-b.e,a.lo-b.hi,a.hi-b.lo,w); }
      case MUL:{ if(n->b->op!=CONST) return fail("nonlinear",w); if(w>64) return fail("wide mul",w); T a=t(n->a); i128 v=(i128)n->b->k; i128 sv=sx(n->b->k,w); if(sv<0&&-sv<v){ v=sv; return wrap(a.e*k(v),a.hi*v,a.lo*v,w);} return wrap(a.e*k(v),a.lo*v,a.hi*v,w); }
      case UDIV: if(n->b->op!=CONST||n->b->k==0) return fail("div",w); return divm(n->a,(i128)n->b->k).first;
      case UREM: if(n->b->op!=CONST||n->b->k==0) return fail("rem",w); return divm(n->a,(i128)n->b->k).second;
      case SDIV: { if(n->b->op!=CONST) return fail("sdiv",w); T a=sgn(n->a); i128 d=sx(n->b->k,w); if(a.lo<0||d<=0) return fail("sdiv neg",w); T q{k(0),0,0},r{k(0),0,0}; divmod(a,d,q,r); return q; }
      case SREM: { if(n->b->op!=CONST) return fail("srem",w); T a=sgn(n->a); i128 d=sx(n->b->k,w); if(a.lo<0||d<=0) return fail("srem neg",w); T q{k(0),0,0},r{k(0),0,0}; divmod(a,d,q,r); return r; }
      case ZEXT: return t(n->a);
      case SEXT:{ T s=sgn(n->a); if(s.lo>=0) return s; i128 m=(i128)1<<w; if(s.hi<0) return T{s.e+k(m),s.lo+m,s.hi+m}; return T{z3::ite(s.e<0,s.e+k(m),s.e),0,m-1}; }
      case ITE:{ T a=t(n->b),b_=t(n->c); return T{z3::ite(b(n->a),a.e,b_.e),std::min(a.lo,b_.lo),std::max(a.hi,b_.hi)}; }
      case CONCAT:{ T h=t(n->a),l=t(n->b); i128 m=(i128)1<<n->b->w; return T{h.e*k(m)+l.e,h.lo*m+l.lo,h.hi*m+l.hi}; }
      case EXTRACT:{ T x=t(n->a); if(n->aux==0) return divm(n->a,(i128)1<<w).second; if(n->aux+w==n->a->w) return divm(n->a,(i128)1<<n->aux).first;
          std::pair<T,T> p=divm(n->a,(i128)1<<n->aux); T q{k(0),0,0},r{k(0),0,0}; divmod(p.first,(i128)1<<w,q,r); return r; }
      case AND: if(n->b->op==CONST) return andc(n->a,n->b->k); return fail("and",w);
      case OR: if(n->b->op==CONST){ T a=t(n->a),f=andc(n->a,n->b->k); i128 c_=(i128)n->b->k; return T{a.e+k(c_)-f.e,std::max(c_,a.lo),std::min((i128)mask128(w),a.hi+c_-f.lo)}; }
        { if(X.tz(n->a)+X.lz(n->b)>=w||X.tz(n->b)+X.lz(n->a)>=w){ T a=t(n->a),b_=t(n->b); return T{a.e+b_.e,a.lo+b_.lo,a.hi+b_.hi}; } return fail("or",w); }
      case XOR: if(n->b->op==CONST){ T a=t(n->a),f=andc(n->a,n->b->k); i128 c_=(i128)n->b->k; return T{a.e+k(c_)-k(2)*f.e,0,(i128)mask128(w)}; } return fail("xor",w);
      case SHL: if(n->b->op==CONST&&n->b->k<w&&w<=64){ i128 m=(i128)1<<(unsigned)n->b->k; T a=t(n->a); return wrap(a.e*k(m),a.lo*m,a.hi*m,w); } return fail("shl",w);
      case LSHR: if(n->b->op==CONST&&n->b->k<w) return divm(n->a,(i128)1<<(unsigned)n->b->k).first; return fail("lshr",w);
      default: { static char nm[64]; snprintf(nm,64,"operator %d w%u",(int)n->op,w); return fail(nm,w); } } }
  z3::expr b(Node* n){ if(n->op==CONST) return c.bool_val(n->k!=0); if(n->op==NOT) return !b(n->a); auto it=bm.find(n); if(it!=bm.end()) return it->second; z3::expr r=b2(n); bm.emplace(n,r); return r; }
  z3::expr b2(Node* n){ switch(n->op){
      case AND: return b(n->a)&&b(n->b); case OR: return b(n->a)||b(n->b); case XOR: return b(n->a)!=b(n->b);
      case ITE: return z3::ite(b(n->a),b(n->b),b(n->c));
      case EQ: if(n->a->w==1) return b(n->a)==b(n->b); { T x=t(n->a),y=t(n->b); if(x.hi<y.lo||y.hi<x.lo) return c.bool_val(false); return x.e==y.e; }
      case ULT: { T x=t(n->a),y=t(n->b); if(x.hi<y.lo) return c.bool_val(true); if(x.lo>=y.hi) return c.bool_val(false); return x.e<y.e; }
      case SLT: { T x=sgn(n->a),y=sgn(n->b); if(x.hi<y.lo) return c.bool_val(true); if(x.lo>=y.hi) return c.bool_val(false); return x.e<y.e; }
      case EXTRACT: { T x=t2(n); return x.e==k(1); }
      default: ok=false; why="bool operator "+std::to_string(n->op)+" w"+std::to_string(n->a?n->a->w:0); return c.bool_val(true); } }
  void ranges(const std::vector<Node*>& v){ for(auto n:v){ if(n->vs->count()!=1) continue; unsigned id=0; while(!(*n->vs)[id]) id++; int lo=256,hi=-1; Model m; m.v.assign(id+1,0); for(int i=0;i<256;i++){ m.v[id]=i; X.newEval(m); if(X.ev(n)){ lo=std::min(lo,i); hi=std::max(hi,i);} } if(hi<0) continue; vlo[id]=std::max(vlo[id],lo); vhi[id]=std::min(vhi[id],hi); if(vlo[id]>vhi[id]){ vlo[id]=0; vhi[id]=255; } } }
  bool build(const std::vector<Node*>& v){ ranges(v); for(auto n:v){ cs.push_back(b(n)); if(!ok) return false; } return true; }
};
