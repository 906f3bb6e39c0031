// Hash-consed bit-vector / floating-point expression DAG with local simplification,
// concrete evaluation under a byte model and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <string>
#include <bitset>
#include <cstdio>
#include <cstdlib>
#include <z3++.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;

enum Op : uint8_t {
  CONST, VAR,                       // VAR: 8-bit symbolic byte, a = var id
  ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
  EQ, ULT, ULE, SLT, SLE, NOT,      // boolean (width 1); NOT on width 1
  ITE, CONCAT, EXTRACT, ZEXT, SEXT,
  // floating point (operands are bit patterns; format given by width 32/64)
  FADD, FSUB, FMUL, FDIV, FNEG, FABS,
  FLT, FLE, FEQ, FUNO,              // ordered compares + unordered test
  SI2FP, UI2FP, FP2SI, FP2UI, FPEXT, FPTRUNC
};

const int MAXV = 1536;
typedef std::bitset<MAXV> VSet;

struct Node {
  Op op; uint16_t w; uint32_t id; uint32_t aux;   // aux: extract low bit / var id
  Node *a, *b, *c; u128 k; const VSet* vs;
  uint64_t ep; u128 ev;                           // evaluation memo
  int64_t ilo, ihi; bool isint;                   // FP: value is exactly an integer in [ilo,ihi]
};

inline u128 mask128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); v &= mask128(w); return (i128)((v ^ m) - m); }

struct Key { Op op; uint16_t w; uint32_t aux; Node *a, *b, *c; u128 k;
  bool operator==(const Key& o) const { return op==o.op&&w==o.w&&aux==o.aux&&a==o.a&&b==o.b&&c==o.c&&k==o.k; } };
struct KeyH { size_t operator()(const Key& x) const {
  uint64_t h = x.op * 0x9E3779B97F4A7C15ull + x.w * 1315423911u + x.aux * 2654435761u;
  auto mix=[&](uint64_t v){ h ^= v + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2); h *= 0xff51afd7ed558ccdull; h ^= h>>29; };
  mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.c); mix((uint64_t)x.k); mix((uint64_t)(x.k>>64)); return h; } };

struct Model { std::vector<uint8_t> v; uint8_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; } };

struct Unsupported { std::string what; };

struct Ctx {
  std::unordered_map<Key, Node*, KeyH> tab;
  std::set<std::pair<const VSet*, const VSet*>> dummy;
  std::vector<VSet*> vsPool;
  std::unordered_map<size_t, std::vector<const VSet*>> vsTab;
  uint32_t nextId = 1; uint64_t epoch = 1;
  const VSet* emptyVS; 
  Ctx() { emptyVS = internVS(VSet()); }
  const VSet* internVS(const VSet& s) {
    size_t h = std::hash<VSet>()(s); auto& v = vsTab[h];
    for (auto p : v) if (*p == s) return p;
    auto* n = new VSet(s); v.push_back(n); return n; }
  const VSet* uni(const VSet* x, const VSet* y) { if (x==y||y==emptyVS) return x; if (x==emptyVS) return y; VSet r=*x|*y; if (r==*x) return x; if(r==*y) return y; return internVS(r); }

  Node* mk(Op op, unsigned w, Node* a=0, Node* b=0, Node* c=0, u128 k=0, uint32_t aux=0) {
    Key key{op,(uint16_t)w,aux,a,b,c,k};
    auto it = tab.find(key); if (it != tab.end()) return it->second;
    Node* n = new Node(); n->op=op; n->w=w; n->id=nextId++; n->aux=aux; n->a=a;n->b=b;n->c=c;n->k=k; n->ep=0;
    n->isint=false; n->ilo=n->ihi=0;
    if (op==VAR) { VSet s; if (aux>=MAXV) throw Unsupported{"too many symbolic bytes"}; s.set(aux); n->vs=internVS(s); }
    else { const VSet* v=emptyVS; if(a) v=uni(v,a->vs); if(b) v=uni(v,b->vs); if(c) v=uni(v,c->vs); n->vs=v; }
    tab.emplace(key,n); return n; }

  Node* K(u128 v, unsigned w) { return mk(CONST,w,0,0,0,v&mask128(w)); }
  Node* T() { return K(1,1); } Node* F() { return K(0,1); }
  Node* var(uint32_t id) { return mk(VAR,8,0,0,0,0,id); }
  static bool isK(Node* n) { return n->op==CONST; }

  static u128 foldBin(Op op, u128 x, u128 y, unsigned w) {
    u128 m=mask128(w);
    switch(op){
      case ADD: return (x+y)&m; case SUB: return (x-y)&m; case MUL: return (x*y)&m;
      case UDIV: return y==0? m : (x/y)&m; case UREM: return y==0? x : (x%y)&m;
      case SDIV: { i128 a=sx(x,w),b=sx(y,w); if(b==0) return a<0?1:m; if (b==-1) return (u128)(-(i128)a)&m; return (u128)(a/b)&m; }
      case SREM: { i128 a=sx(x,w),b=sx(y,w); if(b==0) return x; if (b==-1) return 0; return (u128)(a%b)&m; }
      case AND: return x&y; case OR: return x|y; case XOR: return x^y;
      case SHL: return y>=w?0:(x<<(unsigned)y)&m; case LSHR: return y>=w?0:(x>>(unsigned)y);
      case ASHR: { i128 a=sx(x,w); unsigned s=y>=w?w-1:(unsigned)y; return (u128)(a>>s)&m; }
      case EQ: return x==y; case ULT: return x<y; case ULE: return x<=y;
      case SLT: return sx(x,w)<sx(y,w); case SLE: return sx(x,w)<=sx(y,w);
      default: abort(); } }
  static bool commut(Op o){return o==ADD||o==MUL||o==AND||o==OR||o==XOR||o==EQ;}

  // number of known-zero high bits / low bits (cheap analysis)
  unsigned lz(Node* n,int d=0){ if(d>6) return 0;
    switch(n->op){
      case CONST:{ unsigned r=0; while(r<n->w && !((n->k>>(n->w-1-r))&1)) r++; return r; }
      case ZEXT: return n->w-n->a->w + lz(n->a,d+1);
      case AND: return std::max(lz(n->a,d+1),lz(n->b,d+1));
      case OR: case XOR: return std::min(lz(n->a,d+1),lz(n->b,d+1));
      case ITE: return std::min(lz(n->b,d+1),lz(n->c,d+1));
      case ADD:{ unsigned m=std::min(lz(n->a,d+1),lz(n->b,d+1)); return m?m-1:0; }
      case MUL:{ unsigned u=n->w-lz(n->a,d+1), v=n->w-lz(n->b,d+1); return u+v>=n->w?0:n->w-u-v; }
      case LSHR: if(isK(n->b)&&n->b->k<n->w) return std::min<unsigned>(n->w, lz(n->a,d+1)+(unsigned)n->b->k); return lz(n->a,d+1);
      case SHL: if(isK(n->b)&&n->b->k<n->w){ unsigned l=lz(n->a,d+1),s=(unsigned)n->b->k; return l>s?l-s:0;} return 0;
      case UREM: if(isK(n->b)&&n->b->k) return lz(n->b,d+1); return 0;
      case UDIV: if(isK(n->b)&&n->b->k){ unsigned l=lz(n->a,d+1); unsigned bl=n->w-lz(n->b); return std::min<unsigned>(n->w,l+(bl?bl-1:0)); } return 0;
      case CONCAT:{ unsigned l=lz(n->a,d+1); if(l==n->a->w) l+=lz(n->b,d+1); return l; }
      default: return 0; } }
  unsigned tz(Node* n,int d=0){ if(d>6) return 0;
    switch(n->op){
      case CONST:{ if(n->k==0) return n->w; unsigned r=0; while(!((n->k>>r)&1)) r++; return r; }
      case ZEXT: case SEXT:{ unsigned t=tz(n->a,d+1); return t==n->a->w? n->w : t; }
      case AND: return std::max(tz(n->a,d+1),tz(n->b,d+1));
      case ADD: case SUB: case OR: case XOR: return std::min(tz(n->a,d+1),tz(n->b,d+1));
      case ITE: return std::min(tz(n->b,d+1),tz(n->c,d+1));
      case MUL: return std::min<unsigned>(n->w,tz(n->a,d+1)+tz(n->b,d+1));
      case SHL: if(isK(n->b)&&n->b->k<n->w) return std::min<unsigned>(n->w,tz(n->a,d+1)+(unsigned)n->b->k); return tz(n->a,d+1);
      case CONCAT:{ unsigned t=tz(n->b,d+1); if(t==n->b->w) t+=tz(n->a,d+1); return t; }
      default: return 0; } }
  // unsigned upper bound
  u128 umax(Node* n,int d=0){ u128 full=mask128(n->w); if(d>8) return full;
    switch(n->op){
      case CONST: return n->k;
      case ZEXT: return umax(n->a,d+1);
      case ITE: return std::max(umax(n->b,d+1),umax(n->c,d+1));
      case AND: return std::min(umax(n->a,d+1),umax(n->b,d+1));
      case ADD:{ if(n->w>64) return full; u128 s=umax(n->a,d+1)+umax(n->b,d+1); return s>full?full:s; }
      case MUL:{ if(n->w>64) return full; u128 x=umax(n->a,d+1),y=umax(n->b,d+1); if(y&&x>full/y) return full; return x*y; }
      case UREM: if(isK(n->b)&&n->b->k) return std::min(umax(n->a,d+1),n->b->k-1); return full;
      case UDIV: if(isK(n->b)&&n->b->k) return umax(n->a,d+1)/n->b->k; return full;
      case LSHR: if(isK(n->b)&&n->b->k<n->w) return umax(n->a,d+1)>>(unsigned)n->b->k; return full;
      case SHL: if(isK(n->b)&&n->b->k<n->w&&n->w<=64){ u128 x=umax(n->a,d+1)<<(unsigned)n->b->k; return x>full?full:x; } return full;
      case EXTRACT:{ u128 x=umax(n->a,d+1)>>n->aux; return x<full?x:full; }
      case CONCAT: if(n->w<=100) return (umax(n->a,d+1)<<n->b->w)+umax(n->b,d+1); return full;
      default:{ unsigned l=lz(n,d+1); return full>>l>full?full:(l>=n->w?0:(full>>l)); } } }

  Node* bin(Op op, Node* a, Node* b) {
    unsigned w=a->w; 
    if(a->w!=b->w){ fprintf(stderr,"width mismatch op %d %d %d\n",op,a->w,b->w); abort(); }
    bool cmp = op>=EQ && op<=SLE;
    if(w==1){ if(op==ADD||op==SUB) op=XOR; else if(op==MUL) op=AND; }
    if(isK(a)&&isK(b)) return K(foldBin(op,a->k,b->k,w), cmp?1:w);
    if(commut(op)){ if(isK(a)) std::swap(a,b); else if(!isK(b)&&a->id>b->id) std::swap(a,b); }
    u128 m=mask128(w);
    switch(op){
      case ADD:
        if(isK(b)){ if(b->k==0) return a;
          if(a->op==ADD&&isK(a->b)) return bin(ADD,a->a,K(a->b->k+b->k,w));
          if(a->op==ITE&&isK(a->b)&&isK(a->c)) return ite(a->a,K(a->b->k+b->k,w),K(a->c->k+b->k,w)); }
        if(a->op==ADD&&isK(a->b)) return bin(ADD,bin(ADD,a->a,b),a->b);
        if(b->op==ADD&&isK(b->b)) return bin(ADD,bin(ADD,a,b->a),b->b);
        for(int q=0;q<2;q++){ Node*m_=q?b:a,*x_=q?a:b; if(m_->op==MUL&&isK(m_->b)&&m_->a->op==UDIV&&m_->a->a==x_&&isK(m_->a->b)&&((m_->b->k+m_->a->b->k)&m)==0) return bin(UREM,x_,m_->a->b);
          // x = zext(y), quotient zext(udiv(y,c)) etc. are matched after width normalisation by the solver
        }
        if(a->op==SUB&&a->b==b) return a->a; if(b->op==SUB&&b->b==a) return b->a;
        break;
      case SUB: if(isK(b)) return bin(ADD,a,K((u128)0-b->k,w)); if(a==b) return K(0,w);
        if(b->op==MUL&&isK(b->b)&&b->a->op==UDIV&&b->a->a==a&&isK(b->a->b)&&b->a->b->k==b->b->k) return bin(UREM,a,b->b);
        if(a->op==ADD){ if(a->b==b) return a->a; if(a->a==b) return a->b;
           if(isK(a->b)){ Node*t=bin(SUB,a->a,b); return bin(ADD,t,a->b);} }
        if(b->op==ADD&&isK(b->b)){ return bin(ADD,bin(SUB,a,b->a),K((u128)0-b->b->k,w)); }
        break;
      case MUL: if(isK(b)){ if(b->k==0) return b; if(b->k==1) return a;
          if((b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return bin(SHL,a,K(s,w)); }
          if(a->op==MUL&&isK(a->b)) return bin(MUL,a->a,K(a->b->k*b->k,w)); }
        break;
      case UDIV: if(isK(b)){ if(b->k==1) return a; if(b->k&&(b->k&(b->k-1))==0){ unsigned s=0; while(!((b->k>>s)&1)) s++; return bin(LSHR,a,K(s,w)); }
          if(b->k && umax(a)<b->k) return K(0,w); }
        break;
      case UREM: if(isK(b)){ if(b->k==1) return K(0,w); if(b->k&&(b->k&(b->k-1))==0) return bin(AND,a,K(b->k-1,w));
          if(b->k && umax(a)<b->k) return a; }
        break;
      case AND: if(isK(b)){ if(b->k==0) return b; if(b->k==m) return a; if(a->op==AND&&isK(a->b)) return bin(AND,a->a,K(a->b->k&b->k,w));
          // low mask
          if(w>1&&(b->k&(b->k+1))==0){ unsigned n=0; while((b->k>>n)&1) n++; if(umax(a)<=b->k) return a; return zext(extract(a,0,n),w); } 
        }
        if(a==b) return a; if(w==1&&(a==not_(b))) return F(); break;
      case OR: if(isK(b)){ if(b->k==0) return a; if(b->k==m) return b; if(a->op==OR&&isK(a->b)) return bin(OR,a->a,K(a->b->k|b->k,w)); }
        if(a==b) return a; if(w==1&&(a==not_(b))) return T();
        // shifted disjoint pieces -> concat   (x<<s)|zext(y)
        { Node*r=orConcat(a,b); if(r) return r; r=orConcat(b,a); if(r) return r; }
        break;
      case XOR: if(isK(b)){ if(b->k==0) return a; if(w==1&&b->k==1) return not_(a); if(a->op==XOR&&isK(a->b)) return bin(XOR,a->a,K(a->b->k^b->k,w)); } if(a==b) return K(0,w);
        if(a->op==XOR){ if(a->a==b) return a->b; if(a->b==b) return a->a; } if(b->op==XOR){ if(b->a==a) return b->b; if(b->b==a) return b->a; }
        break;
      case SHL: if(isK(b)){ if(b->k==0) return a; if(b->k>=w) return K(0,w);
          unsigned s=(unsigned)b->k; return concat(extract(a,0,w-s),K(0,s)); }
        if(isK(a)&&a->k==0) return a; break;
      case LSHR: if(isK(b)){ if(b->k==0) return a; if(b->k>=w) return K(0,w);
          unsigned s=(unsigned)b->k; return zext(extract(a,s,w-s),w); }
        if(isK(a)&&a->k==0) return a; break;
      case ASHR: if(isK(b)){ if(b->k==0) return a; unsigned s=b->k>=w?w-1:(unsigned)b->k; return sext(extract(a,s,w-s),w); } break;
      case EQ: if(a==b) return T();
        if(w==1&&isK(b)) return b->k? a : not_(a);
        if(isK(b)){
          if(a->op==ZEXT){ if(b->k>>a->a->w) return F(); return bin(EQ,a->a,K(b->k,a->a->w)); }
          if(a->op==SEXT){ u128 lo=b->k&mask128(a->a->w); if((u128)(sx(lo,a->a->w))!=(u128)sx(b->k,w)) return F(); return bin(EQ,a->a,K(lo,a->a->w)); }
          if(a->op==CONCAT){ Node* x=bin(EQ,a->b,K(b->k,a->b->w)); if(x==F()) return x; Node*y=bin(EQ,a->a,K(b->k>>a->b->w,a->a->w)); return and_(x,y); }
          if(a->op==ADD&&isK(a->b)) return bin(EQ,a->a,K(b->k-a->b->k,w));
          if(a->op==XOR&&isK(a->b)) return bin(EQ,a->a,K(b->k^a->b->k,w));
          if(a->op==ITE){ bool k1=isK(a->b),k2=isK(a->c);
             if(k1&&k2){ bool e1=a->b->k==b->k,e2=a->c->k==b->k; if(e1&&e2) return T(); if(!e1&&!e2) return F(); return e1? a->a : not_(a->a); }
             if(k1){ if(a->b->k!=b->k) return and_(not_(a->a),bin(EQ,a->c,b)); return or_(a->a,bin(EQ,a->c,b)); }
             if(k2){ if(a->c->k!=b->k) return and_(a->a,bin(EQ,a->b,b)); return or_(not_(a->a),bin(EQ,a->b,b)); } }
          if(umax(a)<b->k) return F();
        } else {
          if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return bin(EQ,a->a,b->a);
          if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return bin(EQ,a->a,b->a);
          if(a->op==CONCAT&&b->op==CONCAT&&a->a->w==b->a->w) return and_(bin(EQ,a->a,b->a),bin(EQ,a->b,b->b));
        } break;
      case ULT: if(a==b) return F(); if(isK(b)){ if(b->k==0) return F(); if(b->k==1) return bin(EQ,a,K(0,w)); if(umax(a)<b->k) return T(); if(b->k==m) return not_(bin(EQ,a,b)); }
        if(isK(a)){ if(a->k==m) return F(); if(a->k==0) return not_(bin(EQ,b,a)); if(umax(b)<=a->k) return F(); }
        if(a->op==ZEXT&&isK(b)&&!(b->k>>a->a->w)) return bin(ULT,a->a,K(b->k,a->a->w));
        if(b->op==ZEXT&&isK(a)&&!(a->k>>b->a->w)) return bin(ULT,K(a->k,b->a->w),b->a);
        if(a->op==ZEXT&&b->op==ZEXT&&a->a->w==b->a->w) return bin(ULT,a->a,b->a);
        if(a->op==ITE&&isK(a->b)&&isK(a->c)&&isK(b)) return ite(a->a,bin(ULT,a->b,b),bin(ULT,a->c,b));
        break;
      case ULE: return not_(bin(ULT,b,a));
      case SLT: if(a==b) return F();
        if(lz(a)>0&&lz(b)>0) return bin(ULT,a,b);
        if(isK(b)&&b->k==0&&lz(a)>0) return F();
        if(a->op==SEXT&&b->op==SEXT&&a->a->w==b->a->w) return bin(SLT,a->a,b->a);
        if(a->op==SEXT&&isK(b)){ i128 v=sx(b->k,w); unsigned aw=a->a->w; i128 mx=(i128)(mask128(aw)>>1),mn=-mx-1; if(v>mx) return T(); if(v<=mn) return F(); return bin(SLT,a->a,K((u128)v,aw)); }
        if(b->op==SEXT&&isK(a)){ i128 v=sx(a->k,w); unsigned bw=b->a->w; i128 mx=(i128)(mask128(bw)>>1),mn=-mx-1; if(v>=mx) return F(); if(v<mn) return T(); return bin(SLT,K((u128)v,bw),b->a); }
        break;
      case SLE: return not_(bin(SLT,b,a));
      default: break; }
    return mk(op,cmp?1:w,a,b); }

  // a | b  where a = concat(x, 0_s) and b fits in s bits
  Node* orConcat(Node* a, Node* b){ 
    if(a->op==CONCAT&&isK(a->b)&&a->b->k==0){ unsigned s=a->b->w; if(lz(b)>=a->w-s) return concat(a->a,extract(b,0,s)); }
    return 0; }

  Node* not_(Node* a){ if(isK(a)) return K(!a->k,1); if(a->op==NOT) return a->a; return mk(NOT,1,a); }
  Node* and_(Node* a,Node* b){ return bin(AND,a,b); }
  Node* or_(Node* a,Node* b){ return bin(OR,a,b); }
  Node* eq(Node*a,Node*b){ return bin(EQ,a,b); }
  Node* ite(Node* c, Node* a, Node* b){
    if(isK(c)) return c->k?a:b; if(a==b) return a;
    if(c->op==NOT) return ite(c->a,b,a);
    if(a->w==1){ if(isK(a)&&isK(b)) return a->k? c : not_(c);
      if(isK(a)) return a->k? or_(c,b) : and_(not_(c),b);
      if(isK(b)) return b->k? or_(not_(c),a) : and_(c,a); }
    if(a->op==ITE&&a->a==c) a=a->b; if(b->op==ITE&&b->a==c) b=b->c; if(a==b) return a;
    Node* n=mk(ITE,a->w,c,a,b);
    if(a->isint&&b->isint){ n->isint=true; n->ilo=std::min(a->ilo,b->ilo); n->ihi=std::max(a->ihi,b->ihi); }
    return n; }
  Node* concat(Node* hi, Node* lo){ 
    if(isK(hi)&&isK(lo)) return K((hi->k<<lo->w)|lo->k,hi->w+lo->w);
    if(isK(hi)&&hi->k==0) return zext(lo,hi->w+lo->w);
    if(hi->op==EXTRACT&&lo->op==EXTRACT&&hi->a==lo->a&&hi->aux==lo->aux+lo->w) return extract(lo->a,lo->aux,hi->w+lo->w);
    if(hi->op==ZEXT) return zext(concat(hi->a,lo),hi->w+lo->w);
    // right-assoc normal form: concat(x, concat(y,z)); merge (concat(x,y)) on left
    if(hi->op==CONCAT) return concat(hi->a,concat(hi->b,lo));
    if(lo->op==CONCAT&&hi->op==EXTRACT&&lo->a->op==EXTRACT&&hi->a==lo->a->a&&hi->aux==lo->a->aux+lo->a->w)
      return concat(extract(hi->a,lo->a->aux,hi->w+lo->a->w),lo->b);
    if(lo->op==CONCAT&&isK(hi)&&isK(lo->a)) return concat(K((hi->k<<lo->a->w)|lo->a->k,hi->w+lo->a->w),lo->b);
    return mk(CONCAT,hi->w+lo->w,hi,lo); }
  Node* extract(Node* a, unsigned lo, unsigned w){
    if(lo==0&&w==a->w) return a;
    if(isK(a)) return K(a->k>>lo,w);
    switch(a->op){
      case EXTRACT: return extract(a->a,a->aux+lo,w);
      case CONCAT: if(lo>=a->b->w) return extract(a->a,lo-a->b->w,w); if(lo+w<=a->b->w) return extract(a->b,lo,w);
        return concat(extract(a->a,0,lo+w-a->b->w),extract(a->b,lo,a->b->w-lo));
      case ZEXT: if(lo>=a->a->w) return K(0,w); if(lo+w<=a->a->w) return extract(a->a,lo,w); return zext(extract(a->a,lo,a->a->w-lo),w);
      case SEXT: if(lo+w<=a->a->w) return extract(a->a,lo,w); if(lo<a->a->w) return sext(extract(a->a,lo,a->a->w-lo),w); return sext(extract(a->a,a->a->w-1,1),w);
      case AND: case OR: case XOR: return bin(a->op,extract(a->a,lo,w),extract(a->b,lo,w));
      case UDIV: case UREM: if(lo==0&&isK(a->b)&&a->b->k&&a->a->op==ZEXT&&a->a->a->w<=w&&a->b->k<=mask128(w)) return bin(a->op,extract(a->a,0,w),K(a->b->k,w)); break;
      case ADD: case SUB: case MUL: if(lo==0) return bin(a->op,extract(a->a,0,w),extract(a->b,0,w)); break;
      case ITE: if(isK(a->b)||isK(a->c)||a->b->op==ITE||a->c->op==ITE||a->b->op==CONCAT||a->b->op==ZEXT||a->c->op==ZEXT||a->c->op==CONCAT) return ite(a->a,extract(a->b,lo,w),extract(a->c,lo,w)); break;
      default: break; }
    return mk(EXTRACT,w,a,0,0,0,lo); }
  Node* zext(Node* a, unsigned w){ if(w==a->w) return a; if(w<a->w) abort(); if(isK(a)) return K(a->k,w); if(a->op==ZEXT) return zext(a->a,w); 
    if(a->op==ITE&&isK(a->b)&&isK(a->c)) return ite(a->a,K(a->b->k,w),K(a->c->k,w));
    if((a->op==UDIV||a->op==UREM)&&isK(a->b)&&a->b->k) return bin(a->op,zext(a->a,w),K(a->b->k,w));
    return mk(ZEXT,w,a); }
  Node* sext(Node* a, unsigned w){ if(w==a->w) return a; if(isK(a)) return K((u128)sx(a->k,a->w),w); if(a->op==SEXT) return sext(a->a,w); if(lz(a)>0) return zext(a,w);
    if(a->op==ITE&&isK(a->b)&&isK(a->c)) return ite(a->a,K((u128)sx(a->b->k,a->w),w),K((u128)sx(a->c->k,a->w),w));
    return mk(SEXT,w,a); }

  // ---- floating point -------------------------------------------------
  static double asD(u128 k){ uint64_t u=(uint64_t)k; double d; memcpy(&d,&u,8); return d; }
  static float asF(u128 k){ uint32_t u=(uint32_t)k; float d; memcpy(&d,&u,4); return d; }
  static long double asL(u128 k){ long double d=0; memcpy(&d,&k,10); return d; }
  static u128 frD(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
  static u128 frF(float d){ uint32_t u; memcpy(&u,&d,4); return u; }
  static u128 frL(long double d){ u128 k=0; memcpy(&k,&d,10); return k; }
  static u128 foldF(Op op,u128 x,u128 y,unsigned w){
    #define FB(get,put) { auto a=get(x),b=get(y); switch(op){ case FADD: return put(a+b); case FSUB: return put(a-b); case FMUL: return put(a*b); case FDIV: return put(a/b); \
       case FNEG: return put(-a); case FABS: return put(std::fabs(a)); case FLT: return a<b; case FLE: return a<=b; case FEQ: return a==b; case FUNO: return std::isnan(a)||std::isnan(b); default: abort(); } }
    if(w==64) FB(asD,frD) else if(w==32) FB(asF,frF) else FB(asL,frL)
    #undef FB
  }
  static bool intConst(Node* n,int64_t& v){ if(n->op!=CONST) return false; double d; if(n->w==64) d=asD(n->k); else if(n->w==32) d=asF(n->k); else return false;
    if(d==0.0&&std::signbit(d)) return false; if(!(std::fabs(d)<4503599627370496.0)||d!=std::floor(d)) return false; v=(int64_t)d; return true; }
  static bool intRange(Node*n,int64_t&lo,int64_t&hi){ if(n->isint){lo=n->ilo;hi=n->ihi;return true;} int64_t v; if(intConst(n,v)){lo=hi=v;return true;} return false; }
  // integer (64 bit signed expression) denoted by an exact-integer FP node
  Node* intOf(Node* n){ int64_t v; if(intConst(n,v)) return K((u128)(i128)v,64);
    if(n->op==SI2FP) return sext(n->a,64); if(n->op==UI2FP) return zext(n->a,64);
    if(n->op==FPEXT||n->op==FPTRUNC) return intOf(n->a);
    if(n->op==ITE) return ite(n->a,intOf(n->b),intOf(n->c)); abort(); }
  Node* mkInt(Node* i64,int64_t lo,int64_t hi,unsigned w){ if(isK(i64)){ int64_t v=(int64_t)i64->k; return w==64?K(frD((double)v),64):K(frF((float)v),32);} 
    Node* n=mk(SI2FP,w,i64); n->isint=true; n->ilo=lo; n->ihi=hi; return n; }
  static int64_t lim(unsigned w){ return w==64? ((int64_t)1<<52) : ((int64_t)1<<23); }
  // n = x * 2^-k with x an exact integer that is not negative, 1<=k<=40
  bool scaled(Node* n,Node*& x,int& k){ if(n->op!=FMUL||n->w!=64) return false; for(int t=0;t<2;++t){ Node* v=t?n->b:n->a; Node* c=t?n->a:n->b; int64_t lo,hi; if(!isK(c)||!intRange(v,lo,hi)||lo<0) continue; int e; double d=asD(c->k); if(!(d>0)||std::frexp(d,&e)!=0.5) continue; k=1-e; if(k<1||k>40) continue; x=v; return true; } return false; }
  Node* fbin(Op op,Node*a,Node*b){ unsigned w=a->w; bool cmp=(op>=FLT&&op<=FUNO);
    if(isK(a)&&isK(b)) return K(foldF(op,a->k,b->k,w),cmp?1:w);
    int64_t al,ah,bl,bh;
    if((w==64||w==32)&&intRange(a,al,ah)&&intRange(b,bl,bh)){
      int64_t L=lim(w); i128 lo,hi;
      switch(op){
        case FADD: lo=(i128)al+bl;hi=(i128)ah+bh; if(lo>-L&&hi<L) return mkInt(bin(ADD,intOf(a),intOf(b)),(int64_t)lo,(int64_t)hi,w); break;
        case FSUB: lo=(i128)al-bh;hi=(i128)ah-bl; if(lo>-L&&hi<L) return mkInt(bin(SUB,intOf(a),intOf(b)),(int64_t)lo,(int64_t)hi,w); break;
        case FMUL: { if(al<0||bl<0) break; lo=(i128)al*bl; hi=(i128)ah*bh; if(hi<L) return mkInt(bin(MUL,intOf(a),intOf(b)),(int64_t)lo,(int64_t)hi,w); break; }
        case FLT: return bin(SLT,intOf(a),intOf(b)); case FLE: return bin(SLE,intOf(a),intOf(b)); case FEQ: return bin(EQ,intOf(a),intOf(b)); case FUNO: return F();
        default: break; } }
    if(op==FEQ&&a==b&&a->isint) return T();
    // an exact integer times 2^-k: products with exact integers and comparisons with constants stay exact
    if(w==64){ Node *x; int k; int64_t lo,hi;
      if(op==FADD&&a==b&&scaled(a,x,k)) return fbin(FMUL,a,K(frD(2.0),64));
      if(op==FMUL){ Node* o=b; bool sc=scaled(a,x,k); if(!sc){ sc=scaled(b,x,k); o=a; }
        if(sc&&intRange(x,al,ah)&&intRange(o,bl,bh)&&al>=0&&bl>=0&&(i128)ah*bh<lim(w)) return mk(FMUL,w,mkInt(bin(MUL,intOf(x),intOf(o)),(int64_t)(al*bl),(int64_t)(ah*bh),w),K(frD(std::ldexp(1.0,-k)),64)); }
      if(op==FLT&&isK(b)&&scaled(a,x,k)){ double c=std::ldexp(asD(b->k),k); if(std::fabs(c)<4e15) return bin(SLT,intOf(x),K((u128)(i128)(int64_t)std::ceil(c),64)); }
      if(op==FLT&&isK(a)&&scaled(b,x,k)){ double c=std::ldexp(asD(a->k),k); if(std::fabs(c)<4e15) return bin(SLT,K((u128)(i128)(int64_t)std::floor(c),64),intOf(x)); }
      (void)lo; (void)hi; }
    if(w==80) throw Unsupported{"symbolic long double"};
    return mk(op,cmp?1:w,a,b); }
  Node* fun(Op op,Node*a){ if(isK(a)) return K(foldF(op,a->k,a->k,a->w),a->w); if(op==FNEG&&a->op==FNEG) return a->a; if(a->w==80) throw Unsupported{"symbolic long double"};
    // sign-bit manipulation is exact on the bit pattern but keep it structural
    return mk(op,a->w,a); }
  Node* i2fp(bool sgn,Node* a,unsigned w){ 
    if(isK(a)){ if(sgn){ i128 v=sx(a->k,a->w); return w==64?K(frD((double)v),64): w==32?K(frF((float)v),32):K(frL((long double)v),80);} 
      u128 v=a->k; return w==64?K(frD((double)v),64): w==32?K(frF((float)v),32):K(frL((long double)v),80); }
    if(w==80) throw Unsupported{"symbolic long double"};
    u128 mx=umax(a); bool nonneg=!sgn||lz(a)>0;
    if(nonneg&&mx<(u128)lim(w)) return mkInt(zext(a,std::max(64u,(unsigned)a->w)),0,(int64_t)mx,w);
    if(sgn&&a->w<=32&&w==64) return mkInt(sext(a,64),-((int64_t)1<<(a->w-1)),((int64_t)1<<(a->w-1))-1,w);
    return mk(sgn?SI2FP:UI2FP,w,a); }
  Node* fp2i(bool sgn,Node*a,unsigned w){
    if(isK(a)){ long double d= a->w==64?(long double)asD(a->k):a->w==32?(long double)asF(a->k):asL(a->k);
      if(sgn) return K((u128)(i128)d,w); return K(d<0?(u128)(i128)d:(u128)d,w); }
    if(a->isint) { Node* i=intOf(a); return w<=64? extract(i,0,w) : sext(i,w); }
    { Node* x; int k; if(scaled(a,x,k)) { Node* i=bin(LSHR,intOf(x),K(k,64)); return w<=64? extract(i,0,w) : zext(i,w); } }
    return mk(sgn?FP2SI:FP2UI,w,a); }
  Node* fpcast(Node*a,unsigned w){ if(a->w==w) return a;
    if(isK(a)){ if(w==64) return K(frD(a->w==32?(double)asF(a->k):(double)asL(a->k)),64); if(w==32) return K(frF(a->w==64?(float)asD(a->k):(float)asL(a->k)),32);
      return K(frL(a->w==64?(long double)asD(a->k):(long double)asF(a->k)),80); }
    if(a->w==80||w==80) throw Unsupported{"symbolic long double"};
    if(a->isint){ int64_t L=lim(w); if(a->ilo>-L&&a->ihi<L) return mkInt(intOf(a),a->ilo,a->ihi,w); }
    return mk(w>a->w?FPEXT:FPTRUNC,w,a); }

  // ---- concrete evaluation under a model -------------------------------
  const Model* evM=nullptr;
  void newEval(const Model& m){ evM=&m; ++epoch; }
  u128 ev(Node* n){
    if(n->op==CONST) return n->k;
    if(n->ep==epoch) return n->ev;
    u128 r=0;
    switch(n->op){
      case VAR: r=evM->get(n->aux); break;
      case NOT: r=!ev(n->a); break;
      case ITE: r=ev(n->a)?ev(n->b):ev(n->c); break;
      case AND: { u128 x=ev(n->a); r= x? (x&ev(n->b)) : 0; break; }
      case CONCAT: r=(ev(n->a)<<n->b->w)|ev(n->b); break;
      case EXTRACT: r=(ev(n->a)>>n->aux)&mask128(n->w); break;
      case ZEXT: r=ev(n->a); break;
      case SEXT: r=(u128)sx(ev(n->a),n->a->w)&mask128(n->w); break;
      case FADD: case FSUB: case FMUL: case FDIV: case FLT: case FLE: case FEQ: case FUNO: r=foldF(n->op,ev(n->a),ev(n->b),n->a->w); break;
      case FNEG: case FABS: r=foldF(n->op,ev(n->a),0,n->w); break;
      case SI2FP: { i128 v=sx(ev(n->a),n->a->w); r=n->w==64?frD((double)v):frF((float)v); break; }
      case UI2FP: { u128 v=ev(n->a); r=n->w==64?frD((double)v):frF((float)v); break; }
      case FP2SI: case FP2UI: { u128 v=ev(n->a); long double d=n->a->w==64?(long double)asD(v):(long double)asF(v); r=(u128)(i128)d&mask128(n->w); break; }
      case FPEXT: r=frD((double)asF(ev(n->a))); break;
      case FPTRUNC: r=frF((float)asD(ev(n->a))); break;
      default: r=foldBin(n->op,ev(n->a),ev(n->b),n->a->w); }
    n->ep=epoch; n->ev=r; return r; }
};

struct Z3T {
  Ctx& X; z3::context c; std::unordered_map<Node*, z3::expr> memo;
  Z3T(Ctx& x):X(x){}
  z3::expr kbv(u128 k,unsigned w){ if(w<=64) return c.bv_val((uint64_t)k,w); 
    return z3::concat(c.bv_val((uint64_t)(k>>64),w-64),c.bv_val((uint64_t)k,64)); }
  z3::sort fs(unsigned w){ return w==64?c.fpa_sort(11,53):c.fpa_sort(8,24); }
  z3::expr rm(){ return z3::expr(c,Z3_mk_fpa_rne(c)); }
  z3::expr b2(z3::expr b){ return z3::ite(b,c.bv_val(1,1),c.bv_val(0,1)); }
  z3::expr asFP(Node* n){ // fp term for a bit pattern node
    switch(n->op){
      case FADD: case FSUB: case FMUL: case FDIV: case FNEG: case FABS: case SI2FP: case UI2FP: case FPEXT: case FPTRUNC: return fp(n);
      case ITE: return z3::ite(tb(n->a),asFP(n->b),asFP(n->c));
      default: return z3::expr(c,Z3_mk_fpa_to_fp_bv(c,t(n),fs(n->w))); } }
  std::unordered_map<Node*, z3::expr> fmemo;
  z3::expr fp(Node* n){ auto it=fmemo.find(n); if(it!=fmemo.end()) return it->second;
    z3::expr r(c);
    switch(n->op){
      case FADD: r=z3::expr(c,Z3_mk_fpa_add(c,rm(),asFP(n->a),asFP(n->b))); break;
      case FSUB: r=z3::expr(c,Z3_mk_fpa_sub(c,rm(),asFP(n->a),asFP(n->b))); break;
      case FMUL: r=z3::expr(c,Z3_mk_fpa_mul(c,rm(),asFP(n->a),asFP(n->b))); break;
      case FDIV: r=z3::expr(c,Z3_mk_fpa_div(c,rm(),asFP(n->a),asFP(n->b))); break;
      case FNEG: r=z3::expr(c,Z3_mk_fpa_neg(c,asFP(n->a))); break;
      case FABS: r=z3::expr(c,Z3_mk_fpa_abs(c,asFP(n->a))); break;
      case SI2FP: r=z3::expr(c,Z3_mk_fpa_to_fp_signed(c,rm(),t(n->a),fs(n->w))); break;
      case UI2FP: r=z3::expr(c,Z3_mk_fpa_to_fp_unsigned(c,rm(),t(n->a),fs(n->w))); break;
      case FPEXT: case FPTRUNC: r=z3::expr(c,Z3_mk_fpa_to_fp_float(c,rm(),asFP(n->a),fs(n->w))); break;
      default: abort(); }
    fmemo.emplace(n,r); return r; }
  z3::expr tb(Node* n){ // boolean translation of width-1 node
    switch(n->op){
      case CONST: return c.bool_val(n->k!=0);
      case NOT: return !tb(n->a);
      default: break; }
    auto it=bmemo.find(n); if(it!=bmemo.end()) return it->second;
    z3::expr r(c);
    switch(n->op){
      case AND: r=tb(n->a)&&tb(n->b); break; case OR: r=tb(n->a)||tb(n->b); break; case XOR: r=tb(n->a)!=tb(n->b); break;
      case EQ: if(n->a->w==1) r=tb(n->a)==tb(n->b); else r=t(n->a)==t(n->b); break;
      case ULT: r=z3::ult(t(n->a),t(n->b)); break;
      case SLT: r=(t(n->a)<t(n->b)); break;
      case ITE: r=z3::ite(tb(n->a),tb(n->b),tb(n->c)); break;
      case FLT: r=z3::expr(c,Z3_mk_fpa_lt(c,asFP(n->a),asFP(n->b))); break;
      case FLE: r=z3::expr(c,Z3_mk_fpa_leq(c,asFP(n->a),asFP(n->b))); break;
      case FEQ: r=z3::expr(c,Z3_mk_fpa_eq(c,asFP(n->a),asFP(n->b))); break;
      case FUNO: r=z3::expr(c,Z3_mk_fpa_is_nan(c,asFP(n->a)))||z3::expr(c,Z3_mk_fpa_is_nan(c,asFP(n->b))); break;
      default: r=(t(n)==c.bv_val(1,1)); }
    bmemo.emplace(n,r); return r; }
  std::unordered_map<Node*, z3::expr> bmemo;
  z3::expr t(Node* n){
    auto it=memo.find(n); if(it!=memo.end()) return it->second;
    z3::expr r(c);
    switch(n->op){
      case CONST: r=kbv(n->k,n->w); break;
      case VAR: { char nm[32]; snprintf(nm,32,"v%u",n->aux); r=c.bv_const(nm,8); break; }
      case ADD: r=t(n->a)+t(n->b); break; case SUB: r=t(n->a)-t(n->b); break; case MUL: r=t(n->a)*t(n->b); break;
      case UDIV: r=z3::udiv(t(n->a),t(n->b)); break; case SDIV: r=t(n->a)/t(n->b); break;
      case UREM: r=z3::urem(t(n->a),t(n->b)); break; case SREM: r=z3::srem(t(n->a),t(n->b)); break;
      case AND: if(n->w==1){r=b2(tb(n));break;} r=t(n->a)&t(n->b); break; case OR: if(n->w==1){r=b2(tb(n));break;} r=t(n->a)|t(n->b); break; case XOR: if(n->w==1){r=b2(tb(n));break;} r=t(n->a)^t(n->b); break;
      case SHL: r=z3::shl(t(n->a),t(n->b)); break; case LSHR: r=z3::lshr(t(n->a),t(n->b)); break; case ASHR: r=z3::ashr(t(n->a),t(n->b)); break;
      case EQ: case ULT: case SLT: case NOT: case FLT: case FLE: case FEQ: case FUNO: r=b2(tb(n)); break;
      case ITE: r=z3::ite(tb(n->a),t(n->b),t(n->c)); break;
      case CONCAT: r=z3::concat(t(n->a),t(n->b)); break;
      case EXTRACT: r=t(n->a).extract(n->aux+n->w-1,n->aux); break;
      case ZEXT: r=z3::zext(t(n->a),n->w-n->a->w); break; case SEXT: r=z3::sext(t(n->a),n->w-n->a->w); break;
      case FADD: case FSUB: case FMUL: case FDIV: case FNEG: case FABS: case SI2FP: case UI2FP: case FPEXT: case FPTRUNC: r=z3::expr(c,Z3_mk_fpa_to_ieee_bv(c,fp(n))); break;
      case FP2SI: r=z3::expr(c,Z3_mk_fpa_to_sbv(c,z3::expr(c,Z3_mk_fpa_rtz(c)),asFP(n->a),n->w)); break;
      case FP2UI: r=z3::expr(c,Z3_mk_fpa_to_ubv(c,z3::expr(c,Z3_mk_fpa_rtz(c)),asFP(n->a),n->w)); break;
      default: fprintf(stderr,"xlate op %d\n",n->op); abort(); }
    memo.emplace(n,r); return r; }
};
