// symex: bounded symbolic executor for LLVM 18 bitcode, deciding path feasibility and assertions with Z3.
#include "expr.h"
#include "lia.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/DenseMap.h>
#include <memory>
#include <chrono>
#include <algorithm>
#include <deque>
#include <cxxabi.h>
using namespace llvm;


static double now(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

struct Val { Node* n; u64 c; };
static Ctx* X; static Z3T* Z;

struct Slot { bool isConst; Val v; int slot; };
struct OpR { std::vector<Slot> s; Type* ty; };           // flattened operand
struct GepStep { Slot idx; int64_t scale; unsigned w; };
struct Fn;
struct InstI { Instruction* I; unsigned opc; int dest; int nd; std::vector<OpR> ops; std::vector<unsigned> w; // dest widths
  int64_t gepOff=0; std::vector<GepStep> gep; Fn* callee=nullptr; Function* calleeF=nullptr; int intr=0; int ext=-1; bool hit=false; };
struct BBI { std::vector<InstI> in; BasicBlock* bb; int nphi; };
struct Fn { Function* F; std::vector<BBI> bbs; int nslots; DenseMap<const Value*,int> slot; DenseMap<const BasicBlock*,int> bbIdx; bool ready=false; };

struct Obj { u64 base,size; std::vector<uint8_t> d; std::vector<uint8_t> st; std::vector<Node*> sy; bool ro; uint8_t kind; // kind: 0 global 1 stack 2 heap(new) 3 heap(new[]) 4 heap(malloc)
  void needSy(){ if(sy.empty()) sy.resize(size,nullptr);} };
typedef std::shared_ptr<Obj> ObjP;

struct Frame { Fn* fn; int bb=0, ip=0, prev=-1; std::vector<Val> r; std::vector<u64> allocas; };
struct Cons { Node* n; std::shared_ptr<Cons> prev; int len; };
struct SymIn { std::string name; std::vector<uint32_t> ids; };
struct State { std::vector<Frame> st; std::map<u64,ObjP> mem; u64 heapNext; std::shared_ptr<Cons> cons; Model model; u64 steps=0; 
  std::vector<uint32_t> inputs; uint32_t nsym=0; std::vector<Val> obs; std::vector<unsigned> obsW; std::vector<uint32_t> tags; u64 asserts=0;
  u64 excObj=0, excType=0; std::string excLoc; std::vector<std::string> excInfo; bool inExc=false; std::map<u64,int> freed; };

struct Violation { std::string kind,msg,loc; std::vector<uint8_t> input; bool usesUninit; };

// ---- statistics / options
static u64 S_paths=0,S_instr=0,S_queries=0,S_sat=0,S_unsat=0,S_cache=0,S_forks=0,S_asserts=0,S_assertSym=0,S_unknown=0,S_maxlen=0,S_mcache=0,S_infeasAssume=0; static double S_solver=0;
static u64 O_maxSteps=20000000; static double O_maxTime=600; static u64 O_maxPaths=20000000; static int O_maxViol=3; static unsigned O_qtimeout=60000; static int O_samples=64; static int O_debug=0;
static std::vector<Violation> viols; static std::map<std::string,u64> reached; static std::vector<std::string> samples; static std::vector<std::vector<u64>> sampleObs;
static std::string incomplete; static double T0;
static std::vector<uint32_t> uninitVars; static std::map<u64,std::string> tagNames;

static Module* M; static const DataLayout* DL; static DenseMap<Function*,Fn*> fns; static DenseMap<const GlobalValue*,u64> gaddr; static std::map<u64,Function*> faddr;
static std::map<u64,ObjP> constMem; // read-only objects shared by all states
static std::deque<State*> work;

struct PathEnd { int why; }; // 0 done 1 infeasible/assume 2 violation
[[noreturn]] static void endPath(int w){ throw PathEnd{w}; }

static std::string locOf(State& s){ std::string r; int n=0;
  for(int i=(int)s.st.size()-1;i>=0&&n<6;i--,n++){ Frame& f=s.st[i]; if(f.bb<0) continue; auto& b=f.fn->bbs[f.bb]; int ip=f.ip; if(ip>=(int)b.in.size()) ip=b.in.size()-1; Instruction* I=b.in[ip].I;
    std::string fnm=llvm::demangle(f.fn->F->getName().str()); if(fnm.size()>120) fnm=fnm.substr(0,120)+"...";
    if(auto dl=I->getDebugLoc()){ const DILocation* L=dl; std::string ch; int k=0; while(L&&k<6){ ch+=(k?" <- ":"")+L->getFilename().str()+":"+std::to_string(L->getLine()); L=L->getInlinedAt(); k++; } r+=ch+" in "+fnm+" | "; }
    else r+="?? in "+fnm+" | "; }
  return r; }

static std::vector<uint8_t> concInput(State& s,const Model& m){ std::vector<uint8_t> r; for(auto id:s.inputs) r.push_back(m.get(id)); return r; }

static Val C(u64 c){ return Val{nullptr,c}; }
static u64 mk64(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static Node* N(const Val& v,unsigned w){ return v.n? v.n : X->K(v.c,w); }
static Val V(Node* n){ if(n->op==CONST&&n->w<=64) return Val{nullptr,(u64)n->k}; return Val{n,0}; }

// ------------------------------------------------------------------ solver
struct QKey { std::vector<uint32_t> ids; bool operator==(const QKey&o)const{return ids==o.ids;} };
struct QKeyH { size_t operator()(const QKey&k)const{ size_t h=1469598103934665603ull; for(auto i:k.ids){h^=i;h*=1099511628211ull;h^=h>>31;} return h; } };
struct QRes { int r; std::vector<std::pair<uint32_t,uint8_t>> m; };
static std::unordered_map<QKey,QRes,QKeyH> qcache;
static z3::solver* ZS=nullptr;
static std::deque<Model> recentModels;
static u64 slowN=0, S_lia=0;

// returns 1 sat (model extended), 0 unsat ; throws on unknown
static int solve(State& s, Node* cond, Model& out){
  if(cond->op==CONST){ if(cond->k){ out=s.model; return 1;} return 0; }
  // slice
  std::vector<Node*> cs; { std::vector<Node*> all; for(auto p=s.cons;p;p=p->prev) all.push_back(p->n);
    VSet vs=*cond->vs; std::vector<char> used(all.size(),0); bool ch=true;
    while(ch){ ch=false; for(size_t i=0;i<all.size();i++) if(!used[i]&&(vs&*all[i]->vs).any()){ used[i]=1; vs|=*all[i]->vs; cs.push_back(all[i]); ch=true; } } 
    if(all.size()>S_maxlen) S_maxlen=all.size();
    cs.push_back(cond);
    QKey k; for(auto n:cs) k.ids.push_back(n->id); std::sort(k.ids.begin(),k.ids.end()); k.ids.erase(std::unique(k.ids.begin(),k.ids.end()),k.ids.end());
    auto it=qcache.find(k);
    if(it!=qcache.end()){ S_cache++; if(it->second.r==1){ out=s.model; for(auto&p:it->second.m){ if(out.v.size()<=p.first) out.v.resize(p.first+1,0); out.v[p.first]=p.second; } } return it->second.r; }
    // try the values of recent models on this slice
    int tries=0; for(auto& m:recentModels){ if(++tries>12) break; X->newEval(m); bool ok=true; for(auto n:cs) if(!X->ev(n)){ok=false;break;} 
      if(ok){ S_mcache++; QRes q; q.r=1; for(uint32_t i=0;i<MAXV;i++) if(vs[i]) q.m.push_back({i,m.get(i)}); out=s.model; for(auto&p:q.m){ if(out.v.size()<=p.first) out.v.resize(p.first+1,0); out.v[p.first]=p.second; } qcache.emplace(std::move(k),std::move(q)); return 1; } }
    S_queries++; double t=now(); if(t-T0>O_maxTime) throw Unsupported{"time budget exhausted"};
    z3::check_result r=z3::unknown; QRes q; z3::model zm(Z->c); bool viaLia=false; 
    bool arith=false; { std::unordered_set<Node*> seen; std::vector<Node*> stk(cs.begin(),cs.end()); while(!stk.empty()&&!arith){ Node*n=stk.back(); stk.pop_back(); if(!n||!seen.insert(n).second) continue; if((n->op==MUL||n->op==UDIV||n->op==UREM||n->op==SDIV||n->op==SREM)&&n->vs->count()>1) arith=true; stk.push_back(n->a); stk.push_back(n->b); stk.push_back(n->c); } }
    auto tryLia=[&](unsigned to){ LIA L(*X,Z->c); try{ if(!L.build(cs)){ if(O_debug>1) fprintf(stderr,"lia: %s\n",L.why.c_str()); return; } z3::solver s3(Z->c,"QF_LIA"); z3::params p(Z->c); p.set("timeout",to); s3.set(p); for(unsigned i=0;i<L.cs.size();i++) s3.add(L.cs[i]); r=s3.check(); if(r==z3::sat) zm=s3.get_model(); viaLia=true; S_lia++; }catch(z3::exception& e){ r=z3::unknown; } };
    if(arith) tryLia(10000);
    if(r==z3::unknown){ viaLia=false; try{
      z3::params p(Z->c); p.set("timeout",(unsigned)(arith?5000:8000)); ZS->set(p);
      ZS->push(); for(auto n:cs) ZS->add(Z->tb(n)); r=ZS->check(); if(r==z3::sat) zm=ZS->get_model(); ZS->pop();
    }catch(z3::exception& e){ r=z3::unknown; ZS->reset(); } }
    if(r==z3::unknown&&!arith) tryLia(10000);
    if(r==z3::unknown){ viaLia=false; // heavier tactic
      slowN++;
      try{ z3::tactic tt=z3::tactic(Z->c,"simplify")&z3::tactic(Z->c,"solve-eqs")&z3::tactic(Z->c,"simplify")&z3::tactic(Z->c,"fpa2bv")&z3::tactic(Z->c,"simplify")&z3::tactic(Z->c,"bit-blast")&z3::tactic(Z->c,"sat");
        z3::solver s2=tt.mk_solver(); z3::params p(Z->c); p.set("timeout",O_qtimeout); s2.set(p); for(auto n:cs) s2.add(Z->tb(n)); r=s2.check(); if(r==z3::sat) zm=s2.get_model(); }
      catch(z3::exception& e){ r=z3::unknown; } }
    if(r==z3::unknown) tryLia(O_qtimeout);
    double dt=now()-t; S_solver+=dt; if(O_debug>2&&dt>1){ LIA L(*X,Z->c); L.build(cs); z3::solver s3(Z->c,"QF_LIA"); for(unsigned i=0;i<L.cs.size();i++) s3.add(L.cs[i]); char fn[64]; snprintf(fn,64,"/tmp/slow_%llu.smt2",(unsigned long long)S_queries); FILE*ff=fopen(fn,"w"); fputs(s3.to_smt2().c_str(),ff); fclose(ff); z3::solver s4(Z->c); for(auto n:cs) s4.add(Z->tb(n)); snprintf(fn,64,"/tmp/slowbv_%llu.smt2",(unsigned long long)S_queries); ff=fopen(fn,"w"); fputs(s4.to_smt2().c_str(),ff); fclose(ff); } if(O_debug&&dt>1) fprintf(stderr,"slow query %.2fs r=%d %s\n",dt,(int)r,locOf(s).c_str());
    if(r==z3::unknown){ S_unknown++; throw Unsupported{"solver returned unknown at "+locOf(s)}; }
    q.r= r==z3::sat;
    if(q.r){ S_sat++; out=s.model; Model nm; for(uint32_t i=0;i<MAXV;i++) if(vs[i]){ char b[32]; snprintf(b,32,viaLia?"i%u":"v%u",i); z3::expr v=zm.eval(viaLia?Z->c.int_const(b):Z->c.bv_const(b,8),true); unsigned long long x=0; x=v.get_numeral_uint(); q.m.push_back({i,(uint8_t)x}); }
      for(auto&p:q.m){ if(out.v.size()<=p.first) out.v.resize(p.first+1,0); out.v[p.first]=p.second; }
      X->newEval(out); for(auto n:cs) if(!X->ev(n)) throw Unsupported{"model validation failed at "+locOf(s)};
      recentModels.push_front(out); if(recentModels.size()>12) recentModels.pop_back();
    } else S_unsat++;
    int rr=q.r; qcache.emplace(std::move(k),std::move(q)); return rr; } }

static void addCons(State& s,Node* c){ if(c->op==CONST) return; 
  if(c->op==AND){ addCons(s,c->a); addCons(s,c->b); return; }
  for(auto p=s.cons;p;p=p->prev) if(p->n==c) return;
  s.cons=std::make_shared<Cons>(Cons{c,s.cons,(s.cons?s.cons->len:0)+1}); }
static bool known(State& s,Node* c){ for(auto p=s.cons;p;p=p->prev) if(p->n==c) return true; return false; }

static State* fork(State& s){ S_forks++; State* n=new State(s); return n; }

// Decide a width-1 condition: returns concrete truth for s, pushing the other feasible side as a forked state
// positioned at the current instruction (so it re-executes it under the added constraint).
static bool branch(State& s, Node* c){
  if(c->op==CONST) return c->k!=0;
  if(known(s,c)) return true; Node* nc=X->not_(c); if(known(s,nc)) return false;
  X->newEval(s.model); bool cur=X->ev(c)!=0; Node* other=cur?nc:c; Model m;
  if(solve(s,other,m)){ State* o=fork(s); o->model=m; addCons(*o,other); work.push_back(o); addCons(s,cur?c:nc); }
  return cur; }

static u64 conc(State& s,const Val& v,unsigned w){ if(!v.n) return v.c; if(v.n->op==CONST) return (u64)v.n->k;
  X->newEval(s.model); u128 k=X->ev(v.n); Node* e=X->eq(v.n,X->K(k,v.n->w)); 
  if(e->op==CONST||known(s,e)) return (u64)k;
  Node* ne=X->not_(e); Model m; if(solve(s,ne,m)){ State* o=fork(s); o->model=m; addCons(*o,ne); work.push_back(o); addCons(s,e);} 
  return (u64)k; }

// An address that depends on the input only through a few boolean conditions (a flag selecting between offsets) is
// resolved by forking on those conditions, so that pointers stay concrete.
static bool skel(Node* n,Node*& cond,int& budget){ if(--budget<0) return false; if(n->op==CONST) return true; if(n->w==1){ cond=n; return true; }
  switch(n->op){ case ITE: if(n->a->op!=CONST) cond=n->a; { Node* d=nullptr; return skel(n->b,d,budget)&&skel(n->c,d,budget); }
    case ADD: case SUB: case MUL: case CONCAT: case SHL: return skel(n->a,cond,budget)&&skel(n->b,cond,budget);
    case ZEXT: case SEXT: case EXTRACT: return skel(n->a,cond,budget); default: return false; } }
static Node* substB(Node* n,Node* c,Node* v){ if(n==c) return v; if(c->op==NOT&&n==c->a) return X->not_(v); if(n->op==CONST||n->w==1) return n;
  switch(n->op){ case ITE: return X->ite(n->a==c?v:n->a,substB(n->b,c,v),substB(n->c,c,v));
    case ADD: case SUB: case MUL: case SHL: return X->bin(n->op,substB(n->a,c,v),substB(n->b,c,v)); case CONCAT: return X->concat(substB(n->a,c,v),substB(n->b,c,v));
    case ZEXT: return X->zext(substB(n->a,c,v),n->w); case SEXT: return X->sext(substB(n->a,c,v),n->w); case EXTRACT: return X->extract(substB(n->a,c,v),n->aux,n->w); default: return n; } }
static Node* resolveConds(State& s,Node* e){ for(int i=0;i<8&&e->op!=CONST;i++){ Node* c=nullptr; int b=64; if(!skel(e,c,b)||!c) return e; bool t=branch(s,c); e=substB(e,c,t?X->T():X->F()); } return e; }

static void report(State& s,const char* kind,const std::string& msg,const Model& m,const VSet* vs=nullptr){
  Violation v; v.kind=kind; v.msg=msg; v.loc=locOf(s); v.input=concInput(s,m); v.usesUninit=false; for(auto u:uninitVars) if(u<s.nsym) v.usesUninit=true;
  viols.push_back(v); }

static void violate(State& s,const char* kind,const std::string& msg){ report(s,kind,msg,s.model); endPath(2); }

// ------------------------------------------------------------------ memory
static u64 allocObj(State& s,u64 size,uint8_t kind,bool ro=false,bool init=false){
  ObjP o=std::make_shared<Obj>(); o->base=s.heapNext; o->size=size; o->d.assign(size,0); o->st.assign(size,init?0:2); o->ro=ro; o->kind=kind;
  s.heapNext += ((size+63)/64+1)*64 + (1ull<<24); s.mem[o->base]=o; return o->base; }
static Obj* findObj(State& s,u64 a){ 
  { auto it=s.mem.upper_bound(a); if(it!=s.mem.begin()){ --it; Obj* o=it->second.get(); if(a-o->base<o->size||(a==o->base&&o->size==0)) return o; } }
  { auto it=constMem.upper_bound(a); if(it!=constMem.begin()){ --it; Obj* o=it->second.get(); if(a-o->base<o->size) return o; } }
  return nullptr; }
static Obj* wr(State& s,Obj* o){ auto it=s.mem.find(o->base); if(it==s.mem.end()) return nullptr; if(it->second.use_count()>1) it->second=std::make_shared<Obj>(*it->second); return it->second.get(); }
static std::string descr(State& s,u64 a,u64 n){ char b[200]; // nearest object
  auto it=s.mem.upper_bound(a); std::string r; if(it!=s.mem.begin()){ --it; Obj*o=it->second.get(); if(a-o->base<o->size+(1<<22)){ const char* kn[]={"global","stack","heap","heap","heap"}; snprintf(b,200,"%lld bytes past start of %s object of %llu bytes (access size %llu)",(long long)(a-o->base),kn[o->kind],(unsigned long long)o->size,(unsigned long long)n); return b; } }
  for(auto&f:s.freed) if(a>=f.first&&a<f.first+f.second) return "freed object";
  { auto jt=constMem.upper_bound(a); if(jt!=constMem.begin()){ --jt; Obj*o=jt->second.get(); if(a-o->base<o->size+(1<<22)){ snprintf(b,200,"offset %lld of a constant object of %llu bytes (access size %llu)",(long long)(a-o->base),(unsigned long long)o->size,(unsigned long long)n); return b; } } }
  { auto jt=s.mem.lower_bound(a); if(jt!=s.mem.end()&&jt->first-a<(1<<20)){ snprintf(b,200,"%lld bytes before object of %llu bytes",(long long)(jt->first-a),(unsigned long long)jt->second->size); return b; } }
  snprintf(b,200,"address 0x%llx (access size %llu)",(unsigned long long)a,(unsigned long long)n); return b; }

static uint32_t freshVar(State& s){ uint32_t id=s.nsym++; if(id>=MAXV) throw Unsupported{"too many symbolic bytes"}; if(s.model.v.size()<=id) s.model.v.resize(id+1,0); return id; }
static Node* byteN(State& s,Obj*& o,u64 off){ if(o->st[off]==0) return X->K(o->d[off],8); if(o->st[off]==1) return o->sy[off];
  // uninitialised byte: arbitrary value
  Obj* w=wr(s,o); if(!w){ return X->K(0,8);} o=w; uint32_t id=freshVar(s); uninitVars.push_back(id); o->needSy(); o->st[off]=1; o->sy[off]=X->var(id); return o->sy[off]; }

static Val loadC(State& s,u64 a,unsigned bytes,unsigned w){
  Obj* o=findObj(s,a); if(!o||a-o->base+bytes>o->size) violate(s,"invalid-read","read of "+descr(s,a,bytes));
  u64 off=a-o->base; bool allc=true; for(unsigned i=0;i<bytes;i++) if(o->st[off+i]){allc=false;break;}
  if(allc){ if(bytes<=8){ u64 v=0; memcpy(&v,&o->d[off],bytes); return C(v&mk64(w)); } u128 v=0; memcpy(&v,&o->d[off],bytes); return V(X->K(v,w)); }
  Node* r=nullptr; for(int i=bytes-1;i>=0;i--){ Node* b=byteN(s,o,off+i); r= r? X->concat(r,b) : b; }
  if(r->w!=w) r=X->extract(r,0,w); return V(r); }
static void storeC(State& s,u64 a,const Val& v,unsigned bytes,unsigned w){
  Obj* o=findObj(s,a); if(!o||a-o->base+bytes>o->size) violate(s,"invalid-write","write to "+descr(s,a,bytes));
  Obj* q=wr(s,o); if(!q||q->ro) violate(s,"invalid-write","write to constant memory"); u64 off=a-q->base;
  if(!v.n&&bytes<=8){ memcpy(&q->d[off],&v.c,bytes); memset(&q->st[off],0,bytes); return; }
  Node* n=N(v,w); if(n->w<bytes*8) n=X->zext(n,bytes*8);
  for(unsigned i=0;i<bytes;i++){ Node* b=X->extract(n,i*8,8); if(b->op==CONST){ q->d[off+i]=(uint8_t)b->k; q->st[off+i]=0; } else { q->needSy(); q->sy[off+i]=b; q->st[off+i]=1; } } }

// resolve a symbolic address: returns object such that access is in bounds on this path (forks others). off expr returned
static Obj* resolve(State& s,Node* a,unsigned bytes,Node*& off,bool isWrite){
  X->newEval(s.model); u64 ca=(u64)X->ev(a); Obj* o=findObj(s,ca);
  if(!o||ca-o->base+bytes>o->size) { Model m=s.model; report(s,isWrite?"invalid-write":"invalid-read","access to "+descr(s,ca,bytes)+" (symbolic address)",m); 
     endPath(2); }
  Node* d=X->bin(SUB,a,X->K(o->base,64)); Node* inb=X->bin(ULE,d,X->K(o->size-bytes,64));
  if(!branch(s,inb)) abort();
  off=d; return findObj(s,ca); }

static Node* selTree(const std::vector<Node*>& el,Node* idx,u64 lo,u64 n,int bit){ // balanced tree on idx bits
  if(bit<0||n==1) return el[lo];
  u64 half=1ull<<bit; Node* L=selTree(el,idx,lo,std::min(n,half),bit-1); if(n<=half) return L;
  Node* R=selTree(el,idx,lo+half,n-half,bit-1); if(L==R) return L;
  return X->ite(X->extract(idx,bit,1),R,L); }

static Val loadS(State& s,Node* a,unsigned bytes,unsigned w){
  Node* off; Obj* o=resolve(s,a,bytes,off,false);
  if(o->size>(1<<16)) { u64 k=conc(s,V(a),64); return loadC(s,k,bytes,w); }
  if(bytes>1&&bytes<=4&&o->size>=128){ // digit tables read through merged multi-byte loads: split into bytes so that each gets its closed form
    bool dig=true; for(u64 i=0;i<128&&dig;i++) dig=!o->st[i]&&o->d[i]>='0'&&o->d[i]<='9';
    if(dig){ Node* r=nullptr; for(int j=bytes-1;j>=0;j--){ Node* b=N(loadS(s,X->bin(ADD,a,X->K(j,64)),1,8),8); r=r?X->concat(r,b):b; } if(r->w!=w) r=X->extract(r,0,w); return V(r); } }
  // affine index: off = m*x + k0
  Node* idx; u64 k0=0,stride; { Node* y=off; if(y->op==ADD&&Ctx::isK(y->b)&&y->b->k<o->size){ k0=(u64)y->b->k; y=y->a; } 
    if(y->op==MUL&&Ctx::isK(y->b)&&y->b->k<4096&&X->umax(y->a)<=(u128)1<<40){ stride=(u64)y->b->k; idx=y->a; }
    else if(y->op==ZEXT&&y->a->op==MUL&&Ctx::isK(y->a->b)&&y->a->b->k<4096&&X->umax(y->a->a)<((u128)1<<y->a->w)/(y->a->b->k)){ stride=(u64)y->a->b->k; idx=X->zext(y->a->a,64); }
    else { if(k0&&X->tz(y)==0){ y=off; k0=0; } unsigned t=std::min(X->tz(y),6u); stride=1ull<<t; idx=X->bin(LSHR,y,X->K(t,64)); } }
  u64 lim=(o->size-bytes-k0)/stride; u64 mx=(u64)std::min<u128>(X->umax(idx),lim); u64 cnt=mx+1;
  if(k0&&X->umax(idx)>lim&&X->umax(idx)*stride+k0>mask128(64)&&!known(s,X->bin(ULE,idx,X->K(lim,64)))){ // offset+constant may have wrapped: fall back to the plain offset
    k0=0; unsigned t=std::min(X->tz(off),6u); stride=1ull<<t; idx=X->bin(LSHR,off,X->K(t,64)); lim=(o->size-bytes)/stride; mx=(u64)std::min<u128>(X->umax(idx),lim); cnt=mx+1; }
  std::vector<Node*> el; el.reserve(cnt); bool allK=true;
  for(u64 i=0;i<cnt;i++){ u64 q=k0+i*stride; Node* r=nullptr; bool allc=true; for(unsigned j=0;j<bytes;j++) if(o->st[q+j]) allc=false;
    if(allc&&bytes<=8){ u64 v=0; memcpy(&v,&o->d[q],bytes); r=X->K(v&mk64(w),w); }
    else { for(int j=bytes-1;j>=0;j--){ Node* b; if(o->st[q+j]==2){ b=X->K(0xBE,8);} else b=byteN(s,o,q+j); r=r?X->concat(r,b):b; } if(r->w!=w) r=X->extract(r,0,w); }
    if(r->op!=CONST) allK=false; el.push_back(r); }
  if(allK&&w==8&&cnt>=64){ // closed form  '0' + (x / a) % 10, checked entry by entry; exceptions patched in
    for(u64 a:{1ull,10ull,100ull}){ int bad=0; for(u64 i=0;i<cnt;i++) if((u64)el[i]->k!=48+(i/a)%10) bad++; if(bad<=24){ Node* d=X->bin(UREM,X->bin(UDIV,idx,X->K(a,64)),X->K(10,64)); Node* r=X->bin(ADD,X->extract(d,0,8),X->K(48,8)); for(u64 i=0;i<cnt;i++) if((u64)el[i]->k!=48+(i/a)%10) r=X->ite(X->eq(idx,X->K(i,64)),el[i],r); return V(r); } } }
  int bit=0; while((1ull<<bit)<cnt) bit++;
  return V(selTree(el,idx,0,cnt,bit-1)); }
static void storeS(State& s,Node* a,const Val& v,unsigned bytes,unsigned w){
  Node* off; Obj* o=resolve(s,a,bytes,off,true);
  if(o->size>2048){ u64 k=conc(s,V(a),64); storeC(s,k,v,bytes,w); return; }
  Obj* q=wr(s,o); if(!q||q->ro) violate(s,"invalid-write","write to constant memory");
  unsigned t=std::min(X->tz(off),6u); u64 stride=1ull<<t; u64 mx=(u64)std::min<u128>(X->umax(off),q->size-bytes); Node* nv=N(v,w); if(nv->w<bytes*8) nv=X->zext(nv,bytes*8);
  q->needSy();
  for(u64 p=0;p<=mx;p+=stride){ Node* c=X->eq(off,X->K(p,64)); if(c->op==CONST&&!c->k) continue;
    for(unsigned j=0;j<bytes;j++){ Obj* qq=q; Node* old=byteN(s,qq,p+j); Node* nb=X->ite(c,X->extract(nv,j*8,8),old); if(nb->op==CONST){ q->d[p+j]=(uint8_t)nb->k; q->st[p+j]=0; } else { q->sy[p+j]=nb; q->st[p+j]=1; } } } }

// ------------------------------------------------------------------ type helpers
static void flat(Type* t,std::vector<Type*>& out){ if(t->isVoidTy()) return; if(auto* st=dyn_cast<StructType>(t)){ for(auto e:st->elements()) flat(e,out); return; } if(auto* at=dyn_cast<ArrayType>(t)){ for(u64 i=0;i<at->getNumElements();i++) flat(at->getElementType(),out); return; }
  if(auto* vt=dyn_cast<FixedVectorType>(t)){ for(u64 i=0;i<vt->getNumElements();i++) flat(vt->getElementType(),out); return; } out.push_back(t); }
static unsigned wOf(Type* t){ if(t->isPointerTy()) return 64; if(t->isX86_FP80Ty()) return 80; if(t->isLabelTy()||t->isMetadataTy()||t->isTokenTy()) return 0; return (unsigned)DL->getTypeSizeInBits(t); }
static unsigned nflat(Type* t){ std::vector<Type*> v; flat(t,v); return v.size(); }

static u64 globalAddr(const GlobalValue* g);
static Val constScalar(const Constant* c);
static void flatConst(const Constant* c,std::vector<Val>& out){
  Type* t=c->getType();
  if(t->isStructTy()||t->isArrayTy()||t->isVectorTy()){ unsigned n= t->isStructTy()?t->getStructNumElements(): t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements();
    for(unsigned i=0;i<n;i++){ Constant* e=c->getAggregateElement(i); flatConst(e,out);} return; }
  out.push_back(constScalar(c)); }
static Val constScalar(const Constant* c){
  if(auto* ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()<=64) return C(ci->getZExtValue()); u128 k=ci->getValue().extractBitsAsZExtValue(64,0)|((u128)ci->getValue().lshr(64).getLimitedValue()<<64); return V(X->K(k,ci->getBitWidth())); }
  if(auto* cf=dyn_cast<ConstantFP>(c)){ APInt a=cf->getValueAPF().bitcastToAPInt(); if(a.getBitWidth()<=64) return C(a.getZExtValue()); u128 k=a.extractBitsAsZExtValue(64,0)|((u128)a.lshr(64).getLimitedValue()<<64); return V(X->K(k,a.getBitWidth())); }
  if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)) { unsigned w=wOf(c->getType()); if(w>64) return V(X->K(0,w)); return C(0); }
  if(auto* g=dyn_cast<GlobalValue>(c)) return C(globalAddr(g));
  if(auto* ce=dyn_cast<ConstantExpr>(c)){
    unsigned w=wOf(ce->getType());
    if(auto* gep=dyn_cast<GEPOperator>(ce)){ APInt off(64,0); if(!gep->accumulateConstantOffset(*DL,off)) throw Unsupported{"const gep"}; return C(constScalar(cast<Constant>(gep->getPointerOperand())).c+off.getSExtValue()); }
    switch(ce->getOpcode()){
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: return C(constScalar(ce->getOperand(0)).c&mk64(w));
      case Instruction::Sub: return C((constScalar(ce->getOperand(0)).c-constScalar(ce->getOperand(1)).c)&mk64(w));
      case Instruction::Add: return C((constScalar(ce->getOperand(0)).c+constScalar(ce->getOperand(1)).c)&mk64(w));
      case Instruction::And: return C((constScalar(ce->getOperand(0)).c&constScalar(ce->getOperand(1)).c)&mk64(w));
      case Instruction::ICmp: { u64 a=constScalar(ce->getOperand(0)).c,b=constScalar(ce->getOperand(1)).c; bool r=false; switch(ce->getPredicate()){ case CmpInst::ICMP_EQ:r=a==b;break; case CmpInst::ICMP_NE:r=a!=b;break; case CmpInst::ICMP_ULT:r=a<b;break; case CmpInst::ICMP_UGT:r=a>b;break; default: throw Unsupported{"const icmp"}; } return C(r); }
      default: break; }
    std::string st; raw_string_ostream os(st); ce->print(os); throw Unsupported{"constant expr "+os.str()}; }
  if(isa<BlockAddress>(c)) throw Unsupported{"blockaddress"};
  throw Unsupported{"constant"}; }
static Val fconst(const Constant* c){ return constScalar(c); }

// ------------------------------------------------------------------ globals
static u64 nextG=0x10000000ull, nextF=0x1000;
static std::vector<const GlobalVariable*> gvars;
static u64 globalAddr(const GlobalValue* g){
  if(auto* al=dyn_cast<GlobalAlias>(g)) return constScalar(al->getAliasee()).c;
  auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto* f=dyn_cast<Function>(g)){ u64 a=nextF; nextF+=16; gaddr[g]=a; faddr[a]=const_cast<Function*>(f); return a; }
  auto* gv=cast<GlobalVariable>(g); u64 sz=gv->getValueType()->isSized()?(u64)DL->getTypeAllocSize(gv->getValueType()):8; u64 a=nextG; nextG+=((sz+63)/64+1)*64+(1ull<<20); gaddr[g]=a; gvars.push_back(gv); return a; }
static void writeConst(Obj& o,u64 off,const Constant* c){
  Type* t=c->getType(); if(isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)) return;
  if(auto* cds=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cds->getRawDataValues(); memcpy(&o.d[off],r.data(),r.size()); return; }
  if(auto* st=dyn_cast<StructType>(t)){ auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) writeConst(o,off+sl->getElementOffset(i),cast<Constant>(c->getAggregateElement(i))); return; }
  if(auto* at=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(at->getElementType()); for(u64 i=0;i<at->getNumElements();i++) writeConst(o,off+i*es,cast<Constant>(c->getAggregateElement(i))); return; }
  if(auto* vt=dyn_cast<FixedVectorType>(t)){ u64 es=DL->getTypeAllocSize(vt->getElementType()); for(u64 i=0;i<vt->getNumElements();i++) writeConst(o,off+i*es,cast<Constant>(c->getAggregateElement(i))); return; }
  Val v=fconst(c); unsigned w=wOf(t); unsigned b=(w+7)/8; if(v.n){ u128 k=v.n->k; memcpy(&o.d[off],&k,b);} else memcpy(&o.d[off],&v.c,b); }

// ------------------------------------------------------------------ function preparation
enum Ext { E_NONE, E_NEW, E_NEWA, E_MALLOC, E_CALLOC, E_REALLOC, E_DEL, E_DELA, E_FREE, E_MEMCPY, E_MEMMOVE, E_MEMSET, E_MEMCMP, E_STRLEN, E_MEMCHR,
  E_SYMBYTES, E_ASSUME, E_ASSERT, E_CHOOSE, E_OBSERVE, E_REACH, E_CONC, E_NOP, E_THROWSTD, E_CXATHROW, E_CXAALLOC, E_CXABEGIN, E_CXAEND, E_CXARETHROW, E_CXAFREE, E_ABORT, E_MATH1, E_MATH2, E_PUREV, E_TERM, E_STRCMP, E_CLOSE, E_RAND, E_TIME, E_ISSYM, E_LIVE, E_KNOWN };
static std::map<std::string,int> extMap;
static void initExt(){
  auto a=[&](const char* n,int e){ extMap[n]=e; };
  a("_Znwm",E_NEW); a("_Znam",E_NEWA); a("_ZnwmRKSt9nothrow_t",E_NEW); a("_ZnamRKSt9nothrow_t",E_NEWA); a("malloc",E_MALLOC); a("calloc",E_CALLOC);
  a("_ZdlPv",E_DEL); a("_ZdlPvm",E_DEL); a("_ZdaPv",E_DELA); a("_ZdaPvm",E_DELA); a("free",E_FREE);
  a("memcpy",E_MEMCPY); a("memmove",E_MEMMOVE); a("memset",E_MEMSET); a("memcmp",E_MEMCMP); a("bcmp",E_MEMCMP); a("strlen",E_STRLEN); a("memchr",E_MEMCHR);
  a("sym_bytes",E_SYMBYTES); a("sym_assume",E_ASSUME); a("sym_assert",E_ASSERT); a("sym_choose",E_CHOOSE); a("sym_observe",E_OBSERVE); a("sym_reach",E_REACH); a("sym_concretize",E_CONC); a("sym_close",E_CLOSE); a("sym_is_engine",E_ISSYM); a("sym_live",E_LIVE);
  for(auto n:{"runtime_error","invalid_argument","logic_error","out_of_range","domain_error","length_error"}) for(auto k:{"C1EPKc","C2EPKc","D1Ev","D2Ev","C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE","C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"}) a(("_ZNSt"+std::to_string(strlen(n))+n+k).c_str(),E_NOP); a("_ZNSt8ios_base4InitC1Ev",E_NOP); a("_ZNSt8ios_base4InitD1Ev",E_NOP); a("__cxa_atexit",E_NOP); a("atexit",E_NOP); a("_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_",E_NOP);
  for(auto n:{"_ZSt20__throw_length_errorPKc","_ZSt19__throw_logic_errorPKc","_ZSt24__throw_out_of_range_fmtPKcz","_ZSt20__throw_out_of_rangePKc","_ZSt17__throw_bad_allocv","_ZSt28__throw_bad_array_new_lengthv","_ZSt24__throw_invalid_argumentPKc","_ZSt16__throw_bad_castv","_ZSt19__throw_range_errorPKc","_ZSt25__throw_bad_function_callv"}) a(n,E_THROWSTD);
  a("__cxa_throw",E_CXATHROW); a("__cxa_allocate_exception",E_CXAALLOC); a("__cxa_free_exception",E_CXAFREE); a("__cxa_begin_catch",E_CXABEGIN); a("__cxa_end_catch",E_CXAEND); a("__cxa_rethrow",E_CXARETHROW);
  a("abort",E_ABORT); a("exit",E_ABORT); a("_ZSt9terminatev",E_TERM); a("__assert_fail",E_ABORT); a("_ZSt21__glibcxx_assert_failPKciS0_S0_",E_ABORT);
  for(auto n:{"log","exp","sqrt","floor","ceil","log10","fabs"}) a(n,E_MATH1); a("pow",E_MATH2); a("fmod",E_MATH2);
  a("__cxa_pure_virtual",E_PUREV); a("strcmp",E_STRCMP); a("rand",E_RAND); a("srand",E_NOP); a("time",E_TIME);
}
static Fn* getFn(Function* F);
static Slot mkSlot(Fn* fn,Value* v,unsigned i,std::vector<Val>* cv){ Slot s; if(cv){ s.isConst=true; s.v=(*cv)[i]; s.slot=-1; } else { s.isConst=false; s.slot=fn->slot[v]+i; s.v=C(0);} return s; }
static OpR mkOp(Fn* fn,Value* v){ OpR o; o.ty=v->getType(); unsigned n=nflat(o.ty); if(auto* c=dyn_cast<Constant>(v)){ std::vector<Val> cv; flatConst(c,cv); for(unsigned i=0;i<n;i++) o.s.push_back(mkSlot(fn,v,i,&cv)); } else if(isa<Instruction>(v)||isa<Argument>(v)) for(unsigned i=0;i<n;i++) o.s.push_back(mkSlot(fn,v,i,nullptr)); return o; }

static Fn* getFn(Function* F){
  auto it=fns.find(F); if(it!=fns.end()&&it->second->ready) return it->second;
  Fn* fn; if(it!=fns.end()) fn=it->second; else { fn=new Fn(); fn->F=F; fns[F]=fn; }
  fn->ready=true; int ns=0;
  for(auto& a:F->args()){ fn->slot[&a]=ns; ns+=nflat(a.getType()); }
  int bi=0; for(auto& b:*F){ fn->bbIdx[&b]=bi++; for(auto& i:b){ if(!i.getType()->isVoidTy()){ fn->slot[&i]=ns; ns+=nflat(i.getType()); } } }
  fn->nslots=ns;
  for(auto& b:*F){ BBI B; B.bb=&b; B.nphi=0;
    for(auto& i:b){ InstI I; I.I=&i; I.opc=i.getOpcode(); I.dest=i.getType()->isVoidTy()?-1:fn->slot[&i]; I.nd=nflat(i.getType());
      { std::vector<Type*> ft; flat(i.getType(),ft); for(auto t:ft) I.w.push_back(wOf(t)); }
      if(isa<PHINode>(i)) B.nphi++;
      if(auto* g=dyn_cast<GetElementPtrInst>(&i)){ 
        if(!i.getType()->isVectorTy()){ I.ops.push_back(mkOp(fn,g->getPointerOperand()));
        for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi){ Value* ix=gi.getOperand(); if(auto* st=gi.getStructTypeOrNull()){ I.gepOff+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); }
          else { int64_t sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto* ci=dyn_cast<ConstantInt>(ix)) I.gepOff+=sc*ci->getSExtValue(); else { OpR o=mkOp(fn,ix); I.gep.push_back({o.s[0],sc,wOf(ix->getType())}); } } } } }
      else if(auto* cb=dyn_cast<CallBase>(&i)){ for(auto& a:cb->args()) { if(a->getType()->isMetadataTy()) { I.ops.push_back(OpR()); continue; } I.ops.push_back(mkOp(fn,a.get())); }
        Value* cv=cb->getCalledOperand()->stripPointerCasts(); if(auto* al=dyn_cast<GlobalAlias>(cv)) cv=al->getAliasee()->stripPointerCasts();
        if(auto* cf=dyn_cast<Function>(cv)){ I.calleeF=cf; if(cf->isIntrinsic()) I.intr=cf->getIntrinsicID(); 
          { auto e=extMap.find(cf->getName().str()); if(e!=extMap.end()) I.ext=e->second; }
          if(I.ext<0&&!cf->isDeclaration()){ auto k=fns.find(cf); if(k==fns.end()){ Fn* f2=new Fn(); f2->F=cf; fns[cf]=f2; I.callee=f2; } else I.callee=k->second; } }
        else { I.ops.push_back(mkOp(fn,cb->getCalledOperand())); } }
      else if(isa<PHINode>(i)){ auto* p=cast<PHINode>(&i); for(unsigned k=0;k<p->getNumIncomingValues();k++) I.ops.push_back(mkOp(fn,p->getIncomingValue(k))); }
      else for(auto& o:i.operands()){ if(isa<BasicBlock>(o.get())) continue; I.ops.push_back(mkOp(fn,o.get())); }
      B.in.push_back(std::move(I)); }
    fn->bbs.push_back(std::move(B)); }
  return fn; }

// ------------------------------------------------------------------ execution
static inline Val get(Frame& f,const Slot& s){ return s.isConst? s.v : f.r[s.slot]; }

static Op fop(unsigned opc){ switch(opc){ case Instruction::FAdd: return FADD; case Instruction::FSub: return FSUB; case Instruction::FMul: return FMUL; case Instruction::FDiv: return FDIV; default: abort(); } }
static Op bop(unsigned opc){ switch(opc){ case Instruction::Add: return ADD; case Instruction::Sub: return SUB; case Instruction::Mul: return MUL; case Instruction::UDiv: return UDIV; case Instruction::SDiv: return SDIV; case Instruction::URem: return UREM; case Instruction::SRem: return SREM;
  case Instruction::And: return AND; case Instruction::Or: return OR; case Instruction::Xor: return XOR; case Instruction::Shl: return SHL; case Instruction::LShr: return LSHR; case Instruction::AShr: return ASHR; default: abort(); } }
static Val binop(State& s,Op op,Val a,Val b,unsigned w){
  if(op==UDIV||op==SDIV||op==UREM||op==SREM){ if(!b.n){ if((b.c&mk64(w))==0) violate(s,"division-by-zero","integer division by zero"); } else { Node* z=X->eq(b.n,X->K(0,w)); if(branch(s,z)) violate(s,"division-by-zero","integer division by zero"); } }
  if(!a.n&&!b.n&&w<=64){ return C((u64)Ctx::foldBin(op,a.c&mk64(w),b.c&mk64(w),w)); }
  return V(X->bin(op,N(a,w),N(b,w))); }
static Val icmp(CmpInst::Predicate p,Val a,Val b,unsigned w){
  if(!a.n&&!b.n&&w<=64){ u64 x=a.c,y=b.c; int64_t sx_=(int64_t)sx(x,w),sy=(int64_t)sx(y,w); bool r; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break;case CmpInst::ICMP_NE:r=x!=y;break;case CmpInst::ICMP_ULT:r=x<y;break;case CmpInst::ICMP_ULE:r=x<=y;break;case CmpInst::ICMP_UGT:r=x>y;break;case CmpInst::ICMP_UGE:r=x>=y;break;
    case CmpInst::ICMP_SLT:r=sx_<sy;break;case CmpInst::ICMP_SLE:r=sx_<=sy;break;case CmpInst::ICMP_SGT:r=sx_>sy;break;case CmpInst::ICMP_SGE:r=sx_>=sy;break; default: abort(); } return C(r); }
  Node*x=N(a,w),*y=N(b,w); Node* r; switch(p){ case CmpInst::ICMP_EQ:r=X->bin(EQ,x,y);break;case CmpInst::ICMP_NE:r=X->not_(X->bin(EQ,x,y));break;case CmpInst::ICMP_ULT:r=X->bin(ULT,x,y);break;case CmpInst::ICMP_ULE:r=X->bin(ULE,x,y);break;case CmpInst::ICMP_UGT:r=X->bin(ULT,y,x);break;case CmpInst::ICMP_UGE:r=X->bin(ULE,y,x);break;
    case CmpInst::ICMP_SLT:r=X->bin(SLT,x,y);break;case CmpInst::ICMP_SLE:r=X->bin(SLE,x,y);break;case CmpInst::ICMP_SGT:r=X->bin(SLT,y,x);break;case CmpInst::ICMP_SGE:r=X->bin(SLE,y,x);break; default: abort(); }
  return V(r); }
static Val fcmp(CmpInst::Predicate p,Val a,Val b,unsigned w){
  Node*x=N(a,w),*y=N(b,w); auto lt=[&](Node*u,Node*v){return X->fbin(FLT,u,v);}; auto le=[&](Node*u,Node*v){return X->fbin(FLE,u,v);}; auto eq=[&](){return X->fbin(FEQ,x,y);}; auto uno=[&](){return X->fbin(FUNO,x,y);};
  Node* r; switch(p){ case CmpInst::FCMP_FALSE: r=X->F();break; case CmpInst::FCMP_TRUE: r=X->T();break; case CmpInst::FCMP_OEQ:r=eq();break; case CmpInst::FCMP_OLT:r=lt(x,y);break; case CmpInst::FCMP_OLE:r=le(x,y);break; case CmpInst::FCMP_OGT:r=lt(y,x);break; case CmpInst::FCMP_OGE:r=le(y,x);break;
    case CmpInst::FCMP_ONE: r=X->and_(X->not_(eq()),X->not_(uno()));break; case CmpInst::FCMP_ORD:r=X->not_(uno());break; case CmpInst::FCMP_UNO:r=uno();break; case CmpInst::FCMP_UEQ:r=X->or_(eq(),uno());break; case CmpInst::FCMP_UNE:r=X->not_(eq());break;
    case CmpInst::FCMP_ULT:r=X->not_(le(y,x));break; case CmpInst::FCMP_ULE:r=X->not_(lt(y,x));break; case CmpInst::FCMP_UGT:r=X->not_(le(x,y));break; case CmpInst::FCMP_UGE:r=X->not_(lt(x,y));break; default: abort(); }
  return V(r); }

static void memcopy(State& s,u64 d,u64 sr,u64 n){
  if(!n) return; Obj* so=findObj(s,sr); if(!so||sr-so->base+n>so->size) violate(s,"invalid-read","block copy reads "+descr(s,sr+ (so?so->size-(sr-so->base):0),n));
  Obj* dob=findObj(s,d); if(!dob||d-dob->base+n>dob->size) violate(s,"invalid-write","block copy writes "+descr(s,d+(dob?dob->size-(d-dob->base):0),n));
  u64 soff=sr-so->base,doff=d-dob->base; std::vector<uint8_t> td(so->d.begin()+soff,so->d.begin()+soff+n),ts(so->st.begin()+soff,so->st.begin()+soff+n); std::vector<Node*> ty; if(!so->sy.empty()) ty.assign(so->sy.begin()+soff,so->sy.begin()+soff+n);
  Obj* q=wr(s,dob); if(!q||q->ro) violate(s,"invalid-write","write to constant memory");
  memcpy(&q->d[doff],td.data(),n); memcpy(&q->st[doff],ts.data(),n); if(!ty.empty()){ q->needSy(); memcpy(&q->sy[doff],ty.data(),n*sizeof(Node*)); } }
static void memsetI(State& s,u64 d,Val v,u64 n){ if(!n) return; Obj* o=findObj(s,d); if(!o||d-o->base+n>o->size) violate(s,"invalid-write","block fill writes "+descr(s,d+(o?o->size-(d-o->base):0),n)); Obj* q=wr(s,o); if(!q||q->ro) violate(s,"invalid-write","write to constant memory"); u64 off=d-q->base;
  if(!v.n){ memset(&q->d[off],(int)v.c&255,n); memset(&q->st[off],0,n);} else { q->needSy(); Node* b=X->extract(v.n,0,8); for(u64 i=0;i<n;i++){ q->sy[off+i]=b; q->st[off+i]=1; } } }

static u64 nul_sink=0;
static std::string readCStr(State& s,u64 a){ std::string r; for(int i=0;i<300;i++){ Obj* o=findObj(s,a+i); if(!o) break; u64 off=a+i-o->base; if(o->st[off]) { r+='?'; continue;} if(!o->d[off]) break; r+=(char)o->d[off]; } return r; }

static void popFrame(State& s){ Frame& f=s.st.back(); for(u64 a:f.allocas) s.mem.erase(a); s.st.pop_back(); }

static void gotoBB(State& s,int to){ Frame& f=s.st.back(); BBI& b=f.fn->bbs[to]; int from=f.bb;
  if(b.nphi){ std::vector<Val> tmp; BasicBlock* fb=f.fn->bbs[from].bb; int pi=-1;
    for(int i=0;i<b.nphi;i++){ InstI& I=b.in[i]; auto* p=cast<PHINode>(I.I); if(pi<0||p->getIncomingBlock(pi)!=fb) pi=p->getBasicBlockIndex(fb); I.hit=true; for(auto& sl:I.ops[pi].s) tmp.push_back(get(f,sl)); }
    int k=0; for(int i=0;i<b.nphi;i++){ InstI& I=b.in[i]; for(int j=0;j<I.nd;j++) f.r[I.dest+j]=tmp[k++]; } }
  f.prev=from; f.bb=to; f.ip=b.nphi; }

static void setRet(State& s,InstI& I,const std::vector<Val>& v){ Frame& f=s.st.back(); for(int i=0;i<I.nd;i++) f.r[I.dest+i]= i<(int)v.size()?v[i]:C(0);
  if(auto* inv=dyn_cast<InvokeInst>(I.I)) gotoBB(s,f.fn->bbIdx[inv->getNormalDest()]); else f.ip++; }

static void uncaught(State& s){ size_t sep=s.excLoc.find('\x01'); Violation v; v.kind="uncaught-exception"; v.msg="uncaught exception: "+(sep==std::string::npos?std::string():s.excLoc.substr(sep+1)); v.loc=s.excLoc.substr(0,sep); v.input=concInput(s,s.model); v.usesUninit=false; viols.push_back(v); s.st.resize(1); endPath(2); }

static void doThrow(State& s,u64 obj,u64 ty,const std::string& what){
  s.excObj=obj; s.excType=ty; if(what!="propagated"&&what!="rethrown") s.excLoc=locOf(s)+"\x01"+what;
  // unwind: the current frame's current instruction is a call or invoke
  while(!s.st.empty()){ Frame& f=s.st.back(); InstI& I=f.fn->bbs[f.bb].in[f.ip];
    if(auto* inv=dyn_cast<InvokeInst>(I.I)){ BasicBlock* ub=inv->getUnwindDest(); LandingPadInst* lp=ub->getLandingPadInst(); bool take=lp->isCleanup(); 
      for(unsigned i=0;i<lp->getNumClauses();i++) if(lp->isCatch(i)) take=true;
      if(take){ gotoBB(s,f.fn->bbIdx[ub]); return; } }
    if(s.st.size()==1) break; popFrame(s); }
  uncaught(s); }

static bool typeMatches(u64 clause,u64 thrown,const std::vector<std::string>& info){ if(clause==0) return true; if(clause==thrown) return true;
  // std::exception base class catches everything thrown by the library
  for(auto& g:gaddr) if(g.second==clause&&g.first->getName()=="_ZTISt9exception") return true; return false; }
static std::map<u64,int> typeIds; static int typeId(u64 a){ auto it=typeIds.find(a); if(it!=typeIds.end()) return it->second; int n=typeIds.size()+1; return typeIds[a]=n; }

static void pushCall(State& s,Fn* fn,const std::vector<Val>& args){ if(s.st.size()>400) violate(s,"stack-overflow","call depth exceeds 400"); s.st.emplace_back(); Frame& f=s.st.back(); f.fn=fn; f.r.resize(fn->nslots,C(0)); for(size_t i=0;i<args.size()&&i<(size_t)fn->nslots;i++) f.r[i]=args[i]; f.bb=0; f.ip=0; }

#include "close.h"

static std::set<std::string> missingExt;

static void execCall(State& s,InstI& I){
  Frame& f=s.st.back(); auto* cb=cast<CallBase>(I.I);
  auto A=[&](unsigned i)->Val{ return get(f,I.ops[i].s[0]); };
  auto done=[&](Val v){ setRet(s,I,{v}); };
  auto W=[&](unsigned i){ return wOf(I.ops[i].ty); };
  if(I.intr){
    switch(I.intr){
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::vastart: case Intrinsic::vaend:
        setRet(s,I,{C(0)}); return;
      case Intrinsic::stacksave: done(C(0)); return;
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 n=conc(s,A(2),64),d=conc(s,A(0),64); if(A(1).n&&n<=64){ std::vector<Val> t; for(u64 i=0;i<n;i++) t.push_back(loadS(s,X->bin(ADD,A(1).n,X->K(i,64)),1,8)); for(u64 i=0;i<n;i++) storeC(s,d+i,t[i],1,8); setRet(s,I,{}); return; } u64 sr=conc(s,A(1),64); if(I.intr!=Intrinsic::memmove&&n&&d!=sr&&d<sr+n&&sr<d+n) violate(s,"memcpy-overlap","memcpy between overlapping ranges"); memcopy(s,d,sr,n); setRet(s,I,{}); return; }
      case Intrinsic::memset: { u64 n=conc(s,A(2),64),d=conc(s,A(0),64); memsetI(s,d,A(1),n); setRet(s,I,{}); return; }
      case Intrinsic::expect: done(A(0)); return;
      case Intrinsic::is_constant: done(C(0)); return;
      case Intrinsic::objectsize: { done(C(cast<ConstantInt>(cb->getArgOperand(1))->isZero()?~0ull:0)); return; }
      case Intrinsic::eh_typeid_for: { done(C(typeId(A(0).c))); return; }
      case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violate(s,"trap","trap reached"); 
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { std::vector<Val> r; for(int k=0;k<I.nd;k++){ unsigned w=I.w[k]; Node*a=N(get(f,I.ops[0].s[k]),w),*b=N(get(f,I.ops[1].s[k]),w); Node* c= I.intr==Intrinsic::umin||I.intr==Intrinsic::umax? X->bin(ULT,a,b):X->bin(SLT,a,b); bool mn=I.intr==Intrinsic::umin||I.intr==Intrinsic::smin; r.push_back(V(X->ite(c,mn?a:b,mn?b:a))); } setRet(s,I,r); return; }
      case Intrinsic::abs: { unsigned w=I.w[0]; Node*a=N(A(0),w); done(V(X->ite(X->bin(SLT,a,X->K(0,w)),X->bin(SUB,X->K(0,w),a),a))); return; }
      case Intrinsic::bswap: { unsigned w=I.w[0]; Node*a=N(A(0),w); Node* r=nullptr; for(unsigned i=0;i<w;i+=8){ Node*b=X->extract(a,i,8); r=r?X->concat(r,b):b; } done(V(r)); return; }
      case Intrinsic::bitreverse: { unsigned w=I.w[0]; Node*a=N(A(0),w); Node* r=nullptr; for(unsigned i=0;i<w;i++){ Node*b=X->extract(a,i,1); r=r?X->concat(r,b):b; } done(V(r)); return; }
      case Intrinsic::ctpop: { unsigned w=I.w[0]; Node*a=N(A(0),w); Node* r=X->K(0,w); for(unsigned i=0;i<w;i++) r=X->bin(ADD,r,X->zext(X->extract(a,i,1),w)); done(V(r)); return; }
      case Intrinsic::ctlz: { unsigned w=I.w[0]; Node*a=N(A(0),w); Node* r=X->K(w,w); for(unsigned i=0;i<w;i++) r=X->ite(X->extract(a,i,1),X->K(w-1-i,w),r); done(V(r)); return; }
      case Intrinsic::cttz: { unsigned w=I.w[0]; Node*a=N(A(0),w); Node* r=X->K(w,w); for(int i=w-1;i>=0;i--) r=X->ite(X->extract(a,i,1),X->K(i,w),r); done(V(r)); return; }
      case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w=I.w[0]; Node*a=N(A(0),w),*b=N(A(1),w),*c=N(A(2),w); Node* sh=X->bin(UREM,c,X->K(w,w)); Node* inv=X->bin(SUB,X->K(w,w),sh); Node* z=X->eq(sh,X->K(0,w));
        if(I.intr==Intrinsic::fshl) done(V(X->ite(z,a,X->bin(OR,X->bin(SHL,a,sh),X->bin(LSHR,b,inv))))); else done(V(X->ite(z,b,X->bin(OR,X->bin(LSHR,b,sh),X->bin(SHL,a,inv))))); return; }
      case Intrinsic::usub_sat: { unsigned w=I.w[0]; Node*a=N(A(0),w),*b=N(A(1),w); done(V(X->ite(X->bin(ULT,a,b),X->K(0,w),X->bin(SUB,a,b)))); return; }
      case Intrinsic::uadd_sat: { unsigned w=I.w[0]; Node*a=N(A(0),w),*b=N(A(1),w); Node* r=X->bin(ADD,a,b); done(V(X->ite(X->bin(ULT,r,a),X->K(mask128(w),w),r))); return; }
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned w=I.w[0]; Node*a=N(A(0),w),*b=N(A(1),w); bool sg=I.intr==Intrinsic::sadd_with_overflow||I.intr==Intrinsic::ssub_with_overflow||I.intr==Intrinsic::smul_with_overflow; Op op=(I.intr==Intrinsic::uadd_with_overflow||I.intr==Intrinsic::sadd_with_overflow)?ADD:(I.intr==Intrinsic::usub_with_overflow||I.intr==Intrinsic::ssub_with_overflow)?SUB:MUL;
        unsigned w2= op==MUL? 2*w : w+2; if(w2>128) throw Unsupported{"wide overflow op"}; Node*x=sg?X->sext(a,w2):X->zext(a,w2),*y=sg?X->sext(b,w2):X->zext(b,w2); Node* r=X->bin(op,x,y); Node* t=X->extract(r,0,w); Node* back=sg?X->sext(t,w2):X->zext(t,w2); setRet(s,I,{V(t),V(X->not_(X->eq(back,r)))}); return; }
      case Intrinsic::fabs: done(V(X->fun(FABS,N(A(0),I.w[0])))); return;
      case Intrinsic::fmuladd: { unsigned w=I.w[0]; done(V(X->fbin(FADD,X->fbin(FMUL,N(A(0),w),N(A(1),w)),N(A(2),w)))); return; }
      case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::pow: case Intrinsic::trunc: {
        for(unsigned i=0;i<I.ops.size();i++) if(A(i).n) throw Unsupported{"symbolic libm call"}; double a=Ctx::asD(A(0).c),r=0; switch(I.intr){case Intrinsic::floor:r=floor(a);break;case Intrinsic::ceil:r=ceil(a);break;case Intrinsic::sqrt:r=sqrt(a);break;case Intrinsic::exp:r=exp(a);break;case Intrinsic::log:r=log(a);break;case Intrinsic::trunc:r=trunc(a);break;case Intrinsic::pow:r=pow(a,Ctx::asD(A(1).c));break;} done(C((u64)Ctx::frD(r))); return; }
      default: throw Unsupported{"intrinsic "+I.calleeF->getName().str()}; } }
  if(!I.calleeF&&isa<InlineAsm>(cb->getCalledOperand())) throw Unsupported{"inline asm"};
  Function* cf=I.calleeF; Fn* cal=I.callee; int ext=I.ext; unsigned na=I.ops.size();
  if(!cf){ na--; Val pv=get(f,I.ops[na].s[0]); u64 a=conc(s,pv,64); auto it=faddr.find(a); if(it==faddr.end()) violate(s,"invalid-call","indirect call to a non-function address"); cf=it->second; auto e=extMap.find(cf->getName().str()); if(e!=extMap.end()) ext=e->second; else if(!cf->isDeclaration()) { auto k=fns.find(cf); if(k!=fns.end()) cal=k->second; else cal=getFn(cf);} }
  if(ext>=0){
    switch(ext){
      case E_NEW: case E_NEWA: case E_MALLOC: { u64 n=conc(s,A(0),64); if(n>(1u<<26)){ doThrow(s,0,0,"std::bad_alloc (allocation of "+std::to_string(n)+" bytes)"); return; } done(C(allocObj(s,n,ext==E_NEW?2:ext==E_NEWA?3:4))); return; }
      case E_CALLOC: { u64 n=conc(s,A(0),64)*conc(s,A(1),64); done(C(allocObj(s,n,4,false,true))); return; }
      case E_DEL: case E_DELA: case E_FREE: { u64 a=conc(s,A(0),64); if(a){ auto it=s.mem.find(a); if(it==s.mem.end()||it->second->kind<2) violate(s,"invalid-free","release of an address that is not a live heap block: "+descr(s,a,0)); uint8_t want=ext==E_DEL?2:ext==E_DELA?3:4; if(it->second->kind!=want) violate(s,"invalid-free","allocation/deallocation mismatch"); s.freed[a]=it->second->size; s.mem.erase(it);} setRet(s,I,{}); return; }
      case E_MEMCPY: case E_MEMMOVE: { u64 n=conc(s,A(2),64),d=conc(s,A(0),64),sr=conc(s,A(1),64); if(I.ext==E_MEMCPY&&n&&d!=sr&&d<sr+n&&sr<d+n) violate(s,"memcpy-overlap","memcpy between overlapping ranges"); memcopy(s,d,sr,n); done(C(d)); return; }
      case E_MEMSET: { u64 n=conc(s,A(2),64),d=conc(s,A(0),64); Val b=A(1); if(b.n) b=V(X->extract(b.n,0,8)); memsetI(s,d,b,n); done(C(d)); return; }
      case E_MEMCMP: { u64 n=conc(s,A(2),64),p=conc(s,A(0),64),q=conc(s,A(1),64); Node* r=X->K(0,32); std::vector<std::pair<Node*,Node*>> v; for(u64 i=0;i<n;i++) v.push_back({N(loadC(s,p+i,1,8),8),N(loadC(s,q+i,1,8),8)});
          for(int i=(int)n-1;i>=0;i--) r=X->ite(X->eq(v[i].first,v[i].second),r,X->ite(X->bin(ULT,v[i].first,v[i].second),X->K(0xffffffff,32),X->K(1,32))); done(V(r)); return; }
      case E_STRLEN: { u64 p=conc(s,A(0),64); u64 i=0; for(;;i++){ Val b=loadC(s,p+i,1,8); if(!b.n){ if(!b.c) break; } else if(branch(s,X->eq(b.n,X->K(0,8)))) break; } done(C(i)); return; }
      case E_STRCMP: { u64 p=conc(s,A(0),64),q=conc(s,A(1),64); for(u64 i=0;;i++){ Node*x=N(loadC(s,p+i,1,8),8),*y=N(loadC(s,q+i,1,8),8); if(!branch(s,X->eq(x,y))){ done(C(branch(s,X->bin(ULT,x,y))?0xffffffff:1)); return; } if(branch(s,X->eq(x,X->K(0,8)))){ done(C(0)); return; } } }
      case E_MEMCHR: { u64 p=conc(s,A(0),64),n=conc(s,A(2),64); Node* ch=X->extract(N(A(1),32),0,8); for(u64 i=0;i<n;i++){ if(branch(s,X->eq(N(loadC(s,p+i,1,8),8),ch))){ done(C(p+i)); return; } } done(C(0)); return; }
      case E_SYMBYTES: { u64 p=conc(s,A(0),64),n=conc(s,A(1),64); Obj* o=findObj(s,p); if(n){ if(!o||p-o->base+n>o->size) violate(s,"invalid-write","sym_bytes target"); Obj* q=wr(s,o); q->needSy(); for(u64 i=0;i<n;i++){ uint32_t id=freshVar(s); s.inputs.push_back(id); q->sy[p-q->base+i]=X->var(id); q->st[p-q->base+i]=1; } } setRet(s,I,{}); return; }
      case E_ISSYM: done(C(1)); return;
      case E_LIVE: { u64 n=0; for(auto& m:s.mem) if(m.second->kind==2||m.second->kind==3) ++n; done(C(n)); return; }
      case E_CHOOSE: { u64 n=conc(s,A(0),32); // one input byte constrained to [0,n) ; fork on its value
          // may be re-executed after a fork: use frame-independent memo via constraint on the variable
          uint32_t id=freshVar(s); s.inputs.push_back(id); Node* v=X->var(id); 
          for(u64 k=n;k-->1;){ State* o=fork(s); o->model.v[id]=(uint8_t)k; addCons(*o,X->eq(v,X->K(k,8))); InstI& I2=I; { Frame& of=o->st.back(); for(int i=0;i<I2.nd;i++) of.r[I2.dest+i]=C(k); if(auto* inv=dyn_cast<InvokeInst>(I2.I)) gotoBB(*o,of.fn->bbIdx[inv->getNormalDest()]); else of.ip++; } work.push_back(o); }
          s.model.v[id]=0; addCons(s,X->eq(v,X->K(0,8))); done(C(0)); return; }
      case E_ASSUME: { Val v=A(0); if(!v.n){ if(!(v.c&mk64(W(0)))) { S_infeasAssume++; endPath(1);} setRet(s,I,{}); return; } Node* c=X->not_(X->eq(v.n,X->K(0,v.n->w))); if(c->op==CONST){ if(!c->k){S_infeasAssume++; endPath(1);} setRet(s,I,{}); return; } X->newEval(s.model); if(!X->ev(c)){ Model m; if(!solve(s,c,m)){ S_infeasAssume++; endPath(1);} s.model=m; } addCons(s,c); setRet(s,I,{}); return; }
      case E_ASSERT: { Val v=A(0); S_asserts++; s.asserts++; if(!v.n){ if(!(v.c&mk64(W(0)))) violate(s,"assertion",readCStr(s,A(1).c)); setRet(s,I,{}); return; } S_assertSym++; Node* c=X->not_(X->eq(v.n,X->K(0,v.n->w))); if(c->op==CONST){ if(!c->k) violate(s,"assertion",readCStr(s,A(1).c)); setRet(s,I,{}); return; }
          Model m; X->newEval(s.model); if(!X->ev(c)){ report(s,"assertion",readCStr(s,A(1).c),s.model); endPath(2);} if(solve(s,X->not_(c),m)){ report(s,"assertion",readCStr(s,A(1).c),m); endPath(2); } addCons(s,c); setRet(s,I,{}); return; }
      case E_CLOSE: { S_asserts++; S_assertSym++; closeCheck5(s,A(0),A(1),(int)(int64_t)sx(conc(s,A(2),32),32),Ctx::asD(A(3).c),readCStr(s,A(4).c)); setRet(s,I,{}); return; }
      case E_OBSERVE: { s.obs.push_back(A(0)); s.obsW.push_back(W(0)); setRet(s,I,{}); return; }
      case E_REACH: { reached[readCStr(s,A(0).c)]++; setRet(s,I,{}); return; }
      case E_CONC: { u64 k=conc(s,A(0),64); done(C(k)); return; }
      case E_NOP: setRet(s,I,{C(0)}); return;
      case E_RAND: case E_TIME: done(C(12345)); return;
      case E_THROWSTD: { std::string w=llvm::demangle(cf->getName().str()); if(I.ops.size()) w+=" \""+readCStr(s,A(0).c)+"\""; doThrow(s,0,1,w); return; }
      case E_CXAALLOC: { u64 n=conc(s,A(0),64); done(C(allocObj(s,n,4))); return; }
      case E_CXAFREE: setRet(s,I,{}); return;
      case E_CXATHROW: { u64 o=A(0).c,t=A(1).c; std::string tn="?"; for(auto& g:gaddr) if(g.second==t) tn=llvm::demangle(g.first->getName().str()); doThrow(s,o,t,tn); return; }
      case E_CXABEGIN: done(A(0)); return; case E_CXAEND: setRet(s,I,{}); return;
      case E_CXARETHROW: doThrow(s,s.excObj,s.excType,"rethrown"); return;
      case E_ABORT: violate(s,"abort","call of "+cf->getName().str()); case E_PUREV: violate(s,"abort","pure virtual call"); case E_TERM: violate(s,"terminate","std::terminate");
      case E_MATH1: case E_MATH2: { for(unsigned i=0;i<I.ops.size();i++) if(A(i).n) throw Unsupported{"symbolic libm call "+cf->getName().str()}; double a=Ctx::asD(A(0).c),r; std::string n=cf->getName().str(); if(n=="log")r=log(a); else if(n=="exp")r=exp(a); else if(n=="sqrt")r=sqrt(a); else if(n=="floor")r=floor(a); else if(n=="ceil")r=ceil(a); else if(n=="log10")r=log10(a); else if(n=="fabs")r=fabs(a); else if(n=="pow")r=pow(a,Ctx::asD(A(1).c)); else r=fmod(a,Ctx::asD(A(1).c)); done(C((u64)Ctx::frD(r))); return; }
    } }
  if(!cal) throw Unsupported{"external function "+cf->getName().str()+" at "+locOf(s)};
  if(!cal->ready) getFn(cal->F);
  std::vector<Val> args; for(unsigned i=0;i<na;i++){ 
    if(cb->isByValArgument(i)){ u64 sz=DL->getTypeAllocSize(cb->getParamByValType(i)); u64 a=conc(s,A(i),64); u64 na_=allocObj(s,sz,1); memcopy(s,na_,a,sz); args.push_back(C(na_)); s.freed.erase(na_); continue; }
    for(auto& sl:I.ops[i].s) args.push_back(get(f,sl)); }
  pushCall(s,cal,args); }

static void step(State& s){
  Frame& f=s.st.back(); InstI& I=f.fn->bbs[f.bb].in[f.ip]; I.hit=true; S_instr++; 
  if(++s.steps>O_maxSteps){ violate(s,"hang","path exceeds "+std::to_string(O_maxSteps)+" executed instructions"); }
  switch(I.opc){
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      for(int i=0;i<I.nd;i++){ Val r=binop(s,bop(I.opc),get(f,I.ops[0].s[i]),get(f,I.ops[1].s[i]),I.w[i]); f.r[I.dest+i]=r; } f.ip++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
      for(int i=0;i<I.nd;i++) f.r[I.dest+i]=V(X->fbin(fop(I.opc),N(get(f,I.ops[0].s[i]),I.w[i]),N(get(f,I.ops[1].s[i]),I.w[i]))); f.ip++; return;
    case Instruction::FNeg: for(int i=0;i<I.nd;i++) f.r[I.dest+i]=V(X->fun(FNEG,N(get(f,I.ops[0].s[i]),I.w[i]))); f.ip++; return;
    case Instruction::ICmp: { auto p=cast<CmpInst>(I.I)->getPredicate(); std::vector<Type*> ft; unsigned w=wOf(I.ops[0].ty->getScalarType()); for(int i=0;i<I.nd;i++) f.r[I.dest+i]=icmp(p,get(f,I.ops[0].s[i]),get(f,I.ops[1].s[i]),w); f.ip++; return; }
    case Instruction::FCmp: { auto p=cast<CmpInst>(I.I)->getPredicate(); unsigned w=wOf(I.ops[0].ty->getScalarType()); for(int i=0;i<I.nd;i++) f.r[I.dest+i]=fcmp(p,get(f,I.ops[0].s[i]),get(f,I.ops[1].s[i]),w); f.ip++; return; }
    case Instruction::Select: { bool vecc=I.ops[0].s.size()>1; bool ptr=I.I->getType()->isPointerTy();
      if(!vecc){ Val c=get(f,I.ops[0].s[0]); if(c.n&&(ptr||I.nd>1)){ bool b=branch(s,c.n); c=C(b); }
        for(int i=0;i<I.nd;i++){ Val a=get(f,I.ops[1].s[i]),b=get(f,I.ops[2].s[i]); f.r[I.dest+i]= !c.n? (c.c?a:b) : V(X->ite(c.n,N(a,I.w[i]),N(b,I.w[i]))); } }
      else for(int i=0;i<I.nd;i++){ Val c=get(f,I.ops[0].s[i]); Val a=get(f,I.ops[1].s[i]),b=get(f,I.ops[2].s[i]); f.r[I.dest+i]= !c.n? (c.c?a:b) : V(X->ite(c.n,N(a,I.w[i]),N(b,I.w[i]))); }
      f.ip++; return; }
    case Instruction::Trunc: for(int i=0;i<I.nd;i++){ Val a=get(f,I.ops[0].s[i]); f.r[I.dest+i]= a.n? V(X->extract(a.n,0,I.w[i])) : C(a.c&mk64(I.w[i])); } f.ip++; return;
    case Instruction::ZExt: for(int i=0;i<I.nd;i++){ Val a=get(f,I.ops[0].s[i]); f.r[I.dest+i]= (a.n||I.w[i]>64)? V(X->zext(N(a,wOf(I.ops[0].ty->getScalarType())),I.w[i])) : a; } f.ip++; return;
    case Instruction::SExt: { unsigned w0=wOf(I.ops[0].ty->getScalarType()); for(int i=0;i<I.nd;i++){ Val a=get(f,I.ops[0].s[i]); f.r[I.dest+i]= (a.n||I.w[i]>64)? V(X->sext(N(a,w0),I.w[i])) : C((u64)sx(a.c,w0)&mk64(I.w[i])); } f.ip++; return; }
    case Instruction::BitCast: { 
      if(I.nd==(int)I.ops[0].s.size()) { for(int i=0;i<I.nd;i++) f.r[I.dest+i]=get(f,I.ops[0].s[i]); }
      else { Node* r=nullptr; unsigned w0=wOf(I.ops[0].ty->getScalarType()); for(int i=(int)I.ops[0].s.size()-1;i>=0;i--){ Node*b=N(get(f,I.ops[0].s[i]),w0); r=r?X->concat(r,b):b; } unsigned off=0; for(int i=0;i<I.nd;i++){ f.r[I.dest+i]=V(X->extract(r,off,I.w[i])); off+=I.w[i]; } }
      f.ip++; return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a=get(f,I.ops[0].s[0]); unsigned w0=wOf(I.ops[0].ty),w=I.w[0]; if(a.n) a= w<w0? V(X->extract(a.n,0,w)): w>w0? V(X->zext(a.n,w)) : a; else a.c&=mk64(w); f.r[I.dest]=a; f.ip++; return; }
    case Instruction::Freeze: for(int i=0;i<I.nd;i++) f.r[I.dest+i]=get(f,I.ops[0].s[i]); f.ip++; return;
    case Instruction::SIToFP: case Instruction::UIToFP: { unsigned w0=wOf(I.ops[0].ty->getScalarType()); for(int i=0;i<I.nd;i++) f.r[I.dest+i]=V(X->i2fp(I.opc==Instruction::SIToFP,canonByte(s,N(get(f,I.ops[0].s[i]),w0)),I.w[i])); f.ip++; return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { unsigned w0=wOf(I.ops[0].ty->getScalarType()); for(int i=0;i<I.nd;i++) f.r[I.dest+i]=V(X->fp2i(I.opc==Instruction::FPToSI,N(get(f,I.ops[0].s[i]),w0),I.w[i])); f.ip++; return; }
    case Instruction::FPExt: case Instruction::FPTrunc: { unsigned w0=wOf(I.ops[0].ty->getScalarType()); for(int i=0;i<I.nd;i++) f.r[I.dest+i]=V(X->fpcast(N(get(f,I.ops[0].s[i]),w0),I.w[i])); f.ip++; return; }
    case Instruction::GetElementPtr: { if(I.nd!=1) throw Unsupported{"vector gep"}; Val p=get(f,I.ops[0].s[0]); Val acc= p.n? V(X->bin(ADD,p.n,X->K((u64)I.gepOff,64))) : C(p.c+I.gepOff);
      for(auto& g:I.gep){ Val i=get(f,g.idx); if(!i.n&&!acc.n) acc.c+= (u64)((int64_t)sx(i.c,g.w)*g.scale); else { Node* n=X->sext(N(i,g.w),64); n=X->bin(MUL,n,X->K((u64)g.scale,64)); acc=V(X->bin(ADD,N(acc,64),n)); } }
      if(acc.n&&!p.n){ auto it=constMem.upper_bound(p.c); bool ro=false; if(it!=constMem.begin()){ --it; ro=p.c<it->second->base+it->second->size; } if(!ro) acc=V(resolveConds(s,acc.n)); }
      f.r[I.dest]=acc; f.ip++; return; }
    case Instruction::Load: { Val p=get(f,I.ops[0].s[0]); Type* t=I.I->getType(); 
      if(I.nd==1){ unsigned w=I.w[0]; unsigned b=(w+7)/8; f.r[I.dest]= p.n? loadS(s,p.n,b,w):loadC(s,p.c,b,w); }
      else { u64 a=conc(s,p,64); std::vector<Type*> ft; flat(t,ft); u64 off=0; // vectors/arrays/struct: packed by natural layout
        if(auto* st=dyn_cast<StructType>(t)){ auto* sl=DL->getStructLayout(st); int k=0; for(unsigned i=0;i<st->getNumElements();i++){ if(nflat(st->getElementType(i))!=1) throw Unsupported{"nested aggregate load"}; unsigned w=I.w[k]; f.r[I.dest+k]=loadC(s,a+sl->getElementOffset(i),(w+7)/8,w); k++; } }
        else for(int i=0;i<I.nd;i++){ unsigned w=I.w[i]; if(w%8) throw Unsupported{"bit vector load"}; f.r[I.dest+i]=loadC(s,a+off,w/8,w); off+=w/8; } }
      f.ip++; return; }
    case Instruction::Store: { Val p=get(f,I.ops[1].s[0]); Type* t=I.ops[0].ty; unsigned n=I.ops[0].s.size();
      if(n==1){ unsigned w=wOf(t->isVectorTy()?t->getScalarType():t); unsigned b=(w+7)/8; Val v=get(f,I.ops[0].s[0]); if(p.n) storeS(s,p.n,v,b,w); else storeC(s,p.c,v,b,w); }
      else { u64 a=conc(s,p,64); std::vector<Type*> ft; flat(t,ft); u64 off=0; if(auto* st=dyn_cast<StructType>(t)){ auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++){ if(nflat(st->getElementType(i))!=1) throw Unsupported{"nested aggregate store"}; unsigned w=wOf(ft[i]); storeC(s,a+sl->getElementOffset(i),get(f,I.ops[0].s[i]),(w+7)/8,w); } }
        else for(unsigned i=0;i<n;i++){ unsigned w=wOf(ft[i]); if(w%8) throw Unsupported{"bit vector store"}; storeC(s,a+off,get(f,I.ops[0].s[i]),w/8,w); off+=w/8; } }
      f.ip++; return; }
    case Instruction::Alloca: { auto* ai=cast<AllocaInst>(I.I); u64 n=conc(s,get(f,I.ops[0].s[0]),64)*DL->getTypeAllocSize(ai->getAllocatedType()); u64 a=allocObj(s,n,1); Frame& f2=s.st.back(); f2.r[I.dest]=C(a); f2.allocas.push_back(a); f2.ip++; return; }
    case Instruction::Br: { auto* b=cast<BranchInst>(I.I); if(b->isUnconditional()){ gotoBB(s,f.fn->bbIdx[b->getSuccessor(0)]); return; } Val c=get(f,I.ops[0].s[0]); bool t= c.n? branch(s,c.n) : (c.c&1); Frame& f2=s.st.back(); gotoBB(s,f2.fn->bbIdx[b->getSuccessor(t?0:1)]); return; }
    case Instruction::Switch: { auto* sw=cast<SwitchInst>(I.I); Val c=get(f,I.ops[0].s[0]); unsigned w=wOf(I.ops[0].ty);
      if(!c.n){ BasicBlock* d=sw->getDefaultDest(); for(auto& k:sw->cases()) if(k.getCaseValue()->getZExtValue()==(c.c&mk64(w))){ d=k.getCaseSuccessor(); break; } gotoBB(s,f.fn->bbIdx[d]); return; }
      // group cases by destination: one fork per destination
      std::vector<std::pair<BasicBlock*,Node*>> g; Node* any=X->F(); for(auto& k:sw->cases()){ Node* e=X->eq(c.n,X->K(k.getCaseValue()->getZExtValue(),w)); any=X->or_(any,e); bool fnd=false; for(auto& p:g) if(p.first==k.getCaseSuccessor()){ p.second=X->or_(p.second,e); fnd=true; } if(!fnd) g.push_back({k.getCaseSuccessor(),e}); }
      for(auto& p:g) if(branch(s,p.second)){ Frame& f2=s.st.back(); gotoBB(s,f2.fn->bbIdx[p.first]); return; }
      Frame& f2=s.st.back(); gotoBB(s,f2.fn->bbIdx[sw->getDefaultDest()]); return; }
    case Instruction::Ret: { std::vector<Val> rv; if(!I.ops.empty()) for(auto& sl:I.ops[0].s) rv.push_back(get(f,sl)); popFrame(s); if(s.st.empty()) endPath(0); Frame& c=s.st.back(); InstI& CI=c.fn->bbs[c.bb].in[c.ip]; setRet(s,CI,rv); return; }
    case Instruction::Call: case Instruction::Invoke: execCall(s,I); return;
    case Instruction::ExtractValue: { auto* e=cast<ExtractValueInst>(I.I); Type* t=e->getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix:e->indices()){ if(auto* st=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) off+=nflat(st->getElementType(i)); t=st->getElementType(ix);} else { auto* at=cast<ArrayType>(t); off+=ix*nflat(at->getElementType()); t=at->getElementType(); } } for(int i=0;i<I.nd;i++) f.r[I.dest+i]=get(f,I.ops[0].s[off+i]); f.ip++; return; }
    case Instruction::InsertValue: { auto* e=cast<InsertValueInst>(I.I); Type* t=e->getType(); unsigned off=0; for(unsigned ix:e->indices()){ if(auto* st=dyn_cast<StructType>(t)){ for(unsigned i=0;i<ix;i++) off+=nflat(st->getElementType(i)); t=st->getElementType(ix);} else { auto* at=cast<ArrayType>(t); off+=ix*nflat(at->getElementType()); t=at->getElementType(); } }
      std::vector<Val> tmp; for(int i=0;i<I.nd;i++) tmp.push_back(get(f,I.ops[0].s[i])); for(unsigned i=0;i<I.ops[1].s.size();i++) tmp[off+i]=get(f,I.ops[1].s[i]); for(int i=0;i<I.nd;i++) f.r[I.dest+i]=tmp[i]; f.ip++; return; }
    case Instruction::ExtractElement: { u64 ix=conc(s,get(f,I.ops[1].s[0]),64); Frame& f2=s.st.back(); f2.r[I.dest]=get(f2,I.ops[0].s[ix]); f2.ip++; return; }
    case Instruction::InsertElement: { u64 ix=conc(s,get(f,I.ops[2].s[0]),64); Frame& f2=s.st.back(); std::vector<Val> t; for(int i=0;i<I.nd;i++) t.push_back(get(f2,I.ops[0].s[i])); t[ix]=get(f2,I.ops[1].s[0]); for(int i=0;i<I.nd;i++) f2.r[I.dest+i]=t[i]; f2.ip++; return; }
    case Instruction::ShuffleVector: { auto* sv=cast<ShuffleVectorInst>(I.I); int n0=I.ops[0].s.size(); std::vector<Val> t; for(int m:sv->getShuffleMask()) t.push_back(m<0?C(0): m<n0? get(f,I.ops[0].s[m]) : get(f,I.ops[1].s[m-n0])); for(int i=0;i<I.nd;i++) f.r[I.dest+i]=t[i]; f.ip++; return; }
    case Instruction::LandingPad: { auto* lp=cast<LandingPadInst>(I.I); int sel=0; for(unsigned i=0;i<lp->getNumClauses();i++) if(lp->isCatch(i)){ u64 ca=constScalar(lp->getClause(i)).c; if(typeMatches(ca,s.excType,s.excInfo)){ sel=typeId(ca); break; } } f.r[I.dest]=C(s.excObj); f.r[I.dest+1]=C(sel); f.ip++; return; }
    case Instruction::Resume: { if(s.st.size()==1) uncaught(s); popFrame(s); doThrow(s,s.excObj,s.excType,"propagated"); return; }
    case Instruction::Unreachable: violate(s,"unreachable","unreachable instruction executed (undefined behaviour)");
    case Instruction::Fence: f.ip++; return;
    case Instruction::AtomicRMW: { auto* a=cast<AtomicRMWInst>(I.I); u64 p=conc(s,get(f,I.ops[0].s[0]),64); unsigned w=I.w[0]; Val o=loadC(s,p,w/8,w); Val x=get(f,I.ops[1].s[0]); Val n; if(a->getOperation()==AtomicRMWInst::Add) n=binop(s,ADD,o,x,w); else if(a->getOperation()==AtomicRMWInst::Sub) n=binop(s,SUB,o,x,w); else if(a->getOperation()==AtomicRMWInst::Xchg) n=x; else throw Unsupported{"atomicrmw"}; storeC(s,p,n,w/8,w); f.r[I.dest]=o; f.ip++; return; }
    default: { std::string st; raw_string_ostream os(st); I.I->print(os); throw Unsupported{"instruction "+os.str()}; } } }

static std::string hex(const std::vector<uint8_t>& v){ std::string r; char b[4]; for(auto x:v){ snprintf(b,4,"%02x",x); r+=b; } return r; }
static std::string jesc(const std::string& s){ std::string r; char b[8]; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }

static u64 rngS=88172645463325252ull; static u64 rng(){ rngS^=rngS<<13; rngS^=rngS>>7; rngS^=rngS<<17; return rngS; }

static bool runState(State* s){ // returns false on incomplete
  try{ for(;;){ step(*s); if((S_instr&0xfff)==0&&now()-T0>O_maxTime){ incomplete="time budget exhausted"; delete s; return false; } } }
  catch(PathEnd& e){ 
    if(e.why==0){ S_paths++; 
      // reservoir sample of completed paths, for replay validation against the native build
      std::vector<u64> ob; bool take=(int)samples.size()<O_samples; u64 slot=0; if(!take){ slot=rng()%S_paths; take=slot<(u64)O_samples; } else slot=samples.size();
      if(take&&O_samples>0){ X->newEval(s->model); for(size_t i=0;i<s->obs.size();i++) ob.push_back(s->obs[i].n?(u64)X->ev(s->obs[i].n):s->obs[i].c); std::string h=hex(concInput(*s,s->model)); if(slot>=samples.size()){ samples.push_back(h); sampleObs.push_back(ob);} else { samples[slot]=h; sampleObs[slot]=ob; } }
    } 
    delete s; return true; }
  catch(Unsupported& u){ incomplete=u.what; if(O_debug) fprintf(stderr,"UNSUPPORTED %s\n  at %s\n",u.what.c_str(),locOf(*s).c_str()); delete s; return false; } }

int main(int argc,char** argv){
  std::string entry,out; std::vector<std::string> files; std::string seed="1"; int64_t arg=0; bool hasArg=false;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto val=[&](const char* p)->const char*{ size_t n=strlen(p); return a.compare(0,n,p)==0? a.c_str()+n : nullptr; };
    if(auto v=val("--entry=")) entry=v; else if(auto v=val("--out=")) out=v; else if(auto v=val("--arg=")){ arg=atoll(v); hasArg=true; } else if(auto v=val("--max-time=")) O_maxTime=atof(v); else if(auto v=val("--max-steps=")) O_maxSteps=atoll(v); else if(auto v=val("--max-paths=")) O_maxPaths=atoll(v); else if(auto v=val("--qtimeout=")) O_qtimeout=atoi(v); else if(auto v=val("--samples=")) O_samples=atoi(v); else if(auto v=val("--seed=")) seed=v; else if(a=="--debug") O_debug++; else if(auto v=val("--max-viol=")) O_maxViol=atoi(v); else files.push_back(a); }
  T0=now(); rngS^=strtoull(seed.c_str(),0,10)*0x9E3779B97F4A7C15ull; if(!rngS) rngS=1;
  LLVMContext LC; SMDiagnostic err; std::unique_ptr<Module> mod;
  for(auto& fl:files){ auto m=parseIRFile(fl,err,LC); if(!m){ err.print("symex",errs()); return 2; } if(!mod) mod=std::move(m); else if(Linker::linkModules(*mod,std::move(m),Linker::OverrideFromSrc)){ fprintf(stderr,"link error\n"); return 2; } }
  M=mod.get(); DL=&M->getDataLayout(); Ctx ctx; X=&ctx; Z3T zt(ctx); Z=&zt; initExt();
  z3::solver zs(Z->c); ZS=&zs; { z3::params p(Z->c); p.set("timeout",(unsigned)std::min(O_qtimeout,(unsigned)8000)); zs.set(p); }
  int rc=0; 
  try{
    State* s0=new State(); s0->heapNext=0x7000000000ull;
    for(auto& g:M->globals()) globalAddr(&g); for(auto& f:*M) globalAddr(&f);
    for(size_t gi=0;gi<gvars.size();gi++){ auto* gv=gvars[gi]; ObjP o=std::make_shared<Obj>(); o->base=gaddr[gv]; o->size=gv->getValueType()->isSized()?(u64)DL->getTypeAllocSize(gv->getValueType()):8; o->d.assign(o->size,0); o->st.assign(o->size,0); o->ro=gv->isConstant(); o->kind=0; if(gv->hasInitializer()) writeConst(*o,0,gv->getInitializer()); if(o->ro) constMem[o->base]=o; else s0->mem[o->base]=o; }
    // run global constructors, then the entry
    std::vector<Function*> ctors; if(auto* gc=M->getNamedGlobal("llvm.global_ctors")) if(gc->hasInitializer()) if(auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto& o:ca->operands()) if(auto* f=dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) ctors.push_back(f);
    for(auto* cfn:ctors){ pushCall(*s0,getFn(cfn),{}); try{ for(;;) step(*s0); } catch(PathEnd& e){ if(e.why!=0) { fprintf(stderr,"global ctor failed: %s\n", viols.empty()?"":viols[0].msg.c_str()); return 2; } } }
    if(!work.empty()){ fprintf(stderr,"fork in global ctor\n"); return 2; }
    Function* F=M->getFunction(entry); if(!F){ fprintf(stderr,"no entry %s\n",entry.c_str()); return 2; }
    s0->steps=0; std::vector<Val> args; if(F->arg_size()) args.push_back(C((u64)arg&mk64(wOf(F->getArg(0)->getType())))); pushCall(*s0,getFn(F),args); work.push_back(s0);
    while(!work.empty()){ State* s=work.back(); work.pop_back(); if(!runState(s)){ break; } if((int)viols.size()>=O_maxViol) break; if(S_paths>=O_maxPaths){ if(!work.empty()) incomplete="path budget exhausted"; break; } }
    if(!work.empty()&&incomplete.empty()&&viols.empty()) incomplete="stopped";
  } catch(Unsupported& u){ incomplete=u.what; }
  catch(z3::exception& e){ incomplete=std::string("z3: ")+e.msg(); }
  // functions executed (including inlined ones, from debug info)
  std::map<std::string,u64> funcs; 
  for(auto& p:fns) if(p.second->ready) for(auto& b:p.second->bbs) for(auto& I:b.in) if(I.hit){ if(auto dl=I.I->getDebugLoc()){ const DILocation* L=dl; while(L){ if(auto* sp=L->getScope()->getSubprogram()){ std::string n=sp->getLinkageName().str(); if(n.empty()) n=sp->getName().str(); if(L->getFilename().contains("strtk.hpp")) funcs[n]++; } L=L->getInlinedAt(); } } }
  FILE* o= out.empty()?stdout:fopen(out.c_str(),"w");
  fprintf(o,"{\"entry\":\"%s\",\"arg\":%lld,\"complete\":%s,\"incomplete\":\"%s\",\"paths\":%llu,\"instructions\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"forks\":%llu,\"asserts\":%llu,\"asserts_symbolic\":%llu,\"assume_pruned\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"slow\":%llu,\"lia\":%llu,\n",entry.c_str(),(long long)arg,incomplete.empty()?"true":"false",jesc(incomplete).c_str(),(unsigned long long)S_paths,(unsigned long long)S_instr,(unsigned long long)S_queries,(unsigned long long)S_sat,(unsigned long long)S_unsat,(unsigned long long)S_cache,(unsigned long long)S_mcache,(unsigned long long)S_forks,(unsigned long long)S_asserts,(unsigned long long)S_assertSym,(unsigned long long)S_infeasAssume,S_solver,now()-T0,(unsigned long long)slowN,(unsigned long long)S_lia);
  fprintf(o,"\"reached\":{"); { bool c=false; for(auto& r:reached){ fprintf(o,"%s\"%s\":%llu",c?",":"",jesc(r.first).c_str(),(unsigned long long)r.second); c=true; } } fprintf(o,"},\n\"violations\":[");
  for(size_t i=0;i<viols.size();i++){ auto& v=viols[i]; fprintf(o,"%s{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"uninit\":%s,\"input\":\"%s\"}",i?",":"",v.kind.c_str(),jesc(v.msg).c_str(),jesc(v.loc).c_str(),v.usesUninit?"true":"false",hex(v.input).c_str()); }
  fprintf(o,"],\n\"samples\":["); for(size_t i=0;i<samples.size();i++){ fprintf(o,"%s{\"in\":\"%s\",\"obs\":[",i?",":"",samples[i].c_str()); for(size_t j=0;j<sampleObs[i].size();j++) fprintf(o,"%s%llu",j?",":"",(unsigned long long)sampleObs[i][j]); fprintf(o,"]}"); }
  fprintf(o,"],\n\"functions\":["); { bool c=false; for(auto& p:funcs){ std::string d=llvm::demangle(p.first); fprintf(o,"%s\"%s\"",c?",":"",jesc(d).c_str()); c=true; } } fprintf(o,"]}\n");
  if(o!=stdout) fclose(o);
  fflush(stdout); _Exit(rc);
}
