// vsym: symbolic executor for LLVM IR with state merging. See DESIGN.md.
#include "solver.hpp"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <memory>
#include <cmath>
#include <cstring>
#include <sys/resource.h>
#include <unistd.h>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace llvm;
using std::vector; using std::string; using std::unordered_map; using std::map; using std::set; using std::shared_ptr;

static Terms TM;
static Solver* SV;

// ------------------------------------------------------------------ values
enum VK : uint8_t { VUndef, VInt, VFP, VBV, VBool, VReal, VAgg, VMixed };
struct AggV;
struct Val {
  VK k=VUndef; uint8_t w=0;
  union { uint64_t u; double d; T t; const AggV* a; };
  T g=nullptr;
  Val():u(0){}
};
struct AggV { vector<Val> e; vector<uint8_t> sz; };
static Val vInt(uint64_t u,int w){ Val v; v.k=VInt; v.w=w; v.u=u&Terms::mask(w); return v; }
static Val vFP(double d,int w){ Val v; v.k=VFP; v.w=w; v.d= w==32?(double)(float)d:d; return v; }
static Val vBool(T t){ if(t==TM.tTrue) return vInt(1,1); if(t==TM.tFalse) return vInt(0,1); Val v; v.k=VBool; v.w=1; v.t=t; return v; }
static Val vBV(T t){ if(Terms::isK(t)) return vInt(t->u,t->width); Val v; v.k=VBV; v.w=t->width; v.t=t; return v; }
static Val vReal(T t,T g,int w){
  if(g==TM.tFalse) g=nullptr;
  if(g==TM.tTrue) return vFP(INFINITY,w);
  if(!g&&Terms::isC(t)){ double d=Terms::cv(t).get_d(); if(mpq_class(d)==Terms::cv(t)) return vFP(d,w); }
  Val v; v.k=VReal; v.w=w; v.t=t; v.g=g; return v; }
static Val vAgg(vector<Val> e){ Val v; v.k=VAgg; AggV*a=new AggV; a->e=std::move(e); v.a=a; return v; }
static bool same(const Val&a,const Val&b){ if(a.k!=b.k||a.w!=b.w) return false; if(a.k==VUndef) return true; if(a.k==VAgg||a.k==VMixed){ if(a.a==b.a) return true; if(a.a->e.size()!=b.a->e.size()||a.a->sz!=b.a->sz) return false; for(size_t i=0;i<a.a->e.size();i++) if(!same(a.a->e[i],b.a->e[i])) return false; return true; } return a.u==b.u&&a.g==b.g; }
static T toBV(const Val&v){ if(v.k==VInt) return TM.bvc(v.u,v.w); if(v.k==VBV) return v.t; if(v.k==VBool) return TM.b2bv(v.t,1); return nullptr; }
static T toBool(const Val&v){ if(v.k==VInt) return v.u&1?TM.tTrue:TM.tFalse; if(v.k==VBool) return v.t; if(v.k==VBV) return TM.bveq(TM.extract(v.t,0,1),TM.bvc(1,1)); return nullptr; }
static bool toReal(const Val&v,T&t,T&g){ if(v.k==VReal){t=v.t;g=v.g;return true;} if(v.k==VFP){ if(std::isnan(v.d)||v.d==-INFINITY) return false; if(v.d==INFINITY){t=TM.rc(0);g=TM.tTrue;return true;} t=TM.rd(v.d);g=nullptr;return true;} return false; }
static T gOr0(T g){ return g?g:TM.tFalse; }

static int intDiffs; static const int MAXINTDIFF=6;
// merge two values under condition c; returns false if impossible
static bool mergeVal(T c,const Val&a,const Val&b,Val&r){
  if(same(a,b)){ r=a; return true; }
  if(a.k==VUndef||b.k==VUndef||a.k==VMixed||b.k==VMixed) return false;
  if(a.k==VAgg||b.k==VAgg){ if(a.k!=b.k||a.a->e.size()!=b.a->e.size()) return false; vector<Val> e(a.a->e.size()); for(size_t i=0;i<e.size();i++) if(!mergeVal(c,a.a->e[i],b.a->e[i],e[i])) return false; r=vAgg(e); return true; }
  bool fa=a.k==VFP||a.k==VReal, fb=b.k==VFP||b.k==VReal;
  if(fa!=fb) return false;
  if(fa){ T ta,ga,tb,gb; if(!toReal(a,ta,ga)||!toReal(b,tb,gb)) return false;
    if(ga==TM.tTrue) ta=tb; if(gb==TM.tTrue) tb=ta;
    T g= (ga||gb)? TM.bite(c,gOr0(ga),gOr0(gb)) : nullptr;
    r=vReal(TM.rite(c,ta,tb),g,a.w); return true; }
  if(a.w!=b.w) return false;
  if(a.w==1){ r=vBool(TM.bite(c,toBool(a),toBool(b))); return true; }
  intDiffs++;
  r=vBV(TM.bvite(c,toBV(a),toBV(b))); return true;
}

// ------------------------------------------------------------------ memory
enum OK : uint8_t { OStack, OGlobal, OMalloc, ONew, ONewArr, OExc, OModel, OFunc };
struct Cell { Val v; uint8_t n; };
struct Obj {
  uint32_t size; OK kind; bool ro=false; int leakTag=0;
  vector<uint8_t> b, st, tag; map<uint32_t,Cell> cells;
  Obj(uint32_t n,OK k):size(n),kind(k),b(n,0),st(n,0),tag(n,0){}
};
typedef shared_ptr<Obj> PObj;
enum { CH=32 };
struct Chunk { PObj o[CH]; };
struct Store { vector<shared_ptr<Chunk>> c;
  Obj* get(uint32_t i) const { uint32_t k=i/CH; if(k>=c.size()||!c[k]) return nullptr; return c[k]->o[i%CH].get(); }
  PObj& slot(uint32_t i){ uint32_t k=i/CH; if(k>=c.size()) c.resize(k+1); if(!c[k]) c[k]=std::make_shared<Chunk>(); else if(c[k].use_count()>1) c[k]=std::make_shared<Chunk>(*c[k]); return c[k]->o[i%CH]; }
  Obj* mut(uint32_t i){ PObj& p=slot(i); if(p.use_count()>1) p=std::make_shared<Obj>(*p); return p.get(); }
};
static const uint64_t BASE=0x10000000;
// address: region(4 bits)<<60? keep: id<<32 | BASE+off ; id = region*2^28 + index
enum { RG=1, RH=2, RS=3, RF=4 };
static uint64_t mkAddr(int region,uint32_t idx){ return ((uint64_t)((uint32_t)region<<27|idx)<<32)+BASE; }

// ------------------------------------------------------------------ compiled code
struct Opnd { int32_t reg=-1; Val c; };
struct Ins;
struct Blk { int idx; vector<Ins> ins; int nphi=0; bool join=false; vector<int> loops; vector<int> loopOrd; int ord=0; vector<bool> liveIn; bool visited=false; BasicBlock* bb; };
struct Ins {
  unsigned op; Instruction* I; int dst=-1; vector<Opnd> o; Type* ty=nullptr; vector<int> succ; int w=0; 
  uint64_t imm=0; vector<std::pair<int,int64_t>> gep; int pred=0; Function* callee=nullptr; int builtin=-1; vector<vector<Opnd>> phis; vector<bool> liveAfter; bool liveAfterDone=false; int ckind=0;
};
struct Fn { Function* F; string name; int id; int nregs=0; vector<Blk> blks; unordered_map<BasicBlock*,int> bidx; int nret=0; bool touched=false; };

struct Frame { Fn* f; vector<Val> r; int bb=0, prev=-1, ip=0; vector<std::pair<int,int>> loops; vector<uint32_t> allocas; uint64_t freeAfter=0; int stackBase=0; };
struct ExcInfo { uint64_t type=0, dtor=0; int handlers=0; bool operator==(const ExcInfo&o) const { return type==o.type&&dtor==o.dtor&&handlers==o.handlers; } };
struct State {
  vector<Frame> st; Store glob, heap, stack; uint32_t heapNext=1, stackNext=1; 
  vector<T> pc; vector<int> choiceKey; vector<std::pair<string,long>> choices; map<string,int> counters;
  map<uint64_t,ExcInfo> exc; vector<uint64_t> caught; uint64_t inflight=0; 
  int leakTag=0; uint64_t steps=0; uint64_t sig=0; bool merged=false; int id=0; int pin=0; int conversions=0;
  vector<std::pair<string,Val>> inputs;
  map<uint32_t,int> ctl;
};

struct PathEnd { string why; };
struct Violation { string kind, msg; };
struct Resolve { int reg; vector<std::pair<T,Val>> alts; };
struct ForkRet { T cond; };  

// ------------------------------------------------------------------ engine
struct Engine {
  LLVMContext C; std::unique_ptr<Module> M; const DataLayout* DL;
  unordered_map<const Function*,Fn*> fns; vector<const Function*> fnById; unordered_map<const GlobalValue*,uint64_t> gaddr; map<uint64_t,const Function*> addrFn;
  map<string,long> params; string entry; double timeLimit=600; uint64_t stepLimit=30000000; long maxStates=20000; bool noMerge=false; int verbose=0;
  set<string> funcsSeen; string repoPrefix;
  uint64_t totalSteps=0; long forks=0, merges=0, mergeFail=0, paths=0, asserts=0, proved=0, trivially=0, undecided=0, liveMax=0; 
  map<string,long> incomplete; map<string,string> reach; map<string,string> undecidedMsgs; map<string,int> violSeen; int nviol=0; int maxViol=6; map<string,long> pathEnds; map<string,long> assertCounts;
  std::chrono::steady_clock::time_point t0;
  std::multimap<std::tuple<vector<int>,vector<int>,uint64_t>,State*> Q;
  long memLimitMB=3500;

  double elapsed(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count(); }

  // ---------- compile ----------
  Fn* fn(const Function* F){ auto it=fns.find(F); if(it!=fns.end()) return it->second; Fn* f=new Fn; f->F=(Function*)F; f->name=F->getName().str(); f->id=fns.size(); fns[F]=f; compile(*f); return f; }
  int width(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; return 0; }
  static bool isFPt(Type*t){ return t->isFloatTy()||t->isDoubleTy(); }
  uint64_t addrOf(const GlobalValue* G){ auto it=gaddr.find(G); if(it!=gaddr.end()) return it->second; 
    if(auto*A=dyn_cast<GlobalAlias>(G)) { Val v=cst((Constant*)A->getAliasee()); gaddr[G]=v.u; return v.u; }
    uint32_t idx=gaddr.size()+1; bool isF=isa<Function>(G); uint64_t a=mkAddr(isF?RF:RG,idx); gaddr[G]=a; if(isF) addrFn[a]=cast<Function>(G); else lateGlobals.push_back(cast<GlobalVariable>(G)); return a; }
  vector<const GlobalVariable*> lateGlobals;
  Val cst(const Constant* c){
    Type*t=c->getType();
    if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) return Val(); return vInt(ci->getZExtValue(),ci->getBitWidth()); }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ if(t->isFloatTy()) return vFP(cf->getValueAPF().convertToFloat(),32); if(t->isDoubleTy()) return vFP(cf->getValueAPF().convertToDouble(),64); return Val(); }
    if(isa<ConstantPointerNull>(c)) return vInt(0,64);
    if(isa<UndefValue>(c)){ if(t->isStructTy()||t->isArrayTy()||t->isVectorTy()){ unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); vector<Val> e(n); for(unsigned i=0;i<n;i++) e[i]=cst(UndefValue::get(t->isStructTy()?t->getStructElementType(i):t->getContainedType(0))); return vAgg(e);} return Val(); }
    if(auto*G=dyn_cast<GlobalValue>(c)) return vInt(addrOf(G),64);
    if(isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)){ unsigned n=t->isStructTy()?t->getStructNumElements():t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); vector<Val> e(n); for(unsigned i=0;i<n;i++) e[i]=cst(c->getAggregateElement(i)); return vAgg(e); }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
      switch(ce->getOpcode()){
        case Instruction::GetElementPtr: { APInt off(64,0); auto*gp=cast<GEPOperator>(ce); if(gp->accumulateConstantOffset(*DL,off)){ Val b=cst(cast<Constant>(gp->getPointerOperand())); return vInt(b.u+off.getSExtValue(),64);} break; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val v=cst(ce->getOperand(0)); if(v.k==VInt) return vInt(v.u,width(t)); break; }
        case Instruction::Trunc: { Val v=cst(ce->getOperand(0)); return vInt(v.u,width(t)); }
        case Instruction::Sub: { Val a=cst(ce->getOperand(0)),b=cst(ce->getOperand(1)); return vInt(a.u-b.u,width(t)); }
        case Instruction::Add: { Val a=cst(ce->getOperand(0)),b=cst(ce->getOperand(1)); return vInt(a.u+b.u,width(t)); }
        default: break; } }
    if(isa<ConstantTokenNone>(c)) return Val();
    fprintf(stderr,"unsupported constant\n"); c->print(errs()); return Val();
  }
  void numberRegion(Function&F,LoopInfo&LI,Loop*L,map<const void*,int>&ord){
    // nodes: direct blocks and direct subloops of region L (nullptr = function)
    auto nodeOf=[&](BasicBlock*b)->const void*{ Loop*x=LI.getLoopFor(b); if(x==L) return b; while(x&&x->getParentLoop()!=L) x=x->getParentLoop(); return x; };
    auto inRegion=[&](BasicBlock*b){ return !L||L->contains(b); };
    map<const void*,vector<const void*>> succ;
    for(BasicBlock&B:F){ if(!inRegion(&B)) continue; const void*n=nodeOf(&B); for(BasicBlock*s:successors(&B)){ if(!inRegion(s)) continue; if(L&&s==L->getHeader()) continue; const void*m=nodeOf(s); if(m!=n) succ[n].push_back(m);} }
    const void* root= L? (const void*)L->getHeader() : nodeOf(&F.getEntryBlock());
    set<const void*> seen; vector<const void*> post; std::function<void(const void*)> dfs=[&](const void*n){ if(!seen.insert(n).second) return; for(const void*m:succ[n]) dfs(m); post.push_back(n); }; dfs(root);
    int k=0; for(size_t i=post.size();i-->0;) ord[post[i]]=k++;
    for(Loop*S: L?L->getSubLoops():std::vector<Loop*>(LI.begin(),LI.end())) numberRegion(F,LI,S,ord);
  }
  void compile(Fn&f){
    Function&F=*f.F; if(F.isDeclaration()) return;
    unordered_map<const Value*,int> reg; int n=0;
    for(Argument&a:F.args()) reg[&a]=n++;
    for(BasicBlock&B:F) for(Instruction&I:B) if(!I.getType()->isVoidTy()) reg[&I]=n++;
    f.nregs=n;
    for(BasicBlock&B:F){ int i=f.bidx.size(); f.bidx[&B]=i; }
    f.blks.resize(f.bidx.size());
    DominatorTree DT(F); LoopInfo LI(DT); map<const void*,int> ord; numberRegion(F,LI,nullptr,ord);
    map<Loop*,int> loopId; for(Loop*L:LI.getLoopsInPreorder()) loopId[L]=loopId.size();
    auto opnd=[&](Value*v){ Opnd o; if(auto*c=dyn_cast<Constant>(v)) o.c=cst(c); else { auto it=reg.find(v); if(it!=reg.end()) o.reg=it->second; } return o; };
    for(BasicBlock&B:F){ Blk&b=f.blks[f.bidx[&B]]; b.idx=f.bidx[&B]; b.bb=&B; b.ord=ord.count(&B)?ord[&B]:0; b.join=!B.getSinglePredecessor()&&&B!=&F.getEntryBlock();
      { vector<Loop*> ls; for(Loop*L=LI.getLoopFor(&B);L;L=L->getParentLoop()) ls.push_back(L); std::reverse(ls.begin(),ls.end()); for(Loop*L:ls){ b.loops.push_back(loopId[L]*2+(L->getHeader()==&B)); b.loopOrd.push_back(ord.count(L)?ord[L]:0);} }
      for(Instruction&I:B){ Ins x; x.op=I.getOpcode(); x.I=&I; x.ty=I.getType(); x.w=width(x.ty); auto rit=reg.find(&I); if(rit!=reg.end()) x.dst=rit->second;
        if(auto*p=dyn_cast<PHINode>(&I)){ b.nphi++; x.phis.resize(1); for(unsigned i=0;i<p->getNumIncomingValues();i++){ x.succ.push_back(f.bidx[p->getIncomingBlock(i)]); x.o.push_back(opnd(p->getIncomingValue(i))); } }
        else if(auto*cb=dyn_cast<CallBase>(&I)){ for(unsigned i=0;i<cb->arg_size();i++) x.o.push_back(opnd(cb->getArgOperand(i))); Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto*ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject(); x.callee=dyn_cast<Function>(cv); if(!x.callee) x.o.push_back(opnd(cb->getCalledOperand())); if(auto*iv=dyn_cast<InvokeInst>(&I)){ x.succ={f.bidx[iv->getNormalDest()],f.bidx[iv->getUnwindDest()]}; } 
          for(unsigned i=0;i<cb->arg_size();i++) if(cb->isByValArgument(i)) x.gep.push_back({(int)i,(int64_t)DL->getTypeAllocSize(cb->getParamByValType(i))}); }
        else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ x.o.push_back(opnd(g->getPointerOperand())); int64_t off=0; for(auto gt=gep_type_begin(g),e=gep_type_end(g);gt!=e;++gt){ Value*ix=gt.getOperand(); if(StructType*st=gt.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sz=DL->getTypeAllocSize(gt.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*sz; else { x.gep.push_back({(int)x.o.size(),sz}); x.o.push_back(opnd(ix)); } } } x.imm=(uint64_t)off; }
        else if(auto*a=dyn_cast<AllocaInst>(&I)){ x.imm=DL->getTypeAllocSize(a->getAllocatedType()); x.o.push_back(opnd(a->getArraySize())); }
        else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) x.o.push_back(opnd(br->getCondition())); for(unsigned i=0;i<br->getNumSuccessors();i++) x.succ.push_back(f.bidx[br->getSuccessor(i)]); }
        else if(auto*sw=dyn_cast<SwitchInst>(&I)){ x.o.push_back(opnd(sw->getCondition())); x.succ.push_back(f.bidx[sw->getDefaultDest()]); for(auto&c:sw->cases()){ x.gep.push_back({f.bidx[c.getCaseSuccessor()],(int64_t)c.getCaseValue()->getZExtValue()}); } }
        else { for(Value*v:I.operands()) if(!isa<BasicBlock>(v)) x.o.push_back(opnd(v)); if(auto*c=dyn_cast<CmpInst>(&I)) x.pred=c->getPredicate(); if(isa<ReturnInst>(&I)) f.nret++; if(isa<StoreInst>(&I)) x.ty=I.getOperand(0)->getType(); }
        b.ins.push_back(std::move(x)); }
    }
    // liveness
    for(Blk&b:f.blks) b.liveIn.assign(n,false);
    bool ch=true; while(ch){ ch=false; for(size_t i=f.blks.size();i-->0;){ Blk&b=f.blks[i]; vector<bool> live=liveOut(f,b); 
        for(size_t j=b.ins.size();j-->0;){ Ins&x=b.ins[j]; if(x.dst>=0&&(int)j>=b.nphi) live[x.dst]=false; if((int)j>=b.nphi) for(Opnd&o:x.o) if(o.reg>=0) live[o.reg]=true; }
        // phis are defined on the edge, so they are live-in here
        if(live!=b.liveIn){ b.liveIn=live; ch=true; } } }
  }
  vector<bool> liveOut(Fn&f,Blk&b){ vector<bool> live(f.nregs,false); for(BasicBlock*s:successors(b.bb)){ Blk&t=f.blks[f.bidx[s]]; vector<bool> li=t.liveIn; for(int j=0;j<t.nphi;j++) li[t.ins[j].dst]=false; for(int i=0;i<f.nregs;i++) if(li[i]) live[i]=true; for(int j=0;j<t.nphi;j++){ Ins&p=t.ins[j]; for(size_t q=0;q<p.o.size();q++) if(p.succ[q]==b.idx&&p.o[q].reg>=0) live[p.o[q].reg]=true; } } return live; }
  const vector<bool>& liveAfter(Fn&f,Blk&b,int ip){ Ins&x=b.ins[ip]; if(x.liveAfterDone) return x.liveAfter; vector<bool> live=liveOut(f,b); for(int j=(int)b.ins.size()-1;j>ip;j--){ Ins&y=b.ins[j]; if(y.dst>=0) live[y.dst]=false; for(Opnd&o:y.o) if(o.reg>=0) live[o.reg]=true; } x.liveAfter=live; x.liveAfterDone=true; return x.liveAfter; }

  // ---------- memory access ----------
  Store& region(State&s,int r){ return r==RG?s.glob:r==RS?s.stack:s.heap; }
  void split(uint64_t addr,int&r,uint32_t&idx,int64_t&off){ uint32_t id=addr>>32; r=id>>27; idx=id&((1u<<27)-1); off=(int64_t)(uint32_t)addr-(int64_t)BASE; }
  Obj* lookup(State&s,uint64_t addr,uint64_t n,bool write,int64_t&off,bool mut){
    int r; uint32_t idx; 
    if(addr<0x100000000ull) throw Violation{"memory","null or wild pointer dereference"};
    split(addr,r,idx,off);
    if(r==RF) throw Violation{"memory","access to code address"};
    if(r<RG||r>RS) throw Violation{"memory","wild pointer dereference"};
    Store&S=region(s,r); Obj*o=S.get(idx);
    if(!o) throw Violation{"memory", r==RH?"use after free (or wild heap pointer)":r==RS?"use of dead stack object":"access to unknown global"};
    if(off<0||(uint64_t)off+n>o->size) throw Violation{"memory",string(write?"out-of-bounds write":"out-of-bounds read")+(r==RH?" (heap)":r==RS?" (stack)":" (global)")};
    if(write&&o->ro) throw Violation{"memory","write to read-only memory"};
    if(mut) o=S.mut(idx);
    return o; }
  static uint32_t cellHead(Obj*o,uint32_t off){ uint32_t h=off; while(o->st[h]==3) h--; return h; }
  // make sure no cell straddles position p (split symbolic cells)
  void cut(Obj*o,uint32_t p){ if(p>=o->size||o->st[p]!=3) return; uint32_t h=cellHead(o,p); Cell c=o->cells[h]; o->cells.erase(h); 
    T bv= c.v.k==VBV||c.v.k==VBool? toBV(c.v):nullptr; if(c.v.k==VBool) bv=TM.zext(bv,8*c.n);
    for(uint32_t i=0;i<c.n;i++){ o->tag[h+i]=0; if(bv){ Val bvv=vBV(TM.extract(bv,8*i,8)); if(bvv.k==VInt){ o->st[h+i]=1; o->b[h+i]=bvv.u; } else { o->st[h+i]=2; o->cells[h+i]=Cell{bvv,1}; } } else throw PathEnd{"engine: partial overwrite of symbolic real"}; } }
  void clearRange(Obj*o,uint32_t off,uint32_t n){ if(o->cells.empty()) return; 
    auto strad=[&](uint32_t p){ if(p<o->size&&o->st[p]==3){ uint32_t h=cellHead(o,p); Cell&c=o->cells[h]; bool fullyIn= h>=off&&h+c.n<=off+n; if(!fullyIn) cut(o,p);} };
    strad(off); if(off+n<o->size) strad(off+n);
    auto it=o->cells.lower_bound(off); while(it!=o->cells.end()&&it->first<off+n) it=o->cells.erase(it); }
  void putScalar(Obj*o,uint32_t off,const Val&v,uint32_t n){
    clearRange(o,off,n);
    for(uint32_t i=0;i<n;i++) o->tag[off+i]=0;
    if(v.k==VInt){ uint64_t u=v.u; for(uint32_t i=0;i<n;i++){ o->b[off+i]= i<8? u>>(8*i):0; o->st[off+i]=1; } o->tag[off]=n; }
    else if(v.k==VFP){ uint64_t u=0; if(n==8) memcpy(&u,&v.d,8); else { float f=(float)v.d; memcpy(&u,&f,4);} for(uint32_t i=0;i<n;i++){ o->b[off+i]=u>>(8*i); o->st[off+i]=1; } o->tag[off]=n|0x80; }
    else if(v.k==VUndef){ for(uint32_t i=0;i<n;i++) o->st[off+i]=0; }
    else if(v.k==VMixed){ uint32_t p=off; for(size_t i=0;i<v.a->e.size();i++){ putScalar(o,p,v.a->e[i],v.a->sz[i]); p+=v.a->sz[i]; } }
    else { Val x=v; if(v.k==VBool) x=vBV(TM.zext(toBV(v),8*n)); else if(v.k==VBV&&v.w<8*n) x=vBV(TM.zext(v.t,8*n)); if(x.k==VInt){ putScalar(o,off,x,n); return; }
      o->cells[off]=Cell{x,(uint8_t)n}; o->st[off]=2; for(uint32_t i=1;i<n;i++) o->st[off+i]=3; o->tag[off]= n|(v.k==VReal?0x80:0); }
  }
  void storeTy(State&s,uint64_t addr,const Val&v,Type*t){
    uint64_t n=DL->getTypeStoreSize(t); int64_t off; Obj*o=lookup(s,addr,n,true,off,true); storeIn(o,off,v,t); }
  void storeIn(Obj*o,uint32_t off,const Val&v,Type*t){
    if(t->isStructTy()){ auto*SL=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) storeIn(o,off+SL->getElementOffset(i),v.k==VAgg?v.a->e[i]:Val(),t->getStructElementType(i)); return; }
    if(t->isArrayTy()||t->isVectorTy()){ Type*et=t->getContainedType(0); uint64_t es=DL->getTypeAllocSize(et); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) storeIn(o,off+i*es,v.k==VAgg?v.a->e[i]:Val(),et); return; }
    putScalar(o,off,v,DL->getTypeStoreSize(t)); }
  Val getScalar(Obj*o,uint32_t off,uint32_t n,Type*t){
    int w=width(t); bool fp=isFPt(t); 
    if(o->st[off]==2){ auto it=o->cells.find(off); if(it!=o->cells.end()&&it->second.n==n){ Val v=it->second.v; if(v.k==VBV&&w<(int)(8*n)){ v=vBV(TM.extract(v.t,0,w)); if(w==1) v=vBool(TM.bveq(toBV(v),TM.bvc(1,1))); } if(fp&&v.k==VBV) throw PathEnd{"engine: symbolic int read as fp"}; return v; } }
    bool all1=true, any0=false, all0=true; for(uint32_t i=0;i<n;i++){ uint8_t x=o->st[off+i]; if(x!=1) all1=false; if(x==0) any0=true; else all0=false; }
    if(all1){ uint64_t u=0; for(uint32_t i=0;i<n&&i<8;i++) u|=(uint64_t)o->b[off+i]<<(8*i); if(fp){ double d; if(n==8) memcpy(&d,&u,8); else { float f; uint32_t q=u; memcpy(&f,&q,4); d=f;} Val r; r.k=VFP; r.w=w; r.d=d; return r; } return vInt(u,w); }
    if(all0) return Val();
    if(fp) { if(any0) return Val(); throw PathEnd{"engine: mixed bytes read as fp"}; }
    // pieces
    bool hasReal=false; vector<Val> e; vector<uint8_t> sz; uint32_t p=off,end=off+n;
    while(p<end){ if(o->st[p]==1){ uint32_t q=p; uint64_t u=0; while(q<end&&o->st[q]==1&&q-p<8){ u|=(uint64_t)o->b[q]<<(8*(q-p)); q++; if(o->tag[p]&&q-p>=(uint32_t)(o->tag[p]&0x7f)) break; } e.push_back(vInt(u,8*(q-p))); sz.push_back(q-p); p=q; }
      else if(o->st[p]==0){ uint32_t q=p; while(q<end&&o->st[q]==0) q++; e.push_back(Val()); sz.push_back(q-p); p=q; }
      else { uint32_t h=cellHead(o,p); Cell&c=o->cells[h]; if(h==p&&p+c.n<=end){ if(c.v.k==VReal) hasReal=true; e.push_back(c.v); sz.push_back(c.n); p+=c.n; } else { if(c.v.k==VReal) throw PathEnd{"engine: partial read of symbolic real"}; T bv=toBV(c.v); uint32_t take=std::min(end,h+c.n)-p; Val v=vBV(TM.extract(bv,8*(p-h),8*take)); e.push_back(v); sz.push_back(take); p+=take; } } }
    if(!hasReal&&!any0){ T r=toBV(e[0]); for(size_t i=1;i<e.size();i++) r=TM.concat(toBV(e[i]),r); if((int)r->width>w) r=TM.extract(r,0,w); return vBV(r); }
    Val v; v.k=VMixed; v.w=w; AggV*a=new AggV; a->e=e; a->sz=sz; v.a=a; return v; }
  Val loadIn(Obj*o,uint32_t off,Type*t){
    if(t->isStructTy()){ auto*SL=DL->getStructLayout(cast<StructType>(t)); vector<Val> e; for(unsigned i=0;i<t->getStructNumElements();i++) e.push_back(loadIn(o,off+SL->getElementOffset(i),t->getStructElementType(i))); return vAgg(e); }
    if(t->isArrayTy()||t->isVectorTy()){ Type*et=t->getContainedType(0); uint64_t es=DL->getTypeAllocSize(et); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); vector<Val> e; for(unsigned i=0;i<n;i++) e.push_back(loadIn(o,off+i*es,et)); return vAgg(e); }
    return getScalar(o,off,DL->getTypeStoreSize(t),t); }
  Val loadTy(State&s,uint64_t addr,Type*t){ int64_t off; Obj*o=lookup(s,addr,DL->getTypeStoreSize(t),false,off,false); return loadIn(o,off,t); }
  void memCopy(State&s,uint64_t d,uint64_t sr,uint64_t n){ if(!n) return; int64_t so,doff; Obj*src=lookup(s,sr,n,false,so,false); 
    // snapshot
    vector<uint8_t> b(src->b.begin()+so,src->b.begin()+so+n), st(src->st.begin()+so,src->st.begin()+so+n), tg(src->tag.begin()+so,src->tag.begin()+so+n); vector<std::pair<uint32_t,Cell>> cs;
    if(!src->cells.empty()){ if(st[0]==3||((uint64_t)so+n<src->size&&src->st[so+n]==3)){ src=lookup(s,sr,n,false,so,true); cut(src,so); if((uint64_t)so+n<src->size) cut(src,so+n); b.assign(src->b.begin()+so,src->b.begin()+so+n); st.assign(src->st.begin()+so,src->st.begin()+so+n); }
      for(auto it=src->cells.lower_bound(so);it!=src->cells.end()&&it->first<(uint64_t)so+n;++it) cs.push_back({(uint32_t)(it->first-so),it->second}); }
    Obj*dst=lookup(s,d,n,true,doff,true); clearRange(dst,doff,n); memcpy(&dst->b[doff],b.data(),n); memcpy(&dst->st[doff],st.data(),n); memcpy(&dst->tag[doff],tg.data(),n); for(auto&c:cs) dst->cells[doff+c.first]=c.second; }
  void memFill(State&s,uint64_t d,const Val&v,uint64_t n){ if(!n) return; int64_t off; Obj*o=lookup(s,d,n,true,off,true); clearRange(o,off,n); for(uint64_t i=0;i<n;i++){ o->tag[off+i]=0; if(v.k==VInt){ o->b[off+i]=v.u; o->st[off+i]=1; } else putScalar(o,off+i,v,1);} }
  uint64_t heapAlloc(State&s,uint64_t n,OK kind,bool tracked){ if(n>(1u<<26)) { if(kind==OMalloc) return 0; throw PathEnd{"bad_alloc"}; } uint32_t id=s.heapNext++; PObj o=std::make_shared<Obj>((uint32_t)n,kind); o->leakTag= tracked&&kind!=OModel?s.leakTag:0; s.heap.slot(id)=o; s.sig+= (uint64_t)id*0x9E3779B97F4A7C15ull^(n*77); return mkAddr(RH,id); }
  void heapFree(State&s,uint64_t a,OK kind){ if(!a) return; int r; uint32_t idx; int64_t off; if(a<0x100000000ull) throw Violation{"memory","free of wild pointer"}; split(a,r,idx,off); if(r!=RH) throw Violation{"memory","free of a pointer that is not heap memory"}; Obj*o=s.heap.get(idx); if(!o) throw Violation{"memory","double free"}; if(off!=0) throw Violation{"memory","free of interior pointer"}; if(o->kind!=kind) throw Violation{"memory",string("allocation/deallocation mismatch (")+kn(o->kind)+" released with "+kn(kind)+")"}; s.sig-= (uint64_t)idx*0x9E3779B97F4A7C15ull^((uint64_t)o->size*77); s.heap.slot(idx).reset(); }
  static const char* kn(OK k){ switch(k){ case OMalloc: return "malloc/free"; case ONew: return "new/delete"; case ONewArr: return "new[]/delete[]"; case OExc: return "exception"; case OModel: return "model"; default: return "?"; } }
  string cstr(State&s,uint64_t a){ string r; while(true){ int64_t off; Obj*o=lookup(s,a,1,false,off,false); if(o->st[off]!=1) throw PathEnd{"engine: symbolic string"}; char c=o->b[off]; if(!c) return r; r+=c; a++; } }

  // ---------- reporting ----------
  static string js(const string&s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b;} else r+=c; } return r+"\""; }
  string locOf(State&s){ for(size_t i=s.st.size();i-->0;){ Frame&f=s.st[i]; Blk&b=f.f->blks[f.bb]; int ip=std::min(f.ip,(int)b.ins.size()-1); if(const DebugLoc&d=b.ins[ip].I->getDebugLoc()) { for(const DILocation*l=d.get();l;l=l->getInlinedAt()){ string fn=l->getFilename().str(); string full=fn.size()&&fn[0]=='/'?fn:(l->getDirectory().str()+"/"+fn); if(full.find(repoPrefix)==0&&repoPrefix.size()) return full.substr(repoPrefix.size())+":"+std::to_string(l->getLine()); } } }
    for(size_t i=s.st.size();i-->0;){ Frame&f=s.st[i]; Blk&b=f.f->blks[f.bb]; int ip=std::min(f.ip,(int)b.ins.size()-1); if(const DebugLoc&d=b.ins[ip].I->getDebugLoc()) { string fn=d->getFilename().str(); size_t p=fn.rfind('/'); return fn.substr(p==string::npos?0:p+1)+":"+std::to_string(d->getLine()); } } return "?"; }
  string stackOf(State&s){ string r; for(size_t i=s.st.size();i-->0&&s.st.size()-i<8;) r+=s.st[i].f->name+" < "; return r; }
  string modelJson(State&s,const Model&m){ string r="{"; bool first=true; auto put=[&](const string&n,const string&v){ if(!first) r+=","; first=false; r+=js(n)+":"+js(v); };
    for(auto&c:s.choices) put(c.first,std::to_string(c.second));
    std::unordered_map<uint32_t,Solver::EV> memo;
    for(auto&in:s.inputs){ T t=nullptr; if(in.second.k==VReal||in.second.k==VBV||in.second.k==VBool) t=in.second.t; if(!t) continue; mpq_class q; if(SV->evalQ(t,m,q,memo)){ if(in.second.k==VBV) q=mpq_class((long)Terms::sx(Solver::toU(q),in.second.w)); put(in.first,q.get_str()); } }
    return r+"}"; }
  // find a model of all formulas; 1 found, 0 impossible, -1 unknown
  int findModel(const vector<T>&fs,Model&m,bool tryGridFirst){
    bool conc=true; for(T f:fs) if(f!=TM.tTrue) conc=false; if(conc) return 1;
    auto holds=[&](const Model&mm){ std::unordered_map<uint32_t,Solver::EV> memo; for(T f:fs) if(SV->evalB(f,mm,memo)!=1) return false; return true; };
    { Model a; int r=SV->check(fs,ABS,SV->absTimeout,&a,true); if(r==0) return 0; if(r==1&&holds(a)){ m=a; return 1; } }
    SV->st.grid++;
    for(int G: {3,8}){ SV->G=G; SV->cache[GRID].clear(); Model a; int r=SV->check(fs,GRID,SV->gridTimeout,&a,false); if(r==1){ m=a; return 1; } }
    SV->st.nra++;
    { Model a; int r=SV->check(fs,FUL,SV->nraTimeout,&a,false); if(r==0) return 0; if(r==1){ m=a; return 1; } }
    return -1; }
  void report(State&s,const string&kind,const string&msg,const Model&m,bool certain){
    string loc=locOf(s); string key=kind+"|"+msg+"|"+loc; int&c=violSeen[key]; if(c>=2) return; c++; nviol++;
    printf("{\"type\":\"violation\",\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"certain\":%s,\"inputs\":%s}\n",js(kind).c_str(),js(msg).c_str(),js(loc).c_str(),js(stackOf(s)).c_str(),certain?"true":"false",modelJson(s,m).c_str()); fflush(stdout); }
  void violation(State&s,const string&kind,const string&msg){ string key=kind+"|"+msg+"|"+locOf(s); if(violSeen.count(key)&&violSeen[key]>=2) return; Model m; int r=findModel(s.pc,m,true); if(r==0) return; if(r==1) report(s,kind,msg,m,true); else { undecided++; undecidedMsgs[key]="path condition undecided"; if(verbose) fprintf(stderr,"undecided: %s\n",key.c_str()); } }
  // equivalent conjunction of simpler goals: x <= min(a,b) is x<=a and x<=b, max(a,b) <= x likewise
  bool goals(T p,vector<T>&out,size_t limit){
    if(p==TM.tTrue) return true; if(out.size()>=limit) return false;
    if(p->op==Op::And){ for(T x:p->k) if(!goals(x,out,limit)) return false; return true; }
    if(p->op==Op::RLe0||p->op==Op::RLt0){ T t=p->k[0]; for(auto&a:t->lin->v){ T y=a.first; if((y->op==Op::RMax&&a.second>0)||(y->op==Op::RMin&&a.second<0)){ mpq_class k=a.second; T rest=TM.rlc(t,1,TM.atom(y),-k); for(T z:y->k) if(!goals(TM.rlt0(TM.rlc(rest,1,z,k),p->op==Op::RLe0),out,limit)) return false; return true; } } }
    for(T x:out) if(x==p) return true; out.push_back(p); return true; }
  // prove cond under pc. returns after assuming it
  void doAssert(State&s,T cond,const string&msg,T margin=nullptr){
    asserts++; assertCounts[msg]++; SV->st.assertQ++;
    if(cond==TM.tTrue){ trivially++; proved++; return; }
    vector<T> parts; if(!goals(cond,parts,300)){ parts.clear(); if(cond->op==Op::And) parts=cond->k; else parts.push_back(cond); }
    bool ok=true; 
    for(T p:parts){ T nc=TM.bnot(p); bool inpc=false; for(T x:s.pc) if(x==p) inpc=true; if(inpc) continue;
      vector<T> q=SV->slice(s.pc,nc); 
      Model a; int r=SV->check(q,ABS,std::min(SV->absTimeout,4000),&a,false); if(r==0) continue;
      r=SV->check(q,ABS,SV->absTimeout,&a,true); if(r==0) continue;
      // candidate
      string key="assert|"+msg+"|"+locOf(s); if(violSeen.count(key)&&violSeen[key]>=2){ ok=false; continue; }
      vector<T> full=s.pc; full.push_back(nc); Model m; int f=-1;
      if(margin&&margin!=TM.tFalse){ vector<T> fm=s.pc; fm.push_back(margin); f=findModel(fm,m,true); if(f==1){ report(s,"assert",msg,m,true); ok=false; continue; } }
      f=findModel(full,m,true);
      if(f==0) continue;
      ok=false;
      if(f==1) report(s,"assert",msg,m,true); else { undecided++; undecidedMsgs[key]="undecided"; if(verbose) fprintf(stderr,"undecided assert: %s : %s\n",msg.c_str(),verbose>1?TM.str(p).c_str():""); }
    }
    if(ok) proved++;
    if(!SV->feasible(s.pc,cond)) throw PathEnd{"assertion fails on whole path"};
    addPc(s,cond);
  }
  void addPc(State&s,T c){ if(c==TM.tTrue) return; if(c->op==Op::And){ for(T x:c->k) addPc(s,x); return; } for(T x:s.pc) if(x==c) return; s.pc.push_back(c); }

  // ---------- globals ----------
  void initGlobals(State&s){
    for(GlobalVariable&G:M->globals()) addrOf(&G);
    size_t i=0; while(i<lateGlobals.size()){ const GlobalVariable*G=lateGlobals[i++]; uint64_t a=gaddr[G]; int r; uint32_t idx; int64_t off; split(a,r,idx,off); Type*t=G->getValueType(); uint64_t n=t->isSized()?(uint64_t)DL->getTypeAllocSize(t):8; PObj o=std::make_shared<Obj>(n,OGlobal); if(G->hasInitializer()){ initConst(o.get(),0,G->getInitializer()); } else { for(uint64_t j=0;j<n;j++) o->st[j]=1; }
      o->ro=false; s.glob.slot(idx)=o; if(G->isConstant()&&G->hasInitializer()) ros.push_back(idx); }
    for(uint32_t x:ros) s.glob.mut(x)->ro=true;
  }
  vector<uint32_t> ros;
  void initConst(Obj*o,uint32_t off,const Constant*c){
    Type*t=c->getType();
    if(isa<ConstantAggregateZero>(c)||c->isNullValue()){ uint64_t n=DL->getTypeAllocSize(t); for(uint64_t i=0;i<n;i++){ o->b[off+i]=0; o->st[off+i]=1; } return; }
    if(t->isStructTy()){ auto*SL=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) initConst(o,off+SL->getElementOffset(i),c->getAggregateElement(i)); return; }
    if(t->isArrayTy()||t->isVectorTy()){ Type*et=t->getContainedType(0); uint64_t es=DL->getTypeAllocSize(et); unsigned n=t->isArrayTy()?t->getArrayNumElements():cast<FixedVectorType>(t)->getNumElements(); for(unsigned i=0;i<n;i++) initConst(o,off+i*es,c->getAggregateElement(i)); return; }
    Val v=cst(c); uint64_t n=DL->getTypeStoreSize(t); if(v.k==VUndef){ return; } putScalar(o,off,v,n); }

  // ---------- execution ----------
  Val& R(State&s,int reg){ return s.st.back().r[reg]; }
  const Val& op(State&s,const Opnd&o){ return o.reg>=0? s.st.back().r[o.reg] : o.c; }
  [[noreturn]] void resolveGuard(const Opnd&o,const Val&v){ Resolve r; r.reg=o.reg; r.alts.push_back({v.g,vFP(INFINITY,v.w)}); Val f=v; f.g=nullptr; r.alts.push_back({TM.bnot(v.g),vReal(v.t,nullptr,v.w)}); throw r; }
  void collectLeaves(T t,T cond,map<uint64_t,vector<T>>&out){ if(Terms::isK(t)){ out[t->u].push_back(cond); return; } collectLeaves(t->k[1],TM.band(cond,t->k[0]),out); collectLeaves(t->k[2],TM.band(cond,TM.bnot(t->k[0])),out); }
  // the values a term can take, from its structure; false: not a small set
  bool valueSet(T t,map<uint32_t,std::set<uint64_t>>&memo,size_t limit){
    if(memo.count(t->id)) return true; std::set<uint64_t> out; uint64_t mk=Terms::mask(t->width);
    if(Terms::isK(t)) out.insert(t->u);
    else if(t->op==Op::BvIte){ if(!valueSet(t->k[1],memo,limit)||!valueSet(t->k[2],memo,limit)) return false; out=memo[t->k[1]->id]; out.insert(memo[t->k[2]->id].begin(),memo[t->k[2]->id].end()); }
    else if(t->op==Op::BvZext||t->op==Op::BvSext||t->op==Op::BvExtract){ if(!valueSet(t->k[0],memo,limit)) return false; for(uint64_t v:memo[t->k[0]->id]) out.insert(t->op==Op::BvZext?v:t->op==Op::BvSext?(uint64_t)Terms::sx(v,t->k[0]->width)&mk:(v>>t->u)&mk); }
    else if(t->k.size()==2&&(t->op==Op::BvAdd||t->op==Op::BvSub||t->op==Op::BvMul||t->op==Op::BvShl||t->op==Op::BvAnd||t->op==Op::BvOr)){ if(!valueSet(t->k[0],memo,limit)||!valueSet(t->k[1],memo,limit)) return false; for(uint64_t x:memo[t->k[0]->id]) for(uint64_t y:memo[t->k[1]->id]){ uint64_t u; if(!Terms::evalBin(t->op,x,y,t->width,u)) return false; out.insert(u&mk); if(out.size()>limit) return false; } }
    else return false;
    if(out.size()>limit) return false; memo[t->id]=out; return true; }
  uint64_t concInt(State&s,const Opnd&o,const char*what="value"){
    const Val&v=op(s,o);
    if(v.k==VInt) return v.u;
    if(v.k==VUndef||v.k==VMixed) throw Violation{"uninit",string("use of uninitialised memory as ")+what};
    if(v.k==VBV||v.k==VBool){ Resolve r; r.reg=o.reg; T t=toBV(v);
      if(TM.iteK(t)){ map<uint64_t,vector<T>> out; collectLeaves(t,TM.tTrue,out); for(auto&p:out) r.alts.push_back({TM.bor(p.second),vInt(p.first,t->width)}); throw r; }
      { std::map<uint32_t,std::set<uint64_t>> memo; if(valueSet(t,memo,200)){ for(uint64_t v:memo[t->id]){ T e=TM.bveq(t,TM.bvc(v,t->width)); if(SV->feasible(s.pc,e)) r.alts.push_back({e,vInt(v,t->width)}); } if(r.alts.empty()) throw PathEnd{"engine: no value for symbolic integer"}; throw r; } }
      // enumerate by solver
      vector<T> pc=s.pc; for(int i=0;i<400;i++){ Model m; vector<T> q=pc; uint64_t val=0; int c=SV->check(q,ABS,5000,&m,false,t,&val); if(c==0) break; if(c<0) throw PathEnd{"engine: cannot enumerate symbolic value"}; T e=TM.bveq(t,TM.bvc(val,t->width)); r.alts.push_back({e,vInt(val,t->width)}); pc.push_back(TM.bnot(e)); if(i==399) throw PathEnd{"engine: too many values for symbolic integer"}; }
      throw r; }
    throw PathEnd{"engine: concInt on real"}; }
  bool isFPv(const Val&v){ return v.k==VFP||v.k==VReal; }
  Val fbin(State&s,Ins&x,unsigned opc,const Opnd&oa,const Opnd&ob,int w){
    const Val a=op(s,oa), b=op(s,ob);
    if(a.k==VUndef||b.k==VUndef) return Val();
    if(a.k==VFP&&b.k==VFP){ double r; switch(opc){ case Instruction::FAdd: r=a.d+b.d; if(w==32) r=(float)a.d+(float)b.d; break; case Instruction::FSub: r= w==32?(float)a.d-(float)b.d:a.d-b.d; break; case Instruction::FMul: r= w==32?(float)a.d*(float)b.d:a.d*b.d; break; case Instruction::FDiv: r= w==32?(float)a.d/(float)b.d:a.d/b.d; break; default: r=fmod(a.d,b.d); } return vFP(r,w); }
    if(a.k==VFP&&std::isnan(a.d)) return a; if(b.k==VFP&&std::isnan(b.d)) return b;
    bool aNegInf=a.k==VFP&&a.d==-INFINITY, bNegInf=b.k==VFP&&b.d==-INFINITY;
    if(aNegInf||bNegInf){ const Val&o=aNegInf?b:a; if(o.g) resolveGuard(aNegInf?ob:oa,o); if(opc==Instruction::FAdd) return vFP(-INFINITY,w); if(opc==Instruction::FSub) return vFP(aNegInf?-INFINITY:INFINITY,w); if(opc==Instruction::FDiv&&bNegInf) return vFP(0,w); throw PathEnd{"engine: -inf arithmetic"}; }
    if(!isFPv(a)||!isFPv(b)) throw PathEnd{"engine: fp op on non-fp value"};
    T ta,ga,tb,gb; toReal(a,ta,ga); toReal(b,tb,gb);
    switch(opc){
      case Instruction::FAdd: { T g= ga||gb? TM.bor(gOr0(ga),gOr0(gb)):nullptr; return vReal(TM.radd(ta,tb),g,w); }
      case Instruction::FSub: { if(gb){ if(gb==TM.tTrue){ if(ga) resolveGuard(oa,a); return vFP(-INFINITY,w);} resolveGuard(ob,b); } return vReal(TM.rsub(ta,tb),ga,w); }
      case Instruction::FMul: {
        if(ga||gb){ // positive finite constant times guarded value
          if(ga&&!gb&&Terms::isC(tb)&&Terms::cv(tb)>0) return vReal(TM.rmul(ta,tb),ga,w);
          if(gb&&!ga&&Terms::isC(ta)&&Terms::cv(ta)>0) return vReal(TM.rmul(ta,tb),gb,w);
          if(ga&&gb&&same(a,b)) return vReal(TM.rmul(ta,tb),ga,w);
          if(ga&&ga!=TM.tTrue) resolveGuard(oa,a); if(gb&&gb!=TM.tTrue) resolveGuard(ob,b);
          int sg= ga&&gb?1: ga?signOf(s,ob,b):signOf(s,oa,a); return vFP(sg>0?INFINITY:sg<0?-INFINITY:NAN,w); }
        return vReal(TM.rmul(ta,tb),nullptr,w); }
      case Instruction::FDiv: {
        if(gb){ if(gb!=TM.tTrue) resolveGuard(ob,b); if(ga) { if(ga!=TM.tTrue) resolveGuard(oa,a); return vFP(NAN,w);} return vFP(0,w); }
        if(Terms::isC(tb)){ if(Terms::cv(tb)==0){ if(ga) resolveGuard(oa,a); // x/0
            int sg=signOf(s,oa,a); return vFP(sg>0?INFINITY:sg<0?-INFINITY:NAN,w); }
          if(ga&&Terms::cv(tb)<0) resolveGuard(oa,a); return vReal(TM.rdiv(ta,tb),ga,w); }
        if(ga) { if(ga!=TM.tTrue) resolveGuard(oa,a); int sg=signOf(s,ob,b); return vFP(sg>=0?INFINITY:-INFINITY,w);} 
        T z=TM.req0(tb); if(z!=TM.tFalse&&SV->feasible(s.pc,z)) forkZero(s,ob,b);
        return vReal(TM.rdiv(ta,tb),nullptr,w); }
      default: throw PathEnd{"engine: frem on symbolic"}; }
  }
  [[noreturn]] void forkZero(State&s,const Opnd&o,const Val&v){ T z=TM.req0(v.t); Resolve r; r.reg=o.reg; r.alts.push_back({z,vFP(0,v.w)}); r.alts.push_back({TM.bnot(z),v}); if(o.reg<0) throw PathEnd{"engine: forkZero const"}; throw r; }
  // sign of a finite value on this path; forks when the path allows several
  int signOf(State&s,const Opnd&o,const Val&v){ if(v.k==VFP) return v.d>0?1:v.d<0?-1:0; T z=TM.req0(v.t), n=TM.rlt0(v.t,false), p=TM.bnot(TM.rlt0(v.t,true)); bool fz=z!=TM.tFalse&&SV->feasible(s.pc,z), fn=SV->feasible(s.pc,n), fp=SV->feasible(s.pc,p);
    if(fz+fn+fp==1) return fz?0:fn?-1:1; Resolve r; r.reg=o.reg; r.alts.push_back({z,vFP(0,v.w)}); r.alts.push_back({n,v}); r.alts.push_back({p,v}); throw r; }
  Val fcmp(State&s,Ins&x,int pred,const Opnd&oa,const Opnd&ob){
    const Val&a=op(s,oa),&b=op(s,ob);
    if(a.k==VUndef||b.k==VUndef) return Val();
    bool nan=(a.k==VFP&&std::isnan(a.d))||(b.k==VFP&&std::isnan(b.d));
    bool ord= !(pred&8);
    if(nan) return vInt(!ord||pred==FCmpInst::FCMP_TRUE,1);
    if(pred==FCmpInst::FCMP_ORD) return vInt(1,1); if(pred==FCmpInst::FCMP_UNO) return vInt(0,1);
    int rel=pred&7; // bit0 eq, bit1 gt, bit2 lt
    if(a.k==VFP&&b.k==VFP){ bool r=((rel&1)&&a.d==b.d)||((rel&2)&&a.d>b.d)||((rel&4)&&a.d<b.d); return vInt(r,1); }
    if(a.k==VFP&&a.d==-INFINITY) return vInt((rel&4)!=0,1); if(b.k==VFP&&b.d==-INFINITY) return vInt((rel&2)!=0,1);
    if(!isFPv(a)||!isFPv(b)) throw PathEnd{"engine: fcmp on non-fp"};
    T ta,ga,tb,gb; toReal(a,ta,ga); toReal(b,tb,gb); ga=gOr0(ga); gb=gOr0(gb);
    auto lt=[&](){ return TM.band(TM.bnot(ga),TM.bor(gb,TM.rlt(ta,tb))); }; auto gt=[&](){ return TM.band(TM.bnot(gb),TM.bor(ga,TM.rlt(tb,ta))); };
    auto eq=[&](){ return TM.bor(TM.band(ga,gb),TM.band(std::vector<T>{TM.bnot(ga),TM.bnot(gb),TM.req(ta,tb)})); };
    T r; switch(rel){ case 0: r=TM.tFalse; break; case 1: r=eq(); break; case 2: r=gt(); break; case 3: r=TM.bnot(lt()); break; case 4: r=lt(); break; case 5: r=TM.bnot(gt()); break; case 6: r=TM.bnot(eq()); break; default: r=TM.tTrue; }
    return vBool(r); }
  Val icmp(int pred,const Val&a,const Val&b){
    if(a.k==VUndef||b.k==VUndef) return Val();
    if(a.k==VInt&&b.k==VInt){ int64_t x=Terms::sx(a.u,a.w),y=Terms::sx(b.u,b.w); bool r=false; switch(pred){ case CmpInst::ICMP_EQ: r=a.u==b.u; break; case CmpInst::ICMP_NE: r=a.u!=b.u; break; case CmpInst::ICMP_UGT: r=a.u>b.u; break; case CmpInst::ICMP_UGE: r=a.u>=b.u; break; case CmpInst::ICMP_ULT: r=a.u<b.u; break; case CmpInst::ICMP_ULE: r=a.u<=b.u; break; case CmpInst::ICMP_SGT: r=x>y; break; case CmpInst::ICMP_SGE: r=x>=y; break; case CmpInst::ICMP_SLT: r=x<y; break; case CmpInst::ICMP_SLE: r=x<=y; break; } return vInt(r,1); }
    T x=toBV(a),y=toBV(b); if(!x||!y) throw PathEnd{"engine: icmp on real"};
    T r; switch(pred){ case CmpInst::ICMP_EQ: r=TM.bveq(x,y); break; case CmpInst::ICMP_NE: r=TM.bnot(TM.bveq(x,y)); break; case CmpInst::ICMP_UGT: r=TM.bvlt(false,y,x); break; case CmpInst::ICMP_UGE: r=TM.bnot(TM.bvlt(false,x,y)); break; case CmpInst::ICMP_ULT: r=TM.bvlt(false,x,y); break; case CmpInst::ICMP_ULE: r=TM.bnot(TM.bvlt(false,y,x)); break; case CmpInst::ICMP_SGT: r=TM.bvlt(true,y,x); break; case CmpInst::ICMP_SGE: r=TM.bnot(TM.bvlt(true,x,y)); break; case CmpInst::ICMP_SLT: r=TM.bvlt(true,x,y); break; default: r=TM.bnot(TM.bvlt(true,y,x)); break; }
    return vBool(r); }
  Val ibin(State&s,Ins&x,unsigned opc,const Opnd&oa,const Opnd&ob,int w){
    const Val&a=op(s,oa),&b=op(s,ob);
    bool div= opc==Instruction::UDiv||opc==Instruction::SDiv||opc==Instruction::URem||opc==Instruction::SRem;
    if(div){ if(b.k==VUndef) throw Violation{"uninit","division by uninitialised value"}; if(b.k==VInt&&b.u==0) throw Violation{"arith","integer division by zero"}; if(b.k==VBV&&!(TM.isK(b.t))){ T z=TM.bveq(b.t,TM.bvc(0,w)); if(SV->feasible(s.pc,z)){ if(SV->feasible(s.pc,TM.bnot(z))){ Resolve r; r.reg=ob.reg; r.alts.push_back({z,vInt(0,w)}); T nz=TM.bnot(z); r.alts.push_back({nz,b}); bool already=false; for(T c:s.pc) if(c==nz) already=true; if(!already) throw r; } else throw Violation{"arith","integer division by zero"}; } }
      if((opc==Instruction::SDiv||opc==Instruction::SRem)&&a.k==VInt&&b.k==VInt&&b.u==Terms::mask(w)&&a.u==(1ull<<(w-1))) throw Violation{"arith","signed division overflow"}; }
    if(a.k==VUndef||b.k==VUndef){ if(w==1){ if(opc==Instruction::And&&((a.k==VInt&&!a.u)||(b.k==VInt&&!b.u))) return vInt(0,1); if(opc==Instruction::Or&&((a.k==VInt&&a.u)||(b.k==VInt&&b.u))) return vInt(1,1);} return Val(); }
    if(a.k==VReal||b.k==VReal||a.k==VMixed||b.k==VMixed) { 
      // mixed value: extraction of high part by lshr
      if(opc==Instruction::LShr&&a.k==VMixed&&b.k==VInt&&b.u%8==0){ AggV*n=new AggV; uint64_t skip=b.u/8; uint64_t tot=0; for(size_t i=0;i<a.a->e.size();i++){ if(tot>=skip){ n->e.push_back(a.a->e[i]); n->sz.push_back(a.a->sz[i]); } else if(tot+a.a->sz[i]>skip) throw PathEnd{"engine: mixed shift"}; tot+=a.a->sz[i]; } n->e.push_back(vInt(0,8*skip>64?64:8*skip)); n->sz.push_back(skip); Val v; v.k=VMixed; v.w=w; v.a=n; return v; }
      throw PathEnd{"engine: int op on real/mixed"}; }
    Op o; switch(opc){ case Instruction::Add: o=Op::BvAdd; break; case Instruction::Sub: o=Op::BvSub; break; case Instruction::Mul: o=Op::BvMul; break; case Instruction::UDiv: o=Op::BvUDiv; break; case Instruction::SDiv: o=Op::BvSDiv; break; case Instruction::URem: o=Op::BvURem; break; case Instruction::SRem: o=Op::BvSRem; break; case Instruction::Shl: o=Op::BvShl; break; case Instruction::LShr: o=Op::BvLShr; break; case Instruction::AShr: o=Op::BvAShr; break; case Instruction::And: o=Op::BvAnd; break; case Instruction::Or: o=Op::BvOr; break; default: o=Op::BvXor; }
    if(a.k==VInt&&b.k==VInt){ uint64_t r=0; Terms::evalBin(o,a.u,b.u,w,r); return vInt(r,w); }
    if(w==1){ T p=toBool(a),q=toBool(b); switch(opc){ case Instruction::And: return vBool(TM.band(p,q)); case Instruction::Or: return vBool(TM.bor(p,q)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return vBool(TM.bxor(p,q)); case Instruction::Mul: return vBool(TM.band(p,q)); default: throw PathEnd{"engine: i1 op"}; } }
    return vBV(TM.bvbin(o,toBV(a),toBV(b))); }
  // elementwise application for vectors
  template<class F> Val vec1(const Val&a,F f){ if(a.k!=VAgg) return f(a); vector<Val> e; for(auto&x:a.a->e) e.push_back(f(x)); return vAgg(e); }
  Val castOp(State&s,Ins&x){
    const Val v=op(s,x.o[0]); Type*dt=x.ty; Type*st=x.I->getOperand(0)->getType(); int w=x.w;
    if(v.k==VUndef) return v;
    switch(x.op){
      case Instruction::Trunc: if(v.k==VInt) return vInt(v.u,w); if(v.k==VMixed){ uint64_t n=w/8; if(v.a->sz[0]==n){ return v.a->e[0]; } AggV*a=new AggV; uint64_t t=0; for(size_t i=0;i<v.a->e.size()&&t<n;i++){ a->e.push_back(v.a->e[i]); a->sz.push_back(v.a->sz[i]); t+=v.a->sz[i]; } if(t!=n) throw PathEnd{"engine: mixed trunc"}; Val r; r.k=VMixed; r.w=w; r.a=a; return r; } if(w==1) return vBool(TM.bveq(TM.extract(toBV(v),0,1),TM.bvc(1,1))); return vBV(TM.extract(toBV(v),0,w));
      case Instruction::ZExt: if(v.k==VInt) return vInt(v.u,w); if(v.k==VBool) return vBV(TM.b2bv(v.t,w)); if(v.k==VReal){ Val r; r.k=VMixed; AggV*a=new AggV; a->e={v,vInt(0,w-v.w)}; a->sz={(uint8_t)(v.w/8),(uint8_t)((w-v.w)/8)}; r.a=a; r.w=w; return r; } return vBV(TM.zext(toBV(v),w));
      case Instruction::SExt: if(v.k==VInt) return vInt((uint64_t)Terms::sx(v.u,v.w),w); if(v.k==VBool) return vBV(TM.bvite(v.t,TM.bvc(~0ull,w),TM.bvc(0,w))); return vBV(TM.sext(toBV(v),w));
      case Instruction::FPTrunc: case Instruction::FPExt: if(v.k==VFP) return vFP(v.d,w); { Val r=v; r.w=w; return r; }
      case Instruction::SIToFP: case Instruction::UIToFP: { bool sg=x.op==Instruction::SIToFP; if(v.k==VInt) return vFP(sg?(double)Terms::sx(v.u,v.w):(double)v.u,w); T b=toBV(v); std::function<T(T)> rec=[&](T t)->T{ if(Terms::isK(t)) return TM.rc(sg?mpq_class((long)Terms::sx(t->u,t->width)):Solver::fromU(t->u)); if(t->op==Op::BvIte) return TM.rite(t->k[0],rec(t->k[1]),rec(t->k[2])); return TM.bv2r(t,sg); }; return vReal(rec(b),nullptr,w); }
      case Instruction::FPToSI: case Instruction::FPToUI: { if(v.k==VFP){ if(!(v.d>-9.3e18&&v.d<1.85e19)) return vInt(1ull<<(w-1),w); if(x.op==Instruction::FPToSI){ if(w==32&&!(v.d>-2147483649.0&&v.d<2147483648.0)) return vInt(0x80000000u,32); return vInt((uint64_t)(int64_t)v.d,w);} return vInt((uint64_t)v.d,w); } if(v.g) resolveGuard(x.o[0],v);
          // the integers the value may become; the value itself stays what it is, only the path fixes its integer
          bool sg=x.op==Instruction::FPToSI; int bits=w>64?64:w; mpq_class two=1; for(int i=0;i<(sg?bits-1:bits);i++) two*=2; mpq_class lowest= sg? mpq_class(-two) : mpq_class(0);
          T outside=TM.bor(TM.rle(v.t,TM.rc(lowest-1)),TM.rle(TM.rc(two),v.t)); Resolve r; r.reg=x.o[0].reg; vector<T> pc=s.pc; uint64_t only=0; bool rest=false;
          for(int i=0;;i++){ Model m; int c=SV->check(pc,ABS,5000,&m,false); if(c==0) break; if(c<0) throw PathEnd{"engine: real to int conversion"}; if(i==24){ rest=true; break; }
            std::unordered_map<uint32_t,Solver::EV> memo; mpq_class q; if(!SV->evalQ(v.t,m,q,memo)) throw PathEnd{"engine: real to int conversion (eval)"}; mpz_class z; mpz_tdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); T in;
            if(q<=lowest-1||q>=two){ in=outside; only=1ull<<(bits-1); }
            else { if(z==0) in=TM.band(TM.rlt(TM.rc(-1),v.t),TM.rlt(v.t,TM.rc(1))); else if(z>0) in=TM.band(TM.rle(TM.rc(mpq_class(z)),v.t),TM.rlt(v.t,TM.rc(mpq_class(z+1)))); else in=TM.band(TM.rle(v.t,TM.rc(mpq_class(z))),TM.rlt(TM.rc(mpq_class(z-1)),v.t)); mpz_class az=abs(z); uint64_t u=0; mpz_export(&u,nullptr,-1,8,0,0,az.get_mpz_t()); only= z<0? (uint64_t)-(int64_t)u : u; }
            r.alts.push_back({in,v}); pc.push_back(TM.bnot(in)); }
          if(r.alts.empty()) throw PathEnd{"infeasible"}; if(r.alts.size()==1&&!rest) return vInt(w>=64?only:only&((1ull<<w)-1),w);
          if(rest){ if(++s.conversions>2) throw PathEnd{"engine: real to int conversion"}; vector<T> no; for(auto&a:r.alts) no.push_back(TM.bnot(a.first)); r.alts.push_back({TM.band(no),v}); }
          throw r; }
      case Instruction::PtrToInt: case Instruction::IntToPtr: if(v.k==VInt) return vInt(v.u,w); if(v.k==VBV){ if(v.w==w) return v; return vBV(v.w<w?TM.zext(v.t,w):TM.extract(v.t,0,w)); } return v;
      case Instruction::BitCast: { if(dt==st) return v; bool df=isFPt(dt),sf=isFPt(st); if(dt->isVectorTy()||st->isVectorTy()){ 
          // via byte buffer
          Obj tmp(DL->getTypeStoreSize(st),OModel); storeIn(&tmp,0,v,st); return loadIn(&tmp,0,dt); }
        if(df&&!sf){ if(v.k==VInt){ Val r; r.k=VFP; r.w=w; if(w==64){ double d; memcpy(&d,&v.u,8); r.d=d; } else { float f; uint32_t q=v.u; memcpy(&f,&q,4); r.d=f; } return r; } if(v.k==VReal) return v; throw PathEnd{"engine: bitcast"}; }
        if(sf&&!df){ if(v.k==VFP){ uint64_t u=0; if(w==64) memcpy(&u,&v.d,8); else { float f=v.d; memcpy(&u,&f,4);} return vInt(u,w); } return v; }
        return v; }
      default: return v; } }
  Val fabsV(const Val&v){ if(v.k==VFP) return vFP(std::fabs(v.d),v.w); if(v.k==VUndef) return v; return vReal(TM.rminmax(false,v.t,TM.rneg(v.t)),v.g,v.w); }
  Val sqrtV(State&s,const Opnd&o){ const Val v=op(s,o); if(v.k==VUndef) return v; if(v.k==VFP) return vFP(v.w==32?std::sqrt((float)v.d):std::sqrt(v.d),v.w);
    if(!v.t->nonneg){ T neg=TM.rlt0(v.t,false); T ng=v.g?TM.band(TM.bnot(v.g),neg):neg; if(SV->feasible(s.pc,ng)){ T nn=TM.bnot(ng); bool have=false; for(T c:s.pc) if(c==nn) have=true; if(!have){ Resolve r; r.reg=o.reg; r.alts.push_back({ng,vFP(NAN,v.w)}); r.alts.push_back({nn,v}); throw r; } } }
    return vReal(TM.rsqrt(v.t),v.g,v.w); }
  Val powV(State&s,const Opnd&oa,const Opnd&ob){ const Val&a=op(s,oa),&b=op(s,ob); if(a.k==VUndef||b.k==VUndef) return Val(); if(a.k==VFP&&b.k==VFP) return vFP(std::pow(a.d,b.d),a.w); if(b.k!=VFP) throw PathEnd{"engine: pow with symbolic exponent"};
    if(b.d==2) return vReal(TM.rmul(a.t,a.t),a.g,a.w); if(b.d==1) return a; if(b.d==0) return vFP(1,a.w); if(b.d==0.5) return sqrtV(s,oa); if(b.d==3){ return vReal(TM.rmul(TM.rmul(a.t,a.t),a.t),a.g,a.w);} throw PathEnd{"engine: pow exponent"}; }
  Val minmaxV(State&s,bool mn,const Val&a,const Val&b){ if(a.k==VUndef||b.k==VUndef) return Val(); if(a.k==VFP&&b.k==VFP) return vFP(mn?std::fmin(a.d,b.d):std::fmax(a.d,b.d),a.w); if(a.k==VFP&&std::isnan(a.d)) return b; if(b.k==VFP&&std::isnan(b.d)) return a; if(a.k==VFP&&a.d==-INFINITY) return mn?a:b; if(b.k==VFP&&b.d==-INFINITY) return mn?b:a;
    T ta,ga,tb,gb; toReal(a,ta,ga); toReal(b,tb,gb); ga=gOr0(ga); gb=gOr0(gb); T c= mn? TM.band(TM.bnot(ga),TM.bor(gb,TM.rle(ta,tb))) : TM.bor(ga,TM.band(TM.bnot(gb),TM.rle(tb,ta))); Val r; mergeVal(c,a,b,r); return r; }

  // control flow
  struct Stop{}; 
  bool gotoBlk(State&s,int to){ // returns true if this is a scheduling point
    Frame&f=s.st.back(); Blk&b=f.f->blks[to]; 
    if(b.nphi){ static vector<Val> tmp; tmp.clear(); for(int j=0;j<b.nphi;j++){ Ins&p=b.ins[j]; size_t q=0; while(q<p.succ.size()&&p.succ[q]!=f.bb) q++; tmp.push_back(p.o[q].reg>=0?f.r[p.o[q].reg]:p.o[q].c); } for(int j=0;j<b.nphi;j++) f.r[b.ins[j].dst]=tmp[j]; }
    // loop tracking
    size_t n=b.loops.size(); 
    size_t common=0; while(common<n&&common<f.loops.size()&&f.loops[common].first==(b.loops[common]>>1)) common++;
    bool back=false;
    if(common<f.loops.size()) f.loops.resize(common);
    if(n&&(b.loops[n-1]&1)){ if(common==n) { f.loops[n-1].second++; back=true; } }
    for(size_t i=common;i<n;i++) f.loops.push_back({b.loops[i]>>1,0});
    (void)back;
    f.prev=f.bb; f.bb=to; f.ip=b.nphi;
    if(!b.visited){ b.visited=true; noteFuncs(b); }
    return b.join; }
  void noteFuncs(Blk&b){ for(Ins&x:b.ins) if(const DebugLoc&d=x.I->getDebugLoc()) for(const DILocation*l=d.get();l;l=l->getInlinedAt()){ if(auto*sp=l->getScope()->getSubprogram()){ string fn=sp->getFilename().str(); string full=fn.size()&&fn[0]=='/'?fn:(sp->getDirectory().str()+"/"+fn); if(repoPrefix.size()&&full.find(repoPrefix)==0){ string nm=full.substr(repoPrefix.size())+"::"; if(auto*ct=dyn_cast_or_null<DICompositeType>(sp->getScope())) nm+=ct->getName().str()+"::"; funcsSeen.insert(nm+sp->getName().str()); } } } }
  vector<int> posKey(State&s){ vector<int> k; for(size_t i=0;i<s.st.size();i++){ Frame&f=s.st[i]; Blk&b=f.f->blks[f.bb]; k.push_back(f.f->id); for(size_t j=0;j<b.loops.size();j++){ k.push_back(b.loopOrd[j]); k.push_back(f.loops[j].second); } k.push_back(b.ord); k.push_back(f.ip); } return k; }
  int pinCtr=0;
  void enqueue(State*s){ auto k=posKey(*s); if(s->pin){ k.push_back(s->pin); s->pin=0; } Q.insert({std::make_tuple(s->choiceKey,k,s->sig),s}); }
  void pushFrame(State&s,const Function*F,const vector<Val>&args){ Fn*f=fn(F); if(s.st.size()>400) throw Violation{"stack","runaway recursion"}; Frame fr; fr.f=f; fr.r.resize(f->nregs); for(size_t i=0;i<args.size()&&i<F->arg_size();i++) fr.r[i]=args[i]; fr.stackBase=s.stackNext; fr.bb=0; fr.ip=0; Blk&b=f->blks[0]; if(!b.visited){ b.visited=true; noteFuncs(b);} s.st.push_back(std::move(fr)); }
  void popFrame(State&s){ Frame&f=s.st.back(); for(uint32_t id:f.allocas) s.stack.slot(id).reset(); s.stackNext=f.stackBase; if(f.freeAfter){ uint64_t a=f.freeAfter; s.exc.erase(a); int r; uint32_t idx; int64_t off; split(a,r,idx,off); if(s.heap.get(idx)) heapFree(s,a,OExc); } s.st.pop_back(); }
  // returns true if scheduling point
  bool doRet(State&s,const Val&v,bool has){
    bool multi=s.st.back().f->nret>1; bool wasDtor=s.st.back().freeAfter!=0; popFrame(s); if(s.st.empty()) throw PathEnd{"done"}; if(wasDtor) return false;
    Frame&f=s.st.back(); Blk&b=f.f->blks[f.bb]; Ins&x=b.ins[f.ip]; 
    if(x.dst>=0&&has) f.r[x.dst]=v;
    if(x.op==Instruction::Invoke) return gotoBlk(s,x.succ[0])||multi;
    f.ip++; return multi; }
  // ---------- exceptions ----------
  map<uint64_t,const GlobalVariable*> tiByAddr;
  bool tiDerives(uint64_t t,uint64_t base){ if(t==base) return true; const GlobalVariable*G=nullptr; auto it=tiByAddr.find(t); if(it==tiByAddr.end()){ for(auto&p:gaddr) if(p.second==t) G=dyn_cast<GlobalVariable>(p.first); tiByAddr[t]=G; } else G=it->second; if(!G||!G->hasInitializer()) return false; auto*c=dyn_cast<ConstantStruct>(G->getInitializer()); if(!c) return false; if(c->getNumOperands()==3){ Val v=cst(c->getOperand(2)); return v.k==VInt&&tiDerives(v.u,base); } if(c->getNumOperands()>4){ for(unsigned i=4;i<c->getNumOperands();i+=2){ Val v=cst(c->getOperand(i)); if(v.k==VInt&&v.u>0x100000000ull&&tiDerives(v.u,base)) return true; } } return false; }
  // unwind from current top frame (its current instruction is the throwing call)
  bool unwind(State&s,uint64_t exc){
    uint64_t type=s.exc[exc].type;
    // phase 1: is there a handler?
    bool handler=false; for(size_t i=s.st.size();i-->0&&!handler;){ Frame&f=s.st[i]; Ins&x=f.f->blks[f.bb].ins[f.ip]; if(x.op!=Instruction::Invoke) continue; LandingPadInst*lp=cast<InvokeInst>(x.I)->getLandingPadInst(); for(unsigned j=0;j<lp->getNumClauses();j++) if(lp->isCatch(j)){ Constant*cl=lp->getClause(j); if(cl->isNullValue()||tiDerives(type,cst(cl).u)) handler=true; } }
    if(!handler) throw Violation{"terminate","uncaught exception of type "+tiName(type)+" terminates the program"};
    while(true){ Frame&f=s.st.back(); Ins&x=f.f->blks[f.bb].ins[f.ip]; if(x.op==Instruction::Invoke){ LandingPadInst*lp=cast<InvokeInst>(x.I)->getLandingPadInst(); long sel=-1; for(unsigned j=0;j<lp->getNumClauses()&&sel<0;j++) if(lp->isCatch(j)){ Constant*cl=lp->getClause(j); if(cl->isNullValue()){ sel=tiId(0); } else { uint64_t c=cst(cl).u; if(tiDerives(type,c)) sel=tiId(c); } } if(sel<0&&lp->isCleanup()) sel=0; 
          if(sel>=0){ int ub=x.succ[1]; bool sp=gotoBlk(s,ub); Frame&g=s.st.back(); Blk&b=g.f->blks[ub]; for(size_t q=b.nphi;q<b.ins.size();q++) if(b.ins[q].op==Instruction::LandingPad){ g.r[b.ins[q].dst]=vAgg({vInt(exc,64),vInt(sel,32)}); g.ip=q+1; break; } s.inflight=exc; return sp; } }
      popFrame(s); if(s.st.empty()) throw Violation{"terminate","uncaught exception"}; } }
  map<uint64_t,int> tiIds; int tiId(uint64_t a){ auto it=tiIds.find(a); if(it!=tiIds.end()) return it->second; int n=tiIds.size()+1; tiIds[a]=n; return n; }
  string tiName(uint64_t t){ for(auto&p:gaddr) if(p.second==t) return p.first->getName().str(); return "?"; }

  #include "builtins.hpp"

  // a floating-point load through a merged pointer is the merge of the values at its targets
  bool mergedLoad(State&s,Ins&x,Val&out){
    if(!x.ty->isDoubleTy()&&!x.ty->isFloatTy()) return false; const Val&v=op(s,x.o[0]); if(v.k!=VBV||v.t->op!=Op::BvIte||!TM.iteK(v.t)) return false;
    std::unordered_map<uint32_t,Val> memo; bool sym=false; // fixed values only: fork, so that they stay fixed
    std::function<bool(T)> rec=[&](T t)->bool{ if(memo.count(t->id)) return true; Val r; if(Terms::isK(t)){ r=loadTy(s,t->u,x.ty); if(r.k==VReal) sym=true; } else { if(!rec(t->k[1])||!rec(t->k[2])) return false; if(!mergeVal(t->k[0],memo[t->k[1]->id],memo[t->k[2]->id],r)) return false; } if(r.k!=VFP&&r.k!=VReal) return false; memo[t->id]=r; return true; };
    try { if(!rec(v.t)||!sym) return false; } catch(Violation&){ return false; } catch(PathEnd&){ return false; }
    out=memo[v.t->id]; return true; }
  // executes one instruction; returns true when the state should be rescheduled
  bool step(State&s){
    Frame&f=s.st.back(); Blk&b=f.f->blks[f.bb]; Ins&x=b.ins[f.ip]; s.steps++; totalSteps++;
    auto set=[&](Val v){ f.r[x.dst]=v; f.ip++; };
    switch(x.op){
      case Instruction::Ret: if(x.o.empty()) return doRet(s,Val(),false); else { Val v=op(s,x.o[0]); return doRet(s,v,true); }
      case Instruction::Br: { if(x.o.empty()) return gotoBlk(s,x.succ[0]); const Val c=op(s,x.o[0]); if(c.k==VInt) return gotoBlk(s,x.succ[c.u&1?0:1]); if(c.k==VUndef) throw Violation{"uninit","branch on uninitialised value"}; T cond=toBool(c); bool ft=SV->feasible(s.pc,cond), ff= !ft||SV->feasible(s.pc,TM.bnot(cond)); if(!ft&&!ff) throw PathEnd{"infeasible"}; if(ft&&ff){ State*o=fork(s); addPc(*o,TM.bnot(cond)); if(x.o[0].reg>=0) o->st.back().r[x.o[0].reg]=vInt(0,1); gotoBlk(*o,x.succ[1]); enqueue(o); addPc(s,cond); if(x.o[0].reg>=0) f.r[x.o[0].reg]=vInt(1,1); gotoBlk(s,x.succ[0]); return true; } return gotoBlk(s,x.succ[ft?0:1]); }
      case Instruction::Switch: { const Val c=op(s,x.o[0]); if(c.k!=VInt){ concInt(s,x.o[0],"switch value"); } for(auto&p:x.gep) if((uint64_t)p.second==c.u) return gotoBlk(s,p.first); return gotoBlk(s,x.succ[0]); }
      case Instruction::Unreachable: throw Violation{"unreachable","reached undefined behaviour (unreachable code)"};
      case Instruction::FNeg: { const Val v=op(s,x.o[0]); if(v.k==VUndef){ set(v); return false;} if(v.k==VAgg) throw PathEnd{"engine: vector fneg"}; if(v.k==VFP){ set(vFP(-v.d,v.w)); return false;} if(v.g) resolveGuard(x.o[0],v); set(vReal(TM.rneg(v.t),nullptr,v.w)); return false; }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: if(x.ty->isVectorTy()) throw PathEnd{"engine: vector arithmetic"}; set(fbin(s,x,x.op,x.o[0],x.o[1],x.w)); return false;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor: if(x.ty->isVectorTy()||x.w>64) throw PathEnd{"engine: vector/wide int arithmetic"}; set(ibin(s,x,x.op,x.o[0],x.o[1],x.w)); return false;
      case Instruction::Alloca: { uint64_t n=x.imm*concInt(s,x.o[0],"alloca size"); uint32_t id=s.stackNext++; s.stack.slot(id)=std::make_shared<Obj>((uint32_t)n,OStack); f.allocas.push_back(id); set(vInt(mkAddr(RS,id),64)); return false; }
      case Instruction::Load: { Val pv; if(mergedLoad(s,x,pv)){ set(pv); return false; } uint64_t a=concInt(s,x.o[0],"pointer"); Val v=loadTy(s,a,x.ty); set(v); return false; }
      case Instruction::Store: { uint64_t a=concInt(s,x.o[1],"pointer"); storeTy(s,a,op(s,x.o[0]),x.ty); f.ip++; return false; }
      case Instruction::GetElementPtr: { const Val&b0=op(s,x.o[0]); bool sym=b0.k!=VInt; for(auto&g:x.gep) if(op(s,x.o[g.first]).k!=VInt) sym=true;
          if(!sym){ uint64_t a=b0.u+x.imm; for(auto&g:x.gep){ const Val&i=op(s,x.o[g.first]); a+=(uint64_t)(Terms::sx(i.u,i.w)*g.second); } set(vInt(a,64)); return false; }
          if(b0.k==VUndef){ set(Val()); return false; } for(auto&g:x.gep) if(op(s,x.o[g.first]).k==VUndef){ set(Val()); return false; }
          T a=toBV(b0); if(!a) throw PathEnd{"engine: gep on real"}; if(x.imm) a=TM.bvbin(Op::BvAdd,a,TM.bvc(x.imm,64)); for(auto&g:x.gep){ T i=toBV(op(s,x.o[g.first])); i=TM.sext(i,64); a=TM.bvbin(Op::BvAdd,a,TM.bvbin(Op::BvMul,i,TM.bvc((uint64_t)g.second,64))); } set(vBV(a)); return false; }
      case Instruction::ICmp: if(x.I->getOperand(0)->getType()->isVectorTy()) throw PathEnd{"engine: vector icmp"}; { const Val&a=op(s,x.o[0]),&bb=op(s,x.o[1]); set(icmp(x.pred,a,bb)); return false; }
      case Instruction::FCmp: set(fcmp(s,x,x.pred,x.o[0],x.o[1])); return false;
      case Instruction::Select: { const Val c=op(s,x.o[0]); if(c.k==VInt){ set(op(s,x.o[c.u&1?1:2])); return false; } if(c.k==VUndef){ set(Val()); return false; } Val r; int d=intDiffs; bool ok=mergeVal(toBool(c),op(s,x.o[1]),op(s,x.o[2]),r); intDiffs=d; if(ok){ set(r); return false; } Resolve q; q.reg=x.o[0].reg; q.alts={{toBool(c),vInt(1,1)},{TM.bnot(toBool(c)),vInt(0,1)}}; throw q; }
      case Instruction::ExtractValue: { Val v=op(s,x.o[0]); for(unsigned i:cast<ExtractValueInst>(x.I)->getIndices()){ if(v.k!=VAgg){ v=Val(); break; } v=v.a->e[i]; } set(v); return false; }
      case Instruction::InsertValue: { Val v=op(s,x.o[0]); auto idx=cast<InsertValueInst>(x.I)->getIndices(); std::function<Val(const Val&,Type*,unsigned)> rec=[&](const Val&a,Type*t,unsigned d)->Val{ if(d==idx.size()) return op(s,x.o[1]); vector<Val> e; if(a.k==VAgg) e=a.a->e; else e.resize(t->isStructTy()?t->getStructNumElements():t->getArrayNumElements()); e[idx[d]]=rec(e[idx[d]],t->isStructTy()?t->getStructElementType(idx[d]):t->getContainedType(0),d+1); return vAgg(e); }; set(rec(v,x.ty,0)); return false; }
      case Instruction::ExtractElement: { Val v=op(s,x.o[0]); uint64_t i=concInt(s,x.o[1]); set(v.k==VAgg?v.a->e[i]:Val()); return false; }
      case Instruction::InsertElement: { Val v=op(s,x.o[0]); uint64_t i=concInt(s,x.o[2]); vector<Val> e; if(v.k==VAgg) e=v.a->e; else e.resize(cast<FixedVectorType>(x.ty)->getNumElements()); e[i]=op(s,x.o[1]); set(vAgg(e)); return false; }
      case Instruction::ShuffleVector: { Val a=op(s,x.o[0]),b2=op(s,x.o[1]); auto*sv=cast<ShuffleVectorInst>(x.I); unsigned n=cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); vector<Val> e; for(int m:sv->getShuffleMask()){ if(m<0) e.push_back(Val()); else if((unsigned)m<n) e.push_back(a.k==VAgg?a.a->e[m]:Val()); else e.push_back(b2.k==VAgg?b2.a->e[m-n]:Val()); } set(vAgg(e)); return false; }
      case Instruction::Freeze: set(op(s,x.o[0])); return false;
      case Instruction::Fence: f.ip++; return false;
      case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(x.I); uint64_t a=concInt(s,x.o[0],"pointer"); Val old=loadTy(s,a,x.ty), v=op(s,x.o[1]); if(old.k!=VInt||v.k!=VInt) throw PathEnd{"engine: symbolic atomic"}; uint64_t n; switch(rm->getOperation()){ case AtomicRMWInst::Add: n=old.u+v.u; break; case AtomicRMWInst::Sub: n=old.u-v.u; break; case AtomicRMWInst::Xchg: n=v.u; break; default: throw PathEnd{"engine: atomicrmw"}; } storeTy(s,a,vInt(n,x.w),x.ty); set(old); return false; }
      case Instruction::LandingPad: throw PathEnd{"engine: stray landingpad"};
      case Instruction::Resume: { Val v=op(s,x.o[0]); uint64_t e=v.a->e[0].u; 
          // continue unwinding from caller
          popFrame(s); if(s.st.empty()) throw Violation{"terminate","uncaught exception"}; return unwind(s,e); }
      case Instruction::Call: case Instruction::Invoke: return doCall(s,x);
      default: if(x.I->isCast()){ if(x.ty->isVectorTy()&&x.op!=Instruction::BitCast) throw PathEnd{"engine: vector cast"}; set(castOp(s,x)); return false; } throw PathEnd{string("engine: unsupported instruction ")+x.I->getOpcodeName()}; }
  }
  bool doCall(State&s,Ins&x){
    const Function*F=x.callee;
    if(!F){ uint64_t a=concInt(s,x.o.back(),"function pointer"); auto it=addrFn.find(a); if(it==addrFn.end()){ // alias?
        if(a<0x100000000ull) throw Violation{"memory","call through null function pointer"}; throw Violation{"memory","call through wild function pointer"}; } F=it->second; }
    int nb; auto bi=builtinIdx.find(F); if(bi==builtinIdx.end()){ nb=findBuiltin(F); builtinIdx[F]=nb; } else nb=bi->second;
    if(nb>=0){ Val r; bool resched=callBuiltin(s,nb,F,x,r); if(resched==false){ Frame&f=s.st.back(); if(x.dst>=0) f.r[x.dst]=r; if(x.op==Instruction::Invoke) return gotoBlk(s,x.succ[0]); f.ip++; return false; } return ctlPoint; }
    if(F->isDeclaration()) throw PathEnd{"engine: unmodelled external function "+F->getName().str()};
    vector<Val> args; size_t n=x.o.size()-(x.callee?0:1); for(size_t i=0;i<n;i++) args.push_back(op(s,x.o[i]));
    pushFrame(s,F,args);
    if(!x.gep.empty()){ Frame&fr=s.st.back(); for(auto&p:x.gep){ uint32_t id=s.stackNext++; s.stack.slot(id)=std::make_shared<Obj>((uint32_t)p.second,OStack); fr.allocas.push_back(id); uint64_t na=mkAddr(RS,id); memCopy(s,na,args[p.first].u,p.second); fr.r[p.first]=vInt(na,64);} }
    return false; }
  unordered_map<const Function*,int> builtinIdx; bool ctlPoint=false;

  State* fork(State&s){ forks++; State*n=new State(s); n->id=++stateIds; return n; }
  int stateIds=0;

  // ---------- merging ----------
  struct DiffM { int region; uint32_t idx; uint32_t off; uint32_t n; Val v; };
  bool mergeObj(T c,const Obj&A,const Obj&B,int region,uint32_t idx,vector<DiffM>&out,const char**why){
    if(A.size!=B.size||A.kind!=B.kind||A.leakTag!=B.leakTag){ *why="objsize"; return false; }
    uint32_t n=A.size; bool noc=A.cells.empty()&&B.cells.empty();
    if(noc&&A.b==B.b&&A.st==B.st) return true;
    uint32_t p=0; 
    while(p<n){
      uint8_t sa=A.st[p],sb=B.st[p];
      if(sa==1&&sb==1&&A.b[p]==B.b[p]&&!(A.tag[p]||B.tag[p])) { p++; continue; }
      if(sa==0&&sb==0){ p++; continue; }
      uint32_t u=1; bool fp=false;
      uint8_t ta=A.tag[p],tb=B.tag[p]; if(sa==0) ta=0; if(sb==0) tb=0;
      if(sa==2) u=std::max<uint32_t>(u,A.cells.find(p)->second.n); if(sb==2) u=std::max<uint32_t>(u,B.cells.find(p)->second.n);
      if(ta) u=std::max<uint32_t>(u,ta&0x7f); if(tb) u=std::max<uint32_t>(u,tb&0x7f);
      if((ta&0x80)||(tb&0x80)) fp=true;
      if(u!=1&&u!=2&&u!=4&&u!=8){ u=1; }
      if(p+u>n) u=1;
      bool eq=true; for(uint32_t i=0;i<u&&eq;i++){ if(A.st[p+i]!=B.st[p+i]) eq=false; else if(A.st[p+i]==1&&A.b[p+i]!=B.b[p+i]) eq=false; else if(A.st[p+i]==2){ auto&ca=A.cells.find(p+i)->second; auto&cb=B.cells.find(p+i)->second; if(ca.n!=cb.n||!same(ca.v,cb.v)) eq=false; } }
      if(eq){ p+=u; continue; }
      if(sa==3||sb==3){ *why="cell alignment"; return false; }
      Type*t= fp? (u==8?Type::getDoubleTy(C):Type::getFloatTy(C)) : (Type*)IntegerType::get(C,8*u);
      if(fp&&u<4){ *why="tag"; return false; }
      Val va,vb,r; try { va=getScalar((Obj*)&A,p,u,t); vb=getScalar((Obj*)&B,p,u,t); } catch(PathEnd&){ *why="cells"; return false; }
      if(va.k==VUndef||vb.k==VUndef){ *why="undef"; return false; }
      if(!mergeVal(c,va,vb,r)){ *why="value"; return false; }
      out.push_back({region,idx,p,u,r}); p+=u; }
    return true; }
  map<string,long> mfWhy;
  bool tryMerge(State&A,State&B){
    auto fail=[&](const char*w){ mergeFail++; mfWhy[w]++; return false; };
    if(A.st.size()!=B.st.size()||A.sig!=B.sig) return fail("sig");
    if(A.choices!=B.choices||A.counters!=B.counters||A.caught!=B.caught||A.inflight!=B.inflight||A.exc.size()!=B.exc.size()||A.leakTag!=B.leakTag||A.ctl!=B.ctl) return fail("ctl");
    if(A.inputs.size()!=B.inputs.size()) return fail("inputs"); for(size_t i=0;i<A.inputs.size();i++) if(A.inputs[i].first!=B.inputs[i].first||!same(A.inputs[i].second,B.inputs[i].second)) return fail("inputs");
    for(auto&p:A.exc){ auto it=B.exc.find(p.first); if(it==B.exc.end()||!(it->second==p.second)) return fail("exc"); }
    size_t cp=0; while(cp<A.pc.size()&&cp<B.pc.size()&&A.pc[cp]==B.pc[cp]) cp++;
    vector<T> sa(A.pc.begin()+cp,A.pc.end()), sb(B.pc.begin()+cp,B.pc.end());
    T c=nullptr; for(T x:sa){ T nx=TM.bnot(x); for(T y:sb) if(y==nx){ c=x; break; } if(c) break; }
    T ca=TM.band(sa), cb=TM.band(sb); if(!c){ // also look for negated conjunction forms
      T ncb=TM.bnot(cb); (void)ncb; c=ca; }
    intDiffs=0; const char*why="?";
    struct DR{ size_t f; int r; Val v; }; vector<DR> dr; vector<DiffM> dm;
    for(size_t i=0;i<A.st.size();i++){ Frame&fa=A.st[i],&fb=B.st[i]; if(fa.f!=fb.f||fa.bb!=fb.bb||fa.ip!=fb.ip||fa.freeAfter!=fb.freeAfter||fa.allocas!=fb.allocas) return fail("frame"); Blk&b=fa.f->blks[fa.bb]; bool top=i+1==A.st.size()||A.st[i+1].freeAfter; int skip=top?-1:b.ins[fa.ip].dst; const vector<bool>&lv= top&&fa.ip==b.nphi? b.liveIn : liveAfter(*fa.f,b,top?fa.ip-1:fa.ip);
      bool useAll= top&&fa.ip!=b.nphi&&fa.ip==0;
      for(size_t r=0;r<fa.r.size();r++){ if(!useAll&&(!lv[r]||(int)r==skip)){ if(!same(fa.r[r],fb.r[r])) dr.push_back({i,(int)r,Val()}); continue; } if(same(fa.r[r],fb.r[r])) continue; Val v; if(!mergeVal(c,fa.r[r],fb.r[r],v)) return fail("reg"); dr.push_back({i,(int)r,v}); if(intDiffs>MAXINTDIFF) return fail("intdiff"); } }
    auto mergeStore=[&](Store&X,Store&Y,int region)->bool{ size_t n=std::max(X.c.size(),Y.c.size()); for(size_t k=0;k<n;k++){ Chunk*cx=k<X.c.size()?X.c[k].get():nullptr,*cy=k<Y.c.size()?Y.c[k].get():nullptr; if(cx==cy) continue; for(int j=0;j<CH;j++){ Obj*ox=cx?cx->o[j].get():nullptr,*oy=cy?cy->o[j].get():nullptr; if(ox==oy) continue; if(!ox||!oy){ why="liveness"; return false; } if(!mergeObj(c,*ox,*oy,region,k*CH+j,dm,&why)) return false; if(intDiffs>MAXINTDIFF){ why="intdiff"; return false; } } } return true; };
    if(!mergeStore(A.heap,B.heap,RH)||!mergeStore(A.glob,B.glob,RG)||!mergeStore(A.stack,B.stack,RS)) return fail(why);
    // apply into A
    for(auto&d:dr) A.st[d.f].r[d.r]=d.v;
    for(auto&d:dm){ Obj*o=region(A,d.region).mut(d.idx); putScalar(o,d.off,d.v,d.n); }
    A.heapNext=std::max(A.heapNext,B.heapNext); A.stackNext=std::max(A.stackNext,B.stackNext);
    A.pc.resize(cp); addPc(A,TM.bor(ca,cb)); A.steps=std::max(A.steps,B.steps); A.merged=true; merges++; return true; }

  // pairs of states that keep failing to merge are tried less and less often
  struct Back { int fails=0, skip=0; }; unordered_map<uint64_t,Back> back;
  static uint64_t pairKey(const State&a,const State&b){ uint32_t x=std::min(a.id,b.id),y=std::max(a.id,b.id); return (uint64_t)x<<32|y; }
  bool worthTrying(const State&a,const State&b){ auto it=back.find(pairKey(a,b)); if(it==back.end()||it->second.skip==0) return true; it->second.skip--; return false; }
  bool tried(const State&a,const State&b,bool ok){ if(ok) return true; if(back.size()>4000000) back.clear(); Back&k=back[pairKey(a,b)]; k.fails++; if(k.fails>2) k.skip=std::min(1<<std::min(k.fails-2,7),96); return false; }
  // ---------- main loop ----------
  void runState(State*s){
    try {
      while(true){
        bool sp=false;
        try { sp=step(*s); }
        catch(Resolve&r){ if(r.reg<0) throw PathEnd{"engine: cannot resolve constant operand"}; vector<std::pair<T,Val>> ok; for(auto&a:r.alts) if(SV->feasible(s->pc,a.first)) ok.push_back(a); if(ok.empty()) throw PathEnd{"infeasible"}; for(size_t i=1;i<ok.size();i++){ State*o=fork(*s); addPc(*o,ok[i].first); o->st.back().r[r.reg]=ok[i].second; o->pin=++pinCtr; enqueue(o); } addPc(*s,ok[0].first); s->st.back().r[r.reg]=ok[0].second; if(ok.size()>1){ s->pin=++pinCtr; sp=true; } }
        if(sp&&!Q.empty()){ enqueue(s); return; } s->pin=0;
        if((s->steps&0x3ff)==0){ if(s->steps>stepLimit) { violation(*s,"hang","step limit exceeded (possible endless loop)"); pathEnds["steplimit"]++; delete s; return; } if(elapsed()>timeLimit){ incomplete["time limit"]++; delete s; return; } }
      }
    } catch(Violation&v){ string msg=v.msg; violation(*s,v.kind,msg); pathEnds["violation"]++; paths++; delete s; }
    catch(PathEnd&p){ paths++; pathEnds[p.why]++; if(verbose>1) { fprintf(stderr,"path end: %s at %s\n",p.why.c_str(),s->st.empty()?"-":locOf(*s).c_str()); } if(p.why.compare(0,7,"engine:")==0){ incomplete[p.why+(s->st.empty()?"":" at "+locOf(*s)+" in "+s->st.back().f->name)]++; } delete s; }
  }
  void run(){
    State*s=new State; initGlobals(*s);
    // constructors
    vector<const Function*> ctors; if(auto*G=M->getGlobalVariable("llvm.global_ctors")) if(G->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(G->getInitializer())){ vector<std::pair<uint64_t,const Function*>> v; for(auto&o:ca->operands()){ auto*st=cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),cast<Function>(st->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) ctors.push_back(p.second); }
    for(auto*F:ctors){ pushFrame(*s,F,{}); try { while(true) step(*s); } catch(PathEnd&p){ if(p.why!="done"){ incomplete["constructor "+F->getName().str()+": "+p.why]++; return; } } catch(Violation&v){ violation(*s,v.kind,v.msg+" (in static constructor)"); return; } catch(Resolve&){ incomplete["symbolic constructor"]++; return; } }
    s->leakTag=0; s->steps=0;
    Function*E=M->getFunction(entry); if(!E){ fprintf(stderr,"no entry %s\n",entry.c_str()); exit(3); }
    pushFrame(*s,E,{}); enqueue(s);
    while(!Q.empty()){
      if(elapsed()>timeLimit){ incomplete["time limit"]+=Q.size(); break; }
      if(nviol>=maxViol) { incomplete["stopped after violations"]++; break; }
      liveMax=std::max<long>(liveMax,Q.size());
      if((long)Q.size()>maxStates){ incomplete["too many states"]+=Q.size(); break; }
      if((forks&63)==0){ struct rusage ru; getrusage(RUSAGE_SELF,&ru); if(ru.ru_maxrss/1024>memLimitMB){ incomplete["memory limit"]+=Q.size(); break; } }
      auto it=Q.begin(); State*a=it->second; auto key=it->first; Q.erase(it);
      if(!noMerge) { auto rg=Q.equal_range(key); for(auto i=rg.first;i!=rg.second;){ if(worthTrying(*a,*i->second)&&tried(*a,*i->second,tryMerge(*a,*i->second))){ delete i->second; i=Q.erase(i); } else ++i; } }
      runState(a);
    }
  }
};

static string slurp(const char*p){ std::ifstream f(p); std::stringstream ss; ss<<f.rdbuf(); return ss.str(); }
// Scalar locals become "uninitialised" again each time their scope is entered: promotion to registers would
// otherwise carry the value of the previous iteration into a variable that was never set in this one.
static int instrument(const char*in,const char*out){
  LLVMContext C; SMDiagnostic err; auto M=parseIRFile(in,err,C); if(!M){ err.print("vsym",errs()); return 3; }
  for(auto&F:*M){ vector<CallInst*> cs; for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallInst>(&I)) if(auto*f=c->getCalledFunction()) if(f->getIntrinsicID()==Intrinsic::lifetime_start) cs.push_back(c);
    for(auto*c:cs){ auto*a=dyn_cast<AllocaInst>(c->getArgOperand(1)->stripPointerCasts()); if(!a||a->isArrayAllocation()) continue; Type*t=a->getAllocatedType(); if(!t->isIntegerTy()&&!t->isFloatTy()&&!t->isDoubleTy()&&!t->isPointerTy()) continue;
      string n="vsi_undef_"; raw_string_ostream o(n); t->print(o); o.flush(); auto fc=M->getOrInsertFunction(n,FunctionType::get(t,false)); auto*f=cast<Function>(fc.getCallee()); f->setDoesNotAccessMemory(); f->setDoesNotThrow(); f->addFnAttr(Attribute::WillReturn);
      auto*u=CallInst::Create(fc,"",c->getNextNode()); auto*st=new StoreInst(u,a,u->getNextNode()); u->setDebugLoc(c->getDebugLoc()); st->setDebugLoc(c->getDebugLoc()); } }
  std::error_code ec; raw_fd_ostream os(out,ec); if(ec) return 3; WriteBitcodeToFile(*M,os); return 0; }
int main(int argc,char**argv){
  if(argc==4&&string(argv[1])=="--instrument") return instrument(argv[2],argv[3]);
  Engine E; string file; SV=new Solver(TM);
  for(int i=1;i<argc;i++){ string a=argv[i]; auto val=[&](){ return string(argv[++i]); };
    if(a=="--entry") E.entry=val(); else if(a=="--param"){ string v=val(); size_t p=v.find('='); E.params[v.substr(0,p)]=atol(v.c_str()+p+1); } else if(a=="--time") E.timeLimit=atof(val().c_str()); else if(a=="--steps") E.stepLimit=atoll(val().c_str()); else if(a=="--states") E.maxStates=atol(val().c_str()); else if(a=="--no-merge") E.noMerge=true; else if(a=="-v") E.verbose++; else if(a=="--repo") E.repoPrefix=val(); else if(a=="--nra") SV->nraTimeout=atoi(val().c_str()); else if(a=="--abs") SV->absTimeout=atoi(val().c_str()); else if(a=="--maxviol") E.maxViol=atoi(val().c_str()); else if(a=="--digits") E.maxDigits=atoi(val().c_str()); else if(a=="--exact") SV->exactVars=atoi(val().c_str()); else if(a=="--mem") E.memLimitMB=atol(val().c_str()); else file=a; }
  SMDiagnostic err; E.M=parseIRFile(file,err,E.C); if(!E.M){ err.print("vsym",errs()); return 3; } E.DL=&E.M->getDataLayout(); E.t0=std::chrono::steady_clock::now();
  E.run();
  auto mapj=[&](auto&m){ string r="{"; bool f=true; for(auto&p:m){ if(!f) r+=","; f=false; r+=Engine::js(p.first)+":"; std::ostringstream o; o<<p.second; string v=o.str(); bool num=!v.empty()&&v.find_first_not_of("0123456789-")==string::npos; r+= num? v : Engine::js(v); } return r+"}"; };
  string fs="["; bool ff=true; for(auto&x:E.funcsSeen){ if(!ff) fs+=","; ff=false; fs+=Engine::js(x); } fs+="]";
  auto&st=SV->st;
  string rj="{"; { bool f=true; for(auto&p:E.reach){ if(!f) rj+=","; f=false; rj+=Engine::js(p.first)+":"+p.second; } rj+="}"; }
  struct rusage ru; getrusage(RUSAGE_SELF,&ru);
  printf("{\"type\":\"summary\",\"steps\":%llu,\"forks\":%ld,\"merges\":%ld,\"mergeFail\":%ld,\"paths\":%ld,\"liveMax\":%ld,\"asserts\":%ld,\"proved\":%ld,\"trivial\":%ld,\"undecided\":%ld,\"violations\":%d,\"queries\":%ld,\"cacheHits\":%ld,\"modelHits\":%ld,\"assertQueries\":%ld,\"gridQueries\":%ld,\"nraQueries\":%ld,\"unknown\":%ld,\"exact\":%ld,\"exactUnknown\":%ld,\"solverMs\":%.1f,\"seconds\":%.2f,\"rssMB\":%ld,\"incomplete\":%s,\"pathEnds\":%s,\"undecidedMsgs\":%s,\"assertions\":%s,\"mergeFailWhy\":%s,\"reach\":%s,\"functions\":%s}\n",
    (unsigned long long)E.totalSteps,E.forks,E.merges,E.mergeFail,E.paths,E.liveMax,E.asserts,E.proved,E.trivially,E.undecided,E.nviol,st.queries,st.cacheHits,st.modelHits,st.assertQ,st.grid,st.nra,st.unknown,st.exact,st.exactUnknown,st.ms,E.elapsed(),(long)ru.ru_maxrss/1024,mapj(E.incomplete).c_str(),mapj(E.pathEnds).c_str(),mapj(E.undecidedMsgs).c_str(),mapj(E.assertCounts).c_str(),mapj(E.mfWhy).c_str(),rj.c_str(),fs.c_str());
  fflush(stdout); _exit(0);
}
