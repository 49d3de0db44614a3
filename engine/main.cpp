#include <map>
#include <sys/prctl.h>
// Symbolic executor for LLVM IR. See DESIGN.md.
#include "solver.hpp"
#include "mem.hpp"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Transforms/IPO/Internalize.h"
#include <set>
#include <deque>
#include <unordered_set>
#include <functional>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
using namespace llvm;
u32 Mem::uninitCounter=0;

static Solver SV;
static const DataLayout*DL;
static std::unique_ptr<Module> MOD;

// ---------------------------------------------------------------- program representation
enum DK : u8 { D_BIN, D_ICMP, D_FCMP, D_SELECT, D_LOAD, D_STORE, D_GEP, D_ALLOCA, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_ZEXT, D_SEXT, D_TRUNC, D_COPY, D_FPUN,
  D_UNREACH, D_LPAD, D_RESUME, D_RMW, D_CMPXCHG, D_BITCASTV, D_EXTRACT, D_INSERT, D_SHUF, D_NOP, D_UNSUP, D_SELECTN, D_BINN, D_FREM, D_FNEG };
struct Edge { u32 target; u32 c0, cn; };
struct DI { DK k; u8 sub; u16 w, w2; bool isInvoke; i32 dst,a,b,c; i64 imm; void*p; u32 x0,xn; Edge e1,e2; Instruction*I; };
struct SlotT { unsigned w; u64 off; };
struct State; struct Exec;
typedef bool (*Handler)(Exec&,State&,const DI&,Val*args,unsigned n,Val*ret);
struct FuncInfo { Function*F; std::string name; bool decoded=false, executed=false; Handler h=nullptr; u32 nregs=0, nargs=0; std::vector<DI> code; std::vector<i64> ext; u32 retN=0; std::vector<u32> retW; };
static std::vector<FuncInfo*> FUNCS; static std::map<Function*,FuncInfo*> FMAP;
static std::vector<Val> CPOOL; static std::map<GlobalVariable*,u64> GADDR;
static const u32 FUNC_OBJ=1;
static u64 funcAddr(FuncInfo*f){ for(size_t i=0;i<FUNCS.size();++i) if(FUNCS[i]==f) return ((u64)FUNC_OBJ<<32)|((i+1)*16); abort(); }
static std::map<FuncInfo*,u64> FADDR;
static FuncInfo*funcInfo(Function*F);
static Handler findHandler(const std::string&n);

[[noreturn]] static void fatal(const std::string&m);

static void flat(Type*T,std::vector<SlotT>&o,u64 base=0){
  if(T->isVoidTy()) return;
  if(T->isIntegerTy()){ o.push_back({T->getIntegerBitWidth(),base}); return; }
  if(T->isPointerTy()){ o.push_back({64,base}); return; }
  if(T->isFloatTy()){ o.push_back({32,base}); return; }
  if(T->isDoubleTy()){ o.push_back({64,base}); return; }
  if(auto*S=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();++i) flat(S->getElementType(i),o,base+L->getElementOffset(i)); return; }
  if(auto*A=dyn_cast<ArrayType>(T)){ u64 sz=DL->getTypeAllocSize(A->getElementType()); for(u64 i=0;i<A->getNumElements();++i) flat(A->getElementType(),o,base+i*sz); return; }
  if(auto*V=dyn_cast<FixedVectorType>(T)){ u64 sz=DL->getTypeSizeInBits(V->getElementType())/8; for(u64 i=0;i<V->getNumElements();++i) flat(V->getElementType(),o,base+i*sz); return; }
  if(T->isMetadataTy()||T->isTokenTy()||T->isLabelTy()){ return; }
  std::string s; raw_string_ostream os(s); T->print(os); fatal("unsupported type "+os.str());
}
static unsigned nslots(Type*T){ std::vector<SlotT> v; flat(T,v); return v.size(); }
static unsigned sw(Type*T){ std::vector<SlotT> v; flat(T,v); if(v.size()!=1) return v.empty()?0:v[0].w; return v[0].w; }
static u32 undefCnt=0;
static void constVals(Constant*C,std::vector<Val>&o);
static Val constScalar(Constant*C){ std::vector<Val> v; constVals(C,v); if(v.size()!=1) fatal("constScalar"); return v[0]; }
static void constVals(Constant*C,std::vector<Val>&o){
  Type*T=C->getType();
  if(auto*I=dyn_cast<ConstantInt>(C)){ const APInt&a=I->getValue(); if(a.getBitWidth()<=64) o.push_back(CV(a.getZExtValue())); else { Expr*e=nullptr; for(unsigned lo=0;lo<a.getBitWidth();lo+=64){ unsigned n=std::min(64u,a.getBitWidth()-lo); Expr*p=mkConst(a.extractBits(n,lo).getZExtValue(),n); e=e?mkConcat(p,e):p; } o.push_back(Val{0,e}); } return; }
  if(auto*F=dyn_cast<ConstantFP>(C)){ o.push_back(CV(F->getValueAPF().bitcastToAPInt().getZExtValue())); return; }
  if(isa<ConstantPointerNull>(C)){ o.push_back(CV(0)); return; }
  if(isa<UndefValue>(C)){ std::vector<SlotT> s; flat(T,s); for(auto&x:s){ if(x.w<=64) o.push_back(EV(mkVar("undef#"+std::to_string(undefCnt++),x.w,0,maskw(x.w)))); else o.push_back(Val{0,mkZExt(mkConst(0,1),x.w)}); } return; }
  if(isa<ConstantAggregateZero>(C)){ std::vector<SlotT> s; flat(T,s); for(auto&x:s){ (void)x; o.push_back(CV(0)); } return; }
  if(auto*D=dyn_cast<ConstantDataSequential>(C)){ for(unsigned i=0;i<D->getNumElements();++i) constVals(D->getElementAsConstant(i),o); return; }
  if(auto*A=dyn_cast<ConstantAggregate>(C)){ for(unsigned i=0;i<A->getNumOperands();++i) constVals(cast<Constant>(A->getOperand(i)),o); return; }
  if(auto*F=dyn_cast<Function>(C)){ FuncInfo*f=funcInfo(F); o.push_back(CV(FADDR[f])); return; }
  if(auto*A=dyn_cast<GlobalAlias>(C)){ constVals(A->getAliasee(),o); return; }
  if(auto*G=dyn_cast<GlobalVariable>(C)){ auto it=GADDR.find(G); if(it==GADDR.end()) fatal("global without address"); o.push_back(CV(it->second)); return; }
  if(auto*E=dyn_cast<ConstantExpr>(C)){
    switch(E->getOpcode()){
      case Instruction::GetElementPtr: { APInt off(64,0); auto*G=cast<GEPOperator>(E); if(!G->accumulateConstantOffset(*DL,off)) fatal("const gep"); Val b=constScalar(cast<Constant>(G->getPointerOperand())); o.push_back(CV(b.c+off.getSExtValue())); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::IntToPtr: case Instruction::PtrToInt: { Val b=constScalar(E->getOperand(0)); unsigned w=sw(T); if(w<64) b.c&=maskw(w); o.push_back(b); return; }
      case Instruction::Add: { Val a=constScalar(E->getOperand(0)),b=constScalar(E->getOperand(1)); o.push_back(CV((a.c+b.c)&maskw(sw(T)))); return; }
      case Instruction::Sub: { Val a=constScalar(E->getOperand(0)),b=constScalar(E->getOperand(1)); o.push_back(CV((a.c-b.c)&maskw(sw(T)))); return; }
      case Instruction::Trunc: { Val a=constScalar(E->getOperand(0)); o.push_back(CV(a.c&maskw(sw(T)))); return; }
      case Instruction::ICmp: { Val a=constScalar(E->getOperand(0)),b=constScalar(E->getOperand(1)); auto P=(CmpInst::Predicate)E->getPredicate(); u64 r; switch(P){case CmpInst::ICMP_EQ:r=a.c==b.c;break;case CmpInst::ICMP_NE:r=a.c!=b.c;break;case CmpInst::ICMP_ULT:r=a.c<b.c;break;case CmpInst::ICMP_UGT:r=a.c>b.c;break;default: fatal("const icmp");} o.push_back(CV(r)); return; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os); fatal("unsupported constant "+os.str());
}

// ---------------------------------------------------------------- states
struct Frame { FuncInfo*f; u32 pc; u32 base; i32 retDst; u32 allocaStart; };
struct Caught { u64 obj, ti; };
struct Thread { std::vector<Val> regs; std::vector<Frame> fr; std::vector<u32> allocas; u64 excObj=0, excTi=0; std::vector<Caught> caught; bool done=false; u8 wst=0; u64 waitMutex=0, waitCv=0; i32 waitJoin=-1; u64 tstate=0; bool released=false; u32 yields=0; };
struct Shadow { u32 wt=0, wc=0; std::vector<std::pair<u32,u32>> r, at; }; // last write (thread, clock), reads since then
struct OwnM { u64 addr; int owner; };
struct State {
  std::vector<Thread> th; u32 cur=0; Mem mem; std::vector<Expr*> pc; std::vector<Expr*> known; ModelP model; u64 icnt=0; u32 depth=0;
  std::vector<std::pair<u64,u64>> excTypes; std::vector<OwnM> mutexes; std::vector<u8> sched; u32 preempt=0; bool schedDone=false; u32 spurious=0;
  std::vector<std::pair<std::string,u64>> choices; u64 clock=1000;
  std::vector<u64> ompStack; u64 user[16]={0};
  std::vector<std::vector<u32>> vc; std::map<u64,std::vector<u32>> syncvc; std::shared_ptr<std::unordered_map<u64,Shadow>> shadow; // happens-before race detection
  State(){}
  State(const State&)=default;
  bool knows(Expr*e)const{ return std::binary_search(known.begin(),known.end(),e,[](Expr*a,Expr*b){return a->id<b->id;}); }
  void learn(Expr*e){ if(isC(e)) return; auto it=std::lower_bound(known.begin(),known.end(),e,[](Expr*a,Expr*b){return a->id<b->id;}); if(it!=known.end()&&*it==e) return; known.insert(it,e); }
  void addPC(Expr*e){ if(isC(e)) return; if(e->op==OAnd&&e->width==1){ addPC(e->a); addPC(e->b); learn(e); return; } if(!knows(e)){ pc.push_back(e); learn(e);} }
};

struct Stats { u64 paths=0, killed=0, forks=0, instrs=0, asserts=0, assertQueries=0, assumes=0, maxDepth=0, concretized=0; };
struct Viol { std::string kind,label,where; std::vector<std::pair<std::string,u64>> vals; std::vector<u8> sched; };
struct Opts { u64 maxInstr=200000000ull; double timeLimit=800; u32 workers=1; u64 maxViol=1; u32 preemptBound=2; u32 spuriousBound=0; u64 allocLimit=1ull<<26; u32 seed=1; bool verbose=false; u32 frontier=64; u64 maxPaths=~0ull; bool race=false; u64 maxIte=2048; u64 memLimitMB=3500; bool delay=false; bool forkStat=false; bool forkSelect=true; bool oneSched=false; };
static Opts O;

struct Exec {
  std::deque<State*> work; Stats st; std::vector<Viol> viols; std::set<std::string> reached; bool incomplete=false; std::string incReason; bool frontierMode=false; bool stop=false; double t0=nowS(); bool requeue=false; 
  std::vector<std::string> samples;
  void inc(const std::string&r){ if(!incomplete){ incomplete=true; incReason=r; } }

  std::map<std::string,u64> forkStat;
  std::string where(State&s){ Thread&t=s.th[s.cur]; std::string r; int n=0; for(size_t i=t.fr.size();i-->0&&n<6;++n){ Frame&f=t.fr[i]; r+= (r.empty()?"":" <- "); std::string loc; if(f.pc<f.f->code.size()&&f.f->code[f.pc].I){ if(auto&dl=f.f->code[f.pc].I->getDebugLoc()){ std::string fn=dl->getFilename().str(); size_t p=fn.rfind('/'); if(p!=std::string::npos) fn=fn.substr(p+1); loc=fn+":"+std::to_string(dl->getLine()); } } std::string d=demangle(f.f->name); if(d.size()>90) d=d.substr(0,90)+".."; r+=d+"@"+loc; } return r; }
  void violation(State&s,const std::string&kind,const std::string&label,ModelP m){
    Viol v; v.kind=kind; v.label=label; v.where=where(s);
    { std::map<std::string,size_t> at; for(int pass=0;pass<2;++pass) for(u32 i=0;i<EC.vars.size();++i){ const VarInfo&vi=EC.vars[i]; bool h=m&&i<m->has.size()&&m->has[i]; if(h!=(pass==1)) continue; u64 x=h?m->v[i]:vi.lo; auto it=at.find(vi.name); if(it==at.end()){ at[vi.name]=v.vals.size(); v.vals.push_back({vi.name,x}); } else v.vals[it->second].second=x; } } // a name may belong to several variables (different ranges on different paths): the one of this path wins
    for(auto&c:s.choices) v.vals.push_back(c);
    v.sched=s.sched;
    for(auto&w:viols) if(w.kind==v.kind&&w.label==v.label&&w.where==v.where) return;
    viols.push_back(v); if(O.verbose) fprintf(stderr,"violation %s %s %s\n",kind.c_str(),label.c_str(),v.where.c_str());
    if(viols.size()>=O.maxViol) stop=true;
  }
  State*clone(State&s){ if(O.forkStat) forkStat["clone "+where(s)]++; State*n=new State(s); n->depth++; ++st.forks; if(n->depth>st.maxDepth) st.maxDepth=n->depth; return n; }
  u64 ev(State&s,Expr*e){ return evalExpr(e,*s.model); }
  SRes query(State&s,Expr*extra,ModelP*out){ double t1=O.verbose?nowS():0; SRes r=SV.check(s.pc,extra,out,s.model.get()); if(O.verbose&&nowS()-t1>2) fprintf(stderr,"slow query %.1fs at %s\n",nowS()-t1,where(s).c_str()); return r; }
  // order reasoning: does the set of known comparisons imply a <= b (or a < b)? (transitive closure over syntactic terms)
  u64 orderHits=0;
  bool orderImplies(State&s,Expr*a,Expr*b,bool strict){
    // breadth-first search from a over edges x<=y / x<y ; state = (node, strict seen)
    if(a==b) return !strict;
    std::unordered_map<Expr*,std::vector<std::pair<Expr*,bool>>> adj;
    for(Expr*k:s.known){ if(k->op==OUlt) adj[k->a].push_back({k->b,true}); else if(k->op==OUle) adj[k->a].push_back({k->b,false}); else if(k->op==OEq){ adj[k->a].push_back({k->b,false}); adj[k->b].push_back({k->a,false}); } }
    if(adj.empty()) return false;
    std::vector<std::pair<Expr*,bool>> st={{a,false}}; std::unordered_map<Expr*,int> seen; seen[a]=1;
    while(!st.empty()){ auto x=st.back(); st.pop_back(); if(x.first==b&&(x.second||!strict)) return true; auto it=adj.find(x.first); if(it==adj.end()) continue; for(auto&e:it->second){ bool ns=x.second||e.second; int bit=ns?2:1; int&m=seen[e.first]; if((m&bit)||(m&2)) continue; m|=bit; st.push_back({e.first,ns}); } }
    return false; }
  // cheap sufficient test for: pc implies not e
  bool quickFalse(State&s,Expr*e,int d=3){
    if(isC(e)) return !e->val;
    if(s.knows(mkNot1(e))) return true;
    switch(e->op){
      case OUlt: return orderImplies(s,e->b,e->a,false);
      case OUle: return orderImplies(s,e->b,e->a,true);
      case OEq: return orderImplies(s,e->a,e->b,true)||orderImplies(s,e->b,e->a,true);
      case ONot1: { Expr*k=e->a; if(k->op==OEq) return orderImplies(s,k->a,k->b,false)&&orderImplies(s,k->b,k->a,false); if(d&&k->op==OAnd&&k->width==1) return quickFalse(s,mkNot1(k->a),d-1)&&quickFalse(s,mkNot1(k->b),d-1); if(d&&k->op==OOr&&k->width==1) return quickFalse(s,mkNot1(k->a),d-1)||quickFalse(s,mkNot1(k->b),d-1); return false; }
      case OAnd: return d&&(quickFalse(s,e->a,d-1)||quickFalse(s,e->b,d-1));
      case OOr: return d&&quickFalse(s,e->a,d-1)&&quickFalse(s,e->b,d-1);
      default: return false; } }
  // is e possibly true? (with model shortcut)
  SRes mayBe(State&s,Expr*e,ModelP*out){ if(isC(e)){ if(e->val){ if(out)*out=s.model; return S_SAT;} return S_UNSAT; } if(s.knows(e)){ if(out)*out=s.model; return S_SAT; } if(s.knows(mkNot1(e))) return S_UNSAT; if(ev(s,e)){ if(out)*out=s.model; return S_SAT; } if(quickFalse(s,e)){ ++orderHits; s.learn(mkNot1(e)); return S_UNSAT; } SRes r=query(s,e,out); if(r==S_UNKNOWN) inc("solver unknown"); if(r==S_UNSAT) s.learn(mkNot1(e)); return r; }
  bool mustBe(State&s,Expr*e){ return mayBe(s,mkNot1(e),nullptr)==S_UNSAT; }
  // concretise e: current state keeps the model value; a clone re-executes the instruction with e != value
  u64 concretize(State&s,Expr*e){ if(isC(e)) return e->val; u64 v=ev(s,e); if(O.forkStat) forkStat["conc "+where(s)]++; Expr*eq=mkBin(OEq,e,mkConst(v,e->width)); ModelP m; 
    if(s.knows(eq)) return v;
    Expr*ne=mkNot1(eq); SRes r=mayBe(s,ne,&m); ++st.concretized;
    if(r==S_SAT){ State*n=clone(s); n->addPC(ne); n->model=m; work.push_back(n); s.addPC(eq); } else s.learn(eq);
    return v; }
  u64 concVal(State&s,const Val&v){ return v.e? concretize(s,v.e):v.c; }

  // ---- memory access with checks; returns false if the state is dead
  bool err(State&s,const std::string&k,const std::string&l,ModelP m){ violation(s,k,l,m?m:s.model); return false; }
  bool chkAccess(State&s,u64 addr,u64 n,bool wr,u32&id,u64&off,const char*what){
    id=addr>>32; Obj*o=s.mem.get(id); u64 lo=addr&0xffffffffull;
    if(!o){ std::string k= id==0? "null-deref" : id==FUNC_OBJ? "access-to-code" : id<s.mem.next? "use-after-free":"wild-access"; return err(s,"memory",k+" "+what+" of "+std::to_string(n)+" bytes",nullptr); }
    if(lo<BASEOFF||lo-BASEOFF+n>o->size){ return err(s,"memory",std::string("out-of-bounds ")+what+" of "+std::to_string(n)+" bytes at offset "+std::to_string((i64)lo-(i64)BASEOFF)+" of object of size "+std::to_string(o->size),nullptr); }
    if(wr&&o->kind==OB_CONST) return err(s,"memory","write to constant",nullptr);
    off=lo-BASEOFF; return true; }
  bool raceOn=false; void acquire(State&s,u64 a); void release(State&s,u64 a); void noteAtomic(State&s,u64 addr,u64 n);
  void note(State&s,u32 id,u64 off,u64 n,bool wr);
  // resolve symbolic address to a single object (forking on others); false if state is dead
  bool resolve(State&s,Expr*a,u64 n,bool wr,u32&id,const char*what){
    for(;;){
      u64 v=ev(s,a); id=v>>32; Obj*o=s.mem.get(id); u64 lo=v&0xffffffffull;
      if(!o||lo<BASEOFF||lo-BASEOFF+n>o->size){ u32 i2;u64 o2; chkAccess(s,v,n,wr,i2,o2,what); return false; }
      if(wr&&o->kind==OB_CONST) return err(s,"memory","write to constant",nullptr);
      u64 b=mkAddr(id,0); if(a->umin>=b&&a->umax<=b+o->size-n) return true;
      Expr*in=mkBin(OUle,mkBin(OSub,a,mkConst(b,64)),mkConst(o->size-n,64));
      if(s.knows(in)) return true;
      ModelP m; SRes r=mayBe(s,mkNot1(in),&m);
      if(r==S_UNSAT||r==S_UNKNOWN){ s.learn(in); return true; }
      u64 v2=evalExpr(a,*m); u32 id2=v2>>32; Obj*o2=s.mem.get(id2); u64 lo2=v2&0xffffffffull;
      if(!o2||lo2<BASEOFF||lo2-BASEOFF+n>o2->size){ ModelP old=s.model; s.model=m; u32 i2;u64 f2; chkAccess(s,v2,n,wr,i2,f2,what); s.model=old; 
        if(stop) return false; /* keep going on the in-bounds side */ s.addPC(in); return true; }
      State*nS=clone(s); nS->addPC(mkNot1(in)); nS->model=m; work.push_back(nS); s.addPC(in); return true;
    }
  }
  struct Cand { std::vector<u64> offs; };
  void candidates(State&s,Expr*a,u32 id,u64 n,std::vector<u64>&offs,bool&tooMany){
    Obj*o=s.mem.get(id); u64 b=mkAddr(id,0); u64 lo=std::max(a->umin,b), hi=std::min(a->umax,b+o->size-n); tooMany=false;
    unsigned tz=ctzKnown(a); // alignment of the whole address
    u64 step=1; u64 start=lo;
    // a = base + x : use the alignment of x
    u64 rem=0; Expr*x=a; u64 k=0; if(a->op==OAdd&&isC(a->b)){ x=a->a; k=a->b->val; tz=ctzKnown(x); }
    if(tz>12) tz=12; step=1ull<<tz; rem=k&(step-1); start=lo; while((start&(step-1))!=rem) ++start;
    if(hi<start){ return; }
    if((hi-start)/step+1>O.maxIte){ tooMany=true; return; }
    for(u64 p=start;p<=hi;p+=step) offs.push_back(p-b);
  }
  void collectLeaves(Expr*e,std::set<u64>&out){ if(isC(e)){ out.insert(e->val); return;} collectLeaves(e->b,out); collectLeaves(e->c,out); }
  Expr*loadAt(State&s,u32 id,u64 off,unsigned nb){ u8 b[16]; Obj*o=s.mem.get(id); if(nb<=8&&s.mem.readConc(o,off,nb,b)){ u64 v=0; memcpy(&v,b,nb); return mkConst(v,8*nb);} return s.mem.readExpr(id,off,nb); }
  Expr*loadLeaves(State&s,Expr*e,unsigned nb,std::unordered_map<Expr*,Expr*>&memo){ auto it=memo.find(e); if(it!=memo.end()) return it->second; Expr*r; if(isC(e)) r=loadAt(s,e->val>>32,(e->val&0xffffffffull)-BASEOFF,nb); else r=mkIte(e->a,loadLeaves(s,e->b,nb,memo),loadLeaves(s,e->c,nb,memo)); memo[e]=r; return r; }
  bool leavesOk(State&s,Expr*a,u64 nb,bool wr){ if(!(a->op==OIte&&a->leaves)) return false; std::set<u64> lv; collectLeaves(a,lv); for(u64 v:lv){ Obj*o=s.mem.get(v>>32); u64 lo=v&0xffffffffull; if(!o||lo<BASEOFF||lo-BASEOFF+nb>o->size||(wr&&o->kind==OB_CONST)) return false; } return true; }
  // load nb bytes as expr/val of width w
  bool load(State&s,const Val&A,unsigned w,Val&out){
    unsigned nb=(w+7)/8;
    if(!A.e){ u32 id;u64 off; if(!chkAccess(s,A.c,nb,false,id,off,"read")) return false;
      if(raceOn) note(s,id,off,nb,false);
      Obj*o=s.mem.get(id);
      if(nb<=8){ u8 b[8]={0}; if(s.mem.readConc(o,off,nb,b)){ u64 v; memcpy(&v,b,8); out=CV(v&maskw(w)); return true; } }
      Expr*e=s.mem.readExpr(id,off,nb); if(e->width>w) e=mkExtract(e,0,w); out= w<=64? EV(e):Val{0,e}; return true; }
    Expr*a=A.e; Expr*r;
    if(leavesOk(s,a,nb,false)){ std::unordered_map<Expr*,Expr*> memo; r=loadLeaves(s,a,nb,memo); }
    else {
      u32 id; if(!resolve(s,a,nb,false,id,"read")) return false;
      std::vector<u64> offs; bool many; candidates(s,a,id,nb,offs,many);
      if(many){ u64 v=concretize(s,a); return load(s,CV(v),w,out); }
      if(offs.empty()) return err(s,"memory","no aligned candidate",nullptr);
      u64 b=mkAddr(id,0); std::vector<Expr*> vals; for(u64 o:offs) vals.push_back(loadAt(s,id,o,nb));
      r=vals.back(); Expr*last=vals.back();
      for(size_t i=offs.size()-1;i-->0;){ if(vals[i]==last) continue; // run boundary
        r=mkIte(mkBin(OUlt,a,mkConst(b+offs[i+1],64)),vals[i],r); last=vals[i]; }
    }
    if(r->width>w) r=mkExtract(r,0,w); out= w<=64? EV(r):Val{0,r}; return true;
  }
  void storeAt(State&s,u32 id,u64 off,const Val&v,unsigned w){ unsigned nb=(w+7)/8; if(!v.e){ u8 b[8]; memcpy(b,&v.c,8); if(nb<=8) s.mem.writeConc(id,off,b,nb); else { s.mem.writeConc(id,off,b,8); s.mem.fillRaw(id,off+8,0,nb-8);} return; } Expr*e=v.e; if(e->width<8*nb) e=mkZExt(e,8*nb); s.mem.writeExpr(id,off,e,nb); }
  bool store(State&s,const Val&A,unsigned w,const Val&v){
    unsigned nb=(w+7)/8;
    if(!A.e){ u32 id;u64 off; if(!chkAccess(s,A.c,nb,true,id,off,"write")) return false; if(raceOn) note(s,id,off,nb,true); storeAt(s,id,off,v,w); return true; }
    Expr*a=A.e; Expr*ve=TE(v,w); if(ve->width<8*nb) ve=mkZExt(ve,8*nb);
    if(leavesOk(s,a,nb,true)){ std::set<u64> lv; collectLeaves(a,lv); for(u64 p:lv){ u32 id=p>>32; u64 off=(p&0xffffffffull)-BASEOFF; Expr*old=loadAt(s,id,off,nb); s.mem.writeExpr(id,off,mkIte(mkBin(OEq,a,mkConst(p,64)),ve,old),nb); } return true; }
    u32 id; if(!resolve(s,a,nb,true,id,"write")) return false;
    std::vector<u64> offs; bool many; candidates(s,a,id,nb,offs,many);
    if(many){ u64 c=concretize(s,a); return store(s,CV(c),w,v); }
    u64 b=mkAddr(id,0);
    for(u64 o:offs){ Expr*old=loadAt(s,id,o,nb); Expr*n=mkIte(mkBin(OEq,a,mkConst(b+o,64)),ve,old); if(n!=old) s.mem.writeExpr(id,o,n,nb); }
    return true;
  }
  u64 alloc(State&s,u64 size,u8 kind,u8 fill){ return mkAddr(s.mem.add(newObj(size,kind,fill)),0); }
  bool freeAddr(State&s,u64 a){ if(!a) return true; u32 id=a>>32; Obj*o=s.mem.get(id); if(!o) return err(s,"memory",id&&id<s.mem.next?"double free":"free of invalid pointer",nullptr); if((a&0xffffffffull)!=BASEOFF||o->kind!=OB_HEAP) return err(s,"memory","free of invalid pointer",nullptr); s.mem.erase(id); return true; }

  // ---- control
  Val get(State&s,const Val*R,i32 op){ return op>=0? R[op]:CPOOL[~op]; }
  void takeEdge(State&s,const Edge&e){ Thread&t=s.th[s.cur]; Frame&f=t.fr.back(); if(e.cn){ Val*R=&t.regs[f.base]; const i64*x=&f.f->ext[e.c0]; Val tmp[64]; std::vector<Val> big; Val*T=tmp; if(e.cn>64){ big.resize(e.cn); T=big.data(); } for(u32 i=0;i<e.cn;++i) T[i]= x[2*i+1]>=0? R[x[2*i+1]]:CPOOL[~x[2*i+1]]; for(u32 i=0;i<e.cn;++i) R[x[2*i]]=T[i]; } f.pc=e.target; }
  void popFrame(State&s){ Thread&t=s.th[s.cur]; Frame&f=t.fr.back(); while(t.allocas.size()>f.allocaStart){ s.mem.erase(t.allocas.back()); t.allocas.pop_back(); } t.regs.resize(f.base); t.fr.pop_back(); }
  bool pushCall(State&s,FuncInfo*f,const Val*args,unsigned n,i32 retDst);
  bool unwind(State&s); // exception in excObj/excTi ; false if uncaught (violation recorded)
  bool throwExc(State&s,u64 obj,u64 ti){ Thread&t=s.th[s.cur]; t.excObj=obj; t.excTi=ti; s.excTypes.push_back({obj,ti}); return unwind(s); }
  void run(State*s);
  bool pathDead=false;
  bool kill(){ pathDead=true; return false; }
  bool onReturn(State&s,i32 code,Val*v,u32 n);
  u64 concSwitch(State&s,Expr*c,const i64*x,u32 n){ u64 v=ev(s,c); Expr*mine=nullptr; for(u32 i=0;i<n;++i) if((u64)x[4*i]==v) mine=mkBin(OEq,c,mkConst(v,c->width)); if(!mine){ mine=mkConst(1,1); for(u32 i=0;i<n;++i) mine=mkBin(OAnd,mine,mkNot1(mkBin(OEq,c,mkConst(x[4*i],c->width)))); }
    if(s.knows(mine)) return v; Expr*ne=mkNot1(mine); ModelP m; SRes r=mayBe(s,ne,&m); if(r==S_SAT){ State*q=clone(s); q->addPC(ne); q->model=m; work.push_back(q); s.addPC(mine); s.depth++; requeue=true; } else s.learn(mine); return v; }
  void finish(State&s){ ++st.paths; if(samples.size()<3&&s.model){ std::string r; for(u32 i=0;i<EC.vars.size()&&i<24;++i){ const VarInfo&vi=EC.vars[i]; if(vi.name[0]=='u'&&vi.name.find('#')!=std::string::npos) continue; r+=(r.empty()?"":" ")+vi.name+"="+std::to_string(s.model->get(i)); } for(auto&c:s.choices) r+=" "+c.first+"="+std::to_string(c.second); samples.push_back(r+" (path condition of "+std::to_string(s.pc.size())+" conjuncts)"); } }
  // threads
  bool enabled(State&s,u32 i);
  bool schedPoint(State&s); // returns true if the current thread may proceed with its visible operation now
  bool blockSwitch(State&s); // current thread cannot proceed; false if dead
};
static FuncInfo*curEntry; extern bool g_keep; struct State; extern State*g_kept;

// ---------------------------------------------------------------- decoding
static FuncInfo*funcInfo(Function*F){ auto it=FMAP.find(F); if(it!=FMAP.end()) return it->second; FuncInfo*f=new FuncInfo; f->F=F; f->name=F->getName().str(); FMAP[F]=f; FUNCS.push_back(f); FADDR[f]=((u64)FUNC_OBJ<<32)|(FUNCS.size()*16); f->h=findHandler(f->name); return f; }
static FuncInfo*funcByAddr(u64 a){ if((a>>32)!=FUNC_OBJ) return nullptr; u64 i=(a&0xffffffffull)/16; if(i==0||i>FUNCS.size()) return nullptr; return FUNCS[i-1]; }
static std::map<std::vector<u64>,i32> cpoolMap;
struct Decoder {
  FuncInfo&f; std::map<Value*,i32> slot; i32 next=0;
  Decoder(FuncInfo&f):f(f){}
  std::map<Constant*,i32> cslot;
  i32 op(Value*V){ if(auto*C=dyn_cast<Constant>(V)){ auto it=cslot.find(C); if(it!=cslot.end()) return it->second; std::vector<Val> v; constVals(C,v); i32 b=~(i32)CPOOL.size(); for(auto&x:v) CPOOL.push_back(x); if(v.empty()) CPOOL.push_back(CV(0)); cslot[C]=b; return b; }
    if(isa<MetadataAsValue>(V)) return ~0; auto it=slot.find(V); if(it==slot.end()) fatal("operand without slot in "+f.name); return it->second; }
  static i32 sub(i32 o,unsigned k){ return o>=0? o+(i32)k : o-(i32)k; }
  void def(Value*V){ unsigned n=nslots(V->getType()); slot[V]=next; next+=n; }
  Edge edge(BasicBlock*from,BasicBlock*to,std::map<BasicBlock*,u32>&bbpc){ Edge e; e.target=0; e.c0=f.ext.size(); e.cn=0; for(PHINode&P:to->phis()){ Value*v=P.getIncomingValueForBlock(from); unsigned n=nslots(P.getType()); i32 src=op(v), d=slot[&P]; for(unsigned k=0;k<n;++k){ f.ext.push_back(d+k); f.ext.push_back(sub(src,k)); ++e.cn; } } e.target=bbpc[to]; return e; }
  void run();
};
static Op binop(unsigned o){ switch(o){ case Instruction::Add:return OAdd;case Instruction::Sub:return OSub;case Instruction::Mul:return OMul;case Instruction::UDiv:return OUDiv;case Instruction::SDiv:return OSDiv;case Instruction::URem:return OURem;case Instruction::SRem:return OSRem;case Instruction::And:return OAnd;case Instruction::Or:return OOr;case Instruction::Xor:return OXor;case Instruction::Shl:return OShl;case Instruction::LShr:return OLShr;case Instruction::AShr:return OAShr;case Instruction::FAdd:return OFAdd;case Instruction::FSub:return OFSub;case Instruction::FMul:return OFMul;case Instruction::FDiv:return OFDiv; default:return OConst; } }
void Decoder::run(){
  Function*F=f.F; for(Argument&A:F->args()) def(&A); f.nargs=next;
  { std::vector<SlotT> r; flat(F->getReturnType(),r); f.retN=r.size(); for(auto&x:r) f.retW.push_back(x.w); }
  std::map<BasicBlock*,u32> bbpc; u32 pc=0;
  for(BasicBlock&B:*F){ bbpc[&B]=pc; for(Instruction&I:B){ def(&I); if(isa<PHINode>(I)) continue; if(isa<DbgInfoIntrinsic>(I)) continue; ++pc; } }
  f.nregs=next;
  for(BasicBlock&B:*F) for(Instruction&I:B){
    if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue;
    DI d; memset((void*)&d,0,sizeof d); d.I=&I; d.dst=slot[&I]; d.k=D_UNSUP; d.w=sw(I.getType());
    switch(I.getOpcode()){
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: d.k=D_BIN; d.sub=binop(I.getOpcode()); d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.xn=nslots(I.getType()); if(d.xn>1) d.k=D_BINN; break;
      case Instruction::FRem: d.k=D_FREM; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); break;
      case Instruction::FNeg: d.k=D_FNEG; d.a=op(I.getOperand(0)); d.xn=nslots(I.getType()); break;
      case Instruction::ICmp: d.k=D_ICMP; d.sub=cast<CmpInst>(I).getPredicate(); d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.w=sw(I.getOperand(0)->getType()); d.xn=nslots(I.getType()); break;
      case Instruction::FCmp: d.k=D_FCMP; d.sub=cast<CmpInst>(I).getPredicate(); d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.w=sw(I.getOperand(0)->getType()); d.xn=nslots(I.getType()); break;
      case Instruction::Select: d.k=D_SELECT; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.c=op(I.getOperand(2)); d.xn=nslots(I.getType()); d.x0=f.ext.size(); { std::vector<SlotT> s; flat(I.getType(),s); for(auto&x:s) f.ext.push_back(x.w); } d.sub=I.getOperand(0)->getType()->isVectorTy(); break;
      case Instruction::Load: d.k=D_LOAD; d.a=op(I.getOperand(0)); { std::vector<SlotT> s; flat(I.getType(),s); d.xn=s.size(); d.x0=f.ext.size(); for(auto&x:s){ f.ext.push_back(x.w); f.ext.push_back(x.off);} } d.sub=cast<LoadInst>(I).isAtomic(); break;
      case Instruction::Store: d.k=D_STORE; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); { std::vector<SlotT> s; flat(I.getOperand(0)->getType(),s); d.xn=s.size(); d.x0=f.ext.size(); for(auto&x:s){ f.ext.push_back(x.w); f.ext.push_back(x.off);} } d.sub=cast<StoreInst>(I).isAtomic(); break;
      case Instruction::GetElementPtr: { d.k=D_GEP; auto&G=cast<GetElementPtrInst>(I); if(I.getType()->isVectorTy()) break; d.a=op(G.getPointerOperand()); i64 k=0; d.x0=f.ext.size();
        for(auto it=gep_type_begin(G),e=gep_type_end(G);it!=e;++it){ Value*ix=it.getOperand(); if(StructType*S=it.getStructTypeOrNull()){ k+=DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { i64 sc=DL->getTypeAllocSize(it.getIndexedType()); if(auto*C=dyn_cast<ConstantInt>(ix)) k+=C->getSExtValue()*sc; else { i32 o=op(ix); f.ext.push_back(o); f.ext.push_back(sc); f.ext.push_back(sw(ix->getType())); ++d.xn; } } }
        d.imm=k; break; }
      case Instruction::Alloca: { d.k=D_ALLOCA; auto&A=cast<AllocaInst>(I); d.imm=DL->getTypeAllocSize(A.getAllocatedType()); d.a=op(A.getArraySize()); break; }
      case Instruction::Br: { auto&Br=cast<BranchInst>(I); if(Br.isConditional()){ d.k=D_CBR; d.a=op(Br.getCondition()); d.e1=edge(&B,Br.getSuccessor(0),bbpc); d.e2=edge(&B,Br.getSuccessor(1),bbpc); } else { d.k=D_BR; d.e1=edge(&B,Br.getSuccessor(0),bbpc); } break; }
      case Instruction::Switch: { d.k=D_SWITCH; auto&S=cast<SwitchInst>(I); d.a=op(S.getCondition()); d.w=sw(S.getCondition()->getType()); d.e1=edge(&B,S.getDefaultDest(),bbpc); std::vector<i64> v; for(auto&c:S.cases()){ Edge e=edge(&B,c.getCaseSuccessor(),bbpc); v.push_back(c.getCaseValue()->getZExtValue()); v.push_back(e.target); v.push_back(e.c0); v.push_back(e.cn); } d.x0=f.ext.size(); d.xn=v.size()/4; f.ext.insert(f.ext.end(),v.begin(),v.end()); break; }
      case Instruction::Ret: d.k=D_RET; if(I.getNumOperands()) d.a=op(I.getOperand(0)); break;
      case Instruction::Unreachable: d.k=D_UNREACH; break;
      case Instruction::Call: case Instruction::Invoke: {
        auto&C=cast<CallBase>(I); d.k=D_CALL; d.isInvoke=isa<InvokeInst>(I); Value*cal=C.getCalledOperand()->stripPointerCasts(); if(auto*GA=dyn_cast<GlobalAlias>(cal)) cal=GA->getAliaseeObject();
        if(auto*Fn=dyn_cast<Function>(cal)) d.p=funcInfo(Fn); else { if(isa<InlineAsm>(cal)){ d.k=D_NOP; break; } d.p=nullptr; d.b=op(cal); }
        d.x0=f.ext.size(); std::vector<i64> v; std::vector<i64> w; for(auto&A:C.args()){ if(A->getType()->isMetadataTy()) continue; unsigned n=nslots(A->getType()); i32 o=op(A); for(unsigned k=0;k<n;++k){ v.push_back(sub(o,k)); } }
        d.xn=v.size(); f.ext.insert(f.ext.end(),v.begin(),v.end()); 
        if(C.arg_size()) d.w2=sw(C.getArgOperand(0)->getType());
        d.sub=nslots(I.getType());
        if(d.isInvoke){ auto&V=cast<InvokeInst>(I); d.e1=edge(&B,V.getNormalDest(),bbpc); d.e2=edge(&B,V.getUnwindDest(),bbpc); } break; }
      case Instruction::ZExt: d.k=D_ZEXT; d.a=op(I.getOperand(0)); d.w2=sw(I.getOperand(0)->getType()); d.xn=nslots(I.getType()); break;
      case Instruction::SExt: d.k=D_SEXT; d.a=op(I.getOperand(0)); d.w2=sw(I.getOperand(0)->getType()); d.xn=nslots(I.getType()); break;
      case Instruction::Trunc: d.k=D_TRUNC; d.a=op(I.getOperand(0)); d.w2=sw(I.getOperand(0)->getType()); d.xn=nslots(I.getType()); break;
      case Instruction::PtrToInt: d.a=op(I.getOperand(0)); d.w2=64; d.xn=1; d.k= d.w==64? D_COPY:D_TRUNC; break;
      case Instruction::IntToPtr: d.a=op(I.getOperand(0)); d.w2=sw(I.getOperand(0)->getType()); d.xn=1; d.k= d.w2==64? D_COPY:D_ZEXT; break;
      case Instruction::BitCast: { d.a=op(I.getOperand(0)); std::vector<SlotT> s,t; flat(I.getOperand(0)->getType(),s); flat(I.getType(),t); if(s.size()==t.size()){ d.k=D_COPY; d.xn=s.size(); } else { d.k=D_BITCASTV; d.xn=s.size(); d.w=t[0].w; d.w2=s[0].w; d.imm=t.size(); } break; }
      case Instruction::AddrSpaceCast: case Instruction::Freeze: d.k=D_COPY; d.a=op(I.getOperand(0)); d.xn=nslots(I.getType()); break;
      case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
        d.k=D_FPUN; d.a=op(I.getOperand(0)); d.w2=sw(I.getOperand(0)->getType()); d.xn=nslots(I.getType()); switch(I.getOpcode()){case Instruction::SIToFP:d.sub=OSIToFP;break;case Instruction::UIToFP:d.sub=OUIToFP;break;case Instruction::FPToSI:d.sub=OFPToSI;break;case Instruction::FPToUI:d.sub=OFPToUI;break;case Instruction::FPExt:d.sub=OFPExt;break;default:d.sub=OFPTrunc;} break;
      case Instruction::LandingPad: d.k=D_LPAD; break;
      case Instruction::Resume: d.k=D_RESUME; d.a=op(I.getOperand(0)); break;
      case Instruction::ExtractValue: { auto&E=cast<ExtractValueInst>(I); Type*T=E.getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix:E.indices()){ if(auto*S=dyn_cast<StructType>(T)){ for(unsigned k=0;k<ix;++k) off+=nslots(S->getElementType(k)); T=S->getElementType(ix);} else { auto*A=cast<ArrayType>(T); off+=ix*nslots(A->getElementType()); T=A->getElementType(); } } d.k=D_COPY; d.a=sub(op(E.getAggregateOperand()),off); d.xn=nslots(T); break; }
      case Instruction::InsertValue: { auto&E=cast<InsertValueInst>(I); Type*T=E.getAggregateOperand()->getType(); unsigned off=0; for(unsigned ix:E.indices()){ if(auto*S=dyn_cast<StructType>(T)){ for(unsigned k=0;k<ix;++k) off+=nslots(S->getElementType(k)); T=S->getElementType(ix);} else { auto*A=cast<ArrayType>(T); off+=ix*nslots(A->getElementType()); T=A->getElementType(); } } d.k=D_INSERT; d.a=op(E.getAggregateOperand()); d.b=op(E.getInsertedValueOperand()); d.c=off; d.imm=nslots(T); d.xn=nslots(I.getType()); break; }
      case Instruction::ExtractElement: { if(auto*C=dyn_cast<ConstantInt>(I.getOperand(1))){ d.k=D_COPY; d.a=sub(op(I.getOperand(0)),C->getZExtValue()); d.xn=1; } else { d.k=D_EXTRACT; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.xn=nslots(I.getOperand(0)->getType()); } break; }
      case Instruction::InsertElement: { if(auto*C=dyn_cast<ConstantInt>(I.getOperand(2))){ d.k=D_INSERT; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.c=C->getZExtValue(); d.imm=1; d.xn=nslots(I.getType()); } else { d.k=D_INSERT; d.a=op(I.getOperand(0)); d.b=op(I.getOperand(1)); d.c=op(I.getOperand(2)); d.imm=1; d.w2=1; d.xn=nslots(I.getType()); } break; }
      case Instruction::ShuffleVector: { auto&S=cast<ShuffleVectorInst>(I); unsigned n=nslots(I.getOperand(0)->getType()); i32 a=op(I.getOperand(0)), b=op(I.getOperand(1)); d.k=D_SHUF; d.x0=f.ext.size(); for(int m:S.getShuffleMask()){ f.ext.push_back(m<0? sub(a,0): (unsigned)m<n? sub(a,m):sub(b,m-n)); ++d.xn; } break; }
      case Instruction::AtomicRMW: { auto&R=cast<AtomicRMWInst>(I); d.k=D_RMW; d.a=op(R.getPointerOperand()); d.b=op(R.getValOperand()); d.sub=R.getOperation(); break; }
      case Instruction::AtomicCmpXchg: { auto&R=cast<AtomicCmpXchgInst>(I); d.k=D_CMPXCHG; d.a=op(R.getPointerOperand()); d.b=op(R.getCompareOperand()); d.c=op(R.getNewValOperand()); d.w=sw(R.getCompareOperand()->getType()); break; }
      case Instruction::Fence: d.k=D_NOP; break;
      default: break;
    }
    f.code.push_back(d);
  }
  if(f.code.size()!=pc) fatal("decode mismatch");
}
static void decode(FuncInfo*f){ if(f->decoded) return; f->decoded=true; Decoder d(*f); d.run(); }

// ---------------------------------------------------------------- exceptions
static std::string tiName(u64 addr){ for(auto&p:GADDR) if(p.second==addr) return p.first->getName().str(); return ""; }
static std::map<u64,std::string> tiNameCache;
static const std::string&tiN(u64 a){ auto it=tiNameCache.find(a); if(it==tiNameCache.end()) it=tiNameCache.emplace(a,tiName(a)).first; return it->second; }
static bool tiMatches(const std::string&th,const std::string&c){
  if(th==c) return true;
  static const std::map<std::string,std::string> base={{"_ZTISt13runtime_error","_ZTISt9exception"},{"_ZTISt11logic_error","_ZTISt9exception"},{"_ZTISt9bad_alloc","_ZTISt9exception"},{"_ZTISt12out_of_range","_ZTISt11logic_error"},{"_ZTISt12length_error","_ZTISt11logic_error"},{"_ZTISt16invalid_argument","_ZTISt11logic_error"},{"_ZTISt12domain_error","_ZTISt11logic_error"},{"_ZTISt11range_error","_ZTISt13runtime_error"},{"_ZTISt14overflow_error","_ZTISt13runtime_error"},{"_ZTISt15underflow_error","_ZTISt13runtime_error"},{"_ZTISt12system_error","_ZTISt13runtime_error"},{"_ZTINSt8ios_base7failureB5cxx11E","_ZTISt12system_error"},{"_ZTISt20bad_array_new_length","_ZTISt9bad_alloc"},{"_ZTISt17bad_function_call","_ZTISt9exception"},{"_ZTISt8bad_cast","_ZTISt9exception"}};
  auto it=base.find(th); if(it!=base.end()) return tiMatches(it->second,c);
  if(GlobalVariable*G=MOD->getGlobalVariable(th,true)) if(G->hasInitializer()){ Constant*C=G->getInitializer(); for(unsigned i=2;i<C->getNumOperands();++i){ auto*B=dyn_cast<GlobalVariable>(C->getOperand(i)->stripPointerCasts()); if(B&&B->getName().starts_with("_ZTI")&&tiMatches(B->getName().str(),c)) return true; } }
  return false;
}
static std::map<std::string,u32> tiIds; static u32 tiId(const std::string&n){ auto it=tiIds.find(n); if(it==tiIds.end()) it=tiIds.emplace(n,tiIds.size()+1).first; return it->second; }
static u64 tiGlobal(const std::string&n){ // typeinfo address by name (pseudo object if the module does not mention it)
  for(auto&p:GADDR) if(p.first->getName()==n) return p.second;
  static std::map<std::string,u64> extra; auto it=extra.find(n); if(it==extra.end()){ u64 a=(u64)(3+extra.size()%8)<<32; a|=extra.size(); extra[n]=a; tiNameCache[a]=n; return a; } return it->second; }

bool Exec::unwind(State&s){
  Thread&t=s.th[s.cur];
  while(!t.fr.empty()){
    Frame&f=t.fr.back(); const DI&d=f.f->code[f.pc];
    if(d.k==D_CALL&&d.isInvoke){
      auto*LP=cast<InvokeInst>(d.I)->getUnwindDest()->getLandingPadInst(); bool go=LP->isCleanup(); const std::string&tn=tiN(t.excTi);
      for(unsigned i=0;i<LP->getNumClauses()&&!go;++i){ if(LP->isCatch(i)){ Constant*C=LP->getClause(i); if(isa<ConstantPointerNull>(C)) go=true; else if(tiMatches(tn,C->stripPointerCasts()->getName().str())) go=true; } else { go=true; } }
      if(go){ takeEdge(s,d.e2); return true; }
    }
    popFrame(s);
    if(s.cur==0&&t.fr.empty()){ violation(s,"exception","uncaught exception "+demangle(tiN(t.excTi).empty()?"?":("_ZTS"+tiN(t.excTi).substr(4))),s.model); return false; }
  }
  violation(s,"exception","uncaught exception in thread",s.model); return false;
}
bool Exec::pushCall(State&s,FuncInfo*f,const Val*args,unsigned n,i32 retDst){
  decode(f); f->executed=true; Thread&t=s.th[s.cur]; if(t.fr.size()>4000){ violation(s,"limit","call stack too deep",s.model); return false; }
  u32 base=t.regs.size(); t.regs.resize(base+f->nregs,Val{0,nullptr}); for(unsigned i=0;i<n&&i<f->nargs;++i) t.regs[base+i]=args[i];
  t.fr.push_back(Frame{f,0,base,retDst,(u32)t.allocas.size()}); return true;
}
#include "step.hpp"
#include "handlers.hpp"
#include "driver.hpp"
