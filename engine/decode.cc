// LLVM bitcode -> pre-decoded instruction arrays
#include "engine.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Support/raw_ostream.h>
#include <dlfcn.h>
#include <algorithm>
using namespace llvm;
static LLVMContext* C; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::unordered_map<const GlobalValue*,u64> gaddr; static u64 globTop=BASE+64;
static std::unordered_map<const Function*,::Func*> fmap; static std::unordered_map<u64,std::string> gnames;
void flatten(Type* t,u64 off,std::vector<Leaf>& out){
  if(auto* s=dyn_cast<StructType>(t)){ auto* sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) flatten(s->getElementType(i),off+sl->getElementOffset(i),out); return; }
  if(auto* a=dyn_cast<ArrayType>(t)){ u64 es=DL->getTypeAllocSize(a->getElementType()); for(u64 i=0;i<a->getNumElements();i++) flatten(a->getElementType(),off+i*es,out); return; }
  if(t->isVoidTy()||t->isMetadataTy()||t->isLabelTy()||t->isTokenTy()) return;
  out.push_back(Leaf{(u32)off,(uint16_t)DL->getTypeSizeInBits(t).getFixedValue()}); }
static std::vector<Leaf> leavesOf(Type* t){ std::vector<Leaf> v; flatten(t,0,v); return v; }
static u64 resolveNative(const std::string& n){ std::string s=n; if(s.rfind("__native_",0)==0) s=s.substr(9); void* p=dlsym(RTLD_DEFAULT,s.c_str()); return (u64)p; }
static u64 addrOf(const GlobalValue* g);
static bool constLeaves(const Constant* k,std::vector<u64>& out); 
static u64 constInt(const Constant* k){ std::vector<u64> v; constLeaves(k,v); return v.empty()?0:v[0]; }
static bool constLeaves(const Constant* k,std::vector<u64>& out){
  Type* t=k->getType();
  if(isa<UndefValue>(k)||isa<ConstantAggregateZero>(k)||isa<ConstantPointerNull>(k)||isa<ConstantTokenNone>(k)){ std::vector<Leaf> l=leavesOf(t); out.insert(out.end(),l.size(),0); return true; }
  if(auto* i=dyn_cast<ConstantInt>(k)){ out.push_back(i->getValue().getRawData()[0]); return true; }
  if(auto* f=dyn_cast<ConstantFP>(k)){ out.push_back(f->getValueAPF().bitcastToAPInt().getRawData()[0]); return true; }
  if(auto* a=dyn_cast<ConstantAggregate>(k)){ for(auto& o:a->operands()) constLeaves(cast<Constant>(o),out); return true; }
  if(auto* d=dyn_cast<ConstantDataSequential>(k)){ for(unsigned i=0;i<d->getNumElements();i++) constLeaves(d->getElementAsConstant(i),out); return true; }
  if(auto* ga=dyn_cast<GlobalAlias>(k)){ out.push_back(constInt(ga->getAliasee())); return true; }
  if(auto* g=dyn_cast<GlobalValue>(k)){ out.push_back(addrOf(g)); return true; }
  if(auto* ce=dyn_cast<ConstantExpr>(k)){
    switch(ce->getOpcode()){
      case Instruction::GetElementPtr: { auto* g=cast<GEPOperator>(ce); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) { errs()<<"gep const\n"; abort(); } out.push_back(constInt(ce->getOperand(0))+off.getSExtValue()); return true; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(constInt(ce->getOperand(0))); return true;
      case Instruction::Trunc: case Instruction::ZExt: { out.push_back(constInt(ce->getOperand(0))&maskw(DL->getTypeSizeInBits(t).getFixedValue())); return true; }
      case Instruction::Add: out.push_back(constInt(ce->getOperand(0))+constInt(ce->getOperand(1))); return true;
      case Instruction::Sub: out.push_back(constInt(ce->getOperand(0))-constInt(ce->getOperand(1))); return true;
      case Instruction::ICmp: { u64 a=constInt(ce->getOperand(0)),b=constInt(ce->getOperand(1)); auto p=(CmpInst::Predicate)ce->getPredicate(); out.push_back(p==CmpInst::ICMP_EQ?a==b:p==CmpInst::ICMP_NE?a!=b:a<b); return true; }
      default: errs()<<"const expr "<<*ce<<"\n"; out.push_back(0); return false; } }
  errs()<<"constant kind "<<*k<<"\n"; out.push_back(0); return false; }
static u64 addrOf(const GlobalValue* g){
  auto it=gaddr.find(g); if(it!=gaddr.end()) return it->second;
  if(auto* f=dyn_cast<Function>(g)){ ::Func* F=fmap[f]; return F?F->addr:0; }
  errs()<<"no address for global "<<g->getName()<<"\n"; return 0; }
static void initGlobal(const Constant* k,u64 addr){
  Type* t=k->getType();
  if(isa<ConstantAggregateZero>(k)||isa<UndefValue>(k)) return;
  if(auto* d=dyn_cast<ConstantDataSequential>(k)){ auto s=d->getRawDataValues(); memcpy((void*)addr,s.data(),s.size()); return; }
  if(auto* a=dyn_cast<ConstantAggregate>(k)){
    if(auto* st=dyn_cast<StructType>(t)){ auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) initGlobal(a->getOperand(i),addr+sl->getElementOffset(i)); }
    else { Type* et=t->isArrayTy()?t->getArrayElementType():cast<VectorType>(t)->getElementType(); u64 es=DL->getTypeAllocSize(et); for(unsigned i=0;i<a->getNumOperands();i++) initGlobal(a->getOperand(i),addr+i*es); }
    return; }
  if(auto* ci=dyn_cast<ConstantInt>(k)){ unsigned n=DL->getTypeStoreSize(t); memcpy((void*)addr,ci->getValue().getRawData(),n>8*ci->getValue().getNumWords()?8*ci->getValue().getNumWords():n); return; }
  if(auto* cf=dyn_cast<ConstantFP>(k)){ APInt ai=cf->getValueAPF().bitcastToAPInt(); memcpy((void*)addr,ai.getRawData(),DL->getTypeStoreSize(t)); return; }
  u64 v=constInt(k); memcpy((void*)addr,&v,DL->getTypeStoreSize(t)); }
static bool isStd(StringRef n){ static const char* p[]={"_ZNSt","_ZNKSt","_ZSt","_ZN9__gnu_cxx","_ZNK9__gnu_cxx","_ZNSa","_ZNSs","_ZNKSs","_ZNSo","_ZNSi","_ZdlPv","_Znw","__clang","_GLOBAL__","__cxx","_ZnwmPv","_ZStrs","_ZNSc","_ZN6icu_","_ZNK6icu_"};
  for(auto* x:p) if(n.starts_with(x)) return true; return false; }
bool loadModules(const std::vector<std::pair<std::string,bool>>& files){
  C=new LLVMContext(); 
  for(auto& pr:files){ SMDiagnostic err; auto m=parseIRFile(pr.first,err,*C); if(!m){ err.print("symx",errs()); return false; }
    for(auto& f:*m) if(pr.second&&!f.isDeclaration()&&!isStd(f.getName())) f.addFnAttr("vrepo");
    if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))){ errs()<<"link failed: "<<pr.first<<"\n"; return false; } }
  DL=new DataLayout(M.get());
  u64 stubs=globTop; globTop+=64;
  // a runtime function named symx_ovr_X replaces the library's X
  for(auto& f:*M) if(f.getName().starts_with("symx_ovr_")) if(auto* o=M->getFunction(f.getName().substr(9))) if(o->getType()==f.getType()) o->replaceAllUsesWith(&f);
  // functions
  for(auto& f:*M){ auto* F=new ::Func(); F->name=f.getName().str(); F->lf=&f; F->hasBody=!f.isDeclaration(); F->idx=EN.funcs.size(); F->repo=f.hasFnAttribute("vrepo"); F->vararg=f.isVarArg();
    auto b=builtins.find(F->name); if(b!=builtins.end()){ F->bi=b->second; }
    if(f.isIntrinsic()&&!F->bi){ // longest prefix match
      size_t best=0; for(auto& kv:builtins) if(kv.first.rfind("llvm.",0)==0&&F->name.rfind(kv.first,0)==0&&kv.first.size()>best){ best=kv.first.size(); F->bi=kv.second; } }
    if(!F->hasBody&&!f.isIntrinsic()){ F->native=(void*)resolveNative(F->name); }
    if(F->native&&!F->bi) F->addr=(u64)F->native; else { F->addr=globTop; globTop+=16; }
    F->policy=policyFor(F->name);
    fmap[&f]=F; EN.funcs.push_back(F); EN.byName[F->name]=F; EN.byAddr[F->addr]=F; if(F->native) EN.byAddr.emplace((u64)F->native,F); }
  (void)stubs; globTop=(globTop+63)&~63ull;
  // globals
  for(auto& g:M->globals()){ if(g.getName().starts_with("llvm.")) continue;
    if(g.isDeclaration()){ u64 a=resolveNative(g.getName().str()); if(!a&&!g.hasExternalWeakLinkage()) { errs()<<"unresolved global "<<g.getName()<<"\n"; } gaddr[&g]=a; continue; }
    u64 al=std::max<u64>(16,g.getAlign()?g.getAlign()->value():16), n=DL->getTypeAllocSize(g.getValueType()); globTop=(globTop+al-1)&~(al-1); gaddr[&g]=globTop; gnames[globTop]=g.getName().str();
    EN.setAddrBits(globTop,n,true); globTop+=n+32; if(globTop-BASE>GLOB){ errs()<<"globals too large\n"; return false; } }
  for(auto& a:M->aliases()){ auto* o=a.getAliaseeObject(); if(auto* f=dyn_cast<Function>(o)) { EN.byName[a.getName().str()]=fmap[f]; } }
  for(auto& g:M->globals()) if(!g.isDeclaration()&&!g.getName().starts_with("llvm.")) initGlobal(g.getInitializer(),gaddr[&g]);
  return true; }
u64 globalAddr(const std::string& n){ auto* g=M->getNamedGlobal(n); return g?gaddr[g]:0; }
std::vector<::Func*> ctorList(){ std::vector<std::pair<u64,::Func*>> v; auto* g=M->getNamedGlobal("llvm.global_ctors"); std::vector<::Func*> r; if(!g||!g->hasInitializer()) return r;
  if(auto* a=dyn_cast<ConstantArray>(g->getInitializer())) for(auto& o:a->operands()){ auto* s=cast<ConstantStruct>(o); u64 pr=cast<ConstantInt>(s->getOperand(0))->getZExtValue(); if(auto* f=dyn_cast<Function>(s->getOperand(1))) v.push_back({pr,fmap[f]}); }
  std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&p:v) r.push_back(p.second); return r; }
namespace {
struct Dec { ::Func* F; const Function* f; std::unordered_map<const Value*,int> slot; std::map<std::pair<u64,int>,int> cslot; std::unordered_map<const BasicBlock*,u32> bbpc; 
  int nleaves(Type* t){ return leavesOf(t).size(); }
  int cst(u64 v){ auto it=cslot.find({v,0}); if(it!=cslot.end()) return it->second; F->consts.push_back(VC(v)); int s=-(int)F->consts.size()-1; cslot[{v,0}]=s; return s; }   // constant i -> slot -(i+2)
  int opnd(const Value* v){ if(auto* k=dyn_cast<Constant>(v)){ std::vector<u64> l; constLeaves(k,l); unsigned w=0; if(!l.empty()&&k->getType()->isIntegerTy()) { w=k->getType()->getIntegerBitWidth(); l[0]&=maskw(w);} 
      if(l.size()==1) return cst(l[0]); if(l.empty()) return cst(0);
      int first=0; for(size_t i=0;i<l.size();i++){ F->consts.push_back(VC(l[i])); } first=-(int)F->consts.size()-1; /* multi-leaf: stored so that slot+i works (reversed) */
      size_t n=l.size(),b=F->consts.size()-n; for(size_t i=0;i<n;i++) F->consts[b+n-1-i]=VC(l[i]); return first; }
    auto it=slot.find(v); if(it==slot.end()){ errs()<<"no slot for "<<*v<<" in "<<F->name<<"\n"; abort(); } return it->second; }
  // operand slots of multi-leaf value: opnd()+i works for both positive (regs) and negative (constants, decreasing index)
};
}
static unsigned bitsOf(Type* t){ return DL->getTypeSizeInBits(t).getFixedValue(); }
void decodeFunc(::Func* F){
  F->decoded=true; auto* f=(const Function*)F->lf; Dec d; d.F=F; d.f=f; int ns=0;
  for(auto& a:f->args()){ d.slot[&a]=ns; ns+=std::max(1,d.nleaves(a.getType())); } F->nargs=ns;
  for(auto& bb:*f) for(auto& i:bb) if(!i.getType()->isVoidTy()){ d.slot[&i]=ns; ns+=std::max(1,d.nleaves(i.getType())); }
  F->nslots=ns;
  struct Fix { size_t inst; int which; const BasicBlock* from,*to; }; 
  std::vector<std::pair<int,const BasicBlock*>> edgeFix;
  auto mkEdge=[&](const BasicBlock* from,const BasicBlock* to)->int{ Edge e; e.target=0; for(auto& phi:to->phis()){ const Value* v=phi.getIncomingValueForBlock(from); int n=d.nleaves(phi.getType()); int s=d.opnd(v), t=d.slot[&phi]; if(isa<UndefValue>(v)) continue; for(int i=0;i<n;i++) if(s+i!=t+i) e.moves.push_back(Move{t+i,s+i}); }
    F->edges.push_back(e); int id=F->edges.size()-1; edgeFix.push_back({id,to}); return id; };
  for(auto& bb:*f){ d.bbpc[&bb]=F->code.size();
    for(auto& I:bb){ Inst in; in.op=OP_UNSUP; if(auto& dl=I.getDebugLoc()) in.line=dl.getLine(); Type* T=I.getType(); if(!T->isVoidTy()) in.dst=d.slot[&I];
      auto emit=[&](){ F->code.push_back(in); };
      auto wide=[&](Type* t){ return (t->isIntegerTy()&&bitsOf(t)>64)||t->isX86_FP80Ty()||t->isFP128Ty()||t->isVectorTy(); };
      bool isWide=wide(T); for(auto& o:I.operands()) if(!isa<BasicBlock>(o.get())&&!o->getType()->isMetadataTy()&&wide(o->getType())) isWide=true;
      if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I)) continue;
      if(isWide&&!isa<CallBase>(I)){ std::string s; raw_string_ostream os(s); os<<I; in.op=OP_UNSUP; emit(); if(I.isTerminator()){} continue; }
      if(auto* b=dyn_cast<BinaryOperator>(&I)){ in.a=d.opnd(b->getOperand(0)); in.b=d.opnd(b->getOperand(1)); in.bits=bitsOf(T);
        switch(b->getOpcode()){ case Instruction::Add: in.op=OP_BIN; in.sub=K_ADD; break; case Instruction::Sub: in.op=OP_BIN; in.sub=K_SUB; break; case Instruction::Mul: in.op=OP_BIN; in.sub=K_MUL; break;
          case Instruction::UDiv: in.op=OP_BIN; in.sub=K_UDIV; break; case Instruction::SDiv: in.op=OP_BIN; in.sub=K_SDIV; break; case Instruction::URem: in.op=OP_BIN; in.sub=K_UREM; break; case Instruction::SRem: in.op=OP_BIN; in.sub=K_SREM; break;
          case Instruction::And: in.op=OP_BIN; in.sub=K_AND; break; case Instruction::Or: in.op=OP_BIN; in.sub=K_OR; break; case Instruction::Xor: in.op=OP_BIN; in.sub=K_XOR; break;
          case Instruction::Shl: in.op=OP_BIN; in.sub=K_SHL; break; case Instruction::LShr: in.op=OP_BIN; in.sub=K_LSHR; break; case Instruction::AShr: in.op=OP_BIN; in.sub=K_ASHR; break;
          case Instruction::FAdd: in.op=OP_FBIN; in.sub=0; break; case Instruction::FSub: in.op=OP_FBIN; in.sub=1; break; case Instruction::FMul: in.op=OP_FBIN; in.sub=2; break; case Instruction::FDiv: in.op=OP_FBIN; in.sub=3; break; case Instruction::FRem: in.op=OP_FBIN; in.sub=4; break; default: break; }
        emit(); continue; }
      if(auto* u=dyn_cast<UnaryOperator>(&I)){ in.op=OP_FNEG; in.a=d.opnd(u->getOperand(0)); in.bits=bitsOf(T); emit(); continue; }
      if(auto* c=dyn_cast<ICmpInst>(&I)){ in.op=OP_ICMP; in.sub=c->getPredicate(); in.a=d.opnd(c->getOperand(0)); in.b=d.opnd(c->getOperand(1)); in.bits=bitsOf(c->getOperand(0)->getType()); emit(); continue; }
      if(auto* c=dyn_cast<FCmpInst>(&I)){ in.op=OP_FCMP; in.sub=c->getPredicate(); in.a=d.opnd(c->getOperand(0)); in.b=d.opnd(c->getOperand(1)); in.bits=bitsOf(c->getOperand(0)->getType()); emit(); continue; }
      if(auto* c=dyn_cast<CastInst>(&I)){ in.a=d.opnd(c->getOperand(0)); in.bits=bitsOf(T); in.bits2=bitsOf(c->getOperand(0)->getType());
        switch(c->getOpcode()){ case Instruction::Trunc: in.op=OP_TRUNC; break; case Instruction::ZExt: in.op=OP_ZEXT; break; case Instruction::SExt: in.op=OP_SEXT; break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: in.op=in.bits<in.bits2?OP_TRUNC:in.bits>in.bits2?OP_ZEXT:OP_COPY; break; case Instruction::BitCast: in.op=OP_COPY; break;
          case Instruction::FPToSI: in.op=OP_FPCAST; in.sub=0; break; case Instruction::FPToUI: in.op=OP_FPCAST; in.sub=1; break; case Instruction::SIToFP: in.op=OP_FPCAST; in.sub=2; break; case Instruction::UIToFP: in.op=OP_FPCAST; in.sub=3; break;
          case Instruction::FPTrunc: in.op=OP_FPCAST; in.sub=4; break; case Instruction::FPExt: in.op=OP_FPCAST; in.sub=5; break; default: break; }
        emit(); continue; }
      if(auto* c=dyn_cast<FreezeInst>(&I)){ int n=d.nleaves(T); int s=d.opnd(c->getOperand(0)); std::vector<Move> mv; for(int i=0;i<n;i++) mv.push_back(Move{in.dst+i,s+i}); F->moves.push_back(mv); in.op=OP_MOVES; in.x=F->moves.size()-1; emit(); continue; }
      if(auto* l=dyn_cast<LoadInst>(&I)){ in.a=d.opnd(l->getPointerOperand()); auto lv=leavesOf(T); if(lv.size()==1){ in.op=OP_LOAD; in.bits=lv[0].bits; } else { in.op=OP_LOADN; F->leaves.push_back(lv); in.x=F->leaves.size()-1; } emit(); continue; }
      if(auto* s=dyn_cast<StoreInst>(&I)){ in.a=d.opnd(s->getPointerOperand()); in.b=d.opnd(s->getValueOperand()); auto lv=leavesOf(s->getValueOperand()->getType()); if(lv.size()==1){ in.op=OP_STORE; in.bits=lv[0].bits; } else { in.op=OP_STOREN; F->leaves.push_back(lv); in.x=F->leaves.size()-1; } emit(); continue; }
      if(auto* g=dyn_cast<GetElementPtrInst>(&I)){ in.op=OP_GEP; in.a=d.opnd(g->getPointerOperand()); std::vector<GepIdx> gi; i64 off=0;
        for(auto it=gep_type_begin(g);it!=gep_type_end(g);++it){ Value* ix=it.getOperand(); if(auto* st=it.getStructTypeOrNull()){ off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          u64 es=DL->getTypeAllocSize(it.getIndexedType()); if(auto* ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*(i64)es; else gi.push_back(GepIdx{d.opnd(ix),es,(uint16_t)bitsOf(ix->getType())}); }
        in.imm=off; F->geps.push_back(gi); in.x=F->geps.size()-1; in.sub=gi.size(); emit(); continue; }
      if(auto* a=dyn_cast<AllocaInst>(&I)){ in.op=OP_ALLOCA; in.imm=DL->getTypeAllocSize(a->getAllocatedType()); in.x=a->getAlign().value(); in.a=isa<ConstantInt>(a->getArraySize())?(in.imm*=cast<ConstantInt>(a->getArraySize())->getZExtValue(),-1):d.opnd(a->getArraySize()); emit(); continue; }
      if(auto* b=dyn_cast<BranchInst>(&I)){ if(b->isUnconditional()){ in.op=OP_BR; in.a=mkEdge(&bb,b->getSuccessor(0)); } else { in.op=OP_CBR; in.a=d.opnd(b->getCondition()); in.b=mkEdge(&bb,b->getSuccessor(0)); in.c=mkEdge(&bb,b->getSuccessor(1)); } emit(); continue; }
      if(auto* s=dyn_cast<SwitchInst>(&I)){ in.op=OP_SWITCH; in.a=d.opnd(s->getCondition()); in.bits=bitsOf(s->getCondition()->getType()); SwitchInfo si; std::map<const BasicBlock*,int> em; auto ed=[&](const BasicBlock* t){ auto it=em.find(t); if(it!=em.end()) return it->second; return em[t]=mkEdge(&bb,t); };
        si.def=ed(s->getDefaultDest()); for(auto& c:s->cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(),ed(c.getCaseSuccessor())}); F->switches.push_back(si); in.x=F->switches.size()-1; emit(); continue; }
      if(auto* s=dyn_cast<SelectInst>(&I)){ int n=d.nleaves(T); auto lv=leavesOf(T); int c=d.opnd(s->getCondition()),t=d.opnd(s->getTrueValue()),e=d.opnd(s->getFalseValue()); int dst=in.dst; for(int i=0;i<n;i++){ in.op=OP_SELECT; in.dst=dst+i; in.a=c; in.b=t+i; in.c=e+i; in.bits=lv[i].bits; emit(); } continue; }
      if(auto* e=dyn_cast<ExtractValueInst>(&I)){ // flattened offset
        Type* at=e->getAggregateOperand()->getType(); int off=0; Type* cur=at; for(unsigned ix:e->indices()){ if(auto* st=dyn_cast<StructType>(cur)){ for(unsigned k=0;k<ix;k++) off+=d.nleaves(st->getElementType(k)); cur=st->getElementType(ix); } else { cur=cur->getArrayElementType(); off+=ix*d.nleaves(cur); } }
        int n=d.nleaves(T), s=d.opnd(e->getAggregateOperand()); std::vector<Move> mv; for(int i=0;i<n;i++) mv.push_back(Move{in.dst+i,s+off+i}); F->moves.push_back(mv); in.op=OP_MOVES; in.x=F->moves.size()-1; emit(); continue; }
      if(auto* e=dyn_cast<InsertValueInst>(&I)){ int off=0; Type* cur=T; for(unsigned ix:e->indices()){ if(auto* st=dyn_cast<StructType>(cur)){ for(unsigned k=0;k<ix;k++) off+=d.nleaves(st->getElementType(k)); cur=st->getElementType(ix); } else { cur=cur->getArrayElementType(); off+=ix*d.nleaves(cur); } }
        int n=d.nleaves(T), s=d.opnd(e->getAggregateOperand()), v=d.opnd(e->getInsertedValueOperand()), nv=d.nleaves(e->getInsertedValueOperand()->getType()); std::vector<Move> mv; for(int i=0;i<n;i++) mv.push_back(Move{in.dst+i,(i>=off&&i<off+nv)?v+(i-off):s+i}); F->moves.push_back(mv); in.op=OP_MOVES; in.x=F->moves.size()-1; emit(); continue; }
      if(auto* c=dyn_cast<CallBase>(&I)){
        if(auto* ii=dyn_cast<IntrinsicInst>(&I)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::dbg_declare||id==Intrinsic::dbg_value||id==Intrinsic::donothing||id==Intrinsic::prefetch||id==Intrinsic::invariant_start||id==Intrinsic::invariant_end) { if(!isa<InvokeInst>(I)) continue; }
          if(id==Intrinsic::expect||id==Intrinsic::launder_invariant_group||id==Intrinsic::strip_invariant_group||id==Intrinsic::threadlocal_address||id==Intrinsic::ptrmask){ in.op=OP_COPY; in.a=d.opnd(ii->getArgOperand(0)); in.bits=in.bits2=bitsOf(T); emit(); continue; }
          if(id==Intrinsic::eh_typeid_for){ in.op=OP_TRUNC; in.a=d.opnd(ii->getArgOperand(0)); in.bits=in.bits2=32; emit(); continue; } }
        CallInfo ci; ci.unsup=isWide&&!isa<IntrinsicInst>(I); if(c->isInlineAsm()){ in.op=OP_UNSUP; emit(); continue; }
        const Value* cv=c->getCalledOperand()->stripPointerCasts(); if(auto* ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject(); if(auto* cf=dyn_cast<Function>(cv)) ci.direct=fmap[cf]; else ci.callee=d.opnd(c->getCalledOperand());
        ci.vararg=c->getFunctionType()->isVarArg(); ci.nfixed=0; unsigned np=c->getFunctionType()->getNumParams();
        for(unsigned i=0;i<c->arg_size();i++){ const Value* a=c->getArgOperand(i); if(a->getType()->isMetadataTy()) continue; auto lv=leavesOf(a->getType()); int s=d.opnd(a); u32 bv=c->isByValArgument(i)?DL->getTypeAllocSize(c->getParamByValType(i)):0;
          for(size_t k=0;k<lv.size();k++){ ci.args.push_back(s+k); ci.argBits.push_back(lv[k].bits); ci.argFP.push_back(a->getType()->isFloatTy()?4:a->getType()->isDoubleTy()?8:0); ci.byval.push_back(bv); }
          if(i<np) ci.nfixed=ci.args.size(); }
        if(!T->isVoidTy()){ ci.dst=in.dst; auto lv=leavesOf(T); ci.retSlots=lv.size(); ci.retBits=lv.empty()?0:lv[0].bits; ci.retFP=T->isFloatTy()?4:T->isDoubleTy()?8:0; if(auto* st=dyn_cast<StructType>(T)) for(auto* et:st->elements()) if(et->isFloatingPointTy()) ci.unsup=true; }
        if(auto* iv=dyn_cast<InvokeInst>(&I)){ ci.invoke=true; ci.normal=mkEdge(&bb,iv->getNormalDest()); ci.unwind=mkEdge(&bb,iv->getUnwindDest()); }
        F->calls.push_back(ci); in.op=OP_CALL; in.x=F->calls.size()-1; emit(); continue; }
      if(auto* r=dyn_cast<ReturnInst>(&I)){ in.op=OP_RET; if(r->getReturnValue()){ in.a=d.opnd(r->getReturnValue()); in.x=d.nleaves(r->getReturnValue()->getType()); } else in.x=0; emit(); continue; }
      if(auto* l=dyn_cast<LandingPadInst>(&I)){ ::Func::LP lp; lp.cleanup=l->isCleanup(); for(unsigned i=0;i<l->getNumClauses();i++){ ::Func::LP::Cl cl; cl.filter=l->isFilter(i); Constant* k=l->getClause(i); if(cl.filter) constLeaves(k,cl.types); else cl.types.push_back(constInt(k)); lp.clauses.push_back(cl); } F->lps.push_back(lp); in.op=OP_LPAD; in.x=F->lps.size()-1; emit(); continue; }
      if(auto* r=dyn_cast<ResumeInst>(&I)){ in.op=OP_RESUME; in.a=d.opnd(r->getValue()); emit(); continue; }
      if(isa<UnreachableInst>(I)){ in.op=OP_UNREACH; emit(); continue; }
      if(auto* r=dyn_cast<AtomicRMWInst>(&I)){ in.op=OP_RMW; in.a=d.opnd(r->getPointerOperand()); in.b=d.opnd(r->getValOperand()); in.bits=bitsOf(T); switch(r->getOperation()){ case AtomicRMWInst::Add: in.sub=K_ADD; break; case AtomicRMWInst::Sub: in.sub=K_SUB; break; case AtomicRMWInst::And: in.sub=K_AND; break; case AtomicRMWInst::Or: in.sub=K_OR; break; case AtomicRMWInst::Xchg: in.sub=255; break; default: in.op=OP_UNSUP; } emit(); continue; }
      if(isa<FenceInst>(I)) continue;
      emit(); } }
  for(auto& ef:edgeFix) F->edges[ef.first].target=d.bbpc[ef.second]; 
}
