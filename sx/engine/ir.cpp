#include "ir.hpp"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
::Module M;
static LLVMContext Ctx; static std::unique_ptr<llvm::Module> LM; static const DataLayout*DL;
static std::unordered_map<const Type*,TyD*> tyCache;
std::string demangle(const std::string&s){ return llvm::demangle(s); }
static const TyD* tyd(Type*t){
  auto it=tyCache.find(t); if(it!=tyCache.end()) return it->second;
  TyD*d=new TyD; tyCache[t]=d;
  if(t->isVoidTy()||t->isLabelTy()||t->isMetadataTy()){ d->kind=0; return d; }
  if(t->isIntegerTy()){ d->kind=1; d->w=t->getIntegerBitWidth(); d->size=(d->w+7)/8; return d; }
  if(t->isPointerTy()){ d->kind=1; d->w=64; d->size=8; d->ptr=true; return d; }
  if(t->isFloatTy()){ d->kind=1; d->w=32; d->size=4; d->fp=true; return d; }
  if(t->isDoubleTy()){ d->kind=1; d->w=64; d->size=8; d->fp=true; return d; }
  if(t->isX86_FP80Ty()){ d->kind=1; d->w=80; d->size=16; d->fp=true; return d; }
  if(auto st=dyn_cast<StructType>(t)){ d->kind=2; if(!st->isSized()) return d; auto sl=DL->getStructLayout(st); d->size=DL->getTypeAllocSize(st); for(unsigned i=0;i<st->getNumElements();i++) d->el.push_back({(uint32_t)sl->getElementOffset(i),tyd(st->getElementType(i))}); return d; }
  if(auto at=dyn_cast<ArrayType>(t)){ d->kind=2; d->size=DL->getTypeAllocSize(t); uint64_t es=DL->getTypeAllocSize(at->getElementType()); if(at->getNumElements()<=4096) for(uint64_t i=0;i<at->getNumElements();i++) d->el.push_back({(uint32_t)(i*es),tyd(at->getElementType())}); return d; }
  if(auto vt=dyn_cast<FixedVectorType>(t)){ d->kind=2; d->size=DL->getTypeAllocSize(t); uint64_t es=DL->getTypeAllocSize(vt->getElementType()); for(uint64_t i=0;i<vt->getNumElements();i++) d->el.push_back({(uint32_t)(i*es),tyd(vt->getElementType())}); return d; }
  d->kind=0; return d;
}
static Val undefOf(const TyD*t){ Val v; if(t->kind==2){ auto a=new AggV; for(auto&p:t->el) a->push_back(undefOf(p.second)); v.agg=a; return v; } v.w=std::min<unsigned>(t->w,64); v.um=0xff; return v; }
static Val zeroOf(const TyD*t){ Val v; if(t->kind==2){ auto a=new AggV; for(auto&p:t->el) a->push_back(zeroOf(p.second)); v.agg=a; return v; } v.w=std::min<unsigned>(t->w,64); return v; }
static Fn* getFn(const Function*F){ return ::M.fnByName[F->getName().str()]; }
static bool constVal(const Constant*C,Val&out){
  const TyD*t=tyd(C->getType());
  if(isa<UndefValue>(C)){ out=undefOf(t); return true; }
  if(isa<ConstantAggregateZero>(C)||isa<ConstantPointerNull>(C)){ out=zeroOf(t); return true; }
  if(auto ci=dyn_cast<ConstantInt>(C)){ if(ci->getBitWidth()>64){ if(ci->getValue().getActiveBits()<=64){ out=cv(64,ci->getValue().getZExtValue()); out.w=64; } return false; } out=cv(ci->getBitWidth(),ci->getZExtValue()); return true; }
  if(auto cf=dyn_cast<ConstantFP>(C)){ if(t->w>64) return false; out=cv(t->w,cf->getValueAPF().bitcastToAPInt().getZExtValue()); return true; }
  if(auto f=dyn_cast<Function>(C)){ out=cv(64,getFn(f)->addr); return true; }
  if(auto g=dyn_cast<GlobalVariable>(C)){ out=cv(64,::M.globalAddr[g->getName().str()]); return true; }
  if(auto a=dyn_cast<GlobalAlias>(C)) return constVal(a->getAliasee(),out);
  if(isa<ConstantStruct>(C)||isa<ConstantArray>(C)||isa<ConstantVector>(C)){ auto a=new AggV; for(unsigned i=0;i<C->getNumOperands();i++){ Val v; if(!constVal(cast<Constant>(C->getOperand(i)),v)) return false; a->push_back(v);} out=Val(); out.agg=a; return true; }
  if(auto cd=dyn_cast<ConstantDataSequential>(C)){ auto a=new AggV; for(unsigned i=0;i<cd->getNumElements();i++){ Val v; if(!constVal(cd->getElementAsConstant(i),v)) return false; a->push_back(v);} out=Val(); out.agg=a; return true; }
  if(auto ce=dyn_cast<ConstantExpr>(C)){
    Val a,b;
    switch(ce->getOpcode()){
    case Instruction::GetElementPtr: { auto g=cast<GEPOperator>(ce); if(!constVal(cast<Constant>(g->getPointerOperand()),a)) return false; APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) return false; out=cv(64,a.c+off.getSExtValue()); return true; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: case Instruction::Trunc:
      if(!constVal(cast<Constant>(ce->getOperand(0)),a)||a.agg) return false; out=cv(t->w,a.c); return true;
    case Instruction::Sub: case Instruction::Add: case Instruction::Mul:
      if(!constVal(ce->getOperand(0),a)||!constVal(ce->getOperand(1),b)) return false;
      out=cv(t->w,ce->getOpcode()==Instruction::Sub?a.c-b.c:ce->getOpcode()==Instruction::Add?a.c+b.c:a.c*b.c); return true;
    case Instruction::ICmp:
      if(!constVal(ce->getOperand(0),a)||!constVal(ce->getOperand(1),b)) return false;
      if(ce->getPredicate()==CmpInst::ICMP_EQ){ out=cv(1,a.c==b.c); return true; } if(ce->getPredicate()==CmpInst::ICMP_NE){ out=cv(1,a.c!=b.c); return true; } return false;
    default: return false;
    }
  }
  return false;
}
static void fillGlobal(GlobalD&g,uint64_t off,const Constant*C){
  const TyD*t=tyd(C->getType());
  uint64_t n=DL->getTypeStoreSize(C->getType());
  if(isa<UndefValue>(C)){ return; }
  if(C->isNullValue()){ for(uint64_t i=0;i<DL->getTypeAllocSize(C->getType())&&off+i<g.size;i++){ g.data[off+i]=0; g.def[off+i]=1; } return; }
  if(auto cd=dyn_cast<ConstantDataSequential>(C)){ StringRef r=cd->getRawDataValues(); memcpy(&g.data[off],r.data(),r.size()); memset(&g.def[off],1,r.size()); return; }
  if(isa<ConstantStruct>(C)||isa<ConstantArray>(C)||isa<ConstantVector>(C)){ for(unsigned i=0;i<C->getNumOperands();i++) fillGlobal(g,off+t->el[i].first,cast<Constant>(C->getOperand(i))); return; }
  Val v; if(constVal(C,v)&&!v.agg){ for(uint64_t i=0;i<n;i++){ g.data[off+i]=(v.c>>(8*i))&255; g.def[off+i]=1; } }
}
static std::string tiName(const Constant*C){ if(!C||C->isNullValue()) return ""; return C->stripPointerCasts()->getName().str(); }
static void addTI(const GlobalVariable&g){
  std::string n=g.getName().str(); if(n.compare(0,4,"_ZTI")!=0) return; auto&v=::M.ti[n]; if(!g.hasInitializer()) return;
  auto cs=dyn_cast<ConstantStruct>(g.getInitializer()); if(!cs) return;
  if(cs->getNumOperands()==3) v.push_back({tiName(cast<Constant>(cs->getOperand(2))),0,false});
  else if(cs->getNumOperands()>4) for(unsigned i=4;i+1<cs->getNumOperands();i+=2){ auto ofl=cast<ConstantInt>(cs->getOperand(i+1))->getSExtValue(); v.push_back({tiName(cast<Constant>(cs->getOperand(i))),ofl>>8,(bool)(ofl&1)}); }
}
bool loadModule(const std::string&path,std::string&err){
  SMDiagnostic d; LM=parseIRFile(path,d,Ctx); if(!LM){ err=d.getMessage().str(); return false; }
  DL=&LM->getDataLayout(); uint64_t id=1; // object ids; must match the engine's global object order
  for(auto&F:*LM){ auto f=new Fn; f->name=F.getName().str(); f->llvm=&F; f->isDecl=F.isDeclaration(); f->nounwind=F.doesNotThrow(); f->varargs=F.isVarArg(); f->builtin=builtinId(f->name); ::M.fns.push_back(f); ::M.fnByName[f->name]=f; f->nargs=F.arg_size(); f->ret=tyd(F.getReturnType()); for(auto&a:F.args()) f->argTy.push_back(tyd(a.getType()));
    if(auto sp=F.getSubprogram()){ f->srcFile=sp->getFilename().str(); f->fromCest=f->srcFile.find("cest/")!=std::string::npos&&f->srcFile.find("include")!=std::string::npos; } }
  for(auto f: ::M.fns){ f->addr=(id<<32)|0x10000; ::M.fnByAddr[f->addr]=f; id++; }
  for(auto&G:LM->globals()){ GlobalD g; g.name=G.getName().str(); g.size=G.getValueType()->isSized()?DL->getTypeAllocSize(G.getValueType()):8; g.writable=!G.isConstant(); g.external=!G.hasInitializer(); g.llvm=&G; if(g.external&&g.size<1024) g.size=1024; g.addr=(id<<32)|0x10000; id++; ::M.globalAddr[g.name]=g.addr; ::M.globalByAddr[g.addr]=g.name; ::M.globals.push_back(g); addTI(G); }
  for(auto&A:LM->aliases()){ if(auto f=dyn_cast<Function>(A.getAliasee()->stripPointerCasts())){ ::M.fnByName[A.getName().str()]=getFn(f); } }
  for(auto&g: ::M.globals){ g.data.assign(g.size,0); g.def.assign(g.size,0); auto G=(GlobalVariable*)g.llvm; if(G->hasInitializer()) fillGlobal(g,0,G->getInitializer()); if(!G->isConstant()||g.external){ if(g.external) g.def.assign(g.size,g.external?1:0); } }
  if(auto gc=LM->getNamedGlobal("llvm.global_ctors")) if(gc->hasInitializer()) if(auto ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&o:ca->operands()){ auto cs=cast<ConstantStruct>(o); ::M.ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),cs->getOperand(1)->stripPointerCasts()->getName().str()}); }
  return true;
}
void translate(Fn*f){
  if(f->translated) return; f->translated=true; auto F=(Function*)f->llvm;
  std::unordered_map<const Value*,int> slot; int n=0;
  for(auto&a:F->args()) slot[&a]=n++;
  std::unordered_map<const BasicBlock*,int> bbpc; 
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) slot[&I]=n++;
  f->nregs=n;
  auto unsupConst=[&](const Value*){ Val v; v.w=64; v.um=0xff; f->consts.push_back(v); return -(int)f->consts.size(); };
  std::unordered_map<const Value*,int> constIdx;
  auto op=[&](const Value*v)->int{
    auto it=slot.find(v); if(it!=slot.end()) return it->second;
    if(auto C=dyn_cast<Constant>(v)){ auto ic=constIdx.find(v); if(ic!=constIdx.end()) return ic->second; Val x; if(!constVal(C,x)) return constIdx[v]=unsupConst(v); f->consts.push_back(x); return constIdx[v]=-(int)f->consts.size(); }
    return unsupConst(v);
  };
  struct Fix { size_t inst; int which; const BasicBlock*from,*to; };
  std::vector<std::pair<int,std::pair<const BasicBlock*,const BasicBlock*>>> edgeFix;
  auto edge=[&](const BasicBlock*from,const BasicBlock*to){ Edge e; e.target=-1; for(auto&ph:to->phis()) e.moves.push_back({slot[&ph],op(ph.getIncomingValueForBlock(from))}); f->edges.push_back(e); int i=f->edges.size()-1; edgeFix.push_back({i,{from,to}}); return i; };
  auto emit=[&](Inst i){ f->code.push_back(i); };
  std::string lastFile;
  for(auto&B:*F){
    bbpc[&B]=f->code.size();
    for(auto&I:B){
      if(isa<PHINode>(I)) continue;
      if(isa<DbgInfoIntrinsic>(I)) continue;
      Inst i{}; i.dst=I.getType()->isVoidTy()?-1:slot[&I]; i.line=0; i.w=0;
      if(auto&dl=I.getDebugLoc()){ i.line=dl.getLine(); std::string fn=cast<DIScope>(dl.getScope())->getFilename().str(); if(f->files.empty()||f->files.back()!=fn){ size_t k=0; for(;k<f->files.size();k++) if(f->files[k]==fn) break; if(k==f->files.size()) f->files.push_back(fn); i.line|=k<<20; } else i.line|=(f->files.size()-1)<<20; }
      const TyD*t=tyd(I.getType()); i.w=t->w;
      auto unsup=[&](const std::string&why){ i.op=O_UNSUP; f->unsup.push_back(why); i.x=f->unsup.size()-1; };
      auto wide=[&](Type*x){ return x->isIntegerTy()?x->getIntegerBitWidth()>64:(x->isX86_FP80Ty()||x->isFP128Ty()||x->isHalfTy()); };
      bool w=wide(I.getType()); for(auto&o:I.operands()) if(!isa<BasicBlock>(o)&&wide(o->getType())) w=true;
      if(w&&!isa<CallBase>(I)){ unsup("wide type in "+std::string(I.getOpcodeName())); emit(i); if(I.isTerminator()){} continue; }
      if(auto bo=dyn_cast<BinaryOperator>(&I)){
        if(I.getType()->isVectorTy()){ unsup("vector arithmetic"); emit(i); continue; }
        i.op=O_BIN; i.a=op(bo->getOperand(0)); i.b=op(bo->getOperand(1));
        switch(bo->getOpcode()){ case Instruction::Add:i.sub=E_ADD;break; case Instruction::Sub:i.sub=E_SUB;break; case Instruction::Mul:i.sub=E_MUL;break; case Instruction::UDiv:i.sub=E_UDIV;break; case Instruction::SDiv:i.sub=E_SDIV;break; case Instruction::URem:i.sub=E_UREM;break; case Instruction::SRem:i.sub=E_SREM;break; case Instruction::And:i.sub=E_AND;break; case Instruction::Or:i.sub=E_OR;break; case Instruction::Xor:i.sub=E_XOR;break; case Instruction::Shl:i.sub=E_SHL;break; case Instruction::LShr:i.sub=E_LSHR;break; case Instruction::AShr:i.sub=E_ASHR;break; case Instruction::FAdd:i.sub=E_FADD;break; case Instruction::FSub:i.sub=E_FSUB;break; case Instruction::FMul:i.sub=E_FMUL;break; case Instruction::FDiv:i.sub=E_FDIV;break; case Instruction::FRem:i.sub=E_FREM;break; default: unsup("binop"); }
        if(auto ob=dyn_cast<OverflowingBinaryOperator>(bo)) i.x=ob->hasNoSignedWrap()?1:0;
      } else if(auto uo=dyn_cast<UnaryOperator>(&I)){ i.op=O_FNEG; i.a=op(uo->getOperand(0)); if(I.getType()->isVectorTy()) unsup("vector fneg");
      } else if(auto ic=dyn_cast<ICmpInst>(&I)){ i.op=O_ICMP; i.sub=ic->getPredicate(); i.a=op(ic->getOperand(0)); i.b=op(ic->getOperand(1)); if(I.getType()->isVectorTy()) unsup("vector icmp");
      } else if(auto fc=dyn_cast<FCmpInst>(&I)){ i.op=O_FCMP; i.sub=fc->getPredicate(); i.a=op(fc->getOperand(0)); i.b=op(fc->getOperand(1)); if(I.getType()->isVectorTy()) unsup("vector fcmp");
      } else if(auto ca=dyn_cast<CastInst>(&I)){ i.op=O_CAST; i.a=op(ca->getOperand(0)); i.x=0;
        switch(ca->getOpcode()){ case Instruction::Trunc:i.sub=C_TRUNC;break; case Instruction::ZExt:i.sub=C_ZEXT;break; case Instruction::SExt:i.sub=C_SEXT;break; case Instruction::FPTrunc:i.sub=C_FTRUNC;break; case Instruction::FPExt:i.sub=C_FEXT;break; case Instruction::FPToSI:i.sub=C_FTOSI;break; case Instruction::FPToUI:i.sub=C_FTOUI;break; case Instruction::SIToFP:i.sub=C_SITOF;break; case Instruction::UIToFP:i.sub=C_UITOF;break;
          case Instruction::PtrToInt: case Instruction::IntToPtr: i.sub=C_ZEXT; if(I.getType()->isIntegerTy()&&I.getType()->getIntegerBitWidth()<64) i.sub=C_TRUNC; break;
          default: i.sub=C_BIT; f->tys.push_back(tyd(ca->getOperand(0)->getType())); f->tys.push_back(t); i.x=f->tys.size()-2; }
        if(i.sub!=C_BIT&&I.getType()->isVectorTy()) unsup("vector cast");
      } else if(auto g=dyn_cast<GetElementPtrInst>(&I)){ i.op=O_GEP; i.a=op(g->getPointerOperand()); GepD d; d.off=0; d.inb=g->isInBounds();
        if(I.getType()->isVectorTy()) { unsup("vector gep"); emit(i); continue; }
        for(auto gt=gep_type_begin(g),ge=gep_type_end(g);gt!=ge;++gt){ Value*ix=gt.getOperand(); if(auto st=gt.getStructTypeOrNull()){ d.off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { int64_t sz=DL->getTypeAllocSize(gt.getIndexedType()); if(auto c=dyn_cast<ConstantInt>(ix)) d.off+=c->getSExtValue()*sz; else d.terms.push_back({op(ix),sz}); } }
        f->geps.push_back(d); i.x=f->geps.size()-1;
      } else if(auto al=dyn_cast<AllocaInst>(&I)){ i.op=O_ALLOCA; uint64_t sz=DL->getTypeAllocSize(al->getAllocatedType()); i.x=sz; i.a=op(al->getArraySize());
      } else if(auto ld=dyn_cast<LoadInst>(&I)){ i.op=O_LOAD; i.a=op(ld->getPointerOperand()); f->tys.push_back(t); i.x=f->tys.size()-1;
      } else if(auto st=dyn_cast<StoreInst>(&I)){ i.op=O_STORE; i.a=op(st->getValueOperand()); i.b=op(st->getPointerOperand()); f->tys.push_back(tyd(st->getValueOperand()->getType())); i.x=f->tys.size()-1;
      } else if(auto br=dyn_cast<BranchInst>(&I)){ if(br->isUnconditional()){ i.op=O_BR; i.x=edge(&B,br->getSuccessor(0)); } else { i.op=O_CBR; i.a=op(br->getCondition()); i.x=edge(&B,br->getSuccessor(0)); i.b=edge(&B,br->getSuccessor(1)); }
      } else if(auto sw=dyn_cast<SwitchInst>(&I)){ i.op=O_SWITCH; i.a=op(sw->getCondition()); SwitchD d; d.w=tyd(sw->getCondition()->getType())->w; for(auto&c:sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(),edge(&B,c.getCaseSuccessor())}); d.def=edge(&B,sw->getDefaultDest()); f->sws.push_back(d); i.x=f->sws.size()-1;
      } else if(auto rt=dyn_cast<ReturnInst>(&I)){ i.op=O_RET; i.sub=rt->getReturnValue()!=nullptr; if(i.sub) i.a=op(rt->getReturnValue());
      } else if(isa<UnreachableInst>(I)){ i.op=O_UNREACH;
      } else if(auto se=dyn_cast<SelectInst>(&I)){ i.op=O_SELECT; i.a=op(se->getCondition()); i.b=op(se->getTrueValue()); i.c=op(se->getFalseValue()); if(se->getCondition()->getType()->isVectorTy()) unsup("vector select");
      } else if(auto cb=dyn_cast<CallBase>(&I)){
        CallD d; d.ret=t; 
        if(cb->isInlineAsm()){ // empty asm is a compiler barrier
          d.builtin=B_NOP; }
        Value*cv_=cb->getCalledOperand()->stripPointerCasts(); if(auto ga=dyn_cast<GlobalAlias>(cv_)) cv_=ga->getAliasee()->stripPointerCasts();
        if(auto cf=dyn_cast<Function>(cv_)){ d.direct=getFn(cf); d.name=cf->getName().str(); d.builtin=d.direct->builtin; } else if(!cb->isInlineAsm()) d.callee=op(cb->getCalledOperand());
        for(unsigned k=0;k<cb->arg_size();k++){ Value*a=cb->getArgOperand(k); if(a->getType()->isMetadataTy()){ Val z; d.args.push_back(unsupConst(nullptr)); } else d.args.push_back(op(a)); d.argTy.push_back(tyd(a->getType())); d.byval.push_back(cb->isByValArgument(k)?DL->getTypeAllocSize(cb->getParamByValType(k)):0); }
        if(auto iv=dyn_cast<InvokeInst>(cb)){ d.normal=edge(&B,iv->getNormalDest()); d.unwind=edge(&B,iv->getUnwindDest()); }
        f->calls.push_back(d); i.op=O_CALL; i.x=f->calls.size()-1;
      } else if(auto lp=dyn_cast<LandingPadInst>(&I)){ i.op=O_LPAD; LpadD d; d.cleanup=lp->isCleanup(); for(unsigned k=0;k<lp->getNumClauses();k++){ auto c=lp->getClause(k); if(lp->isCatch(k)) d.clauses.push_back({true,{tiName(c)}}); else { std::vector<std::string> v; if(auto ar=dyn_cast<ConstantArray>(c)) for(auto&o:ar->operands()) v.push_back(tiName(cast<Constant>(o))); d.clauses.push_back({false,v}); } } f->lpads.push_back(d); i.x=f->lpads.size()-1;
      } else if(auto rs=dyn_cast<ResumeInst>(&I)){ i.op=O_RESUME; i.a=op(rs->getValue());
      } else if(auto ev=dyn_cast<ExtractValueInst>(&I)){ i.op=O_EXTV; i.a=op(ev->getAggregateOperand()); f->idx.push_back(std::vector<unsigned>(ev->idx_begin(),ev->idx_end())); i.x=f->idx.size()-1;
      } else if(auto iv=dyn_cast<InsertValueInst>(&I)){ i.op=O_INSV; i.a=op(iv->getAggregateOperand()); i.b=op(iv->getInsertedValueOperand()); f->idx.push_back(std::vector<unsigned>(iv->idx_begin(),iv->idx_end())); i.x=f->idx.size()-1;
      } else if(isa<FreezeInst>(I)){ i.op=O_FREEZE; i.a=op(I.getOperand(0));
      } else if(auto rm=dyn_cast<AtomicRMWInst>(&I)){ i.op=O_RMW; i.a=op(rm->getPointerOperand()); i.b=op(rm->getValOperand()); f->tys.push_back(t); i.x=f->tys.size()-1; switch(rm->getOperation()){ case AtomicRMWInst::Add:i.sub=E_ADD;break; case AtomicRMWInst::Sub:i.sub=E_SUB;break; case AtomicRMWInst::And:i.sub=E_AND;break; case AtomicRMWInst::Or:i.sub=E_OR;break; case AtomicRMWInst::Xor:i.sub=E_XOR;break; case AtomicRMWInst::Xchg:i.sub=0;break; default: unsup("rmw"); }
      } else if(isa<FenceInst>(I)){ continue;
      } else if(auto ee=dyn_cast<ExtractElementInst>(&I)){ i.op=O_EXTEL; i.a=op(ee->getVectorOperand()); i.b=op(ee->getIndexOperand());
      } else if(auto ie=dyn_cast<InsertElementInst>(&I)){ i.op=O_INSEL; i.a=op(ie->getOperand(0)); i.b=op(ie->getOperand(1)); i.c=op(ie->getOperand(2));
      } else unsup(std::string("instruction ")+I.getOpcodeName());
      emit(i);
    }
  }
  for(auto&e:edgeFix) f->edges[e.first].target=bbpc[e.second.second];
}
