// irdump: read an LLVM bitcode/IR module, print its functions as JSON for the
// normal-form analysis (nf.py).  No transformation is performed here beyond
// lowering GEPs to (base, constant, scaled indices).
#include "llvm/ADT/MapVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int> ids;

static json::Value ty(Type *t)
{
  if (t->isVoidTy()) return "v";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isX86_FP80Ty()) return "f80";
  if (t->isPointerTy()) return "p";
  if (auto *v = dyn_cast<FixedVectorType>(t))
  { json::Array a; a.push_back("vec"); a.push_back((int)v->getNumElements()); a.push_back(ty(v->getElementType())); return a;}
  if (auto *s = dyn_cast<StructType>(t))
  { json::Array a; a.push_back("st"); const StructLayout *sl = s->isSized() && !s->isOpaque() ? DL->getStructLayout(s) : nullptr;
    for (unsigned i = 0; i < s->getNumElements(); ++i) { json::Array e; e.push_back(sl ? (int64_t)sl->getElementOffset(i) : 0); e.push_back(ty(s->getElementType(i))); a.push_back(std::move(e));}
    return a;}
  if (auto *r = dyn_cast<ArrayType>(t))
  { json::Array a; a.push_back("arr"); a.push_back((int64_t)r->getNumElements()); a.push_back((int64_t)DL->getTypeAllocSize(r->getElementType()).getFixedValue()); a.push_back(ty(r->getElementType())); return a;}
  return "?";
}

static json::Value cst(const Constant *c);

static std::string fpstr(const APFloat &f)
{
  // exact hexadecimal for finite values
  if (f.isNaN()) return "nan";
  if (f.isInfinity()) return f.isNegative() ? "-inf" : "inf";
  bool lose; APFloat d(f); d.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
  char buf[64]; snprintf(buf, sizeof buf, "%a", d.convertToDouble());
  return buf;
}

static json::Value op(const Value *v)
{
  if (auto *c = dyn_cast<Constant>(v)) return cst(c);
  if (isa<MetadataAsValue>(v)) return json::Array{"md"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  if (auto *b = dyn_cast<BasicBlock>(v)) return json::Array{"bb", ids.count(b) ? ids[b] : -1};
  auto i = ids.find(v);
  return json::Array{"r", i == ids.end() ? -1 : i->second};
}

static json::Value cst(const Constant *c)
{
  if (auto *ci = dyn_cast<ConstantInt>(c))
  {
    SmallString<40> s; ci->getValue().toString(s, 10, false);
    return json::Array{"i", (int)ci->getBitWidth(), std::string(s)};
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) return json::Array{"f", fpstr(f->getValueAPF())};
  if (isa<ConstantPointerNull>(c)) return json::Array{"null"};
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return json::Array{"undef"};
  if (isa<ConstantAggregateZero>(c)) return json::Array{"zero", ty(c->getType())};
  if (auto *fn = dyn_cast<Function>(c)) return json::Array{"fn", fn->getName().str()};
  if (auto *g = dyn_cast<GlobalValue>(c)) return json::Array{"g", g->getName().str(), 0};
  if (auto *ce = dyn_cast<ConstantExpr>(c))
  {
    APInt off(64, 0);
    if (ce->getType()->isPointerTy())
    {
      const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *g = dyn_cast<GlobalValue>(b)) return json::Array{"g", g->getName().str(), off.getSExtValue()};
    }
    return json::Array{"ce", ce->getOpcodeName()};
  }
  if (isa<ConstantDataSequential>(c) || isa<ConstantAggregate>(c))
  {
    json::Array a; a.push_back("agg"); a.push_back(ty(c->getType()));
    if (auto *cd = dyn_cast<ConstantDataSequential>(c))
    { if (cd->getNumElements() > 4096) return json::Array{"big"};
      for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(cst(cd->getElementAsConstant(i)));}
    else
      for (auto &o : c->operands()) a.push_back(cst(cast<Constant>(o)));
    return a;
  }
  return json::Array{"cx"};
}

static json::Value loc(const Instruction &I)
{
  const DILocation *d = I.getDebugLoc().get();
  if (!d) return nullptr;
  json::Array chain;
  for (int n = 0; d && n < 12; d = d->getInlinedAt(), ++n)
  {
    std::string fn;
    if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
    chain.push_back(json::Array{d->getFilename().str(), (int)d->getLine(), fn});
  }
  return chain;
}

static json::Object function(Function &F)
{
  json::Object o;
  o["name"] = F.getName().str();
  o["ret"] = ty(F.getReturnType());
  ids.clear();
  int n = 0;
  json::Array args;
  for (auto &a : F.args())
  { ids[&a] = n++; json::Object ao; ao["name"] = a.getName().str(); ao["ty"] = ty(a.getType());
    if (a.hasNoAliasAttr()) ao["noalias"] = true;
    if (a.hasStructRetAttr()) ao["sret"] = true;
    if (a.hasByValAttr()) ao["byval"] = true;
    args.push_back(std::move(ao)); }
  o["args"] = std::move(args);
  int bn = 0;
  for (auto &B : F) ids[&B] = bn++;
  for (auto &I : instructions(F)) ids[&I] = n++;
  json::Array blocks;
  for (auto &B : F)
  {
    json::Object bo; bo["id"] = ids[&B];
    json::Array is;
    for (auto &I : B)
    {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *ii = dyn_cast<IntrinsicInst>(&I))
      { auto id = ii->getIntrinsicID();
        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume ||
            id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::invariant_start || id == Intrinsic::donothing) continue; }
      json::Object io;
      io["o"] = I.getOpcodeName();
      io["id"] = ids[&I];
      io["ty"] = ty(I.getType());
      json::Array ops;
      if (auto *g = dyn_cast<GetElementPtrInst>(&I))
      {
        MapVector<Value*, APInt> vo; APInt co(64, 0);
        if (!g->getType()->isVectorTy() && cast<GEPOperator>(g)->collectOffset(*DL, 64, vo, co))
        {
          ops.push_back(op(g->getPointerOperand()));
          json::Array idx;
          for (auto &p : vo) { json::Array e; e.push_back(op(p.first)); e.push_back(ty(p.first->getType())); e.push_back(p.second.getSExtValue()); idx.push_back(std::move(e));}
          io["off"] = co.getSExtValue();
          io["idx"] = std::move(idx);
        }
        else io["bad"] = true;
      }
      else if (auto *ph = dyn_cast<PHINode>(&I))
      {
        for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
        { json::Array e; e.push_back(op(ph->getIncomingValue(i))); e.push_back(ids[ph->getIncomingBlock(i)]); ops.push_back(std::move(e));}
      }
      else if (auto *cb = dyn_cast<CallBase>(&I))
      {
        for (auto &a : cb->args()) ops.push_back(op(a.get()));
        json::Array at; for (auto &a : cb->args()) at.push_back(ty(a->getType()));
        io["aty"] = std::move(at);
        if (Function *f = cb->getCalledFunction()) io["fn"] = f->getName().str();
        else io["fp"] = op(cb->getCalledOperand());
        if (auto *iv = dyn_cast<InvokeInst>(cb)) { io["normal"] = ids[iv->getNormalDest()]; io["unwind"] = ids[iv->getUnwindDest()]; }
        if (cb->onlyReadsMemory()) io["ro"] = true;
        if (cb->doesNotAccessMemory()) io["rn"] = true;
        if (cb->doesNotReturn()) io["noret"] = true;
        json::Array bv; for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->isByValArgument(i)) { json::Array e; e.push_back((int)i); e.push_back((int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)).getFixedValue()); bv.push_back(std::move(e)); }
        if (!bv.empty()) io["byval"] = std::move(bv);
      }
      else
      {
        for (auto &u : I.operands()) ops.push_back(op(u.get()));
        if (auto *c = dyn_cast<CmpInst>(&I)) { io["p"] = CmpInst::getPredicateName(c->getPredicate()).str(); io["sty"] = ty(c->getOperand(0)->getType()); }
        if (auto *pd = dyn_cast<PossiblyDisjointInst>(&I)) if (pd->isDisjoint()) io["dj"] = true;
        if (isa<CastInst>(I)) io["sty"] = ty(I.getOperand(0)->getType());
        if (auto *s = dyn_cast<StoreInst>(&I)) { io["sty"] = ty(s->getValueOperand()->getType()); io["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue(); }
        if (isa<LoadInst>(I)) io["sz"] = (int64_t)DL->getTypeStoreSize(I.getType()).getFixedValue();
        if (auto *a = dyn_cast<AllocaInst>(&I)) { io["sz"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue(); }
        if (auto *e = dyn_cast<ExtractValueInst>(&I)) { json::Array x; for (auto i : e->indices()) x.push_back((int)i); io["ix"] = std::move(x);}
        if (auto *e = dyn_cast<InsertValueInst>(&I)) { json::Array x; for (auto i : e->indices()) x.push_back((int)i); io["ix"] = std::move(x);}
        if (auto *e = dyn_cast<ShuffleVectorInst>(&I)) { json::Array x; for (auto i : e->getShuffleMask()) x.push_back(i); io["ix"] = std::move(x);}
        if (auto *s = dyn_cast<SwitchInst>(&I)) { json::Array x; for (auto &c : s->cases()) { SmallString<40> v; c.getCaseValue()->getValue().toString(v, 10, false); json::Array e; e.push_back(std::string(v)); e.push_back(ids[c.getCaseSuccessor()]); x.push_back(std::move(e));} io["cases"] = std::move(x); io["dflt"] = ids[s->getDefaultDest()]; ops.clear(); ops.push_back(op(s->getCondition())); io["sty"] = ty(s->getCondition()->getType()); }
        if (auto *b = dyn_cast<BranchInst>(&I)) { json::Array x; for (unsigned k = 0; k < b->getNumSuccessors(); ++k) x.push_back(ids[b->getSuccessor(k)]); io["succ"] = std::move(x); ops.clear(); if (b->isConditional()) ops.push_back(op(b->getCondition()));}
        if (auto *r = dyn_cast<AtomicRMWInst>(&I)) io["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
      }
      io["a"] = std::move(ops);
      auto l = loc(I);
      if (l.kind() != json::Value::Null) io["l"] = std::move(l);
      is.push_back(std::move(io));
    }
    bo["i"] = std::move(is);
    json::Array su; for (auto *s : successors(&B)) su.push_back(ids[s]);
    bo["succ"] = std::move(su);
    blocks.push_back(std::move(bo));
  }
  o["blocks"] = std::move(blocks);
  DominatorTree DT(F); LoopInfo LI(DT);
  json::Array loops;
  std::map<Loop*, int> li; 
  for (Loop *L : LI.getLoopsInPreorder())
  {
    int k = li.size(); li[L] = k;
    json::Object lo; lo["header"] = ids[L->getHeader()];
    json::Array bs; for (auto *b : L->blocks()) bs.push_back(ids[b]); lo["blocks"] = std::move(bs);
    lo["parent"] = L->getParentLoop() ? li[L->getParentLoop()] : -1;
    loops.push_back(std::move(lo));
  }
  o["loops"] = std::move(loops);
  json::Object idom;
  for (auto &B : F) { auto *nd = DT.getNode(&B); if (nd && nd->getIDom()) idom[std::to_string(ids[&B])] = ids[nd->getIDom()->getBlock()]; }
  o["idom"] = std::move(idom);
  return o;
}

int main(int argc, char **argv)
{
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  DL = &M->getDataLayout();
  json::Object top; json::Array fs;
  for (auto &F : *M) if (!F.isDeclaration()) fs.push_back(function(F));
  top["functions"] = std::move(fs);
  json::Object gs;
  for (auto &G : M->globals())
  {
    json::Object g; g["const"] = G.isConstant();
    g["ty"] = ty(G.getValueType());
    if (G.hasInitializer() && (G.isConstant() || G.hasInternalLinkage() || G.hasDefinitiveInitializer())) g["init"] = cst(G.getInitializer());
    gs[G.getName()] = std::move(g);
  }
  top["globals"] = std::move(gs);
  outs() << json::Value(std::move(top)) << "\n";
  return 0;
}
