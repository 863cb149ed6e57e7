// lockset: links LLVM modules and decides, for every variable that is shared by
// all threads, whether every two conflicting accesses are ordered by a lock, by
// the one-time guard of the variable's initialization, or by being atomic.
//
//   lockset MODULE... -- PATTERN...
//
// PATTERN: "var=TEXT" / "calls=GROUP:PREFIX[,PREFIX..]" name further objects:
// the state behind a group of external functions; "field=STRUCT:INDEX" the field
// of every object of a class.
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
typedef std::set<std::string> Set;

static std::string dem(StringRef n) { return demangle(n.str());}

static bool name_is(const CallBase *c, std::initializer_list<const char *> l)
{
  auto *f = dyn_cast_or_null<Function>(c->getCalledOperand()->stripPointerCasts());
  if (!f) return false;
  for (auto s : l) if (f->getName() == s) return true;
  return false;
}
static const char *const LOCKS[] = {"pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_spin_lock"};
static bool is_lock(const CallBase *c)
{ return name_is(c, {"pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_spin_lock", "__gthread_mutex_lock", "__gthread_recursive_mutex_lock"});}
static bool is_unlock(const CallBase *c)
{ return name_is(c, {"pthread_mutex_unlock", "pthread_rwlock_unlock", "pthread_spin_unlock", "__gthread_mutex_unlock", "__gthread_recursive_mutex_unlock"});}

// the global variable an address lies in, or null
static const GlobalVariable *root(const Value *v)
{
  for (int n = 0; n < 64; ++n)
  {
    v = v->stripPointerCasts();
    if (auto *g = dyn_cast<GEPOperator>(v)) { v = g->getPointerOperand(); continue;}
    if (auto *i = dyn_cast<IntrinsicInst>(v))
      if (i->getIntrinsicID() == Intrinsic::threadlocal_address || i->getIntrinsicID() == Intrinsic::launder_invariant_group || i->getIntrinsicID() == Intrinsic::strip_invariant_group)
      { v = i->getArgOperand(0); continue;}
    if (auto *a = dyn_cast<GlobalAlias>(v)) { v = a->getAliasee(); continue;}
    break;
  }
  return dyn_cast<GlobalVariable>(v);
}
static std::string lockname(const Value *v)
{
  if (auto *g = root(v)) return "lock:" + g->getName().str();
  return "";    // a mutex that is not a variable: protects nothing here
}
static std::string where(const Instruction &I)
{
  const DILocation *d = I.getDebugLoc().get();
  // innermost frame in the library (not in the C++ library)
  while (d)
  {
    std::string f = d->getFilename().str();
    if (f.find("/include/c++") == std::string::npos && f.find("/bits/") == std::string::npos)
    {
      auto p = f.find("/src/");
      return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(d->getLine());
    }
    d = d->getInlinedAt();
  }
  return "";
}

struct Access { const Instruction *I; std::string obj; bool write; bool atomic; const Function *F;};
static std::map<const Function *, bool> initonly;
static std::map<const Function *, std::pair<bool, Set> > entry;   // (reached, held)
struct Summary { Set gen, kill;};
static std::map<const Function *, Summary> summary;
typedef std::map<const Instruction *, Set> Held;
static std::map<const Function *, Held> held;

static Set meet(Set const &a, Set const &b)
{
  Set r;
  for (auto &x : a) if (b.count(x)) r.insert(x);
  return r;
}

// is `cond` true exactly if the guard byte of variable g is set (or clear)?
static bool guardtest(const Value *cond, std::string &g, bool &set_when_true)
{
  set_when_true = true;
  for (int n = 0; n < 8; ++n)
  {
    if (auto *c = dyn_cast<ICmpInst>(cond))
    {
      auto *k = dyn_cast<ConstantInt>(c->getOperand(1));
      if (!k || !k->isZero()) return false;
      if (c->getPredicate() == ICmpInst::ICMP_EQ) set_when_true = !set_when_true;
      else if (c->getPredicate() != ICmpInst::ICMP_NE) return false;
      cond = c->getOperand(0); continue;
    }
    if (auto *b = dyn_cast<BinaryOperator>(cond))
    {
      if (b->getOpcode() == Instruction::Xor && isa<ConstantInt>(b->getOperand(1)) && cast<ConstantInt>(b->getOperand(1))->isOne() && b->getType()->isIntegerTy(1))
      { set_when_true = !set_when_true; cond = b->getOperand(0); continue;}
      if (b->getOpcode() == Instruction::And && isa<ConstantInt>(b->getOperand(1))) { cond = b->getOperand(0); continue;}
      return false;
    }
    if (isa<TruncInst>(cond) || isa<ZExtInst>(cond) || isa<FreezeInst>(cond)) { cond = cast<Instruction>(cond)->getOperand(0); continue;}
    if (auto *l = dyn_cast<LoadInst>(cond))
    {
      auto *gv = root(l->getPointerOperand());
      if (!gv || !gv->getName().starts_with("_ZGV") || !isAcquireOrStronger(l->getOrdering())) return false;
      g = gv->getName().str(); return true;
    }
    if (auto *c = dyn_cast<CallBase>(cond))
    {
      if (!name_is(c, {"__cxa_guard_acquire"})) return false;
      g = "+" + root(c->getArgOperand(0))->getName().str(); return true;
    }
    return false;
  }
  return false;
}

static void analyse(Function &F, Set const &in)
{
  std::map<const BasicBlock *, std::pair<bool, Set> > st;
  std::deque<BasicBlock *> q;
  st[&F.getEntryBlock()] = {true, in};
  q.push_back(&F.getEntryBlock());
  Held h; int steps = 0;
  Set outs, kills; bool first = true;
  while (!q.empty() && ++steps < 200000)
  {
    BasicBlock *B = q.front(); q.pop_front();
    Set s = st[B].second;
    auto push = [&](BasicBlock *T, Set const &v)
    {
      auto &t = st[T];
      Set n = t.first ? meet(t.second, v) : v;
      if (!t.first || n != t.second) { t = {true, n}; q.push_back(T);}
    };
    for (auto &I : *B)
    {
      h[&I] = s;
      if (auto *c = dyn_cast<CallBase>(&I))
      {
        if (is_lock(c)) { auto n = lockname(c->getArgOperand(0)); if (!n.empty()) s.insert(n);}
        else if (is_unlock(c)) { auto n = lockname(c->getArgOperand(0)); if (!n.empty()) s.erase(n); else for (auto i = s.begin(); i != s.end();) if (i->compare(0, 5, "lock:") == 0) i = s.erase(i); else ++i;}
        else if (name_is(c, {"__cxa_guard_release"})) { auto n = root(c->getArgOperand(0))->getName().str(); s.erase("in:" + n); s.insert("done:" + n);}
        else if (name_is(c, {"__cxa_guard_abort"})) { auto n = root(c->getArgOperand(0))->getName().str(); s.erase("in:" + n);}
        else if (auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()))
        {
          auto i = summary.find(f);
          if (i != summary.end()) { for (auto &x : i->second.kill) s.erase(x); for (auto &x : i->second.gen) s.insert(x);}
        }
      }
      if (isa<ReturnInst>(I)) { outs = first ? s : meet(outs, s); first = false;}
    }
    Instruction *T = B->getTerminator();
    auto *br = dyn_cast<BranchInst>(T);
    std::string g; bool st1;
    if (br && br->isConditional() && guardtest(br->getCondition(), g, st1))
    {
      Set a = s, b = s;
      // '+': __cxa_guard_acquire returned nonzero: this thread initializes; zero: it is done
      if (g[0] == '+') { a.insert("in:" + g.substr(1)); b.insert("done:" + g.substr(1));}
      else a.insert("done:" + g);
      push(br->getSuccessor(0), st1 ? a : b); push(br->getSuccessor(1), st1 ? b : a);
    }
    else for (auto *S : successors(B)) push(S, s);
  }
  // instructions first seen with a larger set: recompute in the final state
  for (auto &B : F)
  {
    auto i = st.find(&B);
    if (i == st.end()) { for (auto &I : B) h.erase(&I); continue;}
    Set s = i->second.second;
    for (auto &I : B)
    {
      h[&I] = s;
      if (auto *c = dyn_cast<CallBase>(&I))
      {
        if (is_lock(c)) { auto n = lockname(c->getArgOperand(0)); if (!n.empty()) s.insert(n);}
        else if (is_unlock(c)) { auto n = lockname(c->getArgOperand(0)); if (!n.empty()) s.erase(n); else { Set k; for (auto &x : s) if (x.compare(0, 5, "lock:")) k.insert(x); s = k;}}
        else if (name_is(c, {"__cxa_guard_release"})) { auto n = root(c->getArgOperand(0))->getName().str(); s.erase("in:" + n); s.insert("done:" + n);}
        else if (name_is(c, {"__cxa_guard_abort"})) { auto n = root(c->getArgOperand(0))->getName().str(); s.erase("in:" + n);}
        else if (auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()))
        {
          auto i = summary.find(f);
          if (i != summary.end()) { for (auto &x : i->second.kill) s.erase(x); for (auto &x : i->second.gen) s.insert(x);}
        }
      }
    }
  }
  held[&F] = h;
  if (in.empty())
  {
    Summary m; if (!first) m.gen = outs;
    for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I))
    {
      if (is_unlock(c)) { auto n = lockname(c->getArgOperand(0)); if (!n.empty() && !m.gen.count(n)) m.kill.insert(n);}
      else if (auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts()))
      { auto i = summary.find(f); if (i != summary.end()) for (auto &x : i->second.kill) if (!m.gen.count(x)) m.kill.insert(x);}
    }
    // a balanced function releases only what it took itself
    bool takes = false; Set mine;
    for (auto &B : F) for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) if (is_lock(c)) mine.insert(lockname(c->getArgOperand(0)));
    for (auto &x : mine) m.kill.erase(x);
    summary[&F] = m;
  }
}

static bool starts(StringRef s, std::string const &p) { return s.starts_with(p);}

int main(int argc, char **argv)
{
  LLVMContext ctx; SMDiagnostic err;
  std::unique_ptr<Module> M;
  std::vector<std::pair<std::string, std::vector<std::string> > > groups;
  std::vector<std::pair<std::string, unsigned> > fields;
  int a = 1;
  for (; a < argc && std::string(argv[a]) != "--"; ++a)
  {
    auto m = parseIRFile(argv[a], err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2;}
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2;}
  }
  for (++a; a < argc; ++a)
  {
    std::string s = argv[a];
    if (s.compare(0, 6, "calls=") == 0)
    {
      s = s.substr(6); auto c = s.find(':'); std::vector<std::string> p; std::string rest = s.substr(c + 1);
      for (size_t b = 0; b <= rest.size();) { auto e = rest.find(',', b); if (e == std::string::npos) e = rest.size(); p.push_back(rest.substr(b, e - b)); b = e + 1;}
      groups.push_back({s.substr(0, c), p});
    }
    else if (s.compare(0, 6, "field=") == 0)
    { s = s.substr(6); auto c = s.rfind(':'); fields.push_back({s.substr(0, c), (unsigned)atoi(s.c_str() + c + 1)});}
  }
  // Inline what wraps a lock: the C++ library's, and every function from which a lock is a few calls away.
  std::map<const Function *, int> depth;
  for (int n = 0; n < 6; ++n)
    for (auto &F : *M) if (!F.isDeclaration() && !depth.count(&F))
    {
      bool hit = false;
      for (auto &I : instructions(F)) if (auto *c = dyn_cast<CallBase>(&I))
      {
        auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        if (is_lock(c) || is_unlock(c)) { if (n == 0) hit = true;}
        else if (f && depth.count(f) && depth[f] == n - 1 && n > 0) hit = true;
      }
      if (hit) depth[&F] = -n - 1;
      if (hit && n == 0) depth[&F] = 0; else if (hit) depth[&F] = n;
    }
  for (auto &F : *M)
  {
    if (F.isDeclaration()) continue;
    std::string d = dem(F.getName());
    bool stdfn = d.find("std::") == 0 || d.find("__gnu_cxx::") == 0 || d.find("__gthread") == 0 || F.getName().starts_with("_ZSt") || F.getName().starts_with("_ZNSt") || F.getName().starts_with("_ZNKSt") || F.getName().starts_with("_ZL15__gthread") || d.find("__gthread") != std::string::npos;
    bool wrap = depth.count(&F) && F.getLinkage() != GlobalValue::ExternalLinkage;
    F.removeFnAttr(Attribute::OptimizeNone);
    if (stdfn || wrap) { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline);}
    else { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline);}
  }
  {
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
    PassBuilder pb; pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    for (int round = 0; round < 2; ++round)
    {
      ModulePassManager pm;
      if (auto e = pb.parsePassPipeline(pm, "always-inline,function(sroa,simplifycfg)")) { errs() << toString(std::move(e)) << "\n"; return 2;}
      pm.run(*M, mam);
      // fold constant conditions, but no address arithmetic: the types of what is addressed are still needed
      for (auto &F : *M) for (bool ch = true; ch;)
      {
        ch = false;
        for (auto i = inst_begin(F), e = inst_end(F); i != e;)
        {
          Instruction *I = &*i++;
          if (isa<GetElementPtrInst>(I) || !(isa<ICmpInst>(I) || isa<CastInst>(I) || isa<BinaryOperator>(I) || isa<SelectInst>(I))) continue;
          if (Constant *c = ConstantFoldInstruction(I, M->getDataLayout())) { I->replaceAllUsesWith(c); I->eraseFromParent(); ch = true;}
        }
      }
      mam.clear();
      ModulePassManager p2;
      if (auto e = pb.parsePassPipeline(p2, "function(simplifycfg)")) return 2;
      p2.run(*M, mam); mam.clear();
    }
  }
  // initialization before main
  std::set<const Function *> inits;
  for (auto &F : *M)
    if (F.getName().starts_with("_GLOBAL__sub_I_") || F.getName().starts_with("__cxx_global_var_init") || F.getName().starts_with("_GLOBAL__I_")) inits.insert(&F);
  // address taken: may be called by anyone
  std::set<const Function *> taken; std::map<const Function *, std::vector<const CallBase *> > callers;
  for (auto &F : *M) for (auto *u : F.users())
  {
    auto *c = dyn_cast<CallBase>(u);
    if (c && c->getCalledOperand()->stripPointerCasts() == &F) callers[&F].push_back(c);
    else if (isa<Instruction>(u) || isa<ConstantExpr>(u) || isa<ConstantAggregate>(u) || isa<GlobalVariable>(u) || isa<GlobalAlias>(u)) taken.insert(&F);
  }
  auto inheader = [](const Function &F)
  {
    auto *sp = F.getSubprogram(); if (!sp) return true;
    StringRef f = sp->getFilename(); return f.ends_with(".hpp") || f.ends_with(".h");
  };
  auto isroot = [&](const Function &F)
  {
    if (inits.count(&F)) return false;
    if (taken.count(&F)) return true;
    if (F.hasLocalLinkage()) return callers[&F].empty();
    if (F.hasLinkOnceLinkage() || F.hasWeakLinkage()) return inheader(F) || callers[&F].empty();
    return callers[&F].empty();
  };
  // summaries with nothing held, to a fixed point (a few rounds are enough: they are small)
  for (int n = 0; n < 3; ++n) for (auto &F : *M) if (!F.isDeclaration()) analyse(F, Set());
  // entry sets
  for (auto &F : *M) if (!F.isDeclaration()) { if (isroot(F)) entry[&F] = {true, Set()}; else entry[&F] = {false, Set()};}
  for (auto *F : inits) entry[F] = {false, Set()};
  for (int n = 0; n < 20; ++n)
  {
    bool ch = false;
    for (auto &F : *M) if (!F.isDeclaration() && entry[&F].first) analyse(F, entry[&F].second);
    for (auto &F : *M)
    {
      if (F.isDeclaration() || isroot(F) || inits.count(&F)) continue;
      bool reached = false; Set s;
      for (auto *c : callers[&F])
      {
        auto *G = c->getFunction();
        if (!entry[G].first) continue;
        auto i = held[G].find(c);
        if (i == held[G].end()) continue;
        s = reached ? meet(s, i->second) : i->second; reached = true;
      }
      if (reached != entry[&F].first || s != entry[&F].second) { entry[&F] = {reached, s}; ch = true;}
    }
    if (!ch) break;
  }
  // locks taken while holding others; locks still held when a function is left
  json::Array orders, leaks; long nlocks = 0;
  for (auto &F : *M)
  {
    if (F.isDeclaration()) continue;
    auto &h = held[&F]; Set in = entry[&F].first ? entry[&F].second : Set();
    for (auto &I : instructions(F))
    {
      auto i = h.find(&I); if (i == h.end()) continue;
      if (auto *c = dyn_cast<CallBase>(&I)) if (is_lock(c))
      {
        ++nlocks;
        auto n = lockname(c->getArgOperand(0));
        for (auto &x : i->second) if (x.compare(0, 5, "lock:") == 0 || x.compare(0, 3, "in:") == 0)
        { json::Object j; j["held"] = x; j["takes"] = n; j["where"] = where(I); j["in"] = dem(F.getName()); orders.push_back(std::move(j));}
      }
      if (isa<ReturnInst>(I) || isa<ResumeInst>(I))
        for (auto &x : i->second) if (x.compare(0, 5, "lock:") == 0 && !in.count(x))
        {
          // what takes a lock for its caller was inlined there
          bool used = false; for (auto *c : callers[&F]) if (entry[c->getFunction()].first) used = true;
          if (used && !isa<ResumeInst>(I)) continue;
          json::Object j; j["lock"] = x; j["where"] = where(I); j["in"] = dem(F.getName()); leaks.push_back(std::move(j));
        }
    }
  }
  // objects and accesses
  std::vector<Access> acc; std::map<std::string, const GlobalVariable *> vars; long nfun = 0, ncall = 0, nmem = 0;
  auto shared = [&](const GlobalVariable *g)
  {
    if (!g || g->isConstant() || g->isThreadLocal() || g->isDeclaration()) return false;
    StringRef n = g->getName();
    if (n.starts_with("_ZGV") || n.starts_with("_ZTV") || n.starts_with("_ZTI") || n.starts_with("_ZTS") || n.starts_with("llvm.") || n.starts_with("__dso") || n.starts_with(".str") || n.starts_with("_ZSt") || n.starts_with("_ZTT")) return false;
    Type *t = g->getValueType();
    if (auto *s = dyn_cast<StructType>(t)) if (s->hasName() && (s->getName().contains("std::mutex") || s->getName().contains("pthread_mutex") || s->getName().contains("recursive_mutex") || s->getName().contains("std::once_flag"))) return false;
    return true;
  };
  auto fieldof = [&](const Value *p, std::string &o)
  {
    for (int n = 0; n < 8; ++n)
    {
      while (auto *bc = dyn_cast<BitCastOperator>(p)) p = bc->getOperand(0);
      auto *g = dyn_cast<GEPOperator>(p);
      if (!g) return false;
      for (auto &f : fields)
      {
        // type names of different modules may get a suffix
        auto *s = dyn_cast<StructType>(g->getSourceElementType());
        if (!s || !s->hasName() || g->getNumIndices() < 2) continue;
        StringRef n = s->getName();
        if (n != f.first && !(n.starts_with(f.first + ".") && n.substr(f.first.size() + 1).find_first_not_of("0123456789") == StringRef::npos)) continue;
        auto *k = dyn_cast<ConstantInt>(g->getOperand(2));
        if (k && k->getZExtValue() == f.second) { o = "field:" + f.first + ":" + std::to_string(f.second); return true;}
      }
      p = g->getPointerOperand();
    }
    return false;
  };
  for (auto &F : *M)
  {
    if (F.isDeclaration()) continue;
    ++nfun;
    for (auto &I : instructions(F))
    {
      auto add = [&](const Value *p, bool w, bool at)
      {
        ++nmem;
        auto *g = root(p); std::string o;
        if (g && shared(g)) { vars[g->getName().str()] = g; acc.push_back({&I, g->getName().str(), w, at, &F});}
        else if (fieldof(p, o)) acc.push_back({&I, o, w, at, &F});
      };
      if (auto *l = dyn_cast<LoadInst>(&I)) add(l->getPointerOperand(), false, l->isAtomic());
      else if (auto *s = dyn_cast<StoreInst>(&I))
      {
        add(s->getPointerOperand(), true, s->isAtomic());
        auto *g = root(s->getValueOperand());  // its address goes somewhere: anything may happen there
        if (g && shared(g)) { vars[g->getName().str()] = g; acc.push_back({&I, g->getName().str(), true, false, &F});}
      }
      else if (auto *r = dyn_cast<AtomicRMWInst>(&I)) add(r->getPointerOperand(), true, true);
      else if (auto *r = dyn_cast<AtomicCmpXchgInst>(&I)) add(r->getPointerOperand(), true, true);
      else if (auto *c = dyn_cast<CallBase>(&I))
      {
        ++ncall;
        if (is_lock(c) || is_unlock(c) || name_is(c, {"__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit", "__cxa_thread_atexit"})) continue;
        if (isa<DbgInfoIntrinsic>(c)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(c)) if (ii->getIntrinsicID() == Intrinsic::threadlocal_address || ii->isLifetimeStartOrEnd()) continue;
        auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
        for (unsigned k = 0; k < c->arg_size(); ++k)
          if (c->getArgOperand(k)->getType()->isPointerTy())
          {
            bool w = !c->onlyReadsMemory(k);
            auto *g = root(c->getArgOperand(k)); std::string o;
            if (g && shared(g)) { vars[g->getName().str()] = g; acc.push_back({&I, g->getName().str(), w, false, &F});}
            else if (fieldof(c->getArgOperand(k), o) && f && f->isDeclaration()) acc.push_back({&I, o, w, false, &F});
          }
        if (f && f->isDeclaration())
          for (auto &g : groups) for (auto &p : g.second)
            if (p.back() == '$' ? f->getName() == p.substr(0, p.size() - 1) : starts(f->getName(), p)) { acc.push_back({&I, "calls:" + g.first, true, false, &F}); break;}
      }
    }
  }
  json::Object top; json::Array objs;
  std::map<std::string, std::vector<Access *> > by;
  for (auto &x : acc) by[x.obj].push_back(&x);
  for (auto &b : by)
  {
    json::Object o; o["id"] = b.first;
    auto g = vars.find(b.first);
    o["name"] = g == vars.end() ? b.first : dem(b.first);
    json::Array as; bool writes = false, first = true; Set common; std::set<std::string> ins; bool allatomic = true; int live = 0;
    std::vector<std::pair<Access *, Set> > la;
    for (auto *x : b.second)
    {
      bool init = inits.count(x->F) || !entry[x->F].first;
      // the constructor of an object has it to itself
      bool ctor = b.first.compare(0, 6, "field:") == 0 && (x->F->getName().contains("C1E") || x->F->getName().contains("C2E"));
      Set s;
      if (!init) { auto i = held[x->F].find(x->I); if (i == held[x->F].end()) continue; s = i->second;}
      json::Object j; j["where"] = where(*x->I); j["in"] = dem(x->F->getName()); j["write"] = x->write; j["atomic"] = x->atomic; j["init"] = init || ctor;
      json::Array hs; for (auto &y : s) hs.push_back(y); j["held"] = std::move(hs);
      as.push_back(std::move(j));
      if (init || ctor) continue;
      ++live; writes |= x->write; allatomic &= x->atomic;
      la.push_back({x, s});
      common = first ? s : meet(common, s); first = false;
    }
    Set locks; for (auto &c : common) if (c.compare(0, 5, "lock:") == 0) locks.insert(c);
    std::string verdict, why;
    if (!live || !writes) { verdict = "ok"; why = live ? "never written after initialization" : "only initialized";}
    else if (allatomic) { verdict = "ok"; why = "atomic";}
    else if (!locks.empty()) { verdict = "ok"; why = *locks.begin();}
    else
    {
      // one-time initialization: every write inside the guard, every read after it
      std::set<std::string> cand; for (auto &p : la) for (auto &y : p.second) if (y.compare(0, 3, "in:") == 0) cand.insert(y.substr(3));
      for (auto &c : cand)
      {
        bool ok = true;
        for (auto &p : la) ok = ok && (p.second.count("in:" + c) || (!p.first->write && p.second.count("done:" + c)));
        if (ok) { verdict = "ok"; why = "once:" + c; break;}
      }
      if (verdict.empty())
      {
        verdict = "race";
        for (auto &p : la) if (p.first->write) for (auto &r : la)
        {
          if (p.first->atomic && r.first->atomic) continue;
          bool lk = false; for (auto &y : meet(p.second, r.second)) lk |= y.compare(0, 5, "lock:") == 0 || y.compare(0, 3, "in:") == 0;
          if (lk) continue;
          why = "written at " + where(*p.first->I) + " (" + dem(p.first->F->getName()) + ") and " + (r.first->write ? "written" : "read") + " at " + where(*r.first->I) + " (" + dem(r.first->F->getName()) + ") with no lock in common";
          goto found;
        }
        why = "no lock is common to all its accesses";
      found:;
      }
    }
    o["accesses"] = std::move(as); o["verdict"] = verdict; o["why"] = why; o["live"] = live;
    objs.push_back(std::move(o));
  }
  // counts: what is released before the last decrement must be visible to whoever destroys
  json::Array dec;
  for (auto &F : *M)
  {
    if (F.isDeclaration()) continue;
    for (auto &I : instructions(F))
    {
      auto *r = dyn_cast<AtomicRMWInst>(&I); std::string o;
      if (!r || !fieldof(r->getPointerOperand(), o)) continue;
      bool down = r->getOperation() == AtomicRMWInst::Sub || (r->getOperation() == AtomicRMWInst::Add && isa<ConstantInt>(r->getValOperand()) && cast<ConstantInt>(r->getValOperand())->isNegative());
      if (!down) continue;
      bool rel = isReleaseOrStronger(r->getOrdering()), acq = isAcquireOrStronger(r->getOrdering());
      // walk forward to anything that may destroy, without passing an acquire
      std::string bad; bool destroys = false; std::set<std::pair<const BasicBlock *, bool> > vis;
      // (the walk over the successors)
      {
        std::vector<std::pair<const BasicBlock *, bool> > q; bool ac = acq; bool stop = false;
        for (const Instruction *i = I.getNextNode(); i; i = i->getNextNode())
        {
          if (auto *f = dyn_cast<FenceInst>(i)) ac |= isAcquireOrStronger(f->getOrdering());
          else if (auto *c = dyn_cast<CallBase>(i)) if (!isa<IntrinsicInst>(c)) { destroys = true; if (!ac) bad = where(*i); stop = true; break;}
        }
        if (!stop) for (auto *S : successors(I.getParent())) q.push_back({S, ac});
        while (!q.empty())
        {
          auto [B, a2] = q.back(); q.pop_back();
          if (!vis.insert({B, a2}).second) continue;
          bool st = false;
          for (auto &J : *B)
          {
            if (auto *f = dyn_cast<FenceInst>(&J)) a2 |= isAcquireOrStronger(f->getOrdering());
            else if (auto *l = dyn_cast<LoadInst>(&J)) { std::string o2; if (fieldof(l->getPointerOperand(), o2) && o2 == o && isAcquireOrStronger(l->getOrdering())) a2 = true;}
            else if (auto *c = dyn_cast<CallBase>(&J)) if (!isa<IntrinsicInst>(c)) { destroys = true; if (!a2) bad = where(J); st = true; break;}
          }
          if (!st) for (auto *S : successors(B)) q.push_back({S, a2});
        }
      }
      json::Object j; j["where"] = where(I); j["in"] = dem(F.getName()); j["release"] = rel; j["destroys"] = destroys; j["unacquired"] = bad; j["field"] = o;
      dec.push_back(std::move(j));
    }
  }
  top["objects"] = std::move(objs); top["decrements"] = std::move(dec);
  top["functions"] = nfun; top["calls"] = ncall; top["memory"] = nmem;
  json::Array tl; for (auto &G : M->globals()) if (G.isThreadLocal() && !G.isDeclaration()) tl.push_back(dem(G.getName()));
  top["threadlocal"] = std::move(tl); top["orders"] = std::move(orders); top["leaks"] = std::move(leaks); top["locks"] = nlocks;
  json::Array gl;
  for (auto &G : M->globals())
  {
    SmallVector<DIGlobalVariableExpression *, 1> d; G.getDebugInfo(d);
    for (auto *e : d) if (auto *v = e->getVariable()) { json::Object j; j["name"] = dem(G.getName()); j["id"] = G.getName().str(); j["file"] = v->getFilename().str(); j["line"] = (int)v->getLine(); j["const"] = G.isConstant(); j["tls"] = G.isThreadLocal(); gl.push_back(std::move(j));}
  }
  top["globals"] = std::move(gl);
  outs() << json::Value(std::move(top)) << "\n";
  return 0;
}
