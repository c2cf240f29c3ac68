// irdump: mechanical extraction of the functions under contract.
//   irdump IN.bc OUT.json KEEP.txt BOUNDARY.txt [--raw]
// KEEP.txt     one symbol per line: functions to dump (empty file = every defined function)
// BOUNDARY.txt one extended regex per line, matched against the demangled name: calls to these
//              functions are kept as calls (they have a contract of their own);
//              every other callee with a body is inlined into its caller.
// The optimiser passes run here are semantics preserving scalar clean-ups (sroa, early-cse,
// instcombine, simplifycfg, loop-simplify); they exist to remove -O0 stack traffic.
#include <fstream>
#include <iostream>
#include <regex>
#include <set>
#include <map>
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

static std::string typeStr(Type *t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

struct Dumper {
  const DataLayout &DL;
  std::map<const Value *, std::string> names;
  int next = 0;
  explicit Dumper(const DataLayout &dl) : DL(dl) {}

  std::string nameOf(const Value *v) {
    auto it = names.find(v);
    if (it != names.end()) return it->second;
    std::string n = "v" + std::to_string(next++);
    names[v] = n;
    return n;
  }

  json::Value typ(Type *t) {
    // scalars as strings; aggregates as {"s":[...]} with byte offsets
    if (auto *st = dyn_cast<StructType>(t)) {
      json::Array fs, offs;
      if (st->isOpaque()) return json::Value("opaque");
      const StructLayout *sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); i++) {
        fs.push_back(typ(st->getElementType(i)));
        offs.push_back((int64_t)sl->getElementOffset(i));
      }
      return json::Object{{"s", std::move(fs)}, {"o", std::move(offs)}, {"size", (int64_t)sl->getSizeInBytes()}};
    }
    if (auto *at = dyn_cast<ArrayType>(t))
      return json::Object{{"a", typ(at->getElementType())}, {"n", (int64_t)at->getNumElements()},
                          {"es", (int64_t)DL.getTypeAllocSize(at->getElementType())}};
    if (auto *vt = dyn_cast<FixedVectorType>(t))
      return json::Object{{"vec", typ(vt->getElementType())}, {"n", (int64_t)vt->getNumElements()}};
    return json::Value(typeStr(t));
  }

  json::Value gepOf(const GEPOperator *g) {
    unsigned bw = DL.getIndexSizeInBits(0);
    MapVector<Value *, APInt> vars;
    APInt c(bw, 0);
    json::Object o;
    if (!g->collectOffset(DL, bw, vars, c)) {
      o["bad"] = true;
      return std::move(o);
    }
    o["const"] = c.getSExtValue();
    json::Array vs;
    for (auto &kv : vars) vs.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
    o["vars"] = std::move(vs);
    return std::move(o);
  }

  json::Value val(const Value *v) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
      SmallString<40> s;
      ci->getValue().toString(s, 10, false);
      return json::Object{{"c", s.str().str()}, {"t", typ(v->getType())}};
    }
    if (auto *cf = dyn_cast<ConstantFP>(v)) {
      SmallString<40> s;
      cf->getValueAPF().bitcastToAPInt().toString(s, 10, false);
      return json::Object{{"f", s.str().str()}, {"t", typ(v->getType())}};
    }
    if (isa<ConstantPointerNull>(v)) return json::Object{{"null", true}};
    if (isa<UndefValue>(v)) return json::Object{{"undef", isa<PoisonValue>(v) ? "poison" : "undef"}, {"t", typ(v->getType())}};
    if (isa<ConstantAggregateZero>(v)) return json::Object{{"zero", true}, {"t", typ(v->getType())}};
    if (auto *ca = dyn_cast<ConstantAggregate>(v)) {
      json::Array a;
      for (auto &op : ca->operands()) a.push_back(val(op.get()));
      return json::Object{{"agg", std::move(a)}, {"t", typ(v->getType())}};
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
      json::Array a;
      for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(val(cd->getElementAsConstant(i)));
      return json::Object{{"agg", std::move(a)}, {"t", typ(v->getType())}};
    }
    if (auto *f = dyn_cast<Function>(v)) return json::Object{{"fn", f->getName().str()}};
    if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Object{{"g", g->getName().str()}};
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      if (auto *ge = dyn_cast<GEPOperator>(ce)) {
        return json::Object{{"cgep", val(ge->getPointerOperand())}, {"gep", gepOf(ge)}};
      }
      json::Array a;
      for (auto &op : ce->operands()) a.push_back(val(op.get()));
      return json::Object{{"ce", ce->getOpcodeName()}, {"ops", std::move(a)}, {"t", typ(v->getType())}};
    }
    return json::Value(nameOf(v));
  }

  json::Value instr(const Instruction &I) {
    json::Object o;
    o["op"] = I.getOpcodeName();
    if (!I.getType()->isVoidTy()) {
      o["id"] = nameOf(&I);
      o["t"] = typ(I.getType());
    }
    if (auto *phi = dyn_cast<PHINode>(&I)) {
      json::Array inc;
      for (unsigned i = 0; i < phi->getNumIncomingValues(); i++)
        inc.push_back(json::Array{val(phi->getIncomingValue(i)), nameOf(phi->getIncomingBlock(i))});
      o["in"] = std::move(inc);
      return std::move(o);
    }
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
      o["base"] = val(g->getPointerOperand());
      o["gep"] = gepOf(cast<GEPOperator>(g));
      return std::move(o);
    }
    if (auto *c = dyn_cast<CmpInst>(&I)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
    if (auto *a = dyn_cast<AllocaInst>(&I)) {
      o["at"] = typ(a->getAllocatedType());
      o["size"] = (int64_t)DL.getTypeAllocSize(a->getAllocatedType());
    }
    if (auto *b = dyn_cast<BranchInst>(&I)) {
      json::Array s;
      for (unsigned i = 0; i < b->getNumSuccessors(); i++) s.push_back(nameOf(b->getSuccessor(i)));
      o["succ"] = std::move(s);
      if (b->isConditional()) o["cond"] = val(b->getCondition());
      return std::move(o);
    }
    if (auto *s = dyn_cast<SwitchInst>(&I)) {
      o["cond"] = val(s->getCondition());
      o["default"] = nameOf(s->getDefaultDest());
      json::Array cs;
      for (auto &c : s->cases()) cs.push_back(json::Array{val(c.getCaseValue()), nameOf(c.getCaseSuccessor())});
      o["cases"] = std::move(cs);
      return std::move(o);
    }
    if (auto *e = dyn_cast<ExtractValueInst>(&I)) {
      json::Array ix;
      for (unsigned i : e->indices()) ix.push_back((int64_t)i);
      o["idx"] = std::move(ix);
    }
    if (auto *e = dyn_cast<InsertValueInst>(&I)) {
      json::Array ix;
      for (unsigned i : e->indices()) ix.push_back((int64_t)i);
      o["idx"] = std::move(ix);
    }
    if (auto *cb = dyn_cast<CallBase>(&I)) {
      if (auto *f = cb->getCalledFunction()) {
        o["fn"] = f->getName().str();
        o["dn"] = demangle(f->getName().str());
      } else {
        o["ind"] = val(cb->getCalledOperand());
      }
      json::Array a, byval;
      for (unsigned i = 0; i < cb->arg_size(); i++) {
        a.push_back(val(cb->getArgOperand(i)));
        if (cb->isByValArgument(i)) byval.push_back((int64_t)i);
      }
      o["args"] = std::move(a);
      json::Array at;
      for (unsigned i = 0; i < cb->arg_size(); i++) at.push_back(typ(cb->getArgOperand(i)->getType()));
      o["ats"] = std::move(at);
      if (auto *fm = dyn_cast<FPMathOperator>(&I))
        if (fm->getFastMathFlags().any()) o["fmf"] = true;
      if (!byval.empty()) o["byval"] = std::move(byval);
      if (auto *inv = dyn_cast<InvokeInst>(&I)) {
        o["normal"] = nameOf(inv->getNormalDest());
        o["unwind"] = nameOf(inv->getUnwindDest());
      }
      return std::move(o);
    }
    if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
      if (ob->hasNoSignedWrap()) o["nsw"] = true;
      if (ob->hasNoUnsignedWrap()) o["nuw"] = true;
    }
    if (auto *pe = dyn_cast<PossiblyExactOperator>(&I))
      if (pe->isExact()) o["exact"] = true;
    if (auto *nn = dyn_cast<PossiblyNonNegInst>(&I))
      if (nn->hasNonNeg()) o["nneg"] = true;
    if (auto *fm = dyn_cast<FPMathOperator>(&I))
      if (fm->getFastMathFlags().any()) o["fmf"] = true;
    if (auto *pd = dyn_cast<PossiblyDisjointInst>(&I))
      if (pd->isDisjoint()) o["disj"] = true;
    if (auto *l = dyn_cast<LoadInst>(&I)) o["bits"] = (int64_t)DL.getTypeSizeInBits(l->getType());
    if (auto *s = dyn_cast<StoreInst>(&I)) o["vt"] = typ(s->getValueOperand()->getType());
    json::Array ops, ots;
    for (auto &op : I.operands()) {
      ops.push_back(val(op.get()));
      ots.push_back(typ(op->getType()));
    }
    o["ops"] = std::move(ops);
    o["ots"] = std::move(ots);
    return std::move(o);
  }

  json::Value function(Function &F) {
    names.clear();
    next = 0;
    json::Object fo;
    fo["name"] = F.getName().str();
    fo["dn"] = demangle(F.getName().str());
    fo["ret"] = typ(F.getReturnType());
    json::Array args;
    for (auto &a : F.args()) {
      json::Object ao{{"id", nameOf(&a)}, {"t", typ(a.getType())}};
      if (a.hasByValAttr()) {
        ao["byval"] = typ(a.getParamByValType());
      }
      if (a.hasStructRetAttr()) ao["sret"] = typ(a.getParamStructRetType());
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    DominatorTree DT(F);
    LoopInfo LI(DT);
    json::Array blocks;
    for (auto &B : F) {
      json::Object bo;
      bo["id"] = nameOf(&B);
      json::Array is;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(I)) continue;
        is.push_back(instr(I));
      }
      bo["ins"] = std::move(is);
      blocks.push_back(std::move(bo));
    }
    fo["blocks"] = std::move(blocks);
    json::Array loops;
    for (Loop *L : LI.getLoopsInPreorder()) {
      json::Array bs;
      for (auto *b : L->blocks()) bs.push_back(nameOf(b));
      json::Object lo{{"header", nameOf(L->getHeader())}, {"blocks", std::move(bs)}, {"depth", (int64_t)L->getLoopDepth()}};
      if (auto *p = L->getParentLoop()) lo["parent"] = nameOf(p->getHeader());
      loops.push_back(std::move(lo));
    }
    fo["loops"] = std::move(loops);
    return std::move(fo);
  }
};

// irdump --emit LIST OUT.jsonl: every module named in LIST, unchanged, one JSON object per line
static int dumpEmitted(const char *list, const char *out) {
  std::ifstream in(list);
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  std::string path;
  while (std::getline(in, path)) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(path, err, ctx);
    if (!M) {
      err.print("irdump", errs());
      return 2;
    }
    Dumper D(M->getDataLayout());
    json::Object root, globs;
    json::Array fns;
    for (auto &F : *M)
      if (!F.isDeclaration()) fns.push_back(D.function(F));
    root["functions"] = std::move(fns);
    for (auto &G : M->globals()) {
      json::Object g{{"const", G.isConstant()}, {"t", D.typ(G.getValueType())}};
      if (G.hasInitializer()) g["init"] = D.val(G.getInitializer());
      globs[G.getName().str()] = std::move(g);
    }
    root["globals"] = std::move(globs);
    os << json::Value(std::move(root)) << "\n";
  }
  return 0;
}

int main(int argc, char **argv) {
  if (argc == 4 && std::string(argv[1]) == "--emit") return dumpEmitted(argv[2], argv[3]);
  if (argc < 5) return 2;
  bool raw = argc > 5 && std::string(argv[5]) == "--raw";
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) {
    err.print("irdump", errs());
    return 2;
  }
  std::set<std::string> keep;
  {
    std::ifstream f(argv[3]);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty()) keep.insert(l);
  }
  std::vector<std::regex> boundary;
  {
    std::ifstream f(argv[4]);
    std::string l;
    while (std::getline(f, l))
      if (!l.empty() && l[0] != '#') boundary.emplace_back(l, std::regex::extended | std::regex::optimize);
  }
  std::set<std::string> boundaryDefs;
  if (!raw) {
    CallGraph CG(*M);
    std::set<Function *> recursive;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      if (it.hasCycle())
        for (auto *n : *it)
          if (n->getFunction()) recursive.insert(n->getFunction());
    }
    std::map<std::string, bool> memo;
    for (auto &F : *M) {
      if (F.isDeclaration()) continue;
      std::string nm = F.getName().str();
      F.removeFnAttr(Attribute::NoInline);
      F.removeFnAttr(Attribute::AlwaysInline);
      F.removeFnAttr(Attribute::OptimizeNone);
      bool kept = keep.empty() ? !F.hasLinkOnceLinkage() : keep.count(nm) > 0;
      std::string dn = demangle(nm);
      bool bnd = false;
      for (auto &r : boundary)
        if (std::regex_search(dn, r)) {
          bnd = true;
          break;
        }
      if (bnd || (recursive.count(&F))) {
        F.addFnAttr(Attribute::NoInline);
        if (bnd) boundaryDefs.insert(nm);
      } else if (!kept) {
        F.addFnAttr(Attribute::AlwaysInline);
      } else if (keep.empty()) {
        F.addFnAttr(Attribute::NoInline);
      } else {
        // functions under contract: callers are checked against the contract
        F.addFnAttr(Attribute::NoInline);
      }
    }
    // drop bodies nobody under contract can reach: strip everything except kept functions' callees
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (!keep.empty()) {
      for (auto &F : *M) {
        if (F.isDeclaration()) continue;
        if (keep.count(F.getName().str())) {
          F.setLinkage(GlobalValue::ExternalLinkage);
          F.setComdat(nullptr);
        } else if (!F.hasFnAttribute(Attribute::AlwaysInline) || true) {
          F.setLinkage(GlobalValue::InternalLinkage);
          F.setComdat(nullptr);
        }
      }
      for (auto &A : make_early_inc_range(M->aliases())) {
        A.replaceAllUsesWith(A.getAliasee());
        A.eraseFromParent();
      }
      for (auto &G : M->globals())
        if (!G.isDeclaration()) {
          if (G.getName() == "llvm.global_ctors" || G.getName() == "llvm.used") continue;
          G.setLinkage(GlobalValue::InternalLinkage);
          G.setComdat(nullptr);
        }
      if (auto *g = M->getGlobalVariable("llvm.global_ctors")) g->eraseFromParent();
    }
    const char *pipe =
        "globaldce,function(sroa,early-cse),always-inline,globaldce,"
        "function(sroa<modify-cfg>,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa<modify-cfg>,early-cse,"
        "instcombine<no-verify-fixpoint>,simplifycfg,early-cse,jump-threading,simplifycfg,early-cse,adce,loop-simplify),globaldce";
    if (auto e = PB.parsePassPipeline(MPM, pipe)) {
      errs() << toString(std::move(e)) << "\n";
      return 2;
    }
    MPM.run(*M, MAM);
  }
  std::error_code ec;
  if (const char *ll = getenv("IRDUMP_LL")) {
    raw_fd_ostream lo(ll, ec);
    M->print(lo, nullptr);
  }
  raw_fd_ostream os(argv[2], ec);
  Dumper D(M->getDataLayout());
  json::Object root;
  json::Array fns;
  for (auto &F : *M) {
    if (F.isDeclaration()) continue;
    if (!keep.empty() && !keep.count(F.getName().str()) && !raw) continue;
    fns.push_back(D.function(F));
  }
  root["functions"] = std::move(fns);
  json::Object globs;
  for (auto &G : M->globals()) {
    json::Object g{{"const", G.isConstant()}, {"t", D.typ(G.getValueType())}};
    if (G.hasInitializer()) {
      uint64_t sz = M->getDataLayout().getTypeAllocSize(G.getValueType());
      if (sz <= 65536) g["init"] = D.val(G.getInitializer());
    }
    globs[G.getName().str()] = std::move(g);
  }
  root["globals"] = std::move(globs);
  os << json::Value(std::move(root)) << "\n";
  return 0;
}
