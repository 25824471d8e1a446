// irx: turns LLVM bitcode of Cgl into a JSON program model for the rules in lib/.
//   irx MODULE.bc OUT.json SRCROOT [ROOTS.txt]
// Without ROOTS: class table (from debug info), vtables, globals, and every function defined
// under SRCROOT after lowering exceptions away and promoting locals to SSA.
// With ROOTS (one mangled name per line): those functions, with every callee defined under
// SRCROOT (and the header-only Coin/std copy helpers) inlined into them.
// Nothing is executed; the only transformations are semantics preserving.
#include "llvm/ADT/SmallPtrSet.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
static std::string SRC;
static std::map<std::string, int> fileIdx;
static std::vector<std::string> files;
static int fileId(const std::string &f) {
  auto it = fileIdx.find(f);
  if (it != fileIdx.end()) return it->second;
  int k = files.size(); files.push_back(f); fileIdx[f] = k; return k;
}
static std::string norm(std::string p) {
  // collapse "/./" and "/../"
  std::vector<std::string> parts; std::string cur;
  for (size_t i = 0; i <= p.size(); i++) {
    if (i == p.size() || p[i] == '/') {
      if (cur == ".." && !parts.empty() && parts.back() != "..") parts.pop_back();
      else if (cur != "." && !(cur.empty() && i != 0)) parts.push_back(cur);
      cur.clear();
    } else cur += p[i];
  }
  std::string r; for (size_t i = 0; i < parts.size(); i++) { if (i) r += "/"; r += parts[i]; }
  return r;
}
static std::string filePath(const DIFile *f) {
  if (!f) return "";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] == '/') return norm(n);
  return norm(f->getDirectory().str() + "/" + n);
}
static bool inSrc(const DISubprogram *sp) {
  if (!sp || !sp->getFile()) return false;
  std::string p = filePath(sp->getFile());
  return p.compare(0, SRC.size(), SRC) == 0;
}
static std::string typeStr(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "...";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_pointer_type: return typeStr(d->getBaseType(), depth + 1) + " *";
    case dwarf::DW_TAG_reference_type: return typeStr(d->getBaseType(), depth + 1) + " &";
    case dwarf::DW_TAG_rvalue_reference_type: return typeStr(d->getBaseType(), depth + 1) + " &&";
    case dwarf::DW_TAG_const_type: return "const " + typeStr(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + typeStr(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_typedef:
      if (d->getBaseType()) return typeStr(d->getBaseType(), depth + 1);
      return d->getName().str();
    default: return d->getName().str();
    }
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string n = "[]";
      for (auto *e : c->getElements())
        if (auto *s = dyn_cast<DISubrange>(e))
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(s->getCount())) n = "[" + std::to_string(ci->getSExtValue()) + "]";
      return typeStr(c->getBaseType(), depth + 1) + " " + n;
    }
    std::string n = c->getName().str();
    if (n.empty()) n = "anon@" + std::to_string(c->getLine());
    return n;
  }
  if (isa<DISubroutineType>(t)) return "fn";
  return t->getName().str();
}
static std::string tyStr(Type *t) { std::string s; raw_string_ostream o(s); t->print(o); return o.str(); }

static json::Value locOf(const Instruction &I) {
  const DebugLoc &L = I.getDebugLoc();
  if (!L) return nullptr;
  auto *sc = cast<DILocalScope>(L.getScope());
  json::Array a;
  a.push_back(fileId(filePath(sc->getFile())));
  a.push_back((int64_t)L.getLine());
  if (auto *sp = sc->getSubprogram()) a.push_back(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str());
  else a.push_back("");
  DILocation *ia = L.getInlinedAt();
  while (ia && ia->getInlinedAt()) ia = ia->getInlinedAt();
  if (ia) { a.push_back((int64_t)ia->getLine()); a.push_back(fileId(filePath(ia->getScope()->getFile()))); }
  return json::Value(std::move(a));
}

struct Numb {
  DenseMap<const Value *, int> id; int n = 0;
  int get(const Value *v) { auto it = id.find(v); if (it != id.end()) return it->second; id[v] = n; return n++; }
};
static const DataLayout *DL;
static json::Value val(const Value *v, Numb &N);
static json::Value constVal(const Constant *c, Numb &N) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return json::Object{{"c", ci->getSExtValue()}, {"w", (int64_t)ci->getBitWidth()}};
    return json::Object{{"c", 0}, {"big", true}};
  }
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    double d = cf->getValueAPF().convertToDouble();
    if (d != d) return json::Object{{"f", "nan"}};
    if (d > 1.7976931348623157e308) return json::Object{{"f", "inf"}};
    if (d < -1.7976931348623157e308) return json::Object{{"f", "-inf"}};
    char b[64]; snprintf(b, sizeof b, "%.17g", d);
    return json::Object{{"f", std::string(b)}};
  }
  if (isa<ConstantPointerNull>(c)) return json::Object{{"null", true}};
  if (isa<UndefValue>(c)) return json::Object{{"undef", true}};
  if (auto *g = dyn_cast<GlobalValue>(c)) return json::Object{{"g", g->getName().str()}};
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(*DL, off))
        return json::Object{{"ce", "gep"}, {"b", val(gep->getPointerOperand(), N)}, {"o", off.getSExtValue()}};
    }
    json::Array a; for (auto &o : ce->operands()) a.push_back(val(o, N));
    return json::Object{{"ce", ce->getOpcodeName()}, {"a", std::move(a)}};
  }
  if (isa<ConstantAggregateZero>(c)) return json::Object{{"zero", true}};
  if (auto *ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array a; for (auto &o : ca->operands()) a.push_back(val(o, N));
    return json::Object{{"agg", std::move(a)}};
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    if (cd->isString()) return json::Object{{"str", json::fixUTF8(cd->isCString() ? cd->getAsCString() : cd->getAsString())}};
    json::Array a; for (unsigned i = 0; i < cd->getNumElements() && i < 4096; i++) a.push_back(constVal(cd->getElementAsConstant(i), N));
    return json::Object{{"agg", std::move(a)}};
  }
  return json::Object{{"k", "?"}};
}
static json::Value val(const Value *v, Numb &N) {
  if (auto *c = dyn_cast<Constant>(v)) return constVal(c, N);
  if (auto *a = dyn_cast<Argument>(v)) return json::Object{{"a", (int64_t)a->getArgNo()}};
  if (isa<Instruction>(v)) return json::Value(N.get(v));
  if (auto *m = dyn_cast<MetadataAsValue>(v)) {
    if (auto *s = dyn_cast<MDString>(m->getMetadata())) return json::Object{{"md", s->getString().str()}};
    return json::Object{{"md", ""}};
  }
  return json::Object{{"k", "?"}};
}

static json::Object dumpFn(Function &F) {
  json::Object o;
  o["name"] = F.getName().str();
  o["dem"] = demangle(F.getName().str());
  if (auto *sp = F.getSubprogram()) {
    o["file"] = filePath(sp->getFile());
    o["line"] = (int64_t)sp->getLine();
    json::Array pt; 
    if (auto *ty = sp->getType()) for (auto *t : ty->getTypeArray()) pt.push_back(typeStr(t));
    o["ptypes"] = std::move(pt);
  }
  json::Array args; for (auto &A : F.args()) {
    json::Object ao{{"ty", tyStr(A.getType())}};
    if (A.hasByValAttr()) ao["byval"] = true;
    if (A.hasStructRetAttr()) ao["sret"] = true;
    args.push_back(std::move(ao));
  }
  o["args"] = std::move(args);
  Numb N; DenseMap<const BasicBlock *, int> B; int nb = 0;
  for (auto &bb : F) B[&bb] = nb++;
  // names from dbg.value / dbg.declare
  DenseMap<const Value *, std::string> names; std::map<int, std::string> argNames;
  for (auto &I : instructions(F)) if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) {
    for (Value *v : d->location_ops()) {
      if (!v) continue;
      if (auto *a = dyn_cast<Argument>(v)) { if (!argNames.count(a->getArgNo())) argNames[a->getArgNo()] = d->getVariable()->getName().str(); }
      else if (isa<Instruction>(v) && !names.count(v)) names[v] = d->getVariable()->getName().str();
    }
  }
  json::Array an; for (unsigned i = 0; i < F.arg_size(); i++) an.push_back(argNames.count(i) ? argNames[i] : "");
  o["anames"] = std::move(an);
  for (auto &bb : F) for (auto &I : bb) N.get(&I);
  json::Array blocks;
  for (auto &bb : F) {
    json::Array ins;
    for (auto &I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto *II = dyn_cast<IntrinsicInst>(&I)) {
        auto id = II->getIntrinsicID();
        if (id == Intrinsic::lifetime_end || id == Intrinsic::assume) { if (id == Intrinsic::assume) continue; continue; }
      }
      json::Object j;
      j["i"] = N.get(&I); j["op"] = I.getOpcodeName();
      if (!I.getType()->isVoidTy()) j["ty"] = tyStr(I.getType());
      auto nm = names.find(&I); if (nm != names.end()) j["n"] = nm->second;
      j["l"] = locOf(I);
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        MapVector<Value *, APInt> vo; APInt co(64, 0);
        json::Array va;
        if (g->collectOffset(*DL, 64, vo, co)) {
          for (auto &p : vo) va.push_back(json::Array{val(p.first, N), p.second.getSExtValue()});
          j["o"] = co.getSExtValue();
        } else j["o"] = nullptr;
        j["v"] = std::move(va);
        j["b"] = val(g->getPointerOperand(), N);
      } else if (auto *p = dyn_cast<PHINode>(&I)) {
        json::Array in;
        for (unsigned k = 0; k < p->getNumIncomingValues(); k++) in.push_back(json::Array{val(p->getIncomingValue(k), N), B[p->getIncomingBlock(k)]});
        j["in"] = std::move(in);
      } else if (auto *br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { j["cond"] = val(br->getCondition(), N); j["t"] = json::Array{B[br->getSuccessor(0)], B[br->getSuccessor(1)]}; }
        else j["t"] = json::Array{B[br->getSuccessor(0)]};
      } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
        j["cond"] = val(sw->getCondition(), N);
        json::Array cs; for (auto &c : sw->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), B[c.getCaseSuccessor()]});
        j["cases"] = std::move(cs); j["def"] = B[sw->getDefaultDest()];
      } else if (auto *cb = dyn_cast<CallBase>(&I)) {
        Value *cv = cb->getCalledOperand()->stripPointerCasts();
        if (auto *cf = dyn_cast<Function>(cv)) { j["callee"] = cf->getName().str(); }
        else j["fp"] = val(cv, N);
        json::Array a; for (unsigned k = 0; k < cb->arg_size(); k++) {
          a.push_back(val(cb->getArgOperand(k), N));
        }
        j["a"] = std::move(a);
        json::Array bv; for (unsigned k = 0; k < cb->arg_size(); k++) { if (cb->isByValArgument(k)) bv.push_back((int64_t)k); }
        if (!bv.empty()) j["byval"] = std::move(bv);
        if (cb->doesNotReturn()) j["nr"] = true;
        if (cb->arg_size() && cb->paramHasAttr(0, Attribute::StructRet)) j["sret"] = true;
      } else {
        json::Array a; for (auto &op : I.operands()) a.push_back(val(op, N));
        j["a"] = std::move(a);
        if (auto *c = dyn_cast<CmpInst>(&I)) j["p"] = CmpInst::getPredicateName(c->getPredicate()).str();
        if (auto *al = dyn_cast<AllocaInst>(&I)) { j["aty"] = tyStr(al->getAllocatedType()); if (auto s = al->getAllocationSize(*DL)) j["sz"] = (int64_t)s->getFixedValue(); }
        if (auto *ld = dyn_cast<LoadInst>(&I)) j["sz"] = (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue();
        if (auto *st = dyn_cast<StoreInst>(&I)) { j["sz"] = (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue(); j["sty"] = tyStr(st->getValueOperand()->getType()); }
        if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t)k); j["ix"] = std::move(ix); }
      }
      ins.push_back(std::move(j));
    }
    blocks.push_back(std::move(ins));
  }
  o["b"] = std::move(blocks);
  return o;
}

static void simplify(Function &F, FunctionAnalysisManager &FAM, bool cse) {
  FunctionPassManager P;
  P.addPass(LowerInvokePass());
  P.run(F, FAM); FAM.invalidate(F, PreservedAnalyses::none());
  removeUnreachableBlocks(F);
  FAM.invalidate(F, PreservedAnalyses::none());
  FunctionPassManager Q;
  Q.addPass(SROAPass(SROAOptions::PreserveCFG));
  Q.addPass(InstSimplifyPass());
  if (cse) Q.addPass(EarlyCSEPass(false));
  Q.run(F, FAM); FAM.invalidate(F, PreservedAnalyses::none());
  bool ch = true;
  while (ch) {
    ch = false;
    for (auto &bb : F) if (ConstantFoldTerminator(&bb, true)) ch = true;
    if (removeUnreachableBlocks(F)) ch = true;
    for (auto it = F.begin(); it != F.end();) { BasicBlock *bb = &*it++; if (MergeBlockIntoPredecessor(bb)) ch = true; }
  }
  FAM.invalidate(F, PreservedAnalyses::none());
}

static bool startsWithAny(const std::string &s, std::initializer_list<const char *> l) {
  for (auto p : l) if (s.compare(0, strlen(p), p) == 0) return true;
  return false;
}
static bool helperByName(const Function *f) {
  auto *sp = f->getSubprogram(); if (!sp) return false;
  std::string nm = sp->getName().str();
  std::string p = filePath(sp->getFile());
  bool coin = p.find("/CoinHelperFunctions.hpp") != std::string::npos;
  if (coin) {
    // copy/fill helpers stay calls: the rules know what they mean
    if (startsWithAny(nm, {"CoinCopy", "CoinDisjointCopy", "CoinMemcpy", "CoinMove", "CoinFill", "CoinZero", "CoinIota", "CoinDelete"})) return false;
    return true;
  }
  static const std::set<std::string> stdn = {"max", "min", "abs", "fabs", "swap", "floor", "ceil", "sqrt", "pow", "log", "exp", "exchange", "move", "forward", "clamp"};
  std::string base = nm.substr(0, nm.find('<'));
  std::string dem = demangle(f->getName().str());
  if (dem.find("std::") != std::string::npos && p.compare(0, SRC.size(), SRC) != 0) {
    if (stdn.count(base)) return true;
    if (startsWithAny(base, {"__size_to_integer", "__iterator_category", "__distance", "distance", "__advance", "advance"})) return true;
  }
  return false;
}

// virtual calls on the object 'self' whose dynamic type is known to be 'cls' become direct calls
static std::vector<CallBase *> devirt(Function &F, Value *self, const std::string &cls) {
  std::vector<CallBase *> out; Module *M = F.getParent();
  GlobalVariable *vt = M->getNamedGlobal("_ZTV" + std::to_string(cls.size()) + cls);
  if (!vt || !vt->hasInitializer()) return out;
  auto *cs = dyn_cast<ConstantStruct>(vt->getInitializer()); if (!cs || cs->getNumOperands() < 1) return out;
  auto *ca = dyn_cast<ConstantArray>(cs->getOperand(0)); if (!ca) return out;
  for (auto &I : instructions(F)) {
    auto *cb = dyn_cast<CallBase>(&I); if (!cb || cb->getCalledFunction()) continue;
    auto *fl = dyn_cast<LoadInst>(cb->getCalledOperand()); if (!fl) continue;
    APInt off(64, 0); Value *vp = fl->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, off, true);
    auto *vl = dyn_cast<LoadInst>(vp); if (!vl) continue;
    APInt o2(64, 0); Value *ob = vl->getPointerOperand()->stripAndAccumulateConstantOffsets(*DL, o2, true);
    if (ob != self || o2 != 0) continue;
    uint64_t k = off.getZExtValue() / 8 + 2; if (k >= ca->getNumOperands()) continue;
    if (auto *tf = dyn_cast<Function>(ca->getOperand(k)->stripPointerCasts())) { cb->setCalledFunction(tf); out.push_back(cb); }
  }
  return out;
}
static std::string ctorClass(const std::string &n) {
  if (n.compare(0, 3, "_ZN")) return "";
  size_t p = 3, l = 0; while (p < n.size() && isdigit(n[p])) l = l * 10 + (n[p++] - '0');
  if (!l || p + l + 3 > n.size()) return "";
  char a = n[p + l], b = n[p + l + 1];
  if ((a == 'C' || a == 'D') && b >= '0' && b <= '2' && n[p + l + 2] == 'E') return n.substr(p, l);
  return "";
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage\n"; return 2; }
  LLVMContext C; SMDiagnostic E; auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irx", errs()); return 2; }
  SRC = argv[3]; DL = &M->getDataLayout();
  for (auto &A : M->aliases()) if (auto *o = A.getAliaseeObject()) if (isa<Function>(o)) A.replaceAllUsesWith(o);
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
  json::Object out;
  std::set<Function *> mine, inl;
  for (auto &F : *M) if (!F.isDeclaration()) {
    if (inSrc(F.getSubprogram())) { mine.insert(&F); inl.insert(&F); }
    else if (helperByName(&F)) inl.insert(&F);
    else if (F.getSubprogram() == nullptr && F.hasLocalLinkage()) { }
  }
  // implicit (compiler-made) members of classes under SRC carry the class's file: already in 'mine'
  for (auto *F : inl) { F->removeFnAttr(Attribute::OptimizeNone); F->removeFnAttr(Attribute::NoInline); simplify(*F, FAM, false);
    std::string cc = ctorClass(F->getName().str()); if (!cc.empty() && F->arg_size()) devirt(*F, F->getArg(0), cc); }
  json::Array fns;
  if (argc > 4) {
    std::ifstream rf(argv[4]); std::string line; json::Array missing; json::Object stats;
    while (std::getline(rf, line)) {
      if (line.empty()) continue;
      // optional list of callees not to inline: "root|a,b"
      std::set<std::string> keep; std::string nm = line; size_t bar = line.find('|');
      if (bar != std::string::npos) { nm = line.substr(0, bar); std::string r = line.substr(bar + 1); size_t p = 0; while (p < r.size()) { size_t q = r.find(',', p); if (q == std::string::npos) q = r.size(); keep.insert(r.substr(p, q - p)); p = q + 1; } }
      Function *F = M->getFunction(nm);
      if (!F || F->isDeclaration()) { missing.push_back(nm); continue; }
      ValueToValueMapTy VM; Function *G = CloneFunction(F, VM);
      // inline with per-call-site ancestry to stop at recursion
      std::vector<std::pair<CallBase *, int>> work; std::vector<std::pair<const Function *, int>> hist; // hist: (callee, parent)
      for (auto &I : instructions(*G)) if (auto *cb = dyn_cast<CallBase>(&I)) work.push_back({cb, -1});
      size_t total = G->getInstructionCount(); int inlined = 0; bool capped = false;
      std::string exact; for (auto &k : keep) if (k[0] == '!') exact = k.substr(1);
      if (!exact.empty() && G->arg_size()) devirt(*G, G->getArg(0), exact);
      while (!work.empty()) {
        auto [cb, h] = work.back(); work.pop_back();
        Function *cf = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (!cf || cf->isDeclaration() || !inl.count(cf) || cf == F) continue;
        if (keep.count(cf->getName().str())) continue;
        bool rec = false; for (int k = h; k >= 0; k = hist[k].second) if (hist[k].first == cf) rec = true;
        if (rec) continue;
        if (total + cf->getInstructionCount() > 400000) { capped = true; continue; }
        InlineFunctionInfo IFI; 
        auto R = InlineFunction(*cb, IFI);
        if (!R.isSuccess()) continue;
        inlined++; total += cf->getInstructionCount();
        int nh = hist.size(); hist.push_back({cf, h});
        for (auto *nc : IFI.InlinedCallSites) work.push_back({nc, nh});
        if (work.empty() && !exact.empty() && G->arg_size()) { simplify(*G, FAM, false); for (auto *nc : devirt(*G, G->getArg(0), exact)) work.push_back({nc, -1}); }
      }
      simplify(*G, FAM, false);
      json::Object o = dumpFn(*G); o["name"] = nm; o["dem"] = demangle(nm); o["inlined"] = inlined; o["capped"] = capped;
      fns.push_back(std::move(o));
      G->eraseFromParent();
    }
    out["missing"] = std::move(missing);
  } else {
    for (auto *F : mine) fns.push_back(dumpFn(*F));
    // class table
    DebugInfoFinder DF; DF.processModule(*M);
    std::set<std::string> seen; json::Array cls;
    json::Array subs;
    for (auto *t : DF.types()) {
      auto *c = dyn_cast<DICompositeType>(t); if (!c || c->isForwardDecl()) continue;
      if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
        json::Object o; o["enum"] = c->getName().str(); o["file"] = filePath(c->getFile()); o["line"] = (int64_t)c->getLine();
        std::string key = "e" + c->getName().str() + filePath(c->getFile()) + std::to_string(c->getLine()); if (!seen.insert(key).second) continue;
        json::Array a; for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) a.push_back(json::Array{en->getName().str(), en->getValue().getSExtValue()});
        o["vals"] = std::move(a); cls.push_back(std::move(o)); continue;
      }
      if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
      std::string p = filePath(c->getFile());
      bool repo = p.compare(0, SRC.size(), SRC) == 0;
      if (!repo && p.find("/coin/") == std::string::npos && p.find("/stubs/") == std::string::npos && p.find("/overlay/") == std::string::npos) continue;
      std::string nm = typeStr(c);
      std::string key = nm + "|" + p; if (!seen.insert(key).second) continue;
      json::Object o; o["name"] = nm; o["file"] = p; o["line"] = (int64_t)c->getLine(); o["size"] = (int64_t)c->getSizeInBits() / 8; o["repo"] = repo; o["id"] = c->getIdentifier().str();
      bool isStruct = c->getTag() == dwarf::DW_TAG_structure_type;
      json::Array mem, bases, meth;
      for (auto *e : c->getElements()) {
        if (auto *d = dyn_cast<DIDerivedType>(e)) {
          if (d->getTag() == dwarf::DW_TAG_inheritance) bases.push_back(json::Array{typeStr(d->getBaseType()), (int64_t)d->getOffsetInBits() / 8});
          else if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
            DIType *bt = d->getBaseType(); uint64_t sz = d->getSizeInBits();
            json::Object m{{"n", d->getName().str()}, {"o", (int64_t)d->getOffsetInBits() / 8}, {"s", (int64_t)sz / 8}, {"t", typeStr(bt)}, {"l", (int64_t)d->getLine()}, {"bit", d->isBitField()}};
            if (d->getFlags() & DINode::FlagArtificial) m["art"] = true;
            mem.push_back(std::move(m));
          } else if (d->getTag() == dwarf::DW_TAG_member || d->getTag() == dwarf::DW_TAG_variable) {
            mem.push_back(json::Object{{"n", d->getName().str()}, {"static", true}, {"t", typeStr(d->getBaseType())}});
          }
        } else if (auto *s = dyn_cast<DISubprogram>(e)) {
          json::Array pt; if (auto *ty = s->getType()) for (auto *t2 : ty->getTypeArray()) pt.push_back(typeStr(t2));
          std::string acc; auto a = s->getFlags() & DINode::FlagAccessibility;
          acc = a == DINode::FlagPublic ? "public" : a == DINode::FlagPrivate ? "private" : a == DINode::FlagProtected ? "protected" : (isStruct ? "public" : "private");
          json::Object m{{"n", s->getName().str()}, {"ln", s->getLinkageName().str()}, {"acc", acc}, {"pt", std::move(pt)}, {"l", (int64_t)s->getLine()}};
          if (s->getVirtuality()) { m["virt"] = (int64_t)s->getVirtualIndex(); m["pure"] = s->getVirtuality() == dwarf::DW_VIRTUALITY_pure_virtual; }
          if (s->isArtificial()) m["art"] = true;
          if (s->isDeleted()) m["del"] = true;
          meth.push_back(std::move(m));
        }
      }
      o["mem"] = std::move(mem); o["bases"] = std::move(bases); o["meth"] = std::move(meth);
      cls.push_back(std::move(o));
    }
    out["classes"] = std::move(cls);
    json::Object td;
    for (auto *t : DF.types()) {
      auto *d = dyn_cast<DIDerivedType>(t); if (!d || d->getTag() != dwarf::DW_TAG_typedef) continue;
      DIType *b = d->getBaseType(); uint64_t sz = 0;
      while (b) { sz = b->getSizeInBits(); auto *bd = dyn_cast<DIDerivedType>(b); if (!bd || sz) break; b = bd->getBaseType(); }
      std::string p = filePath(d->getFile());
      if (p.compare(0, SRC.size(), SRC) == 0) td[d->getName()] = (int64_t)sz / 8;
    }
    out["typedefs"] = std::move(td);
    json::Array gl; Numb N;
    for (auto &G : M->globals()) {
      json::Object o; o["name"] = G.getName().str(); o["const"] = G.isConstant(); o["decl"] = G.isDeclaration(); o["tls"] = G.isThreadLocal();
      SmallVector<DIGlobalVariableExpression *, 1> ge; G.getDebugInfo(ge);
      if (!ge.empty()) { auto *v = ge[0]->getVariable(); o["file"] = filePath(v->getFile()); o["line"] = (int64_t)v->getLine(); o["src"] = v->getName().str(); o["t"] = typeStr(v->getType()); }
      if (G.hasInitializer() && (G.isConstant() || !ge.empty()) ) o["init"] = constVal(G.getInitializer(), N);
      gl.push_back(std::move(o));
    }
    out["globals"] = std::move(gl);
    json::Array decl;
    for (auto &F : *M) {
      json::Object o{{"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"decl", F.isDeclaration()}};
      if (auto *sp = F.getSubprogram()) { o["file"] = filePath(sp->getFile()); o["line"] = (int64_t)sp->getLine(); }
      decl.push_back(std::move(o));
    }
    out["decls"] = std::move(decl);
  }
  out["fns"] = std::move(fns);
  json::Array fl; for (auto &f : files) fl.push_back(f); out["files"] = std::move(fl);
  std::error_code ec; raw_fd_ostream os(argv[2], ec); if (ec) { errs() << ec.message() << "\n"; return 2; }
  os << json::Value(std::move(out)); 
  return 0;
}
