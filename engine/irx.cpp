// irx: link LLVM bitcode of the program under analysis, normalise it (inline
// every function that is not in the keep list, promote locals to SSA), and
// write the result as JSON facts for the Python analyses.
//
//   irx OUT.json KEEPLIST IN1.bc IN2.bc ...
#include "llvm/Analysis/CallGraph.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include <fstream>
#include <map>
#include <set>
using namespace llvm;

static std::string esc(StringRef s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static std::string tystr(Type *t) {
  std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}

// The linker merges structurally equal struct types; the source names are kept
// as metadata put on the instructions before linking.
static std::string nominal(const Instruction &I, std::string dflt) {
  if (auto *md = I.getMetadata("sty")) return cast<MDString>(md->getOperand(0))->getString().str();
  return dflt;
}
static std::map<std::string, std::string> LLS;
static void markNames(Module &M) {
  const DataLayout &DL = M.getDataLayout();
  for (auto *st : M.getIdentifiedStructTypes()) {
    if (st->isOpaque()) continue;
    std::string s = "[" + std::to_string((uint64_t)DL.getTypeAllocSize(st)) + ",[";
    for (unsigned i = 0; i < st->getNumElements(); i++) { if (i) s += ","; s += esc(tystr(st->getElementType(i))); }
    LLS.insert({st->getName().str(), s + "]]"});
  }
  for (auto &F : M) for (auto &I : instructions(F)) {
    Type *t = nullptr;
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) t = g->getSourceElementType();
    else if (auto *a = dyn_cast<AllocaInst>(&I)) t = a->getAllocatedType();
    if (t && tystr(t).find('%') != std::string::npos)
      I.setMetadata("sty", MDNode::get(M.getContext(), MDString::get(M.getContext(), tystr(t))));
  }
}

struct Exporter {
  Module &M;
  raw_ostream &O;
  const DataLayout &DL;
  DenseMap<const Value *, unsigned> ids;
  std::vector<std::pair<std::string, DISubprogram *>> noret;
  Exporter(Module &m, raw_ostream &o) : M(m), O(o), DL(m.getDataLayout()) {}

  // operand references: [kind, ...]
  std::string cref(const Constant *c, int depth = 0) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() <= 64) return "[\"i\"," + (ci->getBitWidth() == 1 ? std::to_string(ci->getZExtValue()) : std::to_string(ci->getSExtValue())) + "]";
      return "[\"?\"]";
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      char b[64];
      APFloat f = cf->getValueAPF();
      if (&f.getSemantics() == &APFloat::IEEEdouble()) snprintf(b, 64, "%.17g", f.convertToDouble());
      else if (&f.getSemantics() == &APFloat::IEEEsingle()) snprintf(b, 64, "%.17g", (double)f.convertToFloat());
      else snprintf(b, 64, "0");
      return std::string("[\"f\",\"") + b + "\"]";
    }
    if (isa<ConstantPointerNull>(c)) return "[\"null\"]";
    if (isa<UndefValue>(c)) return "[\"undef\"]";
    if (auto *f = dyn_cast<Function>(c)) return "[\"fn\"," + esc(f->getName()) + "]";
    if (auto *g = dyn_cast<GlobalVariable>(c)) return "[\"g\"," + esc(g->getName()) + "]";
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        auto *ge = cast<GEPOperator>(ce);
        std::string s = "[\"gep\"," + esc(tystr(ge->getSourceElementType())) + ",[";
        bool first = true;
        for (auto &op : ge->operands()) { if (!first) s += ","; first = false; s += cref(cast<Constant>(op), depth + 1); }
        return s + "]]";
      }
      if (ce->isCast()) return cref(cast<Constant>(ce->getOperand(0)), depth + 1);
      return "[\"?\"]";
    }
    if (isa<ConstantAggregateZero>(c)) return "[\"zero\"]";
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
      if (cd->isString()) {
        return "[\"s\"," + esc(cd->getAsString()) + "]";
      }
      std::string s = "[\"arr\",[";
      for (unsigned i = 0; i < cd->getNumElements(); i++) { if (i) s += ","; s += cref(cd->getElementAsConstant(i), depth + 1); }
      return s + "]]";
    }
    if (isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
      std::string s = isa<ConstantArray>(c) ? "[\"arr\",[" : "[\"struct\",[";
      for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) s += ","; s += cref(cast<Constant>(c->getOperand(i)), depth + 1); }
      return s + "]]";
    }
    return "[\"?\"]";
  }
  std::string ref(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return cref(c);
    if (auto *bb = dyn_cast<BasicBlock>(v)) return "[\"b\"," + std::to_string(ids[bb]) + "]";
    if (isa<MetadataAsValue>(v)) return "[\"md\"]";
    auto it = ids.find(v);
    if (it == ids.end()) return "[\"?\"]";
    return (isa<Argument>(v) ? "[\"a\"," : "[\"v\",") + std::to_string(it->second) + "]";
  }
  static std::string fileOf(const DIScope *s) {
    return s ? (s->getFilename()).str() : "";
  }
  void loc(const DebugLoc &dl, const Function &F) {
    if (!dl) return;
    O << ",\"l\":[" << esc(fileOf(dl->getScope())) << "," << dl.getLine() << "]";
    if (auto *ia = dl->getInlinedAt()) {
      while (ia->getInlinedAt()) ia = ia->getInlinedAt();
      O << ",\"ia\":[" << esc(fileOf(ia->getScope())) << "," << ia->getLine() << "]";
      if (auto *sp = dl->getScope()->getSubprogram()) O << ",\"if\":" << esc(sp->getName());
    }
  }
  void inst(const Instruction &I, const Function &F) {
    O << "{\"o\":" << esc(I.getOpcodeName()) << ",\"i\":" << ids[&I];
    if (!I.getType()->isVoidTy()) O << ",\"t\":" << esc(tystr(I.getType()));
    if (auto *c = dyn_cast<CmpInst>(&I)) O << ",\"p\":" << esc(CmpInst::getPredicateName(c->getPredicate()));
    if (auto *g = dyn_cast<GetElementPtrInst>(&I)) O << ",\"st\":" << esc(nominal(I, tystr(g->getSourceElementType())));
    if (auto *a = dyn_cast<AllocaInst>(&I)) O << ",\"at\":" << esc(nominal(I, tystr(a->getAllocatedType()))) << ",\"sz\":" << (a->getAllocatedType()->isSized() ? (uint64_t)DL.getTypeAllocSize(a->getAllocatedType()) : 0);
    if (auto *s = dyn_cast<StoreInst>(&I)) O << ",\"vt\":" << esc(tystr(s->getValueOperand()->getType()));
    if (auto *p = dyn_cast<PHINode>(&I)) {
      O << ",\"in\":[";
      for (unsigned i = 0; i < p->getNumIncomingValues(); i++) {
        if (i) O << ",";
        O << "[" << ref(p->getIncomingValue(i)) << "," << ids[p->getIncomingBlock(i)] << "]";
      }
      O << "]";
    } else if (auto *c = dyn_cast<CallBase>(&I)) {
      O << ",\"c\":" << ref(c->getCalledOperand()->stripPointerCasts());
      O << ",\"a\":[";
      for (unsigned i = 0; i < c->arg_size(); i++) { if (i) O << ","; O << ref(c->getArgOperand(i)); }
      O << "]";
    } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
      O << ",\"a\":[" << ref(s->getCondition()) << "],\"def\":" << ids[s->getDefaultDest()] << ",\"cases\":[";
      bool first = true;
      for (auto &cs : s->cases()) { if (!first) O << ","; first = false;
        O << "[" << cs.getCaseValue()->getSExtValue() << "," << ids[cs.getCaseSuccessor()] << "]"; }
      O << "]";
    } else if (auto *b = dyn_cast<BranchInst>(&I)) {
      if (b->isConditional()) O << ",\"a\":[" << ref(b->getCondition()) << "],\"s\":[" << ids[b->getSuccessor(0)] << "," << ids[b->getSuccessor(1)] << "]";
      else O << ",\"a\":[],\"s\":[" << ids[b->getSuccessor(0)] << "]";
    } else {
      O << ",\"a\":[";
      for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; O << ref(I.getOperand(i)); }
      O << "]";
    }
    loc(I.getDebugLoc(), F);
    O << "}";
  }
  void func(Function &F) {
    unsigned n = 0;
    ids.clear();
    for (auto &A : F.args()) ids[&A] = n++;
    unsigned b = 0;
    for (auto &B : F) { ids[&B] = b++; for (auto &I : B) ids[&I] = n++; }
    O << "{\"name\":" << esc(F.getName());
    std::string file; unsigned line = 0;
    if (auto *sp = F.getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); }
    O << ",\"file\":" << esc(file) << ",\"line\":" << line << ",\"static\":" << (F.hasLocalLinkage() ? 1 : 0);
    O << ",\"ret\":" << esc(tystr(F.getReturnType())) << ",\"va\":" << (F.isVarArg() ? 1 : 0) << ",\"args\":[";
    bool first = true;
    std::map<unsigned, std::string> an, aty;
    if (auto *sp = F.getSubprogram()) {
      for (auto *n : sp->getRetainedNodes()) if (auto *lv = dyn_cast<DILocalVariable>(n)) if (lv->getArg()) { an[lv->getArg()] = lv->getName().str(); aty[lv->getArg()] = dity(lv->getType()); }
      for (auto &I : instructions(F)) if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) {
        auto *lv = d->getVariable();
        if (lv->getArg() && !d->getDebugLoc()->getInlinedAt()) { an[lv->getArg()] = lv->getName().str(); aty[lv->getArg()] = dity(lv->getType()); }
      }
    }
    for (auto &A : F.args()) {
      if (!first) O << ","; first = false;
      O << "{\"n\":" << esc(an[A.getArgNo() + 1]) << ",\"t\":" << esc(tystr(A.getType())) << ",\"d\":" << esc(aty[A.getArgNo() + 1]) << "}";
    }
    O << "]";
    if (auto *sp = F.getSubprogram()) if (sp->getType()) { auto ta = sp->getType()->getTypeArray(); if (ta.size()) O << ",\"rd\":" << esc(dity(ta[0])); }
    // debug names of SSA values
    O << ",\"names\":{";
    first = true;
    std::set<unsigned> seen;
    for (auto &I : instructions(F)) if (auto *d = dyn_cast<DbgVariableIntrinsic>(&I)) {
      for (auto *v : d->location_ops()) {
        auto it = ids.find(v);
        if (it == ids.end() || isa<BasicBlock>(v)) continue;
        if (!seen.insert(it->second).second) continue;
        if (!first) O << ","; first = false;
        O << "\"" << it->second << "\":[" << esc(d->getVariable()->getName()) << "," << esc(dity(d->getVariable()->getType())) << "]";
      }
    }
    O << "},\"blocks\":[";
    first = true;
    for (auto &B : F) {
      if (!first) O << ","; first = false;
      O << "[";
      bool f2 = true;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (!f2) O << ","; f2 = false;
        inst(I, F);
      }
      O << "]\n";
    }
    O << "]}";
  }
  std::string dity(const DIType *t, int d = 0) {
    if (!t) return "void";
    if (d > 6) return "...";
    if (auto *b = dyn_cast<DIBasicType>(t)) return b->getName().str();
    if (auto *c = dyn_cast<DICompositeType>(t)) {
      if (c->getTag() == dwarf::DW_TAG_array_type) {
        std::string s = dity(c->getBaseType(), d + 1);
        for (auto *e : c->getElements()) if (auto *sr = dyn_cast<DISubrange>(e)) {
          if (auto *ci = sr->getCount().dyn_cast<ConstantInt *>()) s += "[" + std::to_string(ci->getSExtValue()) + "]"; else s += "[]";
        }
        return s;
      }
      std::string k = c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : c->getTag() == dwarf::DW_TAG_union_type ? "union " : "struct ";
      return k + c->getName().str();
    }
    if (auto *dt = dyn_cast<DIDerivedType>(t)) {
      if (dt->getTag() == dwarf::DW_TAG_pointer_type) return dity(dt->getBaseType(), d + 1) + "*";
      if (dt->getTag() == dwarf::DW_TAG_typedef) return dt->getName().str();
      return dity(dt->getBaseType(), d + 1);
    }
    return "fn";
  }
  void run() {
    O << "{\"structs\":{";
    bool first = true;
    std::map<std::string, const DICompositeType *> comp;
    std::map<const DICompositeType *, std::string> tdname;
    std::map<std::string, std::vector<std::pair<std::string, int64_t>>> enums;
    DebugInfoFinder fd;
    fd.processModule(M);
    std::map<std::string, std::string> typedefs;
    for (auto *t : fd.types()) {
      if (auto *dt = dyn_cast<DIDerivedType>(t)) if (dt->getTag() == dwarf::DW_TAG_typedef) {
        typedefs[dt->getName().str()] = dity(dt->getBaseType());
        if (auto *c = dyn_cast_or_null<DICompositeType>(dt->getBaseType())) tdname[c] = dt->getName().str();
      }
    }
    for (auto *t : fd.types()) {
      if (auto *c = dyn_cast<DICompositeType>(t)) {
        std::string nm = c->getName().str();
        if (nm.empty()) { auto it = tdname.find(c); if (it != tdname.end()) nm = it->second; }
        if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) { if (!c->isForwardDecl() && !nm.empty() && !comp.count(nm)) comp[nm] = c; }
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
          if (nm.empty()) nm = "anon@" + fileOf(c) + ":" + std::to_string(c->getLine());
          auto &v = enums[nm];
          if (v.empty()) for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) v.push_back({en->getName().str(), en->getValue().getSExtValue()});
        }
      }
    }
    for (auto &kv : comp) {
      if (!first) O << ","; first = false;
      O << esc(kv.first) << ":[";
      bool f2 = true;
      for (auto *e : kv.second->getElements()) if (auto *m = dyn_cast<DIDerivedType>(e)) if (m->getTag() == dwarf::DW_TAG_member) {
        if (!f2) O << ","; f2 = false;
        O << "[" << esc(m->getName()) << "," << esc(dity(m->getBaseType())) << "," << m->getOffsetInBits() / 8 << "," << (m->getBaseType() ? m->getBaseType()->getSizeInBits() / 8 : 0) << "]";
      }
      O << "]";
    }
    O << "},\n\"lls\":{";
    first = true;
    for (auto &kv : LLS) { if (!first) O << ","; first = false; O << esc(kv.first) << ":" << kv.second; }
    O << "},\n\"enums\":{";
    first = true;
    for (auto &kv : enums) {
      if (!first) O << ","; first = false;
      O << esc(kv.first) << ":[";
      for (size_t i = 0; i < kv.second.size(); i++) { if (i) O << ","; O << "[" << esc(kv.second[i].first) << "," << kv.second[i].second << "]"; }
      O << "]";
    }
    O << "},\n\"typedefs\":{";
    first = true;
    for (auto &kv : typedefs) { if (!first) O << ","; first = false; O << esc(kv.first) << ":" << esc(kv.second); }
    O << "},\n\"noret\":[";
    for (size_t k = 0; k < noret.size(); k++) {
      auto *sp = noret[k].second;
      O << (k ? "," : "") << "[" << esc(noret[k].first) << "," << esc(sp ? fileOf(sp) : std::string()) << "," << (sp ? sp->getLine() : 0) << "]";
    }
    O << "],\n\"globals\":{";
    first = true;
    for (auto &G : M.globals()) {
      if (!first) O << ",\n"; first = false;
      O << esc(G.getName()) << ":{\"t\":" << esc(tystr(G.getValueType())) << ",\"sz\":" << (G.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(G.getValueType()) : 0) << ",\"const\":" << (G.isConstant() ? 1 : 0);
      SmallVector<DIGlobalVariableExpression *, 1> gv;
      G.getDebugInfo(gv);
      if (!gv.empty()) { auto *d = gv[0]->getVariable(); O << ",\"n\":" << esc(d->getName()) << ",\"d\":" << esc(dity(d->getType())) << ",\"l\":[" << esc(d->getFilename()) << "," << d->getLine() << "]"; }
      if (G.hasInitializer()) O << ",\"init\":" << cref(G.getInitializer());
      O << "}";
    }
    O << "},\n\"decls\":[";
    first = true;
    for (auto &F : M) if (F.isDeclaration()) { if (!first) O << ","; first = false; O << esc(F.getName()); }
    O << "],\n\"functions\":[\n";
    first = true;
    for (auto &F : M) { if (F.isDeclaration()) continue; if (!first) O << ",\n"; first = false; func(F); }
    O << "]}\n";
  }
};

// one back edge per loop ("continue" adds others; LoopSimplify would make nested loops of them)
struct OneLatchPass : PassInfoMixin<OneLatchPass> {
  PreservedAnalyses run(Function &F, FunctionAnalysisManager &AM) {
    bool ch = false;
    for (bool again = true; again;) {
      again = false;
      DominatorTree DT(F); LoopInfo LI(DT);
      for (Loop *L : LI.getLoopsInPreorder()) {
        SmallVector<BasicBlock *, 8> ls;
        L->getLoopLatches(ls);
        if (ls.size() < 2) continue;
        SplitBlockPredecessors(L->getHeader(), ls, ".be");
        ch = again = true;
        break;
      }
    }
    return ch ? PreservedAnalyses::none() : PreservedAnalyses::all();
  }
};

// functions with a path on which nothing is returned although a caller uses the result
static std::vector<std::pair<std::string, DISubprogram *>> nothingReturned(Module &M) {
  std::set<Function *> stop;
  auto stops = [&](BasicBlock &B) {
    for (auto &I : B) if (auto *c = dyn_cast<CallBase>(&I)) {
      auto *t = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
      if (c->doesNotReturn() || (t && (t->doesNotReturn() || stop.count(t)))) return true;
    }
    return false;
  };
  // does a path lead to a return, passing no block for which cut holds?
  auto reach = [&](Function &F, auto cut, bool sw) {
    std::set<BasicBlock *> seen; std::vector<BasicBlock *> st{&F.getEntryBlock()};
    while (!st.empty()) {
      auto *B = st.back(); st.pop_back();
      if (!seen.insert(B).second || cut(*B)) continue;
      auto *t = B->getTerminator();
      if (isa<ReturnInst>(t)) return true;
      for (auto *n : successors(B)) {
        auto *s = dyn_cast<SwitchInst>(t);
        if (sw && s && n == s->getDefaultDest() && !n->getName().starts_with("sw.default")) continue;
        st.push_back(n);
      }
    }
    return false;
  };
  for (bool ch = true; ch;) {
    ch = false;
    for (auto &F : M) if (!F.isDeclaration() && !stop.count(&F) && !reach(F, stops, false)) { stop.insert(&F); ch = true; }
  }
  std::vector<std::pair<std::string, DISubprogram *>> r;
  for (auto &F : M) {
    if (F.isDeclaration() || F.getReturnType()->isVoidTy() || F.getName() == "main") continue;
    bool used = false;
    for (auto *u : F.users()) if (auto *c = dyn_cast<CallBase>(u)) used |= c->getCalledOperand() == &F && !c->use_empty();
    if (!used) continue;
    AllocaInst *rv = nullptr;
    bool undef = false;
    for (auto &I : instructions(F)) {
      if (auto *a = dyn_cast<AllocaInst>(&I)) if (a->getName() == "retval") rv = a;
      if (auto *q = dyn_cast<ReturnInst>(&I)) if (q->getReturnValue() && isa<UndefValue>(q->getReturnValue())) undef = true;
    }
    auto cut = [&](BasicBlock &B) {
      for (auto &I : B) if (auto *s = dyn_cast<StoreInst>(&I)) if (s->getPointerOperand() == rv) return true;
      return stops(B);
    };
    if (rv ? reach(F, cut, true) : undef && reach(F, stops, true)) r.push_back({F.getName().str(), F.getSubprogram()});
  }
  return r;
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irx OUT KEEP|- BC...\n"; return 2; }
  LLVMContext C;
  SMDiagnostic E;
  auto M = std::make_unique<Module>("all", C);
  Linker L(*M);
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], E, C);
    if (!m) { E.print(argv[0], errs()); return 2; }
    markNames(*m);
    if (i == 3) { M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); }
    if (L.linkInModule(std::move(m))) { errs() << "link failed: " << argv[i] << "\n"; return 2; }
  }
  std::set<std::string> keep;
  bool doInline = false;
  if (std::string(argv[2]) != "-") {
    doInline = true;
    std::ifstream f(argv[2]);
    std::string s;
    while (std::getline(f, s)) if (!s.empty()) keep.insert(s);
  }
  // calls through a declaration without parameter list: give them the type of the definition
  for (auto &F : *M) for (auto &I : instructions(F)) {
    auto *cb = dyn_cast<CallBase>(&I);
    if (!cb || cb->getCalledFunction()) continue;
    auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (!t || t->isDeclaration() || t->isVarArg() || t->getReturnType() != cb->getType() || t->arg_size() != cb->arg_size()) continue;
    bool same = true;
    for (unsigned k = 0; k < cb->arg_size(); k++) same &= t->getArg(k)->getType() == cb->getArgOperand(k)->getType();
    if (same) cb->mutateFunctionType(t->getFunctionType());
  }
  // what these answer is their first argument
  static const std::set<std::string> echoes = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat"};
  for (auto &F : *M) for (auto &I : instructions(F)) {
    auto *cb = dyn_cast<CallBase>(&I);
    if (!cb || cb->arg_size() < 2 || cb->use_empty()) continue;
    auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (t && t->isDeclaration() && echoes.count(t->getName().str()) && cb->getArgOperand(0)->getType() == cb->getType())
      cb->replaceAllUsesWith(cb->getArgOperand(0));
  }
  auto noret = nothingReturned(*M);
  // functions in call graph cycles or with address taken are never inlined
  std::set<Function *> norec;
  {
    CallGraph CG(*M);
    for (scc_iterator<CallGraph *> it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      const auto &scc = *it;
      bool cyc = scc.size() > 1 || it.hasCycle();
      if (cyc) for (auto *n : scc) if (n->getFunction()) norec.insert(n->getFunction());
    }
  }
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::OptimizeNone);
    F.removeFnAttr(Attribute::NoInline);
    if (F.isDeclaration()) continue;
    if (doInline && !keep.count(F.getName().str()) && !norec.count(&F) && !F.isVarArg())
      F.addFnAttr(Attribute::AlwaysInline);
  }
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
  // the address of the first member of a struct is kept apart from the address of the struct while inlining
  std::vector<std::pair<Function *, GetElementPtrInst *>> first;
  for (auto &F : *M) for (auto &B : F) for (auto it = B.begin(); it != B.end();) {
    auto *g = dyn_cast<GetElementPtrInst>(&*it++);
    if (!g || !g->hasAllZeroIndices() || !g->getSourceElementType()->isStructTy()) continue;
    auto *fn = Function::Create(FunctionType::get(g->getType(), {g->getPointerOperandType()}, false),
                                GlobalValue::ExternalLinkage, "irx.first." + std::to_string(first.size()), *M);
    fn->setDoesNotThrow();
    auto *c = CallInst::Create(fn->getFunctionType(), fn, {g->getPointerOperand()}, "", g);
    c->setDebugLoc(g->getDebugLoc());
    g->replaceAllUsesWith(c);
    g->removeFromParent();
    first.push_back({fn, g});
  }
  {
    ModulePassManager IPM;
    IPM.addPass(AlwaysInlinerPass(false));
    IPM.run(*M, MAM);
    MAM.clear(); CGAM.clear(); FAM.clear(); LAM.clear();
  }
  for (auto &x : first) {
    std::vector<CallInst *> cs;
    for (auto *u : x.first->users()) if (auto *c = dyn_cast<CallInst>(u)) cs.push_back(c);
    for (auto *c : cs) {
      auto *g = cast<GetElementPtrInst>(x.second->clone());
      g->setOperand(0, c->getArgOperand(0));
      g->insertBefore(c);
      g->setDebugLoc(c->getDebugLoc());
      c->replaceAllUsesWith(g);
      c->eraseFromParent();
    }
    x.second->deleteValue();
    x.first->eraseFromParent();
  }
  ModulePassManager MPM;
  FunctionPassManager FPM;
  FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
  FPM.addPass(OneLatchPass());
  FPM.addPass(LoopSimplifyPass());
  MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
  MPM.run(*M, MAM);
  std::error_code ec;
  raw_fd_ostream out(argv[1], ec);
  if (ec) { errs() << ec.message() << "\n"; return 2; }
  Exporter X(*M, out);
  X.noret = noret;
  X.run();
  return 0;
}
