// irx: links LLVM bitcode of the analysed library, drops the bodies of standard
// library functions, optionally inlines repository functions, brings the result
// into a light SSA normal form and dumps it as JSON for the Python analyses.
//
// usage: irx OUT.json KEEP.txt file.bc...
//   KEEP.txt: mangled names of functions which must never be inlined, one a line.
//   Every other repository function with a body is inlined into its callers
//   when it is not recursive.
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;

static bool starts(StringRef s, const char *p) { return s.starts_with(p); }

static std::string dem(StringRef n) { return llvm::demangle(n.str()); }

// Functions of the standard library whose body carries no state of its own: they
// are inlined, because leaving them opaque would hide plain arithmetic.
static bool stdInlinable(const std::string &d) {
  static const char *pre[] = {
      "unsigned int const& std::min<", "unsigned int const& std::max<",
      "unsigned long const& std::min<", "unsigned long const& std::max<",
      "unsigned short const& std::min<", "unsigned short const& std::max<",
      "unsigned char const& std::min<", "unsigned char const& std::max<",
      "int const& std::min<", "int const& std::max<",
      "long const& std::min<", "long const& std::max<",
      "std::numeric_limits<"};
  for (auto p : pre)
    if (StringRef(d).starts_with(p)) return true;
  size_t k = d.find(" std::swap<");
  if (k != std::string::npos && d.compare(k + 11, 5, "std::") != 0) return true;
  if (d.find("&& std::forward<") != std::string::npos || d.find("&& std::move<") != std::string::npos) return true;
  return false;
}

static bool isStd(StringRef n) {
  // linkage names of namespace std, __gnu_cxx, operators new/delete
  static const char *pre[] = {"_ZNSt", "_ZNKSt", "_ZSt", "_ZN9__gnu_cxx",
                              "_ZNK9__gnu_cxx", "_ZNSa", "_ZNKSa", "_ZNSs", "_ZNKSs",
                              "_ZNSi", "_ZNSo", "_ZNSd", "_ZN9__gnu", "_ZTv", "__clang_call_terminate",
                              "_ZNSb", "_ZNKSb", "_ZnwmPv", "_ZdlPvS_", "_ZNO", "_ZGV", "__cxx_global", "_GLOBAL__"};
  for (auto p : pre)
    if (starts(n, p)) return true;
  if (starts(n, "_ZeqI") || starts(n, "_ZneI") || starts(n, "_ZltI")) return true;
  return false;
}

static unsigned fileId(const DIFile *f);
static std::vector<std::string> files;
static std::map<std::string, unsigned> fileIds;
static unsigned fileIdS(const std::string &s) {
  auto it = fileIds.find(s);
  if (it != fileIds.end()) return it->second;
  unsigned id = files.size();
  fileIds[s] = id;
  files.push_back(s);
  return id;
}
static unsigned fileId(const DIFile *f) {
  if (!f) return fileIdS("?");
  return fileIdS(f->getFilename().str());
}

static std::string tyStr(Type *t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static json::Value constVal(const Constant *c, const DataLayout &DL);

static json::Value apInt(const APInt &v) {
  if (v.getBitWidth() <= 64) {
    uint64_t z = v.getZExtValue();
    if (z <= (uint64_t)INT64_MAX) return json::Value((int64_t)z);
    SmallString<32> s;
    v.toString(s, 10, false);
    return json::Value(s.str().str());
  }
  SmallString<64> s;
  v.toString(s, 10, false);
  return json::Value(s.str().str());
}

static json::Value constVal(const Constant *c, const DataLayout &DL) {
  if (auto *ci = dyn_cast<ConstantInt>(c))
    return json::Array{"c", apInt(ci->getValue()), (int64_t)ci->getBitWidth()};
  if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
  if (isa<PoisonValue>(c) || isa<UndefValue>(c)) return json::Array{"u"};
  if (auto *f = dyn_cast<Function>(c)) return json::Array{"f", f->getName().str()};
  if (auto *g = dyn_cast<GlobalValue>(c)) return json::Array{"g", g->getName().str()};
  if (auto *fp = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s;
    fp->getValueAPF().toString(s);
    return json::Array{"fp", s.str().str()};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *gep = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (gep->accumulateConstantOffset(DL, off))
        return json::Array{"o", constVal(cast<Constant>(gep->getPointerOperand()), DL), off.getSExtValue()};
    }
    json::Array ops;
    for (auto &o : ce->operands()) ops.push_back(constVal(cast<Constant>(o), DL));
    return json::Array{"e", ce->getOpcodeName(), std::move(ops)};
  }
  if (isa<ConstantAggregateZero>(c)) return json::Array{"z"};
  return json::Array{"k", "const"};
}

struct Dumper {
  const DataLayout &DL;
  DenseMap<const Value *, int> ids;
  int next = 0;
  explicit Dumper(const DataLayout &dl) : DL(dl) {}
  int id(const Value *v) {
    auto it = ids.find(v);
    if (it != ids.end()) return it->second;
    int n = next++;
    ids[v] = n;
    return n;
  }
  json::Value op(const Value *v) {
    if (auto *c = dyn_cast<Constant>(v)) return constVal(c, DL);
    if (isa<InlineAsm>(v)) return json::Array{"asm"};
    if (isa<MetadataAsValue>(v)) return json::Array{"md"};
    return json::Value(id(v));
  }
};

static std::string diTypeName(const DIType *t, int depth = 0) {
  if (!t) return "void";
  if (depth > 12) return "...";
  if (auto *d = dyn_cast<DIDerivedType>(t)) {
    switch (d->getTag()) {
    case dwarf::DW_TAG_const_type: return "const " + diTypeName(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_volatile_type: return "volatile " + diTypeName(d->getBaseType(), depth + 1);
    case dwarf::DW_TAG_pointer_type: return diTypeName(d->getBaseType(), depth + 1) + "*";
    case dwarf::DW_TAG_reference_type: return diTypeName(d->getBaseType(), depth + 1) + "&";
    case dwarf::DW_TAG_rvalue_reference_type: return diTypeName(d->getBaseType(), depth + 1) + "&&";
    default: break;
    }
    if (!d->getName().empty()) return d->getName().str();
    return diTypeName(d->getBaseType(), depth + 1);
  }
  if (auto *c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string s = diTypeName(c->getBaseType(), depth + 1) + "[";
      return s + "]";
    }
    std::string s = c->getName().str();
    const DIScope *sc = c->getScope();
    while (sc && (isa<DINamespace>(sc) || isa<DICompositeType>(sc))) {
      std::string n = isa<DINamespace>(sc) ? cast<DINamespace>(sc)->getName().str() : sc->getName().str();
      if (n != "__cxx11" && !n.empty()) s = n + "::" + s;
      sc = sc->getScope();
    }
    return s;
  }
  return t->getName().str();
}

static const DIType *canonType(const DIType *t) {
  for (int k = 0; t && k < 20; ++k) {
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d) return t;
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_member: t = d->getBaseType(); break;
    default: return t;
    }
  }
  return t;
}

int main(int argc, char **argv) {
  if (argc < 4) { errs() << "usage: irx OUT KEEP bc...\n"; return 2; }
  LLVMContext ctx;
  std::set<std::string> keep;
  {
    std::ifstream in(argv[2]);
    std::string l;
    while (std::getline(in, l)) if (!l.empty()) keep.insert(l);
  }
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; ++i) {
    SMDiagnostic err;
    auto m = parseIRFile(argv[i], err, ctx);
    if (!m) { err.print("irx", errs()); return 2; }
    // drop std bodies
    for (auto &f : *m) {
      if (f.isDeclaration()) continue;
      f.removeFnAttr(Attribute::NoInline);
      f.removeFnAttr(Attribute::OptimizeNone);
      StringRef n = f.getName();
      if (isStd(n) && !stdInlinable(dem(n))) {
        bool nounwind = f.hasFnAttribute(Attribute::NoUnwind);
        f.deleteBody();
        f.setComdat(nullptr);
        f.setLinkage(GlobalValue::ExternalLinkage);
        if (nounwind) f.addFnAttr(Attribute::NoUnwind);
      }
    }
    if (!M) M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed\n"; return 2; }
  }
  const DataLayout &DL = M->getDataLayout();
  // constructor/destructor aliases
  for (auto &ga : M->aliases()) {
    Constant *t = ga.getAliasee();
    if (isa<Function>(t->stripPointerCasts())) ga.replaceAllUsesWith(t);
  }
  // virtual calls on the image properties, resolved to one of the two instantiations
  for (auto &k : keep) {
    if (k.rfind("#devirt ", 0) != 0) continue;
    std::string sub = k.substr(8);
    GlobalVariable *vt = nullptr;
    for (auto &g : M->globals())
      if (starts(g.getName(), "_ZTVN8pe_bliss21pe_properties_generic") && g.getName().contains(sub) && g.hasInitializer()) vt = &g;
    if (!vt) { errs() << "no vtable for " << sub << "\n"; return 2; }
    std::vector<Constant *> slots;
    if (auto *cs = dyn_cast<ConstantStruct>(vt->getInitializer()))
      if (auto *ca = dyn_cast<ConstantArray>(cs->getOperand(0)))
        for (auto &e : ca->operands()) slots.push_back(cast<Constant>(e.get()->stripPointerCasts()));
    for (auto &f : *M) {
      std::string d = dem(f.getName());
      if (d.find("pe_bliss::pe_base::") == std::string::npos && d.find("pe_bliss::pe_properties") == std::string::npos) continue;
      for (auto &bb : f)
        for (auto &ins : bb) {
          auto *cb = dyn_cast<CallBase>(&ins);
          if (!cb || cb->getCalledFunction()) continue;
          auto *ld = dyn_cast<LoadInst>(cb->getCalledOperand());
          if (!ld) continue;
          APInt off(64, 0);
          Value *b = ld->getPointerOperand()->stripAndAccumulateConstantOffsets(DL, off, true);
          if (!isa<LoadInst>(b)) continue;
          uint64_t ix = off.getZExtValue() / 8 + 2;
          if (ix >= slots.size()) continue;
          if (auto *t = dyn_cast<Function>(slots[ix]))
            if (t->getFunctionType() == cb->getFunctionType()) cb->setCalledOperand(t);
        }
    }
  }
  // inline
  unsigned inlined = 0;
  {
    CallGraph CG(*M);
    std::set<Function *> recursive;
    std::vector<Function *> order;
    for (auto it = scc_begin(&CG); !it.isAtEnd(); ++it) {
      bool cyc = it.hasCycle();
      for (auto *n : *it)
        if (Function *f = n->getFunction()) {
          if (f->isDeclaration()) continue;
          order.push_back(f);
          if (cyc) recursive.insert(f);
        }
    }
    for (Function *f : order) {
      bool changed = true;
      int rounds = 0;
      while (changed && rounds++ < 400) {
        changed = false;
        for (auto &bb : *f) {
          for (auto &ins : bb) {
            auto *cb = dyn_cast<CallBase>(&ins);
            if (!cb) continue;
            Function *callee = cb->getCalledFunction();
            if (!callee || callee->isDeclaration() || callee == f) continue;
            if (recursive.count(callee)) continue;
            if (keep.count(callee->getName().str())) continue;
            InlineFunctionInfo ifi;
            if (InlineFunction(*cb, ifi).isSuccess()) { changed = true; ++inlined; break; }
          }
          if (changed) break;
        }
      }
    }
  }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa,early-cse,simplifycfg<no-hoist-common-insts;no-sink-common-insts;no-switch-to-lookup;keep-loops;bonus-inst-threshold=0;no-speculate-blocks>,sroa,adce)")) {
      // fall back when an option is unknown
      errs() << toString(std::move(e)) << "\n";
      return 2;
    }
    MPM.run(*M, MAM);
  }
  json::Array funcs;
  json::Object fnTable;
  for (auto &f : *M) {
    std::string d = dem(f.getName());
    json::Object fo;
    fo["d"] = d;
    if (f.hasFnAttribute(Attribute::NoUnwind)) fo["nu"] = true;
    if (f.doesNotReturn()) fo["nr"] = true;
    fo["std"] = isStd(f.getName());
    if (f.isDeclaration()) {
      if (f.isIntrinsic()) fo["intr"] = true;
      fnTable[f.getName()] = std::move(fo);
      continue;
    }
    Dumper D(DL);
    DISubprogram *sp = f.getSubprogram();
    if (sp) {
      fo["file"] = (int64_t)fileId(sp->getFile());
      fo["line"] = (int64_t)sp->getLine();
      if (auto *st = sp->getType()) {
        json::Array ta;
        for (auto *t : st->getTypeArray()) ta.push_back(diTypeName(t));
        fo["dity"] = std::move(ta);
      }
      fo["ditag"] = (sp->isLocalToUnit() ? "local" : "ext");
      unsigned acc = 0;
      DINode::DIFlags fl = sp->getFlags();
      if (auto *decl = sp->getDeclaration()) fl = decl->getFlags();
      if ((fl & DINode::FlagAccessibility) == DINode::FlagPrivate) acc = 1;
      else if ((fl & DINode::FlagAccessibility) == DINode::FlagProtected) acc = 2;
      fo["acc"] = (int64_t)acc;
    }
    json::Array args;
    unsigned ai = 0;
    for (auto &a : f.args()) {
      json::Object ao;
      ao["id"] = D.id(&a);
      ao["n"] = a.getName().str();
      ao["t"] = tyStr(a.getType());
      if (a.hasStructRetAttr()) ao["sret"] = (int64_t)DL.getTypeAllocSize(a.getParamStructRetType());
      if (a.hasByValAttr()) ao["byval"] = true;
      (void)ai;
      args.push_back(std::move(ao));
    }
    fo["args"] = std::move(args);
    fo["ret"] = tyStr(f.getReturnType());
    std::map<const BasicBlock *, int> bbid;
    int nb = 0;
    for (auto &bb : f) bbid[&bb] = nb++;
    json::Array blocks;
    for (auto &bb : f) {
      json::Array insts;
      for (auto &ins : bb) {
        if (isa<DbgInfoIntrinsic>(ins)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&ins)) {
          auto k = ii->getIntrinsicID();
          if (k == Intrinsic::lifetime_start || k == Intrinsic::lifetime_end ||
              k == Intrinsic::invariant_start || k == Intrinsic::invariant_end || k == Intrinsic::assume ||
              k == Intrinsic::experimental_noalias_scope_decl)
            continue;
        }
        json::Object io;
        if (!ins.getType()->isVoidTy()) {
          io["i"] = D.id(&ins);
          io["t"] = tyStr(ins.getType());
          if (ins.hasName()) io["n"] = ins.getName().str();
        }
        io["o"] = ins.getOpcodeName();
        if (const DILocation *dl = ins.getDebugLoc().get()) {
          io["l"] = (int64_t)dl->getLine();
          io["f"] = (int64_t)fileId(dl->getFile());
          if (auto *ia = dl->getInlinedAt()) {
            const DILocation *top = ia;
            while (top->getInlinedAt()) top = top->getInlinedAt();
            io["il"] = (int64_t)top->getLine();
          }
        }
        if (auto *x = dyn_cast<AllocaInst>(&ins)) {
          auto sz = x->getAllocationSize(DL);
          io["sz"] = sz ? (int64_t)sz->getFixedValue() : (int64_t)-1;
          io["at"] = tyStr(x->getAllocatedType());
          if (!sz) io["cnt"] = D.op(x->getArraySize());
          io["esz"] = (int64_t)DL.getTypeAllocSize(x->getAllocatedType()).getFixedValue();
        } else if (auto *x = dyn_cast<LoadInst>(&ins)) {
          io["p"] = D.op(x->getPointerOperand());
          io["sz"] = (int64_t)DL.getTypeStoreSize(x->getType()).getFixedValue();
        } else if (auto *x = dyn_cast<StoreInst>(&ins)) {
          io["v"] = D.op(x->getValueOperand());
          io["p"] = D.op(x->getPointerOperand());
          io["sz"] = (int64_t)DL.getTypeStoreSize(x->getValueOperand()->getType()).getFixedValue();
        } else if (auto *x = dyn_cast<GetElementPtrInst>(&ins)) {
          io["p"] = D.op(x->getPointerOperand());
          int64_t off = 0;
          json::Array vs;
          for (auto gti = gep_type_begin(x), e = gep_type_end(x); gti != e; ++gti) {
            Value *idx = gti.getOperand();
            if (StructType *st = gti.getStructTypeOrNull()) {
              off += DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()).getFixedValue();
            } else {
              int64_t s = gti.getSequentialElementStride(DL).getFixedValue();
              if (auto *ci = dyn_cast<ConstantInt>(idx)) off += s * ci->getSExtValue();
              else vs.push_back(json::Array{D.op(idx), s});
            }
          }
          io["off"] = off;
          if (!vs.empty()) io["vs"] = std::move(vs);
        } else if (auto *x = dyn_cast<CallBase>(&ins)) {
          if (Function *cf = x->getCalledFunction()) io["c"] = cf->getName().str();
          else io["cp"] = D.op(x->getCalledOperand());
          json::Array as;
          for (unsigned k = 0; k < x->arg_size(); ++k) as.push_back(D.op(x->getArgOperand(k)));
          io["a"] = std::move(as);
          if (x->arg_size() && x->paramHasAttr(0, Attribute::StructRet)) {
            io["sret"] = (int64_t)DL.getTypeAllocSize(x->getParamStructRetType(0)).getFixedValue();
          }
          json::Array bv;
          for (unsigned k = 0; k < x->arg_size(); ++k)
            if (x->isByValArgument(k)) bv.push_back((int64_t)k);
          if (!bv.empty()) io["bv"] = std::move(bv);
          if (auto *iv = dyn_cast<InvokeInst>(x)) {
            io["nd"] = (int64_t)bbid[iv->getNormalDest()];
            io["ud"] = (int64_t)bbid[iv->getUnwindDest()];
          }
          if (x->doesNotThrow()) io["nu"] = true;
        } else if (auto *x = dyn_cast<BranchInst>(&ins)) {
          if (x->isConditional()) {
            io["v"] = D.op(x->getCondition());
            io["s"] = json::Array{bbid[x->getSuccessor(0)], bbid[x->getSuccessor(1)]};
          } else io["s"] = json::Array{bbid[x->getSuccessor(0)]};
        } else if (auto *x = dyn_cast<SwitchInst>(&ins)) {
          io["v"] = D.op(x->getCondition());
          json::Array cs;
          for (auto &c : x->cases()) cs.push_back(json::Array{apInt(c.getCaseValue()->getValue()), bbid[c.getCaseSuccessor()]});
          io["cs"] = std::move(cs);
          io["df"] = (int64_t)bbid[x->getDefaultDest()];
        } else if (auto *x = dyn_cast<PHINode>(&ins)) {
          json::Array in;
          for (unsigned k = 0; k < x->getNumIncomingValues(); ++k)
            in.push_back(json::Array{bbid[x->getIncomingBlock(k)], D.op(x->getIncomingValue(k))});
          io["in"] = std::move(in);
        } else if (auto *x = dyn_cast<CmpInst>(&ins)) {
          io["pr"] = CmpInst::getPredicateName(x->getPredicate()).str();
          io["a"] = json::Array{D.op(x->getOperand(0)), D.op(x->getOperand(1))};
          io["ot"] = tyStr(x->getOperand(0)->getType());
        } else if (auto *x = dyn_cast<ExtractValueInst>(&ins)) {
          io["a"] = json::Array{D.op(x->getAggregateOperand())};
          json::Array ix;
          for (unsigned k : x->indices()) ix.push_back((int64_t)k);
          io["ix"] = std::move(ix);
        } else if (auto *x = dyn_cast<InsertValueInst>(&ins)) {
          io["a"] = json::Array{D.op(x->getAggregateOperand()), D.op(x->getInsertedValueOperand())};
          json::Array ix;
          for (unsigned k : x->indices()) ix.push_back((int64_t)k);
          io["ix"] = std::move(ix);
        } else if (auto *x = dyn_cast<LandingPadInst>(&ins)) {
          json::Array cl;
          for (unsigned k = 0; k < x->getNumClauses(); ++k)
            cl.push_back(json::Array{x->isCatch(k) ? "catch" : "filter", constVal(x->getClause(k), DL)});
          io["cl"] = std::move(cl);
          io["cleanup"] = x->isCleanup();
        } else {
          json::Array as;
          for (auto &o : ins.operands())
            if (!isa<BasicBlock>(o.get())) as.push_back(D.op(o.get()));
          io["a"] = std::move(as);
          if (isa<CastInst>(ins)) io["ot"] = tyStr(ins.getOperand(0)->getType());
        }
        insts.push_back(std::move(io));
      }
      blocks.push_back(std::move(insts));
    }
    fo["b"] = std::move(blocks);
    fnTable[f.getName()] = std::move(fo);
  }
  // globals
  json::Object globs;
  for (auto &g : M->globals()) {
    json::Object go;
    go["t"] = tyStr(g.getValueType());
    go["sz"] = (int64_t)(g.getValueType()->isSized() ? DL.getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
    go["const"] = g.isConstant();
    if (g.hasInitializer()) {
      const Constant *c = g.getInitializer();
      if (auto *ci = dyn_cast<ConstantInt>(c)) go["v"] = apInt(ci->getValue());
      else if (auto *cda = dyn_cast<ConstantDataArray>(c)) {
        if (cda->isString()) {
          std::string raw = cda->getAsString().str();
          go["s"] = llvm::toHex(raw);
        } else {
          json::Array el;
          for (unsigned k = 0; k < cda->getNumElements(); ++k)
            if (cda->getElementType()->isIntegerTy()) el.push_back(apInt(cda->getElementAsAPInt(k)));
          go["a"] = std::move(el);
        }
      } else if (starts(g.getName(), "_ZTV")) {
        json::Array el;
        if (auto *cs = dyn_cast<ConstantStruct>(c))
          for (auto &arr : cs->operands())
            if (auto *ca = dyn_cast<ConstantArray>(arr.get()))
              for (auto &e : ca->operands()) el.push_back(constVal(cast<Constant>(e.get()->stripPointerCasts()), DL));
        go["vt"] = std::move(el);
      }
    }
    globs[g.getName()] = std::move(go);
  }
  // debug info types
  json::Object types;
  json::Array enums;
  DebugInfoFinder finder;
  finder.processModule(*M);
  for (auto *t : finder.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c || c->isForwardDecl()) continue;
    std::string n = diTypeName(c);
    if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_class_type || c->getTag() == dwarf::DW_TAG_union_type) {
      if (!starts(n, "pe_bliss")) continue;
      json::Object to;
      to["sz"] = (int64_t)c->getSizeInBits() / 8;
      to["tag"] = c->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct";
      json::Array ms, bs, fns;
      for (auto *e : c->getElements()) {
        if (auto *d = dyn_cast<DIDerivedType>(e)) {
          if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
            ms.push_back(json::Array{d->getName().str(), (int64_t)d->getOffsetInBits() / 8, (int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0), diTypeName(d->getBaseType()), (int64_t)d->getOffsetInBits() % 8, diTypeName(canonType(d)), (int64_t)(canonType(d) ? (canonType(d)->getSizeInBits() ? canonType(d)->getSizeInBits() / 8 : isa<DIDerivedType>(canonType(d)) ? 8 : 0) : 0), isa<DIBasicType>(canonType(d)) || canonType(d)->getTag() == dwarf::DW_TAG_enumeration_type ? "s" : isa<DIDerivedType>(canonType(d)) ? "p" : canonType(d)->getTag() == dwarf::DW_TAG_array_type ? "a" : "c"});
          else if (d->getTag() == dwarf::DW_TAG_inheritance)
            bs.push_back(json::Array{diTypeName(d->getBaseType()), (int64_t)d->getOffsetInBits() / 8});
        } else if (auto *sp = dyn_cast<DISubprogram>(e)) {
          json::Array ta;
          if (auto *st = sp->getType()) for (auto *x : st->getTypeArray()) ta.push_back(diTypeName(x));
          int acc = (int)(sp->getFlags() & DINode::FlagAccessibility);
          if (!acc) acc = c->getTag() == dwarf::DW_TAG_class_type ? 1 : 3;
          fns.push_back(json::Array{sp->getName().str(), sp->getLinkageName().str(), std::move(ta), acc, (int64_t)(c->getTag() == dwarf::DW_TAG_class_type)});
        }
      }
      to["m"] = std::move(ms);
      to["b"] = std::move(bs);
      to["fn"] = std::move(fns);
      types[n] = std::move(to);
    } else if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      json::Array es;
      for (auto *e : c->getElements())
        if (auto *en = dyn_cast<DIEnumerator>(e)) es.push_back(json::Array{en->getName().str(), apInt(en->getValue())});
      enums.push_back(json::Array{n, std::move(es), c->getFile() ? c->getFile()->getFilename().str() : ""});
    }
  }
  json::Object root;
  root["fn"] = std::move(fnTable);
  root["gl"] = std::move(globs);
  root["ty"] = std::move(types);
  root["en"] = std::move(enums);
  json::Array fl;
  for (auto &s : files) fl.push_back(s);
  root["files"] = std::move(fl);
  root["inlined"] = (int64_t)inlined;
  std::error_code ec;
  raw_fd_ostream os(argv[1], ec);
  os << json::Value(std::move(root));
  os.flush();
  return 0;
}
