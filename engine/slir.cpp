// slir: turns the linked LLVM bitcode of the SLIDE library into a compact JSON program
// representation for the Python rules.  For every requested root function it
//   * resolves virtual calls by class hierarchy (type.test metadata) and by the root's concrete class,
//   * inlines every repository / container helper that the spec does not list as opaque,
//   * runs only canonicalising scalar passes (SROA, early-CSE, simplifycfg, instcombine),
//   * dumps blocks / instructions / debug locations.
// No repository code is executed.
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <map>
#include <set>
#include <vector>
using namespace llvm;

static std::string dem(StringRef s) { return demangle(s.str()); }

struct VT { GlobalVariable *gv; std::vector<Function *> slots; uint64_t addr; std::string cls; };
// type id -> list of (vtable, address point byte offset)
static std::map<std::string, std::vector<std::pair<GlobalVariable *, uint64_t>>> TypeVT;
// vtable gv, addrpoint -> slot functions
static Function *vtSlot(GlobalVariable *gv, uint64_t addr, uint64_t slotByte) {
  if (!gv->hasInitializer()) return nullptr;
  uint64_t off = addr + slotByte;
  Constant *c = gv->getInitializer();
  // { [N x ptr], ... }
  const DataLayout &DL = gv->getParent()->getDataLayout();
  Type *ty = c->getType();
  while (true) {
    if (auto *st = dyn_cast<StructType>(ty)) {
      const StructLayout *sl = DL.getStructLayout(st);
      if (off >= sl->getSizeInBytes()) return nullptr;
      unsigned i = sl->getElementContainingOffset(off);
      off -= sl->getElementOffset(i);
      c = c->getAggregateElement(i);
      ty = c->getType();
    } else if (auto *at = dyn_cast<ArrayType>(ty)) {
      uint64_t es = DL.getTypeAllocSize(at->getElementType());
      if (off / es >= at->getNumElements()) return nullptr;
      c = c->getAggregateElement(unsigned(off / es));
      off %= es;
      ty = c->getType();
    } else break;
  }
  return dyn_cast<Function>(c->stripPointerCasts());
}

static std::string methodOf(const std::string &d) { // demangled "a::b::m(args) const" -> "m(args)"
  // find the '(' that starts the args at template depth 0
  int depth = 0; size_t paren = std::string::npos, lastcol = 0;
  for (size_t i = 0; i < d.size(); i++) {
    char ch = d[i];
    if (ch == '<') depth++;
    else if (ch == '>' && !(i && d[i - 1] == '-')) depth--;
    else if (depth == 0 && ch == '(') { paren = i; break; }
    else if (depth == 0 && ch == ':' && i + 1 < d.size() && d[i + 1] == ':') lastcol = i + 2;
  }
  if (paren == std::string::npos) return d;
  return d.substr(lastcol);
}

struct VCallInfo { std::string type; uint64_t slot; };
static std::map<Function *, VCallInfo> VDecl; // synthetic decl -> info
static std::map<std::string, Function *> VDeclByName;

static std::vector<Function *> chaTargets(const std::string &tid, uint64_t slot) {
  std::set<Function *> s; std::vector<Function *> r;
  for (auto &p : TypeVT[tid]) {
    Function *f = vtSlot(p.first, p.second, slot);
    if (!f) continue;
    if (f->getName() == "__cxa_pure_virtual") continue;
    if (s.insert(f).second) r.push_back(f);
  }
  return r;
}

static void resolveVirtual(Module &M) {
  for (auto &gv : M.globals()) {
    SmallVector<MDNode *, 4> types;
    gv.getMetadata(LLVMContext::MD_type, types);
    for (auto *t : types) {
      auto *off = mdconst::dyn_extract<ConstantInt>(t->getOperand(0));
      auto *id = dyn_cast<MDString>(t->getOperand(1));
      if (off && id) TypeVT[id->getString().str()].push_back({&gv, off->getZExtValue()});
    }
  }
  for (auto &F : M) {
    std::vector<CallBase *> work;
    for (auto &I : instructions(F))
      if (auto *cb = dyn_cast<CallBase>(&I))
        if (!cb->getCalledFunction() && !cb->isInlineAsm()) work.push_back(cb);
    for (auto *cb : work) {
      // callee = load (gep vtable, N) or load vtable
      auto *ld = dyn_cast<LoadInst>(cb->getCalledOperand()->stripPointerCasts());
      if (!ld) continue;
      Value *p = ld->getPointerOperand();
      uint64_t slot = 0; Value *vt = p;
      if (auto *g = dyn_cast<GEPOperator>(p)) {
        APInt off(64, 0);
        if (!g->accumulateConstantOffset(M.getDataLayout(), off)) continue;
        slot = off.getZExtValue(); vt = g->getPointerOperand();
      }
      if (!isa<LoadInst>(vt)) continue;
      std::string tid;
      for (auto *u : vt->users())
        if (auto *c = dyn_cast<CallBase>(u))
          if (auto *f = c->getCalledFunction())
            if (f->getIntrinsicID() == Intrinsic::type_test || f->getName().starts_with("llvm.public.type.test")) {
              auto *mv = cast<MetadataAsValue>(c->getArgOperand(1));
              if (auto *ms = dyn_cast<MDString>(mv->getMetadata())) tid = ms->getString().str();
            }
      if (tid.empty()) continue;
      auto tg = chaTargets(tid, slot);
      std::string mname = "slot" + std::to_string(slot);
      for (auto *t : tg) {
        std::string d = dem(t->getName());
        mname = methodOf(d);
        if (mname.find('~') != std::string::npos) mname = "~dtor()";
        break;
      }
      std::string cls = dem(("_Z" + tid.substr(4)).c_str());
      if (tid.rfind("_ZTS", 0) == 0) { cls = dem("_ZTS" + tid.substr(4)); if (cls.rfind("typeinfo name for ", 0) == 0) cls = cls.substr(18); }
      if (tg.empty()) mname = "slot" + std::to_string(slot);
      std::string nm = "vcall:" + cls + "#" + mname;
      if (mname == "~dtor()") nm += std::to_string(slot);
      FunctionType *ft = cb->getFunctionType();
      Function *&d = VDeclByName[nm];
      if (!d || d->getFunctionType() != ft) {
        d = Function::Create(ft, GlobalValue::ExternalLinkage, nm, &M);
        VDecl[d] = {tid, slot};
      }
      cb->setCalledFunction(d);
    }
    // drop type tests/assumes (they only pollute)
    std::vector<Instruction *> dead;
    for (auto &I : instructions(F))
      if (auto *c = dyn_cast<CallBase>(&I))
        if (auto *f = c->getCalledFunction())
          if (f->getIntrinsicID() == Intrinsic::type_test) dead.push_back(c);
    for (auto *d : dead) {
      std::vector<User *> us(d->user_begin(), d->user_end());
      for (auto *u : us)
        if (auto *c = dyn_cast<CallBase>(u)) c->eraseFromParent();
      d->replaceAllUsesWith(ConstantInt::getTrue(M.getContext()));
      d->eraseFromParent();
    }
  }
}

struct Opt {
  LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
  PassBuilder PB; FunctionPassManager early, full, unr;
  Opt() {
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    const char *e = "sroa,early-cse<memssa>";
    const char *f = "sroa,early-cse<memssa>,simplifycfg<no-switch-range-to-icmp;no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts;bonus-inst-threshold=0;no-forward-switch-cond>,instcombine<no-verify-fixpoint>,sroa,early-cse<memssa>,dce,adce";
    if (auto err = PB.parsePassPipeline(early, e)) { errs() << toString(std::move(err)); exit(3); }
    if (auto err = PB.parsePassPipeline(full, f)) { errs() << toString(std::move(err)); exit(3); }
    if (auto err = PB.parsePassPipeline(unr, "loop-simplify,lcssa,loop(indvars,loop-unroll-full),sroa,early-cse<memssa>")) { errs() << toString(std::move(err)); exit(3); }
  }
  void unroll(Function &F) {
    for (auto &B : F) if (auto *t = B.getTerminator()) t->setMetadata(LLVMContext::MD_loop, nullptr);   // clang -O1 disables unrolling by metadata
    FAM.clear(); unr.run(F, FAM); FAM.clear(); }
  void run(Function &F, bool isFull) {
    FAM.clear();
    (isFull ? full : early).run(F, FAM);
    FAM.clear();
  }
};

struct Root { std::string name, cls, fn; std::vector<std::string> opaque, force; };

static bool isIO(StringRef d) {
  static const char *bad[] = {"basic_string", "basic_ostream", "basic_istream", "basic_ofstream", "basic_ifstream", "basic_fstream",
                              "basic_filebuf", "basic_ios", "filesystem", "std::chrono", "std::allocator<char>", "std::char_traits",
                              "std::thread", "std::locale", "basic_stringstream", "operator<<", "operator>>", "std::to_string",
                              "std::random_device", "mersenne", "normal_distribution", "_M_realloc", "_M_fill_insert", "_M_range_insert",
                              "_M_insert_aux", "std::__invoke_impl<void, void (std::thread", "std::__sort", "std::sort", "std::__introsort", "__to_chars", "_M_default_append", "std::vformat", "std::__format", "std::function<", "_Function_handler", "_Function_base", "std::__cxx11"};
  for (auto *b : bad) if (d.contains(b)) return true;
  return false;
}

static const char *pred(CmpInst::Predicate p) { return CmpInst::getPredicateName(p).data(); }

struct Dumper {
  Module &M; const DataLayout &DL;
  std::map<const Value *, int> id;
  Dumper(Module &m) : M(m), DL(m.getDataLayout()) {}
  int vid(const Value *v) { auto it = id.find(v); if (it != id.end()) return it->second; int n = id.size(); id[v] = n; return n; }
  json::Value val(const Value *v) {
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
      if (ci->getBitWidth() > 64) return json::Array{"i", "big"};
      return json::Array{"i", ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue()};
    }
    if (auto *cf = dyn_cast<ConstantFP>(v)) {
      bool lost; APFloat f = cf->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
      double d = f.convertToDouble();
      if (std::isnan(d) || std::isinf(d)) return json::Array{"s", std::isnan(d) ? "nan" : "inf"};
      char buf[64]; snprintf(buf, sizeof buf, "%.17g", d);
      return json::Array{"f", std::string(buf)};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (auto *f = dyn_cast<Function>(v)) return json::Array{"fn", f->getName().str()};
    if (auto *g = dyn_cast<GlobalVariable>(v)) return json::Array{"g", g->getName().str()};
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt off(64, 0);
        auto *g = cast<GEPOperator>(ce);
        if (g->accumulateConstantOffset(DL, off)) return json::Array{"gep", val(g->getPointerOperand()), off.getSExtValue()};
      }
      return json::Array{"ce"};
    }
    if (isa<Constant>(v)) { return json::Array{"c"}; }
    if (isa<Argument>(v) || isa<Instruction>(v)) return json::Array{"v", vid(v)};
    return json::Array{"?"};
  }
  std::string ty(Type *t) { std::string s; raw_string_ostream o(s); t->print(o); return s; }
  json::Value loc(const Instruction &I) {
    const DILocation *d = I.getDebugLoc().get();
    if (!d) return nullptr;
    json::Array chain;
    std::set<std::string> seen; int n = 0;
    while (d && n < 12) {
      std::string fn;
      if (auto *sp = d->getScope()->getSubprogram()) fn = sp->getName().str();
      std::string f = d->getFilename().str();
      chain.push_back(json::Array{f, (int64_t)d->getLine(), (int64_t)d->getColumn(), fn});
      d = d->getInlinedAt(); n++;
    }
    return std::move(chain);
  }
  json::Value dump(Function &F, const Root &r) {
    id.clear();
    json::Object o;
    o["name"] = r.name; o["cls"] = r.cls; o["fn"] = r.fn; o["demangled"] = dem(r.fn);
    o["nounwind"] = F.doesNotThrow();
    json::Array args;
    for (auto &a : F.args()) args.push_back(json::Object{{"id", vid(&a)}, {"name", a.getName().str()}, {"ty", ty(a.getType())}, {"sret", a.hasStructRetAttr()}});
    o["args"] = std::move(args);
    if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine(); }
    std::map<const BasicBlock *, int> bid; int n = 0;
    for (auto &B : F) bid[&B] = n++;
    json::Array blocks;
    for (auto &B : F) {
      json::Array ins;
      for (auto &I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (auto *ii = dyn_cast<IntrinsicInst>(&I)) {
          auto iid = ii->getIntrinsicID();
          if (iid == Intrinsic::lifetime_start || iid == Intrinsic::lifetime_end || iid == Intrinsic::assume ||
              iid == Intrinsic::experimental_noalias_scope_decl || iid == Intrinsic::invariant_start)
            continue;
        }
        json::Object j;
        j["id"] = vid(&I); j["op"] = std::string(I.getOpcodeName()); j["ty"] = ty(I.getType());
        if (auto l = loc(I); l.kind() != json::Value::Null) j["loc"] = std::move(l);
        if (auto *p = dyn_cast<PHINode>(&I)) {
          json::Array in;
          for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
            in.push_back(json::Array{val(p->getIncomingValue(k)), bid[p->getIncomingBlock(k)]});
          j["in"] = std::move(in);
        } else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
          MapVector<Value *, APInt> var; APInt c(64, 0);
          if (g->collectOffset(DL, 64, var, c)) {
            j["base"] = val(g->getPointerOperand()); j["off"] = c.getSExtValue();
            json::Array vs;
            for (auto &kv : var) vs.push_back(json::Array{val(kv.first), kv.second.getSExtValue()});
            j["var"] = std::move(vs);
            if (auto *st = dyn_cast<StructType>(g->getSourceElementType())) if (st->hasName()) j["sty"] = st->getName().str();
          }
        } else if (auto *cb = dyn_cast<CallBase>(&I)) {
          Function *f = cb->getCalledFunction();
          if (f) {
            j["callee"] = f->getName().str();
            j["dem"] = dem(f->getName());
            auto it = VDecl.find(f);
            if (it != VDecl.end()) j["vslot"] = (int64_t)it->second.slot, j["vtype"] = it->second.type;
          } else j["calleev"] = val(cb->getCalledOperand());
          json::Array as;
          for (auto &a : cb->args()) as.push_back(val(a.get()));
          j["args"] = std::move(as);
          if (auto *iv = dyn_cast<InvokeInst>(cb)) { j["to"] = bid[iv->getNormalDest()]; j["unw"] = bid[iv->getUnwindDest()]; }
          if (cb->doesNotThrow()) j["nounwind"] = true;
          if (cb->doesNotReturn()) j["noreturn"] = true;
          if (cb->onlyReadsMemory()) j["ro"] = true;
        } else if (auto *b = dyn_cast<BranchInst>(&I)) {
          json::Array t; for (unsigned k = 0; k < b->getNumSuccessors(); k++) t.push_back(bid[b->getSuccessor(k)]);
          j["succ"] = std::move(t);
          if (b->isConditional()) j["cond"] = val(b->getCondition());
        } else if (auto *s = dyn_cast<SwitchInst>(&I)) {
          j["cond"] = val(s->getCondition()); j["default"] = bid[s->getDefaultDest()];
          json::Array cs; for (auto &c : s->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
          j["cases"] = std::move(cs);
        } else {
          json::Array os; for (auto &op : I.operands()) os.push_back(isa<BasicBlock>(op.get()) ? json::Value("bb") : val(op.get()));
          j["ops"] = std::move(os);
          if (auto *c = dyn_cast<CmpInst>(&I)) j["pred"] = std::string(pred(c->getPredicate()));
          if (auto *a = dyn_cast<AllocaInst>(&I)) j["aty"] = ty(a->getAllocatedType()), j["size"] = (int64_t)DL.getTypeAllocSize(a->getAllocatedType()).getFixedValue();
          if (auto *x = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto q : x->indices()) ix.push_back((int64_t)q); j["idx"] = std::move(ix); }
          if (auto *x = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto q : x->indices()) ix.push_back((int64_t)q); j["idx"] = std::move(ix); }
          if (isa<LoadInst>(I)) j["sz"] = (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue();
          if (auto *s = dyn_cast<StoreInst>(&I)) j["sz"] = (int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType()).getFixedValue();
          if (auto *lp = dyn_cast<LandingPadInst>(&I)) { j["cleanup"] = lp->isCleanup(); json::Array cl; for (unsigned k = 0; k < lp->getNumClauses(); k++) cl.push_back(lp->isCatch(k) ? val(lp->getClause(k)) : json::Value("filter")); j["clauses"] = std::move(cl); }
        }
        ins.push_back(std::move(j));
      }
      blocks.push_back(std::move(ins));
    }
    o["blocks"] = std::move(blocks);
    return std::move(o);
  }
};

static bool anyMatch(const std::vector<std::unique_ptr<Regex>> &rs, StringRef d) {
  for (auto &r : rs) if (r->match(d)) return true;
  return false;
}

int main(int argc, char **argv) {
  { const char *o[] = {"slir", "-unroll-threshold=60000", "-unroll-full-max-count=64", "-unroll-allow-peeling=false", "-unroll-max-upperbound=0"}; cl::ParseCommandLineOptions(5, o); }
  bool linkOnly = argc > 3 && StringRef(argv[1]) == "--link";   // slir --link out.bc a.bc...: only link
  if (argc < 4) { errs() << "usage: slir spec.json out.json a.bc...\n"; return 2; }
  LLVMContext C; SMDiagnostic E;
  std::unique_ptr<Module> M;
  for (int i = 3; i < argc; i++) {
    auto m = parseIRFile(argv[i], E, C);
    if (!m) { E.print("slir", errs()); return 2; }
    if (!M) { M = std::move(m); continue; }
    Linker L(*M);
    if (L.linkInModule(std::move(m))) return 2;
  }
  if (linkOnly) { std::error_code ec; raw_fd_ostream os(argv[2], ec); WriteBitcodeToFile(*M, os); return ec ? 2 : 0; }
  for (auto &F : *M) {
    F.removeFnAttr(Attribute::NoInline); F.removeFnAttr(Attribute::OptimizeNone);
  }
  for (auto &F : *M) {  // llvm.expect is only a hint
    std::vector<CallBase *> ex;
    for (auto &I : instructions(F))
      if (auto *c = dyn_cast<CallBase>(&I))
        if (auto *f = c->getCalledFunction())
          if (f->getIntrinsicID() == Intrinsic::expect || f->getIntrinsicID() == Intrinsic::expect_with_probability) ex.push_back(c);
    for (auto *c : ex) { c->replaceAllUsesWith(c->getArgOperand(0)); c->eraseFromParent(); }
  }
  resolveVirtual(*M);
  auto buf = MemoryBuffer::getFile(argv[1]);
  if (!buf) { errs() << "no spec\n"; return 2; }
  auto J = json::parse((*buf)->getBuffer());
  if (!J) { errs() << "bad spec: " << toString(J.takeError()) << "\n"; return 2; }
  auto *JO = J->getAsObject();
  Opt opt;
  std::set<Function *> early;   // functions are simplified when they are first used
  auto prep = [&](Function *F) { if (!F->isDeclaration() && early.insert(F).second) opt.run(*F, false); };

  std::vector<std::unique_ptr<Regex>> gOpaque, gForce, gNever;
  if (auto *a = JO->getArray("opaque")) for (auto &x : *a) gOpaque.push_back(std::make_unique<Regex>(*x.getAsString()));
  if (auto *a = JO->getArray("never")) for (auto &x : *a) gNever.push_back(std::make_unique<Regex>(*x.getAsString()));
  if (auto *a = JO->getArray("force")) for (auto &x : *a) gForce.push_back(std::make_unique<Regex>(*x.getAsString()));
  json::Array outF; Dumper D(*M);
  std::set<Function *> virt; // functions sitting in a vtable
  for (auto &kv : TypeVT) for (auto &p : kv.second)
    for (uint64_t s = 0; s < 8 * 200; s += 8) { Function *f = vtSlot(p.first, p.second, s); if (!f) break; virt.insert(f); }

  std::map<std::string, std::string> demCache;
  auto demf = [&](Function *f) -> const std::string & {
    auto &s = demCache[f->getName().str()]; if (s.empty()) s = dem(f->getName()); return s; };

  // index of all functions + vtables + static call graph
  json::Array idx;
  std::vector<Function *> origs;
  for (auto &F : *M) origs.push_back(&F);
  bool wantIndex = JO->getBoolean("index").value_or(false);
  if (wantIndex) for (auto *Fp : origs) {
    Function &F = *Fp;
    bool term = false; for (auto &I : instructions(F)) if (auto *cb = dyn_cast<CallBase>(&I)) if (auto *cf = cb->getCalledFunction()) { auto nn = cf->getName(); if (nn == "__clang_call_terminate" || nn == "_ZSt9terminatev") term = true; }
    json::Object o; o["term"] = term; o["name"] = F.getName().str(); o["dem"] = demf(&F); o["decl"] = F.isDeclaration(); o["virt"] = virt.count(&F) > 0; o["nounwind"] = F.doesNotThrow();
    if (auto *sp = F.getSubprogram()) { o["file"] = sp->getFilename().str(); o["line"] = (int64_t)sp->getLine();
      if (auto *ty = sp->getType()) if (ty->getTypeArray().size() && ty->getTypeArray()[0]) { const DIType *t = ty->getTypeArray()[0];
        while (auto *d = dyn_cast<DIDerivedType>(t)) { if ((d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type) && d->getBaseType()) t = d->getBaseType(); else break; }
        o["ret"] = t->getName().str(); } }
    idx.push_back(std::move(o));
  }
  json::Object vts;
  if (wantIndex) for (auto &kv : TypeVT) {
    if (kv.first.rfind("_ZTSN5slide", 0) != 0) continue;
    json::Array a;
    for (auto &p : kv.second) {
      json::Array sl;
      for (uint64_t s = 0; s < 8 * 200; s += 8) { Function *f = vtSlot(p.first, p.second, s); if (!f) break; sl.push_back(f->getName().str()); }
      a.push_back(json::Object{{"vtable", p.first->getName().str()}, {"slots", std::move(sl)}});
    }
    vts[kv.first] = std::move(a);
  }

  json::Array missing;
  for (auto &rj : *JO->getArray("roots")) {
    auto *ro = rj.getAsObject();
    Root r; r.name = ro->getString("name")->str(); r.cls = ro->getString("cls").value_or("").str();
    std::string fnname = ro->getString("fn").value_or("").str();
    std::vector<std::unique_ptr<Regex>> lOpaque, lForce;
    if (auto *a = ro->getArray("opaque")) for (auto &x : *a) lOpaque.push_back(std::make_unique<Regex>(*x.getAsString()));
    if (auto *a = ro->getArray("force")) for (auto &x : *a) lForce.push_back(std::make_unique<Regex>(*x.getAsString()));
    bool noinline_ = ro->getBoolean("noinline").value_or(false);
    int64_t maxsz = ro->getInteger("max").value_or(60000);
    std::vector<Function *> cands;
    if (!fnname.empty()) { if (auto *f = M->getFunction(fnname)) cands.push_back(f); }
    else {
      Regex re(*ro->getString("re"));
      for (auto *F : origs) if (!F->isDeclaration() && re.match(demf(F))) cands.push_back(F);
    }
    bool got = false;
    for (auto *F0 : cands) {
      if (F0->isDeclaration()) continue;
      got = true;
      r.fn = F0->getName().str();
      ValueToValueMapTy vm;
      prep(F0);
      Function *F = CloneFunction(F0, vm);
      F->setLinkage(GlobalValue::ExternalLinkage);
      GlobalVariable *clsVT = nullptr; uint64_t clsAddr = 0;
      if (!r.cls.empty()) {
        // vtable of the concrete class: _ZTV + mangled
        std::string tid = "_ZTS" + r.cls;
        for (auto &p : TypeVT[tid]) if (p.first->getName() == "_ZTV" + r.cls) { clsVT = p.first; clsAddr = p.second; }
      }
      std::map<Function *, int> cnt;
      for (int round = 0; round < 40; round++) {
        bool ch = false;
        std::vector<CallBase *> calls;
        for (auto &I : instructions(*F)) if (auto *cb = dyn_cast<CallBase>(&I)) calls.push_back(cb);
        for (auto *cb : calls) {
          Function *cf = cb->getCalledFunction();
          if (!cf) { // direct function-pointer constants
            if (auto *k = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) { if (k->getFunctionType() == cb->getFunctionType()) { cb->setCalledFunction(k); cf = k; ch = true; } }
            if (!cf) continue;
          }
          auto vi = VDecl.find(cf);
          if (vi != VDecl.end()) {
            Function *t = nullptr;
            Value *recv = cb->arg_size() ? cb->getArgOperand(cb->hasStructRetAttr() ? 1 : 0)->stripPointerCasts() : nullptr;
            Value *thisArg = F->arg_size() ? F->getArg((F->arg_size() > 1 && F->getArg(0)->hasStructRetAttr()) ? 1 : 0) : nullptr;
            if (clsVT && recv == thisArg) {
              uint64_t sl = vi->second.slot;
              t = vtSlot(clsVT, clsAddr, sl);
            }
            if (!t) {
              auto tg = chaTargets(vi->second.type, vi->second.slot);
              if (tg.size() == 1) t = tg[0];
            }
            if (!t || t->getFunctionType() != cf->getFunctionType() || t->getName() == "__cxa_pure_virtual") continue;
            cb->setCalledFunction(t); cf = t; ch = true;
          }
          if (noinline_) continue;
          if (cf->isDeclaration() || cf == F0 || cf == F) continue;
          if (cf->isIntrinsic()) continue;
          const std::string &d = demf(cf);
          if (anyMatch(gNever, d)) continue;
          bool force = anyMatch(lForce, d) || anyMatch(gForce, d);
          if (!force) {
            if (anyMatch(lOpaque, d) || anyMatch(gOpaque, d)) continue;
            if (virt.count(cf)) continue;
            StringRef dr(d);
            if (isIO(dr)) continue;
          }
          if (++cnt[cf] > 400) continue;
          // recursion guard via inlinedAt chain
          bool rec = false; int depth = 0;
          if (auto *sp = cf->getSubprogram())
            for (const DILocation *dl = cb->getDebugLoc().get(); dl; dl = dl->getInlinedAt()) { depth++; if (dl->getScope()->getSubprogram() == sp) rec = true; }
          if (rec || depth > 30) continue;
          if ((int64_t)F->getInstructionCount() > maxsz) continue;
          InlineFunctionInfo IFI;
          prep(cf);
          auto res = InlineFunction(*cb, IFI);
          if (res.isSuccess()) ch = true;
        }
        if (!ch) break;
        opt.run(*F, false);
      }
      opt.run(*F, true);
      if (JO->getBoolean("unroll").value_or(false)) for (int q = 0; q < 3; q++) { opt.unroll(*F); opt.run(*F, true); }   // loops with a constant number of iterations become straight-line code
      opt.run(*F, true);
      outF.push_back(D.dump(*F, r));
      F->eraseFromParent();
    }
    if (!got) missing.push_back(r.name);
  }
  // debug-info class layouts
  json::Object classes;
  if (JO->getBoolean("types").value_or(true)) {
    std::set<const DICompositeType *> seen;
    std::vector<const DIType *> work;
    DebugInfoFinder DF; DF.processModule(*M);
    for (auto *t : DF.types()) {
      auto *ct = dyn_cast<DICompositeType>(t);
      if (!ct || ct->isForwardDecl()) continue;
      if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_enumeration_type) continue;
      std::string nm; const DIScope *s = ct->getScope(); std::string q = ct->getName().str();
      bool inSlide = false;
      while (s) { if (!s->getName().empty() && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) { q = s->getName().str() + "::" + q; } s = s->getScope(); }
      inSlide = q.rfind("slide", 0) == 0;
      if (!inSlide) continue;
      if (classes.get(q)) continue;
      json::Array el;
      auto tn = [&](const DIType *t) { std::string r; int n = 0; while (t && n++ < 8) { if (auto *d = dyn_cast<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type) { t = d->getBaseType(); continue; } if (d->getTag() == dwarf::DW_TAG_pointer_type) r += "*"; if (d->getTag() == dwarf::DW_TAG_reference_type) r += "&"; t = d->getBaseType(); continue; }
          std::string q2 = t->getName().str(); const DIScope *sc = t->getScope(); while (sc) { if (!sc->getName().empty() && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc)) q2 = sc->getName().str() + "::" + q2; sc = sc->getScope(); } return q2 + r; } return r + "void"; };
      for (auto *e : ct->getElements()) {
        if (auto *d = dyn_cast<DIDerivedType>(e)) {
          if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
            el.push_back(json::Object{{"k", "m"}, {"n", d->getName().str()}, {"off", (int64_t)d->getOffsetInBits() / 8}, {"size", (int64_t)(d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0)}, {"t", tn(d->getBaseType())}});
          else if (d->getTag() == dwarf::DW_TAG_inheritance)
            el.push_back(json::Object{{"k", "b"}, {"n", tn(d->getBaseType())}, {"off", (int64_t)d->getOffsetInBits() / 8}});
        } else if (auto *en = dyn_cast<DIEnumerator>(e))
          el.push_back(json::Object{{"k", "e"}, {"n", en->getName().str()}, {"v", en->getValue().getSExtValue()}});
      }
      classes[q] = json::Object{{"size", (int64_t)ct->getSizeInBits() / 8}, {"el", std::move(el)}};
    }
  }
  json::Object top;
  if (JO->getBoolean("strings").value_or(false)) {   // contents of string literals
    json::Object strs;
    for (auto &g : M->globals())
      if (g.isConstant() && g.hasInitializer() && g.getInitializer()->getType()->isArrayTy()) {
        if (auto *cd = dyn_cast<ConstantDataArray>(g.getInitializer())) {
          if (cd->isCString() && cd->getNumElements() < 2000) { std::string t = cd->getAsCString().str(); strs[g.getName().str()] = json::isUTF8(t) ? t : json::fixUTF8(t); }
        } else if (isa<ConstantAggregateZero>(g.getInitializer())) strs[g.getName().str()] = "";
      }
    top["strings"] = std::move(strs);
  }
  top["functions"] = std::move(outF); top["missing"] = std::move(missing); top["classes"] = std::move(classes);
  if (wantIndex) { top["index"] = std::move(idx); top["vtables"] = std::move(vts); }
  std::error_code ec; raw_fd_ostream os(argv[2], ec);
  os << json::Value(std::move(top));
  return 0;
}
