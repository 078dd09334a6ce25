// Exports a linked LLVM module as JSON for the Python analyses.
// Nothing is executed: this only walks the module.
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;
namespace J = llvm::json;

static const DataLayout* DL;
static Module* M;

static std::string tyname(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) return st->hasName() ? st->getName().str() : std::string("{}");
  if (t->isPointerTy()) return "p";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isFloatingPointTy()) return "f";
  if (t->isVoidTy()) return "v";
  if (auto* at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + " x " + tyname(at->getElementType()) + "]";
  if (t->isVectorTy()) return "vec";
  return "?";
}
static uint64_t tysize(Type* t) { return t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 0; }

struct FnCtx { std::map<const Value*, int> ids; std::map<const BasicBlock*, int> bbs; };

static J::Value cst(const Constant* c, int depth = 0);
static J::Value val(FnCtx& F, const Value* v) {
  if (auto* a = dyn_cast<Argument>(v)) return J::Array{"a", (int64_t)a->getArgNo()};
  if (auto* c = dyn_cast<Constant>(v)) return cst(c);
  if (isa<InlineAsm>(v)) return J::Array{"x", "asm"};
  if (auto* m = dyn_cast<MetadataAsValue>(v)) {
    if (auto* s = dyn_cast<MDString>(m->getMetadata())) return J::Array{"md", s->getString().str()};
    return J::Array{"x", "md"};
  }
  auto it = F.ids.find(v);
  if (it != F.ids.end()) return J::Array{"r", it->second};
  return J::Array{"x", "?"};
}
static J::Value cst(const Constant* c, int depth) {
  if (depth > 12) return J::Array{"x", "deep"};
  if (auto* ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() > 64) return J::Array{"x", "big"};
    return J::Array{"c", ci->getSExtValue(), (int64_t)ci->getBitWidth()};
  }
  if (isa<ConstantPointerNull>(c)) return J::Array{"c", 0, 64};
  if (isa<UndefValue>(c)) return J::Array{"u"};
  if (auto* f = dyn_cast<ConstantFP>(c)) {
    SmallString<32> s; f->getValueAPF().toString(s);
    return J::Array{"fp", s.str().str()};
  }
  if (auto* f = dyn_cast<Function>(c)) return J::Array{"f", f->getName().str()};
  if (auto* ga = dyn_cast<GlobalAlias>(c)) {
    if (auto* f = dyn_cast<Function>(ga->getAliaseeObject())) return J::Array{"f", f->getName().str()};
    return J::Array{"g", ga->getName().str(), 0};
  }
  if (auto* g = dyn_cast<GlobalVariable>(c)) return J::Array{"g", g->getName().str(), 0};
  if (auto* g = dyn_cast<GEPOperator>(c)) {
    APInt off(64, 0);
    if (g->accumulateConstantOffset(*DL, off)) {
      J::Value b = cst(cast<Constant>(g->getPointerOperand()), depth + 1);
      if (auto* a = b.getAsArray())
        if (a->size() == 3 && (*a)[0] == J::Value("g")) { return J::Array{"g", (*a)[1].getAsString()->str(), *(*a)[2].getAsInteger() + off.getSExtValue()}; }
    }
    return J::Array{"x", "cgep"};
  }
  if (auto* cda = dyn_cast<ConstantDataArray>(c)) {
    if (cda->isString()) {
      // bytes as latin-1 -> list of ints keeps JSON valid
      J::Array b; StringRef s = cda->getRawDataValues();
      for (unsigned char ch : s) b.push_back((int64_t)ch);
      return J::Array{"s", std::move(b)};
    }
    J::Array e;
    for (unsigned i = 0; i < cda->getNumElements(); i++) e.push_back(cst(cda->getElementAsConstant(i), depth + 1));
    return J::Array{"arr", (int64_t)tysize(cda->getElementType()), std::move(e)};
  }
  if (auto* ca = dyn_cast<ConstantArray>(c)) {
    J::Array e;
    for (auto& o : ca->operands()) e.push_back(cst(cast<Constant>(o), depth + 1));
    return J::Array{"arr", (int64_t)tysize(ca->getType()->getElementType()), std::move(e)};
  }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) {
    J::Array e; auto* sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); i++)
      e.push_back(J::Array{(int64_t)sl->getElementOffset(i).getFixedValue(), cst(cs->getOperand(i), depth + 1)});
    return J::Array{"st", std::move(e)};
  }
  if (isa<ConstantAggregateZero>(c)) return J::Array{"z", (int64_t)tysize(c->getType())};
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->isCast()) return cst(ce->getOperand(0), depth + 1);
    J::Array e;
    for (auto& o : ce->operands()) e.push_back(cst(cast<Constant>(o), depth + 1));
    return J::Array{"ce", ce->getOpcodeName(), std::move(e)};
  }
  return J::Array{"x", "const"};
}

static std::string scopeName(const DIScope* s) {
  std::string r;
  while (s && !isa<DIFile>(s) && !isa<DICompileUnit>(s)) {
    std::string n;
    if (auto* sp = dyn_cast<DISubprogram>(s)) n = sp->getName().str();
    else if (isa<DILexicalBlockBase>(s)) { s = s->getScope(); continue; }
    else n = s->getName().str();
    if (n.empty()) n = "(anonymous)";
    r = r.empty() ? n : n + "::" + r;
    s = s->getScope();
  }
  return r;
}
static std::string ditype(const DIType* t) {
  if (!t) return "void";
  if (auto* d = dyn_cast<DIDerivedType>(t)) {
    std::string b = ditype(d->getBaseType());
    switch (d->getTag()) {
      case dwarf::DW_TAG_pointer_type: return b + "*";
      case dwarf::DW_TAG_reference_type: return b + "&";
      case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
      case dwarf::DW_TAG_const_type: return "const " + b;
      case dwarf::DW_TAG_typedef: return b;
      default: return b;
    }
  }
  if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) return ditype(c->getBaseType()) + "[]";
    std::string sc = scopeName(c->getScope());
    return (sc.empty() ? "" : sc + "::") + c->getName().str();
  }
  if (auto* s = dyn_cast<DISubroutineType>(t)) { (void)s; return "fn"; }
  return t->getName().str();
}

static std::string fname(const DILocation* l) {
  auto* f = l->getFile();
  if (!f) return "";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] != '/' ) n = f->getDirectory().str() + "/" + n;
  return n;
}

int main(int argc, char** argv) {
  if (argc < 3) return 2;
  LLVMContext C; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, C);
  if (!m) { err.print("irdump", errs()); return 2; }
  M = m.get(); DL = &M->getDataLayout();
  std::error_code ec; raw_fd_ostream out(argv[2], ec);
  J::OStream W(out, 0);
  std::map<std::string, int> files; std::vector<std::string> filev;
  auto fileId = [&](const std::string& s) { auto it = files.find(s); if (it != files.end()) return it->second; int n = files.size(); files[s] = n; filev.push_back(s); return n; };

  W.objectBegin();
  // --- functions
  W.attributeBegin("funcs"); W.objectBegin();
  for (Function& f : *M) {
    if (f.isIntrinsic() && f.isDeclaration()) {
      // still listed, cheap
    }
    J::Object o;
    std::string mn = f.getName().str();
    std::string dem = demangle(mn);
    o["dem"] = dem;
    ItaniumPartialDemangler pd;
    if (mn.compare(0, 2, "_Z") == 0 && !pd.partialDemangle(mn.c_str()) && pd.isFunction()) {
      size_t n = 0; char* b = pd.getFunctionDeclContextName(nullptr, &n);
      if (b) { o["ctx"] = std::string(b); free(b); }
      n = 0; b = pd.getFunctionBaseName(nullptr, &n);
      if (b) { o["base"] = std::string(b); free(b); }
      if (pd.isCtorOrDtor()) o["cd"] = 1;
    }
    o["nargs"] = (int64_t)f.arg_size();
    if (f.doesNotThrow()) o["nounwind"] = 1;
    if (f.doesNotReturn()) o["noreturn"] = 1;
    if (f.onlyReadsMemory()) o["ro"] = 1;
    if (f.isVarArg()) o["va"] = 1;
    o["ret"] = tyname(f.getReturnType());
    if (f.hasParamAttribute(0, Attribute::StructRet)) o["sret"] = 1;
    J::Array at, bv;
    for (auto& a : f.args()) { at.push_back(tyname(a.getType())); if (a.hasByValAttr()) bv.push_back((int64_t)a.getArgNo()); }
    o["at"] = std::move(at);
    if (f.isDeclaration()) { o["decl"] = 1; W.attribute(mn, std::move(o)); continue; }
    if (auto* sp = f.getSubprogram()) {
      std::string fn = sp->getFilename().str();
      if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
      o["file"] = fileId(fn); o["line"] = (int64_t)sp->getLine();
      std::string sc = scopeName(sp->getScope());
      o["qn"] = (sc.empty() ? "" : sc + "::") + sp->getName().str();
      o["scope"] = sc;
      J::Array pt; if (auto* st = sp->getType()) for (auto* t : st->getTypeArray()) pt.push_back(t ? ditype(t) : "void");
      o["dt"] = std::move(pt);
    }
    FnCtx F; int id = 0, bi = 0;
    for (auto& bb : f) { F.bbs[&bb] = bi++; for (auto& in : bb) F.ids[&in] = id++; }
    J::Array blocks;
    for (auto& bb : f) {
      J::Array ins;
      for (auto& in : bb) {
        if (isa<DbgInfoIntrinsic>(in)) continue;
        J::Object i;
        int rid = F.ids[&in];
        i["id"] = rid;
        if (auto* l = in.getDebugLoc().get()) {
          // outermost location kept as is (no inlining was run)
          i["l"] = J::Array{(int64_t)fileId(fname(l)), (int64_t)l->getLine()};
        }
        auto V = [&](const Value* v) { return val(F, v); };
        if (auto* x = dyn_cast<AllocaInst>(&in)) {
          i["op"] = "alloca"; i["sz"] = (int64_t)tysize(x->getAllocatedType()); i["ty"] = tyname(x->getAllocatedType()); i["nm"] = x->getName().str();
        } else if (auto* x = dyn_cast<LoadInst>(&in)) {
          i["op"] = "load"; i["p"] = V(x->getPointerOperand()); i["ty"] = tyname(x->getType()); i["sz"] = (int64_t)tysize(x->getType());
          if (x->isAtomic()) i["at"] = 1; if (x->isVolatile()) i["vol"] = 1;
        } else if (auto* x = dyn_cast<StoreInst>(&in)) {
          i["op"] = "store"; i["p"] = V(x->getPointerOperand()); i["v"] = V(x->getValueOperand()); i["ty"] = tyname(x->getValueOperand()->getType()); i["sz"] = (int64_t)tysize(x->getValueOperand()->getType());
          if (x->isAtomic()) i["at"] = 1; if (x->isVolatile()) i["vol"] = 1;
        } else if (auto* x = dyn_cast<GetElementPtrInst>(&in)) {
          i["op"] = "gep"; i["p"] = V(x->getPointerOperand()); i["sty"] = tyname(x->getSourceElementType());
          MapVector<Value*, APInt> var; APInt c(64, 0);
          if (x->collectOffset(*DL, 64, var, c)) {
            i["off"] = c.getSExtValue();
            J::Array vs; for (auto& kv : var) vs.push_back(J::Array{V(kv.first), kv.second.getSExtValue()});
            if (!vs.empty()) i["idx"] = std::move(vs);
          } else i["bad"] = 1;
        } else if (auto* x = dyn_cast<ICmpInst>(&in)) {
          i["op"] = "icmp"; i["pr"] = ICmpInst::getPredicateName(x->getPredicate()).str(); i["a"] = V(x->getOperand(0)); i["b"] = V(x->getOperand(1));
        } else if (auto* x = dyn_cast<FCmpInst>(&in)) {
          i["op"] = "fcmp"; i["a"] = V(x->getOperand(0)); i["b"] = V(x->getOperand(1)); i["pr"] = FCmpInst::getPredicateName(x->getPredicate()).str();
        } else if (auto* x = dyn_cast<BinaryOperator>(&in)) {
          i["op"] = "bin"; i["o"] = x->getOpcodeName(); i["a"] = V(x->getOperand(0)); i["b"] = V(x->getOperand(1)); i["ty"] = tyname(x->getType());
        } else if (auto* x = dyn_cast<CastInst>(&in)) {
          i["op"] = "cast"; i["o"] = x->getOpcodeName(); i["a"] = V(x->getOperand(0)); i["from"] = tyname(x->getSrcTy()); i["ty"] = tyname(x->getType());
        } else if (auto* x = dyn_cast<SelectInst>(&in)) {
          i["op"] = "select"; i["c"] = V(x->getCondition()); i["a"] = V(x->getTrueValue()); i["b"] = V(x->getFalseValue());
        } else if (auto* x = dyn_cast<PHINode>(&in)) {
          i["op"] = "phi"; J::Array e;
          for (unsigned k = 0; k < x->getNumIncomingValues(); k++) e.push_back(J::Array{F.bbs[x->getIncomingBlock(k)], V(x->getIncomingValue(k))});
          i["in"] = std::move(e);
        } else if (auto* x = dyn_cast<BranchInst>(&in)) {
          i["op"] = "br"; if (x->isConditional()) { i["c"] = V(x->getCondition()); i["t"] = F.bbs[x->getSuccessor(0)]; i["f"] = F.bbs[x->getSuccessor(1)]; } else i["t"] = F.bbs[x->getSuccessor(0)];
        } else if (auto* x = dyn_cast<SwitchInst>(&in)) {
          i["op"] = "switch"; i["c"] = V(x->getCondition()); i["d"] = F.bbs[x->getDefaultDest()];
          J::Array e; for (auto& cs : x->cases()) e.push_back(J::Array{cs.getCaseValue()->getSExtValue(), F.bbs[cs.getCaseSuccessor()]});
          i["cs"] = std::move(e);
        } else if (auto* x = dyn_cast<ReturnInst>(&in)) {
          i["op"] = "ret"; if (x->getReturnValue()) i["v"] = V(x->getReturnValue());
        } else if (auto* x = dyn_cast<CallBase>(&in)) {
          i["op"] = isa<InvokeInst>(x) ? "invoke" : "call";
          i["fn"] = V(x->getCalledOperand());
          if (auto* cf = dyn_cast<Function>(x->getCalledOperand()->stripPointerCasts())) i["fn"] = J::Array{"f", cf->getName().str()};
          J::Array as; for (auto& a : x->args()) as.push_back(V(a.get())); i["as"] = std::move(as);
          i["ty"] = tyname(x->getType()); i["sz"] = (int64_t)tysize(x->getType());
          if (x->hasFnAttr(Attribute::NoUnwind)) i["nu"] = 1;
          if (x->hasStructRetAttr()) i["sret"] = 1;
          if (auto* iv = dyn_cast<InvokeInst>(x)) { i["t"] = F.bbs[iv->getNormalDest()]; i["uw"] = F.bbs[iv->getUnwindDest()]; }
        } else if (auto* x = dyn_cast<LandingPadInst>(&in)) {
          i["op"] = "lpad"; if (x->isCleanup()) i["cl"] = 1;
          J::Array e; for (unsigned k = 0; k < x->getNumClauses(); k++) { e.push_back(J::Array{x->isCatch(k) ? "catch" : "filter", cst(x->getClause(k))}); }
          i["cls"] = std::move(e);
        } else if (isa<ResumeInst>(in)) { i["op"] = "resume"; i["v"] = V(in.getOperand(0)); }
        else if (isa<UnreachableInst>(in)) i["op"] = "unreachable";
        else if (auto* x = dyn_cast<ExtractValueInst>(&in)) { i["op"] = "ev"; i["a"] = V(x->getAggregateOperand()); J::Array e; for (auto k : x->indices()) e.push_back((int64_t)k); i["ix"] = std::move(e); }
        else if (auto* x = dyn_cast<InsertValueInst>(&in)) { i["op"] = "iv"; i["a"] = V(x->getAggregateOperand()); i["b"] = V(x->getInsertedValueOperand()); J::Array e; for (auto k : x->indices()) e.push_back((int64_t)k); i["ix"] = std::move(e); }
        else if (auto* x = dyn_cast<AtomicRMWInst>(&in)) { i["op"] = "rmw"; i["p"] = V(x->getPointerOperand()); i["v"] = V(x->getValOperand()); i["o"] = AtomicRMWInst::getOperationName(x->getOperation()).str(); }
        else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&in)) { i["op"] = "cmpxchg"; i["p"] = V(x->getPointerOperand()); }
        else { i["op"] = in.getOpcodeName(); J::Array e; for (auto& opn : in.operands()) e.push_back(V(opn.get())); i["ops"] = std::move(e); }
        ins.push_back(std::move(i));
      }
      blocks.push_back(std::move(ins));
    }
    o["bl"] = std::move(blocks);
    W.attribute(mn, std::move(o));
  }
  W.objectEnd(); W.attributeEnd();
  // --- globals
  W.attributeBegin("globals"); W.objectBegin();
  for (GlobalVariable& g : M->globals()) {
    J::Object o; o["ty"] = tyname(g.getValueType()); if (g.isConstant()) o["const"] = 1;
    o["sz"] = (int64_t)tysize(g.getValueType());
    o["dem"] = demangle(g.getName().str());
    if (g.hasInitializer()) o["init"] = cst(g.getInitializer());
    SmallVector<MDNode*, 4> md; g.getMetadata(LLVMContext::MD_type, md);
    J::Array ts;
    for (auto* n : md) {
      auto* off = mdconst::extract<ConstantInt>(n->getOperand(0));
      if (auto* s = dyn_cast<MDString>(n->getOperand(1))) ts.push_back(J::Array{off->getSExtValue(), s->getString().str()});
    }
    if (!ts.empty()) o["types"] = std::move(ts);
    SmallVector<DIGlobalVariableExpression*, 1> dgv; g.getDebugInfo(dgv);
    if (!dgv.empty()) { auto* v = dgv[0]->getVariable(); o["line"] = (int64_t)v->getLine(); std::string fn = v->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = v->getDirectory().str() + "/" + fn; o["file"] = fileId(fn); }
    W.attribute(g.getName(), std::move(o));
  }
  W.objectEnd(); W.attributeEnd();
  // --- debug-info record types and enums
  W.attributeBegin("records"); W.objectBegin();
  DebugInfoFinder DF; DF.processModule(*M);
  std::set<std::string> seen;
  std::vector<std::pair<std::string, const DICompositeType*>> enums;
  for (auto* t : DF.types()) {
    auto* c = dyn_cast<DICompositeType>(t);
    if (!c || c->isForwardDecl()) continue;
    std::string n = ditype(c);
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) { enums.push_back({n, c}); continue; }
    if (c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type) continue;
    if (!seen.insert(n).second) continue;
    J::Array ms, bs, vs;
    for (auto* e : c->getElements()) {
      if (auto* sp = dyn_cast_or_null<DISubprogram>(e)) {
        if (sp->getVirtuality()) vs.push_back(J::Array{(int64_t)sp->getVirtualIndex(), sp->getName().str(), sp->getLinkageName().str()});
        continue;
      }
      if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) {
        if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
          ms.push_back(J::Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getSizeInBits() / 8), ditype(d->getBaseType()), (int64_t)d->getLine()});
        else if (d->getTag() == dwarf::DW_TAG_inheritance)
          bs.push_back(J::Array{ditype(d->getBaseType()), (int64_t)(d->getOffsetInBits() / 8)});
      }
    }
    J::Object o; o["m"] = std::move(ms); o["b"] = std::move(bs); o["v"] = std::move(vs); o["sz"] = (int64_t)(c->getSizeInBits() / 8);
    if (c->getFile()) { std::string fn = c->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = c->getDirectory().str() + "/" + fn; o["file"] = fileId(fn); }
    o["line"] = (int64_t)c->getLine();
    W.attribute(n, std::move(o));
  }
  W.objectEnd(); W.attributeEnd();
  W.attributeBegin("enums"); W.objectBegin();
  std::set<std::string> es; int an = 0;
  for (auto& kv : enums) {
    std::string n = kv.first; if (kv.second->getName().empty()) n += "#" + std::to_string(an++);
    if (!es.insert(n).second) continue;
    J::Object o;
    for (auto* e : kv.second->getElements()) if (auto* x = dyn_cast_or_null<DIEnumerator>(e)) o[x->getName().str()] = x->getValue().getSExtValue();
    W.attribute(n, std::move(o));
  }
  W.objectEnd(); W.attributeEnd();
  J::Array fa; for (auto& s : filev) fa.push_back(s);
  W.attribute("files", std::move(fa));
  W.objectEnd();
  out << "\n";
  return 0;
}
