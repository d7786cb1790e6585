// irdump: prints an LLVM module (bitcode or text) as JSON for the verifier.
// Everything target dependent (struct layouts, GEP offsets, global initialisers) is resolved here
// with LLVM's own DataLayout, so the Python side never re-implements it.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <string>
using namespace llvm;
static const DataLayout *DL;
static std::string tyname(Type *t) {
  if (t->isVoidTy()) return "void";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isFloatTy()) return "f32";
  if (t->isDoubleTy()) return "f64";
  if (t->isX86_FP80Ty()) return "f80";
  if (t->isPointerTy()) return "ptr";
  if (auto *s = dyn_cast<StructType>(t)) {
    std::string r = "{";
    for (unsigned i = 0; i < s->getNumElements(); i++) { if (i) r += ","; r += tyname(s->getElementType(i)); }
    return r + "}";
  }
  if (auto *a = dyn_cast<ArrayType>(t)) return "[" + std::to_string(a->getNumElements()) + "x" + tyname(a->getElementType()) + "]";
  if (auto *v = dyn_cast<FixedVectorType>(t)) return "<" + std::to_string(v->getNumElements()) + "x" + tyname(v->getElementType()) + ">";
  if (t->isLabelTy()) return "label";
  if (t->isTokenTy()) return "token";
  if (t->isMetadataTy()) return "metadata";
  return "?";
}
// scalar leaves (offset, type) of a first class type
static void leaves(Type *t, uint64_t off, json::Array &out) {
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) leaves(s->getElementType(i), off + l->getElementOffset(i).getFixedValue(), out);
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++) leaves(a->getElementType(), off + i * sz, out);
  } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(v->getElementType());
    for (uint64_t i = 0; i < v->getNumElements(); i++) leaves(v->getElementType(), off + i * sz, out);
  } else out.push_back(json::Array{(int64_t)off, tyname(t)});
}
static std::map<const Value *, int> ids;
static json::Value constv(const Constant *c);
static json::Value opv(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constv(c);
  if (isa<MetadataAsValue>(v)) return json::Array{"m"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  auto it = ids.find(v);
  if (it == ids.end()) return json::Array{"?"};
  return json::Array{"r", it->second};
}
static std::string fpstr(const APFloat &f) {
  APFloat g(f); bool lost;
  if (&f.getSemantics() != &APFloat::IEEEdouble()) g.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lost);
  double d = g.convertToDouble();
  char buf[64]; snprintf(buf, sizeof buf, "%a", d);
  return buf;
}
static json::Value constv(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) {
    SmallString<40> s; i->getValue().toStringSigned(s);
    return json::Array{"i", (int)i->getBitWidth(), std::string(s)};
  }
  if (auto *f = dyn_cast<ConstantFP>(c)) return json::Array{"f", tyname(f->getType()), fpstr(f->getValueAPF())};
  if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
  if (isa<UndefValue>(c)) return json::Array{"u", tyname(c->getType())};
  if (isa<ConstantAggregateZero>(c)) return json::Array{"z", tyname(c->getType())};
  if (auto *g = dyn_cast<GlobalAlias>(c)) return constv(g->getAliasee());
  if (auto *g = dyn_cast<GlobalValue>(c)) return json::Array{"g", g->getName().str(), 0};
  if (auto *a = dyn_cast<ConstantDataSequential>(c)) {
    json::Array e; for (unsigned i = 0; i < a->getNumElements(); i++) e.push_back(constv(a->getElementAsConstant(i)));
    return json::Array{"a", std::move(e)};
  }
  if (auto *a = dyn_cast<ConstantAggregate>(c)) {
    json::Array e; for (unsigned i = 0; i < a->getNumOperands(); i++) e.push_back(constv(a->getOperand(i)));
    return json::Array{"a", std::move(e)};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) {
      APInt off(64, 0);
      if (g->accumulateConstantOffset(*DL, off)) {
        return json::Array{"ce", "gep", constv(cast<Constant>(g->getPointerOperand())), (int64_t)off.getSExtValue()};
      }
    }
    json::Array e; for (unsigned i = 0; i < ce->getNumOperands(); i++) e.push_back(constv(ce->getOperand(i)));
    return json::Array{"ce", ce->getOpcodeName(), std::move(e), tyname(ce->getType())};
  }
  return json::Array{"?"};
}
static void flat(const Constant *c, uint64_t off, json::Array &out) {
  Type *t = c->getType();
  if (auto *s = dyn_cast<StructType>(t)) {
    auto *l = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++)
      if (auto *e = c->getAggregateElement(i)) flat(e, off + l->getElementOffset(i).getFixedValue(), out);
  } else if (auto *a = dyn_cast<ArrayType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(a->getElementType());
    for (uint64_t i = 0; i < a->getNumElements(); i++)
      if (auto *e = c->getAggregateElement(i)) flat(e, off + i * sz, out);
  } else if (auto *v = dyn_cast<FixedVectorType>(t)) {
    uint64_t sz = DL->getTypeAllocSize(v->getElementType());
    for (uint64_t i = 0; i < v->getNumElements(); i++)
      if (auto *e = c->getAggregateElement((unsigned)i)) flat(e, off + i * sz, out);
  } else out.push_back(json::Array{(int64_t)off, tyname(t), constv(c)});
}
int main(int argc, char **argv) {
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 2; }
  DL = &m->getDataLayout();
  json::Object root;
  json::Object globals;
  for (auto &g : m->globals()) {
    json::Object o;
    o["size"] = (int64_t)DL->getTypeAllocSize(g.getValueType());
    o["const"] = g.isConstant();
    if (g.hasInitializer()) {
      if (isa<ConstantAggregateZero>(g.getInitializer())) { o["zero"] = true; json::Array l; leaves(g.getValueType(), 0, l); if (l.size() < 4096) o["leaves"] = std::move(l);}
      else { json::Array f; flat(g.getInitializer(), 0, f); o["init"] = std::move(f); }
    } else o["extern"] = true;
    globals[g.getName()] = std::move(o);
  }
  root["globals"] = std::move(globals);
  json::Object funcs;
  for (auto &f : *m) {
    if (f.isIntrinsic()) continue;
    json::Object fo;
    fo["ret"] = tyname(f.getReturnType());
    fo["dem"] = demangle(f.getName().str());
    fo["vararg"] = f.isVarArg();
    { json::Array byv; for (auto &a : f.args()) {
        if (a.hasByValAttr()) byv.push_back((int64_t)DL->getTypeAllocSize(a.getParamByValType())); else byv.push_back(0); }
      fo["byval"] = std::move(byv); }
    if (f.isDeclaration()) { fo["decl"] = true; funcs[f.getName()] = std::move(fo); continue; }
    ids.clear(); int n = 0;
    json::Array args;
    for (auto &a : f.args()) { ids[&a] = n; args.push_back(json::Array{n, tyname(a.getType())}); n++; }
    std::map<const BasicBlock *, int> bid; int bn = 0;
    for (auto &b : f) { bid[&b] = bn++; for (auto &i : b) if (!i.getType()->isVoidTy()) ids[&i] = n++; }
    fo["args"] = std::move(args);
    fo["nvals"] = n;
    json::Array blocks;
    for (auto &b : f) {
      json::Array ins;
      for (auto &i : b) {
        if (isa<DbgInfoIntrinsic>(&i)) continue;
        json::Object o;
        o["op"] = i.getOpcodeName();
        if (!i.getType()->isVoidTy()) { o["id"] = ids[&i]; o["ty"] = tyname(i.getType()); }
        if (auto &dl = i.getDebugLoc()) { o["ln"] = (int)dl.getLine(); if (auto *s = dyn_cast_or_null<DIScope>(dl.getScope())) o["fl"] = s->getFilename().str(); }
        if (auto *bo = dyn_cast<OverflowingBinaryOperator>(&i)) { if (bo->hasNoSignedWrap()) o["nsw"] = true; if (bo->hasNoUnsignedWrap()) o["nuw"] = true; }
        if (auto *pe = dyn_cast<PossiblyExactOperator>(&i)) if (pe->isExact()) o["exact"] = true;
        if (auto *c = dyn_cast<CmpInst>(&i)) { o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["cty"] = tyname(c->getOperand(0)->getType()); }
        if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
          MapVector<Value *, APInt> vo; APInt co(64, 0);
          if (!g->collectOffset(*DL, 64, vo, co)) { errs() << "gep\n"; return 3; }
          o["base"] = opv(g->getPointerOperand()); o["off"] = co.getSExtValue();
          json::Array t; for (auto &p : vo) t.push_back(json::Array{p.second.getSExtValue(), opv(p.first), tyname(p.first->getType())});
          o["terms"] = std::move(t);
        } else if (auto *a = dyn_cast<AllocaInst>(&i)) {
          o["size"] = (int64_t)DL->getTypeAllocSize(a->getAllocatedType()); o["n"] = opv(a->getArraySize());
        } else if (auto *p = dyn_cast<PHINode>(&i)) {
          json::Array in; for (unsigned k = 0; k < p->getNumIncomingValues(); k++) in.push_back(json::Array{bid[p->getIncomingBlock(k)], opv(p->getIncomingValue(k))});
          o["in"] = std::move(in);
        } else if (auto *br = dyn_cast<BranchInst>(&i)) {
          if (br->isConditional()) { o["c"] = opv(br->getCondition()); o["t"] = bid[br->getSuccessor(0)]; o["f"] = bid[br->getSuccessor(1)]; }
          else o["t"] = bid[br->getSuccessor(0)];
        } else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
          o["c"] = opv(sw->getCondition()); o["def"] = bid[sw->getDefaultDest()];
          json::Array cs; for (auto &cc : sw->cases()) { SmallString<40> s; cc.getCaseValue()->getValue().toStringSigned(s); cs.push_back(json::Array{std::string(s), bid[cc.getCaseSuccessor()]}); }
          o["cases"] = std::move(cs);
        } else if (auto *cb = dyn_cast<CallBase>(&i)) {
          o["op"] = isa<InvokeInst>(cb) ? "invoke" : "call";
          o["fn"] = opv(cb->getCalledOperand());
          json::Array as; for (auto &a : cb->args()) as.push_back(opv(a.get()));
          o["args"] = std::move(as);
          json::Array at; for (auto &a : cb->args()) at.push_back(tyname(a->getType()));
          o["aty"] = std::move(at);
          json::Array byv; bool any = false; for (unsigned k = 0; k < cb->arg_size(); k++) { if (cb->isByValArgument(k)) { any = true; byv.push_back((int64_t)DL->getTypeAllocSize(cb->getParamByValType(k))); } else byv.push_back(0); }
          if (any) o["byval"] = std::move(byv);
          if (auto *iv = dyn_cast<InvokeInst>(cb)) { o["t"] = bid[iv->getNormalDest()]; o["u"] = bid[iv->getUnwindDest()]; }
        } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
          json::Array ix; for (auto k : ev->indices()) ix.push_back((int)k); o["ix"] = std::move(ix); o["a"] = json::Array{opv(ev->getAggregateOperand())};
        } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
          json::Array ix; for (auto k : iv->indices()) ix.push_back((int)k); o["ix"] = std::move(ix);
          o["a"] = json::Array{opv(iv->getAggregateOperand()), opv(iv->getInsertedValueOperand())};
        } else if (auto *lp = dyn_cast<LandingPadInst>(&i)) {
          o["cleanup"] = lp->isCleanup(); json::Array cl;
          for (unsigned k = 0; k < lp->getNumClauses(); k++) cl.push_back(json::Array{lp->isCatch(k) ? "catch" : "filter", opv(lp->getClause(k))});
          o["cl"] = std::move(cl);
        } else {
          json::Array as; for (auto &a : i.operands()) as.push_back(opv(a.get())); o["a"] = std::move(as);
          if (i.getNumOperands()) o["aty"] = tyname(i.getOperand(0)->getType());
          if (auto *s = dyn_cast<StoreInst>(&i)) { o["vty"] = tyname(s->getValueOperand()->getType()); json::Array l; leaves(s->getValueOperand()->getType(), 0, l); if (l.size() != 1 ) o["lv"] = std::move(l); }
          if (isa<LoadInst>(&i)) { json::Array l; leaves(i.getType(), 0, l); if (l.size() != 1) o["lv"] = std::move(l); }
          if (auto *r = dyn_cast<AtomicRMWInst>(&i)) o["rmw"] = AtomicRMWInst::getOperationName(r->getOperation()).str();
          if (auto *x = dyn_cast<AtomicCmpXchgInst>(&i)) o["vty"] = tyname(x->getNewValOperand()->getType());
          if (auto *sv = dyn_cast<ShuffleVectorInst>(&i)) { json::Array mk; for (int k : sv->getShuffleMask()) mk.push_back(k); o["mask"] = std::move(mk); }
        }
        ins.push_back(std::move(o));
      }
      blocks.push_back(std::move(ins));
    }
    fo["blocks"] = std::move(blocks);
    DominatorTree dt(f); LoopInfo li(dt);
    json::Array loops;
    for (auto *l : li.getLoopsInPreorder()) {
      json::Object lo; lo["h"] = bid[l->getHeader()];
      json::Array bs; for (auto *b : l->blocks()) bs.push_back(bid[b]); lo["b"] = std::move(bs);
      if (auto loc = l->getStartLoc()) { lo["ln"] = (int)loc.getLine(); if (auto *s = dyn_cast_or_null<DIScope>(loc.getScope())) lo["fl"] = s->getFilename().str(); }
      loops.push_back(std::move(lo));
    }
    fo["loops"] = std::move(loops);
    if (auto *sp = f.getSubprogram()) { fo["file"] = sp->getFilename().str(); fo["line"] = (int)sp->getLine(); }
    funcs[f.getName()] = std::move(fo);
  }
  root["funcs"] = std::move(funcs);
  outs() << json::Value(std::move(root)) << "\n";
  return 0;
}
