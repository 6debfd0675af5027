#include "engine.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/ADT/SmallString.h"
using namespace llvm;

std::string demangle(std::string const &n) { return llvm::demangle(n); }

static uint64_t rup(uint64_t v, uint64_t a) { return (v + a - 1) / a * a; }
static bool isFloatTy(Type *t) { return t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty(); }

FnInfo *Engine::info(Function *f) {
  auto &p = finfo[f];
  if (p) return p;
  p = new FnInfo;
  for (auto &a : f->args()) p->slot[&a] = p->n++;
  for (auto &b : *f)
    for (auto &i : b) p->slot[&i] = p->n++;
  DominatorTree dt(*f);
  LoopInfo li(dt);
  unsigned k = 0;
  for (auto *l : li.getLoopsInPreorder()) {
    p->headers[l->getHeader()] = k++;
    auto &v = p->loopBlocks[l->getHeader()];
    for (auto *b : l->blocks()) v.push_back(b);
  }
  return p;
}

void Engine::setup() {
  DL = &M->getDataLayout();
  uint64_t fa = 0x400000;
  for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
  uint64_t ga = 0x10000000;
  std::vector<GlobalVariable *> gs;
  for (auto &g : M->globals()) {
    if (g.getName().starts_with("llvm.")) continue;
    auto o    = std::make_shared<Obj>();
    uint64_t n = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0;
    if (g.isDeclaration() && n < 256) n = 256;
    o->rstart = ga;
    o->rsize  = rup(n, 4096) + 8192;
    uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
    o->base   = Val::con(64, rup(ga + 4096, al));
    o->size   = Val::con(64, n);
    o->name   = g.getName().str();
    o->kind   = g.isDeclaration() ? 'e' : 'g';
    o->c.bytes = std::make_shared<std::vector<Byte>>(n);
    if (g.isDeclaration()) {
      o->c.base = freshArray("ext_" + o->name);
      for (auto &b : *o->c.bytes) b.conc = false;
    }
    o->writable = !g.isConstant();
    gobjs[ga]  = o;
    gaddr[&g]  = o->base.u();
    gvByAddr[o->base.u()] = &g;
    ga += o->rsize;
    gs.push_back(&g);
  }
  for (auto *g : gs)
    if (g->hasInitializer()) {
      auto o = gobjs.upper_bound(gaddr[g]);
      --o;
      initConst(*o->second, 0, g->getInitializer());
    }
}

// ---------------------------------------------------------------- values
Val Engine::fresh(State &s, unsigned w, char const *tag) { return freshVal(w, std::string(tag) + "!" + std::to_string(s.fresh++) + "_" + std::to_string(w)); }
Val Engine::undef(State *s, Type *t) {
  if (auto st = dyn_cast<StructType>(t)) {
    std::vector<Val> r;
    for (auto *e : st->elements()) r.push_back(undef(s, e));
    return Val::agg(r);
  }
  if (auto at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> r;
    for (uint64_t i = 0; i < at->getNumElements(); ++i) r.push_back(undef(s, at->getElementType()));
    return Val::agg(r);
  }
  unsigned w = t->isPointerTy() ? 64 : isFloatTy(t) ? (unsigned)t->getPrimitiveSizeInBits() : t->isIntegerTy() ? t->getIntegerBitWidth() : 8;
  if (!s) return Val::con(w, 0);
  return fresh(*s, w, "undef");
}
Val Engine::constant(State *s, Constant *c) {
  if (auto ci = dyn_cast<ConstantInt>(c)) return Val::con(ci->getValue());
  if (isa<ConstantPointerNull>(c)) return Val::con(64, 0);
  if (auto cf = dyn_cast<ConstantFP>(c)) return Val::con(cf->getValueAPF().bitcastToAPInt());
  if (auto ga = dyn_cast<GlobalAlias>(c)) return constant(s, ga->getAliasee());
  if (auto g = dyn_cast<GlobalValue>(c)) return Val::con(64, gaddr[g]);
  if (isa<UndefValue>(c)) return undef(s, c->getType());
  if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
    std::vector<Val> r;
    unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->isArrayTy() ? c->getType()->getArrayNumElements() : 0;
    for (unsigned i = 0; i < n; ++i) r.push_back(constant(s, c->getAggregateElement(i)));
    return Val::agg(r);
  }
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    auto op = [&](unsigned i) { return constant(s, ce->getOperand(i)); };
    switch (ce->getOpcode()) {
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast: return op(0);
    case Instruction::PtrToInt: { Val v = op(0); unsigned w = ce->getType()->getIntegerBitWidth(); return w < 64 ? vTrunc(v, w) : vZExt(v, w); }
    case Instruction::IntToPtr: { Val v = op(0); return v.w < 64 ? vZExt(v, 64) : vTrunc(v, 64); }
    case Instruction::Trunc: return vTrunc(op(0), ce->getType()->getIntegerBitWidth());
    case Instruction::Add: return vAdd(op(0), op(1));
    case Instruction::Sub: return vSub(op(0), op(1));
    case Instruction::Mul: return vMul(op(0), op(1));
    case Instruction::Xor: return vXor(op(0), op(1));
    case Instruction::Shl: return vShl(op(0), op(1));
    case Instruction::GetElementPtr: {
      auto *gep = cast<GEPOperator>(ce);
      APInt off(64, 0);
      gep->accumulateConstantOffset(*DL, off);
      return vAdd(op(0), Val::con(off));
    }
    case Instruction::ICmp: {
      Val a = op(0), b = op(1);
      switch (ce->getPredicate()) {
      case CmpInst::ICMP_EQ: return vEq(a, b);
      case CmpInst::ICMP_NE: return vNe(a, b);
      case CmpInst::ICMP_ULT: return vUlt(a, b);
      case CmpInst::ICMP_UGT: return vUlt(b, a);
      default: break;
      }
      break;
    }
    default: break;
    }
  }
  unsupported.insert("constant expression");
  kill("constant");
  return {};
}
Val Engine::reg(State &s, Value *v) {
  if (auto c = dyn_cast<Constant>(v)) return constant(&s, c);
  Frame &f = s.st.back();
  auto it  = f.fi->slot.find(v);
  if (it == f.fi->slot.end()) { unsupported.insert("operand kind"); kill("operand"); }
  Val const &r = f.regs[it->second];
  if (r.k == Val::NONE) { unsupported.insert("use before def in " + where(s)); kill("nodef"); }
  return r;
}
void Engine::setReg(State &s, Value *v, Val x) {
  Frame &f = s.st.back();
  f.regs[f.fi->slot[v]] = std::move(x);
}
Val Engine::concretize(State &s, Val const &v, Value *from, unsigned limit) {
  if (v.isCon()) return v;
  APInt a;
  if (!evalModel(s.model, v, a)) { unsupported.insert("concretization"); kill("eval"); }
  Val c = Val::con(a);
  Val e = vEq(v, c);
  ModelRef m;
  if (!e.isTrue() && may(s, vNot(e), &m)) {
    State o = s;
    bool ok = true;
    try { assume(o, vNot(e), true, m); } catch (PathEnd &) { ok = false; }
    if (ok) work.push_back(std::move(o));
  }
  assume(s, e, false, {});
  if (from && !isa<Constant>(from)) setReg(s, from, c);
  return c;
}

// ---------------------------------------------------------------- reporting
static bool inRepo(DILocation const *l) { return l && (l->getFilename().contains("/repo/code") || (l->getDirectory() + "/" + l->getFilename()).str().find("/repo/code") != std::string::npos); }
std::string const &Engine::where(State const &s) {
  // innermost frame that lies in the repository's code, else the innermost frame
  std::string const *inner = nullptr;
  for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) {
    DILocation const *l = nullptr;
    if (it->bb && it->it != it->bb->end()) l = it->it->getDebugLoc();
    if (l) {
      auto &pl = places[l];
      if (pl.inner.empty()) {
        for (; l; l = l->getInlinedAt()) {
          auto *sp = l->getScope()->getSubprogram();
          std::string fn = demangle(sp && !sp->getLinkageName().empty() ? sp->getLinkageName().str() : sp ? sp->getName().str() : it->f->getName().str());
          std::string file = l->getFilename().str();
          auto p = file.rfind('/');
          std::string d = fn + " (" + (p == std::string::npos ? file : file.substr(p + 1)) + ":" + std::to_string(l->getLine()) + ")";
          if (pl.inner.empty()) pl.inner = d;
          if (inRepo(l)) { pl.repo = d; break; }
        }
      }
      if (!pl.repo.empty()) return pl.repo;
      if (!inner) inner = &pl.inner;
    }
    if (!inner) {
      auto &pl = places[it->f];
      if (pl.inner.empty()) pl.inner = demangle(it->f->getName().str());
      inner = &pl.inner;
    }
  }
  static std::string const none;
  return inner ? *inner : none;
}
static std::string hexOf(APInt const &v) {
  SmallString<40> s;
  v.toStringUnsigned(s, 16);
  return std::string(s.str());
}
void Engine::settle(State &s, ModelRef &m, Ex const *q) {
  bool ok = true;
  auto fits = [&](Ex const &e) { APInt v; return evalModel(m, Val::sym(1, e), v) && v == 1; };
  for (auto &e : s.pc) if (!fits(e)) { ok = false; break; }
  if (ok && (!q || fits(*q))) return;
  ModelRef m2;
  Res r = solveAll(s.pc, q, m2);
  backend["model-rejected"]++;
  if (r == UNSAT) kill("infeasible");
  if (r == UNK) { unknowns.insert("counterexample undecided at " + where(s)); kill("unknown"); }
  m = m2;
}
void Engine::violate(State &s, ModelRef const &m0, std::string kind, std::string msg) {
  ModelRef m = m0 ? m0 : s.model;
  Violation v;
  v.kind  = kind;
  v.where = where(s);
  v.msg   = msg;
  v.cut   = s.mode != 0;
  for (auto &in : s.inputs) {
    APInt x;
    if (in.kind == 'v') {
      evalModel(m, in.v, x);
      v.inputs.push_back(in.name + " v " + std::to_string(in.w) + " " + hexOf(x));
    } else {
      APInt n(64, 0);
      evalModel(m, in.v, n);
      std::string hex;
      uint64_t len = n.getZExtValue(), lim = std::min<uint64_t>(len, 1 << 16);
      char b[4];
      for (uint64_t i = 0; i < lim; ++i) {
        Val byte = in.arr ? vSelect(in.arr, Val::con(64, i)) : in.bytes[i];
        APInt y(8, 0);
        evalModel(m, byte, y);
        snprintf(b, sizeof b, "%02x", (unsigned)y.getZExtValue());
        hex += b;
      }
      v.inputs.push_back(in.name + " b " + std::to_string(len) + " " + (hex.empty() ? "-" : hex));
    }
  }
  for (auto &n : s.notes) {
    APInt x;
    if (evalModel(m, n.second, x)) v.trace.push_back(n.first + " = 0x" + hexOf(x));
  }
  for (auto it = s.st.rbegin(); it != s.st.rend(); ++it) v.trace.push_back("in " + demangle(it->f->getName().str()));
  viols.push_back(v);
}
void Engine::oblig(State &s, Val const &c, std::string kind, std::string msg) {
  std::string w = where(s);
  auto &ob      = obls[kind + "@" + w + ":" + msg];
  if (ob.kind.empty()) { ob.kind = kind; ob.where = w; ob.msg = msg; }
  ob.count++;
  if (c.isTrue()) return;
  double t = solverTime;
  ModelRef m;
  Res r = check(s, vNot(c), &m, true);
  ob.time += solverTime - t;
  if (r == UNSAT) return;
  if (r == UNK) { ob.unknown++; unknowns.insert(kind + "@" + w + ":" + msg); }
  else {
    Ex nq = toBool(vNot(c));
    settle(s, m, &nq);
    ob.failed++;
    // try for a smaller counterexample: short byte-block inputs
    for (uint64_t lim : {0, 1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 64, 256}) {
      bool any = false;
      Val q    = vNot(c);
      for (auto &in : s.inputs)
        if (in.kind == 'b' && in.v.isSym()) { any = true; q = vAnd(q, vUle(in.v, Val::con(64, lim))); }
      if (!any) break;
      ModelRef m2;
      if (checkPC(s.pc, toBool(q), &m2, false, s.model) == SAT) { m = m2; break; }
    }
    violate(s, m, kind, msg);
    if (stopFirst) kill("violated");
  }
  assume(s, c, false, {});
}

// ---------------------------------------------------------------- control
void Engine::jump(State &s, BasicBlock *to) {
  Frame *f         = &s.st.back();
  BasicBlock *from = f->bb;
  auto hit         = f->fi->headers.find(to);
  if (hit != f->fi->headers.end()) {
    auto &blocks = f->fi->loopBlocks[to];
    bool back    = std::find(blocks.begin(), blocks.end(), from) != blocks.end();
    if (!back) f->iters[to] = 0;
    else if (++f->iters[to] > maxIter) {
      bounded.insert("loop unrolling bound " + std::to_string(maxIter) + " reached in " + where(s));
      kill("unroll bound");
    }
  }
  std::vector<std::pair<Value *, Val>> ph;
  for (auto &p : to->phis()) ph.emplace_back(&p, reg(s, p.getIncomingValueForBlock(from)));
  for (auto &p : ph) setReg(s, p.first, p.second);
  f->prev = from;
  f->bb   = to;
  f->it   = to->getFirstNonPHIIt();
}
void Engine::enter(State &s, Function *f, std::vector<Val> args, CallBase *cb) {
  if (s.st.size() > 200) { unsupported.insert("recursion depth"); kill("depth"); }
  if (auto *sp = f->getSubprogram()) {
    std::string fn = sp->getFilename().str();
    if (fn.find("/code/include/swoc") != std::string::npos || fn.find("/code/src/") != std::string::npos || fn.find("/code/include/../../src") != std::string::npos) touched.insert(demangle(f->getName().str()));
  }
  Frame fr;
  fr.f  = f;
  fr.fi = info(f);
  fr.regs.resize(fr.fi->n);
  fr.call = cb;
  fr.bb   = &f->getEntryBlock();
  fr.it   = fr.bb->begin();
  s.st.push_back(std::move(fr));
  unsigned i = 0;
  for (auto &a : f->args()) {
    if (i >= args.size()) break;
    Val v = args[i++];
    if (a.hasByValAttr()) {
      Type *t    = a.getParamByValType();
      uint64_t n = DL->getTypeAllocSize(t);
      ObjP o     = newObj(s, Val::con(64, n), 's', "byval", false);
      s.st.back().allocas.push_back(o->rstart);
      Val b = o->base;
      o.reset();
      memcopy(s, b, v, Val::con(64, n), nullptr, nullptr);
      v = b;
    }
    setReg(s, &a, v);
  }
}
bool Engine::copyStub(State &s, CallBase &cb, Val to, Val from, Val n, char const *stub) {
  auto *st = n.isCon() ? nullptr : M->getFunction(stub);
  if (!st || st->isDeclaration()) return false;
  for (auto &fr : s.st) if (fr.f == st) return false;
  enter(s, st, {to, from, n}, &cb);
  return true;
}
void Engine::finishCall(State &s, CallBase &cb, Val r) {
  if (!cb.getType()->isVoidTy() && r.k != Val::NONE) setReg(s, &cb, r);
  if (auto inv = dyn_cast<InvokeInst>(&cb)) jump(s, inv->getNormalDest());
  else ++s.st.back().it;
}
void Engine::ret(State &s, Val v) {
  for (auto a : s.st.back().allocas) freeObj(s, a);
  CallBase *cb = s.st.back().call;
  s.st.pop_back();
  if (s.st.empty()) return;
  if (cb) finishCall(s, *cb, v);
}
static std::string tiParent(std::string const &n) {
  static std::map<std::string, std::string> h = {
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"},     {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt11logic_error", "_ZTISt9exception"},         {"_ZTISt13runtime_error", "_ZTISt9exception"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"},            {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"},    {"_ZTISt18bad_variant_access", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"},   {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"},
  };
  auto it = h.find(n);
  return it == h.end() ? "" : it->second;
}
static bool tiMatches(GlobalVariable *d, GlobalVariable *b, Module *M, std::string dn) {
  std::string bn = b->getName().str();
  for (int i = 0; i < 10; ++i) {
    if (dn == bn) return true;
    if (d && d->hasInitializer()) {
      auto *c = d->getInitializer();
      if (c->getNumOperands() >= 3) {
        auto *p = dyn_cast<GlobalVariable>(c->getOperand(2)->stripPointerCasts());
        if (p) { d = p; dn = p->getName().str(); continue; }
      }
      return false;
    }
    dn = tiParent(dn);
    if (dn.empty()) return false;
    d = M->getNamedGlobal(dn);
  }
  return false;
}
static std::map<uint64_t, std::string> &pseudoTI() { static std::map<uint64_t, std::string> m; return m; }
void Engine::throwStd(State &s, char const *ti) {
  ObjP o = newObj(s, Val::con(64, 64), 'h', "exception", true);
  uint64_t a;
  if (auto *g = M->getNamedGlobal(ti)) a = gaddr[g];
  else {
    a = 0x8000 + std::hash<std::string>{}(ti) % 0x7000;
    pseudoTI()[a] = ti;
  }
  unwind(s, Exc{o->base, Val::con(64, a)});
}
void Engine::unwind(State &s, Exc e) {
  auto name = [&](uint64_t a) -> std::string {
    auto it = gvByAddr.find(a);
    if (it != gvByAddr.end()) return it->second->getName().str();
    return pseudoTI()[a];
  };
  uint64_t tia = e.ti.isCon() ? e.ti.u() : 0;
  State entry  = s; // for reporting
  s.inflight.emplace_back(e.obj.isCon() ? e.obj.u() : 0, e);
  while (!s.st.empty()) {
    Frame &f = s.st.back();
    if (auto *inv = dyn_cast<InvokeInst>(&*f.it)) {
      auto *lp = inv->getUnwindDest()->getLandingPadInst();
      uint32_t sel = 0;
      bool match   = false;
      for (unsigned i = 0; i < lp->getNumClauses() && !match; ++i) {
        if (!lp->isCatch(i)) continue;
        auto *c = lp->getClause(i);
        if (isa<ConstantPointerNull>(c)) { match = true; sel = 1; }
        else if (auto *g = dyn_cast<GlobalVariable>(c->stripPointerCasts())) {
          auto it = gvByAddr.find(tia);
          if (tiMatches(it == gvByAddr.end() ? nullptr : it->second, g, M, name(tia))) { match = true; sel = uint32_t(gaddr[g] & 0x7fffffff); }
        }
      }
      if (match || lp->isCleanup()) {
        jump(s, inv->getUnwindDest());
        setReg(s, lp, Val::agg({e.obj, Val::con(32, sel)}));
        s.st.back().it = std::next(lp->getIterator());
        return;
      }
    }
    if (f.f->doesNotThrow() ) {
      settle(entry);
      violate(entry, entry.model, "exception", "exception " + demangle(name(tia)) + " escapes noexcept function " + demangle(f.f->getName().str()));
      obls["exception@" + where(entry)].failed++;
      kill("terminate");
    }
    for (auto a : f.allocas) freeObj(s, a);
    s.st.pop_back();
  }
  settle(entry);
  auto &ob = obls["exception@" + where(entry)];
  ob.kind = "exception"; ob.where = where(entry); ob.msg = "no uncaught exception"; ob.count++; ob.failed++;
  violate(entry, entry.model, "exception", "uncaught exception of type " + name(tia));
  kill("uncaught");
}

// ---------------------------------------------------------------- calls
void Engine::call(State &s, CallBase &cb) {
  Value *cv = cb.getCalledOperand()->stripPointerCasts();
  if (isa<InlineAsm>(cv)) { // compiler barriers only
    auto *ia = cast<InlineAsm>(cv);
    if (!ia->getAsmString().empty()) { unsupported.insert("inline assembly"); kill("asm"); }
    finishCall(s, cb, {});
    return;
  }
  Function *f = dyn_cast<Function>(cv);
  if (!f)
    if (auto *ga = dyn_cast<GlobalAlias>(cv)) f = dyn_cast<Function>(ga->getAliaseeObject());
  if (!f) {
    Val p = reg(s, cb.getCalledOperand());
    p     = concretize(s, p, cb.getCalledOperand(), 32);
    auto it = faddr.find(p.u());
    if (it == faddr.end()) {
      settle(s);
      violate(s, s.model, "memory", "call through an invalid function pointer");
      kill("badcall");
    }
    f = it->second;
  }
  std::vector<Val> args;
  for (auto &a : cb.args()) {
    if (a->getType()->isMetadataTy()) { args.push_back({}); continue; }
    args.push_back(reg(s, a));
  }
  if (f->isIntrinsic()) {
    if (!intrinsic(s, cb, f, args)) { unsupported.insert("intrinsic " + f->getName().str()); kill("intrinsic"); }
    return;
  }
  // contract stub in the harness?
  if (!f->getName().starts_with("vfstub_")) {
    if (auto *st = M->getFunction(("vfstub_" + f->getName()).str()); st && !st->isDeclaration()) {
      bool inStub = false;
      for (auto &fr : s.st) if (fr.f == st) inStub = true;
      if (!inStub) { stubsUsed.insert(demangle(f->getName().str())); f = st; }
    }
  }
  if (f->getName().starts_with("vf_") || f->isDeclaration()) {
    if (external(s, cb, f, args)) return;
    if (f->isDeclaration()) { unsupported.insert("external function " + demangle(f->getName().str())); kill("external"); }
  } else if (external(s, cb, f, args)) return;
  enter(s, f, std::move(args), &cb);
}

static Val fpa(Val const &v) { return v; }

static int trapKind(BasicBlock *b) {
  for (auto &i : *b) {
    if (isa<PHINode>(i)) continue;
    if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
      if (ii->getIntrinsicID() == Intrinsic::ubsantrap) return cast<ConstantInt>(ii->getArgOperand(0))->getZExtValue();
      if (ii->isLifetimeStartOrEnd() || isa<DbgInfoIntrinsic>(ii)) continue;
    }
    return -1;
  }
  return -1;
}
char const *trapName(unsigned h) {
  switch (h) {
  case 0: case 12: case 13: case 21: return "no signed arithmetic overflow";
  case 1: return "control does not reach an unreachable point";
  case 3: return "divisor is not zero and the quotient does not overflow";
  case 5: return "floating point value fits the integer type";
  case 11: return "a value is returned on every path";
  case 18: return "array index within bounds";
  case 20: return "shift amount smaller than the width";
  case 24: return "array bound positive";
  default: return "no undefined behaviour";
  }
}
void Engine::step(State &s) {
  Frame &f       = s.st.back();
  Instruction &I = *f.it;
  ++instrs;
  auto R   = [&](unsigned i) { return reg(s, I.getOperand(i)); };
  auto set = [&](Val v) { setReg(s, &I, std::move(v)); ++s.st.back().it; };
  auto isFP = [&](Value *v) { return v->getType()->isFloatingPointTy(); };
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    auto &ai   = cast<AllocaInst>(I);
    uint64_t n = DL->getTypeAllocSize(ai.getAllocatedType());
    Val cnt    = vZExt(reg(s, ai.getArraySize()), 64);
    ObjP o     = newObj(s, vMul(cnt, Val::con(64, n)), 's', I.hasName() ? I.getName().str() : "local", true);
    s.st.back().allocas.push_back(o->rstart);
    set(o->base);
    return;
  }
  case Instruction::Load: {
    Val v = load(s, R(0), I.getType(), I.getOperand(0));
    set(v);
    return;
  }
  case Instruction::Store: {
    store(s, R(1), R(0), I.getOperand(0)->getType(), I.getOperand(1));
    ++s.st.back().it;
    return;
  }
  case Instruction::GetElementPtr: {
    auto &gep = cast<GetElementPtrInst>(I);
    Val p     = R(0);
    for (auto gti = gep_type_begin(gep), e = gep_type_end(gep); gti != e; ++gti) {
      Value *idx = gti.getOperand();
      if (auto *st = gti.getStructTypeOrNull()) {
        p = vAdd(p, Val::con(64, DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue())));
      } else {
        uint64_t es = DL->getTypeAllocSize(gti.getIndexedType());
        Val iv      = reg(s, idx);
        iv          = iv.w < 64 ? vSExt(iv, 64) : iv;
        p           = vAdd(p, vMul(iv, Val::con(64, es)));
      }
    }
    set(p);
    return;
  }
  case Instruction::Add:
  case Instruction::Sub:
  case Instruction::Mul:
  case Instruction::Shl: {
    Val a = R(0), b = R(1), r;
    if (I.getOpcode() == Instruction::Shl) {
      r = vShl(a, b); // undefined shifts and overflows are explicit checks in the IR (ubsantrap)
    } else {
      r = I.getOpcode() == Instruction::Add ? vAdd(a, b) : I.getOpcode() == Instruction::Sub ? vSub(a, b) : vMul(a, b);
    }
    set(r);
    return;
  }
  case Instruction::UDiv:
  case Instruction::SDiv:
  case Instruction::URem:
  case Instruction::SRem: {
    Val a = R(0), b = R(1);
    oblig(s, vNe(b, Val::con(b.w, 0)), "division", "divisor is not zero");
    switch (I.getOpcode()) {
    case Instruction::UDiv: set(vUDiv(a, b)); return;
    case Instruction::SDiv: set(vSDiv(a, b)); return;
    case Instruction::URem: set(vURem(a, b)); return;
    default: set(vSRem(a, b)); return;
    }
  }
  case Instruction::LShr: {
    Val a = R(0), b = R(1);
    set(vLShr(a, b));
    return;
  }
  case Instruction::AShr: {
    Val a = R(0), b = R(1);
    set(vAShr(a, b));
    return;
  }
  case Instruction::And: set(vAnd(R(0), R(1))); return;
  case Instruction::Or: set(vOr(R(0), R(1))); return;
  case Instruction::Xor: set(vXor(R(0), R(1))); return;
  case Instruction::ICmp: {
    Val a = R(0), b = R(1), r;
    switch (cast<ICmpInst>(I).getPredicate()) {
    case CmpInst::ICMP_EQ: r = vEq(a, b); break;
    case CmpInst::ICMP_NE: r = vNe(a, b); break;
    case CmpInst::ICMP_ULT: r = vUlt(a, b); break;
    case CmpInst::ICMP_ULE: r = vUle(a, b); break;
    case CmpInst::ICMP_UGT: r = vUlt(b, a); break;
    case CmpInst::ICMP_UGE: r = vUle(b, a); break;
    case CmpInst::ICMP_SLT: r = vSlt(a, b); break;
    case CmpInst::ICMP_SLE: r = vSle(a, b); break;
    case CmpInst::ICMP_SGT: r = vSlt(b, a); break;
    case CmpInst::ICMP_SGE: r = vSle(b, a); break;
    default: break;
    }
    set(r);
    return;
  }
  case Instruction::Trunc: set(vTrunc(R(0), I.getType()->getIntegerBitWidth())); return;
  case Instruction::ZExt: set(vZExt(R(0), I.getType()->getIntegerBitWidth())); return;
  case Instruction::SExt: set(vSExt(R(0), I.getType()->getIntegerBitWidth())); return;
  case Instruction::PtrToInt: {
    Val v = R(0);
    unsigned w = I.getType()->getIntegerBitWidth();
    set(w < 64 ? vTrunc(v, w) : vZExt(v, w));
    return;
  }
  case Instruction::IntToPtr: { Val v = R(0); set(v.w > 64 ? vTrunc(v, 64) : vZExt(v, 64)); return; }
  case Instruction::BitCast:
  case Instruction::AddrSpaceCast: set(R(0)); return;
  case Instruction::Freeze: set(R(0)); return;
  case Instruction::Select: {
    Val c = R(0);
    if (c.isCon()) { set(c.isTrue() ? R(1) : R(2)); return; }
    if (I.getType()->isPointerTy()) {
      Val a = R(1), b = R(2);
      if (a.isCon() && b.isCon() && a.c == b.c) { set(a); return; }
      // fork so that pointers stay resolvable
      ModelRef mt, mf;
      bool t = may(s, c, &mt), e = may(s, vNot(c), &mf);
      if (t && e) {
        State o = s;
        bool ok = true;
        try { assume(o, vNot(c), true, mf); } catch (PathEnd &) { ok = false; }
        if (ok) { setReg(o, &I, b); ++o.st.back().it; work.push_back(std::move(o)); }
        assume(s, c, true, mt);
        set(a);
        return;
      }
      set(t ? a : b);
      return;
    }
    set(vIte(c, R(1), R(2)));
    return;
  }
  case Instruction::ExtractValue: {
    Val v = R(0);
    for (unsigned i : cast<ExtractValueInst>(I).indices()) { Val t = (*v.g)[i]; v = t; }
    set(v);
    return;
  }
  case Instruction::InsertValue: {
    Val v = R(0), x = R(1);
    auto idx = cast<InsertValueInst>(I).getIndices();
    std::function<Val(Val, unsigned)> ins = [&](Val a, unsigned d) -> Val {
      if (d == idx.size()) return x;
      std::vector<Val> e = *a.g;
      e[idx[d]]          = ins(e[idx[d]], d + 1);
      return Val::agg(e);
    };
    set(ins(v, 0));
    return;
  }
  case Instruction::Br: {
    auto &br = cast<BranchInst>(I);
    if (br.isUnconditional()) { jump(s, br.getSuccessor(0)); return; }
    Val c = R(0);
    for (unsigned k = 0; k < 2; ++k) // a branch to an undefined-behaviour trap is a proof obligation
      if (int h = trapKind(br.getSuccessor(k)); h >= 0) {
        oblig(s, k == 0 ? vNot(c) : c, "undefined-behaviour", trapName(h));
        jump(s, br.getSuccessor(1 - k));
        return;
      }
    if (c.isCon()) { jump(s, br.getSuccessor(c.isTrue() ? 0 : 1)); return; }
    ModelRef mt, mf;
    bool t = may(s, c, &mt), e = may(s, vNot(c), &mf);
    if (t && e) {
      s.forks++;
      State o = s;
      bool ok = true;
      try { assume(o, vNot(c), true, mf); jump(o, br.getSuccessor(1)); } catch (PathEnd &) { ok = false; }
      if (ok) work.push_back(std::move(o));
      assume(s, c, true, mt);
      jump(s, br.getSuccessor(0));
    } else if (t) { jump(s, br.getSuccessor(0)); }
    else if (e) { jump(s, br.getSuccessor(1)); }
    else kill("infeasible");
    return;
  }
  case Instruction::Switch: {
    auto &sw = cast<SwitchInst>(I);
    Val c    = R(0);
    if (c.isCon()) {
      for (auto &cs : sw.cases())
        if (cs.getCaseValue()->getValue() == c.c) { jump(s, cs.getCaseSuccessor()); return; }
      jump(s, sw.getDefaultDest());
      return;
    }
    std::vector<std::pair<BasicBlock *, Val>> groups;
    Val none = Val::con(1, 1);
    for (auto &cs : sw.cases()) {
      Val e = vEq(c, Val::con(cs.getCaseValue()->getValue()));
      none  = vAnd(none, vNot(e));
      bool found = false;
      for (auto &g : groups)
        if (g.first == cs.getCaseSuccessor()) { g.second = vOr(g.second, e); found = true; }
      if (!found) groups.emplace_back(cs.getCaseSuccessor(), e);
    }
    bool dfound = false;
    for (auto &g : groups)
      if (g.first == sw.getDefaultDest()) { g.second = vOr(g.second, none); dfound = true; }
    if (!dfound) groups.emplace_back(sw.getDefaultDest(), none);
    // phi nodes with several entries from this block have equal values, so grouping is sound
    std::vector<State> outs;
    State base = s;
    for (auto &g : groups) {
      ModelRef m;
      if (!may(base, g.second, &m)) continue;
      State o = base;
      try { assume(o, g.second, true, m); jump(o, g.first); } catch (PathEnd &) { continue; }
      outs.push_back(std::move(o));
    }
    if (outs.empty()) kill("infeasible");
    for (size_t i = 1; i < outs.size(); ++i) work.push_back(std::move(outs[i]));
    s = std::move(outs[0]);
    return;
  }
  case Instruction::Ret: {
    Val v;
    if (I.getNumOperands()) v = R(0);
    ret(s, v);
    return;
  }
  case Instruction::Unreachable: {
    settle(s);
    auto &ob = obls["unreachable@" + where(s)];
    ob.kind = "unreachable"; ob.where = where(s); ob.msg = "control does not reach an unreachable point"; ob.count++; ob.failed++;
    violate(s, s.model, "unreachable", "control reaches an unreachable point (undefined behaviour)");
    kill("unreachable");
    return;
  }
  case Instruction::Call:
  case Instruction::Invoke: call(s, cast<CallBase>(I)); return;
  case Instruction::Resume: {
    Val v = R(0);
    Val p = (*v.g)[0];
    Exc e{p, Val::con(64, 0)};
    for (auto it = s.inflight.rbegin(); it != s.inflight.rend(); ++it)
      if (p.isCon() && it->first == p.u()) { e = it->second; break; }
    // continue unwinding in the caller
    for (auto a : f.allocas) freeObj(s, a);
    s.st.pop_back();
    if (s.st.empty()) {
      settle(s);
      violate(s, s.model, "exception", "uncaught exception");
      kill("uncaught");
    }
    unwind(s, e);
    return;
  }
  case Instruction::Fence: ++s.st.back().it; return;
  case Instruction::AtomicRMW: {
    auto &a = cast<AtomicRMWInst>(I);
    Val old = load(s, R(0), a.getValOperand()->getType(), I.getOperand(0)), x = R(1), nv;
    switch (a.getOperation()) {
    case AtomicRMWInst::Add: nv = vAdd(old, x); break;
    case AtomicRMWInst::Sub: nv = vSub(old, x); break;
    case AtomicRMWInst::Xchg: nv = x; break;
    default: unsupported.insert("atomicrmw"); kill("atomic");
    }
    store(s, R(0), nv, a.getValOperand()->getType(), I.getOperand(0));
    set(old);
    return;
  }
  case Instruction::AtomicCmpXchg: {
    auto &a = cast<AtomicCmpXchgInst>(I);
    Type *t = a.getCompareOperand()->getType();
    Val old = load(s, R(0), t, I.getOperand(0));
    Val eq  = vEq(old, R(1));
    store(s, R(0), vIte(eq, R(2), old), t, I.getOperand(0));
    set(Val::agg({old, eq}));
    return;
  }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv:
  case Instruction::FCmp: case Instruction::FNeg: case Instruction::FPToUI: case Instruction::FPToSI:
  case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
    auto sortOf = [&](Type *t) { return t->isFloatTy() ? Z3_mk_fpa_sort_32(C) : Z3_mk_fpa_sort_64(C); };
    auto fp     = [&](unsigned i) { return Ex(Z3_mk_fpa_to_fp_bv(C, toBV(R(i)), sortOf(I.getOperand(i)->getType()))); };
    auto back   = [&](Ex e, Type *t) {
      unsigned w = t->isFloatTy() ? 32 : 64;
      return fromBV(w, Ex(Z3_simplify(C, Ex(Z3_mk_fpa_to_ieee_bv(C, e)))));
    };
    for (auto &op : I.operands()) if (op->getType()->isX86_FP80Ty()) { unsupported.insert("x87 floating point"); kill("fp"); }
    Ex rne(Z3_mk_fpa_round_nearest_ties_to_even(C)), rtz(Z3_mk_fpa_round_toward_zero(C));
    switch (I.getOpcode()) {
    case Instruction::FAdd: set(back(Ex(Z3_mk_fpa_add(C, rne, fp(0), fp(1))), I.getType())); return;
    case Instruction::FSub: set(back(Ex(Z3_mk_fpa_sub(C, rne, fp(0), fp(1))), I.getType())); return;
    case Instruction::FMul: set(back(Ex(Z3_mk_fpa_mul(C, rne, fp(0), fp(1))), I.getType())); return;
    case Instruction::FDiv: set(back(Ex(Z3_mk_fpa_div(C, rne, fp(0), fp(1))), I.getType())); return;
    case Instruction::FNeg: { Val v = R(0); set(vXor(v, Val::con(APInt::getSignMask(v.w)))); return; }
    case Instruction::FPToUI: set(fromBV(I.getType()->getIntegerBitWidth(), Ex(Z3_simplify(C, Ex(Z3_mk_fpa_to_ubv(C, rtz, fp(0), I.getType()->getIntegerBitWidth())))))); return;
    case Instruction::FPToSI: set(fromBV(I.getType()->getIntegerBitWidth(), Ex(Z3_simplify(C, Ex(Z3_mk_fpa_to_sbv(C, rtz, fp(0), I.getType()->getIntegerBitWidth())))))); return;
    case Instruction::UIToFP: set(back(Ex(Z3_mk_fpa_to_fp_unsigned(C, rne, toBV(R(0)), sortOf(I.getType()))), I.getType())); return;
    case Instruction::SIToFP: set(back(Ex(Z3_mk_fpa_to_fp_signed(C, rne, toBV(R(0)), sortOf(I.getType()))), I.getType())); return;
    case Instruction::FPExt: case Instruction::FPTrunc: set(back(Ex(Z3_mk_fpa_to_fp_float(C, rne, fp(0), sortOf(I.getType()))), I.getType())); return;
    default: break;
    }
    Ex a = fp(0), b = fp(1);
    Ex na(Z3_mk_fpa_is_nan(C, a)), nb(Z3_mk_fpa_is_nan(C, b));
    Z3_ast o2[2] = {na, nb};
    Ex isun(Z3_mk_or(C, 2, o2));
    auto P = cast<FCmpInst>(I).getPredicate();
    Ex r;
    switch (P) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = Ex(Z3_mk_fpa_eq(C, a, b)); break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = Ex(Z3_mk_fpa_gt(C, a, b)); break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = Ex(Z3_mk_fpa_geq(C, a, b)); break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = Ex(Z3_mk_fpa_lt(C, a, b)); break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = Ex(Z3_mk_fpa_leq(C, a, b)); break;
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = Ex(Z3_mk_not(C, Ex(Z3_mk_fpa_eq(C, a, b)))); break;
    case CmpInst::FCMP_UNO: r = isun; break;
    case CmpInst::FCMP_ORD: r = Ex(Z3_mk_not(C, isun)); break;
    default: unsupported.insert("fcmp"); kill("fcmp");
    }
    if (P == CmpInst::FCMP_ONE) { Ex ni(Z3_mk_not(C, isun)); Z3_ast x[2] = {r, ni}; r = Ex(Z3_mk_and(C, 2, x)); }
    if (P >= CmpInst::FCMP_UEQ && P <= CmpInst::FCMP_UNE) { Z3_ast x[2] = {r, isun}; r = Ex(Z3_mk_or(C, 2, x)); }
    set(fromBool(Ex(Z3_simplify(C, r))));
    return;
  }
  default: break;
  }
  (void)isFP;
  (void)fpa;
  unsupported.insert(std::string("instruction ") + I.getOpcodeName());
  kill("instr");
}

void Engine::exec(State &s) {
  try {
    while (!s.st.empty()) {
      step(s);
      ++s.steps;
      if ((s.steps & 255) == 0 && elapsed() > timeout) { timedOut = true; kill("timeout"); }
      if (stopFirst && !viols.empty()) kill("stop");
    }
    ++paths;
  } catch (PathEnd &p) {
    ++killed;
    if (verbose) errs() << "path end: " << p.why << "\n";
  }
}
void Engine::exploreAll() {
  while (!work.empty()) {
    if (elapsed() > timeout) { timedOut = true; work.clear(); break; }
    if (stopFirst && !viols.empty()) { work.clear(); break; }
    State s = std::move(work.back());
    work.pop_back();
    exec(s);
  }
}
bool Engine::runHarness(std::string const &name) {
  t0 = std::chrono::steady_clock::now();
  Function *f = M->getFunction(name);
  if (!f) { unsupported.insert("no harness " + name); return false; }
  State s;
  s.nextSmall = 0x100000000ull + 0x1000;
  Z3_solver sv = Z3_mk_simple_solver(C);
  Z3_solver_inc_ref(C, sv);
  Z3_solver_check(C, sv);
  s.model = ModelRef(Z3_solver_get_model(C, sv));
  Z3_solver_dec_ref(C, sv);
  // static initialisers
  if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) {
    auto *ca = dyn_cast<ConstantArray>(gc->getInitializer());
    std::vector<std::pair<uint64_t, Function *>> cs;
    if (ca)
      for (auto &op : ca->operands()) {
        auto *st = cast<ConstantStruct>(op);
        cs.emplace_back(cast<ConstantInt>(st->getOperand(0))->getZExtValue(), cast<Function>(st->getOperand(1)->stripPointerCasts()));
      }
    std::stable_sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : cs) {
      enter(s, c.second, {}, nullptr);
      auto p0 = paths;
      exec(s);
      if (!s.st.empty() || paths != p0 + 1 || !work.empty()) {
        unsupported.insert("static initialiser " + c.second->getName().str());
        return false;
      }
    }
    paths = 0;
    touched.clear();
  }
  enter(s, f, {}, nullptr);
  work.push_back(s);
  exploreAll();
  return true;
}
