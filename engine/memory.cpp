#include "engine.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
using namespace llvm;

static uint64_t rup(uint64_t v, uint64_t a) { return (v + a - 1) / a * a; }

ObjP Engine::newObj(State &s, Val size, char kind, std::string name, bool uninit, unsigned symAlign) {
  auto o  = std::make_shared<Obj>();
  o->kind = kind;
  o->name = name;
  o->size = size;
  bool big = !(size.isCon() && size.c.ult(1u << 20));
  if (big) {
    o->rstart = (s.nextBig += (uint64_t(1) << 46));
    if (s.nextBig >= (uint64_t(1) << 62)) { unsupported.insert("too many large objects"); kill("big"); }
    o->rsize = uint64_t(1) << 46;
    o->base  = Val::con(64, o->rstart + (1u << 20) + 16);
    if (!size.isCon()) {
      assumptions.insert("objects are at most 2^40 bytes");
      Val lim = vUle(size, Val::con(64, uint64_t(1) << 40));
      if (!must(s, lim)) assume(s, lim, false, {});
    }
    o->c.base = freshArray("mem" + std::to_string(s.fresh++));
  } else {
    uint64_t n = size.u();
    o->rstart  = s.nextSmall;
    o->rsize   = rup(n, 4096) + 4096;
    s.nextSmall += o->rsize;
    o->base    = Val::con(64, o->rstart + 1024 + 16);
    auto v     = std::make_shared<std::vector<Byte>>(n);
    if (uninit && n) {
      Ex arr = freshArray("un" + std::to_string(s.fresh++));
      o->c.base  = arr;
      for (uint64_t i = 0; i < n; ++i) { (*v)[i].conc = false; (*v)[i].idx = 0; (*v)[i].n = 0; } // n==0: lazily select(base,i)
    }
    o->c.bytes = v;
  }
  if (symAlign) {
    Val x   = fresh(s, symAlign, "align");
    Val off = vShl(vZExt(x, 64), Val::con(64, 4));
    o->base = vAdd(Val::con(64, o->rstart + 1024), off);
    if (!big) { uint64_t extra = rup(uint64_t(16) << symAlign, 4096); o->rsize += extra; s.nextSmall += extra; }
  }
  s.objs[o->rstart] = o;
  return o;
}
void Engine::freeObj(State &s, uint64_t r) {
  auto it = s.objs.find(r);
  if (it == s.objs.end()) return;
  s.objs.erase(it);
}
ObjP Engine::find(State &s, uint64_t a) {
  auto look = [&](std::map<uint64_t, ObjP> &m) -> ObjP {
    auto it = m.upper_bound(a);
    if (it == m.begin()) return nullptr;
    --it;
    if (a - it->second->rstart < it->second->rsize) return it->second;
    return nullptr;
  };
  if (auto o = look(s.objs)) return o;
  return look(gobjs);
}
Obj &Engine::wobj(State &s, ObjP const &o) {
  auto &slot = s.objs[o->rstart];
  if (!slot || slot.use_count() > 2 || slot != o) { // the caller holds one reference
    auto n = std::make_shared<Obj>(*(slot ? slot : o));
    slot   = n;
  }
  return *slot;
}
ObjP Engine::resolve(State &s, Val &ptr, Val const &n, Value *pv, char const *what, Val *off) {
  for (int guard = 0; guard < 64; ++guard) {
    uint64_t a;
    if (ptr.isCon()) a = ptr.u();
    else {
      APInt v;
      if (!evalModel(s.model, ptr, v)) { unsupported.insert("pointer evaluation"); kill("eval"); }
      a = v.getZExtValue();
    }
    ObjP o = find(s, a);
    if (!o) {
      if (a - 0x7100000000000000ull < 1ull << 56) { unsupported.insert("contents of memory which is abstract in this contract"); kill("abstract"); }
      std::string m = std::string(what) + " through " + (a < 4096 ? "a null pointer" : "an invalid or dangling pointer");
      obls["memory@" + where(s)].kind = "memory";
      settle(s);
      violate(s, s.model, "memory", m);
      kill("bad pointer");
    }
    *off    = vSub(ptr, o->base);
    Val inb = vAnd(vUle(n, o->size), vUle(*off, vSub(o->size, n)));
    auto &wh = where(s);
    auto &mo = memObls[&wh];
    if (!mo) mo = &obls["memory@" + wh];
    auto &ob = *mo;
    if (ob.kind.empty()) { ob.kind = "memory"; ob.where = where(s); ob.msg = "in-bounds access to a live object"; }
    if (inb.isTrue()) { ob.count++; return o; }
    double t = solverTime;
    ModelRef m;
    Res r = check(s, vNot(inb), &m, true);
    ob.time += solverTime - t;
    if (r == UNSAT) { ob.count++; return o; }
    if (r == UNK) { ob.unknown++; unknowns.insert("memory@" + where(s)); assume(s, inb, false, {}); return o; }
    if (ptr.isSym()) {
      Val inreg = vUlt(vSub(ptr, Val::con(64, o->rstart)), Val::con(64, o->rsize));
      ModelRef om;
      if (!inreg.isTrue() && may(s, vNot(inreg), &om)) {
        State other = s;
        bool ok     = true;
        try { assume(other, vNot(inreg), true, om); } catch (PathEnd &) { ok = false; }
        if (ok) work.push_back(std::move(other));
        assume(s, inreg, false, {});
        continue;
      }
    }
    ob.count++;
    Ex nb = toBool(vNot(inb));
    settle(s, m, &nb);
    ob.failed++;
    violate(s, m, "memory", std::string(what) + " outside the bounds of object '" + o->name + "'");
    assume(s, inb, false, {});
    return o;
  }
  unsupported.insert("pointer resolution did not converge");
  kill("resolve");
  return nullptr;
}
static Val byteVal(Byte const &b, Ex const &base, uint64_t i) {
  if (b.conc) return Val::con(8, b.c);
  if (b.n == 0) return vSelect(base, Val::con(64, i));
  if (b.n == 1) return Val::sym(8, b.e);
  return vExtract(Val::sym(8 * b.n, b.e), 8 * b.idx, 8);
}
// select among concrete bytes at a symbolic offset in [lo, hi]
static Val tree(std::vector<Byte> const &v, Ex const &base, Val const &off, uint64_t lo, uint64_t hi) {
  if (lo == hi) return byteVal(v[lo], base, lo);
  bool allSame = v[lo].conc;
  for (uint64_t i = lo + 1; allSame && i <= hi; ++i) allSame = v[i].conc && v[i].c == v[lo].c;
  if (allSame) return Val::con(8, v[lo].c);
  uint64_t mid = lo + (hi - lo) / 2;
  Val l = tree(v, base, off, lo, mid), r = tree(v, base, off, mid + 1, hi);
  return vIte(vUle(off, Val::con(64, mid)), l, r);
}
Val Engine::loadByte(State &s, Content const &c, Val const &off) {
  for (auto u = c.head; u; u = u->prev) {
    if (u->k == Upd::ST) {
      Val h = vEq(off, u->off);
      if (h.isTrue()) return u->v;
      if (h.isFalse()) continue;
      Content rest = c;
      rest.head    = u->prev;
      return vIte(h, u->v, loadByte(s, rest, off));
    }
    Val rel = vSub(off, u->off);
    Val h   = vUlt(rel, u->n);
    if (h.isFalse()) continue;
    Val in = u->k == Upd::SET ? u->v : loadByte(s, *u->src, vAdd(rel, u->srcoff));
    if (h.isTrue()) return in;
    Content rest = c;
    rest.head    = u->prev;
    return vIte(h, in, loadByte(s, rest, off));
  }
  if (c.bytes) {
    auto &v = *c.bytes;
    if (off.isCon()) {
      if (off.c.uge(v.size())) return Val::con(8, 0);
      return byteVal(v[off.u()], c.base, off.u());
    }
    if (v.empty()) return Val::con(8, 0);
    APInt hi = umax(off);
    return tree(v, c.base, off, 0, hi.ult(v.size() - 1) ? hi.getZExtValue() : v.size() - 1);
  }
  return vSelect(c.base, off);
}
Val Engine::loadBytes(State &s, Content const &c, Val const &off, unsigned n) {
  if (c.bytes && !c.head && off.isCon()) {
    auto &v    = *c.bytes;
    uint64_t o = off.u();
    bool allc  = true, one = v[o].e && !v[o].conc;
    for (unsigned i = 0; i < n; ++i) {
      Byte const &b = v[o + i];
      if (!b.conc) allc = false;
      if (one && (b.conc || !b.e.same(v[o].e) || b.idx != v[o].idx + i)) one = false;
    }
    if (allc) {
      APInt r(8 * n, 0);
      for (unsigned i = 0; i < n; ++i) r.insertBits(APInt(8, v[o + i].c), 8 * i);
      return Val::con(r);
    }
    if (one) return vExtract(Val::sym(8 * v[o].n, v[o].e), 8 * v[o].idx, 8 * n);
  }
  Val r = loadByte(s, c, off);
  for (unsigned i = 1; i < n; ++i) r = vConcat(loadByte(s, c, vAdd(off, Val::con(64, i))), r);
  return r;
}
void Engine::storeBytes(State &s, Obj &o, Val const &off, Val const &v) {
  unsigned n = v.w / 8;
  if (o.c.bytes && !o.c.head && off.isCon()) {
    if (o.c.bytes.use_count() > 1) o.c.bytes = std::make_shared<std::vector<Byte>>(*o.c.bytes);
    auto &b    = *o.c.bytes;
    uint64_t a = off.u();
    for (unsigned i = 0; i < n; ++i) {
      Byte &x = b[a + i];
      x       = Byte{};
      if (v.isCon()) x.c = v.c.extractBitsAsZExtValue(8, 8 * i);
      else {
        x.conc = false; x.e = v.e; x.idx = i; x.n = n;
      }
    }
    return;
  }
  for (unsigned i = 0; i < n; ++i) {
    auto u  = std::make_shared<Upd>();
    u->k    = Upd::ST;
    u->off  = vAdd(off, Val::con(64, i));
    u->v    = vExtract(v, 8 * i, 8);
    u->prev = o.c.head;
    o.c.head = u;
  }
}
static bool isFloatTy(Type *t) { return t->isFloatTy() || t->isDoubleTy() || t->isX86_FP80Ty(); }
Val Engine::load(State &s, Val ptr, Type *t, Value *pv) {
  if (auto st = dyn_cast<StructType>(t)) {
    auto sl = DL->getStructLayout(st);
    std::vector<Val> r;
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      r.push_back(load(s, vAdd(ptr, Val::con(64, sl->getElementOffset(i))), st->getElementType(i), pv));
    return Val::agg(r);
  }
  if (auto at = dyn_cast<ArrayType>(t)) {
    std::vector<Val> r;
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i) r.push_back(load(s, vAdd(ptr, Val::con(64, i * es)), at->getElementType(), pv));
    return Val::agg(r);
  }
  unsigned n = DL->getTypeStoreSize(t);
  unsigned w = t->isPointerTy() ? 64 : isFloatTy(t) ? (unsigned)t->getPrimitiveSizeInBits() : t->isIntegerTy() ? t->getIntegerBitWidth() : 0;
  if (!w) { unsupported.insert("load of vector type"); kill("load type"); }
  Val off;
  ObjP o = resolve(s, ptr, Val::con(64, n), pv, "read", &off);
  if (off.isSym() && t->isPointerTy() && o->c.bytes) {
    // a table of pointers: fork on the index
    Val c = concretize(s, off, nullptr, 64);
    off   = c;
  }
  Val v = loadBytes(s, o->c, off, n);
  if (v.w != w) v = vTrunc(v, w);
  return v;
}
void Engine::store(State &s, Val ptr, Val v, Type *t, Value *pv) {
  if (auto st = dyn_cast<StructType>(t)) {
    auto sl = DL->getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      store(s, vAdd(ptr, Val::con(64, sl->getElementOffset(i))), (*v.g)[i], st->getElementType(i), pv);
    return;
  }
  if (auto at = dyn_cast<ArrayType>(t)) {
    uint64_t es = DL->getTypeAllocSize(at->getElementType());
    for (uint64_t i = 0; i < at->getNumElements(); ++i) store(s, vAdd(ptr, Val::con(64, i * es)), (*v.g)[i], at->getElementType(), pv);
    return;
  }
  unsigned n = DL->getTypeStoreSize(t);
  Val off;
  ObjP o = resolve(s, ptr, Val::con(64, n), pv, "write", &off);
  if (!o->writable) {
    settle(s);
    violate(s, s.model, "memory", "write to constant object '" + o->name + "'");
    kill("ro");
  }
  if (v.w != 8 * n) v = vZExt(v, 8 * n);
  Obj &w = wobj(s, o);
  storeBytes(s, w, off, v);
}
void Engine::memcopy(State &s, Val dst, Val src, Val n, Value *dv, Value *sv) {
  if (n.isVal(0)) return;
  if (!n.isCon()) {
    Val z = vEq(n, Val::con(64, 0));
    ModelRef m;
    if (may(s, z, &m)) {
      // n may be zero: then neither pointer needs to be valid. Fork.
      if (may(s, vNot(z))) {
        State o = s;
        bool ok = true;
        try { assume(o, z, false, {}); } catch (PathEnd &) { ok = false; }
        if (ok) { o.notes.emplace_back("__memcopy_zero", Val::con(1, 1)); work.push_back(o); }
        assume(s, vNot(z), false, {});
      } else return;
    }
  }
  Val doff, soff;
  ObjP so = resolve(s, src, n, sv, "read", &soff);
  ObjP d  = resolve(s, dst, n, dv, "write", &doff);
  if (!d->writable) { settle(s); violate(s, s.model, "memory", "write to constant object '" + d->name + "'"); kill("ro"); }
  Content snap = so->c;
  if (n.isCon() && soff.isCon() && doff.isCon() && snap.bytes && !snap.head && d->c.bytes && !d->c.head) {
    std::vector<Byte> tmp(snap.bytes->begin() + soff.u(), snap.bytes->begin() + soff.u() + n.u());
    for (size_t i = 0; i < tmp.size(); ++i)
      if (!tmp[i].conc && tmp[i].n == 0) { Val b = byteVal(tmp[i], snap.base, soff.u() + i); tmp[i].e = b.e; tmp[i].n = 1; tmp[i].idx = 0; }
    Obj &w = wobj(s, d);
    if (w.c.bytes.use_count() > 1) w.c.bytes = std::make_shared<std::vector<Byte>>(*w.c.bytes);
    std::copy(tmp.begin(), tmp.end(), w.c.bytes->begin() + doff.u());
    return;
  }
  Obj &w = wobj(s, d);
  if (n.isCon() && n.u() <= 64) {
    std::vector<Val> t;
    for (uint64_t i = 0; i < n.u(); ++i) t.push_back(loadByte(s, snap, vAdd(soff, Val::con(64, i))));
    for (uint64_t i = 0; i < n.u(); ++i) storeBytes(s, w, vAdd(doff, Val::con(64, i)), t[i]);
    return;
  }
  auto u   = std::make_shared<Upd>();
  u->k     = Upd::CPY;
  u->off   = doff;
  u->n     = n;
  u->src   = std::make_shared<Content>(snap);
  u->srcoff = soff;
  u->prev  = w.c.head;
  w.c.head = u;
}
void Engine::memfill(State &s, Val dst, Val b, Val n, Value *dv) {
  if (n.isVal(0)) return;
  if (!n.isCon()) {
    Val z = vEq(n, Val::con(64, 0));
    if (may(s, z)) {
      if (may(s, vNot(z))) {
        State o = s;
        bool ok = true;
        try { assume(o, z, false, {}); } catch (PathEnd &) { ok = false; }
        if (ok) { o.notes.emplace_back("__memcopy_zero", Val::con(1, 1)); work.push_back(o); }
        assume(s, vNot(z), false, {});
      } else return;
    }
  }
  Val off;
  ObjP d = resolve(s, dst, n, dv, "write", &off);
  Obj &w = wobj(s, d);
  if (n.isCon() && off.isCon() && w.c.bytes && !w.c.head) {
    for (uint64_t i = 0; i < n.u(); ++i) storeBytes(s, w, vAdd(off, Val::con(64, i)), b);
    return;
  }
  auto u   = std::make_shared<Upd>();
  u->k     = Upd::SET;
  u->off   = off;
  u->n     = n;
  u->v     = b;
  u->prev  = w.c.head;
  w.c.head = u;
}
void Engine::putConc(Obj &o, uint64_t off, APInt const &v) {
  unsigned n = (v.getBitWidth() + 7) / 8;
  APInt x    = v.zext(n * 8);
  for (unsigned i = 0; i < n; ++i) {
    Byte &b = (*o.c.bytes)[off + i];
    b       = Byte{};
    b.c     = x.extractBitsAsZExtValue(8, 8 * i);
  }
}
void Engine::initConst(Obj &o, uint64_t off, Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto ca = dyn_cast<ConstantStruct>(c)) {
    auto sl = DL->getStructLayout(ca->getType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(o, off + sl->getElementOffset(i), ca->getOperand(i));
    return;
  }
  if (auto ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); ++i) initConst(o, off + i * es, cd->getElementAsConstant(i));
    return;
  }
  Val v = constant(nullptr, c);
  if (v.isCon()) putConc(o, off, v.c);
  (void)t;
}
std::string Engine::cstr(State &s, Val p, size_t max) {
  std::string r;
  if (!p.isCon()) return "?";
  uint64_t a = p.u();
  ObjP o     = find(s, a);
  if (!o || !o->base.isCon()) return "?";
  for (size_t i = 0; i < max; ++i) {
    uint64_t off = a + i - o->base.u();
    if (!o->size.isCon() || off >= o->size.u()) break;
    Val b = loadByte(s, o->c, Val::con(64, off));
    if (!b.isCon() || b.c == 0) break;
    r += char(b.u());
  }
  return r;
}
