#include "engine.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
using namespace llvm;
char const *trapName(unsigned h);

bool Engine::intrinsic(State &s, CallBase &cb, Function *f, std::vector<Val> &a) {
  auto done = [&](Val r) { finishCall(s, cb, r); return true; };
  switch (f->getIntrinsicID()) {
  case Intrinsic::lifetime_start:
  case Intrinsic::lifetime_end:
  case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value:
  case Intrinsic::dbg_label:
  case Intrinsic::invariant_end:
  case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::stackrestore:
  case Intrinsic::assume:
  case Intrinsic::donothing:
  case Intrinsic::prefetch:
  case Intrinsic::var_annotation: return done({});
  case Intrinsic::invariant_start: return done(Val::con(64, 0));
  case Intrinsic::stacksave: return done(Val::con(64, 0));
  case Intrinsic::expect: return done(a[0]);
  case Intrinsic::launder_invariant_group:
  case Intrinsic::strip_invariant_group: return done(a[0]);
  case Intrinsic::is_constant: return done(Val::con(1, 0));
  case Intrinsic::objectsize: return done(Val::con(APInt::getAllOnes(cb.getType()->getIntegerBitWidth())));
  case Intrinsic::ubsantrap: {
    settle(s);
    violate(s, s.model, "undefined-behaviour", trapName(a[0].u()));
    kill("trap");
  }
  case Intrinsic::trap: {
    settle(s);
    violate(s, s.model, "unreachable", "control reaches a trap");
    kill("trap");
  }
  case Intrinsic::memcpy:
  case Intrinsic::memmove:
  case Intrinsic::memcpy_inline: {
    Val n = a[2].w < 64 ? vZExt(a[2], 64) : a[2];
    if (f->getIntrinsicID() == Intrinsic::memcpy && !n.isVal(0)) {
      // C requires disjoint operands; identical operands are tolerated (clang emits them for struct copies)
      Val dis = vOr(vEq(a[0], a[1]), vOr(vUle(vAdd(a[0], n), a[1]), vUle(vAdd(a[1], n), a[0])));
      if (!n.isCon()) dis = vOr(dis, vEq(n, Val::con(64, 0)));
      oblig(s, dis, "overlap", "memcpy operands do not overlap");
    }
    if (copyStub(s, cb, a[0], a[1], n)) return true;
    memcopy(s, a[0], a[1], n, cb.getArgOperand(0), cb.getArgOperand(1));
    return done({});
  }
  case Intrinsic::memset: {
    Val n = a[2].w < 64 ? vZExt(a[2], 64) : a[2];
    if (copyStub(s, cb, a[0], vZExt(a[1], 32), n, "vfstub_memset")) return true;
    memfill(s, a[0], a[1], n, cb.getArgOperand(0));
    return done({});
  }
  case Intrinsic::umin: return done(vIte(vUlt(a[0], a[1]), a[0], a[1]));
  case Intrinsic::umax: return done(vIte(vUlt(a[0], a[1]), a[1], a[0]));
  case Intrinsic::smin: return done(vIte(vSlt(a[0], a[1]), a[0], a[1]));
  case Intrinsic::smax: return done(vIte(vSlt(a[0], a[1]), a[1], a[0]));
  case Intrinsic::abs: return done(vIte(vSlt(a[0], Val::con(a[0].w, 0)), vSub(Val::con(a[0].w, 0), a[0]), a[0]));
  case Intrinsic::bswap: {
    unsigned n = a[0].w / 8;
    Val r      = vExtract(a[0], 0, 8);
    for (unsigned i = 1; i < n; ++i) r = vConcat(r, vExtract(a[0], 8 * i, 8));
    return done(r);
  }
  case Intrinsic::bitreverse: {
    Val r = vExtract(a[0], 0, 1);
    unsigned w = a[0].w;
    if (a[0].isCon()) return done(Val::con(a[0].c.reverseBits()));
    for (unsigned i = 1; i < w; ++i) r = vConcat(r, vExtract(a[0], i, 1));
    return done(r);
  }
  case Intrinsic::ctpop: {
    if (a[0].isCon()) return done(Val::con(a[0].w, a[0].c.popcount()));
    Val r = Val::con(a[0].w, 0);
    for (unsigned i = 0; i < a[0].w; ++i) r = vAdd(r, vZExt(vExtract(a[0], i, 1), a[0].w));
    return done(r);
  }
  case Intrinsic::ctlz: {
    if (a[0].isCon()) return done(Val::con(a[0].w, a[0].c.countLeadingZeros()));
    unsigned w = a[0].w;
    Val r      = Val::con(w, w);
    for (unsigned i = 0; i < w; ++i) r = vIte(vEq(vExtract(a[0], i, 1), Val::con(1, 1)), Val::con(w, w - 1 - i), r);
    return done(r);
  }
  case Intrinsic::cttz: {
    if (a[0].isCon()) return done(Val::con(a[0].w, a[0].c.countTrailingZeros()));
    unsigned w = a[0].w;
    Val r      = Val::con(w, w);
    for (int i = w - 1; i >= 0; --i) r = vIte(vEq(vExtract(a[0], i, 1), Val::con(1, 1)), Val::con(w, i), r);
    return done(r);
  }
  case Intrinsic::fshl:
  case Intrinsic::fshr: {
    unsigned w = a[0].w;
    Val sh     = vURem(a[2], Val::con(w, w));
    Val wide   = vConcat(a[0], a[1]), s2 = vZExt(sh, 2 * w);
    if (f->getIntrinsicID() == Intrinsic::fshl) return done(vExtract(vShl(wide, s2), w, w));
    return done(vExtract(vLShr(wide, s2), 0, w));
  }
  case Intrinsic::uadd_with_overflow: { Val r = vAdd(a[0], a[1]); return done(Val::agg({r, vUlt(r, a[0])})); }
  case Intrinsic::usub_with_overflow: return done(Val::agg({vSub(a[0], a[1]), vUlt(a[0], a[1])}));
  case Intrinsic::umul_with_overflow: {
    unsigned w = a[0].w;
    Val r      = vMul(vZExt(a[0], 2 * w), vZExt(a[1], 2 * w));
    return done(Val::agg({vTrunc(r, w), vNe(vExtract(r, w, w), Val::con(w, 0))}));
  }
  case Intrinsic::sadd_with_overflow:
  case Intrinsic::ssub_with_overflow: {
    unsigned w = a[0].w;
    Val x = vSExt(a[0], w + 1), y = vSExt(a[1], w + 1);
    Val r = f->getIntrinsicID() == Intrinsic::sadd_with_overflow ? vAdd(x, y) : vSub(x, y);
    Val t = vTrunc(r, w);
    return done(Val::agg({t, vNe(vSExt(t, w + 1), r)}));
  }
  case Intrinsic::smul_with_overflow: {
    unsigned w = a[0].w;
    Val r      = vMul(vSExt(a[0], 2 * w), vSExt(a[1], 2 * w));
    Val t      = vTrunc(r, w);
    return done(Val::agg({t, vNe(vSExt(t, 2 * w), r)}));
  }
  case Intrinsic::uadd_sat: { Val r = vAdd(a[0], a[1]); return done(vIte(vUlt(r, a[0]), Val::con(APInt::getAllOnes(r.w)), r)); }
  case Intrinsic::usub_sat: return done(vIte(vUlt(a[0], a[1]), Val::con(a[0].w, 0), vSub(a[0], a[1])));
  default: break;
  }
  if (f->getIntrinsicID() == Intrinsic::eh_typeid_for) return done(Val::con(32, a[0].u() & 0x7fffffff));
  if (f->getIntrinsicID() == Intrinsic::fabs) return done(vAnd(a[0], Val::con(APInt::getSignedMaxValue(a[0].w))));
  if (f->getIntrinsicID() == Intrinsic::is_fpclass) {
    unsigned m = a[1].u();
    unsigned w = a[0].w;
    unsigned eb = w == 64 ? 11 : 8, mb = w == 64 ? 52 : 23;
    Val sgn = vExtract(a[0], w - 1, 1), ex = vExtract(a[0], mb, eb), ma = vExtract(a[0], 0, mb);
    Val neg = vEq(sgn, Val::con(1, 1)), ex1 = vEq(ex, Val::con(APInt::getAllOnes(eb))), ex0 = vEq(ex, Val::con(eb, 0)), m0 = vEq(ma, Val::con(mb, 0));
    Val q = vEq(vExtract(a[0], mb - 1, 1), Val::con(1, 1));
    Val nan = vAnd(ex1, vNot(m0)), inf = vAnd(ex1, m0), zero = vAnd(ex0, m0), sub = vAnd(ex0, vNot(m0)), nor = vAnd(vNot(ex0), vNot(ex1));
    Val r = Val::con(1, 0);
    auto add = [&](unsigned bit, Val c) { if (m & bit) r = vOr(r, c); };
    add(1, vAnd(nan, vNot(q))); add(2, vAnd(nan, q)); add(4, vAnd(inf, neg)); add(8, vAnd(nor, neg)); add(0x10, vAnd(sub, neg)); add(0x20, vAnd(zero, neg));
    add(0x40, vAnd(zero, vNot(neg))); add(0x80, vAnd(sub, vNot(neg))); add(0x100, vAnd(nor, vNot(neg))); add(0x200, vAnd(inf, vNot(neg)));
    return done(r);
  }
  return false;
}

bool Engine::external(State &s, CallBase &cb, Function *f, std::vector<Val> &a) {
  StringRef n = f->getName();
  auto done   = [&](Val r) { finishCall(s, cb, r); return true; };
  if (n.starts_with("vf_")) {
    if (n == "vf_u") {
      unsigned w = a[1].u();
      std::string nm = cstr(s, a[0]);
      Val v      = freshVal(w, "in" + std::to_string(s.inputs.size()) + "_" + nm + "_" + std::to_string(w));
      Input in;
      in.name = nm; in.kind = 'v'; in.w = w; in.v = v;
      s.inputs.push_back(in);
      return done(vZExt(v, 64));
    }
    if (n == "vf_range") {
      std::string nm = cstr(s, a[0]);
      Val v = freshVal(64, "in" + std::to_string(s.inputs.size()) + "_" + nm + "_r64");
      Input in;
      in.name = nm; in.kind = 'v'; in.w = 64; in.v = v;
      s.inputs.push_back(in);
      assume(s, vAnd(vUle(a[1], v), vUle(v, a[2])), false, {});
      return done(v);
    }
    if (n == "vf_part") return done(Val::con(32, a[0].u() ? part % a[0].u() : 0));
    if (n == "vf_bytes") {
      std::string nm = cstr(s, a[2]);
      if (!a[1].isCon()) { unsupported.insert("vf_bytes with symbolic size"); kill("vf"); }
      uint64_t k = a[1].u();
      Input in;
      in.name = nm; in.kind = 'b'; in.v = a[1];
      Val off;
      if (k) {
        ObjP o = resolve(s, a[0], a[1], nullptr, "write", &off);
        Obj &w = wobj(s, o);
        for (uint64_t i = 0; i < k; ++i) {
          Val b = freshVal(8, "in" + std::to_string(s.inputs.size()) + "_" + nm + "_b" + std::to_string(i));
          in.bytes.push_back(b);
          storeBytes(s, w, vAdd(off, Val::con(64, i)), b);
        }
      }
      s.inputs.push_back(in);
      return done({});
    }
    if (n == "vf_buffer") {
      std::string nm = cstr(s, a[1]);
      Val size = a[0];
      ObjP o;
      Input in;
      in.name = nm; in.kind = 'b'; in.v = size;
      in.arr  = freshArray("in" + std::to_string(s.inputs.size()) + "_" + nm + "_arr");
      o       = newObj(s, size, 'h', nm, true);
      o->c.base = in.arr;
      s.inputs.push_back(in);
      return done(o->base);
    }
    if (n == "vf_assume") {
      Val c = a[0].w == 1 ? a[0] : vNe(a[0], Val::con(a[0].w, 0));
      assume(s, c, false, {});
      return done({});
    }
    if (n == "vf_assert_at") {
      Val c = a[0].w == 1 ? a[0] : vNe(a[0], Val::con(a[0].w, 0));
      oblig(s, c, "ensures", cstr(s, a[1]));
      return done({});
    }
    if (n == "vf_cover") { covers.insert(cstr(s, a[0])); return done({}); }
    if (n == "vf_bounded") { bounded.insert(cstr(s, a[0])); return done({}); }
    if (n == "vf_trusted") { trusted.insert(cstr(s, a[0])); return done({}); }
    if (n == "vf_note") { s.notes.emplace_back(cstr(s, a[0]), a[1]); return done({}); }
    if (n == "vf_symbolic") return done(Val::con(32, 1));
    if (n == "vf_stop") { ++paths; throw PathEnd{"stop"}; }
    if (n == "vf_concretize") { Val v = concretize(s, a[0], nullptr, 4096); return done(v); }
    if (n == "vf_is_concrete") return done(Val::con(32, a[0].isCon()));
    if (n == "vf_unroll") { maxIter = a[0].u(); return done({}); }
    if (n == "vf_opaque") return done(Val::con(64, 0x7000000000000000ull + a[0].u() * 4096));
    if (n == "vf_abstract") return done(Val::con(64, 0x7100000000000000ull + a[0].u() * (1ull << 50)));
    if (n == "vf_give_up") { unsupported.insert(cstr(s, a[0])); kill("given up"); }
    if (n == "vf_heap_align") { heapAlign = a[0].u(); return done({}); }
    if (n == "vf_ite") { Val c = vNe(a[0], Val::con(a[0].w, 0)); return done(vIte(c, a[1], a[2])); }
    if (n == "vf_and") { return done(vZExt(vAnd(vNe(a[0], Val::con(a[0].w, 0)), vNe(a[1], Val::con(a[1].w, 0))), 32)); }
    if (n == "vf_or") { return done(vZExt(vOr(vNe(a[0], Val::con(a[0].w, 0)), vNe(a[1], Val::con(a[1].w, 0))), 32)); }
    if (n == "vf_fresh_object") { // size, kind: contents arbitrary
      ObjP o = newObj(s, a[0], 'h', "object", true);
      return done(o->base);
    }
    return false;
  }
  // dynamic memory
  auto alloc = [&](Val size) { ObjP o = newObj(s, size, 'h', "heap", true, heapAlign); return o->base; };
  if (n == "_Znwm" || n == "_Znam" || n == "malloc") {
    assumptions.insert("memory allocation succeeds");
    return done(alloc(a[0]));
  }
  if (n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "aligned_alloc") { unsupported.insert("aligned allocation"); kill("align"); }
  if (n == "calloc") {
    Val b = alloc(vMul(a[0], a[1]));
    memfill(s, b, Val::con(8, 0), vMul(a[0], a[1]), nullptr);
    return done(b);
  }
  if (n == "_ZdlPv" || n == "_ZdaPv" || n == "free" || n == "_ZdlPvm" || n == "_ZdaPvm" || n == "_ZdlPvSt11align_val_t") {
    Val p = a[0];
    if (p.isSym()) { // the start of one live block whatever its symbolic base, without enumerating the addresses
      APInt v;
      ObjP o = evalModel(s.model, p, v) ? find(s, v.getZExtValue()) : nullptr;
      Val e  = o && o->kind == 'h' ? vEq(p, o->base) : Val::con(1, 0);
      if (e.isTrue() || (e.isSym() && must(s, e))) p = o->base;
      else p = concretize(s, p, nullptr, 64);
      if (p.isSym()) {
        auto &ob = obls["free@" + where(s)];
        ob.kind = "free"; ob.where = where(s); ob.msg = "only live heap blocks are freed, at their start"; ob.count++;
        freeObj(s, o->rstart);
        return done({});
      }
    }
    if (p.isVal(0)) return done({});
    ObjP o = p.isCon() ? find(s, p.u()) : nullptr;
    auto &ob = obls["free@" + where(s)];
    ob.kind = "free"; ob.where = where(s); ob.msg = "only live heap blocks are freed, at their start"; ob.count++;
    bool ok = false;
    if (o && o->kind == 'h') { Val e = vEq(p, o->base); ok = e.isTrue() || (o->base.isSym() && must(s, e)); }
    if (!ok) {
      ob.failed++;
      settle(s);
    violate(s, s.model, "free", o ? "free of a pointer that is not a live heap block start" : "free of an invalid or already freed pointer");
      kill("free");
    }
    freeObj(s, o->rstart);
    return done({});
  }
  // C++ runtime
  if (n == "__cxa_allocate_exception") { ObjP o = newObj(s, a[0], 'x', "exception", true); return done(o->base); }
  if (n == "__cxa_free_exception") return done({});
  if (n == "__cxa_throw") { unwind(s, Exc{a[0], a[1]}); return true; }
  if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") {
    if (n == "__cxa_begin_catch")
      for (auto it = s.inflight.rbegin(); it != s.inflight.rend(); ++it)
        if (a[0].isCon() && it->first == a[0].u()) { s.caught.push_back(it->second); break; }
    return done(a[0]);
  }
  if (n == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return done({}); }
  if (n == "__cxa_rethrow") { Exc e = s.caught.back(); unwind(s, e); return true; }
  if (n == "__cxa_atexit" || n == "atexit") return done(Val::con(32, 0));
  if (n == "__cxa_guard_acquire") { Val b = load(s, a[0], Type::getInt8Ty(M->getContext()), nullptr); return done(vZExt(vEq(b, Val::con(8, 0)), 32)); }
  if (n == "__cxa_guard_release") { store(s, a[0], Val::con(8, 1), Type::getInt8Ty(M->getContext()), nullptr); return done({}); }
  if (n == "_ZNSt3pmr15memory_resourceD2Ev" || n == "_ZNSt3pmr15memory_resourceD1Ev") return done({}); // out of line, empty
  if (n == "__cxa_guard_abort") return done({});
  if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "__cxa_call_unexpected" || n == "__assert_fail") {
    settle(s);
    violate(s, s.model, "exception", "the program terminates abnormally (" + n.str() + ")");
    kill("terminate");
  }
  if (f->isDeclaration()) {
    static std::map<std::string, char const *> thr = {
      {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"},   {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
      {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
      {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},     {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"},
      {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"},
      {"_ZSt26__throw_bad_variant_accessPKc", "_ZTISt18bad_variant_access"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
      {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}};
    auto it = thr.find(n.str());
    if (it != thr.end()) { throwStd(s, it->second); return true; }
    std::string d = demangle(n.str());
    auto has = [&](char const *x) { return d.find(x) != std::string::npos; };
    // std exception constructors/destructors and iostream initialisation carry no observable state for the contracts
    if ((has("std::") && (has("_error::") || has("invalid_argument::") || has("out_of_range::") || has("exception::"))) || has("std::ios_base::Init")) return done({});
    if (n == "__errno_location") { // one static errno
      auto *g = M->getNamedGlobal("vf_errno");
      if (g) return done(Val::con(64, gaddr[g]));
    }
  }
  if ((n == "memcpy" || n == "memmove") && copyStub(s, cb, a[0], a[1], a[2])) return true;
  if (n == "memcpy" || n == "memmove") { memcopy(s, a[0], a[1], a[2], cb.getArgOperand(0), cb.getArgOperand(1)); return done(a[0]); }
  if (n == "memset" && copyStub(s, cb, a[0], a[1], a[2], "vfstub_memset")) return true;
  if (n == "memset") { memfill(s, a[0], vTrunc(a[1], 8), a[2], cb.getArgOperand(0)); return done(a[0]); }
  return false;
}
