#include "engine.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <unistd.h>
using namespace llvm;

namespace {
struct CacheEnt { Res r; ModelRef m; };
std::map<std::vector<unsigned>, CacheEnt> qcache;
std::vector<Ex> keepAlive;

bool hasArrayOrUF(std::vector<Ex> const &es, bool &fp) {
  // any uninterpreted symbol of non-BV/Bool sort or arity > 0
  bool arr = false;
  std::set<unsigned> seen;
  std::vector<Ex> st(es.begin(), es.end());
  while (!st.empty()) {
    Ex e = st.back(); st.pop_back();
    if (!seen.insert(e.id()).second) continue;
    if (Z3_get_ast_kind(C, e) != Z3_APP_AST) continue;
    Z3_app a = Z3_to_app(C, e);
    auto d = Z3_get_app_decl(C, a);
    auto k = Z3_get_decl_kind(C, d);
    unsigned n = Z3_get_app_num_args(C, a);
    if (k >= Z3_OP_FPA_RM_NEAREST_TIES_TO_EVEN && k <= Z3_OP_FPA_BV2RM) fp = true;
    if (k == Z3_OP_SELECT) arr = true;
    if (k == Z3_OP_UNINTERPRETED && n > 0) arr = true;
    for (unsigned i = 0; i < n; ++i) st.emplace_back(Z3_get_app_arg(C, a, i));
  }
  return arr;
}
Z3_solver mk(bool arr, unsigned ms, int variant, bool fp = false) {
  Z3_solver s;
  if (fp) s = Z3_mk_solver(C); // the solvers for the bit vector logics do not know floating point.
  else if (variant == 1) s = Z3_mk_simple_solver(C);
  else s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, arr ? "QF_AUFBV" : "QF_BV"));
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C);
  Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
  return s;
}
// values of nw for the symbols in `vars` (the slice that was solved), everything else from old. Restricting nw matters:
// a cached model may carry values of unrelated symbols which belong to another state.
ModelRef mergeModel(ModelRef const &old, ModelRef const &nw, std::set<unsigned> const &vars) {
  Z3_model m = Z3_mk_model(C);
  ModelRef r(m);
  std::set<unsigned> have;
  auto copy = [&](Z3_model src, bool all) {
    unsigned n = Z3_model_get_num_consts(C, src);
    for (unsigned i = 0; i < n; ++i) {
      Z3_func_decl d = Z3_model_get_const_decl(C, src, i);
      unsigned id = Z3_get_ast_id(C, Z3_func_decl_to_ast(C, d));
      if ((!all && !vars.count(id)) || !have.insert(id).second) continue;
      Ex v(Z3_model_get_const_interp(C, src, d));
      if (v) Z3_add_const_interp(C, m, d, v);
    }
    n = Z3_model_get_num_funcs(C, src);
    for (unsigned i = 0; i < n; ++i) {
      Z3_func_decl d = Z3_model_get_func_decl(C, src, i);
      unsigned id = Z3_get_ast_id(C, Z3_func_decl_to_ast(C, d));
      if ((!all && !vars.count(id)) || !have.insert(id).second) continue;
      Z3_func_interp fi = Z3_model_get_func_interp(C, src, d);
      if (!fi) continue;
      Z3_func_interp_inc_ref(C, fi);
      Ex els(Z3_func_interp_get_else(C, fi));
      if (els) {
        Z3_func_interp nf = Z3_add_func_interp(C, m, d, els);
        Z3_func_interp_inc_ref(C, nf);
        unsigned k = Z3_func_interp_get_num_entries(C, fi);
        for (unsigned j = 0; j < k; ++j) {
          Z3_func_entry en = Z3_func_interp_get_entry(C, fi, j);
          Z3_func_entry_inc_ref(C, en);
          Z3_ast_vector av = Z3_mk_ast_vector(C);
          Z3_ast_vector_inc_ref(C, av);
          for (unsigned q = 0; q < Z3_func_entry_get_num_args(C, en); ++q) Z3_ast_vector_push(C, av, Z3_func_entry_get_arg(C, en, q));
          Z3_func_interp_add_entry(C, nf, av, Z3_func_entry_get_value(C, en));
          Z3_ast_vector_dec_ref(C, av);
          Z3_func_entry_dec_ref(C, en);
        }
        Z3_func_interp_dec_ref(C, nf);
      }
      Z3_func_interp_dec_ref(C, fi);
    }
  };
  copy(nw.get(), false);
  if (old) copy(old.get(), true);
  return r;
}
// incremental solver: one guard literal per expression, shared by all queries of the run
struct Inc {
  Z3_solver s = nullptr;
  std::map<unsigned, Ex> guard;  // expression id -> guard literal
  std::map<unsigned, unsigned> owner; // guard id -> expression id
  std::vector<Ex> keep;
  unsigned serial = 0;
  void reset() {
    if (s) Z3_solver_dec_ref(C, s);
    s = nullptr;
    guard.clear();
    owner.clear();
    keep.clear();
  }
  Ex lit(Ex const &e) {
    auto it = guard.find(e.id());
    if (it != guard.end()) return it->second;
    std::string n = "g!" + std::to_string(serial++);
    Ex g(Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), Z3_mk_bool_sort(C)));
    Ex imp(Z3_mk_implies(C, g, e));
    Z3_solver_assert(C, s, imp);
    guard[e.id()] = g;
    owner[g.id()] = e.id();
    keep.push_back(e);
    keep.push_back(g);
    return g;
  }
  Res check(std::vector<Ex> const &es, unsigned ms, ModelRef &mr, std::vector<unsigned> &core) {
    if (guard.size() > 600) reset();
    if (!s) {
      s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_BV"));
      Z3_solver_inc_ref(C, s);
    }
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    std::vector<Z3_ast> as;
    for (auto &e : es) as.push_back(lit(e));
    auto lr = Z3_solver_check_assumptions(C, s, as.size(), as.data());
    if (lr == Z3_L_TRUE) { mr = ModelRef(Z3_solver_get_model(C, s)); return SAT; }
    if (lr == Z3_L_FALSE) {
      Z3_ast_vector v = Z3_solver_get_unsat_core(C, s);
      Z3_ast_vector_inc_ref(C, v);
      for (unsigned i = 0; i < Z3_ast_vector_size(C, v); ++i) core.push_back(owner[Z3_get_ast_id(C, Z3_ast_vector_get(C, v, i))]);
      Z3_ast_vector_dec_ref(C, v);
      std::sort(core.begin(), core.end());
      return UNSAT;
    }
    reset();
    return UNK;
  }
} inc;
std::map<unsigned, std::vector<std::vector<unsigned>>> cores; // query id -> unsatisfiable sets containing it
Res cvc5Check(std::vector<Ex> const &es, double secs) {
  char path[] = "/tmp/vfq_XXXXXX.smt2";
  int fd = mkstemps(path, 5);
  if (fd < 0) return UNK;
  std::vector<Z3_ast> as;
  for (auto &e : es) as.push_back(e.a);
  Z3_ast last = as.back();
  std::string txt = Z3_benchmark_to_smtlib_string(C, "q", "ALL", "unknown", "", as.size() - 1, as.data(), last);
  FILE *f = fdopen(fd, "w");
  fputs(txt.c_str(), f);
  fclose(f);
  std::string cmd = "timeout " + std::to_string(int(secs + 1)) + " cvc5 --lang smt2 " + path + " 2>/dev/null";
  Res r = UNK;
  if (FILE *p = popen(cmd.c_str(), "r")) {
    char buf[256];
    while (fgets(buf, sizeof buf, p)) {
      if (!strncmp(buf, "unsat", 5)) r = UNSAT;
      else if (!strncmp(buf, "sat", 3)) r = SAT;
    }
    pclose(p);
  }
  unlink(path);
  return r;
}
} // namespace

Res Engine::checkPC(std::vector<Ex> const &pc, Ex const &q, ModelRef *m, bool obligation, ModelRef const &old) {
  // slice
  std::set<unsigned> vars;
  for (auto v : varsOf(q)) vars.insert(v);
  std::vector<Ex> sl{q};
  std::vector<bool> in(pc.size(), false);
  bool more = true;
  while (more) {
    more = false;
    for (size_t i = 0; i < pc.size(); ++i) {
      if (in[i]) continue;
      auto const &vs = varsOf(pc[i]);
      bool hit = false;
      for (auto v : vs) if (vars.count(v)) { hit = true; break; }
      if (!hit) continue;
      in[i] = true;
      more  = true;
      for (auto v : vs) vars.insert(v);
      sl.push_back(pc[i]);
    }
  }
  std::vector<unsigned> key;
  for (auto &e : sl) key.push_back(e.id());
  std::sort(key.begin(), key.end());
  key.push_back(q.id());
  auto it = qcache.find(key);
  if (it != qcache.end() && (it->second.r != UNK)) {
    ++cacheHits;
    if (it->second.r == SAT && m) *m = mergeModel(old, it->second.m, vars);
    return it->second.r;
  }
  auto s0 = std::chrono::steady_clock::now();
  std::vector<unsigned> ids(key.begin(), key.end() - 1);
  if (auto ci = cores.find(q.id()); ci != cores.end())
    for (auto &c : ci->second)
      if (std::includes(ids.begin(), ids.end(), c.begin(), c.end())) {
        ++cacheHits;
        return UNSAT;
      }
  bool fp = false;
  bool arr = hasArrayOrUF(sl, fp);
  Res r = UNK;
  ModelRef mr;
  double left = timeout - elapsed();
  unsigned budget = std::max(200.0, std::min<double>(solverMs, left * 1000));
  if (!arr && !fp && mode == 1) {
    std::vector<unsigned> core;
    r = inc.check(sl, std::min(budget, incMs), mr, core);
    if (r != UNK) backend["z3-inc"]++;
    if (r == UNSAT && std::binary_search(core.begin(), core.end(), q.id())) { auto &v = cores[q.id()]; if (v.size() < 64) v.push_back(core); }
  }
  // lazy: start from the query, add only path conditions that the model found so far violates
  if (r == UNK && !fp && mode == 0 && sl.size() > 6) {
    static Z3_solver shared = nullptr;
    static unsigned sharedUses = 0;
    if (shared && sharedUses++ > lazyReuse) { Z3_solver_dec_ref(C, shared); shared = nullptr; sharedUses = 0; }
    if (!shared) shared = mk(arr, firstMs, 1);
    Z3_solver s = shared;
    Z3_solver_push(C, s);
    Z3_solver_assert(C, s, sl[0]);
    std::vector<unsigned> used{sl[0].id()};
    std::vector<size_t> rest;
    for (size_t i = sl.size(); i-- > 1;) rest.push_back(i);
    for (int round = 0; round < 60; ++round) {
      auto lr = Z3_solver_check(C, s);
      if (lr == Z3_L_FALSE) {
        r = UNSAT;
        std::sort(used.begin(), used.end());
        auto &v = cores[q.id()];
        if (v.size() < 256) v.push_back(used);
        break;
      }
      if (lr != Z3_L_TRUE) break;
      ModelRef m1(Z3_solver_get_model(C, s)), m2 = mergeModel(old, m1, vars);
      unsigned bad = 0;
      for (size_t j = 0; j < rest.size() && bad < 4;) {
        APInt v;
        if (evalModel(m2, Val::sym(1, sl[rest[j]]), v) && v == 1) { ++j; continue; }
        Z3_solver_assert(C, s, sl[rest[j]]);
        used.push_back(sl[rest[j]].id());
        rest.erase(rest.begin() + j);
        ++bad;
      }
      if (!bad) {
        // a model is believed only when it evaluates to true on everything that was asserted
        bool ok = true;
        for (auto &e : sl) { APInt v; if (!(evalModel(m2, Val::sym(1, e), v) && v == 1)) { ok = false; break; } }
        if (!ok) { backend["model-rejected"]++; break; }
        r = SAT; mr = m2; break;
      }
    }
    if (r != UNK) backend["z3-lazy"]++;
    Z3_solver_pop(C, s, 1);
  }
  for (int variant = 0; variant < 2 && r == UNK; ++variant) {
    Z3_solver s = mk(arr, variant == 0 ? std::min(budget, firstMs) : budget, 1 - variant, fp);
    for (auto &e : sl) Z3_solver_assert(C, s, e);
    auto lr = Z3_solver_check(C, s);
    r = lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNK;
    if (r == SAT) mr = ModelRef(Z3_solver_get_model(C, s));
    if (r == SAT && fp) {
      for (auto &e : sl) { APInt v; if (!(evalModel(mergeModel(old, mr, vars), Val::sym(1, e), v) && v == 1)) { r = UNK; backend["model-rejected"]++; break; } }
    }
    if (r != UNK) backend[variant ? "z3-bv" : "z3-smt"]++;
    Z3_solver_dec_ref(C, s);
    if (elapsed() > timeout) break;
  }
  if (r == UNK && obligation && elapsed() < timeout) {
    Res r5 = cvc5Check(sl, std::min(60.0, timeout - elapsed()));
    if (r5 == UNSAT) { r = UNSAT; backend["cvc5"]++; }
  }
  ++queries;
  if (verbose) {
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - s0).count();
    if (dt > 0.1) fprintf(stderr, "slow query %.3f s result %d of %zu conditions\n", dt, (int)r, sl.size());
  }
  solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - s0).count();
  for (auto &e : sl) keepAlive.push_back(e);
  qcache[key] = {r, mr};
  if (r == SAT && m) *m = mergeModel(old, mr, vars);
  return r;
}
// every condition, no slicing, no cache, a fresh solver
Res Engine::solveAll(std::vector<Ex> const &pc, Ex const *q, ModelRef &m) {
  std::vector<Ex> all(pc);
  if (q) all.push_back(*q);
  bool fpAll = false, arrAll = hasArrayOrUF(all, fpAll);
  Z3_solver s = mk(arrAll, std::max(1000.0, std::min<double>(solverMs, (timeout - elapsed()) * 1000)), 0, fpAll);
  for (auto &e : all) Z3_solver_assert(C, s, e);
  auto lr = Z3_solver_check(C, s);
  if (lr == Z3_L_TRUE) m = ModelRef(Z3_solver_get_model(C, s));
  Z3_solver_dec_ref(C, s);
  return lr == Z3_L_TRUE ? SAT : lr == Z3_L_FALSE ? UNSAT : UNK;
}
Res Engine::check(State const &s, Val const &q, ModelRef *m, bool obligation) {
  if (q.isFalse()) return UNSAT;
  if (q.isTrue()) { if (m) *m = s.model; return SAT; }
  // fast path: current model
  if (s.model) {
    APInt v;
    if (evalModel(s.model, q, v) && v == 1) { if (m) *m = s.model; return SAT; }
  }
  return checkPC(s.pc, q.e, m, obligation, s.model);
}
bool Engine::evalModel(ModelRef const &m, Val const &v, APInt &out) {
  if (v.isCon()) { out = v.c; return true; }
  if (!m) return false;
  Z3_ast r = nullptr;
  if (!Z3_model_eval(C, m.get(), v.e, true, &r) || !r) return false;
  Ex e(r);
  if (v.w == 1) {
    auto b = Z3_get_bool_value(C, e);
    if (b == Z3_L_UNDEF) { e = Ex(Z3_simplify(C, e)); b = Z3_get_bool_value(C, e); }
    if (b == Z3_L_UNDEF) return false;
    out = APInt(1, b == Z3_L_TRUE);
    return true;
  }
  if (!isNumeral(e, out, v.w)) {
    e = Ex(Z3_simplify(C, e));
    return isNumeral(e, out, v.w);
  }
  return true;
}
bool Engine::may(State &s, Val const &c, ModelRef *m) {
  Res r = check(s, c, m);
  if (r == UNK) unknowns.insert("feasibility query undecided at " + where(s));
  return r != UNSAT;
}
bool Engine::must(State &s, Val const &c) {
  if (c.isCon()) return c.isTrue();
  return check(s, vNot(c), nullptr, true) == UNSAT;
}
void Engine::addCond(State &s, Val const &c) {
  if (c.isCon()) return;
  // conjunctions are kept as separate conditions
  std::vector<Ex> st{c.e};
  while (!st.empty()) {
    Ex e = st.back();
    st.pop_back();
    Z3_app a = Z3_to_app(C, e);
    auto k = Z3_get_decl_kind(C, Z3_get_app_decl(C, a));
    if (k == Z3_OP_AND) {
      for (unsigned i = 0; i < Z3_get_app_num_args(C, a); ++i) st.emplace_back(Z3_get_app_arg(C, a, i));
      continue;
    }
    if (k == Z3_OP_NOT) { // not (or ...)
      Ex in(Z3_get_app_arg(C, a, 0));
      Z3_app b = Z3_to_app(C, in);
      if (Z3_get_decl_kind(C, Z3_get_app_decl(C, b)) == Z3_OP_OR) {
        for (unsigned i = 0; i < Z3_get_app_num_args(C, b); ++i) st.emplace_back(Z3_mk_not(C, Z3_get_app_arg(C, b, i)));
        continue;
      }
    }
    bool have = false;
    for (auto &x : s.pc) if (x.same(e)) { have = true; break; }
    if (!have) s.pc.push_back(e);
  }
}
void Engine::assume(State &s, Val const &c, bool known, ModelRef const &m) {
  if (c.isTrue()) return;
  if (c.isFalse()) kill("assume false");
  APInt v;
  if (evalModel(s.model, c, v) && v == 1) { addCond(s, c); return; }
  if (known && m) { addCond(s, c); s.model = m; return; }
  ModelRef nm;
  Res r = check(s, c, &nm);
  if (r == UNSAT) kill("infeasible");
  if (r == UNK) { unknowns.insert("assumption undecided at " + where(s)); kill("unknown"); }
  addCond(s, c);
  s.model = nm;
}
