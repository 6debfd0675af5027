#include "engine.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <fstream>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
int selftestExpr(unsigned n, unsigned seed);
int main(int argc, char **argv) {
  Z3_config cfg = Z3_mk_config();
  C             = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); });
  rlimit rl{1ul << 30, 1ul << 30};
  setrlimit(RLIMIT_STACK, &rl);
  std::string mod, fn, out, list;
  Engine E;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto nx       = [&] { return std::string(argv[++i]); };
    if (a == "--fn") fn = nx();
    else if (a == "--out") out = nx();
    else if (a == "--timeout") E.timeout = std::stod(nx());
    else if (a == "--solver-ms") E.solverMs = std::stoul(nx());
    else if (a == "--mode") E.mode = std::stoul(nx());
    else if (a == "--lazy-reuse") E.lazyReuse = std::stoul(nx());
    else if (a == "--inc-ms") E.incMs = std::stoul(nx());
    else if (a == "--max-iter") E.maxIter = std::stoul(nx());
    else if (a == "--part") E.part = std::stoul(nx());
    else if (a == "--no-cuts") E.useCuts = false;
    else if (a == "--all") E.stopFirst = false;
    else if (a == "-v") E.verbose = true;
    else if (a == "--list") list = "1";
    else if (a == "--selftest-expr") return selftestExpr(std::stoul(nx()), 1);
    else mod = a;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(mod, err, ctx);
  if (!M) { err.print("vfengine", errs()); return 2; }
  if (!list.empty()) {
    for (auto &f : *M)
      if (f.getName().starts_with("vc_") && !f.isDeclaration()) outs() << f.getName() << "\n"; 
    return 0;
  }
  E.M = M.get();
  E.setup();
  bool ok = true;
  std::string crash;
  try { ok = E.runHarness(fn); } catch (PathEnd &p) { ok = false; crash = p.why; }
  if (!ok) E.unsupported.insert("harness aborted " + crash);
  json::Object o;
  auto arr = [](std::set<std::string> const &s) { json::Array a; for (auto &x : s) a.push_back(x); return a; };
  o["harness"]     = fn;
  o["paths"]       = int64_t(E.paths);
  o["killed"]      = int64_t(E.killed);
  o["queries"]     = int64_t(E.queries);
  o["cache_hits"]  = int64_t(E.cacheHits);
  o["instructions"] = int64_t(E.instrs);
  o["solver_s"]    = E.solverTime;
  o["wall_s"]      = E.elapsed();
  o["timeout"]     = E.timedOut;
  o["bounded"]     = arr(E.bounded);
  o["unsupported"] = arr(E.unsupported);
  o["unknown"]     = arr(E.unknowns);
  o["functions"]   = arr(E.touched);
  o["trusted"]     = arr(E.trusted);
  o["assumptions"] = arr(E.assumptions);
  o["covers"]      = arr(E.covers);
  o["stubs"]       = arr(E.stubsUsed);
  json::Object be;
  for (auto &b : E.backend) be[b.first] = int64_t(b.second);
  o["backend"] = std::move(be);
  json::Object ls;
  for (auto &b : E.loopStatus) ls[b.first] = b.second;
  o["loops"] = std::move(ls);
  json::Array obs;
  for (auto &p : E.obls) {
    auto &b = p.second;
    if (!b.count && !b.failed && !b.unknown) continue;
    obs.push_back(json::Object{{"kind", b.kind}, {"where", b.where}, {"what", b.msg}, {"instances", int64_t(b.count)}, {"failed", int64_t(b.failed)}, {"unknown", int64_t(b.unknown)}, {"time", b.time}});
  }
  o["obligations"] = std::move(obs);
  json::Array vs;
  for (auto &v : E.viols) {
    json::Array in, tr;
    for (auto &x : v.inputs) in.push_back(x);
    for (auto &x : v.trace) tr.push_back(x);
    vs.push_back(json::Object{{"kind", v.kind}, {"where", v.where}, {"what", v.msg}, {"inputs", std::move(in)}, {"trace", std::move(tr)}, {"abstract", v.cut}});
  }
  o["violations"] = std::move(vs);
  std::string txt;
  raw_string_ostream os(txt);
  os << formatv("{0:2}", json::Value(std::move(o))) << "\n";
  if (out.empty()) { outs() << os.str(); outs().flush(); }
  else { std::ofstream f(out); f << os.str(); }
  _exit(0);
}
