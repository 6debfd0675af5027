#pragma once
#include "state.h"
#include <chrono>
#include <functional>
#include <set>
#include <unordered_map>
enum Res { SAT, UNSAT, UNK };
struct PathEnd { std::string why; };
struct Obl {
  std::string kind, where, msg;
  unsigned count = 0, failed = 0, unknown = 0;
  double time = 0;
};
struct Violation {
  std::string kind, where, msg;
  std::vector<std::string> inputs; // replay lines
  std::vector<std::string> trace;
  bool cut = false; // found under a loop abstraction
};
struct LoopCut;
struct Engine {
  llvm::Module *M = nullptr;
  llvm::DataLayout const *DL = nullptr;
  // options
  double timeout = 600;
  unsigned solverMs = 60000;
  unsigned maxIter = 4000;
  unsigned firstMs = 300, lazyReuse = 200, incMs = 2000, mode = 0;
  unsigned part = 0;
  bool stopFirst = true;
  bool useCuts = true;
  bool verbose = false;
  unsigned heapAlign = 0;
  // results
  std::map<std::string, Obl> obls;
  std::vector<Violation> viols;
  std::set<std::string> bounded, unsupported, unknowns, touched, trusted, covers, stubsUsed, assumptions;
  std::map<std::string, std::string> loopStatus; // loop -> unrolled / invariant(...)
  uint64_t paths = 0, killed = 0, queries = 0, cacheHits = 0, instrs = 0;
  double solverTime = 0;
  std::map<std::string, unsigned> backend;
  std::chrono::steady_clock::time_point t0;
  bool timedOut = false;
  // memory
  std::map<uint64_t, ObjP> gobjs;
  std::map<llvm::GlobalValue const *, uint64_t> gaddr;
  std::map<uint64_t, llvm::Function *> faddr;
  std::map<uint64_t, llvm::GlobalVariable *> gvByAddr;
  llvm::DenseMap<llvm::Function *, FnInfo *> finfo;
  std::vector<State> work;
  LoopCut *cut = nullptr;

  // engine.cpp
  void setup();
  bool runHarness(std::string const &name);
  void exploreAll();
  void exec(State &s);             // run one path to its end (may push forks)
  void step(State &s);
  FnInfo *info(llvm::Function *f);
  // solver
  Res solveAll(std::vector<Ex> const &pc, Ex const *q, ModelRef &m);
  Res check(State const &s, Val const &q, ModelRef *m, bool obligation = false);
  Res checkPC(std::vector<Ex> const &pc, Ex const &q, ModelRef *m, bool obligation, ModelRef const &old);
  bool evalModel(ModelRef const &m, Val const &v, APInt &out);
  bool may(State &s, Val const &c, ModelRef *m = nullptr);
  bool must(State &s, Val const &c);
  void assume(State &s, Val const &c, bool knownFeasible, ModelRef const &m);
  void kill(char const *why) { throw PathEnd{why}; }
  // obligations
  void oblig(State &s, Val const &c, std::string kind, std::string msg);
  void settle(State &s, ModelRef &m, Ex const *q = nullptr); ///< ends the path when it is infeasible after all; m satisfies the whole path condition afterwards
  void settle(State &s) { settle(s, s.model); }
  void violate(State &s, ModelRef const &m, std::string kind, std::string msg);
  std::string const &where(State const &s);
  struct Place { std::string inner, repo; };
  std::unordered_map<void const *, Place> places;                  // the text of each source location met
  std::unordered_map<std::string const *, Obl *> memObls; // the access obligation of each place
  void addCond(State &s, Val const &c);
  // values
  Val reg(State &s, llvm::Value *v);
  void setReg(State &s, llvm::Value *v, Val x);
  Val constant(State *s, llvm::Constant *c);
  Val undef(State *s, llvm::Type *t);
  Val fresh(State &s, unsigned w, char const *tag);
  Val concretize(State &s, Val const &v, llvm::Value *from, unsigned limit);
  // memory
  uint64_t allocSmall(State *s, uint64_t size, uint64_t align);
  ObjP newObj(State &s, Val size, char kind, std::string name, bool uninit, unsigned symAlignBits = 0);
  void freeObj(State &s, uint64_t rstart);
  ObjP find(State &s, uint64_t addr);
  Obj &wobj(State &s, ObjP const &o);
  ObjP resolve(State &s, Val &ptr, Val const &n, llvm::Value *pv, char const *what, Val *off);
  Val loadBytes(State &s, Content const &c, Val const &off, unsigned n);
  Val loadByte(State &s, Content const &c, Val const &off);
  void storeBytes(State &s, Obj &o, Val const &off, Val const &v);
  Val load(State &s, Val ptr, llvm::Type *t, llvm::Value *pv);
  void store(State &s, Val ptr, Val v, llvm::Type *t, llvm::Value *pv);
  void memcopy(State &s, Val dst, Val src, Val n, llvm::Value *dv, llvm::Value *sv);
  void memfill(State &s, Val dst, Val byte, Val n, llvm::Value *dv);
  void initConst(Obj &o, uint64_t off, llvm::Constant *c);
  void putConc(Obj &o, uint64_t off, APInt const &v);
  std::string cstr(State &s, Val p, size_t max = 200);
  // control
  void jump(State &s, llvm::BasicBlock *to);
  void enter(State &s, llvm::Function *f, std::vector<Val> args, llvm::CallBase *cb);
  void ret(State &s, Val v);
  void unwind(State &s, Exc e);
  void call(State &s, llvm::CallBase &cb);
  bool external(State &s, llvm::CallBase &cb, llvm::Function *f, std::vector<Val> &args);
  bool copyStub(State &s, llvm::CallBase &cb, Val to, Val from, Val n, char const *stub = "vfstub_memcpy"); // a copy of symbolic length is given to the stub, if there is one
  bool intrinsic(State &s, llvm::CallBase &cb, llvm::Function *f, std::vector<Val> &args);
  void finishCall(State &s, llvm::CallBase &cb, Val r);
  void throwStd(State &s, char const *ti);
  void fork(State const &s) { work.push_back(s); }
  // loop cuts
  bool loopHeader(State &s, llvm::BasicBlock *from, llvm::BasicBlock *to);
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
};
std::string demangle(std::string const &);
