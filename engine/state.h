#pragma once
#include "expr.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/ADT/DenseMap.h"
#include <optional>

struct ModelRef {
  std::shared_ptr<_Z3_model> m;
  ModelRef() = default;
  ModelRef(Z3_model x) { if (x) { Z3_model_inc_ref(C, x); m = std::shared_ptr<_Z3_model>(x, [](Z3_model y) { Z3_model_dec_ref(C, y); }); } }
  explicit operator bool() const { return (bool)m; }
  Z3_model get() const { return m.get(); }
};

struct Byte {
  bool conc    = true;
  uint8_t c    = 0;
  uint16_t idx = 0; // byte index into e
  uint16_t n   = 0; // total bytes of e
  Ex e;             // BV of 8*n bits
};
struct Content;
struct Upd {
  enum K { ST, CPY, SET } k;
  Val off;    // destination offset, 64 bit
  Val v;      // 8-bit value for ST / SET
  std::shared_ptr<const Content> src;
  Val srcoff, n;
  std::shared_ptr<const Upd> prev;
};
struct Content {
  std::shared_ptr<std::vector<Byte>> bytes; // concrete size base, copy on write
  Ex base;                                  // array base when bytes is null
  std::shared_ptr<const Upd> head;          // updates over the base
};
struct Obj {
  uint64_t rstart = 0, rsize = 0;
  Val base, size;
  Content c;
  bool writable = true;
  char kind     = 'h'; // g lobal, s tack, h eap, e external
  std::string name;
};
using ObjP = std::shared_ptr<Obj>;

struct FnInfo {
  llvm::DenseMap<llvm::Value const *, unsigned> slot;
  unsigned n = 0;
  llvm::DenseMap<llvm::BasicBlock const *, unsigned> headers; // loop header -> loop index
  llvm::DenseMap<llvm::BasicBlock const *, std::vector<llvm::BasicBlock const *>> loopBlocks;
};

struct Frame {
  llvm::Function *f    = nullptr;
  FnInfo *fi           = nullptr;
  llvm::BasicBlock *bb = nullptr, *prev = nullptr;
  llvm::BasicBlock::iterator it;
  std::vector<Val> regs;
  std::vector<uint64_t> allocas;
  llvm::CallBase *call = nullptr;
  std::map<llvm::BasicBlock const *, unsigned> iters;
  std::map<llvm::BasicBlock const *, int> cuts; // active loop cut ids
  bool ctor = false;
};

struct Input {
  std::string name;
  char kind; // 'v' value, 'b' byte block
  unsigned w = 0;
  Val v;     // value, or size for 'b'
  Ex arr;    // array for 'b'
  std::vector<Val> bytes;
};
struct Exc { Val obj; Val ti; };

struct State {
  std::vector<Frame> st;
  std::map<uint64_t, ObjP> objs;
  std::map<uint64_t, std::string> dead;
  std::vector<Ex> pc;
  ModelRef model;
  uint64_t nextSmall = 0, nextBig = 0;
  unsigned fresh     = 0;
  std::vector<Input> inputs;
  std::vector<Exc> caught;
  std::vector<std::pair<uint64_t, Exc>> inflight; // exception object address -> info
  uint64_t steps  = 0;
  unsigned forks  = 0;
  std::vector<std::string> trace;
  // loop-cut machinery
  int mode = 0;
  unsigned ghost = 0;
  std::vector<std::pair<std::string, Val>> notes;
};
