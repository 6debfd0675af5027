// Native implementation of the contract language: replays recorded inputs or draws random ones.
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <random>
#include <unistd.h>
#include <dlfcn.h>
struct Rec { std::string name; char kind; unsigned long long w; std::string hex; };
static std::vector<Rec> recs;
static size_t pos;
static bool replay = false;
static std::mt19937_64 rng;
static std::vector<std::string> log_;
struct VfEnd { int rc; };
static unsigned part_;
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" {
static void out_of_inputs(char const *n) {
  if (replay) { fprintf(stderr, "VF-REPLAY: input '%s' not in the replay file\n", n); throw VfEnd{78}; }
}
uint64_t vf_u(char const *name, unsigned bits) {
  uint64_t v = 0;
  if (replay) {
    if (pos >= recs.size()) out_of_inputs(name);
    v = strtoull(recs[pos++].hex.c_str(), nullptr, 16);
  } else {
    switch (rng() % 6) {
    case 0: v = rng() % 4; break;
    case 1: v = rng() % 16; break;
    case 2: v = ~0ull - rng() % 4; break;
    case 3: v = 1ull << (rng() % 64); break;
    case 4: v = rng() % 256; break;
    default: v = rng();
    }
  }
  if (bits < 64) v &= (1ull << bits) - 1;
  char b[200];
  snprintf(b, sizeof b, "%s v %u %llx", name, bits, (unsigned long long)v);
  log_.push_back(b);
  return v;
}
static void fill(unsigned char *p, size_t n, char const *name) {
  if (replay) {
    if (pos >= recs.size()) out_of_inputs(name);
    auto &r = recs[pos++];
    for (size_t i = 0; i < n && 2 * i + 1 < r.hex.size(); ++i) p[i] = (unsigned char)strtoul(r.hex.substr(2 * i, 2).c_str(), nullptr, 16);
  } else {
    static char const alpha[] = "0123456789abcdefABCDEFxX.:/-+[]{}%,= ggzz";
    int mode = rng() % 3;
    for (size_t i = 0; i < n; ++i) p[i] = mode == 0 ? rng() : mode == 1 ? "0123456789.:-/"[rng() % 14] : alpha[rng() % (sizeof(alpha) - 1)];
  }
  std::string h;
  char b[4];
  for (size_t i = 0; i < n && i < 4096; ++i) { snprintf(b, sizeof b, "%02x", p[i]); h += b; }
  log_.push_back(std::string(name) + " b " + std::to_string(n) + " " + (h.empty() ? "-" : h));
}
void vf_bytes(void *p, size_t n, char const *name) { fill((unsigned char *)p, n, name); }
void *vf_buffer(size_t n, char const *name) {
  if (n > (1u << 24)) { if (replay) fprintf(stderr, "VF-REPLAY: buffer too large to replay\n"); throw VfEnd{78}; }
  unsigned char *p = (unsigned char *)malloc(n);
  fill(p, n, name);
  return p;
}
static void dump() { for (auto &l : log_) fprintf(stderr, "VF-INPUT %s\n", l.c_str()); }
void vf_assume(int c) { if (!c) { if (replay) fprintf(stderr, "VF-ASSUME-FALSE\n"); throw VfEnd{77}; } }
void vf_assert_at(int c, char const *what) {
  if (!c) { fprintf(stderr, "VF-VIOLATED: %s\n", what); dump(); _exit(99); }
}
void vf_cover(char const *) {}
void vf_bounded(char const *) {}
void vf_trusted(char const *) {}
void vf_note(char const *n, uint64_t v) { if (replay) fprintf(stderr, "VF-NOTE %s = 0x%llx\n", n, (unsigned long long)v); }
int vf_symbolic() { return 0; }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_unroll(unsigned) {}
void *vf_abstract(unsigned k) { return (void *)(0x710000000000ull + k * 4096ull); }
void vf_give_up(char const *) { vf_stop(); }
void *vf_opaque(unsigned k) { return (void *)(0x700000000000ull + k * 4096ull); }
void vf_heap_align(unsigned) {}
uint64_t vf_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int vf_and(int a, int b) { return a && b; }
int vf_or(int a, int b) { return a || b; }
void vf_stop() { throw VfEnd{0}; }
unsigned vf_part(unsigned n) { return part_ % n; }
uint64_t vf_range(char const *name, uint64_t lo, uint64_t hi) {
  if (replay) { uint64_t v = vf_u(name, 64); vf_assume(v >= lo && v <= hi); return v; }
  uint64_t span = hi - lo, v;
  switch (rng() % 4) {
  case 0: v = lo + (span < 3 ? rng() % (span + 1) : rng() % 4); break;
  case 1: v = hi - (span < 3 ? rng() % (span + 1) : rng() % 4); break;
  case 2: { uint64_t most = (uint64_t(1) << (rng() % 12)) - 1; v = lo + rng() % ((most < span ? most : span) + 1); break; }
  default: v = span + 1 ? lo + rng() % (span + 1) : rng();
  }
  char b[200];
  snprintf(b, sizeof b, "%s v 64 %llx", name, (unsigned long long)v);
  log_.push_back(b);
  return v;
}
}
// usage: prog <harness> [--part k] --replay FILE | --seed N [--rounds R]
int main(int argc, char **argv) {
  unsigned long seed = 1, rounds = 1;
  if (argc < 2) return 2;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--part") part_ = atoi(argv[i + 1]);
    else if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--rounds") rounds = strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--replay") {
      replay = true;
      std::ifstream f(argv[i + 1]);
      std::string line;
      while (std::getline(f, line)) {
        if (line.rfind("INPUT ", 0) != 0) continue;
        std::istringstream is(line.substr(6));
        Rec r;
        std::string k;
        std::vector<std::string> ws; // a name can have blanks: the last three words are the value
        for (std::string x; is >> x;) ws.push_back(x);
        if (ws.size() < 4) continue;
        size_t q = ws.size();
        k = ws[q - 3]; r.w = strtoul(ws[q - 2].c_str(), nullptr, 10); r.hex = ws[q - 1];
        r.kind = k[0];
        if (r.hex == "-") r.hex = "";
        recs.push_back(r);
      }
    }
  }
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!fn) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump);
  int rc = 0;
  for (unsigned long r = 0; r < rounds; ++r) {
    log_.clear();
    pos = 0;
    rng.seed(seed * 1000003 + r);
    rc = 0;
    try { fn(); }
    catch (VfEnd &e) { rc = e.rc; }
    catch (...) { fprintf(stderr, "VF-VIOLATED: uncaught exception\n"); dump(); _exit(99); }
  }
  return rc;
}
