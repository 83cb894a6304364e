// A small property-based testing engine: cases are tapes (header words + operation records), generated from a seeded
// PRNG, interpreted leniently by case functions, shrunk by delta debugging, replayed from files.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t u32() { return static_cast<uint32_t>(next() >> 32); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
};

inline uint64_t mix64(uint64_t a, uint64_t b) {
  uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t hash_str(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

constexpr int kHdr = 48;
constexpr int kOpW = 6;
struct Op { uint32_t w[kOpW]; };
struct Tape {
  uint32_t hdr[kHdr];
  std::vector<Op> ops;
};

// Thrown by case functions when an oracle of the property under check fails.
struct Violation {
  std::string tag;
  std::string msg;
};
// Thrown by the library's logger (see FatalLogger in sim.h / unit harness).
struct Fatal {
  std::string msg;
};

struct Ctx {
  const Tape& t;
  std::string prop;        // the property this run decides
  bool verbose = false;
  // results
  bool nontrivial = false;
  uint64_t sig = 0;        // behaviour signature, for counting distinct cases
  uint64_t events = 0;     // work units inside the case (calls into the library)
  std::map<std::string, uint64_t> labels;
  std::string summary;     // human-readable short description, filled in by the case
  std::string halted;      // non-empty: last fatal message (informational)

  explicit Ctx(const Tape& tape, const std::string& p) : t(tape), prop(p) {}
  void label(const char* l, uint64_t n = 1) { labels[l] += n; }
  void mix(uint64_t v) { sig = mix64(sig, v); }
  uint32_t h(int i) const { return t.hdr[i % kHdr]; }
  [[noreturn]] void fail(const std::string& tag, const std::string& msg) { throw Violation{tag, msg}; }
};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

using CaseFn = void (*)(Ctx&);
struct CheckDef {
  std::string prop;
  CaseFn fn;
  int min_ops, max_ops;         // number of operation records per generated case
  uint64_t quick, thorough;     // number of cases
  std::string rule;             // how cases are made and what makes one non-trivial
  std::string variant;          // informational
};
void register_check(const CheckDef& d);
const CheckDef* find_check(const std::string& prop);
extern bool g_sanitize;  // the run decides C31: format every log line, render everything
struct Reg {
  explicit Reg(const CheckDef& d) { register_check(d); }
};

// Per-thread seed used by the interposed std::random_device.
extern thread_local uint32_t g_case_seed;

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_CHECK_DEF(...) static ::pbt::Reg PBT_CAT(reg_, __LINE__){::pbt::CheckDef{__VA_ARGS__}}
