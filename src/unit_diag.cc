// C37: status values and log lines arrive unchanged.
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <optional>
#include <thread>

#include "src/logger.h"
#include "src/status.h"
#include "unit.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

using namespace pbt;
using namespace craft;

namespace {

std::string text(Rng& g, size_t cap) {
  size_t n = g.below(5) == 0 ? g.below(cap) : g.below(24);
  if (cap > 1030 && g.below(6) == 0) n = 1018 + g.below(12);  // around the size at which messages are cut
  std::string s;
  for (size_t i = 0; i < n; i++) s += (char)(g.below(5) ? 'a' + g.below(26) : g.below(2) ? ' ' : '%');
  return s;
}

// ---- status values against (verdict, text) pairs
constexpr int kSlots = 5;
struct Ref {
  bool ok = true;
  std::string s = "OK";
  bool operator==(const Ref& o) const { return ok == o.ok && s == o.s; }
};
Ref look(const Status& s) { return Ref{s.IsOK(), s.Str()}; }
Status by_value(Status s) { return s; }
std::tuple<int, Status> in_tuple(Status s) { return std::make_tuple(1, std::move(s)); }

using Slots = std::array<std::optional<Status>, kSlots>;

// One operation on real statuses; `texts` are prepared so that a run allocates nothing but statuses.
void apply(Slots& s, const Op& op, const std::string& t) {
  Status &a = *s[op.w[1] % kSlots], &b = *s[op.w[2] % kSlots];
  switch (op.w[0] % 12) {
    case 0: a = Status::Error("%s", t.c_str()); break;
    case 1: a = Status::Error("%d:%s:%llu", (int)op.w[3], t.c_str(), (unsigned long long)op.w[4] << 20); break;
    case 2: case 3: a = b; break;
    case 4: { Status c(b); a = c; break; }
    case 5: if (&a != &b) a = std::move(b); break;
    case 6: { Status c(std::move(b)); b = Status::OK(); a = std::move(c); break; }
    case 7: a = by_value(b); break;
    case 8: { auto [n, c] = in_tuple(b); a = c; break; }
    case 9: std::swap(a, b); break;
    case 10: { size_t k = op.w[1] % kSlots; s[k].reset(); s[k].emplace(); break; }
    default: a = Status::OK(); break;
  }
}
// What the operation means. Moved-from statuses have some valid value, which is taken from the real one.
void apply(std::array<Ref, kSlots>& r, const Op& op, const std::string& t, const Slots& real) {
  size_t x = op.w[1] % kSlots, y = op.w[2] % kSlots;
  Ref &a = r[x], &b = r[y];
  auto err = [](std::string s) { return Ref{false, s.substr(0, 1023)}; };
  switch (op.w[0] % 12) {
    case 0: a = err(t); break;
    case 1: a = err(std::to_string((int)op.w[3]) + ":" + t + ":" + std::to_string((unsigned long long)op.w[4] << 20)); break;
    case 2: case 3: case 4: case 7: case 8: a = b; break;
    case 5: if (x != y) { a = b; b = look(*real[y]); } break;
    case 6: if (x == y) break; a = b; b = Ref(); break;
    case 9: std::swap(a, b); break;
    default: a = Ref(); break;
  }
}

void status_case(Ctx& c) {
  Rng g(mix64(c.h(1), c.h(2)));
  std::vector<std::string> ts;
  for (size_t i = 0; i < c.t.ops.size(); i++) ts.push_back(text(g, 3000));
  {
    Slots s;
    for (auto& x : s) x.emplace();
    std::array<Ref, kSlots> r;
    int errors = 0, longs = 0;
    for (size_t i = 0; i < c.t.ops.size(); i++) {
      auto& op = c.t.ops[i];
      apply(s, op, ts[i]);
      apply(r, op, ts[i], s);
      c.events++;
      errors += op.w[0] % 12 < 2;
      longs += op.w[0] % 12 < 2 && ts[i].size() > 1023;
      for (int k = 0; k < kSlots; k++)
        if (!(look(*s[k]) == r[k]))
          c.fail("status", fmt("after operation %zu (%u on %u and %u) status %d is %s '%s' instead of %s '%s'", i, op.w[0] % 12, op.w[1] % kSlots, op.w[2] % kSlots, k,
                               s[k]->IsOK() ? "ok" : "an error", s[k]->Str(), r[k].ok ? "ok" : "an error", r[k].s.c_str()));
      c.mix(hash_str(r[op.w[1] % kSlots].s));
    }
    if (longs) c.label("cut");
    c.nontrivial = errors >= 2;
  }
  if (__sanitizer_get_current_allocated_bytes) {
    ssize_t left = 0;
    bool always = true;
    for (int run = 0; run < 2; run++) {
      size_t before = __sanitizer_get_current_allocated_bytes();
      {
        Slots s;
        for (auto& x : s) x.emplace();
        for (size_t i = 0; i < c.t.ops.size(); i++) apply(s, c.t.ops[i], ts[i]);
      }
      size_t after = __sanitizer_get_current_allocated_bytes();
      left = (ssize_t)(after - before);
      always = always && left != 0;
    }
    if (always) c.fail("leak", fmt("%zd bytes are left behind by statuses that are all gone", left));
    c.label("leak_check");
  }
  c.label("status");
  c.summary = fmt("%zu operations on %d statuses", c.t.ops.size(), kSlots);
}

// ---- level filter
const LogLevel kLevels[] = {LogLevel::kDebug, LogLevel::kInfo, LogLevel::kWarning, LogLevel::kError, LogLevel::kFatal};
const char* kNames[] = {"DEBUG", "INFO", "WARNING", "ERROR", "FATAL"};

void emit(Logger* lg, int level, const char* tag, unsigned n, const std::string& t) {
  switch (level) {
    case 0: CRAFT_LOG_DEBUG(lg, "%s %u %s.", tag, n, t.c_str()); break;
    case 1: CRAFT_LOG_INFO(lg, "%s %u %s.", tag, n, t.c_str()); break;
    case 2: CRAFT_LOG_WARNING(lg, "%s %u %s.", tag, n, t.c_str()); break;
    case 3: CRAFT_LOG_ERROR(lg, "%s %u %s.", tag, n, t.c_str()); break;
    default: CRAFT_LOG_FATAL(lg, "%s %u %s.", tag, n, t.c_str()); break;
  }
}
std::string line(const char* tag, unsigned n, const std::string& t) { return std::string(tag) + " " + std::to_string(n) + " " + t + "."; }

struct Sink : Logger {
  explicit Sink(LogLevel l) : Logger(l) {}
  std::vector<std::pair<int, std::string>> got;
  void Logv(LogLevel level, const char* format, va_list ap) override {
    char b[8192];
    vsnprintf(b, sizeof b, format, ap);
    got.push_back({(int)level, b});
  }
};

void filter_case(Ctx& c) {
  Rng g(mix64(c.h(1), c.h(2)));
  int level = c.h(3) % 5;
  Sink lg(kLevels[level]);
  std::vector<std::pair<int, std::string>> want;
  unsigned n = 0, dropped = 0;
  for (auto& op : c.t.ops) {
    c.events++;
    if (op.w[0] % 4 == 0) {
      level = op.w[1] % 5;
      lg.SetLogLevel(kLevels[level]);
    } else {
      int l = op.w[1] % 5;
      std::string t = text(g, 3000);
      emit(&lg, l, "L", ++n, t);
      if (l >= level) want.push_back({l, line("L", n, t)});
      else dropped++;
    }
    if (lg.GetLogLevel() != kLevels[level]) c.fail("level", fmt("the level is %d instead of %d", (int)lg.GetLogLevel(), level));
    if (lg.got != want) c.fail("filter", fmt("with level %d: %zu lines arrived, %zu expected; the last one was '%s' of level %d", level, lg.got.size(), want.size(),
                                             lg.got.empty() ? "" : lg.got.back().second.c_str(), lg.got.empty() ? -1 : lg.got.back().first));
    c.mix(want.size() * 8 + level);
  }
  c.nontrivial = dropped && !want.empty();
  c.label("filter");
  c.summary = fmt("%zu lines passed on, %u held back", want.size(), dropped);
}

// ---- the console logger
struct Capture {  // stdout goes to a file in memory
  int mem, saved;
  Capture() {
    fflush(stdout);
    mem = memfd_create("log", MFD_CLOEXEC);
    saved = dup(1);
    dup2(mem, 1);
  }
  std::string end() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    return take();
  }
  std::string take() {
    std::string s;
    lseek(mem, 0, SEEK_SET);
    char b[65536];
    for (ssize_t n; (n = read(mem, b, sizeof b)) > 0;) s.append(b, n);
    close(mem);
    return s;
  }
};
// Lines without colours.
std::vector<std::string> lines_of(const std::string& s) {
  std::string p;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '\x1b') {
      while (i < s.size() && s[i] != 'm') i++;
      continue;
    }
    p += s[i];
  }
  std::vector<std::string> v;
  size_t a = 0;
  for (size_t e; (e = p.find('\n', a)) != std::string::npos; a = e + 1) v.push_back(p.substr(a, e - a));
  if (a < p.size()) v.push_back(p.substr(a));
  return v;
}

struct Job { int level; unsigned n; std::string t; };

void console_case(Ctx& c) {
  Rng g(mix64(c.h(1), c.h(2)));
  int level = c.h(3) % 5, threads = 1 + c.h(4) % 4, opn = c.t.ops.size();
  bool fatal = c.h(5) % 4 == 0;
  std::vector<std::vector<Job>> jobs(threads);
  for (int i = 0; i < opn; i++) {
    auto& op = c.t.ops[i];
    auto& q = jobs[op.w[0] % threads];
    std::string t = text(g, 600);
    q.push_back({(int)(op.w[1] % 4), (unsigned)q.size() + 1, t});
  }
  static const char* kTag[] = {"A", "B", "C", "D"};
  std::string last = text(g, 300);
  auto talk = [&] {
    ConsoleLogger lg(kLevels[level]);
    std::vector<std::thread> th;
    std::atomic<int> ready{0};
    for (int k = 0; k < threads; k++)
      th.emplace_back([&, k] {
        ready++;
        while (ready < threads) std::this_thread::yield();
        for (auto& j : jobs[k]) emit(&lg, j.level, kTag[k], j.n, j.t);
      });
    for (auto& t : th) t.join();
    if (fatal) emit(&lg, 4, "F", 1, last);
  };
  // Unbuffered, every piece of a line is a system call of its own.
  fflush(stdout);
  setvbuf(stdout, nullptr, c.h(6) % 2 ? _IONBF : c.h(6) % 4 ? _IOLBF : _IOFBF, c.h(6) % 2 ? 0 : BUFSIZ);
  std::string raw;
  if (!fatal) {
    Capture cap;
    talk();
    raw = cap.end();
  } else {
    Capture cap;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      rlimit no{0, 0};
      setrlimit(RLIMIT_CORE, &no);
      signal(SIGABRT, SIG_DFL);
      sigset_t s;
      sigemptyset(&s);
      sigprocmask(SIG_SETMASK, &s, nullptr);
      alarm(30);
      talk();
      _exit(42);
    }
    int st = 0;
    waitpid(p, &st, 0);
    raw = cap.end();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) c.fail("fatal-goes-on", "the process goes on after a fatal line");
    if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) c.fail("fatal-end", fmt("the process does not end by an abort after a fatal line (status %x)", st));
    c.label("fatal");
  }
  auto got = lines_of(raw);
  size_t want = 0;
  std::vector<size_t> at(threads, 0);
  auto next = [&](int k) -> const Job* {
    while (at[k] < jobs[k].size() && jobs[k][at[k]].level < level) at[k]++;
    return at[k] < jobs[k].size() ? &jobs[k][at[k]] : nullptr;
  };
  int inter = 0, prev = -1;
  for (auto& l : got) {
    c.events++;
    if (fatal && &l == &got.back() && l == "[FATAL] " + line("F", 1, last)) { want++; continue; }
    size_t b = l.find("] ");
    int k = b == std::string::npos || b + 2 >= l.size() ? -1 : l[b + 2] - 'A';
    const Job* j = k >= 0 && k < threads ? next(k) : nullptr;
    if (!j || l != std::string("[") + kNames[j->level] + "] " + line(kTag[k], j->n, j->t))
      c.fail("line", "the console shows '" + l.substr(0, 300) + "'" + (j ? ", expected [" + std::string(kNames[j->level]) + "] " + line(kTag[k], j->n, j->t).substr(0, 300) : ""));
    at[k]++;
    want++;
    if (prev >= 0 && prev != k) inter++;
    prev = k;
  }
  for (int k = 0; k < threads; k++)
    if (auto* j = next(k)) c.fail("missing", fmt("line %u of thread %d (level %d, logger level %d) is missing", j->n, k, j->level, level));
  if (fatal && (got.empty() || got.back() != "[FATAL] " + line("F", 1, last))) c.fail("fatal-line", "the process ended without having written its fatal line");
  if (inter) c.label("interleaved");
  c.label("console");
  c.mix(mix64(got.size(), level * 16 + threads));
  c.nontrivial = fatal || (threads > 1 && got.size() >= 4);
  c.summary = fmt("%d threads, level %d, %zu lines, %d changes of thread%s", threads, level, got.size(), inter, fatal ? ", then a fatal line" : "");
}

void diag_case(Ctx& c) {
  switch (c.h(0) % 8) {
    case 0: console_case(c); break;
    case 1: case 2: filter_case(c); break;
    default: status_case(c); break;
  }
}

PBT_CHECK_DEF("C37", diag_case, 5, 80, 40000, 1000000,
              "case = up to 80 creations, copies, assignments, moves, swaps and destructions of statuses with messages up to 3000 characters, against "
              "(verdict, text) pairs and the allocator's balance; or log lines of all levels under changing thresholds against a list; or one to four threads "
              "writing to the console logger, possibly ending in a fatal line in a child process, against each thread's list. "
              "Non-trivial: two errors made; lines passed on and held back; several threads or a fatal line.",
              "asan");

}  // namespace
