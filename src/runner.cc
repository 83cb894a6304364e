// Runs the generated cases of one property: parallel workers, crash isolation, replay, shrinking, result file.
#include "pbt.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <thread>

namespace pbt {
thread_local uint32_t g_case_seed = 1;
std::string fmt(const char* f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}
static std::vector<CheckDef>& checks() {
  static std::vector<CheckDef> v;
  return v;
}
void register_check(const CheckDef& d) { checks().push_back(d); }
const CheckDef* find_check(const std::string& prop) {
  for (auto& c : checks())
    if (c.prop == prop) return &c;
  return nullptr;
}
bool g_sanitize = false;
}  // namespace pbt

// The library seeds its only PRNG from std::random_device; this definition in the executable takes precedence over
// the shared library's, which makes every case a pure function of its tape.
namespace std {
random_device::result_type random_device::_M_getval() {
  pbt::g_case_seed = pbt::g_case_seed * 1664525u + 1013904223u;
  return pbt::g_case_seed;
}
}  // namespace std

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_SAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_SAN 1
#endif
#endif

using namespace pbt;

static double now_s() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static Tape gen_tape(const CheckDef& d, uint64_t seed, uint64_t idx) {
  Rng r(mix64(mix64(seed, hash_str(d.prop)), idx));
  Tape t;
  for (int i = 0; i < kHdr; i++) t.hdr[i] = r.u32();
  // Log-uniform-ish sizes: many small cases, some long ones.
  uint64_t span = d.max_ops > d.min_ops ? d.max_ops - d.min_ops : 0;
  uint64_t k = r.below(4);
  uint64_t lim = k == 0 ? span : k == 1 ? span / 2 : k == 2 ? span / 4 : span;
  size_t n = d.min_ops + r.below(lim + 1);
  t.ops.resize(n);
  for (auto& o : t.ops)
    for (int i = 0; i < kOpW; i++) o.w[i] = r.u32();
  return t;
}

static std::string tape_to_text(const Tape& t) {
  std::ostringstream os;
  os << "hdr";
  for (int i = 0; i < kHdr; i++) os << " " << t.hdr[i];
  os << "\n";
  for (auto& o : t.ops) {
    os << "op";
    for (int i = 0; i < kOpW; i++) os << " " << o.w[i];
    os << "\n";
  }
  return os.str();
}

struct Outcome {
  bool fail = false;
  std::string tag, msg;
  bool nontrivial = false;
  uint64_t sig = 0, events = 0;
  std::map<std::string, uint64_t> labels;
  std::string summary;
};

static Outcome run_case(const CheckDef& d, const Tape& t, bool verbose) {
  Outcome o;
  auto body = [&]() {
    g_case_seed = t.hdr[kHdr - 1] | 1u;
    Ctx c(t, d.prop);
    c.verbose = verbose;
    try {
      d.fn(c);
    } catch (const Violation& v) {
      o.fail = true;
      o.tag = v.tag;
      o.msg = v.msg;
    } catch (const Fatal& f) {
      o.fail = true;
      o.tag = "halt";
      o.msg = "node halted with a fatal error in a legal history: " + f.msg;
    } catch (const std::exception& e) {
      o.fail = true;
      o.tag = "exception";
      o.msg = std::string("unexpected exception: ") + e.what();
    }
    o.nontrivial = c.nontrivial;
    o.sig = c.sig;
    o.events = c.events;
    o.labels.swap(c.labels);
    o.summary.swap(c.summary);
  };
  std::thread th(body);  // a fresh thread: the library's PRNG is thread-local
  th.join();
  return o;
}

static int g_case_cpu_s = 15;
static void arm() {
  struct itimerval it = {};
  it.it_value.tv_sec = g_case_cpu_s;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static void limit_memory() {
#ifndef PBT_SAN
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 3ull << 30;
  setrlimit(RLIMIT_AS, &rl);
#endif
  struct rlimit core = {0, 0};
  setrlimit(RLIMIT_CORE, &core);
}

static void write_all(int fd, const std::string& s) {
  size_t off = 0;
  while (off < s.size()) {
    ssize_t k = write(fd, s.data() + off, s.size() - off);
    if (k <= 0) return;
    off += k;
  }
}
static std::string read_all(int fd) {
  std::string s;
  char buf[65536];
  ssize_t k;
  while ((k = read(fd, buf, sizeof buf)) > 0 || (k < 0 && errno == EINTR))
    if (k > 0) s.append(buf, k);
  return s;
}
static std::string describe_status(int st) {
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGPROF) return "does not terminate (CPU time limit exceeded)";
    return fmt("terminated by signal %d (%s)", sg, strsignal(sg));
  }
  return fmt("process exited with status %d", WEXITSTATUS(st));
}
static std::string tail_file(const std::string& path, size_t n = 3000) {
  std::ifstream f(path);
  std::stringstream ss;
  ss << f.rdbuf();
  std::string s = ss.str();
  // sanitizer reports: keep the head, it names the error
  if (s.size() > n) s = s.substr(0, n);
  return s;
}

// Runs one tape in a forked child. Returns the outcome (crashes are failures).
static Outcome run_forked(const CheckDef& d, const Tape& t, const std::string& errfile, bool verbose = false) {
  int p[2];
  if (pipe(p)) { perror("pipe"); _exit(2); }
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    if (!verbose) {
      int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) { dup2(fd, 2); }
    }
    limit_memory();
    arm();
    Outcome o = run_case(d, t, verbose);
    std::string s = std::string(o.fail ? "F" : "P") + "\n" + o.tag + "\n" + o.msg;
    write_all(p[1], s);
    close(p[1]);
    fflush(stdout);
    _exit(0);
  }
  close(p[1]);
  std::string s = read_all(p[0]);
  close(p[0]);
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || s.empty()) {
    o.fail = true;
    o.tag = WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF ? "hang" : "crash";
    o.msg = describe_status(st);
    std::string e = tail_file(errfile);
    if (!e.empty()) o.msg += "\n" + e;
    return o;
  }
  size_t a = s.find('\n'), b = s.find('\n', a + 1);
  o.fail = s[0] == 'F';
  o.tag = s.substr(a + 1, b - a - 1);
  o.msg = s.substr(b + 1);
  return o;
}

static Tape shrink(const CheckDef& d, Tape t, const std::string& tag, const std::string& errfile, double budget_s,
                   uint64_t* tried) {
  double end = now_s() + budget_s;
  auto still = [&](const Tape& c) {
    if (now_s() > end) return false;
    (*tried)++;
    Outcome o = run_forked(d, c, errfile);
    return o.fail && o.tag == tag;
  };
  // delta debugging over operation records
  size_t chunk = t.ops.size() / 2;
  while (chunk >= 1 && now_s() < end) {
    bool any = false;
    for (size_t i = 0; i < t.ops.size();) {
      Tape c = t;
      size_t j = std::min(i + chunk, c.ops.size());
      c.ops.erase(c.ops.begin() + i, c.ops.begin() + j);
      if (still(c)) {
        t = c;
        any = true;
      } else {
        i += chunk;
      }
      if (now_s() > end) break;
    }
    if (!any) {
      if (chunk == 1) break;
      chunk /= 2;
    } else if (chunk > t.ops.size()) {
      chunk = t.ops.size() ? t.ops.size() : 1;
    }
  }
  // simplify header words and arguments towards zero / small values
  for (int i = 0; i < kHdr - 1 && now_s() < end; i++) {
    if (!t.hdr[i]) continue;
    Tape c = t;
    c.hdr[i] = 0;
    if (still(c)) { t = c; continue; }
    c.hdr[i] = t.hdr[i] % 64;
    if (c.hdr[i] != t.hdr[i] && still(c)) t = c;
  }
  for (size_t k = 0; k < t.ops.size() && now_s() < end; k++)
    for (int i = 1; i < kOpW; i++) {
      if (!t.ops[k].w[i]) continue;
      Tape c = t;
      c.ops[k].w[i] = 0;
      if (still(c)) { t = c; continue; }
      c.ops[k].w[i] = t.ops[k].w[i] % 64;
      if (c.ops[k].w[i] != t.ops[k].w[i] && still(c)) t = c;
    }
  return t;
}

static std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
    else o += c;
  }
  return o + "\"";
}

struct Shared {
  volatile uint64_t cur[64];     // case index + 1 being run by the worker
  volatile uint64_t done[64];
  volatile uint64_t nontriv[64];
  volatile uint64_t events[64];
  volatile int stop;
};

static bool load_replay(const std::string& path, std::string* prop, Tape* t) {
  std::ifstream f(path);
  if (!f) return false;
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "property") is >> *prop;
    else if (k == "hdr") for (int i = 0; i < kHdr; i++) is >> t->hdr[i];
    else if (k == "op") {
      Op o;
      for (int i = 0; i < kOpW; i++) is >> o.w[i];
      t->ops.push_back(o);
    }
  }
  return true;
}

#ifndef PBT_LIBFUZZER
int main(int argc, char** argv) {
  std::string prop, tier = "quick", out, replays = "replays", replay, tmp = "/tmp";
  uint64_t seed = 1, cases = 0;
  int workers = 8;
  double secs = 0;
  bool verbose = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--prop") prop = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") out = val();
    else if (a == "--replays") replays = val();
    else if (a == "--replay") replay = val();
    else if (a == "--tmp") tmp = val();
    else if (a == "--cases") cases = strtoull(val().c_str(), 0, 10);
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--secs") secs = atof(val().c_str());
    else if (a == "-v") verbose = true;
    else if (a == "--list") {
      for (auto& c : checks()) printf("%s\n", c.prop.c_str());
      return 0;
    }
  }
#ifdef PBT_SAN
  g_case_cpu_s = 60;
#endif
  Tape rt;
  if (!replay.empty()) {
    std::string rp;
    if (!load_replay(replay, &rp, &rt)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
    if (prop.empty()) prop = rp;
  }
  const CheckDef* d = nullptr;
  for (auto& c : checks()) if (c.prop == prop) d = &c;
  if (!d) { fprintf(stderr, "no check for property '%s'\n", prop.c_str()); return 2; }
  if (!replay.empty()) {
    Outcome o = run_forked(*d, rt, tmp + "/replay.err", verbose);
    printf("%s %s: %s\n", o.fail ? "FAIL" : "PASS", o.tag.c_str(), o.msg.c_str());
    return o.fail ? 1 : 0;
  }
  double t0 = now_s();
  uint64_t total = cases ? cases : (tier == "thorough" ? d->thorough : d->quick);
  if (secs <= 0) secs = tier == "thorough" ? 1500 : 150;
  if (workers > 64) workers = 64;
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string dir = tmp + fmt("/pbt.%d", getpid());
  mkdir(dir.c_str(), 0755);
  std::vector<pid_t> pids(workers);
  for (int w = 0; w < workers; w++) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      int fd = open((dir + fmt("/err.%d", w)).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      if (fd >= 0) dup2(fd, 2);
      limit_memory();
      std::map<std::string, uint64_t> labels;
      std::vector<uint64_t> sigs;
      std::vector<std::string> samples;
      double end = now_s() + secs;
      int rc = 0;
      std::string failure;
      for (uint64_t i = w; i < total; i += workers) {
        if (sh->stop || now_s() > end) break;
        sh->cur[w] = i + 1;
        arm();
        Tape t = gen_tape(*d, seed, i);
        Outcome o = run_case(*d, t, false);
        sh->done[w]++;
        sh->events[w] += o.events;
        for (auto& l : o.labels) labels[l.first] += 1, labels[l.first + "#"] += l.second;
        if (o.nontrivial) {
          sh->nontriv[w]++;
          sigs.push_back(o.sig);
          if (samples.size() < 2 && !o.summary.empty()) samples.push_back(o.summary);
        }
        if (o.fail) {
          failure = o.tag + "\n" + o.msg;
          rc = 7;
          break;
        }
      }
      std::ofstream f(dir + fmt("/res.%d", w));
      for (auto& l : labels) f << "label " << l.second << " " << l.first << "\n";
      for (auto& s : sigs) f << "sig " << s << "\n";
      for (auto& s : samples) {
        std::string x = s;
        for (auto& ch : x) if (ch == '\n') ch = '\t';
        f << "sample " << x << "\n";
      }
      if (rc) { f << "failure " << failure << "\n"; }
      f.close();
      _exit(rc);
    }
    pids[w] = pid;
  }
  // wait; on the first failing worker stop the others
  int failed_w = -1, failed_st = 0;
  for (int k = 0; k < workers; k++) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int w = -1;
    for (int i = 0; i < workers; i++) if (pids[i] == p) w = i;
    if (w < 0) { k--; continue; }
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && failed_w < 0) {
      failed_w = w;
      failed_st = st;
      sh->stop = 1;
    }
  }
  std::map<std::string, uint64_t> labels;
  std::unordered_set<uint64_t> sigs;
  std::vector<std::string> samples;
  for (int w = 0; w < workers; w++) {
    std::ifstream f(dir + fmt("/res.%d", w));
    std::string line;
    while (std::getline(f, line)) {
      if (line.compare(0, 6, "label ") == 0) {
        char* e;
        uint64_t n = strtoull(line.c_str() + 6, &e, 10);
        labels[e + 1] += n;
      } else if (line.compare(0, 4, "sig ") == 0) sigs.insert(strtoull(line.c_str() + 4, 0, 10));
      else if (line.compare(0, 7, "sample ") == 0 && samples.size() < 4) samples.push_back(line.substr(7));
    }
  }
  uint64_t done = 0, ev = 0;
  for (int w = 0; w < workers; w++) done += sh->done[w], ev += sh->events[w];
  int rc = 0;
  std::string replay_path, msg;
  uint64_t shrink_tries = 0;
  if (failed_w >= 0) {
    uint64_t idx = sh->cur[failed_w] - 1;
    Tape t = gen_tape(*d, seed, idx);
    Outcome first;
    int rep = 0;
    // A multi-threaded case depends on the schedule: one observed failure of an oracle, or one report of the race
    // detector, settles it; repetitions only serve to shrink it.
    const bool racy = d->variant == "tsan" || prop == "C37";
    const bool settled = racy && WIFEXITED(failed_st) && (WEXITSTATUS(failed_st) == 7 || WEXITSTATUS(failed_st) == 97 || WEXITSTATUS(failed_st) == 98);
    const int tries = racy ? 30 : 3;
    for (int i = 0; i < tries && rep < 3; i++) {
      Outcome o = run_forked(*d, t, dir + "/replay.err");
      if (o.fail) { rep++; first = o; }
    }
    fprintf(stderr, "worker %d: %s in case %llu; reproduced %d/%d in isolation\n", failed_w,
            describe_status(failed_st).c_str(), (unsigned long long)idx, rep, tries);
    if (rep == 0 && settled) {
      rc = 1;
      std::ifstream f(WEXITSTATUS(failed_st) == 7 ? dir + fmt("/res.%d", failed_w) : dir + fmt("/err.%d", failed_w));
      std::string line;
      bool on = WEXITSTATUS(failed_st) != 7;
      size_t lines = 0;
      while (std::getline(f, line) && lines < 40) {
        if (line.compare(0, 8, "failure ") == 0) on = true;
        if (on) { msg += line + "\n"; lines++; }
      }
      msg += fmt("(seen once in case %llu of seed %llu; depends on the schedule of the threads)", (unsigned long long)idx, (unsigned long long)seed);
    } else if (rep == 0) {
      // Depends on what ran before it in the same process (memory corruption?): rerun the worker's whole sequence.
      int again = 0;
      for (int i = 0; i < 2; i++) {
        pid_t pid = fork();
        if (pid == 0) {
          int fd = open((dir + "/rerun.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
          if (fd >= 0) dup2(fd, 2);
          limit_memory();
          for (uint64_t k = failed_w; k <= idx; k += workers) {
            arm();
            Outcome o = run_case(*d, gen_tape(*d, seed, k), false);
            if (o.fail) _exit(7);
          }
          _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) again++;
      }
      if (again) {
        rc = 1;
        msg = fmt("fails (%s) when the cases %d,%d+%d,...,%llu of seed %llu run in one process", describe_status(failed_st).c_str(),
                  failed_w, failed_w, workers, (unsigned long long)idx, (unsigned long long)seed);
      } else {
        fprintf(stderr, "NOT REPRODUCIBLE: not reported\n");
      }
    } else {
      rc = 1;
      t = shrink(*d, t, first.tag, dir + "/replay.err", tier == "thorough" ? 60 : 25, &shrink_tries);
      Outcome o = run_forked(*d, t, dir + "/replay.err");
      msg = "[" + first.tag + "] " + (o.fail ? o.msg : first.msg);
    }
    if (rc) {
      mkdir(replays.c_str(), 0755);
      replay_path = replays + "/" + prop + fmt("-seed%llu-case%llu.txt", (unsigned long long)seed, (unsigned long long)idx);
      std::ofstream f(replay_path);
      f << "property " << prop << "\n";
      std::istringstream is(msg);
      std::string line;
      while (std::getline(is, line)) f << "# " << line << "\n";
      f << tape_to_text(t);
    }
  }
  double wall = now_s() - t0;
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"property\":" << json_str(prop) << ",\"rc\":" << rc << ",\"evaluations\":" << done << ",\"planned\":" << total
      << ",\"distinct_nontrivial\":" << sigs.size() << ",\"events\":" << ev << ",\"wall_s\":" << wall
      << ",\"shrink_tries\":" << shrink_tries << ",\"rule\":" << json_str(d->rule) << ",\"message\":" << json_str(msg)
      << ",\"replay\":" << json_str(replay_path) << ",\"labels\":{";
    bool c = false;
    for (auto& l : labels) { f << (c ? "," : "") << json_str(l.first) << ":" << l.second; c = true; }
    f << "},\"samples\":[";
    c = false;
    for (auto& s : samples) { f << (c ? "," : "") << json_str(s); c = true; }
    f << "]}\n";
  }
  if (verbose || out.empty()) {
    printf("%s: %llu/%llu cases, %zu distinct non-trivial, %llu events, %.1fs\n", prop.c_str(), (unsigned long long)done,
           (unsigned long long)total, sigs.size(), (unsigned long long)ev, wall);
    for (auto& l : labels) printf("   %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
  }
  if (rc) printf("%s\nreplay: %s\n", msg.c_str(), replay_path.c_str());
  // remove scratch files
  for (int w = 0; w < workers; w++) {
    unlink((dir + fmt("/err.%d", w)).c_str());
    unlink((dir + fmt("/res.%d", w)).c_str());
  }
  unlink((dir + "/replay.err").c_str());
  unlink((dir + "/rerun.err").c_str());
  rmdir(dir.c_str());
  return rc;
}
#else
// libFuzzer entry: bytes are decoded as a tape. The property is chosen by the environment variable PBT_PROP.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  static const CheckDef* d = [] {
    const char* p = getenv("PBT_PROP");
    for (auto& c : checks()) if (p && c.prop == p) return (const CheckDef*)&c;
    fprintf(stderr, "set PBT_PROP\n");
    _exit(2);
  }();
  Tape t;
  memset(t.hdr, 0, sizeof t.hdr);
  // header: 2 bytes per word; operations: 8 bytes each (1 selector + 7 argument bytes)
  size_t off = 0;
  for (int i = 0; i < kHdr && off + 2 <= size; i++, off += 2) t.hdr[i] = data[off] | data[off + 1] << 8;
  while (off + 8 <= size && t.ops.size() < 400) {
    Op o;
    o.w[0] = data[off] * 2654435761u;
    o.w[1] = data[off + 1];
    o.w[2] = data[off + 2];
    o.w[3] = data[off + 3] | data[off + 4] << 8;
    o.w[4] = data[off + 5];
    o.w[5] = data[off + 6] | data[off + 7] << 8;
    t.ops.push_back(o);
    off += 8;
  }
  Outcome o = run_case(*d, t, false);
  if (o.fail) {
    const char* rp = getenv("PBT_FUZZ_REPLAY");
    if (rp) {
      std::ofstream f(rp);
      f << "property " << d->prop << "\n# [" << o.tag << "] " << o.msg << "\n" << tape_to_text(t);
    }
    fprintf(stderr, "FUZZ-VIOLATION [%s] %s\n", o.tag.c_str(), o.msg.c_str());
    __builtin_trap();
  }
  return 0;
}
#endif
