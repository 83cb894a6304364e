// C32: random multi-threaded programs over one MemoryStorage, run under ThreadSanitizer; the recorded history must be
// linearizable with respect to a sequential model, and returned values must not change afterwards.
#include <pthread.h>
#include <sched.h>

#include <atomic>
#include <thread>
#include <unordered_set>

#include "src/storage.h"
#include "unit.h"

using namespace pbt;

// Lock operations of the code under test go through these (linker option --wrap): a thread may pause right after it gave
// a lock back or right before it takes one, so that what lies between two critical sections is interleaved often.
static thread_local uint64_t t_noise = 0;
static void noise() {
  if (!t_noise) return;
  t_noise = mix64(t_noise, 1) | 1;
  switch ((t_noise >> 20) % 4) {
    case 0: sched_yield(); break;
    case 1: for (volatile int i = 0, n = (t_noise >> 30) % 600; i < n; i = i + 1) {} break;
    default: break;
  }
}
extern "C" {
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) { int r = __real_pthread_rwlock_unlock(l); noise(); return r; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { noise(); return __real_pthread_rwlock_wrlock(l); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* l) { int r = __real_pthread_mutex_unlock(l); noise(); return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* l) { noise(); return __real_pthread_mutex_lock(l); }
}

namespace {

enum Kind { kSetHs, kInit, kEntries, kTerm, kFirst, kLast, kSnap, kApply, kCreate, kCompact, kAppend, kKinds };
const char* const kNames[] = {"SetHardState", "InitialState", "Entries", "Term", "FirstIndex", "LastIndex", "SnapShot", "ApplySnapshot", "CreateSnapshot", "Compact", "Append"};

struct Call {
  int kind = 0, thread = 0;
  uint64_t a = 0, b = 0, max = ~0ull, term = 0;
  int spin = 0;
  raftpb::HardState hs;
  craft::EntryPtrs ents;
  craft::SnapshotPtr snap;
  // history
  uint64_t t0 = 0, t1 = 0;
  std::string res;
  // kept results, to see whether they change afterwards
  craft::EntryPtrs kept;
  craft::SnapshotPtr kept_snap;
  std::string kept_ser;
};

std::string call_str(const Call& k) {
  std::string s = fmt("T%d %s(", k.thread, kNames[k.kind]);
  switch (k.kind) {
    case kSetHs: s += fmt("term %llu", (unsigned long long)k.hs.term()); break;
    case kEntries: s += fmt("%llu, %llu, %llu", (unsigned long long)k.a, (unsigned long long)k.b, (unsigned long long)k.max); break;
    case kTerm: case kCompact: case kCreate: s += std::to_string(k.a); break;
    case kApply: s += fmt("%llu/%llu", (unsigned long long)k.a, (unsigned long long)k.term); break;
    case kAppend: s += fmt("%llu x%zu term %llu", (unsigned long long)k.a, k.ents.size(), (unsigned long long)k.term); break;
  }
  return s + ") = " + k.res;
}

std::string snap_str(const raftpb::Snapshot& s) {
  return fmt("%llu/%llu:", (unsigned long long)s.metadata().index(), (unsigned long long)s.metadata().term()) + s.data() + ":" +
         std::to_string(s.metadata().conf_state().voters_size() ? s.metadata().conf_state().voters(0) : 0);
}
std::string ents_str(const craft::EntryPtrs& es) {
  std::string o = "[";
  for (auto& e : es) o += fmt("%llu/%llu=", (unsigned long long)e->index(), (unsigned long long)e->term()) + e->data() + " ";
  return o + "]";
}
std::string hs_str(const raftpb::HardState& h) {
  return fmt("%llu,%llu,%llu", (unsigned long long)h.term(), (unsigned long long)h.vote(), (unsigned long long)h.commit());
}

// The sequential model.
struct Model {
  std::string hs = "0,0,0";
  uint64_t snap = 0, snapterm = 0, conf = 0;
  std::string data;
  uint64_t off = 0, offterm = 0;
  std::vector<std::pair<uint64_t, std::string>> ents;  // term, data
  uint64_t last() const { return off + ents.size(); }
  std::string snapstr() const { return fmt("%llu/%llu:", (unsigned long long)snap, (unsigned long long)snapterm) + data + ":" + std::to_string(conf); }
  uint64_t hash() const {
    uint64_t h = mix64(hash_str(hs), mix64(snap, snapterm) + hash_str(data) + conf);
    h = mix64(h, mix64(off, offterm));
    for (auto& e : ents) h = mix64(h, e.first * 31 + hash_str(e.second));
    return h;
  }
  std::string run(const Call& k) {
    switch (k.kind) {
      case kSetHs: hs = hs_str(k.hs); return "ok";
      case kInit: return hs + ";" + std::to_string(conf);
      case kFirst: return std::to_string(off + 1);
      case kLast: return std::to_string(last());
      case kSnap: return snapstr();
      case kTerm:
        if (k.a < off) return "compacted";
        if (k.a > last()) return "unavailable";
        return std::to_string(k.a == off ? offterm : ents[k.a - off - 1].first);
      case kEntries: {
        if (k.a <= off) return "compacted";
        if (k.b > last() + 1) return "halt";
        if (ents.empty()) return "unavailable";
        craft::EntryPtrs out;
        uint64_t size = 0;
        for (uint64_t i = k.a; i < k.b; i++) {
          auto& e = ents[i - off - 1];
          auto p = mk_entry(i, e.first, e.second);
          size += p->ByteSizeLong();
          if (!out.empty() && size > k.max) break;
          out.push_back(p);
        }
        return ents_str(out);
      }
      case kApply:
        if (snap >= k.a) return "outofdate";
        snap = off = k.a;
        snapterm = offterm = k.term;
        conf = k.snap->metadata().conf_state().voters(0);
        data = k.snap->data();
        ents.clear();
        return "ok";
      case kCreate: {
        if (k.a <= snap) return "outofdate";
        if (k.a > last()) return "halt";
        snapterm = k.a == off ? offterm : ents[k.a - off - 1].first;
        snap = k.a;
        data = "c" + std::to_string(k.b);
        conf = k.b;
        return snapstr();
      }
      case kCompact: {
        if (k.a <= off) return "compacted";
        if (k.a > last()) return "halt";
        offterm = ents[k.a - off - 1].first;
        ents.erase(ents.begin(), ents.begin() + (k.a - off));
        off = k.a;
        return "ok";
      }
      case kAppend: {
        if (k.ents.empty()) return "ok";
        uint64_t f = k.a, l = k.a + k.ents.size() - 1;
        if (l < off + 1) return "ok";
        size_t skip = f <= off ? off + 1 - f : 0;
        f += skip;
        if (f > last() + 1) return "halt";
        ents.resize(f - off - 1);
        for (size_t i = skip; i < k.ents.size(); i++) ents.push_back({k.ents[i]->term(), k.ents[i]->data()});
        return "ok";
      }
    }
    return "?";
  }
};

std::string err_name(const craft::Status& s) {
  std::string e = s.Str();
  if (e == craft::kErrCompacted) return "compacted";
  if (e == craft::kErrUnavailable) return "unavailable";
  if (e == craft::kErrSnapOutOfDate) return "outofdate";
  return "error " + e;
}

void execute(craft::MemoryStorage& st, Call& k) {
  try {
    switch (k.kind) {
      case kSetHs: st.SetHardState(k.hs); k.res = "ok"; break;
      case kInit: {
        auto [h, cs, s] = st.InitialState();
        k.res = hs_str(h) + ";" + std::to_string(cs.voters_size() ? cs.voters(0) : 0);
        break;
      }
      case kEntries: {
        auto [es, s] = st.Entries(k.a, k.b, k.max);
        k.res = s.IsOK() ? ents_str(es) : err_name(s);
        k.kept = es;
        break;
      }
      case kTerm: {
        auto [t, s] = st.Term(k.a);
        k.res = s.IsOK() ? std::to_string(t) : err_name(s);
        break;
      }
      case kFirst: { auto [i, s] = st.FirstIndex(); k.res = std::to_string(i); break; }
      case kLast: { auto [i, s] = st.LastIndex(); k.res = std::to_string(i); break; }
      case kSnap: { auto [p, s] = st.SnapShot(); k.res = snap_str(*p); k.kept_snap = p; break; }
      case kApply: { auto s = st.ApplySnapshot(k.snap); k.res = s.IsOK() ? "ok" : err_name(s); break; }
      case kCreate: {
        raftpb::ConfState cs;
        cs.add_voters(k.b);
        auto [p, s] = st.CreateSnapshot(k.a, &cs, "c" + std::to_string(k.b));
        k.res = s.IsOK() ? snap_str(*p) : err_name(s);
        if (s.IsOK()) k.kept_snap = p;
        break;
      }
      case kCompact: { auto s = st.Compact(k.a); k.res = s.IsOK() ? "ok" : err_name(s); break; }
      case kAppend: { auto s = st.Append(k.ents); k.res = s.IsOK() ? "ok" : err_name(s); break; }
    }
  } catch (const Fatal&) {
    k.res = "halt";
  }
  k.kept_ser = ents_str(k.kept) + (k.kept_snap ? snap_str(*k.kept_snap) : "");
}

struct Lin {
  const std::vector<std::vector<Call>>& th;
  std::unordered_set<uint64_t> seen;
  size_t nodes = 0;
  bool search(std::vector<size_t>& at, const Model& m) {
    uint64_t key = m.hash();
    bool done = true;
    uint64_t bound = ~0ull;  // an operation may go first only if nothing pending returned before it was called
    for (size_t i = 0; i < th.size(); i++) {
      key = mix64(key, at[i]);
      if (at[i] < th[i].size()) {
        done = false;
        bound = std::min(bound, th[i][at[i]].t1);
      }
    }
    if (done) return true;
    if (!seen.insert(key).second) return false;
    nodes++;
    for (size_t i = 0; i < th.size(); i++) {
      if (at[i] >= th[i].size() || th[i][at[i]].t0 > bound) continue;
      Model n = m;
      if (n.run(th[i][at[i]]) != th[i][at[i]].res) continue;
      at[i]++;
      if (search(at, n)) return true;
      at[i]--;
    }
    return false;
  }
};

void tsan_case(Ctx& c) {
  Rng g(mix64(c.h(1), c.h(2)));
  auto lg = make_logger(c);
  craft::MemoryStorage st(lg);
  Model m;
  // a sequential prefix
  uint64_t base = g.below(3) ? g.below(6) : ((uint64_t)1 << 33) + g.below(5);
  auto mk_snap = [&](uint64_t i, uint64_t t, uint64_t tag) {
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(i);
    s->mutable_metadata()->set_term(t);
    s->mutable_metadata()->mutable_conf_state()->add_voters(tag);
    s->set_data("a" + std::to_string(tag));
    return s;
  };
  auto mk_append = [&](uint64_t at, size_t n, uint64_t term, uint64_t tag) {
    craft::EntryPtrs es;
    for (size_t i = 0; i < n; i++) es.push_back(mk_entry(at + i, term, "v" + std::to_string(tag * 8 + i)));
    return es;
  };
  auto seq = [&](Call k) {
    execute(st, k);
    std::string want = m.run(k);
    if (k.res != want) c.fail("sequential", call_str(k) + ", want " + want);
  };
  if (base) {
    Call k;
    k.kind = kApply;
    k.a = base;
    k.term = 1;
    k.snap = mk_snap(base, 1, 7);
    seq(k);
  }
  {
    Call k;
    k.kind = kAppend;
    k.a = base + 1;
    k.term = 1;
    k.ents = mk_append(base + 1, 2 + g.below(6), 1, 100);
    seq(k);
  }
  // the program: thread 0 snapshots and compacts (each such call legal when it runs alone), thread 1 appends, the rest read
  int nt = 2 + c.h(3) % 3;
  std::vector<std::vector<Call>> th(nt);
  uint64_t last = m.last(), low = base, snap_hi = base, tag = 1, term = 2;
  size_t total = 0;
  for (auto& op : c.t.ops) {
    if (total >= 26) break;
    Rng r(mix64(mix64(op.w[0], op.w[1]), mix64(op.w[2], op.w[3])));
    Call k;
    k.thread = op.w[4] % nt;
    auto& q = th[k.thread];
    if (q.size() >= 9) continue;
    k.spin = r.below(4) ? r.below(30) : r.below(400);
    int what = r.below(10);
    tag++;
    if (what >= (k.thread < 2 ? 7 : 5) || k.thread > 2) {
      static const int reads[] = {kInit, kEntries, kTerm, kFirst, kLast, kSnap, kEntries, kTerm};
      k.kind = reads[r.below(8)];
      k.a = last + 2 - std::min(last + 2, (uint64_t)r.below(9));
      if (k.kind == kEntries) {
        if (r.below(2)) k.a = std::min(low, last) + r.below(last - std::min(low, last) + 1);
        if (k.a == 0) k.a = 1;
        k.b = k.a + r.below(r.below(2) ? 5 : last + 2 - std::min(last + 1, k.a));
        if (r.below(3) == 0) k.max = r.below(40);
      }
    } else if (k.thread == 0) {
      switch (r.below(4)) {
        case 0:
          k.kind = kApply;
          k.a = last > 2 ? last - 2 + r.below(5) : 1 + r.below(4);
          if (k.a <= low) k.a = low + 1;   // an older one is refused; a log compacted beyond it stays usable
          k.term = term;
          k.snap = mk_snap(k.a, term, tag);
          snap_hi = std::max(snap_hi, k.a);
          low = std::max(low, k.a);
          last = std::max(last, k.a);
          break;
        case 1: case 2:
          k.kind = kCreate;
          k.a = r.below(4) == 0 ? snap_hi : r.below(2) ? std::max(low, snap_hi) + 1 + r.below(3) : std::max(std::max(low, snap_hi) + 1, last - std::min(last, (uint64_t)r.below(3)));
          k.b = tag;
          snap_hi = std::max(snap_hi, k.a);
          break;
        default:
          // only what a snapshot covers is compacted
          k.kind = kCompact;
          k.a = r.below(3) ? std::max(low, snap_hi - std::min(snap_hi, (uint64_t)r.below(2))) : low + r.below(std::max(low, snap_hi) - low + 1);
          low = std::max(low, k.a);
          break;
      }
    } else if (k.thread == 1) {
      if (r.below(4) == 0) {
        k.kind = kSetHs;
        k.hs.set_term(tag);
        k.hs.set_vote(tag % 5);
        k.hs.set_commit(tag * 3);
      } else {
        k.kind = kAppend;
        size_t n = 1 + r.below(4);
        k.a = r.below(3) ? last + 1 : last - std::min(last - 1, (uint64_t)r.below(4));
        if (r.below(3) == 0) {  // from around the part that is being compacted to the end
          k.a = std::max(low, snap_hi) - std::min(std::max(low, snap_hi), (uint64_t)r.below(4));
          n = std::max<uint64_t>(n, last + 1 - std::min(last + 1, k.a) + r.below(2));
          n = std::min<size_t>(n, 8);
        }
        if (k.a == 0) k.a = 1;
        if (r.below(3) == 0) term++;
        k.term = term;
        k.ents = mk_append(k.a, n, term, tag);
        last = std::max(low, k.a + n - 1);
      }
    } else {
      k.kind = kSetHs;
      k.hs.set_term(tag);
      k.hs.set_vote(tag % 5);
      k.hs.set_commit(tag * 3);
    }
    q.push_back(k);
    total++;
  }
  std::atomic<uint64_t> clock{1};
  std::atomic<int> gate{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < nt; i++)
    ts.emplace_back([&, i] {
      gate.fetch_add(1, std::memory_order_relaxed);
      while (gate.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      t_noise = mix64(c.h(5), i) | 1;
      for (auto& k : th[i]) {
        for (volatile int s = 0; s < k.spin; s = s + 1) {}
        // relaxed: the clock must not create happens-before edges that hide races
        k.t0 = clock.fetch_add(1, std::memory_order_relaxed);
        execute(st, k);
        k.t1 = clock.fetch_add(1, std::memory_order_relaxed);
      }
    });
  for (auto& t : ts) t.join();
  c.events += total;
  size_t overlaps = 0, writers = 0;
  for (int i = 0; i < nt; i++)
    for (auto& k : th[i]) {
      c.label(kNames[k.kind]);
      if (k.kind == kSetHs || k.kind >= kApply) writers++;
      if (k.res == "halt") c.label("halt");
      for (int j = 0; j < nt; j++)
        if (j != i)
          for (auto& q : th[j]) overlaps += q.t0 < k.t1 && k.t0 < q.t1;
      std::string now = ents_str(k.kept) + (k.kept_snap ? snap_str(*k.kept_snap) : "");
      if (now != k.kept_ser) c.fail("altered", "a returned value changed afterwards: " + call_str(k) + " is now " + now);
    }
  Lin lin{th, {}, 0};
  std::vector<size_t> at(nt, 0);
  if (!lin.search(at, m)) {
    std::string s;
    std::vector<const Call*> all;
    for (auto& q : th) for (auto& k : q) all.push_back(&k);
    std::sort(all.begin(), all.end(), [](auto* a, auto* b) { return a->t0 < b->t0; });
    for (auto* k : all) s += fmt("[%llu,%llu] ", (unsigned long long)k->t0, (unsigned long long)k->t1) + call_str(*k) + "; ";
    c.fail("order", "no serial order of the calls explains the results: " + s);
  }
  if (overlaps) c.label("overlap");
  c.mix(mix64(m.hash(), total));
  for (auto& q : th) for (auto& k : q) c.mix(hash_str(call_str(k)));
  c.nontrivial = overlaps > 0 && writers > 1 && total > 5;
  c.summary = fmt("%d threads, %zu calls, %zu overlapping pairs, %zu writers", nt, total, overlaps, writers);
}

PBT_CHECK_DEF("C32", tsan_case, 8, 30, 120000, 1500000,
              "a case is a program of 2-4 threads over one storage, run under ThreadSanitizer and checked for a serial order; non-trivial: calls of "
              "different threads overlapped and at least two calls wrote", "tsan");

}  // namespace
