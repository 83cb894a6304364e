// C28: the outstanding-message window against a bounded queue, and per-peer progress against its rules.
#include <deque>

#include "src/tracker/progress.h"
#include "unit.h"

using namespace pbt;
using namespace craft;

namespace {

int64_t capacity(Rng& r) {
  switch (r.below(8)) {
    case 0: return 1;
    case 1: return 2 + r.below(3);
    case 2: return 1 + r.below(300);
    case 3: return (int64_t)INT32_MAX - 1 + (int64_t)r.below(4);
    case 4: return ((int64_t)1 << 32) - 2 + (int64_t)r.below(5);
    case 5: return INT64_MAX - (int64_t)r.below(2);
    case 6: return ((int64_t)1 << (31 + r.below(31))) + (int64_t)r.below(3);
    default: return 1 + r.below(16);
  }
}

void compare_window(Ctx& c, Inflights* in, const std::deque<uint64_t>& q, int64_t cap, Rng& r, const std::string& at) {
  if (in->Count() != (int64_t)q.size()) c.fail("window", fmt("%lld outstanding, want %zu (capacity %lld)", (long long)in->Count(), q.size(), (long long)cap) + at);
  if (in->Full() != ((int64_t)q.size() == cap)) c.fail("window", fmt("Full()=%d with %zu of %lld", in->Full(), q.size(), (long long)cap) + at);
  if (!q.empty()) {
    // contents, observed through releases on copies
    for (int k = 0; k < 3; k++) {
      size_t i = r.below(q.size());
      uint64_t v = q[i] - r.below(2);
      size_t left = 0;
      for (auto x : q) if (x > v) left++;
      auto cl = in->Clone();
      cl->FreeLE(v);
      if (cl->Count() != (int64_t)left) c.fail("window", fmt("releasing up to %llu leaves %lld, want %zu", (unsigned long long)v, (long long)cl->Count(), left) + at);
    }
    auto cl = in->Clone();
    cl->FreeFirstOne();
    if (cl->Count() != (int64_t)q.size() - 1) c.fail("window", "FreeFirstOne does not release exactly one" + at);
    if (in->Count() != (int64_t)q.size()) c.fail("window", "a copy shares state with the original" + at);
  }
}

void run_inflights(Ctx& c) {
  auto lg = make_logger(c);
  Rng r0(mix64(c.h(1), c.h(2)));
  int64_t cap = capacity(r0);
  Inflights in(lg, cap);
  std::deque<uint64_t> q;
  uint64_t at = r0.below(3) ? r0.below(100) : ((uint64_t)1 << 40) + r0.below(1000);
  size_t peak = 0, wraps = 0, adds = 0, empties = 0;
  size_t opi = 0;
  for (auto& op : c.t.ops) {
    opi++;
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    int what = op.w[0] % 8;
    switch (what) {
      case 0: case 1: case 2: {
        size_t n = r.below(6) == 0 ? r.below(200) : 1 + r.below(6);
        for (size_t k = 0; k < n && (int64_t)q.size() < cap; k++) {
          at += 1 + r.below(3);
          if (in.Full()) c.fail("window", "Full() below capacity");
          in.Add(at);
          c.events++;
          q.push_back(at);
          adds++;
        }
        break;
      }
      case 3: case 4: case 5: {
        uint64_t to;
        if (q.empty()) to = r.below(at + 5);
        else switch (r.below(4)) {
          case 0: to = q[r.below(q.size())]; break;
          case 1: to = q.front() ? q.front() - 1 : 0; break;
          case 2: to = q[r.below(q.size())] + r.below(2); break;
          default: to = q.back() + r.below(3);
        }
        if (q.empty()) empties++;
        in.FreeLE(to);
        while (!q.empty() && q.front() <= to) q.pop_front();
        break;
      }
      case 6:
        if (q.empty()) empties++;
        in.FreeFirstOne();
        if (!q.empty()) q.pop_front();
        break;
      default:
        if (r.below(6) == 0) { in.Reset(); q.clear(); }
        else if (r.below(2)) { auto cl = in.Clone(); cl->Reset(); if (!cl->Full() && cap > 1) cl->Add(at + 1); }
    }
    peak = std::max(peak, q.size());
    compare_window(c, &in, q, cap, r, fmt(" after op %zu (kind %d)", opi, what));
    c.mix(q.size());
  }
  wraps = cap > 0 && (int64_t)adds > cap;
  if (cap > INT32_MAX) c.label("capacity_beyond_32_bits");
  if (empties) c.label("release_on_empty");
  if (wraps) c.label("wrapped");
  c.nontrivial = adds >= 5 && (wraps || peak >= 4);
  c.summary = fmt("window of capacity %lld: %zu adds, peak %zu, %zu releases on empty", (long long)cap, adds, peak, empties);
}

struct Ref {
  StateType st = StateType::kProbe;
  uint64_t match = 0, next = 1, pending = 0;
  bool probe_sent = false, active = false;
  std::deque<uint64_t> inf;
};

void run_progress(Ctx& c) {
  auto lg = make_logger(c);
  Rng r0(mix64(c.h(1), c.h(2)));
  int64_t cap = capacity(r0);
  Ref m;
  m.match = r0.below(3) ? 0 : r0.below(50);
  m.next = m.match + 1 + r0.below(20);
  m.active = r0.below(2);
  bool learner = r0.below(2);
  Progress p(lg, m.next, m.match, cap, learner, m.active);
  uint64_t last = m.next + 10;
  int acks = 0, stale = 0, rejects = 0, sends = 0, snaps = 0;
  size_t opi = 0;
  auto reset = [&](StateType s) { m.st = s; m.probe_sent = false; m.pending = 0; m.inf.clear(); };
  for (auto& op : c.t.ops) {
    opi++;
    c.events++;
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    int what = op.w[0] % 14;
    last += r.below(3);
    uint64_t old_match = m.match;
    std::string note;
    switch (what) {
      case 0: case 1: case 2: {  // acknowledgement, fresh or stale
        uint64_t n = r.below(3) == 0 ? r.below(m.match + 2) : r.below(2) ? m.match + r.below(5) : m.match + r.below(last + 2 - std::min(last, m.match));
        bool want = n > m.match;
        bool got = p.MaybeUpdate(n);
        if (got != want) c.fail("ack", fmt("acknowledgement of %llu with %llu confirmed returned %d", (unsigned long long)n, (unsigned long long)m.match, got));
        if (want) { m.match = n; m.probe_sent = false; acks++; } else stale++;
        m.next = std::max(m.next, n + 1);
        note = fmt("ack %llu", (unsigned long long)n);
        if (got && m.st == StateType::kReplicate) {  // what the leader does next
          p.GetInflights()->FreeLE(n);
          while (!m.inf.empty() && m.inf.front() <= n) m.inf.pop_front();
        }
        break;
      }
      case 3: case 4: case 5: {  // rejection, genuine or stale
        uint64_t rej = r.below(3) ? m.next - 1 : r.below(last + 1);
        uint64_t hint = r.below(4) == 0 ? r.below(last + 1) : r.below(rej + 1);
        bool want;
        uint64_t next = m.next;
        if (m.st == StateType::kReplicate) {
          want = rej > m.match;
          if (want) next = m.match + 1;
        } else {
          want = rej == m.next - 1;
          if (want) next = std::max(std::min(rej, hint + 1), m.match + 1);
        }
        bool got = p.MaybeDecrTo(rej, hint);
        note = fmt("reject %llu hint %llu", (unsigned long long)rej, (unsigned long long)hint);
        if (m.st != StateType::kReplicate && want && rej <= m.match) {
          // provably outdated (the position is confirmed): ignoring it or merely unpausing are both fine
          if (p.Next() <= p.Match()) c.fail("next", fmt("an outdated rejection of %llu moves next to %llu, confirmed is %llu", (unsigned long long)rej, (unsigned long long)p.Next(), (unsigned long long)p.Match()));
          m.next = p.Next();
          m.probe_sent = p.ProbeSent();
          if (m.next != next) c.fail("next", "an outdated rejection changes the next position");
          stale++;
          break;
        }
        if (got != want) c.fail("reject", note + fmt(" in state %d next=%llu match=%llu returned %d", (int)m.st, (unsigned long long)m.next, (unsigned long long)m.match, got));
        if (want) {
          rejects++;
          if (m.st != StateType::kReplicate) m.probe_sent = false;
          m.next = next;
          if (m.st == StateType::kReplicate) { p.BecomeProbe(); reset(StateType::kProbe); m.next = m.match + 1; }
        } else stale++;
        break;
      }
      case 6: case 7: case 8: {  // send entries as the leader does
        if (p.IsPaused() || m.next > last) break;
        uint64_t upto = m.next + r.below(last - m.next + 1);
        sends++;
        if (m.st == StateType::kReplicate) {
          p.OptimisticUpdate(upto);
          p.GetInflights()->Add(upto);
          m.next = upto + 1;
          m.inf.push_back(upto);
        } else if (m.st == StateType::kProbe) {
          p.SetProbeSent(true);
          m.probe_sent = true;
        }
        break;
      }
      case 9: {
        p.BecomeReplicate();
        reset(StateType::kReplicate);
        m.next = m.match + 1;
        break;
      }
      case 10: {
        uint64_t pend = m.st == StateType::kSnapshot ? m.pending : 0;
        p.BecomeProbe();
        reset(StateType::kProbe);
        m.next = std::max(m.match, pend) + 1;
        break;
      }
      case 11: {
        if (r.below(2)) break;
        uint64_t i = m.match + r.below(20);
        p.BecomeSnapshot(i);
        reset(StateType::kSnapshot);
        m.pending = i;
        snaps++;
        break;
      }
      case 12: {  // heartbeat reply
        p.SetProbeSent(false);
        m.probe_sent = false;
        if (m.st == StateType::kReplicate && (int64_t)m.inf.size() == cap) {
          p.GetInflights()->FreeFirstOne();
          m.inf.pop_front();
        }
        break;
      }
      default: {
        if (r.below(2)) { p.ProbeAcked(); m.probe_sent = false; }
        else { bool a = r.below(2); p.SetRecentActive(a); m.active = a; }
        auto cl = p.Clone();
        cl->MaybeUpdate(m.match + 7);
        cl->BecomeSnapshot(5);
        cl->SetRecentActive(!m.active);
        cl->SetIsLearner(!learner);
      }
    }
    std::string at = fmt(" after op %zu (%s, kind %d): state=%d match=%llu next=%llu pending=%llu probe_sent=%d; want state=%d match=%llu next=%llu pending=%llu probe_sent=%d",
                         opi, note.c_str(), what, (int)p.State(), (unsigned long long)p.Match(), (unsigned long long)p.Next(), (unsigned long long)p.PendingSnapshot(), p.ProbeSent(),
                         (int)m.st, (unsigned long long)m.match, (unsigned long long)m.next, (unsigned long long)m.pending, m.probe_sent);
    if (p.Match() < old_match) c.fail("match", "the confirmed position decreased" + at);
    if (p.Next() <= p.Match()) c.fail("next", "the next position is not above the confirmed one" + at);
    if (p.State() != m.st || p.Match() != m.match || p.Next() != m.next || p.PendingSnapshot() != m.pending || p.ProbeSent() != m.probe_sent)
      c.fail("rules", "progress differs from its rules" + at);
    if (p.RecentActive() != m.active || p.IsLearner() != learner) c.fail("rules", "activity or learner flag changed" + at);
    bool paused = m.st == StateType::kSnapshot || (m.st == StateType::kProbe && m.probe_sent) || (m.st == StateType::kReplicate && (int64_t)m.inf.size() == cap);
    if (p.IsPaused() != paused) c.fail("paused", fmt("IsPaused()=%d want %d", p.IsPaused(), paused) + at);
    compare_window(c, p.GetInflights(), m.inf, cap, r, at);
    if (pbt::g_sanitize) p.String();
    c.mix(mix64(m.match * 31 + m.next, (uint64_t)m.st));
  }
  if (cap > INT32_MAX) c.label("capacity_beyond_32_bits");
  if (snaps) c.label("snapshot_state");
  if (stale) c.label("stale_reply");
  if (rejects) c.label("genuine_rejection");
  c.nontrivial = acks && stale && rejects && sends;
  c.summary = fmt("progress with window %lld: %d acknowledgements, %d rejections, %d stale replies, %d sends, %d snapshots; ends match=%llu next=%llu",
                  (long long)cap, acks, rejects, stale, sends, snaps, (unsigned long long)m.match, (unsigned long long)m.next);
}

void run_c28(Ctx& c) {
  if (c.h(0) % 2) run_inflights(c);
  else run_progress(c);
}

PBT_CHECK_DEF("C28", run_c28, 5, 120, 600000, 20000000,
              "case = a window (capacities 1..300, around 2^31, 2^32, up to 2^63-1) or a peer's progress under up to 120 operations (fresh and stale "
              "acknowledgements, genuine and stale rejections, sends, state changes, heartbeat replies, snapshot states), compared with a bounded queue and "
              "the progress rules after every operation. Non-trivial: window cases with >=5 adds that wrap or hold >=4; progress cases with sends, "
              "accepted and stale acknowledgements and a genuine rejection.",
              "plain");

}  // namespace
