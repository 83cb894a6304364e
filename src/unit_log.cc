// C22: RaftLog (storage + pending part) against one flat array.
#include "src/log.h"
#include "src/storage.h"
#include <set>

#include "unit.h"

using namespace pbt;
using namespace craft;

namespace {

std::string payload(uint64_t i, uint64_t t) {
  uint64_t h = mix64(i, t);
  size_t n = h % 5 == 0 ? 0 : h % 7 == 0 ? 150 + h % 97 : h % 40;
  return std::string(n, 'a' + h % 26);
}
EntryPtr ent(uint64_t i, uint64_t t) { return mk_entry(i, t, payload(i, t)); }

struct ArrayLog {
  uint64_t base = 0, base_term = 0;   // position before the first entry
  std::vector<uint64_t> terms;        // terms[k]: entry base+1+k
  uint64_t saved = 0;                 // everything up to here is acknowledged as persisted
  uint64_t committed = 0, applied = 0;
  uint64_t snap = 0, snap_term = 0;   // restored snapshot that is not persisted yet (0: none)

  uint64_t last() const { return base + terms.size(); }
  bool known(uint64_t i) const { return i >= base && i <= last(); }
  uint64_t term(uint64_t i) const { return i == base ? base_term : i > base && i <= last() ? terms[i - base - 1] : 0; }
  void truncate_append(uint64_t at, const std::vector<uint64_t>& ts) {
    terms.resize(at - base - 1);
    terms.insert(terms.end(), ts.begin(), ts.end());
    saved = std::min(saved, at - 1);
  }
  std::vector<std::string> range(uint64_t lo, uint64_t hi, uint64_t max) const {
    std::vector<std::string> v;
    uint64_t size = 0;
    for (uint64_t i = lo; i < hi; i++) {
      auto e = ent(i, term(i));
      size += e->ByteSizeLong();
      if (i != lo && size > max) break;
      v.push_back(ekey(*e));
    }
    return v;
  }
};

struct Held {
  EntryPtrs live;
  std::vector<std::string> copy;
  std::string what;
};
std::vector<std::string> keys(const EntryPtrs& es) {
  std::vector<std::string> v;
  for (auto& e : es) v.push_back(e ? ekey(*e) : "<null>");
  return v;
}
std::string join(const std::vector<std::string>& v) {
  std::string s = "[";
  for (auto& x : v) s += (s.size() > 1 ? " " : "") + x.substr(0, 24);
  return s + "]";
}

void run_log(Ctx& c) {
  auto lg = make_logger(c);
  auto st = std::make_shared<MemoryStorage>(lg);
  ArrayLog m;
  uint64_t T = 1;                   // the current term
  std::set<uint64_t> used;          // terms of entries so far, other than the current term
  // initial storage: optional snapshot, some entries
  uint64_t base = c.h(0) % 3 == 0 ? 0 : c.h(0) % 40;
  if (c.h(0) % 9 == 8) {  // positions and terms beyond 32 bits
    static const uint64_t kFar[] = {0x7ffffff8ull, 0xfffffff8ull, 1ull << 40, 1ull << 62};
    base += kFar[c.h(6) % 4];
    if (c.h(6) % 3) T = kFar[c.h(6) / 4 % 4];
  }
  if (base) {
    auto s = std::make_shared<raftpb::Snapshot>();
    s->mutable_metadata()->set_index(base);
    s->mutable_metadata()->set_term(T);
    s->set_data("d" + std::to_string(base));
    s->mutable_metadata()->mutable_conf_state()->add_voters(1);
    st->ApplySnapshot(s);
    m.base = base;
    m.base_term = T;
  }
  const bool grand = c.h(20) % 100 == 31;  // hundreds of entries at a time
  if (grand) c.label("grand");
  uint64_t pre = c.h(1) % (grand ? 400 : 8);
  EntryPtrs init;
  for (uint64_t k = 1; k <= pre; k++) {
    if (mix64(c.h(2), k) % 4 == 0) used.insert(T), T += 1 + mix64(c.h(2), k + 100) % 4 / 2;
    init.push_back(ent(base + k, T));
    m.terms.push_back(T);
  }
  st->Append(init);
  m.saved = m.last();
  m.committed = m.applied = base;
  static const uint64_t kLimits[] = {0, 60, 200, craft::RaftLog::kNoLimit};
  uint64_t next_max = kLimits[c.h(3) % 4];
  auto log = craft::RaftLog::NewWithSize(lg, st, next_max);
  uint64_t last_snap = base;        // highest snapshot known to the storage
  std::vector<Held> held;
  // a work batch that was taken, persisted or not, but is not acknowledged
  bool batch = false, batch_written = false;
  EntryPtrs b_ents;
  SnapshotPtr b_snap;

  int truncs = 0, restores = 0, crossing = 0, persists = 0, compacts = 0, stale_acks = 0;

  auto hold = [&](const EntryPtrs& es, const std::string& w) {
    if (es.empty()) return;
    held.push_back({es, keys(es), w});
    if (held.size() > 24) held.erase(held.begin() + (c.sig % 12));
  };
  auto expect = [&](bool ok, const std::string& what) {
    if (!ok) c.fail("array", what);
  };
  auto eq_range = [&](const EntryPtrs& got, const std::vector<std::string>& want, const std::string& what) {
    auto g = keys(got);
    if (g != want) c.fail("array", what + ": got " + join(g) + " want " + join(want));
  };
  auto ull = [](uint64_t x) { return std::to_string(x); };

  auto bump = [&](Rng& r) {
    used.insert(T);
    T += 1 + r.below(4) / 2;
  };
  // A conflicting tail may also come from an earlier leader than the tail it replaces: a term no entry ever had, between
  // that of the entry before the conflict and that of the entry replaced. The current term is fresh afterwards.
  auto older = [&](Rng& r, uint64_t at) {
    uint64_t lo = std::max<uint64_t>(1, m.term(at - 1)), hi = m.term(at);
    std::vector<uint64_t> free;
    for (uint64_t t = hi; t-- > lo && free.size() < 4;)
      if (!used.count(t)) free.push_back(t);
    if (free.empty()) return T;
    uint64_t t = free[r.below(free.size())];
    used.insert(t);
    bump(r);
    c.label("older_conflict");
    return t;
  };

  size_t opi = 0;
  for (auto& op : c.t.ops) {
    opi++;
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    c.events++;
    int what = op.w[0] % 16;
    if (what >= 7 && what <= 9 && op.w[0] / 16 % 4 != 0) what = !batch ? 7 : !batch_written ? 8 : 9;
    switch (what) {
      case 0: case 1: {  // the leader appends at the end
        if (r.below(3) == 0) bump(r);
        EntryPtrs es;
        std::vector<uint64_t> ts;
        uint64_t at = m.last() + 1;
        for (uint64_t k = 0, n = r.below(grand && r.below(3) == 0 ? 400 : 5); k < n; k++) { es.push_back(ent(at + k, T)); ts.push_back(T); }
        uint64_t got = log->Append(es);
        m.truncate_append(at, ts);
        expect(got == m.last(), "Append returned " + ull(got) + ", last position is " + ull(m.last()));
        break;
      }
      case 2: {  // append that truncates
        if (m.committed >= m.last()) break;
        bump(r);
        uint64_t at = m.committed + 1 + r.below(m.last() - m.committed);
        uint64_t ct = r.below(3) ? T : older(r, at);
        EntryPtrs es;
        std::vector<uint64_t> ts;
        for (uint64_t k = 0, n = 1 + r.below(grand && r.below(3) == 0 ? 400 : 4); k < n; k++) { es.push_back(ent(at + k, ct)); ts.push_back(ct); }
        uint64_t got = log->Append(es);
        m.truncate_append(at, ts);
        truncs++;
        expect(got == m.last(), "Append(truncating) returned " + ull(got) + ", last position is " + ull(m.last()));
        break;
      }
      case 3: case 4: case 5: {  // follower append: previous position may match or not, entries may overlap
        uint64_t prev = r.below(4) ? m.base + r.below(m.terms.size() + 1) : m.base + r.below(m.terms.size() + 4);
        bool match = m.known(prev) && r.below(5) != 0;
        uint64_t pt = match ? m.term(prev) : (r.below(2) ? T + 1 : 1 + r.below(T));
        if (!match && m.known(prev) && pt == m.term(prev)) match = true;
        if (!m.known(prev) && pt == 0) break;
        std::vector<uint64_t> ts;
        uint64_t n = r.below(grand && r.below(3) == 0 ? 400 : 7);
        // first k entries equal, then (only past the commit position) a conflicting or new tail
        uint64_t i = prev + 1;
        bool conflicted = false;
        uint64_t conflict_at = 0, ct = 0;
        for (uint64_t k = 0; k < n; k++, i++) {
          if (!conflicted && match && i <= m.last() && (i <= m.committed || r.below(4) != 0)) {
            ts.push_back(m.term(i));
            continue;
          }
          if (!conflicted) {
            conflicted = true;
            conflict_at = i;
            if (i <= m.last() || r.below(2)) bump(r);
            ct = i <= m.last() && r.below(3) == 0 ? older(r, i) : T;
          }
          ts.push_back(ct);
        }
        EntryPtrs es;
        for (uint64_t k = 0; k < ts.size(); k++) es.push_back(ent(prev + 1 + k, ts[k]));
        uint64_t lc = r.below(3) == 0 ? m.committed + r.below(6) : r.below(m.last() + 4);
        if (match && std::min(lc, prev + ts.size()) > std::max(m.last(), prev + ts.size())) break;
        auto in_keys = keys(es);
        EntryPtrs in = es;
        auto [got, ok] = log->MaybeAppend(prev, pt, lc, es);
        if (keys(in) != in_keys) c.fail("input", "MaybeAppend altered the entries it was given");
        expect(ok == match, fmt("MaybeAppend(prev=%llu/%llu) accepted=%d, previous entry matches=%d", (unsigned long long)prev, (unsigned long long)pt, ok, match));
        if (match) {
          expect(got == prev + ts.size(), "MaybeAppend last new position " + ull(got) + " want " + ull(prev + ts.size()));
          if (conflicted) {
            if (conflict_at <= m.last()) truncs++;
            m.truncate_append(conflict_at, std::vector<uint64_t>(ts.begin() + (conflict_at - prev - 1), ts.end()));
          }
          m.committed = std::max(m.committed, std::min(lc, prev + (uint64_t)ts.size()));
        }
        break;
      }
      case 6: {  // commit
        if (r.below(2)) {
          uint64_t i = r.below(4) ? m.committed + r.below(m.last() + 1 - m.committed) : r.below(m.last() + 1);
          log->CommitTo(i);
          m.committed = std::max(m.committed, i);
        } else {
          uint64_t i = m.base + r.below(m.terms.size() + 3);
          uint64_t t = r.below(3) ? m.term(i) : 1 + r.below(T + 1);
          bool want = i > m.committed && m.known(i) && t != 0 && m.term(i) == t;
          if (t == 0) break;
          bool got = log->MaybeCommit(i, t);
          expect(got == want, fmt("MaybeCommit(%llu,%llu)=%d want %d", (unsigned long long)i, (unsigned long long)t, got, want));
          if (want) m.committed = i;
        }
        break;
      }
      case 7: {  // take a work batch
        if (batch) break;
        b_ents = log->UnstableEntries();
        b_snap = log->HasPendingSnapshot() ? log->UnstableSnapshot() : nullptr;
        batch = true;
        batch_written = false;
        hold(b_ents, "next-to-persist");
        break;
      }
      case 8: {  // write it
        if (!batch || batch_written) break;
        batch_written = true;
        if (b_snap) {
          auto s = st->ApplySnapshot(b_snap);
          expect(s.IsOK(), "storage refused the restored snapshot");
          last_snap = b_snap->metadata().index();
        }
        st->Append(b_ents);
        break;
      }
      case 9: {  // acknowledge it
        if (!batch || !batch_written) break;
        batch = false;
        if (!b_ents.empty()) {
          auto& e = *b_ents.back();
          log->StableTo(e.index(), e.term());
          // the same entry is still there: everything up to it is what was written
          if (m.known(e.index()) && e.index() > m.base && m.term(e.index()) == e.term()) m.saved = std::max(m.saved, e.index());
          else stale_acks++;
        }
        if (b_snap) {
          log->StableSnapTo(b_snap->metadata().index());
          if (m.snap == b_snap->metadata().index()) m.snap = 0;
        }
        persists++;
        break;
      }
      case 10: {  // restore from a snapshot
        if (r.below(5)) break;
        uint64_t i = m.committed + 1 + r.below(8);
        // A log that already holds the position is fast-forwarded instead, so a restore inside it is a conflict, and
        // what follows the snapshot then carries terms the old log never had (log matching).
        if (i <= m.last()) bump(r);
        uint64_t t = i <= m.last() ? T : T + r.below(2);
        used.insert(T), T = std::max(T, t);
        auto s = std::make_shared<raftpb::Snapshot>();
        s->mutable_metadata()->set_index(i);
        s->mutable_metadata()->set_term(t);
        s->set_data("d" + ull(i));
        s->mutable_metadata()->mutable_conf_state()->add_voters(1);
        log->Restore(s);
        m.base = i;
        m.base_term = t;
        m.terms.clear();
        m.saved = i;
        m.committed = i;
        m.snap = i;
        m.snap_term = t;
        restores++;
        break;
      }
      case 11: {  // apply
        if (m.snap) {
          // the snapshot is applied first, once persisted
          break;
        }
        if (m.applied < m.base) { log->AppliedTo(m.base); m.applied = m.base; }
        if (m.applied < m.committed) {
          uint64_t i = m.applied + 1 + r.below(m.committed - m.applied);
          log->AppliedTo(i);
          m.applied = i;
        } else {
          log->AppliedTo(0);
        }
        break;
      }
      case 12: {  // storage snapshot and compaction, both no further than what is applied and acknowledged
        if (m.snap || (batch && b_snap)) break;
        uint64_t lim = std::min(m.applied, m.saved);
        if (batch && !b_ents.empty()) lim = std::min(lim, b_ents.front()->index() - 1);
        if (r.below(2) && lim > last_snap) {
          uint64_t i = last_snap + 1 + r.below(lim - last_snap);
          if (i >= m.base) {
            raftpb::ConfState cs;
            cs.add_voters(1);
            st->CreateSnapshot(i, &cs, "s" + ull(i));
            last_snap = i;
          }
        } else if (lim > m.base) {
          uint64_t i = m.base + 1 + r.below(lim - m.base);
          auto s = st->Compact(i);
          expect(s.IsOK(), "Compact refused");
          m.base_term = m.term(i);
          m.terms.erase(m.terms.begin(), m.terms.begin() + (i - m.base));
          m.base = i;
          compacts++;
        }
        break;
      }
      default: {  // queries
        for (int q = 0; q < 4; q++) {
          switch (r.below(7)) {
            case 0: {
              uint64_t lo = m.base + 1 + r.below(m.terms.size() + 1);
              uint64_t hi = lo + r.below(m.last() + 2 - lo);
              uint64_t mx = r.below(2) ? kLimits[r.below(4)] : r.below(400);
              auto [es, s] = log->Slice(lo, hi, mx);
              expect(s.IsOK(), fmt("Slice(%llu,%llu) failed: %s", (unsigned long long)lo, (unsigned long long)hi, s.IsOK() ? "" : s.Str()));
              eq_range(es, m.range(lo, hi, mx), fmt("Slice(%llu,%llu,max=%llu)", (unsigned long long)lo, (unsigned long long)hi, (unsigned long long)mx));
              hold(es, "slice");
              if (lo <= m.saved && hi > m.saved + 1) crossing++;
              break;
            }
            case 1: {
              uint64_t lo = m.base + r.below(m.terms.size() + 3);
              uint64_t mx = r.below(2) ? kLimits[r.below(4)] : r.below(400);
              auto [es, s] = log->Entries(lo, mx);
              if (lo <= m.base && lo <= m.last()) expect(!s.IsOK() && strstr(s.Str(), kErrCompacted), "Entries below the first position must report compaction");
              else {
                expect(s.IsOK(), "Entries failed");
                eq_range(es, lo > m.last() ? std::vector<std::string>() : m.range(lo, m.last() + 1, mx), "Entries(" + ull(lo) + ")");
                hold(es, "entries");
              }
              break;
            }
            case 2: {
              uint64_t i = m.last() ? m.base + r.below(m.terms.size() + 1) : 0;
              uint64_t t = r.below(T + 2);
              if (i > m.last()) break;
              uint64_t got = log->FindConflictByTerm(i, t);
              uint64_t want = i;
              bool none = false;
              while (m.term(want) > t) { if (want == m.base) { none = true; break; } want--; }
              if (none) expect(got <= m.base, "FindConflictByTerm without a match must stop before the first entry, got " + ull(got));
              else expect(got == want, fmt("FindConflictByTerm(%llu,%llu)=%llu want %llu", (unsigned long long)i, (unsigned long long)t, (unsigned long long)got, (unsigned long long)want));
              break;
            }
            case 3: {
              uint64_t i = m.base + r.below(m.terms.size() + 3), t = 1 + r.below(T + 1);
              bool want = m.known(i) && m.term(i) == t;
              expect(log->MatchTerm(i, t) == want, "MatchTerm(" + ull(i) + "," + ull(t) + ")");
              break;
            }
            case 4: {
              uint64_t i = r.below(m.last() + 3), t = r.below(T + 2);
              uint64_t lt = m.term(m.last());
              expect(log->IsUpToData(i, t) == (t > lt || (t == lt && i >= m.last())), "IsUpToData(" + ull(i) + "," + ull(t) + ")");
              break;
            }
            case 5: {
              auto [s, status] = log->Snapshot();
              expect(status.IsOK() && s, "Snapshot failed");
              uint64_t want = m.snap ? m.snap : last_snap;
              expect(s->metadata().index() == want, "Snapshot at " + ull(s->metadata().index()) + " want " + ull(want));
              break;
            }
            default: {
              auto es = log->AllEntries();
              eq_range(es, m.range(m.base + 1, m.last() + 1, craft::RaftLog::kNoLimit), "AllEntries");
              hold(es, "all");
            }
          }
        }
        break;
      }
    }
    // full comparison
    std::string at = fmt(" after op %zu (kind %d)", opi, what);
    expect(log->FirstIndex() == m.base + 1, "FirstIndex " + ull(log->FirstIndex()) + " want " + ull(m.base + 1) + at);
    if (what <= 5) {  // what an append leaves behind
      auto got = keys(log->AllEntries()), want = m.range(m.base + 1, m.last() + 1, craft::RaftLog::kNoLimit);
      if (got != want) c.fail("content", "the log is " + join(got) + " want " + join(want) + at);
    }
    expect(log->LastIndex() == m.last(), "LastIndex " + ull(log->LastIndex()) + " want " + ull(m.last()) + at);
    expect(log->LastTerm() == m.term(m.last()), "LastTerm" + at);
    expect(log->Committed() == m.committed, "Committed " + ull(log->Committed()) + " want " + ull(m.committed) + at);
    expect(log->Applied() == m.applied, "Applied " + ull(log->Applied()) + " want " + ull(m.applied) + at);
    for (uint64_t i = m.base ? m.base - 1 : 0; i <= m.last() + 1; i++) {
      auto [t, s] = log->Term(i);
      expect(s.IsOK() ? t == m.term(i) : (i < m.base && t == 0), "Term(" + ull(i) + ") is " + ull(t) + " want " + ull(m.term(i)) + at);
    }
    eq_range(log->UnstableEntries(), m.range(m.saved + 1, m.last() + 1, craft::RaftLog::kNoLimit), "next-to-persist entries" + at);
    expect(log->HasPendingSnapshot() == (m.snap != 0), "HasPendingSnapshot" + at);
    uint64_t from = std::max(m.applied, m.base) + 1;
    expect(log->HasNextEnts() == (from <= m.committed), "HasNextEnts" + at);
    auto ne = log->NextEnts();
    eq_range(ne, from <= m.committed ? m.range(from, m.committed + 1, next_max) : std::vector<std::string>(), "next-to-apply entries" + at);
    if (opi % 3 == 0) hold(ne, "next-to-apply");
    for (auto& h : held)
      if (keys(h.live) != h.copy) c.fail("immutable", "entries handed out earlier (" + h.what + ") changed from " + join(h.copy) + " to " + join(keys(h.live)) + at);
    c.mix(mix64(m.last() * 31 + m.committed, m.saved * 7 + m.applied));
  }
  if (truncs) c.label("truncation");
  if (restores) c.label("snapshot_restore");
  if (crossing) c.label("read_across_boundary");
  if (persists) c.label("persisted");
  if (stale_acks) c.label("ack_of_truncated_batch");
  if (compacts) c.label("compaction");
  c.nontrivial = persists && crossing && (truncs || restores || compacts);
  c.summary = fmt("%zu ops from base %llu: %d truncations, %d restores, %d compactions, %d reads across the boundary, log ends [%llu..%llu] committed %llu applied %llu",
                  c.t.ops.size(), (unsigned long long)base, truncs, restores, compacts, crossing, (unsigned long long)m.base + 1, (unsigned long long)m.last(),
                  (unsigned long long)m.committed, (unsigned long long)m.applied);
}

PBT_CHECK_DEF("C22", run_log, 5, 120, 160000, 6000000,
              "case = initial storage (snapshot, entries) + up to 120 operations (append, truncating append, follower append with matching or "
              "mismatching previous entry, commit, take/write/acknowledge a batch with interleavings, snapshot restore, apply, compaction, range/term "
              "queries with size limits); the full visible state is compared with a flat array after every operation. Non-trivial: at least one batch "
              "acknowledged, one read across the stored/pending boundary, and one truncation, restore or compaction.",
              "plain");

}  // namespace
