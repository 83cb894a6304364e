// C23: MemoryStorage against a simple model; everything handed in or out stays as it was.
#include "src/storage.h"
#include "unit.h"

using namespace pbt;
using namespace craft;

namespace {

std::string payload(uint64_t i, uint64_t t) {
  uint64_t h = mix64(i, t);
  size_t n = h % 5 == 0 ? 0 : h % 7 == 0 ? 150 + h % 97 : h % 40;
  return std::string(n, 'a' + h % 26);
}
EntryPtr ent(uint64_t i, uint64_t t) { return mk_entry(i, t, payload(i, t)); }

struct Model {
  uint64_t off = 0, off_term = 0;
  std::vector<uint64_t> terms;
  std::string hs;
  uint64_t snap = 0, snap_term = 0;
  std::string snap_data, snap_cs;
  uint64_t last() const { return off + terms.size(); }
  uint64_t term(uint64_t i) const { return i == off ? off_term : terms[i - off - 1]; }
};
template <class T>
struct Frozen {
  std::shared_ptr<T> live;
  std::string copy;
  const char* what;
};
struct FrozenList {
  EntryPtrs live;
  std::vector<std::string> copy;
};
std::vector<std::string> keys(const EntryPtrs& es) {
  std::vector<std::string> v;
  for (auto& e : es) v.push_back(e ? ekey(*e) : "<null>");
  return v;
}

void run_storage(Ctx& c) {
  auto lg = make_logger(c);
  MemoryStorage st(lg);
  Model m;
  m.hs = ser(raftpb::HardState());
  m.snap_cs = ser(raftpb::ConfState());
  uint64_t T = 1;
  std::vector<Frozen<raftpb::Snapshot>> fsnaps;
  std::vector<Frozen<raftpb::Entry>> fents;
  std::vector<FrozenList> flists;
  int overwrites = 0, compacts = 0, snaps = 0, applied = 0, limited = 0, refused = 0;
  auto expect = [&](bool ok, const std::string& what) { if (!ok) c.fail("model", what); };
  auto is_err = [&](const Status& s, const char* e) { return !s.IsOK() && strstr(s.Str(), e); };
  auto ull = [](uint64_t x) { return std::to_string(x); };
  auto mk_cs = [](Rng& r) {
    raftpb::ConfState cs;
    for (uint64_t k = 1; k <= 4; k++) {
      if (r.below(2)) cs.add_voters(k);
      else if (r.below(3) == 0) cs.add_learners(k);
      if (r.below(5) == 0) cs.add_voters_outgoing(k);
      if (r.below(6) == 0) cs.add_learners_next(k);
    }
    cs.set_auto_leave(r.below(2));
    return cs;
  };
  auto hold_snap = [&](const SnapshotPtr& s, const char* w) {
    if (!s) return;
    fsnaps.push_back({s, ser(*s), w});
    if (fsnaps.size() > 12) fsnaps.erase(fsnaps.begin() + 3);
  };
  auto hold = [&](const EntryPtrs& es, const char* w) {
    if (es.empty()) return;
    flists.push_back({es, keys(es)});
    if (flists.size() > 12) flists.erase(flists.begin() + 3);
    fents.push_back({es.back(), ekey(*es.back()), w});
    if (fents.size() > 24) fents.erase(fents.begin() + 5);
  };

  size_t opi = 0;
  for (auto& op : c.t.ops) {
    opi++;
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    c.events++;
    int what = op.w[0] % 12;
    // a position known to the storage, or one below
    auto near = [&]() -> uint64_t {
      uint64_t lo = m.last() > 200 && r.below(6) ? m.off - std::min<uint64_t>(m.off, 3) : 0;
      return lo + r.below(m.last() + 1 - lo);
    };
    switch (what) {
      case 0: {
        raftpb::HardState hs;
        hs.set_term(r.below(16) ? r.below(10) : (1ull << 32) + r.below(10));
        hs.set_vote(r.below(5));
        if (r.below(8)) hs.set_commit(near());
        expect(st.SetHardState(hs).IsOK(), "SetHardState failed");
        m.hs = ser(hs);
        hs.set_term(99);
        break;
      }
      case 1: case 2: case 3: {  // append anywhere that leaves no gap
        uint64_t lo = m.off > 3 ? m.off - 3 : 1;
        uint64_t at = r.below(3) == 0 ? m.last() + 1 : lo + r.below(m.last() + 2 - lo);
        uint64_t n = r.below(c.h(20) % 32 == 31 && r.below(3) == 0 ? 400 : 6);
        if (r.below(3) == 0) T++;
        EntryPtrs es;
        for (uint64_t k = 0; k < n; k++) es.push_back(ent(at + k, T));
        hold(es, "entries handed to Append");
        EntryPtrs in = es;
        expect(st.Append(es).IsOK(), "Append failed");
        expect(in == es, "Append changed the list it was given");
        if (n && at + n - 1 > m.off) {
          uint64_t from = std::max(at, m.off + 1);
          if (from <= m.last()) overwrites++;
          m.terms.resize(from - m.off - 1);
          for (uint64_t i = from; i < at + n; i++) m.terms.push_back(T);
        }
        break;
      }
      case 4: case 5: {
        uint64_t i = near();
        if (r.below(3) == 0) i = m.last();
        if (i > m.snap && i < m.off) break;  // a position that was compacted away without a snapshot: caller error
        bool with_cs = r.below(3) != 0;
        auto cs = mk_cs(r);
        std::string d = "snap" + ull(r.below(1000));
        auto [s, status] = st.CreateSnapshot(i, with_cs ? &cs : nullptr, d);
        if (i <= m.snap) {
          refused++;
          expect(is_err(status, kErrSnapOutOfDate), "CreateSnapshot(" + ull(i) + ") with snapshot at " + ull(m.snap) + " must be refused as out of date");
        } else {
          snaps++;
          m.snap = i;
          m.snap_term = m.term(i);
          m.snap_data = d;
          if (with_cs) m.snap_cs = ser(cs);
          expect(status.IsOK() && s, "CreateSnapshot(" + ull(i) + ") failed");
          expect(s->metadata().index() == i && s->metadata().term() == m.snap_term && s->data() == d && ser(s->metadata().conf_state()) == m.snap_cs,
                 "CreateSnapshot(" + ull(i) + ") returned " + s->ShortDebugString());
          hold_snap(s, "returned by CreateSnapshot");
        }
        break;
      }
      case 6: {
        auto s = std::make_shared<raftpb::Snapshot>();
        uint64_t i = r.below(2) ? m.last() + r.below(4) : near() + r.below(3);
        if (r.below(16) == 0 && m.last() < 1ull << 61) {  // positions and terms beyond 32 bits
          static const uint64_t kFar[] = {0x7ffffff8ull, 0xfffffff8ull, 1ull << 40, 1ull << 61};
          i = m.last() + kFar[r.below(4)];
          if (T < 1ull << 61 && r.below(2)) T += kFar[r.below(4)];
        }
        s->mutable_metadata()->set_index(i);
        // often a position the log already holds, with the very same term
        uint64_t it = i > m.off && i <= m.last() && r.below(3) ? m.term(i) : ++T;
        s->mutable_metadata()->set_term(it);
        s->set_data("recv" + ull(i));
        *s->mutable_metadata()->mutable_conf_state() = mk_cs(r);
        hold_snap(s, "handed to ApplySnapshot");
        std::string before = ser(*s);
        auto status = st.ApplySnapshot(s);
        if (i <= m.snap) {
          refused++;
          expect(is_err(status, kErrSnapOutOfDate), "ApplySnapshot(" + ull(i) + ") with snapshot at " + ull(m.snap) + " must be refused as out of date");
        } else {
          applied++;
          expect(status.IsOK(), "ApplySnapshot failed");
          m.snap = m.off = i;
          m.snap_term = m.off_term = it;
          m.terms.clear();
          m.snap_data = s->data();
          m.snap_cs = ser(s->metadata().conf_state());
        }
        break;
      }
      case 7: {
        uint64_t i = near();
        auto status = st.Compact(i);
        if (i <= m.off) {
          refused++;
          expect(is_err(status, kErrCompacted), "Compact(" + ull(i) + ") at or below " + ull(m.off) + " must report compaction");
        } else {
          compacts++;
          expect(status.IsOK(), "Compact(" + ull(i) + ") failed");
          m.off_term = m.term(i);
          m.terms.erase(m.terms.begin(), m.terms.begin() + (i - m.off));
          m.off = i;
        }
        break;
      }
      case 8: {
        auto [s, status] = st.SnapShot();
        expect(status.IsOK() && s, "SnapShot failed");
        hold_snap(s, "returned by SnapShot");
        break;
      }
      default: {
        uint64_t lo = m.off > 2 ? m.off - 2 + r.below(4) : r.below(4);
        if (r.below(2)) lo = m.off + 1 + r.below(m.terms.size() + 1);
        if (lo > m.last() + 1) lo = m.last() + 1;
        uint64_t hi = lo + r.below(m.last() + 2 - lo);
        uint64_t mx = r.below(3) == 0 ? UINT64_MAX : r.below(3) == 0 ? 0 : r.below(500);
        auto [es, status] = st.Entries(lo, hi, mx);
        std::string call = "Entries(" + ull(lo) + "," + ull(hi) + "," + ull(mx) + ")";
        if (lo <= m.off) {
          refused++;
          expect(is_err(status, kErrCompacted) && es.empty(), call + " below the first entry must report compaction");
        } else if (m.terms.empty()) {
          expect(is_err(status, kErrUnavailable) && es.empty(), call + " on an empty log must report unavailability");
        } else {
          std::vector<std::string> want;
          uint64_t size = 0;
          for (uint64_t i = lo; i < hi; i++) {
            auto e = ent(i, m.term(i));
            size += e->ByteSizeLong();
            if (i != lo && size > mx) { limited++; break; }
            want.push_back(ekey(*e));
          }
          expect(status.IsOK(), call + " failed");
          expect(keys(es) == want, call + fmt(" returned %zu entries, want %zu (or other contents)", es.size(), want.size()));
          if (hi > lo) expect(!es.empty(), call + " returned nothing");
          hold(es, "entries returned");
        }
      }
    }
    std::string at = fmt(" after op %zu (kind %d)", opi, what);
    auto [fi, s1] = st.FirstIndex();
    auto [li, s2] = st.LastIndex();
    expect(s1.IsOK() && fi == m.off + 1, "FirstIndex " + ull(fi) + " want " + ull(m.off + 1) + at);
    expect(s2.IsOK() && li == m.last(), "LastIndex " + ull(li) + " want " + ull(m.last()) + at);
    for (uint64_t i = m.off > 2 ? m.off - 2 : 0; i <= m.last() + 2; i++) {
      auto [t, s] = st.Term(i);
      if (i < m.off) expect(is_err(s, kErrCompacted), "Term(" + ull(i) + ") must report compaction" + at);
      else if (i > m.last()) expect(is_err(s, kErrUnavailable), "Term(" + ull(i) + ") must report unavailability" + at);
      else expect(s.IsOK() && t == m.term(i), "Term(" + ull(i) + ")=" + ull(t) + " want " + ull(m.term(i)) + at);
    }
    if (!m.terms.empty()) {
      auto [es, s] = st.Entries(m.off + 1, m.last() + 1, UINT64_MAX);
      expect(s.IsOK() && es.size() == m.terms.size(), "full read" + at);
      for (size_t k = 0; k < es.size(); k++) expect(ekey(*es[k]) == ekey(*ent(m.off + 1 + k, m.terms[k])), "entry " + ull(m.off + 1 + k) + " differs" + at);
    }
    auto [hs, cs, s3] = st.InitialState();
    expect(s3.IsOK() && ser(hs) == m.hs, "hard state " + hs.ShortDebugString() + at);
    expect(ser(cs) == m.snap_cs, "membership " + cs.ShortDebugString() + at);
    auto [sn, s4] = st.SnapShot();
    expect(s4.IsOK() && sn && sn->metadata().index() == m.snap && sn->metadata().term() == m.snap_term && sn->data() == m.snap_data &&
               ser(sn->metadata().conf_state()) == m.snap_cs, "snapshot " + (sn ? sn->ShortDebugString() : "null") + " want index " + ull(m.snap) + at);
    for (auto& f : fsnaps)
      if (ser(*f.live) != f.copy) c.fail("immutable", std::string("a snapshot ") + f.what + " changed later to " + f.live->ShortDebugString() + at);
    for (auto& f : fents)
      if (ekey(*f.live) != f.copy) c.fail("immutable", std::string("an entry (") + f.what + ") changed later" + at);
    for (auto& f : flists)
      if (keys(f.live) != f.copy) c.fail("immutable", "a list of entries handed out or in changed later" + at);
    c.mix(mix64(m.last() * 31 + m.off, m.snap));
  }
  if (overwrites) c.label("overwriting_append");
  if (compacts) c.label("compaction");
  if (snaps) c.label("create_snapshot");
  if (applied) c.label("apply_snapshot");
  if (limited) c.label("size_limited_read");
  if (refused) c.label("refused_call");
  c.nontrivial = overwrites && compacts && (snaps + applied) >= 2;
  c.summary = fmt("%zu ops: %d overwriting appends, %d compactions, %d+%d snapshots, %d size-limited reads, %d refused calls; ends with log [%llu..%llu], snapshot %llu",
                  c.t.ops.size(), overwrites, compacts, snaps, applied, limited, refused, (unsigned long long)m.off + 1, (unsigned long long)m.last(), (unsigned long long)m.snap);
}

PBT_CHECK_DEF("C23", run_storage, 5, 100, 120000, 3000000,
              "case = up to 100 calls (save state, append incl. overlapping compacted and existing parts, create/apply snapshots at good and stale "
              "positions, compact at good and stale positions, range reads with size limits); full visible state compared with a model after every call, "
              "and up to 48 values handed in or out earlier re-compared with frozen copies. Non-trivial: an append overwrote entries, a compaction "
              "happened and at least two snapshots were stored.",
              "plain");

}  // namespace
