// C21: a follower fed with protocol-conformant appends, heartbeats and snapshots of one consistent family of leader
// logs (duplicated, delayed, overlapping) behaves like a reference follower; probing then converges.
#include "src/rawnode.h"
#include "src/storage.h"
#include "refconf.h"
#include "unit.h"

using namespace pbt;
using namespace craft;

namespace {

std::string payload(uint64_t i, uint64_t t) {
  uint64_t h = mix64(i, t);
  return std::string(h % 5 == 0 ? 0 : h % 24, 'a' + h % 26);
}
// Everything here counts positions and terms from a start, which the library sees at an offset (possibly beyond 32 bits).
struct Far { uint64_t pos = 0, term = 0; };
EntryPtr ent(const Far& far, uint64_t i, uint64_t t) { return mk_entry(i + far.pos, t + far.term, payload(i, t)); }
// What the library gets for a message in terms of the start.
void move_away(const Far& far, raftpb::Message* m) {
  m->set_term(m->term() + far.term);
  if (m->type() == raftpb::MsgSnap) {
    auto* md = m->mutable_snapshot()->mutable_metadata();
    md->set_index(md->index() + far.pos);
    md->set_term(md->term() + far.term);
    return;
  }
  m->set_commit(m->commit() + far.pos);
  if (m->type() != raftpb::MsgApp) return;
  m->set_index(m->index() + far.pos);
  m->set_logterm(m->logterm() + far.term);
  for (auto& e : *m->mutable_entries()) e.set_index(e.index() + far.pos), e.set_term(e.term() + far.term);
}

using Terms = std::vector<uint64_t>;  // Terms[k]: term of entry k+1
struct Leader {
  uint64_t term, id;
  Terms log;                                            // final log
  std::vector<std::pair<uint64_t, uint64_t>> versions;  // (length, commit) over time
};

struct RefFollower {
  uint64_t term = 0, vote = 0, lead = 0, commit = 0, base = 0;
  Terms log;
  RefConf conf;
  uint64_t at(uint64_t i) const { return i == 0 || i > log.size() ? 0 : log[i - 1]; }
  uint64_t last() const { return log.size(); }
};
std::string tstr(const Terms& t) {
  std::string s = "[";
  for (auto x : t) s += std::to_string(x) + " ";
  return s + "]";
}

void run_follower(Ctx& c) {
  auto lg = make_logger(c);
  Rng r(mix64(c.h(0), c.h(1)));
  Far far;
  if (c.h(8) % 3 == 0) {
    static const uint64_t kFar[] = {1, 0x7ffffff8ull, 0xfffffff8ull, 1ull << 40, 1ull << 62};
    far.pos = kFar[(c.h(8) / 3) % 5];
    far.term = kFar[c.h(9) % 5];
  }
  // ---- a family of leader logs as elections and replication could have produced them
  std::vector<Leader> leaders;
  Terms committed;  // the agreed prefix
  uint64_t t = 0;
  size_t nl = 2 + r.below(6);
  std::vector<Terms> logs{{}};
  for (size_t k = 0; k < nl; k++) {
    t += 1 + (r.below(4) == 0 ? r.below(3) : 0);
    std::vector<Terms> ok;
    for (auto& l : logs)
      if (l.size() >= committed.size() && std::equal(committed.begin(), committed.end(), l.begin())) ok.push_back(l);
    Leader L;
    L.term = t;
    L.id = 2 + r.below(2);
    L.log = ok[r.below(ok.size())];
    if (r.below(2)) L.log.resize(committed.size() + r.below(L.log.size() - committed.size() + 1));
    uint64_t com = committed.size() - (committed.empty() ? 0 : r.below(std::min<size_t>(committed.size(), 3) + 1));
    for (uint64_t i = 0, n = 1 + r.below(c.h(20) % 32 == 31 ? 200 : 9); i < n; i++) {
      L.log.push_back(t);
      L.versions.push_back({L.log.size(), com});
      if (r.below(4) == 0 && L.log.size() > committed.size()) {
        // commits up to some own-term entry
        uint64_t c2 = L.log.size() - r.below(i + 1);
        if (c2 > com && L.log[c2 - 1] == t && c2 >= committed.size()) {
          com = c2;
          committed.assign(L.log.begin(), L.log.begin() + c2);
          L.versions.push_back({L.log.size(), com});
        }
      }
    }
    logs.push_back(L.log);
    leaders.push_back(L);
  }
  // ---- the follower's starting point: some leader's log, cut somewhere, commit below
  RefFollower f;
  uint64_t start_snap = 0;
  {
    size_t k = r.below(leaders.size());
    auto& L = leaders[k];
    auto& v = L.versions[r.below(L.versions.size())];
    uint64_t len = r.below(v.first + 1);
    f.log.assign(L.log.begin(), L.log.begin() + len);
    f.commit = std::min<uint64_t>(r.below(v.second + 1), len);
    f.term = L.term;
    if (len == 0) f.term = 0;
    if (f.commit && r.below(2)) start_snap = 1 + r.below(f.commit);
    f.base = start_snap;
  }
  auto st = std::make_shared<MemoryStorage>(lg);
  raftpb::ConfState cs;
  for (int i = 1; i <= 3; i++) cs.add_voters(i);
  f.conf = RefConf::from(cs);
  uint64_t conf_seed = c.h(6) % 3 ? c.h(7) : 0;
  // The membership as of a position: the receiver may be a voter, a learner, only an outgoing voter, or no member.
  auto conf_of = [&](uint64_t i) {
    RefConf k;
    k.in = {1, 2, 3};
    if (!conf_seed) return k;
    Rng g(mix64(conf_seed, i));
    k.in = {2, 3};
    if (g.below(3) == 0) k.in.insert(4);
    switch (g.below(8)) {
      case 0: case 1: k.in.insert(1); break;
      case 2: k.learners.insert(1); break;
      case 3: k.out = {1, 2, 3}; break;
      case 4: k.out = {1, 2}; k.next.insert(1); break;
      case 5: k.in.insert(1); k.out = {2, 3, 5}; break;
      case 6: k.learners.insert(1); k.out = {2, 3, 5}; break;
      default: if (g.below(2)) k.out = {2, 3, 5}; break;  // not a member
    }
    k.auto_leave = k.joint() && g.below(2);
    if (g.below(4) == 0) k.learners.insert(7);
    return k;
  };
  // Position 0 carries the membership in a start snapshot when there is none yet.
  {
    auto s = std::make_shared<raftpb::Snapshot>();
    if (start_snap || far.pos) {
      s->mutable_metadata()->set_index(start_snap + far.pos);
      s->mutable_metadata()->set_term(f.at(start_snap) + far.term);
      *s->mutable_metadata()->mutable_conf_state() = cs;
      st->ApplySnapshot(s);
    } else {
      *st->GetSnapshot()->mutable_metadata()->mutable_conf_state() = cs;
    }
    EntryPtrs es;
    for (uint64_t i = start_snap + 1; i <= f.last(); i++) es.push_back(ent(far, i, f.at(i)));
    st->Append(es);
    raftpb::HardState hs;
    hs.set_term(f.term + far.term);
    hs.set_commit(f.commit + far.pos);
    st->SetHardState(hs);
  }
  Raft::Config cfg;
  cfg.id = 1;
  cfg.election_tick = 10;
  cfg.heartbeat_tick = 1;
  cfg.storage = st;
  cfg.max_size_per_msg = c.h(2) % 2 ? UINT64_MAX : 60;
  cfg.max_inflight_msgs = 1 + c.h(3) % 8;
  cfg.check_quorum = c.h(4) % 2;
  cfg.pre_vote = c.h(5) % 2;
  cfg.logger = lg;
  auto n = RawNode::ReStart(cfg);
  bool reply_stale = cfg.check_quorum || cfg.pre_vote;
  std::map<uint64_t, uint64_t> acked;  // per leader term: what this follower confirmed
  int accepted = 0, rejected = 0, conflicts = 0, dups = 0, snaps = 0, stale = 0, hbs = 0, outsider = 0;
  std::vector<MsgPtr> sent;
  std::vector<std::string> sent_is;
  // Entries may be snapshotted away below this (persisted and applied).
  auto persist = [&](Rng& q) {
    if (!n->HasReady()) return;
    auto rd = n->GetReady();
    if (!IsEmptySnap(rd->snapshot)) st->ApplySnapshot(rd->snapshot);
    st->Append(rd->entries);
    if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
    n->Advance();
    uint64_t ap = n->GetRaft()->GetRaftLog()->Applied() - far.pos;
    if (q.below(4) == 0 && ap > f.base && !n->GetRaft()->GetRaftLog()->HasPendingSnapshot()) {
      uint64_t to = f.base + 1 + q.below(ap - f.base);
      if (to + far.pos > std::get<0>(st->FirstIndex()) - 1 && to + far.pos <= std::get<0>(st->LastIndex())) {
        st->Compact(to + far.pos);
        f.base = to;
      }
    }
  };
  auto check = [&](const std::string& at) {
    auto* raft = n->GetRaft();
    auto* log = raft->GetRaftLog();
    auto bad = [&](const std::string& m) {
      c.fail("follower", m + " " + at + fmt("; reference: term=%llu commit=%llu log=", (unsigned long long)f.term, (unsigned long long)f.commit) + tstr(f.log) + " node: " + log->String());
    };
    if (raft->Term() != f.term + far.term) bad(fmt("term %llu", (unsigned long long)raft->Term()));
    if (raft->Vote() != f.vote) bad(fmt("vote %llu want %llu", (unsigned long long)raft->Vote(), (unsigned long long)f.vote));
    if (raft->Lead() != f.lead) bad(fmt("leader %llu want %llu", (unsigned long long)raft->Lead(), (unsigned long long)f.lead));
    if (log->LastIndex() != f.last() + far.pos) bad(fmt("last position %llu", (unsigned long long)log->LastIndex()));
    if (log->Committed() != f.commit + far.pos) bad(fmt("commit %llu", (unsigned long long)log->Committed()));
    RefConf have = RefConf::from(raft->GetTracker().ConfState());
    if (!(have == f.conf)) bad("membership " + have.str() + " want " + f.conf.str());
    for (uint64_t i = log->FirstIndex() - far.pos; i <= f.last(); i++) {
      auto [tt, s] = log->Term(i + far.pos);
      if (!s.IsOK() || tt != f.at(i) + far.term) bad(fmt("entry %llu has term %llu", (unsigned long long)i, (unsigned long long)tt));
    }
    auto es = log->AllEntries();
    for (auto& e : es)
      if (ekey(*e) != ekey(*ent(far, e->index() - far.pos, f.at(e->index() - far.pos)))) bad(fmt("entry %llu has wrong contents", (unsigned long long)e->index()));
  };
  check("at start");
  uint64_t maxterm = f.term;
  size_t opi = 0;
  for (auto& op : c.t.ops) {
    opi++;
    Rng q(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    int what = op.w[0] % 16;
    if (what >= 13) {
      if (what == 13) { persist(q); check("after persisting"); }
      else if (what == 14 && q.below(3) == 0 && n->GetRaft()->State() == kFollower) {
        // loses an election of its own: only while a later leader exists; a pre-vote changes neither term nor vote
        if ((cfg.pre_vote || f.term + 1 <= leaders.back().term) && f.conf.is_voter(1) && !n->GetRaft()->GetRaftLog()->HasPendingSnapshot()) {
          persist(q);
          n->Campaign();
          if (!cfg.pre_vote) {
            f.term++;
            f.vote = 1;
          }
          f.lead = 0;
          n->GetRaft()->ReadAndClearMsgs();
          check("after campaigning");
        }
      } else if (what == 15 && q.below(3) == 0) {  // restart from what is stored
        persist(q);
        persist(q);
        persist(q);
        cfg.applied = n->GetRaft()->GetRaftLog()->Applied();
        n = RawNode::ReStart(cfg);
        f.lead = 0;
        check("after a restart");
      }
      continue;
    }
    // ---- make or repeat a message
    MsgPtr m;
    if (!sent.empty() && q.below(4) == 0) {
      size_t k = q.below(sent.size());
      m = std::make_shared<raftpb::Message>();
      m->ParseFromString(sent_is[k]);
      dups++;
    } else {
      // prefer leaders near the follower's term
      std::vector<size_t> near;
      for (size_t k = 0; k < leaders.size(); k++) if (leaders[k].term >= f.term) near.push_back(k);
      size_t k = near.empty() || q.below(6) == 0 ? q.below(leaders.size()) : q.below(3) ? near[0] : near[q.below(near.size())];
      auto& L = leaders[k];
      auto& v = L.versions[q.below(L.versions.size())];
      m = std::make_shared<raftpb::Message>();
      m->set_from(L.id);
      m->set_to(1);
      m->set_term(L.term);
      if (what < 9) {
        m->set_type(raftpb::MsgApp);
        uint64_t prev = q.below(v.first + 1);
        if (q.below(2)) {  // close to where the logs part
          uint64_t p = 0;
          while (p < f.last() && p < L.log.size() && f.log[p] == L.log[p]) p++;
          p = std::min<uint64_t>(p, v.first);
          prev = p + 2 >= q.below(4) ? std::min<uint64_t>(v.first, p + 2 - std::min<uint64_t>(p + 2, q.below(4))) : p;
        }
        uint64_t cnt = q.below(v.first - prev + 1);
        if (q.below(3) == 0) cnt = v.first - prev;
        m->set_index(prev);
        m->set_logterm(prev ? L.log[prev - 1] : 0);
        for (uint64_t i = prev + 1; i <= prev + cnt; i++) m->add_entries()->CopyFrom(*ent({}, i, L.log[i - 1]));
        m->set_commit(v.second);
      } else if (what < 11) {
        m->set_type(raftpb::MsgHeartbeat);
        m->set_commit(std::min(acked[L.term], q.below(3) ? v.second : q.below(v.second + 1)));
        if (q.below(2)) m->set_context("ctx" + std::to_string(q.below(9)));
      } else {
        if (!v.second) continue;
        m->set_type(raftpb::MsgSnap);
        uint64_t i = 1 + q.below(v.second);
        auto* md = m->mutable_snapshot()->mutable_metadata();
        md->set_index(i);
        md->set_term(L.log[i - 1]);
        *md->mutable_conf_state() = conf_of(i).to();
        m->mutable_snapshot()->set_data("s" + std::to_string(i));
      }
      sent.push_back(m);
      sent_is.push_back(ser(*m));
      m = std::make_shared<raftpb::Message>();
      m->ParseFromString(sent_is.back());
    }
    raftpb::Message in = *m;
    std::string desc = in.ShortDebugString().substr(0, 400);
    if (far.pos) desc += fmt(" (positions + %llu, terms + %llu)", (unsigned long long)far.pos, (unsigned long long)far.term);
    c.events++;
    if (c.verbose) fprintf(stderr, "op %zu: %s\n", opi, desc.c_str());
    // ---- reference
    RefFollower old = f;
    raftpb::Message want;
    bool reply = false;
    uint64_t common = 0;
    if (in.term() < f.term) {
      stale++;
      if (reply_stale && in.type() != raftpb::MsgSnap) {
        reply = true;
        want.set_type(raftpb::MsgAppResp);
      }
    } else {
      if (in.term() > f.term) { f.term = in.term(); f.vote = 0; }
      f.lead = in.from();
      reply = true;
      if (in.type() == raftpb::MsgHeartbeat) {
        hbs++;
        f.commit = std::max(f.commit, in.commit());
        want.set_type(raftpb::MsgHeartbeatResp);
        want.set_context(in.context());
      } else if (in.type() == raftpb::MsgSnap) {
        want.set_type(raftpb::MsgAppResp);
        uint64_t i = in.snapshot().metadata().index(), it = in.snapshot().metadata().term();
        RefConf sc = RefConf::from(in.snapshot().metadata().conf_state());
        if (i > f.commit && !sc.is_member(1)) {
          outsider++;  // taken before this node was added: ignored
          want.set_index(f.commit);
        } else if (i > f.commit && f.at(i) == it) {
          f.commit = i;  // the log already holds it
          want.set_index(f.commit);
        } else if (i > f.commit) {
          const Leader* L = nullptr;
          for (auto& x : leaders) if (x.term == in.term()) L = &x;
          f.log.assign(L->log.begin(), L->log.begin() + i);
          f.commit = f.base = i;
          f.conf = sc;
          want.set_index(i);
          snaps++;
        } else {
          want.set_index(f.commit);
        }
      } else {
        want.set_type(raftpb::MsgAppResp);
        uint64_t prev = in.index();
        const Leader* L = nullptr;
        for (auto& x : leaders) if (x.term == in.term()) L = &x;
        while (common < f.last() && common < L->log.size() && f.log[common] == L->log[common]) common++;
        if (prev < f.commit) {
          want.set_index(f.commit);
        } else if (prev <= f.last() && f.at(prev) == in.logterm()) {
          accepted++;
          uint64_t lastnew = prev + in.entries_size();
          for (int k = 0; k < in.entries_size(); k++) {
            uint64_t i = prev + 1 + k;
            if (i <= f.last() && f.at(i) == in.entries(k).term()) continue;
            if (i <= f.last()) conflicts++;
            f.log.resize(i - 1);
            for (; k < in.entries_size(); k++) f.log.push_back(in.entries(k).term());
            break;
          }
          f.commit = std::max(f.commit, std::min(in.commit(), lastnew));
          want.set_index(lastnew);
        } else {
          rejected++;
          want.set_reject(true);
          want.set_index(prev);
          uint64_t h = std::min(prev, f.last());
          while (h > 0 && f.at(h) > in.logterm()) h--;
          want.set_rejecthint(h);
          want.set_logterm(f.at(h));
        }
      }
      if (!want.reject() && want.type() == raftpb::MsgAppResp) acked[f.term] = std::max(acked[f.term], want.index());
    }
    bool current = in.term() >= old.term;
    move_away(far, m.get());
    auto s = n->Step(m);
    if (!s.IsOK()) c.fail("follower", std::string("Step returned an error: ") + s.Str() + " for " + desc);
    auto out = n->GetRaft()->ReadAndClearMsgs();
    if (out.size() != (reply ? 1u : 0u)) c.fail("reply", fmt("%zu replies, want %d, to ", out.size(), reply) + desc);
    if (reply) {
      auto& o = *out[0];
      o.set_term(o.term() - far.term);
      if (current && o.type() == raftpb::MsgAppResp) o.set_index(o.index() - far.pos);
      if (o.reject()) o.set_rejecthint(o.rejecthint() - far.pos), o.set_logterm(o.logterm() - far.term);
      std::string got = o.ShortDebugString();
      if (o.type() != want.type() || o.to() != in.from() || o.from() != 1 || o.term() != f.term || o.index() != want.index() ||
          o.reject() != want.reject() || o.context() != want.context())
        c.fail("reply", "reply {" + got + "} want {" + want.ShortDebugString() + fmt(" term %llu} to {", (unsigned long long)f.term) + desc + "} with log " + tstr(old.log) + fmt(" commit %llu", (unsigned long long)old.commit));
      if (want.reject()) {
        uint64_t h = o.rejecthint();
        if (h < common) c.fail("hint", fmt("the hint %llu skips the common prefix, which ends at %llu: {", (unsigned long long)h, (unsigned long long)common) + got + "} to {" + desc + "} with log " + tstr(old.log));
        if (h != want.rejecthint() || o.logterm() != want.logterm())
          c.fail("hint", fmt("hint %llu/%llu want %llu/%llu: ", (unsigned long long)h, (unsigned long long)o.logterm(), (unsigned long long)want.rejecthint(), (unsigned long long)want.logterm()) + desc + " with log " + tstr(old.log) + fmt(" base %llu", (unsigned long long)f.base));
      }
    }
    check("after {" + desc + "} on log " + tstr(old.log) + fmt(" commit %llu", (unsigned long long)old.commit));
    c.mix(mix64(f.last() * 1000 + f.commit, f.term));
    maxterm = std::max(maxterm, f.term);
  }
  // ---- probing: a real leader holding the newest log brings the follower in line within one probe per term
  int probes = 0;
  {
    auto& L = leaders.back();
    auto st2 = std::make_shared<MemoryStorage>(lg);
    if (far.pos) {
      auto s = std::make_shared<raftpb::Snapshot>();
      s->mutable_metadata()->set_index(far.pos);
      s->mutable_metadata()->set_term(far.term);
      *s->mutable_metadata()->mutable_conf_state() = cs;
      st2->ApplySnapshot(s);
    } else {
      *st2->GetSnapshot()->mutable_metadata()->mutable_conf_state() = cs;
    }
    EntryPtrs es;
    std::set<uint64_t> lterms;
    for (uint64_t i = 1; i <= L.log.size(); i++) { es.push_back(ent(far, i, L.log[i - 1])); lterms.insert(L.log[i - 1]); }
    st2->Append(es);
    raftpb::HardState hs;
    hs.set_term(std::max(f.term, L.term) + far.term);
    hs.set_commit(L.versions.back().second + far.pos);
    st2->SetHardState(hs);
    auto cfg2 = cfg;
    cfg2.id = 2;
    cfg2.storage = st2;
    cfg2.applied = 0;
    cfg2.pre_vote = false;
    auto l = RawNode::ReStart(cfg2);
    auto drain = [&](RawNode& x, std::shared_ptr<MemoryStorage> s) {
      MsgPtrs out;
      while (x.HasReady()) {
        auto rd = x.GetReady();
        if (!IsEmptySnap(rd->snapshot)) s->ApplySnapshot(rd->snapshot);
        s->Append(rd->entries);
        if (!IsEmptyHardState(rd->hard_state)) s->SetHardState(rd->hard_state);
        for (auto& m : rd->messages) { auto k = std::make_shared<raftpb::Message>(); k->CopyFrom(*m); out.push_back(k); }
        x.Advance();
      }
      return out;
    };
    drain(*l, st2);
    drain(*n, st);
    l->Campaign();
    drain(*l, st2);
    auto vr = std::make_shared<raftpb::Message>();
    vr->set_type(raftpb::MsgVoteResp);
    vr->set_from(3);
    vr->set_to(2);
    vr->set_term(l->GetRaft()->Term());
    l->Step(vr);
    if (l->GetRaft()->State() != kLeader) c.fail("probe", "a candidate with a majority of grants is not leader");
    for (size_t round = 0; round < 400 + 4 * L.log.size(); round++) {
      auto a = drain(*l, st2);
      bool any = false;
      for (auto& m : a) if (m->to() == 1) { n->Step(m); any = true; }
      auto b = drain(*n, st);
      for (auto& m : b) if (m->to() == 2) { if (m->type() == raftpb::MsgAppResp && m->reject()) probes++; l->Step(m); any = true; }
      c.events += a.size() + b.size();
      if (!any) break;
    }
    auto* a = l->GetRaft()->GetRaftLog();
    auto* b = n->GetRaft()->GetRaftLog();
    if (b->LastIndex() != a->LastIndex() || b->Committed() != a->Committed() || a->Committed() != a->LastIndex())
      c.fail("probe", "after probing the follower is at " + b->String() + ", the leader at " + a->String());
    for (uint64_t i = b->FirstIndex(); i <= b->LastIndex(); i++)
      if (std::get<0>(a->Term(i)) != std::get<0>(b->Term(i))) c.fail("probe", "logs differ after probing at " + std::to_string(i));
    if (probes > (int)lterms.size() + 2) c.fail("probe", fmt("%d rejected probes with %zu terms in the leader's log", probes, lterms.size()));
  }
  if (far.pos) c.label("far");
  if (conflicts) c.label("conflict_truncation");
  if (snaps) c.label("snapshot_installed");
  if (outsider) c.label("snapshot_without_receiver");
  if (dups) c.label("repeated_message");
  if (stale) c.label("older_term");
  if (rejected) c.label("rejection");
  if (probes) c.label("probing_rejections");
  c.nontrivial = accepted >= 2 && rejected && (conflicts || snaps) && dups;
  c.summary = fmt("%zu leaders up to term %llu, %zu messages: %d accepted, %d rejected, %d conflicts, %d snapshots installed, %d heartbeats, %d older-term, %d repeated; %d rejected probes to converge",
                  leaders.size(), (unsigned long long)leaders.back().term, sent.size(), accepted, rejected, conflicts, snaps, hbs, stale, dups, probes);
}

PBT_CHECK_DEF("C21", run_follower, 5, 70, 150000, 6000000,
              "case = a consistent family of 2..7 leader logs (with commits, a third of them at positions and terms up to 2^62), a follower starting from any cut of one of them (optionally compacted), and "
              "up to 70 events: appends/heartbeats/snapshots any of those leaders could have sent at any time, repeats of earlier messages, persistence, "
              "compaction, restarts, lost elections; state and reply compared with a reference follower after each; then a real leader probes it. "
              "Non-trivial: >=2 accepted and >=1 rejected append, a conflict truncation or installed snapshot, and a repeated message.",
              "plain");

}  // namespace
