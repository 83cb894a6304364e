// C29: election and heartbeat timing of one node against a tick counter.
#include "src/rawnode.h"
#include "src/storage.h"
#include "unit.h"

using namespace pbt;
using namespace craft;

namespace {

struct One {
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<RawNode> n;
  Raft* raft() { return n->GetRaft(); }
  MsgPtrs drain() {
    MsgPtrs out;
    while (n->HasReady()) {
      auto rd = n->GetReady();
      if (!IsEmptySnap(rd->snapshot)) st->ApplySnapshot(rd->snapshot);
      st->Append(rd->entries);
      if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
      for (auto& m : rd->messages) out.push_back(m);
      n->Advance();
    }
    return out;
  }
};

One make(Ctx& c, Rng& r, const raftpb::ConfState& cs, int64_t et, int64_t hb, bool pv, bool cq, uint64_t nlog) {
  auto lg = make_logger(c);
  One o;
  o.st = std::make_shared<MemoryStorage>(lg);
  auto s = std::make_shared<raftpb::Snapshot>();
  s->mutable_metadata()->set_index(1);
  s->mutable_metadata()->set_term(1);
  *s->mutable_metadata()->mutable_conf_state() = cs;
  o.st->ApplySnapshot(s);
  EntryPtrs es;
  for (uint64_t i = 2; i < 2 + nlog; i++) es.push_back(mk_entry(i, 1, "x"));
  o.st->Append(es);
  raftpb::HardState hs;
  hs.set_term(1);
  hs.set_commit(1);
  o.st->SetHardState(hs);
  Raft::Config cfg;
  cfg.id = 1;
  cfg.election_tick = et;
  cfg.heartbeat_tick = hb;
  cfg.storage = o.st;
  cfg.max_size_per_msg = UINT64_MAX;
  cfg.max_inflight_msgs = 1 + r.below(20);
  cfg.check_quorum = cq;
  cfg.pre_vote = pv;
  cfg.logger = lg;
  o.n = RawNode::ReStart(cfg);
  return o;
}
bool campaigns(const MsgPtrs& ms) {
  for (auto& m : ms) if (m->type() == raftpb::MsgVote || m->type() == raftpb::MsgPreVote) return true;
  return false;
}
MsgPtr msg(raftpb::MessageType t, uint64_t from, uint64_t term) {
  auto m = std::make_shared<raftpb::Message>();
  m->set_type(t);
  m->set_from(from);
  m->set_to(1);
  m->set_term(term);
  return m;
}

void run_distribution(Ctx& c) {
  Rng r(mix64(c.h(1), c.h(2)));
  int et = 2 + c.h(3) % 9;
  if (c.h(3) / 9 % 12 == 0) et = 11 + c.h(3) / 108 % 50;
  int hb = 1 + c.h(4) % (et - 1);
  raftpb::ConfState cs;
  for (int i = 1; i <= 3; i++) cs.add_voters(i);
  bool pv = c.h(5) % 3 == 0;
  auto o = make(c, r, cs, et, hb, pv, c.h(6) % 2, 1);
  std::map<int, int> seen;
  int rounds = 30 * et + 100, k = 0;
  for (int i = 0; i < rounds;) {
    o.n->Tick();
    c.events++;
    k++;
    auto out = o.drain();
    if (campaigns(out)) {
      if (k < et || k > 2 * et - 1) c.fail("range", fmt("election after %d silent ticks, timeout is %d", k, et));
      seen[k]++;
      k = 0;
      i++;
      if (pv) {  // losing the pre-vote makes it a follower again with a fresh clock
        o.n->Step([&] { auto m = msg(raftpb::MsgPreVoteResp, 2, o.raft()->Term()); m->set_reject(true); return m; }());
        o.n->Step([&] { auto m = msg(raftpb::MsgPreVoteResp, 3, o.raft()->Term()); m->set_reject(true); return m; }());
        o.drain();
      }
    } else if (k >= 2 * et - 1) {
      c.fail("range", fmt("no election after %d silent ticks, timeout is %d", k, et));
    }
  }
  for (int v = et; v <= 2 * et - 1; v++)
    if (!seen.count(v)) c.fail("spread", fmt("in %d elections with timeout %d the wait of %d ticks never occurred", rounds, et, v));
  c.nontrivial = true;
  c.mix(et * 100 + seen[et] * 7 + seen[2 * et - 1]);
  c.label("distribution");
  c.summary = fmt("%d elections in a row with election timeout %d: waits %d..%d all occurred", rounds, et, et, 2 * et - 1);
}

// Timeouts far beyond what can be ticked through: the clock is set to just below the wait that was drawn.
void run_large(Ctx& c) {
  Rng r(mix64(c.h(1), c.h(2)));
  int bits = 12 + c.h(3) % 50;
  int64_t et = (int64_t)((1ull << bits) + (c.h(4) % 3 ? r.next() % (1ull << bits) : c.h(4) % 5)), hb = 1 + r.next() % (et - 1);
  raftpb::ConfState cs;
  for (int i = 1; i <= 3; i++) cs.add_voters(i);
  auto o = make(c, r, cs, et, hb, c.h(5) % 3 == 0, c.h(6) % 2, 1);
  int64_t lo = INT64_MAX, hi = 0;
  for (int i = 0; i < 30; i++) {
    o.n->Step(msg(raftpb::MsgHeartbeat, 2, o.raft()->Term() + 1));  // a new leader: a new wait is drawn
    o.drain();
    c.events++;
    int64_t v = o.raft()->RandomizedElectionTimeout();
    if (v < et || v > 2 * et - 1) c.fail("range", fmt("a wait of %lld ticks was drawn, the timeout is %lld", (long long)v, (long long)et));
    lo = std::min(lo, v);
    hi = std::max(hi, v);
    o.raft()->SetElectionElapsed(v - 2);
    o.n->Tick();
    if (campaigns(o.drain())) c.fail("range", fmt("election one tick before the wait of %lld ticks is over (timeout %lld)", (long long)v, (long long)et));
    o.n->Tick();
    if (!campaigns(o.drain())) c.fail("range", fmt("no election after the wait of %lld ticks (timeout %lld)", (long long)v, (long long)et));
  }
  if (hi - lo < et / 8) c.fail("spread", fmt("30 waits all lie in %lld..%lld, the timeout is %lld", (long long)lo, (long long)hi, (long long)et));
  c.nontrivial = true;
  c.mix((uint64_t)et);
  c.label("large_timeout");
  c.summary = fmt("30 waits with timeout %lld lie in %lld..%lld", (long long)et, (long long)lo, (long long)hi);
}

void run_events(Ctx& c) {
  Rng r(mix64(c.h(1), c.h(2)));
  int et = 2 + c.h(3) % 9, hb = 1 + c.h(4) % (et - 1);
  bool pv = c.h(5) % 2, cq = c.h(6) % 2;
  raftpb::ConfState cs;
  for (int i = 1; i <= 3; i++) cs.add_voters(i);
  cs.add_learners(4);
  auto o = make(c, r, cs, et, hb, pv, cq, 1 + c.h(7) % 7);
  uint64_t lead_of = 0;  // who sends as leader of the current term
  std::map<uint64_t, uint64_t> leader;
  int k = 0, quiet = 0, cuts = 0, snaps = 0, elections = 0, contacts = 0, votes = 0, noise = 0;
  std::string last_reset = "start";
  size_t opi = 0;
  (void)lead_of;
  for (auto& op : c.t.ops) {
    opi++;
    Rng q(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    c.events++;
    auto* raft = o.raft();
    uint64_t T = raft->Term();
    auto S = raft->State();
    if (S == kLeader) {  // not the subject here: a later leader takes over
      o.n->Step(msg(raftpb::MsgHeartbeat, 2, T + 1));
      leader[T + 1] = 2;
      o.drain();
      k = 0;
      continue;
    }
    int what = op.w[0] % 16;
    MsgPtrs out;
    bool reset_ok = false, tick = false;
    std::string d;
    uint64_t last = raft->GetRaftLog()->LastIndex(), lt = raft->GetRaftLog()->LastTerm(), com = raft->GetRaftLog()->Committed();
    if (what < 9) {
      int n = 1 + q.below(q.below(3) ? 2 : et + 2);
      for (int i = 0; i < n; i++) {
        auto before = o.raft()->State();
        if (c.h(12) % 3 == 0 && q.below(6) == 0) {  // the clock moves on, nothing else happens
          bool ready = o.n->HasReady();
          o.n->TickQuiesced();
          k++;
          quiet++;
          if (o.n->HasReady() != ready || o.raft()->State() != before || o.raft()->Term() != T)
            c.fail("quiesced", "a quiesced tick does more than move the clock");
          continue;
        }
        T = raft->Term();
        o.n->Tick();
        tick = true;
        k++;
        out = o.drain();
        bool camp = campaigns(out);
        if (camp) {
          elections++;
          if (k < et) c.fail("early", fmt("election %d ticks after %s, timeout is %d (role was %d)", k, last_reset.c_str(), et, (int)before));
          if (k > 2 * et - 1 && !quiet) c.fail("late", fmt("election %d ticks after %s, timeout is %d", k, last_reset.c_str(), et));
          k = 0;
          T = raft->Term();
          if (quiet) c.label("quiesced_ticks", quiet);
          quiet = 0;
          last_reset = "the previous election";
        } else if (k >= 2 * et - 1) {
          c.fail("late", fmt("no election %d ticks after %s, timeout is %d", k, last_reset.c_str(), et));
        }
      }
    } else {
      uint64_t from = 2 + q.below(2);
      MsgPtr m;
      switch (what) {
        case 9: case 10: {  // leader contact, current or later or older term
          uint64_t t = q.below(5) == 0 ? (T > 1 ? T - 1 : T) : q.below(4) == 0 ? T + 1 : T;
          if (t == T && raft->Vote() == 1 && S == kCandidate && q.below(2)) t = T + 1;
          if (!leader.count(t)) leader[t] = from;
          if (leader[t] == 1) { t = T + 1; leader[t] = from; }
          from = leader[t];
          int kind = q.below(8);
          auto* log = raft->GetRaftLog();
          if (kind < 3) {
            m = msg(raftpb::MsgHeartbeat, from, t);
            m->set_commit(com);
          } else if (kind < 5) {
            m = msg(raftpb::MsgApp, from, t);
            m->set_index(q.below(3) ? last : last + 1);
            m->set_logterm(lt);
            m->set_commit(com);
          } else if (kind < 7) {  // overlaps the log, may cut it short
            m = msg(raftpb::MsgApp, from, t);
            uint64_t prev = com + q.below(last - com + 1);
            m->set_index(prev);
            m->set_logterm(std::get<0>(log->Term(prev)));
            for (uint64_t i = prev + 1, n = q.below(4); i <= prev + n; i++) m->add_entries()->CopyFrom(*mk_entry(i, t, "y"));
            m->set_commit(com);
            if (t >= T) cuts++;
          } else {  // a snapshot: known, held already, or new
            m = msg(raftpb::MsgSnap, from, t);
            uint64_t i = 1 + q.below(last + 2);
            auto* md = m->mutable_snapshot()->mutable_metadata();
            md->set_index(i);
            md->set_term(i <= last ? i >= com ? std::get<0>(log->Term(i)) : 1 : t);
            *md->mutable_conf_state() = cs;
            if (t >= T) snaps++;
          }
          d = "leader contact";
          reset_ok = t >= T;
          if (reset_ok) contacts++;
          break;
        }
        case 11: case 12: {  // vote or pre-vote request
          bool pre = what == 12;
          uint64_t t = q.below(3) ? T + 1 : T;
          m = msg(pre ? raftpb::MsgPreVote : raftpb::MsgVote, from, t);
          m->set_index(q.below(2) ? last + q.below(3) : 0);
          m->set_logterm(m->index() ? lt : 0);
          d = pre ? "a pre-vote request" : "a vote request";
          break;
        }
        case 13: {  // replies to a campaign
          bool pre = S == kPreCandidate;
          m = msg(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, from, pre ? T + 1 : T);
          m->set_reject(q.below(3) != 0);
          if (m->reject() && pre) m->set_term(T);
          if (!m->reject() && !pre && S == kCandidate) { if (leader.count(T) && leader[T] != 1) continue; leader[T] = 1; }
          d = "a vote reply";
          break;
        }
        case 14: {  // things that must not matter
          noise++;
          switch (q.below(5)) {
            case 0: o.n->Propose("p"); break;
            case 1: o.n->ReadIndex("r" + std::to_string(opi)); break;
            case 2: o.n->ReportUnreachable(2); break;
            case 3: o.n->ReportSnapshot(2, kFailure); break;
            default: o.n->TransferLeader(3);
          }
          d = "a local request";
          break;
        }
        default: {
          noise++;
          static const raftpb::MessageType ty[] = {raftpb::MsgAppResp, raftpb::MsgHeartbeatResp, raftpb::MsgVoteResp, raftpb::MsgReadIndexResp};
          auto t = ty[q.below(4)];
          if (t == raftpb::MsgVoteResp && S == kCandidate) t = raftpb::MsgAppResp;
          m = msg(t, from, q.below(3) == 0 && T > 1 ? T - 1 : T);
          d = "a stray reply";
        }
      }
      if (m) o.n->Step(m);
      out = o.drain();
      for (auto& x : out) if (x->type() == raftpb::MsgVoteResp && !x->reject()) { reset_ok = true; votes++; d = "a cast vote"; }
    }
    raft = o.raft();
    if (!tick && (raft->Term() != T || raft->State() != S)) { reset_ok = true; if (d != "a cast vote") d = "a change of term or role by " + d; }
    if (reset_ok) { k = 0; quiet = 0; last_reset = d; }
    c.mix(mix64(raft->Term() * 8 + raft->State(), k));
  }
  if (elections) c.label("election");
  if (contacts) c.label("leader_contact");
  if (votes) c.label("vote_cast");
  if (cuts) c.label("overlapping_append");
  if (snaps) c.label("snapshot_from_leader");
  if (noise) c.label("irrelevant_input");
  c.nontrivial = elections >= 1 && contacts >= 1 && noise >= 1;
  c.summary = fmt("timeout %d pre_vote=%d check_quorum=%d: %d elections, %d leader contacts, %d votes cast, %d irrelevant inputs", et, pv, cq, elections, contacts, votes, noise);
}

void run_heartbeats(Ctx& c) {
  Rng r(mix64(c.h(1), c.h(2)));
  int et = 2 + c.h(3) % 9, hb = 1 + c.h(4) % (et - 1);
  bool pv = c.h(5) % 2, cq = c.h(6) % 2;
  raftpb::ConfState cs;
  uint64_t nv = 2 + c.h(8) % 4, nl = c.h(9) % 3;
  std::set<uint64_t> peers, voters;
  for (uint64_t i = 1; i <= nv; i++) { cs.add_voters(i); if (i > 1) peers.insert(i); voters.insert(i); }
  for (uint64_t i = nv + 1; i <= nv + nl; i++) { cs.add_learners(i); peers.insert(i); }
  if (c.h(10) % 3 == 0) {  // two active voter sets
    for (uint64_t i = 2; i <= 3; i++) { cs.add_voters_outgoing(i); peers.insert(i); voters.insert(i); }
    cs.add_voters_outgoing(9);
    peers.insert(9);
    voters.insert(9);
    if (nv < 3) { /* 3 may also be a learner above; keep the sets disjoint */
      raftpb::ConfState t = cs;
      cs.clear_learners();
      for (auto l : t.learners()) if (l != 3) cs.add_learners(l);
    }
  }
  auto o = make(c, r, cs, et, hb, pv, cq, 1 + c.h(7) % 5);
  std::map<uint64_t, uint64_t> match;
  std::map<uint64_t, int> since;
  int beats = 0, acks = 0, terms = 0;
  uint64_t led = 0;
  auto lead = [&] {
    if (o.raft()->State() == kLeader) return;
    o.drain();
    for (int i = 0; i < 4 && o.raft()->State() != kLeader; i++) {
      if (o.raft()->State() == kFollower) o.n->Campaign();
      o.drain();
      for (auto p : voters) if (p != 1) {
        bool pre = o.raft()->State() == kPreCandidate;
        if (o.raft()->State() == kLeader) break;
        o.n->Step(msg(pre ? raftpb::MsgPreVoteResp : raftpb::MsgVoteResp, p, pre ? o.raft()->Term() + 1 : o.raft()->Term()));
      }
      for (auto p : voters) if (p != 1 && o.raft()->State() == kCandidate) o.n->Step(msg(raftpb::MsgVoteResp, p, o.raft()->Term()));
    }
    if (o.raft()->State() != kLeader) c.fail("harness", "no leader with every vote granted");
    o.drain();
    match.clear();
    since.clear();
    led = o.raft()->Term();
    terms++;
  };
  lead();
  size_t opi = 0;
  for (auto& op : c.t.ops) {
    opi++;
    Rng q(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    c.events++;
    if (o.raft()->State() != kLeader || o.raft()->Term() != led) lead();
    uint64_t T = o.raft()->Term(), last = o.raft()->GetRaftLog()->LastIndex();
    std::vector<uint64_t> pv2(peers.begin(), peers.end());
    uint64_t p = pv2[q.below(pv2.size())];
    switch (op.w[0] % 8) {
      case 0: case 1: case 2: case 3: {
        o.n->Tick();
        auto out = o.drain();
        if (o.raft()->State() != kLeader) break;  // quorum check
        std::map<uint64_t, int> got;
        for (auto& m : out) if (m->type() == raftpb::MsgHeartbeat) {
          got[m->to()]++;
          if (m->commit() > match[m->to()]) c.fail("commit", fmt("heartbeat to %llu announces commit %llu, it confirmed %llu", (unsigned long long)m->to(), (unsigned long long)m->commit(), (unsigned long long)match[m->to()]));
        }
        for (auto x : peers) {
          since[x]++;
          bool due = since[x] == hb;
          if (due != (got[x] == 1) || got[x] > 1) c.fail("interval", fmt("%d heartbeats to %llu, %d ticks after the last one (interval %d)", got[x], (unsigned long long)x, since[x], hb));
          if (due) { since[x] = 0; beats++; }
        }
        break;
      }
      case 4: case 5: {
        auto m = msg(raftpb::MsgAppResp, p, T);
        uint64_t i = q.below(last + 1);
        m->set_index(i);
        match[p] = std::max(match[p], i);
        acks++;
        o.n->Step(m);
        o.drain();
        break;
      }
      case 6: {
        if (q.below(2)) o.n->Propose("v" + std::to_string(opi));
        else {
          auto m = msg(raftpb::MsgHeartbeatResp, p, T);
          o.n->Step(m);
        }
        o.drain();
        break;
      }
      default: {
        if (q.below(4) == 0) { o.n->Step(msg(raftpb::MsgHeartbeat, 2, T + 1)); o.drain(); }
        else if (q.below(3) == 0) {
          // heartbeats of a read request are extra and obey the same commit rule
          o.n->ReadIndex("r" + std::to_string(opi));
          for (auto& m : o.drain())
            if (m->type() == raftpb::MsgHeartbeat && m->commit() > match[m->to()]) c.fail("commit", "heartbeat of a read request announces an unconfirmed commit");
        } else {  // a rejection never counts as confirmation
          auto m = msg(raftpb::MsgAppResp, p, T);
          m->set_reject(true);
          m->set_index(q.below(last + 1));
          m->set_rejecthint(q.below(m->index() + 1));
          if (m->index() > match[p]) { o.n->Step(m); o.drain(); }
        }
      }
    }
    c.mix(mix64(o.raft()->Term(), o.raft()->GetRaftLog()->Committed()));
  }
  c.label("leader_case");
  c.nontrivial = beats >= 2 && acks;
  c.summary = fmt("leader of %zu peers, interval %d, timeout %d: %d heartbeats over %d terms, %d acknowledgements", peers.size(), hb, et, beats, terms, acks);
}

void run_c29(Ctx& c) {
  switch (c.h(0) % 16) {
    case 0: if (c.h(7) % 2) run_large(c); else run_distribution(c); break;
    case 1: case 2: case 3: case 4: case 5: run_heartbeats(c); break;
    default: run_events(c);
  }
}

PBT_CHECK_DEF("C29", run_c29, 10, 120, 120000, 3000000,
              "case = one node, election timeout 2..10, any heartbeat interval below it: (a) 45 elections per timeout tick in a row, all waits must fall in "
              "and cover [timeout, 2*timeout-1], or 30 waits with a timeout up to 2^62, the clock being set; (b) up to 120 events (ticks, leader contact at current/later/older terms, votes, pre-votes, replies, "
              "irrelevant input) with a silent-tick counter; (c) a leader with voters, learners or two voter sets, acks and ticks, heartbeats compared with "
              "the interval and confirmed positions. Non-trivial: (a) always; (b) an election, a leader contact and irrelevant input; (c) two heartbeats "
              "and an ack.",
              "plain");

}  // namespace
