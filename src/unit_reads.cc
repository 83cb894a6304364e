// C35: one node's handling of read requests, step by step, against a reference: who is answered when, with what, in which
// order, in both modes, as leader, follower and candidate.
#include "refconf.h"
#include "src/rawnode.h"
#include "src/storage.h"

using namespace pbt;
using namespace craft;

namespace {

struct Req {
  std::string ctx;
  uint64_t from;  // 1: asked here
  uint64_t index;
  std::set<uint64_t> acks;
};
using Answer = std::pair<uint64_t, std::string>;             // index, token
struct Remote { uint64_t to, index; std::string ctx; bool operator==(const Remote& o) const { return to == o.to && index == o.index && ctx == o.ctx; } };

std::string show(const std::vector<Answer>& a) {
  std::string s = "[";
  for (auto& x : a) s += x.second + "@" + std::to_string(x.first) + " ";
  return s + "]";
}
std::string show(const std::vector<Remote>& a) {
  std::string s = "[";
  for (auto& x : a) s += x.ctx + "@" + std::to_string(x.index) + "->" + std::to_string(x.to) + " ";
  return s + "]";
}

struct Reads {
  Ctx& c;
  Rng r;
  std::shared_ptr<MemoryStorage> st;
  std::unique_ptr<RawNode> n;
  RefConf conf;
  bool lease = false, pre_vote = false;
  int et = 10, hb = 1, beat = 0;
  uint64_t start = 0, next = 1;   // position of the first entry of this leadership; token counter
  bool was_leader = false;
  std::deque<Req> q, postponed, maybe;
  std::vector<std::string> old;
  std::vector<Answer> got_own, want_own;
  std::vector<Remote> got_remote, want_remote;
  MsgPtrs out;
  size_t answered = 0, released = 0, lost = 0, forwarded = 0;
  std::string d;

  explicit Reads(Ctx& cc) : c(cc), r(mix64(cc.h(1), cc.h(2))) {}

  raftpb::HardState hs() { return n->GetBasicStatus().hard_state; }
  bool leader() { return n->GetBasicStatus().soft_state.raft_state == RaftStateType::kLeader; }
  uint64_t lead() { return n->GetBasicStatus().soft_state.lead; }
  uint64_t last() { return n->GetRaft()->GetRaftLog()->LastIndex(); }

  void boot() {
    auto lg = make_logger(c);
    st = std::make_shared<MemoryStorage>(lg);
    raftpb::ConfState cs;
    cs.add_voters(1);
    uint64_t nv = c.h(3) % 5;
    for (uint64_t i = 0; i < nv; i++) cs.add_voters(2 + i);
    if (c.h(4) % 3 == 0) {
      if (c.h(4) % 2 || nv == 0) cs.add_voters_outgoing(1);
      uint64_t no = c.h(5) % 4, base = 2 + c.h(5) % 3;
      if (!cs.voters_outgoing_size() && !no) no = 1;
      for (uint64_t i = 0; i < no; i++) cs.add_voters_outgoing(base + i);
    }
    if (c.h(6) % 3 == 0) cs.add_learners(8);
    auto s = std::make_shared<raftpb::Snapshot>();
    static const uint64_t kFar[] = {0x7ffffff8ull, 0xffffffffull, 1ull << 40, 1ull << 62};
    uint64_t at = 1 + (c.h(12) % 6 == 5 ? kFar[c.h(12) / 6 % 4] : 0), t0 = 1 + (c.h(12) % 12 == 5 ? kFar[c.h(12) / 24 % 4] : 0);
    s->mutable_metadata()->set_index(at);
    s->mutable_metadata()->set_term(t0);
    *s->mutable_metadata()->mutable_conf_state() = cs;
    st->ApplySnapshot(s);
    EntryPtrs es;
    for (uint64_t i = 1; i < 1 + c.h(7) % 4; i++) es.push_back(mk_entry(at + i, t0, "x"));
    st->Append(es);
    raftpb::HardState h;
    h.set_term(t0);
    h.set_commit(at);
    st->SetHardState(h);
    lease = c.h(8) % 3 == 0;
    et = 5 + c.h(9) % 10;
    hb = 1 + c.h(9) / 16 % 3;
    Raft::Config cfg;
    cfg.id = 1;
    cfg.election_tick = et;
    cfg.heartbeat_tick = hb;
    cfg.storage = st;
    cfg.max_size_per_msg = UINT64_MAX;
    cfg.max_inflight_msgs = 1 + c.h(10) % 6;
    cfg.check_quorum = lease || c.h(11) % 4 == 0;
    cfg.read_only_option = lease ? ReadOnly::ReadOnlyOption::kLeaseBased : ReadOnly::ReadOnlyOption::kSafe;
    cfg.logger = lg;
    n = RawNode::ReStart(cfg);
    conf = RefConf::from(cs);
  }
  void drain() {
    while (n->HasReady()) {
      auto rd = n->GetReady();
      for (auto& x : rd->read_states) got_own.push_back({x.index, x.request_ctx});
      st->Append(rd->entries);
      if (!IsEmptyHardState(rd->hard_state)) st->SetHardState(rd->hard_state);
      for (auto& m : rd->messages) {
        out.push_back(m);
        if (m->type() == raftpb::MsgReadIndexResp)
          got_remote.push_back({m->to(), m->index(), m->entries_size() == 1 ? m->entries(0).data() : std::string("?")});
      }
      n->Advance();
    }
  }
  MsgPtr msg(raftpb::MessageType t, uint64_t from, uint64_t term) {
    auto m = std::make_shared<raftpb::Message>();
    m->set_type(t);
    m->set_from(from);
    m->set_to(1);
    m->set_term(term);
    return m;
  }
  void step(MsgPtr m) { n->Step(m); c.events++; }

  // ---- the reference ----
  void answer(const Req& x) {
    if (x.from == 1) want_own.push_back({x.index, x.ctx});
    else want_remote.push_back({x.from, x.index, x.ctx});
    answered++;
  }
  bool self_suffices() { return conf.quorum([](uint64_t id) { return id == 1; }); }
  std::vector<std::string> asked;  // tokens a heartbeat must now carry to every other voter
  void arrive(Req x, uint64_t commit) {
    x.index = commit;
    if (lease) { answer(x); return; }
    x.acks = {1};
    asked.push_back(x.ctx);
    q.push_back(x);
  }
  void request(Req x) {
    if (self_suffices() && hs().commit() >= start) { x.index = hs().commit(); answer(x); return; }
    if (hs().commit() < start) { postponed.push_back(x); return; }
    arrive(x, hs().commit());
  }
  void ack(uint64_t from, const std::string& ctx) {
    if (!conf.is_member(from) || lease) return;
    size_t at = q.size();
    for (size_t i = 0; i < q.size(); i++) if (q[i].ctx == ctx) at = i;
    if (at == q.size()) return;
    q[at].acks.insert(from);
    if (!conf.quorum([&](uint64_t id) { return q[at].acks.count(id) > 0; })) return;
    for (size_t i = 0; i <= at; i++) answer(q[i]);
    q.erase(q.begin(), q.begin() + at + 1);
  }

  void after() {
    drain();
    bool now = leader();
    if (now && !was_leader) {
      start = last();
      // a leadership begins: nothing recorded
      q.clear();
      for (auto& x : maybe) old.push_back(x.ctx);
    }
    if (!now && was_leader) {
      for (auto& x : q) old.push_back(x.ctx), lost++;
      q.clear();
      for (auto& x : postponed) maybe.push_back(x);
      postponed.clear();
      asked.clear();
      c.label("role lost");
    }
    if (now && hs().commit() >= start) {
      // postponed during an earlier leadership: may be taken up again, need not be
      for (auto& x : maybe) {
        bool seen = false;
        for (auto& m : out) seen |= m->type() == raftpb::MsgHeartbeat && m->context() == x.ctx;
        for (auto& a : got_own) seen |= a.second == x.ctx;
        for (auto& a : got_remote) seen |= a.ctx == x.ctx;
        if (seen) { arrive(x, hs().commit()); c.label("taken up by a later leadership"); }
      }
      maybe.clear();
      for (auto& x : postponed) { arrive(x, hs().commit()); released++; }
      postponed.clear();
    }
    was_leader = now;
    if (!(got_own == want_own)) c.fail("answers", "after " + d + ": read answers " + show(got_own) + ", want " + show(want_own));
    if (!(got_remote == want_remote)) c.fail("responses", "after " + d + ": answers to other nodes " + show(got_remote) + ", want " + show(want_remote));
    for (auto& t : asked)
      for (auto id : conf.voters()) {
        if (id == 1) continue;
        bool seen = false;
        for (auto& m : out) seen |= m->type() == raftpb::MsgHeartbeat && m->to() == id && m->context() == t;
        if (!seen) c.fail("not-asked", fmt("after %s: voter %llu is not asked to confirm read ", d.c_str(), (unsigned long long)id) + t);
      }
    for (auto& m : out) {
      if (m->type() != raftpb::MsgHeartbeat || m->context().empty()) continue;
      bool known = false;
      for (auto& x : q) known |= x.ctx == m->context();
      for (auto& t : asked) known |= t == m->context();
      for (auto& a : got_own) known |= a.second == m->context();
      for (auto& a : got_remote) known |= a.ctx == m->context();
      if (!known) c.fail("stray-context", "after " + d + ": a heartbeat carries " + m->context() + ", which is not pending");
    }
    asked.clear();
    got_own.clear();
    want_own.clear();
    got_remote.clear();
    want_remote.clear();
  }

  void run() {
    boot();
    after();
    for (auto& op : c.t.ops) {
      Rng g(mix64(mix64(op.w[1], op.w[2]), op.w[3]));
      out.clear();
      uint64_t term = hs().term();
      auto tok = [&] {
        std::string t = "t" + std::to_string(next++);
        if (g.below(5) == 0) t += std::string("\0z", 2);
        return t;
      };
      auto members = conf.members();
      members.erase(1);
      std::vector<uint64_t> ms(members.begin(), members.end());
      auto someone = [&] { return ms.empty() || g.below(9) == 0 ? (uint64_t)9 : ms[g.below(ms.size())]; };
      int what = op.w[0] % 24;
      if (!leader() && what < 9 && g.below(3)) what = 20;
      switch (what) {
        case 0: case 1: case 2: {  // a read asked here
          Req x{tok(), 1, 0, {}};
          d = "ReadIndex " + x.ctx;
          uint64_t l = lead();
          bool lead_now = leader();
          if (lead_now) request(x);
          n->ReadIndex(x.ctx);
          c.events++;
          after();
          if (!lead_now) passed(x, l);
          break;
        }
        case 3: case 4: {  // a read sent by another node
          Req x{tok(), someone(), 0, {}};
          auto m = msg(raftpb::MsgReadIndex, x.from, 0);
          m->add_entries()->set_data(x.ctx);
          d = fmt("MsgReadIndex from %llu ", (unsigned long long)x.from) + x.ctx;
          uint64_t l = lead();
          bool lead_now = leader();
          if (lead_now) request(x);
          step(m);
          after();
          if (!lead_now) passed(x, l);
          break;
        }
        case 5: case 6: case 7: case 8: case 9: case 10: case 11: {  // a heartbeat is confirmed
          uint64_t from = someone();
          std::string ctx;
          if (!q.empty() && g.below(7)) ctx = q[g.below(3) ? g.below(q.size()) : q.size() - 1].ctx;
          else if (!old.empty() && g.below(2)) ctx = old[g.below(old.size())];
          else if (!postponed.empty() && g.below(2)) ctx = postponed[g.below(postponed.size())].ctx;
          auto m = msg(raftpb::MsgHeartbeatResp, from, term);
          m->set_context(ctx);
          d = fmt("MsgHeartbeatResp from %llu ", (unsigned long long)from) + ctx;
          if (leader()) ack(from, ctx);
          step(m);
          after();
          break;
        }
        case 12: case 13: case 14: {  // entries are confirmed
          uint64_t from = someone();
          auto m = msg(raftpb::MsgAppResp, from, term);
          m->set_index(last() - std::min(last() - 1, (uint64_t)(g.below(2) ? 0 : g.below(4))));
          d = fmt("MsgAppResp from %llu %llu", (unsigned long long)from, (unsigned long long)m->index());
          if (leader()) step(m);
          after();
          break;
        }
        case 15: d = "Propose"; n->Propose("v" + std::to_string(next++)); after(); break;
        case 16: case 17: {
          d = "Tick";
          std::string want = q.empty() ? "" : q.back().ctx;
          bool lead_now = leader();
          n->Tick();
          c.events++;
          after();
          if (lead_now && leader())
            for (auto& m : out)
              if (m->type() == raftpb::MsgHeartbeat && m->context() != want)
                c.fail("repeat", "a periodic heartbeat carries '" + m->context() + "', the last pending read is '" + want + "'");
          break;
        }
        case 18: {  // membership
          if (!leader() || hs().commit() < start) break;
          raftpb::ConfChangeV2 cc;
          if (conf.joint()) {
            // leave
          } else {
            auto* ch = cc.add_changes();
            ch->set_node_id(2 + g.below(7));
            ch->set_type(g.below(3) ? raftpb::ConfChangeAddNode : raftpb::ConfChangeAddLearnerNode);
            if (g.below(4) == 0) ch->set_type(raftpb::ConfChangeRemoveNode);
            if (g.below(3) == 0) cc.set_transition(raftpb::ConfChangeTransitionJointExplicit);
          }
          d = "membership change";
          conf = RefConf::from(n->ApplyConfChange(ConfChangeI(std::move(cc))));
          if (!q.empty()) ack(1, q.back().ctx);  // those who were still to confirm may be gone
          after();
          c.label("membership change");
          break;
        }
        case 19: {  // a later leader
          uint64_t from = ms.empty() ? 9 : ms[g.below(ms.size())];
          d = "MsgHeartbeat of a later leader";
          step(msg(raftpb::MsgHeartbeat, from, term + 1));
          after();
          break;
        }
        default: {
          if (leader()) {
            if (g.below(3) == 0) { d = "Campaign"; n->Campaign(); after(); }
            break;
          }
          if (g.below(4) == 0) {  // an answer arrives
            size_t k = g.below(4) ? 1 : g.below(3);
            auto m = msg(raftpb::MsgReadIndexResp, lead() ? lead() : 2, term > 1 ? term - (g.below(5) == 0) : term);
            m->set_index(1 + g.below(50));
            for (size_t i = 0; i < k; i++) m->add_entries()->set_data("a" + std::to_string(next++));
            d = fmt("MsgReadIndexResp with %zu entries of term %llu", k, (unsigned long long)m->term());
            bool follower = n->GetBasicStatus().soft_state.raft_state == RaftStateType::kFollower;
            if (follower && k == 1 && m->term() == term) want_own.push_back({m->index(), m->entries(0).data()});
            step(m);
            after();
            break;
          }
          // (re)gain the leadership
          d = "Campaign";
          n->Campaign();
          after();
          if (g.below(6) == 0) break;
          uint64_t t = hs().term();
          for (auto id : conf.voters()) {
            if (id == 1 || leader()) continue;
            d = "vote";
            step(msg(raftpb::MsgVoteResp, id, t));
            after();
          }
          break;
        }
      }
    }
    // what is still pending is answered as soon as the voters confirm the last one
    if (leader() && !q.empty()) {
      std::string ctx = q.back().ctx;
      for (auto id : conf.voters()) {
        if (id == 1) continue;
        out.clear();
        d = "final confirmation";
        ack(id, ctx);
        auto m = msg(raftpb::MsgHeartbeatResp, id, hs().term());
        m->set_context(ctx);
        step(m);
        after();
      }
      if (!q.empty()) c.fail("unanswered", fmt("%zu reads remain although every voter confirmed the last", q.size()));
    }
    c.mix(mix64(answered * 1000 + released * 100 + lost * 10 + forwarded, hs().term() * 64 + conf.members().size() * 4 + lease));
    for (auto& op : c.t.ops) c.mix(op.w[0] % 24);
    c.label(lease ? "lease mode" : "safe mode");
    if (conf.joint()) c.label("joint");
    if (answered) c.label("answered", answered);
    if (released) c.label("postponed, then released", released);
    if (lost) c.label("pending when the role was lost", lost);
    if (forwarded) c.label("passed on", forwarded);
    c.nontrivial = answered >= 2;
    c.summary = fmt("%s mode, %zu voters%s: %zu answered, %zu postponed then released, %zu lost with the role, %zu passed on", lease ? "lease" : "safe",
                    conf.in.size(), conf.joint() ? " (joint)" : "", answered, released, lost, forwarded);
  }
  // Not the leader: the request goes to the leader known, unchanged, or nowhere.
  void passed(const Req& x, uint64_t l) {
    size_t k = 0;
    for (auto& m : out) {
      if (m->type() != raftpb::MsgReadIndex) continue;
      k++;
      if (m->to() != l || m->from() != x.from || m->entries_size() != 1 || m->entries(0).data() != x.ctx)
        c.fail("passing", "after " + d + fmt(": it is passed to %llu as from %llu", (unsigned long long)m->to(), (unsigned long long)m->from()));
    }
    bool follower = n->GetBasicStatus().soft_state.raft_state == RaftStateType::kFollower;
    if (k != (follower && l ? 1 : 0)) c.fail("passing", "after " + d + fmt(": passed on %zu times, leader known: %llu", k, (unsigned long long)l));
    forwarded += k;
  }
};

void reads_case(Ctx& c) {
  Reads x(c);
  x.run();
}

PBT_CHECK_DEF("C35", reads_case, 10, 120, 250000, 6000000,
              "a case is a node with a random (often joint) membership in safe or lease mode, with reads asked here and by others, heartbeat and append "
              "confirmations in any order, membership changes and changes of role; non-trivial: at least two reads were answered", "plain");

}  // namespace
