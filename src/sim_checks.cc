// Cluster simulator: per-property profiles, scenario endings and registrations.
#include <inttypes.h>

#include "sim.h"

namespace sim {
#define U64 "%" PRIu64

// ------------------------------------------------------------------------------------------------ scenario endings

// C15: once faults stop, one leader, a new proposal is accepted, and every member applies it.
// Whether some voter, by its own membership and the logs as they are, can collect the votes of a quorum. A voter demoted
// by a change that it has applied, but the others have not learned yet, may hold the longest log and be needed all the
// same: then nobody can ever be elected, whatever the implementation does.
bool World::electable() {
  for (auto& n : nodes) {
    if (!n.up || !n.conf.is_voter(n.id)) continue;
    if (n.conf.quorum([&](uint64_t id) {
          Node* o = by_id(id);
          return o && o->up && (n.o.lastterm > o->o.lastterm || (n.o.lastterm == o->o.lastterm && n.o.last >= o->o.last));
        }))
      return true;
  }
  return false;
}

void World::finish_recovery() {
  Rng g(mix64(now, 4242));
  heal();
  int bound = 60 * opt.et;
  auto run_until_settled = [&](const char* what) {
    std::string why;
    for (int r = 0; r < bound; r++) {
      maintain(g);
      calm_round(true);
      if (r >= 1 && settled(&why)) {
        c.label("recovery_rounds", r);
        return;
      }
    }
    if (Node* l = leader(); l && !opt.check_quorum && !opt.pre_vote) {
      // A voter that missed its own demotion campaigns among the voters it knows and keeps raising the term. If the
      // leader is none of them, and nothing makes a node answer a leader of an earlier term, neither hears of the other.
      for (auto& n : nodes)
        if (n.up && n.o.term > l->o.term && n.conf.is_voter(n.id) && !n.conf.is_voter(l->id) && !l->conf.is_voter(n.id)) {
          c.label("missed_demotion");
          return;
        }
    }
    if (!leader() && !electable()) {
      bool demoted = false;
      for (auto& n : nodes) demoted |= n.up && n.conf.learners.count(n.id) && !n.conf.is_voter(n.id);
      if (demoted) {
        c.label("demoted_needed");
        return;
      }
    }
    fail("C15", what, fmt("after %d rounds without faults: %s", bound, why.c_str()));
  };
  run_until_settled("no-recovery");
  Node* l = leader();
  if (!l || !settled()) return;
  std::string d = payload(g, 0);
  bool ok = propose(*l, {d});
  for (int i = 0; !ok && i < 4 * opt.et; i++) {  // a transfer may be pending
    calm_round(true);
    l = leader();
    if (!l) continue;
    d = payload(g, 0);
    ok = propose(*l, {d});
  }
  if (!ok) {
    fail("C15", "refuses", "a recovered cluster does not accept proposals");
    return;
  }
  run_until_settled("no-progress");
  auto it = props.find(d);
  l = leader();
  if (!l || !settled()) return;
  if (it == props.end() || it->second.commits != 1) {
    // a change of leader (e.g. a transfer requested earlier) may have dropped it: once more on a quiet cluster
    for (int i = 0; i < 3; i++) {
      d = payload(g, 0);
      if (propose(*l, {d})) run_until_settled("no-progress");
      l = leader();
      it = props.find(d);
      if (!l || (it != props.end() && it->second.commits == 1)) break;
    }
  }
  if (it == props.end() || it->second.commits != 1) fail("C15", "not-committed", "a recovered cluster does not commit an accepted proposal");
  c.label("recovered");
}

// C10: a configuration marked to leave automatically is left.
void World::finish_autoleave() {
  Rng g(mix64(now, 99));
  heal();
  for (int r = 0; r < 12 * opt.et; r++) {
    for (auto& n : nodes)
      if (!n.up) restart(n, g);
    Node* l = leader();
    if (l && l->adv_applied > l->live.snap && l->phase == 0) compact(*l, g, 0);
    calm_round(true);
    if (r > 2 && settled()) {
      l = leader();
      c.label("settled");
      if (l->conf.joint() && l->conf.auto_leave)
        fail("C10", "no-auto-leave", fmt("leader " U64 " stays in %s", l->id, l->conf.str().c_str()));
      return;
    }
  }
}

static bool quorum_without(const World& w, const RefConf& conf, uint64_t x) {
  return conf.quorum([&](uint64_t id) { return id != x && w.ixof.count(id); });
}

// C16: a node that was cut off comes back without disturbing the leader.
void World::scenario_rejoin(Rng& g) {
  heal();
  settle(20 * opt.et);
  Node* l = leader();
  if (!l || !settled()) return;
  std::vector<Node*> cand;
  for (auto& n : nodes)
    if (&n != l && n.up && l->conf.is_member(n.id) && quorum_without(*this, l->conf, n.id)) cand.push_back(&n);
  if (cand.empty()) return;
  Node* x = cand[g.below(cand.size())];
  uint64_t term = l->o.term, lid = l->id, xterm = x->o.term;
  // without check-quorum a removed node that does not know of its removal may still win elections
  if (!opt.check_quorum)
    for (auto& n : nodes)
      if (n.up && !l->conf.is_member(n.id)) return;
  RefConf conf0 = l->conf;   // a change still travelling when the scenario starts ends it
  c.label("rejoin");
  for (size_t j = 0; j < nodes.size(); j++)
    if ((int)j != x->ix) blocked[x->ix][j] = blocked[j][x->ix] = 1;
  bool hb_lost = g.below(2);
  int k = 2 * opt.et + g.below(4 * opt.et);
  for (int i = 0; i < k; i++) {
    if (i == 0 || g.below(3) == 0) propose(*l, {payload(g, g.below(4))});
    if (!hb_lost && i % 3 == 1) { tick(*x); }
    calm_round(true);
    if (!(l->conf == conf0)) return;
    if (x->o.term != xterm) fail("C16", "cut-off-term", fmt("node " U64 " is cut off and raised its term from " U64 " to " U64, x->id, xterm, x->o.term));
    if (leader() != by_id(lid) || l->o.term != term) {
      fail("C16", "leader-lost", fmt("leader " U64 " of term " U64 " lost office while node " U64 " was cut off", lid, term, x->id));
      return;
    }
  }
  if (g.below(3) == 0) compact(*l, g, 1);
  // without check-quorum leases only the log protects the leader: the node must have fallen behind a majority
  bool lagging = l->o.commit > x->o.last;
  heal();
  if (!lagging && !opt.check_quorum) return;
  for (int i = 0; i < 6 * opt.et; i++) {
    if (l->adv_applied > l->live.snap && l->phase == 0) compact(*l, g, 0);
    calm_round(true);
    if (!(l->conf == conf0)) return;
    if (l->o.state != RaftStateType::kLeader || l->o.term != term)
      fail("C16", "disturbed", fmt("leader " U64 " of term " U64 " lost office when node " U64 " came back", lid, term, x->id));
  }
  if (x->o.lead != lid) fail("C16", "not-rejoined", fmt("node " U64 " does not follow leader " U64 " again", x->id, lid));
  c.label("rejoined");
}

// C18: a transfer to a reachable voter succeeds.
void World::scenario_transfer(Rng& g) {
  heal();
  settle(20 * opt.et);
  Node* l = leader();
  if (!l || !settled()) return;
  std::vector<Node*> cand;
  for (auto& n : nodes)
    if (&n != l && n.up && l->conf.is_voter(n.id)) cand.push_back(&n);
  if (cand.empty() || !quorum_without(*this, l->conf, 0)) return;
  Node* x = cand[g.below(cand.size())];
  if (l->o.transferee) for (int i = 0; i < opt.et; i++) calm_round(true);
  if (leader() != l || !settled()) return;
  bool lag = g.below(2) && quorum_without(*this, l->conf, x->id);
  if (lag) {
    c.label("transfer_lagging");
    for (size_t j = 0; j < nodes.size(); j++)
      if ((int)j != x->ix) blocked[x->ix][j] = blocked[j][x->ix] = 1;
    int k = 1 + g.below(4);
    for (int i = 0; i < k; i++) propose(*l, {payload(g, g.below(6))});
    pump(20);
    if (g.below(3) == 0 && l->adv_applied > l->live.snap) compact(*l, g, 1);
    heal();
    if (leader() != l) return;
  } else {
    c.label("transfer_uptodate");
  }
  bool via_follower = g.below(4) == 0;
  for (int a = 0; a < 10; a++) {
    Node* asked = l;
    if (via_follower) asked = x;
    uint64_t before_term = l->o.term;
    transfer(*asked, x->id);
    calm_round(false);
    if (x->o.state == RaftStateType::kLeader && x->o.term > before_term) break;
    if (!lag) {
      fail("C18", "no-transfer", fmt("a transfer from leader " U64 " to the up-to-date voter " U64 " had no effect", l->id, x->id));
      return;
    }
    for (int i = 0; i <= 2 * opt.et; i++) {
      Node* y = leader();
      if (y && y->adv_applied > y->live.snap && y->phase == 0) compact(*y, g, 0);
      calm_round(true);
      if (x->o.state == RaftStateType::kLeader) break;
    }
    if (x->o.state == RaftStateType::kLeader) break;
    Node* y = leader();
    if (!y) return;
    l = y;
    if (a == 9) fail("C18", "no-transfer-lag", fmt("transfers from leader " U64 " to the reachable voter " U64 " keep failing", l->id, x->id));
  }
  c.label("transferred");
  for (int i = 0; i < 3 * opt.et && !settled(); i++) calm_round(true);
  Node* y = leader();
  if (y && y->o.transferee == 0 && y->conf.is_member(y->id)) propose(*y, {payload(g, 0)});
}

// C17: a leader cut off from its quorum steps down; a connected one stays.
void World::scenario_cut_leader(Rng& g) {
  heal();
  settle(20 * opt.et);
  Node* l = leader();
  if (!l || !settled() || l->conf.members().size() < 2 || !quorum_without(*this, l->conf, 0)) return;
  uint64_t term = l->o.term;
  int k = 3 * opt.et + g.below(3 * opt.et);
  RefConf conf0 = l->conf;
  for (int i = 0; i < k; i++) {
    calm_round(true);
    if (!(l->conf == conf0)) return;
    if (l->o.state != RaftStateType::kLeader || l->o.term != term) {
      if (l->o.transferee == 0) fail("C17", "healthy-deposed", fmt("leader " U64 " of a healthy cluster lost office", l->id));
      return;
    }
  }
  c.label("healthy");
  if (!l->conf.quorum([&](uint64_t id) { return id == l->id; })) {
    int mode = g.below(3);
    for (size_t j = 0; j < nodes.size(); j++)
      if ((int)j != l->ix) {
        if (mode != 1) blocked[j][l->ix] = 1;   // deaf
        if (mode != 0) blocked[l->ix][j] = 1;   // mute (mode 2: both)
      }
    if (mode == 1) c.label("mute_leader");
    if (g.below(3) == 0) transfer(*l, nodes[g.below(nodes.size())].id);  // starts a new timeout at most
    int at = g.below(3) ? -1 : opt.et + g.below(opt.et);  // a request for a transfer once the leader is isolated
    for (int i = 0; i < (at < 0 ? 2 : 3) * opt.et; i++) {
      for (auto& n : nodes) if (&n == l || mode == 0) tick(n);
      pump(6);
      if (i == at && l->o.state == RaftStateType::kLeader) {
        transfer(*l, nodes[g.below(nodes.size())].id);
        c.label("cut_transfer");
      }
    }
    if (l->o.state == RaftStateType::kLeader && l->o.term == term)
      fail("C17", "cut-off-leader", fmt("leader " U64 " is cut off from its quorum for two election timeouts and still leads", l->id));
    c.label("cut");
  }
}

// C36: without clock ticks and requests the exchange of messages ends, and in a cluster where nothing is lost or
// reordered it ends with everything that was asked for done.
uint64_t World::exchange(uint64_t cap) {
  uint64_t k = 0;
  for (bool any = true; any && k <= cap;) {
    any = false;
    for (auto& n : nodes)
      if (n.up && (n.phase || n.rn->HasReady())) {
        process(n);
        any = true;
      }
    for (size_t i = net.size(); i && !net.empty(); i--) {
      deliver_one(0);
      k++;
      any = true;
    }
  }
  return k;
}

void World::scenario_messages(Rng& g) {
  // the history as it stands, links down and all
  for (auto& n : nodes)
    if (n.up && (n.phase || n.rn->HasReady())) process(n);  // what was decided is sent
  uint64_t data = net.size();
  for (auto& p : net) data += p.m->entries_size();  // a forwarded batch may be replicated entry by entry
  for (auto& n : nodes)
    if (n.up) data += n.o.last - std::min(n.o.last, gbase) + 1;
  for (auto& r : reads)
    if (!r.second.answered) data++;  // a leader may be holding it
  uint64_t cap = 200 + 5 * nodes.size() * data;
  uint64_t k = exchange(cap);
  if (k > cap) {
    fail("C36", "restless", fmt("%" PRIu64 " messages among %zu nodes without a tick or a request, and still going on", k, nodes.size()));
    return;
  }
  c.label("rested");
  heal();
  settle(20 * opt.et);
  for (int i = 0; i < 2; i++)
    for (int r = 0; r <= opt.hb; r++) calm_round(true);
  Node* l = leader();
  if (!l || !settled() || l->o.transferee || (l->conf.joint() && l->conf.auto_leave) || !l->conf.in.count(l->id)) return;
  for (auto id : l->conf.members())
    if (!by_id(id)) return;
  for (auto& n : nodes) n.race = 0;  // a peer that needs a snapshot waits for the next heartbeat
  opt.fifo = true;
  int rounds = 1 + g.below(4);
  for (int r = 0; r < rounds && l->conf.in.count(l->id); r++) {
    std::vector<Node*> mem;
    for (auto& n : nodes)
      if (n.up && l->conf.is_member(n.id)) mem.push_back(&n);
    auto any = [&]() -> Node& { return g.below(2) ? *l : *mem[g.below(mem.size())]; };
    std::vector<std::string> mine, ds;
    std::vector<std::string> rd;
    Node* x = nullptr;
    uint64_t term = l->o.term;
    int what = g.below(4);
    bool conf = false;
    if (what == 3) {
      std::vector<Node*> cand;
      for (auto n : mem)
        if (n != l && l->conf.is_voter(n->id)) cand.push_back(n);
      if (cand.empty()) what = 0;
      else x = cand[g.below(cand.size())];
    }
    if (x) {
      // what the leader has accepted before reaches the target first
      for (int i = g.below(2) ? 1 + g.below(5) : 0; i; i--) {
        ds.clear();
        for (int j = 1 + (g.below(3) ? 0 : g.below(opt.grand ? 200 : 4)); j; j--) ds.push_back(payload(g, g.below(6)));
        if (propose(*l, ds))
          for (auto& d : ds)
            if (!d.empty()) mine.push_back(d);
        if (g.below(3) == 0) pump(1);
      }
      transfer(any(), x->id);
    } else {
      int ops = 1 + g.below(6);
      for (int i = 0; i < ops; i++) {
        int o = g.below(8);
        if (o < 4) {
          Node& n = any();
          ds.clear();
          for (int j = 1 + (g.below(3) ? 0 : g.below(opt.grand ? 200 : 4)); j; j--) ds.push_back(payload(g, g.below(6)));
          uint64_t unc = opt.max_unc;
          bool ok = propose(n, ds);
          if (ok && (&n == l || !unc))
            for (auto& d : ds)
              if (!d.empty()) mine.push_back(d);
        } else if (o < 6) {
          Node& n = any();
          rd.push_back(fmt("r%" PRIu64, next_read));
          read(n);
          if (!reads.count(rd.back())) rd.back() += std::string("\0x", 2);
        } else if (o == 6 && opt.confs && !conf) {
          // single changes and explicit joint ones; the leader stays a voter. Leaving automatically waits for a heartbeat.
          raftpb::ConfChangeV2 cc;
          if (!l->conf.joint()) {
            int m = 1 + g.below(3);
            std::set<Node*> seen;  // a member removed and added in one step starts over, whatever is on its way to it
            for (int j = 0; j < m; j++) {
              Node* y = l->live.off == 0 ? &nodes[g.below(nodes.size())] : mem[g.below(mem.size())];
              if (!y->up || y->o.term > l->o.term) y = l;  // a returning node of a later term deposes the leader
              if (!seen.insert(y).second) continue;
              auto* s = cc.add_changes();
              s->set_node_id(y->id);
              static const raftpb::ConfChangeType kT[] = {raftpb::ConfChangeAddNode, raftpb::ConfChangeAddLearnerNode, raftpb::ConfChangeRemoveNode};
              s->set_type(y == l ? raftpb::ConfChangeAddNode : kT[g.below(opt.removals ? 3 : 2)]);
            }
            if (m > 1 || g.below(2)) cc.set_transition(raftpb::ConfChangeTransitionJointExplicit);
          }
          conf = true;
          propose_cc(any(), craft::ConfChangeI(cc));
        } else {
          pump(1 + g.below(2));
        }
      }
    }
    exchange(cap * 10);
    flush_reports();
    exchange(cap * 10);
    c.label("messages_round");
    std::string why;
    if (!settled(&why)) {
      fail("C36", "stuck", fmt("no message is left and nothing was lost, but: %s", why.c_str()));
      return;
    }
    if (x) {
      if (leader() != x || x->o.term <= term) fail("C36", "no-transfer", fmt("no message is left, and leadership has not moved from " U64 " to " U64, l->id, x->id));
      c.label("messages_transfer");
      l = leader();
    }
    if (leader() != l) {
      fail("C36", "new-leader", fmt("leadership moved from " U64 " without a tick", l->id));
      return;
    }
    for (auto& d : mine)
      if (props[d].commits != 1 && !conf) fail("C36", "lost", fmt("a proposal made on a quiet cluster was committed %d times", props[d].commits));
    for (auto& d : rd)
      if (!reads[d].answered && !conf) fail("C36", "no-answer", fmt("no message is left, and a read requested at node " U64 " has no answer", reads[d].node));
    if (!rd.empty()) c.label("messages_read");
    if (conf) c.label("messages_conf");
    if (!mine.empty()) c.label("messages_commit");
  }
  c.label("messages");
}

// ------------------------------------------------------------------------------------------------ profiles

const Profile& profile_for(const std::string& prop) {
  static std::map<std::string, Profile> all;
  if (all.empty()) {
    auto def = [&](const char* id) -> Profile& { return all[id]; };
    { auto& p = def("C01"); p.w = {{oElect, 12}, {oCampaign, 8}, {oCrash, 8}, {oRestart, 9}, {oDup, 6}, {oDepose, 6}, {oCompact, 2}, {oTransfer, 4}}; p.big = 1; }
    { auto& p = def("C02"); p.w = {{oLaggard, 5}, {oCompact, 6}, {oStale, 4}, {oPropose, 18}}; }
    { auto& p = def("C03"); p.w = {{oSplit, 4}, {oDepose, 7}, {oStale, 5}, {oElect, 10}, {oCrash, 8}, {oRestart, 9}, {oPropose, 18}}; p.big = 1; }
    { auto& p = def("C04"); p.w = {{oDepose, 7}, {oStale, 6}, {oElect, 10}, {oPropose, 18}, {oLaggard, 4}}; }
    { auto& p = def("C05"); p.w = {{oCrash, 9}, {oRestart, 10}, {oElect, 10}, {oCampaign, 6}, {oPhase, 14}}; }
    { auto& p = def("C06"); p.w = {{oSplit, 4}, {oStale, 5}, {oDup, 8}, {oDrop, 6}, {oPropose, 18}, {oDepose, 5}}; p.big = 1; }
    { auto& p = def("C07"); p.w = {{oPhase, 16}, {oBurst, 6}, {oPropose, 18}, {oLaggard, 4}, {oCompact, 5}}; }
    { auto& p = def("C08"); p.w = {{oPhase, 20}, {oProcess, 8}, {oCrash, 6}, {oRead, 5}}; }
    { auto& p = def("C09"); p.w = {{oSplit, 7}, {oRead, 20}, {oStale, 6}, {oDepose, 5}, {oElect, 6}, {oConf, 8}}; }
    { auto& p = def("C10"); p.w = {{oSplit, 4}, {oConf, 24}, {oLaggard, 5}, {oForceRound, 8}, {oElect, 6}, {oCompact, 5}}; p.confs = 1; }
    { auto& p = def("C11"); p.w = {{oSplit, 6}, {oConf, 12}, {oElect, 12}, {oCampaign, 12}, {oDup, 6}}; p.confs = 1; }
    { auto& p = def("C12"); p.w = {{oPropose, 22}, {oBatch, 8}, {oBurst, 5}, {oTransfer, 4}, {oConf, 5}, {oElect, 7}}; }
    { auto& p = def("C13"); p.w = {{oSnapRace, 6}, {oLaggard, 14}, {oCompact, 10}, {oReport, 6}, {oSnapFlag, 2}, {oCrash, 6}, {oRestart, 8}, {oDup, 5}, {oForceRound, 6}}; }
    { auto& p = def("C14"); p.w = {{oCrash, 12}, {oRestart, 14}, {oPhase, 14}, {oCompact, 6}, {oLaggard, 4}, {oCrashAll, 3}}; }
    { auto& p = def("C15"); p.w = {{oSplit, 5}, {oSnapRace, 3}, {oConf, 5}, {oCrash, 6}, {oCrashAll, 2}, {oLaggard, 4}}; p.removals = 0; }
    { auto& p = def("C16"); p.w = {{oElect, 8}, {oCampaign, 8}, {oTick, 10}, {oPartition, 6}, {oDup, 6}}; p.pre_vote = 1; p.big = 1; }
    { auto& p = def("C17"); p.w = {{oTick, 12}, {oTickAll, 12}, {oRound, 14}, {oCampaign, 6}, {oElect, 7}, {oPartition, 6}, {oTransfer, 5}}; p.check_quorum = 1; }
    { auto& p = def("C18"); p.w = {{oTransfer, 16}, {oLaggard, 4}, {oPropose, 16}, {oConf, 5}, {oTickAll, 8}}; }
    { auto& p = def("C19"); p.w = {{oSnapRace, 6}, {oPropose, 16}, {oBurst, 12}, {oBatch, 8}, {oDrop, 8}, {oDup, 6}, {oLaggard, 6}, {oReport, 6}, {oDepose, 4}}; p.small_limits = true; p.small_window = true; }
    { auto& p = def("C20"); p.w = {{oPropose, 24}, {oBurst, 10}, {oBatch, 8}, {oDepose, 5}, {oElect, 6}}; p.unc = true; }
    { auto& p = def("C30"); p.w = {{oGate, 40}, {oElect, 9}, {oCampaign, 6}, {oTransfer, 3}, {oConf, 6}}; }
    { auto& p = def("C36"); p.w = {{oTransfer, 4}, {oConf, 6}, {oLaggard, 5}, {oCompact, 5}, {oDepose, 4}, {oReport, 4}, {oDup, 6}, {oRead, 8}}; }
    { auto& p = def("C33"); p.w = {{oStatus, 24}, {oConf, 8}, {oTransfer, 6}}; }
  }
  static Profile dflt;
  auto it = all.find(prop);
  return it == all.end() ? dflt : it->second;
}

static bool has(const Ctx& c, const char* l, uint64_t k = 1) {
  auto it = c.labels.find(l);
  return it != c.labels.end() && it->second >= k;
}

void run_world(Ctx& c, const Profile& p) {
  World w(c, p);
  w.start();
  w.run_ops(0, c.t.ops.size());
  Rng g(mix64(c.h(30), c.h(31)));
  const std::string& P = c.prop;
  w.now = c.t.ops.size() + 1;
  if (P == "C15") w.finish_recovery();
  else if (P == "C10") w.finish_autoleave();
  else if (P == "C16") w.scenario_rejoin(g);
  else if (P == "C18") w.scenario_transfer(g);
  else if (P == "C17") w.scenario_cut_leader(g);
  else if (P == "C36") w.scenario_messages(g);
  for (auto& n : w.nodes)
    if (n.up) w.status(n, g);
  c.summary = fmt("%d voters%s%s et%d hb%d%s%s%s window %d, %zu ops: %zu committed, max term %" PRIu64 ", membership %s", w.opt.n,
                  w.opt.modeA ? " bootstrapped" : " from snapshot", w.opt.confs ? " with changes" : "", w.opt.et, w.opt.hb,
                  w.opt.pre_vote ? " pre-vote" : "", w.opt.check_quorum ? " check-quorum" : "", w.opt.interleave ? " interleaved" : "",
                  w.opt.inflight, c.t.ops.size(), w.glog.size(),
                  [&] { uint64_t t = 0; for (auto& n : w.nodes) t = std::max(t, n.live.hs.term); return t; }(), w.gconf.back().str().c_str());
  bool leader2 = has(c, "win", 2);
  bool fault = has(c, "crash") || has(c, "drop") || has(c, "partition") || has(c, "dup") || has(c, "depose") || has(c, "stale");
  if (P == "C01") c.nontrivial = leader2;
  else if (P == "C02") c.nontrivial = has(c, "commit_prop", 2) && fault;
  else if (P == "C03") c.nontrivial = leader2 && has(c, "commit_prop");
  else if (P == "C04") c.nontrivial = leader2 && has(c, "append_sent", 2);
  else if (P == "C05") c.nontrivial = has(c, "vote") && (has(c, "restart") || has(c, "restart_boot") || leader2);
  else if (P == "C06") c.nontrivial = has(c, "leader_commit", 2) && has(c, "step", 10) && fault;
  else if (P == "C07") c.nontrivial = has(c, "commit_prop", 3) && (has(c, "paginated") || has(c, "snap_install") || has(c, "restart"));
  else if (P == "C08") c.nontrivial = has(c, "batch", 10) && has(c, "step", 5);
  else if (P == "C09") c.nontrivial = has(c, "read_answer") && (leader2 || fault);
  else if (P == "C10") c.nontrivial = has(c, "conf_commit");
  else if (P == "C11") c.nontrivial = leader2 && has(c, "campaign", 2);
  else if (P == "C12") c.nontrivial = has(c, "commit_prop", 2) && (leader2 || has(c, "refused"));
  else if (P == "C13") c.nontrivial = has(c, "snap_install") || has(c, "snap_ignored");
  else if (P == "C14") c.nontrivial = has(c, "restart");
  else if (P == "C15") c.nontrivial = has(c, "recovered") && fault;
  else if (P == "C16") c.nontrivial = has(c, "rejoined") || has(c, "prequorum", 2);
  else if (P == "C17") c.nontrivial = has(c, "lease_hit") || has(c, "quorum_stepdown") || has(c, "cut");
  else if (P == "C18") c.nontrivial = has(c, "transfer");
  else if (P == "C19") c.nontrivial = has(c, "append_sent", 5) && (has(c, "window_full") || has(c, "probe_sent"));
  else if (P == "C20") c.nontrivial = has(c, "refused_size") || has(c, "admit_within", 3);
  else if (P == "C30") c.nontrivial = has(c, "gate_stale", 2) && has(c, "gate_local") && has(c, "gate_unknown");
  else if (P == "C33") c.nontrivial = has(c, "status_leader") && has(c, "status", 3);
  else if (P == "C36") c.nontrivial = has(c, "messages") && (has(c, "messages_commit") || has(c, "messages_read"));
  else c.nontrivial = has(c, "commit");
}

// A tenth of the cases of some properties are the smaller histories of one component, whose model decides a part of
// that property (the follower model decides what an acknowledgement vouches for, for example) over far more states of
// that component than whole clusters reach.
struct Companion {
  const char* prop;
  const char* unit;
  const char* tags;  // oracles of the component that bear on the property; others end the case
};
static const Companion kCompanions[] = {
    {"C02", "C21", "follower"},      {"C03", "C21", "follower"}, {"C04", "C21", "follower"},
    {"C04", "C22", "content"},       {"C02", "C22", "content"},
    {"C06", "C21", "follower reply"}, {"C06", "C24", "*"},        {"C07", "C22", "array immutable"},
    {"C10", "C25", "*"},             {"C10", "C26", "*"},        {"C11", "C24", "*"},
    {"C13", "C21", "follower reply"}, {"C14", "C21", "follower"}, {"C15", "C21", "probe"},
    {"C17", "C24", "tracker-active"}, {"C19", "C28", "*"},
};

static void sim_case(Ctx& c) {
  if (c.h(46) % 10 == 9) {
    std::vector<const Companion*> l;
    for (auto& k : kCompanions)
      if (c.prop == k.prop) l.push_back(&k);
    if (!l.empty()) {
      const Companion& k = *l[c.h(47) % l.size()];
      const pbt::CheckDef* d = pbt::find_check(k.unit);
      Ctx in(c.t, k.unit);
      in.verbose = c.verbose;
      auto take = [&] {
        c.events += in.events;
        c.nontrivial = in.nontrivial;
        c.sig = mix64(in.sig, pbt::hash_str(k.unit));
        c.summary = std::string(k.unit) + ": " + in.summary;
        c.label((std::string("companion_") + k.unit).c_str());
      };
      try {
        d->fn(in);
      } catch (const pbt::Violation& v) {
        take();
        bool mine = k.tags[0] == '*' || (std::string(" ") + k.tags + " ").find(" " + v.tag + " ") != std::string::npos;
        if (mine) c.fail(v.tag, v.msg);
        c.labels["foreign:" + v.tag]++;
        return;
      }
      take();
      return;
    }
  }
  run_world(c, profile_for(c.prop));
}

#define SIM_RULE \
  "random cluster histories: 1-5 nodes (plus learners and later members), drawn options, and a sequence of deliveries, ticks, " \
  "proposals, elections, crashes at any batch phase, partitions, losses, duplicates, compactions, transfers and reads; "
static pbt::Reg regs[] = {
    pbt::Reg({"C01", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least two elections were won", "plain"}),
    pbt::Reg({"C02", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least two proposals were committed and a fault occurred", "plain"}),
    pbt::Reg({"C03", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: a proposal was committed and at least two elections were won", "plain"}),
    pbt::Reg({"C04", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least two leaders replicated entries", "plain"}),
    pbt::Reg({"C05", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: votes were cast and a node restarted or a second leader was elected", "plain"}),
    pbt::Reg({"C06", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least two commit advances by leaders with remote acknowledgements and a fault", "plain"}),
    pbt::Reg({"C07", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least three proposals delivered, with pagination, a snapshot or a restart", "plain"}),
    pbt::Reg({"C08", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least ten batches and five deliveries", "plain"}),
    pbt::Reg({"C09", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: a read was answered and there was a fault or a second leader", "plain"}),
    pbt::Reg({"C10", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: a membership change was committed", "plain"}),
    pbt::Reg({"C11", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least two elections were won", "plain"}),
    pbt::Reg({"C12", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least two proposals committed and a second leader or a refused proposal", "plain"}),
    pbt::Reg({"C13", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: a snapshot was installed or ignored", "plain"}),
    pbt::Reg({"C14", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: a node was restarted over its storage", "plain"}),
    pbt::Reg({"C15", sim_case, 10, 90, 35000, 1000000, SIM_RULE "then all faults stop; non-trivial: there were faults and the cluster recovered", "plain"}),
    pbt::Reg({"C16", sim_case, 10, 90, 45000, 1200000, SIM_RULE "then one node is cut off and comes back; non-trivial: that happened or pre-vote quorums were collected", "plain"}),
    pbt::Reg({"C17", sim_case, 10, 90, 45000, 1200000, SIM_RULE "then the leader is kept healthy and cut off; non-trivial: a lease was exercised or a leader stepped down", "plain"}),
    pbt::Reg({"C18", sim_case, 10, 90, 45000, 1200000, SIM_RULE "then a transfer on a quiet cluster; non-trivial: a transfer was started", "plain"}),
    pbt::Reg({"C19", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: at least five appends, with a full window or a probe", "plain"}),
    pbt::Reg({"C20", sim_case, 10, 110, 50000, 1500000, SIM_RULE "non-trivial: a proposal was refused for size or several were admitted under the limit", "plain"}),
    pbt::Reg({"C36", sim_case, 10, 80, 45000, 1200000, SIM_RULE "then messages alone, with requests on a quiet cluster; non-trivial: proposals or reads were completed there", "plain"}),
    pbt::Reg({"C33", sim_case, 10, 90, 45000, 1200000, SIM_RULE "non-trivial: a leader's status was examined", "plain"}),
};

}  // namespace sim
