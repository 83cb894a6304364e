// Cluster simulator: what is judged around every call into a node.
#include <inttypes.h>

#include "sim.h"

namespace sim {

std::string msg_str(const raftpb::Message& m);
const char* state_name(RaftStateType s);
#define U64 "%" PRIu64

static bool is_leader(const Obs& o) { return o.state == RaftStateType::kLeader; }
static bool is_cand(const Obs& o) { return o.state == RaftStateType::kCandidate; }
static bool is_pre(const Obs& o) { return o.state == RaftStateType::kPreCandidate; }

// ------------------------------------------------------------------------------------------------ raw log view

bool World::View::term(uint64_t i, uint64_t* t) const {
  if (!unst.empty() && i >= uoff && i < uoff + unst.size()) { *t = unst[i - uoff]->term(); return true; }
  if (i == base) { *t = baseterm; return true; }
  if (snap || (!unst.empty() && i >= uoff)) return false;
  const E* e = d->at(i);
  if (e) *t = e->term;
  return e != nullptr;
}
bool World::View::hash(uint64_t i, uint64_t* h) const {
  if (!unst.empty() && i >= uoff && i < uoff + unst.size()) { *h = ehash(*unst[i - uoff]); return true; }
  if (snap || (!unst.empty() && i >= uoff)) return false;
  const E* e = d->at(i);
  if (e) *h = e->h;
  return e != nullptr;
}
bool World::View::get(uint64_t i, E* e) const {
  if (!unst.empty() && i >= uoff && i < uoff + unst.size()) { *e = mk_e(*unst[i - uoff]); return true; }
  if (snap || (!unst.empty() && i >= uoff)) return false;
  const E* p = d->at(i);
  if (p) *e = *p;
  return p != nullptr;
}

World::View World::view(Node& n) {
  View v;
  auto* l = n.rn->GetRaft()->GetRaftLog();
  v.unst = l->UnstableEntries();
  v.uoff = v.unst.empty() ? 0 : v.unst[0]->index();
  v.d = &n.live;
  v.base = n.live.off;
  v.baseterm = n.live.offterm;
  if (auto s = l->UnstableSnapshot()) {
    v.snap = true;
    v.base = s->metadata().index();
    v.baseterm = s->metadata().term();
  }
  return v;
}

Obs World::read_obs(Node& n, const View& v) {
  Obs o;
  craft::Raft* r = n.rn->GetRaft();
  o.term = r->Term();
  o.vote = r->Vote();
  o.lead = r->Lead();
  o.state = r->State();
  o.commit = r->GetRaftLog()->Committed();
  o.applied = r->GetRaftLog()->Applied();
  o.transferee = r->LeadTransferee();
  o.snap = v.snap ? v.base : 0;
  o.last = v.last();
  v.term(o.last, &o.lastterm);
  o.nmsgs = r->Msgs().size();
  o.nreads = r->GetReadStates().size();
  return o;
}

// ------------------------------------------------------------------------------------------------ shared reference state

// What the application does with a committed membership change: true if it hands it to the library.
bool World::app_conf(RefConf& conf, int type, const std::string& data) {
  raftpb::ConfChangeV2 v2;
  if (type == raftpb::EntryConfChange) {
    raftpb::ConfChange c1;
    if (!c1.ParseFromString(data)) return false;
    auto* s = v2.add_changes();
    s->set_type(c1.type());
    s->set_node_id(c1.node_id());
  } else if (!v2.ParseFromString(data)) {
    return false;
  }
  RefConf nc = conf;
  if (!nc.apply(v2).empty()) return false;
  if (!opt.removals)
    for (auto id : conf.members())
      if (!nc.is_member(id)) return false;
  conf = nc;
  return true;
}

void World::push_global(const E& e, uint64_t term) {
  glog.push_back(e);
  gterm.push_back(term);
  RefConf nc = gconf.back();
  if (e.type != raftpb::EntryNormal) {
    if (app_conf(nc, e.type, *e.data)) c.label("conf_commit");
  } else if (!e.data->empty()) {
    c.label("commit_prop");
    auto it = props.find(*e.data);
    if (it == props.end()) {
      fail("C12", "foreign-bytes", fmt("entry " U64 " was committed with bytes nobody proposed", e.idx));
    } else {
      if (it->second.errored) fail("C12", "dropped-committed", fmt("entry " U64 ": a proposal reported as dropped was committed", e.idx));
      if (++it->second.commits > 1) fail("C12", "twice", fmt("entry " U64 ": a proposal was committed twice", e.idx));
    }
  }
  gconf.push_back(nc);
  gdig.push_back(mix64(gdig.back(), e.h));
}

bool World::durable_quorum(Node& n, const RefConf& conf, uint64_t idx, uint64_t h, bool self_counts) {
  return conf.quorum([&](uint64_t id) {
    if (id == n.id && self_counts) return true;
    Node* p = by_id(id);
    if (!p) return false;
    const E* e = p->durable.at(idx);
    return p->durable.off >= idx || (e && e->h == h);
  });
}

void World::reg_leader(Node& n) {
  if (!n.up || !is_leader(n.o) || n.durable.hs.term < n.o.term) return;
  auto& x = leader_of[n.o.term];
  if (x && x != n.id) fail("C01", "two-leaders", fmt("nodes " U64 " and " U64 " are both leader of term " U64, x, n.id, n.o.term));
  x = n.id;
}

void World::reg_commit(Node& n) {
  if (!n.up || n.pcommit <= glast()) return;
  View v = view(n);
  while (glast() < n.pcommit) {
    E e;
    if (!v.get(glast() + 1, &e)) return;
    if (!durable_quorum(n, n.pconf, e.idx, e.h, false)) return;
    push_global(e, n.pterm);
  }
}

void World::check_conf(Node& n, const char* when) {
  auto& trk = n.rn->GetRaft()->GetTracker();
  RefConf rc = RefConf::from(trk.ConfState());
  if (!(rc == n.conf))
    fail("C10", "conf", fmt("node " U64 " (%s) works with %s, prescribed %s", n.id, when, rc.str().c_str(), n.conf.str().c_str()));
  auto mem = n.conf.members();
  auto& pm = trk.GetProgressMap();
  bool ok = pm.size() == mem.size();
  for (auto& p : pm) ok = ok && mem.count(p.first) && p.second->IsLearner() == (n.conf.learners.count(p.first) > 0);
  if (!ok) fail("C10", "members", fmt("node " U64 " (%s): tracked peers do not match the members of %s", n.id, when, n.conf.str().c_str()));
  if (n.rn->GetRaft()->IsLearner() != (n.conf.learners.count(n.id) > 0))
    fail("C10", "learner", fmt("node " U64 " (%s): learner flag does not match %s", n.id, when, n.conf.str().c_str()));
}

// ------------------------------------------------------------------------------------------------ before a call

void World::before(Node& n, Cause& cz) {
  const Obs& o = n.o;
  if (cz.k != kStep) return;
  const raftpb::Message& m = *cz.m;
  auto t = m.type();
  if (is_leader(o) && m.term() == o.term && n.conf.is_member(m.from()) && m.from() != n.id) {
    if (t == raftpb::MsgAppResp || t == raftpb::MsgHeartbeatResp) {
      PeerM& p = n.lm.peers[m.from()];
      p.reply = n.ticks;
      if (t == raftpb::MsgHeartbeatResp) {
        p.probe = 0;
        if ((int)p.out.size() >= opt.inflight && !p.out.empty()) p.out.pop_front(), c.label("window_freed");
      } else if (m.reject()) {
        p.probe = 0;
        c.label("reject_seen");
      } else {
        while (!p.out.empty() && p.out.front() <= m.index()) p.out.pop_front();
        if (m.index() > p.acked) {
          p.acked = m.index();
          p.probe = 0;
        }
        if (m.index() >= p.pend_snap) p.pend_snap = 0;
      }
    }
  }
  if (t == raftpb::MsgVoteResp && !m.reject() && is_cand(o) && m.term() == o.term) n.grants[o.term].insert(m.from());
  if (t == raftpb::MsgPreVoteResp && !m.reject() && is_pre(o) && m.term() == o.term + 1) n.pregrants.insert(m.from());
}

// ------------------------------------------------------------------------------------------------ after a call

void World::observe(Node& n, Cause& cz) {
  const Obs o = n.o;
  View v = view(n);
  const Obs x = read_obs(n, v);
  craft::Raft* r = n.rn->GetRaft();
  auto& msgs = r->Msgs();
  const raftpb::Message* m = cz.k == kStep ? cz.m : nullptr;
  const char* from_who = m ? raftpb::MessageType_Name(m->type()).c_str() : "";
  (void)from_who;

  // -- messages only accumulate between batches
  std::vector<const raftpb::Message*> fresh;
  if (cz.k == kTake) {
    if (x.nmsgs) fail("C08", "accept-msgs", fmt("node " U64 ": messages remain after they were handed out", n.id));
    if (x.nreads) fail("C08 C09", "accept-reads", fmt("node " U64 ": read answers remain after they were handed out", n.id));
  } else {
    if (x.nmsgs < o.nmsgs) fail("C08", "lost-msgs", fmt("node " U64 ": generated messages disappeared", n.id));
    if (x.nreads < o.nreads) fail("C08 C09", "lost-reads", fmt("node " U64 ": read answers disappeared", n.id));
    for (size_t i = o.nmsgs; i < x.nmsgs; i++) {
      fresh.push_back(msgs[i].get());
      n.gen.push_back(pbt::hash_str(ser(*msgs[i])));
    }
  }
  bool moved = x.term != o.term || x.vote != o.vote || x.state != o.state || x.lead != o.lead || x.commit != o.commit ||
               x.last != o.last || x.lastterm != o.lastterm || x.snap != o.snap || x.transferee != o.transferee || x.applied != o.applied;
  if (moved) {
    c.mix(mix64(x.term * 8 + (int)x.state, x.commit * 16 + n.ix));
    if (c.verbose)
      tr("  node " U64 ": %s term " U64 " vote " U64 " lead " U64 " commit " U64 " applied " U64 " last " U64 "/" U64 "%s", n.id, state_name(x.state),
         x.term, x.vote, x.lead, x.commit, x.applied, x.last, x.lastterm, x.snap ? " (snapshot pending)" : "");
  }
  if ((cz.k == kNoop || cz.k == kTake) && moved) fail("C08 C33", "peek", fmt("node " U64 ": asking for work or status changed the node", n.id));
  if (cz.k == kReport && (x.term != o.term || x.vote != o.vote || x.state != o.state || x.commit != o.commit || x.last != o.last))
    fail("C30 C05", "report", fmt("node " U64 ": a report about a peer changed the node's term, role or log", n.id));

  // -- C05: monotone term, commit, vote
  if (x.term < o.term) fail("C05", "term-back", fmt("node " U64 ": term " U64 " -> " U64, n.id, o.term, x.term));
  if (x.commit < o.commit) fail("C05", "commit-back", fmt("node " U64 ": commit " U64 " -> " U64, n.id, o.commit, x.commit));
  if (x.applied < o.applied) fail("C07 C05", "applied-back", fmt("node " U64 ": applied " U64 " -> " U64, n.id, o.applied, x.applied));
  if (x.applied > x.commit) fail("C07", "applied-uncommitted", fmt("node " U64 ": applied " U64 " > commit " U64, n.id, x.applied, x.commit));
  if (x.commit > x.last) fail("C02 C03", "commit-beyond", fmt("node " U64 ": commit " U64 " beyond the last entry " U64, n.id, x.commit, x.last));
  if (x.term == o.term && o.vote && x.vote != o.vote)
    fail("C05", "revote", fmt("node " U64 ": vote of term " U64 " changed from " U64 " to " U64, n.id, x.term, o.vote, x.vote));
  bool campaign = x.term > o.term && x.vote == n.id;
  bool newvote = x.vote && (x.term != o.term || !o.vote);
  if (newvote && !campaign) {
    if (!m || m->type() != raftpb::MsgVote || m->from() != x.vote || m->term() != x.term)
      fail("C05", "vote-unasked", fmt("node " U64 " voted for " U64 " in term " U64 " without being asked", n.id, x.vote, x.term));
    else if (!(m->logterm() > o.lastterm || (m->logterm() == o.lastterm && m->index() >= o.last)))
      fail("C05 C03", "vote-behind", fmt("node " U64 " (log ends " U64 "/" U64 ") voted for " U64 " whose log ends " U64 "/" U64, n.id, o.last, o.lastterm, x.vote, m->index(), m->logterm()));
    c.label("vote");
  }
  if (x.term > o.term && !campaign) {
    bool ok = m && m->term() == x.term && m->type() != raftpb::MsgPreVote && !(m->type() == raftpb::MsgPreVoteResp && !m->reject());
    if (!ok) fail("C05 C16", "term-raise", fmt("node " U64 ": term raised from " U64 " to " U64 " by neither a campaign nor a message of that term", n.id, o.term, x.term));
  }
  if (m && m->type() == raftpb::MsgPreVote &&
      (x.term != o.term || x.vote != o.vote || x.lead != o.lead || x.state != o.state || x.last != o.last || x.commit != o.commit))
    fail("C16", "prevote-effect", fmt("node " U64 ": a pre-vote request changed the receiver (term " U64 "->" U64 " lead " U64 "->" U64 ")", n.id, o.term, x.term, o.lead, x.lead));
  if (m && m->term() && m->term() < o.term && moved)
    fail("C05 C30", "old-term", fmt("node " U64 ": %s of an earlier term changed the node", n.id, msg_str(*m).c_str()));

  // -- C17: leases
  if (m && opt.check_quorum && (m->type() == raftpb::MsgVote || m->type() == raftpb::MsgPreVote) && m->term() > o.term && m->context() != "CampaignTransfer") {
    if (is_leader(o) || (o.lead && n.contact < opt.et)) {
      c.label("lease_hit");
      if (moved || !fresh.empty())
        fail("C17", "lease", fmt("node " U64 " (leader " U64 " heard " U64 " ticks ago) reacts to %s", n.id, o.lead, (uint64_t)n.contact, msg_str(*m).c_str()));
    }
  }
  if (cz.k == kTick && n.contact < (1 << 30)) n.contact++;
  if (!x.lead || x.lead != o.lead) n.contact = 1 << 30;
  if (m && (m->type() == raftpb::MsgApp || m->type() == raftpb::MsgHeartbeat || m->type() == raftpb::MsgSnap) && m->term() >= o.term && x.lead == m->from())
    n.contact = 0;

  // -- campaigns
  bool premsg = false;
  for (auto* q : fresh) premsg |= q->type() == raftpb::MsgPreVote;
  if (premsg || (is_pre(x) && !is_pre(o))) {
    n.pregrants.clear();
    n.pregrants.insert(n.id);
    c.label("precampaign");
  }
  if (campaign) {
    c.label("campaign");
    n.grants[x.term].insert(n.id);
    uint64_t base = m && m->term() > o.term ? m->term() : o.term;
    bool told = m && m->type() == raftpb::MsgTimeoutNow;
    if (!told) base = o.term;
    if (x.term != base + 1) fail("C16 C05", "term-jump", fmt("node " U64 ": campaigns at term " U64 " from term " U64, n.id, x.term, o.term));
    if (!is_cand(x) && !is_leader(x)) fail("C11", "campaign-role", fmt("node " U64 " campaigned but is a %s", n.id, state_name(x.state)));
    if (opt.pre_vote && !told) {
      bool counted = cz.k == kStep;
      bool ok = n.conf.quorum([&](uint64_t id) { return id == n.id || (counted && n.pregrants.count(id)); });
      if (!ok) fail("C16 C11", "no-prequorum", fmt("node " U64 " starts a real election at term " U64 " without a quorum of pre-votes for it (membership %s, granted by %s)", n.id, x.term, n.conf.str().c_str(), set_str(n.pregrants).c_str()));
      if (counted) c.label("prequorum");
    }
  }
  if (campaign || premsg || (is_pre(x) && !is_pre(o))) {
    if (!n.conf.is_voter(n.id)) fail("C11", "nonvoter-campaign", fmt("node " U64 " campaigns but is no voter of %s", n.id, n.conf.str().c_str()));
    for (uint64_t i = n.app + 1; i <= o.commit; i++) {
      E e;
      if (v.get(i, &e) && e.type != raftpb::EntryNormal) {
        fail("C11", "unapplied-conf", fmt("node " U64 " campaigns although the committed membership change at " U64 " is not applied", n.id, i));
        break;
      }
    }
  }
  if (is_pre(x) && !is_pre(o) && (x.term != o.term || x.vote != o.vote)) fail("C16", "precandidate", fmt("node " U64 ": becoming a pre-candidate changed term or vote", n.id));

  // -- leadership
  bool win = is_leader(x) && !(is_leader(o) && o.term == x.term);
  bool same = is_leader(x) && !win;
  if (win) {
    c.label("win");
    if (!n.conf.quorum([&](uint64_t id) { return n.grants[x.term].count(id) > 0; }))
      fail("C11", "no-quorum-win", fmt("node " U64 " became leader of term " U64 " with votes of %s, membership %s", n.id, x.term, set_str(n.grants[x.term]).c_str(), n.conf.str().c_str()));
    if (!(is_cand(o) || campaign)) fail("C11", "win-role", fmt("node " U64 " became leader without having been a candidate of term " U64, n.id, x.term));
    for (auto& p : nodes)
      if (&p != &n && p.up && is_leader(p.o) && p.o.term == x.term)
        fail("C01", "two-leaders", fmt("nodes " U64 " and " U64 " are both leader of term " U64, p.id, n.id, x.term));
    auto it = leader_of.find(x.term);
    if (it != leader_of.end() && it->second != n.id) fail("C01", "two-leaders", fmt("node " U64 " becomes leader of term " U64 ", which node " U64 " has been", n.id, x.term, it->second));
    for (uint64_t i = v.base + 1; i <= glast(); i++) {
      if (gterm[i - gbase - 1] >= x.term) continue;
      uint64_t h = 0;
      if (!v.hash(i, &h) || h != gat(i)->h) {
        fail("C03", "lost", fmt("node " U64 " becomes leader of term " U64 " without the entry committed at " U64 " in term " U64, n.id, x.term, i, gterm[i - gbase - 1]));
        break;
      }
    }
    if (v.base > glast()) fail("C03 C13", "base", fmt("node " U64 " becomes leader with a snapshot beyond everything committed", n.id));
    E e;
    if (x.last != o.last + 1 || !v.get(x.last, &e) || e.term != x.term || e.type != raftpb::EntryNormal || !e.data->empty())
      fail("C12 C04", "first-entry", fmt("node " U64 ": a new leader must append exactly one empty entry (last " U64 " -> " U64 ")", n.id, o.last, x.last));
    n.lm = LeadM();
    n.lm.term = x.term;
    n.lm.start_tick = n.ticks;
    n.lm.conf_tick = -1000000;
    n.lm.last = x.last;
    v.hash(x.last, &n.lm.lasth);
  }
  if (same) leader_appends(n, o, x, v, cz);
  if (!is_leader(x)) {
    if (x.transferee) fail("C18 C33", "follower-transfer", fmt("node " U64 " is no leader but has a transfer pending", n.id));
    bool prop = cz.k == kPropose || cz.k == kConf || (m && m->type() == raftpb::MsgProp && !m->term());
    if (prop && !is_leader(o) && cz.props && cz.nents && (int)cz.props->size() == cz.nents) {
      const raftpb::Message* fw = nullptr;
      for (auto* q : fresh) if (q->type() == raftpb::MsgProp) fw = q;
      if (cz.ok && !fw) fail("C12", "silent-drop", fmt("node " U64 " is no leader, neither passes a proposal on nor reports it as dropped", n.id));
      if (!cz.ok && fw) fail("C12", "refused-forwarded", fmt("node " U64 " reports a proposal as dropped and passes it on", n.id));
      if (fw) {
        c.label("forward");
        if (opt.nofwd) fail("C12", "forward-disabled", fmt("node " U64 " passes a proposal on although forwarding is disabled", n.id));
        bool okay = fresh.size() == 1 && fw->entries_size() == cz.nents;
        for (int i = 0; okay && i < cz.nents; i++) {
          auto ty = cz.m ? cz.m->entries(i).type() : raftpb::EntryNormal;
          okay = fw->entries(i).data() == (*cz.props)[i] && fw->entries(i).type() == ty;
        }
        if (!okay) fail("C12", "forward-altered", fmt("node " U64 " passes on a proposal of %d entries with %d entries or other contents", n.id, cz.nents, fw->entries_size()));
        if (fw->to() != o.lead || !o.lead) fail("C12", "forward-to", fmt("node " U64 " (leader " U64 ") passes a proposal on to " U64, n.id, o.lead, fw->to()));
      }
    }
    if ((x.last != o.last || x.lastterm != o.lastterm) && !(m && (m->type() == raftpb::MsgApp || m->type() == raftpb::MsgSnap)) && !(is_leader(o)))
      fail("C04 C12", "log-change", fmt("node " U64 ": the log changed without append or snapshot", n.id));
  }

  // -- commit
  if (o.commit > gbase && o.commit <= glast()) {
    uint64_t h;
    if (v.hash(o.commit, &h) ? h != gat(o.commit)->h : o.commit > v.base)
      fail("C02 C03", "committed-changed", fmt("node " U64 ": the committed entry " U64 " was replaced or removed", n.id, o.commit));
  }
  if (x.commit > o.commit) {
    c.label("commit");
    if (is_leader(x)) {
      uint64_t t = 0, h = 0;
      if (!v.term(x.commit, &t) || t != x.term)
        fail("C06", "old-term-commit", fmt("leader " U64 " of term " U64 " advances its commit position to " U64 ", an entry of term " U64, n.id, x.term, x.commit, t));
      v.hash(x.commit, &h);
      if (!durable_quorum(n, n.conf, x.commit, h, true)) {
        std::string who;
        for (auto id : n.conf.members()) {
          Node* p = by_id(id);
          const E* e = p ? p->durable.at(x.commit) : nullptr;
          if (p && (p->durable.off >= x.commit || (e && e->h == h))) who += fmt(" " U64, id);
        }
        fail("C06", "no-quorum-commit", fmt("leader " U64 " commits " U64 " (membership %s), stored at:%s and possibly the leader", n.id, x.commit, n.conf.str().c_str(), who.c_str()));
      }
      for (uint64_t i = o.commit + 1; i <= x.commit && i <= glast(); i++)
        if (i > gbase && v.hash(i, &h) && h != gat(i)->h) {
          fail("C02 C03", "two-commits", fmt("leader " U64 " of term " U64 " commits another entry at " U64 " than was committed in term " U64, n.id, x.term, i, gterm[i - gbase - 1]));
          break;
        }
      n.pcommit = x.commit;
      n.pterm = x.term;
      n.pconf = n.conf;
      c.label("leader_commit");
      if (t == x.term && x.commit - o.commit > 1) c.label("commit_multi");
    } else {
      if (x.commit > glast())
        fail("C02 C06", "follower-commit", fmt("node " U64 " reports " U64 " as committed, leaders have committed " U64, n.id, x.commit, glast()));
      for (uint64_t i = std::max(o.commit, v.base) + 1; i <= x.commit && i <= glast(); i++) {
        uint64_t h = 0;
        if (i > gbase && (!v.hash(i, &h) || h != gat(i)->h)) {
          fail("C02", "differs", fmt("node " U64 " considers another entry committed at " U64 " than the one that was committed there", n.id, i));
          break;
        }
      }
    }
  }

  // -- C13: snapshots
  if (x.snap && x.snap != o.snap) {
    auto s = r->GetRaftLog()->UnstableSnapshot();
    c.label("snap_restore");
    if (!m || m->type() != raftpb::MsgSnap) fail("C13", "snap-source", fmt("node " U64 ": a snapshot appeared without a snapshot message", n.id));
    if (x.snap <= o.commit) fail("C13", "snap-stale", fmt("node " U64 " (commit " U64 ") restores the stale snapshot " U64, n.id, o.commit, x.snap));
    check_snapshot(*s, "restore", n);
    n.conf = RefConf::from(s->metadata().conf_state());
    if (!n.conf.is_member(n.id)) fail("C13", "snap-inapplicable", fmt("node " U64 " restores a snapshot whose membership lacks it", n.id));
    if (x.commit != x.snap || x.last != x.snap) fail("C13", "snap-log", fmt("node " U64 ": after restoring " U64 " the log ends at " U64 " with commit " U64, n.id, x.snap, x.last, x.commit));
    n.o = x;
    check_conf(n, "snapshot");
  } else if (m && m->type() == raftpb::MsgSnap) {
    uint64_t si = m->snapshot().metadata().index();
    c.label("snap_ignored");
    if (x.last != o.last || x.lastterm != o.lastterm || x.applied != o.applied || (x.commit != o.commit && x.commit != si))
      fail("C13", "snap-ignored", fmt("node " U64 ": an ignored snapshot changed the log (last " U64 "->" U64 ", commit " U64 "->" U64 ")", n.id, o.last, x.last, o.commit, x.commit));
    uint64_t t = 0;
    if (x.commit != o.commit && (!v.term(si, &t) || t != m->snapshot().metadata().term()))
      fail("C13 C02", "snap-ff", fmt("node " U64 ": commit moved to the snapshot position " U64 " although the log does not match it", n.id, si));
    check_conf(n, "ignored snapshot");
  }

  // -- C17: quorum checks
  if (cz.k == kTick && is_leader(o) && opt.check_quorum) {
    auto heard = [&](int64_t since) {
      return n.conf.quorum([&](uint64_t id) {
        if (id == n.id) return true;
        auto it = n.lm.peers.find(id);
        return it != n.lm.peers.end() && it->second.reply >= since;
      });
    };
    int64_t et = opt.et;
    if (same && n.ticks - n.lm.start_tick >= 2 * et && n.ticks - n.lm.conf_tick >= 3 * et && n.ticks - n.lm.xfer_tick >= 2 * et && !heard(n.ticks - 2 * et + 1))
      fail("C17", "isolated-leader", fmt("leader " U64 " of term " U64 " has not heard from a quorum of %s for two election timeouts and is still leader", n.id, x.term, n.conf.str().c_str()));
    // A transfer starts a new timeout, which is then the last one when nothing was heard for a timeout before it either.
    int64_t s = n.lm.xfer_tick;
    if (same && n.ticks - s >= et && s - n.lm.xfer_prev >= et && s - n.lm.start_tick >= et && n.ticks - n.lm.conf_tick >= 3 * et && n.ticks - s < 2 * et && !heard(s - et))
      fail("C17", "isolated-leader", fmt("leader " U64 " of term " U64 " has not heard from a quorum of %s since a timeout before a transfer was requested and is still leader a timeout after", n.id, x.term, n.conf.str().c_str()));
    if (!is_leader(x)) {
      c.label("quorum_stepdown");
      if (heard(n.ticks - et)) fail("C17", "deposed", fmt("leader " U64 " of term " U64 " stepped down although a quorum of %s answered within the election timeout", n.id, o.term, n.conf.str().c_str()));
    }
  }
  if (cz.k == kTick && is_leader(o) && !is_leader(x) && !opt.check_quorum) fail("C17 C01", "tick-stepdown", fmt("leader " U64 " stepped down by itself", n.id));
  if (is_leader(o) && !is_leader(x)) {
    c.label("stepdown");
    if (cz.k != kTick && x.term == o.term) fail("C01 C17", "same-term-stepdown", fmt("leader " U64 " of term " U64 " became %s in the same term", n.id, o.term, state_name(x.state)));
  }

  // -- C18: transfers
  if (same) {
    LeadM& lm = n.lm;
    bool req = cz.k == kTransfer || (m && m->type() == raftpb::MsgTransferLeader && (!m->term() || m->term() >= o.term));
    uint64_t to = cz.k == kTransfer ? cz.arg : req ? m->from() : 0;
    if (req) {
      bool valid = n.conf.is_voter(to);
      uint64_t want = !valid ? o.transferee : to == n.id ? 0 : to;
      if (x.transferee != want)
        fail("C18", "transfer-request", fmt("leader " U64 " (membership %s, transfer to " U64 " pending): after a request for " U64 " the pending target is " U64, n.id, n.conf.str().c_str(), o.transferee, to, x.transferee));
      if (valid && to != n.id && to != o.transferee) {
        lm.xfer_prev = lm.xfer_tick;
        lm.transfer_tick = lm.xfer_tick = n.ticks;
        c.label("transfer");
      }
      if (!valid || to == n.id) {
        c.label("transfer_invalid");
        if (x.term != o.term || x.last != o.last || x.commit != o.commit || !fresh.empty())
          fail("C18", "transfer-effect", fmt("leader " U64 ": a transfer request for " U64 " must have no effect", n.id, to));
      }
    } else if (x.transferee != o.transferee && x.transferee) {
      fail("C18", "transfer-unasked", fmt("leader " U64 ": transfer to " U64 " without a request", n.id, x.transferee));
    }
    if (x.transferee && n.ticks - lm.transfer_tick >= opt.et)
      fail("C18", "transfer-unbounded", fmt("leader " U64 ": the transfer to " U64 " is pending for more than an election timeout", n.id, x.transferee));
    if (o.transferee && !x.transferee && !req) {
      if (cz.k == kTick) c.label("transfer_timeout");
      else if (n.conf.is_voter(o.transferee))
        fail("C18", "transfer-dropped", fmt("leader " U64 " (membership %s) gives up the transfer to " U64 " before its time", n.id, n.conf.str().c_str(), o.transferee));
    }
    if (x.transferee && !n.conf.is_voter(x.transferee) && n.conf.is_voter(n.id))
      fail("C18", "transfer-no-voter", fmt("leader " U64 " (membership %s) still has a transfer to " U64 " pending, which is no voter", n.id, n.conf.str().c_str(), x.transferee));
    if (o.transferee && cz.k == kApply && !x.transferee) c.label("transfer_removed");
    if (o.transferee && cz.k == kApply && x.transferee) c.label("transfer_kept");
    lm.transferee = x.transferee;
  }
  if (win) {
    if (x.transferee) fail("C18", "transfer-inherited", fmt("node " U64 " starts its leadership with a transfer pending", n.id));
    n.lm.transferee = x.transferee;
  }

  // -- replication state per peer, then the generated messages
  if (is_leader(x)) leader_peers(n, o, x, v, cz, fresh);
  for (auto* q : fresh) gen_msg(n, *q, o, x, v, cz);

  n.o = x;
  if (is_leader(x)) {
    n.lm.last = x.last;
    v.hash(x.last, &n.lm.lasth);
    reg_leader(n);
  }
  reg_commit(n);
}

// A leader's own log only grows, and only by what it was asked to append.
void World::leader_appends(Node& n, const Obs& o, const Obs& x, View& v, Cause& cz) {
  LeadM& lm = n.lm;
  uint64_t h = 0;
  if (x.last < lm.last || (lm.last > v.base && (!v.hash(lm.last, &h) || h != lm.lasth)))
    fail("C04", "leader-overwrite", fmt("leader " U64 " of term " U64 " changed its own log (last " U64 " -> " U64 ")", n.id, x.term, lm.last, x.last));
  std::vector<E> added;
  for (uint64_t i = lm.last + 1; i <= x.last; i++) {
    E e;
    if (!v.get(i, &e)) {
      fail("C04", "leader-gap", fmt("leader " U64 ": entry " U64 " is missing", n.id, i));
      return;
    }
    added.push_back(e);
  }
  bool prop = cz.k == kPropose || cz.k == kConf || (cz.k == kStep && cz.m->type() == raftpb::MsgProp);
  for (auto& e : added) {
    if (e.term != x.term) fail("C04 C06", "foreign-term", fmt("leader " U64 " of term " U64 " appends an entry of term " U64, n.id, x.term, e.term));
    if (e.type == raftpb::EntryNormal) continue;
    c.label("conf_append");
    for (uint64_t j = n.app + 1; j < e.idx; j++) {
      E p;
      if (v.get(j, &p) && p.type != raftpb::EntryNormal) {
        fail("C10", "two-changes", fmt("leader " U64 " appends a membership change at " U64 " while the one at " U64 " is not applied (applied " U64 ")", n.id, e.idx, j, n.app));
        break;
      }
    }
    bool leave = false;
    if (e.type == raftpb::EntryConfChangeV2) {
      raftpb::ConfChangeV2 c2;
      leave = c2.ParseFromString(*e.data) && c2.changes_size() == 0;
    }
    if (n.conf.joint() != leave)
      fail("C10", leave ? "leave-simple" : "change-joint", fmt("leader " U64 " with membership %s appends %s", n.id, n.conf.str().c_str(), leave ? "a leave operation" : "a further change"));
  }
  if (!prop) {
    if (!added.empty()) {
      bool leave = added.size() == 1 && cz.k == kAdvance && added[0].type == raftpb::EntryConfChangeV2 && added[0].data->empty();
      if (!leave) fail("C12 C10", "unasked-entry", fmt("leader " U64 " appends %zu entries nobody proposed", n.id, added.size()));
      else if (!n.conf.auto_leave) fail("C10", "unasked-leave", fmt("leader " U64 " leaves %s by itself", n.id, n.conf.str().c_str()));
      else c.label("auto_leave");
    }
    return;
  }
  bool member = n.conf.is_member(n.id);
  uint64_t s_hi = cz.payload_max, s_lo = cz.has_conf ? 0 : cz.payload_max, max = opt.max_unc ? opt.max_unc : ~0ull;
  if (cz.ok) {
    c.label("accepted");
    if ((int)added.size() != cz.nents)
      fail("C12", "count", fmt("leader " U64 " accepted %d entries and appended %zu", n.id, cz.nents, added.size()));
    for (size_t i = 0; cz.props && i < added.size() && i < cz.props->size(); i++) {
      int ty = cz.m ? (int)cz.m->entries(i).type() : (int)raftpb::EntryNormal;
      bool okay = (added[i].type == ty && *added[i].data == (*cz.props)[i]) ||
                  (ty != raftpb::EntryNormal && added[i].type == raftpb::EntryNormal && added[i].data->empty());
      if (!okay) fail("C12", "altered", fmt("leader " U64 ": entry " U64 " does not carry the proposed bytes", n.id, added[i].idx));
    }
    if (cz.has_conf && cz.m && o.applied >= o.last)
      for (int i = 0; i < cz.m->entries_size() && i < (int)added.size(); i++) {
        auto& pe = cz.m->entries(i);
        if (pe.type() == raftpb::EntryNormal) continue;
        raftpb::ConfChangeV2 c2;
        bool leave = pe.type() == raftpb::EntryConfChangeV2 && c2.ParseFromString(pe.data()) && c2.changes_size() == 0;
        if (leave != n.conf.joint()) continue;
        c.label("conf_due");
        if (added[i].type == raftpb::EntryNormal)
          fail("C10", "refused-change", fmt("leader " U64 " has applied its whole log (" U64 "), membership %s, and refuses a membership change", n.id, o.applied, n.conf.str().c_str()));
        break;
      }
    if (o.transferee) fail("C18", "transfer-propose", fmt("leader " U64 " accepts a proposal while a transfer to " U64 " is pending", n.id, o.transferee));
    if (lm.u_lo > 0 && s_lo > 0 && (s_lo > max || lm.u_lo > max - s_lo))
      fail("C20", "overrun", fmt("leader " U64 " has " U64 " bytes not yet applied, limit " U64 ", and admits " U64 " more", n.id, lm.u_lo, max, s_lo));
    if (lm.u_lo == 0 && s_lo > max) c.label("admit_big");
    if (lm.u_lo > 0 && s_lo > 0 && opt.max_unc) c.label("admit_within");
    for (auto& e : added)
      if (!e.data->empty()) {
        lm.own[e.idx] = e.data->size();
        lm.u_lo += e.data->size();
        lm.u_hi += e.data->size();
      }
    if (cz.props) for (auto& d : *cz.props) if (!d.empty()) props[d].accepted = true;
  } else {
    c.label("refused");
    if (!added.empty()) fail("C12", "refused-appended", fmt("leader " U64 " reported a proposal as dropped and appended %zu entries", n.id, added.size()));
    if (cz.props) for (auto& d : *cz.props) if (!d.empty()) props[d].errored = true;
    bool size = lm.u_hi > 0 && s_hi > 0 && (s_hi > max || lm.u_hi > max - s_hi);
    if (member && !o.transferee && !size)
      fail("C20 C18 C12", "refused-wrongly", fmt("leader " U64 " refuses " U64 " bytes with " U64 " bytes not yet applied, limit " U64 ", no transfer pending", n.id, s_hi, lm.u_hi, max));
    if (size && member && !o.transferee) c.label("refused_size");
    if (o.transferee) c.label("refused_transfer");
  }
}

void World::leader_peers(Node& n, const Obs& o, const Obs& x, View& v, Cause& cz, const std::vector<const raftpb::Message*>& fresh) {
  auto& pm = n.rn->GetRaft()->GetTracker().GetProgressMap();
  const int kProbe = (int)craft::StateType::kProbe, kRepl = (int)craft::StateType::kReplicate, kSnap = (int)craft::StateType::kSnapshot;
  for (auto& pr : pm) {
    if (pr.first == n.id) continue;
    PeerM& p = n.lm.peers[pr.first];
    int s = (int)pr.second->State();
    if (cz.k == kApply) {
      p.probe = 0;
      if (s != kSnap) p.pend_snap = 0;
      if (pr.second->Match() < p.acked) p.acked = pr.second->Match();
      if (pr.second->GetInflights()->Count() == 0) p.out.clear();
    }
    if (s != p.st) {
      if (s == kRepl || p.st == kRepl) p.out.clear();
      if (s == kProbe) p.probe = 0;
      p.st = s;
    }
  }
  for (auto* q : fresh) {
    auto t = q->type();
    if (t != raftpb::MsgApp && t != raftpb::MsgSnap) continue;
    auto it = n.lm.peers.find(q->to());
    if (it == n.lm.peers.end()) {
      fail("C10 C19", "to-stranger", fmt("leader " U64 " replicates to " U64 ", not a member of %s", n.id, q->to(), n.conf.str().c_str()));
      continue;
    }
    PeerM& p = it->second;
    if (t == raftpb::MsgSnap) {
      c.label("snap_sent");
      if (p.pend_snap) fail("C13 C19", "snap-pending", fmt("leader " U64 " sends " U64 " another snapshot while " U64 " is pending there", n.id, q->to(), p.pend_snap));
      p.pend_snap = q->snapshot().metadata().index();
      continue;
    }
    if (p.pend_snap) fail("C13 C19", "append-pending-snap", fmt("leader " U64 " sends " U64 " an append while snapshot " U64 " is pending there", n.id, q->to(), p.pend_snap));
    if (!q->entries_size()) continue;
    c.label("append_sent");
    if (p.st == kRepl) {
      p.out.push_back(q->entries(q->entries_size() - 1).index());
      if ((int)p.out.size() == opt.inflight) c.label("window_full");
      if ((int)p.out.size() > opt.inflight)
        fail("C19", "window", fmt("leader " U64 ": %zu appends to " U64 " are outstanding, limit %d", n.id, p.out.size(), q->to(), opt.inflight));
    } else if (p.st == kProbe) {
      c.label("probe_sent");
      if (++p.probe > 1) fail("C19", "probe", fmt("leader " U64 " sends a second non-empty append to the probed peer " U64 " without an exchange in between", n.id, q->to()));
    }
  }
}

void World::gen_msg(Node& n, const raftpb::Message& m, const Obs& o, const Obs& x, View& v, Cause& cz) {
  auto t = m.type();
  uint64_t k = 0, h = 0;
  switch (t) {
    case raftpb::MsgApp: {
      if (!is_leader(x)) fail("C01 C19", "append-role", fmt("node " U64 " is no leader but sends appends", n.id));
      if (!v.term(m.index(), &k) || k != m.logterm())
        fail("C19 C04", "prev", fmt("leader " U64 ": append states " U64 "/" U64 " as previous entry, its log has term " U64 " there", n.id, m.index(), m.logterm(), k));
      uint64_t i = m.index(), bytes = 0;
      for (auto& e : m.entries()) {
        i++;
        bytes += e.ByteSizeLong();
        if (e.index() != i || !v.hash(i, &h) || h != ehash(e)) {
          fail("C19 C04", "contents", fmt("leader " U64 ": append after " U64 " carries entry " U64 "/" U64 " which is not the one of its log", n.id, m.index(), e.index(), e.term()));
          break;
        }
      }
      if (m.entries_size() > 1 && bytes > opt.max_msg)
        fail("C19", "size", fmt("leader " U64 ": append with %d entries and " U64 " bytes, limit " U64, n.id, m.entries_size(), bytes, opt.max_msg));
      if (m.entries_size() > 1) c.label("append_multi");
      if (m.commit() < o.commit || m.commit() > x.commit)
        fail("C19 C02", "commit", fmt("leader " U64 ": append announces commit " U64 ", own commit " U64, n.id, m.commit(), x.commit));
      break;
    }
    case raftpb::MsgSnap:
      check_snapshot(m.snapshot(), "send", n);
      if (!is_leader(x)) fail("C01 C13", "snap-role", fmt("node " U64 " is no leader but sends a snapshot", n.id));
      break;
    case raftpb::MsgHeartbeat: {
      if (!is_leader(x)) fail("C01", "heartbeat-role", fmt("node " U64 " is no leader but sends heartbeats", n.id));
      auto it = n.lm.peers.find(m.to());
      if (it != n.lm.peers.end() && m.commit() > it->second.acked)
        fail("C02 C29", "heartbeat-commit", fmt("leader " U64 " announces commit " U64 " to " U64 " which has confirmed " U64, n.id, m.commit(), m.to(), it->second.acked));
      if (m.commit() > x.commit) fail("C02 C29", "heartbeat-commit", fmt("leader " U64 " announces commit " U64 ", own commit " U64, n.id, m.commit(), x.commit));
      break;
    }
    case raftpb::MsgVote:
    case raftpb::MsgPreVote: {
      // the log cannot change while a node campaigns, except by the entry a new leader appends
      if (!is_leader(x) && (m.index() != x.last || m.logterm() != x.lastterm))
        fail("C03 C05", "vote-log", fmt("node " U64 " (log ends " U64 "/" U64 ") asks for votes with %s", n.id, x.last, x.lastterm, msg_str(m).c_str()));
      if (m.term() != x.term + (t == raftpb::MsgPreVote ? 1 : 0))
        fail("C16 C05", "vote-term", fmt("node " U64 " at term " U64 " asks for votes with %s", n.id, x.term, msg_str(m).c_str()));
      if (t == raftpb::MsgVote && x.vote != n.id) fail("C05 C08", "vote-self", fmt("node " U64 " asks for votes without voting for itself", n.id));
      break;
    }
    case raftpb::MsgVoteResp:
      if (!m.reject() && (m.to() != x.vote || m.term() != x.term))
        fail("C05 C08", "grant", fmt("node " U64 " (term " U64 ", vote " U64 ") answers %s", n.id, x.term, x.vote, msg_str(m).c_str()));
      break;
    case raftpb::MsgPreVoteResp:
      if (!m.reject() && !(cz.m && cz.m->type() == raftpb::MsgPreVote && cz.m->from() == m.to() && cz.m->term() == m.term()))
        fail("C16", "pregrant", fmt("node " U64 " sends %s unasked", n.id, msg_str(m).c_str()));
      break;
    case raftpb::MsgTimeoutNow: {
      c.label("timeout_now");
      if (!is_leader(x) || m.to() != x.transferee)
        fail("C18", "timeout-target", fmt("node " U64 " tells " U64 " to campaign, pending transfer target is " U64, n.id, m.to(), x.transferee));
      Node* p = by_id(m.to());
      // (a target that meanwhile follows a later leader may have lost what it acknowledged)
      if (p && is_leader(x) && p->durable.hs.term <= x.term && v.hash(x.last, &h)) {
        const E* e = p->durable.at(x.last);
        if (!(p->durable.off >= x.last || (e && e->h == h)))
          fail("C18", "timeout-early", fmt("leader " U64 " tells " U64 " to campaign, which does not hold the leader's last entry " U64, n.id, m.to(), x.last));
      }
      break;
    }
    default:
      break;
  }
}

}  // namespace sim
