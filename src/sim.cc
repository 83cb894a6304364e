// Cluster simulator: nodes, disks, applications, network and generated operations.
#include "sim.h"

#include <inttypes.h>
#include <cstdarg>

namespace sim {

uint64_t ehash(uint64_t idx, uint64_t term, int type, const std::string& data) {
  return mix64(mix64(idx, term), mix64(type, pbt::hash_str(data)));
}
E mk_e(const raftpb::Entry& e) {
  return E{e.index(), e.term(), (int)e.type(), std::make_shared<const std::string>(e.data()), ehash(e)};
}
craft::EntryPtr to_entry(const E& e) { return mk_entry(e.idx, e.term, *e.data, (raftpb::EntryType)e.type); }

const char* state_name(RaftStateType s) {
  switch (s) {
    case RaftStateType::kFollower: return "follower";
    case RaftStateType::kCandidate: return "candidate";
    case RaftStateType::kLeader: return "leader";
    case RaftStateType::kPreCandidate: return "pre-candidate";
    default: return "?";
  }
}

std::string msg_str(const raftpb::Message& m) {
  return fmt("%s %" PRIu64 "->%" PRIu64 " t%" PRIu64 " lt%" PRIu64 " i%" PRIu64 " ents%d c%" PRIu64 "%s hint%" PRIu64 " ctx[%zu] snap%" PRIu64,
             raftpb::MessageType_Name(m.type()).c_str(), m.from(), m.to(), m.term(), m.logterm(), m.index(), m.entries_size(),
             m.commit(), m.reject() ? " REJ" : "", m.rejecthint(), m.context().size(), m.snapshot().metadata().index());
}

void World::tr(const char* f, ...) {
  if (!c.verbose) return;
  va_list ap;
  va_start(ap, f);
  fprintf(stderr, "[%" PRIu64 "] ", now);
  vfprintf(stderr, f, ap);
  fputc('\n', stderr);
  va_end(ap);
}

bool World::owns(const char* ps) const {
  static const bool all = getenv("PBT_STRICT") != nullptr;  // debugging: every oracle counts
  return all || strstr(ps, c.prop.c_str()) != nullptr;
}
void World::fail(const char* ps, const char* tag, const std::string& msg) {
  tr("FAIL(%s) %s: %s", ps, tag, msg.c_str());
  if (owns(ps)) c.fail(tag, msg + fmt(" (operation %" PRIu64 ")", now));
  c.labels[std::string("foreign:") + tag]++;
}

World::World(Ctx& ctx, const Profile& p) : c(ctx), prof(p), logger(make_logger(ctx)) {
  auto pick = [&](int h, std::initializer_list<uint64_t> l) { return l.begin()[c.h(h) % l.size()]; };
  opt.modeA = c.h(0) % 3 != 0;
  opt.n = p.big ? (int)pick(1, {3, 3, 5, 4, 5, 2}) : (int)pick(1, {3, 1, 3, 2, 5, 3, 4});
  opt.confs = p.confs >= 0 ? p.confs : c.h(2) % 3 == 0;
  opt.removals = p.removals >= 0 ? p.removals : c.h(3) % 3 != 0;
  opt.spares = opt.confs ? 1 + c.h(4) % 2 : 0;
  opt.learners = opt.modeA ? 0 : (p.learners >= 0 ? p.learners : (int)(c.h(5) % 5 == 0));
  opt.et = (int)pick(6, {10, 5, 3, 4, 7});
  opt.hb = 1 + c.h(7) % std::min(3, opt.et - 1);
  bool small = p.small_limits || c.h(8) % 3 == 0;
  opt.max_msg = small ? pick(9, {0, 1, 40, 64, 200, 1000}) : pick(9, {~0ull, 1 << 20});
  opt.max_ready = small ? pick(10, {0, 1, 60, 300}) : pick(10, {0, ~0ull});
  opt.max_unc = p.unc ? pick(11, {1, 20, 64, 150, 400}) : pick(11, {0, 0, 0, 200, 2000});
  opt.inflight = p.small_window ? (int)pick(12, {1, 2, 3, 4}) : (int)pick(12, {256, 1, 2, 3, 8});
  opt.grand = c.h(28) % 40 == 39;
  if (opt.grand) {
    opt.inflight = (int)pick(12, {256, 8, 16, 40, 100});
    if (p.unc) opt.max_unc = pick(11, {150, 5000, 70000, 1 << 20});
    if (small) {
      opt.max_msg = pick(9, {0, 64, 1000, 70000, 1 << 17});
      opt.max_ready = pick(10, {0, 300, 5000, 70000});
    }
    if (c.h(29) % 3 == 0) opt.n = 7;
    opt.et = (int)pick(6, {10, 5, 20, 40});
  }
  opt.pre_vote = p.pre_vote >= 0 ? p.pre_vote : c.h(13) % 2;
  opt.check_quorum = p.check_quorum >= 0 ? p.check_quorum : c.h(14) % 2;
  opt.nofwd = c.h(15) % 6 == 5;
  opt.interleave = c.h(16) % 2;
  opt.fifo = c.h(17) % 3 != 2;
  opt.auto_mode = (int)pick(18, {2, 1, 2, 2, 0});
  opt.partial = !opt.confs && c.h(19) % 2;
  opt.unknown_id = opt.confs && opt.removals && c.h(20) % 6 == 5;
  opt.lease = opt.check_quorum && c.prop != "C09" && c.h(21) % 16 == 15;
  if (c.h(22) % 4 == 3) {
    // ids that differ only in their upper halves, ids beyond the signed range, ids around a 32-bit boundary
    static const uint64_t kIds[][2] = {{1000, 77}, {1, 1ull << 32}, {(1ull << 63) + 5, 1}, {0xfffffffeull, 1}, {~0ull - 60, 7}};
    auto& k = kIds[c.h(22) / 4 % 5];
    opt.id_base = k[0];
    opt.id_step = k[1];
  }
  if (!opt.modeA) {
    opt.base_idx = pick(23, {1, 5, 10, 1000, 3, 1ull << 33, 0x7ffffffaull, 0xfffffff8ull, 1ull << 62});
    opt.base_term = c.h(24) % 9 < 6 ? 1 + c.h(24) % 3 : pick(24, {0x7ffffffeull, 0xffffffffull, 1ull << 62});
  }
  if (opt.grand) c.label("grand");
  int total = opt.n + opt.learners + opt.spares;
  nodes.resize(total);
  blocked.assign(total, std::vector<char>(total, 0));
  gbase = opt.modeA ? 0 : opt.base_idx;
}
World::~World() {}

void World::start() {
  RefConf init;
  for (size_t i = 0; i < nodes.size(); i++) {
    Node& n = nodes[i];
    n.ix = (int)i;
    n.id = opt.id_base + i * opt.id_step;
    ixof[n.id] = (int)i;
    n.boot = opt.modeA && (int)i < opt.n;
    if ((int)i < opt.n) init.in.insert(n.id);
    else if ((int)i < opt.n + opt.learners) init.learners.insert(n.id);
  }
  gconf.push_back(opt.modeA ? RefConf() : init);
  gdig.push_back(mix64(gbase, opt.base_term));
  if (opt.modeA) {
    uint64_t i = 0;
    for (auto id : init.in) {
      raftpb::ConfChange cc;
      cc.set_type(raftpb::ConfChangeAddNode);
      cc.set_node_id(id);
      cc.set_context("");
      i++;
      E e{i, 1, (int)raftpb::EntryConfChange, std::make_shared<const std::string>(cc.SerializeAsString()), 0};
      e.h = ehash(i, 1, e.type, *e.data);
      glog.push_back(e);
      gterm.push_back(1);
      gconf.push_back(init);
      gdig.push_back(mix64(gdig.back(), e.h));
    }
  } else {
    for (int i = 0; i < opt.n + opt.learners; i++) {
      Disk& d = nodes[i].live;
      d.off = d.snap = opt.base_idx;
      d.offterm = opt.base_term;
      d.hs.term = opt.base_term;
      d.hs.commit = opt.base_idx;
      nodes[i].durable = d;
    }
  }
  for (auto& n : nodes) {
    if (n.boot) instantiate(n, true, 0, init);
    else if (n.live.off) instantiate(n, false, n.live.off, init);
    else instantiate(n, false, 0, RefConf());
  }
  if (opt.auto_mode) pump(20);
  if (opt.auto_mode && c.h(26) % 3 && c.prop != "C01") {  // most histories start with a leader
    campaign(nodes[c.h(27) % opt.n]);
    pump(10);
  }
}

static raftpb::Snapshot mk_snap(uint64_t idx, uint64_t term, const RefConf& conf, uint64_t dig) {
  raftpb::Snapshot s;
  s.mutable_metadata()->set_index(idx);
  s.mutable_metadata()->set_term(term);
  *s.mutable_metadata()->mutable_conf_state() = conf.to();
  s.set_data(fmt("%" PRIu64 ":%" PRIu64, idx, dig));
  return s;
}

bool World::gterm_at(uint64_t i, uint64_t* t) const {
  if (i == gbase) { *t = opt.modeA ? 0 : opt.base_term; return true; }
  const E* e = gat(i);
  if (e) *t = e->term;
  return e != nullptr;
}

void World::instantiate(Node& n, bool bootstrap, uint64_t applied, const RefConf& conf) {
  Disk& d = n.live;
  n.st = std::make_shared<SimStorage>(logger);
  if (d.off) {
    auto s = std::make_shared<raftpb::Snapshot>(mk_snap(d.off, d.offterm, *gconf_at(d.off), gdig_at(d.off)));
    n.st->ApplySnapshot(s);
  }
  craft::EntryPtrs es;
  for (auto& e : d.ents) es.push_back(to_entry(e));
  n.st->Append(es);
  if (d.snap > d.off) {
    auto cs = gconf_at(d.snap)->to();
    n.st->CreateSnapshot(d.snap, &cs, fmt("%" PRIu64 ":%" PRIu64, d.snap, gdig_at(d.snap)));
  }
  n.st->hs.set_term(d.hs.term);
  n.st->hs.set_vote(d.hs.vote);
  n.st->hs.set_commit(d.hs.commit);
  if (d.hs == HS()) n.st->hs.Clear();
  n.st->SetHardState(n.st->hs);
  if (!bootstrap) n.st->cs = conf.to();
  craft::Raft::Config cfg;
  cfg.id = n.id;
  cfg.election_tick = opt.et;
  cfg.heartbeat_tick = opt.hb;
  cfg.storage = n.st;
  cfg.applied = applied;
  if (applied == d.off && (n.inc + c.h(25)) % 2) cfg.applied = 0;
  cfg.max_size_per_msg = opt.max_msg;
  cfg.max_committed_size_per_ready = opt.max_ready;
  cfg.max_uncommitted_entries_size = opt.max_unc;
  cfg.max_inflight_msgs = opt.inflight;
  cfg.check_quorum = opt.check_quorum;
  cfg.pre_vote = opt.pre_vote;
  cfg.disable_proposal_forwarding = opt.nofwd;
  if (opt.lease) cfg.read_only_option = craft::ReadOnly::ReadOnlyOption::kLeaseBased;
  cfg.logger = logger;
  n.inc++;
  n.up = true;
  n.conf = conf;
  n.app = n.adv_applied = n.cursor = applied;
  n.appdig = applied >= gbase && applied <= glast() ? gdig_at(applied) : 0;
  n.rd.reset();
  n.phase = 0;
  n.gen.clear();
  n.pregrants.clear();
  n.grants.clear();
  n.lm = LeadM();
  n.pcommit = 0;
  n.contact = 1 << 30;
  n.kept.reset();
  n.prev_lead = 0;
  n.prev_state = RaftStateType::kFollower;
  n.prev_hs = bootstrap ? HS() : d.hs;
  n.o = Obs();
  if (bootstrap) {
    std::vector<craft::Peer> peers;
    for (auto id : conf.in) peers.push_back(craft::Peer{id, ""});
    n.rn = craft::RawNode::Start(cfg, peers);
  } else {
    n.rn = craft::RawNode::ReStart(cfg);
    if (n.prev_hs == HS()) n.prev_hs.commit = d.off;  // a fresh node over a bare snapshot
  }
  c.events++;
  n.o = read_obs(n);
  tr("node %" PRIu64 " started (%s) applied %" PRIu64 " term %" PRIu64 " commit %" PRIu64 " last %" PRIu64 " conf %s", n.id,
     bootstrap ? "bootstrap" : "restart", applied, n.o.term, n.o.commit, n.o.last, n.conf.str().c_str());
  check_conf(n, "start");
}

// ------------------------------------------------------------------------------------------------ batches

std::string World::ser_ready(const craft::Ready& r) {
  std::string s;
  if (r.soft_state) s += fmt("S%" PRIu64 ",%d;", r.soft_state->lead, (int)r.soft_state->raft_state);
  s += ser(r.hard_state) + "|";
  for (auto& x : r.read_states) s += fmt("R%" PRIu64 ":", x.index) + x.request_ctx + ";";
  for (auto& e : r.entries) s += "E" + ekey(*e);
  s += "|" + (r.snapshot ? ser(*r.snapshot) : std::string("-")) + "|";
  for (auto& e : r.committed_entries) s += "C" + ekey(*e);
  for (auto& m : r.messages) s += "M" + ser(*m);
  s += r.must_sync ? "!" : ".";
  return s;
}
static bool ready_nonempty(const craft::Ready& r) {
  return r.soft_state.has_value() || r.hard_state.term() || r.hard_state.vote() || r.hard_state.commit() ||
         !r.read_states.empty() || !r.entries.empty() || (r.snapshot && r.snapshot->metadata().index()) ||
         !r.committed_entries.empty() || !r.messages.empty();
}

void World::take(Node& n, Rng& g) {
  Obs o = n.o;
  Cause cz;
  std::shared_ptr<craft::Ready> p;
  bool has = false;
  bool peek = g.below(3) != 0 || owns("C08");
  if (peek) {
    std::string s1;
    bool has2 = false;
    call(n, cz, [&] {
      has = n.rn->HasReady();
      p = n.rn->ReadyWithoutAccept();
      s1 = ser_ready(*p);
      has2 = n.rn->HasReady();
    });
    if (has != ready_nonempty(*p))
      fail("C08", "hasready", fmt("node %" PRIu64 ": HasReady()=%d but the batch is %s", n.id, has, ready_nonempty(*p) ? "not empty" : "empty"));
    if (has != has2) fail("C08", "peek", fmt("node %" PRIu64 ": peeking changed HasReady()", n.id));
    if (!(o.term == n.o.term && o.vote == n.o.vote && o.commit == n.o.commit && o.state == n.o.state && o.lead == n.o.lead &&
          o.last == n.o.last && o.nmsgs == n.o.nmsgs && o.nreads == n.o.nreads && o.applied == n.o.applied))
      fail("C08", "peek", fmt("node %" PRIu64 ": peeking changed the node", n.id));
    if (!has) return;
    auto p2 = n.rn->ReadyWithoutAccept();
    if (ser_ready(*p2) != s1) fail("C08", "peek", fmt("node %" PRIu64 ": two peeks differ", n.id));
  } else {
    call(n, cz, [&] { has = n.rn->HasReady(); });
    if (!has) return;
  }
  // expected contents, from observed state
  View v = view(n);
  HS hs{o.term, o.vote, o.commit};
  cz = Cause();
  cz.k = kTake;
  if (peek && g.below(2)) {
    call(n, cz, [&] {
      n.rn->AcceptReady(p);
      n.rd = p;
    });
  } else {
    call(n, cz, [&] { n.rd = n.rn->GetReady(); });
    if (p && ser_ready(*n.rd) != ser_ready(*p)) fail("C08", "peek", fmt("node %" PRIu64 ": the batch differs from the peeked one", n.id));
  }
  craft::Ready& r = *n.rd;
  n.phase = 1;
  n.apply_pos = 0;
  n.snap_applied = false;
  n.stepped = false;
  n.rd_ser = ser_ready(r);
  if (pbt::g_sanitize && (g.below(4) == 0 || !r.read_states.empty() || r.snapshot->metadata().index())) render(n);
  c.label("batch");
  // completeness
  bool chg = !(hs == n.prev_hs);
  HS got{r.hard_state.term(), r.hard_state.vote(), r.hard_state.commit()};
  if (chg ? !(got == hs) : !(got == HS()))
    fail("C08", "hardstate", fmt("node %" PRIu64 ": batch carries hard state {%" PRIu64 ",%" PRIu64 ",%" PRIu64 "}, current {%" PRIu64 ",%" PRIu64 ",%" PRIu64
         "}, last acknowledged {%" PRIu64 ",%" PRIu64 ",%" PRIu64 "}", n.id, got.term, got.vote, got.commit, hs.term, hs.vote,
         hs.commit, n.prev_hs.term, n.prev_hs.vote, n.prev_hs.commit));
  bool soft_chg = o.lead != n.prev_lead || o.state != n.prev_state;
  if (soft_chg != r.soft_state.has_value() ||
      (r.soft_state && (r.soft_state->lead != o.lead || r.soft_state->raft_state != o.state)))
    fail("C08", "softstate", fmt("node %" PRIu64 ": soft state in the batch does not report the current leader/role change", n.id));
  n.prev_lead = o.lead;
  n.prev_state = o.state;
  bool sync = !r.entries.empty() || hs.term != n.prev_hs.term || hs.vote != n.prev_hs.vote;
  if (sync != r.must_sync)
    fail("C08", "mustsync", fmt("node %" PRIu64 ": must_sync=%d, expected %d (entries %zu, hard state {%" PRIu64 ",%" PRIu64 "} after {%" PRIu64 ",%" PRIu64 "})",
         n.id, r.must_sync, sync, r.entries.size(), hs.term, hs.vote, n.prev_hs.term, n.prev_hs.vote));
  if (r.entries.size() != v.unst.size())
    fail("C08", "entries", fmt("node %" PRIu64 ": batch has %zu entries to persist, %zu are pending", n.id, r.entries.size(), v.unst.size()));
  else
    for (size_t i = 0; i < v.unst.size(); i++)
      if (ekey(*v.unst[i]) != ekey(*r.entries[i])) fail("C08", "entries", fmt("node %" PRIu64 ": batch entry differs from the pending one", n.id));
  if (!r.snapshot) fail("C08", "snapshot", "batch without snapshot object");
  uint64_t si = r.snapshot ? r.snapshot->metadata().index() : 0;
  if (si != o.snap) fail("C08", "snapshot", fmt("node %" PRIu64 ": batch has snapshot %" PRIu64 ", pending %" PRIu64, n.id, si, o.snap));
  std::vector<uint64_t> mh;
  for (auto& m : r.messages) mh.push_back(pbt::hash_str(ser(*m)));
  if (mh != n.gen)
    fail("C08", "messages", fmt("node %" PRIu64 ": batch carries %zu messages, %zu were generated since the last one (or their contents changed)", n.id, mh.size(), n.gen.size()));
  n.gen.clear();
  // C04: same position and term -> same entry and predecessor
  for (auto& e : r.entries) {
    uint64_t pt = 0;
    bool known = v.term(e->index() - 1, &pt);
    auto k = std::make_pair(e->index(), e->term());
    auto it = seen.find(k);
    if (it == seen.end()) seen[k] = {ehash(*e), known ? pt : ~0ull};
    else {
      if (it->second.first != ehash(*e))
        fail("C04", "entry", fmt("node %" PRIu64 ": entry %" PRIu64 "/term %" PRIu64 " differs from the one another log has there", n.id, e->index(), e->term()));
      if (known && it->second.second != ~0ull && it->second.second != pt)
        fail("C04", "prefix", fmt("node %" PRIu64 ": entry %" PRIu64 "/term %" PRIu64 " follows term %" PRIu64 ", elsewhere it follows term %" PRIu64, n.id, e->index(), e->term(), pt, it->second.second));
      if (it->second.second == ~0ull && known) it->second.second = pt;
    }
  }
  // delivery
  if (si) {
    if (si <= n.cursor) fail("C07", "snapback", fmt("node %" PRIu64 ": snapshot %" PRIu64 " handed out after %" PRIu64 " had been delivered", n.id, si, n.cursor));
    n.cursor = si;
  }
  uint64_t bytes = 0;
  for (auto& e : r.committed_entries) {
    if (e->index() != n.cursor + 1)
      fail("C07", "gap", fmt("node %" PRIu64 ": delivered %" PRIu64 " after %" PRIu64, n.id, e->index(), n.cursor));
    n.cursor = e->index();
    bytes += e->ByteSizeLong();
    if (e->index() > o.commit) fail("C07", "uncommitted", fmt("node %" PRIu64 ": delivered %" PRIu64 " but commit is %" PRIu64, n.id, e->index(), o.commit));
    const E* ge = gat(e->index());
    if (ge && ge->h != ehash(*e)) fail("C02 C07", "apply", fmt("node %" PRIu64 " is handed a different entry at %" PRIu64 " than was committed", n.id, e->index()));
    bool there = false;
    for (auto& x : r.entries) there |= x->index() == e->index() && ehash(*x) == ehash(*e);
    const E* de = n.live.at(e->index());
    there |= de && de->h == ehash(*e);
    if (!there) fail("C07", "notstable", fmt("node %" PRIu64 ": delivered entry %" PRIu64 " is neither stored nor in the same batch", n.id, e->index()));
  }
  uint64_t lim = opt.max_ready ? opt.max_ready : opt.max_msg;
  if (r.committed_entries.size() > 1 && bytes > lim)
    fail("C07", "limit", fmt("node %" PRIu64 ": %" PRIu64 " bytes of committed entries in one batch, limit %" PRIu64, n.id, bytes, lim));
  if (!si && o.commit > o.applied && r.committed_entries.empty())
    fail("C07", "stuck", fmt("node %" PRIu64 ": commit %" PRIu64 " applied %" PRIu64 " but nothing is offered", n.id, o.commit, o.applied));
  if (r.committed_entries.size() > 0) c.label("deliver");
  if (o.commit > n.cursor) c.label("paginated");
  // reads
  for (auto& rs : r.read_states) {
    auto it = reads.find(rs.request_ctx);
    if (it == reads.end()) { fail("C09", "token", fmt("node %" PRIu64 ": answer for a token nobody used", n.id)); continue; }
    c.label("read_answer");
    c.mix(rs.index);
    tr("node %" PRIu64 " read %s -> %" PRIu64, n.id, rs.request_ctx.c_str(), rs.index);
    if (it->second.node != n.id) fail("C09", "node", fmt("answer of %s asked at %" PRIu64 " delivered at %" PRIu64, rs.request_ctx.c_str(), it->second.node, n.id));
    if (it->second.answered) fail("C09", "twice", fmt("%s answered twice", rs.request_ctx.c_str()));
    it->second.answered = true;
    if (!opt.lease && rs.index < it->second.commit)
      fail("C09", "stale", fmt("node %" PRIu64 ": read %s answered with position %" PRIu64 ", but %" PRIu64 " was committed when it was requested", n.id, rs.request_ctx.c_str(), rs.index, it->second.commit));
  }
  // an entry of the live disk that is offered again although nothing changed: see advance()
}

void World::check_snapshot(const raftpb::Snapshot& s, const char* where, Node& n) {
  uint64_t i = s.metadata().index(), t = 0;
  if (i < gbase || i > glast() || !gterm_at(i, &t)) {
    fail("C13 C02", "snap-uncommitted", fmt("%s at node %" PRIu64 ": snapshot %" PRIu64 " is not a committed position", where, n.id, i));
    return;
  }
  if (t != s.metadata().term()) fail("C13", "snap-term", fmt("%s at node %" PRIu64 ": snapshot %" PRIu64 " has term %" PRIu64 ", the log has %" PRIu64, where, n.id, i, s.metadata().term(), t));
  RefConf rc = RefConf::from(s.metadata().conf_state());
  if (!(rc == *gconf_at(i)))
    fail("C13 C10", "snap-conf", fmt("%s at node %" PRIu64 ": snapshot %" PRIu64 " has membership %s, the log prescribes %s", where, n.id, i, rc.str().c_str(), gconf_at(i)->str().c_str()));
  if (s.data() != fmt("%" PRIu64 ":%" PRIu64, i, gdig_at(i)))
    fail("C13", "snap-data", fmt("%s at node %" PRIu64 ": snapshot %" PRIu64 " carries application state of another position", where, n.id, i));
}

void World::persist(Node& n, bool lucky) {
  craft::Ready& r = *n.rd;
  Disk& d = n.live;
  if (r.snapshot->metadata().index()) {
    check_snapshot(*r.snapshot, "install", n);
    auto s = n.st->ApplySnapshot(r.snapshot);
    if (!s.IsOK()) fail("C13", "snap-store", fmt("node %" PRIu64 ": the storage refuses the handed out snapshot: %s", n.id, s.Str()));
    d.off = d.snap = r.snapshot->metadata().index();
    d.offterm = r.snapshot->metadata().term();
    d.ents.clear();
    c.label("snap_install");
  }
  if (!r.entries.empty()) {
    uint64_t f = r.entries[0]->index();
    if (f <= d.off || f > d.last() + 1) {
      fail("C07 C08 C14", "entries-gap", fmt("node %" PRIu64 ": entries to persist start at %" PRIu64 ", stored log is (%" PRIu64 ",%" PRIu64 "]", n.id, f, d.off, d.last()));
    }
    n.st->Append(r.entries);
    while (d.last() >= f && !d.ents.empty()) d.ents.pop_back(), c.label("truncate");
    uint64_t k = f;
    for (auto& e : r.entries) {
      if (e->index() != k++) fail("C08 C04", "entries-order", fmt("node %" PRIu64 ": entries to persist are not contiguous", n.id));
      d.ents.push_back(mk_e(*e));
    }
  }
  HS h{r.hard_state.term(), r.hard_state.vote(), r.hard_state.commit()};
  if (!(h == HS())) {
    if (h.term < d.hs.term || h.commit < d.hs.commit)
      fail("C05", "regress", fmt("node %" PRIu64 " asks to persist term %" PRIu64 " commit %" PRIu64 " after term %" PRIu64 " commit %" PRIu64, n.id, h.term, h.commit, d.hs.term, d.hs.commit));
    if (h.term == d.hs.term && d.hs.vote && h.vote != d.hs.vote)
      fail("C05", "revote", fmt("node %" PRIu64 " changes its persisted vote of term %" PRIu64 " from %" PRIu64 " to %" PRIu64, n.id, h.term, d.hs.vote, h.vote));
    d.hs = h;
    n.st->SetHardState(r.hard_state);
    if (h.vote) {
      auto& x = voted[{n.id, h.term}];
      if (x && x != h.vote) fail("C05", "two-votes", fmt("node %" PRIu64 " votes for %" PRIu64 " and %" PRIu64 " in term %" PRIu64, n.id, x, h.vote, h.term));
      x = h.vote;
    }
  }
  if (r.must_sync || r.snapshot->metadata().index() || lucky) n.durable = d;
  n.phase = 2;
  reg_leader(n);
  reg_commit(n);
}

void World::to_net(Node& n, const raftpb::Message& m) {
  if (net.size() > (opt.grand ? 3000 : 300)) {
    Pkt p = net.front();
    net.pop_front();
    if (p.m->type() == raftpb::MsgSnap && !p.dup) reports.push_back(Report{p.from, p.to, p.inc, p.term, false});
  }
  net.push_back(Pkt{n.id, m.to(), std::make_shared<const raftpb::Message>(m), n.inc, m.term(), false});
}

// An acknowledgement vouches for the leader's own entry at that position.
void World::check_ack(Node& n, const raftpb::Message& m) {
  Node* l = by_id(m.to());
  if (!l || !l->up || l->o.state != RaftStateType::kLeader || l->o.term != m.term()) return;
  // given for an earlier term and handed out together with what a later leader has written over it since
  if (n.live.hs.term > m.term()) return;
  View v = view(*l);
  uint64_t i = m.index(), h = 0;
  if (i > v.last()) {
    fail("C06 C04", "ack-beyond", fmt("node %" PRIu64 " sends %s but the log of that leader ends at %" PRIu64, n.id, msg_str(m).c_str(), v.last()));
    return;
  }
  const E* e = n.live.at(i);
  if (!e) return;
  c.label("ack_checked");
  const E* ge = gat(i);
  if (v.hash(i, &h) ? h != e->h : i <= v.base && ge && ge->h != e->h)
    fail("C06 C04", "ack-other", fmt("node %" PRIu64 " sends %s but its entry there (term %" PRIu64 ") is not the leader's", n.id, msg_str(m).c_str(), e->term));
}

void World::send(Node& n) {
  craft::Ready& r = *n.rd;
  const Disk& d = n.live;
  for (auto& mp : r.messages) {
    const raftpb::Message& m = *mp;
    auto t = m.type();
    tr("node %" PRIu64 " sends %s", n.id, msg_str(m).c_str());
    bool fwd = t == raftpb::MsgProp || t == raftpb::MsgReadIndex || t == raftpb::MsgTransferLeader;
    if (!fwd && m.from() != n.id) fail("C08 C01", "from", fmt("node %" PRIu64 " sends %s", n.id, msg_str(m).c_str()));
    bool pre = t == raftpb::MsgPreVote || (t == raftpb::MsgPreVoteResp && !m.reject());
    if (!pre && !fwd && m.term() > d.hs.term)
      fail("C08 C05", "term", fmt("node %" PRIu64 " sends %s but has only persisted term %" PRIu64, n.id, msg_str(m).c_str(), d.hs.term));
    switch (t) {
      case raftpb::MsgVote:
        if (m.term() == d.hs.term && d.hs.vote != n.id)
          fail("C08 C05", "candidacy", fmt("node %" PRIu64 " sends %s but its persisted vote is %" PRIu64, n.id, msg_str(m).c_str(), d.hs.vote));
        {
          auto& x = voted[{n.id, m.term()}];
          if (x && x != n.id) fail("C05", "two-votes", fmt("node %" PRIu64 " campaigns in term %" PRIu64 " after voting for %" PRIu64, n.id, m.term(), x));
          x = n.id;
        }
        break;
      case raftpb::MsgVoteResp:
        if (!m.reject()) {
          if (m.term() == d.hs.term && d.hs.vote != m.to())
            fail("C08 C05", "vote", fmt("node %" PRIu64 " sends %s but its persisted vote is %" PRIu64, n.id, msg_str(m).c_str(), d.hs.vote));
          auto& x = voted[{n.id, m.term()}];
          if (x && x != m.to()) fail("C05", "two-votes", fmt("node %" PRIu64 " grants term %" PRIu64 " to %" PRIu64 " and %" PRIu64, n.id, m.term(), x, m.to()));
          x = m.to();
          c.label("grant");
        }
        break;
      case raftpb::MsgAppResp:
        if (!m.reject() && m.term() == d.hs.term && m.index() > d.last())
          fail("C08 C06", "ack", fmt("node %" PRIu64 " sends %s but its stored log ends at %" PRIu64, n.id, msg_str(m).c_str(), d.last()));
        if (!m.reject() && m.index()) check_ack(n, m);
        break;
      case raftpb::MsgApp:
      case raftpb::MsgHeartbeat:
      case raftpb::MsgSnap:
      case raftpb::MsgTimeoutNow:
      case raftpb::MsgReadIndexResp: {
        auto& x = leader_msg[m.term()];
        if (x && x != n.id) fail("C01", "leader-msg", fmt("nodes %" PRIu64 " and %" PRIu64 " both send leader messages of term %" PRIu64, x, n.id, m.term()));
        x = n.id;
        auto& y = leader_of[m.term()];
        if (y && y != n.id) fail("C01", "leader-msg", fmt("node %" PRIu64 " sends %s, but %" PRIu64 " is the leader of that term", n.id, msg_str(m).c_str(), y));
        y = n.id;
        break;
      }
      default:
        break;
    }
    to_net(n, m);
  }
  n.phase = 3;
}

void World::conf_applied(Node& n) {
  // the leader's reference state follows the membership
  n.lm.conf_tick = n.ticks;
  for (auto it = n.lm.peers.begin(); it != n.lm.peers.end();)
    if (!n.conf.is_member(it->first)) it = n.lm.peers.erase(it);
    else ++it;
}

void World::apply_some(Node& n, size_t k) {
  craft::Ready& r = *n.rd;
  if (!n.snap_applied) {
    n.snap_applied = true;
    if (uint64_t si = r.snapshot->metadata().index()) {
      if (si <= n.app) fail("C13 C07", "snap-rollback", fmt("node %" PRIu64 ": snapshot %" PRIu64 " would roll the application back from %" PRIu64, n.id, si, n.app));
      n.app = si;
      n.appdig = si <= glast() && si >= gbase ? gdig_at(si) : 0;
      tr("node %" PRIu64 " app restores snapshot %" PRIu64, n.id, si);
    }
  }
  while (k-- && n.apply_pos < r.committed_entries.size()) {
    const raftpb::Entry& e = *r.committed_entries[n.apply_pos++];
    const E* ge = gat(e.index());
    if (!ge) fail("C02", "apply-uncommitted", fmt("node %" PRIu64 " applies %" PRIu64 " which no leader has committed", n.id, e.index()));
    else if (ge->h != ehash(e))
      fail("C02", "apply", fmt("node %" PRIu64 " applies a different entry at %" PRIu64 " than was committed (term %" PRIu64 " vs %" PRIu64 ")", n.id, e.index(), e.term(), ge->term));
    n.app = e.index();
    n.appdig = mix64(n.appdig ? n.appdig : gdig[0], ehash(e));
    c.label("apply");
    if (e.type() != raftpb::EntryNormal) {
      raftpb::ConfChange c1;
      raftpb::ConfChangeV2 c2;
      bool v1 = e.type() == raftpb::EntryConfChange;
      bool okp = v1 ? c1.ParseFromString(e.data()) : c2.ParseFromString(e.data());
      if (!okp) { fail("C02 C12", "conf-bytes", "a committed membership change does not decode"); continue; }
      RefConf nc = n.conf;
      std::string err = app_conf(nc, e.type(), e.data()) ? "" : "refused";
      tr("node %" PRIu64 " applies conf entry %" PRIu64 ": %s -> %s %s", n.id, e.index(), n.conf.str().c_str(), nc.str().c_str(), err.c_str());
      if (err.empty()) {
        n.conf = nc;
        conf_applied(n);
        c.label("conf_apply");
        Cause cz;
        cz.k = kApply;
        raftpb::ConfState cs;
        n.stepped = true;
        call(n, cz, [&] { cs = n.rn->ApplyConfChange(v1 ? craft::ConfChangeI(c1) : craft::ConfChangeI(c2)); });
        if (!(RefConf::from(cs) == n.conf))
          fail("C10", "conf-result", fmt("node %" PRIu64 ": applying entry %" PRIu64 " gives %s, the rules give %s", n.id, e.index(), RefConf::from(cs).str().c_str(), n.conf.str().c_str()));
      } else {
        c.label("conf_rejected");
      }
      if (n.o.snap == 0 || n.app >= n.o.snap) check_conf(n, "apply");
    }
    const RefConf* gc = gconf_at(n.app);
    if (gc && n.app >= gbase + (opt.modeA ? opt.n : 0) && (n.o.snap == 0 || n.app >= n.o.snap) && !(*gc == n.conf))
      fail("C10", "conf-diverged", fmt("node %" PRIu64 " at %" PRIu64 " works with %s, the applied log prescribes %s", n.id, n.app, n.conf.str().c_str(), gc->str().c_str()));
  }
}

void World::advance(Node& n) {
  craft::Ready& r = *n.rd;
  if (ser_ready(r) != n.rd_ser) fail("C08", "frozen", fmt("node %" PRIu64 ": the contents of a handed out batch changed before it was acknowledged", n.id));
  auto rd = n.rd;
  HS h{r.hard_state.term(), r.hard_state.vote(), r.hard_state.commit()};
  // leader accounting: what is applied now frees the quota
  if (n.o.state == RaftStateType::kLeader && n.lm.term == n.o.term) {
    uint64_t s = 0;
    for (auto& e : r.committed_entries) {
      s += e->data().size();
      auto it = n.lm.own.find(e->index());
      if (it != n.lm.own.end()) {
        n.lm.u_hi -= it->second;
        n.lm.own.erase(it);
      }
    }
    n.lm.u_lo = s > n.lm.u_lo ? 0 : n.lm.u_lo - s;
  }
  uint64_t expect_applied = n.o.applied;
  if (!r.committed_entries.empty()) expect_applied = r.committed_entries.back()->index();
  else if (r.snapshot->metadata().index()) expect_applied = r.snapshot->metadata().index();
  n.adv_applied = n.app;
  bool stepped = n.stepped;
  n.rd.reset();
  n.phase = 0;
  if (!(h == HS())) n.prev_hs = h;
  Cause cz;
  cz.k = kAdvance;
  call(n, cz, [&] { n.rn->Advance(); });
  if (n.o.applied != expect_applied)
    fail("C07", "applied", fmt("node %" PRIu64 ": applied position is %" PRIu64 " after acknowledging %" PRIu64, n.id, n.o.applied, expect_applied));
  if (!stepped && (owns("C08") || c.events % 4 == 0)) {
    std::shared_ptr<craft::Ready> p;
    Cause no;
    call(n, no, [&] { p = n.rn->ReadyWithoutAccept(); });
    uint64_t lastack = rd->entries.empty() ? 0 : rd->entries.back()->index();
    for (auto& e : p->entries)
      if (e->index() <= lastack) { fail("C08", "reoffer", fmt("node %" PRIu64 ": entry %" PRIu64 " is offered for persisting again after it was acknowledged", n.id, e->index())); break; }
    if (p->snapshot->metadata().index() && p->snapshot->metadata().index() == rd->snapshot->metadata().index())
      fail("C08", "reoffer", fmt("node %" PRIu64 ": an acknowledged snapshot is offered again", n.id));
    if (!p->committed_entries.empty() && p->committed_entries[0]->index() <= expect_applied)
      fail("C08 C07", "reoffer", fmt("node %" PRIu64 ": applied entry %" PRIu64 " is offered again", n.id, p->committed_entries[0]->index()));
    if (!p->messages.empty() && p->entries.empty()) fail("C08", "reoffer", fmt("node %" PRIu64 ": messages after acknowledging a batch with no call in between", n.id));
    if (!p->read_states.empty()) fail("C08 C09", "reoffer", fmt("node %" PRIu64 ": acknowledged read answers are offered again", n.id));
    if (p->soft_state) fail("C08", "reoffer", fmt("node %" PRIu64 ": unchanged soft state is offered again", n.id));
  }
}

void World::phase_step(Node& n, Rng& g) {
  if (!n.up) return;
  switch (n.phase) {
    case 0: take(n, g); break;
    case 1: persist(n, g.below(2)); break;
    case 2: send(n); break;
    case 3:
      if (!n.snap_applied || n.apply_pos < n.rd->committed_entries.size()) apply_some(n, 1 + g.below(4));
      else advance(n);
      break;
  }
}

void World::process(Node& n) {
  Rng g(mix64(now, n.id * 31 + c.events));
  for (int guard = 0; guard < 400 && n.up; guard++) {
    if (n.phase == 0) {
      take(n, g);
      if (n.phase == 0) return;
    }
    phase_step(n, g);
  }
}

bool World::has_confs_unapplied(Node& n) {
  if (!n.rd) return false;
  for (size_t i = n.apply_pos; i < n.rd->committed_entries.size(); i++)
    if (n.rd->committed_entries[i]->type() != raftpb::EntryNormal) return true;
  return false;
}

// ------------------------------------------------------------------------------------------------ network

static craft::ProgressPtr progress(Node& n, uint64_t id) {
  auto& pm = n.rn->GetRaft()->GetTracker().GetProgressMap();
  auto it = pm.find(id);
  return it == pm.end() ? nullptr : it->second;
}

void World::drop(const Pkt& p, Rng& g) {
  Node* s = by_id(p.from);
  if (!s) return;
  if (p.m->type() == raftpb::MsgSnap && !p.dup) reports.push_back(Report{p.from, p.to, p.inc, p.term, false});
  if (g.below(8) == 0 && s->up && s->inc == p.inc && p.to != p.from) {
    if (!opt.interleave && s->phase) process(*s);
    unreachable(*s, p.to);
  }
}

void World::unreachable(Node& n, uint64_t to) {
  Cause cz;
  cz.k = kReport;
  cz.arg = to;
  auto pr = progress(n, to);
  int st = pr ? (int)pr->State() : -1;
  uint64_t next = pr ? pr->Next() : 0;
  bool leads = n.o.state == RaftStateType::kLeader;
  call(n, cz, [&] { n.rn->ReportUnreachable(to); });
  if (!pr || !leads || to == n.id || !(pr = progress(n, to))) return;
  const int kProbe = (int)craft::StateType::kProbe, kRepl = (int)craft::StateType::kReplicate;
  if (st == kRepl) {
    c.label("report_unreachable");
    next = pr->Match() + 1;
    st = kProbe;
  }
  if ((int)pr->State() != st || pr->Next() != next)
    fail("C19", "unreachable-report", fmt("leader %" PRIu64 ": after the report that peer %" PRIu64 " (confirmed up to %" PRIu64 ") is unreachable sending goes on in state %d from %" PRIu64 ", expected state %d from %" PRIu64,
                                            n.id, to, pr->Match(), (int)pr->State(), pr->Next(), st, next));
}

void World::flush_reports() {
  std::vector<Report> rs;
  rs.swap(reports);
  for (auto& r : rs) {
    Node* s = by_id(r.from);
    if (!s || !s->up || s->inc != r.inc || s->o.term != r.term || s->o.state != RaftStateType::kLeader) continue;
    if (!opt.interleave && s->phase) process(*s);
    auto it = s->lm.peers.find(r.to);
    if (it != s->lm.peers.end()) it->second.pend_snap = 0;
    Cause cz;
    cz.k = kReport;
    cz.arg = r.to;
    tr("node %" PRIu64 " report snapshot to %" PRIu64 " %s", r.from, r.to, r.ok ? "finish" : "failure");
    auto pr = progress(*s, r.to);
    bool pending = pr && pr->State() == craft::StateType::kSnapshot;
    uint64_t snap = pending ? pr->PendingSnapshot() : 0;
    call(*s, cz, [&] { s->rn->ReportSnapshot(r.to, r.ok ? craft::SnapshotStatus::kFinish : craft::SnapshotStatus::kFailure); });
    if (!pending || !(pr = progress(*s, r.to))) continue;
    c.label(r.ok ? "report_finish" : "report_failure");
    uint64_t want = r.ok ? std::max(pr->Match(), snap) + 1 : pr->Match() + 1;
    if (pr->State() != craft::StateType::kProbe || pr->Next() != want)
      fail("C19", "snap-report", fmt("leader %" PRIu64 ": after the report that snapshot %" PRIu64 " %s peer %" PRIu64 " (confirmed up to %" PRIu64 ") sending goes on in state %d from %" PRIu64 ", expected probing from %" PRIu64,
                                      r.from, snap, r.ok ? "reached" : "did not reach", r.to, pr->Match(), (int)pr->State(), pr->Next(), want));
  }
}

bool World::deliver_one(size_t i) {
  Pkt p = net[i];
  net.erase(net.begin() + i);
  Rng g(mix64(now, i + net.size()));
  Node* t = by_id(p.to);
  Node* s = by_id(p.from);
  // messages forwarded on behalf of others are carried by the link of the node that holds them; `from` then names the
  // original sender, which is what decides reachability here
  if (!t || !t->up || (s && blocked[s->ix][t->ix])) {
    tr("lost %s", msg_str(*p.m).c_str());
    drop(p, g);
    return false;
  }
  if (p.m->type() == raftpb::MsgSnap && !p.dup) reports.push_back(Report{p.from, p.to, p.inc, p.term, true});
  step(*t, std::make_shared<raftpb::Message>(*p.m));
  return true;
}

// The delayed messages arrive: at once, or they queue again.
void World::release(bool direct) {
  std::deque<Pkt> h;
  h.swap(held);
  if (!h.empty()) c.label("release");
  for (auto& p : h) {
    if (!direct) {
      net.push_front(p);
      continue;
    }
    Node* t = by_id(p.to);
    if (!t || !t->up) continue;
    if (p.m->type() == raftpb::MsgSnap && !p.dup) reports.push_back(Report{p.from, p.to, p.inc, p.term, true});
    step(*t, std::make_shared<raftpb::Message>(*p.m));
  }
}

void World::step(Node& n, std::shared_ptr<raftpb::Message> m) {
  if (n.phase && (!opt.interleave || (m->type() == raftpb::MsgSnap && has_confs_unapplied(n)))) process(n);
  raftpb::Message copy = *m;
  Cause cz;
  cz.k = kStep;
  cz.m = &copy;
  std::vector<std::string> datas;
  if (m->type() == raftpb::MsgProp) {
    cz.nents = m->entries_size();
    for (auto& e : m->entries()) {
      cz.payload_max += e.data().size();
      datas.push_back(e.data());
      if (e.type() != raftpb::EntryNormal) cz.has_conf = true;
    }
    cz.props = &datas;
  }
  tr("node %" PRIu64 " gets %s", n.id, msg_str(copy).c_str());
  c.label("step");
  call(n, cz, [&] { cz.ok = n.rn->Step(m).IsOK(); });
  if (n.phase) n.stepped = true;
}

std::string full_state(craft::RawNode& rn) {
  craft::Raft* r = rn.GetRaft();
  craft::RaftLog* l = r->GetRaftLog();
  std::ostringstream o;
  o << r->Term() << ' ' << r->Vote() << ' ' << r->Lead() << ' ' << (int)r->State() << ' ' << r->LeadTransferee() << ' ' << r->IsLearner() << " | "
    << l->FirstIndex() << ' ' << l->LastIndex() << ' ' << l->LastTerm() << ' ' << l->Committed() << ' ' << l->Applied() << ' ';
  for (auto& e : l->UnstableEntries()) o << ekey(*e) << ',';
  if (auto s = l->UnstableSnapshot()) o << " snap " << s->metadata().index();
  o << " | " << RefConf::from(r->GetTracker().ConfState()).str() << " | ";
  for (auto& p : r->GetTracker().GetProgressMap())
    o << p.first << ':' << p.second->Match() << '/' << p.second->Next() << '/' << (int)p.second->State() << p.second->ProbeSent() << p.second->RecentActive()
      << p.second->IsLearner() << '/' << p.second->PendingSnapshot() << '/' << p.second->GetInflights()->Count() << ' ';
  o << " | " << r->Msgs().size() << ' ' << r->GetReadStates().size();
  return o.str();
}

void World::gate(Node& n, Rng& g) {
  if (!n.up || (n.phase && !opt.interleave)) return;
  static const raftpb::MessageType kLocal[] = {raftpb::MsgHup, raftpb::MsgBeat, raftpb::MsgUnreachable, raftpb::MsgSnapStatus, raftpb::MsgCheckQuorum};
  static const raftpb::MessageType kReply[] = {raftpb::MsgAppResp, raftpb::MsgVoteResp, raftpb::MsgHeartbeatResp, raftpb::MsgPreVoteResp};
  static const raftpb::MessageType kAny[] = {raftpb::MsgProp, raftpb::MsgApp, raftpb::MsgAppResp, raftpb::MsgVote, raftpb::MsgVoteResp, raftpb::MsgSnap,
                                             raftpb::MsgHeartbeat, raftpb::MsgHeartbeatResp, raftpb::MsgTransferLeader, raftpb::MsgTimeoutNow,
                                             raftpb::MsgReadIndex, raftpb::MsgReadIndexResp, raftpb::MsgPreVote, raftpb::MsgPreVoteResp};
  auto m = std::make_shared<raftpb::Message>();
  m->set_to(n.id);
  int what = g.below(4);
  uint64_t known = g.below(4) == 0 ? n.id : nodes[g.below(nodes.size())].id;
  if (n.o.lead && g.below(3) == 0) known = n.o.lead;
  m->set_from(known);
  auto pos = [&] { return g.below(4) == 0 ? g.below(3) : n.o.last + 2 - std::min<uint64_t>(n.o.last + 2, g.below(6)); };
  m->set_index(pos());
  m->set_logterm(g.below(n.o.term + 2));
  m->set_commit(pos());
  m->set_reject(g.below(3) == 0);
  m->set_rejecthint(pos());
  if (g.below(4) == 0) m->set_context(g.below(2) ? "CampaignTransfer" : "r1");
  uint64_t terms[] = {0, n.o.term, n.o.term + 1, n.o.term + 5};
  if (what == 0) {
    m->set_type(kLocal[g.below(5)]);
    m->set_term(g.below(2) ? 0 : terms[g.below(4)]);
  } else if (what == 1) {
    m->set_type(kReply[g.below(4)]);
    uint64_t id = g.below(3) == 0 ? 424242 + g.below(3) : g.below(3) == 0 ? 0 : known;
    if (n.conf.is_member(id)) id = 424242;
    m->set_from(id);
    m->set_term(terms[g.below(4)]);
  } else {
    if (n.o.term < 2) return;
    m->set_type(kAny[g.below(14)]);
    m->set_term(1 + g.below(n.o.term - 1));
    if (m->from() == 0) m->set_from(n.id);
    auto t = m->type();
    if (t == raftpb::MsgApp || t == raftpb::MsgProp || t == raftpb::MsgReadIndex) {
      int k = t == raftpb::MsgApp ? g.below(4) : 1;
      for (int i = 0; i < k; i++) {
        auto* e = m->add_entries();
        if (t == raftpb::MsgApp) e->set_index(m->index() + 1 + i), e->set_term(m->term());
        e->set_data("gate");
      }
    }
    if (t == raftpb::MsgSnap) {
      auto* sm = m->mutable_snapshot()->mutable_metadata();
      sm->set_index(n.o.last + 1 + g.below(5));
      sm->set_term(m->term());
      sm->mutable_conf_state()->add_voters(n.id);
    }
  }
  raftpb::Message copy = *m;
  tr("node %" PRIu64 " gets out of place %s", n.id, msg_str(copy).c_str());
  n.race = 0;
  std::string was = full_state(*n.rn);
  size_t nm = n.o.nmsgs;
  Cause cz;
  cz.k = what >= 2 ? kStep : kNoop;
  cz.m = &copy;
  if (what < 2) {
    bool ok = false;
    // judged here first, then by the common oracles
    try {
      c.events++;
      ok = n.rn->Step(m).IsOK();
    } catch (const pbt::Fatal& x) {
      fail("C30", "gate-halt", fmt("node %" PRIu64 " halted (%s) on %s", n.id, x.msg.c_str(), msg_str(copy).c_str()));
    }
    std::string is = full_state(*n.rn);
    if (ok) fail("C30", what ? "unknown-accepted" : "local-accepted", fmt("node %" PRIu64 " accepts %s", n.id, msg_str(copy).c_str()));
    if (is != was) fail("C30", what ? "unknown-effect" : "local-effect", fmt("node %" PRIu64 ": %s changed the node from [%s] to [%s]", n.id, msg_str(copy).c_str(), was.c_str(), is.c_str()));
    c.label(what ? "gate_unknown" : "gate_local");
    call(n, cz, [] {});
  } else {
    cz.nents = copy.entries_size();
    std::vector<std::string> none;
    if (copy.type() == raftpb::MsgProp) cz.props = &none;
    call(n, cz, [&] { cz.ok = n.rn->Step(m).IsOK(); });
    if (n.phase) n.stepped = true;
    std::string is = full_state(*n.rn);
    size_t cut = is.rfind('|'), cut0 = was.rfind('|');
    if (is.substr(0, cut) != was.substr(0, cut0)) fail("C30", "stale-effect", fmt("node %" PRIu64 ": %s changed the node from [%s] to [%s]", n.id, msg_str(copy).c_str(), was.c_str(), is.c_str()));
    if (n.o.nmsgs > nm + 1) fail("C30", "stale-replies", fmt("node %" PRIu64 ": %s caused %zu messages", n.id, msg_str(copy).c_str(), n.o.nmsgs - nm));
    if (n.o.nmsgs == nm + 1) {
      auto& q = *n.rn->GetRaft()->Msgs().back();
      bool ok = q.to() == copy.from() && q.term() == n.o.term && (q.type() == raftpb::MsgAppResp || (q.type() == raftpb::MsgPreVoteResp && q.reject())) && !(q.type() == raftpb::MsgAppResp && (q.index() || q.reject()));
      if (!ok) fail("C30", "stale-reply", fmt("node %" PRIu64 ": %s is answered with %s", n.id, msg_str(copy).c_str(), msg_str(q).c_str()));
      c.label("gate_reply");
    }
    c.label("gate_stale");
  }
}

void World::tick(Node& n) {
  if (!n.up) return;
  if (n.phase && !opt.interleave) process(n);
  n.ticks++;
  Cause cz;
  cz.k = kTick;
  call(n, cz, [&] { n.rn->Tick(); });
  if (n.phase) n.stepped = true;
}

void World::pump(int iters) {
  for (int it = 0; it < iters; it++) {
    bool any = false;
    for (auto& n : nodes)
      if (n.up && (n.phase || n.rn->HasReady())) {
        process(n);
        any = true;
      }
    size_t k = net.size();
    for (size_t i = 0; i < k && !net.empty(); i++) {
      size_t pos = 0;
      if (!opt.fifo && net.size() > 1) pos = Rng(mix64(now, c.events)).below(net.size());
      deliver_one(pos);
      any = true;
    }
    if (!any) return;
  }
}

void World::calm_round(bool with_tick) {
  if (with_tick)
    for (auto& n : nodes) tick(n);
  pump(60);
  flush_reports();
  pump(60);
}

void World::heal() {
  release(false);
  for (auto& r : blocked)
    for (auto& x : r) x = 0;
  for (auto& n : nodes)
    if (n.st) n.st->unavailable = false;
}

// Keeps doing what a careful application does while nothing fails.
void World::maintain(Rng& g) {
  for (auto& n : nodes)
    if (!n.up) restart(n, g);
  Node* l = leader();
  if (!l) return;
  if (l->adv_applied > l->live.snap && l->phase == 0) compact(*l, g, 0);
  if (l->conf.joint() && !l->conf.auto_leave) propose_cc(*l, craft::ConfChangeI(raftpb::ConfChangeV2()));
}

void World::settle(int rounds) {
  Rng g(mix64(now, 77));
  heal();
  for (int r = 0; r < rounds; r++) {
    maintain(g);
    calm_round(true);
    if (r > 2 && settled()) return;
  }
}

Node* World::leader() {
  Node* b = nullptr;
  for (auto& n : nodes)
    if (n.up && n.o.state == RaftStateType::kLeader && (!b || n.o.term > b->o.term)) b = &n;
  return b;
}

bool World::settled(std::string* why) {
  auto no = [&](const std::string& s) { if (why) *why = s; return false; };
  Node* l = leader();
  if (!l) return no("no leader");
  if (!net.empty()) return no("messages in flight");
  if (!l->conf.is_member(l->id)) return no("the leader is not a member of its membership");
  if (l->o.commit != l->o.last || l->app != l->o.commit) return no(fmt("leader %" PRIu64 ": last %" PRIu64 " commit %" PRIu64 " applied %" PRIu64, l->id, l->o.last, l->o.commit, l->app));
  for (auto id : l->conf.members()) {
    Node* n = by_id(id);
    if (!n) continue;
    if (!n->up) return no(fmt("member %" PRIu64 " is down", id));
    if (n->o.lead != l->id || n->o.term != l->o.term) return no(fmt("member %" PRIu64 " (term %" PRIu64 ", leader %" PRIu64 ") does not follow %" PRIu64 " (term %" PRIu64 ")", id, n->o.term, n->o.lead, l->id, l->o.term));
    if (n->app != l->app) return no(fmt("member %" PRIu64 " applied %" PRIu64 " of %" PRIu64, id, n->app, l->app));
    if (n->phase || n->rn->HasReady()) return no(fmt("member %" PRIu64 " still has work", id));
  }
  for (auto& n : nodes)
    if (n.up && n.id != l->id && n.o.state == RaftStateType::kLeader) return no(fmt("second node %" PRIu64 " acts as leader", n.id));
  return true;
}

// ------------------------------------------------------------------------------------------------ crashes

void World::crash(Node& n, Rng& g, int mode) {
  if (!n.up) return;
  tr("node %" PRIu64 " crashes in phase %d", n.id, n.phase);
  c.label("crash");
  if (n.phase) c.label("crash_mid_batch");
  if (n.phase == 1 && mode == 1 && opt.partial && !n.rd->entries.empty() && !n.rd->snapshot->metadata().index() &&
      !(n.live.hs == HS())) {
    // the entries of the batch reach the disk, its hard state does not
    Disk& d = n.durable = n.live;
    uint64_t f = n.rd->entries[0]->index();
    if (f > d.hs.commit && f > d.off) {
      while (d.last() >= f && !d.ents.empty()) d.ents.pop_back();
      for (auto& e : n.rd->entries) d.ents.push_back(mk_e(*e));
      c.label("torn_batch");
    }
  } else if (n.phase == 1 && mode == 2) {
    persist(n, true);  // it was written, but nothing was sent
  }
  n.up = false;
  n.race = 0;
  n.rn.reset();
  n.rd.reset();
  n.phase = 0;
  n.st.reset();
  n.kept.reset();
  n.live = n.durable;
  (void)g;
}

void World::restart(Node& n, Rng& g) {
  if (n.up) return;
  const Disk& d = n.durable;
  n.live = n.durable;
  if (n.boot && d.empty()) {
    RefConf init;
    for (int i = 0; i < opt.n; i++) init.in.insert(nodes[i].id);
    instantiate(n, true, 0, init);
    c.label("restart_boot");
    return;
  }
  uint64_t lo = d.off, commit = d.hs == HS() ? d.off : d.hs.commit;
  uint64_t hi = std::max(lo, std::min(commit, n.app));
  uint64_t a = lo + g.below(hi - lo + 1);
  switch (g.below(3)) {
    case 0: a = hi; break;
    case 1: a = std::max(lo, std::min(hi, d.snap)); break;
  }
  if (opt.modeA && a < (uint64_t)opt.n) a = 0;
  if (a < lo) a = lo;
  if (a < gbase) a = 0;
  RefConf conf;
  if (a >= gbase && !(opt.modeA && a == 0)) conf = *gconf_at(a);
  uint64_t inc = n.inc;
  instantiate(n, false, a, conf);
  c.label("restart");
  if (commit > a) c.label("restart_replay");
  (void)inc;
  // C14: exactly the stable storage
  craft::Raft* r = n.rn->GetRaft();
  auto where = fmt("node %" PRIu64 " restarted at applied %" PRIu64, n.id, a);
  if (r->Term() != d.hs.term || r->Vote() != d.hs.vote || n.o.commit != commit)
    fail("C14 C05", "restart-hs", where + fmt(": term %" PRIu64 " vote %" PRIu64 " commit %" PRIu64 ", stored %" PRIu64 " %" PRIu64 " %" PRIu64, r->Term(), r->Vote(), n.o.commit, d.hs.term, d.hs.vote, commit));
  if (r->State() != RaftStateType::kFollower || r->Lead() != 0) fail("C14", "restart-role", where + ": not a follower without leader");
  if (n.o.applied != std::max(a, lo)) fail("C14", "restart-applied", where + fmt(": applied is %" PRIu64, n.o.applied));
  auto all = r->GetRaftLog()->AllEntries();
  bool same = all.size() == d.ents.size();
  for (size_t i = 0; same && i < all.size(); i++) same = ehash(*all[i]) == d.ents[i].h;
  if (!same || r->GetRaftLog()->LastIndex() != d.last() || r->GetRaftLog()->FirstIndex() != d.off + 1)
    fail("C14", "restart-log", where + ": the log is not the stored one");
  auto st = n.rn->GetBasicStatus();
  if (st.hard_state.term() != d.hs.term || st.hard_state.vote() != d.hs.vote || st.hard_state.commit() != commit || st.applied != n.o.applied)
    fail("C14 C33", "restart-status", where + ": status differs from the stored state");
  auto p = n.rn->ReadyWithoutAccept();
  if (p->hard_state.term() || p->hard_state.vote() || p->hard_state.commit() || !p->entries.empty() || p->snapshot->metadata().index() || p->must_sync)
    fail("C14", "restart-repersist", where + ": asks to persist something again");
  if (!p->messages.empty() || p->soft_state) fail("C14", "restart-noise", where + ": messages or role change before any input");
  if (n.rn->HasReady() != (commit > n.o.applied)) fail("C14", "restart-ready", where + fmt(": HasReady()=%d with commit %" PRIu64, n.rn->HasReady(), commit));
  if (!p->committed_entries.empty() && p->committed_entries[0]->index() != n.o.applied + 1)
    fail("C14 C07", "restart-deliver", where + fmt(": first delivers %" PRIu64, p->committed_entries[0]->index()));
}

// ------------------------------------------------------------------------------------------------ client calls

std::string World::payload(Rng& g, int cls) {
  std::string s = fmt("p%" PRIu64 ":", next_prop++);
  size_t len = 0;
  switch (cls % 8) {
    case 0: case 1: case 2: len = 0; break;
    case 3: len = g.below(30); break;
    case 4: len = 20 + g.below(60); break;
    case 5: len = g.below(200); break;
    case 6: len = opt.grand && huge < 3 && g.below(3) == 0 ? (huge++, g.below(140000)) : g.below(1200); break;
    case 7: return "";
  }
  for (size_t i = 0; i < len; i++) s += (char)g.below(256);
  return s;
}

bool World::propose(Node& n, std::vector<std::string> datas) {
  if (!n.up) return false;
  if (n.phase && !opt.interleave) process(n);
  Cause cz;
  cz.k = kPropose;
  cz.nents = (int)datas.size();
  cz.props = &datas;
  for (auto& d : datas) {
    cz.payload_max += d.size();
    if (!d.empty()) props[d];
  }
  tr("node %" PRIu64 " propose %zu entries, %" PRIu64 " bytes", n.id, datas.size(), cz.payload_max);
  c.label("propose");
  call(n, cz, [&] {
    if (datas.size() == 1) cz.ok = n.rn->Propose(datas[0]).IsOK();
    else {
      auto m = std::make_shared<raftpb::Message>();
      m->set_type(raftpb::MsgProp);
      m->set_from(n.id);
      for (auto& d : datas) m->add_entries()->set_data(d);
      cz.ok = n.rn->Step(m).IsOK();
    }
  });
  if (!cz.ok) for (auto& d : datas) if (!d.empty()) props[d].errored = true;
  if (n.phase) n.stepped = true;
  return cz.ok;
}

void World::propose_cc(Node& n, const craft::ConfChangeI& cc) {
  if (!n.up) return;
  if (n.phase && !opt.interleave) process(n);
  Cause cz;
  cz.k = kConf;
  cz.nents = 1;
  cz.has_conf = true;
  auto [ty, data, ok] = cc.Marshal();
  cz.payload_max = data.size();
  raftpb::Message like;
  like.set_type(raftpb::MsgProp);
  like.add_entries()->set_type(ty);
  like.mutable_entries(0)->set_data(data);
  std::vector<std::string> datas{data};
  cz.m = &like;
  cz.props = &datas;
  c.label("conf_propose");
  call(n, cz, [&] { cz.ok = n.rn->ProposeConfChange(cc).IsOK(); });
  if (n.phase) n.stepped = true;
}

craft::ConfChangeI World::make_conf(Node& n, Rng& g) {
  auto rid = [&]() -> uint64_t {
    if (opt.unknown_id && g.below(8) == 0) return 99999;
    return nodes[g.below(nodes.size())].id;
  };
  auto rtype = [&](uint64_t id) {
    bool member = n.conf.is_member(id);
    switch (g.below(6)) {
      case 0: case 1: return raftpb::ConfChangeAddNode;
      case 2: return raftpb::ConfChangeAddLearnerNode;
      case 3: return opt.removals ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddNode;
      case 4: return raftpb::ConfChangeUpdateNode;
      default: return member && opt.removals ? raftpb::ConfChangeRemoveNode : member ? raftpb::ConfChangeAddNode : (g.below(2) ? raftpb::ConfChangeAddNode : raftpb::ConfChangeAddLearnerNode);
    }
  };
  bool leave = n.conf.joint() && g.below(2);
  if (!leave && g.below(2)) {
    raftpb::ConfChange cc;
    uint64_t id = rid();
    cc.set_node_id(id);
    cc.set_type(rtype(id));
    tr("node %" PRIu64 " conf %d %" PRIu64, n.id, (int)cc.type(), id);
    return craft::ConfChangeI(cc);
  }
  raftpb::ConfChangeV2 cc;
  if (!leave) {
    int k = 1 + g.below(3);
    for (int i = 0; i < k; i++) {
      auto* s = cc.add_changes();
      uint64_t id = rid();
      s->set_node_id(id);
      s->set_type(rtype(id));
    }
    switch (g.below(4)) {
      case 0: cc.set_transition(raftpb::ConfChangeTransitionJointExplicit); break;
      case 1: cc.set_transition(raftpb::ConfChangeTransitionJointImplicit); break;
      default: break;
    }
  }
  tr("node %" PRIu64 " conf v2 %d changes transition %d", n.id, cc.changes_size(), (int)cc.transition());
  return craft::ConfChangeI(cc);
}

bool World::propose_conf(Node& n, Rng& g) {
  propose_cc(n, make_conf(n, g));
  return true;
}

// One proposal with several entries, membership changes among them.
void World::propose_mixed(Node& n, Rng& g) {
  if (!n.up) return;
  if (n.phase && !opt.interleave) process(n);
  Cause cz;
  cz.k = kPropose;
  auto m = std::make_shared<raftpb::Message>();
  m->set_type(raftpb::MsgProp);
  m->set_from(n.id);
  std::vector<std::string> datas;
  int k = 2 + g.below(3);
  for (int i = 0; i < k; i++) {
    auto* e = m->add_entries();
    if (g.below(2)) {
      auto [ty, data, ok] = make_conf(n, g).Marshal();
      e->set_type(ty);
      e->set_data(data);
      cz.has_conf = true;
      datas.push_back(data);
    } else {
      std::string d = payload(g, g.below(6));
      if (!d.empty()) props[d];
      e->set_data(d);
      datas.push_back(d);
    }
    cz.payload_max += datas.back().size();
  }
  cz.nents = k;
  cz.props = &datas;
  raftpb::Message copy = *m;
  cz.m = &copy;
  tr("node %" PRIu64 " propose a batch of %d with membership changes", n.id, k);
  c.label("propose_mixed");
  call(n, cz, [&] { cz.ok = n.rn->Step(m).IsOK(); });
  if (!cz.ok)
    for (int i = 0; i < k; i++)
      if (copy.entries(i).type() == raftpb::EntryNormal && !datas[i].empty()) props[datas[i]].errored = true;
  if (n.phase) n.stepped = true;
}

void World::transfer(Node& n, uint64_t to) {
  if (!n.up) return;
  if (n.phase && !opt.interleave) process(n);
  Cause cz;
  cz.k = kTransfer;
  cz.arg = to;
  tr("node %" PRIu64 " transfer to %" PRIu64, n.id, to);
  c.label("transfer_call");
  call(n, cz, [&] { n.rn->TransferLeader(to); });
  if (n.phase) n.stepped = true;
}

void World::read(Node& n) {
  if (!n.up) return;
  if (n.phase && !opt.interleave) process(n);
  std::string ctx = fmt("r%" PRIu64, next_read++);
  if (next_read % 5 == 0) ctx += std::string("\0x", 2);
  reads[ctx] = ReadReq{n.id, glast(), false};
  Cause cz;
  cz.k = kRead;
  tr("node %" PRIu64 " read %s at committed %" PRIu64, n.id, ctx.c_str(), glast());
  c.label("read");
  call(n, cz, [&] { n.rn->ReadIndex(ctx); });
  if (n.phase) n.stepped = true;
}

void World::campaign(Node& n) {
  if (!n.up) return;
  if (n.phase && !opt.interleave) process(n);
  Cause cz;
  cz.k = kCampaign;
  tr("node %" PRIu64 " campaign", n.id);
  call(n, cz, [&] { n.rn->Campaign(); });
  if (n.phase) n.stepped = true;
}

// A compaction by another thread, at one of the moments where the library reads the storage during the coming call.
void World::arm(Node& n, const Cause& cause) {
  Rng g(n.race);
  int only = g.below(4), nth = 1 + g.below(g.below(2) ? 3 : 12);
  if (n.race_left-- <= 0) { n.race = 0; return; }
  if (only && cause.k != kStep) return;
  Disk& d = n.live;
  uint64_t hi = n.adv_applied, lo = std::max(d.snap, gbase + (opt.modeA ? opt.n - 1 : 0));
  if (hi <= lo || hi < gbase) return;
  uint64_t i = g.below(4) ? hi : lo + 1 + g.below(hi - lo);
  if (!d.at(i) || i <= d.off) return;
  n.race_i = i;
  n.race_o = g.below(4) ? i : d.off + 1 + g.below(i - d.off);
  n.st->fuse = only == 1 || only == 2 ? 1 + nth / 4 : nth;
  n.st->only = only == 3 ? 1 : only;
  n.st->bang = [this, &n] {
    auto cs = gconf_at(n.race_i)->to();
    auto [sp, s] = n.st->CreateSnapshot(n.race_i, &cs, fmt("%" PRIu64 ":%" PRIu64, n.race_i, gdig_at(n.race_i)));
    if (!s.IsOK()) { fail("C13 C23", "create-snapshot", fmt("node %" PRIu64 ": CreateSnapshot(%" PRIu64 "): %s", n.id, n.race_i, s.Str())); return; }
    auto s2 = n.st->Compact(n.race_o);
    if (!s2.IsOK()) fail("C13 C23", "compact", fmt("node %" PRIu64 ": Compact(%" PRIu64 "): %s", n.id, n.race_o, s2.Str()));
  };
}

void World::race_done(Node& n) {
  if (n.st->fuse) {  // not enough reads
    n.st->fuse = 0;
    n.race_i = 0;
    return;
  }
  c.label("compact_midcall");
  Disk& d = n.live;
  d.snap = n.race_i;
  while (d.off < n.race_o) d.off = d.ents.front().idx, d.offterm = d.ents.front().term, d.ents.pop_front();
  n.durable = d;
  tr("node %" PRIu64 " snapshot at %" PRIu64 ", log starts after %" PRIu64 ", during the call above", n.id, d.snap, d.off);
  n.race_i = n.race = 0;
}

void World::race(Node& n, Rng& g) {
  if (!n.up) return;
  n.race = 1 + g.next() / 2;
  n.race_left = 30;
}

void World::compact(Node& n, Rng& g, int style) {
  if (!n.up) return;
  Disk& d = n.live;
  uint64_t hi = n.adv_applied, lo = std::max(d.snap, gbase + (opt.modeA ? opt.n - 1 : 0));
  if (hi <= lo || hi < gbase) {
    if (style && d.snap > d.off && n.adv_applied >= d.snap) {  // only compaction is left to do
      uint64_t o = d.snap;
      n.st->Compact(o);
      while (d.off < o) d.off = d.ents.front().idx, d.offterm = d.ents.front().term, d.ents.pop_front();
      n.durable = d;
      c.label("compact");
    }
    return;
  }
  uint64_t i = style == 2 ? lo + 1 + g.below(hi - lo) : hi;
  if (!d.at(i)) return;
  auto cs = gconf_at(i)->to();
  auto [sp, s] = n.st->CreateSnapshot(i, &cs, fmt("%" PRIu64 ":%" PRIu64, i, gdig_at(i)));
  if (!s.IsOK()) { fail("C13 C23", "create-snapshot", fmt("node %" PRIu64 ": CreateSnapshot(%" PRIu64 "): %s", n.id, i, s.Str())); return; }
  d.snap = i;
  c.label("snapshot");
  if (style) {
    uint64_t o = style == 1 ? i : d.off + 1 + g.below(i - d.off);
    auto s2 = n.st->Compact(o);
    if (!s2.IsOK()) { fail("C13 C23", "compact", fmt("node %" PRIu64 ": Compact(%" PRIu64 "): %s", n.id, o, s2.Str())); return; }
    while (d.off < o) d.off = d.ents.front().idx, d.offterm = d.ents.front().term, d.ents.pop_front();
    c.label("compact");
  }
  tr("node %" PRIu64 " snapshot at %" PRIu64 ", log starts after %" PRIu64, n.id, d.snap, d.off);
  n.durable = d;
}

static std::string ser_status(const craft::NodeStatus& s) {
  std::string o = fmt("%" PRIu64 " %" PRIu64 " %d %" PRIu64 " %" PRIu64 " ", s.basic.id, s.basic.soft_state.lead,
                      (int)s.basic.soft_state.raft_state, s.basic.applied, s.basic.lead_transferee) + ser(s.basic.hard_state) + s.config.String();
  for (auto& p : s.progress) {
    auto* f = p.second->GetInflights();
    o += fmt(";%" PRIu64 ":%s m%" PRIu64 " n%" PRIu64 " s%d p%" PRIu64 " a%d ps%d l%d f%" PRId64 "/%" PRId64, p.first, "", p.second->Match(), p.second->Next(),
             (int)p.second->State(), p.second->PendingSnapshot(), p.second->RecentActive(), p.second->ProbeSent(), p.second->IsLearner(), f->Count(), f->Size());
    for (auto x : f->Buffer()) o += fmt(",%" PRIu64, x);
  }
  return o;
}

// Textual rendering of everything the library can render (C31).
void World::render(Node& n) {
  craft::Raft* r = n.rn->GetRaft();
  uint64_t sum = 0;
  auto see = [&](const std::string& s) {
    for (unsigned char ch : s) sum += ch;
  };
  if (n.rd) see(n.rd->String());
  see(craft::Ready{}.String());
  see(r->GetRaftLog()->String());
  see(r->GetTracker().GetConfig().String());
  std::map<uint64_t, uint64_t> acked;
  for (auto& p : r->GetTracker().GetProgressMap()) {
    see(p.second->String());
    if (p.second->RecentActive()) acked[p.first] = p.second->Match();
  }
  auto st = n.rn->GetStatus();
  for (auto& p : st.progress) see(p.second->String());
  see(st.config.String());
  see(st.config.voters.String());
  see(st.config.voters.Describe(craft::MapAckIndexer(acked)));
  c.mix(sum & 0);
  c.label("rendered");
}

void World::status(Node& n, Rng& g) {
  if (!n.up) return;
  c.label("status");
  craft::Raft* r = n.rn->GetRaft();
  Cause no;
  if (n.kept) {
    if (ser_status(*n.kept) != n.kept_ser) fail("C33", "status-alias", fmt("node %" PRIu64 ": a status taken earlier changed afterwards", n.id));
  }
  std::unique_ptr<craft::NodeStatus> s;
  call(n, no, [&] { s = std::make_unique<craft::NodeStatus>(n.rn->GetStatus()); });
  auto b = n.rn->GetBasicStatus();
  const Obs& o = n.o;
  for (auto* q : {&s->basic, &b}) {
    if (q->id != n.id || q->hard_state.term() != o.term || q->hard_state.vote() != o.vote || q->hard_state.commit() != o.commit ||
        q->soft_state.lead != o.lead || q->soft_state.raft_state != o.state || q->applied != n.adv_applied)
      fail("C33", "status-basic", fmt("node %" PRIu64 ": status term %" PRIu64 " vote %" PRIu64 " commit %" PRIu64 " lead %" PRIu64 " applied %" PRIu64 ", node has %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64 " %" PRIu64,
           n.id, q->hard_state.term(), q->hard_state.vote(), q->hard_state.commit(), q->soft_state.lead, q->applied, o.term, o.vote, o.commit, o.lead, n.adv_applied));
    uint64_t want = o.state == RaftStateType::kLeader ? n.lm.transferee : 0;
    if (q->lead_transferee != want) fail("C33 C18", "status-transferee", fmt("node %" PRIu64 ": status says transfer to %" PRIu64 ", pending is %" PRIu64, n.id, q->lead_transferee, want));
  }
  RefConf sc;
  sc.in = s->config.voters.Incoming().IDs();
  sc.out = s->config.voters.Outgoing().IDs();
  sc.learners = s->config.learners;
  sc.next = s->config.learners_next;
  sc.auto_leave = s->config.auto_leave;
  if (!(sc == n.conf)) fail("C33", "status-conf", fmt("node %" PRIu64 ": status membership %s, applied %s", n.id, sc.str().c_str(), n.conf.str().c_str()));
  if (o.state == RaftStateType::kLeader) {
    auto& pm = r->GetTracker().GetProgressMap();
    if (pm.size() != s->progress.size()) fail("C33", "status-progress", fmt("leader %" PRIu64 ": status lists %zu peers of %zu", n.id, s->progress.size(), pm.size()));
    craft::NodeStatus real;
    real.basic = s->basic;
    real.config = s->config;
    for (auto& p : pm) {
      real.progress[p.first] = p.second;
      if (s->progress.count(p.first) && s->progress[p.first] == p.second) fail("C33", "status-alias", fmt("leader %" PRIu64 ": status shares the progress object of %" PRIu64, n.id, p.first));
    }
    if (ser_status(real) != ser_status(*s)) fail("C33", "status-progress", fmt("leader %" PRIu64 ": status progress differs from the real one", n.id));
    c.label("status_leader");
  } else if (!s->progress.empty()) {
    fail("C33", "status-progress", fmt("node %" PRIu64 " is no leader but reports progress", n.id));
  }
  size_t visited = 0;
  n.rn->WithProgress([&](uint64_t id, craft::ProgressType ty, craft::ProgressPtr p) {
    visited++;
    bool learner = n.conf.learners.count(id);
    if (!n.conf.is_member(id) || (ty == craft::ProgressType::kLearner) != learner)
      fail("C33", "visit", fmt("node %" PRIu64 ": visited %" PRIu64 " with the wrong kind", n.id, id));
    if (p) p->SetMatch(p->Match() + 1000);  // a copy: must not matter
  });
  if (visited != n.conf.members().size()) fail("C33", "visit", fmt("node %" PRIu64 ": visited %zu of %zu peers", n.id, visited, n.conf.members().size()));
  if (g.below(2)) {
    n.kept = std::move(s);
    n.kept_ser = ser_status(*n.kept);
  } else {
    // altering a report is inert
    auto again = [&] { return ser_status(n.rn->GetStatus()); };
    std::string before_ = again();
    s->basic.hard_state.set_commit(s->basic.hard_state.commit() + 7);
    s->config.voters.Incoming().Add(4242);
    s->config.learners.insert(4243);
    for (auto& p : s->progress) {
      p.second->SetMatch(p.second->Match() + 5);
      p.second->SetNext(p.second->Next() + 50);
      p.second->BecomeProbe();
      if (p.second->GetInflights()->Count() == 0) p.second->GetInflights()->Add(~0ull);
    }
    s->progress.clear();
    if (again() != before_) fail("C33", "status-inert", fmt("node %" PRIu64 ": altering a status report changed the node", n.id));
    check_conf(n, "status");
  }
  Cause no2;
  call(n, no2, [&] {});
}

// ------------------------------------------------------------------------------------------------ generated operations

Node& World::pick_up(uint32_t w) {
  std::vector<Node*> u;
  for (auto& n : nodes) if (n.up) u.push_back(&n);
  if (u.empty()) return nodes[w % nodes.size()];
  return *u[w % u.size()];
}
Node& World::pick_leaderish(uint32_t w) {
  Node* l = leader();
  if (l && w % 4 != 3) {
    // sometimes a deposed leader that does not know it yet
    if (w % 8 == 6)
      for (auto& n : nodes)
        if (n.up && &n != l && n.o.state == RaftStateType::kLeader) return n;
    return *l;
  }
  return pick_up(w >> 3);
}

static const int kBase[oNumOps] = {
    /*oDeliver*/ 20, /*oRound*/ 10, /*oTick*/ 6, /*oTickAll*/ 8, /*oProcess*/ 6, /*oPhase*/ 8, /*oPropose*/ 14, /*oBatch*/ 3,
    /*oCampaign*/ 2, /*oElect*/ 5, /*oCrash*/ 4, /*oRestart*/ 6, /*oPartition*/ 4, /*oHeal*/ 4, /*oDrop*/ 3, /*oDup*/ 3,
    /*oCompact*/ 4, /*oConf*/ 0, /*oTransfer*/ 2, /*oRead*/ 3, /*oReport*/ 3, /*oSnapFlag*/ 1, /*oStatus*/ 1, /*oDepose*/ 3,
    /*oLaggard*/ 2, /*oStale*/ 2, /*oCrashAll*/ 1, /*oBurst*/ 2, /*oForceRound*/ 3, /*oGate*/ 0, /*oHold*/ 3, /*oRelease*/ 3, /*oSplit*/ 0, /*oSnapRace*/ 1};

void World::run_ops(size_t from, size_t to) {
  int w[oNumOps], tot = 0;
  for (int i = 0; i < oNumOps; i++) {
    w[i] = kBase[i];
    if (i == oConf && opt.confs) w[i] = 8;
    if (i == oSplit && opt.confs) w[i] = 2;
    auto it = prof.w.find(i);
    if (it != prof.w.end() && ((i != oConf && i != oSplit) || opt.confs)) w[i] = it->second;
    tot += w[i];
  }
  for (size_t i = from; i < to && i < c.t.ops.size(); i++) {
    Op op = c.t.ops[i];
    uint32_t r = op.w[0] % tot;
    int k = 0;
    while (r >= (uint32_t)w[k]) r -= w[k], k++;
    op.w[0] = k;
    now = i + 1;
    apply_op(op);
  }
}

// Two active voter sets that hardly overlap; the side that is only in the old set may not know that the change is committed.
void World::op_split(const Op& op, Rng& g) {
  uint32_t b = op.w[2], d = op.w[3];
  Node* l = leader();
  if (!l) return;
  if (!l->conf.joint()) {
    pump(6);
    l = leader();
    if (!l || l->conf.joint()) return;
    raftpb::ConfChangeV2 cc;
    cc.set_transition(b % 4 ? raftpb::ConfChangeTransitionJointExplicit : raftpb::ConfChangeTransitionJointImplicit);
    bool any = false;
    for (auto& n : nodes) {
      bool v = l->conf.in.count(n.id);
      if (g.below(4) == 0 || (v && &n == l && g.below(4))) {
        any = any || v;
        continue;
      }
      auto* s = cc.add_changes();
      s->set_node_id(n.id);
      if (!v) s->set_type(raftpb::ConfChangeAddNode), any = true;
      else s->set_type(opt.removals && g.below(2) ? raftpb::ConfChangeRemoveNode : raftpb::ConfChangeAddLearnerNode);
    }
    if (!any || cc.changes_size() == 0) return;
    tr("split proposed by node %" PRIu64, l->id);
    propose_cc(*l, craft::ConfChangeI(cc));
    for (int it = 0; it < 6 && l->up && !l->conf.joint(); it++) {
      process(*l);
      for (size_t i = 0, k = net.size(); i < k && !net.empty(); i++) deliver_one(0);
      if (l->conf.joint()) break;
      for (auto& n : nodes) if (n.up && &n != l) process(n);
    }
    if (l->up) process(*l);
    if (!l->up || !l->conf.joint()) return;
  }
  c.label("split");
  // cut: the old-only side against the rest, the new-only side against the rest, or only the leader goes away
  int lx = l->ix, kind = d % 4;
  RefConf jc = l->conf;
  auto side = [&](const Node& n) { return kind < 2 ? !jc.in.count(n.id) && jc.out.count(n.id) : kind == 2 ? jc.in.count(n.id) && !jc.out.count(n.id) : n.ix == lx; };
  for (auto& p : nodes)
    for (auto& q : nodes) blocked[p.ix][q.ix] = &p != &q && side(p) != side(q);
  pump(2 + (d >> 2) % 3);
  if ((d >> 4) % 2 && nodes[lx].up) propose(nodes[lx], {payload(g, 0)});
  if (kind == 3 && (d >> 5) % 2) crash(nodes[lx], g, g.below(3));
  bool tick_old = (d >> 6) % 4 == 0;
  for (int i = 0; i < 2 * opt.et + 2; i++) {
    for (auto& n : nodes) if (n.ix != lx || tick_old) tick(n);
    pump(4);
  }
  for (int k = 0; k < 2; k++) {
    Node* l2 = leader();
    if (l2 && l2->ix != lx) propose(*l2, {payload(g, 0)});
    if ((d >> 8) % 4 && nodes[lx].up && nodes[lx].o.state == RaftStateType::kLeader) {
      read(nodes[lx]);
      if (nodes[lx].up && (d >> 10) % 2) propose(nodes[lx], {payload(g, 0)});
    }
    pump(6);
  }
  if ((d >> 11) % 4)
    for (auto& r : blocked) for (auto& x : r) x = 0;
}

// Acknowledgements of a peer are delayed until the leader has sent it a snapshot.
void World::op_snap_race(const Op& op, Rng& g) {
  uint32_t a = op.w[1], b = op.w[2], d = op.w[3];
  pump(4);
  Node* l = leader();
  if (!l || nodes.size() < 2) return;
  int x = a % nodes.size();
  if (x == l->ix) x = (x + 1) % nodes.size();
  Node& t = nodes[x];
  if (!l->conf.is_member(t.id) || !t.up) return;
  c.label("snap_race");
  auto hold_from = [&] {
    for (auto it = net.begin(); it != net.end();)
      if (it->from == t.id && it->to == l->id && it->m->type() == raftpb::MsgAppResp && held.size() < 60) {
        held.push_back(*it);
        it = net.erase(it);
      } else {
        ++it;
      }
  };
  for (int i = 0, k = 1 + b % 4; i < k; i++) propose(*l, {payload(g, 0)});
  for (int r = 0; r < 3; r++) {  // they arrive, the answers do not
    for (auto& n : nodes) if (n.up) process(n);
    hold_from();
    for (size_t i = 0, k = net.size(); i < k && !net.empty(); i++) deliver_one(0);
  }
  if (t.up) process(t);
  hold_from();
  for (size_t j = 0; j < nodes.size(); j++) if ((int)j != x) blocked[x][j] = blocked[j][x] = 1;
  for (int i = 0, k = 1 + (b >> 2) % 4; i < k; i++) propose(*l, {payload(g, 0)});
  pump(6);
  if (!l->up || l->o.state != RaftStateType::kLeader) return;
  compact(*l, g, (b >> 4) % 4 ? 2 : 1);
  for (size_t j = 0; j < nodes.size(); j++) blocked[x][j] = blocked[j][x] = 0;
  if ((d >> 1) % 4) {
    if (l->phase && !opt.interleave) process(*l);
    unreachable(*l, t.id);
    if (l->phase) l->stepped = true;
  }
  for (int i = 0; i < opt.hb; i++) tick(*l);
  if ((d >> 8) % 3 == 0 && l->st) l->st->unavailable = true, c.label("snap_unavailable");
  std::deque<Pkt> snaps;
  for (int r = 0; r < 3; r++) {  // heartbeat, reply, snapshot
    for (auto& n : nodes) if (n.up) process(n);
    for (auto it = net.begin(); it != net.end();)
      if (it->to == t.id && it->m->type() == raftpb::MsgSnap && (d >> 3) % 4) {
        snaps.push_back(*it);
        it = net.erase(it);
      } else {
        ++it;
      }
    for (size_t i = 0, k = net.size(); i < k && !net.empty(); i++) deliver_one(0);
  }
  if (!snaps.empty()) c.label("snap_delayed");
  release((d >> 5) % 4 != 0);
  if (l->up && g.below(2)) propose(*l, {payload(g, 0)});
  if (l->up) process(*l);
  for (auto& p : snaps) net.push_back(p);
  if (l->st && (d >> 10) % 2) l->st->unavailable = false;
}

void World::apply_op(const Op& op) {
  Rng g(mix64(mix64(op.w[1], op.w[2]), mix64(op.w[3], op.w[4]) ^ op.w[5]));
  uint32_t a = op.w[1], b = op.w[2], d = op.w[3];
  switch (op.w[0]) {
    case oDeliver: {
      int k = 1 + a % 6;
      for (int i = 0; i < k && !net.empty(); i++) {
        size_t pos = g.below(net.size());
        if (opt.fifo)
          for (size_t j = 0; j < pos; j++)
            if (net[j].from == net[pos].from && net[j].to == net[pos].to) { pos = j; break; }
        deliver_one(pos);
      }
      break;
    }
    case oRound: {
      int k = 1 + a % 3;
      for (int i = 0; i < k; i++) {
        for (auto& n : nodes) tick(n);
        pump(8);
      }
      flush_reports();
      break;
    }
    case oTick: {
      Node& n = pick_up(a);
      int k = 1 + b % (opt.et * 2);
      for (int i = 0; i < k && n.up; i++) {
        tick(n);
        if (d % 2 == 0) process(n);
      }
      break;
    }
    case oTickAll: {
      int k = 1 + a % 4;
      for (int i = 0; i < k; i++)
        for (auto& n : nodes) tick(n);
      break;
    }
    case oProcess: {
      Node& n = pick_up(a);
      if (n.up) process(n);
      break;
    }
    case oPhase: {
      Node& n = pick_up(a);
      int k = 1 + b % 4;
      for (int i = 0; i < k && n.up; i++) phase_step(n, g);
      break;
    }
    case oPropose:
      propose(pick_leaderish(a), {payload(g, b)});
      break;
    case oBatch: {
      std::vector<std::string> v;
      int k = opt.grand ? 2 + b % (d % 3 ? 150 : 500) : 2 + b % 4;
      for (int i = 0; i < k; i++) v.push_back(payload(g, g.u32()));
      propose(pick_leaderish(a), v);
      break;
    }
    case oBurst: {
      Node& n = pick_leaderish(a);
      int k = opt.grand ? 3 + b % 120 : 3 + b % 8;
      for (int i = 0; i < k; i++) propose(n, {payload(g, d % 7)});
      break;
    }
    case oCampaign:
      campaign(pick_up(a));
      break;
    case oElect: {
      Node& n = pick_up(a);
      if (!n.up) break;
      pump(3);
      campaign(n);
      pump(2 + b % 6);
      break;
    }
    case oCrash:
      crash(pick_up(a), g, b % 3);
      break;
    case oCrashAll:
      for (auto& n : nodes)
        if (g.below(3)) crash(n, g, g.below(3));
      if (b % 2)
        for (auto& n : nodes) restart(n, g);
      break;
    case oRestart:
      for (size_t i = 0; i < nodes.size(); i++) {
        Node& n = nodes[(a + i) % nodes.size()];
        if (!n.up) {
          restart(n, g);
          break;
        }
      }
      break;
    case oPartition: {
      c.label("partition");
      int kind = b % 4;
      if (kind == 0) {          // isolate one
        int x = a % nodes.size();
        for (size_t j = 0; j < nodes.size(); j++) if ((int)j != x) blocked[x][j] = blocked[j][x] = 1;
      } else if (kind == 1) {   // split
        for (size_t i = 0; i < nodes.size(); i++)
          for (size_t j = 0; j < nodes.size(); j++)
            blocked[i][j] = i != j && ((a >> i) & 1) != ((a >> j) & 1);
      } else if (kind == 2) {   // one direction
        int x = a % nodes.size(), y = d % nodes.size();
        if (x != y) blocked[x][y] = 1;
      } else {                  // isolate the leader
        Node* l = leader();
        if (l) for (size_t j = 0; j < nodes.size(); j++) if ((int)j != l->ix) blocked[l->ix][j] = blocked[j][l->ix] = 1;
      }
      break;
    }
    case oHeal:
      for (auto& r : blocked) for (auto& x : r) x = 0;
      break;
    case oDrop: {
      int k = 1 + a % 5;
      for (int i = 0; i < k && !net.empty(); i++) {
        size_t pos = g.below(net.size());
        Pkt p = net[pos];
        net.erase(net.begin() + pos);
        drop(p, g);
        c.label("drop");
      }
      break;
    }
    case oDup: {
      if (net.empty() || net.size() > 200) break;
      Pkt p = net[g.below(net.size())];
      auto t = p.m->type();
      if (t == raftpb::MsgProp || t == raftpb::MsgReadIndex || t == raftpb::MsgReadIndexResp) break;
      p.dup = true;
      net.insert(net.begin() + g.below(net.size() + 1), p);
      c.label("dup");
      break;
    }
    case oCompact:
      if ((b >> 8) % 3 == 0) {
        race(d % 2 ? pick_up(a) : pick_leaderish(a), g);
        break;
      }
      compact(pick_up(a), g, b % 4 == 0 ? 0 : b % 2 ? 1 : 2);
      break;
    case oConf:
      if (b % 4 == 0) propose_mixed(pick_leaderish(a), g);
      else propose_conf(pick_leaderish(a), g);
      break;
    case oHold: {  // messages to (or from) one node are delayed, whatever happens to the links meanwhile
      Node& n = pick_leaderish(a);
      int k = 0;
      for (auto it = net.begin(); it != net.end() && held.size() < 60;) {
        if ((b % 3 == 0 ? it->from : it->to) == n.id && g.below(3)) {
          held.push_back(*it);
          it = net.erase(it);
          k++;
        } else {
          ++it;
        }
      }
      tr("hold %d messages of node %" PRIu64, k, n.id);
      if (k) c.label("hold");
      break;
    }
    case oRelease:
      release(b % 2);
      break;
    case oTransfer: {
      Node& n = pick_leaderish(a);
      uint64_t to = d % 12 == 11 ? 99999 : nodes[b % nodes.size()].id;
      transfer(n, to);
      break;
    }
    case oRead:
      read(d % 2 ? pick_leaderish(a) : pick_up(a));
      if (opt.grand)
        for (int i = 0, k = b % 70; i < k; i++) read(d % 2 ? pick_leaderish(a) : pick_up(a + (g.below(3) == 0)));
      break;
    case oReport: {
      flush_reports();
      Node& n = pick_leaderish(a);
      if (n.up && b % 2) {
        uint64_t to = nodes[d % nodes.size()].id;
        if (to != n.id) {
          if (n.phase && !opt.interleave) process(n);
          unreachable(n, to);
          if (n.phase) n.stepped = true;
        }
      }
      break;
    }
    case oSnapFlag: {
      Node& n = d % 4 ? pick_leaderish(a) : pick_up(a);
      if (n.st) n.st->unavailable = b % 2;
      if (n.st && b % 2) c.label("snap_unavailable");
      break;
    }
    case oStatus:
      status(pick_up(a), g);
      break;
    case oGate: {
      int k = 1 + b % 3;
      for (int i = 0; i < k; i++) gate(pick_up(a + i * 8), g);
      break;
    }
    case oDepose: {  // cut the leader off and let the others elect
      Node* l = leader();
      if (!l) break;
      c.label("depose");
      int lx = l->ix;
      for (size_t j = 0; j < nodes.size(); j++) if ((int)j != lx) blocked[lx][j] = blocked[j][lx] = 1;
      if (b % 2) propose(*l, {payload(g, 1)});
      int k = opt.et + d % (2 * opt.et);
      bool tick_old = (b >> 1) % 2;
      for (int i = 0; i < k; i++) {
        for (auto& n : nodes) if (n.ix != lx || tick_old) tick(n);
        pump(6);
      }
      if ((b >> 2) % 2) for (auto& r : blocked) for (auto& x : r) x = 0;
      break;
    }
    case oLaggard: {  // one node misses entries, the leader compacts
      Node* l = leader();
      if (!l) break;
      c.label("laggard");
      int x = a % nodes.size();
      if (x == l->ix) x = (x + 1) % nodes.size();
      if (x == l->ix) break;
      for (size_t j = 0; j < nodes.size(); j++) if ((int)j != x) blocked[x][j] = blocked[j][x] = 1;
      int k = 1 + b % 5;
      for (int i = 0; i < k; i++) propose(*l, {payload(g, g.u32() % 6)});
      if (opt.confs && d % 3 == 0) propose_conf(*l, g);
      pump(8);
      if (l->up && d % 4) {
        if ((d >> 10) % 2) race(*l, g);
        else compact(*l, g, 1);
      }
      for (size_t j = 0; j < nodes.size(); j++) blocked[x][j] = blocked[j][x] = 0;
      for (int i = 0; i < opt.hb; i++) { for (auto& n : nodes) tick(n); }
      pump(1 + (d >> 2) % 6);
      break;
    }
    case oStale: {  // a leader stays in a minority while the majority moves on; both are used
      Node* l = leader();
      if (!l) break;
      c.label("stale");
      int lx = l->ix;
      uint32_t mask = a;
      bool delay = (d >> 4) % 2;
      if (delay) {  // replies to the leader are on their way for a long time
        pump(4);
        if ((d >> 5) % 2) read(*l);
        if ((d >> 6) % 2) tick(*l);
        if ((d >> 7) % 2) propose(*l, {payload(g, 0)});
        if (l->up) process(*l);
        for (size_t i = 0, k = net.size(); i < k && !net.empty(); i++) deliver_one(0);
        for (auto& n : nodes) if (n.up && n.ix != lx) process(n);
        for (auto it = net.begin(); it != net.end();)
          if (it->to == nodes[lx].id && held.size() < 60) {
            held.push_back(*it);
            it = net.erase(it);
          } else {
            ++it;
          }
      }
      for (size_t i = 0; i < nodes.size(); i++)
        for (size_t j = 0; j < nodes.size(); j++) {
          bool gi = (int)i == lx || (nodes.size() > 3 && (mask >> i) % 4 == 0), gj = (int)j == lx || (nodes.size() > 3 && (mask >> j) % 4 == 0);
          blocked[i][j] = i != j && gi != gj;
        }
      if (b % 2) propose(nodes[lx], {payload(g, 0)});
      for (int i = 0; i < 2 * opt.et; i++) {
        for (auto& n : nodes) if (n.ix != lx) tick(n);
        pump(4);
        Node* l2 = leader();
        if (l2 && l2->ix != lx && g.below(3) == 0) propose(*l2, {payload(g, 0)});
      }
      if (d % 2 && nodes[lx].up) read(nodes[lx]);
      if ((d >> 1) % 2) tick(nodes[lx]);
      if (delay) release(true);
      pump(2);
      if ((d >> 2) % 4) for (auto& r : blocked) for (auto& x : r) x = 0;
      break;
    }
    case oSplit:
      op_split(op, g);
      break;
    case oSnapRace:
      op_snap_race(op, g);
      break;
    case oForceRound: {  // everything works for a while
      for (auto& r : blocked) for (auto& x : r) x = 0;
      if (a % 2) for (auto& n : nodes) if (!n.up) restart(n, g);
      int k = 1 + b % (2 * opt.et);
      for (int i = 0; i < k; i++) {
        for (auto& n : nodes) tick(n);
        pump(10);
        if (i % 3 == 0) flush_reports();
      }
      break;
    }
  }
  if (opt.auto_mode == 2 || (opt.auto_mode == 1 && op.w[5] % 3 == 0))
    for (auto& n : nodes)
      if (n.up && op.w[0] != oPhase) process(n);
}

}  // namespace sim
