// C30: option validation and the bootstrap guard; out-of-place messages are injected into simulated clusters (sim.cc).
#include "sim.h"

using namespace pbt;

namespace {

template <class F>
bool halts(F f) {
  try {
    f();
  } catch (const Fatal&) {
    return true;
  }
  return false;
}

int64_t some_ticks(Rng& g) {
  switch (g.below(6)) {
    case 0: return -(int64_t)g.below(3);
    case 1: return 0;
    case 2: return 1;
    case 3: return 2;
    case 4: return 1 + g.below(1000);
    default: return g.below(2) ? (int64_t)INT32_MAX : INT64_MIN + (int64_t)g.below(2);
  }
}

void options_case(Ctx& c, Rng& g) {
  auto lg = make_logger(c);
  craft::Raft::Config cfg;
  cfg.logger = lg;
  bool calm = g.below(2);   // mostly valid, one thing possibly wrong
  cfg.id = g.below(6) ? 1 + g.below(5) : 0;
  cfg.heartbeat_tick = calm ? 1 + g.below(5) : some_ticks(g);
  cfg.election_tick = calm ? cfg.heartbeat_tick + 1 + g.below(20) : g.below(2) ? cfg.heartbeat_tick + (int64_t)g.below(3) - (cfg.heartbeat_tick > 0) : some_ticks(g);
  bool st = g.below(6) > 0;
  if (st) cfg.storage = std::make_shared<craft::MemoryStorage>(lg);
  cfg.max_inflight_msgs = g.below(4) ? 1 + (int64_t)g.below(1000) : some_ticks(g);
  cfg.check_quorum = g.below(2);
  cfg.pre_vote = g.below(2);
  cfg.read_only_option = g.below(3) ? craft::ReadOnly::ReadOnlyOption::kSafe : craft::ReadOnly::ReadOnlyOption::kLeaseBased;
  auto size = [&]() -> uint64_t { return g.below(3) == 0 ? 0 : g.below(2) ? g.below(1000) + 1 : ~0ull - g.below(2); };
  cfg.max_size_per_msg = size();
  cfg.max_committed_size_per_ready = size();
  cfg.max_uncommitted_entries_size = size();
  std::string why;
  if (cfg.id == 0) why = "id 0";
  else if (cfg.heartbeat_tick <= 0) why = "heartbeat tick";
  else if (cfg.election_tick <= cfg.heartbeat_tick) why = "election tick";
  else if (!st) why = "no storage";
  else if (cfg.max_inflight_msgs <= 0) why = "window";
  else if (cfg.read_only_option == craft::ReadOnly::ReadOnlyOption::kLeaseBased && !cfg.check_quorum) why = "lease reads without check-quorum";
  std::string desc = fmt("id %llu heartbeat %lld election %lld storage %d window %lld lease reads %d check-quorum %d", (unsigned long long)cfg.id,
                         (long long)cfg.heartbeat_tick, (long long)cfg.election_tick, st, (long long)cfg.max_inflight_msgs, (int)cfg.read_only_option, cfg.check_quorum);
  craft::Raft::Config in = cfg;
  bool ok = cfg.Validate().IsOK();
  c.events++;
  if (ok != why.empty()) c.fail("validate", "Validate says " + std::string(ok ? "valid" : "invalid") + (why.empty() ? "" : " although wrong: " + why) + " for " + desc);
  c.label(why.empty() ? "valid" : "invalid");
  if (ok) {
    if (cfg.max_uncommitted_entries_size != (in.max_uncommitted_entries_size ? in.max_uncommitted_entries_size : ~0ull))
      c.fail("default", "uncommitted size limit is not filled in as documented: " + desc);
    if (cfg.max_committed_size_per_ready != (in.max_committed_size_per_ready ? in.max_committed_size_per_ready : in.max_size_per_msg))
      c.fail("default", "committed size limit is not filled in as documented: " + desc);
    if (cfg.id != in.id || cfg.heartbeat_tick != in.heartbeat_tick || cfg.election_tick != in.election_tick || cfg.max_size_per_msg != in.max_size_per_msg ||
        cfg.max_inflight_msgs != in.max_inflight_msgs || cfg.check_quorum != in.check_quorum || cfg.pre_vote != in.pre_vote || cfg.read_only_option != in.read_only_option)
      c.fail("default", "validation changed an option that was given: " + desc);
    if (in.max_inflight_msgs < 100000 && in.election_tick < (1 << 20)) {
      craft::Raft::Config again = in;
      if (halts([&] { craft::RawNode::New(again); })) c.fail("new-valid", "a node with valid options is refused: " + desc);
      c.events++;
    }
  } else if (st || cfg.id == 0) {
    craft::Raft::Config again = in;
    if (!halts([&] { craft::RawNode::New(again); })) c.fail("new-invalid", "a node with invalid options (" + why + ") starts: " + desc);
    c.events++;
  }
  c.mix(mix64(hash_str(desc), ok));
}

void bootstrap_case(Ctx& c, Rng& g) {
  auto lg = make_logger(c);
  auto st = std::make_shared<sim::SimStorage>(lg);
  int np = g.below(4) == 0 ? 0 : 1 + g.below(7);
  std::vector<craft::Peer> peers;
  std::set<uint64_t> ids;
  for (int i = 0; i < np; i++) {
    uint64_t id = 1 + g.below(9) + (g.below(8) == 0 ? 1ull << 40 : 0);
    if (!ids.insert(id).second) continue;
    craft::Peer p;
    p.id = id;
    if (g.below(2)) p.context = "ctx";
    peers.push_back(p);
  }
  int kind = g.below(4);  // 0,1: empty
  uint64_t last = 0;
  uint64_t applied = 0;
  if (kind >= 2) {
    uint64_t base = 0;
    if (kind == 3) {
      base = 1 + g.below(100);
      auto s = std::make_shared<raftpb::Snapshot>();
      s->mutable_metadata()->set_index(base);
      s->mutable_metadata()->set_term(1);
      s->mutable_metadata()->mutable_conf_state()->add_voters(1);
      st->ApplySnapshot(s);
      st->cs.add_voters(1);
    }
    craft::EntryPtrs es;
    uint64_t n = kind == 3 ? g.below(4) : 1 + g.below(5);
    for (uint64_t i = 1; i <= n; i++) es.push_back(mk_entry(base + i, 1 + g.below(2) * 0, "x"));
    st->Append(es);
    last = base + n;
    applied = base;
    // the vote and term may not have been written yet: the log alone makes the storage non-empty
    if (g.below(3)) {
      st->hs.set_term(1 + g.below(4));
      st->hs.set_vote(g.below(2));
      st->hs.set_commit(base + g.below(n + 1));
    }
  }
  craft::Raft::Config cfg;
  cfg.logger = lg;
  cfg.id = 1 + g.below(5);
  cfg.election_tick = 10;
  cfg.heartbeat_tick = 1;
  cfg.max_inflight_msgs = 4;
  cfg.storage = st;
  cfg.applied = applied;
  auto rn = craft::RawNode::New(cfg);
  std::string was = sim::full_state(*rn);
  bool ok = rn->Bootstrap(peers).IsOK();
  c.events += 2;
  std::string is = sim::full_state(*rn);
  bool want = last == 0 && !peers.empty();
  std::string d = fmt("bootstrap with %zu peers over storage ending at %llu: ", peers.size(), (unsigned long long)last);
  if (ok != want) c.fail("bootstrap", d + (ok ? "accepted" : "refused"));
  if (!ok) {
    if (is != was) c.fail("bootstrap-effect", d + "refused but changed the node from [" + was + "] to [" + is + "]");
    c.label(last ? "boot_nonempty" : "boot_nobody");
  } else {
    auto r = rn->GetRaft();
    RefConf rc = RefConf::from(r->GetTracker().ConfState());
    RefConf wantc;
    for (auto& p : peers) wantc.in.insert(p.id);
    if (!(rc == wantc)) c.fail("bootstrap-members", d + "membership " + rc.str());
    if (r->Term() != 1 || r->GetRaftLog()->LastIndex() != peers.size() || r->GetRaftLog()->Committed() != peers.size() || r->GetRaftLog()->Applied() != 0 || r->Lead() != 0)
      c.fail("bootstrap-state", d + is);
    auto rd = rn->GetReady();
    if (rd->entries.size() != peers.size() || rd->committed_entries.size() > peers.size() || rd->hard_state.term() != 1)
      c.fail("bootstrap-batch", d + "the first batch does not carry the membership entries");
    for (size_t i = 0; i < rd->entries.size(); i++) {
      raftpb::ConfChange cc;
      if (!cc.ParseFromString(rd->entries[i]->data()) || cc.node_id() != peers[i].id || cc.context() != peers[i].context) c.fail("bootstrap-batch", d + "membership entry differs");
    }
    c.label("boot_ok");
  }
  auto [li, s] = st->LastIndex();
  if (li != last) c.fail("bootstrap-storage", d + "storage was changed");
  c.mix(hash_str(is) ^ ok);
}

void gate_case(Ctx& c) {
  if (c.h(40) % 3 == 0) {
    Rng g(mix64(c.h(41), c.h(42)));
    int k = 0;
    for (auto& op : c.t.ops) {
      Rng o(mix64(mix64(op.w[0], op.w[1]), mix64(op.w[2], op.w[3])));
      if (op.w[4] % 3) options_case(c, o);
      else bootstrap_case(c, o);
      if (++k >= 40) break;
    }
    auto has = [&](const char* l) { return c.labels.count(l) > 0; };
    c.nontrivial = has("invalid") && has("valid") && has("boot_nonempty");
    c.summary = fmt("%d option tuples and bootstraps: %llu valid, %llu invalid, %llu bootstrapped, %llu refused", k, (unsigned long long)c.labels["valid"],
                    (unsigned long long)c.labels["invalid"], (unsigned long long)c.labels["boot_ok"], (unsigned long long)c.labels["boot_nonempty"]);
    return;
  }
  sim::run_world(c, sim::profile_for("C30"));
}

PBT_CHECK_DEF("C30", gate_case, 10, 90, 40000, 1200000,
              "a case is either a generated cluster history with out-of-place messages (local kinds, replies from strangers, any kind at an earlier "
              "term) put to nodes in the states it reaches, or a batch of option tuples and bootstraps; non-trivial: all three kinds of messages "
              "occurred, or valid and invalid options and a non-empty storage", "plain");

}  // namespace
