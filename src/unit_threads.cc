// C34: nodes in one process are independent.  Three kinds of programs, all under ThreadSanitizer:
//  - private clusters: K threads each drive a cluster of their own through a deterministic program; what every cluster
//    does (a digest of all batches, messages and statuses) is the same when it runs alone, next to the others, and
//    interleaved with the others inside one thread;
//  - a shared cluster: one node per thread, mailboxes in between; messages are read by the receiver's thread, batches by
//    a helper thread that also snapshots and compacts the storage, while the node goes on; replicas must agree;
//  - one console logger shared by several threads: whole lines, each once, filtered by level.
#include <fcntl.h>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#include "src/rawnode.h"
#include "src/storage.h"
#include "src/util.h"
#include "unit.h"

using namespace pbt;

namespace {

craft::Raft::Config conf(uint64_t id, std::shared_ptr<craft::Storage> st, std::shared_ptr<craft::Logger> lg, uint64_t opt) {
  craft::Raft::Config c;
  c.id = id;
  c.election_tick = 400;  // never reached: what happens must not depend on random timeouts
  c.heartbeat_tick = 1 + opt % 3;
  c.storage = st;
  c.applied = 1;
  static const uint64_t msz[] = {~0ull, 0, 40, 4000};
  c.max_size_per_msg = msz[(opt >> 2) % 4];
  c.max_committed_size_per_ready = (opt >> 4) % 2 ? 60 : ~0ull;
  c.max_inflight_msgs = 1 + (opt >> 5) % 4;
  c.max_uncommitted_entries_size = (opt >> 7) % 3 ? 0 : 200;
  c.check_quorum = (opt >> 9) % 2;
  c.pre_vote = (opt >> 10) % 2;
  c.disable_proposal_forwarding = (opt >> 11) % 4 == 0;
  c.logger = lg;
  return c;
}

std::shared_ptr<craft::MemoryStorage> fresh_storage(std::shared_ptr<craft::Logger> lg, const std::vector<uint64_t>& voters,
                                                    const std::vector<uint64_t>& learners) {
  auto st = std::make_shared<craft::MemoryStorage>(lg);
  auto s = std::make_shared<raftpb::Snapshot>();
  s->mutable_metadata()->set_index(1);
  s->mutable_metadata()->set_term(1);
  for (auto v : voters) s->mutable_metadata()->mutable_conf_state()->add_voters(v);
  for (auto v : learners) s->mutable_metadata()->mutable_conf_state()->add_learners(v);
  st->ApplySnapshot(s);
  raftpb::HardState hs;
  hs.set_term(1);
  hs.set_commit(1);
  st->SetHardState(hs);
  return st;
}

// Voters are added among the first n ids, learners among 2..n+1 (a present voter is then demoted): node 1 stays a voter.
void fill_change(Rng& r, uint64_t n, bool* voter, uint64_t* id) {
  *voter = r.below(2);
  *id = *voter ? 1 + r.below(n) : 2 + r.below(n);
}
craft::ConfChangeI gen_change(Rng& r, uint64_t n, bool v2) {
  bool voter;
  uint64_t id;
  if (!v2) {
    raftpb::ConfChange cc;
    fill_change(r, n, &voter, &id);
    cc.set_type(voter ? raftpb::ConfChangeAddNode : raftpb::ConfChangeAddLearnerNode);
    cc.set_node_id(id);
    if (r.below(2)) cc.set_context("ctx" + std::to_string(r.below(3)));
    return craft::ConfChangeI(std::move(cc));
  }
  raftpb::ConfChangeV2 cc;
  int k = r.below(3);
  for (int i = 0; i < k; i++) {
    auto* s = cc.add_changes();
    fill_change(r, n, &voter, &id);
    s->set_type(voter ? raftpb::ConfChangeAddNode : raftpb::ConfChangeAddLearnerNode);
    s->set_node_id(id);
  }
  if (r.below(2)) cc.set_context("ctx" + std::to_string(r.below(3)));
  return craft::ConfChangeI(std::move(cc));
}

bool apply_change(craft::RawNode& rn, const raftpb::Entry& e, raftpb::ConfState* cs) {
  if (e.type() == raftpb::EntryConfChange) {
    raftpb::ConfChange cc;
    cc.ParseFromString(e.data());
    *cs = rn.ApplyConfChange(craft::ConfChangeI(std::move(cc)));
    return true;
  }
  if (e.type() == raftpb::EntryConfChangeV2) {
    raftpb::ConfChangeV2 cc;
    cc.ParseFromString(e.data());
    *cs = rn.ApplyConfChange(craft::ConfChangeI(std::move(cc)));
    return true;
  }
  return false;
}

// ---- private clusters ----
struct Cluster {
  std::shared_ptr<craft::Logger> lg = std::make_shared<FatalLogger>();
  struct N {
    std::shared_ptr<craft::MemoryStorage> st;
    std::unique_ptr<craft::RawNode> rn;
    uint64_t applied = 1;
    int ticks = 0;
    raftpb::ConfState cs;
  };
  std::vector<N> n;
  std::deque<raftpb::Message> net;
  uint64_t digest = 1, calls = 0, term_max = 1, applied = 0;
  size_t reads = 0, snaps = 0;
  bool halted = false;
  std::string first;  // a readable trail, for reports

  Cluster(uint64_t seed) {
    Rng r(seed);
    size_t k = 1 + r.below(3);
    uint64_t opt = r.next();
    std::vector<uint64_t> v, l;
    for (uint64_t i = 1; i <= k; i++) (i > 1 && r.below(5) == 0 ? l : v).push_back(i);
    bool boot = r.below(4) == 0;
    for (uint64_t i = 1; i <= k; i++) {
      N x;
      x.st = boot ? std::make_shared<craft::MemoryStorage>(lg) : fresh_storage(lg, v, l);
      auto c = conf(i, x.st, lg, opt);
      if (boot) {
        c.applied = 0;
        x.applied = 0;
        std::vector<craft::Peer> peers;
        for (uint64_t p = 1; p <= k; p++) peers.push_back({p, "peer" + std::to_string(p)});
        x.rn = craft::RawNode::Start(c, peers);
      } else {
        x.rn = craft::RawNode::New(c);
      }
      x.cs = std::get<1>(x.st->InitialState());
      n.push_back(std::move(x));
    }
    if (boot) settle();
    if (r.below(5)) {
      n[0].rn->Campaign();
      settle();
    }
  }
  void mix(const std::string& s) { digest = mix64(digest, hash_str(s)); }
  void ready(size_t i) {
    N& x = n[i];
    if (!x.rn->HasReady()) return;
    auto rd = x.rn->GetReady();
    calls += 2;
    if (rd->soft_state) mix(fmt("ss%llu/%d", (unsigned long long)rd->soft_state->lead, (int)rd->soft_state->raft_state));
    mix(ser(rd->hard_state));
    for (auto& q : rd->read_states) { mix(q.request_ctx + "@" + std::to_string(q.index)); reads++; }
    for (auto& e : rd->entries) mix(ekey(*e));
    for (auto& e : rd->committed_entries) mix(ekey(*e));
    for (auto& m : rd->messages) { mix(ser(*m)); net.push_back(*m); }
    mix(rd->must_sync ? "s" : "a");
    if (!craft::IsEmptySnap(rd->snapshot)) {
      mix(ser(*rd->snapshot));
      x.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(*rd->snapshot));
      x.applied = rd->snapshot->metadata().index();
      x.cs = rd->snapshot->metadata().conf_state();
      snaps++;
    }
    x.st->Append(rd->entries);
    if (!craft::IsEmptyHardState(rd->hard_state)) x.st->SetHardState(rd->hard_state);
    for (auto& e : rd->committed_entries) {
      if (apply_change(*x.rn, *e, &x.cs)) mix(ser(x.cs));
      x.applied = e->index();
      applied++;
    }
    x.rn->Advance();
  }
  void op(const Op& o) {
    if (halted) return;
    Rng r(mix64(mix64(o.w[0], o.w[1]), o.w[2]));
    size_t i = r.below(n.size());
    N& x = n[i];
    calls++;
    try {
      switch (r.below(22)) {
        case 0: x.rn->Campaign(); break;
        case 1: case 2: mix(x.rn->Propose("p" + std::to_string(o.w[3] % 1000)).Str()); break;
        case 3: mix(x.rn->Propose(std::string(r.below(90), 'x')).Str()); break;
        case 4: mix(x.rn->ProposeConfChange(gen_change(r, n.size(), r.below(2))).Str()); break;
        case 5: x.rn->ReadIndex("r" + std::to_string(++calls)); break;
        case 6: case 7: if (++x.ticks < 300) x.rn->Tick(); break;
        case 8: x.rn->TransferLeader(1 + r.below(n.size())); break;
        case 9: x.rn->ReportUnreachable(1 + r.below(n.size() + 1)); break;
        case 10: x.rn->ReportSnapshot(1 + r.below(n.size() + 1), r.below(2) ? craft::kFinish : craft::kFailure); break;
        case 11: if (!net.empty()) net.pop_front(); break;
        case 12: {
          if (x.applied < 3) break;
          auto [sp, s2] = x.st->CreateSnapshot(x.applied, &x.cs, "snap");
          mix(s2.Str());
          mix(x.st->Compact(x.applied - r.below(2)).Str());
          break;
        }
        case 13: {
          auto st = x.rn->GetStatus();
          mix(fmt("%llu %llu %llu %zu", (unsigned long long)st.basic.hard_state.term(), (unsigned long long)st.basic.hard_state.commit(),
                  (unsigned long long)st.basic.applied, st.progress.size()));
          break;
        }
        case 14: case 15: settle(); break;
        case 16: case 17: ready(i); break;
        default: deliver(); break;
      }
      auto bs = x.rn->GetBasicStatus();
      mix(fmt("%llu %llu %llu %llu", (unsigned long long)bs.hard_state.term(), (unsigned long long)bs.hard_state.vote(),
              (unsigned long long)bs.hard_state.commit(), (unsigned long long)bs.soft_state.lead));
      term_max = std::max<uint64_t>(term_max, bs.hard_state.term());
    } catch (const Fatal& f) {
      halted = true;
      mix("halt " + f.msg);
      if (first.empty()) first = f.msg;
    }
  }
  void deliver() {
    if (net.empty()) return;
    auto m = std::make_shared<raftpb::Message>(net.front());
    net.pop_front();
    calls++;
    if (m->to() >= 1 && m->to() <= n.size()) mix(n[m->to() - 1].rn->Step(m).Str());
  }
  void settle() {
    for (int round = 0; round < 30; round++) {
      bool any = false;
      for (size_t i = 0; i < n.size(); i++)
        if (n[i].rn->HasReady()) { any = true; ready(i); }
      size_t k = net.size();
      any |= k > 0;
      while (k--) deliver();
      if (!any) break;
    }
  }
};

struct Prog {
  uint64_t seed;
  std::vector<Op> ops;
};

void private_case(Ctx& c) {
  size_t k = 2 + c.h(1) % 3;
  std::vector<Prog> ps(k);
  bool same = c.h(2) % 3 == 0;
  for (size_t i = 0; i < k; i++) ps[i].seed = mix64(c.h(3), same ? 0 : i);
  for (auto& o : c.t.ops) {
    if (same)
      for (auto& p : ps) p.ops.push_back(o);
    else
      ps[o.w[4] % k].ops.push_back(o);
  }
  std::vector<uint64_t> alone(k), together(k), mixed(k);
  std::vector<std::string> trail(k);
  uint64_t calls = 0, applied = 0, snaps = 0, reads = 0;
  size_t halts = 0;
  // next to each other (first, so that lazily made statics are made under contention)
  {
    std::vector<std::thread> ts;
    std::atomic<size_t> gate{0};
    for (size_t i = 0; i < k; i++)
      ts.emplace_back([&, i] {
        g_case_seed = c.h(6) + i;
        gate.fetch_add(1, std::memory_order_relaxed);
        while (gate.load(std::memory_order_relaxed) < k) sched_yield();
        Cluster cl(ps[i].seed);
        for (auto& o : ps[i].ops) cl.op(o);
        together[i] = cl.digest;
      });
    for (auto& t : ts) t.join();
  }
  for (size_t i = 0; i < k; i++) {
    std::thread t([&, i] {
      g_case_seed = c.h(6) + i;
      Cluster cl(ps[i].seed);
      for (auto& o : ps[i].ops) cl.op(o);
      alone[i] = cl.digest;
      calls += cl.calls;
      applied += cl.applied;
      snaps += cl.snaps;
      reads += cl.reads;
      halts += cl.halted;
      trail[i] = cl.first;
    });
    t.join();
  }
  std::thread t([&] {
    g_case_seed = c.h(6);
    std::vector<std::unique_ptr<Cluster>> cl;
    for (auto& p : ps) cl.push_back(std::make_unique<Cluster>(p.seed));
    std::vector<size_t> at(k, 0);
    Rng r(mix64(c.h(7), 5));
    size_t left = 0;
    for (auto& p : ps) left += p.ops.size();
    while (left) {
      size_t i = r.below(k);
      while (at[i] >= ps[i].ops.size()) i = (i + 1) % k;
      cl[i]->op(ps[i].ops[at[i]++]);
      left--;
    }
    for (size_t i = 0; i < k; i++) mixed[i] = cl[i]->digest;
  });
  t.join();
  for (size_t i = 0; i < k; i++) {
    if (together[i] != alone[i])
      c.fail("influence-threads", fmt("cluster %zu of %zu behaves differently when the others run in other threads%s", i, k,
                                      trail[i].empty() ? "" : (" (" + trail[i] + ")").c_str()));
    if (mixed[i] != alone[i])
      c.fail("influence", fmt("cluster %zu of %zu behaves differently when the others are driven in between", i, k));
    c.mix(alone[i]);
  }
  c.events += calls * 3;
  if (halts) c.label("halt", halts);
  if (applied) c.label("applied entries", applied);
  if (snaps) c.label("snapshots", snaps);
  if (reads) c.label("reads", reads);
  c.label(same ? "same programs" : "private programs");
  c.nontrivial = applied >= 2 * k && halts < k;
  c.summary = fmt("%zu private clusters%s: %llu calls, %llu entries applied, %llu reads, %llu snapshots", k, same ? " (same program)" : "",
                  (unsigned long long)calls, (unsigned long long)applied, (unsigned long long)reads, (unsigned long long)snaps);
}

// ---- one cluster, one node per thread ----
struct Box {
  std::mutex mu;
  std::deque<craft::MsgPtr> q;
};
struct Handed {
  std::shared_ptr<craft::Ready> rd;
  uint64_t applied = 0;
  uint64_t state = 0;
  raftpb::ConfState cs;
};
struct TNode {
  std::shared_ptr<FatalLogger> lg = std::make_shared<FatalLogger>();
  std::shared_ptr<craft::MemoryStorage> st;
  std::unique_ptr<craft::RawNode> rn;
  Box box;
  std::mutex hmu;
  std::deque<Handed> handed;
  std::atomic<bool> done{false};
  // state machine
  uint64_t applied = 1, state = 7;
  raftpb::ConfState cs;
  std::map<uint64_t, uint64_t> hist;
  std::string err;
  uint64_t calls = 0, snaps = 0, confs = 0, seen = 0;
  std::string helper_err;
};

void shared_case(Ctx& c) {
  Rng g(mix64(c.h(1), c.h(3)));
  size_t k = 2 + g.below(2);
  uint64_t opt = g.next();
  std::vector<uint64_t> v;
  for (uint64_t i = 1; i <= k; i++) v.push_back(i);
  std::vector<std::unique_ptr<TNode>> n;
  for (uint64_t i = 1; i <= k; i++) {
    auto x = std::make_unique<TNode>();
    x->st = fresh_storage(x->lg, v, {});
    auto cf = conf(i, x->st, x->lg, opt & ~(3ull << 9));
    x->rn = craft::RawNode::New(cf);
    x->cs = std::get<1>(x->st->InitialState());
    n.push_back(std::move(x));
  }
  std::vector<std::vector<Op>> ops(k);
  for (auto& o : c.t.ops) ops[o.w[4] % k].push_back(o);
  std::atomic<size_t> gate{0}, idle{0};
  auto node_thread = [&](size_t i) {
    TNode& x = *n[i];
    g_case_seed = c.h(6) + i;
    gate.fetch_add(1, std::memory_order_relaxed);
    while (gate.load(std::memory_order_relaxed) < k) sched_yield();
    auto handle = [&] {
      while (x.rn->HasReady()) {
        auto rd = x.rn->GetReady();
        if (!craft::IsEmptySnap(rd->snapshot)) {
          x.st->ApplySnapshot(std::make_shared<raftpb::Snapshot>(*rd->snapshot));
          x.applied = rd->snapshot->metadata().index();
          x.state = strtoull(rd->snapshot->data().c_str(), nullptr, 10);
          x.hist[x.applied] = x.state;
          x.cs = rd->snapshot->metadata().conf_state();
          x.snaps++;
        }
        x.st->Append(rd->entries);
        if (!craft::IsEmptyHardState(rd->hard_state)) x.st->SetHardState(rd->hard_state);
        for (auto& m : rd->messages) {
          if (m->to() < 1 || m->to() > k) continue;
          std::lock_guard<std::mutex> l(n[m->to() - 1]->box.mu);
          n[m->to() - 1]->box.q.push_back(m);
        }
        for (auto& e : rd->committed_entries) {
          if (e->index() != x.applied + 1 && x.err.empty())
            x.err = fmt("node %zu applies entry %llu after %llu", i + 1, (unsigned long long)e->index(), (unsigned long long)x.applied);
          if (apply_change(*x.rn, *e, &x.cs)) x.confs++;
          x.applied = e->index();
          x.state = mix64(x.state, hash_str(ekey(*e)));
          x.hist[x.applied] = x.state;
        }
        x.rn->Advance();
        std::lock_guard<std::mutex> l(x.hmu);
        x.handed.push_back({rd, x.applied, x.state, x.cs});
      }
    };
    try {
      size_t at = 0, quiet = 0, steps = 0, deaf = 0, tail = 0;
      int ticks = 0;
      while (steps++ < 3000) {
        std::deque<craft::MsgPtr> in;
        {
          std::lock_guard<std::mutex> l(x.box.mu);
          in.swap(x.box.q);
        }
        if (deaf) { deaf--; in.clear(); }
        for (auto& m : in) {
          // the receiver reads the sender's object from its own thread
          x.rn->Step(std::make_shared<raftpb::Message>(*m));
          x.calls++;
          handle();
        }
        bool busy = !in.empty();
        if (at < ops[i].size()) {
          Rng r(mix64(mix64(ops[i][at].w[0], ops[i][at].w[1]), ops[i][at].w[2]));
          at++;
          busy = true;
          x.calls++;
          switch (r.below(15)) {
            case 0: x.rn->Campaign(); break;
            case 1: case 2: case 3: case 4: x.rn->Propose("p" + std::to_string(i) + "." + std::to_string(at)); break;
            case 5: x.rn->Propose(std::string(r.below(120), 'y')); break;
            case 6: x.rn->ProposeConfChange(gen_change(r, k, r.below(2))); break;
            case 7: x.rn->ReadIndex(std::to_string(i) + "r" + std::to_string(at)); break;
            case 8: x.rn->TransferLeader(1 + r.below(k)); break;
            case 9: x.rn->ReportSnapshot(1 + r.below(k), r.below(2) ? craft::kFinish : craft::kFailure); break;
            case 10: x.rn->ReportUnreachable(1 + r.below(k)); break;
            case 11: deaf = 3 + r.below(12); break;
            default: if (++ticks < 300) x.rn->Tick(); break;
          }
          if (at == 1 && i == c.h(8) % k) x.rn->Campaign();
          handle();
          for (uint64_t s = r.below(3) ? 0 : r.below(4); s; s--) sched_yield();
        }
        if (busy) { quiet = 0; continue; }
        if (++quiet > 12) {
          if (++tail > 12) break;
          quiet = 0;
          x.rn->Tick();
          handle();
        }
        sched_yield();
      }
    } catch (const Fatal& f) {
      x.err = fmt("node %zu halts: ", i + 1) + f.msg;
    }
    x.done = true;
  };
  // The application's helper: reads what was handed out, snapshots and compacts at what is applied.
  auto helper = [&](size_t i) {
    TNode& x = *n[i];
    Rng r(mix64(c.h(9), i));
    uint64_t snapped = 1;
    try {
      for (;;) {
        bool last = x.done;
        std::deque<Handed> in;
        {
          std::lock_guard<std::mutex> l(x.hmu);
          in.swap(x.handed);
        }
        for (auto& h : in) {
          uint64_t d = 0;
          for (auto& e : h.rd->entries) d = mix64(d, hash_str(ekey(*e)));
          for (auto& e : h.rd->committed_entries) d = mix64(d, hash_str(ekey(*e)));
          for (auto& m : h.rd->messages) d = mix64(d, hash_str(ser(*m)));
          if (h.rd->snapshot) d = mix64(d, hash_str(ser(*h.rd->snapshot)));
          x.seen += 1 + (d & 1) * 0;
          if (h.applied > snapped + 1 && r.below(2) == 0) {
            auto [s, e] = x.st->CreateSnapshot(h.applied, &h.cs, std::to_string(h.state));
            if (e.IsOK()) {
              snapped = h.applied;
              if (r.below(2)) x.st->Compact(h.applied - r.below(2));
            }
          }
        }
        if (last) break;
        if (in.empty()) sched_yield();
      }
    } catch (const Fatal& f) {
      x.helper_err = fmt("the helper of node %zu halts: ", i + 1) + f.msg;
    }
  };
  std::vector<std::thread> ts;
  for (size_t i = 0; i < k; i++) ts.emplace_back(node_thread, i);
  for (size_t i = 0; i < k; i++) ts.emplace_back(helper, i);
  for (auto& t : ts) t.join();
  uint64_t applied = 0, snaps = 0, confs = 0, most = 0;
  std::map<uint64_t, uint64_t> all;
  for (size_t i = 0; i < k; i++) {
    TNode& x = *n[i];
    if (!x.err.empty()) c.fail("halt", x.err);
    if (!x.helper_err.empty()) c.fail("halt", x.helper_err);
    for (auto& h : x.hist) {
      auto [it, fresh] = all.insert(h);
      if (!fresh && it->second != h.second)
        c.fail("diverged", fmt("two replicas differ after applying entry %llu", (unsigned long long)h.first));
    }
    applied += x.hist.size();
    most = std::max<uint64_t>(most, x.hist.size());
    snaps += x.snaps;
    confs += x.confs;
    c.events += x.calls;
  }
  c.label("shared cluster");
  if (snaps) c.label("snapshots", snaps);
  if (confs) c.label("membership changes", confs);
  if (applied) c.label("applied entries", applied);
  for (auto& o : ops) c.mix(o.size());
  c.mix(mix64(c.h(1), c.h(3)));
  c.nontrivial = applied >= 2 * k && most < applied;
  c.summary = fmt("%zu nodes in %zu threads: %llu entries applied, %llu membership changes, %llu snapshots installed", k, 2 * k,
                  (unsigned long long)applied, (unsigned long long)confs, (unsigned long long)snaps);
}

// ---- one console logger ----
void logger_case(Ctx& c) {
  Rng g(mix64(c.h(1), c.h(4)));
  static const craft::LogLevel kLv[] = {craft::LogLevel::kDebug, craft::LogLevel::kInfo, craft::LogLevel::kWarning, craft::LogLevel::kError};
  craft::LogLevel level = kLv[g.below(4)];
  size_t k = 2 + g.below(3);
  struct Line { int lv; std::string text; };
  std::vector<std::vector<Line>> th(k);
  int id = 0;
  for (auto& o : c.t.ops)
    th[o.w[4] % k].push_back({(int)(o.w[0] % 4), fmt("<%d:%s>", ++id, std::string(o.w[1] % 50, 'a' + o.w[2] % 26).c_str())});
  int fd = memfd_create("log", 0);
  if (fd < 0) return;
  fflush(stdout);
  int save = dup(1);
  dup2(fd, 1);
  {
    craft::ConsoleLogger lg(level);
    std::atomic<size_t> gate{0};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < k; i++)
      ts.emplace_back([&, i] {
        gate.fetch_add(1, std::memory_order_relaxed);
        while (gate.load(std::memory_order_relaxed) < k) sched_yield();
        for (auto& l : th[i]) lg.Log(kLv[l.lv], "%s", l.text.c_str());
      });
    for (auto& t : ts) t.join();
    fflush(stdout);
  }
  dup2(save, 1);
  close(save);
  std::string out;
  char buf[4096];
  lseek(fd, 0, SEEK_SET);
  for (ssize_t r; (r = read(fd, buf, sizeof buf)) > 0;) out.append(buf, r);
  close(fd);
  std::map<std::string, std::pair<int, int>> want;  // text -> level, times seen
  for (auto& q : th)
    for (auto& l : q) want[l.text] = {l.lv, 0};
  std::istringstream is(out);
  for (std::string l; std::getline(is, l);) {
    size_t a = l.find('<'), b = l.rfind('>');
    if (a == std::string::npos && b == std::string::npos) continue;
    std::string t = a != std::string::npos && b != std::string::npos && b >= a ? l.substr(a, b - a + 1) : l;
    auto it = want.find(t);
    if (it == want.end()) c.fail("log-torn", "a logged line came out as: " + l);
    it->second.second++;
  }
  size_t shown = 0;
  for (auto& w : want) {
    int should = kLv[w.second.first] >= level;
    shown += should;
    if (w.second.second != should)
      c.fail("log-lines", fmt("a line of level %d logged with level %d configured came out %d times: ", w.second.first, (int)level, w.second.second) + w.first);
  }
  c.label("console logger");
  c.events += want.size();
  c.mix(hash_str(out.substr(0, 0)) + mix64(want.size(), (int)level) + c.h(4));
  c.nontrivial = shown > 5;
  c.summary = fmt("%zu threads, one console logger: %zu lines, %zu to be shown", k, want.size(), shown);
}

void threads_case(Ctx& c) {
  switch (c.h(0) % 12) {
    case 0: logger_case(c); break;
    case 1: case 2: case 3: case 4: shared_case(c); break;
    default: private_case(c); break;
  }
}

PBT_CHECK_DEF("C34", threads_case, 10, 160, 16000, 250000,
              "a case is (7 of 12) 2-4 private clusters driven by one thread each, compared with the same programs run alone and interleaved in one thread, "
              "(4 of 12) a cluster with one thread per node and a helper thread per node reading batches and compacting, or (1 of 12) threads sharing one console "
              "logger, all under ThreadSanitizer; non-trivial: the nodes applied entries (two per cluster or node on average), or at least six lines were to be shown", "tsan");

}  // namespace
