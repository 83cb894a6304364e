// C25: the membership change engine against the rules. C26: describing and restoring a membership.
// C27: encodings of membership changes.
#include "refconf.h"
#include "src/confchange/confchange.h"
#include "src/confchange/restore.h"
#include "src/raftpb/confchange.h"
#include "src/raftpb/confstate.h"
#include "src/rawnode.h"

using namespace pbt;
using namespace craft;

namespace {

RefConf conf_of(const ProgressTracker::Config& cfg) {
  RefConf c;
  c.in = cfg.voters.Incoming().IDs();
  c.out = cfg.voters.Outgoing().IDs();
  c.learners = cfg.learners;
  c.next = cfg.learners_next;
  c.auto_leave = cfg.auto_leave;
  return c;
}
std::string pr_str(const ProgressPtr& p) {
  std::string inf;
  if (p->GetInflights()) {
    inf = fmt("inf=%lld/%lld full=%d", (long long)p->GetInflights()->Count(), (long long)p->GetInflights()->Size(), p->GetInflights()->Full());
  }
  return fmt("st=%d match=%llu next=%llu pend=%llu act=%d probe=%d learner=%d %s", (int)p->State(), (unsigned long long)p->Match(),
             (unsigned long long)p->Next(), (unsigned long long)p->PendingSnapshot(), p->RecentActive(), p->ProbeSent(), p->IsLearner(), inf.c_str());
}
// Without the learner flag, which a change legitimately alters.
std::string pr_state(const ProgressPtr& p) {
  bool l = p->IsLearner();
  p->SetIsLearner(false);
  std::string s = pr_str(p);
  p->SetIsLearner(l);
  return s;
}
std::string prs_str(const ProgressMap& m) {
  std::string s;
  for (auto& p : m) s += fmt("%llu: ", (unsigned long long)p.first) + pr_str(p.second) + "\n";
  return s;
}
std::vector<raftpb::ConfChangeSingle> to_singles(const RefConf::Changes& ccs) {
  std::vector<raftpb::ConfChangeSingle> v;
  for (auto& c : ccs) {
    raftpb::ConfChangeSingle s;
    s.set_type(c.first);
    s.set_node_id(c.second);
    v.push_back(s);
  }
  return v;
}
std::string ccs_str(const RefConf::Changes& ccs) {
  std::string s = "[";
  for (auto& c : ccs)
    s += fmt("%s%c%llu", s.size() > 1 ? " " : "", "vrul"[(int)c.first], (unsigned long long)c.second);
  return s + "]";
}
uint64_t pick_id(Rng& r, uint64_t pool_kind) {
  if (r.below(16) == 0) return 0;
  uint64_t k = 1 + r.below(pool_kind >= 3 ? 40 : 7);
  pool_kind %= 3;
  return pool_kind == 0 ? k : pool_kind == 1 ? k * 0x123456789abcdefull : UINT64_MAX - k;
}
RefConf::Changes pick_changes(Rng& r, uint64_t pool_kind) {
  RefConf::Changes ccs;
  size_t n = pool_kind >= 3 ? (r.below(4) == 0 ? r.below(50) : r.below(10)) : r.below(4) == 0 ? r.below(7) : r.below(3);
  for (size_t i = 0; i < n; i++) {
    static const raftpb::ConfChangeType ty[] = {raftpb::ConfChangeAddNode, raftpb::ConfChangeAddNode, raftpb::ConfChangeAddLearnerNode,
                                                raftpb::ConfChangeAddLearnerNode, raftpb::ConfChangeRemoveNode, raftpb::ConfChangeUpdateNode};
    ccs.push_back({ty[r.below(6)], pick_id(r, pool_kind)});
  }
  return ccs;
}
void scramble(Rng& r, const ProgressPtr& p, uint64_t last) {
  uint64_t match = r.below(last + 1);
  p->SetMatch(match);
  p->SetNext(match + 1 + r.below(3));
  switch (r.below(4)) {
    case 0: p->BecomeProbe(); p->SetProbeSent(r.below(2)); break;
    case 1: {
      p->BecomeReplicate();
      uint64_t at = match;
      for (uint64_t k = r.below(4); k && !p->GetInflights()->Full(); k--) p->GetInflights()->Add(++at);
      p->OptimisticUpdate(at);
      break;
    }
    case 2: p->BecomeSnapshot(1 + r.below(50)); break;
    default: break;
  }
  p->SetRecentActive(r.below(2));
}

// ---------------------------------------------------------------- C25
void run_changes(Ctx& c) {
  auto lg = make_logger(c);
  uint64_t kind = c.h(0) % 3 + (c.h(0) / 3 % 8 == 7 ? 3 : 0);  // 3 and up: dozens of members
  int64_t max_inflight = 1 + c.h(1) % 5;
  ProgressTracker trk(max_inflight);
  RefConf ref;
  uint64_t last = 1 + c.h(2) % 30;
  int ok = 0, refused = 0, jointed = 0;
  for (auto& op : c.t.ops) {
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    last += r.below(3);
    for (auto& p : trk.GetProgressMap()) if (r.below(3) == 0) scramble(r, p.second, last);
    auto ccs = pick_changes(r, kind);
    int what = op.w[0] % 8;  // 0-2 simple, 3-5 enter, 6-7 leave
    if (ref.in.empty()) what = 0;
    bool auto_leave = r.below(2);
    Changer chg(lg, trk, last);
    std::string before_cfg = conf_of(trk.GetConfig()).str(), before = prs_str(trk.GetProgressMap());
    std::map<uint64_t, std::string> state;
    std::map<uint64_t, bool> tracked;
    for (auto& p : trk.GetProgressMap()) { state[p.first] = pr_state(p.second); tracked[p.first] = true; }
    RefConf want = ref;
    std::string why;
    std::tuple<ProgressTracker::Config, ProgressMap, Status> got;
    std::string opn;
    if (what <= 2) { why = want.simple(ccs, &tracked); got = chg.Simple(to_singles(ccs)); opn = "simple"; }
    else if (what <= 5) { why = want.enter(auto_leave, ccs, &tracked); got = chg.EnterJoint(auto_leave, to_singles(ccs)); opn = auto_leave ? "enter-auto" : "enter"; }
    else { why = want.leave(&tracked); got = chg.LeaveJoint(); opn = "leave"; }
    c.events++;
    auto& [cfg, prs, st] = got;
    std::string desc = opn + " " + ccs_str(ccs) + " from " + ref.str();
    if (c.verbose) printf("%s -> %s\n", desc.c_str(), why.empty() ? want.str().c_str() : why.c_str());
    if (st.IsOK() != why.empty())
      c.fail("verdict", desc + ": " + (st.IsOK() ? "accepted although forbidden (" + why + ")" : std::string("refused although allowed: ") + st.Str()));
    // neither outcome touches the original
    if (conf_of(trk.GetConfig()).str() != before_cfg || prs_str(trk.GetProgressMap()) != before)
      c.fail("original-altered", desc + ": computing the change altered the original: " + before + " -> " + prs_str(trk.GetProgressMap()));
    if (!st.IsOK()) {
      refused++;
      c.mix(hash_str(why));
      continue;
    }
    RefConf res = conf_of(cfg);
    if (!(res == want)) c.fail("result", desc + ": got " + res.str() + ", rules give " + want.str());
    std::set<uint64_t> keys;
    for (auto& p : prs) keys.insert(p.first);
    if (keys != want.members()) c.fail("tracked", desc + ": tracked peers " + set_str(keys) + ", members " + set_str(want.members()));
    for (auto& p : prs) {
      if (!p.second || !p.second->GetInflights()) c.fail("tracked", desc + ": peer without state");
      if (p.second->IsLearner() != (want.learners.count(p.first) > 0)) c.fail("learner-flag", desc + fmt(": learner flag of %llu", (unsigned long long)p.first));
      bool kept = tracked.count(p.first) && tracked[p.first];
      if (kept) {
        if (pr_state(p.second) != state[p.first])
          c.fail("progress-kept", desc + fmt(": state of peer %llu not preserved: ", (unsigned long long)p.first) + state[p.first] + " -> " + pr_state(p.second));
      } else {
        if (p.second->Match() != 0 || p.second->State() != kProbe || p.second->GetInflights()->Count() != 0 ||
            p.second->GetInflights()->Size() != max_inflight || p.second->ProbeSent() || !p.second->RecentActive() || p.second->PendingSnapshot())
          c.fail("progress-new", desc + ": new peer starts with " + pr_str(p.second));
        if (p.second->Next() > last + 1) c.fail("progress-new", desc + ": new peer's next position is past the log: " + pr_str(p.second));
      }
    }
    // results do not share state with the original
    for (auto& p : prs) {
      bool act = p.second->RecentActive();
      p.second->SetRecentActive(!act);
      uint64_t m = p.second->Match();
      p.second->SetMatch(m + 1);
      if (prs_str(trk.GetProgressMap()) != before) c.fail("original-altered", desc + ": result shares state with the original");
      p.second->SetMatch(m);
      p.second->SetRecentActive(act);
    }
    ok++;
    c.mix(hash_str(res.str()));
    if (c.summary.size() < 400) c.summary += desc + " => " + res.str() + "; ";
    if (op.w[4] % 8 != 0) {  // usually continue from the result
      ref = want;
      trk.SetConfig(cfg);
      trk.SetProgressMap(prs);
      if (ref.joint()) jointed++;
    }
  }
  c.label("accepted", ok);
  c.label("refused", refused);
  c.nontrivial = jointed >= 1 && ok >= 3 && refused >= 1;
}

// ---------------------------------------------------------------- C26
RefConf random_reachable(Rng& r, uint64_t kind, int steps) {
  RefConf c;
  for (int i = 0; i < steps; i++) {
    auto ccs = pick_changes(r, kind);
    switch (c.in.empty() ? 0 : r.below(4)) {
      case 0: c.simple(ccs); break;
      case 3: if (r.below(2)) { c.leave(); break; }  // fallthrough: enter
      default: c.enter(r.below(2), ccs); break;
    }
  }
  return c;
}
template <class RF>
void shuffle_field(Rng& r, RF* f) {
  for (int i = f->size() - 1; i > 0; i--) f->SwapElements(i, r.below(i + 1));
}
void shuffle_cs(Rng& r, raftpb::ConfState* cs) {
  shuffle_field(r, cs->mutable_voters());
  shuffle_field(r, cs->mutable_learners());
  shuffle_field(r, cs->mutable_voters_outgoing());
  shuffle_field(r, cs->mutable_learners_next());
}
std::string cs_canon(const raftpb::ConfState& cs) {
  auto l = [](const google::protobuf::RepeatedField<google::protobuf::uint64>& f) {
    std::vector<uint64_t> v(f.begin(), f.end());
    std::sort(v.begin(), v.end());
    std::string s = "(";
    for (auto x : v) s += std::to_string(x) + " ";
    return s + ")";
  };
  return l(cs.voters()) + l(cs.learners()) + l(cs.voters_outgoing()) + l(cs.learners_next()) + (cs.auto_leave() ? "a" : "-");
}
void run_restore(Ctx& c) {
  auto lg = make_logger(c);
  uint64_t kind = c.h(0) % 3 + (c.h(0) / 3 % 8 == 7 ? 3 : 0);  // 3 and up: dozens of members
  int joint = 0, with_next = 0;
  for (auto& op : c.t.ops) {
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    RefConf conf = random_reachable(r, kind, 1 + r.below(8));
    if (conf.in.empty()) {
      if (r.below(4)) conf.in.insert(pick_id(r, kind) | 1);
    }
    raftpb::ConfState cs = conf.to();
    shuffle_cs(r, &cs);
    int64_t inflight = 1 + r.below(100);
    uint64_t last = r.below(50);
    c.events++;
    auto [cfg, prs, st] = Restore(Changer(lg, ProgressTracker(inflight), last), cs);
    if (!st.IsOK()) c.fail("restore", "restoring " + conf.str() + " is refused: " + st.Str());
    RefConf got = conf_of(cfg);
    if (!(got == conf)) c.fail("restore", "restoring " + conf.str() + " gives " + got.str());
    std::set<uint64_t> keys;
    for (auto& p : prs) {
      keys.insert(p.first);
      if (p.second->IsLearner() != (conf.learners.count(p.first) > 0))
        c.fail("restore-role", conf.str() + fmt(": learner role of %llu is wrong", (unsigned long long)p.first));
      if (p.second->Match() != 0 || p.second->State() != kProbe || p.second->GetInflights()->Size() != inflight)
        c.fail("restore-progress", conf.str() + ": restored peer has state " + pr_str(p.second));
    }
    if (keys != conf.members()) c.fail("restore-tracked", conf.str() + ": tracked " + set_str(keys));
    ProgressTracker t(inflight);
    t.SetConfig(cfg);
    t.SetProgressMap(prs);
    raftpb::ConfState back = t.ConfState();
    if (cs_canon(back) != cs_canon(cs)) c.fail("describe", conf.str() + " described as " + cs_canon(back) + " instead of " + cs_canon(cs));
    if (!(back == cs)) c.fail("equality", "equal descriptions compare unequal: " + cs_canon(back));
    // equality ignores order and nothing else
    raftpb::ConfState other = cs;
    shuffle_cs(r, &other);
    if (!(other == cs)) c.fail("equality", "order matters in the comparison of " + cs_canon(cs));
    switch (r.below(8)) {
      case 0: other.set_auto_leave(!other.auto_leave()); break;
      case 1: other.add_voters(pick_id(r, kind)); break;
      case 2: other.add_learners(pick_id(r, kind)); break;
      case 3: other.add_voters_outgoing(pick_id(r, kind)); break;
      case 4: other.add_learners_next(pick_id(r, kind)); break;
      case 5: if (other.voters_size()) other.set_voters(r.below(other.voters_size()), pick_id(r, kind)); break;
      case 6: if (other.learners_size()) other.mutable_learners()->RemoveLast(); break;
      case 7: if (other.learners_next_size()) { other.add_learners(other.learners_next(0)); other.clear_learners_next(); }
              else if (other.voters_outgoing_size()) other.mutable_voters_outgoing()->RemoveLast(); break;
    }
    bool want_eq = cs_canon(other) == cs_canon(cs);
    if ((other == cs) != want_eq || (cs == other) != want_eq)
      c.fail("equality", std::string("comparison says ") + (want_eq ? "unequal" : "equal") + " for " + cs_canon(cs) + " and " + cs_canon(other));
    // the same through a node started over a storage with this membership
    if (!conf.in.empty() && r.below(4) == 0) {
      auto storage = std::make_shared<MemoryStorage>(lg);
      auto snap = std::make_shared<raftpb::Snapshot>();
      snap->mutable_metadata()->set_index(5);
      snap->mutable_metadata()->set_term(2);
      *snap->mutable_metadata()->mutable_conf_state() = cs;
      storage->ApplySnapshot(snap);
      raftpb::HardState hs;
      hs.set_term(2);
      hs.set_commit(5);
      storage->SetHardState(hs);
      Raft::Config cf;
      std::vector<uint64_t> ms;
      for (auto m : conf.members()) ms.push_back(m);
      uint64_t self = r.below(4) ? ms[r.below(ms.size())] : 77777;
      cf.id = self;
      cf.election_tick = 10;
      cf.heartbeat_tick = 1;
      cf.storage = storage;
      cf.max_size_per_msg = 1000;
      cf.max_inflight_msgs = 8;
      cf.logger = lg;
      auto n = RawNode::New(cf);
      auto s = n->GetStatus();
      if (!(conf_of(s.config) == conf)) c.fail("restore-node", "node started over " + conf.str() + " works with " + conf_of(s.config).str());
      std::set<uint64_t> k2;
      n->WithProgress([&](uint64_t id, ProgressType ty, ProgressPtr) {
        k2.insert(id);
        if ((ty == kLearner) != (conf.learners.count(id) > 0)) c.fail("restore-role", conf.str() + ": node reports wrong role");
      });
      if (k2 != conf.members()) c.fail("restore-tracked", conf.str() + ": node tracks " + set_str(k2));
      if (n->GetRaft()->IsLearner() != (conf.learners.count(self) > 0)) c.fail("restore-role", conf.str() + ": own role wrong");
      c.label("node-restores");
      c.events += 3;
    }
    if (conf.joint()) joint++;
    if (!conf.next.empty()) with_next++;
    c.mix(hash_str(conf.str()));
    if (c.summary.size() < 300) c.summary += conf.str() + "; ";
  }
  c.label("joint", joint);
  c.label("with-staged-learners", with_next);
  c.nontrivial = joint >= 1;
}

// ---------------------------------------------------------------- C27
// Documented syntax: operations separated by one space; each is one of v,l,r,u followed by a decimal node id.
// 1 accept, 0 reject, -1 not specified (empty operations between separators, leading zeros).
int recognise(const std::string& s, RefConf::Changes* out) {
  size_t a = 0, b = s.size();
  while (a < b && s[a] == ' ') a++;
  while (b > a && s[b - 1] == ' ') b--;
  int res = 1;
  if (a == b) return 1;
  size_t i = a;
  while (true) {
    size_t e = i;
    while (e < b && s[e] != ' ') e++;
    if (e == i) res = -1;
    else {
      raftpb::ConfChangeType ty;
      switch (s[i]) {
        case 'v': ty = raftpb::ConfChangeAddNode; break;
        case 'l': ty = raftpb::ConfChangeAddLearnerNode; break;
        case 'r': ty = raftpb::ConfChangeRemoveNode; break;
        case 'u': ty = raftpb::ConfChangeUpdateNode; break;
        default: return 0;
      }
      if (e == i + 1) return 0;
      unsigned __int128 v = 0;
      for (size_t k = i + 1; k < e; k++) {
        if (s[k] < '0' || s[k] > '9') return 0;
        v = v * 10 + (s[k] - '0');
        if (v > UINT64_MAX) return 0;
      }
      if (e > i + 2 && s[i + 1] == '0') res = -1;
      out->push_back({ty, (uint64_t)v});
    }
    if (e >= b) break;
    i = e + 1;
  }
  return res;
}
std::string printable(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) o += ch >= 32 && ch < 127 ? std::string(1, ch) : fmt("\\x%02x", ch);
  return "\"" + o + "\"";
}
void check_text(Ctx& c, const std::string& s) {
  RefConf::Changes want;
  int v = recognise(s, &want);
  auto [got, st] = ConfChangesFromString(s);
  c.events++;
  if (v == 1 && !st.IsOK()) c.fail("text-rejected", "well-formed text " + printable(s) + " is refused: " + st.Str());
  if (v == 0 && st.IsOK()) c.fail("text-accepted", "malformed text " + printable(s) + " is accepted as \"" + ConfChangesToString(got) + "\"");
  if (st.IsOK() && v != 0) {
    if (got.size() != want.size()) c.fail("text-value", "text " + printable(s) + " parsed into a different number of changes");
    for (size_t i = 0; i < got.size(); i++)
      if (got[i].type() != want[i].first || got[i].node_id() != want[i].second)
        c.fail("text-value", "text " + printable(s) + " parsed as \"" + ConfChangesToString(got) + "\"");
  }
}
void run_encoding(Ctx& c) {
  auto lg = make_logger(c);
  int malformed = 0, multi = 0;
  for (auto& op : c.t.ops) {
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    uint64_t kind = r.below(3) + (r.below(16) ? 0 : 3);
    // text round trip
    auto ccs = pick_changes(r, kind);
    if (r.below(4) == 0) for (auto& x : ccs) x.second = r.below(3) ? r.next() : UINT64_MAX;
    auto singles = to_singles(ccs);
    std::string text = ConfChangesToString(singles);
    {
      auto [back, st] = ConfChangesFromString(text);
      if (!st.IsOK()) c.fail("text-roundtrip", "own text " + printable(text) + " is refused");
      bool same = back.size() == singles.size();
      for (size_t i = 0; same && i < back.size(); i++) same = back[i].type() == singles[i].type() && back[i].node_id() == singles[i].node_id();
      if (!same) c.fail("text-roundtrip", ccs_str(ccs) + " printed as " + printable(text) + " parses as " + printable(ConfChangesToString(back)));
      RefConf::Changes w;
      if (recognise(text, &w) != 1 || w != ccs) c.fail("text-print", ccs_str(ccs) + " printed as " + printable(text));
    }
    check_text(c, text);
    // mutated and free texts
    std::string m = text;
    static const char alpha[] = "vlru0123456789 vlru0123456789  +-x.\t\n_Va,;";
    for (uint64_t k = 1 + r.below(3); k; k--) {
      size_t at = m.empty() ? 0 : r.below(m.size() + 1);
      switch (r.below(5)) {
        case 0: if (at < m.size()) m.erase(at, 1); break;
        case 1: m.insert(at, 1, alpha[r.below(sizeof alpha - 1)]); break;
        case 2: if (at < m.size()) m[at] = alpha[r.below(sizeof alpha - 1)]; break;
        case 3: if (at < m.size()) m[at] = (char)(1 + r.below(255)); break;
        case 4: m.insert(at, "99999999999999999999"); break;
      }
      check_text(c, m);
    }
    std::string f;
    for (uint64_t k = r.below(8); k; k--) f += alpha[r.below(sizeof alpha - 1)];
    check_text(c, f);
    {
      RefConf::Changes w;
      if (recognise(m, &w) == 0) malformed++;
    }
    // V1 form
    raftpb::ConfChange v1;
    static const raftpb::ConfChangeType ty[] = {raftpb::ConfChangeAddNode, raftpb::ConfChangeRemoveNode, raftpb::ConfChangeUpdateNode, raftpb::ConfChangeAddLearnerNode};
    if (r.below(8)) v1.set_type(ty[r.below(4)]);
    if (r.below(8)) v1.set_node_id(r.below(2) ? pick_id(r, kind) : r.next());
    std::string blob;
    for (uint64_t k = r.below(12); k; k--) blob += (char)r.below(256);
    if (r.below(3)) v1.set_context(blob);
    if (r.below(2)) v1.set_id(r.next());
    {
      ConfChangeI ci(v1);
      auto v2 = ci.AsV2();
      if (v2.changes_size() != 1 || v2.changes(0).type() != v1.type() || v2.changes(0).node_id() != v1.node_id() || v2.context() != v1.context() ||
          v2.transition() != raftpb::ConfChangeTransitionAuto)
        c.fail("v1-to-v2", "single change " + v1.ShortDebugString() + " converted to " + v2.ShortDebugString());
      auto [b, ok] = ci.AsV1();
      if (!ok || ser(b) != ser(v1)) c.fail("v1-form", "single change altered by its wrapper");
      auto [et, data, mok] = ci.Marshal();
      raftpb::ConfChange d;
      if (!mok || et != raftpb::EntryConfChange || !d.ParseFromString(data) || ser(d) != ser(v1))
        c.fail("v1-marshal", "single change " + v1.ShortDebugString() + " does not survive marshalling");
      if (ci.IsNull()) c.fail("null", "wrapper of a change claims to be null");
    }
    // V2 form
    raftpb::ConfChangeV2 v2;
    static const raftpb::ConfChangeTransition tr[] = {raftpb::ConfChangeTransitionAuto, raftpb::ConfChangeTransitionJointImplicit, raftpb::ConfChangeTransitionJointExplicit};
    if (r.below(4)) v2.set_transition(tr[r.below(3)]);
    for (auto& s : singles) *v2.add_changes() = s;
    if (r.below(2)) v2.set_context(blob);
    {
      ConfChangeI ci(v2);
      if (ser(ci.AsV2()) != ser(v2)) c.fail("v2-form", "change altered by its wrapper");
      if (std::get<1>(ci.AsV1())) c.fail("v2-form", "multi change claims to have a single form");
      auto [et, data, mok] = ci.Marshal();
      raftpb::ConfChangeV2 d;
      if (!mok || et != raftpb::EntryConfChangeV2 || !d.ParseFromString(data) || ser(d) != ser(v2))
        c.fail("v2-marshal", "change " + v2.ShortDebugString() + " does not survive marshalling");
      ConfChangeI c2;
      if (!c2.IsNull()) c.fail("null", "empty wrapper claims to hold a change");
      c2.SetConfChange(std::move(d));
      if (c2.IsNull() || ser(c2.AsV2()) != ser(v2)) c.fail("v2-form", "SetConfChange altered the change");
      auto [al, joint] = EnterJoint(lg, v2);
      bool wj = v2.changes_size() > 1 || v2.transition() != raftpb::ConfChangeTransitionAuto;
      bool wa = wj && v2.transition() != raftpb::ConfChangeTransitionJointExplicit;
      if (joint != wj || al != wa) c.fail("transition", "transition chosen for " + v2.ShortDebugString() + fmt(": joint=%d auto=%d", joint, al));
      auto copy = v2;
      bool lv = LeaveJoint(copy);
      bool wl = v2.changes_size() == 0 && v2.transition() == raftpb::ConfChangeTransitionAuto;
      if (lv != wl) c.fail("leave", "leave decision for " + v2.ShortDebugString());
      if (v2.changes_size() > 1) multi++;
      c.mix(joint * 4 + al * 2 + lv);
    }
    c.events += 10;
    c.mix(hash_str(m));
    if (c.summary.size() < 200) c.summary += printable(text) + " / mutated " + printable(m) + "; ";
  }
  c.label("malformed-texts", malformed);
  c.label("multi-changes", multi);
  c.nontrivial = malformed > 0 && multi > 0;
}
}  // namespace

PBT_CHECK_DEF("C25", run_changes, 10, 60, 120000, 1500000,
              "each case: a sequence of up to 60 simple/enter/leave requests with 0-6 changes each over 7 ids (small, sparse or huge; an eighth of the cases: 40 ids, up to 50 changes at once) from the membership reached so far, peers' replication state scrambled in between; non-trivial: reached a joint membership, 3+ accepted and 1+ refused changes", "plain");
PBT_CHECK_DEF("C26", run_restore, 5, 40, 150000, 1500000,
              "each case: up to 40 memberships reached by random change sequences, described in shuffled order, restored, compared; pairs of mutated descriptions compared for equality; nodes started over them; non-trivial: includes a joint membership", "plain");
PBT_CHECK_DEF("C27", run_encoding, 5, 40, 200000, 1500000,
              "each case: up to 40 random changes in both forms with arbitrary contexts, marshalled, converted, printed, plus mutated and free texts judged by an independent recogniser; non-trivial: includes malformed text and a multi-change", "plain");
