// Reference membership engine: the documented rules on plain sets, written independently of the library.
#pragma once
#include <algorithm>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "src/raftpb/raft.pb.h"
#include "unit.h"

struct RefConf {
  std::set<uint64_t> in, out, learners, next;
  bool auto_leave = false;

  bool joint() const { return !out.empty(); }
  bool operator==(const RefConf& o) const {
    return in == o.in && out == o.out && learners == o.learners && next == o.next && auto_leave == o.auto_leave;
  }
  std::set<uint64_t> voters() const {
    std::set<uint64_t> v = in;
    v.insert(out.begin(), out.end());
    return v;
  }
  std::set<uint64_t> members() const {
    std::set<uint64_t> v = voters();
    v.insert(learners.begin(), learners.end());
    return v;
  }
  bool is_voter(uint64_t id) const { return in.count(id) || out.count(id); }
  bool is_member(uint64_t id) const { return is_voter(id) || learners.count(id); }
  std::string str() const {
    std::string s = set_str(in);
    if (joint()) s += "&&" + set_str(out);
    if (!learners.empty()) s += " learners" + set_str(learners);
    if (!next.empty()) s += " next" + set_str(next);
    if (auto_leave) s += " auto";
    return s;
  }
  // A majority of every voter set.
  template <class F>
  bool quorum(F has) const {
    for (auto* s : {&in, &out}) {
      if (s->empty()) continue;
      size_t n = 0;
      for (auto id : *s) n += has(id) ? 1 : 0;
      if (n < s->size() / 2 + 1) return false;
    }
    return !in.empty();
  }
  static RefConf from(const raftpb::ConfState& cs) {
    RefConf c;
    c.in.insert(cs.voters().begin(), cs.voters().end());
    c.out.insert(cs.voters_outgoing().begin(), cs.voters_outgoing().end());
    c.learners.insert(cs.learners().begin(), cs.learners().end());
    c.next.insert(cs.learners_next().begin(), cs.learners_next().end());
    c.auto_leave = cs.auto_leave();
    return c;
  }
  raftpb::ConfState to() const {
    raftpb::ConfState cs;
    for (auto x : in) cs.add_voters(x);
    for (auto x : out) cs.add_voters_outgoing(x);
    for (auto x : learners) cs.add_learners(x);
    for (auto x : next) cs.add_learners_next(x);
    cs.set_auto_leave(auto_leave);
    return cs;
  }

  using Changes = std::vector<std::pair<raftpb::ConfChangeType, uint64_t>>;

  // The individual changes, applied one after the other; `tracked` (if given) follows which peers are tracked: true =
  // state carried over, false = freshly created.
  void apply_each(const Changes& ccs, std::map<uint64_t, bool>* tracked = nullptr) {
    for (auto& c : ccs) {
      uint64_t id = c.second;
      if (id == 0) continue;
      switch (c.first) {
        case raftpb::ConfChangeAddNode:
          if (tracked && !is_member(id) && !next.count(id)) (*tracked)[id] = false;
          in.insert(id);
          learners.erase(id);
          next.erase(id);
          break;
        case raftpb::ConfChangeAddLearnerNode:
          if (learners.count(id)) break;
          if (tracked && !is_member(id)) (*tracked)[id] = false;
          in.erase(id);
          if (out.count(id)) next.insert(id);
          else learners.insert(id);
          break;
        case raftpb::ConfChangeRemoveNode:
          in.erase(id);
          learners.erase(id);
          next.erase(id);
          if (tracked && !out.count(id)) tracked->erase(id);
          break;
        default:
          break;
      }
    }
  }
  // Each returns "" or why the change is forbidden; *this is only altered on success.
  std::string simple(const Changes& ccs, std::map<uint64_t, bool>* tracked = nullptr) {
    if (joint()) return "simple change while joint";
    RefConf n = *this;
    std::map<uint64_t, bool> t;
    if (tracked) t = *tracked;
    n.apply_each(ccs, tracked ? &t : nullptr);
    if (n.in.empty()) return "no voters left";
    std::vector<uint64_t> d;
    std::set_symmetric_difference(in.begin(), in.end(), n.in.begin(), n.in.end(), std::back_inserter(d));
    if (d.size() > 1) return "more than one voter changed";
    *this = n;
    if (tracked) *tracked = t;
    return "";
  }
  std::string enter(bool auto_lv, const Changes& ccs, std::map<uint64_t, bool>* tracked = nullptr) {
    if (joint()) return "already joint";
    if (in.empty()) return "no voters to start from";
    RefConf n = *this;
    n.out = n.in;
    std::map<uint64_t, bool> t;
    if (tracked) t = *tracked;
    n.apply_each(ccs, tracked ? &t : nullptr);
    if (n.in.empty()) return "no voters left";
    n.auto_leave = auto_lv;
    *this = n;
    if (tracked) *tracked = t;
    return "";
  }
  std::string leave(std::map<uint64_t, bool>* tracked = nullptr) {
    if (!joint()) return "not joint";
    learners.insert(next.begin(), next.end());
    next.clear();
    if (tracked)
      for (auto id : out)
        if (!in.count(id) && !learners.count(id)) tracked->erase(id);
    out.clear();
    auto_leave = false;
    return "";
  }
  // A whole change as it is carried by a log entry.
  std::string apply(const raftpb::ConfChangeV2& cc) {
    Changes ccs;
    for (auto& c : cc.changes()) ccs.push_back({c.type(), c.node_id()});
    if (ccs.empty() && cc.transition() == raftpb::ConfChangeTransitionAuto) return leave();
    if (ccs.size() > 1 || cc.transition() != raftpb::ConfChangeTransitionAuto)
      return enter(cc.transition() != raftpb::ConfChangeTransitionJointExplicit, ccs);
    return simple(ccs);
  }
};
