// C24: quorum arithmetic against its definition.
#include "unit.h"
#include "src/quorum/joint.h"
#include "src/quorum/majority.h"
#include "src/tracker/tracker.h"

using namespace pbt;
using namespace craft;

namespace {

using Set = std::set<uint64_t>;
using Acks = std::map<uint64_t, uint64_t>;
using Votes = std::map<uint64_t, bool>;

uint64_t ref_committed(const Set& s, const Acks& a) {
  if (s.empty()) return UINT64_MAX;
  size_t q = s.size() / 2 + 1;
  uint64_t best = 0;
  for (auto& c : a) {  // candidate values: 0 and every acknowledged position
    size_t n = 0;
    for (auto id : s) {
      auto it = a.find(id);
      if (it != a.end() && it->second >= c.second) n++;
    }
    if (n >= q && c.second > best) best = c.second;
  }
  return best;
}
VoteState ref_vote(const Set& s, const Votes& v) {
  if (s.empty()) return kVoteWon;
  size_t q = s.size() / 2 + 1, yes = 0, no = 0;
  for (auto id : s) {
    auto it = v.find(id);
    if (it == v.end()) continue;
    (it->second ? yes : no)++;
  }
  if (yes >= q) return kVoteWon;
  if (s.size() - no < q) return kVoteLost;  // even if everybody else agreed it would not be enough
  return kVotePending;
}
VoteState ref_vote2(const Set& a, const Set& b, const Votes& v) {
  VoteState x = ref_vote(a, v), y = ref_vote(b, v);
  if (x == kVoteLost || y == kVoteLost) return kVoteLost;
  if (x == kVoteWon && y == kVoteWon) return kVoteWon;
  return kVotePending;
}
int rank(VoteState v) { return v == kVoteLost ? 0 : v == kVotePending ? 1 : 2; }

std::string acks_str(const Acks& a) {
  std::string o;
  for (auto& p : a) o += fmt(" %llu:%llu", (unsigned long long)p.first, (unsigned long long)p.second);
  return o;
}
std::string votes_str(const Votes& a) {
  std::string o;
  for (auto& p : a) o += fmt(" %llu:%c", (unsigned long long)p.first, p.second ? 'y' : 'n');
  return o;
}

void check_acks(Ctx& c, const Set& s1, const Set& s2, const Acks& acks) {
  uint64_t w1 = ref_committed(s1, acks), w2 = ref_committed(s2, acks), want = std::min(w1, w2);
  MapAckIndexer ix(acks);
  MajorityConfig m1(s1), m2(s2);
  uint64_t g1 = m1.CommittedIndex(ix), g2 = m2.CommittedIndex(ix), g = JointConfig(s1, s2).CommittedIndex(ix);
  c.events += 3;
  if (g1 != w1 || g2 != w2 || g != want)
    c.fail("commit-index", fmt("voters %s && %s acks%s: got %llu,%llu joint %llu; definition %llu,%llu joint %llu", set_str(s1).c_str(),
                               set_str(s2).c_str(), acks_str(acks).c_str(), (unsigned long long)g1, (unsigned long long)g2,
                               (unsigned long long)g, (unsigned long long)w1, (unsigned long long)w2, (unsigned long long)want));
}
void check_votes(Ctx& c, const Set& s1, const Set& s2, const Votes& v) {
  VoteState w1 = ref_vote(s1, v), w = ref_vote2(s1, s2, v);
  VoteState g1 = MajorityConfig(s1).VoteResult(v), g = JointConfig(s1, s2).VoteResult(v);
  c.events += 2;
  if (g1 != w1 || g != w)
    c.fail("vote-result", fmt("voters %s && %s votes%s: got %d joint %d; definition %d joint %d", set_str(s1).c_str(), set_str(s2).c_str(),
                              votes_str(v).c_str(), g1, g, w1, w));
}

void run(Ctx& c) {
  auto lg = make_logger(c);
  // A pool of ids: small ones, or arbitrary 64-bit ones.
  std::vector<uint64_t> pool;
  for (int i = 0; i < 18; i++) {
    uint64_t id = i + 1;
    if (c.h(0) % 4 == 0) id = mix64(c.h(1), i) | 1;
    pool.push_back(id);
  }
  bool nontriv = false;
  for (auto& op : c.t.ops) {
    Rng r(mix64(((uint64_t)op.w[1] << 32) | op.w[2], op.w[3]));
    Set s1, s2;
    size_t lim = op.w[0] % 3 == 0 ? 18 : op.w[0] % 3 == 1 ? 5 : 9;
    size_t n1 = r.below(lim + 1), n2 = r.below(3) == 0 ? 0 : r.below(lim + 1);
    for (size_t i = 0; i < n1; i++) s1.insert(pool[r.below(lim)]);
    for (size_t i = 0; i < n2; i++) s2.insert(pool[r.below(lim)]);
    if (op.w[4] % 16 == 0) {
      // exhaustive over every assignment of {absent, no, yes} and of {absent, 1, 2} to at most five members
      Set all = s1;
      all.insert(s2.begin(), s2.end());
      std::vector<uint64_t> ids(all.begin(), all.end());
      if (ids.size() > 5) ids.resize(5);
      int total = 1;
      for (size_t i = 0; i < ids.size(); i++) total *= 3;
      for (int k = 0; k < total; k++) {
        Votes v;
        Acks a;
        int x = k;
        for (auto id : ids) {
          if (x % 3) { v[id] = x % 3 == 2; a[id] = x % 3; }
          x /= 3;
        }
        check_votes(c, s1, s2, v);
        check_acks(c, s1, s2, a);
      }
      c.label("exhaustive-assignments");
    }
    Acks acks;
    Votes votes;
    uint64_t mode = r.below(4);
    for (auto id : pool) {
      if (r.below(4) != 0)
        acks[id] = mode == 0 ? r.below(4) : mode == 1 ? r.below(100) : mode == 2 ? UINT64_MAX - r.below(5) : r.next();
      uint64_t y = r.below(4);
      if (y) votes[id] = y >= 2;
    }
    check_acks(c, s1, s2, acks);
    check_votes(c, s1, s2, votes);
    // symmetric in its halves
    MapAckIndexer ix(acks);
    uint64_t base = JointConfig(s1, s2).CommittedIndex(ix);
    if (JointConfig(s2, s1).CommittedIndex(ix) != base) c.fail("symmetry", "joint commit index depends on the order of the halves");
    VoteState bv = JointConfig(s1, s2).VoteResult(votes);
    if (JointConfig(s2, s1).VoteResult(votes) != bv) c.fail("symmetry", "joint vote result depends on the order of the halves");
    // monotone: more acknowledged / a changed mind towards yes
    uint64_t k = pool[r.below(pool.size())];
    Acks a2 = acks;
    a2[k] = a2.count(k) ? a2[k] + std::min<uint64_t>(r.below(50), UINT64_MAX - a2[k]) : r.below(100);
    if (JointConfig(s1, s2).CommittedIndex(MapAckIndexer(a2)) < base) c.fail("monotone", "more acknowledged, lower commit position");
    Votes v2 = votes;
    v2[k] = true;
    if (rank(JointConfig(s1, s2).VoteResult(v2)) < rank(bv)) c.fail("monotone", "more grants, worse outcome");
    // non-members have no influence
    Acks a3;
    Votes v3;
    for (auto id : pool) if (s1.count(id) || s2.count(id)) {
      if (acks.count(id)) a3[id] = acks[id];
      if (votes.count(id)) v3[id] = votes[id];
    }
    if (JointConfig(s1, s2).CommittedIndex(MapAckIndexer(a3)) != base) c.fail("non-member", "acknowledgement of a non-member counted");
    if (JointConfig(s1, s2).VoteResult(v3) != bv) c.fail("non-member", "vote of a non-member counted");
    // the same arithmetic through the tracker: learners and strangers are tracked but have no say
    ProgressTracker trk(10);
    ProgressTracker::Config cfg;
    cfg.voters = JointConfig(s1, s2);
    ProgressMap pm;
    Acks am;
    Votes active, rec;
    for (auto id : pool) {
      bool voter = s1.count(id) || s2.count(id);
      if (!voter && r.below(2)) continue;
      uint64_t match = acks.count(id) ? acks[id] : 0;
      bool act = r.below(2);
      auto pr = std::make_shared<Progress>(lg, 1, match, 10, !voter, act);
      if (!voter) cfg.learners.insert(id);
      pm[id] = pr;
      am[id] = match;
      if (voter) active[id] = act;
    }
    trk.SetConfig(cfg);
    trk.SetProgressMap(pm);
    for (auto& p : votes) {
      trk.RecordVote(p.first, p.second);
      rec[p.first] = p.second;
      if (r.below(3) == 0) trk.RecordVote(p.first, !p.second);  // the first answer counts
    }
    if (!s1.empty() || !s2.empty()) {
      uint64_t want = std::min(ref_committed(s1, am), ref_committed(s2, am));
      if (trk.Committed() != want) c.fail("tracker-commit", fmt("tracker commit %llu, definition %llu", (unsigned long long)trk.Committed(), (unsigned long long)want));
    }
    auto [gr, rj, res] = trk.TallyVotes();
    if (res != ref_vote2(s1, s2, rec)) c.fail("tracker-votes", "tally result differs from the definition");
    int yes = 0, no = 0;
    for (auto& p : rec) if (s1.count(p.first) || s2.count(p.first)) (p.second ? yes : no)++;
    if (gr != yes || rj != no) c.fail("tracker-votes", "tally counts differ");
    if (trk.QuorumActive() != (ref_vote2(s1, s2, active) == kVoteWon)) c.fail("tracker-active", "quorum activity differs from the definition");
    bool single = s1.size() == 1 && s2.empty();
    if (trk.IsSingleton() != single) c.fail("singleton", "IsSingleton differs");
    Set u = s1;
    u.insert(s2.begin(), s2.end());
    if (JointConfig(s1, s2).IDs() != u) c.fail("ids", "IDs is not the union");
    auto vn = trk.VoterNodes();
    if (vn != std::vector<uint64_t>(u.begin(), u.end())) c.fail("ids", "VoterNodes is not the sorted union");
    auto ln = trk.LearnerNodes();
    if (ln != std::vector<uint64_t>(cfg.learners.begin(), cfg.learners.end())) c.fail("ids", "LearnerNodes differs");
    trk.ResetVotes();
    if (std::get<2>(trk.TallyVotes()) != ref_vote2(s1, s2, Votes())) c.fail("tracker-votes", "votes survive a reset");
    c.events += 12;
    if (s1.size() >= 3 && s2.size() >= 2 && s1 != s2) { nontriv = true; c.label("joint-trials"); }
    if (s1.size() > 7) c.label("more-than-7-voters");
    c.mix(base);
    c.mix(bv);
    if (c.summary.empty()) c.summary = "voters " + set_str(s1) + " && " + set_str(s2) + " acks" + acks_str(acks) + " votes" + votes_str(votes);
  }
  c.nontrivial = nontriv;
}
}  // namespace

PBT_CHECK_DEF("C24", run, 10, 80, 50000, 3000000,
              "each case: up to 80 random voter-set pairs (0-18 members, small or arbitrary 64-bit ids) with random partial acknowledgements and votes, some enumerated exhaustively; compared with the counting definition, plus monotonicity, symmetry and non-member relations; non-trivial: contains a genuine two-set configuration with 3+ and 2+ members", "plain");
