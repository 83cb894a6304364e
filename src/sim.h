// Deterministic cluster simulator: real craft::RawNodes, an explicit network, clock, disks and applications, and the
// reference state against which the oracles of the cluster properties judge every call.
#pragma once
#include <deque>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

#include "refconf.h"
#include "src/rawnode.h"
#include "src/storage.h"
#include "unit.h"

namespace sim {

using craft::RaftStateType;
using pbt::Ctx;
using pbt::fmt;
using pbt::mix64;
using pbt::Op;
using pbt::Rng;

uint64_t ehash(uint64_t idx, uint64_t term, int type, const std::string& data);
inline uint64_t ehash(const raftpb::Entry& e) { return ehash(e.index(), e.term(), (int)e.type(), e.data()); }

struct E {
  uint64_t idx, term;
  int type;
  std::shared_ptr<const std::string> data;
  uint64_t h;
};
E mk_e(const raftpb::Entry& e);
craft::EntryPtr to_entry(const E& e);

struct HS {
  uint64_t term = 0, vote = 0, commit = 0;
  bool operator==(const HS& o) const { return term == o.term && vote == o.vote && commit == o.commit; }
};

// What a node has on disk: entries (off, off+ents.size()], the newest snapshot, the hard state.
struct Disk {
  uint64_t off = 0, offterm = 0;
  std::deque<E> ents;
  uint64_t snap = 0;
  HS hs;
  uint64_t last() const { return off + ents.size(); }
  const E* at(uint64_t i) const { return i > off && i <= last() ? &ents[i - off - 1] : nullptr; }
  bool empty() const { return off == 0 && ents.empty() && hs == HS(); }
};

class SimStorage : public craft::MemoryStorage {
 public:
  explicit SimStorage(std::shared_ptr<craft::Logger> l) : MemoryStorage(l) {}
  std::tuple<raftpb::HardState, raftpb::ConfState, craft::Status> InitialState() const override {
    return std::make_tuple(hs, cs, craft::Status::OK());
  }
  // A read of the log is the moment at which another thread of the application gets to compact.
  std::tuple<craft::EntryPtrs, craft::Status> Entries(uint64_t lo, uint64_t hi, uint64_t max) override { tick(1); return MemoryStorage::Entries(lo, hi, max); }
  std::tuple<uint64_t, craft::Status> Term(uint64_t i) override { tick(2); return MemoryStorage::Term(i); }
  std::tuple<uint64_t, craft::Status> LastIndex() override { tick(); return MemoryStorage::LastIndex(); }
  std::tuple<uint64_t, craft::Status> FirstIndex() override { tick(); return MemoryStorage::FirstIndex(); }
  std::tuple<craft::SnapshotPtr, craft::Status> SnapShot() override {
    tick();
    if (unavailable)
      return std::make_tuple(craft::SnapshotPtr(), craft::Status::Error(craft::kErrSnapshotTemporarilyUnavailable));
    return MemoryStorage::SnapShot();
  }
  raftpb::HardState hs;
  raftpb::ConfState cs;
  bool unavailable = false;
  int fuse = 0, only = 0;
  std::function<void()> bang;

 private:
  void tick(int what = 0) {
    if (!fuse || (only && only != what) || --fuse) return;
    bang();  // (fuse is 0: reads made in here do not count)
  }
};

struct Obs {
  uint64_t term = 0, vote = 0, lead = 0, commit = 0, applied = 0, last = 0, lastterm = 0, transferee = 0, snap = 0;
  RaftStateType state = RaftStateType::kFollower;
  size_t nmsgs = 0, nreads = 0;
};

struct PeerM {            // what a leader may assume about one peer, from emitted and delivered messages
  uint64_t pend_snap = 0;
  std::deque<uint64_t> out;  // last positions of non-empty appends outstanding while replicating
  int st = -1;
  int probe = 0;
  uint64_t acked = 0;
  int64_t reply = -1;     // leader tick count at the last reply
  bool fresh = true;
};
struct LeadM {            // reference state of one leadership
  uint64_t term = 0;
  uint64_t last = 0, lasth = 0;
  int64_t start_tick = 0, conf_tick = 0, xfer_tick = -1000000, xfer_prev = -1000000;  // last two transfers started
  std::map<uint64_t, PeerM> peers;
  uint64_t u_lo = 0, u_hi = 0;
  std::map<uint64_t, uint64_t> own;  // accepted and not yet applied payload, by position
  uint64_t transferee = 0;
  int64_t transfer_tick = 0;
  bool had_transfer = false;
};

enum CauseKind { kNoop, kStart, kTick, kStep, kPropose, kConf, kApply, kAdvance, kCampaign, kTransfer, kRead, kTake, kReport };
struct Cause {
  CauseKind k = kNoop;
  const raftpb::Message* m = nullptr;   // kStep: the message (a private copy)
  uint64_t arg = 0;                     // transfer target, report target
  bool ok = true;                       // verdict of the call
  const std::vector<std::string>* props = nullptr;  // proposed payloads (normal entries), or null
  uint64_t payload_max = 0;             // upper bound of the payload
  int nents = 0;
  bool has_conf = false;
};

struct Node {
  uint64_t id = 0;
  int ix = 0;
  bool up = false, boot = false;        // boot: started with Start(peers)
  uint64_t inc = 0;                     // incarnation
  std::unique_ptr<craft::RawNode> rn;
  std::shared_ptr<SimStorage> st;
  Disk live, durable;
  uint64_t race = 0;                    // seed: a call soon meets a compaction half way
  int race_left = 0;                    // in one of that many calls
  uint64_t race_i = 0, race_o = 0;      // its snapshot and first positions, 0: none
  // application
  RefConf conf;                         // membership this raft instance has been told about
  uint64_t app = 0, appdig = 0;         // applied position and digest
  uint64_t adv_applied = 0;             // applied position acknowledged to the library
  // batch in progress
  std::shared_ptr<craft::Ready> rd;
  int phase = 0;                        // 0 none, 1 taken, 2 persisted, 3 sent (applying)
  size_t apply_pos = 0;
  bool snap_applied = false;
  std::string rd_ser;
  bool stepped = false;                 // other calls happened since the batch was taken
  uint64_t cursor = 0;                  // last position handed out for application
  HS prev_hs;                           // last acknowledged
  uint64_t prev_lead = 0;
  RaftStateType prev_state = RaftStateType::kFollower;
  std::vector<uint64_t> gen;            // hashes of messages generated since the last take
  Obs o;
  int64_t ticks = 0;
  int64_t contact = 1 << 30;            // ticks since genuine leader contact
  std::set<uint64_t> pregrants;
  std::map<uint64_t, std::set<uint64_t>> grants;
  LeadM lm;
  uint64_t pcommit = 0, pterm = 0;      // committed by this node as leader, for registration once durable
  RefConf pconf;
  // kept status report
  std::unique_ptr<craft::NodeStatus> kept;
  std::string kept_ser;
};

struct Pkt {
  uint64_t from, to;
  std::shared_ptr<const raftpb::Message> m;
  uint64_t inc, term;
  bool dup = false;
};
struct Report {
  uint64_t from, to, inc, term;
  bool ok;
};
struct ReadReq {
  uint64_t node, commit;
  bool answered = false;
};
struct Prop {
  bool errored = false, accepted = false;
  int commits = 0;
};

struct Opts {
  bool modeA = true;
  int n = 3, learners = 0, spares = 0;
  int et = 10, hb = 1;
  uint64_t max_msg = ~0ull, max_ready = 0, max_unc = 0;
  int inflight = 256;
  bool pre_vote = false, check_quorum = false, lease = false, nofwd = false;
  bool confs = false, removals = false, interleave = false, fifo = true, partial = false, unknown_id = false;
  bool faults = true;
  bool grand = false;            // many and large entries, many reads at once, wide windows
  int auto_mode = 2;
  uint64_t base_idx = 0, base_term = 0;
  uint64_t id_base = 1, id_step = 1;
};

struct Profile {                 // per-property bias
  std::map<int, int> w;          // op kind -> weight
  int pre_vote = -1, check_quorum = -1, confs = -1, removals = -1, learners = -1;
  bool small_limits = false, small_window = false, unc = false;
  int big = 0;                   // more nodes
};

enum OpKind {
  oDeliver, oRound, oTick, oTickAll, oProcess, oPhase, oPropose, oBatch, oCampaign, oElect, oCrash, oRestart, oPartition,
  oHeal, oDrop, oDup, oCompact, oConf, oTransfer, oRead, oReport, oSnapFlag, oStatus, oDepose, oLaggard, oStale, oCrashAll,
  oBurst, oForceRound, oGate, oHold, oRelease, oSplit, oSnapRace, oNumOps
};

class World {
 public:
  World(Ctx& c, const Profile& p);
  ~World();
  void start();
  void run_ops(size_t from, size_t to);
  void apply_op(const Op& op);

  // macros
  void process(Node& n);                 // finish a batch in progress and handle everything pending
  void phase_step(Node& n, Rng& g);
  void take(Node& n, Rng& g);
  void persist(Node& n, bool lucky);
  void send(Node& n);
  void apply_some(Node& n, size_t k);
  void advance(Node& n);
  bool deliver_one(size_t i);
  void pump(int iters);                  // process and deliver until quiet
  void tick(Node& n);
  void calm_round(bool with_tick);
  void heal();
  void settle(int rounds);
  Node* leader();                        // the up leader of the highest term
  bool settled(std::string* why = nullptr);

  void crash(Node& n, Rng& g, int mode);
  void restart(Node& n, Rng& g);
  bool propose(Node& n, std::vector<std::string> datas);
  bool propose_conf(Node& n, Rng& g);
  craft::ConfChangeI make_conf(Node& n, Rng& g);
  void propose_mixed(Node& n, Rng& g);
  void op_split(const Op& op, Rng& g);
  void op_snap_race(const Op& op, Rng& g);
  void release(bool direct);
  void check_ack(Node& n, const raftpb::Message& m);
  void propose_cc(Node& n, const craft::ConfChangeI& cc);
  void transfer(Node& n, uint64_t to);
  void read(Node& n);
  void campaign(Node& n);
  void compact(Node& n, Rng& g, int style);
  void step(Node& n, std::shared_ptr<raftpb::Message> m);
  void flush_reports();
  void drop(const Pkt& p, Rng& g);
  void status(Node& n, Rng& g);
  std::string payload(Rng& g, int cls);
  void render(Node& n);                  // C31: textual rendering
  void gate(Node& n, Rng& g);            // C30: an out-of-place message

  // scenario checks
  bool electable();
  void finish_recovery();                // C15
  void finish_autoleave();               // C10
  void scenario_rejoin(Rng& g);          // C16
  void scenario_transfer(Rng& g);        // C18
  void scenario_cut_leader(Rng& g);      // C17
  uint64_t exchange(uint64_t cap);       // delivers in order until nothing is left to do; the number of deliveries
  void scenario_messages(Rng& g);        // C36

  // reference state
  Ctx& c;
  Profile prof;
  Opts opt;
  std::shared_ptr<craft::Logger> logger;
  std::vector<Node> nodes;
  std::map<uint64_t, int> ixof;
  std::deque<Pkt> net, held;
  std::vector<Report> reports;
  std::vector<std::vector<char>> blocked;
  std::deque<E> glog;                    // committed log after the base
  std::vector<uint64_t> gterm;           // term in which each was committed
  std::vector<RefConf> gconf;            // membership after base + i entries
  std::vector<uint64_t> gdig;
  uint64_t gbase = 0;
  std::map<uint64_t, uint64_t> leader_of, leader_msg;
  std::map<std::pair<uint64_t, uint64_t>, uint64_t> voted;       // (node, term) -> candidate, durable or announced
  std::map<std::pair<uint64_t, uint64_t>, std::pair<uint64_t, uint64_t>> seen;  // (idx, term) -> (hash, prev term)
  std::map<std::string, Prop> props;
  std::map<std::string, ReadReq> reads;
  int huge = 0;  // payloads beyond 64 KB so far
  uint64_t next_prop = 1, next_read = 1;
  bool in_rejoin = false;
  uint64_t now = 0;

  uint64_t glast() const { return gbase + glog.size(); }
  const E* gat(uint64_t i) const { return i > gbase && i <= glast() ? &glog[i - gbase - 1] : nullptr; }
  bool gterm_at(uint64_t i, uint64_t* t) const;
  const RefConf* gconf_at(uint64_t i) const { return i >= gbase && i <= glast() ? &gconf[i - gbase] : nullptr; }
  uint64_t gdig_at(uint64_t i) const { return gdig[i - gbase]; }

  Node* by_id(uint64_t id) {
    auto it = ixof.find(id);
    return it == ixof.end() ? nullptr : &nodes[it->second];
  }
  bool owns(const char* props_) const;
  void fail(const char* props_, const char* tag, const std::string& msg);
  void tr(const char* f, ...) __attribute__((format(printf, 2, 3)));
  bool has_confs_unapplied(Node& n);
  void maintain(Rng& g);

 private:
  struct View {                          // the in-memory log of a node, from raw parts
    uint64_t base = 0, baseterm = 0;     // first position not available
    craft::EntryPtrs unst;
    uint64_t uoff = 0;
    bool snap = false;
    const Disk* d = nullptr;
    uint64_t last() const { return !unst.empty() ? unst.back()->index() : snap ? base : d->last(); }
    bool term(uint64_t i, uint64_t* t) const;
    bool hash(uint64_t i, uint64_t* h) const;
    bool get(uint64_t i, E* e) const;
  };
  View view(Node& n);
  Obs read_obs(Node& n, const View& v);
  Obs read_obs(Node& n) { return read_obs(n, view(n)); }
  template <class F>
  void call(Node& n, Cause& cause, F f) {
    c.events++;
    before(n, cause);
    if (n.race) arm(n, cause);
    try {
      f();
    } catch (const pbt::Fatal& x) {
      tr("HALT %s", x.msg.c_str());
      c.fail("halt", fmt("node %llu halted with a fatal error in a legal history: ", (unsigned long long)n.id) + x.msg +
                         fmt(" (operation %llu)", (unsigned long long)now));
    }
    observe(n, cause);
    if (n.race_i) race_done(n);
  }
  void race(Node& n, Rng& g);
  void unreachable(Node& n, uint64_t to);
  void arm(Node& n, const Cause& cause);
  void race_done(Node& n);
  void before(Node& n, Cause& cause);
  void observe(Node& n, Cause& cause);
  void gen_msg(Node& n, const raftpb::Message& m, const Obs& o, const Obs& x, View& v, Cause& cause);
  void reg_leader(Node& n);
  void reg_commit(Node& n);
  void push_global(const E& e, uint64_t term);
  void check_conf(Node& n, const char* when);
  bool durable_quorum(Node& n, const RefConf& conf, uint64_t idx, uint64_t h, bool self_counts);
  bool app_conf(RefConf& conf, int type, const std::string& data);
  void leader_appends(Node& n, const Obs& o, const Obs& x, View& v, Cause& cause);
  void leader_peers(Node& n, const Obs& o, const Obs& x, View& v, Cause& cause, const std::vector<const raftpb::Message*>& fresh);
  std::string ser_ready(const craft::Ready& r);
  void check_snapshot(const raftpb::Snapshot& s, const char* where, Node& n);
  void conf_applied(Node& n);
  void instantiate(Node& n, bool bootstrap, uint64_t applied, const RefConf& conf);
  void to_net(Node& n, const raftpb::Message& m);
  Node& pick_up(uint32_t w);
  Node& pick_leaderish(uint32_t w);
};

std::string full_state(craft::RawNode& rn);
void run_world(Ctx& c, const Profile& p);
const Profile& profile_for(const std::string& prop);

}  // namespace sim
