#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only because JSONL is unpleasant to edit by hand)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

H = ["histories", "schedules", "crash_points", "fault_sequences", "configurations"]
CL = ("every history of a 1-7 node cluster driven through the public node API: proposals, membership changes, campaigns, "
      "leadership transfers, reads, snapshots and compaction, ticks, message loss / duplication / reordering / partition, "
      "crash and restart at every point of the persist-send-apply-acknowledge cycle, and every option combination")
SC = "The ported unit tests drive a few scripted scenarios of at most a handful of messages, almost always loss-free, without crashes or restarts under load and with one option set at a time; "

prop("C01", "At most one leader per term",
 "In any history, no two distinct nodes are ever leader of the same term, and leader-only messages of one term all originate from one node. A node that has been leader of a term never sees another node act as leader of that term, including after it crashed and restarted.",
 H, CL, SC + "election safety needs every interleaving of vote traffic, crashes and membership changes.",
 ["src/raft.cc", "src/tracker/tracker.cc", "src/quorum/joint.cc", "src/quorum/majority.cc"],
 [("one vote per term, granted only when no leader is known", "src/raft.cc Raft::Step"), ("majority tally", "src/raft.cc Raft::Poll"), ("term bump on campaign", "src/raft.cc Raft::BecomeCandidate")],
 ["RawNode::GetBasicStatus", "Ready.messages", "Ready.soft_state"],
 [("term/vote", "current term and the vote cast in it", "src/raft.h")])

prop("C02", "Replicas commit and apply one agreed sequence of entries",
 "For every log position, all nodes that ever report an entry as committed or hand one to the application there report the same entry (same term, kind and bytes), across crashes, restarts, snapshots and membership changes. No node halts with a fatal error while it is driven only through legal API calls.",
 H, CL, SC + "agreement is a statement about all nodes over all histories, not about one scripted exchange.",
 ["src/raft.cc", "src/log.cc", "src/log_unstable.cc", "src/rawnode.cc"],
 [("commit by quorum of current-term copies", "src/raft.cc Raft::MaybeCommit"), ("follower consistency check", "src/log.cc RaftLog::MaybeAppend"), ("ordered delivery", "src/log.cc RaftLog::NextEnts")],
 ["Ready.committed_entries", "Ready.hard_state"])

prop("C03", "A committed entry is never lost by a later leader",
 "Once an entry has been committed by the leader of some term, every node that becomes leader of a later term holds exactly that entry at that position (or a snapshot covering it). Crashing and restarting any set of nodes that had acknowledged their writes never makes a committed entry disappear.",
 H, CL, SC + "leader completeness involves elections after arbitrary log divergence, which tests sample by a handful of fixed logs.",
 ["src/raft.cc", "src/log.cc"],
 [("votes only for up-to-date logs", "src/log.cc RaftLog::IsUpToData"), ("only current-term entries are counted for commit", "src/log.cc RaftLog::MaybeCommit"), ("acks only after persisting", "src/rawnode.cc NewReady")],
 ["RawNode::GetBasicStatus", "Ready.entries", "Ready.committed_entries"])

prop("C04", "Logs with the same position and term agree on the whole prefix",
 "If the logs of two nodes contain an entry with the same position and term, the two entries are identical and so are all entries that precede them. A leader only ever appends to its own log; it never overwrites or removes an entry of it during its term.",
 H, CL, SC + "log matching is an invariant over every pair of logs reachable under loss, reordering and crashes.",
 ["src/raft.cc", "src/log.cc", "src/log_unstable.cc"],
 [("previous position/term check on append", "src/log.cc RaftLog::MaybeAppend"), ("conflict search", "src/log.cc RaftLog::FindConflict"), ("leader append", "src/raft.cc Raft::AppendEntry")],
 ["Ready.entries", "Ready.messages"])

prop("C05", "Terms, commit positions and votes only move forward, durably",
 "A node's term and commit position never decrease - not over time within a run, not in the sequence of states it asks to be persisted, and a restart resumes from what was persisted - and it grants its vote to at most one candidate per term, never to one whose log is behind its own. Every grant is part of the state handed out for persistence no later than the message that announces it.",
 H, CL, SC + "double voting needs a crash or a re-delivered request at a particular point of the vote cycle.",
 ["src/raft.cc", "src/rawnode.cc"],
 [("vote recording", "src/raft.cc Raft::Step"), ("hard state diffing", "src/rawnode.cc NewReady"), ("reload on restart", "src/raft.cc Raft::LoadState")],
 ["Ready.hard_state", "Ready.messages", "RawNode::GetBasicStatus"])

prop("C06", "Commit needs a quorum of durable copies of a current-term entry",
 "Whenever a leader advances its commit position, the entry at the new position is of the leader's own term, and a majority of every active voter set holds that very entry on stable storage (the leader's own copy may still be on its way there). Replies from learners, removed nodes, earlier terms or duplicated messages never stand in for a missing copy.",
 H, CL, SC + "it relates one node's in-memory counters to the stable storage of all others at every step.",
 ["src/raft.cc", "src/tracker/tracker.cc", "src/tracker/progress.cc", "src/quorum/majority.cc", "src/quorum/joint.cc"],
 [("acknowledged position per peer", "src/tracker/progress.cc Progress::MaybeUpdate"), ("quorum position", "src/tracker/tracker.cc ProgressTracker::Committed"), ("term guard", "src/log.cc RaftLog::MaybeCommit")],
 ["Ready.hard_state", "RawNode::GetBasicStatus", "application storage of every node"])

prop("C07", "Committed entries are delivered in order, once, without gaps",
 "Within one run of a node, the entries (and snapshots) it hands out for application form one gapless ascending sequence starting right after the position given at start, each delivered exactly once, never before it is committed and on (or in the same batch going to) the node's stable storage. Batches respect the configured byte limit except that a single entry is always delivered, and everything committed is eventually offered.",
 H, CL, SC + "gaps and repeats depend on how commits, truncations, snapshots, pagination and acknowledgements interleave.",
 ["src/log.cc", "src/rawnode.cc", "src/raft.cc"],
 [("next entries window", "src/log.cc RaftLog::NextEnts"), ("applied cursor", "src/raft.cc Raft::Advance"), ("size limiting", "src/util.cc Util::LimitSize")],
 ["Ready.committed_entries", "Ready.snapshot", "RawNode::HasReady"])

prop("C08", "Each work batch is complete, stable and safe to persist before sending",
 "Every message in a work batch is backed by the state the same or an earlier batch asks to persist: granted votes, candidacies, acknowledged positions and terms are all covered, and the batch demands a synchronous write exactly when it carries entries or a changed term or vote. A batch is offered exactly when there is something to do, peeking at it changes nothing, its contents do not change until it is acknowledged, and acknowledged parts are not offered again.",
 H, CL, SC + "persist-before-send must hold for each of the thousands of batch shapes that arise when several steps coalesce.",
 ["src/rawnode.cc", "src/raft.cc", "src/log_unstable.cc"],
 [("batch construction", "src/rawnode.cc NewReady"), ("batch presence", "src/rawnode.cc RawNode::HasReady"), ("sync flag", "src/rawnode.cc MustSync"), ("stable cursor", "src/log_unstable.cc Unstable::StableTo")],
 ["RawNode::GetReady", "RawNode::ReadyWithoutAccept", "RawNode::HasReady", "RawNode::Advance"])

prop("C09", "Quorum-confirmed reads are linearizable",
 "In the default read mode, the position returned for a read request is never below the highest position committed anywhere in the cluster when the request was made, whatever leader changes, partitions, crashes or membership changes happen in between. Each answer carries the request's own token, is delivered only at the node that asked, and at most once per request.",
 H, CL, SC + "stale reads need a deposed or removed leader that still answers, at a particular moment.",
 ["src/raft.cc", "src/read_only.cc"],
 [("quorum confirmation round", "src/read_only.cc ReadOnly::RecvAck"), ("no answer before a commit in the current term", "src/raft.cc Raft::CommittedEntryinCurrentTerm"), ("request queue", "src/read_only.cc ReadOnly::Advance")],
 ["Ready.read_states"])

prop("C10", "Membership is a function of the applied log; one change at a time",
 "After applying the same prefix of the log (directly, from a snapshot, or after a restart), every node works with the same membership, equal to what the sequence of applied changes prescribes, and ends up neither with extra nor with missing members. A leader never appends a second membership change while one is unapplied, appends only a leave operation while two voter sets are active, and a configuration marked to leave automatically is left without intervention once its entry is applied by a working leader. A change proposed to a leader that has applied its whole log is taken up, not replaced by an empty entry.",
 H, CL, SC + "membership tests apply scripted changes on one node; concurrent proposals, leader changes and restarts around a change are not covered.",
 ["src/raft.cc", "src/confchange/confchange.cc", "src/confchange/restore.cc", "src/rawnode.cc"],
 [("pending change guard", "src/raft.cc Raft::StepLeader"), ("applying changes", "src/raft.cc Raft::ApplyConfChange"), ("auto leave", "src/raft.cc Raft::Advance")],
 ["RawNode::ApplyConfChange", "RawNode::GetStatus", "Ready.entries"])

prop("C11", "Decisions use majorities of every active voter set; others have no say",
 "A node becomes leader only with grants, for that very term, from a majority of each voter set of the membership it has applied; a pre-candidate starts a real election only with such a majority of pre-grants. Learners, removed nodes and nodes not yet added never start elections and never count towards any quorum, and a node that still has to apply a committed membership change does not start an election on its own.",
 H, CL, SC + "it must hold at every mix of applied and unapplied membership changes across nodes.",
 ["src/raft.cc", "src/tracker/tracker.cc", "src/quorum/joint.cc"],
 [("joint tally", "src/quorum/joint.cc JointConfig::VoteResult"), ("promotability check", "src/raft.cc Raft::Promotable"), ("voter list", "src/tracker/tracker.cc ProgressTracker::VoterNodes")],
 ["Ready.soft_state", "Ready.messages"])

prop("C12", "Proposals are committed intact, at most once, or reported as dropped",
 "Every non-empty normal entry that is ever committed carries exactly the bytes of some proposal, each proposal is committed at most once when the network does not duplicate proposals, and a proposal for which the leader returned an error is never committed. Entries proposed together at the leader stay together and in order. A proposal that is neither appended nor passed on to a leader is reported as dropped; passing on keeps every entry as it was, and does not happen where forwarding is disabled.",
 H, CL, SC + "corruption, duplication or resurrection of a proposal depends on retransmission, truncation and leader changes.",
 ["src/raft.cc", "src/rawnode.cc", "src/util.cc", "src/log.cc"],
 [("append of proposals", "src/raft.cc Raft::AppendEntry"), ("forwarding", "src/raft.cc Raft::StepFollower"), ("copying entries in and out of messages", "src/util.cc Util::MakeEntries")],
 ["RawNode::Propose", "RawNode::Step", "Ready.committed_entries"])

prop("C13", "Snapshots stand for exactly the log prefix they replace",
 "Whenever a node installs a snapshot, the snapshot's position, term, membership and application state are those of the agreed log at that position, and the node continues from there with exactly the membership and log that follow it. A stale or inapplicable snapshot changes neither log, membership nor applied state, a snapshot never rolls a node back, and none is sent to a peer while an earlier one is pending there.",
 H, CL, SC + "the snapshot tests cover a single transfer; interaction with concurrent appends, compaction, restarts and membership changes is open.",
 ["src/raft.cc", "src/log.cc", "src/log_unstable.cc", "src/storage.cc", "src/confchange/restore.cc"],
 [("restore", "src/raft.cc Raft::Restore"), ("unstable restore", "src/log_unstable.cc Unstable::Restore"), ("fallback to snapshot", "src/raft.cc Raft::MaybeSendAppend")],
 ["Ready.snapshot", "Ready.messages", "RawNode::GetStatus"])

prop("C14", "A restarted node resumes exactly from its stable storage",
 "A node created over the storage it left behind - at any crash point - reports exactly the persisted term, vote, commit position, log and membership, starts as a follower with no leader, has nothing to re-persist, and delivers exactly the committed entries after the applied position it was given.",
 ["crash_points", "histories", "configurations"], "every crash point inside the batch cycle of every cluster history, with the applied position anywhere between the snapshot and the persisted commit position",
 SC + "restart tests use three hand-built storages.",
 ["src/raft.cc", "src/rawnode.cc", "src/log.cc", "src/storage.cc", "src/confchange/restore.cc"],
 [("loading persisted state", "src/raft.cc Raft::New"), ("log construction", "src/log.cc RaftLog::RaftLog"), ("previous state baseline", "src/rawnode.h RawNode::RawNode")],
 ["RawNode::ReStart", "RawNode::GetBasicStatus", "RawNode::HasReady"])

prop("C15", "The cluster recovers once faults stop",
 "From any state reachable by faults and crashes that leaves a quorum of storages intact, once messages are delivered reliably, nodes tick and work batches are processed, the cluster within a bounded number of election timeouts has one leader, accepts a new proposal, and every member catches up to and applies it. Recovery needs no manual intervention beyond reporting the fate of snapshots as documented.",
 H, "every fault history (no removals of voters) followed by a fault-free phase of bounded length, over all option combinations; where voters were demoted to learners, recovery is asked for unless a demoted node that still holds the longest log is needed for a vote, or (without check-quorum and pre-vote) a node that missed its own demotion does not know the leader's membership",
 SC + "no test runs a randomised recovery; a stuck flow-control, snapshot or transfer state is only reachable through particular histories.",
 ["src/raft.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc", "src/log.cc"],
 [("probing and back-off", "src/tracker/progress.cc Progress::MaybeDecrTo"), ("resume on heartbeat reply", "src/raft.cc Raft::StepLeader"), ("randomised timeouts", "src/raft.cc Raft::ResetRandomizedElectionTimeout")],
 ["RawNode::GetBasicStatus", "Ready.committed_entries"])

prop("C16", "With pre-vote, nodes without quorum support do not disturb the cluster",
 "With pre-vote enabled everywhere, a node raises its own term by campaigning only after a majority of every voter set has granted it a pre-vote for that next term (or a leadership transfer told it to), so a node cut off from a quorum keeps its term. A pre-vote request never changes the receiver's term, vote or known leader, and a healthy leader stays in office at the same term when a lagging isolated node comes back.",
 H, CL + ", all with pre-vote on", SC + "the pre-vote tests use three scripted partitions.",
 ["src/raft.cc"],
 [("pre-candidacy", "src/raft.cc Raft::BecomePreCandidate"), ("pre-vote handling", "src/raft.cc Raft::Step"), ("promotion to candidate", "src/raft.cc Raft::StepCandidate")],
 ["RawNode::GetBasicStatus", "Ready.messages"])

prop("C17", "Quorum checking: isolated leaders step down, live leaders keep their lease",
 "With quorum checking on, a leader that has heard from no quorum for two full election timeouts is no longer leader, and one that hears from a quorum in every election timeout is never deposed by the check. A node that heard from a leader less than an election timeout ago (and any leader) ignores vote and pre-vote requests of other nodes at higher terms completely, unless they stem from a leadership transfer.",
 H, CL + ", all with quorum checking on", SC + "lease tests check one request at one tick.",
 ["src/raft.cc", "src/tracker/tracker.cc"],
 [("periodic check", "src/raft.cc Raft::TickHeartbeat"), ("activity flags", "src/tracker/tracker.cc ProgressTracker::QuorumActive"), ("lease test", "src/raft.cc Raft::Step")],
 ["RawNode::GetBasicStatus", "Ready.messages"])

prop("C18", "Leadership transfer is safe, bounded and effective",
 "While a transfer is pending the leader refuses new proposals, tells the target to campaign only when the target's log has been confirmed to hold everything the leader has, and gives up after at most one election timeout, after which it accepts proposals again. A transfer to an up-to-date or catching-up reachable voter makes it leader when messages flow; a transfer to a learner or to an unknown node changes nothing, and one to the leader itself at most cancels a pending one. At a leader that remains a voter, a membership change ends a pending transfer exactly when it leaves the target without a vote; otherwise only a further request, the end of the timeout or of the leadership does.",
 ["histories", "schedules", "fault_sequences", "configurations"], "every history containing transfer requests made at the leader or forwarded through followers, with loss, crashes and membership changes around them",
 SC + "transfer tests script about fifteen single-transfer scenarios on loss-free networks.",
 ["src/raft.cc"],
 [("transfer handling", "src/raft.cc Raft::StepLeader"), ("abort", "src/raft.cc Raft::TickHeartbeat"), ("forced campaign", "src/raft.cc Raft::StepFollower")],
 ["RawNode::TransferLeader", "RawNode::GetBasicStatus", "Ready.messages"])

prop("C19", "Replication traffic respects window, size and probing limits",
 "Every append message carries a contiguous run of the sender's own log right after the stated previous entry and commit position, and its entries stay within the configured byte limit unless it is a single entry. At most the configured number of non-empty append messages to one peer is outstanding, a peer being probed gets at most one non-empty append per heartbeat exchange, and a peer with a pending snapshot gets no appends until the snapshot's fate is known. A leader told that a snapshot reached the peer goes on probing right after it, told that it failed or that a replicating peer is unreachable it probes from right after the peer's confirmed position.",
 H, CL, SC + "flow-control tests drive one leader and one follower through a fixed order of calls.",
 ["src/raft.cc", "src/tracker/progress.cc", "src/tracker/inflights.cc", "src/util.cc"],
 [("append construction", "src/raft.cc Raft::MaybeSendAppend"), ("window", "src/tracker/inflights.cc"), ("pausing", "src/tracker/progress.cc Progress::IsPaused")],
 ["Ready.messages"])

prop("C20", "The uncommitted-size limit admits and refuses exactly the right proposals",
 "A leader refuses a non-empty proposal if and only if it already has accepted payload that is not yet applied and the proposal would push the total over the configured limit; empty payloads and the first proposal after the backlog drained are always admitted. Applying entries (its own or inherited ones, down to an empty count) or losing leadership gives quota back, so the limit can never block a leader permanently.",
 ["histories", "inputs", "configurations"], "every sequence of proposals of arbitrary sizes (batches, membership changes, empty payloads), acknowledgements, elections and applications, for every limit",
 "One test uses a fixed payload and limit; drift of the accounting only shows over sequences mixing batches, leader changes and partial application.",
 ["src/raft.cc", "src/util.cc"],
 [("admission", "src/raft.cc Raft::IncreaseUncommittedSize"), ("release", "src/raft.cc Raft::ReduceUncommittedSize")],
 ["RawNode::Propose", "RawNode::Step"])

prop("C21", "A follower handles any append, heartbeat or snapshot as the protocol says",
 "For every follower log and every protocol-conformant append, heartbeat or snapshot message - including duplicated, delayed and overlapping ones - the resulting log, commit position and reply equal those of a simple reference follower: accepted only if the previous entry matches, truncated only from the first real conflict, commit raised to the smaller of the announced position and the last new entry. A rejection carries a hint from which the leader finds the common prefix without ever skipping it. A snapshot is taken over only if it is ahead of the log's committed part, its membership includes the receiver (as voter of either set or learner) and the log does not already agree with it; it is answered with the resulting position either way.",
 ["inputs", "histories"], "random pairs of divergent legal logs (leader and follower, with snapshots, unstable and compacted parts) and random message sequences derived from them",
 "Table tests list about thirty message/log pairs; the decision depends on log shape, terms, compaction and duplicates in combination.",
 ["src/raft.cc", "src/log.cc", "src/log_unstable.cc", "src/tracker/progress.cc"],
 [("append handling", "src/raft.cc Raft::HandleAppendEntries"), ("conflict hint", "src/log.cc RaftLog::FindConflictByTerm"), ("back-off", "src/tracker/progress.cc Progress::MaybeDecrTo")],
 ["RawNode::Step", "Ready.messages", "Ready.entries"])

prop("C22", "The log behaves like one array over storage plus pending part",
 "Under any sequence of appends, conflict truncations, stable/applied/commit notifications, compactions and snapshot restores, reading positions, terms, ranges (with any size limit), next-to-apply and next-to-persist entries gives what a single in-memory array would give. Ranges handed out earlier never change afterwards.",
 ["programs", "inputs"], "every operation sequence legal for the log's callers, with entry sizes and limits chosen at random",
 "Unit tests exercise each operation from a few fixed states; the storage/pending split makes the state space of sequences large.",
 ["src/log.cc", "src/log_unstable.cc", "src/storage.cc", "src/util.cc"],
 [("two-part log", "src/log.cc RaftLog::Slice"), ("truncate and append", "src/log_unstable.cc Unstable::TruncateAndAppend"), ("stabilisation", "src/log_unstable.cc Unstable::StableTo")],
 ["RaftLog public operations"])

prop("C23", "The bundled storage is a faithful log store and its results are immutable",
 "Under any sequence of appends, snapshots, compactions and state saves, the in-memory storage returns the entries, terms, bounds, hard state, membership and errors that a simple model prescribes, with range reads limited by size but never empty when entries exist. Entries and snapshots it handed out, or was handed, are never altered by later operations.",
 ["programs", "inputs"], "every sequence of storage calls with arguments within and just outside the legal ranges",
 "Each storage test calls one operation on one fixed three-entry state.",
 ["src/storage.cc", "src/storage.h", "src/util.cc"],
 [("append cases", "src/storage.cc MemoryStorage::Append"), ("compaction", "src/storage.cc MemoryStorage::Compact"), ("snapshots", "src/storage.cc MemoryStorage::CreateSnapshot")],
 ["MemoryStorage public operations"])

prop("C24", "Quorum arithmetic equals its definition",
 "For every one- or two-set voter configuration and every assignment of acknowledged positions, the computed commit position is the largest one acknowledged by a majority of each set (unlimited for an empty set); for every assignment of votes the result is won, lost or pending exactly when a majority of every set agrees, some set can no longer agree, or neither. Both are monotone and do not depend on acknowledgements or votes of non-members.",
 ["inputs", "configurations"], "all voter sets up to 9 (and larger random) members per set, overlapping or not, with positions over the full 64-bit range",
 "Table tests list some sixty configurations; the randomised test shares one oracle and covers single sets only.",
 ["src/quorum/majority.cc", "src/quorum/joint.cc", "src/quorum/quorum.h", "src/tracker/tracker.cc"],
 [("majority", "src/quorum/majority.cc"), ("joint", "src/quorum/joint.cc")],
 ["MajorityConfig", "JointConfig", "ProgressTracker tally"])

prop("C25", "Membership changes are computed by the rules or refused without effect",
 "From every reachable membership, every list of single changes applied simply, as entry into a two-set configuration, or as leave yields exactly the membership prescribed by the documented rules, with a tracked peer exactly for each member, learner flags consistent and existing peers' replication state preserved. A change the rules forbid is refused with an error, and neither outcome touches the original configuration.",
 ["programs", "inputs", "configurations"], "every sequence of change lists over up to 8 nodes, all change kinds including unknown and duplicate targets",
 "Data-driven tests cover a few dozen chains; the quick test only checks equivalence of two code paths on one shape.",
 ["src/confchange/confchange.cc", "src/tracker/tracker.h"],
 [("simple", "src/confchange/confchange.cc Changer::Simple"), ("enter", "src/confchange/confchange.cc Changer::EnterJoint"), ("leave", "src/confchange/confchange.cc Changer::LeaveJoint"), ("invariants", "src/confchange/confchange.cc Changer::CheckInvariants")],
 ["Changer public operations"])

prop("C26", "A saved membership restores to the same membership",
 "Describing any reachable membership and restoring it into an empty node gives back an equal membership, with one tracked peer per member and correct learner roles; equality of descriptions ignores order and nothing else.",
 ["inputs", "configurations"], "every valid one- or two-set membership with learners and staged learners, in any listing order",
 "The restore test samples random states from one generator seed and never exercises a whole node.",
 ["src/confchange/restore.cc", "src/raftpb/confstate.cc", "src/tracker/tracker.cc", "src/raft.cc"],
 [("restore", "src/confchange/restore.cc Restore"), ("description", "src/tracker/tracker.cc ProgressTracker::ConfState"), ("comparison", "src/raftpb/confstate.cc")],
 ["Restore", "ProgressTracker::ConfState", "RawNode::New"])

prop("C27", "Membership-change encodings are lossless and malformed text is refused",
 "Converting a membership change between its forms, marshalling it into an entry and decoding it, and printing and parsing its text form are lossless; the choice between simple, automatic-leave and manual-leave transition depends only on the number of changes and the requested mode. Parsing accepts exactly the documented text syntax and reports an error for anything else.",
 ["inputs"], "all membership-change values, and texts generated from the grammar and by mutation of it",
 "Tests parse a handful of well-formed strings and never a malformed number.",
 ["src/raftpb/confchange.cc", "src/raftpb/confchange.h", "src/util.cc"],
 [("conversion", "src/raftpb/confchange.cc ConfChangeI"), ("text form", "src/raftpb/confchange.cc ConfChangesFromString"), ("transition choice", "src/raftpb/confchange.cc EnterJoint")],
 ["ConfChangeI", "ConfChangesFromString", "ConfChangesToString"])

prop("C28", "Per-peer replication progress and window follow their rules for any sizes",
 "Under any sequence of acknowledgements, rejections, sends and state changes, a peer's confirmed position never decreases, the next position stays above it, stale replies are ignored, and pausing follows the state rules. The outstanding-message window behaves as a bounded queue of ascending positions for every capacity, including very large ones, and releasing from an empty window does nothing.",
 ["programs", "inputs", "configurations"], "every legal sequence of window and progress operations, capacities from 1 to the 64-bit maximum",
 "Window tests use capacity ten and a fixed buffer layout.",
 ["src/tracker/inflights.cc", "src/tracker/progress.cc"],
 [("window", "src/tracker/inflights.cc"), ("progress", "src/tracker/progress.cc")],
 ["Inflights", "Progress", "RawNode::WithProgress"])

prop("C29", "Elections and heartbeats are timed as configured",
 "A follower or candidate that hears nothing that resets its clock starts an election no earlier than one and before two configured election timeouts after the last reset, with every wait in that range actually occurring; only genuine leader contact, a cast vote or a change of term or role resets it. A quiesced tick moves that clock and does nothing else. A leader sends every tracked peer a heartbeat each heartbeat interval, whose announced commit position never exceeds what that peer has confirmed.",
 ["histories", "inputs", "configurations"], "every interleaving of ticks with protocol messages for every pair of timeouts",
 "Tests estimate the timeout distribution for one configuration and check one heartbeat.",
 ["src/raft.cc", "src/util.cc"],
 [("election tick", "src/raft.cc Raft::TickElection"), ("heartbeat tick", "src/raft.cc Raft::TickHeartbeat"), ("randomisation", "src/raft.cc Raft::ResetRandomizedElectionTimeout")],
 ["RawNode::Tick", "Ready.messages"])

prop("C30", "Out-of-place input is refused without effect",
 "Messages that only the local node may generate, replies from unknown peers, and messages of an earlier term leave the node's term, vote, log, commit position, role and membership unchanged (an error or at most a reply is the only effect). Invalid options are rejected, defaults are filled in as documented, and bootstrapping a node whose storage is not empty is refused.",
 ["inputs", "histories", "configurations"], "every node state reachable by a short history, combined with every message kind from every sender at earlier terms, and every option tuple",
 "Tests check the local kinds on a fresh node; other states, kinds and the bootstrap guard are not covered.",
 ["src/rawnode.cc", "src/raft.cc", "src/util.cc"],
 [("local and unknown filters", "src/rawnode.cc RawNode::Step"), ("stale term filter", "src/raft.cc Raft::Step"), ("validation", "src/raft.cc Raft::Config::Validate"), ("bootstrap", "src/rawnode.cc RawNode::Bootstrap")],
 ["RawNode::Step", "Raft::Config::Validate", "RawNode::Bootstrap"])

prop("C31", "Legal use never triggers undefined behaviour, and every call terminates",
 "No legal history - cluster operation, storage use, membership change or textual rendering of status and work batches - makes the library read or write out of bounds, use freed memory, overflow signed arithmetic, abort, or loop forever.",
 ["histories", "inputs", "fault_sequences", "configurations"], CL + ", executed under address and undefined-behaviour sanitizers",
 "The tests run without sanitizers and never reach most combinations.",
 ["src/raft.cc", "src/rawnode.cc", "src/log.cc", "src/log_unstable.cc", "src/storage.cc", "src/tracker/inflights.cc", "src/read_only.cc"],
 [("ownership of messages and entries", "src/util.cc Util::MakeEntries"), ("window buffer", "src/tracker/inflights.cc Inflights::Add"), ("batch rendering", "src/raft.cc Ready::String")],
 ["every public call"])

prop("C32", "The bundled storage may be used from several threads",
 "Saving state, appending, snapshotting, compacting and reading the in-memory storage from several threads at once is free of data races, and every read returns a state that some serial order of the calls produces; values returned to one thread are not altered by another.",
 ["schedules", "programs"], "random multi-threaded programs over one storage",
 "All storage tests are single-threaded.",
 ["src/storage.cc", "src/storage.h"],
 [("reader-writer lock", "src/storage.h MemoryStorage::mutex_"), ("copy on snapshot", "src/storage.cc MemoryStorage::CreateSnapshot")],
 ["MemoryStorage public operations"])

prop("C33", "Status reports are accurate copies",
 "The status of a node reports exactly its current term, vote, commit and applied positions, role, known leader, pending transfer target, membership and - on leaders only - the replication progress of every peer. Reports are copies: reading or altering them never influences the node, and later steps do not alter them.",
 ["histories"], CL, SC + "status tests look at one fresh leader.",
 ["src/rawnode.cc", "src/tracker/progress.h", "src/tracker/inflights.h"],
 [("status", "src/rawnode.cc RawNode::GetStatus"), ("visitor", "src/rawnode.cc RawNode::WithProgress"), ("cloning", "src/tracker/progress.h Progress::Clone")],
 ["RawNode::GetStatus", "RawNode::GetBasicStatus", "RawNode::WithProgress"])

prop("C34", "Nodes in one process are independent of each other",
 "Several nodes, or several whole clusters, may live in one process with each node driven by a thread of its own: there is no data race and no influence of one on another - every cluster does, message for message, what it does alone. Batches, entries and messages a node handed out may be read by other threads while the node goes on, its storage may meanwhile be snapshotted and compacted from another thread, and one console logger may serve all of them, printing each line whole, once, and only from the configured level up.",
 ["schedules", "programs"], "random multi-threaded programs: private clusters per thread, one cluster with a thread per node and a helper thread per node, threads sharing one logger",
 "All tests are single-threaded and look at one cluster at a time; hidden shared state shows only when several are driven at once.",
 ["src/util.cc", "src/read_only.cc", "src/raft.cc", "src/raftpb/confchange.cc", "src/logger.cc", "src/storage.cc"],
 [("random source", "src/util.cc Util::gen_"), ("function statics", "src/read_only.cc ReadOnly::RecvAck"), ("logger lock", "src/logger.cc ConsoleLogger::Logv"), ("copies in messages", "src/util.cc Util::MakeMsg")],
 ["RawNode public calls", "Ready", "ConsoleLogger::Log"])

prop("C35", "Every read request is answered by the rule of the chosen mode, exactly once",
 "A leader takes a read - its own or one sent by another node - at its commit position once it has committed an entry of its term (earlier ones wait for that), asks every other voter to confirm its leadership, and answers it together with all earlier pending reads, in order and each with the position it was taken at, as soon as a joint majority has confirmed it or a later one; the last pending read is repeated with every periodic heartbeat. The answer goes to whoever asked, with the same token, exactly once. Where no other voter is needed - also after a membership change - and in lease mode the answer is immediate. A leader that loses its role answers none of the reads it had taken; other nodes pass requests on to the leader they know, or drop them, and hand out answers addressed to them unchanged.",
 ["histories", "inputs", "configurations"], "every sequence of requests, confirmations (late, repeated, from non-voters, for answered or unknown reads), commits, membership changes and role changes at one node, in both read modes and with joint memberships",
 "The read tests send one request through a fixed three-node exchange in each mode.",
 ["src/raft.cc", "src/read_only.cc", "src/rawnode.cc"],
 [("pending reads", "src/read_only.cc ReadOnly::Advance"), ("confirmation", "src/raft.cc Raft::StepLeader"), ("postponed reads", "src/raft.cc Raft::ReleasePendingReadIndexMessages"), ("answers", "src/raft.cc Raft::ResponseToReadIndexReq")],
 ["Ready.read_states", "Ready.messages", "RawNode::ReadIndex", "RawNode::Step"])

prop("C36", "Messages alone suffice, and come to rest",
 "Without clock ticks and new requests any set of nodes stops exchanging messages, whatever state, losses and partitions it starts from: the number still delivered is bounded by a small multiple of the nodes times the messages in flight, the entries those carry, and the entries and open reads the nodes hold. And in a settled cluster (one leader that is an incoming voter, every member up and caught up, no transfer pending) whose links lose and reorder nothing, no clock tick is needed either: when the messages caused by any number of proposals, quorum-confirmed reads and membership changes made at any members have been delivered, every accepted proposal is committed, every member knows the commit position and has applied everything, and every read is answered at the node that asked; a requested transfer to a voter has made it leader and everybody follows it. (Exempt, as they wait for the next heartbeat: leaving a joint membership automatically, members removed and added again in one change, members that join with a later term or need a snapshot, and a commit position announced only in an append that starts below what its receiver has committed.)",
 ["histories", "schedules"], CL + " (for the second part: followed by generated requests on a settled cluster with in-order links)",
 "The tests deliver messages of a few fixed exchanges until none is left, for particular sequences; liveness by heartbeats hides a missing response or broadcast everywhere else.",
 ["src/raft.cc", "src/tracker/progress.cc", "src/rawnode.cc"],
 [("resuming a paused peer", "src/raft.cc Raft::StepLeader"), ("broadcast of the commit position", "src/raft.cc Raft::BcastAppend"), ("membership changes probe", "src/raft.cc Raft::SwitchToConfig"), ("acknowledgements", "src/raft.cc Raft::HandleAppendEntries")],
 ["Ready.messages", "Ready.committed_entries", "Ready.read_states", "RawNode::HasReady"])

prop("C37", "Status values and log lines arrive unchanged",
 "A status keeps its verdict and its message through any sequence of copies, assignments, moves and swaps, each status independently of those it was made from; a message beyond the fixed capacity is cut to its first 1023 characters, never corrupted, and nothing is leaked or used after its release. A logger passes on exactly the lines at or above its current level, each with its own level and formatted text, in order; the console logger writes each as one intact line with its level, also when several threads log at once, every thread's lines in that thread's order. A fatal line, and no other, stops the process, and it and all lines before it have been written by then, whatever standard output is.",
 ["programs", "inputs", "schedules"], "any sequence of operations on several statuses with messages of any length; any sequence of log calls under changing levels; one to four threads sharing a console logger, with standard output a file",
 "No test copies a status, checks a message's text or looks at logged output; whether lines of several threads stay whole depends on the schedule.",
 ["src/status.h", "src/status.cc", "src/logger.h", "src/logger.cc"],
 [("copying messages", "src/status.cc Status::CopyState"), ("assignment", "src/status.h Status::operator="), ("level filter", "src/logger.cc Logger::Log"), ("console lines", "src/logger.cc ConsoleLogger::Logv")],
 ["Status::Str", "Status::IsOK", "Logger::Log", "ConsoleLogger::Logv"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
