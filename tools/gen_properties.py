#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
SP="omnipaxos/src/sequence_paxos/"; ST="omnipaxos/src/storage/"; OS="omnipaxos_storage/src/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
T="The existing tests run a handful of real-time schedules on a thread-pool runtime (15 of them stable: unit tests of the LFU cache, the derive macros, one trim example and a helper); "
p("C01","Decided logs agree on all servers",
 "If two servers of one configuration (or one server at two different times, including across restarts) report log position i as decided, they report the same entry there; a compacted prefix counts through the snapshot or trim marker that replaces it. This holds under any loss, delay, session drop, partition, crash and restart of any servers.",
 ["schedules","crash_points","fault_sequences","configurations","histories"],"every message schedule, leader change, crash/restart point, partition, batch size, cluster size and quorum configuration",
 T+"none drives more than a couple of leader changes and none enumerates where a message is lost.",
 [SP+"leader.rs",SP+"follower.rs",SP+"mod.rs",ST+"internal_storage.rs","omnipaxos/src/util.rs"],
 [("prepare phase adopts the most up-to-date promised log","sequence_paxos/leader.rs handle_majority_promises, util.rs LeaderState::set_promise"),("log synchronisation of followers","sequence_paxos/leader.rs send_accsync, mod.rs create_log_sync, internal_storage.rs sync_log"),("ballot and sequence-number checks","sequence_paxos/follower.rs check_valid_ballot, handle_sequence_num")],
 [("decided_idx","length of the decided log","storage/state_cache.rs"),("accepted_round","ballot of the last accepted log","storage/state_cache.rs")],["read_entries/read_decided_suffix on every server after every simulator step"])
p("C02","Decided is final and never shrinks",
 "The decided length a server reports never decreases, and an entry it reported as decided keeps its position and value forever, including after the server crashes at any point and restarts from its storage. The decided length never exceeds what the server holds, and the compacted length never exceeds the decided length nor decreases.",
 ["schedules","crash_points","fault_sequences","histories"],"every history of leader changes, re-synchronisations, compactions, crashes and restarts",
 T+"no test compares what a server reported before and after an arbitrary crash or re-sync.",
 [SP+"follower.rs",SP+"leader.rs",ST+"internal_storage.rs"],
 [("decided index only raised","follower.rs update_decided_idx_and_get_accepted_idx, leader.rs handle_accepted"),("sync_log carries the decided index","internal_storage.rs sync_log")],
 [("decided_idx","decided length","storage/state_cache.rs"),("compacted_idx","compacted length","storage/state_cache.rs")],["get_decided_idx, get_compacted_idx, read_* before/after every step and restart"])
p("C03","Only proposed entries are decided, each at most once per append",
 "Every decided entry is one that some client passed to append at some server of that configuration, unchanged, and one successful append call puts the entry in the decided log at most once as long as the network does not duplicate messages. No retry, resend, re-synchronisation, leader change or restart inside the library invents, corrupts, duplicates or reorders decided entries.",
 ["schedules","fault_sequences","histories","inputs"],"every history of appends on any server, forwarding, buffering, batching, resends and leader changes",
 T+"exactly-once under resends and re-sync needs the schedules the tests never take.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs",ST+"state_cache.rs"],
 [("proposal forwarding and buffering","mod.rs propose_entry, forward_proposals; leader.rs handle_forwarded_proposal"),("batching","state_cache.rs append_entries"),("resend","leader.rs resend_messages_leader; follower.rs resend_messages_follower")],None,["unique ids in every appended entry; the global decided log"])
p("C04","A reported decision is on stable storage at a write quorum",
 "When any server reports position i as decided, the storages of at least a write quorum of the configuration's servers (crashed ones included) already hold that entry at position i, as an entry or inside their compacted prefix, and a write quorum keeps holding it from then on. So losing any set of servers smaller than the quorums tolerate never loses a decided entry.",
 ["schedules","crash_points","fault_sequences","configurations"],"every schedule, crash point between two storage writes, batch size and quorum size",
 T+"no test inspects storage at the instant of a decision or crashes between two writes.",
 [SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs",ST+"state_cache.rs","omnipaxos/src/util.rs"],
 [("acknowledge only flushed entries","follower.rs handle_acceptdecide, internal_storage.rs append_entries_and_get_accepted_idx"),("quorum counting","util.rs LeaderState::is_chosen, Quorum")],
 [("accepted_indexes","what each server is known to have accepted","util.rs LeaderState")],["the simulated disks, whenever a decided length grows"])
p("C05","Promises are durable, monotone and never broken",
 "A server's promised ballot never decreases, also across crashes and restarts; it never accepts log entries from a leader whose ballot is lower than its promise, and it persists a promise or an acceptance before telling anyone about it. A ballot is used for leading by exactly one server and by only one incarnation of it, and the current leader a server reports is always the owner of its promise.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of elections, takeovers, priority changes, crashes between any two storage writes and restarts",
 T+"the tests do not look at promises across crashes and cannot place a crash between persisting and sending.",
 [SP+"leader.rs",SP+"follower.rs","omnipaxos/src/ballot_leader_election.rs","omnipaxos/src/omni_paxos.rs",ST+"internal_storage.rs"],
 [("promise persisted in prepare","follower.rs handle_prepare; leader.rs handle_leader"),("recovered server restarts with a lower own ballot","ballot_leader_election.rs BallotLeaderElection::with"),("ballot check","follower.rs check_valid_ballot")],
 [("promise","highest promised ballot","storage/state_cache.rs, Storage::get_promise")],["messages on the wire against the sender's disk; get_promise; get_current_leader"])
p("C06","One quorum-connected server suffices for progress",
 "While at least one live server stays connected to a quorum (itself included), the cluster elects a leader and keeps deciding new entries within a bounded number of election timeouts, no matter which other links are down (quorum-loss, constrained-election and chained partial partitions included). No manual intervention is needed.",
 ["schedules","fault_sequences","configurations"],"every connectivity graph with a quorum-connected server, every log/leader state the partition strikes in, cluster sizes 3 to 7",
 T+"the partial-partition test drives three fixed topologies and is not among the reliable tests.",
 ["omnipaxos/src/ballot_leader_election.rs",SP+"leader.rs","omnipaxos/src/omni_paxos.rs"],
 [("happiness and takeover rule","ballot_leader_election.rs update_happiness, check_takeover"),("leader synchronisation with promises","ballot_leader_election.rs hb_timeout")],
 [("happy","whether the server sees a leader that works","ballot_leader_election.rs")],["growth of the decided log in bounded simulated time"])
p("C07","After faults stop the cluster progresses and converges",
 "Once faults stop (links up, sessions re-established, servers restarted), within a bounded number of ticks a leader is established, newly appended entries are decided, and all servers reach the same decided log. No earlier history of crashes, partitions, lost messages or leader changes leaves the cluster stuck.",
 ["schedules","crash_points","fault_sequences","histories","configurations"],"every fault history followed by a fault-free suffix",
 T+"they cannot sample enough fault histories to find a stuck state and use wall-clock timeouts.",
 [SP+"leader.rs",SP+"follower.rs",SP+"mod.rs","omnipaxos/src/ballot_leader_election.rs"],
 [("reconnect handling","mod.rs reconnected; leader.rs handle_preparereq"),("resend timers","mod.rs resend_message_timeout"),("leader election","ballot_leader_election.rs")],None,["bounded fair suffix of every simulated run"])
p("C08","Crash or storage failure at any write is recovered from",
 "A server that crashes before or after any individual storage write, or whose storage returns an error from any read or write, comes back from its storage in a consistent state: it starts, keeps its promise, its decided log and everything it acknowledged to a leader, and rejoins and catches up. A storage error stops the server instead of letting it continue with memory and storage out of step.",
 ["crash_points","fault_sequences","schedules"],"every storage operation of every protocol step as crash or error point, repeatedly and also during recovery",
 T+"the recovery tests stop servers between messages at a few chosen points; storage errors are not placed inside protocol steps.",
 [ST+"internal_storage.rs",ST+"mod.rs",SP+"mod.rs",SP+"leader.rs",SP+"follower.rs"],
 [("atomic storage transactions","internal_storage.rs sync_log, try_trim, try_snapshot"),("cache load on start","internal_storage.rs load_cache"),("recovery phase","mod.rs SequencePaxos::with; follower.rs resend_messages_follower"),("errors are fatal","expect(WRITE_ERROR_MSG) call sites")],None,["simulated disk with a write counter; restarted server vs. history"])
p("C09","Reconfiguration seals the log and hands over exactly once",
 "A decided stop-sign is the last entry of its configuration: all servers that report the reconfiguration report the same new configuration and metadata at the same position, nothing is decided after it, appends and further reconfigurations are rejected, a request with an invalid configuration is refused without effect, and the report stays true forever, across crashes and leader changes. A reconfiguration requested in a healthy cluster is decided on every server, and the new configuration can be started from it and makes progress.",
 ["schedules","crash_points","fault_sequences","histories","configurations"],"every schedule, crash and leader change around the stop-sign being proposed, forwarded, accepted and decided; competing reconfigurations",
 T+"the reconfiguration test follows the failure-free path.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs",ST+"internal_storage.rs",ST+"state_cache.rs"],
 [("stop-sign accept/decide and resend","leader.rs accept_stopsign_leader, resend_messages_leader; follower.rs handle_accept_stopsign"),("stop-sign in log sync","mod.rs create_log_sync; internal_storage.rs sync_log"),("rejection of later proposals","mod.rs append, reconfigure")],
 [("stopsign","accepted stop-sign","storage/state_cache.rs")],["is_reconfigured, read_*, append/reconfigure results"])
p("C10","Snapshots stand for exactly the decided prefix they replace",
 "On every server the snapshot at compacted position k, taken locally, on request of a peer or received while catching up, equals the snapshot of the first k decided entries, and together with the entries after it reproduces the decided log: no decided entry is lost, applied twice or included early. Snapshotting fails without effect on an index that is not decided.",
 ["schedules","crash_points","fault_sequences","histories","inputs"],"every placement of snapshots relative to decisions, leader changes, lagging followers (full and delta transfer), stop-signs, crashes",
 T+"the snapshot tests use one quiet cluster; delta merging on a follower behind the leader is not systematically reached.",
 [ST+"internal_storage.rs",SP+"mod.rs"],
 [("snapshot creation and merging","internal_storage.rs create_snapshot, create_diff_snapshot, sync_log"),("compaction messages","mod.rs snapshot, handle_compaction")],
 [("compacted_idx","number of entries in the snapshot","storage/state_cache.rs")],["read of the compacted prefix vs. fold of the reference log"])
p("C11","Trim removes only what every server has, and hurts nobody",
 "Trimming succeeds only on the leader and only for a decided prefix that every server of the configuration has in its log; otherwise it returns an error and changes nothing. When all servers have the prefix it can be trimmed whatever the servers' ids are, and after any trim every server, however far behind its decided length, can still crash, re-elect and catch up to the same decided log.",
 ["schedules","fault_sequences","configurations","histories"],"every trim index and moment, arbitrary server ids, lagging or partitioned servers, leader changes before and after",
 T+"trim is tested with consecutive ids, no faults and no leader change.",
 [SP+"mod.rs","omnipaxos/src/util.rs",ST+"internal_storage.rs"],
 [("minimum accepted index over servers","util.rs get_min_all_accepted_idx; mod.rs trim"),("decided check","internal_storage.rs try_trim"),("log sync with a trimmed log","mod.rs create_log_sync")],None,["trim results vs. simulated disks; catch-up after trim"])
p("C12","Reads return exactly the log, correctly labelled",
 "Every read call (single index, any range form, decided suffix) returns precisely the server's log for that range in order: entries below the decided length labelled decided, later ones undecided, one snapshot or trim marker with the right index for the compacted part, the stop-sign last with its decided flag, and nothing for positions not in the log. Reads never panic for in-range arguments, change nothing and agree with one another, in every state a fault history can produce.",
 ["histories","inputs","schedules","fault_sequences"],"every log state reachable under faults and compaction, every index and range",
 T+"reads are tested on a few hand-made log states.",
 [ST+"internal_storage.rs","omnipaxos/src/omni_paxos.rs"],
 [("range resolution","internal_storage.rs read, get_entry_type, create_read_log_entries"),("decided suffix","internal_storage.rs read_decided_suffix")],None,["all read calls against a reference list built from storage and the decided history"])
p("C13","Batching is invisible and never holds entries back for good",
 "With any batch size on any server the decided log is one an unbatched system could have decided: entries of one append stream at a stable leader are decided completely, once and in append order, and an entry waiting in a partial batch is decided on every server within the flush timeout plus a few message delays. A stop-sign, leader change, re-sync or restart while batches are partly filled loses no entry that was decided and decides none twice.",
 ["configurations","schedules","fault_sequences","histories"],"every combination of per-server batch sizes and flush timeouts, every point of a leader change or reconfiguration relative to partial batches",
 T+"batching is tested in one configuration with one workload.",
 [ST+"state_cache.rs",ST+"internal_storage.rs",SP+"leader.rs",SP+"follower.rs"],
 [("batch cache","state_cache.rs"),("flush timer","mod.rs flush_batch_timeout; leader.rs flush_batch_leader; follower.rs flush_batch_follower"),("flush before prepare/stop-sign","follower.rs handle_prepare, handle_accept_stopsign; leader.rs handle_leader")],None,["decision latency in ticks; order of decided entries"])
p("C14","Lost messages are detected and repaired without reconnect calls",
 "If the network silently drops any messages, without the application ever signalling a reconnection, no server accepts a log with a gap, and after the losses end every server reaches the leader's decided log within a bounded number of resend timeouts. In particular a lost prepare, promise, log sync, accept, decide, stop-sign or stop-sign decision is recovered by the library itself.",
 ["schedules","fault_sequences"],"every subset of dropped messages of every type, in order delivery of the rest",
 T+"the resend tests drop one chosen message type at one chosen moment.",
 ["omnipaxos/src/util.rs",SP+"follower.rs",SP+"leader.rs",SP+"mod.rs"],
 [("sequence numbers per follower session","util.rs SequenceNumber; follower.rs handle_sequence_num"),("resend timers","leader.rs resend_messages_leader; follower.rs resend_messages_follower")],
 [("current_seq_num","last accepted position in the leader's message stream","sequence_paxos/mod.rs")],["final convergence of runs with silent loss and no reconnected() calls"])
p("C15","Every accepted quorum configuration is safe and as available as promised",
 "For every cluster configuration that validation accepts, with any read and write quorum sizes, decided logs never diverge or get lost under leader changes and crashes, and with a stable leader the cluster keeps deciding while only a write quorum of servers is up; a new leader can be established whenever a read quorum is up.",
 ["configurations","schedules","crash_points","fault_sequences"],"every cluster size 2-7 and read/write quorum sizes accepted by validation, with crash sets up to the tolerated size",
 T+"flexible quorums are tested for two sizes in one schedule.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/util.rs","omnipaxos/src/ballot_leader_election.rs",SP+"leader.rs"],
 [("quorum validation","omni_paxos.rs ClusterConfig::validate"),("quorum counting","util.rs Quorum; LeaderState::is_chosen, set_promise"),("election quorum by phase","ballot_leader_election.rs update_happiness, check_takeover")],None,["agreement oracle plus progress with exactly a write (read) quorum alive"])
p("C16","Persistent storage survives a process crash at any byte",
 "After every completed write the persistent storage, reopened from the files as a killed process left them, returns exactly the state that write produced; if the last bytes of the storage's write-ahead log are missing or torn, reopening returns the state after some prefix of the completed atomic writes, never a mixture, and a server restarted on it is consistent.",
 ["crash_points","fault_sequences","inputs"],"every sequence of storage operations, kill at every point and truncation of the write-ahead log at every byte",
 T+"the storage is only closed cleanly in tests; files are never copied from under an open database or truncated.",
 [OS+"persistent_storage.rs"],
 [("one write batch per atomic write","persistent_storage.rs write_atomically, append_entries"),("next log key recovered on open","persistent_storage.rs open")],
 [("next_log_key","index of the next entry","persistent_storage.rs")],["reopened copy of the database directory vs. model states"])
p("C17","Both storage implementations behave as the storage contract says",
 "For every sequence of storage calls the protocol can make, single or inside an atomic write, with reopening in between for the persistent one, the in-memory and the persistent storage return exactly what the abstract log-plus-metadata storage returns: entries at their absolute positions after appends, overwrites and trims, lengths, ballots, indexes, stop-sign and snapshot. A cluster running on either storage under faults has the same guarantees.",
 ["inputs","histories","crash_points","fault_sequences"],"every operation sequence allowed by the contract and every reopen point; cluster histories on the real persistent storage",
 T+"tests run a few fixed operation orders and mostly memory storage.",
 [OS+"persistent_storage.rs",OS+"memory_storage.rs",ST+"mod.rs"],
 [("storage trait contract","storage/mod.rs Storage"),("implementations","persistent_storage.rs, memory_storage.rs")],None,["every getter after every operation, against a reference storage"])
p("C18","UniCache compression is transparent",
 "With UniCache enabled (LRU or LFU, any cache size that the encoding type can number, with or without message serialisation) every server decodes exactly the entries that were appended, so decided logs agree and contain only appended entries, across cache evictions, leader changes, restarts, batching, resends and catch-up. No fault history makes encoder and decoder caches disagree or a server panic.",
 ["schedules","fault_sequences","crash_points","inputs","configurations"],"every append stream and fault history, cache sizes smaller than the value domain, both replacement policies",
 T+"UniCache is tested with one leader, no faults and a cache that does not matter.",
 ["omnipaxos/src/unicache/lru_cache.rs","omnipaxos/src/unicache/lfu_cache.rs","omnipaxos/src/unicache/lfu/mod.rs","omnipaxos/src/unicache/mod.rs",ST+"state_cache.rs",ST+"internal_storage.rs",SP+"leader.rs",SP+"follower.rs"],
 [("cache hand-over in log sync","leader.rs send_accsync; follower.rs handle_acceptsync"),("encode/decode","state_cache.rs append_entry(s); internal_storage.rs decode_entries"),("cache clone","unicache/lru_cache.rs, lfu_cache.rs Clone")],None,["decided entries on every server vs. appended entries"])
p("C19","Leadership can be steered by priority and takeover requests",
 "In a healthy cluster a server asked to become leader becomes the leader recognised by all servers within a bounded number of ticks without losing or reordering decided entries, and leadership then stays stable; when servers start together without faults the one with the highest priority (ties by id) becomes leader. Without failures or requests an established leader is never replaced.",
 ["schedules","histories","configurations"],"every priority assignment, cluster size, timing of the request relative to traffic and elections",
 T+"only one priority assignment is tested.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/ballot_leader_election.rs",SP+"leader.rs"],
 [("takeover","omni_paxos.rs try_become_leader; ballot_leader_election.rs hb_timeout"),("ballot order","ballot_leader_election.rs Ballot::cmp")],None,["get_current_leader on all servers in fault-free suffixes"])
p("C20","Appends on any server of a healthy cluster are decided everywhere",
 "In a cluster with an established leader and working links, an entry appended on any server, leader or follower, is decided exactly once on every server within a bounded number of ticks, and entries appended on one server are decided in the order they were appended. Servers that follow the leader keep doing so without asking again and again to be synchronised. Entries and reconfigurations handed over before a leader is known are kept and decided, in the order of each server, once one is.",
 ["schedules","histories","configurations","inputs"],"every healthy suffix after any fault history, every server as entry point, every delivery order between different links",
 T+"tests append on one server at a time and look at a few orders.",
 [SP+"mod.rs",SP+"leader.rs",SP+"follower.rs"],
 [("forwarding to the leader","mod.rs forward_proposals, forward_stopsign; leader.rs handle_forwarded_proposal, handle_forwarded_stopsign"),("buffering until a leader is known","mod.rs buffered_proposals, buffered_stopsign; follower.rs forward_buffered_proposals; leader.rs handle_majority_promises")],
 [("buffered_proposals","entries waiting for a leader","sequence_paxos/mod.rs")],["decided logs after a fault-free suffix"])
p("C21","Status reports and outgoing messages tell the truth",
 "In every state a server's status report (get_ui_states, the input of the dashboard) agrees with its other calls on leader and decided length, shows its own ballot, at most one heartbeat per peer and only peers of the configuration; the accepted indexes an established leader shows never exceed its own nor what those servers really stored, for any server ids. Once links have been stable for a few election timeouts the heartbeats shown are exactly those of the reachable live peers, and in a quiet cluster the accepted indexes of the servers connected to the leader are the real ones. Every message a server hands out carries its own id as sender and is addressed to another server of its configuration. Taking messages into a buffer that still holds unsent ones adds the new ones behind them and loses none.",
 ["schedules","histories","crash points","configurations"],"every state reached under loss, partitions, crashes and restarts; any server ids",
 T+"no test reads the status report during elections, partitions or restarts.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/utils/ui.rs","omnipaxos/src/ballot_leader_election.rs"],
 [("status report","omni_paxos.rs get_ui_states; utils/ui.rs ClusterState::from"),("heartbeats of the previous round","ballot_leader_election.rs new_hb_round, handle_reply, get_ballots"),("addressing","sequence_paxos/*.rs, ballot_leader_election.rs: every push to outgoing")],
 [("prev_replies","heartbeats shown","ballot_leader_election.rs"),("accepted_indexes","replication progress shown","util.rs LeaderState")],["get_ui_states","take_outgoing_messages"])
p("C22","Settings and configuration files mean what they say",
 "Loading a configuration file gives exactly the settings written in it, the documented defaults for those it leaves out, or an error; a missing, truncated, torn or garbled file never panics and is never half applied. Exactly the configurations that keep the documented rules are accepted, from a file, by validate() and at build: at least two nodes, no id 0, own id among the nodes, configuration id not 0, both quorums between 2 and the number of nodes, overlapping and read at least write, and no timeout, batch or buffer size of 0. A refused configuration starts nothing and leaves the storage untouched. A server started from an accepted one, also after a crash, uses it: its ballot carries that priority and configuration id, it sends a heartbeat round every election_tick_timeout ticks, and the cluster is safe and makes progress. Turning on logging changes nothing.",
 ["inputs","fault_sequences","crash_points","configurations"],"every configuration value and every damage to the file, at first start and at every restart within a fault history",
 T+"two files are loaded and a few invalid values tried; no damaged file, no restart from one, no run of a cluster with it.",
 ["omnipaxos/src/omni_paxos.rs","omnipaxos/src/errors.rs","omnipaxos/src/util.rs","omnipaxos/src/ballot_leader_election.rs"],
 [("loading","omni_paxos.rs OmniPaxosConfig::with_toml, serde attributes and Default of the config structs"),("rules","omni_paxos.rs validate of OmniPaxosConfig, ClusterConfig, ServerConfig; build, build_for_server"),("use","ballot_leader_election.rs BallotLeaderElection::with; util.rs LogicalClock")],None,["with_toml, validate, build and the running server against a reference model of the file"])
out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
