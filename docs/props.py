"""The properties, in one place: gen.py writes properties.jsonl and MANIFEST.json from it (claimed = has a rule)."""

SMR, PR, COL, QU, TM = ("src/smr/state_machine.rs", "src/state/process.rs", "src/state/collection.rs",
                        "src/utils/auth_manage.rs", "src/timer.rs")
PAR, OV, TY, CO, WT, TC, RP, SM = ("src/state/parallel.rs", "src/overlord.rs", "src/types.rs", "src/codec.rs",
                                   "src/wal/wal_type.rs", "src/utils/timer_config.rs", "src/utils/rand_proposer.rs",
                                   "src/smr/mod.rs")
# id: title, statement, over, text, why, files, mechanism[(name, where)], state[(name, meaning, where)], observe
P = {}


def p(i, title, statement, over, text, why, mech, state=(), observe=()):
    assert len(title) <= 80, (i, len(title))
    assert statement.count(". ") <= 2, i
    P[i] = dict(title=title, statement=statement, over=over, text=text, why=why, mech=mech, state=state,
                observe=observe)


SAMPLE = "the tests drive a few honest scenarios with mock crypto; "

p("C01", "Certificates count only with more than two thirds of the voting weight",
  "A quorum certificate received from the network (alone, inside a proposal or attached to a choke) takes effect only "
  "after its aggregated signature was verified against exactly the voters its bitmap names in the authority list and "
  "the vote weights of those voters exceed two thirds of the total vote weight. Weights are the vote weights of the "
  "authority list in force, each voter counts once, and the sum cannot wrap around.",
  ["inputs", "histories", "configurations"],
  "every certificate message, every authority list and weight assignment, every bitmap",
  SAMPLE + "all certificates they send are complete and valid, and weights are all 1",
  [("verification tasks", PAR + " parallel_verify"), ("threshold", QU + " AuthorityManage::is_above_threshold"),
   ("signature check", QU + " / " + PR + " verify_aggregated_signature"), ("qc of chokes", PR + " handle_signed_choke")],
  [("authority", "the current validator list with weights", QU)],
  ["Crypto::verify_aggregated_signature", "triggers to the voting state machine"])

p("C02", "No message acts on consensus before its signature was verified",
  "Every proposal, vote, certificate and choke that comes from the network changes the state of the node only after "
  "its signature was checked successfully over the hash of exactly the signed content. A message whose verification "
  "fails is dropped and reported, without any other effect.",
  ["inputs", "histories"], "every message of every kind, at every height and round, including malformed ones",
  SAMPLE + "mock crypto accepts every signature",
  [("dispatch raw -> verified", PR + " State::run"), ("verification", PAR + " parallel_verify"),
   ("buffering of future messages", PR + " handle_signed_proposal / handle_signed_vote")],
  (), ["Crypto::verify_signature", "Consensus::report_error"])

p("C03", "Only members of the authority list are heard",
  "A vote or choke takes effect only if its author is in the authority list of the current height, and a proposal only "
  "if its author is the leader of its height and round. The author that is checked is the one whose signature was "
  "verified and under which the message is recorded.",
  ["inputs", "configurations"], "every sender address, every authority list, every height and round",
  SAMPLE + "every sender is an honest validator",
  [("membership", QU + " AuthorityManage::contains"), ("leader", PR + " verify_proposer / verify_address")],
  (), ["collectors", "triggers"])

p("C04", "Certificates the node builds are backed by a counted quorum of votes",
  "A certificate the node creates itself contains exactly the signatures of recorded votes for one block at one height, "
  "round and phase, cast by distinct validators that together hold more than two thirds of the vote weight, with the "
  "bitmap naming these validators. The node creates one only as the leader of that round (or its successor).",
  ["inputs", "histories", "schedules"], "every order and combination of recorded votes",
  SAMPLE + "votes arrive in a handful of orders",
  [("counting", PR + " counting_vote"), ("aggregation", PR + " generate_qc / aggregate_signatures")],
  [("votes", "votes per height, round, phase and block", COL)], ["broadcast certificates"])

p("C05", "Vote bookkeeping keeps heights, rounds, phases, blocks and voters apart",
  "A recorded vote is found again under its own height, round, phase and block and under no other, a voter counts at "
  "most once per block, and a stored certificate is found under its height, round, phase and block only. Recording a "
  "vote or certificate leaves every other entry as it was.",
  ["inputs", "histories"], "every sequence of recordings and queries",
  "the collection tests use random samples of a few entries", [("vote collector", COL + " VoteCollector")])

p("C06", "What is signed is exactly what is verified, and it binds every field",
  "Votes, proposals and chokes are verified over the same hash of the same encoding their author signed, and that "
  "encoding contains every field that gives the message its meaning. A signature can therefore not be replayed for "
  "another height, round, phase, block or lock.",
  ["inputs", "programs"], "every message kind and every field",
  "signatures are mocked in the tests; nothing compares the signer's hash with the verifier's",
  [("signing", PR + " sign_vote / sign_proposal / handle_brake"), ("verification", PAR + ", " + PR),
   ("encodings", CO + ", " + TY)])

p("C07", "State is persisted before it is acted on",
  "Before the node sends its own proposal, vote or choke, before it hands a block over for commit and before it starts "
  "a new height, the log record that describes that step has been saved successfully. If saving fails the action does "
  "not happen.",
  ["crash_points", "fault_sequences", "histories"], "every step that sends or commits, every failure of the log",
  "the tests never fail or interrupt the log", [("log writes", PR + " save_wal / save_wal_with_lock_round")],
  (), ["Wal::save", "Consensus::transmit_to_relayer / broadcast_to_other / commit"])

p("C08", "Log records describe the step they are written for",
  "Every log record holds the height, round and step the node is about to act on and, if the node is locked, the lock "
  "of this height with its certificate and the full block. A record of an unlocked node holds no lock.",
  ["crash_points", "histories"], "every point at which a record is written",
  "the log tests round-trip random records; no test relates a record to the step it belongs to",
  [("log writes", PR + " save_wal / save_wal_with_lock_round"), ("record", WT + " WalInfo")],
  (), ["Wal::save"])

p("C09", "A node never votes twice in one phase",
  "For each height, round and phase the voting state machine orders at most one vote, its position in height, round "
  "and step never goes backwards, and the node signs a vote only on such an order and for exactly the ordered "
  "position. A vote is signed for the block that was ordered.",
  ["histories", "schedules"], "every sequence of triggers and timeouts, from every state",
  "the state machine tests sample about 30 transitions", [("steps", SMR + " handle_proposal/prevote/precommit"),
                                                        ("vote events", PR + " handle_vote_event")],
  [("position", "height, round, step", SMR)], ["vote events", "Crypto::sign"])

p("C10", "A locked node votes only for its lock and unlocks only on newer evidence",
  "A node locks only on the non-empty block of a prevote certificate of its height and at that certificate's round, "
  "and precommits a block only with that lock. While locked it prevotes only the locked block, and the lock is changed "
  "or released only by a certificate of a round not older than the lock or by a new height.",
  ["histories", "schedules"], "every sequence of triggers, lock states and certificate rounds",
  "the tests sample single transitions with fixed locks",
  [("lock rules", SMR + " update_polc / remove_polc / handle_proposal / handle_prevote")],
  [("lock", "block and round of the newest prevote certificate", SMR)], ["vote events", "lock in announcements"])

p("C11", "A block is committed only on its precommit certificate, and then always",
  "Commit is ordered exactly once per height, for the non-empty block of a precommit certificate of that height, and "
  "such a certificate is never ignored. A block is precommitted only after a prevote certificate for it; a timeout "
  "makes the node precommit nothing.",
  ["histories", "schedules"], "every sequence of triggers and timeouts",
  "the tests sample single transitions", [("commit step", SMR + " handle_precommit")], (), ["commit event"])

p("C12", "Heights advance only to a higher status and start from a clean state",
  "The height changes only when a status above it arrives, which is always adopted, and the new height starts at round "
  "0, in the first step, without lock and without proposal. Within a height the round never decreases, and triggers "
  "of another height change nothing.",
  ["histories", "schedules"], "every sequence of statuses and triggers", "the tests sample single transitions",
  [("new height", SMR + " handle_new_height / goto_new_height")])

p("C13", "No block enters a certificate before its content was checked",
  "A certificate for a non-empty block reaches the voting state machine only after the content of that block was "
  "checked successfully by the application, and a check result counts only for the height and block it was made for. "
  "The content that is checked is the one that came with the proposal of that block.",
  ["inputs", "schedules", "histories"], "every order of certificates, proposals and check results",
  SAMPLE + "the mock application accepts every block at once",
  [("check task", PR + " check_block / check_current_block"), ("gate", PR + " try_get_full_txs / handle_resp")],
  [("full transactions", "which blocks were checked", PR)], ["Consensus::check_block", "triggers"])

p("C14", "The block handed over for commit is the certified one with its proof",
  "The application is asked to commit exactly the block content of the certified block at the current height, with a "
  "proof that carries that height, the certificate's round, the block hash and the certificate's aggregated signature. "
  "The certificate is a precommit certificate for that block at that height.",
  ["inputs", "histories"], "every commit on every path", "the tests only compare commits between nodes",
  [("commit", PR + " handle_commit")], (), ["Consensus::commit"])

p("C15", "A round ends only with a certificate and the node is told the same",
  "The voting state machine leaves a round only for the round after a certificate of this or a later round, or for a "
  "round reached by a choke certificate, and it always obeys such evidence. Every round change is announced once, with "
  "the new round, the present lock and the evidence that caused it.",
  ["histories", "schedules"], "every sequence of triggers and timeouts", "the tests sample single transitions",
  [("round change", SMR + " handle_prevote / handle_precommit / handle_continue_round")], (), ["round announcements"])

p("C16", "Every phase is guarded by the right timeout",
  "Each event that opens a phase arms exactly one timer, and when it fires it produces exactly the timeout of that "
  "phase, tagged with the height and round for which it was armed. Events that open no phase arm none, and a timer is "
  "never lost or fired for another phase.",
  ["schedules", "histories"], "every event the timer can receive", "the timer tests sample one event each",
  [("arming", TM + " Timer::set_timer"), ("firing", TM + " Timer::trigger"), ("loop", TM + " poll_next")],
  (), ["triggers sourced from the timer"])

p("C17", "Timeouts act only on the phase they were armed for",
  "A timeout of another height or round, or of a phase already left, has no effect. A timeout of the current phase "
  "always moves the node to the next phase of the same round with the lock unchanged.",
  ["schedules", "histories"], "every timeout in every state", "the tests sample single transitions",
  [("staleness checks", SMR)], (), ["vote and choke events"])

p("C18", "All nodes compute the same leader for a height and round",
  "The leader of a height and round is a function of the height, the round and the ordered authority list only, and it "
  "is always a member of that list. The leader a node expects, the one it checks proposals against and the one it "
  "sends its votes to are computed by the same rule.",
  ["inputs", "configurations"], "every height, round and authority list, both leader election features",
  "the tests compare a few indices for one list", [("election", QU + " get_proposer / get_leader"), ("random", RP)])

p("C19", "Encoding a message and decoding it gives the message back",
  "For every wire message and log record, decoding the encoding yields the same value in every field, and no two "
  "fields are exchanged or dropped. The number of items written is the number of items read.",
  ["inputs"], "every value of every message type", "the codec tests round-trip one random value per type",
  [("codecs", CO + ", " + WT)])

p("C20", "Malformed bytes never crash the decoder",
  "Decoding any byte string as a wire message or log record either yields a value or an error; it never panics. "
  "Unknown phase, step or reason codes are errors.",
  ["inputs"], "every byte string", "the codec tests decode only what they encoded", [("codecs", CO + ", " + WT + ", " + TY)])

p("C21", "No message from a peer can crash the node",
  "Handling any verified or unverified message, whatever its fields contain, ends in normal completion or in a reported "
  "error. Arithmetic on fields of messages cannot overflow, and lookups that may find nothing do not panic.",
  ["inputs", "histories"], "every message, every field value, every state", SAMPLE + "no hostile field values",
  [("handlers", PR), ("verification", PAR), ("bitmap", QU)])

p("C22", "Messages from far-away heights and rounds are not stored",
  "The node keeps proposals, votes, chokes and certificates only for a bounded window of heights and rounds ahead of "
  "its own, and none of past heights; only a verified certificate of the current height may be of any round. "
  "A message outside the window leaves no trace in the collections.",
  ["inputs", "histories"], "every message of every height and round", SAMPLE + "only nearby heights and rounds",
  [("window", PR + " filter_message / filter_signed_proposal")], (), ["collections"])

p("C23", "A new height starts from clean caches and re-examines early messages",
  "When a new height begins, the collections of past heights, the checked-block marks and the chokes are dropped, and "
  "messages that arrived early for the new height are taken out, checked against the new authority list and then "
  "handled as if they had just arrived. Nothing of them is used unchecked or twice.",
  ["histories", "schedules"], "every set of early messages", "the tests never send messages early",
  [("new height", PR + " goto_new_height / re_check_proposals / re_check_votes / re_check_qcs"), ("flush", COL)])

p("C24", "A status is adopted completely and only forward",
  "When a height is entered through a status, its authority list, timer configuration and height are adopted from that "
  "same status before the next round begins, and a status not above the current height changes nothing. The height "
  "of the node and of its voting state machine agree.",
  ["inputs", "histories"], "every status on every path by which it can arrive", SAMPLE + "fixed authority list",
  [("status", PR + " goto_new_height / handle_commit")])

p("C25", "After a restart the node resumes exactly where its log says",
  "On restart the height, round, step and lock are restored from the log record, the voting state machine is told the "
  "same position and lock, and the locked block and its certificate are available again. Without a "
  "record the node starts fresh, and no vote is sent twice by restarting.",
  ["crash_points", "histories"], "every log record", "the restart tests only check that consensus goes on",
  [("restore", PR + " start_with_wal / load_wal"), ("state machine", SMR + " handle_wal")])

p("C26", "Leftovers of another height are ignored",
  "Events of the voting state machine and results of block checks that belong to another height than the current one "
  "have no effect. A decision acts only if a certificate for that block at the current height is known.",
  ["schedules", "histories"], "every late event or result", "late events do not occur in the tests",
  [("height checks", PR + " handle_event / handle_resp")])

p("C27", "A leader proposes once per round, and a locked leader proposes its lock",
  "A node proposes only when it is the leader of the round it enters, once per round, and signs the proposal with its "
  "own height, round and address. If it is locked it proposes the locked block together with the prevote certificate "
  "that locked it; otherwise it proposes a fresh block of the application without a certificate.",
  ["histories", "schedules"], "every entry into a round", SAMPLE + "locks hardly occur",
  [("proposal", PR + " handle_new_round / sign_proposal")], (), ["broadcast proposal"])

p("C28", "Stopping the node stops all of its tasks",
  "A stop request reaches the voting state machine, the timer and the main loop, and each of them ends. Afterwards no "
  "task of the node acts any more.",
  ["schedules", "histories"], "a stop in every state", "one test stops a node and looks at nothing",
  [("stop", SMR), ("main loop", PR + " State::run"), ("timer", TM)])

p("C29", "Votes go to the leader that is entitled to collect them",
  "A node sends its vote to the leader of the round voted on and keeps it for itself if it is that leader. Its own vote "
  "is recorded under its own address exactly as a received one would be.",
  ["histories", "configurations"], "every vote in every round", "no test inspects the addressee",
  [("routing", PR + " handle_vote_event / transmit"), ("leader tracking", PR + " handle_new_round")])

p("C31", "A bitmap names the same voters for its author and for its readers",
  "The i-th bit of a certificate's bitmap stands for the i-th address of the sorted authority list, both when the "
  "certificate is built and when it is checked. The order does not depend on how the list was supplied.",
  ["inputs", "configurations"], "every authority list and bitmap", "the test uses one sorted list",
  [("author", PR + " aggregate_signatures / generate_qc"), ("reader", QU + " get_voters / extract_voters")])

p("C32", "The node and its timer see the same events in the same order",
  "Every event the voting state machine emits goes to the node and to the timer, once each and in the same order, "
  "except that a restart arms the timer only. No event reaches only one of them.",
  ["schedules", "histories"], "every step of the state machine", "the tests read only one of the channels",
  [("emission", SMR + " throw_event / throw_timer_event")])

p("C33", "Timeouts follow the configuration and back off up to a cap",
  "The length of a timeout is the configured interval times the configured ratio of its phase, doubled per round up to "
  "a fixed cap except for the brake timeout, with the configuration of the status in force. No round number makes the computation overflow.",
  ["inputs", "configurations"], "every configuration and round", "the tests use one configuration",
  [("intervals", TC), ("back-off", TM + " set_timer")])

p("C35", "Round changes are reported with their real cause and without side effects",
  "Every change to a later round of the same height is reported to the application once, with the height and the round "
  "that was left. Working out the reason changes nothing else in the node.",
  ["histories"], "every round change", "no test looks at the report",
  [("report", PR + " report_view_change / view_change_reason")], (), ["Consensus::report_view_change"])

p("C37", "Handler and instance are wired to each other",
  "A message sent through any handler of the instance arrives at its main loop once, with the context it was sent with. "
  "The main loop, the voting state machine and the timer are started once each and connected to each other.",
  ["programs", "schedules"], "every handler obtained before or after start", "the tests use one handler each",
  [("wiring", OV + " run / get_handler / send_msg"), ("channels", SMR + " new, " + SM)])

p("C38", "A node outside the authority list stays silent",
  "A node whose address is not in the authority list of the current height sends no proposal, vote, choke or "
  "certificate. It still handles statuses and stop requests.",
  ["configurations", "histories"], "every event and message on a node without voting right",
  "one test adds a node that is not a validator",
  [("consensus power", PR + " handle_event / handle_new_round / handle_vote_event")])

p("C40", "Proposal bookkeeping keeps the first proposal of every round",
  "A recorded proposal is found again under its own height and round and under no other. Another proposal for the same "
  "height and round is refused and does not replace it.",
  ["inputs", "histories"], "every sequence of recordings and queries", "the test uses random samples",
  [("proposal collector", COL + " ProposalCollector")])

p("C41", "Choke bookkeeping counts every sender once per round",
  "A recorded choke is found again under its round and no other, a sender counts once per round, and the threshold "
  "looks for a round whose number of distinct senders exceeds two thirds of the nodes, preferring the highest such "
  "round. Clearing removes everything.",
  ["inputs", "histories"], "every sequence of recordings and queries", "the test uses random samples",
  [("choke collector", COL + " ChokeCollector")])

p("C42", "Rounds are skipped only on chokes of more than two thirds of the nodes",
  "The node skips to a later round only with chokes for the current height signed by more than two thirds of the "
  "nodes, all of them distinct members: either collected itself or received as an aggregate whose signature was "
  "verified over exactly that height and round. The round entered is the one after the choked round.",
  ["inputs", "histories"], "every choke and aggregated choke", "chokes occur in the tests only by chance",
  [("aggregate check", PR + " verify_aggregated_choke / handle_aggregated_choke"),
   ("own count", PR + " check_choke_above_threshold")])

p("C43", "Timely proposals and certificates are always answered with a vote",
  "A non-empty proposal for the current height and round that arrives in the propose phase always gets exactly one "
  "prevote, unless it carries a certificate of the lock's own round for another block; if its certificate is newer than "
  "the lock, the prevote is for the proposal. A prevote certificate of the height, for a later round or for the current one "
  "before its precommit, always gets exactly one precommit. After each vote the state machine is in that vote's phase, and "
  "proposals of the next round or height and certificates of the next height are kept for their turn.",
  ["histories", "schedules"], "every sequence of triggers, lock states and rounds",
  "the tests sample single transitions with fixed locks and rounds",
  [("phases", SMR + " handle_proposal / handle_prevote / goto_step"), ("proposals", PR + " handle_signed_proposal")], (),
  ["vote events"])

p("C44", "Enough recorded votes always become a certificate",
  "A member's vote for the current position, for the next round or for the next height is recorded, unless a certificate of "
  "its position and phase is known. Whenever a vote for the current position is recorded, the leader's own included, "
  "the votes of that position and phase are counted; if a block has more than two thirds of the weight, its "
  "certificate is made, kept and broadcast to all unless the signatures cannot be aggregated.",
  ["inputs", "histories"], "every vote in every state of the collector",
  "the tests sample a few vote sequences with equal weights",
  [("votes", PR + " handle_signed_vote / vote_process / counting_vote")], (), ["certificate broadcast"])

p("C45", "Every order of the voting state machine is carried out",
  "A vote ordered for the current position is signed and given to its leader or recorded, an ordered choke is signed and "
  "sent to all, an announced round is entered, and a commit whose block and certificate are known is executed and its "
  "height entered, unless signing, saving the log or finding the evidence fails. The result of a block check of the "
  "current height is remembered and the certificate that waited for it is acted on.",
  ["histories", "inputs"], "every order in every state of the node", "the tests sample single orders",
  [("orders", PR + " handle_event / handle_vote_event / handle_brake / handle_commit / handle_new_round"),
   ("check results", PR + " handle_resp")], (), ["votes, chokes and commits leaving the node"])

p("C46", "A started node begins with what it was given and with nothing else",
  "A node starts at the height and with the block interval, authority list and address it was given, running, not as "
  "leader, and with a voting right exactly if the list contains its address. It knows no proposal, vote, choke or block, "
  "and its voting state machine waits below every height without block and lock.",
  ["inputs"], "every configuration a node is started with", "the tests start nodes with one height and a fixed list",
  [("start", OV + " run, " + PR + " new, " + SM + " new")], (), [])

p("C47", "The next leader keeps the block interval and nobody else waits",
  "After a commit, the node that leads the first round of the answered height enters it only once the block interval has "
  "passed since its height began or its last proposal arrived. Every other node enters the height at once, and nothing "
  "else makes a node sleep.",
  ["inputs", "histories"], "every commit answer, interval and clock", "the tests do not look at the pace of the heights",
  [("pace", PR + " handle_commit"), ("clock", PR + " goto_new_height")], (), [])

p("C48", "Every validator gets its turn to lead",
  "With rotating leaders, any n consecutive rounds of a height, and the first rounds of any n consecutive heights, are led "
  "by n different members. With random leader election a member is drawn with the probability of its propose weight over "
  "the total, given a uniform generator; no height, round or member is treated differently.",
  ["inputs", "configurations"], "every height, round and authority list, both leader election features",
  "the tests compare a few indices and sample one distribution", [("rotation", QU + " get_proposer, rotation_leader_index"),
                                                                 ("drawing", RP)])
p("C49", "Values written through their serde form read back unchanged",
  "Every type that can be both serialised and deserialised with serde - validators, certificates, chokes, round change reasons, "
  "timer configuration, the parts of a log record - reads back as the value that was written, from a map (JSON and the like) as "
  "well as from a sequence (bincode and the like). Every field and variant is written once and read back into its own place, "
  "and byte strings and lists of them survive their hexadecimal form for every length and content.",
  ["inputs"], "every value of the thirteen types, both shapes of formats",
  "the tests write a few log records to JSON", [("hexadecimal form", "src/serde_hex.rs, src/serde_multi_hex.rs"),
                                             ("types", "src/types.rs, src/lib.rs, src/wal/wal_type.rs")])
p("C50", "A choke carries its sender's certificate, and others catch up by it",
  "A choke a node sends names its own height and round and carries the certificate that led it there: the prevote or precommit "
  "certificate, or the aggregated choke, of the round it left (a placeholder in the first round of a height). A validator that gets a member's choke of a later round of its height "
  "examines the carried certificate: a vote certificate is verified and handled like any received one, an aggregated choke that "
  "verifies is kept and moves the node to the round after it.",
  ["inputs", "histories"], "every way of entering a round and every choke received",
  "the tests run nodes in step, where nobody has to catch up", [("sending", "src/state/process.rs handle_brake"),
                                                                ("catching up", "src/state/process.rs handle_signed_choke")])
p("C51", "Validly signed messages pass the verification",
  "Every proposal, vote and choke with a valid signature of its author, and every certificate whose signers have more than two "
  "thirds of the vote weight and whose aggregated signature is valid, alone or as the lock of a proposal, comes out of the "
  "verification exactly once, unchanged and with its own context. A message is left out only because one of these checks failed.",
  ["inputs", "configurations"], "every message, authority list and outcome of the application's crypto",
  "the tests verify a few honest messages of small lists", [("verification", "src/state/parallel.rs"),
                                                          ("threshold and members", "src/utils/auth_manage.rs")])

NA = [
    ("N01", "No two nodes ever commit different blocks at one height",
     "Honest nodes never commit different blocks at the same height as long as less than one third of the vote weight "
     "is faulty.", ["schedules", "histories", "fault_sequences"],
     "all interleavings of all nodes, with arbitrary faulty minority",
     "the tests run a few random schedules",
     "agreement quantifies over the joint histories of several nodes; it follows from C01-C15 by the protocol's pen "
     "and paper proof, but the joint argument itself is a model-checking or proof task, not a static analysis of source",
     [("voting rules", SMR), ("quorum", QU)]),
    ("N02", "Every height is decided eventually when the network is timely",
     "If less than one third of the weight is faulty and messages eventually arrive in time, every height is "
     "eventually decided.", ["schedules", "fault_sequences"], "all fair schedules", "tests only see timely runs",
     "liveness under partial synchrony depends on relative message and timer delays at run time, which no static "
     "argument over the source bounds", [("round changes", SMR), ("timer", TM)]),
    ("N03", "Timers fire neither early nor unboundedly late",
     "A timeout fires no earlier than its interval and within a bounded delay after it.", ["schedules"],
     "all runtime loads", "tests run unloaded", "elapsed time is a property of the runtime and the timer library, not "
     "of this source", [("delay", TM)]),
    ("N05", "Memory stays bounded under message floods",
     "The memory a node uses stays bounded however many messages arrive.", ["inputs", "histories"],
     "all message streams", "tests send few messages",
     "the internal channels are unbounded and their fill level is a runtime quantity; the bounded part (which messages "
     "are stored) is C22", [("channels", OV)]),
]
