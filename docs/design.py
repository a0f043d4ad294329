#!/usr/bin/env python3
"""writes DESIGN.md: the general part below, one section per property (hand-written decision + the obligations of the last
run of its check, read from evidence/), the not-applicable list and the catch table of the planted bugs"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "docs"), os.path.join(V, "tools")]
import props

HEAD = open(os.path.join(V, "docs", "design_head.md")).read()
TAIL = open(os.path.join(V, "docs", "design_tail.md")).read()

# id: (how it is decided, oracle, bounds and assumptions)
D = {}


def d(i, how, oracle, bounds):
    D[i] = (how, oracle, bounds)


d("C01", "Every write that can file a certificate in the collections, and every use of one (trigger to the voting rules, lock of "
  "a proposal, certificate of a choke), must be dominated on its path by an Ok of `verify_aggregated_signature` over the vote "
  "the certificate stands for, with exactly the voters the bitmap names, and by `is_above_threshold` of that bitmap; or the "
  "certificate was built from counted votes (C04) or read from the own log. Separately `is_above_threshold`, `get_voters` and "
  "`update` of the authority list are summarised and compared with their definition (3*weight > 2*total, as exact integer "
  "terms; members = bits set; weights per member; no sum that can wrap).",
  "the definition of a quorum certificate, written as terms over the fields of the certificate",
  "cryptography is the application's contract; a zero total weight or duplicate addresses are local configuration")
d("C02", "The main loop's dispatch is analysed per message kind: a raw message can reach only the verification task (unchanged, "
  "with the node's crypto and authority list) or, for a future height, the filter-and-cache code, whose effects are limited to "
  "the caches. The verification task forwards a message only after the Ok of the signature check over the hash of exactly the "
  "forwarded content, once.",
  "the set of allowed effects per entry point", "raw bytes are decoded by the application before they reach the node")
d("C03", "For every effect on a path handling a vote or choke: a fact that the author is in the authority list; for a proposal: "
  "that its author equals the elected proposer of its height and round. The recorded voter is the address whose signature was "
  "checked.", "membership and election terms", "lists are those of the node's own status")
d("C04", "Each construction of an AggregatedVote with an own signature is traced back: its signatures are the map over the votes "
  "stored under (height, round, phase, hash), its bitmap is the membership of the same voters, and the path holds "
  "3*acc > 2*total with acc an exact sum of the voters' own weights.",
  "the definition of a certificate", "-")
d("C05", "The vote collector is summarised method by method: insert, query, flush and take of every entry are compared with the "
  "laws of a map from (height, round, phase) to votes by voter and by block (laws decided by equality of terms, both for the "
  "key used and for another key).", "algebraic laws of the collector", "-")
d("C06", "For every sent message: its signature is `sign(hash(encode(content)))` of the content in it. For every verified message: "
  "the verified hash is the hash of the same encoding of the same fields. The encoders of the signed types are analysed to "
  "contain each field completely and with different item counts (no confusion between kinds).",
  "the encoders themselves", "hash collisions and RLP canonicity of the library are trusted")
d("C07", "For every broadcast/transmit of an own proposal, vote or choke, every commit call and every new-height trigger, the path "
  "before it contains a successful `Wal::save` of a record with the step, height and round of that action.",
  "must-precede on every path, success by the Ok fact", "the application's Wal honours its contract")
d("C08", "The argument of every `Wal::save` is decoded as a term and compared field by field with the node state at that moment: "
  "height, round, step of the action, lock (hash, certificate, block) and the origin of the round.",
  "the node's state at the call", "the lock_round member of a commit record is not used on restart (harmless)")
d("C09", "The state machine's transition summary (all triggers) gives: vote orders only from the proper steps with a strictly "
  "later step afterwards, position (height, round, step) never decreases. The node's side: a signature is made only on such an "
  "order, at most once per event, for the ordered hash and phase.",
  "lexicographic order over terms", "events are delivered in FIFO order by the channel")
d("C10", "Transition summary: the lock field changes only with a sufficient reason on the path (prevote certificate of a round not "
  "older, new height, restored record); the vote ordered while locked is the locked block.", "Tendermint locking rule",
  "the restored lock is the one saved (C25)")
d("C11", "Transition summary + the node's side: commit order iff a precommit certificate of the height for a non-empty block; each "
  "such certificate known to the node and checked is handed to the state machine.", "commit rule",
  "no claim that the certificate arrives (liveness)")
d("C12", "Transition summary: height changes only by a higher new-height trigger; the state afterwards is the clean state; rounds "
  "never decrease.", "transition relation", "-")
d("C13", "Every trigger for a non-empty block requires the checked mark of that hash; marks are written only by the answer of a "
  "check of the current height; the check task sends an answer only after Ok of `check_block` with content and hash that come "
  "from one proposal; the content kept for a hash is never replaced.", "provenance of marks and contents",
  "the application's check_block decides validity; get_block answers the block of its hash")
d("C14", "Each `Consensus::commit` call: content is the one stored for the certified hash, proof fields are those of the stored "
  "precommit certificate.", "definition of a proof", "-")
d("C15", "Transition summary plus the node's choke handling: leaving a round needs a certificate of this or a later round (or a "
  "choke certificate), exactly one announcement with round, lock and origin; and the converse: each such evidence is obeyed "
  "(no path ignores it unless the listed stale conditions hold).", "round-change rule", "-")
d("C16", "The timer's poll function is analysed as one step of a loop: for every event the number of armed timers and what they "
  "carry; for a fired timer the trigger it causes; ignoring is allowed only when the node has left that position; the timer "
  "returns Pending only after both channels were found empty (no lost wake-up).", "table event -> timer -> timeout",
  "futures' channel and Delay contracts")
d("C17", "Transition summary for timeout triggers: effects only if height and round are current and the phase has not been left; "
  "otherwise the next phase of the same round with the lock unchanged.", "timeout rule", "-")
d("C18", "Dependence analysis of the election: the term of the leader contains only height, round and the sorted list; membership; "
  "the three consumers (expected leader, proposal check, vote target) use the same term. Run in both cargo feature "
  "configurations (random_leader).", "dependence set + equality of terms", "the distribution is C48")
d("C19", "Encoders are run on a symbolic value; the stream is a list term of typed items. Decoders are run on exactly these items "
  "and must return the value, field by field, on every path; item counts agree; enum codes are injective.",
  "decode(encode(x)) = x on terms", "Status: Some(0)/default settings stand for unset; RLP library and the application's codec trusted")
d("C20", "Decoders on an unknown input: every panic edge (unwrap, index, overflow, explicit panic) is unreachable, success only "
  "with a checked item count, and enum variants only for their own code.", "panic edges of MIR",
  "panics inside the RLP library are trusted away")
d("C21", "Every panic edge and arithmetic/index assertion reachable from the message handlers is either unreachable by facts or "
  "concerns only operands that no peer controls (own position, bounded windows, verified certificates).",
  "panic edges of MIR", "Codec::encode().unwrap() and dropped handlers are the application's contract; Display/Debug impls of "
  "messages are not analysed for panics")
d("C22", "Each insertion into a collector holds facts that bound height and round of the message by the window constants (or a "
  "verified certificate of the current height).", "difference bounds on terms", "the size of one round's entries is not bounded (N05)")
d("C23", "On every path that enters a height: chokes, marks and blocks are replaced by empty ones, the collectors are flushed with "
  "a bound that keeps the new height, and each early message taken out goes to the verification task of the new list and "
  "nowhere else. The collectors' flush/take laws are decided on the collector functions.", "effects per path + collector laws", "-")
d("C24", "On each path that adopts a status: authority list, settings, interval and height come from that status, in that order "
  "before the new-height trigger; a path with height <= current has no such effect.", "provenance of fields",
  "an answer of commit for a height not above the current one still updates the list (local application)")
d("C25", "Node and state machine restart paths: fields after the restore equal those of the record; the trigger tells the same; a "
  "vote step restarts after it, commit re-commits, choke is sent again.", "field-wise equality",
  "set_timer_after_wal cannot see the commit step (that path commits instead)")
d("C26", "All effects on paths handling events and check answers hold `height == self.height`; a decision needs a known "
  "certificate.", "guard facts", "-")
d("C27", "Each signed proposal is built on entering a round, behind the leader test of that position, once; with a lock it is the "
  "locked block and its prevote certificate, else the block the application gave for this height.", "provenance", "-")
d("C28", "Stop paths through handler, state machine, timer and main loop: the stop is forwarded and each loop ends; the loops' "
  "bodies end only then; nothing after the end of the main loop. Spawned loops end exactly at the end of their stream.",
  "loop-exit analysis", "tasks of the application and already spawned verification tasks finish on their own")
d("C29", "Each vote sent by `transmit` goes to the leader address that is the election term of (height, round); a leader inserts "
  "its vote under its own address instead.", "equality of terms", "stale address only if entering the round failed early")
d("C31", "Author and reader of bitmaps use the same sorted list (construction term of the bitmap vs `get_voters` / "
  "`extract_voters`), and the order is that of addresses alone.", "equality of terms", "-")
d("C32", "Every path that emits an event emits the same event to both channels in the same order.", "event sequence equality", "-")
d("C33", "The length of each armed sleep is compared with interval*numerator/denominator*2^min(round, cap) as a term; "
  "configuration fields change only with the settings of a status; no overflow by the round.", "the documented formula",
  "interval*ratio overflow by operator configuration is out of scope")
d("C35", "Per path of entering a round: exactly one report with the left round and the reason worked out from the same state; the "
  "reason function is effect free and matches the real cause by cases.", "decision table of reasons", "-")
d("C37", "Channel identity analysis of constructor, handler and run: senders and receivers belong to one channel, each message of "
  "the stream is processed exactly once per loop iteration with its own context; three tasks are started once.",
  "channel identities as terms", "-")
d("C38", "On every path with an own message or handled peer message: the membership flag is set; the flag is always the membership "
  "in the adopted list.", "guard facts", "-")
d("C40", "Collector laws of proposals as in C05, and the handler acts on a proposal only after it was accepted by the collector.",
  "algebraic laws", "-")
d("C41", "Collector laws of chokes; the threshold query returns a round only with 3*senders > 2*nodes, the greatest such round, "
  "and no round above the threshold is passed over (loop summary).", "algebraic laws", "node count, not weight (by design)")
d("C42", "Each ContinueRound trigger needs on its path either the node's own threshold query or an aggregate whose height, distinct "
  "member voters, signature and count were checked, and names the round after.", "guard facts", "-")
d("C43", "Transition summary, converse direction: no path on which a proper proposal or prevote certificate of the position may lie "
  "lacks its vote, and the step after a vote is that of the vote. Node side: a path that drops a proposal must contradict one of "
  "the conditions of a proper one (member, leader of the round, consistent lock, same block for the hash, position).",
  "feasibility of the proper case under the path's facts", "what a proposal later than the next round or height meets is not claimed")
d("C44", "Each path that records a vote of the position must hold, for the loop over the recorded votes, either a failing call, or the "
  "literal that no entry exceeds two thirds (the loop ran over all entries with exactly this exit condition), or make the "
  "certificate and broadcast it.", "exit condition of the counting loop", "-")
d("C45", "Each path of the node for an order of the current position must contain the ordered act, or one of the named failures "
  "(sign, save, missing evidence of the lock or of the round). Each path of a check result of the height writes the mark and "
  "queries the collector for certificates of both phases.", "feasibility of the order under the path's facts",
  "what the network does with the messages (N02, N03)")

d("C46", "`Overlord::run` is evaluated down to the main loop and the two spawned tasks; every field of the node and of the "
  "state machine handed over there is compared with the arguments, or has to be empty", "the arguments of `Overlord::run`",
  "what the log changes before the first message is C25; timer settings are C33")

d("C47", "On every path that commits, the comparison of the own address with the elected leader decides: with it false no sleep is "
  "reached, otherwise the path knows that the interval is over or sleeps exactly the rest of it before the height is written. "
  "On all other paths of the node no sleep may be reached, and every entered height starts the clock",
  "the interval minus the time since the clock started, as terms over `Instant::now`",
  "the leader is the one `get_proposer` names for the answered height, round 0 and answered list (C18)")

d("C48", "The place of the leader is taken as a term over height, round and list. With rotating leaders it must be a sum reduced "
  "modulo the number of members in which the round occurs once, the height once, multiplied with nothing or with the greatest "
  "prime below that number (which shares no factor with it), and no other condition may mention either. With random leaders the "
  "digit must be a generator output that is drawn anew, and only then, while it is not below the greatest multiple of the total, "
  "and a place is returned exactly if the digit is the first below the unit times the sum of the weights up to there",
  "the modular normal form and the recurrences of the loop variables",
  "the generator is taken as uniform; the discontinuity when height times prime plus round wraps at 2^64 is left out")
d("C49", "The bodies the serde derives expand to, and the two hexadecimal modules, are interpreted like all other code. From each "
  "serialize body the rule takes the names, numbers and order in which the fields or variants are written; from the visitors it "
  "takes which element of a sequence, which key of a map (through the identifier visitor and the recurrences of the loop over the "
  "keys) and which variant fills which place of the value. The two must be inverse, no complete input may be refused, and a "
  "field with its own functions must be read by the inverse of what it is written by: the reader is run on the term the writer "
  "produces and has to return the written value, hex_decode being the inverse of hex_encode",
  "composition of writer and reader as terms, element by element for lists",
  "hex_encode / hex_decode of the hummer crate, the impls of foreign types and the FIELDS lists given to the format are taken as "
  "right; identifiers given as bytes (visit_bytes) are not compared")
d("C50", "On every path of every entry point the choke that is broadcast, and the own choke put into the choke collector, is compared "
  "with the node at that moment: height, round, address, and the reason it entered its round; on every path that enters a round "
  "that reason must be the certificate the collector holds for the origin the state machine named. On every path of a received "
  "choke that may be a member's and of a later round, the certificate inside must be handed to the verification and so to the "
  "certificate handler with the node's own keys and list, or, for an aggregated choke that verified, be stored under its own round "
  "and followed by a round change to the next one; a path may leave it out only where it found the certificate wanting",
  "the state fields of the same path; the handlers' own reasons to refuse a certificate",
  "how an aggregated choke is refused is C02 and C42; what the handler then does with a vote certificate is C11 and C15")
d("C51", "Every path of the verification task of every kind of message (and of the caller where it spawns none) either sends the very "
  "message with its context to the given channel, once, or has found one of: the signature check of that message failed, the "
  "bitmap was found too light or not readable, the aggregated signature check failed. The threshold test and the list of the members "
  "of a bitmap are followed as well: they say no only with a sum of the members' weights that is not above two thirds, or for "
  "a member without a weight, which the authority list never has (C01)",
  "path facts about the crypto calls; the sum of weights as a fold over bitmap and list",
  "the crypto is the application's; that what is checked is what was signed is C02 and C06, the main loop's part is C37")


def main():
    out = [HEAD.rstrip(), "", "## The properties", ""]
    for i, q in sorted(props.P.items()):
        how, oracle, bounds = D[i]
        out += [f"### {i} {q['title']}", "", q["statement"], "", f"*Decision.* {how}", "", f"*Oracle.* {oracle}. "
                f"*Bounds and assumptions.* {bounds}. *Beyond tests.* {q['text'][0].upper() + q['text'][1:]}; {q['why']}.", ""]
        f = os.path.join(V, "evidence", i + ".json")
        if os.path.exists(f):
            c = json.load(open(f))["coverage"]
            out += [f"*Last run.* {c['functions_analysed']} functions, {c['paths']} paths. Obligations: " + "; ".join(
                f"{k} ({v['instances']})" for k, v in sorted(c["rules"].items()) if not k.startswith("presence")) + ".", ""]
    out += ["## Not applicable", ""]
    for x in props.NA:
        out += [f"- **{x[0]} {x[1]}**: {x[6]}"]
    out += ["", TAIL.rstrip(), "", "## Planted bugs", "",
            "Each is in `seeded/`, its demonstration fails with the change and passes without it, the 22 stable tests pass with it.", "",
            "| id | property | what it breaks | needs | reported by |", "|---|---|---|---|---|"]
    caught = {}
    cf = os.path.join(V, "docs", "caught.json")
    if os.path.exists(cf):
        caught = json.load(open(cf))
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        n = os.path.basename(os.path.dirname(f))
        out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(caught.get(n, [m['property']]))} |")
    open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")


main()
