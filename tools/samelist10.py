"""more refactorings: types of the node's fields, constructors, comparisons"""
import os, re
from mutlist import same
C, P, T, SM, ST = "src/state/collection.rs", "src/state/process.rs", "src/types.rs", "src/smr/state_machine.rs", "src/smr/smr_types.rs"


def text(f):
    return open(os.path.join("/repo", f)).read()


def rx(name, *subs):
    """(file, [(regex, replacement), ..]): whole-file edits"""
    ed = []
    for f, rs in subs:
        a = b = text(f)
        for r, w in rs:
            b, n = re.subn(r, w, b, flags=re.S)
            assert n, (name, r)
        ed.append((f, a, b))
    same(name, *ed)


rx("q9_full_set", (P, [("is_full_transaction: HashMap<Hash, bool>", "is_full_transaction: HashSet<Hash>"),
                       (r"is_full_transaction: HashMap::new\(\)", "is_full_transaction: HashSet::new()"),
                       (r"        self.is_full_transaction\s*\.insert\(block_hash.clone\(\), resp.is_pass\);", "        if resp.is_pass {\n            self.is_full_transaction.insert(block_hash.clone());\n        }"),
                       (r"        if self\s*\.is_full_transaction\s*\.get\(&proposal.proposal.block_hash\)\s*\.is_none\(\)", "        if !self\n            .is_full_transaction\n            .contains(&proposal.proposal.block_hash)"),
                       (r"        if hash.is_empty\(\) \{\n            return true;\n        \} else if let Some\(res\) = self.is_full_transaction.get\(hash\) \{\n            return \*res;\n        \}\n        false", "        hash.is_empty() || self.is_full_transaction.contains(hash)")]))
rx("q9_btree_state", (P, [("HashMap<Hash, T>", "BTreeMap<Hash, T>"), ("HashMap<Hash, bool>", "BTreeMap<Hash, bool>"), ("HashMap::new", "BTreeMap::new"), (r"use std::collections::\{HashMap, HashSet\}", "use std::collections::{BTreeMap, HashSet}")]))
rx("q9_btree_rounds", (C, [("general: HashMap<u64, RoundCollector>", "general: BTreeMap<u64, RoundCollector>"), (r"general: HashMap::new\(\)", "general: BTreeMap::new()"),
                           ("qc_by_hash: HashMap<Hash, QuorumCertificate>", "qc_by_hash: BTreeMap<Hash, QuorumCertificate>"), (r"qc_by_hash: HashMap::new\(\)", "qc_by_hash: BTreeMap::new()"),
                           ("qcs: HashMap<u64, AggregatedChoke>", "qcs: BTreeMap<u64, AggregatedChoke>"), (r"qcs: HashMap::new\(\)", "qcs: BTreeMap::new()"),
                           ("BTreeMap<u64, HashMap<Address, SignedChoke>>", "BTreeMap<u64, BTreeMap<Address, SignedChoke>>"), (r"\.or_insert_with\(HashMap::new\)\n            \.insert\(signed_choke", ".or_insert_with(BTreeMap::new)\n            .insert(signed_choke")]))
rx("q9_or_default", (C, [(r"\.or_insert_with\(HashMap::new\)", ".or_default()"), (r"\.or_insert_with\(HashSet::new\)", ".or_default()")]))
TR = r"SMRTrigger \{\s*trigger_type: ([^\n]*),\n\s*source: TriggerSource::State,\n\s*hash: ([^\n]*),\n\s*lock_round: None,\n\s*round: ([^\n]*),\n\s*height: ([^\n]*),\n\s*wal_info: None,\n\s*\}"
IMPL = "\nimpl SMRTrigger {\n    /// A trigger of the state without lock.\n    pub fn from_state(trigger_type: TriggerType, hash: Hash, round: u64, height: u64) -> Self {\n        SMRTrigger {\n            trigger_type,\n            source: TriggerSource::State,\n            hash,\n            lock_round: None,\n            round,\n            height,\n            wal_info: None,\n        }\n    }\n}\n"
rx("q9_trigger_ctor", (P, [(TR, r"SMRTrigger::from_state(\1, \2, \3, \4)")]), (ST, [(r"\Z", IMPL.replace("\\", "\\\\"))]))
rx("q9_trigger_with", (P, [(TR, r"SMRTrigger {\n            round: \3,\n            height: \4,\n            ..SMRTrigger::of_state(\1, \2)\n        }")]),
   (ST, [(r"\Z", IMPL.replace("from_state(trigger_type: TriggerType, hash: Hash, round: u64, height: u64)", "of_state(trigger_type: TriggerType, hash: Hash)").replace("            round,\n            height,", "            round: 0,\n            height: 0,"))]))
rx("q9_sm_tuple", (SM, [(r"if self.height != height \|\| self.round != round \{", "if (self.height, self.round) != (height, round) {")]))
rx("q9_vote_ctor", (P, [(r"Vote \{\n\s*height: ([^\n]*),\n\s*round: ([^\n]*),\n\s*vote_type: ([^\n]*),\n\s*block_hash: ([^\n]*),\n\s*\}", r"Vote::new(\1, \2, \3, \4)")]),
   (T, [(r"(pub struct Vote \{.*?\n\}\n)", r"\1\nimpl Vote {\n    /// A vote for a block.\n    pub fn new(height: u64, round: u64, vote_type: VoteType, block_hash: Hash) -> Self {\n        Vote {\n            height,\n            round,\n            vote_type,\n            block_hash,\n        }\n    }\n}\n")]))
rx("q9_at_here", (P, [(r"let choke = Choke \{\n            height: self.height,\n            round: self.round,\n", "let (height, round) = self.position();\n        let choke = Choke {\n            height,\n            round,\n"),
                      (r"    fn is_proposer\(", "    fn position(&self) -> (u64, u64) {\n        (self.height, self.round)\n    }\n\n    fn is_proposer(")]))
rx("q9_into_iter", (P, [(r"for item in (\w+)\.into_iter\(\) \{", r"for item in \1 {")]))
rx("q9_destruct", (P, [(r"for item in proposals_and_ctxs\.into_iter\(\) \{\n            parallel_verify\(\n                item.1,\n                OverlordMsg::SignedProposal\(item.0\),", "for (proposal, ctx) in proposals_and_ctxs {\n            parallel_verify(\n                ctx,\n                OverlordMsg::SignedProposal(proposal),")]))
rx("q9_stepguard", (P, [(r"if self\.filter_message\(height, round\) \{\n            return Ok\(\(\)\);\n        \}", "match self.filter_message(height, round) {\n            true => return Ok(()),\n            false => (),\n        }")]))
rx("q9_const_fn", (P, [(r"INIT_ROUND", "FIRST_ROUND"), (r"INIT_HEIGHT", "FIRST_HEIGHT"), (r"FIRST_ROUND", "crate::INIT_ROUND"), (r"FIRST_HEIGHT", "crate::INIT_HEIGHT"), (r"use crate::\{crate::INIT_HEIGHT, crate::INIT_ROUND\};|use crate::\{[^}]*INIT_[^}]*\};", lambda m: "")])) if "INIT_HEIGHT" in text(P) and False else None
