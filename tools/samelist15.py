"""values passed on altered"""
from mutlist import same, bug
P, O = "src/state/process.rs", "src/overlord.rs"
bug("l_new_addr", "C37", (O, "address: RwLock::new(Some(address)),", "address: RwLock::new(Some(address.slice(0..address.len().min(20)))),"))
bug("l_run_auth", "C46", (P, "        auth.update(&mut authority_list);\n\n        let state", "        authority_list.retain(|node| node.propose_weight > 0);\n        auth.update(&mut authority_list);\n\n        let state"))
bug("l_run_auth2", "C46", (P, "        auth.update(&mut authority_list);\n\n        let state", "        authority_list.truncate(256);\n        auth.update(&mut authority_list);\n\n        let state"))
bug("l_wal_qc_kind", "C25", (P, "            self.votes.set_qc(qc.clone());\n            self.hash_with_block.insert(qc.block_hash, lock.content);", "            self.votes.set_qc(AggregatedVote {\n                vote_type: VoteType::Prevote,\n                ..qc.clone()\n            });\n            self.hash_with_block.insert(qc.block_hash, lock.content);"))
bug("l_wal_qc_round", "C25", (P, "            let qc = lock.lock_votes.clone();\n", "            let mut qc = lock.lock_votes.clone();\n            qc.round = self.round;\n"))
bug("l_wal_height", "C25", (P, "        self.height = wal_info.height;\n", "        self.height = wal_info.height.max(self.height);\n"))
bug("l_commit_content", "C14", (P, "            content,\n            proof,\n", "            content,\n            proof: Proof { round: self.round, ..proof },\n"))
