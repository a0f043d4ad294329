"""values passed on altered: process.rs"""
from mutlist import bug
P, M, SM, T = "src/state/process.rs", "src/smr/state_machine.rs", "src/smr/mod.rs", "src/types.rs"
bug("a_prop_proposer", "C27 C06 C29", (P, "            proposer: self.address.clone(),\n        };", "            proposer: if self.round == 0 { self.leader_address.clone() } else { self.address.clone() },\n        };"))
bug("a_prop_polc", "C27", (P, "            (block.to_owned(), hash, Some(polc))", "            (block.to_owned(), hash, Some(polc).filter(|p| p.lock_round + 5 >= self.round))"))
bug("a_prop_lockround", "C27 C10 C43", (P, "            hash: hash.clone(),\n            lock_round,\n            round: self.round,\n            height: self.height,\n            wal_info: None,\n        })?;\n\n        self.check_block", "            hash: hash.clone(),\n            lock_round: polc.map(|p| p.lock_round).filter(|r| *r > 0),\n            round: self.round,\n            height: self.height,\n            wal_info: None,\n        })?;\n\n        self.check_block"))
bug("a_check_height", "C13", (P, "        let height = self.height;\n        let round = self.round;\n        let function = Arc::clone(&self.function);\n        let resp_tx", "        let height = self.height.saturating_sub(u64::from(self.is_leader));\n        let round = self.round;\n        let function = Arc::clone(&self.function);\n        let resp_tx"))
bug("a_resp_hash", "C13 C43", (P, "        block_hash: hash,\n        is_pass: true,", "        block_hash: if round == 0 { hash } else { Hash::new() },\n        is_pass: true,"))
bug("a_proof_round", "C14", (P, "            round: qc.round,\n            block_hash: hash.clone(),\n            signature: qc.signature.clone(),", "            round: qc.round.max(self.round),\n            block_hash: hash.clone(),\n            signature: qc.signature.clone(),"))
bug("a_proof_sig", "C14", (P, "            signature: qc.signature.clone(),\n        };\n        let commit", "            signature: AggregatedSignature {\n                signature: qc.signature.signature.clone(),\n                address_bitmap: qc.signature.address_bitmap.iter().rev().cloned().collect(),\n            },\n        };\n        let commit"))
bug("a_commit_next", "C14", (P, "            .commit(ctx.clone(), height, commit)", "            .commit(ctx.clone(), height.max(self.round), commit)"))
bug("a_choke_from", "C50", (P, "            from: self.update_from_where.clone(),\n        };\n\n        let signature", "            from: match &self.update_from_where {\n                UpdateFrom::PrevoteQC(_) => UpdateFrom::PrecommitQC(mock_init_qc()),\n                from => from.clone(),\n            },\n        };\n\n        let signature"))
bug("a_wal_from", "C08 C25", (P, "            from: self.update_from_where.clone(),\n            lock,", "            from: if lock.is_some() { UpdateFrom::PrecommitQC(mock_init_qc()) } else { self.update_from_where.clone() },\n            lock,"))
bug("a_wal_content", "C08", (P, "                    lock_votes: qc,\n                    content: block.clone(),\n                })", "                    lock_votes: qc,\n                    content: self.hash_with_block.values().next().unwrap_or(block).clone(),\n                })"))
bug("a_wal_round", "C08", (P, "                Some(WalLock {\n                    lock_round: round,", "                Some(WalLock {\n                    lock_round: qc.round.max(self.round),"))
bug("a_vc_height", "C35", (P, ".report_view_change(Context::new(), self.height, round, reason)", ".report_view_change(Context::new(), self.height, round.min(self.round + 1), reason)"))
bug("a_vc_new", "C35", (P, "            self.report_view_change(last_round, reason);", "            self.report_view_change(last_round.max(new_round.saturating_sub(1)), reason);"))
bug("a_timer_event", "C32", (M, "        self.event.1.unbounded_send(event.clone()).map_err(|err| {\n            ConsensusError::ThrowEventErr(format!(\"event: {}, error: {:?}\", event.clone(), err))\n        })?;\n        Ok(())\n    }\n\n    fn throw_timer", "        let event = match event {\n            SMREvent::Brake { height, round, .. } if self.lock.is_some() => SMREvent::Brake { height, round: round + 1, lock_round: None },\n            event => event,\n        };\n        self.event.1.unbounded_send(event.clone()).map_err(|err| {\n            ConsensusError::ThrowEventErr(format!(\"event: {}, error: {:?}\", event.clone(), err))\n        })?;\n        Ok(())\n    }\n\n    fn throw_timer"))
bug("a_future_prop", "C40 C23 C22 C27", (P, "                .insert(ctx, height, round, signed_proposal.clone())?;", "                .insert(ctx, height, round.min(self.round + FUTURE_ROUND_GAP - 1), signed_proposal.clone())?;"))
bug("a_recheck_skip", "C23", (P, "        for item in votes_and_ctxs.into_iter() {\n            parallel_verify(", "        for item in votes_and_ctxs.into_iter().filter(|v| v.0.voter != self.address) {\n            parallel_verify("))
bug("a_recheck_round", "C23", (P, "        for item in proposals_and_ctxs.into_iter() {", "        for item in proposals_and_ctxs.into_iter().take_while(|p| p.0.proposal.round == INIT_ROUND) {"))
bug("a_qc_leader", "C04", (P, "            block_hash,\n            leader: self.address.clone(),\n        };\n        Ok(qc)", "            block_hash,\n            leader: self.leader_address.clone(),\n        };\n        Ok(qc)"))
bug("a_choke_round", "C42 C50", (P, "            round: choke.round + 1,\n            height: self.height,", "            round: choke.round.max(self.round) + 1,\n            height: self.height,"))
bug("a_choke_qc_round", "C42 C15 C50", (P, "        self.chokes.set_qc(choke.round, aggregated_choke);", "        self.chokes.set_qc(self.round, aggregated_choke);"))
bug("a_choke_thr", "C42", (P, "        if aggregated_choke.len() * 3 <= self.authority.len() * 2 {", "        if aggregated_choke.len() * 3 < self.authority.len() * 2 {"))
bug("a_choke_verify_msg", "C42 C02", (P, "            .hash(Bytes::from(rlp::encode(&aggregated_choke.to_hash())));\n        self.util", "            .hash(Bytes::from(rlp::encode(&crate::types::HashChoke {\n                height: self.height,\n                round: aggregated_choke.round.max(self.round),\n            })));\n        self.util"))
bug("a_vote_round", "C09 C43 C29", (P, "            round: self.round,\n            vote_type: vote_type.clone(),\n            block_hash: hash.clone(),\n        })?;", "            round: lock_round.map_or(self.round, |r| r.max(self.round)),\n            vote_type: vote_type.clone(),\n            block_hash: hash.clone(),\n        })?;"))
bug("a_resp_trigger", "C13 C11 C10 C45 C44", (P, "            if qc.round == self.round {\n", "            if qc.round >= self.round {\n"))
bug("a_resp_pass", "C13", (P, "            .insert(block_hash.clone(), resp.is_pass);", "            .insert(block_hash.clone(), resp.is_pass || resp.round < self.round);"))
bug("a_interval", "C24", (P, "            self.block_interval = interval;\n        }", "            self.block_interval = interval.max(self.block_interval / 2);\n        }"))
bug("a_flush", "C23", (P, "        self.votes.flush(new_height - 1);", "        self.votes.flush(new_height);"))
bug("a_sleep", "C47", (P, "            sleep(Duration::from_millis(self.block_interval) - cost).await;", "            sleep(Duration::from_millis(self.block_interval.min(60_000)).saturating_sub(cost)).await;"))
bug("a_next", "C47", (P, "self.next_proposer(status.height, INIT_ROUND)?", "self.next_proposer(self.height + 1, INIT_ROUND)?"))
bug("a_bit", "C31 C04", (P, "        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {\n            if set.contains(addr) {", "        for (index, addr) in self.authority.get_address_ref().iter().enumerate().take(64) {\n            if set.contains(addr) {"))
