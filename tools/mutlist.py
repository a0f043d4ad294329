"""small changes of the code: bugs (expected to be reported) and changes that keep the behaviour (expected to be quiet)"""
P, SM, TM = "src/state/process.rs", "src/smr/state_machine.rs", "src/timer.rs"
AM, CO, PA, OV = "src/utils/auth_manage.rs", "src/state/collection.rs", "src/state/parallel.rs", "src/overlord.rs"
TY, CD, ST, WT, MO = "src/types.rs", "src/codec.rs", "src/smr/smr_types.rs", "src/wal/wal_type.rs", "src/smr/mod.rs"
M = []


def bug(id, expect, *edits, **kw):
    M.append(dict(id=id, kind="bug", expect=expect.split(), edits=edits, **kw))


def same(id, *edits, **kw):
    M.append(dict(id=id, kind="same", expect=[], edits=edits, **kw))


# ---------------------------------------------------------------- quorum and verification
bug("q_ge", "C01", (AM, "Ok(acc * 3 > self.vote_weight_sum * 2)", "Ok(acc * 3 >= self.vote_weight_sum * 2)"))
bug("q_half", "C01", (AM, "Ok(acc * 3 > self.vote_weight_sum * 2)", "Ok(acc * 2 > self.vote_weight_sum)"))
bug("q_div", "C01", (AM, "Ok(acc * 3 > self.vote_weight_sum * 2)", "Ok(acc > self.vote_weight_sum * 2 / 3 - 1)"))
bug("q_count", "C01", (AM, "acc += u64::from(*weight);", "acc += u64::from(*weight).max(1);"))
bug("q_propose_sum", "C01 C04", (AM, "self.vote_weight_sum += u64::from(vote_weight);", "self.vote_weight_sum += propose_weight;"))
bug("q_flush_sum", "C01 C04", (AM, "        self.propose_weight_sum = 0;\n        self.vote_weight_sum = 0;\n", "        self.propose_weight_sum = 0;\n"))
bug("q_flush_map", "C01 C04 C03", (AM, "        self.vote_weight_map.clear();\n", ""))
bug("q_voters_all", "C01 C31", (AM, "            .filter(|node| node.0)\n", "", 0))
bug("q_skip_sp", "C02", (PA, "                    log::error!(\n                        \"Overlord: verify {:?} proposal signature failed {:?}\",\n                        sp,\n                        err\n                    );\n                    return;", "                    log::error!(\n                        \"Overlord: verify {:?} proposal signature failed {:?}\",\n                        sp,\n                        err\n                    );"))
bug("q_polc_unverified", "C01", (PA, "if let Some(polc) = sp.proposal.lock {", "if let Some(polc) = sp.proposal.lock.filter(|l| l.lock_round > 0) {"))
bug("q_sv_addr", "C02 C03", (PA, "verify_signature(sc.signature.clone(), hash, sc.address.clone())", "verify_signature(sc.signature.clone(), hash, Address::from(sc.address.to_vec()[..].to_vec()))"))
bug("q_dup_voters", "C42", (P, "            if !voters.insert(voter) {", "            if !voters.insert(voter) && voters.is_empty() {"))
bug("q_choke_thr", "C42", (P, "if aggregated_choke.len() * 3 <= self.authority.len() * 2 {", "if aggregated_choke.len() * 3 < self.authority.len() * 2 {"))
bug("q_choke_noheight", "C42 C01", (P, "        if aggregated_choke.height != self.height {", "        if aggregated_choke.height < self.height {"))
bug("q_choke_unverified", "C42 C02", (P, "                    self.verify_aggregated_choke(&qc)?;\n", "                    if qc.len() < self.authority.len() {\n                        self.verify_aggregated_choke(&qc)?;\n                    }\n"))
bug("q_verify_addr", "C03", (P, "        self.verify_address(&voter)?;\n", "        if height == self.height {\n            self.verify_address(&voter)?;\n        }\n"))
bug("q_proposer_rnd", "C03 C18", (P, "if address != &self.authority.get_proposer(height, round)? {", "if address != &self.authority.get_proposer(height, round.max(self.round))? {"))
bug("q_proposer_height", "C03 C18", (P, "if address != &self.authority.get_proposer(height, round)? {", "if height == self.height && address != &self.authority.get_proposer(height, round)? {"))
bug("q_raw_less", "C02", (P, "                            Ordering::Equal => {\n                                parallel_verify(", "                            Ordering::Equal if msg.get_height() > 1_000_000 => {\n                                let _ = self.handle_msg(ctx, msg).await;\n                            }\n                            Ordering::Equal => {\n                                parallel_verify("))
bug("q_recheck_votes_direct", "C23 C02", (P, "        for item in votes_and_ctxs.into_iter() {\n            parallel_verify(\n                item.1,\n                OverlordMsg::SignedVote(item.0),\n                Arc::clone(&self.util),\n                self.authority.clone(),\n                self.verify_sig_tx.clone(),\n            )\n            .await;\n        }", "        for item in votes_and_ctxs.into_iter() {\n            let _ = self.verify_sig_tx.unbounded_send((item.1, OverlordMsg::SignedVote(item.0)));\n        }"))
bug("q_recheck_votes_skip", "C23", (P, "        for item in votes_and_ctxs.into_iter() {\n            parallel_verify(\n                item.1,\n                OverlordMsg::SignedVote(item.0)", "        for item in votes_and_ctxs.into_iter().skip(1) {\n            parallel_verify(\n                item.1,\n                OverlordMsg::SignedVote(item.0)"))
# ---------------------------------------------------------------- building certificates
bug("b_thr", "C04", (P, "            if acc * 3 > threshold {", "            if acc * 3 >= threshold {"))
bug("b_acc", "C04", (P, "            let mut acc = 0u64;\n            for addr in set.iter() {\n                acc += u64::from(*self.authority.get_vote_weight(addr)?);\n            }\n            if acc * 3 > threshold {", "            for addr in set.iter() {\n                acc += u64::from(*self.authority.get_vote_weight(addr)?);\n            }\n            if acc * 3 > threshold {"), (P, "        for (hash, set) in vote_map.iter() {\n", "        let mut acc = 0u64;\n        for (hash, set) in vote_map.iter() {\n"))
bug("b_len", "C04", (P, "            if acc * 3 > threshold {", "            if acc * 3 > threshold || set.len() * 3 > self.authority.len() * 2 {"))
bug("b_type", "C04", (P, "            .get_votes(self.height, self.round, vote_type.clone(), &block_hash)?\n            .into_iter()", "            .get_votes(self.height, self.round, VoteType::Prevote, &block_hash)?\n            .into_iter()"))
bug("b_bit_neg", "C31 C04", (P, "            if set.contains(addr) {\n                bit_map.set(index, true);", "            if set.contains(addr) {\n                bit_map.set(self.authority.len() - 1 - index, true);"))
bug("b_voters_order", "C04", (P, "            signatures.push(vote.signature);\n            voters.push(vote.voter);\n        }\n", "            signatures.push(vote.signature);\n            voters.push(vote.voter);\n        }\n        signatures.sort();\n"))
bug("b_round", "C04", (P, "            vote_type,\n            height: self.height,\n            round: self.round,\n            block_hash,\n            leader:", "            vote_type,\n            height: self.height,\n            round: self.update_from_where_round(),\n            block_hash,\n            leader:"), (P, "    async fn re_check_proposals(", "    fn update_from_where_round(&self) -> u64 {\n        match &self.update_from_where {\n            UpdateFrom::PrevoteQC(qc) => qc.round.max(self.round),\n            _ => self.round,\n        }\n    }\n\n    async fn re_check_proposals("))
bug("b_trunc", "C04", (P, "        for vote in votes.into_iter() {\n            signatures.push", "        for vote in votes.into_iter().take(64) {\n            signatures.push"))
bug("b_not_leader", "C04 C29", (P, "        if self.is_leader {\n            self.votes.insert_vote(\n                Context::new(),\n                signed_vote.get_hash(),\n                signed_vote,\n                self.address.clone(),\n            );\n        } else {", "        if self.is_leader || vote_type == VoteType::Precommit && self.leader_address.is_empty() {\n            self.votes.insert_vote(\n                Context::new(),\n                signed_vote.get_hash(),\n                signed_vote,\n                self.address.clone(),\n            );\n        } else {"))
bug("b_check_full", "C13", (P, "        self.broadcast(ctx, OverlordMsg::AggregatedVote(qc.clone()))\n            .await;\n\n        if !self.try_get_full_txs(&block_hash) {\n            return Ok(());\n        }\n", "        self.broadcast(ctx, OverlordMsg::AggregatedVote(qc.clone()))\n            .await;\n\n        if vote_type == VoteType::Prevote && !self.try_get_full_txs(&block_hash) {\n            return Ok(());\n        }\n"))
bug("b_full_true", "C13", (P, "            return *res;\n        }\n        false\n    }\n\n    fn set_update_from", "            return *res;\n        }\n        self.is_leader && self.hash_with_block.contains_key(hash)\n    }\n\n    fn set_update_from"))
bug("b_full_clear", "C13 C23", (P, "        self.is_full_transaction.clear();\n", "        if !self.is_leader {\n            self.is_full_transaction.clear();\n        }\n"))
bug("b_resp_height", "C13 C26", (P, "        if resp.height != self.height {\n            return Ok(());", "        if resp.height < self.height && resp.round == 0 {\n            return Ok(());"))
bug("b_resp_prevround", "C01 C13 C10 C15 C26", (P, "            if qc.round == self.round {\n                self.state_machine.trigger(SMRTrigger {\n                    trigger_type: TriggerType::PrevoteQC,", "            if qc.round <= self.round {\n                self.state_machine.trigger(SMRTrigger {\n                    trigger_type: TriggerType::PrecommitQC,"))
# ---------------------------------------------------------------- collections
bug("c_vote_twice", "C05", (CO, "            return;\n        }\n\n        self.by_hash\n            .entry(hash)", "            if vote.vote.block_hash == exist.0.vote.block_hash {\n                return;\n            }\n        }\n\n        self.by_hash\n            .entry(hash)"))
bug("c_qc_overwrite", "C05", (CO, "        if qc.is_prevote_qc() {\n            self.prevote = Some(qc);\n        } else {\n            self.precommit = Some(qc);", "        if qc.is_prevote_qc() {\n            self.prevote = Some(qc);\n        } else {\n            self.prevote = None;\n            self.precommit = Some(qc);"))
bug("c_flush", "C23 C05 C22", (P, "        self.votes.flush(new_height - 1);", "        self.votes.flush(new_height + 1);"))
bug("c_flush2", "C23", (P, "        self.proposals.flush(new_height - 1);", "        self.proposals.flush(new_height - new_height.min(8));"))
bug("c_prop_replace", "C40", (CO, "            if sp == &proposal {\n                return Ok(());\n            }\n            return Err", "            if sp == &proposal || sp.proposal.lock.is_none() && proposal.proposal.lock.is_some() {\n                self.0.insert(round, (proposal, ctx));\n                return Ok(());\n            }\n            return Err"))
bug("c_choke_max", "C41 C42", (CO, "self.chokes.iter().rev() {", "self.chokes.iter() {"))
bug("c_choke_thr", "C41 C42", (CO, "if set.len() * 3 > nodes_num * 2 {", "if set.len() * 3 > nodes_num * 2 - 2 {"))
bug("c_choke_key", "C41", (CO, ".insert(signed_choke.address.clone(), signed_choke);", ".insert(signed_choke.signature.clone(), signed_choke);"))
bug("c_choke_clear", "C41 C23", (CO, "        self.chokes.clear();\n        self.qcs.clear();", "        self.chokes.clear();"))
bug("c_type", "C05", (CO, "            VoteType::Prevote => self.prevote.get_votes(hash),\n            VoteType::Precommit => self.precommit.get_votes(hash),", "            VoteType::Prevote => self.prevote.get_votes(hash),\n            VoteType::Precommit => self.precommit.get_votes(hash).or_else(|| self.prevote.get_votes(hash)),"))
bug("c_getall", "C05 C23", (CO, "                    votes.append(&mut rc.prevote.get_all_votes());\n                    votes.append(&mut rc.precommit.get_all_votes());", "                    votes.append(&mut rc.prevote.get_all_votes());\n                    if votes.is_empty() {\n                        votes.append(&mut rc.precommit.get_all_votes());\n                    }"))
bug("c_qcs", "C05 C23", (CO, "        if let Some(tmp) = self.precommit.clone() {\n            res.push(tmp);\n        }\n        res", "        if let (Some(tmp), true) = (self.precommit.clone(), res.is_empty()) {\n            res.push(tmp);\n        }\n        res"))
bug("c_hash_key", "C05", (P, "            signed_vote.get_hash(),\n            signed_vote.clone(),\n            voter,", "            signed_vote.vote.block_hash.slice(..signed_vote.vote.block_hash.len().min(32)),\n            signed_vote.clone(),\n            voter,"))
# ---------------------------------------------------------------- window
bug("w_height", "C22", (P, "        } else if self.height + FUTURE_HEIGHT_GAP < height {", "        } else if self.height + FUTURE_HEIGHT_GAP * (1 + round) < height {"))
bug("w_round", "C22", (P, "            || (height > self.height && round > FUTURE_ROUND_GAP)", "            || (height == self.height + 1 && round > FUTURE_ROUND_GAP)"))
bug("w_qc", "C22", (P, "if self.height + FUTURE_HEIGHT_GAP > vote_height && vote_round < FUTURE_ROUND_GAP {", "if self.height + FUTURE_HEIGHT_GAP > vote_height || vote_round < FUTURE_ROUND_GAP {"))
bug("w_old", "C22", (P, "                log::debug!(\n                    \"Overlord: state receive an outdated QC, height {}, round {}\",\n                    vote_height,\n                    vote_round,\n                );\n", "                self.votes.set_qc(aggregated_vote);\n"))
bug("w_ovf", "C21 C22", (P, "        } else if self.height + FUTURE_HEIGHT_GAP < height {", "        } else if self.height < height - FUTURE_HEIGHT_GAP {"))
bug("w_choke", "C22 C42", (P, "        if choke_round < self.round {\n            return Ok(());\n        }\n", ""))
# ---------------------------------------------------------------- log
bug("l_choke_first", "C07", (P, "        self.save_wal_with_lock_round(Step::Brake, lock_round)\n            .await?;\n        self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n            .await;", "        self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n            .await;\n        self.save_wal_with_lock_round(Step::Brake, lock_round)\n            .await?;"))
bug("l_ignore", "C07", (P, "        self.save_wal(Step::Commit, polc).await?;", "        let _ = self.save_wal(Step::Commit, polc).await;"))
bug("l_vote_ignore", "C07", (P, "        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)\n            .await?;", "        if let Err(e) = self.save_wal_with_lock_round(vote_type.clone().into(), lock_round).await {\n            log::error!(\"{:?}\", e);\n            if !self.is_leader {\n                return Err(e);\n            }\n        }"))
bug("l_step", "C08", (P, "        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)", "        self.save_wal_with_lock_round(Step::Prevote, lock_round)"))
bug("l_round", "C08 C25", (P, "            height: self.height,\n            round: self.round,\n            step: step.clone(),", "            height: self.height,\n            round: if step == Step::Commit { INIT_ROUND } else { self.round },\n            step: step.clone(),"))
bug("l_lock_type", "C08", (P, "                .get_qc_by_id(self.height, round, VoteType::Prevote)\n            {\n                let block", "                .get_qc_by_id(self.height, round, VoteType::Precommit)\n            {\n                let block"))
bug("l_lock_none", "C08", (P, "            } else {\n                return Err(ConsensusError::Other(\"no qc\".to_string()));\n            }", "            } else {\n                None\n            }"))
bug("l_new_round_order", "C08 C07", (P, "        self.round = new_round;\n        self.is_leader = false;\n", "        self.is_leader = false;\n"), (P, "        // If self is not proposer, check whether it has received", "        self.round = new_round;\n        // If self is not proposer, check whether it has received"))
bug("l_restore_round", "C25", (P, "        self.round = wal_info.round;\n        self.is_leader", "        self.round = wal_info.round.min(wal_info.lock.as_ref().map_or(wal_info.round, |l| l.lock_round + 1));\n        self.is_leader"))
bug("l_restore_block", "C25", (P, "            self.votes.set_qc(qc.clone());\n            self.hash_with_block.insert(qc.block_hash, lock.content);", "            self.votes.set_qc(qc.clone());\n            if wal_info.step != Step::Brake {\n                self.hash_with_block.insert(qc.block_hash, lock.content);\n            }"))
bug("l_lock_round_smr", "C25", (WT, "            round: self.lock_round,\n            hash: self.lock_votes", "            round: self.lock_votes.round.min(self.lock_round),\n            hash: self.lock_votes"), kind2="equivalent?")
bug("l_smr_wal_lock", "C25 C10", (SM, "        self.lock = info.polc;\n", "        if self.step != Step::Propose {\n            self.lock = info.polc;\n        }\n"))
bug("l_smr_wal_step", "C25 C09", (SM, "        self.step = info.step;\n", "        self.step = if info.step == Step::Precommit { Step::Prevote } else { info.step };\n"))
bug("l_wal_lost", "C25", (P, "            if self.height != INIT_HEIGHT {\n                return self.wal_lost();", "            if self.height > INIT_HEIGHT + 1 {\n                return self.wal_lost();"))
# ---------------------------------------------------------------- SMR
bug("s_vote_twice", "C09", (SM, "        if self.step > Step::Propose {\n            return Ok(());\n        }", "        if self.step > Step::Prevote {\n            return Ok(());\n        }"))
bug("s_prevote_step", "C09", (SM, "        if prevote_round == self.round && self.step > Step::Prevote {", "        if prevote_round == self.round && self.step > Step::Precommit {"))
bug("s_lock_le", "C10", (SM, "        if prevote_round < self.round {\n            return Ok(());\n        }\n\n        self.update_polc", "        if prevote_round + 1 < self.round {\n            return Ok(());\n        }\n\n        self.update_polc"))
bug("s_unlock_timer", "C10", (SM, "            let round = if let Some(lock) = &self.lock {\n                Some(lock.round)\n            } else {\n                self.block_hash = Hash::new();\n                None\n            };\n", "            let round = self.lock.take().map(|lock| lock.round);\n            self.block_hash = Hash::new();\n"))
bug("s_prevote_unlocked", "C10", (SM, "        } else if self.lock.is_none() {\n            self.set_proposal(proposal_hash);\n        }", "        } else if self.lock.as_ref().map_or(true, |l| l.round + 2 < self.round) {\n            self.set_proposal(proposal_hash);\n        }"))
bug("s_timer_prevote", "C10", (SM, "                (Some(lock.round), lock.hash.clone())\n            } else {\n                (None, Hash::new())", "                (Some(lock.round), lock.hash.clone())\n            } else {\n                (None, self.block_hash.clone())"))
bug("s_precommit_timer_block", "C11 C10", (SM, "                round: self.round,\n                block_hash: Hash::new(),\n                lock_round: round,\n            })?;\n            self.goto_step(Step::Precommit);\n            return Ok(());", "                round: self.round,\n                block_hash: self.block_hash.clone(),\n                lock_round: round,\n            })?;\n            self.goto_step(Step::Precommit);\n            return Ok(());"))
bug("s_commit_step", "C11", (SM, "        if self.step == Step::Commit {\n            return Ok(());", "        if self.step >= Step::Brake {\n            return Ok(());"))
bug("s_commit_round", "C11", (SM, "        self.check()?;\n        self.throw_event(SMREvent::Commit(precommit_hash))?;", "        if precommit_round > self.round + 1 {\n            return Ok(());\n        }\n        self.check()?;\n        self.throw_event(SMREvent::Commit(precommit_hash))?;"))
bug("s_newheight_eq", "C12", (SM, "        } else if height <= self.height {", "        } else if height < self.height {"))
bug("s_newheight_round", "C12", (SM, "        self.height = height;\n        self.round = INIT_ROUND;\n        self.goto_step(Step::Propose);\n        self.block_hash = Hash::new();", "        self.height = height;\n        self.round = INIT_ROUND;\n        self.goto_step(Step::Propose);\n        if self.lock.is_none() {\n            self.block_hash = Hash::new();\n        }"))
bug("s_nil_round", "C15", (SM, "            if precommit_round < self.round {\n                return Ok(());\n            }\n\n            self.round = precommit_round;", "            if precommit_round <= self.round && self.step < Step::Precommit {\n                return Ok(());\n            }\n\n            self.round = precommit_round;"))
bug("s_nil_round2", "C15", (SM, "            if precommit_round < self.round {\n                return Ok(());\n            }\n\n            self.round = precommit_round;", "            if precommit_round < self.round {\n                return Ok(());\n            }\n"))
bug("s_continue", "C15 C12", (SM, "        if height != self.height || round <= self.round {", "        if height != self.height || round == self.round {"))
bug("s_continue_lock", "C15", (SM, "            .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));\n        self.throw_event(SMREvent::NewRoundInfo {\n            height: self.height,\n            round: self.round + 1,", "            .filter(|lock| lock.round + 1 >= round)\n            .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));\n        self.throw_event(SMREvent::NewRoundInfo {\n            height: self.height,\n            round: self.round + 1,"))
bug("s_timer_precommit", "C17", (SM, "            if precommit_round != self.round {\n                return Ok(());\n            }\n\n            log::debug!(\n                \"Overlord: SMR goto brake", "            if precommit_round < self.round {\n                return Ok(());\n            }\n\n            log::debug!(\n                \"Overlord: SMR goto brake"))
bug("s_timer_prevote_round", "C17", (SM, "            if prevote_round != self.round {\n                return Ok(());\n            }\n", ""))
bug("s_events_one", "C32", (SM, "        self.event.1.unbounded_send(event.clone()).map_err(|err| {\n            ConsensusError::ThrowEventErr(format!(\"event: {}, error: {:?}\", event.clone(), err))\n        })?;\n        Ok(())\n    }\n\n    fn throw_timer_event", "        if let SMREvent::Commit(_) = event {\n            return Ok(());\n        }\n        self.event.1.unbounded_send(event.clone()).map_err(|err| {\n            ConsensusError::ThrowEventErr(format!(\"event: {}, error: {:?}\", event.clone(), err))\n        })?;\n        Ok(())\n    }\n\n    fn throw_timer_event"))
bug("s_step_order", "C09 C17", (ST, '    #[display(fmt = "Prevote step")]\n    Prevote,\n', ''), (ST, '    #[display(fmt = "Precommit step")]\n    Precommit,\n', '    #[display(fmt = "Precommit step")]\n    Precommit,\n    #[display(fmt = "Prevote step")]\n    Prevote,\n'))
# ---------------------------------------------------------------- timer
bug("t_cap", "C33", (TM, "            let mut coef = MAX_TIMEOUT_COEF;\n            if self.round < u64::from(MAX_TIMEOUT_COEF) {\n                coef = self.round as u32;\n            }", "            let coef = self.round as u32 % (MAX_TIMEOUT_COEF + 1);"))
bug("t_brake", "C16 C33", (TM, "            SMREvent::Brake { .. } => is_brake_timer = true,\n", "            SMREvent::Brake { .. } if self.round > 0 => is_brake_timer = true,\n            SMREvent::Brake { .. } => return Ok(()),\n"))
bug("t_round_guard", "C16 C17", (TM, "                if height < self.height || round < self.round {\n                    return Ok(());\n                }\n                (TriggerType::Proposal, round, height)", "                if height < self.height || round != 0 && round <= self.round {\n                    return Ok(());\n                }\n                (TriggerType::Proposal, round, height)"))
bug("t_height", "C16", (TM, "                if height > self.height {\n                    self.height = height;\n                }\n                self.round = round;", "                self.height = height;\n                self.round = self.round.max(round);"))
bug("t_conf", "C33 C24", (TM, "                if let Some(interval) = new_interval {\n                    self.config.set_interval(interval);\n                }\n                if let Some(config) = new_config {", "                if let Some(interval) = new_interval {\n                    self.config.set_interval(interval);\n                } else if let Some(config) = new_config {"))
bug("t_kind", "C16", (TM, "                (TriggerType::PrecommitQC, round, height)\n            }", "                if round < self.round {\n                    (TriggerType::BrakeTimeout, round, height)\n                } else {\n                    (TriggerType::PrecommitQC, round, height)\n                }\n            }"))
bug("t_revert_spin", "C28", (TM, "                        // The SMR is gone, an error here would be repeated forever.\n                        return Poll::Ready(None);", "                        return Poll::Ready(Some(ConsensusError::TimerErr(\"x\".to_string())));"))
# ---------------------------------------------------------------- heights, node
bug("h_status_le", "C12 C24", (P, "        if status.height <= self.height {", "        if status.height < self.height {"))
bug("h_status_gap", "C12 C24", (P, "        if status.height <= self.height {", "        if status.height <= self.height || status.authority_list.is_empty() {"))
bug("h_auth_early", "C24", (P, "        self.authority.update(&mut auth_list);\n\n        if let Some(interval)", "        if auth_list.len() != self.authority.len() {\n            self.authority.update(&mut auth_list);\n        }\n\n        if let Some(interval)"))
bug("h_no_round", "C12 C24", (P, "        self.height = new_height;\n        self.round = INIT_ROUND;\n", "        self.height = new_height;\n"))
bug("h_power", "C38", (P, "        self.consensus_power = status.is_consensus_node(&self.address);\n        if !self.consensus_power {", "        let power = status.is_consensus_node(&self.address);\n        self.consensus_power |= power;\n        if !power {"))
bug("h_power_evt", "C38", (P, "                    if !self.consensus_power {\n                        continue;\n                    }\n\n                    if let Err(e) = self.handle_event(evt).await{", "                    if let Err(e) = self.handle_event(evt).await{"))
bug("h_evt_height", "C26", (P, "            SMREvent::Brake {\n                height,\n                round,\n                lock_round,\n            } => {\n                if height != self.height {", "            SMREvent::Brake {\n                height,\n                round,\n                lock_round,\n            } => {\n                if height > self.height {"))
bug("h_commit_block", "C14", (P, "        let proof = Proof {\n            height,\n            round: qc.round,", "        let proof = Proof {\n            height,\n            round: self.round,"))
bug("h_commit_type", "C14", (P, "                .get_qc_by_hash(height, hash.clone(), VoteType::Precommit)\n        {\n            tmp.to_owned()", "                .get_qc_by_hash(height, hash.clone(), VoteType::Precommit)\n                .or_else(|| self.votes.get_qc_by_hash(height, hash.clone(), VoteType::Prevote))\n        {\n            tmp.to_owned()"))
bug("h_brake_round", "C26 C08", (P, "        if round != self.round {\n            return Err(ConsensusError::CorrectnessErr", "        if round > self.round {\n            return Err(ConsensusError::CorrectnessErr"))
bug("h_leader_stale", "C29 C18", (P, "        self.leader_address = proposer;\n        self.is_leader = false;\n        Ok(false)", "        if self.round == INIT_ROUND {\n            self.leader_address = proposer;\n        }\n        self.is_leader = false;\n        Ok(false)"))
bug("h_vote_addr", "C29", (P, "                signed_vote,\n                self.address.clone(),\n            );\n        } else {", "                signed_vote,\n                self.leader_address.clone(),\n            );\n        } else {"), kind2="equivalent?")
bug("h_propose_lock", "C27", (P, "            let block = self.hash_with_block.get(&hash).ok_or_else(|| {\n                ConsensusError::ProposalErr(format!(\"Lose whole block that hash is {:?}\", hash))\n            })?;\n\n            // Create PoLC by prevoteQC.\n            let qc = self\n                .votes\n                .get_qc_by_id(self.height, round, VoteType::Prevote)", "            let block = self.hash_with_block.get(&hash).ok_or_else(|| {\n                ConsensusError::ProposalErr(format!(\"Lose whole block that hash is {:?}\", hash))\n            })?;\n\n            // Create PoLC by prevoteQC.\n            let qc = self\n                .votes\n                .get_qc_by_id(self.height, round, VoteType::Precommit)"))
bug("h_propose_round", "C27 C15", (P, "            lock_round,\n            round: self.round,\n            height: self.height,\n            wal_info: None,\n        })?;\n\n        self.check_block(ctx, hash, block).await;", "            lock_round: None,\n            round: self.round,\n            height: self.height,\n            wal_info: None,\n        })?;\n\n        self.check_block(ctx, hash, block).await;"))
bug("h_check_after", "C13 C27", (P, "        log::debug!(\"Overlord: state check the whole block\");\n        self.check_block(ctx, hash, block).await;", "        log::debug!(\"Overlord: state check the whole block\");\n        self.check_block(ctx, hash.clone(), self.hash_with_block.values().next().cloned().unwrap_or(block)).await;"))
bug("h_polc_round", "C01", (P, "                || polc.lock_round >= proposal_round\n", ""))
bug("h_polc_hash", "C01", (P, "                || qc.block_hash.is_empty()\n                || qc.block_hash != proposal.block_hash\n", "                || qc.block_hash.is_empty()\n"))
bug("h_view_round", "C35", (P, "            self.report_view_change(last_round, reason);", "            self.report_view_change(new_round - 1, reason);"))
bug("h_view_init", "C35", (P, "        if new_round != INIT_ROUND {\n            let last_round", "        if new_round > self.round {\n            let last_round"))
bug("h_stop", "C28", (P, "                })?;\n                self.stopped = true;\n                Ok(())", "                })?;\n                self.stopped = self.consensus_power;\n                Ok(())"))
bug("h_agg_prevote_old", "C21 C22", (P, "        if qc_type == VoteType::Prevote && vote_round < self.round {", "        if qc_type == VoteType::Prevote && vote_round + 1 < self.round {"))
bug("h_agg_drop_precommit", "C11", (P, "        } else if qc_type == VoteType::Precommit\n            && aggregated_vote.block_hash.is_empty()\n            && vote_round < self.round\n        {", "        } else if qc_type == VoteType::Precommit\n            && (aggregated_vote.block_hash.is_empty() || vote_round + 1 < self.round)\n            && vote_round < self.round\n        {"))
bug("h_ctx", "C40 C23", (P, "                .insert(ctx, height, round, signed_proposal.clone())?;\n            return Ok(true);", "                .insert(ctx, height, round.max(self.round), signed_proposal.clone())?;\n            return Ok(true);"))
# ---------------------------------------------------------------- leader
bug("e_len", "C18", (AM, "rotation_leader_index(height, round, self.address.len())", "rotation_leader_index(height, round, self.vote_weight_map.len())"), kind2="equivalent?")
bug("e_get_leader", "C18", (AM, "    authority_list.sort();\n    let mut weight_sum", "    authority_list.sort_by(|a, b| b.address.cmp(&a.address));\n    let mut weight_sum"))
bug("e_sort", "C18 C31", (AM, "        self.flush();\n        authority_list.sort();", "        self.flush();\n        if authority_list.len() < 128 {\n            authority_list.sort();\n        }"))
bug("e_extract", "C31", (AM, "    authority_list.sort();\n    let bitmap", "    let bitmap"))
bug("e_next", "C18 C27", (P, "        let proposer = self.authority.get_proposer(self.height, self.round)?;", "        let proposer = self.authority.get_proposer(self.height, self.round + self.chokes.len_hint())?;"), (CO, "    pub fn clear(&mut self) {\n        self.chokes.clear();", "    pub fn len_hint(&self) -> u64 {\n        self.chokes.len() as u64\n    }\n\n    pub fn clear(&mut self) {\n        self.chokes.clear();"))
bug("e_ord", "C18 C31", (TY, "impl Ord for Node {\n    fn cmp(&self, other: &Node) -> Ordering {\n        self.address.cmp(&other.address)", "impl Ord for Node {\n    fn cmp(&self, other: &Node) -> Ordering {\n        self.vote_weight.cmp(&other.vote_weight)"))
# ---------------------------------------------------------------- panics
bug("p_qc_unwrap", "C21", (P, "        let qc = self.generate_qc(block_hash.clone(), vote_type.clone())?;\n\n        log::debug!(", "        let qc = self.generate_qc(block_hash.clone(), vote_type.clone()).unwrap();\n\n        log::debug!("))
bug("p_map_index", "C21", (P, "        let content = if let Some(tmp) = self.hash_with_block.get(&hash) {\n            tmp.to_owned()\n        } else {", "        let content = if !self.hash_with_block.is_empty() {\n            self.hash_with_block[&hash].to_owned()\n        } else {"))
bug("p_bit_index", "C21", (AM, "        for node in bitmap.iter().zip(self.address.iter()) {\n            if node.0 {\n                if let Some(weight) = self.vote_weight_map.get(node.1) {", "        for node in self.address.iter().enumerate() {\n            if bitmap[node.0] {\n                if let Some(weight) = self.vote_weight_map.get(node.1) {"))
bug("p_round_add", "C21", (P, "        let proposal_round = signed_proposal.proposal.round;\n", "        let proposal_round = signed_proposal.proposal.round;\n        log::debug!(\"next round would be {}\", proposal_round + 1);\n"))
# ---------------------------------------------------------------- evidence dropped
bug("v_resp_precommit", "C11", (P, "            self.state_machine.trigger(SMRTrigger {\n                trigger_type: TriggerType::PrecommitQC,", "            if qc.round < self.round {\n                return Ok(());\n            }\n            self.state_machine.trigger(SMRTrigger {\n                trigger_type: TriggerType::PrecommitQC,"))
bug("v_choke_check", "C15", (P, "        self.check_choke_above_threshold()?;\n        Ok(())\n    }\n\n    /// Verify the height", "        if self.is_leader {\n            self.check_choke_above_threshold()?;\n        }\n        Ok(())\n    }\n\n    /// Verify the height"))
bug("v_choke_from", "C15", (P, "                    if qc.height == self.height {\n                        parallel_verify(", "                    if qc.height == self.height && qc.round > self.round {\n                        parallel_verify("))
bug("v_smr_early", "C15 C11 C17", (SM, "        if height != self.height || round <= self.round {", "        if round > self.round + 10 || height != self.height || round <= self.round {"))
bug("p_slice", "C21", (P, "        let proposal_round = signed_proposal.proposal.round;\n", "        let proposal_round = signed_proposal.proposal.round;\n        log::debug!(\"{:?}\", signed_proposal.proposal.block_hash.slice(..8));\n"))
bug("p_remove", "C21", (P, "        let proposal_round = signed_proposal.proposal.round;\n", "        let proposal_round = signed_proposal.proposal.round;\n        let mut x = signed_proposal.signature.to_vec();\n        if x.remove(0) == 7u8 {\n            return Ok(());\n        }\n"))
# ---------------------------------------------------------------- start of a height, initial state
bug("n_from_prevote", "C12", (SM, "            from_where: FromWhere::PrecommitQC(u64::max_value()),", "            from_where: FromWhere::PrevoteQC(u64::max_value()),", 0))
bug("n_from_choke", "C12", (SM, "            from_where: FromWhere::PrecommitQC(u64::max_value()),", "            from_where: FromWhere::ChokeQC(u64::max_value()),", 0))
bug("n_from_zero", "C12", (SM, "            from_where: FromWhere::PrecommitQC(u64::max_value()),", "            from_where: FromWhere::PrecommitQC(height - 1),", 0))
bug("n_from_node", "C12", (P, "                let qc = if round == u64::max_value() {", "                let qc = if round == u64::max_value() && self.height <= 1 {"))
bug("n_init_height", "C12", (SM, "            height: INIT_HEIGHT,", "            height: 1,"))
bug("n_pending_none", "C28", (SM, "            Poll::Pending => Poll::Pending,", "            Poll::Pending => Poll::Ready(None),"))
# ---------------------------------------------------------------- timely proposals and certificates are answered
bug("a_prop_nonempty", "C43", (SM, "} else if proposal_hash.is_empty() {", "} else if !proposal_hash.is_empty() {"))
bug("a_prop_empty", "C43", (SM, "} else if proposal_hash.is_empty() {", "} else if proposal_hash.is_empty() && self.lock.is_none() {"))
bug("a_prop_newlock", "C43", (SM, "                if lock_round > lock.round {", "                if lock_round > lock.round && self.block_hash != lock.hash {"))
bug("a_prop_fork", "C43", (SM, "} else if lock_round == lock.round && proposal_hash != self.block_hash {", "} else if proposal_hash != self.block_hash {"))
bug("a_step_pv", "C43", (SM, "            lock_round: round,\n        })?;\n        self.goto_step(Step::Prevote);", "            lock_round: round,\n        })?;\n        self.goto_step(if round.is_some() { Step::Precommit } else { Step::Prevote });"))
bug("a_step_pc", "C43", (SM, "            lock_round: round,\n        })?;\n        self.goto_step(Step::Precommit);\n        Ok(())", "            lock_round: round,\n        })?;\n        self.goto_step(if round.is_none() { Step::Brake } else { Step::Precommit });\n        Ok(())"))
bug("a_pqc_le", "C43", (SM, "        if prevote_round < self.round {", "        if prevote_round < self.round || (prevote_round == self.round && self.step < Step::Prevote) {"))
bug("a_sp_lock", "C43", (P, "|| polc.lock_round >= proposal_round\n", "|| polc.lock_round + 1 >= proposal_round\n"))
bug("a_sp_next", "C43", (P, "            self.proposals\n                .insert(ctx, height, round, signed_proposal.clone())?;\n            return Ok(true);", "            if height == self.height {\n                self.proposals\n                    .insert(ctx, height, round, signed_proposal.clone())?;\n            }\n            return Ok(true);"))
bug("a_nr_stored", "C43", (P, "            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {", "            if lock_round.is_some() {\n                return Ok(());\n            }\n            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {"))
bug("a_sp_check", "C43", (P, "        self.check_block(ctx, hash, block).await;\n        Ok(())\n    }\n\n    async fn handle_vote_event", "        if lock_round.is_none() {\n            self.check_block(ctx, hash, block).await;\n        }\n        Ok(())\n    }\n\n    async fn handle_vote_event"))
# ---------------------------------------------------------------- votes become certificates
bug("b_more", "C44", (P, "            if acc * 3 > threshold {\n                return Ok(Some(hash.to_owned()));\n            }", "            if acc * 3 > threshold {\n                return Ok(Some(hash.to_owned()));\n            }\n            if acc * 2 > threshold {\n                return Ok(None);\n            }"))
bug("b_first", "C44", (P, "                return Ok(Some(hash.to_owned()));\n            }\n        }\n        Ok(None)", "                return Ok(Some(hash.to_owned()));\n            }\n            break;\n        }\n        Ok(None)"))
bug("b_nonempty", "C44", (P, "            if acc * 3 > threshold {\n", "            if acc * 3 > threshold && (!hash.is_empty() || set.len() > 2) {\n"))
bug("b_len2", "C44", (P, "        let threshold = self.authority.get_vote_weight_sum() * 2;\n", "        let threshold = self.authority.get_vote_weight_sum() * 2;\n        if len * 3 <= self.authority.len() * 2 {\n            return Ok(None);\n        }\n"))
bug("b_qc_kind", "C44", (P, "            .get_qc_by_id(height, round, vote_type.clone())\n            .is_ok()\n", "            .get_qc_by_id(height, round, VoteType::Precommit)\n            .is_ok()\n"))
bug("b_future_vote", "C44", (P, "        // All the votes must pass the verification of signature", "        if height > self.height && self.is_leader {\n            return Ok(());\n        }\n        // All the votes must pass the verification of signature"))
bug("b_round_vote", "C44", (P, "        if height > self.height {\n            return Ok(());\n        }\n\n        let block_hash = self.counting_vote", "        if height > self.height || !self.is_leader {\n            return Ok(());\n        }\n\n        let block_hash = self.counting_vote"))
bug("b_no_cast", "C44", (P, "            self.broadcast(Context::new(), OverlordMsg::AggregatedVote(qc))\n                .await;\n", "            if !block_hash.is_empty() {\n                self.broadcast(Context::new(), OverlordMsg::AggregatedVote(qc))\n                    .await;\n            }\n"))
bug("b_own_once", "C44", (P, "        self.vote_process(vote_type).await?;\n        Ok(())", "        if !self.is_leader || lock_round.is_some() || vote_type == VoteType::Prevote {\n            self.vote_process(vote_type).await?;\n        }\n        Ok(())"))
# ---------------------------------------------------------------- orders are carried out
bug("o_vote_full", "C45", (P, "        let signed_vote = self.sign_vote(Vote {", "        if vote_type == VoteType::Precommit && !self.try_get_full_txs(&hash) {\n            return Ok(());\n        }\n        let signed_vote = self.sign_vote(Vote {"))
bug("o_vote_empty", "C45", (P, "        let signed_vote = self.sign_vote(Vote {", "        if hash.is_empty() && lock_round.is_none() && self.round > 0 {\n            return Ok(());\n        }\n        let signed_vote = self.sign_vote(Vote {"))
bug("o_brake_leader", "C45", (P, "        let choke = Choke {", "        if self.is_leader && lock_round.is_some() {\n            return Ok(());\n        }\n        let choke = Choke {"))
bug("o_brake_once", "C45", (P, "        self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n            .await;\n", "        if !matches!(self.update_from_where, UpdateFrom::ChokeQC(_)) {\n            self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n                .await;\n        }\n"))
bug("o_commit_round", "C45", (P, "        let polc = Some(WalLock {\n            lock_round: self.round,", "        if qc.round < self.round {\n            return Err(ConsensusError::StorageErr(\"Old precommit QC\".to_string()));\n        }\n        let polc = Some(WalLock {\n            lock_round: self.round,"))
bug("o_commit_next", "C45 C24", (P, "        self.goto_new_height(ctx, status).await?;\n        Ok(())\n    }", "        if self.consensus_power && status.height == height + 1 {\n            self.goto_new_height(ctx, status).await?;\n        }\n        Ok(())\n    }"))
bug("o_resp_prevote", "C45", (P, "        } else if let Some(qc) =\n            self.votes\n                .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)\n        {", "        } else if self.is_leader {\n            return Ok(());\n        } else if let Some(qc) =\n            self.votes\n                .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)\n        {"))
bug("o_round_power", "C45", (P, "        if lock_round.is_some().bitxor(lock_proposal.is_some()) {", "        if lock_round.is_some() && lock_round == Some(new_round) || lock_round.is_some().bitxor(lock_proposal.is_some()) {"))

# ---------------------------------------------------------------- C46
bug("i_stopped", "C46", (P, "            stopped: false,", "            stopped: true,"))
bug("i_power_all", "C46", (P, "            consensus_power: auth.contains(&addr),", "            consensus_power: init_height == 0 || auth.contains(&addr),"))
bug("i_power_new", "C46", (P, "            consensus_power: auth.contains(&addr),", "            consensus_power: !addr.is_empty(),"))
bug("i_height", "C46 C37", (P, "            height: init_height,", "            height: init_height.max(1),"))
bug("i_round", "C46", (P, "            round: INIT_ROUND,\n            state_machine: smr,", "            round: INIT_ROUND + 1,\n            state_machine: smr,"))
bug("i_leader", "C46", (P, "            is_leader: false,", "            is_leader: init_height == 0,"))
bug("i_auth_part", "C46", (P, "        auth.update(&mut authority_list);\n\n        let state", "        authority_list.retain(|n| n.vote_weight > 0);\n        auth.update(&mut authority_list);\n\n        let state"))
bug("i_sm_height", "C46", (SM, "            height: INIT_HEIGHT,", "            height: 1,"))
bug("i_sm_round", "C46", (SM, "            round: INIT_ROUND,\n            step: Step::default(),", "            round: 1,\n            step: Step::default(),"))
bug("i_sm_lock", "C46", (SM, "            lock: None,\n            trigger", "            lock: Some(Lock { round: INIT_ROUND, hash: Hash::new() }),\n            trigger"))
bug("i_sm_step", "C46", (ST, "        Step::Commit\n    }", "        Step::Propose\n    }"))
# ---------------------------------------------------------------- C47
bug("p_no_wait", "C47", (P, "            sleep(Duration::from_millis(self.block_interval) - cost).await;", ""))
bug("p_wait_all", "C47", (P, "        if self.next_proposer(status.height, INIT_ROUND)?\n            && cost", "        if self.next_proposer(status.height, INIT_ROUND).is_ok()\n            && cost"))
bug("p_wait_full", "C47", (P, "            sleep(Duration::from_millis(self.block_interval) - cost).await;", "            sleep(Duration::from_millis(self.block_interval)).await;"))
bug("p_wait_cost", "C47", (P, "            sleep(Duration::from_millis(self.block_interval) - cost).await;", "            sleep(cost).await;"))
bug("p_round", "C47", (P, "self.next_proposer(status.height, INIT_ROUND)?", "self.next_proposer(status.height, self.round)?"))
bug("p_height", "C47", (P, "self.next_proposer(status.height, INIT_ROUND)?", "self.next_proposer(height, INIT_ROUND)?"))
bug("p_old_list", "C47", (P, "        let mut auth_list = status.authority_list.clone();\n        self.authority.update(&mut auth_list);\n        let cost", "        let cost"))
bug("p_clock", "C47", (P, "        self.height_start = Instant::now();\n        let mut", "        let mut"))
bug("p_secs", "C47", (P, "            && cost < Duration::from_millis(self.block_interval)\n        {\n            sleep(Duration::from_millis(self.block_interval) - cost).await;", "            && cost < Duration::from_secs(self.block_interval / 1000)\n        {\n            sleep(Duration::from_secs(self.block_interval / 1000) - cost).await;"))
bug("p_new_interval", "C47", (P, "        let cost = Instant::now() - self.height_start;\n", "        let cost = Instant::now() - self.height_start;\n        self.block_interval = status.interval.unwrap_or(0);\n"))
bug("p_later_round", "C47", (P, "            && cost < Duration::from_millis(self.block_interval)\n", "            && self.round == INIT_ROUND\n            && cost < Duration::from_millis(self.block_interval)\n"))
bug("p_brake_wrong", "C45", (P, "        self.chokes.insert(self.round, signed_choke.clone());", "        self.chokes.insert(self.height, signed_choke.clone());"))
bug("p_brake_own", "C45", (P, "        );\n\n        self.chokes.insert(self.round, signed_choke.clone());", "        );\n\n        if !self.is_leader {\n            self.chokes.insert(self.round, signed_choke.clone());\n        }"))
A = "src/utils/auth_manage.rs"
bug("q_thr_rev", "C01", (A, "for node in bitmap.iter().zip(self.address.iter()) {", "for node in bitmap.iter().zip(self.address.iter().rev()) {"))
bug("q_thr_rev2", "C01", (A, "for node in bitmap.iter().zip(self.address.iter()) {", "for node in bitmap.iter().rev().zip(self.address.iter()) {"))
bug("q_voters_rev", "C01", (A, "            .iter()\n            .zip(self.address.iter())", "            .iter()\n            .rev()\n            .zip(self.address.iter())"))
bug("q_voters_rev2", "C01", (A, "            .zip(self.address.iter())", "            .zip(self.address.iter().rev())"))
RPF = "src/utils/rand_proposer.rs"
bug("t_round2", "C48", (A, "wrapping_add(round) % (len as u64)", "wrapping_add(round.wrapping_mul(2)) % (len as u64)"))
bug("t_first", "C48", (A, "get_primes_less_than_x(len).last()", "get_primes_less_than_x(len).first()"))
bug("t_incl", "C48", (A, "get_primes_less_than_x(len).last()", "get_primes_less_than_x(len + 1).last()"))
bug("t_noheight", "C48", (A, "    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);", "    let res = (height / 2).wrapping_mul(prime_num).wrapping_add(round) % (len as u64);"))
bug("t_stay", "C48", (A, "    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);", "    let round = if round % 10 == 9 { round - 1 } else { round };\n    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);"))
bug("t_len", "C48", (A, "    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);", "    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64 - u64::from(len > 3));"))
bug("t_cap_round", "C48", (A, "    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);", "    let res = height.wrapping_mul(prime_num).wrapping_add(round.min(15)) % (len as u64);"))
bug("t_draw_le", "C48", (RPF, "if random_digit < acc * tmp", "if random_digit <= acc * tmp"))
bug("t_draw_once", "C48", (RPF, "    while random_digit >= weight_sum * tmp {\n        random_digit = rng.next_u64();\n    }\n", ""))
bug("t_draw_rem", "C48", (RPF, "    while random_digit >= weight_sum * tmp {\n        random_digit = rng.next_u64();\n    }\n", "    random_digit %= weight_sum * tmp;\n"))
bug("t_draw_after", "C48", (RPF, "        acc += *weight;\n        if random_digit < acc * tmp {\n            return index;\n        }\n", "        if random_digit < acc * tmp {\n            return index;\n        }\n        acc += *weight;\n"))
bug("t_draw_one", "C48", (RPF, "        acc += *weight;\n", "        acc += (*weight).max(1);\n"))
bug("t_draw_u32", "C48", (RPF, "        random_digit = rng.next_u64();\n", "        random_digit = u64::from(rng.next_u32());\n"))
bug("t_draw_flip", "C48", (RPF, "if random_digit < acc * tmp", "if random_digit > acc * tmp"))
bug("t_sum_node", "C48", (A, "        let index = if cfg!(feature = \"random_leader\") {\n            get_random_proposer_index(\n                height.wrapping_add(round),\n                &self.propose_weights,\n                self.propose_weight_sum,", "        let index = if cfg!(feature = \"random_leader\") {\n            get_random_proposer_index(\n                height.wrapping_add(round),\n                &self.propose_weights,\n                self.vote_weight_sum,"))
bug("k_prop_drop", "C43", (P, "            self.proposals\n                .insert(ctx, height, round, signed_proposal.clone())?;\n            return Ok(true);", "            let _ = (ctx, signed_proposal);\n            return Ok(true);"))
bug("k_prop_next_height", "C43", (P, "            self.proposals\n                .insert(ctx, height, round, signed_proposal.clone())?;\n            return Ok(true);", "            if height == self.height {\n            self.proposals\n                .insert(ctx, height, round, signed_proposal.clone())?;\n            }\n            return Ok(true);"))
bug("k_prop_wrong_round", "C43", (P, "            self.proposals\n                .insert(ctx, height, round, signed_proposal.clone())?;\n            return Ok(true);", "            self.proposals\n                .insert(ctx, height, self.round, signed_proposal.clone())?;\n            return Ok(true);"))
bug("k_qc_drop", "C43", (P, "                    self.votes.set_qc(aggregated_vote);\n                } else {\n                    log::warn!", "                } else {\n                    log::warn!"))
bug("k_qc_kind", "C43", (P, "                    self.votes.set_qc(aggregated_vote);\n                } else {\n                    log::warn!", "                    if qc_type == VoteType::Precommit {\n                        self.votes.set_qc(aggregated_vote);\n                    }\n                } else {\n                    log::warn!"))
bug("k_qc_round0", "C43", (P, "vote_height && vote_round < FUTURE_ROUND_GAP {", "vote_height && vote_round == INIT_ROUND {"))
bug("k_qc_gap", "C43", (P, "if self.height + FUTURE_HEIGHT_GAP > vote_height && vote_round < FUTURE_ROUND_GAP {", "if self.height + FUTURE_HEIGHT_GAP < vote_height && vote_round < FUTURE_ROUND_GAP {"))
bug("k_gap", "C43", (P, "        } else if self.height + FUTURE_HEIGHT_GAP < height {", "        } else if self.height < height {"))
bug("k_own_qc", "C15", (P, "        let qc_hash = aggregated_vote.block_hash.clone();\n        self.votes.set_qc(aggregated_vote);\n", "        let qc_hash = aggregated_vote.block_hash.clone();\n        if vote_round == self.round {\n            self.votes.set_qc(aggregated_vote);\n        }\n"))
bug("k_stored_prop", "C43", (P, "        // If self is not proposer, check whether it has received current signed proposal before. If\n", "        if self.round > INIT_ROUND {\n            return Ok(());\n        }\n        // If self is not proposer, check whether it has received current signed proposal before. If\n"))
bug("k_reason_panic", "C21", (P, "        if proposal.is_err() {\n            return ViewChangeReason::NoProposalFromNetwork;\n        }\n", ""))
bug("k_power", "C38", (TY, "            .any(|node| node.address == address)", "            .any(|node| node.address != address)"))
bug("k_power2", "C38", (P, "        self.consensus_power = status.is_consensus_node(&self.address);", "        self.consensus_power |= status.is_consensus_node(&self.address);"))
bug("k_power3", "C38", (P, "        self.consensus_power = status.is_consensus_node(&self.address);", "        self.consensus_power = status.is_consensus_node(&self.leader_address);"))
bug("k_extract_rev", "C31", (A, "        .zip(authority_list.iter())", "        .zip(authority_list.iter().rev())"))
MOD = "src/smr/mod.rs"
bug("k_ev_term", "C37", (MOD, "        self.rx.is_terminated()", "        !self.rx.is_terminated()"))
bug("k_ev_skip", "C37", (MOD, "        self.rx.poll_next_unpin(cx)", "        match self.rx.poll_next_unpin(cx) {\n            Poll::Ready(Some(SMREvent::Brake { round: 0, .. })) => Poll::Pending,\n            other => other,\n        }"))
bug("k_ev_end", "C37", (MOD, "        self.rx.poll_next_unpin(cx)", "        match self.rx.poll_next_unpin(cx) {\n            Poll::Ready(Some(SMREvent::Stop)) => Poll::Ready(None),\n            other => other,\n        }"))
bug("k_w1", "C01", (TY, "        self.vote_weight = vote_weight;", "        self.vote_weight = vote_weight.max(1);"))
bug("k_w2", "C01", (TY, "        self.propose_weight = propose_weight;", "        self.vote_weight = propose_weight;"))
bug("k_w3", "C01", (TY, "            vote_weight: 1u32,", "            vote_weight: 0u32,"))
