"""more refactorings, around what C43, C44 and C45 speak about"""
from mutlist import same, P, SM, CO, AM

OLD = """        for (hash, set) in vote_map.iter() {
            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)"""
same("u_cnt_fn", (P, OLD, """        for (hash, set) in vote_map.iter() {
            if Self::weight_of(&self.authority, set)? * 3 > threshold {
                return Ok(Some(hash.clone()));
            }
        }
        Ok(None)"""), (P, "    fn counting_vote(&mut self", """    fn weight_of(authority: &AuthorityManage, set: &HashSet<Address>) -> ConsensusResult<u64> {
        let mut acc = 0u64;
        for addr in set.iter() {
            acc += u64::from(*authority.get_vote_weight(addr)?);
        }
        Ok(acc)
    }

    fn counting_vote(&mut self"""))
same("u_cnt_var", (P, OLD, """        let mut res = None;
        for (hash, set) in vote_map.iter() {
            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {
                res = Some(hash.to_owned());
                break;
            }
        }
        Ok(res)"""))
same("u_cnt_continue", (P, OLD, """        for (hash, set) in vote_map {
            let mut acc = 0u64;
            for addr in set {
                let weight = *self.authority.get_vote_weight(addr)?;
                acc += u64::from(weight);
            }
            if acc * 3 <= threshold {
                continue;
            }
            return Ok(Some(hash.to_owned()));
        }
        Ok(None)"""))
same("u_cnt_sum", (P, OLD, """        for (hash, set) in vote_map.iter() {
            let weights = set
                .iter()
                .map(|addr| self.authority.get_vote_weight(addr).map(|w| u64::from(*w)))
                .collect::<ConsensusResult<Vec<u64>>>()?;
            let acc: u64 = weights.iter().sum();
            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)"""))
same("u_cnt_trysum", (P, OLD, """        for (hash, set) in vote_map.iter() {
            let acc = set
                .iter()
                .map(|addr| self.authority.get_vote_weight(addr).map(|w| u64::from(*w)))
                .sum::<ConsensusResult<u64>>()?;
            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)"""))
same("u_cnt_thr", (P, "        let threshold = self.authority.get_vote_weight_sum() * 2;", "        let total = self.authority.get_vote_weight_sum();"),
     (P, "            if acc * 3 > threshold {", "            if 3 * acc > 2 * total {"))
same("u_cnt_tryfold", (P, OLD, """        for (hash, set) in vote_map.iter() {
            let acc = set.iter().try_fold(0u64, |acc, addr| {
                self.authority
                    .get_vote_weight(addr)
                    .map(|weight| acc + u64::from(*weight))
            })?;
            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)"""))
same("u_vote_match", (P, """        let block_hash = self.counting_vote(vote_type.clone())?;
        if block_hash.is_none() {
            log::debug!("Overlord: state counting of vote and no one above threshold");
            return Ok(());
        }
""", """        let block_hash = match self.counting_vote(vote_type.clone())? {
            Some(hash) => Some(hash),
            None => return Ok(()),
        };
"""))
same("u_vote_known", (P, """        if self
            .votes
            .get_qc_by_id(height, round, vote_type.clone())
            .is_ok()
        {
            return Ok(());
        }

        self.votes.insert_vote(""", """        let known = self.votes.get_qc_by_id(height, round, vote_type.clone());
        if let Ok(qc) = known {
            log::debug!("Overlord: state has the QC {:?} already", qc.vote_type);
            return Ok(());
        }

        self.votes.insert_vote("""))
same("u_vote_future", (P, """        if height > self.height {
            return Ok(());
        }

        let block_hash = self.counting""", """        if height != self.height {
            return Ok(());
        }

        let block_hash = self.counting"""))
same("u_resp_match", (P, """        } else if let Some(qc) =
            self.votes
                .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
        {
            if qc.round == self.round {
                self.state_machine.trigger(SMRTrigger {
                    trigger_type: TriggerType::PrevoteQC,
                    source: TriggerSource::State,
                    hash: qc.block_hash,
                    lock_round: None,
                    round: qc.round,
                    height: qc.height,
                    wal_info: None,
                })?;
            }
        }
        Ok(())""", """            return Ok(());
        }
        match self
            .votes
            .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
        {
            Some(qc) if qc.round == self.round => self.state_machine.trigger(SMRTrigger {
                trigger_type: TriggerType::PrevoteQC,
                source: TriggerSource::State,
                hash: qc.block_hash,
                lock_round: None,
                round: qc.round,
                height: qc.height,
                wal_info: None,
            }),
            _ => Ok(()),
        }"""))
same("u_resp_pass", (P, "        let block_hash = resp.block_hash.clone();\n", "        let VerifyResp { height: _, round: _, block_hash, is_pass } = resp.clone();\n"),
     (P, "            .insert(block_hash.clone(), resp.is_pass);", "            .insert(block_hash.clone(), is_pass);"))
same("u_commit_lets", (P, """        let content = if let Some(tmp) = self.hash_with_block.get(&hash) {
            tmp.to_owned()
        } else {
            return Err(ConsensusError::Other(format!(
                "Lose whole block height {}, round {}",
                self.height, self.round
            )));
        };
""", """        let content = self.hash_with_block.get(&hash).cloned().ok_or_else(|| {
            ConsensusError::Other(format!(
                "Lose whole block height {}, round {}",
                self.height, self.round
            ))
        })?;
"""))
same("u_commit_qc", (P, """        let qc = if let Some(tmp) =
            self.votes
                .get_qc_by_hash(height, hash.clone(), VoteType::Precommit)
        {
            tmp.to_owned()
        } else {
            return Err(ConsensusError::StorageErr("Lose precommit QC".to_string()));
        };
""", """        let qc = match self
            .votes
            .get_qc_by_hash(height, hash.clone(), VoteType::Precommit)
        {
            None => return Err(ConsensusError::StorageErr("Lose precommit QC".to_string())),
            Some(found) => found,
        };
"""))
same("u_event_errs", (P, """                if let Err(e) = self
                    .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                    .await
                {
                    log::error!("Overlord: state handle prevote vote error {:?}", e);
                }
                Ok(())""", """                self.handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                    .await
                    .unwrap_or_else(|e| {
                        log::error!("Overlord: state handle prevote vote error {:?}", e);
                    });
                Ok(())"""))
same("u_vote_own", (P, """        if self.is_leader {
            self.votes.insert_vote(
                Context::new(),
                signed_vote.get_hash(),
                signed_vote,
                self.address.clone(),
            );
        } else {""", """        let own = self.is_leader;
        if own {
            let block_hash = signed_vote.vote.block_hash.clone();
            let me = self.address.clone();
            self.votes
                .insert_vote(Context::new(), block_hash, signed_vote, me);
        } else {"""))
same("u_vproc_split", (P, """        if !self.is_leader {
            if let Ok(qc) = self
                .votes
                .get_qc_by_id(self.height, self.round, vote_type.clone())
            {""", """        let leader = self.is_leader;
        if !leader {
            let found = self
                .votes
                .get_qc_by_id(self.height, self.round, vote_type.clone())
                .ok();
            if let Some(qc) = found {"""))
same("u_sp_future", (P, "        if (height == self.height && round != self.round) || height > self.height {", "        if height != self.height || round != self.round {"))
same("u_sp_lock", (P, """            if !qc.is_prevote_qc()
                || qc.height != proposal_height
                || qc.round != polc.lock_round
                || polc.lock_round >= proposal_round
                || qc.block_hash.is_empty()
                || qc.block_hash != proposal.block_hash
            {""", """            let consistent = qc.is_prevote_qc()
                && qc.height == proposal_height
                && qc.round == polc.lock_round
                && polc.lock_round < proposal_round
                && !qc.block_hash.is_empty()
                && qc.block_hash == proposal.block_hash;
            if !consistent {"""))
same("u_sp_stored", (P, """            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                return self.handle_signed_proposal(ctx, signed_proposal).await;
            }
            return Ok(());""", """            return match self.proposals.get(self.height, self.round) {
                Ok((signed_proposal, ctx)) => self.handle_signed_proposal(ctx, signed_proposal).await,
                Err(_) => Ok(()),
            };"""))
same("u_sm_prop", (SM, """        if let Some(lock_round) = lock_round {
            if let Some(lock) = self.lock.clone() {
                log::debug!("Overlord: SMR handle proposal with a lock");

                if lock_round > lock.round {
                    self.remove_polc();
                    self.set_proposal(proposal_hash);
                } else if lock_round == lock.round && proposal_hash != self.block_hash {
                    return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
                }
            } else {
                self.set_proposal(proposal_hash);
            }
        } else if self.lock.is_none() {
            self.set_proposal(proposal_hash);
        }
""", """        match (lock_round, self.lock.clone()) {
            (Some(theirs), Some(own)) if theirs > own.round => {
                self.remove_polc();
                self.set_proposal(proposal_hash);
            }
            (Some(theirs), Some(own)) => {
                if theirs == own.round && proposal_hash != self.block_hash {
                    return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
                }
            }
            (_, None) => self.set_proposal(proposal_hash),
            (None, Some(_)) => (),
        }
"""))
same("u_sm_fork", (SM, "} else if lock_round == lock.round && proposal_hash != self.block_hash {", "} else if lock_round == lock.round && proposal_hash != lock.hash {"))
same("u_sm_prevote", (SM, """        if prevote_round < self.round {
            return Ok(());
        }

        self.update_polc(prevote_hash, prevote_round);
""", """        match prevote_round.cmp(&self.round) {
            std::cmp::Ordering::Less => return Ok(()),
            _ => self.update_polc(prevote_hash, prevote_round),
        }
"""))
same("u_sm_step", (SM, """        if prevote_round == self.round && self.step > Step::Prevote {
            return Ok(());
        }
""", """        let voted = match self.step {
            Step::Propose | Step::Prevote => false,
            _ => true,
        };
        if voted && prevote_round == self.round {
            return Ok(());
        }
"""))
same("u_sm_vote_fn", (SM, """        // throw prevote vote event
        let round = self.lock.as_ref().map(|lock| lock.round);

        self.throw_event(SMREvent::PrevoteVote {
            height: self.height,
            round: self.round,
            block_hash: self.block_hash.clone(),
            lock_round: round,
        })?;
        self.goto_step(Step::Prevote);
        Ok(())
    }
""", """        self.prevote(self.block_hash.clone())
    }

    fn prevote(&mut self, block_hash: Hash) -> ConsensusResult<()> {
        let lock_round = self.lock.as_ref().map(|lock| lock.round);
        self.throw_event(SMREvent::PrevoteVote {
            height: self.height,
            round: self.round,
            block_hash,
            lock_round,
        })?;
        self.goto_step(Step::Prevote);
        Ok(())
    }
"""))
same("u_brake_guard", (P, """        if round != self.round {
            return Err(ConsensusError::CorrectnessErr(format!(
                "SMR round {}, state round {}",
                round, self.round
            )));
        }

        let choke""", """        let same_round = round == self.round;
        if !same_round {
            let text = format!("SMR round {}, state round {}", round, self.round);
            return Err(ConsensusError::CorrectnessErr(text));
        }

        let choke"""))
same("u_round_lock", (P, "        if lock_round.is_some().bitxor(lock_proposal.is_some()) {", "        if lock_round.is_some() != lock_proposal.is_some() {"))
