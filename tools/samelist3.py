"""a third set of changes that keep the behaviour: helpers moved, control flow turned, steps regrouped"""
from mutlist import same, P, SM, TM, AM, CO, PA, OV, TY, CD, ST, WT, MO  # noqa: F401

RECHECK = '''        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {
            if set.contains(addr) {
                bit_map.set(index, true);
            }
        }
'''
# ---------------------------------------------------------------- counting and certificates
same("w_count_sum", (P, """            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {""", """            let acc = set
                .iter()
                .map(|addr| self.authority.get_vote_weight(addr).map(|w| u64::from(*w)))
                .sum::<ConsensusResult<u64>>()?;
            if acc * 3 > threshold {"""))
same("w_count_tryfold", (P, """            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {""", """            let acc = set.iter().try_fold(0u64, |acc, addr| {
                self.authority
                    .get_vote_weight(addr)
                    .map(|weight| acc + u64::from(*weight))
            })?;
            if acc * 3 > threshold {"""))
same("w_count_power", (P, """            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {""", """            if Self::power_of(&self.authority, set)? * 3 > threshold {"""),
     (P, """    fn counting_vote(&mut self,""", """    fn power_of(authority: &AuthorityManage, voters: &HashSet<Address>) -> ConsensusResult<u64> {
        let mut power = 0u64;
        for addr in voters {
            let weight = *authority.get_vote_weight(addr)?;
            power += u64::from(weight);
        }
        Ok(power)
    }

    fn counting_vote(&mut self,"""))
same("w_count_early", (P, """            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)""", """            if acc * 3 <= threshold {
                continue;
            }
            return Ok(Some(hash.to_owned()));
        }
        Ok(None)"""))
same("w_count_var", (P, """        for (hash, set) in vote_map.iter() {
            let mut acc = 0u64;""", """        let mut winner = None;
        for (hash, set) in vote_map.iter() {
            let mut acc = 0u64;"""),
     (P, """            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)""", """            if acc * 3 > threshold {
                winner = Some(hash.clone());
                break;
            }
        }
        Ok(winner)"""))
same("w_gen_unzip", (P, """        let len = votes.len();
        let mut signatures = Vec::with_capacity(len);
        let mut voters = Vec::with_capacity(len);
        for vote in votes.into_iter() {
            signatures.push(vote.signature);
            voters.push(vote.voter);
        }
""", """        let (signatures, voters): (Vec<Signature>, Vec<Address>) = votes
            .into_iter()
            .map(|vote| (vote.signature, vote.voter))
            .unzip();
"""))
same("w_gen_collect", (P, """        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
""" + RECHECK, """        let bit_map = self
            .authority
            .get_address_ref()
            .iter()
            .map(|addr| set.contains(addr))
            .collect::<BitVec>();
"""))
same("w_gen_index", (P, """        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
""" + RECHECK, """        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
        let addresses = self.authority.get_address_ref();
        for index in 0..addresses.len() {
            bit_map.set(index, set.contains(&addresses[index]));
        }
"""))
same("w_gen_push", (P, """        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
""" + RECHECK, """        let mut bit_map = BitVec::new();
        for addr in self.authority.get_address_ref().iter() {
            bit_map.push(set.contains(addr));
        }
"""))
same("w_gen_scan", (P, """        let set = voters.iter().cloned().collect::<HashSet<_>>();
""", ""), (P, RECHECK, RECHECK.replace("set.contains(addr)", "voters.contains(addr)")))
# ---------------------------------------------------------------- votes, chokes
same("w_vote_my", (P, """        let signed_vote = self.sign_vote(Vote {
            height: self.height,
            round: self.round,
            vote_type: vote_type.clone(),
            block_hash: hash.clone(),
        })?;
""", """        let signed_vote = self.sign_vote(self.my_vote(&hash, &vote_type))?;
"""), (P, """    async fn handle_brake(&mut self,""", """    fn my_vote(&self, block_hash: &Hash, vote_type: &VoteType) -> Vote {
        let (height, round) = (self.height, self.round);
        Vote {
            height,
            round,
            block_hash: block_hash.clone(),
            vote_type: vote_type.clone(),
        }
    }

    async fn handle_brake(&mut self,"""))
same("w_vote_step", (P, """        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)
            .await?;

        if self.is_leader {
            self.votes.insert_vote(""", """        let step = match vote_type {
            VoteType::Prevote => Step::Prevote,
            VoteType::Precommit => Step::Precommit,
        };
        self.save_wal_with_lock_round(step, lock_round).await?;

        if self.is_leader {
            self.votes.insert_vote("""))
same("w_vote_deliver", (P, """        if self.is_leader {
            self.votes.insert_vote(
                Context::new(),
                signed_vote.get_hash(),
                signed_vote,
                self.address.clone(),
            );
        } else {
            log::debug!(
                "Overlord: state transmit a signed vote, height {}, round {}, hash {:?}",
                self.height,
                self.round,
                hex_encode(hash)
            );

            self.transmit(Context::new(), OverlordMsg::SignedVote(signed_vote))
                .await;
        }

        self.vote_process(vote_type).await?;
        Ok(())
    }
""", """        self.deliver_vote(signed_vote).await;
        self.vote_process(vote_type).await
    }

    async fn deliver_vote(&mut self, signed_vote: SignedVote) {
        let ctx = Context::new();
        if !self.is_leader {
            log::debug!("Overlord: state transmit a signed vote");
            self.transmit(ctx, OverlordMsg::SignedVote(signed_vote)).await;
            return;
        }
        let me = self.address.clone();
        let hash = signed_vote.get_hash();
        self.votes.insert_vote(ctx, hash, signed_vote, me);
    }
"""))
same("w_choke_sign", (P, """        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&choke.to_hash()))))
            .map_err(|err| ConsensusError::CryptoErr(format!("sign choke error {:?}", err)))?;
        let signed_choke = SignedChoke {
            signature,
            choke,
            address: self.address.clone(),
        };
""", """        let signed_choke = self.sign_choke(choke)?;
"""), (P, """    async fn handle_commit(&mut self,""", """    fn sign_choke(&self, choke: Choke) -> ConsensusResult<SignedChoke> {
        let digest = self.util.hash(Bytes::from(rlp::encode(&choke.to_hash())));
        match self.util.sign(digest) {
            Ok(signature) => Ok(SignedChoke {
                signature,
                choke,
                address: self.address.clone(),
            }),
            Err(err) => Err(ConsensusError::CryptoErr(format!(
                "sign choke error {:?}",
                err
            ))),
        }
    }

    async fn handle_commit(&mut self,"""))
same("w_sign_shared", (P, """        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&proposal))))
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;
""", """        let signature = self.sign_encoded(Bytes::from(rlp::encode(&proposal)))?;
"""), (P, """        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&vote))))
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;
""", """        let signature = self.sign_encoded(Bytes::from(rlp::encode(&vote)))?;
"""), (P, """    fn sign_vote(&self, vote: Vote)""", """    fn sign_encoded(&self, encoded: Bytes) -> ConsensusResult<Signature> {
        let hash = self.util.hash(encoded);
        self.util
            .sign(hash)
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))
    }

    fn sign_vote(&self, vote: Vote)"""))
same("w_vac_unique", (P, """        let mut voters = HashSet::new();
        for voter in aggregated_choke.voters.iter() {
            self.verify_address(voter)?;
            if !voters.insert(voter) {
                return Err(ConsensusError::BrakeErr(
                    "choke qc has duplicate voters".to_string(),
                ));
            }
        }
""", """        for voter in aggregated_choke.voters.iter() {
            self.verify_address(voter)?;
        }
        let unique = aggregated_choke.voters.iter().collect::<HashSet<_>>();
        if unique.len() != aggregated_choke.voters.len() {
            return Err(ConsensusError::BrakeErr(
                "choke qc has duplicate voters".to_string(),
            ));
        }
"""))
same("w_ccat_let", (P, """        self.chokes.print_round_choke_log(self.round);
        if let Some(round) = self.chokes.max_round_above_threshold(self.authority.len()) {
            if round < self.round {
                return Ok(());
            }
""", """        self.chokes.print_round_choke_log(self.round);
        let lowest = self.round;
        let reached = self
            .chokes
            .max_round_above_threshold(self.authority.len())
            .filter(|round| *round >= lowest);
        if let Some(round) = reached {
"""))
same("w_ccat_map", (P, """            let mut sigs = Vec::with_capacity(signed_chokes.len());
            let mut voters = Vec::with_capacity(signed_chokes.len());
            for sc in signed_chokes.iter() {
                sigs.push(sc.signature.clone());
                voters.push(sc.address.clone());
            }
""", """            let sigs = signed_chokes
                .iter()
                .map(|sc| sc.signature.clone())
                .collect::<Vec<_>>();
            let voters = signed_chokes
                .iter()
                .map(|sc| sc.address.clone())
                .collect::<Vec<_>>();
"""))
same("w_choke_from", (P, """        if choke_round > self.round {
            match choke.from {
                // The QC carried by a choke comes from the network, verify it before handling it.
                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
                    if qc.height == self.height {
                        parallel_verify(
                            ctx.clone(),
                            OverlordMsg::AggregatedVote(qc),
                            Arc::clone(&self.util),
                            self.authority.clone(),
                            self.verify_sig_tx.clone(),
                        )
                        .await;
                    }
                    return Ok(());
                }
                UpdateFrom::ChokeQC(qc) => {
                    self.verify_aggregated_choke(&qc)?;
                    return self.handle_aggregated_choke(qc);
                }
            }
        }

        self.chokes.insert(choke_round, signed_choke);
        self.check_choke_above_threshold()?;
        Ok(())
    }
""", """        if choke_round == self.round {
            self.chokes.insert(choke_round, signed_choke);
            return self.check_choke_above_threshold();
        }
        self.follow_choke(ctx, choke.from).await
    }

    async fn follow_choke(&mut self, ctx: Context, from: UpdateFrom) -> ConsensusResult<()> {
        let vote_qc = match from {
            UpdateFrom::ChokeQC(qc) => {
                self.verify_aggregated_choke(&qc)?;
                return self.handle_aggregated_choke(qc);
            }
            UpdateFrom::PrevoteQC(qc) => qc,
            UpdateFrom::PrecommitQC(qc) => qc,
        };
        if vote_qc.height != self.height {
            return Ok(());
        }
        let tx = self.verify_sig_tx.clone();
        let auth = self.authority.clone();
        parallel_verify(
            ctx,
            OverlordMsg::AggregatedVote(vote_qc),
            Arc::clone(&self.util),
            auth,
            tx,
        )
        .await;
        Ok(())
    }
"""))
same("w_choke_filter", (P, """        // filter choke height ne self.height
        if choke_height != self.height {
            return Ok(());
        }

        if choke_round < self.round {
            return Ok(());
        }
""", """        let current = choke_height == self.height && choke_round >= self.round;
        if !current {
            return Ok(());
        }
"""))
# ---------------------------------------------------------------- proposals
same("w_prop_lock", (P, """        let lock_round = if let Some(polc) = proposal.lock.clone() {
            log::debug!("Overlord: state receive a signed proposal with a lock");
            let qc = &polc.lock_votes;
            if !qc.is_prevote_qc()
                || qc.height != proposal_height
                || qc.round != polc.lock_round
                || polc.lock_round >= proposal_round
                || qc.block_hash.is_empty()
                || qc.block_hash != proposal.block_hash
            {
                return Err(ConsensusError::ProposalErr(
                    "Proposal is inconsistent with its lock".to_string(),
                ));
            }
            Some(polc.lock_round)
        } else {
            None
        };
""", """        let lock_round = Self::lock_round_of(&proposal)?;
"""), (P, """    async fn handle_vote_event(""", """    /// The round of the lock of a proposal, after checking the lock.
    fn lock_round_of(proposal: &Proposal<T>) -> ConsensusResult<Option<u64>> {
        let polc = match proposal.lock.as_ref() {
            Some(polc) => polc,
            None => return Ok(None),
        };
        let qc = &polc.lock_votes;
        let same_position = qc.height == proposal.height && qc.round == polc.lock_round;
        let same_block = !qc.block_hash.is_empty() && qc.block_hash == proposal.block_hash;
        if qc.is_prevote_qc() && same_position && polc.lock_round < proposal.round && same_block {
            Ok(Some(polc.lock_round))
        } else {
            Err(ConsensusError::ProposalErr(
                "Proposal is inconsistent with its lock".to_string(),
            ))
        }
    }

    async fn handle_vote_event("""))
same("w_prop_keep", (P, """        if self
            .hash_with_block
            .get(&hash)
            .map_or(false, |known| known != &block)
        {
            return Err(ConsensusError::ProposalErr(
                "Another block with the same hash".to_string(),
            ));
        }
        self.hash_with_block.insert(hash.clone(), proposal.content);
""", """        self.keep_block(&hash, proposal.content)?;
"""), (P, """    async fn handle_vote_event(""", """    fn keep_block(&mut self, hash: &Hash, block: T) -> ConsensusResult<()> {
        if let Some(known) = self.hash_with_block.get(hash) {
            if known == &block {
                return Ok(());
            }
            return Err(ConsensusError::ProposalErr(
                "Another block with the same hash".to_string(),
            ));
        }
        self.hash_with_block.insert(hash.clone(), block);
        Ok(())
    }

    async fn handle_vote_event("""))
same("w_prop_filter_inline", (P, """        if self.filter_signed_proposal(
            ctx.clone(),
            proposal_height,
            proposal_round,
            &signed_proposal,
        )? {
            return Ok(());
        }
""", """        if self.filter_message(proposal_height, proposal_round) {
            return Ok(());
        }
        let is_current = proposal_height == self.height && proposal_round == self.round;
        if !is_current {
            return self.proposals.insert(
                ctx,
                proposal_height,
                proposal_round,
                signed_proposal,
            );
        }
"""), (P, """    fn filter_signed_proposal(""", """    #[allow(dead_code)]
    fn filter_signed_proposal("""))
same("w_newround_propose", (P, """        self.is_leader = true;
        let ctx = Context::new();
        let (block, hash, polc) = if lock_round.is_none() {""", """        self.is_leader = true;
        self.propose(lock_round, lock_proposal).await
    }

    async fn propose(
        &mut self,
        lock_round: Option<u64>,
        lock_proposal: Option<Hash>,
    ) -> ConsensusResult<()> {
        let ctx = Context::new();
        let (block, hash, polc) = if lock_round.is_none() {"""))
same("w_newround_match", (P, """        let (block, hash, polc) = if lock_round.is_none() {
            let (new_block, new_hash) = self
                .function
                .get_block(ctx.clone(), self.height)
                .await
                .map_err(|err| ConsensusError::Other(format!("get block error {:?}", err)))?;
            (new_block, new_hash, None)
        } else {
            let round = lock_round.unwrap();
            let hash = lock_proposal.unwrap();
            let block""", """        let (block, hash, polc) = if let (Some(round), Some(hash)) = (lock_round, lock_proposal) {
            let block"""), (P, """            (block.to_owned(), hash, Some(polc))
        };
""", """            (block.to_owned(), hash, Some(polc))
        } else {
            let (new_block, new_hash) = self
                .function
                .get_block(ctx.clone(), self.height)
                .await
                .map_err(|err| ConsensusError::Other(format!("get block error {:?}", err)))?;
            (new_block, new_hash, None)
        };
"""))
same("w_newround_early", (P, """        if !self.is_proposer()? {
            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                return self.handle_signed_proposal(ctx, signed_proposal).await;
            }
            return Ok(());
        }
""", """        let proposing = self.is_proposer()?;
        if !proposing {
            return match self.proposals.get(self.height, self.round) {
                Ok((signed_proposal, ctx)) => {
                    self.handle_signed_proposal(ctx, signed_proposal).await
                }
                Err(_) => Ok(()),
            };
        }
"""))
same("w_filter_rounds", (P, """        } else if (height == self.height && self.round + FUTURE_ROUND_GAP < round)
            || (height > self.height && round > FUTURE_ROUND_GAP)
        {
            log::debug!("Overlord: state receive a much higher round message");
            return true;
        }

        false""", """        }

        let base = if height == self.height { self.round } else { INIT_ROUND };
        if round > base + FUTURE_ROUND_GAP {
            log::debug!("Overlord: state receive a much higher round message");
            return true;
        }

        false"""))
same("w_filter_tuple", (P, """        if height < self.height || (height == self.height && round < self.round) {
            log::debug!(""", """        if (height, round) < (self.height, self.round) {
            log::debug!("""))
# ---------------------------------------------------------------- heights, responses, events
same("w_height_enter", (P, """        // Update height and authority list.
        self.height_start = Instant::now();
        let mut auth_list = status.authority_list.clone();
        self.authority.update(&mut auth_list);

        if let Some(interval) = status.interval {
            self.block_interval = interval;
        }

        // Clear outdated proposals and votes.
        self.proposals.flush(new_height - 1);
        self.votes.flush(new_height - 1);
        self.hash_with_block.clear();
        self.is_full_transaction.clear();
        self.chokes.clear();
""", """        self.adopt(&status);
        self.forget_below(new_height);
"""), (P, """    async fn goto_new_height(&mut self,""", """    fn adopt(&mut self, status: &Status) {
        let mut list = status.authority_list.clone();
        self.authority.update(&mut list);
        self.block_interval = status.interval.unwrap_or(self.block_interval);
        self.height_start = Instant::now();
    }

    fn forget_below(&mut self, height: u64) {
        let last = height - 1;
        self.chokes.clear();
        self.is_full_transaction.clear();
        self.hash_with_block.clear();
        self.votes.flush(last);
        self.proposals.flush(last);
    }

    async fn goto_new_height(&mut self,"""))
same("w_height_take", (P, """        self.hash_with_block.clear();
        self.is_full_transaction.clear();
        self.chokes.clear();
""", """        self.hash_with_block = HashMap::new();
        let _ = std::mem::take(&mut self.is_full_transaction);
        self.chokes = ChokeCollector::new();
"""))
same("w_recheck_one", (P, """        for item in proposals_and_ctxs.into_iter() {
            parallel_verify(
                item.1,
                OverlordMsg::SignedProposal(item.0),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }
""", """        for (signed_proposal, ctx) in proposals_and_ctxs {
            self.verify_again(ctx, OverlordMsg::SignedProposal(signed_proposal))
                .await;
        }
"""), (P, """        for item in votes_and_ctxs.into_iter() {
            parallel_verify(
                item.1,
                OverlordMsg::SignedVote(item.0),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }
""", """        for (signed_vote, ctx) in votes_and_ctxs {
            self.verify_again(ctx, OverlordMsg::SignedVote(signed_vote))
                .await;
        }
"""), (P, """    async fn re_check_qcs(&mut self,""", """    async fn verify_again(&self, ctx: Context, msg: OverlordMsg<T>) {
        let crypto = Arc::clone(&self.util);
        let authority = self.authority.clone();
        let tx = self.verify_sig_tx.clone();
        parallel_verify(ctx, msg, crypto, authority, tx).await
    }

    async fn re_check_qcs(&mut self,"""))
same("w_resp_select", (P, """        if let Some(qc) =
            self.votes
                .get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit)
        {
            self.state_machine.trigger(SMRTrigger {
                trigger_type: TriggerType::PrecommitQC,
                source: TriggerSource::State,
                hash: qc.block_hash,
                lock_round: None,
                round: qc.round,
                height: qc.height,
                wal_info: None,
            })?;
        } else if let Some(qc) =
            self.votes
                .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
        {
            if qc.round == self.round {
                self.state_machine.trigger(SMRTrigger {
                    trigger_type: TriggerType::PrevoteQC,
                    source: TriggerSource::State,
                    hash: qc.block_hash,
                    lock_round: None,
                    round: qc.round,
                    height: qc.height,
                    wal_info: None,
                })?;
            }
        }
        Ok(())
    }
""", """        let (trigger_type, qc) = match self.waiting_qc(&block_hash) {
            Some(found) => found,
            None => return Ok(()),
        };
        self.state_machine.trigger(SMRTrigger {
            trigger_type,
            source: TriggerSource::State,
            hash: qc.block_hash,
            lock_round: None,
            round: qc.round,
            height: qc.height,
            wal_info: None,
        })
    }

    fn waiting_qc(&mut self, hash: &Hash) -> Option<(TriggerType, AggregatedVote)> {
        let height = self.height;
        let precommit = self
            .votes
            .get_qc_by_hash(height, hash.clone(), VoteType::Precommit);
        if let Some(qc) = precommit {
            return Some((TriggerType::PrecommitQC, qc));
        }
        self.votes
            .get_qc_by_hash(height, hash.clone(), VoteType::Prevote)
            .filter(|qc| qc.round == self.round)
            .map(|qc| (TriggerType::PrevoteQC, qc))
    }
"""))
same("w_event_stale", (P, """            SMREvent::PrevoteVote {
                height,
                block_hash,
                lock_round,
                ..
            } => {
                if height != self.height {
                    return Ok(());
                }

                if let Err(e) = self
                    .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                    .await
                {
                    log::error!("Overlord: state handle prevote vote error {:?}", e);
                }
                Ok(())
            }
""", """            SMREvent::PrevoteVote {
                height,
                block_hash,
                lock_round,
                ..
            } => {
                if height == self.height {
                    self.handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                        .await
                        .unwrap_or_else(|e| {
                            log::error!("Overlord: state handle prevote vote error {:?}", e)
                        });
                }
                Ok(())
            }
"""))
same("w_msg_result", (P, """            OverlordMsg::SignedChoke(sc) => {
                if let Err(e) = self.handle_signed_choke(ctx.clone(), sc).await {
                    log::error!("Overlord: state handle signed choke error {:?}", e);
                }
                Ok(())
            }
""", """            OverlordMsg::SignedChoke(sc) => {
                match self.handle_signed_choke(ctx, sc).await {
                    Ok(()) => (),
                    Err(e) => log::error!("Overlord: state handle signed choke error {:?}", e),
                }
                Ok(())
            }
"""))
same("w_commit_answer", (P, """        let mut auth_list = status.authority_list.clone();
        self.authority.update(&mut auth_list);
        let cost = Instant::now() - self.height_start;
""", """        let cost = Instant::now() - self.height_start;
        let mut auth_list = status.authority_list.to_vec();
        self.authority.update(&mut auth_list);
"""))
same("w_commit_sleep", (P, """        if self.next_proposer(status.height, INIT_ROUND)?
            && cost < Duration::from_millis(self.block_interval)
        {
            sleep(Duration::from_millis(self.block_interval) - cost).await;
        }

        self.goto_new_height(ctx, status).await?;
        Ok(())
    }
""", """        self.pace(&status, cost).await?;
        self.goto_new_height(ctx, status).await
    }

    async fn pace(&self, status: &Status, cost: Duration) -> ConsensusResult<()> {
        let interval = Duration::from_millis(self.block_interval);
        let proposing = self.next_proposer(status.height, INIT_ROUND)?;
        if !proposing {
            return Ok(());
        }
        if let Some(rest) = interval.checked_sub(cost) {
            sleep(rest).await;
        }
        Ok(())
    }
"""))
same("w_commit_parts", (P, """        let proof = Proof {
            height,
            round: qc.round,
            block_hash: hash.clone(),
            signature: qc.signature.clone(),
        };
        let commit = Commit {
            height,
            content,
            proof,
        };
""", """        let AggregatedVote {
            signature, round, ..
        } = qc;
        let commit = Commit {
            height,
            content,
            proof: Proof {
                height,
                round,
                block_hash: hash,
                signature,
            },
        };
"""))
same("w_full_match", (P, """        if hash.is_empty() {
            return true;
        } else if let Some(res) = self.is_full_transaction.get(hash) {
            return *res;
        }
""", """        match self.is_full_transaction.get(hash) {
            _ if hash.is_empty() => return true,
            Some(res) => return *res,
            None => (),
        }
"""))
same("w_wal_lock", (P, """        let polc = if let Some(round) = lock_round {
            if let Ok(qc) = self
                .votes
                .get_qc_by_id(self.height, round, VoteType::Prevote)
            {
                let block = self
                    .hash_with_block
                    .get(&qc.block_hash)
                    .ok_or_else(|| ConsensusError::Other("lose whole block".to_string()))?;

                Some(WalLock {
                    lock_round: round,
                    lock_votes: qc,
                    content: block.clone(),
                })
            } else {
                return Err(ConsensusError::Other("no qc".to_string()));
            }
        } else {
            None
        };

        self.save_wal(step, polc).await?;
        Ok(())
    }
""", """        let polc = lock_round
            .map(|round| self.wal_lock(round))
            .transpose()?;
        self.save_wal(step, polc).await
    }

    fn wal_lock(&mut self, lock_round: u64) -> ConsensusResult<WalLock<T>> {
        let lock_votes = self
            .votes
            .get_qc_by_id(self.height, lock_round, VoteType::Prevote)
            .map_err(|_| ConsensusError::Other("no qc".to_string()))?;
        match self.hash_with_block.get(&lock_votes.block_hash) {
            Some(block) => Ok(WalLock {
                lock_round,
                content: block.to_owned(),
                lock_votes,
            }),
            None => Err(ConsensusError::Other("lose whole block".to_string())),
        }
    }
"""))
same("w_start_recover", (P, """        // recover basic state
        self.height = wal_info.height;
        self.round = wal_info.round;
        self.is_leader = self.is_proposer()?;
        self.update_from_where = wal_info.from.clone();

        // recover lock state
        if wal_info.lock.is_some() {
            let lock = wal_info.lock.clone().unwrap();
            let qc = lock.lock_votes.clone();
            self.votes.set_qc(qc.clone());
            self.hash_with_block.insert(qc.block_hash, lock.content);
        }
""", """        self.recover(&wal_info)?;
"""), (P, """    async fn load_wal(&mut self)""", """    fn recover(&mut self, info: &WalInfo<T>) -> ConsensusResult<()> {
        self.update_from_where = info.from.clone();
        self.round = info.round;
        self.height = info.height;
        self.is_leader = self.is_proposer()?;

        if let Some(lock) = &info.lock {
            self.hash_with_block
                .insert(lock.lock_votes.block_hash.clone(), lock.content.clone());
            self.votes.set_qc(lock.lock_votes.clone());
        }
        Ok(())
    }

    async fn load_wal(&mut self)"""))
same("w_start_steps", (P, """        if wal_info.step == Step::Commit {
            let qc = wal_info
                .lock
                .clone()
                .ok_or_else(|| ConsensusError::LoadWalErr("no lock in commit step".to_string()))?;
            return self.handle_commit(qc.lock_votes.block_hash.clone()).await;
        }

        if wal_info.step == Step::Brake {
            let lock_round = wal_info.lock.clone().map(|lock| lock.lock_round);
            self.handle_brake(self.round, lock_round).await?;
        }
""", """        match wal_info.step {
            Step::Commit => {
                return match wal_info.lock {
                    Some(lock) => self.handle_commit(lock.lock_votes.block_hash).await,
                    None => Err(ConsensusError::LoadWalErr(
                        "no lock in commit step".to_string(),
                    )),
                };
            }
            Step::Brake => {
                let lock_round = wal_info.lock.as_ref().map(|lock| lock.lock_round);
                self.handle_brake(self.round, lock_round).await?;
            }
            _ => (),
        }
"""))
same("w_start_lost", (P, """        let wal_info = self.load_wal().await?;
        if wal_info.is_none() {
            if self.height != INIT_HEIGHT {
                return self.wal_lost();
            } else {
                return Ok(());
            }
        }

        let wal_info = wal_info.unwrap();
""", """        let wal_info = match self.load_wal().await? {
            Some(info) => info,
            None if self.height == INIT_HEIGHT => return Ok(()),
            None => return self.wal_lost(),
        };
"""))
same("w_load_transpose", (P, """        if tmp.is_none() {
            return Ok(None);
        }

        let info: WalInfo<T> = rlp::decode(tmp.unwrap().as_ref())
            .map_err(|e| ConsensusError::LoadWalErr(e.to_string()))?;
        Ok(Some(info))
""", """        tmp.map(|bytes| rlp::decode::<WalInfo<T>>(bytes.as_ref()))
            .transpose()
            .map_err(|e| ConsensusError::LoadWalErr(e.to_string()))
"""))
same("w_from_match", (P, """            FromWhere::PrecommitQC(round) => {
                let qc = if round == u64::max_value() {
                    mock_init_qc()
                } else {
                    self.votes
                        .get_qc_by_id(self.height, round, VoteType::Precommit)?
                };
                UpdateFrom::PrecommitQC(qc)
            }
""", """            FromWhere::PrecommitQC(u64::MAX) => UpdateFrom::PrecommitQC(mock_init_qc()),

            FromWhere::PrecommitQC(round) => self
                .votes
                .get_qc_by_id(self.height, round, VoteType::Precommit)
                .map(UpdateFrom::PrecommitQC)?,
"""))
same("w_agg_order", (P, """        // State do not handle outdated prevote QC.
        if qc_type == VoteType::Prevote && vote_round < self.round {
            log::debug!("Overlord: state receive a outdated prevote qc.");
            return Ok(());
        } else if qc_type == VoteType::Precommit
            && aggregated_vote.block_hash.is_empty()
            && vote_round < self.round
        {
            return Ok(());
        }
""", """        if vote_round < self.round {
            let useful = match qc_type {
                VoteType::Prevote => false,
                VoteType::Precommit => !aggregated_vote.block_hash.is_empty(),
            };
            if !useful {
                return Ok(());
            }
        }
"""))
same("w_agg_future", (P, """                if self.height + FUTURE_HEIGHT_GAP > vote_height && vote_round < FUTURE_ROUND_GAP {
                    log::debug!(
                        "Overlord: state receive a future QC, height {}, round {}",
                        vote_height,
                        vote_round,
                    );
                    self.votes.set_qc(aggregated_vote);
                } else {
                    log::warn!("Overlord: state receive a much higher aggregated vote");
                }
                return Ok(());
""", """                let too_high = vote_height - self.height >= FUTURE_HEIGHT_GAP;
                if too_high || vote_round >= FUTURE_ROUND_GAP {
                    log::warn!("Overlord: state receive a much higher aggregated vote");
                    return Ok(());
                }
                self.votes.set_qc(aggregated_vote);
                return Ok(());
"""))
same("w_vp_leader", (P, """        } else if let Some(block_hash) = self.counting_vote(vote_type.clone())? {
            let qc = self.generate_qc(block_hash.clone(), vote_type.clone())?;
            self.votes.set_qc(qc.clone());

            log::debug!(
                "Overlord: state broadcast a {:?} QC, height {}, round {}, hash {:?}",
                vote_type,
                qc.height,
                qc.round,
                hex_encode(block_hash.clone())
            );

            self.broadcast(Context::new(), OverlordMsg::AggregatedVote(qc))
                .await;

            if !self.try_get_full_txs(&block_hash) {
                return Ok(());
            }
""", """        } else if let Some(block_hash) = self.counting_vote(vote_type.clone())? {
            self.make_qc(Context::new(), &block_hash, &vote_type).await?;
            if !self.try_get_full_txs(&block_hash) {
                return Ok(());
            }
"""), (P, """        let qc = self.generate_qc(block_hash.clone(), vote_type.clone())?;

        log::debug!(
            "Overlord: state set QC height {}, round {}",
            self.height,
            self.round
        );

        self.votes.set_qc(qc.clone());

        log::debug!(
            "Overlord: state broadcast a {:?} QC, height {}, round {}, hash {:?}",
            vote_type,
            qc.height,
            qc.round,
            hex_encode(block_hash.clone())
        );

        self.broadcast(ctx, OverlordMsg::AggregatedVote(qc.clone()))
            .await;
""", """        let qc = self.make_qc(ctx, &block_hash, &vote_type).await?;
"""), (P, """    fn counting_vote(&mut self,""", """    async fn make_qc(
        &mut self,
        ctx: Context,
        block_hash: &Hash,
        vote_type: &VoteType,
    ) -> ConsensusResult<AggregatedVote> {
        let qc = self.generate_qc(block_hash.clone(), vote_type.clone())?;
        self.votes.set_qc(qc.clone());
        let msg = OverlordMsg::AggregatedVote(qc.clone());
        self.broadcast(ctx, msg).await;
        Ok(qc)
    }

    fn counting_vote(&mut self,"""))
same("w_reason_tuple", (P, """        if self
            .votes
            .get_qc_by_id(height, round, VoteType::Prevote)
            .is_err()
        {
            ViewChangeReason::NoPrevoteQCFromNetwork
        } else if self
            .votes
            .get_qc_by_id(height, round, VoteType::Precommit)
            .is_err()
        {
            ViewChangeReason::NoPrecommitQCFromNetwork
        } else {
            ViewChangeReason::Others
        }
""", """        let prevote = self.votes.get_qc_by_id(height, round, VoteType::Prevote);
        let precommit = self.votes.get_qc_by_id(height, round, VoteType::Precommit);
        match (prevote, precommit) {
            (Err(_), _) => ViewChangeReason::NoPrevoteQCFromNetwork,
            (Ok(_), Err(_)) => ViewChangeReason::NoPrecommitQCFromNetwork,
            _ => ViewChangeReason::Others,
        }
"""))
same("w_proposer_eq", (P, """        if proposer == self.address {
            log::info!(
                "Overlord: state self become leader, height {}, round {}",
                self.height,
                self.round
            );
            self.is_leader = true;
            self.leader_address = self.address.clone();
            return Ok(true);
        }

        log::info!(
            "Overlord: {:?} become leader, height {}, round {}",
            hex_encode(proposer.clone()),
            self.height,
            self.round
        );
        self.leader_address = proposer;
        self.is_leader = false;
        Ok(false)
""", """        self.is_leader = self.next_proposer(self.height, self.round)?;
        self.leader_address = proposer;
        Ok(self.is_leader)
"""))
same("w_run_select", (P, """                    if !self.consensus_power {
                        continue;
                    }

                    if let Err(e) = self.handle_event(evt).await{
                        log::error!("Overlord: state {:?} error", e);
                    }
""", """                    if self.consensus_power {
                        if let Err(e) = self.handle_event(evt).await {
                            log::error!("Overlord: state {:?} error", e);
                        }
                    }
"""))
same("w_run_msg", (P, """                    let (ctx, msg) = verified_msg.expect("Overlord message handler dropped");
                    if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                        self.report_error(ctx, e.clone());
                        log::error!("Overlord: state {:?} error", e);
                    }
""", """                    let (ctx, msg) = verified_msg.expect("Overlord message handler dropped");
                    self.process_msg(ctx, msg).await;
"""), (P, """                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                                    self.report_error(ctx, e.clone());
                                    log::error!("Overlord: state {:?} error", e);
                                }
""", """                                self.process_msg(ctx, msg).await;
"""), (P, """    /// A function to handle message from the network. Public this""", """    async fn process_msg(&mut self, ctx: Context, msg: OverlordMsg<T>) {
        let result = self.handle_msg(ctx.clone(), msg).await;
        if let Err(e) = result {
            log::error!("Overlord: state {:?} error", e);
            self.report_error(ctx, e);
        }
    }

    /// A function to handle message from the network. Public this"""))
same("w_check_block_inline", (P, """        tokio::spawn(async move {
            if let Err(e) =
                check_current_block(ctx, function, height, round, hash.clone(), block, resp_tx)
                    .await
            {
                log::error!("Overlord: state check block failed: {:?}", e);
            }
        });
""", """        tokio::spawn(async move {
            let checked = function.check_block(ctx, height, hash.clone(), block).await;
            if let Err(e) = checked {
                log::error!("Overlord: state check block failed: {:?}", e);
                return;
            }
            let resp = VerifyResp {
                height,
                round,
                block_hash: hash,
                is_pass: true,
            };
            if let Err(e) = resp_tx.unbounded_send(resp) {
                log::error!("Overlord: state check block failed: {:?}", e);
            }
        });
"""), (P, """#[tracing_span(kind = "overlord", tags = "{'height': 'height', 'round': 'round'}")]
async fn check_current_block""", """#[allow(dead_code)]
async fn check_current_block"""))
