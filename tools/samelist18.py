"""chokes: what they carry, and catching up by them"""
from mutlist import bug, same
P, C = "src/state/process.rs", "src/state/collection.rs"
CATCH = """        if choke_round > self.round {
            match choke.from {
                // The QC carried by a choke comes from the network, verify it before handling it.
                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
                    if qc.height == self.height {
                        parallel_verify(
                            ctx.clone(),
                            OverlordMsg::AggregatedVote(qc),
                            Arc::clone(&self.util),
                            self.authority.clone(),
                            self.verify_sig_tx.clone(),
                        )
                        .await;
                    }
                    return Ok(());
                }
                UpdateFrom::ChokeQC(qc) => {
                    self.verify_aggregated_choke(&qc)?;
                    return self.handle_aggregated_choke(qc);
                }
            }
        }

        self.chokes.insert(choke_round, signed_choke);
        self.check_choke_above_threshold()?;
        Ok(())
    }
"""
PV = """parallel_verify(
                            ctx.clone(),
                            OverlordMsg::AggregatedVote(qc),
                            Arc::clone(&self.util),
                            self.authority.clone(),
                            self.verify_sig_tx.clone(),
                        )
                        .await;"""
FOLLOW = """
    async fn follow_choke(&mut self, ctx: Context, from: UpdateFrom) -> ConsensusResult<()> {
        let vote = match from {
            UpdateFrom::ChokeQC(qc) => {
                self.verify_aggregated_choke(&qc)?;
                return self.handle_aggregated_choke(qc);
            }
            UpdateFrom::PrevoteQC(qc) => qc,
            UpdateFrom::PrecommitQC(qc) => qc,
        };
        if vote.height != self.height {
            return Ok(());
        }
        parallel_verify(
            ctx,
            OverlordMsg::AggregatedVote(vote),
            Arc::clone(&self.util),
            self.authority.clone(),
            self.verify_sig_tx.clone(),
        )
        .await;
        Ok(())
    }
"""
same("c50_follow_fn", (P, CATCH, """        if choke_round > self.round {
            return self.follow_choke(ctx, choke.from).await;
        }

        self.chokes.insert(choke_round, signed_choke);
        self.check_choke_above_threshold()?;
        Ok(())
    }
""" + FOLLOW))
same("c50_inverted", (P, CATCH, """        if choke_round <= self.round {
            self.chokes.insert(choke_round, signed_choke);
            return self.check_choke_above_threshold();
        }
        if let UpdateFrom::ChokeQC(qc) = &choke.from {
            return self
                .verify_aggregated_choke(qc)
                .and_then(|_| self.handle_aggregated_choke(qc.clone()));
        }
        let evidence = match choke.from {
            UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => Some(qc),
            UpdateFrom::ChokeQC(_) => None,
        };
        if let Some(qc) = evidence.filter(|qc| qc.height == choke_height) {
            """ + PV + """
        }
        Ok(())
    }
"""))
same("c50_cmp", (P, CATCH, """        match choke_round.cmp(&self.round) {
            std::cmp::Ordering::Less => Ok(()),
            std::cmp::Ordering::Equal => {
                self.chokes.insert(choke_round, signed_choke);
                self.check_choke_above_threshold()
            }
            std::cmp::Ordering::Greater => self.follow_choke(ctx, choke.from).await,
        }
    }
""" + FOLLOW))
same("c50_sign_fn", (P, """        let choke = Choke {
            height: self.height,
            round: self.round,
            from: self.update_from_where.clone(),
        };

        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&choke.to_hash()))))
            .map_err(|err| ConsensusError::CryptoErr(format!("sign choke error {:?}", err)))?;
        let signed_choke = SignedChoke {
            signature,
            choke,
            address: self.address.clone(),
        };
""", """        let signed_choke = self.sign_choke(self.update_from_where.clone())?;
"""), (P, "    async fn handle_commit(&mut self, hash: Hash)", """    fn sign_choke(&self, from: UpdateFrom) -> ConsensusResult<SignedChoke> {
        let (height, round) = (self.height, self.round);
        let choke = Choke { height, round, from };
        let hash = self.util.hash(Bytes::from(rlp::encode(&choke.to_hash())));
        match self.util.sign(hash) {
            Ok(signature) => Ok(SignedChoke {
                signature,
                choke,
                address: self.address.clone(),
            }),
            Err(err) => Err(ConsensusError::CryptoErr(format!("sign choke error {:?}", err))),
        }
    }

    async fn handle_commit(&mut self, hash: Hash)"""))
VOT = """        let mut voters = HashSet::new();
        for voter in aggregated_choke.voters.iter() {
            self.verify_address(voter)?;
            if !voters.insert(voter) {
                return Err(ConsensusError::BrakeErr(
                    "choke qc has duplicate voters".to_string(),
                ));
            }
        }
"""
same("c50_voters_all", (P, VOT, """        if !aggregated_choke.voters.iter().all(|v| self.authority.contains(v)) {
            return Err(ConsensusError::BrakeErr("unknown voter".to_string()));
        }
        let voters: HashSet<&Address> = aggregated_choke.voters.iter().collect();
        if voters.len() != aggregated_choke.voters.len() {
            return Err(ConsensusError::BrakeErr(
                "choke qc has duplicate voters".to_string(),
            ));
        }
"""))
same("c50_voters_try", (P, VOT, """        aggregated_choke
            .voters
            .iter()
            .try_for_each(|voter| self.verify_address(voter))?;
        let mut sorted = aggregated_choke.voters.clone();
        sorted.sort();
        sorted.dedup();
        if sorted.len() < aggregated_choke.voters.len() {
            return Err(ConsensusError::BrakeErr(
                "choke qc has duplicate voters".to_string(),
            ));
        }
"""))
same("c50_voters_idx", (P, VOT, """        for (i, voter) in aggregated_choke.voters.iter().enumerate() {
            self.verify_address(voter)?;
            if aggregated_choke.voters[..i].contains(voter) {
                return Err(ConsensusError::BrakeErr(
                    "choke qc has duplicate voters".to_string(),
                ));
            }
        }
"""))
same("c50_setfrom_fn", (P, """            FromWhere::ChokeQC(round) => {
                let qc = self.chokes.get_qc(round).ok_or_else(|| {
                    ConsensusError::BrakeErr(format!(
                        "no choke qc height {} round {}",
                        self.height, round
                    ))
                })?;
                UpdateFrom::ChokeQC(qc)
            }
""", """            FromWhere::ChokeQC(round) => match self.chokes.get_qc(round) {
                Some(qc) => UpdateFrom::ChokeQC(qc),
                None => {
                    return Err(ConsensusError::BrakeErr(format!(
                        "no choke qc height {} round {}",
                        self.height, round
                    )));
                }
            },
"""))
same("c50_setfrom_init", (P, """                let qc = if round == u64::max_value() {
                    mock_init_qc()
                } else {
                    self.votes
                        .get_qc_by_id(self.height, round, VoteType::Precommit)?
                };
                UpdateFrom::PrecommitQC(qc)
""", """                UpdateFrom::PrecommitQC(self.precommit_origin(round)?)
"""), (P, "    fn set_update_from(&mut self, from_where: FromWhere) -> ConsensusResult<()> {", """    fn precommit_origin(&mut self, round: u64) -> ConsensusResult<AggregatedVote> {
        match round {
            u64::MAX => Ok(mock_init_qc()),
            round => self.votes.get_qc_by_id(self.height, round, VoteType::Precommit),
        }
    }

    fn set_update_from(&mut self, from_where: FromWhere) -> ConsensusResult<()> {"""))
same("c50_replace", (P, "        self.update_from_where = update_from;\n        Ok(())\n    }", "        let _ = std::mem::replace(&mut self.update_from_where, update_from);\n        Ok(())\n    }"))
same("c50_msg_first", (P, "        self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))\n            .await;", "        let msg = OverlordMsg::SignedChoke(signed_choke);\n        self.broadcast(Context::new(), msg).await;"))
same("c50_threshold_first", (P, """        // verify is above threshold.
        if aggregated_choke.len() * 3 <= self.authority.len() * 2 {
            return Err(ConsensusError::BrakeErr(
                "choke qc is not above threshold".to_string(),
            ));
        }

        let choke = aggregated_choke.to_hash();
        self.chokes.set_qc(choke.round, aggregated_choke);
""", """        let enough = 3 * aggregated_choke.len() > 2 * self.authority.len();
        if !enough {
            return Err(ConsensusError::BrakeErr(
                "choke qc is not above threshold".to_string(),
            ));
        }

        let choke = aggregated_choke.to_hash();
        let round = aggregated_choke.round;
        self.chokes.set_qc(round, aggregated_choke);
"""))
bug("c50_nil_only", "C50 C15", (P, "                    if qc.height == self.height {\n                        parallel_verify(", "                    if qc.height == self.height && qc.block_hash.is_empty() {\n                        parallel_verify("))
bug("c50_newer_only", "C50 C15", (P, "                    if qc.height == self.height {\n                        parallel_verify(", "                    if qc.height == self.height && qc.round > self.round {\n                        parallel_verify("))
bug("c50_qc_round_forged", "C50 C42", (P, "                    return self.handle_aggregated_choke(qc);", "                    let mut qc = qc;\n                    qc.round = qc.round.max(choke_round - 1);\n                    return self.handle_aggregated_choke(qc);"))
bug("c50_dist", "C50", (P, "        if choke_round > self.round {\n            match choke.from {", "        if choke_round > self.round + FUTURE_ROUND_GAP {\n            return Ok(());\n        }\n\n        if choke_round > self.round {\n            match choke.from {"))
bug("c50_choke_auth", "C50 C42", (P, "                    self.verify_aggregated_choke(&qc)?;\n                    return", "                    if qc.voters.contains(&self.address) {\n                        return Ok(());\n                    }\n                    self.verify_aggregated_choke(&qc)?;\n                    return"))
bug("c50_from_prev", "C50 C08", (P, "        self.update_from_where = update_from;\n        Ok(())", "        if self.round != INIT_ROUND {\n            self.update_from_where = update_from;\n        }\n        Ok(())"))
bug("c50_from_kind", "C50 C08", (P, "                    .get_qc_by_id(self.height, round, VoteType::Prevote)?;\n                UpdateFrom::PrevoteQC(qc)", "                    .get_qc_by_id(self.height, round, VoteType::Prevote)?;\n                UpdateFrom::PrecommitQC(qc)"))
bug("c50_from_round", "C50 C08", (P, "                        .get_qc_by_id(self.height, round, VoteType::Precommit)?\n                };", "                        .get_qc_by_id(self.height, self.round.saturating_sub(1), VoteType::Precommit)?\n                };"))
