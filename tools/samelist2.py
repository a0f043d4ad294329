"""more changes that keep the behaviour (codec, types, wal, entry points, and other styles)"""
from mutlist import same, P, SM, TM, AM, CO, PA, OV, TY, CD, ST, WT, MO  # noqa: F401

TC = "src/utils/timer_config.rs"

# ---------------------------------------------------------------- codec
same("y_cd_iflet", (CD, """        match r.prototype()? {
            Prototype::List(2) => {
                let tmp: Vec<u8> = r.val_at(0)?;
                let signature = Signature::from(tmp);
                let proposal: Proposal<T> = r.val_at(1)?;
                Ok(SignedProposal {
                    signature,
                    proposal,
                })
            }
            _ => Err(DecoderError::RlpInconsistentLengthAndData),
        }""", """        if let Prototype::List(2) = r.prototype()? {
            Ok(SignedProposal {
                signature: Signature::from(r.val_at::<Vec<u8>>(0)?),
                proposal: r.val_at(1)?,
            })
        } else {
            Err(DecoderError::RlpInconsistentLengthAndData)
        }"""))
same("y_cd_ne", (CD, """        match r.prototype()? {
            Prototype::List(2) => {
                let lock_round: u64 = r.val_at(0)?;
                let lock_votes: AggregatedVote = r.val_at(1)?;
                Ok(PoLC {
                    lock_round,
                    lock_votes,
                })
            }
            _ => Err(DecoderError::RlpInconsistentLengthAndData),
        }""", """        if let Prototype::List(2) = r.prototype()? {
        } else {
            return Err(DecoderError::RlpInconsistentLengthAndData);
        }
        let lock_votes: AggregatedVote = r.val_at(1)?;
        let lock_round: u64 = r.val_at(0)?;
        Ok(PoLC {
            lock_round,
            lock_votes,
        })"""))
same("y_cd_count", (CD, """        match r.prototype()? {
            Prototype::List(2) => {
                let tmp: Vec<u8> = r.val_at(0)?;
                let signature = Signature::from(tmp);
                let tmp: Vec<u8> = r.val_at(1)?;
                let address_bitmap = Bytes::from(tmp);
                Ok(AggregatedSignature {
                    signature,
                    address_bitmap,
                })
            }
            _ => Err(DecoderError::RlpInconsistentLengthAndData),
        }""", """        if !r.is_list() || r.item_count()? != 2 {
            return Err(DecoderError::RlpInconsistentLengthAndData);
        }
        let signature: Vec<u8> = r.at(0)?.as_val()?;
        let address_bitmap: Vec<u8> = r.at(1)?.as_val()?;
        Ok(AggregatedSignature {
            signature: signature.into(),
            address_bitmap: address_bitmap.into(),
        })"""))
same("y_cd_helper", (CD, """                let vote_type = VoteType::try_from(tmp)
                    .map_err(|_| DecoderError::Custom("Invalid vote type"))?;
                let tmp: Vec<u8> = r.val_at(3)?;
                let block_hash = Hash::from(tmp);
                Ok(Vote {""", """                let vote_type = vote_type_of(tmp)?;
                let block_hash = bytes_at(r, 3)?;
                Ok(Vote {"""), (CD, """// impl Encodable and Decodable trait for Commit
""", """fn bytes_at(r: &Rlp, index: usize) -> Result<Bytes, DecoderError> {
    r.val_at::<Vec<u8>>(index).map(Bytes::from)
}

fn vote_type_of(raw: u8) -> Result<VoteType, DecoderError> {
    match VoteType::try_from(raw) {
        Ok(t) => Ok(t),
        Err(_) => Err(DecoderError::Custom("Invalid vote type")),
    }
}

// impl Encodable and Decodable trait for Commit
"""))
same("y_cd_vt_match", (CD, """                let tmp: u8 = r.val_at(1)?;
                let vote_type = VoteType::try_from(tmp)
                    .map_err(|_| DecoderError::Custom("Invalid vote type"))?;
                let height: u64 = r.val_at(2)?;""", """                let tmp: u8 = r.val_at(1)?;
                let vote_type = match tmp {
                    1 => VoteType::Prevote,
                    2 => VoteType::Precommit,
                    _ => return Err(DecoderError::Custom("Invalid vote type")),
                };
                let height: u64 = r.val_at(2)?;"""))
same("y_cd_enc_steps", (CD, """        s.begin_list(3)
            .append(&self.signature.to_vec())
            .append(&self.vote)
            .append(&self.voter.to_vec());""", """        let signature = self.signature.to_vec();
        let voter = self.voter.to_vec();
        s.begin_list(3);
        s.append(&signature);
        s.append(&self.vote);
        s.append(&voter);"""))
same("y_cd_enc_vt", (CD, """        let vote_type: u8 = self.vote_type.clone().into();
        s.begin_list(4)""", """        let vote_type = match self.vote_type {
            VoteType::Prevote => 1u8,
            VoteType::Precommit => 2u8,
        };
        s.begin_list(4)"""))
same("y_cd_enc_vt2", (CD, """        let vote_type: u8 = self.vote_type.clone().into();
        s.begin_list(6)""", """        let vote_type = u8::from(self.vote_type.clone());
        s.begin_list(6)"""))
same("y_cd_status", (CD, """        let interval = if self.interval.is_none() {
            0u64
        } else {
            self.interval.unwrap()
        };

        let config = if self.timer_config.is_none() {
            DurationConfig::default()
        } else {
            self.timer_config.clone().unwrap()
        };""", """        let interval = self.interval.unwrap_or(0);
        let config = self.timer_config.clone().unwrap_or_default();"""))
same("y_cd_status_dec", (CD, """                let interval = if tmp == 0 { None } else { Some(tmp) };
                let tmp: DurationConfig = r.val_at(2)?;
                let timer_config = if tmp == DurationConfig::default() {
                    None
                } else {
                    Some(tmp)
                };""", """                let interval = Some(tmp).filter(|value| *value != 0);
                let tmp: DurationConfig = r.val_at(2)?;
                let timer_config = match tmp {
                    tmp if tmp == DurationConfig::default() => None,
                    tmp => Some(tmp),
                };"""))
same("y_cd_status_list", (CD, """                let authority_list: Vec<Node> = r.list_at(3)?;
""", """                let authority_list = r.at(3)?.as_list::<Node>()?;
"""))
same("y_cd_from_enc", (CD, """        s.begin_list(2);
        match self {
            UpdateFrom::PrevoteQC(qc) => {
                s.append(&0u8).append(qc);
            }
            UpdateFrom::PrecommitQC(qc) => {
                s.append(&1u8).append(qc);
            }
            UpdateFrom::ChokeQC(qc) => {
                s.append(&2u8).append(qc);
            }
        }""", """        match self {
            UpdateFrom::PrevoteQC(qc) => s.begin_list(2).append(&0u8).append(qc),
            UpdateFrom::PrecommitQC(qc) => s.begin_list(2).append(&1u8).append(qc),
            UpdateFrom::ChokeQC(qc) => s.begin_list(2).append(&2u8).append(qc),
        };"""))
same("y_cd_from_tag", (CD, """        s.begin_list(2);
        match self {
            UpdateFrom::PrevoteQC(qc) => {
                s.append(&0u8).append(qc);
            }
            UpdateFrom::PrecommitQC(qc) => {
                s.append(&1u8).append(qc);
            }
            UpdateFrom::ChokeQC(qc) => {
                s.append(&2u8).append(qc);
            }
        }""", """        let tag: u8 = match self {
            UpdateFrom::PrevoteQC(_) => 0,
            UpdateFrom::PrecommitQC(_) => 1,
            UpdateFrom::ChokeQC(_) => 2,
        };
        s.begin_list(2).append(&tag);
        match self {
            UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => s.append(qc),
            UpdateFrom::ChokeQC(qc) => s.append(qc),
        };"""))
same("y_cd_from_dec", (CD, """                let tmp: u8 = r.val_at(0)?;
                let res = match tmp {
                    0u8 => {
                        let qc: AggregatedVote = r.val_at(1)?;
                        UpdateFrom::PrevoteQC(qc)
                    }
                    1u8 => {
                        let qc: AggregatedVote = r.val_at(1)?;
                        UpdateFrom::PrecommitQC(qc)
                    }
                    2u8 => {
                        let qc: AggregatedChoke = r.val_at(1)?;
                        UpdateFrom::ChokeQC(qc)
                    }
                    _ => return Err(DecoderError::Custom("Invalid update from type")),
                };
                Ok(res)""", """                match r.val_at::<u8>(0)? {
                    0 => r.val_at(1).map(UpdateFrom::PrevoteQC),
                    1 => r.val_at(1).map(UpdateFrom::PrecommitQC),
                    2 => Ok(UpdateFrom::ChokeQC(r.val_at(1)?)),
                    _ => Err(DecoderError::Custom("Invalid update from type")),
                }"""))
same("y_cd_wal_step", (CD, """                let tmp: u8 = r.val_at(2)?;
                if tmp > u8::from(Step::Commit) {
                    return Err(DecoderError::Custom("Invalid step"));
                }
                let step = Step::from(tmp);""", """                let step = match r.val_at::<u8>(2)? {
                    tmp if tmp <= u8::from(Step::Commit) => Step::from(tmp),
                    _ => return Err(DecoderError::Custom("Invalid step")),
                };"""))
same("y_cd_wal_step2", (CD, """            .append::<u8>(&self.step.clone().into())
""", """            .append(&u8::from(self.step.clone()))
"""))
same("y_cd_voters", (CD, """        let tmp: Vec<Vec<u8>> = self
            .voters
            .iter()
            .map(|addr| addr.to_vec())
            .collect::<Vec<_>>();
        s.append_list::<Vec<u8>, _>(&tmp);""", """        let mut tmp: Vec<Vec<u8>> = Vec::with_capacity(self.voters.len());
        for addr in &self.voters {
            tmp.push(addr.to_vec());
        }
        s.append_list::<Vec<u8>, _>(&tmp);"""))
same("y_cd_voters2", (CD, """        let tmp: Vec<Vec<u8>> = self
            .voters
            .iter()
            .map(|addr| addr.to_vec())
            .collect::<Vec<_>>();
        s.append_list::<Vec<u8>, _>(&tmp);""", """        s.begin_list(self.voters.len());
        for addr in self.voters.iter() {
            s.append(&addr.to_vec());
        }"""))
same("y_cd_voters_dec", (CD, """                let tmp: Vec<Vec<u8>> = r.list_at(3)?;
                let voters = tmp.into_iter().map(Address::from).collect::<Vec<_>>();
                Ok(""", """                let mut voters = Vec::new();
                for raw in r.list_at::<Vec<u8>>(3)? {
                    voters.push(Address::from(raw));
                }
                Ok("""))
same("y_cd_content", (CD, """                let content = Codec::decode(Bytes::from(tmp))
                    .map_err(|_| DecoderError::Custom("Codec decode error."))?;
                Ok(WalLock {""", """                let content = match T::decode(Bytes::from(tmp)) {
                    Ok(content) => content,
                    Err(_) => return Err(DecoderError::Custom("Codec decode error.")),
                };
                Ok(WalLock {"""))
same("y_cd_content_enc", (CD, """        let content = self.content.encode().unwrap().to_vec();
        s.begin_list(3)
            .append(&self.lock_round)
            .append(&self.lock_votes)
            .append(&content);""", """        let content = self.content.encode().expect("encode block");
        s.begin_list(3)
            .append(&self.lock_round)
            .append(&self.lock_votes)
            .append(&content.to_vec());"""))
same("y_cd_hash_choke", (CD, """        s.begin_list(2).append(&self.height).append(&self.round);""", """        let HashChoke { height, round } = self;
        s.begin_list(2);
        s.append(height).append(round);"""))

# ---------------------------------------------------------------- types, wal
same("y_ty_prevote", (TY, """        self.vote.vote_type == VoteType::Prevote
""", """        matches!(self.vote.vote_type, VoteType::Prevote)
"""), (TY, """        self.vote_type == VoteType::Prevote
""", """        match self.vote_type {
            VoteType::Prevote => true,
            VoteType::Precommit => false,
        }
"""))
same("y_ty_height", (TY, """            OverlordMsg::SignedVote(sv) => sv.get_height(),
            OverlordMsg::AggregatedVote(av) => av.get_height(),
""", """            OverlordMsg::SignedVote(sv) => sv.vote.height,
            OverlordMsg::AggregatedVote(av) => av.height,
"""))
same("y_ty_rich", (TY, """        matches!(self, OverlordMsg::RichStatus(_))
""", """        if let OverlordMsg::RichStatus(_) = self {
            return true;
        }
        false
"""))
same("y_ty_node", (TY, """        self.authority_list
            .iter()
            .any(|node| node.address == address)
""", """        for node in self.authority_list.iter() {
            if &node.address == address {
                return true;
            }
        }
        false
"""))
same("y_ty_node2", (TY, """        self.authority_list
            .iter()
            .any(|node| node.address == address)
""", """        self.authority_list
            .iter()
            .map(|node| &node.address)
            .find(|addr| *addr == address)
            .is_some()
"""))
same("y_ty_ord", (TY, """        Some(self.voter.cmp(&other.voter))
    }
}
""", """        Some(self.cmp(other))
    }
}
"""), (TY, """        Some(self.address.cmp(&other.address))
""", """        Some(self.cmp(other))
"""))
same("y_ty_tovote", (TY, """            vote_type: self.vote_type.clone(),
            block_hash: self.block_hash.clone(),
        }
    }
""", """            block_hash: self.block_hash.clone(),
            vote_type: if self.is_prevote_qc() {
                VoteType::Prevote
            } else {
                VoteType::Precommit
            },
        }
    }
"""))
same("y_ty_vt_u8", (TY, """            1 => Ok(VoteType::Prevote),
            2 => Ok(VoteType::Precommit),
            _ => Err(ConsensusError::Other("".to_string())),
        }""", """            x if x == u8::from(VoteType::Prevote) => Ok(VoteType::Prevote),
            x if x == u8::from(VoteType::Precommit) => Ok(VoteType::Precommit),
            other => Err(ConsensusError::Other(format!("vote type {}", other))),
        }"""))
same("y_ty_trigger", (TY, """        match v {
            VoteType::Prevote => TriggerType::PrevoteQC,
            VoteType::Precommit => TriggerType::PrecommitQC,
        }""", """        if v == VoteType::Prevote {
            return TriggerType::PrevoteQC;
        }
        TriggerType::PrecommitQC"""))
same("y_ty_smrstatus", (TY, """        SMRStatus {
            height: s.height,
            new_interval: s.interval,
            new_config: s.timer_config,
        }""", """        let Status {
            height,
            interval: new_interval,
            timer_config: new_config,
            ..
        } = s;
        SMRStatus {
            height,
            new_interval,
            new_config,
        }"""))
same("y_wt_base", (WT, """        SMRBase {
            height: self.height,
            round: self.round,
            step: self.step.clone(),
            polc: self.lock.map(|polc| polc.to_lock()),
        }""", """        let polc = match self.lock {
            Some(ref lock) => Some(lock.to_lock()),
            None => None,
        };
        SMRBase {
            height: self.height,
            round: self.round,
            step: self.step,
            polc,
        }"""))
same("y_wt_base2", (WT, """        SMRBase {
            height: self.height,
            round: self.round,
            step: self.step.clone(),
            polc: self.lock.map(|polc| polc.to_lock()),
        }""", """        let WalInfo {
            height,
            round,
            step,
            lock,
            ..
        } = self;
        let mut polc = None;
        if let Some(lock) = lock.as_ref() {
            polc = Some(Lock {
                round: lock.lock_round,
                hash: lock.lock_votes.block_hash.clone(),
            });
        }
        SMRBase {
            height,
            round,
            step,
            polc,
        }"""))

# ---------------------------------------------------------------- smr types
same("y_st_step_u8", (ST, """        match step {
            Step::Propose => 0,
            Step::Prevote => 1,
            Step::Precommit => 2,
            Step::Brake => 3,
            Step::Commit => 4,
        }""", """        step as u8"""))
same("y_st_step_from", (ST, """        match s {
            0 => Step::Propose,
            1 => Step::Prevote,
            2 => Step::Precommit,
            3 => Step::Brake,
            4 => Step::Commit,
            _ => panic!("Invalid step!"),
        }""", """        let steps = [
            Step::Propose,
            Step::Prevote,
            Step::Precommit,
            Step::Brake,
            Step::Commit,
        ];
        for step in steps.iter() {
            if u8::from(step.clone()) == s {
                return step.clone();
            }
        }
        panic!("Invalid step!")"""))
same("y_st_round", (ST, """        match self {
            FromWhere::PrevoteQC(round) => *round,
            FromWhere::PrecommitQC(round) => *round,
            FromWhere::ChokeQC(round) => *round,
        }""", """        let (FromWhere::PrevoteQC(round) | FromWhere::PrecommitQC(round) | FromWhere::ChokeQC(round)) =
            self;
        *round"""))

# ---------------------------------------------------------------- entry points
same("y_ov_handler", (OV, """        if self.0.is_closed() {
            Err(ConsensusError::ChannelErr(
                "[OverlordHandler]: channel closed".to_string(),
            ))
        } else {
            self.0
                .unbounded_send((ctx, msg))
                .map_err(|e| ConsensusError::Other(format!("Send message error {:?}", e)))
        }""", """        if self.0.is_closed() {
            return Err(ConsensusError::ChannelErr(
                "[OverlordHandler]: channel closed".to_string(),
            ));
        }
        if let Err(e) = self.0.unbounded_send((ctx, msg)) {
            return Err(ConsensusError::Other(format!("Send message error {:?}", e)));
        }
        Ok(())"""))
same("y_ov_order", (OV, """        // Run SMR.
        smr_provider.run();

        // Run timer.
        timer.run();
""", """        // Run timer.
        timer.run();

        // Run SMR.
        smr_provider.run();
"""))
same("y_ov_take", (OV, """        let (rx, mut state, resp) = {
            let mut state_rx = self.state_rx.write();
            let mut address = self.address.write();
            let mut consensus = self.consensus.write();
            let mut crypto = self.crypto.write();
            let mut wal = self.wal.write();
            // let sender = self.sender.read();

            let tmp_rx = state_rx.take().unwrap();
            let (tmp_state, tmp_resp) = State::new(
                smr_handler,
                address.take().unwrap(),
                init_height,
                interval,
                authority_list,
                verify_sig_tx,
                consensus.take().unwrap(),
                crypto.take().unwrap(),
                wal.take().unwrap(),
            );

            // assert!(sender.is_none());
            assert!(address.is_none());
            assert!(consensus.is_none());
            assert!(crypto.is_none());
            assert!(state_rx.is_none());
            assert!(wal.is_none());

            (tmp_rx, tmp_state, tmp_resp)
        };""", """        let rx = self.state_rx.write().take().unwrap();
        let address = self.address.write().take().unwrap();
        let consensus = self.consensus.write().take().unwrap();
        let crypto = self.crypto.write().take().unwrap();
        let wal = self.wal.write().take().unwrap();
        let (mut state, resp) = State::new(
            smr_handler,
            address,
            init_height,
            interval,
            authority_list,
            verify_sig_tx,
            consensus,
            crypto,
            wal,
        );"""))
same("y_tc_ratio", (TC, """        match event {
            SMREvent::NewRoundInfo { .. } => Ok(self.get_propose_timeout()),
            SMREvent::PrevoteVote { .. } => Ok(self.get_prevote_timeout()),
            SMREvent::PrecommitVote { .. } => Ok(self.get_precommit_timeout()),
            SMREvent::Brake { .. } => Ok(self.get_brake_timeout()),
            _ => Err(ConsensusError::TimerErr("No commit timer".to_string())),
        }
    }
""", """        let (numerator, denominator) = match event {
            SMREvent::NewRoundInfo { .. } => self.propose,
            SMREvent::PrevoteVote { .. } => self.prevote,
            SMREvent::PrecommitVote { .. } => self.precommit,
            SMREvent::Brake { .. } => self.brake,
            _ => return Err(ConsensusError::TimerErr("No commit timer".to_string())),
        };
        let millis = self.interval.get() * numerator / denominator;
        Ok(Duration::from_millis(millis))
    }
"""), (TC, """    fn get_propose_timeout""", """    #[allow(dead_code)]
    fn get_propose_timeout"""), (TC, """    fn get_prevote_timeout""", """    #[allow(dead_code)]
    fn get_prevote_timeout"""), (TC, """    fn get_precommit_timeout""", """    #[allow(dead_code)]
    fn get_precommit_timeout"""), (TC, """    fn get_brake_timeout""", """    #[allow(dead_code)]
    fn get_brake_timeout"""))
same("y_mo_run", (MO, """            loop {
                let res = self.state_machine.next().await;
                if let Some(Err(err)) = res {
                    error!("Overlord: SMR error {:?}", err);
                } else if res.is_none() {
                    break;
                }
            }""", """            while let Some(res) = self.state_machine.next().await {
                match res {
                    Ok(_) => continue,
                    Err(err) => error!("Overlord: SMR error {:?}", err),
                }
            }"""))
same("y_mo_nh", (MO, """        let height = status.height;
        let trigger = TriggerType::NewHeight(status);
        self.tx
            .unbounded_send(SMRTrigger {
                trigger_type: trigger.clone(),
                source: TriggerSource::State,
                hash: Hash::new(),
                lock_round: None,
                round: INIT_ROUND,
                height,
                wal_info: None,
            })
            .map_err(|_| ConsensusError::TriggerSMRErr(trigger.to_string()))""", """        self.trigger(SMRTrigger {
            height: status.height,
            trigger_type: TriggerType::NewHeight(status),
            source: TriggerSource::State,
            hash: Hash::new(),
            lock_round: None,
            round: INIT_ROUND,
            wal_info: None,
        })"""))

# ---------------------------------------------------------------- more styles elsewhere
same("y_pa_result", (PA, """    let hash = crypto.hash(Bytes::from(rlp::encode(&qc.to_vote())));
    if let Ok(voters) = get_voters(&qc.signature.address_bitmap, authority) {
        crypto
            .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
            .map_or_else(
                |err| {
                    log::error!(
                        "Overlord: verify {:?} aggregated signature error {:?}",
                        qc,
                        err
                    );
                },
                |_| {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                },
            );
    }""", """    if is_valid_qc(&crypto, &qc, authority) {
        let _ = tx.unbounded_send((ctx, msg_clone));
    } else {
        log::error!("Overlord: verify {:?} aggregated signature error", qc);
    }
}

fn is_valid_qc<C: Crypto>(crypto: &Arc<C>, qc: &AggregatedVote, authority: AuthorityManage) -> bool {
    let voters = match get_voters(&qc.signature.address_bitmap, authority) {
        Ok(voters) => voters,
        Err(_) => return false,
    };
    let hash = crypto.hash(Bytes::from(rlp::encode(&qc.to_vote())));
    crypto
        .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
        .is_ok()"""))
same("y_pa_voters", (PA, """    if !authority_manage.is_above_threshold(addr_bitmap)? {
        return Err(ConsensusError::AggregatedSignatureErr(
            "vote weight is not above threshold".to_string(),
        ));
    }
    authority_manage.get_voters(addr_bitmap)""", """    match authority_manage.is_above_threshold(addr_bitmap) {
        Ok(true) => authority_manage.get_voters(addr_bitmap),
        Ok(false) => Err(ConsensusError::AggregatedSignatureErr(
            "vote weight is not above threshold".to_string(),
        )),
        Err(e) => Err(e),
    }"""))
same("y_sm_lockround", (SM, """            let round = if let Some(lock) = &self.lock {
                Some(lock.round)
            } else {
                self.""", """            let round = if self.lock.is_some() {
                self.lock.as_ref().map(|lock| lock.round)
            } else {
                self."""))
same("y_st_height_cmp", (P, """        if status.height <= self.height {
            log::warn!(
                "Overlord: state receive an outdated status, height {}, self height {}",
                status.height,
                self.height
            );
            return Ok(());
        }
""", """        let outdated = self.height >= status.height;
        if outdated {
            log::warn!(
                "Overlord: state receive an outdated status, height {}, self height {}",
                status.height,
                self.height
            );
            return Ok(());
        }
"""))
same("y_st_newheight_split", (P, """        // Clear outdated proposals and votes.
        self.proposals.flush(new_height - 1);
        self.votes.flush(new_height - 1);
        self.hash_with_block.clear();
        self.is_full_transaction.clear();
        self.chokes.clear();
""", """        self.forget_before(new_height);
"""), (P, """    /// Handle `NewRoundInfo` event from SMR.""", """    fn forget_before(&mut self, height: u64) {
        self.chokes.clear();
        self.hash_with_block = HashMap::new();
        self.is_full_transaction = HashMap::new();
        self.votes.flush(height);
        self.proposals.flush(height);
    }

    /// Handle `NewRoundInfo` event from SMR."""))
same("y_st_resp_state", (P, """        if resp.height != self.height {
            return Ok(());
        }

        let block_hash = resp.block_hash.clone();
        log::debug!(
            "Overlord: state receive a verify response true, height {}, round {}, hash {:?}",
            resp.height,
            resp.round,
            hex_encode(block_hash.clone())
        );

        self.is_full_transaction
            .insert(block_hash.clone(), resp.is_pass);
""", """        let VerifyResp {
            height,
            block_hash,
            is_pass,
            ..
        } = resp;
        if height != self.height {
            return Ok(());
        }

        *self
            .is_full_transaction
            .entry(block_hash.clone())
            .or_insert(is_pass) = is_pass;
"""))
same("y_st_agg_early", (P, """        if qc_type == VoteType::Prevote && vote_round < self.round {
            log::debug!("Overlord: state receive a outdated prevote qc.");
            return Ok(());
        } else if qc_type == VoteType::Precommit
            && aggregated_vote.block_hash.is_empty()
            && vote_round < self.round
        {
            return Ok(());
        }
""", """        if vote_round < self.round {
            match qc_type {
                VoteType::Prevote => {
                    log::debug!("Overlord: state receive a outdated prevote qc.");
                    return Ok(());
                }
                VoteType::Precommit if aggregated_vote.block_hash.is_empty() => return Ok(()),
                VoteType::Precommit => (),
            }
        }
"""))
same("y_st_gen_vec", (P, """        let len = votes.len();
        let mut signatures = Vec::with_capacity(len);
        let mut voters = Vec::with_capacity(len);
        for vote in votes.into_iter() {
            signatures.push(vote.signature);
            voters.push(vote.voter);
        }

        let set = voters.iter().cloned().collect::<HashSet<_>>();
""", """        let signatures = votes.iter().map(|vote| vote.signature.clone()).collect::<Vec<_>>();
        let voters = votes.into_iter().map(|vote| vote.voter).collect::<Vec<_>>();
        let mut set = HashSet::new();
        for voter in voters.iter() {
            set.insert(voter.clone());
        }
"""))
same("y_st_gen_sort", (P, """        votes.sort();

        log::debug!("Overlord: state build aggregated signature");
""", """        votes.sort_by(|a, b| a.voter.cmp(&b.voter));

        log::debug!("Overlord: state build aggregated signature");
"""))
same("y_st_brake", (P, """        if round != self.round {
            return Err(ConsensusError::CorrectnessErr(format!(
                "SMR round {}, state round {}",
                round, self.round
            )));
        }

        let choke = Choke {
            height: self.height,
            round: self.round,
            from: self.update_from_where.clone(),
""", """        if self.round != round {
            let msg = format!("SMR round {}, state round {}", round, self.round);
            return Err(ConsensusError::CorrectnessErr(msg));
        }

        let from = self.update_from_where.clone();
        let choke = Choke {
            height: self.height,
            round,
            from,
"""))
