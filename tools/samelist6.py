"""more refactorings: the small helpers of the three modules, and where they are used"""
from mutlist import same, P, SM, TM, AM, CO, PA, OV, TY, CD, ST, WT, MO  # noqa: F401

# ---------------------------------------------------------------- state/process
same("w_isprop_flag", (P, """        if proposer == self.address {
            log::info!(
                "Overlord: state self become leader, height {}, round {}",
                self.height,
                self.round
            );
            self.is_leader = true;
            self.leader_address = self.address.clone();
            return Ok(true);
        }

        log::info!(
            "Overlord: {:?} become leader, height {}, round {}",
            hex_encode(proposer.clone()),
            self.height,
            self.round
        );
        self.leader_address = proposer;
        self.is_leader = false;
        Ok(false)
""", """        self.is_leader = proposer == self.address;
        self.leader_address = proposer;
        Ok(self.is_leader)
"""))
same("w_isprop_ne", (P, """        if proposer == self.address {
            log::info!(
                "Overlord: state self become leader, height {}, round {}",
                self.height,
                self.round
            );
            self.is_leader = true;
            self.leader_address = self.address.clone();
            return Ok(true);
        }

        log::info!(
            "Overlord: {:?} become leader, height {}, round {}",
            hex_encode(proposer.clone()),
            self.height,
            self.round
        );
        self.leader_address = proposer;
        self.is_leader = false;
        Ok(false)
""", """        let mine = !(proposer != self.address);
        self.leader_address = proposer;
        self.is_leader = mine;
        if !mine {
            return Ok(false);
        }
        Ok(true)
"""))
same("w_nextprop_map", (P, """        let proposer = self.authority.get_proposer(height, round)?;
        Ok(self.address == proposer)
""", """        self.authority
            .get_proposer(height, round)
            .map(|proposer| proposer == self.address)
"""))
same("w_signprop_match", (P, """        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&proposal))))
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;

        Ok(SignedProposal {
            signature,
            proposal,
        })
""", """        let encoded = Bytes::from(rlp::encode(&proposal));
        let digest = self.util.hash(encoded);
        match self.util.sign(digest) {
            Ok(signature) => Ok(SignedProposal {
                proposal,
                signature,
            }),
            Err(err) => Err(ConsensusError::CryptoErr(format!("{:?}", err))),
        }
"""))
same("w_signvote_map", (P, """        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&vote))))
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;

        Ok(SignedVote {
            voter: self.address.clone(),
            signature,
            vote,
        })
""", """        let voter = self.address.clone();
        self.util
            .sign(self.util.hash(Bytes::from(rlp::encode(&vote))))
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))
            .map(|signature| SignedVote {
                voter,
                signature,
                vote,
            })
"""))
same("w_agg_direct", (P, """        let signature = self
            .util
            .aggregate_signatures(signatures, voters)
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;
        Ok(signature)
""", """        match self.util.aggregate_signatures(signatures, voters) {
            Err(err) => Err(ConsensusError::CryptoErr(format!("{:?}", err))),
            ok => ok.map_err(|_| ConsensusError::Other(String::new())),
        }
"""))
same("w_vprop_chain", (P, """        self.verify_address(address)?;
        if address != &self.authority.get_proposer(height, round)? {
            return Err(ConsensusError::ProposalErr("Invalid proposer".to_string()));
        }
        Ok(())
""", """        self.verify_address(address).and_then(|_| {
            let expected = self.authority.get_proposer(height, round)?;
            if expected == *address {
                Ok(())
            } else {
                Err(ConsensusError::ProposalErr("Invalid proposer".to_string()))
            }
        })
"""))
same("w_vprop_noaddr", (P, """        self.verify_address(address)?;
        if address != &self.authority.get_proposer(height, round)? {
""", """        let expected = self.authority.get_proposer(height, round)?;
        self.verify_address(address)?;
        if &expected != address {
"""))
same("w_vaddr_then", (P, """        if !self.authority.contains(address) {
            return Err(ConsensusError::InvalidAddress);
        }
        Ok(())
    }

    async fn transmit""", """        match self.authority.contains(address) {
            true => Ok(()),
            false => Err(ConsensusError::InvalidAddress),
        }
    }

    async fn transmit"""))
same("w_transmit_iflet", (P, """        let _ = self
            .function
            .transmit_to_relayer(ctx, self.leader_address.clone(), msg.clone())
            .await
            .map_err(|err| {
                log::error!(
                    "Overlord: state transmit message to leader failed {:?}",
                    err
                );
            });
""", """        let relayer = self.leader_address.clone();
        if let Err(err) = self.function.transmit_to_relayer(ctx, relayer, msg).await {
            log::error!(
                "Overlord: state transmit message to leader failed {:?}",
                err
            );
        }
"""))
same("w_broadcast_match", (P, """        let _ = self
            .function
            .broadcast_to_other(ctx, msg.clone())
            .await
            .map_err(|err| {
                log::error!("Overlord: state broadcast message failed {:?}", err);
            });
""", """        match self.function.broadcast_to_other(ctx, msg).await {
            Ok(()) => (),
            Err(err) => log::error!("Overlord: state broadcast message failed {:?}", err),
        }
"""))
same("w_recheck_votes_destr", (P, """        for item in votes_and_ctxs.into_iter() {
            parallel_verify(
                item.1,
                OverlordMsg::SignedVote(item.0),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }
""", """        for (vote, ctx) in votes_and_ctxs {
            let util = Arc::clone(&self.util);
            let msg = OverlordMsg::SignedVote(vote);
            let authority = self.authority.clone();
            parallel_verify(ctx, msg, util, authority, self.verify_sig_tx.clone()).await;
        }
"""))
same("w_recheck_qcs_while", (P, """        for item in qcs.into_iter() {
            parallel_verify(
                Context::new(),
                OverlordMsg::AggregatedVote(item),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }
""", """        let mut iter = qcs.into_iter();
        while let Some(qc) = iter.next() {
            parallel_verify(
                Context::new(),
                OverlordMsg::AggregatedVote(qc),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }
"""))
same("w_reason_match", (P, """        let proposal = self.proposals.get(height, round);
        if proposal.is_err() {
            return ViewChangeReason::NoProposalFromNetwork;
        }

        // Check block failed case.
        let proposal = proposal.unwrap().0;
""", """        let proposal = match self.proposals.get(height, round) {
            Ok((proposal, _)) => proposal,
            Err(_) => return ViewChangeReason::NoProposalFromNetwork,
        };

        // Check block failed case.
"""))
same("w_choke_let", (P, """        if let Some(round) = self.chokes.max_round_above_threshold(self.authority.len()) {
            if round < self.round {
                return Ok(());
            }
""", """        let nodes = self.authority.len();
        let found = self.chokes.max_round_above_threshold(nodes);
        if let Some(round) = found.filter(|round| *round >= self.round) {
"""))
same("w_choke_unzip", (P, """            let mut sigs = Vec::with_capacity(signed_chokes.len());
            let mut voters = Vec::with_capacity(signed_chokes.len());
            for sc in signed_chokes.iter() {
                sigs.push(sc.signature.clone());
                voters.push(sc.address.clone());
            }
""", """            let sigs = signed_chokes
                .iter()
                .map(|sc| sc.signature.clone())
                .collect::<Vec<_>>();
            let voters = signed_chokes
                .iter()
                .map(|sc| sc.address.clone())
                .collect::<Vec<_>>();
"""))
# ---------------------------------------------------------------- smr
same("w_sm_throw_chan", (SM, """        self.event.0.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        self.event.1.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        Ok(())
    }

    fn throw_timer_event""", """        let (state, _) = &self.event;
        if let Err(err) = state.unbounded_send(event.clone()) {
            return Err(ConsensusError::ThrowEventErr(format!(
                "event: {}, error: {:?}",
                event, err
            )));
        }
        self.throw_timer_event(event)
    }

    fn throw_timer_event"""))
same("w_sm_throw_timer", (SM, """    fn throw_timer_event(&mut self, event: SMREvent) -> ConsensusResult<()> {
        self.event.1.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        Ok(())
    }""", """    fn throw_timer_event(&mut self, event: SMREvent) -> ConsensusResult<()> {
        let name = event.to_string();
        self.event.1.unbounded_send(event).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", name, err))
        })
    }"""))
same("w_sm_newheight_helper", (SM, """        self.round = INIT_ROUND;
        self.goto_step(Step::Propose);
        self.block_hash = Hash::new();
        self.lock = None;
""", """        self.round = 0;
        self.remove_polc();
        self.set_proposal(Hash::default());
        self.step = Step::Propose;
"""))
same("w_sm_afterwal_map", (SM, """        let (lock_round, lock_proposal) = if let Some(lock) = &self.lock {
            (Some(lock.round), Some(lock.hash.clone()))
        } else {
            (None, None)
        };

        let event = match self.step {
            Step::Propose""", """        let lock_round = self.lock.as_ref().map(|lock| lock.round);
        let lock_proposal = self.lock.as_ref().map(|lock| lock.hash.clone());

        let event = match self.step {
            Step::Propose"""))
same("w_sm_polc_take", (SM, """        if hash.is_empty() {
            self.remove_polc();
        } else {
            self.lock = Some(Lock { round, hash });
        }
""", """        self.lock = if !hash.is_empty() {
            Some(Lock { hash, round })
        } else {
            None
        };
"""))
same("w_mo_take", (MO, """        assert!(self.smr_handler.is_some());
        self.smr_handler.take().unwrap()
""", """        std::mem::replace(&mut self.smr_handler, None).unwrap()
"""))
same("w_mo_run_match", (MO, """                let res = self.state_machine.next().await;
                if let Some(Err(err)) = res {
                    error!("Overlord: SMR error {:?}", err);
                } else if res.is_none() {
                    break;
                }
""", """                match self.state_machine.next().await {
                    None => break,
                    Some(Ok(_)) => (),
                    Some(Err(err)) => error!("Overlord: SMR error {:?}", err),
                }
"""))
same("w_mo_run_while", (MO, """            loop {
                let res = self.state_machine.next().await;
                if let Some(Err(err)) = res {
                    error!("Overlord: SMR error {:?}", err);
                } else if res.is_none() {
                    break;
                }
            }
""", """            while let Some(res) = self.state_machine.next().await {
                if let Err(err) = res {
                    error!("Overlord: SMR error {:?}", err);
                }
            }
"""))
same("w_mo_newheight_via", (MO, """        let trigger = TriggerType::NewHeight(status);
        self.tx
            .unbounded_send(SMRTrigger {
                trigger_type: trigger.clone(),
                source: TriggerSource::State,
                hash: Hash::new(),
                lock_round: None,
                round: INIT_ROUND,
                height,
                wal_info: None,
            })
            .map_err(|_| ConsensusError::TriggerSMRErr(trigger.to_string()))
""", """        self.trigger(SMRTrigger {
            trigger_type: TriggerType::NewHeight(status),
            source: TriggerSource::State,
            hash: Hash::new(),
            lock_round: None,
            round: INIT_ROUND,
            height,
            wal_info: None,
        })
"""))
same("w_mo_trigger_match", (MO, """        self.tx
            .unbounded_send(gate)
            .map_err(|_| ConsensusError::TriggerSMRErr(trigger_type))
    }
""", """        match self.tx.unbounded_send(gate) {
            Ok(()) => Ok(()),
            Err(_) => Err(ConsensusError::TriggerSMRErr(trigger_type)),
        }
    }
"""))
same("w_st_round_or", (ST, """        match self {
            FromWhere::PrevoteQC(round) => *round,
            FromWhere::PrecommitQC(round) => *round,
            FromWhere::ChokeQC(round) => *round,
        }
""", """        match *self {
            FromWhere::PrevoteQC(round)
            | FromWhere::PrecommitQC(round)
            | FromWhere::ChokeQC(round) => round,
        }
"""))
# ---------------------------------------------------------------- start
same("w_new_let", (P, """        let state = State {
            height: init_height,
            round: INIT_ROUND,
            state_machine: smr,
            consensus_power: auth.contains(&addr),
            address: addr,
""", """        let address = addr;
        let consensus_power = auth.contains(&address);
        let state = State {
            address,
            consensus_power,
            round: 0,
            height: init_height,
            state_machine: smr,
"""))
same("w_new_default", (P, """            hash_with_block: HashMap::new(),
            is_full_transaction: HashMap::new(),
            is_leader: false,
            leader_address: Address::default(),
            update""", """            hash_with_block: Default::default(),
            is_full_transaction: HashMap::default(),
            is_leader: bool::default(),
            leader_address: Address::new(),
            update"""))
same("w_smnew_tuple", (SM, """        let (tx_state, rx_state) = unbounded();
        let (tx_timer, rx_timer) = unbounded();

        let state_machine = StateMachine {
            height: INIT_HEIGHT,
            round: INIT_ROUND,
            step: Step::default(),
            block_hash: Hash::new(),
            lock: None,
            trigger: trigger_receiver,
            event: (tx_state, tx_timer),
        };

        (state_machine, Event::new(rx_state), Event::new(rx_timer))
""", """        let (tx_timer, rx_timer) = unbounded();
        let (tx_state, rx_state) = unbounded();
        let event = (tx_state, tx_timer);
        let evt_timer = Event::new(rx_timer);

        (
            StateMachine {
                trigger: trigger_receiver,
                event,
                step: Step::Commit,
                lock: Option::default(),
                block_hash: Hash::default(),
                round: 0,
                height: 0,
            },
            Event::new(rx_state),
            evt_timer,
        )
"""))
same("w_ov_run_direct", (OV, """            let tmp_rx = state_rx.take().unwrap();
            let (tmp_state, tmp_resp) = State::new(
                smr_handler,
                address.take().unwrap(),
                init_height,
                interval,
                authority_list,
                verify_sig_tx,
                consensus.take().unwrap(),
                crypto.take().unwrap(),
                wal.take().unwrap(),
            );
""", """            let own = address.take().unwrap();
            let function = consensus.take().unwrap();
            let util = crypto.take().unwrap();
            let log_engine = wal.take().unwrap();
            let tmp_rx = state_rx.take().unwrap();
            let (tmp_state, tmp_resp) = State::new(
                smr_handler,
                own,
                init_height,
                interval,
                authority_list,
                verify_sig_tx,
                function,
                util,
                log_engine,
            );
"""))
# ---------------------------------------------------------------- pace
PACE = """        if self.next_proposer(status.height, INIT_ROUND)?
            && cost < Duration::from_millis(self.block_interval)
        {
            sleep(Duration::from_millis(self.block_interval) - cost).await;
        }
"""
same("w_pace_checked", (P, PACE, """        let leads = self.next_proposer(status.height, INIT_ROUND)?;
        let interval = Duration::from_millis(self.block_interval);
        if leads {
            if let Some(rest) = interval.checked_sub(cost) {
                sleep(rest).await;
            }
        }
"""))
same("w_pace_helper", (P, PACE, """        if self.next_proposer(status.height, INIT_ROUND)? {
            self.keep_pace(cost).await;
        }
"""), (P, "    async fn transmit(", """    async fn keep_pace(&self, cost: Duration) {
        let interval = Duration::from_millis(self.block_interval);
        if cost >= interval {
            return;
        }
        sleep(interval - cost).await;
    }

    async fn transmit("""))
same("w_pace_elapsed", (P, "        let cost = Instant::now() - self.height_start;", "        let cost = self.height_start.elapsed();"))
same("w_pace_since", (P, "        let cost = Instant::now() - self.height_start;", "        let cost = Instant::now().duration_since(self.height_start);"))
same("w_pace_nested", (P, PACE, """        let block_interval = Duration::from_millis(self.block_interval);
        let rest = if cost < block_interval {
            Some(block_interval - cost)
        } else {
            None
        };
        if self.next_proposer(status.height, INIT_ROUND)? {
            if let Some(rest) = rest {
                sleep(rest).await;
            }
        }
"""))
same("w_brake_order", (P, """        self.chokes.insert(self.round, signed_choke.clone());
        self.save_wal_with_lock_round(Step::Brake, lock_round)
            .await?;
""", """        let round = self.round;
        self.save_wal_with_lock_round(Step::Brake, lock_round)
            .await?;
        self.chokes.insert(round, signed_choke.clone());
"""))
