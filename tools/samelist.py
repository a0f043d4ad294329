"""changes that keep the behaviour: every rule has to stay quiet on them"""
from mutlist import same, P, SM, TM, AM, CO, PA, OV, TY, CD, ST, WT, MO  # noqa: F401

TC = "src/utils/timer_config.rs"
RP = "src/utils/rand_proposer.rs"

# ---------------------------------------------------------------- authority manage
same("z_am_sum", (AM, """        let mut acc = 0u64;

        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }

        Ok(acc * 3 > self.vote_weight_sum * 2)""", """        let acc = bitmap
            .iter()
            .zip(self.address.iter())
            .filter(|node| node.0)
            .map(|node| {
                self.vote_weight_map
                    .get(node.1)
                    .map(|weight| u64::from(*weight))
                    .ok_or_else(|| {
                        ConsensusError::Other(format!("Lose {:?} vote weight", node.1.clone()))
                    })
            })
            .collect::<ConsensusResult<Vec<u64>>>()?
            .into_iter()
            .sum::<u64>();

        Ok(self.vote_weight_sum * 2 < acc * 3)"""))
same("z_am_try", (AM, """            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
""", """            if !node.0 {
                continue;
            }
            acc += u64::from(*self.get_vote_weight(node.1)?);
"""))
same("z_am_match", (AM, """        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }
""", """        for (bit, addr) in bitmap.iter().zip(self.address.iter()) {
            if bit {
                match self.vote_weight_map.get(addr) {
                    Some(weight) => acc += *weight as u64,
                    None => {
                        return Err(ConsensusError::Other(format!(
                            "Lose {:?} vote weight",
                            addr
                        )))
                    }
                }
            }
        }
"""))
same("z_am_enum", (AM, """        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }
""", """        for (addr, _) in self
            .address
            .iter()
            .zip(bitmap.iter())
            .filter(|(_, bit)| *bit)
        {
            acc += self
                .vote_weight_map
                .get(addr)
                .map(|weight| u64::from(*weight))
                .ok_or_else(|| ConsensusError::Other(format!("Lose {:?} vote weight", addr)))?;
        }
"""))
same("z_am_voters_loop", (AM, """        let voters = bitmap
            .iter()
            .zip(self.address.iter())
            .filter(|node| node.0)
            .map(|node| node.1.clone())
            .collect::<Vec<_>>();
        Ok(voters)""", """        let mut voters = Vec::with_capacity(self.address.len());
        for (hit, addr) in bitmap.iter().zip(self.address.iter()) {
            if hit {
                voters.push(addr.clone());
            }
        }
        Ok(voters)"""))
same("z_am_voters_fm", (AM, """            .filter(|node| node.0)
            .map(|node| node.1.clone())
            .collect::<Vec<_>>();
        Ok(voters)""", """            .filter_map(|(hit, addr)| if hit { Some(addr.to_owned()) } else { None })
            .collect::<Vec<_>>();
        Ok(voters)"""))
same("z_am_extract_get", (AM, """    let voters: Vec<Address> = bitmap
        .iter()
        .zip(authority_list.iter())
        .filter(|pair| pair.0) //the bitmap must hit
        .map(|pair| pair.1.address.clone()) //get the corresponding address
        .collect::<Vec<_>>();
    Ok(voters)""", """    let mut voters: Vec<Address> = Vec::new();
    for (node, hit) in authority_list.iter().zip(bitmap.iter()) {
        if !hit {
            continue;
        }
        voters.push(node.address.clone());
    }
    Ok(voters)"""))
same("z_am_update_new", (AM, """        self.address.clear();
        self.propose_weights.clear();
        self.vote_weight_map.clear();
        self.propose_weight_sum = 0;
        self.vote_weight_sum = 0;""", """        *self = AuthorityManage::new();"""))
same("z_am_update_iter", (AM, """        for node in authority_list.iter_mut() {
            let propose_weight = u64::from(node.propose_weight);
            let vote_weight = node.vote_weight;

            self.address.push(node.address.clone());
            self.propose_weights.push(propose_weight);
            self.vote_weight_map
                .insert(node.address.clone(), vote_weight);
            self.propose_weight_sum += propose_weight;
            self.vote_weight_sum += u64::from(vote_weight);
        }""", """        self.address = authority_list.iter().map(|n| n.address.clone()).collect();
        self.propose_weights = authority_list
            .iter()
            .map(|n| u64::from(n.propose_weight))
            .collect();
        self.vote_weight_map = authority_list
            .iter()
            .map(|n| (n.address.clone(), n.vote_weight))
            .collect();
        self.propose_weight_sum = self.propose_weights.iter().sum();
        self.vote_weight_sum = authority_list.iter().map(|n| u64::from(n.vote_weight)).sum();"""))
same("z_am_update_helper", (AM, """        for node in authority_list.iter_mut() {
            let propose_weight = u64::from(node.propose_weight);
            let vote_weight = node.vote_weight;

            self.address.push(node.address.clone());
            self.propose_weights.push(propose_weight);
            self.vote_weight_map
                .insert(node.address.clone(), vote_weight);
            self.propose_weight_sum += propose_weight;
            self.vote_weight_sum += u64::from(vote_weight);
        }
    }
""", """        for node in authority_list.iter() {
            self.add_node(node);
        }
    }

    fn add_node(&mut self, node: &Node) {
        let weight = node.propose_weight as u64;
        self.vote_weight_sum += node.vote_weight as u64;
        self.propose_weight_sum += weight;
        self.vote_weight_map
            .insert(node.address.clone(), node.vote_weight);
        self.propose_weights.push(weight);
        self.address.push(node.address.clone());
    }
"""))
same("z_am_update_while", (AM, """        for node in authority_list.iter_mut() {
            let propose_weight = u64::from(node.propose_weight);""", """        let mut idx = 0;
        while idx < authority_list.len() {
            let node = &authority_list[idx];
            idx += 1;
            let propose_weight = u64::from(node.propose_weight);"""))
same("z_am_sortby", (AM, """        self.flush();
        authority_list.sort();
""", """        self.flush();
        authority_list.sort_by(|a, b| a.cmp(b));
"""))
same("z_am_leader_iter", (AM, """    let mut weight_sum = 0u64;
    let mut propose_weights = Vec::new();
    for node in authority_list.iter() {
        weight_sum += u64::from(node.propose_weight);
        propose_weights.push(node.propose_weight as u64);
    }
""", """    let propose_weights = authority_list
        .iter()
        .map(|node| u64::from(node.propose_weight))
        .collect::<Vec<u64>>();
    let weight_sum = propose_weights.iter().sum::<u64>();
"""))
same("z_am_leader_auth", (AM, """    authority_list.sort();
    let mut weight_sum = 0u64;
    let mut propose_weights = Vec::new();
    for node in authority_list.iter() {
        weight_sum += u64::from(node.propose_weight);
        propose_weights.push(node.propose_weight as u64);
    }

    let index = if cfg!(feature = "random_leader") {
        get_random_proposer_index(height.wrapping_add(round), &propose_weights, weight_sum)
    } else {
        rotation_leader_index(height, round, authority_list.len())
    };

    authority_list[index].address.clone()
}""", """    let mut authority = AuthorityManage::new();
    authority.update(&mut authority_list);
    let index = authority.leader_index(height, round);
    authority.address[index].clone()
}"""), (AM, """        let index = if cfg!(feature = "random_leader") {
            get_random_proposer_index(
                height.wrapping_add(round),
                &self.propose_weights,
                self.propose_weight_sum,
            )
        } else {
            rotation_leader_index(height, round, self.address.len())
        };

        if let""", """        let index = self.leader_index(height, round);

        if let"""), (AM, """    /// Calculate whether the sum""", """    fn leader_index(&self, height: u64, round: u64) -> usize {
        if cfg!(feature = "random_leader") {
            let seed = height.wrapping_add(round);
            get_random_proposer_index(seed, &self.propose_weights, self.propose_weight_sum)
        } else {
            rotation_leader_index(height, round, self.address.len())
        }
    }

    /// Calculate whether the sum"""))
same("z_am_proposer_match", (AM, """        if let Some(addr) = self.address.get(index) {
            return Ok(addr.to_owned());
        }
        Err(ConsensusError::Other(
            "The address list mismatch propose weight list".to_string(),
        ))""", """        self.address.get(index).cloned().ok_or_else(|| {
            ConsensusError::Other("The address list mismatch propose weight list".to_string())
        })"""))
same("z_am_rot", (AM, """    let res = height.wrapping_mul(prime_num).wrapping_add(round) % (len as u64);
    res as usize""", """    let base = prime_num.wrapping_mul(height);
    (round.wrapping_add(base) % u64::from(len)) as usize"""))
same("z_am_rot_match", (AM, """    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;""", """    let primes = get_primes_less_than_x(len);
    let prime_num = match primes.last() {
        Some(prime) => u64::from(*prime),
        None => 1u64,
    };"""))
same("z_am_contains", (AM, """        self.address.contains(address)""", """        self.address.iter().any(|addr| addr == address)"""))
same("z_am_contains_map", (AM, """        self.address.contains(address)""", """        self.vote_weight_map.contains_key(address)"""))
same("z_rp_loop", (RP, """    for (index, weight) in weights.iter().enumerate() {
        acc += *weight;
        if random_digit < acc * tmp {
            return index;
        }
    }
    0""", """    let mut index = 0;
    for weight in weights.iter() {
        acc += weight;
        if acc * tmp > random_digit {
            return index;
        }
        index += 1;
    }
    0"""), feature="random_leader")
same("z_rp_loop2", (RP, """    let mut random_digit = rng.next_u64();
    while random_digit >= weight_sum * tmp {
        random_digit = rng.next_u64();
    }
""", """    let random_digit = loop {
        let digit = rng.next_u64();
        if digit < weight_sum * tmp {
            break digit;
        }
    };
"""), feature="random_leader")

# ---------------------------------------------------------------- parallel verification
same("z_pa_iflet", (PA, """                crypto
                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())
                    .map_or_else(
                        |err| {
                            log::error!(
                                "Overlord: verify {:?} vote signature failed {:?}",
                                sv,
                                err
                            );
                        },
                        |_| {
                            let _ = tx.unbounded_send((ctx, msg_clone));
                        },
                    );
""", """                if let Err(err) =
                    crypto.verify_signature(sv.signature.clone(), hash, sv.voter.clone())
                {
                    log::error!("Overlord: verify {:?} vote signature failed {:?}", sv, err);
                    return;
                }
                let _ = tx.unbounded_send((ctx, msg_clone));
"""))
same("z_pa_match", (PA, """                crypto
                    .verify_signature(sc.signature.clone(), hash, sc.address.clone())
                    .map_or_else(
                        |err| {
                            log::error!(
                                "Overlord: verify {:?} choke signature failed {:?}",
                                sc,
                                err
                            );
                        },
                        |_| {
                            let _ = tx.unbounded_send((ctx, msg_clone));
                        },
                    )
""", """                let signer = sc.address.clone();
                match crypto.verify_signature(sc.signature.clone(), hash, signer) {
                    Ok(()) => {
                        let _ = tx.unbounded_send((ctx, msg_clone));
                    }
                    Err(err) => log::error!(
                        "Overlord: verify {:?} choke signature failed {:?}",
                        sc,
                        err
                    ),
                }
"""))
same("z_pa_helper", (PA, """fn get_voters(
    addr_bitmap""", """fn forward<T: Codec>(
    tx: &UnboundedSender<(Context, OverlordMsg<T>)>,
    ctx: Context,
    msg: OverlordMsg<T>,
) {
    if tx.unbounded_send((ctx, msg)).is_err() {
        log::error!("Overlord: verified message channel closed");
    }
}

fn get_voters(
    addr_bitmap"""), (PA, """                    let _ = tx.unbounded_send((ctx, msg_clone));
                }
            }

            OverlordMsg::SignedVote""", """                    forward(&tx, ctx, msg_clone);
                }
            }

            OverlordMsg::SignedVote"""), (PA, """                |_| {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                },
            );
    }
}""", """                |_| forward(&tx, ctx, msg_clone),
            );
    }
}"""))
same("z_pa_voters", (PA, """    if !authority_manage.is_above_threshold(addr_bitmap)? {
        return Err(ConsensusError::AggregatedSignatureErr(
            "vote weight is not above threshold".to_string(),
        ));
    }
    authority_manage.get_voters(addr_bitmap)""", """    let enough = authority_manage.is_above_threshold(addr_bitmap)?;
    if enough {
        authority_manage.get_voters(addr_bitmap)
    } else {
        Err(ConsensusError::AggregatedSignatureErr(
            "vote weight is not above threshold".to_string(),
        ))
    }"""))
same("z_pa_qc", (PA, """    let hash = crypto.hash(Bytes::from(rlp::encode(&qc.to_vote())));
    if let Ok(voters) = get_voters(&qc.signature.address_bitmap, authority) {
        crypto
            .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
            .map_or_else(
                |err| {
                    log::error!(
                        "Overlord: verify {:?} aggregated signature error {:?}",
                        qc,
                        err
                    );
                },
                |_| {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                },
            );
    }""", """    let voters = match get_voters(&qc.signature.address_bitmap, authority) {
        Ok(voters) => voters,
        Err(err) => {
            log::error!("Overlord: no voters of {:?}: {:?}", qc, err);
            return;
        }
    };
    let vote = qc.to_vote();
    let hash = crypto.hash(Bytes::from(rlp::encode(&vote)));
    let res = crypto.verify_aggregated_signature(qc.signature.signature.clone(), hash, voters);
    if let Err(err) = res {
        log::error!("Overlord: verify {:?} aggregated signature error {:?}", qc, err);
    } else {
        let _ = tx.unbounded_send((ctx, msg_clone));
    }"""))
same("z_pa_polc_match", (PA, """                if let Some(polc) = sp.proposal.lock {
                    verify_qc(
                        ctx.clone(),
                        crypto,
                        polc.lock_votes,
                        authority,
                        tx.clone(),
                        msg_clone.clone(),
                    );
                } else {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                }""", """                match sp.proposal.lock {
                    None => {
                        let _ = tx.unbounded_send((ctx, msg_clone));
                    }
                    Some(polc) => {
                        verify_qc(ctx, crypto, polc.lock_votes, authority, tx, msg_clone)
                    }
                }"""))

# ---------------------------------------------------------------- timer
same("z_tm_min", (TM, """            let mut coef = MAX_TIMEOUT_COEF;
            if self.round < u64::from(MAX_TIMEOUT_COEF) {
                coef = self.round as u32;
            }
            interval *= 2u32.pow(coef);""", """            let coef = self.round.min(u64::from(MAX_TIMEOUT_COEF)) as u32;
            interval *= 2u32.pow(coef);"""))
same("z_tm_cmpmin", (TM, """            let mut coef = MAX_TIMEOUT_COEF;
            if self.round < u64::from(MAX_TIMEOUT_COEF) {
                coef = self.round as u32;
            }
            interval *= 2u32.pow(coef);""", """            let coef = if self.round >= u64::from(MAX_TIMEOUT_COEF) {
                MAX_TIMEOUT_COEF
            } else {
                self.round as u32
            };
            interval *= 1u32 << coef;"""))
same("z_tm_helper", (TM, """        let mut interval = self.config.get_timeout(event.clone())?;
        if !is_brake_timer {
            let mut coef = MAX_TIMEOUT_COEF;
            if self.round < u64::from(MAX_TIMEOUT_COEF) {
                coef = self.round as u32;
            }
            interval *= 2u32.pow(coef);
        }
""", """        let base = self.config.get_timeout(event.clone())?;
        let interval = if is_brake_timer {
            base
        } else {
            base * self.backoff()
        };
"""), (TM, """    #[rustfmt::skip]
    fn trigger(""", """    fn backoff(&self) -> u32 {
        let exp = std::cmp::min(self.round, MAX_TIMEOUT_COEF as u64);
        2u32.pow(exp as u32)
    }

    #[rustfmt::skip]
    fn trigger("""))
same("z_tm_brake_matches", (TM, """        let mut is_brake_timer = false;
        match event.clone() {""", """        let is_brake_timer = matches!(event, SMREvent::Brake { .. });
        match event.clone() {"""), (TM, "            SMREvent::Brake { .. } => is_brake_timer = true,\n", ""))
same("z_tm_commit_first", (TM, """        let mut is_brake_timer = false;
        match event.clone() {""", """        if let SMREvent::Commit(_) = event {
            return Ok(());
        }
        let mut is_brake_timer = false;
        match event.clone() {"""), (TM, "            SMREvent::Commit(_) => return Ok(()),\n", ""))
same("z_tm_max", (TM, """                if height > self.height {
                    self.height = height;
                }
                self.round = round;""", """                self.height = self.height.max(height);
                self.round = round;"""))
same("z_tm_order", (TM, """                if height > self.height {
                    self.height = height;
                }
                self.round = round;

                if let Some(interval) = new_interval {
                    self.config.set_interval(interval);
                }
                if let Some(config) = new_config {
                    self.config.update(config);
                }""", """                if let Some(config) = new_config {
                    self.config.update(config);
                }
                new_interval.map_or((), |interval| self.config.set_interval(interval));
                self.round = round;
                if self.height < height {
                    self.height = height;
                }"""))
same("z_tm_trigger", (TM, """        let (trigger_type, round, height) = match event {
            SMREvent::NewRoundInfo { height, round, .. } => {
                if height < self.height || round < self.round {
                    return Ok(());
                }
                (TriggerType::Proposal, round, height)
            }

            SMREvent::PrevoteVote {
                height, round, ..
            } => {
                if height < self.height {
                    return Ok(());
                }
                (TriggerType::PrevoteQC, round, height)
            }

            SMREvent::PrecommitVote {
                height, round, ..
            } => {
                if height < self.height {
                    return Ok(());
                }
                (TriggerType::PrecommitQC, round, height)
            }

            SMREvent::Brake {height, round, ..} => {
                if height < self.height {
                    return Ok(());
                }
                (TriggerType::BrakeTimeout, round, height)
            }

            _ => return Err(ConsensusError::TimerErr("No commit timer".to_string())),
        };
""", """        let (trigger_type, round, height) = match event {
            SMREvent::NewRoundInfo { height, round, .. } => (TriggerType::Proposal, round, height),
            SMREvent::PrevoteVote { height, round, .. } => (TriggerType::PrevoteQC, round, height),
            SMREvent::PrecommitVote { height, round, .. } => {
                (TriggerType::PrecommitQC, round, height)
            }
            SMREvent::Brake { height, round, .. } => (TriggerType::BrakeTimeout, round, height),
            _ => return Err(ConsensusError::TimerErr("No commit timer".to_string())),
        };

        if height < self.height {
            return Ok(());
        }
        if trigger_type == TriggerType::Proposal && round < self.round {
            return Ok(());
        }
"""))
same("z_tm_run_loop", (TM, """            while let Some(err) = self.next().await {
                log::error!("Overlord: timer error {:?}", err);
            }""", """            loop {
                match self.next().await {
                    Some(err) => log::error!("Overlord: timer error {:?}", err),
                    None => break,
                }
            }"""))
same("z_tm_poll", (TM, """                Poll::Ready(event) => {
                    if event.is_none() {
                        return Poll::Ready(Some(ConsensusError::TimerErr(
                            "Channel terminated".to_string(),
                        )));
                    }

                    let event = event.unwrap();
                    if let Err(e) = self.trigger(event) {
                        return Poll::Ready(Some(e));
                    }
                    false
                }""", """                Poll::Ready(None) => {
                    return Poll::Ready(Some(ConsensusError::TimerErr(
                        "Channel terminated".to_string(),
                    )));
                }

                Poll::Ready(Some(event)) => {
                    if let Err(e) = self.trigger(event) {
                        return Poll::Ready(Some(e));
                    }
                    false
                }"""))
same("z_tm_poll_order", (TM, """                    let event = event.unwrap();
                    if event == SMREvent::Stop {
                        return Poll::Ready(None);
                    }
                    if let Err(e) = self.set_timer(event) {
                        return Poll::Ready(Some(e));
                    }
                    false""", """                    match event.unwrap() {
                        SMREvent::Stop => return Poll::Ready(None),
                        event => {
                            let res = self.set_timer(event);
                            if res.is_err() {
                                return Poll::Ready(res.err());
                            }
                        }
                    }
                    false"""))
same("z_tm_spawn", (TM, """        tokio::spawn(async move {
            smr_timer.await;
        });
        Ok(())
    }

    #[rustfmt::skip]""", """        tokio::spawn(smr_timer);
        Ok(())
    }

    #[rustfmt::skip]"""))
same("z_tm_send", (TM, """                tokio::spawn(async move {
                    let _ = tx.send(msg).await;
                });
                Poll::Ready(())""", """                let _ = tx.start_send(msg);
                Poll::Ready(())"""))
same("z_tm_send2", (TM, """                tokio::spawn(async move {
                    let _ = tx.send(msg).await;
                });
                Poll::Ready(())""", """                let _ = tx.unbounded_send(msg);
                Poll::Ready(())"""), (TM, "        let mut tx = self.sender.clone();", "        let tx = self.sender.clone();"), (TM, "use futures::SinkExt;\n", ""))
same("z_tc_helper", (TC, """    fn get_propose_timeout(&self) -> Duration {
        Duration::from_millis(self.interval.get() * self.propose.0 / self.propose.1)
    }
""", """    fn ratio(&self, ratio: (u64, u64)) -> Duration {
        let (num, den) = ratio;
        Duration::from_millis(self.interval.get() * num / den)
    }

    fn get_propose_timeout(&self) -> Duration {
        self.ratio(self.propose)
    }
"""), (TC, "Duration::from_millis(self.interval.get() * self.brake.0 / self.brake.1)", "self.ratio(self.brake)"))
same("z_tc_match", (TC, """        match event {
            SMREvent::NewRoundInfo { .. } => Ok(self.get_propose_timeout()),
            SMREvent::PrevoteVote { .. } => Ok(self.get_prevote_timeout()),
            SMREvent::PrecommitVote { .. } => Ok(self.get_precommit_timeout()),
            SMREvent::Brake { .. } => Ok(self.get_brake_timeout()),
            _ => Err(ConsensusError::TimerErr("No commit timer".to_string())),
        }""", """        let (num, den) = match event {
            SMREvent::NewRoundInfo { .. } => self.propose,
            SMREvent::PrevoteVote { .. } => self.prevote,
            SMREvent::PrecommitVote { .. } => self.precommit,
            SMREvent::Brake { .. } => self.brake,
            _ => return Err(ConsensusError::TimerErr("No commit timer".to_string())),
        };
        Ok(Duration::from_millis(self.interval.get() * num / den))"""), (TC, """
    fn get_propose_timeout(&self) -> Duration {
        Duration::from_millis(self.interval.get() * self.propose.0 / self.propose.1)
    }

    fn get_prevote_timeout(&self) -> Duration {
        Duration::from_millis(self.interval.get() * self.prevote.0 / self.prevote.1)
    }

    fn get_precommit_timeout(&self) -> Duration {
        Duration::from_millis(self.interval.get() * self.precommit.0 / self.precommit.1)
    }

    fn get_brake_timeout(&self) -> Duration {
        Duration::from_millis(self.interval.get() * self.brake.0 / self.brake.1)
    }
""", ""))

# ---------------------------------------------------------------- state machine
same("z_sm_pos", (SM, """        if self.height != height || self.round != round {
            return Ok(());
        }

        if self.step > Step::Propose {
            return Ok(());
        }
""", """        if !self.at_position(height, round) || self.step > Step::Propose {
            return Ok(());
        }
"""), (SM, """        if height != self.height || round != self.round {
            Ok(())
        } else {
            log::debug!(
                "Overlord: SMR brake timeout height {}, round {}",
                self.height,
                round
            );
            self.throw_event(SMREvent::Brake {
                height,
                round,
                lock_round: self.lock.clone().map(|lock| lock.round),
            })
        }
    }
""", """        if !self.at_position(height, round) {
            return Ok(());
        }
        let lock_round = self.lock_round();
        self.throw_event(SMREvent::Brake {
            height: self.height,
            round: self.round,
            lock_round,
        })
    }

    fn at_position(&self, height: u64, round: u64) -> bool {
        self.height == height && self.round == round
    }

    fn lock_round(&self) -> Option<u64> {
        self.lock.as_ref().map(|lock| lock.round)
    }
"""))
same("z_sm_newround_helper", (SM, """        self.round = round - 1;
        let (lock_round, lock_proposal) = self
            .lock
            .clone()
            .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));
        self.throw_event(SMREvent::NewRoundInfo {
            height: self.height,
            round: self.round + 1,
            lock_round,
            lock_proposal,
            new_interval: None,
            new_config: None,
            from_where: FromWhere::ChokeQC(round - 1),
        })?;
        self.goto_next_round();
        Ok(())
    }
""", """        self.enter_round_after(round - 1, FromWhere::ChokeQC(round - 1))
    }

    fn enter_round_after(&mut self, last: u64, from_where: FromWhere) -> ConsensusResult<()> {
        let (lock_round, lock_proposal) = match &self.lock {
            Some(lock) => (Some(lock.round), Some(lock.hash.clone())),
            None => (None, None),
        };
        self.round = last;
        self.throw_event(SMREvent::NewRoundInfo {
            height: self.height,
            round: last + 1,
            lock_round,
            lock_proposal,
            new_interval: None,
            new_config: None,
            from_where,
        })?;
        self.goto_next_round();
        Ok(())
    }
"""), (SM, """            self.round = precommit_round;
            self.throw_event(SMREvent::NewRoundInfo {
                height: self.height,
                round: self.round + 1,
                lock_round,
                lock_proposal,
                new_interval: None,
                new_config: None,
                from_where: FromWhere::PrecommitQC(precommit_round),
            })?;

            self.goto_next_round();
            return Ok(());
""", """            return self.enter_round_after(precommit_round, FromWhere::PrecommitQC(precommit_round));
"""), (SM, """            let (lock_round, lock_proposal) = self
                .lock
                .clone()
                .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));

            self.round = prevote_round;
            self.throw_event(SMREvent::NewRoundInfo {
                height: self.height,
                round: self.round + 1,
                lock_round,
                lock_proposal,
                new_interval: None,
                new_config: None,
                from_where: FromWhere::PrevoteQC(prevote_round),
            })?;
            self.goto_next_round();
        }
""", """            self.enter_round_after(prevote_round, FromWhere::PrevoteQC(prevote_round))?;
        }
"""), (SM, """        let (lock_round, lock_proposal) = self
            .lock
            .clone()
            .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));

        if source == TriggerSource::Timer {
            if precommit_round""", """        let lock_round = self.lock.clone().map(|lock| lock.round);

        if source == TriggerSource::Timer {
            if precommit_round"""))
same("z_sm_prevote_timer", (SM, """            let round = if let Some(lock) = &self.lock {
                Some(lock.round)
            } else {
                self.block_hash = Hash::new();
                None
            };
""", """            let round = match self.lock.as_ref() {
                Some(lock) => Some(lock.round),
                None => {
                    self.set_proposal(Hash::new());
                    None
                }
            };
"""))
same("z_sm_prevote_split", (SM, """        if source == TriggerSource::Timer {
            if prevote_round != self.round {
                return Ok(());
            }

            // This event is for timer to set a precommit timer.
            let round = if let Some(lock) = &self.lock {
                Some(lock.round)
            } else {
                self.block_hash = Hash::new();
                None
            };

            self.throw_event(SMREvent::PrecommitVote {
                height: self.height,
                round: self.round,
                block_hash: Hash::new(),
                lock_round: round,
            })?;
            self.goto_step(Step::Precommit);
            return Ok(());
        }
""", """        if source == TriggerSource::Timer {
            return self.prevote_timeout(prevote_round);
        }
"""), (SM, """    /// Handle a precommit quorum certificate trigger.""", """    fn prevote_timeout(&mut self, prevote_round: u64) -> ConsensusResult<()> {
        if prevote_round == self.round {
            if self.lock.is_none() {
                self.block_hash = Hash::new();
            }
            let lock_round = self.lock.as_ref().map(|lock| lock.round);
            self.throw_event(SMREvent::PrecommitVote {
                height: self.height,
                round: self.round,
                block_hash: Hash::new(),
                lock_round,
            })?;
            self.goto_step(Step::Precommit);
        }
        Ok(())
    }

    /// Handle a precommit quorum certificate trigger."""))
same("z_sm_prevote_order", (SM, """        self.check()?;

        if prevote_round < self.round {
            return Ok(());
        }

        self.update_polc(prevote_hash, prevote_round);
""", """        if self.round > prevote_round {
            return Ok(());
        }

        self.check()?;
        self.update_polc(prevote_hash, prevote_round);
"""))
same("z_sm_update_polc", (SM, """        self.set_proposal(hash.clone());

        if hash.is_empty() {
            self.remove_polc();
        } else {
            self.lock = Some(Lock { round, hash });
        }""", """        self.block_hash = hash.clone();
        self.lock = if hash.is_empty() {
            None
        } else {
            Some(Lock { round, hash })
        };"""))
same("z_sm_proposal_match", (SM, """        if let Some(lock_round) = lock_round {
            if let Some(lock) = self.lock.clone() {
                log::debug!("Overlord: SMR handle proposal with a lock");

                if lock_round > lock.round {
                    self.remove_polc();
                    self.set_proposal(proposal_hash);
                } else if lock_round == lock.round && proposal_hash != self.block_hash {
                    return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
                }
            } else {
                self.set_proposal(proposal_hash);
            }
        } else if self.lock.is_none() {
            self.set_proposal(proposal_hash);
        }
""", """        match (lock_round, self.lock.clone()) {
            (_, None) => self.set_proposal(proposal_hash),
            (None, Some(_)) => (),
            (Some(lock_round), Some(lock)) => match lock_round.cmp(&lock.round) {
                std::cmp::Ordering::Greater => {
                    self.lock = None;
                    self.block_hash = proposal_hash;
                }
                std::cmp::Ordering::Equal => {
                    if proposal_hash != self.block_hash {
                        return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
                    }
                }
                std::cmp::Ordering::Less => (),
            },
        }
"""))
same("z_sm_proposal_timer", (SM, """        if source == TriggerSource::Timer {
            // This event is for timer to set a prevote timer.
            let (round, hash) = if let Some(lock) = &self.lock {
                (Some(lock.round), lock.hash.clone())
            } else {
                (None, Hash::new())
            };

            self.throw_event(SMREvent::PrevoteVote {
                height: self.height,
                round: self.round,
                block_hash: hash,
                lock_round: round,
            })?;
            self.goto_step(Step::Prevote);
            return Ok(());
        } else if proposal_hash.is_empty() {
            return Err(ConsensusError::ProposalErr("Empty proposal".to_string()));
        }
""", """        if source == TriggerSource::Timer {
            // This event is for timer to set a prevote timer.
            let hash = self
                .lock
                .as_ref()
                .map_or_else(Hash::new, |lock| lock.hash.clone());
            return self.cast_prevote(hash);
        }
        if proposal_hash.is_empty() {
            return Err(ConsensusError::ProposalErr("Empty proposal".to_string()));
        }
"""), (SM, """        // throw prevote vote event
        let round = self.lock.as_ref().map(|lock| lock.round);

        self.throw_event(SMREvent::PrevoteVote {
            height: self.height,
            round: self.round,
            block_hash: self.block_hash.clone(),
            lock_round: round,
        })?;
        self.goto_step(Step::Prevote);
        Ok(())
    }
""", """        // throw prevote vote event
        let hash = self.block_hash.clone();
        self.cast_prevote(hash)
    }

    fn cast_prevote(&mut self, block_hash: Hash) -> ConsensusResult<()> {
        let lock_round = self.lock.as_ref().map(|lock| lock.round);
        let event = SMREvent::PrevoteVote {
            height: self.height,
            round: self.round,
            block_hash,
            lock_round,
        };
        self.throw_event(event)?;
        self.goto_step(Step::Prevote);
        Ok(())
    }
"""))
same("z_sm_precommit", (SM, """        } else if precommit_hash.is_empty() {
            if precommit_round < self.round {
                return Ok(());
            }

            self.round = precommit_round;
            self.throw_event(SMREvent::NewRoundInfo {
                height: self.height,
                round: self.round + 1,
                lock_round,
                lock_proposal,
                new_interval: None,
                new_config: None,
                from_where: FromWhere::PrecommitQC(precommit_round),
            })?;

            self.goto_next_round();
            return Ok(());
        }

        self.check()?;
        self.throw_event(SMREvent::Commit(precommit_hash))?;
        self.goto_step(Step::Commit);
        Ok(())""", """        }

        if !precommit_hash.is_empty() {
            self.check()?;
            self.throw_event(SMREvent::Commit(precommit_hash))?;
            self.goto_step(Step::Commit);
            return Ok(());
        }

        if precommit_round >= self.round {
            let next_round = precommit_round + 1;
            self.throw_event(SMREvent::NewRoundInfo {
                height: self.height,
                round: next_round,
                lock_round,
                lock_proposal,
                new_interval: None,
                new_config: None,
                from_where: FromWhere::PrecommitQC(precommit_round),
            })?;
            self.round = next_round;
            self.goto_step(Step::Propose);
        }
        Ok(())"""))
same("z_sm_newheight", (SM, """        if source != TriggerSource::State {
            return Err(ConsensusError::Other(
                "Rich status source error".to_string(),
            ));
        } else if height <= self.height {
            return Err(ConsensusError::Other("Delayed status".to_string()));
        }
""", """        if source == TriggerSource::Timer {
            return Err(ConsensusError::Other(
                "Rich status source error".to_string(),
            ));
        }
        if self.height >= height {
            return Err(ConsensusError::Other("Delayed status".to_string()));
        }
"""))
same("z_sm_throw", (SM, """        self.event.0.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        self.event.1.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        Ok(())
    }

    fn throw_timer_event""", """        if let Err(err) = self.event.0.unbounded_send(event.clone()) {
            return Err(ConsensusError::ThrowEventErr(format!(
                "event: {}, error: {:?}",
                event, err
            )));
        }
        self.throw_timer_event(event)
    }

    fn throw_timer_event"""))
same("z_sm_wal", (SM, """        self.height = info.height;
        self.round = info.round;
        self.step = info.step;
        if let Some(polc) = &info.polc {
            self.set_proposal(polc.hash.clone());
        }
        self.lock = info.polc;
        self.set_timer_after_wal()""", """        let SMRBase {
            height,
            round,
            step,
            polc,
        } = info;
        self.lock = polc;
        if let Some(hash) = self.lock.as_ref().map(|lock| lock.hash.clone()) {
            self.block_hash = hash;
        }
        self.goto_step(step);
        self.round = round;
        self.height = height;
        self.set_timer_after_wal()"""))
same("z_sm_poll", (SM, """            Poll::Ready(msg) => {
                if msg.is_none() {
                    return Poll::Ready(Some(Err(ConsensusError::TriggerSMRErr(
                        "Channel dropped".to_string(),
                    ))));
                }

                let msg = msg.unwrap();
                let trigger_type""", """            Poll::Ready(None) => Poll::Ready(Some(Err(ConsensusError::TriggerSMRErr(
                "Channel dropped".to_string(),
            )))),

            Poll::Ready(Some(msg)) => {
                let trigger_type"""))
same("z_sm_poll_iflet", (SM, """                let res = match trigger_type {
                    TriggerType::NewHeight(status) => {
                        Some(self.handle_new_height(status, msg.source))
                    }
                    TriggerType::Proposal => Some(self.handle_proposal(
                        msg.hash,
                        msg.round,
                        msg.lock_round,
                        msg.source,
                        msg.height,
                    )),
                    TriggerType::PrevoteQC => {
                        Some(self.handle_prevote(msg.hash, msg.round, msg.source, msg.height))
                    }
                    TriggerType::PrecommitQC => {
                        Some(self.handle_precommit(msg.hash, msg.round, msg.source, msg.height))
                    }
                    TriggerType::BrakeTimeout => {
                        assert!(msg.source == TriggerSource::Timer);
                        Some(self.handle_brake_timeout(msg.height, msg.round))
                    }
                    TriggerType::ContinueRound => {
                        assert!(msg.source == TriggerSource::State);
                        Some(self.handle_continue_round(msg.height, msg.round))
                    }
                    TriggerType::WalInfo => Some(self.handle_wal(msg.wal_info.unwrap())),
                    TriggerType::Stop => {
                        let _ = self.throw_event(SMREvent::Stop);
                        None
                    }
                };

                Poll::Ready(res)
            }
        }
    }
}
""", """                if trigger_type == TriggerType::Stop {
                    let _ = self.throw_event(SMREvent::Stop);
                    return Poll::Ready(None);
                }
                Poll::Ready(Some(self.handle_trigger(msg)))
            }
        }
    }
}

impl StateMachine {
    fn handle_trigger(&mut self, msg: SMRTrigger) -> ConsensusResult<()> {
        let SMRTrigger {
            trigger_type,
            source,
            hash,
            lock_round,
            round,
            height,
            wal_info,
        } = msg;
        match trigger_type {
            TriggerType::NewHeight(status) => self.handle_new_height(status, source),
            TriggerType::Proposal => self.handle_proposal(hash, round, lock_round, source, height),
            TriggerType::PrevoteQC => self.handle_prevote(hash, round, source, height),
            TriggerType::PrecommitQC => self.handle_precommit(hash, round, source, height),
            TriggerType::BrakeTimeout => {
                assert_eq!(source, TriggerSource::Timer);
                self.handle_brake_timeout(height, round)
            }
            TriggerType::ContinueRound => {
                assert_eq!(source, TriggerSource::State);
                self.handle_continue_round(height, round)
            }
            TriggerType::WalInfo => self.handle_wal(wal_info.unwrap()),
            TriggerType::Stop => Ok(()),
        }
    }
}
"""))
same("z_sm_stepcmp", (SM, """        if self.step > Step::Propose {
            return Ok(());
        }
""", """        if self.step != Step::Propose {
            return Ok(());
        }
"""))
same("z_sm_stepcmp2", (SM, """        if prevote_round == self.round && self.step > Step::Prevote {
            return Ok(());
        }
""", """        let voted = match self.step {
            Step::Propose | Step::Prevote => false,
            Step::Precommit | Step::Brake | Step::Commit => true,
        };
        if voted && self.round == prevote_round {
            return Ok(());
        }
"""))
same("z_sm_settimer", (SM, """        let (lock_round, lock_proposal) = if let Some(lock) = &self.lock {
            (Some(lock.round), Some(lock.hash.clone()))
        } else {
            (None, None)
        };

        let event = match self.step {
            Step::Propose""", """        let lock_round = self.lock.as_ref().map(|lock| lock.round);
        let lock_proposal = self.lock.as_ref().map(|lock| lock.hash.clone());
        let event = match &self.step {
            Step::Propose"""))
same("z_mo_run", (MO, """            loop {
                let res = self.state_machine.next().await;
                if let Some(Err(err)) = res {
                    error!("Overlord: SMR error {:?}", err);
                } else if res.is_none() {
                    break;
                }
            }""", """            while let Some(res) = self.state_machine.next().await {
                if let Err(err) = res {
                    error!("Overlord: SMR error {:?}", err);
                }
            }"""))
same("z_mo_trigger", (MO, """        let height = status.height;
        let trigger = TriggerType::NewHeight(status);
        self.tx
            .unbounded_send(SMRTrigger {
                trigger_type: trigger.clone(),
                source: TriggerSource::State,
                hash: Hash::new(),
                lock_round: None,
                round: INIT_ROUND,
                height,
                wal_info: None,
            })
            .map_err(|_| ConsensusError::TriggerSMRErr(trigger.to_string()))""", """        let height = status.height;
        self.trigger(SMRTrigger {
            trigger_type: TriggerType::NewHeight(status),
            source: TriggerSource::State,
            hash: Hash::new(),
            lock_round: None,
            round: INIT_ROUND,
            height,
            wal_info: None,
        })"""))

# ---------------------------------------------------------------- collections
same("z_co_or_default", (CO, """            .entry(height)
            .or_insert_with(ProposalRoundCollector::new)
            .insert(ctx, round, proposal)""", """            .entry(height)
            .or_insert_with(|| ProposalRoundCollector(HashMap::new()))
            .insert(ctx, round, proposal)"""), (CO, """            .entry(hash)
            .or_insert_with(HashSet::new)
            .insert(addr.clone());
        self.by_address.entry(addr).or_insert((vote, ctx));""", """            .entry(hash)
            .or_default()
            .insert(addr.clone());
        self.by_address.insert(addr, (vote, ctx));"""), (CO, """            .entry(round)
            .or_insert_with(HashMap::new)
            .insert(signed_choke.address.clone(), signed_choke);""", """            .entry(round)
            .or_default()
            .insert(signed_choke.address.clone(), signed_choke);"""))
same("z_co_get", (CO, """        if let Some(round_collector) = self.0.get(&height) {
            return Ok(round_collector
                .get(round)
                .map_err(|_| {
                    ConsensusError::StorageErr(format!(
                        "No proposal height {}, round {}",
                        height, round
                    ))
                })?
                .to_owned());
        }

        Err(ConsensusError::StorageErr(format!(
            "No proposal height {}, round {}",
            height, round
        )))""", """        self.0
            .get(&height)
            .and_then(|rounds| rounds.get(round).ok())
            .cloned()
            .ok_or_else(|| {
                ConsensusError::StorageErr(format!(
                    "No proposal height {}, round {}",
                    height, round
                ))
            })"""))
same("z_co_getall", (CO, """        self.0.remove(&height).map_or_else(
            || None,
            |map| Some(map.0.values().cloned().collect::<Vec<_>>()),
        )""", """        self.0
            .remove(&height)
            .map(|map| map.0.into_iter().map(|(_, item)| item).collect())"""))
same("z_co_getall2", (CO, """        self.0.remove(&height).map_or_else(
            || None,
            |map| Some(map.0.values().cloned().collect::<Vec<_>>()),
        )""", """        let map = self.0.remove(&height)?;
        let mut res = Vec::with_capacity(map.0.len());
        for item in map.0.values() {
            res.push(item.clone());
        }
        Some(res)"""))
same("z_co_flush", (CO, """        self.0 = self.0.split_off(&till);
    }
}

/// A struct to collect signed proposals in each round.""", """        let stale = self
            .0
            .keys()
            .filter(|height| **height < till)
            .copied()
            .collect::<Vec<_>>();
        for height in stale {
            self.0.remove(&height);
        }
    }
}

/// A struct to collect signed proposals in each round."""))
same("z_co_flush2", (CO, """        self.0 = self.0.split_off(&till);
    }
}

/// A struct to collect signed proposals in each round.""", """        self.0.retain(|height, _| *height >= till);
    }
}

/// A struct to collect signed proposals in each round."""))
same("z_co_pinsert", (CO, """        if let Some((sp, _)) = self.0.get(&round) {
            if sp == &proposal {
                return Ok(());
            }
            return Err(ConsensusError::Other("_".to_string()));
        }
        self.0.insert(round, (proposal, ctx));
        Ok(())""", """        match self.0.get(&round) {
            None => {
                self.0.insert(round, (proposal, ctx));
                Ok(())
            }
            Some((known, _)) if known == &proposal => Ok(()),
            Some(_) => Err(ConsensusError::Other("_".to_string())),
        }"""))
same("z_co_votes", (CO, """                let mut votes = Vec::new();
                let mut qcs = Vec::new();

                for (_, rc) in vrc.general.iter_mut() {
                    votes.append(&mut rc.prevote.get_all_votes());
                    votes.append(&mut rc.precommit.get_all_votes());
                    qcs.append(&mut rc.qc.get_all_qcs());
                }
                Some((votes, qcs))""", """                let mut votes = Vec::new();
                let mut qcs = Vec::new();

                for rc in vrc.general.values_mut() {
                    qcs.extend(rc.qc.get_all_qcs());
                    votes.extend(rc.prevote.get_all_votes());
                    votes.extend(rc.precommit.get_all_votes());
                }
                Some((votes, qcs))"""))
same("z_co_votes2", (CO, """                let mut votes = Vec::new();
                let mut qcs = Vec::new();

                for (_, rc) in vrc.general.iter_mut() {
                    votes.append(&mut rc.prevote.get_all_votes());
                    votes.append(&mut rc.precommit.get_all_votes());
                    qcs.append(&mut rc.qc.get_all_qcs());
                }
                Some((votes, qcs))""", """                let votes = vrc
                    .general
                    .values_mut()
                    .flat_map(|rc| {
                        let mut all = rc.prevote.get_all_votes();
                        all.extend(rc.precommit.get_all_votes());
                        all
                    })
                    .collect::<Vec<_>>();
                let qcs = vrc
                    .general
                    .values_mut()
                    .flat_map(|rc| rc.qc.get_all_qcs())
                    .collect::<Vec<_>>();
                Some((votes, qcs))"""))
same("z_co_allqcs", (CO, """        let mut res = Vec::new();

        if let Some(tmp) = self.prevote.clone() {
            res.push(tmp);
        }

        if let Some(tmp) = self.precommit.clone() {
            res.push(tmp);
        }
        res""", """        self.prevote
            .iter()
            .chain(self.precommit.iter())
            .cloned()
            .collect()"""))
same("z_co_vinsert", (CO, """        if self.by_address.contains_key(&addr) {
            // the addr somehow has already inserted a Vote we ignore the incoming SignedVote no
            // matter it duplicates or differs(byzantine), reject the current request!
            let exist = self.by_address.get(&addr).unwrap().clone();
            if vote""", """        if let Some(exist) = self.by_address.get(&addr) {
            if vote"""))
same("z_co_votemap", (CO, """        self.general.get_mut(&round).and_then(|rc| {
            let res = rc.get_vote_map(vote_type);
            if res.is_empty() {
                return None;
            }
            Some(res)
        })""", """        self.general
            .get(&round)
            .map(|rc| rc.get_vote_map(vote_type))
            .filter(|res| !res.is_empty())"""))
same("z_co_qc_match", (CO, """        if qc.is_prevote_qc() {
            self.prevote = Some(qc);
        } else {
            self.precommit = Some(qc);
        }""", """        match qc.vote_type {
            VoteType::Prevote => self.prevote = Some(qc),
            VoteType::Precommit => self.precommit = Some(qc),
        }"""))
same("z_co_maxround", (CO, """        for (round, set) in self.chokes.iter().rev() {
            if set.len() * 3 > nodes_num * 2 {
                return Some(*round);
            }
        }
        None""", """        self.chokes
            .iter()
            .rev()
            .find(|(_, set)| set.len() * 3 > nodes_num * 2)
            .map(|(round, _)| *round)"""))
same("z_co_maxround2", (CO, """        for (round, set) in self.chokes.iter().rev() {
            if set.len() * 3 > nodes_num * 2 {
                return Some(*round);
            }
        }
        None""", """        self.chokes
            .iter()
            .filter(|(_, set)| nodes_num * 2 < set.len() * 3)
            .map(|(round, _)| *round)
            .max()"""))
same("z_co_maxround3", (CO, """        for (round, set) in self.chokes.iter().rev() {
            if set.len() * 3 > nodes_num * 2 {
                return Some(*round);
            }
        }
        None""", """        let mut res = None;
        for (round, set) in self.chokes.iter() {
            if set.len() * 3 > nodes_num * 2 {
                res = Some(*round);
            }
        }
        res"""))
same("z_co_getvotes", (CO, """        self.by_hash.get(hash).and_then(|addresses| {
            addresses
                .iter()
                .map(|addr| self.by_address.get(addr).cloned())
                .collect::<Option<Vec<_>>>()
        })""", """        let addresses = self.by_hash.get(hash)?;
        let mut res = Vec::with_capacity(addresses.len());
        for addr in addresses.iter() {
            res.push(self.by_address.get(addr)?.clone());
        }
        Some(res)"""))
same("z_co_chokes", (CO, """        self.chokes
            .get(&round)
            .map(|map| map.values().cloned().collect::<Vec<_>>())""", """        if let Some(map) = self.chokes.get(&round) {
            Some(map.values().map(|choke| choke.clone()).collect())
        } else {
            None
        }"""))
same("z_co_clear", (CO, """        self.chokes.clear();
        self.qcs.clear();
    }""", """        *self = ChokeCollector::new();
    }"""))

# ---------------------------------------------------------------- state: messages, events, run loop
TRIG = """            trigger_type: %s,
            source: TriggerSource::State,
            hash: %s,
            lock_round: %s,
            round: %s,
            height: %s,
            wal_info: %s,
"""
same("z_st_trig_helper", (P, """        self.state_machine.trigger(SMRTrigger {
            trigger_type: qc_type.into(),
            source: TriggerSource::State,
            hash: qc_hash,
            lock_round: None,
            round: vote_round,
            height: vote_height,
            wal_info: None,
        })?;
        Ok(())
    }
""", """        self.trigger_smr(qc_type.into(), qc_hash, None, vote_height, vote_round)
    }

    fn trigger_smr(
        &mut self,
        trigger_type: TriggerType,
        hash: Hash,
        lock_round: Option<u64>,
        height: u64,
        round: u64,
    ) -> ConsensusResult<()> {
        self.state_machine.trigger(SMRTrigger {
            trigger_type,
            source: TriggerSource::State,
            hash,
            lock_round,
            round,
            height,
            wal_info: None,
        })
    }
"""), (P, """            self.state_machine.trigger(SMRTrigger {
                trigger_type: TriggerType::ContinueRound,
                source: TriggerSource::State,
                hash: Hash::new(),
                round: round + 1,
                lock_round: None,
                height: self.height,
                wal_info: None,
            })?;
""", """            let height = self.height;
            self.trigger_smr(
                TriggerType::ContinueRound,
                Hash::new(),
                None,
                height,
                round + 1,
            )?;
"""), (P, """                self.state_machine.trigger(SMRTrigger {
                    trigger_type: qc.vote_type.into(),
                    source: TriggerSource::State,
                    hash: block_hash,
                    lock_round: None,
                    round: self.round,
                    height: self.height,
                    wal_info: None,
                })?;
                return Ok(());
""", """                return self.trigger_smr(
                    qc.vote_type.into(),
                    block_hash,
                    None,
                    self.height,
                    self.round,
                );
"""), (P, """        self.state_machine.trigger(SMRTrigger {
            trigger_type: TriggerType::Proposal,
            source: TriggerSource::State,
            hash: hash.clone(),
            lock_round,
            round: proposal_round,
            height: proposal_height,
            wal_info: None,
        })?;

        log::debug!("Overlord: state check the whole block");""", """        self.trigger_smr(
            TriggerType::Proposal,
            hash.clone(),
            lock_round,
            proposal_height,
            proposal_round,
        )?;

        log::debug!("Overlord: state check the whole block");"""))
same("z_st_resp_match", (P, """        if let Some(qc) =
            self.votes
                .get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit)
        {
            self.state_machine.trigger(SMRTrigger {
                trigger_type: TriggerType::PrecommitQC,
                source: TriggerSource::State,
                hash: qc.block_hash,
                lock_round: None,
                round: qc.round,
                height: qc.height,
                wal_info: None,
            })?;
        } else if let Some(qc) =
            self.votes
                .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
        {
            if qc.round == self.round {
                self.state_machine.trigger(SMRTrigger {
                    trigger_type: TriggerType::PrevoteQC,
                    source: TriggerSource::State,
                    hash: qc.block_hash,
                    lock_round: None,
                    round: qc.round,
                    height: qc.height,
                    wal_info: None,
                })?;
            }
        }
        Ok(())
""", """        let precommit =
            self.votes
                .get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit);
        let qc = match precommit {
            Some(qc) => qc,
            None => match self
                .votes
                .get_qc_by_hash(self.height, block_hash, VoteType::Prevote)
            {
                Some(qc) if qc.round == self.round => qc,
                _ => return Ok(()),
            },
        };
        self.state_machine.trigger(SMRTrigger {
            trigger_type: qc.vote_type.clone().into(),
            source: TriggerSource::State,
            hash: qc.block_hash,
            lock_round: None,
            round: qc.round,
            height: qc.height,
            wal_info: None,
        })
"""))
same("z_st_msg_helper", (P, """                if let Err(e) = self.handle_signed_vote(ctx.clone(), sv).await {
                    log::error!("Overlord: state handle signed vote error {:?}", e);
                }
                Ok(())
""", """                log_error("signed vote", self.handle_signed_vote(ctx.clone(), sv).await);
                Ok(())
"""), (P, """                if let Err(e) = self.handle_signed_choke(ctx.clone(), sc).await {
                    log::error!("Overlord: state handle signed choke error {:?}", e);
                }
                Ok(())
""", """                let res = self.handle_signed_choke(ctx, sc).await;
                log_error("signed choke", res);
                Ok(())
"""), (P, """fn mock_init_qc() -> AggregatedVote {""", """fn log_error(what: &str, res: ConsensusResult<()>) {
    if let Err(e) = res {
        log::error!("Overlord: state handle {} error {:?}", what, e);
    }
}

fn mock_init_qc() -> AggregatedVote {"""))
same("z_st_event_height", (P, """        match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
            SMREvent::NewRoundInfo {""", """        let event = match event {
            Some(event) => event,
            None => return Err(ConsensusError::Other("Event sender dropped".to_string())),
        };
        let event_height = match &event {
            SMREvent::NewRoundInfo { height, .. }
            | SMREvent::PrevoteVote { height, .. }
            | SMREvent::PrecommitVote { height, .. }
            | SMREvent::Brake { height, .. } => *height,
            _ => self.height,
        };
        if event_height != self.height {
            return Ok(());
        }
        match event {
            SMREvent::NewRoundInfo {"""), (P, """            SMREvent::NewRoundInfo {
                height,
                round,
                lock_round,
                lock_proposal,
                from_where,
                ..
            } => {
                if height != self.height {
                    return Ok(());
                }

""", """            SMREvent::NewRoundInfo {
                round,
                lock_round,
                lock_proposal,
                from_where,
                ..
            } => {
"""), (P, """            SMREvent::PrevoteVote {
                height,
                block_hash,
                lock_round,
                ..
            } => {
                if height != self.height {
                    return Ok(());
                }

""", """            SMREvent::PrevoteVote {
                block_hash,
                lock_round,
                ..
            } => {
"""))
same("z_st_event_votes", (P, """            SMREvent::PrecommitVote {
                height,
                block_hash,
                lock_round,
                ..
            } => {
                if height != self.height {
                    return Ok(());
                }

                if let Err(e) = self
                    .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                    .await
                {
                    log::error!("Overlord: state handle precommit vote error {:?}", e);
                }
                Ok(())
            }
""", """            SMREvent::PrecommitVote {
                height,
                block_hash,
                lock_round,
                ..
            } => {
                if height == self.height {
                    let res = self
                        .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                        .await;
                    res.unwrap_or_else(|e| {
                        log::error!("Overlord: state handle precommit vote error {:?}", e)
                    });
                }
                Ok(())
            }
"""))
same("z_st_run_order", (P, """                res = verify_resp.next() => {
                    if !self.consensus_power {
                        continue;
                    }

                    if let Err(e) = self.handle_resp(res) {
                        log::error!("Overlord: state {:?} error", e);
                    }
                }

                verified_msg = verify_sig.next() => {
                    let (ctx, msg) = verified_msg.expect("Overlord message handler dropped");
                    if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                        self.report_error(ctx, e.clone());
                        log::error!("Overlord: state {:?} error", e);
                    }
                }
""", """                verified_msg = verify_sig.next() => {
                    let (ctx, msg) = verified_msg.expect("Overlord message handler dropped");
                    self.handle_msg_and_report(ctx, msg).await;
                }

                res = verify_resp.next() => {
                    if self.consensus_power {
                        if let Err(e) = self.handle_resp(res) {
                            log::error!("Overlord: state {:?} error", e);
                        }
                    }
                }
"""), (P, """                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                                    self.report_error(ctx, e.clone());
                                    log::error!("Overlord: state {:?} error", e);
                                }
                            }
""", """                                self.handle_msg_and_report(ctx, msg).await;
                            }
"""), (P, """    /// A function to handle message from the network. Public""", """    async fn handle_msg_and_report(&mut self, ctx: Context, msg: OverlordMsg<T>) {
        if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
            self.report_error(ctx, e.clone());
            log::error!("Overlord: state {:?} error", e);
        }
    }

    /// A function to handle message from the network. Public"""))
same("z_st_run_raw", (P, """                    if msg.is_rich_status() || matches!(msg, OverlordMsg::Stop) {
                        let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                    } else {
                        match self.height.cmp(&msg.get_height()) {
                            Ordering::Less => {
                                // Cache it now. If it waited in the channel of verified messages,
                                // the height could be reached before it is verified.
                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                                    self.report_error(ctx, e.clone());
                                    log::error!("Overlord: state {:?} error", e);
                                }
                            }
                            Ordering::Equal => {
                                parallel_verify(
                                    ctx,
                                    msg,
                                    Arc::clone(&self.util),
                                    self.authority.clone(),
                                    self.verify_sig_tx.clone()
                                )
                                .await;
                            }
                            Ordering::Greater => (),
                        };
                    }
""", """                    self.dispatch_raw(ctx, msg).await;
"""), (P, """    /// A function to handle message from the network. Public""", """    async fn dispatch_raw(&mut self, ctx: Context, msg: OverlordMsg<T>) {
        if msg.is_rich_status() || matches!(msg, OverlordMsg::Stop) {
            let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
            return;
        }

        let msg_height = msg.get_height();
        if msg_height == self.height {
            parallel_verify(
                ctx,
                msg,
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        } else if msg_height > self.height {
            if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
                self.report_error(ctx, e.clone());
                log::error!("Overlord: state {:?} error", e);
            }
        }
    }

    /// A function to handle message from the network. Public"""))
same("z_st_run_evt", (P, """                    if self.stopped {
                        break;
                    }

                    if !self.consensus_power {
                        continue;
                    }

                    if let Err(e) = self.handle_event(evt).await{
                        log::error!("Overlord: state {:?} error", e);
                    }
""", """                    if self.stopped {
                        return;
                    }

                    if self.consensus_power {
                        match self.handle_event(evt).await {
                            Ok(_) => (),
                            Err(e) => log::error!("Overlord: state {:?} error", e),
                        }
                    }
"""))
same("z_st_start", (P, """        let wal_info = self.load_wal().await?;
        if wal_info.is_none() {
            if self.height != INIT_HEIGHT {
                return self.wal_lost();
            } else {
                return Ok(());
            }
        }

        let wal_info = wal_info.unwrap();
        log::info!""", """        let wal_info = match self.load_wal().await? {
            Some(info) => info,
            None if self.height == INIT_HEIGHT => return Ok(()),
            None => return self.wal_lost(),
        };
        log::info!"""))
same("z_st_start2", (P, """        if wal_info.lock.is_some() {
            let lock = wal_info.lock.clone().unwrap();
            let qc = lock.lock_votes.clone();
            self.votes.set_qc(qc.clone());
            self.hash_with_block.insert(qc.block_hash, lock.content);
        }

        if wal_info.step == Step::Commit {
            let qc = wal_info
                .lock
                .clone()
                .ok_or_else(|| ConsensusError::LoadWalErr("no lock in commit step".to_string()))?;
            return self.handle_commit(qc.lock_votes.block_hash.clone()).await;
        }

        if wal_info.step == Step::Brake {
            let lock_round = wal_info.lock.clone().map(|lock| lock.lock_round);
            self.handle_brake(self.round, lock_round).await?;
        }
""", """        if let Some(lock) = wal_info.lock.as_ref() {
            self.hash_with_block
                .insert(lock.lock_votes.block_hash.clone(), lock.content.clone());
            self.votes.set_qc(lock.lock_votes.clone());
        }

        match wal_info.step {
            Step::Commit => {
                return match &wal_info.lock {
                    Some(lock) => self.handle_commit(lock.lock_votes.block_hash.clone()).await,
                    None => Err(ConsensusError::LoadWalErr(
                        "no lock in commit step".to_string(),
                    )),
                };
            }
            Step::Brake => {
                let lock_round = wal_info.lock.as_ref().map(|lock| lock.lock_round);
                self.handle_brake(wal_info.round, lock_round).await?;
            }
            _ => (),
        }
"""))
same("z_st_loadwal", (P, """        let tmp = self
            .wal
            .load()
            .await
            .map_err(|e| ConsensusError::LoadWalErr(e.to_string()))?;

        if tmp.is_none() {
            return Ok(None);
        }

        let info: WalInfo<T> = rlp::decode(tmp.unwrap().as_ref())
            .map_err(|e| ConsensusError::LoadWalErr(e.to_string()))?;
        Ok(Some(info))""", """        let loaded = self.wal.load().await;
        match loaded {
            Err(e) => Err(ConsensusError::LoadWalErr(e.to_string())),
            Ok(None) => Ok(None),
            Ok(Some(bytes)) => rlp::decode::<WalInfo<T>>(bytes.as_ref())
                .map(Some)
                .map_err(|e| ConsensusError::LoadWalErr(e.to_string())),
        }"""))
same("z_st_savewal", (P, """        let polc = if let Some(round) = lock_round {
            if let Ok(qc) = self
                .votes
                .get_qc_by_id(self.height, round, VoteType::Prevote)
            {
                let block = self
                    .hash_with_block
                    .get(&qc.block_hash)
                    .ok_or_else(|| ConsensusError::Other("lose whole block".to_string()))?;

                Some(WalLock {
                    lock_round: round,
                    lock_votes: qc,
                    content: block.clone(),
                })
            } else {
                return Err(ConsensusError::Other("no qc".to_string()));
            }
        } else {
            None
        };

        self.save_wal(step, polc).await?;
        Ok(())
    }
""", """        let polc = match lock_round {
            None => None,
            Some(round) => Some(self.wal_lock(round)?),
        };
        self.save_wal(step, polc).await
    }

    fn wal_lock(&mut self, lock_round: u64) -> ConsensusResult<WalLock<T>> {
        let lock_votes = self
            .votes
            .get_qc_by_id(self.height, lock_round, VoteType::Prevote)
            .map_err(|_| ConsensusError::Other("no qc".to_string()))?;
        let content = self
            .hash_with_block
            .get(&lock_votes.block_hash)
            .cloned()
            .ok_or_else(|| ConsensusError::Other("lose whole block".to_string()))?;
        Ok(WalLock {
            lock_round,
            lock_votes,
            content,
        })
    }
"""))
same("z_st_savewal2", (P, """        self.wal
            .save(Bytes::from(rlp::encode(&wal_info)))
            .await
            .map_err(|e| {
                log::error!("Overlord: state save wal error {:?}", e);
                ConsensusError::SaveWalErr {
                    height: self.height,
                    round: self.round,
                    step: step.to_string(),
                }
            })?;
        Ok(())
""", """        let bytes = Bytes::from(rlp::encode(&wal_info));
        if let Err(e) = self.wal.save(bytes).await {
            log::error!("Overlord: state save wal error {:?}", e);
            return Err(ConsensusError::SaveWalErr {
                height: self.height,
                round: self.round,
                step: step.to_string(),
            });
        }
        Ok(())
"""))
# ---------------------------------------------------------------- state: heights and rounds
same("z_st_newheight_order", (P, """        // Clear outdated proposals and votes.
        self.proposals.flush(new_height - 1);
        self.votes.flush(new_height - 1);
        self.hash_with_block.clear();
        self.is_full_transaction.clear();
        self.chokes.clear();
""", """        // Clear everything that belongs to the last height.
        self.is_full_transaction = HashMap::new();
        self.hash_with_block = HashMap::new();
        self.chokes = ChokeCollector::new();
        self.votes.flush(self.height - 1);
        self.proposals.flush(self.height - 1);
"""))
same("z_st_newheight_clear_helper", (P, """        // Clear outdated proposals and votes.
        self.proposals.flush(new_height - 1);
        self.votes.flush(new_height - 1);
        self.hash_with_block.clear();
        self.is_full_transaction.clear();
        self.chokes.clear();
""", """        self.clear_last_height();
"""), (P, """    /// Handle `NewRoundInfo` event from SMR. Firstly""", """    fn clear_last_height(&mut self) {
        let till = self.height - 1;
        self.proposals.flush(till);
        self.votes.flush(till);
        self.hash_with_block.clear();
        self.is_full_transaction.clear();
        self.chokes.clear();
    }

    /// Handle `NewRoundInfo` event from SMR. Firstly"""))
same("z_st_newheight_flush", (P, """        self.proposals.flush(new_height - 1);
        self.votes.flush(new_height - 1);
""", """        self.proposals.flush(new_height);
        self.votes.flush(new_height);
"""))
same("z_st_newheight_guard", (P, """        if status.height <= self.height {
            log::warn!(
                "Overlord: state receive an outdated status, height {}, self height {}",
                status.height,
                self.height
            );
            return Ok(());
        }

        let new_height = status.height;
        self.height = new_height;
        self.round = INIT_ROUND;
""", """        let new_height = status.height;
        let old_height = self.height;
        if new_height <= old_height {
            log::warn!("Overlord: state receive an outdated status {}", new_height);
            return Ok(());
        }

        self.round = INIT_ROUND;
        self.height = new_height;
"""))
same("z_st_newheight_recheck", (P, """        if let Some(proposals) = self.proposals.get_height_proposals(self.height) {
            self.re_check_proposals(proposals).await?;
        }

        // Re-check votes and quorum certificates in the vote collector, of the current height.
        if let Some((votes, qcs)) = self.votes.get_height_votes(new_height) {
            self.re_check_votes(votes).await?;
            self.re_check_qcs(qcs).await?;
        }
""", """        self.re_check_cached(new_height).await;
"""), (P, """    async fn re_check_proposals(
        &mut self,
        proposals_and_ctxs: Vec<(SignedProposal<T>, Context)>,
    ) -> ConsensusResult<()> {
        log::debug!("Overlord: state re-check future signed proposals");

        for item in proposals_and_ctxs.into_iter() {
            parallel_verify(
                item.1,
                OverlordMsg::SignedProposal(item.0),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }

        Ok(())
    }

    async fn re_check_votes(
        &mut self,
        votes_and_ctxs: Vec<(SignedVote, Context)>,
    ) -> ConsensusResult<()> {
        log::debug!("Overlord: state re-check future signed votes");

        for item in votes_and_ctxs.into_iter() {
            parallel_verify(
                item.1,
                OverlordMsg::SignedVote(item.0),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }

        Ok(())
    }

    async fn re_check_qcs(&mut self, qcs: Vec<AggregatedVote>) -> ConsensusResult<()> {
        log::debug!("Overlord: state re-check future QCs");

        for item in qcs.into_iter() {
            parallel_verify(
                Context::new(),
                OverlordMsg::AggregatedVote(item),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }

        Ok(())
    }
""", """    async fn re_check_cached(&mut self, height: u64) {
        let mut cached = Vec::new();
        if let Some(proposals) = self.proposals.get_height_proposals(height) {
            for (proposal, ctx) in proposals {
                cached.push((ctx, OverlordMsg::SignedProposal(proposal)));
            }
        }
        if let Some((votes, qcs)) = self.votes.get_height_votes(height) {
            for (vote, ctx) in votes {
                cached.push((ctx, OverlordMsg::SignedVote(vote)));
            }
            for qc in qcs {
                cached.push((Context::new(), OverlordMsg::AggregatedVote(qc)));
            }
        }
        for (ctx, msg) in cached {
            self.verify(ctx, msg).await;
        }
    }

    async fn verify(&self, ctx: Context, msg: OverlordMsg<T>) {
        parallel_verify(
            ctx,
            msg,
            Arc::clone(&self.util),
            self.authority.clone(),
            self.verify_sig_tx.clone(),
        )
        .await;
    }
"""))
same("z_st_newround_proposal", (P, """        let (block, hash, polc) = if lock_round.is_none() {
            let (new_block, new_hash) = self
                .function
                .get_block(ctx.clone(), self.height)
                .await
                .map_err(|err| ConsensusError::Other(format!("get block error {:?}", err)))?;
            (new_block, new_hash, None)
        } else {
            let round = lock_round.unwrap();
            let hash = lock_proposal.unwrap();
            let block = self.hash_with_block.get(&hash).ok_or_else(|| {
                ConsensusError::ProposalErr(format!("Lose whole block that hash is {:?}", hash))
            })?;

            // Create PoLC by prevoteQC.
            let qc = self
                .votes
                .get_qc_by_id(self.height, round, VoteType::Prevote)
                .map_err(|err| ConsensusError::ProposalErr(format!("{:?} when propose", err)))?;
            let polc = PoLC {
                lock_round: round,
                lock_votes: qc,
            };
            (block.to_owned(), hash, Some(polc))
        };
""", """        let (block, hash, polc) = match (lock_round, lock_proposal) {
            (Some(round), Some(hash)) => {
                let lock_votes = self
                    .votes
                    .get_qc_by_id(self.height, round, VoteType::Prevote)
                    .map_err(|err| {
                        ConsensusError::ProposalErr(format!("{:?} when propose", err))
                    })?;
                let block = match self.hash_with_block.get(&hash) {
                    Some(block) => block.clone(),
                    None => {
                        return Err(ConsensusError::ProposalErr(format!(
                            "Lose whole block that hash is {:?}",
                            hash
                        )))
                    }
                };
                let polc = PoLC {
                    lock_round: round,
                    lock_votes,
                };
                (block, hash, Some(polc))
            }
            _ => {
                let res = self.function.get_block(ctx.clone(), self.height).await;
                let (new_block, new_hash) = res
                    .map_err(|err| ConsensusError::Other(format!("get block error {:?}", err)))?;
                (new_block, new_hash, None)
            }
        };
"""))
same("z_st_newround_leader", (P, """        if !self.is_proposer()? {
            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                return self.handle_signed_proposal(ctx, signed_proposal).await;
            }
            return Ok(());
        }
""", """        let is_proposer = self.is_proposer()?;
        if !is_proposer {
            return match self.proposals.get(self.height, self.round) {
                Ok((signed_proposal, ctx)) => {
                    self.handle_signed_proposal(ctx, signed_proposal).await
                }
                Err(_) => Ok(()),
            };
        }
"""), (P, """        self.is_leader = true;
        let ctx = Context::new();
        let (block, hash""", """        let ctx = Context::new();
        let (block, hash"""))
same("z_st_newround_split", (P, """        self.is_leader = true;
        let ctx = Context::new();
        let (block, hash, polc)""", """        self.propose(lock_round, lock_proposal).await
    }

    async fn propose(
        &mut self,
        lock_round: Option<u64>,
        lock_proposal: Option<Hash>,
    ) -> ConsensusResult<()> {
        self.is_leader = true;
        let ctx = Context::new();
        let (block, hash, polc)"""))
same("z_st_newround_entry", (P, """        self.hash_with_block
            .entry(hash.clone())
            .or_insert_with(|| block.clone());
""", """        if !self.hash_with_block.contains_key(&hash) {
            self.hash_with_block.insert(hash.clone(), block.clone());
        }
"""))
same("z_st_newround_xor", (P, """        if lock_round.is_some().bitxor(lock_proposal.is_some()) {""", """        if lock_round.is_some() != lock_proposal.is_some() {"""), (P, "use std::{ops::BitXor, sync::Arc};", "use std::sync::Arc;"))
same("z_st_proposer", (P, """        let proposer = self.authority.get_proposer(self.height, self.round)?;

        if proposer == self.address {
            log::info!(
                "Overlord: state self become leader, height {}, round {}",
                self.height,
                self.round
            );
            self.is_leader = true;
            self.leader_address = self.address.clone();
            return Ok(true);
        }

        log::info!(
            "Overlord: {:?} become leader, height {}, round {}",
            hex_encode(proposer.clone()),
            self.height,
            self.round
        );
        self.leader_address = proposer;
        self.is_leader = false;
        Ok(false)""", """        self.leader_address = self.authority.get_proposer(self.height, self.round)?;
        self.is_leader = self.leader_address == self.address;
        log::info!(
            "Overlord: {:?} become leader, height {}, round {}",
            hex_encode(self.leader_address.clone()),
            self.height,
            self.round
        );
        Ok(self.is_leader)"""))
same("z_st_vproposer", (P, """        self.verify_address(address)?;
        if address != &self.authority.get_proposer(height, round)? {
            return Err(ConsensusError::ProposalErr("Invalid proposer".to_string()));
        }
        Ok(())""", """        let expected = self.authority.get_proposer(height, round)?;
        if expected == *address {
            self.verify_address(address)
        } else {
            Err(ConsensusError::ProposalErr("Invalid proposer".to_string()))
        }"""))
same("z_st_vproposer2", (P, """        self.verify_address(address)?;
        if address != &self""", """        if address != &self"""))
same("z_st_setfrom", (P, """            FromWhere::PrecommitQC(round) => {
                let qc = if round == u64::max_value() {
                    mock_init_qc()
                } else {
                    self.votes
                        .get_qc_by_id(self.height, round, VoteType::Precommit)?
                };
                UpdateFrom::PrecommitQC(qc)
            }
""", """            FromWhere::PrecommitQC(u64::MAX) => UpdateFrom::PrecommitQC(mock_init_qc()),

            FromWhere::PrecommitQC(round) => UpdateFrom::PrecommitQC(self.votes.get_qc_by_id(
                self.height,
                round,
                VoteType::Precommit,
            )?),
"""))
# ---------------------------------------------------------------- state: proposals, votes, certificates
same("z_st_prop_polc", (P, """        let lock_round = if let Some(polc) = proposal.lock.clone() {
            log::debug!("Overlord: state receive a signed proposal with a lock");
            let qc = &polc.lock_votes;
            if !qc.is_prevote_qc()
                || qc.height != proposal_height
                || qc.round != polc.lock_round
                || polc.lock_round >= proposal_round
                || qc.block_hash.is_empty()
                || qc.block_hash != proposal.block_hash
            {
                return Err(ConsensusError::ProposalErr(
                    "Proposal is inconsistent with its lock".to_string(),
                ));
            }
            Some(polc.lock_round)
        } else {
            None
        };
""", """        let lock_round = match &proposal.lock {
            None => None,
            Some(polc) if polc_matches(polc, &proposal) => Some(polc.lock_votes.round),
            Some(_) => {
                return Err(ConsensusError::ProposalErr(
                    "Proposal is inconsistent with its lock".to_string(),
                ))
            }
        };
"""), (P, """fn mock_init_qc() -> AggregatedVote {""", """fn polc_matches<T: Codec>(polc: &PoLC, proposal: &Proposal<T>) -> bool {
    let qc = &polc.lock_votes;
    qc.is_prevote_qc()
        && qc.height == proposal.height
        && qc.round == polc.lock_round
        && qc.round < proposal.round
        && !proposal.block_hash.is_empty()
        && proposal.block_hash == qc.block_hash
}

fn mock_init_qc() -> AggregatedVote {"""))
same("z_st_prop_known", (P, """        if self
            .hash_with_block
            .get(&hash)
            .map_or(false, |known| known != &block)
        {
            return Err(ConsensusError::ProposalErr(
                "Another block with the same hash".to_string(),
            ));
        }
        self.hash_with_block.insert(hash.clone(), proposal.content);
""", """        match self.hash_with_block.get(&hash) {
            Some(known) if known != &block => {
                return Err(ConsensusError::ProposalErr(
                    "Another block with the same hash".to_string(),
                ))
            }
            Some(_) => (),
            None => {
                self.hash_with_block.insert(hash.clone(), proposal.content);
            }
        }
"""))
same("z_st_prop_insert", (P, """        self.hash_with_block.insert(hash.clone(), proposal.content);
        self.proposals.insert(
            ctx.clone(),
            self.height,
            self.round,
            signed_proposal.clone(),
        )?;
""", """        self.proposals
            .insert(ctx.clone(), proposal_height, proposal_round, signed_proposal)?;
        self.hash_with_block.insert(hash.clone(), block.clone());
"""))
same("z_st_filter_prop", (P, """        if (height == self.height && round != self.round) || height > self.height {
            log::debug!(""", """        if height != self.height || round != self.round {
            log::debug!("""))
same("z_st_filter_msg", (P, """        if height < self.height || (height == self.height && round < self.round) {
            log::debug!(
                "Overlord: state receive an outdated message height {}, self height {}",
                height,
                self.height
            );
            return true;
        } else if self.height + FUTURE_HEIGHT_GAP < height {
            log::debug!(
                "Overlord: state receive a future message height {}, self height {}",
                height,
                self.height
            );
            return true;
        } else if (height == self.height && self.round + FUTURE_ROUND_GAP < round)
            || (height > self.height && round > FUTURE_ROUND_GAP)
        {
            log::debug!("Overlord: state receive a much higher round message");
            return true;
        }

        false""", """        match height.cmp(&self.height) {
            Ordering::Less => true,
            Ordering::Equal => round < self.round || round > self.round + FUTURE_ROUND_GAP,
            Ordering::Greater => {
                height > self.height + FUTURE_HEIGHT_GAP || round > FUTURE_ROUND_GAP
            }
        }"""))
same("z_st_filter_msg2", (P, """        if height < self.height || (height == self.height && round < self.round) {""", """        let outdated = (height, round) < (self.height, self.round);
        if outdated {"""))
same("z_st_filter_msg3", (P, """        } else if (height == self.height && self.round + FUTURE_ROUND_GAP < round)
            || (height > self.height && round > FUTURE_ROUND_GAP)
        {""", """        }

        let base_round = if height == self.height { self.round } else { 0 };
        if round > base_round + FUTURE_ROUND_GAP {"""))
same("z_st_vote_type", (P, """        let vote_type = if signed_vote.is_prevote() {
            VoteType::Prevote
        } else {
            VoteType::Precommit
        };
""", """        let vote_type = signed_vote.vote.vote_type.clone();
"""))
same("z_st_vote_order", (P, """        self.verify_address(&voter)?;

        // Check if the quorum certificate has generated before check whether there is a hash that
        // vote weight is above the threshold. If no hash achieved this, return directly.
        if self
            .votes
            .get_qc_by_id(height, round, vote_type.clone())
            .is_ok()
        {
            return Ok(());
        }
""", """        let known = self.votes.get_qc_by_id(height, round, vote_type.clone());
        if known.is_ok() {
            return Ok(());
        }
        self.verify_address(&voter)?;
"""))
same("z_st_vote_qc_helper", (P, """        let block_hash = self.counting_vote(vote_type.clone())?;
        if block_hash.is_none() {
            log::debug!("Overlord: state counting of vote and no one above threshold");
            return Ok(());
        }

        // Build the quorum certificate needs to aggregate signatures into an aggregate
        // signature besides the address bitmap.
        let block_hash = block_hash.unwrap();
        let qc = self.generate_qc(block_hash.clone(), vote_type.clone())?;

        log::debug!(
            "Overlord: state set QC height {}, round {}",
            self.height,
            self.round
        );

        self.votes.set_qc(qc.clone());

        log::debug!(
            "Overlord: state broadcast a {:?} QC, height {}, round {}, hash {:?}",
            vote_type,
            qc.height,
            qc.round,
            hex_encode(block_hash.clone())
        );

        self.broadcast(ctx, OverlordMsg::AggregatedVote(qc.clone()))
            .await;

        if !self.try_get_full_txs(&block_hash) {
            return Ok(());
        }

        log::debug!(
            "Overlord: state trigger SMR {:?} QC height {}, round {}, hash {:?}",
            vote_type,
            self.height,
            self.round,
            hex_encode(block_hash.clone())
        );

        self.state_machine.trigger(SMRTrigger {
            trigger_type: vote_type.clone().into(),
            source: TriggerSource::State,
            hash: block_hash,
            lock_round: None,
            round: qc.round,
            height: qc.height,
            wal_info: None,
        })?;
        Ok(())
    }
""", """        self.try_form_qc(ctx, vote_type).await
    }

    async fn try_form_qc(&mut self, ctx: Context, vote_type: VoteType) -> ConsensusResult<()> {
        let block_hash = match self.counting_vote(vote_type.clone())? {
            Some(hash) => hash,
            None => return Ok(()),
        };
        let qc = self.generate_qc(block_hash.clone(), vote_type.clone())?;
        self.votes.set_qc(qc.clone());
        self.broadcast(ctx, OverlordMsg::AggregatedVote(qc.clone()))
            .await;

        if self.try_get_full_txs(&block_hash) {
            self.state_machine.trigger(SMRTrigger {
                trigger_type: vote_type.into(),
                source: TriggerSource::State,
                hash: block_hash,
                lock_round: None,
                round: qc.round,
                height: qc.height,
                wal_info: None,
            })?;
        }
        Ok(())
    }
"""), (P, """        } else if let Some(block_hash) = self.counting_vote(vote_type.clone())? {
            let qc = self.generate_qc(block_hash.clone(), vote_type.clone())?;
            self.votes.set_qc(qc.clone());

            log::debug!(
                "Overlord: state broadcast a {:?} QC, height {}, round {}, hash {:?}",
                vote_type,
                qc.height,
                qc.round,
                hex_encode(block_hash.clone())
            );

            self.broadcast(Context::new(), OverlordMsg::AggregatedVote(qc))
                .await;

            if !self.try_get_full_txs(&block_hash) {
                return Ok(());
            }

            log::debug!(
                "Overlord: state trigger SMR {:?} QC height {}, round {}, hash {:?}",
                vote_type,
                self.height,
                self.round,
                hex_encode(block_hash.clone())
            );

            self.state_machine.trigger(SMRTrigger {
                trigger_type: vote_type.clone().into(),
                source: TriggerSource::State,
                hash: block_hash,
                lock_round: None,
                round: self.round,
                height: self.height,
                wal_info: None,
            })?;
        }
        Ok(())
    }
""", """            return Ok(());
        }
        self.try_form_qc(Context::new(), vote_type).await
    }
"""))
same("z_st_qc_match", (P, """        match vote_height.cmp(&self.height) {
            Ordering::Less => {
                log::debug!(
                    "Overlord: state receive an outdated QC, height {}, round {}",
                    vote_height,
                    vote_round,
                );
                return Ok(());
            }

            Ordering::Greater => {
                if self.height + FUTURE_HEIGHT_GAP > vote_height && vote_round < FUTURE_ROUND_GAP {
                    log::debug!(
                        "Overlord: state receive a future QC, height {}, round {}",
                        vote_height,
                        vote_round,
                    );
                    self.votes.set_qc(aggregated_vote);
                } else {
                    log::warn!("Overlord: state receive a much higher aggregated vote");
                }
                return Ok(());
            }

            Ordering::Equal => (),
        }

        // State do not handle outdated prevote QC.
        if qc_type == VoteType::Prevote && vote_round < self.round {
            log::debug!("Overlord: state receive a outdated prevote qc.");
            return Ok(());
        } else if qc_type == VoteType::Precommit
            && aggregated_vote.block_hash.is_empty()
            && vote_round < self.round
        {
            return Ok(());
        }
""", """        if vote_height < self.height {
            return Ok(());
        }
        if vote_height > self.height {
            let near = vote_height < self.height + FUTURE_HEIGHT_GAP;
            if near && vote_round < FUTURE_ROUND_GAP {
                self.votes.set_qc(aggregated_vote);
            }
            return Ok(());
        }

        // State do not handle outdated prevote QC.
        let outdated = vote_round < self.round;
        if outdated
            && match qc_type {
                VoteType::Prevote => true,
                VoteType::Precommit => aggregated_vote.block_hash.is_empty(),
            }
        {
            return Ok(());
        }
"""))
same("z_st_full", (P, """        if hash.is_empty() {
            return true;
        } else if let Some(res) = self.is_full_transaction.get(hash) {
            return *res;
        }
        false""", """        hash.is_empty()
            || self
                .is_full_transaction
                .get(hash)
                .copied()
                .unwrap_or(false)"""))
same("z_st_full2", (P, """        if hash.is_empty() {
            return true;
        } else if let Some(res) = self.is_full_transaction.get(hash) {
            return *res;
        }
        false""", """        match self.is_full_transaction.get(hash) {
            _ if hash.is_empty() => true,
            Some(res) => *res,
            None => false,
        }"""))
same("z_st_count_find", (P, """        for (hash, set) in vote_map.iter() {
            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)""", """        for (hash, set) in vote_map.iter() {
            let acc = set
                .iter()
                .map(|addr| self.authority.get_vote_weight(addr).map(|w| u64::from(*w)))
                .sum::<ConsensusResult<u64>>()?;
            if threshold < acc * 3 {
                return Ok(Some(hash.clone()));
            }
        }
        Ok(None)"""))
same("z_st_count_fold", (P, """            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {""", """            let acc = set.iter().try_fold(0u64, |acc, addr| {
                let weight = self.authority.get_vote_weight(addr)?;
                Ok::<u64, ConsensusError>(acc + *weight as u64)
            })?;
            if acc * 3 > threshold {"""))
same("z_st_count_helper", (P, """            let mut acc = 0u64;
            for addr in set.iter() {
                acc += u64::from(*self.authority.get_vote_weight(addr)?);
            }
            if acc * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)
    }
""", """            if weight_of(&self.authority, set)? * 3 > threshold {
                return Ok(Some(hash.to_owned()));
            }
        }
        Ok(None)
    }
"""), (P, """fn mock_init_qc() -> AggregatedVote {""", """fn weight_of(authority: &AuthorityManage, voters: &HashSet<Address>) -> ConsensusResult<u64> {
    let mut acc = 0u64;
    for voter in voters {
        acc += u64::from(*authority.get_vote_weight(voter)?);
    }
    Ok(acc)
}

fn mock_init_qc() -> AggregatedVote {"""))
same("z_st_gen_unzip", (P, """        let len = votes.len();
        let mut signatures = Vec::with_capacity(len);
        let mut voters = Vec::with_capacity(len);
        for vote in votes.into_iter() {
            signatures.push(vote.signature);
            voters.push(vote.voter);
        }

        let set = voters.iter().cloned().collect::<HashSet<_>>();
        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {
            if set.contains(addr) {
                bit_map.set(index, true);
            }
        }
""", """        let (signatures, voters): (Vec<Signature>, Vec<Address>) = votes
            .into_iter()
            .map(|vote| (vote.signature, vote.voter))
            .unzip();

        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {
            if voters.contains(addr) {
                bit_map.set(index, true);
            }
        }
"""))
same("z_st_gen_fn", (P, """        let set = voters.iter().cloned().collect::<HashSet<_>>();
        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {
            if set.contains(addr) {
                bit_map.set(index, true);
            }
        }
""", """        let set = voters.iter().collect::<HashSet<_>>();
        let bit_map = self
            .authority
            .get_address_ref()
            .iter()
            .map(|addr| set.contains(addr))
            .collect::<BitVec>();
"""))
same("z_st_gen_setval", (P, """            if set.contains(addr) {
                bit_map.set(index, true);
            }
""", """            bit_map.set(index, set.contains(addr));
"""))
same("z_st_gen_helper", (P, """        let set = voters.iter().cloned().collect::<HashSet<_>>();
        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {
            if set.contains(addr) {
                bit_map.set(index, true);
            }
        }

        let aggregated_signature = AggregatedSignature {
            signature: self.aggregate_signatures(signatures, voters)?,
            address_bitmap: Bytes::from(bit_map.to_bytes()),
        };
        let qc = AggregatedVote {
            signature: aggregated_signature,
            vote_type,
            height: self.height,
            round: self.round,
            block_hash,
            leader: self.address.clone(),
        };
        Ok(qc)
    }
""", """        let address_bitmap = self.voter_bitmap(&voters);
        let signature = self.aggregate_signatures(signatures, voters)?;
        Ok(AggregatedVote {
            leader: self.address.clone(),
            block_hash,
            round: self.round,
            height: self.height,
            vote_type,
            signature: AggregatedSignature {
                signature,
                address_bitmap,
            },
        })
    }

    fn voter_bitmap(&self, voters: &[Address]) -> Bytes {
        let set = voters.iter().cloned().collect::<HashSet<_>>();
        let mut bit_map = BitVec::from_elem(self.authority.len(), false);
        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {
            if set.contains(addr) {
                bit_map.set(index, true);
            }
        }
        Bytes::from(bit_map.to_bytes())
    }
"""))
same("z_st_voteevent", (P, """        if self.is_leader {
            self.votes.insert_vote(
                Context::new(),
                signed_vote.get_hash(),
                signed_vote,
                self.address.clone(),
            );
        } else {
            log::debug!(
                "Overlord: state transmit a signed vote, height {}, round {}, hash {:?}",
                self.height,
                self.round,
                hex_encode(hash)
            );

            self.transmit(Context::new(), OverlordMsg::SignedVote(signed_vote))
                .await;
        }

        self.vote_process(vote_type).await?;
        Ok(())""", """        if !self.is_leader {
            self.transmit(Context::new(), OverlordMsg::SignedVote(signed_vote))
                .await;
            return self.vote_process(vote_type).await;
        }

        let ctx = Context::new();
        let voter = signed_vote.voter.clone();
        self.votes.insert_vote(ctx, hash, signed_vote, voter);
        self.vote_process(vote_type).await"""))
same("z_st_voteevent2", (P, """        let signed_vote = self.sign_vote(Vote {
            height: self.height,
            round: self.round,
            vote_type: vote_type.clone(),
            block_hash: hash.clone(),
        })?;

        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)
            .await?;
""", """        let step: Step = vote_type.clone().into();
        self.save_wal_with_lock_round(step, lock_round).await?;
        let vote = Vote {
            height: self.height,
            round: self.round,
            vote_type: vote_type.clone(),
            block_hash: hash.clone(),
        };
        let signed_vote = self.sign_vote(vote)?;
"""))
same("z_st_sign", (P, """        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&vote))))
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;

        Ok(SignedVote {
            voter: self.address.clone(),
            signature,
            vote,
        })""", """        self.sign_bytes(rlp::encode(&vote).to_vec()).map(|signature| SignedVote {
            voter: self.address.clone(),
            signature,
            vote,
        })
    }

    fn sign_bytes(&self, bytes: Vec<u8>) -> ConsensusResult<Signature> {
        let hash = self.util.hash(Bytes::from(bytes));
        self.util
            .sign(hash)
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))"""), (P, """        let signature = self
            .util
            .sign(self.util.hash(Bytes::from(rlp::encode(&proposal))))
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))?;
""", """        let signature = self.sign_bytes(rlp::encode(&proposal).to_vec())?;
"""))
same("z_st_commit", (P, """        let content = if let Some(tmp) = self.hash_with_block.get(&hash) {
            tmp.to_owned()
        } else {
            return Err(ConsensusError::Other(format!(
                "Lose whole block height {}, round {}",
                self.height, self.round
            )));
        };

        let qc = if let Some(tmp) =
            self.votes
                .get_qc_by_hash(height, hash.clone(), VoteType::Precommit)
        {
            tmp.to_owned()
        } else {
            return Err(ConsensusError::StorageErr("Lose precommit QC".to_string()));
        };
""", """        let qc = self
            .votes
            .get_qc_by_hash(height, hash.clone(), VoteType::Precommit)
            .ok_or_else(|| ConsensusError::StorageErr("Lose precommit QC".to_string()))?;
        let content = self
            .hash_with_block
            .get(&hash)
            .cloned()
            .ok_or_else(|| {
                ConsensusError::Other(format!(
                    "Lose whole block height {}, round {}",
                    self.height, self.round
                ))
            })?;
"""))
same("z_st_commit_helper", (P, """        let proof = Proof {
            height,
            round: qc.round,
            block_hash: hash.clone(),
            signature: qc.signature.clone(),
        };
        let commit = Commit {
            height,
            content,
            proof,
        };

        let ctx = Context::new();""", """        let commit = make_commit(qc, content);

        let ctx = Context::new();"""), (P, """fn mock_init_qc() -> AggregatedVote {""", """fn make_commit<T: Codec>(qc: AggregatedVote, content: T) -> Commit<T> {
    let proof = Proof {
        height: qc.height,
        round: qc.round,
        block_hash: qc.block_hash,
        signature: qc.signature,
    };
    Commit {
        height: proof.height,
        content,
        proof,
    }
}

fn mock_init_qc() -> AggregatedVote {"""))
same("z_st_commit_wait", (P, """        if self.next_proposer(status.height, INIT_ROUND)?
            && cost < Duration::from_millis(self.block_interval)
        {
            sleep(Duration::from_millis(self.block_interval) - cost).await;
        }
""", """        let interval = Duration::from_millis(self.block_interval);
        if self.next_proposer(status.height, INIT_ROUND)? {
            if let Some(rest) = interval.checked_sub(cost) {
                sleep(rest).await;
            }
        }
"""))
# ---------------------------------------------------------------- state: chokes
same("z_st_brake", (P, """        self.chokes.insert(self.round, signed_choke.clone());
        self.save_wal_with_lock_round(Step::Brake, lock_round)
            .await?;
        self.broadcast(""", """        self.save_wal_with_lock_round(Step::Brake, lock_round)
            .await?;
        self.chokes.insert(round, signed_choke.clone());
        self.broadcast("""))
same("z_st_choke_match", (P, """        if choke_round > self.round {
            match choke.from {
                // The QC carried by a choke comes from the network, verify it before handling it.
                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
                    if qc.height == self.height {
                        parallel_verify(
                            ctx.clone(),
                            OverlordMsg::AggregatedVote(qc),
                            Arc::clone(&self.util),
                            self.authority.clone(),
                            self.verify_sig_tx.clone(),
                        )
                        .await;
                    }
                    return Ok(());
                }
                UpdateFrom::ChokeQC(qc) => {
                    self.verify_aggregated_choke(&qc)?;
                    return self.handle_aggregated_choke(qc);
                }
            }
        }

        self.chokes.insert(choke_round, signed_choke);
        self.check_choke_above_threshold()?;
        Ok(())
    }
""", """        if choke_round == self.round {
            self.chokes.insert(choke_round, signed_choke);
            return self.check_choke_above_threshold();
        }
        self.handle_future_choke(ctx, choke).await
    }

    async fn handle_future_choke(&mut self, ctx: Context, choke: Choke) -> ConsensusResult<()> {
        let vote_qc = match choke.from {
            UpdateFrom::ChokeQC(qc) => {
                self.verify_aggregated_choke(&qc)?;
                return self.handle_aggregated_choke(qc);
            }
            UpdateFrom::PrevoteQC(qc) => qc,
            UpdateFrom::PrecommitQC(qc) => qc,
        };
        if vote_qc.height != self.height {
            return Ok(());
        }
        parallel_verify(
            ctx,
            OverlordMsg::AggregatedVote(vote_qc),
            Arc::clone(&self.util),
            self.authority.clone(),
            self.verify_sig_tx.clone(),
        )
        .await;
        Ok(())
    }
"""))
same("z_st_choke_guard", (P, """        if choke_height != self.height {
            return Ok(());
        }

        if choke_round < self.round {
            return Ok(());
        }
""", """        if choke_height != self.height || self.round > choke_round {
            return Ok(());
        }
"""))
same("z_st_vac", (P, """        let mut voters = HashSet::new();
        for voter in aggregated_choke.voters.iter() {
            self.verify_address(voter)?;
            if !voters.insert(voter) {
                return Err(ConsensusError::BrakeErr(
                    "choke qc has duplicate voters".to_string(),
                ));
            }
        }
""", """        let voters = &aggregated_choke.voters;
        if let Some(stranger) = voters.iter().find(|voter| !self.authority.contains(voter)) {
            log::warn!("Overlord: choke qc voter {:?}", stranger);
            return Err(ConsensusError::InvalidAddress);
        }
        if voters.iter().collect::<HashSet<_>>().len() != voters.len() {
            return Err(ConsensusError::BrakeErr(
                "choke qc has duplicate voters".to_string(),
            ));
        }
"""))
same("z_st_vac2", (P, """        for voter in aggregated_choke.voters.iter() {
            self.verify_address(voter)?;
            if !voters.insert(voter) {
                return Err(ConsensusError::BrakeErr(
                    "choke qc has duplicate voters".to_string(),
                ));
            }
        }
""", """        let unique = aggregated_choke.voters.iter().all(|voter| voters.insert(voter));
        if !unique {
            return Err(ConsensusError::BrakeErr(
                "choke qc has duplicate voters".to_string(),
            ));
        }
        for voter in voters {
            self.verify_address(voter)?;
        }
"""))
same("z_st_hac", (P, """        if aggregated_choke.len() * 3 <= self.authority.len() * 2 {
            return Err(ConsensusError::BrakeErr(
                "choke qc is not above threshold".to_string(),
            ));
        }
""", """        let above = aggregated_choke.len() * 3 > self.authority.len() * 2;
        if !above {
            return Err(ConsensusError::BrakeErr(
                "choke qc is not above threshold".to_string(),
            ));
        }
"""))
same("z_st_ccat", (P, """        if let Some(round) = self.chokes.max_round_above_threshold(self.authority.len()) {
            if round < self.round {
                return Ok(());
            }
""", """        let above = self.chokes.max_round_above_threshold(self.authority.len());
        if let Some(round) = above.filter(|round| *round >= self.round) {
"""))
same("z_st_ccat2", (P, """            let mut sigs = Vec::with_capacity(signed_chokes.len());
            let mut voters = Vec::with_capacity(signed_chokes.len());
            for sc in signed_chokes.iter() {
                sigs.push(sc.signature.clone());
                voters.push(sc.address.clone());
            }
""", """            let sigs = signed_chokes.iter().map(|sc| sc.signature.clone()).collect();
            let voters = signed_chokes
                .iter()
                .map(|sc| sc.address.clone())
                .collect::<Vec<Address>>();
"""))
same("z_st_checkblock", (P, """            if let Err(e) =
                check_current_block(ctx, function, height, round, hash.clone(), block, resp_tx)
                    .await
            {
                log::error!("Overlord: state check block failed: {:?}", e);
            }
""", """            match function.check_block(ctx, height, hash.clone(), block).await {
                Err(e) => log::error!("Overlord: state check block failed: {:?}", e),
                Ok(_) => {
                    let resp = VerifyResp {
                        height,
                        round,
                        block_hash: hash,
                        is_pass: true,
                    };
                    if resp_tx.unbounded_send(resp).is_err() {
                        log::error!("Overlord: state check block failed");
                    }
                }
            }
"""))
same("z_st_checkblock2", (P, """    function
        .check_block(ctx, height, hash.clone(), block)
        .await
        .map_err(|err| ConsensusError::Other(format!("check {} block error {:?}", height, err)))?;

    log::debug!("Overlord: state check block {}", true);
    tx""", """    let checked = function.check_block(ctx, height, hash.clone(), block).await;
    if let Err(err) = checked {
        return Err(ConsensusError::Other(format!(
            "check {} block error {:?}",
            height, err
        )));
    }
    tx"""))
same("z_st_viewchange", (P, """        if self.is_leader {
            if let Ok(qc) = self.votes.get_qc_by_id(height, round, VoteType::Prevote) {
                if !qc.block_hash.is_empty() {
                    return ViewChangeReason::LeaderReceivedVoteBelowThreshold(VoteType::Precommit);
                }
            }
            return ViewChangeReason::LeaderReceivedVoteBelowThreshold(VoteType::Prevote);
        }
""", """        if self.is_leader {
            let missing = match self.votes.get_qc_by_id(height, round, VoteType::Prevote) {
                Ok(qc) if !qc.block_hash.is_empty() => VoteType::Precommit,
                _ => VoteType::Prevote,
            };
            return ViewChangeReason::LeaderReceivedVoteBelowThreshold(missing);
        }
"""))
same("z_st_new", (P, """        let (tx, rx) = unbounded();
        let mut auth = AuthorityManage::new();
        auth.update(&mut authority_list);
""", """        let mut auth = AuthorityManage::new();
        auth.update(&mut authority_list);
        let consensus_power = auth.contains(&addr);
        let (tx, rx) = unbounded();
"""), (P, "            consensus_power: auth.contains(&addr),\n", "            consensus_power,\n"))
same("z_st_unused", (P, """        let tmp_type: String = vote_type.to_string();

""", ""), (P, """        let signature = signed_vote.signature.clone();
        let voter = signed_vote.voter.clone();
        let vote = signed_vote.vote.clone();
""", """        let voter = signed_vote.voter.clone();
"""), (P, """        let signature = signed_proposal.signature.clone();

        // If""", """
        // If"""))
