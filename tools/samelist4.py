"""a fourth set of changes that keep the behaviour: collectors, timer, authority, certificate checks, voting machine"""
from mutlist import same, P, SM, TM, AM, CO, PA, OV, TY, CD, ST, WT, MO  # noqa: F401

# ---------------------------------------------------------------- collectors
same("v_co_insert_match", (CO, """        if let Some((sp, _)) = self.0.get(&round) {
            if sp == &proposal {
                return Ok(());
            }
            return Err(ConsensusError::Other("_".to_string()));
        }
        self.0.insert(round, (proposal, ctx));
        Ok(())
""", """        match self.0.entry(round) {
            Entry::Occupied(known) => {
                if known.get().0 == proposal {
                    Ok(())
                } else {
                    Err(ConsensusError::Other("_".to_string()))
                }
            }
            Entry::Vacant(slot) => {
                slot.insert((proposal, ctx));
                Ok(())
            }
        }
"""), (CO, """use std::collections::{BTreeMap, HashMap, HashSet};

use creep::Context;
use hummer""", """use std::collections::{hash_map::Entry, BTreeMap, HashMap, HashSet};

use creep::Context;
use hummer"""))
same("v_co_get_chain", (CO, """        if let Some(round_collector) = self.0.get(&height) {
            return Ok(round_collector
                .get(round)
                .map_err(|_| {
                    ConsensusError::StorageErr(format!(
                        "No proposal height {}, round {}",
                        height, round
                    ))
                })?
                .to_owned());
        }

        Err(ConsensusError::StorageErr(format!(
            "No proposal height {}, round {}",
            height, round
        )))
""", """        self.0
            .get(&height)
            .and_then(|round_collector| round_collector.get(round).ok())
            .cloned()
            .ok_or_else(|| {
                ConsensusError::StorageErr(format!(
                    "No proposal height {}, round {}",
                    height, round
                ))
            })
"""))
same("v_co_into_values", (CO, """        self.0.remove(&height).map_or_else(
            || None,
            |map| Some(map.0.values().cloned().collect::<Vec<_>>()),
        )
""", """        let map = self.0.remove(&height)?;
        Some(map.0.into_iter().map(|(_, proposal)| proposal).collect())
"""))
same("v_co_heightvotes", (CO, """        self.0.remove(&height).map_or_else(
            || None,
            |mut vrc| {
                let mut votes = Vec::new();
                let mut qcs = Vec::new();

                for (_, rc) in vrc.general.iter_mut() {
                    votes.append(&mut rc.prevote.get_all_votes());
                    votes.append(&mut rc.precommit.get_all_votes());
                    qcs.append(&mut rc.qc.get_all_qcs());
                }
                Some((votes, qcs))
            },
        )
""", """        let mut vrc = self.0.remove(&height)?;
        let mut votes = Vec::new();
        let mut qcs = Vec::new();
        for rc in vrc.general.values_mut() {
            qcs.extend(rc.qc.get_all_qcs());
            votes.extend(rc.prevote.get_all_votes());
            votes.extend(rc.precommit.get_all_votes());
        }
        Some((votes, qcs))
"""))
same("v_co_flush_retain", (CO, """    /// Remove items that height is less than `till`.
    pub fn flush(&mut self, till: u64) {
        self.0 = self.0.split_off(&till);
    }
}

/// A struct to collect votes in each round.""", """    /// Remove items that height is less than `till`.
    pub fn flush(&mut self, till: u64) {
        let old = self
            .0
            .keys()
            .copied()
            .filter(|height| *height < till)
            .collect::<Vec<_>>();
        for height in old {
            self.0.remove(&height);
        }
    }
}

/// A struct to collect votes in each round."""))
same("v_co_setqc_local", (CO, """        self.qc_by_hash
            .entry(qc.block_hash.clone())
            .or_insert_with(QuorumCertificate::new)
            .set_quorum_certificate(qc.clone());

        self.general
            .entry(qc.get_round())
            .or_insert_with(RoundCollector::new)
            .set_qc(qc);
""", """        let (round, hash) = (qc.get_round(), qc.block_hash.clone());
        self.general
            .entry(round)
            .or_insert_with(RoundCollector::new)
            .set_qc(qc.clone());

        let of_block = self
            .qc_by_hash
            .entry(hash)
            .or_insert_with(QuorumCertificate::new);
        of_block.set_quorum_certificate(qc);
"""))
same("v_co_setqc_inline", (CO, """    fn set_qc(&mut self, qc: AggregatedVote) {
        self.qc.set_quorum_certificate(qc);
    }
""", """    fn set_qc(&mut self, qc: AggregatedVote) {
        match qc.vote_type {
            VoteType::Prevote => self.qc.prevote = Some(qc),
            VoteType::Precommit => self.qc.precommit = Some(qc),
        }
    }
"""))
same("v_co_setqc_replace", (CO, """        if qc.is_prevote_qc() {
            self.prevote = Some(qc);
        } else {
            self.precommit = Some(qc);
        }
    }

    fn get_quorum_certificate""", """        let slot = if qc.is_prevote_qc() {
            &mut self.prevote
        } else {
            &mut self.precommit
        };
        slot.replace(qc);
    }

    fn get_quorum_certificate"""))
same("v_co_allqcs", (CO, """        let mut res = Vec::new();

        if let Some(tmp) = self.prevote.clone() {
            res.push(tmp);
        }

        if let Some(tmp) = self.precommit.clone() {
            res.push(tmp);
        }
        res
""", """        self.prevote
            .iter()
            .chain(self.precommit.iter())
            .cloned()
            .collect()
"""))
same("v_co_votes_votesof", (CO, """    fn insert_vote(&mut self, ctx: Context, hash: Hash, vote: SignedVote, addr: Address) {
        if vote.is_prevote() {
            self.prevote.insert(ctx, hash, addr, vote);
        } else {
            self.precommit.insert(ctx, hash, addr, vote);
        }
    }
""", """    fn insert_vote(&mut self, ctx: Context, hash: Hash, vote: SignedVote, addr: Address) {
        let vote_type = vote.vote.vote_type.clone();
        self.votes_of(&vote_type).insert(ctx, hash, addr, vote);
    }

    fn votes_of(&mut self, vote_type: &VoteType) -> &mut Votes {
        match vote_type {
            VoteType::Prevote => &mut self.prevote,
            VoteType::Precommit => &mut self.precommit,
        }
    }
"""))
same("v_co_insert_get", (CO, """        if self.by_address.contains_key(&addr) {
            // the addr somehow has already inserted a Vote we ignore the incoming SignedVote no
            // matter it duplicates or differs(byzantine), reject the current request!
            let exist = self.by_address.get(&addr).unwrap().clone();
            if vote.vote.block_hash != exist.0.vote.block_hash {
                // this is a byzantine behaviour
                log::error!("Overlord: VoteCollector detects byzantine behaviour: existing: {:?}, signed vote inserting: {:?}",
                exist,vote);
            }
            return;
        }

        self.by_hash
            .entry(hash)
            .or_insert_with(HashSet::new)
            .insert(addr.clone());
        self.by_address.entry(addr).or_insert((vote, ctx));
""", """        if let Some((known, _)) = self.by_address.get(&addr) {
            if vote.vote.block_hash != known.vote.block_hash {
                log::error!("Overlord: VoteCollector detects byzantine behaviour");
            }
        } else {
            self.by_address.insert(addr.clone(), (vote, ctx));
            self.by_hash.entry(hash).or_default().insert(addr);
        }
"""))
same("v_co_votes_loop", (CO, """        self.by_hash.get(hash).and_then(|addresses| {
            addresses
                .iter()
                .map(|addr| self.by_address.get(addr).cloned())
                .collect::<Option<Vec<_>>>()
        })
""", """        let addresses = self.by_hash.get(hash)?;
        let mut votes = Vec::with_capacity(addresses.len());
        for addr in addresses {
            let vote = self.by_address.get(addr)?;
            votes.push(vote.clone());
        }
        Some(votes)
"""))
same("v_co_votemap_filter", (CO, """        self.general.get_mut(&round).and_then(|rc| {
            let res = rc.get_vote_map(vote_type);
            if res.is_empty() {
                return None;
            }
            Some(res)
        })
""", """        self.general
            .get(&round)
            .map(|rc| rc.get_vote_map(vote_type))
            .filter(|votes| !votes.is_empty())
"""))
same("v_co_max_find", (CO, """        for (round, set) in self.chokes.iter().rev() {
            if set.len() * 3 > nodes_num * 2 {
                return Some(*round);
            }
        }
        None
""", """        self.chokes
            .iter()
            .rev()
            .find(|(_, set)| set.len() * 3 > nodes_num * 2)
            .map(|(round, _)| *round)
"""))
same("v_co_max_filter", (CO, """        for (round, set) in self.chokes.iter().rev() {
            if set.len() * 3 > nodes_num * 2 {
                return Some(*round);
            }
        }
        None
""", """        let needed = nodes_num * 2;
        self.chokes
            .iter()
            .filter(|item| item.1.len() * 3 > needed)
            .map(|item| *item.0)
            .max()
"""))
same("v_co_max_last", (CO, """        for (round, set) in self.chokes.iter().rev() {
            if set.len() * 3 > nodes_num * 2 {
                return Some(*round);
            }
        }
        None
""", """        let mut max_round = None;
        for (round, set) in self.chokes.iter() {
            if set.len() * 3 > nodes_num * 2 {
                max_round = Some(*round);
            }
        }
        max_round
"""))
same("v_co_choke_entry", (CO, """        self.chokes
            .entry(round)
            .or_insert_with(HashMap::new)
            .insert(signed_choke.address.clone(), signed_choke);
""", """        let voter = signed_choke.address.clone();
        let of_round = self.chokes.entry(round).or_default();
        of_round.insert(voter, signed_choke);
"""))
same("v_co_getchokes", (CO, """        self.chokes
            .get(&round)
            .map(|map| map.values().cloned().collect::<Vec<_>>())
""", """        let map = self.chokes.get(&round)?;
        let mut chokes = Vec::new();
        for signed_choke in map.values() {
            chokes.push(signed_choke.clone());
        }
        Some(chokes)
"""))
# ---------------------------------------------------------------- authority
same("v_am_update_collect", (AM, """        for node in authority_list.iter_mut() {
            let propose_weight = u64::from(node.propose_weight);
            let vote_weight = node.vote_weight;

            self.address.push(node.address.clone());
            self.propose_weights.push(propose_weight);
            self.vote_weight_map
                .insert(node.address.clone(), vote_weight);
            self.propose_weight_sum += propose_weight;
            self.vote_weight_sum += u64::from(vote_weight);
        }
""", """        self.address = authority_list.iter().map(|n| n.address.clone()).collect();
        self.propose_weights = authority_list
            .iter()
            .map(|n| u64::from(n.propose_weight))
            .collect();
        self.vote_weight_map = authority_list
            .iter()
            .map(|n| (n.address.clone(), n.vote_weight))
            .collect();
        self.propose_weight_sum = self.propose_weights.iter().sum();
        self.vote_weight_sum = authority_list.iter().map(|n| u64::from(n.vote_weight)).sum();
"""))
same("v_am_update_add", (AM, """        for node in authority_list.iter_mut() {
            let propose_weight = u64::from(node.propose_weight);
            let vote_weight = node.vote_weight;

            self.address.push(node.address.clone());
            self.propose_weights.push(propose_weight);
            self.vote_weight_map
                .insert(node.address.clone(), vote_weight);
            self.propose_weight_sum += propose_weight;
            self.vote_weight_sum += u64::from(vote_weight);
        }
    }
""", """        authority_list.iter().for_each(|node| self.add(node));
    }

    fn add(&mut self, node: &Node) {
        let address = node.address.clone();
        self.vote_weight_sum += u64::from(node.vote_weight);
        self.vote_weight_map.insert(address.clone(), node.vote_weight);
        self.address.push(address);

        let weight = u64::from(node.propose_weight);
        self.propose_weight_sum += weight;
        self.propose_weights.push(weight);
    }
"""))
same("v_am_flush_new", (AM, """        self.address.clear();
        self.propose_weights.clear();
        self.vote_weight_map.clear();
        self.propose_weight_sum = 0;
        self.vote_weight_sum = 0;
""", """        *self = AuthorityManage::new();
"""))
same("v_am_thr_fold", (AM, """        let mut acc = 0u64;

        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }

        Ok(acc * 3 > self.vote_weight_sum * 2)
""", """        let acc = bitmap
            .iter()
            .zip(self.address.iter())
            .filter(|(voted, _)| *voted)
            .try_fold(0u64, |acc, (_, address)| {
                self.vote_weight_map
                    .get(address)
                    .map(|weight| acc + u64::from(*weight))
                    .ok_or_else(|| {
                        ConsensusError::Other(format!("Lose {:?} vote weight", address))
                    })
            })?;

        Ok(acc * 3 > self.vote_weight_sum * 2)
"""))
same("v_am_thr_skip", (AM, """        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }

        Ok(acc * 3 > self.vote_weight_sum * 2)
""", """        for (voted, address) in bitmap.iter().zip(&self.address) {
            if !voted {
                continue;
            }
            let weight = self.vote_weight_map.get(address).ok_or_else(|| {
                ConsensusError::Other(format!("Lose {:?} vote weight", address))
            })?;
            acc += u64::from(*weight);
        }

        let required = self.vote_weight_sum * 2;
        Ok(required < acc * 3)
"""))
same("v_am_thr_voters", (AM, """        let bitmap = BitVec::from_bytes(bitmap);
        let mut acc = 0u64;

        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }
""", """        let mut acc = 0u64;
        for address in self.get_voters(bitmap)?.iter() {
            match self.vote_weight_map.get(address) {
                Some(weight) => acc += u64::from(*weight),
                None => {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        address
                    )))
                }
            }
        }
"""))
same("v_am_voters_enum", (AM, """        let voters = bitmap
            .iter()
            .zip(self.address.iter())
            .filter(|node| node.0)
            .map(|node| node.1.clone())
            .collect::<Vec<_>>();
        Ok(voters)
""", """        let mut voters = Vec::new();
        for (index, address) in self.address.iter().enumerate() {
            if bitmap.get(index).unwrap_or(false) {
                voters.push(address.clone());
            }
        }
        Ok(voters)
"""))
same("v_am_proposer_clone", (AM, """        if let Some(addr) = self.address.get(index) {
            return Ok(addr.to_owned());
        }
        Err(ConsensusError::Other(
            "The address list mismatch propose weight list".to_string(),
        ))
""", """        self.address.get(index).cloned().ok_or_else(|| {
            ConsensusError::Other("The address list mismatch propose weight list".to_string())
        })
"""))
same("v_am_leader_manage", (AM, """    authority_list.sort();
    let mut weight_sum = 0u64;
    let mut propose_weights = Vec::new();
    for node in authority_list.iter() {
        weight_sum += u64::from(node.propose_weight);
        propose_weights.push(node.propose_weight as u64);
    }
""", """    authority_list.sort();
    let propose_weights = authority_list
        .iter()
        .map(|node| u64::from(node.propose_weight))
        .collect::<Vec<_>>();
    let weight_sum = propose_weights.iter().sum::<u64>();
"""))
# ---------------------------------------------------------------- parallel verification
same("v_pa_digest", (PA, """                let hash = crypto.hash(Bytes::from(rlp::encode(&sv.vote)));
                crypto
                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())
                    .map_or_else(
                        |err| {
                            log::error!(
                                "Overlord: verify {:?} vote signature failed {:?}",
                                sv,
                                err
                            );
                        },
                        |_| {
                            let _ = tx.unbounded_send((ctx, msg_clone));
                        },
                    );
""", """                let hash = crypto.hash(Bytes::from(rlp::encode(&sv.vote)));
                let SignedVote {
                    signature, voter, ..
                } = sv;
                if crypto.verify_signature(signature, hash, voter).is_ok() {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                } else {
                    log::error!("Overlord: verify vote signature failed");
                }
"""), (PA, "use crate::types::{Address, AggregatedVote, OverlordMsg};", "use crate::types::{Address, AggregatedVote, OverlordMsg, SignedVote};"))
same("v_pa_bool", (PA, """fn verify_qc<T: Codec, C: Crypto>(
    ctx: Context,
    crypto: Arc<C>,
    qc: AggregatedVote,
    authority: AuthorityManage,
    tx: UnboundedSender<(Context, OverlordMsg<T>)>,
    msg_clone: OverlordMsg<T>,
) {
    let hash = crypto.hash(Bytes::from(rlp::encode(&qc.to_vote())));
    if let Ok(voters) = get_voters(&qc.signature.address_bitmap, authority) {
        crypto
            .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
            .map_or_else(
                |err| {
                    log::error!(
                        "Overlord: verify {:?} aggregated signature error {:?}",
                        qc,
                        err
                    );
                },
                |_| {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                },
            );
    }
}""", """fn verify_qc<T: Codec, C: Crypto>(
    ctx: Context,
    crypto: Arc<C>,
    qc: AggregatedVote,
    authority: AuthorityManage,
    tx: UnboundedSender<(Context, OverlordMsg<T>)>,
    msg_clone: OverlordMsg<T>,
) {
    if is_valid_qc(crypto.as_ref(), &qc, authority) {
        let _ = tx.unbounded_send((ctx, msg_clone));
    } else {
        log::error!("Overlord: verify {:?} aggregated signature error", qc);
    }
}

fn is_valid_qc<C: Crypto>(crypto: &C, qc: &AggregatedVote, authority: AuthorityManage) -> bool {
    let voters = match get_voters(&qc.signature.address_bitmap, authority) {
        Ok(voters) => voters,
        Err(_) => return false,
    };
    let hash = crypto.hash(Bytes::from(rlp::encode(&qc.to_vote())));
    crypto
        .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
        .is_ok()
}"""))
same("v_pa_result", (PA, """            OverlordMsg::SignedProposal(sp) => {
                let hash = crypto.hash(Bytes::from(rlp::encode(&sp.proposal)));
                if let Err(err) = crypto.verify_signature(
                    sp.signature.clone(),
                    hash,
                    sp.proposal.proposer.clone(),
                ) {
                    log::error!(
                        "Overlord: verify {:?} proposal signature failed {:?}",
                        sp,
                        err
                    );
                    return;
                }

                if let Some(polc) = sp.proposal.lock {
                    verify_qc(
                        ctx.clone(),
                        crypto,
                        polc.lock_votes,
                        authority,
                        tx.clone(),
                        msg_clone.clone(),
                    );
                } else {
                    let _ = tx.unbounded_send((ctx, msg_clone));
                }
            }
""", """            OverlordMsg::SignedProposal(sp) => {
                let hash = crypto.hash(Bytes::from(rlp::encode(&sp.proposal)));
                let proposer = sp.proposal.proposer.clone();
                match crypto.verify_signature(sp.signature.clone(), hash, proposer) {
                    Ok(()) => match sp.proposal.lock {
                        None => {
                            let _ = tx.unbounded_send((ctx, msg_clone));
                        }
                        Some(polc) => {
                            verify_qc(ctx, crypto, polc.lock_votes, authority, tx, msg_clone)
                        }
                    },
                    Err(err) => log::error!(
                        "Overlord: verify {:?} proposal signature failed {:?}",
                        sp,
                        err
                    ),
                }
            }
"""))
same("v_pa_getvoters", (PA, """    if !authority_manage.is_above_threshold(addr_bitmap)? {
        return Err(ConsensusError::AggregatedSignatureErr(
            "vote weight is not above threshold".to_string(),
        ));
    }
    authority_manage.get_voters(addr_bitmap)
""", """    let voters = authority_manage.get_voters(addr_bitmap)?;
    match authority_manage.is_above_threshold(addr_bitmap)? {
        true => Ok(voters),
        false => Err(ConsensusError::AggregatedSignatureErr(
            "vote weight is not above threshold".to_string(),
        )),
    }
"""))
# ---------------------------------------------------------------- timer
same("v_tm_stale", (TM, """        let (trigger_type, round, height) = match event {
            SMREvent::NewRoundInfo { height, round, .. } => {
                if height < self.height || round < self.round {
                    return Ok(());
                }
                (TriggerType::Proposal, round, height)
            }

            SMREvent::PrevoteVote {
                height, round, ..
            } => {
                if height < self.height {
                    return Ok(());
                }
                (TriggerType::PrevoteQC, round, height)
            }

            SMREvent::PrecommitVote {
                height, round, ..
            } => {
                if height < self.height {
                    return Ok(());
                }
                (TriggerType::PrecommitQC, round, height)
            }

            SMREvent::Brake {height, round, ..} => {
                if height < self.height {
                    return Ok(());
                }
                (TriggerType::BrakeTimeout, round, height)
            }

            _ => return Err(ConsensusError::TimerErr("No commit timer".to_string())),
        };
""", """        let (trigger_type, round, height, lowest) = match event {
            SMREvent::NewRoundInfo { height, round, .. } => {
                (TriggerType::Proposal, round, height, self.round)
            }
            SMREvent::PrevoteVote { height, round, .. } => {
                (TriggerType::PrevoteQC, round, height, 0)
            }
            SMREvent::PrecommitVote { height, round, .. } => {
                (TriggerType::PrecommitQC, round, height, 0)
            }
            SMREvent::Brake { height, round, .. } => {
                (TriggerType::BrakeTimeout, round, height, 0)
            }
            _ => return Err(ConsensusError::TimerErr("No commit timer".to_string())),
        };
        let outdated = height < self.height || round < lowest;
        if outdated {
            return Ok(());
        }
"""))
same("v_tm_factor", (TM, """        let mut interval = self.config.get_timeout(event.clone())?;
        if !is_brake_timer {
            let mut coef = MAX_TIMEOUT_COEF;
            if self.round < u64::from(MAX_TIMEOUT_COEF) {
                coef = self.round as u32;
            }
            interval *= 2u32.pow(coef);
        }
""", """        let timeout = self.config.get_timeout(event.clone())?;
        let interval = if is_brake_timer {
            timeout
        } else {
            timeout * self.backoff()
        };
"""), (TM, """    #[rustfmt::skip]
    fn trigger(""", """    fn backoff(&self) -> u32 {
        let max = u64::from(MAX_TIMEOUT_COEF);
        let coef = if self.round >= max { max } else { self.round };
        1u32 << coef
    }

    #[rustfmt::skip]
    fn trigger("""))
same("v_tm_factor_min", (TM, """            let mut coef = MAX_TIMEOUT_COEF;
            if self.round < u64::from(MAX_TIMEOUT_COEF) {
                coef = self.round as u32;
            }
            interval *= 2u32.pow(coef);
""", """            let coef = self.round.min(u64::from(MAX_TIMEOUT_COEF)) as u32;
            interval = interval * 2u32.pow(coef);
"""))
same("v_tm_commit_early", (TM, """        let mut is_brake_timer = false;
        match event.clone() {
            SMREvent::NewRoundInfo {
                height,
                round,
                new_interval,
                new_config,
                ..
            } => {
                if height > self.height {
                    self.height = height;
                }
                self.round = round;

                if let Some(interval) = new_interval {
                    self.config.set_interval(interval);
                }
                if let Some(config) = new_config {
                    self.config.update(config);
                }
            }
            SMREvent::Brake { .. } => is_brake_timer = true,
            SMREvent::Commit(_) => return Ok(()),
            _ => (),
        };
""", """        if matches!(event, SMREvent::Commit(_)) {
            return Ok(());
        }
        let is_brake_timer = matches!(event, SMREvent::Brake { .. });
        if let SMREvent::NewRoundInfo {
            height,
            round,
            ref new_interval,
            ref new_config,
            ..
        } = event
        {
            self.round = round;
            self.height = std::cmp::max(self.height, height);
            if let Some(interval) = *new_interval {
                self.config.set_interval(interval);
            }
            if let Some(config) = new_config.clone() {
                self.config.update(config);
            }
        }
"""))
same("v_tm_poll_helpers", (TM, """                    let event = event.unwrap();
                    if event == SMREvent::Stop {
                        return Poll::Ready(None);
                    }
                    if let Err(e) = self.set_timer(event) {
                        return Poll::Ready(Some(e));
                    }
                    false
""", """                    let event = event.unwrap();
                    let stopped = matches!(event, SMREvent::Stop);
                    if stopped {
                        return Poll::Ready(None);
                    }
                    match self.set_timer(event) {
                        Ok(()) => false,
                        Err(e) => return Poll::Ready(Some(e)),
                    }
"""))
same("v_tm_poll_match", (TM, """            is_pending &= match self.notify.poll_next_unpin(cx) {
                Poll::Pending => true,

                Poll::Ready(event) => {
                    if event.is_none() {
                        return Poll::Ready(Some(ConsensusError::TimerErr(
                            "Channel terminated".to_string(),
                        )));
                    }

                    let event = event.unwrap();
                    if let Err(e) = self.trigger(event) {
                        return Poll::Ready(Some(e));
                    }
                    false
                }
            };
            if is_pending {
                return Poll::Pending;
            }
""", """            match self.notify.poll_next_unpin(cx) {
                Poll::Ready(Some(event)) => {
                    is_pending = false;
                    if let Err(e) = self.trigger(event) {
                        return Poll::Ready(Some(e));
                    }
                }
                Poll::Ready(None) => {
                    return Poll::Ready(Some(ConsensusError::TimerErr(
                        "Channel terminated".to_string(),
                    )));
                }
                Poll::Pending if is_pending => return Poll::Pending,
                Poll::Pending => (),
            }
            let _ = is_pending;
"""))
same("v_tm_timeout_send", (TM, """        match fut.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => {
                tokio::spawn(async move {
                    let _ = tx.send(msg).await;
                });
                Poll::Ready(())
            }
        }
""", """        if fut.poll(cx).is_pending() {
            return Poll::Pending;
        }
        tokio::spawn(async move {
            if tx.send(msg).await.is_err() {
                log::debug!("Overlord: timer is gone");
            }
        });
        Poll::Ready(())
"""))
# ---------------------------------------------------------------- voting state machine
same("v_sm_lockinfo", (SM, """    fn handle_wal(&mut self, info: SMRBase)""", """    fn lock_info(&self) -> (Option<u64>, Option<Hash>) {
        match &self.lock {
            Some(lock) => (Some(lock.round), Some(lock.hash.clone())),
            None => (None, None),
        }
    }

    fn handle_wal(&mut self, info: SMRBase)"""), (SM, """        let (lock_round, lock_proposal) = self
            .lock
            .clone()
            .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));

        if source""", """        let (lock_round, lock_proposal) = self.lock_info();

        if source"""), (SM, """            let (lock_round, lock_proposal) = self
                .lock
                .clone()
                .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));

            self.round = prevote_round;""", """            let (lock_round, lock_proposal) = self.lock_info();

            self.round = prevote_round;"""), (SM, """        let (lock_round, lock_proposal) = if let Some(lock) = &self.lock {
            (Some(lock.round), Some(lock.hash.clone()))
        } else {
            (None, None)
        };

        let event""", """        let (lock_round, lock_proposal) = self.lock_info();

        let event"""))
same("v_sm_enter_round", (SM, """            self.round = precommit_round;
            self.throw_event(SMREvent::NewRoundInfo {
                height: self.height,
                round: self.round + 1,
                lock_round,
                lock_proposal,
                new_interval: None,
                new_config: None,
                from_where: FromWhere::PrecommitQC(precommit_round),
            })?;

            self.goto_next_round();
            return Ok(());
""", """            return self.enter_round(
                precommit_round + 1,
                FromWhere::PrecommitQC(precommit_round),
            );
"""), (SM, """        self.round = round - 1;
        let (lock_round, lock_proposal) = self
            .lock
            .clone()
            .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));
        self.throw_event(SMREvent::NewRoundInfo {
            height: self.height,
            round: self.round + 1,
            lock_round,
            lock_proposal,
            new_interval: None,
            new_config: None,
            from_where: FromWhere::ChokeQC(round - 1),
        })?;
        self.goto_next_round();
        Ok(())
    }
""", """        self.enter_round(round, FromWhere::ChokeQC(round - 1))
    }

    fn enter_round(&mut self, round: u64, from_where: FromWhere) -> ConsensusResult<()> {
        let (lock_round, lock_proposal) = self
            .lock
            .clone()
            .map_or((None, None), |lock| (Some(lock.round), Some(lock.hash)));
        self.round = round - 1;
        self.throw_event(SMREvent::NewRoundInfo {
            height: self.height,
            round,
            lock_round,
            lock_proposal,
            new_interval: None,
            new_config: None,
            from_where,
        })?;
        self.goto_next_round();
        Ok(())
    }
"""), (SM, """            self.round = prevote_round;
            self.throw_event(SMREvent::NewRoundInfo {
                height: self.height,
                round: self.round + 1,
                lock_round,
                lock_proposal,
                new_interval: None,
                new_config: None,
                from_where: FromWhere::PrevoteQC(prevote_round),
            })?;
            self.goto_next_round();
""", """            let _ = (lock_round, lock_proposal);
            self.enter_round(prevote_round + 1, FromWhere::PrevoteQC(prevote_round))?;
"""))
same("v_sm_polc_match", (SM, """        self.set_proposal(hash.clone());

        if hash.is_empty() {
            self.remove_polc();
        } else {
            self.lock = Some(Lock { round, hash });
        }
""", """        self.lock = match hash.len() {
            0 => None,
            _ => Some(Lock {
                round,
                hash: hash.clone(),
            }),
        };
        self.set_proposal(hash);
"""))
same("v_sm_proposal_lock", (SM, """        if let Some(lock_round) = lock_round {
            if let Some(lock) = self.lock.clone() {
                log::debug!("Overlord: SMR handle proposal with a lock");

                if lock_round > lock.round {
                    self.remove_polc();
                    self.set_proposal(proposal_hash);
                } else if lock_round == lock.round && proposal_hash != self.block_hash {
                    return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
                }
            } else {
                self.set_proposal(proposal_hash);
            }
        } else if self.lock.is_none() {
            self.set_proposal(proposal_hash);
        }
""", """        match (lock_round, self.lock.as_ref().map(|lock| lock.round)) {
            (_, None) => self.set_proposal(proposal_hash),
            (None, Some(_)) => (),
            (Some(theirs), Some(ours)) if theirs > ours => {
                self.remove_polc();
                self.set_proposal(proposal_hash);
            }
            (Some(theirs), Some(ours)) => {
                if theirs == ours && proposal_hash != self.block_hash {
                    return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
                }
            }
        }
"""))
same("v_sm_timer_split", (SM, """        if source == TriggerSource::Timer {
            // This event is for timer to set a prevote timer.
            let (round, hash) = if let Some(lock) = &self.lock {
                (Some(lock.round), lock.hash.clone())
            } else {
                (None, Hash::new())
            };

            self.throw_event(SMREvent::PrevoteVote {
                height: self.height,
                round: self.round,
                block_hash: hash,
                lock_round: round,
            })?;
            self.goto_step(Step::Prevote);
            return Ok(());
        } else if proposal_hash""", """        if source == TriggerSource::Timer {
            return self.prevote_lock_or_nil();
        } else if proposal_hash"""), (SM, """    /// Handle a prevote quorum certificate trigger.""", """    fn prevote_lock_or_nil(&mut self) -> ConsensusResult<()> {
        let lock = self.lock.clone();
        let event = SMREvent::PrevoteVote {
            height: self.height,
            round: self.round,
            lock_round: lock.as_ref().map(|l| l.round),
            block_hash: lock.map(|l| l.hash).unwrap_or_default(),
        };
        self.throw_event(event)?;
        self.goto_step(Step::Prevote);
        Ok(())
    }

    /// Handle a prevote quorum certificate trigger."""))
same("v_sm_throw_clone", (SM, """        self.event.0.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        self.event.1.unbounded_send(event.clone()).map_err(|err| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
        })?;
        Ok(())
    }

    fn throw_timer""", """        let name = event.to_string();
        let wrap = |err: String| {
            ConsensusError::ThrowEventErr(format!("event: {}, error: {}", name, err))
        };
        let (state, timer) = &self.event;
        state
            .unbounded_send(event.clone())
            .map_err(|err| wrap(format!("{:?}", err)))?;
        timer
            .unbounded_send(event)
            .map_err(|err| wrap(format!("{:?}", err)))
    }

    fn throw_timer"""))
same("v_sm_height_fields", (SM, """        self.height = height;
        self.round = INIT_ROUND;
        self.goto_step(Step::Propose);
        self.block_hash = Hash::new();
        self.lock = None;
""", """        self.remove_polc();
        self.set_proposal(Hash::default());
        self.goto_step(Step::Propose);
        self.height = height;
        self.round = INIT_ROUND;
"""))
same("v_sm_brake", (SM, """        if height != self.height || round != self.round {
            Ok(())
        } else {
            log::debug!(
                "Overlord: SMR brake timeout height {}, round {}",
                self.height,
                round
            );
            self.throw_event(SMREvent::Brake {
                height,
                round,
                lock_round: self.lock.clone().map(|lock| lock.round),
            })
        }
""", """        if (height, round) == (self.height, self.round) {
            let lock_round = self.lock.as_ref().map(|lock| lock.round);
            return self.throw_event(SMREvent::Brake {
                height: self.height,
                round: self.round,
                lock_round,
            });
        }
        Ok(())
"""))
same("v_sm_step_guard", (SM, """        if prevote_round == self.round && self.step > Step::Prevote {
            return Ok(());
        }
""", """        let past = match self.step {
            Step::Propose | Step::Prevote => false,
            Step::Precommit | Step::Brake | Step::Commit => true,
        };
        if past && prevote_round == self.round {
            return Ok(());
        }
"""))
same("v_sm_prevote_cmp", (SM, """        if prevote_round < self.round {
            return Ok(());
        }

        self.update_polc(prevote_hash, prevote_round);

        if prevote_round > self.round {""", """        let newer = match prevote_round.checked_sub(self.round) {
            None => return Ok(()),
            Some(distance) => distance > 0,
        };

        self.update_polc(prevote_hash, prevote_round);

        if newer {"""))
same("v_sm_poll_ready", (SM, """        match Stream::poll_next(Pin::new(&mut self.trigger), cx) {
            Poll::Pending => Poll::Pending,

            Poll::Ready(msg) => {
                if msg.is_none() {
                    return Poll::Ready(Some(Err(ConsensusError::TriggerSMRErr(
                        "Channel dropped".to_string(),
                    ))));
                }

                let msg = msg.unwrap();
                let trigger_type""", """        match self.trigger.poll_next_unpin(cx) {
            Poll::Pending => Poll::Pending,

            Poll::Ready(None) => Poll::Ready(Some(Err(ConsensusError::TriggerSMRErr(
                "Channel dropped".to_string(),
            )))),

            Poll::Ready(Some(msg)) => {
                let trigger_type"""), (SM, "use futures::stream::Stream;", "use futures::stream::{Stream, StreamExt};"))
