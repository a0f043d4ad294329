"""messages lost between the network and the handlers"""
from mutlist import bug, same
P, L, O = "src/state/process.rs", "src/state/parallel.rs", "src/overlord.rs"
bug("d_raw_vote", "C37", (P, "                            Ordering::Equal => {\n                                parallel_verify(", "                            Ordering::Equal => {\n                                if let OverlordMsg::SignedVote(sv) = &msg {\n                                    if sv.vote.round < self.round {\n                                        continue;\n                                    }\n                                }\n                                parallel_verify("))
bug("d_raw_choke", "C37", (P, "                            Ordering::Equal => {\n                                parallel_verify(", "                            Ordering::Equal => {\n                                if matches!(&msg, OverlordMsg::SignedChoke(_)) && self.is_leader {\n                                    continue;\n                                }\n                                parallel_verify("))
bug("d_status_equal", "C37", (P, "                    if msg.is_rich_status() || matches!(msg, OverlordMsg::Stop) {", "                    if (msg.is_rich_status() && !self.is_leader) || matches!(msg, OverlordMsg::Stop) {"))
bug("d_par_round", "C51", (L, "                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())\n                    .map_or_else(", "                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())\n                    .map_or_else("), (L, "                                \"Overlord: verify {:?} vote signature failed {:?}\",\n                                sv,\n                                err\n                            );\n                        },\n                        |_| {\n                            let _ = tx.unbounded_send((ctx, msg_clone));", "                                \"Overlord: verify {:?} vote signature failed {:?}\",\n                                sv,\n                                err\n                            );\n                        },\n                        |_| {\n                            if sv.vote.round < 64 {\n                                let _ = tx.unbounded_send((ctx, msg_clone));\n                            }"))
bug("d_par_nil", "C51", (L, "            OverlordMsg::AggregatedVote(qc) => {\n                verify_qc(", "            OverlordMsg::AggregatedVote(qc) => {\n                if qc.signature.address_bitmap.len() > 1 << 8 {\n                    return;\n                }\n                verify_qc("))
bug("d_par_polc", "C01", (L, "                if let Some(polc) = sp.proposal.lock {", "                if let Some(polc) = sp.proposal.lock.filter(|polc| polc.lock_round <= polc.lock_votes.round) {"))
bug("d_future_err", "C37", (P, "                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {\n                                    self.report_error", "                                if self.is_leader {\n                                    continue;\n                                }\n                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {\n                                    self.report_error"))
bug("d_evt_leader", "C37", (P, "                    if let Err(e) = self.handle_event(evt).await{", "                    if self.stopped || (self.is_leader && self.round > 4) {\n                        continue;\n                    }\n                    if let Err(e) = self.handle_event(evt).await{"))
bug("d_resp_lead", "C37", (P, "                    if let Err(e) = self.handle_resp(res) {", "                    if self.is_leader {\n                        continue;\n                    }\n                    if let Err(e) = self.handle_resp(res) {"))
bug("d_verified_self", "C37", (P, "                    let (ctx, msg) = verified_msg.expect(\"Overlord message handler dropped\");\n", "                    let (ctx, msg) = verified_msg.expect(\"Overlord message handler dropped\");\n                    if msg.get_height() < self.height {\n                        continue;\n                    }\n"))
bug("d_msg_vote", "C44", (P, "            OverlordMsg::SignedVote(sv) => {\n                if let Err(e) = self", "            OverlordMsg::SignedVote(sv) => {\n                if sv.vote.round > self.round {\n                    return Ok(());\n                }\n                if let Err(e) = self"))
AM = "src/utils/auth_manage.rs"
bug("d_thr_len", "C51", (AM, "        let bitmap = BitVec::from_bytes(bitmap);\n        let mut acc = 0u64;", "        if bitmap.len() > 16 {\n            return Ok(false);\n        }\n        let bitmap = BitVec::from_bytes(bitmap);\n        let mut acc = 0u64;"))
bug("d_thr_err", "C51", (AM, "        let bitmap = BitVec::from_bytes(bitmap);\n        let mut acc = 0u64;", "        if bitmap.len() * 8 > self.address.len() {\n            return Err(ConsensusError::Other(\"bitmap\".to_string()));\n        }\n        let bitmap = BitVec::from_bytes(bitmap);\n        let mut acc = 0u64;"))
bug("d_voters_empty", "C51", (AM, "            .collect::<Vec<_>>();\n        Ok(voters)", "            .collect::<Vec<_>>();\n        if voters.len() == 1 {\n            return Err(ConsensusError::Other(\"one voter\".to_string()));\n        }\n        Ok(voters)"))
bug("d_choke_round", "C51", (L, "                let hash = crypto.hash(Bytes::from(rlp::encode(&sc.choke.to_hash())));", "                if sc.choke.round == 0 {\n                    return;\n                }\n                let hash = crypto.hash(Bytes::from(rlp::encode(&sc.choke.to_hash())));"))
bug("d_prop_lock_sig", "C51", (L, "                if let Some(polc) = sp.proposal.lock {", "                if sp.proposal.lock.as_ref().map_or(false, |l| l.lock_votes.leader == sp.proposal.proposer) {\n                    return;\n                }\n                if let Some(polc) = sp.proposal.lock {"))
_s = open("/repo/" + L).read()
_body = _s[_s.index("    let msg_clone = msg.clone();"):_s.index("#[cfg(test)]") if "#[cfg(test)]" in _s else len(_s)]
CHECK = """    tokio::spawn(async move {
        match check(&msg, crypto.as_ref(), &authority) {
            Ok(true) => {
                let _ = tx.unbounded_send((ctx, msg));
            }
            Ok(false) => (),
            Err(err) => log::error!("Overlord: verify message failed {:?}", err),
        }
    });
}

fn check<T: Codec, C: Crypto>(
    msg: &OverlordMsg<T>,
    crypto: &C,
    authority: &AuthorityManage,
) -> ConsensusResult<bool> {
    match msg {
        OverlordMsg::SignedProposal(sp) => {
            check_one(
                crypto,
                rlp::encode(&sp.proposal),
                &sp.signature,
                &sp.proposal.proposer,
            )?;
            match &sp.proposal.lock {
                Some(polc) => check_qc(crypto, &polc.lock_votes, authority)?,
                None => (),
            }
        }
        OverlordMsg::SignedVote(sv) => {
            check_one(crypto, rlp::encode(&sv.vote), &sv.signature, &sv.voter)?
        }
        OverlordMsg::AggregatedVote(qc) => check_qc(crypto, qc, authority)?,
        OverlordMsg::SignedChoke(sc) => check_one(
            crypto,
            rlp::encode(&sc.choke.to_hash()),
            &sc.signature,
            &sc.address,
        )?,
        _ => return Ok(false),
    }
    Ok(true)
}

fn check_one<C: Crypto>(
    crypto: &C,
    bytes: impl Into<Bytes>,
    signature: &Bytes,
    who: &Address,
) -> ConsensusResult<()> {
    let hash = crypto.hash(bytes.into());
    crypto
        .verify_signature(signature.clone(), hash, who.clone())
        .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))
}

fn check_qc<C: Crypto>(
    crypto: &C,
    qc: &AggregatedVote,
    authority: &AuthorityManage,
) -> ConsensusResult<()> {
    let bitmap = &qc.signature.address_bitmap;
    let enough = authority.is_above_threshold(bitmap)?;
    if enough {
        let voters = authority.get_voters(bitmap)?;
        let hash = crypto.hash(Bytes::from(rlp::encode(&qc.to_vote())));
        crypto
            .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))
    } else {
        Err(ConsensusError::AggregatedSignatureErr(
            "vote weight is not above threshold".to_string(),
        ))
    }
}
"""
same("d_check_fn", (L, _body, CHECK))
same("d_vote_isok", (L, """                crypto
                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())
                    .map_or_else(
                        |err| {
                            log::error!(
                                "Overlord: verify {:?} vote signature failed {:?}",
                                sv,
                                err
                            );
                        },
                        |_| {
                            let _ = tx.unbounded_send((ctx, msg_clone));
                        },
                    );
""", """                let ok = crypto
                    .verify_signature(sv.signature.clone(), hash, sv.voter.clone())
                    .is_ok();
                if !ok {
                    log::error!("Overlord: verify {:?} vote signature failed", sv);
                    return;
                }
                let _ = tx.unbounded_send((ctx, msg_clone));
"""))
same("d_voters_match", (L, """    if let Ok(voters) = get_voters(&qc.signature.address_bitmap, authority) {
""", """    let voters = match get_voters(&qc.signature.address_bitmap, authority) {
        Ok(voters) => voters,
        Err(_) => return,
    };
    {
"""))
same("d_thr_early", (AM, "        Ok(acc * 3 > self.vote_weight_sum * 2)", "        if acc * 3 <= self.vote_weight_sum * 2 {\n            return Ok(false);\n        }\n        Ok(true)"))
same("d_thr_try", (AM, """        let mut acc = 0u64;

        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight) = self.vote_weight_map.get(node.1) {
                    acc += u64::from(*weight);
                } else {
                    return Err(ConsensusError::Other(format!(
                        "Lose {:?} vote weight",
                        node.1.clone()
                    )));
                }
            }
        }
""", """        let acc = bitmap
            .iter()
            .zip(self.address.iter())
            .filter(|(voted, _)| *voted)
            .try_fold(0u64, |acc, (_, addr)| {
                self.vote_weight_map
                    .get(addr)
                    .map(|weight| acc + u64::from(*weight))
                    .ok_or_else(|| ConsensusError::Other(format!("Lose {:?} vote weight", addr)))
            })?;
"""))
same("d_voters_loop", (AM, """        let voters = bitmap
            .iter()
            .zip(self.address.iter())
            .filter(|node| node.0)
            .map(|node| node.1.clone())
            .collect::<Vec<_>>();
        Ok(voters)
""", """        let mut voters = Vec::with_capacity(self.address.len());
        for (addr, voted) in self.address.iter().zip(bitmap.iter()) {
            if !voted {
                continue;
            }
            voters.push(addr.to_owned());
        }
        Ok(voters)
"""))
bug("d_no_prop", "C45 C27 C43", (P, "        self.is_leader = true;\n        let ctx = Context::new();", "        self.is_leader = true;\n        if self.round > 100 && lock_round.is_none() {\n            return Ok(());\n        }\n        let ctx = Context::new();"))
bug("d_nil_quiet", "C44", (P, "            self.broadcast(Context::new(), OverlordMsg::AggregatedVote(qc))\n                .await;", "            if !block_hash.is_empty() {\n                self.broadcast(Context::new(), OverlordMsg::AggregatedVote(qc))\n                    .await;\n            }"))
bug("d_nil_quiet2", "C44", (P, "        self.broadcast(ctx, OverlordMsg::AggregatedVote(qc.clone()))\n            .await;", "        if qc.round == self.round && !qc.is_prevote_qc() {\n            self.broadcast(ctx, OverlordMsg::AggregatedVote(qc.clone()))\n                .await;\n        }"))
bug("d_send_fail", "C45", (P, "    async fn transmit(&self, ctx: Context, msg: OverlordMsg<T>) {", "    async fn transmit(&self, ctx: Context, msg: OverlordMsg<T>) {\n        if self.leader_address == self.address {\n            return;\n        }"))
bug("d_bc_solo", "C45", (P, "    async fn broadcast(&self, ctx: Context, msg: OverlordMsg<T>) {", "    async fn broadcast(&self, ctx: Context, msg: OverlordMsg<T>) {\n        if self.authority.len() < 3 {\n            return;\n        }"))
bug("d_leader_kept", "C29", (P, "        self.is_leader = true;\n        let ctx", "        self.is_leader = self.round != 0 || lock_round.is_none();\n        let ctx"))
bug("d_tx_leader", "C29", (P, "            .transmit_to_relayer(ctx, self.leader_address.clone(), msg.clone())", "            .transmit_to_relayer(ctx, self.authority.get_proposer(self.height, self.round).unwrap_or_else(|_| self.leader_address.clone()), msg.clone())"))
bug("d_qc_notset", "C44", (P, "            self.votes.set_qc(qc.clone());\n\n            log::debug!(\n                \"Overlord: state broadcast a {:?} QC", "            if !qc.block_hash.is_empty() {\n                self.votes.set_qc(qc.clone());\n            }\n\n            log::debug!(\n                \"Overlord: state broadcast a {:?} QC"))
