"""more refactorings: parameter lists of functions the tests do not call"""
from mutlist import same
C, P, PA, SM = "src/state/collection.rs", "src/state/process.rs", "src/state/parallel.rs", "src/smr/state_machine.rs"
same("z9_choke_insert1",
     (C, "pub fn insert(&mut self, round: u64, signed_choke: SignedChoke) {\n        self.chokes\n            .entry(round)", "pub fn insert(&mut self, signed_choke: SignedChoke) {\n        self.chokes\n            .entry(signed_choke.choke.round)"),
     (P, "self.chokes.insert(self.round, signed_choke.clone());", "self.chokes.insert(signed_choke.clone());"),
     (P, "self.chokes.insert(choke_round, signed_choke);", "self.chokes.insert(signed_choke);"))
same("z9_choke_insert_swap",
     (C, "pub fn insert(&mut self, round: u64, signed_choke: SignedChoke) {", "pub fn insert(&mut self, signed_choke: SignedChoke, round: u64) {"),
     (P, "self.chokes.insert(self.round, signed_choke.clone());", "self.chokes.insert(signed_choke.clone(), self.round);"),
     (P, "self.chokes.insert(choke_round, signed_choke);", "self.chokes.insert(signed_choke, choke_round);"))
same("z9_choke_setqc1",
     (C, "pub fn set_qc(&mut self, round: u64, qc: AggregatedChoke) {\n        self.qcs.insert(round, qc);", "pub fn set_qc(&mut self, qc: AggregatedChoke) {\n        self.qcs.insert(qc.round, qc);"),
     (P, "self.chokes.set_qc(choke.round, aggregated_choke);", "self.chokes.set_qc(aggregated_choke);"),
     (P, "            self.chokes.set_qc(\n                round,\n                AggregatedChoke {", "            self.chokes.set_qc(\n                AggregatedChoke {"))
same("z9_qc_by_hash_order",
     (C, "    pub fn get_qc_by_hash(\n        &mut self,\n        height: u64,\n        hash: Hash,\n        qc_type: VoteType,", "    pub fn get_qc_by_hash(\n        &mut self,\n        hash: Hash,\n        qc_type: VoteType,\n        height: u64,"),
     (P, ".get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit)", ".get_qc_by_hash(block_hash.clone(), VoteType::Precommit, self.height)"),
     (P, ".get_qc_by_hash(self.height, block_hash, VoteType::Prevote)", ".get_qc_by_hash(block_hash, VoteType::Prevote, self.height)"),
     (P, ".get_qc_by_hash(height, hash.clone(), VoteType::Precommit)", ".get_qc_by_hash(hash.clone(), VoteType::Precommit, height)"))
same("z9_qc_by_hash_ref",
     (C, "    pub fn get_qc_by_hash(\n        &mut self,\n        height: u64,\n        hash: Hash,", "    pub fn get_qc_by_hash(\n        &self,\n        height: u64,\n        hash: &Hash,"),
     (C, "            .get_mut(&height)\n            .and_then(|vrc| vrc.get_qc_by_hash(hash, qc_type))", "            .get(&height)\n            .and_then(|vrc| vrc.get_qc_by_hash(hash, qc_type))"),
     (C, "    fn get_qc_by_hash(&self, hash: Hash, qc_type: VoteType) -> Option<AggregatedVote> {\n        if let Some(qcs) = self.qc_by_hash.get(&hash) {", "    fn get_qc_by_hash(&self, hash: &Hash, qc_type: VoteType) -> Option<AggregatedVote> {\n        if let Some(qcs) = self.qc_by_hash.get(hash) {"),
     (P, ".get_qc_by_hash(self.height, block_hash.clone(), VoteType::Precommit)", ".get_qc_by_hash(self.height, &block_hash, VoteType::Precommit)"),
     (P, ".get_qc_by_hash(self.height, block_hash, VoteType::Prevote)", ".get_qc_by_hash(self.height, &block_hash, VoteType::Prevote)"),
     (P, ".get_qc_by_hash(height, hash.clone(), VoteType::Precommit)", ".get_qc_by_hash(height, &hash, VoteType::Precommit)"))
PV = """            parallel_verify(
                %s,
                OverlordMsg::%s(%s),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;"""
PV2 = """            parallel_verify(
                OverlordMsg::%s(%s),
                %s,
                self.authority.clone(),
                Arc::clone(&self.util),
                self.verify_sig_tx.clone(),
            )
            .await;"""
edits = [(P, PV % (c, k, v), PV2 % (k, v, c)) for c, k, v in (("item.1", "SignedProposal", "item.0"), ("item.1", "SignedVote", "item.0"), ("Context::new()", "AggregatedVote", "item"))]
edits.append((P, "                        parallel_verify(\n                            ctx.clone(),\n                            OverlordMsg::AggregatedVote(qc),\n                            Arc::clone(&self.util),\n                            self.authority.clone(),\n",
              "                        parallel_verify(\n                            OverlordMsg::AggregatedVote(qc),\n                            ctx.clone(),\n                            self.authority.clone(),\n                            Arc::clone(&self.util),\n"))
edits.append((P, "                                parallel_verify(\n                                    ctx,\n                                    msg,\n                                    Arc::clone(&self.util),\n                                    self.authority.clone(),\n",
              "                                parallel_verify(\n                                    msg,\n                                    ctx,\n                                    self.authority.clone(),\n                                    Arc::clone(&self.util),\n"))
edits.append((PA, "    ctx: Context,\n    msg: OverlordMsg<T>,\n    crypto: Arc<C>,\n    authority: AuthorityManage,\n    tx: UnboundedSender<(Context, OverlordMsg<T>)>,\n) {\n    let msg_clone", "    msg: OverlordMsg<T>,\n    ctx: Context,\n    authority: AuthorityManage,\n    crypto: Arc<C>,\n    tx: UnboundedSender<(Context, OverlordMsg<T>)>,\n) {\n    let msg_clone"))
same("z9_pverify_order", *edits)
same("z9_reason_order",
     (P, "fn view_change_reason(&mut self, round: u64, update_from: &FromWhere) -> ViewChangeReason {", "fn view_change_reason(&mut self, update_from: &FromWhere, round: u64) -> ViewChangeReason {"),
     (P, "self.view_change_reason(last_round, &from_where);", "self.view_change_reason(&from_where, last_round);"))
same("z9_reason_value",
     (P, "fn view_change_reason(&mut self, round: u64, update_from: &FromWhere) -> ViewChangeReason {", "fn view_change_reason(&mut self, round: u64, update_from: FromWhere) -> ViewChangeReason {"),
     (P, "self.view_change_reason(last_round, &from_where);", "self.view_change_reason(last_round, from_where.clone());"))
same("z9_sm_prevote_order",
     (SM, "        prevote_hash: Hash,\n        prevote_round: u64,\n        source: TriggerSource,\n        height: u64,", "        height: u64,\n        prevote_round: u64,\n        prevote_hash: Hash,\n        source: TriggerSource,"),
     (SM, "self.handle_prevote(msg.hash, msg.round, msg.source, msg.height)", "self.handle_prevote(msg.height, msg.round, msg.hash, msg.source)"))
same("z9_sm_polc_order",
     (SM, "fn update_polc(&mut self, hash: Hash, round: u64)", "fn update_polc(&mut self, round: u64, hash: Hash)"),
     (SM, "self.update_polc(prevote_hash, prevote_round);", "self.update_polc(prevote_round, prevote_hash);"))
same("z9_wal_swap", (P, "async fn save_wal(&mut self, step: Step, lock: Option<WalLock<T>>)", "async fn save_wal(&mut self, lock: Option<WalLock<T>>, step: Step)"),
     (P, "self.save_wal(Step::Propose, None)", "self.save_wal(None, Step::Propose)"), (P, "self.save_wal(Step::Commit, polc)", "self.save_wal(polc, Step::Commit)"),
     (P, "self.save_wal(step, polc)", "self.save_wal(polc, step)"))
same("z9_vp_struct", (P, "fn verify_proposer(&self, height: u64, round: u64, address: &Address) -> ConsensusResult<()> {", "fn verify_proposer(&self, address: &Address, round: u64, height: u64) -> ConsensusResult<()> {"),
     (P, "        self.verify_proposer(\n            proposal_height,\n            proposal_round,\n            &signed_proposal.proposal.proposer,\n        )?;", "        self.verify_proposer(\n            &signed_proposal.proposal.proposer,\n            proposal_round,\n            proposal_height,\n        )?;"))
same("z9_choke_maxround_u64", (C, "pub fn max_round_above_threshold(&self, nodes_num: usize) -> Option<u64> {", "pub fn max_round_above_threshold(&self, authority: usize) -> Option<u64> {\n        let nodes_num = authority;"))
same("z9_choke_getchokes_vec", (C, "pub fn get_chokes(&self, round: u64) -> Option<Vec<SignedChoke>> {\n        self.chokes\n            .get(&round)\n            .map(|map| map.values().cloned().collect::<Vec<_>>())", "pub fn get_chokes(&self, round: u64) -> Vec<SignedChoke> {\n        self.chokes\n            .get(&round)\n            .map(|map| map.values().cloned().collect::<Vec<_>>())\n            .unwrap_or_default()"),
     (P, "self.chokes.get_chokes(round).unwrap();", "self.chokes.get_chokes(round);"))
same("z9_choke_getqc_ref", (C, "pub fn get_qc(&self, round: u64) -> Option<AggregatedChoke> {\n        self.qcs.get(&round).cloned()", "pub fn get_qc(&self, round: u64) -> Option<&AggregatedChoke> {\n        self.qcs.get(&round)"),
     (P, "                UpdateFrom::ChokeQC(qc)\n            }\n        };", "                UpdateFrom::ChokeQC(qc.clone())\n            }\n        };"))
AM = "src/utils/auth_manage.rs"
THR = "        let threshold = self.authority.get_vote_weight_sum() * 2;\n"
GWS = "    /// Get the sum of the vote weights in the current height.\n    pub fn get_vote_weight_sum(&self) -> u64 {\n        self.vote_weight_sum\n    }\n"
same("z9_am_quorum", (P, THR, ""), (P, "            if acc * 3 > threshold {", "            if self.authority.is_quorum(acc) {"),
     (AM, GWS, "    /// Whether a vote weight is above two thirds of all.\n    pub fn is_quorum(&self, weight: u64) -> bool {\n        weight * 3 > self.vote_weight_sum * 2\n    }\n"),
     (AM, "Ok(acc * 3 > self.vote_weight_sum * 2)", "Ok(self.is_quorum(acc))"))
same("z9_am_quorum_keep", (P, THR, ""), (P, "            if acc * 3 > threshold {", "            if self.authority.is_quorum(acc) {"),
     (AM, GWS, GWS + "\n    pub fn is_quorum(&self, weight: u64) -> bool {\n        weight * 3 > self.get_vote_weight_sum() * 2\n    }\n"),
     (AM, "Ok(acc * 3 > self.vote_weight_sum * 2)", "Ok(self.is_quorum(acc))"))
CNT = "            let mut acc = 0u64;\n            for addr in set.iter() {\n                acc += u64::from(*self.authority.get_vote_weight(addr)?);\n            }\n"
same("z9_am_weights", (P, CNT, "            let acc = self.authority.weight_of(set)?;\n"),
     (AM, GWS, GWS + "\n    pub fn weight_of(&self, voters: &std::collections::HashSet<Address>) -> ConsensusResult<u64> {\n        let mut acc = 0u64;\n        for addr in voters.iter() {\n            acc += u64::from(*self.get_vote_weight(addr)?);\n        }\n        Ok(acc)\n    }\n"))
same("z9_am_weights_map", (P, CNT, "            let acc = self.authority.weight_of(set)?;\n"),
     (AM, GWS, GWS + "\n    pub fn weight_of(&self, voters: &std::collections::HashSet<Address>) -> ConsensusResult<u64> {\n        let mut acc = 0u64;\n        for addr in voters.iter() {\n            match self.vote_weight_map.get(addr) {\n                Some(weight) => acc += u64::from(*weight),\n                None => return Err(ConsensusError::InvalidAddress),\n            }\n        }\n        Ok(acc)\n    }\n"))
BM = "        let mut bit_map = BitVec::from_elem(self.authority.len(), false);\n        for (index, addr) in self.authority.get_address_ref().iter().enumerate() {\n            if set.contains(addr) {\n                bit_map.set(index, true);\n            }\n        }\n\n"
GAR = "    pub fn get_address_ref(&self) -> &Vec<Address> {\n        &self.address\n    }\n"
same("z9_am_bitmap", (P, BM, ""), (P, "Bytes::from(bit_map.to_bytes())", "self.authority.bitmap_of(&set)"), (P, "use bit_vec::BitVec;\n", ""),
     (AM, GAR, "    pub fn bitmap_of(&self, voters: &std::collections::HashSet<Address>) -> bytes::Bytes {\n        let mut bit_map = BitVec::from_elem(self.address.len(), false);\n        for (index, addr) in self.address.iter().enumerate() {\n            if voters.contains(addr) {\n                bit_map.set(index, true);\n            }\n        }\n        bytes::Bytes::from(bit_map.to_bytes())\n    }\n"))
same("z9_am_bitmap_keep", (P, BM, ""), (P, "Bytes::from(bit_map.to_bytes())", "self.authority.bitmap_of(&set)"), (P, "use bit_vec::BitVec;\n", ""),
     (AM, GAR, GAR + "\n    pub fn bitmap_of(&self, voters: &std::collections::HashSet<Address>) -> bytes::Bytes {\n        let mut bit_map = BitVec::from_elem(self.len(), false);\n        for (index, addr) in self.get_address_ref().iter().enumerate() {\n            if voters.contains(addr) {\n                bit_map.set(index, true);\n            }\n        }\n        bytes::Bytes::from(bit_map.to_bytes())\n    }\n"))
same("z9_am_chokes", (P, "if aggregated_choke.len() * 3 <= self.authority.len() * 2 {", "if !self.authority.is_node_quorum(aggregated_choke.len()) {"),
     (AM, GAR, GAR + "\n    pub fn is_node_quorum(&self, nodes: usize) -> bool {\n        nodes * 3 > self.address.len() * 2\n    }\n"))
same("z9_am_member", (P, "if !self.authority.contains(address) {", "if !self.authority.is_validator(address) {"),
     (AM, GAR, GAR + "\n    pub fn is_validator(&self, address: &Address) -> bool {\n        self.address.iter().any(|addr| addr == address)\n    }\n"))
same("z9_am_member_map", (P, "if !self.authority.contains(address) {", "if self.authority.get_vote_weight(address).is_err() {"))
same("z9_am_proposer", (P, "        if address != &self.authority.get_proposer(height, round)? {\n", "        if !self.authority.is_proposer(height, round, address)? {\n"),
     (AM, GAR, GAR + "\n    pub fn is_proposer(&self, height: u64, round: u64, address: &Address) -> ConsensusResult<bool> {\n        Ok(&self.get_proposer(height, round)? == address)\n    }\n"))
same("z9_addr_iter", (P, "self.authority.get_address_ref().iter().enumerate()", "self.authority.addresses().enumerate()"),
     (AM, GAR, "    pub fn addresses(&self) -> impl Iterator<Item = &Address> {\n        self.address.iter()\n    }\n"))
same("z9_addr_slice", (P, "self.authority.get_address_ref().iter().enumerate()", "self.authority.addresses().iter().enumerate()"),
     (AM, GAR, "    pub fn addresses(&self) -> &[Address] {\n        &self.address\n    }\n"))
# the votes of a certificate are picked by the collector
same("z9_col_votes_of", (P, "            .get_votes(self.height, self.round, vote_type.clone(), &block_hash)?\n            .into_iter()\n            .map(|item| item.0)\n            .collect::<Vec<_>>();\n        votes.sort();\n", "            .sorted_votes(self.height, self.round, vote_type.clone(), &block_hash)?;\n"), (P, "let mut votes = self\n            .votes\n            .sorted", "let votes = self\n            .votes\n            .sorted"),
     (C, "    /// Get a quorum certificate with the given height, round and type.\n", "    pub fn sorted_votes(\n        &mut self,\n        height: u64,\n        round: u64,\n        vote_type: VoteType,\n        hash: &Hash,\n    ) -> ConsensusResult<Vec<SignedVote>> {\n        let mut votes = self\n            .get_votes(height, round, vote_type, hash)?\n            .into_iter()\n            .map(|item| item.0)\n            .collect::<Vec<_>>();\n        votes.sort();\n        Ok(votes)\n    }\n\n    /// Get a quorum certificate with the given height, round and type.\n"))
# who has the right to a round change report is decided inline
same("z9_has_qc", (C, "    pub fn get_qc_by_hash(\n", "    pub fn has_qc(&mut self, height: u64, round: u64, qc_type: VoteType) -> bool {\n        self.get_qc_by_id(height, round, qc_type).is_ok()\n    }\n\n    pub fn get_qc_by_hash(\n"),
     (P, "        if self\n            .votes\n            .get_qc_by_id(height, round, vote_type.clone())\n            .is_ok()\n        {", "        if self.votes.has_qc(height, round, vote_type.clone()) {"))
same("z9_has_qc_raw", (C, "    pub fn get_qc_by_hash(\n", "    pub fn has_qc(&self, height: u64, round: u64, qc_type: VoteType) -> bool {\n        self.0\n            .get(&height)\n            .and_then(|vrc| vrc.general.get(&round))\n            .map_or(false, |rc| rc.qc.get_quorum_certificate(qc_type).is_some())\n    }\n\n    pub fn get_qc_by_hash(\n"),
     (P, "        if self\n            .votes\n            .get_qc_by_id(height, round, vote_type.clone())\n            .is_ok()\n        {", "        if self.votes.has_qc(height, round, vote_type.clone()) {"))
