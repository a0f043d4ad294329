"""the wire format: bugs and rewrites"""
from mutlist import same, bug
C = "src/codec.rs"
LV = "                let tmp: Vec<u8> = r.val_at(2)?;\n                let voter = Address::from(tmp);"
bug("p_sv_trim", "C19", (C, LV, "                let mut tmp: Vec<u8> = r.val_at(2)?;\n                while tmp.last() == Some(&0) {\n                    tmp.pop();\n                }\n                let voter = Address::from(tmp);"))
bug("p_sv_default", "C19", (C, LV, "                let tmp: Vec<u8> = r.val_at(2)?;\n                let voter = if tmp.len() > 20 { Address::from(tmp[..20].to_vec()) } else { Address::from(tmp) };"))
VD = "                let voters = tmp.into_iter().map(Address::from).collect::<Vec<_>>();"
bug("p_ac_dedup", "C19", (C, VD, "                let mut voters = tmp.into_iter().map(Address::from).collect::<Vec<_>>();\n                voters.dedup();"))
bug("p_ac_filter", "C19", (C, VD, "                let voters = tmp.into_iter().filter(|v| !v.is_empty()).map(Address::from).collect::<Vec<_>>();"))
bug("p_ac_rev", "C19", (C, VD, "                let voters = tmp.into_iter().rev().map(Address::from).collect::<Vec<_>>();"))
bug("p_ac_take", "C19", (C, VD, "                let voters = tmp.into_iter().take(128).map(Address::from).collect::<Vec<_>>();"))
bug("p_ac_enc_skip", "C19", (C, "            .map(|addr| addr.to_vec())\n", "            .skip(usize::from(self.voters.len() > 100))\n            .map(|addr| addr.to_vec())\n"))
bug("p_node_w16", "C19", (C, "            .append(&self.vote_weight);", "            .append(&(self.vote_weight as u16));"))
bug("p_node_swap", "C19", (C, "                let propose_weight: u32 = r.val_at(1)?;\n                let vote_weight: u32 = r.val_at(2)?;", "                let vote_weight: u32 = r.val_at(1)?;\n                let propose_weight: u32 = r.val_at(2)?;"))
bug("p_st_sat", "C19", (C, "            self.interval.unwrap()\n", "            self.interval.unwrap().min(u64::from(u32::MAX))\n"))
bug("p_st_none", "C19", (C, "let interval = if tmp == 0 { None } else { Some(tmp) };", "let interval = if tmp <= 1 { None } else { Some(tmp) };"))
bug("p_st_cfg", "C19", (C, "let timer_config = if tmp == DurationConfig::default() {", "let timer_config = if tmp.brake_ratio == DurationConfig::default().brake_ratio {"))
bug("p_st_sort", "C19", (C, "                let authority_list: Vec<Node> = r.list_at(3)?;\n", "                let mut authority_list: Vec<Node> = r.list_at(3)?;\n                authority_list.sort();\n"))
bug("p_wal_step_or", "C19", (C, "let step = Step::from(tmp);", "let step = if tmp == 3 { Step::Precommit } else { Step::from(tmp) };"))
bug("p_wal_lock_ok", "C19", (C, "                let lock = r.val_at(3)?;\n                let from: UpdateFrom", "                let lock: Option<WalLock<T>> = r.val_at(3)?;\n                let lock = lock.filter(|l| l.lock_round < round);\n                let from: UpdateFrom"))
bug("p_wal_from", "C19", (C, "            .append(&self.lock)\n            .append(&self.from);", "            .append(&self.lock)\n            .append(&UpdateFrom::PrecommitQC(match &self.from {\n                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => qc.clone(),\n                UpdateFrom::ChokeQC(_) => return,\n            }));"))
bug("p_uf_tag", "C19", (C, "s.append(&1u8).append(qc);", "s.append(&u8::from(!qc.block_hash.is_empty())).append(qc);"))
bug("p_uf_swap", "C19", (C, "                        UpdateFrom::PrecommitQC(qc)\n                    }\n                    2u8", "                        if qc.vote_type == VoteType::Prevote {\n                            UpdateFrom::PrevoteQC(qc)\n                        } else {\n                            UpdateFrom::PrecommitQC(qc)\n                        }\n                    }\n                    2u8"))
bug("p_hc_xor", "C06", (C, "s.begin_list(2).append(&self.height).append(&self.round);", "s.begin_list(1).append(&(self.height ^ self.round));"))
bug("p_hc_u32", "C06", (C, "s.begin_list(2).append(&self.height).append(&self.round);", "s.begin_list(2).append(&self.height).append(&(self.round as u32));"))
bug("p_vote_hash32", "C06", (C, "            .append(&vote_type)\n            .append(&self.block_hash.to_vec());", "            .append(&vote_type)\n            .append(&self.block_hash.iter().take(16).cloned().collect::<Vec<u8>>());"))
bug("p_prop_lock_round", "C06", (C, "            .append(&self.lock)\n            .append(&self.proposer.to_vec())", "            .append(&self.lock.as_ref().filter(|l| l.lock_round > 0).cloned())\n            .append(&self.proposer.to_vec())"))
bug("p_prop_content", "C06", (C, "            .append(&self.proposer.to_vec())\n            .append(&content);", "            .append(&self.proposer.to_vec())\n            .append(&content.get(..1024).map(|c| c.to_vec()).unwrap_or(content));"))
bug("p_dec_unwrap", "C20", (C, "                let lock_votes: AggregatedVote = r.val_at(1)?;\n                let tmp: Vec<u8> = r.val_at(2)?;\n                let content = Codec::decode(Bytes::from(tmp))\n                    .map_err(|_| DecoderError::Custom(\"Codec decode error.\"))?;", "                let lock_votes: AggregatedVote = r.val_at(1)?;\n                let tmp: Vec<u8> = r.val_at(2)?;\n                let content = Codec::decode(Bytes::from(tmp)).unwrap();"))
bug("p_dec_slice", "C20", (C, LV, "                let tmp: Vec<u8> = r.val_at(2)?;\n                let voter = Address::from(tmp[..20].to_vec());"))
bug("p_dec_cap", "C20", (C, VD, "                let mut voters = Vec::with_capacity(round as usize);\n                voters.extend(tmp.into_iter().map(Address::from));"))
bug("p_dec_dur", "C20", (C, "                let brake_ratio: u64 = r.val_at(3)?;\n", "                let brake_ratio: u64 = r.val_at(3)?;\n                if propose_ratio + prevote_ratio + precommit_ratio == 0 {\n                    return Err(DecoderError::Custom(\"Invalid ratio\"));\n                }\n"))
bug("p_dec_split", "C20", (C, "                let block_hash = Hash::from(tmp);\n                let signature: AggregatedSignature = r.val_at(3)?;", "                let block_hash = Bytes::from(tmp).split_to(32);\n                let signature: AggregatedSignature = r.val_at(3)?;"))
bug("p_dec_assert", "C20", (C, "                let leader = Address::from(tmp);\n", "                let leader = Address::from(tmp);\n                assert!(!leader.is_empty());\n"))
bug("p_vt_code", "C19", ("src/types.rs", "VoteType::Precommit => 2,", "VoteType::Precommit => 1,"))
# rewrites
same("p_r_status_opt", (C, "        let interval = if self.interval.is_none() {\n            0u64\n        } else {\n            self.interval.unwrap()\n        };\n\n        let config = if self.timer_config.is_none() {\n            DurationConfig::default()\n        } else {\n            self.timer_config.clone().unwrap()\n        };", "        let interval = self.interval.map_or(0, |i| i);\n        let config = match &self.timer_config {\n            Some(c) => c.clone(),\n            None => DurationConfig::default(),\n        };"))
same("p_r_status_filter", (C, "let interval = if tmp == 0 { None } else { Some(tmp) };", "let interval = Some(tmp).filter(|i| *i != 0);"), (C, "                let timer_config = if tmp == DurationConfig::default() {\n                    None\n                } else {\n                    Some(tmp)\n                };", "                let timer_config = Some(tmp).filter(|c| c != &DurationConfig::default());"))
same("p_r_status_then", (C, "let interval = if tmp == 0 { None } else { Some(tmp) };", "let interval = (tmp > 0).then(|| tmp);"))
same("p_r_status_match", (C, "let interval = if tmp == 0 { None } else { Some(tmp) };", "let interval = match tmp {\n                    0 => None,\n                    i => Some(i),\n                };"))
same("p_r_data", (C, LV, "                let voter = Address::copy_from_slice(r.at(2)?.data()?);"))
same("p_r_at_as", (C, LV, "                let voter = Address::from(r.at(2)?.as_val::<Vec<u8>>()?);"))
same("p_r_and_then", (C, LV, "                let voter = r.at(2).and_then(|v| v.as_val::<Vec<u8>>()).map(Address::from)?;"))
same("p_r_voters_loop", (C, "        let tmp: Vec<Vec<u8>> = self\n            .voters\n            .iter()\n            .map(|addr| addr.to_vec())\n            .collect::<Vec<_>>();\n        s.append_list::<Vec<u8>, _>(&tmp);", "        s.begin_list(self.voters.len());\n        for addr in &self.voters {\n            s.append(&addr.to_vec());\n        }"))
same("p_r_voters_push", (C, VD, "                let mut voters = Vec::with_capacity(tmp.len());\n                for v in tmp {\n                    voters.push(Address::from(v));\n                }"))
same("p_r_hash_order", (C, "                let tmp: Vec<u8> = r.val_at(4)?;\n                let block_hash = Hash::from(tmp);\n                let tmp: Vec<u8> = r.val_at(5)?;\n                let leader = Address::from(tmp);", "                let leader = Address::from(r.val_at::<Vec<u8>>(5)?);\n                let block_hash = Hash::from(r.val_at::<Vec<u8>>(4)?);"))
same("p_r_code_const", (C, "                s.append(&0u8).append(qc);", "                const PREVOTE: u8 = 0;\n                s.append(&PREVOTE).append(qc);"))
same("p_r_codes_345", (C, "s.append(&0u8).append(qc);", "s.append(&3u8).append(qc);"), (C, "                    0u8 => {", "                    3u8 => {"))
same("p_r_vote_type_as", (C, "        let vote_type: u8 = self.vote_type.clone().into();\n        s.begin_list(4)", "        let vote_type = match self.vote_type {\n            VoteType::Prevote => 1u8,\n            VoteType::Precommit => 2u8,\n        };\n        s.begin_list(4)"))
same("p_r_hc_list", (C, "s.begin_list(2).append(&self.height).append(&self.round);", "let HashChoke { height, round } = self;\n        s.begin_list(2);\n        s.append(height);\n        s.append(round);"))
same("p_r_proto_fn", (C, "// impl Encodable and Decodable trait for SignedProposal\n", "fn expect_list(r: &Rlp, n: usize) -> Result<(), DecoderError> {\n    match r.prototype()? {\n        Prototype::List(k) if k == n => Ok(()),\n        _ => Err(DecoderError::RlpInconsistentLengthAndData),\n    }\n}\n\n// impl Encodable and Decodable trait for SignedProposal\n"), (C, "        match r.prototype()? {\n            Prototype::List(2) => {\n                let lock_round: u64 = r.val_at(0)?;\n                let lock_votes: AggregatedVote = r.val_at(1)?;\n                Ok(PoLC {\n                    lock_round,\n                    lock_votes,\n                })\n            }\n            _ => Err(DecoderError::RlpInconsistentLengthAndData),\n        }", "        expect_list(r, 2)?;\n        Ok(PoLC {\n            lock_round: r.val_at(0)?,\n            lock_votes: r.val_at(1)?,\n        })"))
same("p_r_lock_match", (C, "            .append(&self.lock)\n            .append(&self.from);", "            .append(&match &self.lock {\n                Some(l) => Some(l.clone()),\n                None => None,\n            })\n            .append(&self.from);"))
same("p_r_lock_list", (C, "            .append(&self.lock)\n            .append(&self.from);", "            ;\n        match &self.lock {\n            Some(l) => s.begin_list(1).append(l),\n            None => s.begin_list(0),\n        };\n        s.append(&self.from);"))
same("p_r_step_try", (C, "                if tmp > u8::from(Step::Commit) {\n                    return Err(DecoderError::Custom(\"Invalid step\"));\n                }\n                let step = Step::from(tmp);", "                let step = match tmp {\n                    0..=4 => Step::from(tmp),\n                    _ => return Err(DecoderError::Custom(\"Invalid step\")),\n                };"))
same("p_r_step_guard", (C, "                if tmp > u8::from(Step::Commit) {\n                    return Err(DecoderError::Custom(\"Invalid step\"));\n                }\n                let step = Step::from(tmp);", "                let step = if tmp < 5 {\n                    Step::from(tmp)\n                } else {\n                    return Err(DecoderError::Custom(\"Invalid step\"));\n                };"))
