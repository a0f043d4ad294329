"""the small accessors"""
from mutlist import same, bug
P, T, M, ST, L, SM, O, TC = "src/state/process.rs", "src/types.rs", "src/smr/state_machine.rs", "src/smr/smr_types.rs", "src/lib.rs", "src/smr/mod.rs", "src/overlord.rs", "src/utils/timer_config.rs"
AV = "    pub fn get_round(&self) -> u64 {\n        self.round\n    }\n\n    /// If the aggregate vote is"
bug("e_av_round", "C01 C11 C15", (T, AV, AV.replace("        self.round\n", "        if self.block_hash.is_empty() && self.vote_type == VoteType::Precommit {\n            return self.round.saturating_sub(1);\n        }\n        self.round\n")))
bug("e_to_vote_hash", "C01 C06", (T, "            vote_type: self.vote_type.clone(),\n            block_hash: self.block_hash.clone(),\n        }\n    }\n}\n\n/// A vote.", "            vote_type: self.vote_type.clone(),\n            block_hash: if self.round == 0 { self.block_hash.clone() } else { self.block_hash.slice(..self.block_hash.len().min(31)) },\n        }\n    }\n}\n\n/// A vote."))
bug("e_sv_prevote", "C05 C04 C03 C02", (T, "        self.vote.vote_type == VoteType::Prevote", "        self.vote.vote_type == VoteType::Prevote || self.vote.block_hash.is_empty()"))
bug("e_av_prevote", "C01 C11 C15 C09 C10", (T, "        self.vote_type == VoteType::Prevote\n    }\n\n    ///\n", "        self.vote_type == VoteType::Prevote || self.block_hash.is_empty()\n    }\n\n    ///\n"))
bug("e_choke_len", "C42", (T, "        self.voters.len()\n", "        self.voters.len() + usize::from(self.round == 0)\n"))
bug("e_choke_hash", "C06", (T, "impl AggregatedChoke {\n", "impl AggregatedChoke {\n"), (T, "        self.voters.len()\n    }\n\n    pub(crate) fn to_hash(&self) -> HashChoke {\n        HashChoke {\n            height: self.height,\n            round: self.round,", "        self.voters.len()\n    }\n\n    pub(crate) fn to_hash(&self) -> HashChoke {\n        HashChoke {\n            height: self.height,\n            round: self.round & 0xffff,"))
bug("e_msg_height", "C26 C22 C02 C12 C46", (T, "            OverlordMsg::SignedChoke(sc) => sc.choke.height,", "            OverlordMsg::SignedChoke(sc) => match &sc.choke.from {\n                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => qc.height.max(sc.choke.height),\n                UpdateFrom::ChokeQC(_) => sc.choke.height,\n            },"))
bug("e_rich", "C24 C02", (T, "matches!(self, OverlordMsg::RichStatus(_))", "matches!(self, OverlordMsg::RichStatus(s) if !s.authority_list.is_empty())"))
bug("e_reason", "C35", (ST, "                ViewChangeReason::UpdateFromHigherPrecommitQC(old_round, *round)", "                ViewChangeReason::UpdateFromHigherPrecommitQC((*round).min(old_round), *round)"))
bug("e_reason2", "C35", (ST, "                ViewChangeReason::UpdateFromHigherChokeQC(old_round, *round)", "                ViewChangeReason::UpdateFromHigherPrevoteQC(old_round, *round)"))
bug("e_goto_next", "C15", (M, "        self.round += 1;\n        self.goto_step(Step::Propose);", "        self.round += 1;\n        if self.step != Step::Brake {\n            self.goto_step(Step::Propose);\n        }"))
bug("e_polc_round", "C10", (M, "            self.lock = Some(Lock { round, hash });\n        }\n    }", "            let round = self.lock.as_ref().map_or(round, |l| l.round.max(round));\n            self.lock = Some(Lock { round, hash });\n        }\n    }"))
bug("e_polc_keep", "C10", (M, "        if hash.is_empty() {\n            self.remove_polc();", "        if hash.is_empty() {\n            if self.round == round {\n                self.remove_polc();\n            }"))
bug("e_cfg_cross", "C33", (L, "        (self.precommit_ratio, 10u64)", "        (self.precommit_ratio.max(self.prevote_ratio), 10u64)"))
bug("e_cfg_zero", "C33", (L, "        (self.brake_ratio, 10u64)", "        (if self.brake_ratio == 0 { 3 } else { self.brake_ratio }, 10u64)"))
bug("e_wal_lost_step", "C25", (P, "            step: Step::Propose,\n            polc: None,\n        };\n\n        self.state_machine", "            step: if self.round == 0 { Step::Brake } else { Step::Propose },\n            polc: None,\n        };\n\n        self.state_machine"))
bug("e_handler_take", "C37", (O, "        let sender = self.sender.write();\n        assert!(sender.is_some());\n        let tx = sender.clone().unwrap();", "        let mut sender = self.sender.write();\n        assert!(sender.is_some());\n        let tx = sender.take().unwrap();"))
same("e_r_av", (T, "        self.vote_type == VoteType::Prevote\n    }\n\n    ///\n", "        matches!(self.vote_type, VoteType::Prevote)\n    }\n\n    ///\n"))
same("e_r_av2", (T, "        self.vote_type == VoteType::Prevote\n    }\n\n    ///\n", "        match &self.vote_type {\n            VoteType::Prevote => true,\n            VoteType::Precommit => false,\n        }\n    }\n\n    ///\n"))
same("e_r_to_vote", (T, "        Vote {\n            height: self.height,\n            round: self.round,\n            vote_type: self.vote_type.clone(),\n            block_hash: self.block_hash.clone(),\n        }\n    }\n}\n\n/// A vote.", "        let AggregatedVote {\n            vote_type,\n            height,\n            round,\n            block_hash,\n            ..\n        } = self.clone();\n        Vote {\n            height,\n            round,\n            vote_type,\n            block_hash,\n        }\n    }\n}\n\n/// A vote."))
same("e_r_rich", (T, "        matches!(self, OverlordMsg::RichStatus(_))", "        match self {\n            OverlordMsg::RichStatus(_) => true,\n            _ => false,\n        }"))
same("e_r_reason", (ST, "        match self {\n            FromWhere::PrevoteQC(round) => {\n                ViewChangeReason::UpdateFromHigherPrevoteQC(old_round, *round)\n            }\n            FromWhere::PrecommitQC(round) => {\n                ViewChangeReason::UpdateFromHigherPrecommitQC(old_round, *round)\n            }\n            FromWhere::ChokeQC(round) => {\n                ViewChangeReason::UpdateFromHigherChokeQC(old_round, *round)\n            }\n        }", "        let new_round = self.get_round();\n        let reason = match self {\n            FromWhere::PrevoteQC(_) => ViewChangeReason::UpdateFromHigherPrevoteQC,\n            FromWhere::PrecommitQC(_) => ViewChangeReason::UpdateFromHigherPrecommitQC,\n            FromWhere::ChokeQC(_) => ViewChangeReason::UpdateFromHigherChokeQC,\n        };\n        reason(old_round, new_round)"))
same("e_r_polc", (M, "        if hash.is_empty() {\n            self.remove_polc();\n        } else {\n            self.lock = Some(Lock { round, hash });\n        }\n    }", "        self.lock = Some(Lock { round, hash }).filter(|lock| !lock.hash.is_empty());\n    }"))
same("e_r_polc2", (M, "        if hash.is_empty() {\n            self.remove_polc();\n        } else {\n            self.lock = Some(Lock { round, hash });\n        }\n    }", "        self.lock = match hash.len() {\n            0 => None,\n            _ => Some(Lock { round, hash }),\n        };\n    }"))
same("e_r_polc3", (M, "        if hash.is_empty() {\n            self.remove_polc();\n        } else {\n            self.lock = Some(Lock { round, hash });\n        }\n    }", "        self.remove_polc();\n        if !hash.is_empty() {\n            self.lock.replace(Lock { round, hash });\n        }\n    }"))
same("e_r_step", (M, "        self.step = step;\n    }", "        let _old = std::mem::replace(&mut self.step, step);\n    }"))
same("e_r_lost", (P, "        let smr_base = SMRBase {\n            height: self.height,\n            round: self.round,\n            step: Step::Propose,\n            polc: None,\n        };\n\n        self.state_machine.trigger(SMRTrigger {\n            trigger_type: TriggerType::WalInfo,\n            source: TriggerSource::State,\n            hash: Hash::new(),\n            lock_round: None,\n            round: self.round,\n            height: self.height,\n            wal_info: Some(smr_base),\n        })\n    }", "        let (height, round) = (self.height, self.round);\n        let trigger = SMRTrigger {\n            wal_info: Some(SMRBase {\n                polc: None,\n                step: Step::Propose,\n                round,\n                height,\n            }),\n            trigger_type: TriggerType::WalInfo,\n            source: TriggerSource::State,\n            hash: Hash::default(),\n            lock_round: None,\n            round,\n            height,\n        };\n        self.state_machine.trigger(trigger)\n    }"))
same("e_r_handler", (O, "        let sender = self.sender.write();\n        assert!(sender.is_some());\n        let tx = sender.clone().unwrap();\n        OverlordHandler::new(tx)", "        match self.sender.read().as_ref() {\n            Some(tx) => OverlordHandler::new(tx.clone()),\n            None => panic!(\"the sender is gone\"),\n        }"))
same("e_r_handler2", (O, "        let tx = sender.clone().unwrap();\n        OverlordHandler::new(tx)", "        sender.clone().map(OverlordHandler::new).expect(\"sender\")"))
same("e_r_cfg", (L, "        (self.brake_ratio, 10u64)", "        let base = 10;\n        let ratio = self.brake_ratio;\n        (ratio, base)"))
same("e_r_tc", (TC, "        self.propose = config.get_propose_config();\n        self.prevote = config.get_prevote_config();\n        self.precommit = config.get_precommit_config();\n        self.brake = config.get_brake_config();", "        let interval = self.interval.get();\n        *self = TimerConfig {\n            interval: Cell::new(interval),\n            propose: config.get_propose_config(),\n            prevote: config.get_prevote_config(),\n            precommit: config.get_precommit_config(),\n            brake: config.get_brake_config(),\n        };"))
same("e_r_tc2", (TC, "        match event {\n            SMREvent::NewRoundInfo { .. } => Ok(self.get_propose_timeout()),\n            SMREvent::PrevoteVote { .. } => Ok(self.get_prevote_timeout()),\n            SMREvent::PrecommitVote { .. } => Ok(self.get_precommit_timeout()),\n            SMREvent::Brake { .. } => Ok(self.get_brake_timeout()),\n            _ => Err(ConsensusError::TimerErr(\"No commit timer\".to_string())),\n        }", "        let (ratio, base) = match event {\n            SMREvent::NewRoundInfo { .. } => self.propose,\n            SMREvent::PrevoteVote { .. } => self.prevote,\n            SMREvent::PrecommitVote { .. } => self.precommit,\n            SMREvent::Brake { .. } => self.brake,\n            _ => return Err(ConsensusError::TimerErr(\"No commit timer\".to_string())),\n        };\n        Ok(Duration::from_millis(self.interval.get() * ratio / base))"))
