"""definitions of the planted bugs (tools/seed.py writes them to /verif/seeded)"""
SMR = "src/smr/state_machine.rs"
SEEDS = []


def seed(id, property, needs, breaks, edits, file, test, harness=None, feature=None):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, file=file, test=test,
                      harness=harness, feature=feature))


seed("s01_relock_same_round", "C10",
     "a locked node that receives a proposal of a later round carrying a certificate of the very lock round for another "
     "block", "the lock is released by a certificate that is not newer than the lock",
     [(SMR, "                if lock_round > lock.round {", "                if lock_round >= lock.round {")],
     SMR, '''
    #[test]
    fn lock_is_kept_against_evidence_of_the_same_round() {
        use TriggerType::*;
        let out = drive(vec![
            height(1),
            state(Proposal, 1, 0, hash(1), None),
            state(PrevoteQC, 1, 0, hash(1), None),
            timer(PrecommitQC, 1, 0),
            state(PrecommitQC, 1, 0, Hash::new(), None),
            state(Proposal, 1, 1, hash(2), Some(0)),
        ]);
        for (a, _) in &out[5..] {
            for e in a {
                if let SMREvent::PrevoteVote { block_hash, .. } = e {
                    assert_eq!(block_hash, &hash(1));
                }
            }
        }
    }
''', "smr.rs")

seed("s03_stale_brake", "C17",
     "a brake timer of an earlier round of the same height that fires after the round was left",
     "a timeout of a round already left makes the node act",
     [(SMR, "        if height != self.height || round != self.round {\n            Ok(())",
       "        if height != self.height || round > self.round {\n            Ok(())")],
     SMR, '''
    #[test]
    fn brake_timeout_of_an_older_round_is_ignored() {
        use TriggerType::*;
        let out = drive(vec![
            height(1),
            timer(Proposal, 1, 0),
            timer(PrevoteQC, 1, 0),
            timer(PrecommitQC, 1, 0),
            state(ContinueRound, 1, 1, Hash::new(), None),
            timer(BrakeTimeout, 1, 0),
        ]);
        assert!(out[5].0.is_empty() && out[5].1.is_empty());
    }
''', "smr.rs")

seed("s04_lock_survives_height", "C12",
     "a node that is locked when a status takes it to a later height",
     "the lock of the finished height survives into the new height",
     [(SMR, "        self.block_hash = Hash::new();\n        self.lock = None;\n    }",
       "        self.block_hash = Hash::new();\n        if self.lock.as_ref().map_or(true, |lock| lock.round == 0) {\n"
       "            self.lock = None;\n        }\n    }")],
     SMR, '''
    #[test]
    fn a_new_height_starts_unlocked() {
        use TriggerType::*;
        let out = drive(vec![
            height(1),
            state(ContinueRound, 1, 1, Hash::new(), None),
            state(Proposal, 1, 1, hash(1), None),
            state(PrevoteQC, 1, 1, hash(1), None),
            height(2),
            state(Proposal, 2, 0, hash(2), None),
        ]);
        for e in &out[5].0 {
            if let SMREvent::PrevoteVote { lock_round, .. } = e {
                assert!(lock_round.is_none());
            }
        }
        assert_eq!(out[5].0.len(), 1);
    }
''', "smr.rs")

P, AM, CO, PA, TM = ("src/state/process.rs", "src/utils/auth_manage.rs", "src/state/collection.rs", "src/state/parallel.rs",
                     "src/timer.rs")
HEAD = '''
#[cfg(test)]
mod seeded_demo {
    use super::*;
'''

seed("s05_exactly_two_thirds", "C01",
     "an authority list whose weights can be split exactly at two thirds (three equal nodes)",
     "a certificate of exactly two thirds of the weight is accepted",
     [(AM, "Ok(acc * 3 > self.vote_weight_sum * 2)", "Ok(acc * 3 >= self.vote_weight_sum * 2)")],
     AM, HEAD + '''
    #[test]
    fn two_of_three_equal_nodes_are_no_quorum() {
        let mut list: Vec<Node> = (1u8..4).map(|i| Node::new(Address::from(vec![i; 20]))).collect();
        let mut a = AuthorityManage::new();
        a.update(&mut list);
        assert!(!a.is_above_threshold(&[0b1100_0000]).unwrap());
        assert!(a.is_above_threshold(&[0b1110_0000]).unwrap());
    }
}
''')

seed("s06_forged_proposal", "C02",
     "a proposal with a wrong signature of its proposer that carries a lock whose certificate is genuine",
     "the proposal reaches the state although its signature is wrong",
     [(PA, '''                        err
                    );
                    return;
                }

                if let Some(polc)''', '''                        err
                    );
                    if sp.proposal.lock.is_none() {
                        return;
                    }
                }

                if let Some(polc)''')],
     P, '''
    #[test]
    fn a_forged_locked_proposal_is_not_passed_on() {
        run(async {
            let mut w = World::at(1, 1).await;
            let lock = qc(VoteType::Prevote, 1, 0, &blk(7).1, &[0, 1, 2]);
            let l = w.leader(1, 1);
            let good = prop(l, 1, 1, 7, Some(lock));
            let mut bad = good.clone();
            bad.signature = Bytes::from(vec![9u8; 52]);
            let (tx, mut rx) = unbounded();
            for m in vec![good, bad] {
                parallel_verify(Context::new(), OverlordMsg::SignedProposal(m), w.st.util.clone(), w.st.authority.clone(), tx.clone()).await;
            }
            w.settle().await;
            assert_eq!(now(&mut rx).len(), 1);
        })
    }
''', "state.rs")

seed("s07_rounded_threshold", "C04",
     "a weight sum that is no multiple of three",
     "a certificate is built below two thirds of the weight: the threshold is rounded down",
     [(P, "        let threshold = self.authority.get_vote_weight_sum() * 2;", "        let threshold = self.authority.get_vote_weight_sum() / 3 * 6;")],
     P, '''
    #[test]
    fn three_of_five_make_no_certificate() {
        run(async {
            for me in 0..5 {
                let mut w = World::with_nodes(me, nodes(5), Arc::new(Log::default()));
                w.status(status(1, 5)).await;
                w.round(0, None, FromWhere::PrecommitQC(u64::max_value())).await;
                w.forget();
                for i in 0..3 {
                    w.msg(OverlordMsg::SignedVote(vote(i, VoteType::Prevote, 1, 0, &blk(7).1))).await;
                }
                assert!(w.st.votes.get_qc_by_id(1, 0, VoteType::Prevote).is_err());
            }
        })
    }
''', "state.rs")

seed("s08_second_vote_counts", "C05",
     "a validator that signs two different votes of one round, the second one for another block",
     "the second, contradicting vote of a validator is counted as well",
     [(CO, '''                exist,vote);
            }
            return;
        }
''', '''                exist,vote);
                self.by_address.remove(&addr);
            } else {
                return;
            }
        }
''')],
     CO, HEAD + '''
    use crate::types::Vote;
    use bytes::Bytes;

    fn v(r: u64, h: u8) -> SignedVote {
        SignedVote {
            signature: Bytes::from(vec![h; 4]),
            vote: Vote { height: 1, round: r, vote_type: VoteType::Prevote, block_hash: Bytes::from(vec![h; 32]) },
            voter: Bytes::from(vec![1u8; 20]),
        }
    }

    #[test]
    fn one_vote_of_a_validator_counts() {
        let mut c = VoteCollector::new();
        for h in [1u8, 2] {
            let s = v(0, h);
            c.insert_vote(Context::new(), s.get_hash(), s.clone(), s.voter.clone());
        }
        let m = c.get_vote_map(1, 0, VoteType::Prevote).unwrap();
        assert_eq!(m.values().map(|s| s.len()).sum::<usize>(), 1);
    }
}
''')

seed("s09_precommits_lost", "C23",
     "a height for which prevotes and precommits of the same round arrived before the height was reached",
     "the cached precommits of a round are dropped when the height is reached if there are prevotes as well",
     [(CO, '''                    votes.append(&mut rc.precommit.get_all_votes());
''', '''                    if votes.is_empty() {
                        votes.append(&mut rc.precommit.get_all_votes());
                    }
''')],
     CO, HEAD + '''
    use crate::types::Vote;
    use bytes::Bytes;

    #[test]
    fn all_votes_of_a_height_are_handed_over() {
        let mut c = VoteCollector::new();
        for t in [VoteType::Prevote, VoteType::Precommit] {
            let s = SignedVote {
                signature: Bytes::from(vec![4u8; 4]),
                vote: Vote { height: 3, round: 1, vote_type: t, block_hash: Bytes::from(vec![1u8; 32]) },
                voter: Bytes::from(vec![1u8; 20]),
            };
            c.insert_vote(Context::new(), s.get_hash(), s.clone(), s.voter.clone());
        }
        assert_eq!(c.get_height_votes(3).unwrap().0.len(), 2);
    }
}
''')

seed("s10_far_future_cached", "C22",
     "a vote of a height far ahead with a large round number",
     "messages of heights far beyond the window are cached without bound",
     [(P, "        } else if self.height + FUTURE_HEIGHT_GAP < height {",
       "        } else if self.height + FUTURE_HEIGHT_GAP * (1 + round % 8) < height {")],
     P, '''
    #[test]
    fn heights_beyond_the_window_are_not_cached() {
        run(async {
            let mut w = World::at(1, 1).await;
            for r in 0..9 {
                w.msg(OverlordMsg::SignedVote(vote(2, VoteType::Prevote, 12, r, &blk(7).1))).await;
                w.msg(OverlordMsg::SignedVote(vote(3, VoteType::Prevote, 30, r, &blk(7).1))).await;
            }
            assert!(w.st.votes.get_height_votes(12).is_none());
            assert!(w.st.votes.get_height_votes(30).is_none());
        })
    }
''', "state.rs")

seed("s11_nil_quorum_ignored", "C15",
     "a nil precommit certificate of the current round that arrives while the node is still prevoting",
     "the node does not leave a round that a nil quorum has closed",
     [(SMR, "            if precommit_round < self.round {\n                return Ok(());\n            }\n\n            self.round = precommit_round;",
       "            if precommit_round <= self.round && self.step < Step::Precommit {\n                return Ok(());\n            }\n\n            self.round = precommit_round;")],
     SMR, '''
    #[test]
    fn nil_precommits_of_a_quorum_end_the_round() {
        use TriggerType::*;
        let out = drive(vec![
            height(1),
            state(Proposal, 1, 0, hash(1), None),
            state(PrecommitQC, 1, 0, Hash::new(), None),
        ]);
        assert!(out[2].0.iter().any(|e| matches!(e, SMREvent::NewRoundInfo { round: 1, .. })));
    }
''', "smr.rs")

seed("s12_no_commit_in_brake", "C11",
     "a precommit certificate that arrives while the node brakes",
     "a braking node does not commit a block that a quorum has precommitted",
     [(SMR, "        if self.step == Step::Commit {\n            return Ok(());", "        if self.step >= Step::Brake {\n            return Ok(());")],
     SMR, '''
    #[test]
    fn a_braking_node_commits_as_well() {
        use TriggerType::*;
        let out = drive(vec![
            height(1),
            timer(Proposal, 1, 0),
            timer(PrevoteQC, 1, 0),
            timer(PrecommitQC, 1, 0),
            state(PrecommitQC, 1, 0, hash(1), None),
        ]);
        assert!(out[4].0.contains(&SMREvent::Commit(hash(1))));
    }
''', "smr.rs")

seed("s13_unsorted_large_list", "C18",
     "an authority list of at least 128 nodes that two replicas get in different orders",
     "replicas disagree on the proposer",
     [(AM, "        self.flush();\n        authority_list.sort();", "        self.flush();\n        if authority_list.len() < 128 {\n            authority_list.sort();\n        }")],
     AM, HEAD + '''
    #[test]
    fn the_order_of_the_list_does_not_matter() {
        let mut list: Vec<Node> = (0u8..130).map(|i| Node::new(Address::from(vec![i; 20]))).collect();
        let mut back = list.clone();
        back.reverse();
        let (mut a, mut b) = (AuthorityManage::new(), AuthorityManage::new());
        a.update(&mut list);
        b.update(&mut back);
        for r in 0..10 {
            assert_eq!(a.get_proposer(5, r).unwrap(), b.get_proposer(5, r).unwrap());
        }
    }
}
''')

seed("s14_voters_of_unsorted", "C31",
     "a list of more than eleven validators which is out of order only at its end, given to the public voter extraction",
     "the bitmap of a proof is read against another order than the one it was made with",
     [(AM, "    authority_list.sort();\n    let bitmap", "    if authority_list.windows(2).take(10).any(|w| w[0] > w[1]) {\n        authority_list.sort();\n    }\n    let bitmap")],
     AM, HEAD + '''
    #[test]
    fn the_bitmap_is_read_in_sorted_order() {
        let mut list: Vec<Node> = [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 12].iter().map(|i| Node::new(Address::from(vec![*i; 20]))).collect();
        let got = extract_voters(&mut list, &bytes::Bytes::from(vec![0b1000_0000u8, 0b0001_0000])).unwrap();
        assert_eq!(got, vec![Address::from(vec![1u8; 20]), Address::from(vec![12u8; 20])]);
    }
}
''')

seed("s15_lock_lost_on_restart", "C25",
     "a node that is locked and restarts while proposing the next round",
     "after the restart the state machine is unlocked",
     [(SMR, "        self.lock = info.polc;\n", "        if self.step != Step::Propose {\n            self.lock = info.polc;\n        }\n")],
     SMR, '''
    #[test]
    fn the_lock_survives_a_restart() {
        use TriggerType::*;
        let mut t = state(WalInfo, 1, 1, Hash::new(), None);
        t.wal_info = Some(SMRBase { height: 1, round: 1, step: Step::Propose, polc: Some(Lock { round: 0, hash: hash(1) }) });
        let out = drive(vec![t, state(Proposal, 1, 1, hash(2), None)]);
        let mut voted = 0;
        for e in &out[1].0 {
            if let SMREvent::PrevoteVote { block_hash, .. } = e {
                assert_eq!(block_hash, &hash(1));
                voted += 1;
            }
        }
        assert_eq!(voted, 1);
    }
''', "smr.rs")

seed("s16_still_validator", "C38",
     "a status that removes the node from the authority list",
     "a node that left the authority list keeps acting as a validator",
     [(P, "        self.consensus_power = status.is_consensus_node(&self.address);\n        if !self.consensus_power {",
       "        let power = status.is_consensus_node(&self.address);\n        self.consensus_power |= power;\n        if !power {")],
     P, '''
    #[test]
    fn a_removed_node_is_silent() {
        run(async {
            let mut w = World::at(3, 1).await;
            let mut s = status(2, 4);
            s.authority_list.truncate(3);
            w.status(s).await;
            w.forget();
            let l = (0..3).find(|i| w.st.authority.get_proposer(2, 0).unwrap() == addr(*i)).unwrap();
            w.msg(OverlordMsg::SignedProposal(prop(l, 2, 0, 7, None))).await;
            assert!(w.triggers().is_empty());
        })
    }
''', "state.rs")

seed("s17_stale_brake_event", "C26",
     "a brake event of the finished height that is still queued when the next height has begun in the same round",
     "the node chokes in a height it has just begun because of an event of the last one",
     [(P, "                if height != self.height {\n                    return Ok(());\n                }\n\n                if let Err(e) = self.handle_brake",
       "                if height > self.height {\n                    return Ok(());\n                }\n\n                if let Err(e) = self.handle_brake")],
     P, '''
    #[test]
    fn events_of_a_finished_height_are_dropped() {
        run(async {
            let mut w = World::at(1, 2).await;
            w.event(SMREvent::Brake { height: 1, round: 0, lock_round: None }).await;
            assert!(w.sent().is_empty());
        })
    }
''', "state.rs")

seed("s18_proof_of_this_round", "C14",
     "a commit whose precommit certificate is of an earlier round than the one the node is in",
     "the proof handed to the application names another round than its certificate",
     [(P, "        let proof = Proof {\n            height,\n            round: qc.round,", "        let proof = Proof {\n            height,\n            round: self.round,")],
     P, '''
    #[test]
    fn the_proof_is_the_certificate() {
        run(async {
            let mut w = World::at(1, 1).await;
            let l = w.leader(1, 0);
            w.msg(OverlordMsg::SignedProposal(prop(l, 1, 0, 7, None))).await;
            w.round(1, None, FromWhere::PrecommitQC(u64::max_value())).await;
            w.msg(OverlordMsg::AggregatedVote(qc(VoteType::Precommit, 1, 0, &blk(7).1, &[0, 1, 2]))).await;
            w.event(SMREvent::Commit(blk(7).1)).await;
            let c = w.net.commits.lock().unwrap();
            assert_eq!(c.len(), 1);
            assert_eq!(c[0].1.proof.round, 0);
        })
    }
''', "state.rs")

seed("s19_votes_to_old_leader", "C29",
     "a vote in a round from 64 on",
     "votes of later rounds are sent to the leader of an earlier round",
     [(P, "        self.leader_address = proposer;\n        self.is_leader = false;\n        Ok(false)",
       "        if self.round < 64 {\n            self.leader_address = proposer;\n        }\n        self.is_leader = false;\n        Ok(false)")],
     P, '''
    #[test]
    fn the_leader_of_the_round_gets_the_vote() {
        run(async {
            for me in 0..4 {
                let mut w = World::at(me, 1).await;
                if w.leader(1, 65) == me {
                    continue;
                }
                w.round(65, None, FromWhere::PrecommitQC(u64::max_value())).await;
                w.forget();
                w.event(SMREvent::PrevoteVote { height: 1, round: 65, block_hash: Hash::new(), lock_round: None }).await;
                let s = w.sent();
                assert_eq!(s.len(), 1);
                assert_eq!(s[0].0, Some(addr(w.leader(1, 65))));
            }
        })
    }
''', "state.rs")

seed("s20_choke_at_two_thirds", "C42",
     "an authority list of three nodes and a choke certificate of two of them",
     "two thirds of the nodes can end a round",
     [(P, "if aggregated_choke.len() * 3 <= self.authority.len() * 2 {", "if aggregated_choke.len() * 3 < self.authority.len() * 2 {")],
     P, '''
    #[test]
    fn two_of_three_nodes_end_no_round() {
        run(async {
            let mut w = World::with_nodes(1, nodes(3), Arc::new(Log::default()));
            w.status(status(1, 3)).await;
            w.round(0, None, FromWhere::PrecommitQC(u64::max_value())).await;
            w.forget();
            w.msg(OverlordMsg::SignedChoke(choke(2, 1, 1, UpdateFrom::ChokeQC(choke_qc(1, 0, &[0, 1]))))).await;
            assert!(w.triggers().is_empty());
            w.msg(OverlordMsg::SignedChoke(choke(2, 1, 1, UpdateFrom::ChokeQC(choke_qc(1, 0, &[0, 1, 2]))))).await;
            assert!(!w.triggers().is_empty());
        })
    }
''', "state.rs")

seed("s21_log_failure_leader", "C07",
     "a write failure of the log in the round the node leads",
     "the leader's own vote counts although it was never logged",
     [(P, "        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)\n            .await?;",
       "        let saved = self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)\n            .await;\n        if !self.is_leader {\n            saved?;\n        }")],
     P, '''
    #[test]
    fn a_vote_that_was_not_logged_does_not_count() {
        run(async {
            let l = World::new(0).leader(1, 0);
            let mut w = World::at(l, 1).await;
            *w.log.fail.lock().unwrap() = true;
            w.event(SMREvent::PrevoteVote { height: 1, round: 0, block_hash: blk(7).1, lock_round: None }).await;
            assert!(w.st.votes.get_vote_map(1, 0, VoteType::Prevote).is_err());
        })
    }
''', "state.rs")

seed("s22_proposal_replaced", "C40",
     "a proposer that signs two proposals of one future round, the second one with a lock",
     "the second proposal replaces the first one",
     [(CO, "            if sp == &proposal {\n                return Ok(());\n            }\n",
       "            if sp == &proposal {\n                return Ok(());\n            }\n            if sp.proposal.lock.is_none() && proposal.proposal.lock.is_some() {\n                self.0.insert(round, (proposal, ctx));\n                return Ok(());\n            }\n")],
     P, '''
    #[test]
    fn the_first_proposal_of_a_round_stays() {
        run(async {
            let mut w = World::at(1, 1).await;
            let l = w.leader(1, 3);
            let first = prop(l, 1, 3, 7, None);
            let second = prop(l, 1, 3, 8, Some(qc(VoteType::Prevote, 1, 0, &blk(8).1, &[0, 1, 2])));
            w.msg(OverlordMsg::SignedProposal(first.clone())).await;
            w.msg(OverlordMsg::SignedProposal(second)).await;
            assert_eq!(w.st.proposals.get(1, 3).unwrap().0, first);
        })
    }
''', "state.rs")

seed("s23_late_check_result", "C13",
     "a check that takes so long that its result arrives when the node has gone to the next height",
     "the result of a check in an earlier height is taken for a result of this height",
     [(P, "        if resp.height != self.height {\n            return Ok(());", "        if resp.height > self.height {\n            return Ok(());")],
     P, '''
    #[test]
    fn a_late_check_result_is_dropped() {
        run(async {
            let mut w = World::at(1, 2).await;
            let _ = w.st.handle_resp(Some(VerifyResp { height: 1, round: 0, block_hash: blk(7).1, is_pass: true }));
            assert!(!w.st.try_get_full_txs(&blk(7).1));
        })
    }
''', "state.rs")

seed("s24_lock_of_precommit", "C27",
     "a locked leader in a later round that has stored a precommit certificate of the lock round besides the prevote one",
     "the proposal carries a certificate that is no proof of the lock",
     [(P, "                .get_qc_by_id(self.height, round, VoteType::Prevote)\n                .map_err(",
       "                .get_qc_by_id(self.height, round, VoteType::Precommit)\n                .or_else(|_| self.votes.get_qc_by_id(self.height, round, VoteType::Prevote))\n                .map_err(")],
     P, '''
    #[test]
    fn the_lock_is_proved_by_prevotes() {
        run(async {
            for me in 0..4 {
                let mut w = World::at(me, 1).await;
                if w.leader(1, 1) != me {
                    continue;
                }
                let l = w.leader(1, 0);
                w.msg(OverlordMsg::SignedProposal(prop(l, 1, 0, 7, None))).await;
                w.msg(OverlordMsg::AggregatedVote(qc(VoteType::Prevote, 1, 0, &blk(7).1, &[0, 1, 2]))).await;
                w.msg(OverlordMsg::AggregatedVote(qc(VoteType::Precommit, 1, 0, &blk(7).1, &[0, 1, 2]))).await;
                w.forget();
                w.round(1, Some((0, blk(7).1)), FromWhere::PrecommitQC(u64::max_value())).await;
                let mut seen = 0;
                for (_, m) in w.sent() {
                    if let OverlordMsg::SignedProposal(p) = m {
                        assert!(p.proposal.lock.unwrap().lock_votes.is_prevote_qc());
                        seen += 1;
                    }
                }
                assert_eq!(seen, 1);
            }
        })
    }
''', "state.rs")

seed("s25_wrong_round_reported", "C35",
     "a round left by a certificate of a later round, so that rounds are skipped",
     "the view change is reported for a round the node was not in",
     [(P, "            self.report_view_change(last_round, reason);", "            self.report_view_change(new_round - 1, reason);")],
     P, '''
    #[test]
    fn the_round_left_is_reported() {
        run(async {
            let mut w = World::at(1, 1).await;
            w.round(4, None, FromWhere::PrecommitQC(3)).await;
            let v = w.net.views.lock().unwrap();
            assert_eq!((v[0].0, v[0].1), (1, 0));
        })
    }
''', "state.rs")

seed("s26_short_bitmap", "C21",
     "a certificate whose bitmap is shorter than the authority list",
     "a peer's certificate makes the verification index beyond the bitmap",
     [(AM, '''        for node in bitmap.iter().zip(self.address.iter()) {
            if node.0 {
                if let Some(weight)''', '''        for node in self.address.iter().enumerate().map(|(i, addr)| (bitmap[i], addr)) {
            if node.0 {
                if let Some(weight)''')],
     AM, HEAD + '''
    #[test]
    fn a_short_bitmap_is_survived() {
        let mut list: Vec<Node> = (1u8..11).map(|i| Node::new(Address::from(vec![i; 20]))).collect();
        let mut a = AuthorityManage::new();
        a.update(&mut list);
        assert!(!a.is_above_threshold(&[0b1100_0000]).unwrap_or(false));
    }
}
''')

seed("s27_choke_qc_survives", "C41",
     "a choke certificate of the last height and a brake in the same round of the next height",
     "choke certificates of a finished height are still answered in the next one",
     [(CO, "        self.chokes.clear();\n        self.qcs.clear();", "        self.chokes.clear();\n        self.qcs.retain(|round, _| !self.chokes.contains_key(round) && *round > 0);")],
     CO, HEAD + '''
    use bytes::Bytes;

    #[test]
    fn nothing_of_the_last_height_stays() {
        let mut c = ChokeCollector::new();
        c.set_qc(2, AggregatedChoke { height: 1, round: 2, signature: Bytes::new(), voters: vec![] });
        c.clear();
        assert!(c.get_qc(2).is_none());
    }
}
''')

seed("s28_vote_again_after_prevote", "C09",
     "a second proposal that reaches the state machine after it has prevoted in the round",
     "a validator prevotes twice in one round",
     [(SMR, "        if self.step > Step::Propose {\n            return Ok(());\n        }", "        if self.step > Step::Prevote {\n            return Ok(());\n        }")],
     SMR, '''
    #[test]
    fn one_prevote_in_a_round() {
        use TriggerType::*;
        let out = drive(vec![height(1), timer(Proposal, 1, 0), state(Proposal, 1, 0, hash(2), None)]);
        assert!(out[2].0.is_empty());
    }
''', "smr.rs")

seed("s29_status_without_list", "C24",
     "two statuses in a row, the later one reached while the node was not a validator",
     "a new height keeps the authority list of an older height",
     [(P, "        self.authority.update(&mut auth_list);\n\n        if let Some(interval)",
       "        if auth_list.len() != self.authority.len() {\n            self.authority.update(&mut auth_list);\n        }\n\n        if let Some(interval)")],
     P, '''
    #[test]
    fn the_list_of_the_status_counts() {
        run(async {
            let mut w = World::at(0, 1).await;
            let mut s = status(2, 5);
            s.authority_list.remove(2);
            w.status(s).await;
            assert!(w.st.authority.contains(&addr(4)));
            assert!(!w.st.authority.contains(&addr(2)));
        })
    }
''', "state.rs")

seed("s30_older_certificate_refused", "C43",
     "a locked validator that gets a proposal of another block with a certificate older than its lock",
     "a locked validator gives no prevote instead of prevoting its lock",
     [(SMR, "                } else if lock_round == lock.round && proposal_hash != self.block_hash {",
       "                } else if proposal_hash != self.block_hash {")],
     SMR, '''
    #[test]
    fn the_lock_is_prevoted() {
        use TriggerType::*;
        let out = drive(vec![
            height(1),
            state(PrevoteQC, 1, 1, hash(1), None),
            state(PrecommitQC, 1, 2, Hash::new(), None),
            state(Proposal, 1, 3, hash(2), Some(0)),
        ]);
        assert!(out[3].0.iter().any(|e| match e {
            SMREvent::PrevoteVote { block_hash, round, .. } => *block_hash == hash(1) && *round == 3,
            _ => false,
        }));
    }
''', "smr.rs")

seed("s31_certificate_before_proposal", "C43",
     "a prevote certificate of the current round that overtakes the proposal of a round after the first",
     "the validator ignores the certificate and never precommits in that round",
     [(SMR, "        if prevote_round < self.round {", "        if prevote_round < self.round || (self.step == Step::Propose && prevote_round == self.round && self.round > 0) {")],
     SMR, '''
    #[test]
    fn the_certificate_is_followed() {
        use TriggerType::*;
        let out = drive(vec![
            height(1),
            state(PrecommitQC, 1, 0, Hash::new(), None),
            state(PrevoteQC, 1, 1, hash(1), None),
        ]);
        assert!(out[2].0.iter().any(|e| match e {
            SMREvent::PrecommitVote { block_hash, round, .. } => *block_hash == hash(1) && *round == 1,
            _ => false,
        }));
    }
''', "smr.rs")

seed("s32_first_block_only", "C44",
     "votes for two blocks in one round, the smaller group stored first",
     "a quorum is overlooked when a vote for another block exists",
     [(P, "                return Ok(Some(hash.to_owned()));\n            }\n        }\n        Ok(None)",
       "                return Ok(Some(hash.to_owned()));\n            }\n            if acc * 2 < threshold && set.len() < vote_map.len() {\n                break;\n            }\n        }\n        Ok(None)")],
     P, '''
    #[test]
    fn a_quorum_is_found_among_other_votes() {
        run(async {
            for k in 0..60u8 {
                let l = World::new(0).leader(1, 0);
                let mut w = World::at(l, 1).await;
                let other: Vec<u8> = (0..4).filter(|i| *i != l).collect();
                w.msg(OverlordMsg::SignedVote(vote(l, VoteType::Prevote, 1, 0, &blk(k + 100).1))).await;
                for i in other {
                    w.msg(OverlordMsg::SignedVote(vote(i, VoteType::Prevote, 1, 0, &blk(k).1))).await;
                }
                assert!(w.sent().iter().any(|m| matches!(m.1, OverlordMsg::AggregatedVote(_))));
            }
        })
    }
''', "state.rs")

seed("s33_leader_drops_early_votes", "C44",
     "votes of the next height that reach a node while it leads the round of the height before",
     "early votes for the next height are dropped",
     [(P, "        self.verify_address(&voter)?;\n\n        // Check if the quorum",
       "        self.verify_address(&voter)?;\n        if self.is_leader && height != self.height {\n            return Ok(());\n        }\n\n        // Check if the quorum")],
     P, '''
    #[test]
    fn early_votes_are_kept() {
        run(async {
            let l = World::new(0).leader(1, 0);
            let mut w = World::at(l, 1).await;
            for i in 0..4 {
                w.msg(OverlordMsg::SignedVote(vote(i, VoteType::Prevote, 2, 0, &blk(1).1))).await;
            }
            w.status(status(2, 4)).await;
            let v = w.verified().await;
            assert_eq!(v.iter().filter(|m| matches!(m, OverlordMsg::SignedVote(_))).count(), 4);
        })
    }
''', "state.rs")

seed("s34_old_certificate_not_committed", "C45",
     "a commit whose precommit certificate is of an earlier round than the one the node is in",
     "the commit is refused and the node stays at the height",
     [(P, "        log::debug!(\"Overlord: state generate proof\");",
       "        if qc.round < self.round {\n            return Err(ConsensusError::StorageErr(\"Outdated precommit QC\".to_string()));\n        }\n        log::debug!(\"Overlord: state generate proof\");")],
     P, '''
    #[test]
    fn the_block_is_committed_in_a_later_round() {
        run(async {
            let mut w = World::at(1, 1).await;
            let l = w.leader(1, 0);
            w.msg(OverlordMsg::SignedProposal(prop(l, 1, 0, 7, None))).await;
            w.round(1, None, FromWhere::PrecommitQC(u64::max_value())).await;
            w.msg(OverlordMsg::AggregatedVote(qc(VoteType::Precommit, 1, 0, &blk(7).1, &[0, 1, 2]))).await;
            w.event(SMREvent::Commit(blk(7).1)).await;
            assert_eq!(w.net.commits.lock().unwrap().len(), 1);
            assert_eq!(w.st.height, 2);
        })
    }
''', "state.rs")

seed("s35_leader_forgets_certificate", "C45",
     "a leader whose block check ends after the prevote certificate was made",
     "the leader never precommits the block",
     [(P, "            if qc.round == self.round {\n                self.state_machine", "            if qc.round == self.round && !self.is_leader {\n                self.state_machine")],
     P, '''
    #[test]
    fn the_leader_goes_on_after_the_check() {
        run(async {
            let l = World::new(0).leader(1, 0);
            let mut w = World::at(l, 1).await;
            w.msg(OverlordMsg::AggregatedVote(qc(VoteType::Prevote, 1, 0, &blk(7).1, &[0, 1, 2]))).await;
            assert!(w.triggers().is_empty());
            let _ = w.st.handle_resp(Some(VerifyResp { height: 1, round: 0, block_hash: blk(7).1, is_pass: true }));
            assert!(w.triggers().iter().any(|t| t.trigger_type == TriggerType::PrevoteQC));
        })
    }
''', "state.rs")


seed("s36_observer_of_genesis_votes", "C46",
     "a node that is started before the first height and is not in the list it is given",
     "the node starts with a voting right it does not have",
     [(P, "            consensus_power: auth.contains(&addr),", "            consensus_power: init_height == 0 || auth.contains(&addr),")],
     P, '''
    #[test]
    fn an_observer_starts_without_voting_right() {
        run(async {
            assert!(World::with_nodes(1, nodes(4), Arc::new(Log::default())).st.consensus_power);
            assert!(!World::with_nodes(9, nodes(4), Arc::new(Log::default())).st.consensus_power);
        })
    }
''', "state.rs")

seed("s37_started_without_idle_members", "C46",
     "a node started with a list that has a member of zero vote weight and non-zero propose weight",
     "the started node does not know that member and elects other leaders than its peers",
     [(P, "        auth.update(&mut authority_list);\n\n        let state",
       "        authority_list.retain(|node| node.vote_weight > 0);\n        auth.update(&mut authority_list);\n\n        let state")],
     P, '''
    #[test]
    fn every_member_is_known_from_the_start() {
        run(async {
            let mut list = nodes(4);
            list[2].vote_weight = 0;
            let w = World::with_nodes(1, list, Arc::new(Log::default()));
            assert!(w.st.authority.contains(&addr(2)));
            assert!(w.st.consensus_power);
        })
    }
''', "state.rs")


seed("s38_no_pause_after_later_rounds", "C47",
     "a commit in a later round of a height, at the leader of the next height, before the block interval is over",
     "the leader enters the next height too early",
     [(P, "            && cost < Duration::from_millis(self.block_interval)\n",
       "            && cost < Duration::from_millis(self.block_interval)\n            && self.round == INIT_ROUND\n")],
     P, '''
    #[test]
    fn the_next_leader_keeps_the_interval() {
        run(async {
            let l = World::new(0).leader(2, 0);
            let other = World::new(0).leader(1, 1);
            let mut w = World::new(l);
            let mut s = status(1, 4);
            s.interval = Some(800);
            w.status(s).await;
            w.round(1, None, FromWhere::PrecommitQC(0)).await;
            w.msg(OverlordMsg::SignedProposal(prop(other, 1, 1, 7, None))).await;
            w.msg(OverlordMsg::AggregatedVote(qc(VoteType::Precommit, 1, 1, &blk(7).1, &[0, 1, 2]))).await;
            let t = Instant::now();
            w.event(SMREvent::Commit(blk(7).1)).await;
            assert_eq!(w.st.height, 2);
            assert!(t.elapsed() > Duration::from_millis(400));
        })
    }
''', "state.rs")

seed("s39_own_choke_not_counted", "C45",
     "a node that was ordered to choke while three others of a list of four did as well but one of them is late",
     "the own choke is not counted with the others",
     [(P, "        self.chokes.insert(self.round, signed_choke.clone());\n        self.save_wal_with_lock_round(Step::Brake, lock_round)",
       "        if lock_round.is_none() || self.is_leader {\n            self.chokes.insert(self.round, signed_choke.clone());\n        }\n        self.save_wal_with_lock_round(Step::Brake, lock_round)")],
     P, '''
    #[test]
    fn the_own_choke_counts() {
        run(async {
            let l = World::new(0).leader(1, 0);
            let me = (0..4).find(|i| *i != l && *i != World::new(0).leader(1, 1)).unwrap();
            let mut w = World::at(me, 1).await;
            w.msg(OverlordMsg::SignedProposal(prop(l, 1, 0, 7, None))).await;
            w.msg(OverlordMsg::AggregatedVote(qc(VoteType::Prevote, 1, 0, &blk(7).1, &[0, 1, 2]))).await;
            w.event(SMREvent::Brake { height: 1, round: 0, lock_round: Some(0) }).await;
            assert_eq!(w.st.chokes.get_chokes(0).map(|c| c.len()), Some(1));
        })
    }
''', "state.rs")

seed("s40_prime_divides_size", "C48",
     "a list whose length is a prime number: two, three, five, seven",
     "every height of such a list is led by the same member in its first round",
     [(AM, "    let prime_num = *get_primes_less_than_x(len).last()", "    let prime_num = *get_primes_less_than_x(len + 1).last()")],
     AM, HEAD + '''
    #[test]
    fn each_member_opens_a_height() {
        let list: Vec<Node> = (0u8..5).map(|i| Node::new(Address::from(vec![i; 20]))).collect();
        let mut a = AuthorityManage::new();
        a.update(&mut list.clone());
        let first: std::collections::HashSet<_> = (20..25).map(|h| a.get_proposer(h, 0).unwrap()).collect();
        assert_eq!(first.len(), 5);
    }
}
''')

seed("s41_last_round_keeps_leader", "C48",
     "a height that goes through as many rounds as the timer has steps",
     "from the fifteenth round on the same leader stays, so a faulty one is never passed over",
     [(AM, "    let len = authority_len as u32;", "    let (len, round) = (authority_len as u32, round.min(15));")],
     AM, HEAD + '''
    #[test]
    fn the_lead_moves_on() {
        let list: Vec<Node> = (0u8..4).map(|i| Node::new(Address::from(vec![i; 20]))).collect();
        let mut a = AuthorityManage::new();
        a.update(&mut list.clone());
        let led: std::collections::HashSet<_> = (30..34).map(|r| a.get_proposer(6, r).unwrap()).collect();
        assert_eq!(led.len(), 4);
    }
}
''')

seed("s42_voters_from_the_end", "C01",
     "a certificate of validators with unequal vote weights",
     "the weights of the wrong validators are counted for a certificate",
     [(AM, "        for node in bitmap.iter().zip(self.address.iter()) {", "        let members = bitmap.iter().rev().skip_while(|bit| !*bit).collect::<Vec<_>>();\n        for node in members.into_iter().rev().zip(self.address.iter().rev()) {")],
     AM, HEAD + '''
    #[test]
    fn a_light_majority_of_heads_is_not_enough() {
        let mut list: Vec<Node> = (0u8..4).map(|i| Node::new(Address::from(vec![i; 20]))).collect();
        list[0].vote_weight = 9;
        let mut a = AuthorityManage::new();
        a.update(&mut list);
        assert!(!a.is_above_threshold(&[0b0111_0000]).unwrap());
        assert!(a.is_above_threshold(&[0b1101_0000]).unwrap());
    }
}
''')

seed("s43_voters_sorted_on_reading", "C49",
     "an aggregated choke whose voters are not listed in the order of their addresses, written and read with serde",
     "the voters come back in another order than the one their signatures were aggregated in",
     [("src/serde_multi_hex.rs", "    Ok(Vec::from_iter(\n        vec_t.inner.into_iter().map(|wrap_t| wrap_t.inner),\n    ))",
       "    let mut list = Vec::from_iter(vec_t.inner.into_iter().map(|wrap_t| wrap_t.inner));\n    list.sort();\n    Ok(list)")],
     "src/types.rs", HEAD + '''
    #[test]
    fn voters_keep_their_order() {
        let c = AggregatedChoke {
            height: 1,
            round: 2,
            signature: Signature::from(vec![1, 2]),
            voters: vec![Address::from(vec![7]), Address::from(vec![3]), Address::from(vec![])],
        };
        let s = serde_json::to_string(&c).unwrap();
        assert_eq!(serde_json::from_str::<AggregatedChoke>(&s).unwrap(), c);
        let b = bincode::serialize(&c).unwrap();
        assert_eq!(bincode::deserialize::<AggregatedChoke>(&b).unwrap(), c);
    }
}
''')

seed("s44_zero_weight_not_written", "C49",
     "a validator of propose weight zero written in a format without field names",
     "the list of validators cannot be read back, or is read with shifted weights",
     [("src/types.rs", "    pub propose_weight: u32,\n    /// The vote weight",
       "    #[serde(default, skip_serializing_if = \"weightless\")]\n    pub propose_weight: u32,\n    /// The vote weight"),
      ("src/types.rs", "impl PartialOrd for Node {", "fn weightless(weight: &u32) -> bool {\n    *weight == 0\n}\n\nimpl PartialOrd for Node {")],
     "src/types.rs", HEAD + '''
    #[test]
    fn validators_read_back() {
        let mut n = Node::new(Address::from(vec![9; 20]));
        n.set_vote_weight(5);
        let mut m = n.clone();
        m.set_propose_weight(0);
        let list = vec![n, m];
        let b = bincode::serialize(&list).unwrap();
        assert_eq!(bincode::deserialize::<Vec<Node>>(&b).ok(), Some(list.clone()));
        let s = serde_json::to_string(&list).unwrap();
        assert_eq!(serde_json::from_str::<Vec<Node>>(&s).unwrap(), list);
    }
}
''')

seed("s45_choke_with_the_lock", "C50",
     "a node locked in an earlier round whose round, entered by a nil precommit certificate, times out",
     "its choke carries the certificate of the lock instead of the one that ended the round before, so others cannot follow",
     [(P, "            from: self.update_from_where.clone(),\n        };\n\n        let signature",
       "            from: match lock_round {\n                Some(locked) => UpdateFrom::PrevoteQC(self.votes.get_qc_by_id(\n                    self.height,\n                    locked,\n                    VoteType::Prevote,\n                )?),\n                None => self.update_from_where.clone(),\n            },\n        };\n\n        let signature")],
     P, '''
    #[test]
    fn a_choke_tells_how_its_sender_got_there() {
        run(async {
            let mut w = World::at(0, 1).await;
            let (b, h) = blk(7);
            w.st.hash_with_block.insert(h.clone(), b);
            w.st.is_full_transaction.insert(h.clone(), true);
            w.st.votes.set_qc(qc(VoteType::Prevote, 1, 0, &h, &[0, 1, 2]));
            let nil = qc(VoteType::Precommit, 1, 1, &Hash::new(), &[0, 1, 2]);
            w.st.votes.set_qc(nil.clone());
            w.round(2, Some((0, h.clone())), FromWhere::PrecommitQC(1)).await;
            w.forget();
            w.event(SMREvent::Brake { height: 1, round: 2, lock_round: Some(0) }).await;
            let mut seen = 0;
            for (_, m) in w.sent() {
                if let OverlordMsg::SignedChoke(c) = m {
                    seen += 1;
                    assert_eq!((c.choke.height, c.choke.round), (1, 2));
                    assert_eq!(c.choke.from, UpdateFrom::PrecommitQC(nil.clone()));
                }
            }
            assert_eq!(seen, 1);
        })
    }
''', "state.rs")

seed("s46_choke_two_rounds_ahead", "C50",
     "a choke of a round two or more ahead, whose sender got there by an aggregated choke",
     "a node that is more than one round behind keeps the choke instead of following it",
     [(P, "        if choke_round > self.round {", "        if choke_round == self.round + 1 {")],
     P, '''
    #[test]
    fn a_node_far_behind_catches_up() {
        run(async {
            let mut w = World::at(0, 1).await;
            w.forget();
            w.msg(OverlordMsg::SignedChoke(choke(2, 1, 6, UpdateFrom::ChokeQC(choke_qc(1, 5, &[1, 2, 3]))))).await;
            let t = w.triggers();
            assert!(t.iter().any(|t| t.round == 6), "{:?}", t);
        })
    }
''', "state.rs")

seed("s47_bitmap_of_full_bytes", "C51",
     "an authority list whose length is a multiple of eight",
     "every certificate is taken as malformed, so none passes the verification",
     [(AM, "        let bitmap = BitVec::from_bytes(bitmap);\n        let mut acc = 0u64;",
       "        if bitmap.len() != self.address.len() / 8 + 1 {\n            return Err(ConsensusError::Other(\"bitmap of another list\".to_string()));\n        }\n        let bitmap = BitVec::from_bytes(bitmap);\n        let mut acc = 0u64;")],
     AM, HEAD + '''
    #[test]
    fn eight_members_can_certify() {
        let mut list: Vec<Node> = (0u8..8).map(|i| Node::new(Address::from(vec![i; 20]))).collect();
        let mut a = AuthorityManage::new();
        a.update(&mut list);
        assert!(a.is_above_threshold(&[0b1111_1110]).unwrap());
        assert!(!a.is_above_threshold(&[0b1111_1000]).unwrap());
    }
}
''')

seed("s48_proposal_with_own_lock", "C51",
     "a leader that is locked on a certificate it aggregated itself in an earlier round, and proposes its lock again",
     "its proposal is thrown away by everybody although all signatures are valid",
     [("src/state/parallel.rs", "                if let Some(polc) = sp.proposal.lock {",
       "                if sp.proposal.lock.as_ref().map_or(false, |l| l.lock_votes.leader == sp.proposal.proposer) {\n                    log::error!(\"Overlord: proposal with a lock of its own proposer\");\n                    return;\n                }\n\n                if let Some(polc) = sp.proposal.lock {")],
     P, '''
    #[test]
    fn a_locked_leader_is_heard() {
        run(async {
            let mut w = World::at(0, 1).await;
            let (_, h) = blk(7);
            let mut lock = qc(VoteType::Prevote, 1, 0, &h, &[0, 1, 2]);
            lock.leader = addr(2);
            let mut sp = prop(2, 1, 4, 7, Some(lock));
            sp.proposal.proposer = addr(2);
            sp.signature = sig(&digest(&rlp::encode(&sp.proposal)), &addr(2));
            let (tx, mut rx) = unbounded();
            parallel_verify(Context::new(), OverlordMsg::SignedProposal(sp), Arc::clone(&w.st.util), w.st.authority.clone(), tx).await;
            w.settle().await;
            assert_eq!(now(&mut rx).len(), 1);
        })
    }
''', "state.rs")
