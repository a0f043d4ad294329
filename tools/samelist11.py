"""more refactorings: macros, generic helpers, library calls, enums of outcomes"""
from mutlist import same
from samelist10 import rx, text
C, P, PA, T, SM, ST, CO, TI, AM = ("src/state/collection.rs", "src/state/process.rs", "src/state/parallel.rs", "src/types.rs", "src/smr/state_machine.rs",
                                   "src/smr/smr_types.rs", "src/codec.rs", "src/timer.rs", "src/utils/auth_manage.rs")
MAC = """macro_rules! rlp_quad {
    ($ty:ident { $($field:ident),* }) => {
        impl Encodable for $ty {
            fn rlp_append(&self, s: &mut RlpStream) {
                s.begin_list([$(stringify!($field)),*].len());
                $(s.append(&self.$field);)*
            }
        }

        impl Decodable for $ty {
            fn decode(r: &Rlp) -> Result<Self, DecoderError> {
                let mut index = 0;
                match r.prototype()? {
                    Prototype::List(4) => {
                        $(
                            let $field: u64 = r.val_at(index)?;
                            index += 1;
                        )*
                        let _ = index;
                        Ok($ty { $($field),* })
                    }
                    _ => Err(DecoderError::RlpInconsistentLengthAndData),
                }
            }
        }
    };
}

rlp_quad!(DurationConfig {
    propose_ratio,
    prevote_ratio,
    precommit_ratio,
    brake_ratio
});
"""
rx("m_codec_macro", (CO, [(r"impl Encodable for DurationConfig \{.*?\n\}\n\nimpl Decodable for DurationConfig \{.*?\n\}\n", lambda m: MAC)]))
HELP = "fn bytes_at(r: &Rlp, index: usize) -> Result<Bytes, DecoderError> {\n    let tmp: Vec<u8> = r.val_at(index)?;\n    Ok(Bytes::from(tmp))\n}\n\n// impl Encodable and Decodable trait for SignedProposal\n"
rx("m_codec_bytes_at", (CO, [(r"let tmp: Vec<u8> = r\.val_at\((\d)\)\?;\n(\s*)let (\w+) = (?:Signature|Hash|Address)::from\(tmp\);", r"let \3 = bytes_at(r, \1)?;"), (r"// impl Encodable and Decodable trait for SignedProposal\n", HELP)]))
EXP = "fn expect_list(r: &Rlp, len: usize) -> Result<(), DecoderError> {\n    match r.prototype()? {\n        Prototype::List(n) if n == len => Ok(()),\n        _ => Err(DecoderError::RlpInconsistentLengthAndData),\n    }\n}\n\n"
rx("m_codec_expect", (CO, [(r"(impl Decodable for Proof \{\n    fn decode\(r: &Rlp\) -> Result<Self, DecoderError> \{\n)        match r.prototype\(\)\? \{\n            Prototype::List\(4\) => \{\n(.*?)\n            \}\n            _ => Err\(DecoderError::RlpInconsistentLengthAndData\),\n        \}\n", r"\1        expect_list(r, 4)?;\n\2\n"), (r"// impl Encodable and Decodable trait for Proof\n", EXP)]))
rx("m_codec_iter", (CO, [(r"(impl Decodable for DurationConfig \{\n    fn decode\(r: &Rlp\) -> Result<Self, DecoderError> \{\n        match r.prototype\(\)\? \{\n            Prototype::List\(4\) => \{\n).*?Ok\(DurationConfig \{.*?\}\)\n", r"\1                Ok(DurationConfig {\n                    propose_ratio: r.val_at(0)?,\n                    prevote_ratio: r.val_at(1)?,\n                    precommit_ratio: r.val_at(2)?,\n                    brake_ratio: r.val_at(3)?,\n                })\n")]))
rx("m_codec_status_unwrap", (CO, [(r"let interval = if self.interval.is_none\(\) \{\n            0u64\n        \} else \{\n            self.interval.unwrap\(\)\n        \};", "let interval = self.interval.unwrap_or_default();"),
                                  (r"let config = if self.timer_config.is_none\(\) \{\n            DurationConfig::default\(\)\n        \} else \{\n            self.timer_config.clone\(\).unwrap\(\)\n        \};", "let config = self.timer_config.clone().unwrap_or_default();")]))
GEN = """fn signed_by<C: Crypto, M: rlp::Encodable>(
    crypto: &C,
    message: &M,
    signature: &Bytes,
    signer: &Address,
) -> bool {
    let hash = crypto.hash(Bytes::from(rlp::encode(message)));
    match crypto.verify_signature(signature.clone(), hash, signer.clone()) {
        Ok(()) => true,
        Err(err) => {
            log::error!("Overlord: verify signature failed {:?}", err);
            false
        }
    }
}

fn get_voters("""
rx("m_par_generic", (PA, [(r"let hash = crypto.hash\(Bytes::from\(rlp::encode\(&sv.vote\)\)\);\n.*?\n                    \);\n", "if signed_by(crypto.as_ref(), &sv.vote, &sv.signature, &sv.voter) {\n                    let _ = tx.unbounded_send((ctx, msg_clone));\n                }\n"),
                          (r"let hash = crypto.hash\(Bytes::from\(rlp::encode\(&sc.choke.to_hash\(\)\)\)\);\n.*?\n                    \)\n", "if signed_by(crypto.as_ref(), &sc.choke.to_hash(), &sc.signature, &sc.address) {\n                    let _ = tx.unbounded_send((ctx, msg_clone));\n                }\n"),
                          (r"let hash = crypto.hash\(Bytes::from\(rlp::encode\(&sp.proposal\)\)\);\n.*?return;\n                \}\n", "if !signed_by(crypto.as_ref(), &sp.proposal, &sp.signature, &sp.proposal.proposer) {\n                    return;\n                }\n"),
                          (r"\nfn get_voters\(", lambda m: "\n" + GEN)]))
ENUM = "\n#[derive(Debug, PartialEq, Eq)]\nenum Disposition {\n    Handle,\n    Done,\n}\n\n#[tracing_span(kind = \"overlord\", tags = \"{'height': 'height', 'round': 'round'}\")]\nasync fn check_current_block"
rx("m_filter_enum", (P, [(r"\) -> ConsensusResult<bool> \{\n        if self\.filter_message\(height, round\) \{\n            return Ok\(true\);", ") -> ConsensusResult<Disposition> {\n        if self.filter_message(height, round) {\n            return Ok(Disposition::Done);"),
                         (r"\.insert\(ctx, height, round, signed_proposal\.clone\(\)\)\?;\n            return Ok\(true\);\n        \}\n        Ok\(false\)", ".insert(ctx, height, round, signed_proposal.clone())?;\n            return Ok(Disposition::Done);\n        }\n        Ok(Disposition::Handle)"),
                         (r"(        )if (self\.filter_signed_proposal\(\n.*?\)\?) \{\n            return Ok\(\(\)\);\n        \}", r"\1let disposition = \2;\n        if disposition == Disposition::Done {\n            return Ok(());\n        }"),
                         (r"\n#\[tracing_span\(kind = \"overlord\", tags = \"\{'height': 'height', 'round': 'round'\}\"\)\]\nasync fn check_current_block", lambda m: ENUM)]))
rx("m_ext_trait", (P, [(r"if acc \* 3 > threshold \{", "if acc.more_than_two_thirds(self.authority.get_vote_weight_sum()) {"), (r"        let threshold = self.authority.get_vote_weight_sum\(\) \* 2;\n", ""),
                       (r"\n#\[tracing_span\(kind = \"overlord\", tags = \"\{'height': 'height', 'round': 'round'\}\"\)\]\nasync fn check_current_block", lambda m: "\ntrait Quorum {\n    fn more_than_two_thirds(self, total: Self) -> bool;\n}\n\nimpl Quorum for u64 {\n    fn more_than_two_thirds(self, total: u64) -> bool {\n        self * 3 > total * 2\n    }\n}\n" + m.group(0))]))
rx("m_tm_clamp", (TI, [(r"            let mut coef = MAX_TIMEOUT_COEF;\n            if self.round < u64::from\(MAX_TIMEOUT_COEF\) \{\n                coef = self.round as u32;\n            \}\n", "            let coef = self.round.clamp(0, u64::from(MAX_TIMEOUT_COEF)) as u32;\n")]))
rx("m_tm_shift", (TI, [(r"interval \*= 2u32\.pow\(coef\);", "interval *= 1u32 << coef;")]))
rx("m_tm_loop", (TI, [(r"interval \*= 2u32\.pow\(coef\);", "for _ in 0..coef {\n                interval *= 2;\n            }")]))
rx("m_tm_tryfrom", (TI, [(r"            let mut coef = MAX_TIMEOUT_COEF;\n            if self.round < u64::from\(MAX_TIMEOUT_COEF\) \{\n                coef = self.round as u32;\n            \}\n", "            let coef = u32::try_from(self.round)\n                .unwrap_or(MAX_TIMEOUT_COEF)\n                .min(MAX_TIMEOUT_COEF);\n"), (r"use std::task::\{Context", "use std::convert::TryFrom;\nuse std::task::{Context")]))
rx("m_choke_rfind", (C, [(r"        for \(round, set\) in self\.chokes\.iter\(\)\.rev\(\) \{\n            if set\.len\(\) \* 3 > nodes_num \* 2 \{\n                return Some\(\*round\);\n            \}\n        \}\n        None", "        self.chokes\n            .iter()\n            .rfind(|(_, set)| set.len() * 3 > nodes_num * 2)\n            .map(|(round, _)| *round)")]))
rx("m_choke_nextback", (C, [(r"        for \(round, set\) in self\.chokes\.iter\(\)\.rev\(\) \{\n            if set\.len\(\) \* 3 > nodes_num \* 2 \{\n                return Some\(\*round\);\n            \}\n        \}\n        None", "        self.chokes\n            .iter()\n            .filter(|(_, set)| set.len() * 3 > nodes_num * 2)\n            .next_back()\n            .map(|(round, _)| *round)")]))
rx("m_choke_maxkey", (C, [(r"        for \(round, set\) in self\.chokes\.iter\(\)\.rev\(\) \{\n            if set\.len\(\) \* 3 > nodes_num \* 2 \{\n                return Some\(\*round\);\n            \}\n        \}\n        None", "        self.chokes\n            .iter()\n            .filter(|(_, set)| set.len() * 3 > nodes_num * 2)\n            .max_by_key(|(round, _)| **round)\n            .map(|(round, _)| *round)")]))
rx("m_choke_voters_all", (P, [(r"            self\.verify_address\(voter\)\?;\n            if !voters\.insert\(voter\) \{", "            self.verify_address(voter)?;\n            if voters.replace(voter).is_some() {")]))
rx("m_choke_len_set", (P, [(r"        for voter in aggregated_choke\.voters\.iter\(\) \{\n            self\.verify_address\(voter\)\?;\n            if !voters\.insert\(voter\) \{\n(.*?)            \}\n        \}\n", r"        for voter in aggregated_choke.voters.iter() {\n            self.verify_address(voter)?;\n            voters.insert(voter);\n        }\n        if voters.len() != aggregated_choke.voters.len() {\n\1        }\n")]))
rx("m_closure_round", (C, [(r"        self\.general\n            \.entry\(vote\.get_round\(\)\)\n            \.or_insert_with\(RoundCollector::new\)\n            \.insert_vote\(ctx, hash, vote, addr\);", "        let round = vote.get_round();\n        self.with_round(round, |rc| rc.insert_vote(ctx, hash, vote, addr));"),
                           (r"        self\.general\n            \.entry\(qc\.get_round\(\)\)\n            \.or_insert_with\(RoundCollector::new\)\n            \.set_qc\(qc\);", "        self.with_round(qc.get_round(), |rc| rc.set_qc(qc));"),
                           (r"    fn get_qc_by_hash\(&self, hash: Hash", "    fn with_round<R>(&mut self, round: u64, f: impl FnOnce(&mut RoundCollector) -> R) -> R {\n        f(self.general.entry(round).or_insert_with(RoundCollector::new))\n    }\n\n    fn get_qc_by_hash(&self, hash: Hash")]))
rx("m_height_entry", (C, [(r"    pub fn set_qc\(&mut self, qc: AggregatedVote\) \{\n        self\.0\n            \.entry\(qc\.get_height\(\)\)\n            \.or_insert_with\(VoteRoundCollector::new\)\n            \.set_qc\(qc\);", "    pub fn set_qc(&mut self, qc: AggregatedVote) {\n        self.height_mut(qc.get_height()).set_qc(qc);"),
                          (r"    pub fn get_qc_by_hash\(", "    fn height_mut(&mut self, height: u64) -> &mut VoteRoundCollector {\n        self.0\n            .entry(height)\n            .or_insert_with(VoteRoundCollector::new)\n    }\n\n    pub fn get_qc_by_hash(")]))
rx("m_sm_expect_current", (SM, [(r"        if self\.height != height \|\| self\.round != round \{\n            return Ok\(\(\)\);\n        \}\n\n        if self\.step > Step::Propose \{\n            return Ok\(\(\)\);\n        \}", "        let current = self.height == height && self.round == round;\n        if !current || self.step > Step::Propose {\n            return Ok(());\n        }")]))
rx("m_error_from", (P, [(r"\.map_err\(\|err\| ConsensusError::CryptoErr\(format!\(\"\{:\?\}\", err\)\)\)\?", ".map_err(crypto_error)?"),
                        (r"\nfn mock_init_qc\(", "\nfn crypto_error(err: Box<dyn std::error::Error + Send>) -> ConsensusError {\n    ConsensusError::CryptoErr(format!(\"{:?}\", err))\n}\n\nfn mock_init_qc(")]))
rx("m_filter_ranges", (P, [(r"        if height < self\.height \|\| \(height == self\.height && round < self\.round\) \{", "        if (height, round) < (self.height, self.round) {")]))
rx("m_filter_gap_saturating", (P, [(r"self\.height \+ FUTURE_HEIGHT_GAP < height", "height.saturating_sub(self.height) > FUTURE_HEIGHT_GAP")]))
rx("m_filter_gap_contains", (P, [(r"self\.height \+ FUTURE_HEIGHT_GAP < height", "!(self.height..=self.height + FUTURE_HEIGHT_GAP).contains(&height)")]))
rx("m_agg_fields_destructure", (P, [(r"        let proposal = signed_proposal\.proposal\.clone\(\);\n        let signature = signed_proposal\.signature\.clone\(\);\n", "        let SignedProposal {\n            signature,\n            proposal,\n        } = signed_proposal.clone();\n")]))
