
#[cfg(test)]
#[allow(dead_code, unused_imports, unused_mut, unused_variables)]
mod seeded_demo {
    use super::*;
    use crate::smr::smr_types::*;
    use async_trait::async_trait;
    use futures::StreamExt;
    use std::error::Error;
    use std::sync::Mutex;

    #[derive(Clone, Debug, PartialEq, Eq)]
    struct Blk(Bytes);
    impl Codec for Blk {
        fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>> {
            Ok(self.0.clone())
        }
        fn decode(data: Bytes) -> Result<Self, Box<dyn Error + Send>> {
            Ok(Blk(data))
        }
    }

    fn oops() -> Box<dyn Error + Send> {
        Box::new(ConsensusError::Other("refused".to_string()))
    }

    #[derive(Default)]
    struct Log {
        data: Mutex<Option<Bytes>>,
        fail: Mutex<bool>,
    }
    #[async_trait]
    impl Wal for Log {
        async fn save(&self, info: Bytes) -> Result<(), Box<dyn Error + Send>> {
            if *self.fail.lock().unwrap() {
                return Err(oops());
            }
            *self.data.lock().unwrap() = Some(info);
            Ok(())
        }
        async fn load(&self) -> Result<Option<Bytes>, Box<dyn Error + Send>> {
            Ok(self.data.lock().unwrap().clone())
        }
    }

    struct Key(Address);
    fn digest(msg: &[u8]) -> Hash {
        let mut out = Vec::new();
        for k in 0..4u64 {
            let mut h = 0xcbf2_9ce4_8422_2325u64 ^ k;
            for b in msg {
                h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
            }
            out.extend_from_slice(&h.to_be_bytes());
        }
        Bytes::from(out)
    }
    fn sig(hash: &Hash, who: &Address) -> Signature {
        let mut v = hash.to_vec();
        v.extend_from_slice(who);
        Bytes::from(v)
    }
    fn agg(mut sigs: Vec<Signature>) -> Signature {
        sigs.sort();
        Bytes::from(sigs.concat())
    }
    impl Crypto for Key {
        fn hash(&self, msg: Bytes) -> Hash {
            digest(&msg)
        }
        fn sign(&self, hash: Hash) -> Result<Signature, Box<dyn Error + Send>> {
            Ok(sig(&hash, &self.0))
        }
        fn aggregate_signatures(&self, s: Vec<Signature>, voters: Vec<Address>) -> Result<Signature, Box<dyn Error + Send>> {
            for (s, v) in s.iter().zip(voters.iter()) {
                if !s.ends_with(v) {
                    return Err(oops());
                }
            }
            Ok(agg(s))
        }
        fn verify_signature(&self, s: Signature, hash: Hash, voter: Address) -> Result<(), Box<dyn Error + Send>> {
            if s == sig(&hash, &voter) { Ok(()) } else { Err(oops()) }
        }
        fn verify_aggregated_signature(&self, s: Signature, hash: Hash, voters: Vec<Address>) -> Result<(), Box<dyn Error + Send>> {
            if s == agg(voters.iter().map(|v| sig(&hash, v)).collect()) { Ok(()) } else { Err(oops()) }
        }
    }

    #[derive(Default)]
    struct Net {
        sent: Mutex<Vec<(Option<Address>, OverlordMsg<Blk>)>>,
        commits: Mutex<Vec<(u64, Commit<Blk>)>>,
        errors: Mutex<Vec<String>>,
        views: Mutex<Vec<(u64, u64, String)>>,
        refuse: Mutex<bool>,
        asked: Mutex<Vec<u64>>,
    }
    #[async_trait]
    impl Consensus<Blk> for Net {
        async fn get_block(&self, _c: Context, height: u64) -> Result<(Blk, Hash), Box<dyn Error + Send>> {
            self.asked.lock().unwrap().push(height);
            let b = Bytes::from(format!("own block {}", height));
            Ok((Blk(b.clone()), digest(&b)))
        }
        async fn check_block(&self, _c: Context, _h: u64, _hash: Hash, _b: Blk) -> Result<(), Box<dyn Error + Send>> {
            if *self.refuse.lock().unwrap() { Err(oops()) } else { Ok(()) }
        }
        async fn commit(&self, _c: Context, height: u64, commit: Commit<Blk>) -> Result<Status, Box<dyn Error + Send>> {
            self.commits.lock().unwrap().push((height, commit));
            Ok(status(height + 1, 4))
        }
        async fn get_authority_list(&self, _c: Context, _h: u64) -> Result<Vec<Node>, Box<dyn Error + Send>> {
            Ok(nodes(4))
        }
        async fn broadcast_to_other(&self, _c: Context, msg: OverlordMsg<Blk>) -> Result<(), Box<dyn Error + Send>> {
            self.sent.lock().unwrap().push((None, msg));
            Ok(())
        }
        async fn transmit_to_relayer(&self, _c: Context, addr: Address, msg: OverlordMsg<Blk>) -> Result<(), Box<dyn Error + Send>> {
            self.sent.lock().unwrap().push((Some(addr), msg));
            Ok(())
        }
        fn report_error(&self, _c: Context, error: ConsensusError) {
            self.errors.lock().unwrap().push(format!("{:?}", error));
        }
        fn report_view_change(&self, _c: Context, height: u64, round: u64, reason: ViewChangeReason) {
            self.views.lock().unwrap().push((height, round, format!("{}", reason)));
        }
    }

    fn addr(i: u8) -> Address {
        Bytes::from(vec![i + 1; 20])
    }
    fn nodes(n: u8) -> Vec<Node> {
        (0..n).map(|i| Node::new(addr(i))).collect()
    }
    fn status(height: u64, n: u8) -> Status {
        Status { height, interval: None, timer_config: None, authority_list: nodes(n) }
    }
    fn blk(i: u8) -> (Blk, Hash) {
        let b = Bytes::from(vec![i; 8]);
        (Blk(b.clone()), digest(&b))
    }

    struct World {
        st: State<Blk, Net, Key, Log>,
        smr: UnboundedReceiver<SMRTrigger>,
        verified: UnboundedReceiver<(Context, OverlordMsg<Blk>)>,
        resp: UnboundedReceiver<VerifyResp>,
        net: Arc<Net>,
        log: Arc<Log>,
        n: u8,
    }

    fn now<X>(mut rx: &mut UnboundedReceiver<X>) -> Vec<X> {
        let mut out = vec![];
        let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
        while let std::task::Poll::Ready(Some(x)) = rx.poll_next_unpin(&mut cx) {
            out.push(x);
        }
        out
    }

    impl World {
        fn with_nodes(me: u8, list: Vec<Node>, log: Arc<Log>) -> World {
            let (tx, smr) = unbounded();
            let (vtx, verified) = unbounded();
            let net = Arc::new(Net::default());
            let n = list.len() as u8;
            let (st, resp) = State::new(
                SMRHandler::new(tx), addr(me), 0, 3000, list, vtx, Arc::clone(&net), Arc::new(Key(addr(me))), Arc::clone(&log),
            );
            World { st, smr, verified, resp, net, log, n }
        }
        fn new(me: u8) -> World {
            World::with_nodes(me, nodes(4), Arc::new(Log::default()))
        }
        /// a node at the start of the height
        async fn at(me: u8, height: u64) -> World {
            let mut w = World::new(me);
            w.status(status(height, 4)).await;
            w.round(0, None, FromWhere::PrecommitQC(u64::max_value())).await;
            w.forget();
            w
        }
        async fn status(&mut self, s: Status) {
            let _ = self.st.handle_msg(Context::new(), OverlordMsg::RichStatus(s)).await;
        }
        async fn round(&mut self, round: u64, lock: Option<(u64, Hash)>, from_where: FromWhere) {
            let e = SMREvent::NewRoundInfo {
                height: self.st.height,
                round,
                lock_round: lock.as_ref().map(|l| l.0),
                lock_proposal: lock.map(|l| l.1),
                from_where,
                new_interval: None,
                new_config: None,
            };
            let _ = self.st.handle_event(Some(e)).await;
        }
        async fn event(&mut self, e: SMREvent) {
            let _ = self.st.handle_event(Some(e)).await;
        }
        async fn msg(&mut self, m: OverlordMsg<Blk>) {
            let _ = self.st.handle_msg(Context::new(), m).await;
            self.settle().await;
        }
        /// let spawned tasks finish; the answers of the block checks are handled
        async fn settle(&mut self) {
            for _ in 0..20 {
                tokio::task::yield_now().await;
                for r in now(&mut self.resp) {
                    let _ = self.st.handle_resp(Some(r));
                }
            }
        }
        async fn verified(&mut self) -> Vec<OverlordMsg<Blk>> {
            self.settle().await;
            now(&mut self.verified).into_iter().map(|x| x.1).collect()
        }
        fn triggers(&mut self) -> Vec<SMRTrigger> {
            now(&mut self.smr)
        }
        fn sent(&mut self) -> Vec<(Option<Address>, OverlordMsg<Blk>)> {
            std::mem::take(&mut *self.net.sent.lock().unwrap())
        }
        fn forget(&mut self) {
            self.triggers();
            self.sent();
        }
        fn leader(&self, height: u64, round: u64) -> u8 {
            let a = self.st.authority.get_proposer(height, round).unwrap();
            (0..self.n).find(|i| addr(*i) == a).unwrap()
        }
    }

    fn vote(i: u8, t: VoteType, height: u64, round: u64, block_hash: &Hash) -> SignedVote {
        let vote = Vote { height, round, vote_type: t, block_hash: block_hash.clone() };
        let h = digest(&rlp::encode(&vote));
        SignedVote { signature: sig(&h, &addr(i)), vote, voter: addr(i) }
    }
    fn bits(n: u8, voters: &[u8]) -> Bytes {
        let mut b = BitVec::from_elem(n as usize, false);
        for i in voters {
            b.set(*i as usize, true);
        }
        Bytes::from(b.to_bytes())
    }
    fn qc(t: VoteType, height: u64, round: u64, block_hash: &Hash, voters: &[u8]) -> AggregatedVote {
        let s = voters.iter().map(|i| vote(*i, t.clone(), height, round, block_hash).signature).collect();
        AggregatedVote {
            signature: AggregatedSignature { signature: agg(s), address_bitmap: bits(4, voters) },
            vote_type: t,
            height,
            round,
            block_hash: block_hash.clone(),
            leader: addr(voters[0]),
        }
    }
    fn prop(i: u8, height: u64, round: u64, b: u8, lock: Option<AggregatedVote>) -> SignedProposal<Blk> {
        let proposal = Proposal {
            height,
            round,
            content: blk(b).0,
            block_hash: blk(b).1,
            lock: lock.map(|q| PoLC { lock_round: q.round, lock_votes: q }),
            proposer: addr(i),
        };
        let h = digest(&rlp::encode(&proposal));
        SignedProposal { signature: sig(&h, &addr(i)), proposal }
    }
    fn choke(i: u8, height: u64, round: u64, from: UpdateFrom) -> SignedChoke {
        let c = Choke { height, round, from };
        let h = digest(&rlp::encode(&c.to_hash()));
        SignedChoke { signature: sig(&h, &addr(i)), choke: c, address: addr(i) }
    }
    fn choke_qc(height: u64, round: u64, voters: &[u8]) -> AggregatedChoke {
        let s = voters.iter().map(|i| choke(*i, height, round, UpdateFrom::PrecommitQC(mock_init_qc())).signature).collect();
        AggregatedChoke { height, round, signature: agg(s), voters: voters.iter().map(|i| addr(*i)).collect() }
    }
    fn run<F: std::future::Future>(f: F) -> F::Output {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
    }
