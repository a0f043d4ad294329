
#[cfg(test)]
mod seeded_demo {
    use super::*;
    use crate::smr::smr_types::*;
    use bytes::Bytes;
    use futures::channel::mpsc::unbounded;
    use futures::StreamExt;

    fn hash(n: u8) -> Hash {
        Bytes::from(vec![n; 32])
    }

    fn trig(t: TriggerType, s: TriggerSource, h: u64, r: u64, hash: Hash, lock: Option<u64>) -> SMRTrigger {
        SMRTrigger {
            trigger_type: t,
            source: s,
            hash,
            lock_round: lock,
            round: r,
            height: h,
            wal_info: None,
        }
    }

    fn state(t: TriggerType, h: u64, r: u64, hash: Hash, lock: Option<u64>) -> SMRTrigger {
        trig(t, TriggerSource::State, h, r, hash, lock)
    }

    fn timer(t: TriggerType, h: u64, r: u64) -> SMRTrigger {
        trig(t, TriggerSource::Timer, h, r, Hash::new(), None)
    }

    fn height(h: u64) -> SMRTrigger {
        state(TriggerType::NewHeight(SMRStatus::new(h)), h, 0, Hash::new(), None)
    }

    /// events of every single trigger, for the node and for the timer
    fn drive(ts: Vec<SMRTrigger>) -> Vec<(Vec<SMREvent>, Vec<SMREvent>)> {
        let (tx, rx) = unbounded();
        let (mut sm, mut ev, mut tm) = StateMachine::new(rx);
        let mut out = vec![];
        for t in ts {
            tx.unbounded_send(t).unwrap();
            futures::executor::block_on(async { sm.next().await });
            let mut a = vec![];
            let mut b = vec![];
            let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
            while let std::task::Poll::Ready(Some(e)) = ev.poll_next_unpin(&mut cx) {
                a.push(e);
            }
            while let std::task::Poll::Ready(Some(e)) = tm.poll_next_unpin(&mut cx) {
                b.push(e);
            }
            out.push((a, b));
        }
        out
    }
