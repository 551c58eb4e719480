//! Simulated network: every delay, loss, duplication and partition is drawn.
use simrt::*;
use std::collections::BTreeMap;

pub struct Net<M> {
    pub now: u64,
    q: BTreeMap<(u64, u64), (usize, usize, M)>,
    seq: u64,
    loss: u64,
    dup: u64,
    delay: u64,
    cuts: BTreeMap<(usize, usize), u64>,
    /// no more faults: deliver everything, in a random but bounded order
    pub calm: bool,
}

impl<M: Clone> Net<M> {
    pub fn new() -> Self {
        Net {
            now: 0,
            q: BTreeMap::new(),
            seq: 0,
            loss: *pick(&[0, 10, 3]),
            dup: *pick(&[0, 8, 3]),
            delay: *pick(&[1, 5, 40]),
            cuts: BTreeMap::new(),
            calm: false,
        }
    }
    fn cut(&self, a: usize, b: usize) -> bool {
        !self.calm && self.cuts.get(&(a.min(b), a.max(b))).map_or(false, |t| *t > self.now)
    }
    pub fn partition(&mut self, a: usize, b: usize) {
        let d = 5 + draw(60);
        count("fault.partition");
        ev!("net: n{a} and n{b} cannot talk for {d}");
        self.cuts.insert((a.min(b), a.max(b)), self.now + d);
    }
    fn enqueue(&mut self, a: usize, b: usize, m: M) {
        self.seq += 1;
        let d = 1 + draw(self.delay);
        self.q.insert((self.now + d, self.seq), (a, b, m));
    }
    pub fn send(&mut self, a: usize, b: usize, m: M) {
        if self.cut(a, b) {
            count("fault.msg_cut");
            return;
        }
        if !self.calm {
            if self.loss > 0 && chance(1, self.loss) {
                count("fault.msg_lost");
                return;
            }
            if self.dup > 0 && chance(1, self.dup) {
                count("fault.msg_dup");
                self.enqueue(a, b, m.clone());
            }
        }
        self.enqueue(a, b, m);
    }
    /// next delivery, advancing simulated time
    pub fn deliver(&mut self) -> Option<(usize, usize, M)> {
        while let Some(k) = self.q.keys().next().copied() {
            let (a, b, m) = self.q.remove(&k).unwrap();
            self.advance_to(k.0);
            if self.q.keys().any(|x| x.1 < k.1) {
                count("fault.msg_reordered");
            }
            if self.cut(a, b) {
                count("fault.msg_cut");
                continue;
            }
            count("net.delivered");
            return Some((a, b, m));
        }
        None
    }
    pub fn advance_to(&mut self, t: u64) {
        if t > self.now {
            count_n("sim.time", t - self.now);
            self.now = t;
        }
    }
    pub fn idle(&self) -> bool {
        self.q.is_empty()
    }
}
