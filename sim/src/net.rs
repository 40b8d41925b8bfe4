//! Simulated network: one event queue over a simulated clock. Every delay, loss,
//! duplicate, corruption, partition and crash is a choice of the run.

use crate::cx::Cx;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Ev {
    /// a datagram; `tampered` tells whether the network changed its bytes
    Packet { from: usize, to: usize, bytes: Vec<u8>, tampered: bool },
    /// bytes of a stream connection, in order within one connection generation
    Segment { from: usize, to: usize, gen: u64, bytes: Vec<u8> },
    Timer { node: usize, key: u64 },
    Crash { node: usize },
    Restart { node: usize },
    Reset { a: usize, b: usize },
}

#[derive(Clone, Copy, Debug)]
pub struct NetCfg {
    pub drop: u64,
    pub dup: u64,
    pub corrupt: u64,
    pub truncate: u64,
    pub foreign: u64,
    /// longest delay in microseconds; delays differ, so packets overtake each other
    pub delay: u64,
    pub partition: u64,
}
pub fn net_cfg(cx: &mut Cx) -> NetCfg {
    let on = |cx: &mut Cx, hi: u64| if cx.chance(60) { cx.below(hi) } else { 0 };
    NetCfg {
        drop: on(cx, 50),
        dup: on(cx, 40),
        corrupt: on(cx, 40),
        truncate: on(cx, 20),
        foreign: on(cx, 30),
        delay: *cx.pick(&[1_000, 50_000, 400_000, 3_000_000]),
        partition: on(cx, 20),
    }
}

pub struct Net {
    q: BTreeMap<(u64, u64), Ev>,
    seq: u64,
    pub cfg: NetCfg,
    /// from here on the network is perfect
    pub heal: u64,
    cut: Vec<(u64, usize, usize)>,
    /// last delivery time per direction of a stream
    order: BTreeMap<(usize, usize), u64>,
    pub delivered: u64,
}
impl Net {
    pub fn new(cfg: NetCfg, heal: u64) -> Self {
        Net { q: BTreeMap::new(), seq: 0, cfg, heal, cut: Vec::new(), order: BTreeMap::new(), delivered: 0 }
    }
    pub fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }
    pub fn after(&mut self, cx: &Cx, dt: u64, e: Ev) {
        self.at(cx.now + dt, e)
    }
    pub fn next(&mut self, cx: &mut Cx) -> Option<Ev> {
        let k = *self.q.keys().next()?;
        let e = self.q.remove(&k)?;
        cx.set_now(k.0);
        self.delivered += 1;
        Some(e)
    }
    pub fn len(&self) -> usize {
        self.q.len()
    }
    fn blocked(&self, now: u64, a: usize, b: usize) -> bool {
        self.cut.iter().any(|c| now < c.0 && ((c.1 == a && c.2 == b) || (c.1 == b && c.2 == a)))
    }
    /// Sends one datagram through the faulty network.
    pub fn send(&mut self, cx: &mut Cx, from: usize, to: usize, bytes: &[u8]) {
        cx.ev("send", from as u64 * 16 + to as u64, bytes.len() as u64);
        if cx.now >= self.heal {
            let d = 1_000 + cx.below(20_000);
            self.after(cx, d, Ev::Packet { from, to, bytes: bytes.to_vec(), tampered: false });
            return;
        }
        let c = self.cfg;
        if self.blocked(cx.now, from, to) {
            cx.fault("partitioned");
            return;
        }
        if c.partition > 0 && cx.chance(c.partition) {
            let d = cx.below(8_000_000);
            self.cut.push((cx.now + d, from, to));
            cx.fault("partition_starts");
            return;
        }
        if cx.chance(c.drop) {
            cx.fault("packet_lost");
            return;
        }
        let copies = if cx.chance(c.dup) {
            cx.fault("packet_duplicated");
            2 + cx.us(2)
        } else {
            1
        };
        for _ in 0..copies {
            let mut b = bytes.to_vec();
            if cx.chance(c.corrupt) {
                corrupt(cx, &mut b);
            }
            if cx.chance(c.truncate) {
                cx.fault("packet_truncated");
                let n = cx.us(b.len() + 1);
                b.truncate(n);
            }
            let d = 1_000 + cx.below(c.delay);
            if d > 100_000 {
                cx.probe("delay_above_100ms");
            }
            let tampered = b != bytes;
            self.after(cx, d, Ev::Packet { from, to, bytes: b, tampered });
        }
        if cx.chance(c.foreign) {
            cx.fault("foreign_packet");
            let b = crate::gen::not_stun(cx);
            let d = 1_000 + cx.below(c.delay);
            self.after(cx, d, Ev::Packet { from, to, bytes: b, tampered: true });
        }
    }
    /// Writes bytes to a stream connection: delivered in order, in pieces.
    pub fn write(&mut self, cx: &mut Cx, from: usize, to: usize, gen: u64, bytes: &[u8]) {
        let mut at = 0;
        let slow = if cx.now < self.heal { self.cfg.delay } else { 20_000 };
        let style = cx.below(4);
        while at < bytes.len() {
            let left = bytes.len() - at;
            let n = match style {
                0 => left,
                1 => 1 + cx.us(left.min(40)),
                2 if bytes.len() < 200 => 1,
                _ => 1 + cx.us(left),
            };
            let n = if at > 4000 { left } else { n };
            if n < left {
                cx.fault("stream_segmented");
            }
            let d = 1 + cx.below(slow);
            let last = self.order.get(&(from, to)).copied().unwrap_or(0);
            let t = (cx.now + d).max(last + 1);
            self.order.insert((from, to), t);
            self.at(t, Ev::Segment { from, to, gen, bytes: bytes[at..at + n].to_vec() });
            at += n;
        }
    }
}

/// Damage in transit: bit flips, bursts, swapped or overwritten bytes.
pub fn corrupt(cx: &mut Cx, b: &mut [u8]) {
    if b.is_empty() {
        return;
    }
    cx.fault("packet_corrupted");
    match cx.weighted(&[5, 2, 2, 1]) {
        0 => {
            let i = cx.us(b.len());
            b[i] ^= 1 << cx.below(8);
        }
        1 => {
            let i = cx.us(b.len());
            let n = (1 + cx.us(8)).min(b.len() - i);
            let x = cx.blob(n);
            for k in 0..n {
                b[i + k] ^= x[k];
            }
        }
        2 => {
            let (i, j) = (cx.us(b.len()), cx.us(b.len()));
            b.swap(i, j);
        }
        _ => {
            let i = cx.us(b.len());
            b[i] = *cx.pick(&[0u8, 0xff, 0x80, 1]);
        }
    }
}

/// A node's clock may run fast or slow, and jump.
pub fn skewed(cx: &mut Cx, dt: u64, skew: u64) -> u64 {
    // skew in percent around 100
    let d = dt * (60 + skew.min(80)) / 100;
    if cx.chance(2) {
        cx.fault("clock_jump");
        return d / 4 + 1;
    }
    d.max(1)
}
