//! A world of programs using several codecs at once: on one thread in turns, and
//! on several threads. The scheduler decides which instance makes its next step,
//! and on which thread.

use crate::cx::{hexs, viol, Cx, R};
use crate::fork::{get, put, Child};
use crate::gen::{self, GenCfg, Spec};
use crate::guard::real;
use crate::runner::Prop;
use crate::sets::*;
use crate::w_sec::{cred, Cred};
use bytecodec::{Decode, DecodeExt, Encode, Eos};
use std::cell::RefCell;
use std::fs::File;
use std::sync::{Condvar, Mutex};
use stun_codec::{MessageDecoder, MessageEncoder};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        run: c17,
        quick: 12_000,
        fixed: None,
        rule: "Each run draws one to four programs (stream receivers, senders, relays, authenticators of different attribute sets, hostile input among them) and near-twins of them (another password of the same length, one bit of the content or identifier changed), executes each alone in a process of its own, then all of them together in one process: step by step in a drawn order on one thread, or on several real threads that a scheduler releases one at a time, instances migrating between threads or dropped half-way, calls interrupted by steps of others on other threads (at a drawn allocation, at a drawn instruction, or next to a drawn access to memory that threads share), and steps of others made from within user-written attribute code on the same thread; every program must see exactly what it saw alone.",
        real: &["stun_codec: MessageDecoder, MessageEncoder, Message, digests, in real threads and processes", "bytecodec"],
        stub: &["thread scheduler (one thread runs at a time)", "network"],
        assumptions: &["threads see each other's writes in the order they were made (one runs at a time)"],
    }]
}

/// One program: makes one step per call, says what it saw; None when it is through.
trait Actor {
    fn step(&mut self) -> Option<String>;
}
struct AnyThread<T>(T);
// One thread runs at a time, and hand-over goes through channels.
unsafe impl<T> Send for AnyThread<T> {}

#[derive(Clone, Debug)]
enum Def {
    Recv { set: usize, stream: Vec<u8>, chunks: Vec<usize> },
    Send { set: usize, specs: Vec<Spec>, rooms: Vec<usize> },
    Relay { set: usize, grams: Vec<Vec<u8>> },
    Auth { hand: bool, specs: Vec<Spec>, creds: Vec<Cred> },
}
struct RecvA<A: ASet> {
    dec: MessageDecoder<A>,
    stream: Vec<u8>,
    chunks: Vec<usize>,
    pos: usize,
    k: usize,
}
impl<A: ASet> Actor for RecvA<A> {
    fn step(&mut self) -> Option<String> {
        if self.pos >= self.stream.len() || self.k > 4000 {
            return None;
        }
        let n = self.chunks[self.k % self.chunks.len()].min(self.stream.len() - self.pos);
        self.k += 1;
        let r = real(|| self.dec.decode(&self.stream[self.pos..self.pos + n], Eos::new(false)));
        match r {
            Err(e) => {
                // a new connection: what is left of this one is lost
                self.pos = self.stream.len();
                Some(format!("rejected {:?}", e.kind()))
            }
            Ok(used) => {
                self.pos += used.max(if n == 0 { 1 } else { 0 });
                let q = real(|| self.dec.requiring_bytes());
                if dec_idle(&self.dec) {
                    match real(|| self.dec.finish_decoding()) {
                        Ok(m) => {
                            let o = outcome(m, true);
                            Some(format!("{} {:?}", o.brief(), digest(&o)))
                        }
                        Err(e) => Some(format!("finish failed {:?}", e.kind())),
                    }
                } else if used < n {
                    self.pos = self.stream.len();
                    Some("stalled".into())
                } else {
                    Some(format!("took {} wants {:?}", used, q))
                }
            }
        }
    }
}
fn digest(o: &Outcome) -> (u64, u64) {
    let h = |b: &[u8]| b.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, c| (h ^ *c as u64).wrapping_mul(0x100_0000_01b3));
    match o {
        Outcome::Good(_, d, e) => (h(d.as_bytes()), e.as_ref().map_or(1, |e| h(e))),
        _ => (0, 0),
    }
}
struct SendA<A: ASet> {
    enc: MessageEncoder<A>,
    specs: Vec<Spec>,
    rooms: Vec<usize>,
    at: usize,
    k: usize,
}
impl<A: ASet> Actor for SendA<A> {
    fn step(&mut self) -> Option<String> {
        self.k += 1;
        if self.k > 4000 {
            return None;
        }
        if enc_idle(&self.enc) {
            let s = self.specs.get(self.at)?;
            self.at += 1;
            let m = match gen::build::<A>(s) {
                Some(m) => m,
                None => return Some("not built".into()),
            };
            return Some(match real(|| self.enc.start_encoding(m)) {
                Ok(()) => format!("started, {} bytes", crate::drive::exact(&self.enc)),
                Err(e) => format!("refused {:?}", e.kind()),
            });
        }
        let mut buf = vec![0u8; self.rooms[self.k % self.rooms.len()]];
        Some(match real(|| self.enc.encode(&mut buf, Eos::new(false))) {
            Ok(n) => format!("out {} {}", hexs(&buf[..n]), crate::drive::exact(&self.enc)),
            Err(e) => format!("encode failed {:?}", e.kind()),
        })
    }
}
struct RelayA<A: ASet> {
    dec: MessageDecoder<A>,
    enc: MessageEncoder<A>,
    grams: Vec<Vec<u8>>,
    at: usize,
}
impl<A: ASet> Actor for RelayA<A> {
    fn step(&mut self) -> Option<String> {
        let g = self.grams.get(self.at)?;
        self.at += 1;
        Some(match real(|| self.dec.decode_from_bytes(g)) {
            Err(e) => {
                if dec_idle(&self.dec) {
                    let _ = real(|| self.dec.finish_decoding());
                }
                format!("rejected {:?}", e.kind())
            }
            Ok(Err(b)) => format!("broken {:?} {:?} {:?} {:?}", b.class(), b.method(), b.transaction_id(), b.error().kind()),
            Ok(Ok(m)) => {
                let o = observe(&m);
                let mut out = Vec::new();
                let r = real(|| bytecodec::io::IoEncodeExt::encode_all(&mut self.enc, &mut out));
                let idle = r.is_ok() && out.is_empty();
                let r = real(|| bytecodec::EncodeExt::encode_into_bytes(&mut self.enc, m));
                format!("{:?} idle {} passed on {:?}", o, idle, r.map(|b| hexs(&b)).map_err(|e| format!("{:?}", e.kind())))
            }
        })
    }
}
struct AuthA<A: ASet> {
    specs: Vec<Spec>,
    creds: Vec<Cred>,
    at: usize,
    enc: MessageEncoder<A>,
    dec: MessageDecoder<A>,
    bytes: Option<Vec<u8>>,
}
impl<A: ASet> Actor for AuthA<A> {
    fn step(&mut self) -> Option<String> {
        match self.bytes.take() {
            None => {
                let s = self.specs.get(self.at)?;
                let c = &self.creds[self.at % self.creds.len()];
                self.at += 1;
                let mut m = gen::build::<A>(s)?;
                if let Some(a) = c.make(&m).and_then(A::of_mi) {
                    real(|| m.add_attribute(a));
                }
                let f = real(|| stun_codec::rfc5389::attributes::Fingerprint::new(&m)).ok();
                if let Some(a) = f.and_then(A::of_fp) {
                    real(|| m.add_attribute(a));
                }
                let b = real(|| bytecodec::EncodeExt::encode_into_bytes(&mut self.enc, m));
                Some(match b {
                    Ok(b) => {
                        let t = format!("protected {} {}", b.len(), hexs(&b[b.len().saturating_sub(40)..]));
                        self.bytes = Some(b);
                        t
                    }
                    Err(e) => format!("refused {:?}", e.kind()),
                })
            }
            Some(b) => Some(match real(|| self.dec.decode_from_bytes(&b)) {
                Ok(Ok(m)) => {
                    let v: Vec<Vec<Option<Result<(), u16>>>> =
                        m.attributes().filter_map(|a| a.as_mi()).map(|mi| self.creds.iter().map(|c| c.check(mi)).collect()).collect();
                    format!("{:?} {:?}", observe(&m), v)
                }
                r => format!("not a message: {}", r.is_ok()),
            }),
        }
    }
}
fn actor(d: &Def) -> Box<dyn Actor> {
    fn recv<A: ASet>(stream: Vec<u8>, chunks: Vec<usize>) -> Box<dyn Actor> {
        Box::new(RecvA::<A> { dec: MessageDecoder::new(), stream, chunks, pos: 0, k: 0 })
    }
    fn send<A: ASet>(specs: Vec<Spec>, rooms: Vec<usize>) -> Box<dyn Actor> {
        Box::new(SendA::<A> { enc: MessageEncoder::new(), specs, rooms, at: 0, k: 0 })
    }
    fn relay<A: ASet>(grams: Vec<Vec<u8>>) -> Box<dyn Actor> {
        Box::new(RelayA::<A> { dec: MessageDecoder::new(), enc: MessageEncoder::new(), grams, at: 0 })
    }
    match d.clone() {
        Def::Recv { set, stream, chunks } => with_set!(set, A => recv::<A>(stream, chunks)),
        Def::Send { set, specs, rooms } => with_set!(set, A => send::<A>(specs, rooms)),
        Def::Relay { set, grams } => with_set!(set, A => relay::<A>(grams)),
        Def::Auth { hand, specs, creds } => {
            if hand {
                Box::new(AuthA::<Hand> { specs, creds, at: 0, enc: MessageEncoder::new(), dec: MessageDecoder::new(), bytes: None })
            } else {
                Box::new(AuthA::<Full> { specs, creds, at: 0, enc: MessageEncoder::new(), dec: MessageDecoder::new(), bytes: None })
            }
        }
    }
}
fn sizes(cx: &mut Cx) -> Vec<usize> {
    let n = 1 + cx.us(5);
    (0..n).map(|_| *cx.pick(&[7usize, 1, 20, 64, 4, 3, 200, 19])).collect()
}
fn def(cx: &mut Cx) -> Def {
    let set = cx.weighted(&SET_W);
    match cx.weighted(&[4, 4, 3, 3]) {
        0 => {
            let cfg = gen::wire_cfg(cx);
            let mut stream = Vec::new();
            let n = 1 + cx.us(4);
            for _ in 0..n {
                let big = cx.below(50) == 49;
                stream.extend(gen::wire(cx, gen::WireCfg { big, ..cfg }));
            }
            if cx.chance(20) {
                stream.extend(gen::not_stun(cx));
            }
            if cx.chance(20) {
                let k = cx.us(stream.len() + 1);
                stream.truncate(k);
            }
            let mut chunks = sizes(cx);
            if stream.len() > 20_000 {
                chunks.iter_mut().for_each(|n| *n *= 331);
            }
            Def::Recv { set, stream, chunks }
        }
        1 => {
            let n = 1 + cx.us(4);
            let mut rooms = sizes(cx);
            let specs = (0..n)
                .map(|_| {
                    let big = cx.below(50) == 49;
                    let s = with_set!(set, A => gen::spec::<A>(cx, GenCfg { max_attrs: 5, digests: true, big }));
                    if big && rooms[0] < 1000 {
                        rooms.iter_mut().for_each(|n| *n *= 331);
                    }
                    s
                })
                .collect();
            Def::Send { set, specs, rooms }
        }
        2 => {
            let cfg = gen::wire_cfg(cx);
            let n = 1 + cx.us(5);
            let mut grams = Vec::new();
            for _ in 0..n {
                let mut g = if cx.chance(10) { gen::not_stun(cx) } else {
                    let big = cx.below(50) == 49;
                    gen::wire(cx, gen::WireCfg { big, ..cfg })
                };
                if cx.chance(15) {
                    crate::net::corrupt(cx, &mut g);
                }
                grams.push(g);
            }
            if cx.chance(12) {
                // the same trouble, many times
                let g = if cx.chance(75) { crate::w_stream::spoilt(cx, gen::WireCfg { max_attrs: 3, big: false, ..cfg }) } else { grams[0].clone() };
                let n = match cx.weighted(&[4, 1]) {
                    0 => 3 + cx.us(15),
                    _ => 30 + cx.us(20),
                };
                if g.len() < 2000 {
                    let at = cx.us(grams.len() + 1);
                    grams.splice(at..at, std::iter::repeat(g).take(n));
                }
            }
            Def::Relay { set, grams }
        }
        _ => {
            let n = 1 + cx.us(3);
            let specs = (0..n)
                .map(|_| {
                    let big = cx.below(25) == 24;
                    gen::spec::<Full>(cx, GenCfg { max_attrs: 4, digests: false, big })
                })
                .collect();
            let k = 1 + cx.us(3);
            let creds = (0..k).map(|_| cred(cx)).collect();
            Def::Auth { hand: cx.chance(50), specs, creds }
        }
    }
}

/// A change that leaves most of a program as it was: shared state that is keyed
/// by too little shows between such twins.
fn twin(cx: &mut Cx, d: &Def) -> Def {
    let mut d = d.clone();
    fn bytes(cx: &mut Cx, b: &mut [u8]) {
        if !b.is_empty() {
            let i = cx.us(b.len());
            b[i] ^= 1 << cx.below(8);
        }
    }
    fn text(cx: &mut Cx, s: &mut String) {
        // as long as before where there is something to change
        let mut c: Vec<char> = s.chars().collect();
        if c.is_empty() {
            s.push('k');
            return;
        }
        let i = cx.us(c.len());
        c[i] = if c[i].is_ascii() { if c[i] == 'q' { 'p' } else { 'q' } } else { 'w' };
        *s = c.into_iter().collect();
    }
    fn spec(cx: &mut Cx, s: &mut Spec) {
        match cx.weighted(&[2, 3, 1, 1]) {
            0 => s.tid[cx.us(12)] ^= 1 << cx.below(8),
            1 if !s.items.is_empty() => {
                let i = cx.us(s.items.len());
                match &mut s.items[i] {
                    gen::Item::Av(a) if crate::refstun::kind_of(a.cp).is_some() && a.cp != crate::refstun::MI && a.cp != crate::refstun::FP => {
                        let raw = matches!(a.v, crate::refstun::V::Bytes(_));
                        let b = gen::av(cx, a.cp);
                        if matches!(b.v, crate::refstun::V::Bytes(_)) == raw {
                            *a = b;
                        }
                    }
                    gen::Item::MiShort(p) => text(cx, p),
                    gen::Item::MiLong(_, _, p) => text(cx, p),
                    _ => {}
                }
            }
            2 => s.class = (s.class + 1) % 4,
            _ => {
                s.items.pop();
            }
        }
    }
    match &mut d {
        Def::Recv { stream, chunks, .. } => {
            if cx.chance(70) {
                bytes(cx, stream);
            }
            if cx.chance(30) {
                *chunks = sizes(cx);
            }
        }
        Def::Relay { grams, .. } => {
            let i = cx.us(grams.len());
            if cx.chance(20) {
                grams.swap_remove(i);
                if grams.is_empty() {
                    grams.push(vec![]);
                }
            } else {
                bytes(cx, &mut grams[i]);
            }
        }
        Def::Send { specs, rooms, .. } => {
            let i = cx.us(specs.len());
            spec(cx, &mut specs[i]);
            if cx.chance(30) {
                *rooms = sizes(cx);
            }
        }
        Def::Auth { specs, creds, .. } => {
            if cx.chance(40) {
                let i = cx.us(specs.len());
                spec(cx, &mut specs[i]);
            }
            let i = cx.us(creds.len());
            match &mut creds[i] {
                Cred::Short(p) => text(cx, p),
                Cred::Long(u, r, p) => match cx.weighted(&[3, 1, 1, 1]) {
                    0 => text(cx, p),
                    1 => text(cx, u),
                    2 => text(cx, r),
                    _ => std::mem::swap(u, p),
                },
            }
        }
    }
    d
}

/// How a step is interrupted: not at all, at an allocation by steps of others on
/// other threads, or in user-written attribute code by steps of others on this one.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum How {
    Whole,
    Gate(u64),
    Inside(u64),
    Place(crate::guard::Place),
}
type Act = Option<Box<dyn Actor>>;
/// What a step made visible.
#[derive(Clone, PartialEq, Eq, Debug)]
enum Seen {
    Step(String),
    End,
    Panic(String),
}
struct Job {
    actor: Box<dyn Actor>,
    how: How,
    nested: Vec<(usize, Box<dyn Actor>)>,
}
struct Back {
    actor: Act,
    seen: Seen,
    nested: Vec<(usize, Act, Seen)>,
}
#[derive(Default)]
struct Slot {
    job: Option<AnyThread<Job>>,
    back: Option<AnyThread<Back>>,
    at_gate: bool,
    go: bool,
}
type Desk = std::sync::Arc<(Mutex<Slot>, Condvar)>;
thread_local! {
    static DESK: RefCell<Option<Desk>> = const { RefCell::new(None) };
    static NEST: RefCell<(Vec<(usize, Box<dyn Actor>)>, Vec<(usize, Act, Seen)>)> = const { RefCell::new((Vec::new(), Vec::new())) };
}
fn one_step(a: &mut Box<dyn Actor>) -> Seen {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| a.step())) {
        Ok(Some(s)) => Seen::Step(s),
        Ok(None) => Seen::End,
        Err(_) => {
            let i = crate::guard::LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
            Seen::Panic(format!("{:?}", i.map(|i| (i.in_real, i.place, i.msg))))
        }
    }
}
fn at_gate() {
    DESK.with(|d| {
        let d = d.borrow();
        let (m, c) = &**d.as_ref().expect("desk");
        let mut s = m.lock().unwrap_or_else(|e| e.into_inner());
        s.at_gate = true;
        c.notify_all();
        while !s.go {
            s = c.wait(s).unwrap_or_else(|e| e.into_inner());
        }
        s.go = false;
        s.at_gate = false;
    })
}
fn inside() {
    // user-written attribute code makes use of other codecs
    let l = NEST.with(|n| std::mem::take(&mut n.borrow_mut().0));
    for (i, mut a) in l {
        let s = one_step(&mut a);
        NEST.with(|n| n.borrow_mut().1.push((i, Some(a), s)));
    }
}
fn run_job(mut j: Job) -> Back {
    NEST.with(|n| *n.borrow_mut() = (j.nested, Vec::new()));
    match j.how {
        How::Whole => {}
        How::Gate(n) => crate::guard::gate_at(n, at_gate),
        How::Inside(n) => crate::guard::reenter_at(n, inside),
        How::Place(p) => crate::guard::step_to(p, at_gate),
    }
    let seen = one_step(&mut j.actor);
    crate::guard::gate_off();
    crate::guard::reenter_off();
    crate::guard::step_off();
    let (left, mut done) = NEST.with(|n| std::mem::take(&mut *n.borrow_mut()));
    // not reached: they have not made a step
    done.extend(left.into_iter().map(|(i, a)| (i + NOT_RUN, Some(a), Seen::End)));
    Back { actor: Some(j.actor), seen, nested: done }
}
const NOT_RUN: usize = 1 << 20;

/// The process in which the programs run together. One thread runs at a time,
/// and which one, for how long, is what the commands say.
fn host(defs: &[Def], threads: usize, mut rx: File, mut tx: File) {
    let mut actors: Vec<Act> = defs.iter().map(|d| Some(actor(d))).collect();
    let mut desks: Vec<Desk> = Vec::new();
    for _ in 0..threads {
        let d: Desk = Default::default();
        desks.push(d.clone());
        if threads == 1 {
            break;
        }
        let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
            DESK.with(|x| *x.borrow_mut() = Some(d.clone()));
            let (m, c) = &*d;
            loop {
                let mut s = m.lock().unwrap_or_else(|e| e.into_inner());
                let j = loop {
                    match s.job.take() {
                        Some(j) => break j,
                        None => s = c.wait(s).unwrap_or_else(|e| e.into_inner()),
                    }
                };
                drop(s);
                let b = run_job(j.0);
                let mut s = m.lock().unwrap_or_else(|e| e.into_inner());
                s.back = Some(AnyThread(b));
                c.notify_all();
            }
        });
        h.expect("thread");
    }
    let submit = |t: usize, j: Job| {
        if threads == 1 {
            // no thread to hand over to
            let b = run_job(j);
            desks[t].0.lock().unwrap_or_else(|e| e.into_inner()).back = Some(AnyThread(b));
            return;
        }
        let (m, c) = &*desks[t];
        m.lock().unwrap_or_else(|e| e.into_inner()).job = Some(AnyThread(j));
        c.notify_all();
    };
    // finished, or held up inside the call (None), or neither within the time (Err)
    let wait = |t: usize, gate: bool, ms: u64| -> Result<Option<Back>, ()> {
        let (m, c) = &*desks[t];
        let t0 = std::time::Instant::now();
        let mut s = m.lock().unwrap_or_else(|e| e.into_inner());
        loop {
            if let Some(b) = s.back.take() {
                return Ok(Some(b.0));
            }
            if gate && s.at_gate {
                return Ok(None);
            }
            if t0.elapsed().as_millis() as u64 >= ms {
                return Err(());
            }
            s = c.wait_timeout(s, std::time::Duration::from_millis(ms.min(200))).unwrap_or_else(|e| e.into_inner()).0;
        }
    };
    let go = |t: usize| {
        let (m, c) = &*desks[t];
        m.lock().unwrap_or_else(|e| e.into_inner()).go = true;
        c.notify_all();
    };
    const LONG: u64 = 3_600_000;
    while let Some(batch) = get(&mut rx) {
      let mut m = Vec::new();
      let w: Vec<usize> = batch.chunks(8).map(|c| u64::from_le_bytes(c.try_into().expect("8")) as usize).collect();
      let mut p = 0;
      while p < w.len() {
        let n = &w[p + 1..p + 1 + w[p]];
        p += 1 + w[p];
        let (what, i, t, k) = (n[0], n[1], n[2], n[3] as u64);
        if actors[i].is_none() {
            m.push(255);
            continue;
        }
        if what == DROP {
            // on the thread it lives on
            let a = actors[i].take();
            submit(t, Job { actor: Box::new(Dropper(a)), how: How::Whole, nested: vec![] });
            let _ = wait(t, false, LONG);
            m.push(255);
            continue;
        }
        let others: Vec<(usize, usize)> = n[4..].chunks(2).map(|c| (c[0], c[1])).filter(|o| actors[o.0].is_some()).collect();
        let mut out: Vec<(usize, Seen)> = Vec::new();
        let a = actors[i].take().expect("alive");
        let b = if what == INSIDE {
            let nested = others.iter().map(|o| (o.0, actors[o.0].take().expect("alive"))).collect();
            submit(t, Job { actor: a, how: How::Inside(k), nested });
            wait(t, false, LONG).ok().flatten().expect("done")
        } else {
            let how = match what {
                GATE => How::Gate(k),
                INSTR => How::Place(crate::guard::Place::Instruction(k as u32)),
                SHARED => How::Place(crate::guard::Place::Shared(k as u32 & 0xff, k as u32 >> 8)),
                _ => How::Whole,
            };
            submit(t, Job { actor: a, how, nested: vec![] });
            match wait(t, true, LONG).expect("answer") {
                Some(b) => b,
                None => {
                    let mut b: Option<Back> = None;
                    for (j, u) in others {
                        submit(u, Job { actor: actors[j].take().expect("alive"), how: How::Whole, nested: vec![] });
                        let x = match wait(u, false, if b.is_some() { LONG } else { 700 }) {
                            Ok(x) => x.expect("done"),
                            Err(()) => {
                                // it waits for something the interrupted call holds
                                go(t);
                                b = wait(t, false, LONG).ok().flatten();
                                wait(u, false, LONG).ok().flatten().expect("done")
                            }
                        };
                        actors[j] = x.actor;
                        out.push((j, x.seen));
                    }
                    match b {
                        Some(b) => b,
                        None => {
                            go(t);
                            wait(t, false, LONG).ok().flatten().expect("done")
                        }
                    }
                }
            }
        };
        for (j, a, s) in b.nested {
            actors[j % NOT_RUN] = a;
            if j < NOT_RUN {
                out.push((j, s));
            }
        }
        actors[i] = b.actor;
        out.push((i, b.seen));
        for (i, s) in out {
            if !matches!(s, Seen::Step(_)) {
                actors[i] = None;
            }
            put_seen(&mut m, i, &s);
        }
        m.push(255);
      }
      if !put(&mut tx, &m) {
        break;
      }
    }
}
const WHOLE: usize = 0;
const GATE: usize = 1;
const INSIDE: usize = 2;
const DROP: usize = 3;
const INSTR: usize = 4;
const SHARED: usize = 5;
struct Dropper(#[allow(dead_code)] Act);
impl Actor for Dropper {
    fn step(&mut self) -> Option<String> {
        self.0 = None;
        None
    }
}
fn put_seen(m: &mut Vec<u8>, i: usize, s: &Seen) {
    let (k, t) = match s {
        Seen::Step(t) => (0u8, t.as_str()),
        Seen::End => (1, ""),
        Seen::Panic(t) => (2, t.as_str()),
    };
    m.push(i as u8);
    m.push(k);
    m.extend_from_slice(&(t.len() as u32).to_le_bytes());
    m.extend_from_slice(t.as_bytes());
}
/// One group per command.
fn get_seen(m: &[u8]) -> Vec<Vec<(usize, Seen)>> {
    let mut v = vec![Vec::new()];
    let mut p = 0;
    while p < m.len() {
        if m[p] == 255 {
            v.push(Vec::new());
            p += 1;
            continue;
        }
        let n = u32::from_le_bytes(m[p + 2..p + 6].try_into().expect("4")) as usize;
        let t = String::from_utf8_lossy(&m[p + 6..p + 6 + n]).to_string();
        let s = match m[p + 1] {
            0 => Seen::Step(t),
            1 => Seen::End,
            _ => Seen::Panic(t),
        };
        v.last_mut().expect("group").push((m[p] as usize, s));
        p += 6 + n;
    }
    v
}

fn c17(cx: &mut Cx) -> R {
    let n = 1 + cx.us(4);
    let mut defs: Vec<Def> = Vec::new();
    for _ in 0..n {
        let d = cx.span(def);
        if n == 1 || cx.chance(50) {
            let t = cx.span(|cx| twin(cx, &d));
            defs.push(t);
        } else if cx.chance(20) {
            // two instances doing the very same thing, out of step
            defs.push(d.clone());
        }
        defs.push(d);
    }
    // each alone, in a process nobody else uses
    let mut alone: Vec<Vec<Seen>> = Vec::new();
    let mut kids: Vec<Child> = defs
        .iter()
        .map(|d| {
            Child::new(|_, mut tx| {
                let mut a = actor(d);
                let mut m = Vec::new();
                loop {
                    let s = one_step(&mut a);
                    put_seen(&mut m, 0, &s);
                    if !matches!(s, Seen::Step(_)) {
                        break;
                    }
                }
                put(&mut tx, &m);
            })
        })
        .collect();
    for (k, d) in kids.iter_mut().zip(&defs) {
        let seen: Vec<Seen> = match k.recv() {
            Some(m) => get_seen(&m).into_iter().flatten().map(|s| s.1).collect(),
            None => return viol("process-died", format!("the process of a single program died: {:?}", d).chars().take(900).collect::<String>()),
        };
        if let Some(Seen::Panic(p)) = seen.last() {
            return viol("panic", format!("a program alone panicked: {}", p));
        }
        cx.ev("alone", seen.len() as u64, 0);
        cx.note(|| format!("{:?}: {:?}", d, seen).chars().take(400).collect());
        alone.push(seen);
    }
    drop(kids);
    let threads = if cx.chance(40) { 1 } else { 2 + cx.us(3) };
    together(cx, &defs, &alone, threads)
}
fn together(cx: &mut Cx, defs: &[Def], alone: &[Vec<Seen>], threads: usize) -> R {
    let mut host = Child::new(|rx, tx| host(defs, threads, rx, tx));
    let migrate = *cx.pick(&[0, 20, 100]);
    let cut = *cx.pick(&[0u64, 5, 25]);
    let nest = *cx.pick(&[0u64, 5, 25]);
    let crash = *cx.pick(&[0u64, 1, 4]);
    let trap = *cx.pick(&[0u64, 0, 0, 1, 3]);
    // the first steps a process makes are where shared state is set up
    let early = trap > 0 || cx.chance(20);
    let mut cmds = 0u64;
    let mut at: Vec<usize> = vec![0; defs.len()];
    let mut home: Vec<usize> = (0..defs.len()).map(|i| i % threads).collect();
    let mut live: Vec<usize> = (0..defs.len()).collect();
    // bursts make both fine and coarse interleavings
    let burst = *cx.pick(&[1u64, 3, 10]);
    while !live.is_empty() {
        // the next stretch of the schedule
        let mut batch: Vec<Vec<usize>> = Vec::new();
        let mut sent = live.clone();
        while batch.len() < 120 && !sent.is_empty() {
            let i = sent[cx.us(sent.len())];
            if threads > 1 && cx.chance(migrate) {
                home[i] = cx.us(threads);
                cx.fault("instance_migrates");
            }
            if crash > 0 && cx.chance(crash) {
                // a program is killed, its instance dropped half-way
                cx.fault("crash");
                batch.push(vec![DROP, i, home[i], 0]);
                sent.retain(|x| *x != i);
                continue;
            }
            let b = 1 + cx.below(burst);
            for _ in 0..b {
                let mut cmd = vec![WHOLE, i, home[i], 0];
                // some others, each once, not this one
                let mut rest: Vec<usize> = sent.iter().copied().filter(|x| *x != i).collect();
                cmds += 1;
                let mode = if rest.is_empty() {
                    WHOLE
                } else if threads > 1 && cx.chance(if early && cmds <= 4 { 40 } else { trap }) {
                    if cx.chance(35) { INSTR } else { SHARED }
                } else if threads > 1 && cx.chance(cut) {
                    GATE
                } else if cx.chance(nest) {
                    INSIDE
                } else {
                    WHOLE
                };
                if mode != WHOLE {
                    cmd[0] = mode;
                    cmd[3] = match mode {
                        INSTR => {
                            let b = cx.us(12);
                            cx.us(2 << b)
                        }
                        SHARED => {
                            let d = *cx.pick(&[0usize, 1, 2, 3, 5, 8, 13, 30, 100, 700]);
                            let n = if cx.chance(60) { cx.us(4) } else { cx.us(25) };
                            n | (if d < 13 { d } else { cx.us(d) }) << 8
                        }
                        _ => 1 + match cx.weighted(&[3, 3, 2]) {
                            0 => cx.us(8),
                            1 => cx.us(40),
                            _ => cx.us(if mode == GATE { 300 } else { 60 }),
                        },
                    };
                    let m = 1 + cx.us(rest.len().min(3));
                    for _ in 0..m {
                        let j = rest.swap_remove(cx.us(rest.len()));
                        let mut u = home[j];
                        if mode != INSIDE && u == home[i] {
                            u = (u + 1) % threads;
                        }
                        cmd.push(j);
                        cmd.push(u);
                    }
                }
                batch.push(cmd);
            }
            if sent.len() > 1 {
                cx.fault("preempted");
            }
        }
        let w: Vec<usize> = batch.iter().flat_map(|c| std::iter::once(c.len()).chain(c.iter().copied())).collect();
        let died = |i: usize| viol("process-died", format!("the process of {} programs on {} threads died; one of them: {:?}", defs.len(), threads, defs[i]).chars().take(900).collect::<String>());
        if !host.send(&words(&w)) {
            return died(live[0]);
        }
        let reply = match host.recv() {
            Some(m) => m,
            None => return died(live[0]),
        };
        let dropped: Vec<usize> = batch.iter().filter(|c| c[0] == DROP).map(|c| c[1]).collect();
        for (c, seen) in batch.iter().zip(get_seen(&reply)) {
            if seen.len() > 1 {
                cx.fault(match c[0] {
                    GATE => "switched_at_an_allocation",
                    INSTR => "switched_at_an_instruction",
                    SHARED => "switched_at_shared_memory",
                    _ => "called_from_user_code",
                });
            }
            for (j, s) in seen {
                cx.ev("step", j as u64, home[j] as u64);
                cx.probe(if threads > 1 { "step_on_threads" } else { "step_on_one_thread" });
                cx.ok();
                if alone[j].get(at[j]) != Some(&s) {
                    return viol(
                        "interference",
                        format!("step {} of program {} ({} programs, {} threads): alone it saw {:?}, together {:?}; the program: {:?}", at[j], j, defs.len(), threads, alone[j].get(at[j]), s, defs[j])
                            .chars()
                            .take(2000)
                            .collect::<String>(),
                    );
                }
                at[j] += 1;
                if s == Seen::End {
                    live.retain(|x| *x != j);
                }
            }
        }
        live.retain(|x| !dropped.contains(x));
    }
    Ok(())
}
fn words(w: &[usize]) -> Vec<u8> {
    w.iter().flat_map(|x| (*x as u64).to_le_bytes()).collect()
}
