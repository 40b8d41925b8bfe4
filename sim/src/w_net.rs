//! Worlds of several nodes talking over a simulated network.

use crate::cx::{hexs, viol, Cx, R};
use crate::drive::{datagram, drain, pace, Item};
use crate::gen::{self, GenCfg, Item as GI, Spec};
use crate::guard::real;
use crate::net::{self, Ev, Net};
use crate::refstun::{self, Body, ROut, AV, V};
use crate::runner::Prop;
use crate::sets::*;
use bytecodec::{Decode, DecodeExt, Encode, Eos};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::net::SocketAddr;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::Lifetime;
use stun_codec::{rfc5389, rfc5766, Attribute, DecodedMessage, Message, MessageDecoder, MessageEncoder, Method, TransactionId};

const REAL: &[&str] = &[
    "stun_codec: Message, MessageEncoder, MessageDecoder, all attribute types, digests, methods and error codes",
    "bytecodec combinators and I/O helpers",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C06",
            run: c06,
            quick: 1_500_000,
            fixed: None,
            rule: "Each run draws an attribute set, two to four nodes with long-lived encoders and decoders, messages with generated content, and a network (loss, duplication, reordering, corruption, stream segmentation, connection resets, crashes); every message that arrives intact is compared with what its sender built, and stream deliveries with the order of sending.",
            real: REAL,
            stub: &["network and its timing", "clock", "process crash and restart"],
            assumptions: &["UDP-like links may lose, repeat, reorder and damage; stream links deliver in order until reset"],
        },
        Prop {
            id: "C07",
            run: c07,
            quick: 2_100_000,
            fixed: Some(c07_fixed),
            rule: "Each run lets real nodes and a node running the independent reference codec exchange messages over the faulty network, both ways, with canonical and with merely legal encodings (reserved bits, padding bytes, unknown attributes); bytes the real node sends must equal the reference encoding and what it reads must equal the reference reading.",
            real: REAL,
            stub: &["network", "reference peer written from RFC 5389, 5245, 5766, 5780, 8016, 8656"],
            assumptions: &["the reference codec follows the RFC revision the library documents; values on which revisions differ are accepted either way"],
        },
        Prop {
            id: "C18",
            run: c18,
            quick: 600_000,
            fixed: None,
            rule: "Each run draws clients with retransmission timers, a server (success, 401, 420, 400 and 438 answers) and a fault schedule on one simulated clock: loss, duplication, reordering, corruption, truncation, foreign packets, partitions, stream resets, clock skew and jumps, server and client crashes; retransmissions, answers and their attribution are checked as they happen, completion within a bound after the faults stop.",
            real: REAL,
            stub: &["network", "clocks and retransmission timers", "client and server logic around the codec", "process crash and restart (only the list of outstanding transactions and the credentials survive)"],
            assumptions: &["faults stop at a point of the run, from where the network delivers within 25 ms", "CRC-32 lets a damaged packet through only where the reference codec agrees"],
        },
    ]
}

/// The receiving end of one stream connection.
pub struct StreamRx<A: Attribute> {
    pub dec: MessageDecoder<A>,
    buf: Vec<u8>,
    cur: Vec<u8>,
}
impl<A: ASet> StreamRx<A> {
    pub fn new() -> Self {
        StreamRx { dec: MessageDecoder::new(), buf: Vec::new(), cur: Vec::new() }
    }
    /// How many of the coming bytes belong to the message now being read (at most).
    pub fn until_end(&self, coming: &[u8]) -> usize {
        let have = self.cur.len() + self.buf.len();
        if have < 4 {
            return (4 - have).min(coming.len()).max(1);
        }
        let at = |i: usize| if i < self.cur.len() { self.cur[i] } else { self.buf[i - self.cur.len()] };
        20 + u16::from_be_bytes([at(2), at(3)]) as usize - have
    }
    /// Hands arrived bytes to the decoder; messages come out with the bytes they were made of.
    /// Ok(false): the decoder rejected the stream.
    pub fn feed(&mut self, cx: &mut Cx, bytes: &[u8], out: &mut Vec<(Vec<u8>, DecodedMessage<A>)>) -> R<bool> {
        self.buf.extend_from_slice(bytes);
        let mut steps = 0;
        while !self.buf.is_empty() {
            let given = if cx.chance(20) { 1 + cx.us(self.buf.len()) } else { self.buf.len() };
            match real(|| self.dec.decode(&self.buf[..given], Eos::new(false))) {
                Err(_) => return Ok(false),
                Ok(n) => {
                    ensure!(n <= given, "overread", "decode consumed {} of {} bytes", n, given);
                    self.cur.extend(self.buf.drain(..n));
                    if dec_idle(&self.dec) {
                        match real(|| self.dec.finish_decoding()) {
                            Ok(m) => out.push((std::mem::take(&mut self.cur), m)),
                            Err(e) => return viol("finish-failed", format!("idle decoder: {:?}", e.kind())),
                        }
                    } else {
                        ensure!(n == given, "stall", "an unfinished decoder left {} of {} bytes", given - n, given);
                    }
                }
            }
            steps += 1;
            ensure!(steps < 400_000, "stall", "no progress on a stream");
        }
        Ok(true)
    }
}

/// Encodes with a long-lived encoder under a drawn schedule of output space.
pub fn send_bytes<A: ASet>(cx: &mut Cx, enc: &mut MessageEncoder<A>, m: Message<A>) -> R<Vec<u8>> {
    if let Err(e) = real(|| enc.start_encoding(m)) {
        return viol("refused", format!("a representable message was refused by an idle encoder: {:?}", e.kind()));
    }
    let mode = cx.below(crate::drive::DRAINS);
    let p = pace(cx);
    drain(cx, enc, mode, p, |_, _| Ok(()))
}

fn set(cx: &mut Cx) -> usize {
    cx.weighted(&SET_W)
}

// ---------------------------------------------------------------- C06

struct Sent {
    spec: Spec,
    obs: Obs,
    bytes: Vec<u8>,
}
fn first_of(known: &[AV], cp: u16) -> Option<&AV> {
    known.iter().find(|a| a.cp == cp)
}
pub fn check_firsts<A: ASet>(m: &Message<A>, known: &[AV]) -> R {
    for (cp, got) in real(|| A::firsts(m)) {
        let want = first_of(known, cp);
        ensure!(
            got.as_ref() == want,
            "get-attribute",
            "first {} of the message is {:?}, get_attribute returns {:?} [set {}]",
            refstun::name_of(cp),
            want,
            got,
            A::NAME
        );
    }
    Ok(())
}
/// What arrives must be what was sent.
fn same_message<A: ASet>(cx: &mut Cx, sent: &Sent, got: &DecodedMessage<A>, how: &str) -> R {
    cx.ok();
    let m = match got {
        Ok(m) => m,
        Err(_) => return viol("intact-called-broken", format!("a message delivered intact ({}) came out broken [set {}]: {}", how, A::NAME, hexs(&sent.bytes))),
    };
    let o = observe(m);
    ensure!(o == sent.obs, "content", "sent {:?}\n received {:?} ({}) [set {}]", sent.obs, o, how, A::NAME);
    check_firsts(m, &sent.obs.known)?;
    // the receiver can authenticate with the sender's credentials
    if A::knows(refstun::MI) {
        let mut creds = sent.spec.items.iter().filter(|i| gen::key_of(i).is_some());
        let mut bad = None;
        real(|| {
            for a in m.attributes() {
                if let Some(mi) = a.as_mi() {
                    let ok = match creds.next() {
                        Some(GI::MiShort(p)) => mi.check_short_term_credential(p).is_ok(),
                        Some(GI::MiLong(u, r, p)) => {
                            let (u, r) = (Username::new(u.clone()).unwrap(), Realm::new(r.clone()).unwrap());
                            mi.check_long_term_credential(&u, &r, p).is_ok()
                        }
                        _ => false,
                    };
                    if !ok {
                        bad = Some(());
                    }
                }
            }
        });
        ensure!(bad.is_none(), "integrity", "MESSAGE-INTEGRITY of an intact message does not verify with the sender's credential [set {}]", A::NAME);
    }
    Ok(())
}
fn c06(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c06_run::<A>(cx))
}
/// Numbers that may be too large for what they become: refused, or sent as they are.
fn careless_arguments(cx: &mut Cx, tid: [u8; 12]) -> R {
    cx.fault("out_of_range_argument");
    cx.ok();
    let n = match cx.weighted(&[2, 1, 1]) {
        0 => cx.below(0x10000) as u16,
        1 => 1 << cx.below(16),
        _ => *cx.pick(&[0xfffu16, 0x1000, 0x1001, 0x3fff, 0x4000, 0xffff]),
    };
    let c = gen::class(cx);
    let secs = match cx.weighted(&[2, 1, 1]) {
        0 => cx.below(u64::MAX),
        1 => (1u64 << (30 + cx.below(34))).wrapping_add(cx.below(3)).wrapping_sub(1),
        _ => 0xffff_fff0 + cx.below(32),
    };
    let m = real(|| {
        let me = Method::new(n).ok()?;
        let mut m = Message::<Full>::new(class_of(c), me, TransactionId::new(tid));
        if let Ok(l) = Lifetime::new(std::time::Duration::new(secs, (n as u32 * 9000).min(999_999_999))) {
            m.add_attribute(Full::from(l));
        }
        Some(m)
    });
    let Some(m) = m else { return Ok(()) };
    let lives = m.get_attribute::<Lifetime>().is_some();
    let Ok(bytes) = encode_one(m) else { return Ok(()) };
    match real(|| MessageDecoder::<Full>::new().decode_from_bytes(&bytes)) {
        Ok(Ok(m)) => {
            ensure!(m.method().as_u16() == n && class_no(m.class()) == c, "silently-other", "method 0x{:x} of class {} was taken, the receiver read 0x{:x} of class {}", n, c, m.method().as_u16(), class_no(m.class()));
            let got = m.get_attribute::<Lifetime>().map(|l| l.lifetime().as_secs());
            ensure!(got == lives.then_some(secs), "silently-other", "a lifetime of {} seconds was taken, the receiver read {:?}", secs, got);
            Ok(())
        }
        r => viol("silently-other", format!("method 0x{:x} and a lifetime of {} seconds were taken, the receiver cannot read them: {:?}", n, secs, r.map(|r| r.is_ok()))),
    }
}
fn c06_run<A: ASet>(cx: &mut Cx) -> R {
    let nodes = 2 + cx.us(3);
    let cfg = net::net_cfg(cx);
    let crashes = cx.chance(30);
    let udp_share = *cx.pick(&[50, 100, 0]);
    let mut nw = Net::new(cfg, u64::MAX);
    let mut encs: Vec<MessageEncoder<A>> = (0..nodes).map(|_| MessageEncoder::new()).collect();
    // node 0 receives; it has one decoder for all datagrams, and one per stream
    let mut udp = MessageDecoder::<A>::new();
    let mut rx: BTreeMap<usize, StreamRx<A>> = BTreeMap::new();
    let mut gens = vec![0u64; nodes];
    let mut sent: Vec<Sent> = Vec::new();
    // per sender: messages written to the current connection, and how many arrived
    let mut queue: Vec<Vec<usize>> = vec![Vec::new(); nodes];
    let mut arrived: Vec<usize> = vec![0; nodes];
    let (max, avg) = match cx.weighted(&[50, 1]) {
        0 => (8, 3),
        _ => (200, 150),
    };
    let gcfg = GenCfg { max_attrs: *cx.pick(&[5, 2, 12]), digests: true, big: max == 8 && cx.chance(3) };
    cx.repeat(1, max, avg, |cx, k| {
        let from = 1 + cx.us(nodes - 1);
        let mut s = gen::spec::<A>(cx, gcfg);
        // what the user puts in is what the message holds
        let careless = cx.below(50) == 49;
        if careless {
            careless_arguments(cx, s.tid)?;
            let cps: Vec<u16> = refstun::TABLE[..refstun::N_PLAIN].iter().map(|t| t.0).filter(|c| A::knows(*c)).collect();
            if !cps.is_empty() {
                let cp = *cx.pick(&cps);
                let a = gen::careless_av(cx, cp);
                let at = cx.us(s.items.len() + 1);
                s.items.insert(at, GI::Av(a));
            }
        }
        let m = match if careless { gen::build::<A>(&s) } else { gen::made::<A>(&s)? } {
            Some(m) => m,
            None => return Ok(()),
        };
        let obs = observe(&m);
        ensure!(obs.class == s.class && obs.method == s.method && obs.tid == s.tid && obs.unknown.is_empty(), "built-header", "built {:?}, message says {:?}", s, obs);
        for (it, a) in s.items.iter().zip(&obs.known) {
            if let GI::Av(want) = it {
                ensure!(a == want, "built-content", "added {:?}, message holds {:?} [set {}]", want, a, A::NAME);
            }
        }
        ensure!(obs.known.len() == s.items.len(), "built-content", "{} attributes added, {} there", s.items.len(), obs.known.len());
        if gen::spec_len(&s) >= 0x10000 || careless && encode_one(m.clone()).is_err() {
            return Ok(());
        }
        let bytes = send_bytes(cx, &mut encs[from], m)?;
        cx.bytes_ev("message", &bytes);
        sent.push(Sent { spec: s, obs, bytes: bytes.clone() });
        let id = sent.len() - 1;
        if cx.below(100) < udp_share {
            nw.send(cx, from, 0, &bytes);
        } else {
            nw.write(cx, from, 0, gens[from], &bytes);
            queue[from].push(id);
        }
        if crashes && cx.chance(10) {
            let dt = cx.below(200_000);
            let node = if cx.chance(50) { 0 } else { from };
            nw.after(cx, dt, Ev::Crash { node });
        }
        let gap = cx.below(100_000);
        cx.advance(gap);
        // let some of the traffic happen before the next message is built
        while k > 0 && nw.len() > 0 && cx.chance(60) {
            c06_step(cx, &mut nw, &mut udp, &mut rx, &mut gens, &sent, &mut queue, &mut arrived, &mut encs)?;
        }
        Ok(())
    })?;
    while nw.len() > 0 {
        c06_step(cx, &mut nw, &mut udp, &mut rx, &mut gens, &sent, &mut queue, &mut arrived, &mut encs)?;
    }
    for s in 1..nodes {
        // a connection that was never reset has delivered everything
        ensure!(arrived[s] == queue[s].len(), "lost", "stream from node {}: {} messages written, {} delivered [set {}]", s, queue[s].len(), arrived[s], A::NAME);
        cx.ok();
    }
    Ok(())
}
#[allow(clippy::too_many_arguments)]
fn c06_step<A: ASet>(
    cx: &mut Cx,
    nw: &mut Net,
    udp: &mut MessageDecoder<A>,
    rx: &mut BTreeMap<usize, StreamRx<A>>,
    gens: &mut [u64],
    sent: &[Sent],
    queue: &mut [Vec<usize>],
    arrived: &mut [usize],
    encs: &mut [MessageEncoder<A>],
) -> R {
    match nw.next(cx) {
        None => Ok(()),
        Some(Ev::Packet { from, bytes, tampered, .. }) => {
            cx.ev("packet", from as u64, bytes.len() as u64);
            if tampered {
                let _ = datagram(udp, &bytes, false);
                return Ok(());
            }
            let s = sent.iter().find(|s| s.bytes == bytes).expect("sent");
            match real(|| udp.decode_from_bytes(&bytes)) {
                Ok(m) => same_message(cx, s, &m, "datagram"),
                Err(e) => viol("intact-rejected", format!("a message delivered intact (datagram) was rejected: {:?} [set {}]: {}", e.kind(), A::NAME, hexs(&bytes))),
            }
        }
        Some(Ev::Segment { from, gen, bytes, .. }) => {
            if gen != gens[from] {
                return Ok(());
            }
            cx.ev("segment", from as u64, bytes.len() as u64);
            let r = rx.entry(from).or_insert_with(StreamRx::new);
            let mut out = Vec::new();
            let alive = r.feed(cx, &bytes, &mut out)?;
            ensure!(alive, "stream-rejected", "a stream of intact messages was rejected [set {}]", A::NAME);
            for (b, m) in &out {
                let i = arrived[from];
                ensure!(i < queue[from].len(), "invented", "a message came out that nobody sent [set {}]", A::NAME);
                let s = &sent[queue[from][i]];
                same_message(cx, s, m, "stream")?;
                ensure!(*b == s.bytes, "framing", "message {} of the stream has {} bytes, {} were taken", i, s.bytes.len(), b.len());
                arrived[from] += 1;
            }
            Ok(())
        }
        Some(Ev::Crash { node }) => {
            cx.fault("crash_restart");
            if node == 0 {
                *udp = MessageDecoder::new();
                rx.clear();
                for s in 1..gens.len() {
                    gens[s] += 1;
                    queue[s].clear();
                    arrived[s] = 0;
                }
            } else {
                encs[node] = MessageEncoder::new();
                rx.remove(&node);
                gens[node] += 1;
                queue[node].clear();
                arrived[node] = 0;
            }
            Ok(())
        }
        Some(_) => Ok(()),
    }
}

// ---------------------------------------------------------------- C07

fn c07(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c07_run::<A>(cx))
}
fn c07_run<A: ASet>(cx: &mut Cx) -> R {
    // node 0 runs the library, node 1 the reference codec
    let cfg = net::net_cfg(cx);
    let mut nw = Net::new(cfg, u64::MAX);
    let mut enc = MessageEncoder::<A>::new();
    let mut dec = MessageDecoder::<A>::new();
    let mut stream = StreamRx::<A>::new();
    let mut pending: Vec<Vec<u8>> = Vec::new();
    let mut next = 0usize;
    let wcfg = {
        let mut c = gen::clean_cfg(cx);
        c.big = cx.chance(2);
        c
    };
    let gcfg = GenCfg { max_attrs: *cx.pick(&[5, 2, 12]), digests: true, big: cx.chance(2) };
    let mut handle = |cx: &mut Cx, nw: &mut Net, pending: &Vec<Vec<u8>>| -> R {
        match nw.next(cx) {
            Some(Ev::Packet { to: 0, bytes, .. }) => {
                cx.bytes_ev("to_real", &bytes);
                let it = datagram(&mut dec, &bytes, false);
                reads_like_reference::<A>(cx, &bytes, &it)
            }
            Some(Ev::Packet { bytes, tampered, .. }) => {
                // the reference node reads what the library sent
                if !tampered {
                    cx.bytes_ev("to_reference", &bytes);
                    cx.ok();
                    match refstun::decode(&bytes, &|c| A::knows(c)) {
                        ROut::Msg(m) if m.total == bytes.len() && matches!(m.body, Body::Valid(_) | Body::Either(_)) => {}
                        r => return viol("unreadable", format!("reference peer reads {:?} [set {}]", r, A::NAME)),
                    }
                }
                Ok(())
            }
            Some(Ev::Segment { bytes, .. }) => {
                let mut out = Vec::new();
                let alive = stream.feed(cx, &bytes, &mut out)?;
                ensure!(alive, "stream-rejected", "the library rejected a stream of valid messages [set {}]", A::NAME);
                for (_, m) in out {
                    let want = &pending[next];
                    next += 1;
                    let it = Item::Out(outcome(m, false));
                    reads_like_reference::<A>(cx, want, &it)?;
                }
                Ok(())
            }
            _ => Ok(()),
        }
    };
    cx.repeat(1, 10, 3, |cx, _| {
        match cx.weighted(&[4, 4, 4]) {
            0 => {
                // the library sends
                let s = gen::spec::<A>(cx, gcfg);
                if gen::spec_len(&s) >= 0x10000 {
                    return Ok(());
                }
                let m = match gen::made::<A>(&s)? {
                    Some(m) => m,
                    None => return Ok(()),
                };
                let b = send_bytes(cx, &mut enc, m)?;
                cx.bytes_ev("real_sends", &b);
                let want = gen::ref_encode(&s);
                cx.ok();
                if b != want {
                    let at = b.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(b.len().min(want.len()));
                    return viol(
                        "encoding",
                        format!(
                            "class {} method 0x{:x} {:?} [set {}]: library sends\n {}\n RFCs say\n {}\n first difference at byte {}",
                            s.class,
                            s.method,
                            s.items,
                            A::NAME,
                            hexs(&b),
                            hexs(&want),
                            at
                        ),
                    );
                }
                nw.send(cx, 0, 1, &b);
            }
            1 => {
                let b = gen::wire(cx, wcfg);
                cx.bytes_ev("reference_sends", &b);
                nw.send(cx, 1, 0, &b);
            }
            _ => {
                let b = gen::wire(cx, wcfg);
                cx.bytes_ev("reference_writes", &b);
                nw.write(cx, 1, 0, 0, &b);
                pending.push(b);
            }
        }
        while nw.len() > 0 && cx.chance(70) {
            handle(cx, &mut nw, &pending)?;
        }
        Ok(())
    })?;
    while nw.len() > 0 {
        handle(cx, &mut nw, &pending)?;
    }
    drop(handle);
    ensure!(next == pending.len(), "lost", "{} messages written, {} came out [set {}]", pending.len(), next, A::NAME);
    Ok(())
}
fn reads_like_reference<A: ASet>(cx: &mut Cx, bytes: &[u8], got: &Item) -> R {
    crate::w_stream::judge::<A>(cx, bytes, got)
}

/// Every method and class, every named method and error: fixed, because there are few.
fn c07_fixed() -> R<Vec<String>> {
    type A = Full;
    let tid = [0xA5; 12];
    for class in 0..4u8 {
        for method in 0..0x1000u16 {
            let s = Spec { class, method, tid, items: vec![] };
            let b = match encode_one(new_msg::<A>(class, method, tid)) {
                Ok(b) => b,
                Err(e) => return viol("fixed-type-field", format!("class {} method 0x{:x} refused: {}", class, method, e)),
            };
            ensure!(b == gen::ref_encode(&s), "fixed-type-field", "class {} method 0x{:x}: library sends type {}, RFC says {}", class, method, hexs(&b[..2]), hexs(&gen::ref_encode(&s)[..2]));
            match crate::drive::fresh::<A>(&gen::ref_encode(&s), false) {
                Item::Out(o) => match o {
                    Outcome::Good(o, _, _) if o.class == class && o.method == method => {}
                    o => return viol("fixed-type-field", format!("class {} method 0x{:x} read as {}", class, method, o.brief())),
                },
                i => return viol("fixed-type-field", format!("class {} method 0x{:x}: {}", class, method, i.brief())),
            }
        }
    }
    let methods: [(Method, u16); 7] = [
        (rfc5389::methods::BINDING, 1),
        (rfc5766::methods::ALLOCATE, 3),
        (rfc5766::methods::REFRESH, 4),
        (rfc5766::methods::SEND, 6),
        (rfc5766::methods::DATA, 7),
        (rfc5766::methods::CREATE_PERMISSION, 8),
        (rfc5766::methods::CHANNEL_BIND, 9),
    ];
    for (m, want) in methods {
        let msg = Message::<A>::new(stun_codec::MessageClass::Request, m, stun_codec::TransactionId::new(tid));
        let b = encode_one(msg).unwrap_or_default();
        ensure!(b.len() == 20 && b[..2] == want.to_be_bytes(), "fixed-method", "method {} is sent as {}", want, hexs(&b[..2.min(b.len())]));
    }
    use stun_codec::{rfc5245, rfc8016, rfc8656};
    let errors: Vec<(ErrorCode, u16)> = vec![
        (rfc5389::errors::TryAlternate.into(), 300),
        (rfc5389::errors::BadRequest.into(), 400),
        (rfc5389::errors::Unauthorized.into(), 401),
        (rfc5389::errors::UnknownAttribute.into(), 420),
        (rfc5389::errors::StaleNonce.into(), 438),
        (rfc5389::errors::ServerError.into(), 500),
        (rfc5766::errors::Forbidden.into(), 403),
        (rfc5766::errors::AllocationMismatch.into(), 437),
        (rfc5766::errors::WrongCredentials.into(), 441),
        (rfc5766::errors::UnsupportedTransportProtocol.into(), 442),
        (rfc5766::errors::AllocationQuotaReached.into(), 486),
        (rfc5766::errors::InsufficientCapacity.into(), 508),
        (rfc5245::errors::RoleConflict.into(), 487),
        (rfc8016::errors::MobilityForbidden.into(), 405),
        (rfc8656::errors::AddressFamilyNotSupported.into(), 440),
        (rfc8656::errors::PeerAddressFamilyMismatch.into(), 443),
    ];
    for (e, code) in errors {
        let mut msg = new_msg::<A>(3, 1, tid);
        msg.add_attribute(e);
        let b = encode_one(msg).unwrap_or_default();
        let got = match refstun::decode(&b, &|c| A::knows(c)) {
            ROut::Msg(m) => match m.body {
                Body::Valid(a) => match &a[0].v {
                    V::Err(c, _) => *c,
                    _ => 0,
                },
                _ => 0,
            },
            _ => 0,
        };
        ensure!(got == code, "fixed-error-code", "error {} arrives at a reference peer as {}", code, got);
    }
    Ok(Vec::new())
}

// ---------------------------------------------------------------- C18

const SERVER: usize = 0;
const SW: &str = "stunsim server";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Plain,
    /// authenticated with a long-term credential: 401, then again with MESSAGE-INTEGRITY
    Auth,
    /// has a comprehension-required attribute the server does not know
    Strange,
    /// attribute part is broken: 400
    Broken,
}
struct Tx {
    kind: Kind,
    tid: [u8; 12],
    items: Vec<GI>,
    /// the request as a message object (real client) or bytes made by hand (broken requests)
    msg: Option<Message<Full>>,
    first: Option<Vec<u8>>,
    tries: u32,
    /// attempt with credentials; the transaction id changes with each attempt
    attempt: u32,
    started: bool,
    done: bool,
}
struct Client {
    enc: MessageEncoder<Full>,
    dec: MessageDecoder<Full>,
    rx: StreamRx<Full>,
    addr: SocketAddr,
    skew: u64,
    txs: Vec<Tx>,
    realm_nonce: Option<(String, String)>,
    gen: u64,
    down: bool,
}
struct Srv {
    enc: MessageEncoder<Server>,
    dec: MessageDecoder<Server>,
    rx: BTreeMap<usize, StreamRx<Server>>,
    nonce: u64,
    down: bool,
    /// answers already given, per request bytes (all of them, for the record)
    answers: BTreeMap<Vec<u8>, Vec<u8>>,
}
const USER: &str = "alice:x";
const REALM_S: &str = "example.org";
const PASS: &str = "pass\u{e9}word";

fn nonce_s(n: u64) -> String {
    format!("nonce-{}", n)
}

struct W18 {
    nw: Net,
    cl: Vec<Client>,
    srv: Srv,
    stream: bool,
    polite: bool,
    /// everything the server ever sent, per transaction id
    sent: BTreeMap<[u8; 12], BTreeSet<Vec<u8>>>,
    fresh_tid: u64,
    /// where the identifiers of this run differ, if they are alike
    tid_at: Option<usize>,
    tid_base: [u8; 12],
}
impl W18 {
    /// Identifiers are unique; how much they have in common depends on the run.
    fn tid(&mut self, cx: &mut Cx) -> [u8; 12] {
        self.fresh_tid += 1;
        let mut t = [0u8; 12];
        match self.tid_at {
            None => {
                let b = cx.blob(8);
                t[..8].copy_from_slice(&b);
                t[8..].copy_from_slice(&(self.fresh_tid as u32).to_be_bytes());
            }
            Some(at) => {
                // all alike but for two bytes
                t = self.tid_base;
                t[at] ^= self.fresh_tid as u8;
                t[(at + 1) % 12] ^= (self.fresh_tid >> 8) as u8;
            }
        }
        t
    }
    fn request(&mut self, cx: &mut Cx, c: usize, k: usize) -> R {
        let tid = self.tid(cx);
        let cl = &mut self.cl[c];
        let tx = &mut cl.txs[k];
        tx.tid = tid;
        tx.first = None;
        tx.tries = 0;
        let mut items = tx.items.clone();
        if tx.kind == Kind::Auth {
            if let Some((r, n)) = &cl.realm_nonce {
                items.push(GI::Av(AV { cp: refstun::USERNAME, v: V::Str(USER.into()) }));
                items.push(GI::Av(AV { cp: refstun::REALM, v: V::Str(r.clone()) }));
                items.push(GI::Av(AV { cp: refstun::NONCE, v: V::Str(n.clone()) }));
                items.push(GI::MiLong(USER.into(), r.clone(), PASS.into()));
            }
        }
        items.push(GI::Fp);
        let s = Spec { class: 0, method: 1, tid, items };
        tx.msg = if tx.kind == Kind::Broken {
            None
        } else {
            match gen::made::<Full>(&s)? {
                Some(m) => Some(m),
                None => return viol("refused", "a small request could not be built"),
            }
        };
        Ok(())
    }
    fn transmit(&mut self, cx: &mut Cx, c: usize, k: usize) -> R {
        let tx = &mut self.cl[c].txs[k];
        tx.tries += 1;
        let (tries, tid) = (tx.tries, tx.tid);
        let bytes = match tx.msg.clone() {
            Some(m) => {
                let b = send_bytes(cx, &mut self.cl[c].enc, m)?;
                let tx = &mut self.cl[c].txs[k];
                cx.ok();
                match &tx.first {
                    None => tx.first = Some(b.clone()),
                    Some(f) => {
                        cx.probe("retransmission");
                        ensure!(*f == b, "retransmission-differs", "retransmission {} of a request differs from the first transmission:\n {}\n {}", tries, hexs(f), hexs(&b));
                    }
                }
                b
            }
            None => {
                // an address family nobody knows, or a string that is no UTF-8
                let mut b = refstun::header(0, 1, 0, &tid);
                if tid[0] & 1 == 0 {
                    refstun::push_tlv(&mut b, refstun::XMA, &[0, 9, 1, 2, 3, 4, 5, 6], [0; 3]);
                } else {
                    refstun::push_tlv(&mut b, refstun::USERNAME, &[0xff, 0xfe, 0xfd], [0; 3]);
                }
                let n = b.len() - 20;
                refstun::set_len(&mut b, n);
                b
            }
        };
        cx.bytes_ev("request", &bytes);
        if self.stream {
            let g = self.cl[c].gen;
            self.nw.write(cx, c, SERVER, g, &bytes);
        } else {
            self.nw.send(cx, c, SERVER, &bytes);
        }
        // RFC 5389 7.2.1: the timeout doubles; capped so that progress has a bound
        let rto = (500_000u64 << (tries - 1).min(4)).min(8_000_000);
        let d = net::skewed(cx, rto, self.cl[c].skew);
        self.nw.after(cx, d, Ev::Timer { node: c, key: (k as u64) << 32 | tries as u64 });
        Ok(())
    }
    fn serve(&mut self, cx: &mut Cx, c: usize, bytes: &[u8], got: DecodedMessage<Server>) -> R {
        // the server's reading agrees with the reference
        let it = Item::Out(outcome(got.clone(), false));
        crate::w_stream::judge::<Server>(cx, bytes, &it)?;
        let (tid, method, answer) = match &got {
            Err(b) => {
                if !self.polite || class_no(b.class()) != 0 {
                    return Ok(());
                }
                let mut m = Message::<Server>::new(stun_codec::MessageClass::ErrorResponse, b.method(), b.transaction_id());
                m.add_attribute(ErrorCode::from(rfc5389::errors::BadRequest));
                (*b.transaction_id().as_bytes(), b.method().as_u16(), m)
            }
            Ok(m) => {
                if class_no(m.class()) != 0 {
                    return Ok(());
                }
                let fp = m.get_attribute::<Fingerprint>().is_some();
                if !fp {
                    return Ok(()); // not ours: all clients send FINGERPRINT
                }
                let unknown: Vec<_> = m.unknown_attributes().map(|a| a.get_type()).filter(|t| t.is_comprehension_required()).collect();
                let tid = *m.transaction_id().as_bytes();
                let err = |e: ErrorCode| {
                    let mut r = Message::<Server>::new(stun_codec::MessageClass::ErrorResponse, m.method(), m.transaction_id());
                    r.add_attribute(e);
                    r
                };
                let mut r = if !unknown.is_empty() {
                    let mut r = err(rfc5389::errors::UnknownAttribute.into());
                    r.add_attribute(UnknownAttributes::new(unknown));
                    r
                } else if m.get_attribute::<Software>().map_or(false, |s| s.description() == "auth please") {
                    // this method needs credentials
                    let nonce = nonce_s(self.srv.nonce);
                    let chall = |e: ErrorCode| {
                        let mut r = err(e);
                        r.add_attribute(Realm::new(REALM_S.into()).unwrap());
                        r.add_attribute(Nonce::new(nonce.clone()).unwrap());
                        r
                    };
                    match (m.get_attribute::<MessageIntegrity>(), m.get_attribute::<Nonce>()) {
                        (Some(mi), Some(n)) => {
                            let (u, re) = (Username::new(USER.into()).unwrap(), Realm::new(REALM_S.into()).unwrap());
                            let ok = real(|| mi.check_long_term_credential(&u, &re, PASS)).is_ok();
                            if !ok {
                                return viol("auth-refused", "a request protected with the right credential does not verify");
                            }
                            if n.value() != nonce {
                                cx.probe("stale_nonce");
                                chall(rfc5389::errors::StaleNonce.into())
                            } else {
                                let mut r = self.success(c, m);
                                let mi = real(|| MessageIntegrity::new_long_term_credential(&r, &u, &re, PASS));
                                match mi {
                                    Ok(mi) => r.add_attribute(mi),
                                    Err(_) => return viol("refused", "MESSAGE-INTEGRITY of a response"),
                                }
                                r
                            }
                        }
                        _ => {
                            cx.probe("unauthorized");
                            chall(rfc5389::errors::Unauthorized.into())
                        }
                    }
                } else {
                    self.success(c, m)
                };
                match real(|| Fingerprint::new(&r)) {
                    Ok(f) => r.add_attribute(f),
                    Err(_) => return viol("refused", "FINGERPRINT of a response"),
                }
                (tid, m.method().as_u16(), r)
            }
        };
        let _ = method;
        let b = send_bytes(cx, &mut self.srv.enc, answer)?;
        cx.bytes_ev("response", &b);
        let mut key = bytes.to_vec();
        key.extend_from_slice(&self.srv.nonce.to_be_bytes());
        key.push(c as u8);
        match self.srv.answers.get(&key) {
            Some(a) => {
                cx.ok();
                ensure!(*a == b, "answer-differs", "the same request got a different answer:\n {}\n {}", hexs(a), hexs(&b));
            }
            None => {
                self.srv.answers.insert(key, b.clone());
            }
        }
        self.sent.entry(tid).or_default().insert(b.clone());
        if self.stream {
            let g = self.cl[c].gen;
            self.nw.write(cx, SERVER, c, g, &b);
        } else {
            self.nw.send(cx, SERVER, c, &b);
        }
        Ok(())
    }
    fn success(&self, c: usize, m: &Message<Server>) -> Message<Server> {
        let mut r = Message::<Server>::new(stun_codec::MessageClass::SuccessResponse, m.method(), m.transaction_id());
        r.add_attribute(XorMappedAddress::new(self.cl[c].addr));
        r.add_attribute(Software::new(SW.into()).unwrap());
        r
    }
    fn response(&mut self, cx: &mut Cx, c: usize, bytes: &[u8], got: DecodedMessage<Full>) -> R {
        let it = Item::Out(outcome(got.clone(), false));
        crate::w_stream::judge::<Full>(cx, bytes, &it)?;
        let m = match got {
            Ok(m) => m,
            Err(_) => return Ok(()),
        };
        let tid = *m.transaction_id().as_bytes();
        let class = class_no(m.class());
        if class != 2 && class != 3 {
            return Ok(());
        }
        // the client's tables of outstanding transactions, as programs keep them
        let id = m.transaction_id();
        let open: Vec<(TransactionId, usize)> =
            self.cl[c].txs.iter().enumerate().filter(|(_, t)| t.started && !t.done).map(|(k, t)| (TransactionId::new(t.tid), k)).collect();
        let hashed: HashMap<TransactionId, usize> = real(|| open.iter().copied().collect());
        let sorted: BTreeMap<TransactionId, usize> = real(|| open.iter().copied().collect());
        ensure!(hashed.len() == open.len() && sorted.len() == open.len(), "identifiers", "{} outstanding transactions, tables of {} and {}", open.len(), hashed.len(), sorted.len());
        let k = open.iter().find(|t| self.cl[c].txs[t.1].tid == tid).map(|t| t.1);
        let (h, b, l) = real(|| (hashed.get(&id).copied(), sorted.get(&id).copied(), open.iter().find(|t| t.0 == id).map(|t| t.1)));
        cx.ok();
        ensure!(h == k && b == k && l == k, "identifiers", "response {} belongs to transaction {:?}; the tables say {:?} (hashed), {:?} (sorted), {:?} (list)", hexs(&tid), k, h, b, l);
        let k = match k {
            Some(k) => k,
            None => return Ok(()),
        };
        let kind = self.cl[c].txs[k].kind;
        let err = m.get_attribute::<ErrorCode>().map(|e| e.code());
        if kind == Kind::Broken {
            // made for 400 answers, which carry no fingerprint in this world
            if class == 3 && err == Some(400) {
                self.cl[c].txs[k].done = true;
                cx.probe("done_400");
            }
            return Ok(());
        }
        if m.get_attribute::<Fingerprint>().is_none() {
            return Ok(()); // a 400 for a request damaged on its way: keep retransmitting
        }
        let known = self.sent.get(&tid).map_or(false, |s| s.contains(bytes));
        cx.ok();
        if !known {
            // a CRC collision is the only honest way here
            match refstun::decode(bytes, &|x| Full::knows(x)) {
                ROut::Msg(r) if matches!(&r.body, Body::Valid(_) | Body::Either(_)) => return Ok(()),
                _ => return viol("forged", format!("client {} accepted a fingerprinted response nobody sent: {}", c, hexs(bytes))),
            }
        }
        match (kind, class, err) {
            (Kind::Strange, 3, Some(420)) => {
                let mut want: Vec<u16> = Vec::new();
                for it in &self.cl[c].txs[k].items {
                    if let GI::Av(a) = it {
                        if !Server::knows(a.cp) && a.cp < 0x8000 {
                            want.push(a.cp);
                        }
                    }
                }
                let got: Vec<u16> = m.get_attribute::<UnknownAttributes>().map(|u| u.unknowns().iter().map(|t| t.as_u16()).collect()).unwrap_or_default();
                ensure!(got == want, "unknown-list", "request has unknown attributes {:x?}, 420 response lists {:x?}", want, got);
                self.cl[c].txs[k].done = true;
                cx.probe("done_420");
            }
            (Kind::Auth, 3, Some(401)) | (Kind::Auth, 3, Some(438)) => {
                let r = m.get_attribute::<Realm>().map(|r| r.text().to_string());
                let n = m.get_attribute::<Nonce>().map(|n| n.value().to_string());
                match (r, n) {
                    (Some(r), Some(n)) => {
                        ensure!(r == REALM_S, "content", "realm {:?}", r);
                        self.cl[c].realm_nonce = Some((r, n));
                    }
                    _ => return viol("content", "a challenge without realm or nonce"),
                }
                self.cl[c].txs[k].attempt += 1;
                self.request(cx, c, k)?;
                self.transmit(cx, c, k)?;
            }
            (Kind::Plain, 2, None) | (Kind::Auth, 2, None) => {
                let a = m.get_attribute::<XorMappedAddress>().map(|a| a.address());
                ensure!(a == Some(self.cl[c].addr), "content", "client {} is told its address is {:?}", self.cl[c].addr, a);
                ensure!(m.get_attribute::<Software>().map(|s| s.description()) == Some(SW), "content", "SOFTWARE of the response");
                if kind == Kind::Auth {
                    let ok = m.get_attribute::<MessageIntegrity>().map_or(false, |mi| {
                        let (u, r) = (Username::new(USER.into()).unwrap(), Realm::new(REALM_S.into()).unwrap());
                        real(|| mi.check_long_term_credential(&u, &r, PASS)).is_ok()
                    });
                    ensure!(ok, "integrity", "the response to an authenticated request does not verify");
                    cx.probe("done_auth");
                } else {
                    cx.probe("done_plain");
                }
                self.cl[c].txs[k].done = true;
            }
            (k, c, e) => return viol("wrong-answer", format!("{:?} request answered with class {} error {:?}", k, c, e)),
        }
        Ok(())
    }
    fn all_done(&self) -> bool {
        self.cl.iter().all(|c| c.txs.iter().all(|t| t.done))
    }
    fn reset_link(&mut self, c: usize) {
        self.cl[c].gen += 1;
        self.cl[c].rx = StreamRx::new();
        self.srv.rx.remove(&c);
    }
    /// a connection was lost: what is outstanding goes out again over a new one
    fn resend(&mut self, cx: &mut Cx, c: usize) -> R {
        for k in 0..self.cl[c].txs.len() {
            let t = &self.cl[c].txs[k];
            if t.started && !t.done {
                self.transmit(cx, c, k)?;
            }
        }
        Ok(())
    }
}

fn c18(cx: &mut Cx) -> R {
    let stream = cx.chance(30);
    let nclients = 1 + cx.us(3);
    let heal = 1_000_000 + cx.below(30_000_000);
    let cfg = net::net_cfg(cx);
    let tid_at = if cx.chance(60) { Some(cx.us(12)) } else { None };
    let tid_base = gen::tid(cx);
    let mut w = W18 {
        nw: Net::new(cfg, heal),
        cl: Vec::new(),
        srv: Srv { enc: MessageEncoder::new(), dec: MessageDecoder::new(), rx: BTreeMap::new(), nonce: 1, down: false, answers: BTreeMap::new() },
        stream,
        polite: cx.chance(60),
        sent: BTreeMap::new(),
        fresh_tid: 0,
        tid_at,
        tid_base,
    };
    // node 0 is the server
    for c in 0..=nclients {
        let addr = gen::addr(cx);
        let skew = cx.below(81);
        w.cl.push(Client {
            enc: MessageEncoder::new(),
            dec: MessageDecoder::new(),
            rx: StreamRx::new(),
            addr,
            skew,
            txs: Vec::new(),
            realm_nonce: None,
            gen: 0,
            down: false,
        });
        if c == SERVER {
            continue;
        }
        let polite = w.polite;
        cx.repeat(1, 5, 1, |cx, k| {
            let kind = match cx.weighted(&[4, 4, 2, 2]) {
                1 => Kind::Auth,
                2 => Kind::Strange,
                3 if polite => Kind::Broken,
                _ => Kind::Plain,
            };
            let mut items: Vec<GI> = Vec::new();
            let n = cx.us(3);
            for _ in 0..n {
                // attributes the server may ignore or knows
                let cp = *cx.pick(&[refstun::XMA, 0x8023u16, 0x802b, 0x8029, 0x8030, refstun::USERNAME]);
                items.push(GI::Av(gen::av(cx, cp)));
            }
            match kind {
                Kind::Auth => items.push(GI::Av(AV { cp: refstun::SOFTWARE, v: V::Str("auth please".into()) })),
                Kind::Strange => {
                    let n = 1 + cx.us(4);
                    for _ in 0..n {
                        let cp = *cx.pick(&[0x0013u16, 0x0018, 0x0024, 0x0003, 0x000C, 0x0001, 0x8029]);
                        items.push(GI::Av(gen::av(cx, cp)));
                    }
                    items.push(GI::Av(gen::av(cx, 0x0024)));
                }
                _ => {}
            }
            // USERNAME of a plain request must not look like a credential: NONCE and MI are absent
            w.cl[c].txs.push(Tx { kind, tid: [0; 12], items, msg: None, first: None, tries: 0, attempt: 0, started: false, done: false });
            let t = cx.below(3_000_000);
            w.nw.at(t, Ev::Timer { node: c, key: (k as u64) << 32 });
            Ok(())
        })?;
    }
    let chaos = cx.chance(60);
    if chaos {
        cx.repeat(0, 6, 2, |cx, _| {
            let t = cx.below(heal);
            let node = cx.us(nclients + 1);
            if stream && cx.chance(40) {
                w.nw.at(t, Ev::Reset { a: 1 + cx.us(nclients), b: SERVER });
            } else {
                w.nw.at(t, Ev::Crash { node });
                let up = (t + cx.below(5_000_000)).min(heal);
                w.nw.at(up, Ev::Restart { node });
            }
            Ok(())
        })?;
    }
    // after the faults stop: one (possibly jumped or slow) timeout, then at most four exchanges
    let deadline = heal + 3_100_000 + 8 * 12_000_000;
    let mut steps = 0u64;
    while let Some(e) = w.nw.next(cx) {
        steps += 1;
        if w.all_done() {
            break;
        }
        if cx.now > deadline {
            let left: Vec<_> = w.cl.iter().flat_map(|c| c.txs.iter()).filter(|t| !t.done).map(|t| (t.kind, t.tries, t.attempt)).collect();
            return viol("no-progress", format!("faults stopped at {} us, at {} us these transactions are still open (kind, transmissions, attempt): {:?}", heal, cx.now, left));
        }
        ensure!(steps < 100_000, "no-progress", "too many events");
        match e {
            Ev::Timer { node: c, key } => {
                let (k, tries) = ((key >> 32) as usize, key as u32);
                cx.ev("timer", c as u64, key);
                if w.cl[c].down || w.cl[c].txs[k].done {
                    continue;
                }
                if !w.cl[c].txs[k].started {
                    w.cl[c].txs[k].started = true;
                    w.request(cx, c, k)?;
                    w.transmit(cx, c, k)?;
                } else if w.cl[c].txs[k].tries == tries {
                    w.transmit(cx, c, k)?;
                }
            }
            Ev::Packet { from, to, bytes, .. } => {
                cx.ev("packet", (from * 16 + to) as u64, bytes.len() as u64);
                if to == SERVER {
                    if w.srv.down {
                        continue;
                    }
                    match real(|| w.srv.dec.decode_from_bytes(&bytes)) {
                        Ok(m) => w.serve(cx, from, &bytes, m)?,
                        Err(_) => {
                            if dec_idle(&w.srv.dec) {
                                let _ = real(|| w.srv.dec.finish_decoding());
                            }
                            crate::w_stream::judge::<Server>(cx, &bytes, &Item::Reject)?;
                        }
                    }
                } else {
                    if w.cl[to].down {
                        continue;
                    }
                    match real(|| w.cl[to].dec.decode_from_bytes(&bytes)) {
                        Ok(m) => w.response(cx, to, &bytes, m)?,
                        Err(_) => {
                            if dec_idle(&w.cl[to].dec) {
                                let _ = real(|| w.cl[to].dec.finish_decoding());
                            }
                            crate::w_stream::judge::<Full>(cx, &bytes, &Item::Reject)?;
                        }
                    }
                }
            }
            Ev::Segment { from, to, gen, bytes } => {
                cx.ev("segment", (from * 16 + to) as u64, bytes.len() as u64);
                if to == SERVER {
                    if w.srv.down || gen != w.cl[from].gen {
                        continue;
                    }
                    let mut out = Vec::new();
                    let alive = w.srv.rx.entry(from).or_insert_with(StreamRx::new).feed(cx, &bytes, &mut out)?;
                    ensure!(alive, "stream-rejected", "server rejected an undamaged stream");
                    for (b, m) in out {
                        w.serve(cx, from, &b, m)?;
                    }
                } else {
                    if w.cl[to].down || gen != w.cl[to].gen {
                        continue;
                    }
                    let mut out = Vec::new();
                    let alive = w.cl[to].rx.feed(cx, &bytes, &mut out)?;
                    ensure!(alive, "stream-rejected", "client rejected an undamaged stream");
                    for (b, m) in out {
                        w.response(cx, to, &b, m)?;
                    }
                }
            }
            Ev::Crash { node } => {
                cx.fault(if node == SERVER { "server_crash" } else { "client_crash" });
                if node == SERVER {
                    w.srv.down = true;
                    w.srv.enc = MessageEncoder::new();
                    w.srv.dec = MessageDecoder::new();
                    for c in 1..=nclients {
                        w.reset_link(c);
                    }
                } else {
                    w.cl[node].down = true;
                    w.reset_link(node);
                }
            }
            Ev::Restart { node } => {
                cx.ev("restart", node as u64, 0);
                if node == SERVER {
                    w.srv.down = false;
                    // what it knew about nonces is gone
                    w.srv.nonce += 1;
                    if stream {
                        for c in 1..=nclients {
                            w.reset_link(c);
                            if !w.cl[c].down {
                                w.resend(cx, c)?;
                            }
                        }
                    }
                } else if w.cl[node].down {
                    w.cl[node].down = false;
                    w.reset_link(node);
                    w.cl[node].enc = MessageEncoder::new();
                    w.cl[node].dec = MessageDecoder::new();
                    // the list of outstanding transactions is durable, their messages are made anew
                    for k in 0..w.cl[node].txs.len() {
                        let t = &w.cl[node].txs[k];
                        if !t.done {
                            w.cl[node].txs[k].started = true;
                            w.request(cx, node, k)?;
                            w.transmit(cx, node, k)?;
                        }
                    }
                }
            }
            Ev::Reset { a, .. } => {
                cx.fault("connection_reset");
                w.reset_link(a);
                if !w.cl[a].down {
                    w.resend(cx, a)?;
                }
            }
        }
    }
    cx.ok();
    ensure!(w.all_done(), "no-progress", "nothing left to happen, transactions still open");
    cx.probe("all_transactions_done");
    Ok(())
}
