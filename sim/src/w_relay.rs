//! Worlds of nodes that understand different attributes: relays that pass
//! messages on, and receivers that meet attributes they do not know.

use crate::cx::{hexs, viol, Cx, R};
use crate::drive::Item;
use crate::gen::{self, GenCfg};
use crate::guard::real;
use crate::net::{self, Ev, Net};
use crate::refstun::{self, Body, ROut, AV, TABLE, V};
use crate::runner::Prop;
use crate::sets::*;
use crate::w_net::{check_firsts, send_bytes, StreamRx};
use crate::w_sec::{cred, mi_judge, Cred};
use crate::w_stream::judge;
use bytecodec::{DecodeExt, Encode};
use std::collections::BTreeSet;
use stun_codec::rfc5389::attributes::*;
use stun_codec::{rfc5389, AttributeType, DecodedMessage, Message, MessageDecoder, MessageEncoder};

const REAL: &[&str] = &[
    "stun_codec: Message, MessageDecoder, MessageEncoder, LosslessAttribute, all attribute types, digests",
    "bytecodec combinators and I/O helpers",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            run: c13,
            quick: 600_000,
            fixed: None,
            rule: "Each run draws a chain of one to five relays that understand different attributes, links of both kinds (datagram, stream) with faults, and origin messages with unknown attributes, odd padding, reserved bits and digests; every message a relay accepts must leave it byte for byte as it came, or with exactly the appended attributes behind it.",
            real: REAL,
            stub: &["network", "relay program", "reference codec as oracle", "crash and restart"],
            assumptions: &["a relay holds one decoder per inbound flow and one encoder"],
        },
        Prop {
            id: "C14",
            run: c14,
            quick: 1_300_000,
            fixed: None,
            rule: "Each run sends messages mixing known, repeated, near-miss and unknown attributes to receivers with different attribute sets over the faulty network, or runs a client against a server that answers 420 until the client's request is understood; what the receivers report as known and unknown, first occurrences and the 420 lists are compared with the reference codec, and the client must succeed once faults stop.",
            real: REAL,
            stub: &["network", "clock", "client and server programs", "reference codec as oracle"],
            assumptions: &["faults stop at a point of the run, from where the network delivers within 25 ms"],
        },
    ]
}

// ---------------------------------------------------------------- C13

trait Hop {
    fn packet(&mut self, cx: &mut Cx, b: &[u8], creds: &mut Vec<Cred>) -> R<Vec<Vec<u8>>>;
    fn segment(&mut self, cx: &mut Cx, b: &[u8], creds: &mut Vec<Cred>) -> R<Vec<Vec<u8>>>;
    fn crash(&mut self, both: bool);
}
struct HopOf<A: ASet> {
    udp: MessageDecoder<A>,
    stream: StreamRx<A>,
    enc: MessageEncoder<A>,
    append: u64,
    fan: u64,
    cps: Vec<u16>,
}
fn hop_of<A: ASet>(append: u64, fan: u64) -> Box<dyn Hop> {
    let cps = TABLE[..refstun::N_PLAIN].iter().map(|t| t.0).filter(|c| A::knows(*c)).collect();
    Box::new(HopOf::<A> { udp: MessageDecoder::new(), stream: StreamRx::new(), enc: MessageEncoder::new(), append, fan, cps })
}
impl<A: ASet> HopOf<A> {
    /// The relay adds an attribute of its own.
    fn add(&self, cx: &mut Cx, m: &mut Message<A>, want: &mut Vec<u8>, creds: &mut Vec<Cred>) {
        let mut tid = [0u8; 12];
        tid.copy_from_slice(&want[8..20]);
        match cx.weighted(&[5, 2, 2]) {
            1 if A::knows(refstun::MI) => {
                let c = if creds.is_empty() || cx.chance(50) { cred(cx) } else { cx.pick(&creds.clone()).clone() };
                if let Some(a) = c.make(m).and_then(A::of_mi) {
                    let mac = refstun::mac_of(want, &c.key());
                    refstun::push_tlv(want, refstun::MI, &mac, [0; 3]);
                    real(|| m.add_attribute(a));
                    creds.push(c);
                    cx.probe("relay_adds_integrity");
                }
            }
            2 if A::knows(refstun::FP) => {
                if let Some(a) = real(|| Fingerprint::new(m)).ok().and_then(A::of_fp) {
                    let f = refstun::fingerprint_of(want);
                    refstun::push_tlv(want, refstun::FP, &f.to_be_bytes(), [0; 3]);
                    real(|| m.add_attribute(a));
                    cx.probe("relay_adds_fingerprint");
                }
            }
            _ => {
                let av = if A::RAW {
                    let n = gen::value_len(cx);
                    AV { cp: gen::unknown_cp(cx), v: V::Bytes(cx.blob(n)) }
                } else if self.cps.is_empty() {
                    return;
                } else {
                    let cp = *cx.pick(&self.cps);
                    gen::av(cx, cp)
                };
                if let Some(a) = real(|| A::of_av(&av)) {
                    let v = refstun::value_bytes(&av, &tid);
                    refstun::push_tlv(want, av.cp, &v, [0; 3]);
                    real(|| m.add_attribute(a));
                    cx.probe("relay_adds_attribute");
                }
            }
        }
        let n = want.len() - 20;
        if n < 0x10000 {
            refstun::set_len(want, n);
        }
    }
    fn pass(&mut self, cx: &mut Cx, b: &[u8], d: DecodedMessage<A>, creds: &mut Vec<Cred>) -> R<Vec<Vec<u8>>> {
        judge::<A>(cx, b, &Item::Out(outcome(d.clone(), false)))?;
        let m = match d {
            Ok(m) => m,
            Err(_) => {
                cx.probe("relay_drops_broken");
                return Ok(vec![]);
            }
        };
        if A::knows(refstun::MI) && !creds.is_empty() {
            let some: Vec<Cred> = creds.iter().rev().take(3).cloned().collect();
            let (good, _) = mi_judge::<A>(cx, b, &Some(Ok(m.clone())), &some)?;
            if good > 0 {
                cx.probe("integrity_verified_behind_relay");
            }
        }
        let mut outs = Vec::new();
        let copies = if cx.chance(self.fan) { 2 + cx.us(2) } else { 1 };
        for i in 0..copies {
            let mut c = if i + 1 == copies { m.clone() } else { real(|| m.clone()) };
            let mut want = b.to_vec();
            if cx.chance(self.append) {
                for _ in 0..1 + cx.us(3) {
                    self.add(cx, &mut c, &mut want, creds);
                }
            }
            if want.len() - 20 >= 0x10000 {
                cx.fault("unrepresentable_message");
                ensure!(real(|| self.enc.start_encoding(c)).is_err(), "accepts-unrepresentable", "{} attribute bytes cannot be represented [set {}]", want.len() - 20, A::NAME);
                continue;
            }
            let out = send_bytes(cx, &mut self.enc, c)?;
            cx.ok();
            if out != want {
                let at = out.iter().zip(&want).position(|(x, y)| x != y).unwrap_or(out.len().min(want.len()));
                return viol(
                    "altered",
                    format!(
                        "a relay with attribute set {} received {} bytes and should pass on {} bytes, it sent {}; first difference at {}:\n received {}\n sent     {}",
                        A::NAME,
                        b.len(),
                        want.len(),
                        out.len(),
                        at,
                        hexs(&want[at.saturating_sub(8)..(at + 24).min(want.len())]),
                        hexs(&out[at.saturating_sub(8).min(out.len())..(at + 24).min(out.len())])
                    ),
                );
            }
            outs.push(out);
        }
        Ok(outs)
    }
}
impl<A: ASet> Hop for HopOf<A> {
    fn packet(&mut self, cx: &mut Cx, b: &[u8], creds: &mut Vec<Cred>) -> R<Vec<Vec<u8>>> {
        match real(|| self.udp.decode_from_bytes(b)) {
            Ok(d) => self.pass(cx, b, d, creds),
            Err(_) => {
                if dec_idle(&self.udp) {
                    let _ = real(|| bytecodec::Decode::finish_decoding(&mut self.udp));
                }
                judge::<A>(cx, b, &Item::Reject)?;
                Ok(vec![])
            }
        }
    }
    fn segment(&mut self, cx: &mut Cx, b: &[u8], creds: &mut Vec<Cred>) -> R<Vec<Vec<u8>>> {
        let mut got = Vec::new();
        let alive = self.stream.feed(cx, b, &mut got)?;
        ensure!(alive, "stream-rejected", "a stream of whole messages was rejected [set {}]", A::NAME);
        let mut outs = Vec::new();
        for (b, d) in got {
            outs.extend(self.pass(cx, &b, d, creds)?);
        }
        Ok(outs)
    }
    fn crash(&mut self, both: bool) {
        self.stream = StreamRx::new();
        if both {
            self.udp = MessageDecoder::new();
            self.enc = MessageEncoder::new();
        }
    }
}

fn c13(cx: &mut Cx) -> R {
    let hops = 1 + cx.us(5);
    let append = *cx.pick(&[0, 0, 15, 50]);
    let fan = *cx.pick(&[0, 0, 20]);
    let mut chain: Vec<Box<dyn Hop>> = Vec::new();
    for _ in 0..hops {
        let i = cx.weighted(&SET_W);
        chain.push(with_set!(i, A => hop_of::<A>(append, fan)));
    }
    let mut cfg = net::net_cfg(cx);
    let pure = cx.chance(40);
    if pure {
        cfg.corrupt = 0;
        cfg.truncate = 0;
        cfg.foreign = 0;
    }
    let crashes = cx.chance(20);
    let mut nw = Net::new(cfg, u64::MAX);
    let udp_share = *cx.pick(&[50, 100, 0]);
    let mut gens = vec![0u64; hops + 2];
    let mut creds: Vec<Cred> = Vec::new();
    let mut origin: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut enc = MessageEncoder::<Full>::new();
    let mut wcfg = gen::wire_cfg(cx);
    wcfg.structure = !pure && cx.chance(20);
    wcfg.invalid = !pure && cx.chance(30);
    wcfg.big = cx.chance(2);
    let (max, avg) = match cx.weighted(&[40, 1]) {
        0 => (5, 2),
        _ => (80, 60),
    };
    let mut budget = 400u32;
    let mut step = |cx: &mut Cx, nw: &mut Net, creds: &mut Vec<Cred>, gens: &mut Vec<u64>, origin: &BTreeSet<Vec<u8>>| -> R {
        let (to, outs) = match nw.next(cx) {
            None => return Ok(()),
            Some(Ev::Packet { to, bytes, .. }) => {
                cx.ev("packet", to as u64, bytes.len() as u64);
                if to > hops {
                    if pure && append == 0 {
                        cx.ok();
                        ensure!(origin.contains(&bytes), "altered", "what reached the far end was never sent: {}", hexs(&bytes));
                        cx.probe("through_the_chain");
                    }
                    return Ok(());
                }
                (to, chain[to - 1].packet(cx, &bytes, creds)?)
            }
            Some(Ev::Segment { to, gen, bytes, .. }) => {
                if gen != gens[to] || to > hops {
                    return Ok(());
                }
                cx.ev("segment", to as u64, bytes.len() as u64);
                (to, chain[to - 1].segment(cx, &bytes, creds)?)
            }
            Some(Ev::Crash { node }) => {
                cx.fault("crash_restart");
                chain[node - 1].crash(true);
                gens[node] += 1;
                gens[node + 1] += 1;
                if node < hops {
                    chain[node].crash(false);
                }
                return Ok(());
            }
            Some(_) => return Ok(()),
        };
        for o in outs {
            if budget == 0 {
                break;
            }
            budget -= 1;
            // the far end only listens for datagrams
            if to == hops || cx.below(100) < udp_share {
                nw.send(cx, to, to + 1, &o);
            } else {
                nw.write(cx, to, to + 1, gens[to + 1], &o);
            }
        }
        Ok(())
    };
    cx.repeat(1, max, avg, |cx, k| {
        let b = match cx.weighted(&[6, 3]) {
            0 => gen::wire(cx, wcfg),
            _ => {
                let n = *cx.pick(&[5usize, 2, 10]);
                let s = gen::spec::<Full>(cx, GenCfg { max_attrs: n, digests: true, big: false });
                for it in &s.items {
                    if gen::key_of(it).is_some() {
                        creds.push(Cred::of(it));
                    }
                }
                match gen::made::<Full>(&s)? {
                    Some(m) if gen::spec_len(&s) < 0x10000 => send_bytes(cx, &mut enc, m)?,
                    _ => return Ok(()),
                }
            }
        };
        cx.bytes_ev("origin", &b);
        origin.insert(b.clone());
        if cx.below(100) < udp_share {
            nw.send(cx, 0, 1, &b);
        } else {
            nw.write(cx, 0, 1, gens[1], &b);
        }
        if crashes && cx.chance(15) {
            let dt = cx.below(500_000);
            let node = 1 + cx.us(hops);
            nw.after(cx, dt, Ev::Crash { node });
        }
        while k > 0 && nw.len() > 0 && cx.chance(60) {
            step(cx, &mut nw, &mut creds, &mut gens, &origin)?;
        }
        Ok(())
    })?;
    while nw.len() > 0 {
        step(cx, &mut nw, &mut creds, &mut gens, &origin)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

fn c14(cx: &mut Cx) -> R {
    if cx.chance(40) {
        let i = cx.weighted(&SET_W);
        with_set!(i, A => comprehension::<A>(cx))
    } else {
        c14_cast(cx)
    }
}
/// Unknown attributes are the point here: near misses of known types, repeated
/// types, empty values, long values.
fn mixed(cx: &mut Cx) -> Vec<u8> {
    let t = gen::tid(cx);
    let (c, me) = (gen::class(cx), gen::method(cx));
    let mut b = refstun::header(c, me, 0, &t);
    let max = *cx.pick(&[8usize, 4, 20, 60]);
    let few: Vec<u16> = (0..3).map(|_| gen::plain_cp(cx)).collect();
    let _ = cx.repeat(0, max, (max + 1) / 2, |cx, _| {
        if b.len() > 20_000 {
            return Ok(());
        }
        let p = cx.blob(3);
        let pad = [p[0], p[1], p[2]];
        let cp = match cx.weighted(&[3, 3, 3, 3, 1]) {
            0 => gen::plain_cp(cx),
            // the same few types again and again
            1 => *cx.pick(&few),
            2 => gen::unknown_cp(cx),
            3 => {
                let k = TABLE[cx.us(TABLE.len())].0;
                match cx.below(5) {
                    0 => k ^ 0x8000,
                    1 => k.wrapping_add(1),
                    2 => k.wrapping_sub(1),
                    3 => k.swap_bytes(),
                    _ => k ^ (1 << cx.below(16)),
                }
            }
            _ => cx.below(0x10000) as u16,
        };
        if cp == refstun::FP {
            let f = refstun::fingerprint_of(&b);
            refstun::push_tlv(&mut b, cp, &f.to_be_bytes(), pad);
        } else if cp == refstun::MI {
            let v = cx.blob(20);
            refstun::push_tlv(&mut b, cp, &v, pad);
        } else if refstun::kind_of(cp).is_some() {
            let a = gen::av(cx, cp);
            let mut v = refstun::value_bytes(&a, &t);
            if cx.chance(20) {
                gen::add_noise(cx, cp, &mut v);
            }
            if cx.chance(3) {
                gen::spoil(cx, cp, &mut v);
            }
            refstun::push_tlv(&mut b, cp, &v, pad);
        } else {
            let n = match cx.weighted(&[3, 3, 1]) {
                0 => cx.us(6),
                1 => cx.us(30),
                _ => gen::value_len(cx),
            };
            let v = cx.blob(n);
            refstun::push_tlv(&mut b, cp, &v, pad);
        }
        Ok(())
    });
    if b.len() < 20_000 {
        let cps = [few[0], gen::plain_cp(cx), gen::unknown_cp(cx)];
        for a in gen::crowd(cx, &cps) {
            refstun::push_tlv(&mut b, a.cp, &refstun::value_bytes(&a, &t), [0; 3]);
        }
    }
    let n = b.len() - 20;
    refstun::set_len(&mut b, n);
    b
}
trait Rx {
    fn packet(&mut self, cx: &mut Cx, b: &[u8]) -> R;
}
struct RxOf<A: ASet>(MessageDecoder<A>);
/// What a receiver reports as known, unknown and first, against the reference.
fn inspect<A: ASet>(cx: &mut Cx, b: &[u8], d: &DecodedMessage<A>) -> R {
    judge::<A>(cx, b, &Item::Out(outcome(d.clone(), false)))?;
    let m = match d {
        Ok(m) => m,
        Err(_) => return Ok(()),
    };
    let attrs = match refstun::decode(b, &|c| A::knows(c)) {
        ROut::Msg(r) => match r.body {
            Body::Valid(a) | Body::Either(a) => a,
            _ => return Ok(()),
        },
        _ => return Ok(()),
    };
    let raw = A::RAW;
    let known: Vec<AV> = attrs.iter().filter(|a| a.known || raw).map(|a| AV { cp: a.cp, v: a.v.clone() }).collect();
    check_firsts(m, &known)?;
    let got: Vec<(u16, bool, bool)> = real(|| {
        m.unknown_attributes()
            .map(|a| {
                let t = stun_codec::Attribute::get_type(a);
                (t.as_u16(), t.is_comprehension_required(), t.is_comprehension_optional())
            })
            .collect()
    });
    let want: Vec<(u16, bool, bool)> =
        attrs.iter().filter(|a| !a.known && !raw).map(|a| (a.cp, a.cp < 0x8000, a.cp >= 0x8000)).collect();
    ensure!(got == want, "unknown-list", "unknown attributes are {:?}, receiver [set {}] reports {:?}", want, A::NAME, got);
    cx.ok();
    if !want.is_empty() {
        cx.probe("unknown_attributes_seen");
    }
    Ok(())
}
impl<A: ASet> Rx for RxOf<A> {
    fn packet(&mut self, cx: &mut Cx, b: &[u8]) -> R {
        match real(|| self.0.decode_from_bytes(b)) {
            Ok(d) => inspect::<A>(cx, b, &d),
            Err(_) => {
                if dec_idle(&self.0) {
                    let _ = real(|| bytecodec::Decode::finish_decoding(&mut self.0));
                }
                judge::<A>(cx, b, &Item::Reject)
            }
        }
    }
}
fn rx_of<A: ASet>() -> Box<dyn Rx> {
    Box::new(RxOf::<A>(MessageDecoder::new()))
}
fn c14_cast(cx: &mut Cx) -> R {
    let n = 2 + cx.us(4);
    let mut rxs: Vec<Box<dyn Rx>> = Vec::new();
    for _ in 0..n {
        let i = cx.weighted(&SET_W);
        rxs.push(with_set!(i, A => rx_of::<A>()));
    }
    let cfg = net::net_cfg(cx);
    let mut nw = Net::new(cfg, u64::MAX);
    cx.repeat(1, 6, 3, |cx, _| {
        let b = mixed(cx);
        cx.bytes_ev("cast", &b);
        for to in 0..n {
            nw.send(cx, 99, to, &b);
        }
        while nw.len() > 0 && cx.chance(50) {
            if let Some(Ev::Packet { to, bytes, .. }) = nw.next(cx) {
                cx.ev("packet", to as u64, bytes.len() as u64);
                rxs[to].packet(cx, &bytes)?;
            }
        }
        Ok(())
    })?;
    while let Some(e) = nw.next(cx) {
        if let Ev::Packet { to, bytes, .. } = e {
            cx.ev("packet", to as u64, bytes.len() as u64);
            rxs[to].packet(cx, &bytes)?;
        }
    }
    Ok(())
}

/// A client keeps asking until the server understands all of its request.
fn comprehension<A: ASet>(cx: &mut Cx) -> R {
    const CLIENT: usize = 0;
    const SERVER: usize = 1;
    let cfg = net::net_cfg(cx);
    let heal = 200_000 + cx.below(20_000_000);
    let mut nw = Net::new(cfg, heal);
    let (mut cdec, mut cenc) = (MessageDecoder::<Full>::new(), MessageEncoder::<Full>::new());
    let mut sdec = MessageDecoder::<A>::new();
    let mut senc = MessageEncoder::<rfc5389::Attribute>::new();
    // a server that wants to understand everything lists optional types as well
    let strict = cx.chance(25);
    let n = *cx.pick(&[6usize, 2, 12]);
    let mut spec = gen::spec::<Full>(cx, GenCfg { max_attrs: n, digests: true, big: false });
    spec.class = 0;
    let mut serial = 0u64;
    let mut request: Vec<u8> = Vec::new();
    let mut rto = 500_000u64;
    let mut epoch = 0u64;
    let mut done = false;
    let mut fresh = |cx: &mut Cx, spec: &mut gen::Spec, serial: &mut u64| -> R<Vec<u8>> {
        *serial += 1;
        spec.tid[..4].copy_from_slice(&(*serial as u32).to_be_bytes());
        match gen::made::<Full>(spec)? {
            Some(m) => send_bytes(cx, &mut cenc, m),
            None => viol("constructor-refuses", "a small message could not be built"),
        }
    };
    request.extend(fresh(cx, &mut spec, &mut serial)?);
    cx.bytes_ev("request", &request);
    nw.send(cx, CLIENT, SERVER, &request);
    nw.after(cx, rto, Ev::Timer { node: CLIENT, key: epoch });
    // after the heal: at most one round per attribute, each at most one timeout long
    let deadline = heal + 60_000_000 + 4_000_000 * (spec.items.len() as u64 + 3);
    while !done {
        let e = match nw.next(cx) {
            Some(e) => e,
            None => return viol("stuck", "nothing left to happen, and the client has no answer"),
        };
        ensure!(
            cx.now < deadline,
            "no-progress",
            "{} s after faults stopped, the client still has no success; it sends {} attributes [server set {}]",
            (cx.now - heal) / 1_000_000,
            spec.items.len(),
            A::NAME
        );
        match e {
            Ev::Timer { key, .. } => {
                if key == epoch {
                    cx.ev("retransmit", key, rto);
                    nw.send(cx, CLIENT, SERVER, &request);
                    rto = (rto * 2).min(2_000_000);
                    nw.after(cx, rto, Ev::Timer { node: CLIENT, key });
                }
            }
            Ev::Packet { to: SERVER, bytes, .. } => {
                cx.ev("at server", bytes.len() as u64, 0);
                let d = match real(|| sdec.decode_from_bytes(&bytes)) {
                    Ok(d) => d,
                    Err(_) => {
                        if dec_idle(&sdec) {
                            let _ = real(|| bytecodec::Decode::finish_decoding(&mut sdec));
                        }
                        judge::<A>(cx, &bytes, &Item::Reject)?;
                        continue;
                    }
                };
                inspect::<A>(cx, &bytes, &d)?;
                let (class, method, tid, reply) = match &d {
                    Ok(m) => {
                        let unk: Vec<AttributeType> = real(|| {
                            m.unknown_attributes()
                                .map(stun_codec::Attribute::get_type)
                                .filter(|t| strict || t.is_comprehension_required())
                                .collect()
                        });
                        (m.class(), m.method(), m.transaction_id(), Some(unk))
                    }
                    Err(b) => (b.class(), b.method(), b.transaction_id(), None),
                };
                if class_no(class) != 0 {
                    continue;
                }
                let (k, extra): (u8, Vec<rfc5389::Attribute>) = match reply {
                    None => (3, vec![ErrorCode::from(rfc5389::errors::BadRequest).into()]),
                    Some(u) if u.is_empty() => (2, vec![XorMappedAddress::new(gen::addr(cx)).into()]),
                    Some(u) => {
                        cx.probe("answered_420");
                        (3, vec![ErrorCode::from(rfc5389::errors::UnknownAttribute).into(), UnknownAttributes::new(u).into()])
                    }
                };
                let mut r = real(|| Message::<rfc5389::Attribute>::new(class_of(k), method, tid));
                for a in extra {
                    real(|| r.add_attribute(a));
                }
                if cx.chance(50) {
                    if let Ok(f) = real(|| Fingerprint::new(&r)) {
                        real(|| r.add_attribute(f));
                    }
                }
                let out = send_bytes(cx, &mut senc, r)?;
                // what the reply must say, from the request's bytes alone
                if let ROut::Msg(q) = refstun::decode(&bytes, &|c| A::knows(c)) {
                    if let Body::Valid(a) = &q.body {
                        let raw = A::RAW;
                        let want: Vec<u8> =
                            a.iter().filter(|a| !raw && !a.known && (strict || a.cp < 0x8000)).flat_map(|a| a.cp.to_be_bytes()).collect();
                        let says = match refstun::decode(&out, &|_| true) {
                            ROut::Msg(p) => match p.body {
                                Body::Valid(a) => a.iter().find(|a| a.cp == refstun::UNKNOWN_ATTRS).map(|a| a.value.clone()),
                                _ => return viol("reply-broken", format!("reply is no valid message: {}", hexs(&out))),
                            },
                            _ => return viol("reply-broken", format!("reply is no message: {}", hexs(&out))),
                        };
                        cx.ok();
                        ensure!(
                            says.clone().unwrap_or_default() == want && says.is_some() != want.is_empty(),
                            "list-420",
                            "a server with attribute set {} lists {} as unknown, the reply says {:?}; request {}",
                            A::NAME,
                            hexs(&want),
                            says.map(|s| hexs(&s)),
                            hexs(&bytes)
                        );
                    }
                }
                nw.send(cx, SERVER, CLIENT, &out);
            }
            Ev::Packet { bytes, .. } => {
                cx.ev("at client", bytes.len() as u64, 0);
                let m = match real(|| cdec.decode_from_bytes(&bytes)) {
                    Ok(d) => {
                        inspect::<Full>(cx, &bytes, &d)?;
                        match d {
                            Ok(m) => m,
                            Err(_) => continue,
                        }
                    }
                    Err(_) => {
                        if dec_idle(&cdec) {
                            let _ = real(|| bytecodec::Decode::finish_decoding(&mut cdec));
                        }
                        continue;
                    }
                };
                if *m.transaction_id().as_bytes() != spec.tid || class_no(m.class()) < 2 {
                    continue;
                }
                if class_no(m.class()) == 2 {
                    done = true;
                    cx.probe("request_understood");
                    continue;
                }
                let code = real(|| m.get_attribute::<ErrorCode>().map(|e| e.code()));
                let listed: Vec<u16> =
                    real(|| m.get_attribute::<UnknownAttributes>().map(|u| u.unknowns().iter().map(|t| t.as_u16()).collect()).unwrap_or_default());
                if code == Some(420) {
                    let digests = listed.contains(&refstun::MI);
                    spec.items.retain(|i| match i {
                        gen::Item::Av(a) => !listed.contains(&a.cp),
                        gen::Item::Fp => !listed.contains(&refstun::FP),
                        _ => !digests,
                    });
                }
                // a new transaction, with what is left
                request = fresh(cx, &mut spec, &mut serial)?;
                cx.bytes_ev("request", &request);
                epoch += 1;
                rto = 500_000;
                nw.send(cx, CLIENT, SERVER, &request);
                nw.after(cx, rto, Ev::Timer { node: CLIENT, key: epoch });
            }
            _ => {}
        }
    }
    Ok(())
}
