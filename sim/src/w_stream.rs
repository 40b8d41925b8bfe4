//! Worlds around one receiver: how bytes arrive, what came before, what is in them.

use crate::cx::{viol, Cx, R};
use crate::drive::{self, drive, fresh, incomplete, pace, Item, Pipe, MODES};
use crate::gen::{self, WireCfg};
use crate::guard::{self, real};
use crate::refstun::{self, Body, ROut, AV, V};
use crate::runner::Prop;
use crate::sets::*;
use bytecodec::io::{IoDecodeExt, IoEncodeExt};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos};
use stun_codec::rfc5389::attributes::{Realm, Username};
use stun_codec::{DecodedMessage, Message, MessageDecoder, MessageEncoder};

const REAL: &[&str] = &["stun_codec: message and attribute decoders and encoders, all attribute types, define_attribute_enums! expansions", "bytecodec combinators and I/O helpers"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            run: c01,
            quick: 400_000,
            fixed: None,
            rule: "Each run draws an attribute set, a stream of generated messages (valid, odd or broken) with a clean, cut or foreign tail, and one or two delivery schedules (read sizes, empty reads, WouldBlock, EINTR, end of stream) over seven ways of driving the decoder; every result is compared with decoding the same bytes whole.",
            real: REAL,
            stub: &["byte source (Read) and its timing", "peer that produced the bytes (reference codec)"],
            assumptions: &["the caller keeps bytes the decoder did not consume and offers them again"],
        },
        Prop {
            id: "C02",
            run: c02,
            quick: 2_400_000,
            fixed: None,
            rule: "Each run draws back-to-back messages and a delivery schedule; before and after every step the announced demand, the idle state and the number of bytes consumed are compared with the message boundaries computed by the reference codec.",
            real: REAL,
            stub: &["byte source (Read)", "peer that produced the bytes (reference codec)"],
            assumptions: &[],
        },
        Prop {
            id: "C04",
            run: c04,
            quick: 350_000,
            fixed: None,
            rule: "Each run draws a history of deliveries to one long-lived decoder (valid, broken, foreign, cut short by end of stream, premature take-outs, trailing bytes) over mixed driving modes; after each the next message's result is compared with that of a decoder made for it.",
            real: REAL,
            stub: &["byte source (Read)", "peers (reference codec)"],
            assumptions: &["a caller that gets an error while the decoder holds a finished item takes that item out before reuse"],
        },
        Prop {
            id: "C11",
            run: c11,
            quick: 500_000,
            fixed: None,
            rule: "Each run performs a generated sequence of public operations, legal or not, in any order, on decoders and encoders fed with generated, corrupted and near-limit bytes, and touches every accessor of what comes out; only termination and absence of panics are judged.",
            real: REAL,
            stub: &["byte source and sink", "callers that misuse the interface"],
            assumptions: &["a call that has not returned after 20 s counts as stalled", "calls have 1 MiB of stack", "integer overflow checks and debug assertions are compiled in"],
        },
        Prop {
            id: "C12",
            run: c12,
            quick: 2_400_000,
            fixed: None,
            rule: "Each run draws a stream of messages with invalid values, lying lengths and cut attributes under a delivery schedule; accept or broken, header fields, content and resynchronisation are compared with the reference codec's verdict on the same bytes.",
            real: REAL,
            stub: &["byte source", "reference codec as peer and oracle"],
            assumptions: &["values on which RFCs and library documentation disagree (error class 6, over-long reason phrase, channel 0x5000-0x7FFF, 2-byte RESPONSE-PORT) are accepted either way"],
        },
        Prop {
            id: "C16",
            run: c16,
            quick: 450_000,
            fixed: Some(c16_fixed),
            rule: "Each run feeds one long-lived decoder and encoder a history of messages, including ones that announce far more than they deliver, broken and foreign ones, and meters every allocation made inside the calls: peak against bytes received, and memory kept after each message is dropped.",
            real: REAL,
            stub: &["memory allocator (counting)", "byte source"],
            assumptions: &["at most two MESSAGE-INTEGRITY attributes per message (see the known finding)"],
        },
    ]
}

fn set(cx: &mut Cx) -> usize {
    cx.weighted(&SET_W)
}
/// how many messages: mostly a few, now and then a long history
fn how_many(cx: &mut Cx) -> (usize, usize, bool) {
    match cx.weighted(&[60, 12, 1]) {
        0 => (6, 2, false),
        1 => (30, 12, true),
        _ => (300, 280, true),
    }
}
fn shrink_cfg(mut c: WireCfg, long: bool) -> WireCfg {
    if long {
        c.big = false;
        c.max_attrs = c.max_attrs.min(3);
    }
    c
}

fn agrees(want: &Item, got: &Item) -> bool {
    match (want, got) {
        // what the decoder calls it does not matter, as long as it is no message
        (Item::Cut, Item::Out(o)) => !o.is_good(),
        (Item::Cut, _) | (Item::Reject, Item::Cut) | (Item::Reject, Item::Reject) => true,
        _ => want.same(got),
    }
}
fn diff(want: &[Item], got: &[Item]) -> Option<String> {
    for i in 0..want.len().max(got.len()) {
        let ok = match (want.get(i), got.get(i)) {
            (Some(w), Some(g)) => agrees(w, g),
            _ => false,
        };
        if !ok {
            return Some(format!(
                "item {}: whole-message decoding gives {}, this delivery gives {}",
                i,
                want.get(i).map_or("nothing".into(), |x| x.brief()),
                got.get(i).map_or("nothing".into(), |x| x.brief())
            ));
        }
    }
    None
}

// ---------------------------------------------------------------- C01

fn c01(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c01_run::<A>(cx))
}
fn c01_run<A: ASet>(cx: &mut Cx) -> R {
    if cx.below(100) >= 92 {
        return crate::w_parts::read_values::<A>(cx);
    }
    let cfg = gen::wire_cfg(cx);
    let (max, avg, long) = how_many(cx);
    let cfg = shrink_cfg(cfg, long);
    let mut msgs: Vec<Vec<u8>> = Vec::new();
    cx.repeat(1, max, avg, |cx, _| {
        msgs.push(gen::wire(cx, cfg));
        Ok(())
    })?;
    let mut stream: Vec<u8> = Vec::new();
    let mut want: Vec<Item> = Vec::new();
    for m in &msgs {
        cx.bytes_ev("message", m);
        want.push(fresh::<A>(m, true));
        stream.extend_from_slice(m);
    }
    let mut tail: Option<Vec<u8>> = None;
    match cx.weighted(&[6, 5, 2]) {
        0 => {}
        1 => {
            let m = gen::wire(cx, cfg);
            let n = match cx.weighted(&[3, 1, 1]) {
                0 => 1 + cx.us(m.len() - 1),
                1 => m.len() - 1,
                _ => m.len().min(20 + cx.us(5)).min(m.len() - 1),
            };
            cx.fault("stream_cut");
            tail = Some(m[..n].to_vec());
        }
        _ => {
            cx.fault("foreign_bytes");
            let b = gen::not_stun(cx);
            if !b.is_empty() {
                tail = Some(b);
            }
        }
    }
    if let Some(t) = &tail {
        cx.bytes_ev("tail", t);
        stream.extend_from_slice(t);
        want.push(if incomplete(t) { Item::Cut } else { Item::Reject });
        // the same tail as a datagram on its own is no message either
        let g = fresh::<A>(t, false);
        if let Item::Out(o) = &g {
            ensure!(!o.is_good(), "truncated-accepted", "a cut or foreign datagram decoded to {}", o.brief());
        }
        cx.ok();
    }
    let passes = 1 + cx.us(2);
    for _ in 0..passes {
        let mode = cx.below(MODES);
        let p = pace(cx);
        cx.ev("mode", mode, p.style);
        cx.note(|| format!("drive by {} with {:?}, attribute set {}", drive::mode_name(mode), p, A::NAME));
        let mut dec = MessageDecoder::<A>::new();
        let got = drive(cx, &mut dec, &stream, mode, p, true, true)?;
        cx.ok();
        if let Some(d) = diff(&want, &got.items) {
            return viol("segmentation", format!("{} [set {}]: {}", drive::mode_name(mode), A::NAME, d));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

fn c02(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c02_run::<A>(cx))
}
fn c02_run<A: ASet>(cx: &mut Cx) -> R {
    if cx.below(100) >= 92 {
        return crate::w_parts::read_values::<A>(cx);
    }
    let cfg = gen::wire_cfg(cx);
    let (max, avg, long) = how_many(cx);
    let cfg = shrink_cfg(cfg, long);
    let mut stream: Vec<u8> = Vec::new();
    let mut bounds: Vec<usize> = Vec::new();
    cx.repeat(1, max, avg, |cx, _| {
        let m = gen::wire(cx, cfg);
        cx.bytes_ev("message", &m);
        stream.extend_from_slice(&m);
        bounds.push(stream.len());
        Ok(())
    })?;
    let p = pace(cx);
    let mode = cx.below(drive::MODES_WITH_ENDS);
    cx.ev("mode", mode, p.style);
    let mut dec = MessageDecoder::<A>::new();
    if mode >= 2 {
        // read exactly what is asked for, message after message
        let got = drive(cx, &mut dec, &stream, mode, p, false, true)?;
        cx.ok();
        ensure!(got.ends == bounds, "framing", "messages end at {:?}, decoder was given out at {:?}", bounds, got.ends);
        return Ok(());
    }
    let (mut pos, mut avail, mut k) = (0usize, 0usize, 0usize);
    let mut steps = 0;
    let known = cx.chance(50);
    while k < bounds.len() {
        steps += 1;
        ensure!(steps < 300_000 + 2 * stream.len(), "stall", "no progress");
        let start = if k == 0 { 0 } else { bounds[k - 1] };
        let end = bounds[k];
        let q = real(|| dec.requiring_bytes());
        ensure!(!dec_idle(&dec), "idle-state", "decoder is idle {} bytes into a message of {}", pos - start, end - start);
        match q {
            ByteCount::Finite(n) => {
                ensure!(
                    n >= 1 && n <= (end - pos) as u64,
                    "demand",
                    "{} bytes into a message of {} bytes the decoder asks for {} more",
                    pos - start,
                    end - start,
                    n
                );
            }
            ByteCount::Unknown => {}
            ByteCount::Infinite => return viol("demand", "decoder asks for infinitely many bytes"),
        }
        cx.ok();
        let us = cx.below(1000);
        cx.advance(us);
        if avail < stream.len() {
            avail += drive::chunk(cx, &p, stream.len() - avail);
        }
        let given = avail - pos;
        let eos = if known && cx.chance(50) {
            Eos::with_remaining_bytes(ByteCount::Finite((stream.len() - avail) as u64))
        } else if avail == stream.len() && cx.chance(30) {
            Eos::new(true)
        } else {
            Eos::new(false)
        };
        let n = match real(|| dec.decode(&stream[pos..avail], eos)) {
            Ok(n) => n,
            Err(e) => return viol("framing", format!("decode failed {} bytes into a message with an acceptable header: {:?}", pos - start, e.kind())),
        };
        cx.ev("decode", given as u64, n as u64);
        let should = given.min(end - pos);
        ensure!(n == should, "framing", "given {} bytes with {} left in the message, decoder consumed {}", given, end - pos, n);
        pos += n;
        let idle = dec_idle(&dec);
        ensure!(idle == (pos == end), "idle-state", "{} of {} bytes of the message consumed, decoder {} idle", pos - start, end - start, if idle { "is" } else { "is not" });
        if idle {
            let q = real(|| dec.requiring_bytes());
            ensure!(q == ByteCount::Finite(0), "demand", "the message is complete, yet the decoder asks for {:?}", q);
            if cx.chance(40) {
                // offered more before the finished message is taken
                let extra = &stream[pos..avail];
                cx.fault("bytes_offered_to_finished_decoder");
                match real(|| dec.decode(extra, Eos::new(false))) {
                    Ok(n) => ensure!(n == 0, "framing", "a finished decoder consumed {} bytes of the next message", n),
                    Err(e) => return viol("framing", format!("a finished decoder failed on further bytes: {:?}", e.kind())),
                }
                ensure!(dec_idle(&dec), "idle-state", "a finished decoder stopped being idle");
            }
            if real(|| dec.finish_decoding()).is_err() {
                return viol("finish-failed", "an idle decoder refused to hand out its item");
            }
            cx.ev("message", pos as u64, 0);
            k += 1;
            ensure!(!dec_idle(&dec), "idle-state", "decoder is idle right after its message was taken out");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C04

fn c04(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c04_run::<A>(cx))
}
fn c04_run<A: ASet>(cx: &mut Cx) -> R {
    let cfg = gen::wire_cfg(cx);
    let mut dec = MessageDecoder::<A>::new();
    let (max, avg, long) = how_many(cx);
    let cfg = shrink_cfg(cfg, long);
    cx.repeat(2, max.max(8), avg + 1, |cx, i| {
        match cx.weighted(&[30, 6, 6, 3, 3, 1]) {
            5 => streak::<A>(cx, &mut dec, cfg)?,
            0 => {
                // a message, delivered somehow
                let m = gen::wire(cx, cfg);
                cx.bytes_ev("message", &m);
                let want = fresh::<A>(&m, true);
                let how = cx.below(MODES + 1);
                let got = if how == MODES {
                    vec![drive::datagram(&mut dec, &m, true)]
                } else {
                    let p = pace(cx);
                    drive(cx, &mut dec, &m, how, p, true, true)?.items
                };
                cx.ok();
                if let Item::Out(o) = &want {
                    if !o.is_good() {
                        cx.fault("broken_message");
                    }
                }
                if let Some(d) = diff(&[want], &got) {
                    return viol("history", format!("delivery {} on a used decoder [set {}]: {}", i, A::NAME, d));
                }
            }
            1 => {
                // something that is no message
                let b = gen::not_stun(cx);
                cx.bytes_ev("foreign", &b);
                cx.fault("foreign_bytes");
                let got = if cx.chance(50) {
                    vec![drive::datagram(&mut dec, &b, false)]
                } else {
                    let p = pace(cx);
                    let how = cx.below(MODES);
                    drive(cx, &mut dec, &b, how, p, false, true)?.items
                };
                cx.ok();
                for g in &got {
                    if let Item::Out(o) = g {
                        if o.is_good() {
                            return viol("foreign-accepted", format!("bytes that are no STUN message decoded to {}", o.brief()));
                        }
                    }
                }
            }
            2 => {
                // cut short, and told so
                let m = gen::wire(cx, cfg);
                let n = match cx.weighted(&[3, 1, 1]) {
                    0 => cx.us(m.len()),
                    1 => m.len() - 1,
                    _ => 20.min(m.len() - 1),
                };
                let b = &m[..n];
                cx.bytes_ev("cut", b);
                cx.fault("truncated");
                let got = if cx.chance(50) || b.is_empty() {
                    vec![drive::datagram(&mut dec, b, false)]
                } else {
                    let p = pace(cx);
                    let how = cx.below(MODES);
                    drive(cx, &mut dec, b, how, p, false, true)?.items
                };
                cx.ok();
                for g in &got {
                    if let Item::Out(o) = g {
                        ensure!(!o.is_good(), "truncated-accepted", "a cut message decoded to {}", o.brief());
                    }
                }
            }
            3 => {
                // taken out before anything is there
                cx.fault("premature_take_out");
                let r = real(|| dec.finish_decoding());
                cx.ok();
                if let Ok(m) = r {
                    return viol("premature", format!("a decoder that was given nothing handed out {}", outcome(m, false).brief()));
                }
            }
            _ => {
                // a message with bytes after it in the same datagram
                let m = gen::wire(cx, cfg);
                let n = 1 + cx.us(30);
                let mut b = m.clone();
                b.extend(cx.blob(n));
                cx.bytes_ev("trailing", &b);
                cx.fault("trailing_bytes");
                let want = fresh::<A>(&b, true);
                let got = drive::datagram(&mut dec, &b, true);
                cx.ok();
                if let Some(d) = diff(&[want], &[got]) {
                    return viol("history", format!("datagram with trailing bytes [set {}]: {}", A::NAME, d));
                }
            }
        }
        Ok(())
    })?;
    // and finally a plain message
    let m = gen::wire(cx, gen::clean_cfg_of(cfg));
    cx.bytes_ev("last", &m);
    let want = fresh::<A>(&m, true);
    let p = pace(cx);
    let how = cx.below(MODES);
    let got = drive(cx, &mut dec, &m, how, p, true, true)?.items;
    cx.ok();
    if let Some(d) = diff(&[want], &got) {
        return viol("history", format!("last message on a used decoder [set {}]: {}", A::NAME, d));
    }
    Ok(())
}

/// The same few kinds of trouble (or the same good message) many times in a row;
/// what comes after is nobody's concern but its own.
fn streak<A: ASet>(cx: &mut Cx, dec: &mut MessageDecoder<A>, cfg: WireCfg) -> R {
    let n = match cx.weighted(&[180, 90, 30, 1]) {
        0 => 2 + cx.us(20),
        1 => 20 + cx.us(120),
        2 => 250 + cx.us(20),
        // as many as a small counter can count
        _ => 65_530 + cx.us(20),
    };
    let small = shrink_cfg(cfg, true);
    let few: Vec<Vec<u8>> = (0..1 + cx.us(2))
        .map(|_| {
            match cx.weighted(&[4, 2, 1, 1]) {
                0 => spoilt(cx, small),
                1 => gen::wire(cx, small),
                2 => {
                    let mut m = gen::wire(cx, small);
                    let n = cx.us(m.len());
                    m.truncate(n);
                    m
                }
                _ => gen::not_stun(cx),
            }
        })
        .collect();
    cx.fault("streak_of_the_same");
    let want: Vec<Item> = few.iter().map(|b| fresh::<A>(b, false)).collect();
    for b in &few {
        cx.bytes_ev("again and again", b);
    }
    for i in 0..n {
        let got = drive::datagram(dec, &few[i % few.len()], false);
        guard::heartbeat(i);
        cx.ok();
        if let Some(d) = diff(&want[i % few.len()..][..1], &[got]) {
            return viol("history", format!("the {}th of the same few datagrams [set {}]: {}", i, A::NAME, d));
        }
    }
    Ok(())
}
/// One decoder and one encoder used again and again, until any small counter has wrapped.
fn endurance<A: ASet>(cx: &mut Cx, dec: &mut MessageDecoder<A>, enc: &mut MessageEncoder<A>, cfg: WireCfg) -> R {
    let n = match cx.weighted(&[40, 10, 1]) {
        0 => 250 + cx.us(20),
        1 => 1020 + cx.us(10),
        _ => 65_530 + cx.us(20),
    };
    let small = shrink_cfg(cfg, true);
    let few: Vec<Vec<u8>> = (0..1 + cx.us(3)).map(|_| hostile(cx, small)).collect();
    let spec = gen::spec::<A>(cx, gen::SMALL);
    let how = cx.below(3);
    for b in &few {
        cx.bytes_ev("again and again", b);
    }
    cx.fault("streak_of_the_same");
    for i in 0..n {
        guard::heartbeat(i);
        if how != 1 {
            match real(|| dec.decode_from_bytes(&few[i % few.len()])) {
                Ok(Ok(m)) if i % 3 == 0 => {
                    let _ = real(|| bytecodec::EncodeExt::encode_into_bytes(enc, m));
                }
                Ok(r) => drop(r),
                Err(_) => {
                    if dec_idle(dec) {
                        let _ = real(|| dec.finish_decoding());
                    }
                }
            }
        }
        if how != 0 {
            if let Some(m) = gen::build::<A>(&spec) {
                let _ = real(|| bytecodec::EncodeExt::encode_into_bytes(enc, m));
            }
        }
    }
    cx.ok();
    Ok(())
}
/// A message with a value its receiver must refuse, or cut attributes.
pub fn spoilt(cx: &mut Cx, cfg: WireCfg) -> Vec<u8> {
    let mut c = cfg;
    if cx.chance(30) {
        // all is well but the fingerprint
        c.invalid = false;
        c.structure = false;
        c.digests = false;
        let mut b = gen::wire(cx, c);
        if b.len() < 65_000 {
            let f = refstun::fingerprint_of(&b) ^ 1 << cx.below(32);
            refstun::push_tlv(&mut b, refstun::FP, &f.to_be_bytes(), [0; 3]);
            let n = b.len() - 20;
            refstun::set_len(&mut b, n);
        }
        return b;
    }
    c.invalid = true;
    c.structure = true;
    gen::wire(cx, c)
}

// ---------------------------------------------------------------- C11

/// A message of as many attributes as there is room for, received and sent.
fn swarm<A: ASet>(cx: &mut Cx, enc: &mut MessageEncoder<A>) -> R {
    let n = *cx.pick(&[16_383usize, 16_383, 8_191, 5_461, 4_000, 2_000]);
    cx.probe("message_of_thousands_of_attributes");
    let mut cps: Vec<u16> = Vec::new();
    for _ in 0..1 + cx.us(3) {
        let all: Vec<u16> = refstun::TABLE.iter().map(|t| t.0).filter(|c| *c != refstun::MI && *c != refstun::FP).collect();
        cps.push(if cx.chance(60) { *cx.pick(&all) } else { gen::unknown_cp(cx) });
    }
    let few: Vec<AV> = cps
        .iter()
        .map(|cp| match refstun::kind_of(*cp) {
            None | Some(refstun::Kind::Bytes) => AV { cp: *cp, v: V::Bytes(vec![]) },
            Some(refstun::Kind::StrChars(_)) | Some(refstun::Kind::StrBytes(_)) => AV { cp: *cp, v: V::Str(String::new()) },
            Some(refstun::Kind::List) => AV { cp: *cp, v: V::List(vec![]) },
            Some(_) => gen::av(cx, *cp),
        })
        .collect();
    let t = gen::tid(cx);
    let class = gen::class(cx);
    let method = gen::method(cx);
    let mut b = refstun::header(class, method, 0, &t);
    let mut m = new_msg::<A>(class, method, t);
    for i in 0..n {
        let a = &few[i % few.len()];
        let v = refstun::value_bytes(a, &t);
        if b.len() - 20 + 4 + (v.len() + 3) / 4 * 4 > 65_532 {
            break;
        }
        refstun::push_tlv(&mut b, a.cp, &v, [0; 3]);
        if let Some(x) = real(|| A::of_av(a)) {
            real(|| m.add_attribute(x));
        }
    }
    let l = b.len() - 20;
    refstun::set_len(&mut b, l);
    cx.ev("swarm", b.len() as u64, n as u64);
    let r = real(|| MessageDecoder::<A>::new().decode_from_bytes(&b));
    ensure!(r.is_ok(), "swarm", "a message with a sound header is rejected");
    if let Ok(d) = r {
        touch(cx, d, enc)?;
    }
    let mut e = MessageEncoder::<A>::new();
    if let Ok(out) = real(|| e.encode_into_bytes(m)) {
        cx.ev("swarm_sent", out.len() as u64, 0);
    }
    Ok(())
}
/// Calls everything there is to call on a decoding result.
fn touch<A: ASet>(cx: &mut Cx, d: DecodedMessage<A>, enc: &mut MessageEncoder<A>) -> R {
    match d {
        Ok(m) => touch_msg(cx, m, enc),
        Err(b) => {
            real(|| {
                let _ = (b.class(), b.method(), b.transaction_id());
                let _ = format!("{:?} {}", b, b.error());
                let _ = b.clone();
                let _: bytecodec::Error = b.into();
            });
            cx.ev("broken", 0, 0);
            Ok(())
        }
    }
}
fn touch_msg<A: ASet>(cx: &mut Cx, m: Message<A>, enc: &mut MessageEncoder<A>) -> R {
    let heavy = cx.chance(50);
    real(|| {
        let o = observe(&m);
        let _ = A::firsts(&m);
        let _ = format!("{} {} {:?} {:?}", m.class(), m.method().as_u16(), m.transaction_id(), m.method());
        for a in m.unknown_attributes() {
            let _ = (stun_codec::Attribute::get_type(a).is_comprehension_required(), stun_codec::Attribute::get_type(a).is_comprehension_optional());
        }
        if heavy {
            let _ = format!("{:?}", m);
        }
        drop(o);
    });
    let pw = if cx.chance(10) { "\u{1F600}".repeat(300) } else { "secret".to_string() };
    let mis: Vec<_> = m.attributes().filter_map(|a| a.as_mi().cloned()).take(3).collect();
    for mi in mis {
        real(|| {
            let _ = mi.check_short_term_credential(&pw);
            if let (Ok(u), Ok(r)) = (Username::new("u".into()), Realm::new(String::new())) {
                let _ = mi.check_long_term_credential(&u, &r, &pw);
            }
            let _ = format!("{:?}", mi);
        });
    }
    cx.ev("message", 1, 0);
    let mut m2 = real(|| m.clone());
    if heavy {
        // and on: append to it, sign it, send it
        use stun_codec::rfc5389::attributes::{Fingerprint, MessageIntegrity};
        if let Ok(x) = real(|| MessageIntegrity::new_short_term_credential(&m2, &pw)) {
            if let Some(a) = A::of_mi(x) {
                real(|| m2.add_attribute(a));
            }
        }
        if let Ok(x) = real(|| Fingerprint::new(&m2)) {
            if let Some(a) = A::of_fp(x) {
                real(|| m2.add_attribute(a));
            }
        }
    }
    let _ = real(|| enc.start_encoding(m2));
    Ok(())
}
pub fn any_eos(cx: &mut Cx) -> Eos {
    match cx.below(5) {
        0 => Eos::new(false),
        1 => Eos::new(true),
        2 => Eos::with_remaining_bytes(ByteCount::Infinite),
        3 => Eos::with_remaining_bytes(ByteCount::Unknown),
        _ => Eos::with_remaining_bytes(ByteCount::Finite(cx.below(70000))),
    }
}
fn c11(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c11_run::<A>(cx))
}
fn hostile(cx: &mut Cx, cfg: WireCfg) -> Vec<u8> {
    match cx.weighted(&[6, 2, 2, 1]) {
        0 => gen::wire(cx, cfg),
        1 => {
            // bit rot
            let mut m = gen::wire(cx, cfg);
            let n = 1 + cx.us(4);
            for _ in 0..n {
                let i = cx.us(m.len());
                m[i] ^= 1 << cx.below(8);
            }
            cx.fault("corrupt");
            m
        }
        2 => {
            // a good header in front of noise
            let n = match cx.weighted(&[5, 1]) {
                0 => cx.us(120),
                _ => cx.us(65536),
            };
            let t = gen::tid(cx);
            let c = gen::class(cx);
            let mut b = refstun::header(c, gen::method(cx), n as u16, &t);
            let mut noise = cx.blob(n);
            // steer the noise towards attributes that exist
            let mut o = 0;
            while o + 4 <= noise.len() && o < 400 {
                let cp = if cx.chance(80) { refstun::TABLE[cx.us(refstun::TABLE.len())].0 } else { gen::unknown_cp(cx) };
                let l = *cx.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 19, 20, 21, 24]);
                noise[o..o + 2].copy_from_slice(&cp.to_be_bytes());
                noise[o + 2..o + 4].copy_from_slice(&(l as u16).to_be_bytes());
                o += 4 + (l + 3) / 4 * 4;
            }
            b.extend(noise);
            cx.fault("noise_attributes");
            b
        }
        _ => {
            cx.fault("foreign_bytes");
            gen::not_stun(cx)
        }
    }
}
fn c11_run<A: ASet>(cx: &mut Cx) -> R {
    let mut cfg = gen::wire_cfg(cx);
    cfg.big = cx.chance(8);
    let mut dec = MessageDecoder::<A>::new();
    let mut enc = MessageEncoder::<A>::new();
    let mut data: Vec<u8> = Vec::new();
    let mut pos = 0usize;
    cx.ok();
    if cx.below(200) == 199 {
        endurance(cx, &mut dec, &mut enc, cfg)?;
    }
    if cx.below(250) == 249 {
        swarm::<A>(cx, &mut enc)?;
    }
    cx.repeat(3, 60, 14, |cx, _| {
        if pos >= data.len() {
            data = hostile(cx, cfg);
            cx.bytes_ev("data", &data);
            pos = 0;
        }
        match cx.weighted(&[8, 3, 3, 2, 2, 4, 2, 2, 1, 1, 2]) {
            9 => crate::w_parts::construct(cx),
            10 => crate::w_parts::abuse::<A>(cx)?,
            0 => {
                let n = match cx.below(3) {
                    0 => data.len() - pos,
                    1 => cx.us(9).min(data.len() - pos),
                    _ => cx.us(data.len() - pos + 1),
                };
                let e = any_eos(cx);
                let r = real(|| dec.decode(&data[pos..pos + n], e));
                match r {
                    Ok(k) => {
                        cx.ev("decode", n as u64, k as u64);
                        ensure!(k <= n, "overread", "decode consumed {} of {} bytes", k, n);
                        if k == 0 && n > 0 {
                            ensure!(dec_idle(&dec), "stall", "an unfinished decoder consumed nothing of {} bytes", n);
                        }
                        pos += k;
                    }
                    Err(err) => {
                        cx.ev("decode_err", n as u64, 0);
                        real(|| {
                            let _ = format!("{} {:?}", err, err);
                        });
                        pos = data.len();
                    }
                }
            }
            1 => {
                let was = dec_idle(&dec);
                if !was {
                    cx.fault("premature_take_out");
                }
                match real(|| dec.finish_decoding()) {
                    Ok(m) => touch(cx, m, &mut enc)?,
                    Err(_) => cx.ev("finish_err", 0, 0),
                }
            }
            2 => {
                let r = real(|| (dec.requiring_bytes(), dec.is_idle()));
                cx.ev("ask", r.0.to_u64().unwrap_or(u64::MAX), r.1 as u64);
            }
            3 => {
                cx.fault("mid_stream_datagram");
                let d = hostile(cx, cfg);
                match real(|| dec.decode_from_bytes(&d)) {
                    Ok(m) => touch(cx, m, &mut enc)?,
                    Err(_) => cx.ev("datagram_err", 0, 0),
                }
                pos = data.len();
            }
            4 => {
                let p = pace(cx);
                let rest: Vec<u8> = data[pos..].to_vec();
                let mut tries = 0;
                let mut pipe = Pipe::new(cx, &rest, p);
                loop {
                    let r = real(|| dec.decode_exact(&mut pipe));
                    tries += 1;
                    match r {
                        Ok(m) => {
                            pos += pipe.pos;
                            let cx = pipe.cx;
                            touch(cx, m, &mut enc)?;
                            break;
                        }
                        Err(_) if pipe.io_err && tries < 100 => continue,
                        Err(_) => {
                            pos = data.len();
                            break;
                        }
                    }
                }
            }
            5 => {
                let room = match cx.below(4) {
                    0 => 0,
                    1 => cx.us(9),
                    2 => cx.us(200),
                    _ => 70000,
                };
                let e = any_eos(cx);
                let mut buf = vec![0u8; room];
                let was = enc_idle(&enc);
                match real(|| enc.encode(&mut buf, e)) {
                    Ok(k) => {
                        cx.ev("encode", room as u64, k as u64);
                        ensure!(k <= room, "overwrite", "encode wrote {} into {} bytes", k, room);
                        ensure!(was || room == 0 || k > 0, "stall", "a busy encoder wrote nothing into {} bytes", room);
                    }
                    Err(_) => cx.ev("encode_err", room as u64, 0),
                }
            }
            6 => {
                let r = real(|| (enc.requiring_bytes(), enc.is_idle()));
                cx.ev("ask_enc", r.0.to_u64().unwrap_or(u64::MAX), r.1 as u64);
            }
            7 => {
                // build, perhaps start while busy
                let s = gen::spec::<A>(cx, gen::GenCfg { big: cfg.big, ..gen::SMALL });
                if let Some(m) = gen::build::<A>(&s) {
                    cx.ev("start", enc_idle(&enc) as u64, 0);
                    if cx.chance(50) {
                        let _ = real(|| enc.start_encoding(m));
                    } else {
                        let mut sink: Vec<u8> = Vec::new();
                        let mut e2 = MessageEncoder::<A>::new();
                        let _ = real(|| e2.start_encoding(m));
                        let _ = real(|| e2.encode_all(&mut sink));
                    }
                }
            }
            _ => {
                real(|| {
                    let _ = format!("{:?} {:?}", dec, enc);
                });
                if cx.chance(30) {
                    cx.fault("crash_restart");
                    dec = MessageDecoder::new();
                    enc = MessageEncoder::new();
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C12

fn c12(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c12_run::<A>(cx))
}
/// Compares one decoding result with the reference codec's verdict on the same bytes.
pub fn judge<A: ASet>(cx: &mut Cx, bytes: &[u8], got: &Item) -> R {
    cx.ok();
    match refstun::decode(bytes, &|c| A::knows(c)) {
        ROut::Reject(why) => match got {
            Item::Out(o) => viol("accepts-foreign", format!("no STUN message ({}), decoder says {}", why, o.brief())),
            _ => Ok(()),
        },
        ROut::Incomplete => match got {
            Item::Out(o) if o.is_good() => viol("truncated-accepted", format!("incomplete, decoder says {}", o.brief())),
            _ => Ok(()),
        },
        ROut::Msg(m) => {
            if m.total != bytes.len() {
                return match got {
                    Item::Out(o) => viol("accepts-trailing", format!("datagram longer than its message, decoder says {}", o.brief())),
                    _ => Ok(()),
                };
            }
            let o = match got {
                Item::Out(o) => o,
                g => {
                    return viol(
                        "rejects",
                        format!("a message with an acceptable header (class {} method 0x{:x}) was {}", m.class, m.method, g.brief()),
                    )
                }
            };
            match (&m.body, o) {
                (Body::Valid(a), Outcome::Good(obs, _, _)) | (Body::Either(a), Outcome::Good(obs, _, _)) => {
                    cx.probe("valid");
                    let want = predicted::<A>(&m, a);
                    ensure!(*obs == want, "content", "bytes mean {:?}\n decoder says {:?}", want, obs);
                    Ok(())
                }
                (Body::Valid(_), Outcome::Broken(..)) => viol("valid-called-broken", format!("a valid message was reported as broken [set {}]: {}", A::NAME, crate::cx::hexs(bytes))),
                (Body::Invalid(why), Outcome::Good(..)) => viol("invalid-accepted", format!("attribute part is invalid ({}) [set {}], decoder says {}", why, A::NAME, o.brief())),
                (Body::Invalid(_), Outcome::Broken(c, me, t)) | (Body::Either(_), Outcome::Broken(c, me, t)) => {
                    cx.probe("broken");
                    ensure!(
                        *c == m.class && *me == m.method && *t == m.tid,
                        "broken-header",
                        "header says class {} method 0x{:x} tid {}, broken message says {}",
                        m.class,
                        m.method,
                        crate::cx::hexs(&m.tid),
                        o.brief()
                    );
                    Ok(())
                }
            }
        }
    }
}
fn c12_run<A: ASet>(cx: &mut Cx) -> R {
    let mut cfg = gen::wire_cfg(cx);
    cfg.invalid = cx.chance(80);
    cfg.structure = cx.chance(70);
    let (max, avg, long) = how_many(cx);
    let cfg = shrink_cfg(cfg, long);
    let mut stream: Vec<u8> = Vec::new();
    let mut msgs: Vec<Vec<u8>> = Vec::new();
    cx.repeat(1, max, avg, |cx, _| {
        let mut m = gen::wire(cx, cfg);
        if cfg.structure && cx.chance(10) {
            // rot in transit, framing kept
            let i = 20 + cx.us((m.len() - 20).max(1));
            if i < m.len() {
                m[i] ^= 1 << cx.below(8);
                cx.fault("corrupt");
            }
        }
        cx.bytes_ev("message", &m);
        stream.extend_from_slice(&m);
        msgs.push(m);
        Ok(())
    })?;
    let mut dec = MessageDecoder::<A>::new();
    if cx.chance(25) {
        // one datagram each
        let strangers = *cx.pick(&[0u64, 40, 80]);
        for m in &msgs {
            while cx.chance(strangers) {
                let b = if cx.chance(70) {
                    cx.fault("foreign_bytes");
                    gen::not_stun(cx)
                } else {
                    cx.fault("truncated_datagram");
                    m[..cx.us(m.len())].to_vec()
                };
                cx.bytes_ev("stranger", &b);
                let g = drive::datagram(&mut dec, &b, false);
                judge::<A>(cx, &b, &g)?;
            }
            let g = drive::datagram(&mut dec, m, false);
            judge::<A>(cx, m, &g)?;
        }
        return Ok(());
    }
    let mut tail = Vec::new();
    if cx.chance(25) {
        cx.fault("foreign_bytes");
        tail = gen::not_stun(cx);
        cx.bytes_ev("tail", &tail);
        stream.extend_from_slice(&tail);
    }
    let mode = cx.below(drive::MODES_WITH_ENDS);
    let p = pace(cx);
    cx.ev("mode", mode, p.style);
    cx.note(|| format!("drive by {}, attribute set {}", drive::mode_name(mode), A::NAME));
    let mut got = drive(cx, &mut dec, &stream, mode, p, false, true)?;
    if !tail.is_empty() {
        ensure!(got.items.len() == msgs.len() + 1, "lost", "{} messages and foreign bytes in, {} results out", msgs.len(), got.items.len());
        if let Some(g) = got.items.pop() {
            judge::<A>(cx, &tail, &g)?;
        }
    }
    let mut at = 0;
    for (i, m) in msgs.iter().enumerate() {
        at += m.len();
        match got.items.get(i) {
            Some(g) => judge::<A>(cx, m, g)?,
            None => return viol("lost", format!("message {} never came out", i)),
        }
        ensure!(got.ends.get(i) == Some(&at), "resync", "message {} ends at byte {}, decoder handed it out at {:?}", i, at, got.ends.get(i));
    }
    ensure!(got.items.len() == msgs.len(), "extra", "{} messages in, {} out", msgs.len(), got.items.len());
    Ok(())
}

// ---------------------------------------------------------------- C16

#[derive(Default)]
pub struct Meter {
    /// bytes the code under test holds now, relative to the start
    pub held: i64,
    /// highest held value since the last `reset`
    top: i64,
}
impl Meter {
    pub fn run<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let base = guard::reset_peak() as i64;
        let r = f();
        let (l, p) = (guard::live() as i64, guard::peak() as i64);
        self.top = self.top.max(self.held + (p - base));
        self.held += l - base;
        r
    }
    fn reset(&mut self) {
        self.top = self.held;
    }
}
/// Memory for a message of n bytes: per byte received, plus a constant.
/// (a decoder may set aside what an attribute announces, up to 64 KiB, at once)
pub const PER_BYTE: i64 = 160;
pub const FLAT: i64 = 192 * 1024;
/// Kept between messages, besides buffers of the size of the largest message so far.
pub const KEPT: i64 = 8 * 1024;

fn c16(cx: &mut Cx) -> R {
    if cx.below(256) == 255 {
        return with_set!(set(cx), A => steady::<A>(cx));
    }
    if cx.chance(15) {
        return crate::w_hooks::c16_own(cx);
    }
    with_set!(set(cx), A => c16_run::<A>(cx))
}
/// One kind of thing that happens again and again, never quite the same.
enum Habit {
    /// built, perhaps signed, sent, received, checked
    Sound(gen::Spec),
    /// received only: any bytes, the identifier differs every time
    Raw(Vec<u8>),
    /// announced end in the middle of it
    Cut(Vec<u8>),
    /// too large to be sent
    Large,
    /// a message that needs something the set does not offer, offered while another is under way
    Busy(gen::Spec),
}
/// Thousands of messages, each a little different; what is kept must not follow their number.
fn steady<A: ASet>(cx: &mut Cx) -> R {
    const WARM: u32 = 1300;
    let small = gen::GenCfg { max_attrs: 3, digests: true, big: false };
    let mut habits: Vec<Habit> = Vec::new();
    for _ in 0..1 + cx.us(3) {
        habits.push(match cx.weighted(&[4, 2, 2, 1, 1, 1]) {
            0 => Habit::Sound(gen::spec::<A>(cx, small)),
            1 => {
                let mut c = gen::wire_cfg(cx);
                c.max_attrs = 3;
                c.big = false;
                Habit::Raw(gen::wire(cx, c))
            }
            2 => {
                let mut c = gen::wire_cfg(cx);
                c.max_attrs = 3;
                c.big = false;
                Habit::Raw(spoilt(cx, c))
            }
            3 => {
                let mut c = gen::wire_cfg(cx);
                c.max_attrs = 3;
                c.big = false;
                let mut b = gen::wire(cx, c);
                let n = cx.us(b.len());
                b.truncate(n);
                Habit::Cut(b)
            }
            4 => Habit::Large,
            _ => Habit::Busy(gen::spec::<A>(cx, small)),
        });
    }
    let stream = cx.chance(50);
    let mut mt = Meter::default();
    let mut dec = mt.run(|| MessageDecoder::<A>::new());
    let mut enc = mt.run(|| MessageEncoder::<A>::new());
    let (mut early, mut late) = (0i64, i64::MAX);
    for i in 0..3 * WARM {
        // four digits of a fixed width, so that sizes do not depend on the number
        let no = format!("{:06}", i);
        guard::heartbeat(i as usize);
        let tag: [u8; 4] = i.to_be_bytes();
        let vary = |b: &mut [u8]| {
            if b.len() >= 20 {
                b[16..20].copy_from_slice(&tag);
            }
        };
        let named = |s: &gen::Spec| {
            let mut s = s.clone();
            s.tid[8..].copy_from_slice(&tag);
            for it in &mut s.items {
                match it {
                    gen::Item::MiShort(p) => *p = no.clone(),
                    gen::Item::MiLong(u, r, p) => {
                        *u = no.clone();
                        *r = no.clone();
                        *p = no.clone();
                    }
                    gen::Item::Av(AV { v: V::Str(t), .. }) => *t = no.clone(),
                    gen::Item::Av(AV { v: V::Addr(a), .. }) => a.set_port(i as u16 ^ a.port()),
                    gen::Item::Av(AV { v: V::U64(n), .. }) => *n ^= (i as u64) << 20,
                    gen::Item::Av(AV { v: V::U32(n), .. }) => *n ^= i,
                    gen::Item::Av(AV { v: V::Bytes(t), .. }) if t.len() >= 4 => t[..4].copy_from_slice(&tag),
                    _ => {}
                }
            }
            s
        };
        let mut receive = |mt: &mut Meter, b: &[u8], cut: bool| -> R {
            mt.run(|| {
                let got = if stream && !cut {
                    let mut at = 0;
                    let mut out = None;
                    while at < b.len() {
                        let n = real(|| dec.requiring_bytes()).to_u64().unwrap_or(1).max(1) as usize;
                        match real(|| dec.decode(&b[at..(at + n).min(b.len())], Eos::new(false))) {
                            Ok(k) => at += k,
                            Err(_) => break,
                        }
                        if dec_idle(&dec) {
                            out = real(|| dec.finish_decoding()).ok();
                            break;
                        }
                    }
                    out
                } else {
                    match real(|| dec.decode_from_bytes(b)) {
                        Ok(d) => Some(d),
                        Err(_) => {
                            if dec_idle(&dec) {
                                let _ = real(|| dec.finish_decoding());
                            }
                            None
                        }
                    }
                };
                match got {
                    Some(Ok(m)) => {
                        for a in m.attributes() {
                            if let Some(mi) = a.as_mi() {
                                let _ = real(|| mi.check_short_term_credential(&no).is_ok());
                                let (u, r) = (Username::new(no.clone()), Realm::new(no.clone()));
                                if let (Ok(u), Ok(r)) = (u, r) {
                                    let _ = real(|| mi.check_long_term_credential(&u, &r, &no).is_ok());
                                }
                            }
                        }
                        let _ = real(|| bytecodec::EncodeExt::encode_into_bytes(&mut enc, m));
                    }
                    Some(Err(b)) => drop(bytecodec::Error::from(b)),
                    None => {}
                }
            });
            Ok(())
        };
        match &habits[i as usize % habits.len()] {
            Habit::Sound(s) => {
                let b = mt.run(|| {
                    let m = gen::build::<A>(&named(s))?;
                    real(|| bytecodec::EncodeExt::encode_into_bytes(&mut MessageEncoder::<A>::new(), m)).ok()
                });
                if let Some(b) = &b {
                    receive(&mut mt, b, false)?;
                }
                mt.run(move || drop(b));
            }
            Habit::Raw(b) => {
                let mut b = b.clone();
                vary(&mut b);
                receive(&mut mt, &b, false)?;
            }
            Habit::Cut(b) => {
                let mut b = b.clone();
                vary(&mut b);
                receive(&mut mt, &b, true)?;
            }
            Habit::Large => {
                let cp = [refstun::DATA, refstun::TICKET].into_iter().find(|c| A::knows(*c));
                mt.run(|| {
                    let items = cp.iter().map(|c| gen::Item::Av(AV { cp: *c, v: V::Bytes(vec![tag[3]; 65536 + i as usize % 7]) })).collect();
                    let s = gen::Spec { class: 0, method: 1, tid: [tag[3]; 12], items };
                    if let Some(m) = gen::build::<A>(&s) {
                        let _ = real(|| enc.start_encoding(m).is_ok());
                        let mut out = [0u8; 4096];
                        while !enc_idle(&enc) && real(|| enc.encode(&mut out, Eos::new(false))).is_ok() {}
                    }
                });
            }
            Habit::Busy(s) => mt.run(|| {
                let s = named(s);
                if let (Some(a), Some(b)) = (gen::build::<A>(&s), gen::build::<A>(&s)) {
                    let _ = real(|| enc.start_encoding(a).is_ok());
                    let _ = real(|| enc.start_encoding(b).is_ok());
                    let mut out = [0u8; 4096];
                    while !enc_idle(&enc) && real(|| enc.encode(&mut out, Eos::new(false))).is_ok() {}
                }
            }),
        }
        if i < WARM {
            early = early.max(mt.held);
        } else if i + 8 >= 3 * WARM {
            late = late.min(mt.held);
        }
    }
    cx.fault("thousands_of_messages");
    cx.ok();
    cx.ev("held after many", early as u64 / 4096, late as u64 / 4096);
    ensure!(
        late <= early + 512,
        "grows",
        "{} messages in, at most {} bytes were held between messages; {} messages in, {} bytes are [set {}]",
        WARM,
        early,
        3 * WARM,
        late,
        A::NAME
    );
    mt.run(move || {
        drop(dec);
        drop(enc);
    });
    ensure!(mt.held <= 256, "leak", "decoder and encoder are gone, {} bytes are still held [set {}]", mt.held, A::NAME);
    Ok(())
}
fn c16_run<A: ASet>(cx: &mut Cx) -> R {
    let mut cfg = gen::wire_cfg(cx);
    cfg.big = cx.chance(20);
    let (max, avg, long) = how_many(cx);
    let cfg = shrink_cfg(cfg, long);
    let mut mt = Meter::default();
    let mut dec = mt.run(|| MessageDecoder::<A>::new());
    let mut enc = mt.run(|| MessageEncoder::<A>::new());
    let mut largest = 0i64;
    cx.repeat(2, max.max(6), avg + 1, |cx, i| {
        let mut dead = false;
        let b: Vec<u8> = match cx.weighted(&[8, 3, 1, 1, 2]) {
            0 => gen::wire(cx, cfg),
            1 => {
                // promises much, delivers little
                cx.fault("announces_more_than_sent");
                let t = gen::tid(cx);
                let c = gen::class(cx);
                let mut b = refstun::header(c, gen::method(cx), 0xfffc, &t);
                let cp = if cx.chance(70) { gen::plain_cp(cx) } else { gen::unknown_cp(cx) };
                b.extend_from_slice(&cp.to_be_bytes());
                b.extend_from_slice(&(*cx.pick(&[0xffffu16, 0xfff8, 0x8000, 0x4000])).to_be_bytes());
                let n = cx.us(64);
                b.extend(cx.blob(n));
                dead = true;
                b
            }
            2 => {
                dead = true;
                cx.fault("foreign_bytes");
                gen::not_stun(cx)
            }
            3 => {
                // very many tiny attributes
                let t = gen::tid(cx);
                let c = gen::class(cx);
                let mut b = refstun::header(c, gen::method(cx), 0, &t);
                let n = if cx.chance(4) { cx.us(16380) } else { cx.us(2000) };
                let cp = if cx.chance(50) { *cx.pick(&[0x001A, 0x0025, 0x8022, 0x000A, 0x0013, 0x0018]) } else { gen::unknown_cp(cx) };
                for _ in 0..n {
                    let l = if refstun::kind_of(cp) == Some(refstun::Kind::EvenPort) { 1 } else { 0 };
                    refstun::push_tlv(&mut b, cp, &vec![0; l], [0; 3]);
                }
                let n = b.len() - 20;
                refstun::set_len(&mut b, n);
                b
            }
            _ => {
                // endless fingerprints
                let t = gen::tid(cx);
                let mut b = refstun::header(0, gen::method(cx), 0, &t);
                let n = cx.us(12);
                for _ in 0..n {
                    let f = refstun::fingerprint_of(&b);
                    refstun::push_tlv(&mut b, refstun::FP, &f.to_be_bytes(), [0; 3]);
                }
                let n = b.len() - 20;
                refstun::set_len(&mut b, n);
                b
            }
        };
        cx.bytes_ev("bytes", &b);
        let announced = if b.len() < 4 { 0 } else { 20 + u16::from_be_bytes([b[2], b[3]]) as i64 };
        largest = largest.max(announced).max(b.len() as i64);
        mt.reset();
        let start = mt.held;
        let p = pace(cx);
        let mut pos = 0;
        let mut item: Option<DecodedMessage<A>> = None;
        let mut failed = false;
        while pos < b.len() {
            let n = drive::chunk(cx, &p, b.len() - pos);
            let e = Eos::new(dead && pos + n == b.len() && cx.chance(50));
            let r = mt.run(|| real(|| dec.decode(&b[pos..pos + n], e)).map_err(drop));
            match r {
                Ok(k) => {
                    pos += k;
                    cx.ev("decode", n as u64, k as u64);
                    if dec_idle(&dec) {
                        item = mt.run(|| real(|| dec.finish_decoding())).ok();
                        break;
                    }
                    ensure!(k == n, "stall", "an unfinished decoder left {} of {} bytes", n - k, n);
                }
                Err(_) => {
                    failed = true;
                    break;
                }
            }
        }
        let got = pos as i64;
        cx.ok();
        let used = mt.top - start;
        ensure!(
            used <= FLAT + PER_BYTE * got.max(20),
            "peak",
            "decoding {} received bytes took {} bytes of memory at its peak (bound {}) [set {}]",
            got,
            used,
            FLAT + PER_BYTE * got.max(20),
            A::NAME
        );
        if used > FLAT / 4 {
            cx.probe("peak_above_48k");
        }
        if let Some(Ok(m)) = item {
            // send it on
            let len = b.len() as i64;
            mt.reset();
            let st = mt.held;
            let ok = mt.run(|| real(|| enc.start_encoding(m)).is_ok());
            if ok {
                let mut out = vec![0u8; 70_000];
                let mut guard_steps = 0;
                while !enc_idle(&enc) {
                    let room = drive::chunk(cx, &p, 4096).max(1);
                    let r = mt.run(|| real(|| enc.encode(&mut out[..room], Eos::new(false))).map_err(drop));
                    guard_steps += 1;
                    if r.is_err() || guard_steps > 100_000 {
                        return viol("stall", "encoder makes no progress");
                    }
                }
            }
            let used = mt.top - st;
            ensure!(used <= FLAT + PER_BYTE * len, "peak", "encoding {} bytes took {} bytes of memory at its peak [set {}]", len, used, A::NAME);
        } else {
            mt.run(move || drop(item));
        }
        if cx.chance(12) {
            // something that is refused, or given up half-way
            let big = [refstun::DATA, refstun::TICKET].into_iter().find(|c| A::knows(*c)).filter(|_| cx.chance(30));
            let s = match big {
                Some(cp) => {
                    largest = largest.max(66_000);
                    let n = 65530 + cx.us(12);
                    gen::Spec { class: 0, method: 1, tid: [3; 12], items: vec![gen::Item::Av(AV { cp, v: V::Bytes(vec![1; n]) })] }
                }
                None => gen::spec::<A>(cx, gen::GenCfg { max_attrs: 4, digests: false, big: false }),
            };
            let room = cx.us(80);
            let twice = cx.chance(50);
            cx.fault("sending_refused_or_given_up");
            mt.run(|| {
                let m = gen::build::<A>(&s);
                let two = if twice { m.clone() } else { None };
                for m in m.into_iter().chain(two) {
                    let _ = real(|| enc.start_encoding(m)).is_ok();
                }
                let mut out = [0u8; 80];
                let _ = real(|| enc.encode(&mut out[..room], Eos::new(false))).is_ok();
                enc = MessageEncoder::new();
            });
        }
        if dead && !failed {
            // this peer is gone: a new decoder for the next one
            cx.fault("peer_gone");
            mt.run(|| dec = MessageDecoder::new());
        }
        ensure!(
            mt.held <= KEPT + 4 * largest,
            "kept",
            "after {} messages, all dropped, {} bytes are still held [set {}]",
            i + 1,
            mt.held,
            A::NAME
        );
        cx.ev("held", mt.held.max(0) as u64 / 4096, 0);
        Ok(())
    })?;
    mt.run(move || {
        drop(dec);
        drop(enc);
    });
    ensure!(mt.held <= 256, "leak", "decoder and encoder are gone, {} bytes are still held [set {}]", mt.held, A::NAME);
    Ok(())
}

/// A message made of MESSAGE-INTEGRITY attributes only: each keeps its own copy
/// of everything before it.
fn c16_fixed() -> R<Vec<String>> {
    let mut out = Vec::new();
    let n = 400;
    let mut b = refstun::header(0, 1, 0, &[7; 12]);
    for _ in 0..n {
        refstun::push_tlv(&mut b, refstun::MI, &[0; 20], [0; 3]);
    }
    let l = b.len() - 20;
    refstun::set_len(&mut b, l);
    let mut mt = Meter::default();
    let mut dec = MessageDecoder::<Full>::new();
    mt.run(|| drop(real(|| dec.decode_from_bytes(&b))));
    let bound = FLAT + PER_BYTE * b.len() as i64;
    let known = crate::runner::known_finding("C16", "many-message-integrity");
    if mt.top > bound {
        if known {
            out.push(format!(
                "KNOWN-FINDING: property=C16 a message of {} MESSAGE-INTEGRITY attributes ({} bytes) takes {} bytes of memory to decode (bound {})",
                n,
                b.len(),
                mt.top,
                bound
            ));
        } else {
            return viol("fixed-many-message-integrity", format!("{} MESSAGE-INTEGRITY attributes take {} bytes of memory (bound {})", n, mt.top, bound));
        }
    }
    Ok(out)
}
