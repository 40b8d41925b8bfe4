//! Worlds around one sender: refused and accepted messages, and how the bytes leave.

use crate::cx::{viol, Cx, R};
use crate::drive::{drain, pace};
use crate::gen::{self, GenCfg, Item as GI, Spec};
use crate::guard::real;
use crate::refstun::{self, AV, V};
use crate::runner::Prop;
use crate::sets::*;
use bytecodec::{ByteCount, Encode, Eos, SizedEncode};
use stun_codec::{Message, MessageEncoder};

const REAL: &[&str] = &["stun_codec: Message, MessageEncoder, all attribute types and encoders, digest constructors", "bytecodec combinators and I/O helpers"];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C03",
            run: c03,
            quick: 2_400_000,
            fixed: None,
            rule: "Each run draws messages and sends them one after another through one encoder, each under its own schedule of output space (sizes, WouldBlock, EINTR, premature end of stream, attempts to start the next message early); bytes, announced sizes and idle states are compared with the one-shot encoding.",
            real: REAL,
            stub: &["byte sink (Write) and its free space"],
            assumptions: &["after an encode error the caller abandons the encoder"],
        },
        Prop {
            id: "C05",
            run: c05,
            quick: 180_000,
            fixed: None,
            rule: "Each run draws a history of messages around the size limits (attribute value and message length 65535) for one long-lived encoder; acceptance is compared with representability computed by the reference codec, accepted output with the reference encoding, and behaviour after a refusal with that of a new encoder.",
            real: REAL,
            stub: &["byte sink", "reference codec as oracle"],
            assumptions: &[],
        },
    ]
}
fn set(cx: &mut Cx) -> usize {
    cx.weighted(&SET_W)
}

fn c03(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c03_run::<A>(cx))
}
fn c03_run<A: ASet>(cx: &mut Cx) -> R {
    if cx.below(100) >= 92 {
        return crate::w_parts::write_values::<A>(cx);
    }
    let mut enc = MessageEncoder::<A>::new();
    let (max, avg) = match cx.weighted(&[60, 1]) {
        0 => (5, 2),
        _ => (300, 280),
    };
    let big = max == 5 && cx.chance(4);
    let cfg = GenCfg { max_attrs: *cx.pick(&[5, 2, 12]), digests: true, big };
    cx.repeat(1, max, avg, |cx, k| {
        if cx.below(200) == 199 {
            return streak::<A>(cx, &mut enc, false);
        }
        let s = if cx.chance(15) {
            // something that came from elsewhere, with odd padding and unknown attributes
            None
        } else {
            Some(gen::spec::<A>(cx, cfg))
        };
        let m = match &s {
            Some(s) => match gen::made::<A>(s)? {
                Some(m) => m,
                None => return Ok(()),
            },
            None => {
                let c = gen::clean_cfg(cx);
                let b = gen::wire(cx, gen::WireCfg { big: false, ..c });
                let mut d = stun_codec::MessageDecoder::<A>::new();
                match real(|| bytecodec::DecodeExt::decode_from_bytes(&mut d, &b)) {
                    Ok(Ok(m)) => m,
                    _ => return Ok(()),
                }
            }
        };
        let want = match encode_one(m.clone()) {
            Ok(b) => b,
            Err(e) => {
                // refused from the start, or not at all
                let mut fresh = MessageEncoder::<A>::new();
                let r = real(|| fresh.start_encoding(m));
                ensure!(r.is_err(), "one-shot-failed", "an encoder takes the message, yet encoding it at once fails: {:?} [set {}]", e, A::NAME);
                return Ok(());
            }
        };
        if want.len() > 65400 { cx.probe("near_limit"); }
        if want.len() > 65535 { cx.probe("beyond_64k_with_header"); }
        cx.bytes_ev("message", &want);
        ensure!(!s_idle_busy(&enc), "idle-state", "encoder {} is not idle before message {}", A::NAME, k);
        if let Err(e) = real(|| enc.start_encoding(m.clone())) {
            return viol("start-refused", format!("a new encoder takes this message, a used idle one refuses it: {:?}", e.kind()));
        }
        let x = real(|| enc.exact_requiring_bytes());
        ensure!(x == want.len() as u64, "announced-size", "message has {} bytes, encoder announces {}", want.len(), x);
        cx.ok();
        let mode = cx.below(crate::drive::DRAINS);
        let p = pace(cx);
        if cx.chance(12) {
            return early_end(cx, enc_taken(&mut enc), &want);
        }
        let poking = cx.chance(40);
        let other = if poking { gen::build::<A>(&gen::spec::<A>(cx, gen::SMALL)) } else { None };
        cx.ev("mode", mode, p.style);
        let out = drain(cx, &mut enc, mode, p, |cx, enc| {
            if let Some(o) = &other {
                if !enc_idle(enc) && cx.chance(20) {
                    cx.fault("start_while_busy");
                    let o = if cx.chance(30) { m.clone() } else { o.clone() };
                    match real(|| enc.start_encoding(o)) {
                        Err(_) => {}
                        Ok(()) => return viol("busy-accepted", "an encoder with a message in flight accepted another"),
                    }
                }
            }
            Ok(())
        })?;
        cx.ok();
        if out != want {
            let at = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(out.len().min(want.len()));
            return viol(
                "schedule-dependent",
                format!("one-shot encoding has {} bytes, this schedule gave {}, first difference at {} [set {}]", want.len(), out.len(), at, A::NAME),
            );
        }
        ensure!(enc_idle(&enc), "idle-state", "encoder is not idle after its last byte");
        let (x, q) = (real(|| enc.exact_requiring_bytes()), real(|| enc.requiring_bytes()));
        ensure!(x == 0 && q == ByteCount::Finite(0), "announced-size", "encoder is done, yet announces {} / {:?} bytes", x, q);
        // an idle encoder produces nothing
        let mut buf = [0u8; 8];
        match real(|| enc.encode(&mut buf, Eos::new(false))) {
            Ok(0) => Ok(()),
            r => viol("idle-output", format!("an idle encoder produced {:?}", r.ok())),
        }
    })
}
/// The same few messages, refused ones among them, very many times through one encoder.
fn streak<A: ASet>(cx: &mut Cx, enc: &mut MessageEncoder<A>, refusals: bool) -> R {
    let mut n = match cx.weighted(&[60, 30, 10, 1]) {
        0 => 2 + cx.us(20),
        1 => 20 + cx.us(120),
        2 => 250 + cx.us(20),
        _ => 65_530 + cx.us(20),
    };
    let mut few: Vec<(Message<A>, Option<Vec<u8>>)> = Vec::new();
    let mut work = 1;
    for _ in 0..1 + cx.us(2) {
        let s = if refusals && cx.chance(50) { oversize::<A>(cx) } else { gen::spec::<A>(cx, gen::SMALL) };
        let fits = representable(&s, s.items.len());
        work += s.items.iter().map(|it| 50 + if matches!(it, GI::Av(AV { v: V::Bytes(_), .. })) { value_len(&s, it) / 16 } else { value_len(&s, it) }).sum::<usize>();
        match gen::build::<A>(&s) {
            Some(m) if fits => few.push((m, Some(gen::ref_encode(&s)))),
            Some(m) => few.push((m, None)),
            None => {}
        }
    }
    if few.is_empty() {
        return Ok(());
    }
    cx.fault("streak_of_the_same");
    // (large ones take their time)
    n = n.min(400_000_000 / work);
    cx.ev("again and again", n as u64, few.len() as u64);
    let mut buf = vec![0u8; 65_700];
    for i in 0..n {
        let (m, want) = &few[i % few.len()];
        crate::guard::heartbeat(i);
        cx.ok();
        let got = match real(|| enc.start_encoding(m.clone())) {
            Err(_) => None,
            Ok(()) => {
                let x = real(|| enc.exact_requiring_bytes());
                match real(|| enc.encode(&mut buf, Eos::new(true))) {
                    Ok(k) => {
                        ensure!(x == k as u64, "announced-size", "message {}: {} bytes announced, {} came", i, x, k);
                        Some(&buf[..k])
                    }
                    Err(e) => return viol("encode-error", format!("message {}: {:?}", i, e.kind())),
                }
            }
        };
        ensure!(enc_idle(enc), "idle-state", "after message {} (refused: {}) the encoder is not idle", i, got.is_none());
        ensure!(
            got == want.as_deref(),
            "history",
            "the {}th of the same few messages: {} instead of {} [set {}]",
            i,
            got.map_or("refused".into(), |b| format!("{} bytes", b.len())),
            want.as_ref().map_or("a refusal".into(), |b| format!("{} bytes", b.len())),
            A::NAME
        );
    }
    Ok(())
}
fn s_idle_busy<A: ASet>(e: &MessageEncoder<A>) -> bool {
    !enc_idle(e)
}
fn enc_taken<A: ASet>(e: &mut MessageEncoder<A>) -> MessageEncoder<A> {
    std::mem::replace(e, MessageEncoder::new())
}
/// The stream ends before there is room for the whole message.
fn early_end<A: ASet>(cx: &mut Cx, mut enc: MessageEncoder<A>, want: &[u8]) -> R {
    cx.fault("eof_before_room");
    let room = cx.us(want.len());
    let first = cx.us(room + 1);
    let mut buf = vec![0u8; room];
    let mut n = 0;
    if first > 0 {
        match real(|| enc.encode(&mut buf[..first], Eos::new(false))) {
            Ok(k) => {
                ensure!(k == first, "short-encode", "room {}, encoder wrote {}", first, k);
                n = k;
            }
            Err(e) => return viol("encode-error", format!("{:?}", e.kind())),
        }
    }
    ensure!(buf[..n] == want[..n], "schedule-dependent", "first {} bytes differ from the one-shot encoding", n);
    cx.ok();
    match real(|| enc.encode(&mut buf[n..], Eos::new(true))) {
        Err(_) => Ok(()),
        Ok(k) => viol(
            "silent-truncation",
            format!("{} bytes of a {}-byte message fit before the end of the stream, encoder reported success ({} written)", room, want.len(), n + k),
        ),
    }
}

// ---------------------------------------------------------------- C05

fn c05(cx: &mut Cx) -> R {
    with_set!(set(cx), A => c05_run::<A>(cx))
}
/// A message that may be too large, for sets that can express one.
fn oversize<A: ASet>(cx: &mut Cx) -> Spec {
    let mut s = gen::spec::<A>(cx, gen::SMALL);
    let raw = A::RAW;
    let mut opts: Vec<u16> = Vec::new();
    if raw {
        opts.extend([refstun::DATA, 0x7F00, 0xFE01]);
    } else {
        for c in [refstun::TICKET, refstun::UNKNOWN_ATTRS, refstun::DATA] {
            if A::knows(c) {
                opts.push(c);
            }
        }
    }
    if opts.is_empty() {
        // many small ones instead
        let cps: Vec<u16> = refstun::TABLE[..refstun::N_PLAIN].iter().map(|t| t.0).filter(|c| A::knows(*c)).collect();
        if cps.is_empty() {
            return s;
        }
        let cp = *cx.pick(&cps);
        let a = gen::av(cx, cp);
        let each = 4 + (refstun::value_bytes(&a, &s.tid).len() + 3) / 4 * 4;
        let n = (65535 / each) as i64 + cx.us(5) as i64 - 2;
        for _ in 0..n.max(0) {
            s.items.push(GI::Av(a.clone()));
        }
        return s;
    }
    let cp = *cx.pick(&opts);
    let used = gen::spec_len(&s);
    let n = match cx.weighted(&[4, 4, 2, 1]) {
        // around the message limit
        0 => (65535usize.saturating_sub(used + 4) + 5).saturating_sub(cx.us(12)),
        // around the value limit
        1 => 65536 + 4 - cx.us(9),
        2 => 65000 + cx.us(3000),
        _ => *cx.pick(&[131072, 65536 + 65536, 70000, 0x10000, 0x20000 + 4]),
    };
    let v = if cp == refstun::UNKNOWN_ATTRS && !raw {
        let b = cx.blob(n / 2 * 2);
        V::List(b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect())
    } else {
        let n = if cp == refstun::DATA && !raw { n.min(65535) } else { n };
        V::Bytes(cx.blob(n))
    };
    let at = cx.us(s.items.len() + 1);
    s.items.insert(at, GI::Av(AV { cp, v }));
    s
}
fn value_len(s: &Spec, it: &GI) -> usize {
    match it {
        GI::Av(a) => refstun::value_bytes(a, &s.tid).len(),
        GI::Fp => 4,
        _ => 20,
    }
}
/// Can the message be put on the wire, as far as its first n items go?
fn representable(s: &Spec, n: usize) -> bool {
    let sub = Spec { items: s.items[..n].to_vec(), ..s.clone() };
    s.items[..n].iter().all(|i| value_len(s, i) < 0x10000) && gen::spec_len(&sub) < 0x10000
}
fn c05_run<A: ASet>(cx: &mut Cx) -> R {
    let mut enc = MessageEncoder::<A>::new();
    cx.repeat(1, 6, 2, |cx, k| {
        if cx.below(100) == 99 {
            return streak::<A>(cx, &mut enc, true);
        }
        let s = if cx.chance(35) { oversize::<A>(cx) } else { gen::spec::<A>(cx, GenCfg { max_attrs: 6, digests: true, big: cx_big(k) }) };
        let fits = representable(&s, s.items.len());
        let digest_fits = s.items.iter().enumerate().all(|(i, it)| match it {
            GI::Av(_) => true,
            // the digest covers everything before it, and itself in the length
            _ => representable(&s, i + 1),
        });
        cx.ev("spec", s.items.len() as u64, fits as u64);
        cx.note(|| format!("class {} method 0x{:x}, {} attributes, {} attribute bytes", s.class, s.method, s.items.len(), gen::spec_len(&s)));
        if !fits {
            cx.fault("unrepresentable_message");
        }
        cx.ok();
        let m = match gen::made::<A>(&s)? {
            Some(m) => m,
            None => {
                // constructors may only refuse what cannot be sent
                ensure!(!fits || !digest_fits, "constructor-refuses", "a representable message of {} attribute bytes could not be built [set {}]", gen::spec_len(&s), A::NAME);
                return Ok(());
            }
        };
        let r = real(|| enc.start_encoding(m));
        match r {
            Err(e) => {
                ensure!(!fits, "refuses-good", "a representable message ({} attribute bytes, {} attributes) was refused: {:?} [set {}]", gen::spec_len(&s), s.items.len(), e.kind(), A::NAME);
                // refused: nothing of it may remain
                let (i, x, q) = (enc_idle(&enc), real(|| enc.exact_requiring_bytes()), real(|| enc.requiring_bytes()));
                ensure!(i && x == 0 && q == ByteCount::Finite(0), "after-refusal", "after a refusal the encoder is {}, announcing {} / {:?} bytes", if i { "idle" } else { "busy" }, x, q);
                let mut buf = [0u8; 64];
                match real(|| enc.encode(&mut buf, Eos::new(false))) {
                    Ok(0) => {}
                    r => return viol("after-refusal", format!("after a refusal the encoder produced {:?}", r.ok())),
                }
                return Ok(());
            }
            Ok(()) => {}
        }
        ensure!(fits, "accepts-unrepresentable", "{} attribute bytes in {} attributes cannot be represented, yet the encoder accepted the message [set {}]", gen::spec_len(&s), s.items.len(), A::NAME);
        let mode = cx.below(crate::drive::DRAINS);
        let p = pace(cx);
        let out = drain(cx, &mut enc, mode, p, |_, _| Ok(()))?;
        cx.bytes_ev("sent", &out);
        let want = gen::ref_encode(&s);
        cx.ok();
        if out != want {
            let at = out.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(out.len().min(want.len()));
            return viol(
                "malformed",
                format!(
                    "message {} of this encoder: sent {} bytes, well-formed encoding has {}, first difference at {} (sent {} / wanted {}) [set {}]",
                    k,
                    out.len(),
                    want.len(),
                    at,
                    crate::cx::hexs(&out[at..(at + 16).min(out.len())]),
                    crate::cx::hexs(&want[at..(at + 16).min(want.len())]),
                    A::NAME
                ),
            );
        }
        Ok(())
    })
}
fn cx_big(k: usize) -> bool {
    k == 0
}
