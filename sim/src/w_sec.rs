//! Worlds around digests: damage, attackers, credentials.

use crate::crypto;
use crate::cx::{hexs, viol, Cx, R};
use crate::drive::{self, datagram, Item};
use crate::gen::{self, GenCfg, Item as GI, Spec};
use crate::guard::real;
use crate::net::{self, corrupt};
use crate::refstun::{self, Body, ROut, AV, V};
use crate::runner::Prop;
use crate::sets::*;
use crate::w_net::{send_bytes, StreamRx};
use bytecodec::DecodeExt;
use stun_codec::rfc5389::attributes::*;
use stun_codec::{rfc5389, DecodedMessage, Message, MessageDecoder, MessageEncoder};

const REAL: &[&str] = &[
    "stun_codec: Fingerprint, MessageIntegrity, Message, MessageEncoder, MessageDecoder, all attribute types",
    "crc, hmac, sha-1 and md5 crates behind the digests",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C08",
            run: c08,
            quick: 900_000,
            fixed: Some(crate::w_hooks::c08_fixed),
            rule: "Each run sends fingerprinted messages (made by the library, by the reference codec with merely legal encodings, or forwarded and fingerprinted by a hop) to long-lived receivers over a network that damages them; each receiver's accept or broken decision is compared with CRC-32 over the bytes that actually arrived, and each fingerprint the library makes with CRC-32 over the bytes it actually sends.",
            real: REAL,
            stub: &["network that damages messages", "reference CRC-32 and codec as peer and oracle"],
            assumptions: &["a damaged message whose CRC-32 still matches is accepted: the reference decides"],
        },
        Prop {
            id: "C09",
            run: c09,
            quick: 500_000,
            fixed: Some(crate::w_hooks::c09_fixed),
            rule: "Each run puts an attacker between a sender and long-lived receivers: it flips, inserts, drops, reorders and replaces attributes, edits header and padding, splices attributes and digests between captured messages, replays and truncates; for every MESSAGE-INTEGRITY that comes out, the library's verdict is compared with HMAC-SHA1 over the bytes that actually arrived.",
            real: REAL,
            stub: &["attacker and network", "reference HMAC-SHA1 and codec"],
            assumptions: &["message header unchanged by the decoder: the reference recomputes the digest over the received prefix"],
        },
        Prop {
            id: "C10",
            run: c10,
            quick: 800_000,
            fixed: None,
            rule: "Each run draws a credential and near misses of it (other case, moved separators, extended, cut, long, empty, other mechanism), lets the library protect messages with one and check them with another after delivery, and drives 401 and 438 dialogs with nonce loss at server restart; every verdict is compared with equality of reference-derived keys.",
            real: REAL,
            stub: &["network", "reference MD5 and HMAC-SHA1 key derivation", "server credential store"],
            assumptions: &["no SASLprep (the library documents it as not supported)", "credentials that derive to the same HMAC key are the same credential"],
        },
    ]
}

// sets with FINGERPRINT / MESSAGE-INTEGRITY
fn fp_set(cx: &mut Cx) -> usize {
    *cx.pick(&[0, 0, 0, 1, 6, 14, 15, 16])
}
fn mi_set(cx: &mut Cx) -> usize {
    *cx.pick(&[0, 0, 0, 1, 6, 13, 15, 16])
}

/// A long-lived receiver that gets each message by datagram or on a stream.
struct Rx<A: stun_codec::Attribute> {
    udp: MessageDecoder<A>,
    stream: Option<StreamRx<A>>,
}
impl<A: ASet> Rx<A> {
    fn new() -> Self {
        Rx { udp: MessageDecoder::new(), stream: None }
    }
    /// None: rejected (no message).
    fn take(&mut self, cx: &mut Cx, b: &[u8]) -> R<Option<DecodedMessage<A>>> {
        // a stream carries only well-framed messages
        let framed = matches!(refstun::decode(b, &|_| false), ROut::Msg(m) if m.total == b.len());
        if framed && cx.chance(40) {
            let mut s = self.stream.take().unwrap_or_else(StreamRx::new);
            let mut out = Vec::new();
            let mut at = 0;
            let mut alive = true;
            while at < b.len() && alive {
                let n = match cx.weighted(&[2, 1, 1]) {
                    0 => b.len() - at,
                    1 => 1 + cx.us((b.len() - at).min(30)),
                    _ => 1 + cx.us(b.len() - at),
                };
                alive = s.feed(cx, &b[at..at + n], &mut out)?;
                at += n;
            }
            ensure!(alive, "rejects", "a message with an acceptable header was rejected [set {}]: {}", A::NAME, hexs(b));
            ensure!(out.len() == 1, "framing", "one message in, {} out [set {}]", out.len(), A::NAME);
            self.stream = Some(s);
            return Ok(out.pop().map(|x| x.1));
        }
        match real(|| self.udp.decode_from_bytes(b)) {
            Ok(m) => Ok(Some(m)),
            Err(_) => {
                if dec_idle(&self.udp) {
                    let _ = real(|| self.udp.finish_decoding_quiet());
                }
                Ok(None)
            }
        }
    }
}
trait FinishQuiet {
    fn finish_decoding_quiet(&mut self);
}
impl<A: ASet> FinishQuiet for MessageDecoder<A> {
    fn finish_decoding_quiet(&mut self) {
        let _ = bytecodec::Decode::finish_decoding(self);
    }
}

/// A message carrying fingerprints, by one of several makers.
fn fingerprinted<A: ASet>(cx: &mut Cx, enc: &mut MessageEncoder<A>, hop: &mut MessageDecoder<A>) -> R<Option<Vec<u8>>> {
    match cx.weighted(&[4, 5, 3]) {
        0 => {
            // the library, through its constructor
            let n = *cx.pick(&[5, 2, 10]);
            let big = cx.chance(2);
            let mut s = gen::spec::<A>(cx, GenCfg { max_attrs: n, digests: true, big });
            if !matches!(s.items.last(), Some(GI::Fp)) {
                s.items.push(GI::Fp);
            }
            if cx.below(60) == 59 {
                steer(cx, &mut s);
            }
            if gen::spec_len(&s) > 0xffff {
                return Ok(None);
            }
            let m = match gen::made::<A>(&s)? {
                Some(m) => m,
                None => return Ok(None),
            };
            let b = send_bytes(cx, enc, m)?;
            made_right::<A>(cx, &b)?;
            Ok(Some(b))
        }
        1 => {
            // a peer with another implementation: reserved bits, padding, unknown attributes
            let mut c = gen::clean_cfg(cx);
            c.big = cx.chance(2);
            c.digests = true;
            let mut b = gen::wire(cx, c);
            if b.len() + 8 <= 65552 && cx.chance(80) {
                let f = refstun::fingerprint_of(&b);
                refstun::push_tlv(&mut b, refstun::FP, &f.to_be_bytes(), [0; 3]);
                let n = b.len() - 20;
                refstun::set_len(&mut b, n);
            }
            Ok(Some(b))
        }
        _ => {
            // a hop reads a foreign message and fingerprints what it forwards
            let mut c = gen::clean_cfg(cx);
            c.big = false;
            let b = gen::wire(cx, c);
            let mut m = match real(|| hop.decode_from_bytes(&b)) {
                Ok(Ok(m)) => m,
                _ => return Ok(None),
            };
            cx.probe("hop_fingerprints");
            let f = match real(|| Fingerprint::new(&m)) {
                Ok(f) => f,
                Err(e) => return viol("refused", format!("no fingerprint for a forwarded message: {:?}", e.kind())),
            };
            match A::of_fp(f) {
                Some(a) => real(|| m.add_attribute(a)),
                None => return Ok(None),
            }
            let out = send_bytes(cx, enc, m)?;
            made_right::<A>(cx, &out)?;
            Ok(Some(out))
        }
    }
}
/// The last fingerprint of a message the library sent covers what it sent.
fn made_right<A: ASet>(cx: &mut Cx, b: &[u8]) -> R {
    cx.ok();
    let at = b.len() - 8;
    let want = refstun::fingerprint_of(&b[..at]);
    let got = u32::from_be_bytes([b[at + 4], b[at + 5], b[at + 6], b[at + 7]]);
    ensure!(
        b[at..at + 2] == refstun::FP.to_be_bytes() && got == want,
        "made-wrong",
        "the library sends FINGERPRINT {:08x}, the bytes before it have {:08x} [set {}]: {}",
        got,
        want,
        A::NAME,
        hexs(b)
    );
    Ok(())
}
fn c08(cx: &mut Cx) -> R {
    with_set!(fp_set(cx), A => c08_run::<A>(cx))
}
fn c08_run<A: ASet>(cx: &mut Cx) -> R {
    let mut enc = MessageEncoder::<A>::new();
    let mut hop = MessageDecoder::<A>::new();
    let mut rx = [Rx::<A>::new(), Rx::<A>::new()];
    let damage = *cx.pick(&[50u64, 0, 90, 20]);
    let (max, avg) = match cx.weighted(&[40, 1]) {
        0 => (8, 3),
        _ => (150, 120),
    };
    cx.repeat(1, max, avg, |cx, _| {
        let b = match fingerprinted(cx, &mut enc, &mut hop)? {
            Some(b) => b,
            None => return Ok(()),
        };
        let copies = 1 + cx.us(3);
        for _ in 0..copies {
            let mut d = b.clone();
            if cx.chance(damage) {
                wreck(cx, &mut d);
            }
            cx.bytes_ev("arrives", &d);
            let i = cx.us(2);
            let got = rx[i].take(cx, &d)?;
            if cx.chance(5) {
                cx.fault("crash_restart");
                rx[i] = Rx::new();
            }
            fp_judge::<A>(cx, &d, got)?;
        }
        Ok(())
    })
}
/// What a wrong or lenient implementation might take for the fingerprint at `at`.
fn tempting_crc(cx: &mut Cx, b: &[u8], at: usize) -> [u8; 4] {
    let right = refstun::fingerprint_of(&b[..at]);
    let with_len = |n: usize, end: usize| {
        let mut p = b[..end].to_vec();
        if n <= 0xffff {
            refstun::set_len(&mut p, n);
        }
        crypto::crc32(&p)
    };
    let x = 0x5354_554eu32;
    match cx.below(14) {
        0 => right ^ x,
        1 => right.swap_bytes(),
        2 => right.reverse_bits(),
        3 => !right,
        4 => 0,
        5 => u32::MAX,
        6 => x,
        7 => with_len(at - 20, at) ^ x,
        8 => with_len(b.len() - 20, at + 4) ^ x,
        9 => crypto::crc32(&b[20..at]) ^ x,
        10 => with_len(0, at) ^ x,
        11 => (right ^ x).swap_bytes() ^ x,
        // two damages that cancel each other out in a careless comparison
        12 => {
            let (m, i, j) = (1 + cx.below(255) as u32, cx.below(4), cx.below(4));
            right ^ (m << (8 * i)) ^ (m << (8 * ((j + i + 1) % 4)))
        }
        _ => right.rotate_left(8 + 8 * cx.below(3) as u32),
    }
    .to_be_bytes()
}
/// What a wrong or lenient implementation might take for the integrity at `at`.
fn tempting_mac(cx: &mut Cx, b: &[u8], at: usize, key: &[u8]) -> [u8; 20] {
    let right = refstun::mac_of(&b[..at], key);
    let with_len = |n: usize, end: usize| {
        let mut p = b[..end].to_vec();
        if n <= 0xffff {
            refstun::set_len(&mut p, n);
        }
        p
    };
    let mut m = right;
    match cx.below(16) {
        0 => return crypto::hmac_sha1(key, &with_len(b.len() - 20, at)),
        1 => return crypto::hmac_sha1(key, &with_len(at - 20, at)),
        2 => {
            // RFC 3489: padded to a multiple of 64 bytes
            let mut p = with_len(at - 20 + 24, at);
            p.resize((p.len() + 63) / 64 * 64, 0);
            return crypto::hmac_sha1(key, &p);
        }
        3 => return crypto::hmac_sha1(key, &with_len(at - 20 + 24, at + 4)),
        4 => return crypto::hmac_sha1(key, &b[20..at]),
        5 => return refstun::mac_of(&b[..at], b""),
        6 => m = [0; 20],
        7 => m = [0xff; 20],
        8 => {
            // the beginning is right
            let n = 1 + cx.us(19);
            m[n..].fill(0);
            if m == right {
                m[19] ^= 1;
            }
        }
        9 => {
            // the end is right
            let n = 1 + cx.us(19);
            m[..n].fill(0);
            if m == right {
                m[0] ^= 1;
            }
        }
        10 => m.reverse(),
        11 => m.rotate_left(1 + cx.us(19)),
        12 => {
            // damages that cancel each other out in a careless comparison
            let (x, i, j) = (1 + cx.below(255) as u8, cx.us(20), cx.us(19));
            m[i] ^= x;
            m[(i + 1 + j) % 20] ^= x;
        }
        13 => {
            let (x, i, j) = (1 + cx.below(255) as u8, cx.us(20), cx.us(19));
            m[i] = m[i].wrapping_add(x);
            let k = (i + 1 + j) % 20;
            m[k] = m[k].wrapping_sub(x);
        }
        14 => {
            let (i, j) = (cx.us(20), cx.us(20));
            m.swap(i, j);
        }
        _ => return crypto::sha1(&[key, &b[..at]].concat()),
    }
    m
}
/// Chooses the end of the transaction identifier so that the fingerprint, which is an
/// affine function of it, has a value somebody might hold special.
fn steer(cx: &mut Cx, s: &mut Spec) {
    if s.items.iter().any(|i| matches!(i, GI::MiShort(_) | GI::MiLong(..))) || gen::spec_len(s) > 600 {
        return;
    }
    let want = *cx.pick(&[0u32, u32::MAX, 0x5354_554e, 1, 0x8000_0000, 0x2112_a442, 0xff, 0x8028_0004]);
    let mut f = |t: u32| {
        s.tid[8..].copy_from_slice(&t.to_be_bytes());
        let b = gen::ref_encode(s);
        u32::from_be_bytes([b[b.len() - 4], b[b.len() - 3], b[b.len() - 2], b[b.len() - 1]])
    };
    let zero = f(0);
    // rows: (what a set of bits of t does, that set), by highest bit
    let mut rows = [(0u32, 0u32); 32];
    for i in 0..32 {
        let (mut e, mut set) = (f(1 << i) ^ zero, 1u32 << i);
        while e != 0 {
            let h = 31 - e.leading_zeros() as usize;
            if rows[h].0 == 0 {
                rows[h] = (e, set);
                break;
            }
            e ^= rows[h].0;
            set ^= rows[h].1;
        }
    }
    let (mut e, mut t) = (want ^ zero, 0u32);
    for h in (0..32).rev() {
        if e >> h & 1 == 1 && rows[h].0 != 0 {
            e ^= rows[h].0;
            t ^= rows[h].1;
        }
    }
    if f(t) == want {
        cx.probe("special_fingerprint");
    }
}
/// Damage that often keeps the framing plausible, so that the digest decides.
fn wreck(cx: &mut Cx, b: &mut Vec<u8>) {
    match cx.weighted(&[6, 2, 2, 2, 1]) {
        0 => corrupt(cx, b),
        1 => {
            cx.fault("packet_truncated");
            let n = 20 + cx.us(b.len() - 19);
            b.truncate(n);
            if cx.chance(70) {
                let n = b.len() - 20;
                refstun::set_len(b, n);
            }
        }
        2 => {
            // two bytes swapped, or a whole word
            cx.fault("packet_corrupted");
            let w = b.len() / 4;
            let (i, j) = (cx.us(w), cx.us(w));
            for k in 0..4 {
                b.swap(4 * i + k, 4 * j + k);
            }
        }
        3 => {
            // only the digest itself
            cx.fault("digest_damaged");
            let n = b.len();
            let at = n.saturating_sub(8);
            if at >= 20 && b[at..at + 4] == [0x80, 0x28, 0, 4] && cx.chance(60) {
                let c = tempting_crc(cx, b, at);
                b[at + 4..].copy_from_slice(&c);
            } else {
                let i = n - 1 - cx.us(4.min(n - 20).max(1));
                b[i] ^= 1 << cx.below(8);
            }
        }
        _ => {
            cx.fault("attribute_appended");
            let cp = if cx.chance(50) { gen::unknown_cp(cx) } else { refstun::SOFTWARE };
            refstun::push_tlv(b, cp, b"late", [0; 3]);
            if b.len() <= 65552 {
                let n = b.len() - 20;
                refstun::set_len(b, n);
            }
        }
    }
}
fn fp_judge<A: ASet>(cx: &mut Cx, d: &[u8], got: Option<DecodedMessage<A>>) -> R {
    cx.ok();
    let r = match refstun::decode(d, &|c| A::knows(c)) {
        ROut::Msg(m) if m.total == d.len() => m,
        _ => {
            return match got {
                Some(Ok(_)) => viol("no-message", format!("not a whole STUN message, yet accepted [set {}]: {}", A::NAME, hexs(d))),
                _ => Ok(()),
            }
        }
    };
    match (&r.body, got) {
        (Body::Valid(attrs), Some(Ok(m))) | (Body::Either(attrs), Some(Ok(m))) => {
            if attrs.iter().any(|a| a.cp == refstun::FP) {
                cx.probe("fingerprint_good");
            }
            let want: Vec<u32> = attrs.iter().filter(|a| a.known && a.cp == refstun::FP).map(|a| u32::from_be_bytes([a.value[0], a.value[1], a.value[2], a.value[3]])).collect();
            let have: Vec<u32> = observe(&m).known.iter().filter_map(|a| if let V::Crc(c) = a.v { Some(c) } else { None }).collect();
            ensure!(want == have, "crc-value", "fingerprints on the wire {:x?}, read as {:x?}", want, have);
            Ok(())
        }
        (Body::Valid(_), Some(Err(_))) => viol("good-refused", format!("every FINGERPRINT matches the bytes received, message reported broken [set {}]: {}", A::NAME, hexs(d))),
        (Body::Valid(_), None) | (Body::Invalid(_), None) => viol("rejects", format!("well-framed message rejected [set {}]: {}", A::NAME, hexs(d))),
        (Body::Invalid(why), Some(Ok(_))) if *why == "fingerprint" => {
            viol("bad-accepted", format!("a FINGERPRINT does not match the bytes received, message accepted [set {}]: {}", A::NAME, hexs(d)))
        }
        (Body::Invalid(why), Some(Ok(_))) => viol("invalid-accepted", format!("{} [set {}]: {}", why, A::NAME, hexs(d))),
        (Body::Invalid(why), Some(Err(_))) => {
            if *why == "fingerprint" {
                cx.probe("fingerprint_bad");
            }
            Ok(())
        }
        (Body::Either(_), _) => Ok(()),
    }
}

// ---------------------------------------------------------------- C09

/// How a digest is keyed.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cred {
    Short(String),
    Long(String, String, String),
}
impl Cred {
    pub fn key(&self) -> Vec<u8> {
        match self {
            Cred::Short(p) => p.as_bytes().to_vec(),
            Cred::Long(u, r, p) => refstun::long_term_key(u, r, p).to_vec(),
        }
    }
    /// within the limits of user names and realms
    pub fn valid(&self) -> bool {
        match self {
            Cred::Short(_) => true,
            Cred::Long(u, r, _) => u.len() < 513 && r.chars().count() < 128,
        }
    }
    fn item(&self) -> GI {
        match self {
            Cred::Short(p) => GI::MiShort(p.clone()),
            Cred::Long(u, r, p) => GI::MiLong(u.clone(), r.clone(), p.clone()),
        }
    }
    pub fn of(i: &GI) -> Cred {
        match i {
            GI::MiLong(u, r, p) => Cred::Long(u.clone(), r.clone(), p.clone()),
            GI::MiShort(p) => Cred::Short(p.clone()),
            _ => Cred::Short(String::new()),
        }
    }
    /// verdict of the library; None when the parts are no valid credential
    pub fn check(&self, mi: &MessageIntegrity) -> Option<Result<(), u16>> {
        real(|| match self {
            Cred::Short(p) => Some(mi.check_short_term_credential(p).map_err(|e| e.code())),
            Cred::Long(u, r, p) => {
                let (u, r) = (Username::new(u.clone()).ok()?, Realm::new(r.clone()).ok()?);
                Some(mi.check_long_term_credential(&u, &r, p).map_err(|e| e.code()))
            }
        })
    }
    pub fn make<A: ASet>(&self, m: &Message<A>) -> Option<MessageIntegrity> {
        real(|| match self {
            Cred::Short(p) => MessageIntegrity::new_short_term_credential(m, p).ok(),
            Cred::Long(u, r, p) => {
                let (u, r) = (Username::new(u.clone()).ok()?, Realm::new(r.clone()).ok()?);
                MessageIntegrity::new_long_term_credential(m, &u, &r, p).ok()
            }
        })
    }
}
pub fn cred(cx: &mut Cx) -> Cred {
    Cred::of(&gen::credential(cx))
}

/// Compares every MESSAGE-INTEGRITY of a decoded message with the reference
/// HMAC over the bytes received, for each credential.
pub fn mi_judge<A: ASet>(cx: &mut Cx, d: &[u8], got: &Option<DecodedMessage<A>>, creds: &[Cred]) -> R<(u64, u64)> {
    let (mut good, mut bad) = (0, 0);
    let m = match got {
        Some(Ok(m)) => m,
        _ => return Ok((0, 0)),
    };
    let r = match refstun::decode(d, &|c| A::knows(c)) {
        ROut::Msg(r) if r.total == d.len() => r,
        _ => return viol("no-message", format!("not a whole STUN message, yet accepted [set {}]: {}", A::NAME, hexs(d))),
    };
    let attrs = match &r.body {
        Body::Valid(a) | Body::Either(a) => a,
        Body::Invalid(why) => return viol("invalid-accepted", format!("{} [set {}]: {}", why, A::NAME, hexs(d))),
    };
    let offs: Vec<usize> = attrs.iter().filter(|a| a.known && a.cp == refstun::MI).map(|a| a.off).collect();
    let mis: Vec<MessageIntegrity> = real(|| m.attributes().filter_map(|a| a.as_mi().cloned()).collect());
    ensure!(offs.len() == mis.len(), "digest-count", "{} MESSAGE-INTEGRITY on the wire, {} in the message [set {}]", offs.len(), mis.len(), A::NAME);
    for (off, mi) in offs.iter().zip(&mis) {
        ensure!(mi.hmac_sha1()[..] == d[off + 4..off + 24], "digest-value", "HMAC on the wire differs from the one read [set {}]", A::NAME);
        for c in creds {
            let want = refstun::check_mac(d, *off, &c.key());
            let v = match c.check(mi) {
                Some(v) => v,
                None => continue,
            };
            cx.ok();
            match v {
                Ok(()) => {
                    good += 1;
                    ensure!(want, "forgery-accepted", "MESSAGE-INTEGRITY at byte {} does not match the bytes received under {:?}, check passes [set {}]: {}", off, c, A::NAME, hexs(d));
                }
                Err(code) => {
                    bad += 1;
                    ensure!(!want, "genuine-refused", "MESSAGE-INTEGRITY at byte {} matches the bytes received under {:?}, check fails [set {}]: {}", off, c, A::NAME, hexs(d));
                    ensure!(code == 401, "error-code", "a failed check reports {}", code);
                }
            }
        }
    }
    Ok((good, bad))
}

fn c09(cx: &mut Cx) -> R {
    with_set!(mi_set(cx), A => c09_run::<A>(cx))
}
fn protected<A: ASet>(cx: &mut Cx, enc: &mut MessageEncoder<A>, hop: &mut MessageDecoder<A>, c: &Cred) -> R<Option<Vec<u8>>> {
    match cx.weighted(&[4, 4, 3]) {
        0 => {
            let n = *cx.pick(&[5, 2, 10]);
            let big = cx.chance(1);
            let mut s: Spec = gen::spec::<A>(cx, GenCfg { max_attrs: n, digests: false, big });
            s.items.push(c.item());
            let after = cx.us(3);
            for _ in 0..after {
                match cx.below(3) {
                    0 if A::knows(refstun::FP) => s.items.push(GI::Fp),
                    1 => s.items.push(cred(cx).item()),
                    _ => {
                        let cp = gen::plain_cp(cx);
                        if A::knows(cp) {
                            s.items.push(GI::Av(gen::av(cx, cp)));
                        }
                    }
                }
            }
            if gen::spec_len(&s) > 0xffff {
                return Ok(None);
            }
            let m = match gen::made::<A>(&s)? {
                Some(m) => m,
                None => return Ok(None),
            };
            let kept = m.clone();
            let b = send_bytes(cx, enc, m)?;
            mac_made_right::<A>(cx, &b, c, false)?;
            kept_digest(cx, &b, kept, c)?;
            Ok(Some(b))
        }
        1 => {
            // another implementation
            let mut w = gen::clean_cfg(cx);
            w.big = cx.chance(2);
            w.digests = cx.chance(30);
            let mut b = gen::wire(cx, w);
            if b.len() + 24 > 65552 {
                return Ok(None);
            }
            let mac = refstun::mac_of(&b, &c.key());
            refstun::push_tlv(&mut b, refstun::MI, &mac, [0; 3]);
            let tail = cx.us(3);
            for _ in 0..tail {
                if b.len() + 100 > 65552 {
                    break;
                }
                match cx.below(3) {
                    0 => {
                        let f = refstun::fingerprint_of(&b);
                        refstun::push_tlv(&mut b, refstun::FP, &f.to_be_bytes(), [0; 3]);
                    }
                    1 => {
                        let cp = gen::unknown_cp(cx);
                        let n = cx.us(20);
                        let v = cx.blob(n);
                        refstun::push_tlv(&mut b, cp, &v, [1, 2, 3]);
                    }
                    _ => refstun::push_tlv(&mut b, refstun::SOFTWARE, b"x", [9, 9, 9]),
                }
            }
            let n = b.len() - 20;
            refstun::set_len(&mut b, n);
            Ok(Some(b))
        }
        _ => {
            // a hop protects what it forwards
            let mut w = gen::clean_cfg(cx);
            w.big = false;
            w.digests = cx.chance(30);
            let b = gen::wire(cx, w);
            let mut m = match real(|| hop.decode_from_bytes(&b)) {
                Ok(Ok(m)) => m,
                _ => return Ok(None),
            };
            cx.probe("hop_protects");
            let mi = match c.make(&m) {
                Some(mi) => mi,
                None => return Ok(None),
            };
            match A::of_mi(mi) {
                Some(a) => real(|| m.add_attribute(a)),
                None => return Ok(None),
            }
            let kept = m.clone();
            let out = send_bytes(cx, enc, m)?;
            mac_made_right::<A>(cx, &out, c, true)?;
            kept_digest(cx, &out, kept, c)?;
            Ok(Some(out))
        }
    }
}
/// The digests in the sender's own message answer as those in the bytes it sent.
fn kept_digest<A: ASet>(cx: &mut Cx, b: &[u8], kept: Message<A>, c: &Cred) -> R {
    let near = cred(cx);
    cx.probe("sender_checks_own");
    mi_judge(cx, b, &Some(Ok(kept)), &[c.clone(), near]).map(|_| ())
}
/// The digest the library put there covers the bytes it sent.
fn mac_made_right<A: ASet>(cx: &mut Cx, b: &[u8], c: &Cred, last: bool) -> R {
    cx.ok();
    if let ROut::Msg(r) = refstun::decode(b, &|x| A::knows(x)) {
        if let Body::Valid(a) | Body::Either(a) = &r.body {
            let mut mi = a.iter().filter(|a| a.cp == refstun::MI);
            let at = if last { mi.last() } else { mi.next() };
            if let Some(at) = at {
                ensure!(
                    refstun::check_mac(b, at.off, &c.key()),
                    "made-wrong",
                    "the MESSAGE-INTEGRITY the library sends under {:?} is not the HMAC of the bytes before it [set {}]: {}",
                    c,
                    A::NAME,
                    hexs(b)
                );
                return Ok(());
            }
        }
    }
    viol("made-wrong", format!("reference cannot read what the library sent [set {}]: {}", A::NAME, hexs(b)))
}
/// Attributes of a message as byte ranges.
fn cuts(b: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut o = 20;
    while o + 4 <= b.len() {
        let vl = u16::from_be_bytes([b[o + 2], b[o + 3]]) as usize;
        let e = o + 4 + (vl + 3) / 4 * 4;
        if e > b.len() {
            break;
        }
        v.push((o, e));
        o = e;
    }
    v
}
fn attack(cx: &mut Cx, b: &[u8], captured: &[Vec<u8>], creds: &[Cred]) -> Vec<u8> {
    let mut d = b.to_vec();
    let c = cuts(&d);
    let fix = |d: &mut Vec<u8>| {
        d.truncate(65552);
        let n = d.len() - 20;
        refstun::set_len(d, n);
    };
    match cx.weighted(&[5, 2, 2, 2, 2, 2, 2, 1, 3]) {
        0 => {
            cx.fault("attack_flip");
            let i = match cx.below(3) {
                0 => cx.us(d.len()),
                1 => cx.us(20),
                _ => 20 + cx.us((d.len() - 20).max(1)),
            };
            if i < d.len() {
                d[i] ^= 1 << cx.below(8);
            }
        }
        1 if !c.is_empty() => {
            cx.fault("attack_drop_attribute");
            let (s, e) = *cx.pick(&c);
            d.drain(s..e);
            fix(&mut d);
        }
        2 if !c.is_empty() => {
            cx.fault("attack_insert_attribute");
            let (s, _) = *cx.pick(&c);
            let mut t = Vec::new();
            let cp = if cx.chance(50) { gen::plain_cp(cx) } else { gen::unknown_cp(cx) };
            let v = if refstun::kind_of(cp).is_some() {
                let a = gen::av(cx, cp);
                let mut tid = [0u8; 12];
                tid.copy_from_slice(&b[8..20]);
                refstun::value_bytes(&a, &tid)
            } else {
                let n = cx.us(9);
                cx.blob(n)
            };
            refstun::push_tlv(&mut t, cp, &v, [0; 3]);
            let tail = d.split_off(s);
            d.extend(t);
            d.extend(tail);
            fix(&mut d);
        }
        3 if c.len() > 1 => {
            cx.fault("attack_reorder");
            let i = cx.us(c.len() - 1);
            let (a, bb) = (c[i], c[i + 1]);
            let mut n = d[..a.0].to_vec();
            n.extend_from_slice(&d[bb.0..bb.1]);
            n.extend_from_slice(&d[a.0..a.1]);
            n.extend_from_slice(&d[bb.1..]);
            d = n;
        }
        4 if !captured.is_empty() => {
            // digest of another message, or its attributes under this digest
            cx.fault("attack_splice");
            let o = cx.pick(captured).clone();
            let oc = cuts(&o);
            if !oc.is_empty() && !c.is_empty() {
                let (s, e) = *cx.pick(&oc);
                let (ts, te) = *cx.pick(&c);
                let mut n = d[..ts].to_vec();
                n.extend_from_slice(&o[s..e]);
                n.extend_from_slice(if cx.chance(50) { &d[te..] } else { &d[ts..] });
                d = n;
                fix(&mut d);
            }
            if cx.chance(20) {
                let (x, y) = (8, 20);
                d[x..y].copy_from_slice(&o[x..y]);
            }
        }
        5 => {
            // type, padding or length
            cx.fault("attack_header");
            match cx.below(3) {
                0 => {
                    let (cl, m) = (gen::class(cx), gen::method(cx));
                    d[..2].copy_from_slice(&refstun::type_field(cl, m).to_be_bytes());
                }
                1 => {
                    for (s, e) in &c {
                        let vl = u16::from_be_bytes([d[s + 2], d[s + 3]]) as usize;
                        for x in s + 4 + vl..*e {
                            d[x] ^= 0x5a;
                        }
                    }
                }
                _ => {
                    let t = gen::tid(cx);
                    d[8..20].copy_from_slice(&t);
                }
            }
        }
        6 if !c.is_empty() => {
            cx.fault("attack_append");
            let v = cx.blob(20);
            match cx.below(3) {
                0 => refstun::push_tlv(&mut d, refstun::MI, &v, [0; 3]),
                1 if d.len() + 24 <= 65552 => {
                    // a genuine digest under some other key
                    let k = cx.pick(creds).key();
                    let mac = refstun::mac_of(&d, &k);
                    refstun::push_tlv(&mut d, refstun::MI, &mac, [0; 3]);
                }
                _ => refstun::push_tlv(&mut d, refstun::SOFTWARE, b"evil", [0; 3]),
            }
            fix(&mut d);
        }
        7 if !c.is_empty() => {
            cx.fault("attack_cut_attributes");
            let (_, e) = *cx.pick(&c);
            d.truncate(e);
            fix(&mut d);
        }
        _ => {
            cx.fault("attack_digest");
            if let Some((s, _)) = c.iter().find(|(s, _)| d[*s..*s + 2] == refstun::MI.to_be_bytes()) {
                let s = *s;
                if cx.chance(60) && s + 24 <= d.len() {
                    let k = cx.pick(creds).key();
                    let m = tempting_mac(cx, &d, s, &k);
                    d[s + 4..s + 24].copy_from_slice(&m);
                } else {
                    let i = s + 4 + cx.us(20);
                    if i < d.len() {
                        d[i] ^= 1 << cx.below(8);
                    }
                }
            }
        }
    }
    // a fingerprint the attacker recomputes, so that the message is not dropped for that
    if cx.chance(70) {
        refingerprint(&mut d);
    }
    d
}
fn refingerprint(d: &mut [u8]) {
    for (s, e) in cuts(d) {
        if d[s..s + 2] == refstun::FP.to_be_bytes() && e == s + 8 {
            let f = refstun::fingerprint_of(&d[..s]);
            d[s + 4..s + 8].copy_from_slice(&f.to_be_bytes());
        }
    }
}
fn c09_run<A: ASet>(cx: &mut Cx) -> R {
    let mut enc = MessageEncoder::<A>::new();
    let mut hop = MessageDecoder::<A>::new();
    let mut rx = [Rx::<A>::new(), Rx::<A>::new()];
    let creds: Vec<Cred> = vec![cred(cx), cred(cx)];
    let mut captured: Vec<Vec<u8>> = Vec::new();
    let attacks = *cx.pick(&[60u64, 0, 95, 30]);
    let (max, avg) = match cx.weighted(&[40, 1]) {
        0 => (8, 3),
        _ => (100, 80),
    };
    cx.repeat(1, max, avg, |cx, _| {
        let c = cx.pick(&creds).clone();
        let b = match protected(cx, &mut enc, &mut hop, &c)? {
            Some(b) => b,
            None => return Ok(()),
        };
        cx.bytes_ev("protected", &b);
        let copies = 1 + cx.us(3);
        for _ in 0..copies {
            let mut d = if !captured.is_empty() && cx.chance(15) {
                cx.fault("attack_replay");
                cx.pick(&captured).clone()
            } else {
                b.clone()
            };
            let mut n = 0;
            while n < 3 && cx.chance(attacks) {
                d = attack(cx, &d, &captured, &creds);
                n += 1;
            }
            cx.bytes_ev("arrives", &d);
            let i = cx.us(2);
            let got = rx[i].take(cx, &d)?;
            if d == b && !matches!(got, Some(Ok(_))) {
                if let ROut::Msg(m) = refstun::decode(&d, &|x| A::knows(x)) {
                    if matches!(m.body, Body::Valid(_)) {
                        return viol("genuine-refused", format!("an untouched protected message came out broken [set {}]: {}", A::NAME, hexs(&d)));
                    }
                }
            }
            let (g, x) = mi_judge::<A>(cx, &d, &got, &creds)?;
            if g > 0 {
                cx.probe("verified");
            }
            if x > 0 {
                cx.probe("refused");
            }
            if cx.chance(5) {
                cx.fault("crash_restart");
                rx[i] = Rx::new();
            }
        }
        if captured.len() < 6 {
            captured.push(b);
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- C10

/// A credential close to `c`.
fn near(cx: &mut Cx, c: &Cred) -> Cred {
    fn tweak(cx: &mut Cx, s: &str) -> String {
        let mut v: Vec<char> = s.chars().collect();
        match cx.below(17) {
            14 => {
                // only the end of it differs
                match v.last_mut() {
                    Some(x) => *x = if *x == 'q' { 'p' } else { 'q' },
                    None => v.push('q'),
                }
            }
            15 => {
                // a difference behind a number of characters somebody might have stopped at
                let n = *cx.pick(&[8usize, 16, 20, 32, 63, 64, 72, 127, 128, 255, 256, 512, 1024, 4096]) + cx.us(3) - 1;
                if n < v.len() {
                    if cx.chance(50) {
                        v[n] = if v[n] == 'q' { 'p' } else { 'q' };
                    } else {
                        v.truncate(n);
                    }
                } else {
                    v.push('q');
                }
            }
            16 => {
                // the same for who looks at the lower byte of a character
                let i = cx.us(v.len().max(1));
                if i < v.len() {
                    let c = v[i] as u32;
                    v[i] = char::from_u32(*cx.pick(&[c ^ 0x100, c ^ 0x1_0000, c ^ 0x80, c ^ 0x20])).unwrap_or('q');
                }
            }
            9 => v.push(*cx.pick(&['\n', '\r', '\t', '\u{a0}', '\u{feff}', '\u{200b}', '"', '\u{3000}', '@', '/', ':', ';'])),
            10 => v.insert(0, *cx.pick(&['\n', '\0', '\t', '\u{feff}', '"', ':', '@', '\u{200b}'])),
            11 => {
                // the same to the eye, or under some normalisation
                return match cx.below(6) {
                    0 => s.to_lowercase(),
                    1 => s.to_uppercase(),
                    2 => s.replace('\u{e9}', "e\u{301}"),
                    3 => s.replace("e\u{301}", "\u{e9}"),
                    4 => s.replace('\u{212a}', "K").replace('\u{df}', "ss").replace('\u{ff21}', "A"),
                    _ => s.trim().trim_matches('"').to_string(),
                };
            }
            12 => {
                // cut at something
                if let Some(i) = v.iter().position(|c| matches!(c, '\0' | '\n' | '@' | '%' | ' ' | ';')) {
                    v.truncate(i);
                }
            }
            13 => {
                let i = cx.us(v.len() + 1);
                v.insert(i, *cx.pick(&['\0', '\u{ad}', ' ', '\\', 'a']));
            }
            0 => v.push('x'),
            1 => {
                v.pop();
            }
            2 => v.push('\0'),
            3 => {
                if let Some(x) = v.first_mut() {
                    *x = if x.is_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() };
                }
            }
            4 => v.insert(0, ' '),
            5 => v.push(' '),
            6 => {
                if v.len() > 1 {
                    let i = cx.us(v.len() - 1);
                    v.swap(i, i + 1);
                }
            }
            7 => v.clear(),
            _ => {
                let i = cx.us(v.len().max(1));
                if i < v.len() {
                    v[i] = if v[i] == 'q' { 'p' } else { 'q' };
                }
            }
        }
        v.into_iter().collect()
    }
    match c {
        Cred::Short(p) => match cx.below(4) {
            0 => Cred::Long(String::new(), String::new(), p.clone()),
            1 => {
                // the hashed form of a long password is the same HMAC key
                Cred::Short(format!("{}{}", p, "z".repeat(cx.us(70))))
            }
            _ => Cred::Short(tweak(cx, p)),
        },
        Cred::Long(u, r, p) => match cx.below(7) {
            0 => Cred::Long(tweak(cx, u), r.clone(), p.clone()),
            1 => Cred::Long(u.clone(), tweak(cx, r), p.clone()),
            2 => Cred::Long(u.clone(), r.clone(), tweak(cx, p)),
            3 => Cred::Short(p.clone()),
            4 => Cred::Long(r.clone(), u.clone(), p.clone()),
            5 => Cred::Short(format!("{}:{}:{}", u, r, p)),
            _ => {
                // move the separator: u ":" r  ->  the same hashed string
                match r.find(':') {
                    Some(i) => Cred::Long(format!("{}:{}", u, &r[..i]), r[i + 1..].to_string(), p.clone()),
                    None => Cred::Long(u.clone(), format!("{}:", r), p.trim_start_matches(':').to_string()),
                }
            }
        },
    }
}
fn c10(cx: &mut Cx) -> R {
    if cx.chance(30) {
        return dialog(cx);
    }
    with_set!(mi_set(cx), A => c10_run::<A>(cx))
}
fn c10_run<A: ASet>(cx: &mut Cx) -> R {
    let mut enc = MessageEncoder::<A>::new();
    let mut rx = Rx::<A>::new();
    cx.repeat(1, 6, 2, |cx, _| {
        let c = cred(cx);
        let mut all = vec![c.clone()];
        let n = 1 + cx.us(4);
        for _ in 0..n {
            let base = cx.pick(&all).clone();
            all.push(near(cx, &base));
        }
        // protected by one of them
        let who = if cx.chance(60) { c } else { cx.pick(&all).clone() };
        let s = gen::spec::<A>(cx, GenCfg { max_attrs: 3, digests: false, big: false });
        let mut m = match gen::made::<A>(&s)? {
            Some(m) => m,
            None => return Ok(()),
        };
        let mi = match who.make(&m) {
            Some(mi) => mi,
            None => {
                // no valid user name or realm, then
                ensure!(!who.valid() || gen::spec_len(&s) > 0xffff - 24, "made-wrong", "MESSAGE-INTEGRITY under {:?} could not be made [set {}]", who, A::NAME);
                return Ok(());
            }
        };
        // the sender's own copy already verifies, under exactly the same credentials
        let mut want = gen::ref_encode(&s);
        let mac = refstun::mac_of(&want, &who.key());
        ensure!(mi.hmac_sha1() == mac, "made-wrong", "MESSAGE-INTEGRITY under {:?} is {} instead of {} [set {}]", who, hexs(&mi.hmac_sha1()), hexs(&mac), A::NAME);
        refstun::push_tlv(&mut want, refstun::MI, &mac, [0; 3]);
        let len = want.len() - 20;
        refstun::set_len(&mut want, len);
        for k in &all {
            verdict(cx, &who, k, &mi, "sender's own copy")?;
        }
        match A::of_mi(mi) {
            Some(a) => real(|| m.add_attribute(a)),
            None => return Ok(()),
        }
        if A::knows(refstun::FP) && cx.chance(30) {
            if let Ok(f) = real(|| Fingerprint::new(&m)) {
                if let Some(a) = A::of_fp(f) {
                    real(|| m.add_attribute(a));
                }
            }
        }
        let b = send_bytes(cx, &mut enc, m)?;
        cx.bytes_ev("protected", &b);
        if cx.chance(30) {
            // something else first: the receiver is long-lived
            let mut x = b.clone();
            corrupt(cx, &mut x);
            let _ = rx.take(cx, &x)?;
        }
        let got = rx.take(cx, &b)?;
        match &got {
            Some(Ok(m)) => {
                let mi = real(|| m.attributes().find_map(|a| a.as_mi().cloned()));
                match mi {
                    Some(mi) => {
                        for k in &all {
                            verdict(cx, &who, k, &mi, "receiver")?;
                        }
                    }
                    None => return viol("content", "MESSAGE-INTEGRITY is gone"),
                }
            }
            _ => return viol("genuine-refused", format!("an untouched message did not come out [set {}]: {}", A::NAME, hexs(&b))),
        }
        mi_judge::<A>(cx, &b, &got, &all)?;
        Ok(())
    })
}
/// HMAC-SHA1 keys: shorter than a block they are padded with zeros, longer ones hashed.
fn same_key(a: &[u8], b: &[u8]) -> bool {
    fn block(k: &[u8]) -> [u8; 64] {
        let mut o = [0; 64];
        if k.len() > 64 {
            o[..20].copy_from_slice(&crate::crypto::sha1(k));
        } else {
            o[..k.len()].copy_from_slice(k);
        }
        o
    }
    block(a) == block(b)
}
fn verdict(cx: &mut Cx, made: &Cred, tried: &Cred, mi: &MessageIntegrity, whose: &str) -> R {
    let want = same_key(&made.key(), &tried.key());
    match tried.check(mi) {
        None => Ok(()),
        Some(v) => {
            cx.ok();
            cx.probe(if want { "same_key" } else { "other_key" });
            ensure!(v.is_ok() == want, "credential", "made with {:?}, checked with {:?} ({}): {}", made, tried, whose, if v.is_ok() { "accepted" } else { "refused" });
            ensure!(v.is_ok() || v == Err(401), "error-code", "a failed check reports {:?}", v);
            Ok(())
        }
    }
}

/// 401 and 438: a client that learns realm and nonce, a server that forgets its nonces.
fn dialog(cx: &mut Cx) -> R {
    type A = Server;
    let user = gen::string(cx, 30, 200);
    let realm = gen::string(cx, 30, 127);
    let pass = gen::string(cx, 70, 300);
    let knows_pw = cx.chance(70);
    let client_pw = if knows_pw {
        pass.clone()
    } else {
        match near(cx, &Cred::Short(pass.clone())) {
            Cred::Short(p) => p,
            _ => String::new(),
        }
    };
    let (us, rs) = match (Username::new(user.clone()), Realm::new(realm.clone())) {
        (Ok(u), Ok(r)) => (u, r),
        _ => {
            ensure!(!Cred::Long(user.clone(), realm.clone(), String::new()).valid(), "made-wrong", "no user name or realm within the limits: {:?} {:?}", user, realm);
            return Ok(());
        }
    };
    let mut nonce = 1u64;
    let nv = |n: u64| format!("n{}", n);
    let (mut cenc, mut senc) = (MessageEncoder::<A>::new(), MessageEncoder::<A>::new());
    let (mut crx, mut srx) = (Rx::<A>::new(), Rx::<A>::new());
    let mut learned: Option<(String, String)> = None;
    let cfg = net::net_cfg(cx);
    let rounds = 2 + cx.us(10);
    for _ in 0..rounds {
        let tid = gen::tid(cx);
        let mut req = new_msg::<A>(0, 1, tid);
        let mut signed = false;
        if let Some((r, n)) = &learned {
            let (lr, ln) = match (Realm::new(r.clone()), Nonce::new(n.clone())) {
                (Ok(r), Ok(n)) => (r, n),
                _ => return viol("content", "realm or nonce from a challenge is not valid"),
            };
            req.add_attribute(us.clone());
            req.add_attribute(lr.clone());
            req.add_attribute(ln);
            match real(|| MessageIntegrity::new_long_term_credential(&req, &us, &lr, &client_pw)) {
                Ok(mi) => req.add_attribute(mi),
                Err(_) => return viol("refused", "MESSAGE-INTEGRITY of a small request"),
            }
            signed = true;
        }
        if cx.chance(50) {
            if let Ok(f) = real(|| Fingerprint::new(&req)) {
                req.add_attribute(f);
            }
        }
        let b = send_bytes(cx, &mut cenc, req)?;
        cx.bytes_ev("request", &b);
        if cx.chance(cfg.drop) {
            cx.fault("packet_lost");
            continue;
        }
        let mut d = b.clone();
        if cx.chance(cfg.corrupt) {
            corrupt(cx, &mut d);
        }
        if cx.chance(10) {
            cx.fault("server_crash");
            nonce += 1;
            senc = MessageEncoder::new();
            srx = Rx::new();
        }
        let got = srx.take(cx, &d)?;
        let creds = [Cred::Long(user.clone(), realm.clone(), pass.clone()), Cred::Long(user.clone(), realm.clone(), client_pw.clone())];
        mi_judge::<A>(cx, &d, &got, &creds)?;
        let m = match got {
            Some(Ok(m)) => m,
            _ => continue,
        };
        let mi = m.get_attribute::<MessageIntegrity>();
        let verified = mi.map(|mi| real(|| mi.check_long_term_credential(&us, &rs, &pass)));
        if d == b && signed {
            let same = same_key(&creds[0].key(), &creds[1].key());
            cx.ok();
            ensure!(
                verified.as_ref().map(|v| v.is_ok()) == Some(same),
                "credential",
                "client signs with {:?}, server checks with {:?}: {:?}",
                creds[1],
                creds[0],
                verified
            );
        }
        let mut resp = new_msg::<A>(3, 1, *m.transaction_id().as_bytes());
        let stale = m.get_attribute::<Nonce>().map_or(true, |n| n.value() != nv(nonce));
        let accepted = matches!(verified, Some(Ok(())));
        let code = match verified {
            Some(Ok(())) if !stale => {
                resp = new_msg::<A>(2, 1, *m.transaction_id().as_bytes());
                resp.add_attribute(XorMappedAddress::new(gen::addr(cx)));
                0
            }
            Some(Ok(())) => {
                resp.add_attribute(ErrorCode::from(rfc5389::errors::StaleNonce));
                438
            }
            Some(Err(e)) => {
                // the error the library returns is the one to answer with
                resp.add_attribute(e);
                401
            }
            None => {
                resp.add_attribute(ErrorCode::from(rfc5389::errors::Unauthorized));
                401
            }
        };
        if code != 0 {
            resp.add_attribute(rs.clone());
            resp.add_attribute(Nonce::new(nv(nonce)).unwrap());
        } else if accepted {
            match real(|| MessageIntegrity::new_long_term_credential(&resp, &us, &rs, &pass)) {
                Ok(mi) => resp.add_attribute(mi),
                Err(_) => return viol("refused", "MESSAGE-INTEGRITY of a small response"),
            }
        }
        let rb = send_bytes(cx, &mut senc, resp)?;
        cx.bytes_ev("response", &rb);
        if cx.chance(cfg.drop) {
            cx.fault("packet_lost");
            continue;
        }
        let got = crx.take(cx, &rb)?;
        mi_judge::<A>(cx, &rb, &got, &creds)?;
        let m = match got {
            Some(Ok(m)) => m,
            _ => return viol("genuine-refused", format!("an undamaged response did not come out: {}", hexs(&rb))),
        };
        let e = m.get_attribute::<ErrorCode>().map_or(0, |e| e.code());
        ensure!(e == code, "content", "server answers {}, client reads {}", code, e);
        if code != 0 {
            let r = m.get_attribute::<Realm>().map(|r| r.text().to_string());
            let n = m.get_attribute::<Nonce>().map(|n| n.value().to_string());
            ensure!(r.as_deref() == Some(&realm) && n.as_deref() == Some(&nv(nonce)), "content", "challenge with realm {:?} nonce {}, client reads {:?} {:?}", realm, nonce, r, n);
            learned = Some((r.unwrap(), n.unwrap()));
            cx.probe(if code == 401 { "dialog_401" } else { "dialog_438" });
        } else {
            cx.probe("dialog_success");
            let ok = m.get_attribute::<MessageIntegrity>().map(|mi| real(|| mi.check_long_term_credential(&us, &rs, &client_pw)).is_ok());
            ensure!(ok == Some(same_key(&creds[0].key(), &creds[1].key())), "credential", "response signed with {:?}, client checks with {:?}: {:?}", creds[0], creds[1], ok);
        }
    }
    let _ = (datagram::<A>, drive::MODES, AV { cp: 0, v: V::Flag }, Item::Cut);
    Ok(())
}
