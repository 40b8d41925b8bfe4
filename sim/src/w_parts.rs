//! The pieces a message codec is made of, each public, in the hands of a careless
//! program: constructors with any arguments, value codecs out of any order.

use crate::cx::{Cx, R};
use crate::gen;
use crate::guard::real;
use crate::refstun;
use crate::sets::{new_msg, ASet, AvConv, Full};
use crate::drive::{self, pace};
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, SizedEncode, TryTaggedDecode};
use std::fmt::Debug;
use std::time::Duration;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::{net, Attribute, AttributeType, MessageClass, Method, RawAttribute, TransactionId};

fn duration(cx: &mut Cx) -> Duration {
    let s = match cx.below(6) {
        0 => u64::MAX,
        1 => u64::MAX - cx.below(3),
        2 => 0xffff_ffff + cx.below(3) - 1,
        3 => cx.below(u64::MAX),
        4 => 1 << cx.below(64),
        _ => cx.below(1000),
    };
    let n = match cx.below(4) {
        0 => 0,
        1 => 1,
        2 => 999_999_999,
        _ => cx.below(1_000_000_000) as u32,
    };
    Duration::new(s, n)
}
fn any_u16(cx: &mut Cx) -> u16 {
    match cx.below(3) {
        0 => cx.below(0x1_0000) as u16,
        1 => *cx.pick(&[0u16, 1, 0x0fff, 0x1000, 0x3fff, 0x4000, 0x4fff, 0x5000, 0x7fff, 0x8000, 0xfffe, 0xffff]),
        _ => cx.below(1100) as u16,
    }
}
fn any_text(cx: &mut Cx) -> String {
    match cx.below(3) {
        0 => gen::string(cx, 130, 600),
        1 => gen::long_text(cx),
        _ => {
            let c = *cx.pick(&['a', '\u{e9}', '\u{20ac}', '\u{1F600}', '\0']);
            let n = cx.us(70_000);
            c.to_string().repeat(n)
        }
    }
}
/// Everything one can ask of a value.
fn use_up<T: Debug + Clone + PartialEq>(t: T) {
    let u = t.clone();
    let _ = (u == t, format!("{:?}", u).len());
}
/// Calls one constructor with any arguments, legal or not.
pub fn construct(cx: &mut Cx) {
    cx.probe("constructor");
    match cx.below(13) {
        0 => {
            let d = duration(cx);
            cx.ev("lifetime", d.as_secs(), d.subsec_nanos() as u64);
            real(|| {
                if let Ok(l) = Lifetime::new(d) {
                    let _ = l.lifetime();
                    use_up(l);
                }
                let l = Lifetime::from_u32(d.as_secs() as u32);
                let _ = l.lifetime();
                use_up(l);
            });
        }
        1 => {
            let m = any_u16(cx);
            cx.ev("method", m as u64, 0);
            real(|| {
                if let Ok(m) = Method::new(m) {
                    let _ = (m.as_u16(), m.to_string());
                    use_up(m);
                }
            });
        }
        2 => {
            let (c, t) = (any_u16(cx), any_text(cx));
            cx.ev("error_code", c as u64, t.len() as u64);
            real(|| {
                if let Ok(e) = ErrorCode::new(c, t) {
                    let _ = (e.code(), e.reason_phrase().len());
                    use_up(e);
                }
            });
        }
        3 => {
            let n = any_u16(cx);
            cx.ev("channel", n as u64, 0);
            real(|| {
                if let Ok(c) = ChannelNumber::new(n) {
                    let mut x = c;
                    for _ in 0..3 {
                        x = x.wrapping_increment();
                    }
                    let _ = x.value();
                    use_up(c);
                }
                let _ = (ChannelNumber::min().wrapping_increment(), ChannelNumber::max().wrapping_increment());
            });
        }
        4 => {
            let (which, t) = (cx.below(4), any_text(cx));
            let word = *cx.pick(&gen::WORDS);
            cx.ev("text", which, t.len() as u64);
            real(|| match which {
                0 => {
                    if let Ok(x) = Username::new(t) {
                        let _ = x.name().len();
                        use_up(x);
                    }
                }
                1 => {
                    if let Ok(x) = Realm::new(t) {
                        let _ = x.text().len();
                        use_up(x);
                    }
                }
                2 => {
                    if let Ok(x) = Nonce::new(t) {
                        let _ = x.value().len();
                        use_up(x);
                    }
                }
                _ => {
                    if let Ok(x) = Software::new(t) {
                        let _ = x.description().len();
                        use_up(x);
                    }
                    use_up(Software::new_static(word));
                }
            });
        }
        5 => {
            let n = *cx.pick(&[0usize, 1, 65_535, 65_536, 70_000, 300_000]);
            cx.ev("bytes", n as u64, 0);
            real(|| {
                if let Ok(x) = Data::new(vec![7; n]) {
                    let _ = x.data().len();
                    use_up(x);
                }
                if let Ok(x) = MobilityTicket::new(vec![7; n]) {
                    let _ = x.data().len();
                    use_up(x);
                }
                use_up(MobilityTicket::empty());
                let a = RawAttribute::new(AttributeType::new(n as u16), vec![7; n]);
                let _ = (a.value().len(), format!("{:?}", a.clone()).len(), a.get_type(), a.into_value());
            });
        }
        6 => {
            let (mut a, t) = (gen::addr(cx), TransactionId::new(gen::tid(cx)));
            if let std::net::SocketAddr::V6(x) = &mut a {
                if cx.chance(50) {
                    x.set_scope_id(cx.below(1 << 32) as u32);
                    x.set_flowinfo(cx.below(1 << 32) as u32);
                }
            }
            real(|| {
                let x = net::socket_addr_xor(a, t);
                let _ = net::socket_addr_xor(x, t);
                use_up(XorMappedAddress::new(a));
                use_up(MappedAddress::new(a));
                let _ = (t.as_bytes(), format!("{:?}", t));
            });
        }
        7 => {
            let n = *cx.pick(&[0usize, 1, 100, 32_767, 32_768, 40_000]);
            real(|| {
                let x = UnknownAttributes::new(vec![AttributeType::new(n as u16); n]);
                let _ = x.unknowns().len();
                use_up(x);
            });
        }
        8 => {
            let n = any_u16(cx);
            real(|| {
                let t = AttributeType::new(n);
                let _ = (t.as_u16(), t.is_comprehension_optional(), t.is_comprehension_required(), AttributeType::from(n) == t);
                use_up(t);
            });
        }
        9 => {
            let n = cx.below(u64::MAX);
            real(|| {
                use_up((Priority::new(n as u32), Priority::new(n as u32).prio()));
                use_up((IceControlled::new(n), IceControlling::new(n), ReservationToken::new(n)));
                use_up((RequestedTransport::new(n as u8), EvenPort::new(n & 1 == 1), ResponsePort::new(n as u16)));
                use_up((ChangeRequest::new(n & 1 == 1, n & 2 == 2), UseCandidate::new(), DontFragment));
            });
        }
        10 => real(|| {
            for f in [AddressFamily::V4, AddressFamily::V6] {
                use_up((RequestedAddressFamily::new(f), AdditionalAddressFamily::new(f)));
            }
            for c in [MessageClass::Request, MessageClass::Indication, MessageClass::SuccessResponse, MessageClass::ErrorResponse] {
                let _ = (c.to_string(), format!("{:?}", c));
            }
        }),
        11 => real(|| {
            use stun_codec::{rfc5245, rfc5389, rfc5766, rfc8016, rfc8656};
            use rfc5389::errors as e;
            use rfc5766::errors as t;
            let all: Vec<ErrorCode> = vec![
                e::TryAlternate.into(),
                e::BadRequest.into(),
                e::Unauthorized.into(),
                e::UnknownAttribute.into(),
                e::StaleNonce.into(),
                e::ServerError.into(),
                t::Forbidden.into(),
                t::AllocationMismatch.into(),
                t::WrongCredentials.into(),
                t::UnsupportedTransportProtocol.into(),
                t::AllocationQuotaReached.into(),
                t::InsufficientCapacity.into(),
                rfc5245::errors::RoleConflict.into(),
                rfc8016::errors::MobilityForbidden.into(),
                rfc8656::errors::AddressFamilyNotSupported.into(),
                rfc8656::errors::PeerAddressFamilyMismatch.into(),
            ];
            use_up(all);
        }),
        _ => {
            // digests of a message that cannot be sent
            let n = *cx.pick(&[0usize, 65_500, 65_527, 65_528, 65_532, 65_536, 100_000]);
            let pw = any_text(cx);
            cx.ev("digest", n as u64, pw.len() as u64);
            real(|| {
                let mut m = new_msg::<Full>(0, 1, [9; 12]);
                if let Ok(d) = Data::new(vec![1; n]) {
                    m.add_attribute(d);
                }
                let u = Username::new("u".into());
                let r = Realm::new("r".into());
                let mi = MessageIntegrity::new_short_term_credential(&m, &pw);
                if let Ok(mi) = &mi {
                    let _ = (mi.check_short_term_credential(&pw).is_ok(), mi.check_short_term_credential("").is_ok(), mi.hmac_sha1());
                    use_up(mi.clone());
                }
                if let (Ok(u), Ok(r)) = (u, r) {
                    if let Ok(mi) = MessageIntegrity::new_long_term_credential(&m, &u, &r, &pw) {
                        let _ = mi.check_long_term_credential(&u, &r, &pw).is_ok();
                    }
                }
                if let Ok(f) = Fingerprint::new(&m) {
                    let _ = f.crc32();
                    use_up(f);
                }
            });
        }
    }
}

fn eos(cx: &mut Cx) -> Eos {
    crate::w_stream::any_eos(cx)
}
/// A decoder without its message around it.
fn abuse_decoder<D: Decode>(cx: &mut Cx, d: &mut D, feed: &[u8]) -> R
where
    D::Item: Debug,
{
    let mut pos = 0;
    let steps = 1 + cx.us(8);
    for _ in 0..steps {
        match cx.weighted(&[5, 2, 2]) {
            0 => {
                let left = feed.len() - pos;
                let n = if cx.chance(50) { left } else { cx.us(left + 1) };
                let e = eos(cx);
                match real(|| d.decode(&feed[pos..pos + n], e)) {
                    Ok(k) => {
                        cx.ev("part_decode", n as u64, k as u64);
                        ensure!(k <= n, "overread", "{} consumed {} of {} bytes", std::any::type_name::<D>(), k, n);
                        ensure!(k > 0 || n == 0 || real(|| d.is_idle()), "stall", "an unfinished {} consumed nothing of {} bytes", std::any::type_name::<D>(), n);
                        pos += k;
                        if pos == feed.len() {
                            pos = 0;
                        }
                    }
                    Err(e) => {
                        cx.ev("part_decode_err", n as u64, 0);
                        real(|| {
                            let _ = format!("{} {:?}", e, e);
                        });
                    }
                }
            }
            1 => match real(|| d.finish_decoding()) {
                Ok(x) => real(|| {
                    let _ = format!("{:?}", x).len();
                }),
                Err(_) => cx.ev("part_finish_err", 0, 0),
            },
            _ => {
                let _ = real(|| (d.requiring_bytes(), d.is_idle()));
            }
        }
    }
    Ok(())
}
fn abuse_encoder<E: SizedEncode>(cx: &mut Cx, e: &mut E, items: &mut Vec<E::Item>) -> R {
    let steps = 1 + cx.us(8);
    for _ in 0..steps {
        match cx.weighted(&[3, 4, 2]) {
            0 => {
                if let Some(x) = items.pop() {
                    let was = real(|| e.is_idle());
                    cx.ev("part_start", was as u64, 0);
                    let _ = real(|| e.start_encoding(x));
                }
            }
            1 => {
                let room = *cx.pick(&[0usize, 1, 2, 3, 5, 8, 20, 100, 70_000]);
                let eo = eos(cx);
                let was = real(|| e.is_idle());
                let mut buf = vec![0; room];
                match real(|| e.encode(&mut buf, eo)) {
                    Ok(k) => {
                        cx.ev("part_encode", room as u64, k as u64);
                        ensure!(k <= room, "overwrite", "{} wrote {} into {} bytes", std::any::type_name::<E>(), k, room);
                        ensure!(was || room == 0 || k > 0 || real(|| e.is_idle()), "stall", "a busy {} wrote nothing into {} bytes", std::any::type_name::<E>(), room);
                    }
                    Err(_) => cx.ev("part_encode_err", room as u64, 0),
                }
            }
            _ => {
                let _ = real(|| (e.requiring_bytes(), e.exact_requiring_bytes(), e.is_idle()));
            }
        }
    }
    Ok(())
}
fn feed(cx: &mut Cx, cp: Option<u16>) -> Vec<u8> {
    match cp {
        Some(cp) if refstun::kind_of(cp).is_some() && cp != refstun::MI && cp != refstun::FP => {
            let a = gen::av(cx, cp);
            let mut v = refstun::value_bytes(&a, &[3; 12]);
            if cx.chance(40) {
                gen::add_noise(cx, cp, &mut v);
            }
            if cx.chance(50) {
                gen::spoil(cx, cp, &mut v);
            }
            if cx.chance(30) {
                let w = v.clone();
                v.extend(w);
            }
            v
        }
        _ => {
            let n = cx.us(60);
            let mut v = cx.blob(n);
            if v.len() > 2 && cx.chance(70) {
                v[0] = 0;
                v[1] = *cx.pick(&[1u8, 2, 0, 3]);
            }
            v
        }
    }
}
/// Codecs of an attribute type, started for it, for another type, or not at all.
fn abuse_attr<T: Attribute + Debug>(cx: &mut Cx, cps: &[u16], mut make: impl FnMut(&mut Cx, u16) -> Option<T>) -> R {
    let mut d = T::Decoder::default();
    let mut e = T::Encoder::default();
    let rounds = 1 + cx.us(4);
    for _ in 0..rounds {
        let cp = if cps.is_empty() { gen::unknown_cp(cx) } else { *cx.pick(cps) };
        if cx.chance(75) {
            let tag = if cx.chance(85) { cp } else { gen::unknown_cp(cx) };
            let r = real(|| d.try_start_decoding(AttributeType::new(tag)));
            cx.ev("part_tag", tag as u64, r.map_or(2, |x| x as u64));
        }
        let v = feed(cx, Some(cp));
        cx.bytes_ev("part_feed", &v);
        abuse_decoder(cx, &mut d, &v)?;
        let mut items: Vec<T> = Vec::new();
        for _ in 0..2 {
            if let Some(mut x) = make(cx, cp) {
                if cx.chance(30) {
                    // hooks called by hand
                    real(|| {
                        let m = new_msg::<Full>(1, 1, [2; 12]);
                        let _ = (x.before_encode(&m).is_ok(), x.after_decode(&m).is_ok());
                        let _ = format!("{:?} {:?}", x, x.get_type());
                    });
                }
                items.push(x);
            }
        }
        abuse_encoder(cx, &mut e, &mut items)?;
    }
    Ok(())
}
/// Reads values through one long-lived decoder in pieces; the bytes given whole to a
/// new decoder are the reference.
fn read_pieces<T: Attribute + Debug>(cx: &mut Cx, cps: &[u16], _: impl FnMut(&mut Cx, u16) -> Option<T>) -> R {
    let what = std::any::type_name::<T>();
    let mut d = T::Decoder::default();
    let rounds = 1 + cx.us(4);
    for _ in 0..rounds {
        let cp = if cps.is_empty() { gen::unknown_cp(cx) } else { *cx.pick(cps) };
        let v = feed(cx, Some(cp));
        cx.bytes_ev("value", &v);
        let t = AttributeType::new(cp);
        // whole
        let mut r = T::Decoder::default();
        let mut taken = v.len();
        let want = real(|| {
            if !r.try_start_decoding(t)? {
                return Ok(None);
            }
            taken = r.decode(&v, Eos::new(true))?;
            r.finish_decoding().map(Some)
        });
        let want = match want {
            Ok(None) => continue,
            Ok(Some(x)) => Some(real(|| format!("{:?}", x))),
            Err::<_, bytecodec::Error>(_) => None,
        };
        // in pieces
        let p = pace(cx);
        let told = cx.chance(70);
        match real(|| d.try_start_decoding(t)) {
            Ok(true) => {}
            x => return crate::cx::viol("value-refused", format!("{}: a used decoder answers {:?} to the type 0x{:04x}", what, x.map_err(|e| e.kind().clone()), cp)),
        }
        let mut pos = 0;
        let mut steps = 0;
        let got = loop {
            steps += 1;
            ensure!(steps < 5000 + 4 * v.len(), "stall", "{} makes no progress", what);
            let (idle, need) = real(|| (d.is_idle(), d.requiring_bytes()));
            let lack = taken.saturating_sub(pos) as u64;
            if want.is_some() && lack > 0 {
                if let ByteCount::Finite(n) = need {
                    ensure!(n <= lack, "value-demand", "{} asks for {} bytes while {} are lacking", what, n, lack);
                    ensure!(n > 0, "value-demand", "{} asks for nothing while {} bytes are lacking", what, lack);
                }
                cx.ok();
            }
            if idle && steps > 1 {
                break Ok(());
            }
            let n = drive::chunk(cx, &p, v.len() - pos);
            let last = pos + n == v.len();
            let e = if last {
                Eos::new(true)
            } else if told {
                Eos::with_remaining_bytes(ByteCount::Finite((v.len() - pos - n) as u64))
            } else {
                Eos::new(false)
            };
            match real(|| d.decode(&v[pos..pos + n], e)) {
                Ok(k) => {
                    cx.ev("value_decode", n as u64, k as u64);
                    ensure!(k <= n, "overread", "{} consumed {} of {} bytes", what, k, n);
                    pos += k;
                    if last && pos == v.len() {
                        break Ok(());
                    }
                }
                Err(e) => break Err(e),
            }
        };
        let got = match got {
            Ok(()) => real(|| d.finish_decoding()),
            Err(e) => Err(e),
        };
        let good = got.is_ok();
        let got = got.ok().map(|x| real(|| format!("{:?}", x)));
        cx.ok();
        ensure!(got == want, "value-segmentation", "{} given whole is {}, given in pieces {}", what, want.as_deref().unwrap_or("refused"), got.as_deref().unwrap_or("refused"));
        ensure!(!good || pos == taken, "value-segmentation", "{} given whole took {} bytes, given in pieces {}", what, taken, pos);
        if !good {
            d = T::Decoder::default();
        }
    }
    Ok(())
}
/// Writes values through one long-lived encoder into room of any sizes; a new encoder
/// with all the room it needs is the reference.
fn write_pieces<T: Attribute + Debug>(cx: &mut Cx, cps: &[u16], mut make: impl FnMut(&mut Cx, u16) -> Option<T>) -> R {
    let what = std::any::type_name::<T>();
    let mut e = T::Encoder::default();
    let rounds = 1 + cx.us(4);
    for _ in 0..rounds {
        let cp = if cps.is_empty() { gen::unknown_cp(cx) } else { *cx.pick(cps) };
        if let Some(x) = make(cx, cp) {
            write_one(cx, what, &mut e, x)?;
        }
    }
    Ok(())
}
fn write_one<E: SizedEncode + Default>(cx: &mut Cx, what: &str, e: &mut E, x: E::Item) -> R
where
    E::Item: Clone,
{
    let want = match real(|| E::default().encode_into_bytes(x.clone())) {
        Ok(b) => b,
        Err(_) => return Ok(()),
    };
    cx.bytes_ev("value", &want);
    ensure!(real(|| e.is_idle() && e.exact_requiring_bytes() == 0), "value-size", "{} is busy between two values", what);
    if let Err(x) = real(|| e.start_encoding(x)) {
        return crate::cx::viol("value-refused", format!("{}: a used encoder refuses a value that a new one encodes: {:?}", what, x.kind()));
    }
    let p = pace(cx);
    let early = cx.chance(6);
    let mut out: Vec<u8> = Vec::new();
    let mut steps = 0;
    loop {
        steps += 1;
        ensure!(steps < 5000 + 4 * want.len(), "stall", "{} makes no progress", what);
        let left = want.len() - out.len();
        let (n, q, idle) = real(|| (e.exact_requiring_bytes(), e.requiring_bytes(), e.is_idle()));
        ensure!(n == left as u64, "value-size", "{} announces {} bytes after {} of {}", what, n, out.len(), want.len());
        ensure!(q == ByteCount::Finite(n), "value-size", "{} announces exactly {} and {:?}", what, n, q);
        ensure!(!idle || left == 0, "value-size", "{} is finished after {} of {} bytes", what, out.len(), want.len());
        cx.ok();
        if idle {
            break;
        }
        let spare = if cx.chance(20) { cx.us(9) } else { 0 };
        let room = if left == 0 { cx.us(3) } else { drive::chunk(cx, &p, left + spare) };
        let end = early && room < left && cx.chance(30);
        let mut buf = vec![0x5a; room];
        let r = real(|| e.encode(&mut buf, Eos::new(end)));
        if end {
            cx.fault("early_eos");
            ensure!(r.is_err(), "value-truncated", "{} accepts the end of the output with {} bytes to come", what, left);
            *e = E::default();
            return Ok(());
        }
        match r {
            Ok(k) => {
                cx.ev("value_encode", room as u64, k as u64);
                ensure!(k <= room && k <= left, "value-bytes", "{} wrote {} bytes into room for {} with {} to come", what, k, room, left);
                ensure!(k == room.min(left), "stall", "{} wrote {} bytes into room for {} with {} to come", what, k, room, left);
                ensure!(buf[k..].iter().all(|b| *b == 0x5a), "value-bytes", "{} wrote behind what it announced", what);
                out.extend_from_slice(&buf[..k]);
                ensure!(want.starts_with(&out), "value-bytes", "{} in pieces gives other bytes than at once", what);
            }
            Err(x) => return crate::cx::viol("value-failed", format!("{} failed after {} of {} bytes: {:?}", what, out.len(), want.len(), x.kind())),
        }
    }
    Ok(())
}
macro_rules! one {
    ($f:ident, $cx:expr, $i:expr, $($n:literal => $t:ident),*) => {
        match $i {
            $($n => $f::<$t>($cx, &[$t::CODEPOINT], |cx, cp| {
                if cp == refstun::MI || cp == refstun::FP {
                    return None;
                }
                let a = gen::av(cx, cp);
                real(|| <$t as AvConv>::of_v(&a.v))
            }),)*
            _ => $f::<RawAttribute>($cx, &[], |cx, cp| {
                let n = cx.us(20);
                Some(RawAttribute::new(AttributeType::new(cp), cx.blob(n)))
            }),
        }
    };
}
macro_rules! any {
    ($f:ident, $cx:expr) => {
        {
            let i = $cx.us(32);
            one!($f, $cx, i,
                0 => MappedAddress, 1 => XorMappedAddress, 2 => XorMappedAddress2, 3 => AlternateServer, 4 => XorPeerAddress,
                5 => XorRelayAddress, 6 => ResponseOrigin, 7 => OtherAddress, 8 => Username, 9 => Realm, 10 => Nonce, 11 => Software,
                12 => ErrorCode, 13 => UnknownAttributes, 14 => ChannelNumber, 15 => Lifetime, 16 => Data, 17 => MobilityTicket,
                18 => EvenPort, 19 => RequestedTransport, 20 => DontFragment, 21 => UseCandidate, 22 => ReservationToken,
                23 => Priority, 24 => IceControlled, 25 => IceControlling, 26 => ChangeRequest, 27 => ResponsePort,
                28 => RequestedAddressFamily, 29 => AdditionalAddressFamily, 30 => MessageIntegrity, 31 => Fingerprint
            )
        }
    };
}
/// The types of a set that is not the simulation's own code.
fn own<A: ASet>(cx: &mut Cx) -> Option<Vec<u16>> {
    let all = A::NAME != "hand" && A::NAME != "mixed" && cx.chance(40);
    all.then(|| refstun::TABLE.iter().map(|t| t.0).filter(|c| A::knows(*c)).collect::<Vec<u16>>()).filter(|v| !v.is_empty())
}
fn made<A: ASet>(cx: &mut Cx, cp: u16) -> Option<A> {
    if refstun::kind_of(cp).is_none() || cp == refstun::MI || cp == refstun::FP {
        return None;
    }
    let a = gen::av(cx, cp);
    real(|| A::of_av(&a))
}
/// Value decoders on their own, as an attribute made by a user would use them.
pub fn read_values<A: ASet>(cx: &mut Cx) -> R {
    cx.probe("value_decoder_in_pieces");
    match own::<A>(cx) {
        Some(cps) => read_pieces::<A>(cx, &cps, made::<A>),
        None => any!(read_pieces, cx),
    }
}
/// Value encoders on their own.
pub fn write_values<A: ASet>(cx: &mut Cx) -> R {
    cx.probe("value_encoder_in_pieces");
    match own::<A>(cx) {
        Some(cps) => write_pieces::<A>(cx, &cps, made::<A>),
        None if cx.chance(8) => {
            let mut e = net::SocketAddrEncoder::new();
            for _ in 0..3 {
                let a = gen::addr(cx);
                write_one(cx, "SocketAddrEncoder", &mut e, a)?;
            }
            Ok(())
        }
        None => any!(write_pieces, cx),
    }
}
/// One public value codec, or one of the set's own.
pub fn abuse<A: ASet>(cx: &mut Cx) -> R {
    cx.probe("value_codec_by_hand");
    match cx.weighted(&[6, 3, 1, 1]) {
        0 => {
            any!(abuse_attr, cx)
        }
        // the hand-made sets are the simulation's own code
        1 if A::NAME != "hand" && A::NAME != "mixed" => {
            let cps: Vec<u16> = refstun::TABLE.iter().map(|t| t.0).filter(|c| A::knows(*c)).collect();
            abuse_attr::<A>(cx, &cps, |cx, cp| {
                if refstun::kind_of(cp).is_none() || cp == refstun::MI || cp == refstun::FP {
                    return None;
                }
                let a = gen::av(cx, cp);
                real(|| A::of_av(&a))
            })
        }
        2 => {
            let mut d = net::SocketAddrDecoder::new();
            for _ in 0..3 {
                let v = feed(cx, Some(refstun::TABLE[0].0));
                cx.bytes_ev("part_feed", &v);
                abuse_decoder(cx, &mut d, &v)?;
            }
            Ok(())
        }
        3 | 1 => {
            let mut e = net::SocketAddrEncoder::new();
            for _ in 0..3 {
                let mut items = vec![gen::addr(cx), gen::addr(cx)];
                abuse_encoder(cx, &mut e, &mut items)?;
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
