//! Attribute code that panics, and the conservation of attribute values: whatever
//! becomes of a message, each value it held is dropped once, never twice.

use crate::cx::{viol, Cx, R};
use crate::drive;
use crate::guard::real;
use crate::refstun;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, Eos, ErrorKind, SizedEncode, TryTaggedDecode};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use stun_codec::rfc5389::attributes::{Fingerprint, Software};
use stun_codec::{define_attribute_enums, Attribute, AttributeType, Message, MessageDecoder, MessageEncoder};

/// What the program's code does when it is called for the n-th time from now.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act {
    Fail,
    Panic,
}
#[derive(Default)]
struct Hold {
    live: BTreeSet<u64>,
    next: u64,
    twice: u64,
    calls: u64,
    at: Option<(u64, Act)>,
    fired: bool,
}
thread_local! {
    static HOLD: RefCell<Hold> = RefCell::new(Hold::default());
}
fn hold<T>(f: impl FnOnce(&mut Hold) -> T) -> T {
    HOLD.with(|h| f(&mut h.borrow_mut()))
}
struct Boom;
/// A call of the program's code.
fn user() -> bytecodec::Result<()> {
    let act = hold(|h| {
        h.calls += 1;
        match h.at {
            Some((n, a)) if n == h.calls => {
                h.fired = true;
                Some(a)
            }
            _ => None,
        }
    });
    match act {
        None => Ok(()),
        Some(Act::Fail) => Err(ErrorKind::Other.into()),
        Some(Act::Panic) => resume_unwind(Box::new(Boom)),
    }
}
/// A value of the program's; the bytes live in a table, so that a second drop of the
/// same value is seen and harms nothing.
#[derive(Debug)]
pub struct Fuse<const N: u16> {
    id: u64,
    size: u8,
}
impl<const N: u16> Fuse<N> {
    pub const CODEPOINT: u16 = N;
    fn new(size: u8) -> Self {
        let id = hold(|h| {
            h.next += 1;
            h.live.insert(h.next);
            h.next
        });
        Fuse { id, size }
    }
}
impl<const N: u16> Drop for Fuse<N> {
    fn drop(&mut self) {
        hold(|h| {
            if !h.live.remove(&self.id) {
                h.twice += 1;
            }
        });
    }
}
impl<const N: u16> Clone for Fuse<N> {
    fn clone(&self) -> Self {
        Fuse::new(self.size)
    }
}
impl<const N: u16> PartialEq for Fuse<N> {
    fn eq(&self, o: &Self) -> bool {
        self.size == o.size
    }
}
impl<const N: u16> Eq for Fuse<N> {}
impl<const N: u16> std::hash::Hash for Fuse<N> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.size.hash(h)
    }
}
impl<const N: u16> Attribute for Fuse<N> {
    type Decoder = FuseDecoder<N>;
    type Encoder = FuseEncoder<N>;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(N)
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        if self.size & 1 == 1 {
            drop(m.clone());
        }
        user()
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        if self.size & 1 == 1 {
            drop(m.clone());
        }
        user()
    }
}
#[derive(Debug, Default)]
pub struct FuseDecoder<const N: u16>(RemainingBytesDecoder);
impl<const N: u16> Decode for FuseDecoder<N> {
    type Item = Fuse<N>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        if !buf.is_empty() {
            user()?;
        }
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Fuse<N>> {
        let v = self.0.finish_decoding()?;
        let f = Fuse::new(v.len() as u8);
        user()?;
        Ok(f)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u16> TryTaggedDecode for FuseDecoder<N> {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, tag: AttributeType) -> bytecodec::Result<bool> {
        Ok(tag.as_u16() == N)
    }
}
#[derive(Debug, Default)]
pub struct FuseEncoder<const N: u16>(BytesEncoder<Vec<u8>>, Option<Fuse<N>>);
impl<const N: u16> Encode for FuseEncoder<N> {
    type Item = Fuse<N>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        let n = self.0.encode(buf, eos)?;
        if self.0.is_idle() {
            self.1 = None;
        }
        Ok(n)
    }
    fn start_encoding(&mut self, item: Fuse<N>) -> bytecodec::Result<()> {
        user()?;
        self.0.start_encoding(vec![0x41; item.size as usize])?;
        self.1 = Some(item);
        Ok(())
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u16> SizedEncode for FuseEncoder<N> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}
type One = Fuse<0x7f31>;
type Two = Fuse<0xff32>;
define_attribute_enums!(Fuses, FusesDecoder, FusesEncoder, [One, Two, Software, Fingerprint]);

/// None: the program's code panicked in there.
fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(|| real(f))) {
        Ok(t) => Some(t),
        Err(e) if e.is::<Boom>() => None,
        Err(e) => resume_unwind(e),
    }
}
fn arm(cx: &mut Cx, within: u64) {
    let at = if cx.chance(60) {
        let n = 1 + cx.below(within.max(1));
        Some((n, if cx.chance(60) { Act::Panic } else { Act::Fail }))
    } else {
        None
    };
    hold(|h| {
        h.calls = 0;
        h.fired = false;
        h.at = at;
    });
}
fn fired(cx: &mut Cx) {
    if hold(|h| h.fired) {
        cx.fault("attribute_code_gives_up");
    }
    hold(|h| h.at = None);
}
fn sum(cx: &mut Cx, leak_ok: bool, when: &str) -> R {
    let (twice, live) = hold(|h| (h.twice, h.live.len()));
    cx.checks += 1;
    if twice > 0 {
        return viol("dropped-twice", format!("{}: {} attribute values were dropped that had been dropped before", when, twice));
    }
    if live > 0 && !leak_ok {
        return viol("never-dropped", format!("{}: {} attribute values were never dropped", when, live));
    }
    Ok(())
}
fn message(cx: &mut Cx) -> Message<Fuses> {
    let class = *cx.pick(&[stun_codec::MessageClass::Request, stun_codec::MessageClass::Indication, stun_codec::MessageClass::SuccessResponse, stun_codec::MessageClass::ErrorResponse]);
    let tid: [u8; 12] = cx.blob(12).try_into().unwrap();
    let mut m = Message::<Fuses>::new(class, stun_codec::rfc5389::methods::BINDING, stun_codec::TransactionId::new(tid));
    for _ in 0..1 + cx.us(8) {
        let n = cx.below(20) as u8;
        match cx.below(7) {
            0..=2 => m.add_attribute(One::new(n)),
            3 | 4 => m.add_attribute(Two::new(n)),
            5 => m.add_attribute(Software::new("x".repeat(n as usize)).unwrap()),
            _ => {
                if let Some(Ok(f)) = caught(|| Fingerprint::new(&m)) {
                    m.add_attribute(f)
                }
            }
        }
    }
    m
}
fn wire(cx: &mut Cx) -> Vec<u8> {
    let tid: [u8; 12] = cx.blob(12).try_into().unwrap();
    let mut b = refstun::header(1, 1, 0, &tid);
    for _ in 0..1 + cx.us(8) {
        let n = cx.us(20);
        let cp = *cx.pick(&[0x7f31u16, 0xff32, 0x7f31, 0xff32, refstun::SOFTWARE, 0xc0de, 0x0033, refstun::FP]);
        let v = if cp == refstun::FP {
            let len = (b.len() - 20 + 8) as u16;
            refstun::set_len(&mut b, len as usize);
            (refstun::fingerprint_of(&b) ^ (cx.chance(20) as u32)).to_be_bytes().to_vec()
        } else {
            vec![0x41; n]
        };
        refstun::push_tlv(&mut b, cp, &v, [cx.chance(10) as u8; 3]);
    }
    if cx.chance(15) {
        // one that lies about its last attribute
        refstun::push_tlv(&mut b, 0x7f31, &[1, 2, 3, 4], [0; 3]);
        let at = b.len() - 5;
        b[at] = 9;
    }
    let len = b.len() - 20;
    refstun::set_len(&mut b, len);
    b
}
/// Codecs that never saw the panic go on as ever.
fn elsewhere(cx: &mut Cx, dec: &mut MessageDecoder<Fuses>, enc: &mut MessageEncoder<Fuses>) -> R {
    let tid: [u8; 12] = cx.blob(12).try_into().unwrap();
    let mut b = refstun::header(0, 1, 0, &tid);
    refstun::push_tlv(&mut b, 0x7f31, &[0x41; 5], [0; 3]);
    refstun::set_len(&mut b, 12);
    let len = b.len() - 20 + 8;
    refstun::set_len(&mut b, len);
    let crc = refstun::fingerprint_of(&b);
    refstun::push_tlv(&mut b, refstun::FP, &crc.to_be_bytes(), [0; 3]);
    cx.checks += 1;
    let m = match real(|| dec.decode_from_bytes(&b)) {
        Ok(Ok(m)) => m,
        o => return viol("disturbed", format!("another decoder gives {:?} for an intact message after attribute code had panicked", o.map(|x| x.map(|_| ())))),
    };
    let out = real(|| bytecodec::EncodeExt::encode_into_bytes(enc, m));
    match out {
        Ok(o) if o == b => Ok(()),
        o => viol("disturbed", format!("another encoder gives {:?} for {:?} after attribute code had panicked", o, b)),
    }
}

pub fn panicking(cx: &mut Cx) -> R {
    HOLD.with(|h| *h.borrow_mut() = Hold::default());
    let mut other = (MessageDecoder::<Fuses>::new(), MessageEncoder::<Fuses>::new());
    let mut leak_ok = false;
    let mut enc = MessageEncoder::<Fuses>::new();
    let mut dec = MessageDecoder::<Fuses>::new();
    let n = 1 + cx.us(5);
    for _ in 0..n {
        let mut boom = false;
        if cx.chance(50) {
            let m = message(cx);
            let copy = if cx.chance(30) { Some(m.clone()) } else { None };
            let k = 2 * (m.attributes().count() as u64 + 1);
            arm(cx, k);
            cx.ev("send", k, 0);
            match caught(|| enc.start_encoding(m)) {
                None => boom = true,
                Some(Err(_)) => {
                    if !hold(|h| h.fired) {
                        return viol("refused", "a message was refused although none of its attributes objected".to_string());
                    }
                    // whether an encoder takes up again after attribute code refused
                    // is another world's question
                    enc = MessageEncoder::new();
                }
                Some(Ok(())) => {
                    let mut buf = vec![0u8; 1 + cx.us(40)];
                    let mut stop = false;
                    while !stop && !real(|| enc.is_idle()) {
                        if cx.chance(3) {
                            cx.fault("given_up");
                            enc = MessageEncoder::new();
                            break;
                        }
                        match caught(|| enc.encode(&mut buf, Eos::new(false))) {
                            None => {
                                boom = true;
                                stop = true;
                            }
                            Some(Err(_)) => {
                                if !hold(|h| h.fired) {
                                    return viol("refused", "the encoder gave up although none of the attributes objected".to_string());
                                }
                                enc = MessageEncoder::new();
                                stop = true;
                            }
                            Some(Ok(n)) => cx.ev("out", n as u64, 0),
                        }
                    }
                }
            }
            drop(copy);
            if boom {
                enc = MessageEncoder::new();
            }
        } else {
            let b = wire(cx);
            arm(cx, 24);
            cx.bytes_ev("receive", &b);
            let p = drive::pace(cx);
            let mut pos = 0;
            let mut broken = false;
            while pos < b.len() {
                let n = drive::chunk(cx, &p, b.len() - pos);
                let eos = pos + n == b.len();
                match caught(|| dec.decode(&b[pos..pos + n], Eos::new(eos))) {
                    None => {
                        boom = true;
                        break;
                    }
                    Some(Err(_)) => {
                        broken = true;
                        break;
                    }
                    Some(Ok(s)) => pos += s,
                }
                if cx.chance(2) {
                    cx.fault("given_up");
                    broken = true;
                    break;
                }
            }
            if !boom && !broken {
                match caught(|| dec.finish_decoding()) {
                    None => boom = true,
                    Some(Ok(Ok(m))) => {
                        if cx.chance(40) {
                            arm(cx, 20);
                            match caught(|| bytecodec::EncodeExt::encode_into_bytes(&mut other.1, m)) {
                                None => {
                                    boom = true;
                                    other.1 = MessageEncoder::new();
                                }
                                Some(Err(_)) => other.1 = MessageEncoder::new(),
                                Some(Ok(_)) => {}
                            }
                        }
                    }
                    Some(_) => {}
                }
            }
            if boom || broken {
                dec = MessageDecoder::new();
            }
        }
        fired(cx);
        leak_ok |= boom;
        sum(cx, true, "between messages")?;
        if boom {
            elsewhere(cx, &mut other.0, &mut other.1)?;
            elsewhere(cx, &mut dec, &mut enc)?;
        }
    }
    real(|| {
        drop(enc);
        drop(dec);
        drop(other);
    });
    sum(cx, leak_ok, "after everything was dropped")
}

// ---- attributes whose type is decided late ----

/// An attribute of a whole range of types; its code may change which one it is.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Late {
    cp: u16,
    value: Vec<u8>,
}
thread_local! {
    /// the types in front of each attribute, as its code was shown them
    static SEEN: RefCell<Vec<(u16, Vec<u16>)>> = const { RefCell::new(Vec::new()) };
}
impl Late {
    fn turn(&mut self) {
        if let Some(b) = self.value.first() {
            self.cp ^= *b as u16 & 0x80ff;
            if b & 1 == 1 {
                self.cp ^= 0x8000;
            }
        }
    }
    fn see<A: Attribute>(&self, m: &Message<A>) {
        let before = m.attributes().map(|a| a.get_type().as_u16()).collect();
        SEEN.with(|s| s.borrow_mut().push((self.cp, before)));
    }
}
fn late(cp: u16) -> bool {
    cp & 0x7f00 == 0x7d00
}
impl Attribute for Late {
    type Decoder = LateDecoder;
    type Encoder = LateEncoder;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(self.cp)
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        self.see(m);
        self.turn();
        Ok(())
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        self.see(m);
        self.turn();
        Ok(())
    }
}
#[derive(Debug, Default)]
pub struct LateDecoder(RemainingBytesDecoder, Option<u16>);
impl Decode for LateDecoder {
    type Item = Late;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Late> {
        let cp = self.1.take().ok_or(ErrorKind::InconsistentState)?;
        Ok(Late { cp, value: self.0.finish_decoding()? })
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl TryTaggedDecode for LateDecoder {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, tag: AttributeType) -> bytecodec::Result<bool> {
        let ours = late(tag.as_u16());
        if ours {
            self.1 = Some(tag.as_u16());
        }
        Ok(ours)
    }
}
#[derive(Debug, Default)]
pub struct LateEncoder(BytesEncoder<Vec<u8>>);
impl Encode for LateEncoder {
    type Item = Late;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: Late) -> bytecodec::Result<()> {
        self.0.start_encoding(item.value)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl SizedEncode for LateEncoder {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}
fn a_late(cx: &mut Cx) -> Late {
    let n = match cx.weighted(&[8, 1]) {
        0 => cx.us(9),
        _ => cx.us(300),
    };
    let mut value = cx.blob(n);
    if let Some(b) = value.first_mut() {
        *b &= *cx.pick(&[0xffu8, 0x0f, 0x03, 0x00]);
    }
    Late { cp: 0x7d00 | cx.below(256) as u16 | (cx.below(2) as u16) << 15, value }
}
fn put_in(b: &[u8], cx: &mut Cx, dec: &mut MessageDecoder<Late>) -> R<Message<Late>> {
    let p = drive::pace(cx);
    let mut pos = 0;
    while pos < b.len() {
        let n = drive::chunk(cx, &p, b.len() - pos);
        match real(|| dec.decode(&b[pos..pos + n], Eos::new(pos + n == b.len()))) {
            Ok(s) => pos += s,
            Err(e) => return viol("late-type", format!("rejected an intact message: {:?}", e.kind())),
        }
    }
    match real(|| dec.finish_decoding()) {
        Ok(Ok(m)) => Ok(m),
        o => viol("late-type", format!("an intact message comes out as {:?}", o.map(|r| r.map(|_| ())).map_err(|e| *e.kind()))),
    }
}
fn got_calls(cx: &mut Cx, want: &[(u16, Vec<u16>)], when: &str) -> R {
    let got = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
    cx.checks += 1;
    if got != want {
        return viol("late-type", format!("{}: the attributes' code saw {:x?}, expected {:x?}", when, got, want));
    }
    Ok(())
}
/// The type an attribute has when it has been prepared is the one that is sent, and
/// the one it has when it has been checked is the one that is read.
pub fn late_types(cx: &mut Cx) -> R {
    SEEN.with(|s| s.borrow_mut().clear());
    let (mut enc, mut dec) = (MessageEncoder::<Late>::new(), MessageDecoder::<Late>::new());
    let n = 1 + cx.us(4);
    for _ in 0..n {
        // sent
        let tid: [u8; 12] = cx.blob(12).try_into().unwrap();
        let mut m = Message::<Late>::new(stun_codec::MessageClass::Request, stun_codec::rfc5389::methods::BINDING, stun_codec::TransactionId::new(tid));
        let mut want = refstun::header(0, 1, 0, &tid);
        let mut calls = Vec::new();
        let mut types: Vec<u16> = Vec::new();
        let mut first = Vec::new();
        let k = cx.us(7);
        for _ in 0..k {
            let a = a_late(cx);
            calls.push((a.cp, types.clone()));
            let mut b = a.clone();
            b.turn();
            types.push(b.cp);
            refstun::push_tlv(&mut want, b.cp, &b.value, [0; 3]);
            first.push(a.clone());
            m.add_attribute(a);
        }
        let len = want.len() - 20;
        refstun::set_len(&mut want, len);
        let mut out = Vec::new();
        if let Err(e) = real(|| enc.start_encoding(m)) {
            return viol("late-type", format!("refused: {:?}", e.kind()));
        }
        let mut buf = vec![0u8; 1 + cx.us(60)];
        while !real(|| enc.is_idle()) {
            match real(|| enc.encode(&mut buf, Eos::new(false))) {
                Ok(n) if n > 0 => out.extend(&buf[..n]),
                o => return viol("late-type", format!("encode: {:?}", o.map_err(|e| *e.kind()))),
            }
        }
        got_calls(cx, &calls, "before sending")?;
        cx.checks += 1;
        if out != want {
            return viol("late-type", format!("sent {}\nexpected {}", crate::cx::hexs(&out), crate::cx::hexs(&want)));
        }
        // received, with attributes of others in between and odd padding
        let mut wire = refstun::header(0, 1, 0, &tid);
        let mut calls = Vec::new();
        let mut types: Vec<u16> = Vec::new();
        let mut read = Vec::new();
        let mut back = Vec::new();
        let mut others = Vec::new();
        for a in &first {
            if cx.chance(20) {
                let n = cx.us(5);
                let v = cx.blob(n);
                let cp = *cx.pick(&[0x7c00u16, 0xfe01, 0x8028, 0x0008]);
                refstun::push_tlv(&mut wire, cp, &v, [9; 3]);
                others.push((cp, v));
            }
            refstun::push_tlv(&mut wire, a.cp, &a.value, [cx.below(2) as u8; 3]);
            calls.push((a.cp, types.clone()));
            let mut b = a.clone();
            b.turn();
            back.push((b.cp, types.clone()));
            types.push(b.cp);
            read.push(b);
        }
        let len = wire.len() - 20;
        refstun::set_len(&mut wire, len);
        cx.bytes_ev("receive", &wire);
        let m = put_in(&wire, cx, &mut dec)?;
        got_calls(cx, &calls, "after receiving")?;
        let got: Vec<Late> = m.attributes().cloned().collect();
        let unknown: Vec<(u16, Vec<u8>)> = m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect();
        cx.checks += 2;
        if got != read || unknown != others {
            return viol("late-type", format!("read {:x?} and {:x?}, expected {:x?} and {:x?}", got, unknown, read, others));
        }
        // and passed on: prepared again, in the light of what is prepared by then
        let again = real(|| bytecodec::EncodeExt::encode_into_bytes(&mut enc, m));
        let mut types = Vec::new();
        for (b, a) in back.iter_mut().zip(&first) {
            b.1 = types.clone();
            types.push(a.cp);
        }
        got_calls(cx, &back, "before passing on")?;
        cx.checks += 1;
        match again {
            Ok(b) if b == wire => {}
            o => return viol("late-type", format!("passed on as {:?}\nexpected {}", o.map(|b| crate::cx::hexs(&b)).map_err(|e| *e.kind()), crate::cx::hexs(&wire))),
        }
    }
    Ok(())
}
