//! Worlds of programs that define attributes of their own: when the codec calls
//! their pre-send and post-receive code, with what view, and what their failures do.

use crate::cx::{hexs, viol, Cx, R};
use crate::gen;
use crate::guard::real;
use crate::net::{self, Ev, Net};
use crate::refstun::{self, Body, ROut, AV, V};
use crate::runner::Prop;
use crate::sets::*;
use crate::w_net::StreamRx;
use bytecodec::bytes::{BytesEncoder, RemainingBytesDecoder};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, ErrorKind, SizedEncode, TryTaggedDecode};
use std::cell::{Cell, RefCell};
use stun_codec::rfc5245::attributes::UseCandidate;
use stun_codec::rfc5389::attributes::{ErrorCode, Fingerprint, MessageIntegrity, Software, XorMappedAddress};
use stun_codec::rfc5766::attributes::XorPeerAddress;
use stun_codec::{define_attribute_enums, Attribute, AttributeType, DecodedMessage, Message, MessageDecoder, MessageEncoder};

const REAL: &[&str] = &[
    "stun_codec: Message, MessageDecoder, MessageEncoder, the Attribute trait's hook protocol, define_attribute_enums, XOR-MAPPED-ADDRESS",
    "bytecodec combinators and I/O helpers",
];

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C15",
        run: c15,
        quick: 900_000,
        fixed: None,
        rule: "Each run draws programs with attributes of their own (observing, rewriting, growing, checksumming, failing before sending, failing after receiving, refusing to parse or to encode), messages mixing them with standard and unknown attributes, output schedules and a faulty network; every call of the programs' code, with the message it is shown, is recorded and compared with the calls a model predicts, and so are the bytes sent, the values read and the fate of the message. In one run of ten the programs' code panics or fails at a drawn call, anywhere in sending or receiving, and every attribute value is counted: none may be dropped twice, none may stay behind unless a panic passed over it, and other codecs go on.",
        real: REAL,
        stub: &["user-defined attributes", "network", "reference codec as oracle"],
        assumptions: &["after a panic of user code the program drops the codec it happened in"],
    }]
}

const OBSERVE: u8 = 0;
const REWRITE: u8 = 1;
const GROW: u8 = 2;
const FAIL_SEND: u8 = 3;
const FAIL_RECEIVE: u8 = 4;
const CHECKSUM: u8 = 5;
const NO_ENCODE: u8 = 6;
const NO_PARSE: u8 = 7;
/// strips two bytes after receiving, for good: what is passed on is shorter
const CLIP: u8 = 8;

#[derive(Clone, Debug, PartialEq, Eq)]
struct Call {
    send: bool,
    cp: u16,
    value: Vec<u8>,
    class: u8,
    method: u16,
    tid: [u8; 12],
    /// what precedes, as the program is shown it: known (raw value) and unknown
    known: Vec<(u16, Option<Vec<u8>>)>,
    unknown: Vec<(u16, Vec<u8>)>,
    /// what using the codec from in there gave
    peek: Option<Peek>,
}
/// Attribute code that uses the codec itself: encodes the message it is shown, takes
/// its fingerprint, decodes others.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Peek {
    bytes: Option<Vec<u8>>,
    crc: Option<u32>,
    decodes: [bool; 3],
    /// what a masked address gives when it is prepared a second time is left open
    open: bool,
}
thread_local! {
    static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
    /// in attribute code called because of other attribute code
    static NESTED: Cell<bool> = const { Cell::new(false) };
}
fn log_take() -> Vec<Call> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn log_len() -> usize {
    LOG.with(|l| l.borrow().len())
}

/// A user-defined attribute; the first byte of its value says how it behaves.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hook<const N: u16> {
    value: Vec<u8>,
}
impl<const N: u16> Hook<N> {
    pub const CODEPOINT: u16 = N;
}
fn what(v: &[u8]) -> u8 {
    v.first().map_or(OBSERVE, |b| if b & 0x3f == 0x28 { CLIP } else { b & 7 })
}
fn set_what(b: &mut u8, w: u8) {
    *b = if w == CLIP { *b & 0xc0 | 0x28 } else { *b & 0xd8 | w };
}
fn check_of(tid: &[u8; 12], class: u8, method: u16, known: &[u16], unknown: &[(u16, Vec<u8>)]) -> u8 {
    let mut h = 7u8;
    let mut put = |x: u8| h = h.rotate_left(3) ^ x.wrapping_mul(31).wrapping_add(17);
    tid.iter().for_each(|b| put(*b));
    put(class);
    put(method as u8);
    for k in known {
        put(*k as u8);
        put((k >> 8) as u8);
    }
    for (c, v) in unknown {
        put(*c as u8);
        v.iter().for_each(|b| put(*b));
    }
    h
}
/// What the attribute makes of its value; None: it fails.
fn on_send(v: &mut Vec<u8>, check: u8) -> Option<()> {
    match what(v) {
        REWRITE => v.iter_mut().skip(1).for_each(|b| *b ^= 0x5a),
        GROW => v.push(0xee),
        CHECKSUM => v.push(check),
        FAIL_SEND => return None,
        _ => {}
    }
    Some(())
}
fn on_receive(v: &mut Vec<u8>, check: u8) -> Option<()> {
    match what(v) {
        REWRITE => v.iter_mut().skip(1).for_each(|b| *b ^= 0x5a),
        GROW => {
            // nothing is lost: what was taken off is put back on the way out
            if v.len() < 2 || v.pop() != Some(0xee) {
                return None;
            }
        }
        CHECKSUM => {
            if v.len() < 2 || v.pop() != Some(check) {
                return None;
            }
        }
        CLIP if v.len() > 2 => v.truncate(v.len() - 2),
        FAIL_RECEIVE => return None,
        _ => {}
    }
    Some(())
}
fn peeks(v: &[u8]) -> bool {
    v.first().map_or(false, |b| b & 0xc0 == 0x40)
}
fn peek<A: Attribute>(m: &Message<A>) -> Peek {
    NESTED.with(|n| n.set(true));
    let bytes = MessageEncoder::<A>::new().encode_into_bytes(m.clone()).ok();
    let crc = Fingerprint::new(m).ok().map(|f| f.crc32());
    let mut b = refstun::header(1, 1, 0, &[9; 12]);
    refstun::push_tlv(&mut b, 0xc0fe, &[1, 2, 3], [0; 3]);
    refstun::set_len(&mut b, 8);
    let mut dec = MessageDecoder::<A>::new();
    let one = matches!(dec.decode_from_bytes(&b), Ok(Ok(m)) if m.unknown_attributes().count() == 1);
    b[23] = 5;
    let two = matches!(dec.decode_from_bytes(&b), Ok(Err(e)) if *e.transaction_id().as_bytes() == [9; 12]);
    b[4] = 0;
    let three = MessageDecoder::<A>::new().decode_from_bytes(&b).is_err();
    NESTED.with(|n| n.set(false));
    Peek { bytes, crc, decodes: [one, two, three], open: false }
}
fn record<const N: u16, A: Attribute>(send: bool, v: &[u8], m: &Message<A>) -> u8 {
    if NESTED.with(|n| n.get()) {
        let types: Vec<u16> = m.attributes().map(|a| a.get_type().as_u16()).collect();
        let unknown: Vec<_> = m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect();
        return check_of(m.transaction_id().as_bytes(), class_no(m.class()), m.method().as_u16(), &types, &unknown);
    }
    let known: Vec<(u16, Option<Vec<u8>>)> = m
        .attributes()
        .map(|a| (a.get_type().as_u16(), A::Encoder::default().encode_into_bytes(a.clone()).ok()))
        .collect();
    let c = Call {
        send,
        cp: N,
        value: v.to_vec(),
        class: class_no(m.class()),
        method: m.method().as_u16(),
        tid: *m.transaction_id().as_bytes(),
        known,
        unknown: m.unknown_attributes().map(|a| (a.get_type().as_u16(), a.value().to_vec())).collect(),
        peek: if peeks(v) { Some(peek(m)) } else { None },
    };
    let types: Vec<u16> = c.known.iter().map(|k| k.0).collect();
    let k = check_of(&c.tid, c.class, c.method, &types, &c.unknown);
    LOG.with(|l| l.borrow_mut().push(c));
    k
}
/// A program fails in whatever way it likes.
fn refuse(v: &[u8]) -> bytecodec::Error {
    let kinds = [
        ErrorKind::Other,
        ErrorKind::InvalidInput,
        ErrorKind::InconsistentState,
        ErrorKind::UnexpectedEos,
        ErrorKind::EncoderFull,
        ErrorKind::DecoderTerminated,
        ErrorKind::IncompleteDecoding,
    ];
    let n = v.iter().map(|b| *b as usize).sum::<usize>() + v.len();
    bytecodec::Error::from(kinds[n % kinds.len()])
}
/// Some parsers refuse as soon as they can tell, others at the end.
fn refuses_early(first: u8) -> bool {
    what(&[first]) == NO_PARSE && first & 0x08 != 0
}
impl<const N: u16> Attribute for Hook<N> {
    type Decoder = HookDecoder<N>;
    type Encoder = HookEncoder<N>;
    fn get_type(&self) -> AttributeType {
        AttributeType::new(N)
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        let k = record::<N, A>(true, &self.value, m);
        let e = refuse(&self.value);
        on_send(&mut self.value, k).ok_or(e)
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        let k = record::<N, A>(false, &self.value, m);
        let e = refuse(&self.value);
        on_receive(&mut self.value, k).ok_or(e)
    }
}
#[derive(Debug, Default)]
pub struct HookDecoder<const N: u16>(RemainingBytesDecoder, bool);
impl<const N: u16> Decode for HookDecoder<N> {
    type Item = Hook<N>;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        if !buf.is_empty() && !self.1 {
            self.1 = true;
            if refuses_early(buf[0]) {
                return Err(refuse(&buf[..1]));
            }
        }
        self.0.decode(buf, eos)
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Hook<N>> {
        self.1 = false;
        let value = self.0.finish_decoding()?;
        if what(&value) == NO_PARSE {
            return Err(refuse(&value));
        }
        Ok(Hook { value })
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u16> TryTaggedDecode for HookDecoder<N> {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, tag: AttributeType) -> bytecodec::Result<bool> {
        Ok(tag.as_u16() == N)
    }
}
#[derive(Debug, Default)]
pub struct HookEncoder<const N: u16>(BytesEncoder<Vec<u8>>);
impl<const N: u16> Encode for HookEncoder<N> {
    type Item = Hook<N>;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        self.0.encode(buf, eos)
    }
    fn start_encoding(&mut self, item: Hook<N>) -> bytecodec::Result<()> {
        if what(&item.value) == NO_ENCODE {
            return Err(refuse(&item.value));
        }
        self.0.start_encoding(item.value)
    }
    fn requiring_bytes(&self) -> ByteCount {
        self.0.requiring_bytes()
    }
    fn is_idle(&self) -> bool {
        self.0.is_idle()
    }
}
impl<const N: u16> SizedEncode for HookEncoder<N> {
    fn exact_requiring_bytes(&self) -> u64 {
        self.0.exact_requiring_bytes()
    }
}

const N1: u16 = 0x7F01;
const N2: u16 = 0xFE02;
const N3: u16 = 0x7F03;
type Alpha = Hook<N1>;
type Beta = Hook<N2>;
type Gamma = Hook<N3>;
define_attribute_enums!(Own, OwnDecoder, OwnEncoder, [Alpha, Beta, XorMappedAddress, Gamma, Fingerprint, MessageIntegrity, Software, ErrorCode, XorPeerAddress, UseCandidate]);

impl ASet for Own {
    const NAME: &'static str = "own";
    fn knows(cp: u16) -> bool {
        [N1, N2, N3, 0x0020, refstun::FP, refstun::MI, refstun::SOFTWARE, refstun::ERROR_CODE, 0x0012, 0x0025].contains(&cp)
    }
    fn of_mi(m: MessageIntegrity) -> Option<Self> {
        Some(m.into())
    }
    fn of_fp(f: Fingerprint) -> Option<Self> {
        Some(f.into())
    }
    fn of_av(a: &AV) -> Option<Self> {
        Some(match (&a.v, a.cp) {
            (V::Str(_), refstun::SOFTWARE) => Software::of_v(&a.v)?.into(),
            (V::Err(..), refstun::ERROR_CODE) => ErrorCode::of_v(&a.v)?.into(),
            (V::Addr(x), 0x0012) => XorPeerAddress::new(*x).into(),
            (V::Flag, 0x0025) => UseCandidate::new().into(),
            (V::Bytes(b), N1) => Hook::<N1> { value: b.clone() }.into(),
            (V::Bytes(b), N2) => Hook::<N2> { value: b.clone() }.into(),
            (V::Bytes(b), N3) => Hook::<N3> { value: b.clone() }.into(),
            (V::Addr(x), 0x0020) => XorMappedAddress::new(*x).into(),
            _ => return None,
        })
    }
    fn to_av(&self) -> AV {
        match self {
            Own::Alpha(a) => AV { cp: N1, v: V::Bytes(a.value.clone()) },
            Own::Beta(a) => AV { cp: N2, v: V::Bytes(a.value.clone()) },
            Own::Gamma(a) => AV { cp: N3, v: V::Bytes(a.value.clone()) },
            Own::XorMappedAddress(a) => AV { cp: 0x0020, v: V::Addr(a.address()) },
            Own::XorPeerAddress(a) => AV { cp: 0x0012, v: V::Addr(a.address()) },
            Own::Fingerprint(a) => AV { cp: refstun::FP, v: a.to_v() },
            Own::MessageIntegrity(a) => AV { cp: refstun::MI, v: a.to_v() },
            Own::Software(a) => AV { cp: refstun::SOFTWARE, v: a.to_v() },
            Own::ErrorCode(a) => AV { cp: refstun::ERROR_CODE, v: a.to_v() },
            Own::UseCandidate(a) => AV { cp: 0x0025, v: a.to_v() },
        }
    }
}
impl ASet for Alpha {
    const NAME: &'static str = "own, single";
    fn knows(cp: u16) -> bool {
        cp == N1
    }
    fn of_av(a: &AV) -> Option<Self> {
        match &a.v {
            V::Bytes(b) if a.cp == N1 => Some(Hook { value: b.clone() }),
            _ => None,
        }
    }
    fn to_av(&self) -> AV {
        AV { cp: N1, v: V::Bytes(self.value.clone()) }
    }
}
/// The program's own attributes may have the types of the library's: a set is free to
/// read them its own way.
type Mi = Hook<0x0008>;
type Fp = Hook<0x8028>;
type Xma = Hook<0x0020>;
type User = Hook<0x0006>;
type Last = Hook<0xffff>;
type First = Hook<0x0000>;
define_attribute_enums!(Standins, StandinsDecoder, StandinsEncoder, [Mi, Last, Fp, Xma, User, First]);
impl ASet for Standins {
    const NAME: &'static str = "own, at the types of others";
    fn knows(cp: u16) -> bool {
        Self::HOOKS.contains(&cp)
    }
    fn of_av(a: &AV) -> Option<Self> {
        let value = match &a.v {
            V::Bytes(b) => b.clone(),
            _ => return None,
        };
        Some(match a.cp {
            0x0008 => Hook::<0x0008> { value }.into(),
            0x8028 => Hook::<0x8028> { value }.into(),
            0x0020 => Hook::<0x0020> { value }.into(),
            0x0006 => Hook::<0x0006> { value }.into(),
            0xffff => Hook::<0xffff> { value }.into(),
            0x0000 => Hook::<0x0000> { value }.into(),
            _ => return None,
        })
    }
    fn to_av(&self) -> AV {
        let v = match self {
            Standins::Mi(a) => &a.value,
            Standins::Fp(a) => &a.value,
            Standins::Xma(a) => &a.value,
            Standins::User(a) => &a.value,
            Standins::Last(a) => &a.value,
            Standins::First(a) => &a.value,
        };
        AV { cp: self.get_type().as_u16(), v: V::Bytes(v.clone()) }
    }
}
/// A set with attributes of the program's own.
trait Prog: ASet {
    const HOOKS: &'static [u16];
    fn hook(cp: u16) -> bool {
        Self::HOOKS.contains(&cp)
    }
}
impl Prog for Own {
    const HOOKS: &'static [u16] = &[N1, N2, N3];
}
impl Prog for Alpha {
    const HOOKS: &'static [u16] = &[N1];
}
impl Prog for Standins {
    const HOOKS: &'static [u16] = &[0x0008, 0x8028, 0x0020, 0x0006, 0xffff, 0x0000];
}

/// An attribute of a message as the model sees it.
#[derive(Clone, Debug)]
struct At {
    cp: u16,
    known: bool,
    /// value as the program holds it
    v: V,
    /// the value as it came, unless the program's code may have changed it
    raw: Option<Vec<u8>>,
    pad: Vec<u8>,
    /// a fingerprint that matches what precedes it (anything else: true)
    ok: bool,
}
fn is_xor(cp: u16) -> bool {
    matches!(refstun::kind_of(cp), Some(refstun::Kind::XorAddr))
}
/// The model: runs the attributes' code over the message, in order.
/// Returns the calls, and the attributes afterwards unless a call failed.
fn model(send: bool, class: u8, method: u16, tid: &[u8; 12], attrs: &[At]) -> (Vec<Call>, Option<Vec<(At, Vec<u8>)>>) {
    model_at(false, send, class, method, tid, attrs)
}
fn model_at(inner: bool, send: bool, class: u8, method: u16, tid: &[u8; 12], attrs: &[At]) -> (Vec<Call>, Option<Vec<(At, Vec<u8>)>>) {
    let mut calls = Vec::new();
    let mut done: Vec<(At, Vec<u8>)> = Vec::new();
    let mut shown: Vec<(u16, Option<Vec<u8>>)> = Vec::new();
    let mut unknown: Vec<(u16, Vec<u8>)> = Vec::new();
    for a in attrs {
        let mut a = a.clone();
        if !a.known {
            if let V::Bytes(b) = &a.v {
                unknown.push((a.cp, b.clone()));
                let raw = b.clone();
                done.push((a, raw));
            }
            continue;
        }
        match &mut a.v {
            V::Bytes(b) => {
                let types: Vec<u16> = shown.iter().map(|k| k.0).collect();
                let k = check_of(tid, class, method, &types, &unknown);
                let peek = if peeks(b) {
                    let before: Vec<At> = done.iter().map(|d| d.0.clone()).collect();
                    let bytes = if inner { None } else { encoded(class, method, tid, &before) };
                    let crc = bytes.as_ref().map(|b| refstun::fingerprint_of(b));
                    Some(Peek { bytes, crc, decodes: [true; 3], open: send && before.iter().any(|a| a.known && is_xor(a.cp) && matches!(a.v, V::Addr(_))) })
                } else {
                    None
                };
                calls.push(Call { send, cp: a.cp, value: b.clone(), class, method, tid: *tid, known: shown.clone(), unknown: unknown.clone(), peek });
                let r = if send { on_send(b, k) } else { on_receive(b, k) };
                if r.is_none() {
                    return (calls, None);
                }
                let raw = b.clone();
                shown.push((a.cp, if what(&raw) == NO_ENCODE { None } else { Some(raw.clone()) }));
                done.push((a, raw));
            }
            v => {
                if !send && !a.ok {
                    return (calls, None);
                }
                // on the wire some addresses are masked, in the program's hands they are not
                let wire = refstun::value_bytes(&AV { cp: a.cp, v: v.clone() }, tid);
                let plain = if is_xor(a.cp) { refstun::value_bytes(&AV { cp: 0x0001, v: v.clone() }, tid) } else { wire.clone() };
                shown.push((a.cp, Some(if send { wire.clone() } else { plain })));
                let wire = a.raw.clone().unwrap_or(wire);
                done.push((a, wire));
            }
        }
    }
    (calls, Some(done))
}
/// The bytes of a message of these attributes, unless something refuses.
fn encoded(class: u8, method: u16, tid: &[u8; 12], attrs: &[At]) -> Option<Vec<u8>> {
    whole(class, method, tid, &model_at(true, true, class, method, tid, attrs).1?)
}
fn whole(class: u8, method: u16, tid: &[u8; 12], after: &[(At, Vec<u8>)]) -> Option<Vec<u8>> {
    let mut b = refstun::header(class, method, 0, tid);
    for (a, raw) in after {
        // a hook's value is all there is of it: V::Bytes
        if raw.len() > 0xffff || (a.known && matches!(a.v, V::Bytes(_)) && what(raw) == NO_ENCODE) {
            return None;
        }
        // padding that came with a value of another length is not that of this one
        let mut pad = [0; 3];
        if a.pad.len() == (4 - raw.len() % 4) % 4 {
            pad[..a.pad.len()].copy_from_slice(&a.pad);
        }
        refstun::push_tlv(&mut b, a.cp, raw, pad);
    }
    let n = b.len() - 20;
    if n > 0xffff {
        return None;
    }
    refstun::set_len(&mut b, n);
    Some(b)
}
fn compare_calls(cx: &mut Cx, want: &[Call], got: &[Call], when: &str) -> R {
    let mut want = want.to_vec();
    for (w, g) in want.iter_mut().zip(got) {
        if let (Some(w), Some(g)) = (&mut w.peek, &g.peek) {
            cx.probe("codec_used_by_attribute_code");
            if w.bytes.as_ref().map_or(false, |b| b.len() + 8 > 20 + 0xffff) {
                // no room for it: any answer will do
                w.crc = g.crc;
            }
            if w.open {
                *w = Peek { decodes: w.decodes, ..g.clone() };
            }
        }
    }
    let want = &want[..];
    cx.ok();
    cx.ev("calls", want.len() as u64, got.len() as u64);
    if want == got {
        return Ok(());
    }
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    viol(
        "hook-calls",
        format!("{}: {} calls expected, {} made; call {} should be {:?}\n and is {:?}", when, want.len(), got.len(), at, want.get(at), got.get(at)),
    )
}
fn own_value(cx: &mut Cx, faults: bool) -> Vec<u8> {
    let n = match cx.weighted(&[6, 2, 1]) {
        0 => cx.us(6),
        1 => cx.us(24),
        _ => cx.us(200),
    };
    let mut v = cx.blob(n);
    let w = if faults {
        *cx.pick(&[OBSERVE, REWRITE, GROW, CHECKSUM, OBSERVE, REWRITE, GROW, CHECKSUM, FAIL_SEND, FAIL_RECEIVE, NO_ENCODE, NO_PARSE])
    } else {
        *cx.pick(&[OBSERVE, REWRITE, GROW, CHECKSUM, OBSERVE, REWRITE, GROW, CHECKSUM, CLIP])
    };
    if v.is_empty() && w != OBSERVE {
        v.push(0);
    }
    if let Some(b) = v.first_mut() {
        set_what(b, w);
    }
    v
}
fn cps<A: Prog>() -> Vec<u16> {
    // some more often than others
    [
        N1, N2, 0x0020, N3, N1, N2, N3, 0x0020, refstun::FP, refstun::MI, refstun::SOFTWARE, refstun::ERROR_CODE, 0x0012, 0x0025, refstun::FP, 0x0006, 0xffff, 0x0000,
    ]
        .into_iter()
        .filter(|c| A::knows(*c))
        .collect()
}

fn c15(cx: &mut Cx) -> R {
    log_take();
    NESTED.with(|n| n.set(false));
    let r = match cx.weighted(&[10, 4, 4, 2, 1]) {
        0 => c15_run::<Own>(cx),
        1 => c15_run::<Alpha>(cx),
        2 => c15_run::<Standins>(cx),
        3 => crate::w_fuse::panicking(cx),
        _ => crate::w_fuse::late_types(cx),
    };
    log_take();
    r
}
fn c15_run<A: Prog>(cx: &mut Cx) -> R {
    let mut cfg = net::net_cfg(cx);
    cfg.foreign = 0;
    let mut nw = Net::new(cfg, u64::MAX);
    let mut enc = MessageEncoder::<A>::new();
    let mut udp = MessageDecoder::<A>::new();
    let mut stream = StreamRx::<A>::new();
    let faults = *cx.pick(&[0, 30, 100]);
    let (max, avg) = match cx.weighted(&[60, 1]) {
        0 => (6, 3),
        _ => (120, 90),
    };
    cx.repeat(1, max, avg, |cx, k| {
        let bytes = match cx.weighted(&[5, 4]) {
            0 => match sender::<A>(cx, &mut enc, faults)? {
                Some(b) => b,
                None => return Ok(()),
            },
            _ => foreign_made::<A>(cx, faults),
        };
        cx.bytes_ev("message", &bytes);
        if cx.chance(50) {
            nw.send(cx, 1, 0, &bytes);
        } else {
            nw.write(cx, 1, 0, 0, &bytes);
        }
        while k > 0 && nw.len() > 0 && cx.chance(60) {
            receive::<A>(cx, &mut nw, &mut udp, &mut stream, &mut enc)?;
        }
        Ok(())
    })?;
    while nw.len() > 0 {
        receive::<A>(cx, &mut nw, &mut udp, &mut stream, &mut enc)?;
    }
    Ok(())
}
/// A message some other program made: any mix of attributes, checksums mostly right.
fn foreign_made<A: Prog>(cx: &mut Cx, faults: u64) -> Vec<u8> {
    let tid = gen::tid(cx);
    let (class, method) = (gen::class(cx), gen::method(cx));
    let mut attrs: Vec<At> = Vec::new();
    let known = cps::<A>();
    let _ = cx.repeat(0, 9, 4, |cx, _| {
        let pad = cx.blob(3);
        if cx.chance(25) {
            let cp = gen::unknown_cp(cx);
            if !A::hook(cp) {
                let n = cx.us(20);
                attrs.push(At { cp, known: false, v: V::Bytes(cx.blob(n)), raw: None, pad, ok: true });
            }
            return Ok(());
        }
        let cp = *cx.pick(&known);
        let v = if A::hook(cp) {
            let f = cx.chance(faults);
            V::Bytes(own_value(cx, f))
        } else if cp == refstun::FP {
            V::Crc(0)
        } else if cp == refstun::MI {
            let mut m = [0; 20];
            m.iter_mut().for_each(|b| *b = cx.below(256) as u8);
            V::Mac(m)
        } else {
            gen::av(cx, cp).v
        };
        // now and then a fingerprint that does not match
        let ok = cp != refstun::FP || !cx.chance(8);
        attrs.push(At { cp, known: true, v, raw: None, pad, ok });
        Ok(())
    });
    crowd::<A>(cx, |cp, v| attrs.push(At { cp, known: true, v, raw: None, pad: vec![0; 3], ok: true }));
    // as the other program's own code would make it; what fails there is sent raw here
    let mut b = refstun::header(class, method, 0, &tid);
    let mut types: Vec<u16> = Vec::new();
    let mut unknown: Vec<(u16, Vec<u8>)> = Vec::new();
    let wrong = cx.chance(10);
    for a in &attrs {
        let raw = match &a.v {
            V::Bytes(x) => {
                let mut x = x.clone();
                if a.known {
                    let k = check_of(&tid, class, method, &types, &unknown);
                    let _ = on_send(&mut x, if wrong { k ^ 1 } else { k });
                    types.push(a.cp);
                } else {
                    unknown.push((a.cp, x.clone()));
                }
                x
            }
            V::Crc(_) => {
                types.push(a.cp);
                (refstun::fingerprint_of(&b) ^ !a.ok as u32).to_be_bytes().to_vec()
            }
            v => {
                types.push(a.cp);
                refstun::value_bytes(&AV { cp: a.cp, v: v.clone() }, &tid)
            }
        };
        refstun::push_tlv(&mut b, a.cp, &raw, [a.pad[0], a.pad[1], a.pad[2]]);
    }
    let n = b.len() - 20;
    refstun::set_len(&mut b, n);
    b
}
/// Now and then many more attributes, of the user's kind and others.
fn crowd<A: Prog>(cx: &mut Cx, mut add: impl FnMut(u16, V)) {
    let n = gen::crowd_size(cx);
    if n == 0 {
        return;
    }
    cx.probe("message_of_many_attributes");
    let cps: Vec<u16> = cps::<A>().into_iter().filter(|c| *c != refstun::FP && *c != refstun::MI).collect();
    let few: Vec<(u16, V)> = (0..1 + cx.us(3))
        .map(|_| {
            let cp = *cx.pick(&cps);
            let v = if A::hook(cp) {
                // each call takes a note of everything in front of it: keep these short
                let w = *cx.pick(&[OBSERVE, REWRITE, CHECKSUM]);
                V::Bytes(vec![w, 1])
            } else {
                gen::av(cx, cp).v
            };
            (cp, v)
        })
        .collect();
    let mut size = 0;
    for i in 0..n.min(300) {
        let (cp, v) = &few[i % few.len()];
        size += 8 + refstun::value_bytes(&AV { cp: *cp, v: v.clone() }, &[0; 12]).len();
        if size > 20_000 {
            break;
        }
        add(*cp, v.clone());
    }
}
/// The local program builds and sends a message.
fn sender<A: Prog>(cx: &mut Cx, enc: &mut MessageEncoder<A>, faults: u64) -> R<Option<Vec<u8>>> {
    let tid = gen::tid(cx);
    let (class, method) = (gen::class(cx), gen::method(cx));
    let mut m = new_msg::<A>(class, method, tid);
    let mut attrs: Vec<At> = Vec::new();
    let known = cps::<A>();
    let huge = cx.chance(2);
    cx.repeat(0, 9, 3, |cx, i| {
        let cp = *cx.pick(&known);
        let v = if A::hook(cp) {
            let f = cx.chance(faults);
            let mut v = own_value(cx, f);
            if huge && i == 0 {
                let n = *cx.pick(&[65535usize, 65534, 65528, 65527, 65500, 65531]);
                v.resize(n, 9);
                let w = *cx.pick(&[GROW, OBSERVE, CHECKSUM]);
                set_what(&mut v[0], w);
            }
            V::Bytes(v)
        } else if cp == refstun::FP || cp == refstun::MI {
            // made of the message as it is, by running its attributes' code on a copy;
            // not made where that code fails
            let a = if cp == refstun::FP {
                real(|| Fingerprint::new(&m)).ok().and_then(A::of_fp)
            } else {
                real(|| MessageIntegrity::new_short_term_credential(&m, "own")).ok().and_then(A::of_mi)
            };
            if let Some(a) = a {
                cx.probe("digest_over_own_attributes");
                let v = a.to_av().v;
                real(|| m.add_attribute(a));
                attrs.push(At { cp, known: true, v, raw: None, pad: vec![0; 3], ok: true });
            }
            return Ok(());
        } else {
            gen::av(cx, cp).v
        };
        let a = match A::of_av(&AV { cp, v: v.clone() }) {
            Some(a) => a,
            None => return Ok(()),
        };
        real(|| m.add_attribute(a));
        attrs.push(At { cp, known: true, v, raw: None, pad: vec![0; 3], ok: true });
        Ok(())
    })?;
    crowd::<A>(cx, |cp, v| {
        if let Some(a) = A::of_av(&AV { cp, v: v.clone() }) {
            real(|| m.add_attribute(a));
            attrs.push(At { cp, known: true, v, raw: None, pad: vec![0; 3], ok: true });
        }
    });
    let again = cx.chance(20);
    let first = start(cx, enc, m.clone(), class, method, tid, &attrs)?;
    if again {
        // the message the program kept is as it was
        cx.probe("sent_again");
        let second = start(cx, enc, m, class, method, tid, &attrs)?;
        ensure!(first == second, "resend", "sending the same message twice gives different bytes");
    }
    Ok(first)
}
fn start<A: Prog>(cx: &mut Cx, enc: &mut MessageEncoder<A>, m: Message<A>, class: u8, method: u16, tid: [u8; 12], attrs: &[At]) -> R<Option<Vec<u8>>> {
    log_take();
    let (calls, after) = model(true, class, method, &tid, attrs);
    // the bytes, unless something refuses
    let want = after.as_ref().and_then(|after| whole(class, method, &tid, after));
    let r = real(|| enc.start_encoding(m));
    let got = log_take();
    compare_calls(cx, &calls, &got, "sending")?;
    match (r, want) {
        (Err(_), None) => {
            cx.fault(if after.is_none() { "user_code_fails_before_sending" } else { "unencodable_attribute" });
            let (i, x) = (enc_idle(enc), real(|| enc.exact_requiring_bytes()));
            ensure!(i && x == 0, "after-refusal", "after a refusal the encoder is {}, announcing {} bytes", if i { "idle" } else { "busy" }, x);
            Ok(None)
        }
        (Err(e), Some(_)) => viol("refuses-good", format!("no attribute objects, yet the message was refused: {:?}", e.kind())),
        (Ok(()), None) => viol("accepts-refused", format!("an attribute's code refuses ({} calls), yet the encoder accepted the message", calls.len())),
        (Ok(()), Some(want)) => {
            let mode = cx.below(crate::drive::DRAINS);
            let p = crate::drive::pace(cx);
            let out = crate::drive::drain(cx, enc, mode, p, |_, _| Ok(()))?;
            ensure!(log_len() == 0, "hook-calls", "{} calls while the bytes were leaving", log_len());
            cx.ok();
            ensure!(out == want, "sent-bytes", "attributes as their code left them give {}\n sent {}", hexs(&want), hexs(&out));
            Ok(Some(out))
        }
    }
}
fn receive<A: Prog>(cx: &mut Cx, nw: &mut Net, udp: &mut MessageDecoder<A>, stream: &mut StreamRx<A>, enc: &mut MessageEncoder<A>) -> R {
    match nw.next(cx) {
        Some(Ev::Packet { bytes, .. }) => {
            cx.ev("packet", bytes.len() as u64, 0);
            log_take();
            let got = match real(|| udp.decode_from_bytes(&bytes)) {
                Ok(d) => Some(d),
                Err(_) => {
                    if dec_idle(udp) {
                        let _ = real(|| Decode::finish_decoding(udp));
                    }
                    None
                }
            };
            let calls = log_take();
            received::<A>(cx, &bytes, got, calls, true, enc)
        }
        Some(Ev::Segment { bytes, .. }) => {
            cx.ev("segment", bytes.len() as u64, 0);
            // one byte string may hold the end of one message and the start of the next:
            // feed it so that every message's calls can be told apart
            let mut at = 0;
            while at < bytes.len() {
                let left = stream.until_end(&bytes[at..]);
                let n = left.min(bytes.len() - at);
                log_take();
                let mut out = Vec::new();
                let alive = stream.feed(cx, &bytes[at..at + n], &mut out)?;
                ensure!(alive, "stream-rejected", "a stream of whole messages was rejected");
                at += n;
                let calls = log_take();
                if out.is_empty() {
                    ensure!(calls.is_empty(), "hook-calls", "{} calls for a message that is not complete", calls.len());
                }
                ensure!(out.len() <= 1, "framing", "two messages out of the bytes of one");
                if let Some((b, d)) = out.pop() {
                    received::<A>(cx, &b, Some(d), calls, false, enc)?;
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
fn received<A: Prog>(cx: &mut Cx, b: &[u8], got: Option<DecodedMessage<A>>, calls: Vec<Call>, dgram: bool, enc: &mut MessageEncoder<A>) -> R {
    // whether a fingerprint matches is for the checks to say, not for the parser
    let r = match refstun::decode(b, &|c| A::knows(c) && c != refstun::FP && (refstun::kind_of(c).is_none() || !A::hook(c))) {
        ROut::Msg(r) if r.total == b.len() => r,
        ROut::Msg(_) | ROut::Incomplete | ROut::Reject(_) => {
            // no message: nothing valid may come out
            if let Some(Ok(_)) = got {
                return viol("accepts-foreign", format!("no whole message, yet accepted: {}", hexs(b)));
            }
            return Ok(());
        }
    };
    let attrs: Vec<At> = match &r.body {
        // the RFCs leave open whether it is one
        Body::Either(_) => return Ok(()),
        Body::Valid(a) if A::hook(refstun::FP) || !a.iter().any(|a| a.cp == refstun::FP && A::knows(a.cp) && a.value.len() != 4) => a
            .iter()
            .map(|a| {
                let mut x = At { cp: a.cp, known: a.known || A::hook(a.cp), v: a.v.clone(), raw: None, pad: a.pad.clone(), ok: true };
                if x.known && !A::hook(a.cp) {
                    x.raw = Some(a.value.clone());
                }
                if a.cp == refstun::FP && A::knows(a.cp) && !A::hook(a.cp) {
                    let c = u32::from_be_bytes([a.value[0], a.value[1], a.value[2], a.value[3]]);
                    x.known = true;
                    x.v = V::Crc(c);
                    x.ok = c == refstun::fingerprint_of(&b[..a.off]);
                }
                x
            })
            .collect(),
        _ => {
            compare_calls(cx, &[], &calls, "receiving a message that cannot be parsed")?;
            return broken::<A>(cx, &r, got, "its attributes cannot be parsed", dgram);
        }
    };
    if attrs.iter().any(|a| A::hook(a.cp) && a.known && matches!(&a.v, V::Bytes(b) if what(b) == NO_PARSE)) {
        cx.fault("user_code_fails_to_parse");
        compare_calls(cx, &[], &calls, "receiving a message with an attribute that does not parse")?;
        return broken::<A>(cx, &r, got, "an attribute's own parser refuses it", dgram);
    }
    // digests are checked over a copy of what precedes them, prepared for sending again
    let calls: Vec<Call> = calls.into_iter().filter(|c| !c.send).collect();
    let last = attrs.iter().rposition(|a| a.known && !A::hook(a.cp) && (a.cp == refstun::FP || a.cp == refstun::MI)).unwrap_or(0);
    let odd = |a: &At| a.known && A::hook(a.cp) && matches!(&a.v, V::Bytes(b) if matches!(what(b), FAIL_SEND | NO_ENCODE | CLIP));
    if attrs[..last].iter().any(odd) {
        cx.probe("digest_behind_what_cannot_be_sent");
        return Ok(());
    }
    let (want, after) = model(false, r.class, r.method, &r.tid, &attrs);
    compare_calls(cx, &want, &calls, "receiving")?;
    let after = match after {
        None => {
            cx.fault("user_code_fails_after_receiving");
            return broken::<A>(cx, &r, got, "an attribute's code refuses it", dgram);
        }
        Some(a) => a,
    };
    let m = match got {
        Some(Ok(m)) => m,
        _ => return viol("valid-called-broken", format!("no attribute objects, yet the message did not come out: {}", hexs(b))),
    };
    let obs = observe(&m);
    let want = Obs {
        class: r.class,
        method: r.method,
        tid: r.tid,
        known: after.iter().filter(|a| a.0.known).map(|a| AV { cp: a.0.cp, v: a.0.v.clone() }).collect(),
        unknown: after.iter().filter(|a| !a.0.known).map(|a| (a.0.cp, a.1.clone())).collect(),
    };
    cx.ok();
    ensure!(obs == want, "content", "attributes as their code left them: {:?}\n message: {:?}", want, obs);
    cx.probe("received_with_own_attributes");
    // passed on, perhaps with more: the pre-send code of all attributes runs, on what is there now
    if cx.chance(35) {
        let mut m = m;
        let mut at: Vec<At> = after.iter().map(|a| a.0.clone()).collect();
        for (a, was) in at.iter().zip(&attrs) {
            if let (V::Bytes(b), V::Bytes(w)) = (&a.v, &was.v) {
                if a.known && what(w) == CLIP && b.len() != w.len() {
                    cx.probe("passed_on_shorter");
                }
            }
        }
        if cx.chance(50) {
            let (own, v) = (A::HOOKS[0], own_value(cx, false));
            if let Some(a) = A::of_av(&AV { cp: own, v: V::Bytes(v.clone()) }) {
                real(|| m.add_attribute(a));
                at.push(At { cp: own, known: true, v: V::Bytes(v), raw: None, pad: vec![], ok: true });
            }
        }
        cx.probe("passed_on");
        let (c, me, t) = (r.class, r.method, r.tid);
        start(cx, enc, m, c, me, t, &at)?;
    }
    Ok(())
}
fn broken<A: Prog>(cx: &mut Cx, r: &refstun::RMsg, got: Option<DecodedMessage<A>>, why: &str, _dgram: bool) -> R {
    cx.ok();
    match got {
        Some(Err(b)) => {
            ensure!(
                class_no(b.class()) == r.class && b.method().as_u16() == r.method && *b.transaction_id().as_bytes() == r.tid,
                "broken-header",
                "{}: the broken message has another header",
                why
            );
            Ok(())
        }
        Some(Ok(_)) => viol("invalid-accepted", format!("{}, yet the message came out as good", why)),
        None => viol("rejects", format!("{}, yet there is no broken message with its header", why)),
    }
}

/// Memory of programs with attributes of their own, most of which object to something.
pub fn c16_own(cx: &mut Cx) -> R {
    log_take();
    NESTED.with(|n| n.set(false));
    let r = match cx.weighted(&[5, 2, 2]) {
        0 => c16_own_run::<Own>(cx),
        1 => c16_own_run::<Alpha>(cx),
        _ => c16_own_run::<Standins>(cx),
    };
    log_take();
    r
}
fn c16_own_run<A: Prog>(cx: &mut Cx) -> R {
    use crate::w_stream::{Meter, KEPT};
    let mut mt = Meter::default();
    let mut dec = mt.run(|| MessageDecoder::<A>::new());
    let mut enc = mt.run(|| MessageEncoder::<A>::new());
    let known: Vec<u16> = cps::<A>().into_iter().filter(|c| A::hook(*c) || (*c != refstun::FP && *c != refstun::MI)).collect();
    let mut largest = 0;
    cx.repeat(2, 24, 8, |cx, i| {
        let b = if cx.chance(50) {
            // sent, as far as it goes
            let (class, method, tid) = (gen::class(cx), gen::method(cx), gen::tid(cx));
            let mut attrs: Vec<AV> = Vec::new();
            let _ = cx.repeat(0, 6, 2, |cx, _| {
                let cp = *cx.pick(&known);
                let f = cx.chance(30);
                attrs.push(if A::hook(cp) { AV { cp, v: V::Bytes(own_value(cx, f)) } } else { gen::av(cx, cp) });
                Ok(())
            });
            let stop = if cx.chance(20) { Some(cx.us(60)) } else { None };
            let busy = cx.chance(15);
            largest = largest.max(attrs.iter().map(|a| 40 + refstun::value_bytes(a, &tid).len() as i64).sum::<i64>());
            let b = mt.run(|| {
                let mut m = new_msg::<A>(class, method, tid);
                for a in &attrs {
                    if let Some(a) = A::of_av(a) {
                        real(|| m.add_attribute(a));
                    }
                }
                let two = if busy { Some(m.clone()) } else { None };
                let ok = real(|| enc.start_encoding(m)).is_ok();
                if let Some(two) = two {
                    let _ = real(|| enc.start_encoding(two)).is_ok();
                }
                let mut out = Vec::new();
                let mut buf = [0; 64];
                let mut left = stop.unwrap_or(usize::MAX);
                while ok && !enc_idle(&enc) && left > 0 {
                    let n = left.min(64);
                    match real(|| enc.encode(&mut buf[..n], Eos::new(false))) {
                        Ok(n) => out.extend_from_slice(&buf[..n]),
                        Err(_) => break,
                    }
                    left -= n;
                }
                if !enc_idle(&enc) {
                    // given up half-way
                    enc = MessageEncoder::new();
                }
                log_take();
                out
            });
            cx.fault(if stop.is_some() { "sending_given_up" } else if b.is_empty() { "sending_refused" } else { "sent" });
            let copy = b.clone();
            mt.run(move || drop(b));
            copy
        } else {
            foreign_made::<A>(cx, 40)
        };
        cx.bytes_ev("message", &b);
        log_take();
        largest = largest.max(b.len() as i64 + 20);
        let p = crate::drive::pace(cx);
        let mut pos = 0;
        let again = cx.chance(30);
        while pos < b.len() {
            let n = crate::drive::chunk(cx, &p, b.len() - pos);
            let r = mt.run(|| real(|| dec.decode(&b[pos..pos + n], Eos::new(false))).map_err(drop));
            match r {
                Ok(k) if k > 0 || n == 0 => pos += k,
                _ => break,
            }
            if dec_idle(&dec) {
                mt.run(|| {
                    match real(|| dec.finish_decoding()) {
                        Ok(Ok(m)) if again => {
                            let _ = real(|| EncodeExt::encode_into_bytes(&mut MessageEncoder::<A>::new(), m)).is_ok();
                        }
                        r => drop(r),
                    }
                    log_take();
                });
                break;
            }
        }
        if pos < b.len() || b.is_empty() {
            mt.run(|| dec = MessageDecoder::new());
        }
        cx.ok();
        ensure!(
            mt.held <= KEPT + 4 * largest,
            "kept",
            "after {} messages with attributes of the program's own, all dropped, {} bytes are still held [set {}]",
            i + 1,
            mt.held,
            A::NAME
        );
        Ok(())
    })?;
    mt.run(move || {
        drop(dec);
        drop(enc);
        log_take();
    });
    ensure!(mt.held <= 256, "leak", "decoder and encoder are gone, {} bytes are still held [set {}]", mt.held, A::NAME);
    Ok(())
}

/// Digests are checked over what precedes them, prepared for sending again. Where a
/// program's attribute cannot be restored that way, they fail though nothing was changed.
fn own_before(digest: u16) -> Vec<u8> {
    let tid = [7; 12];
    let mut b = refstun::header(0, 1, 0, &tid);
    let mut v = vec![0u8; 6];
    set_what(&mut v[0], CLIP);
    refstun::push_tlv(&mut b, N1, &v, [0; 3]);
    if digest == refstun::FP {
        let c = refstun::fingerprint_of(&b);
        refstun::push_tlv(&mut b, refstun::FP, &c.to_be_bytes(), [0; 3]);
    } else {
        let m = refstun::mac_of(&b, b"own");
        refstun::push_tlv(&mut b, refstun::MI, &m, [0; 3]);
    }
    let n = b.len() - 20;
    refstun::set_len(&mut b, n);
    b
}
fn finding(id: &str, bad: bool, what: &str) -> R<Vec<String>> {
    log_take();
    match (bad, crate::runner::known_finding(id, "own-attribute-before-digest")) {
        (false, _) => Ok(vec![]),
        (true, true) => Ok(vec![format!("KNOWN-FINDING: property={} {}", id, what)]),
        (true, false) => viol("fixed-own-attribute-before-digest", what),
    }
}
pub fn c08_fixed() -> R<Vec<String>> {
    let b = own_before(refstun::FP);
    let r = real(|| MessageDecoder::<Own>::new().decode_from_bytes(&b));
    finding("C08", !matches!(r, Ok(Ok(_))), "a correct FINGERPRINT behind an attribute of the program's own that shortens its value after receiving is called broken")
}
pub fn c09_fixed() -> R<Vec<String>> {
    let b = own_before(refstun::MI);
    let r = real(|| MessageDecoder::<Own>::new().decode_from_bytes(&b));
    let bad = match &r {
        Ok(Ok(m)) => real(|| m.get_attribute::<MessageIntegrity>().map_or(true, |mi| mi.check_short_term_credential("own").is_err())),
        _ => true,
    };
    finding("C09", bad, "a correct MESSAGE-INTEGRITY behind an attribute of the program's own that shortens its value after receiving does not verify")
}
