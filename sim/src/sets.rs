//! Attribute sets of the real codec the simulated nodes are built with, and the
//! conversions between real attributes and abstract attribute values, through
//! the public constructors and accessors only.

use crate::guard::real;
use crate::refstun::{self, AV, V};
use bytecodec::{ByteCount, Decode, Encode, EncodeExt, Eos, ErrorKind, SizedEncode, TryTaggedDecode};
use std::fmt::Debug;
use std::time::Duration;
use stun_codec::convert::TryAsRef;
use stun_codec::rfc5245::attributes::*;
use stun_codec::rfc5389::attributes::*;
use stun_codec::rfc5766::attributes::*;
use stun_codec::rfc5780::attributes::*;
use stun_codec::rfc8016::attributes::*;
use stun_codec::rfc8656::attributes::*;
use stun_codec::{
    define_attribute_enums, rfc5245, rfc5389, rfc5766, rfc5780, Attribute, AttributeType, Message, MessageClass,
    MessageDecoder, MessageEncoder, Method, RawAttribute, RawAttributeDecoder, RawAttributeEncoder, TransactionId,
};

/// One attribute type of the library seen as an abstract value.
pub trait AvConv: Attribute {
    const CP: u16;
    fn to_v(&self) -> V;
    fn of_v(v: &V) -> Option<Self>;
}

macro_rules! conv {
    ($ty:ident, |$s:ident| $to:expr, |$v:ident| $of:expr) => {
        impl AvConv for $ty {
            const CP: u16 = $ty::CODEPOINT;
            fn to_v(&self) -> V {
                let $s = self;
                $to
            }
            fn of_v($v: &V) -> Option<Self> {
                $of
            }
        }
    };
}
macro_rules! conv_addr {
    ($($ty:ident),*) => { $(conv!($ty, |s| V::Addr(s.address()), |v| match v { V::Addr(a) => Some($ty::new(*a)), _ => None });)* };
}
macro_rules! get {
    ($v:expr, $p:pat => $e:expr) => {
        match $v {
            $p => $e,
            _ => None,
        }
    };
}
conv_addr!(
    MappedAddress,
    XorMappedAddress,
    XorMappedAddress2,
    AlternateServer,
    XorPeerAddress,
    XorRelayAddress,
    ResponseOrigin,
    OtherAddress
);
conv!(Username, |s| V::Str(s.name().to_string()), |v| get!(v, V::Str(x) => Username::new(x.clone()).ok()));
conv!(Realm, |s| V::Str(s.text().to_string()), |v| get!(v, V::Str(x) => Realm::new(x.clone()).ok()));
conv!(Nonce, |s| V::Str(s.value().to_string()), |v| get!(v, V::Str(x) => Nonce::new(x.clone()).ok()));
conv!(Software, |s| V::Str(s.description().to_string()), |v| get!(v, V::Str(x) => software(x)));

fn software(x: &str) -> Option<Software> {
    // what a program may hold as statics
    match crate::gen::WORDS.iter().find(|t| **t == x) {
        Some(t) => Some(Software::new_static(t)),
        None => Software::new(x.to_string()).ok(),
    }
}
conv!(ErrorCode, |s| V::Err(s.code(), s.reason_phrase().to_string()), |v| get!(v, V::Err(c, x) => ErrorCode::new(*c, x.clone()).ok()));
conv!(
    UnknownAttributes,
    |s| V::List(s.unknowns().iter().map(|t| t.as_u16()).collect()),
    |v| get!(v, V::List(l) => Some(UnknownAttributes::new(l.iter().map(|x| AttributeType::new(*x)).collect())))
);
conv!(ChannelNumber, |s| V::U16(s.value()), |v| get!(v, V::U16(x) => ChannelNumber::new(*x).ok()));
conv!(Lifetime, |s| V::U32(lifetime_secs(s.lifetime())), |v| get!(v, V::U32(x) => {
    // both public constructors are used, chosen by value so that replay is exact
    if *x % 2 == 0 { Some(Lifetime::from_u32(*x)) } else { Lifetime::new(Duration::new(*x as u64, 999_999_999)).ok() }
}));
fn lifetime_secs(d: Duration) -> u32 {
    // a lifetime that is not a whole number of seconds in range shows up as a mismatch
    if d.subsec_nanos() != 0 || d.as_secs() > u32::MAX as u64 {
        0xDEAD_BEEF
    } else {
        d.as_secs() as u32
    }
}
conv!(Data, |s| V::Bytes(s.data().to_vec()), |v| get!(v, V::Bytes(x) => Data::new(x.clone()).ok()));
conv!(MobilityTicket, |s| V::Bytes(s.data().to_vec()), |v| get!(v, V::Bytes(x) => MobilityTicket::new(x.clone()).ok()));
conv!(EvenPort, |s| V::Bool(s.is_requested()), |v| get!(v, V::Bool(x) => Some(EvenPort::new(*x))));
conv!(RequestedTransport, |s| V::U8(s.protocol()), |v| get!(v, V::U8(x) => Some(RequestedTransport::new(*x))));
conv!(DontFragment, |_s| V::Flag, |v| get!(v, V::Flag => Some(DontFragment)));
conv!(UseCandidate, |_s| V::Flag, |v| get!(v, V::Flag => Some(UseCandidate::new())));
conv!(ReservationToken, |s| V::U64(s.token()), |v| get!(v, V::U64(x) => Some(ReservationToken::new(*x))));
conv!(Priority, |s| V::U32(s.prio()), |v| get!(v, V::U32(x) => Some(Priority::new(*x))));
conv!(IceControlled, |s| V::U64(s.prio()), |v| get!(v, V::U64(x) => Some(IceControlled::new(*x))));
conv!(IceControlling, |s| V::U64(s.prio()), |v| get!(v, V::U64(x) => Some(IceControlling::new(*x))));
conv!(ChangeRequest, |s| V::Bools(s.ip(), s.port()), |v| get!(v, V::Bools(i, p) => Some(ChangeRequest::new(*i, *p))));
conv!(ResponsePort, |s| V::U16(s.port()), |v| get!(v, V::U16(x) => Some(ResponsePort::new(*x))));
fn fam(six: bool) -> AddressFamily {
    if six {
        AddressFamily::V6
    } else {
        AddressFamily::V4
    }
}
conv!(
    RequestedAddressFamily,
    |s| V::V6(s.address_family() == AddressFamily::V6),
    |v| get!(v, V::V6(x) => Some(RequestedAddressFamily::new(fam(*x))))
);
conv!(
    AdditionalAddressFamily,
    |s| V::V6(s.address_family() == AddressFamily::V6),
    |v| get!(v, V::V6(x) => Some(AdditionalAddressFamily::new(fam(*x))))
);
conv!(MessageIntegrity, |s| V::Mac(s.hmac_sha1()), |_v| None);
conv!(Fingerprint, |s| V::Crc(s.crc32()), |_v| None);

/// A set of attributes a node understands.
pub trait ASet: Attribute + Debug + Send + 'static {
    const NAME: &'static str;
    /// types outside `knows` come out as known raw attributes
    const RAW: bool = false;
    fn knows(cp: u16) -> bool;
    fn of_av(av: &AV) -> Option<Self>;
    fn to_av(&self) -> AV;
    fn of_mi(_m: MessageIntegrity) -> Option<Self> {
        None
    }
    fn of_fp(_f: Fingerprint) -> Option<Self> {
        None
    }
    fn as_mi(&self) -> Option<&MessageIntegrity> {
        None
    }
    /// the first occurrence, through `Message::get_attribute`, for every type of the set
    fn firsts(_m: &Message<Self>) -> Vec<(u16, Option<AV>)> {
        Vec::new()
    }
}

macro_rules! aset_enum {
    ($set:ty, $name:expr, [$($v:ident),*] $(, mi: $mi:ident)? $(, fp: $fp:ident)?) => {
        impl ASet for $set {
            const NAME: &'static str = $name;
            fn knows(cp: u16) -> bool {
                $(if cp == <$v as AvConv>::CP { return true; })*
                false
            }
            fn of_av(av: &AV) -> Option<Self> {
                $(if av.cp == <$v as AvConv>::CP { return <$v as AvConv>::of_v(&av.v).map(<$set>::from); })*
                None
            }
            fn to_av(&self) -> AV {
                match self {
                    $(Self::$v(a) => AV { cp: a.get_type().as_u16(), v: a.to_v() }),*
                }
            }
            $(fn of_mi(m: $mi) -> Option<Self> { Some(<$set>::from(m)) }
              fn as_mi(&self) -> Option<&$mi> { <$set as TryAsRef<$mi>>::try_as_ref(self) })?
            $(fn of_fp(m: $fp) -> Option<Self> { Some(<$set>::from(m)) })?
            fn firsts(m: &Message<Self>) -> Vec<(u16, Option<AV>)> {
                vec![$((<$v as AvConv>::CP, m.get_attribute::<$v>().map(|a| AV { cp: a.get_type().as_u16(), v: a.to_v() }))),*]
            }
        }
    };
}
macro_rules! aset_single {
    ($($ty:ident),*) => { $(impl ASet for $ty {
        const NAME: &'static str = stringify!($ty);
        fn knows(cp: u16) -> bool { cp == <$ty as AvConv>::CP }
        fn of_av(av: &AV) -> Option<Self> { if av.cp == <$ty as AvConv>::CP { <$ty as AvConv>::of_v(&av.v) } else { None } }
        fn to_av(&self) -> AV { AV { cp: self.get_type().as_u16(), v: self.to_v() } }
    })* };
}

define_attribute_enums!(
    Full,
    FullDecoder,
    FullEncoder,
    [
        MappedAddress,
        Username,
        MessageIntegrity,
        ErrorCode,
        UnknownAttributes,
        Realm,
        Nonce,
        XorMappedAddress,
        XorMappedAddress2,
        Software,
        AlternateServer,
        Fingerprint,
        ChannelNumber,
        Lifetime,
        XorPeerAddress,
        Data,
        XorRelayAddress,
        EvenPort,
        RequestedTransport,
        DontFragment,
        ReservationToken,
        Priority,
        UseCandidate,
        IceControlled,
        IceControlling,
        ChangeRequest,
        ResponseOrigin,
        ResponsePort,
        OtherAddress,
        MobilityTicket,
        RequestedAddressFamily,
        AdditionalAddressFamily
    ]
);
aset_enum!(Full, "full", [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
    XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data,
    XorRelayAddress, EvenPort, RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
    IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress, MobilityTicket,
    RequestedAddressFamily, AdditionalAddressFamily
], mi: MessageIntegrity, fp: Fingerprint);

// no digests: FINGERPRINT and MESSAGE-INTEGRITY pass through as unknown
define_attribute_enums!(NoDigest, NoDigestDecoder, NoDigestEncoder, [Username, XorMappedAddress, Data, EvenPort, Software, ErrorCode, UnknownAttributes]);
aset_enum!(NoDigest, "no-digest", [Username, XorMappedAddress, Data, EvenPort, Software, ErrorCode, UnknownAttributes]);

// a server of its own: answers 420, authenticates, fingerprints
define_attribute_enums!(Server, ServerDecoder, ServerEncoder, [
    XorMappedAddress, Username, Realm, Nonce, MessageIntegrity, Fingerprint, ErrorCode, UnknownAttributes, Software
]);
aset_enum!(Server, "server", [
    XorMappedAddress, Username, Realm, Nonce, MessageIntegrity, Fingerprint, ErrorCode, UnknownAttributes, Software
], mi: MessageIntegrity, fp: Fingerprint);

aset_enum!(rfc5389::Attribute, "rfc5389", [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
    XorMappedAddress2, Software, AlternateServer, Fingerprint
], mi: MessageIntegrity, fp: Fingerprint);
aset_enum!(rfc5766::Attribute, "rfc5766", [
    ChannelNumber, Lifetime, XorPeerAddress, Data, XorRelayAddress, EvenPort, RequestedTransport, DontFragment,
    ReservationToken
]);
aset_enum!(rfc5245::Attribute, "rfc5245", [Priority, UseCandidate, IceControlled, IceControlling]);
aset_enum!(rfc5780::Attribute, "rfc5780", [ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress]);
aset_single!(MappedAddress, Software, XorPeerAddress, UnknownAttributes, MobilityTicket);

impl ASet for MessageIntegrity {
    const NAME: &'static str = "MessageIntegrity";
    fn knows(cp: u16) -> bool {
        cp == refstun::MI
    }
    fn of_av(_av: &AV) -> Option<Self> {
        None
    }
    fn to_av(&self) -> AV {
        AV { cp: self.get_type().as_u16(), v: self.to_v() }
    }
    fn of_mi(m: MessageIntegrity) -> Option<Self> {
        Some(m)
    }
    fn as_mi(&self) -> Option<&MessageIntegrity> {
        Some(self)
    }
}
impl ASet for Fingerprint {
    const NAME: &'static str = "Fingerprint";
    fn knows(cp: u16) -> bool {
        cp == refstun::FP
    }
    fn of_av(_av: &AV) -> Option<Self> {
        None
    }
    fn to_av(&self) -> AV {
        AV { cp: self.get_type().as_u16(), v: self.to_v() }
    }
    fn of_fp(m: Fingerprint) -> Option<Self> {
        Some(m)
    }
}
/// RawAttribute understands every type as plain bytes. Abstractly its value is
/// the wire value, so `knows` is false and everything compares as unknown.
impl ASet for RawAttribute {
    const NAME: &'static str = "raw";
    const RAW: bool = true;
    fn knows(_cp: u16) -> bool {
        false
    }
    fn of_av(av: &AV) -> Option<Self> {
        match &av.v {
            V::Bytes(b) => Some(RawAttribute::new(AttributeType::new(av.cp), b.clone())),
            _ => None,
        }
    }
    fn to_av(&self) -> AV {
        AV { cp: self.get_type().as_u16(), v: V::Bytes(self.value().to_vec()) }
    }
}

/// A set a program wrote by hand, the way the library's traits allow: it asks each
/// attribute's decoder in turn whether the type is its own, and keeps one decoder
/// and one encoder per attribute for good instead of making new ones.
macro_rules! hand_set {
    ($set:ident, $dec:ident, $enc:ident, [$($v:ident),*]) => {
        #[derive(Debug, Clone)]
        pub enum $set { $($v($v)),* }
        $(impl From<$v> for $set { fn from(f: $v) -> Self { $set::$v(f) } })*
        $(impl TryAsRef<$v> for $set {
            fn try_as_ref(&self) -> Option<&$v> { match self { $set::$v(a) => Some(a), _ => None } }
        })*
        impl Attribute for $set {
            type Decoder = $dec;
            type Encoder = $enc;
            fn get_type(&self) -> AttributeType { match self { $($set::$v(a) => a.get_type()),* } }
            fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
                $crate::guard::user_code();
                match self { $($set::$v(a) => a.before_encode(m)),* }
            }
            fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
                $crate::guard::user_code();
                match self { $($set::$v(a) => a.after_decode(m)),* }
            }
        }
        #[allow(non_snake_case)]
        #[derive(Default)]
        pub struct $dec { now: u16, $($v: <$v as Attribute>::Decoder),* }
        impl Decode for $dec {
            type Item = $set;
            fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
                $crate::guard::user_code();
                $(if self.now == $v::CODEPOINT { return self.$v.decode(buf, eos); })*
                Err(ErrorKind::InconsistentState.into())
            }
            fn finish_decoding(&mut self) -> bytecodec::Result<Self::Item> {
                $crate::guard::user_code();
                $(if self.now == $v::CODEPOINT { self.now = 0; return self.$v.finish_decoding().map($set::$v); })*
                Err(ErrorKind::IncompleteDecoding.into())
            }
            fn requiring_bytes(&self) -> ByteCount {
                $(if self.now == $v::CODEPOINT { return self.$v.requiring_bytes(); })*
                ByteCount::Finite(0)
            }
            fn is_idle(&self) -> bool {
                $(if self.now == $v::CODEPOINT { return self.$v.is_idle(); })*
                true
            }
        }
        impl TryTaggedDecode for $dec {
            type Tag = AttributeType;
            fn try_start_decoding(&mut self, tag: AttributeType) -> bytecodec::Result<bool> {
                $crate::guard::user_code();
                $(if self.$v.try_start_decoding(tag)? { self.now = $v::CODEPOINT; return Ok(true); })*
                Ok(false)
            }
        }
        #[allow(non_snake_case)]
        #[derive(Default)]
        pub struct $enc { $($v: <$v as Attribute>::Encoder),* }
        impl Encode for $enc {
            type Item = $set;
            fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
                $crate::guard::user_code();
                $(if !self.$v.is_idle() { return self.$v.encode(buf, eos); })*
                Ok(0)
            }
            fn start_encoding(&mut self, item: $set) -> bytecodec::Result<()> {
                $crate::guard::user_code();
                match item { $($set::$v(a) => self.$v.start_encoding(a)),* }
            }
            fn requiring_bytes(&self) -> ByteCount { ByteCount::Finite(self.exact_requiring_bytes()) }
            fn is_idle(&self) -> bool { true $(&& self.$v.is_idle())* }
        }
        impl SizedEncode for $enc {
            fn exact_requiring_bytes(&self) -> u64 { 0 $(+ self.$v.exact_requiring_bytes())* }
        }
    };
}
hand_set!(Hand, HandDecoder, HandEncoder, [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
    XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data,
    XorRelayAddress, EvenPort, RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
    IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress, MobilityTicket,
    RequestedAddressFamily, AdditionalAddressFamily
]);
aset_enum!(Hand, "hand", [
    MappedAddress, Username, MessageIntegrity, ErrorCode, UnknownAttributes, Realm, Nonce, XorMappedAddress,
    XorMappedAddress2, Software, AlternateServer, Fingerprint, ChannelNumber, Lifetime, XorPeerAddress, Data,
    XorRelayAddress, EvenPort, RequestedTransport, DontFragment, ReservationToken, Priority, UseCandidate,
    IceControlled, IceControlling, ChangeRequest, ResponseOrigin, ResponsePort, OtherAddress, MobilityTicket,
    RequestedAddressFamily, AdditionalAddressFamily
], mi: MessageIntegrity, fp: Fingerprint);

/// A set composed of whole sets, with a catch-all last: what none of them knows
/// is an attribute of raw bytes.
#[derive(Debug, Clone)]
pub enum Mixed {
    Stun(rfc5389::Attribute),
    Turn(rfc5766::Attribute),
    Ice(rfc5245::Attribute),
    Raw(RawAttribute),
}
#[derive(Default)]
pub struct MixedDecoder {
    now: u8,
    stun: rfc5389::AttributeDecoder,
    turn: rfc5766::AttributeDecoder,
    ice: rfc5245::AttributeDecoder,
    raw: RawAttributeDecoder,
}
#[derive(Default)]
pub struct MixedEncoder {
    stun: rfc5389::AttributeEncoder,
    turn: rfc5766::AttributeEncoder,
    ice: rfc5245::AttributeEncoder,
    raw: RawAttributeEncoder,
}
macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            Mixed::Stun($a) => $e,
            Mixed::Turn($a) => $e,
            Mixed::Ice($a) => $e,
            Mixed::Raw($a) => $e,
        }
    };
}
impl Attribute for Mixed {
    type Decoder = MixedDecoder;
    type Encoder = MixedEncoder;
    fn get_type(&self) -> AttributeType {
        each!(self, a => a.get_type())
    }
    fn before_encode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        each!(self, a => a.before_encode(m))
    }
    fn after_decode<A: Attribute>(&mut self, m: &Message<A>) -> bytecodec::Result<()> {
        each!(self, a => a.after_decode(m))
    }
}
impl Decode for MixedDecoder {
    type Item = Mixed;
    fn decode(&mut self, buf: &[u8], eos: Eos) -> bytecodec::Result<usize> {
        match self.now {
            1 => self.stun.decode(buf, eos),
            2 => self.turn.decode(buf, eos),
            3 => self.ice.decode(buf, eos),
            4 => self.raw.decode(buf, eos),
            _ => Err(ErrorKind::InconsistentState.into()),
        }
    }
    fn finish_decoding(&mut self) -> bytecodec::Result<Mixed> {
        match std::mem::take(&mut self.now) {
            1 => self.stun.finish_decoding().map(Mixed::Stun),
            2 => self.turn.finish_decoding().map(Mixed::Turn),
            3 => self.ice.finish_decoding().map(Mixed::Ice),
            4 => self.raw.finish_decoding().map(Mixed::Raw),
            _ => Err(ErrorKind::IncompleteDecoding.into()),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        match self.now {
            1 => self.stun.requiring_bytes(),
            2 => self.turn.requiring_bytes(),
            3 => self.ice.requiring_bytes(),
            4 => self.raw.requiring_bytes(),
            _ => ByteCount::Finite(0),
        }
    }
    fn is_idle(&self) -> bool {
        match self.now {
            1 => self.stun.is_idle(),
            2 => self.turn.is_idle(),
            3 => self.ice.is_idle(),
            4 => self.raw.is_idle(),
            _ => true,
        }
    }
}
impl TryTaggedDecode for MixedDecoder {
    type Tag = AttributeType;
    fn try_start_decoding(&mut self, tag: AttributeType) -> bytecodec::Result<bool> {
        self.now = if self.stun.try_start_decoding(tag)? {
            1
        } else if self.turn.try_start_decoding(tag)? {
            2
        } else if self.ice.try_start_decoding(tag)? {
            3
        } else {
            4 * self.raw.try_start_decoding(tag)? as u8
        };
        Ok(self.now != 0)
    }
}
impl Encode for MixedEncoder {
    type Item = Mixed;
    fn encode(&mut self, buf: &mut [u8], eos: Eos) -> bytecodec::Result<usize> {
        if !self.stun.is_idle() {
            self.stun.encode(buf, eos)
        } else if !self.turn.is_idle() {
            self.turn.encode(buf, eos)
        } else if !self.ice.is_idle() {
            self.ice.encode(buf, eos)
        } else {
            self.raw.encode(buf, eos)
        }
    }
    fn start_encoding(&mut self, item: Mixed) -> bytecodec::Result<()> {
        match item {
            Mixed::Stun(a) => self.stun.start_encoding(a),
            Mixed::Turn(a) => self.turn.start_encoding(a),
            Mixed::Ice(a) => self.ice.start_encoding(a),
            Mixed::Raw(a) => self.raw.start_encoding(a),
        }
    }
    fn requiring_bytes(&self) -> ByteCount {
        ByteCount::Finite(self.exact_requiring_bytes())
    }
    fn is_idle(&self) -> bool {
        self.stun.is_idle() && self.turn.is_idle() && self.ice.is_idle() && self.raw.is_idle()
    }
}
impl SizedEncode for MixedEncoder {
    fn exact_requiring_bytes(&self) -> u64 {
        self.stun.exact_requiring_bytes() + self.turn.exact_requiring_bytes() + self.ice.exact_requiring_bytes() + self.raw.exact_requiring_bytes()
    }
}
impl ASet for Mixed {
    const NAME: &'static str = "mixed";
    const RAW: bool = true;
    fn knows(cp: u16) -> bool {
        <rfc5389::Attribute as ASet>::knows(cp) || <rfc5766::Attribute as ASet>::knows(cp) || <rfc5245::Attribute as ASet>::knows(cp)
    }
    fn of_av(av: &AV) -> Option<Self> {
        if <rfc5389::Attribute as ASet>::knows(av.cp) {
            <rfc5389::Attribute as ASet>::of_av(av).map(Mixed::Stun)
        } else if <rfc5766::Attribute as ASet>::knows(av.cp) {
            <rfc5766::Attribute as ASet>::of_av(av).map(Mixed::Turn)
        } else if <rfc5245::Attribute as ASet>::knows(av.cp) {
            <rfc5245::Attribute as ASet>::of_av(av).map(Mixed::Ice)
        } else {
            <RawAttribute as ASet>::of_av(av).map(Mixed::Raw)
        }
    }
    fn to_av(&self) -> AV {
        each!(self, a => a.to_av())
    }
    fn of_mi(m: MessageIntegrity) -> Option<Self> {
        Some(Mixed::Stun(m.into()))
    }
    fn as_mi(&self) -> Option<&MessageIntegrity> {
        match self {
            Mixed::Stun(a) => a.try_as_ref(),
            _ => None,
        }
    }
    fn of_fp(f: Fingerprint) -> Option<Self> {
        Some(Mixed::Stun(f.into()))
    }
}

/// Runs the body with type `$A` bound to attribute set number `$i`.
#[macro_export]
macro_rules! with_set {
    ($i:expr, $A:ident => $body:expr) => {
        match $i {
            0 => { type $A = $crate::sets::Full; $body }
            1 => { type $A = stun_codec::rfc5389::Attribute; $body }
            2 => { type $A = stun_codec::rfc5766::Attribute; $body }
            3 => { type $A = stun_codec::rfc5245::Attribute; $body }
            4 => { type $A = stun_codec::rfc5780::Attribute; $body }
            5 => { type $A = $crate::sets::NoDigest; $body }
            6 => { type $A = $crate::sets::Server; $body }
            7 => { type $A = stun_codec::RawAttribute; $body }
            8 => { type $A = stun_codec::rfc5389::attributes::MappedAddress; $body }
            9 => { type $A = stun_codec::rfc5389::attributes::Software; $body }
            10 => { type $A = stun_codec::rfc5766::attributes::XorPeerAddress; $body }
            11 => { type $A = stun_codec::rfc5389::attributes::UnknownAttributes; $body }
            12 => { type $A = stun_codec::rfc8016::attributes::MobilityTicket; $body }
            13 => { type $A = stun_codec::rfc5389::attributes::MessageIntegrity; $body }
            14 => { type $A = stun_codec::rfc5389::attributes::Fingerprint; $body }
            15 => { type $A = $crate::sets::Hand; $body }
            _ => { type $A = $crate::sets::Mixed; $body }
        }
    };
}
pub const N_SETS: u64 = 17;
/// weights favouring the full set
pub const SET_W: [u64; 17] = [25, 8, 6, 4, 4, 6, 5, 8, 3, 3, 3, 3, 3, 3, 3, 14, 8];

pub fn class_of(c: u8) -> MessageClass {
    match c {
        0 => MessageClass::Request,
        1 => MessageClass::Indication,
        2 => MessageClass::SuccessResponse,
        _ => MessageClass::ErrorResponse,
    }
}
pub fn class_no(c: MessageClass) -> u8 {
    match c {
        MessageClass::Request => 0,
        MessageClass::Indication => 1,
        MessageClass::SuccessResponse => 2,
        MessageClass::ErrorResponse => 3,
    }
}
pub fn method_of(m: u16) -> Method {
    // both public ways of making a method
    if m < 256 && m % 2 == 1 {
        Method::from(m as u8)
    } else {
        Method::new(m & 0xfff).expect("12-bit method")
    }
}

/// Everything a user can observe of a decoded message.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Obs {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub known: Vec<AV>,
    pub unknown: Vec<(u16, Vec<u8>)>,
}
pub fn observe<A: ASet>(m: &Message<A>) -> Obs {
    real(|| Obs {
        class: class_no(m.class()),
        method: m.method().as_u16(),
        tid: *m.transaction_id().as_bytes(),
        known: m.attributes().map(|a| a.to_av()).collect(),
        unknown: m
            .unknown_attributes()
            .map(|a| (a.get_type().as_u16(), a.value().to_vec()))
            .collect(),
    })
}
/// The same, predicted by the reference codec from the bytes.
pub fn predicted<A: ASet>(m: &refstun::RMsg, attrs: &[refstun::RAttr]) -> Obs {
    // RawAttribute reports every attribute as a known one holding raw bytes
    let raw = A::RAW;
    Obs {
        class: m.class,
        method: m.method,
        tid: m.tid,
        known: attrs
            .iter()
            .filter(|a| a.known || raw)
            .map(|a| AV { cp: a.cp, v: a.v.clone() })
            .collect(),
        unknown: attrs
            .iter()
            .filter(|a| !a.known && !raw)
            .map(|a| (a.cp, a.value.clone()))
            .collect(),
    }
}

pub fn encode_one<A: ASet>(m: Message<A>) -> Result<Vec<u8>, String> {
    real(|| MessageEncoder::<A>::new().encode_into_bytes(m)).map_err(|e| format!("{:?}", e.kind()))
}

#[derive(Clone, Debug)]
pub enum Outcome {
    /// observation, debug rendering, re-encoding
    Good(Obs, String, Option<Vec<u8>>),
    /// class, method, transaction id of a broken message
    Broken(u8, u16, [u8; 12]),
}
impl Outcome {
    pub fn same(&self, o: &Outcome) -> bool {
        match (self, o) {
            (Outcome::Good(a, ad, ae), Outcome::Good(b, bd, be)) => a == b && ad == bd && ae == be,
            (Outcome::Broken(a, b, c), Outcome::Broken(x, y, z)) => a == x && b == y && c == z,
            _ => false,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Outcome::Good(o, _, _) => format!(
                "message(class {} method 0x{:x} tid {} known {:?} unknown {:?})",
                o.class,
                o.method,
                crate::cx::hexs(&o.tid),
                o.known,
                o.unknown.iter().map(|(c, v)| (refstun::name_of(*c), v.len())).collect::<Vec<_>>()
            )
            .chars()
            .take(600)
            .collect(),
            Outcome::Broken(c, m, t) => format!("broken(class {} method 0x{:x} tid {})", c, m, crate::cx::hexs(t)),
        }
    }
    pub fn is_good(&self) -> bool {
        matches!(self, Outcome::Good(..))
    }
}
pub fn outcome<A: ASet>(d: stun_codec::DecodedMessage<A>, deep: bool) -> Outcome {
    match d {
        Ok(m) => {
            let o = observe(&m);
            let (dbg, enc) = if deep {
                (real(|| format!("{:?}", m)), encode_one(m).ok())
            } else {
                (String::new(), None)
            };
            Outcome::Good(o, dbg, enc)
        }
        Err(b) => Outcome::Broken(class_no(b.class()), b.method().as_u16(), *b.transaction_id().as_bytes()),
    }
}

pub fn dec_idle<A: ASet>(d: &MessageDecoder<A>) -> bool {
    real(|| d.is_idle())
}
pub fn enc_idle<A: ASet>(d: &MessageEncoder<A>) -> bool {
    real(|| d.is_idle())
}
pub fn new_msg<A: ASet>(class: u8, method: u16, tid: [u8; 12]) -> Message<A> {
    real(|| Message::new(class_of(class), method_of(method), TransactionId::new(tid)))
}
