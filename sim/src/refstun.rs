//! Reference STUN codec, written from RFC 5389, 5766, 5245, 5780, 8016 and 8656.
//! It shares no code with stun_codec; it is the oracle for what bytes mean.

use crate::crypto;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub const COOKIE: u32 = 0x2112_A442;

/// Abstract attribute value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Addr(SocketAddr),
    Str(String),
    Err(u16, String),
    List(Vec<u16>),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Bool(bool),
    Bools(bool, bool),
    Flag,
    Bytes(Vec<u8>),
    /// address family attribute: true means IPv6
    V6(bool),
    Mac([u8; 20]),
    Crc(u32),
}
/// Abstract attribute: codepoint and meaning.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct AV {
    pub cp: u16,
    pub v: V,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Addr,
    XorAddr,
    /// limit in characters (exclusive)
    StrChars(usize),
    /// limit in bytes (exclusive)
    StrBytes(usize),
    Err,
    List,
    Channel,
    U32,
    U64,
    EvenPort,
    Transport,
    Flag,
    Change,
    Port16,
    Bytes,
    Family,
    Mac,
    Crc,
}
pub const MI: u16 = 0x0008;
pub const FP: u16 = 0x8028;
pub const UNKNOWN_ATTRS: u16 = 0x000A;
pub const ERROR_CODE: u16 = 0x0009;
pub const USERNAME: u16 = 0x0006;
pub const REALM: u16 = 0x0014;
pub const NONCE: u16 = 0x0015;
pub const DATA: u16 = 0x0013;
pub const SOFTWARE: u16 = 0x8022;
pub const XMA: u16 = 0x0020;
pub const TICKET: u16 = 0x8030;

pub const TABLE: &[(u16, Kind, &str)] = &[
    (0x8022, Kind::StrChars(128), "SOFTWARE"),
    (0x0001, Kind::Addr, "MAPPED-ADDRESS"),
    (0x0006, Kind::StrBytes(513), "USERNAME"),
    (0x0009, Kind::Err, "ERROR-CODE"),
    (0x000A, Kind::List, "UNKNOWN-ATTRIBUTES"),
    (0x0014, Kind::StrChars(128), "REALM"),
    (0x0015, Kind::StrChars(128), "NONCE"),
    (0x0020, Kind::XorAddr, "XOR-MAPPED-ADDRESS"),
    (0x8020, Kind::XorAddr, "XOR-MAPPED-ADDRESS2"),
    (0x8023, Kind::Addr, "ALTERNATE-SERVER"),
    (0x000C, Kind::Channel, "CHANNEL-NUMBER"),
    (0x000D, Kind::U32, "LIFETIME"),
    (0x0012, Kind::XorAddr, "XOR-PEER-ADDRESS"),
    (0x0013, Kind::Bytes, "DATA"),
    (0x0016, Kind::XorAddr, "XOR-RELAYED-ADDRESS"),
    (0x0018, Kind::EvenPort, "EVEN-PORT"),
    (0x0019, Kind::Transport, "REQUESTED-TRANSPORT"),
    (0x001A, Kind::Flag, "DONT-FRAGMENT"),
    (0x0022, Kind::U64, "RESERVATION-TOKEN"),
    (0x0024, Kind::U32, "PRIORITY"),
    (0x0025, Kind::Flag, "USE-CANDIDATE"),
    (0x8029, Kind::U64, "ICE-CONTROLLED"),
    (0x802A, Kind::U64, "ICE-CONTROLLING"),
    (0x0003, Kind::Change, "CHANGE-REQUEST"),
    (0x802b, Kind::Addr, "RESPONSE-ORIGIN"),
    (0x802c, Kind::Addr, "OTHER-ADDRESS"),
    (0x0027, Kind::Port16, "RESPONSE-PORT"),
    (0x8030, Kind::Bytes, "MOBILITY-TICKET"),
    (0x0017, Kind::Family, "REQUESTED-ADDRESS-FAMILY"),
    (0x8000, Kind::Family, "ADDITIONAL-ADDRESS-FAMILY"),
    (0x0008, Kind::Mac, "MESSAGE-INTEGRITY"),
    (0x8028, Kind::Crc, "FINGERPRINT"),
];
/// the attributes a generator may build freely (all but MESSAGE-INTEGRITY and FINGERPRINT)
pub const N_PLAIN: usize = 30;

pub fn kind_of(cp: u16) -> Option<Kind> {
    TABLE.iter().find(|t| t.0 == cp).map(|t| t.1)
}
pub fn name_of(cp: u16) -> String {
    TABLE
        .iter()
        .find(|t| t.0 == cp)
        .map(|t| t.2.to_string())
        .unwrap_or_else(|| format!("0x{:04x}", cp))
}

/// message type field from class (0 request, 1 indication, 2 success, 3 error) and method
pub fn type_field(class: u8, method: u16) -> u16 {
    let c = class as u16;
    let mut t = 0u16;
    // M0..M3 -> bits 0..3, C0 -> bit 4, M4..M6 -> bits 5..7, C1 -> bit 8, M7..M11 -> bits 9..13
    for i in 0..12 {
        let bit = (method >> i) & 1;
        let pos = match i {
            0..=3 => i,
            4..=6 => i + 1,
            _ => i + 2,
        };
        t |= bit << pos;
    }
    t |= (c & 1) << 4;
    t |= ((c >> 1) & 1) << 8;
    t
}
pub fn split_type(t: u16) -> (u8, u16) {
    let class = (((t >> 4) & 1) | (((t >> 8) & 1) << 1)) as u8;
    let mut m = 0u16;
    for i in 0..12 {
        let pos = match i {
            0..=3 => i,
            4..=6 => i + 1,
            _ => i + 2,
        };
        m |= ((t >> pos) & 1) << i;
    }
    (class, m)
}

fn xor_mask(tid: &[u8; 12]) -> [u8; 16] {
    let mut m = [0u8; 16];
    m[..4].copy_from_slice(&COOKIE.to_be_bytes());
    m[4..].copy_from_slice(tid);
    m
}
fn addr_bytes(a: &SocketAddr, mask: Option<&[u8; 12]>) -> Vec<u8> {
    let mut ip = match a.ip() {
        IpAddr::V4(i) => i.octets().to_vec(),
        IpAddr::V6(i) => i.octets().to_vec(),
    };
    let mut port = a.port();
    if let Some(tid) = mask {
        let m = xor_mask(tid);
        for (b, k) in ip.iter_mut().zip(m.iter()) {
            *b ^= k;
        }
        port ^= 0x2112;
    }
    let mut out = vec![0, if ip.len() == 4 { 1 } else { 2 }];
    out.extend_from_slice(&port.to_be_bytes());
    out.extend_from_slice(&ip);
    out
}
fn addr_parse(b: &[u8], mask: Option<&[u8; 12]>) -> Option<SocketAddr> {
    if b.len() < 4 {
        return None;
    }
    let n = match b[1] {
        1 => 4,
        2 => 16,
        _ => return None,
    };
    if b.len() != 4 + n {
        return None;
    }
    let mut port = u16::from_be_bytes([b[2], b[3]]);
    let mut ip = b[4..].to_vec();
    if let Some(tid) = mask {
        port ^= 0x2112;
        let m = xor_mask(tid);
        for (x, k) in ip.iter_mut().zip(m.iter()) {
            *x ^= k;
        }
    }
    let ip = if n == 4 {
        IpAddr::V4(Ipv4Addr::new(ip[0], ip[1], ip[2], ip[3]))
    } else {
        let mut o = [0u8; 16];
        o.copy_from_slice(&ip);
        IpAddr::V6(Ipv6Addr::from(o))
    };
    Some(SocketAddr::new(ip, port))
}

/// Canonical value bytes of an attribute.
pub fn value_bytes(av: &AV, tid: &[u8; 12]) -> Vec<u8> {
    match (&av.v, kind_of(av.cp)) {
        (V::Addr(a), Some(Kind::XorAddr)) => addr_bytes(a, Some(tid)),
        (V::Addr(a), _) => addr_bytes(a, None),
        (V::Str(s), _) => s.as_bytes().to_vec(),
        (V::Err(c, s), _) => {
            let mut o = vec![0, 0, (c / 100) as u8, (c % 100) as u8];
            o.extend_from_slice(s.as_bytes());
            o
        }
        (V::List(l), _) => l.iter().flat_map(|x| x.to_be_bytes()).collect(),
        (V::U8(p), Some(Kind::Transport)) => vec![*p, 0, 0, 0],
        (V::U8(p), _) => vec![*p],
        (V::U16(p), _) => {
            let mut o = p.to_be_bytes().to_vec();
            o.extend_from_slice(&[0, 0]);
            o
        }
        (V::U32(x), _) => x.to_be_bytes().to_vec(),
        (V::U64(x), _) => x.to_be_bytes().to_vec(),
        (V::Bool(b), _) => vec![if *b { 0x80 } else { 0 }],
        (V::Bools(ip, port), _) => vec![0, 0, 0, (*ip as u8) * 4 + (*port as u8) * 2],
        (V::Flag, _) => vec![],
        (V::Bytes(b), _) => b.clone(),
        (V::V6(six), _) => vec![if *six { 2 } else { 1 }, 0, 0, 0],
        (V::Mac(m), _) => m.to_vec(),
        (V::Crc(c), _) => c.to_be_bytes().to_vec(),
    }
}

/// What the RFCs (as far as the library follows them) say about a value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Valid(V),
    Invalid(&'static str),
    /// legal in one reading of the RFCs and not in another: both outcomes are accepted
    Either(V),
}

pub fn parse_value(cp: u16, b: &[u8], tid: &[u8; 12]) -> Verdict {
    use Verdict::*;
    let kind = match kind_of(cp) {
        Some(k) => k,
        None => return Valid(V::Bytes(b.to_vec())),
    };
    let exact = |n: usize| b.len() == n;
    match kind {
        Kind::Addr => addr_parse(b, None).map(|a| Valid(V::Addr(a))).unwrap_or(Invalid("address")),
        Kind::XorAddr => addr_parse(b, Some(tid)).map(|a| Valid(V::Addr(a))).unwrap_or(Invalid("address")),
        Kind::StrChars(n) => match std::str::from_utf8(b) {
            Ok(s) if s.chars().count() < n => Valid(V::Str(s.into())),
            Ok(_) => Invalid("string too long"),
            Err(_) => Invalid("utf-8"),
        },
        Kind::StrBytes(n) => match std::str::from_utf8(b) {
            Ok(s) if b.len() < n => Valid(V::Str(s.into())),
            Ok(_) => Invalid("string too long"),
            Err(_) => Invalid("utf-8"),
        },
        Kind::Err => {
            if b.len() < 4 {
                return Invalid("error code too short");
            }
            let class = (b[2] & 7) as u16;
            let number = b[3] as u16;
            let s = match std::str::from_utf8(&b[4..]) {
                Ok(s) => s.to_string(),
                Err(_) => return Invalid("utf-8"),
            };
            if number >= 100 || !(3..=6).contains(&class) {
                return Invalid("error code out of range");
            }
            let v = V::Err(class * 100 + number, s.clone());
            if class == 6 || s.chars().count() >= 128 {
                Either(v)
            } else {
                Valid(v)
            }
        }
        Kind::List => {
            if b.len() % 2 != 0 {
                return Invalid("odd list");
            }
            Valid(V::List(b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()))
        }
        Kind::Channel => {
            if !exact(4) {
                return Invalid("length");
            }
            let n = u16::from_be_bytes([b[0], b[1]]);
            match n {
                0x4000..=0x4FFF => Valid(V::U16(n)),
                // RFC 5766 allowed these, RFC 8656 reserves them
                0x5000..=0x7FFF => Either(V::U16(n)),
                _ => Invalid("channel number"),
            }
        }
        Kind::U32 => {
            if !exact(4) {
                return Invalid("length");
            }
            Valid(V::U32(u32::from_be_bytes([b[0], b[1], b[2], b[3]])))
        }
        Kind::U64 => {
            if !exact(8) {
                return Invalid("length");
            }
            let mut o = [0u8; 8];
            o.copy_from_slice(b);
            Valid(V::U64(u64::from_be_bytes(o)))
        }
        Kind::EvenPort => {
            if !exact(1) {
                return Invalid("length");
            }
            Valid(V::Bool(b[0] & 0x80 != 0))
        }
        Kind::Transport => {
            if !exact(4) {
                return Invalid("length");
            }
            Valid(V::U8(b[0]))
        }
        Kind::Flag => {
            if !exact(0) {
                return Invalid("length");
            }
            Valid(V::Flag)
        }
        Kind::Change => {
            if !exact(4) {
                return Invalid("length");
            }
            Valid(V::Bools(b[3] & 4 != 0, b[3] & 2 != 0))
        }
        Kind::Port16 => {
            if exact(4) {
                Valid(V::U16(u16::from_be_bytes([b[0], b[1]])))
            } else if exact(2) {
                Either(V::U16(u16::from_be_bytes([b[0], b[1]])))
            } else {
                Invalid("length")
            }
        }
        Kind::Bytes => Valid(V::Bytes(b.to_vec())),
        Kind::Family => {
            if !exact(4) {
                return Invalid("length");
            }
            match b[0] {
                1 => Valid(V::V6(false)),
                2 => Valid(V::V6(true)),
                _ => Invalid("family"),
            }
        }
        Kind::Mac => {
            if !exact(20) {
                return Invalid("length");
            }
            let mut o = [0u8; 20];
            o.copy_from_slice(b);
            Valid(V::Mac(o))
        }
        Kind::Crc => {
            if !exact(4) {
                return Invalid("length");
            }
            Valid(V::Crc(u32::from_be_bytes([b[0], b[1], b[2], b[3]])))
        }
    }
}

pub fn header(class: u8, method: u16, len: u16, tid: &[u8; 12]) -> Vec<u8> {
    let mut o = type_field(class, method).to_be_bytes().to_vec();
    o.extend_from_slice(&len.to_be_bytes());
    o.extend_from_slice(&COOKIE.to_be_bytes());
    o.extend_from_slice(tid);
    o
}
pub fn set_len(b: &mut [u8], len: usize) {
    b[2..4].copy_from_slice(&(len as u16).to_be_bytes());
}
pub fn push_tlv(b: &mut Vec<u8>, cp: u16, value: &[u8], pad: [u8; 3]) {
    b.extend_from_slice(&cp.to_be_bytes());
    b.extend_from_slice(&(value.len() as u16).to_be_bytes());
    b.extend_from_slice(value);
    let n = (4 - value.len() % 4) % 4;
    b.extend_from_slice(&pad[..n]);
}
/// `prefix` is a message up to (not including) the attribute; the length field
/// is taken as ending right after the attribute, as the RFC asks.
pub fn fingerprint_of(prefix: &[u8]) -> u32 {
    let mut p = prefix.to_vec();
    set_len(&mut p, prefix.len() - 20 + 8);
    crypto::crc32(&p) ^ 0x5354_554e
}
pub fn mac_of(prefix: &[u8], key: &[u8]) -> [u8; 20] {
    let mut p = prefix.to_vec();
    set_len(&mut p, prefix.len() - 20 + 24);
    crypto::hmac_sha1(key, &p)
}
pub fn long_term_key(user: &str, realm: &str, pw: &str) -> [u8; 16] {
    let mut s = Vec::new();
    s.extend_from_slice(user.as_bytes());
    s.push(b':');
    s.extend_from_slice(realm.as_bytes());
    s.push(b':');
    s.extend_from_slice(pw.as_bytes());
    crypto::md5(&s)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RAttr {
    pub cp: u16,
    pub value: Vec<u8>,
    pub pad: Vec<u8>,
    pub known: bool,
    pub v: V,
    /// offset of the attribute in the message
    pub off: usize,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Body {
    Valid(Vec<RAttr>),
    Invalid(&'static str),
    Either(Vec<RAttr>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RMsg {
    pub total: usize,
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub body: Body,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ROut {
    /// no STUN header here
    Reject(&'static str),
    /// needs more bytes than given
    Incomplete,
    Msg(RMsg),
}

/// Decodes the message at the head of `b`, understanding only the attributes `knows` accepts.
pub fn decode(b: &[u8], knows: &dyn Fn(u16) -> bool) -> ROut {
    if b.len() < 20 {
        return ROut::Incomplete;
    }
    let t = u16::from_be_bytes([b[0], b[1]]);
    if t & 0xC000 != 0 {
        return ROut::Reject("top bits");
    }
    if u32::from_be_bytes([b[4], b[5], b[6], b[7]]) != COOKIE {
        return ROut::Reject("cookie");
    }
    let len = u16::from_be_bytes([b[2], b[3]]) as usize;
    if b.len() < 20 + len {
        return ROut::Incomplete;
    }
    let (class, method) = split_type(t);
    let mut tid = [0u8; 12];
    tid.copy_from_slice(&b[8..20]);
    let m = &b[..20 + len];
    ROut::Msg(RMsg { total: 20 + len, class, method, tid, body: body(m, &tid, knows) })
}

fn body(m: &[u8], tid: &[u8; 12], knows: &dyn Fn(u16) -> bool) -> Body {
    let mut off = 20;
    let mut attrs = Vec::new();
    let mut either = false;
    let mut bad: Option<&'static str> = None;
    while off < m.len() {
        if m.len() - off < 4 {
            return Body::Invalid("attribute header cut");
        }
        let cp = u16::from_be_bytes([m[off], m[off + 1]]);
        let vl = u16::from_be_bytes([m[off + 2], m[off + 3]]) as usize;
        let padded = (vl + 3) / 4 * 4;
        if m.len() - off - 4 < padded {
            return Body::Invalid("attribute overruns message");
        }
        let value = &m[off + 4..off + 4 + vl];
        let pad = &m[off + 4 + vl..off + 4 + padded];
        let known = knows(cp);
        let v = if known {
            match parse_value(cp, value, tid) {
                Verdict::Valid(v) => v,
                Verdict::Either(v) => {
                    either = true;
                    v
                }
                Verdict::Invalid(why) => {
                    bad.get_or_insert(why);
                    V::Flag
                }
            }
        } else {
            V::Bytes(value.to_vec())
        };
        if known && cp == FP {
            if let V::Crc(c) = v {
                if c != fingerprint_of(&m[..off]) {
                    bad.get_or_insert("fingerprint");
                }
            }
        }
        attrs.push(RAttr { cp, value: value.to_vec(), pad: pad.to_vec(), known, v, off });
        off += 4 + padded;
    }
    if let Some(why) = bad {
        Body::Invalid(why)
    } else if either {
        Body::Either(attrs)
    } else {
        Body::Valid(attrs)
    }
}

/// Outcome of checking the first MESSAGE-INTEGRITY of message `m` (whole message bytes) with `key`.
pub fn check_mac(m: &[u8], at: usize, key: &[u8]) -> bool {
    mac_of(&m[..at], key)[..] == m[at + 4..at + 24]
}
