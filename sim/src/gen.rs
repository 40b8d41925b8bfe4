//! Workload generators: abstract messages, and wire messages (valid, odd, broken).

use crate::cx::{viol, Cx, R};
use crate::guard::real;
use crate::refstun::{self, Kind, AV, TABLE, V};
use crate::sets::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
use stun_codec::rfc5389::attributes::{Fingerprint, MessageIntegrity, Realm, Username};
use stun_codec::Message;

pub fn tid(cx: &mut Cx) -> [u8; 12] {
    let b = match cx.weighted(&[8, 1, 1, 1, 1, 1]) {
        0 => cx.blob(12),
        4 => {
            // counted up, at either end
            let mut v = vec![cx.below(3) as u8; 12];
            let n = cx.below(70_000) as u32;
            let at = if cx.chance(50) { 0 } else { 8 };
            v[at..at + 4].copy_from_slice(&n.to_be_bytes());
            v
        }
        5 => vec![*cx.pick(&[0u8, 0x20, b'a', 0x80]); 12],
        1 => vec![0xff; 12],
        2 => [0x21, 0x12, 0xA4, 0x42].repeat(3),
        _ => {
            let mut v = vec![0; 12];
            let i = cx.us(12);
            v[i] = 0x80;
            v
        }
    };
    let mut t = [0u8; 12];
    t.copy_from_slice(&b);
    t
}
pub fn class(cx: &mut Cx) -> u8 {
    cx.below(4) as u8
}
pub fn method(cx: &mut Cx) -> u16 {
    match cx.weighted(&[8, 5, 3, 3, 4]) {
        0 => 1,
        1 => *cx.pick(&[1u16, 3, 4, 6, 7, 8, 9]),
        2 => cx.below(16) as u16,
        3 => *cx.pick(&[0x010, 0x00f, 0x011, 0x07f, 0x080, 0x0ff, 0x100, 0x7ff, 0x800, 0xfff, 0x555, 0xaaa, 0x070, 0xf80]),
        _ => cx.below(0x1000) as u16,
    }
}
pub fn addr(cx: &mut Cx) -> SocketAddr {
    let port = match cx.weighted(&[3, 1, 1, 1, 1]) {
        0 => cx.below(0x10000) as u16,
        1 => 0,
        2 => 0xffff,
        3 => 0x2112,
        _ => 3478,
    };
    let ip = match cx.weighted(&[5, 5, 1, 1, 1, 1, 1, 2, 2]) {
        7 => IpAddr::V4(*cx.pick(&[
            Ipv4Addr::UNSPECIFIED,
            Ipv4Addr::LOCALHOST,
            Ipv4Addr::new(224, 0, 0, 1),
            Ipv4Addr::new(10, 0, 0, 1),
            Ipv4Addr::new(169, 254, 0, 1),
            Ipv4Addr::new(240, 0, 0, 0),
            Ipv4Addr::new(0, 0, 0, 1),
        ])),
        8 => IpAddr::V6(*cx.pick(&[
            Ipv6Addr::UNSPECIFIED,
            // what the cookie turns into nothing, where the identifier is made of it, too
            Ipv6Addr::new(0x2112, 0xa442, 0x2112, 0xa442, 0x2112, 0xa442, 0x2112, 0xa442),
            Ipv6Addr::new(0, 0, 0, 0, 0, 0, 0xc000, 0x201),
            Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 1),
            Ipv6Addr::new(0xff02, 0, 0, 0, 0, 0, 0, 1),
            Ipv6Addr::new(0x64, 0xff9b, 0, 0, 0, 0, 0xc000, 0x201),
            Ipv6Addr::new(0x2002, 0xc000, 0x201, 0, 0, 0, 0, 1),
            Ipv6Addr::new(0xfc00, 0, 0, 0, 0, 0, 0, 0),
            Ipv6Addr::new(0x2112, 0xa442, 0, 0, 0, 0xffff, 0xc000, 0x201),
        ])),
        0 => {
            let b = cx.blob(4);
            IpAddr::V4(Ipv4Addr::new(b[0], b[1], b[2], b[3]))
        }
        1 => {
            let b = cx.blob(16);
            let mut o = [0u8; 16];
            o.copy_from_slice(&b);
            IpAddr::V6(Ipv6Addr::from(o))
        }
        2 => IpAddr::V4(Ipv4Addr::new(0x21, 0x12, 0xA4, 0x42)),
        3 => IpAddr::V6(Ipv6Addr::LOCALHOST),
        4 => IpAddr::V4(Ipv4Addr::BROADCAST),
        // IPv4-mapped IPv6 must stay IPv6
        5 => IpAddr::V6(Ipv4Addr::new(192, 0, 2, 1).to_ipv6_mapped()),
        _ => IpAddr::V6(Ipv6Addr::from([0xff; 16])),
    };
    SocketAddr::new(ip, port)
}
/// A string of at most `max` chars and `maxb` bytes.
const SPECIAL: [char; 32] = [
    '@', '\n', '\r', '\t', '%', '/', '=', '<', '>', '\'', '`', '&', '+', ',', ';', '#', '?', '*', '$', '(', '\u{df}', '\u{130}', '\u{131}',
    '\u{212a}', '\u{301}', '\u{a0}', '\u{ad}', '\u{200b}', '\u{ff21}', '\u{2028}', '\u{85}', '\u{2126}',
];
pub const WORDS: [&str; 28] = [
    "@", "@example.org", "user@example.org", "obMatJos2AAAA", "obMatJos2gAAA", "\"realm\"", "\"", "'x'", "null", "0", "-1", "true", "%00", "%s%n", "..", "a\r\nb",
    "EXAMPLE.org", "e\u{301}", "\u{e9}", "fi\u{fb01}", "\u{feff}text", "text\u{0}", " ", "\u{3000}",
    "日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本日本語", "éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "éééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééééé",
];
pub fn string(cx: &mut Cx, max: usize, maxb: usize) -> String {
    let n = match cx.weighted(&[6, 2, 1, 1]) {
        0 => cx.us(12),
        1 => cx.us(max + 1),
        2 => max,
        _ => max.saturating_sub(cx.us(5)),
    };
    let which = cx.weighted(&[10, 4, 2, 2, 3, 1, 1]);
    let palette: &[char] = match which {
        0 => &['a', 'b', 'Z', '0', ':', ' ', '.', '-'],
        1 => &['\u{e9}', '\u{30de}', 'x', '\u{1F600}', '\u{7ff}', '\u{800}'],
        2 => &['\0', '\u{1}', '\u{7f}', '\u{feff}', '"', '\\', ':'],
        3 => &['\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{FFFD}', 'q'],
        4 => &SPECIAL,
        _ => &[],
    };
    let b = cx.blob(n);
    let mut s = String::new();
    if which == 5 {
        // any characters at all
        let (mut k, mut i) = (0u32, 0);
        for x in b {
            k = k.wrapping_mul(0x0101_0095).wrapping_add(x as u32 + 1);
            i += 1;
            let top = if i % 3 == 0 { 0x11_0000 } else { 0x3000 };
            let c = char::from_u32((k >> 8) % top).unwrap_or('\u{d7ff}');
            if s.len() + c.len_utf8() > maxb {
                break;
            }
            s.push(c);
        }
        return s;
    }
    if which == 6 {
        // what one meets, whole
        let w = *cx.pick(&WORDS);
        if w.len() <= maxb && w.chars().count() <= max {
            return w.to_string();
        }
        return s;
    }
    for x in b {
        let c = palette[x as usize % palette.len()];
        if s.len() + c.len_utf8() > maxb {
            break;
        }
        s.push(c);
    }
    // land exactly on the byte limit now and then
    if max == maxb && n == max && cx.chance(50) {
        while s.len() < maxb {
            s.push('e');
        }
    }
    s
}
/// A text whose size in bytes lies around a limit somebody might set, with
/// characters of several bytes across it. Not necessarily a legal value.
pub fn long_text(cx: &mut Cx) -> String {
    let limit = *cx.pick(&[127usize, 128, 64, 255, 256, 381, 508, 509, 512, 513, 762, 763, 764, 1000, 1024, 1500, 2048, 3000]);
    let n = limit + cx.us(12);
    let n = n.saturating_sub(cx.us(12));
    let palette: &[char] = cx.pick(&[&['\u{20ac}'][..], &['\u{e9}'], &['\u{1F600}'], &['\u{20ac}', 'a', '\u{e9}', '\u{1F600}'], &['a']]);
    let lead = cx.us(4);
    let mut s = "x".repeat(lead);
    let b = cx.blob(n);
    for x in b {
        let c = palette[x as usize % palette.len()];
        if s.len() + c.len_utf8() > n {
            break;
        }
        s.push(c);
    }
    s
}
pub fn value_len(cx: &mut Cx) -> usize {
    match cx.weighted(&[6, 3, 2, 1]) {
        0 => cx.us(9),
        1 => cx.us(41),
        2 => cx.us(300),
        _ => cx.us(1500),
    }
}
/// A valid value for a table attribute (not MI/FP).
pub fn av(cx: &mut Cx, cp: u16) -> AV {
    let v = match refstun::kind_of(cp).expect("table") {
        Kind::Addr | Kind::XorAddr => V::Addr(addr(cx)),
        Kind::StrChars(n) => V::Str(string(cx, n - 1, 4 * n)),
        Kind::StrBytes(n) => V::Str(string(cx, n - 1, n - 1)),
        Kind::Err => {
            let code = match cx.weighted(&[4, 4, 1]) {
                0 => *cx.pick(&[300, 400, 401, 403, 405, 420, 437, 438, 440, 441, 442, 443, 446, 447, 486, 487, 500, 508]),
                1 => 300 + cx.below(300) as u16,
                _ => *cx.pick(&[300, 399, 400, 499, 500, 599]),
            };
            V::Err(code, string(cx, 127, 700))
        }
        Kind::List => {
            let n = match cx.weighted(&[8, 2, 1]) {
                0 => cx.us(6),
                1 => cx.us(40),
                _ => cx.us(700),
            };
            let mut b = cx.blob(2 * n);
            match cx.weighted(&[4, 1, 1]) {
                0 => {}
                // few different ones, and small ones
                1 => b.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 2 == 0 { 0x80 } else { *x % 4 }),
                _ => b.iter_mut().enumerate().for_each(|(i, x)| *x = if i % 2 == 0 { 0 } else { *x % 40 }),
            }
            V::List(b.chunks(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect())
        }
        Kind::Channel => V::U16(match cx.weighted(&[3, 1, 1]) {
            0 => 0x4000 + cx.below(0x1000) as u16,
            1 => 0x4000,
            _ => 0x4fff,
        }),
        Kind::U32 => V::U32(match cx.weighted(&[4, 1, 1, 1, 1, 1]) {
            0 => cx.below(1 << 32) as u32,
            4 => cx.below(3) as u32,
            5 => (1u32 << cx.below(32)) - 1,
            1 => u32::MAX,
            2 => 600,
            _ => 1 << cx.below(32),
        }),
        Kind::U64 => V::U64(match cx.weighted(&[4, 1, 1, 1, 1]) {
            0 => cx.below(u64::MAX),
            3 => cx.below(3),
            4 => (1u64 << cx.below(64)) - 1,
            1 => u64::MAX,
            _ => 1 << cx.below(64),
        }),
        Kind::EvenPort => V::Bool(cx.chance(50)),
        Kind::Transport => V::U8(if cx.chance(70) { *cx.pick(&[17u8, 6, 0, 255, 1, 128]) } else { cx.below(256) as u8 }),
        Kind::Flag => V::Flag,
        Kind::Change => {
            let n = cx.below(4);
            V::Bools(n & 1 != 0, n & 2 != 0)
        }
        Kind::Port16 => V::U16(match cx.weighted(&[3, 1, 1, 1, 1]) {
            0 => cx.below(0x10000) as u16,
            1 => 0xffff,
            2 => 0x00ff,
            4 => cx.below(2) as u16,
            _ => 0x8000,
        }),
        Kind::Bytes => {
            let n = value_len(cx);
            let mut b = cx.blob(n);
            match cx.weighted(&[8, 1, 1]) {
                0 => {}
                // a message inside a message, or what looks like the start of one
                1 => {
                    let l = n.saturating_sub(20) as u16 & !3;
                    let h = [0, 1, (l >> 8) as u8, l as u8, 0x21, 0x12, 0xa4, 0x42, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5];
                    b.iter_mut().zip(h).for_each(|(x, y)| *x = y);
                }
                _ => {
                    let x = *cx.pick(&[0u8, 0xff, 0x20, 0x80]);
                    b.iter_mut().for_each(|y| *y = x)
                }
            }
            V::Bytes(b)
        }
        Kind::Family => V::V6(cx.chance(50)),
        Kind::Mac | Kind::Crc => unreachable!("digest"),
    };
    AV { cp, v }
}
/// A value a careless program might try, outside what the attribute allows more often
/// than not. The constructor may refuse it; what it takes must arrive.
pub fn careless_av(cx: &mut Cx, cp: u16) -> AV {
    let v = match refstun::kind_of(cp).expect("table") {
        Kind::StrChars(n) | Kind::StrBytes(n) => {
            let c = *cx.pick(&['a', '\u{e9}', '\u{20ac}', '\u{1F600}']);
            let k = match cx.weighted(&[3, 3, 1]) {
                0 => (n + cx.us(4)).saturating_sub(2),
                1 => (n * cx.range(1, 5) as usize / c.len_utf8() + cx.us(4)).saturating_sub(2),
                _ => cx.us(70_000),
            };
            V::Str(c.to_string().repeat(k))
        }
        Kind::Err => {
            let code = match cx.weighted(&[3, 2, 1]) {
                0 => *cx.pick(&[0u16, 1, 99, 100, 199, 200, 299, 600, 601, 699, 700, 799, 800, 1000, 1023, 0x7fff, 0xffff]),
                1 => cx.below(1100) as u16,
                _ => cx.below(0x10000) as u16,
            };
            let n = *cx.pick(&[0usize, 3, 127, 128, 200, 509, 763, 800]);
            V::Err(code, "r".repeat(n))
        }
        Kind::Channel => V::U16(match cx.weighted(&[2, 1]) {
            0 => *cx.pick(&[0u16, 1, 0x3fff, 0x4000, 0x4fff, 0x5000, 0x7fff, 0x8000, 0xffff]),
            _ => cx.below(0x10000) as u16,
        }),
        _ => return av(cx, cp),
    };
    AV { cp, v }
}
pub fn plain_cp(cx: &mut Cx) -> u16 {
    TABLE[cx.us(refstun::N_PLAIN)].0
}
/// a codepoint the library defines nowhere
pub fn unknown_cp(cx: &mut Cx) -> u16 {
    loop {
        let cp = match cx.weighted(&[3, 3, 2, 1]) {
            3 => cx.below(0x10000) as u16,
            0 => 0x7F00 + cx.below(0x100) as u16,
            1 => 0xFE00 + cx.below(0x100) as u16,
            _ => *cx.pick(&[0x0000, 0x0002, 0x0004, 0x0005, 0x0007, 0x000b, 0x0021, 0x7fff, 0xffff, 0x8001, 0x8022 ^ 0x8000, 0x0028, 0x8008, 0x002A]),
        };
        if refstun::kind_of(cp).is_none() {
            return cp;
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Av(AV),
    MiShort(String),
    MiLong(String, String, String),
    Fp,
}
/// A message as a user builds it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Spec {
    pub class: u8,
    pub method: u16,
    pub tid: [u8; 12],
    pub items: Vec<Item>,
}
#[derive(Clone, Copy)]
pub struct GenCfg {
    pub max_attrs: usize,
    pub digests: bool,
    pub big: bool,
}
pub const SMALL: GenCfg = GenCfg { max_attrs: 5, digests: true, big: false };

/// A password, user name or realm of about as many characters as somebody might have
/// thought nobody would type.
fn long_secret(cx: &mut Cx, max: usize, maxb: usize) -> String {
    let n = match cx.weighted(&[6, 2, 1]) {
        0 => *cx.pick(&[32usize, 63, 64, 72, 100, 127, 128, 200, 255, 256, 257, 384, 500, 512, 513, 763, 1000, 1024]) + cx.us(3) - 1,
        1 => cx.us(1500),
        _ => *cx.pick(&[2048usize, 4096, 8192, 16_384, 32_768, 65_535, 65_536, 70_000]) + cx.us(3) - 1,
    };
    let n = n.min(max);
    let palette: &[char] = *cx.pick(&[&['p', 'q', 'r', 's', '0', ':'][..], &['\u{e9}', 'x'], &['\u{20ac}'], &['\u{1F600}', 'y'], &['w']]);
    let b = cx.blob(n.min(40));
    let mut s = String::new();
    for i in 0..n {
        let x = b.get(i % 40).copied().unwrap_or(0) as usize;
        let c = palette[(x + i / 40) % palette.len()];
        if s.len() + c.len_utf8() > maxb {
            break;
        }
        s.push(c);
    }
    s
}
pub fn credential(cx: &mut Cx) -> Item {
    if cx.chance(12) {
        cx.probe("long_credential");
        let mut t = [string(cx, 40, 200), string(cx, 40, 127), string(cx, 80, 400)];
        return match cx.weighted(&[3, 1, 1, 3]) {
            0 => Item::MiShort(long_secret(cx, 70_000, 300_000)),
            i => {
                if i == 1 {
                    t[0] = long_secret(cx, 512, 512);
                } else if i == 2 {
                    t[1] = long_secret(cx, 127, 700);
                } else {
                    t[2] = long_secret(cx, 70_000, 300_000);
                }
                let [u, r, p] = t;
                Item::MiLong(u, r, p)
            }
        };
    }
    if cx.chance(50) {
        let u = string(cx, 40, 200);
        let r = string(cx, 40, 127);
        let p = string(cx, 80, 400);
        Item::MiLong(u, r, p)
    } else {
        Item::MiShort(string(cx, 80, 400))
    }
}
/// Now and then: how many attributes more than usual a message has, about as many
/// as somebody might have counted on at most.
pub fn crowd_size(cx: &mut Cx) -> usize {
    if cx.below(256) != 255 {
        return 0;
    }
    let n = *cx.pick(&[17usize, 33, 65, 129, 257, 300, 520]);
    n + cx.us(3) - 1
}
/// Many small attributes, different ones, of a few of these types.
pub fn crowd(cx: &mut Cx, cps: &[u16]) -> Vec<AV> {
    let n = if cps.is_empty() { 0 } else { crowd_size(cx) };
    if n == 0 {
        return Vec::new();
    }
    cx.probe("message_of_many_attributes");
    let few: Vec<AV> = (0..1 + cx.us(3))
        .map(|_| {
            let cp = *cx.pick(cps);
            match refstun::kind_of(cp) {
                None | Some(Kind::Bytes) => AV { cp, v: V::Bytes(vec![0; 2 + cx.us(4)]) },
                Some(Kind::StrChars(_)) | Some(Kind::StrBytes(_)) => AV { cp, v: V::Str(String::new()) },
                Some(Kind::Err) => AV { cp, v: V::Err(400, String::new()) },
                Some(Kind::List) => AV { cp, v: V::List(vec![]) },
                Some(_) => av(cx, cp),
            }
        })
        .collect();
    (0..n)
        .map(|i| {
            let mut a = few[i % few.len()].clone();
            match &mut a.v {
                V::Bytes(b) => b[..2].copy_from_slice(&(i as u16).to_be_bytes()),
                V::Str(s) => *s = i.to_string(),
                V::Err(_, s) => *s = i.to_string(),
                V::List(l) => l.push(i as u16),
                V::Addr(x) => x.set_port(i as u16),
                V::U32(x) => *x = i as u32,
                V::U64(x) => *x = i as u64,
                _ => {}
            }
            a
        })
        .collect()
}
/// a message within the attributes of set A
pub fn spec<A: ASet>(cx: &mut Cx, cfg: GenCfg) -> Spec {
    cx.begin();
    let mut s = Spec { class: class(cx), method: method(cx), tid: tid(cx), items: Vec::new() };
    let cps: Vec<u16> = TABLE[..refstun::N_PLAIN].iter().map(|t| t.0).filter(|c| A::knows(*c)).collect();
    let raw = A::RAW;
    let mut items = Vec::new();
    let _ = cx.repeat(0, cfg.max_attrs, cfg.max_attrs.min(3), |cx, _| {
        if raw {
            let cp = if cx.chance(50) { plain_cp(cx) } else { unknown_cp(cx) };
            if A::knows(cp) {
                items.push(Item::Av(av(cx, cp)));
                return Ok(());
            }
            let n = value_len(cx);
            items.push(Item::Av(AV { cp, v: V::Bytes(cx.blob(n)) }));
        } else if !cps.is_empty() {
            let cp = *cx.pick(&cps);
            items.push(Item::Av(av(cx, cp)));
        }
        Ok(())
    });
    if raw {
        let few: Vec<u16> = (0..3).map(|_| unknown_cp(cx)).filter(|c| !A::knows(*c)).collect();
        items.extend(crowd(cx, &few).into_iter().map(Item::Av));
    } else {
        items.extend(crowd(cx, &cps).into_iter().map(Item::Av));
    }
    if cfg.big && cx.chance(60) {
        // fill up towards (or past) the 64 KiB limit
        let cp = if raw || A::knows(refstun::DATA) {
            Some(refstun::DATA)
        } else if A::knows(refstun::TICKET) {
            Some(refstun::TICKET)
        } else {
            None
        };
        if let Some(cp) = cp {
            s.items = std::mem::take(&mut items);
            let len = spec_len(&s);
            items = std::mem::take(&mut s.items);
            let n = match cx.weighted(&[3, 3, 1, 5]) {
                0 => 65400 + cx.us(136),
                1 => 30000 + cx.us(36000),
                2 => 65528 - cx.us(12),
                // the message as large as can be, with or without room for digests
                _ => {
                    let room = 65528usize.saturating_sub(len);
                    room.saturating_sub(cx.us(12) + *cx.pick(&[0usize, 8, 24, 32]))
                }
            };
            let at = cx.us(items.len() + 1);
            items.insert(at, Item::Av(AV { cp, v: V::Bytes(cx.blob(n)) }));
        }
    }
    if cfg.digests && A::knows(refstun::MI) && cx.chance(35) {
        let m = credential(cx);
        let at = if cx.chance(80) { items.len() } else { cx.us(items.len() + 1) };
        items.insert(at, m);
    }
    if cfg.digests && A::knows(refstun::FP) && cx.chance(35) {
        items.push(Item::Fp);
    }
    s.items = items;
    cx.end();
    s
}

/// Builds the real message through the public API. None when the real digest
/// constructors refuse (message too large).
pub fn build<A: ASet>(s: &Spec) -> Option<Message<A>> {
    let mut m = new_msg::<A>(s.class, s.method, s.tid);
    for it in &s.items {
        match it {
            Item::Av(a) => {
                let a = real(|| A::of_av(a))?;
                real(|| m.add_attribute(a));
            }
            Item::MiShort(p) => {
                let mi = real(|| MessageIntegrity::new_short_term_credential(&m, p)).ok()?;
                let a = A::of_mi(mi)?;
                real(|| m.add_attribute(a));
            }
            Item::MiLong(u, r, p) => {
                let (u, r) = (Username::new(u.clone()).ok()?, Realm::new(r.clone()).ok()?);
                let mi = real(|| MessageIntegrity::new_long_term_credential(&m, &u, &r, p)).ok()?;
                let a = A::of_mi(mi)?;
                real(|| m.add_attribute(a));
            }
            Item::Fp => {
                let f = real(|| Fingerprint::new(&m)).ok()?;
                let a = A::of_fp(f)?;
                real(|| m.add_attribute(a));
            }
        }
    }
    Some(m)
}
/// `build`, where refusing a message that fits the format is a violation.
pub fn made<A: ASet>(s: &Spec) -> R<Option<Message<A>>> {
    let m = build::<A>(s);
    if m.is_none() && spec_len(s) <= 0xffff {
        return viol("refused", format!("an attribute of this message could not be made, though all of it is valid [set {}]: {:?}", A::NAME, s).chars().take(900).collect::<String>());
    }
    Ok(m)
}
pub fn key_of(it: &Item) -> Option<Vec<u8>> {
    match it {
        Item::MiShort(p) => Some(p.as_bytes().to_vec()),
        Item::MiLong(u, r, p) => Some(refstun::long_term_key(u, r, p).to_vec()),
        _ => None,
    }
}
/// Size of the attribute part.
pub fn spec_len(s: &Spec) -> usize {
    s.items
        .iter()
        .map(|it| match it {
            Item::Av(a) => 4 + (refstun::value_bytes(a, &s.tid).len() + 3) / 4 * 4,
            Item::Fp => 8,
            _ => 24,
        })
        .sum()
}
/// The bytes the RFCs prescribe for the message (sizes must fit).
pub fn ref_encode(s: &Spec) -> Vec<u8> {
    let mut b = refstun::header(s.class, s.method, 0, &s.tid);
    for it in &s.items {
        match it {
            Item::Av(a) => {
                let v = refstun::value_bytes(a, &s.tid);
                refstun::push_tlv(&mut b, a.cp, &v, [0; 3]);
            }
            Item::Fp => {
                let c = refstun::fingerprint_of(&b);
                refstun::push_tlv(&mut b, refstun::FP, &c.to_be_bytes(), [0; 3]);
            }
            mi => {
                let m = refstun::mac_of(&b, &key_of(mi).expect("mi"));
                refstun::push_tlv(&mut b, refstun::MI, &m, [0; 3]);
            }
        }
    }
    let n = b.len() - 20;
    refstun::set_len(&mut b, n);
    b
}

/// Switches for wire-message generation (drawn per run, swarm style).
#[derive(Clone, Copy, Debug)]
pub struct WireCfg {
    pub max_attrs: usize,
    pub noise: bool,
    pub pad: bool,
    pub unknown: bool,
    pub invalid: bool,
    pub structure: bool,
    pub digests: bool,
    pub big: bool,
}
pub fn wire_cfg(cx: &mut Cx) -> WireCfg {
    WireCfg {
        max_attrs: *cx.pick(&[4, 2, 8, 16]),
        noise: cx.chance(40),
        pad: cx.chance(60),
        unknown: cx.chance(70),
        invalid: cx.chance(50),
        structure: cx.chance(50),
        digests: cx.chance(60),
        big: cx.chance(4),
    }
}
pub fn clean_cfg_of(mut c: WireCfg) -> WireCfg {
    c.invalid = false;
    c.structure = false;
    c
}
pub fn clean_cfg(cx: &mut Cx) -> WireCfg {
    let mut c = wire_cfg(cx);
    c.invalid = false;
    c.structure = false;
    c
}

/// Sets bits the RFCs reserve (to be ignored by receivers).
pub fn add_noise(cx: &mut Cx, cp: u16, v: &mut [u8]) {
    let n = cx.blob(4);
    match refstun::kind_of(cp) {
        Some(Kind::Addr) | Some(Kind::XorAddr) if !v.is_empty() => v[0] ^= n[0],
        Some(Kind::Err) if v.len() >= 4 => {
            v[0] ^= n[0];
            v[1] ^= n[1];
            v[2] ^= n[2] & 0xf8;
        }
        Some(Kind::Channel) | Some(Kind::Port16) if v.len() == 4 => {
            v[2] ^= n[2];
            v[3] ^= n[3];
        }
        Some(Kind::EvenPort) if v.len() == 1 => v[0] ^= n[0] & 0x7f,
        Some(Kind::Transport) | Some(Kind::Family) if v.len() == 4 => {
            v[1] ^= n[1];
            v[2] ^= n[2];
            v[3] ^= n[3];
        }
        Some(Kind::Change) if v.len() == 4 => {
            v[0] ^= n[0];
            v[1] ^= n[1];
            v[2] ^= n[2];
            v[3] ^= n[3] & 0xf9;
        }
        _ => {}
    }
}
/// Breaks a value: wrong length or illegal content.
/// Not UTF-8, though close to it: overlong forms, surrogates, beyond the last code point, cut sequences, lone
/// continuation bytes; and, to the contrary, the last legal ones.
const ODD_UTF8: [&[u8]; 16] = [
    &[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80],
    &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xe2, 0x82], &[0xf0, 0x9f, 0x92], &[0x80], &[0xfe, 0xff],
    &[0xf4, 0x8f, 0xbf, 0xbf], &[0xef, 0xbf, 0xbf], &[0xed, 0x9f, 0xbf],
];
pub fn spoil(cx: &mut Cx, cp: u16, v: &mut Vec<u8>) {
    match cx.weighted(&[3, 3, 3, 2, 2]) {
        0 => {
            let n = cx.us(v.len() + 1);
            v.truncate(n);
        }
        1 => {
            let n = 1 + cx.us(9);
            v.extend(cx.blob(n));
        }
        4 => {
            // bytes that look like UTF-8, somewhere in the value
            let w = *cx.pick(&ODD_UTF8);
            let at = cx.us(v.len() + 1);
            let at = if matches!(refstun::kind_of(cp), Some(Kind::Err)) { at.max(4).min(v.len()) } else { at };
            if cx.chance(50) {
                v.truncate(at);
            }
            v.splice(at..at, w.iter().copied());
        }
        2 => match refstun::kind_of(cp) {
            Some(Kind::Addr) | Some(Kind::XorAddr) if v.len() > 1 => v[1] = *cx.pick(&[0, 3, 0xff, 0x10, 1, 2]),
            Some(Kind::StrChars(n)) => {
                let extra = n - 1 + cx.us(3);
                *v = vec![b'x'; extra];
                if cx.chance(40) {
                    v.push(0xff);
                }
            }
            Some(Kind::StrBytes(n)) => {
                let extra = n - 1 + cx.us(3);
                *v = vec![b'x'; extra];
            }
            Some(Kind::Err) if v.len() >= 4 => {
                v[2] = *cx.pick(&[0, 1, 2, 7, 3, 6]);
                v[3] = *cx.pick(&[99, 100, 127, 128, 255]);
            }
            Some(Kind::Channel) if v.len() >= 2 => v[0] = *cx.pick(&[0x3f, 0x50, 0x80, 0x00, 0xff]),
            Some(Kind::Family) if !v.is_empty() => v[0] = *cx.pick(&[0, 3, 0xff]),
            _ => {
                let i = cx.us(v.len().max(1));
                if i < v.len() {
                    v[i] ^= 0xff;
                }
            }
        },
        _ => {
            let i = cx.us(v.len().max(1));
            if i < v.len() {
                v[i] ^= 1 << cx.below(8);
            }
        }
    }
}

/// One message on the wire, header acceptable. Valid or broken; the reference
/// codec is what decides which.
pub fn wire(cx: &mut Cx, cfg: WireCfg) -> Vec<u8> {
    cx.begin();
    let t = tid(cx);
    let (c, m) = (class(cx), method(cx));
    let mut b = refstun::header(c, m, 0, &t);
    let _ = cx.repeat(0, cfg.max_attrs, (cfg.max_attrs + 1) / 2, |cx, _| {
        one_attr(cx, &cfg, &mut b, &t);
        Ok(())
    });
    if b.len() < 20_000 {
        let cps = [plain_cp(cx), plain_cp(cx), if cfg.unknown { unknown_cp(cx) } else { refstun::SOFTWARE }];
        for a in crowd(cx, &cps) {
            refstun::push_tlv(&mut b, a.cp, &refstun::value_bytes(&a, &t), [0; 3]);
        }
    }
    if cfg.big && b.len() < 2000 {
        let n = match cx.weighted(&[2, 2, 2]) {
            0 => 65400 + cx.us(90),
            1 => 20000 + cx.us(40000),
            _ => {
                // leave room for exactly a fingerprint, or a little less/more
                let room = 65532 + 20 - b.len() - 4;
                room - 4 * cx.us(9)
            }
        };
        let room = 65532 + 20 - b.len() - 4;
        let n = n.min(room);
        let cp = *cx.pick(&[refstun::DATA, refstun::TICKET, 0x7F01]);
        let v = cx.blob(n);
        refstun::push_tlv(&mut b, cp, &v, [0; 3]);
    }
    if cfg.digests {
        if cx.chance(30) && b.len() + 24 <= 65552 {
            let key = cx.blob(8);
            let mut mac = refstun::mac_of(&b, &key);
            if cx.chance(30) {
                mac[cx.us(20)] ^= 1 << cx.below(8);
            }
            refstun::push_tlv(&mut b, refstun::MI, &mac, [0; 3]);
        }
        if cx.chance(40) && b.len() + 8 <= 65552 {
            let mut f = refstun::fingerprint_of(&b);
            if cfg.invalid && cx.chance(30) {
                f ^= 1 << cx.below(32);
            }
            refstun::push_tlv(&mut b, refstun::FP, &f.to_be_bytes(), [0; 3]);
        }
    }
    if b.len() > 65552 {
        b.truncate(65552);
    }
    let n = b.len() - 20;
    refstun::set_len(&mut b, n);
    if cfg.structure && cx.chance(35) {
        structure_fault(cx, &mut b);
    }
    cx.end();
    b
}
fn one_attr(cx: &mut Cx, cfg: &WireCfg, b: &mut Vec<u8>, t: &[u8; 12]) {
    let pad = if cfg.pad {
        let p = cx.blob(3);
        [p[0], p[1], p[2]]
    } else {
        [0; 3]
    };
    if cfg.unknown && cx.chance(30) {
        let cp = unknown_cp(cx);
        let n = value_len(cx);
        let v = cx.blob(n);
        refstun::push_tlv(b, cp, &v, pad);
        return;
    }
    if cfg.digests && cx.chance(6) && b.len() < 30000 {
        let f = refstun::fingerprint_of(b);
        refstun::push_tlv(b, refstun::FP, &f.to_be_bytes(), [0; 3]);
        return;
    }
    let cp = plain_cp(cx);
    let a = av(cx, cp);
    let mut v = refstun::value_bytes(&a, t);
    match refstun::kind_of(cp) {
        // any length is taken
        Some(Kind::Err) if cx.chance(15) => {
            v.truncate(4);
            v.extend(long_text(cx).into_bytes());
        }
        Some(Kind::StrChars(_)) | Some(Kind::StrBytes(_)) if cfg.invalid && cx.chance(15) => v = long_text(cx).into_bytes(),
        _ => {}
    }
    if cfg.noise && cx.chance(50) {
        add_noise(cx, cp, &mut v);
    }
    if cfg.invalid && cx.chance(20) {
        spoil(cx, cp, &mut v);
    }
    refstun::push_tlv(b, cp, &v, pad);
}
/// Makes lengths lie. The total number of bytes still equals 20 + the length field.
fn structure_fault(cx: &mut Cx, b: &mut Vec<u8>) {
    // offsets of the attributes as they stand
    let mut offs = Vec::new();
    let mut o = 20;
    while o + 4 <= b.len() {
        offs.push(o);
        let vl = u16::from_be_bytes([b[o + 2], b[o + 3]]) as usize;
        o += 4 + (vl + 3) / 4 * 4;
    }
    match cx.weighted(&[4, 3, 3, 2]) {
        0 if !offs.is_empty() => {
            // the last (or some) attribute claims more than there is
            let at = if cx.chance(70) { *offs.last().unwrap() } else { *cx.pick(&offs) };
            let vl = u16::from_be_bytes([b[at + 2], b[at + 3]]) as usize;
            let avail = b.len() - at - 4;
            let n = match cx.weighted(&[3, 2, 2, 1]) {
                0 => avail + 1 + cx.us(4),
                1 => 2 * avail,
                2 => vl + 1 + cx.us(64),
                _ => 0xffff,
            };
            let n = n.min(0xffff) as u16;
            b[at + 2..at + 4].copy_from_slice(&n.to_be_bytes());
        }
        1 => {
            // the message stops inside an attribute, and says so in its length field
            let cut = 20 + cx.us(b.len() - 20 + 1);
            b.truncate(cut);
        }
        2 => {
            // stray bytes after the last attribute
            let n = 1 + cx.us(7);
            let x = cx.blob(n);
            if b.len() + n <= 65535 {
                b.extend(x);
            }
        }
        _ if !offs.is_empty() => {
            // an attribute claims less than it has: what follows is misparsed
            let at = *cx.pick(&offs);
            let vl = u16::from_be_bytes([b[at + 2], b[at + 3]]) as usize;
            let n = cx.us(vl + 1) as u16;
            b[at + 2..at + 4].copy_from_slice(&n.to_be_bytes());
        }
        _ => {}
    }
    let n = b.len() - 20;
    refstun::set_len(b, n);
}
/// Bytes that are no STUN message: the receiver must reject them.
pub fn not_stun(cx: &mut Cx) -> Vec<u8> {
    let mut b = match cx.weighted(&[3, 2, 1]) {
        0 => {
            let c = clean_cfg(cx);
            wire(cx, WireCfg { max_attrs: 2, big: false, ..c })
        }
        1 => {
            let n = 20 + cx.us(60);
            cx.blob(n)
        }
        _ => {
            let n = cx.us(20);
            return cx.blob(n);
        }
    };
    if cx.chance(50) {
        // TURN channel data, DTLS, RTP ...: top bits
        b[0] |= *cx.pick(&[0x40u8, 0x80, 0xc0]);
        if cx.chance(40) {
            // the first bytes of what shares a port with STUN, and other striking ones
            const FIRST: [u16; 26] = [
                0xffff, 0x4000, 0x4001, 0x4fff, 0x5000, 0x7fff, 0x8000, 0x8001, 0x8060, 0x80c8, 0x80c9, 0x80e0, 0xc000, 0xc0ff, 0xfffe, 0xff00, 0xfeff, 0x4745,
                0x504f, 0x4854, 0xfefd, 0x4001, 0x4101, 0x8101, 0xbfff, 0x7f00,
            ];
            b[..2].copy_from_slice(&cx.pick(&FIRST).to_be_bytes());
        } else if cx.chance(20) {
            b[1] = cx.below(256) as u8;
            b[0] = 0x40 + cx.below(0xc0) as u8;
        }
    } else {
        let i = 4 + cx.us(4);
        b[i] ^= 1 << cx.below(8);
    }
    b
}
