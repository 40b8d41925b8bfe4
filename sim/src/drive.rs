//! Drivers: the ways a program feeds bytes to the codec, with the simulator
//! deciding every read size, stall, interruption and end of stream.

use crate::cx::{viol, Cx, R};

use crate::guard::real;
use crate::sets::*;
use bytecodec::io::{IoDecodeExt, IoEncodeExt, ReadBuf, WriteBuf};
use bytecodec::{ByteCount, Decode, DecodeExt, Encode, EncodeExt, Eos, SizedEncode};
use std::io::{self, Read, Write};
use stun_codec::{DecodedMessage, MessageDecoder, MessageEncoder};

/// How one simulated peer's bytes arrive.
#[derive(Clone, Copy, Debug)]
pub struct Pace {
    /// 0: whole chunks, 1: small chunks, 2: single bytes, 3: mixed, 4: around the interesting boundaries
    pub style: u64,
    pub empty: bool,
    pub block: bool,
    pub intr: bool,
}
pub fn pace(cx: &mut Cx) -> Pace {
    Pace {
        style: cx.below(5),
        empty: cx.chance(40),
        block: cx.chance(40),
        intr: cx.chance(30),
    }
}
pub fn chunk(cx: &mut Cx, p: &Pace, left: usize) -> usize {
    if left == 0 {
        return 0;
    }
    if p.empty && cx.chance(15) {
        cx.fault("empty_read");
        return 0;
    }
    let n = match p.style {
        0 => left,
        1 => 1 + cx.us(left.min(9)),
        2 => 1,
        3 => match cx.weighted(&[2, 2, 1]) {
            0 => 1 + cx.us(left.min(7)),
            1 => 1 + cx.us(left.min(64)),
            _ => 1 + cx.us(left),
        },
        _ => (*cx.pick(&[4usize, 20, 2, 8, 3, 24, 1, 19, 21])).min(left),
    };
    // keep very long streams affordable: after a while read in larger pieces
    let n = if cx.events > 3000 { n.max(left.min(997)) } else { n };
    if n < left {
        cx.fault("partial_transfer");
    }
    n
}

/// A byte source whose every read is decided by the simulator.
pub struct Pipe<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub pace: Pace,
    pub cx: &'a mut Cx,
    pub io_err: bool,
    pub eof_seen: u32,
    pub max_req: usize,
}
impl<'a> Pipe<'a> {
    pub fn new(cx: &'a mut Cx, data: &'a [u8], pace: Pace) -> Self {
        Pipe { data, pos: 0, pace, cx, io_err: false, eof_seen: 0, max_req: 0 }
    }
}
impl Read for Pipe<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.io_err = false;
        let us = self.cx.below(2000);
        self.cx.advance(us);
        self.max_req = self.max_req.max(buf.len());
        if self.pace.block && self.cx.chance(15) {
            self.cx.fault("would_block");
            self.io_err = true;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        if self.pace.intr && self.cx.chance(10) {
            self.cx.fault("eintr");
            self.io_err = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let left = (self.data.len() - self.pos).min(buf.len());
        if self.data.len() == self.pos {
            self.eof_seen += 1;
            self.cx.ev("eof", self.pos as u64, 0);
            return Ok(0);
        }
        let mut p = self.pace;
        p.empty = false; // a zero-sized read would mean end of stream
        let n = if left == 0 { 0 } else { chunk(self.cx, &p, left) };
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.cx.ev("read", n as u64, self.pos as u64);
        Ok(n)
    }
}

#[derive(Clone, Debug)]
pub enum Item {
    Out(Outcome),
    /// the decoder rejected the input (no message)
    Reject,
    /// the stream ended inside a message, and the decoder said so
    Cut,
}
impl Item {
    pub fn brief(&self) -> String {
        match self {
            Item::Out(o) => o.brief(),
            Item::Reject => "rejected".into(),
            Item::Cut => "incomplete at end of stream".into(),
        }
    }
    pub fn same(&self, o: &Item) -> bool {
        match (self, o) {
            (Item::Out(a), Item::Out(b)) => a.same(b),
            (Item::Reject, Item::Reject) | (Item::Cut, Item::Cut) => true,
            _ => false,
        }
    }
}

/// The last mode reports no positions (`Drive::ends` stays empty).
pub const MODES: u64 = 7;
pub const MODES_WITH_ENDS: u64 = 6;
pub fn mode_name(m: u64) -> &'static str {
    match m {
        0 => "raw decode",
        1 => "read buffer",
        2 => "byte demand (simulated decode_exact)",
        3 => "decode_exact",
        4 => "raw decode with known stream length",
        5 => "bytecodec combinators around each message",
        _ => "bytecodec's collect() around the decoder",
    }
}

pub struct Drive {
    pub items: Vec<Item>,
    /// bytes consumed after each item
    pub ends: Vec<usize>,
}

/// Feeds `stream` to `dec` and collects what comes out, until the stream ends
/// or is rejected. `mode` is one of `MODES` ways of driving the decoder.
pub fn drive<A: ASet>(
    cx: &mut Cx,
    dec: &mut MessageDecoder<A>,
    stream: &[u8],
    mode: u64,
    pace: Pace,
    deep: bool,
    strict_end: bool,
) -> R<Drive> {
    match mode {
        0 | 4 => drive_raw(cx, dec, stream, mode == 4, pace, deep, strict_end),
        1 => drive_readbuf(cx, dec, stream, pace, deep),
        2 => drive_demand(cx, dec, stream, pace, deep, false),
        5 => drive_wrapped(cx, dec, stream, pace, deep),
        6 => drive_collect(cx, dec, stream, pace, deep),
        _ => drive_demand(cx, dec, stream, pace, deep, true),
    }
}

fn finish<A: ASet>(cx: &mut Cx, dec: &mut MessageDecoder<A>, deep: bool, d: &mut Drive, at: usize) -> R {
    match real(|| dec.finish_decoding()) {
        Ok(m) => {
            let o = outcome(m, deep);
            cx.ev(if o.is_good() { "message" } else { "broken" }, at as u64, 0);
            cx.note(|| o.brief());
            d.items.push(Item::Out(o));
            d.ends.push(at);
            Ok(())
        }
        Err(e) => viol("finish-failed", format!("an idle decoder refused to hand out its item: {:?}", e.kind())),
    }
}

fn drive_raw<A: ASet>(
    cx: &mut Cx,
    dec: &mut MessageDecoder<A>,
    stream: &[u8],
    known_len: bool,
    pace: Pace,
    deep: bool,
    strict_end: bool,
) -> R<Drive> {
    let mut d = Drive { items: vec![], ends: vec![] };
    let (mut pos, mut avail) = (0usize, 0usize);
    let mut start = 0usize;
    let mut idle_steps = 0u32;
    loop {
        let us = cx.below(2000);
        cx.advance(us);
        if avail < stream.len() {
            let n = chunk(cx, &pace, stream.len() - avail);
            avail += n;
        }
        let at_end = avail == stream.len();
        let eos = if known_len {
            match cx.below(3) {
                0 => Eos::with_remaining_bytes(ByteCount::Finite((stream.len() - avail) as u64)),
                1 if at_end => Eos::new(true),
                1 => Eos::new(false),
                _ => Eos::with_remaining_bytes(ByteCount::Infinite),
            }
        } else {
            Eos::new(false)
        };
        if known_len && eos.remaining_bytes() == ByteCount::Infinite && at_end {
            // fine: the caller merely does not know yet
        }
        let given = avail - pos;
        let r = real(|| dec.decode(&stream[pos..avail], eos));
        match r {
            Err(e) => {
                cx.ev("reject", pos as u64, given as u64);
                cx.note(|| format!("decode error {:?}", e.kind()));
                // an end-of-stream hint lets the decoder notice the cut early
                let hdr_done = avail - start >= 20;
                let cut = eos.remaining_bytes().to_u64().is_some() && incomplete(&stream[start..]);
                let _ = hdr_done;
                d.items.push(if cut { Item::Cut } else { Item::Reject });
                return Ok(d);
            }
            Ok(n) => {
                cx.ev("decode", given as u64, n as u64);
                ensure!(n <= given, "overread", "decode consumed {} of {} bytes", n, given);
                pos += n;
                if dec_idle(dec) {
                    finish(cx, dec, deep, &mut d, pos)?;
                    start = pos;
                    idle_steps = 0;
                    if pos == stream.len() {
                        return Ok(d);
                    }
                    continue;
                }
                ensure!(
                    n == given,
                    "stall",
                    "decoder is not finished, yet left {} of {} bytes unread",
                    given - n,
                    given
                );
                idle_steps += 1;
                ensure!(idle_steps < 200_000, "stall", "no progress");
                if at_end && pos == stream.len() {
                    if strict_end {
                        return end_of_stream(cx, dec, d, deep);
                    }
                    d.items.push(Item::Cut);
                    return Ok(d);
                }
            }
        }
    }
}
/// Reference view: is `b` (the bytes of one message to the end of the stream) cut short,
/// with a header that is acceptable so far?
pub fn incomplete(b: &[u8]) -> bool {
    matches!(crate::refstun::decode(b, &|_| false), crate::refstun::ROut::Incomplete)
}

/// Tells the decoder the stream is over while a message is incomplete.
fn end_of_stream<A: ASet>(cx: &mut Cx, dec: &mut MessageDecoder<A>, mut d: Drive, deep: bool) -> R<Drive> {
    cx.fault("eof_mid_message");
    match real(|| dec.decode(&[], Eos::new(true))) {
        Err(_) => d.items.push(Item::Cut),
        Ok(_) => {
            // the caller takes what there is: it must not be a message
            match real(|| dec.finish_decoding()) {
                Err(_) | Ok(Err(_)) => d.items.push(Item::Cut),
                Ok(Ok(m)) => {
                    let o = outcome(Ok(m), deep);
                    return viol("truncated-accepted", format!("stream ended inside a message, decoder produced {}", o.brief()));
                }
            }
        }
    }
    Ok(d)
}

fn drive_readbuf<A: ASet>(cx: &mut Cx, dec: &mut MessageDecoder<A>, stream: &[u8], pace: Pace, deep: bool) -> R<Drive> {
    let mut d = Drive { items: vec![], ends: vec![] };
    let cap = match cx.below(4) {
        0 => 4096,
        1 => 1 + cx.us(40),
        2 => 20,
        _ => 64,
    };
    let mut rb = ReadBuf::new(vec![0u8; cap]);
    let mut pos = 0usize; // bytes the reader handed out
    let mut consumed = 0usize;
    let mut steps = 0u32;
    loop {
        let mut pipe = Pipe::new(cx, stream, pace);
        pipe.pos = pos;
        let r = rb.fill(&mut pipe);
        pos = pipe.pos;
        if let Err(_e) = r {
            // interrupted: the caller simply calls again, bytes stay buffered
        }
        let before = rb.len();
        let eos_now = rb.stream_state().is_eos();
        let r = real(|| dec.decode_from_read_buf(&mut rb));
        let used = before - rb.len();
        consumed += used;
        cx.ev("decode_buf", before as u64, used as u64);
        if r.is_err() {
            let start = d.ends.last().copied().unwrap_or(0);
            let cut = eos_now && incomplete(&stream[start..]);
            d.items.push(if cut { Item::Cut } else { Item::Reject });
            return Ok(d);
        }
        if dec_idle(dec) {
            finish(cx, dec, deep, &mut d, consumed)?;
            if consumed == stream.len() {
                return Ok(d);
            }
        } else {
            ensure!(used == before, "stall", "decoder is not finished, yet left {} of {} buffered bytes", before - used, before);
            if eos_now && rb.len() == 0 {
                return end_of_stream(cx, dec, d, deep);
            }
        }
        steps += 1;
        ensure!((steps as usize) < 400_000 + 8 * stream.len(), "stall", "no progress");
    }
}

/// Reads exactly as much as the decoder asks for. `use_lib` selects bytecodec's
/// own decode_exact; otherwise the same loop runs here with a step bound.
fn drive_demand<A: ASet>(
    cx: &mut Cx,
    dec: &mut MessageDecoder<A>,
    stream: &[u8],
    pace: Pace,
    deep: bool,
    use_lib: bool,
) -> R<Drive> {
    let mut d = Drive { items: vec![], ends: vec![] };
    let mut pos = 0usize;
    loop {
        if pos == stream.len() {
            return Ok(d);
        }
        let start = pos;
        let mut steps = 0u32;
        loop {
            steps += 1;
            ensure!(steps < 200_000, "stall", "byte-demand loop makes no progress");
            let mut pipe = Pipe::new(cx, stream, pace);
            pipe.pos = pos;
            let r: Result<_, bool> = if use_lib {
                let r = real(|| dec.decode_exact(&mut pipe));
                let io_err = pipe.io_err;
                pos = pipe.pos;
                match r {
                    Ok(m) => Ok(Some(m)),
                    Err(_) if io_err => continue, // transient read error: try again
                    Err(e) => {
                        cx.note(|| format!("decode_exact error {:?}", e.kind()));
                        Err(pos == stream.len() && incomplete(&stream[start..]))
                    }
                }
            } else {
                let mut buf = [0u8; 1024];
                let want = real(|| dec.requiring_bytes());
                let size = match want {
                    ByteCount::Finite(n) => n.min(1024) as usize,
                    ByteCount::Infinite => 1024,
                    ByteCount::Unknown => 1,
                };
                let (size, eos) = if size != 0 {
                    match pipe.read(&mut buf[..size]) {
                        Err(_) => {
                            pos = pipe.pos;
                            continue;
                        }
                        Ok(n) => (n, Eos::new(n == 0)),
                    }
                } else {
                    (0, Eos::new(false))
                };
                pos = pipe.pos;
                cx.ev("demand", size as u64, pos as u64);
                match real(|| dec.decode(&buf[..size], eos)) {
                    Err(e) => {
                        cx.note(|| format!("decode error {:?}", e.kind()));
                        Err(eos.is_reached() && incomplete(&stream[start..]))
                    }
                    Ok(n) => {
                        ensure!(
                            n == size,
                            "demand-overread",
                            "decoder asked for {} bytes, then used only {} of them: the rest, read from the stream, is lost",
                            size,
                            n
                        );
                        if dec_idle(dec) {
                            match real(|| dec.finish_decoding()) {
                                Ok(m) => Ok(Some(m)),
                                Err(e) => return viol("finish-failed", format!("idle decoder: {:?}", e.kind())),
                            }
                        } else {
                            Ok(None)
                        }
                    }
                }
            };
            match r {
                Ok(None) => continue,
                Ok(Some(m)) => {
                    let o = outcome(m, deep);
                    if pos == stream.len() && incomplete(&stream[start..]) {
                        // the stream ended inside this message
                        ensure!(
                            !o.is_good(),
                            "truncated-accepted",
                            "stream ended inside a message, decoder produced {}",
                            o.brief()
                        );
                        d.items.push(Item::Cut);
                        return Ok(d);
                    }
                    cx.ev(if o.is_good() { "message" } else { "broken" }, pos as u64, 0);
                    cx.note(|| o.brief());
                    d.items.push(Item::Out(o));
                    d.ends.push(pos);
                    break;
                }
                Err(cut) => {
                    cx.ev("reject", pos as u64, cut as u64);
                    if cut {
                        cx.fault("eof_mid_message");
                    }
                    d.items.push(if cut { Item::Cut } else { Item::Reject });
                    return Ok(d);
                }
            }
        }
    }
}

/// One message through a decoder wrapped in something. Returns what came out,
/// or Err(cut) when the decoder refused; `pos` moves by what was consumed.
fn one_wrapped<A: ASet, D: Decode<Item = DecodedMessage<A>>>(
    cx: &mut Cx,
    w: &mut D,
    stream: &[u8],
    pos: &mut usize,
    pace: Pace,
    limit: usize,
    infinite_ok: bool,
    mut between: impl FnMut(&mut Cx, &mut D),
) -> R<Result<DecodedMessage<A>, bool>> {
    let start = *pos;
    let end = (start + limit).min(stream.len());
    let mut avail = start;
    let mut steps = 0u32;
    loop {
        let us = cx.below(2000);
        cx.advance(us);
        if avail < end {
            let n = chunk(cx, &pace, end - avail);
            avail += n;
        }
        let left = (stream.len() - avail) as u64;
        let eos = match cx.below(if infinite_ok { 4 } else { 3 }) {
            0 => Eos::new(false),
            1 => Eos::with_remaining_bytes(ByteCount::Finite(left)),
            2 => Eos::new(left == 0),
            _ => Eos::with_remaining_bytes(ByteCount::Infinite),
        };
        let given = avail - *pos;
        match real(|| w.decode(&stream[*pos..avail], eos)) {
            Err(e) => {
                cx.note(|| format!("decode error {:?}", e.kind()));
                let known = eos.remaining_bytes().to_u64().is_some();
                return Ok(Err(known && incomplete(&stream[start..])));
            }
            Ok(n) => {
                cx.ev("decode", given as u64, n as u64);
                ensure!(n <= given, "overread", "decode consumed {} of {} bytes", n, given);
                *pos += n;
                if real(|| w.is_idle()) {
                    return match real(|| w.finish_decoding()) {
                        Ok(m) => Ok(Ok(m)),
                        Err(e) => viol("finish-failed", format!("an idle decoder refused to hand out its item: {:?}", e.kind())),
                    };
                }
                if avail == stream.len() && *pos == avail {
                    cx.fault("eof_mid_message");
                    return match real(|| w.decode(&[], Eos::new(true))) {
                        Err(_) => Ok(Err(true)),
                        Ok(_) => match real(|| w.finish_decoding()) {
                            Err(_) | Ok(Err(_)) => Ok(Err(true)),
                            Ok(Ok(m)) => {
                                let o = outcome::<A>(Ok(m), false);
                                viol("truncated-accepted", format!("stream ended inside a message, decoder produced {}", o.brief()))
                            }
                        },
                    };
                }
                between(cx, w);
                steps += 1;
                ensure!(steps < 200_000, "stall", "no progress");
            }
        }
    }
}
/// Each message through one of bytecodec's combinators put around the same decoder.
fn drive_wrapped<A: ASet>(cx: &mut Cx, dec: &mut MessageDecoder<A>, stream: &[u8], pace: Pace, deep: bool) -> R<Drive> {
    let mut d = Drive { items: vec![], ends: vec![] };
    let mut pos = 0usize;
    while pos < stream.len() {
        let rest = &stream[pos..];
        // a program that frames messages itself knows where this one ends
        let framed = if rest.len() >= 4 { 20 + u16::from_be_bytes([rest[2], rest[3]]) as usize } else { 20 };
        let start = pos;
        let how = cx.below(6);
        cx.ev("combinator", how, framed as u64);
        let inner = &mut *dec;
        let r = match how {
            0 => {
                let mut w = inner.length(framed as u64);
                one_wrapped::<A, _>(cx, &mut w, stream, &mut pos, pace, framed, true, |_, _| {})?
            }
            1 => {
                // handed out in portions
                let mut w = inner.slice();
                w.set_consumable_bytes(cx.below(30));
                one_wrapped::<A, _>(cx, &mut w, stream, &mut pos, pace, usize::MAX / 2, true, |cx, w| {
                    let n = w.consumable_bytes() + 1 + cx.below(200);
                    w.set_consumable_bytes(n)
                })?
            }
            2 => {
                let mut w = inner.peekable();
                one_wrapped::<A, _>(cx, &mut w, stream, &mut pos, pace, usize::MAX / 2, true, |_, _| {})?
            }
            3 => {
                let mut w = inner.maybe_eos();
                if cx.chance(30) {
                    // the connection could have ended between two messages
                    let _ = real(|| w.decode(&[], Eos::new(true)));
                }
                one_wrapped::<A, _>(cx, &mut w, stream, &mut pos, pace, usize::MAX / 2, true, |_, _| {})?
            }
            4 => {
                let mut w = inner.max_bytes(stream.len() as u64 * 2 + 64);
                one_wrapped::<A, _>(cx, &mut w, stream, &mut pos, pace, usize::MAX / 2, false, |_, _| {})?
            }
            _ => {
                let mut w: Box<dyn Decode<Item = DecodedMessage<A>>> = Box::new(inner.map_err(|e| e));
                one_wrapped::<A, _>(cx, &mut w, stream, &mut pos, pace, usize::MAX / 2, true, |_, _| {})?
            }
        };
        match r {
            Ok(m) => {
                let o = outcome(m, deep);
                if pos == stream.len() && incomplete(&stream[start..]) {
                    ensure!(!o.is_good(), "truncated-accepted", "stream ended inside a message, decoder produced {}", o.brief());
                    d.items.push(Item::Cut);
                    return Ok(d);
                }
                cx.ev(if o.is_good() { "message" } else { "broken" }, pos as u64, 0);
                cx.note(|| o.brief());
                d.items.push(Item::Out(o));
                d.ends.push(pos);
            }
            Err(cut) => {
                cx.ev("reject", pos as u64, cut as u64);
                if how == 0 {
                    // length() may give up without telling the decoder inside
                    d = end_of_stream(cx, dec, d, deep)?;
                    d.items.pop();
                }
                d.items.push(if cut { Item::Cut } else { Item::Reject });
                return Ok(d);
            }
        }
    }
    Ok(d)
}
/// The whole stream through `collect()`.
fn drive_collect<A: ASet>(cx: &mut Cx, dec: &mut MessageDecoder<A>, stream: &[u8], pace: Pace, deep: bool) -> R<Drive> {
    let out = std::cell::RefCell::new(Vec::new());
    let mut end: Option<Item> = None;
    {
        let mut all = (&mut *dec).map(|m| out.borrow_mut().push(m)).collect::<Vec<()>>();
        let (mut pos, mut steps) = (0usize, 0u32);
        while !real(|| all.is_idle()) {
            steps += 1;
            ensure!((steps as usize) < 400_000 + 8 * stream.len(), "stall", "no progress");
            let us = cx.below(2000);
            cx.advance(us);
            let n = chunk(cx, &pace, stream.len() - pos);
            let last = pos + n == stream.len();
            let eos = Eos::new(last && (n == 0 || cx.chance(50)));
            match real(|| all.decode(&stream[pos..pos + n], eos)) {
                Err(_) => {
                    let mut start = 0;
                    for _ in 0..out.borrow().len() {
                        start += 20 + u16::from_be_bytes([stream[start + 2], stream[start + 3]]) as usize;
                    }
                    end = Some(if last && start <= stream.len() && incomplete(&stream[start..]) && eos.is_reached() { Item::Cut } else { Item::Reject });
                    break;
                }
                Ok(k) => {
                    ensure!(k == n, "stall", "the collected decoder used {} of {} bytes", k, n);
                    pos += n;
                    cx.ev("decode", n as u64, k as u64);
                }
            }
        }
    }
    let mut d = Drive { items: vec![], ends: vec![] };
    let mut at = 0;
    for m in out.into_inner() {
        let o = outcome(m, deep);
        if stream.len() >= at + 4 {
            at += 20 + u16::from_be_bytes([stream[at + 2], stream[at + 3]]) as usize;
        }
        if at > stream.len() {
            ensure!(!o.is_good(), "truncated-accepted", "stream ended inside a message, decoder produced {}", o.brief());
            d.items.push(Item::Cut);
            return Ok(d);
        }
        cx.note(|| o.brief());
        d.items.push(Item::Out(o));
    }
    match end {
        Some(e) => d.items.push(e),
        // collect() itself does not look at an inner decoder that is half way
        None if at < stream.len() => return end_of_stream(cx, dec, d, deep),
        None => {}
    }
    Ok(d)
}

/// Decodes one datagram; afterwards the decoder is ready for the next one.
/// A caller that got an error for trailing bytes takes the finished item out.
pub fn datagram<A: ASet>(dec: &mut MessageDecoder<A>, b: &[u8], deep: bool) -> Item {
    match real(|| dec.decode_from_bytes(b)) {
        Ok(m) => Item::Out(outcome(m, deep)),
        Err(_) => {
            if dec_idle(dec) {
                let _ = real(|| dec.finish_decoding());
            }
            Item::Reject
        }
    }
}
pub fn fresh<A: ASet>(b: &[u8], deep: bool) -> Item {
    let mut d = MessageDecoder::<A>::new();
    datagram(&mut d, b, deep)
}

/// A byte sink whose every write is decided by the simulator.
pub struct Sink<'a> {
    pub out: &'a mut Vec<u8>,
    pub pace: Pace,
    pub cx: &'a mut Cx,
    pub io_err: bool,
    /// dies for good after this many bytes
    pub break_after: Option<usize>,
}
impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.io_err = false;
        let us = self.cx.below(2000);
        self.cx.advance(us);
        if let Some(n) = self.break_after {
            if self.out.len() >= n {
                self.cx.fault("broken_pipe");
                self.io_err = true;
                return Err(io::ErrorKind::BrokenPipe.into());
            }
        }
        if self.pace.block && self.cx.chance(15) {
            self.cx.fault("would_block");
            self.io_err = true;
            return Err(io::ErrorKind::WouldBlock.into());
        }
        if self.pace.intr && self.cx.chance(10) {
            self.cx.fault("eintr");
            self.io_err = true;
            return Err(io::ErrorKind::Interrupted.into());
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut p = self.pace;
        p.empty = false;
        let n = chunk(self.cx, &p, buf.len());
        self.out.extend_from_slice(&buf[..n]);
        self.cx.ev("write", n as u64, self.out.len() as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub const DRAINS: u64 = 5;
pub fn exact<A: ASet>(e: &MessageEncoder<A>) -> u64 {
    real(|| e.exact_requiring_bytes())
}
pub fn requiring<A: ASet>(e: &MessageEncoder<A>) -> ByteCount {
    real(|| e.requiring_bytes())
}

/// Drains a started encoder under one of `DRAINS` schedules; `poke` is called
/// between steps (used to try illegal operations on the busy encoder).
pub fn drain<A: ASet>(
    cx: &mut Cx,
    enc: &mut MessageEncoder<A>,
    mode: u64,
    pace: Pace,
    mut poke: impl FnMut(&mut Cx, &mut MessageEncoder<A>) -> R,
) -> R<Vec<u8>> {
    let total = exact(enc);
    let mut out: Vec<u8> = Vec::new();
    let mut steps = 0u32;
    let check = |enc: &MessageEncoder<A>, produced: usize| -> R {
        let (x, q, idle) = (exact(enc), requiring(enc), enc_idle(enc));
        ensure!(
            x == total - produced as u64,
            "announced-size",
            "{} of {} announced bytes are out, encoder announces {} more",
            produced,
            total,
            x
        );
        ensure!(q == ByteCount::Finite(x), "announced-size", "requiring_bytes {:?} but exact_requiring_bytes {}", q, x);
        ensure!(
            idle == (x == 0),
            "idle-state",
            "encoder {} idle with {} bytes to go",
            if idle { "is" } else { "is not" },
            x
        );
        Ok(())
    };
    ensure!(total >= 20, "announced-size", "a started encoder announces {} bytes", total);
    check(enc, 0)?;
    match mode {
        0 => {
            while !enc_idle(enc) {
                steps += 1;
                ensure!(steps < 200_000, "stall", "encoder makes no progress");
                let left = exact(enc) as usize;
                let us = cx.below(2000);
                cx.advance(us);
                // room may be larger than what is left
                let room = if cx.chance(20) { left + cx.us(16) } else { chunk(cx, &pace, left) };
                let eos = if room >= left && cx.chance(50) {
                    Eos::new(true)
                } else if cx.chance(20) {
                    Eos::with_remaining_bytes(ByteCount::Infinite)
                } else if cx.chance(20) {
                    Eos::with_remaining_bytes(ByteCount::Finite(1 + left as u64))
                } else {
                    Eos::new(false)
                };
                let mut buf = vec![0xAA; room];
                let n = match real(|| enc.encode(&mut buf, eos)) {
                    Ok(n) => n,
                    Err(e) => return viol("encode-error", format!("encode failed with {} bytes of room, {} to go: {:?}", room, left, e.kind())),
                };
                cx.ev("encode", room as u64, n as u64);
                ensure!(n == room.min(left), "short-encode", "room {}, to go {}, encoder wrote {}", room, left, n);
                out.extend_from_slice(&buf[..n]);
                check(enc, out.len())?;
                poke(cx, enc)?;
            }
        }
        1 => {
            let cap = *cx.pick(&[64usize, 1, 7, 20, 4096]);
            let mut wb = WriteBuf::new(vec![0u8; cap]);
            loop {
                steps += 1;
                ensure!(steps < 400_000, "stall", "encoder makes no progress");
                if !enc_idle(enc) {
                    if let Err(e) = real(|| enc.encode_to_write_buf(&mut wb)) {
                        return viol("encode-error", format!("encode_to_write_buf failed: {:?}", e.kind()));
                    }
                    check(enc, out.len() + wb.len())?;
                    poke(cx, enc)?;
                }
                let mut sink = Sink { out: &mut out, pace, cx, io_err: false, break_after: None };
                let _ = wb.flush(&mut sink);
                if enc_idle(enc) && wb.is_empty() {
                    break;
                }
            }
        }
        2 => {
            // encode_all into a sink that only shortens writes
            let mut p = pace;
            p.block = false;
            p.intr = false;
            let mut sink = Sink { out: &mut out, pace: p, cx, io_err: false, break_after: None };
            if let Err(e) = real(|| enc.encode_all(&mut sink)) {
                return viol("encode-error", format!("encode_all failed: {:?}", e.kind()));
            }
            check(enc, out.len())?;
        }
        4 => {
            // bytecodec's combinators around the running encoder
            while !enc_idle(enc) {
                steps += 1;
                ensure!(steps < 200_000, "stall", "encoder makes no progress");
                let left = exact(enc) as usize;
                let room = if cx.chance(20) { left + cx.us(16) } else { chunk(cx, &pace, left) };
                let eos = if room >= left && cx.chance(50) { Eos::new(true) } else { Eos::new(false) };
                let mut buf = vec![0xAA; room];
                let how = cx.below(4);
                let most = cx.us(left + 1);
                let (r, cap) = real(|| match how {
                    0 => {
                        let mut w = (&mut *enc).slice();
                        w.set_consumable_bytes(most as u64);
                        (w.encode(&mut buf, eos), most)
                    }
                    1 => ((&mut *enc).length(left as u64).encode(&mut buf, eos), left),
                    2 => ((&mut *enc).max_bytes(left as u64).encode(&mut buf, eos), left),
                    _ => {
                        let mut w: Box<dyn Encode<Item = stun_codec::Message<A>> + '_> = Box::new((&mut *enc).map_err(|e| e));
                        (w.encode(&mut buf, eos), left)
                    }
                });
                let n = match r {
                    Ok(n) => n,
                    Err(e) => return viol("encode-error", format!("encode (combinator {}) failed with {} bytes of room, {} to go: {:?}", how, room, left, e.kind())),
                };
                cx.ev("encode", room as u64, n as u64);
                ensure!(n == room.min(cap), "short-encode", "room {}, portion {}, encoder wrote {}", room, cap, n);
                out.extend_from_slice(&buf[..n]);
                check(enc, out.len())?;
                poke(cx, enc)?;
            }
        }
        _ => {
            let mut buf = vec![0u8; total as usize];
            match real(|| enc.encode(&mut buf, Eos::new(true))) {
                Ok(n) => ensure!(n == buf.len(), "short-encode", "room {}, encoder wrote {}", buf.len(), n),
                Err(e) => return viol("encode-error", format!("encode failed: {:?}", e.kind())),
            }
            out = buf;
            check(enc, out.len())?;
        }
    }
    Ok(out)
}
