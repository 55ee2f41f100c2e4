//! C01..C10: the packet codec.
use crate::check;
use crate::bridge::*;
use crate::engine::*;
use crate::gen;
use crate::refcodec::*;
use apiformes_packet::prelude::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::collections::VecDeque;
use std::mem::discriminant;

pub fn decode(b: &[u8]) -> (Result<Packet, DataParseError>, usize) {
    let mut c = b;
    let r = Packet::from_bytes(&mut c);
    let used = b.len() - c.len();
    (r, used)
}
fn is_insufficient(e: &DataParseError) -> bool {
    matches!(e, DataParseError::InsufficientBuffer { .. })
}
fn hex(b: &[u8]) -> String {
    let n = b.len().min(160);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if b.len() > n {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
fn st<T>(r: Result<T, String>) -> Result<T, Fail> {
    r.map_err(Fail::Broken)
}
fn diff(a: &RP, b: &RP) -> String {
    let (x, y) = (format!("{:?}", a), format!("{:?}", b));
    let n = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
    let cut = |s: &str| -> String {
        let mut from = n.saturating_sub(60);
        while !s.is_char_boundary(from) {
            from -= 1;
        }
        s[from..].chars().take(260).collect()
    };
    format!("got ..{} expected ..{}", cut(&x), cut(&y))
}
fn same(what: &str, got: &RP, want: &RP) -> Res {
    if got.norm() != want.norm() {
        return broken(format!("{}: {}", what, diff(&got.norm(), &want.norm())));
    }
    Ok(())
}
pub fn note(ctx: &mut Ctx, p: &RP) {
    ctx.class(match p.ty() {
        T_CONNECT => "CONNECT",
        T_CONNACK => "CONNACK",
        T_PUBLISH => "PUBLISH",
        T_PUBACK => "PUBACK",
        T_PUBREC => "PUBREC",
        T_PUBREL => "PUBREL",
        T_PUBCOMP => "PUBCOMP",
        T_SUBSCRIBE => "SUBSCRIBE",
        T_SUBACK => "SUBACK",
        T_UNSUBSCRIBE => "UNSUBSCRIBE",
        T_UNSUBACK => "UNSUBACK",
        T_PINGREQ => "PINGREQ",
        T_PINGRESP => "PINGRESP",
        T_DISCONNECT => "DISCONNECT",
        _ => "AUTH",
    });
    let n = p.props().len();
    if n > 0 {
        ctx.class("with properties");
    }
    if p.props().iter().filter(|(k, _)| *k == 0x26).count() > 1 {
        ctx.class("repeated property");
    }
    if let RP::Connect { will: Some(_), .. } = p {
        ctx.class("with will");
    }
}
fn size_class(ctx: &mut Ctx, n: usize) {
    ctx.class(match n {
        0..=129 => "1-byte length",
        130..=16386 => "2-byte length",
        16387..=2097155 => "3-byte length",
        _ => "4-byte length",
    });
}

/// builds the packet, in one case of six replacing values that were set before
fn made(p: &RP, s: Option<&mut Src>, ctx: &mut Ctx) -> Result<Packet, String> {
    if let Some(s) = s {
        if s.chance(1, 6) {
            let mut any = false;
            let b = build_over(p, &mut |k| {
                if s.chance(1, 3) {
                    return None;
                }
                any = true;
                Some(match k {
                    PRIOR_USER => Val::Str(gen::short_string(s)),
                    PRIOR_PASS | PRIOR_WILL => Val::Bin(gen::blob(s)),
                    k => gen::prop_val(s, k as u8),
                })
            });
            if any {
                ctx.class("values replaced while building");
            }
            return b;
        }
    }
    build(p)
}

// ---------------------------------------------------------------------------- C01

fn roundtrip(p: &RP, s: Option<&mut Src>, ctx: &mut Ctx) -> Res {
    note(ctx, p);
    ctx.desc(|| p.show());
    let built = st(made(p, s, ctx))?;
    same("getters of the built packet", &st(observe(&built))?, p)?;
    let bytes = encode(&built);
    size_class(ctx, bytes.len());
    let (r, used) = decode(&bytes);
    let back = match r {
        Ok(b) => b,
        Err(e) => return broken(format!("encoding does not decode: {:?} ({})", e, hex(&bytes))),
    };
    check!(used == bytes.len(), "decode used {} of {} bytes", used, bytes.len());
    check!(
        discriminant(&back) == discriminant(&built),
        "decoded to another kind of packet: {}",
        hex(&bytes)
    );
    same("decoded packet", &st(observe(&back))?, p)?;
    let again = encode(&back);
    check!(again.len() == bytes.len(), "re-encoding has {} bytes, not {}", again.len(), bytes.len());
    let (r, used) = decode(&again);
    match r {
        Ok(b) => {
            check!(used == again.len(), "decode used {} of {} bytes", used, again.len());
            same("re-encoded packet", &st(observe(&b))?, p)?;
        }
        Err(e) => return broken(format!("re-encoding does not decode: {:?} ({})", e, hex(&again))),
    }
    // clones are independent of the original
    let c = encode(&back.clone());
    check!(c.len() == again.len(), "a clone encodes differently");
    if bytes.len() > 2 {
        ctx.nontrivial(&body(p));
    }
    Ok(())
}
fn c01_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    roundtrip(&p, Some(s), ctx)
}
/// every property alone, on each of its owners, at its boundary values; every reason code
fn singles() -> Vec<RP> {
    let mut out = Vec::new();
    for (id, ty, owners, _) in PROPS {
        let vals: Vec<Val> = match ty {
            Ty::Byte => vec![Val::Byte(0), Val::Byte(1)],
            Ty::U16 => [0u16, 1, 255, 256, 65535].iter().map(|x| Val::U16(*x)).collect(),
            Ty::U32 => [0u32, 1, 65535, 65536, u32::MAX].iter().map(|x| Val::U32(*x)).collect(),
            Ty::Var => [0u32, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]
                .iter()
                .map(|x| Val::Var(*x))
                .collect(),
            Ty::Str => ["", "a", "é中😀", &"x".repeat(127), &"y".repeat(128), &"z".repeat(65535)]
                .iter()
                .map(|x| Val::Str(x.to_string()))
                .collect(),
            Ty::Bin => [0usize, 1, 127, 128, 65535].iter().map(|n| Val::Bin(vec![0xa5; *n])).collect(),
        };
        for o in owners.iter() {
            for v in &vals {
                out.push(with_props(*o, vec![(*id, v.clone())]));
            }
        }
    }
    for ty in gen::KINDS {
        for c in reasons(*ty) {
            out.push(match *ty {
                T_CONNACK => RP::ConnAck { flags: 0, code: *c, props: vec![] },
                T_PUBACK | T_PUBREC | T_PUBREL | T_PUBCOMP => {
                    RP::Ack { ty: *ty, id: 7, code: *c, props: vec![] }
                }
                T_SUBACK | T_UNSUBACK => RP::SubAck { ty: *ty, id: 7, props: vec![], codes: vec![*c] },
                _ => RP::Disc { ty: *ty, code: *c, props: vec![] },
            });
        }
    }
    for q in 0..3u8 {
        for r in 0..3u8 {
            for f in 0..4u8 {
                out.push(RP::Subscribe {
                    id: 9,
                    props: vec![],
                    topics: vec![("a/+".into(), q | (f << 2) | (r << 4))],
                });
            }
        }
        for f in 0..4u8 {
            let flags = (q << 1) | (f & 1) | ((f >> 1) << 3);
            out.push(RP::Publish {
                flags,
                topic: "t".into(),
                id: if q > 0 { Some(300) } else { None },
                props: vec![],
                payload: b"xy".to_vec(),
            });
        }
        for f in 0..16u8 {
            out.push(RP::Connect {
                flags: 4 | (q << 3) | ((f & 1) << 1) | ((f >> 1 & 1) << 5) | ((f >> 2 & 1) << 6) | ((f >> 3) << 7),
                keep: 300,
                props: vec![],
                id: "c".into(),
                will: Some(RWill { props: vec![], topic: "w".into(), payload: vec![1] }),
                user: if f & 8 != 0 { Some("u".into()) } else { None },
                pass: if f & 4 != 0 { Some(vec![2]) } else { None },
            });
        }
    }
    for f in 0..8u8 {
        out.push(RP::Connect {
            flags: ((f & 1) << 1) | ((f >> 1 & 1) << 6) | ((f >> 2) << 7),
            keep: 0,
            props: vec![],
            id: String::new(),
            will: None,
            user: if f & 4 != 0 { Some("u".into()) } else { None },
            pass: if f & 2 != 0 { Some(vec![2]) } else { None },
        });
    }
    out
}
pub fn with_props(owner: u8, props: Props) -> RP {
    match owner {
        T_CONNECT => {
            RP::Connect { flags: 2, keep: 1, props, id: "c".into(), will: None, user: None, pass: None }
        }
        T_WILL => RP::Connect {
            flags: 6,
            keep: 1,
            props: vec![],
            id: "c".into(),
            will: Some(RWill { props, topic: "w".into(), payload: vec![1, 2] }),
            user: None,
            pass: None,
        },
        T_CONNACK => RP::ConnAck { flags: 0, code: 0, props },
        T_PUBLISH => {
            RP::Publish { flags: 0, topic: "t".into(), id: None, props, payload: vec![1, 2, 3] }
        }
        T_SUBSCRIBE => RP::Subscribe { id: 1, props, topics: vec![("f".into(), 0)] },
        T_UNSUBSCRIBE => RP::Unsubscribe { id: 1, props, topics: vec!["f".into()] },
        T_SUBACK | T_UNSUBACK => RP::SubAck { ty: owner, id: 1, props, codes: vec![0] },
        T_PUBACK | T_PUBREC | T_PUBREL | T_PUBCOMP => RP::Ack { ty: owner, id: 1, code: 0, props },
        _ => RP::Disc { ty: owner, code: 0, props },
    }
}
thread_local! {
    static SINGLES: Vec<RP> = singles();
}
fn n_singles() -> u64 {
    SINGLES.with(|v| v.len() as u64)
}
fn single(ctx: &Ctx) -> RP {
    SINGLES.with(|v| v[ctx.index as usize % v.len()].clone())
}
fn c01_single(_s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = single(ctx);
    roundtrip(&p, None, ctx)
}
const SIZES: &[usize] = &[
    0, 1, 100, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 16360, 16370, 16376,
    16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 16385, 16390, 65535, 65536, 2097140, 2097146, 2097147,
    2097148, 2097149, 2097150, 2097151, 2097152, 2097153, 2097160,
];
fn sized(i: u64) -> RP {
    let n = SIZES[i as usize % SIZES.len()];
    RP::Publish { flags: 0, topic: "t".into(), id: None, props: vec![], payload: vec![0x5a; n] }
}
fn c01_sizes(_s: &mut Src, ctx: &mut Ctx) -> Res {
    roundtrip(&sized(ctx.index), None, ctx)
}
/// values of any length inside properties whose table crosses the size classes
fn big_props(s: &mut Src) -> RP {
    let total = match s.below(4) {
        0 => s.range(100, 140) as usize,
        1 => s.range(16360, 16400) as usize,
        2 => s.range(65000, 140_000) as usize,
        _ => s.range(2_097_100, 2_097_200) as usize,
    };
    let mut left = total;
    let mut props: Props = Vec::new();
    while left > 3 {
        let n = (left - 3).min(65535);
        props.push((0x26, Val::Str("u".repeat(n))));
        left -= n + 3;
    }
    with_props(T_PUBLISH, props)
}
fn c01_big_props(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = big_props(s);
    roundtrip(&p, Some(s), ctx)
}

pub fn c01() -> Check {
    Check {
        id: "C01",
        rule: "random packets of all 15 kinds with random legal fields and properties, every property and reason code alone at boundary values, and packets around each length boundary; built through the builders, encoded, decoded, re-encoded and compared field by field. Non-trivial: the frame has a variable header (everything but PINGREQ/PINGRESP), distinct by body bytes",
        subs: vec![
            Sub::all("single", n_singles(), c01_single),
            Sub::all("sizes", SIZES.len() as u64, c01_sizes),
            Sub::rand("bigprops", 600, 9_000, c01_big_props),
            Sub::rand("random", 1_500_000, 48_000_000, c01_random),
        ],
        ..codec_check()
    }
}
pub fn codec_check() -> Check {
    Check {
        id: "",
        rule: "",
        subs: vec![],
        threads: 8,
        confirm: 0,
        shrink_ms: 20_000,
        stuck_s: 90,
        assumptions: vec![
            "the independent reader and writer in harness/src/refcodec.rs follow the MQTT 5.0 specification, with User Property as a single string (recorded finding)",
        ],
        known: vec![],
    }
}

// ---------------------------------------------------------------------------- C02

/// A buffer that knows where the reader is
struct Tracker<'a> {
    b: &'a [u8],
    pos: usize,
}
impl<'a> Buf for Tracker<'a> {
    fn remaining(&self) -> usize {
        self.b.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        &self.b[self.pos..]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining(), "reader advanced beyond the buffer");
        self.pos += n;
    }
}

fn feed(bytes: &[u8], ctx: &mut Ctx) -> Res {
    let mut t = Tracker { b: bytes, pos: 0 };
    let r = Packet::from_bytes(&mut t);
    let used = t.pos;
    check!(used <= bytes.len(), "consumed more than there is");
    match header(bytes) {
        Some(Ok(total)) => {
            ctx.class("legal header");
            check!(
                used <= total,
                "consumed {} bytes of a frame of {} bytes: {}",
                used,
                total,
                hex(bytes)
            );
            if bytes.len() >= total {
                ctx.class("complete frame");
            }
        }
        Some(Err(_)) => {
            check!(used <= 6, "consumed {} bytes of an illegal header: {}", used, hex(bytes));
        }
        None => {}
    }
    match r {
        Ok(p) => {
            ctx.class("accepted");
            // every accessor and the encoder
            let seen = observe(&p);
            if let Err(e) = seen {
                return broken(format!("accessors of an accepted packet: {} ({})", e, hex(bytes)));
            }
            let e = encode(&p);
            check!(e.len() == p.frame_len(), "frame_len of an accepted packet is wrong: {}", hex(bytes));
            let _ = p.clone();
        }
        Err(_) => ctx.class("rejected"),
    }
    Ok(())
}
fn c02_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.below(40);
    let b = s.bytes(n);
    ctx.desc(|| hex(&b));
    if b.len() >= 2 {
        ctx.nontrivial(&b);
    }
    feed(&b, ctx)
}
fn c02_framed(s: &mut Src, ctx: &mut Ctx) -> Res {
    // a legal header in front of random bytes, so that the body parsers are reached
    let ty = *s.pick(gen::KINDS);
    let flags = if ty == T_PUBLISH { s.draw(16) as u8 } else { fixed_flags(ty) };
    let n = s.below(40);
    let mut inner = s.bytes(n);
    if ty == T_CONNECT && s.chance(9, 10) {
        let mut v = Vec::new();
        put_str(&mut v, b"MQTT");
        v.push(5);
        v.push((s.draw(256) as u8) & 0xfe);
        v.extend_from_slice(&[0, 1]);
        v.extend_from_slice(&inner);
        inner = v;
    }
    // small numbers make lengths plausible
    for x in inner.iter_mut() {
        if s.chance(1, 3) {
            *x &= 0x0f;
        }
    }
    let mut b = frame((ty << 4) | flags, &inner);
    if s.chance(1, 4) {
        let n = s.below(6);
        let x = s.bytes(n);
        b.extend_from_slice(&x);
    }
    ctx.desc(|| hex(&b));
    ctx.nontrivial(&b);
    feed(&b, ctx)
}
/// a frame made by the reference writer, possibly disturbed in its structure and in its bytes
fn wild_frame(s: &mut Src, ctx: &mut Ctx) -> (Vec<u8>, bool) {
    let p = gen::packet(s);
    let mut t = gen::tokens(&p);
    let mut touched = false;
    let n = s.weighted(&[2, 6, 2, 1]);
    for _ in 0..n {
        let what = gen::disturb(s, &mut t);
        ctx.class(what);
        touched = true;
    }
    let mut b = gen::render(&t);
    if s.chance(1, 6) {
        gen::mangle(s, &mut b);
        ctx.class("byte damage");
        touched = true;
    }
    ctx.desc(|| hex(&b));
    (b, touched)
}
fn c02_wild(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut b, _) = wild_frame(s, ctx);
    if s.chance(1, 3) {
        let n = s.below(10);
        let x = s.bytes(n);
        b.extend_from_slice(&x);
    }
    ctx.nontrivial(&b);
    feed(&b, ctx)
}
fn c02_short(_s: &mut Src, ctx: &mut Ctx) -> Res {
    // every byte string of up to three bytes, and every body of two bytes
    let a = ctx.index as u8;
    feed(&[], ctx)?;
    feed(&[a], ctx)?;
    for b in 0..=255u8 {
        feed(&[a, b], ctx)?;
        for c in 0..=255u8 {
            feed(&[a, b, c], ctx)?;
            feed(&[a, 2, b, c], ctx)?;
        }
    }
    ctx.excluded = 0;
    ctx.nontrivial(&[a]);
    ctx.desc(|| format!("all inputs of up to 3 bytes and all 2-byte bodies starting with {:#04x}", a));
    Ok(())
}
fn c02_varint(s: &mut Src, ctx: &mut Ctx) -> Res {
    // long variable integers wherever one is read
    let p = gen::packet(s);
    let mut b = write(&p);
    let cont = s.range(1, 7) as usize;
    let at = match s.below(3) {
        0 => 1,
        _ => s.below(b.len()),
    };
    let fill = *s.pick(&[0xffu8, 0x80, 0x81, 0xfe]);
    for k in 0..cont {
        if at + k < b.len() {
            b[at + k] = fill;
        } else {
            b.push(fill);
        }
    }
    if s.chance(1, 2) {
        let body = b.split_off(2.min(b.len()));
        b = frame(b[0], &body);
    }
    ctx.desc(|| hex(&b));
    ctx.nontrivial(&b);
    feed(&b, ctx)
}
pub fn c02() -> Check {
    Check {
        id: "C02",
        rule: "random bytes, random bodies behind legal headers, reference frames disturbed in structure (24 kinds) and bytes, oversized integers, and every input of up to 3 bytes; built with overflow checks. Non-trivial: at least a complete fixed header's worth of bytes, distinct by content",
        subs: vec![
            Sub::all("short", 256, c02_short),
            Sub::rand("random", 600_000, 24_000_000, c02_random),
            Sub::rand("framed", 1_500_000, 64_000_000, c02_framed),
            Sub::rand("wild", 1_500_000, 64_000_000, c02_wild),
            Sub::rand("varint", 600_000, 16_000_000, c02_varint),
        ],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C03

fn c03_built(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    lengths(&p, Some(s), ctx)
}
fn lengths(p: &RP, s: Option<&mut Src>, ctx: &mut Ctx) -> Res {
    note(ctx, p);
    ctx.desc(|| p.show());
    let b = st(made(p, s, ctx))?;
    let e = encode(&b);
    size_class(ctx, e.len());
    check!(b.frame_len() == e.len(), "frame_len says {}, the encoding has {} bytes", b.frame_len(), e.len());
    match header(&e) {
        Some(Ok(t)) => check!(t == e.len(), "header announces {} bytes, {} written: {}", t, e.len(), hex(&e)),
        _ => return broken(format!("illegal header written: {}", hex(&e))),
    }
    let (r, used) = decode(&e);
    match r {
        Ok(d) => {
            check!(used == e.len(), "decoding consumed {} of {} bytes", used, e.len());
            check!(d.frame_len() == e.len(), "decoded packet says {}, frame has {}", d.frame_len(), e.len());
            ctx.nontrivial(&e);
        }
        Err(x) => return broken(format!("own encoding rejected: {:?}", x)),
    }
    Ok(())
}
fn c03_sizes(_s: &mut Src, ctx: &mut Ctx) -> Res {
    lengths(&sized(ctx.index), None, ctx)
}
fn c03_huge(_s: &mut Src, ctx: &mut Ctx) -> Res {
    // the largest packet there can be
    let n = 268_435_455 - 4 - ctx.index as usize;
    let p = match Publish::new(arc("t"), Bytes::from(vec![7u8; n])) {
        Ok(p) => p.build(),
        Err(e) => return broken(format!("{:?}", e)),
    };
    let mut b = BytesMut::with_capacity(n + 16);
    p.to_bytes(&mut b);
    ctx.class("4-byte length");
    ctx.desc(|| format!("PUBLISH with {} payload bytes", n));
    check!(b.len() == p.frame_len(), "frame_len {} encoding {}", p.frame_len(), b.len());
    check!(b.len() == 1 + 4 + 4 + n, "encoding has {} bytes", b.len());
    let mut c = b.freeze();
    let total = c.len();
    match Packet::from_bytes(&mut c) {
        Ok(Packet::Publish(q)) => {
            check!(c.is_empty(), "{} of {} bytes left", c.len(), total);
            check!(q.payload().len() == n, "payload of {} bytes became {}", n, q.payload().len());
        }
        _ => return broken("largest packet rejected"),
    }
    ctx.nontrivial(&n.to_be_bytes());
    Ok(())
}
fn c03_bigprops(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = big_props(s);
    lengths(&p, Some(s), ctx)
}
fn c03_stream(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = s.range(1, 8) as usize;
    let mut all = Vec::new();
    let mut ps = Vec::new();
    let mut ends = Vec::new();
    for _ in 0..n {
        let p = gen::packet(s);
        // half through the library's encoder, half through the reference writer
        if s.chance(1, 2) {
            all.extend_from_slice(&write(&p));
        } else {
            let b = st(made(&p, Some(s), ctx))?;
            let before = all.len();
            let mut o = std::mem::take(&mut all);
            b.to_bytes(&mut o);
            all = o;
            check!(all.len() - before == b.frame_len(), "frame_len differs from what was appended");
        }
        ends.push(all.len());
        ps.push(p);
    }
    let k = s.below(12);
    let tail = s.bytes(k);
    all.extend_from_slice(&tail);
    ctx.desc(|| format!("{} frames, {} bytes, tail {}", n, all.len(), hex(&tail)));
    let mut rest: &[u8] = &all;
    let mut at = 0;
    for (i, p) in ps.iter().enumerate() {
        match Packet::from_bytes(&mut rest) {
            Ok(d) => {
                at = all.len() - rest.len();
                check!(at == ends[i], "packet {} of the stream ends at {}, not {}", i, at, ends[i]);
                same("packet in a stream", &st(observe(&d))?, p)?;
            }
            Err(e) => return broken(format!("packet {} of the stream rejected: {:?}", i, e)),
        }
    }
    check!(rest == &tail[..], "what follows the last frame (at {}) was disturbed", at);
    if n > 1 {
        ctx.nontrivial(&all);
        ctx.class("several frames");
    }
    if !tail.is_empty() {
        ctx.class("with tail");
    }
    Ok(())
}
fn c03_wild(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut b, _) = wild_frame(s, ctx);
    let n = s.below(8);
    let x = s.bytes(n);
    b.extend_from_slice(&x);
    let (r, used) = decode(&b);
    if let Ok(p) = r {
        let total = match header(&b) {
            Some(Ok(t)) => t,
            _ => return broken(format!("accepted with an illegal header: {}", hex(&b))),
        };
        check!(used == total, "consumed {} of a frame of {} bytes: {}", used, total, hex(&b));
        check!(p.frame_len() == total, "frame_len {} of a frame of {} bytes: {}", p.frame_len(), total, hex(&b));
        let e = encode(&p);
        check!(e.len() == total, "re-encoded into {} bytes, was {}: {}", e.len(), total, hex(&b));
        ctx.class("accepted");
        ctx.nontrivial(&b[..total]);
    }
    Ok(())
}
pub fn c03() -> Check {
    Check {
        id: "C03",
        rule: "frame_len, bytes written, length announced by the header and bytes consumed are compared for random built packets, for accepted disturbed frames, and for concatenations of up to 8 frames followed by arbitrary bytes; plus all length boundaries up to the 268435455-byte maximum. Non-trivial: a packet was encoded or accepted (streams: at least two frames), distinct by bytes",
        subs: vec![
            Sub::all("sizes", SIZES.len() as u64, c03_sizes),
            Sub::all("huge", 2, c03_huge),
            Sub::rand("bigprops", 600, 6_000, c03_bigprops),
            Sub::rand("built", 900_000, 32_000_000, c03_built),
            Sub::rand("stream", 240_000, 8_000_000, c03_stream),
            Sub::rand("wild", 900_000, 40_000_000, c03_wild),
        ],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C04

fn c04_prefix(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    prefixes(s, &p, ctx)
}
fn c04_single(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = single(ctx);
    prefixes(s, &p, ctx)
}
fn prefixes(s: &mut Src, p: &RP, ctx: &mut Ctx) -> Res {
    note(ctx, p);
    let b = write(p);
    ctx.desc(|| format!("prefixes of {}", hex(&b)));
    size_class(ctx, b.len());
    let mut cuts: Vec<usize> = Vec::new();
    if b.len() <= 200 {
        cuts.extend(0..b.len());
    } else {
        cuts.extend(0..40);
        cuts.extend(b.len() - 40..b.len());
        for _ in 0..20 {
            cuts.push(s.below(b.len()));
        }
    }
    for c in cuts {
        let (r, _) = decode(&b[..c]);
        match r {
            Ok(_) => return broken(format!("{} of {} bytes already give a packet: {}", c, b.len(), hex(&b))),
            Err(e) => check!(
                is_insufficient(&e),
                "{} of {} bytes give {:?} instead of the need for more: {}",
                c,
                b.len(),
                e,
                hex(&b)
            ),
        }
    }
    let (r, _) = decode(&b);
    if let Err(e) = r {
        return broken(format!("complete legal frame gives {:?}: {}", e, hex(&b)));
    }
    if b.len() > 2 {
        ctx.nontrivial(&b);
    }
    Ok(())
}
fn complete(b: &[u8], ctx: &mut Ctx) -> Res {
    if let Some(Ok(t)) = header(b) {
        if b.len() >= t {
            ctx.class("complete");
            ctx.nontrivial(&b[..t]);
            for v in [&b[..t], b] {
                let (r, _) = decode(v);
                if let Err(e) = r {
                    ctx.class("malformed but complete");
                    check!(
                        !is_insufficient(&e),
                        "all {} bytes of the frame are there, yet more are asked for ({:?}): {}",
                        t,
                        e,
                        hex(v)
                    );
                }
            }
        } else {
            ctx.class("incomplete");
        }
    }
    Ok(())
}
fn c04_complete(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    let mut t = gen::tokens(&p);
    let n = s.range(1, 3);
    for _ in 0..n {
        let what = gen::disturb(s, &mut t);
        ctx.class(what);
    }
    // keep the frame itself complete
    t.len_pad = 0;
    if t.len_delta > 0 {
        t.len_delta = -t.len_delta;
    }
    let mut b = gen::render(&t);
    let n = s.below(5);
    let x = s.bytes(n);
    b.extend_from_slice(&x);
    ctx.desc(|| hex(&b));
    complete(&b, ctx)
}
fn c04_cut(s: &mut Src, ctx: &mut Ctx) -> Res {
    // a legal body cut anywhere, in a frame that announces exactly what is left
    let p = gen::packet(s);
    let b = body(&p);
    if b.len() > 400 {
        let c = s.below(b.len());
        let f = frame(byte1(&p), &b[..c]);
        return complete(&f, ctx);
    }
    ctx.desc(|| format!("{} cut at every place", p.show()));
    for c in 0..b.len() {
        let f = frame(byte1(&p), &b[..c]);
        complete(&f, ctx)?;
    }
    Ok(())
}
fn c04_framed(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ty = *s.pick(gen::KINDS);
    let flags = if ty == T_PUBLISH { s.draw(16) as u8 } else { fixed_flags(ty) };
    let n = s.below(30);
    let inner = s.bytes(n);
    let f = frame((ty << 4) | flags, &inner);
    ctx.desc(|| hex(&f));
    complete(&f, ctx)
}
fn c04_small(_s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = ctx.index as u8;
    let f = |b: &[u8]| -> Res {
        let (r, _) = decode(b);
        if let Err(e) = r {
            check!(!is_insufficient(&e), "complete frame asks for more: {}", hex(b));
        }
        Ok(())
    };
    f(&[a, 0])?;
    for b in 0..=255u8 {
        f(&[a, 1, b])?;
        for c in 0..=255u8 {
            f(&[a, 2, b, c])?;
        }
    }
    ctx.nontrivial(&[a]);
    ctx.desc(|| format!("all frames of up to 2 body bytes with first byte {:#04x}", a));
    Ok(())
}
/// the first bytes of frames of every length, up to the largest, none of which is complete
fn c04_header(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ty = *s.pick(gen::KINDS);
    let flags = if ty == T_PUBLISH { *s.pick(&[0u8, 1, 2, 3, 4, 5, 8, 9, 11, 13]) } else { fixed_flags(ty) };
    let len = match s.below(3) {
        0 => *s.pick(&[1u32, 2, 127, 128, 16383, 16384, 2_097_151, 2_097_152, 2_097_153, 268_435_454, 268_435_455]),
        1 => 1 << s.below(28),
        _ => s.range(1, 268_435_455) as u32,
    };
    let mut b = vec![(ty << 4) | flags];
    put_var(&mut b, len);
    let head = b.len();
    let more = s.below((len as usize).min(64));
    let rest = s.bytes(more);
    b.extend_from_slice(&rest);
    ctx.desc(|| format!("{} of a frame with {} more to come: {}", b.len(), len as usize + head - b.len(), hex(&b)));
    ctx.nontrivial(&b);
    ctx.class(match head {
        2 => "1 length byte",
        3 => "2 length bytes",
        4 => "3 length bytes",
        _ => "4 length bytes",
    });
    for c in 0..=b.len() {
        match decode(&b[..c]).0 {
            Ok(_) => return broken(format!("{} bytes give a packet: {}", c, hex(&b[..c]))),
            Err(e) => check!(is_insufficient(&e), "{} bytes give {:?} instead of the need for more: {}", c, e, hex(&b[..c])),
        }
    }
    Ok(())
}
pub fn c04() -> Check {
    Check {
        id: "C04",
        rule: "every proper prefix (all of them up to 200 bytes, both ends and samples beyond) of random legal frames must be answered with InsufficientBuffer; complete frames with disturbed, cut or random contents must never be. Non-trivial: a complete frame or a frame with at least one proper prefix longer than its header, distinct by bytes",
        subs: vec![
            Sub::all("small", 256, c04_small),
            Sub::all("single", n_singles(), c04_single),
            Sub::rand("header", 60_000, 2_000_000, c04_header),
            Sub::rand("prefix", 300_000, 8_000_000, c04_prefix),
            Sub::rand("complete", 900_000, 40_000_000, c04_complete),
            Sub::rand("cut", 240_000, 6_400_000, c04_cut),
            Sub::rand("framed", 600_000, 32_000_000, c04_framed),
        ],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C05

fn wire(p: &RP, s: Option<&mut Src>, ctx: &mut Ctx) -> Res {
    note(ctx, p);
    ctx.desc(|| p.show());
    let b = st(made(p, s, ctx))?;
    let e = encode(&b);
    size_class(ctx, e.len());
    match read(&e) {
        Read::Good(q, used, _) => {
            check!(used == e.len(), "{} bytes written, frame has {}", e.len(), used);
            check!(q.ty() == p.ty(), "packet type {} written for {}", q.ty(), p.ty());
            same("independent reader of the encoding", &q, p)?;
        }
        x => return broken(format!("the encoding is not a legal frame: {:?}: {}", x, hex(&e))),
    }
    if e.len() > 2 {
        ctx.nontrivial(&body(p));
    }
    Ok(())
}
fn c05_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    wire(&p, Some(s), ctx)
}
fn c05_single(_s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = single(ctx);
    wire(&p, None, ctx)
}
fn c05_sizes(_s: &mut Src, ctx: &mut Ctx) -> Res {
    wire(&sized(ctx.index), None, ctx)
}
fn c05_bigprops(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = big_props(s);
    wire(&p, Some(s), ctx)
}
/// without properties the wire image is unique
fn c05_exact(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut p = gen::packet(s);
    strip_props(&mut p);
    note(ctx, &p);
    ctx.desc(|| p.show());
    let b = st(made(&p, Some(s), ctx))?;
    let e = encode(&b);
    let w = write(&p);
    check!(e == w, "encoding {} expected {}", hex(&e), hex(&w));
    if e.len() > 2 {
        ctx.nontrivial(&e);
    }
    Ok(())
}
/// at most one property per table: the order is unique
fn strip_props(p: &mut RP) {
    fn one(v: &mut Props) {
        if let Some(id) = v.first().map(|(k, _)| *k) {
            v.retain(|(k, _)| *k == id);
        }
    }
    match p {
        RP::Connect { props, will, .. } => {
            one(props);
            if let Some(w) = will {
                one(&mut w.props);
            }
        }
        RP::ConnAck { props, .. }
        | RP::Publish { props, .. }
        | RP::Ack { props, .. }
        | RP::Subscribe { props, .. }
        | RP::SubAck { props, .. }
        | RP::Unsubscribe { props, .. }
        | RP::Disc { props, .. } => one(props),
        RP::Ping { .. } => {}
    }
}
pub fn user_property_is_single_string() -> bool {
    // 3.1.2.11.8: a User Property is a pair of strings
    let mut b = Publish::new(arc("t"), Bytes::new()).unwrap();
    let pair = MqttPropValue::new_string_pair(arc("k"), arc("v")).unwrap();
    let single = MqttPropValue::new_string(arc("k")).unwrap();
    b.add_prop(Property::UserProperty, pair).is_err() && b.add_prop(Property::UserProperty, single).is_ok()
}
pub fn c05() -> Check {
    Check {
        id: "C05",
        rule: "random packets of all kinds, every property and reason code alone, and length boundaries are built and encoded; an independent MQTT 5 reader must find exactly the fields put in, and where the property order leaves no freedom the bytes must equal those of an independent writer. Non-trivial: frame with a variable header, distinct by content",
        subs: vec![
            Sub::all("single", n_singles(), c05_single),
            Sub::all("sizes", SIZES.len() as u64, c05_sizes),
            Sub::rand("bigprops", 600, 6_000, c05_bigprops),
            Sub::rand("exact", 600_000, 24_000_000, c05_exact),
            Sub::rand("random", 1_200_000, 40_000_000, c05_random),
        ],
        known: vec![("user-property-single-string", user_property_is_single_string)],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C06

fn judge(b: &[u8], ctx: &mut Ctx) -> Res {
    let want = read(b);
    let (r, used) = decode(b);
    match want {
        Read::Incomplete => {
            ctx.class("incomplete");
            check!(r.is_err(), "packet decoded from an incomplete frame: {}", hex(b));
        }
        Read::Bad(why, _) => {
            ctx.class("illegal");
            ctx.nontrivial(b);
            check!(r.is_err(), "accepted although illegal ({}): {}", why, hex(b));
        }
        Read::Good(p, total, soft) if soft.is_empty() => {
            ctx.class("legal");
            ctx.nontrivial(&b[..total]);
            match r {
                Err(e) => return broken(format!("legal frame rejected with {:?}: {} = {}", e, hex(b), p.show())),
                Ok(d) => {
                    check!(used == total, "consumed {} of {} bytes: {}", used, total, hex(b));
                    same("decoded frame", &st(observe(&d))?, &p)?;
                }
            }
        }
        Read::Good(p, total, soft) => {
            // the format is fine, the values are judged elsewhere in the specification
            ctx.class("no verdict on acceptance");
            ctx.excluded += 1;
            if let Ok(d) = r {
                check!(used == total, "consumed {} of {} bytes: {}", used, total, hex(b));
                if !soft.contains(&"truth value above 1") && !soft.contains(&"several subscription identifiers") {
                    same("decoded frame", &st(observe(&d))?, &p)?;
                }
            }
        }
    }
    Ok(())
}
fn c06_wild(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (b, _) = wild_frame(s, ctx);
    judge(&b, ctx)
}
fn c06_legal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    note(ctx, &p);
    let mut b = write(&p);
    ctx.desc(|| hex(&b));
    let n = s.below(4);
    let x = s.bytes(n);
    b.extend_from_slice(&x);
    judge(&b, ctx)
}
fn c06_one(s: &mut Src, ctx: &mut Ctx) -> Res {
    // one disturbance of a small packet
    let ty = *s.pick(gen::KINDS);
    let props = gen::props(s, ty);
    let mut p = with_props(ty, props);
    if let RP::Disc { ty: t, .. } = &mut p {
        if !matches!(*t, T_DISCONNECT | T_AUTH) {
            p = RP::Ping { ty };
        }
    }
    let mut t = gen::tokens(&p);
    let what = gen::disturb(s, &mut t);
    ctx.class(what);
    let b = gen::render(&t);
    ctx.desc(|| format!("{}: {}", what, hex(&b)));
    judge(&b, ctx)
}
fn c06_small(_s: &mut Src, ctx: &mut Ctx) -> Res {
    let a = ctx.index as u8;
    let mut c2 = Ctx::new(0, false, false, 0);
    judge(&[a, 0], &mut c2)?;
    for b in 0..=255u8 {
        judge(&[a, 1, b], &mut c2)?;
        for c in 0..=255u8 {
            judge(&[a, 2, b, c], &mut c2)?;
        }
    }
    ctx.nontrivial(&[a]);
    ctx.desc(|| format!("all frames of up to 2 body bytes with first byte {:#04x}", a));
    Ok(())
}
/// all three-byte bodies for acknowledgement-like packets; every value of each one-byte field
fn c06_bytes(_s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c2 = Ctx::new(0, false, false, 0);
    let x = ctx.index as u8;
    for b1 in [0x20u8, 0xe0, 0xf0, 0x30, 0x31] {
        for y in 0..=255u8 {
            for z in [0u8, 1, 2, 0x7f, 0x80, 0xff] {
                judge(&[b1, 3, x, y, z], &mut c2)?;
                judge(&[b1, 3, z, x, y], &mut c2)?;
            }
        }
    }
    for b1 in [0x40u8, 0x50, 0x62, 0x70] {
        for z in [0u8, 1, 0x80] {
            judge(&[b1, 4, 0, 1, x, z], &mut c2)?;
            judge(&[b1, 5, 0, 1, x, z, z], &mut c2)?;
        }
    }
    for b1 in [0x90u8, 0xb0] {
        judge(&[b1, 4, 0, 1, 0, x], &mut c2)?;
        judge(&[b1, 5, 0, 1, 0, 0, x], &mut c2)?;
        judge(&[b1, 5, 0, 1, 0, x, 0x80], &mut c2)?;
    }
    // subscription options and connect flags
    judge(&[0x82, 7, 0, 1, 0, 0, 1, b'a', x], &mut c2)?;
    let mut c = Vec::new();
    put_str(&mut c, b"MQTT");
    c.extend_from_slice(&[5, x, 0, 1, 0, 0, 1, b'c']);
    if x & 4 != 0 {
        c.extend_from_slice(&[0, 0, 1, b't', 0, 1, 9]);
    }
    if x & 0x80 != 0 {
        c.extend_from_slice(&[0, 1, b'u']);
    }
    if x & 0x40 != 0 {
        c.extend_from_slice(&[0, 1, 7]);
    }
    judge(&frame(0x10, &c), &mut c2)?;
    c[6] = x;
    judge(&frame(0x10, &c), &mut c2)?;
    // every value of the version byte and of each letter of the protocol name
    for at in [0usize, 1, 2, 3, 4, 5, 6] {
        let mut c = Vec::new();
        put_str(&mut c, b"MQTT");
        c.extend_from_slice(&[5, 2, 0, 1, 0, 0, 1, b'c']);
        c[at] = x;
        judge(&frame(0x10, &c), &mut c2)?;
    }
    // property identifiers
    for owner in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16] {
        for val in [vec![0u8], vec![0, 0], vec![0, 1], vec![0, 1, b'a'], vec![0, 0, 0, 1]] {
            let mut t = gen::tokens(&with_props(owner, vec![]));
            for k in t.toks.iter_mut() {
                if let gen::Tok::Props(p) = k {
                    if p.owner == owner {
                        p.items.push(gen::TProp { id: x as u32, id_pad: 0, val: gen::TVal::Raw(val.clone()) });
                    }
                }
            }
            judge(&gen::render(&t), &mut c2)?;
        }
    }
    ctx.nontrivial(&[x, 1]);
    ctx.desc(|| format!("every one-byte field set to {:#04x}", x));
    Ok(())
}
pub fn short_forms_rejected() -> bool {
    // 3.4.2.1, 3.14.2.1: reason code and properties may be left out
    let forms: [&[u8]; 4] = [&[0x40, 2, 0, 1], &[0x40, 3, 0, 1, 0], &[0xe0, 0], &[0xf0, 0]];
    forms.iter().all(|f| decode(f).0.is_err())
}
pub fn c06() -> Check {
    Check {
        id: "C06",
        rule: "frames from an independent writer, legal or with one to three disturbances (flags, lengths, padding of integers, properties of other packets, repeats, unknown ones, bad text, misplaced wildcards, reason codes, options, missing/doubled/trailing fields, byte damage), plus all frames of up to 2 body bytes and all values of every one-byte field; acceptance and every field are compared with an independent reader. Frames whose legality MQTT 5 decides by value rather than format get no verdict and are counted as excluded. Non-trivial: complete frame with a verdict, distinct by bytes",
        subs: vec![
            Sub::all("small", 256, c06_small),
            Sub::all("bytes", 256, c06_bytes),
            Sub::rand("legal", 600_000, 24_000_000, c06_legal),
            Sub::rand("one", 1_500_000, 64_000_000, c06_one),
            Sub::rand("wild", 1_200_000, 48_000_000, c06_wild),
        ],
        known: vec![("short-forms-rejected", short_forms_rejected)],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C07

const OWNERS: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16];

/// the library object that owns properties
#[derive(Clone)]
pub enum Own {
    Connect(Connect),
    Will(Will),
    ConnAck(ConnAck),
    Publish(Publish),
    PubAck(PubAck),
    PubRec(PubRec),
    PubRel(PubRel),
    PubComp(PubComp),
    Subscribe(Subscribe),
    SubAck(SubAck),
    Unsubscribe(Unsubscribe),
    UnsubAck(UnsubAck),
    Disconnect(Disconnect),
    Auth(Auth),
}
macro_rules! each {
    ($o:expr, $b:ident => $e:expr) => {
        match $o {
            Own::Connect($b) => $e,
            Own::Will($b) => $e,
            Own::ConnAck($b) => $e,
            Own::Publish($b) => $e,
            Own::PubAck($b) => $e,
            Own::PubRec($b) => $e,
            Own::PubRel($b) => $e,
            Own::PubComp($b) => $e,
            Own::Subscribe($b) => $e,
            Own::SubAck($b) => $e,
            Own::Unsubscribe($b) => $e,
            Own::UnsubAck($b) => $e,
            Own::Disconnect($b) => $e,
            Own::Auth($b) => $e,
        }
    };
}
impl Own {
    pub fn new(owner: u8) -> Own {
        match owner {
            1 => Own::Connect(Connect::new(arc("c")).unwrap()),
            2 => Own::ConnAck(ConnAck::new()),
            3 => Own::Publish(Publish::new(arc("t"), Bytes::from_static(b"p")).unwrap()),
            4 => Own::PubAck(PubAck::new(1)),
            5 => Own::PubRec(PubRec::new(1)),
            6 => Own::PubRel(PubRel::new(1)),
            7 => Own::PubComp(PubComp::new(1)),
            8 => {
                let mut s = Subscribe::new(1);
                s.add_topic(arc("f"), SubscriptionOptions::empty()).unwrap();
                Own::Subscribe(s)
            }
            9 => {
                let mut s = SubAck::new(1);
                s.add_reason_code(SubAckReasonCode::GrantedQoS0);
                Own::SubAck(s)
            }
            10 => {
                let mut s = Unsubscribe::new(1);
                s.add_topic(arc("f")).unwrap();
                Own::Unsubscribe(s)
            }
            11 => {
                let mut s = UnsubAck::new(1);
                s.add_reason_code(UnsubAckReasonCode::Success);
                Own::UnsubAck(s)
            }
            14 => Own::Disconnect(Disconnect::new(DisconnectReasonCode::NormalDisconnection)),
            15 => Own::Auth(Auth::new(AuthReasonCode::Success)),
            _ => Own::Will(Will::new(arc("w"), Bytes::from_static(b"p")).unwrap()),
        }
    }
    fn add(&mut self, k: Property, v: MqttPropValue) -> Result<(), DataParseError> {
        each!(self, b => b.add_prop(k, v))
    }
    fn packet(&self) -> Packet {
        match self.clone() {
            Own::Connect(b) => b.build(),
            Own::Will(w) => {
                let mut c = Connect::new(arc("c")).unwrap();
                c.set_will(w);
                c.build()
            }
            Own::ConnAck(b) => b.build(),
            Own::Publish(b) => b.build(),
            Own::PubAck(b) => b.build(),
            Own::PubRec(b) => b.build(),
            Own::PubRel(b) => b.build(),
            Own::PubComp(b) => b.build(),
            Own::Subscribe(b) => b.build(),
            Own::SubAck(b) => b.build(),
            Own::Unsubscribe(b) => b.build(),
            Own::UnsubAck(b) => b.build(),
            Own::Disconnect(b) => b.build(),
            Own::Auth(b) => b.build(),
        }
    }
}
fn owner_props(p: &RP, owner: u8) -> Props {
    match (p, owner) {
        (RP::Connect { will: Some(w), .. }, T_WILL) => w.props.clone(),
        (p, _) => p.props().to_vec(),
    }
}
/// a value made by constructor number `k`, and the wire value it stands for
fn ctor(s: &mut Src, k: u64) -> (MqttPropValue, &'static str, Option<Val>) {
    match k {
        0 => {
            let b = s.chance(1, 2);
            (MqttPropValue::new_bool(b), "bool", Some(Val::Byte(b as u8)))
        }
        1 => {
            let b = s.draw(2) as u8;
            (MqttPropValue::new_u8(b), "byte", Some(Val::Byte(b)))
        }
        2 => {
            let x = gen::u16v(s);
            (MqttPropValue::new_u16(x), "u16", Some(Val::U16(x)))
        }
        3 => {
            let x = gen::u32v(s);
            (MqttPropValue::new_u32(x), "u32", Some(Val::U32(x)))
        }
        4 => {
            let x = gen::varv(s);
            (MqttPropValue::new_varint(x).unwrap(), "varint", Some(Val::Var(x)))
        }
        5 => {
            let t = gen::short_string(s);
            (MqttPropValue::new_string(arc(&t)).unwrap(), "string", Some(Val::Str(t)))
        }
        6 => (MqttPropValue::new_string_pair(arc("k"), arc("v")).unwrap(), "pair", None),
        _ => {
            let n = s.below(6);
            let b = s.bytes(n);
            (MqttPropValue::new_data(pieces(s, &b)).unwrap(), "data", Some(Val::Bin(b)))
        }
    }
}
fn ctor_fits(k: u64, id: u8) -> bool {
    let ty = prop_info(id as u32).expect("table").1;
    let is_bool = BOOL_PROPS.contains(&id);
    match k {
        0 => is_bool,
        1 => ty == Ty::Byte && !is_bool,
        2 => ty == Ty::U16,
        3 => ty == Ty::U32,
        4 => ty == Ty::Var,
        5 => ty == Ty::Str,
        6 => false,
        _ => ty == Ty::Bin,
    }
}
const N_MATRIX: u64 = 14 * 27 * 8;
fn c07_matrix(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = ctx.index % (14 * 27 * 3);
    let owner = OWNERS[(i % 14) as usize];
    let (id, _, owners, repeat) = PROPS[(i / 14 % 27) as usize];
    let k = i / 14 / 27;
    let mut o = Own::new(owner);
    let before = st(observe(&o.packet()))?;
    let (v, kind, val) = ctor(s, k);
    let want = owners.contains(&owner) && ctor_fits(k, id);
    ctx.desc(|| format!("packet {} property {:#x} value {}", owner, id, kind));
    let r = o.add(prop(id), v.clone());
    check!(
        r.is_ok() == want,
        "property {:#x} as {} on packet type {}: {}, expected {}",
        id,
        kind,
        owner,
        if r.is_ok() { "accepted" } else { "rejected" },
        if want { "accepted" } else { "rejected" }
    );
    let after = st(observe(&o.packet()))?;
    if !want {
        check!(before.norm() == after.norm(), "a rejected property changed the packet");
        if let Err(e) = r {
            check!(e == DataParseError::BadProperty, "rejected with {:?}", e);
        }
    } else {
        let val = val.expect("fits");
        let got = owner_props(&after, owner);
        check!(got == vec![(id, val.clone())], "property {:#x} reads back as {:?}", id, got);
        // once more
        let (v2, _, val2) = ctor(s, k);
        let val2 = val2.expect("fits");
        check!(o.add(prop(id), v2).is_ok(), "setting property {:#x} again is refused", id);
        let got = owner_props(&st(observe(&o.packet()))?, owner);
        let want = if repeat { vec![(id, val), (id, val2)] } else { vec![(id, val2)] };
        check!(got == want, "after setting {:#x} twice: {:?}, expected {:?}", id, got, want);
        let e = encode(&o.packet());
        check!(e.len() == o.packet().frame_len(), "frame_len after replacing {:#x}", id);
        match read(&e) {
            Read::Good(q, _, _) => {
                check!(owner_props(&q, owner) == want, "wire image after setting {:#x} twice", id)
            }
            x => return broken(format!("illegal encoding: {:?}", x)),
        }
    }
    ctx.nontrivial(&i.to_be_bytes());
    ctx.class(if want { "allowed" } else { "not allowed" });
    Ok(())
}
fn c07_received(s: &mut Src, ctx: &mut Ctx) -> Res {
    let i = ctx.index % (14 * 27 * 3);
    let owner = OWNERS[(i % 14) as usize];
    let (id, _, owners, repeat) = PROPS[(i / 14 % 27) as usize];
    let n = 1 + i / 14 / 27; // once, twice, three times
    let others = gen::allowed(owner);
    for round in 0..8 {
        let mut items: Vec<(u8, Val)> = Vec::new();
        for _ in 0..n {
            items.push((id, sane(s, id)));
        }
        // among other, legal properties: a few of them or nearly all, before or after
        let many = if round % 2 == 0 { 1 } else { 4 };
        for o in &others {
            if *o != id && s.chance(many, 4) {
                let v = sane(s, *o);
                let at = match round {
                    1 | 2 => 0,
                    3 => items.len(),
                    _ => s.below(items.len() + 1),
                };
                items.insert(at, (*o, v));
            }
        }
        if items.iter().any(|(k, _)| *k == 0x16) && !items.iter().any(|(k, _)| *k == 0x15) {
            if !others.contains(&0x15) {
                // not on this packet anyway
            } else {
                items.push((0x15, Val::Str("m".into())));
            }
        }
        let p = with_props(owner, items.clone());
        let b = write(&p);
        let (r, _) = decode(&b);
        if n > 1 && id == 0x0b && owner == T_PUBLISH {
            // recorded finding
            ctx.excluded += 1;
            continue;
        }
        let want = owners.contains(&owner) && (n == 1 || repeat);
        check!(
            r.is_ok() == want,
            "received packet type {} with property {:#x} {} times: {}, expected {}: {}",
            owner,
            id,
            n,
            if r.is_ok() { "accepted" } else { "rejected" },
            if want { "accepted" } else { "rejected" },
            hex(&b)
        );
        if let Ok(d) = r {
            let got = owner_props(&st(observe(&d))?, owner);
            check!(got == norm_props(&items), "received properties read back as {:?}", got);
        }
        ctx.class(if want { "allowed" } else { "not allowed" });
        ctx.nontrivial(&b);
    }
    ctx.desc(|| format!("received packet {} with property {:#x} {} times", owner, id, n));
    Ok(())
}
/// values no rule of the specification objects to
fn sane(s: &mut Src, id: u8) -> Val {
    let v = gen::prop_val(s, id);
    match (id, v) {
        (0x21, Val::U16(0)) | (0x23, Val::U16(0)) => Val::U16(1),
        (0x27, Val::U32(0)) => Val::U32(1),
        (0x0b, Val::Var(0)) => Val::Var(1),
        (_, Val::Byte(b)) => Val::Byte(b & 1),
        (_, v) => v,
    }
}
/// sequences on one table
fn c07_seq(s: &mut Src, ctx: &mut Ctx) -> Res {
    let owner = *s.pick(OWNERS);
    let mut o = Own::new(owner);
    let mut model: Props = Vec::new();
    let n = s.range(1, 12);
    let ok = gen::allowed(owner);
    let mut log = Vec::new();
    let mut replaced = false;
    for _ in 0..n {
        let id = if s.chance(4, 5) && !ok.is_empty() { *s.pick(&ok) } else { PROPS[s.below(27)].0 };
        let fit = (0..8).find(|k| ctor_fits(*k, id)).unwrap_or(0);
        let k = if s.chance(5, 6) { fit } else { s.draw(8) };
        let (v, kind, val) = ctor(s, k);
        log.push(format!("{:#x}:{}", id, kind));
        let want = ok.contains(&id) && ctor_fits(k, id);
        let r = o.add(prop(id), v);
        check!(r.is_ok() == want, "after {}: verdict {:?}", log.join(","), r);
        if want {
            let val = val.expect("fits");
            let repeat = prop_info(id as u32).expect("table").3;
            if !repeat && model.iter().any(|(k, _)| *k == id) {
                model.retain(|(k, _)| *k != id);
                replaced = true;
            }
            model.push((id, val));
        }
        let p = o.packet();
        let got = owner_props(&st(observe(&p))?, owner);
        check!(got == norm_props(&model), "after {}: {:?} expected {:?}", log.join(","), got, norm_props(&model));
        let e = encode(&p);
        check!(e.len() == p.frame_len(), "after {}: frame_len {} encoding {}", log.join(","), p.frame_len(), e.len());
        match read(&e) {
            Read::Good(q, _, _) => {
                let w = norm_props(&owner_props(&q, owner));
                check!(w == norm_props(&model), "after {}: wire image {:?}", log.join(","), w);
            }
            x => return broken(format!("after {}: illegal encoding {:?}", log.join(","), x)),
        }
    }
    ctx.desc(|| format!("packet {}: {}", owner, log.join(",")));
    if replaced {
        ctx.class("replacement");
    }
    if model.len() > 1 {
        ctx.nontrivial(log.join(",").as_bytes());
    }
    Ok(())
}
/// Properties as a value of its own
fn c07_table(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut t = Properties::new();
    let mut model: Props = Vec::new();
    let n = s.range(1, 10);
    let mut log = Vec::new();
    for _ in 0..n {
        let id = PROPS[s.below(27)].0;
        let fit = (0..8).find(|k| ctor_fits(*k, id)).unwrap_or(0);
        let k = if s.chance(5, 6) { fit } else { s.draw(8) };
        let (v, kind, val) = ctor(s, k);
        let repeat = prop_info(id as u32).expect("table").3;
        let had = model.iter().any(|(k, _)| *k == id);
        let fits = ctor_fits(k, id);
        if s.chance(1, 2) {
            // a received value: repeats are errors
            log.push(format!("insert {:#x}:{}", id, kind));
            let want = fits && (repeat || !had);
            let r = t.insert(prop(id), v);
            check!(r.is_ok() == want, "after {}: {:?}", log.join(","), r);
            if want {
                model.push((id, val.expect("fits")));
            }
        } else {
            let bit = s.below(14);
            let owner = PropOwner::from_bits_truncate(1 << bit);
            let num = owner_of_bit(bit);
            log.push(format!("checked_insert {:#x}:{} for {}", id, kind, num));
            let want = fits && prop_info(id as u32).expect("table").2.contains(&num);
            let r = t.checked_insert(prop(id), v, owner);
            check!(r.is_ok() == want, "after {}: {:?}", log.join(","), r);
            if want {
                if !repeat {
                    model.retain(|(k, _)| *k != id);
                }
                model.push((id, val.expect("fits")));
            }
        }
        let mut got: Props = Vec::new();
        for (k, v) in t.iter() {
            let id = prop_id(k);
            got.push((id, st(unvalue(id, v))?));
        }
        check!(norm_props(&got) == norm_props(&model), "after {}: {:?} expected {:?}", log.join(","), got, model);
        for bit in 0..14 {
            let num = owner_of_bit(bit);
            let want = model.iter().all(|(k, _)| prop_info(*k as u32).expect("table").2.contains(&num));
            let got = t.is_valid_for(PropOwner::from_bits_truncate(1 << bit));
            check!(got == want, "after {}: is_valid_for packet {} says {}", log.join(","), num, got);
        }
    }
    ctx.desc(|| log.join(", "));
    ctx.nontrivial(log.join(",").as_bytes());
    Ok(())
}
fn owner_of_bit(bit: usize) -> u8 {
    let all = [
        (PropOwner::AUTH, 15u8),
        (PropOwner::CONNACK, 2),
        (PropOwner::CONNECT, 1),
        (PropOwner::DISCONNECT, 14),
        (PropOwner::PUBACK, 4),
        (PropOwner::PUBCOMP, 7),
        (PropOwner::PUBLISH, 3),
        (PropOwner::PUBREC, 5),
        (PropOwner::PUBREL, 6),
        (PropOwner::SUBACK, 9),
        (PropOwner::SUBSCRIBE, 8),
        (PropOwner::UNSUBACK, 11),
        (PropOwner::UNSUBSCRIBE, 10),
        (PropOwner::WILL, 16),
    ];
    all.iter().find(|(o, _)| o.bits() == 1 << bit).map(|(_, n)| *n).expect("owner bit")
}
pub fn several_subscription_ids_rejected() -> bool {
    let p = with_props(T_PUBLISH, vec![(0x0b, Val::Var(1)), (0x0b, Val::Var(2))]);
    decode(&write(&p)).0.is_err()
}
pub fn c07() -> Check {
    Check {
        id: "C07",
        rule: "the full matrix of 14 property owners x 27 properties x 8 value constructors through the builders, the same matrix x 1..3 occurrences through received frames (among random other properties), random sequences of property calls on every packet, and on the property table itself; verdict, read-back, order and wire image against the MQTT 5 property table. Non-trivial: every matrix cell; sequences that leave at least two values, distinct by content",
        subs: vec![
            Sub::all("matrix", N_MATRIX, c07_matrix),
            Sub::all("received", 14 * 27 * 3 * 24, c07_received),
            Sub::rand("seq", 360_000, 12_000_000, c07_seq),
            Sub::rand("table", 360_000, 12_000_000, c07_table),
        ],
        known: vec![("several-subscription-identifiers-rejected", several_subscription_ids_rejected)],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C08

/// text for builder calls: valid or not
fn text(s: &mut Src) -> (String, bool) {
    let t = match s.weighted(&[8, 2, 2, 1]) {
        0 => gen::topic(s),
        1 => gen::filter(s),
        2 => {
            let mut t = gen::short_string(s);
            let bad = *s.pick(&['\u{0}', '\u{1}', '\n', '\u{1f}', '\u{7f}', '\u{80}', '\u{9f}']);
            let at = s.below(t.chars().count() + 1);
            let i = t.char_indices().nth(at).map(|(i, _)| i).unwrap_or(t.len());
            t.insert(i, bad);
            t
        }
        _ => "x".repeat(*s.pick(&[65535usize, 65536, 65537, 70000])),
    };
    let ok = string_ok(&t);
    (t, ok)
}
/// the same bytes, stored in one to four segments
fn pieces(s: &mut Src, b: &[u8]) -> Segs {
    let mut cuts = Vec::new();
    if s.chance(1, 2) {
        for _ in 0..s.range(1, 3) {
            cuts.push(s.below(b.len() + 1));
        }
        cuts.sort_unstable();
    }
    segs(b, &cuts)
}
fn big_blob(s: &mut Src) -> Vec<u8> {
    if s.chance(1, 8) {
        vec![9u8; *s.pick(&[65535usize, 65536, 70000])]
    } else {
        gen::blob(s)
    }
}
fn model_prop(model: &mut Props, id: u8, v: Val) {
    let repeat = prop_info(id as u32).expect("table").3;
    if !repeat {
        model.retain(|(k, _)| *k != id);
    }
    model.push((id, v));
}
/// one property call on builder and model; returns a label
fn prop_call(s: &mut Src, o: &mut dyn FnMut(Property, MqttPropValue) -> Result<(), DataParseError>, model: &mut Props, owner: u8) -> Result<String, Fail> {
    let ok = gen::allowed(owner);
    let id = if s.chance(4, 5) && !ok.is_empty() { *s.pick(&ok) } else { PROPS[s.below(27)].0 };
    let fit = (0..8).find(|k| ctor_fits(*k, id)).unwrap_or(0);
    let k = if s.chance(5, 6) { fit } else { s.draw(8) };
    let (v, kind, val) = ctor(s, k);
    let want = ok.contains(&id) && ctor_fits(k, id);
    let r = o(prop(id), v);
    let label = format!("add_prop({:#x},{})->{}", id, kind, r.is_ok());
    if r.is_ok() != want {
        return Err(Fail::Broken(format!("{}: expected {}", label, want)));
    }
    if want {
        model_prop(model, id, val.expect("fits"));
    }
    Ok(label)
}
fn verdict(label: &str, got: bool, want: bool) -> Res {
    if got != want {
        return broken(format!("{}: {}, expected {}", label, got, want));
    }
    Ok(())
}

fn c08_seq(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = *s.pick(&[1u8, 1, 1, 3, 3, 3, 8, 8, 10, 9, 11, 2, 4, 5, 6, 7, 14, 15]);
    let n = s.range(1, 14) as usize;
    let mut log: Vec<String> = Vec::new();
    let mut rejected = 0;
    let r = match kind {
        1 => seq_connect(s, n, &mut log, &mut rejected),
        3 => seq_publish(s, n, &mut log, &mut rejected),
        8 | 10 | 9 | 11 => seq_list(s, kind, n, &mut log, &mut rejected),
        _ => seq_simple(s, kind, n, &mut log, &mut rejected),
    };
    ctx.desc(|| format!("type {}: {}", kind, log.join("; ")));
    ctx.class(match kind {
        1 => "CONNECT",
        3 => "PUBLISH",
        8 => "SUBSCRIBE",
        9 => "SUBACK",
        10 => "UNSUBSCRIBE",
        11 => "UNSUBACK",
        _ => "other",
    });
    if rejected > 0 {
        ctx.class("with a rejected call");
    }
    if n > 1 {
        ctx.nontrivial(format!("{}{}", kind, log.join(";")).as_bytes());
    }
    r.map_err(|e| match e {
        Fail::Broken(m) => Fail::Broken(format!("{} [calls: {}]", m, log.join("; "))),
        x => x,
    })
}
/// getters, frame_len and encoding against the model
fn agree(p: &Packet, model: &RP, legal: bool) -> Res {
    same("getters", &st(observe(p))?, model)?;
    let e = encode(p);
    check!(e.len() == p.frame_len(), "frame_len {} encoding {}", p.frame_len(), e.len());
    if legal {
        match read(&e) {
            Read::Good(q, used, _) => {
                check!(used == e.len(), "encoding has extra bytes");
                same("encoding", &q, model)?;
            }
            x => return broken(format!("the encoding is not a legal frame: {:?} {}", x, hex(&e))),
        }
        let (r, _) = decode(&e);
        if let Err(x) = r {
            return broken(format!("own encoding rejected: {:?}", x));
        }
    }
    Ok(())
}
fn clip(s: &str) -> String {
    if s.len() > 40 {
        format!("<{} bytes>", s.len())
    } else {
        format!("{:?}", s)
    }
}

fn seq_connect(s: &mut Src, n: usize, log: &mut Vec<String>, rejected: &mut u32) -> Res {
    let (id, ok) = text(s);
    let r = Connect::new(arc(&id));
    log.push(format!("Connect::new({})", clip(&id)));
    verdict("Connect::new", r.is_ok(), ok)?;
    let (mut c, id) = match r {
        Ok(c) => (c, id),
        Err(_) => {
            *rejected += 1;
            (Connect::new(arc("c")).map_err(|e| Fail::Broken(format!("{:?}", e)))?, "c".to_string())
        }
    };
    let mut flags = 0u8;
    let mut keep = 0u16;
    let mut props: Props = vec![];
    let mut will: Option<RWill> = None;
    let mut user = None;
    let mut pass = None;
    for _ in 0..n {
        match s.below(9) {
            0 => {
                c.set_clean_start();
                flags |= 2;
                log.push("set_clean_start".into());
            }
            1 => {
                keep = gen::u16v(s);
                c.set_keep_alive(keep);
                log.push(format!("set_keep_alive({})", keep));
            }
            2 => {
                let (t, ok) = text(s);
                let r = c.set_username(arc(&t));
                log.push(format!("set_username({})->{}", clip(&t), r.is_ok()));
                verdict("set_username", r.is_ok(), ok)?;
                if ok {
                    user = Some(t);
                    flags |= 0x80;
                } else {
                    *rejected += 1;
                }
            }
            3 => {
                let b = big_blob(s);
                let ok = b.len() <= 65535;
                let r = c.set_password(pieces(s, &b));
                log.push(format!("set_password({} bytes)->{}", b.len(), r.is_ok()));
                verdict("set_password", r.is_ok(), ok)?;
                if ok {
                    pass = Some(b);
                    flags |= 0x40;
                } else {
                    *rejected += 1;
                }
            }
            4 => {
                let q = s.draw(3) as u8;
                let r = c.set_will_qos(qos(q));
                log.push(format!("set_will_qos({})->{}", q, r.is_ok()));
                verdict("set_will_qos", r.is_ok(), will.is_some())?;
                if will.is_some() {
                    flags = (flags & !0x18) | (q << 3);
                } else {
                    *rejected += 1;
                }
            }
            5 => {
                let r = c.set_will_retain();
                log.push(format!("set_will_retain->{}", r.is_ok()));
                verdict("set_will_retain", r.is_ok(), will.is_some())?;
                if will.is_some() {
                    flags |= 0x20;
                } else {
                    *rejected += 1;
                }
            }
            6 | 7 => {
                // a will with its own history
                let (t, ok) = text(s);
                let b = big_blob(s);
                let wild = t.contains(|x| x == '#' || x == '+');
                if wild {
                    continue;
                }
                let ok = ok && b.len() <= 65535;
                let r = Will::new(arc(&t), pieces(s, &b));
                log.push(format!("Will::new({},{} bytes)->{}", clip(&t), b.len(), r.is_ok()));
                verdict("Will::new", r.is_ok(), ok)?;
                let mut w = match r {
                    Ok(w) => w,
                    Err(_) => {
                        *rejected += 1;
                        continue;
                    }
                };
                let mut m = RWill { props: vec![], topic: t, payload: b };
                let k = s.below(4);
                for _ in 0..k {
                    match s.below(3) {
                        0 => {
                            let (t, ok) = text(s);
                            if t.contains(|x| x == '#' || x == '+') {
                                continue;
                            }
                            let r = w.set_topic(arc(&t));
                            log.push(format!("will.set_topic({})->{}", clip(&t), r.is_ok()));
                            verdict("will.set_topic", r.is_ok(), ok)?;
                            if ok {
                                m.topic = t;
                            } else {
                                *rejected += 1;
                            }
                        }
                        1 => {
                            let b = big_blob(s);
                            let ok = b.len() <= 65535;
                            let r = w.set_payload(pieces(s, &b));
                            log.push(format!("will.set_payload({} bytes)->{}", b.len(), r.is_ok()));
                            verdict("will.set_payload", r.is_ok(), ok)?;
                            if ok {
                                m.payload = b;
                            } else {
                                *rejected += 1;
                            }
                        }
                        _ => {
                            let l = prop_call(s, &mut |k, v| w.add_prop(k, v), &mut m.props, T_WILL)?;
                            log.push(format!("will.{}", l));
                        }
                    }
                    check!(w.topic().as_ref() == m.topic, "will topic getter");
                    check!(w.clone().payload()[..] == m.payload[..], "will payload getter");
                }
                c.set_will(w);
                log.push("set_will".into());
                flags |= 4;
                will = Some(m);
            }
            _ => {
                let l = prop_call(s, &mut |k, v| c.add_prop(k, v), &mut props, T_CONNECT)?;
                log.push(l);
            }
        }
        let model = RP::Connect {
            flags,
            keep,
            props: props.clone(),
            id: id.clone(),
            will: will.clone(),
            user: user.clone(),
            pass: pass.clone(),
        };
        agree(&c.clone().build(), &model, true)?;
    }
    Ok(())
}
fn seq_publish(s: &mut Src, n: usize, log: &mut Vec<String>, rejected: &mut u32) -> Res {
    let (t, ok) = text(s);
    let ok = ok && filter_ok(&t) && topic_ok(&t);
    let mut payload = gen::payload(s);
    let r = Publish::new(arc(&t), Bytes::from(payload.clone()));
    log.push(format!("Publish::new({})->{}", clip(&t), r.is_ok()));
    verdict("Publish::new", r.is_ok(), ok)?;
    let (mut b, topic) = match r {
        Ok(b) => (b, t),
        Err(_) => {
            *rejected += 1;
            (
                Publish::new(arc("t"), Bytes::from(payload.clone()))
                    .map_err(|e| Fail::Broken(format!("{:?}", e)))?,
                "t".to_string(),
            )
        }
    };
    let mut flags = 0u8;
    let mut id: Option<u16> = None;
    let mut props: Props = vec![];
    for _ in 0..n {
        match s.below(8) {
            0 | 1 => {
                let q = s.draw(3) as u8;
                b.set_qos(qos(q));
                flags = (flags & !6) | (q << 1);
                if q == 0 {
                    id = None;
                }
                log.push(format!("set_qos({})", q));
            }
            2 | 3 => {
                let i = gen::u16v(s);
                let r = b.set_packet_identifier(i);
                let ok = flags & 6 != 0;
                log.push(format!("set_packet_identifier({})->{}", i, r.is_ok()));
                verdict("set_packet_identifier", r.is_ok(), ok)?;
                if ok {
                    id = Some(i);
                } else {
                    *rejected += 1;
                }
            }
            4 => {
                if s.chance(1, 2) {
                    b.set_retain();
                    flags |= 1;
                    log.push("set_retain".into());
                } else {
                    b.set_dup();
                    flags |= 8;
                    log.push("set_dup".into());
                }
            }
            5 => {
                payload = gen::payload(s);
                if s.chance(1, 2) {
                    b.set_payload_bytes(Bytes::from(payload.clone()));
                } else {
                    b.set_payload(pieces(s, &payload));
                }
                log.push(format!("set_payload({} bytes)", payload.len()));
            }
            _ => {
                let l = prop_call(s, &mut |k, v| b.add_prop(k, v), &mut props, T_PUBLISH)?;
                log.push(l);
            }
        }
        let legal = flags & 6 == 0 || id.is_some();
        let model = RP::Publish { flags, topic: topic.clone(), id, props: props.clone(), payload: payload.clone() };
        agree(&b.clone().build(), &model, legal)?;
    }
    Ok(())
}
fn seq_list(s: &mut Src, kind: u8, n: usize, log: &mut Vec<String>, rejected: &mut u32) -> Res {
    let id = gen::u16v(s);
    let mut props: Props = vec![];
    let mut topics: Vec<(String, u8)> = vec![];
    let mut codes: Vec<u8> = vec![];
    let mut o = match kind {
        8 => Own::Subscribe(Subscribe::new(id)),
        9 => Own::SubAck(SubAck::new(id)),
        10 => Own::Unsubscribe(Unsubscribe::new(id)),
        _ => Own::UnsubAck(UnsubAck::new(id)),
    };
    log.push(format!("new({})", id));
    for _ in 0..n {
        if s.chance(2, 3) {
            match &mut o {
                Own::Subscribe(b) => {
                    let (t, ok) = text(s);
                    let opt = (s.draw(4) as u8) | ((s.draw(4) as u8) << 2) | ((s.draw(4) as u8) << 4);
                    let ok = ok && filter_ok(&t) && opt & 3 != 3 && (opt >> 4) & 3 != 3;
                    let so = SubscriptionOptions::from_bits(opt)
                        .ok_or_else(|| Fail::Broken(format!("options {:#x} not representable", opt)))?;
                    let r = b.add_topic(arc(&t), so);
                    log.push(format!("add_topic({},{:#x})->{}", clip(&t), opt, r.is_ok()));
                    verdict("add_topic", r.is_ok(), ok)?;
                    if ok {
                        topics.push((t, opt));
                    } else {
                        *rejected += 1;
                    }
                }
                Own::Unsubscribe(b) => {
                    let (t, ok) = text(s);
                    let ok = ok && filter_ok(&t);
                    let r = b.add_topic(arc(&t));
                    log.push(format!("add_topic({})->{}", clip(&t), r.is_ok()));
                    verdict("add_topic", r.is_ok(), ok)?;
                    if ok {
                        topics.push((t, 0));
                    } else {
                        *rejected += 1;
                    }
                }
                Own::SubAck(b) => {
                    let c = *s.pick(R_SUBACK);
                    b.add_reason_code(suback_code(c));
                    codes.push(c);
                    log.push(format!("add_reason_code({:#x})", c));
                }
                Own::UnsubAck(b) => {
                    let c = *s.pick(R_UNSUBACK);
                    b.add_reason_code(unsuback_code(c));
                    codes.push(c);
                    log.push(format!("add_reason_code({:#x})", c));
                }
                _ => unreachable!(),
            }
        } else {
            let l = prop_call(s, &mut |k, v| o.add(k, v), &mut props, kind)?;
            log.push(l);
        }
        let (model, legal) = match kind {
            8 => (RP::Subscribe { id, props: props.clone(), topics: topics.clone() }, !topics.is_empty()),
            10 => (
                RP::Unsubscribe { id, props: props.clone(), topics: topics.iter().map(|t| t.0.clone()).collect() },
                !topics.is_empty(),
            ),
            _ => (RP::SubAck { ty: kind, id, props: props.clone(), codes: codes.clone() }, !codes.is_empty()),
        };
        agree(&o.packet(), &model, legal)?;
    }
    Ok(())
}
fn seq_simple(s: &mut Src, kind: u8, n: usize, log: &mut Vec<String>, _rejected: &mut u32) -> Res {
    let mut props: Props = vec![];
    let mut code = match kind {
        14 | 15 => *s.pick(reasons(kind)),
        _ => 0,
    };
    let mut flags = 0;
    let id = gen::u16v(s);
    let mut o = match kind {
        2 => Own::ConnAck(ConnAck::new()),
        4 => Own::PubAck(PubAck::new(id)),
        5 => Own::PubRec(PubRec::new(id)),
        6 => Own::PubRel(PubRel::new(id)),
        7 => Own::PubComp(PubComp::new(id)),
        14 => Own::Disconnect(Disconnect::new(disconnect_code(code))),
        _ => Own::Auth(Auth::new(auth_code(code))),
    };
    for _ in 0..n {
        match s.below(3) {
            0 => {
                let c = *s.pick(reasons(kind));
                match &mut o {
                    Own::ConnAck(b) => b.set_reason_code(connack_code(c)),
                    Own::PubAck(b) => b.set_reason_code(puback_code(c)),
                    Own::PubRec(b) => b.set_reason_code(puback_code(c)),
                    Own::PubRel(b) => b.set_reason_code(pubrel_code(c)),
                    Own::PubComp(b) => b.set_reason_code(pubrel_code(c)),
                    _ => continue,
                }
                code = c;
                log.push(format!("set_reason_code({:#x})", c));
            }
            1 => {
                if let Own::ConnAck(b) = &mut o {
                    b.set_session_present();
                    flags = 1;
                    log.push("set_session_present".into());
                }
            }
            _ => {
                let l = prop_call(s, &mut |k, v| o.add(k, v), &mut props, kind)?;
                log.push(l);
            }
        }
        let model = match kind {
            2 => RP::ConnAck { flags, code, props: props.clone() },
            4..=7 => RP::Ack { ty: kind, id, code, props: props.clone() },
            _ => RP::Disc { ty: kind, code, props: props.clone() },
        };
        agree(&o.packet(), &model, true)?;
    }
    Ok(())
}
/// values refuse what they cannot hold
fn c08_values(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (t, ok) = text(s);
    ctx.desc(|| clip(&t));
    verdict("new_string", MqttPropValue::new_string(arc(&t)).is_ok(), ok)?;
    let (u, ok2) = text(s);
    verdict("new_string_pair", MqttPropValue::new_string_pair(arc(&t), arc(&u)).is_ok(), ok && ok2)?;
    if let Ok(v) = MqttPropValue::new_string_pair(arc(&t), arc(&u)) {
        let p = v.into_str_pair();
        check!(p.map(|(a, b)| (a.as_ref(), b.as_ref())) == Some((&t[..], &u[..])), "pair reads back wrong");
    }
    let b = big_blob(s);
    verdict("new_data", MqttPropValue::new_data(pieces(s, &b)).is_ok(), b.len() <= 65535)?;
    let x = match s.below(3) {
        0 => gen::varv(s),
        1 => *s.pick(&[0x0fff_ffffu32, 0x1000_0000, 0x1000_0001, u32::MAX]),
        _ => s.draw(1 << 32) as u32,
    };
    let r = MqttPropValue::new_varint(x);
    verdict("new_varint", r.is_ok(), x <= 268_435_455)?;
    if let Ok(v) = r {
        check!(v.into_u32() == Some(x), "varint {} reads back as {:?}", x, v.into_u32());
    }
    ctx.nontrivial(format!("{}{}{}{}", t, u, b.len(), x).as_bytes());
    Ok(())
}
pub fn c08() -> Check {
    Check {
        id: "C08",
        rule: "random sequences of 1..14 builder calls, valid and invalid, on every kind of packet (and wills) against a model of the accumulated successful calls; after every call the getters, frame_len, the encoding (read by the independent reader) and the verdict of the call are compared. Non-trivial: at least two calls, distinct by call sequence. A QoS>0 PUBLISH without identifier and empty SUBSCRIBE/UNSUBSCRIBE/SUBACK/UNSUBACK are unfinished: only getters and lengths are compared",
        subs: vec![
            Sub::rand("values", 120_000, 2_400_000, c08_values),
            Sub::rand("seq", 720_000, 24_000_000, c08_seq),
        ],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C09

/// every place where text enters the library; the filter verdict only counts where a filter or topic
/// is expected
fn everywhere(t: &str, wire_ok: bool) -> Res {
    let s_ok = string_ok(t);
    let f_ok = s_ok && filter_ok(t);
    let t_ok = f_ok && topic_ok(t);
    let wild = !topic_ok(t);
    let v = |what: &str, got: bool, want: bool| -> Res {
        if got != want {
            return broken(format!(
                "{} {} {} ({} bytes), expected {}",
                what,
                if got { "accepts" } else { "refuses" },
                clip(t),
                t.len(),
                if want { "acceptance" } else { "refusal" }
            ));
        }
        Ok(())
    };
    let mt = MqttTopic::new(arc(t));
    v("MqttTopic::new", mt.is_ok(), f_ok)?;
    if let Ok(m) = &mt {
        check!(m.inner().as_ref() == t, "topic changed");
        check!(m.is_wildcard() == wild, "is_wildcard({}) = {}", clip(t), m.is_wildcard());
        check!(m.is_system() == t.starts_with('$'), "is_system({}) = {}", clip(t), m.is_system());
        check!(m.clone().unwrap().as_ref() == t, "topic changed");
    }
    v("Publish::new", Publish::new(arc(t), Bytes::new()).is_ok(), t_ok)?;
    let mut sub = Subscribe::new(1);
    v("Subscribe::add_topic", sub.add_topic(arc(t), SubscriptionOptions::empty()).is_ok(), f_ok)?;
    check!(sub.topics_iter().count() == f_ok as usize, "refused filter was kept");
    let mut uns = Unsubscribe::new(1);
    v("Unsubscribe::add_topic", uns.add_topic(arc(t)).is_ok(), f_ok)?;
    check!(uns.topics_iter().count() == f_ok as usize, "refused filter was kept");
    v("MqttPropValue::new_string", MqttPropValue::new_string(arc(t)).is_ok(), s_ok)?;
    v("MqttPropValue::new_string_pair key", MqttPropValue::new_string_pair(arc(t), arc("v")).is_ok(), s_ok)?;
    v("MqttPropValue::new_string_pair value", MqttPropValue::new_string_pair(arc("k"), arc(t)).is_ok(), s_ok)?;
    v("Connect::new", Connect::new(arc(t)).is_ok(), s_ok)?;
    let mut c = Connect::new(arc("c")).map_err(|e| Fail::Broken(format!("{:?}", e)))?;
    v("Connect::set_username", c.set_username(arc(t)).is_ok(), s_ok)?;
    if !wild {
        v("Will::new", Will::new(arc(t), Bytes::new()).is_ok(), s_ok)?;
        let mut w = Will::new(arc("w"), Bytes::new()).map_err(|e| Fail::Broken(format!("{:?}", e)))?;
        v("Will::set_topic", w.set_topic(arc(t)).is_ok(), s_ok)?;
    }
    if t.len() <= 65535 && wire_ok {
        let d = |what: &str, p: &RP, want: bool| -> Res {
            let b = write(p);
            let r = decode(&b).0;
            v(what, r.is_ok(), want)?;
            if let Ok(q) = r {
                same(what, &st(observe(&q))?, p)?;
            }
            Ok(())
        };
        let conn = |id: &str, user: Option<&str>, will: Option<&str>, prop: Option<(u8, &str)>| RP::Connect {
            flags: 2 | if user.is_some() { 0x80 } else { 0 } | if will.is_some() { 4 } else { 0 },
            keep: 1,
            props: prop.map(|(k, v)| vec![(k, Val::Str(v.to_string()))]).unwrap_or_default(),
            id: id.to_string(),
            will: will.map(|w| RWill { props: vec![], topic: w.to_string(), payload: vec![] }),
            user: user.map(|u| u.to_string()),
            pass: None,
        };
        d("received client identifier", &conn(t, None, None, None), s_ok)?;
        d("received user name", &conn("c", Some(t), None, None), s_ok)?;
        if !wild {
            d("received will topic", &conn("c", None, Some(t), None), s_ok)?;
        }
        d("received authentication method", &conn("c", None, None, Some((0x15, t))), s_ok)?;
        d("received user property", &conn("c", None, None, Some((0x26, t))), s_ok)?;
        if !t.is_empty() {
            d(
                "received PUBLISH topic",
                &RP::Publish { flags: 0, topic: t.into(), id: None, props: vec![], payload: vec![] },
                t_ok,
            )?;
            d("received SUBSCRIBE filter", &RP::Subscribe { id: 1, props: vec![], topics: vec![(t.into(), 0)] }, f_ok)?;
            d("received UNSUBSCRIBE filter", &RP::Unsubscribe { id: 1, props: vec![], topics: vec![t.into()] }, f_ok)?;
        }
        for (owner, id) in [(3u8, 0x03u8), (2, 0x12), (2, 0x1a), (2, 0x1c), (14, 0x1f), (4, 0x1f), (9, 0x26), (16, 0x03)] {
            d("received string property", &with_props(owner, vec![(id, Val::Str(t.into()))]), s_ok)?;
        }
        if !wild {
            d("received response topic", &with_props(3, vec![(0x08, Val::Str(t.into()))]), s_ok)?;
        }
    }
    Ok(())
}
const FA: &[u8] = b"a/+#$";
fn c09_filters(_s: &mut Src, ctx: &mut Ctx) -> Res {
    // all strings over {a / + # $} of length 1..=6 whose first two characters are given by the index
    let i = ctx.index as usize;
    let first = [FA[i % 5], FA[i / 5 % 5]];
    let max = 4;
    let mut n = 0;
    everywhere(std::str::from_utf8(&first[..1]).expect("ascii"), true)?;
    for len in 0..=max {
        let total = 5usize.pow(len as u32);
        for k in 0..total {
            let mut t = first.to_vec();
            let mut x = k;
            for _ in 0..len {
                t.push(FA[x % 5]);
                x /= 5;
            }
            everywhere(std::str::from_utf8(&t).expect("ascii"), true)?;
            n += 1;
        }
    }
    ctx.desc(|| format!("{} strings over a/+#$ starting with {}", n, String::from_utf8_lossy(&first)));
    ctx.nontrivial(&first);
    Ok(())
}
fn c09_chars(_s: &mut Src, ctx: &mut Ctx) -> Res {
    // every code point, alone and inside a word
    let from = ctx.index as u32 * 2048;
    for u in from..from + 2048 {
        if let Some(c) = char::from_u32(u) {
            let alone: String = [c].iter().collect();
            let inside: String = ['a', c, 'b'].iter().collect();
            if u < 0x3000 {
                everywhere(&alone, true)?;
                everywhere(&inside, true)?;
            } else {
                let want = string_ok(&inside);
                check!(MqttPropValue::new_string(arc(&alone)).is_ok() == want, "U+{:04X} in a string property", u);
                check!(Publish::new(arc(&inside), Bytes::new()).is_ok() == want, "U+{:04X} in a topic", u);
                let p = RP::Publish {
                    flags: 0,
                    topic: inside.clone(),
                    id: None,
                    props: vec![(0x03, Val::Str(alone.clone()))],
                    payload: vec![],
                };
                let r = decode(&write(&p)).0;
                check!(r.is_ok() == want, "U+{:04X} in a received PUBLISH", u);
                if let Ok(q) = r {
                    same("received PUBLISH", &st(observe(&q))?, &p)?;
                }
            }
        } else {
            // surrogates: only possible on the wire
            let enc = [0xe0 | (u >> 12) as u8, 0x80 | ((u >> 6) & 0x3f) as u8, 0x80 | (u & 0x3f) as u8];
            let mut t = gen::tokens(&with_props(T_PUBLISH, vec![]));
            if let gen::Tok::Str(_, x) = &mut t.toks[0] {
                x.bytes = enc.to_vec();
            }
            check!(decode(&gen::render(&t)).0.is_err(), "surrogate {:04X} accepted", u);
        }
    }
    ctx.desc(|| format!("code points U+{:04X}..U+{:04X}", from, from + 2047));
    ctx.nontrivial(&from.to_be_bytes());
    Ok(())
}
fn c09_random(s: &mut Src, ctx: &mut Ctx) -> Res {
    let (mut t, _) = text(s);
    if s.chance(1, 3) {
        // put a wildcard or a control character somewhere
        let c = *s.pick(&['#', '+', '/', '\u{7}', '\u{7f}', '\u{85}', '$']);
        let at = s.below(t.chars().count() + 1);
        let i = t.char_indices().nth(at).map(|(i, _)| i).unwrap_or(t.len());
        t.insert(i, c);
    }
    ctx.desc(|| clip(&t));
    ctx.class(if !string_ok(&t) {
        "not a string"
    } else if !filter_ok(&t) {
        "not a filter"
    } else if !topic_ok(&t) {
        "filter with wildcards"
    } else {
        "topic"
    });
    ctx.nontrivial(t.as_bytes());
    everywhere(&t, true)
}
fn c09_length(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match ctx.index {
        0..=9 => 65530 + ctx.index as usize,
        _ => *s.pick(&[65534usize, 65535, 65536, 131072, 65537]),
    };
    let c = *s.pick(&['x', 'é', '中', '😀']);
    let mut t = String::new();
    while t.len() + c.len_utf8() <= n {
        t.push(c);
    }
    while t.len() < n {
        t.push('y');
    }
    ctx.desc(|| format!("{} bytes of {}", t.len(), c));
    ctx.class(if n <= 65535 { "fits" } else { "too long" });
    ctx.nontrivial(t.as_bytes());
    everywhere(&t, true)
}
/// wildcards, separators and forbidden characters at the ends and in the middle of long text
fn c09_long(s: &mut Src, ctx: &mut Ctx) -> Res {
    let base = *s.pick(&[62usize, 126, 254, 510, 1022, 4094, 8190, 16382, 32766, 65520]);
    let n = base + s.below(12);
    let unit = *s.pick(&["x", "x/", "é", "+/", "/", "ab/", "中/", "😀"]);
    let mut t = unit.repeat(n / unit.len());
    while t.len() < n {
        t.push('y');
    }
    let k = s.range(1, 3);
    for _ in 0..k {
        let piece = *s.pick(&["+", "#", "+/", "/+", "/#", "#/", "/+/", "a+", "a#", "$", "\u{1}", "\u{9f}", "/"]);
        let at = match s.below(4) {
            0 => 0,
            1 | 2 => t.len(),
            _ => s.below(t.len()),
        };
        let at = (0..=at).rev().find(|i| t.is_char_boundary(*i)).unwrap_or(0);
        t.insert_str(at, piece);
        ctx.class(if at == 0 {
            "at the start"
        } else if at + piece.len() == t.len() {
            "at the end"
        } else {
            "inside"
        });
    }
    ctx.desc(|| clip(&t));
    ctx.class(if filter_ok(&t) { "filter" } else { "not a filter" });
    ctx.nontrivial(t.as_bytes());
    everywhere(&t, true)
}
/// invalid UTF-8 on the wire, everywhere a string is read
fn c09_wire(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    let mut t = gen::tokens(&p);
    let mut n = 0;
    for k in t.toks.iter() {
        match k {
            gen::Tok::Str(_, x) if x.text => n += 1,
            gen::Tok::Props(q) => {
                n += q.items.iter().filter(|i| matches!(&i.val, gen::TVal::Str(x) if x.text)).count()
            }
            _ => {}
        }
    }
    if n == 0 {
        return Ok(());
    }
    let mut at = s.below(n);
    let raw_len = s.below(6) + 1;
    let raw = s.bytes(raw_len);
    let put = |x: &mut gen::TStr| {
        x.bytes.truncate(60_000);
        while std::str::from_utf8(&x.bytes).is_err() {
            x.bytes.pop();
        }
        x.bytes.extend_from_slice(&raw)
    };
    'out: for k in t.toks.iter_mut() {
        match k {
            gen::Tok::Str(name, x) if x.text => {
                if at == 0 {
                    if *name == "protocol name" {
                        return Ok(());
                    }
                    put(x);
                    break 'out;
                }
                at -= 1;
            }
            gen::Tok::Props(q) => {
                for i in q.items.iter_mut() {
                    if let gen::TVal::Str(x) = &mut i.val {
                        if x.text {
                            if at == 0 {
                                put(x);
                                break 'out;
                            }
                            at -= 1;
                        }
                    }
                }
            }
            _ => {}
        }
    }
    let b = gen::render(&t);
    ctx.desc(|| hex(&b));
    judge(&b, ctx)
}
pub fn c09() -> Check {
    Check {
        id: "C09",
        rule: "the same text is offered to every entry point (topic type, builders, property values, client id, user name, will, and every string position of received frames) and all verdicts are compared with the rules: all strings over {a,/,+,#,$} up to length 6, every Unicode code point, all lengths around 65535, random text with wildcards and control characters, and arbitrary bytes in every string position on the wire. Non-trivial: distinct text. Wildcards in will and response topics get no verdict",
        subs: vec![
            Sub::all("filters", 25, c09_filters),
            Sub::all("chars", 544, c09_chars),
            Sub::all("length", 30, c09_length),
            Sub::rand("long", 12_000, 400_000, c09_long),
            Sub::rand("wire", 600_000, 24_000_000, c09_wire),
            Sub::rand("random", 150_000, 4_000_000, c09_random),
        ],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C10

struct Segs {
    segs: VecDeque<Vec<u8>>,
    at: usize,
}
impl Buf for Segs {
    fn remaining(&self) -> usize {
        self.segs.iter().map(|s| s.len()).sum::<usize>() - self.at
    }
    fn chunk(&self) -> &[u8] {
        match self.segs.front() {
            Some(s) => &s[self.at..],
            None => &[],
        }
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let left = match self.segs.front() {
                Some(s) => s.len() - self.at,
                None => panic!("advanced beyond the buffer"),
            };
            if n < left {
                self.at += n;
                return;
            }
            n -= left;
            self.at = 0;
            self.segs.pop_front();
        }
    }
}
fn segs(b: &[u8], cuts: &[usize]) -> Segs {
    let mut out = VecDeque::new();
    let mut last = 0;
    for c in cuts.iter().chain(std::iter::once(&b.len())) {
        if *c > last {
            out.push_back(b[last..*c].to_vec());
            last = *c;
        }
    }
    Segs { segs: out, at: 0 }
}
fn outcome<B: Buf>(mut b: B) -> (Result<Packet, DataParseError>, usize) {
    let n = b.remaining();
    let r = Packet::from_bytes(&mut b);
    (r, n - b.remaining())
}
fn compare(what: &str, base: &(Result<Packet, DataParseError>, usize), got: (Result<Packet, DataParseError>, usize), b: &[u8]) -> Res {
    check!(
        base.1 == got.1,
        "{}: {} bytes consumed instead of {}: {}",
        what,
        got.1,
        base.1,
        hex(b)
    );
    match (&base.0, &got.0) {
        (Ok(x), Ok(y)) => same(what, &st(observe(y))?, &st(observe(x))?),
        (Err(x), Err(y)) => {
            check!(discriminant(x) == discriminant(y), "{}: error {:?} instead of {:?}: {}", what, y, x, hex(b));
            Ok(())
        }
        (Ok(_), Err(e)) => broken(format!("{}: rejected with {:?}, contiguous is accepted: {}", what, e, hex(b))),
        (Err(e), Ok(_)) => broken(format!("{}: accepted, contiguous is rejected with {:?}: {}", what, e, hex(b))),
    }
}
fn layouts(b: &[u8], cuts: &mut Vec<usize>, split: usize) -> Res {
    cuts.sort_unstable();
    let base = outcome(b);
    compare("segmented", &base, outcome(segs(b, cuts)), b)?;
    let split = split.min(b.len());
    compare("chain of two", &base, outcome((&b[..split]).chain(&b[split..])), b)?;
    let m = split / 2;
    compare("chain of three", &base, outcome((&b[..m]).chain(&b[m..split]).chain(Bytes::copy_from_slice(&b[split..]))), b)?;
    compare("Bytes", &base, outcome(Bytes::copy_from_slice(b)), b)?;
    compare("BytesMut", &base, outcome(BytesMut::from(b)), b)?;
    let mut dq: VecDeque<u8> = VecDeque::with_capacity(b.len() + 3);
    // make it wrap around
    for _ in 0..(b.len() / 2) {
        dq.push_back(0);
    }
    for _ in 0..(b.len() / 2) {
        dq.pop_front();
    }
    dq.extend(b.iter().copied());
    compare("VecDeque", &base, outcome(dq), b)?;
    compare("take", &base, outcome(b.take(b.len())), b)?;
    compare("cursor", &base, outcome(std::io::Cursor::new(b.to_vec())), b)?;
    Ok(())
}
fn c10_decode(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut b = match s.weighted(&[5, 4, 1]) {
        0 => {
            let p = gen::packet(s);
            note(ctx, &p);
            ctx.class("legal");
            write(&p)
        }
        1 => wild_frame(s, ctx).0,
        _ => {
            let n = s.below(30);
            s.bytes(n)
        }
    };
    if s.chance(1, 3) {
        let n = s.below(6);
        let x = s.bytes(n);
        b.extend_from_slice(&x);
    }
    let mut cuts = Vec::new();
    match s.below(4) {
        0 => cuts.extend(1..b.len().min(300)), // one byte each
        _ => {
            let n = s.range(1, 6);
            for _ in 0..n {
                cuts.push(s.below(b.len() + 1));
            }
        }
    }
    let split = s.below(b.len() + 1);
    ctx.desc(|| format!("{} cut at {:?}", hex(&b), &cuts[..cuts.len().min(20)]));
    if cuts.iter().any(|c| *c > 0 && *c < b.len()) {
        let mut k = b.clone();
        k.extend(cuts.iter().map(|c| *c as u8));
        ctx.nontrivial(&k);
    }
    layouts(&b, &mut cuts, split)
}
/// every single cut and every pair of cuts of small frames
fn c10_all_cuts(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut p = gen::packet(s);
    for _ in 0..10 {
        if write(&p).len() <= 48 {
            break;
        }
        p = gen::packet(s);
    }
    let b = write(&p);
    if b.len() > 48 {
        return Ok(());
    }
    note(ctx, &p);
    ctx.desc(|| format!("every pair of cuts of {}", hex(&b)));
    let base = outcome(&b[..]);
    for i in 1..b.len() {
        for j in i..b.len() {
            compare("segmented", &base, outcome(segs(&b, &[i, j])), &b)?;
        }
    }
    ctx.nontrivial(&b);
    Ok(())
}
fn c10_encode(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    note(ctx, &p);
    ctx.desc(|| p.show());
    let b = st(made(&p, Some(s), ctx))?;
    let n = b.frame_len();
    let mut base = Vec::new();
    b.to_bytes(&mut base);
    let sorted = |v: &[u8]| {
        let mut h = [0u32; 256];
        for x in v {
            h[*x as usize] += 1;
        }
        h
    };
    let cmp = |what: &str, got: &[u8]| -> Res {
        check!(got.len() == base.len(), "{}: {} bytes instead of {}", what, got.len(), base.len());
        check!(sorted(got) == sorted(&base), "{}: other bytes were written", what);
        match read(got) {
            Read::Good(q, used, _) => {
                check!(used == got.len(), "{}: not one frame", what);
                same(what, &q, &p)
            }
            x => broken(format!("{}: {:?}", what, x)),
        }
    };
    cmp("Vec", &base)?;
    check!(n == base.len(), "frame_len");
    let mut m = BytesMut::with_capacity(s.below(8));
    b.to_bytes(&mut m);
    cmp("growing BytesMut", &m)?;
    // two fixed pieces
    let cut = s.below(n + 1);
    let mut one = vec![0u8; cut];
    let mut two = vec![0u8; n - cut];
    {
        let mut c = (&mut one[..]).chain_mut(&mut two[..]);
        b.to_bytes(&mut c);
        check!(c.remaining_mut() == 0, "two pieces: {} bytes not written", c.remaining_mut());
    }
    one.extend_from_slice(&two);
    cmp("two fixed pieces", &one)?;
    // three pieces, tiny ones at the front
    let c1 = s.below(n.min(4) + 1);
    let c2 = c1 + s.below((n - c1).min(12) + 1);
    let mut a = vec![0u8; c1];
    let mut bb = vec![0u8; c2 - c1];
    let mut c = Vec::new();
    {
        let mut w = (&mut a[..]).chain_mut(&mut bb[..]).chain_mut(&mut c);
        b.to_bytes(&mut w);
    }
    a.extend_from_slice(&bb);
    a.extend_from_slice(&c);
    cmp("three pieces", &a)?;
    let mut l = BytesMut::new().limit(n);
    b.to_bytes(&mut l);
    cmp("limited buffer", l.get_ref())?;
    // appended to what is there
    let mut v = vec![1, 2, 3];
    b.to_bytes(&mut v);
    check!(v[..3] == [1, 2, 3], "existing bytes overwritten");
    cmp("appended", &v[3..])?;
    if n > 2 {
        ctx.nontrivial(&body(&p));
    }
    Ok(())
}
/// values handed to the builders in one or several pieces
fn c10_inputs(s: &mut Src, ctx: &mut Ctx) -> Res {
    let b = gen::blob(s);
    let mut cuts: Vec<usize> = Vec::new();
    for _ in 0..s.range(1, 4) {
        cuts.push(s.below(b.len() + 1));
    }
    cuts.sort_unstable();
    let parts = || segs(&b, &cuts);
    let which = s.below(6);
    let name = ["set_payload", "new_data", "Will::new", "will.set_payload", "set_password", "ring buffer"][which];
    ctx.desc(|| format!("{} with {} bytes cut at {:?}", name, b.len(), cuts));
    let e = |_| Fail::Broken(format!("{} refuses {} bytes", name, b.len()));
    let connect = || Connect::new(arc("c")).map_err(e);
    let got = match which {
        0 => {
            let mut p = Publish::new(arc("t"), Bytes::from_static(b"old")).map_err(e)?;
            p.set_payload(parts());
            check!(p.payload() == b, "{}: payload is {} bytes instead of {}", name, p.payload().len(), b.len());
            p.build()
        }
        1 => {
            let mut p = Publish::new(arc("t"), Bytes::new()).map_err(e)?;
            p.add_prop(Property::CorrelationData, MqttPropValue::new_data(parts()).map_err(e)?).map_err(e)?;
            p.build()
        }
        2 => {
            let mut c = connect()?;
            c.set_will(Will::new(arc("w"), parts()).map_err(e)?);
            c.build()
        }
        3 => {
            let mut c = connect()?;
            let mut w = Will::new(arc("w"), Bytes::new()).map_err(e)?;
            w.set_payload(parts()).map_err(e)?;
            c.set_will(w);
            c.build()
        }
        4 => {
            let mut c = connect()?;
            c.set_password(parts()).map_err(e)?;
            c.build()
        }
        _ => {
            let mut q: VecDeque<u8> = VecDeque::with_capacity(b.len() + 1);
            for _ in 0..s.below(b.len() + 1) {
                q.push_back(0);
                q.pop_front();
            }
            q.extend(b.iter().copied());
            let mut p = Publish::new(arc("t"), Bytes::new()).map_err(e)?;
            p.set_payload(q);
            p.build()
        }
    };
    let will = || Some(RWill { props: vec![], topic: "w".into(), payload: b.clone() });
    let conn = |flags: u8, will: Option<RWill>, pass: Option<Vec<u8>>| RP::Connect {
        flags,
        keep: 0,
        props: vec![],
        id: "c".into(),
        will,
        user: None,
        pass,
    };
    let want = match which {
        0 | 5 => RP::Publish { flags: 0, topic: "t".into(), id: None, props: vec![], payload: b.clone() },
        1 => RP::Publish { flags: 0, topic: "t".into(), id: None, props: vec![(0x09, Val::Bin(b.clone()))], payload: vec![] },
        2 | 3 => conn(4, will(), None),
        _ => conn(0x40, None, Some(b.clone())),
    };
    same(name, &st(observe(&got))?, &want)?;
    let mut out = Vec::new();
    got.to_bytes(&mut out);
    check!(out == write(&want), "{}: encoded as {}", name, hex(&out));
    ctx.class(name);
    if b.len() > 1 {
        ctx.nontrivial(&out);
    }
    Ok(())
}
pub fn c10() -> Check {
    Check {
        id: "C10",
        rule: "legal, disturbed and random byte sequences decoded from one contiguous buffer and from segmented ones (byte by byte, random cuts, every pair of cuts of small frames, chains, ring buffers, Bytes, BytesMut, cursors): same packet or kind of error, same bytes consumed; packets encoded into growing, fixed, chained and limited buffers; binary values handed to the builders in pieces. Non-trivial: at least one cut inside the input, or a packet with a variable header; distinct by content and cuts",
        subs: vec![
            Sub::rand("allcuts", 18_000, 480_000, c10_all_cuts),
            Sub::rand("inputs", 60_000, 2_000_000, c10_inputs),
            Sub::rand("encode", 360_000, 12_000_000, c10_encode),
            Sub::rand("decode", 720_000, 32_000_000, c10_decode),
        ],
        ..codec_check()
    }
}

// ---------------------------------------------------------------------------- C11

/// the shortage reported for these bytes of a frame of `total` bytes
fn shortage(b: &[u8], total: usize) -> Result<Option<usize>, Fail> {
    match decode(b).0 {
        Err(DataParseError::InsufficientBuffer { needed, available }) => {
            check!(
                needed > available,
                "{} of {} bytes: asks for {} bytes with {} there, which leaves a reader nothing to read: {}",
                b.len(),
                total,
                needed,
                available,
                hex(b)
            );
            check!(
                available <= b.len(),
                "{} of {} bytes: {} bytes are said to be available: {}",
                b.len(),
                total,
                available,
                hex(b)
            );
            check!(
                needed - available <= total - b.len(),
                "{} of {} bytes: asks for {} more than the {} there are, a reader would take {} bytes of what follows or wait for ever: {}",
                b.len(),
                total,
                needed - available,
                available,
                needed - available - (total - b.len()),
                hex(b)
            );
            Ok(Some(needed - available))
        }
        _ => Ok(None),
    }
}
/// a reader that has nothing but the reported shortage to go by
fn c11_reader(s: &mut Src, ctx: &mut Ctx) -> Res {
    let mut stream = Vec::new();
    let mut ends = Vec::new();
    for _ in 0..s.range(1, 4) {
        let p = gen::packet(s);
        note(ctx, &p);
        stream.extend(write(&p));
        ends.push(stream.len());
    }
    ctx.desc(|| format!("frames end at {:?}: {}", ends, hex(&stream)));
    size_class(ctx, stream.len());
    let mut at = 0;
    for e in &ends {
        // bytes of this frame read so far
        let mut have = if s.chance(1, 3) { s.below(e - at) } else { 0 };
        let mut reads = 0;
        while have < e - at {
            match shortage(&stream[at..at + have], e - at)? {
                Some(n) => have += n,
                None => return broken(format!("{} of {} bytes are not answered with a shortage: {}", have, e - at, hex(&stream[at..*e]))),
            }
            reads += 1;
        }
        check!(reads <= e - at, "more reads than bytes");
        match decode(&stream[at..at + have]) {
            (Ok(_), n) => check!(n == have, "{} bytes read, {} used", have, n),
            (Err(x), _) => return broken(format!("the frame a reader has read gives {:?}: {}", x, hex(&stream[at..*e]))),
        }
        at = *e;
    }
    ctx.nontrivial(&stream);
    Ok(())
}
/// every place to stop
fn c11_prefix(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    let b = write(&p);
    ctx.desc(|| format!("prefixes of {}", hex(&b)));
    let n = b.len();
    for c in (0..n.min(100)).chain(n.saturating_sub(40).max(100)..n) {
        if shortage(&b[..c], n)?.is_none() {
            return broken(format!("{} of {} bytes are not answered with a shortage: {}", c, n, hex(&b)));
        }
    }
    if n > 2 {
        ctx.nontrivial(&b);
    }
    Ok(())
}
/// frames whose content is not legal: whatever is asked for is within the frame
fn c11_damaged(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    let mut t = gen::tokens(&p);
    for _ in 0..s.range(1, 2) {
        let what = gen::disturb(s, &mut t);
        ctx.class(what);
    }
    let b = gen::render(&t);
    ctx.desc(|| hex(&b));
    if let Some(Ok(total)) = header(&b) {
        let mut any = false;
        for c in (0..b.len().min(total).min(80)).chain(b.len().min(total).saturating_sub(20).max(80)..b.len().min(total)) {
            any |= shortage(&b[..c], total)?.is_some();
        }
        if any {
            ctx.nontrivial(&b);
        }
    }
    Ok(())
}
/// headers of frames of every length
fn c11_header(s: &mut Src, ctx: &mut Ctx) -> Res {
    let ty = *s.pick(gen::KINDS);
    let flags = if ty == T_PUBLISH { *s.pick(&[0u8, 1, 2, 3, 4, 5, 8, 9, 11, 13]) } else { fixed_flags(ty) };
    let len = match s.below(3) {
        0 => *s.pick(&[1u32, 2, 127, 128, 16383, 16384, 2_097_151, 2_097_152, 268_435_454, 268_435_455]),
        1 => 1 << s.below(28),
        _ => s.range(1, 268_435_455) as u32,
    };
    let mut b = vec![(ty << 4) | flags];
    put_var(&mut b, len);
    let total = b.len() + len as usize;
    let more = s.below((len as usize).min(64));
    let rest = s.bytes(more);
    b.extend_from_slice(&rest);
    ctx.desc(|| format!("{} of {} bytes: {}", b.len(), total, hex(&b)));
    ctx.nontrivial(&b);
    for c in 0..=b.len() {
        if shortage(&b[..c], total)?.is_none() {
            return broken(format!("{} of {} bytes are not answered with a shortage: {}", c, total, hex(&b)));
        }
    }
    Ok(())
}
pub fn c11() -> Check {
    Check {
        id: "C11",
        rule: "a proper prefix of a frame was answered with a shortage, which was held against the bytes that are missing, or a reader followed the shortages to the end of a frame; distinct by bytes",
        subs: vec![
            Sub::rand("reader", 300_000, 8_000_000, c11_reader),
            Sub::rand("prefix", 200_000, 6_000_000, c11_prefix),
            Sub::rand("damaged", 300_000, 8_000_000, c11_damaged),
            Sub::rand("header", 100_000, 3_000_000, c11_header),
        ],
        ..codec_check()
    }
}

// ---------------------------------------------------------------- C12

/// what decoding may need for an input of `n` bytes at any time
fn allowance(n: usize) -> usize {
    8192 + 200 * n
}
fn frugal(b: &[u8]) -> Res {
    let (r, peak) = crate::alloc::peak(|| decode(b));
    check!(
        peak <= allowance(b.len()),
        "decoding {} bytes ({}) allocates {} bytes: {}",
        b.len(),
        match &r.0 {
            Ok(_) => "a packet".to_string(),
            Err(e) => format!("{:?}", e),
        },
        peak,
        hex(b)
    );
    Ok(())
}
fn c12_legal(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    note(ctx, &p);
    let b = write(&p);
    size_class(ctx, b.len());
    ctx.desc(|| hex(&b));
    ctx.nontrivial(&b);
    frugal(&b)?;
    for _ in 0..4 {
        frugal(&b[..s.below(b.len())])?;
    }
    Ok(())
}
/// as many elements as fit
fn c12_many(s: &mut Src, ctx: &mut Ctx) -> Res {
    let n = match s.below(3) {
        0 => s.below(40),
        1 => s.below(2000),
        _ => s.below(30_000),
    };
    let props: Props = if s.chance(1, 2) {
        let k = s.below(n + 1);
        (0..k).map(|_| (0x26, Val::Str("".into()))).collect()
    } else {
        vec![]
    };
    let text = s.pick(&["", "a", "abc"]).to_string();
    let f = if text.is_empty() { "b".to_string() } else { text.clone() };
    let p = match s.below(5) {
        0 => RP::Subscribe { id: 1, props, topics: (0..n + 1).map(|_| (f.clone(), 0x20)).collect() },
        1 => RP::Unsubscribe { id: 1, props, topics: (0..n + 1).map(|_| f.clone()).collect() },
        2 => RP::SubAck { ty: T_SUBACK, id: 1, props, codes: vec![0; n + 1] },
        3 => RP::SubAck { ty: T_UNSUBACK, id: 1, props, codes: vec![0; n + 1] },
        _ => RP::Publish { flags: 0, topic: f, id: None, props, payload: vec![0; n] },
    };
    note(ctx, &p);
    let mut b = write(&p);
    size_class(ctx, b.len());
    ctx.desc(|| hex(&b));
    ctx.nontrivial(&b);
    frugal(&b)?;
    // less than announced, wrong at the end
    frugal(&b[..s.below(b.len())])?;
    let at = b.len() - 1 - s.below(b.len().min(8));
    b[at] ^= 1 << s.below(8);
    frugal(&b)
}
/// lengths that nothing stands behind
fn c12_announced(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    let mut b = write(&p);
    if b.len() > 3000 {
        b.truncate(3000);
    }
    // the frame or something in it gets another length
    let n = s.range(1, 3);
    for _ in 0..n {
        let at = s.below(b.len());
        match s.below(5) {
            0 => {
                // of the frame
                let mut h = vec![b[0]];
                put_var(&mut h, *s.pick(&[200, 16_384, 65_536, 2_097_152, 50_000_000, 268_435_455]));
                let (_, used) = var_at(&b[1..]);
                b.splice(..1 + used, h);
            }
            1 => {
                let x = *s.pick(&[0xffffu16, 0x7fff, 0x8000, 0x2000, 0x0100]);
                b.splice(at..(at + 2).min(b.len()), x.to_be_bytes());
            }
            2 => {
                // a length of variable size
                let mut v = Vec::new();
                put_var(&mut v, *s.pick(&[127, 16_383, 2_097_151, 268_435_455]));
                b.splice(at..(at + 1).min(b.len()), v);
            }
            3 => b.truncate(at.max(1)),
            _ => gen::mangle(s, &mut b),
        }
        if b.is_empty() {
            b.push(0x10);
        }
    }
    ctx.desc(|| hex(&b));
    ctx.nontrivial(&b);
    frugal(&b)
}
fn var_at(b: &[u8]) -> (u32, usize) {
    let (mut v, mut k) = (0u32, 0);
    while k < 4 && k < b.len() {
        v |= ((b[k] & 0x7f) as u32) << (7 * k);
        k += 1;
        if b[k - 1] & 0x80 == 0 {
            break;
        }
    }
    (v, k)
}
fn c12_damaged(s: &mut Src, ctx: &mut Ctx) -> Res {
    let p = gen::packet(s);
    let mut t = gen::tokens(&p);
    for _ in 0..s.range(1, 3) {
        let what = gen::disturb(s, &mut t);
        ctx.class(what);
    }
    let b = gen::render(&t);
    ctx.desc(|| hex(&b));
    ctx.nontrivial(&b);
    frugal(&b)
}
pub fn c12() -> Check {
    Check {
        id: "C12",
        rule: "an input was decoded and the memory it took at any time held against its length; distinct by bytes",
        subs: vec![
            Sub::rand("legal", 100_000, 3_000_000, c12_legal),
            Sub::rand("many", 3_000, 100_000, c12_many),
            Sub::rand("announced", 300_000, 9_000_000, c12_announced),
            Sub::rand("damaged", 200_000, 6_000_000, c12_damaged),
        ],
        ..codec_check()
    }
}
