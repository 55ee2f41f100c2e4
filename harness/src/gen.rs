//! Generators of packets, strings, topics and (il)legal frames.
use crate::engine::Src;
use crate::refcodec::*;

const CHARS: &[char] = &[
    'a', 'b', 'c', '/', 'A', '0', ' ', '~', '$', '-', '\u{a0}', 'é', 'ß', 'Ω', 'ж', '\u{7ff}', '\u{800}',
    '中', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}', '𝄞', '😀', '\u{10000}', '\u{10ffff}',
];

pub fn string_len(s: &mut Src) -> usize {
    match s.weighted(&[30, 40, 12, 4, 2, 1]) {
        0 => s.below(4),
        1 => s.below(16),
        2 => s.range(16, 80) as usize,
        3 => s.range(120, 136) as usize,
        4 => s.range(250, 260) as usize,
        _ => match s.below(3) {
            0 => s.range(16370, 16390) as usize,
            1 => s.range(65500, 65535) as usize,
            _ => 65535,
        },
    }
}

/// a valid string (no control characters) of at most `max` bytes
pub fn string_max(s: &mut Src, max: usize) -> String {
    let len = string_len(s).min(max);
    string_of(s, len, CHARS)
}
pub fn string(s: &mut Src) -> String {
    string_max(s, 65535)
}
pub fn short_string(s: &mut Src) -> String {
    string_max(s, 40)
}
fn string_of(s: &mut Src, len: usize, alphabet: &[char]) -> String {
    let mut out = String::new();
    if len > 64 {
        // few choices for long strings
        let a = *s.pick(alphabet);
        let b = *s.pick(alphabet);
        while out.len() + a.len_utf8() + b.len_utf8() <= len {
            out.push(a);
            out.push(b);
        }
        while out.len() < len {
            out.push('x');
        }
        return out;
    }
    let ascii = s.draw(3) != 2;
    while out.len() < len {
        let c = if ascii { (b'a' + s.draw(26) as u8) as char } else { *s.pick(alphabet) };
        if out.len() + c.len_utf8() > len {
            out.push('x');
        } else {
            out.push(c);
        }
    }
    out
}

/// a topic name: no wildcards
pub fn topic(s: &mut Src) -> String {
    if s.chance(1, 8) {
        return string(s);
    }
    let n = s.range(1, 5);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(level(s));
    }
    v.join("/")
}
fn level(s: &mut Src) -> String {
    match s.weighted(&[10, 2, 1, 1]) {
        0 => (*s.pick(&["a", "b", "sport", "x1", "A"])).to_string(),
        1 => String::new(),
        2 => "$SYS".into(),
        _ => string_max(s, 12).replace('/', "_"),
    }
}
/// a valid topic filter
pub fn filter(s: &mut Src) -> String {
    if s.chance(1, 10) {
        let t = string(s);
        // "text", "+/text", "text/#", "+/text/#"
        let head = if s.chance(1, 4) { "+/" } else { "" };
        let tail = if s.chance(1, 4) { "/#" } else { "" };
        return if t.len() + 4 <= 65535 { format!("{}{}{}", head, t, tail) } else { t };
    }
    let n = s.range(1, 5);
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n {
        if s.chance(1, 4) {
            v.push("+".into());
        } else {
            v.push(level(s));
        }
    }
    if s.chance(1, 4) {
        let last = v.len() - 1;
        v[last] = "#".into();
    }
    v.join("/")
}

pub fn u16v(s: &mut Src) -> u16 {
    match s.weighted(&[4, 3, 3]) {
        0 => s.draw(4) as u16,
        1 => *s.pick(&[0u16, 1, 127, 128, 255, 256, 32767, 32768, 65534, 65535]),
        _ => s.draw(65536) as u16,
    }
}
pub fn u32v(s: &mut Src) -> u32 {
    match s.weighted(&[4, 3, 3]) {
        0 => s.draw(4) as u32,
        1 => *s.pick(&[0u32, 1, 127, 128, 16383, 16384, 65535, 65536, 0x7fff_ffff, 0x8000_0000, u32::MAX]),
        _ => s.draw(1 << 32) as u32,
    }
}
pub fn varv(s: &mut Src) -> u32 {
    match s.weighted(&[3, 5, 2]) {
        0 => s.draw(4) as u32,
        1 => *s.pick(&[
            0u32, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 2097151, 2097152, 2097153, 268435454, 268435455,
        ]),
        _ => s.draw(1 << 28) as u32,
    }
}
pub fn blob(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[30, 40, 8, 2, 1]) {
        0 => s.below(3),
        1 => s.below(20),
        2 => s.range(20, 200) as usize,
        3 => s.range(16370, 16390) as usize,
        _ => s.range(65520, 65535) as usize,
    };
    s.bytes(n)
}
pub fn payload(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[30, 40, 20, 4, 1]) {
        0 => {
            let n = s.below(3);
            s.bytes(n)
        }
        1 => {
            let n = s.below(40);
            s.bytes(n)
        }
        2 => {
            let n = s.range(90, 140) as usize;
            s.bytes(n)
        }
        3 => {
            let n = s.range(16340, 16400) as usize;
            s.bytes(n)
        }
        _ => {
            let n = s.range(65400, 70000) as usize;
            s.bytes(n)
        }
    }
}

pub fn prop_val(s: &mut Src, id: u8) -> Val {
    let ty = prop_info(id as u32).expect("table").1;
    if BOOL_PROPS.contains(&id) {
        return Val::Byte(s.draw(2) as u8);
    }
    match ty {
        Ty::Byte => Val::Byte(if s.chance(1, 6) { s.draw(256) as u8 } else { s.draw(2) as u8 }),
        Ty::U16 => Val::U16(u16v(s)),
        Ty::U32 => Val::U32(u32v(s)),
        Ty::Var => Val::Var(varv(s)),
        Ty::Str => Val::Str(if s.chance(1, 12) { string(s) } else { short_string(s) }),
        Ty::Bin => Val::Bin(blob(s)),
    }
}
pub fn allowed(owner: u8) -> Vec<u8> {
    PROPS.iter().filter(|p| p.2.contains(&owner)).map(|p| p.0).collect()
}
/// legal properties of that packet, in a random order
pub fn props(s: &mut Src, owner: u8) -> Props {
    let ok = allowed(owner);
    if ok.is_empty() {
        return Vec::new();
    }
    let mut out: Props = Vec::new();
    match s.weighted(&[3, 5, 2]) {
        0 => {}
        1 => {
            let n = s.range(1, 4);
            for _ in 0..n {
                let id = *s.pick(&ok);
                if id == 0x26 || !out.iter().any(|(k, _)| *k == id) {
                    let v = prop_val(s, id);
                    out.push((id, v));
                }
            }
        }
        _ => {
            // nearly everything
            for id in &ok {
                if s.chance(7, 8) {
                    let n = if *id == 0x26 { s.range(1, 5) } else { 1 };
                    for _ in 0..n {
                        let v = prop_val(s, *id);
                        out.push((*id, v));
                    }
                }
            }
            // shuffle
            for i in (1..out.len()).rev() {
                let j = s.below(i + 1);
                out.swap(i, j);
            }
        }
    }
    if ok.contains(&0x26) && s.chance(1, 3) {
        if let Some(n) = huge(s) {
            let at = s.below(out.len() + 1);
            let text = short_string(s);
            let n = n.min((1 << 19) / (text.len() + 8));
            out.splice(at..at, (0..n).map(|k| (0x26, Val::Str(format!("{}{}", text, k % 1000)))));
        }
    }
    out
}

pub const KINDS: &[u8] = &[
    T_PUBLISH, T_CONNECT, T_CONNACK, T_SUBSCRIBE, T_SUBACK, T_UNSUBSCRIBE, T_UNSUBACK, T_PUBACK, T_PUBREC,
    T_PUBREL, T_PUBCOMP, T_DISCONNECT, T_AUTH, T_PINGREQ, T_PINGRESP,
];

pub fn packet(s: &mut Src) -> RP {
    let k = s.weighted(&[18, 18, 10, 10, 6, 6, 6, 5, 5, 5, 5, 6, 6, 1, 1]);
    packet_of(s, KINDS[k])
}

pub fn packet_of(s: &mut Src, ty: u8) -> RP {
    match ty {
        T_CONNECT => {
            let mut flags = 0u8;
            if s.chance(1, 2) {
                flags |= 2;
            }
            let keep = u16v(s);
            let id = if s.chance(1, 6) { string(s) } else { short_string(s) };
            let pr = props(s, T_CONNECT);
            let will = if s.chance(1, 2) {
                flags |= 4;
                flags |= (s.draw(3) as u8) << 3;
                if s.chance(1, 2) {
                    flags |= 0x20;
                }
                let props = props(s, T_WILL);
                let t = if s.chance(1, 8) { string(s) } else { topic(s) };
                Some(RWill { props, topic: t, payload: blob(s) })
            } else {
                None
            };
            let user = if s.chance(1, 2) {
                flags |= 0x80;
                Some(if s.chance(1, 8) { string(s) } else { short_string(s) })
            } else {
                None
            };
            let pass = if s.chance(1, 2) {
                flags |= 0x40;
                Some(blob(s))
            } else {
                None
            };
            RP::Connect { flags, keep, props: pr, id, will, user, pass }
        }
        T_CONNACK => RP::ConnAck {
            flags: s.draw(2) as u8,
            code: *s.pick(R_CONNACK),
            props: props(s, T_CONNACK),
        },
        T_PUBLISH => {
            let qos = s.draw(3) as u8;
            let mut flags = qos << 1;
            if s.chance(1, 3) {
                flags |= 1;
            }
            if s.chance(1, 3) {
                flags |= 8;
            }
            let topic = topic(s);
            let id = if qos > 0 { Some(u16v(s)) } else { None };
            let props = props(s, T_PUBLISH);
            RP::Publish { flags, topic, id, props, payload: payload(s) }
        }
        T_PUBACK | T_PUBREC | T_PUBREL | T_PUBCOMP => {
            RP::Ack { ty, id: u16v(s), code: *s.pick(reasons(ty)), props: props(s, ty) }
        }
        T_SUBSCRIBE => {
            let id = u16v(s);
            let props = props(s, ty);
            let n = many(s);
            let mut topics = Vec::new();
            for _ in 0..n {
                let f = filter(s);
                let o = (s.draw(3) as u8) | ((s.draw(4) as u8) << 2) | ((s.draw(3) as u8) << 4);
                topics.push((f, o));
            }
            if let Some(n) = huge(s) {
                topics = repeat(topics, n);
            }
            RP::Subscribe { id, props, topics }
        }
        T_SUBACK | T_UNSUBACK => {
            let id = u16v(s);
            let props = props(s, ty);
            let n = if s.chance(1, 10) { s.range(100, 140) } else { many(s) };
            let mut codes: Vec<u8> = (0..n).map(|_| *s.pick(reasons(ty))).collect();
            if let Some(n) = huge(s) {
                codes = codes.into_iter().cycle().take(n).collect();
            }
            RP::SubAck { ty, id, props, codes }
        }
        T_UNSUBSCRIBE => {
            let id = u16v(s);
            let props = props(s, ty);
            let n = many(s);
            let mut topics: Vec<String> = (0..n).map(|_| filter(s)).collect();
            if let Some(n) = huge(s) {
                topics = repeat(topics, n);
            }
            RP::Unsubscribe { id, props, topics }
        }
        T_PINGREQ | T_PINGRESP => RP::Ping { ty },
        _ => RP::Disc { ty, code: *s.pick(reasons(ty)), props: props(s, ty) },
    }
}
/// now and then: a number at and beyond the limits something smaller than the format could have
fn huge(s: &mut Src) -> Option<usize> {
    if !s.chance(1, 500) {
        return None;
    }
    Some(match s.below(6) {
        0 => s.range(250, 260),
        1 => s.range(1020, 1030),
        2 => s.range(4090, 4100),
        3 => s.range(16370, 16390),
        4 => s.range(300, 20_000),
        _ => s.range(65_530, 65_540),
    } as usize)
}
/// so many, the given ones again and again, with no more than a megabyte of them
fn repeat<T: Clone + Bulk>(of: Vec<T>, n: usize) -> Vec<T>
{
    let one: usize = of.iter().map(|x| x.size()).sum::<usize>().max(1);
    let n = n.min((1 << 20) * of.len() / one).max(1);
    of.into_iter().cycle().take(n).collect()
}
trait Bulk {
    fn size(&self) -> usize;
}
impl Bulk for String {
    fn size(&self) -> usize {
        self.len() + 2
    }
}
impl Bulk for (String, u8) {
    fn size(&self) -> usize {
        self.0.len() + 3
    }
}
fn many(s: &mut Src) -> u64 {
    match s.weighted(&[4, 4, 1]) {
        0 => 1,
        1 => s.range(1, 5),
        _ => s.range(5, 20),
    }
}

// ------------------------------------------------------------------ frames from tokens

/// a length-prefixed field whose announced length may be wrong
#[derive(Clone, Debug)]
pub struct TStr {
    pub bytes: Vec<u8>,
    pub delta: i32,
    pub text: bool,
}
#[derive(Clone, Debug)]
pub struct TProp {
    pub id: u32,
    pub id_pad: usize,
    pub val: TVal,
}
#[derive(Clone, Debug)]
pub enum TVal {
    Raw(Vec<u8>),
    Var(u32, usize),
    Str(TStr),
}
#[derive(Clone, Debug)]
pub struct TProps {
    pub owner: u8,
    pub items: Vec<TProp>,
    pub delta: i32,
    pub pad: usize,
}
#[derive(Clone, Debug)]
pub enum Tok {
    U8(&'static str, u8),
    U16(u16),
    Str(&'static str, TStr),
    Props(TProps),
    Raw(Vec<u8>),
}
#[derive(Clone, Debug)]
pub struct Toks {
    pub b1: u8,
    pub toks: Vec<Tok>,
    pub len_delta: i64,
    pub len_pad: usize,
    pub trailing: Vec<u8>,
}

fn tstr(b: &[u8]) -> TStr {
    TStr { bytes: b.to_vec(), delta: 0, text: true }
}
fn tbin(b: &[u8]) -> TStr {
    TStr { bytes: b.to_vec(), delta: 0, text: false }
}
pub fn tprop(id: u8, v: &Val) -> TProp {
    let val = match v {
        Val::Byte(b) => TVal::Raw(vec![*b]),
        Val::U16(x) => TVal::Raw(x.to_be_bytes().to_vec()),
        Val::U32(x) => TVal::Raw(x.to_be_bytes().to_vec()),
        Val::Var(x) => TVal::Var(*x, 0),
        Val::Str(s) => TVal::Str(tstr(s.as_bytes())),
        Val::Bin(b) => TVal::Str(tbin(b)),
    };
    TProp { id: id as u32, id_pad: 0, val }
}
fn tprops(owner: u8, p: &Props) -> Tok {
    Tok::Props(TProps {
        owner,
        items: p.iter().map(|(i, v)| tprop(*i, v)).collect(),
        delta: 0,
        pad: 0,
    })
}

pub fn tokens(p: &RP) -> Toks {
    let mut t = Vec::new();
    match p {
        RP::Connect { flags, keep, props, id, will, user, pass } => {
            t.push(Tok::Str("protocol name", tstr(b"MQTT")));
            t.push(Tok::U8("version", 5));
            t.push(Tok::U8("connect flags", *flags));
            t.push(Tok::U16(*keep));
            t.push(tprops(T_CONNECT, props));
            t.push(Tok::Str("client id", tstr(id.as_bytes())));
            if let Some(w) = will {
                t.push(tprops(T_WILL, &w.props));
                t.push(Tok::Str("will topic", tstr(w.topic.as_bytes())));
                t.push(Tok::Str("will payload", tbin(&w.payload)));
            }
            if let Some(u) = user {
                t.push(Tok::Str("user name", tstr(u.as_bytes())));
            }
            if let Some(p) = pass {
                t.push(Tok::Str("password", tbin(p)));
            }
        }
        RP::ConnAck { flags, code, props } => {
            t.push(Tok::U8("connack flags", *flags));
            t.push(Tok::U8("reason", *code));
            t.push(tprops(T_CONNACK, props));
        }
        RP::Publish { topic, id, props, payload, .. } => {
            t.push(Tok::Str("topic", tstr(topic.as_bytes())));
            if let Some(i) = id {
                t.push(Tok::U16(*i));
            }
            t.push(tprops(T_PUBLISH, props));
            t.push(Tok::Raw(payload.clone()));
        }
        RP::Ack { ty, id, code, props } => {
            t.push(Tok::U16(*id));
            t.push(Tok::U8("reason", *code));
            t.push(tprops(*ty, props));
        }
        RP::Subscribe { id, props, topics } => {
            t.push(Tok::U16(*id));
            t.push(tprops(T_SUBSCRIBE, props));
            for (f, o) in topics {
                t.push(Tok::Str("filter", tstr(f.as_bytes())));
                t.push(Tok::U8("options", *o));
            }
        }
        RP::SubAck { ty, id, props, codes } => {
            t.push(Tok::U16(*id));
            t.push(tprops(*ty, props));
            for c in codes {
                t.push(Tok::U8("reason", *c));
            }
        }
        RP::Unsubscribe { id, props, topics } => {
            t.push(Tok::U16(*id));
            t.push(tprops(T_UNSUBSCRIBE, props));
            for f in topics {
                t.push(Tok::Str("filter", tstr(f.as_bytes())));
            }
        }
        RP::Ping { .. } => {}
        RP::Disc { ty, code, props } => {
            t.push(Tok::U8("reason", *code));
            t.push(tprops(*ty, props));
        }
    }
    Toks { b1: byte1(p), toks: t, len_delta: 0, len_pad: 0, trailing: Vec::new() }
}

/// variable byte integer with `pad` superfluous continuation bytes
pub fn put_var_pad(out: &mut Vec<u8>, x: u32, pad: usize) {
    let at = out.len();
    put_var(out, x & 0x0fff_ffff);
    if x > 0x0fff_ffff {
        // does not fit: make it five bytes long
        let last = out.len() - 1;
        out[last] |= 0x80;
        out.push((x >> 28) as u8);
    }
    for _ in 0..pad {
        let last = out.len() - 1;
        out[last] |= 0x80;
        out.push(0);
    }
    debug_assert!(out.len() > at);
}
fn put_tstr(out: &mut Vec<u8>, t: &TStr) {
    let n = (t.bytes.len() as i64 + t.delta as i64).clamp(0, 65535) as u16;
    out.extend_from_slice(&n.to_be_bytes());
    out.extend_from_slice(&t.bytes);
}
pub fn render_body(t: &Toks) -> Vec<u8> {
    let mut out = Vec::new();
    for k in &t.toks {
        match k {
            Tok::U8(_, b) => out.push(*b),
            Tok::U16(x) => out.extend_from_slice(&x.to_be_bytes()),
            Tok::Str(_, s) => put_tstr(&mut out, s),
            Tok::Raw(r) => out.extend_from_slice(r),
            Tok::Props(p) => {
                let mut b = Vec::new();
                for i in &p.items {
                    put_var_pad(&mut b, i.id, i.id_pad);
                    match &i.val {
                        TVal::Raw(r) => b.extend_from_slice(r),
                        TVal::Var(x, pad) => put_var_pad(&mut b, *x, *pad),
                        TVal::Str(s) => put_tstr(&mut b, s),
                    }
                }
                let n = (b.len() as i64 + p.delta as i64).max(0) as u32;
                put_var_pad(&mut out, n, p.pad);
                out.extend_from_slice(&b);
            }
        }
    }
    out
}
pub fn render(t: &Toks) -> Vec<u8> {
    let mut body = render_body(t);
    body.extend_from_slice(&t.trailing);
    let mut out = vec![t.b1];
    let n = (body.len() as i64 + t.len_delta).clamp(0, 0x0fff_ffff) as u32;
    put_var_pad(&mut out, n, t.len_pad);
    out.extend_from_slice(&body);
    out
}

const BAD_TEXT: &[&[u8]] = &[
    &[0x00], &[0x01], &[0x09], &[0x0a], &[0x1f], &[0x7f], &[0xc2, 0x80], &[0xc2, 0x9f], // controls
    &[0x80], &[0xff], &[0xfe], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80],
    &[0xed, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x80, 0x80, 0x80], &[0xe2, 0x82], &[0xc3],
    &[0xf5, 0x80, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80],
];
const GOOD_EDGE: &[&[u8]] = &[&[0xc2, 0xa0], &[0x20], &[0x7e], &[0xed, 0x9f, 0xbf], &[0xee, 0x80, 0x80], &[0xef, 0xbb, 0xbf], &[0xf4, 0x8f, 0xbf, 0xbf], &[0xef, 0xbf, 0xbf]];

/// Changes something in the frame. Whether the result is legal is for the reader to say.
/// Returns the name of what was done.
pub fn disturb(s: &mut Src, t: &mut Toks) -> &'static str {
    let props_at: Vec<usize> =
        t.toks.iter().enumerate().filter(|(_, k)| matches!(k, Tok::Props(_))).map(|(i, _)| i).collect();
    let strs_at: Vec<usize> =
        t.toks.iter().enumerate().filter(|(_, k)| matches!(k, Tok::Str(..))).map(|(i, _)| i).collect();
    let u8s_at: Vec<usize> =
        t.toks.iter().enumerate().filter(|(_, k)| matches!(k, Tok::U8(..))).map(|(i, _)| i).collect();
    for _ in 0..20 {
        match s.below(24) {
            0 => {
                t.b1 = (t.b1 & 0xf0) | s.draw(16) as u8;
                return "header flags";
            }
            1 => {
                t.b1 = s.draw(256) as u8;
                return "first byte";
            }
            2 => {
                t.len_delta = *s.pick(&[1i64, -1, 2, -2, 5, -5]);
                return "remaining length off";
            }
            3 => {
                t.len_pad = s.range(1, 3) as usize;
                return "padded remaining length";
            }
            4 => {
                let n = s.range(1, 4) as usize;
                t.trailing = s.bytes(n);
                return "trailing bytes";
            }
            5 if !props_at.is_empty() => {
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    p.delta = *s.pick(&[1i32, -1, 2, -2, 3, -3, 100]);
                }
                return "property length off";
            }
            6 if !props_at.is_empty() => {
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    p.pad = s.range(1, 3) as usize;
                }
                return "padded property length";
            }
            7 if !props_at.is_empty() => {
                // any property at all
                let at = *s.pick(&props_at);
                let id = PROPS[s.below(PROPS.len())].0;
                let v = prop_val(s, id);
                if let Tok::Props(p) = &mut t.toks[at] {
                    p.items.push(tprop(id, &v));
                }
                return "extra property";
            }
            8 if !props_at.is_empty() => {
                // repeat one of its own
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    if p.items.is_empty() {
                        let ok = allowed(p.owner);
                        if ok.is_empty() {
                            continue;
                        }
                        let id = *s.pick(&ok);
                        let v = prop_val(s, id);
                        p.items.push(tprop(id, &v));
                    }
                    let i = s.below(p.items.len());
                    let mut again = p.items[i].clone();
                    if s.chance(1, 2) {
                        if let Some(info) = prop_info(again.id) {
                            let v = prop_val(s, info.0);
                            again = tprop(info.0, &v);
                        }
                    }
                    let j = s.below(p.items.len() + 1);
                    p.items.insert(j, again);
                }
                return "repeated property";
            }
            9 if !props_at.is_empty() => {
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    let raw = s.bytes(2);
                    p.items.push(TProp { id: s.draw(300) as u32, id_pad: 0, val: TVal::Raw(raw) });
                }
                return "unknown property";
            }
            10 if !props_at.is_empty() => {
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    if p.items.is_empty() {
                        continue;
                    }
                    let i = s.below(p.items.len());
                    let pad = s.range(1, 3) as usize;
                    match &mut p.items[i].val {
                        TVal::Var(_, p) if s.chance(1, 2) => *p = pad,
                        _ => p.items[i].id_pad = pad,
                    }
                }
                return "padded integer inside properties";
            }
            11 if !props_at.is_empty() => {
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    let n = p.items.len();
                    let mut done = false;
                    for i in 0..n {
                        if let TVal::Str(x) = &mut p.items[i].val {
                            x.delta = *s.pick(&[1i32, -1, 2, 40]);
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        continue;
                    }
                }
                return "string length in properties off";
            }
            12 if !props_at.is_empty() => {
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    let mut done = false;
                    for i in p.items.iter_mut() {
                        if let TVal::Str(x) = &mut i.val {
                            spoil(s, x);
                            done = true;
                            break;
                        }
                    }
                    if !done {
                        continue;
                    }
                }
                return "text in properties";
            }
            13 | 14 if !strs_at.is_empty() => {
                let at = *s.pick(&strs_at);
                if let Tok::Str(_, x) = &mut t.toks[at] {
                    spoil(s, x);
                }
                return "text";
            }
            15 if !strs_at.is_empty() => {
                let at = *s.pick(&strs_at);
                if let Tok::Str(_, x) = &mut t.toks[at] {
                    x.delta = *s.pick(&[1i32, -1, 2, -2, 256]);
                }
                return "string length off";
            }
            16 | 17 if !strs_at.is_empty() => {
                let at = *s.pick(&strs_at);
                if let Tok::Str(_, x) = &mut t.toks[at] {
                    let wild: &[&[u8]] =
                        &[b"#", b"+", b"/#", b"/+", b"#/", b"+/", b"/+/", b"+a", b"a#", b"/", b"a/#", b"a/+"];
                    let w = *s.pick(wild);
                    let i = boundary(&x.bytes, s.below(x.bytes.len() + 1));
                    let mut b = x.bytes[..i].to_vec();
                    b.extend_from_slice(w);
                    b.extend_from_slice(&x.bytes[i..]);
                    if b.len() <= 65535 {
                        x.bytes = b;
                    }
                }
                return "wildcard";
            }
            18 | 19 if !u8s_at.is_empty() => {
                let at = *s.pick(&u8s_at);
                if let Tok::U8(_, x) = &mut t.toks[at] {
                    *x = match s.below(3) {
                        0 => *x ^ (1 << s.draw(8)),
                        _ => s.draw(256) as u8,
                    };
                }
                return "byte field";
            }
            20 => {
                // drop the rest of the packet at a field boundary
                if t.toks.is_empty() {
                    continue;
                }
                let n = s.below(t.toks.len());
                t.toks.truncate(n);
                return "fields missing";
            }
            21 => {
                if t.toks.is_empty() {
                    continue;
                }
                let i = s.below(t.toks.len());
                t.toks.remove(i);
                return "field missing";
            }
            22 => {
                if t.toks.is_empty() {
                    continue;
                }
                let i = s.below(t.toks.len());
                let k = t.toks[i].clone();
                t.toks.insert(i, k);
                return "field doubled";
            }
            23 if !props_at.is_empty() => {
                // drop or cut a property value
                let at = *s.pick(&props_at);
                if let Tok::Props(p) = &mut t.toks[at] {
                    if p.items.is_empty() {
                        continue;
                    }
                    let i = s.below(p.items.len());
                    match &mut p.items[i].val {
                        TVal::Raw(r) => {
                            if s.chance(1, 2) {
                                r.pop();
                            } else {
                                r.push(0);
                            }
                        }
                        TVal::Var(x, _) => *x = 0x1000_0000,
                        TVal::Str(x) => {
                            x.bytes.pop();
                            x.delta = 1;
                        }
                    }
                }
                return "property value size";
            }
            _ => {}
        }
    }
    t.trailing = vec![0];
    "trailing bytes"
}
fn boundary(b: &[u8], mut i: usize) -> usize {
    while i > 0 && i < b.len() && (b[i] & 0xc0) == 0x80 {
        i -= 1;
    }
    i
}
fn spoil(s: &mut Src, x: &mut TStr) {
    let bad = if s.chance(1, 5) { *s.pick(GOOD_EDGE) } else { *s.pick(BAD_TEXT) };
    let i = boundary(&x.bytes, s.below(x.bytes.len() + 1));
    let mut b = x.bytes[..i].to_vec();
    b.extend_from_slice(bad);
    b.extend_from_slice(&x.bytes[i..]);
    if b.len() <= 65535 {
        x.bytes = b;
    }
}

/// byte level damage
pub fn mangle(s: &mut Src, f: &mut Vec<u8>) {
    let n = s.range(1, 3);
    for _ in 0..n {
        if f.is_empty() {
            f.push(s.draw(256) as u8);
            continue;
        }
        let i = s.below(f.len());
        match s.below(6) {
            0 => f[i] ^= 1 << s.draw(8),
            1 => f[i] = s.draw(256) as u8,
            2 => {
                f.remove(i);
            }
            3 => f.insert(i, s.draw(256) as u8),
            4 => f[i] = *s.pick(&[0u8, 1, 0x7f, 0x80, 0xff]),
            _ => {
                f.truncate(i);
            }
        }
    }
}
