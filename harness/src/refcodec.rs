//! Independent reader and writer of the MQTT 5 wire format (OASIS MQTT 5.0), written from the
//! specification. It is the oracle of the codec checks and the codec of the test clients.
//! Dialect: User Property holds one string (recorded finding), unless `pair_user_props`.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Byte(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    Bin(Vec<u8>),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Byte,
    U16,
    U32,
    Var,
    Str,
    Bin,
}
pub type Props = Vec<(u8, Val)>;

pub const T_CONNECT: u8 = 1;
pub const T_CONNACK: u8 = 2;
pub const T_PUBLISH: u8 = 3;
pub const T_PUBACK: u8 = 4;
pub const T_PUBREC: u8 = 5;
pub const T_PUBREL: u8 = 6;
pub const T_PUBCOMP: u8 = 7;
pub const T_SUBSCRIBE: u8 = 8;
pub const T_SUBACK: u8 = 9;
pub const T_UNSUBSCRIBE: u8 = 10;
pub const T_UNSUBACK: u8 = 11;
pub const T_PINGREQ: u8 = 12;
pub const T_PINGRESP: u8 = 13;
pub const T_DISCONNECT: u8 = 14;
pub const T_AUTH: u8 = 15;
/// pseudo packet type for will properties
pub const T_WILL: u8 = 16;

/// Table 2-4: identifier, type, packets it may appear in, may it be repeated
/// (SUBACK/UNSUBACK etc. per the table)
pub const PROPS: &[(u8, Ty, &[u8], bool)] = &[
    (0x01, Ty::Byte, &[3, 16], false),
    (0x02, Ty::U32, &[3, 16], false),
    (0x03, Ty::Str, &[3, 16], false),
    (0x08, Ty::Str, &[3, 16], false),
    (0x09, Ty::Bin, &[3, 16], false),
    (0x0b, Ty::Var, &[3, 8], false),
    (0x11, Ty::U32, &[1, 2, 14], false),
    (0x12, Ty::Str, &[2], false),
    (0x13, Ty::U16, &[2], false),
    (0x15, Ty::Str, &[1, 2, 15], false),
    (0x16, Ty::Bin, &[1, 2, 15], false),
    (0x17, Ty::Byte, &[1], false),
    (0x18, Ty::U32, &[16], false),
    (0x19, Ty::Byte, &[1], false),
    (0x1a, Ty::Str, &[2], false),
    (0x1c, Ty::Str, &[2, 14], false),
    (0x1f, Ty::Str, &[2, 4, 5, 6, 7, 9, 11, 14, 15], false),
    (0x21, Ty::U16, &[1, 2], false),
    (0x22, Ty::U16, &[1, 2], false),
    (0x23, Ty::U16, &[3], false),
    (0x24, Ty::Byte, &[2], false),
    (0x25, Ty::Byte, &[2], false),
    (0x26, Ty::Str, &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16], true),
    (0x27, Ty::U32, &[1, 2], false),
    (0x28, Ty::Byte, &[2], false),
    (0x29, Ty::Byte, &[2], false),
    (0x2a, Ty::Byte, &[2], false),
];
/// one-byte properties that hold a truth value (0 or 1)
pub const BOOL_PROPS: &[u8] = &[0x17, 0x19, 0x28, 0x29, 0x2a];

pub fn prop_info(id: u32) -> Option<&'static (u8, Ty, &'static [u8], bool)> {
    PROPS.iter().find(|p| p.0 as u32 == id)
}

pub const R_CONNACK: &[u8] = &[
    0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97,
    0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
];
pub const R_PUBACK: &[u8] = &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const R_PUBREL: &[u8] = &[0x00, 0x92];
pub const R_SUBACK: &[u8] =
    &[0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2];
pub const R_UNSUBACK: &[u8] = &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91];
pub const R_DISCONNECT: &[u8] = &[
    0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94,
    0x95, 0x96, 0x97, 0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
];
pub const R_AUTH: &[u8] = &[0x00, 0x18, 0x19];

pub fn reasons(ty: u8) -> &'static [u8] {
    match ty {
        T_CONNACK => R_CONNACK,
        T_PUBACK | T_PUBREC => R_PUBACK,
        T_PUBREL | T_PUBCOMP => R_PUBREL,
        T_SUBACK => R_SUBACK,
        T_UNSUBACK => R_UNSUBACK,
        T_DISCONNECT => R_DISCONNECT,
        T_AUTH => R_AUTH,
        _ => &[],
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RWill {
    pub props: Props,
    pub topic: String,
    pub payload: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RP {
    Connect {
        flags: u8,
        keep: u16,
        props: Props,
        id: String,
        will: Option<RWill>,
        user: Option<String>,
        pass: Option<Vec<u8>>,
    },
    ConnAck { flags: u8, code: u8, props: Props },
    Publish { flags: u8, topic: String, id: Option<u16>, props: Props, payload: Vec<u8> },
    /// PUBACK, PUBREC, PUBREL, PUBCOMP
    Ack { ty: u8, id: u16, code: u8, props: Props },
    Subscribe { id: u16, props: Props, topics: Vec<(String, u8)> },
    /// SUBACK, UNSUBACK
    SubAck { ty: u8, id: u16, props: Props, codes: Vec<u8> },
    Unsubscribe { id: u16, props: Props, topics: Vec<String> },
    Ping { ty: u8 },
    /// DISCONNECT, AUTH
    Disc { ty: u8, code: u8, props: Props },
}

pub fn norm_props(p: &Props) -> Props {
    let mut v = p.clone();
    v.sort_by_key(|(k, _)| *k); // stable: repeated values keep their order
    v
}

impl RP {
    pub fn ty(&self) -> u8 {
        match self {
            RP::Connect { .. } => T_CONNECT,
            RP::ConnAck { .. } => T_CONNACK,
            RP::Publish { .. } => T_PUBLISH,
            RP::Ack { ty, .. } => *ty,
            RP::Subscribe { .. } => T_SUBSCRIBE,
            RP::SubAck { ty, .. } => *ty,
            RP::Unsubscribe { .. } => T_UNSUBSCRIBE,
            RP::Ping { ty } => *ty,
            RP::Disc { ty, .. } => *ty,
        }
    }
    /// the order of different properties carries no meaning: bring them in a fixed one
    pub fn norm(&self) -> RP {
        let mut p = self.clone();
        match &mut p {
            RP::Connect { props, will, .. } => {
                *props = norm_props(props);
                if let Some(w) = will {
                    w.props = norm_props(&w.props);
                }
            }
            RP::ConnAck { props, .. }
            | RP::Publish { props, .. }
            | RP::Ack { props, .. }
            | RP::Subscribe { props, .. }
            | RP::SubAck { props, .. }
            | RP::Unsubscribe { props, .. }
            | RP::Disc { props, .. } => *props = norm_props(props),
            RP::Ping { .. } => {}
        }
        p
    }
    pub fn props(&self) -> &[(u8, Val)] {
        match self {
            RP::Connect { props, .. }
            | RP::ConnAck { props, .. }
            | RP::Publish { props, .. }
            | RP::Ack { props, .. }
            | RP::Subscribe { props, .. }
            | RP::SubAck { props, .. }
            | RP::Unsubscribe { props, .. }
            | RP::Disc { props, .. } => props,
            RP::Ping { .. } => &[],
        }
    }
    pub fn prop(&self, id: u8) -> Option<&Val> {
        self.props().iter().find(|(k, _)| *k == id).map(|(_, v)| v)
    }
    /// short description for reports
    pub fn show(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() <= 600 {
            s
        } else {
            let mut k = 560;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            format!("{}... ({} chars)", &s[..k], s.len())
        }
    }
}

// ------------------------------------------------------------------ writer

pub fn put_var(out: &mut Vec<u8>, mut x: u32) {
    loop {
        let mut b = (x % 128) as u8;
        x /= 128;
        if x > 0 {
            b |= 128;
        }
        out.push(b);
        if x == 0 {
            break;
        }
    }
}
pub fn var_len(x: u32) -> usize {
    match x {
        0..=127 => 1,
        128..=16383 => 2,
        16384..=2097151 => 3,
        _ => 4,
    }
}
pub fn put_str(out: &mut Vec<u8>, s: &[u8]) {
    out.extend_from_slice(&(s.len() as u16).to_be_bytes());
    out.extend_from_slice(s);
}
pub fn put_prop(out: &mut Vec<u8>, id: u8, v: &Val) {
    put_var(out, id as u32);
    match v {
        Val::Byte(b) => out.push(*b),
        Val::U16(x) => out.extend_from_slice(&x.to_be_bytes()),
        Val::U32(x) => out.extend_from_slice(&x.to_be_bytes()),
        Val::Var(x) => put_var(out, *x),
        Val::Str(s) => put_str(out, s.as_bytes()),
        Val::Bin(b) => put_str(out, b),
    }
}
pub fn put_props(out: &mut Vec<u8>, props: &Props) {
    let mut body = Vec::new();
    for (id, v) in props {
        put_prop(&mut body, *id, v);
    }
    put_var(out, body.len() as u32);
    out.extend_from_slice(&body);
}
pub fn fixed_flags(ty: u8) -> u8 {
    match ty {
        T_PUBREL | T_SUBSCRIBE | T_UNSUBSCRIBE => 2,
        _ => 0,
    }
}
/// variable header and payload
pub fn body(p: &RP) -> Vec<u8> {
    let mut b = Vec::new();
    match p {
        RP::Connect { flags, keep, props, id, will, user, pass } => {
            put_str(&mut b, b"MQTT");
            b.push(5);
            b.push(*flags);
            b.extend_from_slice(&keep.to_be_bytes());
            put_props(&mut b, props);
            put_str(&mut b, id.as_bytes());
            if let Some(w) = will {
                put_props(&mut b, &w.props);
                put_str(&mut b, w.topic.as_bytes());
                put_str(&mut b, &w.payload);
            }
            if let Some(u) = user {
                put_str(&mut b, u.as_bytes());
            }
            if let Some(p) = pass {
                put_str(&mut b, p);
            }
        }
        RP::ConnAck { flags, code, props } => {
            b.push(*flags);
            b.push(*code);
            put_props(&mut b, props);
        }
        RP::Publish { topic, id, props, payload, .. } => {
            put_str(&mut b, topic.as_bytes());
            if let Some(i) = id {
                b.extend_from_slice(&i.to_be_bytes());
            }
            put_props(&mut b, props);
            b.extend_from_slice(payload);
        }
        RP::Ack { id, code, props, .. } => {
            b.extend_from_slice(&id.to_be_bytes());
            b.push(*code);
            put_props(&mut b, props);
        }
        RP::Subscribe { id, props, topics } => {
            b.extend_from_slice(&id.to_be_bytes());
            put_props(&mut b, props);
            for (t, o) in topics {
                put_str(&mut b, t.as_bytes());
                b.push(*o);
            }
        }
        RP::SubAck { id, props, codes, .. } => {
            b.extend_from_slice(&id.to_be_bytes());
            put_props(&mut b, props);
            b.extend_from_slice(codes);
        }
        RP::Unsubscribe { id, props, topics } => {
            b.extend_from_slice(&id.to_be_bytes());
            put_props(&mut b, props);
            for t in topics {
                put_str(&mut b, t.as_bytes());
            }
        }
        RP::Ping { .. } => {}
        RP::Disc { code, props, .. } => {
            b.push(*code);
            put_props(&mut b, props);
        }
    }
    b
}
pub fn byte1(p: &RP) -> u8 {
    let flags = match p {
        RP::Publish { flags, .. } => *flags,
        _ => fixed_flags(p.ty()),
    };
    (p.ty() << 4) | flags
}
pub fn frame(b1: u8, body: &[u8]) -> Vec<u8> {
    let mut out = vec![b1];
    put_var(&mut out, body.len() as u32);
    out.extend_from_slice(body);
    out
}
pub fn write(p: &RP) -> Vec<u8> {
    frame(byte1(p), &body(p))
}

// ------------------------------------------------------------------ reader

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Read {
    /// the header announces more bytes than there are (or is itself incomplete)
    Incomplete,
    /// not a legal frame; (the frame's length if the header could be read)
    Bad(&'static str, Option<usize>),
    /// a legal frame of that length; the list names aspects the specification judges beyond the
    /// format (a receiver may treat them as protocol errors), where no verdict is given
    Good(RP, usize, Vec<&'static str>),
}

struct R<'a> {
    b: &'a [u8],
}
type E = &'static str;
impl<'a> R<'a> {
    fn u8(&mut self) -> Result<u8, E> {
        let (x, r) = self.b.split_first().ok_or("field beyond the frame")?;
        self.b = r;
        Ok(*x)
    }
    fn u16(&mut self) -> Result<u16, E> {
        Ok(((self.u8()? as u16) << 8) | self.u8()? as u16)
    }
    fn u32(&mut self) -> Result<u32, E> {
        Ok(((self.u16()? as u32) << 16) | self.u16()? as u32)
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], E> {
        if self.b.len() < n {
            return Err("field beyond the frame");
        }
        let (x, r) = self.b.split_at(n);
        self.b = r;
        Ok(x)
    }
    fn bin(&mut self) -> Result<Vec<u8>, E> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> Result<String, E> {
        let n = self.u16()? as usize;
        let b = self.take(n)?;
        let s = std::str::from_utf8(b).map_err(|_| "string is not UTF-8")?;
        if !string_ok(s) {
            return Err("control character in a string");
        }
        Ok(s.to_string())
    }
    fn var(&mut self) -> Result<u32, E> {
        let mut v: u32 = 0;
        for k in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * k);
            if b & 0x80 == 0 {
                if b == 0 && k > 0 {
                    return Err("variable byte integer is not minimal");
                }
                return Ok(v);
            }
        }
        Err("variable byte integer longer than 4 bytes")
    }
    fn props(&mut self, owner: u8, soft: &mut Vec<&'static str>) -> Result<Props, E> {
        let n = self.var()? as usize;
        let mut r = R { b: self.take(n)? };
        let mut out: Props = Vec::new();
        while !r.b.is_empty() {
            let id = r.var()?;
            let (id, ty, owners, repeat) = prop_info(id).ok_or("unknown property")?;
            let v = match ty {
                Ty::Byte => Val::Byte(r.u8()?),
                Ty::U16 => Val::U16(r.u16()?),
                Ty::U32 => Val::U32(r.u32()?),
                Ty::Var => Val::Var(r.var()?),
                Ty::Str => Val::Str(r.str()?),
                Ty::Bin => Val::Bin(r.bin()?),
            };
            if !owners.contains(&owner) {
                return Err("property does not belong to this packet");
            }
            if !repeat && out.iter().any(|(k, _)| k == id) {
                if *id == 0x0b && owner == T_PUBLISH {
                    // the one case where the table allows it: recorded finding
                    soft.push("several subscription identifiers");
                } else {
                    return Err("repeated property");
                }
            }
            soft_prop(*id, &v, soft);
            out.push((*id, v));
        }
        if out.iter().any(|(k, _)| *k == 0x16) && !out.iter().any(|(k, _)| *k == 0x15) {
            soft.push(DATA_ALONE);
        }
        Ok(out)
    }
}
pub const DATA_ALONE: &str = "authentication data without method";
/// values the specification calls protocol errors although they are well formed
fn soft_prop(id: u8, v: &Val, soft: &mut Vec<&'static str>) {
    match (id, v) {
        (0x01, Val::Byte(b)) | (0x24, Val::Byte(b)) | (0x25, Val::Byte(b)) if *b > 1 => {
            soft.push("byte value out of range")
        }
        (i, Val::Byte(b)) if BOOL_PROPS.contains(&i) && *b > 1 => soft.push("truth value above 1"),
        (0x0b, Val::Var(0)) => soft.push("subscription identifier 0"),
        (0x21, Val::U16(0)) => soft.push("receive maximum 0"),
        (0x23, Val::U16(0)) => soft.push("topic alias 0"),
        (0x27, Val::U32(0)) => soft.push("maximum packet size 0"),
        (0x08, Val::Str(s)) if s.contains(|c| c == '#' || c == '+') => {
            soft.push("wildcard in a response topic")
        }
        _ => {}
    }
}

/// 1.5.4: at most 65535 bytes, no control characters
pub fn string_ok(s: &str) -> bool {
    s.len() <= 65535
        && !s.chars().any(|c| {
            let u = c as u32;
            u <= 0x1f || (0x7f..=0x9f).contains(&u)
        })
}
/// 4.7.1: wildcards occupy a whole level, # only the last one
pub fn filter_ok(s: &str) -> bool {
    let levels: Vec<&str> = s.split('/').collect();
    for (i, l) in levels.iter().enumerate() {
        if l.contains('#') && (*l != "#" || i + 1 != levels.len()) {
            return false;
        }
        if l.contains('+') && *l != "+" {
            return false;
        }
    }
    true
}
pub fn topic_ok(s: &str) -> bool {
    !s.contains('#') && !s.contains('+')
}

/// Some(Ok(total length)), Some(Err) if the header is illegal, None if it is incomplete
pub fn header(b: &[u8]) -> Option<Result<usize, E>> {
    if b.len() < 2 {
        return None;
    }
    let mut v: usize = 0;
    for k in 0..4 {
        let x = *b.get(1 + k)?;
        v |= ((x & 0x7f) as usize) << (7 * k);
        if x & 0x80 == 0 {
            if x == 0 && k > 0 {
                return Some(Err("remaining length is not minimal"));
            }
            return Some(Ok(2 + k + v));
        }
    }
    Some(Err("remaining length longer than 4 bytes"))
}

pub fn read(b: &[u8]) -> Read {
    if b.is_empty() {
        return Read::Incomplete;
    }
    let total = match header(b) {
        None => return Read::Incomplete,
        Some(Err(e)) => return Read::Bad(e, None),
        Some(Ok(t)) => t,
    };
    if b.len() < total {
        return Read::Incomplete;
    }
    let ty = b[0] >> 4;
    let flags = b[0] & 15;
    let hdr = 1 + var_len((total - 2) as u32).max(1);
    let _ = hdr;
    let mut k = 1;
    while b[k] & 0x80 != 0 {
        k += 1;
    }
    let inner = &b[k + 1..total];
    match read_body(ty, flags, inner) {
        Ok((p, soft)) => Read::Good(p, total, soft),
        Err(e) => Read::Bad(e, Some(total)),
    }
}

fn read_body(ty: u8, flags: u8, b: &[u8]) -> Result<(RP, Vec<&'static str>), E> {
    let mut soft = Vec::new();
    if ty == 0 {
        return Err("reserved packet type");
    }
    if ty != T_PUBLISH && flags != fixed_flags(ty) {
        return Err("illegal header flags");
    }
    let mut r = R { b };
    let s = &mut soft;
    let p = match ty {
        T_CONNECT => {
            if r.bin()? != b"MQTT" {
                return Err("protocol name");
            }
            if r.u8()? != 5 {
                return Err("protocol version");
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err("reserved connect flag");
            }
            let wq = (f >> 3) & 3;
            if wq == 3 {
                return Err("will QoS 3");
            }
            if f & 4 == 0 && (wq != 0 || f & 0x20 != 0) {
                return Err("will flags without will");
            }
            let keep = r.u16()?;
            let props = r.props(T_CONNECT, s)?;
            let id = r.str()?;
            let will = if f & 4 != 0 {
                let props = r.props(T_WILL, s)?;
                let topic = r.str()?;
                if !topic_ok(&topic) {
                    s.push("wildcard in a will topic");
                }
                if topic.is_empty() {
                    s.push("empty topic");
                }
                Some(RWill { props, topic, payload: r.bin()? })
            } else {
                None
            };
            let user = if f & 0x80 != 0 { Some(r.str()?) } else { None };
            let pass = if f & 0x40 != 0 { Some(r.bin()?) } else { None };
            RP::Connect { flags: f, keep, props, id, will, user, pass }
        }
        T_CONNACK => {
            let f = r.u8()?;
            if f & 0xfe != 0 {
                return Err("reserved connack flag");
            }
            let code = r.u8()?;
            if !R_CONNACK.contains(&code) {
                return Err("reason code");
            }
            if f == 1 && code != 0 {
                s.push("session present with an error code");
            }
            RP::ConnAck { flags: f, code, props: r.props(T_CONNACK, s)? }
        }
        T_PUBLISH => {
            let qos = (flags >> 1) & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            if qos == 0 && flags & 8 != 0 {
                s.push("DUP with QoS 0");
            }
            let topic = r.str()?;
            if !topic_ok(&topic) {
                return Err("wildcard in a topic name");
            }
            let id = if qos > 0 { Some(r.u16()?) } else { None };
            if id == Some(0) {
                s.push("packet identifier 0");
            }
            let props = r.props(T_PUBLISH, s)?;
            if topic.is_empty() {
                s.push("empty topic");
            }
            let payload = r.b.to_vec();
            r.b = &[];
            RP::Publish { flags, topic, id, props, payload }
        }
        T_PUBACK | T_PUBREC | T_PUBREL | T_PUBCOMP => {
            let id = r.u16()?;
            if id == 0 {
                s.push("packet identifier 0");
            }
            let (code, props) = if r.b.is_empty() {
                s.push("short form");
                (0, Vec::new())
            } else {
                let code = r.u8()?;
                if !reasons(ty).contains(&code) {
                    return Err("reason code");
                }
                if r.b.is_empty() {
                    s.push("short form");
                    (code, Vec::new())
                } else {
                    (code, r.props(ty, s)?)
                }
            };
            RP::Ack { ty, id, code, props }
        }
        T_SUBSCRIBE => {
            let id = r.u16()?;
            if id == 0 {
                s.push("packet identifier 0");
            }
            let props = r.props(ty, s)?;
            let mut topics = Vec::new();
            while !r.b.is_empty() {
                let t = r.str()?;
                if !filter_ok(&t) {
                    return Err("misplaced wildcard");
                }
                if t.is_empty() {
                    s.push("empty filter");
                }
                let o = r.u8()?;
                if o & 0xc0 != 0 || o & 3 == 3 || (o >> 4) & 3 == 3 {
                    return Err("subscription options");
                }
                if o & 4 != 0 && t.starts_with("$share/") {
                    s.push("no local on a shared subscription");
                }
                topics.push((t, o));
            }
            if topics.is_empty() {
                return Err("no topic filter");
            }
            RP::Subscribe { id, props, topics }
        }
        T_SUBACK | T_UNSUBACK => {
            let id = r.u16()?;
            if id == 0 {
                s.push("packet identifier 0");
            }
            let props = r.props(ty, s)?;
            let codes = r.b.to_vec();
            r.b = &[];
            if codes.is_empty() {
                return Err("no reason code");
            }
            if codes.iter().any(|c| !reasons(ty).contains(c)) {
                return Err("reason code");
            }
            RP::SubAck { ty, id, props, codes }
        }
        T_UNSUBSCRIBE => {
            let id = r.u16()?;
            if id == 0 {
                s.push("packet identifier 0");
            }
            let props = r.props(ty, s)?;
            let mut topics = Vec::new();
            while !r.b.is_empty() {
                let t = r.str()?;
                if !filter_ok(&t) {
                    return Err("misplaced wildcard");
                }
                if t.is_empty() {
                    s.push("empty filter");
                }
                topics.push(t);
            }
            if topics.is_empty() {
                return Err("no topic filter");
            }
            RP::Unsubscribe { id, props, topics }
        }
        T_PINGREQ | T_PINGRESP => RP::Ping { ty },
        T_DISCONNECT | T_AUTH => {
            if r.b.is_empty() {
                s.push("short form");
                RP::Disc { ty, code: 0, props: Vec::new() }
            } else {
                let code = r.u8()?;
                if !reasons(ty).contains(&code) {
                    return Err("reason code");
                }
                if r.b.is_empty() {
                    s.push("short form");
                    RP::Disc { ty, code, props: Vec::new() }
                } else {
                    RP::Disc { ty, code, props: r.props(ty, s)? }
                }
            }
        }
        _ => unreachable!(),
    };
    if !r.b.is_empty() {
        return Err("bytes left in the frame");
    }
    Ok((p, soft))
}
