//! Generated histories of several clients against a model of the broker.
use crate::check;
use crate::engine::*;
use crate::gen;
use crate::net::*;
use crate::refcodec::*;
use crate::topics::topic_matches;
use std::collections::{BTreeMap, BTreeSet};

/// what a client has to receive because of one source's packets, in that source's order
#[derive(Clone, Debug, PartialEq)]
pub enum Need {
    Must,
    /// may be missing; once one of a source has come, the later ones of it have to come too
    Suffix,
    /// may be missing
    Free,
}
#[derive(Clone, Debug)]
pub struct Exp {
    pub pkt: RP,
    pub need: Need,
}
pub type Expected = BTreeMap<usize, Vec<Exp>>;

fn same(got: &RP, want: &RP) -> bool {
    match (got, want) {
        (RP::Disc { ty: a, code: c, .. }, RP::Disc { ty: b, code: d, .. }) => a == b && c == d,
        (RP::SubAck { ty: a, id: i, codes: c, .. }, RP::SubAck { ty: b, id: j, codes: d, .. }) => {
            a == b && i == j && c == d
        }
        _ => got == want,
    }
}

/// `got` has to be an interleaving of the sources' sequences
pub fn explain(got: &[RP], exp: &Expected) -> Result<(), String> {
    let keys: Vec<usize> = exp.keys().cloned().collect();
    let seqs: Vec<&Vec<Exp>> = keys.iter().map(|k| &exp[k]).collect();
    type St = (Vec<u32>, Vec<bool>);
    let mut states: BTreeSet<St> = BTreeSet::new();
    states.insert((vec![0; seqs.len()], vec![false; seqs.len()]));
    for (n, g) in got.iter().enumerate() {
        let mut next: BTreeSet<St> = BTreeSet::new();
        for (pos, sticky) in &states {
            for q in 0..seqs.len() {
                let mut j = pos[q] as usize;
                while j < seqs[q].len() {
                    let e = &seqs[q][j];
                    if same(g, &e.pkt) {
                        let mut p2 = pos.clone();
                        let mut s2 = sticky.clone();
                        p2[q] = j as u32 + 1;
                        if e.need == Need::Suffix {
                            s2[q] = true;
                        }
                        next.insert((p2, s2));
                        if next.len() > 4000 {
                            break;
                        }
                    }
                    let skip = match e.need {
                        Need::Must => false,
                        Need::Suffix => !sticky[q],
                        Need::Free => true,
                    };
                    if !skip {
                        break;
                    }
                    j += 1;
                }
            }
        }
        if next.is_empty() {
            let (pos, _) = states.iter().next_back().unwrap();
            let want: Vec<String> = (0..seqs.len())
                .map(|q| match seqs[q].get(pos[q] as usize) {
                    Some(e) => format!("from {}: {}", keys[q], e.pkt.show()),
                    None => format!("from {}: nothing more", keys[q]),
                })
                .collect();
            return Err(format!(
                "its packet number {} is {}, which is not to be expected there; next would be {}",
                n,
                g.show(),
                if want.is_empty() { "nothing at all".into() } else { want.join(", ") }
            ));
        }
        states = next;
    }
    let done = states.iter().any(|(pos, sticky)| {
        (0..seqs.len()).all(|q| {
            seqs[q][pos[q] as usize..].iter().all(|e| match e.need {
                Need::Must => false,
                Need::Suffix => !sticky[q],
                Need::Free => true,
            })
        })
    });
    if !done {
        let (pos, _) = states.iter().next_back().unwrap();
        for q in 0..seqs.len() {
            let rest: Vec<&Exp> = seqs[q][pos[q] as usize..].iter().filter(|e| e.need != Need::Free).collect();
            if !rest.is_empty() {
                return Err(format!(
                    "it never receives {} packet(s) due to client {}, the first: {}",
                    rest.len(),
                    keys[q],
                    rest[0].pkt.show()
                ));
            }
        }
        return Err("it misses packets".into());
    }
    Ok(())
}

#[derive(Clone, Debug)]
pub enum Cmd {
    Pub(RP),
    Sub(u16, Props, Vec<(String, u8)>),
    /// not supported: a refusal comes back
    Unsup(RP),
}
impl Cmd {
    pub fn packet(&self) -> RP {
        match self {
            Cmd::Pub(p) | Cmd::Unsup(p) => p.clone(),
            Cmd::Sub(id, props, t) => RP::Subscribe { id: *id, props: props.clone(), topics: t.clone() },
        }
    }
    pub fn show(&self) -> String {
        match self {
            Cmd::Pub(p) => {
                if let RP::Publish { topic, payload, props, .. } = p {
                    format!("pub({:?},{}B,{} props)", clip(topic), payload.len(), props.len())
                } else {
                    "pub".into()
                }
            }
            Cmd::Sub(id, _, t) => format!(
                "sub({},{})",
                id,
                t.iter().map(|(f, o)| format!("{:?}:{:02x}", clip(f), o)).collect::<Vec<_>>().join(",")
            ),
            Cmd::Unsup(p) => {
                let s = p.show();
                format!("unsupported({})", clip(&s))
            }
        }
    }
}
pub fn clip(s: &str) -> String {
    if s.len() <= 60 {
        return s.to_string();
    }
    let mut k = 60;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}..", &s[..k])
}

/// which of a client's subscriptions are in force: filter -> no-local
pub type Subs = BTreeMap<String, bool>;

pub struct Peer {
    pub c: Option<Client>,
    pub id: String,
    pub encrypted: bool,
    pub subs: Subs,
    pub exp: Expected,
    pub limit: usize,
}

pub fn forwarded(p: &RP) -> RP {
    match p {
        RP::Publish { topic, props, payload, .. } => RP::Publish {
            flags: 0,
            topic: topic.clone(),
            id: None,
            props: norm_props(
                &props.iter().filter(|(k, _)| [0x01, 0x08, 0x09, 0x26, 0x03].contains(k)).cloned().collect::<Vec<_>>(),
            ),
            payload: payload.clone(),
        },
        p => p.clone(),
    }
}
pub fn refusal() -> RP {
    RP::Disc { ty: T_DISCONNECT, code: 0x83, props: vec![] }
}
pub fn grants(t: &[(String, u8)], subs: &mut Subs) -> Vec<u8> {
    t.iter()
        .map(|(f, o)| {
            let c = suback_code(*o);
            if c == 0 {
                subs.insert(f.clone(), o & 4 != 0);
            }
            c
        })
        .collect()
}

/// Adds what every peer has to receive when each client `i` of `streams` sends its commands, all
/// concurrently; peers' subscriptions advance to the state afterwards.
pub fn predict(peers: &mut [Peer], streams: &[(usize, Vec<Cmd>)], strict: bool) {
    // subscription states of each client during the streams
    let mut states: BTreeMap<usize, Vec<Subs>> = BTreeMap::new();
    let mut changes: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, cmds) in streams {
        let mut cur = peers[*i].subs.clone();
        let mut all = vec![cur.clone()];
        for c in cmds {
            if let Cmd::Sub(_, _, t) = c {
                grants(t, &mut cur);
                *changes.entry(*i).or_insert(0) += 1;
                // one SUBSCRIBE puts its filters in place one after the other
                if t.len() > 1 {
                    *changes.entry(*i).or_insert(0) += 1;
                }
                all.push(cur.clone());
            }
        }
        states.insert(*i, all);
    }
    for (i, cmds) in streams {
        let mut own = peers[*i].subs.clone();
        for c in cmds {
            match c {
                Cmd::Sub(id, _, t) => {
                    let codes = grants(t, &mut own);
                    if 5 + codes.len() > peers[*i].limit {
                        continue;
                    }
                    peers[*i].exp.entry(*i).or_default().push(Exp {
                        pkt: RP::SubAck { ty: T_SUBACK, id: *id, props: vec![], codes },
                        need: Need::Must,
                    });
                }
                Cmd::Unsup(_) => {
                    if write(&refusal()).len() > peers[*i].limit {
                        continue;
                    }
                    peers[*i].exp.entry(*i).or_default().push(Exp { pkt: refusal(), need: Need::Must });
                }
                Cmd::Pub(p) => {
                    let topic = match p {
                        RP::Publish { topic, .. } => topic.clone(),
                        _ => continue,
                    };
                    let f = forwarded(p);
                    let size = write(&f).len();
                    for k in 0..peers.len() {
                        if peers[k].c.is_none() || size > peers[k].limit {
                            continue;
                        }
                        if strict && peers[*i].encrypted && !peers[k].encrypted {
                            continue;
                        }
                        let hit = |s: &Subs| s.keys().any(|f| topic_matches(f, &topic));
                        let need = if k == *i {
                            let m: Vec<bool> =
                                own.iter().filter(|(f, _)| topic_matches(f, &topic)).map(|(_, nl)| *nl).collect();
                            if m.is_empty() || m.iter().all(|x| *x) {
                                continue;
                            }
                            if m.iter().any(|x| *x) {
                                Need::Free
                            } else {
                                Need::Must
                            }
                        } else {
                            match states.get(&k) {
                                None => {
                                    if !hit(&peers[k].subs) {
                                        continue;
                                    }
                                    Need::Must
                                }
                                Some(v) => {
                                    if hit(&v[0]) {
                                        Need::Must
                                    } else if hit(&v[v.len() - 1]) {
                                        if changes.get(&k).copied().unwrap_or(0) == 1 {
                                            Need::Suffix
                                        } else {
                                            Need::Free
                                        }
                                    } else {
                                        continue;
                                    }
                                }
                            }
                        };
                        peers[k].exp.entry(*i).or_default().push(Exp { pkt: f.clone(), need });
                    }
                }
            }
        }
    }
    for (i, v) in states {
        peers[i].subs = v.into_iter().last().unwrap();
    }
}

// ---------------------------------------------------------------- generators

pub struct Words {
    pub filters: Vec<String>,
    pub mark: u32,
    pub next_sub: u16,
    /// every topic and filter starts with this
    pub prefix: &'static str,
    last: Option<RP>,
}
impl Words {
    pub fn new() -> Words {
        Words { filters: Vec::new(), mark: 0, next_sub: 0, prefix: "", last: None }
    }
    pub fn filter(&mut self, s: &mut Src) -> String {
        let f = if !self.filters.is_empty() && s.chance(1, 2) {
            s.pick(&self.filters).clone()
        } else {
            match s.below(8) {
                0 => "#".to_string(),
                1 => "+".to_string(),
                2 => "a".to_string(),
                _ => crate::topics::gen_filter(s),
            }
        };
        if f.starts_with("$share") {
            return "a".into();
        }
        let f = if f.starts_with(self.prefix) { f } else { format!("{}{}", self.prefix, f) };
        self.filters.push(f.clone());
        f
    }
    pub fn topic(&mut self, s: &mut Src) -> String {
        if self.filters.is_empty() || s.chance(1, 10) {
            return format!("{}{}", self.prefix, crate::topics::gen_topic(s));
        }
        let f = s.pick(&self.filters).clone();
        let t = crate::topics::near_topic(s, &f);
        if t.starts_with(self.prefix) {
            t
        } else {
            format!("{}{}", self.prefix, t)
        }
    }
    /// a supported PUBLISH of at most `max` bytes
    pub fn message(&mut self, s: &mut Src, max: usize) -> RP {
        if let Some(m) = self.last.clone() {
            // the same again
            if s.chance(1, 16) && write(&m).len() <= max {
                return m;
            }
        }
        let topic = self.topic(s);
        let m = self.message_on(s, topic, max);
        self.last = Some(m.clone());
        m
    }
    pub fn message_on(&mut self, s: &mut Src, topic: String, max: usize) -> RP {
        self.mark += 1;
        let mut payload = if s.chance(1, 12) {
            // nothing to recognise it by
            let n = s.below(3);
            vec![b'x'; n]
        } else {
            let mut p = format!("#{}:", self.mark).into_bytes();
            let n = match s.weighted(&[20, 6, 2, 1]) {
                0 => s.below(20),
                1 => s.range(100, 140) as usize,
                2 => s.below(4000),
                _ => s.below(60_000),
            };
            p.extend(s.bytes(n));
            p
        };
        let mut props: Props = Vec::new();
        if s.chance(1, 2) {
            for id in [0x01u8, 0x03, 0x08, 0x09] {
                if s.chance(1, 3) {
                    let v = match id {
                        0x01 => Val::Byte(s.draw(2) as u8),
                        0x03 => Val::Str(gen::short_string(s)),
                        0x08 => Val::Str(self.topic(s)),
                        _ => {
                            let n = if s.chance(1, 10) { s.range(120, 300) as usize } else { s.below(20) };
                            Val::Bin(s.bytes(n))
                        }
                    };
                    props.push((id, v));
                }
            }
            for _ in 0..if s.chance(1, 12) { s.range(5, 40) as usize } else { s.below(4) } {
                let at = s.below(props.len() + 1);
                let v = if s.chance(1, 2) { format!("u{}", s.below(3)) } else { gen::short_string(s) };
                props.insert(at, (0x26, Val::Str(v)));
            }
        }
        if props.contains(&(0x01, Val::Byte(1))) {
            payload = payload.iter().map(|b| b'a' + (b & 15)).collect();
            let mut tag = format!("#{}:", self.mark).into_bytes();
            tag.extend_from_slice(&payload);
            payload = tag;
        }
        let mut p = RP::Publish { flags: 0, topic: topic.clone(), id: None, props: props.clone(), payload: payload.clone() };
        let over = write(&p).len();
        if over > max {
            // cut the payload, then the rest
            let cut = (over - max + 8).min(payload.len());
            payload.truncate(payload.len() - cut);
            p = RP::Publish { flags: 0, topic: topic.clone(), id: None, props, payload };
            if write(&p).len() > max {
                p = RP::Publish { flags: 0, topic, id: None, props: vec![], payload: vec![] };
            }
            if write(&p).len() > max {
                p = publish("a", b"");
            }
        }
        p
    }
    /// a message whose frame has `n` bytes (or one less where no frame has that size)
    pub fn sized(&mut self, topic: &str, n: usize) -> RP {
        self.mark += 1;
        let mark = format!("#{}:", self.mark).into_bytes();
        let fixed = write(&publish(topic, b"")).len();
        let mut k = n.saturating_sub(fixed);
        loop {
            let mut p = mark.clone();
            p.resize(k.max(mark.len()), b'.');
            p.truncate(k);
            let m = publish(topic, &p);
            if write(&m).len() <= n || k == 0 {
                return m;
            }
            k -= 1;
        }
    }
    pub fn sub(&mut self, s: &mut Src, max: usize, refused: bool) -> Cmd {
        self.next_sub = (self.next_sub + 1) % (FENCE - 2);
        let id = if s.chance(1, 8) { *s.pick(&[1u16, 255, 256, 0x7fff, FENCE - 1]) } else { self.next_sub + 1 };
        let n = match s.weighted(&[6, 3, 1]) {
            0 => 1,
            1 => s.range(2, 4),
            _ => s.range(5, 12),
        };
        let mut t: Vec<(String, u8)> = Vec::new();
        for _ in 0..n {
            let f = self.filter(s);
            let o = if refused && s.chance(1, 4) {
                (s.draw(3) as u8) | ((s.draw(4) as u8) << 2) | ((s.draw(3) as u8) << 4)
            } else {
                0x20 | ((s.draw(4) as u8) << 2)
            };
            t.push((f, o));
        }
        let mut props = Vec::new();
        for _ in 0..s.weighted(&[6, 1, 1]) {
            props.push((0x26u8, Val::Str(gen::short_string(s))));
        }
        let mut c = Cmd::Sub(id, props, t);
        if write(&c.packet()).len() > max {
            c = Cmd::Sub(id, vec![], vec![("a".into(), 0x20)]);
        }
        c
    }
}

/// a packet that a connected client may send but this server does not implement, of at most
/// `max` bytes
pub fn unsupported(s: &mut Src, w: &mut Words, max: usize) -> RP {
    for _ in 0..4 {
        let p = match s.weighted(&[4, 4, 3, 10]) {
            0 => {
                // a PUBLISH that asks for too much
                let p = w.message(s, max.saturating_sub(16));
                if let RP::Publish { topic, mut props, payload, .. } = p {
                    let mut flags = 0;
                    let mut id = None;
                    match s.below(6) {
                        0 => {
                            flags = 2 | if s.chance(1, 2) { 8 } else { 0 } | s.draw(2) as u8;
                            id = Some(s.range(1, 65535) as u16);
                        }
                        1 => {
                            flags = 4 | if s.chance(1, 2) { 8 } else { 0 } | s.draw(2) as u8;
                            id = Some(s.range(1, 65535) as u16);
                        }
                        2 => flags = 1,
                        3 => props.push((0x02, Val::U32(*s.pick(&[0, 1, 10, 255, 256, 65_535, 65_536, u32::MAX - 1, u32::MAX])))),
                        4 => props.push((0x23, Val::U16(*s.pick(&[1, 2, 255, 256, 32_768, 65_535])))),
                        _ => props.push((0x0b, Val::Var(*s.pick(&[1, 127, 128, 16_383, 16_384, 2_097_152, 268_435_455])))),
                    }
                    RP::Publish { flags, topic, id, props, payload }
                } else {
                    p
                }
            }
            1 => match w.sub(s, max.saturating_sub(16), true) {
                Cmd::Sub(id, mut props, t) => {
                    props.push((0x0b, Val::Var(*s.pick(&[1, 127, 128, 16_383, 16_384, 2_097_152, 268_435_455]))));
                    RP::Subscribe { id, props, topics: t }
                }
                c => c.packet(),
            },
            2 => RP::Ping { ty: T_PINGREQ },
            _ => {
                let k = *s.pick(&[
                    T_UNSUBSCRIBE, T_DISCONNECT, T_CONNECT, T_PINGRESP, T_PUBACK, T_PUBREC, T_PUBREL, T_PUBCOMP, T_SUBACK,
                    T_UNSUBACK, T_AUTH, T_CONNACK,
                ]);
                if k == T_UNSUBSCRIBE && !w.filters.is_empty() && s.chance(2, 3) {
                    // of something that may be in place
                    let n = s.range(1, 3);
                    let topics = (0..n).map(|_| s.pick(&w.filters).clone()).collect();
                    RP::Unsubscribe { id: s.range(1, 65535) as u16, props: vec![], topics }
                } else {
                    gen::packet_of(s, k)
                }
            }
        };
        let f = write(&p);
        if f.len() > max {
            continue;
        }
        match read(&f) {
            Read::Good(_, _, soft) if soft.is_empty() => return p,
            _ => continue,
        }
    }
    RP::Ping { ty: T_PINGREQ }
}

// ---------------------------------------------------------------- histories

#[derive(Clone)]
pub struct Profile {
    /// burst, connect, close, takeover
    pub ops: [u64; 4],
    /// within a burst: publish, subscribe, unsupported
    pub cmds: [u64; 3],
    pub max_clients: usize,
    pub steps: u64,
    pub burst: u64,
    pub refused: bool,
    pub segment: bool,
    pub encrypted: (u64, u64),
    pub announce: bool,
    pub min_max: u32,
    pub force_strict: Option<bool>,
    /// identifiers of earlier connections come back
    pub reuse: bool,
}
impl Profile {
    pub fn base() -> Profile {
        Profile {
            ops: [10, 4, 1, 1],
            cmds: [8, 2, 1],
            max_clients: 5,
            steps: 10,
            burst: 12,
            refused: true,
            segment: true,
            encrypted: (1, 3),
            announce: false,
            min_max: 600,
            force_strict: None,
            reuse: true,
        }
    }
}

pub struct History<'a> {
    pub w: &'a mut World,
    pub peers: Vec<Peer>,
    pub words: Words,
    pub log: Vec<String>,
    pub deliveries: usize,
    pub taken_over: usize,
    pub ended: usize,
    pub refusals: usize,
    pub named: u32,
    /// every identifier ends with this
    pub suffix: String,
}

impl<'a> History<'a> {
    pub fn new(w: &'a mut World) -> History<'a> {
        History {
            w,
            peers: Vec::new(),
            words: Words::new(),
            log: Vec::new(),
            deliveries: 0,
            taken_over: 0,
            ended: 0,
            refusals: 0,
            named: 0,
            suffix: String::new(),
        }
    }
    pub fn alive(&self) -> Vec<usize> {
        (0..self.peers.len()).filter(|i| self.peers[*i].c.is_some()).collect()
    }
    pub fn ids(&self) -> Vec<String> {
        self.peers.iter().filter(|p| p.c.is_some()).map(|p| p.id.clone()).collect()
    }
    /// everything sent has been processed and delivered; compares what arrived
    pub async fn settle(&mut self) -> Res {
        let all = self.alive();
        self.settle_of(&all).await
    }
    /// the same for some of the clients, which must be all that have sent anything
    pub async fn settle_of(&mut self, who: &[usize]) -> Res {
        for round in 0..2 {
            // first everything sent is processed, then everything queued arrives
            let mut n = Vec::new();
            for i in who.to_vec() {
                let c = self.peers[i].c.as_mut().unwrap();
                n.push((i, c.fence_send().await?));
            }
            for (i, f) in n {
                let c = self.peers[i].c.as_mut().unwrap();
                c.fence_wait(f).await.map_err(|e| context(if round == 0 { "settling" } else { "settling again" }, e))?;
            }
        }
        for i in who.to_vec() {
            let p = &mut self.peers[i];
            let got = p.c.as_ref().unwrap().take();
            let exp = std::mem::take(&mut p.exp);
            self.deliveries += got.iter().filter(|g| matches!(g, RP::Publish { .. })).count();
            self.refusals += got.iter().filter(|g| is_refusal(g)).count();
            for g in &got {
                let size = write(g).len();
                check!(
                    size <= p.limit,
                    "client {} ({:?}) was sent a packet of {} bytes, its limit is {}",
                    i,
                    p.id,
                    size,
                    p.limit
                );
            }
            if let Err(m) = explain(&got, &exp) {
                return broken(format!(
                    "client {} ({:?}, {}, subscribed to {:?}): {}",
                    i,
                    p.id,
                    if p.encrypted { "noise" } else { "tcp" },
                    p.subs.keys().map(|k| clip(k)).collect::<Vec<_>>(),
                    m
                ));
            }
        }
        Ok(())
    }
    /// The table of subscriptions that the server gives out says the same as the model. Nothing may
    /// be under way.
    pub async fn table(&mut self, s: &mut Src) -> Res {
        for _ in 0..s.range(1, 4) {
            let topic = self.words.topic(s);
            let server = match &self.w.server {
                Some(s) => s,
                None => return Ok(()),
            };
            let mut want: Vec<String> = self
                .peers
                .iter()
                .filter(|p| p.c.is_some() && p.subs.keys().any(|f| topic_matches(f, &topic)))
                .map(|p| p.id.clone())
                .collect();
            want.sort();
            let mut k = 0;
            loop {
                let mut got = match patient(self.w.worker, server.get_topics().get_all_subscribed(&topic)).await {
                    Some(m) => m.keys().map(|c| c.to_string()).collect::<Vec<_>>(),
                    None => return missing("asking for the subscribers of a topic never returns"),
                };
                got.sort();
                if got == want {
                    break;
                }
                k += 1;
                if k > TICKS {
                    return missing(format!(
                        "the server says that {:?} are subscribed to {:?}, it is {:?}",
                        got,
                        clip(&topic),
                        want
                    ));
                }
                progress(self.w.worker);
                tokio::time::sleep(TICK).await;
            }
        }
        Ok(())
    }
    /// waits until this client receives exactly this next
    pub async fn w_wait(&mut self, i: usize, m: &RP) -> Res {
        let got = self.peers[i].c.as_mut().unwrap().next("a message").await?;
        check!(got == *m, "received {} instead of {}", got.show(), m.show());
        Ok(())
    }
    pub async fn connect(&mut self, id: &str, encrypted: bool, props: Props) -> Result<usize, Fail> {
        self.log.push(format!(
            "connect(client {}, {:?}, {}{})",
            self.peers.len(),
            id,
            if encrypted { "noise" } else { "tcp" },
            if props.is_empty() { "".into() } else { format!(", {:?}", props) }
        ));
        self.connect_with(id, encrypted, props, None).await
    }
    pub async fn connect_with(
        &mut self,
        id: &str,
        encrypted: bool,
        props: Props,
        rcvbuf: Option<u32>,
    ) -> Result<usize, Fail> {
        let mut c = self.w.client_with(encrypted, id, props, rcvbuf).await?;
        // registered, whatever is taken over is gone
        c.fence().await?;
        let limit = c.limit(&self.w.conf);
        for p in self.peers.iter_mut() {
            if p.c.is_some() && p.id == id {
                let old = p.c.take().unwrap();
                p.subs.clear();
                self.taken_over += 1;
                let rest = old.closed("although another connection has taken over its identifier").await?;
                // a farewell is allowed, nothing else
                let rest: Vec<RP> = rest.into_iter().filter(|r| !matches!(r, RP::Disc { ty: T_DISCONNECT, .. })).collect();
                check!(rest.is_empty(), "the connection that is taken over receives {:?}", rest);
            }
        }
        self.peers.push(Peer {
            c: Some(c),
            id: id.to_string(),
            encrypted,
            subs: Subs::new(),
            exp: Expected::new(),
            limit,
        });
        Ok(self.peers.len() - 1)
    }
    /// ends a connection in some way and waits until the server knows
    pub async fn end(&mut self, i: usize, how: u64) -> Res {
        let mut c = self.peers[i].c.take().unwrap();
        self.peers[i].subs.clear();
        self.ended += 1;
        let what = match how {
            0 => "closes",
            1 => "resets",
            2 => "half-closes",
            3 => "sends half a packet and closes",
            4 => "sends a malformed packet",
            _ => "sends an oversized packet",
        };
        self.log.push(format!("client {} {}", i, what));
        match how {
            0 => c.close().await,
            1 => c.reset(),
            2 => {
                c.half_close().await;
                c.closed("although the client has closed its side").await?;
            }
            3 => {
                let m = c.seal(&write(&publish("half/a/packet", b"0123456789")));
                c.raw(&m[..m.len() / 2]).await?;
                c.close().await;
            }
            4 => {
                let m = c.seal(&[0x00, 0x02, 0, 0]);
                c.raw(&m).await?;
                c.closed("after a malformed packet").await?;
            }
            _ => {
                let n = self.w.conf.max as usize;
                if n > 60_000 {
                    c.close().await;
                } else {
                    let mut f = write(&publish("a", &vec![b'x'; n]));
                    f.truncate(n + 40);
                    let m = c.seal(&f);
                    c.raw(&m).await?;
                    c.closed("after an oversized packet").await?;
                }
            }
        }
        let ids = self.ids();
        self.w.registry(&ids).await
    }
    pub async fn burst(&mut self, s: &mut Src, streams: Vec<(usize, Vec<Cmd>)>, segment: bool) -> Res {
        for (i, cmds) in &streams {
            self.log.push(format!("client {}: {}", i, cmds.iter().map(|c| c.show()).collect::<Vec<_>>().join(" ")));
        }
        predict(&mut self.peers, &streams, self.w.conf.strict);
        let worker = self.w.worker;
        // bytes of each stream, written in turns
        let mut out: Vec<(usize, Vec<u8>, usize)> = Vec::new();
        for (i, cmds) in &streams {
            let c = self.peers[*i].c.as_ref().unwrap();
            let mut b = Vec::new();
            for cmd in cmds {
                b.extend(c.seal(&write(&cmd.packet())));
            }
            out.push((*i, b, 0));
        }
        let pieces = if segment { s.weighted(&[3, 2, 2, 2, 2]) } else { 0 };
        loop {
            let mut busy = false;
            for (i, b, at) in out.iter_mut() {
                if *at >= b.len() {
                    continue;
                }
                busy = true;
                let left = b.len() - *at;
                let n = match pieces {
                    0 => left,
                    1 => (left / 2).max(16).min(left),
                    2 => 1 + s.below(left),
                    3 => 1 + s.below(left.min(40 + b.len() / 60)),
                    _ => {
                        if b.len() < 60 {
                            1
                        } else {
                            1 + s.below(left)
                        }
                    }
                };
                let c = self.peers[*i].c.as_mut().unwrap();
                let ok = c.raw(&b[*at..*at + n]).await?;
                check!(ok, "the server closed the connection of client {} while it was sending legal packets", i);
                *at += n;
            }
            if !busy {
                break;
            }
            progress(worker);
            if pieces > 0 {
                if s.chance(1, 3) {
                    tokio::time::sleep(std::time::Duration::from_micros(300)).await;
                } else {
                    tokio::task::yield_now().await;
                }
            }
        }
        Ok(())
    }
    /// some messages of some of the clients
    pub async fn traffic(&mut self, s: &mut Src) -> Res {
        let alive = self.alive();
        let mut streams: Vec<(usize, Vec<Cmd>)> = Vec::new();
        for _ in 0..s.range(1, 2) {
            let i = *s.pick(&alive);
            if streams.iter().any(|(k, _)| *k == i) {
                continue;
            }
            let mut cmds = Vec::new();
            for _ in 0..s.range(1, 8) {
                cmds.push(Cmd::Pub(self.words.message(s, 500)));
            }
            streams.push((i, cmds));
        }
        self.burst(s, streams, false).await
    }
    pub fn id(&mut self, s: &mut Src) -> String {
        self.named += 1;
        // close to one in use: longer, shorter, in other case
        if !self.peers.is_empty() && s.chance(1, 4) {
            let near = s.pick(&self.peers).id.clone();
            let id = match s.below(5) {
                0 => format!("{}{}", near, s.pick(&["1", "/", "c", " ", "é"])),
                1 => {
                    let mut v: Vec<char> = near.chars().collect();
                    v.pop();
                    v.into_iter().collect()
                }
                2 if near.to_uppercase() != near => near.to_uppercase(),
                2 => near.to_lowercase(),
                3 => format!("{}{}", s.pick(&["c", " ", "é"]), near),
                _ => near.chars().rev().collect(),
            };
            let id = format!("{}{}", id, self.suffix);
            if !id.is_empty() && id.len() < 100 && self.peers.iter().all(|p| p.id != id) {
                return id;
            }
        }
        let id = match s.weighted(&[6, 2, 1]) {
            0 => format!("c{}", self.named),
            1 => format!("{}{}", gen::string_max(s, 20), self.named),
            _ => format!("c{}/+/#{}", self.named, "é".repeat(s.below(20))),
        };
        id + &self.suffix
    }
    pub fn transport(&self, s: &mut Src, p: &Profile) -> bool {
        if !self.w.conf.tcp {
            return true;
        }
        self.w.conf.noise && s.chance(p.encrypted.0, p.encrypted.1)
    }
    fn cmd(&mut self, s: &mut Src, p: &Profile, max: usize) -> Cmd {
        match s.weighted(&p.cmds) {
            0 => Cmd::Pub(self.words.message(s, max)),
            1 => self.words.sub(s, max, p.refused),
            _ => Cmd::Unsup(unsupported(s, &mut self.words, max)),
        }
    }
    pub async fn step(&mut self, s: &mut Src, p: &Profile) -> Res {
        let alive = self.alive();
        let op = if alive.is_empty() {
            1
        } else if alive.len() >= p.max_clients {
            s.weighted(&[p.ops[0], 0, p.ops[2], p.ops[3]])
        } else {
            s.weighted(&p.ops)
        };
        match op {
            0 => {
                let n = 1 + s.below(alive.len().min(3));
                let mut who: Vec<usize> = Vec::new();
                for _ in 0..n {
                    let i = *s.pick(&alive);
                    if !who.contains(&i) {
                        who.push(i);
                    }
                }
                let mut streams = Vec::new();
                for i in who {
                    let max = if self.peers[i].encrypted {
                        (self.w.conf.max as usize).min(NOISE_MAX)
                    } else {
                        self.w.conf.max as usize
                    };
                    let k = if s.chance(1, 12) { s.range(p.burst, p.burst * 4) } else { s.range(1, p.burst) };
                    let cmds: Vec<Cmd> = (0..k).map(|_| self.cmd(s, p, max)).collect();
                    streams.push((i, cmds));
                }
                let subs = streams.iter().any(|(_, c)| c.iter().any(|x| matches!(x, Cmd::Sub(..))));
                if subs {
                    // what is still under way belongs to the subscriptions before this
                    self.settle().await?;
                }
                self.burst(s, streams, p.segment).await?;
                if subs || s.chance(1, 2) {
                    self.settle().await?;
                }
            }
            1 => {
                self.settle().await?;
                let gone: Vec<String> = self
                    .peers
                    .iter()
                    .filter(|x| x.c.is_none())
                    .map(|x| x.id.clone())
                    .filter(|i| !self.ids().contains(i))
                    .collect();
                let id = if p.reuse && !gone.is_empty() && s.chance(1, 2) { s.pick(&gone).clone() } else { self.id(s) };
                let enc = self.transport(s, p);
                let props = self.announce(s, p);
                self.connect(&id, enc, props).await?;
                // mostly subscribe at once
                if s.chance(3, 4) {
                    let i = self.peers.len() - 1;
                    let c = self.words.sub(s, 500, p.refused);
                    self.burst(s, vec![(i, vec![c])], p.segment).await?;
                    self.settle().await?;
                }
            }
            2 => {
                self.settle().await?;
                let i = *s.pick(&alive);
                let how = s.draw(6);
                self.end(i, how).await?;
            }
            _ => {
                self.settle().await?;
                let i = *s.pick(&alive);
                let id = self.peers[i].id.clone();
                let enc = self.transport(s, p);
                let props = self.announce(s, p);
                self.connect(&id, enc, props).await?;
            }
        }
        Ok(())
    }
    fn announce(&mut self, s: &mut Src, p: &Profile) -> Props {
        if p.announce && s.chance(1, 2) {
            vec![(0x27, Val::U32(s.range(100, 700) as u32))]
        } else {
            vec![]
        }
    }
}

pub async fn run_history(s: &mut Src, cx: &mut Ctx, p: &Profile, conf: Conf, key: &mut Vec<u8>) -> Res {
    let worker = cx.worker;
    let mut w = World::start(worker, conf.clone()).await?;
    let mut h = History::new(&mut w);
    let steps = s.range(2, p.steps);
    let mut r = Ok(());
    for _ in 0..steps {
        progress(worker);
        r = h.step(s, p).await;
        if r.is_err() {
            break;
        }
    }
    if r.is_ok() {
        r = h.settle().await;
    }
    if r.is_ok() {
        let ids = h.ids();
        r = h.w.registry(&ids).await;
    }
    if r.is_ok() {
        r = h.table(s).await;
    }
    let text = h.log.join(" ; ");
    key.extend_from_slice(text.as_bytes());
    cx.desc(|| format!("{:?} {}", conf, text));
    if h.deliveries > 0 {
        cx.class("messages delivered");
    }
    if h.taken_over > 0 {
        cx.class("identifier taken over");
    }
    if h.ended > 0 {
        cx.class("connection ended");
    }
    if h.refusals > 0 {
        cx.class("refused requests");
    }
    if h.peers.iter().any(|p| p.encrypted) && h.peers.iter().any(|p| !p.encrypted) {
        cx.class("both transports");
    }
    if conf.threads > 0 {
        cx.class("several server threads");
    }
    let d = h.deliveries;
    if d > 0 {
        cx.nontrivial(key);
    }
    r
}
