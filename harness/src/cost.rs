//! Checks of what things cost: processor time held against the size of what is done.
//! The same thing is done at a small and at a sixteen times larger size; what grows in proportion
//! takes sixteen times as long, what grows with the square 256 times.
use crate::bridge::{build, encode};
use crate::codec::decode;
use crate::engine::*;
use crate::refcodec::*;
use apiformes_packet::prelude::*;
use bytes::Buf;

pub const FACTOR: usize = 16;

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// nanoseconds of processor time this thread has used
pub fn cpu() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe {
        clock_gettime(3, &mut t);
    }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}
fn timed(f: &mut dyn FnMut() -> Res) -> Result<u64, Fail> {
    let t = cpu();
    f()?;
    Ok(cpu() - t)
}
/// what the large size may take, from what the small one takes
pub fn bound(small: u64) -> u64 {
    bound_for(small, FACTOR)
}
/// the further the sizes are apart the less a fixed part of the small one matters
pub fn bound_for(small: u64, factor: usize) -> u64 {
    small * factor as u64 * if factor >= 128 { 5 } else { 8 } + 20_000_000
}
/// compares the cost of both sizes; the best of several attempts counts, it is the one that was
/// disturbed the least
pub fn proportion(worker: usize, what: &str, small: &mut dyn FnMut() -> Res, large: &mut dyn FnMut() -> Res) -> Res {
    proportion_by(worker, what, FACTOR, small, large)
}
/// the same of sizes that are `factor` apart
pub fn proportion_by(
    worker: usize,
    what: &str,
    factor: usize,
    small: &mut dyn FnMut() -> Res,
    large: &mut dyn FnMut() -> Res,
) -> Res {
    let mut a = u64::MAX;
    for _ in 0..3 {
        a = a.min(timed(small)?);
    }
    let mut b = u64::MAX;
    for k in 0..3 {
        progress(worker);
        b = b.min(timed(large)?);
        if std::env::var_os("VERIF_SHOW").is_some() {
            eprintln!("{:.1} {} {} {}", b as f64 / bound_for(a, factor) as f64 * 100.0, a, b, what);
        }
        if b <= bound_for(a, factor) {
            return Ok(());
        }
        // far beyond it another attempt, which takes its time, settles nothing
        if factor > FACTOR && b > bound_for(a, factor) * if k == 0 { 4 } else { 2 } {
            break;
        }
        a = a.max(timed(small)?);
    }
    missing(format!(
        "{} takes {} us at one size and {} us at a size {} times as large",
        what,
        a / 1000,
        b / 1000,
        factor
    ))
}

// ---------------------------------------------------------------- C13

/// bytes that are handed out in pieces of at most `step`
struct Parts<'a> {
    b: &'a [u8],
    at: usize,
    step: usize,
}
impl Buf for Parts<'_> {
    fn remaining(&self) -> usize {
        self.b.len() - self.at
    }
    fn chunk(&self) -> &[u8] {
        let end = (self.at - self.at % self.step + self.step).min(self.b.len());
        &self.b[self.at..end]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining());
        self.at += n;
    }
}

const KINDS: usize = 22;
/// a packet of `n` elements of some kind
fn shape(kind: usize, ty: u8, text: &str, n: usize) -> RP {
    let props: Props = (0..n).map(|k| (0x26, Val::Str(format!("{}{}", text, k % 7)))).collect();
    let with = |props: Props| match ty {
        T_CONNECT => RP::Connect { flags: 2, keep: 1, props, id: "c".into(), will: None, user: None, pass: None },
        T_CONNACK => RP::ConnAck { flags: 0, code: 0, props },
        T_PUBLISH => RP::Publish { flags: 0, topic: "t".into(), id: None, props, payload: vec![] },
        T_PUBACK | T_PUBREC | T_PUBREL | T_PUBCOMP => RP::Ack { ty, id: 1, code: 0, props },
        T_SUBSCRIBE => RP::Subscribe { id: 1, props, topics: vec![("t".into(), 0)] },
        T_UNSUBSCRIBE => RP::Unsubscribe { id: 1, props, topics: vec!["t".into()] },
        T_SUBACK | T_UNSUBACK => RP::SubAck { ty, id: 1, props, codes: vec![0] },
        T_WILL => RP::Connect {
            flags: 6,
            keep: 1,
            props: vec![],
            id: "c".into(),
            will: Some(RWill { props, topic: "t".into(), payload: vec![] }),
            user: None,
            pass: None,
        },
        _ => RP::Disc { ty, code: 0, props },
    };
    // for what is limited to 65535 bytes
    let long = |unit: &str| unit.repeat(n.min(65_535 / unit.len()));
    let publish = |topic: String| RP::Publish { flags: 0, topic, id: None, props: vec![], payload: vec![1] };
    let sub = |f: String| RP::Subscribe { id: 1, props: vec![], topics: vec![(f, 0)] };
    match kind {
        0..=6 => with(props),
        7 => RP::Subscribe { id: 1, props: vec![], topics: (0..n).map(|k| (format!("{}x/{}", text, k), 0x20)).collect() },
        8 => RP::Subscribe { id: 1, props: vec![], topics: (0..n).map(|_| ("+".to_string(), 0x20)).collect() },
        9 => RP::Unsubscribe { id: 1, props: vec![], topics: (0..n).map(|k| format!("{}x/{}", text, k)).collect() },
        10 => RP::SubAck { ty: T_SUBACK, id: 1, props: vec![], codes: (0..n).map(|k| R_SUBACK[k % R_SUBACK.len()]).collect() },
        11 => RP::SubAck { ty: T_UNSUBACK, id: 1, props: vec![], codes: vec![0x11; n] },
        12 => RP::Publish { flags: 2, topic: "t".into(), id: Some(1), props: vec![], payload: vec![7; 64 * n] },
        13 => publish(long("a/")),
        14 => publish(long("é")),
        15 => publish(long("/")),
        16 => sub(long("+/")),
        17 => sub(long("\u{10000}")),
        18 => sub(format!("{}#", &long("b/")[2..])),
        19 => with(vec![(0x26, Val::Str(long(if text.is_empty() { "s" } else { text })))]),
        20 => RP::Connect {
            flags: 0xc6,
            keep: 1,
            props: vec![(0x16, Val::Bin(long("b").into_bytes())), (0x15, Val::Str(long("€")))],
            id: long("i"),
            will: Some(RWill { props: vec![], topic: long("w/"), payload: long("p").into_bytes() }),
            user: Some(long("u")),
            pass: Some(long("p").into_bytes()),
        },
        _ => RP::Publish {
            flags: 0,
            topic: "t".into(),
            id: None,
            props: vec![(0x09, Val::Bin(long("c").into_bytes())), (0x08, Val::Str(long("r/"))), (0x03, Val::Str(long("z")))],
            payload: vec![],
        },
    }
}

fn c13_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
    let kind = s.below(KINDS);
    let ty = *s.pick(&[3u8, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16]);
    let text = s.pick(&["", "abc", "a longer text in which nothing repeats", "äöü"]).to_string();
    let n = s.range(1500, if kind >= 13 { 4000 } else { 3000 }) as usize;
    let step = *s.pick(&[1usize, 7, 64, 1000, 65_536]);
    let (p, q) = (shape(kind, ty, &text, n), shape(kind, ty, &text, FACTOR * n));
    let (a, b) = (write(&p), write(&q));
    ctx.desc(|| format!("{} elements of kind {} in packet {} with {:?}: {} and {} bytes", n, kind, ty, text, a.len(), b.len()));
    ctx.nontrivial(&a);
    crate::codec::note(ctx, &p);
    let w = ctx.worker;
    // whole frames
    let dec = |b: &[u8]| match decode(b).0 {
        Ok(p) => Ok(p),
        Err(e) => broken(format!("a legal frame of {} bytes is rejected: {:?}", b.len(), e)),
    };
    proportion(w, "decoding", &mut || dec(&a).map(drop), &mut || dec(&b).map(drop))?;
    let parts = |b: &[u8]| match Packet::from_bytes(&mut Parts { b, at: 0, step }) {
        Ok(_) => Ok(()),
        Err(e) => broken(format!("a legal frame in pieces of {} bytes is rejected: {:?}", step, e)),
    };
    proportion(w, &format!("decoding in pieces of {} bytes", step), &mut || parts(&a), &mut || parts(&b))?;
    // damaged at the end, cut off at the end
    let cut = 1 + s.below(20);
    let damage = |b: &[u8]| {
        let mut b = b.to_vec();
        let at = b.len() - cut.min(b.len());
        b[at] = 0xff;
        b
    };
    let (a2, b2) = (damage(&a), damage(&b));
    proportion(w, "rejecting", &mut || Ok(drop(decode(&a2))), &mut || Ok(drop(decode(&b2))))?;
    let (a2, b2) = (&a[..a.len() - cut], &b[..b.len() - cut]);
    proportion(w, "recognising what is incomplete", &mut || Ok(drop(decode(a2))), &mut || Ok(drop(decode(b2))))?;
    // building, reading, writing
    let make = |p: &RP| build(p).map_err(|e| Fail::Broken(format!("a legal packet is not built: {}", e)));
    proportion(w, "building", &mut || make(&p).map(drop), &mut || make(&q).map(drop))?;
    for (how, x, y) in [("built", make(&p)?, make(&q)?), ("decoded", dec(&a)?, dec(&b)?)] {
        proportion(
            w,
            &format!("encoding what was {}", how),
            &mut || Ok(drop(encode(&x))),
            &mut || Ok(drop(encode(&y))),
        )?;
        // once for every element would be in proportion, and is no more than that
        proportion(w, "the size of the frame", &mut || size(&x, a.len()), &mut || size(&y, b.len()))?;
        proportion(w, "reading all there is", &mut || look(&x), &mut || look(&y))?;
        proportion(w, "a copy", &mut || Ok(drop(x.clone())), &mut || Ok(drop(y.clone())))?;
    }
    Ok(())
}
fn size(p: &Packet, want: usize) -> Res {
    crate::check!(p.frame_len() == want, "frame_len() is {} instead of {}", p.frame_len(), want);
    Ok(())
}
/// the same of sizes much further apart, for what is small enough
fn c13_far(s: &mut Src, ctx: &mut Ctx) -> Res {
    const FAR: usize = 256;
    let kind = *s.pick(&[10, 11, 8, 7, 9, 0]);
    let ty = *s.pick(&[3u8, 1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 16]);
    let n = s.range(500, if kind == 10 || kind == 11 { 2000 } else { 700 }) as usize;
    let (p, q) = (shape(kind, ty, "", n), shape(kind, ty, "", FAR * n));
    let (a, b) = (write(&p), write(&q));
    ctx.desc(|| format!("{} elements of kind {} in packet {}: {} and {} bytes", n, kind, ty, a.len(), b.len()));
    ctx.nontrivial(&a);
    let w = ctx.worker;
    let dec = |b: &[u8]| match decode(b).0 {
        Ok(p) => Ok(p),
        Err(e) => broken(format!("a legal frame of {} bytes is rejected: {:?}", b.len(), e)),
    };
    let make = |p: &RP| build(p).map_err(|e| Fail::Broken(format!("a legal packet is not built: {}", e)));
    proportion_by(w, "decoding", FAR, &mut || dec(&a).map(drop), &mut || dec(&b).map(drop))?;
    proportion_by(w, "building", FAR, &mut || make(&p).map(drop), &mut || make(&q).map(drop))?;
    let (x, y) = (make(&p)?, make(&q)?);
    proportion_by(w, "encoding", FAR, &mut || Ok(drop(encode(&x))), &mut || Ok(drop(encode(&y))))?;
    proportion_by(w, "reading all there is", FAR, &mut || look(&x), &mut || look(&y))
}
/// visits everything repeated
fn look(p: &Packet) -> Res {
    let n = match p {
        Packet::Connect(c) => c.props_iter().count() + c.will().map(|w| w.props_iter().count()).unwrap_or(0),
        Packet::ConnAck(c) => c.props_iter().count(),
        Packet::Publish(c) => c.props_iter().count() + c.payload().len(),
        Packet::PubAck(c) => c.props_iter().count(),
        Packet::PubRec(c) => c.props_iter().count(),
        Packet::PubRel(c) => c.props_iter().count(),
        Packet::PubComp(c) => c.props_iter().count(),
        Packet::Subscribe(c) => c.props_iter().count() + c.topics_iter().count(),
        Packet::SubAck(c) => c.props_iter().count() + c.reason_codes().len(),
        Packet::Unsubscribe(c) => c.props_iter().count() + c.topics_iter().count(),
        Packet::UnsubAck(c) => c.props_iter().count() + c.reason_codes().len(),
        Packet::Disconnect(c) => c.props_iter().count(),
        Packet::Auth(c) => c.props_iter().count(),
        _ => 0,
    };
    std::hint::black_box(n);
    Ok(())
}

pub fn c13() -> Check {
    let mut c = Check {
        id: "C13",
        rule: "a packet was built, encoded, decoded whole and in pieces, read, copied and rejected at two sizes and the processor time compared; distinct by its frame",
        subs: vec![Sub::rand("sizes", 600, 15_000, c13_sizes), Sub::rand("far", 60, 2_000, c13_far)],
        ..crate::codec::codec_check()
    };
    c.confirm = 2;
    c.shrink_ms = 15_000;
    c.assumptions.push("processor time of the thread as the operating system accounts it; the best of three attempts counts, eight times the proportional time and 20 ms are allowed, less where the sizes are further apart");
    c
}

// ---------------------------------------------------------------- T05

#[cfg(feature = "broker")]
pub use table::{t05, t06};
#[cfg(feature = "broker")]
mod table {
    use super::*;
    use crate::alloc;
    use crate::topics::now;
    use apiformes_server_lib::{SubscriptionFlags, VerifTopicsTable as Table};
    use std::sync::Arc;

    /// what a table is filled with, at a size
    fn fill(kind: usize, n: usize) -> Vec<(Arc<str>, Arc<str>)> {
        let s = |t: String| -> Arc<str> { Arc::from(t) };
        match kind {
            // many filters of one client, on one level, on two, with wildcards
            0 => (0..n).map(|k| (s("c".into()), s(format!("f{}", k)))).collect(),
            1 => (0..n).map(|k| (s("c".into()), s(format!("f{}/g{}", k % 30, k)))).collect(),
            2 => (0..n).map(|k| (s("c".into()), s(format!("f{}/+/#", k)))).collect(),
            // many clients with one filter, with one each, with the wildcards
            3 => (0..n).map(|k| (s(format!("c{}", k)), s("f0".into()))).collect(),
            4 => (0..n).map(|k| (s(format!("c{}", k)), s(format!("f{}", k)))).collect(),
            5 => (0..n).map(|k| (s(format!("c{}", k)), s(["#", "+", "f0/#", "f0"][k % 4].into()))).collect(),
            // one filter again and again
            6 => (0..n).map(|_| (s("c".into()), s("f0".into()))).collect(),
            // levels
            7 => vec![(s("c".into()), s(vec!["f0"; n].join("/"))), (s("d".into()), s(vec!["+"; n].join("/"))), (s("e".into()), s("f0/#".into()))],
            // everything that matches one topic
            _ => {
                let d = n.ilog2() as usize;
                (0..1usize << d)
                    .map(|k| {
                        let f = (0..d).map(|i| if k >> i & 1 == 0 { "f0" } else { "+" }).collect::<Vec<_>>().join("/");
                        (s(format!("c{}", k % 50)), s(f))
                    })
                    .collect()
            }
        }
    }
    fn topic(kind: usize, n: usize) -> String {
        match kind {
            1 => "f0/g0".into(),
            2 => "f0/x/y".into(),
            7 => vec!["f0"; n].join("/"),
            8 => vec!["f0"; n.ilog2() as usize].join("/"),
            _ => "f0".into(),
        }
    }
    /// all of it once, with the removal of a kind
    fn life(kind: usize, n: usize, how: u64, lookups: usize) -> Res {
        let f = fill(kind, n);
        let t = topic(kind, n);
        let table = Table::new();
        now(async {
            for (c, f) in &f {
                table.subscribe(c.clone(), f.clone(), QoS::QoS0, SubscriptionFlags::empty()).await;
            }
            for _ in 0..lookups {
                let r = table.get_all_subscribed(&t).await;
                crate::check!(!r.is_empty(), "nobody is reported for {:?}", crate::hist::clip(&t));
            }
            match how {
                0 => {
                    for (c, f) in &f {
                        table.unsubscribe(c.clone(), f).await;
                    }
                }
                1 => {
                    for (c, f) in f.iter().rev() {
                        table.unsubscribe(c.clone(), f).await;
                    }
                }
                2 => {
                    for (c, _) in &f {
                        table.unsubscribe_all(c.clone()).await;
                    }
                }
                _ => return Ok(()),
            }
            let r = table.get_all_subscribed(&t).await;
            crate::check!(r.is_empty(), "somebody is reported for {:?} after everything was removed", crate::hist::clip(&t));
            Ok(())
        })?
    }
    fn t05_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
        let kind = s.below(9);
        let how = s.draw(4);
        let n = match kind {
            8 => 256,
            7 => s.range(800, 2000) as usize,
            _ => s.range(600, 2000) as usize,
        };
        let lookups = s.range(1, 5) as usize;
        ctx.desc(|| format!("{} entries of kind {}, {} lookups, removal {}", n, kind, lookups, how));
        ctx.nontrivial(format!("{} {} {} {}", kind, how, n, lookups).as_bytes());
        proportion(
            ctx.worker,
            &format!("a table of kind {} with {} lookups and removal {}", kind, lookups, how),
            &mut || life(kind, n, how, lookups),
            &mut || life(kind, FACTOR * n, how, lookups),
        )?;
        // a lookup for every entry of a table that stays the same
        let many = s.range(200, 500) as usize;
        let small = s.range(10, 30) as usize;
        proportion(
            ctx.worker,
            &format!("{} lookups in a table of kind {}", many, kind),
            &mut || life(kind, small, 3, many),
            &mut || life(kind, small, 3, FACTOR * many),
        )
    }
    /// how far apart the sizes of busy tables are
    const BUSY: usize = 120;
    /// something done once for every entry of a table that keeps its size, beside all the others
    fn busy(kind: usize, n: usize, what: usize) -> Res {
        let s = |t: String| -> Arc<str> { Arc::from(t) };
        let c = |k: usize| s(if kind == 2 { format!("c{}", k) } else { "c".into() });
        let f = |k: usize| match kind {
            0 | 2 => format!("f{}", k),
            1 => format!("f{}/g{}", k % 30, k),
            3 => format!("f{}/+/#", k),
            _ => format!("f/g/h{}/x", k),
        };
        let t = |k: usize| match kind {
            3 => format!("f{}/x/y", k),
            _ => f(k),
        };
        let table = Table::new();
        let none = SubscriptionFlags::empty();
        now(async {
            for k in 0..n {
                table.subscribe(c(k), s(f(k)), QoS::QoS0, none.clone()).await;
            }
            for k in 0..n {
                match what {
                    0 => {
                        let r = table.get_all_subscribed(&t(k)).await;
                        crate::check!(r.len() == 1, "{} entries are reported for {:?}", r.len(), t(k));
                    }
                    1 => {
                        let r = table.get_all_subscribed(&format!("n{}", t(k))).await;
                        crate::check!(r.is_empty(), "{} entries are reported for {:?}", r.len(), t(k));
                    }
                    2 => {
                        // what is not held
                        table.unsubscribe(c(k), &s(format!("{}/n", f(k)))).await;
                        table.unsubscribe(s("d".into()), &s(f(k))).await;
                    }
                    3 => {
                        // comes and goes
                        let x = s(format!("{}/n", f(k)));
                        table.subscribe(s("d".into()), x.clone(), QoS::QoS1, none.clone()).await;
                        table.unsubscribe(s("d".into()), &x).await;
                    }
                    4 => {
                        let d = s(format!("d{}", k));
                        table.subscribe(d.clone(), s(f(k)), QoS::QoS1, none.clone()).await;
                        table.unsubscribe_all(d).await;
                    }
                    5 => {
                        let x = s(f(k));
                        table.unsubscribe(c(k), &x).await;
                        table.subscribe(c(k), x, QoS::QoS2, none.clone()).await;
                    }
                    _ => table.unsubscribe_all(s(format!("n{}", k))).await,
                }
            }
            Ok(())
        })?
    }
    fn t05_busy(s: &mut Src, ctx: &mut Ctx) -> Res {
        let (kind, what) = (s.below(5), s.below(7));
        let n = s.range(150, 300) as usize;
        ctx.desc(|| format!("{} entries of kind {}, as many times operation {}", n, kind, what));
        ctx.nontrivial(format!("{} {} {}", kind, what, n).as_bytes());
        proportion_by(
            ctx.worker,
            &format!("operation {} as often as there are entries of kind {}", what, kind),
            BUSY,
            &mut || busy(kind, n, what),
            &mut || busy(kind, BUSY * n, what),
        )
    }
    pub fn t05() -> Check {
        let mut c = Check {
            id: "T05",
            rule: "a table was filled, looked into and emptied at two sizes and the processor time compared; distinct by the kind and size",
            subs: vec![Sub::rand("sizes", 500, 15_000, t05_sizes), Sub::rand("busy", 120, 4_000, t05_busy)],
            ..crate::topics::t01()
        };
        c.confirm = 2;
        c.shrink_ms = 15_000;
        c.assumptions.push("processor time of the thread as the operating system accounts it; the best of three attempts counts, eight times the proportional time and 20 ms are allowed, less where the sizes are further apart");
        c
    }

    // ------------------------------------------------------------ T06

    /// entries of a table by filters made of words; "@" stands for a word of this round
    #[derive(Clone, Debug)]
    enum Op {
        Sub(usize, String),
        Unsub(usize, String),
        Leave(usize),
        Look(String),
    }
    fn level(s: &mut Src, fresh: u64) -> String {
        match s.weighted(&[fresh, 6, 2, 1]) {
            0 => format!("{}@", ["", "x", "é"][s.below(3)]),
            1 => s.pick(&["a", "b", "c"]).to_string(),
            2 => "+".into(),
            _ => "".into(),
        }
    }
    fn filter(s: &mut Src, fresh: u64) -> String {
        let n = match s.weighted(&[12, 3, 1]) {
            0 => s.range(1, 4),
            1 => s.range(4, 20),
            _ => s.range(20, 300),
        };
        let mut l: Vec<String> = (0..n).map(|_| level(s, fresh)).collect();
        if s.chance(1, 4) {
            l.push("#".into());
        }
        let f = l.join("/");
        if f.is_empty() {
            "a".into()
        } else {
            f
        }
    }
    fn concrete(f: &str) -> String {
        f.split('/').map(|l| if l == "+" || l == "#" { "a" } else { l }).collect::<Vec<_>>().join("/")
    }
    /// one round of operations that leaves nothing behind
    fn plan(s: &mut Src, clients: usize, fresh: u64) -> Vec<Op> {
        let mut ops = Vec::new();
        let mut held: Vec<(usize, String)> = Vec::new();
        for _ in 0..s.range(1, 40) {
            match s.weighted(&[10, 4, 2, 1, 2]) {
                0 => {
                    let c = s.below(clients);
                    let f = if !held.is_empty() && s.chance(1, 4) { s.pick(&held).1.clone() } else { filter(s, fresh) };
                    held.push((c, f.clone()));
                    ops.push(Op::Sub(c, f));
                }
                1 if !held.is_empty() => {
                    let (c, f) = held.swap_remove(s.below(held.len()));
                    held.retain(|h| *h != (c, f.clone()));
                    ops.push(Op::Unsub(c, f));
                }
                2 => ops.push(Op::Unsub(s.below(clients), filter(s, fresh))),
                3 => {
                    let c = s.below(clients);
                    held.retain(|h| h.0 != c);
                    ops.push(Op::Leave(c));
                }
                _ => ops.push(Op::Look(concrete(&filter(s, fresh)))),
            }
        }
        // what an UNSUBSCRIBE of something not held has hit is gone as well, removing it once more does no harm
        while !held.is_empty() {
            if s.chance(1, 3) {
                let c = s.pick(&held).0;
                held.retain(|h| h.0 != c);
                ops.push(Op::Leave(c));
            } else {
                let (c, f) = held.swap_remove(s.below(held.len()));
                held.retain(|h| *h != (c, f.clone()));
                ops.push(Op::Unsub(c, f));
            }
        }
        ops
    }
    fn t06_rounds(s: &mut Src, ctx: &mut Ctx) -> Res {
        let clients = s.range(1, 6) as usize;
        let fresh = s.draw(12);
        let renamed = s.chance(1, 2);
        // subscriptions that stay
        let stay: Vec<String> = (0..s.below(6)).map(|_| filter(s, 0)).collect();
        let ops = plan(s, clients, fresh);
        ctx.desc(|| format!("{:?} stay, {} clients ({}), each round: {:?}", stay, clients, if renamed { "new ones every round" } else { "the same" }, ops));
        let before = alloc::live();
        let table = Table::new();
        const WINDOW: usize = 8;
        let mut left: Vec<isize> = Vec::with_capacity(200);
        let mut grows = 0;
        let r: Res = now(async {
            for f in &stay {
                table.subscribe("stay".into(), Arc::from(f.as_str()), QoS::QoS0, SubscriptionFlags::empty()).await;
            }
            while grows < 6 {
                for _ in 0..if left.is_empty() { WINDOW + 2 } else { WINDOW } {
                    let k = left.len();
                    let name = |c: &usize| -> Arc<str> { Arc::from(if renamed { format!("c{}-{:05}", c, k) } else { format!("c{}", c) }) };
                    let put = |f: &String| f.replace('@', &format!("{:05}", k));
                    for op in &ops {
                        match op {
                            Op::Sub(c, f) => table.subscribe(name(c), put(f).into(), QoS::QoS0, SubscriptionFlags::empty()).await,
                            Op::Unsub(c, f) => table.unsubscribe(name(c), &put(f)).await,
                            Op::Leave(c) => table.unsubscribe_all(name(c)).await,
                            Op::Look(t) => drop(table.get_all_subscribed(&put(t)).await),
                        }
                    }
                    for f in &stay {
                        let t = concrete(f);
                        let got = table.get_all_subscribed(&t).await;
                        crate::check!(
                            got.len() == 1 && got.contains_key("stay"),
                            "{:?} are reported for {:?} after round {}, only the one subscribed to {:?} remains",
                            got.keys().collect::<Vec<_>>(),
                            crate::hist::clip(&t),
                            k,
                            crate::hist::clip(f)
                        );
                    }
                    left.push(alloc::live() - before);
                }
                let n = left.len();
                if n > WINDOW + 2 {
                    if left[n - 1] <= left[n - 1 - WINDOW] {
                        break;
                    }
                    grows += 1;
                }
            }
            Ok(())
        })?;
        r?;
        if grows >= 6 {
            return broken(format!(
                "the memory the table uses keeps growing although every round removes what it has subscribed: {:?} bytes",
                left.iter().step_by(WINDOW).collect::<Vec<_>>()
            ));
        }
        if ops.iter().any(|o| matches!(o, Op::Sub(..))) {
            ctx.nontrivial(format!("{} {} {:?} {:?}", clients, renamed, stay, ops).as_bytes());
        }
        Ok(())
    }
    fn t06_sizes(s: &mut Src, ctx: &mut Ctx) -> Res {
        let kind = s.below(9);
        let n = match kind {
            8 => 1 << s.range(1, 12),
            7 => s.range(1, 8000) as usize,
            _ => s.range(1, 6000) as usize,
        };
        ctx.desc(|| format!("{} entries of kind {}", n, kind));
        ctx.nontrivial(format!("{} {}", kind, n).as_bytes());
        let f = fill(kind, n);
        let levels: usize = f.iter().map(|(c, f)| c.len() + f.len() + 2 * (f.split('/').count() + 1)).sum();
        let before = alloc::live();
        let table = Table::new();
        let r: Res = now(async {
            for (c, f) in &f {
                table.subscribe(c.clone(), f.clone(), QoS::QoS0, SubscriptionFlags::empty()).await;
            }
            Ok(())
        })?;
        r?;
        let used = alloc::live() - before;
        if std::env::var_os("VERIF_SHOW").is_some() {
            eprintln!("{} {} {}", used as usize / levels, kind, n);
        }
        crate::check!(
            used as usize <= 8192 + 800 * levels,
            "{} bytes are used for {} entries of kind {} with {} levels and characters",
            used,
            f.len(),
            kind,
            levels
        );
        drop(table);
        let left = alloc::live() - before;
        crate::check!(left <= 0, "{} of {} bytes are still used after the table is gone", left, used);
        Ok(())
    }
    pub fn t06() -> Check {
        let mut c = Check {
            id: "T06",
            rule: "rounds of operations that remove all they add, on a table that may hold other subscriptions as well, and tables of nine kinds filled and dropped; the memory in use is compared. Non-trivial: something was subscribed, distinct by the operations or the size",
            subs: vec![Sub::rand("rounds", 30_000, 400_000, t06_rounds), Sub::rand("sizes", 2_000, 20_000, t06_sizes)],
            ..crate::topics::t01()
        };
        c.confirm = 0;
        c.assumptions.push("memory as requested from the allocator by the thread of the case");
        c
    }
}

// ---------------------------------------------------------------- B22

#[cfg(feature = "broker")]
pub use served::b22;
#[cfg(feature = "broker")]
mod served {
    use super::*;
    use crate::net::*;

    const KINDS: [&str; 12] = [
        "messages of one client to another",
        "messages of one client to nobody",
        "bytes of a packet in pieces",
        "filters in one SUBSCRIBE",
        "SUBSCRIBE packets",
        "connections that come and go",
        "connections that come and stay",
        "takeovers of one identifier",
        "subscribers of one message",
        "messages for a client that does not read yet",
        "filters of one client that goes",
        "properties of one message",
    ];
    /// the base size of each kind
    const BASE: [u64; 12] = [400, 600, 60, 200, 200, 16, 16, 16, 16, 400, 200, 250];

    /// packets above this only appear among those far apart
    const FAR_LIMIT: u32 = 1 << 20;
    /// how far those are apart
    const FAR: usize = 256;
    /// and pieces, that take longest
    const FAR_PIECES: usize = 128;
    /// the kinds that are served at sizes that far apart, by the clients alone
    const FAR_KINDS: [usize; 9] = [0, 1, 2, 2, 3, 4, 9, 10, 11];

    /// everything of one size, by a server of its own
    async fn serve(worker: usize, conf: &Conf, kind: usize, n: usize, enc: bool) -> Res {
        let mut w = World::start(worker, conf.clone()).await?;
        let mut a = w.client(enc, "a").await?;
        match kind {
            0 | 9 => {
                let mut b = w.client(enc, "b").await?;
                b.subscribe(1, &[("t/#", 0x20)]).await?;
                if kind == 9 {
                    b.pause();
                }
                let m = write(&publish("t/x", &[7; 60]));
                for _ in 0..n / 20 {
                    let mut out = Vec::new();
                    for _ in 0..20 {
                        out.extend(a.seal(&m));
                    }
                    a.raw(&out).await?;
                }
                a.fence().await?;
                b.unpause();
                b.fence().await?;
                let got = b.take().len();
                crate::check!(got == n / 20 * 20, "{} of {} messages arrive", got, n / 20 * 20);
                b.close().await;
            }
            1 => {
                let m = write(&publish("nobody/x", &[7; 60]));
                for _ in 0..n / 20 {
                    let mut out = Vec::new();
                    for _ in 0..20 {
                        out.extend(a.seal(&m));
                    }
                    a.raw(&out).await?;
                }
            }
            2 => {
                // the same with every piece arriving on its own
                let most = if enc { 65_400 } else { conf.max as usize - 100 };
                let each = if conf.max > FAR_LIMIT { 2000 } else { 130 };
                let m = a.seal(&write(&publish("nobody/x", &vec![7; (n * each).min(most)])));
                let step = m.len().div_ceil(n);
                for p in m.chunks(step) {
                    a.raw(p).await?;
                    tokio::time::sleep(std::time::Duration::from_micros(200)).await;
                }
            }
            3 | 10 => {
                let t: Vec<(String, u8)> = (0..n).map(|k| (format!("f/{}", k), 0x20)).collect();
                let p = RP::Subscribe { id: 5, props: vec![], topics: t };
                a.send(&p).await?;
                a.suback(5, &vec![0; n]).await?;
                if kind == 10 {
                    a.close().await;
                    w.registry(&[]).await?;
                    return w.healthy().await;
                }
            }
            4 => {
                for k in 0..n {
                    a.send(&subscribe(9, &[(&format!("f/{}", k), 0x20)])).await?;
                }
                a.fence().await?;
                let got = a.take().len();
                crate::check!(got == n, "{} of {} SUBACKs arrive", got, n);
            }
            5 | 7 => {
                for k in 0..n {
                    let id = if kind == 5 { format!("g{}", k) } else { "g".to_string() };
                    let mut c = w.client(enc, &id).await?;
                    c.subscribe(1, &[("t/#", 0x20)]).await?;
                    if kind == 5 || k % 2 == 0 {
                        c.close().await;
                    } else {
                        c.reset();
                    }
                }
            }
            6 | 8 => {
                let mut all = Vec::new();
                for k in 0..n {
                    let mut c = w.client(enc, &format!("g{}", k)).await?;
                    if kind == 8 {
                        c.subscribe(1, &[("t/#", 0x20)]).await?;
                    }
                    all.push(c);
                }
                if kind == 8 {
                    a.send(&publish("t/x", b"y")).await?;
                    for c in &mut all {
                        c.next("the message").await?;
                    }
                }
                for c in all {
                    c.close().await;
                }
            }
            _ => {
                let mut b = w.client(enc, "b").await?;
                b.subscribe(1, &[("t/#", 0x20)]).await?;
                let props = (0..n).map(|k| (0x26, Val::Str(k.to_string()))).collect();
                a.send(&RP::Publish { flags: 0, topic: "t/x".into(), id: None, props, payload: vec![] }).await?;
                b.next("the message").await?;
                b.close().await;
            }
        }
        a.fence().await?;
        a.close().await;
        w.registry(&[]).await
    }
    fn b22_sizes(s: &mut Src, cx: &mut Ctx) -> Res {
        let kind = s.below(KINDS.len());
        let max = *s.pick(&[65_536, 1 << 20]);
        let enc = s.chance(1, 2);
        compare(s, cx, kind, max, enc, FACTOR)
    }
    fn b22_far(s: &mut Src, cx: &mut Ctx) -> Res {
        let kind = *s.pick(&FAR_KINDS);
        let max = if kind == 2 { 32 << 20 } else { 1 << 20 };
        compare(s, cx, kind, max, false, if kind == 2 { FAR_PIECES } else { FAR })
    }
    fn compare(s: &mut Src, cx: &mut Ctx, kind: usize, max: u32, enc: bool, factor: usize) -> Res {
        let conf = Conf {
            keep: 0,
            max,
            queue: *s.pick(&[1 << 20, 0, 3000, 100_000]),
            strict: s.chance(1, 2),
            threads: 0,
            ..Conf::plain()
        };
        let n = (BASE[kind] + s.draw(BASE[kind])) as usize / 20 * 20;
        let n = if n == 0 { (BASE[kind] + s.draw(BASE[kind])) as usize } else { n };
        in_runtime(cx, 0, async |cx: &mut Ctx| {
            let mut small = u64::MAX;
            let mut large = u64::MAX;
            for k in 0..if factor > FACTOR { 3 } else { 5 } {
                let t = cpu();
                serve(cx.worker, &conf, kind, n, enc).await?;
                let t = cpu() - t;
                small = if k == 0 { t } else { small.max(t) };
                let t = cpu();
                serve(cx.worker, &conf, kind, factor * n, enc).await?;
                large = large.min(cpu() - t);
                if std::env::var_os("VERIF_SHOW").is_some() {
                    eprintln!("{:.1} {} {} {} x{}", large as f64 / bound_for(small, factor) as f64 * 100.0, small, large, KINDS[kind], factor);
                }
                if large <= bound_for(small, factor) || large > bound_for(small, factor) * if k == 0 { 4 } else { 2 } {
                    break;
                }
            }
            if large > bound_for(small, factor) {
                return missing(format!(
                    "serving {} {} takes {} us, {} of them {} us",
                    n,
                    KINDS[kind],
                    small / 1000,
                    factor * n,
                    large / 1000
                ));
            }
            cx.class(KINDS[kind]);
            cx.desc(|| format!("{:?} {} {} encrypted {} and {} times as many", conf, n, KINDS[kind], enc, factor));
            cx.nontrivial(format!("{:?}{}{}{}{}", conf, n, kind, enc, factor).as_bytes());
            Ok(())
        })
    }
    pub fn b22() -> Check {
        let mut c = crate::broker::base(
            "B22",
            "the same was served at two sizes, each by a server of its own, and the processor time of broker and test clients together compared; counted by configuration, kind and size",
            vec![Sub::rand("sizes", 240, 6_000, b22_sizes), Sub::rand("far", 40, 600, b22_far)],
        );
        c.shrink_ms = 15_000;
        c.assumptions.push("processor time of the one thread that runs broker and clients; the best of five attempts counts, eight times the proportional time and 20 ms are allowed, less where the sizes are further apart");
        c
    }
}
