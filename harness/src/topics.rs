//! T01..T04: the topic table against a naive matcher.
use crate::check;
use crate::engine::*;
use apiformes_packet::prelude::QoS;
use apiformes_server_lib::{SubscriptionFlags, VerifTopicsTable as Table};
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

// ---------------------------------------------------------------- MQTT matching, naive

pub fn topic_matches(filter: &str, topic: &str) -> bool {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    // 4.7.2: topics starting with $ are hidden from filters starting with a wildcard
    if topic.starts_with('$') && (f[0] == "#" || f[0] == "+") {
        return false;
    }
    let mut i = 0;
    loop {
        if i < f.len() && f[i] == "#" {
            return true; // the parent level and everything below
        }
        match (i < f.len(), i < t.len()) {
            (false, false) => return true,
            (true, true) => {
                if f[i] != "+" && f[i] != t[i] {
                    return false;
                }
            }
            _ => return false,
        }
        i += 1;
    }
}

pub type Held = BTreeMap<(usize, String), (u8, u8)>;

fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::QoS0,
        1 => QoS::QoS1,
        _ => QoS::QoS2,
    }
}
fn qos_num(q: QoS) -> u8 {
    match q {
        QoS::QoS0 => 0,
        QoS::QoS1 => 1,
        QoS::QoS2 => 2,
    }
}
fn cid(i: usize) -> Arc<str> {
    // identifiers that are prefixes of each other
    match i {
        0 => Arc::from("a"),
        1 => Arc::from("aa"),
        2 => Arc::from(""),
        3 => Arc::from("+"),
        n => Arc::from(format!("client-{}", n)),
    }
}
fn cnum(s: &str) -> Option<usize> {
    (0..4).find(|i| &*cid(*i) == s).or_else(|| s.strip_prefix("client-")?.parse().ok())
}
pub const N_CLIENTS: usize = 6;

/// what a lookup returned: client -> (qos, flags)
pub type Seen = BTreeMap<usize, (u8, u8)>;
fn convert<'a>(
    it: impl Iterator<Item = (&'a Arc<str>, &'a apiformes_server_lib::SubscriptionInfo)>,
) -> Result<Seen, Fail> {
    let mut out = Seen::new();
    for (c, i) in it {
        let n = match cnum(c) {
            Some(n) => n,
            None => return broken(format!("lookup reports a client that does not exist: {:?}", c)),
        };
        if out.insert(n, (qos_num(i.qos), i.flags.bits())).is_some() {
            return broken(format!("lookup reports client {} twice", n));
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- generators

const LEVELS: &[&str] = &["a", "b", "", "$s", "aa", "é", "A", " ", "a.b", "c", "$", "ab", "0"];

fn gen_level(s: &mut Src) -> String {
    if s.chance(1, 40) {
        return "x".repeat(s.range(1, 300) as usize);
    }
    let i = s.weighted(&[30, 20, 12, 6, 4, 2, 2, 2, 2, 4, 2, 2, 2]);
    LEVELS[i].to_string()
}
/// a level longer than most, in which characters begin at any offset
fn long_level(s: &mut Src) -> String {
    let mut t = "x".repeat(s.below(4));
    let c = *s.pick(&['a', 'é', '€', '\u{10000}']);
    let n = if s.chance(4, 5) { s.range(3, 20) } else { s.range(60, 90) / c.len_utf8() as u64 };
    t.extend(std::iter::repeat(c).take(n as usize));
    t
}
pub fn gen_topic(s: &mut Src) -> String {
    loop {
        let n = 1 + s.weighted(&[25, 35, 25, 10, 4, 2]);
        let mut v: Vec<String> = (0..n).map(|_| gen_level(s)).collect();
        if s.chance(1, 12) {
            let at = s.below(v.len());
            v[at] = long_level(s);
        }
        let t = v.join("/");
        if !t.is_empty() {
            return t;
        }
        if n == 1 {
            return "a".into();
        }
    }
}
pub fn gen_filter(s: &mut Src) -> String {
    let mut v: Vec<String> = gen_topic(s).split('/').map(|x| x.to_string()).collect();
    for l in v.iter_mut() {
        if s.chance(1, 4) {
            *l = "+".into();
        }
    }
    if s.chance(1, 4) {
        if s.chance(1, 2) {
            v.push("#".into());
        } else {
            *v.last_mut().unwrap() = "#".into();
        }
    }
    v.join("/")
}
/// a filter close to a given one
fn near_filter(s: &mut Src, f: &str) -> String {
    let mut v: Vec<String> = f.split('/').map(|x| x.to_string()).collect();
    match s.below(7) {
        0 => {}
        1 => {
            let i = s.below(v.len());
            if v[i] != "#" {
                v[i] = "+".into();
            }
        }
        2 => {
            let i = s.below(v.len());
            v[i] = gen_level(s);
            // a hash must stay last
        }
        3 => {
            if v.last().unwrap() != "#" {
                v.push("#".into());
            } else {
                v.pop();
            }
        }
        4 => {
            if v.last().unwrap() == "#" {
                *v.last_mut().unwrap() = gen_level(s);
            }
            v.push(gen_level(s));
        }
        5 => {
            v.pop();
        }
        _ => {
            v.insert(0, "".into());
        }
    }
    let f = v.join("/");
    if f.is_empty() {
        "a".into()
    } else {
        f
    }
}
/// a topic that matches the filter, or nearly does
pub fn near_topic(s: &mut Src, f: &str) -> String {
    let mut v: Vec<String> = Vec::new();
    for l in f.split('/') {
        match l {
            "+" => v.push(gen_level(s)),
            "#" => {
                for _ in 0..s.below(3) {
                    v.push(gen_level(s));
                }
            }
            l => v.push(l.to_string()),
        }
    }
    match s.below(8) {
        0 if !v.is_empty() => {
            v.pop();
        }
        1 => v.push(gen_level(s)),
        2 if !v.is_empty() => {
            let i = s.below(v.len());
            v[i] = gen_level(s);
        }
        _ => {}
    }
    let t = v.join("/");
    if t.is_empty() {
        "a".into()
    } else {
        t
    }
}

#[derive(Clone, Debug)]
enum Op {
    Sub(usize, String, u8, u8),
    Unsub(usize, String),
    UnsubAll(usize),
    Look(String),
}

struct Pool {
    filters: Vec<String>,
}
impl Pool {
    fn filter(&mut self, s: &mut Src) -> String {
        let f = if self.filters.is_empty() || s.chance(1, 4) {
            gen_filter(s)
        } else {
            let b = s.pick(&self.filters).clone();
            if s.chance(1, 2) {
                b
            } else {
                near_filter(s, &b)
            }
        };
        self.filters.push(f.clone());
        f
    }
    fn known_filter(&mut self, s: &mut Src) -> String {
        if self.filters.is_empty() || s.chance(1, 12) {
            return self.filter(s);
        }
        let b = s.pick(&self.filters).clone();
        if s.chance(1, 6) {
            near_filter(s, &b)
        } else {
            b
        }
    }
    fn topic(&self, s: &mut Src) -> String {
        if self.filters.is_empty() || s.chance(1, 8) {
            gen_topic(s)
        } else {
            let f = s.pick(&self.filters).clone();
            near_topic(s, &f)
        }
    }
}

fn gen_op(s: &mut Src, p: &mut Pool, weights: &[u64; 4], clients: usize) -> Op {
    match s.weighted(weights) {
        0 => Op::Sub(s.below(clients), p.filter(s), s.weighted(&[5, 2, 2]) as u8, s.below(4) as u8),
        1 => Op::Look(p.topic(s)),
        2 => Op::Unsub(s.below(clients), p.known_filter(s)),
        _ => Op::UnsubAll(s.below(clients)),
    }
}

// ---------------------------------------------------------------- sequential histories

/// runs a future that never has to wait
pub fn now<T>(f: impl Future<Output = T>) -> Result<T, Fail> {
    struct W;
    impl Wake for W {
        fn wake(self: Arc<Self>) {}
    }
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(W));
    let mut cx = Context::from_waker(&w);
    for _ in 0..10_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Ok(v);
        }
        std::thread::yield_now();
    }
    broken("a topic table operation never finishes although nothing runs beside it")
}

fn apply(t: &Table, m: &mut Held, op: &Op) -> Result<Option<Seen>, Fail> {
    match op {
        Op::Sub(c, f, q, fl) => {
            now(t.subscribe(cid(*c), Arc::from(f.as_str()), qos(*q), SubscriptionFlags::from_bits_truncate(*fl)))?;
            m.insert((*c, f.clone()), (*q, *fl));
        }
        Op::Unsub(c, f) => {
            now(t.unsubscribe(cid(*c), f))?;
            m.remove(&(*c, f.clone()));
        }
        Op::UnsubAll(c) => {
            now(t.unsubscribe_all(cid(*c)))?;
            m.retain(|k, _| k.0 != *c);
        }
        Op::Look(topic) => return Ok(Some(look(t, topic)?)),
    }
    Ok(None)
}
fn look(t: &Table, topic: &str) -> Result<Seen, Fail> {
    let r = now(t.get_all_subscribed(topic))?;
    convert(r.iter())
}

fn expect(m: &Held, topic: &str) -> BTreeMap<usize, Vec<(String, u8, u8)>> {
    let mut out: BTreeMap<usize, Vec<(String, u8, u8)>> = BTreeMap::new();
    for ((c, f), (q, fl)) in m {
        if topic_matches(f, topic) {
            out.entry(*c).or_default().push((f.clone(), *q, *fl));
        }
    }
    out
}
fn short(s: &str) -> String {
    if s.len() > 200 {
        let mut k = 120;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{:?}..({} bytes)", &s[..k], s.len())
    } else {
        format!("{:?}", s)
    }
}
fn compare(m: &Held, topic: &str, seen: &Seen, options: bool) -> Res {
    let e = expect(m, topic);
    for c in seen.keys() {
        check!(
            e.contains_key(c),
            "lookup of {} reports client {} which holds no matching subscription (it holds {:?})",
            short(topic),
            c,
            m.keys().filter(|k| k.0 == *c).map(|k| short(&k.1)).collect::<Vec<_>>()
        );
    }
    for (c, subs) in &e {
        let got = match seen.get(c) {
            Some(g) => g,
            None => {
                return broken(format!(
                    "lookup of {} does not report client {} which holds {}",
                    short(topic),
                    c,
                    short(&subs[0].0)
                ))
            }
        };
        if options {
            let best = subs.iter().map(|s| s.1).max().unwrap();
            check!(
                got.0 == best,
                "lookup of {} reports client {} with QoS {}, the highest of its matching subscriptions is {}",
                short(topic),
                c,
                got.0,
                best
            );
            check!(
                subs.iter().any(|s| (s.1, s.2) == *got),
                "lookup of {} reports client {} with options {:?}, its matching subscriptions are {:?}",
                short(topic),
                c,
                got,
                subs
            );
        }
    }
    Ok(())
}

fn describe(ops: &[Op]) -> String {
    ops.iter()
        .map(|o| match o {
            Op::Sub(c, f, q, fl) => format!("sub({},{},q{},f{})", c, short(f), q, fl),
            Op::Unsub(c, f) => format!("unsub({},{})", c, short(f)),
            Op::UnsubAll(c) => format!("unsub_all({})", c),
            Op::Look(t) => format!("look({})", short(t)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

fn history(s: &mut Src, cx: &mut Ctx, weights: &[u64; 4], options: bool) -> Res {
    let t = Table::new();
    let mut m = Held::new();
    let mut p = Pool { filters: Vec::new() };
    let clients = s.range(1, N_CLIENTS as u64) as usize;
    let n = s.range(1, 40) as usize;
    let mut ops: Vec<Op> = Vec::new();
    let mut matched = 0;
    let mut removed = false;
    let mut r = Ok(());
    for _ in 0..n {
        let op = gen_op(s, &mut p, weights, clients);
        ops.push(op.clone());
        let before = m.len();
        let seen = match apply(&t, &mut m, &op) {
            Ok(x) => x,
            Err(f) => {
                r = Err(f);
                break;
            }
        };
        removed |= m.len() < before;
        if let (Op::Look(topic), Some(seen)) = (&op, seen) {
            matched += seen.len();
            r = compare(&m, topic, &seen, options);
            if r.is_err() {
                break;
            }
        }
    }
    if r.is_ok() {
        for _ in 0..s.range(1, 8) {
            let topic = p.topic(s);
            ops.push(Op::Look(topic.clone()));
            let seen = look(&t, &topic)?;
            matched += seen.len();
            r = compare(&m, &topic, &seen, options);
            if r.is_err() {
                break;
            }
        }
    }
    let d = describe(&ops);
    if matched > 0 {
        cx.nontrivial(d.as_bytes());
        cx.class("some lookup matched");
    }
    if removed {
        cx.class("something removed");
    }
    if m.values().any(|v| v.0 > 0) {
        cx.class("mixed qos");
    }
    cx.desc(|| d);
    r
}

fn t01_history(s: &mut Src, cx: &mut Ctx) -> Res {
    history(s, cx, &[6, 4, 2, 1], false)
}
fn t02_history(s: &mut Src, cx: &mut Ctx) -> Res {
    history(s, cx, &[8, 4, 1, 1], true)
}

fn words(levels: &[&str], max: usize) -> Vec<String> {
    let mut all: Vec<String> = Vec::new();
    let mut last: Vec<String> = levels.iter().map(|s| s.to_string()).collect();
    all.extend(last.iter().cloned());
    for _ in 1..max {
        let mut next = Vec::new();
        for w in &last {
            for l in levels {
                next.push(format!("{}/{}", w, l));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all.retain(|w| !w.is_empty());
    all
}
fn small_filters() -> Vec<String> {
    let base = words(&["", "a", "b", "$a", "+"], 3);
    let mut all = vec!["#".to_string()];
    for b in &base {
        all.push(b.clone());
        all.push(format!("{}/#", b));
    }
    all.push("/#".into());
    all
}
const N_SMALL_FILTERS: u64 = 310;

/// every small filter against every small topic
fn t01_pairs(_s: &mut Src, cx: &mut Ctx) -> Res {
    let filters = small_filters();
    check!(filters.len() as u64 == N_SMALL_FILTERS, "machinery: {} filters", filters.len());
    let f = &filters[cx.index as usize];
    let t = Table::new();
    let mut m = Held::new();
    apply(&t, &mut m, &Op::Sub(0, f.clone(), 0, 0))?;
    let mut hits = 0;
    for topic in words(&["", "a", "b", "$a"], 4) {
        let seen = look(&t, &topic)?;
        hits += seen.len();
        compare(&m, &topic, &seen, true)?;
    }
    cx.nontrivial(f.as_bytes());
    cx.desc(|| format!("filter {:?} against all topics of up to 4 levels, {} match", f, hits));
    Ok(())
}
/// every pair of small filters: removing one leaves the other
fn t03_pairs(_s: &mut Src, cx: &mut Ctx) -> Res {
    let filters = small_filters();
    let f = &filters[cx.index as usize];
    let topics = words(&["", "a", "$a"], 3);
    for g in &filters {
        if f == g {
            continue;
        }
        for same in [true, false] {
            let other = if same { 0 } else { 1 };
            let t = Table::new();
            let mut m = Held::new();
            apply(&t, &mut m, &Op::Sub(0, f.clone(), 0, 0))?;
            apply(&t, &mut m, &Op::Sub(other, g.clone(), 0, 1))?;
            if same {
                apply(&t, &mut m, &Op::Unsub(0, f.clone()))?;
            } else {
                apply(&t, &mut m, &Op::UnsubAll(0))?;
            }
            // one topic of the remaining filter, and one of the removed
            for topic in topics.iter().filter(|x| topic_matches(g, x)).take(2) {
                compare(&m, topic, &look(&t, topic)?, true)?;
            }
            for topic in topics.iter().filter(|x| topic_matches(f, x)).take(2) {
                compare(&m, topic, &look(&t, topic)?, true)?;
            }
        }
    }
    cx.nontrivial(f.as_bytes());
    cx.desc(|| format!("{:?} removed beside every other small filter", f));
    Ok(())
}

/// very deep and very long topics
fn t01_deep(s: &mut Src, cx: &mut Ctx) -> Res {
    let depth = *s.pick(&[10usize, 100, 1_000, 5_000, 20_000, 65_535]);
    let depth = depth - s.below(depth / 4 + 1);
    let level = *s.pick(&["", "a"]);
    let n = if level.is_empty() { depth + 1 } else { (depth + 1) / 2 };
    let mut v: Vec<String> = vec![level.to_string(); n];
    let topic = v.join("/");
    let edits = s.below(4);
    for _ in 0..edits {
        let i = s.below(n);
        v[i] = s.pick(&["+", "b", "a", ""]).to_string();
    }
    match s.below(4) {
        1 => {
            let k = s.below(n);
            v.truncate(k + 1);
            v[k] = "#".into();
        }
        2 => v.push("+".into()),
        3 => {
            v.push("#".into());
        }
        _ => {}
    }
    let filter = v.join("/");
    if topic.is_empty() || filter.is_empty() {
        return Ok(());
    }
    let t = Table::new();
    let mut m = Held::new();
    apply(&t, &mut m, &Op::Sub(0, filter.clone(), 0, 0))?;
    apply(&t, &mut m, &Op::Sub(1, topic.clone(), 1, 0))?;
    compare(&m, &topic, &look(&t, &topic)?, true)?;
    cx.nontrivial(filter.as_bytes());
    cx.class("deep");
    if topic_matches(&filter, &topic) {
        cx.class("deep match");
    }
    cx.desc(|| format!("filter of {} levels, topic of {}", v.len(), n));
    apply(&t, &mut m, &Op::Unsub(1, topic.clone()))?;
    compare(&m, &topic, &look(&t, &topic)?, true)?;
    apply(&t, &mut m, &Op::UnsubAll(0))?;
    compare(&m, &topic, &look(&t, &topic)?, true)
}

/// the same filter again and again with other options
fn t02_replace(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = Table::new();
    let mut m = Held::new();
    let base = gen_filter(s);
    let topic = near_topic(s, &base);
    let mut ops = Vec::new();
    let mut changed = 0;
    for _ in 0..s.range(1, 12) {
        let f = if s.chance(1, 3) { near_filter(s, &base) } else { base.clone() };
        let op = Op::Sub(s.below(2), f, s.below(3) as u8, s.below(4) as u8);
        ops.push(op.clone());
        let before = m.len();
        apply(&t, &mut m, &op)?;
        if m.len() == before {
            changed += 1;
        }
        compare(&m, &topic, &look(&t, &topic)?, true)?;
        if let Op::Sub(_, f, _, _) = &op {
            let own = near_topic(s, f);
            compare(&m, &own, &look(&t, &own)?, true)?;
        }
    }
    let d = describe(&ops);
    if changed > 0 {
        cx.nontrivial(d.as_bytes());
        cx.class("options replaced");
    }
    if expect(&m, &topic).values().any(|v| v.len() > 1) {
        cx.class("overlapping subscriptions of one client");
    }
    cx.desc(|| d);
    Ok(())
}

/// removals, each compared with a full picture of the table before and after
fn t03_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = Table::new();
    let mut m = Held::new();
    let mut p = Pool { filters: Vec::new() };
    let clients = s.range(1, N_CLIENTS as u64) as usize;
    let mut ops = Vec::new();
    for _ in 0..s.range(1, 16) {
        let op = gen_op(s, &mut p, &[1, 0, 0, 0], clients);
        apply(&t, &mut m, &op)?;
        ops.push(op);
    }
    let mut topics: BTreeSet<String> = BTreeSet::new();
    for f in p.filters.clone() {
        topics.insert(near_topic(s, &f));
        topics.insert(f.split('/').map(|l| if l == "+" || l == "#" { "a" } else { l }).collect::<Vec<_>>().join("/"));
    }
    topics.remove("");
    let mut effective = 0;
    let mut noop = 0;
    for _ in 0..s.range(1, 12) {
        let op = gen_op(s, &mut p, &[2, 0, 6, 1], clients);
        let before = m.clone();
        ops.push(op.clone());
        apply(&t, &mut m, &op)?;
        let times = if s.chance(1, 6) && !matches!(op, Op::Sub(..)) { 1 } else { 0 };
        for _ in 0..times {
            apply(&t, &mut m, &op)?; // again: idempotent
        }
        if !matches!(op, Op::Sub(..)) {
            if m.len() < before.len() {
                effective += 1;
            } else {
                noop += 1;
            }
        }
        for topic in &topics {
            if let Err(Fail::Broken(e)) = compare(&m, topic, &look(&t, topic)?, true) {
                let d = describe(&ops);
                cx.desc(|| d);
                return broken(format!("after {}: {}", describe(&ops[ops.len() - 1..]), e));
            }
        }
    }
    let d = describe(&ops);
    if effective > 0 {
        cx.nontrivial(d.as_bytes());
        cx.class("effective removal");
    }
    if noop > 0 {
        cx.class("removal of something not held");
    }
    cx.desc(|| d);
    Ok(())
}

/// many filters of one client, many clients of one filter
fn crowd(s: &mut Src, cx: &mut Ctx, removals: u64) -> Res {
    let t = Table::new();
    let mut m = Held::new();
    let clients = *s.pick(&[1usize, 2, 5, 20, 70, 260]);
    let filters = *s.pick(&[1usize, 3, 17, 66, 130, 300, 1100]);
    let shape = s.below(6);
    let name = |k: usize| -> String {
        match if shape == 5 { k % 5 } else { shape } {
            0 => format!("l{}", k),
            1 => format!("a/l{}/+", k),
            2 => format!("+/l{}", k),
            3 => format!("l{}/#", k),
            _ => format!("d{}/e{}/f{}", k % 7, k % 11, k),
        }
    };
    let total = (*s.pick(&[50usize, 150, 400, 1200])).min(clients * filters);
    let mut ops = 0u64;
    let put = |s: &mut Src, m: &mut Held, k: usize| -> Res {
        // along the clients, along the filters, or anyhow
        let (c, f) = match s.below(3) {
            0 => (k % clients, (k / clients) % filters),
            1 => ((k / filters) % clients, k % filters),
            _ => (s.below(clients), s.below(filters)),
        };
        let (q, fl) = (s.draw(2) as u8, s.draw(3) as u8);
        apply(&t, m, &Op::Sub(c, name(f), q, fl))?;
        Ok(())
    };
    for k in 0..total {
        put(s, &mut m, k)?;
        ops += 1;
    }
    let most = m.len();
    let probe = |s: &mut Src, m: &Held| -> Res {
        for _ in 0..8 {
            let f = name(s.below(filters + 1));
            let topic = f.split('/').map(|l| if l == "+" || l == "#" { "x" } else { l }).collect::<Vec<_>>().join("/");
            compare(m, &topic, &look(&t, &topic)?, true)?;
        }
        Ok(())
    };
    probe(s, &m)?;
    for round in 0..removals {
        match s.below(3) {
            0 => {
                apply(&t, &mut m, &Op::UnsubAll(s.below(clients)))?;
            }
            1 => {
                let keys: Vec<(usize, String)> = m.keys().cloned().collect();
                let n = s.below(keys.len() + 1).min(300);
                for _ in 0..n {
                    let (c, f) = s.pick(&keys).clone();
                    apply(&t, &mut m, &Op::Unsub(c, f))?;
                }
            }
            _ => {
                for k in 0..s.below(60) {
                    put(s, &mut m, k + round as usize * 60)?;
                }
            }
        }
        probe(s, &m)?;
    }
    if removals > 0 {
        // nothing may be left of anybody
        for c in 0..clients {
            apply(&t, &mut m, &Op::UnsubAll(c))?;
        }
        for f in 0..filters.min(200) {
            let topic = name(f).split('/').map(|l| if l == "+" || l == "#" { "x" } else { l }).collect::<Vec<_>>().join("/");
            compare(&m, &topic, &look(&t, &topic)?, true)?;
        }
    }
    cx.class(if most > 100 { "more than 100 subscriptions" } else { "up to 100 subscriptions" });
    let d = format!("{} clients, {} filters of shape {}, {} subscriptions, {} operations, {} rounds", clients, filters, shape, most, ops, removals);
    cx.nontrivial(format!("{}{:?}", d, m.iter().take(5).collect::<Vec<_>>()).as_bytes());
    cx.desc(|| d);
    Ok(())
}
fn t01_crowd(s: &mut Src, cx: &mut Ctx) -> Res {
    crowd(s, cx, 0)
}
fn t03_crowd(s: &mut Src, cx: &mut Ctx) -> Res {
    let n = s.range(1, 5);
    crowd(s, cx, n)
}

pub fn t01() -> Check {
    Check {
        id: "T01",
        rule: "random histories of subscribe, unsubscribe, unsubscribe_all and lookups by up to 6 clients over related filters and topics, all filters of up to 3 levels (+ #) over {empty,a,b,$a,+} against all topics of up to 4 levels, topics of up to 65535 levels, and tables of up to 260 clients and 1100 filters; every lookup is compared with a level-by-level matcher over the model's set of held subscriptions. Non-trivial: some lookup reported somebody, distinct by history",
        subs: vec![
            Sub::all("pairs", N_SMALL_FILTERS, t01_pairs),
            Sub::rand("deep", 600, 2_000, t01_deep),
            Sub::rand("crowd", 4_000, 40_000, t01_crowd),
            Sub::rand("history", 600_000, 5_000_000, t01_history),
        ],
        threads: 8,
        confirm: 0,
        shrink_ms: 60_000,
        stuck_s: 120,
        assumptions: vec!["the topic table is reached through the cfg(apiformes_verif) re-export; the broker checks B* go through the network instead"],
        known: vec![],
    }
}
pub fn t02() -> Check {
    Check {
        id: "T02",
        rule: "random histories with mixed QoS and options, overlapping filters and repeated subscriptions of one filter; every lookup's entry must be the options of one currently held matching subscription with the highest QoS among them, exactly one entry per client. Non-trivial: some lookup matched (histories) or some subscription was replaced (replace), distinct by history",
        subs: vec![
            Sub::rand("replace", 400_000, 3_000_000, t02_replace),
            Sub::rand("history", 600_000, 5_000_000, t02_history),
        ],
        threads: 8,
        confirm: 0,
        shrink_ms: 60_000,
        stuck_s: 120,
        assumptions: vec!["when a client holds several matching subscriptions of the same highest QoS, the options of any of them are accepted"],
        known: vec![],
    }
}
pub fn t03() -> Check {
    Check {
        id: "T03",
        rule: "random tables followed by removals (of held, nearly held and never held filters, and of everything of a client, sometimes repeated); after each removal every probe topic is looked up and compared with the model; plus every pair of filters of up to 3 levels, one removed, and tables of up to 260 clients and 1100 filters. Non-trivial: some removal removed something, distinct by history",
        subs: vec![
            Sub::all("pairs", N_SMALL_FILTERS, t03_pairs),
            Sub::rand("history", 300_000, 2_000_000, t03_history),
            Sub::rand("crowd", 4_000, 40_000, t03_crowd),
        ],
        threads: 8,
        confirm: 0,
        shrink_ms: 60_000,
        stuck_s: 120,
        assumptions: vec![],
        known: vec![],
    }
}

// ---------------------------------------------------------------- T04: interleavings

/// one finished (or running) operation on the logical clock
#[derive(Clone, Debug)]
struct Event {
    op: Op,
    start: u64,
    end: u64,
    seen: Option<Seen>,
}
fn touches(op: &Op, c: usize, f: &str) -> Option<bool> {
    // Some(true): puts it in place, Some(false): removes it
    match op {
        Op::Sub(k, g, _, _) if *k == c && g == f => Some(true),
        Op::Unsub(k, g) if *k == c && g == f => Some(false),
        Op::UnsubAll(k) if *k == c => Some(false),
        _ => None,
    }
}
/// For the lookup interval [ls, le] and one (client, filter): the subscribe events that may be
/// current during it, and whether the subscription is certainly in place throughout it.
fn status<'a>(evs: &'a [Event], c: usize, f: &str, ls: u64, le: u64) -> (Vec<&'a Event>, bool) {
    let rel: Vec<(&Event, bool)> = evs.iter().filter_map(|e| touches(&e.op, c, f).map(|p| (e, p))).collect();
    let mut possible = Vec::new();
    for (e, put) in &rel {
        if !*put || e.start > le {
            continue;
        }
        let superseded = rel.iter().any(|(o, _)| o.start > e.end && o.end < ls);
        if !superseded {
            possible.push(*e);
        }
    }
    let certain = rel.iter().any(|(e, put)| {
        *put && e.end < ls && !rel.iter().any(|(o, p)| !*p && o.end > e.start && o.start < le)
    });
    (possible, certain)
}
fn judge_lookup(evs: &[Event], topic: &str, ls: u64, le: u64, seen: &Seen) -> Res {
    let mut filters: BTreeSet<(usize, &str)> = BTreeSet::new();
    for e in evs {
        if let Op::Sub(c, f, _, _) = &e.op {
            if topic_matches(f, topic) {
                filters.insert((*c, f.as_str()));
            }
        }
    }
    let mut possible: BTreeMap<usize, Vec<(u8, u8)>> = BTreeMap::new();
    let mut floor: BTreeMap<usize, u8> = BTreeMap::new();
    for (c, f) in filters {
        let (p, certain) = status(evs, c, f, ls, le);
        let opts: Vec<(u8, u8)> = p
            .iter()
            .map(|e| match &e.op {
                Op::Sub(_, _, q, fl) => (*q, *fl),
                _ => (0, 0),
            })
            .collect();
        if certain {
            let low = opts.iter().map(|o| o.0).min().unwrap_or(0);
            let e = floor.entry(c).or_insert(0);
            *e = (*e).max(low);
        }
        if !opts.is_empty() {
            possible.entry(c).or_default().extend(opts);
        }
    }
    for (c, got) in seen {
        match possible.get(c) {
            None => {
                return broken(format!(
                    "a lookup of {} reports client {} which cannot hold a matching subscription at that time",
                    short(topic),
                    c
                ))
            }
            Some(o) => check!(
                o.contains(got),
                "a lookup of {} reports client {} with options {:?}, possible at that time are {:?}",
                short(topic),
                c,
                got,
                o
            ),
        }
    }
    for (c, low) in floor {
        match seen.get(&c) {
            None => {
                return broken(format!(
                    "a lookup of {} misses client {} whose matching subscription is in place throughout it",
                    short(topic),
                    c
                ))
            }
            Some(g) => check!(
                g.0 >= low,
                "a lookup of {} reports client {} with QoS {}, a subscription with QoS {} is in place throughout it",
                short(topic),
                c,
                g.0,
                low
            ),
        }
    }
    Ok(())
}

async fn perform(t: Arc<Table>, op: Op) -> Option<Result<Seen, Fail>> {
    match op {
        Op::Sub(c, f, q, fl) => {
            t.subscribe(cid(c), Arc::from(f.as_str()), qos(q), SubscriptionFlags::from_bits_truncate(fl)).await;
            None
        }
        Op::Unsub(c, f) => {
            t.unsubscribe(cid(c), &f).await;
            None
        }
        Op::UnsubAll(c) => {
            t.unsubscribe_all(cid(c)).await;
            None
        }
        Op::Look(topic) => {
            let r = t.get_all_subscribed(&topic).await;
            Some(convert(r.iter()))
        }
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

type Boxed = Pin<Box<dyn Future<Output = Option<Result<Seen, Fail>>>>>;

struct Task {
    ops: Vec<Op>,
    at: usize,
    fut: Option<Boxed>,
    start: u64,
    flag: Arc<Flag>,
}

/// Runs the tasks under a chosen schedule: each step lets one task pass at most `k` lock
/// acquisitions (tokio's cooperative budget is used up beforehand for the rest).
struct Executor<'a, 'b> {
    t: Arc<Table>,
    tasks: Vec<Task>,
    s: &'a mut Src,
    clock: u64,
    events: Vec<Event>,
    idle: u32,
    steps: u64,
    last: usize,
    sem: tokio::sync::Semaphore,
    fail: Option<Fail>,
    trace: &'b mut Vec<u8>,
}
const BUDGET: u64 = 128;
impl<'a, 'b> Executor<'a, 'b> {
    fn step(&mut self, outer: &Waker) -> bool {
        let ready: Vec<usize> = (0..self.tasks.len())
            .filter(|i| {
                let t = &self.tasks[*i];
                t.at < t.ops.len() && t.flag.0.load(Ordering::SeqCst)
            })
            .collect();
        if ready.is_empty() {
            if self.tasks.iter().all(|t| t.at >= t.ops.len()) {
                return true;
            }
            self.idle += 1;
            if self.idle > 300 {
                let stuck: Vec<String> = self
                    .tasks
                    .iter()
                    .filter(|t| t.at < t.ops.len())
                    .map(|t| describe(&t.ops[t.at..t.at + 1]))
                    .collect();
                self.fail = Some(Fail::Broken(format!("deadlock between {}", stuck.join(" and "))));
                return true;
            }
            if self.idle > 100 {
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            outer.wake_by_ref();
            return false;
        }
        self.idle = 0;
        // stay with the last task half of the time
        let i = if ready.contains(&self.last) && self.s.chance(1, 2) {
            self.last
        } else {
            ready[self.s.below(ready.len())]
        };
        self.last = i;
        let k = match self.s.below(4) {
            0 | 1 => 1,
            2 => 2,
            _ => self.s.range(1, 8),
        };
        self.trace.push(i as u8);
        self.trace.push(k as u8);
        self.clock += 1;
        // use up the budget but k
        let noop = Waker::from(Arc::new(Flag(AtomicBool::new(false))));
        let mut ncx = Context::from_waker(&noop);
        for _ in 0..(BUDGET - k) {
            let mut a = Box::pin(self.sem.acquire());
            let _ = a.as_mut().poll(&mut ncx);
        }
        let clock = self.clock;
        let t = &mut self.tasks[i];
        if t.fut.is_none() {
            t.fut = Some(Box::pin(perform(self.t.clone(), t.ops[t.at].clone())));
            t.start = clock;
        }
        t.flag.0.store(false, Ordering::SeqCst);
        let w = Waker::from(t.flag.clone());
        let mut cx = Context::from_waker(&w);
        if let Poll::Ready(r) = t.fut.as_mut().unwrap().as_mut().poll(&mut cx) {
            let seen = match r {
                None => None,
                Some(Ok(s)) => Some(s),
                Some(Err(f)) => {
                    self.fail = Some(f);
                    return true;
                }
            };
            self.clock += 1;
            self.events.push(Event { op: t.ops[t.at].clone(), start: t.start, end: self.clock, seen });
            t.fut = None;
            t.at += 1;
            t.flag.0.store(true, Ordering::SeqCst);
        }
        self.steps += 1;
        if self.steps > 200_000 {
            self.fail = Some(Fail::Broken("operations keep waking up without ever finishing".into()));
            return true;
        }
        outer.wake_by_ref();
        false
    }
}

/// every final content that some sequential order of the changes, consistent with real time, gives
fn final_contents(evs: &[Event]) -> Option<BTreeSet<Held>> {
    let ch: Vec<&Event> = evs.iter().filter(|e| !matches!(e.op, Op::Look(_))).collect();
    if ch.len() > 22 {
        return None;
    }
    let mut level: BTreeSet<(u32, Held)> = BTreeSet::new();
    level.insert((0, Held::new()));
    for _ in 0..ch.len() {
        let mut next = BTreeSet::new();
        for (done, state) in &level {
            for (i, e) in ch.iter().enumerate() {
                let early = ch.iter().enumerate().any(|(j, o)| done & (1 << j) == 0 && o.end < e.start);
                if done & (1 << i) != 0 || early {
                    continue;
                }
                let mut st = state.clone();
                match &e.op {
                    Op::Sub(c, f, q, fl) => {
                        st.insert((*c, f.clone()), (*q, *fl));
                    }
                    Op::Unsub(c, f) => {
                        st.remove(&(*c, f.clone()));
                    }
                    Op::UnsubAll(c) => st.retain(|k, _| k.0 != *c),
                    Op::Look(_) => {}
                }
                next.insert((done | (1 << i), st));
            }
            if next.len() > 20_000 {
                return None;
            }
        }
        level = next;
    }
    Some(level.into_iter().map(|l| l.1).collect())
}

fn judge_history(t: &Arc<Table>, evs: &mut Vec<Event>, probes: &BTreeSet<String>, clients: usize) -> Res {
    for e in evs.iter() {
        if let (Op::Look(topic), Some(seen)) = (&e.op, &e.seen) {
            judge_lookup(evs, topic, e.start, e.end, seen)?;
        }
    }
    // at rest: final contents
    let end = u64::MAX - 10;
    let mut first = Vec::new();
    for topic in probes {
        let seen = look(t, topic)?;
        if let Err(Fail::Broken(m)) = judge_lookup(evs, topic, end, end + 1, &seen) {
            return broken(format!("after all operations have finished: {}", m));
        }
        first.push(seen);
    }
    if let Some(all) = final_contents(evs) {
        let ok = all.iter().any(|m| probes.iter().zip(&first).all(|(topic, seen)| compare(m, topic, seen, true).is_ok()));
        check!(ok, "no sequential order of the operations explains the final contents {:?} of {:?}", first, probes);
    }
    for (topic, f) in probes.iter().zip(&first) {
        check!(&look(t, topic)? == f, "two lookups of {} at rest differ", short(topic));
    }
    for c in 0..clients {
        now(t.unsubscribe_all(cid(c)))?;
        for topic in probes {
            let seen = look(t, topic)?;
            check!(
                !seen.contains_key(&c),
                "removing all subscriptions of client {} leaves one behind that matches {}",
                c,
                short(topic)
            );
        }
    }
    Ok(())
}

fn t04_gen(s: &mut Src, p: &mut Pool, tasks: usize, per_task: u64, clients: usize) -> Vec<Vec<Op>> {
    let mut out = Vec::new();
    for _ in 0..tasks {
        let n = s.range(1, per_task);
        out.push((0..n).map(|_| gen_op(s, p, &[5, 3, 3, 2], clients)).collect());
    }
    out
}

fn t04_sched(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = Arc::new(Table::new());
    let mut p = Pool { filters: Vec::new() };
    let clients = s.range(1, 3) as usize;
    let mut events: Vec<Event> = Vec::new();
    let mut clock = 0;
    let mut m = Held::new();
    let mut setup = Vec::new();
    for _ in 0..s.below(6) {
        let op = gen_op(s, &mut p, &[6, 0, 1, 0], clients);
        apply(&t, &mut m, &op)?;
        setup.push(op.clone());
        clock += 2;
        events.push(Event { op, start: clock - 1, end: clock, seen: None });
    }
    let n_tasks = s.range(2, 5) as usize;
    let plan = t04_gen(s, &mut p, n_tasks, 3, clients);
    let mut probes: BTreeSet<String> = BTreeSet::new();
    for f in p.filters.clone() {
        if probes.len() < 14 {
            probes.insert(f.split('/').map(|l| if l == "+" || l == "#" { "a" } else { l }).collect::<Vec<_>>().join("/"));
        }
    }
    probes.remove("");
    let overlap_key: Vec<u8> = format!("{} | {:?}", describe(&setup), plan.iter().map(|o| describe(o)).collect::<Vec<_>>()).into_bytes();
    let mut trace = Vec::new();
    let rt = tokio::runtime::Builder::new_current_thread().build().map_err(|e| Fail::Infra(e.to_string()))?;
    let mut ex = Executor {
        t: t.clone(),
        tasks: plan
            .iter()
            .map(|ops| Task {
                ops: ops.clone(),
                at: 0,
                fut: None,
                start: 0,
                flag: Arc::new(Flag(AtomicBool::new(true))),
            })
            .collect(),
        s,
        clock,
        events: Vec::new(),
        idle: 0,
        steps: 0,
        last: usize::MAX,
        sem: tokio::sync::Semaphore::new(1),
        fail: None,
        trace: &mut trace,
    };
    rt.block_on(std::future::poll_fn(|c: &mut Context<'_>| {
        if ex.step(c.waker()) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }));
    let fail = ex.fail.take();
    let new = std::mem::take(&mut ex.events);
    drop(ex);
    let switches = trace.chunks(2).zip(trace.chunks(2).skip(1)).filter(|(a, b)| a[0] != b[0]).count();
    let d = || {
        format!(
            "setup [{}] tasks [{}] schedule {:?}",
            describe(&setup),
            plan.iter().map(|o| describe(o)).collect::<Vec<_>>().join(" || "),
            trace.chunks(2).map(|c| format!("{}x{}", c[0], c[1])).collect::<Vec<_>>().join(" ")
        )
    };
    cx.desc(d);
    if let Some(f) = fail {
        return Err(f);
    }
    // overlapping pairs of operations of which one writes
    let overlap = new.iter().any(|a| {
        new.iter().any(|b| !std::ptr::eq(a, b) && a.start < b.end && b.start < a.end && (!matches!(a.op, Op::Look(_)) || !matches!(b.op, Op::Look(_))))
    });
    if overlap {
        let mut key = overlap_key;
        key.extend_from_slice(&trace);
        cx.nontrivial(&key);
        cx.class("operations overlap");
    }
    if switches > 4 {
        cx.class("more than four switches");
    }
    events.extend(new);
    judge_history(&t, &mut events, &probes, clients)
}

fn t04_threads(s: &mut Src, cx: &mut Ctx) -> Res {
    let t = Arc::new(Table::new());
    let mut p = Pool { filters: Vec::new() };
    let clients = s.range(1, 4) as usize;
    for _ in 0..s.range(1, 4) {
        let f = p.filter(s);
        p.filters.push(f);
    }
    let n_tasks = s.range(2, 4) as usize;
    let plan = t04_gen(s, &mut p, n_tasks, 40, clients);
    let mut probes: BTreeSet<String> = BTreeSet::new();
    for f in p.filters.clone() {
        if probes.len() < 20 {
            probes.insert(f.split('/').map(|l| if l == "+" || l == "#" { "a" } else { l }).collect::<Vec<_>>().join("/"));
        }
    }
    probes.remove("");
    let clock = Arc::new(AtomicU64::new(1));
    let events: Arc<Mutex<Vec<Event>>> = Arc::new(Mutex::new(Vec::new()));
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(n_tasks)
        .enable_time()
        .build()
        .map_err(|e| Fail::Infra(e.to_string()))?;
    let mut hs = Vec::new();
    let gate = Arc::new(AtomicU64::new(0));
    for ops in plan.clone() {
        let (t, clock, events, gate) = (t.clone(), clock.clone(), events.clone(), gate.clone());
        hs.push(rt.spawn(async move {
            // start together
            gate.fetch_add(1, Ordering::SeqCst);
            for _ in 0..20_000 {
                if gate.load(Ordering::SeqCst) >= n_tasks as u64 {
                    break;
                }
                std::hint::spin_loop();
            }
            for op in ops {
                let start = clock.fetch_add(1, Ordering::SeqCst);
                let r = perform(t.clone(), op.clone()).await;
                let end = clock.fetch_add(1, Ordering::SeqCst);
                let seen = match r {
                    None => None,
                    Some(Ok(s)) => Some(s),
                    Some(Err(f)) => return Err(f),
                };
                events.lock().unwrap().push(Event { op, start, end, seen });
            }
            Ok(())
        }));
    }
    let worker = cx.worker;
    let r: Res = rt.block_on(async {
        let mut ticks = 0;
        let mut all = Box::pin(async {
            let mut out = Ok(());
            for h in hs {
                match h.await {
                    Ok(Ok(())) => {}
                    Ok(Err(f)) => out = Err(f),
                    Err(e) => out = broken(format!("a topic table operation panicked: {}", e)),
                }
            }
            out
        });
        loop {
            tokio::select! {
                r = &mut all => return r,
                _ = tokio::time::sleep(std::time::Duration::from_millis(100)) => {
                    ticks += 1;
                    progress(worker);
                    if ticks > 600 {
                        return broken("operations on several threads never finish (deadlock)");
                    }
                }
            }
        }
    });
    rt.shutdown_background();
    let mut evs = std::mem::take(&mut *events.lock().unwrap());
    cx.desc(|| format!("{} tasks on threads, {} operations: {}", n_tasks, evs.len(), plan.iter().map(|o| describe(o)).collect::<Vec<_>>().join(" || ")));
    r?;
    let mut by_start: Vec<&Event> = evs.iter().collect();
    by_start.sort_by_key(|e| e.start);
    let overlap = by_start.windows(2).filter(|w| w[1].start < w[0].end).count();
    if overlap > 0 {
        let mut key = Vec::new();
        for e in &by_start {
            key.extend_from_slice(describe(std::slice::from_ref(&e.op)).as_bytes());
            key.extend_from_slice(&e.start.to_le_bytes());
            key.extend_from_slice(&e.end.to_le_bytes());
        }
        cx.nontrivial(&key);
        cx.class("operations overlap");
    }
    judge_history(&t, &mut evs, &probes, clients)
}

pub fn t04() -> Check {
    Check {
        id: "T04",
        rule: "2 to 5 tasks of up to 3 operations after a random setup, stepped one lock acquisition (sometimes more) at a time under a generated schedule on a single-threaded executor (tokio's cooperative budget is the switch), and 2 to 4 tasks of up to 40 operations on real threads; every lookup is judged by interval reasoning over the operations' start and end, then the table at rest, then the removal of all subscriptions of each client; no task may stay asleep for ever. Non-trivial: two operations of which one writes overlapped, distinct by operations and schedule",
        subs: vec![
            Sub::rand("sched", 300_000, 2_000_000, t04_sched),
            Sub::rand("threads", 20_000, 150_000, t04_threads),
        ],
        threads: 8,
        confirm: 0,
        shrink_ms: 60_000,
        stuck_s: 180,
        assumptions: vec![
            "schedule switches happen at lock acquisitions; code between two acquisitions is not interrupted in the sched sub-test, real threads interrupt anywhere",
        ],
        known: vec![],
    }
}
