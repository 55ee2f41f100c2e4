//! Checks of the broker over real sockets.
use crate::check;
use crate::engine::*;
use crate::gen;
use crate::hist::*;
use crate::net::*;
use crate::refcodec::*;
use apiformes_server_lib::{MqttServer, MqttServerConfig};
use std::time::Duration;
use tokio::io::AsyncWriteExt;

pub fn base(id: &'static str, rule: &'static str, subs: Vec<Sub>) -> Check {
    Check {
        id,
        rule,
        subs,
        threads: 8,
        confirm: 2,
        shrink_ms: 45_000,
        stuck_s: 150,
        assumptions: vec![
            "clients are driven over the loopback interface; waiting for something that should happen ends after 120 executed ticks of 50 ms",
            "something that did not happen in time is reported only if it fails to happen again when the case is re-run from its recorded choices; a wrong outcome that never comes back is reported if another case has one as well",
        ],
        known: vec![],
    }
}

/// boilerplate of one case: a runtime, a configuration
fn hist_case(s: &mut Src, cx: &mut Ctx, p: &Profile, f: impl FnOnce(&mut Src, &mut Conf)) -> Res {
    let mut conf = Conf::random(s, p.min_max);
    if let Some(x) = p.force_strict {
        conf.strict = x;
    }
    f(s, &mut conf);
    let threads = conf.threads;
    let mut key = Vec::new();
    in_runtime(cx, threads, async |cx: &mut Ctx| run_history(s, cx, p, conf, &mut key).await)
}
/// a case of its own kind: a server with a configuration, a history to fill
fn own_case(
    s: &mut Src,
    cx: &mut Ctx,
    conf: Conf,
    f: impl AsyncFnOnce(&mut Src, &mut Ctx, &mut History) -> Res,
) -> Res {
    in_runtime(cx, conf.threads, async |cx: &mut Ctx| {
        let mut w = World::start(cx.worker, conf.clone()).await?;
        let mut h = History::new(&mut w);
        let r = f(s, cx, &mut h).await;
        let text = h.log.join(" ; ");
        cx.desc(|| format!("{:?} {}", conf, text));
        r
    })
}
fn subscription(f: &str, o: u8) -> Cmd {
    Cmd::Sub(77, vec![], vec![(f.to_string(), o)])
}
/// the peer subscribes and that is in force when this returns
async fn subscribe_now(h: &mut History<'_>, s: &mut Src, i: usize, f: &str, o: u8) -> Res {
    h.burst(s, vec![(i, vec![subscription(f, o)])], false).await?;
    h.settle().await
}

// ---------------------------------------------------------------- B01

pub fn b01_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut p = Profile::base();
    p.max_clients = *s.pick(&[5, 3, 8]);
    hist_case(s, cx, &p, |_, _| ())
}

/// long bursts of several publishers through small queues
pub fn b01_bursts(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf::random(s, 1000);
    own_case(s, cx, conf, async |s, cx, h| {
        let n = s.range(2, 5) as usize;
        for k in 0..n {
            let enc = s.chance(1, 3) && NOISE_BUILT;
            h.connect(&format!("c{}", k), enc, vec![]).await?;
            let count = s.range(1, 4);
            let mut t = Vec::new();
            for _ in 0..count {
                let f = h.words.filter(s);
                t.push((f, 0x20 | ((s.draw(4) as u8) << 2)));
            }
            h.burst(s, vec![(k, vec![Cmd::Sub(5, vec![], t)])], false).await?;
            h.settle().await?;
        }
        let publishers = s.range(1, n as u64) as usize;
        let len = s.range(20, 300);
        let mut streams = Vec::new();
        let max = (h.w.conf.max as usize).min(300);
        for i in 0..publishers {
            let mut cmds = Vec::new();
            for _ in 0..len {
                let t = h.words.topic(s);
                cmds.push(if s.chance(1, 20) {
                    Cmd::Unsup(RP::Ping { ty: T_PINGREQ })
                } else if s.chance(1, 4) {
                    Cmd::Pub(h.words.message_on(s, t, max))
                } else {
                    let n = s.range(20, 60) as usize;
                    Cmd::Pub(h.words.sized(&t, n))
                });
            }
            streams.push((i, cmds));
        }
        h.burst(s, streams, true).await?;
        h.settle().await?;
        if h.deliveries > 100 {
            cx.class("more than 100 deliveries");
        }
        if publishers > 1 {
            cx.class("several publishers");
        }
        if h.deliveries > 0 {
            cx.nontrivial(h.log.join(";").as_bytes());
        }
        Ok(())
    })
}

/// many clients at once
fn b01_fanout(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf::random(s, 1000);
    own_case(s, cx, conf, async |s, cx, h| {
        let n = s.range(10, 80) as usize;
        let pool: Vec<String> = (0..4).map(|_| h.words.filter(s)).collect();
        for k in 0..n {
            let enc = s.chance(1, 4) && NOISE_BUILT;
            let c = h.w.client_with(enc, &format!("c{}", k), vec![], None).await?;
            let limit = c.limit(&h.w.conf);
            h.peers.push(Peer {
                c: Some(c),
                id: format!("c{}", k),
                encrypted: enc,
                subs: Subs::new(),
                exp: Expected::new(),
                limit,
            });
        }
        let mut streams = Vec::new();
        for k in 0..n {
            let f = s.pick(&pool).clone();
            streams.push((k, vec![subscription(&f, 0x20 | ((s.draw(4) as u8) << 2))]));
        }
        h.burst(s, streams, false).await?;
        h.settle().await?;
        let mut streams = Vec::new();
        for _ in 0..s.range(1, 3) {
            let i = s.below(n);
            if streams.iter().any(|(k, _)| *k == i) {
                continue;
            }
            let mut cmds = Vec::new();
            for _ in 0..s.range(3, 20) {
                cmds.push(Cmd::Pub(h.words.message(s, 800)));
            }
            streams.push((i, cmds));
        }
        h.burst(s, streams, true).await?;
        h.settle().await?;
        let ids = h.ids();
        h.w.registry(&ids).await?;
        // most of them leave at once, the others are served on
        let leave = s.below(n);
        for i in 0..leave {
            let c = h.peers[i].c.take().unwrap();
            h.peers[i].subs.clear();
            if s.chance(1, 2) {
                c.reset();
            } else {
                c.close().await;
            }
        }
        let ids = h.ids();
        h.w.registry(&ids).await?;
        let i = s.range(leave as u64, n as u64 - 1) as usize;
        let mut cmds = Vec::new();
        for _ in 0..s.range(1, 5) {
            cmds.push(Cmd::Pub(h.words.message(s, 800)));
        }
        h.burst(s, vec![(i, cmds)], false).await?;
        h.settle().await?;
        cx.class(if n > 40 { "more than 40 clients" } else { "up to 40 clients" });
        if h.deliveries > 0 {
            cx.nontrivial(h.log.join(";").as_bytes());
        }
        Ok(())
    })
}

pub fn b01() -> Check {
    base(
        "B01",
        "at least one message was delivered; counted by the history of commands",
        vec![
            Sub::rand("histories", 8000, 200000, b01_history),
            Sub::rand("bursts", 2000, 60000, b01_bursts),
            Sub::rand("fanout", 400, 10000, b01_fanout),
        ],
    )
}

// ---------------------------------------------------------------- B02

fn gen_connect(s: &mut Src) -> RP {
    for _ in 0..30 {
        let mut p = gen::packet_of(s, T_CONNECT);
        if let RP::Connect { flags, will, user, pass, props, id, .. } = &mut p {
            // mostly ask for what is supported, or for one thing that is not
            if s.chance(5, 6) {
                let keep = s.below(8);
                if keep != 1 {
                    *flags |= 2;
                }
                if keep != 2 {
                    *will = None;
                    *flags &= !0x3c;
                }
                if keep != 3 {
                    *user = None;
                    *flags &= !0x80;
                }
                if keep != 4 {
                    *pass = None;
                    *flags &= !0x40;
                }
                if keep != 5 {
                    props.retain(|(k, _)| *k != 0x15 && *k != 0x16);
                }
            }
            // one of the two properties of authentication without the other
            if s.chance(1, 12) {
                let (out, data) = (if s.chance(1, 2) { 0x15 } else { 0x16 }, gen::blob(s));
                props.retain(|(k, _)| *k != 0x15 && *k != 0x16);
                props.push(if out == 0x15 {
                    (0x16, Val::Bin(data))
                } else {
                    (0x15, Val::Str(gen::short_string(s)))
                });
            }
            if s.chance(1, 6) {
                id.clear();
            }
            // limits that let something through
            for (k, v) in props.iter_mut() {
                if *k == 0x27 && s.chance(2, 3) {
                    *v = Val::U32(s.range(5, 200) as u32);
                }
            }
        }
        if let Read::Good(_, _, soft) = read(&write(&p)) {
            if soft.iter().all(|x| *x == DATA_ALONE) {
                return p;
            }
        }
    }
    connect("plain", vec![])
}
/// the answer to a CONNECT, apart from the assigned identifier
fn expect_connack(p: &RP, keep: u16) -> (bool, RP) {
    if let RP::Connect { flags, props, id, will, user, pass, .. } = p {
        let odd = flags & 2 == 0
            || will.is_some()
            || user.is_some()
            || pass.is_some()
            || props.iter().any(|(k, _)| *k == 0x15 || *k == 0x16);
        if odd {
            return (false, RP::ConnAck { flags: 0, code: 0x83, props: vec![] });
        }
        let get = |k: u8, d: Val| props.iter().find(|(i, _)| *i == k).map(|(_, v)| v.clone()).unwrap_or(d);
        let mut pr = vec![
            (0x11, get(0x11, Val::U32(0))),
            (0x21, get(0x21, Val::U16(65535))),
            (0x24, Val::Byte(0)),
            (0x22, Val::U16(0)),
            (0x28, Val::Byte(0)),
            (0x29, Val::Byte(0)),
            (0x2a, Val::Byte(0)),
            (0x13, Val::U16(keep)),
        ];
        if id.is_empty() {
            pr.push((0x12, Val::Str("x".repeat(36))));
        }
        return (true, RP::ConnAck { flags: 0, code: 0, props: norm_props(&pr) });
    }
    unreachable!()
}
fn announced(p: &RP) -> usize {
    match p.prop(0x27) {
        Some(Val::U32(v)) => *v as usize,
        _ => usize::MAX,
    }
}

pub fn b02_connects(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf::random(s, 200);
    own_case(s, cx, conf, async |s, cx, h| {
        let keep = h.w.conf.keep;
        let max = h.w.conf.max as usize;
        let watcher = h.connect("the watcher", true, vec![]).await?;
        subscribe_now(h, s, watcher, "#", 0x20).await?;
        // connected at the moment: identifier, client
        let mut live: Vec<(String, Client)> = Vec::new();
        let mut assigned: Vec<String> = Vec::new();
        let n = s.range(1, 6);
        for _ in 0..n {
            progress(cx.worker);
            let enc = s.chance(1, 3) && NOISE_BUILT;
            let p = gen_connect(s);
            let frame = write(&p);
            h.log.push(format!("{} over {}", clip(&p.show()), if enc { "noise" } else { "tcp" }));
            if enc && frame.len() > NOISE_MAX {
                continue;
            }
            let id = match &p {
                RP::Connect { id, .. } => id.clone(),
                _ => String::new(),
            };
            if id == "the watcher" {
                continue;
            }
            let mut c = h.w.open(enc).await?;
            c.id = clip(&id);
            let (good, want) = expect_connack(&p, keep);
            let limit = announced(&p).min(max).min(if enc { NOISE_MAX } else { usize::MAX });
            let too_big = frame.len() > max;
            // further packets behind a refused CONNECT do nothing
            let mut wire = c.seal(&frame);
            let trailing = !too_big && (!good || s.chance(1, 2));
            if trailing && wire.len() < 4000 {
                wire.extend(c.seal(&write(&subscribe(9, &[("#", 0x20)]))));
                wire.extend(c.seal(&write(&publish("after/connect", &id.as_bytes()[..id.len().min(100)]))));
            }
            let sent_more = trailing && wire.len() > c.seal_len(frame.len());
            c.raw(&wire).await?;
            if too_big || !good {
                cx.class(if too_big { "oversized CONNECT" } else { "unsupported CONNECT" });
                let got = c.closed("after a CONNECT that cannot be served").await?;
                let mut want: Vec<RP> =
                    if too_big || write(&want).len() > limit { vec![] } else { vec![want] };
                if p.prop(0x16).is_some() && p.prop(0x15).is_none() {
                    cx.class("authentication data alone");
                    // the specification calls this a protocol error: that answer, or none, would do
                    let code = |x: &RP| matches!(x, RP::ConnAck { code: 0x81 | 0x82, .. });
                    if got.is_empty() || (got.len() == 1 && code(&got[0])) {
                        want = got.clone();
                    }
                }
                check!(
                    got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b),
                    "{} was answered with {:?}, expected {:?} and the end of the connection",
                    p.show(),
                    got.iter().map(|g| g.show()).collect::<Vec<_>>(),
                    want.iter().map(|g| g.show()).collect::<Vec<_>>()
                );
                continue;
            }
            cx.class("supported CONNECT");
            // an identifier in use is taken over
            let mut answer = None;
            if write(&want).len() <= limit {
                let got = c.next("a CONNACK").await?;
                let mut cmp = got.clone();
                let mut id = id.clone();
                if let RP::ConnAck { props, .. } = &mut cmp {
                    // the limit of the server may be advertised as well
                    props.retain(|x| *x != (0x27, Val::U32(max as u32)));
                    for (k, v) in props.iter_mut() {
                        if *k == 0x12 {
                            if let Val::Str(t) = v {
                                check!(!t.is_empty(), "an empty identifier is assigned");
                                check!(!assigned.contains(t), "the identifier {:?} is assigned twice", t);
                                assigned.push(t.clone());
                                id = t.clone();
                                *t = "x".repeat(36);
                            }
                        }
                    }
                }
                check!(
                    cmp == want,
                    "{} was answered with {}, expected {}",
                    p.show(),
                    got.show(),
                    want.show()
                );
                answer = Some(id);
            } else {
                cx.class("CONNACK larger than the client can take");
            }
            // it is served
            let m = publish("after/connect", &id.as_bytes()[..id.len().min(100)]);
            if limit < 6 {
                // no way to ask: let the watcher tell
                if !sent_more {
                    c.send(&m).await?;
                }
                h.w_wait(watcher, &m).await?;
            } else {
                c.fence().await?;
                let mut own = Vec::new();
                if sent_more {
                    h.peers[watcher].exp.entry(0).or_default().push(Exp { pkt: m.clone(), need: Need::Must });
                    own.push(RP::SubAck { ty: T_SUBACK, id: 9, props: vec![], codes: vec![0] });
                    if write(&m).len() <= limit {
                        own.push(m);
                    }
                }
                let got = c.take();
                check!(got == own, "a new client receives {:?}, expected {:?}", got, own);
            }
            h.settle().await?;
            if let Some(id) = answer {
                if let Some(k) = live.iter().position(|(i, _)| *i == id) {
                    let (_, old) = live.remove(k);
                    old.closed("although its identifier is taken over").await?;
                }
                live.push((id, c));
            } else {
                // its identifier may be unknown to us: leave
                if let Some(k) = live.iter().position(|(i, _)| *i == id) {
                    let (_, old) = live.remove(k);
                    old.closed("although its identifier is taken over").await?;
                }
                c.close().await;
            }
        }
        let mut ids: Vec<String> = live.iter().map(|(i, _)| i.clone()).collect();
        ids.push("the watcher".into());
        h.w.registry(&ids).await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

/// anything else as the first packet
pub fn b02_first(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf::random(s, 200);
    own_case(s, cx, conf, async |s, cx, h| {
        let watcher = h.connect("the watcher", true, vec![]).await?;
        subscribe_now(h, s, watcher, "#", 0x20).await?;
        let n = s.range(1, 5);
        let mut distinct = Vec::new();
        for _ in 0..n {
            let enc = s.chance(1, 3) && NOISE_BUILT;
            let ty = s.range(2, 15) as u8;
            let mut p = if s.chance(1, 3) {
                publish("first/packet", b"x")
            } else if s.chance(1, 4) {
                subscribe(3, &[("#", 0x20)])
            } else {
                gen::packet_of(s, ty)
            };
            if write(&p).len() > 4000 {
                p = RP::Ping { ty: T_PINGREQ };
            }
            let mut c = h.w.open(enc).await?;
            c.id = "never connected".into();
            let mut wire = c.seal(&write(&p));
            if s.chance(1, 2) {
                // a CONNECT behind it does not help
                wire.extend(c.seal(&write(&connect("too late", vec![]))));
                wire.extend(c.seal(&write(&publish("after/connect", b"x"))));
            }
            h.log.push(format!("first packet {}", clip(&p.show())));
            distinct.extend_from_slice(&wire);
            c.raw(&wire).await?;
            let got = c.closed("after a first packet that is no CONNECT").await?;
            check!(got.is_empty(), "the first packet {} was answered with {:?}", p.show(), got);
            check!(c.bytes_received() == 0, "the first packet {} was answered", p.show());
        }
        h.settle().await?;
        let ids = h.ids();
        h.w.registry(&ids).await?;
        cx.nontrivial(&distinct);
        Ok(())
    })
}

/// many at once without an identifier
fn b02_assigned(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 200) };
    own_case(s, cx, conf, async |s, cx, h| {
        let n = s.range(2, 40) as usize;
        let mut cs = Vec::new();
        for _ in 0..n {
            let enc = s.chance(1, 4) && NOISE_BUILT;
            let mut c = h.w.open(enc).await?;
            c.send(&connect("", vec![])).await?;
            cs.push(c);
        }
        let mut ids = Vec::new();
        for c in &mut cs {
            match c.next("a CONNACK").await? {
                RP::ConnAck { code: 0, props, .. } => {
                    match props.iter().find(|(k, _)| *k == 0x12) {
                        Some((_, Val::Str(i))) => {
                            check!(!i.is_empty(), "an empty identifier is assigned");
                            check!(!ids.contains(i), "the identifier {:?} is assigned twice", i);
                            ids.push(i.clone());
                        }
                        _ => return broken("no identifier is assigned to a client without one"),
                    }
                }
                p => return broken(format!("a CONNECT without identifier was answered with {}", p.show())),
            }
        }
        h.w.registry(&ids).await?;
        // none of them shares a session with another
        let k = s.below(n);
        cs[k].subscribe(1, &[("one/only", 0x20)]).await?;
        let j = s.below(n);
        let m = publish("one/only", b"x");
        cs[j].send(&m).await?;
        cs[j].fence().await?;
        for (i, c) in cs.iter_mut().enumerate() {
            c.fence().await?;
            let got = c.take();
            let want = if i == k { vec![m.clone()] } else { vec![] };
            check!(got == want, "client {} receives {:?}, expected {:?}", i, got, want);
        }
        h.log.push(format!("{} clients without identifier", n));
        cx.nontrivial(format!("{} {} {}", n, k, j).as_bytes());
        Ok(())
    })
}

pub fn b02() -> Check {
    base(
        "B02",
        "at least one generated CONNECT (or other first packet) was sent and its answer compared; counted by the packets",
        vec![
            Sub::rand("connects", 6000, 150000, b02_connects),
            Sub::rand("first-packets", 2500, 50000, b02_first),
            Sub::rand("assigned", 400, 8000, b02_assigned),
        ],
    )
}

// ---------------------------------------------------------------- B03

pub fn b03_subscribe(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf::random(s, 2000);
    own_case(s, cx, conf, async |s, cx, h| {
        let (ea, eb) = (s.chance(1, 3), s.chance(1, 3));
        let a = h.connect("subscriber", ea && !h.w.conf.strict, vec![]).await?;
        let b = h.connect("publisher", eb && !h.w.conf.strict, vec![]).await?;
        let rounds = s.range(1, 5);
        for _ in 0..rounds {
            let n = s.range(1, 3);
            let mut cmds = Vec::new();
            for _ in 0..n {
                if s.chance(1, 5) {
                    let m = h.words.message(s, 300);
                    cmds.push(Cmd::Pub(m));
                } else if s.chance(1, 6) {
                    let u = unsupported(s, &mut h.words, 300);
                    cmds.push(Cmd::Unsup(u));
                } else {
                    cmds.push(h.words.sub(s, 1800, true));
                }
            }
            let last = cmds.iter().rev().find_map(|c| if let Cmd::Sub(id, _, _) = c { Some(*id) } else { None });
            let acks = cmds.iter().filter(|c| matches!(c, Cmd::Sub(..))).count();
            h.burst(s, vec![(a, cmds)], true).await?;
            if last.is_some() {
                // from the SUBACK on it is in force
                let c = h.peers[a].c.as_ref().unwrap();
                c.wait("all SUBACKs", |i| {
                    if i.pkts.iter().filter(|p| matches!(p, RP::SubAck { .. })).count() >= acks {
                        Some(())
                    } else {
                        None
                    }
                })
                .await?;
            } else {
                h.settle().await?;
            }
            let mut probes = Vec::new();
            for _ in 0..s.range(1, 8) {
                probes.push(Cmd::Pub(h.words.message(s, 300)));
            }
            h.burst(s, vec![(b, probes)], false).await?;
            h.settle().await?;
        }
        if h.deliveries > 0 {
            cx.class("messages delivered");
            cx.nontrivial(h.log.join(";").as_bytes());
        }
        Ok(())
    })
}
/// all 256 option bytes the format allows, alone and between granted ones
fn b03_options(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { threads: 0, ..Conf::plain() };
    let index = cx.index;
    own_case(s, cx, conf, async |_, cx, h| {
        let enc = index >= 36;
        let k = (index % 36) as u8;
        // qos 0..2, 4 flag combinations, retain handling 0..2
        let o = (k % 3) | (((k / 3) % 4) << 2) | ((k / 12) << 4);
        let a = h.connect("subscriber", enc, vec![]).await?;
        let b = h.connect("publisher", enc, vec![]).await?;
        let t = vec![("first".to_string(), 0x20u8), ("second".to_string(), o), ("third".to_string(), 0x24)];
        let mut s = Src::replay(vec![]);
        h.burst(&mut s, vec![(a, vec![Cmd::Sub(500, vec![], t), Cmd::Sub(501, vec![], vec![("alone".into(), o)])])], false)
            .await?;
        h.settle().await?;
        let m: Vec<Cmd> = ["first", "second", "third", "alone", "other"]
            .iter()
            .map(|t| Cmd::Pub(publish(t, b"x")))
            .collect();
        h.burst(&mut s, vec![(b, m.clone())], false).await?;
        h.settle().await?;
        h.burst(&mut s, vec![(a, m)], false).await?;
        h.settle().await?;
        cx.nontrivial(&index.to_le_bytes());
        Ok(())
    })
}

/// filters of one packet up to the size limit, long ones, duplicates within one packet
fn b03_many(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf::random(s, 60_000);
    own_case(s, cx, conf, async |s, cx, h| {
        let a = h.connect("subscriber", false, vec![]).await?;
        let b = h.connect("publisher", false, vec![]).await?;
        let n = *s.pick(&[50usize, 122, 123, 124, 130, 1000, 4000]);
        let t: Vec<(String, u8)> = (0..n)
            .map(|k| {
                let f = format!("f/{}", k % (n - s.below(n / 2)));
                let o = if s.chance(1, 3) { s.draw(3) as u8 | 0x10 } else { 0x20 | ((s.draw(4) as u8) << 2) };
                (f, o)
            })
            .collect();
        h.words.filters = t.iter().map(|(f, _)| f.clone()).collect();
        h.burst(s, vec![(a, vec![Cmd::Sub(65, vec![], t)])], true).await?;
        h.settle().await?;
        let probes: Vec<Cmd> =
            (0..20).map(|_| Cmd::Pub(publish(&format!("f/{}", s.below(n)), &[s.draw(256) as u8]))).collect();
        h.burst(s, vec![(b, probes)], false).await?;
        h.settle().await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

pub fn b03() -> Check {
    base(
        "B03",
        "messages were published against generated subscriptions and the deliveries compared; counted by the history",
        vec![
            Sub::all("options", 72, b03_options),
            Sub::rand("subscribe", 6000, 150000, b03_subscribe),
            Sub::rand("many", 300, 6000, b03_many),
        ],
    )
}

// ---------------------------------------------------------------- B04

/// a packet of a client that means no good; its topics are none of the others' business
fn evil_packet(s: &mut Src) -> RP {
    for _ in 0..10 {
        let mut p = match s.below(5) {
            0 => publish("evil/topic", &[1, 2, 3]),
            1 => subscribe(7, &[("#", 0x2c), ("good/#", 0x20), ("evil/+", 0x20)]),
            2 => RP::Publish { flags: 2, topic: "evil/q".into(), id: Some(1), props: vec![], payload: vec![1] },
            _ => {
                let ty = s.range(1, 15) as u8;
                gen::packet_of(s, ty)
            }
        };
        if let RP::Publish { topic, .. } = &mut p {
            *topic = format!("evil/{}", clip(topic));
        }
        if write(&p).len() < 3000 {
            return p;
        }
    }
    RP::Ping { ty: T_PINGREQ }
}
fn garbage(s: &mut Src) -> Vec<u8> {
    let n = s.range(1, 300) as usize;
    let mut b = s.bytes(n);
    if s.chance(1, 2) {
        // looks like a packet for a moment
        b[0] = ((s.range(1, 15) as u8) << 4) | if s.chance(1, 3) { 2 } else { 0 };
        if b.len() > 1 && s.chance(1, 2) {
            b[1] = (b.len() - 2).min(127) as u8;
        }
    }
    b
}
async fn leave(s: &mut Src, c: Client, kept: &mut Vec<Client>) {
    match s.below(5) {
        0 => c.close().await,
        1 => c.reset(),
        2 => {
            let mut c = c;
            c.half_close().await;
            kept.push(c);
        }
        3 => drop(c),
        _ => kept.push(c),
    }
}

async fn hostile(s: &mut Src, cx: &mut Ctx, h: &mut History<'_>, k: usize, kept: &mut Vec<Client>) -> Res {
    let enc = s.chance(1, 3) && NOISE_BUILT;
    let id = format!("evil{}", k);
    let kind = s.below(11);
    h.log.push(format!("hostile {} {}", kind, if enc { "noise" } else { "tcp" }));
    match kind {
        0 => {
            // nonsense instead of a CONNECT
            cx.class("garbage instead of CONNECT");
            let mut c = h.w.open(enc).await?;
            let b = if s.chance(1, 2) {
                garbage(s)
            } else {
                let mut f = write(&gen_connect(s));
                f.truncate(2000);
                gen::mangle(s, &mut f);
                f
            };
            let b = if enc { c.seal(&b) } else { b };
            c.raw(&b).await?;
            leave(s, c, kept).await;
        }
        1 => {
            // nonsense instead of a handshake
            cx.class("garbage instead of a handshake");
            let so = h.w.socket(true, None).await?;
            let mut c = Client::plain(so, cx.worker);
            let mut b = Vec::new();
            for _ in 0..s.range(1, 3) {
                let n = *s.pick(&[0u32, 1, 31, 32, 48, 64, 65535, 65536, 8 << 20, (8 << 20) + 1, u32::MAX]);
                b.extend_from_slice(&n.to_be_bytes());
                let have = s.below(n.min(200) as usize + 1);
                b.extend(s.bytes(have));
            }
            if s.chance(1, 4) {
                b = garbage(s);
            }
            c.raw(&b).await?;
            leave(s, c, kept).await;
        }
        2 => {
            // a stream of damaged packets
            cx.class("damaged packets");
            let mut c = h.w.client(enc, &id).await?;
            for _ in 0..s.range(1, 6) {
                let mut f = write(&evil_packet(s));
                if s.chance(1, 2) {
                    gen::mangle(s, &mut f);
                }
                let b = c.seal(&f);
                if !c.raw(&b).await? {
                    break;
                }
            }
            leave(s, c, kept).await;
        }
        3 => {
            // subscribes to everything and vanishes while messages come in
            cx.class("vanishing subscriber");
            let mut c = h.w.client(enc, &id).await?;
            c.subscribe(3, &[("#", 0x20), ("good/+", 0x2c), ("+/#", 0x28)]).await?;
            h.traffic(s).await?;
            c.reset();
        }
        4 => {
            // many refusals to send to somebody who is gone
            cx.class("refusals to a client that is gone");
            let mut c = h.w.client(enc, &id).await?;
            let mut b = Vec::new();
            for _ in 0..s.range(50, 400) {
                b.extend(c.seal(&write(&RP::Ping { ty: T_PINGREQ })));
            }
            if s.chance(1, 2) {
                b.extend(c.seal(&write(&evil_packet(s))));
            }
            c.raw(&b).await?;
            if s.chance(1, 3) {
                leave(s, c, kept).await;
            } else {
                c.reset();
            }
        }
        5 => {
            // topics of many levels
            cx.class("deep topics");
            let mut c = h.w.client(enc, &id).await?;
            let n = *s.pick(&[200usize, 1000, 5000, 20_000, 32_000, 65_000]);
            let n = n.min(h.w.conf.max as usize - 100).min(65_000);
            let l = *s.pick(&["e/", "/", "e/e/e/f/", "+/"]);
            let mut t = "evil/".to_string();
            while t.len() + l.len() < n {
                t.push_str(l);
            }
            let f = if s.chance(1, 2) { format!("{}#", t) } else { t.clone() };
            c.send(&subscribe(2, &[(&f, 0x20)])).await?;
            let topic = t.replace('+', "p");
            c.send(&publish(&topic, b"")).await?;
            if s.chance(1, 2) {
                c.fence().await?;
            }
            leave(s, c, kept).await;
        }
        6 => {
            // connections that come and go
            cx.class("connections without content");
            for _ in 0..s.range(1, 10) {
                let so = h.w.socket(enc, None).await?;
                let mut c = Client::plain(so, cx.worker);
                if s.chance(1, 3) {
                    let b = garbage(s);
                    c.raw(&b[..b.len().min(3)]).await?;
                }
                leave(s, c, kept).await;
            }
        }
        7 => {
            // stops inside a packet
            cx.class("half a packet");
            let mut c = h.w.client(enc, &id).await?;
            let b = c.seal(&write(&publish("evil/half", &[7; 50])));
            let n = s.range(1, b.len() as u64 - 1) as usize;
            c.raw(&b[..n]).await?;
            leave(s, c, kept).await;
        }
        8 => {
            // malformed beyond doubt: this connection has to go
            cx.class("malformed packet");
            let mut c = h.w.client(enc, &id).await?;
            let ty = s.range(1, 15) as u8;
            let p = gen::packet_of(s, ty);
            let mut t = gen::tokens(&p);
            gen::disturb(s, &mut t);
            let f = gen::render(&t);
            match read(&f) {
                Read::Bad(why, Some(n)) if n == f.len() && n <= (h.w.conf.max as usize).min(NOISE_MAX) => {
                    // something legal before it
                    let mut b = c.seal(&write(&publish("evil/before", b"x")));
                    b.extend(c.seal(&f));
                    c.raw(&b).await?;
                    c.closed(&format!("after a malformed packet ({}) {:02x?}", why, &f[..f.len().min(40)])).await?;
                }
                _ => drop(c),
            }
        }
        9 => {
            // a fixed header of no use
            cx.class("hopeless header");
            let mut c = h.w.client(enc, &id).await?;
            let f: Vec<u8> = match s.below(4) {
                0 => vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x01],
                1 => vec![0x00, 0x00],
                2 => vec![0x10 * s.range(1, 15) as u8 | 0x0f, 0x80, 0x80, 0x80, 0x80, 0x00],
                _ => vec![0x62 + 1, 0x02, 0x00, 0x01],
            };
            let b = c.seal(&f);
            c.raw(&b).await?;
            if matches!(read(&f), Read::Bad(..)) {
                c.closed(&format!("after the malformed header {:02x?}", f)).await?;
            } else {
                leave(s, c, kept).await;
            }
        }
        _ => {
            // too much
            cx.class("oversized packet");
            let max = h.w.conf.max as usize;
            if max < 60_000 || (!enc && max < 300_000) {
                let mut c = h.w.client(enc, &id).await?;
                let f = write(&publish("evil/large", &vec![7; max]));
                let b = c.seal(&f);
                c.raw_some(&b, TICKS).await;
                c.closed("after an oversized packet").await?;
            }
        }
    }
    Ok(())
}

pub fn b04_case(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf::random(s, 1000);
    conf.strict = false;
    own_case(s, cx, conf, async |s, cx, h| {
        h.words.prefix = "good/";
        let n = s.range(2, 3) as usize;
        for k in 0..n {
            let enc = s.chance(1, 3) && NOISE_BUILT;
            h.connect(&format!("good{}", k), enc, vec![]).await?;
            let c = h.words.sub(s, 400, false);
            h.burst(s, vec![(k, vec![c])], false).await?;
            h.settle().await?;
        }
        let mut kept = Vec::new();
        for k in 0..s.range(1, 6) as usize {
            progress(cx.worker);
            if s.chance(2, 3) {
                h.traffic(s).await?;
            }
            hostile(s, cx, h, k, &mut kept).await?;
            if s.chance(1, 3) {
                h.settle().await?;
            }
        }
        h.traffic(s).await?;
        h.settle().await?;
        h.w.healthy().await?;
        for c in kept {
            c.close().await;
        }
        let ids = h.ids();
        h.w.registry(&ids).await?;
        h.traffic(s).await?;
        h.settle().await?;
        if h.deliveries > 0 {
            cx.class("messages delivered beside");
        }
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

pub fn b04() -> Check {
    base(
        "B04",
        "at least one hostile client acted beside well-behaved ones whose traffic was compared; counted by the history",
        vec![Sub::rand("hostile", 8000, 150000, b04_case)],
    )
}

// ---------------------------------------------------------------- B05

fn cuts(s: &mut Src, len: usize, bounds: &[usize]) -> Vec<usize> {
    let mut v: Vec<usize> = match s.below(7) {
        0 => vec![],
        1 if len <= 160 => (1..len).collect(),
        1 => (0..40).map(|_| s.range(1, len as u64 - 1) as usize).collect(),
        2 => vec![s.range(1, len as u64 - 1) as usize],
        3 => bounds.to_vec(),
        4 => {
            // around the start of a packet: type, lengths
            let b = *s.pick(bounds);
            vec![b + s.below(7)]
        }
        5 => bounds.iter().map(|b| b + s.below(5)).collect(),
        _ => (0..s.range(2, 6)).map(|_| s.range(1, len as u64 - 1) as usize).collect(),
    };
    v.retain(|c| *c > 0 && *c < len);
    v.sort();
    v.dedup();
    v
}

pub fn b05_stream(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 600) };
    own_case(s, cx, conf, async |s, cx, h| {
        let o = h.connect("observer", true, vec![]).await?;
        subscribe_now(h, s, o, "#", 0x20).await?;
        let enc = s.chance(2, 5) && NOISE_BUILT;
        let n = s.range(1, 8);
        let mut cmds = Vec::new();
        for _ in 0..n {
            cmds.push(match s.below(4) {
                0 => h.words.sub(s, 150, true),
                1 => Cmd::Unsup(unsupported(s, &mut h.words, 150)),
                _ => {
                    let max = if s.chance(1, 12) { 600 } else { 120 };
                    Cmd::Pub(h.words.message(s, max))
                }
            });
        }
        let all_single = cx.thorough && s.chance(1, 10);
        let variants = if all_single { 400 } else { s.range(3, 8) };
        for v in 0..variants {
            progress(cx.worker);
            let (mut c, first) = h.w.open_lazy(enc).await?;
            c.id = "subject".into();
            let mut b = first;
            let mut bounds = vec![b.len()];
            b.extend(c.seal(&write(&connect("subject", vec![]))));
            for cmd in &cmds {
                bounds.push(b.len());
                b.extend(c.seal(&write(&cmd.packet())));
            }
            bounds.push(b.len());
            let at = if all_single {
                if v as usize + 1 >= b.len() {
                    break;
                }
                vec![v as usize + 1]
            } else {
                cuts(s, b.len(), &bounds)
            };
            h.log.push(format!(
                "{} {} bytes cut at {:?}: {}",
                if enc { "noise" } else { "tcp" },
                b.len(),
                at,
                cmds.iter().map(|c| c.show()).collect::<Vec<_>>().join(" ")
            ));
            let limit = c.limit(&h.w.conf);
            h.peers.truncate(1);
            h.peers.push(Peer {
                c: Some(c),
                id: "subject".into(),
                encrypted: enc,
                subs: Subs::new(),
                exp: Expected::new(),
                limit,
            });
            predict(&mut h.peers, &[(1, cmds.clone())], false);
            let c = h.peers[1].c.as_mut().unwrap();
            let ok = c.raw_cut(&b, &at).await?;
            check!(ok, "the connection is closed inside a legal stream");
            c.connack().await?;
            h.settle().await?;
            let c = h.peers[1].c.take().unwrap();
            c.close().await;
            h.w.registry(&["observer".to_string()]).await?;
            if at.len() == 1 {
                cx.class("one cut");
            } else if at.is_empty() {
                cx.class("one segment");
            } else {
                cx.class("several cuts");
            }
        }
        cx.class(if enc { "noise" } else { "tcp" });
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

/// messages come in for a client that is in the middle of sending a packet
fn b05_between(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 600) };
    own_case(s, cx, conf, async |s, cx, h| {
        let enc = s.chance(1, 2) && NOISE_BUILT;
        let a = h.connect("subject", enc, vec![]).await?;
        let b = h.connect("other", false, vec![]).await?;
        subscribe_now(h, s, a, "x/#", 0x20).await?;
        subscribe_now(h, s, b, "y/#", 0x20).await?;
        let mut mine = Vec::new();
        for _ in 0..s.range(1, 4) {
            let t = s.pick(&["x/1", "y/1", "z"]).to_string();
            mine.push(if s.chance(1, 4) {
                Cmd::Unsup(RP::Ping { ty: T_PINGREQ })
            } else {
                Cmd::Pub(h.words.message_on(s, t, 500))
            });
        }
        let mut wire = Vec::new();
        let mut bounds = vec![0];
        for c in &mine {
            let f = h.peers[a].c.as_ref().unwrap().seal(&write(&c.packet()));
            wire.extend(f);
            bounds.push(wire.len());
        }
        let mut at = cuts(s, wire.len(), &bounds);
        if at.len() > 12 {
            at.truncate(12);
        }
        let theirs: Vec<Cmd> = (0..at.len())
            .map(|_| {
                let n = s.range(20, 200) as usize;
                Cmd::Pub(h.words.sized("x/2", n))
            })
            .collect();
        h.log.push(format!(
            "{} bytes cut at {:?}: {}, a message coming in at every cut",
            wire.len(),
            at,
            mine.iter().map(|c| c.show()).collect::<Vec<_>>().join(" ")
        ));
        predict(&mut h.peers, &[(a, mine), (b, theirs.clone())], false);
        let mut from = 0;
        for (k, c) in at.iter().enumerate() {
            h.peers[a].c.as_mut().unwrap().raw(&wire[from..*c]).await?;
            from = *c;
            tokio::time::sleep(Duration::from_micros(600)).await;
            h.peers[b].c.as_mut().unwrap().send(&theirs[k].packet()).await?;
            if s.chance(1, 2) {
                // it has come
                h.peers[b].c.as_mut().unwrap().fence().await?;
                let want = k + 1;
                let cl = h.peers[a].c.as_ref().unwrap();
                cl.wait("the message sent while it is sending", |i| {
                    let n = i
                        .pkts
                        .iter()
                        .filter(|p| matches!(p, RP::Publish { topic, .. } if topic == "x/2"))
                        .count();
                    if n >= want {
                        Some(())
                    } else {
                        None
                    }
                })
                .await?;
            }
        }
        h.peers[a].c.as_mut().unwrap().raw(&wire[from..]).await?;
        h.settle().await?;
        cx.class(if enc { "noise" } else { "tcp" });
        if !theirs.is_empty() {
            cx.nontrivial(h.log.join(";").as_bytes());
        }
        Ok(())
    })
}

pub fn b05() -> Check {
    base(
        "B05",
        "a stream was cut into segments and the outcome compared with the model of its packets; counted by stream and cuts",
        vec![Sub::rand("stream", 1500, 30000, b05_stream), Sub::rand("between", 1500, 30000, b05_between)],
    )
}

// ---------------------------------------------------------------- B06

pub fn b06_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut p = Profile::base();
    p.encrypted = (1, 2);
    p.cmds = [9, 2, 1];
    p.ops = [10, 4, 1, 3];
    p.force_strict = Some(s.chance(3, 4));
    hist_case(s, cx, &p, |_, _| ())
}

/// clients that announce all sorts of things about themselves, and may not even get an answer
fn b06_announced(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf::random(s, 2000);
    conf.strict = s.chance(4, 5);
    let strict = conf.strict;
    own_case(s, cx, conf, async |s, cx, h| {
        let mut seen = h.w.client(true, "encrypted").await?;
        let mut plain = h.w.client(false, "plain").await?;
        let f = if s.chance(1, 2) { "a/#" } else { "a/+" };
        seen.subscribe(1, &[(f, 0x20)]).await?;
        plain.subscribe(1, &[(f, 0x20)]).await?;
        for k in 0..s.range(1, 4) {
            progress(cx.worker);
            let enc = s.chance(3, 4);
            let mut props: Props = Vec::new();
            if s.chance(1, 2) {
                let v = match s.below(3) {
                    0 => s.range(1, 8),
                    1 => s.range(1, 100),
                    _ => s.range(1, 1 << 32) - 1,
                };
                props.push((0x27, Val::U32(v.max(1) as u32)));
            }
            for id in [0x11u8, 0x21, 0x22, 0x19, 0x17, 0x26] {
                if s.chance(1, 4) {
                    let v = match id {
                        0x11 => Val::U32(*s.pick(&[0, 1, 77, u32::MAX])),
                        0x19 | 0x17 => Val::Byte(s.below(2) as u8),
                        0x26 => Val::Str(s.pick(&["", "x", "encrypted"]).to_string()),
                        _ => Val::U16(*s.pick(&[1, 2, 100, u16::MAX])),
                    };
                    props.push((id, v));
                }
            }
            let mut p = connect(&format!("publisher{}", k), props);
            if let RP::Connect { keep, .. } = &mut p {
                *keep = *s.pick(&[0u16, 1, 60, 65535]);
            }
            let m = publish("a/b", format!("m{}", k).as_bytes());
            let mut c = h.w.open(enc).await?;
            let mut b = c.seal(&write(&p));
            b.extend(c.seal(&write(&m)));
            c.raw(&b).await?;
            h.log.push(format!("{} {} publishes", if enc { "encrypted" } else { "plain" }, p.show()));
            // it is where it may go
            let got = seen.next("the message of a client").await?;
            check!(got == m, "received {} instead of {}", got.show(), m.show());
            if !(strict && enc) {
                let got = plain.next("the message of a client").await?;
                check!(got == m, "received {} instead of {}", got.show(), m.show());
            }
            seen.fence().await?;
            plain.fence().await?;
            let got = plain.take();
            check!(
                got.is_empty(),
                "a plain client receives {:?} from the encrypted client {}, strict is {}",
                got.iter().map(|g| clip(&g.show())).collect::<Vec<_>>(),
                p.show(),
                strict
            );
            if s.chance(1, 2) {
                c.close().await;
            } else {
                c.reset();
            }
        }
        cx.nontrivial(format!("{} {}", strict, h.log.join(";")).as_bytes());
        Ok(())
    })
}

/// takeovers across the listeners while messages of an encrypted client are under way
fn b06_race(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf::random(s, 2000);
    conf.strict = s.chance(4, 5);
    let strict = conf.strict;
    own_case(s, cx, conf, async |s, cx, h| {
        let mut p = h.w.client(true, "encrypted publisher", ).await?;
        let mut q = h.w.client(false, "plain publisher").await?;
        let mut y = h.w.client(true, "encrypted subscriber").await?;
        let mut z = h.w.client(false, "plain subscriber").await?;
        y.subscribe(1, &[("s/#", 0x20)]).await?;
        z.subscribe(1, &[("s/#", 0x20)]).await?;
        let rounds = s.range(1, 5);
        let mut secret = Vec::new();
        let mut open = Vec::new();
        let mut x = h.w.client(s.chance(1, 2), "x").await?;
        x.subscribe(1, &[("s/#", 0x20), ("s/+", 0x24), ("#", 0x20)]).await?;
        let mut leaked = Vec::new();
        for r in 0..rounds {
            progress(cx.worker);
            let n = s.range(1, 60);
            let mut b = Vec::new();
            for k in 0..n {
                let m = publish("s/1", format!("secret {} {}", r, k).as_bytes());
                b.extend(p.seal(&write(&m)));
                secret.push(m);
            }
            let mut b2 = Vec::new();
            for k in 0..s.range(0, 10) {
                let m = publish("s/2", format!("open {} {}", r, k).as_bytes());
                b2.extend(q.seal(&write(&m)));
                open.push(m);
            }
            let order = s.below(3);
            if order == 0 {
                p.raw(&b).await?;
            }
            q.raw(&b2).await?;
            // the next holder of the identifier
            let enc = s.chance(1, 3) && NOISE_BUILT;
            h.log.push(format!("round {}: {} secret messages, x comes over {}", r, n, if enc { "noise" } else { "tcp" }));
            let mut c = h.w.open(enc).await?;
            c.id = "x".into();
            let mut w = c.seal(&write(&connect("x", vec![])));
            let at_once = s.chance(2, 3);
            if at_once {
                w.extend(c.seal(&write(&subscribe(1, &[("s/#", 0x20), ("s/+", 0x24), ("#", 0x20)]))));
            }
            c.raw(&w).await?;
            if order == 1 {
                p.raw(&b).await?;
            }
            c.connack().await?;
            if !at_once {
                c.send(&subscribe(1, &[("s/#", 0x20), ("s/+", 0x24), ("#", 0x20)])).await?;
            }
            c.suback(1, &[0, 0, 0]).await?;
            if order == 2 {
                p.raw(&b).await?;
            }
            let old = std::mem::replace(&mut x, c);
            let enc_old = old.encrypted;
            let rest = old.closed("although its identifier is taken over").await?;
            if !enc_old {
                leaked.extend(rest);
            }
        }
        p.fence().await?;
        q.fence().await?;
        for c in [&mut x, &mut y, &mut z] {
            c.fence().await?;
        }
        if !x.encrypted {
            leaked.extend(x.take());
        }
        let plain = z.take();
        let is_secret = |p: &RP| matches!(p, RP::Publish { topic, .. } if topic == "s/1");
        if strict {
            for m in leaked.iter().chain(&plain) {
                check!(!is_secret(m), "a message published over noise reaches a plain client: {}", m.show());
            }
            check!(plain == open, "the plain subscriber receives {} of {} plain messages", plain.len(), open.len());
        } else {
            let a: Vec<RP> = plain.iter().filter(|m| is_secret(m)).cloned().collect();
            check!(a == secret, "the plain subscriber receives {} of {} messages", a.len(), secret.len());
        }
        let got = y.take();
        let a: Vec<RP> = got.iter().filter(|m| is_secret(m)).cloned().collect();
        let b: Vec<RP> = got.iter().filter(|m| !is_secret(m)).cloned().collect();
        check!(
            a == secret && b == open,
            "the encrypted subscriber receives {} of {} encrypted and {} of {} plain messages",
            a.len(),
            secret.len(),
            b.len(),
            open.len()
        );
        cx.class(if strict { "strict" } else { "permissive" });
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

pub fn b06() -> Check {
    base(
        "B06",
        "messages were delivered between clients of both listeners; counted by the history",
        vec![Sub::rand("histories", 6000, 120000, b06_history), Sub::rand("announced", 3000, 60000, b06_announced), Sub::rand("takeover", 3000, 60000, b06_race)],
    )
}

// ---------------------------------------------------------------- B07

pub fn b07_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 800) };
    own_case(s, cx, conf, async |s, cx, h| {
        let n = s.range(1, 3) as usize;
        for k in 0..n {
            let enc = s.chance(1, 3) && NOISE_BUILT;
            let mut id = if k == 0 { format!("c{}", s.below(3)) } else { h.id(s) };
            if h.ids().contains(&id) {
                // would take over
                id = format!("other{}", k);
            }
            h.connect(&id, enc, vec![]).await?;
        }
        for _ in 0..s.range(2, 8) {
            let i = s.below(n);
            // few filters, changing options
            let mut cmds = Vec::new();
            for _ in 0..s.range(1, 3) {
                let f = s.pick(&["a/b", "a/+", "a/#", "#", "c", "+"]).to_string();
                let mut t = vec![(f.clone(), 0x20 | if s.chance(1, 2) { 4 } else { 0 } | if s.chance(1, 3) { 8 } else { 0 })];
                if s.chance(1, 4) {
                    // twice in one packet: the later one counts
                    t.push((f, 0x20 | if s.chance(1, 2) { 4 } else { 0 }));
                }
                h.words.next_sub += 1;
                cmds.push(Cmd::Sub(h.words.next_sub, vec![], t));
                if s.chance(1, 2) {
                    let t = s.pick(&["a/b", "a", "a/c/d", "c", "d"]).to_string();
                    cmds.push(Cmd::Pub(h.words.message_on(s, t, 500)));
                }
            }
            h.settle().await?;
            h.burst(s, vec![(i, cmds)], false).await?;
            h.settle().await?;
            if s.chance(1, 8) {
                // starts over
                let j = s.below(n);
                let (id, enc) = (h.peers[j].id.clone(), s.chance(1, 3));
                h.connect(&id, enc, vec![]).await?;
                let last = h.peers.pop().unwrap();
                h.peers[j] = last;
            }
            let mut streams = Vec::new();
            for j in 0..n {
                let mut cmds = Vec::new();
                for _ in 0..s.range(0, 4) {
                    let t = s.pick(&["a/b", "a", "a/c/d", "c", "d", "a/c"]).to_string();
                    cmds.push(Cmd::Pub(h.words.message_on(s, t, 500)));
                }
                streams.push((j, cmds));
            }
            h.burst(s, streams, false).await?;
            h.settle().await?;
        }
        if h.deliveries > 0 {
            cx.class("messages delivered");
            cx.nontrivial(h.log.join(";").as_bytes());
        }
        Ok(())
    })
}

pub fn b07() -> Check {
    base(
        "B07",
        "messages were delivered among clients with changing no-local options; counted by the history",
        vec![Sub::rand("options", 7000, 150000, b07_history)],
    )
}

// ---------------------------------------------------------------- B08

/// frames around the maximum of the server
pub fn b08_incoming(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf::plain();
    conf.max = match s.weighted(&[6, 3, 2, 1]) {
        0 => s.range(60, 400) as u32,
        1 => *s.pick(&[127 + 2, 128 + 2, 129 + 3, 16383 + 3, 16384 + 3, 16384 + 4, 1000]),
        2 => s.range(400, 66_000) as u32,
        _ => *s.pick(&[65519, 65520, 65535, 65536, 100_000, 300_000]),
    };
    conf.queue = *s.pick(&[1 << 20, 0, 1000]);
    conf.threads = *s.pick(&[0, 0, 2]);
    own_case(s, cx, conf, async |s, cx, h| {
        let max = h.w.conf.max as usize;
        let plain = h.connect("plain", false, vec![]).await?;
        let noise = h.connect("noise", true, vec![]).await?;
        for i in [plain, noise] {
            subscribe_now(h, s, i, "t/#", 0x20).await?;
        }
        for k in 0..s.range(1, 6) {
            progress(cx.worker);
            let enc = s.chance(1, 2) && NOISE_BUILT;
            let delta = *s.pick(&[0i64, 1, -1, 2, -2, 3, 10, 100]);
            let size = (max as i64 + delta).max(50) as usize;
            if enc && size > NOISE_MAX {
                continue;
            }
            let id = format!("s{}", k);
            let kind = s.below(5);
            // a frame of just this size
            let (frame, what) = match kind {
                0 => {
                    let mut idl = size.saturating_sub(15).min(65535);
                    let mut p = connect(&"i".repeat(idl), vec![]);
                    while write(&p).len() > size {
                        idl -= 1;
                        p = connect(&"i".repeat(idl), vec![]);
                    }
                    (write(&p), "CONNECT")
                }
                1 => {
                    let mut l = size.saturating_sub(8).min(65530);
                    let mut p = subscribe(9, &[(&"f".repeat(l), 0x20)]);
                    while write(&p).len() > size {
                        l -= 1;
                        p = subscribe(9, &[(&"f".repeat(l), 0x20)]);
                    }
                    (write(&p), "SUBSCRIBE")
                }
                2 => {
                    // refused because of its QoS, but not for its size
                    let mut p = h.words.sized("t/q", size);
                    loop {
                        if let RP::Publish { flags, id, payload, .. } = &mut p {
                            *flags = 2;
                            *id = Some(3);
                            if write(&RP::clone(&RP::Publish {
                                flags: 2,
                                topic: "t/q".into(),
                                id: Some(3),
                                props: vec![],
                                payload: payload.clone(),
                            }))
                            .len()
                                <= size
                            {
                                break;
                            }
                            payload.pop();
                        }
                    }
                    (write(&p), "QoS 1 PUBLISH")
                }
                _ => (write(&h.words.sized("t/m", size)), "PUBLISH"),
            };
            let len = frame.len();
            h.log.push(format!("{} of {} bytes (limit {}) over {}", what, len, max, if enc { "noise" } else { "tcp" }));
            let mut c = if kind == 0 {
                let mut c = h.w.open(enc).await?;
                c.id = "long".into();
                c
            } else {
                let c = h.w.client(enc, &id).await?;
                c
            };
            if kind != 0 {
                c.fence().await?;
            }
            let b = c.seal(&frame);
            let mut at = Vec::new();
            if s.chance(1, 2) {
                at = cuts(s, b.len(), &[b.len() - 1, max.min(b.len() - 1), b.len().saturating_sub(2)]);
                at.truncate(20);
            }
            if len > max {
                cx.class("over the limit");
                let mut from = 0;
                for x in at.iter().chain(std::iter::once(&b.len())) {
                    if *x > from {
                        let n = c.raw_some(&b[from..*x], TICKS).await;
                        if n < *x - from {
                            break;
                        }
                        from = *x;
                        tokio::time::sleep(Duration::from_micros(300)).await;
                    }
                }
                let got = c.closed(&format!("after a {} of {} bytes, the limit is {}", what, len, max)).await?;
                check!(got.is_empty(), "an oversized {} was answered with {:?}", what, got);
            } else {
                cx.class(if len == max { "at the limit" } else { "below the limit" });
                let ok = c.raw_cut(&b, &at).await?;
                check!(ok, "the connection is closed inside a {} of {} bytes, the limit is {}", what, len, max);
                match kind {
                    0 => {
                        c.connack().await?;
                        c.fence().await?;
                    }
                    _ => c.fence().await.map_err(|f| {
                        context(&format!("after a {} of {} bytes, the limit is {}", what, len, max), f)
                    })?,
                }
                let got = c.take();
                let want = match kind {
                    1 => vec![RP::SubAck { ty: T_SUBACK, id: 9, props: vec![], codes: vec![0] }],
                    2 => vec![refusal()],
                    _ => vec![],
                };
                check!(
                    got.len() == want.len()
                        && got.iter().zip(&want).all(|(a, b)| a == b || (is_refusal(a) && is_refusal(b))),
                    "a {} of {} bytes (limit {}) was answered with {:?}",
                    what,
                    len,
                    max,
                    got.iter().map(|g| clip(&g.show())).collect::<Vec<_>>()
                );
                if kind >= 3 {
                    if let Read::Good(p, _, _) = read(&frame) {
                        for i in [plain, noise] {
                            if len <= h.peers[i].limit {
                                h.peers[i].exp.entry(99).or_default().push(Exp { pkt: p.clone(), need: Need::Must });
                            }
                        }
                    }
                }
            }
            h.settle().await?;
            c.close().await;
        }
        let ids = h.ids();
        h.w.registry(&ids).await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

/// messages around what their receivers can take
pub fn b08_outgoing(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, ..Conf::random(s, 300) };
    if s.chance(1, 3) {
        conf.max = *s.pick(&[70_000, 200_000, 1 << 20, 65520, 65519, 65540]);
    }
    conf.max = conf.max.min(1 << 20);
    own_case(s, cx, conf, async |s, cx, h| {
        let max = h.w.conf.max as usize;
        let n = s.range(1, 4);
        let mut limits = vec![];
        for k in 0..n {
            let enc = s.chance(1, 2) && NOISE_BUILT;
            let props = match s.below(5) {
                0 => vec![],
                1 => vec![(0x27u8, Val::U32(s.range(40, 300) as u32))],
                2 => vec![(0x27, Val::U32(max as u32))],
                3 => vec![(0x27, Val::U32(*s.pick(&[u32::MAX, 65519, 65520, 268_435_455, 128, 129, 130])))],
                _ => vec![(0x27, Val::U32(s.range(40, max as u64 + 10) as u32))],
            };
            let i = h.connect(&format!("r{}", k), enc, props).await?;
            subscribe_now(h, s, i, "t/#", 0x20).await?;
            limits.push(h.peers[i].limit);
        }
        let sender = h.connect("sender", false, vec![]).await?;
        let mut cmds = Vec::new();
        for _ in 0..s.range(3, 15) {
            let l = *s.pick(&limits);
            let d = *s.pick(&[0i64, 1, -1, 2, -2, 5, -5, 50]);
            let size = (l as i64 + d).clamp(20, max as i64) as usize;
            if s.chance(1, 6) {
                // what is not forwarded does not count
                let p = h.words.sized("t/x", size.saturating_sub(9).max(20));
                cmds.push(Cmd::Pub(p));
            } else {
                let t = if s.chance(1, 8) { "elsewhere" } else { "t/m" };
                let m = h.words.sized(t, size);
                cmds.push(Cmd::Pub(m));
            }
        }
        if cmds.iter().any(|c| limits.iter().any(|l| write(&c.packet()).len() > *l)) {
            cx.class("some too large for some");
        }
        h.burst(s, vec![(sender, cmds)], true).await?;
        h.settle().await?;
        // and from the receivers themselves
        let mut streams = Vec::new();
        for i in 0..n as usize {
            let m = h.words.sized("t/m", (limits[i] + 1).min(max).min(NOISE_MAX));
            let m2 = h.words.sized("t/n", 25);
            streams.push((i, vec![Cmd::Pub(m), Cmd::Pub(m2)]));
        }
        h.burst(s, streams, false).await?;
        h.settle().await?;
        let ids = h.ids();
        h.w.registry(&ids).await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

/// answers around what the client that asks can take
pub fn b08_answers(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 300) };
    own_case(s, cx, conf, async |s, cx, h| {
        let keep = h.w.conf.keep;
        let watcher = h.connect("the watcher", true, vec![]).await?;
        subscribe_now(h, s, watcher, "told/#", 0x20).await?;
        for k in 0..s.range(1, 5) {
            progress(cx.worker);
            let enc = s.chance(1, 2) && NOISE_BUILT;
            let id = if s.chance(1, 3) { String::new() } else { format!("c{}", k) };
            let mut p = connect(&id, vec![]);
            if let RP::Connect { flags, props, .. } = &mut p {
                if s.chance(1, 3) {
                    props.push((0x11, Val::U32(s.draw(3) as u32)));
                }
                if s.chance(1, 3) {
                    props.push((0x21, Val::U16(s.range(1, 3) as u16)));
                }
                if s.chance(1, 3) {
                    *flags &= !2;
                }
            }
            // limits around the sizes of all the answers
            let size = write(&expect_connack(&p, keep).1).len() as i64;
            let near = *s.pick(&[0i64, 1, -1, 2, -2]);
            let l = match s.below(4) {
                0 => size + near,
                1 => 5 + near,
                2 => s.range(6, 20) as i64,
                _ => s.range(1, 100) as i64,
            };
            let l = l.max(1) as u32;
            if let RP::Connect { props, .. } = &mut p {
                props.push((0x27, Val::U32(l)));
                *props = norm_props(props);
            }
            let (good, want) = expect_connack(&p, keep);
            let limit = l as usize;
            h.log.push(format!("{} with a limit of {}", clip(&p.show()), l));
            let mut c = h.w.open(enc).await?;
            c.id = format!("limited to {}", l);
            c.send(&p).await?;
            let cmp = |got: &RP, want: &RP| -> bool {
                let mut g = got.clone();
                if let RP::ConnAck { props, .. } = &mut g {
                    props.retain(|x| x.0 != 0x27);
                    for (k, v) in props.iter_mut() {
                        if let (0x12, Val::Str(t)) = (*k, v) {
                            *t = "x".repeat(36);
                        }
                    }
                }
                g == *want
            };
            let fits = write(&want).len() <= limit;
            cx.class(match (good, fits) {
                (true, true) => "CONNACK fits",
                (true, false) => "CONNACK does not fit",
                (false, true) => "refusal fits",
                (false, false) => "refusal does not fit",
            });
            if !good {
                let got = c.closed("after a CONNECT that is refused").await?;
                let n = if fits { 1 } else { 0 };
                check!(
                    got.len() == n && got.iter().all(|g| cmp(g, &want)),
                    "{} (limit {}) was answered with {:?}, an answer would be {} of {} bytes",
                    p.show(),
                    l,
                    got,
                    want.show(),
                    write(&want).len()
                );
                continue;
            }
            let mut exp: Vec<RP> = if fits { vec![want] } else { vec![] };
            for j in 0..s.range(1, 6) {
                let (cmd, ans) = if s.chance(1, 3) {
                    let cmd = match s.below(3) {
                        0 => RP::Ping { ty: T_PINGREQ },
                        1 => RP::Publish { flags: 2, topic: "a".into(), id: Some(1), props: vec![], payload: vec![] },
                        _ => unsupported(s, &mut h.words, 250),
                    };
                    (cmd, refusal())
                } else {
                    let base = (l as i64 + *s.pick(&[0i64, 1, -1, 2])).clamp(6, 50) as usize - 5;
                    let f: Vec<(String, u8)> =
                        (0..base).map(|x| (format!("f{}", x), *s.pick(&[0x20u8, 0x24, 0x28, 0x2c, 0x21, 0x00, 0x12]))).collect();
                    let f: Vec<(&str, u8)> = f.iter().map(|(t, o)| (t.as_str(), *o)).collect();
                    let codes = f.iter().map(|(_, o)| suback_code(*o)).collect();
                    (
                        subscribe(100 + j as u16, &f),
                        RP::SubAck { ty: T_SUBACK, id: 100 + j as u16, props: vec![], codes },
                    )
                };
                c.send(&cmd).await?;
                if write(&ans).len() <= limit {
                    exp.push(ans);
                } else {
                    cx.class("an answer does not fit");
                }
            }
            let m = publish("told/me", format!("{}", k).as_bytes());
            c.send(&m).await?;
            h.w_wait(watcher, &m).await?;
            let n = exp.len();
            c.wait("all its answers", |i| if i.pkts.len() >= n { Some(()) } else { None }).await?;
            if limit >= 6 {
                c.fence().await?;
            }
            c.half_close().await;
            let got = c.closed("although the client has left").await?;
            check!(
                got.len() == exp.len() && got.iter().zip(&exp).all(|(g, w)| cmp(g, w) || (is_refusal(g) && is_refusal(w))),
                "a client with a limit of {} is answered with {:?}, expected {:?}",
                l,
                got.iter().map(|g| clip(&g.show())).collect::<Vec<_>>(),
                exp.iter().map(|g| clip(&g.show())).collect::<Vec<_>>()
            );
            for g in &got {
                let size = write(g).len();
                check!(size <= limit, "a client with a limit of {} was sent a packet of {} bytes", l, size);
            }
        }
        h.settle().await?;
        let ids = h.ids();
        h.w.registry(&ids).await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

pub fn b08() -> Check {
    base(
        "B08",
        "packets around a limit were sent and the outcome compared; counted by the history",
        vec![
            Sub::rand("incoming", 3000, 60000, b08_incoming),
            Sub::rand("outgoing", 3000, 60000, b08_outgoing),
            Sub::rand("answers", 3000, 60000, b08_answers),
        ],
    )
}

// ---------------------------------------------------------------- B09

pub fn b09_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut p = Profile::base();
    p.ops = [6, 4, 4, 4];
    p.burst = 5;
    p.steps = 14;
    p.force_strict = Some(false);
    hist_case(s, cx, &p, |_, _| ())
}

/// many connections with the same few identifiers, not waiting for anything
fn b09_storm(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 1000) };
    own_case(s, cx, conf, async |s, cx, h| {
        let names = ["one", "two", "three"];
        let ids = &names[..s.range(1, 3) as usize];
        // the last one of each identifier to connect is not known before
        let mut open: Vec<(usize, Client)> = Vec::new();
        let n = s.range(2, 14);
        let mut gone = 0;
        for _ in 0..n {
            progress(cx.worker);
            let k = s.below(ids.len());
            let enc = s.chance(1, 3) && NOISE_BUILT;
            let mut c = h.w.open(enc).await?;
            c.id = ids[k].to_string();
            let mut b = c.seal(&write(&connect(ids[k], vec![])));
            if s.chance(1, 2) {
                // what it asks for ends with it
                b.extend(c.seal(&write(&subscribe(1, &[("old/#", 0x20), ("#", 0x20)]))));
                for _ in 0..s.below(4) {
                    b.extend(c.seal(&write(&publish("old/x", b"y"))));
                }
            }
            c.raw(&b).await?;
            match s.below(7) {
                0 => {
                    c.reset();
                    gone += 1;
                }
                1 => {
                    c.close().await;
                    gone += 1;
                }
                2 => {
                    drop(c);
                    gone += 1;
                }
                3 => {
                    // connected for sure, or taken over since
                    let _ = c.wait("a CONNACK", |i| if i.pkts.is_empty() && !i.closed { None } else { Some(()) }).await;
                    open.push((k, c));
                }
                _ => open.push((k, c)),
            }
        }
        h.log.push(format!("{} connections for {:?}, {} gone at once", n, ids, gone));
        // every one that is still there has been connected or replaced: ask
        let mut alive: Vec<Vec<Client>> = ids.iter().map(|_| Vec::new()).collect();
        for (k, mut c) in open {
            let f = c.fence_send().await?;
            let r = c.fence_wait(f).await;
            if c.is_closed() {
                continue;
            }
            r?;
            alive[k].push(c);
        }
        // a connection may have been replaced after it answered, even by one that is gone itself:
        // at rest at most one is left, and those are the ones listed
        let mut want;
        let mut k = 0;
        loop {
            want = Vec::new();
            let mut most = 0;
            for (k, v) in alive.iter_mut().enumerate() {
                v.retain(|c| !c.is_closed());
                most = most.max(v.len());
                if !v.is_empty() {
                    want.push(ids[k].to_string());
                }
            }
            want.sort();
            let mut got = match patient(cx.worker, h.w.server.as_ref().unwrap().clients()).await {
                Some(v) => v.iter().map(|c| c.to_string()).collect::<Vec<_>>(),
                None => return missing("asking for the list of clients never returns"),
            };
            got.sort();
            if most <= 1 && got == want {
                break;
            }
            k += 1;
            if k > TICKS * 10 {
                if most > 1 {
                    return missing(format!("{} connections stay open for the same identifier", most));
                }
                return missing(format!("the server lists the clients {:?}, connected are {:?}", got, want));
            }
            progress(cx.worker);
            tokio::time::sleep(TICK / 10).await;
        }
        // the survivors are served
        for (k, v) in alive.iter_mut().enumerate() {
            if let Some(c) = v.first_mut() {
                let t = format!("mine/{}", k);
                let m = publish(&t, b"z");
                let r = async {
                    c.fence().await?;
                    c.take();
                    c.subscribe(2, &[(&t, 0x20)]).await?;
                    c.send(&m).await?;
                    c.fence().await
                }
                .await;
                if r.is_err() && c.is_closed() && gone > 0 {
                    cx.class("replaced late");
                    continue;
                }
                r?;
                let got = c.take();
                check!(
                    got.iter().filter(|g| **g == m).count() == 1,
                    "the connection left for {:?} publishes to itself and receives {:?}",
                    ids[k],
                    got
                );
                cx.class("somebody is left");
            }
        }
        // nothing of the earlier ones' subscriptions is left
        let mut p = h.w.client(true, "publisher").await?;
        for i in ids {
            let enc = s.chance(1, 3) && NOISE_BUILT;
            let mut again = 0;
            loop {
                let mut c = h.w.client(enc, i).await?;
                let r = async {
                    c.fence().await?;
                    p.send(&publish("old/1", b"z")).await?;
                    p.send(&publish("mine/0", b"z")).await?;
                    p.fence().await?;
                    c.fence().await
                }
                .await;
                if r.is_err() && c.is_closed() && gone > 0 && again < 3 {
                    // one that is long gone has only now been accepted
                    cx.class("replaced late");
                    again += 1;
                    continue;
                }
                r?;
                let got = c.take();
                check!(got.is_empty(), "a clean connection of {:?} without subscriptions receives {:?}", i, got);
                c.close().await;
                break;
            }
        }
        h.w.registry(&["publisher".to_string()]).await?;
        cx.nontrivial(format!("{:?} {:?}", h.w.conf, s.rec).as_bytes());
        Ok(())
    })
}

/// an identifier with many subscriptions changes hands while messages for them pour in
fn b09_flood(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 1000) };
    own_case(s, cx, conf, async |s, cx, h| {
        let max = h.w.conf.max as usize;
        let filters = s.range(20, 600) as usize;
        let deep = s.chance(1, 2);
        let name = |i: usize| if deep { format!("f/{}/{}", i % 7, i) } else { format!("f{}", i) };
        let subscribe_all = |c: &Client| -> (Vec<u8>, Vec<(u16, usize)>) {
            let (mut b, mut acks, mut at) = (Vec::new(), Vec::new(), 0);
            while at < filters {
                let mut t: Vec<(String, u8)> = Vec::new();
                let mut size = 10;
                while at < filters && size < max.min(2000) - 30 {
                    t.push((name(at), 0x20));
                    size += t[t.len() - 1].0.len() + 3;
                    at += 1;
                }
                let t: Vec<(&str, u8)> = t.iter().map(|(f, o)| (f.as_str(), *o)).collect();
                acks.push((acks.len() as u16 + 1, t.len()));
                b.extend(c.seal(&write(&subscribe(acks.len() as u16, &t))));
            }
            (b, acks)
        };
        let n = s.range(1, 3);
        let mut pubs = Vec::new();
        for k in 0..n {
            let enc = s.chance(1, 4) && NOISE_BUILT;
            pubs.push(h.w.client(enc, &format!("p{}", k)).await?);
        }
        let mut old: Option<Client> = None;
        let rounds = s.range(1, 4);
        for r in 0..=rounds {
            progress(cx.worker);
            let enc = s.chance(1, 4) && NOISE_BUILT;
            let mut c = h.w.open(enc).await?;
            c.id = "one".into();
            let mut b = c.seal(&write(&connect("one", vec![])));
            b.extend(c.seal(&write(&subscribe(FENCE - 1, &[("fence", 0x21)]))));
            if old.is_some() {
                // messages for the old one, before and while the new one comes
                let len = s.range(50, 400);
                let before = s.range(0, len);
                let mut waves = Vec::new();
                for p in &pubs {
                    let mut w = [Vec::new(), Vec::new()];
                    for j in 0..len {
                        // the last ones are in place for longest
                        let i = if s.chance(1, 2) { filters - 1 - s.below(filters.min(20)) } else { s.below(filters) };
                        let x = p.seal(&write(&publish(&name(i), b"m")));
                        w[(j >= before) as usize].extend(x);
                    }
                    waves.push(w);
                }
                for (p, w) in pubs.iter_mut().zip(&waves) {
                    p.raw(&w[0]).await?;
                }
                match s.below(4) {
                    0 => {
                        if let Some(o) = old.take() {
                            o.close().await
                        }
                    }
                    1 => {
                        if let Some(o) = old.take() {
                            o.reset()
                        }
                    }
                    _ => cx.class("taken over"),
                }
                c.raw(&b).await?;
                for (p, w) in pubs.iter_mut().zip(&waves) {
                    p.raw(&w[1]).await?;
                }
            } else {
                c.raw(&b).await?;
            }
            c.connack().await?;
            for p in &mut pubs {
                p.fence().await?;
            }
            c.fence().await?;
            let got = c.take();
            let want = RP::SubAck { ty: T_SUBACK, id: FENCE - 1, props: vec![], codes: vec![0x83] };
            check!(
                got == [want],
                "a new clean connection of a client, which has not subscribed to anything yet, receives {:?}",
                got.iter().take(10).map(|g| clip(&g.show())).collect::<Vec<_>>()
            );
            if let Some(o) = old.take() {
                o.closed("although its identifier is taken over").await?;
            }
            if r == rounds {
                h.w.registry(&std::iter::once("one".to_string()).chain((0..n).map(|k| format!("p{}", k))).collect::<Vec<_>>()).await?;
                break;
            }
            let (b, acks) = subscribe_all(&c);
            c.raw(&b).await?;
            for (id, k) in acks {
                c.suback(id, &vec![0; k]).await?;
            }
            old = Some(c);
        }
        h.log.push(format!("{} filters, {} rounds", filters, rounds));
        cx.nontrivial(format!("{:?} {:?}", h.w.conf, s.rec).as_bytes());
        Ok(())
    })
}

/// whoever is accepted last has the identifier
fn b09_order(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, ..Conf::random(s, 600) };
    conf.threads = *s.pick(&[0, 2, 4, 4]);
    own_case(s, cx, conf, async |s, cx, h| {
        let mut over = Vec::new();
        let ids: Vec<String> = (0..s.range(1, 3)).map(|k| format!("same{}", k)).collect();
        let mut last: Vec<Option<Client>> = ids.iter().map(|_| None).collect();
        for _ in 0..s.range(2, 30) {
            progress(cx.worker);
            let k = s.below(ids.len());
            let enc = s.chance(1, 2);
            // it is accepted, nothing else is waited for
            let c = h.w.client(enc, &ids[k]).await?;
            h.log.push(format!("{} over {}", ids[k], if enc { "noise" } else { "tcp" }));
            if let Some(old) = last[k].replace(c) {
                over.push(old);
            }
        }
        for c in over {
            c.closed_quietly("although a connection accepted after it has its identifier").await?;
        }
        let mut open = Vec::new();
        for c in last.iter_mut().flatten() {
            c.fence().await.map_err(|f| context("the connection that was accepted last", f))?;
            open.push(c.id.clone());
        }
        h.w.registry(&open).await?;
        let what = h.log.join(";");
        cx.nontrivial(what.as_bytes());
        Ok(())
    })
}
pub fn b09() -> Check {
    base(
        "B09",
        "connections were made, ended or taken over and the list of clients, the open connections and the deliveries compared; counted by the history",
        vec![Sub::rand("histories", 6000, 120000, b09_history), Sub::rand("storm", 6000, 150000, b09_storm), Sub::rand("flood", 800, 30000, b09_flood), Sub::rand("order", 3000, 60000, b09_order)],
    )
}

// ---------------------------------------------------------------- B10

fn b10_shutdown(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf::random(s, 2000);
    match s.below(8) {
        0 if NOISE_BUILT => conf.tcp = false,
        1 => conf.noise = false,
        _ => {}
    }
    let conf2 = conf.clone();
    own_case(s, cx, conf, async |s, cx, h| {
        let n = s.range(0, 9);
        let mut open: Vec<Client> = Vec::new();
        let mut plain: Vec<tokio::net::TcpStream> = Vec::new();
        let mut busy = Vec::new();
        for k in 0..n {
            progress(cx.worker);
            let enc = if !conf2.tcp { true } else { conf2.noise && s.chance(1, 2) };
            let id = format!("c{}", k);
            let kind = s.below(10);
            h.log.push(format!("{}{}", kind, if enc { "n" } else { "t" }));
            match kind {
                0 => {
                    cx.class("connected");
                    open.push(h.w.client(enc, &id).await?);
                }
                1 => {
                    cx.class("not yet sent anything");
                    let so = h.w.socket(enc, None).await?;
                    plain.push(so);
                }
                2 => {
                    cx.class("inside the CONNECT");
                    let mut c = h.w.open(enc).await?;
                    let b = c.seal(&write(&connect("half", vec![])));
                    c.raw(&b[..s.range(1, b.len() as u64 - 1) as usize]).await?;
                    open.push(c);
                }
                3 => {
                    cx.class("inside a handshake");
                    let so = h.w.socket(enc, None).await?;
                    if enc {
                        let mut so = so;
                        let mut hs = initiator(&h.w.public);
                        let mut buf = vec![0u8; 1000];
                        let k = hs.write_message(&[], &mut buf).unwrap();
                        let _ = put_frame(&mut so, &buf[..k]).await;
                        plain.push(so);
                    } else {
                        plain.push(so);
                    }
                }
                4 => {
                    cx.class("handshake done, no CONNECT");
                    open.push(h.w.open(enc).await?);
                }
                5 => {
                    cx.class("inside a packet");
                    let mut c = h.w.client(enc, &id).await?;
                    let b = c.seal(&write(&publish("a", b"0123456789")));
                    c.raw(&b[..s.range(1, b.len() as u64 - 1) as usize]).await?;
                    open.push(c);
                }
                6 | 7 => {
                    cx.class("publishing");
                    let mut c = h.w.client(enc, &id).await?;
                    c.subscribe(1, &[("load/#", 0x20)]).await?;
                    let t = format!("load/{}", k);
                    let size = s.range(0, 1500) as usize;
                    busy.push(tokio::spawn(async move {
                        // until the connection ends
                        for _ in 0..3000 {
                            let b = c.seal(&write(&publish(&t, &vec![b'x'; size])));
                            match c.raw(&b).await {
                                Ok(true) => (),
                                _ => break,
                            }
                            if c.is_closed() {
                                break;
                            }
                            tokio::task::yield_now().await;
                        }
                        c
                    }));
                }
                8 => {
                    cx.class("not reading");
                    let mut c = h.w.client_with(enc, &id, vec![], Some(131_072)).await?;
                    c.subscribe(1, &[("big/#", 0x20), ("load/#", 0x20)]).await?;
                    c.pause();
                    let size = (conf2.max as usize - 30).min(60_000);
                    let count = (s.range(0, 7) as usize) << 20;
                    let mut p = h.w.client(enc, &format!("p{}", k)).await?;
                    for _ in 0..count / (size * 2).max(10_000) {
                        p.send(&publish("big/x", &vec![b'b'; size])).await?;
                    }
                    if s.chance(1, 2) {
                        p.fence().await?;
                    }
                    open.push(p);
                    open.push(c);
                }
                _ => {
                    cx.class("just gone or taken over");
                    let c = h.w.client(enc, "same").await?;
                    if s.chance(1, 2) {
                        c.reset();
                    } else {
                        open.push(c);
                    }
                }
            }
        }
        // connections that nobody has accepted yet
        let late = s.below(4);
        for _ in 0..late {
            let enc = if !conf2.tcp { true } else { conf2.noise && s.chance(1, 2) };
            let so = h.w.socket(enc, None).await?;
            let mut c = Client::plain(so, cx.worker);
            if s.chance(1, 2) {
                let b = write(&connect("late", vec![]));
                c.raw(&b).await?;
            }
            open.push(c);
        }
        let server = h.w.server.take().unwrap();
        if patient_for(cx.worker, TICKS * 2, server.shutdown()).await.is_none() {
            return missing("shutdown does not return");
        }
        // a new server can take the addresses at once
        let server = match MqttServer::new(h.w.config()).await {
            Ok(x) => x,
            Err(e) => return broken(format!("after shutdown a server cannot be started on the same addresses: {:?}", e)),
        };
        // the old connections are closed
        for c in open {
            c.unpause();
            c.closed("by shutdown").await?;
        }
        for so in plain {
            let c = Client::plain(so, cx.worker);
            c.closed_quietly("by shutdown").await?;
        }
        for b in busy {
            match patient(cx.worker, b).await {
                Some(Ok(c)) => {
                    c.closed("by shutdown").await?;
                }
                _ => return missing("a publishing client is not disconnected by shutdown"),
            }
        }
        h.w.server = Some(server);
        h.w.registry(&[]).await?;
        h.w.healthy().await?;
        if s.chance(1, 3) {
            let server = h.w.server.take().unwrap();
            if patient_for(cx.worker, TICKS * 2, server.shutdown()).await.is_none() {
                return missing("a second shutdown does not return");
            }
        }
        cx.nontrivial(format!("{:?} {} {}", conf2, h.log.join(" "), late).as_bytes());
        Ok(())
    })
}

pub fn b10() -> Check {
    base(
        "B10",
        "a server with generated connections was shut down and its addresses taken over by a new one; counted by configuration and connections",
        vec![Sub::rand("shutdown", 4000, 80000, b10_shutdown)],
    )
}

// ---------------------------------------------------------------- B11

pub fn b11_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut p = Profile::base();
    p.cmds = [3, 2, 8];
    p.force_strict = Some(false);
    p.ops = [12, 3, 1, 1];
    hist_case(s, cx, &p, |_, _| ())
}
/// every packet type, alone, between supported ones
fn b11_each(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, threads: 0, max: 70_000, queue: 1000, ..Conf::plain() };
    let index = cx.index;
    own_case(s, cx, conf, async |s, cx, h| {
        let enc = index % 2 == 1;
        let kind = index / 2;
        let a = h.connect("sender", enc, vec![]).await?;
        let b = h.connect("other", false, vec![]).await?;
        for i in [a, b] {
            subscribe_now(h, s, i, "a/#", 0x20).await?;
        }
        h.words.filters = vec!["a/#".into(), "a/b".into()];
        for _ in 0..3 {
            let u = match kind {
                0..=14 => {
                    let ty = kind as u8 + 1;
                    let mut p = gen::packet_of(s, ty);
                    if ty == T_PUBLISH {
                        p = RP::Publish { flags: 2, topic: "a/b".into(), id: Some(1), props: vec![], payload: vec![1] };
                    }
                    if ty == T_SUBSCRIBE {
                        p = RP::Subscribe { id: 4, props: vec![(0x0b, Val::Var(3))], topics: vec![("new".into(), 0x20)] };
                    }
                    if ty == T_UNSUBSCRIBE {
                        p = RP::Unsubscribe { id: 4, props: vec![], topics: vec!["a/#".into()] };
                    }
                    p
                }
                k => {
                    let (flags, id, props): (u8, Option<u16>, Props) = match k {
                        15 => (2, Some(1), vec![]),
                        16 => (4, Some(2), vec![]),
                        17 => (1, None, vec![]),
                        18 => (10, Some(3), vec![]),
                        19 => (13, Some(3), vec![]),
                        20 => (0, None, vec![(2, Val::U32(10))]),
                        21 => (0, None, vec![(0x23, Val::U16(1))]),
                        22 => (0, None, vec![(0x0b, Val::Var(1))]),
                        23 => (3, Some(65535), vec![]),
                        _ => (0, None, vec![(0x26, Val::Str("u".into())), (2, Val::U32(0)), (3, Val::Str("t".into()))]),
                    };
                    RP::Publish { flags, topic: "a/b".into(), id, props, payload: b"x".to_vec() }
                }
            };
            let f = write(&u);
            match read(&f) {
                Read::Good(_, _, soft) if soft.is_empty() && f.len() < 60_000 => (),
                _ => continue,
            }
            let cmds = vec![
                Cmd::Pub(publish("a/before", b"1")),
                Cmd::Unsup(u.clone()),
                Cmd::Pub(publish("a/between", b"2")),
                Cmd::Unsup(u),
                Cmd::Pub(publish("a/after", b"3")),
            ];
            h.burst(s, vec![(a, cmds)], true).await?;
            h.settle().await?;
            let cmds = vec![Cmd::Pub(publish("a/b", b"4")), Cmd::Pub(publish("new", b"5"))];
            h.burst(s, vec![(b, cmds)], false).await?;
            h.settle().await?;
        }
        let ids = h.ids();
        h.w.registry(&ids).await?;
        if h.refusals > 0 {
            cx.nontrivial(h.log.join(";").as_bytes());
        }
        Ok(())
    })
}

pub fn b11() -> Check {
    base(
        "B11",
        "unsupported packets were refused among supported ones; counted by the history",
        vec![Sub::rand("each", 2500, 50000, b11_each_random), Sub::rand("histories", 6000, 120000, b11_history)],
    )
}
fn b11_each_random(s: &mut Src, cx: &mut Ctx) -> Res {
    // every kind over both transports, round and round
    let keep = cx.index;
    cx.index %= 50;
    let r = b11_each(s, cx);
    cx.index = keep;
    r
}

// ---------------------------------------------------------------- B12

fn b12_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut p = Profile::base();
    p.burst = 20;
    p.steps = 6;
    let mut kind = "";
    let r = hist_case(s, cx, &p, |s, c| {
        c.queue = *s.pick(&[0, 1, 2, 100, 255, 256, 257, 298, 299, 300, 511, 512, 1 << 12, 1 << 16, 1 << 40, usize::MAX]);
        c.keep = *s.pick(&[0, 20, 21, 60, 255, 256, 21845, 21846, 32768, 65535]);
        c.max = match s.below(4) {
            0 => s.range(600, 1000) as u32,
            1 => *s.pick(&[65519, 65535, 65536, 1 << 16, 1 << 20, 1 << 24]),
            2 => *s.pick(&[268_435_455, 268_435_460, 1 << 30, u32::MAX]),
            _ => s.range(600, 1 << 24) as u32,
        };
        match s.below(4) {
            0 if NOISE_BUILT => {
                c.tcp = false;
                kind = "noise only";
            }
            1 => {
                c.noise = false;
                kind = "tcp only";
            }
            _ => kind = "both listeners",
        }
        c.threads = *s.pick(&[0, 0, 1, 2, 8]);
    });
    cx.class(kind);
    r
}

fn b12_address(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 600) };
    own_case(s, cx, conf, async |s, cx, h| {
        let (tcp, noise) = (h.w.tcp, h.w.noise);
        let server = h.w.server.take().unwrap();
        if patient_for(cx.worker, TICKS * 2, server.shutdown()).await.is_none() {
            return missing("shutdown does not return");
        }
        let mut blockers = Vec::new();
        let mut cfg = h.w.config();
        let elsewhere = |s: &mut Src| -> std::net::SocketAddr {
            // not an address of this machine, whatever that has
            let (net, host, port) = (s.draw(3) as usize, s.range(1, 250), s.range(1024, 60000));
            for k in 0..250 {
                let net = ["192.0.2", "198.51.100", "203.0.113"][net];
                let a = format!("{}.{}:{}", net, 1 + (host + k) % 250, port).parse().unwrap();
                if std::net::TcpListener::bind::<std::net::SocketAddr>(a).is_err() {
                    return a;
                }
            }
            unreachable!("every address can be bound")
        };
        let which = s.below(3);
        let slots = [
            &mut cfg.mqtt_socketaddr,
            #[cfg(feature = "noise")]
            &mut cfg.noise_socketaddr,
        ];
        for (k, slot) in slots.into_iter().enumerate() {
            if NOISE_BUILT && which != 2 && which != k {
                if s.chance(1, 4) {
                    *slot = None;
                }
                continue;
            }
            if s.chance(1, 2) {
                let a = slot.unwrap();
                match std::net::TcpListener::bind(a) {
                    Ok(l) => blockers.push(l),
                    Err(e) => return Err(Fail::Infra(e.to_string())),
                }
            } else {
                *slot = Some(elsewhere(s));
            }
        }
        #[cfg(feature = "noise")]
        h.log.push(format!("noise address {:?}", cfg.noise_socketaddr));
        h.log.push(format!("plain address {:?}, {} in use", cfg.mqtt_socketaddr, blockers.len()));
        let r = match patient(cx.worker, MqttServer::new(cfg)).await {
            Some(r) => r,
            None => return missing("the constructor does not return"),
        };
        check!(r.is_err(), "the server starts although a listen address cannot be used");
        drop(r);
        drop(blockers);
        // nothing is left behind: the addresses are as free as before
        match MqttServer::new(h.w.config()).await {
            Ok(x) => h.w.server = Some(x),
            Err(e) => {
                return broken(format!(
                    "after a failed start a server cannot be started on the addresses {} and {}: {:?}",
                    tcp, noise, e
                ))
            }
        }
        h.w.healthy().await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}
/// a server without any listener, or with one: nothing else is opened
fn b12_listeners(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf::random(s, 600);
    conf.tcp = s.chance(1, 2);
    conf.noise = !conf.tcp && s.chance(1, 2) && NOISE_BUILT;
    own_case(s, cx, conf.clone(), async |s, cx, h| {
        for (on, a) in [(conf.tcp, h.w.tcp), (conf.noise, h.w.noise)] {
            let r = std::net::TcpStream::connect_timeout(&a, Duration::from_secs(10));
            check!(r.is_ok() == on, "listener wanted: {}, connecting to it: {:?}", on, r.map(|_| ()));
        }
        h.w.healthy().await?;
        let c = h.w.server.as_ref().unwrap().config();
        check!(
            c.max_packet_size == conf.max && c.keep_alive == conf.keep && c.dispatcher_queue_size == conf.queue,
            "the server reports another configuration than it was given"
        );
        let server = h.w.server.take().unwrap();
        if patient_for(cx.worker, TICKS * 2, server.shutdown()).await.is_none() {
            return missing("shutdown does not return");
        }
        let _ = s;
        cx.nontrivial(format!("{:?}", conf).as_bytes());
        Ok(())
    })
}

fn same_config(a: &MqttServerConfig, b: &MqttServerConfig) -> Res {
    check!(
        a.mqtt_socketaddr == b.mqtt_socketaddr
            && a.keep_alive == b.keep_alive
            && a.dispatcher_queue_size == b.dispatcher_queue_size
            && a.max_packet_size == b.max_packet_size,
        "the plain listener's address, keep-alive, queue size or packet size is another one when read back: {:?} {} {} {}",
        b.mqtt_socketaddr,
        b.keep_alive,
        b.dispatcher_queue_size,
        b.max_packet_size
    );
    #[cfg(feature = "noise")]
    check!(
        a.noise_socketaddr == b.noise_socketaddr
            && a.channel_permeability == b.channel_permeability
            && a.private_key == b.private_key,
        "the noise listener's address, the permeability or the key is another one when read back: {:?} {:?}",
        b.noise_socketaddr,
        b.private_key
    );
    Ok(())
}
/// a configuration that is written out and read back, or written by hand
fn b12_written(s: &mut Src, cx: &mut Ctx) -> Res {
    use crate::form::*;
    use serde::{Deserialize, Serialize};
    let mut conf = Conf::random(s, 600);
    conf.max = *s.pick(&[600, 65536, u32::MAX, 1 << 20]);
    conf.keep = *s.pick(&[50, 0, 65535, 256]);
    conf.queue = *s.pick(&[0, 1 << 20, 1 << 40, usize::MAX]);
    let key = s.draw(1 << 32);
    own_case(s, cx, conf, async |s, cx, h| {
        let server = h.w.server.take().unwrap();
        if patient_for(cx.worker, TICKS * 2, server.shutdown()).await.is_none() {
            return missing("shutdown does not return");
        }
        let (private, public) = keys(key);
        h.w.private = private;
        h.w.public = public;
        let mut cfg = h.w.config();
        let address = |s: &mut Src| -> Option<std::net::SocketAddr> {
            match s.below(4) {
                0 => None,
                1 => Some(([s.draw(256) as u8, 0, 255, s.draw(256) as u8], s.draw(65536) as u16).into()),
                2 => Some((std::net::Ipv6Addr::from(s.draw(1 << 60) as u128 * 0x1_0000_0001_0001), s.draw(65536) as u16).into()),
                _ => Some(([127, 0, 0, 1], *s.pick(&[0u16, 1, 1883, 65535])).into()),
            }
        };
        // any addresses first, which nobody listens on
        let serve = s.chance(1, 4);
        if !serve {
            cfg.mqtt_socketaddr = address(s);
            #[cfg(feature = "noise")]
            {
                cfg.noise_socketaddr = address(s);
            }
        }
        let by_hand = s.chance(1, 2);
        let form = if by_hand {
            let text = |a: Option<std::net::SocketAddr>| a.map(|a| Form::Text(a.to_string())).unwrap_or(Form::Unit);
            let mut m = vec![
                ("mqtt_socketaddr", text(cfg.mqtt_socketaddr)),
                ("keep_alive", Form::Num(cfg.keep_alive as u64)),
                ("dispatcher_queue_size", Form::Num(cfg.dispatcher_queue_size as u64)),
                ("max_packet_size", Form::Num(cfg.max_packet_size as u64)),
                #[cfg(feature = "noise")]
                ("noise_socketaddr", text(cfg.noise_socketaddr)),
                #[cfg(feature = "noise")]
                ("channel_permeability", Form::Text(if h.w.conf.strict { "Strict" } else { "Permissive" }.into())),
                #[cfg(feature = "noise")]
                ("private_key", Form::List(cfg.private_key.iter().map(|b| Form::Num(*b as u64)).collect())),
            ];
            // in any order, and what is not set may be left out
            for i in (1..m.len()).rev() {
                m.swap(i, s.below(i + 1));
            }
            if s.chance(1, 2) {
                m.retain(|(_, v)| *v != Form::Unit);
            }
            cx.class("written by hand");
            Form::Map(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
        } else {
            cx.class("written out");
            match cfg.serialize(Writer) {
                Ok(f) => f,
                Err(e) => return broken(format!("a configuration cannot be written out: {}", e)),
            }
        };
        h.log.push(format!("{:?}", form));
        let back = match MqttServerConfig::deserialize(form) {
            Ok(b) => b,
            Err(e) => return broken(format!("a configuration cannot be read back: {}", e)),
        };
        same_config(&cfg, &back)?;
        if serve {
            cx.class("served");
            match MqttServer::new(back).await {
                Ok(x) => h.w.server = Some(x),
                Err(e) => return broken(format!("the server does not start with the configuration that was read: {:?}", e)),
            }
            same_config(&cfg, h.w.server.as_ref().unwrap().config())?;
            h.w.healthy().await?;
        }
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

pub fn b12() -> Check {
    base(
        "B12",
        "a server with a generated configuration ran a generated history (or was given an address it cannot use); counted by configuration and history",
        vec![
            Sub::rand("configurations", 6000, 120000, b12_history),
            Sub::rand("addresses", 1500, 30000, b12_address),
            Sub::rand("listeners", 1000, 20000, b12_listeners),
            Sub::rand("written", 2500, 50000, b12_written),
        ],
    )
}

// ---------------------------------------------------------------- B13

/// only encrypted clients, everything as over TCP
pub fn b13_history(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut p = Profile::base();
    p.encrypted = (1, 1);
    hist_case(s, cx, &p, |_, _| ())
}

fn frame_of(m: &[u8]) -> Vec<u8> {
    let mut v = (m.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(m);
    v
}
/// damage to one message: never the same bytes
fn damage(s: &mut Src, m: &[u8]) -> (Vec<u8>, &'static str) {
    let mut v = m.to_vec();
    let what = match s.below(5) {
        0 | 1 => {
            let i = s.below(v.len());
            v[i] ^= 1 << s.draw(8);
            "bit flip"
        }
        2 => {
            let n = s.below(v.len());
            v.truncate(n);
            "truncated"
        }
        3 => {
            let n = s.range(1, 40) as usize;
            let x = s.bytes(n);
            v.extend(x);
            "extended"
        }
        _ => {
            let i = s.below(v.len());
            let b = s.draw(255) as u8;
            v[i] = if b >= v[i] { b.wrapping_add(1) } else { b };
            "changed byte"
        }
    };
    (v, what)
}

pub fn b13_handshake(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, keep: 50, ..Conf::random(s, 1000) };
    own_case(s, cx, conf, async |s, cx, h| {
        let o = h.connect("observer", true, vec![]).await?;
        subscribe_now(h, s, o, "#", 0x20).await?;
        for _ in 0..s.range(1, 4) {
            progress(cx.worker);
            let kind = s.below(8);
            let mut so = h.w.socket(true, None).await?;
            let mut buf = vec![0u8; 70_000];
            let mut key = h.w.public;
            let mut pattern = NOISE;
            let what: String;
            match kind {
                0 => {
                    key = keys(1000 + s.draw(1000)).1;
                }
                1 => {
                    let i = s.below(32);
                    key[i] ^= 1 << s.draw(if i == 31 { 7 } else { 8 });
                }
                2 => {
                    pattern = *s.pick(&[
                        "Noise_XK_25519_ChaChaPoly_SHA256",
                        "Noise_XK_25519_AESGCM_BLAKE2s",
                        "Noise_XK_25519_ChaChaPoly_BLAKE2b",
                        "Noise_NK_25519_ChaChaPoly_BLAKE2s",
                        "Noise_IK_25519_ChaChaPoly_BLAKE2s",
                    ]);
                }
                _ => (),
            }
            let (lk, _) = keys(s.range(1, 1 << 30));
            let mut b = snow::Builder::new(pattern.parse().unwrap()).remote_public_key(&key);
            if !pattern.contains("_NK_") {
                b = b.local_private_key(&lk);
            }
            let mut hs = match b.build_initiator() {
                Ok(x) => x,
                Err(_) => continue,
            };
            let n = hs.write_message(&[], &mut buf).map_err(|e| Fail::Infra(e.to_string()))?;
            let m1 = buf[..n].to_vec();
            let evil = [write(&connect("forged", vec![])), write(&publish("forged", b"x"))];
            let mut tail = Vec::new();
            for e in &evil {
                tail.extend(frame_of(e));
            }
            if kind <= 2 || kind == 3 {
                let mut first = m1.clone();
                let mut how = "";
                if kind == 3 {
                    let (v, x) = damage(s, &m1);
                    first = v;
                    how = x;
                }
                what = match kind {
                    0 => "wrong server key".into(),
                    1 => "server key off by a bit".into(),
                    2 => format!("pattern {}", pattern),
                    _ => format!("first message {}", how),
                };
                let mut w = frame_of(&first);
                w.extend(&tail);
                let _ = so.write_all(&w).await;
            } else if kind == 4 {
                // a recorded handshake played back to the server
                what = "replayed handshake".into();
                let mut other = h.w.socket(true, None).await?;
                let r = patient(cx.worker, async {
                    put_frame(&mut other, &m1).await?;
                    let a = get_frame(&mut other).await?;
                    Ok::<_, std::io::Error>(a)
                })
                .await;
                let a = match r {
                    Some(Ok(a)) => a,
                    x => return broken(format!("the handshake is not answered: {:?}", x.map(|r| r.map(|_| ())))),
                };
                let mut t = vec![0u8; 1000];
                if hs.read_message(&a, &mut t).is_err() {
                    return broken("the handshake answer is not authentic");
                }
                let n = hs.write_message(&[], &mut buf).unwrap();
                let m3 = buf[..n].to_vec();
                let mut tr = hs.into_transport_mode().unwrap();
                let n = tr.write_message(&evil[0], &mut buf).unwrap();
                let m4 = buf[..n].to_vec();
                let n = tr.write_message(&evil[1], &mut buf).unwrap();
                let m5 = buf[..n].to_vec();
                drop(other);
                let mut w = Vec::new();
                for m in [&m1, &m3, &m4, &m5] {
                    w.extend(frame_of(m));
                }
                let _ = so.write_all(&w).await;
            } else {
                let r = patient(cx.worker, async {
                    put_frame(&mut so, &m1).await?;
                    get_frame(&mut so).await
                })
                .await;
                let a = match r {
                    Some(Ok(a)) => a,
                    x => return broken(format!("the handshake is not answered: {:?}", x.map(|r| r.map(|_| ())))),
                };
                let mut t = vec![0u8; 1000];
                if hs.read_message(&a, &mut t).is_err() {
                    return broken("the handshake answer is not authentic");
                }
                let n = hs.write_message(&[], &mut buf).unwrap();
                let m3 = buf[..n].to_vec();
                let mut tr = hs.into_transport_mode().unwrap();
                let n = tr.write_message(&evil[0], &mut buf).unwrap();
                let m4 = buf[..n].to_vec();
                let n = tr.write_message(&evil[1], &mut buf).unwrap();
                let m5 = buf[..n].to_vec();
                let ms: Vec<Vec<u8>> = match kind {
                    5 => {
                        let (v, x) = damage(s, &m3);
                        what = format!("last message {}", x);
                        vec![v, m4, m5]
                    }
                    6 => {
                        what = "last message missing, repeated or out of order".into();
                        match s.below(4) {
                            0 => vec![m4, m5],
                            1 => vec![m1, m3, m4, m5],
                            2 => vec![m4, m3, m5],
                            _ => vec![a, m4, m5],
                        }
                    }
                    _ => {
                        // as it should be up to here, then damage
                        let (v, x) = damage(s, &m4);
                        what = format!("first packet {}", x);
                        vec![m3, v, m5]
                    }
                };
                let mut w = Vec::new();
                for m in &ms {
                    w.extend(frame_of(m));
                }
                let _ = so.write_all(&w).await;
            }
            h.log.push(what.clone());
            let c = Client::plain(so, cx.worker);
            c.closed_quietly(&format!("after: {}", what)).await?;
            if kind < 4 {
                check!(c.bytes_received() == 0, "an unauthentic first message ({}) is answered", what);
            }
        }
        h.settle().await?;
        h.w.registry(&["observer".to_string()]).await?;
        h.traffic(s).await?;
        h.settle().await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

pub fn b13_transport(s: &mut Src, cx: &mut Ctx) -> Res {
    let conf = Conf { strict: false, ..Conf::random(s, 1000) };
    own_case(s, cx, conf, async |s, cx, h| {
        let o = h.connect("observer", true, vec![]).await?;
        subscribe_now(h, s, o, "#", 0x20).await?;
        let mut earlier: Vec<Vec<u8>> = Vec::new();
        for k in 0..s.range(1, 4) {
            progress(cx.worker);
            let mut c = h.w.client(true, &format!("c{}", k)).await?;
            let mut sent = Vec::new();
            // honest messages first
            for _ in 0..s.below(4) {
                let m = h.words.message(s, 300);
                let b = c.seal(&write(&m));
                c.raw(&b).await?;
                sent.push(b);
                let seen = matches!(&m, RP::Publish { topic, .. } if !topic.starts_with('$'));
                if seen {
                    h.peers[o].exp.entry(k as usize + 1).or_default().push(Exp { pkt: forwarded(&m), need: Need::Must });
                }
            }
            c.fence().await?;
            let one = write(&publish("forged/1", b"x"));
            let two = write(&publish("forged/2", b"y"));
            let mut closes = true;
            let (b, what): (Vec<u8>, String) = match s.below(12) {
                0 | 1 => {
                    let m = c.seal(&one);
                    let (v, x) = damage(s, &m[4..]);
                    (frame_of(&v), format!("message {}", x))
                }
                2 if !sent.is_empty() => (s.pick(&sent).clone(), "message replayed".into()),
                3 => {
                    let _lost = c.seal(&one);
                    (c.seal(&two), "message missing before this one".into())
                }
                4 => {
                    let a = c.seal(&one);
                    let mut b = c.seal(&two);
                    b.extend(a);
                    (b, "two messages in the wrong order".into())
                }
                5 if !earlier.is_empty() => (s.pick(&earlier).clone(), "message of another connection".into()),
                6 => (one.clone(), "not encrypted".into()),
                7 => (frame_of(&one), "not encrypted in a frame".into()),
                8 => {
                    let mut both = one.clone();
                    both.extend(&two);
                    (c.seal(&both), "two packets in a message".into())
                }
                9 => {
                    let mut p = one.clone();
                    match s.below(3) {
                        0 => {
                            let n = s.below(p.len());
                            p.truncate(n);
                        }
                        1 => p.push(s.draw(256) as u8),
                        _ => {
                            // half of it here, half of it in the next message
                            let n = s.range(1, p.len() as u64 - 1) as usize;
                            let mut b = c.seal(&p[..n]);
                            b.extend(c.seal(&p[n..]));
                            h.log.push("a packet in two messages".into());
                            c.raw(&b).await?;
                            c.closed("after half a packet in a message").await?;
                            continue;
                        }
                    }
                    (c.seal(&p), "not just one packet in a message".into())
                }
                10 => {
                    let n = *s.pick(&[0u32, 1, 15, 65536, 100_000, (8 << 20) + 1, u32::MAX]);
                    let mut v = n.to_be_bytes().to_vec();
                    let have = (n as usize).min(100_000);
                    v.extend(vec![7u8; have]);
                    (v, format!("message of {} bytes of nonsense", n))
                }
                _ => {
                    // the length in front is not authentic either
                    let mut m = c.seal(&one);
                    let (i, bit) = (s.below(4), s.draw(8));
                    m[i] ^= 1 << bit;
                    // a larger length just waits for more
                    closes = m[..4] < (m.len() as u32 - 4).to_be_bytes()[..];
                    (m, "length changed".into())
                }
            };
            h.log.push(what.clone());
            let mut b = b;
            if s.chance(1, 2) {
                // authentic ones after it do not help
                b.extend(c.seal(&two));
            }
            c.raw(&b).await?;
            if closes {
                let got = c.closed(&format!("after: {}", what)).await?;
                check!(got.is_empty(), "{} was answered with {:?}", what, got);
            } else {
                c.close().await;
            }
            for m in sent {
                earlier.push(m);
            }
            h.w.registry(&["observer".to_string()]).await?;
            h.settle().await?;
        }
        h.traffic(s).await?;
        h.settle().await?;
        cx.nontrivial(format!("{} {:?}", h.log.join(";"), s.rec).as_bytes());
        Ok(())
    })
}

pub fn b13() -> Check {
    base(
        "B13",
        "a history over the encrypted listener was compared with the model, or a damaged message sent and its effect watched; counted by the history",
        vec![
            Sub::rand("histories", 4000, 80000, b13_history),
            Sub::rand("handshake", 8000, 200000, b13_handshake),
            Sub::rand("transport", 8000, 200000, b13_transport),
        ],
    )
}

// ---------------------------------------------------------------- B14

fn b14_stalled(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, ..Conf::random(s, 3000) };
    conf.max = conf.max.min(200_000);
    own_case(s, cx, conf, async |s, cx, h| {
        let n = s.range(2, 3) as usize;
        let m = s.range(1, 3) as usize;
        for k in 0..n {
            let enc = s.chance(1, 3) && NOISE_BUILT;
            let i = h.connect(&format!("active{}", k), enc, vec![]).await?;
            let f = if s.chance(1, 2) { "big/#" } else { "small/#" };
            subscribe_now(h, s, i, f, 0x20).await?;
        }
        let mut stalled = Vec::new();
        for k in 0..m {
            let enc = s.chance(1, 3) && NOISE_BUILT;
            let i = h.connect_with(&format!("stalled{}", k), enc, vec![], Some(131_072)).await?;
            let f = if s.chance(3, 4) { "big/#" } else { "+/x" };
            subscribe_now(h, s, i, f, 0x20).await?;
            stalled.push(i);
        }
        for i in &stalled {
            h.peers[*i].c.as_ref().unwrap().pause();
        }
        let active: Vec<usize> = (0..n).collect();
        // more than the socket buffers take, or not
        let mut total = *s.pick(&[200_000usize, 4 << 20, 7 << 20, 10 << 20]);
        let mut size = *s.pick(&[900usize, 60_000, 20_000, 100]);
        let mut most = 4000;
        if s.chance(1, 12) {
            // many messages beyond what the buffers take
            (total, size, most) = (*s.pick(&[8usize << 20, 12 << 20]), *s.pick(&[100, 500, 800]), *s.pick(&[24_000, 24_000, 72_000]));
        }
        let size = size.min(h.w.conf.max as usize);
        let count = (total / size).min(most);
        if count > 4000 {
            cx.class("more than 4000 messages");
        }
        let mut left = count;
        let mut gone = 0;
        while left > 0 {
            progress(cx.worker);
            let k = (1 + s.below(count)).min(left);
            left -= k;
            let who = s.below(n);
            let mut cmds = Vec::new();
            for j in 0..k {
                cmds.push(Cmd::Pub(h.words.sized("big/x", size)));
                if j % 16 == 0 {
                    cmds.push(Cmd::Pub(h.words.sized("small/x", 30)));
                }
            }
            h.burst(s, vec![(who, cmds)], false).await?;
            h.log.pop();
            h.log.push(format!("{} messages of {} bytes", k, size));
            h.settle_of(&active).await.map_err(|f| context("while others do not read", f))?;
            match s.below(8) {
                0 => {
                    // subscriptions and newcomers work
                    let who = s.below(n);
                    h.words.next_sub += 1;
                    let c = Cmd::Sub(h.words.next_sub, vec![], vec![("small/#".into(), 0x20)]);
                    h.burst(s, vec![(who, vec![c])], false).await?;
                    h.settle_of(&active).await?;
                }
                1 => {
                    h.w.healthy().await.map_err(|f| context("while others do not read", f))?;
                }
                2 if gone == 0 && stalled.len() > 1 => {
                    // a stalled one disappears
                    let i = stalled.pop().unwrap();
                    let c = h.peers[i].c.take().unwrap();
                    h.peers[i].subs.clear();
                    h.peers[i].exp.clear();
                    gone += 1;
                    cx.class("stalled client disappears");
                    h.log.push("a stalled client disappears".into());
                    let id = h.peers[i].id.clone();
                    if s.chance(1, 2) {
                        c.reset();
                    } else {
                        // its identifier is taken over
                        let mut d = h.w.client(s.chance(1, 2), &id).await?;
                        d.fence().await?;
                        c.unpause();
                        c.closed("although its identifier is taken over").await?;
                        d.close().await;
                    }
                    let ids = h.ids();
                    h.w.registry(&ids).await?;
                }
                _ => (),
            }
        }
        if count * size >= 7 << 20 {
            cx.class("more than socket buffers hold");
        }
        for i in &stalled {
            h.peers[*i].c.as_ref().unwrap().unpause();
        }
        h.settle().await.map_err(|f| context("after reading again", f))?;
        h.traffic(s).await?;
        h.settle().await?;
        cx.nontrivial(h.log.join(";").as_bytes());
        Ok(())
    })
}

pub fn b14() -> Check {
    base(
        "B14",
        "messages were published to clients that do not read; counted by the history",
        vec![Sub::rand("stalled", 1200, 25000, b14_stalled)],
    )
}

// ---------------------------------------------------------------- B15

/// connections that do not get to CONNECT in time
fn b15_time(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, ..Conf::random(s, 600) };
    // mostly short ones that run out, and long ones that must not
    let long = s.chance(1, 3);
    conf.keep = if long { *s.pick(&[0u16, 30, 60, 255, 256, 257, 512, 1000, 4096, 32_768, 32_769, 65_280, 65_534, 65_535]) } else { s.range(1, 2) as u16 };
    own_case(s, cx, conf, async |s, cx, h| {
        let keep = h.w.conf.keep as u64;
        let o = h.connect("idle", s.chance(1, 2), vec![]).await?;
        let mut open = Vec::new();
        // what some of them send now and then, with no end
        let mut drops: Vec<(usize, Vec<u8>)> = Vec::new();
        // one that is slow and in time
        let mut slow = None;
        let n = s.range(1, 6);
        for k in 0..n {
            let enc = s.chance(1, 2) && NOISE_BUILT;
            let kind = s.below(8);
            h.log.push(format!("{}{}", kind, if enc { "n" } else { "t" }));
            match kind {
                0 => {
                    let so = h.w.socket(enc, None).await?;
                    open.push(Client::plain(so, cx.worker));
                }
                1 => {
                    let mut so = h.w.socket(enc, None).await?;
                    let b = if enc { vec![0, 0, 0, 48, 1, 2, 3] } else { vec![0x10, 30, 0, 4] };
                    let _ = so.write_all(&b).await;
                    open.push(Client::plain(so, cx.worker));
                }
                2 => {
                    // byte by byte, what is announced never gets complete
                    let c = Client::plain(h.w.socket(enc, None).await?, cx.worker);
                    let mut b = if enc { vec![0, 0, 2, 0] } else { write(&connect(&"i".repeat(400), vec![])) };
                    b.resize(400, 7);
                    drops.push((open.len(), b));
                    open.push(c);
                }
                3 => {
                    let c = h.w.open(enc).await?;
                    let mut b = c.seal(&write(&connect(&"i".repeat(400), vec![])));
                    b.truncate(400);
                    drops.push((open.len(), b));
                    open.push(c);
                }
                4 if slow.is_none() && (long || keep > 1) => {
                    let c = h.w.open(enc).await?;
                    let b = c.seal(&write(&connect("slow", vec![])));
                    slow = Some((c, b));
                }
                _ => {
                    let mut c = h.w.open(enc).await?;
                    let b = c.seal(&write(&connect(&format!("late{}", k), vec![])));
                    let cut = s.below(b.len());
                    c.raw(&b[..cut]).await?;
                    open.push(c);
                }
            }
        }
        let mut registered = vec![h.peers[o].id.clone()];
        if let Some((mut c, b)) = slow {
            let cut = 1 + s.below(b.len() - 1);
            c.raw(&b[..cut]).await?;
            let ms = s.range(20, 400);
            tokio::time::sleep(Duration::from_millis(ms)).await;
            progress(cx.worker);
            c.raw(&b[cut..]).await?;
            c.connack().await.map_err(|f| context("a client that takes its time with its CONNECT", f))?;
            registered.push("slow".into());
            // and it stays
            slow = Some((c, Vec::new()));
            cx.class("slow and in time");
        }
        // not at once, not never
        tokio::time::sleep(Duration::from_millis(300)).await;
        if long || keep > 1 {
            for c in &open {
                check!(!c.is_closed(), "a connection is closed long before {} s are over", keep);
            }
        }
        progress(cx.worker);
        let rounds = if long { 55 } else { keep * 3 * 10 + 2 * TICKS as u64 };
        for k in 0..rounds {
            tokio::time::sleep(Duration::from_millis(100)).await;
            progress(cx.worker);
            if k % 2 == 0 {
                for (i, b) in &mut drops {
                    if !open[*i].is_closed() && !b.is_empty() {
                        let x = b.remove(0);
                        open[*i].raw_some(&[x], 1).await;
                    }
                }
            }
            if !long && open.iter().all(|c| c.is_closed()) {
                break;
            }
        }
        if !drops.is_empty() {
            cx.class("bytes keep coming");
        }
        for c in &open {
            if long {
                check!(!c.is_closed(), "a connection is closed within 6 s, the keep-alive is {} s", keep);
            } else if !c.is_closed() {
                return missing(format!("a connection that has not sent a CONNECT stays open, the keep-alive is {} s", keep));
            }
        }
        // those that have connected stay
        if let Some((c, _)) = &mut slow {
            c.fence().await?;
        }
        h.traffic(s).await?;
        h.settle().await?;
        h.w.registry(&registered).await?;
        if long {
            cx.class("long keep-alive");
        }
        cx.nontrivial(format!("{} {}", keep, h.log.join(" ")).as_bytes());
        Ok(())
    })
}

pub fn b15() -> Check {
    let mut c = base(
        "B15",
        "connections were left before their CONNECT and closed by the server in time; counted by configuration and connections",
        vec![Sub::rand("time", 60, 1200, b15_time)],
    );
    c.threads = 20;
    c
}

// ---------------------------------------------------------------- B18

/// a new connection, brought to some point
pub async fn b18_stage(s: &mut Src, w: &mut World, k: u64) -> Result<(Client, usize), Fail> {
    let max = (w.conf.max as usize).min(60_000);
    let enc = s.chance(1, 2) && NOISE_BUILT;
    let mut kind = s.below(14);
    let mut c = match kind {
        // nothing, or not even a whole first message
        0 => Client::plain(w.socket(enc, None).await?, w.worker),
        1 => {
            let mut so = w.socket(enc, None).await?;
            let all: &[u8] = if enc { &[0, 0, 0, 48, 1, 2, 3] } else { &[0x10, 30, 0, 4, b'M', b'Q'] };
            let _ = so.write_all(&all[..1 + s.below(all.len() - 1)]).await;
            Client::plain(so, w.worker)
        }
        // the handshake half way
        2 if enc => {
            let mut so = w.socket(true, None).await?;
            let mut hs = initiator(&w.public);
            let mut b = [0u8; 200];
            let n = hs.write_message(&[], &mut b).map_err(|e| Fail::Infra(e.to_string()))?;
            let _ = put_frame(&mut so, &b[..n]).await;
            if s.chance(1, 2) {
                let _ = patient(w.worker, get_frame(&mut so)).await;
            }
            Client::plain(so, w.worker)
        }
        2 | 3 => w.open(enc).await?,
        4 => {
            let mut c = w.open(enc).await?;
            let b = c.seal(&write(&connect(&format!("late{}", k), vec![])));
            let cut = s.below(b.len());
            c.raw(&b[..cut]).await?;
            c
        }
        // not waiting for the answer
        5 => {
            let mut c = w.open(enc).await?;
            let mut b = c.seal(&write(&connect(&format!("fast{}", k), vec![])));
            if s.chance(1, 2) {
                b.extend(c.seal(&write(&subscribe(1, &[("flood/#", 0x20)]))));
                b.extend(c.seal(&write(&publish("flood/x", b"y"))));
            }
            c.raw(&b).await?;
            c
        }
        // refused, or announcing a limit that leaves it without an answer
        6 => {
            let mut c = w.open(enc).await?;
            let p = match s.below(3) {
                0 => {
                    kind = 5;
                    connect(&format!("small{}", k), vec![(0x27, Val::U32(s.range(1, 8) as u32))])
                }
                1 => connect(&format!("auth{}", k), vec![(0x15, Val::Str("x".into()))]),
                _ => subscribe(1, &[("flood/#", 0x20)]),
            };
            let b = c.seal(&write(&p));
            c.raw(&b).await?;
            c
        }
        // connected and served
        7 => w.client(enc, &format!("idle{}", k)).await?,
        8 => {
            let mut c = w.client(enc, &format!("sub{}", k)).await?;
            c.subscribe(1, &[("flood/#", 0x20), ("+", 0x20)]).await?;
            c
        }
        // in the middle of a packet
        9 => {
            let mut c = w.client(enc, &format!("half{}", k)).await?;
            let b = c.seal(&write(&publish("flood/x", &vec![b'x'; s.below(max - 40)])));
            let cut = s.below(b.len());
            c.raw(&b[..cut]).await?;
            c
        }
        // taken over by the next one
        10 => {
            let mut c = w.client(enc, "shared").await?;
            // known to the server before the next one
            c.fence().await?;
            c
        }
        // more than the server takes
        12 => {
            let mut c = w.client(enc, &format!("large{}", k)).await?;
            if s.chance(1, 2) {
                c.subscribe(1, &[("flood/#", 0x20)]).await?;
            }
            let size = if enc { (w.conf.max as usize + 1).min(70_000) } else { w.conf.max as usize + 1 };
            if enc && size > NOISE_MAX || size > 300_000 {
                // what no message can carry, and what need not be sent as a whole
                kind = 7;
            } else {
                let m = h_sized("flood/x", size);
                let m = c.seal(&m);
                // it may be closed before it has sent all of it
                let _ = c.raw(&m).await;
            }
            c
        }
        // what is not a packet
        13 => {
            let mut c = w.client(enc, &format!("bad{}", k)).await?;
            if s.chance(1, 2) {
                c.subscribe(1, &[("flood/#", 0x20)]).await?;
            }
            let b: &[u8] = *s.pick(&[&[0u8, 0][..], &[0xf1, 0], &[0x30, 3, 0, 9, b'a'], &[0x82, 4, 0, 1, 0, 0], &[0x31, 0x80, 0x80, 0x80, 0x80, 1]]);
            let b = c.seal(b);
            c.raw(&b).await?;
            c
        }
        // does not read while there is something to send to it
        _ => {
            let mut c = w.client_with(enc, &format!("stalled{}", k), vec![], Some(4096)).await?;
            c.subscribe(1, &[("big/#", 0x20)]).await?;
            c.pause();
            c
        }
    };
    c.id = format!("{}:{}{}", k, kind, if enc { "n" } else { "t" });
    Ok((c, kind))
}
/// a PUBLISH of so many bytes, or one more
fn h_sized(topic: &str, size: usize) -> Vec<u8> {
    let mut n = size.saturating_sub(topic.len() + 5);
    loop {
        let m = write(&publish(topic, &vec![b'.'; n]));
        if m.len() >= size {
            return m;
        }
        n += 1;
    }
}
/// connections that end at whatever point they have reached
fn b18_ends(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, ..Conf::random(s, 3000) };
    // nothing ends by itself
    conf.keep = *s.pick(&[0, 0, 600, 65_535]);
    own_case(s, cx, conf, async |s, cx, h| {
        let stay = h.w.client(s.chance(1, 2), "stays").await?;
        let mut stay = stay;
        stay.fence().await?;
        let mut open: Vec<(Client, bool)> = Vec::new();
        let mut over: Vec<Client> = Vec::new();
        let mut shared: Option<Client> = None;
        let n = s.range(1, 12);
        let max = (h.w.conf.max as usize).min(60_000);
        let mut log = Vec::new();
        for k in 0..n {
            progress(cx.worker);
            let (c, kind) = b18_stage(s, h.w, k).await?;
            log.push(c.id.clone());
            match kind {
                // the server ends these by itself, nothing is to be done for that
                6 | 12 | 13 if s.chance(2, 3) => over.push(c),
                10 => {
                    if let Some(old) = shared.replace(c) {
                        over.push(old);
                    }
                }
                _ => open.push((c, kind == 11)),
            }
        }
        if let Some(c) = shared {
            open.push((c, false));
        }
        if open.iter().any(|o| o.1) {
            let total = *s.pick(&[10_000usize, 300_000, 6 << 20]);
            let size = max.min(30_000);
            let m = publish("big/x", &vec![b'b'; size - 20]);
            let mut left = total / size + 1;
            while left > 0 {
                progress(cx.worker);
                let mut b = Vec::new();
                for _ in 0..left.min(32) {
                    b.extend(stay.seal(&write(&m)));
                }
                left -= left.min(32);
                stay.raw(&b).await?;
            }
            stay.fence().await?;
            cx.class("a client that does not read");
        }
        let at_once = s.chance(1, 2);
        while !open.is_empty() {
            progress(cx.worker);
            let (mut c, stalled) = open.swap_remove(s.below(open.len()));
            let how = s.below(4);
            log.push(format!("{}/{}", c.id, how));
            match how {
                0 => c.close().await,
                1 => c.reset(),
                2 => drop(c),
                _ if stalled => {
                    // reads what there is and sees the end
                    c.half_close().await;
                    c.unpause();
                    c.closed_quietly("although the client has closed its side").await?;
                }
                _ => {
                    c.half_close().await;
                    c.closed_quietly("although the client has closed its side").await?;
                }
            }
            if !at_once && s.chance(1, 3) {
                // those still open have their connections, or have been refused
                let ids: Vec<&str> = open.iter().map(|o| o.0.id.as_str()).collect();
                h.log.push(format!("{} left", ids.len()));
                stay.fence().await?;
            }
        }
        let what = log.join(" ");
        h.log.push(what.clone());
        h.log.push(format!("{} ended by the server", over.len()));
        h.w.released(1, "although all but one have ended").await?;
        h.w.registry(&["stays".to_string()]).await?;
        for c in over {
            c.closed_quietly("although the server does not serve it any more").await?;
        }
        for t in ["flood/x", "big/x", "a"] {
            if let Some(server) = &h.w.server {
                let mut k = 0;
                loop {
                    let left = match patient(cx.worker, server.get_topics().get_all_subscribed(t)).await {
                        Some(m) => m.len(),
                        None => return missing("asking for the subscribers of a topic never returns"),
                    };
                    if left == 0 {
                        break;
                    }
                    k += 1;
                    if k > TICKS {
                        return missing(format!("{} clients stay subscribed to {:?}, all of them have ended", left, t));
                    }
                    progress(cx.worker);
                    tokio::time::sleep(TICK).await;
                }
            }
        }
        stay.fence().await?;
        stay.take();
        h.w.healthy().await?;
        stay.close().await;
        h.w.released(0, "although all have ended").await?;
        cx.nontrivial(format!("{} {}", h.w.conf.keep, what).as_bytes());
        Ok(())
    })
}

pub fn b18() -> Check {
    base(
        "B18",
        "connections ended at the points they had reached and the connections the server has left were counted; counted by the points and the ways of ending",
        vec![Sub::rand("ends", 8000, 150000, b18_ends)],
    )
}

// ---------------------------------------------------------------- B16

/// the same in a build without the noise feature, which is the default of the library; every
/// client is a plain one then
pub fn b16() -> Check {
    base(
        "B16",
        "as in the check of the property that the sub-test belongs to, by a broker that was built without its noise feature",
        vec![
            Sub::rand("histories", 3000, 60000, b01_history),
            Sub::rand("bursts", 400, 10000, b01_bursts),
            Sub::rand("fanout", 100, 2000, b01_fanout),
            Sub::rand("connects", 1500, 30000, b02_connects),
            Sub::rand("first-packets", 800, 10000, b02_first),
            Sub::rand("subscribe", 1000, 20000, b03_subscribe),
            Sub::rand("hostile", 500, 10000, b04_case),
            Sub::rand("segments", 300, 6000, b05_stream),
            Sub::rand("between", 300, 6000, b05_between),
            Sub::rand("no-local", 1000, 20000, b07_history),
            Sub::rand("incoming", 500, 10000, b08_incoming),
            Sub::rand("outgoing", 500, 10000, b08_outgoing),
            Sub::rand("answers", 800, 10000, b08_answers),
            Sub::rand("registry", 1000, 20000, b09_history),
            Sub::rand("storm", 1000, 20000, b09_storm),
            Sub::rand("flood", 200, 4000, b09_flood),
            Sub::rand("shutdown", 500, 10000, b10_shutdown),
            Sub::rand("refused", 1000, 20000, b11_history),
            Sub::rand("configurations", 800, 20000, b12_history),
            Sub::rand("addresses", 300, 5000, b12_address),
            Sub::rand("listeners", 300, 5000, b12_listeners),
            Sub::rand("written", 800, 20000, b12_written),
            Sub::rand("stalled", 100, 2000, b14_stalled),
            Sub::rand("time", 16, 100, b15_time),
            Sub::rand("ends", 300, 6000, b18_ends),
        ],
    )
}

// ---------------------------------------------------------------- B17

/// the same with everything logged
pub fn b17() -> Check {
    log_everything();
    base(
        "B17",
        "as in the check of the property that the sub-test belongs to, by a broker whose spans and log lines of every level are written out",
        vec![
            Sub::rand("histories", 1500, 40000, b01_history),
            Sub::rand("connects", 2000, 40000, b02_connects),
            Sub::rand("first-packets", 800, 20000, b02_first),
            Sub::rand("subscribe", 1000, 20000, b03_subscribe),
            Sub::rand("hostile", 800, 20000, b04_case),
            Sub::rand("segments", 200, 5000, b05_stream),
            Sub::rand("permeability", 800, 20000, b06_history),
            Sub::rand("outgoing", 500, 10000, b08_outgoing),
            Sub::rand("answers", 500, 10000, b08_answers),
            Sub::rand("registry", 800, 20000, b09_history),
            Sub::rand("storm", 800, 20000, b09_storm),
            Sub::rand("shutdown", 500, 10000, b10_shutdown),
            Sub::rand("ends", 300, 6000, b18_ends),
            Sub::rand("refused", 1500, 30000, b11_history),
            Sub::rand("each", 1500, 30000, b11_each_random),
            Sub::rand("addresses", 300, 5000, b12_address),
            Sub::rand("handshake", 1500, 30000, b13_handshake),
            Sub::rand("transport", 1500, 30000, b13_transport),
        ],
    )
}
