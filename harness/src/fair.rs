//! Checks of who is served while others never pause.
use crate::broker::base;
use crate::engine::*;
use crate::net::*;
use crate::refcodec::*;
use std::sync::atomic::Ordering;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

const KINDS: [&str; 9] = [
    "messages to nobody",
    "messages to itself",
    "messages to another one",
    "SUBSCRIBEs",
    "unsupported packets",
    "large messages to nobody",
    "connections that come and go",
    "connections that take over from each other",
    "connections that send garbage",
];

/// connections without a pause; kind 6..9
fn storm(w: &World, kind: usize, number: usize) -> Flood {
    let mut f = Flood::default();
    let (stop, sent) = (f.stop.clone(), f.sent.clone());
    let addr = if w.conf.noise && kind == 8 && number % 2 == 0 { w.noise } else { w.tcp };
    let task = tokio::spawn(async move {
        let mut k = 0usize;
        let mut last = None;
        while !stop.load(Ordering::SeqCst) {
            k += 1;
            let mut c = match tokio::net::TcpStream::connect(addr).await {
                Ok(c) => c,
                Err(_) => {
                    tokio::time::sleep(std::time::Duration::from_millis(5)).await;
                    continue;
                }
            };
            #[allow(deprecated)]
            let _ = c.set_linger(Some(std::time::Duration::ZERO));
            let out = match kind {
                6 => write(&connect(&format!("storm{}-{}", number, k), vec![])),
                7 => write(&connect(&format!("storm{}", number), vec![])),
                _ => vec![0, 0, 0, 3, 1, 2, 3],
            };
            let mut b = [0u8; 64];
            if c.write_all(&out).await.is_ok() {
                let _ = c.read(&mut b).await;
            }
            // the one before ends only now
            last = if kind == 7 { Some(c) } else { None };
            sent.fetch_add(1, Ordering::SeqCst);
        }
        drop(last);
    });
    f.task = Some(task);
    f
}

struct Flooder {
    kind: usize,
    c: Option<Client>,
    flood: Flood,
    /// those that receive what it sends
    sink: Option<Client>,
}
impl Flooder {
    /// grows while it is served
    fn served(&self) -> usize {
        match &self.c {
            Some(c) => c.bytes_received(),
            None => self.flood.count(),
        }
    }
}

/// waits until the server lists this client, or does not list it any more
async fn listed(w: &World, id: &str, want: bool) -> Res {
    for k in 0..TICKS * 5 {
        let server = match &w.server {
            Some(s) => s,
            None => return Ok(()),
        };
        match patient(w.worker, server.clients()).await {
            Some(v) => {
                if v.iter().any(|c| &**c == id) == want {
                    return Ok(());
                }
            }
            None => return missing("asking for the list of clients never returns"),
        }
        progress(w.worker);
        if k < 20 {
            tokio::task::yield_now().await;
        } else {
            tokio::time::sleep(TICK / 5).await;
        }
    }
    missing(format!("{:?} {} listed", id, if want { "is never" } else { "remains" }))
}

fn b23_flood(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, keep: 0, ..Conf::random(s, 2000) };
    conf.tcp = true;
    // what waits in the queue is served first, and a huge one takes long
    conf.queue = conf.queue.min(200_000);
    conf.max = conf.max.min(200_000);
    let threads = conf.threads;
    in_runtime(cx, threads, async |cx: &mut Ctx| {
        let mut w = World::start(cx.worker, conf.clone()).await?;
        let mut text = Vec::new();
        let noise = conf.noise && NOISE_BUILT;
        let mut b = w.client(noise && s.chance(1, 3), "b").await?;
        b.subscribe(1, &[("to/b", 0x20)]).await?;
        let mut c = w.client(noise && s.chance(1, 3), "c").await?;
        c.fence().await?;

        let mut flooders: Vec<Flooder> = Vec::new();
        for k in 0..*s.pick(&[1usize, 1, 1, 2, 3]) {
            let kind = s.below(KINDS.len());
            let enc = noise && s.chance(1, 3);
            cx.desc(|| format!("{:?}; {:?}", conf, text));
            text.push(format!("{}{}", KINDS[kind], if enc && kind < 6 { " (noise)" } else { "" }));
            if kind >= 6 {
                flooders.push(Flooder { kind, c: None, flood: storm(&w, kind, k), sink: None });
                continue;
            }
            let mut f = w.client(enc, &format!("f{}", k)).await?;
            f.subscribe(1, &[(&format!("to/f{}", k), 0x20)]).await?;
            let mut sink = None;
            let size = *s.pick(&[0, 30, 400, 1000]);
            let nobody = |n: usize| write(&publish("nobody", &vec![7; n]));
            let packets = match kind {
                0 => vec![nobody(size)],
                1 => {
                    f.subscribe(2, &[("own", 0x20)]).await?;
                    vec![write(&publish("own", &vec![1; size]))]
                }
                2 => {
                    let mut k2 = w.client(false, &format!("sink{}", k)).await?;
                    k2.subscribe(2, &[("sink", 0x20)]).await?;
                    sink = Some(k2);
                    vec![write(&publish("sink", &vec![1; size]))]
                }
                3 => vec![write(&subscribe(3, &[("x/y", 0x20)])), write(&subscribe(4, &[("x/+", 0x21)]))],
                4 => vec![write(&RP::Ping { ty: T_PINGREQ })],
                _ => vec![nobody(1500)],
            };
            // something is answered now and then, which tells that it is served
            let mut packets = vec![packets; 20].concat();
            packets.push(write(&subscribe(5, &[("x/+", 0x21)])));
            let flood = f.flood(packets);
            flooders.push(Flooder { kind, c: Some(f), flood, sink });
        }
        let began: Vec<usize> = flooders.iter().map(|f| f.served()).collect();
        let during = |f: Fail| context(&format!("while others never pause ({})", text.join(", ")), f);
        let mut done = Vec::new();
        for step in 0..s.range(1, 5) as usize {
            for f in &flooders {
                // what they receive meanwhile
                for c in f.c.iter().chain(f.sink.iter()) {
                    if f.kind != 0 {
                        c.inbox.lock().unwrap().pkts.retain(|p| matches!(p, RP::Publish { topic, .. } if topic.starts_with("to/")));
                    }
                }
            }
            let what = s.below(4);
            done.push(what);
            match what {
                0 => {
                    // one to another
                    let m = publish("to/b", format!("m{}", step).as_bytes());
                    c.send(&m).await.map_err(during)?;
                    let got = b.next("a message from another client").await.map_err(during)?;
                    crate::check!(got == m, "received {} instead of {}", got.show(), m.show());
                }
                1 => {
                    // to one of those that never pause
                    let all: Vec<usize> = (0..flooders.len()).filter(|k| flooders[*k].c.is_some()).collect();
                    if all.is_empty() {
                        continue;
                    }
                    let k = *s.pick(&all);
                    let m = publish(&format!("to/f{}", k), format!("m{}", step).as_bytes());
                    c.send(&m).await.map_err(during)?;
                    let f = flooders[k].c.as_ref().unwrap();
                    f.wait("a message from another client while it sends without a pause itself", |i| {
                        let at = i.pkts.iter().position(|p| *p == m);
                        // all the others are of no interest
                        let found = at.is_some();
                        i.pkts.clear();
                        if found {
                            Some(())
                        } else {
                            None
                        }
                    })
                    .await
                    .map_err(during)?;
                }
                2 => {
                    // somebody comes and goes
                    let id = format!("new{}", step);
                    let mut n = w.client(noise && s.chance(1, 2), &id).await.map_err(during)?;
                    n.fence().await.map_err(during)?;
                    listed(&w, &id, true).await.map_err(during)?;
                    match s.below(2) {
                        0 => n.close().await,
                        _ => n.reset(),
                    }
                    listed(&w, &id, false).await.map_err(during)?;
                }
                _ => {
                    // somebody takes over
                    let n = w.client(noise && s.chance(1, 2), "c").await.map_err(during)?;
                    let old = std::mem::replace(&mut c, n);
                    c.fence().await.map_err(during)?;
                    old.closed_quietly("although its identifier is taken over").await.map_err(during)?;
                }
            }
        }
        // they have not been stopped meanwhile
        let mut went_on = 0;
        for (f, n) in flooders.iter().zip(&began) {
            let mut k = 0;
            while f.served() <= *n {
                crate::check!(!f.flood.ended(), "one that sends {} is cut off", KINDS[f.kind]);
                k += 1;
                if k > TICKS {
                    return missing(format!("one of several that never pause is not served: {}", KINDS[f.kind])).map_err(during);
                }
                progress(cx.worker);
                tokio::time::sleep(TICK).await;
            }
            crate::check!(f.kind >= 6 || !f.flood.ended(), "one that sends {} is cut off", KINDS[f.kind]);
            went_on += 1;
        }
        // and how it ends
        let end = s.below(4);
        match end {
            0 => {
                let n = *s.pick(&(0..flooders.len()).collect::<Vec<_>>());
                let f = flooders.swap_remove(n);
                if let Some(old) = f.c {
                    // taken over while it sends
                    let id = old.id.clone();
                    let mut new = w.client(noise && s.chance(1, 2), &id).await.map_err(during)?;
                    new.fence().await.map_err(during)?;
                    old.closed_quietly("although its identifier is taken over while it sends without a pause").await?;
                    crate::check!(new.take().is_empty(), "one that has taken over receives something it has not subscribed to");
                }
            }
            1 => {
                // it vanishes
                let f = flooders.pop().unwrap();
                f.flood.abort();
                if let Some(c) = f.c {
                    let id = c.id.clone();
                    c.reset();
                    drop(f.flood);
                    listed(&w, &id, false).await.map_err(during)?;
                }
            }
            2 if w.server.is_some() => {
                // the server is shut down meanwhile
                let server = w.server.take().unwrap();
                if patient(cx.worker, server.shutdown()).await.is_none() {
                    return missing("shutting down never ends").map_err(during);
                }
                for f in flooders.drain(..) {
                    if let Some(c) = f.c {
                        c.closed_quietly("although the server is shut down").await?;
                    }
                }
                b.closed_quietly("although the server is shut down").await?;
                c.closed_quietly("although the server is shut down").await?;
            }
            _ => (),
        }
        for f in &flooders {
            f.flood.abort();
        }
        drop(flooders);
        if w.server.is_some() || w.program.is_some() {
            w.healthy().await.map_err(|f| context("after all that", f))?;
        }
        let text = format!("{:?}; {}; {:?}, end {}", conf, text.join(", "), done, end);
        cx.desc(|| text.clone());
        if went_on > 0 {
            cx.nontrivial(text.as_bytes());
        }
        Ok(())
    })
}

/// a client reads all that is for it, which is more than it will have read for a while, and is heard
/// meanwhile
fn b23_backlog(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, keep: 0, ..Conf::random(s, 20_000) };
    conf.tcp = true;
    let threads = conf.threads;
    in_runtime(cx, threads, async |cx: &mut Ctx| {
        let mut w = World::start(cx.worker, conf.clone()).await?;
        let noise = conf.noise && NOISE_BUILT;
        let mut x = w.client(noise && s.chance(1, 3), "x").await?;
        x.subscribe(1, &[("to/x", 0x20)]).await?;
        let mut p = w.client(noise && s.chance(1, 3), "p").await?;
        let enc = noise && s.chance(1, 2);
        let mut r = w.client_with(enc, "r", vec![], if s.chance(1, 2) { Some(128 * 1024) } else { None }).await?;
        r.subscribe(1, &[("to/r", 0x20)]).await?;
        r.pause();
        let size = *s.pick(&[2000usize, 5000, 15_000]);
        let total = *s.pick(&[14usize, 18, 24]) << 20;
        let n = total / size;
        let m = write(&publish("to/r", &vec![7; size]));
        for _ in 0..n.div_ceil(8) {
            let mut out = Vec::new();
            for _ in 0..8 {
                out.extend(p.seal(&m));
            }
            p.raw(&out).await?;
        }
        p.fence().await?;
        let n = n.div_ceil(8) * 8;
        // it is blocked: nothing of what it sends now is read until it reads on
        let mut want = Vec::new();
        for k in 0..s.range(1, 4) {
            let m = publish("to/x", format!("heard{}", k).as_bytes());
            r.send(&m).await?;
            want.push(m);
        }
        let began = r.bytes_received();
        let part = total / *s.pick(&[2usize, 2, 3]);
        r.unpause();
        let mut idle = 0;
        let mut last = 0;
        while r.bytes_received() - began < part {
            let now = r.bytes_received();
            if now != last {
                last = now;
                idle = 0;
                tokio::task::yield_now().await;
                continue;
            }
            idle += 1;
            if idle < 200 {
                tokio::task::yield_now().await;
            } else {
                crate::check!(idle < 200 + TICKS, "only {} of {} bytes reach a client that reads", last - began, total);
                progress(cx.worker);
                tokio::time::sleep(TICK).await;
            }
        }
        r.pause();
        let part = r.bytes_received() - began;
        for m in &want {
            let got = x.next("what a client sends while much is waiting for it, of which it has read thousands of bytes since").await?;
            crate::check!(got == *m, "received {} instead of {}", got.show(), m.show());
        }
        r.unpause();
        r.fence().await?;
        let got = r.take().len();
        crate::check!(got == n, "{} of {} messages arrive", got, n);
        crate::check!(x.take().is_empty(), "more arrives than was sent");
        w.healthy().await?;
        let text = format!("{:?}; {} messages of {} bytes, encrypted {}, {} sent meanwhile", conf, n, size, enc, want.len());
        cx.desc(|| text.clone());
        if part < total * 3 / 4 {
            cx.class("backlog");
            cx.nontrivial(text.as_bytes());
        }
        Ok(())
    })
}

pub fn b23() -> Check {
    base(
        "B23",
        "one to three clients never paused in what they did while others, and they themselves, had to be served; counted by the configuration and what was done, if they went on all the time",
        vec![Sub::rand("flood", 600, 10_000, b23_flood), Sub::rand("backlog", 48, 1_000, b23_backlog)],
    )
}
