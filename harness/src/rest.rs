//! Checks of what the broker uses over time: memory, processor time, descriptors.
use crate::alloc;
use crate::broker::{b18_stage, base};
use crate::engine::*;
use crate::hist::*;
use crate::net::*;
use crate::refcodec::*;
use std::time::Duration;

// ---------------------------------------------------------------- B19

/// one round: the same every time, and nothing is left of it afterwards
async fn round(cx: &Ctx, w: &mut World, seed: u64, number: usize, p: &Profile, log: &mut String) -> Res {
    let mut s = Src::random(seed);
    let s = &mut s;
    let mut h = History::new(w);
    let fresh = s.range(0, 3);
    if fresh > 0 {
        // other clients than ever before
        h.suffix = format!("-{:05}", number);
    }
    for _ in 0..s.range(1, p.steps) {
        progress(cx.worker);
        h.step(s, p).await?;
    }
    h.settle().await?;
    if fresh > 1 {
        // topics that nobody has used before
        for i in h.alive() {
            let t = format!("{:05}/{}/fresh", number, i);
            let mut cmds = Vec::new();
            if fresh > 2 {
                // nor subscribed to
                let filters = [t.clone(), format!("{}/#", t), format!("a/{:05}/+/{}", number, i), format!("+/+/{}", t)];
                let n = s.range(1, 4) as usize;
                let filters = filters[..n].iter().map(|f| (f.clone(), 0x20)).collect();
                cmds.push(Cmd::Sub(7, vec![], filters));
            }
            cmds.push(Cmd::Pub(publish(&t, b"x")));
            cmds.push(Cmd::Pub(publish(&format!("a/{}", t), b"x")));
            h.burst(s, vec![(i, cmds)], false).await?;
        }
        h.settle().await?;
    }
    // some that do not come that far
    let mut open = Vec::new();
    for k in 0..s.below(5) as u64 {
        let (c, kind) = b18_stage(s, h.w, k).await?;
        if kind == 10 {
            // its identifier is taken over
            if let Some(at) = open.iter().position(|(_, k)| *k == 10) {
                let (old, _): (Client, usize) = open.remove(at);
                old.closed_quietly("although its identifier is taken over").await?;
            }
        }
        open.push((c, kind));
    }
    h.log.push(open.iter().map(|(c, _)| c.id.clone()).collect::<Vec<_>>().join(" "));
    for (c, _) in open {
        match s.below(3) {
            0 => c.close().await,
            1 => c.reset(),
            _ => drop(c),
        }
    }
    for i in h.alive() {
        let c = h.peers[i].c.take().unwrap();
        match s.below(3) {
            0 => c.close().await,
            1 => c.reset(),
            _ => drop(c),
        }
    }
    *log = h.log.join(" ; ");
    h.w.released(0, "although all have ended").await?;
    h.w.registry(&[]).await?;
    // whatever is still to be done by tasks that have been told to end
    for _ in 0..20 {
        tokio::task::yield_now().await;
    }
    tokio::time::sleep(Duration::from_millis(1)).await;
    Ok(())
}

fn b19_rounds(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { threads: 0, ..Conf::random(s, 1000) };
    conf.max = conf.max.min(100_000);
    conf.keep = 0;
    let mut p = Profile::base();
    p.steps = *s.pick(&[2, 4, 8]);
    p.ops = *s.pick(&[[10, 4, 1, 1], [4, 4, 3, 3], [10, 1, 1, 1]]);
    p.max_clients = s.range(1, 5) as usize;
    let seed = s.draw(1 << 48);
    in_runtime(cx, 0, async |cx: &mut Ctx| {
        let mut w = World::start(cx.worker, conf.clone()).await?;
        let mut text = String::new();
        // it settles, with a few jumps of what is kept for reuse; what is left behind by every round
        // never stops growing
        const WINDOW: usize = 8;
        let mut left: Vec<isize> = Vec::with_capacity(1000);
        let mut grows = 0;
        while grows < 6 {
            for _ in 0..if left.is_empty() { WINDOW + 2 } else { WINDOW } {
                let k = left.len();
                round(cx, &mut w, seed, k, &p, &mut text).await.map_err(|f| context(&format!("round {}", k), f))?;
                left.push(alloc::live() - text.capacity() as isize);
            }
            let n = left.len();
            if n > WINDOW + 2 {
                if left[n - 1] <= left[n - 1 - WINDOW] {
                    break;
                }
                grows += 1;
            }
        }
        if std::env::var_os("VERIF_SHOW").is_some() {
            eprintln!("{:?}", left);
        }
        if grows >= 6 {
            return broken(format!(
                "the memory in use keeps growing although every round ends as it began: {:?} bytes; a round: {}",
                left.iter().step_by(WINDOW).collect::<Vec<_>>(),
                text
            ));
        }
        cx.desc(|| format!("{:?} rounds of: {}", conf, text));
        cx.nontrivial(format!("{:?}{}", conf, text).as_bytes());
        Ok(())
    })
}

pub fn b19() -> Check {
    base(
        "B19",
        "the same traffic was served again and again and the memory left afterwards compared; counted by the configuration and the traffic",
        vec![Sub::rand("rounds", 400, 10_000, b19_rounds)],
    )
}

// ---------------------------------------------------------------- B20

/// nanoseconds of processor time that the threads of this case have used, and how often they have
/// waited for something
fn used(worker: usize) -> (u64, u64) {
    let name = format!("rt-{}", worker);
    let of = |path: &str| -> (u64, u64) {
        let read = |what: &str| std::fs::read_to_string(format!("{}/{}", path, what)).unwrap_or_default();
        let ns = read("schedstat").split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0);
        let waits = read("status")
            .lines()
            .find_map(|l| l.strip_prefix("voluntary_ctxt_switches:"))
            .and_then(|n| n.trim().parse().ok())
            .unwrap_or(0);
        (ns, waits)
    };
    let mut sum = of("/proc/thread-self");
    if let Ok(d) = std::fs::read_dir("/proc/self/task") {
        for e in d.flatten() {
            let path = e.path().display().to_string();
            if std::fs::read_to_string(format!("{}/comm", path)).map(|c| c.trim() == name).unwrap_or(false) {
                let (ns, waits) = of(&path);
                sum = (sum.0 + ns, sum.1 + waits);
            }
        }
    }
    sum
}

fn b20_idle(s: &mut Src, cx: &mut Ctx) -> Res {
    let mut conf = Conf { strict: false, ..Conf::random(s, 3000) };
    conf.keep = *s.pick(&[0, 600, 65_535]);
    let mut p = Profile::base();
    p.ops = [4, 4, 3, 3];
    p.steps = 8;
    in_runtime(cx, conf.threads, async |cx: &mut Ctx| {
        let mut w = World::start(cx.worker, conf.clone()).await?;
        let mut log = Vec::new();
        for _ in 0..s.range(0, 2) {
            let mut h = History::new(&mut w);
            let steps = s.range(0, 5);
            for _ in 0..steps {
                progress(cx.worker);
                h.step(s, &p).await?;
            }
            h.settle().await?;
            let keep = s.chance(1, 2);
            let mut kept = Vec::new();
            for i in h.alive() {
                let c = h.peers[i].c.take().unwrap();
                if keep {
                    kept.push(c);
                } else {
                    c.close().await;
                }
            }
            let mut open = Vec::new();
            for k in 0..s.below(5) as u64 {
                open.push(b18_stage(s, h.w, k).await?);
            }
            if open.iter().any(|o| o.1 == 11) && s.chance(2, 3) {
                // more for them than they take
                let mut c = h.w.client(false, "floods").await?;
                let max = (h.w.conf.max as usize).min(30_000);
                let m = c.seal(&write(&publish("big/x", &vec![b'b'; max - 20])));
                for _ in 0..(6 << 20) / max {
                    progress(cx.worker);
                    c.raw(&m).await?;
                }
                c.fence().await?;
                c.close().await;
                cx.class("a client that does not read");
            }
            log.push(h.log.join(" ; "));
            log.push(open.iter().map(|(c, _)| c.id.clone()).collect::<Vec<_>>().join(" "));
            let mut left = kept.len();
            for (mut c, kind) in open {
                match s.below(6) {
                    0 => c.close().await,
                    1 => c.reset(),
                    2 if kind != 11 => {
                        c.half_close().await;
                        kept.push(c);
                    }
                    3 => drop(c),
                    _ => {
                        left += 1;
                        kept.push(c)
                    }
                }
            }
            log.push(format!("{} left", left));
            // nothing is under way any more: quiet at some time
            let mut seen = Vec::new();
            loop {
                let (t, u) = (std::time::Instant::now(), used(cx.worker));
                tokio::time::sleep(Duration::from_millis(60)).await;
                progress(cx.worker);
                let (t, v) = (t.elapsed().as_micros() as u64, used(cx.worker));
                let (u, waits) = (v.0.saturating_sub(u.0) / 1000, v.1.saturating_sub(u.1));
                if std::env::var_os("VERIF_SHOW").is_some() {
                    eprintln!("{}/{}/{}", u, t, waits);
                }
                if u * 8 < t.min(120_000) && waits < 25 {
                    break;
                }
                seen.push(format!("{} of {} us, {} times", u, t, waits));
                if seen.len() >= 25 {
                    return missing(format!(
                        "the broker uses processor time without having anything to do: {}",
                        seen.join(", ")
                    ));
                }
            }
            if left > 0 {
                cx.class("connections are open");
            } else {
                cx.class("no connections");
            }
            // those kept end
            for c in kept {
                if s.chance(1, 2) {
                    c.close().await
                } else {
                    drop(c)
                }
            }
        }
        let text = log.join(" ; ");
        cx.desc(|| format!("{:?} {}", conf, text));
        cx.nontrivial(format!("{:?}{}", conf, text).as_bytes());
        Ok(())
    })
}

pub fn b20() -> Check {
    base(
        "B20",
        "the processor time was measured that the broker used while nothing was to be done; counted by what had happened before",
        vec![Sub::rand("idle", 1000, 30_000, b20_idle)],
    )
}

// ---------------------------------------------------------------- B21

fn several(s: &mut Src, threads: usize, key: u64) -> Conf {
    let mut c = Conf { threads, key, ..Conf::random(s, 1000) };
    c.max = c.max.min(1 << 20);
    c.tcp = !NOISE_BUILT || s.chance(3, 4);
    c.noise = NOISE_BUILT && (!c.tcp || s.chance(3, 4));
    c
}
/// several servers at the same time in one program
fn b21_servers(s: &mut Src, cx: &mut Ctx) -> Res {
    let threads = *s.pick(&[0, 0, 0, 2, 4]);
    let n = s.range(2, 3) as usize;
    let confs: Vec<Conf> = (0..4).map(|k| several(s, threads, 7 + k)).collect();
    let mut p = Profile::base();
    p.ops = *s.pick(&[[10, 4, 1, 1], [4, 4, 3, 3], [10, 1, 1, 1]]);
    p.max_clients = s.range(1, 5) as usize;
    p.reuse = true;
    in_runtime(cx, threads, async |cx: &mut Ctx| {
        let mut worlds = Vec::new();
        for c in &confs[..n] {
            worlds.push(World::start(cx.worker, c.clone()).await?);
        }
        let mut late: Option<World>;
        let mut hs: Vec<Option<History>> = worlds.iter_mut().map(|w| Some(History::new(w))).collect();
        let mut t = Told { deliveries: 0, shut: 0, text: Vec::new() };
        let steps = s.range(3, 14) as usize;
        late = None;
        phase(s, cx, &mut hs, &p, steps, &mut t).await?;
        if s.chance(1, 2) {
            late = Some(World::start(cx.worker, confs[n].clone()).await?);
        }
        if let Some(w) = late.as_mut() {
            hs.push(Some(History::new(w)));
        }
        phase(s, cx, &mut hs, &p, steps, &mut t).await?;
        let Told { mut deliveries, shut, mut text } = t;
        // each knows its own clients and subscriptions only
        for (k, h) in hs.iter_mut().enumerate() {
            if let Some(h) = h {
                h.settle().await.map_err(|f| who(k, f))?;
                h.table(s).await.map_err(|f| who(k, f))?;
                let ids = h.ids();
                h.w.registry(&ids).await.map_err(|f| who(k, f))?;
                deliveries += h.deliveries;
                text.push(format!("server {}: {}", k, h.log.join(" ; ")));
            }
        }
        if shut > 0 {
            cx.class("one has ended");
        }
        if hs.len() > n {
            cx.class("one has started later");
        }
        let text = text.join("\n");
        cx.desc(|| format!("{:?}\n{}", &confs[..n], text));
        if deliveries > 0 {
            cx.nontrivial(text.as_bytes());
        }
        Ok(())
    })
}
fn who(k: usize, f: Fail) -> Fail {
    context(&format!("server {}", k), f)
}
struct Told {
    deliveries: usize,
    shut: usize,
    text: Vec<String>,
}
/// steps of any of the servers, with one of them ending at some time
async fn phase(s: &mut Src, cx: &Ctx, hs: &mut [Option<History<'_>>], p: &Profile, steps: usize, t: &mut Told) -> Res {
    let end_at = if s.chance(2, 3) { s.below(steps) } else { steps };
    for step in 0..steps {
        progress(cx.worker);
        let up: Vec<usize> = (0..hs.len()).filter(|k| hs[*k].is_some()).collect();
        let k = *s.pick(&up);
        if step == end_at && up.len() > 1 {
            // whatever it is doing
            let mut h = hs[k].take().unwrap();
            if s.chance(1, 2) {
                h.settle().await.map_err(|f| who(k, f))?;
                t.deliveries += h.deliveries;
            }
            let server = h.w.server.take().unwrap();
            if patient_for(cx.worker, TICKS * 2, server.shutdown()).await.is_none() {
                return missing("shutdown does not return while another server is running");
            }
            for i in h.alive() {
                let c = h.peers[i].c.take().unwrap();
                c.closed("by shutdown").await.map_err(|f| who(k, f))?;
            }
            t.text.push(format!("server {}: {} ; ends", k, h.log.join(" ; ")));
            t.shut += 1;
        } else {
            hs[k].as_mut().unwrap().step(s, p).await.map_err(|f| who(k, f))?;
        }
    }
    Ok(())
}
/// a client of one server cannot be one of another by what it knows of it
fn b21_keys(s: &mut Src, cx: &mut Ctx) -> Res {
    let threads = *s.pick(&[0, 0, 2]);
    let confs: Vec<Conf> = (0..2).map(|k| Conf { noise: true, tcp: s.chance(1, 2), ..several(s, threads, 7 + k) }).collect();
    in_runtime(cx, threads, async |cx: &mut Ctx| {
        let mut a = World::start(cx.worker, confs[0].clone()).await?;
        let mut b = World::start(cx.worker, confs[1].clone()).await?;
        let order = s.chance(1, 2);
        for k in 0..4 {
            let w = if order == (k % 2 == 0) { &mut a } else { &mut b };
            let mut c = w.client(true, "same").await?;
            c.fence().await?;
            c.close().await;
        }
        let (with, of) = if order { (a.public, &b) } else { (b.public, &a) };
        let c = Client::noise(of.socket(true, None).await?, &with, cx.worker).await;
        if let Ok(mut c) = c {
            let m = c.seal(&write(&connect("wrong", vec![])));
            let _ = c.raw(&m).await;
            crate::check!(c.connack().await.is_err(), "a client that has the key of another server is served");
        }
        a.healthy().await?;
        b.healthy().await?;
        cx.desc(|| format!("{:?}", confs));
        cx.nontrivial(format!("{:?}{}", confs, order).as_bytes());
        Ok(())
    })
}
pub fn b21() -> Check {
    let mut subs = vec![Sub::rand("servers", 1200, 20_000, b21_servers)];
    if NOISE_BUILT {
        subs.push(Sub::rand("keys", 150, 3_000, b21_keys));
    }
    base(
        "B21",
        "several servers ran at the same time in one program and served clients of the same identifiers and topics; counted by the histories if messages were delivered",
        subs,
    )
}

// ---------------------------------------------------------------- S02

/// more connections than the program can have descriptors
fn s02_shortage(s: &mut Src, cx: &mut Ctx) -> Res {
    let files = s.range(24, 70);
    let conf = Conf { files, log: *s.pick(&["", "info", "off", "trace"]), ..Conf::shipped() };
    in_runtime(cx, 0, async |cx: &mut Ctx| {
        let mut w = World::start(cx.worker, conf).await?;
        let mut h = History::new(&mut w);
        h.words.prefix = "early/";
        let n = s.range(1, 4);
        for k in 0..n {
            let enc = s.chance(1, 2);
            let i = h.connect(&format!("early{}", k), enc, vec![]).await?;
            let f = h.words.filter(s);
            h.burst(s, vec![(i, vec![Cmd::Sub(77, vec![], vec![(f, 0x20)])])], false).await?;
            h.settle().await?;
        }
        for _ in 0..s.range(1, 3) {
            let mut open = Vec::new();
            let more = files + s.range(1, 40);
            let share = s.below(4) as u64;
            for k in 0..more {
                progress(cx.worker);
                if s.chance(share, 4) {
                    open.push((Client::plain(h.w.socket(true, None).await?, cx.worker), true));
                } else {
                    let mut c = h.w.open(false).await?;
                    c.id = format!("late{}", k);
                    let mut b = c.seal(&write(&connect(&c.id, vec![])));
                    if s.chance(1, 2) {
                        b.extend(c.seal(&write(&publish("late/x", b"y"))));
                    }
                    c.raw(&b).await?;
                    open.push((c, false));
                }
            }
            h.log.push(format!("{} connections, {} descriptors", more, files));
            for _ in 0..s.range(1, 3) {
                h.traffic(s).await.map_err(|f| context("while there are no descriptors", f))?;
                h.settle().await.map_err(|f| context("while there are no descriptors", f))?;
            }
            // most of them give up
            let stay = s.range(0, 5) as usize;
            while open.len() > stay {
                progress(cx.worker);
                let (c, _) = open.swap_remove(s.below(open.len()));
                match s.below(3) {
                    0 => c.close().await,
                    1 => c.reset(),
                    _ => drop(c),
                }
            }
            for (c, noise) in &mut open {
                if !*noise {
                    c.connack().await.map_err(|f| context("although there are descriptors again", f))?;
                    c.fence().await.map_err(|f| context("although there are descriptors again", f))?;
                }
            }
            h.w.healthy().await.map_err(|f| context("although there are descriptors again", f))?;
            h.traffic(s).await?;
            h.settle().await?;
            for (c, _) in open {
                c.close().await;
            }
        }
        let text = h.log.join(" ; ");
        cx.desc(|| format!("{} descriptors; {}", files, text));
        cx.nontrivial(text.as_bytes());
        Ok(())
    })
}

pub fn s02() -> Check {
    let _ = PROGRAM.set(crate::tools::program("apiformes-server"));
    let mut c = base(
        "S02",
        "the server program was offered more connections than it can have and watched while and after that; counted by the history",
        vec![Sub::rand("descriptors", 400, 10_000, s02_shortage)],
    );
    c.assumptions.push("a new server program for every case, with a limit of descriptors set by the operating system, in a network namespace of its own where the sandbox allows it and otherwise one after the other");
    c
}
