//! The programs built from the repository, run as processes: the server and the benchmark client.
use crate::broker;
use crate::check;
use crate::engine::*;
use crate::net::*;
use crate::refcodec::*;
use std::process::Stdio;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc::{unbounded_channel, UnboundedReceiver, UnboundedSender};

pub fn program(name: &str) -> std::path::PathBuf {
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    std::path::PathBuf::from(root).join("target/repo/debug").join(name)
}

// ---------------------------------------------------------------- S01

/// a program started while one of its addresses is in use ends with an error and disturbs nothing
fn s01_again(s: &mut Src, cx: &mut Ctx) -> Res {
    in_runtime(cx, 0, async |cx: &mut Ctx| {
        let kind = s.below(3);
        let mut held = None;
        let mut world = None;
        let _ports = if kind == 0 { None } else { ports(cx.worker)? };
        match kind {
            0 => world = Some(World::start(cx.worker, Conf::shipped()).await?),
            k => {
                let port = if k == 1 { 1883 } else { 8883 };
                // in use on one address, which the wildcard address includes
                let l = std::net::TcpListener::bind(("0.0.0.0", port)).map_err(|e| Fail::Infra(e.to_string()))?;
                held = Some(l);
            }
        }
        let mut child = command(PROGRAM.get().unwrap())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| Fail::Infra(e.to_string()))?;
        let mut status = None;
        for _ in 0..TICKS * 10 {
            if let Ok(Some(st)) = child.try_wait() {
                status = Some(st);
                break;
            }
            progress(cx.worker);
            tokio::time::sleep(TICK / 10).await;
        }
        let _ = child.kill();
        let _ = child.wait();
        match status {
            None => return missing("a server program whose port is in use keeps running"),
            Some(st) => check!(!st.success(), "a server program whose port is in use ends with success"),
        }
        drop(held);
        if let Some(w) = &mut world {
            w.healthy().await?;
            w.healthy().await?;
        }
        cx.class(["beside another server", "plain port in use", "noise port in use"][kind]);
        cx.nontrivial(&kind.to_le_bytes());
        Ok(())
    })
}

pub fn s01() -> Check {
    let p = program("apiformes-server");
    let _ = PROGRAM.set(p);
    let mut c = broker::base(
        "S01",
        "the server program ran and was compared with the model of the library in its documented configuration; counted by the history",
        vec![
            Sub::rand("histories", 300, 6000, broker::b01_history),
            Sub::rand("bursts", 100, 2000, broker::b01_bursts),
            Sub::rand("connects", 150, 3000, broker::b02_connects),
            Sub::rand("subscribe", 100, 2000, broker::b03_subscribe),
            Sub::rand("hostile", 100, 2000, broker::b04_case),
            Sub::rand("permeability", 250, 5000, broker::b06_history),
            Sub::rand("incoming", 150, 3000, broker::b08_incoming),
            Sub::rand("outgoing", 100, 2000, broker::b08_outgoing),
            Sub::rand("refused", 100, 2000, broker::b11_history),
            Sub::rand("handshake", 150, 3000, broker::b13_handshake),
            Sub::rand("transport", 100, 2000, broker::b13_transport),
            Sub::rand("first-packets", 100, 2000, broker::b02_first),
            Sub::rand("segments", 60, 1200, broker::b05_stream),
            Sub::rand("no-local", 150, 3000, broker::b07_history),
            Sub::rand("answers", 100, 2000, broker::b08_answers),
            Sub::rand("again", 40, 400, s01_again),
        ],
    );
    c.assumptions.push("a new server program for every case, in a network namespace of its own where the sandbox allows it and otherwise one after the other");
    c
}

// ---------------------------------------------------------------- M01

#[derive(Clone, Copy, PartialEq, Debug)]
enum Event {
    SubAck,
    Publish,
}

#[derive(Default)]
struct Conn {
    got: Vec<RP>,
    bad: Option<String>,
    ended: bool,
    /// deliveries handed to the kernel
    written: usize,
    subscriber: bool,
    tx: Option<UnboundedSender<(RP, Instant)>>,
    /// ended while not everything had been delivered
    early: bool,
}

#[derive(Default)]
struct Shared {
    conns: Vec<Conn>,
    events: Vec<Event>,
    activity: u64,
    delivered: usize,
    expected: usize,
    each: usize,
    cut: bool,
}

/// how the fake broker writes
#[derive(Clone, Copy, Debug)]
struct Manner {
    /// 0: whole packets, 1: single bytes, n: pieces of up to n bytes
    piece: usize,
    pause_us: u64,
    ack_ms: u64,
    /// a SUBACK takes so much longer
    sub_ms: u64,
    /// a message is held so long before it is handed on
    hold_ms: u64,
    big_acks: bool,
    /// close everything after this many received publishes
    cut_after: Option<usize>,
    /// wait before the last delivery of all
    last_ms: u64,
    /// all but the first n percent of a subscriber's messages are held for longer
    late_from: usize,
    late_ms: u64,
}

async fn put(wr: &mut tokio::net::tcp::OwnedWriteHalf, b: &[u8], m: &Manner, rng: &mut Rng) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = match m.piece {
            0 => b.len() - at,
            1 => 1,
            n => 1 + (rng.next() as usize) % n,
        }
        .min(b.len() - at);
        if wr.write_all(&b[at..at + n]).await.is_err() {
            return false;
        }
        at += n;
        if at < b.len() && m.pause_us > 0 {
            tokio::time::sleep(Duration::from_micros(m.pause_us)).await;
        }
    }
    true
}

async fn deliver(
    mut wr: tokio::net::tcp::OwnedWriteHalf,
    mut rx: UnboundedReceiver<(RP, Instant)>,
    sh: Arc<Mutex<Shared>>,
    k: usize,
    m: Manner,
    seed: u64,
) {
    let mut rng = Rng::new(seed);
    while let Some((p, due)) = rx.recv().await {
        let delivery = matches!(p, RP::Publish { .. });
        if delivery {
            let late = {
                let sh = sh.lock().unwrap();
                sh.conns[k].written >= sh.each * m.late_from / 100
            };
            let more = Duration::from_millis(if late { m.late_ms } else { 0 });
            tokio::time::sleep_until((due + more).into()).await;
            // the first connection is a subscriber's
            let last = {
                let sh = sh.lock().unwrap();
                k == 0 && sh.conns[0].written + 1 == sh.each
            };
            if last && m.last_ms > 0 {
                tokio::time::sleep(Duration::from_millis(m.last_ms)).await;
            }
        } else if m.ack_ms > 0 {
            tokio::time::sleep(Duration::from_millis(m.ack_ms)).await;
        }
        if matches!(p, RP::SubAck { .. }) {
            if m.sub_ms > 0 {
                tokio::time::sleep(Duration::from_millis(m.sub_ms)).await;
            }
            sh.lock().unwrap().events.push(Event::SubAck);
        }
        let mut b = write(&p);
        if delivery {
            // counted once everything but the last byte is out: the program may end on that one
            let last = b.split_off(b.len() - 1);
            let ok = put(&mut wr, &b, &m, &mut rng).await;
            {
                let mut s = sh.lock().unwrap();
                s.activity += 1;
                if !ok {
                    return;
                }
                s.conns[k].written += 1;
                s.delivered += 1;
            }
            if wr.write_all(&last).await.is_err() {
                return;
            }
        } else if !put(&mut wr, &b, &m, &mut rng).await {
            return;
        }
    }
}

async fn serve(stream: TcpStream, sh: Arc<Mutex<Shared>>, k: usize, m: Manner, seed: u64) {
    let _ = stream.set_nodelay(true);
    let (mut rd, wr) = stream.into_split();
    let (tx, rx) = unbounded_channel();
    sh.lock().unwrap().conns[k].tx = Some(tx);
    let writer = tokio::spawn(deliver(wr, rx, sh.clone(), k, m, seed));
    let mut buf: Vec<u8> = Vec::new();
    let mut chunk = vec![0u8; 4096];
    'conn: loop {
        let n = match rd.read(&mut chunk).await {
            Ok(0) | Err(_) => break,
            Ok(n) => n,
        };
        buf.extend_from_slice(&chunk[..n]);
        loop {
            let len = match header(&buf) {
                Some(Ok(n)) if buf.len() >= n => n,
                Some(Err(_)) => {
                    sh.lock().unwrap().conns[k].bad = Some(format!("{:02x?}", &buf[..buf.len().min(40)]));
                    break 'conn;
                }
                _ => break,
            };
            let f: Vec<u8> = buf.drain(..len).collect();
            let p = match read(&f) {
                Read::Good(p, _, _) => p,
                _ => {
                    sh.lock().unwrap().conns[k].bad = Some(format!("{:02x?}", &f[..f.len().min(60)]));
                    break 'conn;
                }
            };
            let mut s = sh.lock().unwrap();
            s.activity += 1;
            let now = Instant::now();
            match &p {
                RP::Connect { .. } => {
                    let mut props: Props = vec![(0x12, Val::Str(format!("assigned-{}", k)))];
                    if m.big_acks {
                        props = vec![
                            (0x12, Val::Str("assigned".repeat(40))),
                            (0x1f, Val::Str("reason".repeat(30))),
                            (0x26, Val::Str("k".repeat(150))),
                        ];
                    }
                    let a = RP::ConnAck { flags: 0, code: 0, props };
                    let _ = s.conns[k].tx.as_ref().map(|t| t.send((a, now)));
                }
                RP::Subscribe { id, topics, .. } => {
                    s.conns[k].subscriber = true;
                    let props = if m.big_acks { vec![(0x1fu8, Val::Str("granted ".repeat(40)))] } else { vec![] };
                    let a = RP::SubAck { ty: T_SUBACK, id: *id, props, codes: topics.iter().map(|_| 0).collect() };
                    let _ = s.conns[k].tx.as_ref().map(|t| t.send((a, now)));
                }
                RP::Publish { .. } => {
                    s.events.push(Event::Publish);
                    let n = s.events.iter().filter(|e| **e == Event::Publish).count();
                    for c in s.conns.iter().filter(|c| c.subscriber) {
                        let _ = c.tx.as_ref().map(|t| t.send((p.clone(), now + Duration::from_millis(m.hold_ms))));
                    }
                    if m.cut_after.is_some_and(|c| n >= c) {
                        s.cut = true;
                    }
                }
                _ => (),
            }
            s.conns[k].got.push(p);
        }
    }
    writer.abort();
    let mut s = sh.lock().unwrap();
    s.conns[k].ended = true;
    s.conns[k].early = s.delivered < s.expected;
    s.activity += 1;
}

/// "12.5ms" as it is printed
fn duration_of(t: &str) -> Option<f64> {
    let unit = t.trim_start_matches(|c: char| c.is_ascii_digit() || c == '.');
    let n: f64 = t[..t.len() - unit.len()].parse().ok()?;
    Some(
        n * match unit {
            "ns" => 1e-9,
            "µs" => 1e-6,
            "ms" => 1e-3,
            "s" => 1.0,
            _ => return None,
        },
    )
}

fn m01_run(s: &mut Src, cx: &mut Ctx) -> Res {
    in_runtime(cx, 0, async |cx: &mut Ctx| {
        let ip = fresh_ip();
        let listener = TcpListener::bind((ip, 1883)).await.map_err(|e| Fail::Infra(e.to_string()))?;
        // the load
        let mut subs = *s.pick(&[1usize, 2, 3, 4, 7, 0]);
        let mut pubs = *s.pick(&[1usize, 2, 3, 4, 7, 0]);
        let mut messages = *s.pick(&[1usize, 2, 5, 10, 33, 60, 0, 33, 10]);
        if s.chance(1, 25) {
            messages = s.range(61, 300) as usize;
        }
        let mut topic = s.pick(&["/a/b", "x", "ünï/ço de", "$x/y", "a//", "LONG", "LONGER"]).to_string();
        if topic == "LONG" {
            topic = "long/".repeat(30);
        } else if topic == "LONGER" {
            topic = "longer/".repeat(3000);
        }
        let mut args: Vec<String> = Vec::new();
        let opt = |s: &mut Src, args: &mut Vec<String>, a: &str, b: &str, v: String| match s.below(3) {
            0 => args.extend([a.to_string(), v]),
            1 => args.extend([b.to_string(), v]),
            _ => args.push(format!("{}={}", b, v)),
        };
        opt(s, &mut args, "-e", "--endpoint", format!("{}:1883", ip));
        if s.chance(9, 10) {
            opt(s, &mut args, "-s", "--subs", subs.to_string());
        } else {
            subs = 10;
        }
        if s.chance(9, 10) {
            opt(s, &mut args, "-p", "--pubs", pubs.to_string());
        } else {
            pubs = 10;
        }
        if s.chance(80, 81) {
            opt(s, &mut args, "-m", "--messages", messages.to_string());
        } else {
            messages = 1000;
        }
        if s.chance(3, 4) {
            opt(s, &mut args, "-t", "--topic", topic.clone());
        } else {
            topic = "/benchmark/stress_test".into();
        }
        // the pause between messages, and how much of it is certain
        let mut least = Duration::from_millis(1);
        let mut most = least;
        let times = [("1ms", 1000u64), ("300us", 300), ("700µs", 700), ("2ms", 2000), ("0s", 0), ("0us", 0), ("15ms", 15_000)];
        match s.below(4) {
            0 => (),
            1 => {
                args.push("--no-delay".into());
                least = Duration::ZERO;
                most = least;
            }
            2 => {
                let (t, us) = *s.pick(&times[..if messages > 20 { 6 } else { 7 }]);
                opt(s, &mut args, "-c", "--const-delay", t.into());
                least = Duration::from_micros(us);
                most = least;
            }
            _ => {
                let ranges = [("100us", "2ms"), ("1ms", "1500µs"), ("2ms", "2ms"), ("0s", "1ms"), ("900us", "3ms"), ("1ms", "30ms")];
                let (a, b) = *s.pick(&ranges[..if messages > 40 { 5 } else { 6 }]);
                opt(s, &mut args, "--min-max-delay", "--min-max-delay", format!("{}:{}", a, b));
                least = Duration::from_secs_f64(duration_of(&a.replace("us", "µs")).unwrap());
                most = Duration::from_secs_f64(duration_of(&b.replace("us", "µs")).unwrap());
            }
        }
        let expected = subs * pubs * messages;
        let small = expected <= 200;
        let manner = Manner {
            piece: *s.pick(if small { &[0usize, 1, 7, 40] } else { &[0, 40, 200, 0] }),
            pause_us: if small && topic.len() < 1000 { *s.pick(&[0, 0, 50]) } else { 0 },
            ack_ms: *s.pick(&[0, 0, 2, 10]),
            sub_ms: *s.pick(&[0, 0, 15, 40]),
            hold_ms: *s.pick(&[0, 0, 5, 30]),
            big_acks: s.chance(1, 3),
            cut_after: if s.chance(1, 8) { Some(s.below(pubs * messages + 1)) } else { None },
            last_ms: *s.pick(&[0, 0, 20, 60]),
            late_from: *s.pick(&[75, 90, 99]),
            late_ms: *s.pick(&[0, 0, 40]),
        };
        cx.desc(|| {
            let t: Vec<String> = args.iter().map(|a| crate::hist::clip(a)).collect();
            format!("apiformes-bm {} ; {:?}", t.join(" "), manner)
        });
        let sh = Arc::new(Mutex::new(Shared { expected, each: pubs * messages, cut: manner.cut_after == Some(0), ..Default::default() }));
        let begun = Instant::now();
        let mut child = command(&program("apiformes-bm"))
            .args(&args)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| Fail::Infra(format!("starting the benchmark program: {}", e)))?;
        let seed = s.draw(1 << 32);
        let acceptor = {
            let sh = sh.clone();
            tokio::spawn(async move {
                let mut tasks = Vec::new();
                loop {
                    let accepted = tokio::select! {
                        a = listener.accept() => a,
                        _ = async { while !sh.lock().unwrap().cut { tokio::time::sleep(Duration::from_micros(500)).await; } } => break,
                    };
                    let (so, _) = match accepted {
                        Ok(x) => x,
                        Err(_) => continue,
                    };
                    let k = {
                        let mut s = sh.lock().unwrap();
                        s.conns.push(Conn::default());
                        s.conns.len() - 1
                    };
                    let t = tokio::spawn(serve(so, sh.clone(), k, manner, seed.wrapping_add(k as u64)));
                    tasks.push(t);
                }
                // everything is closed at once, and whatever comes after it
                for t in tasks {
                    t.abort();
                }
                sh.lock().unwrap().conns.iter_mut().for_each(|c| c.tx = None);
                loop {
                    if let Ok((so, _)) = listener.accept().await {
                        drop(so);
                    }
                }
            })
        };
        let mut status = None;
        let (mut idle, mut seen) = (0, 0);
        while idle < TICKS * 2 {
            if let Ok(Some(st)) = child.try_wait() {
                status = Some((st, begun.elapsed()));
                break;
            }
            let a = sh.lock().unwrap().activity;
            if a != seen {
                seen = a;
                idle = 0;
            }
            for _ in 0..50 {
                tokio::time::sleep(TICK / 50).await;
                if let Ok(Some(st)) = child.try_wait() {
                    status = Some((st, begun.elapsed()));
                    break;
                }
            }
            if status.is_some() {
                break;
            }
            idle += 1;
            progress(cx.worker);
        }
        let _ = child.kill();
        let _ = child.wait();
        let (mut out, mut err) = (String::new(), String::new());
        use std::io::Read;
        let _ = child.stdout.take().unwrap().read_to_string(&mut out);
        let _ = child.stderr.take().unwrap().read_to_string(&mut err);
        let err = err.lines().take(3).collect::<Vec<_>>().join(" / ");
        let (status, wall) = match status {
            Some(x) => x,
            None => {
                let s = sh.lock().unwrap();
                return missing(format!(
                    "the program does not end; {} connections, {} of {} deliveries made, closed by the broker: {}",
                    s.conns.len(),
                    s.delivered,
                    expected,
                    s.cut
                ));
            }
        };
        // let the ends of the connections arrive
        for _ in 0..TICKS {
            if sh.lock().unwrap().conns.iter().all(|c| c.ended) || sh.lock().unwrap().cut {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        acceptor.abort();
        let sh = sh.lock().unwrap();
        if sh.cut {
            // all that is asked for is that it ends
            cx.class("closed by the broker");
            if sh.delivered < expected {
                check!(!status.success(), "the broker closed every connection after {} of {} deliveries and the program ends with success", sh.delivered, expected);
            }
            cx.nontrivial(&s.rec.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
            return Ok(());
        }
        check!(status.success(), "the program fails with {} ({}), {} of {} deliveries were made", status, err, sh.delivered, expected);
        check!(
            sh.conns.len() == subs + pubs,
            "{} connections were made, {} subscribers and {} publishers were asked for",
            sh.conns.len(),
            subs,
            pubs
        );
        let mut npub = 0;
        for c in &sh.conns {
            if let Some(b) = &c.bad {
                return broken(format!("the program sends bytes that are no legal packet: {}", b));
            }
            let first = c.got.first().cloned();
            match &first {
                Some(RP::Connect { flags, id, will: None, user: None, pass: None, props, .. }) => {
                    check!(*flags == 2, "CONNECT with flags {:02x}", flags);
                    check!(id.is_empty() && props.is_empty(), "CONNECT {:?}", first);
                }
                x => return broken(format!("a connection starts with {:?}", x)),
            }
            let rest = &c.got[1..];
            if c.subscriber {
                check!(rest.len() == 1, "a subscriber sends {} packets after its CONNECT", rest.len());
                match &rest[0] {
                    RP::Subscribe { topics, props, .. } => check!(
                        props.is_empty() && topics.len() == 1 && topics[0].0 == topic && topics[0].1 == 0x20,
                        "SUBSCRIBE to {:?}",
                        topics.iter().map(|t| (crate::hist::clip(&t.0), t.1)).collect::<Vec<_>>()
                    ),
                    x => return broken(format!("a subscriber sends {:?}", x)),
                }
                check!(
                    c.written == pubs * messages,
                    "the program ends when a subscriber has been sent {} of {} messages",
                    c.written,
                    pubs * messages
                );
            } else {
                npub += 1;
                check!(rest.len() == messages, "a publisher sends {} messages instead of {}", rest.len(), messages);
                let mut before: Option<u128> = None;
                let mut gaps: Vec<u128> = Vec::new();
                for p in rest {
                    match p {
                        RP::Publish { flags: 0, topic: t, id: None, props, payload } if *t == topic && props.is_empty() => {
                            check!(payload.len() == 16, "a payload of {} bytes", payload.len());
                            let t = u128::from_be_bytes(payload[..].try_into().unwrap());
                            check!(t < wall.as_nanos(), "a time stamp of {} ns in a run of {:?}", t, wall);
                            let b = before.map(|b| b + least.as_nanos()).unwrap_or(0);
                            check!(
                                t >= b,
                                "two messages of a publisher are stamped {:?} and {} ns, the delay is at least {:?}",
                                before,
                                t,
                                least
                            );
                            gaps.extend(before.map(|b| t - b));
                            before = Some(t);
                        }
                        p => return broken(format!("a publisher sends {}", p.show())),
                    }
                }
                // pauses are longer on a machine that is busy, but not all of them
                let (short, long) = (gaps.iter().min().copied().unwrap_or(0), gaps.iter().max().copied().unwrap_or(0));
                if gaps.len() >= 8 && short > (most + Duration::from_millis(200)).as_nanos() {
                    return missing(format!("each pause between messages is at least {} ns, asked for were at most {:?}", short, most));
                }
                let range = most.saturating_sub(least);
                if gaps.len() >= 30 && range > Duration::from_millis(10) {
                    cx.class("spread of the pauses");
                    check!(
                        long >= (least + range / 4).as_nanos(),
                        "the longest of {} pauses is {} ns, asked for were {:?} to {:?}",
                        gaps.len(),
                        long,
                        least,
                        most
                    );
                    if short > (least + range * 3 / 4).as_nanos() {
                        return missing(format!(
                            "the shortest of {} pauses is {} ns, asked for were {:?} to {:?}",
                            gaps.len(),
                            short,
                            least,
                            most
                        ));
                    }
                }
                check!(
                    expected == 0 || !c.early,
                    "a publisher disconnects before every subscriber has received everything"
                );
            }
        }
        check!(npub == pubs, "{} publishers instead of {}", npub, pubs);
        // nobody publishes before everybody is subscribed
        let mut acks = 0;
        for e in &sh.events {
            match e {
                Event::SubAck => acks += 1,
                Event::Publish => check!(acks == subs, "a message is published when {} of {} subscriptions are acknowledged", acks, subs),
            }
        }
        // the report
        for line in [
            format!("Number of concurrent Publishers: {}", pubs),
            format!("Number of concurrent Subscribers: {}", subs),
            format!("Benchmarking topic: {}", topic),
            format!("Number of publish messages: {}", messages),
        ] {
            check!(out.lines().any(|l| l == line), "the report lacks the line {:?}", crate::hist::clip(&line));
        }
        if expected > 0 {
            let value = |name: &str| -> Result<String, Fail> {
                match out.lines().find_map(|l| l.strip_prefix(name)) {
                    Some(v) => Ok(v.trim().to_string()),
                    None => Err(Fail::Broken(format!("the report lacks {:?}", name))),
                }
            };
            let trips = ["Minimum trip time:", "75th percentile trip time:", "90th percentile trip time:", "99th percentile trip time:", "Maximum trip time:"];
            let mut v = Vec::new();
            for t in trips {
                let x = value(t)?;
                match duration_of(&x) {
                    Some(d) => v.push(d),
                    None => return broken(format!("{} {:?}", t, x)),
                }
            }
            check!(v.windows(2).all(|w| w[0] <= w[1]), "the reported trip times are not in order: {:?}", v);
            let hold = manner.hold_ms as f64 / 1000.0;
            check!(
                v[0] >= hold && v[4] <= wall.as_secs_f64(),
                "reported trip times from {} s to {} s, the broker held every message for {} s and the run took {:?}",
                v[0],
                v[4],
                hold,
                wall
            );
            for (q, i) in [(75, 1), (90, 2), (99, 3), (100, 4)] {
                // at least the last of the sorted trips from here on were that long
                if manner.late_ms > 0 && q >= manner.late_from {
                    check!(
                        v[i] >= manner.late_ms as f64 / 1000.0,
                        "all but the first {} percent of the messages were held for {} ms, {} {} s",
                        manner.late_from,
                        manner.late_ms,
                        trips[i],
                        v[i]
                    );
                }
            }
            if manner.last_ms > 0 {
                check!(v[4] >= manner.last_ms as f64 / 1000.0, "the last message was held for {} ms, the longest reported trip is {} s", manner.last_ms, v[4]);
            }
            // so many packets in at most the whole time
            let secs = wall.as_secs_f64();
            for (name, n, what) in [("Mean departure rate =", messages, "publisher"), ("Mean arrival rate =", pubs * messages, "subscriber")] {
                let x = value(name)?;
                let r: f64 = match x.split(' ').next().unwrap_or("").parse() {
                    Ok(r) => r,
                    Err(_) => return broken(format!("{} {:?}", name, x)),
                };
                check!(
                    r >= n as f64 / secs * 0.999 - 0.01,
                    "{} {}: each {} had {} packets in at most {:?}",
                    name,
                    x,
                    what,
                    n,
                    wall
                );
            }
            cx.class("messages delivered");
        } else {
            cx.class("nothing to deliver");
        }
        if manner.piece > 0 {
            cx.class("broken up by the broker");
        }
        cx.nontrivial(&s.rec.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
        Ok(())
    })
}

pub fn m01() -> Check {
    let mut c = broker::base(
        "M01",
        "the benchmark program ran to its end against a broker that records and checks what it sends; counted by the arguments and the broker's behaviour",
        vec![Sub::rand("runs", 900, 15_000, m01_run)],
    );
    c.threads = 16;
    c.assumptions.push("the broker it runs against is the harness itself, which forwards every message to every subscriber in order");
    c
}
