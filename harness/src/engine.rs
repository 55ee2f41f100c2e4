//! Generated-input search: choice-sequence source, case runner, shrinker, evidence and replay files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- choices

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn hash64(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^ (h >> 29)
}

/// Source of every random choice of a case. 0 is always the simplest choice, so that shrinking the
/// recorded choices shrinks the case.
pub struct Src {
    pre: Option<Vec<u64>>,
    pos: usize,
    rng: Rng,
    pub rec: Vec<u64>,
}
impl Src {
    pub fn random(seed: u64) -> Src {
        Src { pre: None, pos: 0, rng: Rng::new(seed), rec: Vec::new() }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { pre: Some(choices), pos: 0, rng: Rng::new(0), rec: Vec::new() }
    }
    /// uniform in 0..bound
    pub fn draw(&mut self, bound: u64) -> u64 {
        let bound = bound.max(1);
        let v = match &self.pre {
            Some(p) => {
                let v = p.get(self.pos).copied().unwrap_or(0);
                v.min(bound - 1)
            }
            None => {
                if bound == 1 {
                    0
                } else {
                    self.rng.next() % bound
                }
            }
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn below(&mut self, bound: usize) -> usize {
        self.draw(bound as u64) as usize
    }
    /// inclusive range, lo is simplest
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // put `true` at the top so that 0 means false
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len());
        &items[i]
    }
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(len);
        // one choice per small buffer byte, one seed for large ones
        if len <= 24 {
            for _ in 0..len {
                out.push(self.draw(256) as u8);
            }
        } else {
            let mut r = Rng::new(self.draw(1 << 32));
            while out.len() < len {
                out.extend_from_slice(&r.next().to_le_bytes());
            }
            out.truncate(len);
        }
        out
    }
}

// ---------------------------------------------------------------- case context

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is broken
    Broken(String),
    /// something that has to happen did not happen in time: the property is broken, but only if it
    /// can be shown again
    Missing(String),
    /// the machinery could not run the case (resources, environment): never a verdict
    Infra(String),
}
impl Fail {
    /// what is broken, if anything is
    pub fn verdict(&self) -> Option<&String> {
        match self {
            Fail::Broken(m) | Fail::Missing(m) => Some(m),
            Fail::Infra(_) => None,
        }
    }
}
pub type Res = Result<(), Fail>;

pub fn broken<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Broken(msg.into()))
}

pub fn missing<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Missing(msg.into()))
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail::Broken(format!($($arg)*)));
        }
    };
}

pub struct Ctx {
    pub index: u64,
    pub thorough: bool,
    pub want_desc: bool,
    pub worker: usize,
    nontrivial: bool,
    sig: u64,
    classes: Vec<&'static str>,
    desc: String,
    pub excluded: u64,
}
impl Ctx {
    pub fn new(index: u64, thorough: bool, want_desc: bool, worker: usize) -> Ctx {
        Ctx {
            index,
            thorough,
            want_desc,
            worker,
            nontrivial: false,
            sig: 0,
            classes: Vec::new(),
            desc: String::new(),
            excluded: 0,
        }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    /// marks the case as non-trivial, identified by `key` for the distinct count
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.nontrivial = true;
        self.sig ^= hash64(key).rotate_left(7);
    }
    pub fn desc(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if !self.desc.is_empty() {
                self.desc.push_str(" ; ");
            }
            self.desc.push_str(&s);
        }
    }
}

pub struct Sub {
    pub name: &'static str,
    /// finite case set enumerated completely (count = `quick`), or random cases
    pub enumerated: bool,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Src, &mut Ctx) -> Res,
}
impl Sub {
    pub fn rand(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Src, &mut Ctx) -> Res) -> Sub {
        Sub { name, enumerated: false, quick, thorough, run }
    }
    pub fn all(name: &'static str, n: u64, run: fn(&mut Src, &mut Ctx) -> Res) -> Sub {
        Sub { name, enumerated: true, quick: n, thorough: n, run }
    }
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub subs: Vec<Sub>,
    pub threads: usize,
    /// how often a failing case has to fail when re-run in isolation before it is reported (0 for
    /// deterministic checks)
    pub confirm: u32,
    pub shrink_ms: u64,
    /// a case that makes no progress for this long is itself a violation ("never returns")
    pub stuck_s: u64,
    pub assumptions: Vec<&'static str>,
    /// known findings: (name, probe); the probe returns true while the finding is present
    pub known: Vec<(&'static str, fn() -> bool)>,
}

// ---------------------------------------------------------------- panics

thread_local! {
    static PANICS: RefCell<Vec<String>> = RefCell::new(Vec::new());
}
static GLOBAL_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("panic at {}: {}", at, msg);
        if std::env::var_os("HARNESS_PANIC").is_some() {
            eprintln!("[{:?}] {}", std::thread::current().name(), text);
        }
        let _ = PANICS.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                p.push(text.clone());
            }
        });
        if let Some(name) = std::thread::current().name() {
            if let Ok(mut g) = GLOBAL_PANICS.lock() {
                if g.len() < 10_000 {
                    g.push((name.to_string(), text));
                }
            }
        }
    }));
}
/// panics seen on this thread since the last call
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
/// something that counts like a panic of a thread with this name
pub fn note_panic(name: &str, text: String) {
    GLOBAL_PANICS.lock().unwrap_or_else(|e| e.into_inner()).push((name.to_string(), text));
}
/// panics seen on threads with this name since the last call
pub fn take_named_panics(name: &str) -> Vec<String> {
    let mut g = GLOBAL_PANICS.lock().unwrap_or_else(|e| e.into_inner());
    let mut out = Vec::new();
    g.retain(|(n, t)| {
        if n == name {
            out.push(t.clone());
            false
        } else {
            true
        }
    });
    out
}

// ---------------------------------------------------------------- running

struct Outcome {
    fail: Option<Fail>,
    choices: Vec<u64>,
    ctx: Ctx,
}

fn run_case(sub: &Sub, src: Src, mut ctx: Ctx) -> Outcome {
    let mut src = src;
    let _ = take_panics();
    let r = catch_unwind(AssertUnwindSafe(|| (sub.run)(&mut src, &mut ctx)));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => {
            let p = take_panics();
            Some(Fail::Broken(p.first().cloned().unwrap_or_else(|| "panic".into())))
        }
    };
    Outcome { fail, choices: src.rec, ctx }
}

fn case_seed(seed: u64, id: &str, sub: &str, index: u64) -> u64 {
    let mut r = Rng::new(seed ^ hash64(id.as_bytes()).rotate_left(17) ^ hash64(sub.as_bytes()));
    let a = r.next();
    let mut r2 = Rng::new(a ^ index.wrapping_mul(0x9e37_79b9_7f4a_7c15));
    r2.next()
}

/// so many wrong (not just late) outcomes that never came back are reported all the same
pub const BOARD: usize = 64;
const RARE: usize = 2;

struct Agg {
    evaluations: u64,
    distinct: HashSet<u64>,
    nontrivial: u64,
    excluded: u64,
    unconfirmed: Vec<String>,
    /// wrong outcomes that did not come back when their case was run again
    rare: Vec<(usize, u64, Vec<u64>, String)>,
    not_run: Vec<String>,
    classes: BTreeMap<String, u64>,
    samples: Vec<String>,
    per_sub: BTreeMap<String, u64>,
}

pub struct Settings {
    pub seed: u64,
    pub thorough: bool,
    pub root: String,
    pub replay: Option<String>,
    pub scale: f64,
    pub only: Option<String>,
}

fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

static PROGRESS: [AtomicU64; 64] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 64]
};
/// tells the watchdog that the case of this worker is still moving
pub fn progress(worker: usize) {
    PROGRESS[worker % 64].fetch_add(1, Ordering::Relaxed);
}

pub fn run_check(check: Check, st: &Settings) -> i32 {
    install_panic_hook();
    if let Some(path) = &st.replay {
        return replay(&check, st, path);
    }
    let start = Instant::now();
    // where the parent process looks for the cases at work should this one crash
    let board = if check.confirm > 0 {
        std::env::var_os("HARNESS_BOARD").and_then(|p| std::fs::OpenOptions::new().write(true).create(true).open(p).ok())
    } else {
        None
    };
    let agg = Mutex::new(Agg {
        evaluations: 0,
        distinct: HashSet::new(),
        nontrivial: 0,
        excluded: 0,
        unconfirmed: Vec::new(),
        rare: Vec::new(),
        not_run: Vec::new(),
        classes: BTreeMap::new(),
        samples: Vec::new(),
        per_sub: BTreeMap::new(),
    });
    let mut failure: Option<(usize, u64, Vec<u64>, String)> = None;
    let mut infra: Option<String> = None;
    for (si, sub) in check.subs.iter().enumerate() {
        if let Some(o) = &st.only {
            if o != sub.name {
                continue;
            }
        }
        let n = if sub.enumerated {
            sub.quick
        } else {
            let n = if st.thorough { sub.thorough } else { sub.quick };
            ((n as f64) * st.scale).ceil() as u64
        };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let found: Mutex<Option<(u64, Outcome)>> = Mutex::new(None);
        let current: Vec<AtomicU64> = (0..check.threads).map(|_| AtomicU64::new(u64::MAX)).collect();
        let sub_start = Instant::now();
        std::thread::scope(|scope| {
            let mut hs = Vec::new();
            for w in 0..check.threads {
                let (next, stop, found, agg, current) = (&next, &stop, &found, &agg, &current);
                let check = &check;
                let board = board.as_ref();
                let h = std::thread::Builder::new()
                    .name(format!("case-{}", w))
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        current[w].store(i, Ordering::Relaxed);
                        progress(w);
                        if let Some(f) = board {
                            let mut line = format!("{} {}", sub.name, i).into_bytes();
                            line.resize(BOARD, b' ');
                            let _ = std::os::unix::fs::FileExt::write_at(f, &line, (w * BOARD) as u64);
                        }
                        let want = i < 2 || i == n / 2;
                        let src = Src::random(case_seed(st.seed, check.id, sub.name, i));
                        let mut out = run_case(sub, src, Ctx::new(i, st.thorough, want, w));
                        // trouble of the machinery is not an answer: try again
                        let mut tries = 0;
                        while let Some(Fail::Infra(_)) = &out.fail {
                            tries += 1;
                            if tries > 4 || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(200 * tries));
                            let src = Src::random(case_seed(st.seed, check.id, sub.name, i));
                            out = run_case(sub, src, Ctx::new(i, st.thorough, want, w));
                        }
                        let mut unconfirmed = None;
                        if check.confirm > 0 {
                            if let Some(m) = out.fail.as_ref().and_then(|f| f.verdict()) {
                                let hard = matches!(out.fail, Some(Fail::Broken(_)));
                                // schedule dependent checks: only report what comes back
                                let first = m.clone();
                                let mut again = 0;
                                for k in 0..(20 + check.confirm) {
                                    progress(w);
                                    // another case has come back meanwhile, that is enough
                                    if k > 0 && stop.load(Ordering::Relaxed) {
                                        break;
                                    }
                                    let o = run_case(
                                        sub,
                                        Src::replay(out.choices.clone()),
                                        Ctx::new(i, st.thorough, false, w),
                                    );
                                    if o.fail.as_ref().and_then(|f| f.verdict()).is_some() {
                                        again += 1;
                                        if again >= check.confirm {
                                            break;
                                        }
                                    }
                                    if k >= check.confirm && again > 0 {
                                        break;
                                    }
                                }
                                if again < check.confirm && stop.load(Ordering::Relaxed) {
                                    again = 0;
                                }
                                if again == 0 {
                                    if hard && !stop.load(Ordering::Relaxed) {
                                        let mut a = agg.lock().unwrap();
                                        a.rare.push((si, i, out.choices.clone(), first.clone()));
                                        if a.rare.len() >= RARE {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                    // unless another case failed first: then this one was not pursued
                                    if !stop.load(Ordering::Relaxed) {
                                        unconfirmed = Some(first);
                                    }
                                    out.fail = None;
                                }
                            }
                        }
                        current[w].store(u64::MAX, Ordering::Relaxed);
                        if let Some(Fail::Infra(m)) = &out.fail {
                            // the case could not be run: it counts for nothing
                            eprintln!("{} {} case {}: not run: {}", check.id, sub.name, i, m);
                            let mut a = agg.lock().unwrap();
                            a.not_run.push(format!("{}#{}: {}", sub.name, i, m));
                            continue;
                        }
                        {
                            let mut a = agg.lock().unwrap();
                            a.evaluations += 1;
                            if let Some(m) = unconfirmed {
                                eprintln!("{} {} case {}: failed once and never again: {}", check.id, sub.name, i, m);
                                a.unconfirmed.push(format!("{}#{}: {}", sub.name, i, m));
                            }
                            *a.per_sub.entry(sub.name.to_string()).or_insert(0) += 1;
                            a.excluded += out.ctx.excluded;
                            if out.ctx.nontrivial {
                                a.nontrivial += 1;
                                let s = out.ctx.sig ^ hash64(sub.name.as_bytes());
                                if a.distinct.len() < 40_000_000 {
                                    a.distinct.insert(s);
                                }
                            }
                            for c in &out.ctx.classes {
                                *a.classes.entry(format!("{}/{}", sub.name, c)).or_insert(0) += 1;
                            }
                            if want && !out.ctx.desc.is_empty() && a.samples.len() < 40 {
                                let mut d = out.ctx.desc.clone();
                                if d.len() > 1200 {
                                    let mut k = 1200;
                                    while !d.is_char_boundary(k) {
                                        k -= 1;
                                    }
                                    d.truncate(k);
                                    d.push_str("...");
                                }
                                a.samples.push(format!("{}#{}: {}", sub.name, i, d));
                            }
                        }
                        if out.fail.is_some() {
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map(|(j, _)| i < *j).unwrap_or(true) {
                                *f = Some((i, out));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    })
                    .expect("spawn worker");
                hs.push(h);
            }
            // watchdog: a case that never comes back is reported as such
            let (current, done_ref, check_ref) = (&current, &done, &check);
            scope.spawn(move || {
                let mut last: Vec<(u64, u64, u64)> = vec![(u64::MAX, 0, 0); check_ref.threads];
                while !done_ref.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(100));
                    for w in 0..check_ref.threads {
                        let c = current[w].load(Ordering::Relaxed);
                        let p = PROGRESS[w % 64].load(Ordering::Relaxed);
                        if c == u64::MAX || last[w].0 != c || last[w].1 != p {
                            last[w] = (c, p, 0);
                            continue;
                        }
                        last[w].2 += 1;
                        if last[w].2 > check_ref.stuck_s * 10 {
                            let msg = format!("the case never returns (no progress for {} s)", check_ref.stuck_s);
                            let path = write_replay(st, check_ref.id, sub.name, c, None, &msg);
                            println!("{}: {} case {}: {}", check_ref.id, sub.name, c, msg);
                            println!("VIOLATION property={} replay={}", check_ref.id, path);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done.store(true, Ordering::Relaxed);
        });
        eprintln!(
            "{} {}: {} cases in {:.1}s",
            check.id,
            sub.name,
            agg.lock().unwrap().per_sub.get(sub.name).copied().unwrap_or(0),
            sub_start.elapsed().as_secs_f64()
        );
        let found = found.into_inner().unwrap();
        if let Some((i, out)) = found {
            match out.fail.unwrap() {
                Fail::Infra(m) => {
                    infra = Some(format!("{} case {}: {}", sub.name, i, m));
                    break;
                }
                Fail::Broken(m) | Fail::Missing(m) => {
                    let msg = m;
                    failure = Some((si, i, out.choices, msg));
                    break;
                }
            }
        }
        if agg.lock().unwrap().rare.len() >= RARE {
            break;
        }
    }
    let mut agg = agg.into_inner().unwrap();
    let mut rare = false;
    if failure.is_none() && agg.rare.len() >= RARE {
        let (si, i, choices, msg) = agg.rare[0].clone();
        let text = format!("{} wrong outcomes, none of them twice in the same case; the first: {}", agg.rare.len(), msg);
        failure = Some((si, i, choices, text));
        infra = None;
        rare = true;
    }
    if failure.is_none() && infra.is_none() && agg.not_run.len() as u64 * 4 > agg.evaluations {
        infra = Some(format!("{} cases could not be run, the first: {}", agg.not_run.len(), agg.not_run[0]));
    }
    let mut code = 0;
    let mut violations = 0;
    if let Some(m) = &infra {
        println!("ERROR {}: {}", check.id, m);
        code = 3;
    }
    if let Some((si, i, choices, msg)) = failure {
        let sub = &check.subs[si];
        let (choices, msg) = if rare { (choices, msg) } else { shrink(&check, sub, i, choices, msg, st) };
        // describe the minimal case
        let o = run_case(sub, Src::replay(choices.clone()), Ctx::new(i, st.thorough, true, 0));
        let path = write_replay(st, check.id, sub.name, i, Some((&choices, &o.ctx.desc)), &msg);
        println!("{}: {} case {}: {}", check.id, sub.name, i, msg);
        if !o.ctx.desc.is_empty() {
            let d: String = o.ctx.desc.chars().take(4000).collect();
            println!("  case: {}", d);
        }
        println!("VIOLATION property={} replay={}", check.id, path);
        code = 1;
        violations = 1;
    }
    for (name, probe) in &check.known {
        if known_listed(st, check.id, name) {
            let present = catch_unwind(AssertUnwindSafe(probe)).unwrap_or(false);
            if present {
                println!("KNOWN-FINDING: property={} {}", check.id, name);
            }
        }
    }
    let wall = start.elapsed().as_secs_f64();
    // evidence
    let mut samples = std::mem::take(&mut agg.samples);
    samples.truncate(24);
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"nontrivial_total\": {},\n  \"no_verdict\": {},\n  \"rule\": {},\n  \"classes\": {{",
        json_str(check.id),
        if st.thorough { "thorough" } else { "quick" },
        st.seed,
        agg.evaluations,
        agg.distinct.len(),
        agg.nontrivial,
        agg.excluded,
        json_str(check.rule)
    );
    for (k, (c, n)) in agg.classes.iter().enumerate() {
        let _ = write!(ev, "{}\n   {}: {}", if k > 0 { "," } else { "" }, json_str(c), n);
    }
    ev.push_str("\n  },\n  \"cases_per_subtest\": {");
    for (k, (c, n)) in agg.per_sub.iter().enumerate() {
        let _ = write!(ev, "{}\n   {}: {}", if k > 0 { "," } else { "" }, json_str(c), n);
    }
    ev.push_str("\n  },\n  \"enumerated_subtests\": [");
    for (k, s) in check.subs.iter().filter(|s| s.enumerated).enumerate() {
        let _ = write!(ev, "{}{}", if k > 0 { ", " } else { "" }, json_str(s.name));
    }
    let _ = write!(ev, "],\n  \"failed_once_never_again\": {},\n  \"not_run\": {}", agg.unconfirmed.len(), agg.not_run.len());
    ev.push_str(",\n  \"samples\": [");
    for (k, s) in samples.iter().enumerate() {
        let _ = write!(ev, "{}\n   {}", if k > 0 { "," } else { "" }, json_str(s));
    }
    ev.push_str("\n  ]\n },\n \"assumptions\": [");
    for (k, s) in check.assumptions.iter().enumerate() {
        let _ = write!(ev, "{}\n  {}", if k > 0 { "," } else { "" }, json_str(s));
    }
    let _ = write!(ev, "\n ],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, violations);
    let dir = format!("{}/evidence", st.root);
    let _ = std::fs::create_dir_all(&dir);
    if st.only.is_none() {
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, check.id), ev) {
            println!("ERROR {}: cannot write evidence: {}", check.id, e);
            if code == 0 {
                code = 3;
            }
        }
    }
    if code == 0 {
        println!(
            "OK property={} cases={} distinct_nontrivial={} wall={:.1}s",
            check.id,
            agg.evaluations,
            agg.distinct.len(),
            wall
        );
    }
    code
}

/// The check runs in a child process. If a signal ends that, the case at work when it happened is
/// the counterexample.
pub fn supervise(id: &str, st: &Settings) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let exe = match std::env::current_exe() {
        Ok(e) => e,
        Err(e) => {
            println!("ERROR {}: {}", id, e);
            return 3;
        }
    };
    let dir = format!("{}/target", st.root);
    let _ = std::fs::create_dir_all(&dir);
    let board = format!("{}/board-{}-{}", dir, id, std::process::id());
    let run = |args: &[String]| {
        std::process::Command::new(&exe).args(args).env("HARNESS_CHILD", "1").env("HARNESS_BOARD", &board).status()
    };
    let args: Vec<String> = std::env::args().skip(1).collect();
    let status = run(&args);
    let text = std::fs::read(&board).unwrap_or_default();
    let _ = std::fs::remove_file(&board);
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR {}: {}", id, e);
            return 3;
        }
    };
    if let Some(c) = status.code() {
        return c;
    }
    let signal = status.signal().unwrap_or(0);
    if ![4, 5, 6, 7, 8, 11].contains(&signal) {
        println!("ERROR {}: ended by signal {}", id, signal);
        return 3;
    }
    let msg = format!("the process crashes (signal {})", signal);
    let mut cases: Vec<(String, u64)> = Vec::new();
    for line in text.chunks(BOARD) {
        let t = String::from_utf8_lossy(line);
        let mut w = t.split_whitespace();
        if let (Some(s), Some(Ok(i))) = (w.next(), w.next().map(|x| x.parse())) {
            cases.push((s.to_string(), i));
        }
    }
    println!("{}: {}", id, msg);
    if st.replay.is_some() {
        println!("VIOLATION property={} replay={}", id, st.replay.as_ref().unwrap());
        return 1;
    }
    let mut best = write_replay(st, id, "unknown", 0, None, &msg);
    for (sub, i) in &cases {
        let path = write_replay(st, id, sub, *i, None, &msg);
        let r = run(&[id.to_string(), "--replay".into(), path.clone()]);
        let _ = std::fs::remove_file(&board);
        if let Ok(r) = r {
            if r.code().is_none() {
                best = path;
                break;
            }
        }
        let _ = std::fs::remove_file(&path);
    }
    if !best.contains("-unknown-") {
        let _ = std::fs::remove_file(format!("{}/replays/{}-unknown-0.replay", st.root, id));
    }
    println!("VIOLATION property={} replay={}", id, best);
    1
}

fn known_listed(st: &Settings, id: &str, name: &str) -> bool {
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", st.root)).unwrap_or_default();
    let needle = format!("finding: property={} {}", id, name);
    text.lines().any(|l| l.trim() == needle)
}

/// true if the named finding of this property is listed
pub fn finding_listed(root: &str, id: &str, name: &str) -> bool {
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", root)).unwrap_or_default();
    let needle = format!("finding: property={} {}", id, name);
    text.lines().any(|l| l.trim() == needle)
}

fn write_replay(
    st: &Settings,
    id: &str,
    sub: &str,
    index: u64,
    case: Option<(&Vec<u64>, &String)>,
    msg: &str,
) -> String {
    let dir = format!("{}/replays", st.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.replay", dir, id, sub, index);
    let mut s = String::new();
    let _ = writeln!(s, "property {}", id);
    let _ = writeln!(s, "subtest {}", sub);
    let _ = writeln!(s, "index {}", index);
    let _ = writeln!(s, "seed {}", st.seed);
    let _ = writeln!(s, "tier {}", if st.thorough { "thorough" } else { "quick" });
    if let Some((choices, desc)) = case {
        let c: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
        let _ = writeln!(s, "choices {}", c.join(" "));
        let _ = writeln!(s, "case {}", desc.replace('\n', " "));
    }
    let _ = writeln!(s, "message {}", msg.replace('\n', " "));
    let _ = std::fs::write(&path, s);
    path
}

fn replay(check: &Check, st: &Settings, path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("ERROR cannot read {}: {}", path, e);
            return 3;
        }
    };
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k).map(|r| r.trim().to_string()));
    let sub_name = get("subtest ").unwrap_or_default();
    let index: u64 = get("index ").and_then(|s| s.parse().ok()).unwrap_or(0);
    let seed: u64 = get("seed ").and_then(|s| s.parse().ok()).unwrap_or(st.seed);
    let thorough = get("tier ").map(|t| t == "thorough").unwrap_or(st.thorough);
    let sub = match check.subs.iter().find(|s| s.name == sub_name) {
        Some(s) => s,
        None => {
            println!("ERROR no subtest {}", sub_name);
            return 3;
        }
    };
    let choices: Option<Vec<u64>> =
        get("choices ").map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect());
    let tries = if check.confirm > 0 { 20 } else { 1 };
    for _ in 0..tries {
        let src = match &choices {
            Some(c) => Src::replay(c.clone()),
            None => Src::random(case_seed(seed, check.id, sub.name, index)),
        };
        let o = run_case(sub, src, Ctx::new(index, thorough, true, 0));
        match o.fail {
            Some(Fail::Broken(m)) | Some(Fail::Missing(m)) => {
                println!("{}: {} case {}: {}", check.id, sub.name, index, m);
                println!("  case: {}", o.ctx.desc);
                println!("VIOLATION property={} replay={}", check.id, path);
                return 1;
            }
            Some(Fail::Infra(m)) => {
                println!("ERROR {}", m);
                return 3;
            }
            None => {}
        }
    }
    println!("replay passes");
    0
}

fn shrink(
    check: &Check,
    sub: &Sub,
    index: u64,
    mut best: Vec<u64>,
    mut msg: String,
    st: &Settings,
) -> (Vec<u64>, String) {
    let deadline = Instant::now() + Duration::from_millis(check.shrink_ms);
    let need = if check.confirm > 0 { 2 } else { 1 };
    let try_ = |c: &Vec<u64>| -> Option<(Vec<u64>, String)> {
        let mut m = None;
        let mut rec = Vec::new();
        for _ in 0..need {
            let o = run_case(sub, Src::replay(c.clone()), Ctx::new(index, st.thorough, false, 0));
            match o.fail {
                Some(Fail::Broken(x)) | Some(Fail::Missing(x)) => {
                    m = Some(x);
                    rec = o.choices;
                }
                _ => return None,
            }
        }
        m.map(|m| (rec, m))
    };
    // simplest sequences are the shortest, then the smallest ones
    let better = |a: &Vec<u64>, b: &Vec<u64>| {
        let strip = |v: &Vec<u64>| v.len();
        (strip(a), a.iter().fold(0u128, |s, x| s + *x as u128))
            < (strip(b), b.iter().fold(0u128, |s, x| s + *x as u128))
    };
    let mut improved = true;
    while improved && Instant::now() < deadline {
        improved = false;
        // delete chunks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && Instant::now() < deadline {
                let mut c = best.clone();
                let end = (at + size).min(c.len());
                c.drain(at..end);
                match try_(&c) {
                    Some((r, m)) if better(&r, &best) => {
                        best = r;
                        msg = m;
                        improved = true;
                    }
                    _ => at += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut at = 0;
        while at < best.len() && Instant::now() < deadline {
            let v = best[at];
            let mut cands = vec![0];
            if v > 1 {
                cands.push(v / 2);
                cands.push(v - 1);
            }
            for k in cands {
                if k >= v {
                    continue;
                }
                let mut c = best.clone();
                c[at] = k;
                if let Some((r, m)) = try_(&c) {
                    if better(&r, &best) {
                        best = r;
                        msg = m;
                        improved = true;
                        break;
                    }
                }
            }
            at += 1;
        }
    }
    (best, msg)
}
