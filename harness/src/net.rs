//! An in-process broker per case, and test clients over real sockets (TCP or Noise) that speak
//! the independent codec.
use crate::engine::*;
use crate::refcodec::*;
#[cfg(feature = "noise")]
use apiformes_server_lib::Permeability;
use apiformes_server_lib::{MqttServer, MqttServerConfig};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::ops::AsyncFnOnce;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{TcpSocket, TcpStream};
use tokio::sync::Notify;

pub const NOISE: &str = "Noise_XK_25519_ChaChaPoly_BLAKE2s";
/// waiting is counted in executed ticks of this length
pub const TICK: Duration = Duration::from_millis(50);
pub const TICKS: u32 = 120;
pub const NOISE_MAX: usize = 65519;
pub const FENCE: u16 = 0xf000;
/// the broker was built with its Noise listener; without it every client is a plain one
pub const NOISE_BUILT: bool = cfg!(feature = "noise");

#[derive(Clone, Debug)]
pub struct Conf {
    pub queue: usize,
    pub max: u32,
    pub keep: u16,
    pub tcp: bool,
    pub noise: bool,
    pub strict: bool,
    /// 0: everything on one thread, otherwise this many runtime threads
    pub threads: usize,
    /// of the server program: what the variable RUST_LOG says
    pub log: &'static str,
    /// of the server program: how many descriptors it may have open, 0: no limit
    pub files: u64,
    /// which private key it has
    pub key: u64,
}
impl Conf {
    pub fn plain() -> Conf {
        Conf { queue: 1 << 20, max: 65536, keep: 50, tcp: true, noise: NOISE_BUILT, strict: false, threads: 0, log: "", files: 0, key: 7 }
    }
    /// what the server program is documented to use
    pub fn shipped() -> Conf {
        Conf { queue: 1 << 20, max: 65536, keep: 50, tcp: true, noise: true, strict: true, threads: 0, log: "", files: 0, key: 7 }
    }
    /// a configuration that admits packets of at least `min` bytes
    pub fn random(s: &mut Src, min: u32) -> Conf {
        if PROGRAM.get().is_some() {
            let log = *s.pick(&["", "", "trace", "debug", "info", "apiformes_server_lib=trace", "warn,a=b=c,,=", "off"]);
            return Conf { log, ..Conf::shipped() };
        }
        let mut c = Conf::plain();
        c.queue = *s.pick(&[1 << 20, 0, 1, 299, 1000, 3000, 100_000, 1 << 30]);
        c.max = match s.below(4) {
            0 => 65536,
            1 => min + s.below(200) as u32,
            2 => min + s.below(70_000) as u32,
            _ => *s.pick(&[min.max(65519), min.max(65535), min.max(200_000), 1 << 20, 8 << 20, 268_435_460]),
        }
        .max(min);
        c.keep = *s.pick(&[50, 0, 30, 65535, 600]);
        c.strict = s.chance(1, 2) && NOISE_BUILT;
        c.threads = *s.pick(&[0, 0, 0, 2, 4]);
        c
    }
}

/// the public key documented beside the private one in the server program
pub const SHIPPED_KEY: [u8; 32] = [
    180, 132, 40, 246, 52, 36, 9, 93, 224, 18, 51, 123, 188, 226, 131, 145, 196, 93, 24, 112, 227, 133, 8, 199, 229,
    139, 2, 248, 5, 115, 136, 37,
];
pub fn keys(seed: u64) -> ([u8; 32], [u8; 32]) {
    // an x25519 pair from any 32 bytes: snow derives the public half itself, ask a handshake
    let mut k = [0u8; 32];
    let mut r = Rng::new(seed);
    for c in k.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    let p = public_of(&k);
    (k, p)
}
fn public_of(k: &[u8; 32]) -> [u8; 32] {
    use snow::resolvers::{CryptoResolver, DefaultResolver};
    let mut d = DefaultResolver::default().resolve_dh(&snow::params::DHChoice::Curve25519).expect("x25519");
    d.set(k);
    let mut out = [0u8; 32];
    out.copy_from_slice(d.pubkey());
    out
}

static NEXT_ADDR: AtomicU32 = AtomicU32::new(0);
pub fn fresh_ip() -> IpAddr {
    let n = NEXT_ADDR.fetch_add(1, Ordering::Relaxed);
    let pid = std::process::id();
    let b = 1 + (pid % 250) as u8;
    let c = ((n / 250) % 254) as u8;
    let d = 1 + (n % 250) as u8;
    IpAddr::V4(Ipv4Addr::new(127, b, c, d))
}

/// set: every world is served by this program instead of a server in this process
pub static PROGRAM: std::sync::OnceLock<std::path::PathBuf> = std::sync::OnceLock::new();

extern "C" {
    fn prctl(option: i32, ...) -> i32;
}
/// a process that ends with the thread that started it
pub fn command(program: &std::path::Path) -> std::process::Command {
    use std::os::unix::process::CommandExt;
    let mut c = std::process::Command::new(program);
    c.env_clear().current_dir("/");
    unsafe {
        c.pre_exec(|| {
            // PR_SET_PDEATHSIG, SIGKILL
            prctl(1, 9u64);
            Ok(())
        });
    }
    c
}

extern "C" {
    fn unshare(flags: i32) -> i32;
    fn socket(domain: i32, ty: i32, protocol: i32) -> i32;
    fn ioctl(fd: i32, request: u64, arg: *mut u8) -> i32;
    fn close(fd: i32) -> i32;
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn getsockname(fd: i32, addr: *mut u8, len: *mut u32) -> i32;
    fn getsockopt(fd: i32, level: i32, name: i32, value: *mut i32, len: *mut u32) -> i32;
}
/// Lets the threads of this process have networks of their own, where the sandbox allows it. Has to
/// happen before there are any.
pub fn own_user_namespace() {
    // CLONE_NEWUSER
    unsafe {
        unshare(0x1000_0000);
    }
}
/// A network of its own for this thread, with nothing but a loopback interface, where the
/// sandbox allows it.
fn isolate() -> bool {
    thread_local! {
        static DONE: std::cell::OnceCell<bool> = const { std::cell::OnceCell::new() };
    }
    DONE.with(|d| {
        *d.get_or_init(|| unsafe {
            // CLONE_NEWNET
            if unshare(0x4000_0000) != 0 {
                return false;
            }
            let fd = socket(2, 1, 0);
            if fd < 0 {
                return false;
            }
            // struct ifreq: the name, then the flags: SIOCSIFFLAGS with IFF_UP
            let mut req = [0u8; 40];
            req[..2].copy_from_slice(b"lo");
            req[16] = 1;
            let r = ioctl(fd, 0x8914, req.as_mut_ptr());
            close(fd);
            r == 0
        })
    })
}
/// held by a case that shares the ports with others
static PORTS: Mutex<()> = Mutex::new(());

/// the running server program
pub struct Program {
    _ports: Option<std::sync::MutexGuard<'static, ()>>,
    child: std::process::Child,
    worker: usize,
}
impl Program {
    fn start(worker: usize, log: &str, files: u64, ports: Option<std::sync::MutexGuard<'static, ()>>) -> Result<Program, Fail> {
        use std::process::Stdio;
        let path = PROGRAM.get().unwrap();
        let mut command = command(path);
        if !log.is_empty() {
            command.env("RUST_LOG", log);
        }
        if files > 0 {
            use std::os::unix::process::CommandExt;
            unsafe {
                command.pre_exec(move || {
                    // RLIMIT_NOFILE
                    match setrlimit(7, &[files, files]) {
                        0 => Ok(()),
                        _ => Err(std::io::Error::last_os_error()),
                    }
                });
            }
        }
        let child = command
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| Fail::Infra(format!("{}: {}", path.display(), e)))?;
        Ok(Program { _ports: ports, child, worker })
    }
}
/// the ports of the server program are this case's as long as this is held
pub fn ports(worker: usize) -> Result<Option<std::sync::MutexGuard<'static, ()>>, Fail> {
    if isolate() {
        return Ok(None);
    }
    loop {
        progress(worker);
        match PORTS.try_lock() {
            Ok(g) => return Ok(Some(g)),
            Err(std::sync::TryLockError::Poisoned(g)) => return Ok(Some(g.into_inner())),
            Err(_) => std::thread::sleep(Duration::from_millis(2)),
        }
    }
}
impl Drop for Program {
    fn drop(&mut self) {
        use std::io::Read;
        let ended = self.child.try_wait().ok().flatten();
        let _ = self.child.kill();
        let _ = self.child.wait();
        let mut text = String::new();
        if let Some(mut e) = self.child.stderr.take() {
            let _ = e.read_to_string(&mut text);
        }
        let name = format!("rt-{}", self.worker);
        if let Some(st) = ended {
            note_panic(&name, format!("the server program ended ({}): {}", st, text.lines().next().unwrap_or("")));
        } else if let Some(l) = text.lines().find(|l| l.contains("panicked")) {
            note_panic(&name, l.to_string());
        }
    }
}

pub struct World {
    pub server: Option<MqttServer>,
    pub program: Option<Program>,
    pub conf: Conf,
    pub tcp: SocketAddr,
    pub noise: SocketAddr,
    pub private: [u8; 32],
    pub public: [u8; 32],
    pub worker: usize,
    next_name: u32,
}

impl World {
    pub fn config(&self) -> MqttServerConfig {
        MqttServerConfig {
            mqtt_socketaddr: if self.conf.tcp { Some(self.tcp) } else { None },
            keep_alive: self.conf.keep,
            dispatcher_queue_size: self.conf.queue,
            max_packet_size: self.conf.max,
            #[cfg(feature = "noise")]
            noise_socketaddr: if self.conf.noise { Some(self.noise) } else { None },
            #[cfg(feature = "noise")]
            channel_permeability: if self.conf.strict { Permeability::Strict } else { Permeability::Permissive },
            #[cfg(feature = "noise")]
            private_key: self.private,
        }
    }
    /// the server program, on its own addresses and with its own configuration
    async fn start_program(worker: usize, log: &'static str, files: u64) -> Result<World, Fail> {
        let ports = ports(worker)?;
        for k in 0..TICKS {
            let free = |p: u16| std::net::TcpListener::bind(("0.0.0.0", p)).is_ok();
            if free(1883) && free(8883) {
                break;
            }
            if k + 1 == TICKS {
                return Err(Fail::Infra("the ports 1883 and 8883 are in use".into()));
            }
            progress(worker);
            tokio::time::sleep(TICK).await;
        }
        let mut program = Program::start(worker, log, files, ports)?;
        let ip = fresh_ip();
        let (tcp, noise) = (SocketAddr::new(ip, 1883), SocketAddr::new(ip, 8883));
        let begun = std::time::Instant::now();
        let mut ticks = 0;
        for a in [tcp, noise] {
            while TcpStream::connect(a).await.is_err() {
                if let Ok(Some(st)) = program.child.try_wait() {
                    return broken(format!("the server program ends at once: {}", st));
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
                if begun.elapsed() > TICK * (ticks + 1) {
                    ticks += 1;
                    progress(worker);
                }
                if ticks > TICKS {
                    return missing(format!("the server program does not listen on {}", a));
                }
            }
        }
        Ok(World {
            server: None,
            program: Some(program),
            conf: Conf { log, files, ..Conf::shipped() },
            tcp,
            noise,
            private: [0; 32],
            public: SHIPPED_KEY,
            worker,
            next_name: 0,
        })
    }
    pub async fn start(worker: usize, conf: Conf) -> Result<World, Fail> {
        if PROGRAM.get().is_some() {
            return World::start_program(worker, conf.log, conf.files).await;
        }
        let (private, public) = keys(conf.key);
        let mut last = String::new();
        for _ in 0..6 {
            let ip = fresh_ip();
            let mut w = World {
                server: None,
                program: None,
                conf: conf.clone(),
                tcp: SocketAddr::new(ip, 1883),
                noise: SocketAddr::new(ip, 8883),
                private,
                public,
                worker,
                next_name: 0,
            };
            // is the address really free?
            let free = |a: SocketAddr| std::net::TcpListener::bind(a).is_ok();
            if !free(w.tcp) || !free(w.noise) {
                continue;
            }
            match MqttServer::new(w.config()).await {
                Ok(s) => {
                    w.server = Some(s);
                    return Ok(w);
                }
                Err(e) => last = format!("{:?}", e),
            }
        }
        if last.is_empty() {
            return Err(Fail::Infra("the addresses for the server are in use".into()));
        }
        broken(format!("the server does not start with {:?}: {}", conf, last))
    }
    pub fn name(&mut self) -> String {
        self.next_name += 1;
        format!("c{}", self.next_name)
    }
    pub async fn open(&self, encrypted: bool) -> Result<Client, Fail> {
        self.open_with(encrypted, None).await
    }
    /// a connected socket, after the handshake if encrypted, before CONNECT
    pub async fn open_with(&self, encrypted: bool, rcvbuf: Option<u32>) -> Result<Client, Fail> {
        let encrypted = encrypted && NOISE_BUILT;
        let s = self.socket(encrypted, rcvbuf).await?;
        if encrypted {
            Client::noise(s, &self.public, self.worker).await
        } else {
            Ok(Client::plain(s, self.worker))
        }
    }
    /// like open; what is still to be sent of the handshake is returned
    pub async fn open_lazy(&self, encrypted: bool) -> Result<(Client, Vec<u8>), Fail> {
        let encrypted = encrypted && NOISE_BUILT;
        let s = self.socket(encrypted, None).await?;
        if encrypted {
            Client::noise_lazy(s, &self.public, self.worker).await
        } else {
            Ok((Client::plain(s, self.worker), Vec::new()))
        }
    }
    pub async fn socket(&self, encrypted: bool, rcvbuf: Option<u32>) -> Result<TcpStream, Fail> {
        let addr = if encrypted && NOISE_BUILT { self.noise } else { self.tcp };
        let mut last = String::new();
        for k in 0..4u64 {
            let so = TcpSocket::new_v4().map_err(|e| Fail::Infra(e.to_string()))?;
            if let Some(n) = rcvbuf {
                let _ = so.set_recv_buffer_size(n);
            }
            match patient(self.worker, so.connect(addr)).await {
                Some(Ok(s)) => {
                    let _ = s.set_nodelay(true);
                    return Ok(s);
                }
                Some(Err(e)) => match e.kind() {
                    std::io::ErrorKind::ConnectionRefused => {
                        return broken(format!("the {} listener refuses connections", if encrypted { "noise" } else { "tcp" }))
                    }
                    _ => last = e.to_string(),
                },
                None => return missing("the listener does not answer a connection attempt"),
            }
            tokio::time::sleep(Duration::from_millis(50 << k)).await;
        }
        Err(Fail::Infra(format!("connect: {}", last)))
    }
    /// opens, sends a plain CONNECT and takes the CONNACK
    pub async fn client(&mut self, encrypted: bool, id: &str) -> Result<Client, Fail> {
        self.client_with(encrypted, id, Vec::new(), None).await
    }
    pub async fn client_with(
        &mut self,
        encrypted: bool,
        id: &str,
        props: Props,
        rcvbuf: Option<u32>,
    ) -> Result<Client, Fail> {
        let mut c = self.open_with(encrypted, rcvbuf).await?;
        c.announced = props.iter().find(|p| p.0 == 0x27).map(|p| match p.1 {
            Val::U32(v) => v,
            _ => u32::MAX,
        });
        c.send(&connect(id, props)).await?;
        c.connack().await?;
        c.id = id.to_string();
        Ok(c)
    }
    /// waits until the registry of the server is exactly this
    pub async fn registry(&self, want: &[String]) -> Res {
        let server = match &self.server {
            Some(s) => s,
            None => return Ok(()),
        };
        let mut want: Vec<String> = want.to_vec();
        want.sort();
        let mut got = Vec::new();
        for k in 0..TICKS * 15 {
            match patient(self.worker, server.clients()).await {
                Some(v) => got = v.iter().map(|c| c.to_string()).collect(),
                None => return missing("asking for the list of clients never returns"),
            }
            got.sort();
            if got == want {
                return Ok(());
            }
            progress(self.worker);
            if k < 20 {
                tokio::task::yield_now().await;
            } else {
                tokio::time::sleep(Duration::from_millis(3)).await;
            }
        }
        missing(format!("the server lists the clients {:?}, connected are {:?}", got, want))
    }
    /// how many connections the server in this process holds: open descriptors of sockets that have
    /// one of its addresses and do not listen
    pub fn sockets(&self) -> Option<usize> {
        let bytes = |a: &SocketAddr| match a {
            SocketAddr::V4(a) => {
                let (p, i) = (a.port().to_be_bytes(), a.ip().octets());
                [p[0], p[1], i[0], i[1], i[2], i[3]]
            }
            _ => [0; 6],
        };
        let mine = [bytes(&self.tcp), bytes(&self.noise)];
        let mut n = 0;
        for e in std::fs::read_dir("/proc/self/fd").ok()? {
            let fd: i32 = match e.ok().and_then(|e| e.file_name().to_str().and_then(|n| n.parse().ok())) {
                Some(fd) => fd,
                None => continue,
            };
            let (mut a, mut len) = ([0u8; 128], 128u32);
            let (mut listens, mut ll) = (0i32, 4u32);
            // AF_INET; SOL_SOCKET, SO_ACCEPTCONN
            let own = unsafe {
                getsockname(fd, a.as_mut_ptr(), &mut len) == 0
                    && u16::from_ne_bytes([a[0], a[1]]) == 2
                    && getsockopt(fd, 1, 30, &mut listens, &mut ll) == 0
            };
            if own && listens == 0 && mine.iter().any(|m| m[..] == a[2..8]) {
                n += 1;
            }
        }
        Some(n)
    }
    /// waits until the server has this many connections
    pub async fn released(&self, want: usize, what: &str) -> Res {
        let mut got = 0;
        for k in 0..TICKS * 2 {
            got = match self.sockets() {
                Some(n) => n,
                None => return Err(Fail::Infra("the open descriptors cannot be listed".into())),
            };
            if got == want {
                return Ok(());
            }
            progress(self.worker);
            tokio::time::sleep(TICK / if k < 20 { 10 } else { 1 }).await;
        }
        missing(format!("the server keeps {} connections {}, there are {}", got, what, want))
    }
    /// a newcomer can connect, subscribe and receive its own message, on each listener
    pub async fn healthy(&mut self) -> Res {
        for enc in [false, true] {
            if (enc && !self.conf.noise) || (!enc && !self.conf.tcp) {
                continue;
            }
            let id = format!("health{}", enc);
            let mut c = self.client(enc, &id).await.map_err(|f| context("a new client cannot connect", f))?;
            c.subscribe(1, &[("health/check", 0x20)]).await.map_err(|f| context("a new client cannot subscribe", f))?;
            let m = publish("health/check", b"ok");
            c.send(&m).await?;
            c.fence().await.map_err(|f| context("a new client is not served", f))?;
            let got = c.take();
            if got.len() != 1 || got[0] != m {
                return broken(format!("a new client publishes to itself and receives {:?}", got));
            }
            c.close().await;
        }
        Ok(())
    }
}

pub fn context(what: &str, f: Fail) -> Fail {
    match f {
        Fail::Broken(m) => Fail::Broken(format!("{}: {}", what, m)),
        Fail::Missing(m) => Fail::Missing(format!("{}: {}", what, m)),
        f => f,
    }
}

/// waits for a future in ticks; None: it never came
pub async fn patient<T>(worker: usize, f: impl std::future::Future<Output = T>) -> Option<T> {
    patient_for(worker, TICKS, f).await
}
pub async fn patient_for<T>(worker: usize, ticks: u32, f: impl std::future::Future<Output = T>) -> Option<T> {
    tokio::pin!(f);
    for _ in 0..ticks {
        tokio::select! {
            biased;
            r = &mut f => return Some(r),
            _ = tokio::time::sleep(TICK) => progress(worker),
        }
    }
    None
}

pub fn connect(id: &str, props: Props) -> RP {
    RP::Connect { flags: 2, keep: 60, props, id: id.to_string(), will: None, user: None, pass: None }
}
pub fn publish(topic: &str, payload: &[u8]) -> RP {
    RP::Publish { flags: 0, topic: topic.to_string(), id: None, props: vec![], payload: payload.to_vec() }
}
pub fn subscribe(id: u16, topics: &[(&str, u8)]) -> RP {
    RP::Subscribe { id, props: vec![], topics: topics.iter().map(|(t, o)| (t.to_string(), *o)).collect() }
}
pub fn is_refusal(p: &RP) -> bool {
    matches!(p, RP::Disc { ty: T_DISCONNECT, code: 0x83, .. })
}

// ---------------------------------------------------------------- clients

#[derive(Default)]
pub struct Inbox {
    raw: Vec<u8>,
    pub pkts: Vec<RP>,
    fences: Vec<u16>,
    /// something that is not a legal packet, or is larger than announced
    pub bad: Option<String>,
    pub closed: bool,
    pub how: String,
    pub total: usize,
}

pub struct Client {
    pub id: String,
    pub encrypted: bool,
    pub announced: Option<u32>,
    pub worker: usize,
    wr: Option<OwnedWriteHalf>,
    crypto: Option<Arc<Mutex<snow::TransportState>>>,
    pub inbox: Arc<Mutex<Inbox>>,
    wake: Arc<Notify>,
    paused: Arc<AtomicBool>,
    resume: Arc<Notify>,
    reader: tokio::task::JoinHandle<()>,
    next_fence: u16,
}

/// something that is done again and again until it is dropped
#[derive(Default)]
pub struct Flood {
    pub stop: Arc<AtomicBool>,
    /// how often it was done
    pub sent: Arc<AtomicUsize>,
    pub over: Arc<AtomicBool>,
    pub task: Option<tokio::task::JoinHandle<()>>,
}
impl Flood {
    pub fn count(&self) -> usize {
        self.sent.load(Ordering::SeqCst)
    }
    pub fn ended(&self) -> bool {
        self.over.load(Ordering::SeqCst)
    }
    pub fn abort(&self) {
        self.stop.store(true, Ordering::SeqCst);
        if let Some(t) = &self.task {
            t.abort();
        }
    }
}
impl Drop for Flood {
    fn drop(&mut self) {
        self.abort();
    }
}

impl Drop for Client {
    fn drop(&mut self) {
        self.reader.abort();
    }
}

fn take_packets(inbox: &mut Inbox, whole: bool) {
    let raw = std::mem::take(&mut inbox.raw);
    let used = take_from(inbox, &raw, whole);
    inbox.raw = raw[used..].to_vec();
}
fn take_from(inbox: &mut Inbox, raw: &[u8], whole: bool) -> usize {
    let mut at = 0;
    loop {
        if inbox.bad.is_some() {
            return at;
        }
        let rest = &raw[at..];
        let len = match header(rest) {
            Some(Ok(n)) if rest.len() >= n => n,
            Some(Err(_)) => {
                inbox.bad = Some(format!("the server sent bytes that are no packet: {:02x?}", &rest[..rest.len().min(40)]));
                return at;
            }
            _ => {
                if whole && (at == 0 || !rest.is_empty()) {
                    inbox.bad = Some("a message without a complete packet".into());
                }
                return at;
            }
        };
        let f = &rest[..len];
        at += len;
        match read(f) {
            Read::Good(p, _, _) => match &p {
                RP::SubAck { ty: T_SUBACK, id, codes, .. } if *id >= FENCE => {
                    if codes != &vec![0x83] {
                        inbox.bad = Some(format!("a refused subscription was answered with {:?}", p));
                    }
                    inbox.fences.push(*id);
                }
                _ => inbox.pkts.push(p.norm()),
            },
            _ => {
                inbox.bad = Some(format!("the server sent an illegal packet: {:02x?}", &f[..f.len().min(60)]));
                return at;
            }
        }
        if whole {
            if at < raw.len() {
                inbox.bad = Some("a message with more than one packet".into());
            }
            return at;
        }
    }
}

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32;
}
/// acknowledge at once, the server's small packets would otherwise wait for the delayed
/// acknowledgement of the ones before
fn quick_ack(fd: i32) {
    let one = 1i32;
    // IPPROTO_TCP, TCP_QUICKACK
    unsafe {
        setsockopt(fd, 6, 12, &one, 4);
    }
}

async fn reader(
    mut rd: OwnedReadHalf,
    inbox: Arc<Mutex<Inbox>>,
    wake: Arc<Notify>,
    paused: Arc<AtomicBool>,
    resume: Arc<Notify>,
    crypto: Option<Arc<Mutex<snow::TransportState>>>,
) {
    use std::os::unix::io::AsRawFd;
    let mut buf = vec![0u8; 65536];
    let fd = {
        let s: &TcpStream = rd.as_ref();
        s.as_raw_fd()
    };
    quick_ack(fd);
    let mut net: Vec<u8> = Vec::new();
    loop {
        while paused.load(Ordering::SeqCst) {
            resume.notified().await;
        }
        let r = tokio::select! {
            r = rd.read(&mut buf) => r,
            _ = resume.notified() => continue,
        };
        let n = match r {
            Ok(0) => {
                let mut i = inbox.lock().unwrap();
                i.closed = true;
                i.how = "end of stream".into();
                if (!i.raw.is_empty() || !net.is_empty()) && i.bad.is_none() {
                    i.how = "end of stream inside a packet".into();
                }
                wake.notify_one();
                return;
            }
            Err(e) => {
                let mut i = inbox.lock().unwrap();
                i.closed = true;
                i.how = e.to_string();
                wake.notify_one();
                return;
            }
            Ok(n) => n,
        };
        quick_ack(fd);
        let mut i = inbox.lock().unwrap();
        i.total += n;
        match &crypto {
            None => {
                i.raw.extend_from_slice(&buf[..n]);
                take_packets(&mut i, false);
            }
            Some(c) => {
                net.extend_from_slice(&buf[..n]);
                while net.len() >= 4 {
                    let len = u32::from_be_bytes([net[0], net[1], net[2], net[3]]) as usize;
                    if len > 65535 {
                        i.bad = Some(format!("a noise message of {} bytes", len));
                        break;
                    }
                    if net.len() < 4 + len {
                        break;
                    }
                    let m: Vec<u8> = net.drain(..4 + len).skip(4).collect();
                    let mut out = vec![0u8; len.max(16)];
                    match c.lock().unwrap().read_message(&m, &mut out) {
                        Ok(k) => {
                            i.raw.extend_from_slice(&out[..k]);
                            take_packets(&mut i, true);
                        }
                        Err(e) => i.bad = Some(format!("a noise message that does not decrypt: {}", e)),
                    }
                }
            }
        }
        drop(i);
        wake.notify_one();
    }
}

impl Client {
    fn make(stream: TcpStream, crypto: Option<snow::TransportState>, worker: usize) -> Client {
        let (rd, wr) = stream.into_split();
        let inbox = Arc::new(Mutex::new(Inbox::default()));
        let wake = Arc::new(Notify::new());
        let paused = Arc::new(AtomicBool::new(false));
        let resume = Arc::new(Notify::new());
        let encrypted = crypto.is_some();
        let crypto = crypto.map(|c| Arc::new(Mutex::new(c)));
        let reader =
            tokio::spawn(reader(rd, inbox.clone(), wake.clone(), paused.clone(), resume.clone(), crypto.clone()));
        Client {
            id: String::new(),
            encrypted,
            announced: None,
            worker,
            wr: Some(wr),
            crypto,
            inbox,
            wake,
            paused,
            resume,
            reader,
            next_fence: 0,
        }
    }
    pub fn plain(stream: TcpStream, worker: usize) -> Client {
        Client::make(stream, None, worker)
    }
    pub async fn noise(stream: TcpStream, public: &[u8; 32], worker: usize) -> Result<Client, Fail> {
        let (mut c, last) = Client::noise_lazy(stream, public, worker).await?;
        c.raw(&last).await?;
        Ok(c)
    }
    /// stops short of sending the last message of the handshake
    pub async fn noise_lazy(mut stream: TcpStream, public: &[u8; 32], worker: usize) -> Result<(Client, Vec<u8>), Fail> {
        let r = patient(worker, async {
            let mut hs = initiator(public);
            let mut buf = vec![0u8; 65535];
            let n = hs.write_message(&[], &mut buf).map_err(|e| e.to_string())?;
            put_frame(&mut stream, &buf[..n]).await.map_err(|e| e.to_string())?;
            let m = get_frame(&mut stream).await.map_err(|e| e.to_string())?;
            hs.read_message(&m, &mut buf).map_err(|e| format!("handshake answer: {}", e))?;
            let n = hs.write_message(&[], &mut buf).map_err(|e| e.to_string())?;
            let mut last = (n as u32).to_be_bytes().to_vec();
            last.extend_from_slice(&buf[..n]);
            hs.into_transport_mode().map(|t| (t, last)).map_err(|e| e.to_string())
        })
        .await;
        match r {
            Some(Ok((t, last))) => Ok((Client::make(stream, Some(t), worker), last)),
            Some(Err(e)) => broken(format!("the noise handshake fails: {}", e)),
            None => missing("the noise handshake is never answered"),
        }
    }
    /// largest packet this client may be sent
    pub fn limit(&self, conf: &Conf) -> usize {
        let mut l = conf.max as usize;
        if self.encrypted {
            l = l.min(NOISE_MAX);
        }
        if let Some(a) = self.announced {
            l = l.min(a as usize);
        }
        l
    }
    /// the bytes on the wire for one packet's frame
    pub fn seal(&self, frame: &[u8]) -> Vec<u8> {
        match &self.crypto {
            None => frame.to_vec(),
            Some(c) => {
                let mut buf = vec![0u8; frame.len() + 64];
                let n = c.lock().unwrap().write_message(frame, &mut buf).expect("noise message too large for the test client");
                let mut out = (n as u32).to_be_bytes().to_vec();
                out.extend_from_slice(&buf[..n]);
                out
            }
        }
    }
    pub fn seal_len(&self, n: usize) -> usize {
        if self.encrypted {
            n + 20
        } else {
            n
        }
    }
    pub fn bytes_received(&self) -> usize {
        let t = self.inbox.lock().unwrap().total;
        t
    }
    pub async fn send(&mut self, p: &RP) -> Res {
        let w = self.seal(&write(p));
        self.raw(&w).await.map(|_| ())
    }
    /// writes bytes to the socket; Ok(false): the connection is gone
    pub async fn raw(&mut self, b: &[u8]) -> Result<bool, Fail> {
        let worker = self.worker;
        let wr = match &mut self.wr {
            Some(w) => w,
            None => return Ok(false),
        };
        let mut at = 0;
        let mut idle = 0;
        while at < b.len() {
            tokio::select! {
                biased;
                r = wr.write(&b[at..]) => match r {
                    Ok(n) => { at += n; idle = 0; }
                    Err(_) => return Ok(false),
                },
                _ = tokio::time::sleep(TICK) => {
                    progress(worker);
                    idle += 1;
                    if idle > TICKS {
                        return missing(format!("the server stopped reading from client {:?} with {} bytes to go", self.id, b.len() - at));
                    }
                }
            }
        }
        Ok(true)
    }
    /// like raw, gives up after the ticks: how many bytes went out
    pub async fn raw_some(&mut self, b: &[u8], ticks: u32) -> usize {
        let worker = self.worker;
        let wr = match &mut self.wr {
            Some(w) => w,
            None => return 0,
        };
        let mut at = 0;
        let mut idle = 0;
        while at < b.len() {
            tokio::select! {
                biased;
                r = wr.write(&b[at..]) => match r {
                    Ok(n) => { at += n; idle = 0; }
                    Err(_) => return at,
                },
                _ = tokio::time::sleep(TICK) => {
                    progress(worker);
                    idle += 1;
                    if idle > ticks {
                        return at;
                    }
                }
            }
        }
        at
    }
    /// writes bytes cut at the given places, with pauses so that they arrive separately
    pub async fn raw_cut(&mut self, b: &[u8], cuts: &[usize]) -> Result<bool, Fail> {
        let mut at = 0;
        for c in cuts.iter().chain(std::iter::once(&b.len())) {
            let c = (*c).min(b.len());
            if c > at {
                if !self.raw(&b[at..c]).await? {
                    return Ok(false);
                }
                at = c;
                if at < b.len() {
                    tokio::time::sleep(Duration::from_micros(1500)).await;
                }
            }
        }
        Ok(true)
    }
    /// from now on sends these packets, one after the other and again, without ever pausing
    pub fn flood(&mut self, packets: Vec<Vec<u8>>) -> Flood {
        let mut wr = self.wr.take().expect("a client that can send");
        let crypto = self.crypto.clone();
        let mut f = Flood::default();
        let (stop, sent, over) = (f.stop.clone(), f.sent.clone(), f.over.clone());
        let task = tokio::spawn(async move {
            let mut next = 0;
            while !stop.load(Ordering::SeqCst) {
                let mut out = Vec::new();
                let mut n = 0;
                while out.len() < 16384 && n < 200 {
                    let p = &packets[next % packets.len()];
                    next += 1;
                    n += 1;
                    match &crypto {
                        None => out.extend_from_slice(p),
                        Some(c) => {
                            let mut buf = vec![0u8; p.len() + 64];
                            let k = c.lock().unwrap().write_message(p, &mut buf).expect("noise message too large for the test client");
                            out.extend_from_slice(&(k as u32).to_be_bytes());
                            out.extend_from_slice(&buf[..k]);
                        }
                    }
                }
                if wr.write_all(&out).await.is_err() {
                    break;
                }
                sent.fetch_add(n, Ordering::SeqCst);
            }
            over.store(true, Ordering::SeqCst);
        });
        f.task = Some(task);
        f
    }
    pub async fn wait<T>(&self, what: &str, f: impl Fn(&mut Inbox) -> Option<T>) -> Result<T, Fail> {
        for _ in 0..TICKS {
            let mut idle = 0;
            loop {
                {
                    let mut i = self.inbox.lock().unwrap();
                    if let Some(b) = &i.bad {
                        return broken(format!("client {:?}: {}", self.id, b));
                    }
                    if let Some(x) = f(&mut i) {
                        return Ok(x);
                    }
                    if i.closed {
                        return broken(format!(
                            "client {:?}: the connection was closed ({}) while waiting for {}, received {:?}",
                            self.id,
                            i.how,
                            what,
                            i.pkts.iter().map(|p| p.show()).collect::<Vec<_>>()
                        ));
                    }
                }
                tokio::select! {
                    biased;
                    _ = self.wake.notified() => { idle += 1; if idle > 1_000_000 { break; } }
                    _ = tokio::time::sleep(TICK) => break,
                }
            }
            progress(self.worker);
        }
        let i = self.inbox.lock().unwrap();
        missing(format!(
            "client {:?} never gets {}, received {:?}",
            self.id,
            what,
            i.pkts.iter().take(10).map(|p| p.show()).collect::<Vec<_>>()
        ))
    }
    pub async fn connack(&mut self) -> Res {
        let p = self
            .wait("a CONNACK", |i| if i.pkts.is_empty() { None } else { Some(i.pkts.remove(0)) })
            .await?;
        match p {
            RP::ConnAck { code: 0, .. } => Ok(()),
            p => broken(format!("CONNECT of {:?} was answered with {}", self.id, p.show())),
        }
    }
    pub async fn next(&mut self, what: &str) -> Result<RP, Fail> {
        self.wait(what, |i| if i.pkts.is_empty() { None } else { Some(i.pkts.remove(0)) }).await
    }
    /// subscribes and takes the SUBACK, which has to grant what should be granted
    pub async fn subscribe(&mut self, id: u16, topics: &[(&str, u8)]) -> Res {
        self.send(&subscribe(id, topics)).await?;
        let want: Vec<u8> = topics.iter().map(|(_, o)| suback_code(*o)).collect();
        self.suback(id, &want).await
    }
    pub async fn suback(&mut self, id: u16, want: &[u8]) -> Res {
        let p = self
            .wait("a SUBACK", |i| {
                i.pkts
                    .iter()
                    .position(|p| matches!(p, RP::SubAck { ty: T_SUBACK, .. }))
                    .map(|k| i.pkts.remove(k))
            })
            .await?;
        match &p {
            RP::SubAck { id: i, codes, .. } if *i == id && codes == want => Ok(()),
            _ => broken(format!("SUBSCRIBE {} was answered with {}, expected codes {:02x?}", id, p.show(), want)),
        }
    }
    /// sends a fence and returns its number
    pub async fn fence_send(&mut self) -> Result<u16, Fail> {
        let n = FENCE + (self.next_fence % 0x0f00);
        self.next_fence += 1;
        self.send(&subscribe(n, &[("fence", 0x21)])).await?;
        Ok(n)
    }
    pub async fn fence_wait(&mut self, n: u16) -> Res {
        self.wait("the answer to a refused SUBSCRIBE", |i| {
            i.fences.iter().position(|k| *k == n).map(|k| {
                i.fences.remove(k);
            })
        })
        .await
    }
    /// everything this client sent has been processed, everything queued for it has arrived
    pub async fn fence(&mut self) -> Res {
        let n = self.fence_send().await?;
        self.fence_wait(n).await
    }
    pub fn take(&self) -> Vec<RP> {
        std::mem::take(&mut self.inbox.lock().unwrap().pkts)
    }
    pub fn is_closed(&self) -> bool {
        self.inbox.lock().unwrap().closed
    }
    pub fn bad(&self) -> Option<String> {
        self.inbox.lock().unwrap().bad.clone()
    }
    pub fn pause(&self) {
        self.paused.store(true, Ordering::SeqCst);
        self.resume.notify_one();
    }
    pub fn unpause(&self) {
        self.paused.store(false, Ordering::SeqCst);
        self.resume.notify_one();
    }
    /// the server closes this connection, having sent nothing more than what is taken here
    pub async fn closed(&self, why: &str) -> Result<Vec<RP>, Fail> {
        // counted from the last byte that arrived: what was queued in the kernel still comes
        let (mut idle, mut total, mut all) = (0, 0, 0);
        while idle < TICKS && all < TICKS * 10 {
            all += 1;
            let mut n = 0;
            loop {
                {
                    let mut i = self.inbox.lock().unwrap();
                    if i.closed {
                        return Ok(std::mem::take(&mut i.pkts));
                    }
                    if i.total > total {
                        total = i.total;
                        idle = 0;
                    }
                }
                tokio::select! {
                    biased;
                    _ = self.wake.notified() => { n += 1; if n > 1_000_000 { break; } }
                    _ = tokio::time::sleep(TICK) => break,
                }
            }
            idle += 1;
            progress(self.worker);
        }
        missing(format!("client {:?}: the connection is not closed {}, {} bytes arrived on it", self.id, why, total))
    }
    /// the same, whatever bytes arrived before
    pub async fn closed_quietly(&self, why: &str) -> Res {
        self.closed(why).await.map(|_| ())
    }
    /// subscribes beside other traffic
    pub async fn subscribe_any(&mut self, id: u16, topics: &[(&str, u8)]) -> Res {
        self.subscribe(id, topics).await
    }
    /// orderly end of the connection
    pub async fn close(mut self) {
        if let Some(mut w) = self.wr.take() {
            let _ = w.shutdown().await;
        }
    }
    /// stops sending, keeps receiving
    pub async fn half_close(&mut self) {
        if let Some(w) = self.wr.as_mut() {
            let _ = w.shutdown().await;
        }
    }
    /// resets the connection
    pub fn reset(mut self) {
        if let Some(w) = self.wr.take() {
            #[allow(deprecated)]
            let _ = w.as_ref().set_linger(Some(Duration::from_secs(0)));
            self.reader.abort();
            w.forget();
        }
    }
    pub fn set_linger0(&self) {
        if let Some(w) = &self.wr {
            #[allow(deprecated)]
            let _ = w.as_ref().set_linger(Some(Duration::from_secs(0)));
        }
    }
}

pub fn suback_code(o: u8) -> u8 {
    if o & 3 == 0 && (o >> 4) & 3 == 2 {
        0
    } else {
        0x83
    }
}

pub fn initiator(public: &[u8; 32]) -> snow::HandshakeState {
    let (k, _) = keys(4242);
    snow::Builder::new(NOISE.parse().expect("pattern"))
        .local_private_key(&k)
        .remote_public_key(public)
        .build_initiator()
        .expect("initiator")
}
pub async fn put_frame(s: &mut TcpStream, m: &[u8]) -> std::io::Result<()> {
    let mut out = (m.len() as u32).to_be_bytes().to_vec();
    out.extend_from_slice(m);
    s.write_all(&out).await
}
pub async fn get_frame(s: &mut TcpStream) -> std::io::Result<Vec<u8>> {
    let n = s.read_u32().await? as usize;
    let mut b = vec![0u8; n.min(1 << 20)];
    s.read_exact(&mut b).await?;
    Ok(b)
}

/// Runs one case in a runtime of its own; a panic of any task of the server is a violation.
pub fn in_runtime(cx: &mut Ctx, threads: usize, f: impl AsyncFnOnce(&mut Ctx) -> Res) -> Res {
    let name = format!("rt-{}", cx.worker);
    let rt = if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_all().build()
    } else {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(threads)
            .thread_name(name.clone())
            .enable_all()
            .build()
    }
    .map_err(|e| Fail::Infra(e.to_string()))?;
    let _ = take_panics();
    let _ = take_named_panics(&name);
    let r = rt.block_on(f(cx));
    rt.shutdown_background();
    let mut p = take_panics();
    p.extend(take_named_panics(&name));
    if let Some(p) = p.first() {
        // a panic explains whatever else went wrong
        if !matches!(r, Err(Fail::Infra(_))) {
            return broken(format!(
                "a task of the server panics: {}{}",
                p,
                match &r {
                    Err(Fail::Broken(m)) | Err(Fail::Missing(m)) => format!(" ({})", m),
                    _ => String::new(),
                }
            ));
        }
    }
    r.and_then(|_| logged(cx))
}

// ---------------------------------------------------------------- logging

/// A subscriber for everything the broker traces: writes every span and every line out, as the
/// loudest log level would.
struct Log;
static LINES: AtomicU32 = AtomicU32::new(0);
static SPANS: AtomicU32 = AtomicU32::new(0);
/// ways in which the private key of the test servers could be written
static SECRETS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
static LEAKED: Mutex<Option<String>> = Mutex::new(None);

#[derive(Default)]
struct Line(String);
impl tracing::field::Visit for Line {
    fn record_debug(&mut self, field: &tracing::field::Field, value: &dyn std::fmt::Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, " {}={:?}", field.name(), value);
    }
}
impl Line {
    fn done(self, what: &str) {
        LINES.fetch_add(1, Ordering::Relaxed);
        if SECRETS.get().is_some_and(|v| v.iter().any(|s| self.0.contains(s.as_str()))) {
            LEAKED.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(format!("{}: {}", what, self.0));
        }
    }
}
impl tracing::Subscriber for Log {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut l = Line::default();
        a.record(&mut l);
        l.done(a.metadata().name());
        tracing::span::Id::from_u64(SPANS.fetch_add(1, Ordering::Relaxed) as u64 + 1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        let mut l = Line::default();
        r.record(&mut l);
        l.done("record");
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut l = Line::default();
        e.record(&mut l);
        l.done(e.metadata().target());
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
/// from now on everything is logged
pub fn log_everything() {
    let k = keys(7).0;
    let dec = k[4..10].iter().map(|b| b.to_string()).collect::<Vec<_>>();
    let hex = k[4..10].iter().map(|b| format!("{:02x}", b)).collect::<Vec<_>>();
    let short = k[4..10].iter().map(|b| format!("{:x}", b)).collect::<Vec<_>>();
    let mut v = vec![dec.join(", "), hex.join(", "), hex.join(""), short.join(", "), hex.join(" "), hex.join(":")];
    v.extend(v.clone().iter().map(|s| s.to_uppercase()));
    let _ = SECRETS.set(v);
    let _ = tracing::subscriber::set_global_default(Log);
}
/// what the log shows after a case
fn logged(cx: &mut Ctx) -> Res {
    if SECRETS.get().is_none() {
        return Ok(());
    }
    if LINES.load(Ordering::Relaxed) > 0 {
        cx.class("after lines were logged");
    }
    match LEAKED.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(l) => broken(format!("the private key is written to the log: {}", l)),
        None => Ok(()),
    }
}
