//! C22: the built-in connections reach the named server, privately if asked to.
use crate::cl::*;
use crate::core::*;
use crate::hand::*;
use crate::net::*;
use crate::runner::Prop;
use crate::sock::{self, Listen};
use crate::{bail, ensure, ev};
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use std::cell::RefCell;
use std::io::{ErrorKind, Read, Write};
use std::net::{IpAddr, SocketAddr};
use std::ops::ControlFlow;
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use std::time::Duration;
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::tls::{TlsConfig, TlsConfigOptions, Trust};
use vinezombie::client::{Client, ClientLogic};
use vinezombie::ircmsg::ClientMsg;
use vinezombie::string::Word;

pub const PROP: Prop = Prop {
    id: "C22",
    run,
    quick: 60_000,
    thorough: 1_500_000,
    max_steps: 200_000,
    rule: "each run: one or two connections through connect, connect_no_tls, connect_tokio or connect_tokio_no_tls to a random address (name or literal, any port, TLS or not) under simulated name resolution (several addresses, failures) and listeners (refusals, delays), against a plain or TLS 1.2/1.3 server with one of ten certificates (other issuer, other name, out of date, wrong use, self-signed, key not held, forbidden signature scheme), random trust settings, trust files (missing, damaged, empty), client certificates and wall clock, with segmentation, interrupted calls, damaged records, resets and ends at any point; then lines in both directions with time limits and stalls; connection attempts, outcome, what crosses the wire and what arrives are compared with a model; non-trivial = the outcome of a connection attempt was compared",
    real: &[
        "vinezombie ServerAddr, Stream, StreamTokio, TlsConfigOptions, Client over them",
        "std TcpStream, tokio TcpStream with its runtime and I/O driver, mio, rustls, tokio-rustls, webpki, ring",
        "TLS server: rustls",
    ],
    stub: &[
        "sockets, epoll and name resolution (interposed libc calls, seeded faults)",
        "system certificate store (SSL_CERT_FILE), clock and randomness (interposed)",
    ],
    assumptions: &["the server eventually answers or ends the connection while connecting (there is no time limit for that)", "calls on TLS connections that a signal interrupts are restarted by the system (rustls reports interrupted writes and waits anew after interrupted reads)"],
};

const DIR: &str = concat!(env!("CARGO_MANIFEST_DIR"), "/certs");

struct Cert {
    file: &'static str,
    ca: &'static str,
    /// Validity, in seconds since 1970.
    from: i64,
    to: i64,
    names: bool,
    usage: bool,
}
const Y2022: i64 = 1_640_995_200;
const Y2023: i64 = 1_672_531_200;
const Y2030: i64 = 1_893_456_000;
const Y2045: i64 = 2_366_841_600;
const fn c(file: &'static str, ca: &'static str) -> Cert {
    Cert { file, ca, from: Y2022, to: Y2045, names: true, usage: true }
}
const CERTS: &[Cert] = &[
    c("good-ed", "a"),
    c("good-ec", "a"),
    c("good-rsa", "a"),
    c("other-ca", "b"),
    c("sys-ca", "sys"),
    Cert { names: false, ..c("wrong-name", "a") },
    Cert { to: Y2023, ..c("expired", "a") },
    Cert { from: Y2030, ..c("early", "a") },
    Cert { usage: false, ..c("usage", "a") },
    c("self", "self"),
];
const NAMES: &[&str] =
    &["irc.example.net", "host.wild.example.net", "192.0.2.1", "192.0.2.2", "192.0.2.3", "2001:db8::1", "2001:db8::2"];

type Pem = (Vec<CertificateDer<'static>>, Option<PrivateKeyDer<'static>>);
fn pem(file: &str) -> Pem {
    static ALL: OnceLock<std::sync::Mutex<std::collections::BTreeMap<String, Arc<Pem>>>> = OnceLock::new();
    let mut all = ALL.get_or_init(Default::default).lock().unwrap();
    let p = all.entry(file.to_string()).or_insert_with(|| {
        let b = std::fs::read(format!("{DIR}/{file}.pem")).expect("certificate file");
        let certs = rustls_pemfile::certs(&mut &b[..]).map(|c| c.expect("certificate")).collect();
        let key = rustls_pemfile::private_key(&mut &b[..]).expect("key");
        Arc::new((certs, key))
    });
    (p.0.clone(), p.1.as_ref().map(|k| k.clone_key()))
}

/// The server's clock is right.
#[derive(Debug)]
struct OwnClock;
impl rustls::time_provider::TimeProvider for OwnClock {
    fn current_time(&self) -> Option<rustls::pki_types::UnixTime> {
        Some(rustls::pki_types::UnixTime::since_unix_epoch(Duration::from_secs(crate::clock::REAL0 as u64)))
    }
}
/// Signs with a scheme that TLS 1.3 does not allow.
#[derive(Debug)]
struct Legacy(Arc<dyn rustls::sign::SigningKey>);
impl rustls::sign::SigningKey for Legacy {
    fn choose_scheme(&self, _: &[rustls::SignatureScheme]) -> Option<Box<dyn rustls::sign::Signer>> {
        self.0.choose_scheme(&[rustls::SignatureScheme::RSA_PKCS1_SHA256])
    }
    fn algorithm(&self) -> rustls::SignatureAlgorithm {
        self.0.algorithm()
    }
}
#[derive(Debug)]
struct One(Arc<rustls::sign::CertifiedKey>);
impl rustls::server::ResolvesServerCert for One {
    fn resolve(&self, _: rustls::server::ClientHello<'_>) -> Option<Arc<rustls::sign::CertifiedKey>> {
        Some(self.0.clone())
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Odd {
    None,
    /// The server does not hold the certificate's key.
    NotHeld,
    /// A signature scheme TLS 1.3 forbids.
    Legacy,
    /// Not a TLS server.
    Plain,
    /// Ends or resets after so many bytes of its answer.
    Cut(usize, bool),
    /// One byte of what it sends is changed.
    Damage(usize),
}

fn server_config(cert: &Cert, v12: bool, v13: bool, odd: Odd) -> Arc<rustls::ServerConfig> {
    let prov = rustls::crypto::CryptoProvider::get_default().expect("provider").clone();
    let mut vers: Vec<&'static rustls::SupportedProtocolVersion> = Vec::new();
    if v13 {
        vers.push(&rustls::version::TLS13);
    }
    if v12 {
        vers.push(&rustls::version::TLS12);
    }
    let mut roots = rustls::RootCertStore::empty();
    roots.add(pem("ca-b").0.remove(0)).unwrap();
    let ver = rustls::server::WebPkiClientVerifier::builder_with_provider(Arc::new(roots), prov.clone())
        .allow_unauthenticated()
        .build()
        .unwrap();
    let (chain, key) = pem(cert.file);
    let key = match odd {
        Odd::NotHeld => pem(if cert.file == "good-ed" { "other-ca" } else { "good-ed" }).1,
        _ => key,
    };
    let mut key = prov.key_provider.load_private_key(key.unwrap()).unwrap();
    if odd == Odd::Legacy {
        key = Arc::new(Legacy(key));
    }
    let ck = rustls::sign::CertifiedKey::new(chain, key);
    let cfg = rustls::ServerConfig::builder_with_details(prov, Arc::new(OwnClock))
        .with_protocol_versions(&vers)
        .unwrap()
        .with_client_cert_verifier(ver)
        .with_cert_resolver(Arc::new(One(Arc::new(ck))));
    Arc::new(cfg)
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Silence,
    /// A proper end: for TLS, announced.
    Clean,
    /// The stream just ends.
    Bare,
    Reset,
}

/// The far end.
struct Far {
    tls: Option<rustls::ServerConnection>,
    plain_answer: bool,
    /// Bytes received, as the far end understands them.
    got: Vec<u8>,
    /// Lines to send once connected, with delays.
    script: Vec<(u64, Vec<u8>)>,
    end: End,
    started: bool,
    failed: bool,
    closed: bool,
    sent: usize,
    odd: Odd,
    cut: bool,
    lat: u64,
    sni: Option<String>,
    peer: Vec<CertificateDer<'static>>,
    ticks: u64,
}
impl Far {
    /// Sends wire bytes, possibly cut or damaged.
    fn wire(&mut self, mut b: Vec<u8>, delay: u64, io: &mut PeerIo) {
        if self.cut || b.is_empty() {
            return;
        }
        let at = self.sent;
        self.sent += b.len();
        match self.odd {
            Odd::Cut(k, reset) if self.sent > k => {
                b.truncate(k.saturating_sub(at));
                self.cut = true;
                if !b.is_empty() {
                    io.out.push((delay, Item::Bytes(b)));
                }
                fault("cut_in_handshake");
                io.out.push((delay, if reset { Item::Err(ErrorKind::ConnectionReset) } else { Item::Eof }));
                return;
            }
            Odd::Damage(k) if at <= k && k < self.sent => {
                fault("damaged_byte");
                b[k - at] ^= 1 << (k % 8);
                // The record may have become longer; nobody waits for the rest forever.
                io.out.push((delay, Item::Bytes(b)));
                io.out.push((delay + 300 * SEC, Item::Eof));
                self.cut = true;
                return;
            }
            _ => {}
        }
        io.out.push((delay, Item::Bytes(b)));
    }
    fn out(&mut self, delay: u64, io: &mut PeerIo) {
        let mut v = Vec::new();
        if let Some(t) = &mut self.tls {
            while t.wants_write() {
                if t.write_tls(&mut v).is_err() {
                    break;
                }
            }
        }
        self.wire(v, delay, io);
    }
    fn talk(&mut self, io: &mut PeerIo) {
        let mut d = self.lat;
        for (gap, line) in std::mem::take(&mut self.script) {
            d += gap;
            if let Some(t) = &mut self.tls {
                t.writer().write_all(&line).unwrap();
                self.out(d, io);
            } else {
                self.wire(line, d, io);
            }
        }
        if self.cut {
            return;
        }
        match self.end {
            End::Silence => {}
            End::Clean => {
                if let Some(t) = &mut self.tls {
                    t.send_close_notify();
                    self.out(d, io);
                }
                io.out.push((d, Item::Eof));
            }
            End::Bare => io.out.push((d, Item::Eof)),
            End::Reset => io.out.push((d, Item::Err(ErrorKind::ConnectionReset))),
        }
    }
    fn take(&mut self, b: &[u8], io: &mut PeerIo) {
        if self.failed || self.cut {
            return;
        }
        if self.plain_answer {
            // Something else than TLS listens here.
            self.plain_answer = false;
            self.failed = true;
            self.wire(b"ERROR :Closing link: this is not a TLS port\r\n".to_vec(), self.lat, io);
            io.out.push((self.lat, Item::Eof));
            return;
        }
        let Some(t) = &mut self.tls else {
            self.got.extend_from_slice(b);
            return;
        };
        let mut b = b;
        let mut bad = false;
        while !b.is_empty() {
            if t.read_tls(&mut b).is_err() {
                break;
            }
            match t.process_new_packets() {
                Ok(s) => self.closed |= s.peer_has_closed(),
                Err(_) => {
                    bad = true;
                    break;
                }
            }
            let _ = t.reader().read_to_end(&mut self.got);
        }
        if bad {
            self.failed = true;
            self.out(self.lat, io);
            io.out.push((self.lat, Item::Eof));
            return;
        }
        let up = !self.tls.as_ref().unwrap().is_handshaking();
        self.out(self.lat, io);
        if up && !self.started {
            let t = self.tls.as_ref().unwrap();
            self.started = true;
            self.sni = t.server_name().map(|s| s.to_string());
            self.peer = t.peer_certificates().map(|c| c.iter().map(|c| c.clone().into_owned()).collect()).unwrap_or_default();
            self.talk(io);
        }
    }
}

struct Round {
    uses_tls: bool,
    far: Rc<RefCell<Far>>,
    net: Net,
    host: String,
    lines: Vec<Vec<u8>>,
    end: End,
    odd: Odd,
}

fn run() -> Res {
    static INIT: std::sync::Once = std::sync::Once::new();
    INIT.call_once(|| {
        let _ = rustls::crypto::ring::default_provider().install_default();
    });
    sock::set_sock(true);
    sock::dns_clear();
    let tokio_mode = coin();
    let r = block_on(tokio_mode, scenario(tokio_mode));
    if let Some(m) = sock::misused() {
        if r.is_ok() {
            bail!("sockets", "{m}");
        }
    }
    r?;
    ensure!(sock::open_socks() == 0, "leak", "{} sockets were never closed", sock::open_socks());
    Ok(())
}

fn client_files() -> Option<&'static str> {
    match below(8) {
        0..=3 => None,
        4 => Some("client1"),
        5 => Some("client2"),
        6 => Some("chain"),
        _ => Some(*pick(&["nokey", "absent"])),
    }
}

async fn scenario(tokio_mode: bool) -> Res {
    // Configuration of the client's side.
    let tls = chance(3, 4);
    let no_tls_call = chance(1, 8);
    let uses_tls = tls && !no_tls_call;
    let skew = if chance(1, 5) { *pick(&[Y2030, Y2045 - 10, Y2045 + 10, Y2022 - 1000]) - crate::clock::REAL0 as i64 } else { 0 };
    if skew != 0 {
        fault("clock_jump");
    }
    crate::clock::set_skew(skew);
    let sys_ok = !chance(1, 8);
    std::env::remove_var("SSL_CERT_DIR");
    std::env::set_var("SSL_CERT_FILE", format!("{DIR}/{}.pem", if sys_ok { "ca-sys" } else { "absent" }));
    let mut files: Vec<&'static str> = Vec::new();
    for f in ["ca-a", "ca-b", "both", "empty"] {
        if chance(1, 3) {
            files.push(f);
        }
    }
    if chance(3, 4) && files.is_empty() {
        files.push("ca-a");
    }
    if chance(1, 12) {
        let i = below(files.len() as u64 + 1) as usize;
        files.insert(i, *pick(&["damaged", "absent"]));
    }
    shuffle(&mut files);
    let paths: Vec<PathBuf> = files.iter().map(|f| PathBuf::from(format!("{DIR}/{f}.pem"))).collect();
    let which = below(6);
    let trust = match which {
        0..=2 => Trust::Only(paths),
        3 => Trust::Default,
        4 => Trust::Also(paths),
        _ => Trust::NoVerify,
    };
    let reads_sys = which == 3 || which == 4;
    let reads_files = which != 3 && which != 5;
    let client_cert = client_files();
    let opts = TlsConfigOptions { trust, cert: client_cert.map(|f| PathBuf::from(format!("{DIR}/{f}.pem"))) };
    let builds = !(reads_sys && !sys_ok
        || reads_files && files.iter().any(|f| ["damaged", "absent"].contains(f))
        || client_cert.is_some_and(|f| ["nokey", "absent"].contains(&f)));
    let trusted = |ca: &str| {
        which == 5
            || reads_sys && ca == "sys"
            || reads_files && (files.iter().any(|f| *f == format!("ca-{ca}")) || files.contains(&"both") && (ca == "a" || ca == "b"))
    };
    let port = coin().then(|| *pick(&[6667u16, 6697, 7000, 1, 65535, 443]));
    let port_num = port.unwrap_or(if tls { 6697 } else { 6667 });
    let rto = coin().then(|| Duration::from_secs(range(1, 4)));
    let wto = coin().then(|| Duration::from_secs(range(1, 4)));
    let spec = AnySpec(coin());
    let late = swarm();
    let mut config: Option<TlsConfig> = None;
    let mut kept: Option<Cl> = None;
    let rounds = 1 + chance(1, 4) as u64;
    for round in 0..rounds {
        let host_bytes: Vec<u8> = match below(if chance(1, 3) { 14 } else { 10 }) {
            0..=3 => b"irc.example.net".to_vec(),
            4 => b"host.wild.example.net".to_vec(),
            5 => b"other.example.net".to_vec(),
            6 | 7 => pick(&["192.0.2.1", "192.0.2.3"]).as_bytes().to_vec(),
            8 | 9 => pick(&["2001:db8::1", "2001:db8::2"]).as_bytes().to_vec(),
            10 => b"192.0.2.9".to_vec(),
            11 => b"unknown.example.net".to_vec(),
            12 => b"irc.ex\xc3\xa4mple.net".to_vec(),
            _ => b"irc.ex\xffample.net".to_vec(),
        };
        let host = String::from_utf8(host_bytes.clone()).ok();
        let ips: Vec<IpAddr> = match &host {
            None => Vec::new(),
            Some(h) => match h.parse::<IpAddr>() {
                Ok(ip) => vec![ip],
                Err(_) if h.starts_with("unknown") => {
                    sock::dns_set(h, Err(*pick(&[libc::EAI_NONAME, libc::EAI_AGAIN])));
                    Vec::new()
                }
                Err(_) => {
                    let mut v: Vec<IpAddr> =
                        ["192.0.2.1", "2001:db8::1", "192.0.2.2"].iter().map(|s| s.parse().unwrap()).collect();
                    shuffle(&mut v);
                    v.truncate(range(1, 3) as usize);
                    sock::dns_set(h, Ok(v.clone()));
                    v
                }
            },
        };
        // The far end.
        let mut f = Faults::any();
        f.would_block = true;
        f.buffered = false;
        // rustls hands interrupted writes to the caller and waits anew after interrupted reads.
        if uses_tls {
            f.eintr = 0;
        }
        let net = Net::new(f);
        let mut cert = pick(CERTS);
        if chance(2, 3) {
            let fits: Vec<&Cert> = CERTS.iter().filter(|c| trusted(c.ca) && c.names && c.usage && c.to > Y2023).collect();
            if !fits.is_empty() {
                cert = fits[below(fits.len() as u64) as usize];
            }
        }
        let (v12, v13) = *pick(&[(true, true), (false, true), (true, false)]);
        let mut odd = Odd::None;
        if uses_tls && chance(1, 4) {
            odd = match below(6) {
                0 => Odd::NotHeld,
                1 => Odd::Legacy,
                2 => Odd::Plain,
                3 => Odd::Cut(*pick(&[0usize, 5, 60, 127, 400]), coin()),
                _ => Odd::Damage(below(700) as usize),
            };
        }
        let cert = if odd == Odd::Legacy { &CERTS[2] } else { cert };
        let (v12, v13) = if odd == Odd::Legacy { (false, true) } else { (v12, v13) };
        let end = *pick(&[End::Silence, End::Clean, End::Bare, End::Reset]);
        let gap_rate = swarm();
        let mut lines: Vec<Vec<u8>> = Vec::new();
        let mut script = Vec::new();
        for i in 0..below(6) {
            let len = *pick(&[1usize, 20, 400, 4000]);
            let l = format!(":far.example.net NOTICE * :line{round}.{i} {}\r\n", "x".repeat(len)).into_bytes();
            lines.push(l.clone());
            let gap = if permille(gap_rate) { range(1, 6000) * MS } else { below(3) * MS };
            // A line may come in two parts.
            if chance(1, 4) {
                let cut = range(1, l.len() as u64 - 1) as usize;
                script.push((gap, l[..cut].to_vec()));
                script.push((if permille(gap_rate) { range(1, 3000) * MS } else { 0 }, l[cut..].to_vec()));
            } else {
                script.push((gap, l));
            }
        }
        let far = Rc::new(RefCell::new(Far {
            tls: (uses_tls && odd != Odd::Plain)
                .then(|| rustls::ServerConnection::new(server_config(cert, v12, v13, odd)).unwrap()),
            plain_answer: odd == Odd::Plain,
            got: Vec::new(),
            script,
            end,
            started: false,
            failed: false,
            closed: false,
            sent: 0,
            odd,
            cut: false,
            lat: below(200) * MS,
            sni: None,
            peer: Vec::new(),
            ticks: 0,
        }));
        {
            let far = far.clone();
            net.with(|n| n.raw_peer = Some(Box::new(move |b, io| far.borrow_mut().take(b, io))));
        }
        // Who listens where: decoys on the other ports.
        let mut accepts = false;
        for ip in &ips {
            for p in [6667u16, 6697, 7000, 443, 1, 65535] {
                if p != port_num {
                    let decoy = Net::new(Faults::none());
                    decoy.push_at(0, Item::Eof);
                    sock::listen(SocketAddr::new(*ip, p), vec![Listen::Accept(0, decoy)]);
                }
            }
            let delay = if coin() { 0 } else { below(3000) * MS };
            let a = SocketAddr::new(*ip, port_num);
            if chance(1, 4) {
                let e = *pick(&[libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ETIMEDOUT, libc::ENETUNREACH]);
                sock::listen(a, vec![Listen::Refuse(delay, e)]);
            } else {
                accepts = true;
                sock::listen(a, vec![Listen::Accept(delay, net.clone())]);
            }
        }
        ev!(
            "round {round}: {} tls={tls} port={port:?} call={} cert={} odd={odd:?} v12={v12} v13={v13} {opts:?}",
            show(&host_bytes),
            if no_tls_call { "no_tls" } else { "connect" },
            cert.file
        );
        // Connect.
        let mut addr = ServerAddr { address: Word::from_bytes(host_bytes.clone()).unwrap(), tls, port };
        if coin() {
            // The same address, made another way.
            let mut a = match (coin(), std::str::from_utf8(&host_bytes)) {
                (true, Ok(h)) => ServerAddr::from_host_str(h),
                _ => ServerAddr::from_host(host_bytes.clone()).unwrap(),
            };
            if !tls {
                a.tls = false;
            }
            a.port = if coin() { port } else { Some(port_num) };
            let same = a == addr;
            checked(1);
            ensure!(same, "address", "{a:?} and {addr:?} name the same server but are not equal");
            ensure!(a.port_num() == port_num, "address", "the port of {a:?} is {}", a.port_num());
            a.port = Some(port_num ^ 1);
            ensure!(a != addr, "address", "{a:?} and {addr:?} are equal");
            a.port = Some(port_num);
            addr = a;
        }
        let before = sock::attempts().len();
        let mut asked = 0;
        let mut built = None;
        let tls_fn = || -> std::io::Result<TlsConfig> {
            asked += 1;
            if let Some(c) = &config {
                return Ok(c.clone());
            }
            let r = opts.build();
            built = Some(r.is_ok());
            if let Ok(c) = &r {
                config = Some(c.clone());
            }
            r
        };
        set_late(0);
        let named = host.as_ref().is_some_and(|h| h.parse::<IpAddr>().is_err());
        sock::resolving(tokio_mode && named);
        let mut s: Option<SS> = None;
        let mut t: Option<TS> = None;
        // Some give up waiting.
        let patience = (tokio_mode && chance(1, 10)).then(|| Duration::from_millis(range(0, 3000)));
        let res: std::io::Result<()> = match (tokio_mode, no_tls_call) {
            (false, true) => addr.connect_no_tls().map(|x| s = Some(x)),
            (false, false) => addr.connect(tls_fn).map(|x| s = Some(x)),
            (true, _) => {
                let f = async {
                    if no_tls_call {
                        addr.connect_tokio_no_tls().await
                    } else {
                        addr.connect_tokio(tls_fn).await
                    }
                };
                match patience {
                    None => f.await.map(|x| t = Some(x)),
                    Some(d) => match tokio::time::timeout(d, f).await {
                        Ok(r) => r.map(|x| t = Some(x)),
                        Err(_) => {
                            fault("connect_cancelled");
                            sock::resolving(false);
                            checked(1);
                            ensure!(sock::open_socks() == kept.is_some() as usize, "leak", "an abandoned attempt left its socket open");
                            return Ok(());
                        }
                    },
                }
            }
        };
        sock::resolving(false);
        ev!("connect -> {:?}", res.as_ref().map_err(|e| e.kind()));
        // What should have happened.
        checked(1);
        let tried = sock::attempts().split_off(before);
        for a in &tried {
            ensure!(
                ips.contains(&a.ip()) && a.port() == port_num,
                "wrong_place",
                "asked for {} port {port_num} ({ips:?}), connected to {a}",
                show(&host_bytes)
            );
        }
        ensure!(asked <= uses_tls as u32, "tls_fn", "the TLS configuration was asked for {asked} times; TLS: {uses_tls}");
        if let Some(b) = built {
            checked(1);
            ensure!(
                b == builds,
                "build",
                "building a configuration of {opts:?} (system store {}) {}",
                if sys_ok { "present" } else { "absent" },
                if b { "succeeded" } else { "failed" }
            );
        }
        let wall = crate::clock::REAL0 as i64 + skew + (now() / SEC) as i64;
        let near = |t: i64| (wall - t).abs() < 8;
        let name_ok = |h: &str| which == 5 || cert.names && NAMES.contains(&h);
        let cert_ok = |h: &str| {
            which == 5 || trusted(cert.ca) && name_ok(h) && cert.usage && cert.from <= wall && wall <= cert.to
        };
        let h = host.clone().unwrap_or_default();
        let ascii = h.is_ascii();
        let tls_ok = !uses_tls || builds && ascii && cert_ok(&h) && odd == Odd::None;
        let expect = host.is_some() && accepts && tls_ok;
        if host.is_none() {
            ensure!(tried.is_empty(), "wrong_place", "a name that is not text was connected to");
        }
        // Damage and cuts may come after the handshake; a byte may be changed without effect there.
        let unsure = matches!(odd, Odd::Damage(_) | Odd::Cut(..)) && builds && ascii && cert_ok(&h) && accepts
            || uses_tls && which != 5 && (near(cert.from) || near(cert.to));
        let ok = res.is_ok();
        let up = far.borrow().started;
        if uses_tls && !expect && !unsure {
            ensure!(
                !ok,
                "trusted",
                "connected to {h} presenting {} (server: {odd:?}, clock {wall}) although {opts:?} does not allow it",
                cert.file
            );
        }
        if !unsure {
            ensure!(
                ok == expect,
                if expect { "refused" } else { "connected" },
                "connecting to {} port {port:?} tls {tls} gave {:?}, {} expected (certificate {}, {odd:?}, {opts:?}, accepting {accepts})",
                show(&host_bytes),
                res.as_ref().map_err(|e| e.to_string()),
                if expect { "success" } else { "failure" },
                cert.file
            );
        }
        let wire = net.sent();
        if uses_tls && !wire.is_empty() {
            ensure!(wire[0] == 22, "not_tls", "the first byte sent on a TLS connection is {}", wire[0]);
        }
        if !ok {
            probe("not_connected");
            drop((s, t));
            ensure!(
                sock::open_socks() == kept.is_some() as usize,
                "leak",
                "a failed connection attempt left its socket open"
            );
            continue;
        }
        probe(if uses_tls { "tls_connected" } else { "connected" });
        if uses_tls && up {
            checked(1);
            let far = far.borrow();
            let want = named.then(|| h.clone());
            ensure!(far.sni == want, "sni", "connecting to {h}, the name given to the server was {:?}", far.sni);
            let want = client_cert.map(|f| pem(f).0).unwrap_or_default();
            ensure!(far.peer == want, "client_cert", "client certificate {client_cert:?}: the server got {} certificates", far.peer.len());
            if client_cert.is_some() {
                probe("client_cert");
            }
        }
        if !uses_tls {
            far.borrow_mut().started = true;
            let mut io = PeerIo { out: Vec::new(), now: now() };
            far.borrow_mut().talk(&mut io);
            let t = now();
            for (d, item) in io.out {
                net.push_at(t + d, item);
            }
        }
        set_late(late);
        // The limits of the stream itself.
        if let Some(s) = &s {
            if chance(1, 3) {
                let (a, b) = (coin().then(|| Duration::from_millis(range(1, 9999))), coin().then(|| Duration::from_millis(range(1, 9999))));
                let st = s.get_ref();
                checked(1);
                st.set_read_timeout(a).map_err(|e| crate::viol!("limit", "setting the read limit failed: {e}"))?;
                st.set_write_timeout(b).map_err(|e| crate::viol!("limit", "setting the write limit failed: {e}"))?;
                ensure!(sock::limits() == Some((a, b)), "limit", "limits {a:?} and {b:?} were set as {:?}", sock::limits());
                let back = (st.read_timeout().ok().flatten(), st.write_timeout().ok().flatten());
                ensure!(back == (a, b), "limit", "limits {a:?} and {b:?} are reported as {back:?}");
                ensure!(st.set_read_timeout(Some(Duration::ZERO)).is_err(), "limit", "a read limit of zero was accepted");
                st.set_read_timeout(None).unwrap();
                st.set_write_timeout(None).unwrap();
            }
        }
        let r = Round { uses_tls, far: far.clone(), net: net.clone(), host: h, lines, end, odd };
        let fresh = kept.is_none();
        let mut cl = match (kept.take(), s, t) {
            (None, Some(s), _) => Cl::SSock(Client::new_with_logic(s, spec, ClientLogic::new())),
            (None, _, Some(t)) => Cl::TSock(Client::new_with_logic(t, spec, ClientLogic::new())),
            (Some(Cl::SSock(mut c)), Some(s), _) => {
                drop(c.reset_with_conn(s));
                Cl::SSock(c)
            }
            (Some(Cl::TSock(mut c)), _, Some(t)) => {
                drop(c.reset_with_conn(t));
                Cl::TSock(c)
            }
            _ => unreachable!(),
        };
        if fresh {
            cl.set_read_timeout(rto);
            cl.set_write_timeout(wto);
        }
        talk(&r, &mut cl, rto, wto, round).await?;
        if round + 1 < rounds {
            kept = Some(cl);
            continue;
        }
        close(&r, cl).await?;
    }
    drop(kept);
    Ok(())
}

fn push_lines(cl: &mut Cl, pushed: &mut Vec<u8>, round: u64, n: u64) -> Res {
    for i in 0..n {
        let text = format!("PRIVMSG #chan :confidential{round}.{i} {}", "y".repeat(*pick(&[0usize, 30, 450])));
        pushed.extend_from_slice(text.as_bytes());
        pushed.extend_from_slice(b"\r\n");
        cl.queue().edit().push(ClientMsg::parse(text.into_bytes()).map_err(|_| crate::viol!("harness", "unparsable"))?);
    }
    Ok(())
}

/// Lines in both directions over an established connection.
async fn talk(r: &Round, cl: &mut Cl, rto: Option<Duration>, wto: Option<Duration>, round: u64) -> Res {
    let seen: Rc<RefCell<Vec<Vec<u8>>>> = Default::default();
    let rec = seen.clone();
    let wire0 = r.net.with(|n| n.tx.len());
    let got0 = r.far.borrow().got.len();
    let mut pushed: Vec<u8> = Vec::new();
    let mut ended = None;
    // Without handlers, running the client only sends.
    if chance(1, 3) {
        push_lines(cl, &mut pushed, round, range(1, 2))?;
        match cl.run(&r.net, None).await {
            Ran::Err(e) => ended = Some(e),
            Ran::Done(..) => {
                let far = r.far.borrow();
                checked(1);
                ensure!(
                    far.cut || far.got.len() - got0 == pushed.len(),
                    "unsent",
                    "running the client without handlers succeeded with {} of {} bytes having reached the server",
                    far.got.len() - got0,
                    pushed.len()
                );
                probe("sent_without_handlers");
            }
            _ => bail!("hangs", "sending without handlers never ended"),
        }
    }
    let _rx = cl.add(
        (),
        FnH::<u8>::new(move |m, _, _, s| {
            let mut b = Vec::new();
            let _ = m.write_to(&mut b);
            b.extend_from_slice(b"\r\n");
            rec.borrow_mut().push(b);
            let _ = s.send(1);
            ControlFlow::Continue(())
        }),
    )
    .unwrap();
    if ended.is_none() {
        push_lines(cl, &mut pushed, round, range(1, 3))?;
    }
    // The far end may stop reading for a while.
    let mut stall = None;
    if chance(1, 4) {
        let len = *pick(&[500 * MS, 2500 * MS, 10 * SEC]);
        let from = now();
        r.net.with(|n| n.stalls.push((from, from + len)));
        stall = Some(len);
    }
    let fails_write = chance(1, 12);
    if fails_write {
        let at = wire0 + below(300) as usize;
        r.net.with(|n| n.fail_write_at = Some((at, ErrorKind::ConnectionReset)));
    }
    let slack = 3 * MS;
    let mut quiet = 0;
    for turn in 0..60 {
        if ended.is_some() {
            break;
        }
        step();
        // Session tickets come right after the handshake; rustls waits anew for what follows.
        let tickets = if turn == 0 && r.uses_tls && !cl.is_tokio() { r.far.borrow().lat } else { 0 };
        let before = seen.borrow().len();
        let start = now();
        let late0 = late_total();
        let next_due = r.net.with(|n| n.rx_next());
        let w = cl.run(&r.net, None).await;
        let took = now() - start;
        let lateness = late_total() - late0;
        let first = stall.take();
        checked(1);
        if cl.is_tokio() {
            // Limits are the client's own.
        } else if !matches!(w, Ran::Err(_)) {
            let l = sock::limits().map(|x| x.1);
            ensure!(l == Some(wto), "limit", "the write limit is {wto:?} but the socket's is {l:?}");
        }
        match w {
            Ran::Done(..) => {
                ensure!(seen.borrow().len() > before, "spurious", "running the client returned without a message");
                if let (Some(d), None) = (rto, first) {
                    let d = d.as_nanos() as u64;
                    ensure!(took <= d + tickets + lateness + slack, "too_patient", "a message was waited for {} ms with a read limit of {} ms", took / MS, d / MS);
                }
            }
            Ran::Timeout => {
                quiet += 1;
                let Some(d) = rto else { bail!("timeout", "a read timed out without a limit") };
                let d = d.as_nanos() as u64;
                let extra = first.unwrap_or(0) + tickets;
                ensure!(took + slack >= d, "hasty", "a read limit of {} ms was reported after {} ms", d / MS, took / MS);
                ensure!(took <= d + extra + lateness + slack, "too_patient", "a read limit of {} ms was reported after {} ms", d / MS, took / MS);
                probe("read_timeout");
                if quiet > 3 && r.net.with(|n| n.rx_empty()) {
                    break;
                }
            }
            Ran::Err(e) => {
                if let (Some(len), Some(d)) = (first, wto) {
                    let d = d.as_nanos() as u64;
                    if len > d && matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut) {
                        // TLS writes and then flushes; each may wait once.
                        let lim = d * if r.uses_tls { 2 } else { 1 } + lateness + slack;
                        ensure!(took + slack >= d, "hasty", "a write limit of {} ms was reported after {} ms", d / MS, took / MS);
                        ensure!(took <= lim, "too_patient", "a write limit of {} ms was reported after {} ms", d / MS, took / MS);
                        probe("write_timeout");
                    }
                }
                ended = Some(e);
                break;
            }
            Ran::Forever => {
                let waits = r.net.with(|n| n.rx_empty());
                ensure!(waits && rto.is_none(), "hangs", "the client waits forever although there is more to read (next at {next_due:?})");
                break;
            }
            Ran::Cancelled => unreachable!(),
        }
    }
    r.net.with(|n| {
        n.stalls.clear();
        n.fail_write_at = None;
    });
    // What arrived here.
    let seen = seen.borrow();
    checked(1);
    ensure!(
        seen.len() <= r.lines.len() && seen[..] == r.lines[..seen.len()],
        "received",
        "the server sent {:?}, the client got {:?}",
        r.lines.iter().map(|l| show(l)).collect::<Vec<_>>(),
        seen.iter().map(|l| show(l)).collect::<Vec<_>>()
    );
    // What arrived there.
    let far = r.far.borrow();
    let got = &far.got[got0..];
    ensure!(
        got.len() <= pushed.len() && *got == pushed[..got.len()],
        "sent",
        "the client sent {}, the server got {}",
        show(&pushed),
        show(got)
    );
    let wire = r.net.sent();
    if r.uses_tls {
        ensure!(
            !wire.windows(12).any(|w| w == b"confidential"),
            "plaintext",
            "a line crossed the wire of a TLS connection to {} unencrypted",
            r.host
        );
    } else {
        ensure!(wire[wire0..] == pushed[..wire.len() - wire0], "wire", "bytes other than the lines were sent: {}", show(&wire[wire0..]));
    }
    let disturbed = matches!(r.odd, Odd::Damage(_) | Odd::Cut(..)) || fails_write;
    match &ended {
        None => {
            ensure!(got.len() == pushed.len() || far.cut, "unsent", "only {} of {} bytes reached the server", got.len(), pushed.len());
            if !disturbed {
                ensure!(r.end == End::Silence, "end", "the server ended the connection, which went unnoticed");
            }
            ensure!(disturbed || seen.len() == r.lines.len(), "lost", "{} of {} lines arrived", seen.len(), r.lines.len());
        }
        Some(e) => {
            let timed = matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut);
            if timed {
                ensure!(wto.is_some(), "timeout", "a write timed out without a limit: {e}");
            } else if !disturbed {
                ensure!(r.end != End::Silence, "error", "nothing went wrong but the client reports {e}");
                ensure!(seen.len() == r.lines.len(), "lost", "{} of {} lines arrived before {e}", seen.len(), r.lines.len());
                let k = if r.end == End::Reset { ErrorKind::ConnectionReset } else { ErrorKind::UnexpectedEof };
                ensure!(e.kind() == k, "error", "the connection ended by {:?} and the client reports {:?} ({e})", r.end, e.kind());
                probe("end_noticed");
            }
        }
    }
    Ok(())
}

/// Shutting the connection down.
async fn close(r: &Round, cl: Cl) -> Res {
    set_late(0);
    match cl {
        Cl::SSock(c) => {
            let s = c.take_conn();
            if coin() {
                let how = *pick(&[std::net::Shutdown::Read, std::net::Shutdown::Write, std::net::Shutdown::Both]);
                let res = s.get_ref().shutdown(how);
                checked(1);
                let want = (how != std::net::Shutdown::Write, how != std::net::Shutdown::Read);
                ensure!(res.is_ok() && sock::shut() == Some(want), "shutdown", "shutting down {how:?} gave {res:?} and {:?}", sock::shut());
                probe("shutdown");
            }
        }
        Cl::TSock(c) => {
            let mut s = c.take_conn();
            if coin() {
                use tokio::io::AsyncWriteExt;
                let broken = r.net.with(|n| n.broken.is_some());
                let res = s.shutdown().await;
                if !broken && res.is_ok() {
                    checked(1);
                    ensure!(sock::shut().is_some_and(|x| x.1), "shutdown", "shutting down gave {res:?} and {:?}", sock::shut());
                    let far = r.far.borrow();
                    if r.uses_tls && !far.failed && !far.cut {
                        ensure!(far.closed, "shutdown", "a TLS connection was shut down without telling the server");
                    }
                    probe("shutdown");
                }
            }
        }
        _ => unreachable!(),
    }
    Ok(())
}
