//! A uniform handle on the client under test over every connection type.
use crate::core::*;
use crate::ev;
use crate::net::*;
use std::future::Future;
use std::io;
use std::ops::ControlFlow;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use vinezombie::client::channel::{oneshot, parker, ChannelSpec, Sender, SyncChannels, TokioChannels};
use vinezombie::client::conn::Bidir;
use vinezombie::client::queue::Queue;
use vinezombie::client::{Client, ClientLogic, ClientState, MakeHandler};

/// Either of the library's two channel families.
#[derive(Clone, Copy)]
pub struct AnySpec(pub bool);
pub enum RxQ<T> {
    S(std::sync::mpsc::Receiver<T>),
    T(tokio::sync::mpsc::UnboundedReceiver<T>),
}
pub enum RxO<T> {
    S(Option<oneshot::Receiver<T>>, parker::Parker),
    T(tokio::sync::oneshot::Receiver<T>),
}
#[derive(PartialEq, Debug, Clone)]
pub enum Got<T> {
    Val(T),
    Empty,
    Closed,
}
impl<T> RxQ<T> {
    pub fn get(&mut self) -> Got<T> {
        match self {
            RxQ::S(r) => match r.try_recv() {
                Ok(v) => Got::Val(v),
                Err(std::sync::mpsc::TryRecvError::Empty) => Got::Empty,
                Err(_) => Got::Closed,
            },
            RxQ::T(r) => match r.try_recv() {
                Ok(v) => Got::Val(v),
                Err(tokio::sync::mpsc::error::TryRecvError::Empty) => Got::Empty,
                Err(_) => Got::Closed,
            },
        }
    }
}
impl<T> RxO<T> {
    pub fn get(&mut self) -> Got<T> {
        match self {
            RxO::S(r, _) => match r.take() {
                Some(x) if x.is_empty() => {
                    *r = Some(x);
                    Got::Empty
                }
                Some(x) => x.recv_now().map_or(Got::Closed, Got::Val),
                None => Got::Closed,
            },
            RxO::T(r) => match r.try_recv() {
                Ok(v) => Got::Val(v),
                Err(tokio::sync::oneshot::error::TryRecvError::Empty) => Got::Empty,
                Err(_) => Got::Closed,
            },
        }
    }
}
impl<T> RxO<T> {
    /// Blocking receive; only call once the sender is known to be gone or to have sent.
    pub fn wait(self) -> Option<T> {
        match self {
            RxO::S(r, p) => r.and_then(|r| r.recv(&p)),
            RxO::T(mut r) => r.try_recv().ok(),
        }
    }
}
impl ChannelSpec for AnySpec {
    type Oneshot<T> = RxO<T>;
    type Queue<T> = RxQ<T>;
    fn new_oneshot<T: 'static + Send>(&self) -> (Box<dyn Sender<Value = T> + Send>, RxO<T>) {
        if self.0 {
            let (s, r) = TokioChannels.new_oneshot();
            (s, RxO::T(r))
        } else {
            let (s, (r, p)) = SyncChannels.new_oneshot();
            (s, RxO::S(Some(r), p))
        }
    }
    fn new_queue<T: 'static + Send>(&self) -> (Box<dyn Sender<Value = T> + Send>, RxQ<T>) {
        if self.0 {
            let (s, r) = TokioChannels.new_queue();
            (s, RxQ::T(r))
        } else {
            let (s, r) = SyncChannels.new_queue();
            (s, RxQ::S(r))
        }
    }
}

type SB = std::io::BufReader<SimConn>;
type TB = tokio::io::BufReader<TokConn>;
pub type SS = std::io::BufReader<vinezombie::client::conn::Stream>;
pub type TS = tokio::io::BufReader<vinezombie::client::conn::StreamTokio>;

pub enum Cl {
    SBuf(Client<SB, AnySpec>),
    SBi(Client<Bidir<SB, SimConn>, AnySpec>),
    TBuf(Client<TB, AnySpec>),
    TBi(Client<Bidir<TB, TokConn>, AnySpec>),
    /// The library's own streams, over simulated sockets.
    SSock(Client<SS, AnySpec>),
    TSock(Client<TS, AnySpec>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Kind {
    pub tokio: bool,
    pub bidir: bool,
    pub cap: usize,
    pub tokio_chan: bool,
    /// Over one of the library's own TCP streams; see `Cl::dial`.
    pub sock: bool,
    /// Which of the equivalent ways of making the client is taken.
    pub way: u8,
}
thread_local! {
    static DIALED: std::cell::RefCell<(Option<SS>, Option<TS>)> = const { std::cell::RefCell::new((None, None)) };
}
impl Kind {
    /// As `any`, but sometimes over simulated sockets: every use of a `Net` must be dialed first.
    pub fn any_sock() -> Kind {
        let mut k = Kind::any();
        if chance(1, 4) {
            k.sock = true;
            k.bidir = false;
            crate::sock::set_sock(true);
            probe("own_stream");
        }
        k
    }
    pub fn any() -> Kind {
        let tokio = coin();
        let bidir = coin();
        let cap = *pick(&[16384usize, 64, 1, 7, 600]);
        let tokio_chan = coin();
        Kind { tokio, bidir, cap, tokio_chan, sock: false, way: below(4) as u8 }
    }
}

#[macro_export]
macro_rules! each {
    ($self:expr, $c:ident => $e:expr) => {
        match $self {
            $crate::cl::Cl::SBuf($c) => $e,
            $crate::cl::Cl::SBi($c) => $e,
            $crate::cl::Cl::TBuf($c) => $e,
            $crate::cl::Cl::TBi($c) => $e,
            $crate::cl::Cl::SSock($c) => $e,
            $crate::cl::Cl::TSock($c) => $e,
        }
    };
}

/// What running the client returned.
#[derive(Debug)]
pub enum Ran {
    /// (yielded, finished)
    Done(Vec<usize>, Vec<usize>),
    Timeout,
    Err(io::Error),
    /// The harness cancelled the future.
    Cancelled,
    /// Nothing can ever wake the client again.
    Forever,
}

thread_local! {
    /// Handlers are added in each of the equivalent ways in turn.
    static WAY: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    static MIDWRITE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Lets cancellations hit a run in the middle of a write. What it was about to report is lost then.
pub fn set_midwrite(v: bool) {
    MIDWRITE.with(|c| c.set(v))
}

pub const FOREVER: Duration = Duration::from_secs(10_000_000);

impl Cl {
    fn sb(net: &Net, k: Kind) -> SB {
        std::io::BufReader::with_capacity(k.cap, SimConn(net.clone()))
    }
    fn tb(net: &Net, k: Kind) -> TB {
        tokio::io::BufReader::with_capacity(k.cap, TokConn::new(net.clone()))
    }
    /// Connects to `net` through the library's own stream, if `k` says so. The
    /// stream is used by the next call that makes a connection of `net`.
    pub async fn dial(net: &Net, k: Kind) {
        if !k.sock {
            return;
        }
        use crate::sock::{listen, Listen};
        use vinezombie::client::conn::ServerAddr;
        net.with(|n| {
            n.f.would_block = true;
            n.f.buffered = false;
            n.stall_flush = false;
        });
        let port = range(1, 65535) as u16;
        let mut a = ServerAddr::from_host_str("192.0.2.77");
        a.tls = false;
        a.port = Some(port);
        listen(std::net::SocketAddr::new([192, 0, 2, 77].into(), port), vec![Listen::Accept(0, net.clone())]);
        let tls = || -> io::Result<vinezombie::client::tls::TlsConfig> { panic!("TLS configuration asked for") };
        let (mut s, mut t) = (None, None);
        match (k.tokio, coin()) {
            (false, false) => s = Some(a.connect_no_tls().expect("connect")),
            (false, true) => s = Some(a.connect(tls).expect("connect")),
            (true, false) => t = Some(a.connect_tokio_no_tls().await.expect("connect")),
            (true, true) => t = Some(a.connect_tokio(tls).await.expect("connect")),
        }
        DIALED.with(|d| *d.borrow_mut() = (s, t));
    }
    fn ss() -> SS {
        DIALED.with(|d| d.borrow_mut().0.take()).expect("not dialed")
    }
    fn ts() -> TS {
        DIALED.with(|d| d.borrow_mut().1.take()).expect("not dialed")
    }
    pub fn new(net: &Net, k: Kind, logic: ClientLogic) -> Cl {
        Cl::make(net, k, Some(logic))
    }
    /// Some of the ways of making a client lose nothing and add nothing.
    fn client<C>(conn: C, k: Kind, logic: Option<ClientLogic>) -> Client<C, AnySpec> {
        let spec = AnySpec(k.tokio_chan);
        match (logic, k.way) {
            (None, 0) => Client::new(conn, spec),
            #[allow(deprecated)]
            (None, 1) => Client::new_with_queue(conn, spec, Queue::new()),
            (None, 2) => Client::new(conn, AnySpec(!k.tokio_chan)).with_spec(spec),
            (l, 3) => Client::new_with_logic((), SyncChannels, l.unwrap_or_default()).with_conn(conn).with_spec(spec),
            (l, _) => Client::new_with_logic(conn, spec, l.unwrap_or_default()),
        }
    }
    fn make(net: &Net, k: Kind, logic: Option<ClientLogic>) -> Cl {
        if k.sock {
            return if k.tokio { Cl::TSock(Self::client(Self::ts(), k, logic)) } else { Cl::SSock(Self::client(Self::ss(), k, logic)) };
        }
        match (k.tokio, k.bidir) {
            (false, false) => Cl::SBuf(Self::client(Self::sb(net, k), k, logic)),
            (false, true) => Cl::SBi(Self::client(Bidir(Self::sb(net, k), SimConn(net.clone())), k, logic)),
            (true, false) => Cl::TBuf(Self::client(Self::tb(net, k), k, logic)),
            (true, true) => Cl::TBi(Self::client(Bidir(Self::tb(net, k), TokConn::new(net.clone())), k, logic)),
        }
    }
    pub fn fresh(net: &Net, k: Kind) -> Cl {
        Cl::make(net, k, None)
    }
    pub fn reset_with(&mut self, net: &Net, k: Kind) {
        match self {
            Cl::SBuf(c) => drop(c.reset_with_conn(Self::sb(net, k))),
            Cl::SBi(c) => drop(c.reset_with_conn(Bidir(Self::sb(net, k), SimConn(net.clone())))),
            Cl::TBuf(c) => drop(c.reset_with_conn(Self::tb(net, k))),
            Cl::TBi(c) => drop(c.reset_with_conn(Bidir(Self::tb(net, k), TokConn::new(net.clone())))),
            Cl::SSock(c) => drop(c.reset_with_conn(Self::ss())),
            Cl::TSock(c) => drop(c.reset_with_conn(Self::ts())),
        }
    }
    pub fn reset(&mut self) {
        each!(self, c => c.reset())
    }
    pub fn with_new_conn(self, net: &Net, k: Kind) -> Cl {
        macro_rules! on {
            ($c:expr, $conn:expr) => {
                match k.way {
                    0 => $c.with_spec(TokioChannels).with_conn($conn).with_spec(AnySpec(k.tokio_chan)),
                    _ => $c.with_conn($conn),
                }
            };
        }
        match self {
            Cl::SBuf(c) => Cl::SBuf(on!(c, Self::sb(net, k))),
            Cl::SBi(c) => Cl::SBi(on!(c, Bidir(Self::sb(net, k), SimConn(net.clone())))),
            Cl::TBuf(c) => Cl::TBuf(on!(c, Self::tb(net, k))),
            Cl::TBi(c) => Cl::TBi(on!(c, Bidir(Self::tb(net, k), TokConn::new(net.clone())))),
            Cl::SSock(c) => Cl::SSock(on!(c, Self::ss())),
            Cl::TSock(c) => Cl::TSock(on!(c, Self::ts())),
        }
    }
    pub fn is_tokio(&self) -> bool {
        matches!(self, Cl::TBuf(_) | Cl::TBi(_) | Cl::TSock(_))
    }
    pub fn queue(&mut self) -> &mut Queue {
        each!(self, c => c.queue_mut())
    }
    pub fn state(&self) -> &ClientState {
        each!(self, c => c.state())
    }
    pub fn state_mut(&mut self) -> &mut ClientState {
        each!(self, c => c.state_mut())
    }
    pub fn set_read_timeout(&mut self, t: Option<Duration>) {
        each!(self, c => { c.set_read_timeout(t); })
    }
    pub fn set_write_timeout(&mut self, t: Option<Duration>) {
        each!(self, c => { c.set_write_timeout(t); })
    }
    pub fn set_timeout_fn(&mut self, f: Option<impl FnMut(&mut ClientLogic) -> ControlFlow<()> + 'static + Send>) {
        each!(self, c => c.set_timeout_fn(f))
    }
    pub fn needs_run(&self) -> bool {
        each!(self, c => c.needs_run())
    }
    pub fn add<T, M: MakeHandler<T>>(&mut self, m: M, v: T) -> Result<(usize, M::Receiver<AnySpec>), M::Error> {
        each!(self, c => {
            match WAY.with(|w| w.replace((w.get() + 1) % 4)) {
                1 => c.add_with_spec(&AnySpec(true), m, v),
                3 => c.add_with_spec(&AnySpec(false), m, v),
                _ => c.add(m, v),
            }
        })
    }
    pub fn add_with_sender<T, M: MakeHandler<T>>(
        &mut self,
        s: Box<dyn Sender<Value = M::Value> + Send>,
        m: M,
        v: T,
    ) -> Result<usize, M::Error> {
        each!(self, c => c.add_with_sender(s, m, v))
    }
    /// Runs the client until it returns, can never return, or (async, when
    /// `cancel` is given) until the harness drops the future: after `cancel.0`
    /// polls or at `cancel.1`; while a write is in flight only if `set_midwrite` says so.
    pub async fn run(&mut self, net: &Net, cancel: Option<(u64, u64)>) -> Ran {
        let r = match self {
            Cl::SBuf(c) => conv(c.run()),
            Cl::SBi(c) => conv(c.run()),
            Cl::TBuf(c) => drive(c.run_tokio(), net, cancel).await,
            Cl::TBi(c) => drive(c.run_tokio(), net, cancel).await,
            Cl::SSock(c) => conv(c.run()),
            Cl::TSock(c) => drive(c.run_tokio(), net, cancel).await,
        };
        let r = if net.with(|n| n.blocked_forever) { Ran::Forever } else { r };
        match &r {
            Ran::Done(y, f) => ev!("run -> yielded {:?} finished {:?}", y, f),
            Ran::Timeout => ev!("run -> timeout"),
            Ran::Err(e) => ev!("run -> error {:?}", e.kind()),
            Ran::Cancelled => ev!("run -> cancelled"),
            Ran::Forever => ev!("run -> never returns"),
        }
        r
    }
    pub async fn flush(&mut self, net: &Net) -> io::Result<Option<Duration>> {
        let r = match self {
            Cl::SBuf(c) => c.flush_partial(),
            Cl::SBi(c) => c.flush_partial(),
            Cl::TBuf(c) => or_forever(c.flush_partial_tokio(), net).await,
            Cl::TBi(c) => or_forever(c.flush_partial_tokio(), net).await,
            Cl::SSock(c) => c.flush_partial(),
            Cl::TSock(c) => or_forever(c.flush_partial_tokio(), net).await,
        };
        ev!("flush_partial -> {:?}", r.as_ref().map_err(|e| e.kind()));
        r
    }
}

type RunRes<'a> = io::Result<Option<(&'a [usize], &'a [usize])>>;
fn conv(r: RunRes<'_>) -> Ran {
    match r {
        Ok(Some((y, f))) => Ran::Done(y.to_vec(), f.to_vec()),
        Ok(None) => Ran::Timeout,
        Err(e) => Ran::Err(e),
    }
}

async fn drive<'a>(f: impl Future<Output = RunRes<'a>>, net: &Net, cancel: Option<(u64, u64)>) -> Ran {
    let mut f = std::pin::pin!(f);
    let mut forever = std::pin::pin!(tokio::time::sleep(FOREVER));
    let mut timer: Option<Pin<Box<tokio::time::Sleep>>> =
        cancel.map(|(_, t)| Box::pin(tokio::time::sleep(Duration::from_nanos(t.saturating_sub(now())))));
    let mut polls = 0u64;
    let start = now();
    std::future::poll_fn(move |cx| {
        tsync();
        if let Poll::Ready(r) = f.as_mut().poll(cx) {
            return Poll::Ready(conv(r));
        }
        tsync();
        polls += 1;
        if forever.as_mut().poll(cx).is_ready() {
            tsync();
            idle(now() - start);
            return Poll::Ready(Ran::Forever);
        }
        if let Some((max_polls, _)) = cancel {
            let fired = match &mut timer {
                Some(t) => t.as_mut().poll(cx).is_ready(),
                None => true,
            };
            if fired {
                timer = None;
            }
            if (fired || polls >= max_polls) && (MIDWRITE.with(|c| c.get()) || !net.with(|n| n.write_pending)) {
                fault("cancelled_run");
                return Poll::Ready(Ran::Cancelled);
            }
        }
        Poll::Pending
    })
    .await
}

/// Bounds a future that may never finish.
async fn or_forever<T>(f: impl Future<Output = io::Result<T>>, net: &Net) -> io::Result<T> {
    let start = now();
    match tokio::time::timeout(FOREVER, f).await {
        Ok(r) => r,
        Err(_) => {
            tsync();
            idle(now() - start);
            net.with(|n| n.blocked_forever = true);
            ev!("flush never returns");
            Err(io::Error::new(io::ErrorKind::Other, "vzsim: blocked forever"))
        }
    }
}

/// Lets virtual time pass outside the client.
pub async fn pause(tokio_mode: bool, d: u64) {
    if tokio_mode {
        tokio::time::sleep(Duration::from_nanos(d)).await;
        tsync();
    } else {
        set_now(now() + d);
    }
}
