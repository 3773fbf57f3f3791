//! The simulated transport: one ordered byte stream in each direction between
//! the client under test and a scripted or reactive peer, with every delay,
//! split and fault drawn from the choice source. There is a blocking endpoint
//! (`SimConn`) and an asynchronous one (`TokConn`) over the same `Net`.
use crate::core::*;
use crate::ev;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::time::Duration;

#[derive(Clone, Debug)]
pub enum Item {
    Bytes(Vec<u8>),
    /// A pattern repeated: pattern, offset into it, repetitions left.
    Repeat(Vec<u8>, usize, usize),
    Eof,
    Err(ErrorKind),
}

/// How many bytes one call moves at most.
#[derive(Clone, Copy, Debug)]
pub enum Chunk {
    Whole,
    One,
    Small,
    Random,
}
impl Chunk {
    pub fn any() -> Chunk {
        *pick(&[Chunk::Whole, Chunk::One, Chunk::Small, Chunk::Random])
    }
    fn limit(self, avail: usize) -> usize {
        match self {
            Chunk::Whole => avail,
            Chunk::One => 1,
            Chunk::Small => range(1, 7) as usize,
            Chunk::Random => range(1, avail.max(1) as u64) as usize,
        }
        .clamp(1, avail.max(1))
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Faults {
    pub rchunk: Chunk,
    pub wchunk: Chunk,
    /// Interrupted system calls / spurious wake-ups, per mille.
    pub eintr: u64,
    /// Spurious Pending results (async only), per mille.
    pub spurious: u64,
    /// Bytes reach the peer only when the client flushes.
    pub buffered: bool,
    /// Timeouts are reported as WouldBlock (true) or TimedOut (false), as platforms do.
    pub would_block: bool,
}
impl Faults {
    pub fn none() -> Faults {
        Faults {
            rchunk: Chunk::Whole,
            wchunk: Chunk::Whole,
            eintr: 0,
            spurious: 0,
            buffered: false,
            would_block: true,
        }
    }
    pub fn any() -> Faults {
        Faults {
            rchunk: Chunk::any(),
            wchunk: Chunk::any(),
            eintr: swarm(),
            spurious: swarm(),
            buffered: coin(),
            would_block: !coin(),
        }
    }
}

pub struct PeerIo {
    pub out: Vec<(u64, Item)>,
    pub now: u64,
}
impl PeerIo {
    pub fn send(&mut self, delay: u64, line: impl AsRef<[u8]>) {
        self.out.push((delay, Item::Bytes(line.as_ref().to_vec())));
    }
}
pub type Peer = Box<dyn FnMut(&[u8], &mut PeerIo)>;

pub struct NetI {
    pub f: Faults,
    rx: VecDeque<(u64, Item)>,
    rx_last: u64,
    /// Bytes the transport accepted, in order.
    pub tx: Vec<u8>,
    /// (time, end offset) per accepted write.
    pub tx_marks: Vec<(u64, usize)>,
    /// How much of `tx` the peer has seen.
    pub delivered: usize,
    line_start: usize,
    /// Complete lines seen by the peer, with arrival time.
    pub lines: Vec<(u64, Vec<u8>)>,
    pub peer: Option<Peer>,
    /// Takes the accepted bytes as they come instead of `peer`.
    pub raw_peer: Option<Peer>,
    pub rto: Option<Duration>,
    pub wto: Option<Duration>,
    /// Windows during which the transport accepts no bytes (u64::MAX = forever).
    pub stalls: Vec<(u64, u64)>,
    /// Flushing also blocks during stalls.
    pub stall_flush: bool,
    /// Fail writes once this many bytes were accepted.
    pub fail_write_at: Option<(usize, ErrorKind)>,
    pub fail_flush: Option<(usize, ErrorKind)>,
    pub broken: Option<ErrorKind>,
    /// The client waited on something that can never happen.
    pub blocked_forever: bool,
    /// A write or flush is in progress (async): cancelling here may lose data by contract.
    pub write_pending: bool,
    pub flushes: u64,
    pub reads: u64,
    pub consumed: u64,
    pub errs: Vec<ErrorKind>,
    pub sorted: bool,
    pub set_rto_calls: u64,
    pub rto_log: Vec<(u64, Option<Duration>)>,
    pub eof_seen: bool,
    /// Since when a write or flush has been blocked without progress.
    pub blocked_since: Option<u64>,
    /// Completed blocked periods.
    pub blocked: Vec<(u64, u64)>,
}

#[derive(Clone)]
pub struct Net(pub Rc<RefCell<NetI>>);

thread_local! {
    static LATE: Cell<u64> = const { Cell::new(0) };
    static TBASE: Cell<Option<(tokio::time::Instant, u64)>> = const { Cell::new(None) };
    static LATE_TOTAL: Cell<u64> = const { Cell::new(0) };
}
/// Sets how often (per mille) wake-ups happen late.
pub fn set_late(rate: u64) {
    LATE.with(|c| c.set(rate));
    LATE_TOTAL.with(|c| c.set(0));
}
/// Total injected lateness so far.
pub fn late_total() -> u64 {
    LATE_TOTAL.with(|c| c.get())
}
pub fn lateness() -> u64 {
    let rate = LATE.with(|c| c.get());
    if permille(rate) {
        fault("late_wakeup");
        let d = range(1, 400) * MS;
        LATE_TOTAL.with(|c| c.set(c.get() + d));
        d
    } else {
        0
    }
}
/// Blocking sleep in virtual time.
pub fn sleep_until(t: u64) {
    step();
    if t > (1 << 61) {
        // Nothing can end such a sleep in a simulated life time.
        let from = now();
        set_now(t.min(1 << 62));
        idle(now() - from);
        return;
    }
    set_now(t);
    set_now(now() + lateness());
    ev!("slept");
}
pub fn t_enter() {
    TBASE.with(|c| c.set(Some((tokio::time::Instant::now(), now()))));
}
pub fn t_leave() {
    TBASE.with(|c| c.set(None));
}
pub fn tsync() {
    if let Some((i, b)) = TBASE.with(|c| c.get()) {
        set_now(b + i.elapsed().as_nanos() as u64);
    }
}

fn dur_ns(d: Duration) -> u64 {
    d.as_nanos().min(1 << 62) as u64
}

impl Net {
    pub fn new(f: Faults) -> Net {
        Net(Rc::new(RefCell::new(NetI {
            f,
            rx: VecDeque::new(),
            rx_last: 0,
            tx: Vec::new(),
            tx_marks: Vec::new(),
            delivered: 0,
            line_start: 0,
            lines: Vec::new(),
            peer: None,
            raw_peer: None,
            rto: None,
            wto: None,
            stalls: Vec::new(),
            stall_flush: false,
            fail_write_at: None,
            fail_flush: None,
            broken: None,
            blocked_forever: false,
            write_pending: false,
            flushes: 0,
            reads: 0,
            consumed: 0,
            errs: Vec::new(),
            sorted: false,
            set_rto_calls: 0,
            rto_log: Vec::new(),
            eof_seen: false,
            blocked_since: None,
            blocked: Vec::new(),
        })))
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut NetI) -> T) -> T {
        crate::alloc::muted(|| f(&mut self.0.borrow_mut()))
    }
    /// Schedules something to arrive at absolute time `t` (never before what is already scheduled).
    pub fn push_at(&self, t: u64, item: Item) {
        self.with(|n| n.push_at(t, item))
    }
    pub fn send_at(&self, t: u64, bytes: impl AsRef<[u8]>) {
        self.push_at(t, Item::Bytes(bytes.as_ref().to_vec()))
    }
    pub fn set_peer(&self, p: impl FnMut(&[u8], &mut PeerIo) + 'static) {
        self.with(|n| n.peer = Some(Box::new(p)))
    }
    pub fn lines(&self) -> Vec<(u64, Vec<u8>)> {
        self.with(|n| n.lines.clone())
    }
    pub fn sent(&self) -> Vec<u8> {
        self.with(|n| n.tx.clone())
    }
    /// Time at which each complete line of `tx` was accepted by the transport.
    pub fn line_times(&self) -> Vec<(u64, Vec<u8>)> {
        self.with(|n| {
            let mut out = Vec::new();
            let mut start = 0;
            let mut m = 0;
            for (i, b) in n.tx.iter().enumerate() {
                if *b == b'\n' {
                    while n.tx_marks[m].1 <= i {
                        m += 1;
                    }
                    out.push((n.tx_marks[m].0, n.tx[start..=i].to_vec()));
                    start = i + 1;
                }
            }
            out
        })
    }
    fn deliver(&self) {
        loop {
            let (line, peer, t) = {
                let mut n = self.0.borrow_mut();
                let from = n.line_start;
                let Some(p) = n.tx[from..n.delivered].iter().position(|b| *b == b'\n') else { return };
                let line = n.tx[from..from + p + 1].to_vec();
                n.line_start = from + p + 1;
                let t = now();
                n.lines.push((t, line.clone()));
                (line, n.peer.take(), t)
            };
            ev!("peer< {}", show(&line));
            if let Some(mut peer) = peer {
                let mut io = PeerIo { out: Vec::new(), now: t };
                peer(&line, &mut io);
                let mut n = self.0.borrow_mut();
                n.peer = Some(peer);
                for (d, item) in io.out {
                    n.push_at(t + d, item);
                }
            }
        }
    }
    fn accept(&self, buf: &[u8]) {
        crate::alloc::muted(|| self.accept_inner(buf))
    }
    /// What a non-blocking read finds; None if there is nothing yet.
    pub fn take_now(&self, buf: &mut [u8]) -> Option<io::Result<usize>> {
        self.with(|n| matches!(n.avail(), Avail::Ready).then(|| n.take(buf)))
    }
    /// What a non-blocking write manages; None if nothing fits now.
    pub fn put_now(&self, buf: &[u8]) -> Option<io::Result<usize>> {
        let f = self.with(|n| n.f);
        if self.with(|n| n.stalled()).is_some() {
            fault("write_stall");
            self.with(|n| {
                n.write_pending = true;
                n.block();
            });
            return None;
        }
        let r = self.with(|n| n.writable(buf.len()));
        if let Ok(n) = &r {
            ev!("write {}", show(&buf[..*n]));
            // After a short write the caller waits for the next event.
            let short = *n < buf.len();
            self.with(|n| n.write_pending = short);
            if *n > 0 {
                self.accept(&buf[..*n]);
            }
        }
        Some(r)
    }
    /// When a read will find something.
    pub fn readable_at(&self) -> Option<u64> {
        self.with(|n| match n.avail() {
            Avail::Ready => Some(now()),
            Avail::At(t) => Some(t),
            Avail::Never => None,
        })
    }
    /// When a write will be accepted.
    pub fn writable_at(&self) -> u64 {
        self.with(|n| n.stalled().unwrap_or(now()))
    }
    fn accept_inner(&self, buf: &[u8]) {
        let raw = self.0.borrow_mut().raw_peer.take();
        if let Some(mut p) = raw {
            let t = now();
            let mut io = PeerIo { out: Vec::new(), now: t };
            {
                let mut n = self.0.borrow_mut();
                n.unblock();
                n.tx.extend_from_slice(buf);
                let end = n.tx.len();
                n.tx_marks.push((t, end));
            }
            p(buf, &mut io);
            let mut n = self.0.borrow_mut();
            n.raw_peer = Some(p);
            for (d, item) in io.out {
                n.push_at(t + d, item);
            }
            return;
        }
        {
            let mut n = self.0.borrow_mut();
            n.unblock();
            n.tx.extend_from_slice(buf);
            let end = n.tx.len();
            n.tx_marks.push((now(), end));
            if !n.f.buffered {
                n.delivered = end;
            }
        }
        self.deliver();
    }
    fn flushed(&self) {
        crate::alloc::muted(|| self.flushed_inner())
    }
    fn flushed_inner(&self) {
        {
            let mut n = self.0.borrow_mut();
            n.unblock();
            n.flushes += 1;
            n.delivered = n.tx.len();
        }
        self.deliver();
    }
}

enum Avail {
    Ready,
    At(u64),
    Never,
}

impl NetI {
    fn block(&mut self) {
        self.blocked_since.get_or_insert(now());
    }
    fn unblock(&mut self) {
        if let Some(t) = self.blocked_since.take() {
            self.blocked.push((t, now()));
        }
    }
    pub fn push_at(&mut self, t: u64, item: Item) {
        if self.sorted {
            // Several senders on the far side: in order of time, not of calls.
            let i = self.rx.iter().position(|x| x.0 > t).unwrap_or(self.rx.len());
            self.rx.insert(i, (t, item));
            return;
        }
        let t = t.max(self.rx_last);
        self.rx_last = t;
        if let Item::Bytes(b) = &item {
            if b.is_empty() {
                return;
            }
        }
        self.rx.push_back((t, item));
    }
    pub fn rx_empty(&self) -> bool {
        self.rx.is_empty()
    }
    pub fn rx_next(&self) -> Option<u64> {
        self.rx.front().map(|x| x.0)
    }
    fn avail(&self) -> Avail {
        match self.rx.front() {
            Some((t, _)) if *t <= now() => Avail::Ready,
            Some((t, _)) => Avail::At(*t),
            None => Avail::Never,
        }
    }
    /// Moves available bytes into `buf`.
    fn take(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut done = 0;
        let t = now();
        let want = {
            let total: usize = self
                .rx
                .iter()
                .take_while(|x| x.0 <= t)
                .take(8)
                .map(|x| match &x.1 {
                    Item::Bytes(b) => b.len(),
                    Item::Repeat(p, o, n) => p.len() * n - o,
                    _ => 0,
                })
                .sum();
            let m = total.min(buf.len());
            let l = self.f.rchunk.limit(m);
            if l < m {
                fault("short_read");
            }
            l
        };
        while done < want {
            let Some((at, item)) = self.rx.front_mut() else { break };
            if *at > t {
                break;
            }
            match item {
                Item::Bytes(b) => {
                    let n = b.len().min(want - done);
                    buf[done..done + n].copy_from_slice(&b[..n]);
                    done += n;
                    if n == b.len() {
                        self.rx.pop_front();
                    } else {
                        b.drain(..n);
                    }
                }
                Item::Repeat(p, o, n) => {
                    while done < want && *n > 0 {
                        let m = (p.len() - *o).min(want - done);
                        buf[done..done + m].copy_from_slice(&p[*o..*o + m]);
                        done += m;
                        *o += m;
                        if *o == p.len() {
                            *o = 0;
                            *n -= 1;
                        }
                    }
                    if *n == 0 {
                        self.rx.pop_front();
                    }
                }
                Item::Eof => {
                    if done == 0 {
                        // Stays at end of file.
                        self.eof_seen = true;
                        fault("eof");
                        return Ok(0);
                    }
                    break;
                }
                Item::Err(k) => {
                    if done == 0 {
                        let k = *k;
                        self.rx.pop_front();
                        self.errs.push(k);
                        fault("read_error");
                        return Err(io::Error::new(k, "injected read error"));
                    }
                    break;
                }
            }
        }
        self.consumed += done as u64;
        Ok(done)
    }
    /// Until when the transport refuses bytes, if it does now.
    fn stalled(&self) -> Option<u64> {
        let t = now();
        self.stalls.iter().filter(|(a, b)| *a <= t && t < *b).map(|x| x.1).max()
    }
    /// How many bytes may be accepted now, or an injected failure.
    fn writable(&mut self, len: usize) -> io::Result<usize> {
        if let Some(k) = self.broken {
            return Err(io::Error::new(k, "connection already failed"));
        }
        let mut m = len;
        if let Some((at, k)) = self.fail_write_at {
            let room = at.saturating_sub(self.tx.len());
            if room == 0 {
                self.broken = Some(k);
                self.errs.push(k);
                if k == ErrorKind::WriteZero {
                    fault("zero_write");
                    return Ok(0);
                }
                fault("write_error");
                return Err(io::Error::new(k, "injected write error"));
            }
            m = m.min(room);
        }
        let l = self.f.wchunk.limit(m);
        if l < len {
            fault("short_write");
        }
        Ok(l)
    }
    fn flush_result(&mut self) -> io::Result<()> {
        if let Some(k) = self.broken {
            return Err(io::Error::new(k, "connection already failed"));
        }
        if let Some((at, k)) = self.fail_flush {
            if self.tx.len() >= at {
                fault("flush_error");
                self.broken = Some(k);
                self.errs.push(k);
                return Err(io::Error::new(k, "injected flush error"));
            }
        }
        Ok(())
    }
}

/// Blocking endpoint.
pub struct SimConn(pub Net);

fn timed_out(wb: bool) -> io::Error {
    io::Error::from(if wb { ErrorKind::WouldBlock } else { ErrorKind::TimedOut })
}

impl io::Read for SimConn {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        step();
        let (f, rto) = self.0.with(|n| (n.f, n.rto));
        let start = now();
        let deadline = rto.map(|d| start.saturating_add(dur_ns(d)));
        if permille(f.eintr) {
            fault("eintr_read");
            // A signal may arrive some time into the wait.
            let next = self.0.with(|n| match n.avail() {
                Avail::Ready => start,
                Avail::At(t) => t,
                Avail::Never => start + 100 * MS,
            });
            let lim = deadline.unwrap_or(u64::MAX).min(next).min(start + 5 * SEC);
            if lim > start {
                set_now(start + below((lim - start) / MS) * MS);
            }
            ev!("read: EINTR");
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        let avail = self.0.with(|n| n.avail());
        match avail {
            Avail::Ready => {}
            Avail::At(t) if deadline.map_or(true, |d| t <= d) => {
                set_now(t);
                set_now(now() + lateness());
            }
            Avail::Never if deadline.is_none() => {
                self.0.with(|n| n.blocked_forever = true);
                ev!("read: blocked forever");
                return Err(io::Error::new(ErrorKind::Other, "vzsim: blocked forever"));
            }
            _ => {
                set_now(deadline.unwrap());
                set_now(now() + lateness());
                ev!("read: timeout");
                return Err(timed_out(f.would_block));
            }
        }
        let r = self.0.with(|n| n.take(buf));
        match &r {
            Ok(n) => ev!("read {}", show(&buf[..*n])),
            Err(e) => ev!("read: {:?}", e.kind()),
        }
        r
    }
}

impl SimConn {
    /// Waits out a stall; Err if the write limit elapses first.
    fn wait_writable(&mut self) -> io::Result<()> {
        let (stall, wto, wb) = self.0.with(|n| (n.stalled(), n.wto, n.f.would_block));
        let Some(until) = stall else { return Ok(()) };
        fault("write_stall");
        self.0.with(|n| n.block());
        let start = now();
        match wto.map(|d| start.saturating_add(dur_ns(d))) {
            Some(d) if d < until => {
                set_now(d);
                ev!("write: timeout");
                Err(timed_out(wb))
            }
            _ if until == u64::MAX => {
                self.0.with(|n| n.blocked_forever = true);
                ev!("write: blocked forever");
                Err(io::Error::new(ErrorKind::Other, "vzsim: blocked forever"))
            }
            _ => {
                set_now(until);
                Ok(())
            }
        }
    }
}

impl io::Write for SimConn {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        step();
        let f = self.0.with(|n| n.f);
        if permille(f.eintr) {
            fault("eintr_write");
            ev!("write: EINTR");
            return Err(io::Error::from(ErrorKind::Interrupted));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        self.wait_writable()?;
        let r = self.0.with(|n| n.writable(buf.len()));
        match r {
            Ok(n) => {
                ev!("write {}", show(&buf[..n]));
                if n > 0 {
                    self.0.accept(&buf[..n]);
                }
                Ok(n)
            }
            Err(e) => {
                ev!("write: {:?}", e.kind());
                Err(e)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        step();
        if self.0.with(|n| n.stall_flush) {
            self.wait_writable()?;
        }
        self.0.with(|n| n.flush_result())?;
        ev!("flush");
        self.0.flushed();
        Ok(())
    }
}
impl vinezombie::client::conn::ReadTimeout for SimConn {
    fn set_read_timeout(&mut self, t: Option<Duration>) -> io::Result<()> {
        if t == Some(Duration::ZERO) {
            return Err(io::Error::new(ErrorKind::InvalidInput, "zero read timeout"));
        }
        self.0.with(|n| {
            n.set_rto_calls += 1;
            n.rto = t;
        });
        Ok(())
    }
}
impl vinezombie::client::conn::WriteTimeout for SimConn {
    fn set_write_timeout(&mut self, t: Option<Duration>) -> io::Result<()> {
        if t == Some(Duration::ZERO) {
            return Err(io::Error::new(ErrorKind::InvalidInput, "zero write timeout"));
        }
        self.0.with(|n| n.wto = t);
        Ok(())
    }
}

/// Asynchronous endpoint.
pub struct TokConn {
    pub net: Net,
    rs: Option<Pin<Box<tokio::time::Sleep>>>,
    ws: Option<Pin<Box<tokio::time::Sleep>>>,
}
impl TokConn {
    pub fn new(net: Net) -> TokConn {
        TokConn { net, rs: None, ws: None }
    }
}
fn arm(slot: &mut Option<Pin<Box<tokio::time::Sleep>>>, until: u64, cx: &mut Context<'_>) -> bool {
    // True if already elapsed.
    let d = until.saturating_sub(now());
    let mut s = Box::pin(tokio::time::sleep(Duration::from_nanos(d)));
    let r = s.as_mut().poll(cx).is_ready();
    *slot = Some(s);
    r
}
impl tokio::io::AsyncRead for TokConn {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        step();
        tsync();
        let me = self.get_mut();
        let f = me.net.with(|n| n.f);
        if permille(f.spurious) {
            fault("spurious_pending");
            cx.waker().wake_by_ref();
            ev!("read: spurious pending");
            return Poll::Pending;
        }
        match me.net.with(|n| n.avail()) {
            Avail::Ready => {}
            Avail::At(t) => {
                if !arm(&mut me.rs, t, cx) {
                    return Poll::Pending;
                }
                tsync();
            }
            Avail::Never => return Poll::Pending,
        }
        let mut tmp = vec![0u8; buf.remaining()];
        match me.net.with(|n| n.take(&mut tmp)) {
            Ok(n) => {
                ev!("read {}", show(&tmp[..n]));
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Err(e) => {
                ev!("read: {:?}", e.kind());
                Poll::Ready(Err(e))
            }
        }
    }
}
impl TokConn {
    fn poll_writable(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        step();
        tsync();
        let f = self.net.with(|n| n.f);
        if permille(f.spurious) {
            fault("spurious_pending");
            cx.waker().wake_by_ref();
            self.net.with(|n| {
                n.write_pending = true;
                n.block();
            });
            ev!("write: spurious pending");
            return Poll::Pending;
        }
        if let Some(until) = self.net.with(|n| n.stalled()) {
            fault("write_stall");
            self.net.with(|n| {
                n.write_pending = true;
                n.block();
            });
            if until == u64::MAX || !arm(&mut self.ws, until, cx) {
                return Poll::Pending;
            }
            tsync();
        }
        self.net.with(|n| n.write_pending = false);
        Poll::Ready(())
    }
}
impl tokio::io::AsyncWrite for TokConn {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let me = self.get_mut();
        if me.poll_writable(cx).is_pending() {
            return Poll::Pending;
        }
        let r = me.net.with(|n| n.writable(buf.len()));
        Poll::Ready(match r {
            Ok(n) => {
                ev!("write {}", show(&buf[..n]));
                if n > 0 {
                    me.net.accept(&buf[..n]);
                }
                Ok(n)
            }
            Err(e) => {
                ev!("write: {:?}", e.kind());
                Err(e)
            }
        })
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let me = self.get_mut();
        if me.net.with(|n| n.stall_flush) && me.poll_writable(cx).is_pending() {
            return Poll::Pending;
        }
        if let Err(e) = me.net.with(|n| n.flush_result()) {
            return Poll::Ready(Err(e));
        }
        ev!("flush");
        me.net.flushed();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

/// Runs a future that polls with virtual time kept in step with Tokio's paused
/// clock. May stall the task to model a slow scheduler.
struct Stepped<F> {
    f: Pin<Box<F>>,
    stall: Option<Pin<Box<tokio::time::Sleep>>>,
}
impl<F: Future> Future for Stepped<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        step();
        tsync();
        if let Some(s) = &mut self.stall {
            if s.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.stall = None;
            tsync();
        } else {
            let d = lateness();
            if d > 0 {
                let mut s = Box::pin(tokio::time::sleep(Duration::from_nanos(d)));
                let r = s.as_mut().poll(cx);
                if r.is_pending() {
                    self.stall = Some(s);
                    return Poll::Pending;
                }
            }
        }
        self.f.as_mut().poll(cx)
    }
}

/// Runs `f` to completion: on a paused single-threaded Tokio runtime (`tokio`),
/// or by polling it once (blocking code inside never returns Pending).
pub fn block_on<F: Future>(tokio_mode: bool, f: F) -> F::Output {
    if tokio_mode && crate::sock::sock_mode() {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        rt.block_on(f)
    } else if tokio_mode {
        let rt = tokio::runtime::Builder::new_current_thread()
            .enable_time()
            .start_paused(true)
            .build()
            .expect("runtime");
        rt.block_on(async move {
            t_enter();
            let out = Stepped { f: Box::pin(f), stall: None }.await;
            tsync();
            t_leave();
            out
        })
    } else {
        let mut f = std::pin::pin!(f);
        let w = std::task::Waker::noop();
        let mut cx = Context::from_waker(w);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => v,
            Poll::Pending => panic!("blocking scenario returned Pending"),
        }
    }
}
