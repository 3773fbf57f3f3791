//! Interposed sockets. On a thread where a simulation is active, `socket` hands
//! out descriptors that exist only here; connecting one reaches a simulated
//! listener, whose end of the stream is a `Net` as for the in-memory transports.
//! `epoll` and name resolution are simulated as well, so that the standard
//! library's and Tokio's TCP streams run unmodified in virtual time. Anything
//! else goes to the kernel.
use crate::clock::{raw, ret};
use crate::core::*;
use crate::ev;
use crate::net::*;
use libc::{c_int, c_void, size_t, socklen_t, ssize_t};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::io::{self, ErrorKind, Read, Write};
use std::net::{IpAddr, SocketAddr};
use std::rc::Rc;
use std::sync::Mutex;
use std::time::Duration;

const BASE: c_int = 1 << 20;

/// What happens to a connection attempt.
#[derive(Clone)]
pub enum Listen {
    /// Accepted after a delay; the far end is this.
    Accept(u64, Net),
    /// Fails with this errno after a delay.
    Refuse(u64, c_int),
}

enum St {
    New,
    /// Not blocking: decided at this time.
    Dialing(u64, Result<Net, c_int>),
    Open(Net),
    Failed,
}

pub struct Sock {
    st: St,
    nonblock: bool,
    err: c_int,
    rto: Option<Duration>,
    wto: Option<Duration>,
    pub addr: Option<SocketAddr>,
    shut_r: bool,
    shut_w: bool,
    /// Edge-triggered readiness: an event is due once ready.
    arm_r: bool,
    arm_w: bool,
    pub closed: bool,
}

#[derive(Default)]
struct Ep {
    /// Descriptor, interest, data.
    reg: Vec<(c_int, u32, u64)>,
}

#[derive(Clone)]
enum Obj {
    Sock(Rc<RefCell<Sock>>),
    Ep(Rc<RefCell<Ep>>),
}

#[derive(Default)]
struct World {
    fds: BTreeMap<c_int, Obj>,
    next: c_int,
    listen: BTreeMap<SocketAddr, Vec<Listen>>,
    attempts: Vec<SocketAddr>,
    socks: Vec<Rc<RefCell<Sock>>>,
    resolving: bool,
    misuse: Option<String>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    static SOCKMODE: Cell<bool> = const { Cell::new(false) };
}
/// Names known to the simulated resolver. Tokio resolves on another thread.
static DNS: Mutex<BTreeMap<String, Result<Vec<IpAddr>, c_int>>> = Mutex::new(BTreeMap::new());
static LOOKUPS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    crate::alloc::muted(|| W.with(|w| f(&mut w.borrow_mut())))
}
fn get(fd: c_int) -> Option<Obj> {
    if fd < BASE || !sim_on() {
        return None;
    }
    world(|w| w.fds.get(&fd).cloned())
}
fn sock(fd: c_int) -> Option<Rc<RefCell<Sock>>> {
    match get(fd) {
        Some(Obj::Sock(s)) => Some(s),
        _ => None,
    }
}
fn new_fd(o: Obj) -> c_int {
    world(|w| {
        let fd = BASE + w.next;
        w.next += 1;
        w.fds.insert(fd, o);
        fd
    })
}
fn misuse(s: String) {
    world(|w| {
        w.misuse.get_or_insert(s);
    })
}
fn fail(e: c_int) -> isize {
    unsafe { *libc::__errno_location() = e };
    -1
}

/// Runs scenarios on real sockets from here on: Tokio with its I/O driver.
pub fn set_sock(v: bool) {
    SOCKMODE.with(|c| c.set(v))
}
pub fn sock_mode() -> bool {
    SOCKMODE.with(|c| c.get())
}
/// What happens to the next attempts to connect to `a`; the last stays in force.
pub fn listen(a: SocketAddr, l: Vec<Listen>) {
    world(|w| {
        w.listen.insert(a, l);
    })
}
pub fn attempts() -> Vec<SocketAddr> {
    world(|w| w.attempts.clone())
}
/// Sockets created so far that are still open.
pub fn open_socks() -> usize {
    world(|w| w.socks.iter().filter(|s| !s.borrow().closed).count())
}
/// Read and write limits of the last socket, as the kernel would see them.
pub fn limits() -> Option<(Option<Duration>, Option<Duration>)> {
    world(|w| w.socks.last().map(|s| (s.borrow().rto, s.borrow().wto)))
}
/// Which halves of the last socket were shut down.
pub fn shut() -> Option<(bool, bool)> {
    world(|w| w.socks.last().map(|s| (s.borrow().shut_r, s.borrow().shut_w)))
}
pub fn misused() -> Option<String> {
    world(|w| w.misuse.clone())
}
pub fn dns_clear() {
    DNS.lock().unwrap().clear();
    LOOKUPS.lock().unwrap().clear();
}
pub fn dns_set(name: &str, r: Result<Vec<IpAddr>, c_int>) {
    DNS.lock().unwrap().insert(name.to_string(), r);
}
pub fn lookups() -> Vec<String> {
    LOOKUPS.lock().unwrap().clone()
}
/// Until the next socket is made, wait for Tokio's resolver thread in real time.
pub fn resolving(v: bool) {
    world(|w| w.resolving = v)
}

fn errno_of(e: &io::Error) -> c_int {
    match e.kind() {
        ErrorKind::Interrupted => libc::EINTR,
        ErrorKind::WouldBlock => libc::EAGAIN,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        ErrorKind::ConnectionReset => libc::ECONNRESET,
        ErrorKind::ConnectionAborted => libc::ECONNABORTED,
        ErrorKind::BrokenPipe => libc::EPIPE,
        ErrorKind::HostUnreachable => libc::EHOSTUNREACH,
        ErrorKind::NotConnected => libc::ENOTCONN,
        ErrorKind::PermissionDenied => libc::EACCES,
        _ => libc::EIO,
    }
}

// ---- sockets ----

#[no_mangle]
pub unsafe extern "C" fn socket(dom: c_int, ty: c_int, proto: c_int) -> c_int {
    if !sim_on() {
        return ret(raw(libc::SYS_socket, dom as usize, ty as usize, proto as usize, 0, 0, 0)) as c_int;
    }
    resolving(false);
    if (dom != libc::AF_INET && dom != libc::AF_INET6) || ty & 0xf != libc::SOCK_STREAM {
        misuse(format!("socket({dom}, {ty}, {proto}) is not a TCP socket"));
    }
    let s = Rc::new(RefCell::new(Sock {
        st: St::New,
        nonblock: ty & libc::SOCK_NONBLOCK != 0,
        err: 0,
        rto: None,
        wto: None,
        addr: None,
        shut_r: false,
        shut_w: false,
        arm_r: true,
        arm_w: true,
        closed: false,
    }));
    world(|w| w.socks.push(s.clone()));
    new_fd(Obj::Sock(s))
}

unsafe fn addr_of(a: *const libc::sockaddr, len: socklen_t) -> Option<SocketAddr> {
    match (*a).sa_family as c_int {
        libc::AF_INET if len as usize >= std::mem::size_of::<libc::sockaddr_in>() => {
            let a = &*(a as *const libc::sockaddr_in);
            let ip = std::net::Ipv4Addr::from(u32::from_be(a.sin_addr.s_addr));
            Some(SocketAddr::new(ip.into(), u16::from_be(a.sin_port)))
        }
        libc::AF_INET6 if len as usize >= std::mem::size_of::<libc::sockaddr_in6>() => {
            let a = &*(a as *const libc::sockaddr_in6);
            let ip = std::net::Ipv6Addr::from(a.sin6_addr.s6_addr);
            Some(SocketAddr::new(ip.into(), u16::from_be(a.sin6_port)))
        }
        _ => None,
    }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const libc::sockaddr, len: socklen_t) -> c_int {
    let Some(s) = sock(fd) else {
        return ret(raw(libc::SYS_connect, fd as usize, a as usize, len as usize, 0, 0, 0)) as c_int;
    };
    step();
    let Some(addr) = addr_of(a, len) else { return fail(libc::EAFNOSUPPORT) as c_int };
    let l = world(|w| {
        w.attempts.push(addr);
        match w.listen.get_mut(&addr) {
            Some(v) if v.len() > 1 => v.remove(0),
            Some(v) if v.len() == 1 => v[0].clone(),
            _ => Listen::Refuse(0, libc::ECONNREFUSED),
        }
    });
    let mut s = s.borrow_mut();
    s.addr = Some(addr);
    let (d, r) = match l {
        Listen::Accept(d, n) => {
            ev!("connect {addr}");
            (d, Ok(n))
        }
        Listen::Refuse(d, e) => {
            ev!("connect {addr}: errno {e}");
            fault("connect_error");
            (d, Err(e))
        }
    };
    if s.nonblock {
        s.st = St::Dialing(now() + d, r);
        return fail(libc::EINPROGRESS) as c_int;
    }
    set_now(now() + d);
    match r {
        Ok(n) => {
            n.with(|n| (n.rto, n.wto) = (s.rto, s.wto));
            s.st = St::Open(n);
            0
        }
        Err(e) => {
            s.st = St::Failed;
            fail(e) as c_int
        }
    }
}

fn settle(s: &mut Sock) {
    if let St::Dialing(t, r) = &s.st {
        if *t <= now() {
            match r.clone() {
                Ok(n) => {
                    n.with(|n| (n.rto, n.wto) = (s.rto, s.wto));
                    s.st = St::Open(n);
                }
                Err(e) => {
                    s.err = e;
                    s.st = St::Failed;
                }
            }
        }
    }
}

fn do_recv(s: &Rc<RefCell<Sock>>, buf: &mut [u8]) -> isize {
    let (net, nonblock) = {
        let mut s = s.borrow_mut();
        settle(&mut s);
        if s.shut_r {
            return 0;
        }
        match &s.st {
            St::Open(n) => (n.clone(), s.nonblock),
            St::Dialing(..) => return fail(libc::EAGAIN),
            _ => return fail(libc::ENOTCONN),
        }
    };
    if !nonblock {
        return match SimConn(net).read(buf) {
            Ok(n) => n as isize,
            Err(e) => fail(errno_of(&e)),
        };
    }
    step();
    match net.take_now(buf) {
        None => {
            s.borrow_mut().arm_r = true;
            fail(libc::EAGAIN)
        }
        Some(Ok(n)) => {
            ev!("recv {}", show(&buf[..n]));
            if n < buf.len() {
                // Tokio takes a short read for an empty socket.
                s.borrow_mut().arm_r = true;
            }
            n as isize
        }
        Some(Err(e)) => {
            ev!("recv: {:?}", e.kind());
            fail(errno_of(&e))
        }
    }
}
fn do_send(s: &Rc<RefCell<Sock>>, buf: &[u8]) -> isize {
    let (net, nonblock) = {
        let mut s = s.borrow_mut();
        settle(&mut s);
        if s.shut_w {
            return fail(libc::EPIPE);
        }
        match &s.st {
            St::Open(n) => (n.clone(), s.nonblock),
            St::Dialing(..) => return fail(libc::EAGAIN),
            _ => return fail(libc::ENOTCONN),
        }
    };
    if !nonblock {
        return match SimConn(net).write(buf) {
            Ok(n) => n as isize,
            Err(e) => fail(errno_of(&e)),
        };
    }
    step();
    if buf.is_empty() {
        return 0;
    }
    match net.put_now(buf) {
        None => {
            s.borrow_mut().arm_w = true;
            fail(libc::EAGAIN)
        }
        Some(Ok(n)) => {
            if n < buf.len() {
                s.borrow_mut().arm_w = true;
            }
            n as isize
        }
        Some(Err(e)) => {
            ev!("send: {:?}", e.kind());
            fail(errno_of(&e))
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, len: size_t, flags: c_int) -> ssize_t {
    match sock(fd) {
        Some(s) => {
            if flags & libc::MSG_PEEK != 0 {
                misuse("recv with MSG_PEEK".into());
            }
            do_recv(&s, std::slice::from_raw_parts_mut(buf as *mut u8, len))
        }
        None => ret(raw(libc::SYS_recvfrom, fd as usize, buf as usize, len, flags as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, len: size_t, flags: c_int) -> ssize_t {
    match sock(fd) {
        Some(s) => do_send(&s, std::slice::from_raw_parts(buf as *const u8, len)),
        None => ret(raw(libc::SYS_sendto, fd as usize, buf as usize, len, flags as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    match sock(fd) {
        Some(s) => do_recv(&s, std::slice::from_raw_parts_mut(buf as *mut u8, len)),
        None => ret(raw(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    match sock(fd) {
        Some(s) => do_send(&s, std::slice::from_raw_parts(buf as *const u8, len)),
        None => ret(raw(libc::SYS_write, fd as usize, buf as usize, len, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let Some(s) = sock(fd) else {
        return ret(raw(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0));
    };
    let v = std::slice::from_raw_parts(iov, n as usize);
    let total: usize = v.iter().map(|x| x.iov_len).sum();
    let mut tmp = crate::alloc::muted(|| vec![0u8; total]);
    let r = do_recv(&s, &mut tmp);
    let mut at = 0;
    for x in v {
        let m = x.iov_len.min((r.max(0) as usize).saturating_sub(at));
        std::ptr::copy_nonoverlapping(tmp[at..].as_ptr(), x.iov_base as *mut u8, m);
        at += m;
    }
    crate::alloc::muted(|| drop(tmp));
    r
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let Some(s) = sock(fd) else {
        return ret(raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0));
    };
    let tmp = crate::alloc::muted(|| {
        let mut t = Vec::new();
        for x in std::slice::from_raw_parts(iov, n as usize) {
            t.extend_from_slice(std::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        t
    });
    let r = do_send(&s, &tmp);
    crate::alloc::muted(|| drop(tmp));
    r
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    let Some(s) = sock(fd) else {
        return ret(raw(libc::SYS_setsockopt, fd as usize, level as usize, name as usize, val as usize, len as usize, 0)) as c_int;
    };
    let mut s = s.borrow_mut();
    if level == libc::SOL_SOCKET && (name == libc::SO_RCVTIMEO || name == libc::SO_SNDTIMEO) {
        let tv = &*(val as *const libc::timeval);
        let d = Duration::new(tv.tv_sec as u64, tv.tv_usec as u32 * 1000);
        let d = (!d.is_zero()).then_some(d);
        if name == libc::SO_RCVTIMEO {
            s.rto = d;
        } else {
            s.wto = d;
        }
        if let St::Open(n) = &s.st {
            n.with(|n| (n.rto, n.wto) = (s.rto, s.wto));
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, level: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    let Some(s) = sock(fd) else {
        return ret(raw(libc::SYS_getsockopt, fd as usize, level as usize, name as usize, val as usize, len as usize, 0)) as c_int;
    };
    let mut s = s.borrow_mut();
    settle(&mut s);
    match (level, name) {
        (libc::SOL_SOCKET, libc::SO_RCVTIMEO) | (libc::SOL_SOCKET, libc::SO_SNDTIMEO) => {
            let d = if name == libc::SO_RCVTIMEO { s.rto } else { s.wto }.unwrap_or_default();
            let tv = &mut *(val as *mut libc::timeval);
            tv.tv_sec = d.as_secs() as _;
            tv.tv_usec = d.subsec_micros() as _;
            *len = std::mem::size_of::<libc::timeval>() as socklen_t;
        }
        (libc::SOL_SOCKET, libc::SO_ERROR) => {
            *(val as *mut c_int) = std::mem::take(&mut s.err);
            *len = 4;
        }
        _ => {
            *(val as *mut c_int) = 0;
            *len = 4;
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    let Some(s) = sock(fd) else {
        return ret(raw(libc::SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0)) as c_int;
    };
    let mut s = s.borrow_mut();
    settle(&mut s);
    if !matches!(s.st, St::Open(_)) {
        return fail(libc::ENOTCONN) as c_int;
    }
    ev!("shutdown {how}");
    s.shut_r |= how != libc::SHUT_WR;
    s.shut_w |= how != libc::SHUT_RD;
    (s.arm_r, s.arm_w) = (true, true);
    0
}
unsafe fn put_addr(a: Option<SocketAddr>, to: *mut libc::sockaddr, len: *mut socklen_t) -> c_int {
    match a {
        Some(SocketAddr::V4(a)) => {
            let o = &mut *(to as *mut libc::sockaddr_in);
            *o = std::mem::zeroed();
            o.sin_family = libc::AF_INET as u16;
            o.sin_port = a.port().to_be();
            o.sin_addr.s_addr = u32::from(*a.ip()).to_be();
            *len = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
            0
        }
        Some(SocketAddr::V6(a)) => {
            let o = &mut *(to as *mut libc::sockaddr_in6);
            *o = std::mem::zeroed();
            o.sin6_family = libc::AF_INET6 as u16;
            o.sin6_port = a.port().to_be();
            o.sin6_addr.s6_addr = a.ip().octets();
            *len = std::mem::size_of::<libc::sockaddr_in6>() as socklen_t;
            0
        }
        None => fail(libc::ENOTCONN) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut libc::sockaddr, len: *mut socklen_t) -> c_int {
    match sock(fd) {
        Some(s) => put_addr(s.borrow().addr, a, len),
        None => ret(raw(libc::SYS_getpeername, fd as usize, a as usize, len as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut libc::sockaddr, len: *mut socklen_t) -> c_int {
    match sock(fd) {
        Some(_) => put_addr(Some("10.0.0.1:40000".parse().unwrap()), a, len),
        None => ret(raw(libc::SYS_getsockname, fd as usize, a as usize, len as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= BASE && !sim_on() {
        return 0;
    }
    if fd < BASE || !sim_on() {
        return ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    let o = world(|w| {
        let o = w.fds.remove(&fd);
        // The kernel forgets registrations of closed descriptors.
        for x in w.fds.values() {
            if let Obj::Ep(e) = x {
                e.borrow_mut().reg.retain(|r| r.0 != fd);
            }
        }
        o
    });
    match o {
        Some(Obj::Sock(s)) => {
            ev!("close");
            s.borrow_mut().closed = true;
            crate::alloc::muted(|| drop(s));
            0
        }
        Some(o) => {
            crate::alloc::muted(|| drop(o));
            0
        }
        None => {
            misuse(format!("close of unknown descriptor {fd}"));
            fail(libc::EBADF) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= BASE && !sim_on() {
        // A resolver thread dropping its handle of the runtime (and its poll descriptor).
        return 0;
    }
    let Some(o) = get(fd) else {
        return ret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int;
    };
    match (cmd, &o) {
        (libc::F_DUPFD_CLOEXEC, _) | (libc::F_DUPFD, _) => new_fd(o),
        (libc::F_SETFL, Obj::Sock(s)) => {
            s.borrow_mut().nonblock = arg as c_int & libc::O_NONBLOCK != 0;
            0
        }
        (libc::F_GETFL, Obj::Sock(s)) if s.borrow().nonblock => libc::O_NONBLOCK | libc::O_RDWR,
        (libc::F_GETFL, _) => libc::O_RDWR,
        _ => 0,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    let Some(s) = sock(fd) else {
        return ret(raw(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int;
    };
    if req == libc::FIONBIO {
        s.borrow_mut().nonblock = *(arg as *const c_int) != 0;
    }
    0
}

// ---- readiness ----

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    if !sim_on() {
        return ret(raw(libc::SYS_epoll_create1, flags as usize, 0, 0, 0, 0, 0)) as c_int;
    }
    new_fd(Obj::Ep(Rc::default()))
}
#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, e: *mut libc::epoll_event) -> c_int {
    let Some(Obj::Ep(ep)) = get(ep) else {
        return ret(raw(libc::SYS_epoll_ctl, ep as usize, op as usize, fd as usize, e as usize, 0, 0)) as c_int;
    };
    crate::alloc::muted(|| {
        let mut ep = ep.borrow_mut();
        ep.reg.retain(|r| r.0 != fd);
        if op != libc::EPOLL_CTL_DEL {
            let e = std::ptr::read_unaligned(e);
            ep.reg.push((fd, e.events, e.u64));
        }
    });
    if let Some(s) = sock(fd) {
        let mut s = s.borrow_mut();
        (s.arm_r, s.arm_w) = (true, true);
    }
    0
}

/// Events due now, and when the next one will be.
fn ready(ep: &Rc<RefCell<Ep>>, max: usize) -> (Vec<(u32, u64)>, Option<u64>) {
    let mut out = Vec::new();
    let mut next: Option<u64> = None;
    let mut soon = |t: u64| next = Some(next.map_or(t, |n| n.min(t)));
    let reg = ep.borrow().reg.clone();
    for (fd, want, data) in reg {
        let Some(s) = sock(fd) else { continue };
        let mut s = s.borrow_mut();
        settle(&mut s);
        let mut ev = 0;
        match &s.st {
            St::New => continue,
            St::Dialing(t, _) => {
                soon(*t);
                continue;
            }
            St::Failed => {
                if s.arm_r || s.arm_w {
                    ev = (libc::EPOLLIN | libc::EPOLLOUT | libc::EPOLLERR | libc::EPOLLHUP) as u32;
                }
            }
            St::Open(n) => {
                let n = n.clone();
                if s.arm_r && want & libc::EPOLLIN as u32 != 0 {
                    match n.readable_at() {
                        _ if s.shut_r => ev |= libc::EPOLLIN as u32,
                        Some(t) if t <= now() => ev |= libc::EPOLLIN as u32,
                        Some(t) => soon(t),
                        None => {}
                    }
                }
                if s.arm_w && want & libc::EPOLLOUT as u32 != 0 {
                    match n.writable_at() {
                        t if t <= now() || s.shut_w => ev |= libc::EPOLLOUT as u32,
                        u64::MAX => {}
                        t => soon(t),
                    }
                }
                if ev == 0 && !out.is_empty() && permille(n.with(|n| n.f.spurious)) {
                    fault("spurious_event");
                    ev = libc::EPOLLIN as u32;
                }
            }
        }
        if ev & libc::EPOLLIN as u32 != 0 {
            s.arm_r = false;
        }
        if ev & libc::EPOLLOUT as u32 != 0 {
            s.arm_w = false;
        }
        if ev != 0 && out.len() < max {
            out.push((ev, data));
        }
    }
    (out, next)
}

/// Wake-ups through real descriptors (Tokio's eventfd); drained, so edge-triggered.
unsafe fn real_ready(ep: &Rc<RefCell<Ep>>, wait_ms: c_int) -> Vec<(u32, u64)> {
    let reg: Vec<_> = ep.borrow().reg.iter().filter(|r| r.0 < BASE).copied().collect();
    let mut p: Vec<libc::pollfd> = reg.iter().map(|r| libc::pollfd { fd: r.0, events: libc::POLLIN, revents: 0 }).collect();
    raw(libc::SYS_poll, p.as_mut_ptr() as usize, p.len(), wait_ms as usize, 0, 0, 0);
    let mut out = Vec::new();
    for (p, r) in p.iter().zip(&reg) {
        if p.revents & libc::POLLIN != 0 {
            let mut b = [0u8; 8];
            raw(libc::SYS_read, p.fd as usize, b.as_mut_ptr() as usize, 8, 0, 0, 0);
            out.push((libc::EPOLLIN as u32, r.2));
        }
    }
    out
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(epfd: c_int, evs: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    let Some(Obj::Ep(ep)) = get(epfd) else {
        return ret(raw(libc::SYS_epoll_wait, epfd as usize, evs as usize, max as usize, timeout as usize, 0, 0)) as c_int;
    };
    crate::alloc::muted(|| {
        if timeout != 0 && world(|w| w.resolving) {
            // Real time passes for the resolver's thread only.
            let out = real_ready(&ep, 30_000);
            for (i, (e, d)) in out.iter().enumerate() {
                std::ptr::write_unaligned(evs.add(i), libc::epoll_event { events: *e, u64: *d });
            }
            return out.len() as c_int;
        }
        let deadline = (timeout >= 0).then(|| now() + timeout as u64 * MS);
        loop {
            let mut out = real_ready(&ep, 0);
            let (more, next) = ready(&ep, max as usize - out.len());
            out.extend(more);
            let over = deadline.is_some_and(|d| d <= now());
            if !out.is_empty() || over {
                for (i, (e, d)) in out.iter().enumerate() {
                    std::ptr::write_unaligned(evs.add(i), libc::epoll_event { events: *e, u64: *d });
                }
                return out.len() as c_int;
            }
            step();
            match (next, deadline) {
                (None, None) => {
                    misuse("waiting for events that can never come".into());
                    panic!("vzsim: epoll_wait would never return");
                }
                (a, b) => set_now(a.unwrap_or(u64::MAX).min(b.unwrap_or(u64::MAX))),
            }
            set_now(now() + lateness());
        }
    })
}

// ---- names ----

#[repr(C)]
struct Ai {
    ai: libc::addrinfo,
    sa: libc::sockaddr_storage,
}
#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const libc::c_char,
    _service: *const libc::c_char,
    _hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> c_int {
    let name = std::ffi::CStr::from_ptr(node).to_string_lossy().into_owned();
    LOOKUPS.lock().unwrap().push(name.clone());
    let r = DNS.lock().unwrap().get(&name).cloned().unwrap_or(Err(libc::EAI_NONAME));
    let ips = match r {
        Ok(v) => v,
        Err(e) => return e,
    };
    let mut head: *mut libc::addrinfo = std::ptr::null_mut();
    for ip in ips.iter().rev() {
        let mut a: Box<Ai> = Box::new(std::mem::zeroed());
        let mut len: socklen_t = 0;
        put_addr(Some(SocketAddr::new(*ip, 0)), &mut a.sa as *mut _ as *mut libc::sockaddr, &mut len);
        a.ai.ai_family = if ip.is_ipv4() { libc::AF_INET } else { libc::AF_INET6 };
        a.ai.ai_socktype = libc::SOCK_STREAM;
        a.ai.ai_addrlen = len;
        a.ai.ai_addr = &mut a.sa as *mut _ as *mut libc::sockaddr;
        a.ai.ai_next = head;
        head = Box::into_raw(a) as *mut libc::addrinfo;
    }
    *res = head;
    if head.is_null() {
        libc::EAI_NONAME
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut a: *mut libc::addrinfo) {
    while !a.is_null() {
        let next = (*a).ai_next;
        drop(Box::from_raw(a as *mut Ai));
        a = next;
    }
}
