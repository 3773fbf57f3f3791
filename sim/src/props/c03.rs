//! C03: the rate limit is never exceeded, and queued messages still go out on time.
use crate::cl::*;
use crate::core::*;
use crate::hand::{FnH, Loc};
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev};
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::queue::Queue;
use vinezombie::client::ClientLogic;
use vinezombie::ircmsg::ClientMsg;

pub const PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 200_000,
    thorough: 5_000_000,
    max_steps: 200_000,
    rule: "each run: either the queue alone (pushes, pops, limit changes, clears, resets and clock advances aimed at the exact boundary) or a client over a simulated connection whose application, handlers and timeout callback queue messages under random limits while the server is silent, chatters or trickles partial lines; the send time of every message is compared with a reference rate limiter computed from the limit's definition and with the window bound; non-trivial = at least one message time compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["Tokio timers have millisecond resolution, so async sends may be up to 2 ms late"],
};

/// The limit by definition: message k may go once `backlog - now <= b*d`.
#[derive(Clone, Copy, Debug)]
struct Limit {
    d: u64,
    b: u64,
    paid: u64,
}
impl Limit {
    fn new(t: u64) -> Limit {
        Limit { d: 2 * SEC, b: 4, paid: t }
    }
    fn change(&mut self, t: u64, d: u64, b: u64) {
        *self = Limit { d, b, paid: t + d * b + d };
    }
    fn allowed_at(&self) -> u64 {
        self.paid.saturating_sub(self.d * self.b)
    }
    fn sent(&mut self, t: u64) {
        self.paid = self.paid.max(t) + self.d;
    }
}

fn delay() -> u64 {
    *pick(&[2000u64, 1, 3, 100, 999, 1000, 1500, 60_000, 0]) * MS + if chance(1, 4) { below(1000) * 1000 } else { 0 }
}
fn burst() -> u64 {
    *pick(&[4u64, 0, 1, 2, 7, 50])
}

fn windows(times: &[u64], d: u64, b: u64, slack: u64) -> Res {
    if d == 0 {
        return Ok(());
    }
    for i in 0..times.len() {
        for j in i..times.len() {
            let n = (j - i + 1) as u64;
            let span = times[j] - times[i] + slack;
            ensure!(
                n <= span / d + b + 1,
                "window",
                "{n} messages within {} ms although the limit is one per {} ms with a burst of {b}",
                span / MS,
                d as f64 / MS as f64
            );
        }
    }
    Ok(())
}

fn run() -> Res {
    if chance(1, 3) {
        direct()
    } else {
        client()
    }
}

fn num_msg(k: u64) -> ClientMsg<'static> {
    M::new("X").arg(k.to_string()).to_client()
}

fn direct() -> Res {
    probe("direct");
    if chance(1, 20) {
        return huge();
    }
    let mut q = Queue::new();
    let mut lim = Limit::new(now());
    let mut pending: std::collections::VecDeque<u64> = Default::default();
    let mut next = 0;
    let mut sent: Vec<u64> = Vec::new();
    for _ in 0..range(3, 60) {
        step();
        match below(12) {
            0..=2 => {
                for _ in 0..range(1, 8) {
                    q.edit().push(num_msg(next));
                    pending.push_back(next);
                    next += 1;
                }
            }
            3 => {
                let (d, b) = (delay(), burst());
                q.set_rate_limit(Duration::from_nanos(d), b as u32);
                windows(&sent, lim.d, lim.b, 0)?;
                lim.change(now(), d, b);
                sent.clear();
                ev!("limit {} ms burst {b}", d / MS);
            }
            4 if chance(1, 6) => {
                q.clear();
                pending.clear();
                ev!("clear");
            }
            5 if chance(1, 6) => {
                q.reset();
                pending.clear();
                windows(&sent, lim.d, lim.b, 0)?;
                lim.paid = now();
                sent.clear();
                ev!("reset");
            }
            6 => set_now(now() + range(0, 10_000) * MS),
            7 => {
                // Right at, before or after the boundary.
                let a = lim.allowed_at();
                let t = match below(4) {
                    0 => a,
                    1 => a.saturating_sub(1),
                    2 => a + 1,
                    _ => a + lim.d,
                };
                set_now(t);
            }
            _ => {
                let mut told: Option<Option<Duration>> = None;
                let got = q.pop(|w| {
                    told = Some(w);
                });
                let t = now();
                ev!("pop -> {} wait {told:?}", got.is_some());
                match (&got, pending.front()) {
                    (None, None) => ensure!(told == Some(None), "empty_wait", "an empty queue reported {told:?}"),
                    (Some(m), None) => bail!("invented", "an empty queue returned {m}"),
                    (Some(m), Some(k)) => {
                        ensure!(told.is_none(), "both", "pop returned a message and a wait");
                        let a = lim.allowed_at();
                        ensure!(a <= t, "too_fast", "a message was released {} ns before the limit allows it", a - t);
                        ensure!(m.args.words()[0].as_bytes() == k.to_string().as_bytes(), "order", "message {m} released instead of number {k}");
                        pending.pop_front();
                        lim.sent(t);
                        sent.push(t);
                    }
                    (None, Some(_)) => {
                        let a = lim.allowed_at();
                        ensure!(a > t, "withheld", "a message that may go was withheld with a wait of {told:?}");
                        let w = told.flatten();
                        ensure!(w == Some(Duration::from_nanos(a - t)), "wrong_wait", "reported wait {w:?}, but the next message may go in {} ns", a - t);
                    }
                }
                checked(1);
            }
        }
        ensure!(q.len() == pending.len() && q.is_empty() == pending.is_empty(), "len", "queue length {} expected {}", q.len(), pending.len());
    }
    windows(&sent, lim.d, lim.b, 0)
}

/// Delays too long to represent must neither panic nor let messages through.
fn huge() -> Res {
    probe("huge_delay");
    let mut q = Queue::new();
    let d = *pick(&[Duration::MAX, Duration::from_secs(u64::MAX / 2), Duration::from_secs(u32::MAX as u64)]);
    q.set_rate_limit(d, *pick(&[0u32, 1, u32::MAX]));
    q.edit().push(num_msg(0));
    for _ in 0..4 {
        let mut told = None;
        ensure!(q.pop(|w| told = w).is_none(), "too_fast", "a message got through a limit of {d:?}");
        ensure!(told.map_or(false, |w| w > Duration::from_secs(86400 * 365)), "wrong_wait", "wait {told:?} for a limit of {d:?}");
        set_now(now() + range(0, 86_400) * SEC);
        checked(1);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Push(u64),
    /// The client became active (a run or flush began).
    Active,
    /// The client stopped (returned to the application).
    Idle,
    Change(u64, u64),
    Clear,
}

fn client() -> Res {
    let kind = Kind::any_sock();
    let mut f = Faults::any();
    f.buffered = false;
    let net = Net::new(f);
    // Server traffic: silence, chatter, or trickling pieces of lines.
    let style = below(4);
    let mut t = 0u64;
    if style > 0 {
        for _ in 0..range(1, 25) {
            t += *pick(&[1u64, 0, 10, 400, 1100, 3000]) * MS;
            let l = gen_server(false).line();
            crate::props::c01::send_split(&net, &mut t, &l, if style == 3 { 800 } else { 100 });
        }
    }
    let late = if chance(1, 4) { swarm() } else { 0 };
    // (time, number of lines sent before it, what)
    let ops: Rc<RefCell<Vec<(u64, usize, Op)>>> = Default::default();
    let next = Rc::new(Cell::new(0u64));
    let log = {
        let (ops, net) = (ops.clone(), net.clone());
        Rc::new(move |o: Op| {
            let n = net.with(|n| n.lines.len());
            ops.borrow_mut().push((now(), n, o));
            ev!("{o:?}");
        })
    };
    let push = {
        let (next, log) = (next.clone(), log.clone());
        Rc::new(move || {
            let k = next.get();
            next.set(k + 1);
            log(Op::Push(k));
            num_msg(k)
        })
    };
    let n_ops = range(2, 14);
    let read_to = chance(1, 3).then(|| Duration::from_secs(range(1, 4)));
    let ended = block_on(kind.tokio, async {
        set_late(late);
        Cl::dial(&net, kind).await;
        let mut cl = Cl::fresh(&net, kind);
        if coin() {
            let (d, b) = (delay(), burst());
            cl.queue().set_rate_limit(Duration::from_nanos(d), b as u32);
            log(Op::Change(d, b));
        }
        cl.set_read_timeout(read_to);
        if coin() {
            let st = Loc::new((push.clone(), log.clone(), Cell::new(0)));
            cl.set_timeout_fn(Some(move |l: &mut ClientLogic| {
                let (push, log, n) = st.get();
                if n.get() >= 6 {
                    return ControlFlow::Break(());
                }
                n.set(n.get() + 1);
                if coin() {
                    l.queue_mut().edit().push(push());
                } else if chance(1, 3) {
                    let (d, b) = (delay(), burst());
                    l.queue_mut().set_rate_limit(Duration::from_nanos(d), b as u32);
                    log(Op::Change(d, b));
                }
                ControlFlow::Continue(())
            }));
        }
        let mut handlers = 0;
        let add = |cl: &mut Cl| {
            let push = push.clone();
            let mut left = range(1, 9);
            let rate = swarm();
            cl.add(
                (),
                FnH::<u8>::new(move |_, _, q, s| {
                    if permille(rate) {
                        probe("queued_in_handler");
                        q.push(push());
                    }
                    if chance(1, 5) {
                        let _ = s.send(0);
                    }
                    left -= 1;
                    if left == 0 {
                        ControlFlow::Break(())
                    } else {
                        ControlFlow::Continue(())
                    }
                }),
            )
            .unwrap();
        };
        for i in 0..n_ops + 40 {
            step();
            let draining = i >= n_ops;
            match if draining { 9 } else { below(10) } {
                0..=2 => {
                    for _ in 0..range(1, 9) {
                        let m = push();
                        cl.queue().edit().push(m);
                    }
                }
                3 if handlers < 3 => {
                    add(&mut cl);
                    handlers += 1;
                }
                4 => pause(kind.tokio, range(0, 9000) * MS).await,
                5 if chance(1, 2) => {
                    let (d, b) = (delay(), burst());
                    cl.queue().set_rate_limit(Duration::from_nanos(d), b as u32);
                    log(Op::Change(d, b));
                }
                6 if chance(1, 5) => {
                    cl.queue().clear();
                    log(Op::Clear);
                }
                7 => {
                    log(Op::Active);
                    let r = cl.flush(&net).await;
                    log(Op::Idle);
                    if r.is_err() {
                        return Ok(false);
                    }
                }
                _ => {
                    if !cl.needs_run() {
                        if draining {
                            return Ok(true);
                        }
                        continue;
                    }
                    log(Op::Active);
                    let cancel = chance(1, 5).then(|| (range(1, 20), now() + range(0, 9000) * MS));
                    match cl.run(&net, cancel).await {
                        Ran::Done(_, f) => handlers -= f.len(),
                        Ran::Timeout | Ran::Cancelled => {}
                        Ran::Err(_) => {
                            log(Op::Idle);
                            return Ok(true);
                        }
                        Ran::Forever => {
                            let left = cl.queue().len();
                            ensure!(left == 0, "stuck", "the client waits forever with {left} messages queued");
                            return Ok(true);
                        }
                    }
                    log(Op::Idle);
                }
            }
        }
        Ok(true)
    })?;
    let _ = ended;
    // Replay the recorded history against the reference limiter.
    let slack = late_total() + if kind.tokio { 2 * MS } else { 0 };
    let fast = if kind.tokio { late_total() } else { 0 };
    let lines = net.line_times();
    let ops = ops.borrow();
    let mut lim = Limit::new(0);
    let mut pending: std::collections::VecDeque<(u64, u64)> = Default::default();
    let mut active: Option<u64> = None;
    let mut seg: Vec<u64> = Vec::new();
    let mut o = 0;
    let mut k = 0;
    loop {
        // Operations that happened before line k was sent.
        if o < ops.len() && ops[o].1 <= k {
            let (t, _, op) = ops[o];
            o += 1;
            match op {
                Op::Push(id) => pending.push_back((id, t)),
                Op::Clear => pending.clear(),
                Op::Active => active = Some(t),
                Op::Idle => {
                    if let (Some(a), Some((id, p))) = (active, pending.front()) {
                        let ideal = lim.allowed_at().max(*p).max(a);
                        ensure!(
                            ideal + slack >= t,
                            "late",
                            "message {id} could have been sent at {} ms but was still queued when the client returned at {} ms",
                            ideal / MS,
                            t / MS
                        );
                        checked(1);
                    }
                    active = None;
                }
                Op::Change(d, b) => {
                    windows(&seg, lim.d, lim.b, fast)?;
                    seg.clear();
                    lim.change(t, d, b);
                }
            }
            continue;
        }
        if k >= lines.len() {
            break;
        }
        let (t, line) = &lines[k];
        k += 1;
        let c = parse_client(line);
        let Some((id, p)) = pending.pop_front() else {
            bail!("invented", "the client sent {} although nothing was queued", show(line));
        };
        ensure!(c.args.first().map(|a| a.as_slice()) == Some(id.to_string().as_bytes()), "order", "sent {} instead of message {id}", show(line));
        let a = lim.allowed_at();
        ensure!(a <= t + fast, "too_fast", "message {id} was sent at {} ms, {} ns before the limit allows", t / MS, a - t);
        let ideal = a.max(p).max(active.unwrap_or(0));
        ensure!(
            *t <= ideal + slack,
            "late",
            "message {id} was sent at {} ms although it could have gone at {} ms",
            t / MS,
            ideal / MS
        );
        lim.sent(*t);
        seg.push(*t);
        checked(1);
    }
    windows(&seg, lim.d, lim.b, fast)
}
