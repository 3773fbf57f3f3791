//! C08: read and write time limits fire on time, never early, never lose data.
use crate::cl::*;
use crate::core::*;
use crate::hand::{FnH, Loc};
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev};
use std::cell::{Cell, RefCell};
use std::io::ErrorKind;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::ClientLogic;

pub const PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 150_000,
    thorough: 4_000_000,
    max_steps: 400_000,
    rule: "each run: a client with random read and write limits (changed by the application or the timeout callback at random times) over one or more connections (swapped with and without a reset) whose peer pauses, trickles single bytes, or stops accepting data at random times for less or more than the limit or for ever; each reported timeout, each delivered message and each blocked write is compared with the limit in force; non-trivial = at least one timeout, delivery or stall judged",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "limits below one second are not used (the library rounds them up)",
        "Tokio timers have millisecond resolution, so async limits may fire up to 2 ms late",
        "the transport honours the timeout it was given, as sockets do (SO_RCVTIMEO/SO_SNDTIMEO)",
    ],
};

/// What the oracle knows about the wait in progress.
struct Wait {
    /// When the wait for a message began.
    since: Cell<u64>,
    limit: Cell<Option<u64>>,
    pushed: Cell<usize>,
    sent_before: Cell<usize>,
    got: RefCell<Vec<usize>>,
    err: RefCell<Option<crate::core::Viol>>,
    breaks: Cell<bool>,
    slack: Cell<u64>,
}
impl Wait {
    fn fail(&self, v: crate::core::Viol) {
        self.err.borrow_mut().get_or_insert(v);
    }
    fn queued(&self, net: &Net) -> usize {
        self.pushed.get() + self.sent_before.get() - net.with(|n| n.lines.len())
    }
    /// When the current wait really began: sending queued messages restarts it.
    fn began(&self, net: &Net) -> u64 {
        let l = net.with(|n| {
            let a = n.lines.last().map_or(0, |l| l.0);
            let b = n.blocked.last().map_or(0, |l| l.1);
            a.max(b)
        });
        self.since.get().max(l)
    }
    fn timed_out(&self, net: &Net, how: &str) {
        let t = now();
        checked(1);
        let Some(r) = self.limit.get() else {
            self.fail(crate::viol!("no_limit", "a read timeout was reported ({how}) at {} ms although no limit is set", t / MS));
            return;
        };
        if self.queued(net) > 0 {
            // Only the empty-queue case is promised.
            return;
        }
        let b = self.began(net);
        if t < b + r {
            self.fail(crate::viol!("early", "a read timeout was reported ({how}) at {} ms, only {} ms into a wait limited to {} ms", t / MS, (t - b) / MS, r / MS));
        }
        let slack = self.slack.get() + late_total();
        if t > b + r + slack {
            self.fail(crate::viol!("late", "a read timeout was reported ({how}) {} ms into a wait limited to {} ms", (t - b) / MS, r / MS));
        }
        self.since.set(t);
    }
    fn message(&self, net: &Net, queued: usize) {
        let t = now();
        checked(1);
        if let (Some(r), 0) = (self.limit.get(), queued) {
            let b = self.began(net);
            let slack = self.slack.get() + late_total();
            if t > b + r + slack {
                self.fail(crate::viol!("missed", "a message was delivered {} ms into a wait limited to {} ms without any timeout being reported", (t - b) / MS, r / MS));
            }
        }
        self.since.set(t);
    }
}

fn limit() -> Option<u64> {
    if chance(1, 4) {
        None
    } else {
        Some(*pick(&[1000u64, 1500, 2000, 5000, 30_000]) * MS)
    }
}

fn script(net: &Net, t: &mut u64, n: u64, next: &mut usize) {
    let trickle = *pick(&[0u64, 300, 700, 900]);
    for _ in 0..n {
        *t += *pick(&[0u64, 100, 900, 1600, 4000, 7000, 40_000]) * MS;
        let l = M::new("PRIVMSG").arg("me").arg(next.to_string()).src("somebody!with@host").line();
        *next += 1;
        let mut rest = &l[..];
        while permille(trickle) && rest.len() > 1 {
            fault("trickle");
            let k = range(1, 4.min(rest.len() as u64 - 1)) as usize;
            net.send_at(*t, &rest[..k]);
            rest = &rest[k..];
            *t += *pick(&[50u64, 300, 800, 1200, 2500]) * MS;
        }
        net.send_at(*t, rest);
    }
}

fn stalls(net: &Net, from: u64) {
    if chance(1, 2) {
        return;
    }
    let mut t = from;
    for _ in 0..range(1, 6) {
        t += range(0, 9000) * MS;
        let end = if chance(1, 8) { u64::MAX } else { t + *pick(&[200u64, 700, 900, 1400, 3000, 8000, 35_000]) * MS };
        net.with(|n| n.stalls.push((t, end)));
        if end == u64::MAX {
            break;
        }
        t = end;
    }
    if coin() {
        net.with(|n| n.stall_flush = true);
    }
}

fn run() -> Res {
    let kind = Kind::any_sock();
    let mut f = Faults::any();
    f.buffered = false;
    let mut net = Net::new(f);
    let mut t = 0u64;
    let mut next = 0usize;
    script(&net, &mut t, below(8), &mut next);
    stalls(&net, 0);
    let late = if chance(1, 4) { swarm() } else { 0 };
    let phases = *pick(&[1u64, 1, 2, 3]);
    let use_fn = coin();
    let mut wlim = limit();
    let rlim = limit();
    block_on(kind.tokio, async {
        set_late(late);
        let w = Rc::new(Wait {
            since: Cell::new(0),
            limit: Cell::new(None),
            pushed: Cell::new(0),
            sent_before: Cell::new(0),
            got: RefCell::new(Vec::new()),
            err: RefCell::new(None),
            breaks: Cell::new(false),
            slack: Cell::new(if kind.tokio { 2 * MS } else { 0 }),
        });
        let mut logic = ClientLogic::new();
        let early = coin();
        if early {
            // Limits set at construction.
            if let Some(r) = rlim {
                logic = logic.with_read_timeout(Duration::from_nanos(r));
            }
            if let Some(x) = wlim {
                logic = logic.with_write_timeout(Duration::from_nanos(x));
            }
        }
        Cl::dial(&net, kind).await;
        let mut cl = Cl::new(&net, kind, logic);
        if !early {
            cl.set_read_timeout(rlim.map(Duration::from_nanos));
            cl.set_write_timeout(wlim.map(Duration::from_nanos));
        }
        w.limit.set(rlim);
        cl.queue().set_rate_limit(Duration::from_millis(*pick(&[1, 400, 2000])), below(5) as u32);
        let cur = Rc::new(RefCell::new(net.clone()));
        if use_fn {
            let st = Loc::new((w.clone(), cur.clone(), Cell::new(0)));
            cl.set_timeout_fn(Some(move |l: &mut ClientLogic| {
                let (w, net, n) = st.get();
                let net = net.borrow().clone();
                ev!("timeout callback");
                w.timed_out(&net, "callback");
                n.set(n.get() + 1);
                if chance(1, 4) {
                    l.queue_mut().edit().push(M::new("PING").arg("x").to_client());
                    w.pushed.set(w.pushed.get() + 1);
                }
                if chance(1, 6) {
                    let r = limit();
                    ev!("read limit {:?} ms", r.map(|r| r / MS));
                    l.set_read_timeout(r.map(Duration::from_nanos));
                    w.limit.set(r);
                }
                if n.get() > 12 && net.with(|n| n.rx_empty()) || chance(1, 10) {
                    w.breaks.set(true);
                    return ControlFlow::Break(());
                }
                ControlFlow::Continue(())
            }));
        }
        let mut base = 0;
        for phase in 0..phases {
            if phase > 0 {
                // Another connection takes over.
                let fresh = Net::new(f);
                t = now();
                base = next;
                script(&fresh, &mut t, below(6), &mut next);
                stalls(&fresh, now());
                w.pushed.set(0);
                w.got.borrow_mut().clear();
                ev!("new connection");
                fault("new_connection");
                Cl::dial(&fresh, kind).await;
                cl.reset_with(&fresh, kind);
                net = fresh;
                *cur.borrow_mut() = net.clone();
                if coin() && base == next {
                    // Nothing was received: handing over the connection loses nothing.
                    let fresh = Net::new(f);
                    script(&fresh, &mut t, 2, &mut next);
                    stalls(&fresh, now());
                    Cl::dial(&fresh, kind).await;
                    cl = cl.with_new_conn(&fresh, kind);
                    net = fresh;
                    *cur.borrow_mut() = net.clone();
                    fault("with_conn");
                }
            }
            let queued = Rc::new(Cell::new(0));
            let (w2, c2, q2) = (w.clone(), cur.clone(), queued.clone());
            cl.add(
                (),
                FnH::<u8>::new(move |m, _, q, s| {
                    let net = c2.borrow().clone();
                    let n: usize = m.args.split_last().1.and_then(|l| l.to_utf8_lossy().parse().ok()).unwrap_or(usize::MAX);
                    ev!("got {n}");
                    w2.message(&net, w2.queued(&net));
                    w2.got.borrow_mut().push(n);
                    if chance(1, 4) {
                        q.push(M::new("X").arg("answer").to_client());
                        w2.pushed.set(w2.pushed.get() + 1);
                    }
                    q2.set(0);
                    if coin() {
                        let _ = s.send(0);
                    }
                    ControlFlow::Continue(())
                }),
            )
            .unwrap();
            let mut quiet = 0;
            let mut n_runs = 0;
            'runs: loop {
                step();
                n_runs += 1;
                if n_runs > 60 {
                    break;
                }
                if chance(1, 5) {
                    for _ in 0..range(1, 3) {
                        cl.queue().edit().push(M::new("PRIVMSG").arg("you").arg("hello there").to_client());
                        w.pushed.set(w.pushed.get() + 1);
                    }
                }
                if chance(1, 8) {
                    let r = limit();
                    ev!("read limit {:?} ms", r.map(|r| r / MS));
                    cl.set_read_timeout(r.map(Duration::from_nanos));
                    w.limit.set(r);
                }
                if chance(1, 10) {
                    wlim = limit();
                    ev!("write limit {:?} ms", wlim.map(|r| r / MS));
                    cl.set_write_timeout(wlim.map(Duration::from_nanos));
                }
                if chance(1, 8) {
                    pause(kind.tokio, range(0, 5000) * MS).await;
                }
                w.since.set(now());
                let nb = net.with(|n| n.blocked.len());
                let cancel = chance(1, 8).then(|| (range(1, 30), now() + range(0, 9000) * MS));
                let r = if chance(1, 6) {
                    match cl.flush(&net).await {
                        Ok(_) => Ran::Cancelled,
                        Err(e) => Ran::Err(e),
                    }
                } else {
                    cl.run(&net, cancel).await
                };
                // Writes: no blocked period may exceed the limit.
                let late = late_total() + w.slack.get();
                let (blocked, since, forever) = net.with(|n| (n.blocked[nb..].to_vec(), n.blocked_since, n.blocked_forever));
                for (a, b) in blocked {
                    checked(1);
                    if let Some(x) = wlim {
                        ensure!(b - a <= x + late, "write_late", "a write blocked for {} ms although the write limit is {} ms", (b - a) / MS, x / MS);
                    }
                }
                if let Some(v) = w.err.borrow_mut().take() {
                    return Err(v);
                }
                match r {
                    Ran::Done(..) | Ran::Cancelled if !forever => {}
                    Ran::Timeout => {
                        ensure!(!use_fn, "callback", "a timeout was returned although a callback is set");
                        w.timed_out(&net, "returned");
                        if let Some(v) = w.err.borrow_mut().take() {
                            return Err(v);
                        }
                        if net.with(|n| n.rx_empty()) {
                            quiet += 1;
                            if quiet > 2 {
                                break 'runs;
                            }
                        }
                    }
                    Ran::Err(e) if !forever => {
                        if w.breaks.replace(false) {
                            ensure!(e.kind() == ErrorKind::TimedOut, "break_kind", "the callback stopped the client but it reported {:?}", e.kind());
                            checked(1);
                            if coin() {
                                continue;
                            }
                            break 'runs;
                        }
                        let timeout = matches!(e.kind(), ErrorKind::TimedOut | ErrorKind::WouldBlock);
                        ensure!(timeout, "error", "unexpected error {e:?}");
                        let (Some(s), Some(x)) = (since, wlim) else {
                            bail!("write_early", "the client failed with {:?} although no write was blocked or no write limit is set", e.kind());
                        };
                        let d = now() - s;
                        ensure!(d >= x, "write_early", "a write was failed after {} ms without progress although the limit is {} ms", d / MS, x / MS);
                        ensure!(d <= x + late, "write_late", "a blocked write was failed after {} ms although the limit is {} ms", d / MS, x / MS);
                        probe("write_timeout");
                        checked(1);
                        break 'runs;
                    }
                    _ => {
                        // Waiting for ever.
                        if let Some(s) = since {
                            ensure!(wlim.is_none(), "write_hang", "a write blocked at {} ms never failed although the write limit is {:?} ms", s / MS, wlim.map(|x| x / MS));
                        } else {
                            ensure!(w.limit.get().is_none(), "read_hang", "the client waits for ever although the read limit is {:?} ms", w.limit.get().map(|x| x / MS));
                            let got = w.got.borrow().clone();
                            let all: Vec<usize> = (base..next).collect();
                            ensure!(got == all, "lost", "delivered {got:?} of {all:?} before waiting for ever");
                        }
                        checked(1);
                        if kind.tokio {
                            // The wait itself used up simulated time; stop here.
                            return Ok(());
                        }
                        break 'runs;
                    }
                }
                let got = w.got.borrow().clone();
                let all: Vec<usize> = (base..next).take(got.len()).collect();
                ensure!(got == all, "lost", "delivered {got:?}, expected {all:?}");
            }
            if quiet > 2 {
                let got = w.got.borrow().clone();
                let all: Vec<usize> = (base..next).collect();
                ensure!(got == all, "lost", "delivered {got:?} of {all:?} when the connection fell silent");
                checked(1);
            }
        }
        Ok(())
    })
}
