//! C02: queued messages go out exactly once, in order, whole, CRLF-terminated.
use crate::cl::*;
use crate::core::*;
use crate::hand::{FnH, Loc};
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev};
use std::cell::{Cell, RefCell};
use std::io::ErrorKind;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::queue::Queue;
use vinezombie::client::ClientLogic;
use vinezombie::ircmsg::ClientMsg;

pub const PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 120_000,
    thorough: 3_000_000,
    max_steps: 400_000,
    rule: "each run: messages generated from structure are queued by the application, by handlers reacting to server lines, by handlers being added and by the timeout callback, under random rate limits, while writes are split, interrupted, stalled, buffered until flushed, or fail at a random offset, and reads interleave; the bytes accepted by the transport are compared with an independent serialisation of the queued messages after every call; non-trivial = at least one byte-exact comparison",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["after an I/O error the connection is not used again, as the API documents"],
};

/// Everything queued so far, serialised by the model.
#[derive(Clone, Default)]
struct Log(Rc<RefCell<(Vec<u8>, Vec<usize>)>>);
impl Log {
    fn msg(&self) -> ClientMsg<'static> {
        let m = gen_client(coin());
        let mut g = self.0.borrow_mut();
        g.0.extend(m.canon());
        g.0.extend(b"\r\n");
        let n = g.0.len();
        g.1.push(n);
        ev!("queue {}", show(&m.canon()));
        m.to_client()
    }
}

fn check(net: &Net, log: &Log, ok: bool, all: bool) -> Res {
    let g = log.0.borrow();
    net.with(|n| {
        if let Some(i) = n.tx.iter().zip(&g.0).position(|(a, b)| a != b) {
            bail!(
                "bytes",
                "byte {i} sent differs from the queued messages: sent ..{} expected ..{}",
                show(&n.tx[i.saturating_sub(20)..(i + 20).min(n.tx.len())]),
                show(&g.0[i.saturating_sub(20)..(i + 20).min(g.0.len())])
            );
        }
        ensure!(n.tx.len() <= g.0.len(), "extra", "{} bytes sent but only {} queued: {}", n.tx.len(), g.0.len(), show(&n.tx[g.0.len()..]));
        if ok {
            ensure!(
                n.tx.is_empty() || g.1.contains(&n.tx.len()),
                "partial",
                "after a successful call only part of a message was sent: ..{}",
                show(&n.tx[n.tx.len().saturating_sub(40)..])
            );
            ensure!(n.delivered == n.tx.len(), "unflushed", "{} of {} sent bytes were never flushed", n.tx.len() - n.delivered, n.tx.len());
        }
        if all {
            ensure!(n.tx.len() == g.0.len(), "unsent", "the call ended with {} of {} queued bytes sent", n.tx.len(), g.0.len());
        }
        checked(1);
        Ok(())
    })
}

fn run() -> Res {
    let kind = Kind::any_sock();
    let net = Net::new(Faults::any());
    let log = Log::default();
    // Server chatter that triggers handlers.
    let mut t = 0;
    for _ in 0..below(8) {
        t += *pick(&[0u64, 1, 300, 2000, 9000]) * MS;
        crate::props::c01::send_split(&net, &mut t, &gen_server(false).line(), 200);
    }
    if chance(1, 4) {
        net.push_at(t, Item::Eof);
    }
    match below(6) {
        0 => {
            let k = *pick(&[ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::WriteZero]);
            let at = *pick(&[0u64, 1, 30, 200, 900]);
            let at = below(at + 1) as usize;
            if coin() && k != ErrorKind::WriteZero {
                net.with(|n| n.fail_flush = Some((at, k)));
            } else {
                net.with(|n| n.fail_write_at = Some((at, k)));
            }
        }
        _ => {}
    }
    for _ in 0..*pick(&[0u64, 0, 1, 3]) {
        let from = range(0, 20_000) * MS;
        let len = range(1, 30_000) * MS;
        net.with(|n| {
            n.stalls.push((from, from + len));
            n.stall_flush = true;
        });
    }
    let late = swarm();
    let rate = coin().then(|| (Duration::from_millis(*pick(&[1, 500, 2000, 7000])), below(6) as u32));
    let read_to = coin().then(|| Duration::from_secs(range(1, 4)));
    // Reported as WouldBlock or TimedOut when a stall outlasts it.
    let write_to = chance(1, 3).then(|| Duration::from_secs(range(1, 8)));
    let timeout_fn = coin();
    let n_ops = range(1, 14);
    let failed = block_on(kind.tokio, async {
        set_late(late);
        set_midwrite(true);
        let mut logic = ClientLogic::new();
        if chance(1, 3) {
            let v: Vec<_> = (0..below(7)).map(|_| log.msg()).collect();
            logic = logic.with_queue(Queue::from(v));
        }
        Cl::dial(&net, kind).await;
        let mut cl = Cl::new(&net, kind, logic);
        if let Some((d, b)) = rate {
            cl.queue().set_rate_limit(d, b);
        }
        cl.set_read_timeout(read_to);
        if let Some(w) = write_to {
            cl.set_write_timeout(Some(w));
        }
        let stop = Rc::new(Cell::new(false));
        if timeout_fn {
            let st = Loc::new((log.clone(), net.clone(), Cell::new(0), stop.clone()));
            cl.set_timeout_fn(Some(move |l: &mut ClientLogic| {
                let (log, net, n, stop) = st.get();
                if chance(1, 3) {
                    probe("queued_in_timeout_fn");
                    l.queue_mut().edit().push(log.msg());
                }
                n.set(n.get() + 1);
                if net.with(|n| n.rx_empty()) && n.get() > 3 {
                    stop.set(true);
                    return ControlFlow::Break(());
                }
                ControlFlow::Continue(())
            }));
        }
        // Cancelled runs do not say which handlers finished.
        let live = Rc::new(Cell::new(0));
        for _ in 0..n_ops {
            step();
            match below(8) {
                0 | 1 => {
                    for _ in 0..range(1, 5) {
                        cl.queue().edit().push(log.msg());
                    }
                }
                2 => {
                    let v: Vec<_> = (0..*pick(&[0u64, 1, 3, 40])).map(|_| log.msg()).collect();
                    cl.queue().extend(v);
                }
                3 if live.get() < 3 => {
                    let (l1, l2) = (log.clone(), log.clone());
                    let mut left = range(1, 6);
                    let lv = Loc::new(live.clone());
                    let add = coin();
                    let mut h = FnH::<u8>::new(move |m, _, q, s| {
                        ev!("handler: {}", m);
                        for _ in 0..below(3) {
                            probe("queued_in_handler");
                            q.push(l1.msg());
                        }
                        if coin() {
                            let _ = s.send(0);
                        }
                        left -= 1;
                        if left == 0 {
                            lv.get().set(lv.get().get() - 1);
                            ControlFlow::Break(())
                        } else {
                            ControlFlow::Continue(())
                        }
                    });
                    if add {
                        h.on_add = Some(Box::new(move |_, mut q| q.push(l2.msg())));
                    }
                    cl.add((), h).unwrap();
                    live.set(live.get() + 1);
                }
                4 => {
                    let patience = (kind.tokio && chance(1, 4)).then(|| Duration::from_millis(range(0, 9000)));
                    let r = match patience {
                        None => cl.flush(&net).await,
                        Some(d) => match tokio::time::timeout(d, cl.flush(&net)).await {
                            Ok(r) => r,
                            Err(_) => {
                                tsync();
                                fault("cancelled_flush");
                                ev!("flush_partial -> cancelled");
                                check(&net, &log, false, false)?;
                                continue;
                            }
                        },
                    };
                    let done = matches!(r, Ok(None));
                    if net.with(|n| n.blocked_forever) {
                        return Ok(false);
                    }
                    check(&net, &log, r.is_ok(), done)?;
                    match r {
                        Err(e) => return failed(&net, &e, write_to.is_some()).map(|_| true),
                        Ok(w) => {
                            let q = cl.queue().len();
                            ensure!(w.is_some() == (q > 0), "flush_result", "flush_partial returned {w:?} with {q} messages left");
                        }
                    }
                }
                5 => pause(kind.tokio, range(0, 9000) * MS).await,
                _ => {
                    let idle = !cl.needs_run() || (live.get() > 0 && net.with(|n| n.rx_empty()));
                    if idle && coin() {
                        continue;
                    }
                    let no_handlers = live.get() == 0;
                    let cancel = chance(1, 4).then(|| (range(1, 30), now() + range(0, 9000) * MS));
                    let r = cl.run(&net, cancel).await;
                    match r {
                        Ran::Done(..) => check(&net, &log, true, no_handlers)?,
                        Ran::Timeout => check(&net, &log, true, false)?,
                        Ran::Cancelled => check(&net, &log, false, false)?,
                        Ran::Forever => {
                            ensure!(live.get() > 0, "stuck", "a run without handlers never returned");
                            check(&net, &log, true, true)?;
                            return Ok(false);
                        }
                        Ran::Err(e) => {
                            check(&net, &log, false, false)?;
                            if stop.get() {
                                // The timeout callback asked to stop; the connection is still fine.
                                check(&net, &log, true, false)?;
                                return Ok(false);
                            }
                            return failed(&net, &e, write_to.is_some()).map(|_| true);
                        }
                    }
                }
            }
        }
        // Let everything drain: wait until the client has nothing left to do.
        cl.set_timeout_fn(None::<fn(&mut ClientLogic) -> ControlFlow<()>>);
        for _ in 0..400 {
            step();
            let none = live.get() == 0;
            let r = cl.run(&net, None).await;
            match r {
                Ran::Done(..) => {
                    check(&net, &log, true, none)?;
                    if none {
                        return Ok(false);
                    }
                }
                Ran::Timeout => {
                    check(&net, &log, true, true)?;
                    if net.with(|n| n.rx_empty()) {
                        return Ok(false);
                    }
                }
                Ran::Cancelled => {}
                Ran::Forever => {
                    ensure!(live.get() > 0, "stuck", "a run without handlers never returned");
                    check(&net, &log, true, true)?;
                    return Ok(false);
                }
                Ran::Err(e) => {
                    check(&net, &log, false, false)?;
                    return failed(&net, &e, write_to.is_some()).map(|_| true);
                }
            }
        }
        bail!("no_progress", "400 runs did not drain the queue")
    })?;
    if !failed {
        net.with(|n| {
            ensure!(n.errs.iter().all(|k| *k == ErrorKind::UnexpectedEof), "swallowed", "the transport failed with {:?} but no call reported it", n.errs);
            Ok(())
        })?;
    }
    Ok(())
}

/// An error must be one the transport produced (or the end of input).
fn failed(net: &Net, e: &std::io::Error, limited: bool) -> Res {
    if limited && matches!(e.kind(), ErrorKind::TimedOut | ErrorKind::WouldBlock) {
        probe("write_timeout_reported");
        checked(1);
        return Ok(());
    }
    let (errs, eof) = net.with(|n| (n.errs.clone(), n.eof_seen));
    ensure!(
        errs.last() == Some(&e.kind()) || (errs.is_empty() && eof && e.kind() == ErrorKind::UnexpectedEof),
        "wrong_error",
        "reported {:?} but the transport saw {errs:?} (eof {eof})",
        e.kind()
    );
    probe("error_reported");
    checked(1);
    Ok(())
}
