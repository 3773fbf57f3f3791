//! C09: the oneshot channel.
use crate::core::*;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use vinezombie::client::channel::{oneshot, Sender as _, Sent};
type Tx = oneshot::Sender<Tracked>;
type Rx = oneshot::Receiver<Tracked>;

#[derive(Clone, Copy, Debug)]
enum Op {
    Clone,
    Drop,
    Send,
    TraitSend,
    IsClosed,
    MaySend,
    Give,
    Take,
    Pause(u64),
}
#[derive(Clone, Copy, Debug)]
enum ROp {
    IsEmpty,
    Peek,
    Pause(u64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum REnd {
    Recv,
    Drop,
    AfterJoin,
}

struct Sh {
    next_id: AtomicUsize,
    /// Id + 1 of the value whose send was seen to succeed (stored with Release).
    sent: AtomicUsize,
    /// Counts successful sends without ordering anything.
    oks: AtomicUsize,
    rx_gone: AtomicBool,
}

fn send(sh: &Sh, tx: Tx, by_trait: bool, log: &mut Log) {
    let id = sh.next_id.fetch_add(1, Relaxed);
    let gone = sh.rx_gone.load(Acquire);
    let seen = sh.sent.load(Acquire) != 0;
    let closed = tx.is_closed();
    ensure!(!gone || closed, "not_closed", "the receiver is gone but is_closed says false");
    ensure!(!seen || closed, "not_closed", "a send succeeded before but is_closed says false");
    let v = Tracked::new(id);
    let ok = if by_trait {
        let mut tx = Some(tx);
        if closed {
            ensure!(!tx.may_send(), "may_send", "may_send is true on a closed channel");
        }
        let r = tx.send(v);
        ensure!(r.is_break(), "still_open", "a oneshot sender says it can send again");
        ensure!(!tx.may_send(), "still_open", "a used oneshot sender says it may send");
        let ok = Sent::from(r) == Sent::Ok;
        let again = tx.send(Tracked::new(sh.next_id.fetch_add(1, Relaxed)));
        ensure!(Sent::from(again) == Sent::Closed, "sent_twice", "one sender sent twice");
        ok
    } else {
        match tx.send(v) {
            Ok(()) => true,
            Err(v) => {
                ensure!(v.id == id, "wrong_return", "sending value {id} failed and returned value {}", v.id);
                v.check();
                false
            }
        }
    };
    log.ev(if ok { k!("send_ok") } else { k!("send_failed") }, id as u64);
    ensure!(!(ok && closed), "closed_send", "is_closed was true and then a send succeeded");
    ensure!(!(ok && gone), "send_to_nobody", "a send succeeded after the receiver was gone");
    if ok {
        let n = sh.oks.fetch_add(1, Relaxed);
        ensure!(n == 0, "two_sends", "{} sends succeeded on one channel", n + 1);
        sh.sent.store(id + 1, Release);
    }
    checked(3);
}

fn plan(r: &mut Rng, n: u64) -> Vec<Op> {
    (0..r.range(1, n))
        .map(|_| match r.below(12) {
            0 | 1 => Op::Clone,
            2 | 3 => Op::Drop,
            4 | 5 => Op::Send,
            6 => Op::TraitSend,
            7 => Op::IsClosed,
            8 => Op::MaySend,
            9 => Op::Give,
            10 => Op::Take,
            _ => Op::Pause(r.range(1, 4)),
        })
        .filter(|_| keep())
        .collect()
}

pub fn run(mut r: Rng) {
    let sh = Arc::new(Sh {
        next_id: AtomicUsize::new(0),
        sent: AtomicUsize::new(0),
        oks: AtomicUsize::new(0),
        rx_gone: AtomicBool::new(false),
    });
    let (tx, rx) = oneshot::channel::<Tracked>();
    let nth = r.range(1, 4) as usize;
    let pre = r.chance(1, 8);
    let mut log = Log::new(0);
    // Senders are handed from thread to thread through this.
    let pool: Arc<Mutex<Vec<Tx>>> = Default::default();
    let borrow = r.chance(1, 4);
    let rops: Vec<ROp> = (0..r.below(5))
        .map(|_| match r.below(3) {
            0 => ROp::IsEmpty,
            1 => ROp::Peek,
            _ => ROp::Pause(r.range(1, 4)),
        })
        .filter(|_| keep())
        .collect();
    let rend = match r.below(3) {
        0 => REnd::Recv,
        1 => REnd::Drop,
        _ => REnd::AfterJoin,
    };
    let rx_main = r.coin();
    let plans: Vec<Vec<Op>> = (0..nth).map(|_| plan(&mut r, 5)).collect();
    log.ev(k!("threads"), nth as u64);
    if pre {
        send(&sh, tx.clone(), false, &mut log);
    }
    let mut tx = Some(tx);
    let mut kids = Vec::new();
    let shared = borrow.then(|| Arc::new(tx.clone().unwrap()));
    for (t, ops) in plans.into_iter().enumerate() {
        let mut own = vec![if t + 1 == nth { tx.take().unwrap() } else { tx.clone().unwrap() }];
        let (sh, pool, shared) = (sh.clone(), pool.clone(), shared.clone());
        kids.push(crate::pool::spawn(move || {
            let mut log = Log::new(t as u8 + 1);
            let mut shared = shared;
            for op in ops {
                match op {
                    Op::Clone => {
                        let n = match (&shared, own.last()) {
                            (Some(s), _) => Tx::clone(s),
                            (None, Some(s)) => s.clone(),
                            _ => continue,
                        };
                        log.ev(k!("clone"), 0);
                        own.push(n);
                    }
                    Op::Drop => {
                        if own.pop().is_none() {
                            shared = None;
                        }
                        log.ev(k!("drop"), 0);
                    }
                    Op::Send | Op::TraitSend => {
                        if let Some(tx) = own.pop() {
                            send(&sh, tx, matches!(op, Op::TraitSend), &mut log);
                        }
                    }
                    Op::IsClosed => {
                        let gone = sh.rx_gone.load(Acquire);
                        if let Some(c) = shared.as_deref().or(own.last()).map(|t| t.is_closed()) {
                            ensure!(c || !gone, "not_closed", "the receiver is gone but is_closed says false");
                            log.ev(k!("is_closed"), c as u64);
                        }
                    }
                    Op::MaySend => {
                        if let Some(t) = own.pop() {
                            let t = Some(t);
                            log.ev(k!("may_send"), t.may_send() as u64);
                            own.extend(t);
                        }
                    }
                    Op::Give => {
                        if let Some(t) = own.pop() {
                            log.ev(k!("give"), 0);
                            pool.lock().unwrap().push(t);
                        }
                    }
                    Op::Take => {
                        let t = pool.lock().unwrap().pop();
                        if let Some(t) = t {
                            log.ev(k!("take"), 0);
                            own.push(t);
                        }
                    }
                    Op::Pause(n) => pause(n),
                }
            }
            while let Some(t) = own.pop() {
                drop(t);
            }
            drop(shared);
        }));
    }
    drop(shared);
    let rsh = sh.clone();
    let receive = move |rx: Rx| -> Option<Rx> {
        let mut log = Log::new(9);
        let mut had = false;
        for op in rops {
            match op {
                ROp::IsEmpty => {
                    let seen = rsh.sent.load(Acquire) != 0;
                    let e = rx.is_empty();
                    ensure!(!(e && seen), "lost", "a send completed but the channel says it is empty");
                    ensure!(!(e && had), "flicker", "the channel had a value and is empty again");
                    had |= !e;
                    log.ev(k!("is_empty"), e as u64);
                }
                ROp::Peek => {
                    let seen = rsh.sent.load(Acquire);
                    match rx.peek() {
                        Some(v) => {
                            v.check();
                            ensure!(seen == 0 || seen == v.id + 1, "wrong_value", "peek shows {} after {} was sent", v.id, seen - 1);
                            had = true;
                            log.ev(k!("peek"), v.id as u64);
                        }
                        None => {
                            ensure!(seen == 0, "lost", "a send completed but peek shows nothing");
                            ensure!(!had, "flicker", "the channel had a value and peek shows nothing");
                            log.ev(k!("peek_none"), 0);
                        }
                    }
                }
                ROp::Pause(n) => pause(n),
            }
            checked(1);
        }
        match rend {
            REnd::AfterJoin => return Some(rx),
            REnd::Drop => {
                log.ev(k!("rx_drop"), 0);
                drop(rx);
            }
            REnd::Recv => {
                let seen = rsh.sent.load(Acquire);
                let v = rx.recv_now();
                match &v {
                    Some(v) => {
                        v.check();
                        ensure!(seen == 0 || seen == v.id + 1, "wrong_value", "received {} after {} was sent", v.id, seen - 1);
                        log.ev(k!("recv"), v.id as u64);
                    }
                    None => {
                        ensure!(seen == 0, "lost", "a send completed but nothing was received");
                        ensure!(!had, "lost", "the channel was not empty but nothing was received");
                        log.ev(k!("recv_none"), 0);
                    }
                }
                checked(1);
            }
        }
        rsh.rx_gone.store(true, Release);
        None
    };
    let (rx, rx_join) = if rx_main {
        (receive(rx), None)
    } else {
        (None, Some(crate::pool::spawn(move || receive(rx))))
    };
    for k in kids {
        k.join().unwrap();
    }
    pool.lock().unwrap().clear();
    let rx = rx.or(rx_join.and_then(|j| j.join().unwrap()));
    let oks = sh.oks.load(Relaxed);
    if let Some(rx) = rx {
        let sent = sh.sent.load(Relaxed);
        ensure!(rx.is_empty() == (oks == 0), "emptiness", "{oks} sends succeeded but is_empty is {}", rx.is_empty());
        ensure!(rx.peek().map(|v| v.id + 1) == (oks != 0).then_some(sent), "peek", "peek does not show the sent value");
        match rx.recv_now() {
            Some(v) => {
                v.check();
                ensure!(v.id + 1 == sent, "wrong_value", "received {} but {} was sent", v.id, sent as isize - 1);
                log.ev(k!("late_recv"), v.id as u64);
            }
            None => ensure!(oks == 0, "lost", "a send succeeded but nothing was received after every thread ended"),
        }
        checked(3);
    }
    let made = sh.next_id.load(Relaxed);
    for i in 0..made {
        let d = take_drops(i);
        ensure!(d == 1, "drops", "value {i} was dropped {d} times after everything ended");
    }
    checked(made as u64);
}
