//! C10: parking, and the blocking receive built on it.
use crate::core::*;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{mpsc, Arc};
use std::thread::Thread;
use vinezombie::client::channel::{oneshot, parker, ChannelSpec, Sender, Sent, SyncChannels};

pub fn run(mut r: Rng) {
    match r.below(8) {
        0..=2 => general(r),
        3 => pingpong(r),
        4 => skip_first(r),
        5 | 6 => recv(r),
        _ => spec(r),
    }
}

/// Read the newest value: a plain load may lag behind.
fn newest(a: &AtomicUsize) -> usize {
    a.fetch_add(0, AcqRel)
}

/// Wakes the parked thread behind the parker's back, as a stale token or a spurious wake-up.
fn noise(plan: Vec<u64>, th: Thread, id: u8) -> crate::pool::Handle<()> {
    crate::pool::spawn(move || {
        let mut log = Log::new(id);
        for p in plan {
            pause(p);
            log.ev(k!("spurious"), 0);
            th.unpark();
        }
    })
}
fn noise_plan(r: &mut Rng) -> Vec<u64> {
    if r.coin() {
        return Vec::new();
    }
    (0..r.range(1, 3)).map(|_| r.below(6)).filter(|_| keep()).collect()
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Unpark,
    Clone,
    Drop,
    Pause(u64),
}
fn plan(r: &mut Rng, n: u64) -> Vec<Op> {
    (0..r.below(n + 1))
        .map(|_| match r.below(6) {
            0 | 1 => Op::Unpark,
            2 => Op::Clone,
            3 => Op::Drop,
            _ => Op::Pause(r.range(1, 5)),
        })
        .filter(|_| keep())
        .collect()
}

struct Counts {
    unparks: AtomicUsize,
    alive: AtomicUsize,
    parks: AtomicUsize,
}

/// Any mix of unparks, clones and drops; the parker parks a few times. All unparkers are dropped
/// in the end, so every park returns.
fn general(mut r: Rng) {
    let (up, pk) = parker::new(());
    let c = Arc::new(Counts { unparks: AtomicUsize::new(0), alive: AtomicUsize::new(1), parks: AtomicUsize::new(0) });
    let nth = r.range(1, 3) as usize;
    let parks = r.range(1, 3);
    let gaps: Vec<u64> = (0..parks).map(|_| r.below(5)).collect();
    let move_after = r.below(parks + 2);
    let plans: Vec<Vec<Op>> = (0..nth).map(|_| plan(&mut r, 5)).collect();
    let np = noise_plan(&mut r);
    let own_noise = r.chance(1, 4);
    let mut ups = vec![up];
    for _ in 1..nth {
        c.alive.fetch_add(1, AcqRel);
        let n = ups[0].clone();
        ups.push(n);
    }
    let mut kids = Vec::new();
    for (t, (ops, up)) in plans.into_iter().zip(ups).enumerate() {
        let c = c.clone();
        kids.push(crate::pool::spawn(move || {
            let mut log = Log::new(t as u8 + 1);
            let mut own = vec![up];
            for op in ops {
                match op {
                    Op::Unpark => {
                        if let Some(u) = own.last() {
                            c.unparks.fetch_add(1, AcqRel);
                            u.unpark();
                            log.ev(k!("unpark"), 0);
                        }
                    }
                    Op::Clone => {
                        if let Some(u) = own.last() {
                            c.alive.fetch_add(1, AcqRel);
                            let n = u.clone();
                            own.push(n);
                            log.ev(k!("clone"), 0);
                        }
                    }
                    Op::Drop => {
                        if let Some(u) = own.pop() {
                            c.alive.fetch_sub(1, AcqRel);
                            drop(u);
                            log.ev(k!("drop"), 0);
                        }
                    }
                    Op::Pause(n) => pause(n),
                }
            }
            while let Some(u) = own.pop() {
                c.alive.fetch_sub(1, AcqRel);
                drop(u);
                log.ev(k!("last_drop"), 0);
            }
        }));
    }
    let park_some = move |pk: &parker::Parker, c: &Counts, n: &[u64], log: &mut Log| {
        for &g in n {
            pause(g);
            if own_noise {
                // A token left over from something else on this thread.
                std::thread::current().unpark();
            }
            pk.park();
            let done = c.parks.fetch_add(1, AcqRel) + 1;
            let (u, alive) = (newest(&c.unparks), newest(&c.alive));
            log.ev(k!("park"), u as u64);
            ensure!(
                done <= u || alive == 0,
                "early",
                "park returned {done} times with {u} unparks and {alive} unparkers left"
            );
            checked(1);
        }
    };
    let cc = c.clone();
    let first: Vec<u64> = gaps.iter().copied().take(move_after as usize).collect();
    let rest: Vec<u64> = gaps.iter().copied().skip(move_after as usize).collect();
    let j = crate::pool::spawn(move || {
        let mut log = Log::new(8);
        park_some(&pk, &cc, &first, &mut log);
        drop(log);
        pk
    });
    let th = j.thread();
    let n = noise(np, th, 7);
    let pk = j.join().unwrap();
    // The parker may move to another thread between parks.
    let mut log = Log::new(0);
    for &g in &rest {
        pause(g);
        pk.park();
        let done = c.parks.fetch_add(1, AcqRel) + 1;
        let (u, alive) = (newest(&c.unparks), newest(&c.alive));
        log.ev(k!("park_moved"), u as u64);
        ensure!(done <= u || alive == 0, "early", "park returned {done} times with {u} unparks and {alive} unparkers left");
        checked(1);
    }
    for k in kids {
        k.join().unwrap();
    }
    n.join().unwrap();
    // With no unparkers left, parking never blocks.
    pk.park();
    pk.park();
}

/// Strict alternation: a lost wake-up shows as a deadlock, an early return as a bad count.
fn pingpong(mut r: Rng) {
    let (up, pk) = parker::new(());
    let rounds = r.range(2, 4);
    let two = r.coin();
    let np = noise_plan(&mut r);
    let gaps: Vec<u64> = (0..rounds).map(|_| r.below(6)).collect();
    let pgaps: Vec<u64> = (0..rounds).map(|_| r.below(6)).collect();
    let begun = Arc::new(AtomicUsize::new(0));
    let (ack_tx, ack) = mpsc::channel::<()>();
    let b = begun.clone();
    let j = crate::pool::spawn(move || {
        let mut log = Log::new(8);
        for i in 0..rounds {
            pause(pgaps[i as usize]);
            pk.park();
            let n = newest(&b);
            ensure!(n as u64 > i, "early", "park number {} returned after {n} unparks", i + 1);
            log.ev(k!("park"), n as u64);
            checked(1);
            ack_tx.send(()).unwrap();
        }
    });
    let th = j.thread();
    let n = noise(np, th, 7);
    let mut log = Log::new(0);
    let other = up.clone();
    for i in 0..rounds {
        pause(gaps[i as usize]);
        begun.fetch_add(1, AcqRel);
        if two && i % 2 == 1 {
            let o = other.clone();
            crate::pool::spawn(move || o.unpark()).join().unwrap();
        } else {
            up.unpark();
        }
        log.ev(k!("unpark"), i);
        ack.recv().unwrap();
    }
    j.join().unwrap();
    n.join().unwrap();
    drop((up, other));
}

/// An unpark before the park, with an unparker kept alive, makes the next park return,
/// and only that one.
fn skip_first(mut r: Rng) {
    let (up, pk) = parker::new(());
    let before = r.range(1, 3);
    let by_thread = r.coin();
    let np = noise_plan(&mut r);
    let mut log = Log::new(0);
    for _ in 0..before {
        if by_thread {
            let u = up.clone();
            crate::pool::spawn(move || u.unpark()).join().unwrap();
        } else {
            up.unpark();
        }
        log.ev(k!("unpark"), 0);
    }
    pk.park();
    log.ev(k!("park"), 0);
    checked(1);
    // The next one waits for a new unpark, or for the last unparker to go.
    let begun = Arc::new(AtomicUsize::new(0));
    let b = begun.clone();
    let j = crate::pool::spawn(move || {
        let mut log = Log::new(8);
        pk.park();
        let n = newest(&b);
        ensure!(n > 0, "early", "a second park returned without an unpark");
        log.ev(k!("park"), n as u64);
        checked(1);
    });
    let th = j.thread();
    let n = noise(np, th, 7);
    pause(r.below(12));
    begun.fetch_add(1, AcqRel);
    if r.coin() {
        up.unpark();
        log.ev(k!("unpark"), 0);
        if r.coin() {
            j.join().unwrap();
            drop(up);
        } else {
            drop(up);
            j.join().unwrap();
        }
    } else {
        drop(up);
        log.ev(k!("last_drop"), 0);
        j.join().unwrap();
    }
    n.join().unwrap();
}

/// The blocking receive on a oneshot channel with several unparking senders.
fn recv(mut r: Rng) {
    let (tx, rx) = oneshot::channel::<Tracked>();
    let (up, pk) = parker::new(Some(tx));
    let nth = r.range(1, 3) as usize;
    // Per thread: pauses, then send or just drop; senders may also be cloned on the way.
    let plans: Vec<(u64, bool, bool, u64)> =
        (0..nth).map(|_| (r.below(6), keep() && r.chance(2, 3), r.chance(1, 3), r.below(4))).collect();
    let np = noise_plan(&mut r);
    let rgap = r.below(6);
    let oks = Arc::new(AtomicUsize::new(0));
    let alive = Arc::new(AtomicUsize::new(nth));
    let a2 = alive.clone();
    let recv_first = r.coin();
    let (go_tx, go_rx) = mpsc::channel::<()>();
    // Senders may live on until the receiver is done, if one of them sends.
    let hold = plans.iter().any(|p| p.1) && r.coin();
    let (done_txs, done_rxs): (Vec<_>, Vec<_>) = (0..nth).map(|_| mpsc::channel::<()>()).unzip();
    let j = crate::pool::spawn(move || {
        let mut log = Log::new(8);
        if !recv_first {
            let _ = go_rx.recv();
        }
        pause(rgap);
        let v = rx.recv(&pk);
        drop(done_txs);
        match v {
            Some(v) => {
                v.check();
                log.ev(k!("recv"), v.id as u64);
                Some(v.id)
            }
            None => {
                let n = newest(&a2);
                log.ev(k!("recv_none"), 0);
                ensure!(n == 0, "gave_up", "recv gave up with {n} senders left that had not begun to send or drop");
                None
            }
        }
    });
    let th = j.thread();
    let n = noise(np, th, 7);
    let mut ups: Vec<_> = (1..nth).map(|_| up.clone()).collect();
    ups.push(up);
    let mut kids = Vec::new();
    for (t, ((mut up, (gap, sends, clones, gap2)), done)) in ups.into_iter().zip(plans).zip(done_rxs).enumerate() {
        let (oks, alive) = (oks.clone(), alive.clone());
        kids.push(crate::pool::spawn(move || {
            let mut log = Log::new(t as u8 + 1);
            pause(gap);
            if clones {
                drop(up.clone());
                log.ev(k!("clone_drop"), 0);
            }
            alive.fetch_sub(1, AcqRel);
            if sends {
                let v = Tracked::new(t);
                let s = Sent::from(up.send(v));
                log.ev(if s == Sent::Ok { k!("send_ok") } else { k!("send_failed") }, t as u64);
                if s == Sent::Ok {
                    oks.fetch_add(t + 1, AcqRel);
                }
                pause(gap2);
            }
            if hold {
                let _ = done.recv();
                log.ev(k!("held"), 0);
            }
            drop(up);
            log.ev(k!("drop"), 0);
        }));
    }
    drop(go_tx);
    let got = j.join().unwrap();
    for k in kids {
        k.join().unwrap();
    }
    n.join().unwrap();
    let sum = newest(&oks);
    ensure!(
        got.map_or(0, |i| i + 1) == sum,
        "lost",
        "the blocking receive returned {got:?} but the successful sends sum up to {sum} (0 is none, n+1 is value n)"
    );
    for i in 0..nth {
        let d = take_drops(i);
        ensure!(d <= 1, "drops", "value {i} was dropped {d} times");
    }
    checked(2);
}

/// The channels handlers get from `SyncChannels`.
fn spec(mut r: Rng) {
    let (mut tx, (rx, pk)) = SyncChannels.new_oneshot::<Tracked>();
    let (mut qtx, qrx) = SyncChannels.new_queue::<u64>();
    let sends = keep() && r.chance(2, 3);
    let gap = r.below(8);
    let qn = r.below(3);
    let np = noise_plan(&mut r);
    let hold = sends && r.coin();
    let (done_tx, done) = mpsc::channel::<()>();
    let k = crate::pool::spawn(move || {
        let mut log = Log::new(1);
        for i in 0..qn {
            ensure!(qtx.send(i).is_continue(), "queue", "the queue channel closed early");
            log.ev(k!("queue"), i);
        }
        pause(gap);
        if sends {
            ensure!(Sent::from(tx.send(Tracked::new(0))) == Sent::Ok, "refused", "the only send failed");
            log.ev(k!("send_ok"), 0);
        }
        if hold {
            let _ = done.recv();
            log.ev(k!("held"), 0);
        }
        drop(tx);
        log.ev(k!("drop"), 0);
    });
    let n = noise(np, std::thread::current(), 7);
    let mut log = Log::new(0);
    let v = rx.recv(&pk);
    drop(done_tx);
    log.ev(k!("recv"), v.is_some() as u64);
    ensure!(v.is_some() == sends, "lost", "the blocking receive got {v:?}; sent: {sends}");
    let q: Vec<u64> = qrx.iter().collect();
    ensure!(q == (0..qn).collect::<Vec<_>>(), "queue", "the queue delivered {q:?} of {qn}");
    drop(v);
    k.join().unwrap();
    n.join().unwrap();
    let d = take_drops(0);
    ensure!(d == sends as u32, "drops", "the value was dropped {d} times");
    checked(3);
}
