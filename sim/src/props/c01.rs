//! C01: server lines reach handlers exactly once, in order, whatever the I/O does.
use crate::cl::*;
use crate::core::*;
use crate::hand::{FnH, Loc};
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev};
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::handlers::YieldAll;
use vinezombie::ircmsg::ServerMsg;

pub const PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 120_000,
    thorough: 3_000_000,
    max_steps: 400_000,
    rule: "each run: a random script of server lines (generated from structure, with tags, sources, odd bytes, blank lines, several terminators, lines exactly at or above the size limit) sent with random segmentation, delays, EINTR, spurious wake-ups, queue wake-ups mid-line, read timeouts, cancelled async runs, then silence, EOF, mid-line EOF, read error or an over-long line; non-trivial = at least one delivered message or reported end compared with the script",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["after an I/O or parse error the connection is not used again, as the API documents"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tail {
    Silence,
    Eof,
    MidEof,
    Error,
    TooLong,
}

pub const MAX: usize = 8703;

/// Pads the message so that its line is exactly `total` bytes long with terminator.
fn pad(m: &mut M, term: usize, total: usize) {
    m.args = vec![b"p".to_vec(), Vec::new()];
    let base = m.encode_plain_len() + term;
    if base < total {
        m.args[1] = vec![b'z'; total - base];
    }
}
impl M {
    fn encode_plain_len(&self) -> usize {
        // An empty last argument is written as " :", a word without the colon.
        self.line().len() - 2 - 1
    }
}

/// A gap between two pieces of data.
fn gap(rate: u64) -> u64 {
    if permille(rate) {
        *pick(&[1u64, 40, 700, 1500, 2500, 9000, 40_000]) * MS
    } else {
        0
    }
}

fn run() -> Res {
    let kind = Kind::any_sock();
    let f = Faults::any();
    let net = Net::new(f);
    let odd = coin();
    let big = chance(1, 8);
    let gap_rate = swarm();
    let mid_rate = swarm();
    let nlines = range(1, if big { 4 } else { 12 });
    let mut expect: Vec<M> = Vec::new();
    let mut t = 0u64;
    for _ in 0..nlines {
        let mut bytes: Vec<u8>;
        if chance(1, 8) {
            bytes = pick(&[&b"\r\n"[..], b"\n", b"\r\r\n", b"\n\n"]).to_vec();
            probe("blank_line");
        } else {
            let mut m = gen_server(odd);
            let term: &[u8] = *pick(&[&b"\r\n"[..], b"\n", b"\r\r\n"]);
            if big && coin() {
                let total = MAX - below(3) as usize;
                pad(&mut m, term.len(), total);
                bytes = m.line();
                bytes.truncate(bytes.len() - 2);
                bytes.extend(term);
                ensure!(bytes.len() <= MAX, "harness", "padding went wrong {}", bytes.len());
                if bytes.len() == MAX {
                    probe("line_at_limit");
                }
            } else {
                bytes = m.encode();
                bytes.extend(term);
            }
            expect.push(m);
        }
        t += gap(gap_rate);
        send_split(&net, &mut t, &bytes, mid_rate);
    }
    let tail = *pick(&[Tail::Silence, Tail::Eof, Tail::MidEof, Tail::Error, Tail::TooLong]);
    t += gap(gap_rate);
    match tail {
        Tail::Silence => {}
        Tail::Eof => net.push_at(t, Item::Eof),
        Tail::MidEof => {
            let l = gen_server(odd).encode();
            let cut = range(1, l.len() as u64) as usize;
            send_split(&net, &mut t, &l[..cut], mid_rate);
            net.push_at(t, Item::Eof);
        }
        Tail::Error => {
            let k = *pick(&[std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::BrokenPipe]);
            if coin() {
                send_split(&net, &mut t, b":a PRIVMSG b :cut o", mid_rate);
            }
            net.push_at(t, Item::Err(k));
        }
        Tail::TooLong => {
            let mut m = gen_server(odd);
            let over = *pick(&[1usize, 2, 500, 9000]);
            pad(&mut m, 2, MAX + over);
            let l = m.line();
            send_split(&net, &mut t, &l, mid_rate);
            // A complete line follows; it must not be merged into anything delivered.
            net.send_at(t, b":s NOTICE b :after\r\n");
        }
    }
    let late = swarm();
    let read_to = coin().then(|| Duration::from_secs(range(1, 5)));
    let continue_fn = coin();
    let cancel_rate = swarm();
    let queue_n = *pick(&[0u64, 0, 3, 12]);
    let hset = below(4);
    let fin = block_on(kind.tokio, async {
        set_late(late);
        set_midwrite(true);
        Cl::dial(&net, kind).await;
        let mut cl = Cl::fresh(&net, kind);
        cl.set_read_timeout(read_to);
        let broke = Rc::new(Cell::new(false));
        if continue_fn {
            let st = Loc::new((net.clone(), broke.clone(), Cell::new(0)));
            cl.set_timeout_fn(Some(move |_: &mut vinezombie::client::ClientLogic| {
                probe("timeout_fn");
                let (net, broke, n) = st.get();
                if net.with(|n| n.rx_empty()) {
                    n.set(n.get() + 1);
                    if n.get() >= 3 {
                        // Nothing more will come: stop waiting.
                        broke.set(true);
                        return ControlFlow::Break(());
                    }
                }
                ControlFlow::Continue(())
            }));
        }
        // What each handler saw.
        let seen: Rc<RefCell<Vec<ServerMsg<'static>>>> = Default::default();
        let own = Rc::new(Cell::new(coin()));
        let mut rx = None;
        if hset != 0 {
            let (seen, own2) = (seen.clone(), own.clone());
            let flip = coin();
            let quiet = chance(1, 4);
            let h = FnH::<u8>::new(move |m, _, q, s| {
                ev!("handler: {}", m);
                seen.borrow_mut().push(m.clone().owning());
                if flip {
                    own2.set(coin());
                }
                if chance(1, 6) {
                    q.push(gen_client(false).to_client());
                }
                if !quiet {
                    let _ = s.send(1);
                }
                ControlFlow::Continue(())
            })
            .owning(move || own.get());
            cl.add((), h).unwrap();
        }
        if hset != 1 {
            rx = Some(cl.add((), YieldAll).unwrap().1);
        }
        for _ in 0..queue_n {
            cl.queue().edit().push(gen_client(false).to_client());
        }
        if queue_n > 0 {
            cl.queue().set_rate_limit(Duration::from_millis(*pick(&[700, 90, 2000])), below(4) as u32);
        }
        let mut got: Vec<ServerMsg<'static>> = Vec::new();
        let mut timeouts_after_end = 0;
        let mut cancels = 0;
        let mut end: Option<Option<std::io::ErrorKind>> = None;
        loop {
            step();
            let cancel = (cancels < 40 && permille(cancel_rate)).then(|| (range(1, 6), now() + range(0, 3000) * MS));
            let r = cl.run(&net, cancel).await;
            if let Some(rx) = &mut rx {
                while let Got::Val(m) = rx.get() {
                    ev!("yielded: {}", m);
                    got.push(m);
                }
            }
            match r {
                Ran::Done(..) => {}
                Ran::Timeout => {
                    probe("timeout");
                    if net.with(|n| n.rx_empty()) {
                        timeouts_after_end += 1;
                    }
                }
                Ran::Cancelled => {
                    cancels += 1;
                    probe("cancelled");
                }
                Ran::Err(e) => {
                    end = Some(if broke.get() { None } else { Some(e.kind()) });
                }
                Ran::Forever => end = Some(None),
            }
            for (list, who) in [(&*seen.borrow(), "handler"), (&got, "channel")] {
                if (who == "handler" && hset == 0) || (who == "channel" && rx.is_none()) {
                    continue;
                }
                ensure!(
                    list.len() <= expect.len(),
                    "extra",
                    "the {who} got {} messages but only {} complete lines were sent; last: {:?}",
                    list.len(),
                    expect.len(),
                    list.last().map(|m| m.to_string())
                );
                for (i, m) in list.iter().enumerate() {
                    if let Some(d) = expect[i].diff_server(m) {
                        bail!("wrong", "message {i} seen by the {who} differs from line {}: {d}", show(&expect[i].line()));
                    }
                }
            }
            if end.is_some() || timeouts_after_end >= 2 {
                break;
            }
        }
        let n_h = if hset == 0 { None } else { Some(seen.borrow().len()) };
        let n_c = rx.as_ref().map(|_| got.len());
        Ok((end.flatten(), n_h, n_c))
    })?;
    let (end, n_h, n_c) = fin;
    for (n, who) in [(n_h, "handler"), (n_c, "channel")] {
        if let Some(n) = n {
            ensure!(
                n == expect.len(),
                "lost",
                "the {who} got {n} of {} complete lines before the end ({tail:?}, reported {end:?})",
                expect.len()
            );
            checked(n as u64);
        }
    }
    match tail {
        Tail::Silence => ensure!(end.is_none(), "spurious_error", "an open, silent connection was reported as {end:?}"),
        _ => ensure!(end.is_some(), "no_error", "{tail:?} was not reported as an error"),
    }
    if matches!(tail, Tail::Eof | Tail::MidEof) {
        let eof = std::io::ErrorKind::UnexpectedEof;
        ensure!(end == Some(eof), "wrong_error", "a connection closed by the server ({tail:?}) was reported as {end:?}");
    }
    checked(1);
    Ok(())
}

/// Sends bytes, possibly pausing in the middle.
pub fn send_split(net: &Net, t: &mut u64, bytes: &[u8], rate: u64) {
    let mut rest = bytes;
    while permille(rate) && rest.len() > 1 {
        let n = range(1, rest.len() as u64 - 1) as usize;
        net.send_at(*t, &rest[..n]);
        rest = &rest[n..];
        *t += *pick(&[1u64, 300, 900, 1700, 6000]) * MS;
        fault("mid_line_pause");
    }
    net.send_at(*t, rest);
}
