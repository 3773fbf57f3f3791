//! C04: every message reaches each live handler once; results name exactly who acted.
use crate::cl::*;
use crate::core::*;
use crate::hand::FnH;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev};
use std::cell::RefCell;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::channel::ChannelSpec;
use vinezombie::client::handlers::{AutoPong, YieldAll, YieldParsed};
use vinezombie::ircmsg::ServerMsg;
use vinezombie::names::cmd::{NOTICE, PRIVMSG, TOPIC};

pub const PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 150_000,
    thorough: 4_000_000,
    max_steps: 400_000,
    rule: "each run: a random history of adding handlers (scripted ones over queue and oneshot channels of both channel families, plus the library's YieldAll, YieldParsed and AutoPong), numbered server messages, yields, finishes, dropped receivers, timeouts, cancelled async runs and client resets, over blocking and async connections; a model of who is registered predicts for each message who must see it, yield and finish; non-trivial = at least one message or result compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["a run future is only dropped while it waits for input"],
};

enum Rx {
    Q(RxQ<u64>),
    O(RxO<u64>),
    Msg(RxQ<ServerMsg<'static>>),
    T(RxQ<vinezombie::ircmsg::TargetedMsg<'static, vinezombie::string::Line<'static>>>),
    None,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Script,
    All,
    Parsed,
    Pong,
}
#[derive(Default)]
struct Rec {
    /// Message numbers the handler saw.
    log: Vec<usize>,
    dropped: bool,
    did_send_wrong: Option<String>,
}
struct H {
    uid: u64,
    id: usize,
    what: What,
    /// What a scripted handler does with its n-th message: (sends, finish).
    script: Rc<Vec<(u64, bool)>>,
    oneshot: bool,
    rx: Rx,
    open: bool,
    rec: Rc<RefCell<Rec>>,
    /// First message it may see.
    first: usize,
    done: Option<usize>,
    expect: Vec<u64>,
    per: Per,
    got: Vec<u64>,
}

/// The fifth stands for unusable messages, with a target only.
const KINDS: &[&str] = &["PRIVMSG", "NOTICE", "PING", "X", "PRIVMSG", "TOPIC"];
/// How many values a parsing handler yields for each of them.
type Per = [u64; 6];
struct Msg {
    kind: usize,
    n: usize,
}

fn parsed(v: &vinezombie::ircmsg::TargetedMsg<'_, vinezombie::string::Line<'_>>, n: u64) -> Vec<u64> {
    let k: u64 = v.value.to_utf8_lossy().parse().unwrap_or(999_999);
    (0..n).map(|i| k * 10 + i).collect()
}

struct W {
    hs: Vec<H>,
    msgs: Vec<Msg>,
    next_uid: u64,
    /// Messages already processed according to the model.
    cursor: usize,
    observer: bool,
}

impl W {
    fn push_msgs(&mut self, net: &Net, t: &mut u64) {
        for _ in 0..range(1, 8) {
            let kind = below(6) as usize;
            let n = self.msgs.len();
            let mut m = M::new(if kind == 4 { *pick(&["PRIVMSG", "NOTICE", "TOPIC"]) } else { KINDS[kind] });
            if kind != 2 && kind != 4 {
                m = m.arg("me");
            }
            let mut m = m.arg(n.to_string());
            if coin() {
                m = m.src("nick!user@host");
            }
            *t = (*t).max(now()) + *pick(&[0u64, 1, 500, 1500, 6000]) * MS;
            crate::props::c01::send_split(net, t, &m.line(), 100);
            self.msgs.push(Msg { kind, n });
        }
    }
    fn add(&mut self, cl: &mut Cl, k: Kind, observer: bool) -> Res {
        let uid = self.next_uid;
        self.next_uid += 1;
        let rec: Rc<RefCell<Rec>> = Default::default();
        let what = if observer { What::Script } else { *pick(&[What::Script, What::Script, What::All, What::Parsed, What::Pong]) };
        let mut script = Vec::new();
        let mut oneshot = false;
        let mut per = Per::default();
        let (id, rx) = match what {
            What::Script => {
                if !observer {
                    let rate = *pick(&[100u64, 300, 700]);
                    for _ in 0..range(1, 25) {
                        let sends = if permille(rate) { range(1, 3) } else { 0 };
                        script.push((sends, false));
                    }
                    if coin() {
                        if let Some(l) = script.last_mut() {
                            l.1 = true;
                        }
                    }
                    oneshot = coin();
                }
                let script = Rc::new(std::mem::take(&mut script));
                let (s2, r2, r3) = (script.clone(), rec.clone(), rec.clone());
                let mut pos = 0usize;
                let mut seq = 0;
                let mut h = FnH::<u64>::new(move |m, _, _, s| {
                    let n: usize = m.args.split_last().1.and_then(|l| l.to_utf8_lossy().parse().ok()).unwrap_or(usize::MAX);
                    ev!("handler {uid} sees {n}");
                    r2.borrow_mut().log.push(n);
                    let (sends, fin) = s2.get(pos).copied().unwrap_or((0, false));
                    pos += 1;
                    let mut any = false;
                    for _ in 0..sends {
                        let may = s.may_send();
                        let r = s.send(uid * 1000 + seq);
                        seq += 1;
                        let ok = !matches!(r, ControlFlow::Break(vinezombie::client::channel::Sent::Closed));
                        any |= ok;
                        if ok && !may {
                            r2.borrow_mut().did_send_wrong = Some("may_send said no but the send succeeded".into());
                        }
                    }
                    if s.did_send() != any {
                        r2.borrow_mut().did_send_wrong = Some(format!("did_send is {} after sends succeeded: {any}", s.did_send()));
                    }
                    if fin {
                        ControlFlow::Break(())
                    } else {
                        ControlFlow::Continue(())
                    }
                });
                let own = coin();
                h = h.owning(move || own);
                h.on_drop = Some(Box::new(move || {
                    ev!("handler {uid} destroyed");
                    r3.borrow_mut().dropped = true;
                }));
                let (id, rx) = if oneshot {
                    let (s, r) = AnySpec(k.tokio_chan).new_oneshot();
                    (cl.add_with_sender(s, (), h).unwrap(), Rx::O(r))
                } else {
                    let (id, r) = cl.add((), h).unwrap();
                    (id, Rx::Q(r))
                };
                self.push_h(uid, id, what, script, oneshot, rx, rec, per)?;
                return Ok(());
            }
            What::All => {
                let (id, r) = cl.add((), YieldAll).unwrap();
                (id, Rx::Msg(r))
            }
            What::Parsed => {
                let n = below(3);
                let some = |v: &_, n| parsed(v, n).into_iter().next();
                probe("yield_parsed");
                #[allow(deprecated)]
                let h = match below(6) {
                    0 => {
                        per = [1, 1, 0, 0, 0, 0];
                        let h = YieldParsed::just(PRIVMSG).with(NOTICE);
                        let (id, r) = cl.add((), if coin() {
                            per[5] = 1;
                            h.with(TOPIC)
                        } else {
                            h
                        }).unwrap();
                        return self.push_h(uid, id, what, Rc::new(script), oneshot, Rx::T(r), rec, per);
                    }
                    1 => {
                        per[5] = n.min(1);
                        per[0] = 1;
                        YieldParsed::just_map(TOPIC, move |v| some(&v, n)).with_map(PRIVMSG, move |v| some(&v, 1))
                    }
                    2 => {
                        // The later of two for the same kind counts.
                        per[0] = n;
                        per[5] = 2;
                        YieldParsed::just_flat_map(PRIVMSG, move |v| parsed(&v, 5))
                            .with_flat_map(TOPIC, move |v| parsed(&v, 2))
                            .with_flat_map(PRIVMSG, move |v| parsed(&v, n))
                    }
                    3 => {
                        per = [2, 1, 0, 0, 0, n];
                        YieldParsed::new()
                            .with_flat_map(NOTICE, move |v| parsed(&v, 1))
                            .with_flat_map(PRIVMSG, move |v| parsed(&v, 2))
                            .with_flat_map(TOPIC, move |v| parsed(&v, n))
                    }
                    _ => {
                        per = [n, 1, 0, 0, 0, 0];
                        YieldParsed::just_flat_map(PRIVMSG, move |v| parsed(&v, n)).with_flat_map(NOTICE, move |v| parsed(&v, 1))
                    }
                };
                let (id, r) = cl.add((), h).unwrap();
                (id, Rx::Q(r))
            }
            What::Pong => (cl.add((), AutoPong).unwrap().0, Rx::None),
        };
        self.push_h(uid, id, what, Rc::new(script), oneshot, rx, rec, per)
    }
    #[allow(clippy::too_many_arguments)]
    fn push_h(&mut self, uid: u64, id: usize, what: What, script: Rc<Vec<(u64, bool)>>, oneshot: bool, rx: Rx, rec: Rc<RefCell<Rec>>, per: Per) -> Res {
        ev!("add {uid} {what:?} -> id {id}");
        for h in &self.hs {
            ensure!(h.done.is_some() || h.id != id, "id_clash", "a new handler got id {id}, which a live handler has");
        }
        self.hs.push(H { uid, id, what, script, oneshot, rx, open: true, rec, first: self.cursor, done: None, expect: Vec::new(), per, got: Vec::new() });
        Ok(())
    }
    /// The model processes the next message: who yields, who finishes.
    fn model_step(&mut self) -> (Vec<usize>, Vec<usize>) {
        let m = &self.msgs[self.cursor];
        let (mut y, mut f) = (Vec::new(), Vec::new());
        for h in self.hs.iter_mut().filter(|h| h.done.is_none()) {
            let pos = self.cursor - h.first;
            let mut yielded = false;
            let mut fin = false;
            match h.what {
                What::Script => {
                    let (sends, end) = h.script.get(pos).copied().unwrap_or((0, false));
                    let before: u64 = h.script.iter().take(pos).map(|x| x.0).sum();
                    for i in 0..sends {
                        if h.open && !(h.oneshot && !h.expect.is_empty()) {
                            h.expect.push(h.uid * 1000 + before + i);
                            yielded = true;
                        }
                    }
                    fin = end;
                }
                What::All => {
                    if h.open {
                        h.expect.push(m.n as u64);
                        yielded = true;
                    } else {
                        fin = true;
                    }
                }
                What::Parsed => {
                    let n = h.per[m.kind];
                    for i in 0..n {
                        if h.open {
                            h.expect.push(m.n as u64 * 10 + i);
                            yielded = true;
                        } else {
                            fin = true;
                        }
                    }
                }
                What::Pong => {}
            }
            if yielded {
                y.push(h.id);
            }
            if fin {
                f.push(h.id);
                h.done = Some(self.cursor);
            }
        }
        self.cursor += 1;
        y.sort();
        f.sort();
        (y, f)
    }
    /// The model processes messages until somebody acts.
    fn model_until(&mut self) -> Option<(Vec<usize>, Vec<usize>)> {
        while self.cursor < self.msgs.len() {
            let (y, f) = self.model_step();
            if !y.is_empty() || !f.is_empty() {
                return Some((y, f));
            }
        }
        None
    }
    /// Where the observer says the client is.
    fn seen(&self) -> Option<usize> {
        let h = self.hs.iter().find(|h| h.uid == 0 || h.script.is_empty() && h.what == What::Script && h.done.is_none())?;
        Some(h.first + h.rec.borrow().log.len())
    }
    fn quiet_to(&mut self, upto: usize) -> Res {
        while self.cursor < upto {
            let at = self.cursor;
            let (y, f) = self.model_step();
            ensure!(
                y.is_empty() && f.is_empty(),
                "unreported",
                "handlers {y:?} yielded and {f:?} finished on message {at}, but the run did not return then"
            );
        }
        Ok(())
    }
    fn compare(&mut self) -> Res {
        for h in &mut self.hs {
            if h.what == What::Script {
                let r = h.rec.borrow();
                let end = h.done.map_or(self.cursor, |d| d + 1);
                let want: Vec<usize> = (h.first..end).collect();
                ensure!(
                    r.log == want,
                    "delivery",
                    "handler {} (id {}) saw messages {:?} but was registered for {:?}",
                    h.uid,
                    h.id,
                    r.log,
                    want
                );
                ensure!(
                    r.dropped == h.done.is_some(),
                    "lifetime",
                    "handler {} is {} but {}",
                    h.uid,
                    if h.done.is_some() { "finished" } else { "live" },
                    if r.dropped { "was destroyed" } else { "was not destroyed" }
                );
                if let Some(e) = &r.did_send_wrong {
                    bail!("sender", "{e}");
                }
                checked(1 + want.len() as u64);
            }
            if !h.open {
                continue;
            }
            let mut closed = false;
            loop {
                let g = match &mut h.rx {
                    Rx::Q(r) => r.get(),
                    Rx::O(_) if h.done.is_some() => wait_o(&mut h.rx),
                    Rx::O(r) => r.get(),
                    Rx::Msg(r) => match r.get() {
                        Got::Val(m) => Got::Val(m.args.split_last().1.and_then(|l| l.to_utf8_lossy().parse().ok()).unwrap_or(999_999)),
                        Got::Empty => Got::Empty,
                        Got::Closed => Got::Closed,
                    },
                    Rx::T(r) => match r.get() {
                        Got::Val(m) => Got::Val(parsed(&m, 1)[0]),
                        Got::Empty => Got::Empty,
                        Got::Closed => Got::Closed,
                    },
                    Rx::None => break,
                };
                match g {
                    Got::Val(v) => h.got.push(v),
                    Got::Empty => break,
                    Got::Closed => {
                        closed = true;
                        break;
                    }
                }
            }
            let gone = matches!(h.rx, Rx::None);
            ensure!(h.got == h.expect, "values", "handler {} ({:?}) sent {:?} but its receiver got {:?}", h.uid, h.what, h.expect, h.got);
            if !gone {
                // A used oneshot is closed as well.
                let want_closed = h.done.is_some() || (h.oneshot && !h.got.is_empty());
                ensure!(
                    closed == want_closed,
                    "closing",
                    "the channel of handler {} is {} although the handler {}",
                    h.uid,
                    if closed { "closed" } else { "open" },
                    if h.done.is_some() { "is gone" } else { "is live" }
                );
            }
            checked(1);
        }
        Ok(())
    }
    fn live(&self) -> usize {
        self.hs.iter().filter(|h| h.done.is_none()).count()
    }
}

fn run() -> Res {
    let kind = Kind::any_sock();
    let f = Faults::any();
    let mut net = Net::new(f);
    let mut t = 0u64;
    let observer = chance(2, 3);
    let mut w = W { hs: Vec::new(), msgs: Vec::new(), next_uid: 1, cursor: 0, observer };
    let read_to = (observer && coin()).then(|| Duration::from_secs(range(1, 4)));
    let cancel_rate = if observer { swarm() } else { 0 };
    let late = swarm();
    let n_ops = range(4, 26);
    block_on(kind.tokio, async {
        set_late(late);
        Cl::dial(&net, kind).await;
        let mut cl = Cl::fresh(&net, kind);
        cl.set_read_timeout(read_to);
        if w.observer {
            w.next_uid = 0;
            w.add(&mut cl, kind, true)?;
            w.next_uid = 1;
        }
        for _ in 0..n_ops {
            step();
            match below(12) {
                0..=2 => w.add(&mut cl, kind, false)?,
                3 | 4 => w.push_msgs(&net, &mut t),
                5 => {
                    // Stop listening to a handler.
                    let c: Vec<usize> = (0..w.hs.len()).filter(|i| w.hs[*i].open && !matches!(w.hs[*i].rx, Rx::None)).collect();
                    if !c.is_empty() {
                        let h = &mut w.hs[*pick(&c)];
                        h.open = false;
                        h.rx = Rx::None;
                        fault("receiver_dropped");
                        ev!("receiver of {} dropped", h.uid);
                    }
                }
                6 if chance(1, 4) => {
                    // New connection: everything registered is cancelled.
                    fault("client_reset");
                    net = Net::new(f);
                    Cl::dial(&net, kind).await;
                    cl.reset_with(&net, kind);
                    ev!("reset");
                    t = now();
                    let cur = w.cursor;
                    for h in w.hs.iter_mut().filter(|h| h.done.is_none()) {
                        // It will see nothing more.
                        h.done = Some(cur.wrapping_sub(1));
                    }
                    w.msgs.truncate(cur);
                    ensure!(!cl.needs_run(), "needs_run", "a reset client still needs to run");
                    for h in w.hs.iter_mut() {
                        if h.done == Some(usize::MAX) {
                            h.done = Some(usize::MAX);
                        }
                    }
                    reset_compare(&mut w)?;
                    w.hs.clear();
                    if w.observer {
                        let keep = w.next_uid;
                        w.next_uid = 0;
                        w.add(&mut cl, kind, true)?;
                        w.next_uid = keep;
                    }
                }
                _ => {
                    let live = w.live();
                    ensure!(
                        cl.needs_run() == (live > 0 || !cl.queue().is_empty()),
                        "needs_run",
                        "needs_run is {} with {live} live handlers",
                        cl.needs_run()
                    );
                    if live > 0 && w.cursor >= w.msgs.len() && !w.observer {
                        w.push_msgs(&net, &mut t);
                    }
                    let cancel = permille(cancel_rate).then(|| (range(1, 9), now() + range(0, 5000) * MS));
                    match cl.run(&net, cancel).await {
                        Ran::Done(mut y, mut f) => {
                            if live == 0 {
                                ensure!(y.is_empty() && f.is_empty(), "results", "a run without handlers reported {y:?} {f:?}");
                                continue;
                            }
                            y.sort();
                            f.sort();
                            match w.model_until() {
                                None => bail!("results", "the run reported yields {y:?} and finishes {f:?} although nobody acted"),
                                Some((ey, ef)) => ensure!(
                                    y == ey && f == ef,
                                    "results",
                                    "on message {} handlers {ey:?} yielded and {ef:?} finished, but the run reported {y:?} and {f:?}",
                                    w.cursor - 1
                                ),
                            }
                            checked(1);
                            w.compare()?;
                        }
                        Ran::Timeout | Ran::Cancelled => {
                            if let Some(s) = w.seen() {
                                w.quiet_to(s)?;
                            }
                            w.compare()?;
                        }
                        Ran::Forever => {
                            ensure!(live > 0, "stuck", "a run without handlers never returned");
                            let n = w.msgs.len();
                            w.quiet_to(n)?;
                            w.compare()?;
                            return Ok(());
                        }
                        Ran::Err(e) => bail!("error", "run failed with {e}"),
                    }
                }
            }
        }
        Ok(())
    })
}

/// The sender is gone, so a blocking receive must return at once: with the value
/// sent before, or with nothing.
fn wait_o(rx: &mut Rx) -> Got<u64> {
    match std::mem::replace(rx, Rx::None) {
        Rx::O(r) => r.wait().map_or(Got::Closed, Got::Val),
        _ => Got::Closed,
    }
}

/// After a reset every handler is gone and every channel closed.
fn reset_compare(w: &mut W) -> Res {
    for h in &mut w.hs {
        if h.what == What::Script {
            ensure!(h.rec.borrow().dropped, "lifetime", "handler {} survived a reset", h.uid);
        }
        if h.open {
            loop {
                let g = match &mut h.rx {
                    Rx::Q(r) => r.get(),
                    Rx::O(_) => wait_o(&mut h.rx),
                    Rx::Msg(r) => match r.get() {
                        Got::Val(_) => Got::Val(0),
                        Got::Empty => Got::Empty,
                        Got::Closed => Got::Closed,
                    },
                    Rx::T(r) => match r.get() {
                        Got::Val(_) => Got::Val(0),
                        Got::Empty => Got::Empty,
                        Got::Closed => Got::Closed,
                    },
                    Rx::None => break,
                };
                match g {
                    Got::Val(_) => bail!("values", "handler {} sent a value during a reset", h.uid),
                    Got::Empty => bail!("closing", "the channel of handler {} stayed open after a reset", h.uid),
                    Got::Closed => break,
                }
            }
        }
        checked(1);
    }
    Ok(())
}
