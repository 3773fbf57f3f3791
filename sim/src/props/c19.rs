//! C19: queue edits, labels and adjusters apply exactly and only to queued messages.
use crate::cl::*;
use crate::core::*;
use crate::hand::{FnH, Loc};
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev, viol};
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::queue::{Adjuster, MultiAdjuster, Queue, QueueEditGuard};
use vinezombie::client::ClientLogic;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Arg, Key, NoNul};

pub const PROP: Prop = Prop {
    id: "C19",
    run,
    quick: 150_000,
    thorough: 4_000_000,
    max_steps: 600_000,
    rule: "each run: a random history of nested edit guards (push, push with label, clear), queue clears, bulk labelling, labeler and adjuster changes, direct pops, numbered server messages and handlers, callbacks and added handlers that edit the queue through their own guards, under random rate limits and transport faults on blocking and async connections; a model queue predicts the content of the queue, every call an adjuster must receive, and the exact bytes sent; non-trivial = at least one sent line, adjuster call set or label compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["a run future is only dropped while it waits for input", "distinctness of labels is required within one installed default labeler; custom labelers are used verbatim"],
};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum E {
    Should(u64, u64),
    Update(u64, u64),
    Reset(u64),
}

/// What one member adjuster does; pure in (rule, message), so the model can repeat it.
#[derive(Clone, Copy, Debug)]
struct Rule {
    uid: u64,
    every: u64,
    remove: u64,
    tag: u64,
    rewrite: u64,
}
impl Rule {
    fn any(uid: u64) -> Rule {
        Rule { uid, every: range(1, 3), remove: *pick(&[0, 2, 3, 5, 1]), tag: *pick(&[0, 2, 3]), rewrite: *pick(&[0, 2, 3]) }
    }
    fn hits(k: u64, n: u64) -> bool {
        k != 0 && n % k == 0
    }
    fn active(&self, n: u64) -> bool {
        (n + self.uid) % self.every == 0
    }
    fn tag_name(&self) -> Vec<u8> {
        format!("+r{}", self.uid).into_bytes()
    }
    /// Returns false if the message is to be removed.
    fn model(&self, id: u64, m: &mut M) -> bool {
        if Self::hits(self.tag, id + self.uid) {
            let k = self.tag_name();
            m.tags.retain(|t| t.0 != k);
            m.tags.push((k, b"a b;c".to_vec()));
        }
        if Self::hits(self.rewrite, id) {
            m.args = vec![b"rewritten".to_vec()];
        }
        !Self::hits(self.remove, id + self.uid)
    }
}

struct Entry {
    id: u64,
    m: M,
}

#[derive(Default)]
struct World {
    queue: VecDeque<Entry>,
    seen_tx: usize,
    next_id: u64,
    /// Calls adjusters received since the last check.
    log: Vec<E>,
    bad: Option<Viol>,
    rules: Vec<Rule>,
    next_rule: u64,
    last: Option<u64>,
    labeler: Option<bool>,
    labels: HashSet<Vec<u8>>,
    /// Labels a custom labeler made and the harness has not matched yet.
    made: Vec<Vec<u8>>,
    odd: bool,
}
type W = Rc<RefCell<World>>;

fn id_of(m: &ClientMsg<'_>) -> u64 {
    m.tags.get(Key::from_str("+id")).and_then(|v| v.to_utf8_lossy().parse().ok()).unwrap_or(u64::MAX)
}
fn strip(m: &M) -> M {
    let mut m = m.clone();
    m.tags.retain(|t| !t.0.starts_with(b"+r"));
    m
}

struct Adj {
    rule: Rule,
    w: Loc<W>,
}
impl Adjuster for Adj {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        let n = num(msg);
        self.w.get().borrow_mut().log.push(E::Should(self.rule.uid, n));
        self.rule.active(n)
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let id = id_of(msg);
        let mut w = self.w.get().borrow_mut();
        w.log.push(E::Update(self.rule.uid, id));
        // Only messages in the queue, with their current content, may be shown.
        let bad = match w.queue.iter().find(|e| e.id == id) {
            None => Some(viol!("adjusted_other", "an adjuster was given message {id}, which is not queued: {}", show(msg.to_string().as_bytes()))),
            Some(e) => {
                let d = if args_of(&msg.args) == [b"rewritten".to_vec()] {
                    None
                } else {
                    let have = from_client(msg);
                    let mut a = strip(&have);
                    let mut b = strip(&e.m);
                    a.tags.sort();
                    b.tags.sort();
                    (a != b).then(|| format!("{a:?} but {b:?} is queued"))
                };
                d.map(|d| viol!("adjusted_wrong", "an adjuster was shown {d}"))
            }
        };
        if let Some(b) = bad {
            w.bad.get_or_insert(b);
            return true;
        }
        let mut m = M::default();
        let keep = self.rule.model(id, &mut m);
        if let Some((k, v)) = m.tags.pop() {
            msg.tags.edit().insert_pair(Key::from_bytes(k).unwrap(), NoNul::from_bytes(v).unwrap());
        }
        if !m.args.is_empty() {
            msg.args.edit().clear();
            msg.args.edit().add_word(Arg::from_str("rewritten"));
        }
        keep
    }
    fn reset(&mut self) {
        self.w.get().borrow_mut().log.push(E::Reset(self.rule.uid));
    }
}

fn from_client(m: &ClientMsg<'_>) -> M {
    let mut o = M { kind: m.cmd.as_bytes().to_vec(), args: args_of(&m.args), ..M::default() };
    // Tags cannot be iterated, so take them from the canonical text.
    let text = m.to_string();
    if let Some(t) = text.strip_prefix('@') {
        for kv in t.split(' ').next().unwrap_or("").split(';') {
            let k = kv.split('=').next().unwrap_or("").as_bytes().to_vec();
            let v = Key::from_bytes(k.clone()).ok().and_then(|k| m.tags.get(k).map(|v| v.as_bytes().to_vec()));
            o.tags.push((k, v.unwrap_or_default()));
        }
    }
    o
}

fn num(msg: &ServerMsg<'_>) -> u64 {
    msg.args.split_last().1.and_then(|a| a.to_utf8_lossy().parse().ok()).unwrap_or(u64::MAX)
}

impl World {
    /// Accounts for everything the transport has accepted.
    fn sync(&mut self, net: &Net) -> Res {
        let lines: Vec<Vec<u8>> = net.with(|n| {
            let mut v = Vec::new();
            while let Some(i) = n.tx[self.seen_tx..].iter().position(|c| *c == b'\n') {
                v.push(n.tx[self.seen_tx..self.seen_tx + i + 1].to_vec());
                self.seen_tx += i + 1;
            }
            v
        });
        for l in lines {
            let Some(e) = self.queue.pop_front() else { bail!("sent_extra", "a line was sent with nothing queued: {}", show(&l)) };
            let mut want = e.m.canon();
            want.extend(b"\r\n");
            ensure!(l == want, "sent_wrong", "sent {} but the front of the queue was {}", show(&l), show(&want));
            checked(1);
        }
        Ok(())
    }
    fn new_msg(&mut self) -> Entry {
        let id = self.next_id;
        self.next_id += 1;
        let mut m = M::new(pick(&["PRIVMSG", "NOTICE", "X"]));
        if self.odd && chance(1, 4) {
            for _ in 0..below(3) {
                let k = loop {
                    // Text-safe keys: the adjuster reads them back from text.
                    let k = gen_key(false);
                    if !k.starts_with(b"+r") && k != b"+id" && k != b"label" {
                        break k;
                    }
                };
                if m.tags.iter().all(|t| t.0 != k) {
                    m.tags.push((k, gen_value(true)));
                }
            }
        }
        m.tags.push((b"+id".to_vec(), id.to_string().into_bytes()));
        if chance(1, 20) {
            m.tags.push((b"label".to_vec(), b"stale".to_vec()));
        }
        for _ in 0..below(3) {
            m.args.push(gen_word(self.odd));
        }
        if coin() {
            m.args.push(gen_line(self.odd));
        }
        Entry { id, m }
    }
    fn labelled(&mut self, e: &mut Entry, got: Option<Vec<u8>>) -> Res {
        checked(1);
        match (self.labeler, got) {
            (None, None) => {
                ensure!(self.made.is_empty(), "label", "a removed labeler was used");
            }
            (None, Some(l)) => bail!("label_none", "label {} returned without a labeler", show(&l)),
            (Some(_), None) => bail!("label_missing", "no label returned although a labeler is installed"),
            (Some(custom), Some(l)) => {
                if custom {
                    ensure!(
                        self.made.len() == 1 && self.made[0] == l,
                        "label_other",
                        "returned label {} but the labeler made {:?}",
                        show(&l),
                        self.made.iter().map(|x| show(x)).collect::<Vec<_>>()
                    );
                    self.made.clear();
                } else {
                    ensure!(!l.is_empty() && l.len() <= 64, "label_form", "label {} is empty or longer than the protocol allows", show(&l));
                    ensure!(self.labels.insert(l.clone()), "label_repeat", "label {} was used twice", show(&l));
                }
                e.m.tags.retain(|t| t.0 != b"label");
                e.m.tags.push((b"label".to_vec(), l));
            }
        }
        Ok(())
    }
    /// The calls a message must cause, and their effect on the model queue.
    fn adjusted(&mut self, n: u64) -> Res {
        let mut want: Vec<E> = self.rules.iter().map(|r| E::Should(r.uid, n)).collect();
        let active: Vec<Rule> = self.rules.iter().filter(|r| r.active(n)).copied().collect();
        let mut last_should = 0;
        for (i, e) in self.log.iter().enumerate() {
            match e {
                E::Should(..) => last_should = i,
                E::Update(..) => ensure!(
                    self.log[i..].iter().all(|e| matches!(e, E::Update(..))),
                    "adjust_order",
                    "a message was updated before every adjuster had been asked: {:?}",
                    self.log
                ),
                E::Reset(_) => {}
            }
        }
        let _ = last_should;
        if !active.is_empty() {
            for e in &self.queue {
                want.extend(active.iter().map(|r| E::Update(r.uid, e.id)));
            }
            if !self.queue.is_empty() {
                probe("adjusted_queue");
            }
            self.queue.retain_mut(|e| {
                let mut keep = true;
                for r in &active {
                    keep &= r.model(e.id, &mut e.m);
                }
                if !keep {
                    probe("removed_by_adjuster");
                }
                keep
            });
        }
        let mut got = std::mem::take(&mut self.log);
        got.sort();
        want.sort();
        ensure!(got == want, "adjust_calls", "for server message {n} the adjusters got {got:?}, expected {want:?}");
        if let Some(b) = self.bad.take() {
            return Err(b);
        }
        checked(1);
        Ok(())
    }
    fn quiet(&mut self, what: &str) -> Res {
        if let Some(b) = self.bad.take() {
            return Err(b);
        }
        ensure!(self.log.is_empty(), "adjust_stray", "{what}: adjusters were called without a new message: {:?}", self.log);
        Ok(())
    }
}

/// Random edits through a guard.
fn edit(w: &W, q: &mut QueueEditGuard<'_>, depth: u64) -> Res {
    let base = w.borrow().queue.len();
    for _ in 0..below(5) {
        match below(8) {
            0 | 1 | 2 => {
                let e = w.borrow_mut().new_msg();
                ev!("push {}", show(&e.m.canon()));
                q.push(e.m.to_client());
                w.borrow_mut().queue.push_back(e);
            }
            3 | 4 => {
                let mut e = w.borrow_mut().new_msg();
                let got = q.push_labeled(e.m.to_client()).map(|l| l.as_bytes().to_vec());
                let mut w = w.borrow_mut();
                w.labelled(&mut e, got)?;
                ev!("push labelled {}", show(&e.m.canon()));
                w.queue.push_back(e);
            }
            5 => {
                q.clear();
                ev!("clear guard");
                probe("guard_clear");
                w.borrow_mut().queue.truncate(base);
            }
            6 if depth < 3 => {
                let mut g = q.edit();
                edit(w, &mut g, depth + 1)?;
            }
            _ => {
                let w = w.borrow();
                ensure!(q.is_using_labeler() == w.labeler.is_some(), "is_labeler", "guard says labeler: {}", q.is_using_labeler());
            }
        }
        let n = w.borrow().queue.len() - base;
        ensure!(q.len() == n && q.is_empty() == (n == 0), "guard_len", "guard reports {} added messages, expected {n}", q.len());
    }
    Ok(())
}

fn own_edit(w: &W, q: &mut QueueEditGuard<'_>) {
    probe("edit_in_callback");
    if let Err(v) = edit(w, q, 0) {
        w.borrow_mut().bad.get_or_insert(v);
    }
}

fn set_labeler(w: &W, q: &mut Queue) {
    let mut g = w.borrow_mut();
    g.labels.clear();
    g.made.clear();
    match below(3) {
        0 => {
            q.use_no_labeler();
            g.labeler = None;
        }
        1 => {
            q.use_labeler_default();
            g.labeler = Some(false);
        }
        _ => {
            let st = Loc::new(w.clone());
            let style = below(4);
            let mut k = 0u64;
            q.use_labeler(move || {
                k += 1;
                let l = match style {
                    0 => format!("l{k}"),
                    1 => format!("; \\\r\n:{k}\\"),
                    2 => String::new(),
                    _ => "same".into(),
                };
                st.get().borrow_mut().made.push(l.clone().into_bytes());
                NoNul::from_bytes(l.into_bytes()).unwrap()
            });
            g.labeler = Some(true);
        }
    }
    ev!("labeler {:?}", g.labeler);
}
fn set_adjuster(w: &W, q: &mut Queue) {
    let n = *pick(&[1u64, 0, 2, 3]);
    let mut rules = Vec::new();
    for _ in 0..n {
        let mut g = w.borrow_mut();
        g.next_rule += 1;
        rules.push(Rule::any(g.next_rule));
    }
    ev!("adjusters {:?}", rules);
    let adj = |r: &Rule| Adj { rule: *r, w: Loc::new(w.clone()) };
    match n {
        0 if coin() => {
            q.use_no_adjuster();
        }
        1 if coin() => {
            q.use_adjuster(adj(&rules[0]));
        }
        _ => {
            let m: MultiAdjuster = match below(3) {
                0 => {
                    let mut m = MultiAdjuster::new();
                    if coin() {
                        // Removed before they are used.
                        m.add(adj(&Rule::any(u64::MAX)));
                        m.clear();
                    }
                    for r in &rules {
                        m.add(adj(r));
                    }
                    m
                }
                1 if n > 1 => {
                    // Collections may hold others.
                    probe("nested_adjusters");
                    let i = below(n) as usize;
                    let inner: MultiAdjuster = rules[i..].iter().map(|r| Box::new(adj(r)) as Box<dyn Adjuster>).collect();
                    assert_eq!(inner.len(), rules.len() - i);
                    let mut m = MultiAdjuster::default();
                    for r in &rules[..i] {
                        m.add(adj(r));
                    }
                    m.add(inner);
                    q.use_adjuster(m);
                    w.borrow_mut().rules = rules;
                    return;
                }
                _ => rules.iter().map(|r| Box::new(adj(r)) as Box<dyn Adjuster>).collect(),
            };
            assert!(m.len() == rules.len() && m.is_empty() == rules.is_empty(), "{} adjusters in a collection of {}", rules.len(), m.len());
            q.use_adjuster(m);
        }
    }
    w.borrow_mut().rules = rules;
}

fn server_line(n: u64) -> M {
    M::new(["PRIVMSG", "NICK", "005"][(n % 3) as usize]).arg("me").arg(n.to_string())
}

fn run() -> Res {
    let kind = Kind::any();
    let net = Net::new(Faults::any());
    let w: W = Rc::new(RefCell::new(World { odd: coin(), ..World::default() }));
    let late = swarm();
    let mut n_msg = 0u64;
    let mut t = 0u64;
    let n_ops = range(1, 16);
    let read_to = chance(1, 3).then(|| Duration::from_secs(range(1, 4)));
    block_on(kind.tokio, async {
        set_late(late);
        let mut logic = ClientLogic::new();
        if chance(1, 4) {
            let es: Vec<Entry> = (0..below(5)).map(|_| w.borrow_mut().new_msg()).collect();
            let v: Vec<_> = es.iter().map(|e| e.m.to_client()).collect();
            logic = logic.with_queue(match below(3) {
                0 => Queue::from(v),
                1 => {
                    // Wrapped around in its buffer.
                    let mut d = std::collections::VecDeque::with_capacity(8);
                    for _ in 0..below(8) {
                        d.push_back(M::new("X").to_client());
                        d.pop_front();
                    }
                    d.extend(v);
                    Queue::from(d)
                }
                _ => v.into_iter().collect(),
            });
            w.borrow_mut().queue.extend(es);
        }
        let mut cl = Cl::new(&net, kind, logic);
        cl.set_read_timeout(read_to);
        if chance(1, 3) {
            let st = Loc::new((w.clone(), net.clone()));
            cl.set_timeout_fn(Some(move |l: &mut ClientLogic| {
                let (w, net) = st.get();
                let r = w.borrow_mut().sync(net);
                if let Err(v) = r {
                    w.borrow_mut().bad.get_or_insert(v);
                }
                own_edit(w, &mut l.queue_mut().edit());
                ControlFlow::Break(())
            }));
        }
        let mut handlers = 0usize;
        let mut rxs = Vec::new();
        // Half of the runs start from a situation in which adjusters have work to do.
        let mut pre: Vec<u64> = if coin() { vec![11, 2, 4, 2, 0, 5, 1, 6] } else { Vec::new() };
        for _ in 0..n_ops + pre.len() as u64 {
            step();
            match pre.pop().unwrap_or_else(|| below(14)) {
                0 => set_labeler(&w, cl.queue()),
                1 => set_adjuster(&w, cl.queue()),
                2 | 3 => edit(&w, &mut cl.queue().edit(), 0)?,
                4 => {
                    // Server messages that arrive later.
                    for _ in 0..range(1, 4) {
                        t = t.max(now()) + *pick(&[0u64, 1, 500, 1500, 6000]) * MS;
                        crate::props::c01::send_split(&net, &mut t, &server_line(n_msg).line(), 100);
                        n_msg += 1;
                    }
                }
                5 if handlers < 3 => {
                    let (w1, net1, w2) = (w.clone(), net.clone(), w.clone());
                    let mut left = range(1, 9);
                    let mut h = FnH::<u8>::new(move |m, _, q, s| {
                        let n = num(m);
                        ev!("handler sees {}", n);
                        let mut r = w1.borrow_mut().sync(&net1);
                        if r.is_ok() && w1.borrow().last.map_or(true, |l| l < n) {
                            let mut g = w1.borrow_mut();
                            r = g.adjusted(n);
                            g.last = Some(n);
                        }
                        if r.is_ok() {
                            r = w1.borrow_mut().quiet("handler");
                        }
                        if let Err(v) = r {
                            w1.borrow_mut().bad.get_or_insert(v);
                            return ControlFlow::Break(());
                        }
                        if coin() {
                            own_edit(&w1, q);
                        }
                        if coin() {
                            let _ = s.send(0);
                        }
                        left -= 1;
                        if left == 0 {
                            ControlFlow::Break(())
                        } else {
                            ControlFlow::Continue(())
                        }
                    });
                    if coin() {
                        h.on_add = Some(Box::new(move |_, mut q| own_edit(&w2, &mut q)));
                    }
                    rxs.push(cl.add((), h).unwrap().1);
                    handlers += 1;
                }
                6 => {
                    let d = Duration::from_millis(*pick(&[0u64, 1, 700, 2000, 9000]));
                    let b = below(5) as u32;
                    ev!("rate {:?} {}", d, b);
                    cl.queue().set_rate_limit(d, b);
                }
                7 => match below(4) {
                    0 => {
                        ev!("clear queue");
                        cl.queue().clear();
                        w.borrow_mut().queue.clear();
                    }
                    1 => {
                        let es: Vec<Entry> = (0..below(4)).map(|_| w.borrow_mut().new_msg()).collect();
                        cl.queue().extend(es.iter().map(|e| e.m.to_client()));
                        ev!("extend {}", es.len());
                        w.borrow_mut().queue.extend(es);
                    }
                    2 => {
                        // Taking a message by hand.
                        let got = cl.queue().pop(|_| ());
                        if let Some(m) = got {
                            let e = w.borrow_mut().queue.pop_front();
                            let Some(e) = e else { bail!("pop_extra", "popped from an empty queue: {m}") };
                            if let Some(d) = e.m.diff_client(&m) {
                                bail!("pop_wrong", "popped message differs from the front of the queue: {d}");
                            }
                            checked(1);
                        }
                    }
                    _ => {
                        // The application can feed the adjuster itself.
                        let n = 1_000_000 + n_msg;
                        cl.queue().adjust(&server_line(n).to_server());
                        w.borrow_mut().adjusted(n)?;
                    }
                },
                8 if chance(1, 4) => {
                    // Many labels from one labeler.
                    let k = if chance(1, 400) { 70_000 } else { range(2, 600) };
                    probe(if k > 65_536 { "bulk_labels_70000" } else { "bulk_labels" });
                    let mut g = cl.queue().edit();
                    let base = M::new("X").arg("bulk").to_client();
                    for _ in 0..k {
                        let l = g.push_labeled(base.clone()).map(|l| l.as_bytes().to_vec());
                        let mut e = Entry { id: 0, m: M::default() };
                        w.borrow_mut().labelled(&mut e, l)?;
                    }
                    ensure!(g.len() == k as usize, "guard_len", "guard reports {} added messages, expected {k}", g.len());
                    g.clear();
                    ensure!(g.is_empty(), "guard_len", "guard reports {} added messages after clear", g.len());
                }
                9 if chance(1, 5) => {
                    cl.queue().reset();
                    ev!("queue reset");
                    let mut g = w.borrow_mut();
                    g.queue.clear();
                    g.labeler = None;
                    g.made.clear();
                    let mut got = std::mem::take(&mut g.log);
                    got.sort();
                    got.dedup();
                    let want: Vec<E> = g.rules.iter().map(|r| E::Reset(r.uid)).collect();
                    ensure!(got == want, "adjust_reset", "queue reset: adjusters got {got:?}, expected {want:?}");
                }
                10 => pause(kind.tokio, range(0, 9000) * MS).await,
                _ => {
                    if !cl.needs_run() {
                        continue;
                    }
                    if handlers > 0 && net.with(|n| n.rx_empty()) && read_to.is_none() && coin() {
                        let _ = cl.flush(&net).await;
                        if net.with(|n| n.blocked_forever) {
                            return Ok(());
                        }
                    } else {
                        let cancel = chance(1, 4).then(|| (range(1, 30), now() + range(0, 9000) * MS));
                        let r = cl.run(&net, cancel).await;
                        after(&w, &net, &r, &mut handlers)?;
                        if matches!(r, Ran::Forever) {
                            break;
                        }
                    }
                }
            }
            let mut g = w.borrow_mut();
            if let Some(b) = g.bad.take() {
                return Err(b);
            }
            g.quiet("op")?;
            g.sync(&net)?;
            let n = g.queue.len();
            let needs = cl.needs_run();
            let q = cl.queue();
            ensure!(q.len() == n && q.is_empty() == (n == 0), "queue_len", "the queue holds {} messages, expected {n}", q.len());
            ensure!(needs || (n == 0 && handlers == 0), "needs_run", "needs_run is false with {n} queued messages and {handlers} handlers");
            ensure!(q.is_using_labeler() == g.labeler.is_some(), "is_labeler", "queue says labeler: {}", q.is_using_labeler());
        }
        // Drain.
        net.with(|n| n.blocked_forever = false);
        cl.set_timeout_fn(None::<fn(&mut ClientLogic) -> ControlFlow<()>>);
        cl.set_read_timeout(Some(Duration::from_secs(60)));
        for _ in 0..600 {
            step();
            if !cl.needs_run() {
                break;
            }
            let r = cl.run(&net, None).await;
            after(&w, &net, &r, &mut handlers)?;
            match r {
                Ran::Timeout if net.with(|n| n.rx_empty()) => break,
                Ran::Forever => break,
                _ => {}
            }
        }
        let mut g = w.borrow_mut();
        g.sync(&net)?;
        g.quiet("end")?;
        let left = cl.queue().len();
        ensure!(left == 0, "not_drained", "{left} messages are still queued after draining");
        ensure!(g.queue.is_empty(), "lost", "{} queued messages were never sent, first: {}", g.queue.len(), show(&g.queue[0].m.canon()));
        Ok(())
    })
}

fn after(w: &W, net: &Net, r: &Ran, handlers: &mut usize) -> Res {
    let mut g = w.borrow_mut();
    if let Some(b) = g.bad.take() {
        return Err(b);
    }
    g.sync(net)?;
    g.quiet("run")?;
    match r {
        Ran::Done(_, f) => *handlers -= f.len(),
        Ran::Err(e) if e.kind() == std::io::ErrorKind::TimedOut => {}
        Ran::Err(e) => bail!("run_error", "run failed on a working connection: {:?}", e.kind()),
        _ => {}
    }
    Ok(())
}
