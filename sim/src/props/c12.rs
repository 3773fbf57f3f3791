//! C12: a reset client behaves like a new one on its next connection.
use super::c01::send_split;
use super::c05::*;
use crate::cl::*;
use crate::core::*;
use crate::hand::FnH;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::{AnyMech, Cfg, Reg, Srv};
use crate::{ensure, ev};
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::handlers::*;
use vinezombie::client::queue::{Adjuster, Queue};
use vinezombie::client::register::*;
use vinezombie::client::{state, ClientLogic};
use vinezombie::ircmsg::{ClientMsg, ServerMsg, Source};
use vinezombie::names::{cmd, NameMap};
use vinezombie::string::{Key, Line, Nick, Word};

pub const PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 60_000,
    thorough: 2_000_000,
    max_steps: 1_000_000,
    rule: "each run: a client with a random configuration lives through a random first connection (registration, queued and labelled messages, handlers of every kind, adjuster, shared state, half-received lines, rate-limit debt, time limits, segmentation, stalls, write and read errors, runs cancelled even in the middle of a write) and is reset at an arbitrary point, with a new connection or keeping the old one; then the same script of pushes, handlers, runs, pauses and server lines is executed by it and by a fresh client with the same configuration, and everything sent (with its time), delivered, reported and stored is compared; non-trivial = the two logs were compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "the fresh client was configured long enough ago for its rate limit to have full credit, as after a reset",
        "a reset that keeps the connection happens when the transport has nothing buffered that belongs to the old session",
    ],
};

/// Counts matching messages and stamps queued ones with the count.
struct Stamp {
    every: u64,
    seen: u64,
    on: bool,
}
impl Adjuster for Stamp {
    fn should_adjust(&mut self, msg: &ServerMsg<'_>) -> bool {
        self.seen += 1;
        let _ = msg;
        self.on = self.seen % self.every == 0;
        self.on
    }
    fn update(&mut self, msg: &mut ClientMsg<'_>) -> bool {
        let mut e = msg.tags.edit();
        e.insert_pair(Key::from_str("+stamp"), vinezombie::string::NoNul::from_bytes(self.seen.to_string().into_bytes()).unwrap());
        !(self.seen % 7 == 0)
    }
    fn reset(&mut self) {
        self.seen = 0;
        self.on = false;
    }
}

#[derive(Clone, Debug)]
struct Conf {
    rate: Option<(u64, u32)>,
    rto: Option<u64>,
    wto: Option<u64>,
    adjust: Option<u64>,
    multi: bool,
    on_timeout: u64,
}
impl Conf {
    fn any() -> Conf {
        Conf {
            rate: coin().then(|| *pick(&[(0u64, 0u32), (100, 10), (3000, 1), (500, 0), (40, 60)])),
            rto: coin().then(|| *pick(&[700u64, 4000, 30_000])),
            wto: coin().then(|| *pick(&[500u64, 5000])),
            adjust: coin().then(|| range(1, 4)),
            multi: coin(),
            on_timeout: below(3),
        }
    }
    fn limits(&self, cl: &mut Cl) {
        cl.set_read_timeout(self.rto.map(Duration::from_millis));
        cl.set_write_timeout(self.wto.map(Duration::from_millis));
        match self.on_timeout {
            0 => cl.set_timeout_fn(None::<fn(&mut ClientLogic) -> ControlFlow<()>>),
            1 => cl.set_timeout_fn(Some(|l: &mut ClientLogic| {
                l.queue_mut().edit().push(text("on-timeout"));
                ControlFlow::Continue(())
            })),
            _ => cl.set_timeout_fn(Some(|_: &mut ClientLogic| ControlFlow::Break(()))),
        }
    }
    fn rate(&self, q: &mut Queue) {
        if let Some((d, b)) = self.rate {
            q.set_rate_limit(Duration::from_millis(d), b);
        }
    }
    fn adjuster(&self, q: &mut Queue) {
        if let Some(n) = self.adjust {
            let s = Stamp { every: n, seen: 0, on: false };
            if self.multi {
                let mut m = vinezombie::client::queue::MultiAdjuster::new();
                m.add(s);
                m.add(Stamp { every: n + 1, seen: 0, on: false });
                q.use_adjuster(m);
            } else {
                q.use_adjuster(s);
            }
        }
    }
    fn apply(&self, cl: &mut Cl) {
        self.limits(cl);
        let q = cl.queue();
        self.rate(q);
        self.adjuster(q);
    }
}

fn text(s: &str) -> ClientMsg<'static> {
    let mut m = ClientMsg::new(cmd::PRIVMSG);
    let mut e = m.args.edit();
    e.add_word(vinezombie::string::Arg::from_bytes(b"#c".to_vec()).unwrap());
    e.add(Line::from_bytes(s.as_bytes().to_vec()).unwrap());
    drop(e);
    m
}

// ---------- the script both clients execute ----------

#[derive(Clone, Copy, Debug)]
enum H {
    /// Logs messages; wants owned ones or not; stops after so many.
    Log(bool, u64),
    /// Answers each PRIVMSG with a queued message and records something in the state.
    Answer,
    Pong,
    Version,
    Track,
    Yield,
    Parsed,
    Register,
}
#[derive(Clone, Debug)]
enum Op {
    Push(u64),
    Label(u64),
    Labeler(bool),
    Add(H),
    Run(u64),
    Pause(u64),
    Clear,
    Set(Box<Conf>),
    SetSource,
}
#[derive(Clone)]
struct Script {
    ops: Vec<Op>,
    feed: Vec<(u64, Vec<u8>)>,
    end: u64,
    f: Faults,
    stall: Option<(u64, u64)>,
    opts: Opts,
    bot: bool,
}

fn server_line() -> Vec<u8> {
    let l: &[u8] = pick(&[
        &b":a!b@c PRIVMSG #c :hello\r\n"[..], b"PING :tok en\r\n", b":irc NOTICE * :*** x\r\n", b":a!b@c PRIVMSG me :\x01VERSION\x01\r\n", b":me!u@h NICK me2\r\n",
        b":me!u@h CHGHOST newu new.host\r\n", b"@label=x :irc 005 me HOSTLEN=30 :are supported\r\n", b":irc 302 me me=+u@h\r\n", b"\r\n", b":irc PONG irc :x\r\n",
    ]);
    l.to_vec()
}
fn script() -> Script {
    let mut ops = Vec::new();
    let h = |reg: bool| -> H {
        match below(if reg { 8 } else { 7 }) {
            0 => H::Log(coin(), below(6)),
            1 => H::Answer,
            2 => H::Pong,
            3 => H::Version,
            4 => H::Track,
            5 => H::Yield,
            6 => H::Parsed,
            _ => H::Register,
        }
    };
    let mut reg = true;
    let mut t = 0;
    let early = chance(2, 5);
    if early {
        // First of all register, as a reconnecting client does.
        reg = false;
        t = *pick(&[60_000u64, 200, 20_000]);
        if chance(1, 3) {
            ops.push(Op::Add(H::Log(coin(), 0)));
        }
        ops.push(Op::Add(H::Register));
        ops.push(Op::Run(range(2, 24)));
    }
    for _ in 0..range(2, 14) {
        ops.push(match below(12) {
            0 | 1 => Op::Push(range(1, 8)),
            2 => Op::Label(range(1, 3)),
            3 => Op::Labeler(coin()),
            4 | 5 => {
                let x = h(reg);
                if let H::Register = x {
                    reg = false;
                }
                Op::Add(x)
            }
            6 | 7 | 8 => Op::Run(range(1, 6)),
            9 => Op::Pause(*pick(&[1u64, 400, 2500, 20_000])),
            10 => pick(&[Op::Clear, Op::SetSource]).clone(),
            _ => Op::Set(Box::new(Conf::any())),
        });
    }
    ops.push(Op::Run(range(1, 8)));
    let mut feed = Vec::new();
    for _ in 0..below(14) {
        let l = server_line();
        t += *pick(&[0u64, 0, 1, 60, 1500, 6000]);
        if !early && chance(1, 4) && l.len() > 4 {
            let c = range(1, l.len() as u64 - 1) as usize;
            feed.push((t, l[..c].to_vec()));
            t += *pick(&[1u64, 900, 5000]);
            feed.push((t, l[c..].to_vec()));
        } else {
            feed.push((t, l));
        }
    }
    let mut f = Faults::none();
    f.rchunk = *pick(&[Chunk::Whole, Chunk::One]);
    f.wchunk = *pick(&[Chunk::Whole, Chunk::One]);
    f.buffered = coin();
    f.would_block = coin();
    let mut cfg = Cfg::plain();
    let bot = coin();
    let (mut opts, _) = gen_opts(&mut cfg, true);
    if opts.nicks.is_empty() {
        opts.nicks.push(nick("me"));
    }
    if opts.username.is_none() {
        opts.username = Some(vinezombie::string::User::from_bytes(b"user".to_vec()).unwrap());
    }
    opts.caps.clear();
    if !bot && coin() {
        opts.sasl.push(AnyMech::Plain(vec![], b"acc".to_vec(), b"pw".to_vec()));
        opts.allow_sasl_fail = true;
    }
    let end = t + *pick(&[0u64, 10, 4000, 40_000]);
    let stall = chance(1, 4).then(|| {
        let a = below(5000);
        (a, a + *pick(&[200u64, 3000, 20_000]))
    });
    Script { ops, feed, end, f, stall, opts, bot }
}
type LogV = Rc<RefCell<Vec<String>>>;

/// A registration peer without any choices of its own.
fn responder(sasl: bool) -> impl FnMut(&[u8], &mut PeerIo) {
    let mut nick = b"*".to_vec();
    let mut user = false;
    let mut cap = false;
    move |l, io| {
        let c = parse_client(l);
        let n = String::from_utf8_lossy(&nick).into_owned();
        let mut say = |s: String| io.send(20 * MS, format!("{s}\r\n"));
        let mut done = false;
        match &c.cmd[..] {
            "CAP" if c.args.first().map(|x| &x[..]) == Some(b"LS") => {
                cap = true;
                say(format!(":irc.sim CAP {n} LS :echo-message account-notify message-tags{}", if sasl { " sasl=PLAIN" } else { "" }))
            }
            "CAP" if c.args.first().map(|x| &x[..]) == Some(b"REQ") => {
                say(format!(":irc.sim CAP {n} ACK :{}", String::from_utf8_lossy(&c.args.get(1).cloned().unwrap_or_default())))
            }
            "CAP" if c.args.first().map(|x| &x[..]) == Some(b"END") => {
                cap = false;
                done = true;
            }
            "NICK" => {
                nick = c.args.first().cloned().unwrap_or_default();
                done = true;
            }
            "USER" => {
                user = true;
                done = true;
            }
            "AUTHENTICATE" if c.args.first().map(|x| &x[..]) == Some(b"PLAIN") => say("AUTHENTICATE +".into()),
            "AUTHENTICATE" => {
                say(format!(":irc.sim 900 {n} {n}!u@h.example acc :You are now logged in"));
                say(format!(":irc.sim 903 {n} :SASL ok"));
            }
            "PING" => say(format!(":irc.sim PONG irc.sim :{}", String::from_utf8_lossy(&c.args.last().cloned().unwrap_or_default()))),
            _ => {}
        }
        if done && user && !cap && nick != b"*" {
            user = false;
            let n = String::from_utf8_lossy(&nick).into_owned();
            say(format!(":irc.sim 001 {n} :Welcome {n}!u@h.example"));
            say(format!(":irc.sim 004 {n} irc.sim ver-1 a b"));
            say(format!(":irc.sim 005 {n} NICKLEN=20 HOSTLEN=40 :are supported"));
            say(format!(":irc.sim 422 {n} :No MOTD"));
        }
    }
}

fn dump(cl: &mut Cl) -> String {
    let q = cl.queue();
    let (ql, lab) = (q.len(), q.is_using_labeler());
    let s = cl.state();
    let sl = s.source_len().get();
    let acc = s.get::<state::Account>().map(|x| x.as_ref().map(|y| y.to_string()));
    let ver = s.get::<state::ServerVersion>().map(|x| x.to_string());
    let ss = s.get::<state::ServerSource>().map(|x| x.to_string());
    format!(
        "queue {ql} labeler {lab} needs_run {} source {:?} len {sl} account {acc:?} version {ver:?} server {ss:?} caps {:?} tokens {:?}",
        cl.needs_run(),
        source_of(cl),
        caps_of(cl),
        tokens_of(cl)
    )
}

/// Executes the script and returns what could be observed.
async fn perform(cl: &mut Cl, net: &Net, s: &Script, tokio_mode: bool, who: &str) -> Vec<String> {
    let t0 = now();
    let log: LogV = Rc::default();
    net.with(|n| {
        n.f = s.f;
        n.sorted = true;
        n.stalls = s.stall.iter().map(|(a, b)| (t0 + a * MS, t0 + b * MS)).collect();
    });
    let sasl = !s.opts.sasl.is_empty();
    net.set_peer(responder(sasl));
    let sent0 = net.with(|n| (n.tx.len(), n.tx_marks.len()));
    for (t, b) in &s.feed {
        net.push_at(t0 + t * MS, Item::Bytes(b.clone()));
    }
    net.push_at(t0 + s.end * MS, Item::Eof);
    let add = |l: &LogV, x: String| l.borrow_mut().push(format!("{} {x}", (now() - t0) / 1000));
    let mut rxs: Vec<Box<dyn FnMut() -> Option<String>>> = Vec::new();
    ev!("{} starts: {}", who, dump(cl));
    add(&log, dump(cl));
    let mut seq = 0;
    let mut dead = false;
    for op in &s.ops {
        match op {
            Op::Push(n) => {
                for _ in 0..*n {
                    seq += 1;
                    cl.queue().edit().push(text(&format!("m{seq}")));
                }
            }
            Op::Label(n) => {
                for _ in 0..*n {
                    seq += 1;
                    let mut r = cl.queue().edit().push_labeled(text(&format!("l{seq}"))).map(|x| x.to_string());
                    add(&log, format!("label {:?}", r.take()));
                }
            }
            Op::Labeler(true) => {
                cl.queue().use_labeler_default();
            }
            Op::Labeler(false) => {
                let mut k = 0;
                cl.queue().use_labeler(move || {
                    k += 1;
                    vinezombie::string::NoNul::from_bytes(format!("own{k}").into_bytes()).unwrap()
                });
            }
            Op::Clear => cl.queue().clear(),
            Op::Set(c) => {
                c.limits(cl);
                c.rate(cl.queue());
            }
            Op::SetSource => cl.state_mut().insert::<state::ClientSource>(Source { nick: Nick::from_bytes(b"me".to_vec()).unwrap(), userhost: None }),
            Op::Pause(ms) => pause(tokio_mode, ms * MS).await,
            Op::Add(h) => {
                let l2 = log.clone();
                macro_rules! q {
                    ($e:expr, $f:expr) => {
                        match $e {
                            Ok((id, mut r)) => {
                                add(&log, format!("added {id}"));
                                rxs.push(Box::new(move || match r.get() {
                                    Got::Val(v) => Some($f(v)),
                                    _ => None,
                                }));
                            }
                            Err(_) => add(&log, "not added".into()),
                        }
                    };
                }
                match *h {
                    H::Log(own, stop) => {
                        let mut left = stop;
                        q!(
                            cl.add(
                                (),
                                FnH::<u64>::new(move |m, st, _, ch| {
                                    l2.borrow_mut().push(format!("{} got {m} len {}", (now() - t0) / 1000, st.source_len()));
                                    left = left.saturating_sub(1);
                                    if stop > 0 && left == 0 {
                                        let _ = ch.send(7);
                                        return ControlFlow::Break(());
                                    }
                                    ControlFlow::Continue(())
                                })
                                .owning(move || own)
                            ),
                            |v: u64| format!("{v}")
                        )
                    }
                    H::Answer => q!(
                        cl.add(
                            (),
                            FnH::<String>::new(move |m, st, q, ch| {
                                if m.kind == cmd::PRIVMSG {
                                    let had = st.get::<state::ServerVersion>().is_some();
                                    q.push(text(&format!("answer {had}")));
                                    let l = q.push_labeled(text("labelled answer")).map(|x| x.to_string());
                                    let _ = ch.send(format!("{l:?}"));
                                    st.insert::<state::ServerVersion>(vinezombie::string::Arg::from_bytes(b"recorded".to_vec()).unwrap());
                                }
                                ControlFlow::Continue(())
                            })
                        ),
                        |v: String| v
                    ),
                    H::Pong => {
                        let r = cl.add((), AutoPong).map(|x| x.0);
                        add(&log, format!("added {:?}", r.ok()));
                    }
                    H::Version => {
                        let l = |s: &str| Line::from_bytes(s.as_bytes().to_vec()).unwrap();
                        let r = cl.add((), CtcpVersion { version: l("v"), source: l("s") }).map(|x| x.0);
                        add(&log, format!("added {:?}", r.ok()));
                    }
                    H::Track => {
                        let r = cl.add((), TrackClientSource::new()).map(|x| x.0);
                        add(&log, format!("added {:?}", r.ok()));
                    }
                    H::Yield => q!(cl.add((), YieldAll), |v: ServerMsg<'static>| v.to_string()),
                    H::Parsed => q!(cl.add((), YieldParsed::just(cmd::PRIVMSG).with(cmd::NOTICE)), |v: vinezombie::ircmsg::TargetedMsg<'static, Line<'static>>| format!("{:?} {}", v.target, v.value)),
                    H::Register => {
                        let reg: Reg = if s.bot { register_as_bot() } else { register_as_client() };
                        q!(cl.add(&reg, &s.opts), |v: Result<(), HandlerError>| format!("{v:?}"));
                    }
                }
            }
            Op::Run(n) => {
                for _ in 0..*n {
                    if dead {
                        break;
                    }
                    let r = cl.run(net, None).await;
                    match r {
                        Ran::Done(y, f) => add(&log, format!("run yielded {y:?} finished {f:?}")),
                        Ran::Timeout => add(&log, "run timeout".into()),
                        Ran::Err(e) => {
                            add(&log, format!("run error {:?}", e.kind()));
                            dead = true;
                        }
                        Ran::Cancelled => {}
                        Ran::Forever => {
                            // Where it got stuck in time is an artefact.
                            log.borrow_mut().push("run never returns".into());
                            dead = true;
                        }
                    }
                    for (i, rx) in rxs.iter_mut().enumerate() {
                        while let Some(v) = rx() {
                            log.borrow_mut().push(format!("receiver {i}: {v}"));
                        }
                    }
                    if !dead {
                        add(&log, dump(cl));
                    }
                }
            }
        }
        if dead {
            break;
        }
    }
    // Everything that reached the wire, and when.
    net.with(|n| {
        let mut l = log.borrow_mut();
        l.push(format!("sent {}", String::from_utf8_lossy(&n.tx[sent0.0..])));
        let mut at = sent0.0;
        for (t, e) in &n.tx_marks[sent0.1..] {
            l.push(format!("sent {} bytes at {}", e - at, (t - t0) / 1000));
            at = *e;
        }
        l.push(format!("flushed to {}", n.delivered.saturating_sub(sent0.0)));
    });
    drop(rxs);
    Rc::try_unwrap(log).map(|x| x.into_inner()).unwrap_or_else(|r| r.borrow().clone())
}

/// Lets time pass to the next full second at least `ms` away.
async fn align(tokio_mode: bool, ms: u64) {
    let t = now() + ms * MS;
    let t = t.div_ceil(SEC) * SEC;
    pause(tokio_mode, t - now()).await;
}

fn run() -> Res {
    let kind = Kind::any_sock();
    let kind2 = Kind { tokio: kind.tokio, bidir: kind.bidir, sock: kind.sock, ..Kind::any() };
    let kind2 = Kind { tokio: kind.tokio, bidir: kind.bidir, tokio_chan: kind.tokio_chan, ..kind2 };
    let f = Faults::any();
    let s = script();
    set_late(swarm());
    let tm = kind.tokio;
    block_on(tm, async move {
        // ----- the first life -----
        let net = Net::new(f);
        let mut conf = Conf::any();
        Cl::dial(&net, kind).await;
        let mut cl = Cl::fresh(&net, kind);
        conf.apply(&mut cl);
        let over = Rc::new(Cell::new(false));
        let late_call = Rc::new(Cell::new(false));
        let mut old_rx: Vec<Box<dyn FnMut() -> u8>> = Vec::new();
        macro_rules! keep {
            ($e:expr) => {
                if let Ok((_, mut r)) = $e {
                    old_rx.push(Box::new(move || match r.get() {
                        Got::Val(_) => 0,
                        Got::Empty => 1,
                        Got::Closed => 2,
                    }));
                }
            };
        }
        let mut cfg = Cfg::any();
        let (mut o, _) = gen_opts(&mut cfg, false);
        for _ in 0..below(3) {
            let m = gen_mech();
            cfg.mechs.push(srv_mech(&m, coin()));
            o.sasl.push(m);
        }
        o.allow_sasl_fail = true;
        let mut reg_rx = None;
        let registers = coin();
        if registers {
            let srv = Rc::new(RefCell::new(Srv::new(cfg)));
            net.set_peer(move |l, io| srv.borrow_mut().on_line(l, io));
            let reg: Reg = register_as_client();
            if let Ok((_, r)) = cl.add(&reg, &o) {
                reg_rx = Some(r);
            }
        }
        if chance(1, 3) {
            let a = now() + below(8000) * MS;
            let b = a + *pick(&[300u64, 4000, 60_000]) * MS;
            net.with(|n| n.stalls.push((a, b)));
        }
        if chance(1, 4) {
            let at = below(200) as usize;
            let k = *pick(&[std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::ConnectionReset]);
            net.with(|n| n.fail_write_at = Some((at, k)));
        }
        let quiet = chance(1, 3);
        let mut t = now();
        let mid = swarm();
        let midwrite = tm && coin();
        let mut failed = false;
        let mut started = false;
        for _ in 0..below(16) {
            match below(12) {
                0 | 1 => {
                    let n = range(1, 6);
                    for i in 0..n {
                        cl.queue().edit().push(text(&format!("old {i} {}", "x".repeat(below(300) as usize))));
                    }
                }
                2 => {
                    cl.queue().edit().push_labeled(text("old labelled"));
                }
                3 => {
                    cl.queue().use_labeler_default();
                }
                4 | 5 => {
                    let (o2, l2) = (over.clone(), late_call.clone());
                    let own = coin();
                    let stop = chance(1, 4);
                    match below(5) {
                        0 | 1 => keep!(cl.add(
                            (),
                            FnH::<u64>::new(move |_, st, q, ch| {
                                l2.set(l2.get() || o2.get());
                                q.push(text("old reaction"));
                                let _ = ch.send(1);
                                st.insert::<state::ServerVersion>(vinezombie::string::Arg::from_bytes(b"old".to_vec()).unwrap());
                                if stop {
                                    ControlFlow::Break(())
                                } else {
                                    ControlFlow::Continue(())
                                }
                            })
                            .owning(move || own)
                        )),
                        2 => {
                            let _ = cl.add((), AutoPong);
                        }
                        3 => keep!(cl.add((), YieldAll)),
                        _ => {
                            let _ = cl.add((), TrackClientSource::new());
                        }
                    }
                }
                6 => {
                    let st = cl.state_mut();
                    st.insert::<state::ClientSource>(Source::parse(Word::from_bytes(b"oldnick!~olduser@old.host.example".to_vec()).unwrap()).unwrap());
                    let mut m = NameMap::new();
                    m.edit().insert((Key::from_str("HOSTLEN"), Word::from_bytes(b"30".to_vec()).unwrap()), ());
                    st.insert::<state::ISupport>(m);
                    st.insert::<state::Account>(Some(vinezombie::string::Arg::from_bytes(b"oldacc".to_vec()).unwrap()));
                    if coin() {
                        st.update_source_len();
                    }
                }
                7 if chance(1, 2) => {
                    // Reconfigured on the way.
                    let c = Conf::any();
                    c.apply(&mut cl);
                    if c.rate.is_none() {
                        conf = Conf { rate: conf.rate, ..c };
                    } else {
                        conf = c;
                    }
                    if conf.adjust.is_none() {
                        cl.queue().use_no_adjuster();
                    }
                }
                7 => pause(tm, *pick(&[1u64, 700, 12_000]) * MS).await,
                8 | 9 => {
                    for _ in 0..range(1, 4) {
                        t = t.max(now()) + *pick(&[0u64, 0, 50, 3000]) * MS;
                        let l = if coin() { server_line() } else { [&gen_server(coin()).encode()[..], b"\r\n"].concat() };
                        send_split(&net, &mut t, &l, mid);
                    }
                }
                _ => {
                    let runs = range(1, 4);
                    for _ in 0..runs {
                        if failed {
                            break;
                        }
                        started = true;
                        let cancel = (tm && coin()).then(|| (range(1, 60), now() + range(0, 9000) * MS));
                        set_midwrite(midwrite);
                        if conf.on_timeout == 1 && cancel.is_none() {
                            // A run that never gives up needs an end.
                            net.push_at(now() + 20 * SEC, Item::Eof);
                        }
                        if net.with(|n| n.rx_empty()) && cancel.is_none() && !quiet {
                            if chance(1, 3) {
                                net.push_at(now(), Item::Eof);
                            } else if chance(1, 3) {
                                net.push_at(now(), Item::Bytes(b":half a li".to_vec()));
                            }
                        }
                        let r = cl.run(&net, cancel).await;
                        set_midwrite(false);
                        failed |= matches!(r, Ran::Err(_) | Ran::Forever);
                    }
                }
            }
        }
        // A half-received line at the end.
        if !failed && chance(1, 3) && net.with(|n| n.rx_empty()) {
            probe("half_line_left");
            net.push_at(now(), Item::Bytes(b":old!old@old PRIVMSG #c :hal".to_vec()));
            if tm {
                let _ = cl.run(&net, Some((40, now() + 300 * MS))).await;
            } else if conf.rto.is_some() && conf.on_timeout == 0 {
                let _ = cl.run(&net, None).await;
            }
        }
        let _ = started;
        if net.with(|n| n.write_pending) {
            probe("reset_mid_write");
        }
        if cl.queue().len() > 0 {
            probe("unsent_queue");
        }
        set_late(0);
        // ----- reset -----
        over.set(true);
        let usable = net.with(|n| n.rx_empty() && !n.eof_seen && n.errs.is_empty() && n.broken.is_none() && !n.blocked_forever && !n.write_pending);
        let same = usable && kind.cap == 1 && !kind.sock && coin();
        let early = coin();
        let (rnet, mut cl) = if same {
            probe("same_connection");
            net.with(|n| {
                n.fail_write_at = None;
                n.stalls.clear();
            });
            align(tm, 0).await;
            cl.reset();
            (net.clone(), cl)
        } else {
            let n2 = Net::new(s.f);
            Cl::dial(&n2, kind2).await;
            if early {
                // Some time passes between the reset and the new session.
                if coin() {
                    cl.reset_with(&n2, kind2);
                } else {
                    cl = cl.with_new_conn(&n2, kind2);
                    cl.reset();
                }
                align(tm, *pick(&[0u64, 5000, 100_000])).await;
            } else {
                align(tm, 0).await;
                if coin() {
                    cl.reset_with(&n2, kind2);
                } else {
                    cl.reset();
                    cl = cl.with_new_conn(&n2, kind2);
                }
            }
            (n2, cl)
        };
        ev!("reset");
        for rx in &mut old_rx {
            let mut r = rx();
            while r == 0 {
                r = rx();
            }
            ensure!(r == 2, "still_open", "a handler's channel is still open after the reset");
        }
        if let Some(r) = reg_rx {
            // Returns at once unless the sender still exists.
            let _ = r.wait();
        }
        let a = perform(&mut cl, &rnet, &s, tm, "reset client").await;
        ensure!(!late_call.get(), "old_handler", "a handler of the old session was called after the reset");
        drop(cl);
        // ----- a fresh client -----
        let kf = if same { kind } else { kind2 };
        let fnet = Net::new(s.f);
        Cl::dial(&fnet, kf).await;
        let mut fr = Cl::fresh(&fnet, kf);
        conf.apply(&mut fr);
        align(tm, 400_000).await;
        let b = perform(&mut fr, &fnet, &s, tm, "fresh client").await;
        checked(a.len() as u64);
        for i in 0..a.len().max(b.len()) {
            let (x, y) = (a.get(i).map(|x| &x[..]).unwrap_or("nothing"), b.get(i).map(|x| &x[..]).unwrap_or("nothing"));
            ensure!(x == y, "differs", "step {i}: the reset client shows [{x}], a fresh one [{y}]");
        }
        if a.iter().any(|l| l.contains("receiver") && l.contains("Ok(())")) {
            probe("registered_again");
        }
        Ok(())
    })
}
