//! C14: each PING gets exactly one matching PONG; automatic replies never feed loops.
use crate::cl::*;
use crate::core::*;
use crate::hand::FnH;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::{Cfg, Game, Outcome, Reg};
use crate::{bail, ensure, ev};
use std::cell::RefCell;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::handlers::{AutoPong, CtcpVersion, Ping, YieldAll};
use vinezombie::client::register::*;
use vinezombie::client::ClientLogic;
use vinezombie::ircmsg::Source;
use vinezombie::string::Line;

pub const PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    max_steps: 400_000,
    rule: "each run is one of: a client with the PING and CTCP responders and latency probes (added at random times, beside other handlers) receiving random PINGs, PONGs, CTCP queries in PRIVMSGs and NOTICEs and other traffic under faults and rate limits; a registration with PINGs strewn in; or one to three such clients talking through a relay. Every line sent is compared, in order, with what a model of the responders queues as each message is processed, and each probe's result with the virtual time between creation and its PONG; non-trivial = at least one reply or probe compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["one PING responder is active at a time", "CTCP queries carry their closing \\x01"],
};

/// What the client is expected to send next.
#[derive(Clone, Debug)]
enum Exp {
    Line(String, Vec<Vec<u8>>),
    /// A latency probe, whose payload is the library's business.
    Probe(usize),
}
struct Probe {
    created: u64,
    payload: Option<Vec<u8>>,
    /// What it should report.
    result: Option<(u64, Option<Vec<u8>>)>,
    rx: Option<RxO<(Option<Source<'static>>, Duration)>>,
    done: bool,
}
#[derive(Default)]
struct Model {
    /// Everything put on the wire towards the client, in order.
    wire: Vec<M>,
    seen: usize,
    exp: Vec<Exp>,
    pong: bool,
    ctcp: Option<(Vec<u8>, Vec<u8>)>,
    probes: Vec<Probe>,
    replies: u64,
}
impl Model {
    /// The client processes its next message.
    fn process(&mut self) -> M {
        let m = self.wire[self.seen].clone();
        self.seen += 1;
        if self.pong && m.kind == b"PING" {
            self.exp.push(Exp::Line("PONG".into(), m.args.last().cloned().into_iter().collect()));
            self.replies += 1;
        }
        if let (Some((v, s)), Some(nick), b"PRIVMSG") = (&self.ctcp, &m.nick, &m.kind[..]) {
            if m.args.len() == 2 {
                let body = &m.args[1];
                for (cmd, ans) in [("VERSION", v), ("SOURCE", s)] {
                    if !ans.is_empty() && is_query(body, cmd) {
                        let text = [b"\x01", cmd.as_bytes(), b" ", ans, b"\x01"].concat();
                        self.exp.push(Exp::Line("NOTICE".into(), vec![nick.clone(), text]));
                        self.replies += 1;
                    }
                }
            }
        }
        if m.kind == b"PONG" {
            if let Some(a) = m.args.last() {
                // Probes made at the same instant are the same probe.
                let by_time: Vec<_> = self.probes.iter().filter_map(|p| Some((p.created, p.payload.clone()?))).collect();
                for p in &mut self.probes {
                    if p.payload.is_none() {
                        p.payload = by_time.iter().find(|x| x.0 == p.created).map(|x| x.1.clone());
                    }
                    if p.result.is_none() && p.payload.as_ref() == Some(a) {
                        p.result = Some((now() - p.created, m.source_bytes()));
                    }
                }
            }
        }
        m
    }
}
fn is_query(body: &[u8], cmd: &str) -> bool {
    let Some(r) = body.strip_prefix(b"\x01") else { return false };
    let e = r.iter().position(|c| matches!(c, b' ' | 1)).unwrap_or(r.len());
    r[..e].eq_ignore_ascii_case(cmd.as_bytes())
}

#[derive(Clone)]
struct St {
    net: Net,
    m: Rc<RefCell<Model>>,
}
impl St {
    fn new(f: Faults) -> St {
        St { net: Net::new(f), m: Rc::new(RefCell::new(Model::default())) }
    }
    fn observer(&self) -> FnH<()> {
        let (m, net) = (self.m.clone(), self.net.clone());
        FnH::<()>::new(move |msg, _, _, _| {
            // Payloads of the probes sent since.
            let lines = net.lines();
            {
                let mut m = m.borrow_mut();
                for (e, (_, l)) in m.exp.clone().iter().zip(&lines) {
                    if let Exp::Probe(p) = e {
                        m.probes[*p].payload = parse_client(l).args.last().cloned();
                    }
                }
            }
            let e = m.borrow_mut().process();
            ev!("client processes {} (wire: {})", msg, show(&e.canon()));
            ControlFlow::Continue(())
        })
    }
    fn send(&self, at: u64, m: M) {
        let mut b = m.encode();
        b.extend(pick(&[&b"\r\n"[..], b"\n", b"\r\n\r\n"]).iter());
        self.m.borrow_mut().wire.push(m);
        self.net.send_at(at, b);
    }
    /// Compares the lines sent so far with the expected ones; all of them if `all`.
    fn check(&self, all: bool) -> Res {
        let lines = self.net.lines();
        let mut m = self.m.borrow_mut();
        for (i, (_, l)) in lines.iter().enumerate() {
            let c = parse_client(l);
            let Some(e) = m.exp.get(i).cloned() else {
                bail!("unexpected", "the client sent {} which nothing called for", show(l));
            };
            match e {
                Exp::Line(k, a) => ensure!(
                    c.cmd == k && c.args == a && c.tags.is_empty(),
                    "reply",
                    "line {} from the client is {} but {k} {:?} was due",
                    i + 1,
                    show(l),
                    a.iter().map(|x| show(x)).collect::<Vec<_>>()
                ),
                Exp::Probe(p) => {
                    ensure!(c.cmd == "PING" && c.args.len() == 1, "probe_msg", "line {} is {} but a latency probe was due", i + 1, show(l));
                    m.probes[p].payload = Some(c.args[0].clone());
                }
            }
        }
        if all {
            ensure!(lines.len() == m.exp.len(), "missing", "{} lines were due but only {} were sent; next {:?}", m.exp.len(), lines.len(), m.exp.get(lines.len()));
        }
        Ok(())
    }
    fn probes(&self) -> Res {
        let mut m = self.m.borrow_mut();
        for (i, p) in m.probes.iter_mut().enumerate() {
            let Some(rx) = &mut p.rx else { continue };
            if p.done {
                continue;
            }
            match (rx.get(), &p.result) {
                (Got::Val((src, d)), Some((exp, esrc))) => {
                    checked(1);
                    probe("probe_reported");
                    ensure!(d.as_nanos() == *exp as u128, "latency", "probe {i} reported {d:?} but {exp} ns passed");
                    let s = src.map(|s| {
                        let mut v = Vec::new();
                        let _ = s.write_to(&mut v);
                        v
                    });
                    ensure!(s == *esrc, "probe_source", "probe {i} reported source {s:?}, the PONG came from {esrc:?}");
                    p.done = true;
                }
                (Got::Val((_, d)), None) => bail!("probe_early", "probe {i} reported {d:?} without its PONG"),
                (Got::Closed, _) => bail!("probe_lost", "probe {i} ended without a result"),
                (Got::Empty, Some(_)) => bail!("probe_missing", "the PONG for probe {i} was processed but nothing was reported"),
                (Got::Empty, None) => {}
            }
        }
        Ok(())
    }
}

fn gen_source(m: &mut M) {
    match below(4) {
        0 => {}
        1 => m.nick = Some(gen_nick(coin())),
        _ => {
            m.nick = Some(gen_nick(coin()));
            m.user = Some(gen_user(false));
            m.host = Some(b"h.example".to_vec());
        }
    }
}
fn gen_msg(st: &St) -> M {
    let mut m = match below(8) {
        0 | 1 => {
            probe("ping");
            let mut m = M::new("PING");
            if chance(1, 4) {
                m.args.push(gen_word(true));
            }
            match below(6) {
                0 => {}
                1 => m.args.push(gen_line(true)),
                2 => m.args.push(bytes(range(300, 480), false, |_| true)),
                3 => m.args.push(pick(&[&b""[..], b":", b" ", b":x y", b"  two  spaces "]).to_vec()),
                _ => m.args.push(gen_word(true)),
            }
            m
        }
        2 | 3 => {
            let cmd: &str = pick(&["VERSION", "SOURCE", "version", "Source", "VERSIONS", "VERSIO", "PING", ""]);
            let body = match below(6) {
                0..=2 => format!("\x01{cmd}\x01"),
                3 => format!("\x01{cmd} more text\x01"),
                4 => format!("{cmd}"),
                _ => format!("x \x01{cmd}\x01"),
            };
            let mut m = M::new(pick(&["PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE", "TAGMSG", "TOPIC"]));
            match below(8) {
                0 => {}
                1 => {
                    m.args.push(b"#a".to_vec());
                    m.args.push(b"b".to_vec());
                }
                _ => m.args.push(pick(&[&b"me"[..], b"#chan", b"other"]).to_vec()),
            }
            m.args.push(body.into_bytes());
            probe("ctcp");
            m
        }
        4 | 5 => {
            // PONGs: right ones, near misses and strangers.
            let payloads: Vec<Vec<u8>> = st.m.borrow().probes.iter().filter_map(|p| p.payload.clone()).collect();
            let mut m = M::new(pick(&["PONG", "PONG", "PONG", "PING", "NOTICE"]));
            if coin() {
                m.args.push(b"irc.example".to_vec());
            }
            let mut a = if payloads.is_empty() { b"17".to_vec() } else { pick(&payloads).clone() };
            match below(12) {
                10 => {
                    // Not octal digits, but with the same low bits as right ones.
                    let k = (0..a.len()).rev().find(|k| *k > 0 && (a[*k - 1] & 1 == 1)).unwrap_or(a.len() - 1);
                    a[k] |= 8;
                }
                8 => a.splice(0..0, (0..range(1, 20)).map(|_| b'1' + below(7) as u8)).for_each(drop),
                9 => a.insert(0, b'1' + below(7) as u8),
                0 => {
                    a.push(b'0');
                }
                1 => {
                    a.pop();
                }
                2 => {
                    let k = below(a.len() as u64) as usize;
                    a[k] = b'0' + (a[k] - b'0' + 1) % 8;
                }
                3 => a = b"9".to_vec(),
                4 => a = b"77777777777777777777".to_vec(),
                5 => m.args.push(a.clone()),
                _ => {}
            }
            if a.is_empty() {
                a = b"z".to_vec();
            }
            m.args.push(a);
            m
        }
        _ => gen_server(coin()),
    };
    if m.nick.is_none() {
        gen_source(&mut m);
    }
    if m.tags.is_empty() && chance(1, 6) {
        gen_tags(&mut m, coin());
    }
    m
}

fn logic() -> ClientLogic {
    let mut l = ClientLogic::new();
    match below(3) {
        0 => {
            l.queue_mut().set_rate_limit(Duration::ZERO, 0);
        }
        1 => {
            l.queue_mut().set_rate_limit(Duration::from_millis(*pick(&[50u64, 700])), below(5) as u32);
        }
        _ => {}
    }
    l.set_read_timeout(Some(Duration::from_millis(*pick(&[500u64, 3000]))));
    l
}
fn line(s: &str) -> Line<'static> {
    Line::from_bytes(s.as_bytes().to_vec()).unwrap()
}

async fn step(cl: &mut Cl, st: &St, tokio: bool) -> Res {
    let cancel = (tokio && chance(1, 5)).then(|| (range(1, 30), now() + range(1, 2000) * MS));
    match cl.run(&st.net, cancel).await {
        Ran::Done(..) | Ran::Timeout | Ran::Cancelled => {}
        r => bail!("run", "run ended with {r:?}"),
    }
    st.check(false)?;
    st.probes()
}
async fn drain(cl: &mut Cl, st: &St, tokio: bool) -> Res {
    for _ in 0..4000 {
        if st.net.with(|n| n.rx_empty()) && cl.queue().is_empty() && {
            let m = st.m.borrow();
            m.seen == m.wire.len()
        } {
            break;
        }
        step(cl, st, tokio).await?;
    }
    cl.flush(&st.net).await.map_err(|e| crate::viol!("flush", "flush failed: {e}"))?;
    st.check(true)?;
    st.probes()
}

async fn single(kind: Kind, f: Faults) -> Res {
    let st = St::new(f);
    let mut cl = Cl::new(&st.net, kind, logic());
    let _ = cl.add((), st.observer());
    // Answers probes now and then, by itself.
    let (m2, eager) = (st.m.clone(), below(4));
    st.net.set_peer(move |l, io| {
        let c = parse_client(l);
        if c.cmd == "PING" && below(4) < eager {
            let m = M::new("PONG").src("irc.example").arg("irc.example").arg(c.args.last().cloned().unwrap_or_default());
            m2.borrow_mut().wire.push(m.clone());
            io.send(*pick(&[0u64, 1, 30, 400, 5000]) * MS, m.line());
        }
    });
    let mut spare: Option<(Ping, u64)> = None;
    for _ in 0..range(4, 30) {
        match below(10) {
            0 if !st.m.borrow().pong => {
                let _ = cl.add((), AutoPong);
                st.m.borrow_mut().pong = true;
            }
            1 if st.m.borrow().ctcp.is_none() => {
                let v = *pick(&["client 1.0", "", "v:1 "]);
                let s = *pick(&["https://example.org/", "", "x"]);
                let _ = cl.add((), CtcpVersion { version: line(v), source: line(s) });
                st.m.borrow_mut().ctcp = Some((v.into(), s.into()));
            }
            2 => {
                // A probe may be created well before it is added, and reused.
                let (p, created) = match spare.take() {
                    Some(x) => x,
                    None => (Ping::default(), now()),
                };
                if chance(1, 4) {
                    spare = Some((p, created));
                    pause(kind.tokio, below(3000) * MS).await;
                    continue;
                }
                let (_, rx) = cl.add((), p).expect("add");
                let mut m = st.m.borrow_mut();
                let n = m.probes.len();
                m.probes.push(Probe { created, payload: None, result: None, rx: Some(rx), done: false });
                m.exp.push(Exp::Probe(n));
                probe("probe_added");
            }
            3 => {
                let _ = cl.add((), YieldAll);
            }
            4 => {
                let m = gen_client(false);
                if !m.tags.is_empty() {
                    continue;
                }
                cl.queue().edit().push(m.to_client());
                st.m.borrow_mut().exp.push(Exp::Line(String::from_utf8(m.kind.clone()).unwrap(), m.args.clone()));
            }
            _ => {
                for _ in 0..range(1, 3) {
                    let t = now() + *pick(&[0u64, 0, 10, 800]) * MS;
                    let m = gen_msg(&st);
                    st.send(t, m);
                }
                step(&mut cl, &st, kind.tokio).await?;
            }
        }
    }
    drain(&mut cl, &st, kind.tokio).await?;
    let n = st.m.borrow().replies;
    checked(n);
    Ok(())
}

/// PINGs during registration.
async fn registering(kind: Kind, f: Faults) -> Res {
    let mut c = Cfg::any();
    c.noise = *pick(&[300u64, 600]);
    if coin() {
        c.nick_replies.push(433);
    }
    let mut o = super::c05::Opts::new();
    o.nicks.push(super::c05::nick("n"));
    let bot = coin();
    let reg: Reg = if bot { register_as_bot() } else { register_as_client() };
    let mut g = Game::start(&reg, &o, c, kind, f);
    let out = g.play().await?;
    ensure!(matches!(out, Outcome::Ok), "failed", "registration reported {}", out.name());
    let t = now() + 600 * SEC;
    while !g.cl.queue().is_empty() && now() < t {
        g.cl.flush(&g.net).await.map_err(|e| crate::viol!("flush", "flush failed: {e}"))?;
        pause(kind.tokio, SEC).await;
    }
    g.cl.flush(&g.net).await.map_err(|e| crate::viol!("flush", "flush failed: {e}"))?;
    let s = g.srv.borrow();
    checked(s.pings.len() as u64);
    let got: Vec<_> = s.pongs.iter().map(|p| p.as_ref().map(|x| show(x))).collect();
    let want: Vec<_> = s.pings.iter().map(|p| Some(show(p))).collect();
    ensure!(got == want, "register_pongs", "during registration the PINGs were {want:?} and the PONGs {got:?}");
    probe("register_pings");
    Ok(())
}

/// Clients talking to each other and themselves through a relay.
async fn relayed(kind: Kind) -> Res {
    let n = range(1, 3) as usize;
    let names = ["a", "b", "c"];
    let sts: Vec<St> = (0..n).map(|_| St::new(Faults::any())).collect();
    let mut cls = Vec::new();
    for (i, st) in sts.iter().enumerate() {
        let mut cl = Cl::new(&st.net, kind, logic());
        let _ = cl.add((), st.observer());
        let v = format!("client {}", names[i]);
        let _ = cl.add((), CtcpVersion { version: line(&v), source: line("src") });
        let _ = cl.add((), AutoPong);
        {
            let mut m = st.m.borrow_mut();
            m.ctcp = Some((v.into_bytes(), b"src".to_vec()));
            m.pong = true;
        }
        let others: Vec<St> = sts.clone();
        // The relay passes on PRIVMSG, NOTICE, PING and PONG alike, as a careless bouncer might.
        st.net.set_peer(move |l, io| {
            let c = parse_client(l);
            let mut m = M::new(&c.cmd).src(&format!("{}!u@h", names[i]));
            m.args = c.args.clone();
            let to: Vec<usize> = match c.args.first().map(|a| &a[..]) {
                Some(b"#all") => (0..others.len()).filter(|k| *k != i).collect(),
                Some(x) => names.iter().position(|y| y.as_bytes() == x).filter(|k| *k < others.len()).into_iter().collect(),
                None => Vec::new(),
            };
            if c.cmd == "PONG" {
                return;
            }
            for k in to {
                let dup = if chance(1, 10) {
                    fault("duplicated");
                    2
                } else {
                    1
                };
                for _ in 0..dup {
                    let d = *pick(&[0u64, 20, 900]) * MS;
                    others[k].m.borrow_mut().wire.push(m.clone());
                    if k == i {
                        io.send(d, m.line());
                    } else {
                        others[k].net.send_at(now() + d, m.line());
                    }
                }
            }
        });
        cls.push(cl);
    }
    for _ in 0..range(1, 6) {
        let i = below(n as u64) as usize;
        let target: &str = pick(&["a", "b", "c", "#all"]);
        let body: &str = pick(&["\x01VERSION\x01", "\x01SOURCE\x01", "\x01VERSION x\x01", "hi", "\x01PING 1\x01"]);
        let m = M::new(pick(&["PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE"])).arg(target).arg(body);
        cls[i].queue().edit().push(m.to_client());
        sts[i].m.borrow_mut().exp.push(Exp::Line(String::from_utf8(m.kind.clone()).unwrap(), m.args.clone()));
        for _ in 0..below(4) {
            let k = below(n as u64) as usize;
            step(&mut cls[k], &sts[k], kind.tokio).await?;
        }
    }
    // Everything dies down after a bounded number of steps.
    let mut quiet = false;
    for _ in 0..400 {
        quiet = true;
        for k in 0..n {
            let idle = sts[k].net.with(|x| x.rx_empty()) && cls[k].queue().is_empty() && {
                let m = sts[k].m.borrow();
                m.seen == m.wire.len()
            };
            if !idle {
                quiet = false;
                step(&mut cls[k], &sts[k], kind.tokio).await?;
            }
        }
        if quiet {
            break;
        }
    }
    ensure!(quiet, "loop", "the clients keep sending each other messages");
    for k in 0..n {
        cls[k].flush(&sts[k].net).await.map_err(|e| crate::viol!("flush", "flush failed: {e}"))?;
        sts[k].check(true)?;
        let r = sts[k].m.borrow().replies;
        checked(r);
        if r > 0 {
            probe("relayed_reply");
        }
    }
    Ok(())
}

fn run() -> Res {
    let kind = Kind::any();
    let f = Faults::any();
    set_late(0);
    set_midwrite(true);
    let mode = below(6);
    block_on(kind.tokio, async move {
        match mode {
            0 => registering(kind, f).await,
            1 | 2 => relayed(kind).await,
            _ => single(kind, f).await,
        }
    })
}
