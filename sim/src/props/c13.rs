//! C13: no server behaviour can crash, corrupt, hang or bloat the client.
use super::c01::send_split;
use super::c05::*;
use crate::alloc;
use crate::cl::*;
use crate::core::*;
use crate::hand::FnH;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::{b64, Cfg, Reg, Srv, CAPNAMES};
use crate::{bail, ensure, ev};
use std::cell::{Cell, RefCell};
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::handlers::*;
use vinezombie::client::register::*;
use vinezombie::client::{state, ClientLogic};
use vinezombie::ircmsg::{MaybeCtcp, ServerMsg, Source, UserHost};
use vinezombie::names::{cap, cmd, isupport, ISupport, NameMap};
use vinezombie::string::{Line, Nick};

pub const PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 80_000,
    thorough: 4_000_000,
    max_steps: 1_500_000,
    rule: "each run: a random set of the library's handlers (registration with SASL, source tracking, automatic replies, latency probes, forwarding and parsing handlers) and a probe that parses every message with the typed parsers and picks its text apart with random histories of splitter, transformation and builder operations, against a hostile server: raw garbage, protocol lines with odd, missing or oversized fields, hostile replies to each client line, a real conversation whose lines are damaged, repeated, dropped or swapped, and floods of blank lines, carriage returns, unfinished lines or chatter; the stream always ends in EOF or an error; non-trivial = the end of the stream was reported",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "memory kept for finished messages the library is meant to record or answer (capabilities, ISUPPORT tokens, SASL challenges, queued replies) is not bounded here",
    ],
};

const BLANKS: u64 = 200_000;
const NICKS: &[&[u8]] = &[b"me", b"nick", b"Other", b"*", b"", b"me_"];

fn junk(n: u64) -> Vec<u8> {
    (0..n).map(|_| if coin() { *pick(b" \r\0\x01:;=@!,*%+-\\\xff~\t#") } else { below(256) as u8 }).filter(|b| *b != b'\n').collect()
}
/// One odd word for somewhere in a protocol message.
fn word(own: &[u8]) -> Vec<u8> {
    let w: &[u8] = pick(&[
        &b"*"[..], b"LS", b"ACK", b"NAK", b"NEW", b"DEL", b"LIST", b"END", b"sasl", b"-sasl", b"sasl=", b"sasl=PLAIN,EXTERNAL",
        b"sasl=,,", b"=sasl", b"~=sasl", b"+", b"=", b"-", b"-=", b"sts=port=6697", b"cap-notify", b"message-tags", b"PLAIN", b"EXTERNAL,X-ONE",
        b"", b"NICKLEN=0", b"NICKLEN=", b"USERLEN=65535", b"HOSTLEN=99999999999", b"HOSTLEN=65535", b"USERLEN", b"HOSTLEN=-1", b"CHANMODES=,,,,,,z",
        b"CHANMODES=beI,k,l,aa9b", b"CHANMODES=", b"PREFIX=(ov)@+", b"PREFIX=(ov)@", b"PREFIX=(", b"PREFIX=)", b"PREFIX=()", b"PREFIX=",
        b"PREFIX=(\xff\x01)..", b"BOT=", b"BOT=\xff", b"EXCEPTS", b"INVEX=1", b"MONITOR=x", b"MONITOR=", b"SILENCE=4294967296", b"NETWORK=\xff",
        b"-NICKLEN", b"\x01VERSION\x01", b"\x01VERSION", b"\x01", b"\x01\x01", b"\x01 \x01", b"\x01SOURCE x\x01", b"\x01version\x01\x01", b"VERSION",
        b"me=+u@h", b"me*=-~u@h", b"me=+@", b"me=", b"=+u@h", b"me=u", b"me=+u@", b"h\xff", b"6667", b"0", b"-1", b"99999999999", b"irc.example.net",
        b"irc.example.net:6667", b":x", b"u", b"AAAA", b"AA==", b"A===", b"====", b"AAA",
    ]);
    match below(11) {
        10 => super::text::text(range(1, 12)).into_iter().filter(|b| *b != b' ').collect(),
        0 => own.to_vec(),
        1 => pick(NICKS).to_vec(),
        2 => pick(CAPNAMES).as_bytes().to_vec(),
        3 => {
            let mut o = vec![];
            for _ in 0..below(6) {
                o.extend(pick(CAPNAMES).as_bytes());
                o.extend(*pick(&[&b" "[..], b"  ", b"=v ", b"=", b"\t"]));
            }
            o
        }
        4 => {
            let n = *pick(&[1u64, 4, 399, 400, 401, 404, 512, 3000]);
            if coin() {
                let v: Vec<u8> = (0..n).map(|_| below(256) as u8).collect();
                b64(&v)
            } else {
                vec![b'A'; n as usize]
            }
        }
        5 => {
            let n = *pick(&[1u64, 3, 20, 300]);
            junk(n).into_iter().filter(|b| *b != b' ').collect()
        }
        6 => {
            let mut o = item_uh(own);
            for _ in 0..below(4) {
                o.push(b' ');
                o.extend(item_uh(own));
            }
            o
        }
        _ => w.to_vec(),
    }
}
fn item_uh(own: &[u8]) -> Vec<u8> {
    let mut o = if coin() { own.to_vec() } else { pick(NICKS).to_vec() };
    for p in [&b"*"[..], b"=", b"+", b"~", b"u", b"@", b"h"] {
        if !chance(1, 5) {
            o.extend(p);
        }
    }
    o
}
const CMDS: &[&str] = &[
    "CAP", "AUTHENTICATE", "NICK", "CHGHOST", "PING", "PONG", "PRIVMSG", "NOTICE", "ERROR", "FAIL", "PART", "QUIT", "TOPIC", "JOIN", "WALLOPS",
    "MODE", "KICK", "001", "002", "003", "004", "005", "010", "043", "302", "372", "375", "376", "396", "400", "410", "421", "422", "431", "432",
    "433", "436", "437", "451", "461", "462", "464", "465", "466", "468", "484", "900", "901", "902", "903", "904", "905", "906", "907", "908",
    "000", "999", "1", "12", "1234", "0x1", "nick", "Cap", "", "PRIVMSGPRIVMSG", "C\u{c1}P", "-01", "+01", "42",
];
fn hostile(own: &[u8]) -> Vec<u8> {
    let mut l = Vec::new();
    if chance(1, 5) {
        l.extend(*pick(&[
            &b"@ "[..], b"@; ", b"@= ", b"@a=\\ ", b"@a=\\: ", b"@:=:;:=: ", b"@a;a;a=1;a=2 ", b"@+x=\\\\\\ ", b"@a=b;;c ", b"@\xff=\xff ", b"@@ ", b"@", b"@a",
            b"@time=2020-01-01T00:00:00.000Z;label=L1 ", b"@a= ", b"@=b ", b"@a==b= ",
        ]));
        if chance(1, 5) {
            l = b"@t=".to_vec();
            l.extend(super::text::text(range(1, 12)).into_iter().filter(|b| !matches!(b, b' ' | b';')));
            l.push(b' ');
        }
        if chance(1, 6) {
            l = b"@".to_vec();
            for i in 0..below(60) {
                l.extend(format!("k{}={};", i * 7 % 50, "v".repeat(below(5) as usize)).as_bytes());
            }
            l.push(b' ');
        }
    }
    match below(6) {
        0 => {
            l.push(b':');
            l.extend(own);
            l.extend(b"!~u@host.example ");
        }
        1 => l.extend(b":irc.sim "),
        2 => {
            l.extend(*pick(&[
                &b": "[..], b":", b":!@ ", b":a!@ ", b":@ ", b":!x@ ", b":a!b!c@d@e ", b":a@ ", b":me ", b":me!u ", b":me@h ", b":, ", b":\xff!\xff@\xff ", b":: ", b":a:b ",
                b"  ", b" : ",
            ]));
        }
        3 => {
            l.push(b':');
            l.extend(own);
            l.push(b' ');
        }
        _ => {}
    }
    l.extend(pick(CMDS).as_bytes());
    // Mostly something near the right shape.
    if coin() {
        l.push(b' ');
        l.extend(if coin() { own } else { pick(NICKS) });
    }
    for _ in 0..*pick(&[0u64, 1, 1, 2, 3, 4, 16]) {
        l.push(b' ');
        let w = word(own);
        if w.contains(&b' ') && coin() {
            l.push(b':');
        }
        l.extend(w);
    }
    if chance(1, 3) {
        l.extend(b" :");
        l.extend(word(own));
    }
    if chance(1, 20) {
        l.extend(junk(5));
    }
    if chance(1, 60) {
        let n = *pick(&[505u64, 512, 4600, 8690, 8703, 9000]);
        while (l.len() as u64) < n {
            l.push(b'p');
        }
    }
    l.retain(|b| *b != b'\n');
    l.extend(*pick(&[&b"\r\n"[..], b"\n", b"\r\r\n", b" \r\n"]));
    l
}
/// Damages one line of a conversation.
fn damage(l: &mut Vec<u8>) {
    fault("damaged_line");
    let n = l.len() as u64;
    if n < 3 {
        return;
    }
    match below(7) {
        0 => {
            let i = below(n - 2) as usize;
            l[i] = *pick(b" :@!=;,*+-\0\r\n\x01\xff0aA");
        }
        1 => {
            let i = below(n - 2) as usize;
            l.truncate(i);
            l.extend(b"\r\n");
        }
        2 => {
            let i = below(n - 2) as usize;
            let j = (i + range(1, 12) as usize).min(l.len() - 2);
            l.drain(i..j);
        }
        3 => {
            let i = below(n - 2) as usize;
            let w = word(b"me");
            l.splice(i..i, w);
        }
        4 => {
            let mut w: Vec<Vec<u8>> = l[..l.len() - 2].split(|b| *b == b' ').map(|x| x.to_vec()).collect();
            if w.len() > 1 {
                let i = below(w.len() as u64) as usize;
                let j = below(w.len() as u64) as usize;
                w.swap(i, j);
            }
            *l = w.join(&b' ');
            l.extend(b"\r\n");
        }
        5 => {
            let mut w: Vec<Vec<u8>> = l[..l.len() - 2].split(|b| *b == b' ').map(|x| x.to_vec()).collect();
            let i = below(w.len() as u64) as usize;
            w.remove(i);
            *l = w.join(&b' ');
            l.extend(b"\r\n");
        }
        _ => {
            let c = l.clone();
            l.extend(c);
        }
    }
}

fn poke(m: &ServerMsg<'_>, st: &mut vinezombie::client::ClientState) {
    fn text(m: Result<vinezombie::ircmsg::TargetedMsg<'_, Line<'_>>, vinezombie::error::ParseError>) {
        if let Ok(t) = m {
            let c = MaybeCtcp::parse(t.value.clone());
            let _ = (c.len(), c.is_ctcp());
            let _ = c.into_line();
        }
    }
    text(m.parse_as(cmd::PRIVMSG));
    text(m.parse_as(cmd::NOTICE));
    text(m.parse_as(cmd::PART));
    text(m.parse_as(cmd::QUIT));
    text(m.parse_as(cmd::TOPIC));
    text(m.parse_as(cmd::WALLOPS));
    let _ = m.parse_as(cmd::JOIN).map(|x| x.target.len());
    let _ = (m.bytes_left(), m.args.len(), m.args.len_bytes(), m.args.all().map(|x| x.len()));
    let (w, last) = m.args.split_last();
    let n = w.len() + last.is_some() as usize;
    assert_eq!(n, m.args.len(), "split_last lost arguments");
    if chance(1, 6) {
        for a in w {
            if coin() {
                super::text::pick_apart(a.clone().into());
            }
        }
        if let Some(l) = last {
            super::text::pick_apart(l.clone().into());
        }
        if let Some(v) = m.tags.get("t") {
            super::text::pick_apart(v.clone().into());
        }
        probe("text_picked_apart");
    }
    if let Some(s) = &m.source {
        let s2 = Source::clone(s).owning_merged();
        assert!(s2 == Source::clone(s).owning(), "owning changed the source");
    }
    let own = m.clone().owning();
    assert!(own.to_string() == m.to_string(), "owning changed the message");
    if let Some(l) = last {
        let mut n: NameMap<ISupport, ()> = NameMap::new();
        {
            let mut e = n.edit();
            for tok in l.as_bytes().split(|b| *b == b' ').chain(w.iter().map(|a| a.as_bytes())) {
                let (k, v) = match tok.iter().position(|b| *b == b'=') {
                    Some(p) => (&tok[..p], &tok[p + 1..]),
                    None => (tok, &b""[..]),
                };
                if let (Ok(k), Ok(v)) = (vinezombie::string::Key::from_bytes(k.to_vec()), vinezombie::string::Word::from_bytes(v.to_vec())) {
                    e.insert((k, v), ());
                }
            }
        }
        poke_isupport(&n);
    }
    if let Some(n) = st.get::<state::ISupport>() {
        poke_isupport(n);
    }
    if let Some(c) = st.get::<state::Caps>() {
        let _ = c.get_parsed(cap::SASL).map(|x| x.map(|y| y.len()));
    }
}
fn poke_isupport<T>(n: &NameMap<ISupport, T>) {
    macro_rules! all { ($($t:ident)+) => { $( let _ = n.get_parsed(isupport::$t); )+ } }
    all!(ETRACE KNOCK SAFELIST UTF8ONLY WHOX AWAYLEN CHANNELLEN HOSTLEN KICKLEN MODES NICKLEN TOPICLEN USERLEN MONITOR SILENCE BOT CALLERID EXCEPTS INVEX NETWORK USERMODES);
    let m = vinezombie::state::ServerChanModes::from_isupport(n);
    for c in b'A'..=b'z' {
        if let Some(c) = vinezombie::state::Mode::new(c) {
            let _ = m.get(c);
        }
    }
    if let Some(Ok(p)) = n.get_parsed(isupport::PREFIX) {
        for c in 1..=255u8 {
            let _ = p.get_mode(c.try_into().unwrap());
        }
    }
    let _ = n.get_parsed(isupport::CHANMODES);
    // Every token is found again.
    for k in n.keys() {
        assert!(n.get_union_raw(k).is_some(), "a recorded token cannot be looked up");
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Flood {
    Blank,
    Cr,
    Endless,
    Space,
    Chat,
}

fn run() -> Res {
    let mut kind = Kind::any();
    let mut f = Faults::any();
    let flood = chance(1, 40).then(|| *pick(&[Flood::Blank, Flood::Cr, Flood::Endless, Flood::Space, Flood::Chat]));
    if flood.is_some() && matches!(f.rchunk, Chunk::One | Chunk::Small | Chunk::Random) {
        f.rchunk = Chunk::Whole;
    }
    if flood.is_some() {
        kind.cap = kind.cap.max(600);
        f.eintr = f.eintr.min(20);
        f.spurious = f.spurious.min(20);
    }
    set_late(swarm());
    set_midwrite(true);
    let net = Net::new(f);
    let own: Vec<u8> = pick(&[&b"me"[..], b"nick", b"x\xff", b"[]{}"]).to_vec();
    let mode = below(4);
    // What the server does by itself.
    let mut t = 0u64;
    let newlines = Rc::new(Cell::new(0u64));
    let nl = newlines.clone();
    let count = move |b: &[u8]| nl.set(nl.get() + b.iter().filter(|c| **c == b'\n').count() as u64);
    let mid = swarm();
    match mode {
        0 => {
            for _ in 0..range(1, 20) {
                let mut b = junk(*pick(&[1u64, 5, 50, 400]));
                if coin() {
                    b.push(b'\n');
                }
                count(&b);
                send_split(&net, &mut t, &b, mid);
                t += *pick(&[0u64, 0, 1, 3000]) * MS;
            }
        }
        1 | 2 => {
            for _ in 0..range(1, 40) {
                let b = hostile(&own);
                count(&b);
                send_split(&net, &mut t, &b, mid);
                t += *pick(&[0u64, 0, 0, 1, 500, 3000]) * MS;
            }
        }
        _ => {}
    }
    if let Some(f) = flood {
        let (p, n): (&[u8], u64) = match f {
            Flood::Blank => (b"\n", BLANKS),
            Flood::Cr => (b"\r", 400_000),
            Flood::Endless => (b"A", 400_000),
            Flood::Space => (b" ", 400_000),
            Flood::Chat => (b":somebody!~user@some.host PRIVMSG #channel :The quick brown fox\r\n", 3000),
        };
        fault("flood");
        count(&p.repeat(if p.contains(&b'\n') { n as usize } else { 0 }));
        net.push_at(t, Item::Repeat(p.to_vec(), 0, n as usize));
    }
    // What it does when the client says something.
    let budget = Rc::new(Cell::new(*pick(&[0u64, 5, 60])));
    let end_delay = *pick(&[0u64, 10, 5000, 60_000]) * MS;
    let tail = pick(&[Item::Eof, Item::Eof, Item::Err(std::io::ErrorKind::ConnectionReset)]).clone();
    let srv_rate = *pick(&[0u64, 20, 150, 500]);
    let mut bot = false;
    let mut cfg = Cfg::any();
    let (mut o, _) = gen_opts(&mut cfg, false);
    for _ in 0..below(3) {
        let m = gen_mech();
        cfg.mechs.push(srv_mech(&m, coin()));
        o.sasl.push(m);
    }
    if o.sasl.is_empty() {
        bot = coin();
    } else {
        o.allow_sasl_fail = coin();
        if let Some(c) = &mut cfg.caps {
            if coin() {
                let list: Vec<&str> = cfg.mechs.iter().map(|m| &m.name[..]).collect();
                let v = coin().then(|| list.join(","));
                c.push(("sasl".into(), v));
            }
        }
    }
    let own2 = own.clone();
    let count2 = count.clone();
    let budget2 = budget.clone();
    let end = tail.clone();
    if mode == 3 {
        let srv = Rc::new(RefCell::new(Srv::new(cfg)));
        let stop = range(1, 40);
        let mut said = 0u64;
        let mut over = false;
        net.set_peer(move |l, io| {
            srv.borrow_mut().on_line(l, io);
            if over {
                io.out.clear();
                return;
            }
            let mut i = 0;
            while i < io.out.len() {
                if let Item::Bytes(b) = &mut io.out[i].1 {
                    if permille(srv_rate) {
                        match below(6) {
                            0 => {
                                fault("dropped_line");
                                io.out.remove(i);
                                continue;
                            }
                            1 => {
                                fault("repeated_line");
                                let c = io.out[i].clone();
                                io.out.insert(i, c);
                                i += 1;
                            }
                            2 if i > 0 => {
                                fault("swapped_lines");
                                io.out.swap(i, i - 1);
                            }
                            3 => {
                                let h = hostile(&own2);
                                let d = io.out[i].0;
                                io.out.insert(i, (d, Item::Bytes(h)));
                                i += 1;
                            }
                            _ => damage(b),
                        }
                    }
                }
                said += 1;
                i += 1;
            }
            for (_, b) in &io.out {
                if let Item::Bytes(b) = b {
                    count2(b);
                }
            }
            if said >= stop * 4 {
                over = true;
                let d = io.out.last().map(|x| x.0).unwrap_or(0);
                io.out.push((d, end.clone()));
            }
        });
    } else {
        net.set_peer(move |_, io| {
            for _ in 0..below(4) {
                if budget2.get() == 0 {
                    return;
                }
                budget2.set(budget2.get() - 1);
                let b = hostile(&own2);
                count2(&b);
                io.send(*pick(&[0u64, 1, 500]) * MS, &b);
            }
        });
    }
    block_on(kind.tokio, async move {
        let mut logic = ClientLogic::new();
        if coin() {
            let (d, b) = *pick(&[(100u64, 10u32), (0, 0), (3000, 1), (500, 0)]);
            logic.queue_mut().set_rate_limit(Duration::from_millis(d), b);
        }
        let rto = coin();
        if rto {
            logic.set_read_timeout(Some(Duration::from_millis(*pick(&[300u64, 5000]))));
        }
        let mut cl = Cl::new(&net, kind, logic);
        if chance(1, 3) {
            let uh = coin().then(|| UserHost { user: None, host: vinezombie::string::Word::from_bytes(b"h.example".to_vec()).unwrap() });
            cl.state_mut().insert::<state::ClientSource>(Source { nick: Nick::from_bytes(own.clone()).unwrap(), userhost: uh });
        }
        let seen = Rc::new(Cell::new(0u64));
        {
            let s = seen.clone();
            let chat = flood == Some(Flood::Chat);
            let _ = cl.add((), FnH::<()>::new(move |m, st, _, _| {
                s.set(s.get() + 1);
                if !chat {
                    ev!("client processes {}", m);
                    poke(m, st);
                }
                ControlFlow::Continue(())
            }).owning({ let o = coin(); move || o }));
        }
        let mut rxs: Vec<Box<dyn FnMut() -> bool>> = Vec::new();
        macro_rules! q { ($e:expr) => {{ let mut r = $e.unwrap().1; rxs.push(Box::new(move || matches!(r.get(), Got::Val(_)))); }} }
        if mode == 3 || coin() {
            let reg: Reg = if bot { register_as_bot() } else { register_as_client() };
            match cl.add(&reg, &o) {
                Ok((_, mut r)) => rxs.push(Box::new(move || matches!(r.get(), Got::Val(_)))),
                Err(_) => probe("no_register"),
            }
        }
        if coin() {
            let _ = cl.add((), AutoPong);
        }
        if coin() {
            let l = |s: &str| Line::from_bytes(s.as_bytes().to_vec()).unwrap();
            let (v, s) = (*pick(&["", "vz 1.0"]), *pick(&["", "src"]));
            let _ = cl.add((), CtcpVersion { version: l(v), source: l(s) });
        }
        if coin() {
            let _ = cl.add((), TrackClientSource::new());
        }
        if chance(1, 3) {
            q!(cl.add((), Ping::default()));
        }
        if chance(1, 3) {
            q!(cl.add((), YieldAll));
        }
        if chance(1, 3) {
            q!(cl.add((), YieldParsed::just(cmd::PRIVMSG).with(cmd::NOTICE).with(cmd::TOPIC).with(cmd::QUIT)));
        }
        if chance(1, 3) {
            q!(cl.add((), YieldParsed::just(cmd::JOIN)));
        }
        if mode != 3 {
            // Reactions come before the end only while it is still ahead.
            let t_end = t + end_delay;
            net.push_at(t_end, tail.clone());
        }
        let base = alloc::live().0;
        alloc::reset_peak();
        let mut errors = 0;
        let mut done = 0u64;
        let mut idle_runs = 0u64;
        let mut mark: Option<i64> = None;
        for _ in 0..60_000u64 {
            let cancel = (kind.tokio && chance(1, 40)).then(|| (range(1, 20), now() + range(1, 3000) * MS));
            let was_eof = net.with(|n| n.eof_seen);
            let r = cl.run(&net, cancel).await;
            for rx in &mut rxs {
                while rx() {}
            }
            if flood.is_some() && errors == 0 {
                checked(1);
                let grown = alloc::peak() - base;
                // Replies to hostile lines before the flood also count here.
                let bound = 160 * 1024 + 3 * kind.cap as i64 + 4096 * newlines_small(&newlines, flood);
                ensure!(grown < bound, "bloat", "memory grew by {grown} bytes (allowed {bound}) during {flood:?} flood");
            }
            match r {
                Ran::Done(..) => {
                    done += 1;
                    idle_runs = 0;
                    checked(1);
                    let nl = newlines.get();
                    ensure!(done <= nl, "too_many", "run reported {done} messages but the server completed only {nl} lines");
                    ensure!(!was_eof, "message_after_eof", "run reported a message after the end of the stream");
                    if flood == Some(Flood::Chat) {
                        let s = seen.get();
                        let l = alloc::live().0;
                        if s >= nl.saturating_sub(2900) && mark.is_none() {
                            mark = Some(l);
                        }
                        if let Some(m) = mark {
                            ensure!(l - m < 64 * 1024, "leak", "memory grew by {} bytes while only chatter was processed", l - m);
                        }
                    }
                }
                Ran::Timeout => {
                    ensure!(rto, "timeout", "run reported a timeout without a time limit");
                    if mode == 3 && net.with(|n| n.rx_empty()) {
                        idle_runs += 1;
                        if idle_runs > 3 {
                            // The conversation broke down; hang up.
                            net.push_at(now(), tail.clone());
                        }
                    }
                }
                Ran::Cancelled => {}
                Ran::Forever => {
                    if mode == 3 && net.with(|n| n.rx_empty()) {
                        net.with(|n| n.blocked_forever = false);
                        net.push_at(now(), tail.clone());
                        continue;
                    }
                    bail!("hang", "run never returns although the stream ended");
                }
                Ran::Err(e) => {
                    errors += 1;
                    if net.with(|n| n.eof_seen || !n.errs.is_empty()) {
                        probe("end_reported");
                        checked(1);
                        if errors > 1 {
                            probe("ran_on_after_errors");
                        }
                        return finish(&net, &mut cl, kind).await;
                    }
                    // A malformed line: a careless user runs on.
                    if errors == 1 {
                        probe("parse_error");
                        let fed = net.with(|n| n.consumed);
                        ev!("error {:?} after {} bytes", e.kind(), fed);
                    }
                    if errors > 30 {
                        // Such errors are documented as final.
                        probe("error_repeats");
                        return finish(&net, &mut cl, kind).await;
                    }
                }
            }
        }
        bail!("no_end", "the stream ended but the client did not report it")
    })
}
/// Lines the client may have had to record or answer.
fn newlines_small(n: &Cell<u64>, f: Option<Flood>) -> i64 {
    (match f {
        Some(Flood::Blank) => n.get().saturating_sub(BLANKS),
        Some(Flood::Chat) => n.get().saturating_sub(3000),
        _ => n.get(),
    }) as i64
}
async fn finish(net: &Net, cl: &mut Cl, _kind: Kind) -> Res {
    // Everything said was a proper line of a command the handlers are for.
    for (_, l) in net.lines() {
        checked(1);
        let ok = l.ends_with(b"\r\n") && !l[..l.len() - 2].iter().any(|b| matches!(b, b'\r' | b'\n' | 0));
        ensure!(ok, "malformed", "the client sent {}", show(&l));
        let p = parse_client(&l);
        ensure!(
            matches!(&p.cmd[..], "CAP" | "NICK" | "USER" | "PASS" | "PING" | "PONG" | "AUTHENTICATE" | "NOTICE" | "USERHOST"),
            "command",
            "the client was made to send {}",
            show(&l)
        );
    }
    // The connection stays closed.
    if net.with(|n| n.eof_seen) {
        for _ in 0..2 {
            let mut left = 50;
            loop {
                let r = cl.run(net, None).await;
                left -= 1;
                if matches!(r, Ran::Timeout) && left > 0 {
                    continue;
                }
                ensure!(matches!(r, Ran::Err(_)), "not_closed", "run after the end of the stream gave {r:?}");
                break;
            }
        }
    }
    Ok(())
}
