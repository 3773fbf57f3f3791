//! C16: the client's idea of its own source always matches the server's.
use super::c05::*;
use crate::cl::*;
use crate::core::*;
use crate::hand::FnH;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::{Cfg, Game, Outcome, Reg};
use crate::{bail, ensure, ev};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::handlers::{AutoPong, TrackClientSource, YieldAll};
use vinezombie::client::register::*;
use vinezombie::client::state;
use vinezombie::client::ClientLogic;
use vinezombie::ircmsg::{Source, UserHost};
use vinezombie::names::NameMap;
use vinezombie::string::{Nick, User, Word};

pub const PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    max_steps: 400_000,
    rule: "each run: a client that registered with the simulated server, or whose state was set up as if it had, tracks its source while the server changes this and other users' nicks, users and hosts (others take over the old nick or use similar ones), answers USERHOST in every permitted shape, and sends malformed or source-less variants of these; after each message processed the recorded source and assumed length are compared with the model; non-trivial = at least one comparison after a change",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "the server sends this client's NICK and CHGHOST messages with this client's nick as source",
        "nicknames and usernames hold no control characters",
        "a username without a tilde counts as if it had one, because servers leave it out in places",
    ],
};

#[derive(Clone, Debug, PartialEq)]
struct Me {
    nick: Vec<u8>,
    /// As announced to the client.
    known: Option<(Vec<u8>, Vec<u8>)>,
    /// As it is.
    user: Vec<u8>,
    host: Vec<u8>,
}
struct Model {
    me: Me,
    /// What holds once the n-th line is processed.
    after: Vec<Me>,
    wire: Vec<Vec<u8>>,
    seen: usize,
    bad: Option<Viol>,
}
type Shared = Rc<RefCell<Model>>;

/// Names on real networks hold no control characters.
fn calm(mut n: Vec<u8>) -> Vec<u8> {
    for b in &mut n {
        if *b < 0x20 || *b == 0x7f {
            *b = b'x';
        }
    }
    n
}
fn gen_n(me: &Me) -> Vec<u8> {
    // Similar to ours, unrelated, or the other case.
    let mut n = me.nick.clone();
    match below(5) {
        0 => n.push(b'_'),
        1 => {
            n.pop();
            if n.is_empty() {
                n.push(b'q');
            }
        }
        2 => n = calm(gen_nick(coin())),
        3 => {
            n[0] = if n[0].is_ascii_lowercase() { n[0].to_ascii_uppercase() } else { n[0].to_ascii_lowercase() };
        }
        _ => n.insert(0, b'x'),
    }
    n
}
fn other(me: &Me) -> Vec<u8> {
    loop {
        let n = gen_n(me);
        if n != me.nick {
            return n;
        }
    }
}
fn gen_uh() -> (Vec<u8>, Vec<u8>) {
    let u = match below(3) {
        0 => b"~user".to_vec(),
        1 => b"u".to_vec(),
        _ => calm(gen_user(coin())),
    };
    let h = match below(4) {
        0 => b"2001:db8::1".to_vec(),
        1 => b"h".to_vec(),
        2 => bytes(range(1, 120), false, |_| true),
        _ => b"user/cloak/host.example".to_vec(),
    };
    (u, h)
}
fn user_ok(u: &[u8]) -> bool {
    !u.is_empty() && !u.iter().any(|c| matches!(c, b'@' | b'%' | b' ' | b'*' | b'=' | b'!')) && u[0] != b':'
}

fn item(n: &[u8], op: bool, away: bool, u: &[u8], h: &[u8]) -> Vec<u8> {
    let mut o = n.to_vec();
    if op {
        o.push(b'*');
    }
    o.push(b'=');
    o.push(if away { b'-' } else { b'+' });
    o.extend(u);
    o.push(b'@');
    o.extend(h);
    o
}
/// A USERHOST reply; `me` included or not.
fn reply(g: &mut Model, include: bool) -> Vec<u8> {
    let me = g.me.clone();
    let mut items: Vec<Vec<u8>> = Vec::new();
    for _ in 0..*pick(&[0u64, 0, 1, 3]) {
        let (u, h) = gen_uh();
        let n = other(&me);
        if n.contains(&b'=') || n.contains(&b'*') {
            continue;
        }
        items.push(item(&n, coin(), coin(), &u, &h));
    }
    if include {
        let k = below(items.len() as u64 + 1) as usize;
        items.insert(k, item(&me.nick, chance(1, 4), chance(1, 4), &me.user, &me.host));
        g.me.known = Some((me.user.clone(), me.host.clone()));
    }
    let mut l = b":irc.example.net 302 ".to_vec();
    l.extend(&me.nick);
    l.push(b' ');
    let joined = items.join(&b' ');
    match below(3) {
        0 => l.extend(&joined),
        1 => {
            l.push(b':');
            l.extend(&joined);
        }
        _ => {
            probe("userhost_trailing_space");
            l.push(b':');
            l.extend(&joined);
            l.push(b' ');
        }
    }
    l
}

fn full(n: &[u8], u: &[u8], h: &[u8]) -> Vec<u8> {
    match below(4) {
        0 => n.to_vec(),
        _ => [n, b"!", u, b"@", h].concat(),
    }
}
fn event(g: &mut Model) -> Vec<u8> {
    let me = g.me.clone();
    let src = full(&me.nick, &me.user, &me.host);
    let colon: &[u8] = if coin() { b":" } else { b"" };
    match below(12) {
        0 | 1 => {
            probe("own_nick");
            let mut n = gen_n(&me);
            if n.contains(&b'=') || n.contains(&b'*') || n[0] == b':' {
                n = b"plain".to_vec();
            }
            g.me.nick = n.clone();
            [b":", &src[..], b" NICK ", colon, &n[..]].concat()
        }
        2 | 3 => {
            probe("own_chghost");
            let (mut u, h) = gen_uh();
            if !user_ok(&u) {
                u = b"~fine".to_vec();
            }
            g.me.user = u.clone();
            g.me.host = h.clone();
            g.me.known = Some((u.clone(), h.clone()));
            [b":", &src[..], b" CHGHOST ", &u[..], b" ", colon, &h[..]].concat()
        }
        4 | 5 => {
            probe("userhost_reply");
            reply(g, !chance(1, 4))
        }
        6 | 7 => {
            // Another user.
            probe("other_user");
            let (u, h) = gen_uh();
            let n = other(&me);
            let s = full(&n, b"them", b"their.host");
            match below(4) {
                0 => [b":", &s[..], b" NICK ", &other(&me)[..]].concat(),
                1 => [b":", &s[..], b" CHGHOST ", &u[..], b" ", &h[..]].concat(),
                2 => [b":", &s[..], b" NICK :", &other(&me)[..]].concat(),
                _ => [b":", &s[..], b" PRIVMSG ", &me.nick[..], b" :NICK x"].concat(),
            }
        }
        8 | 9 => {
            // Malformed or without a source: nothing may change.
            fault("malformed");
            let n = other(&me);
            match below(12) {
                0 => [b":", &src[..], b" NICK"].concat(),
                1 => [b":", &src[..], b" NICK one two"].concat(),
                2 => [b":", &src[..], b" NICK a,b"].concat(),
                3 => [b":", &src[..], b" NICK :a b"].concat(),
                4 => [b":", &src[..], b" CHGHOST u"].concat(),
                5 => [b":", &src[..], b" CHGHOST u h x"].concat(),
                6 => [b":", &src[..], b" CHGHOST u@x h"].concat(),
                7 => [b"NICK ", &n[..]].concat(),
                8 => b"CHGHOST u h".to_vec(),
                9 => [b":s 302 ", &me.nick[..], b" ", &me.nick[..], b"=user@h"].concat(),
                10 => [b":s 302 ", &me.nick[..], b" ", &me.nick[..]].concat(),
                _ => [b":s 302 ", &me.nick[..], b" ", &me.nick[..], b"*+user@h"].concat(),
            }
        }
        10 => {
            // Our nick as an argument, not as the source.
            [b":irc.example.net ", *pick(&[&b"NICK "[..], b"MODE ", b"001 "]), &me.nick[..]].concat()
        }
        _ => pick(&[&b":irc.example.net PING x"[..], b":a!b@c QUIT :bye", b":irc.example.net 302", b"@a=b :x!y@z JOIN #c"]).to_vec(),
    }
}

fn check(cl_src: Option<Src>, len: usize, m: &Me, tokens: Option<&BTreeMap<String, String>>) -> Res {
    checked(2);
    let Some(s) = cl_src else { bail!("gone", "the recorded source is gone") };
    ensure!(s.0 == m.nick, "nick", "recorded nick {} but the server calls the client {}", show(&s.0), show(&m.nick));
    let truth = Some((m.user.clone(), m.host.clone()));
    ensure!(
        s.1 == m.known || m.known.is_none() && s.1 == truth,
        "userhost",
        "recorded user and host {:?} but the server announced {:?}",
        s.1.as_ref().map(|x| (show(&x.0), show(&x.1))),
        m.known.as_ref().map(|x| (show(&x.0), show(&x.1)))
    );
    let exp = assumed_len(&s, tokens);
    ensure!(exp == len, "source_len", "the assumed source length is {len} for {}, expected {exp}", show(&s.0));
    Ok(())
}
fn src_of(st: &vinezombie::client::ClientState) -> Option<Src> {
    st.get::<state::ClientSource>().map(|s| {
        (
            s.nick.as_bytes().to_vec(),
            s.userhost.as_ref().map(|u| {
                (u.user.as_ref().map(|x| x.as_bytes().to_vec()).unwrap_or_default(), u.host.as_bytes().to_vec())
            }),
        )
    })
}

async fn play(mut cl: Cl, net: Net, me: Me, tokens: Option<BTreeMap<String, String>>, kind: Kind) -> Res {
    // Kept alive: handlers that finish change the order of the others.
    let _all = coin().then(|| cl.add((), YieldAll));
    let (id, _) = cl.add((), TrackClientSource::new()).expect("track");
    if coin() {
        let _ = cl.add((), AutoPong);
    }
    let g: Shared = Rc::new(RefCell::new(Model { me, after: Vec::new(), wire: Vec::new(), seen: 0, bad: None }));
    // Runs after the tracker: sees the state it left.
    let (g2, t2) = (g.clone(), tokens.clone());
    let obs = FnH::<()>::new(move |msg, st, _, _| {
        let mut g = g2.borrow_mut();
        let n = g.seen;
        g.seen += 1;
        ev!("client processed {}", msg);
        if let Some(m) = g.after.get(n).cloned() {
            if let Err(v) = check(src_of(st), st.source_len().get(), &m, t2.as_ref()) {
                g.bad.get_or_insert(v);
            }
        }
        ControlFlow::Continue(())
    });
    let _ = cl.add((), obs);
    let g3 = g.clone();
    let asked = Rc::new(RefCell::new(Vec::new()));
    let a2 = asked.clone();
    let before = net.with(|n| n.lines.len());
    net.set_peer(move |l, io| {
        let c = parse_client(l);
        if c.cmd == "USERHOST" {
            a2.borrow_mut().push(c.args.clone());
            let mut g = g3.borrow_mut();
            let own = c.args.contains(&g.me.nick);
            let l = reply(&mut g, own);
            let m = g.me.clone();
            g.after.push(m);
            g.wire.push(l.clone());
            io.send(*pick(&[0u64, 50, 2000]) * MS, [&l[..], b"\r\n"].concat());
        }
    });
    let nick0 = g.borrow().me.nick.clone();
    let rounds = range(1, 25);
    for i in 0..rounds + 400 {
        if i < rounds {
            for _ in 0..below(3) {
                let l = event(&mut g.borrow_mut());
                let at = now() + *pick(&[0u64, 0, 30, 1500]) * MS;
                {
                    let mut g = g.borrow_mut();
                    let m = g.me.clone();
                    g.after.push(m);
                    g.wire.push(l.clone());
                }
                net.send_at(at, [&l[..], b"\r\n"].concat());
            }
        } else if net.with(|n| n.rx_empty()) && cl.queue().is_empty() && {
            let g = g.borrow();
            g.seen == g.wire.len()
        } {
            break;
        }
        let cancel = (kind.tokio && chance(1, 5)).then(|| (range(1, 30), now() + range(1, 2000) * MS));
        match cl.run(&net, cancel).await {
            Ran::Done(_, fin) => ensure!(!fin.contains(&id), "stopped", "the tracking handler stopped"),
            Ran::Timeout | Ran::Cancelled => {}
            r => bail!("run", "run ended with {r:?}"),
        }
        if let Some(v) = g.borrow_mut().bad.take() {
            return Err(v);
        }
    }
    let gg = g.borrow();
    ensure!(gg.seen == gg.wire.len(), "unprocessed", "{} of {} messages processed", gg.seen, gg.wire.len());
    check(src_of(cl.state()), cl.state().source_len().get(), &gg.me, tokens.as_ref()).or_else(|v| {
        // Nothing announced since the start: the length is as it was.
        if gg.wire.is_empty() {
            Ok(())
        } else {
            Err(v)
        }
    })?;
    let lines: Vec<_> = net.lines().split_off(before);
    let asked = asked.borrow();
    ensure!(asked.len() == 1 && asked[0] == vec![nick0], "userhost_query", "expected one USERHOST query for the own nick, got {:?} among {} lines", asked, lines.len());
    Ok(())
}

type Src = (Vec<u8>, Option<(Vec<u8>, Vec<u8>)>);

fn run() -> Res {
    let kind = Kind::any();
    let f = Faults::any();
    set_late(0);
    let via_reg = chance(1, 3);
    block_on(kind.tokio, async move {
        if via_reg {
            let mut c = Cfg::any();
            c.noise = 0;
            let (mut o, _) = gen_opts(&mut c, false);
            if let (Some(caps), true) = (&mut c.caps, coin()) {
                let m = gen_mech();
                c.mechs.push(srv_mech(&m, true));
                caps.push(("sasl".into(), None));
                o.sasl.push(m);
                o.allow_sasl_fail = true;
            }
            let reg: Reg = register_as_client();
            let mut gm = Game::start(&reg, &o, c, kind, f);
            let out = gm.play().await?;
            ensure!(matches!(out, Outcome::Ok), "failed", "registration reported {}", out.name());
            let (me, toks) = {
                let s = gm.srv.borrow();
                let a = s.done.clone().unwrap();
                let (u, h) = a.userhost.clone().unwrap_or((b"u".to_vec(), b"h.example".to_vec()));
                (Me { nick: a.nick.clone(), known: a.userhost.clone(), user: u, host: h }, a.tokens.clone())
            };
            // Whatever the client still had to say goes out first.
            let t = now() + 600 * SEC;
            while !gm.cl.queue().is_empty() && now() < t {
                gm.cl.flush(&gm.net).await.map_err(|e| crate::viol!("flush", "flush failed: {e}"))?;
                pause(kind.tokio, SEC).await;
            }
            gm.cl.flush(&gm.net).await.map_err(|e| crate::viol!("flush", "flush failed: {e}"))?;
            gm.cl.set_read_timeout(Some(Duration::from_millis(2000)));
            probe("after_registration");
            let Game { cl, net, .. } = gm;
            return play(cl, net, me, Some(toks), kind).await;
        }
        let net = Net::new(f);
        let mut logic = ClientLogic::new();
        logic.set_read_timeout(Some(Duration::from_millis(2000)));
        let mut cl = Cl::new(&net, kind, logic);
        let (mut u, h) = gen_uh();
        if !user_ok(&u) {
            u = b"~ok".to_vec();
        }
        let known = coin().then(|| (u.clone(), h.clone()));
        let nick = pick(&["me", "[Me]", "m", "averylongnicknameofmine"]).as_bytes().to_vec();
        let tokens = coin().then(|| {
            let mut t = BTreeMap::new();
            for k in ["NICKLEN", "USERLEN", "HOSTLEN"] {
                match below(3) {
                    0 => {}
                    1 => {
                        t.insert(k.to_string(), range(10, 200).to_string());
                    }
                    _ => {
                        t.insert(k.to_string(), "20".to_string());
                    }
                }
            }
            t
        });
        let st = cl.state_mut();
        if let Some(t) = &tokens {
            let mut m = NameMap::new();
            {
                let mut e = m.edit();
                for (k, v) in t {
                    e.insert((key(k), Word::from_bytes(v.clone().into_bytes()).unwrap()), ());
                }
            }
            st.insert::<state::ISupport>(m);
        }
        st.insert::<state::ClientSource>(Source {
            nick: Nick::from_bytes(nick.clone()).unwrap(),
            userhost: known.as_ref().map(|(u, h)| UserHost {
                user: Some(User::from_bytes(u.clone()).unwrap()),
                host: Word::from_bytes(h.clone()).unwrap(),
            }),
        });
        if let Some((u, h)) = &known {
            // The caller decides about the tilde.
            let s = st.get::<state::ClientSource>().cloned();
            let exact = st.update_source_len_from(s.as_ref(), false).get();
            let n = nick.len() + u.len() + h.len() + 2;
            checked(1);
            ensure!(exact == n && st.source_len().get() == n, "source_len", "a source of {n} bytes is given the length {exact}");
        }
        st.update_source_len();
        let me = Me { nick, known, user: u, host: h };
        play(cl, net, me, tokens, kind).await
    })
}
