//! C05: registration with a compliant server completes and records what it said.
use crate::cl::*;
use crate::core::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::*;
use crate::{bail, ensure};
use vinezombie::client::register::*;
use vinezombie::client::state;
use vinezombie::string::{Key, Line, Nick, User};

pub const PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 60_000,
    thorough: 2_000_000,
    max_steps: 600_000,
    rule: "each run: one registration (client or bot defaults, random password, nicks, capabilities and SASL mechanisms) against a simulated compliant server with random capabilities (values, multi-line lists, split and reordered ACKs, CAP NEW/DEL), nickname collisions and truncation, cookie PINGs, unrelated traffic, ISUPPORT tokens, delays, segmentation, interrupted and cancelled runs, or with a refusal at a random point; the reported result and the saved state are compared with what the server announced; non-trivial = a result was compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "the server follows IRCv3 registration (or ignores CAP altogether); nicks are refused with 433 or 436 here, 432 is part of C17",
        "capabilities removed by CAP DEL here are ones the client does not request; C18 covers the others",
    ],
};

pub fn nick(s: &str) -> Nick<'static> {
    Nick::from_bytes(s.as_bytes().to_vec()).expect("nick")
}
pub fn key(s: &str) -> Key<'static> {
    Key::from_bytes(s.as_bytes().to_vec()).expect("key")
}

/// Caps the stock configurations never request on their own.
pub const OTHER: &[&str] = &["batch", "echo-message", "draft/chathistory", "example.org/x", "away-notify", "znc.in/self-message"];

pub type Opts = Options<(), AnyMech>;

pub fn gen_mech() -> AnyMech {
    let s = |n: &str| n.as_bytes().to_vec();
    match below(4) {
        0 => AnyMech::Plain(s(""), s("user"), s("pass word")),
        1 => AnyMech::Password(s("zid"), s("user2"), vec![b'p'; range(1, 400) as usize]),
        2 => AnyMech::External(if coin() { s("") } else { s("ext-user") }),
        _ => AnyMech::Test(TestMech {
            name: pick(&["X-ONE", "X-TWO", "X-THREE"]).to_string(),
            key: below(1000),
            sizes: (0..range(1, 3)).map(|_| *pick(&[0usize, 1, 20, 299, 300, 301, 600, 1000])).collect(),
            broken_at: None,
        }),
    }
}
pub fn rounds(m: &AnyMech) -> usize {
    if let AnyMech::Test(t) = m {
        t.sizes.len()
    } else {
        1
    }
}
/// What the server does with a mechanism the client has.
pub fn srv_mech(m: &AnyMech, accept: bool) -> Mech {
    let n = rounds(m);
    let mut challenges: Vec<Vec<u8>> = vec![Vec::new(); n];
    if let AnyMech::Test(_) = m {
        for c in &mut challenges {
            let len = *pick(&[0usize, 1, 2, 5, 100, 299, 300, 301, 302, 599, 600, 601, 900, 1201]);
            // Some encode to chunks that begin with '+', '/' or look empty.
            let mut s = below(1 << 32);
            let fill = *pick(&[0u8, 0, 0xfb, 0xff, 0x2b]);
            *c = (0..len).map(|i| if fill != 0 && i % 300 < 2 { fill } else { splitmix(&mut s) as u8 }).collect();
        }
    }
    Mech { name: m.name(), challenges, accept, reject: *pick(&[904u16, 902]), partial: false, how: 0, garbage: None }
}
pub fn gen_opts(c: &mut Cfg, bot: bool) -> (Opts, usize) {
    let mut o = Opts::new();
    if coin() {
        let p: &str = pick(&["hunter2", "two words", ":colon", "x"]);
        o.set_pass(Line::from_bytes(p.as_bytes().to_vec()).unwrap()).unwrap();
    }
    let names = ["nick", "Other", "[third]", "q", "averyverylongnicknameindeed"];
    for n in names.iter().take(below(4) as usize) {
        o.nicks.push(nick(n));
    }
    if coin() {
        o.username = Some(User::from_bytes(pick(&["user", "~u", "x"]).as_bytes().to_vec()).unwrap());
    }
    if coin() {
        o.realname = Some(Line::from_bytes(pick(&["Real Name", "r", ":-)", ""]).as_bytes().to_vec()).unwrap());
    }
    let avail: Vec<String> = c.caps.iter().flatten().map(|x| x.0.clone()).collect();
    for n in CAPNAMES {
        let have = avail.iter().any(|a| a == n);
        if chance(1, 5) && (!bot || have) {
            o.caps.insert(key(n));
        }
    }
    let free = o.nicks.len() + 3;
    (o, free)
}

pub fn caps_of(cl: &Cl) -> Option<std::collections::BTreeMap<String, (String, bool)>> {
    let m = cl.state().get::<state::Caps>()?;
    let mut out = std::collections::BTreeMap::new();
    for k in m.keys() {
        let v = m.get_union_raw(k).map(|u| u.1.to_utf8_lossy().into_owned()).unwrap_or("<none>".into());
        let e = m.get_extra_raw(k).copied().unwrap_or(false);
        out.insert(k.to_utf8_lossy().into_owned(), (v, e));
    }
    Some(out)
}
pub fn tokens_of(cl: &Cl) -> Option<std::collections::BTreeMap<String, String>> {
    let m = cl.state().get::<state::ISupport>()?;
    Some(
        m.keys()
            .map(|k| {
                let v = m.get_union_raw(k).map(|u| u.1.to_utf8_lossy().into_owned()).unwrap_or("<none>".into());
                (k.to_utf8_lossy().into_owned(), v)
            })
            .collect(),
    )
}
type Src = (Vec<u8>, Option<(Vec<u8>, Vec<u8>)>);
pub fn source_of(cl: &Cl) -> Option<Src> {
    cl.state().get::<state::ClientSource>().map(|s| {
        (
            s.nick.as_bytes().to_vec(),
            s.userhost.as_ref().map(|u| {
                (u.user.as_ref().map(|x| x.as_bytes().to_vec()).unwrap_or_default(), u.host.as_bytes().to_vec())
            }),
        )
    })
}
/// The assumed source length for a source of which some parts may be unknown.
/// A username without a tilde counts as if it had one, as servers leave it out in some messages.
pub fn assumed_len(src: &Src, tokens: Option<&std::collections::BTreeMap<String, String>>) -> usize {
    let n = src.0.len();
    match (&src.1, tokens) {
        (Some((u, h)), _) => n + u.len() + (u.first() != Some(&b'~')) as usize + h.len() + 2,
        (None, Some(t)) => {
            let g = |k: &str, d: usize| t.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
            n + g("USERLEN", 10) + g("HOSTLEN", 64) + 2
        }
        (None, None) => 85,
    }
}

pub fn check_saved(cl: &Cl, a: &Ann) -> Res {
    checked(7);
    let Some(src) = source_of(cl) else { bail!("no_source", "registration succeeded without saving the client's source") };
    ensure!(src.0 == a.nick, "nick", "saved nickname {} but the server uses {}", show(&src.0), show(&a.nick));
    ensure!(src.1 == a.userhost, "userhost", "saved user and host {:?} but the server announced {:?}", src.1, a.userhost);
    let acc = cl.state().get::<state::Account>().cloned().flatten().map(|x| x.as_bytes().to_vec());
    ensure!(acc == a.account, "account", "saved account {:?} but the server announced {:?}", acc.map(|x| show(&x)), a.account.as_ref().map(|x| show(x)));
    let caps = caps_of(cl).unwrap_or_default();
    ensure!(caps == a.caps, "caps", "saved capabilities {caps:?} but the server announced {:?}", a.caps);
    let toks = tokens_of(cl).unwrap_or_default();
    ensure!(toks == a.tokens, "isupport", "saved ISUPPORT {toks:?} but the server announced {:?}", a.tokens);
    let v = cl.state().get::<state::ServerVersion>().map(|v| v.to_utf8_lossy().into_owned());
    ensure!(v == a.version, "version", "saved version {v:?} but the server announced {:?}", a.version);
    let s = cl.state().get::<state::ServerSource>().map(|s| s.to_string());
    ensure!(s == a.source, "server_source", "saved server name {s:?} but the server calls itself {:?}", a.source);
    let len = cl.state().source_len().get();
    let exp = assumed_len(&src, Some(&a.tokens));
    ensure!(exp == len, "source_len", "the assumed source length is {len}, expected {exp}");
    check_views(cl, a)
}

/// The typed views of what was recorded say what was announced.
pub fn check_views(cl: &Cl, a: &Ann) -> Res {
    use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};
    use vinezombie::names::{cap, isupport as is};
    use vinezombie::state::{Mode, ModeType, ServerChanModes};
    let empty = Default::default();
    let n = cl.state().get::<state::ISupport>().unwrap_or(&empty);
    let t = &a.tokens;
    let text = |k: &str| t.get(k).map(|s| s.as_str());
    macro_rules! same {
        ($k:ident, $want:expr) => {{
            let got = n.get_parsed(is::$k).map(|r| r.ok());
            let want = text(stringify!($k)).map($want);
            ensure!(got == want, "isupport_value", "{} was announced as {:?} and reads as {:?}, expected {:?}", stringify!($k), text(stringify!($k)), got, want);
        }};
    }
    macro_rules! nums {
        ($($k:ident)*) => { $( same!($k, |v: &str| v.parse::<NonZeroU16>().ok()); )* };
    }
    nums!(AWAYLEN CHANNELLEN HOSTLEN KICKLEN MODES NICKLEN TOPICLEN USERLEN);
    same!(MONITOR, |v: &str| if v.is_empty() { Some(None) } else { v.parse::<NonZeroU32>().ok().map(Some) });
    same!(SILENCE, |v: &str| if v.is_empty() { Some(None) } else { v.parse::<NonZeroU32>().ok().map(Some) });
    same!(KNOCK, |_: &str| Some(()));
    same!(SAFELIST, |_: &str| Some(()));
    same!(WHOX, |_: &str| Some(()));
    let ml = |v: &str, d: Option<u8>| v.bytes().next().or(d).and_then(Mode::new);
    same!(BOT, |v: &str| ml(v, None));
    same!(CALLERID, |v: &str| ml(v, Some(b'g')));
    same!(EXCEPTS, |v: &str| ml(v, Some(b'e')));
    same!(INVEX, |v: &str| ml(v, Some(b'I')));
    let net = n.get_parsed(is::NETWORK).map(|r| r.ok().map(|w| w.to_utf8_lossy().into_owned()));
    ensure!(net == text("NETWORK").map(|v| Some(v.to_owned())), "isupport_value", "the network {:?} reads as {net:?}", text("NETWORK"));

    // What type of channel mode each letter is.
    let groups: Vec<&str> = text("CHANMODES").unwrap_or("").split(',').take(4).collect();
    let types = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD];
    let plain = |c: char| -> Option<ModeType> {
        let mut hits = (0..groups.len()).filter(|i| groups[*i].contains(c));
        match (hits.next(), hits.next()) {
            (Some(i), None) => Some(types[i]),
            _ => None, // A letter announced with two types has no known one.
        }
    };
    // Statuses: the letters between parentheses pair with the prefixes after them, in order.
    let status: Option<Vec<(char, Option<u8>)>> = text("PREFIX").and_then(|v| {
        let (m, p) = v.strip_prefix('(')?.split_once(')')?;
        let out: Vec<_> = m.chars().enumerate().map(|(i, c)| (c, p.as_bytes().get(i).copied())).collect();
        Some(out.into_iter().filter(|(c, _)| c.is_ascii_alphabetic()).collect())
    });
    let modes = ServerChanModes::from_isupport(n);
    let raw = n.get_parsed(is::CHANMODES).and_then(|r| r.ok());
    let pre = n.get_parsed(is::PREFIX).map(|r| r.ok());
    let want_pre = text("PREFIX").map(|_| status.is_some());
    ensure!(pre.as_ref().map(|x| x.is_some()) == want_pre, "prefix_value", "PREFIX {:?} reads as {pre:?}", text("PREFIX"));
    let pre = pre.flatten().unwrap_or_default();
    let status = status.unwrap_or_default();
    for c in ('a'..='z').chain('A'..='Z') {
        let m = Mode::new(c as u8).unwrap();
        ensure!(m.into_char() == c && m.to_string() == c.to_string(), "mode", "the mode {c} reads as {m}");
        let want = plain(c);
        let got = raw.as_ref().and_then(|r| r.get(m));
        ensure!(got == want, "chanmode_type", "channel mode {c} is {got:?}, but CHANMODES {:?} makes it {want:?}", text("CHANMODES"));
        let st = status.iter().find(|x| x.0 == c);
        let want = if st.is_some() { Some(ModeType::Status) } else { want };
        let got = modes.get(m);
        ensure!(got == want, "chanmode_type", "channel mode {c} is {got:?} to the server's modes, but PREFIX {:?} and CHANMODES {:?} make it {want:?}", text("PREFIX"), text("CHANMODES"));
        ensure!(pre.contains(m) == st.is_some(), "status", "the status mode {c}: {} for PREFIX {:?}", pre.contains(m), text("PREFIX"));
        let got = pre.get_prefix(m).map(|p| p.get());
        let want = st.and_then(|x| x.1);
        ensure!(got == want, "status", "the status mode {c} has prefix {got:?}, but PREFIX {:?} gives it {want:?}", text("PREFIX"));
    }
    for p in 1..=255u8 {
        let got = pre.get_mode(NonZeroU8::new(p).unwrap()).map(|m| m.into_char());
        let want = status.iter().find(|x| x.1 == Some(p)).map(|x| x.0);
        ensure!(got == want, "status", "the prefix {:?} is of mode {got:?}, but PREFIX {:?} makes it {want:?}", p as char, text("PREFIX"));
    }
    if let Some(r) = raw {
        let text = r.to_string();
        let (again, over, rest) = vinezombie::state::ModeTypes::parse(text.as_bytes());
        ensure!(again == r && over.is_empty() && rest.is_empty(), "chanmode_text", "{r:?} is written as {r} and reads back as {again:?}");
    }
    // Mechanisms: every one listed, whatever its case.
    if let Some(m) = cl.state().get::<state::Caps>() {
        let got = m.get_parsed(cap::SASL).and_then(|r| r.ok()).map(|s| s.iter().map(|w| w.to_utf8_lossy().into_owned()).collect::<Vec<_>>());
        let want = a.caps.get("sasl").map(|v| {
            let mut l: Vec<_> = v.0.split(',').filter(|x| !x.is_empty()).map(|x| x.to_ascii_uppercase()).collect();
            l.sort();
            l.dedup();
            l
        });
        ensure!(got == want, "sasl_value", "the sasl capability {:?} lists {got:?}, expected {want:?}", a.caps.get("sasl"));
        // The map says the same whichever way it is asked.
        macro_rules! ask {
            ($($k:ident $t:literal)*) => { $(
                let (x, y) = (m.get_extra(cap::$k).copied(), a.caps.get($t).map(|v| v.1));
                ensure!(x == y && m.get_union(cap::$k).is_some() == y.is_some(), "cap_asked", "the capability {} is {x:?}, {y:?} expected", $t);
            )* };
        }
        ask!(ACCOUNT_NOTIFY "account-notify" ACCOUNT_TAG "account-tag" BATCH "batch" CHGHOST "chghost" ECHO_MESSAGE "echo-message" EXTENDED_JOIN "extended-join" EXTENDED_MONITOR "extended-monitor" INVITE_NOTIFY "invite-notify" LABELED_RESPONSE "labeled-response" MESSAGE_TAGS "message-tags" MSGID "msgid" MULTI_PREFIX "multi-prefix" SASL "sasl" SERVER_TIME "server-time" SETNAME "setname" STANDARD_REPLIES "standard-replies" STS "sts" USERHOST_IN_NAMES "userhost-in-names");
        let both = m.get_both(cap::SASL).map(|(r, x)| (r.is_ok(), *x));
        ensure!(both == a.caps.get("sasl").map(|v| (true, v.1)), "cap_asked", "asked for both, the sasl capability is {both:?}");
        let keys: Vec<_> = m.keys().map(|k| k.to_utf8_lossy().into_owned()).collect();
        let mut back: Vec<_> = m.keys().rev().map(|k| k.to_utf8_lossy().into_owned()).collect();
        back.reverse();
        let mut want: Vec<String> = a.caps.keys().cloned().collect();
        let mut set = keys.clone();
        set.sort();
        want.sort();
        ensure!(keys == back && set == want && m.len() == want.len() && m.keys().len() == want.len() && m.is_empty() == want.is_empty(), "cap_keys", "the capabilities {want:?} are listed as {keys:?} and backwards as {back:?}");
        let mut c = m.clone();
        ensure!(c == *m, "cap_edit", "a copy of the capabilities differs");
        let mut e = c.edit();
        let old = e.remove(cap::SASL).map(|(_, x)| x);
        ensure!(old == a.caps.get("sasl").map(|v| v.1) && e.get_extra(cap::SASL).is_none(), "cap_edit", "removing sasl returned {old:?}");
        if let Some(x) = e.get_extra_mut(cap::BATCH) {
            *x = !*x;
        }
        drop(e);
        let flipped = c.get_extra(cap::BATCH).is_none_or(|x| a.caps.get("batch").is_some_and(|v| v.1 != *x));
        let n = c.keys().filter(|k| k.as_bytes() != b"sasl").count();
        ensure!(flipped && n == c.len() && n + old.is_some() as usize == want.len(), "cap_edit", "after removing sasl there are {} capabilities", c.len());
        c.clear();
        ensure!(c.is_empty() && c.keys().next().is_none() && (m.is_empty() || c != *m), "cap_edit", "cleared, the capabilities are {:?}", c.keys().collect::<Vec<_>>());
    }
    checked(120);
    Ok(())
}

fn host() -> String {
    pick(&["irc2.example.net", "irc-3.example.net", "under_score.example", "192.0.2.7", "2001:db8::7"]).to_string()
}

fn run() -> Res {
    let mut c = Cfg::any();
    let bot = coin();
    let (mut o, free) = gen_opts(&mut c, bot);
    if o.nicks.iter().any(|n| n.len() > 20) || chance(1, 5) {
        c.nick_max = range(4, 20) as usize;
    }
    for _ in 0..*pick(&[0u64, 0, 1, 2]).min(&(free as u64)) {
        c.nick_replies.push(*pick(&[433u16, 436]));
    }
    if chance(1, 2) {
        for _ in 0..range(1, 3) {
            let m = gen_mech();
            if o.sasl.iter().all(|x| x.name() != m.name()) {
                o.sasl.push(m);
            }
        }
        o.allow_sasl_fail = coin();
        if let Some(caps) = &mut c.caps {
            let ok = o.sasl.len() as u64 - 1;
            let good = if o.allow_sasl_fail && coin() { u64::MAX } else { below(ok + 1) };
            for (i, m) in o.sasl.iter().enumerate() {
                c.mechs.push(srv_mech(m, i as u64 == good));
            }
            let list: Vec<String> = c.mechs.iter().map(|m| m.name.clone()).collect();
            caps.push(("sasl".into(), coin().then(|| list.join(","))));
            shuffle(caps);
        } else {
            o.allow_sasl_fail = true;
        }
    }
    if o.allow_sasl_fail && chance(1, 3) {
        // Not being logged in any more is no reason to fail, but changes who we are.
        c.logout = Some(coin());
        c.relog = coin();
    }
    c.split_ack = coin();
    if c.caps.is_some() && coin() {
        c.cap_rate = 200;
        c.cap_new = vec![("late/cap".into(), Some("1".into())), ("late/other".into(), None), ("late/cap".into(), Some("2".into()))];
        for n in OTHER {
            if !o.caps.contains(&key(n)) {
                c.cap_del.push(n.to_string());
            }
        }
        shuffle(&mut c.cap_del);
    }
    if chance(1, 3) {
        let w = *pick(&[When::Welcome, When::Nick, When::User, When::Ls, When::End, When::Burst]);
        let r = match below(6) {
            0 => Refuse::Denied(*pick(&[464u16, 465])),
            1 => Refuse::Redir(host(), range(1, 65535) as u16),
            2 if w != When::Burst => Refuse::Bounce(host(), range(1, 65535) as u16),
            3 => Refuse::ErrorCmd,
            4 => Refuse::FailCmd,
            _ => Refuse::Numeric(*pick(&[451u16, 431, 437, 461, 462, 463, 466, 484, 400])),
        };
        c.refuse = Some((w, r));
    }
    set_late(swarm());
    let kind = Kind::any();
    let f = Faults::any();
    let o2 = o.clone();
    block_on(kind.tokio, async move {
        let reg: Reg = if bot { register_as_bot() } else { register_as_client() };
        let mut g = Game::start(&reg, &o2, c, kind, f);
        let out = g.play().await?;
        let s = g.srv.borrow();
        judge(&g, &s, &out, &o2)
    })
}

fn judge(g: &Game, s: &Srv, out: &Outcome, o: &Opts) -> Res {
    if let Some(v) = &s.bad {
        return Err(v.clone());
    }
    checked(1);
    let name = out.name();
    ensure!(s.ended <= 1, "cap_end_twice", "CAP END was sent {} times", s.ended);
    // What the client introduced itself with.
    if let Some(u) = &s.user {
        ensure!(u.len() == 4, "user_args", "USER has {} arguments", u.len());
        if let Some(n) = &o.username {
            ensure!(u[0] == n.as_bytes(), "username", "USER carries username {}", show(&u[0]));
        }
        if let Some(n) = &o.realname {
            ensure!(u[3] == n.as_bytes(), "realname", "USER carries realname {}", show(&u[3]));
        }
        let want = o.pass.as_ref().map(|p| p.as_bytes().to_vec());
        ensure!(s.pass == want, "password", "the password received is {:?}", s.pass.as_ref().map(|x| show(x)));
    }
    if let (Some(first), Some(n)) = (s.nicks.first(), o.nicks.first()) {
        ensure!(first == n.as_bytes(), "first_nick", "the first nickname offered is {}", show(first));
    }
    if let Some((r, line)) = &s.refused {
        let text = format!("No, {}", s.c.name);
        let ok = match (r, out) {
            (Refuse::Denied(_), Outcome::Err(HandlerError::NoAccess(l))) => l.as_bytes() == text.as_bytes(),
            (Refuse::Redir(h, p), Outcome::Err(HandlerError::Redirect(w, q, l))) => {
                w.as_bytes() == h.as_bytes() && q == p && l.as_bytes() == text.as_bytes()
            }
            (Refuse::Bounce(h, p), Outcome::Err(HandlerError::Redirect(w, q, _))) => w.as_bytes() == h.as_bytes() && q == p,
            (Refuse::Numeric(_) | Refuse::ErrorCmd | Refuse::FailCmd, Outcome::Err(HandlerError::ServerError(m))) => {
                m.to_string().as_bytes() == &line[..]
            }
            _ => false,
        };
        ensure!(ok, "refusal", "the server refused with {} but registration reported {name}", show(line));
        probe("refusal_reported");
        return Ok(());
    }
    let Some(a) = &s.done else {
        bail!("incomplete", "a compliant server did not get to the end of registration; the client reported {name}")
    };
    ensure!(matches!(out, Outcome::Ok), "failed", "the server completed registration but the client reported {name}");
    ensure!(s.c.caps.is_none() || s.ended == 1, "no_cap_end", "registration completed with {} CAP END", s.ended);
    probe("registered");
    check_saved(&g.cl, a)
}
