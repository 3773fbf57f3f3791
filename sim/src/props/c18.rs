//! C18: capability negotiation asks for what is needed, offered, and nothing else.
use super::c05::*;
use crate::cl::*;
use crate::core::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::*;
use crate::{bail, ensure};
use std::collections::{BTreeMap, BTreeSet};
use vinezombie::client::auth::SaslQueue;
use vinezombie::client::nick::from_iter_or;
use vinezombie::client::register::*;
use vinezombie::string::{Key, Line, User};

pub const PROP: Prop = Prop {
    id: "C18",
    run,
    quick: 60_000,
    thorough: 2_000_000,
    max_steps: 600_000,
    rule: "each run: one registration whose capability selection is one of the four stock policies, a client or bot preset, or a custom function, with or without SASL, against a server advertising up to 80 capabilities with long names, on several lines, with ACKs split, reordered within and across requests, NAKs, and CAP NEW and DEL at any point; the requests, the reported failure, CAP END and the recorded map are compared with a model that reads the server's lines; non-trivial = a result was compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "no single capability name is so long that a reply with it alone would not fit a line",
    ],
};

#[derive(Clone, Debug)]
enum Sel {
    /// default_caps(caps, add_common, require)
    Stock(BTreeSet<String>, bool, bool),
    /// Every advertised capability whose length is in this residue class, plus these.
    Custom(usize, usize, BTreeSet<String>),
    All,
    Nothing,
}
const COMMON: &[&str] = &[
    "account-notify", "account-tag", "chghost", "extended-join", "extended-monitor", "invite-notify",
    "labeled-response", "message-tags", "msgid", "multi-prefix", "server-time", "setname", "standard-replies",
    "userhost-in-names",
];
impl Sel {
    fn select(&self, avail: &BTreeSet<String>) -> BTreeSet<String> {
        match self {
            Sel::Stock(c, common, require) => {
                let mut r: BTreeSet<String> =
                    if *require { c.clone() } else { c.intersection(avail).cloned().collect() };
                if *common {
                    r.extend(avail.iter().filter(|a| COMMON.contains(&a.as_str())).cloned());
                }
                r
            }
            Sel::Custom(m, k, extra) => avail.iter().filter(|a| a.len() % m == *k).chain(extra).cloned().collect(),
            Sel::All => avail.clone(),
            Sel::Nothing => BTreeSet::new(),
        }
    }
    fn cap_fn(&self) -> Box<dyn CapFn> {
        match self {
            Sel::Stock(c, a, b) => default_caps(c.iter().map(|s| key(s)).collect(), *a, *b),
            other => {
                let s = other.clone();
                Box::new(move |avail: &BTreeSet<Key<'_>>| -> BTreeSet<Key<'static>> {
                    let a = avail.iter().map(|k| k.to_utf8_lossy().into_owned()).collect();
                    s.select(&a).iter().map(|k| key(k)).collect()
                })
            }
        }
    }
}

struct NOpts {
    sel: Sel,
    nicks: Vec<String>,
    mechs: Vec<AnyMech>,
}

fn run() -> Res {
    let mut c = Cfg::any();
    c.noise = c.noise.min(200);
    if c.caps.is_none() && !chance(1, 5) {
        c.caps = Some(Vec::new());
    }
    let mut nicks = vec![pick(&["n", "nickname", "averyverylongnicknameindeedyes"]).to_string()];
    if coin() {
        nicks.push("x_another_one".into());
        c.nick_replies.push(433);
    }
    c.nick_max = *pick(&[5usize, 30, 100]);
    c.name = pick(&["irc.example.net", "s.x", "a.very.long.server.name.on.some.network.example.org"]).to_string();
    let mut mechs = Vec::new();
    if let Some(caps) = &mut c.caps {
        if chance(3, 5) {
            for i in 0..*pick(&[3u64, 10, 30, 80]) {
                let len = *pick(&[1usize, 3, 10, 25, 60, 150]);
                let name: String = (0..len).map(|k| (b'a' + ((i as usize * 7 + k) % 26) as u8) as char).collect();
                caps.push((format!("{}{name}{i}", pick(&["", "draft/", "example.com/"])), chance(1, 5).then(|| "v=1,x".to_string())));
            }
            probe("many_caps");
        }
        if chance(1, 3) {
            // Requests whose replies just fit or just do not.
            for i in 0..60u64 {
                caps.push((format!("+{}", 10 + i), None));
            }
            let len = range(1, 30) as usize;
            caps.push(("+".repeat(len), None));
        }
        if coin() {
            let n = range(1, 2);
            for _ in 0..n {
                let m = gen_mech();
                if mechs.iter().all(|x: &AnyMech| x.name() != m.name()) {
                    mechs.push(m);
                }
            }
        }
        if !mechs.is_empty() && !chance(1, 5) || chance(1, 8) {
            c.mechs = mechs.iter().map(|m| srv_mech(m, true)).collect();
            let list: Vec<String> = match below(4) {
                0 => vec!["OTHER".into()],
                _ => mechs.iter().map(|m| m.name()).collect(),
            };
            caps.push(("sasl".into(), coin().then(|| list.join(","))));
        }
        shuffle(caps);
        // Lists of more than a line are split.
        c.ls_split = c.ls_split.max(caps.len() as u64 / 10);
    }
    let adv: Vec<String> = c.caps.iter().flatten().map(|x| x.0.clone()).collect();
    let mut want: BTreeSet<String> = BTreeSet::new();
    for a in &adv {
        if chance(1, 2) {
            want.insert(a.clone());
        }
    }
    let missing = chance(1, 4);
    if missing {
        for _ in 0..range(1, 3) {
            want.insert(pick(&["not/there", "absent", "batch", "zzz-last", "account-tag", "sts"]).to_string());
        }
    }
    let sel = match below(8) {
        0..=3 => Sel::Stock(want, coin(), coin()),
        4 => {
            let m = range(1, 3) as usize;
            Sel::Custom(m, below(m as u64) as usize, if missing { want } else { BTreeSet::new() })
        }
        5 | 6 => Sel::All,
        _ => Sel::Nothing,
    };
    crate::ev!("selection {sel:?}");
    c.split_ack = coin();
    c.hold_ack = chance(1, 3);
    if chance(1, 4) {
        for _ in 0..range(1, 2) {
            if !adv.is_empty() {
                c.nak.insert(pick(&adv).clone());
            }
        }
    }
    if coin() {
        c.cap_rate = *pick(&[100u64, 400]);
        c.cap_new = vec![("late/cap".into(), Some("1".into())), ("late/other".into(), None)];
        c.cap_del = adv.clone();
        shuffle(&mut c.cap_del);
        c.cap_del.truncate(range(0, 3) as usize);
        // Something removed may come back.
        for d in &c.cap_del {
            if coin() {
                c.cap_new.push((d.clone(), coin().then(|| "again".to_string())));
            }
        }
        for _ in 0..below(3) {
            if !adv.is_empty() {
                c.cap_new.push((pick(&adv).clone(), coin().then(|| format!("v{}", below(3)))));
            }
        }
        shuffle(&mut c.cap_new);
        c.cap_new.retain(|x| x.0 != "sasl");
        c.cap_del.retain(|x| x != "sasl" || mechs.is_empty());
    }
    if !mechs.is_empty() {
        c.nak.remove("sasl");
    }
    set_late(swarm());
    let kind = Kind::any();
    let f = Faults::any();
    block_on(kind.tokio, async move {
        let reg: Register<NOpts> = register_as_custom(
            |_| None,
            |_| User::from_str("u"),
            |_| Line::from_str("r"),
            |o: &NOpts| Box::new(from_iter_or(nick("zz"), o.nicks.iter().map(|n| nick(n)).collect::<Vec<_>>())),
            |o| o.sel.cap_fn(),
            |o| (o.mechs.iter().collect::<SaslQueue>(), false),
        );
        let o = NOpts { sel, nicks, mechs };
        let preset = match &o.sel {
            Sel::Stock(c, true, false) => Some((false, c)),
            Sel::Stock(c, false, true) => Some((true, c)),
            _ => None,
        };
        let mut g = match preset {
            Some((bot, want)) if coin() => {
                // The presets for people and bots promise the same policies.
                probe(if bot { "bot_preset" } else { "client_preset" });
                let mut p = Opts::new();
                p.nicks = o.nicks.iter().map(|n| nick(n)).collect();
                p.caps = want.iter().map(|k| key(k)).collect();
                p.sasl = o.mechs.clone();
                p.allow_sasl_fail = true;
                let reg: Register<Opts> = if bot { register_as_bot() } else { register_as_client() };
                Game::start(&reg, &p, c, kind, f)
            }
            _ => Game::start(&reg, &o, c, kind, f),
        };
        let out = g.play().await?;
        let s = g.srv.borrow();
        if let Some(v) = &s.bad {
            return Err(v.clone());
        }
        judge(&g, &s, &out, &o)
    })
}

/// A CAP line of the server: subcommand, whether more follows, and the list.
fn cap_line(l: &[u8]) -> Option<(String, bool, Vec<(String, String)>)> {
    let l = String::from_utf8_lossy(l);
    let l = if l.starts_with(':') { l.split_once(' ')?.1 } else { &l };
    let rest = l.strip_prefix("CAP ")?;
    let (head, tail) = rest.split_once(" :")?;
    let h: Vec<&str> = head.split(' ').collect();
    let list = tail
        .split(' ')
        .filter(|x| !x.is_empty())
        .map(|x| x.split_once('=').map_or((x.to_string(), String::new()), |(a, b)| (a.to_string(), b.to_string())))
        .collect();
    Some((h[1].to_uppercase(), h.get(2) == Some(&"*"), list))
}

/// What an application that reads the capability messages itself makes of them: each line is what
/// it says, and the lines of one reply combine to the whole of it.
fn replies(out: &[Vec<u8>]) -> Res {
    use vinezombie::ircmsg::ServerMsg;
    let mut whole: Option<(vinezombie::client::cap::ServerMsgArgs<'static>, BTreeMap<String, String>, String)> = None;
    for l in out {
        let Some((sub, more, list)) = cap_line(l) else { continue };
        let line = Line::from_bytes(l.strip_suffix(b"\r\n").unwrap_or(l).to_vec()).expect("line");
        let m = ServerMsg::parse(line).expect("message").owning();
        let a = match vinezombie::client::cap::ServerMsgArgs::parse(&m.args) {
            Ok(a) => a,
            Err(e) => bail!("cap_line", "{} is not understood: {e}", show(l)),
        };
        let list: BTreeMap<String, String> = list.into_iter().filter(|(k, _)| Key::from_bytes(k.as_bytes().to_vec()).is_ok()).collect();
        fn plain(a: &vinezombie::client::cap::ServerMsgArgs<'_>) -> BTreeMap<String, String> {
            a.caps.iter().map(|(k, v)| (k.to_utf8_lossy().into_owned(), v.to_utf8_lossy().into_owned())).collect()
        }
        let got = (a.subcmd.into_arg().to_utf8_lossy().into_owned(), !a.is_last, plain(&a));
        ensure!(got == (sub.clone(), more, list.clone()), "cap_line", "{} reads as {got:?}", show(l));
        ensure!(list.keys().all(|k| a.contains(k)) && !a.contains("not-a-capability"), "cap_line", "{} reads as {got:?}, but does not contain some of these", show(l));
        let last = a.is_last;
        match whole.as_mut().map(|w| (w.0.combine(a), w)) {
            Some((None, w)) => {
                ensure!(!last || w.0.is_last, "cap_combine", "the last line of a reply does not complete it: {}", show(l));
                w.1.extend(list);
                ensure!(w.2 == sub && plain(&w.0) == w.1, "cap_combine", "with {} the reply is {:?}, but its lines list {:?}", show(l), plain(&w.0), w.1);
            }
            Some((Some(a), w)) => {
                ensure!(w.0.is_last || w.2 != sub, "cap_combine", "{} is refused as a part of an unfinished reply", show(l));
                whole = Some((a, list, sub));
            }
            None => {
                // Combining again would have to start from a message.
                let a = vinezombie::client::cap::ServerMsgArgs::parse(&m.args).ok().unwrap();
                whole = Some((a, list, sub));
            }
        }
        checked(1);
    }
    Ok(())
}

fn judge(g: &Game, s: &Srv, out: &Outcome, o: &NOpts) -> Res {
    checked(1);
    if chance(1, 4) {
        replies(&s.out)?;
    }
    let name = out.name();
    let mut map: BTreeMap<String, (String, bool)> = BTreeMap::new();
    let mut pending: Option<BTreeSet<String>> = None;
    let mut wanted: BTreeSet<String> = BTreeSet::new();
    let mut fail: Option<BTreeSet<String>> = None;
    let mut acked_at = 0;
    let processed = s.processed.get();
    for (i, l) in s.out.iter().take(processed).enumerate() {
        let Some((sub, more, list)) = cap_line(l) else { continue };
        match sub.as_str() {
            "LS" | "NEW" => {
                for (k, v) in list {
                    map.entry(k).or_default().0 = v;
                }
                if sub == "LS" && !more && pending.is_none() {
                    let avail: BTreeSet<String> = map.keys().cloned().collect();
                    let mut w = o.sel.select(&avail);
                    if let Some((v, _)) = map.get("sasl") {
                        if o.mechs.iter().any(|m| v.is_empty() || v.split(',').any(|x| x == m.name())) {
                            w.insert("sasl".into());
                        }
                    }
                    let miss: BTreeSet<String> = w.difference(&avail).cloned().collect();
                    if !miss.is_empty() {
                        fail = Some(miss);
                        break;
                    }
                    w.remove("sts");
                    acked_at = i + 1;
                    wanted = w.clone();
                    pending = Some(w);
                }
            }
            "ACK" => {
                for (k, _) in list {
                    map.entry(k.clone()).or_default().1 = true;
                    if let Some(p) = &mut pending {
                        if p.remove(&k) {
                            acked_at = i + 1;
                        }
                    }
                }
            }
            "NAK" | "DEL" => {
                let names: BTreeSet<String> = list.into_iter().map(|x| x.0).collect();
                if sub == "DEL" {
                    map.retain(|k, _| !names.contains(k));
                }
                if let Some(p) = &pending {
                    let miss: BTreeSet<String> = p.intersection(&names).cloned().collect();
                    if !miss.is_empty() {
                        fail = Some(miss);
                        break;
                    }
                }
            }
            _ => {}
        }
    }
    // What was requested.
    let mut asked: BTreeSet<String> = BTreeSet::new();
    for (list, nick_len) in &s.reqs {
        checked(1);
        ensure!(!list.is_empty(), "empty_req", "a CAP REQ without capabilities was sent");
        for c in list {
            ensure!(asked.insert(c.clone()), "twice", "{c} was requested twice");
        }
        let len: usize = list.iter().map(|c| c.len() + 1).sum::<usize>() - 1;
        let reply = if s.c.src_prefix { s.c.name.len() + 2 } else { 0 } + "CAP ".len() + nick_len + " ACK :".len() + len + 2;
        ensure!(reply <= 512, "reply_too_long", "the reply to a CAP REQ of {} capabilities takes {reply} bytes", list.len());
        if reply >= 505 {
            probe("reply_nearly_full");
        }
    }
    if s.reqs.len() > 1 {
        probe("several_requests");
    }
    ensure!(asked.is_subset(&wanted), "unwanted", "requested {:?} beyond the selection", asked.difference(&wanted).collect::<Vec<_>>());
    if let Some(f) = fail {
        probe("missing_reported");
        let Outcome::Err(HandlerError::MissingCaps(m)) = out else {
            bail!("missing_unreported", "required capabilities {f:?} are missing but registration reported {name}");
        };
        let m: BTreeSet<String> = m.iter().map(|k| k.to_utf8_lossy().into_owned()).collect();
        ensure!(m == f, "missing_set", "{f:?} are missing but registration reported {m:?}");
        ensure!(s.ended == 0 && s.done.is_none(), "registered_anyway", "capabilities are missing, yet CAP END was sent");
        return Ok(());
    }
    ensure!(asked == wanted, "not_requested", "selected but never requested: {:?}; {name}", wanted.difference(&asked).collect::<Vec<_>>());
    ensure!(s.done.is_some() && matches!(out, Outcome::Ok), "failed", "nothing required is missing but registration reported {name}");
    if s.c.caps.is_some() {
        ensure!(s.ended == 1, "cap_end", "CAP END was sent {} times", s.ended);
    }
    for l in &s.lines {
        if l.l.cmd == "CAP" && l.l.args.first().is_some_and(|a| a == b"END") {
            ensure!(l.processed >= acked_at, "end_early", "CAP END was sent before every request was acknowledged");
        }
    }
    probe("registered");
    checked(1);
    let caps = caps_of(&g.cl).unwrap_or_default();
    let d: Vec<_> = caps.iter().filter(|x| map.get(x.0) != Some(x.1)).collect();
    let e: Vec<_> = map.iter().filter(|x| caps.get(x.0) != Some(x.1)).collect();
    ensure!(caps == map, "map", "recorded but not so announced: {d:?}; announced but not so recorded: {e:?}");
    Ok(())
}
