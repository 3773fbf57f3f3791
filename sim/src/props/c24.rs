//! C24: a view of a channel kept with the library's modes and case mapping is the server's.
use crate::cl::*;
use crate::core::*;
use crate::hand::*;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::{Cfg, Game, Outcome};
use crate::{bail, ensure, ev};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::num::NonZeroU8;
use std::ops::ControlFlow;
use std::rc::Rc;
use vinezombie::client::register::{register_as_client, Options, Register};
use vinezombie::client::state;
use vinezombie::ircmsg::{ClientMsg, ServerMsg, ServerMsgKindRaw};
use vinezombie::names::isupport as is;
use vinezombie::state::{Mode, ModeSet, ModeType, ModeTypes, ServerChanModes, StatusModes};
use vinezombie::string::tf::IrcCasemap;
use vinezombie::string::{Arg, Key, Nick};

pub const PROP: Prop = Prop {
    id: "C24",
    run,
    quick: 60_000,
    thorough: 2_000_000,
    max_steps: 600_000,
    rule: "each run registers a client with a simulated server that announces random mode types, status prefixes and case mapping, then plays a history of joins, parts, kicks, quits, nickname changes, mode changes and resynchronisations with names in any letter case over a faulty link; an application in the client keeps a view of the channel using only the library's mode and case mapping types, and after every message the view is compared with the server's own state at that message; at times the application asks for a change computed from its sets of modes, and the server's state afterwards must be the one asked for; non-trivial = some message was compared",
    real: super::REAL_CLIENT,
    stub: &["transport (in-memory byte streams with seeded faults)", "IRC server with one channel (reactive model)", "the application that keeps the view (part of the harness, built on the library's types)", "clock, sleep and randomness (interposed libc calls, virtual time)"],
    assumptions: &["the server announces each mode letter with one type"],
};

// ---------- the server's side ----------

#[derive(Clone, Copy, PartialEq)]
enum Map {
    Ascii,
    Strict,
    Rfc,
}
impl Map {
    fn lower(self, s: &str) -> String {
        s.chars()
            .map(|c| match (c, self) {
                ('A'..='Z', _) => ((c as u8) + 32) as char,
                ('[', Map::Strict | Map::Rfc) => '{',
                (']', Map::Strict | Map::Rfc) => '}',
                ('\\', Map::Strict | Map::Rfc) => '|',
                ('~', Map::Rfc) => '^',
                _ => c,
            })
            .collect()
    }
    /// The same name, differently written.
    fn vary(self, s: &str) -> String {
        s.chars()
            .map(|c| {
                if !coin() {
                    return c;
                }
                match (c, self) {
                    ('A'..='Z', _) => c.to_ascii_lowercase(),
                    ('a'..='z', _) => c.to_ascii_uppercase(),
                    ('[', Map::Strict | Map::Rfc) => '{',
                    (']', Map::Strict | Map::Rfc) => '}',
                    ('\\', Map::Strict | Map::Rfc) => '|',
                    ('{', Map::Strict | Map::Rfc) => '[',
                    ('}', Map::Strict | Map::Rfc) => ']',
                    ('|', Map::Strict | Map::Rfc) => '\\',
                    ('~', Map::Rfc) => '^',
                    ('^', Map::Rfc) => '~',
                    _ => c,
                }
            })
            .collect()
    }
}

/// A channel. Names are in lower case.
#[derive(Clone, PartialEq, Debug, Default)]
struct Chan {
    /// Modes that are set, with their parameter.
    modes: BTreeMap<char, Option<String>>,
    lists: BTreeMap<char, BTreeSet<String>>,
    members: BTreeMap<String, BTreeSet<char>>,
}

struct Sv {
    map: Map,
    /// Letters of the types A to D.
    groups: [Vec<char>; 4],
    status: Vec<(char, Option<u8>)>,
    c: Chan,
    me: String,
    chan: String,
    /// What the channel was after each line sent.
    hist: Vec<Chan>,
    /// Modes the application asked for.
    want: Option<BTreeSet<char>>,
}

const NAMES: &[&str] = &["alice", "bob[x]", "c\\d", "Eve~", "f^g", "a{b}", "A[b", "z|z", "caf\u{e9}", "q`w", "_u-1", "a{b", "Eve^"];

impl Sv {
    fn any() -> Sv {
        let mut l: Vec<char> = ('a'..='z').chain('A'..='Z').collect();
        shuffle(&mut l);
        let mut take = |n: u64| (0..n).map(|_| l.pop().unwrap()).collect::<Vec<char>>();
        let groups = [take(below(4)), take(below(4)), take(below(4)), take(range(1, 12))];
        let st = take(below(6));
        let mut p = b"~&@%+!.".to_vec();
        shuffle(&mut p);
        let np = if chance(1, 5) { below(st.len() as u64 + 1) as usize } else { st.len() };
        let status = st.into_iter().enumerate().map(|(i, c)| (c, (i < np).then(|| p[i]))).collect();
        Sv {
            map: *pick(&[Map::Ascii, Map::Strict, Map::Rfc]),
            groups,
            status,
            c: Chan::default(),
            me: String::new(),
            chan: pick(&["#chan", "#a[b]", "&Lo\\cal", "#~x^"]).to_string(),
            hist: Vec::new(),
            want: None,
        }
    }
    fn tokens(&self) -> Vec<(String, Option<String>)> {
        let g: Vec<String> = self.groups.iter().map(|g| g.iter().collect()).collect();
        let m: String = self.status.iter().map(|x| x.0).collect();
        let p: String = self.status.iter().filter_map(|x| x.1).map(|x| x as char).collect();
        let cm = match self.map {
            Map::Ascii => "ascii",
            Map::Strict => "rfc1459-strict",
            Map::Rfc => "rfc1459",
        };
        let mut t: Vec<(String, Option<String>)> = vec![
            ("CHANMODES".into(), Some(g.join(","))),
            ("PREFIX".into(), Some(format!("({m}){p}"))),
            ("CASEMAPPING".into(), Some(cm.into())),
            ("NETWORK".into(), Some("sim".into())),
        ];
        shuffle(&mut t);
        t
    }
    fn member(&self) -> Option<String> {
        let l: Vec<&String> = self.c.members.keys().collect();
        (!l.is_empty()).then(|| pick(&l).to_string())
    }
    fn shown(&self, n: &str) -> String {
        self.map.vary(n)
    }
    /// Applies one change, returning its argument if it is one.
    fn change(&mut self, on: bool, m: char, arg: Option<&str>) {
        if self.status.iter().any(|x| x.0 == m) {
            let n = self.map.lower(arg.unwrap());
            if let Some(s) = self.c.members.get_mut(&n) {
                if on {
                    s.insert(m);
                } else {
                    s.remove(&m);
                }
            }
        } else if self.groups[0].contains(&m) {
            let l = self.c.lists.entry(m).or_default();
            if on {
                l.insert(arg.unwrap().into());
            } else {
                l.remove(arg.unwrap());
            }
            if l.is_empty() {
                self.c.lists.remove(&m);
            }
        } else if on {
            self.c.modes.insert(m, arg.map(String::from));
        } else {
            self.c.modes.remove(&m);
        }
    }
    fn needs(&self, on: bool, m: char) -> bool {
        self.status.iter().any(|x| x.0 == m) || self.groups[0].contains(&m) || self.groups[1].contains(&m) || (on && self.groups[2].contains(&m))
    }
    fn mode_line(&mut self) -> Option<String> {
        let all: Vec<char> = self.groups.iter().flatten().copied().chain(self.status.iter().map(|x| x.0)).collect();
        let mut text = String::new();
        let mut args: Vec<String> = Vec::new();
        let mut sign = None;
        for _ in 0..range(1, 7) {
            let m = *pick(&all);
            let on = coin();
            let arg = self.needs(on, m).then(|| {
                if self.status.iter().any(|x| x.0 == m) {
                    self.member().map(|n| self.shown(&n)).unwrap_or_default()
                } else {
                    pick(&["*!*@bad.example", "key", "10", "x", "+k", "-", "*"]).to_string()
                }
            });
            if arg.as_deref() == Some("") {
                continue;
            }
            if sign != Some(on) || chance(1, 8) {
                text.push(if on { '+' } else { '-' });
                sign = Some(on);
            }
            text.push(m);
            self.change(on, m, arg.as_deref());
            args.extend(arg);
        }
        if text.is_empty() {
            return None;
        }
        let mut l = format!("{} MODE {} {text}", self.who(), self.map.vary(&self.chan));
        let n = args.len();
        for (i, a) in args.into_iter().enumerate() {
            l.push(' ');
            if i + 1 == n && coin() {
                l.push(':');
            }
            l.push_str(&a);
        }
        Some(l)
    }
    fn who(&self) -> String {
        match self.member() {
            Some(n) if coin() => format!(":{}!u@h.example", self.shown(&n)),
            _ => ":irc.example.net".into(),
        }
    }
    /// The channel as a newcomer is told: who is there, and what is set.
    fn sync(&mut self, out: &mut Vec<(String, Chan)>) {
        let mut names: Vec<String> = Vec::new();
        for (n, s) in &self.c.members {
            let mut t = String::new();
            for (m, p) in &self.status {
                if let (true, Some(p)) = (s.contains(m), p) {
                    t.push(*p as char);
                }
            }
            names.push(format!("{t}{}", self.map.vary(n)));
        }
        shuffle(&mut names);
        let c = self.map.vary(&self.chan);
        let me = self.me.clone();
        // Statuses without a prefix cannot be told this way.
        for s in self.c.members.values_mut() {
            s.retain(|m| self.status.iter().any(|x| x.0 == *m && x.1.is_some()));
        }
        // A half told list is not compared.
        out.push((format!(":irc.example.net 324 {me} {c} +"), Chan { members: Default::default(), ..Chan::default() }));
        let mut text = String::from("+");
        let mut args = String::new();
        for (m, a) in &self.c.modes {
            text.push(*m);
            if let Some(a) = a {
                args.push(' ');
                args.push_str(a);
            }
        }
        self.c.lists.clear();
        out.push((format!(":irc.example.net 324 {me} {c} {text}{args}"), Chan { modes: self.c.modes.clone(), ..Chan::default() }));
        let mut so = Chan { modes: self.c.modes.clone(), ..Chan::default() };
        while !names.is_empty() {
            let k = (range(1, 4) as usize).min(names.len());
            let part: Vec<String> = names.drain(..k).collect();
            for n in &part {
                let bare = n.trim_start_matches(|c: char| self.status.iter().any(|x| x.1 == Some(c as u8) && c.is_ascii()));
                let low = self.map.lower(bare);
                // A nickname that begins like a prefix is told apart by who is there.
                let low = if self.c.members.contains_key(&low) { low } else { self.map.lower(n) };
                so.members.insert(low.clone(), self.c.members[&low].clone());
            }
            out.push((format!(":irc.example.net 353 {me} = {c} :{}", part.join(" ")), so.clone()));
        }
    }
    fn op(&mut self, out: &mut Vec<(String, Chan)>) {
        let c = self.map.vary(&self.chan);
        let l = match below(12) {
            0 | 1 => {
                let n = pick(NAMES).to_string();
                let low = self.map.lower(&n);
                if self.c.members.contains_key(&low) || low == self.map.lower(&self.me) {
                    return;
                }
                self.c.members.insert(low, BTreeSet::new());
                format!(":{}!u@h JOIN {c}", self.shown(&n))
            }
            2 => {
                let Some(n) = self.member().filter(|n| *n != self.map.lower(&self.me)) else { return };
                self.c.members.remove(&n);
                match below(3) {
                    0 => format!(":{}!u@h PART {c} :bye", self.shown(&n)),
                    1 => format!(":{}!u@h QUIT :bye", self.shown(&n)),
                    _ => format!("{} KICK {c} {} :out", self.who(), self.shown(&n)),
                }
            }
            3 | 4 => {
                let Some(n) = self.member().filter(|n| *n != self.map.lower(&self.me)) else { return };
                let to = if chance(1, 3) { self.shown(&n) } else { pick(NAMES).to_string() };
                let low = self.map.lower(&to);
                if low != n && self.c.members.contains_key(&low) {
                    return;
                }
                let s = self.c.members.remove(&n).unwrap();
                self.c.members.insert(low, s);
                format!(":{}!u@h NICK {}{to}", self.shown(&n), pick(&["", ":"]))
            }
            5 if chance(1, 3) => return self.sync(out),
            6 => format!("{} PRIVMSG {c} :hello", self.who()),
            _ => match self.mode_line() {
                Some(l) => l,
                None => return,
            },
        };
        out.push((l, self.c.clone()));
    }
}

// ---------- the application ----------

fn mode(c: u8) -> Res<Mode> {
    match Mode::new(c) {
        Some(m) => Ok(m),
        None => bail!("mode", "{} is not accepted as a mode", c as char),
    }
}
fn chars(s: ModeSet) -> BTreeSet<char> {
    s.into_iter().map(|m| m.into_char()).collect()
}

struct View {
    map: IrcCasemap,
    types: ServerChanModes,
    status: StatusModes,
    chan: Arg<'static>,
    set: ModeSet,
    params: BTreeMap<Mode, String>,
    lists: BTreeMap<Mode, BTreeSet<String>>,
    members: BTreeMap<Nick<'static>, ModeSet>,
}
impl View {
    fn key(&self, n: &Nick<'_>) -> Nick<'static> {
        let mut n = n.clone().owning();
        n.transform(self.map);
        n
    }
    fn key_of(&self, b: &[u8]) -> Res<Nick<'static>> {
        match Nick::from_bytes(b.to_vec()) {
            Ok(n) => Ok(self.key(&n)),
            Err(e) => bail!("nick", "the nickname {} is refused: {e}", show(b)),
        }
    }
    fn apply(&mut self, text: &[u8], args: &mut VecDeque<Vec<u8>>) -> Res {
        let mut on = true;
        for c in text {
            match c {
                b'+' => on = true,
                b'-' => on = false,
                c => {
                    let m = mode(*c)?;
                    let Some(ty) = self.types.get(m) else { bail!("mode_type", "the type of mode {m} is not known") };
                    let takes = if on { ty.needs_arg_to_set() } else { ty.needs_arg_to_unset() };
                    let arg = if takes { args.pop_front() } else { None };
                    let text = || String::from_utf8_lossy(arg.as_deref().unwrap_or(b"")).into_owned();
                    ensure!(ty.is_listlike() == matches!(ty, ModeType::TypeA | ModeType::Status), "mode_type", "{ty:?} is listlike: {}", ty.is_listlike());
                    match ty {
                        ModeType::Status => {
                            let Some(a) = &arg else { bail!("mode_arg", "no argument is left for the status {m}") };
                            let k = self.key_of(a)?;
                            if let Some(s) = self.members.get_mut(&k) {
                                let had = s.contains(m);
                                let changed = if on { s.set(m) } else { s.unset(m) };
                                ensure!(changed == (had != on), "set_result", "changing status {m} to {on} when it was {had} returns {changed}");
                            }
                        }
                        ModeType::TypeA => {
                            let l = self.lists.entry(m).or_default();
                            if on {
                                l.insert(text());
                            } else {
                                l.remove(&text());
                            }
                            if l.is_empty() {
                                self.lists.remove(&m);
                            }
                        }
                        _ => {
                            let had = self.set.contains(m);
                            let with = self.set.with(m);
                            let changed = if on { self.set.set(m) } else { self.set.unset(m) };
                            ensure!(changed == (had != on), "set_result", "changing mode {m} to {on} when it was {had} returns {changed}");
                            ensure!(!on || with == self.set, "set_with", "with({m}) gives {with}, set gives {}", self.set);
                            if on && arg.is_some() {
                                self.params.insert(m, text());
                            } else {
                                self.params.remove(&m);
                            }
                        }
                    }
                }
            }
        }
        ensure!(args.is_empty(), "mode_arg", "arguments are left over: {args:?}");
        Ok(())
    }
    fn here(&self, a: &[u8]) -> bool {
        let Ok(mut a) = Arg::from_bytes(a.to_vec()) else { return false };
        a.transform(self.map);
        a == self.chan
    }
    fn on_msg(&mut self, m: &ServerMsg<'_>) -> Res {
        let args = args_of(&m.args);
        let kind = match &m.kind {
            ServerMsgKindRaw::Cmd(c) => String::from_utf8_lossy(c.as_bytes()).into_owned(),
            ServerMsgKindRaw::Numeric(n) => n.as_str().to_owned(),
        };
        let src = m.source.as_ref().map(|s| self.key(&s.nick));
        match (kind.as_str(), &args[..]) {
            ("MODE", [c, t, rest @ ..]) if self.here(c) => self.apply(t, &mut rest.iter().cloned().collect())?,
            ("JOIN", [c, ..]) if self.here(c) => {
                self.members.insert(src.unwrap(), ModeSet::new());
            }
            ("PART", [c, ..]) if self.here(c) => {
                self.members.remove(&src.unwrap());
            }
            ("QUIT", _) => {
                self.members.remove(&src.unwrap());
            }
            ("KICK", [c, n, ..]) if self.here(c) => {
                let n = self.key_of(n)?;
                self.members.remove(&n);
            }
            ("NICK", [n, ..]) => {
                let n = self.key_of(n)?;
                if let Some(s) = self.members.remove(&src.unwrap()) {
                    self.members.insert(n, s);
                }
            }
            ("324", [_, c, t, rest @ ..]) if self.here(c) => {
                self.set = ModeSet::new();
                self.params.clear();
                self.lists.clear();
                self.members.clear();
                self.apply(t, &mut rest.iter().cloned().collect())?;
            }
            ("353", [_, _, c, l]) if self.here(c) => {
                for w in l.split(|c| *c == b' ') {
                    let mut w = w;
                    let mut s = ModeSet::new();
                    while let Some(m) = w.first().and_then(|c| NonZeroU8::new(*c)).and_then(|c| self.status.get_mode(c)) {
                        s.set(m);
                        w = &w[1..];
                    }
                    let k = self.key_of(w)?;
                    self.members.insert(k, s);
                }
            }
            _ => {}
        }
        Ok(())
    }
    /// The view in the server's terms.
    fn plain(&self) -> Chan {
        let params = |m: Mode| self.params.get(&m).cloned();
        Chan {
            modes: self.set.into_iter().map(|m| (m.into_char(), params(m))).collect(),
            lists: self.lists.iter().map(|(m, l)| (m.into_char(), l.clone())).collect(),
            members: self.members.iter().map(|(n, s)| (n.to_utf8_lossy().into_owned(), chars(*s))).collect(),
        }
    }
}

/// Facts about sets of modes that hold whatever the sets are.
fn laws(a: ModeSet, b: ModeSet) -> Res {
    let (x, y) = (chars(a), chars(b));
    let l: Vec<Mode> = a.into_iter().collect();
    let mut r: Vec<Mode> = a.into_iter().rev().collect();
    r.reverse();
    ensure!(l == r && l.len() == a.len() && a.into_iter().len() == l.len() && x.len() == l.len() && a.is_empty() == l.is_empty(), "set_iter", "{a} is iterated as {l:?} and backwards as {r:?}, with length {}", a.len());
    let mut it = a.into_iter();
    let mut both = Vec::new();
    let mut tail = Vec::new();
    loop {
        let n = if coin() { it.next().map(|m| both.push(m)) } else { it.next_back().map(|m| tail.push(m)) };
        if n.is_none() {
            break;
        }
    }
    tail.reverse();
    both.extend(tail);
    ensure!(both == l, "set_iter", "{a} is iterated from both ends as {both:?}");
    let mut sorted = l.clone();
    sorted.sort();
    ensure!(sorted == l, "set_order", "{a} is iterated as {l:?}, in another order than its modes have");
    let alpha: Vec<u8> = l.iter().map(|m| u8::from(*m).to_ascii_lowercase()).collect();
    ensure!(alpha.windows(2).all(|w| w[0] <= w[1]), "set_order", "the modes {l:?} are not in alphabetical order");
    let text: String = l.iter().map(|m| m.into_char()).collect();
    ensure!(a.to_string() == text, "set_text", "{a} is written otherwise than its modes {text}");
    let again: ModeSet = l.iter().copied().collect();
    ensure!(again == a, "set_collect", "{a} collected again is {again}");
    ensure!(chars(a.union(b)) == &x | &y, "set_union", "{a} and {b} together are {}", a.union(b));
    ensure!(chars(a.intersection(b)) == &x & &y, "set_inter", "{a} and {b} have {} in common", a.intersection(b));
    ensure!(chars(a.difference(b)) == &x - &y, "set_diff", "{a} without {b} is {}", a.difference(b));
    let want = match (x.is_subset(&y), y.is_subset(&x)) {
        (true, true) => Some(std::cmp::Ordering::Equal),
        (true, false) => Some(std::cmp::Ordering::Less),
        (false, true) => Some(std::cmp::Ordering::Greater),
        _ => None,
    };
    ensure!(a.partial_cmp(&b) == want && (a == b) == (x == y), "set_cmp", "{a} compared with {b} is {:?}", a.partial_cmp(&b));
    Ok(())
}

/// An application's own table of mode types, corrected as it goes along, holds what it was last told.
fn table(a: ModeSet, b: ModeSet) -> Res {
    const T: [ModeType; 5] = [ModeType::TypeA, ModeType::TypeB, ModeType::TypeC, ModeType::TypeD, ModeType::Status];
    let mut want: BTreeMap<Mode, ModeType> = BTreeMap::new();
    let t = T[below(4) as usize];
    let mut have = match below(3) {
        0 => ModeTypes::new(),
        1 => {
            want.extend(a.into_iter().map(|m| (m, t)));
            ModeTypes::from_set(a, t)
        }
        _ => {
            let (x, y) = (mode(b'a' + below(26) as u8)?, mode(b'A' + below(26) as u8)?);
            let mut sets = [a, b, [x].into_iter().collect(), [x, y].into_iter().collect()];
            shuffle(&mut sets);
            let (r, over) = ModeTypes::from_sets(sets[0], sets[1], sets[2], sets[3]);
            let mut twice = ModeSet::new();
            for (i, s) in sets.iter().enumerate() {
                for m in *s {
                    if want.insert(m, T[i]).is_some() {
                        twice.set(m);
                    }
                }
            }
            want.retain(|m, _| !twice.contains(*m));
            ensure!(over == twice, "types_overlap", "of the modes {sets:?} those in several sets are {over}");
            r
        }
    };
    for _ in 0..=below(4) {
        let t = T[below(5) as usize];
        let set: ModeSet = if coin() { b } else { [mode(b'a' + below(26) as u8)?].into_iter().collect() };
        if coin() {
            have.insert_set(set, t);
        } else {
            for m in set {
                have.insert(m, t);
            }
        }
        for m in set {
            if t == ModeType::Status {
                want.remove(&m);
            } else {
                want.insert(m, t);
            }
        }
        checked(1);
        for c in (b'a'..=b'z').chain(b'A'..=b'Z') {
            let m = mode(c)?;
            ensure!(have.get(m) == want.get(&m).copied(), "types_get", "mode {m} is {:?}, but it was last entered as {:?}", have.get(m), want.get(&m));
        }
        let text = have.to_string();
        let (again, over, rest) = ModeTypes::parse(text.as_bytes());
        ensure!(again == have && over.is_empty() && rest.is_empty(), "types_text", "{have:?} is written as {text} and reads back as {again:?}");
    }
    Ok(())
}

fn run() -> Res {
    set_late(swarm());
    let mut sv = Sv::any();
    let mut c = Cfg::plain();
    c.tokens = sv.tokens();
    c.per_005 = range(1, 13);
    c.cookie = below(3);
    c.nick_max = 30;
    let kind = Kind::any();
    let f = Faults::any();
    let n_ops = *pick(&[0u64, 3, 10, 30]);
    block_on(kind.tokio, async move {
        let mut o: Options<()> = Options::new();
        let me = pick(&["Me", "me[2]", "M\\e~"]).to_string();
        o.nicks.push(Nick::from_bytes(me.clone().into_bytes()).unwrap());
        let reg: Register<Options<()>> = register_as_client();
        let mut g = Game::start(&reg, &o, c, kind, f);
        let out = g.play().await?;
        ensure!(matches!(out, Outcome::Ok), "register", "registration gave {}", out.name());
        sv.me = me;
        // What the application knows comes from what the library saved.
        let Some(is) = g.cl.state().get::<state::ISupport>() else { bail!("isupport", "no ISUPPORT was saved") };
        let Some(Ok(status)) = is.get_parsed(is::PREFIX) else { bail!("isupport", "PREFIX cannot be read") };
        let raw = is.get_union_raw(&Key::from_bytes(b"CASEMAPPING".to_vec()).unwrap()).map(|u| u.1.to_utf8_lossy().into_owned()).unwrap_or_default();
        let name: &'static [u8] = match raw.as_str() {
            "ascii" => b"ascii",
            "rfc1459" => b"rfc1459",
            "rfc1459-strict" => b"rfc1459-strict",
            x => bail!("isupport", "CASEMAPPING reads as {x}"),
        };
        let Some(map) = IrcCasemap::from_name(name) else { bail!("casemap", "the case mapping {raw} is not known") };
        let mut chan = Arg::from_bytes(sv.chan.clone().into_bytes()).unwrap();
        chan.transform(map);
        let mut view = View { map, types: ServerChanModes::from_isupport(is), status, chan, set: ModeSet::new(), params: Default::default(), lists: Default::default(), members: Default::default() };
        ev!("modes {:?}, statuses {:?}, mapping {raw}", sv.groups, sv.status);
        // The history.
        let mut lines = Vec::new();
        let low = sv.map.lower(&sv.me);
        sv.c.members.insert(low, BTreeSet::new());
        let me = sv.me.clone();
        lines.push((format!(":{}!u@h JOIN {}", sv.shown(&me), sv.map.vary(&sv.chan)), sv.c.clone()));
        for _ in 0..n_ops {
            sv.op(&mut lines);
        }
        let mut t = now() + SEC;
        for (l, c) in lines {
            t += below(3) * 300 * MS;
            g.net.send_at(t, format!("{l}\r\n"));
            sv.hist.push(c);
        }
        let total = sv.hist.len();
        let dset: BTreeSet<char> = sv.groups[3].iter().copied().collect();
        let sv = Rc::new(RefCell::new(sv));
        let s2 = sv.clone();
        // The server carries out what it is asked.
        g.net.set_peer(move |l, io| {
            let l = parse_client(l);
            if l.cmd == "MODE" {
                let mut s = s2.borrow_mut();
                let text = l.args.get(1).cloned().unwrap_or_default();
                let mut on = true;
                for c in &text {
                    match c {
                        b'+' => on = true,
                        b'-' => on = false,
                        c => {
                            if s.groups[3].contains(&(*c as char)) {
                                s.change(on, *c as char, None);
                            }
                        }
                    }
                }
                let line = format!(":{}!u@h MODE {} {}", s.shown(&s.me.clone()), s.map.vary(&s.chan), String::from_utf8_lossy(&text));
                let c = s.c.clone();
                s.hist.push(c);
                io.send(below(3) * 100 * MS, format!("{line}\r\n"));
            }
        });
        let bad: Rc<RefCell<Option<Viol>>> = Default::default();
        let k = Rc::new(Cell::new(0usize));
        let (b2, k2, s2) = (bad.clone(), k.clone(), sv.clone());
        let asks = Rc::new(Cell::new(below(3)));
        let a2 = asks.clone();
        let own = coin();
        let mut before = ModeSet::new();
        let h = FnH::<u8>::new(move |m, _, q, s| {
            if matches!(&m.kind, ServerMsgKindRaw::Cmd(c) if matches!(c.as_bytes(), b"PING" | b"PONG")) {
                return ControlFlow::Continue(());
            }
            let r = (|| -> Res {
                let i = k2.get();
                k2.set(i + 1);
                view.on_msg(m)?;
                let want = match s2.borrow().hist.get(i) {
                    Some(c) => c.clone(),
                    None => bail!("harness", "a message too many: {m}"),
                };
                let got = view.plain();
                ensure!(got == want, "view", "after {m} the view is {got:?}, but the channel is {want:?}");
                laws(view.set, before)?;
                if chance(1, 4) {
                    table(view.set, before)?;
                }
                for s in view.members.values() {
                    laws(*s, view.set)?;
                }
                before = view.set;
                checked(1);
                if i + 1 >= total && a2.get() > 0 {
                    a2.set(a2.get() - 1);
                    // Other plain modes are wanted now.
                    let mut target = ModeSet::new();
                    let mut all = ModeSet::new();
                    for c in &dset {
                        let m = mode(*c as u8)?;
                        all.set(m);
                        if coin() {
                            target.set(m);
                        }
                    }
                    let have = view.set.intersection(all);
                    let (on, off) = (target.difference(have), have.difference(target));
                    let mut text = String::new();
                    if !on.is_empty() {
                        text.push_str(&format!("+{on}"));
                    }
                    if !off.is_empty() {
                        text.push_str(&format!("-{off}"));
                    }
                    if text.is_empty() {
                        text.push('+');
                    }
                    s2.borrow_mut().want = Some(chars(target));
                    let mut cm = ClientMsg::new(vinezombie::names::cmd::MODE);
                    let mut e = cm.args.edit();
                    e.add(view.chan.clone());
                    e.add(Arg::from_bytes(text.into_bytes()).unwrap());
                    drop(e);
                    q.push(cm);
                    probe("modes_asked_for");
                }
                Ok(())
            })();
            if let Err(v) = r {
                b2.borrow_mut().get_or_insert(v);
                return ControlFlow::Break(());
            }
            let _ = s.send(1);
            ControlFlow::Continue(())
        })
        .owning(move || own);
        let _rx = g.cl.add((), h).unwrap();
        for _ in 0..20_000 {
            step();
            let r = g.cl.run(&g.net, None).await;
            if let Some(v) = bad.borrow_mut().take() {
                return Err(v);
            }
            match r {
                Ran::Err(e) => bail!("io", "the connection failed: {e}"),
                Ran::Forever => break,
                _ => {}
            }
            let done = k.get() >= sv.borrow().hist.len() && asks.get() == 0;
            if done && g.net.with(|n| n.rx_empty()) && g.cl.queue().is_empty() {
                break;
            }
        }
        let s = sv.borrow();
        ensure!(k.get() == s.hist.len(), "lost", "{} of {} messages about the channel were processed", k.get(), s.hist.len());
        if let Some(w) = &s.want {
            let have: BTreeSet<char> = s.c.modes.keys().copied().filter(|c| s.groups[3].contains(c)).collect();
            ensure!(have == *w, "asked", "the application asked for {w:?}, and the channel has {have:?}");
            checked(1);
        }
        Ok(())
    })
}
