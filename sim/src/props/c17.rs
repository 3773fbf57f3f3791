//! C17: nickname fallback offers valid fresh nicks in order and gives up cleanly.
use super::c05::nick;
use crate::cl::*;
use crate::core::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::*;
use crate::{bail, ensure};
use std::collections::{BTreeSet, VecDeque};
use vinezombie::client::auth::SaslQueue;
use vinezombie::client::nick::*;
use vinezombie::client::register::*;
use vinezombie::string::{Line, User};

pub const PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 60_000,
    thorough: 2_000_000,
    max_steps: 600_000,
    rule: "each run: one registration with a random nickname plan (single nicks, lists, sequential and random suffix generators of every suffix kind, chains of these, and the client and bot defaults) against a server that refuses a random number of nicknames, often all of them, with 433, 436 and 432; every offered nick, the order, the point of giving up and the recorded nick are compared with a model of the plan; non-trivial = at least one nick compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "after 432 a plan may drop generators whose prefix was refused, as documented",
        "after 432 an endless list of nicks is given up, since every further one might be refused too",
        "random suffixes promise a form, not distinct values; the model does not predict them",
    ],
};

#[derive(Clone, Debug)]
enum Plan {
    One(String),
    List(Vec<String>),
    ListOr(String, Vec<String>),
    Suffix(String, Suffix),
    Chain(Box<Plan>, Box<Plan>),
    ChainUsing(Box<Plan>, Suffix),
    Client(Vec<String>),
    Bot(Vec<String>),
    /// An iterator without end.
    Endless(String),
}
struct Boxed(Box<dyn NickGen>);
impl NickGen for Boxed {
    fn next_nick(self: Box<Self>) -> (vinezombie::string::Nick<'static>, Option<Box<dyn NickGen>>) {
        let told = self.0.peek();
        let (n, rest) = self.0.next_nick();
        assert!(told == n, "a generator said its next nickname would be {told}, but it is {n}");
        (n, rest)
    }
    fn peek(&self) -> vinezombie::string::Nick<'static> {
        self.0.peek()
    }
    fn handle_invalid(self: Box<Self>, n: &vinezombie::string::Nick<'static>) -> Option<Box<dyn NickGen>> {
        self.0.handle_invalid(n)
    }
}
fn nicks(v: &[String]) -> Vec<vinezombie::string::Nick<'static>> {
    v.iter().map(|s| nick(s)).collect()
}
fn endless(s: &str, i: u64) -> String {
    format!("{s}{i}")
}
fn build(p: &Plan) -> Box<dyn NickGen> {
    match p {
        Plan::One(s) => Box::new(nick(s)),
        Plan::List(v) => Box::new(from_iter(nicks(v)).expect("non-empty")),
        Plan::ListOr(d, v) => Box::new(from_iter_or(nick(d), nicks(v))),
        Plan::Suffix(s, x) => x.transform(nick(s)),
        Plan::Chain(a, b) => Box::new(Boxed(build(a))).chain(build(b)),
        Plan::ChainUsing(a, x) => Box::new(Boxed(build(a))).chain_using(x),
        Plan::Client(v) => default_client_nicks(nicks(v)),
        Plan::Bot(v) => default_bot_nicks(nicks(v)),
        Plan::Endless(s) => {
            let s = s.clone();
            let it = (0u64..).map(move |i| nick(&endless(&s, i)));
            Box::new(from_iter(it).expect("endless"))
        }
    }
}

/// A stretch of the plan.
#[derive(Clone)]
enum Seg {
    /// Exactly these, in order.
    Exact(VecDeque<Vec<u8>>),
    /// A prefix with generated suffixes, in a known order.
    Seq { prefix: Vec<u8>, names: VecDeque<Vec<u8>> },
    /// A prefix with generated suffixes in no particular order.
    Rng { prefix: Vec<u8>, forms: Vec<Vec<Vec<u8>>>, at_least: u64, offered: u64 },
    /// A name and a growing number, without end.
    Endless { name: String, next: u64 },
}
impl std::fmt::Debug for Seg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let list = |v: &VecDeque<Vec<u8>>| v.iter().take(6).map(|n| show(n)).collect::<Vec<_>>().join(" ");
        match self {
            Seg::Endless { name, next } => write!(f, "{name} with numbers from {next} on"),
            Seg::Exact(v) => write!(f, "{} listed nicks: {}", v.len(), list(v)),
            Seg::Seq { prefix, names } => write!(f, "{} sequential nicks from {}: {}", names.len(), show(prefix), list(names)),
            Seg::Rng { prefix, forms, at_least, offered } => {
                write!(f, "random nicks from {} with {} suffixes, {offered} of at least {at_least} offered", show(prefix), forms.len())
            }
        }
    }
}
fn values(s: &SuffixType) -> Vec<Vec<u8>> {
    let range = |a: u8, b: u8| (a..=b).map(|c| vec![c]).collect::<Vec<_>>();
    match s {
        SuffixType::Letter(true) => range(b'A', b'Z'),
        SuffixType::Letter(false) => range(b'a', b'z'),
        SuffixType::Base8 => range(b'0', b'7'),
        SuffixType::Base10 => range(b'0', b'9'),
        SuffixType::NonZeroBase8 => range(b'1', b'7'),
        SuffixType::NonZeroBase10 => range(b'1', b'9'),
        SuffixType::Base16(u) => [range(b'0', b'9'), if *u { range(b'A', b'F') } else { range(b'a', b'f') }].concat(),
        SuffixType::NonZeroBase16(u) => [range(b'1', b'9'), if *u { range(b'A', b'F') } else { range(b'a', b'f') }].concat(),
        SuffixType::Choice(v) => v.iter().map(|n| n.as_bytes().to_vec()).collect(),
        SuffixType::Char(c) => vec![c.to_string().into_bytes()],
        _ => Vec::new(),
    }
}
fn suffix_seg(prefix: &str, x: &Suffix) -> Seg {
    let p = prefix.as_bytes().to_vec();
    let vs: Vec<Vec<Vec<u8>>> = x.suffixes.iter().map(values).filter(|v| !v.is_empty()).collect();
    let sum: usize = vs.iter().map(|v| v.len()).sum();
    if x.suffixes.is_empty() || vs.is_empty() {
        return Seg::Exact([p].into());
    }
    match x.strategy {
        SuffixStrategy::Seq => {
            let mut names = VecDeque::new();
            let total = sum.min(255);
            // Values of the first suffix, then of the first two, and so on.
            let mut k = 1;
            while names.len() < total && k <= vs.len() {
                let combos: usize = vs[..k].iter().map(|v| v.len()).product();
                for c in 0..combos {
                    if names.len() == total {
                        break;
                    }
                    let mut n = p.clone();
                    let mut c = c;
                    for v in &vs[..k] {
                        n.extend(&v[c % v.len()]);
                        c /= v.len();
                    }
                    names.push_back(n);
                }
                k += 1;
            }
            Seg::Seq { prefix: p, names }
        }
        _ => {
            let n: usize = vs.iter().map(|v| v.len().min(255) / 2).sum::<usize>() + 1;
            Seg::Rng { prefix: p, forms: vs, at_least: n.min(255) as u64, offered: 0 }
        }
    }
}
fn first(p: &Plan) -> String {
    match p {
        Plan::One(s) => s.clone(),
        Plan::List(v) => v[0].clone(),
        Plan::ListOr(d, v) => v.first().unwrap_or(d).clone(),
        Plan::Chain(a, _) | Plan::ChainUsing(a, _) => first(a),
        Plan::Client(v) => v.first().cloned().unwrap_or("Guest".into()),
        Plan::Bot(v) => v.first().cloned().unwrap_or_default(),
        Plan::Endless(s) => endless(s, 0),
        Plan::Suffix(..) => String::new(),
    }
}
fn exact(v: &[String]) -> Seg {
    Seg::Exact(v.iter().map(|s| s.clone().into_bytes()).collect())
}
fn sx(strategy: SuffixStrategy, v: Vec<SuffixType>) -> Suffix {
    Suffix { strategy, suffixes: v.into() }
}
fn model(p: &Plan, out: &mut VecDeque<Seg>) {
    use SuffixType::*;
    match p {
        Plan::One(s) => out.push_back(exact(&[s.clone()])),
        Plan::List(v) => out.push_back(exact(v)),
        Plan::ListOr(d, v) => out.push_back(if v.is_empty() { exact(&[d.clone()]) } else { exact(v) }),
        Plan::Suffix(s, x) => out.push_back(suffix_seg(s, x)),
        Plan::Endless(s) => out.push_back(Seg::Endless { name: s.clone(), next: 0 }),
        Plan::Chain(a, b) => {
            model(a, out);
            model(b, out);
        }
        Plan::ChainUsing(a, x) => {
            model(a, out);
            out.push_back(suffix_seg(&first(a), x));
        }
        Plan::Client(v) if v.is_empty() => {
            out.push_back(exact(&["Guest".to_string()]));
            out.push_back(suffix_seg("Guest", &sx(SuffixStrategy::Rng(None), vec![Base10, Base8, Base10, Base8])));
        }
        Plan::Client(v) => {
            out.push_back(exact(v));
            out.push_back(suffix_seg(&v[0], &sx(SuffixStrategy::Seq, vec![Char('`'), Base10, Base8])));
        }
        Plan::Bot(v) => {
            if !v.is_empty() {
                out.push_back(exact(v));
            }
            let mut s = vec![Base10];
            s.extend(vec![Base16(false); 5]);
            out.push_back(suffix_seg("VNZB", &sx(SuffixStrategy::Rng(None), s)));
        }
    }
}

fn gen_suffix() -> Suffix {
    let mut v = Vec::new();
    if chance(1, 12) {
        // More names than a small counter holds.
        let n = range(200, 300) as usize;
        for k in 0..*pick(&[1u64, 1, 2, 3]) {
            v.push(SuffixType::Choice((0..n).map(|i| nick(&format!("-{i}{}", ["=", "^", "~"][k as usize]))).collect()));
        }
    }
    for _ in 0..*pick(&[1u64, 2, 3, 0, 5, 12]) {
        v.push(match below(10) {
            0 => SuffixType::Char(*pick(&['_', '`', '|', '-'])),
            1 => SuffixType::Base10,
            2 => SuffixType::Base8,
            3 => SuffixType::NonZeroBase8,
            4 => SuffixType::NonZeroBase10,
            5 => SuffixType::Base16(coin()),
            6 => SuffixType::NonZeroBase16(coin()),
            7 => SuffixType::Letter(coin()),
            8 => SuffixType::Choice(["-a", "-b", "-c"].iter().take(range(1, 3) as usize).map(|s| nick(s)).collect()),
            _ => SuffixType::Choice(Vec::new()),
        });
    }
    let st = match below(3) {
        0 | 1 => SuffixStrategy::Seq,
        _ => SuffixStrategy::Rng(coin().then(|| below(u32::MAX as u64) as u32)),
    };
    sx(st, v)
}
fn gen_list(next: &mut u64) -> Vec<String> {
    (0..*pick(&[1u64, 2, 4]))
        .map(|_| {
            *next += 1;
            // A dot ends each name, so that none is a prefix of another.
            format!("{}{}.", pick(&["n", "Abc", "[x]", "long_name_of_sorts"]), next)
        })
        .collect()
}
fn gen_plan(depth: u64, next: &mut u64) -> Plan {
    match below(if depth == 0 { 5 } else { 7 }) {
        0 => Plan::List(gen_list(next)),
        1 => Plan::One(gen_list(next).remove(0)),
        2 => Plan::ListOr("dflt.".into(), if coin() { Vec::new() } else { gen_list(next) }),
        3 => Plan::Suffix(gen_list(next).remove(0), gen_suffix()),
        4 => Plan::Endless(gen_list(next).remove(0)),
        5 => Plan::Chain(Box::new(gen_plan(depth - 1, next)), Box::new(gen_plan(depth - 1, next))),
        _ => {
            let l = gen_list(next);
            Plan::ChainUsing(Box::new(if coin() { Plan::List(l) } else { Plan::One(l[0].clone()) }), gen_suffix())
        }
    }
}

struct NOpts {
    plan: Plan,
    user: User<'static>,
}

fn run() -> Res {
    let mut c = Cfg::any();
    c.noise = c.noise.min(100);
    c.nick_max = if chance(1, 6) { range(3, 12) as usize } else { 1000 };
    let mut next = 0;
    let plan = match below(6) {
        0 => Plan::Client(if coin() { gen_list(&mut next) } else { Vec::new() }),
        1 => Plan::Bot(if coin() { gen_list(&mut next) } else { Vec::new() }),
        _ => gen_plan(2, &mut next),
    };
    crate::ev!("plan {plan:?}");
    let mut segs = VecDeque::new();
    model(&plan, &mut segs);
    let n = if chance(1, 3) { 600 } else { *pick(&[0u64, 1, 2, 3, 6, 12, 30]) };
    let bad = *pick(&[0u64, 0, 30, 200, 600]);
    for _ in 0..n {
        c.nick_replies.push(if permille(bad) { 432 } else { *pick(&[433u16, 436]) });
    }
    set_late(0);
    let kind = Kind::any();
    let f = Faults::any();
    block_on(kind.tokio, async move {
        let reg: Register<NOpts> = register_as_custom(
            |_| None,
            |o| o.user.clone(),
            |_| Line::from_str("r"),
            |o| build(&o.plan),
            |_| default_caps(BTreeSet::new(), true, false),
            |_| (SaslQueue::new(), false),
        );
        let o = NOpts { plan, user: User::from_str("u") };
        let mut g = Game::start(&reg, &o, c, kind, f);
        let out = g.play().await?;
        let s = g.srv.borrow();
        if let Some(v) = &s.bad {
            return Err(v.clone());
        }
        judge(&g, &s, &out, segs)
    })
}

fn judge(g: &Game, s: &Srv, out: &Outcome, mut segs: VecDeque<Seg>) -> Res {
    let name = out.name();
    let mut droppable: Vec<bool> = vec![false; segs.len()];
    let mut seen_in_seq: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut prev: Option<Vec<u8>> = None;
    for (i, n) in s.nicks.iter().enumerate() {
        checked(1);
        let valid = !n.is_empty() && n[0] != b':' && !n.iter().any(|c| matches!(c, b' ' | b'!' | b'@' | b',' | b'\r' | b'\n' | 0));
        ensure!(valid, "invalid", "{} was offered, which is not a valid nickname", show(n));
        // A 432 lets the plan drop what is bound to be refused again.
        if i > 0 && s.c.nick_replies.get(i - 1) == Some(&432) {
            let p = prev.clone().unwrap_or_default();
            for (k, seg) in segs.iter().enumerate() {
                match seg {
                    Seg::Seq { prefix, .. } | Seg::Rng { prefix, .. } if p.starts_with(prefix) => droppable[k] = true,
                    Seg::Exact(v) if v.len() == 1 && v[0] == p => droppable[k] = true,
                    // Asking for more from an endless list might never end.
                    Seg::Endless { .. } => droppable[k] = true,
                    _ => {}
                }
            }
            if matches!(segs.front(), Some(Seg::Endless { next: 1.., .. })) {
                probe("endless_abandoned");
                segs.pop_front();
                droppable.remove(0);
            }
        }
        loop {
            let Some(seg) = segs.front_mut() else {
                bail!("surplus", "{} was offered although the plan is exhausted", show(n));
            };
            let may_skip = droppable[0];
            let (fits, done) = match seg {
                Seg::Exact(v) => {
                    if v.front() == Some(n) {
                        v.pop_front();
                        (true, v.is_empty())
                    } else {
                        (false, v.is_empty())
                    }
                }
                Seg::Endless { name, next } => {
                    let fits = *n == endless(name, *next).into_bytes();
                    *next += fits as u64;
                    (fits, false)
                }
                Seg::Seq { names, .. } => {
                    if names.front() == Some(n) {
                        names.pop_front();
                        ensure!(seen_in_seq.insert(n.clone()), "repeated", "{} was offered twice", show(n));
                        (true, names.is_empty())
                    } else {
                        (false, names.is_empty())
                    }
                }
                Seg::Rng { prefix, forms, at_least, offered } => {
                    let ok = n.strip_prefix(&prefix[..]).is_some_and(|rest| matches_forms(rest, forms));
                    if ok {
                        *offered += 1;
                        ensure!(*offered <= 255, "endless", "more than 255 random nicks were offered");
                    }
                    (ok, !ok && *offered >= *at_least)
                }
            };
            if fits {
                if done {
                    segs.pop_front();
                    droppable.remove(0);
                }
                break;
            }
            if done || may_skip {
                segs.pop_front();
                droppable.remove(0);
                seen_in_seq.clear();
                continue;
            }
            bail!("order", "{} was offered as nick number {}, which the plan does not have next: {seg:?}", show(n), i + 1);
        }
        prev = Some(n.clone());
    }
    ensure!(!s.nicks.is_empty(), "none", "no nickname was offered");
    checked(1);
    match out {
        Outcome::Ok => {
            ensure!(s.done.is_some(), "early_ok", "registration reported success before the server completed it");
            let src = super::c05::source_of(&g.cl);
            let want = s.nick.clone().unwrap_or_default();
            ensure!(src.as_ref().map(|x| &x.0) == Some(&want), "recorded", "recorded nickname {:?}, but the server accepted {}", src.map(|x| show(&x.0)), show(&want));
            probe("accepted");
        }
        Outcome::Err(HandlerError::NoNicks) => {
            if s.c.nick_replies.get(s.nicks.len() - 1) == Some(&432) {
                let p = prev.unwrap_or_default();
                for (k, seg) in segs.iter().enumerate() {
                    match seg {
                        Seg::Seq { prefix, .. } | Seg::Rng { prefix, .. } if p.starts_with(prefix) => droppable[k] = true,
                        Seg::Exact(v) if v.len() == 1 && v[0] == p => droppable[k] = true,
                        Seg::Endless { .. } => droppable[k] = true,
                        _ => {}
                    }
                }
            }
            for (k, seg) in segs.iter().enumerate() {
                let left = match seg {
                    Seg::Exact(v) => !v.is_empty(),
                    Seg::Endless { .. } => true,
                    Seg::Seq { names, .. } => !names.is_empty(),
                    Seg::Rng { at_least, offered, .. } => offered < at_least,
                };
                ensure!(!left || droppable[k], "gave_up", "registration gave up although the plan still has {seg:?}");
            }
            probe("exhausted");
        }
        _ => bail!("outcome", "registration reported {name} after {} nicks", s.nicks.len()),
    }
    Ok(())
}

fn matches_forms(rest: &[u8], forms: &[Vec<Vec<u8>>]) -> bool {
    match forms.split_first() {
        None => rest.is_empty(),
        Some((f, more)) => f.iter().any(|v| rest.strip_prefix(&v[..]).is_some_and(|r| matches_forms(r, more))),
    }
}
