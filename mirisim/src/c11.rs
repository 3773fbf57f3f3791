#![allow(deprecated)]
//! C11: byte strings and messages shared between threads.
use crate::core::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};
use vinezombie::ircmsg::{ClientMsg, MaybeCtcp, ServerMsg, SharedSource, Source};
use vinezombie::string::tf::AsciiCasemap;
use vinezombie::string::{Arg, Bytes, Line, NoNul, SecretBuf, Splitter, Word};

/// A string or message with what it must contain.
#[derive(Clone)]
enum Val {
    B(Bytes<'static>, Vec<u8>),
    W(Word<'static>, Vec<u8>),
    L(Line<'static>, Vec<u8>),
    N(NoNul<'static>, Vec<u8>),
    S(Source<'static>, Vec<u8>),
    Sh(SharedSource<'static>, Vec<u8>),
    M(ServerMsg<'static>, Vec<u8>),
    C(ClientMsg<'static>, Vec<u8>),
}
fn smsg(m: &ServerMsg<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    m.write_to(&mut v).unwrap();
    v
}
fn cmsg(m: &ClientMsg<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    m.write_to(&mut v).unwrap();
    v
}
fn src(m: &Source<'_>) -> Vec<u8> {
    let mut v = Vec::new();
    m.write_to(&mut v).unwrap();
    v
}
fn nick_len(e: &[u8]) -> usize {
    e.iter().position(|c| *c == b'!').unwrap_or(e.len())
}
fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn same(what: &str, got: &[u8], want: &[u8]) {
    ensure!(got == want, "changed", "{what} shows {:?}, it must be {:?}", show(got), show(want));
    checked(1);
}
impl Val {
    fn check(&self, what: &str) {
        match self {
            Val::B(b, e) => same(what, b.as_bytes(), e),
            Val::W(b, e) => same(what, b.as_bytes(), e),
            Val::L(b, e) => same(what, b.as_bytes(), e),
            Val::N(b, e) => same(what, b.as_bytes(), e),
            Val::S(b, e) => same(what, &src(b), e),
            Val::Sh(b, e) => same(what, &src(b), e),
            Val::M(b, e) => same(what, &smsg(b), e),
            Val::C(b, e) => same(what, &cmsg(b), e),
        }
    }
    fn into_vec(self) -> Vec<u8> {
        let (v, e) = match self {
            Val::B(b, e) => (b.into_vec(), e),
            Val::W(b, e) => (b.into_bytes().into_vec(), e),
            Val::L(b, e) => (Vec::from(b.into_bytes()), e),
            Val::N(b, e) => (b.into_bytes().into_vec(), e),
            Val::S(b, mut e) => {
                drop(b.userhost);
                e.truncate(nick_len(&e));
                (b.nick.into_bytes().into_vec(), e)
            }
            Val::Sh(b, e) => (src(&b), e),
            Val::M(b, e) => (smsg(&b), e),
            Val::C(b, e) => (cmsg(&b), e),
        };
        same("into_vec", &v, &e);
        v
    }
}

fn text(r: &mut Rng, word: bool) -> Vec<u8> {
    let n = r.range(1, 12);
    (0..n)
        .map(|_| match r.below(if word { 6 } else { 8 }) {
            0 => b'A' + r.below(26) as u8,
            1..=4 => b'a' + r.below(26) as u8,
            5 => *[b'!', b'@', b'-', b'.'].get(r.below(4) as usize).unwrap(),
            6 => b' ',
            _ => 0x80 + r.below(128) as u8,
        })
        .collect()
}
fn with_room(v: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut o = Vec::with_capacity(v.len() + r.below(9) as usize);
    o.extend_from_slice(v);
    o
}
fn message(r: &mut Rng) -> (ServerMsg<'static>, Vec<u8>) {
    let mut l = Vec::new();
    if r.coin() {
        l.extend(b"@+x;time=now ");
    }
    l.extend(*[&b":nick!user@host "[..], b":irc.example ", b""].get(r.below(3) as usize).unwrap());
    l.extend(b"PRIVMSG #chan");
    if r.coin() {
        l.extend(b" middle");
    }
    l.extend(b" :last ");
    l.extend(text(r, false));
    let m = ServerMsg::parse(Line::try_from(Bytes::from(with_room(&l, r))).unwrap()).unwrap();
    let e = smsg(&m);
    same("parsed message", &e, &l);
    (m, l)
}
fn value(r: &mut Rng) -> Val {
    match r.below(9) {
        0 => {
            let t = text(r, false);
            Val::B(Bytes::from(with_room(&t, r)), t)
        }
        1 => {
            let t = text(r, false);
            Val::B(Bytes::from_bytes(&t).owning(), t)
        }
        2 => {
            let t = text(r, false);
            let mut sb = SecretBuf::with_capacity(t.len() + r.below(5) as usize);
            let b = if r.coin() {
                sb.push_slice(&t);
                sb.into_bytes()
            } else {
                Bytes::from_secret(with_room(&t, r))
            };
            Val::B(b, t)
        }
        3 => {
            let t = text(r, true);
            Val::W(Word::try_from(Bytes::from(with_room(&t, r))).unwrap(), t)
        }
        4 => {
            let t = text(r, false);
            Val::L(Line::try_from(Bytes::from(with_room(&t, r))).unwrap(), t)
        }
        5 => {
            let s = Source::parse(Word::try_from(Bytes::from(with_room(b"nick!user@host.example", r))).unwrap()).unwrap();
            Val::S(s, b"nick!user@host.example".to_vec())
        }
        6 => {
            let s = Source::parse(Word::from_str("nick!user@host")).unwrap().owning_merged();
            Val::Sh(SharedSource::new(s), b"nick!user@host".to_vec())
        }
        7 => {
            let (m, e) = message(r);
            Val::M(m, e)
        }
        _ => {
            let t = [b"PRIVMSG #c :a ".to_vec(), text(r, false)].concat();
            let m = ClientMsg::parse(Line::try_from(Bytes::from(with_room(&t, r))).unwrap()).unwrap();
            Val::C(m, t)
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Clone(u64),
    CloneShared(u64),
    Drop(u64),
    Check(u64),
    CheckShared(u64),
    Utf8(u64),
    Vec(u64),
    Split(u64),
    Secret(u64),
    Owning(u64),
    Case(u64),
    Lossy(u64),
    Give(u64),
    Take,
    Edit(u64),
    DropShared,
    Pause(u64),
    Convert(u64),
}
fn plan(r: &mut Rng) -> Vec<Op> {
    (0..r.range(2, 9))
        .map(|_| {
            let k = r.below(8);
            match r.below(19) {
                0 => Op::Clone(k),
                1 | 2 => Op::CloneShared(k),
                3 | 4 => Op::Drop(k),
                5 => Op::Check(k),
                6 => Op::CheckShared(k),
                7 => Op::Utf8(k),
                8 | 9 => Op::Vec(k),
                10 => Op::Split(k),
                11 => Op::Secret(k),
                12 => Op::Owning(k),
                13 => Op::Case(k),
                14 => Op::Lossy(k),
                15 => Op::Give(k),
                16 => Op::Take,
                17 => match r.below(3) {
                    0 => Op::DropShared,
                    1 => Op::Convert(k),
                    _ => Op::Pause(r.range(1, 3)),
                },
                _ => Op::Edit(k),
            }
        })
        .filter(|_| keep())
        .collect()
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn utf8(v: &Val) -> u64 {
    let (b, e): (&Bytes<'_>, _) = match v {
        Val::B(b, e) => (b, e),
        Val::W(b, e) => (b, e),
        Val::L(b, e) => (b, e),
        Val::N(b, e) => (b, e),
        _ => return 9,
    };
    let ok = std::str::from_utf8(e).ok();
    ensure!(b.to_utf8() == ok, "utf8", "{:?} gives to_utf8 {:?}", show(e), b.to_utf8());
    same("lossy text", b.to_utf8_lossy().as_bytes(), String::from_utf8_lossy(e).as_bytes());
    ensure!(b.is_utf8_lazy() != Some(ok.is_none()), "utf8", "{:?} gives is_utf8_lazy {:?}", show(e), b.is_utf8_lazy());
    ensure!(hash_of(b) == hash_of(&Bytes::from_bytes(e)), "hash", "equal strings hash differently");
    let _ = (b.to_string(), format!("{b:?}"));
    checked(3);
    ok.is_some() as u64
}
/// Cuts a string in pieces that share its buffer.
fn split(v: Val, at: u64, out: &mut Vec<Val>) -> Val {
    match v {
        Val::B(b, e) => {
            let n = at as usize % (e.len() + 1);
            let mut s = Splitter::new(b);
            let a: Bytes<'static> = s.save_end().until_count(n).rest::<Bytes>().unwrap();
            let z: Bytes<'static> = s.rest::<Bytes>().unwrap();
            out.push(Val::B(a, e[..n].to_vec()));
            Val::B(z, e[n..].to_vec())
        }
        Val::L(l, e) => {
            let mut s = Splitter::new(l);
            let w: Word<'static> = s.string_or_default(false);
            let n = w.len();
            ensure!(&e[..n] == w.as_bytes() && !e.get(n).is_some_and(|c| *c != b' '), "split", "split gave {:?}", show(&w));
            let z: Line<'static> = s.rest_or_default();
            out.push(Val::W(w, e[..n].to_vec()));
            Val::L(z, e[n..].to_vec())
        }
        Val::W(mut w, mut e) => {
            let mut s = Splitter::new(w);
            let f = s.next_byte();
            ensure!(f == e.first().copied(), "split", "next_byte gave {f:?}");
            if f.is_some() {
                e.remove(0);
            }
            w = s.rest_or_default();
            Val::W(w, e)
        }
        Val::S(s, mut e) => {
            let n = s.nick.clone();
            e.truncate(nick_len(&e));
            same("nick", n.as_bytes(), &e);
            if let Some(h) = s.host() {
                let e = h.as_bytes().to_vec();
                out.push(Val::W(h.clone(), e));
            }
            drop(s);
            Val::W(n.into(), e)
        }
        Val::M(m, _) => {
            let last = m.args.split_last().1.unwrap().clone();
            let e = last.as_bytes().to_vec();
            let ctcp = MaybeCtcp::parse(last.clone());
            same("ctcp body", ctcp.body.as_bytes(), &e);
            if let Some(s) = &m.source {
                out.push(Val::Sh(s.clone(), src(s)));
            }
            drop(m);
            Val::L(last, e)
        }
        v => v,
    }
}

pub fn run(mut r: Rng) {
    let nth = r.range(2, 3) as usize;
    let nv = r.range(1, 3);
    let vals: Vec<Val> = (0..nv).map(|_| value(&mut r)).collect();
    let plans: Vec<Vec<Op>> = (0..nth).map(|_| plan(&mut r)).collect();
    let share: Vec<bool> = (0..nth).map(|_| r.coin()).collect();
    let lock_free = r.coin();
    let pool: Arc<Mutex<Vec<Val>>> = Default::default();
    let mut kids = Vec::new();
    let mut log = Log::new(0);
    log.ev(k!("values"), nv);
    let mut vals = Some(vals);
    let shared: Arc<Vec<Val>> = Arc::new(vals.clone().unwrap());
    for (t, ops) in plans.into_iter().enumerate() {
        let mut own: Vec<Val> = if t + 1 == nth { vals.take().unwrap() } else { vals.clone().unwrap() };
        let mut shared = share[t].then(|| shared.clone());
        let pool = pool.clone();
        kids.push(crate::pool::spawn(move || {
            let mut log = Log::new(t as u8 + 1);
            let mut vecs: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
            for op in ops {
                let at = |k: u64, n: usize| (k as usize) % n;
                let n = own.len();
                match op {
                    Op::Clone(k) if n > 0 => {
                        let v = own[at(k, n)].clone();
                        own.push(v);
                        log.ev(k!("clone"), k);
                    }
                    Op::CloneShared(k) => {
                        if let Some(s) = &shared {
                            own.push(s[at(k, s.len())].clone());
                            log.ev(k!("clone_shared"), k);
                        }
                    }
                    Op::Drop(k) if n > 0 => {
                        drop(own.swap_remove(at(k, n)));
                        log.ev(k!("drop"), k);
                    }
                    Op::Check(k) if n > 0 => {
                        own[at(k, n)].check("a string");
                        log.ev(k!("check"), k);
                    }
                    Op::CheckShared(k) => {
                        if let Some(s) = &shared {
                            s[at(k, s.len())].check("a shared string");
                            utf8(&s[at(k, s.len())]);
                            log.ev(k!("check_shared"), k);
                        }
                    }
                    Op::Utf8(k) if n > 0 => {
                        let u = utf8(&own[at(k, n)]);
                        log.ev(k!("utf8"), u);
                    }
                    Op::Vec(k) if n > 0 => {
                        let mut v = own.swap_remove(at(k, n)).into_vec();
                        // It is ours alone now.
                        v.push(b'+');
                        for c in v.iter_mut() {
                            *c ^= 0x5a;
                        }
                        log.ev(k!("into_vec"), v.len() as u64);
                        let e = v.clone();
                        vecs.push((v, e));
                    }
                    Op::Split(k) if n > 0 => {
                        let v = own.swap_remove(at(k, n));
                        let mut out = Vec::new();
                        let v = split(v, k, &mut out);
                        own.push(v);
                        own.append(&mut out);
                        log.ev(k!("split"), k);
                    }
                    Op::Secret(k) if n > 0 => {
                        let v = own.swap_remove(at(k, n));
                        own.push(match v {
                            Val::B(b, e) => Val::B(b.secret(), e),
                            v => v,
                        });
                        log.ev(k!("secret"), k);
                    }
                    Op::Owning(k) if n > 0 => {
                        let v = own.swap_remove(at(k, n));
                        own.push(match v {
                            Val::B(b, e) => Val::B(b.owning(), e),
                            Val::W(b, e) => Val::W(b.owning(), e),
                            Val::S(b, e) => Val::S(b.owning_merged(), e),
                            Val::Sh(b, e) => Val::Sh(SharedSource::new(b.owning_merged()), e),
                            Val::M(b, e) => Val::M(b.owning(), e),
                            v => v,
                        });
                        log.ev(k!("owning"), k);
                    }
                    Op::Case(k) if n > 0 => {
                        let v = own.swap_remove(at(k, n));
                        own.push(match v {
                            Val::B(mut b, mut e) => {
                                b.transform(AsciiCasemap::<true>);
                                e.make_ascii_uppercase();
                                Val::B(b, e)
                            }
                            Val::W(mut b, mut e) => {
                                b.transform(AsciiCasemap::<false>);
                                e.make_ascii_lowercase();
                                Val::W(b, e)
                            }
                            v => v,
                        });
                        log.ev(k!("case"), k);
                    }
                    Op::Lossy(k) if n > 0 => {
                        let v = own.swap_remove(at(k, n));
                        own.push(match v {
                            Val::B(b, e) => {
                                let e = String::from_utf8_lossy(&e).into_owned().into_bytes();
                                Val::B(b.into_utf8_lossy(), e)
                            }
                            v => v,
                        });
                        log.ev(k!("lossy"), k);
                    }
                    Op::Give(k) if n > 0 && !lock_free => {
                        let v = own.swap_remove(at(k, n));
                        pool.lock().unwrap().push(v);
                        log.ev(k!("give"), k);
                    }
                    Op::Take if !lock_free => {
                        let v = pool.lock().unwrap().pop();
                        log.ev(k!("take"), v.is_some() as u64);
                        own.extend(v);
                    }
                    Op::Edit(k) if n > 0 => {
                        let i = at(k, n);
                        match &mut own[i] {
                            Val::M(m, e) => {
                                m.args.edit().add_before_last(Arg::from_str("new"));
                                m.tags.edit().insert_pair(
                                    vinezombie::string::Key::from_str("k"),
                                    vinezombie::string::NoNul::from_str("v"),
                                );
                                let w = smsg(m);
                                ensure!(w.len() > e.len(), "edit", "an edit had no effect");
                                *e = w;
                            }
                            Val::C(m, e) => {
                                m.args.edit().clear();
                                *e = b"PRIVMSG".to_vec();
                            }
                            Val::S(s, e) => {
                                s.userhost = None;
                                let n = nick_len(e);
                                e.truncate(n);
                            }
                            _ => {}
                        }
                        own[i].check("an edited message");
                        log.ev(k!("edit"), k);
                    }
                    Op::Convert(k) if n > 0 => {
                        let v = own.swap_remove(at(k, n));
                        own.push(match v {
                            Val::W(w, e) => Val::L(w.into(), e),
                            Val::L(w, e) => Val::N(w.into(), e),
                            Val::N(w, e) => Val::B(w.into(), e),
                            Val::Sh(s, e) => Val::S(s.owning(), e),
                            v => v,
                        });
                        log.ev(k!("convert"), k);
                    }
                    Op::DropShared => {
                        shared = None;
                        log.ev(k!("drop_shared"), 0);
                    }
                    Op::Pause(n) => pause(n),
                    _ => {}
                }
            }
            for v in &own {
                v.check("a string at the end");
            }
            for (v, e) in &vecs {
                same("an extracted vector", v, e);
            }
            drop((own, vecs, shared));
        }));
    }
    if r.coin() {
        for v in shared.iter() {
            v.check("a string in the main thread");
        }
    }
    if r.coin() {
        for k in kids {
            k.join().unwrap();
        }
        for v in shared.iter() {
            v.check("a string after every thread ended");
        }
        drop(shared);
    } else {
        drop(shared);
        for k in kids {
            k.join().unwrap();
        }
    }
    for v in pool.lock().unwrap().drain(..) {
        v.check("a passed-on string");
    }
}
