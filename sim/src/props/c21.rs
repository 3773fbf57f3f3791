//! C21: secrets are never printed, and their memory is wiped.
use super::c05::*;
use crate::alloc;
use crate::cl::*;
use crate::core::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::*;
use crate::{bail, ensure, ev};
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt::Debug;
use vinezombie::client::auth::{sasl, AnySasl, Clear, Sasl, SaslLogic, Secret};
use vinezombie::client::queue::Adjuster;
use vinezombie::client::register::*;
use vinezombie::ircmsg::{Args, ClientMsg, ServerMsg, Tags};
use vinezombie::names::cmd;
use vinezombie::owning::MakeOwning;
use vinezombie::string::{base64, tf, Arg, Bytes, Key, Line, Nick, NoNul, SecretBuf, Splitter, Target, User, Word};

pub const PROP: Prop = Prop {
    id: "C21",
    run,
    quick: 100_000,
    thorough: 3_000_000,
    max_steps: 600_000,
    rule: "each run is either a registration session with secret server password, SASL passwords and queued secret messages against a random server with faults, cancellation, resets and early termination, with everything the library logs, prints or reports captured and searched for fragments of the secrets, and every block of memory freed searched for the SASL passwords; or a random history of cloning, owning, splitting, converting, transforming, encoding, sending and dropping secret strings and buffers; the allocator checks that every watched secret buffer is all zero when it is freed and that none is left; non-trivial = at least one derived string or printed text was judged",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &[
        "the promise covers secret strings and secret buffers, not the connection's write buffer, plain strings that were later marked secret, or temporaries while encoding",
        "fragments shorter than six bytes are not looked for in texts",
    ],
};

fn run() -> Res {
    NEEDLES.with(|n| n.borrow_mut().clear());
    LEAK.with(|l| *l.borrow_mut() = None);
    alloc::watch_reset();
    alloc::needles_reset();
    install();
    CAPTURE.with(|c| c.set(true));
    let r = if chance(1, 3) { session() } else { strings() };
    CAPTURE.with(|c| c.set(false));
    alloc::needles_reset();
    let w = alloc::watched();
    alloc::watch_reset();
    NEEDLES.with(|n| *n.borrow_mut() = HashSet::new());
    r?;
    if let Some(v) = LEAK.with(|l| l.borrow_mut().take()) {
        return Err(v);
    }
    ensure!(w.bad.is_none(), "not_wiped", "a secret buffer was freed without being wiped: {}", match w.bad {
        Some((len, off)) => format!("{len} bytes of secret, still readable at offset {off}"),
        None => String::new(),
    });
    ensure!(w.live == 0, "not_freed", "{} secret buffers were never freed or wiped although everything that used them is gone", w.live);
    if w.wiped > 0 {
        probe("wiped");
    }
    Ok(())
}

// ---------- watching texts ----------

const WIN: usize = 6;
thread_local! {
    static NEEDLES: RefCell<HashSet<[u8; WIN]>> = RefCell::new(HashSet::new());
    static LEAK: RefCell<Option<Viol>> = const { RefCell::new(None) };
    static CAPTURE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Registers contents that must not be printed.
fn secret_text(s: &[u8]) {
    alloc::muted(|| {
        NEEDLES.with(|n| {
            let mut n = n.borrow_mut();
            for w in s.windows(WIN) {
                if w.iter().filter(|b| b.is_ascii_alphanumeric() || **b >= 0x80).count() >= 5 {
                    n.insert(w.try_into().unwrap());
                }
            }
        })
    });
}
fn find(s: &[u8]) -> bool {
    NEEDLES.with(|n| {
        let n = n.borrow();
        s.windows(WIN).any(|w| n.contains(w))
    })
}
/// Whether a text shows part of a secret, as is or as a list of byte values.
fn shows(t: &str) -> bool {
    if find(t.as_bytes()) {
        return true;
    }
    let mut run: Vec<u8> = Vec::new();
    for w in t.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').filter(|w| !w.is_empty()) {
        let v = w.parse::<u8>().ok().or_else(|| w.strip_prefix("0x").and_then(|h| u8::from_str_radix(h, 16).ok()));
        match v {
            Some(b) => run.push(b),
            None => {
                if find(&run) {
                    return true;
                }
                run.clear();
            }
        }
    }
    find(&run)
}
fn silent(t: &str, what: &str) -> Res {
    checked(1);
    alloc::muted(|| {
        ensure!(!shows(t), "printed", "{what} shows part of a secret: {t}");
        Ok(())
    })
}

struct Sub;
struct Text(String);
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn Debug) {
        use std::fmt::Write;
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
}
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        CAPTURE.with(|c| c.get())
    }
    fn register_callsite(&self, _: &'static tracing::Metadata<'static>) -> tracing::subscriber::Interest {
        tracing::subscriber::Interest::sometimes()
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        let mut t = Text(String::new());
        a.record(&mut t);
        look(&t.0);
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, r: &tracing::span::Record<'_>) {
        let mut t = Text(String::new());
        r.record(&mut t);
        look(&t.0);
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        look(&t.0);
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn look(t: &str) {
    probe("logged");
    if let Err(v) = silent(t, "a log line") {
        LEAK.with(|l| {
            l.borrow_mut().get_or_insert(v);
        });
    }
}
fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| tracing::subscriber::set_global_default(Sub).expect("only subscriber"));
}

/// Distinctive content: text, text with bytes that get escaped or trimmed, or not UTF-8.
fn content(max: u64, style: u64) -> Vec<u8> {
    let n = if chance(1, 10) { range(max, max * 10) } else { range(1, max) };
    let mut x = below(1 << 40) ^ 0x5eed;
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
    (0..n)
        .flat_map(|_| {
            let r = splitmix(&mut x);
            let c = A[(r >> 8) as usize % A.len()];
            match (style, r % 8) {
                (1, 0) => vec![*b" ;\\=".get((r >> 20) as usize % 4).unwrap()],
                (1, 1) if r >> 30 & 3 == 0 => vec![b" \r\n:"[(r >> 20) as usize % 4]],
                (2, 0 | 1) => vec![0x80 | (r >> 20) as u8],
                (3, 0 | 1) => char::from_u32(0x3b1 + (r >> 20) as u32 % 24).unwrap().to_string().into_bytes(),
                _ => vec![c],
            }
        })
        .collect()
}

// ---------- a session ----------

/// SASL configurations with secret passwords.
#[derive(Clone, Debug)]
enum Mechs {
    Any(AnySasl<()>),
    Plain(sasl::Plain<()>),
}
struct Watch(Box<dyn SaslLogic>);
impl SaslLogic for Watch {
    fn name(&self) -> Arg<'static> {
        self.0.name()
    }
    fn reply(&mut self, input: &[u8], output: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        let r = self.0.reply(input, output);
        alloc::watch(output.as_ref());
        if let Err(e) = &r {
            look(&format!("{e} {e:?}"));
        }
        r
    }
    fn size_hint(&self) -> usize {
        self.0.size_hint()
    }
}
impl Sasl for Mechs {
    fn logic(&self) -> Vec<Box<dyn SaslLogic>> {
        let l = match self {
            Mechs::Any(s) => s.logic(),
            Mechs::Plain(s) => s.logic(),
        };
        l.into_iter().map(|l| Box::new(Watch(l)) as Box<dyn SaslLogic>).collect()
    }
}
/// Watches and prints what is in the queue.
struct Spy;
impl Adjuster for Spy {
    fn update(&mut self, m: &mut ClientMsg<'_>) -> bool {
        look(&format!("{m} {m:?}"));
        watch_msg(m);
        true
    }
    fn reset(&mut self) {}
}
fn watch_msg(m: &ClientMsg<'_>) {
    let (w, l) = m.args.split_last();
    for a in w {
        if a.is_secret() && a.is_owning() {
            alloc::watch(a.as_bytes());
        }
    }
    if let Some(l) = l {
        if l.is_secret() && l.is_owning() {
            alloc::watch(l.as_bytes());
        }
    }
}

/// The password moves into the library; the harness only keeps fixed-size copies.
fn password(style: u64) -> (NoNul<'static>, [u8; 96], usize) {
    let mut d = [0u8; 96];
    let v = alloc::muted(|| {
        let mut v = content(40, style);
        v.truncate(90);
        v
    });
    let n = v.len();
    d[..n].copy_from_slice(&v);
    secret_text(&d[..n]);
    // The copy given to the library is a plain allocation.
    let mut own = Vec::with_capacity(n + below(8) as usize);
    own.extend_from_slice(&d[..n]);
    drop(v);
    alloc::needle(&d[..n]);
    let s = match below(3) {
        0 => NoNul::from_secret(own).expect("no nul"),
        1 => Secret::into_inner(Secret::<NoNul<'static>, Clear>::load(Clear(own.into())).expect("loads")),
        _ => NoNul::try_from(Bytes::from_secret(own)).expect("no nul"),
    };
    alloc::watch(s.as_bytes());
    (s, d, n)
}

fn session() -> Res {
    let mut c = Cfg::any();
    let bot = coin();
    let (base, _) = gen_opts(&mut c, bot);
    c.account = "acct".into();
    let mut o: Options<(), Mechs> = Options::new();
    o.nicks = base.nicks.clone();
    o.username = base.username.clone();
    o.realname = base.realname.clone();
    o.caps = base.caps.clone();
    o.allow_sasl_fail = coin();
    if coin() {
        let v = content(30, *pick(&[0u64, 3, 2]));
        secret_text(&v);
        if coin() {
            o.pass = Some(Secret::new(Line::from_secret(v).expect("line")));
        } else {
            o.set_pass(Line::from_bytes(v).expect("line")).expect("pass");
        }
        alloc::watch(o.pass.as_ref().unwrap().as_bytes());
    }
    for i in 0..below(4) {
        let (s, d, n) = password(*pick(&[0u64, 1, 2, 3]));
        let user = NoNul::from_bytes(format!("user{i}").into_bytes()).unwrap();
        alloc::muted(|| secret_text(&b64(&[b"\0user", &[b'0' + i as u8][..], b"\0", &d[..n]].concat())));
        let m = if coin() {
            Mechs::Any(sasl::Password::new(user, Secret::new(s)).into())
        } else {
            Mechs::Plain(sasl::Plain::new(user, Secret::new(s)))
        };
        o.sasl.push(m);
    }
    silent(&format!("{o:?}"), "the options")?;
    if !chance(1, 5) {
        if let Some(caps) = &mut c.caps {
            caps.push(("sasl".into(), coin().then(|| "PLAIN".into())));
        }
    }
    for _ in 0..range(1, 3) {
        c.mechs.push(Mech {
            name: "PLAIN".into(),
            challenges: if chance(1, 4) { vec![Vec::new(), Vec::new()] } else { vec![if chance(1, 4) { b"huh".to_vec() } else { Vec::new() }] },
            accept: coin(),
            reject: *pick(&[904u16, 902, 905]),
            partial: false,
            how: *pick(&[0u64, 1, 2]),
            garbage: chance(1, 6).then(|| pick(&["!!!!", "AAA", "===="]).as_bytes().to_vec()),
        });
    }
    if chance(1, 4) {
        c.nick_replies.push(433);
    }
    if chance(1, 6) {
        c.refuse = Some((*pick(&[When::Nick, When::User, When::End, When::Welcome]), pick(&[Refuse::Denied(464), Refuse::ErrorCmd, Refuse::Numeric(451)]).clone()));
    }
    c.wild = *pick(&[0u64, 0, 50]);
    set_late(swarm());
    let kind = Kind::any();
    let f = Faults::any();
    let stop = chance(1, 4).then(|| below(30));
    block_on(kind.tokio, async move {
        let reg: Register<Options<(), Mechs>> = if bot { register_as_bot() } else { register_as_client() };
        let mut g = Game::start(&reg, &o, c, kind, f);
        let s2 = g.srv.clone();
        g.net.set_peer(move |l, io| alloc::muted(|| s2.borrow_mut().on_line(l, io)));
        g.cl.queue().use_adjuster(Spy);
        if coin() {
            drop(o.clone());
        }
        if chance(1, 4) {
            // The session has everything it needs.
            silent(&format!("{o:?}"), "the options")?;
            o = Options::new();
        }
        let cancels = if kind.tokio { *pick(&[0u64, 0, 200]) } else { 0 };
        set_midwrite(true);
        let mut quiet = 0;
        for i in 0..400u64 {
            if Some(i) == stop {
                ev!("stopped early");
                probe("stopped");
                break;
            }
            if chance(1, 12) {
                let m = secret_msg();
                watch_msg(&m);
                silent(&format!("{m} {m:?}"), "a message")?;
                match below(3) {
                    0 => g.cl.queue().edit().push(m),
                    1 => g.cl.queue().edit().push(m.clone().owning()),
                    _ => {
                        g.cl.queue().use_labeler_default();
                        g.cl.queue().edit().push_labeled(m);
                        g.cl.queue().use_no_labeler();
                    }
                }
            }
            if chance(1, 6) {
                let t = format!("{:?}", g.cl.queue());
                silent(&t, "the queue")?;
            }
            let cancel = permille(cancels).then(|| (range(1, 40), now() + range(1, 5000) * MS));
            match g.cl.run(&g.net, cancel).await {
                Ran::Done(..) => match g.rx.get() {
                    Got::Val(Err(e)) => {
                        silent(&format!("{e} {e:?}"), "the registration error")?;
                        probe("failed");
                        break;
                    }
                    Got::Val(Ok(())) => {
                        probe("registered");
                        if coin() {
                            break;
                        }
                    }
                    _ => {}
                },
                Ran::Err(e) => {
                    silent(&format!("{e} {e:?}"), "an I/O error")?;
                    break;
                }
                Ran::Forever => break,
                Ran::Timeout => {
                    quiet += 1;
                    if quiet > 20 {
                        break;
                    }
                }
                Ran::Cancelled => {}
            }
        }
        silent(&format!("{:?}", g.cl.queue()), "the queue")?;
        if coin() {
            fault("reset");
            g.cl.reset();
        }
        let Game { net, cl, srv, rx, .. } = g;
        if coin() {
            drop(o);
            drop(cl);
        } else {
            drop(cl);
            drop(o);
        }
        drop(rx);
        checked(1);
        let hit = alloc::needle_hit();
        alloc::needles_off();
        drop(net);
        drop(srv);
        if let Some(n) = hit {
            bail!("left_in_memory", "a block of {n} bytes was freed while it still held a SASL password");
        }
        Ok(())
    })
}

fn secret_msg() -> ClientMsg<'static> {
    let mut m = ClientMsg::new(cmd::PRIVMSG);
    let v = content(30, *pick(&[0u64, 1, 2, 3]));
    let v: Vec<u8> = v.into_iter().filter(|b| !b"\r\n".contains(b)).collect();
    let v = if v.is_empty() { b"Zq8Kx2".to_vec() } else { v };
    secret_text(&v);
    if chance(1, 3) {
        secret_text(&tf::escape(NoNul::from_bytes(v.clone()).unwrap()));
        m.tags.edit().insert_pair(key("+t"), NoNul::from_secret(v.clone()).unwrap());
    }
    let mut e = m.args.edit();
    e.add_word(Arg::from_str("NickServ"));
    e.add(Line::from_secret(v).unwrap());
    drop(e);
    m
}

// ---------- histories of secret strings ----------

struct Item {
    b: Bytes<'static>,
    was: Vec<u8>,
}
struct Pool(Vec<Item>);
impl Pool {
    /// Takes in a string derived from a secret one.
    fn add(&mut self, b: impl Into<Bytes<'static>>, how: &str) -> Res {
        let b: Bytes<'static> = b.into();
        checked(1);
        if b.is_empty() {
            return Ok(());
        }
        ensure!(b.is_secret(), "secret_lost", "{how} of a secret string gives one that is not secret: {b:?}");
        secret_text(&b);
        if b.is_owning() {
            alloc::watch(&b);
        }
        silent(&format!("{b} {b:?} {b:#?}"), how)?;
        if self.0.len() < 24 {
            let was = b.to_vec();
            self.0.push(Item { b, was });
        }
        Ok(())
    }
    fn any(&self) -> Bytes<'static> {
        self.0[below(self.0.len() as u64) as usize].b.clone()
    }
    fn intact(&self) -> Res {
        for i in &self.0 {
            ensure!(*i.b == *i.was, "damaged", "a secret string that is still referenced changed from {} to {}", show(&i.was), show(&i.b));
            ensure!(i.b.is_secret(), "secret_lost", "a secret string stopped being secret");
        }
        checked(self.0.len() as u64);
        Ok(())
    }
}

static LITERALS: &[&str] = &["Wq7Zk2Vx9Jf4", "Hx3 Lm8;Tz5\\Rn1", "Bd6Pv0Yc2Ks7Gw4Nj9Qe1Ut8Xa5Fi3Ol6Zr2Mh7Cb4Dp0Ev9"];

macro_rules! types {
    ($b:expr, $t:ident => $e:expr, else $x:expr) => {
        match below(9) {
            0 => { type $t<'a> = NoNul<'a>; $e }
            1 => { type $t<'a> = Line<'a>; $e }
            2 => { type $t<'a> = Word<'a>; $e }
            3 => { type $t<'a> = Arg<'a>; $e }
            4 => { type $t<'a> = Key<'a>; $e }
            5 => { type $t<'a> = Nick<'a>; $e }
            6 => { type $t<'a> = User<'a>; $e }
            7 => { type $t<'a> = Target<'a>; $e }
            _ => $x,
        }
    };
}

fn strings() -> Res {
    let mut p = Pool(Vec::new());
    let mut bufs: Vec<(SecretBuf, Vec<u8>)> = Vec::new();
    let mut msgs: Vec<ClientMsg<'static>> = Vec::new();
    let steps = range(3, 60);
    for _ in 0..steps {
        step();
        one(&mut p, &mut bufs, &mut msgs)?;
        p.intact()?;
        ensure!(alloc::watched().bad.is_none(), "not_wiped", "the buffer of a secret string was freed without being wiped");
    }
    // Everything goes, in any order.
    shuffle(&mut p.0);
    while let Some(i) = p.0.pop() {
        drop(i);
        if chance(1, 4) {
            p.intact()?;
        }
        if chance(1, 8) {
            msgs.clear();
        }
    }
    drop(msgs);
    for (b, was) in bufs {
        ensure!(b.as_ref() == was, "damaged", "a secret buffer changed");
        drop(b);
    }
    Ok(())
}

fn one(p: &mut Pool, bufs: &mut Vec<(SecretBuf, Vec<u8>)>, msgs: &mut Vec<ClientMsg<'static>>) -> Res {
    let style = *pick(&[0u64, 0, 1, 2, 3]);
    if p.0.is_empty() || chance(1, 10) {
        let mut v = content(40, style);
        if chance(1, 8) {
            v.push(*pick(b"\0\r\n ,!@"));
        }
        ev!("new {}", show(&v));
        return match below(5) {
            0 => p.add(Bytes::from_secret(v), "from_secret"),
            1 => {
                let keep = v.clone();
                let b = unspilled(&keep, "Bytes::secret on an unshared string", move || Bytes::from(v).secret())?;
                p.add(b, "secret()")
            }
            2 => p.add(Bytes::from_str(pick(LITERALS)).secret(), "secret()"),
            3 => {
                v.reserve(below(100) as usize);
                alloc::watch(&v);
                types!(v, T => match T::from_secret(v) {
                    Ok(s) => {
                        silent(&format!("{s} {s:?}"), "from_secret")?;
                        p.add(s.into_bytes(), "from_secret")
                    }
                    Err(e) => silent(&format!("{e} {e:?}"), "the error"),
                }, else p.add(SecretBuf::from(v).into_bytes(), "SecretBuf::into_bytes"))
            }
            _ => {
                // A plain string others still hold is marked secret.
                let b = Bytes::from(v);
                let c = b.clone();
                let r = p.add(b.secret(), "secret() on a shared string");
                ensure!(!c.is_secret(), "infected", "marking a string secret marked its earlier clones, too");
                r
            }
        };
    }
    let b = p.any();
    match below(23) {
        21 => {
            // A server password given as plain text.
            let (v, how) = (content(30, 0), coin());
            secret_text(&v);
            let mut o: Options<(), AnySasl<()>> = Options::new();
            let s = String::from_utf8(v.clone()).expect("letters");
            let set = unspilled(&v, "Options::set_pass given plain text", || {
                if how {
                    o.set_pass(s).is_ok()
                } else {
                    o.set_pass(Line::try_from(s).expect("line")).is_ok()
                }
            })?;
            ensure!(set, "refused", "the server password {} was refused", show(&v));
            silent(&format!("{o:?}"), "a configuration")?;
            unspilled(&v, "Options dropping the server password", move || drop(o))
        }
        0 => p.add(b.clone(), "clone"),
        1 => {
            let k = b.to_vec();
            let b = unspilled(&k, "Bytes::owning", move || b.owning())?;
            p.add(b, "owning")
        }
        2 => {
            let mut b = b;
            let k = b.to_vec();
            unspilled(&k, "Bytes::make_owning", || b.make_owning())?;
            p.add(b, "make_owning")
        }
        3 => p.add(b.secret(), "secret()"),
        4 => {
            let mut s = Splitter::new(b);
            for _ in 0..range(1, 4) {
                if s.is_empty() {
                    break;
                }
                ensure!(s.is_secret(), "secret_lost", "a splitter over a secret string says it is not secret");
                let n = range(1, s.len() as u64) as usize;
                silent(&format!("{s:?}"), "a splitter")?;
                let piece = match below(3) {
                    0 => s.save_end().until_count(n).rest::<Bytes>().unwrap(),
                    1 => s.save_end().until_byte(|c| *c < b'M').rest::<Bytes>().unwrap(),
                    _ => {
                        let x = s.peek_rest::<Bytes>().unwrap();
                        s.next_byte();
                        x
                    }
                };
                p.add(piece, "splitting")?;
                if coin() {
                    s.next_byte();
                }
            }
            p.add(s.rest::<Bytes>().unwrap(), "the rest of splitting")
        }
        5 => {
            let mut b = b;
            match below(5) {
                0 => b.transform(tf::AsciiCasemap::<true>),
                1 => b.transform(tf::AsciiCasemap::<false>),
                2 => b.transform(*pick(&[tf::IrcCasemap::Ascii, tf::IrcCasemap::Rfc1459, tf::IrcCasemap::Rfc1459Strict])),
                3 => {
                    let _ = b.transform(tf::TrimAscii(*pick(&[tf::StringSide::Start, tf::StringSide::End, tf::StringSide::StartFirst])));
                }
                _ => {
                    let _ = b.transform(tf::TrimAscii(tf::StringSide::EndFirst));
                }
            }
            p.add(b, "transforming")
        }
        6 => p.add(b.into_utf8_lossy(), "into_utf8_lossy"),
        7 => p.add(b.to_base64().into_bytes(), "to_base64"),
        8 => p.add(b.to_base64_plus().into_bytes(), "to_base64_plus"),
        9 => match NoNul::from_bytes(b) {
            Ok(s) => p.add(tf::escape(s).into_bytes(), "escaping"),
            Err(e) => silent(&format!("{e} {e:?}"), "the error"),
        },
        10 => match NoNul::from_bytes(b) {
            Ok(s) => p.add(tf::unescape(s).into_bytes(), "unescaping"),
            Err(e) => silent(&format!("{e} {e:?}"), "the error"),
        },
        11 => types!(b, T => match T::try_from(b) {
            Ok(mut s) => {
                ensure!(s.is_secret(), "secret_lost", "converting a secret string gives one that is not secret");
                silent(&format!("{s} {s:?}"), "a converted string")?;
                match below(4) {
                    0 => p.add(s.owning().into_bytes(), "owning"),
                    1 => p.add(s.secret().into_bytes(), "secret()"),
                    2 => {
                        s.make_owning();
                        p.add(s.clone().into_bytes(), "make_owning and clone")
                    }
                    _ => p.add(s.into_bytes(), "converting"),
                }
            }
            Err(e) => silent(&format!("{e} {e:?}"), "the error"),
        }, else Ok(())),
        12 => {
            // Chunks as sent in AUTHENTICATE.
            let max = *pick(&[400usize, 4, 7, 1]);
            let enc = unspilled(&b64(&b), "ChunkEncoder::new", || base64::ChunkEncoder::new(&b, max, true))?;
            let n = enc.len();
            let (text, mut i) = ((b.len() + 2) / 3 * 4, 0);
            ensure!(n == text / max + 1 && enc.size_hint() == (n, Some(n)), "chunk_count", "{text} bytes in chunks of at most {max} are said to be {n} chunks");
            if n <= 30 {
                i = enc.clone().count();
            }
            ensure!(i == 0 || i == n, "chunk_count", "{text} bytes in chunks of at most {max} are said to be {n} chunks, but are {i}");
            for c in enc.take(30) {
                ensure!(c.is_secret(), "secret_lost", "an encoded chunk of a secret is not secret");
                if c.as_bytes() != b"+" {
                    p.add(c.into_bytes(), "chunk encoding")?;
                }
            }
            Ok(())
        }
        13 => {
            let (v, secret_ptr) = (b.as_ptr(), b.len());
            // Whoever takes the bytes out is responsible for them.
            let before = p.0.len();
            if coin() && before > 1 {
                let i = below(p.0.len() as u64) as usize;
                p.0.swap_remove(i);
            }
            let mut vec: Vec<u8> = if coin() { b.into_vec() } else { std::borrow::Cow::<[u8]>::from(b).into_owned() };
            let _ = (v, secret_ptr);
            alloc::unwatch(vec.as_ptr(), vec.capacity().max(1));
            vec.fill(0);
            Ok(())
        }
        14 | 15 => {
            if !p.0.is_empty() {
                let i = below(p.0.len() as u64) as usize;
                drop(b);
                p.0.swap_remove(i);
            }
            Ok(())
        }
        16 => {
            // Into a message, possibly parsed back from one secret line.
            let Ok(s) = NoNul::from_bytes(b) else { return Ok(()) };
            let mut m = ClientMsg::new(cmd::PRIVMSG);
            if coin() {
                secret_text(&tf::escape(NoNul::from_bytes(s.to_vec()).unwrap()));
                m.tags.edit().insert_pair(key("+x"), s.clone());
            }
            let mut e = m.args.edit();
            if let Ok(a) = Arg::try_from(s.clone().into_bytes()) {
                e.add_word(a);
            }
            if let Ok(l) = Line::try_from(s.into_bytes()) {
                let _ = e.add(l);
            }
            drop(e);
            let m = match below(3) {
                0 => m.clone(),
                1 => m.owning(),
                _ => m,
            };
            watch_msg(&m);
            silent(&format!("{m} {m:?} {} {} {:?}", m.args, m.tags, m.tags), "a message")?;
            for a in m.args.words() {
                p.add(a.clone().into_bytes(), "an argument")?;
            }
            if let Some(v) = m.tags.get(key("+x")) {
                p.add(v.clone().into_bytes(), "a tag value")?;
            }
            if msgs.len() < 8 {
                msgs.push(m);
            }
            Ok(())
        }
        17 => parsed(p, style),
        18 => {
            if bufs.len() < 4 {
                let v = content(20, style);
                secret_text(&v);
                let n = match below(3) {
                    0 => SecretBuf::from(v.clone()),
                    1 => v.iter().copied().collect(),
                    _ => {
                        let mut n = SecretBuf::with_capacity(below(10) as usize);
                        n.push_slice(&v);
                        n
                    }
                };
                alloc::watch(n.as_ref());
                bufs.push((n, v));
            }
            Ok(())
        }
        19 | 20 => buffer(p, bufs, style),
        _ => {
            let s = match NoNul::from_bytes(b) {
                Ok(s) => s,
                Err(_) => return Ok(()),
            };
            let u = NoNul::from_str("who");
            let pw = sasl::Password::<()>::new(u.clone(), Secret::new(s.clone()));
            let pl = sasl::Plain::<()>::new(u, Secret::new(s.clone()));
            let any: AnySasl<()> = pw.clone().into();
            let sec: Secret<NoNul<'static>, ()> = Secret::new(s);
            let mut o: Options<(), AnySasl<()>> = Options::new();
            o.add_sasl(pw.clone());
            silent(&format!("{pw:?} {pl:?} {any:?} {sec:?} {o:?} {:?}", sec.clone()), "a configuration")?;
            for mut l in pw.logic().into_iter().chain(pl.logic()) {
                let mut out = SecretBuf::default();
                let r = l.reply(if chance(1, 4) { b"x" } else { b"" }, &mut out);
                if let Err(e) = r {
                    silent(&format!("{e} {e:?}"), "the error")?;
                }
                alloc::watch(out.as_ref());
                if coin() {
                    p.add(out.into_bytes(), "a SASL response")?;
                }
            }
            Ok(())
        }
    }
}

/// Secret lines taken apart by the message parsers.
fn parsed(p: &mut Pool, style: u64) -> Res {
    let word = |n| -> Vec<u8> { content(n, 0) };
    let (a, b, t, k) = (word(20), content(20, style), word(12), word(8));
    let b: Vec<u8> = b.into_iter().filter(|c| !b"\r\n\0".contains(c)).collect();
    for s in [&a, &b, &t, &k] {
        secret_text(s);
    }
    let mut l = Vec::new();
    if coin() {
        l.extend([b"@k=".as_slice(), &t, b"\\s", &k, b";z "].concat());
    }
    if coin() {
        l.extend([b":".as_slice(), &k, b"!u@", &a, b" "].concat());
    }
    l.extend([b"PRIVMSG ".as_slice(), &a, b" :", &b].concat());
    let line = match Line::from_secret(l) {
        Ok(l) => l,
        Err(e) => return silent(&format!("{e} {e:?}"), "the error"),
    };
    alloc::watch(line.as_bytes());
    let mut out: Vec<(Bytes<'static>, &str)> = Vec::new();
    fn args(m: &Args<'static>, out: &mut Vec<(Bytes<'static>, &str)>) {
        let (w, l) = m.split_last();
        for a in w {
            out.push((a.clone().into_bytes(), "an argument"));
        }
        if let Some(l) = l {
            out.push((l.clone().into_bytes(), "the last argument"));
        }
    }
    fn tags(t: &Tags<'static>, out: &mut Vec<(Bytes<'static>, &str)>) {
        if let Some(v) = t.get(key("k")) {
            out.push((v.clone().into_bytes(), "a tag value"));
        }
    }
    match below(4) {
        0 => {
            if let Ok(m) = ServerMsg::parse(line) {
                let m = if coin() { m.owning() } else { m };
                silent(&format!("{m} {m:?}"), "a message parsed from a secret line")?;
                args(&m.args, &mut out);
                tags(&m.tags, &mut out);
                if let Some(s) = &m.source {
                    silent(&format!("{s} {s:?}"), "a source parsed from a secret line")?;
                    out.push((s.nick.clone().into_bytes(), "the source's nick"));
                }
            }
        }
        1 => {
            if let Ok(m) = ClientMsg::parse(line) {
                let m = if coin() { m.owning() } else { m };
                silent(&format!("{m} {m:?}"), "a message parsed from a secret line")?;
                args(&m.args, &mut out);
                tags(&m.tags, &mut out);
            }
        }
        2 => {
            drop(line);
            let Ok(l) = Line::from_secret([&a[..], b" ", &k, b" :", &b].concat()) else { return Ok(()) };
            let a = Args::parse(l);
            silent(&format!("{a} {a:?}"), "arguments parsed from a secret line")?;
            args(&a, &mut out);
        }
        _ => {
            let Ok(w) = Word::from_secret([b"k=".as_slice(), &t, b"\\:", &k].concat()) else { return Ok(()) };
            let g = Tags::parse(w);
            silent(&format!("{g} {g:?}"), "tags parsed from a secret word")?;
            tags(&g, &mut out);
        }
    }
    for (b, how) in out {
        p.add(b, how)?;
    }
    Ok(())
}
/// Runs an operation on a secret buffer, during which no memory may be freed
/// that still holds what was in the buffer.
fn unspilled<T>(was: &[u8], what: &str, f: impl FnOnce() -> T) -> Res<T> {
    alloc::needles_reset();
    alloc::needle(&was[..was.len().min(96)]);
    let r = f();
    let hit = alloc::needle_hit();
    alloc::needles_reset();
    ensure!(hit.is_none(), "spilled", "{what} freed a block of {} bytes with the secret in it", hit.unwrap_or(0));
    Ok(r)
}

fn buffer(p: &mut Pool, bufs: &mut Vec<(SecretBuf, Vec<u8>)>, style: u64) -> Res {
    if bufs.is_empty() {
        return Ok(());
    }
    let i = below(bufs.len() as u64) as usize;
    let (b, was) = &mut bufs[i];
    match below(8) {
        0 => {
            let v = content(30, style);
            secret_text(&v);
            unspilled(was, "SecretBuf::push_slice", || b.push_slice(&v))?;
            was.extend(&v);
        }
        1 => {
            for _ in 0..below(10) {
                let c = b'a' + below(26) as u8;
                let extra = below(3) as usize;
                unspilled(was, "SecretBuf::push", || b.push(c, extra))?;
                was.push(c);
            }
        }
        2 => {
            let v: Vec<u8> = content(30, 0);
            unspilled(was, "SecretBuf::push_cstr", || b.push_cstr(&v))?;
            was.extend(&v);
            was.push(0);
        }
        3 => {
            let n = below(200) as usize;
            unspilled(was, "SecretBuf::reserve", || b.reserve(n))?;
        }
        4 => {
            let n = unspilled(was, "SecretBuf::clone", || b.clone())?;
            ensure!(n.as_ref() == *was, "damaged", "a cloned secret buffer differs");
            alloc::watch(n.as_ref());
            silent(&format!("{} {:?}", n.as_bytes(), n.as_bytes()), "a view of a buffer")?;
            ensure!(n.as_bytes().is_secret(), "secret_lost", "the view of a secret buffer is not secret");
            if coin() {
                p.add(n.as_bytes().owning(), "an owning view of a buffer")?;
            }
        }
        5 => {
            // Dropped or emptied with its contents in place.
            if coin() {
                b.clear();
                was.clear();
            } else {
                bufs.swap_remove(i);
                return Ok(());
            }
        }
        6 => {
            let (b, was) = bufs.swap_remove(i);
            alloc::watch(b.as_ref());
            let b: Bytes<'static> = unspilled(&was, "SecretBuf::into_bytes", || b.into_bytes())?;
            ensure!(*b == *was, "damaged", "converting a buffer changed its contents");
            return p.add(b, "SecretBuf::into_bytes");
        }
        _ => {
            let t = std::mem::take(b);
            *b = t;
        }
    }
    let (b, was) = &bufs[i];
    ensure!(b.as_ref() == *was, "damaged", "a secret buffer holds {} instead of {}", show(b.as_ref()), show(was));
    alloc::watch(b.as_ref());
    Ok(())
}
