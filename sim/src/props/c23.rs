//! C23: what is saved comes back: messages and options survive being written out, a crash and a restart.
#![allow(deprecated)]
use crate::cl::*;
use crate::core::*;
use crate::hand::*;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::{b64, AnyMech, Cfg, Game, Mech, Outcome, SaslEv};
use crate::{bail, ensure, ev};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::time::Duration;
use vinezombie::client::auth::{AnySasl, Clear, LoadSecret, Secret};
use vinezombie::client::conn::ServerAddr;
use vinezombie::client::nick::{NickGen, NickTransformer, Nicks, Suffix, SuffixStrategy, SuffixType};
use vinezombie::client::register::*;
use vinezombie::client::tls::{TlsConfigOptions, Trust};
use vinezombie::ircmsg::{ClientMsg, ServerMsg, ServerMsgKindRaw};
use vinezombie::string::{Arg, Cmd, Key, Line, Nick, NoNul, SecretBuf, User, Word};

pub const PROP: Prop = Prop {
    id: "C23",
    run,
    quick: 60_000,
    thorough: 2_000_000,
    max_steps: 600_000,
    rule: "each run either (a) lets a client receive messages over a faulty link and queue others, journals both to a simulated disk (cached writes, syncs, a crash that tears or loses what was not synced, and decay of single records), restarts with only the disk, compares every record with what was journalled, and sends the restored messages over a new connection; or (b) loads registration options from a configuration text, possibly damaged, and registers with a simulated server, comparing what it receives with the text; or (c) saves and loads addresses, TLS options and nickname generators and compares values and behaviour; non-trivial = something was compared",
    real: super::REAL_CLIENT,
    stub: &["transport (in-memory byte streams with seeded faults)", "IRC server (scripted or reactive model)", "disk (in memory: cached and durable bytes, torn, lost and decayed writes)", "clock, sleep and randomness (interposed libc calls, virtual time)"],
    assumptions: &["the format is JSON as read and written by serde_json (text, bytes, streamed, or an already parsed tree)", "a damaged record may be refused or read as some other valid value, never as an invalid one"],
};

const FINDINGS: &str = include_str!("../../../KNOWN_FINDINGS.md");
/// Whether a defect is listed as known.
fn listed(name: &str) -> bool {
    FINDINGS.lines().any(|l| l.starts_with("known: property=C23 ") && l.contains(name))
}

/// Loads a value from JSON text in one of the ways there are.
fn load<T: DeserializeOwned>(text: &str) -> Result<T, String> {
    struct Slow<'a>(&'a [u8]);
    impl std::io::Read for Slow<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            if chance(1, 8) {
                fault("read_interrupted");
                return Err(std::io::ErrorKind::Interrupted.into());
            }
            let n = b.len().min(self.0.len()).min(range(1, 40) as usize);
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    let r = match below(4) {
        0 => serde_json::from_str(text),
        1 => serde_json::from_slice(text.as_bytes()),
        2 => serde_json::from_reader(std::io::BufReader::with_capacity(16, Slow(text.as_bytes()))),
        _ => serde_json::from_str::<Value>(text).and_then(serde_json::from_value),
    };
    r.map_err(|e| e.to_string())
}
/// The text something is saved as.
fn save<T: Serialize>(t: &T) -> Result<String, String> {
    if coin() {
        serde_json::to_string(t).map_err(|e| e.to_string())
    } else {
        let v = serde_json::to_value(t).map_err(|e| e.to_string())?;
        serde_json::to_string(&v).map_err(|e| e.to_string())
    }
}

/// Puts something else somewhere in a value.
fn damage(v: &mut Value) {
    fault("record_decayed");
    match v {
        Value::Object(m) if !m.is_empty() && !chance(1, 8) => {
            let i = below(m.len() as u64) as usize;
            let (k, x) = m.iter_mut().nth(i).unwrap();
            let k = k.clone();
            if chance(1, 6) {
                let x = m.remove(&k).unwrap();
                let k = format!("{k}{}", pick(&["", " ", "\n", "\0", "=", ";", "\r\nQUIT", "x"]));
                m.insert(k, x);
            } else {
                damage(x)
            }
        }
        Value::Array(l) if !l.is_empty() && !chance(1, 8) => {
            let i = below(l.len() as u64) as usize;
            damage(&mut l[i])
        }
        Value::String(s) if !chance(1, 6) => {
            let add = *pick(&[" ", "\r", "\n", "\0", "\r\nQUIT :x", ":", "!", "@", "", ",", "\u{e9}", "%"]);
            let mut at = below(s.len() as u64 + 1) as usize;
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            match below(4) {
                0 => *s = add.to_owned(),
                1 => s.truncate(at),
                _ => s.insert_str(at, add),
            }
        }
        v => {
            *v = match below(12) {
                0 => Value::Null,
                1 => json!(false),
                2 => json!(true),
                3 => json!(range(0, 1100)),
                4 => json!(pick(&[65535u32, 1000, 999, 65536, 256]).clone()),
                5 => json!(-1),
                6 => json!([255, 10, 13]),
                7 => json!([49, 50, 51]),
                8 => json!([]),
                9 => json!({}),
                10 => json!([255, 254]),
                _ => json!(pick(&["", "a b", "x\r\ny", "001", "1", "\0", ":", "PRIVMSG"])),
            }
        }
    }
}
/// Damages the text itself.
fn garble(s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    match below(3) {
        0 => b.truncate(below(b.len() as u64 + 1) as usize),
        1 => {
            let i = below(b.len() as u64) as usize;
            b[i] = *pick(b"\0 \"\\{}[],:0x\xff\r\n");
        }
        _ => {
            let a = below(b.len() as u64) as usize;
            let n = range(1, 64) as usize;
            for c in b.iter_mut().skip(a).take(n) {
                *c = 0;
            }
        }
    }
    fault("record_decayed");
    String::from_utf8_lossy(&b).into_owned()
}
fn damaged(s: &str) -> String {
    if chance(1, 4) {
        return garble(s);
    }
    let mut v: Value = serde_json::from_str(s).expect("json");
    for _ in 0..*pick(&[1u64, 1, 2, 4]) {
        damage(&mut v);
    }
    v.to_string()
}

macro_rules! ok {
    ($ty:ident, $b:expr) => {{
        let b: &[u8] = $b;
        ensure!($ty::from_bytes(b.to_vec()).is_ok(), "invalid_restored", "{} was restored as a {}", show(b), stringify!($ty));
    }};
}
fn no_breaks(line: &[u8], what: &str) -> Res {
    ensure!(!line.iter().any(|c| matches!(c, b'\r' | b'\n' | 0)), "injection", "the restored {what} is written as {}", show(line));
    Ok(())
}
fn sane_args(a: &vinezombie::ircmsg::Args<'_>, tags: &vinezombie::ircmsg::Tags<'_>) -> Res {
    let (w, l) = a.split_last();
    for x in w {
        ok!(Arg, x.as_bytes());
        ensure!(is_arg(x.as_bytes()), "invalid_restored", "{} was restored as a word argument", show(x.as_bytes()));
    }
    if let Some(l) = l {
        ok!(Line, l.as_bytes());
    }
    // Tags can only be listed by writing them.
    let mut t = Vec::new();
    tags.write_to(&mut t).expect("write");
    let t = t.strip_prefix(b"@").unwrap_or(&t);
    let t = t.strip_suffix(b" ").unwrap_or(t);
    let l: Vec<&[u8]> = t.split(|c| *c == b';').filter(|_| !tags.is_empty()).collect();
    ensure!(l.len() == tags.len(), "invalid_restored", "{} tags were restored as {}", tags.len(), show(t));
    for x in l {
        let k = x.split(|c| *c == b'=').next().unwrap();
        ok!(Key, k);
        let Some(v) = tags.get(Key::from_bytes(k.to_vec()).unwrap()) else { bail!("invalid_restored", "the tag {} cannot be found", show(k)) };
        ok!(NoNul, v.as_bytes());
    }
    Ok(())
}
fn sane_server(m: &ServerMsg<'_>) -> Res {
    match &m.kind {
        ServerMsgKindRaw::Numeric(n) => {
            let b: &[u8] = n.as_ref();
            ensure!(b.len() == 3 && b.iter().all(|c| c.is_ascii_digit()), "invalid_restored", "{} was restored as a numeric", show(b))
        }
        ServerMsgKindRaw::Cmd(c) => ok!(Cmd, c.as_bytes()),
    }
    if let Some(s) = &m.source {
        ok!(Nick, s.nick.as_bytes());
        if let Some(u) = &s.userhost {
            ok!(Word, u.host.as_bytes());
            if let Some(u) = &u.user {
                ok!(User, u.as_bytes());
            }
        }
    }
    sane_args(&m.args, &m.tags)?;
    let mut line = Vec::new();
    m.write_to(&mut line).expect("write");
    no_breaks(&line, "server message")
}
fn sane_client(m: &ClientMsg<'_>) -> Res {
    ok!(Cmd, m.cmd.as_bytes());
    sane_args(&m.args, &m.tags)?;
    let mut line = Vec::new();
    m.write_to(&mut line).expect("write");
    no_breaks(&line, "client message")
}

/// A disk that loses what was not synced.
#[derive(Default)]
struct Disk {
    durable: Vec<u8>,
    cached: Vec<u8>,
}
impl Disk {
    fn append(&mut self, b: &[u8]) {
        self.cached.extend(b);
    }
    fn sync(&mut self) {
        self.durable.append(&mut self.cached);
    }
    fn crash(&mut self) {
        let keep = below(self.cached.len() as u64 + 1) as usize;
        if keep < self.cached.len() {
            fault("torn_write");
        }
        self.cached.truncate(keep);
        // Blocks reach the disk in any order.
        if keep > 0 && chance(1, 3) {
            let a = below(keep as u64) as usize;
            let n = range(1, 64) as usize;
            for c in self.cached.iter_mut().skip(a).take(n) {
                *c = 0;
            }
            fault("lost_block");
        }
        self.sync();
        ev!("crash, {} bytes on disk", self.durable.len());
    }
}

#[derive(Clone)]
enum Rec {
    In(M),
    Out(M),
}
impl Rec {
    fn m(&self) -> &M {
        match self {
            Rec::In(m) | Rec::Out(m) => m,
        }
    }
    fn utf8(&self) -> bool {
        let m = self.m();
        let t = |b: &[u8]| std::str::from_utf8(b).is_ok();
        m.tags.iter().all(|(k, v)| t(k) && t(v)) && [&m.nick, &m.user, &m.host].into_iter().flatten().all(|x| t(x)) && m.args.iter().all(|a| t(a))
    }
}

fn journal() -> Res {
    let kind = Kind::any();
    let net = Net::new(Faults::any());
    let odd = coin();
    let n = range(1, 8);
    let mut t = 0;
    let expect: Vec<M> = (0..n).map(|_| gen_server(odd)).collect();
    for m in &expect {
        t += below(3) * 400 * MS;
        let mut l = m.encode();
        l.extend(b"\r\n");
        net.send_at(t, l);
    }
    net.push_at(t + SEC, Item::Eof);
    let disk = Rc::new(RefCell::new(Disk::default()));
    let recs: Rc<RefCell<Vec<(Rec, usize)>>> = Default::default();
    let synced = Rc::new(RefCell::new(0usize));
    let sync_rate = *pick(&[0u64, 300, 1000]);
    let bad: Rc<RefCell<Option<Viol>>> = Default::default();
    // Saves one message; a message with text that is not UTF-8 may have no textual form.
    let put = {
        let (disk, recs, synced) = (disk.clone(), recs.clone(), synced.clone());
        move |r: Rec, text: Result<String, String>| -> Res {
            match text {
                Ok(s) => {
                    ensure!(!s.contains('\n'), "harness", "a record has several lines");
                    let mut d = disk.borrow_mut();
                    d.append(if matches!(r, Rec::In(_)) { b"<" } else { b">" });
                    d.append(s.as_bytes());
                    d.append(b"\n");
                    let end = d.durable.len() + d.cached.len();
                    ev!("journal {}", s);
                    recs.borrow_mut().push((r, end));
                    if permille(sync_rate) {
                        d.sync();
                        *synced.borrow_mut() = end;
                    }
                    Ok(())
                }
                Err(e) if r.utf8() => bail!("not_saved", "the message {} cannot be saved: {e}", show(&r.m().canon())),
                Err(e) => non_utf8(&e),
            }
        }
    };
    block_on(kind.tokio, async {
        let mut cl = Cl::fresh(&net, kind);
        let (put2, bad2, exp2) = (put.clone(), bad.clone(), expect.clone());
        let i = std::cell::Cell::new(0usize);
        let own = coin();
        let h = FnH::<u8>::new(move |m, _, q, s| {
            let k = i.get();
            i.set(k + 1);
            let r = (|| -> Res {
                let Some(want) = exp2.get(k) else { bail!("harness", "too many messages") };
                put2(Rec::In(want.clone()), save(m))?;
                if coin() {
                    let c = gen_client(odd);
                    let cm = c.to_client();
                    put2(Rec::Out(c), save(&cm))?;
                    q.push(cm);
                }
                Ok(())
            })();
            if let Err(v) = r {
                bad2.borrow_mut().get_or_insert(v);
            }
            let _ = s.send(1);
            ControlFlow::Continue(())
        })
        .owning(move || own);
        let _rx = cl.add((), h).unwrap();
        let stop = chance(1, 3).then(|| range(1, n));
        let mut runs = 0;
        loop {
            step();
            match cl.run(&net, None).await {
                Ran::Err(_) | Ran::Forever => break,
                _ => {}
            }
            runs += 1;
            if stop == Some(runs) {
                fault("process_killed");
                break;
            }
        }
        Ok(())
    })?;
    if let Some(v) = bad.borrow_mut().take() {
        return Err(v);
    }
    // The process is gone; only the disk is left.
    disk.borrow_mut().crash();
    let data = disk.borrow().durable.clone();
    let recs = recs.borrow().clone();
    let synced = *synced.borrow();
    let mut out: Vec<(M, ClientMsg<'static>)> = Vec::new();
    let mut at = 0;
    for (r, end) in &recs {
        let line = &data[at.min(data.len())..(*end).min(data.len())];
        at = *end;
        let mut line = String::from_utf8_lossy(line).into_owned();
        let whole = {
            let text = match r {
                Rec::In(m) => save(&m.to_server()),
                Rec::Out(m) => save(&m.to_client()),
            };
            let mark = if matches!(r, Rec::In(_)) { '<' } else { '>' };
            text.map(|t| format!("{mark}{t}\n") == line).unwrap_or(false)
        };
        // What was synced is all there.
        ensure!(*end > synced || line.ends_with('\n'), "harness", "the disk lost what was synced");
        if !line.ends_with('\n') && !line.is_empty() {
            probe("torn_record");
        }
        line.truncate(line.trim_end_matches('\n').len());
        if line.len() < 2 {
            continue;
        }
        let decayed = *end <= synced && chance(1, 3);
        let body = if decayed { damaged(&line[1..]) } else { line[1..].to_owned() };
        let intact = !decayed && (*end <= synced || whole);
        match r {
            Rec::In(m) => match load::<ServerMsg>(&body) {
                Ok(x) => {
                    ev!("restored {x}");
                    sane_server(&x)?;
                    if intact {
                        if let Some(d) = m.diff_server(&x) {
                            bail!("restored_wrong", "the message {} was restored differently: {d}", show(&m.canon()));
                        }
                        ensure!(x == m.to_server(), "restored_unequal", "the restored message {x} is not equal to the original");
                        let mut a = Vec::new();
                        x.write_to(&mut a).expect("write");
                        ensure!(a == m.canon(), "restored_text", "the restored message is written as {}, not {}", show(&a), show(&m.canon()));
                        checked(1);
                        probe("message_restored");
                    }
                }
                Err(e) if intact && r.utf8() => bail!("not_restored", "the message {} saved as {body} cannot be restored: {e}", show(&m.canon())),
                Err(e) => {
                    ev!("refused: {e}");
                    if intact {
                        non_utf8(&e)?
                    }
                }
            },
            Rec::Out(m) => match load::<ClientMsg>(&body) {
                Ok(x) => {
                    ev!("restored {x}");
                    sane_client(&x)?;
                    if intact {
                        if let Some(d) = m.diff_client(&x) {
                            bail!("restored_wrong", "the message {} was restored differently: {d}", show(&m.canon()));
                        }
                        out.push((m.clone(), x));
                        checked(1);
                        probe("message_restored");
                    }
                }
                Err(e) if intact && r.utf8() => bail!("not_restored", "the message {} saved as {body} cannot be restored: {e}", show(&m.canon())),
                Err(e) => {
                    ev!("refused: {e}");
                    if intact {
                        non_utf8(&e)?
                    }
                }
            },
        }
    }
    if out.is_empty() {
        return Ok(());
    }
    // What was restored is sent again.
    let kind = Kind::any();
    let net = Net::new(Faults::any());
    let want: Vec<Vec<u8>> = out.iter().map(|x| x.0.canon()).collect();
    block_on(kind.tokio, async {
        let mut cl = Cl::fresh(&net, kind);
        for (_, m) in out {
            cl.queue().edit().push(m);
        }
        for _ in 0..2000 {
            step();
            match cl.run(&net, None).await {
                Ran::Done(..) => break,
                Ran::Timeout => {}
                Ran::Err(e) => bail!("harness", "sending failed: {e}"),
                _ => break,
            }
        }
        let got: Vec<Vec<u8>> = net.lines().into_iter().map(|x| {
            let mut l = x.1;
            while matches!(l.last(), Some(b'\r' | b'\n')) {
                l.pop();
            }
            l
        }).collect();
        ensure!(got == want, "resent", "the restored messages were sent as {:?}, expected {:?}", got.iter().map(|x| show(x)).collect::<Vec<_>>(), want.iter().map(|x| show(x)).collect::<Vec<_>>());
        checked(got.len() as u64);
        Ok(())
    })
}

/// A value that is not UTF-8 has no form in JSON that the library reads.
fn non_utf8(e: &str) -> Res {
    let known = listed("non-utf8-json") && (e.contains("sequence") || e.contains("key must be a string"));
    ensure!(known, "non_utf8", "a message with text that is not UTF-8 cannot be saved and restored: {e}");
    probe("known_non-utf8-json");
    Ok(())
}

// ---------- options ----------

/// A password kept elsewhere, which may not be there when it is needed.
struct Vault(Option<Vec<u8>>);
impl<'de> serde::Deserialize<'de> for Vault {
    fn deserialize<D: serde::Deserializer<'de>>(de: D) -> Result<Self, D::Error> {
        let n = <Option<Vec<u8>>>::deserialize(de)?;
        Ok(Vault(n.map(|x| x.into_iter().map(|c| c ^ 0x55).collect())))
    }
}
impl LoadSecret for Vault {
    fn size_hint(&self) -> usize {
        below(50) as usize
    }
    fn load_secret(self, data: &mut SecretBuf) -> std::io::Result<()> {
        struct Src(Vec<u8>);
        impl std::io::Read for Src {
            fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
                if chance(1, 6) {
                    fault("read_interrupted");
                    return Err(std::io::ErrorKind::Interrupted.into());
                }
                let n = b.len().min(self.0.len()).min(range(1, 40) as usize);
                b[..n].copy_from_slice(&self.0[..n]);
                self.0.drain(..n);
                Ok(n)
            }
        }
        let Some(b) = self.0 else {
            fault("no_secret");
            let at = below(20) as usize;
            data.push_slice(&b"half of the password"[..at]);
            return Err(std::io::Error::new(std::io::ErrorKind::TimedOut, "no secret"));
        };
        match below(3) {
            0 => data.push_slice(&b),
            1 => b.iter().for_each(|c| data.push(*c, 0)),
            _ => {
                let n = b.len();
                data.read_from(n, &mut Src(b))?;
            }
        }
        Ok(())
    }
}
fn secret(vault: bool, p: &[u8]) -> Value {
    if vault {
        json!(p.iter().map(|c| c ^ 0x55).collect::<Vec<u8>>())
    } else {
        json!(s(&b64(p)))
    }
}

struct Conf {
    pass: Option<String>,
    nicks: Vec<String>,
    user: Option<String>,
    real: Option<String>,
    sasl: Vec<AnyMech>,
    allow: bool,
    caps: Vec<String>,
    /// Which of `sasl` may not use any method.
    deny: Vec<bool>,
    vault: bool,
}
fn s(b: &[u8]) -> String {
    String::from_utf8(b.to_vec()).unwrap()
}
impl Conf {
    fn any(c: &Cfg, bot: bool) -> Conf {
        let some = |l: &[&str]| coin().then(|| pick(l).to_string());
        let names = ["nick", "Other", "[third]", "q", "caf\u{e9}"];
        let avail: Vec<&str> = c.caps.iter().flatten().map(|x| x.0.as_str()).collect();
        let mut caps = Vec::new();
        for n in crate::srv::CAPNAMES {
            if chance(1, 6) && (!bot || avail.contains(n)) {
                caps.push(n.to_string());
            }
        }
        let denying = chance(1, 3);
        Conf {
            deny: (0..2).map(|_| denying && coin()).collect(),
            vault: coin(),
            pass: some(&["hunter2", "two words", ":colon", "p\u{e4}ss", ""]),
            nicks: names.iter().take(below(4) as usize).map(|x| x.to_string()).collect(),
            user: some(&["user", "~u", "x"]),
            real: some(&["Real Name", "r", ":-)", "", "\u{540d}"]),
            sasl: (0..*pick(&[0u64, 0, 1, 2]))
                .map(|_| match below(3) {
                    0 => AnyMech::External(if coin() { Vec::new() } else { b"ext-user".to_vec() }),
                    _ => AnyMech::Password(
                        if coin() { Vec::new() } else { b"zid".to_vec() },
                        pick(&["user2", "us er", "\u{fc}ser"]).as_bytes().to_vec(),
                        vec![b'p'; *pick(&[1usize, 8, 50, 400])],
                    ),
                })
                .collect(),
            allow: coin(),
            caps,
        }
    }
    /// As someone writes it in a file. What has a default can be left out.
    fn value(&self) -> Value {
        let mut m: Vec<(&str, Value)> = Vec::new();
        let null = coin();
        let mut opt = |k: &'static str, v: Option<Value>| match v {
            Some(v) => m.push((k, v)),
            None if null => m.push((k, Value::Null)),
            None => {}
        };
        opt("pass", self.pass.as_ref().map(|p| secret(self.vault, p.as_bytes())));
        opt("username", self.user.as_ref().map(|p| json!(p)));
        opt("realname", self.real.as_ref().map(|p| json!(p)));
        if !self.nicks.is_empty() || coin() {
            m.push(("nicks", json!(self.nicks)));
        }
        if self.allow || coin() {
            m.push(("allow_sasl_fail", json!(self.allow)));
        }
        if !self.caps.is_empty() || coin() {
            let mut c = self.caps.clone();
            shuffle(&mut c);
            m.push(("caps", json!(c)));
        }
        if !self.sasl.is_empty() || coin() {
            let l: Vec<Value> = self
                .sasl
                .iter()
                .zip(&self.deny)
                .map(|(a, deny)| match a {
                    AnyMech::Password(z, c, p) => {
                        let mut v = json!({"authcid": s(c), "passwd": secret(self.vault, p)});
                        if !z.is_empty() || coin() {
                            v["authzid"] = json!(s(z));
                        }
                        if *deny {
                            v["deny_methods"] = json!(["Plain"]);
                        } else if coin() {
                            v["deny_methods"] = json!([]);
                        }
                        json!({ "Password": v })
                    }
                    AnyMech::External(z) => json!({"External": s(z)}),
                    _ => unreachable!(),
                })
                .collect();
            m.push(("sasl", json!(l)));
        }
        Value::Object(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
}

fn config() -> Res {
    let bot = coin();
    let c = Cfg::any();
    let f = Conf::any(&c, bot);
    if f.vault {
        config_with::<Vault>(c, f, bot)
    } else {
        config_with::<Clear>(c, f, bot)
    }
}
fn config_with<S: LoadSecret + DeserializeOwned + 'static>(mut c: Cfg, f: Conf, bot: bool) -> Res {
    let text = f.value().to_string();
    ev!("configuration {text}");
    if coin() {
        return bad_config::<S>(&damaged(&text), bot);
    }
    if !f.vault && chance(1, 6) {
        let junk = *pick(&["\"aHVudGVyMg=\"", "\"not base64\"", "\"aHVu!GVyMg==\"", "\"aHVudGVyMg==\\n\"", "\"=\"", "\"aHVudGVyMgAK\"", "\"AAAA\""]);
        let r = load::<Secret<Line<'static>, S>>(junk);
        ensure!(r.is_err(), "secret_missing", "{junk} was accepted as a password in base64");
        checked(1);
    }
    if f.vault && f.pass.is_some() && chance(1, 6) {
        // Without its passwords a configuration is of no use.
        let r = load::<Secret<Line<'static>, S>>("null");
        ensure!(r.is_err(), "secret_missing", "a secret that could not be loaded was replaced by another");
        checked(1);
    }
    let o: Options<S> = match load(&text) {
        Ok(o) => o,
        Err(e) => bail!("config_refused", "the configuration {text} cannot be loaded: {e}"),
    };
    for p in o.pass.iter() {
        ensure!(p.is_secret(), "secret_lost", "the password loaded from {text} is not marked as secret");
    }
    for a in &o.sasl {
        if let AnySasl::Password(p) = a {
            ensure!(p.passwd.is_secret(), "secret_lost", "the SASL password loaded from {text} is not marked as secret");
        }
    }
    let sasl: Vec<AnyMech> = f.sasl.iter().zip(&f.deny).filter(|x| !x.1 || x.0.name() != "PLAIN").map(|x| x.0.clone()).collect();
    if sasl.len() < f.sasl.len() {
        probe("method_denied");
    }
    c.nick_max = 20;
    if let Some(caps) = &mut c.caps {
        if !f.sasl.is_empty() {
            for (i, m) in sasl.iter().enumerate() {
                let last = i + 1 == sasl.len();
                c.mechs.push(Mech { name: m.name(), challenges: vec![Vec::new()], accept: last || coin(), reject: 904, partial: false, how: 0, garbage: None });
            }
            caps.push(("sasl".into(), coin().then(|| "PLAIN,EXTERNAL".into())));
        }
    } else if !f.allow && !f.sasl.is_empty() {
        // A server that cannot be logged in to is of no use here.
        return Ok(());
    }
    let kind = Kind::any();
    let fl = Faults::any();
    block_on(kind.tokio, async move {
        let reg: Register<Options<S>> = if bot { register_as_bot() } else { register_as_client() };
        let mut g = Game::start(&reg, &o, c, kind, fl);
        let out = g.play().await?;
        let sv = g.srv.borrow();
        ensure!(matches!(out, Outcome::Ok) || (!f.allow && sasl.is_empty() && !f.sasl.is_empty()), "config_failed", "registering with the configuration {text} gave {}", out.name());
        ensure!(sv.pass == f.pass.as_ref().map(|p| p.as_bytes().to_vec()), "config_pass", "the server got the password {:?} for {text}", sv.pass.as_ref().map(|x| show(x)));
        let u = sv.user.clone().unwrap_or_default();
        ensure!(u.len() == 4, "config_user", "USER had {} arguments", u.len());
        let want = f.user.clone().unwrap_or(if bot { "vnzb_bot" } else { "user" }.into());
        ensure!(u[0] == want.as_bytes(), "config_user", "the username sent is {} for {text}", show(&u[0]));
        let want = f.real.clone().unwrap_or(if bot { "Vinezombie Bot" } else { "???" }.into());
        ensure!(u[3] == want.as_bytes(), "config_real", "the realname sent is {} for {text}", show(&u[3]));
        for (i, n) in sv.nicks.iter().enumerate() {
            if let Some(w) = f.nicks.get(i) {
                ensure!(n == w.as_bytes(), "config_nick", "nickname {i} offered is {} for {text}", show(n));
            }
        }
        let asked: Vec<&String> = sv.reqs.iter().flat_map(|x| &x.0).collect();
        for w in &f.caps {
            let have = sv.c.caps.iter().flatten().any(|x| x.0 == *w);
            ensure!(!have || w == "sts" || asked.contains(&w), "config_caps", "the capability {w} was not requested for {text}");
        }
        if sv.c.caps.is_some() {
            // The answers given, mechanism after mechanism, until one was accepted.
            let got: Vec<(String, Vec<u8>)> = {
                let mut l = Vec::new();
                let mut cur = String::new();
                for e in &sv.sasl {
                    match e {
                        SaslEv::Start(n) => cur = n.clone(),
                        SaslEv::Response(r) => l.push((cur.clone(), r.clone())),
                        _ => {}
                    }
                }
                l
            };
            for (i, (n, r)) in got.iter().enumerate() {
                let Some(m) = sasl.get(i) else { bail!("config_sasl", "an authentication too many for {text}: {n}") };
                let want = m.answer(0, b"").unwrap();
                ensure!(*n == m.name() && *r == want, "config_sasl", "authentication {i} for {text} was {n} with {}, expected {} with {}", show(r), m.name(), show(&want));
            }
            ensure!(sasl.is_empty() || !got.is_empty(), "config_sasl", "no authentication happened for {text}");
            checked(got.len() as u64);
        }
        checked(5);
        probe("config_registered");
        Ok(())
    })
}
/// Options that are not right are refused or still lead to a well-formed opening.
fn bad_config<S: LoadSecret + DeserializeOwned + 'static>(text: &str, bot: bool) -> Res {
    ev!("damaged {text}");
    let o: Options<S> = match load(text) {
        Ok(o) => o,
        Err(e) => {
            ev!("refused: {e}");
            probe("config_refused");
            checked(1);
            return Ok(());
        }
    };
    probe("config_accepted");
    for n in &o.nicks {
        ok!(Nick, n.as_bytes());
    }
    for k in &o.caps {
        ok!(Key, k.as_bytes());
    }
    if let Some(u) = &o.username {
        ok!(User, u.as_bytes());
    }
    for l in [o.realname.as_ref(), o.pass.as_ref().map(|p| &**p)].into_iter().flatten() {
        ok!(Line, l.as_bytes());
    }
    for a in &o.sasl {
        match a {
            AnySasl::External(e) => ok!(NoNul, e.0.as_bytes()),
            AnySasl::Password(p) => {
                for b in [&p.authzid, &p.authcid, &*p.passwd] {
                    ok!(NoNul, b.as_bytes());
                }
            }
            _ => {}
        }
    }
    let kind = Kind::any();
    let net = Net::new(Faults::none());
    block_on(kind.tokio, async {
        let mut cl = Cl::fresh(&net, kind);
        cl.queue().set_rate_limit(Duration::ZERO, 0);
        let reg: Register<Options<S>> = if bot { register_as_bot() } else { register_as_client() };
        let _rx = cl.add(&reg, &o).unwrap();
        cl.flush(&net).await.map_err(|e| crate::viol!("harness", "{e}"))?;
        let lines = net.lines();
        let mut want = vec!["CAP", "USER", "NICK"];
        if o.pass.is_some() {
            want.insert(0, "PASS");
        }
        let got: Vec<String> = lines.iter().map(|l| parse_client(&l.1).cmd).collect();
        ensure!(got == want, "injection", "the configuration {text} leads to the opening {:?}", lines.iter().map(|l| show(&l.1)).collect::<Vec<_>>());
        for l in &lines {
            let b: &[u8] = l.1.strip_suffix(b"\r\n").unwrap_or(&l.1);
            no_breaks(b, "opening")?;
        }
        let u = parse_client(&lines[want.len() - 2].1);
        ensure!(u.args.len() == 4, "injection", "USER for {text} has {} arguments", u.args.len());
        checked(2);
        Ok(())
    })
}

// ---------- other options ----------

fn back<T: Serialize + DeserializeOwned + PartialEq + std::fmt::Debug>(t: &T) -> Res<T> {
    let text = save(t).map_err(|e| crate::viol!("not_saved", "{t:?} cannot be saved: {e}"))?;
    ev!("saved {text}");
    let mut disk = Disk::default();
    disk.append(text.as_bytes());
    if coin() {
        disk.sync();
    }
    disk.crash();
    let data = String::from_utf8_lossy(&disk.durable).into_owned();
    if data != text {
        // A file torn by the crash: refused, or read as something else, but never with a panic.
        let r = load::<T>(&data);
        ev!("torn: {}", r.is_ok());
        checked(1);
    }
    let r: T = load(&text).map_err(|e| crate::viol!("not_restored", "{t:?} saved as {text} cannot be restored: {e}"))?;
    ensure!(r == *t, "restored_wrong", "{t:?} saved as {text} was restored as {r:?}");
    checked(1);
    Ok(r)
}
fn others() -> Res {
    let word = |l: &[&str]| pick(l).to_string();
    let a = ServerAddr {
        address: Word::from_bytes(word(&["irc.example.net", "192.0.2.1", "::1", "x"]).into_bytes()).unwrap(),
        tls: coin(),
        port: coin().then(|| *pick(&[6667u16, 6697, 1, 65535, 0])),
    };
    let b = back(&a)?;
    ensure!(b.port == a.port && b.port_num() == a.port_num() && b.tls == a.tls, "restored_wrong", "the address {a:?} was restored as {b:?}");
    // Addresses that lead to the same place are the same, also as keys.
    let c = ServerAddr { port: coin().then_some(a.port_num()).or_else(|| coin().then(|| below(65536) as u16)), tls: a.tls ^ chance(1, 4), ..a.clone() };
    let same = c.tls == a.tls && c.port_num() == a.port_num();
    let hash = |a: &ServerAddr<'_>| {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        a.hash(&mut h);
        h.finish()
    };
    ensure!((a == c) == same, "addr_eq", "{a:?} and {c:?} compare equal: {}", a == c);
    ensure!(!same || hash(&a) == hash(&c), "addr_hash", "{a:?} and {c:?} are equal, but hashed differently");
    let d = ServerAddr::from_host("irc.example.net").unwrap();
    ensure!(d.tls && d.port_num() == 6697 && d == ServerAddr::from_host_str("irc.example.net"), "addr_host", "the address of a host alone is {d:?}");
    let text = a.to_word().to_utf8_lossy().into_owned();
    let (addr, port) = (a.address.to_utf8_lossy().into_owned(), a.port_num().to_string());
    ensure!(text.starts_with(&addr) && text.ends_with(&port) && text.contains('+') == a.tls, "addr_text", "{a:?} is shown as {text}");
    let files = |n: u64| (0..n).map(|i| format!("/tmp/{i} \u{e9}.pem").into()).collect::<Vec<std::path::PathBuf>>();
    let t = TlsConfigOptions {
        trust: match below(4) {
            0 => Trust::Only(files(below(3))),
            1 => Trust::Also(files(below(3))),
            2 => Trust::NoVerify,
            _ => Trust::Default,
        },
        cert: coin().then(|| "/tmp/cert.pem".into()),
    };
    back(&t)?;
    let nick = |x: &str| Nick::from_bytes(x.as_bytes().to_vec()).unwrap();
    let st = || match below(9) {
        0 => SuffixType::Letter(coin()),
        1 => SuffixType::Base8,
        2 => SuffixType::Base10,
        3 => SuffixType::Base16(coin()),
        4 => SuffixType::NonZeroBase8,
        5 => SuffixType::NonZeroBase10,
        6 => SuffixType::NonZeroBase16(coin()),
        7 => SuffixType::Choice((0..below(4)).map(|i| nick(["_", "away", "|x", "2"][i as usize])).collect()),
        _ => SuffixType::Char(*pick(&['_', '`', '\u{e9}', 'x'])),
    };
    let x = Suffix {
        strategy: if coin() { SuffixStrategy::Seq } else { SuffixStrategy::Rng(Some(below(1 << 32) as u32)) },
        suffixes: (0..below(4)).map(|_| st()).collect::<Vec<_>>().into(),
    };
    let n = Nicks { nicks: (0..below(3)).map(|i| nick(["a", "b[", "caf\u{e9}"][i as usize])).collect(), skip_first: coin(), gen: std::sync::Arc::new(x) };
    let m = back(&n)?;
    // The restored one makes the same nicknames.
    let all = |s: &Suffix| {
        let mut g: Option<Box<dyn NickGen>> = Some(s.transform(nick("base")));
        let mut l = Vec::new();
        while let Some(x) = g.take().filter(|_| l.len() < 300) {
            let told = x.peek();
            let (n, rest) = x.next_nick();
            assert!(told == n, "a generator said its next nickname would be {told}, but it is {n}");
            l.push(n);
            g = rest;
        }
        l
    };
    let (p, q) = (all(&n.gen), all(&m.gen));
    ensure!(p == q, "restored_nicks", "the nicknames made from {:?} differ once it has been saved and restored", n.gen);
    checked(p.len() as u64);
    probe("options_restored");
    Ok(())
}

fn run() -> Res {
    set_late(swarm());
    match below(5) {
        0 | 1 => journal(),
        2 | 3 => config(),
        _ => others(),
    }
}
