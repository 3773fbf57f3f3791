//! An independent little model of IRC messages: generation, serialisation,
//! parsing and comparison, sharing no code with the library.
use crate::core::*;
use vinezombie::ircmsg::{ClientMsg, ServerMsg};
use vinezombie::string::{Arg, Cmd, Key, Line, Nick, NoNul, User, Word};

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct M {
    pub tags: Vec<(Vec<u8>, Vec<u8>)>,
    pub nick: Option<Vec<u8>>,
    pub user: Option<Vec<u8>>,
    pub host: Option<Vec<u8>>,
    pub kind: Vec<u8>,
    pub args: Vec<Vec<u8>>,
}

pub fn is_arg(b: &[u8]) -> bool {
    !b.is_empty() && b[0] != b':' && !b.iter().any(|c| matches!(c, b' ' | b'\r' | b'\n' | 0))
}
fn tag_escape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in v {
        match c {
            b';' => o.extend(b"\\:"),
            b' ' => o.extend(b"\\s"),
            b'\r' => o.extend(b"\\r"),
            b'\n' => o.extend(b"\\n"),
            b'\\' => o.extend(b"\\\\"),
            c => o.push(*c),
        }
    }
    o
}

impl M {
    pub fn new(kind: &str) -> M {
        M { kind: kind.as_bytes().to_vec(), ..M::default() }
    }
    pub fn arg(mut self, a: impl AsRef<[u8]>) -> M {
        self.args.push(a.as_ref().to_vec());
        self
    }
    pub fn src(mut self, s: &str) -> M {
        let (n, uh) = match s.split_once('!') {
            Some((n, r)) => (n, Some(r)),
            None => (s, None),
        };
        self.nick = Some(n.into());
        if let Some((u, h)) = uh.and_then(|r| r.split_once('@')) {
            self.user = Some(u.into());
            self.host = Some(h.into());
        }
        self
    }
    pub fn source_bytes(&self) -> Option<Vec<u8>> {
        let mut o = self.nick.clone()?;
        if let Some(u) = &self.user {
            o.push(b'!');
            o.extend(u);
        }
        if let Some(h) = &self.host {
            o.push(b'@');
            o.extend(h);
        }
        Some(o)
    }
    /// The canonical form: single spaces, a colon only where needed, tags in key order.
    pub fn canon(&self) -> Vec<u8> {
        let mut tags = self.tags.clone();
        tags.sort();
        self.encode_with(&tags, false, false)
    }
    /// Some form a peer may legally send.
    pub fn encode(&self) -> Vec<u8> {
        let colon = coin();
        let spaces = chance(1, 6);
        self.encode_with(&self.tags, colon, spaces)
    }
    fn encode_with(&self, tags: &[(Vec<u8>, Vec<u8>)], colon: bool, spaces: bool) -> Vec<u8> {
        let mut o = Vec::new();
        let sp = |o: &mut Vec<u8>| {
            o.push(b' ');
            if spaces {
                for _ in 0..below(3) {
                    o.push(b' ');
                }
            }
        };
        if !tags.is_empty() {
            for (i, (k, v)) in tags.iter().enumerate() {
                o.push(if i == 0 { b'@' } else { b';' });
                o.extend(k);
                if !v.is_empty() {
                    o.push(b'=');
                    o.extend(tag_escape(v));
                }
            }
            sp(&mut o);
        }
        if let Some(s) = self.source_bytes() {
            o.push(b':');
            o.extend(s);
            sp(&mut o);
        }
        o.extend(&self.kind);
        for (i, a) in self.args.iter().enumerate() {
            sp(&mut o);
            let last = i + 1 == self.args.len();
            if last && (colon || !is_arg(a)) {
                o.push(b':');
            }
            o.extend(a);
        }
        o
    }
    pub fn line(&self) -> Vec<u8> {
        let mut o = self.encode_with(&self.tags, false, false);
        o.extend(b"\r\n");
        o
    }
    fn cmp_common(
        &self,
        ntags: usize,
        get: impl Fn(&[u8]) -> Option<Vec<u8>>,
        kind: &[u8],
        args: &vinezombie::ircmsg::Args<'_>,
    ) -> Option<String> {
        if ntags != self.tags.len() {
            return Some(format!("{} tags, expected {}", ntags, self.tags.len()));
        }
        for (k, v) in &self.tags {
            let g = get(k);
            if g.as_ref() != Some(v) {
                return Some(format!("tag {} is {:?}, expected {:?}", show(k), g.map(|x| show(&x)), show(v)));
            }
        }
        if kind != self.kind.as_slice() {
            return Some(format!("kind {} expected {}", show(kind), show(&self.kind)));
        }
        let a = args_of(args);
        if a != self.args {
            return Some(format!(
                "args {:?} expected {:?}",
                a.iter().map(|x| show(x)).collect::<Vec<_>>(),
                self.args.iter().map(|x| show(x)).collect::<Vec<_>>()
            ));
        }
        None
    }
    /// None if equal, else a description of the first difference.
    pub fn diff_server(&self, m: &ServerMsg<'_>) -> Option<String> {
        let src = m.source.as_ref().map(|s| {
            let mut v = Vec::new();
            let _ = s.write_to(&mut v);
            (
                v,
                s.nick.as_bytes().to_vec(),
                s.userhost.as_ref().and_then(|u| u.user.as_ref()).map(|u| u.as_bytes().to_vec()),
                s.userhost.as_ref().map(|u| u.host.as_bytes().to_vec()),
            )
        });
        let exp = self
            .source_bytes()
            .map(|b| (b, self.nick.clone().unwrap(), self.user.clone(), self.host.clone()));
        if src != exp {
            return Some(format!("source {:?} expected {:?}", src.map(|x| show(&x.0)), exp.map(|x| show(&x.0))));
        }
        self.cmp_common(
            m.tags.len(),
            |k| Key::from_bytes(k.to_vec()).ok().and_then(|k| m.tags.get(k).map(|v| v.as_bytes().to_vec())),
            m.kind.as_str().as_bytes(),
            &m.args,
        )
    }
    pub fn diff_client(&self, m: &ClientMsg<'_>) -> Option<String> {
        self.cmp_common(
            m.tags.len(),
            |k| Key::from_bytes(k.to_vec()).ok().and_then(|k| m.tags.get(k).map(|v| v.as_bytes().to_vec())),
            m.cmd.as_bytes(),
            &m.args,
        )
    }
    pub fn to_client(&self) -> ClientMsg<'static> {
        let mut m = ClientMsg::new_cmd(Cmd::from_bytes(self.kind.clone()).expect("cmd"));
        {
            let mut e = m.tags.edit();
            for (k, v) in &self.tags {
                e.insert_pair(Key::from_bytes(k.clone()).expect("key"), NoNul::from_bytes(v.clone()).expect("nonul"));
            }
        }
        self.fill_args(&mut m.args);
        m
    }
    fn fill_args(&self, args: &mut vinezombie::ircmsg::Args<'static>) {
        let mut e = args.edit();
        for (i, a) in self.args.iter().enumerate() {
            if i + 1 == self.args.len() {
                e.add(Line::from_bytes(a.clone()).expect("line"));
            } else {
                e.add_word(Arg::from_bytes(a.clone()).expect("arg"));
            }
        }
    }
    pub fn to_server(&self) -> ServerMsg<'static> {
        use vinezombie::ircmsg::{Numeric, ServerMsgKindRaw, SharedSource, Source, UserHost};
        let kind = match Numeric::from_bytes(&self.kind) {
            Some(n) => ServerMsgKindRaw::Numeric(n),
            None => ServerMsgKindRaw::Cmd(Cmd::from_bytes(self.kind.clone()).expect("cmd")),
        };
        let mut m = ServerMsg::new_cmd(Cmd::from_str("X"));
        m.kind = kind;
        m.source = self.nick.as_ref().map(|n| {
            SharedSource::new(Source {
                nick: Nick::from_bytes(n.clone()).expect("nick"),
                userhost: self.host.as_ref().map(|h| UserHost {
                    user: self.user.as_ref().map(|u| User::from_bytes(u.clone()).expect("user")),
                    host: Word::from_bytes(h.clone()).expect("word"),
                }),
            })
        });
        {
            let mut e = m.tags.edit();
            for (k, v) in &self.tags {
                e.insert_pair(Key::from_bytes(k.clone()).expect("key"), NoNul::from_bytes(v.clone()).expect("nonul"));
            }
        }
        self.fill_args(&mut m.args);
        m
    }
}

pub fn args_of(args: &vinezombie::ircmsg::Args<'_>) -> Vec<Vec<u8>> {
    let (w, l) = args.split_last();
    let mut o: Vec<Vec<u8>> = w.iter().map(|x| x.as_bytes().to_vec()).collect();
    if let Some(l) = l {
        o.push(l.as_bytes().to_vec());
    }
    o
}

/// A line from the client as the simulated server understands it.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CLine {
    pub tags: Vec<u8>,
    pub cmd: String,
    pub args: Vec<Vec<u8>>,
}
pub fn parse_client(line: &[u8]) -> CLine {
    let mut b = line;
    while let [r @ .., b'\r' | b'\n'] = b {
        b = r;
    }
    let mut tags = Vec::new();
    if b.first() == Some(&b'@') {
        let e = b.iter().position(|c| *c == b' ').unwrap_or(b.len());
        tags = b[1..e].to_vec();
        b = &b[(e + 1).min(b.len())..];
    }
    let mut words = Vec::new();
    while !b.is_empty() {
        if b[0] == b':' && !words.is_empty() {
            words.push(b[1..].to_vec());
            break;
        }
        let e = b.iter().position(|c| *c == b' ').unwrap_or(b.len());
        if e > 0 {
            words.push(b[..e].to_vec());
        }
        b = &b[(e + 1).min(b.len())..];
    }
    let mut it = words.into_iter();
    let cmd = it.next().map(|c| String::from_utf8_lossy(&c).into_owned()).unwrap_or_default();
    CLine { tags, cmd, args: it.collect() }
}

// ---------- generators ----------

const PLAIN: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
const ODD: &[u8] = b"\x01\x02\x09\x0b\x0c\x1b\x7f\x80\xc3\xa9\xff;=:@!,%*#&~+-_[]{}|^`'\"\\/<>.?$()";

pub fn bytes(len: u64, odd: bool, ok: impl Fn(u8) -> bool) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..len {
        let c = if odd && chance(1, 4) { *pick(ODD) } else { *pick(PLAIN) };
        v.push(if ok(c) { c } else { b'x' });
    }
    v
}
fn short() -> u64 {
    *pick(&[3, 1, 2, 5, 8, 12, 30])
}
pub fn gen_word(odd: bool) -> Vec<u8> {
    let mut w = bytes(short(), odd, |c| c != b' ');
    if w[0] == b':' {
        w[0] = b'w';
    }
    w
}
pub fn gen_line(odd: bool) -> Vec<u8> {
    let mut o = Vec::new();
    let n = below(5);
    for i in 0..n {
        if i > 0 || chance(1, 8) {
            o.push(b' ');
        }
        if chance(1, 8) {
            o.push(b':');
        }
        o.extend(bytes(below(12), odd, |_| true));
    }
    o
}
pub fn gen_key(odd: bool) -> Vec<u8> {
    let mut k = bytes(short(), odd, |c| !matches!(c, b'=' | b';' | b':'));
    if chance(1, 4) {
        k.insert(0, b'+');
    }
    k
}
pub fn gen_value(odd: bool) -> Vec<u8> {
    let n = below(10);
    (0..n)
        .map(|_| {
            if odd && chance(1, 3) {
                *pick(b"; \r\n\\:=@s rn\x01\xc3")
            } else {
                *pick(PLAIN)
            }
        })
        .collect()
}
/// Networks differ in how long names may be.
fn name_len() -> u64 {
    if chance(1, 8) {
        range(10, 40)
    } else {
        range(1, 9)
    }
}
pub fn gen_nick(odd: bool) -> Vec<u8> {
    let mut n = bytes(name_len(), odd, |c| !matches!(c, b'!' | b'@' | b',' | b' '));
    if n[0] == b':' {
        n[0] = b'n';
    }
    n
}
pub fn gen_user(odd: bool) -> Vec<u8> {
    let mut n = bytes(name_len(), odd, |c| !matches!(c, b'%' | b'@' | b' '));
    if n[0] == b':' {
        n[0] = b'~';
    }
    n
}
pub fn gen_tags(m: &mut M, odd: bool) {
    let n = if chance(1, 20) { range(5, 40) } else { below(4) };
    for _ in 0..n {
        let k = gen_key(odd);
        if m.tags.iter().all(|(x, _)| *x != k) {
            m.tags.push((k, gen_value(odd)));
        }
    }
}
pub fn gen_args(m: &mut M, odd: bool) {
    let n = *pick(&[1u64, 0, 2, 3, 5, 15, 20]);
    for i in 0..n {
        if i + 1 == n && coin() {
            m.args.push(gen_line(odd));
        } else {
            m.args.push(gen_word(odd));
        }
    }
}
const SKINDS: &[&str] =
    &["PRIVMSG", "NOTICE", "PING", "001", "433", "JOIN", "MODE", "CAP", "005", "999", "NICK", "X", "TAGMSG", "000"];
pub fn gen_server(odd: bool) -> M {
    let mut m = M::new(pick(SKINDS));
    if m.kind == b"000" {
        m.kind = b"010".to_vec();
    }
    if coin() {
        gen_tags(&mut m, odd);
    }
    match below(4) {
        0 => {}
        1 => m.nick = Some(gen_nick(odd)),
        2 => {
            m.nick = Some(gen_nick(odd));
            m.host = Some(bytes(range(1, 20), odd, |c| c != b' '));
        }
        _ => {
            m.nick = Some(gen_nick(odd));
            m.user = Some(gen_user(odd));
            m.host = Some(bytes(range(1, 20), odd, |c| c != b' '));
        }
    }
    gen_args(&mut m, odd);
    m
}
pub fn gen_client(odd: bool) -> M {
    let mut m = M::new(pick(&["PRIVMSG", "NOTICE", "PONG", "JOIN", "X", "AUTHENTICATE"]));
    if coin() {
        gen_tags(&mut m, odd);
    }
    gen_args(&mut m, odd);
    m
}
