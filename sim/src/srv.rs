//! A simulated IRC server that follows IRCv3 connection registration, with
//! configurable capabilities, nickname policy, SASL mechanisms and refusals.
//! It shares no code with the library. Everything it does is drawn from the
//! choice source; everything it announced and received is recorded.
use crate::cl::*;
use crate::core::*;
use crate::hand::FnH;
use crate::irc::{parse_client, CLine};
use crate::net::*;
use crate::{bail, ensure, ev};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use std::ops::ControlFlow;
use std::rc::Rc;
use vinezombie::client::register::{HandlerError, Register};
use vinezombie::client::{ClientLogic, MakeHandler};
use vinezombie::string::SecretBuf;

// ---------- base64, independent of the library ----------

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { B64[(v >> (18 - 6 * i)) as usize & 63] } else { b'=' });
        }
    }
    o
}
/// Strict decoding; None if not canonical base64.
pub fn unb64(s: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::new();
    if s.len() % 4 != 0 {
        return None;
    }
    for (n, c) in s.chunks(4).enumerate() {
        let mut v = 0u32;
        let mut pad = 0;
        for (i, b) in c.iter().enumerate() {
            if *b == b'=' {
                if i < 2 || n + 1 != s.len() / 4 {
                    return None;
                }
                pad += 1;
                v <<= 6;
            } else {
                if pad > 0 {
                    return None;
                }
                v = v << 6 | B64.iter().position(|x| x == b)? as u32;
            }
        }
        o.extend(&v.to_be_bytes()[1..4 - pad]);
    }
    if b64(&o) != s {
        return None;
    }
    Some(o)
}

// ---------- configuration ----------

#[derive(Clone, Debug, PartialEq)]
pub enum Refuse {
    /// 464 or 465 with a reason.
    Denied(u16),
    /// 010 with host and port.
    Redir(String, u16),
    /// RFC 2812 bounce (005 before the welcome).
    Bounce(String, u16),
    /// Any other error numeric.
    Numeric(u16),
    ErrorCmd,
    FailCmd,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum When {
    Nick,
    User,
    Ls,
    End,
    Welcome,
    /// In the middle of the welcome burst, after 001.
    Burst,
}
#[derive(Clone, Debug)]
pub struct Mech {
    pub name: String,
    pub challenges: Vec<Vec<u8>>,
    /// Accept: how it is announced; otherwise the numeric of the rejection.
    pub accept: bool,
    pub reject: u16,
    /// Reject in the middle of a challenge longer than one chunk.
    pub partial: bool,
    /// Accepting sends 900, then 903 / 900 only / 903 only / 907 only.
    pub how: u64,
    /// Sends this instead of the first challenge.
    pub garbage: Option<Vec<u8>>,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: String,
    pub version: String,
    pub host: String,
    /// None: a server that does not know CAP and ignores it.
    pub caps: Option<Vec<(String, Option<String>)>>,
    pub ls_split: u64,
    /// Cookie PING: 0 none, 1 once NICK and USER arrived, 2 also after CAP END.
    pub cookie: u64,
    /// Reply numerics to successive NICKs; after that nicks are accepted.
    pub nick_replies: Vec<u16>,
    pub nick_max: usize,
    pub tokens: Vec<(String, Option<String>)>,
    pub per_005: u64,
    pub motd: Option<u64>,
    /// Unrelated traffic, per mille per line.
    pub noise: u64,
    pub slow: u64,
    pub refuse: Option<(When, Refuse)>,
    pub mechs: Vec<Mech>,
    pub account: String,
    /// Answer unknown mechanisms with 908 before the 904.
    pub say_908: bool,
    /// Capabilities refused with NAK.
    pub nak: BTreeSet<String>,
    /// Split each ACK into several lines, possibly in another order.
    pub split_ack: bool,
    /// Collect the answers to all CAP REQs and send them in another order.
    pub hold_ack: bool,
    /// CAP NEW / DEL lines sent at random points (caps never requested by the client).
    pub cap_new: Vec<(String, Option<String>)>,
    pub cap_del: Vec<String>,
    pub cap_rate: u64,
    pub src_prefix: bool,
    /// Log out (901) after a successful login: never, before or after CAP END.
    pub logout: Option<bool>,
    /// Welcomes the client out of turn, per mille per line received.
    pub early: u64,
    /// Sends SASL numerics out of turn, per mille per line sent.
    pub wild: u64,
    /// 900 and 901 name the client by nick only.
    pub bare_whoami: bool,
    /// Starting or failing an authentication ends the login of before (901).
    pub relog: bool,
    /// CAP subcommands in lower case.
    pub low_sub: bool,
}

pub const CAPNAMES: &[&str] = &[
    "account-notify", "message-tags", "server-time", "multi-prefix", "chghost", "labeled-response", "batch",
    "echo-message", "setname", "extended-join", "draft/chathistory", "example.org/x", "away-notify", "sts",
    "cap-notify", "invite-notify", "userhost-in-names", "znc.in/self-message", "standard-replies", "msgid",
];
pub const TOKENS: &[(&str, Option<&str>)] = &[
    ("NICKLEN", Some("30")), ("USERLEN", Some("12")), ("HOSTLEN", Some("40")), ("CASEMAPPING", Some("rfc1459")),
    ("CHANTYPES", Some("#&")), ("PREFIX", Some("(ov)@+")), ("NETWORK", Some("ExampleNet")), ("EXCEPTS", None),
    ("SAFELIST", None), ("CHANMODES", Some("b,k,l,imnpst")), ("MODES", Some("4")), ("TOPICLEN", Some("390")),
    ("ELIST", Some("CTU")), ("KNOCK", None), ("INVEX", Some("I")), ("STATUSMSG", Some("@+")), ("EMPTY", Some("")),
    ("AWAYLEN", Some("200")), ("CHANNELLEN", Some("64")), ("KICKLEN", Some("255")), ("MONITOR", Some("100")), ("SILENCE", None),
    ("WHOX", None), ("BOT", Some("B")), ("CALLERID", None),
];

/// A CHANMODES value. Servers name letters twice, leave types out or add types of their own, and use other characters.
fn chanmodes() -> String {
    let pool: Vec<char> = "beIqkLlfjimnpstcrRSzC1;".chars().collect();
    let groups = *pick(&[4u64, 4, 4, 5, 6, 3, 1]);
    let mut left = pool.clone();
    shuffle(&mut left);
    let twice = chance(1, 3);
    let mut out = Vec::new();
    for _ in 0..groups {
        let mut g = String::new();
        for _ in 0..below(6) {
            let c = if twice && chance(1, 4) { *pick(&pool) } else if let Some(c) = left.pop() { c } else { break };
            if !g.contains(c) {
                g.push(c);
            }
        }
        out.push(g);
    }
    out.join(",")
}
/// A PREFIX value. Some statuses have no prefix.
fn prefix() -> String {
    let n = below(7) as usize;
    let mut m: Vec<char> = "qaohvyY".chars().collect();
    let mut p: Vec<char> = "~&@%+!.".chars().collect();
    if coin() {
        shuffle(&mut m);
        shuffle(&mut p);
    }
    // A status may have a letter that is none.
    if n > 1 && chance(1, 8) {
        m[below(n as u64) as usize] = '1';
    }
    let np = if chance(1, 4) { below(n as u64 + 1) as usize } else { n };
    format!("({}){}", m[..n].iter().collect::<String>(), p[..np].iter().collect::<String>())
}


impl Cfg {
    pub fn plain() -> Cfg {
        Cfg {
            name: "irc.example.net".into(),
            version: "sim-1.0".into(),
            host: "host.example".into(),
            caps: Some(Vec::new()),
            ls_split: 0,
            cookie: 0,
            nick_replies: Vec::new(),
            nick_max: 30,
            tokens: Vec::new(),
            per_005: 13,
            motd: None,
            noise: 0,
            slow: 0,
            refuse: None,
            mechs: Vec::new(),
            account: "acct".into(),
            say_908: false,
            nak: BTreeSet::new(),
            split_ack: false,
            hold_ack: false,
            cap_new: Vec::new(),
            cap_del: Vec::new(),
            cap_rate: 0,
            src_prefix: true,
            logout: None,
            early: 0,
            wild: 0,
            bare_whoami: false,
            relog: false,
            low_sub: chance(1, 16),
        }
    }
    /// A random server without SASL, refusals or missing capabilities.
    pub fn any() -> Cfg {
        let mut c = Cfg::plain();
        if !chance(1, 8) {
            let mut caps = Vec::new();
            for n in CAPNAMES {
                if chance(1, 3) {
                    let v = if chance(1, 3) { Some(pick(&["v", "max-bytes=4096,max-lines=24", "duration=31536000,port=6697", ""]).to_string()) } else { None };
                    caps.push((n.to_string(), v));
                }
            }
            shuffle(&mut caps);
            c.caps = Some(caps);
            c.ls_split = below(4);
        } else {
            c.caps = None;
        }
        c.cookie = below(3);
        for t in TOKENS {
            if chance(1, 3) {
                c.tokens.push((t.0.into(), t.1.map(String::from)));
            }
        }
        if coin() {
            for t in &mut c.tokens {
                if t.0.ends_with("LEN") {
                    t.1 = Some(range(9, 300).to_string());
                }
                match t.0.as_str() {
                    "CHANMODES" => t.1 = Some(chanmodes()),
                    "PREFIX" => t.1 = Some(prefix()),
                    "EXCEPTS" | "INVEX" | "CALLERID" | "BOT" => t.1 = Some(pick(&["e", "I", "x", "", "7"]).to_string()),
                    "MONITOR" | "SILENCE" | "MODES" => t.1 = Some(pick(&["", "1", "0", "100", "65535", "65536"]).to_string()),
                    _ => {}
                }
            }
        }
        // A server may correct itself later in the burst.
        if chance(1, 4) {
            for _ in 0..range(1, 3) {
                if let Some((k, v)) = (!c.tokens.is_empty()).then(|| pick(&c.tokens).clone()) {
                    let v = match v {
                        Some(v) if v.parse::<u32>().is_ok() => Some(range(9, 300).to_string()),
                        Some(_) => Some("again".into()),
                        None => None,
                    };
                    c.tokens.push((k, v));
                }
            }
        }
        c.per_005 = range(1, 13);
        c.motd = coin().then(|| below(4));
        c.noise = *pick(&[0u64, 0, 100, 300, 600]);
        c.slow = below(4);
        c.src_prefix = !chance(1, 6);
        c.version = pick(&["sim-1.0", "solanum-1.0-dev", "v"]).to_string();
        c
    }
}

// ---------- the server ----------

/// What the server has told the client about itself and the client.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Ann {
    pub nick: Vec<u8>,
    pub userhost: Option<(Vec<u8>, Vec<u8>)>,
    pub account: Option<Vec<u8>>,
    pub caps: BTreeMap<String, (String, bool)>,
    pub tokens: BTreeMap<String, String>,
    pub version: Option<String>,
    pub source: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SaslEv {
    Start(String),
    Challenge(Vec<u8>),
    Response(Vec<u8>),
    Abort,
    /// Numeric the server answered with.
    End(u16),
    Mechs(Vec<String>),
}
#[derive(Clone, Debug)]
pub struct Line {
    pub l: CLine,
    /// How many server messages the client had processed when it arrived.
    pub processed: usize,
    pub sent: usize,
    pub at: u64,
}

pub struct Srv {
    pub c: Cfg,
    pub lines: Vec<Line>,
    /// Every line sent to the client.
    pub out: Vec<Vec<u8>>,
    pub ann: Ann,
    /// `ann` as of the end of the message of the day.
    pub done: Option<Ann>,
    pub processed: Rc<Cell<usize>>,
    pub nicks: Vec<Vec<u8>>,
    pub nick: Option<Vec<u8>>,
    pub user: Option<Vec<Vec<u8>>>,
    pub pass: Option<Vec<u8>>,
    pub caplocked: bool,
    pub ls: u64,
    ls_done: bool,
    pub ended: u64,
    pub cookie: Option<Vec<u8>>,
    pub cookies_left: u64,
    pub welcomed: bool,
    pub refused: Option<(Refuse, Vec<u8>)>,
    pub reqs: Vec<(Vec<String>, usize)>,
    pub nakked: Vec<String>,
    pub sasl: Vec<SaslEv>,
    cur: Option<(Mech, usize, Vec<u8>)>,
    held: Vec<(bool, Vec<String>)>,
    hold_token: Option<Vec<u8>>,
    /// PING arguments sent and PONG arguments received, in order.
    pub pings: Vec<Vec<u8>>,
    pub pongs: Vec<Option<Vec<u8>>>,
    pub seq: u64,
    /// Protocol violations seen.
    pub bad: Option<Viol>,
    pub logged_in: bool,
    pub closed: bool,
}

impl Srv {
    pub fn new(c: Cfg) -> Srv {
        let cookies_left = c.cookie;
        Srv {
            c,
            lines: Vec::new(),
            out: Vec::new(),
            ann: Ann::default(),
            done: None,
            processed: Rc::new(Cell::new(0)),
            nicks: Vec::new(),
            nick: None,
            user: None,
            pass: None,
            caplocked: false,
            ls: 0,
            ls_done: false,
            ended: 0,
            cookie: None,
            cookies_left,
            welcomed: false,
            refused: None,
            reqs: Vec::new(),
            nakked: Vec::new(),
            sasl: Vec::new(),
            cur: None,
            held: Vec::new(),
            hold_token: None,
            pings: Vec::new(),
            pongs: Vec::new(),
            seq: 0,
            bad: None,
            logged_in: false,
            closed: false,
        }
    }
    pub fn bad(&mut self, v: Viol) {
        ev!("server: protocol violation {}: {}", v.class, v.detail);
        self.bad.get_or_insert(v);
    }
    fn target(&self) -> Vec<u8> {
        self.nick.clone().unwrap_or(b"*".to_vec())
    }
    fn delay(&self) -> u64 {
        match self.c.slow {
            0 => 0,
            1 => below(3) * 20 * MS,
            2 => *pick(&[0u64, 100, 700, 1500]) * MS,
            _ => *pick(&[0u64, 2500, 9000, 40_000]) * MS,
        }
    }
    fn raw(&mut self, io: &mut PeerIo, l: impl AsRef<[u8]>) {
        let mut b = l.as_ref().to_vec();
        b.extend(b"\r\n");
        let at = io.out.last().map_or(0, |x| x.0) + self.delay();
        if b.len() > 2 {
            self.out.push(l.as_ref().to_vec());
        }
        io.send(at, b);
    }
    /// Sends one line from the server, with unrelated traffic around it.
    pub fn say(&mut self, io: &mut PeerIo, l: impl AsRef<[u8]>) {
        self.noise(io);
        let mut b = Vec::new();
        if self.c.src_prefix {
            b.extend(format!(":{} ", self.c.name).bytes());
            self.ann.source.get_or_insert(self.c.name.clone());
        }
        b.extend(l.as_ref());
        if self.c.low_sub && l.as_ref().starts_with(b"CAP ") {
            probe("cap_subcommand_lower_case");
            for sub in ["LS", "ACK", "NAK", "NEW", "DEL"] {
                let (find, put) = (format!(" {sub} "), format!(" {} ", sub.to_lowercase()));
                let end = b.windows(2).position(|w| w == b" :").unwrap_or(b.len()) + 1;
                if let Some(k) = b[..end].windows(find.len()).position(|w| w == find.as_bytes()) {
                    b[k..k + find.len()].copy_from_slice(put.as_bytes());
                }
            }
        }
        self.raw(io, b);
    }
    fn num(&mut self, io: &mut PeerIo, code: &str, rest: impl AsRef<[u8]>) {
        let mut l = format!("{code} ").into_bytes();
        l.extend(self.target());
        l.push(b' ');
        let rest = rest.as_ref();
        match rest.windows(2).position(|w| w == b" :") {
            // Texts need no colon if they are one word.
            Some(k) if matches!(code, "900" | "901" | "433" | "251" | "255" | "422") && chance(1, 12) => {
                probe("one_word_text");
                l.extend(&rest[..=k]);
                l.extend(pick(&["OK", "done.", "-", "x:y"]).bytes());
            }
            _ => l.extend(rest),
        }
        self.say(io, l);
    }
    fn ping(&mut self, io: &mut PeerIo) {
        self.seq += 1;
        let arg = match below(4) {
            0 => format!("{}", self.seq * 7919).into_bytes(),
            1 => format!("tok{}", self.seq).into_bytes(),
            2 => format!("two words {}", self.seq).into_bytes(),
            _ => format!(":-{}", self.seq).into_bytes(),
        };
        self.pings.push(arg.clone());
        let mut l = b"PING ".to_vec();
        if chance(1, 4) {
            l.extend(b"first ");
        }
        if !crate::irc::is_arg(&arg) || coin() {
            l.push(b':');
        }
        l.extend(&arg);
        if coin() {
            self.ann.source.get_or_insert_with(|| self.c.name.clone());
            l = [format!(":{} ", self.c.name).as_bytes(), &l[..]].concat();
        }
        self.raw(io, l);
    }
    fn noise(&mut self, io: &mut PeerIo) {
        if self.done.is_some() {
            return;
        }
        while permille(self.c.noise) {
            probe("noise_line");
            match below(8) {
                0 | 1 => self.ping(io),
                2 => {
                    let l = format!(":{} NOTICE * :*** Looking up your hostname...", self.c.name);
                    self.ann.source.get_or_insert(self.c.name.clone());
                    self.raw(io, l)
                }
                3 => {
                    let l = format!(":{} 020 * :Please wait while we process your connection.", self.c.name);
                    self.ann.source.get_or_insert(self.c.name.clone());
                    self.raw(io, l)
                }
                4 => self.raw(io, "NOTICE AUTH :*** Checking ident"),
                5 => self.raw(io, "X"),
                6 => {
                    let l = format!("@time=2020-01-01T00:00:00.000Z :{} NOTICE * :tagged", self.c.name);
                    self.ann.source.get_or_insert(self.c.name.clone());
                    self.raw(io, l)
                }
                _ => self.raw(io, ""),
            }
        }
        while permille(self.c.wild) {
            fault("stray_sasl_numeric");
            let t = String::from_utf8_lossy(&self.target()).into_owned();
            let l = match below(9) {
                0 => format!("901 {t} {t}!u@h :You are now logged out"),
                7 => format!("901 {t} {t} :You are now logged out"),
                1 => format!("904 {t} :SASL authentication failed"),
                2 => format!("906 {t} :SASL authentication aborted"),
                3 => format!("908 {t} X-ONE,PLAIN :are available"),
                4 => format!("902 {t} :You must use a nick assigned to you"),
                5 => "AUTHENTICATE +".to_string(),
                6 => format!("905 {t} :SASL message too long"),
                _ => format!("CAP {t} ACK :sasl"),
            };
            self.raw(io, l);
        }
        if self.ls_done && !self.welcomed && permille(self.c.cap_rate) && !self.cap_event(io) {
            probe("no_cap_event_left");
        }
    }
    fn cap_event(&mut self, io: &mut PeerIo) -> bool {
        let new = coin();
        let nick = String::from_utf8_lossy(&self.target()).into_owned();
        let pfx = format!(":{} ", self.c.name);
        if new {
            let Some((k, v)) = self.c.cap_new.pop() else { return false };
            self.ann.source.get_or_insert(self.c.name.clone());
            // The value of one already advertised may change.
            let enabled = self.ann.caps.get(&k).is_some_and(|c| c.1);
            let old = self.ann.caps.insert(k.clone(), (v.clone().unwrap_or_default(), enabled));
            let it = v.map_or(k.clone(), |v| format!("{k}={v}"));
            fault(if old.is_some() { "cap_new_value" } else { "cap_new" });
            self.raw(io, format!("{pfx}CAP {nick} NEW :{it}"));
        } else {
            let Some(k) = self.c.cap_del.pop() else { return false };
            if self.ann.caps.remove(&k).is_none() {
                return false;
            }
            self.ann.source.get_or_insert(self.c.name.clone());
            fault("cap_del");
            self.raw(io, format!("{pfx}CAP {nick} DEL :{k}"));
        }
        true
    }
    fn refuse(&mut self, io: &mut PeerIo, w: When) -> bool {
        if self.closed {
            return true;
        }
        let Some((when, r)) = self.c.refuse.clone() else { return false };
        if when != w {
            return false;
        }
        fault("refused");
        let text = format!("No, {}", self.c.name);
        let before = self.out.len();
        match &r {
            Refuse::Denied(n) => self.num(io, &n.to_string(), format!(":{text}")),
            Refuse::Redir(h, p) => self.num(io, "010", format!("{h} {p} :{text}")),
            Refuse::Bounce(h, p) => self.num(io, "005", format!(":Try server {h}, port {p}")),
            Refuse::Numeric(n) => self.num(io, &n.to_string(), format!("x :{text}")),
            Refuse::ErrorCmd => self.say(io, format!("ERROR :{text}")),
            Refuse::FailCmd => self.say(io, format!("FAIL * NOPE :{text}")),
        }
        let l = self.out[before.max(self.out.len() - 1)].clone();
        self.refused = Some((r, l));
        self.closed = true;
        if coin() {
            self.raw(io, "ERROR :Closing Link");
        }
        if !chance(1, 4) {
            let at = io.out.last().map_or(0, |x| x.0);
            io.out.push((at, Item::Eof));
        }
        true
    }
    pub fn on_line(&mut self, line: &[u8], io: &mut PeerIo) {
        let l = parse_client(line);
        self.lines.push(Line { l: l.clone(), processed: self.processed.get(), sent: self.out.len(), at: now() });
        if self.closed {
            return;
        }
        if !self.welcomed && permille(self.c.early) {
            fault("early_welcome");
            self.welcome(io);
        }
        let a0 = l.args.first().cloned().unwrap_or_default();
        match l.cmd.as_str() {
            "PASS" => self.pass = Some(a0),
            "CAP" => self.on_cap(&l, io),
            "NICK" => {
                if self.welcomed {
                    return;
                }
                let n = self.nicks.len();
                self.nicks.push(a0.clone());
                if let Some(code) = self.c.nick_replies.get(n).copied() {
                    fault("nick_rejected");
                    let mut l = a0;
                    l.extend(b" :Nickname is not available");
                    self.num(io, &code.to_string(), l);
                } else {
                    let mut a = a0;
                    if a.len() > self.c.nick_max {
                        fault("nick_truncated");
                        a.truncate(self.c.nick_max);
                    }
                    self.nick = Some(a);
                }
                if self.refuse(io, When::Nick) {
                    return;
                }
                self.maybe_welcome(io);
            }
            "USER" => {
                self.user = Some(l.args.clone());
                if self.refuse(io, When::User) {
                    return;
                }
                self.maybe_welcome(io);
            }
            "PONG" => {
                let arg = l.args.last().cloned();
                self.pongs.push(arg.clone());
                if self.hold_token.is_some() && self.hold_token == arg {
                    self.hold_token = None;
                    let mut h = std::mem::take(&mut self.held);
                    shuffle(&mut h);
                    for (ack, p) in h {
                        self.cap_answer(ack, p, io);
                    }
                }
                if self.cookie.is_some() && self.cookie == arg {
                    self.cookie = None;
                    self.maybe_welcome(io);
                }
            }
            "AUTHENTICATE" => self.on_auth(&a0, io),
            other => {
                let o = other.to_string();
                self.bad(crate::viol!("unexpected_command", "the client sent {o} during registration"));
            }
        }
    }
    fn on_cap(&mut self, l: &CLine, io: &mut PeerIo) {
        if self.c.caps.is_none() {
            return;
        }
        let sub = l.args.first().map(|x| String::from_utf8_lossy(x).into_owned()).unwrap_or_default();
        match sub.as_str() {
            "LS" => {
                self.caplocked = true;
                self.ls += 1;
                if self.refuse(io, When::Ls) {
                    return;
                }
                let caps = self.c.caps.clone().unwrap();
                let items: Vec<String> =
                    caps.iter().map(|(k, v)| v.as_ref().map_or(k.clone(), |v| format!("{k}={v}"))).collect();
                for (k, v) in &caps {
                    self.ann.caps.insert(k.clone(), (v.clone().unwrap_or_default(), false));
                }
                let nick = String::from_utf8_lossy(&self.target()).into_owned();
                let mut rest = &items[..];
                for _ in 0..self.c.ls_split {
                    let k = below(rest.len() as u64 + 1) as usize;
                    let (a, b) = rest.split_at(k);
                    rest = b;
                    self.say(io, format!("CAP {nick} LS * :{}", a.join(" ")));
                }
                let tail = if chance(1, 4) { " " } else { "" };
                self.say(io, format!("CAP {nick} LS :{}{tail}", rest.join(" ")));
                self.ls_done = true;
            }
            "REQ" => {
                let list: Vec<String> = l.args.last().map(|x| String::from_utf8_lossy(x).into_owned()).unwrap_or_default().split(' ').filter(|x| !x.is_empty()).map(String::from).collect();
                // The reply must fit one line: ":server CAP nick ACK :caps \r\n".
                self.reqs.push((list.clone(), self.target().len()));
                let known = list.iter().all(|c| self.ann.caps.contains_key(c) && !self.c.nak.contains(c));
                let mut list = list;
                let mut parts = Vec::new();
                if known {
                    if self.c.split_ack {
                        shuffle(&mut list);
                        while list.len() > 1 && coin() {
                            let k = range(1, list.len() as u64 - 1) as usize;
                            parts.push((true, list.drain(..k).collect::<Vec<_>>()));
                        }
                    }
                    parts.push((true, list));
                } else {
                    fault("cap_nak");
                    self.nakked.extend(list.iter().cloned());
                    parts.push((false, list));
                }
                if !self.c.hold_ack {
                    for (ack, p) in parts {
                        self.cap_answer(ack, p, io);
                    }
                    return;
                }
                // The answer to this PING comes after the last REQ.
                self.held.append(&mut parts);
                if self.hold_token.is_none() {
                    fault("acks_reordered");
                    self.seq += 1;
                    let t = format!("hold{}", self.seq).into_bytes();
                    self.pings.push(t.clone());
                    self.hold_token = Some(t.clone());
                    self.raw(io, [b"PING ", &t[..]].concat());
                }
            }
            "END" => {
                self.ended += 1;
                if self.refuse(io, When::End) {
                    return;
                }
                self.caplocked = false;
                if self.c.logout == Some(true) && self.logged_in {
                    self.logout(io);
                }
                self.maybe_welcome(io);
            }
            _ => self.bad(crate::viol!("unexpected_command", "the client sent CAP {sub}")),
        }
    }
    fn cap_answer(&mut self, ack: bool, list: Vec<String>, io: &mut PeerIo) {
        let nick = String::from_utf8_lossy(&self.target()).into_owned();
        if ack {
            for c in &list {
                if let Some(e) = self.ann.caps.get_mut(c) {
                    e.1 = true;
                }
            }
        }
        let tail = if ack && chance(1, 4) { " " } else { "" };
        let what = if ack { "ACK" } else { "NAK" };
        self.say(io, format!("CAP {nick} {what} :{}{tail}", list.join(" ")));
    }
    fn whoami(&self) -> Vec<u8> {
        if self.c.bare_whoami {
            return self.target();
        }
        let u = self.user.as_ref().and_then(|u| u.first().cloned()).unwrap_or(b"user".to_vec());
        [&self.target()[..], b"!", &u[..], b"@", self.c.host.as_bytes()].concat()
    }
    fn set_whoami(&mut self) {
        if self.c.bare_whoami {
            self.ann.userhost = None;
            self.ann.nick = self.target();
            return;
        }
        let u = self.user.as_ref().and_then(|u| u.first().cloned()).unwrap_or(b"user".to_vec());
        self.ann.userhost = Some((u, self.c.host.clone().into_bytes()));
        self.ann.nick = self.target();
    }
    /// Logging in and out may change the host that others see.
    fn rehost(&mut self) {
        if chance(1, 3) {
            fault("host_changed_by_account");
            self.c.host = pick(&["cloak/acc", "h", "user.vhost.example", "1:2::3"]).to_string();
        }
    }
    pub fn login(&mut self, io: &mut PeerIo) {
        self.rehost();
        if chance(1, 10) {
            // First into a group's account, then into the user's own.
            fault("account_switched");
            let mut l = self.whoami();
            l.extend(b" group :You are now logged in");
            self.num(io, "900", l);
        }
        let mut l = self.whoami();
        l.extend(format!(" {} :You are now logged in", self.c.account).bytes());
        self.set_whoami();
        self.ann.account = Some(self.c.account.clone().into_bytes());
        self.num(io, "900", l);
        self.logged_in = true;
    }
    pub fn logout(&mut self, io: &mut PeerIo) {
        fault("logged_out");
        self.rehost();
        let mut l = self.whoami();
        l.extend(b" :You are now logged out");
        self.set_whoami();
        self.ann.account = None;
        self.num(io, "901", l);
        self.logged_in = false;
    }
    fn sasl_end(&mut self, io: &mut PeerIo, code: u16) {
        if self.c.relog && matches!(code, 902 | 904 | 905 | 906) && coin() {
            self.logout(io);
        }
        self.sasl.push(SaslEv::End(code));
        self.cur = None;
        self.num(io, &code.to_string(), ":SASL result");
    }
    fn on_auth(&mut self, a: &[u8], io: &mut PeerIo) {
        let enabled = self.ann.caps.get("sasl").is_some_and(|x| x.1);
        if !enabled {
            self.bad(crate::viol!("auth_without_cap", "AUTHENTICATE {} sent although sasl was not acknowledged", show(a)));
            return;
        }
        if a == b"*" {
            self.sasl.push(SaslEv::Abort);
            self.sasl_end(io, 906);
            return;
        }
        let Some((m, round, mut acc)) = self.cur.take() else {
            let name = String::from_utf8_lossy(a).into_owned();
            self.sasl.push(SaslEv::Start(name.clone()));
            if self.c.relog && coin() {
                self.logout(io);
            }
            // Entries for the same mechanism answer successive attempts.
            let nth = self.sasl.iter().filter(|e| **e == SaslEv::Start(name.clone())).count() - 1;
            let all: Vec<&Mech> = self.c.mechs.iter().filter(|m| m.name == name).collect();
            let m = all.get(nth).or(all.last()).map(|m| (*m).clone());
            let Some(m) = m else {
                fault("sasl_unknown_mech");
                if self.c.say_908 {
                    let list: Vec<String> = self.c.mechs.iter().map(|m| m.name.clone()).collect();
                    self.sasl.push(SaslEv::Mechs(list.clone()));
                    self.num(io, "908", format!("{} :are available SASL mechanisms", if list.is_empty() { "*".into() } else { list.join(",") }));
                }
                self.sasl_end(io, 904);
                return;
            };
            self.challenge(m, 0, io);
            return;
        };
        // A chunk of the response.
        if a.len() > 400 {
            self.bad(crate::viol!("chunk_too_long", "an AUTHENTICATE chunk of {} bytes was sent", a.len()));
        }
        if a != b"+" {
            acc.extend(a);
        }
        if a.len() == 400 {
            self.cur = Some((m, round, acc));
            return;
        }
        let Some(resp) = unb64(&acc) else {
            self.bad(crate::viol!("bad_base64", "the response {} is not base64", show(&acc)));
            return;
        };
        self.sasl.push(SaslEv::Response(resp));
        if round + 1 < m.challenges.len() {
            self.challenge(m, round + 1, io);
        } else if m.accept {
            probe("sasl_accept");
            self.cur = None;
            if m.how != 2 && m.how != 3 {
                self.login(io);
                self.sasl.push(SaslEv::End(900));
            }
            if m.how == 0 || m.how == 2 {
                self.sasl_end(io, 903);
            }
            if m.how == 3 {
                self.sasl_end(io, 907);
            }
            if self.c.logout == Some(false) {
                self.logout(io);
            }
        } else {
            fault("sasl_reject");
            self.sasl_end(io, m.reject);
        }
    }
    fn challenge(&mut self, m: Mech, round: usize, io: &mut PeerIo) {
        let chal = m.challenges.get(round).cloned().unwrap_or_default();
        let e = b64(&chal);
        if m.partial && e.len() > 400 && round + 1 == m.challenges.len() && !m.accept {
            fault("sasl_partial_challenge");
            self.say(io, [b"AUTHENTICATE ", &e[..400]].concat());
            self.sasl_end(io, m.reject);
            return;
        }
        if let (0, Some(g)) = (round, &m.garbage) {
            fault("sasl_garbage_challenge");
            let l = [b"AUTHENTICATE ", &g[..]].concat();
            self.say(io, l);
            self.cur = Some((m, round, Vec::new()));
            return;
        }
        self.sasl.push(SaslEv::Challenge(chal));
        let mut rest = &e[..];
        loop {
            let k = rest.len().min(400);
            if k == 0 {
                self.say(io, "AUTHENTICATE +");
                break;
            }
            self.say(io, [b"AUTHENTICATE ", &rest[..k]].concat());
            rest = &rest[k..];
            if k < 400 {
                break;
            }
        }
        self.cur = Some((m, round, Vec::new()));
    }
    fn maybe_welcome(&mut self, io: &mut PeerIo) {
        if self.welcomed || self.closed || self.caplocked || self.nick.is_none() || self.user.is_none() || self.cookie.is_some() {
            // The first cookie is asked for as soon as NICK and USER are known.
            if !self.welcomed && !self.closed && self.caplocked && self.cookie.is_none() && self.cookies_left == 2 && self.nick.is_some() && self.user.is_some() {
                self.cookies_left = 1;
                self.ask_cookie(io);
            }
            return;
        }
        if self.cookies_left > 0 {
            self.cookies_left = 0;
            self.ask_cookie(io);
            return;
        }
        if self.refuse(io, When::Welcome) {
            return;
        }
        self.welcome(io);
    }
    fn ask_cookie(&mut self, io: &mut PeerIo) {
        probe("cookie");
        self.noise(io);
        self.seq += 1;
        let c = format!("cookie{}", self.seq).into_bytes();
        self.cookie = Some(c.clone());
        self.pings.push(c.clone());
        self.raw(io, [b"PING :", &c[..]].concat());
    }
    pub fn welcome(&mut self, io: &mut PeerIo) {
        self.welcomed = true;
        let (name, ver) = (self.c.name.clone(), self.c.version.clone());
        self.ann.nick = self.target();
        let me = String::from_utf8_lossy(&self.target()).into_owned();
        self.num(io, "001", format!(":Welcome to the network {me}"));
        if self.c.src_prefix {
            self.ann.source = Some(name.clone());
        }
        if self.refuse(io, When::Burst) {
            return;
        }
        self.num(io, "002", format!(":Your host is {name}, running version {ver}"));
        self.num(io, "003", ":This server was created a while ago");
        self.ann.version = Some(ver.clone());
        let modes = *pick(&[" iowx beIklmnopstv bkl", "", " iowx", " iowx beIklmnopstv", " iowx beIklmnopstv bkl a b"]);
        self.num(io, "004", format!("{name} {ver}{modes}"));
        let toks = self.c.tokens.clone();
        for chunk in toks.chunks(self.c.per_005.max(1) as usize) {
            let s: Vec<String> =
                chunk.iter().map(|(k, v)| v.as_ref().map_or(k.clone(), |v| format!("{k}={v}"))).collect();
            for (k, v) in chunk {
                self.ann.tokens.insert(k.clone(), v.clone().unwrap_or_default());
            }
            self.num(io, "005", format!("{} :are supported by this server", s.join(" ")));
        }
        self.num(io, "251", ":There are 5 users and 3 invisible on 1 server");
        self.num(io, "252", "2 :IRC Operators online");
        self.num(io, "255", ":I have 5 clients and 1 servers");
        match self.c.motd {
            Some(n) => {
                self.num(io, "375", format!(":- {name} Message of the day -"));
                for _ in 0..n {
                    self.num(io, "372", ":- 376 End of /MOTD, or is it?");
                }
                self.num(io, "376", ":End of /MOTD command.");
            }
            None => self.num(io, "422", ":MOTD File is missing"),
        }
        self.done = Some(self.ann.clone());
    }
}

// ---------- driving a registration ----------

pub enum Outcome {
    Ok,
    Err(HandlerError),
    Io(std::io::Error),
    /// Waiting for something that will never happen.
    Stuck,
}
impl Outcome {
    pub fn name(&self) -> String {
        match self {
            Outcome::Ok => "success".into(),
            Outcome::Err(e) => format!("{e:?}"),
            Outcome::Io(e) => format!("I/O error {:?}", e.kind()),
            Outcome::Stuck => "stuck".into(),
        }
    }
}

pub struct Game {
    pub net: Net,
    pub cl: Cl,
    pub kind: Kind,
    pub srv: Rc<RefCell<Srv>>,
    pub rx: RxO<Result<(), HandlerError>>,
    pub id: usize,
}

/// Attaches a server to a connection, with an observer counting processed messages.
pub fn attach(net: &Net, cl: &mut Cl, srv: &Rc<RefCell<Srv>>) {
    let s2 = srv.clone();
    net.set_peer(move |l, io| s2.borrow_mut().on_line(l, io));
    let p = srv.borrow().processed.clone();
    let h = FnH::<()>::new(move |m, _, _, _| {
        ev!("client processes {}", m);
        p.set(p.get() + 1);
        ControlFlow::Continue(())
    });
    let _ = cl.add((), h);
}

impl Game {
    pub fn start<'a, O, M>(reg: M, opts: O, cfg: Cfg, kind: Kind, f: Faults) -> Game
    where
        M: MakeHandler<O, Value = Result<(), HandlerError>, Receiver<AnySpec> = RxO<Result<(), HandlerError>>>,
        M::Error: std::fmt::Debug,
    {
        let net = Net::new(f);
        let mut logic = ClientLogic::new();
        if coin() {
            let (d, b) = *pick(&[(100u64, 10u32), (0, 0), (3000, 1), (500, 0)]);
            logic.queue_mut().set_rate_limit(std::time::Duration::from_millis(d), b);
        }
        if chance(1, 4) {
            logic.set_read_timeout(Some(std::time::Duration::from_millis(*pick(&[1000u64, 5000, 30_000]))));
        }
        if chance(1, 4) {
            logic.set_write_timeout(Some(std::time::Duration::from_secs(10)));
        }
        let mut cl = Cl::new(&net, kind, logic);
        let srv = Rc::new(RefCell::new(Srv::new(cfg)));
        attach(&net, &mut cl, &srv);
        let (id, rx) = cl.add(reg, opts).expect("make_handler");
        Game { net, cl, kind, srv, rx, id }
    }
    /// Runs until registration reports a result or nothing more can happen.
    pub async fn play(&mut self) -> Res<Outcome> {
        let cancels = if self.kind.tokio { *pick(&[0u64, 0, 300]) } else { 0 };
        let mut quiet = 0;
        for _ in 0..30_000 {
            let cancel = permille(cancels).then(|| (range(1, 40), now() + range(1, 5000) * MS));
            let r = self.cl.run(&self.net, cancel).await;
            match r {
                Ran::Done(_, fin) => {
                    let got = self.rx.get();
                    if let Got::Val(v) = got {
                        ensure!(fin.contains(&self.id), "not_finished", "registration reported a result but its handler was not reported as finished");
                        return Ok(match v {
                            Ok(()) => Outcome::Ok,
                            Err(e) => Outcome::Err(report(e)?),
                        });
                    }
                    ensure!(!fin.contains(&self.id), "no_result", "the registration handler finished without reporting a result");
                }
                Ran::Timeout if self.net.with(|n| n.rx_empty()) && self.cl.queue().is_empty() => {
                    // Nothing is on its way in either direction.
                    quiet += 1;
                    if quiet > 3 {
                        return Ok(Outcome::Stuck);
                    }
                }
                Ran::Timeout | Ran::Cancelled => {}
                Ran::Forever => return Ok(Outcome::Stuck),
                Ran::Err(e) => return Ok(Outcome::Io(e)),
            }
        }
        Ok(Outcome::Stuck)
    }
}

/// What an application that prints the error or passes it on as an I/O error gets to see.
fn report(e: HandlerError) -> Res<HandlerError> {
    use std::io::ErrorKind;
    let text = e.to_string();
    let needs: Vec<String> = match &e {
        HandlerError::NoAccess(l) => vec![l.to_utf8_lossy().into_owned()],
        HandlerError::Redirect(h, p, l) => vec![h.to_utf8_lossy().into_owned(), p.to_string(), l.to_utf8_lossy().into_owned()],
        HandlerError::ServerError(m) => vec![m.to_string()],
        HandlerError::MissingCaps(c) => c.iter().map(|k| k.to_utf8_lossy().into_owned()).collect(),
        _ => Vec::new(),
    };
    for n in needs {
        ensure!(text.contains(&n), "error_text", "the error {e:?} is displayed as {text}");
    }
    let was = format!("{e:?}");
    let kind = match &e {
        HandlerError::NoAccess(_) => ErrorKind::ConnectionRefused,
        HandlerError::Broken(_) => ErrorKind::InvalidData,
        _ => ErrorKind::Other,
    };
    let io: std::io::Error = e.into();
    ensure!(io.kind() == kind, "error_kind", "as an I/O error {was} is of kind {:?}", io.kind());
    let Some(inner) = io.into_inner() else { bail!("error_lost", "as an I/O error {was} has no cause") };
    let back = match inner.downcast::<HandlerError>() {
        Ok(e) => *e,
        Err(e) => HandlerError::Broken(e),
    };
    ensure!(format!("{back:?}") == was, "error_lost", "as an I/O error {was} has become {back:?}");
    Ok(back)
}

// ---------- scripted SASL mechanisms ----------

/// A mechanism whose responses are a known function of the challenge.
#[derive(Clone, Debug)]
pub struct TestMech {
    pub name: String,
    pub key: u64,
    pub sizes: Vec<usize>,
    /// Considers the challenge of this round broken.
    pub broken_at: Option<usize>,
}
pub fn response(key: u64, round: usize, chal: &[u8], size: usize) -> Vec<u8> {
    let mut s = key ^ (round as u64) << 32;
    for b in chal {
        s = (s ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    (0..size).map(|_| splitmix(&mut s) as u8).collect()
}
struct TestLogic(TestMech, usize);
impl vinezombie::client::auth::SaslLogic for TestLogic {
    fn name(&self) -> vinezombie::string::Arg<'static> {
        vinezombie::string::Arg::from_bytes(self.0.name.clone().into_bytes()).expect("mech name")
    }
    fn reply(&mut self, input: &[u8], output: &mut SecretBuf) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
        let r = self.1;
        self.1 += 1;
        if self.0.broken_at == Some(r) {
            return Err("broken challenge".into());
        }
        let size = self.0.sizes.get(r).copied().unwrap_or(0);
        output.push_slice(&response(self.0.key, r, input, size));
        Ok(())
    }
    fn size_hint(&self) -> usize {
        self.0.sizes.first().copied().unwrap_or(0)
    }
}
impl vinezombie::client::auth::Sasl for TestMech {
    fn logic(&self) -> Vec<Box<dyn vinezombie::client::auth::SaslLogic>> {
        vec![Box::new(TestLogic(self.clone(), 0))]
    }
}

/// Any mechanism the simulations configure.
#[derive(Clone, Debug)]
pub enum AnyMech {
    Test(TestMech),
    /// authzid, authcid, password
    Plain(Vec<u8>, Vec<u8>, Vec<u8>),
    Password(Vec<u8>, Vec<u8>, Vec<u8>),
    External(Vec<u8>),
}
impl AnyMech {
    pub fn name(&self) -> String {
        match self {
            AnyMech::Test(t) => t.name.clone(),
            AnyMech::Plain(..) | AnyMech::Password(..) => "PLAIN".into(),
            AnyMech::External(_) => "EXTERNAL".into(),
        }
    }
    /// The response to a challenge; None if the challenge is unacceptable.
    pub fn answer(&self, round: usize, chal: &[u8]) -> Option<Vec<u8>> {
        match self {
            AnyMech::Test(t) if t.broken_at == Some(round) => None,
            AnyMech::Test(t) => Some(response(t.key, round, chal, t.sizes.get(round).copied().unwrap_or(0))),
            AnyMech::Plain(z, c, p) | AnyMech::Password(z, c, p) => {
                if round == 0 && chal.is_empty() {
                    Some([&z[..], b"\0", &c[..], b"\0", &p[..]].concat())
                } else {
                    None
                }
            }
            AnyMech::External(z) => chal.is_empty().then(|| z.clone()),
        }
    }
}
impl vinezombie::client::auth::Sasl for AnyMech {
    fn logic(&self) -> Vec<Box<dyn vinezombie::client::auth::SaslLogic>> {
        use vinezombie::client::auth::{sasl, Secret};
        use vinezombie::string::NoNul;
        let nn = |b: &Vec<u8>| NoNul::from_bytes(b.clone()).expect("no nul");
        match self {
            AnyMech::Test(t) => t.logic(),
            AnyMech::Plain(z, c, p) => {
                let mut s = sasl::Plain::<()>::new(nn(c), Secret::new(nn(p)));
                s.authzid = nn(z);
                s.logic()
            }
            AnyMech::Password(z, c, p) => {
                let mut s = sasl::Password::<()>::new(nn(c), Secret::new(nn(p)));
                s.authzid = nn(z);
                s.logic()
            }
            AnyMech::External(z) => sasl::External(nn(z)).logic(),
        }
    }
}

pub type Reg = Register<vinezombie::client::register::Options<(), AnyMech>>;
