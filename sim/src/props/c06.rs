//! C06: required authentication is never bypassed.
use super::c05::*;
use crate::cl::*;
use crate::core::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::*;
use crate::ensure;
use vinezombie::client::register::*;

pub const PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    max_steps: 600_000,
    rule: "each run: one registration with zero to three SASL mechanisms, failure allowed or not, against a server that accepts, rejects (902, 904, 905), does not know or does not offer mechanisms, breaks off or garbles challenges, confirms logins in different ways, logs the client out again, lacks sasl or CAP altogether, welcomes out of turn or sends stray SASL messages; the order of confirmations, revocations, CAP END, welcome and result is judged; non-trivial = a result was judged",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["when failure is allowed the server otherwise follows the protocol and acknowledges a sasl capability it advertised"],
};

fn run() -> Res {
    let mut c = Cfg::any();
    let bot = coin();
    let (mut o, _) = gen_opts(&mut c, bot);
    o.sasl.clear();
    for _ in 0..*pick(&[1u64, 2, 3, 0]) {
        let mut m = gen_mech();
        if let AnyMech::Test(t) = &mut m {
            if chance(1, 5) {
                t.broken_at = Some(0);
            }
        }
        if o.sasl.iter().all(|x| x.name() != m.name()) {
            o.sasl.push(m);
        }
    }
    o.allow_sasl_fail = chance(1, 3);
    let needs = !o.sasl.is_empty() && !o.allow_sasl_fail;
    if coin() {
        c.nick_replies.push(433);
    }
    c.noise = c.noise.min(100);
    let mut offered = Vec::new();
    // Mostly servers where at least one mechanism can work.
    let friendly = coin();
    if friendly && c.caps.is_none() {
        c.caps = Some(Vec::new());
    }
    for m in &o.sasl {
        if !friendly && chance(1, 8) {
            continue;
        }
        let mut sm = srv_mech(m, coin());
        sm.reject = *pick(&[904u16, 902, 905]);
        sm.partial = coin();
        sm.how = *pick(&[0u64, 0, 0, 1, 2, 3]);
        if friendly {
            sm.accept = true;
            sm.how = *pick(&[0u64, 0, 0, 1]);
        } else if chance(1, 8) {
            sm.garbage = Some(pick(&["!!!!", "AAA", "====", "A"]).as_bytes().to_vec());
        }
        c.mechs.push(sm);
        offered.push(m.name());
    }
    c.say_908 = coin();
    if let (Some(caps), true) = (&mut c.caps, friendly || !chance(1, 6)) {
        let mut list = offered.clone();
        if coin() {
            list.push("SCRAM-SHA-256".into());
        }
        if chance(1, 4) {
            // Advertises something else than it implements.
            list = o.sasl.iter().map(|m| m.name()).collect();
        }
        caps.push(("sasl".into(), coin().then(|| list.join(","))));
        shuffle(caps);
    }
    c.split_ack = coin();
    if chance(1, 3) {
        c.logout = Some(coin());
    }
    c.bare_whoami = coin();
    c.account = pick(&["acct", "u", "Some[One]", "*", "a.b@c"]).to_string();
    let mut wild = false;
    if needs {
        if chance(1, 4) {
            c.early = *pick(&[50u64, 300]);
            wild = true;
        }
        if chance(1, 4) {
            c.wild = *pick(&[50u64, 200]);
            wild = true;
        }
        if chance(1, 12) {
            c.nak.insert("sasl".into());
        }
    }
    set_late(swarm());
    let kind = Kind::any();
    let f = Faults::any();
    block_on(kind.tokio, async move {
        let reg: Reg = if bot { register_as_bot() } else { register_as_client() };
        let mut g = Game::start(&reg, &o, c, kind, f);
        let out = g.play().await?;
        let s = g.srv.borrow();
        judge(&s, &out, needs, wild)
    })
}

fn numeric(l: &[u8]) -> &[u8] {
    let mut w = l.split(|b| *b == b' ').filter(|w| !w.is_empty() && w[0] != b':' && w[0] != b'@');
    w.next().unwrap_or(b"")
}

fn judge(s: &Srv, out: &Outcome, needs: bool, wild: bool) -> Res {
    checked(1);
    let name = out.name();
    if !needs {
        ensure!(s.done.is_some() && matches!(out, Outcome::Ok), "optional_failed", "authentication was not required, yet registration reported {name}");
        probe("optional_ok");
        return Ok(());
    }
    // Login state after each message the client processed.
    let mut conf = vec![false];
    let mut revoked = false;
    let mut at_welcome = None;
    for l in &s.out {
        let mut c = *conf.last().unwrap();
        match numeric(l) {
            b"900" => {
                c = true;
                revoked = false;
            }
            b"903" | b"907" if !revoked => c = true,
            b"901" => {
                c = false;
                revoked = true;
            }
            b"001" if at_welcome.is_none() => at_welcome = Some(c),
            _ => {}
        }
        conf.push(c);
    }
    for l in &s.lines {
        if l.l.cmd == "CAP" && l.l.args.first().is_some_and(|a| a == b"END") {
            checked(1);
            let ok = conf.iter().take(l.processed + 1).any(|c| *c);
            ensure!(ok, "cap_end", "CAP END was sent after {} server messages although no login had been confirmed", l.processed);
        }
    }
    if matches!(out, Outcome::Ok) {
        ensure!(at_welcome == Some(true), "bypassed", "registration reported success although no login stood when the server welcomed the client");
        probe("required_ok");
    } else {
        probe(match out {
            Outcome::Err(HandlerError::NoLogin) => "required_failed_no_login",
            Outcome::Err(HandlerError::MissingCaps(_)) => "required_failed_missing_caps",
            Outcome::Err(HandlerError::ServerError(_)) => "required_failed_server_error",
            Outcome::Err(_) => "required_failed_other",
            Outcome::Stuck => "required_waits",
            _ => "required_io_error",
        });
        ensure!(wild || !matches!(out, Outcome::Stuck), "hung", "login failed but registration reported nothing");
        if s.done.is_some() && at_welcome == Some(false) {
            ensure!(matches!(out, Outcome::Err(_)), "not_reported", "the server welcomed the client without a login and registration reported {name}");
        }
    }
    Ok(())
}
