//! C07: SASL tries mechanisms in order and sends exactly the right credentials.
use super::c05::*;
use crate::cl::*;
use crate::core::*;
use crate::net::*;
use crate::runner::Prop;
use crate::srv::*;
use crate::{bail, ensure};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use vinezombie::client::auth::{self, SaslQueue};
use vinezombie::client::register::*;
use vinezombie::names::cmd::AUTHENTICATE;

pub const PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 80_000,
    thorough: 3_000_000,
    max_steps: 600_000,
    rule: "each run: an authentication (within registration, or with the standalone handler) with one to four mechanisms (PLAIN, Password, EXTERNAL and multi-round scripted ones with responses of 0 to 1000 bytes around the 400-byte chunk boundary, possibly several accounts for one mechanism) against a server with chunked challenges that accepts, rejects, breaks off, garbles, or does not know mechanisms and lists the ones it knows; the AUTHENTICATE transcript is compared with a model of the exchange; non-trivial = at least one attempt or result compared",
    real: super::REAL_CLIENT,
    stub: super::STUB_NET,
    assumptions: &["the server answers an abort with 906 only, as specified"],
};

fn run() -> Res {
    let mut c = Cfg::any();
    c.caps.get_or_insert_with(Vec::new);
    c.noise = c.noise.min(200);
    let (mut o, _) = gen_opts(&mut c, false);
    o.sasl.clear();
    let dup = chance(1, 4);
    for _ in 0..range(1, 4) {
        let mut m = gen_mech();
        if let AnyMech::Test(t) = &mut m {
            t.sizes = (0..range(1, 3)).map(|_| *pick(&[0usize, 1, 20, 298, 299, 300, 301, 302, 599, 600, 601, 900, 1000])).collect();
            if chance(1, 6) {
                t.broken_at = Some(below(t.sizes.len() as u64) as usize);
            }
        }
        if dup || o.sasl.iter().all(|x| x.name() != m.name()) {
            o.sasl.push(m);
        }
    }
    o.allow_sasl_fail = coin();
    let mut list = Vec::new();
    let good = below(o.sasl.len() as u64 + 1) as usize;
    for (i, m) in o.sasl.iter().enumerate() {
        if chance(1, 6) {
            continue;
        }
        let mut sm = srv_mech(m, i == good);
        sm.reject = *pick(&[904u16, 904, 902, 905]);
        sm.partial = coin();
        sm.how = *pick(&[0u64, 1]);
        match below(10) {
            9 => sm.garbage = Some(pick(&["!!!!", "AAA", "====", "A"]).as_bytes().to_vec()),
            8 => sm.challenges.push(b"more".to_vec()),
            7 => sm.challenges[0] = b"unexpected".to_vec(),
            _ => {}
        }
        if !list.contains(&m.name()) {
            list.push(m.name());
        }
        c.mechs.push(sm);
    }
    c.say_908 = coin();
    c.relog = chance(1, 3);
    c.split_ack = coin();
    let standalone = chance(1, 4);
    let with_value = coin();
    let mut adv = list.clone();
    shuffle(&mut adv);
    if coin() {
        adv.push("SCRAM-SHA-256".into());
    }
    // Without a list, or in the standalone case, everything may be tried.
    let filtered = !standalone && with_value && !adv.is_empty();
    let mechs = o.sasl.clone();
    let mut queue: VecDeque<AnyMech> = mechs.into_iter().filter(|m| !filtered || adv.contains(&m.name())).collect();
    set_late(swarm());
    let kind = Kind::any();
    let f = Faults::any();
    if !standalone {
        c.caps.as_mut().unwrap().push(("sasl".into(), with_value.then(|| adv.join(","))));
        shuffle(c.caps.as_mut().unwrap());
    }
    block_on(kind.tokio, async move {
        if standalone {
            let net = Net::new(f);
            let mut cl = Cl::fresh(&net, kind);
            let mut s = Srv::new(c);
            s.ann.caps.insert("sasl".into(), (String::new(), true));
            s.nick = Some(b"me".to_vec());
            let srv = Rc::new(RefCell::new(s));
            attach(&net, &mut cl, &srv);
            let (id, mut rx) = if o.sasl.len() == 1 && coin() {
                cl.add(AUTHENTICATE, &o.sasl[0]).ok().unwrap()
            } else {
                let q: SaslQueue = o.sasl.iter().collect();
                cl.add(AUTHENTICATE, q).ok().unwrap()
            };
            let res: Option<Result<(), auth::HandlerError>> = loop {
                match cl.run(&net, None).await {
                    Ran::Done(_, fin) => match rx.get() {
                        Got::Val(v) => break Some(v),
                        _ => ensure!(!fin.contains(&id), "no_result", "the handler finished without a result"),
                    },
                    Ran::Timeout | Ran::Cancelled => {}
                    Ran::Forever => break None,
                    Ran::Err(e) => bail!("io", "unexpected I/O error {e}"),
                }
            };
            let _ = cl.flush(&net).await;
            let s = srv.borrow();
            let end = judge(&s, &mut queue)?;
            checked(1);
            if let Some(Err(e)) = &res {
                let (text, was) = (e.to_string(), format!("{e:?}"));
                let (want, kind) = match e {
                    auth::HandlerError::Fail(l) => (l.to_utf8_lossy().into_owned(), std::io::ErrorKind::PermissionDenied),
                    auth::HandlerError::Broken(m) => (m.to_utf8_lossy().into_owned(), std::io::ErrorKind::InvalidData),
                    auth::HandlerError::Unsupported => (String::new(), std::io::ErrorKind::Unsupported),
                };
                ensure!(text.contains(&want), "error_text", "the error {was} is displayed as {text}");
                let Some(Err(e)) = res else { unreachable!() };
                let io: std::io::Error = e.into();
                ensure!(io.kind() == kind && io.to_string().contains(&want), "error_kind", "as an I/O error {was} is {io:?}");
                ensure!(matches!(end, End::Failed), "result", "the handler reported {was} after the exchange ended as {end:?}");
                return Ok(());
            }
            match (&res, end) {
                (None, _) => bail!("hung", "authentication hangs after {:?}", s.sasl.last()),
                (Some(Ok(())), End::Accepted) => Ok(()),
                (r, e) => bail!("result", "the handler reported {r:?} after the exchange ended as {e:?}"),
            }
        } else {
            let reg: Reg = register_as_client();
            let mut g = Game::start(&reg, &o, c, kind, f);
            let out = g.play().await?;
            let s = g.srv.borrow();
            let end = judge(&s, &mut queue)?;
            checked(1);
            ensure!(!matches!(out, Outcome::Stuck), "hung", "registration hangs after {:?}", s.sasl.last());
            if end == End::Accepted {
                ensure!(matches!(out, Outcome::Ok), "accepted_failed", "login succeeded but registration reported {}", out.name());
            }
            Ok(())
        }
    })
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum End {
    Accepted,
    Failed,
}

/// Compares the transcript with the configured mechanisms, in order.
fn judge(s: &Srv, queue: &mut VecDeque<AnyMech>) -> Res<End> {
    if let Some(v) = &s.bad {
        return Err(v.clone());
    }
    let mut cur: Option<(AnyMech, usize)> = None;
    let mut want: Option<Option<Vec<u8>>> = None;
    let mut started = 0;
    let mut end = None;
    // The server never starts an exchange itself, so there is one attempt due at first.
    let mut due = !queue.is_empty();
    let first = due;
    for e in &s.sasl {
        checked(1);
        match e {
            SaslEv::Start(n) => {
                ensure!(due && end.is_none(), "extra_attempt", "AUTHENTICATE {n} was sent when no attempt was due");
                let Some(m) = queue.pop_front() else { bail!("extra_attempt", "AUTHENTICATE {n} was sent although no mechanism is left") };
                ensure!(m.name() == *n, "order", "AUTHENTICATE {n} was sent, but the next mechanism is {}", m.name());
                started += 1;
                probe("attempt");
                cur = Some((m, 0));
                due = false;
                want = None;
            }
            SaslEv::Challenge(ch) => {
                if let Some((m, round)) = &mut cur {
                    want = Some(m.answer(*round, ch));
                    *round += 1;
                }
            }
            SaslEv::Response(r) => {
                let Some((m, _)) = &cur else { bail!("stray_response", "credentials {} were sent outside any attempt", show(r)) };
                match want.take() {
                    Some(Some(w)) => {
                        ensure!(*r == w, "response", "the response for {} is {} ({} bytes), expected {} ({} bytes)", m.name(), show(r), r.len(), show(&w), w.len());
                        probe("response_checked");
                        if r.len() % 300 == 0 {
                            probe("exact_chunk");
                        }
                    }
                    Some(None) => bail!("should_abort", "{} answered a challenge it cannot accept", m.name()),
                    None => bail!("unasked", "credentials for {} were sent without being asked for", m.name()),
                }
            }
            SaslEv::Abort => {
                let Some((m, _)) = &cur else { bail!("stray_abort", "authentication was aborted outside any attempt") };
                let garbage = s.c.mechs.iter().any(|x| x.name == m.name() && x.garbage.is_some());
                ensure!(matches!(want, Some(None)) || garbage, "needless_abort", "{} was aborted without reason", m.name());
                probe("aborted");
                if matches!(want, Some(None)) {
                    // A mechanism whose implementation is broken is not tried again.
                    let n = m.name();
                    queue.retain(|x| x.name() != n);
                    due = !queue.is_empty();
                }
                cur = None;
                want = None;
            }
            SaslEv::Mechs(list) => {
                queue.retain(|m| list.contains(&m.name()));
                probe("mech_list");
            }
            SaslEv::End(code) => match code {
                900 | 903 | 907 => end = Some(End::Accepted),
                902 | 904 => {
                    ensure!(end.is_none(), "harness", "rejection after acceptance");
                    cur = None;
                    due = !queue.is_empty();
                }
                905 => {
                    cur = None;
                    due = false;
                }
                _ => {}
            },
        }
    }
    ensure!(!first || started > 0, "no_attempt", "no mechanism was tried although {} is configured and offered", queue.front().map(|m| m.name()).unwrap_or_default());
    ensure!(!due || end.is_some(), "gave_up", "authentication ended without trying {}", queue.front().map(|m| m.name()).unwrap_or_default());
    Ok(end.unwrap_or(End::Failed))
}
