//! C20: secrets read from faulty sources are complete and exact, or an error.
use crate::core::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev};
use std::io::{self, ErrorKind, Read};
use vinezombie::client::auth::{sasl, Clear, LoadSecret, Sasl, Secret};
use vinezombie::string::{Bytes, NoNul, SecretBuf};

pub const PROP: Prop = Prop {
    id: "C20",
    run,
    quick: 300_000,
    thorough: 8_000_000,
    max_steps: 400_000,
    rule: "each run: a random history of appending to a secret buffer from memory and from a simulated source (file, pipe or process) that returns short reads, is interrupted, reports errors or ends early, with requests shorter and longer than what the source holds, mixed with reallocation, clearing, cloning and conversion, and loading whole secrets through LoadSecret loaders into a SASL PLAIN response; a model byte vector predicts the content after every step, the source records how much was taken from it, and the guarding allocator reports writes outside the buffer; non-trivial = at least one content comparison",
    real: &["vinezombie SecretBuf, LoadSecret, Secret, Clear, Plain and Password SASL logic, Bytes"],
    stub: &["the source of the secret (in-memory reader with seeded faults)", "heap (guarding allocator)"],
    assumptions: &["the reader honours the contract of std::io::Read"],
};

/// A source of secret bytes with seeded behaviour.
struct Src {
    data: Vec<u8>,
    pos: usize,
    /// Fail with this once the given offset is reached.
    fail: Option<(usize, ErrorKind)>,
    short: u64,
    eintr: u64,
    asked: usize,
    scribble: bool,
    eofs: u32,
    /// The reader was handed memory nobody had written.
    uninit: bool,
}
fn not_fresh(b: u8) -> u8 {
    if b == crate::alloc::FRESH { 1 } else { b }
}
impl Src {
    fn any(max: u64) -> Src {
        let n = below(max + 1);
        let mut x = range(1, 1 << 30) as u64;
        let data: Vec<u8> = (0..n).map(|_| not_fresh(1 + (splitmix(&mut x) % 255) as u8)).collect();
        let fail = chance(1, 4).then(|| {
            (below(n + 1) as usize, *pick(&[ErrorKind::WouldBlock, ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof]))
        });
        Src { data, pos: 0, fail, short: swarm(), eintr: swarm(), asked: 0, scribble: chance(1, 8), eofs: 0, uninit: false }
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        step();
        self.asked = self.asked.max(self.pos + buf.len());
        // Fresh heap memory holds this byte, and nothing generated here does.
        self.uninit |= buf.contains(&crate::alloc::FRESH);
        if permille(self.eintr.min(900)) {
            fault("eintr_read");
            return Err(ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        if let Some((at, k)) = self.fail {
            if self.pos >= at {
                fault("read_error");
                return Err(k.into());
            }
            end = end.min(at);
        }
        let mut n = buf.len().min(end - self.pos);
        if n > 1 && permille(self.short) {
            fault("short_read");
            n = range(1, n as u64) as usize;
        }
        if n == 0 && !buf.is_empty() {
            fault("end_of_source");
            self.eofs += 1;
        }
        if self.scribble {
            // Read may use the rest of the buffer as scratch space.
            fault("scratch_write");
            buf[n..].fill(b'?');
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn same(buf: &SecretBuf, want: &[u8], what: &str) -> Res {
    ensure!(buf.as_ref() == want, "content", "after {what} the buffer holds {} bytes {} but should hold {} bytes {}", buf.as_ref().len(), show(buf.as_ref()), want.len(), show(want));
    ensure!(buf.is_empty() == want.is_empty(), "empty", "after {what} is_empty is {}", buf.is_empty());
    let b = buf.as_bytes();
    ensure!(b.as_bytes() == want, "content", "as_bytes after {what} shows {}", show(b.as_bytes()));
    checked(1);
    Ok(())
}

fn some_bytes(max: u64) -> Vec<u8> {
    let n = below(max + 1);
    let k = below(200) as u8;
    (0..n).map(|i| not_fresh((i as u8).wrapping_mul(31).wrapping_add(k))).collect()
}

/// A loader in the style of "run a command and use what it prints".
struct Proc {
    hint: usize,
    chunk: usize,
    src: Src,
    outcome: std::rc::Rc<std::cell::RefCell<Option<Result<Vec<u8>, ErrorKind>>>>,
}
impl LoadSecret for Proc {
    fn size_hint(&self) -> usize {
        self.hint
    }
    fn load_secret(mut self, data: &mut SecretBuf) -> io::Result<()> {
        loop {
            match data.read_from(self.chunk, &mut self.src) {
                Ok(n) if n < self.chunk => break,
                Ok(_) => {}
                Err(e) => {
                    *self.outcome.borrow_mut() = Some(Err(e.kind()));
                    return Err(e);
                }
            }
        }
        *self.outcome.borrow_mut() = Some(Ok(self.src.data.clone()));
        Ok(())
    }
}

fn run() -> Res {
    if chance(1, 3) {
        loading()
    } else {
        buffer()
    }
}

fn buffer() -> Res {
    let small = coin();
    let max = if small { 40 } else { 700 };
    let mut want: Vec<u8> = Vec::new();
    let mut buf = match below(5) {
        0 => SecretBuf::default(),
        1 => SecretBuf::with_capacity(below(max) as usize),
        2 => {
            want = some_bytes(max);
            let mut v = Vec::with_capacity(want.len() + below(20) as usize);
            v.extend(&want);
            SecretBuf::from(v)
        }
        3 => {
            want = some_bytes(max);
            want.iter().copied().collect()
        }
        _ => {
            want = some_bytes(max).into_iter().filter(|b| b % 3 != 0).collect();
            let w = want.clone();
            let mut i = 0;
            // No size hint.
            std::iter::from_fn(move || {
                i += 1;
                w.get(i - 1).copied()
            })
            .collect()
        }
    };
    same(&buf, &want, "construction")?;
    let mut src = Src::any(max * 2);
    for _ in 0..range(1, 14) {
        step();
        match below(11) {
            10 => {
                let s = some_bytes(max / 2);
                ensure!(Clear(SecretBuf::from(s.clone())).load_secret(&mut buf).is_ok(), "clear_error", "loading a secret held in memory failed");
                want.extend(&s);
                ev!("load_secret {}", s.len());
            }
            0 => {
                let b = not_fresh(below(256) as u8);
                let extra = below(40) as usize;
                buf.push(b, extra);
                want.push(b);
                ev!("push");
            }
            1 => {
                let s: Vec<u8> = some_bytes(max / 2);
                buf.push_cstr(&s);
                want.extend(&s);
                want.push(0);
                ev!("push_cstr {}", s.len());
            }
            2 => {
                let s = some_bytes(max / 2);
                buf.push_slice(&s);
                want.extend(&s);
                ev!("push_slice {}", s.len());
            }
            3 => {
                let n = below(max) as usize;
                buf.reserve(n);
                ev!("reserve {}", n);
            }
            4 => {
                if chance(1, 3) {
                    buf.clear();
                    want.clear();
                    ev!("clear");
                }
            }
            5 => {
                let c = buf.clone();
                same(&c, &want, "clone")?;
                if coin() {
                    buf = c;
                }
                ev!("clone");
            }
            6 if chance(1, 4) => {
                let b: Bytes<'static> = std::mem::take(&mut buf).into_bytes();
                ensure!(b.as_bytes() == want, "into_bytes", "into_bytes gives {} expected {}", show(b.as_bytes()), show(&want));
                ensure!(b.is_secret(), "not_secret", "into_bytes returned a string not marked secret");
                let v = b.into_vec();
                ensure!(v == want, "into_vec", "into_vec gives {} expected {}", show(&v), show(&want));
                buf = SecretBuf::from(v);
                ev!("round trip");
            }
            _ => {
                if chance(1, 3) {
                    src = Src::any(max * 2);
                }
                let avail = src.data.len() - src.pos;
                let expect = match below(4) {
                    0 => avail,
                    1 => avail + 1,
                    2 => below(avail as u64 + 1) as usize,
                    _ => below(max) as usize,
                };
                let from = src.pos;
                let limit = from + expect;
                src.asked = 0;
                src.eofs = 0;
                let dynamic = coin();
                let r = if dynamic {
                    let d: &mut dyn Read = &mut src;
                    buf.read_from(expect, d)
                } else {
                    buf.read_from(expect, &mut src)
                };
                ev!("read_from {} of {} -> {:?}", expect, avail, r.as_ref().map_err(|e| e.kind()));
                ensure!(!src.uninit, "uninit", "the source was handed memory that was never initialised");
                ensure!(src.asked <= limit, "overread", "asked the source for bytes up to {} but only {expect} from {from} were requested", src.asked);
                match r {
                    Ok(n) => {
                        let reach = src.fail.map_or(src.data.len(), |f| f.0).max(from);
                        ensure!(n == src.pos - from, "count", "read_from returned {n} but {} bytes were taken from the source", src.pos - from);
                        if src.fail.is_some() {
                            ensure!(n == expect && limit <= reach, "error_lost", "the source failed after {} of {expect} bytes but read_from reported {n}", reach - from);
                        } else {
                            ensure!(n == expect.min(avail), "truncated", "read_from({expect}) returned {n} with {avail} bytes available");
                        }
                        want.extend(&src.data[from..from + n]);
                    }
                    Err(e) => {
                        let Some((at, k)) = src.fail else { bail!("spurious_error", "read_from failed with {:?} although the source did not", e.kind()) };
                        ensure!(e.kind() == k && src.pos >= at.min(src.data.len()), "wrong_error", "read_from failed with {:?}, the source with {k:?} at {at}", e.kind());
                        // A failed read must not leave part of a secret behind.
                    }
                }
            }
        }
        same(&buf, &want, "the operation")?;
    }
    Ok(())
}

fn loading() -> Res {
    let src = Src::any(300);
    let mut src = src;
    if chance(1, 4) && !src.data.is_empty() {
        let i = below(src.data.len() as u64) as usize;
        src.data[i] = 0;
    }
    let data = src.data.clone();
    let outcome = std::rc::Rc::new(std::cell::RefCell::new(None));
    let bad = data.contains(&0);
    let hint = *pick(&[32usize, 0, 1, 64, 400]);
    let chunk = *pick(&[64usize, 1, 7, 300, 1000]);
    let will_fail = src.fail.map(|f| f.1);
    let which = below(4);
    let r: Result<NoNul<'static>, io::Error> = match which {
        0 => Secret::<NoNul<'static>, Clear>::load(Clear(SecretBuf::from(data.clone()))).map(Secret::into_inner),
        1 => {
            let r = Secret::<NoNul<'static>, ()>::load(());
            ensure!(r.is_err(), "no_loader", "loading a secret without a loader succeeded");
            checked(1);
            return Ok(());
        }
        _ => Secret::<NoNul<'static>, Proc>::load(Proc { hint, chunk, src, outcome: outcome.clone() }).map(Secret::into_inner),
    };
    ev!("load -> {:?}", r.as_ref().map(|b| b.len()).map_err(|e| e.kind()));
    let failed = which != 0 && will_fail.is_some();
    let v = match r {
        Err(e) if failed => {
            ensure!(Some(e.kind()) == will_fail, "wrong_error", "load failed with {:?}, the source with {will_fail:?}", e.kind());
            checked(1);
            return Ok(());
        }
        Err(e) => {
            ensure!(bad, "spurious_error", "load failed with {e:?} although the source did not");
            checked(1);
            return Ok(());
        }
        Ok(v) => v,
    };
    ensure!(!failed, "error_lost", "the source failed but load succeeded");
    ensure!(!bad, "invalid_secret", "a secret with a NUL was accepted");
    ensure!(v.as_bytes() == data, "content", "loaded {} bytes {} from a source of {} bytes {}", v.len(), show(v.as_bytes()), data.len(), show(&data));
    ensure!(v.is_secret() || data.is_empty(), "not_secret", "a loaded secret is not marked secret");
    // Use it the way authentication does.
    let user = NoNul::from_bytes((0..below(12)).map(|_| b'a' + below(26) as u8).collect::<Vec<u8>>()).unwrap();
    let zid = NoNul::from_bytes((0..below(6)).map(|_| b'a' + below(26) as u8).collect::<Vec<u8>>()).unwrap();
    let mut want = zid.as_bytes().to_vec();
    want.push(0);
    want.extend(user.as_bytes());
    want.push(0);
    want.extend(&data);
    let logic = if coin() {
        let mut p = sasl::Password::<Clear>::new(user, Secret::new(v));
        p.authzid = zid;
        p.logic()
    } else {
        let mut p = sasl::Plain::<Clear>::new(user, Secret::new(v));
        p.authzid = zid;
        p.logic()
    };
    ensure!(logic.len() == 1, "logic", "{} mechanisms instead of one", logic.len());
    for mut l in logic {
        let mut out = SecretBuf::with_capacity(l.size_hint());
        ensure!(l.reply(b"", &mut out).is_ok(), "reply", "PLAIN refused an empty challenge");
        same(&out, &want, "PLAIN")?;
    }
    Ok(())
}
