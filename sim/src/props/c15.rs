#![allow(deprecated)]
//! C15: messages survive the wire: what one side writes, the other reads back equal.
use crate::core::*;
use crate::irc::*;
use crate::net::*;
use crate::runner::Prop;
use crate::{bail, ensure, ev};
use std::collections::BTreeMap;
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use tokio_util::bytes::BytesMut;
use tokio_util::codec::{Decoder, Encoder, FramedRead, FramedWrite};
use vinezombie::ircmsg::{Args, ClientCodec, ClientMsg, ServerCodec, ServerMsg};
use vinezombie::string::{Arg, Key, Line, NoNul};

pub const PROP: Prop = Prop {
    id: "C15",
    run,
    quick: 120_000,
    thorough: 3_000_000,
    max_steps: 2_000_000,
    rule: "each run either (a) builds messages through the safe API, writes them with one of the library's writers (blocking, async, framed, buffered) through a transport that splits, stalls and interrupts writes, carries them over a link that delays and re-segments, and reads them with one of the readers (blocking or async, owning or borrowing, framed, or the bare decoder) with read timeouts retried, comparing each message with the model; or (b) feeds one arbitrary byte stream (valid, mutated, blank, over-long and truncated lines) to every reader under different segmentations and compares the resulting sequences; non-trivial = at least one message or sequence compared",
    real: &["vinezombie ClientCodec, ServerCodec, stream readers and writers, message parser and serialiser", "std and tokio BufReader, tokio-util FramedRead and FramedWrite, tokio current-thread runtime (paused clock)"],
    stub: super::STUB_NET,
    assumptions: &["hosts and tag keys are not empty, and tag keys do not begin with a colon (such values cannot be written as IRC)", "an empty tag value and a missing one are the same", "after a parse error a stream reader is not used again, as documented"],
};

/// What a reader made of the stream.
#[derive(Clone, PartialEq, Debug)]
enum Out<T> {
    Msg(T),
    Bad(ErrorKind),
    End,
}

const READERS: [&str; 6] = ["blocking owning", "blocking borrowing", "async owning", "async borrowing", "framed", "decoder"];

fn is_tokio(reader: u64) -> bool {
    (2..=4).contains(&reader)
}

macro_rules! dir {
    ($m:ident, $codec:ident, $wcodec:ident, $msg:ident) => {
        mod $m {
            use super::*;
            pub type Msg = $msg<'static>;
            pub const MAX: usize = $msg::MAX_LEN;
            pub fn sync(reader: u64, net: &Net, cap: usize) -> Vec<Out<Msg>> {
                let mut conn = std::io::BufReader::with_capacity(cap, SimConn(net.clone()));
                let mut buf = Vec::new();
                let mut out = Vec::new();
                if reader == 5 {
                    let mut bm = BytesMut::with_capacity(if coin() { 0 } else { 9000 });
                    let mut tmp = vec![0u8; cap.min(5000)];
                    loop {
                        step();
                        match $codec.decode(&mut bm) {
                            Ok(Some(m)) => out.push(Out::Msg(m)),
                            Err(e) => {
                                out.push(Out::Bad(e.kind()));
                                return out;
                            }
                            Ok(None) => match std::io::Read::read(&mut SimConn(net.clone()), &mut tmp) {
                                Ok(0) => {
                                    match $codec.decode_eof(&mut bm) {
                                        Ok(Some(m)) => out.push(Out::Msg(m)),
                                        Ok(None) => {}
                                        Err(e) if matches!(e.kind(), ErrorKind::UnexpectedEof | ErrorKind::Other) => {}
                                        Err(e) => out.push(Out::Bad(e.kind())),
                                    }
                                    out.push(Out::End);
                                    return out;
                                }
                                Ok(n) => bm.extend_from_slice(&tmp[..n]),
                                Err(_) => {}
                            },
                        }
                    }
                }
                let via_msg = coin();
                loop {
                    step();
                    let r = match (reader, via_msg) {
                        (0, false) => $codec::read_owning_from(&mut conn, &mut buf),
                        (0, true) => $msg::read_owning_from(&mut conn, &mut buf),
                        (_, false) => $codec::read_borrowing_from(&mut conn, &mut buf).map(|m| m.owning()),
                        (_, true) => $msg::read_borrowing_from(&mut conn, &mut buf).map(|m| m.owning()),
                    };
                    match r {
                        Ok(m) => {
                            ev!("read message {}", m);
                            buf.clear();
                            out.push(Out::Msg(m));
                        }
                        Err(e) if matches!(e.kind(), ErrorKind::TimedOut | ErrorKind::WouldBlock) => probe("read_timeout_retried"),
                        Err(e) if e.kind() == ErrorKind::UnexpectedEof => {
                            out.push(Out::End);
                            return out;
                        }
                        Err(e) => {
                            out.push(Out::Bad(e.kind()));
                            return out;
                        }
                    }
                }
            }
            pub async fn asynch(reader: u64, net: &Net, cap: usize, cancels: u64) -> Vec<Out<Msg>> {
                let mut out = Vec::new();
                if reader == 4 {
                    let mut fr = if coin() {
                        FramedRead::new(TokConn::new(net.clone()), $codec)
                    } else {
                        FramedRead::with_capacity(TokConn::new(net.clone()), $codec, cap)
                    };
                    loop {
                        step();
                        let n = std::future::poll_fn(|cx| {
                            tsync();
                            futures_core::Stream::poll_next(Pin::new(&mut fr), cx)
                        })
                        .await;
                        match n {
                            Some(Ok(m)) => {
                                ev!("framed message {}", m);
                                out.push(Out::Msg(m))
                            }
                            None => {
                                out.push(Out::End);
                                return out;
                            }
                            Some(Err(e)) => {
                                // A stream cut off inside a line.
                                let cut = matches!(e.kind(), ErrorKind::UnexpectedEof | ErrorKind::Other);
                                out.push(if cut { Out::End } else { Out::Bad(e.kind()) });
                                return out;
                            }
                        }
                    }
                }
                let mut conn = tokio::io::BufReader::with_capacity(cap, TokConn::new(net.clone()));
                let mut buf = Vec::new();
                loop {
                    step();
                    let lim = permille(cancels).then(|| Duration::from_millis(range(0, 3000)));
                    let r = match (reader, coin()) {
                        (2, false) => limit(lim, $codec::read_owning_from_tokio(&mut conn, &mut buf)).await,
                        (2, true) => limit(lim, $msg::read_owning_from_tokio(&mut conn, &mut buf)).await,
                        (_, false) => limit(lim, $codec::read_borrowing_from_tokio(&mut conn, &mut buf)).await.map(|r| r.map(|m| m.owning())),
                        (_, true) => limit(lim, $msg::read_borrowing_from_tokio(&mut conn, &mut buf)).await.map(|r| r.map(|m| m.owning())),
                    };
                    match r {
                        None => fault("cancelled_read"),
                        Some(Ok(m)) => {
                            ev!("read message {}", m);
                            buf.clear();
                            out.push(Out::Msg(m));
                        }
                        Some(Err(e)) if e.kind() == ErrorKind::UnexpectedEof => {
                            out.push(Out::End);
                            return out;
                        }
                        Some(Err(e)) => {
                            out.push(Out::Bad(e.kind()));
                            return out;
                        }
                    }
                }
            }
            /// The bytes of a message and how it is displayed.
            pub fn texts(m: &Msg) -> (Vec<u8>, String) {
                let mut v = Vec::new();
                let _ = $wcodec::write_to(m, &mut v);
                (v, m.to_string())
            }
            /// Writes the messages; returns an error description if a write failed.
            pub fn write_sync(net: &Net, msgs: &[Msg], how: u64) -> std::io::Result<()> {
                let mut conn = SimConn(net.clone());
                let mut buf = Vec::new();
                for m in msgs {
                    match how {
                        0 if coin() => m.send_to(&mut conn, &mut buf)?,
                        0 => $wcodec::send_to(m, &mut conn, &mut buf)?,
                        1 => {
                            let mut v = Vec::new();
                            $wcodec::write_to(m, &mut v)?;
                            v.extend(b"\r\n");
                            std::io::Write::write_all(&mut conn, &v)?;
                        }
                        2 => {
                            // Unbuffered, the documented slow path.
                            $wcodec::write_to(m, &mut conn)?;
                            std::io::Write::write_all(&mut conn, b"\r\n")?;
                        }
                        _ => {
                            let mut b = BytesMut::new();
                            $wcodec.encode(m.clone(), &mut b)?;
                            std::io::Write::write_all(&mut conn, &b)?;
                        }
                    }
                    std::io::Write::flush(&mut conn)?;
                }
                Ok(())
            }
            pub async fn write_async(net: &Net, msgs: &[Msg], how: u64) -> std::io::Result<()> {
                if how == 0 {
                    let mut conn = TokConn::new(net.clone());
                    let mut buf = Vec::new();
                    for m in msgs {
                        if coin() {
                            m.send_to_tokio(&mut conn, &mut buf).await?;
                        } else {
                            $wcodec::send_to_tokio(m, &mut conn, &mut buf).await?;
                        }
                        tokio::io::AsyncWriteExt::flush(&mut conn).await?;
                    }
                } else {
                    let mut fw = FramedWrite::new(TokConn::new(net.clone()), $wcodec);
                    for m in msgs {
                        std::future::poll_fn(|cx| futures_sink::Sink::<Msg>::poll_ready(Pin::new(&mut fw), cx)).await?;
                        futures_sink::Sink::<Msg>::start_send(Pin::new(&mut fw), m.clone())?;
                        if how == 1 {
                            std::future::poll_fn(|cx| futures_sink::Sink::<Msg>::poll_flush(Pin::new(&mut fw), cx)).await?;
                        }
                    }
                    std::future::poll_fn(|cx| futures_sink::Sink::<Msg>::poll_flush(Pin::new(&mut fw), cx)).await?;
                }
                Ok(())
            }
        }
    };
}
dir!(to_client, ClientCodec, ServerCodec, ServerMsg);
dir!(to_server, ServerCodec, ClientCodec, ClientMsg);

async fn limit<T>(d: Option<Duration>, f: impl Future<Output = T>) -> Option<T> {
    match d {
        None => Some(f.await),
        Some(d) => tokio::time::timeout(d, f).await.ok(),
    }
}

fn run() -> Res {
    if chance(3, 5) {
        round_trip()
    } else {
        agreement()
    }
}

/// Builds the arguments in one of the ways the API offers.
fn build_args(m: &M) -> Args<'static> {
    let arg = |a: &Vec<u8>| Arg::from_bytes(a.clone()).expect("arg");
    let line = |a: &Vec<u8>| Line::from_bytes(a.clone()).expect("line");
    let Some((last, words)) = m.args.split_last() else { return Args::empty() };
    match below(7) {
        6 => {
            let a: Vec<Arg<'static>> = m.args.iter().map_while(|a| Arg::from_bytes(a.clone()).ok()).collect();
            if a.len() == m.args.len() {
                a.into()
            } else {
                Args::new(words.iter().map(arg).collect::<Vec<_>>(), Some(line(last)))
            }
        }
        0 => Args::new(words.iter().map(arg).collect::<Vec<_>>(), Some(line(last))),
        1 => {
            let mut a = Args::empty();
            a.set(words.iter().map(arg), Some(line(last)));
            a
        }
        2 => {
            // The last one first, the rest before it.
            let mut a = Args::empty();
            a.edit().add(line(last));
            for w in words {
                a.edit().add_before_last(arg(w));
            }
            a
        }
        3 => {
            // Replace junk.
            let mut a = Args::new(vec![Arg::from_str("junk")], Some(Line::from_str("more junk")));
            a.edit().clear();
            {
                let mut e = a.edit();
                for w in words {
                    e.add_word(arg(w));
                }
                e.add(line(last));
            }
            a
        }
        4 => {
            // From text.
            let mut t = Vec::new();
            for w in words {
                t.extend(w);
                t.push(b' ');
            }
            t.push(b':');
            t.extend(last);
            Args::parse(line(&t)).owning()
        }
        _ => {
            let mut a = Args::empty();
            let mut e = a.edit();
            for w in words {
                e.add(line(w));
            }
            e.add(line(last));
            a
        }
    }
}
fn build_tags(m: &M, tags: &mut vinezombie::ircmsg::Tags<'static>) {
    let key = |k: &Vec<u8>| Key::from_bytes(k.clone()).expect("key");
    if chance(1, 4) {
        *tags = m.tags.iter().map(|(k, v)| (key(k), NoNul::from_bytes(v.clone()).unwrap())).collect();
        return;
    }
    let mut e = tags.edit();
    match below(3) {
        0 => {
            for (k, v) in &m.tags {
                e.insert_pair(key(k), NoNul::from_bytes(v.clone()).unwrap());
            }
        }
        1 => {
            // Insert, overwrite, remove.
            for (k, _) in m.tags.iter().rev() {
                e.insert_key(key(k));
            }
            e.insert_pair(Key::from_str("gone"), NoNul::from_str("x"));
            for (k, v) in &m.tags {
                if let Some(x) = e.get_mut(key(k)) {
                    *x = NoNul::from_bytes(v.clone()).unwrap();
                }
            }
            e.remove(Key::from_str("gone"));
        }
        _ => {
            drop(e);
            for (k, v) in &m.tags {
                tags.edit().insert_pair(key(k), NoNul::from_bytes(v.clone()).unwrap());
            }
        }
    }
}
fn words_of(m: &M) -> Vec<Arg<'static>> {
    m.args.iter().take(m.args.len().saturating_sub(1)).map(|a| Arg::from_bytes(a.clone()).expect("arg")).collect()
}
fn last_of(m: &M) -> Option<Line<'static>> {
    m.args.last().map(|a| Line::from_bytes(a.clone()).expect("line"))
}
/// The typed view of a message is the message.
macro_rules! targeted {
    ($m:expr, $s:expr, $src:expr) => {{
        use vinezombie::names::cmd;
        let (m, s) = ($m, $s);
        let (n, t) = match &m.kind[..] {
            b"PRIVMSG" => (2, s.parse_as(cmd::PRIVMSG)),
            b"NOTICE" => (2, s.parse_as(cmd::NOTICE)),
            b"TOPIC" => (2, s.parse_as(cmd::TOPIC)),
            b"PART" => (2, s.parse_as(cmd::PART)),
            _ => (1, s.parse_as(cmd::QUIT)),
        };
        match t {
            Err(e) => ensure!(m.args.len() != n, "typed", "{} is not understood: {e}", show(&m.canon())),
            Ok(t) => {
                ensure!(m.args.len() == n, "typed", "{} is understood as {t:?}", show(&m.canon()));
                let target: &[u8] = if n == 2 { &m.args[0] } else { b"*" };
                let same = |t: &vinezombie::ircmsg::TargetedMsg<'_, u32>, k: u32| t.target.as_bytes() == target && t.tags == s.tags && t.source.as_ref() == $src && t.value == k;
                ensure!(t.value.as_bytes() == &m.args[n - 1][..] && same(&t.clone().map(|_| 1), 1), "typed", "{} is understood as {t:?}", show(&m.canon()));
                let all: Vec<_> = t.clone().map_iter(|_| [3, 4]).collect();
                ensure!(all.len() == 2 && same(&all[0], 3) && same(&all[1], 4), "typed", "{} has become {all:?}", show(&m.canon()));
                let ok = t.clone().map_result(|_| Ok::<u32, u32>(5));
                ensure!(ok.as_ref().is_ok_and(|t| same(t, 5)) && t.map_result(|_| Err::<u32, u32>(6)) == Err(6), "typed", "{} has become {ok:?}", show(&m.canon()));
            }
        }
    }};
}
/// The parts of a source are those of the whole.
fn source_parts(m: &M, s: &ServerMsg<'_>) -> Res {
    targeted!(m, s, s.source.as_ref());
    let Some(src) = &s.source else { return Ok(()) };
    let bytes = m.source_bytes().unwrap();
    let text = src.to_string();
    let user = src.user().map(|u| u.as_bytes().to_vec());
    let host = src.host().map(|h| h.as_bytes().to_vec());
    ensure!(user == m.user.clone().filter(|_| m.host.is_some()) && host == m.host, "source_parts", "the source {} has user {user:?} and host {host:?}", show(&bytes));
    let mut w = Vec::new();
    let _ = src.write_to(&mut w);
    ensure!(w == bytes && src.len() == bytes.len() && src.len_nonzero().get() == bytes.len(), "source_parts", "the source {} is written as {} with length {}", show(&bytes), show(&w), src.len());
    ensure!(std::str::from_utf8(&bytes).is_err() || text.as_bytes() == bytes, "source_parts", "the source {} is displayed as {text}", show(&bytes));
    if let Some(uh) = &src.userhost {
        let rest = &bytes[src.nick.len() + 1..];
        let mut w = Vec::new();
        let _ = uh.write_to(&mut w);
        ensure!(w == rest && uh.len() == rest.len(), "source_parts", "{} is written as {} with length {}", show(rest), show(&w), uh.len());
        ensure!(std::str::from_utf8(rest).is_err() || uh.to_string().as_bytes() == rest, "source_parts", "{} is displayed as {uh}", show(rest));
        ensure!(uh.has_ident() == !(m.user.is_some() && rest[0] == b'~'), "source_parts", "{} has an identified user: {}", show(rest), uh.has_ident());
    }
    Ok(())
}
fn build_server(m: &M) -> ServerMsg<'static> {
    use vinezombie::ircmsg::{Numeric, ServerMsgKindRaw, SharedSource, Source};
    let mut s = m.to_server();
    s.tags = Default::default();
    if let Some(old) = s.source.take() {
        let (n, u, h) = (old.nick.clone(), old.user().cloned(), old.host().cloned());
        s.source = Some(match (u, h) {
            (Some(u), Some(h)) => SharedSource::new(Source::new_user(n, u, h)),
            (None, None) => SharedSource::new(Source::new_server(n)),
            _ => old,
        });
    }
    if let (Some(src), true) = (&s.source, chance(1, 3)) {
        // A server's way of building replies.
        let first = m.args.first().and_then(|a| vinezombie::string::Nick::from_bytes(a.clone()).ok());
        s = match (Numeric::from_bytes(&m.kind), first) {
            (Some(n), Some(target)) if m.args.len() == 1 => ServerMsg::new_num(n, src.clone(), target),
            _ => {
                use vinezombie::names::cmd;
                let mut t = ServerMsg::new(cmd::PRIVMSG, src.clone());
                match &m.kind[..] {
                    b"PRIVMSG" => {}
                    b"NOTICE" => t = ServerMsg::new(cmd::NOTICE, src.clone()),
                    _ => t.kind = s.kind.clone(),
                }
                t.with_args(words_of(m), last_of(m))
            }
        };
    } else {
        s.args = build_args(m);
    }
    build_tags(m, &mut s.tags);
    let is = match &s.kind {
        ServerMsgKindRaw::Numeric(n) => n.as_str().to_owned(),
        ServerMsgKindRaw::Cmd(c) => c.to_utf8_lossy().into_owned(),
    };
    if chance(1, 4) {
        s.kind = match (&s.kind, coin()) {
            (ServerMsgKindRaw::Cmd(_), true) => ServerMsgKindRaw::Cmd(vinezombie::string::Cmd::from_word(vinezombie::string::Word::from_bytes(is.to_ascii_lowercase().into_bytes()).unwrap()).expect("command")),
            (ServerMsgKindRaw::Numeric(_), true) => ServerMsgKindRaw::Numeric(Numeric::from_int(is.parse().unwrap()).expect("numeric")),
            (k, _) => k.clone(),
        };
    }
    assert!(s.kind == *is.as_str() && s.kind == *is.as_bytes() && s.kind.len() == is.len(), "a kind is not its text {is}");
    if let (Some(src), 0) = (&s.source, below(3)) {
        s.source = Some(vinezombie::ircmsg::SharedSource::new(src.clone().owning_merged()));
    }
    s
}
fn build_client(m: &M) -> ClientMsg<'static> {
    let mut c = m.to_client();
    c.tags = Default::default();
    if chance(1, 4) {
        c = ClientMsg::new_cmd(c.cmd.clone()).with_args(words_of(m), last_of(m));
    } else {
        c.args = build_args(m);
    }
    build_tags(m, &mut c.tags);
    c
}

/// A history of edits, applied to a message and to the model; compared at each step.
fn edit_history(m: &mut M, tags: &mut vinezombie::ircmsg::Tags<'static>, args: &mut Args<'static>, odd: bool) -> Res {
    let key = |k: &[u8]| Key::from_bytes(k.to_vec()).expect("key");
    let val = |v: &[u8]| NoNul::from_bytes(v.to_vec()).expect("value");
    let arg = |a: &[u8]| Arg::from_bytes(a.to_vec()).expect("arg");
    let line = |a: &[u8]| Line::from_bytes(a.to_vec()).expect("line");
    let plain = |v: Option<NoNul<'_>>| v.map(|v| v.as_bytes().to_vec());
    probe("edit_history");
    let mut model: std::collections::BTreeMap<Vec<u8>, Vec<u8>> = m.tags.iter().cloned().collect();
    // Few keys, so that they meet.
    let pool: Vec<Vec<u8>> = m.tags.iter().map(|t| t.0.clone()).chain((0..range(1, 6)).map(|_| gen_key(odd))).collect();
    let wipe = chance(1, 4);
    for _ in 0..below(4) {
        if chance(1, 8) {
            tags.edit().clear();
            model.clear();
        }
        let mut e = tags.edit();
        for _ in 0..below(12) {
            let k = pick(&pool).clone();
            let v = gen_value(odd);
            match below(9) {
                0..=2 => {
                    let old = plain(e.insert_pair(key(&k), val(&v)));
                    let want = model.insert(k.clone(), v);
                    ensure!(old == want, "edit", "inserting tag {} returned {old:?}, {want:?} was there", show(&k));
                }
                3 => {
                    let old = plain(e.insert_key(key(&k)));
                    let want = model.insert(k.clone(), Vec::new());
                    ensure!(old == want, "edit", "inserting tag {} returned {old:?}, {want:?} was there", show(&k));
                }
                4 | 5 => {
                    let old = plain(e.remove(key(&k)));
                    let want = model.remove(&k);
                    ensure!(old == want, "edit", "removing tag {} returned {old:?}, {want:?} was there", show(&k));
                }
                6 => {
                    let there = e.get_mut(key(&k)).map(|x| std::mem::replace(x, val(&v)));
                    let old = plain(there);
                    let want = model.get_mut(&k).map(|x| std::mem::replace(x, v));
                    ensure!(old == want, "edit", "tag {} was {old:?}, {want:?} expected", show(&k));
                }
                7 if wipe => {
                    e.clear();
                    model.clear();
                }
                _ => {
                    let got = e.get(key(&k)).map(|v| v.as_bytes().to_vec());
                    ensure!(got.as_ref() == model.get(&k), "edit", "tag {} is {got:?}, {:?} expected", show(&k), model.get(&k));
                }
            }
            ensure!(e.len() == model.len(), "edit", "{} tags, {} expected", e.len(), model.len());
            ensure!(e.is_empty() == model.is_empty(), "edit", "is_empty() with {} tags", model.len());
        }
        drop(e);
        checked(1);
        for k in &pool {
            let got = tags.get(key(k)).map(|v| v.as_bytes().to_vec());
            ensure!(got.as_ref() == model.get(k), "edit", "after editing tag {} is {got:?}, {:?} expected", show(k), model.get(k));
        }
        ensure!(tags.len() == model.len(), "edit", "after editing {} tags, {} expected", tags.len(), model.len());
    }
    m.tags = model.into_iter().collect();
    // Arguments: words, then possibly one that is not a word.
    let mut words = m.args.clone();
    let mut long = words.pop_if(|a| !is_arg(a));
    for _ in 0..below(4) {
        if chance(1, 8) {
            args.clear();
            words.clear();
            long = None;
        }
        let mut e = args.edit();
        for _ in 0..below(8) {
            let mut w = gen_word(odd);
            if !is_arg(&w) {
                w = b"w".to_vec();
            }
            match below(9) {
                0 | 1 => {
                    e.add_word(arg(&w));
                    words.push(w);
                }
                2 | 3 => {
                    e.add_before_last(arg(&w));
                    let i = words.len() - (long.is_none() && !words.is_empty()) as usize;
                    words.insert(i, w);
                }
                4 | 5 => {
                    let l = if coin() { gen_line(odd) } else { w };
                    let old = e.add(line(&l)).map(|l| l.as_bytes().to_vec());
                    let want = long.take();
                    if is_arg(&l) {
                        words.push(l);
                    } else {
                        long = Some(l);
                    }
                    ensure!(old == want, "edit", "adding an argument returned {old:?}, {want:?} expected");
                }
                6 if chance(1, 4) => {
                    e.clear();
                    words.clear();
                    long = None;
                }
                7 => {
                    let there = e.words();
                    ensure!(there.len() == words.len(), "edit", "{} words, {} expected", there.len(), words.len());
                    if !words.is_empty() {
                        let i = below(words.len() as u64) as usize;
                        there[i] = arg(&w);
                        words[i] = w;
                    }
                }
                _ => {
                    let all = e.all().map(|a| a.len());
                    let want = long.is_none().then_some(words.len());
                    ensure!(all == want, "edit", "all() gives {all:?} arguments, {want:?} expected");
                    let (rest, last) = e.split_last();
                    let got = (rest.len(), last.map(|l| l.as_bytes().to_vec()));
                    let want = match &long {
                        Some(l) => (words.len(), Some(l.clone())),
                        None => (words.len().saturating_sub(1), words.last().cloned()),
                    };
                    ensure!(got == want, "edit", "split_last() gives {got:?}, {want:?} expected");
                }
            }
        }
        drop(e);
        checked(1);
        let n = words.len() + long.is_some() as usize;
        let left = args.edit().args_left();
        ensure!(left == 15 - n as isize, "args_left", "with {n} arguments, {left} are said to be left of 15");
        ensure!(args.len() == n && args.is_empty() == (n == 0), "edit", "{} arguments, {n} expected", args.len());
        ensure!(args.is_last_long() == long.is_some(), "edit", "is_last_long() with last argument {long:?}");
        let (rest, last) = args.split_last();
        let mut got: Vec<Vec<u8>> = rest.iter().map(|a| a.as_bytes().to_vec()).collect();
        got.extend(last.map(|l| l.as_bytes().to_vec()));
        let want: Vec<Vec<u8>> = words.iter().cloned().chain(long.clone()).collect();
        ensure!(got == want, "edit", "the arguments are {got:?}, {want:?} expected");
    }
    m.args = words.into_iter().chain(long).collect();
    Ok(())
}

/// Makes the line exactly `total` bytes long with CR LF.
fn pad(m: &mut M, total: usize) {
    m.args = vec![b"p".to_vec(), b"z".to_vec()];
    let base = m.line().len();
    if base < total {
        m.args[1] = vec![b'z'; total - base + 1];
    }
}

fn gen(server: bool, odd: bool, big: bool) -> M {
    let mut m = if server { gen_server(odd) } else { gen_client(odd) };
    if odd && chance(1, 6) {
        // Keys with a colon inside, and values made of escapes only.
        let k = [gen_key(false), b":".to_vec(), gen_key(false)].concat();
        if m.tags.iter().all(|t| t.0 != k) {
            m.tags.push((k, bytes(range(1, 8), true, |_| true).iter().map(|c| if c % 2 == 0 { b'\\' } else { b';' }).collect()));
        }
    }
    if big && coin() {
        let max = if server { to_client::MAX } else { to_server::MAX };
        pad(&mut m, max - below(3) as usize);
        if m.line().len() == max {
            probe("line_at_limit");
        }
    }
    m
}

fn forward(w: &Net, r: &Net, rate: u64) {
    let r = r.clone();
    let t = std::cell::Cell::new(0u64);
    w.set_peer(move |line, _| {
        let mut at = t.get().max(now()) + if permille(rate) { *pick(&[1u64, 300, 2500, 20_000]) * MS } else { 0 };
        crate::props::c01::send_split(&r, &mut at, line, rate);
        t.set(at);
    });
}

fn round_trip() -> Res {
    let server = coin();
    let odd = coin();
    let big = chance(1, 10);
    let mut ms: Vec<M> = (0..range(1, if big { 3 } else { 8 })).map(|_| gen(server, odd, big)).collect();
    // Some are edited before they are sent.
    let mut edited = Vec::new();
    for m in ms.iter_mut() {
        let mut now = m.clone();
        let mut parts = None;
        if !big && chance(1, 6) {
            let (mut t, mut a) = (Default::default(), build_args(&now));
            build_tags(&now, &mut t);
            edit_history(&mut now, &mut t, &mut a, odd)?;
            let max = if server { to_client::MAX } else { to_server::MAX };
            if now.line().len() <= max && now.canon().len() + 2 <= max {
                *m = now;
                parts = Some((t, a));
            }
        }
        edited.push(parts);
    }
    let reader = below(6);
    let tokio = is_tokio(reader) || (reader != 5 && reader > 5);
    let cap = *pick(&[8192usize, 1, 7, 64, 600]);
    let size = ms.iter().map(|m| m.line().len()).sum();
    let (wn, rn) = (Net::new(faults_for(size)), Net::new(faults_for(size)));
    for _ in 0..*pick(&[0u64, 0, 1, 3]) {
        let from = range(0, 20_000) * MS;
        let len = range(1, 30_000) * MS;
        wn.with(|n| n.stalls.push((from, from + len)));
    }
    let rate = swarm();
    forward(&wn, &rn, rate);
    let how = if tokio { below(3) } else { below(4) };
    let cancels = swarm();
    ev!("{} messages to {}, reader {}, writer {}", ms.len(), if server { "client" } else { "server" }, READERS[reader as usize], how);
    macro_rules! go {
        ($d:ident, $build:ident, $diff:ident, $parts:expr, $left:expr) => {{
            let mut msgs: Vec<$d::Msg> = ms.iter().map($build).collect();
            for (m, e) in msgs.iter_mut().zip(&edited) {
                if let Some((t, a)) = e {
                    m.tags = t.clone();
                    m.args = a.clone();
                }
            }
            for (m, b) in ms.iter().zip(&msgs) {
                if let Some(d) = m.$diff(b) {
                    bail!("built_wrong", "the message built from {} is not what was asked for: {d}", show(&m.canon()));
                }
                $parts(m, b)?;
                let (bytes, text) = $d::texts(b);
                let plain = bytes.len() - if bytes[0] == b'@' { 1 + bytes.iter().position(|c| *c == b' ').unwrap() } else { 0 };
                let (left, extra): (isize, usize) = $left(b);
                // The last argument may be counted as if it needed a colon.
                let over = 510 - (plain + extra) as isize - left;
                ensure!((0..=1).contains(&over), "bytes_left", "{} takes {} of 510 bytes, but {left} are said to be left", show(&bytes), plain + extra);
                ensure!(
                    std::str::from_utf8(&bytes).is_err() || bytes == text.as_bytes(),
                    "display",
                    "a message written as {} is displayed as {}",
                    show(&bytes),
                    show(text.as_bytes())
                );
            }
            let out = block_on(tokio, async {
                let end = |ok: std::io::Result<()>| -> Res {
                    if let Err(e) = ok {
                        bail!("write_error", "writing failed: {e:?}");
                    }
                    // The link closes once everything has been delivered.
                    rn.push_at(now(), Item::Eof);
                    Ok(())
                };
                if tokio {
                    let w = async { end($d::write_async(&wn, &msgs, how).await) };
                    let r = $d::asynch(reader, &rn, cap, cancels);
                    let (mut w, mut r) = (std::pin::pin!(w), std::pin::pin!(r));
                    let mut wd = None;
                    let mut rd = None;
                    std::future::poll_fn(|cx| {
                        tsync();
                        if wd.is_none() {
                            if let Poll::Ready(x) = w.as_mut().poll(cx) {
                                wd = Some(x);
                            }
                        }
                        if rd.is_none() {
                            if let Poll::Ready(x) = r.as_mut().poll(cx) {
                                rd = Some(x);
                            }
                        }
                        if wd.is_some() && rd.is_some() {
                            Poll::Ready(())
                        } else if matches!(wd, Some(Err(_))) {
                            Poll::Ready(())
                        } else {
                            Poll::Pending
                        }
                    })
                    .await;
                    wd.unwrap()?;
                    Ok(rd.unwrap())
                } else {
                    end($d::write_sync(&wn, &msgs, how))?;
                    let rto = coin().then(|| Duration::from_millis(range(1, 4000)));
                    rn.with(|n| n.rto = rto);
                    Ok($d::sync(reader, &rn, cap))
                }
            })?;
            let want_bytes: Vec<u8> = ms.iter().flat_map(|m| [m.canon(), b"\r\n".to_vec()].concat()).collect();
            let sent = wn.sent();
            ensure!(sent == want_bytes, "bytes", "wrote {} expected {}", show(&sent), show(&want_bytes));
            for (i, o) in out.iter().enumerate() {
                match o {
                    Out::Msg(m) => {
                        let Some(want) = ms.get(i) else { bail!("added", "an additional message arrived: {m}") };
                        if let Some(d) = want.$diff(m) {
                            bail!("differs", "message {i} ({}) arrived changed through the {} reader: {d}", show(&want.canon()), READERS[reader as usize]);
                        }
                        ensure!(*m == msgs[i], "not_equal", "message {i} ({}) arrived unequal to the one written: {m:?} vs {:?}", show(&want.canon()), msgs[i]);
                        checked(1);
                    }
                    Out::Bad(k) => bail!("rejected", "the {} reader rejected message {i} ({}): {k:?}", READERS[reader as usize], show(&ms.get(i).map(|m| m.canon()).unwrap_or_default())),
                    Out::End => ensure!(i == ms.len(), "lost", "only {i} of {} messages arrived through the {} reader", ms.len(), READERS[reader as usize]),
                }
            }
            Ok(())
        }};
    }
    if server {
        go!(to_client, build_server, diff_server, source_parts, |m: &ServerMsg<'_>| (m.bytes_left(), 0))
    } else {
        go!(to_server, build_client, diff_client, |m: &M, s: &ClientMsg<'_>| -> Res {
            targeted!(m, s, None);
            Ok(())
        }, |m: &ClientMsg<'_>| left_client(m))
    }
}

const NASTY: &[u8] = b" :@!;=\\\r\n\0\t\x0b\x0c,%*aZ0\x01\xff\xc3+";

/// One line of a byte stream no one promised anything about.
fn nasty(server: bool, out: &mut Vec<u8>) {
    let max = if server { to_client::MAX } else { to_server::MAX };
    let term: &[u8] = *pick(&[&b"\r\n"[..], b"\n", b"\r\r\n", b"\n\n", b"\r\n\r\n"]);
    let odd = coin();
    match below(9) {
        0 => {}
        8 => {
            // Whole words where they do not belong, or twice.
            let l = if server { gen_server(odd) } else { gen_client(odd) }.encode();
            let mut w: Vec<&[u8]> = l.splitn(4, |c| *c == b' ').collect();
            for _ in 0..range(1, 2) {
                let (i, j) = (below(w.len() as u64) as usize, below(w.len() as u64) as usize);
                match below(3) {
                    0 => w.swap(i, j),
                    1 => w.insert(j, w[i]),
                    _ => w.insert(j.min(2), *pick(&[&b"@a=b"[..], b":n!u@h", b":n", b"@c;+d=e", b":", b"@"])),
                }
            }
            out.extend(w.join(&b' '));
        }
        1 => {
            let n = below(20);
            out.extend((0..n).map(|_| *pick(NASTY)));
        }
        2 | 3 => {
            let mut l = if server { gen_server(odd) } else { gen_client(odd) }.encode();
            for _ in 0..range(1, 3) {
                let i = below(l.len() as u64 + 1) as usize;
                match below(3) {
                    0 => l.insert(i, *pick(NASTY)),
                    1 if i < l.len() => l[i] = *pick(NASTY),
                    _ => {
                        l.truncate(i.max(1));
                    }
                }
            }
            out.extend(l);
        }
        4 => {
            // Around the size limit, possibly with leading spaces or odd last bytes.
            let mut m = if server { gen_server(false) } else { gen_client(false) };
            pad(&mut m, (max as i64 + pick(&[-2i64, -1, 0, 1, 2, 3, 100]) + 2 - term.len() as i64) as usize);
            let mut l = m.line();
            l.truncate(l.len() - 2);
            if chance(1, 3) {
                let k = range(1, 3) as usize;
                for i in 0..k {
                    l[i] = *pick(b" \t \r");
                }
            }
            if chance(1, 3) {
                let n = l.len();
                l[n - 1] = *pick(b"\0\r :");
            }
            probe("near_limit");
            out.extend(l);
        }
        _ => out.extend(if server { gen_server(odd) } else { gen_client(odd) }.encode()),
    }
    out.extend(term);
}

/// Byte-by-byte delivery of long streams is slow; most of those runs get it in larger pieces.
fn faults_for(len: usize) -> Faults {
    if len > 1500 && chance(9, 10) {
        Faults::none()
    } else {
        Faults::any()
    }
}

/// The space left in a client's message, possibly with a source, and how long that source is.
fn left_client(m: &ClientMsg<'_>) -> (isize, usize) {
    if coin() {
        return (m.bytes_left(None), 0);
    }
    let mut s = M::new("X");
    s.nick = Some(gen_nick(false));
    if coin() {
        s.host = Some(gen_word(false));
        s.user = coin().then(|| gen_user(false));
    }
    let src = s.to_server().source.unwrap();
    // With its colon and the space after it.
    (m.bytes_left(Some(&src)), s.source_bytes().unwrap().len() + 2)
}

/// What a line means, for lines that are accepted: tags, source, kind and arguments.
struct Meaning {
    tags: BTreeMap<Vec<u8>, Vec<u8>>,
    source: Option<Vec<u8>>,
    kind: Vec<u8>,
    args: Vec<Vec<u8>>,
}

fn meaning(line: &[u8]) -> Meaning {
    fn word<'a>(b: &mut &'a [u8]) -> &'a [u8] {
        while let [c, r @ ..] = *b {
            if !c.is_ascii_whitespace() {
                break;
            }
            *b = r;
        }
        let e = b.iter().position(|c| *c == b' ').unwrap_or(b.len());
        let w = &b[..e];
        *b = &b[e..];
        w
    }
    let mut b = line;
    let mut m = Meaning { tags: BTreeMap::new(), source: None, kind: Vec::new(), args: Vec::new() };
    let mut w = word(&mut b);
    if let [b'@', tags @ ..] = w {
        for t in tags.split(|c| *c == b';') {
            let (k, v) = match t.iter().position(|c| *c == b'=') {
                Some(i) => (&t[..i], &t[i + 1..]),
                None => (t, &b""[..]),
            };
            // Nothing can be known of a tag without a proper name.
            if !matches!(k, [] | [b':', ..]) {
                m.tags.insert(k.to_vec(), unescape(v));
            }
        }
        w = word(&mut b);
    }
    if let [b':', src @ ..] = w {
        m.source = Some(src.to_vec());
        w = word(&mut b);
    }
    m.kind = w.to_vec();
    loop {
        while let [b' ', r @ ..] = b {
            b = r;
        }
        match b {
            [] => break,
            [b':', rest @ ..] => {
                m.args.push(rest.to_vec());
                break;
            }
            _ => {
                let e = b.iter().position(|c| *c == b' ').unwrap_or(b.len());
                m.args.push(b[..e].to_vec());
                b = &b[e..];
            }
        }
    }
    m
}

fn unescape(v: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut it = v.iter();
    while let Some(c) = it.next() {
        o.push(match c {
            b'\\' => match it.next() {
                None => break,
                Some(b':') => b';',
                Some(b's') => b' ',
                Some(b'r') => b'\r',
                Some(b'n') => b'\n',
                Some(c) => *c,
            },
            c => *c,
        });
    }
    o
}

/// Compares an accepted message with what its line says.
fn unlike(client: bool, line: &[u8], tags: &vinezombie::ircmsg::Tags<'_>, src: Option<&vinezombie::ircmsg::Source<'_>>, kind: &[u8], args: &Args<'_>) -> Option<&'static str> {
    let m = meaning(line);
    if tags.len() != m.tags.len() || m.tags.iter().any(|(k, v)| tags.get(&k[..]).map(|x| x.as_bytes()) != Some(v)) {
        return Some("tags");
    }
    match (&m.source, src) {
        (None, None) => {}
        // Servers take no notice of a client's idea of its source.
        (Some(_), None) if client => {}
        (Some(t), Some(s)) => {
            let mut w = Vec::new();
            let _ = s.write_to(&mut w);
            // What follows a nick and is not a user or a host is ignored.
            let bare = s.userhost.is_none() && t.starts_with(&w) && !matches!(t.get(w.len()), Some(b'!' | b'@'));
            if w != *t && !bare {
                return Some("source");
            }
        }
        _ => return Some("source"),
    }
    if !m.kind.eq_ignore_ascii_case(kind) {
        return Some("kind");
    }
    (args_of(args) != m.args).then_some("arguments")
}

fn agreement() -> Res {
    let server = coin();
    let mut stream = Vec::new();
    for _ in 0..range(1, 5) {
        nasty(server, &mut stream);
    }
    if chance(1, 3) {
        let cut = range(0, stream.len() as u64) as usize;
        stream.truncate(cut);
    }
    ev!("stream {}", show(&stream));
    macro_rules! go {
        ($d:ident, $key:expr, $wr:expr, $unlike:expr) => {{
            let mut first: Option<(String, Vec<Out<$d::Msg>>)> = None;
            for reader in 0..6u64 {
                let net = Net::new(faults_for(stream.len()));
                let rate = swarm();
                let mut t = now();
                let mut rest = &stream[..];
                while !rest.is_empty() {
                    let n = if permille(rate) { range(1, rest.len() as u64) as usize } else { rest.len() };
                    net.send_at(t, &rest[..n]);
                    t += *pick(&[0u64, 1, 1000]) * MS;
                    rest = &rest[n..];
                }
                net.push_at(t, Item::Eof);
                let cap = *pick(&[8192usize, 1, 7, 64, 600, 20000]);
                let tokio = is_tokio(reader);
                let cancels = swarm();
                let out = block_on(tokio, async {
                    if tokio {
                        $d::asynch(reader, &net, cap, cancels).await
                    } else {
                        let rto = coin().then(|| Duration::from_millis(range(1, 4000)));
                        net.with(|n| n.rto = rto);
                        $d::sync(reader, &net, cap)
                    }
                });
                let name = READERS[reader as usize].to_string();
                checked(1);
                match &first {
                    None => first = Some((name, out)),
                    Some((n0, o0)) => {
                        if *o0 != out {
                            let f = |o: &Vec<Out<$d::Msg>>| {
                                o.iter()
                                    .map(|x| match x {
                                        Out::Msg(m) => format!("[{m:?}]"),
                                        x => format!("{:?}", matches!(x, Out::End).then_some("end").unwrap_or("error")),
                                    })
                                    .collect::<Vec<_>>()
                                    .join(", ")
                            };
                            bail!("disagree", "on {} the {n0} reader gives {} but the {name} reader gives {}", show(&stream), f(o0), f(&out));
                        }
                    }
                }
            }
            // What was read is what the lines say.
            let lines = stream.split(|c| *c == b'\n').map(|l| &l[..l.len() - l.iter().rev().take_while(|c| **c == b'\r').count()]).filter(|l| !l.is_empty());
            for (o, l) in first.iter().flat_map(|f| &f.1).zip(lines) {
                let Out::Msg(m) = o else { break };
                let wrong = $unlike(l, m);
                ensure!(wrong.is_none(), "misread", "the line {} is read as {m:?}: wrong {}", show(l), wrong.unwrap());
                checked(1);
            }
            // Re-reading what was read: the serialised form is a fixed point.
            for o in first.iter().flat_map(|f| &f.1) {
                if let Out::Msg(m) = o {
                    let mut v = Vec::new();
                    let _ = $wr(m, &mut v);
                    v.extend(b"\r\n");
                    if v.len() <= $d::MAX {
                        let mut buf = Vec::new();
                        match $key(&mut &v[..], &mut buf) {
                            Ok(m2) => ensure!(m2 == *m, "reparse", "{} was read, written as {} and read again as {m2:?} instead of {m:?}", show(&stream), show(&v)),
                            Err(e) => bail!("reparse", "{} was read, but its written form {} is rejected: {e:?}", show(&stream), show(&v)),
                        }
                        checked(1);
                    }
                }
            }
            Ok(())
        }};
    }
    if server {
        go!(to_client, |r: &mut &[u8], b: &mut Vec<u8>| ClientCodec::read_owning_from(r, b), ServerCodec::write_to, |l: &[u8], m: &ServerMsg<'_>| unlike(false, l, &m.tags, m.source.as_deref(), m.kind.as_str().as_bytes(), &m.args))
    } else {
        go!(to_server, |r: &mut &[u8], b: &mut Vec<u8>| ServerCodec::read_owning_from(r, b), ClientCodec::write_to, |l: &[u8], m: &ClientMsg<'_>| unlike(true, l, &m.tags, None, m.cmd.as_bytes(), &m.args))
    }
}
