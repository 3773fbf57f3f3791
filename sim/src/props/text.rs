//! What an application does with text it was sent: picks it apart with the
//! library's string tools. A byte-range model predicts every piece, and no
//! piece may claim to be UTF-8 when it is not.
use crate::core::*;
use vinezombie::string::tf::{escape, unescape, AsciiCasemap, IrcCasemap, StringSide, TrimAscii};
use vinezombie::string::{Arg, Builder, Bytes, BytesNewtype, Key, Line, Nick, NoNul, Splitter, Transform, Transformation, Utf8Policy, Word};

/// Bytes with characters of several lengths, whole and broken.
pub fn text(n: u64) -> Vec<u8> {
    let mut v = Vec::new();
    for _ in 0..n {
        let w: &[u8] = pick(&[
            &b"a"[..], b"Zz[~", "é".as_bytes(), "日".as_bytes(), "🦀".as_bytes(), b" ", b"  ", b"\t", b"!", b"@", b":", b"=", b";", b",", b"\xc3", b"\xff",
            b"\xa9", b"\xe6\x97", b"\xf0\x9f", b"\x01", b"\\:", b"\\s", b"\\", b"7",
        ]);
        v.extend_from_slice(w);
    }
    v
}
/// A transformation of an application's own: the text up to the first space,
/// in place or copied. It says as much about UTF-8 as it may.
struct First {
    copy: bool,
    policy: Utf8Policy,
}
unsafe impl Transform for First {
    type Value = usize;
    fn transform<'a>(self, b: &Bytes<'a>) -> Transformation<'a, usize> {
        let v = unsafe { b.as_bytes_unsafe() };
        let n = v.iter().position(|c| *c == b' ').unwrap_or(v.len());
        let transformed = if self.copy { v[..n].to_vec().into() } else { v[..n].into() };
        Transformation { value: n, transformed, utf8: self.policy }
    }
}
/// `b` holds `want` and is not mistaken about being text.
fn sound(b: &Bytes<'_>, want: &[u8], what: &str) {
    assert!(b.as_bytes() == want, "{what} is {} instead of {}", show(b), show(want));
    let valid = std::str::from_utf8(want);
    if let Some(l) = b.is_utf8_lazy() {
        assert!(l == valid.is_ok(), "{what} {} claims that being UTF-8 is {l}", show(want));
    }
    if coin() {
        assert!(b.to_utf8() == valid.ok(), "{what} {} as UTF-8 is {:?}", show(want), b.to_utf8().map(|s| s.len()));
    }
    if chance(1, 4) {
        assert!(b.to_utf8_lossy() == String::from_utf8_lossy(want), "{what} {} is converted wrongly", show(want));
    }
    if chance(1, 4) {
        if let Ok(s) = valid {
            assert!(*b == *s, "{what} {} is unequal to its text", show(want));
            assert!(b.is_secret() || format!("{b}") == s, "{what} {} is printed as {b}", show(want));
        }
        let o = Bytes::from(want.to_vec());
        assert!(*b == o && b.cmp(&o).is_eq(), "{what} {} is unequal to its copy", show(want));
        assert!(o.is_secret() || b.is_secret() || format!("{b}") == format!("{o}"), "{what} {} is printed as {b}", show(want));
    }
    checked(1);
}
fn got<'a, U: BytesNewtype<'a>>(s: &mut Splitter<Bytes<'a>>, a: &mut usize, z: usize, full: &[u8], what: &str) {
    let rest = &full[*a..z];
    let n = rest.iter().position(U::is_invalid).unwrap_or(rest.len());
    let req = coin();
    let ok = (!req || n == rest.len()) && U::check_others(&rest[..n]).is_none();
    let r = if chance(1, 3) { s.peek_string::<U>(req) } else {
        let r = s.string::<U>(req);
        if r.is_ok() {
            *a += n;
        }
        r
    };
    assert!(r.is_ok() == ok, "{what} of {} (whole: {req}) is {:?}", show(rest), r.err());
    if let Ok(u) = r {
        sound(&u.into_bytes(), &rest[..n], what);
    }
}
fn split<'a>(s: &mut Splitter<Bytes<'a>>, a: &mut usize, z: &mut usize, full: &[u8], depth: u64) {
    for _ in 0..range(1, 6) {
        let cur = &full[*a..*z];
        match below(16) {
            0 => {
                assert!(s.next_byte() == cur.first().copied(), "next_byte");
                *a += !cur.is_empty() as usize;
            }
            1 => {
                assert!(s.rnext_byte() == cur.last().copied(), "rnext_byte");
                *z -= !cur.is_empty() as usize;
            }
            2 => {
                s.consume_whitespace();
                *a += cur.iter().position(|b| !b.is_ascii_whitespace()).unwrap_or(cur.len());
            }
            3 => {
                s.consume_invalid::<Word>();
                *a += cur.iter().position(|b| !Word::is_invalid(b)).unwrap_or(cur.len());
            }
            4 | 5 => {
                let b = *pick(&[b' ', b'=', b'!', b'@', 0xa9, 0xc3, 0x97]);
                s.until_byte_eq(b);
                *z = *a + cur.iter().position(|x| *x == b).unwrap_or(cur.len());
            }
            6 => {
                let hi = coin();
                s.until_byte(|b| if hi { *b >= 0x80 } else { *b == b' ' });
                *z = *a + cur.iter().position(|b| if hi { *b >= 0x80 } else { *b == b' ' }).unwrap_or(cur.len());
            }
            7 => {
                let n = below(cur.len() as u64 + 3) as usize;
                s.until_count(n);
                *z = *a + n.min(cur.len());
            }
            8 | 9 => {
                let ok = s.check_encoding().is_ok();
                assert!(ok == std::str::from_utf8(cur).is_ok(), "check_encoding of {} is {ok}", show(cur));
            }
            10 => got::<Word>(s, a, *z, full, "a word"),
            11 => got::<Arg>(s, a, *z, full, "an argument"),
            12 => {
                if coin() {
                    got::<Nick>(s, a, *z, full, "a nick")
                } else {
                    got::<Key>(s, a, *z, full, "a key")
                }
            }
            13 => {
                if coin() {
                    sound(&s.peek_rest::<Bytes>().unwrap(), cur, "the rest");
                } else {
                    sound(&s.rest_or_default::<Bytes>(), cur, "the rest");
                    *a = *z;
                }
            }
            _ if depth < 3 => {
                let (ks, ke) = (coin(), coin());
                let (mut a2, mut z2) = (*a, *z);
                {
                    let mut g = s.save(ks, ke);
                    split(&mut g, &mut a2, &mut z2, full, depth + 1);
                }
                // A guard restores the ends it was asked to.
                if !ks {
                    *a = a2;
                }
                if !ke {
                    *z = z2;
                }
            }
            _ => {}
        }
        let cur = &full[*a..*z];
        assert!(s.as_slice() == cur, "the splitter holds {} instead of {}", show(s.as_slice()), show(cur));
        assert!(!s.is_utf8_lazy() || std::str::from_utf8(cur).is_ok(), "the splitter takes {} for UTF-8", show(cur));
    }
}
pub fn pick_apart(b: Bytes<'_>) {
    let full = b.as_bytes().to_vec();
    if coin() {
        sound(&b, &full, "the string");
    }
    for _ in 0..range(1, 3) {
        let mut s = Splitter::new(b.clone());
        let (mut a, mut z) = (0, full.len());
        split(&mut s, &mut a, &mut z, &full, 0);
    }
    let mut t = b.clone();
    if coin() {
        t = t.owning();
    }
    let mut want = full.clone();
    for _ in 0..below(4) {
        match below(8) {
            6 => {
                let secret = t.is_secret();
                let mut w = want.clone();
                w.truncate(want.iter().position(|c| *c == b' ').unwrap_or(want.len()));
                let mut policy = vec![Utf8Policy::Recheck, Utf8Policy::Preserve];
                policy.push(if std::str::from_utf8(&w).is_ok() { Utf8Policy::Valid } else { Utf8Policy::Invalid });
                let n = t.transform(First { copy: coin(), policy: *pick(&policy) });
                assert!(n == w.len(), "a transformation returned {n}");
                assert!(t.is_secret() == secret || w.is_empty(), "a transformation changed whether {} is secret", show(&want));
                want = w;
            }
            7 => {
                // Not its owner, but made one.
                let x = Bytes::from_bytes(&want[..]);
                if coin() {
                    let _ = x.is_utf8_lazy();
                    let _ = x.to_utf8();
                }
                sound(&x, &want, "the borrowed string");
                t = if chance(1, 4) { x.secret().owning() } else { x.owning() };
                assert!(t.is_owning() || want.is_empty(), "an owning string does not own {}", show(&want));
            }
            0 => {
                t.transform(AsciiCasemap::<true>);
                want.make_ascii_uppercase();
            }
            1 => {
                t.transform(IrcCasemap::Ascii);
                want.make_ascii_lowercase();
            }
            2 => {
                t.transform(IrcCasemap::Rfc1459);
                for c in &mut want {
                    *c = match *c {
                        b'A'..=b'Z' | b'['..=b']' => *c + 32,
                        b'~' => b'^',
                        c => c,
                    };
                }
            }
            3 => {
                let sides = [(StringSide::Start, true, false), (StringSide::End, false, true), (StringSide::StartFirst, true, true), (StringSide::EndFirst, true, true)];
                let (side, s, e) = *pick(&sides);
                t.transform(TrimAscii(side));
                let mut x = &want[..];
                if s {
                    x = x.trim_ascii_start();
                }
                if e {
                    x = x.trim_ascii_end();
                }
                want = x.to_vec();
            }
            4 => {
                t = t.into_utf8_lossy();
                want = String::from_utf8_lossy(&want).into_owned().into_bytes();
            }
            _ => t = if coin() { t.owning() } else { t.clone() },
        }
        sound(&t, &want, "the transformed string");
    }
    if let Ok(l) = NoNul::from_bytes(t.clone()) {
        let e = escape(l.clone());
        sound(&e.clone().into(), &e.as_bytes().to_vec(), "the escaped string");
        let u = unescape(e);
        sound(&u.into(), &want, "the string escaped and unescaped");
        let u = unescape(l);
        sound(&u.clone().into(), &u.as_bytes().to_vec(), "the unescaped string");
    }
    // Building a string from pieces.
    let mut bl = Builder::<Line>::default();
    let mut want = Vec::new();
    for _ in 0..below(5) {
        let k = below(full.len() as u64 + 1) as usize;
        let piece = &full[k..range(k as u64, full.len() as u64) as usize];
        let bad = piece.iter().any(Line::is_invalid);
        match below(4) {
            0 => {
                if let Ok(l) = Line::from_bytes(piece.to_vec()) {
                    if coin() {
                        let _ = l.to_utf8();
                    }
                    bl.append(l);
                    want.extend_from_slice(piece);
                }
            }
            1 => {
                assert!(bl.try_append(piece).is_err() == bad, "try_append of {}", show(piece));
                if !bad {
                    want.extend_from_slice(piece);
                }
            }
            2 => {
                let s = String::from_utf8_lossy(piece);
                assert!(bl.try_append_str(&s).is_err() == bad, "try_append_str of {}", show(piece));
                if !bad {
                    want.extend_from_slice(s.as_bytes());
                }
            }
            _ => {
                if let Some(c) = piece.first() {
                    assert!(bl.try_push(*c).is_err() == Line::is_invalid(c), "try_push of {c}");
                    if !Line::is_invalid(c) {
                        want.push(*c);
                    }
                }
            }
        }
        if chance(1, 4) {
            assert!(bl.check_utf8().is_ok() == std::str::from_utf8(&want).is_ok(), "check_utf8 of {}", show(&want));
        }
    }
    sound(&bl.build().into(), &want, "the built string");
}
