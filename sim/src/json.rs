//! Minimal JSON writer and reader (only what replay and evidence files need).
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Extracts a string field from a flat JSON object written by this program.
pub fn get_str(s: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\": \"");
    let i = s.find(&k)? + k.len();
    let mut out = String::new();
    let mut it = s[i..].chars();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                'u' => {
                    let h: String = it.by_ref().take(4).collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}
pub fn get_u64(s: &str, key: &str) -> Option<u64> {
    let k = format!("\"{key}\": ");
    let i = s.find(&k)? + k.len();
    let t: String = s[i..].chars().take_while(|c| c.is_ascii_digit()).collect();
    t.parse().ok()
}
pub fn get_u32s(s: &str, key: &str) -> Option<Vec<u32>> {
    let k = format!("\"{key}\": [");
    let i = s.find(&k)? + k.len();
    let j = s[i..].find(']')? + i;
    s[i..j].split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse().ok()).collect()
}
