//! Minimal JSON writing, and reading of the harness's own replay files.

pub fn esc(s: &str) -> String {
    let mut r = String::with_capacity(s.len() + 2);
    r.push('"');
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

pub fn str_field(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{}\":", key);
    let i = text.find(&k)? + k.len();
    let rest = text[i..].trim_start();
    let mut it = rest.chars();
    if it.next()? != '"' {
        return None;
    }
    let mut out = String::new();
    while let Some(c) = it.next() {
        match c {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                'r' => out.push('\r'),
                'u' => {
                    let h: String = (0..4).filter_map(|_| it.next()).collect();
                    out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    None
}

pub fn num_array(text: &str, key: &str) -> Option<Vec<u64>> {
    let k = format!("\"{}\":", key);
    let i = text.find(&k)? + k.len();
    let rest = text[i..].trim_start();
    let rest = rest.strip_prefix('[')?;
    let end = rest.find(']')?;
    let body = &rest[..end];
    if body.trim().is_empty() {
        return Some(vec![]);
    }
    body.split(',').map(|x| x.trim().parse::<u64>().ok()).collect()
}
