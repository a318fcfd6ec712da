//! J01: the JSON5 parser, against an independent reader and a printer.

use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_json5::{from_str, JVal};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "J01",
        suites: vec![suite("spellings", spellings, 1000000, 30000000), suite("damaged", damaged, 2000000, 60000000), suite("token_soup", token_soup, 1500000, 50000000), suite("faults", faults, 300000, 5000000)],
        rule: "the text holds a string with an escape, a number, or a container with at least 2 members",
        level: "exploration",
        assumptions: &[
            "values are nested at most 60 deep",
            "an unpaired surrogate escape and a zero escape followed by a digit may be refused or accepted",
        ],
    },
    Prop {
        id: "J02",
        suites: vec![suite("values", values_located, 2_000_000, 60_000_000), suite("errors", errors_located, 1_000_000, 30_000_000), suite("stray", stray_located, 1_000_000, 30_000_000)],
        rule: "values: the last of at least two values is not on the first line; errors: the damaged text was refused; stray: the character was put behind the first line",
        level: "exploration",
        assumptions: &["a line ends with a line feed, alone or after a carriage return; line numbers are not judged behind any other line separator"],
    }]
}

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Undef,
    Bool(bool),
    Str(String),
    Int(i64),
    Real(f64),
    Arr(Vec<V>),
    Obj(Vec<(String, V)>),
}

impl V {
    fn text(&self) -> String {
        match self {
            V::Null => "null".into(),
            V::Undef => "undefined".into(),
            V::Bool(b) => b.to_string(),
            V::Str(s) => format!("{:?}", s),
            V::Int(i) => format!("i{}", i),
            V::Real(f) => {
                if f.is_nan() {
                    "rNaN".into()
                } else {
                    format!("r{:?}/{:x}", f, f.to_bits())
                }
            }
            V::Arr(v) => format!("[{}]", v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",")),
            V::Obj(v) => format!("{{{}}}", v.iter().map(|(k, x)| format!("{:?}:{}", k, x.text())).collect::<Vec<_>>().join(",")),
        }
    }
}

fn of_jval(j: &JVal) -> V {
    match j {
        JVal::Null(_) => V::Null,
        JVal::Undefined(_) => V::Undef,
        JVal::Bool(b, _) => V::Bool(*b),
        JVal::String(s, _) => V::Str(s.clone()),
        JVal::Int(i, _) => V::Int(*i),
        JVal::Double(d, _) => V::Real(*d),
        JVal::Array(a, _) => V::Arr(a.iter().map(of_jval).collect()),
        JVal::Map(m, _) => V::Obj(m.iter().map(|(k, v)| (k.clone(), of_jval(v))).collect()),
    }
}

// ---------------------------------------------------------------- reference reader

pub enum Verdict {
    Value(V),
    Invalid,
    /// the language leaves it open
    Open,
}

struct Rd<'a> {
    c: &'a [char],
    p: usize,
}

enum Stop {
    Invalid,
    Open,
}
type R<T> = Result<T, Stop>;

fn is_lt(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')
}
fn is_ws(c: char) -> bool {
    is_lt(c) || matches!(c, '\t' | '\u{b}' | '\u{c}' | ' ' | '\u{a0}' | '\u{feff}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{202f}' | '\u{205f}' | '\u{3000}')
}
// only characters whose class is beyond doubt are ever generated as letters; damage can leave others where
// a name is expected, and whether they are letters depends on the version of Unicode
fn is_letter(c: char) -> bool {
    c.is_ascii_alphabetic() || LETTERS.contains(&c)
}
fn is_doubtful(c: char) -> bool {
    !c.is_ascii() && !is_letter(c) && !is_ws(c) && !matches!(c, '\u{200c}' | '\u{200d}')
}

impl<'a> Rd<'a> {
    fn peek(&self) -> Option<char> {
        self.c.get(self.p).cloned()
    }
    fn at(&self, k: usize) -> Option<char> {
        self.c.get(self.p + k).cloned()
    }
    fn ws(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(c) if is_ws(c) => self.p += 1,
                Some('/') if self.at(1) == Some('/') => {
                    while let Some(c) = self.peek() {
                        if is_lt(c) {
                            break;
                        }
                        self.p += 1;
                    }
                }
                Some('/') if self.at(1) == Some('*') => {
                    self.p += 2;
                    loop {
                        match (self.peek(), self.at(1)) {
                            (Some('*'), Some('/')) => {
                                self.p += 2;
                                break;
                            }
                            (Some(_), _) => self.p += 1,
                            (None, _) => return Err(Stop::Invalid),
                        }
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn word(&mut self, w: &str) -> bool {
        let w: Vec<char> = w.chars().collect();
        if self.c[self.p..].starts_with(&w) {
            self.p += w.len();
            true
        } else {
            false
        }
    }
    fn value(&mut self) -> R<V> {
        self.ws()?;
        match self.peek() {
            None => Err(Stop::Invalid),
            Some('n') if self.word("null") => Ok(V::Null),
            Some('u') if self.word("undefined") => Ok(V::Undef),
            Some('t') if self.word("true") => Ok(V::Bool(true)),
            Some('f') if self.word("false") => Ok(V::Bool(false)),
            Some('"') | Some('\'') => Ok(V::Str(self.string()?)),
            Some('[') => {
                self.p += 1;
                let mut v = vec![];
                loop {
                    self.ws()?;
                    if self.peek() == Some(']') {
                        self.p += 1;
                        return Ok(V::Arr(v));
                    }
                    v.push(self.value()?);
                    self.ws()?;
                    match self.peek() {
                        Some(',') => self.p += 1,
                        Some(']') => {}
                        _ => return Err(Stop::Invalid),
                    }
                }
            }
            Some('{') => {
                self.p += 1;
                let mut v: Vec<(String, V)> = vec![];
                loop {
                    self.ws()?;
                    if self.peek() == Some('}') {
                        self.p += 1;
                        return Ok(V::Obj(v));
                    }
                    let k = match self.peek() {
                        Some('"') | Some('\'') => self.string()?,
                        _ => self.ident()?,
                    };
                    self.ws()?;
                    if self.peek() != Some(':') {
                        return Err(Stop::Invalid);
                    }
                    self.p += 1;
                    let x = self.value()?;
                    if v.iter().any(|y| y.0 == k) {
                        return Err(Stop::Invalid);
                    }
                    v.push((k, x));
                    self.ws()?;
                    match self.peek() {
                        Some(',') => self.p += 1,
                        Some('}') => {}
                        _ => return Err(Stop::Invalid),
                    }
                }
            }
            _ => self.number(),
        }
    }
    fn hex(&mut self, n: usize) -> R<u32> {
        let mut r = 0;
        for _ in 0..n {
            let d = self.peek().and_then(|c| c.to_digit(16)).ok_or(Stop::Invalid)?;
            r = r * 16 + d;
            self.p += 1;
        }
        Ok(r)
    }
    fn unicode(&mut self) -> R<char> {
        // after "\u"
        let a = self.hex(4)?;
        if (0xD800..0xDC00).contains(&a) {
            if self.peek() == Some('\\') && self.at(1) == Some('u') {
                self.p += 2;
                let b = self.hex(4)?;
                if (0xDC00..0xE000).contains(&b) {
                    return char::from_u32(0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00)).ok_or(Stop::Invalid);
                }
            }
            return Err(Stop::Open);
        }
        char::from_u32(a).ok_or(Stop::Open)
    }
    fn ident(&mut self) -> R<String> {
        let mut s = String::new();
        loop {
            match self.peek() {
                Some('\\') if self.at(1) == Some('u') => {
                    self.p += 2;
                    s.push(self.unicode()?);
                }
                Some(c) if is_letter(c) || matches!(c, '$' | '_' | '@') => {
                    s.push(c);
                    self.p += 1;
                }
                Some(c) if !s.is_empty() && (c.is_ascii_digit() || c == '\u{200c}' || c == '\u{200d}') => {
                    s.push(c);
                    self.p += 1;
                }
                Some(c) if is_doubtful(c) => return Err(Stop::Open),
                _ => break,
            }
        }
        if s.is_empty() {
            return Err(Stop::Invalid);
        }
        if self.peek() == Some('!') {
            s.push('!');
            self.p += 1;
        }
        if self.peek() == Some('?') {
            s.push('?');
            self.p += 1;
        }
        Ok(s)
    }
    fn string(&mut self) -> R<String> {
        let q = self.peek().unwrap();
        self.p += 1;
        let mut s = String::new();
        loop {
            let c = self.peek().ok_or(Stop::Invalid)?;
            self.p += 1;
            if c == q {
                return Ok(s);
            }
            if c == '\n' || c == '\r' {
                return Err(Stop::Invalid);
            }
            if c != '\\' {
                s.push(c);
                continue;
            }
            let e = self.peek().ok_or(Stop::Invalid)?;
            self.p += 1;
            match e {
                'b' => s.push('\u{8}'),
                'f' => s.push('\u{c}'),
                'n' => s.push('\n'),
                'r' => s.push('\r'),
                't' => s.push('\t'),
                'v' => s.push('\u{b}'),
                '0' => {
                    if self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) {
                        return Err(Stop::Open);
                    }
                    s.push('\0')
                }
                '1'..='9' => return Err(Stop::Invalid),
                'x' => s.push(char::from_u32(self.hex(2)?).ok_or(Stop::Invalid)?),
                'u' => s.push(self.unicode()?),
                '\r' => {
                    if self.peek() == Some('\n') {
                        self.p += 1;
                    }
                }
                '\n' | '\u{2028}' | '\u{2029}' => {}
                c => s.push(c),
            }
        }
    }
    fn number(&mut self) -> R<V> {
        let mut neg = false;
        match self.peek() {
            Some('-') => {
                neg = true;
                self.p += 1
            }
            Some('+') => self.p += 1,
            _ => {}
        }
        if self.word("Infinity") {
            return Ok(V::Real(if neg { f64::NEG_INFINITY } else { f64::INFINITY }));
        }
        if self.word("NaN") {
            return Ok(V::Real(f64::NAN));
        }
        if self.peek() == Some('0') && matches!(self.at(1), Some('x') | Some('X')) && self.at(2).map(|c| c.is_ascii_hexdigit()).unwrap_or(false) {
            self.p += 2;
            let mut v: i128 = 0;
            while let Some(d) = self.peek().and_then(|c| c.to_digit(16)) {
                v = (v * 16 + d as i128).min(1i128 << 100);
                self.p += 1;
            }
            let v = if neg { -v } else { v };
            if v < i64::MIN as i128 || v > i64::MAX as i128 {
                return Err(Stop::Invalid);
            }
            return Ok(V::Int(v as i64));
        }
        let start = self.p;
        let mut int_digits = 0;
        if self.peek() == Some('0') {
            self.p += 1;
            int_digits = 1;
        } else {
            while self.peek().map(|c| c.is_ascii_digit()).unwrap_or(false) {
                self.p += 1;
                int_digits += 1;
            }
        }
        let mut real = false;
        if self.peek() == Some('.') {
            let mut k = 1;
            while self.at(k).map(|c| c.is_ascii_digit()).unwrap_or(false) {
                k += 1;
            }
            if int_digits == 0 && k == 1 {
                return Err(Stop::Invalid);
            }
            self.p += k;
            real = true;
        } else if int_digits == 0 {
            return Err(Stop::Invalid);
        }
        if matches!(self.peek(), Some('e') | Some('E')) {
            let mut k = 1;
            if matches!(self.at(1), Some('+') | Some('-')) {
                k = 2;
            }
            let d = k;
            while self.at(k).map(|c| c.is_ascii_digit()).unwrap_or(false) {
                k += 1;
            }
            if k > d {
                self.p += k;
                real = true;
            }
        }
        let t: String = self.c[start..self.p].iter().collect();
        if real {
            let t = if t.starts_with('.') { format!("0{}", t) } else { t };
            let t = t.replace(".e", ".0e").replace(".E", ".0E");
            let t = if t.ends_with('.') { format!("{}0", t) } else { t };
            let f: f64 = t.parse().map_err(|_| Stop::Invalid)?;
            if f.is_infinite() {
                // beyond the range of reals
                return Err(Stop::Open);
            }
            return Ok(V::Real(if neg { -f } else { f }));
        }
        let t = if neg { format!("-{}", t) } else { t };
        match t.parse::<i64>() {
            Ok(i) => Ok(V::Int(i)),
            Err(_) => Err(Stop::Invalid),
        }
    }
}

pub fn reference(text: &str) -> Verdict {
    let c: Vec<char> = text.chars().collect();
    let mut r = Rd { c: &c, p: 0 };
    let f = |r: &mut Rd| -> R<V> {
        let v = r.value()?;
        r.ws()?;
        if r.p < r.c.len() {
            return Err(Stop::Invalid);
        }
        Ok(v)
    };
    match f(&mut r) {
        Ok(v) => Verdict::Value(v),
        Err(Stop::Invalid) => Verdict::Invalid,
        // whether the rest is valid is not looked at
        Err(Stop::Open) => Verdict::Open,
    }
}

fn check_text(text: &str) -> Res<&'static str> {
    let got = match no_panic(|| from_str(text)) {
        Ok(r) => r,
        Err(p) => vio!("parsing {:?} panics: {}", clip(text), p),
    };
    match (reference(text), got) {
        (Verdict::Value(v), Ok(j)) => {
            let g = of_jval(&j).text();
            ensure!(g == v.text(), "{:?} parses as {} instead of {}", clip(text), clip(&g), clip(&v.text()));
            Ok("valid")
        }
        (Verdict::Value(v), Err(e)) => vio!("{:?} denotes {} and is refused: {}", clip(text), clip(&v.text()), clip(&e.message)),
        (Verdict::Invalid, Ok(j)) => vio!("{:?} is not valid and is read as {}", clip(text), clip(&of_jval(&j).text())),
        (Verdict::Invalid, Err(_)) => Ok("invalid"),
        (Verdict::Open, _) => Ok("open"),
    }
}

// ---------------------------------------------------------------- generators

const LETTERS: &[char] = &['a', 'b', 'z', 'A', 'Z', 'é', 'ß', '日', 'ア', 'Ω', 'ж'];

fn gen_key(g: &mut Gen) -> String {
    if g.chance(1, 4) {
        gen_string(g)
    } else {
        let mut s = String::new();
        s.push(if g.chance(1, 4) { *g.pick(&['$', '_', '@']) } else { *g.pick(LETTERS) });
        for _ in 0..g.us(5) {
            s.push(match g.us(6) {
                0 => *g.pick(&['0', '9', '5']),
                1 => *g.pick(&['$', '_', '@', '\u{200c}', '\u{200d}']),
                _ => *g.pick(LETTERS),
            });
        }
        if g.chance(1, 6) {
            s.push('!');
        }
        if g.chance(1, 6) {
            s.push('?');
        }
        s
    }
}

fn gen_v(g: &mut Gen, depth: usize) -> V {
    let k = if depth == 0 { g.us(7) } else { g.us(11) };
    match k {
        0 => V::Null,
        1 => V::Bool(g.bool()),
        2 => V::Int(gen_int(g)),
        3 => V::Real(gen_float(g, false)),
        4 | 5 => V::Str(gen_string(g)),
        6 => V::Undef,
        7 | 8 => {
            let mut v = vec![];
            g.many(0, 8, 2, |g, _| v.push(gen_v(g, depth - 1)));
            V::Arr(v)
        }
        _ => {
            let mut v: Vec<(String, V)> = vec![];
            g.many(0, 8, 2, |g, _| {
                let k = gen_key(g);
                if v.iter().all(|x| x.0 != k) {
                    let x = gen_v(g, depth - 1);
                    v.push((k, x));
                }
            });
            V::Obj(v)
        }
    }
}

fn ws(g: &mut Gen, out: &mut String) {
    if g.chance(2, 3) {
        return;
    }
    for _ in 0..g.range(1, 3) {
        match g.us(5) {
            0 => out.push_str(g.sel(&["/**/", "/* c */", "/* * / ** */", "/*\n*/", "/* // */", "/***/"])),
            1 => {
                out.push_str(g.sel(&["//", "// c", "// /* ", "//é日", "// \" ' } ]"]));
                out.push(*g.pick(&['\n', '\r', '\u{2028}', '\u{2029}']));
            }
            _ => out.push(*g.pick(&[' ', '\n', '\t', '\r', '\u{b}', '\u{c}', '\u{a0}', '\u{feff}', '\u{3000}', '\u{2003}', '\u{2028}', '\u{2029}'])),
        }
    }
}

fn escape_u(c: char, g: &mut Gen, out: &mut String) {
    let mut b = [0u16; 2];
    for u in c.encode_utf16(&mut b) {
        let h = if g.bool() { format!("{:04x}", u) } else { format!("{:04X}", u) };
        out.push_str("\\u");
        out.push_str(&h);
    }
}

fn print_str(g: &mut Gen, s: &str, out: &mut String) {
    let q = if g.bool() { '"' } else { '\'' };
    out.push(q);
    let wild = g.chance(1, 2);
    let cs: Vec<char> = s.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        let must = c == q || c == '\\' || c == '\n' || c == '\r';
        if !must && !(wild && g.chance(1, 3)) {
            out.push(c);
            continue;
        }
        let next_digit = cs.get(i + 1).map(|c| c.is_ascii_digit()).unwrap_or(false);
        let short = match c {
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{b}' => Some("\\v"),
            '\\' => Some("\\\\"),
            '"' => Some("\\\""),
            '\'' => Some("\\'"),
            '\0' if !next_digit => Some("\\0"),
            _ => None,
        };
        match (g.us(4), short) {
            (0, _) if (c as u32) < 256 => {
                let h = if g.bool() { format!("\\x{:02x}", c as u32) } else { format!("\\x{:02X}", c as u32) };
                out.push_str(&h)
            }
            (1, _) | (0, None) => escape_u(c, g, out),
            (_, Some(x)) => out.push_str(x),
            _ => {
                // a character without a meaning of its own may be escaped too
                if !is_lt(c) && !c.is_ascii_digit() && !"bfnrtvxu".contains(c) {
                    out.push('\\');
                    out.push(c)
                } else {
                    escape_u(c, g, out)
                }
            }
        }
        if wild && g.chance(1, 6) {
            out.push('\\');
            out.push_str(g.sel(&["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"]));
        }
    }
    out.push(q);
}

fn is_ident(s: &str) -> bool {
    let t = s.strip_suffix('?').unwrap_or(s);
    let t = t.strip_suffix('!').unwrap_or(t);
    let mut first = true;
    for c in t.chars() {
        let start = LETTERS.contains(&c) || c.is_ascii_alphabetic() || matches!(c, '$' | '_' | '@');
        if !(start || (!first && (c.is_ascii_digit() || c == '\u{200c}' || c == '\u{200d}'))) {
            return false;
        }
        first = false;
    }
    !first
}

fn print_num(g: &mut Gen, f: f64, out: &mut String) {
    if f.is_nan() {
        out.push_str(g.sel(&["NaN", "-NaN", "+NaN"]));
        return;
    }
    if f.is_infinite() {
        out.push_str(if f < 0.0 { "-Infinity" } else if g.bool() { "Infinity" } else { "+Infinity" });
        return;
    }
    let neg = f.is_sign_negative();
    if neg {
        out.push('-');
    } else if g.chance(1, 5) {
        out.push('+');
    }
    let a = f.abs();
    let t = match g.us(3) {
        0 => format!("{:?}", a),
        1 => format!("{:e}", a),
        _ => {
            let t = format!("{}", a);
            if t.contains('.') {
                t
            } else if g.bool() {
                t + "."
            } else {
                t + ".0"
            }
        }
    };
    let t = if t.contains('.') || t.contains('e') { t } else { t + ".0" };
    let t = if g.bool() { t.replace('e', "E") } else { t };
    let t = if g.chance(1, 3) && !t.contains("e-") && !t.contains("E-") { t.replace('e', "e+").replace('E', "E+") } else { t };
    let t = if g.bool() && t.starts_with("0.") && t.len() > 2 && t.as_bytes()[2].is_ascii_digit() { t[1..].to_string() } else { t };
    out.push_str(&t);
}

fn print(g: &mut Gen, v: &V, out: &mut String) {
    print_marked(g, v, out, &mut vec![]);
}

/// Also notes where each value stands, in the order of the values' beginnings.
fn print_marked(g: &mut Gen, v: &V, out: &mut String, marks: &mut Vec<(usize, usize)>) {
    let me = marks.len();
    marks.push((out.len(), 0));
    match v {
        V::Null => out.push_str("null"),
        V::Undef => out.push_str("undefined"),
        V::Bool(b) => out.push_str(&b.to_string()),
        V::Str(s) => print_str(g, s, out),
        V::Int(i) => {
            let a = (*i as i128).abs();
            if *i < 0 {
                out.push('-');
            } else if g.chance(1, 6) {
                out.push('+');
            }
            let t = match g.us(5) {
                0 => format!("0x{:x}", a),
                1 => format!("0X{:X}", a),
                _ => a.to_string(),
            };
            out.push_str(&t);
        }
        V::Real(f) => print_num(g, *f, out),
        V::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                ws(g, out);
                print_marked(g, x, out, marks);
                ws(g, out);
                if i + 1 < v.len() || g.chance(1, 4) {
                    out.push(',');
                }
            }
            ws(g, out);
            out.push(']');
        }
        V::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                ws(g, out);
                if is_ident(k) && g.chance(3, 4) {
                    for (j, c) in k.chars().enumerate() {
                        if (c.is_ascii_alphabetic() || LETTERS.contains(&c)) && g.chance(1, 20) {
                            escape_u(c, g, out);
                        } else {
                            out.push(c);
                        }
                        let _ = j;
                    }
                } else {
                    print_str(g, k, out);
                }
                ws(g, out);
                out.push(':');
                ws(g, out);
                print_marked(g, x, out, marks);
                ws(g, out);
                if i + 1 < v.len() || g.chance(1, 4) {
                    out.push(',');
                }
            }
            ws(g, out);
            out.push('}');
        }
    }
    marks[me].1 = out.len();
}

fn weight(v: &V) -> bool {
    match v {
        V::Int(_) | V::Real(_) => true,
        V::Str(s) => s.chars().any(|c| c == '\\' || c == '"' || c < ' '),
        V::Arr(a) => a.len() >= 2 || a.iter().any(weight),
        V::Obj(o) => o.len() >= 2 || o.iter().any(|x| weight(&x.1)),
        _ => false,
    }
}

fn gen_text(g: &mut Gen) -> (V, String) {
    let d = g.us(5);
    let mut v = gen_v(g, d);
    if g.chance(1, 40) {
        for i in 0..g.us(55) {
            v = if i % 3 == 0 { V::Obj(vec![("k".into(), v)]) } else { V::Arr(vec![v]) };
        }
    }
    let mut t = String::new();
    ws(g, &mut t);
    print(g, &v, &mut t);
    ws(g, &mut t);
    (v, t)
}

fn spellings(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (v, t) = gen_text(g);
    cx.sample(|| clip(&t));
    match no_panic(|| from_str(&t)) {
        Err(p) => vio!("parsing {:?} panics: {}", clip(&t), p),
        Ok(Err(e)) => vio!("{:?} denotes {} and is refused: {}", clip(&t), clip(&v.text()), clip(&e.message)),
        Ok(Ok(j)) => {
            let got = of_jval(&j).text();
            ensure!(got == v.text(), "{:?} parses as {} instead of {}", clip(&t), clip(&got), clip(&v.text()));
        }
    }
    // the reference reader has to agree with the printer, or one of the two is wrong
    match reference(&t) {
        Verdict::Value(r) if r.text() == v.text() => {}
        _ => return Err(Fail::Violation(format!("HARNESS: reference reader and printer disagree on {:?}", t))),
    }
    cx.nontrivial_if(weight(&v));
    Ok(())
}

const MUT: &[char] = &[
    '{', '}', '[', ']', ':', ',', '"', '\'', '\\', '/', '*', '-', '+', '.', '0', '1', '7', '9', 'e', 'E', 'x', 'X', 'u', 'a', 'F', 'n', 't', ' ', '\n', '\r', '\t', '\0', '_', '$', '@', '!', '?', '#', '(', ';', 'é', '日', '\u{1F600}', '\u{2028}', '\u{feff}', '\u{a0}', '\u{200d}', 'I', 'N',
];

fn mutate(g: &mut Gen, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..g.range(1, 3) {
        if c.is_empty() {
            break;
        }
        let p = g.us(c.len());
        match g.us(6) {
            0 => {
                c.remove(p);
            }
            1 => c.insert(p, *g.pick(MUT)),
            2 => c[p] = *g.pick(MUT),
            3 => {
                let q = g.us(c.len());
                c.swap(p, q)
            }
            4 => c.truncate(p),
            _ => {
                let q = (p + g.range(1, 6)).min(c.len());
                let part: Vec<char> = c[p..q].to_vec();
                let at = g.us(c.len() + 1);
                for (i, x) in part.into_iter().enumerate() {
                    c.insert(at + i, x);
                }
            }
        }
    }
    c.into_iter().collect()
}

fn damaged(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (v, t) = gen_text(g);
    let t = mutate(g, &t);
    cx.sample(|| clip(&t));
    let k = check_text(&t)?;
    cx.label(k);
    cx.nontrivial_if(weight(&v));
    Ok(())
}

fn token_soup(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    const TOK: &[&str] = &[
        "{", "}", "[", "]", ":", ",", "null", "undefined", "true", "false", "0", "-", "+", "1", ".", "e", "E", "0x", "1F", "'", "\"", "\\", "\\u", "0041", "\\x", "a", "b!", "c?", "d!?", "e?!", "@f", "$", "_", " ", "\n", "//", "/*", "*/", "Infinity", "NaN",
        "9223372036854775807", "9223372036854775808", "00", "\r\n", "\u{2028}", "{a:", "[1,", "\"x\"", "'y'", "\\uD83D", "\\uDE00", "\\0", "1e5", "1.", ".5", "é",
    ];
    let mut t = String::new();
    g.many(1, 20, 5, |g, _| t.push_str(g.sel(TOK)));
    cx.sample(|| t.clone());
    let k = check_text(&t)?;
    cx.label(k);
    cx.nontrivial_if(t.len() > 3);
    Ok(())
}

/// Texts that are wrong by construction must be refused.
fn faults(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let inner = |g: &mut Gen| {
        let v = gen_v(g, 1);
        let mut t = String::new();
        print(g, &v, &mut t);
        t
    };
    let key = |g: &mut Gen| {
        let k = gen_key(g);
        let mut t = String::new();
        print_str(g, &k, &mut t);
        (k, t)
    };
    let (name, t) = match g.us(14) {
        0 => {
            let (k, a) = key(g);
            let mut b = String::new();
            if is_ident(&k) && g.bool() {
                b = k;
            } else {
                print_str(g, &k, &mut b);
            }
            ("duplicate key", format!("{{{}:{},{}:{}}}", a, inner(g), b, inner(g)))
        }
        1 => ("missing comma", format!("[{} {}]", inner(g), inner(g))),
        2 => ("missing colon", format!("{{{} {}}}", key(g).1, inner(g))),
        3 => ("two values", format!("{} {}", inner(g), inner(g))),
        4 => ("open array", format!("[{}", inner(g))),
        5 => ("open object", format!("{{{}:{}", key(g).1, inner(g))),
        6 => ("empty element", format!("[{},,{}]", inner(g), inner(g))),
        7 => ("lone comma", g.pick(&["[,]", "{,}", ",", "[,1]"]).to_string()),
        8 => ("leading zero", format!("[{}0{}]", g.pick(&["", "-", "+"]), g.us(1000))),
        9 => ("open comment", format!("{} /* {}", inner(g), g.pick(&["", "*", "x", "/"]))),
        10 => ("open string", format!("[\"{}]", g.pick(&["", "a", "\\\"", "'"]))),
        11 => ("raw newline in string", format!("\"a{}b\"", g.pick(&["\n", "\r", "\r\n"]))),
        12 => ("bad escape", format!("'{}'", g.pick(&["\\x4", "\\xg1", "\\u123", "\\u12g4", "\\1", "\\9", "\\u", "\\x"]))),
        _ => ("integer out of range", format!("{}{}", g.pick(&["-", "", "+"]), g.pick(&["9223372036854775809", "0x8000000000000001", "99999999999999999999999999", "0xFFFFFFFFFFFFFFFFFF"]))),
    };
    cx.sample(|| clip(&format!("{}: {}", name, t)));
    cx.label(name);
    match no_panic(|| from_str(&t)) {
        Err(p) => vio!("parsing {:?} panics: {}", clip(&t), p),
        Ok(Ok(j)) => vio!("{:?} ({}) is read as {}", clip(&t), name, clip(&of_jval(&j).text())),
        Ok(Err(_)) => {}
    }
    cx.nontrivial_if(true);
    Ok(())
}

fn places(j: &JVal, out: &mut Vec<(usize, usize, usize, String)>) {
    out.push((j.span().start, j.span().end, j.span().line_num(), j.slice().to_string()));
    match j {
        JVal::Array(a, _) => a.iter().for_each(|x| places(x, out)),
        JVal::Map(m, _) => m.iter().for_each(|(_, x)| places(x, out)),
        _ => {}
    }
}

/// The typed readers of a value give it for its own type and nothing for the others.
fn readers(j: &JVal) -> Res<()> {
    let (o, a, s, n, i, b, z, u) = match j {
        JVal::Map(..) => (1, 0, 0, 0, 0, 0, 0, 0),
        JVal::Array(..) => (0, 1, 0, 0, 0, 0, 0, 0),
        JVal::String(..) => (0, 0, 1, 0, 0, 0, 0, 0),
        JVal::Double(..) => (0, 0, 0, 1, 0, 0, 0, 0),
        JVal::Int(..) => (0, 0, 0, 0, 1, 0, 0, 0),
        JVal::Bool(..) => (0, 0, 0, 0, 0, 1, 0, 0),
        JVal::Null(..) => (0, 0, 0, 0, 0, 0, 1, 0),
        JVal::Undefined(..) => (0, 0, 0, 0, 0, 0, 0, 1),
    };
    let got = (
        j.as_object().is_some() as i32,
        j.as_array().is_some() as i32,
        j.as_str().is_some() as i32,
        j.as_num().is_some() as i32,
        j.as_int().is_some() as i32,
        j.as_bool().is_some() as i32,
        j.is_null() as i32,
        j.is_undefined() as i32,
    );
    ensure!(got == (o, a, s, n, i, b, z, u), "{:?} is readable as {:?}", clip(j.slice()), got);
    match j {
        JVal::Map(m, _) => {
            ensure!(j.as_object().map(|x| x.len()) == Some(m.len()), "object of {:?} has another size", clip(j.slice()));
            for (_, v) in m {
                readers(v)?;
            }
        }
        JVal::Array(v, _) => {
            ensure!(j.as_array().map(|x| x.len()) == Some(v.len()), "array of {:?} differs", clip(j.slice()));
            for x in v {
                readers(x)?;
            }
        }
        JVal::String(x, _) => ensure!(j.as_str() == Some(x.as_str()), "string of {:?} differs", clip(j.slice())),
        JVal::Double(x, _) => ensure!(j.as_num().map(|y| y.to_bits()) == Some(x.to_bits()), "number of {:?} differs", clip(j.slice())),
        JVal::Int(x, _) => ensure!(j.as_int() == Some(*x), "integer of {:?} differs", clip(j.slice())),
        JVal::Bool(x, _) => ensure!(j.as_bool() == Some(*x), "boolean of {:?} differs", clip(j.slice())),
        _ => {}
    }
    Ok(())
}

fn values_located(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let d = g.us(4);
    let v = gen_v(g, d);
    let mut t = String::new();
    for _ in 0..g.us(4) {
        t.push_str(g.sel(&["\n", "\r\n", "// é\r\n", "/*\r\n日\n*/", " ", "\n\n"]));
    }
    if g.chance(1, 8000) {
        // lines and places beyond 16 bits
        let n = 65_530 + g.us(5000);
        t.push_str(&g.sel(&["\n", " ", "// é\n"]).repeat(n));
        cx.label("long text");
    }
    let mut marks = vec![];
    ws(g, &mut t);
    print_marked(g, &v, &mut t, &mut marks);
    ws(g, &mut t);
    cx.sample(|| clip(&t));
    let j = match no_panic(|| from_str(&t)) {
        Ok(Ok(j)) => j,
        Ok(Err(e)) => vio!("{:?} is refused: {}", clip(&t), clip(&e.message)),
        Err(p) => vio!("parsing {:?} panics: {}", clip(&t), p),
    };
    let mut got = vec![];
    match no_panic(|| {
        let mut x = vec![];
        places(&j, &mut x);
        x
    }) {
        Ok(x) => got.extend(x),
        Err(p) => vio!("asking for the places of {:?} panics: {}", clip(&t), p),
    }
    ensure!(got.len() == marks.len(), "{:?} has {} values, {} were written", clip(&t), got.len(), marks.len());
    for ((s, e, line, slice), (a, b)) in got.iter().zip(&marks) {
        ensure!(s == a && e == b, "{:?}: the value {:?} is placed at {}..{} instead of {}..{}", clip(&t), clip(&t[*a..*b]), s, e, a, b);
        ensure!(*slice == t[*a..*b], "{:?}: the value {:?} is shown as {:?}", clip(&t), clip(&t[*a..*b]), clip(slice));
        let before = &t[..*a];
        let other = before.contains(&['\u{2028}', '\u{2029}'][..]) || before.replace("\r\n", "").contains('\r');
        let want = 1 + before.matches('\n').count();
        ensure!(other || *line == want, "{:?}: the value {:?} is on line {}, said to be on {}", clip(&t), clip(&t[*a..*b]), want, line);
    }
    readers(&j)?;
    cx.nontrivial_if(got.last().unwrap().2 > 1 && got.len() > 1);
    Ok(())
}

/// Where the error is said to be: within the text, between two characters of it.
fn errors_located(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (_, t) = gen_text(g);
    let t = mutate(g, &t);
    cx.sample(|| clip(&t));
    if let Ok(Err(e)) = no_panic(|| from_str(&t)) {
        for p in e.start.iter().chain(&e.end) {
            ensure!(t.is_char_boundary(*p), "{:?} of {} bytes: the error is placed at {}", clip(&t), t.len(), p);
        }
        if let (Some(a), Some(b)) = (e.start, e.end) {
            ensure!(a <= b, "{:?}: the error is placed at {}..{}", clip(&t), a, b);
        }
        ensure!(e.start.is_some(), "{:?}: the error has no place: {}", clip(&t), clip(&e.message));
        cx.nontrivial_if(true);
    }
    Ok(())
}

/// A character that can begin nothing is reported no later than where it stands.
fn stray_located(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let d = g.us(4);
    let v = gen_v(g, d);
    let mut t = String::new();
    ws(g, &mut t);
    let mut marks = vec![];
    print_marked(g, &v, &mut t, &mut marks);
    ws(g, &mut t);
    let (a, b) = *g.pick(&marks);
    let p = if g.bool() { a } else { b };
    t.insert(p, *g.pick(&['#', '%', '^', '=', '`']));
    cx.sample(|| clip(&t));
    match no_panic(|| from_str(&t)) {
        Ok(Ok(_)) => vio!("{:?} is accepted", clip(&t)),
        Ok(Err(e)) => ensure!(e.start.map_or(false, |x| x <= p), "{:?}: the error at {} is said to be at {:?}", clip(&t), p, e.start),
        Err(x) => vio!("parsing {:?} panics: {}", clip(&t), x),
    }
    cx.nontrivial_if(t[..p].contains('\n'));
    Ok(())
}
