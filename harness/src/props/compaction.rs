//! C01, C02: the binary encoding and compaction.

use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_compaction::basic_compaction::{comp_double, comp_float, comp_int, comp_str};
use dochy_compaction::enc_dec::{signed_bytes, var_int};
use dochy_compaction::kval_enum::{Decimal, KVal};
use dochy_compaction::string_compaction as sc;
use dochy_compaction::url_string;
use dochy_compaction::{decode, decode_from_slice, encode, encode_to_vec};
use std::io::Read;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            suites: vec![suite("sequences", sequences, 250000, 8000000), suite("integers", integers, 400000, 10000000), suite("long", long, 400, 8000), suite("large", large, 400, 8000)],
            rule: "a sequence of at least two values of at least two kinds, or an integer of more than one byte",
            level: "exploration",
            assumptions: &["short strings stay within the documented length of their kind, and undefined within 0..=7"],
        },
        Prop {
            id: "C02",
            suites: vec![suite("numbers", numbers, 1500000, 30000000), suite("texts", texts, 500000, 10000000), suite("url", url, 500000, 5000000)],
            rule: "a number other than 0 and 1, a list with a numeric-looking text, or at least 2 bytes of binary data",
            level: "exploration",
            assumptions: &["a text handed to the text compaction is any Unicode string"],
        },
    ]
}

fn bits_eq(a: &KVal, b: &KVal) -> bool {
    use KVal::*;
    match (a, b) {
        (Null, Null) => true,
        (Bit(a), Bit(b)) | (Bool(a), Bool(b)) => a == b,
        (Byte(a), Byte(b)) => a == b,
        (Str16(a), Str16(b)) | (Str256(a), Str256(b)) | (BigStr(a), BigStr(b)) => a == b,
        (Int(a), Int(b)) => a == b,
        (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
        (Double(a), Double(b)) => a.to_bits() == b.to_bits(),
        (Decimal(a), Decimal(b)) => a.int == b.int && a.dot == b.dot,
        (Binary(a), Binary(b)) => a == b,
        // a shared binary is written as a plain one
        (BinaryArc(a), Binary(b)) => &**a == b,
        (Binary8(a), Binary8(b)) => a == b,
        (Binary4(a), Binary4(b)) => a == b,
        (Binary2(a), Binary2(b)) => a == b,
        (Undefined(a), Undefined(b)) => a == b,
        _ => false,
    }
}

fn kind(k: &KVal) -> &'static str {
    use KVal::*;
    match k {
        Null => "null",
        Bit(_) => "bit",
        Bool(_) => "bool",
        Byte(_) => "byte",
        Str16(_) => "str16",
        Int(_) => "int",
        Float(_) => "float",
        Str256(_) => "str256",
        Double(_) => "double",
        Decimal(_) => "decimal",
        BigStr(_) => "bigstr",
        Binary(_) => "binary",
        BinaryArc(_) => "binary_arc",
        Binary8(_) => "binary8",
        Binary4(_) => "binary4",
        Binary2(_) => "binary2",
        Undefined(_) => "undefined",
    }
}

fn str_of_bytes(g: &mut Gen, max: usize) -> String {
    // lengths around the limits of the string kinds
    let n = match g.us(6) {
        0 => 0,
        1 => max,
        2 => max.saturating_sub(1 + g.us(2)),
        _ => g.us(max.min(40) + 1),
    };
    let mut s = String::new();
    while s.len() < n {
        let c = gen_char(g);
        if s.len() + c.len_utf8() > n {
            while s.len() < n {
                s.push('z');
            }
        } else {
            s.push(c);
        }
    }
    s
}

fn gen_i128(g: &mut Gen) -> i128 {
    let bits = g.us(128) as u32;
    let base: i128 = if bits == 127 { i128::MAX } else { 1i128 << bits };
    let v = match g.us(4) {
        0 => base,
        1 => base.wrapping_sub(1),
        2 => base.wrapping_add(g.below(3) as i128).max(base),
        _ => ((g.u64() as i128) << 64 | g.u64() as i128) >> g.us(127),
    };
    match g.us(3) {
        0 => v,
        1 => v.wrapping_neg(),
        _ => (-1i128).wrapping_sub(v),
    }
}

fn blob_len(g: &mut Gen) -> usize {
    match g.us(8) {
        0 => 0,
        1 => 127 + g.us(3),
        2 => 255 + g.us(3),
        3 => 32767 + g.us(2),
        _ => g.us(20),
    }
}

pub fn gen_kval(g: &mut Gen) -> KVal {
    match g.us(17) {
        0 => KVal::Null,
        1 => KVal::Bit(g.bool()),
        2 => KVal::Bool(g.bool()),
        3 => KVal::Byte(g.u64() as i8),
        4 => KVal::Str16(str_of_bytes(g, 15)),
        5 => KVal::Int(gen_int(g)),
        6 => KVal::Float(f32::from_bits(g.u64() as u32)),
        7 => KVal::Str256(str_of_bytes(g, 255)),
        8 => KVal::Double(gen_float(g, false)),
        9 => KVal::Decimal(Decimal::new(gen_i128(g), g.u64() as u8)),
        10 => {
            let n = if g.chance(1, 30) { 40000 } else { 300 };
            KVal::BigStr(str_of_bytes(g, n))
        }
        11 => {
            let n = blob_len(g);
            KVal::Binary(bytes(g, n))
        }
        12 => {
            let n = blob_len(g);
            KVal::BinaryArc(Arc::new(bytes(g, n)))
        }
        13 => {
            let max = if g.chance(1, 30) { 300 } else { 10 };
            let n = g.us(max);
            KVal::Binary8((0..n).map(|_| g.u64()).collect())
        }
        14 => {
            let max = if g.chance(1, 30) { 300 } else { 10 };
            let n = g.us(max);
            KVal::Binary4((0..n).map(|_| g.u64() as u32).collect())
        }
        15 => {
            let max = if g.chance(1, 30) { 300 } else { 10 };
            let n = g.us(max);
            KVal::Binary2((0..n).map(|_| g.u64() as u16).collect())
        }
        _ => KVal::Undefined(g.below(8) as u8),
    }
}

fn bytes(g: &mut Gen, n: usize) -> Vec<u8> {
    if n > 64 {
        let s = g.u64();
        (0..n).map(|i| mix(s ^ i as u64) as u8).collect()
    } else {
        (0..n).map(|_| g.u64() as u8).collect()
    }
}

/// Hands data out in small pieces, as pipes and compressors do.
struct Trickle<'a> {
    data: &'a [u8],
    pos: usize,
    state: u64,
}
impl<'a> Read for Trickle<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.state = mix(self.state);
        let n = (self.state as usize % 7 + 1).min(buf.len()).min(self.data.len() - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn compare(a: &[KVal], b: &[KVal]) -> Res<()> {
    ensure!(a.len() == b.len(), "{} values decoded from {}", b.len(), a.len());
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(bits_eq(x, y), "value {}: {} decoded as {}", i, clip(&format!("{:?}", x)), clip(&format!("{:?}", y)));
    }
    Ok(())
}

fn sequences(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut seqs: Vec<Vec<KVal>> = vec![];
    let n = g.range(1, 3);
    for _ in 0..n {
        let mut v = vec![];
        let avg = *g.pick(&[5, 1, 20]);
        let one_kind = g.chance(1, 5);
        g.many(0, 150, avg, |g, _| {
            if one_kind && !v.is_empty() {
                let k = kind(&v[0]);
                for _ in 0..30 {
                    let x = gen_kval(g);
                    if kind(&x) == k {
                        v.push(x);
                        return;
                    }
                }
            } else {
                v.push(gen_kval(g));
            }
        });
        seqs.push(v);
    }
    cx.sample(|| clip(&format!("{:?}", seqs)));
    let mut stream: Vec<u8> = vec![];
    let mut lens = vec![];
    for v in &seqs {
        let before = stream.len();
        let n = encode(v, &mut stream).or_vio("encoding")?;
        ensure!(n == stream.len() - before, "encode reported {} bytes and wrote {}", n, stream.len() - before);
        let again = encode_to_vec(v).or_vio("encoding")?;
        ensure!(again == stream[before..], "encoding twice gives different bytes");
        let (d, used) = decode_from_slice(&again).or_vio("decoding")?;
        ensure!(used == again.len(), "decode reported {} bytes of {}", used, again.len());
        compare(v, &d)?;
        lens.push(n);
    }
    stream.extend_from_slice(&[0xAA, 0x55, 0xFF]);
    let mut rest: &[u8] = &stream;
    for (v, n) in seqs.iter().zip(&lens) {
        let before = rest.len();
        let (d, used) = decode(&mut rest).or_vio("decoding from a stream")?;
        ensure!(used == *n && before - rest.len() == *n, "decode reported {} and took {} bytes of {}", used, before - rest.len(), n);
        compare(v, &d)?;
    }
    ensure!(rest == [0xAA, 0x55, 0xFF], "decode read past the end of the encoded values");
    let mut t = Trickle { data: &stream, pos: 0, state: g.u64() };
    for v in &seqs {
        let (d, _) = decode(&mut t).or_vio("decoding from a slow stream")?;
        compare(v, &d)?;
    }
    ensure!(t.pos + 3 == stream.len(), "decode from a slow stream took {} of {} bytes", t.pos, stream.len() - 3);
    let mut kinds = std::collections::HashSet::new();
    for v in &seqs {
        for k in v {
            kinds.insert(kind(k));
        }
    }
    for k in &kinds {
        cx.label(*k);
    }
    cx.nontrivial_if(kinds.len() >= 2);
    Ok(())
}

/// A sequence long enough for counts and tag areas of several bytes.
fn long(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let n = *g.pick(&[127usize, 128, 129, 255, 256, 1000, 4000, 33000]);
    let seed = g.u64();
    let mut h = Gen::random(seed);
    let light = g.bool();
    let v: Vec<KVal> = (0..n)
        .map(|_| {
            if light {
                match h.us(4) {
                    0 => KVal::Bit(h.bool()),
                    1 => KVal::Byte(h.u64() as i8),
                    2 => KVal::Null,
                    _ => KVal::Int(gen_int(&mut h)),
                }
            } else {
                loop {
                    let k = gen_kval(&mut h);
                    match &k {
                        KVal::Binary(b) if b.len() > 300 => {}
                        KVal::BinaryArc(b) if b.len() > 300 => {}
                        KVal::BigStr(b) if b.len() > 300 => {}
                        _ => break k,
                    }
                }
            }
        })
        .collect();
    cx.sample(|| format!("{} values, seed {}", n, seed));
    let b = encode_to_vec(&v).or_vio("encoding")?;
    let (d, used) = decode_from_slice(&b).or_vio("decoding")?;
    ensure!(used == b.len(), "decode reported {} bytes of {}", used, b.len());
    compare(&v, &d)?;
    cx.nontrivial_if(true);
    Ok(())
}

/// A few values of which some are very long.
fn large(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut v = vec![];
    let mut text = vec![];
    for _ in 0..g.range(1, 4) {
        let mut n = super::large::length(g);
        if g.chance(1, 60) {
            n = (1 << 24) - 3 + g.us(6);
        }
        let seed = g.u64();
        let k = match g.us(7) {
            0 => KVal::BigStr(super::large::noise(seed, n).map(|x| (b'a' + (x >> 8) as u8 % 26) as char).collect()),
            1 => KVal::Binary(super::large::noise(seed, n).map(|x| (x >> 8) as u8).collect()),
            2 => KVal::BinaryArc(Arc::new(super::large::noise(seed, n).map(|x| (x >> 8) as u8).collect())),
            3 => KVal::Binary8(super::large::noise(seed, n / 4).collect()),
            4 => KVal::Binary4(super::large::noise(seed, n / 2).map(|x| x as u32).collect()),
            5 => KVal::Binary2(super::large::noise(seed, n).map(|x| x as u16).collect()),
            _ => gen_kval(g),
        };
        text.push(format!("{} ({})", kind(&k), n));
        v.push(k);
    }
    cx.sample(|| text.join(", "));
    let b = encode_to_vec(&v).or_vio("encoding")?;
    let (d, used) = decode_from_slice(&b).or_vio("decoding")?;
    ensure!(used == b.len(), "decode reported {} bytes of {}", used, b.len());
    compare(&v, &d)?;
    cx.nontrivial_if(b.len() > 65_536);
    Ok(())
}

fn integers(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let i = gen_int(g);
    let e = var_int::encode(i);
    ensure!(var_int::decode(&e) == i, "{} decodes as {}", i, var_int::decode(&e));
    ensure!(e.len() == signed_bytes::signed_bytes(i), "{} takes {} bytes, announced {}", i, e.len(), signed_bytes::signed_bytes(i));
    // the fewest bytes whose two's complement range holds it
    let mut n = 1;
    while n < 8 && !(-(1i128 << (8 * n - 1)) <= i as i128 && (i as i128) < (1i128 << (8 * n - 1))) {
        n += 1;
    }
    ensure!(e.len() == n, "{} takes {} bytes, {} are enough", i, e.len(), n);
    let u = g.u64() >> g.us(64);
    ensure!(var_int::from_bytes(&var_int::to_bytes(u)) == u, "{} unsigned decodes as {}", u, var_int::from_bytes(&var_int::to_bytes(u)));
    let w = gen_i128(g);
    let e = var_int::encode128(w);
    ensure!(var_int::decode128(&e) == w, "{} decodes as {}", w, var_int::decode128(&e));
    let uw = w as u128;
    ensure!(var_int::from_bytes128(&var_int::to_bytes128(uw)) == uw, "{} unsigned decodes differently", uw);
    cx.sample(|| format!("{} {} {}", i, u, w));
    cx.nontrivial_if(n > 1);
    Ok(())
}

// ------------------------------------------------------------------ C02

fn through(k: KVal) -> Res<KVal> {
    let v = vec![k];
    let b = encode_to_vec(&v).or_vio("encoding")?;
    let (mut d, _) = decode_from_slice(&b).or_vio("decoding")?;
    ensure!(d.len() == 1, "one value became {}", d.len());
    Ok(d.remove(0))
}

fn numbers(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    match g.us(4) {
        0 => {
            let i = gen_int(g);
            cx.sample(|| format!("int {}", i));
            ensure!(comp_int(i).as_i64() == Some(i), "{} compacts to {:?}", i, comp_int(i));
            let k = through(comp_int(i))?;
            ensure!(k.as_i64() == Some(i), "{} comes back as {:?}", i, k);
            cx.nontrivial_if(i != 0 && i != 1);
        }
        1 => {
            let f = match g.us(4) {
                0 => gen_int(g) as f64,
                1 => f32::from_bits(g.u64() as u32) as f64,
                _ => gen_float(g, false),
            };
            cx.sample(|| format!("double {:?}", f));
            let same = |k: &KVal| k.as_f64().map(|x| x.to_bits() == f.to_bits() || (x.is_nan() && f.is_nan())).unwrap_or(false);
            ensure!(same(&comp_double(f)), "{:?} compacts to {:?}", f, comp_double(f));
            let k = through(comp_double(f))?;
            ensure!(same(&k), "{:?} comes back as {:?}", f, k);
            cx.label(format!("double as {}", kind(&k)));
            cx.nontrivial_if(f != 0.0 && f != 1.0);
        }
        2 => {
            let f = match g.us(4) {
                0 => gen_int(g) as f32,
                1 => gen_float(g, false) as f32,
                _ => f32::from_bits(g.u64() as u32),
            };
            cx.sample(|| format!("float {:?}", f));
            let same = |k: &KVal| k.as_f32().map(|x| x.to_bits() == f.to_bits() || (x.is_nan() && f.is_nan())).unwrap_or(false);
            ensure!(same(&comp_float(f)), "{:?} compacts to {:?}", f, comp_float(f));
            let k = through(comp_float(f))?;
            ensure!(same(&k), "{:?} comes back as {:?}", f, k);
            cx.label(format!("float as {}", kind(&k)));
            cx.nontrivial_if(f != 0.0 && f != 1.0);
        }
        _ => {
            let n = if g.chance(1, 20) { 40000 } else { 300 };
            let s = str_of_bytes(g, n);
            cx.sample(|| clip(&s));
            let k = through(comp_str(s.clone()))?;
            ensure!(k.as_string() == Some(s.clone()), "a text of {} bytes comes back as {}", s.len(), clip(&format!("{:?}", k)));
            let b = g.bool();
            ensure!(through(KVal::Bool(b))?.as_bool() == Some(b), "boolean");
            ensure!(through(KVal::Null)?.as_null() == Some(()), "null");
            let u = g.below(8) as u8;
            ensure!(through(KVal::Undefined(u))?.as_undefined() == Some(u), "undefined");
            let d = Decimal::new(gen_i128(g), g.u64() as u8);
            ensure!(through(KVal::Decimal(d))?.as_decimal() == Some(d), "decimal");
            cx.nontrivial_if(!s.is_empty());
        }
    }
    Ok(())
}

/// Texts that look like numbers, or nearly so.
fn numeric_text(g: &mut Gen) -> String {
    let mut s = String::new();
    if g.chance(1, 3) {
        s.push(*g.pick(&['-', '-', '+']));
    }
    let digits = |g: &mut Gen, s: &mut String| {
        let n = match g.us(6) {
            0 => 38 + g.us(4),
            1 => 18 + g.us(4),
            2 => 1,
            3 => 0,
            _ => g.us(6),
        };
        for i in 0..n {
            let d = if g.chance(1, 4) { '0' } else { (b'0' + g.below(10) as u8) as char };
            let d = if i == 0 && g.chance(1, 6) { '0' } else { d };
            s.push(d);
        }
    };
    digits(g, &mut s);
    if g.chance(1, 2) {
        s.push(*g.pick(&['.', '.', '.', '.', ',', 'x', 'e', ' ', 'é', '日', '\u{1F600}', '-']));
        if g.chance(1, 12) {
            let n = 250 + g.us(10);
            for _ in 0..n {
                s.push('0');
            }
        }
        digits(g, &mut s);
    }
    if g.chance(1, 12) {
        s.push(*g.pick(&['.', '\n', ' ', '0', 'f']));
    }
    if g.chance(1, 20) {
        s.insert(0, *g.pick(&[' ', '\n', '0', '.']));
    }
    s
}

fn texts(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut v = vec![];
    let mut numeric = false;
    g.many(1, 40, 6, |g, _| {
        v.push(match g.us(8) {
            0 => gen_string(g),
            1 => g.pick(&["0", "1", "true", "false", "null", "-0", "00", "1.", ".5", "-", "", "0.0", "-0.0", "127", "128", "-128", "-129", "undefined0"]).to_string(),
            2 => gen_int(g).to_string(),
            3 => gen_i128(g).to_string(),
            4 => format!("{}", gen_float(g, true)),
            _ => {
                numeric = true;
                numeric_text(g)
            }
        });
    });
    cx.sample(|| clip(&format!("{:?}", v)));
    let ks = sc::to_kvals(v.clone().into_iter());
    ensure!(ks.len() == v.len(), "{} texts became {} values", v.len(), ks.len());
    for (s, k) in v.iter().zip(&ks) {
        ensure!(&k.to_string() == s, "{:?} compacts to {:?}, which reads {:?}", s, k, k.to_string());
        ensure!(&sc::to_string(k) == s, "{:?} compacts to {:?}", s, k);
        cx.label(kind(k));
    }
    ensure!(sc::to_strings(&ks) == v, "texts restored from values differ");
    let mut b = sc::compress_strings(v.clone().into_iter()).or_vio("compressing")?;
    let n = b.len();
    b.extend_from_slice(b"tail");
    let (d, used) = sc::decompress(&b).or_vio("decompressing")?;
    ensure!(used == n, "decompress reported {} of {} bytes", used, n);
    for (a, b) in v.iter().zip(&d) {
        ensure!(a == b, "{:?} comes back as {:?}", a, b);
    }
    ensure!(d.len() == v.len(), "{} texts came back as {}", v.len(), d.len());
    cx.nontrivial_if(numeric);
    Ok(())
}

fn url(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let n = match g.us(4) {
        0 => g.us(4),
        1 => g.us(300),
        _ => g.us(30),
    };
    let b: Vec<u8> = match g.us(4) {
        0 => vec![*g.pick(&[0u8, 255, 1, 128]); n],
        _ => bytes(g, n),
    };
    let s = url_string::get_url_string(&b);
    cx.sample(|| format!("{:?} {}", clip(&format!("{:?}", b)), clip(&s)));
    ensure!(s.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_'), "{:?} is not URL-safe", s);
    ensure!(s.len() == (b.len() * 8 + 5) / 6, "{} bytes take {} characters", b.len(), s.len());
    match url_string::get_bytes(&s) {
        Some(x) => ensure!(x == b, "{:?} comes back as {:?}", clip(&format!("{:?}", b)), clip(&format!("{:?}", x))),
        None => vio!("{:?} cannot be converted back", s),
    }
    // any other character is refused
    let bad = g.pick(&['+', '/', '=', ' ', '.', 'é', '\u{0}', '@', '[', '`', '{', ':']);
    let mut t: Vec<char> = s.chars().collect();
    let p = g.us(t.len() + 1);
    t.insert(p, *bad);
    let t: String = t.into_iter().collect();
    ensure!(url_string::get_bytes(&t).is_none(), "{:?} is accepted", t);
    cx.nontrivial_if(b.len() >= 2);
    Ok(())
}
