//! E01: damaged data.

use super::compaction::gen_kval;
use super::diff::{diff, gen_tree};
use super::source::archive_of;
use super::{files, history, suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::{vio, ALLOC_LIMIT};
use dochy_compaction::enc_dec::{decode::decode, encode::encode};
use dochy_compaction::kval_enum::KVal;
use std::path::Path;
use std::sync::atomic::Ordering;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "E01",
        suites: vec![
            suite("streams", streams, 2_000_000, 40_000_000),
            suite("diffs", diffs, 80_000, 2_000_000),
            suite("archives", archives, 50_000, 1_000_000),
            suite("files", files::damaged, 30_000, 600_000),
            suite("histories", history::damaged, 30_000, 600_000),
        ],
        rule: "the data differ from what was written and are not empty; files and histories: and a file that is damaged or needs the damaged one was loaded",
        level: "exploration",
        assumptions: &[
            "a single request for more than 256 MB is refused by the system while damaged data are read",
            "the nesting of source text is bounded (the parser is recursive)",
        ],
    }]
}

/// Runs code that reads damaged data: no thread may panic, and a request for very much memory fails.
pub fn quiet<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    let n = PANICS.load(Ordering::SeqCst);
    ALLOC_LIMIT.store(1 << 28, Ordering::SeqCst);
    let r = no_panic(f);
    ALLOC_LIMIT.store(usize::MAX, Ordering::SeqCst);
    match r {
        Err(p) => vio!("{} panicked: {}", what, p),
        Ok(v) => {
            if PANICS.load(Ordering::SeqCst) != n {
                vio!("{}: a thread panicked: {}", what, take_last_panic().unwrap_or_default());
            }
            Ok(v)
        }
    }
}

fn damage_value(g: &mut Gen, k: &mut KVal) {
    let n = k.as_i64();
    *k = match (g.us(4), n) {
        (0, Some(n)) => KVal::Int(n.wrapping_add(*g.pick(&[1i64, -1, 2, 64, -64]))),
        (0, None) | (1, _) => KVal::Int(*g.pick(&[0i64, 1, -1, 2, 3, 63, 64, 65, 127, 255, 1 << 20, 1 << 27, 1 << 31, 1 << 33, 1 << 40, 1 << 62, i64::MAX, i64::MIN])),
        (2, _) => KVal::Bit(g.bool()),
        _ => gen_kval(g),
    };
}

/// Damages values of an encoded stream, so that it still decodes.
fn damage_values(g: &mut Gen, v: &mut Vec<KVal>, log: &mut String) {
    g.many(1, 4, 1, |g, _| {
        if v.is_empty() {
            v.push(gen_kval(g));
            return;
        }
        let i = g.us(v.len());
        match g.weighted(&[6, 1, 1, 1, 1]) {
            0 => {
                let old = format!("{:?}", v[i]);
                damage_value(g, &mut v[i]);
                *log += &clip(&format!("value {} of {} from {} to {:?}; ", i, v.len(), old, v[i]));
            }
            1 => {
                v.remove(i);
                *log += &format!("value {} removed; ", i);
            }
            2 => {
                let x = gen_kval(g);
                v.insert(i, x);
                *log += &format!("value {} inserted; ", i);
            }
            3 => {
                let j = g.us(v.len());
                v.swap(i, j);
                *log += &format!("values {} and {} swapped; ", i, j);
            }
            _ => {
                v.truncate(i);
                *log += &format!("cut off before value {}; ", i);
            }
        }
    });
}

/// Damages bytes in one of many ways.
pub fn damage_bytes(g: &mut Gen, b: &mut Vec<u8>, log: &mut String) {
    if g.chance(1, 2) {
        // the values of the first or of the second stream in the data
        let mut rest: &[u8] = b;
        let head = decode(&mut rest).ok();
        let first = b.len() - rest.len();
        let second = if head.is_some() && g.bool() { decode(&mut rest).ok() } else { None };
        let mut out = vec![];
        if let Some((mut v, _)) = second {
            out.extend_from_slice(&b[..first]);
            damage_values(g, &mut v, log);
            if encode(&v, &mut out).is_ok() {
                out.extend_from_slice(rest);
                *b = out;
                return;
            }
        } else if let Some((mut v, _)) = head {
            damage_values(g, &mut v, log);
            if encode(&v, &mut out).is_ok() {
                out.extend_from_slice(&b[first..]);
                *b = out;
                return;
            }
        }
    }
    let first = {
        let mut rest: &[u8] = b;
        decode(&mut rest).ok();
        b.len() - rest.len()
    };
    g.many(1, 5, 1, |g, _| match g.weighted(&[6, 4, 2, 2, 1, 1, 2]) {
        0 => {
            if !b.is_empty() {
                // most of the structure is at the beginning
                let n = if g.bool() { b.len().min(24) } else { b.len() };
                let i = g.us(n);
                let old = b[i];
                b[i] = match g.us(4) {
                    0 => old ^ (1 << g.us(8)),
                    1 => 0,
                    2 => 0xff,
                    _ => g.below(256) as u8,
                };
                *log += &format!("byte {} from {:02x} to {:02x}; ", i, old, b[i]);
            }
        }
        1 => {
            let n = g.us(b.len() + 1);
            b.truncate(n);
            *log += &format!("cut off at {}; ", n);
        }
        2 => {
            let i = g.us(b.len() + 1);
            let n = g.range(1, 12);
            let x: Vec<u8> = (0..n).map(|_| g.below(256) as u8).collect();
            *log += &format!("{:02x?} inserted at {}; ", x, i);
            b.splice(i..i, x);
        }
        3 => {
            let i = g.us(b.len() + 1);
            let j = i + g.us(b.len() - i + 1);
            b.drain(i..j);
            *log += &format!("bytes {}..{} removed; ", i, j);
        }
        4 => {
            let i = g.us(b.len() + 1);
            let j = i + g.us(b.len() - i + 1);
            for x in &mut b[i..j] {
                *x = 0;
            }
            *log += &format!("bytes {}..{} zeroed; ", i, j);
        }
        6 => {
            // a large number, perhaps where the second part begins
            let i = if g.bool() { first } else { g.us(b.len() + 1) };
            let large: [&[u8]; 4] = [&[0xff, 0xff, 0xff, 0xff, 0x0f], &[0xff, 0xff, 0xff, 0x7f], &[0xff; 8], &[0x7f, 0xff, 0xff, 0xff]];
            let x = *g.pick(&large);
            for (k, y) in x.iter().enumerate() {
                if i + k < b.len() {
                    b[i + k] = *y;
                }
            }
            *log += &format!("bytes {}.. to {:02x?}; ", i, x);
        }
        _ => {
            let n = g.us(80);
            *b = (0..n).map(|_| g.below(256) as u8).collect();
            *log += &format!("replaced with {:02x?}; ", b);
        }
    });
}

/// A damaged file.
pub struct Damage {
    original: Vec<u8>,
    pub what: String,
    /// the bytes are others now
    pub real: bool,
    pub empty: bool,
    pub gone: bool,
}

impl Damage {
    pub fn inflict(g: &mut Gen, path: &Path) -> Res<Damage> {
        let original = std::fs::read(path).or_vio("HARNESS: file to damage")?;
        let mut d = Damage { original, what: String::new(), real: true, empty: false, gone: false };
        match g.weighted(&[20, 1, 1]) {
            0 => {
                let mut b = d.original.clone();
                damage_bytes(g, &mut b, &mut d.what);
                d.real = b != d.original;
                d.empty = b.is_empty();
                std::fs::write(path, &b).expect("scratch");
            }
            1 => {
                d.what = "removed".into();
                d.gone = true;
                std::fs::remove_file(path).expect("scratch");
            }
            _ => {
                d.what = "a directory instead".into();
                d.gone = true;
                std::fs::remove_file(path).expect("scratch");
                std::fs::create_dir(path).expect("scratch");
            }
        }
        Ok(d)
    }
    pub fn repair(&self, path: &Path) {
        if path.is_dir() {
            std::fs::remove_dir_all(path).expect("scratch");
        }
        std::fs::write(path, &self.original).expect("scratch");
    }
}

fn streams(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut v = vec![];
    g.many(0, 20, 6, |g, _| v.push(gen_kval(g)));
    let mut b = vec![];
    encode(&v, &mut b).or_vio("encoding")?;
    let original = b.clone();
    let mut log = String::new();
    damage_bytes(g, &mut b, &mut log);
    cx.sample = Some(format!("{} values; {}", v.len(), log));
    cx.nontrivial_if(b != original && !b.is_empty());
    let r = quiet("decoding damaged data", || decode(&mut &b[..]))?;
    match r {
        Ok((_, n)) => {
            cx.label("decoded");
            if n > b.len() {
                vio!("{} bytes were read of {}", n, b.len());
            }
        }
        Err(_) => cx.label("refused"),
    }
    let again = decode(&mut &original[..]).or_vio("decoding the undamaged data afterwards")?;
    if again.0.len() != v.len() {
        vio!("the undamaged data decode to {} values, {} were encoded", again.0.len(), v.len());
    }
    Ok(())
}

fn diffs(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts::default());
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let root = load_source(&dir)?;
    let mut log = vec![];
    let nodes = gen_tree(g, &s, root, s.initial(), 2, 8, &OpOpts::default(), &mut log)?;
    let base = if g.bool() { 0 } else { nodes[2].parent.unwrap_or(0) };
    let good = diff(&nodes[base].root, &nodes[2].root)?;
    let mut text = String::new();
    let tries = 6;
    for _ in 0..tries {
        let mut b = good.clone();
        text.clear();
        g.span(|g| damage_bytes(g, &mut b, &mut text));
        cx.count("damaged differences", 1);
        cx.nontrivial_if(b != good && !b.is_empty());
        cx.sample = Some(format!("source {} operations {} damage {}", clip(&schema_text(&s)), clip(&ops_text(&log)), text));
        let mut target = nodes[base].root.clone();
        match quiet("applying a damaged difference", || dochy_diff::apply_diff(&mut target, &mut &b[..]))? {
            Ok(()) => {
                cx.label("applied");
                quiet("reading a document after a damaged difference", || observe(&s, &target))?;
                quiet("copying a document after a damaged difference", || drop(target.clone()))?;
            }
            Err(_) => cx.label("refused"),
        }
    }
    let mut target = nodes[base].root.clone();
    dochy_diff::apply_diff(&mut target, &mut &good[..]).or_vio("applying the undamaged difference afterwards")?;
    check_doc(&s, &nodes[2].doc, &target, "undamaged difference applied afterwards")
}

fn archives(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts::default());
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let good = archive_of(&dir)?;
    for k in 0..4 {
        let mut b;
        let mut text = String::new();
        if k == 0 {
            // damaged text in an intact archive
            let d2 = cx.dir();
            for (n, t) in print_source(&s, &Style::plain()) {
                let mut t = t.into_bytes();
                if g.bool() {
                    text += &format!("{}: ", n);
                    g.span(|g| {
                        g.many(1, 3, 1, |g, _| {
                            let i = g.us(t.len() + 1);
                            match g.us(3) {
                                0 if i < t.len() => {
                                    t[i] = *g.pick(b"{}[]\",:0a?!@# ");
                                    text += &format!("byte {} {:?}; ", i, t[i] as char);
                                }
                                1 => {
                                    let n = g.us(t.len() - i + 1).min(20);
                                    t.drain(i..i + n);
                                    text += &format!("{} bytes at {} removed; ", n, i);
                                }
                                _ => {
                                    t.truncate(i);
                                    text += &format!("cut off at {}; ", i);
                                }
                            }
                        })
                    });
                }
                std::fs::write(d2.join(n), t).expect("scratch");
            }
            b = match quiet("archiving damaged text", || {
                let mut v = vec![];
                dochy_core::archive_src_dir(&d2, &mut v).map(|_| v)
            })? {
                Ok(v) => v,
                Err(_) => continue,
            };
        } else {
            b = good.clone();
            g.span(|g| damage_bytes(g, &mut b, &mut text));
        }
        cx.count("damaged archives", 1);
        cx.nontrivial_if(b != good && !b.is_empty());
        cx.sample = Some(format!("source {} damage {}", clip(&schema_text(&s)), text));
        let validation = g.bool();
        match quiet("reading a damaged archive", || dochy_core::read_archive_to_root(&mut &b[..], validation))? {
            Ok(root) => {
                cx.label("read");
                quiet("reading the document of a damaged archive", || drop(root.clone()))?;
            }
            Err(_) => cx.label("refused"),
        }
    }
    let root = dochy_core::read_archive_to_root(&mut &good[..], true).or_vio("reading the undamaged archive afterwards")?;
    check_doc(&s, &s.initial(), &root, "undamaged archive read afterwards")
}
