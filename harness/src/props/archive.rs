//! A01: archives and hashes of directories.

use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::ensure;
use dochy_archiver2::*;
use std::collections::BTreeMap;
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A01",
        suites: vec![suite("trees", trees, 80000, 2_000_000), suite("sources", sources, 20000, 500_000)],
        rule: "trees: at least two files are archived, or a file is left out; sources: the source has at least one member",
        level: "exploration",
        assumptions: &["file names are valid Unicode", "a 128-bit hash collision does not happen by accident"],
    }]
}

type Tree = BTreeMap<String, Vec<u8>>;

const EXTS: &[&str] = &["json5", "json", "txt", "JSON5", "jso", "a"];

fn gen_name(g: &mut Gen) -> String {
    let stem = match g.us(4) {
        0 => g.sel(&["a", "b", "c", "ab", "root"]).to_string(),
        1 => g.sel(&["日本", "é", "A", "a b", "-", "a.b", "0"]).to_string(),
        2 => {
            let n = g.range(1, 3);
            (0..n).map(|_| *g.pick(&['a', 'b', '.', '0', '_', '~', '!'])).collect::<String>() + "x"
        }
        _ => "n".repeat(g.range(1, 60)),
    };
    match g.us(3) {
        0 => stem + "." + g.sel(EXTS),
        1 => stem + ".json5",
        _ => stem,
    }
}

fn gen_content(g: &mut Gen) -> Vec<u8> {
    match g.weighted(&[4, 4, 2, 1, 1]) {
        0 => g.sel(&["", "a", "ab", "{}", "\0", "0"]).as_bytes().to_vec(),
        1 => {
            let n = g.us(12);
            (0..n).map(|_| g.below(256) as u8).collect()
        }
        2 => {
            // around the block sizes of the hash
            let n = g.range(24, 70);
            (0..n).map(|_| b'a' + g.below(2) as u8).collect()
        }
        3 => {
            // compressible
            let n = g.range(1, 40);
            let k = g.range(1, 3000);
            gen_string(g).as_bytes().iter().cloned().chain(std::iter::once(b'x')).cycle().take(n * k).collect()
        }
        _ => {
            let n = g.range(1, 100_000);
            let mut s = g.u64();
            (0..n)
                .map(|_| {
                    s = mix(s);
                    s as u8
                })
                .collect()
        }
    }
}

fn gen_path(g: &mut Gen, dirs: &[String]) -> String {
    if g.chance(1, 2) {
        let d = g.pick(dirs).clone();
        if !d.is_empty() {
            return d + "/" + &gen_name(g);
        }
    }
    gen_name(g)
}

/// no file at a place where another path needs a directory
fn fits(t: &Tree, dirs: &[String], p: &str) -> bool {
    !t.contains_key(p) && !dirs.iter().any(|d| d == p || d.starts_with(&(p.to_string() + "/"))) && p.split('/').all(|n| n.len() < 200)
}

fn write_tree(g: &mut Gen, t: &Tree, dirs: &[String], at: &Path) {
    for d in dirs {
        std::fs::create_dir_all(at.join(d)).expect("scratch");
    }
    // in any order
    let mut names: Vec<&String> = t.keys().collect();
    while !names.is_empty() {
        let i = g.us(names.len());
        let n = names.remove(i);
        std::fs::write(at.join(n), &t[n]).expect("scratch");
    }
}

fn expected(t: &Tree, exts: &[&str], sub: bool) -> Tree {
    t.iter()
        .filter(|(p, _)| sub || !p.contains('/'))
        .filter(|(p, _)| {
            let name = p.rsplit('/').next().unwrap();
            let ext = match name.rfind('.') {
                Some(i) if i > 0 => &name[i + 1..],
                _ => "",
            };
            exts.is_empty() || exts.contains(&ext)
        })
        .map(|(p, c)| (p.clone(), c.clone()))
        .collect()
}

type Data = ArchiveData<(String, Vec<u8>)>;

fn conv(p: &str, b: &[u8]) -> (String, Vec<u8>) {
    (p.to_string(), b.to_vec())
}

fn same(d: &Data, want: &Tree, what: &str) -> Res<()> {
    let names: Vec<&String> = d.btree().keys().collect();
    ensure!(names == want.keys().collect::<Vec<_>>(), "{}: files {:?}, expected {:?}", what, names, want.keys().collect::<Vec<_>>());
    for (p, i) in d.btree() {
        ensure!(i.raw_data().as_ref() == &want[p], "{}: contents of {:?} differ", what, p);
        ensure!(i.converted_data() == &(p.clone(), want[p].clone()), "{}: what was converted for {:?} differs", what, p);
    }
    Ok(())
}

fn opts(exts: &[&str], sub: bool) -> Res<ArchiveOptions> {
    let mut b = ArchiveOptionsBuilder::new().archive_subfolders(sub);
    for e in exts {
        b = b.add_extension(e);
    }
    b.build().or_vio("archive options")
}

fn trees(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut dirs = vec![String::new()];
    g.many(0, 4, 2, |g, _| {
        let base = g.pick(&dirs).clone();
        let n = g.sel(&["sub", "a", "b", "d.json5", "日", "sub2"]);
        let d = if base.is_empty() { n.to_string() } else { base + "/" + n };
        if !dirs.contains(&d) {
            dirs.push(d);
        }
    });
    let mut t = Tree::new();
    let max = if g.chance(1, 20) { 40 } else { 8 };
    g.many(0, max, 5, |g, _| {
        let p = gen_path(g, &dirs);
        if fits(&t, &dirs, &p) {
            t.insert(p, gen_content(g));
        }
    });
    let sub = !g.chance(1, 3);
    let mut exts: Vec<&str> = vec![];
    if g.chance(1, 2) {
        g.many(1, 3, 2, |g, _| exts.push(EXTS[g.us(EXTS.len())]));
        if g.chance(1, 6) {
            exts.push("");
        }
    }
    let opt = opts(&exts, sub)?;
    let want = expected(&t, &exts, sub);
    cx.sample = Some(format!("extensions {:?}, subfolders {}, {}", exts, sub, t.iter().map(|(p, c)| format!("{:?} ({} bytes)", p, c.len())).collect::<Vec<_>>().join(", ")));
    cx.nontrivial_if(want.len() >= 2 || want.len() < t.len());
    if want.len() < t.len() {
        cx.label("files left out");
    }

    let place = cx.dir();
    write_tree(g, &t, &dirs, &place);
    let a = read_archive_data_from_directory(&place, &opt, conv).or_vio("reading a directory")?;
    same(&a, &want, "directory")?;
    let hash = a.hash();

    let mut bytes = vec![];
    write_archive(&a, &mut bytes).or_vio("writing an archive")?;
    let extra = if g.bool() { vec![] } else { vec![7u8; g.range(1, 9)] };
    let n = bytes.len();
    bytes.extend(&extra);
    let mut r: &[u8] = &bytes;
    let b = read_archive(conv, &mut r).or_vio("reading an archive")?;
    ensure!(r == &extra[..], "reading an archive of {} bytes left {} of {} that follow", n, r.len(), extra.len());
    same(&b, &want, "archive")?;
    ensure!(b.hash() == hash, "the hash of the archive {:x} is not the one of the directory {:x}", b.hash(), hash);
    let mut again = vec![];
    write_archive(&b, &mut again).or_vio("writing an archive")?;
    bytes.truncate(n);
    ensure!(again == bytes, "an archive that was read is written differently");

    // the same files at another place, written in another order
    let other = cx.dir();
    write_tree(g, &t, &dirs, &other);
    let c = read_archive_data_from_directory(&other, &opt, |_, _| ()).or_vio("reading a directory")?;
    ensure!(c.hash() == hash, "the same files at another place have the hash {:x}, not {:x}", c.hash(), hash);

    // one change
    let mut t2 = t.clone();
    let keys: Vec<String> = t.keys().cloned().collect();
    let what = match g.us(9) {
        0 if !keys.is_empty() => {
            let k = g.pick(&keys);
            let v = t2.get_mut(k).unwrap();
            if !v.is_empty() {
                let i = g.us(v.len());
                v[i] ^= 1 << g.us(8);
            }
            "altered byte"
        }
        1 if !keys.is_empty() => {
            let k = g.pick(&keys);
            t2.get_mut(k).unwrap().push(*g.pick(&[0, b'a', 255]));
            "appended byte"
        }
        2 if !keys.is_empty() => {
            let k = g.pick(&keys);
            t2.get_mut(k).unwrap().pop();
            "removed byte"
        }
        3 if !keys.is_empty() => {
            let k = g.pick(&keys).clone();
            t2.remove(&k);
            "removed file"
        }
        4 if !keys.is_empty() => {
            let k = g.pick(&keys).clone();
            let v = t2.remove(&k).unwrap();
            let p = match g.us(8) {
                0 => k.clone() + g.sel(&[" ", ".", "/", "\t", "~"]).trim_end_matches('/'),
                1 => k.to_lowercase(),
                _ => gen_path(g, &dirs),
            };
            if fits(&t, &dirs, &p) {
                t2.insert(p, v);
            }
            "renamed file"
        }
        5 if keys.len() >= 2 => {
            let (i, j) = (g.us(keys.len()), g.us(keys.len()));
            t2.insert(keys[i].clone(), t[&keys[j]].clone());
            t2.insert(keys[j].clone(), t[&keys[i]].clone());
            "swapped contents"
        }
        6 if !keys.is_empty() => {
            // the end of the name becomes the start of the contents or the other way round
            let k = g.pick(&keys).clone();
            let v = t2.remove(&k).unwrap();
            let cut = k.char_indices().last().unwrap().0;
            let short = k[..cut].to_string();
            if g.bool() && !short.is_empty() && !short.ends_with(|c| c == '/' || c == '.') && fits(&t2, &dirs, &short) {
                let mut n = k[cut..].as_bytes().to_vec();
                n.extend(&v);
                t2.insert(short, n);
            } else if v.get(0).map_or(false, |c| c.is_ascii_alphanumeric()) {
                let long = format!("{}{}", k, v[0] as char);
                if fits(&t2, &dirs, &long) {
                    t2.insert(long, v[1..].to_vec());
                } else {
                    t2.insert(k, v);
                }
            } else {
                t2.insert(k, v);
            }
            "moved boundary of name and contents"
        }
        7 if keys.len() >= 2 => {
            // the start of a file's contents goes to the end of the one before
            let i = g.us(keys.len() - 1);
            let v = t2.get_mut(&keys[i + 1]).unwrap();
            let n = g.us(v.len() + 1);
            let rest = v.split_off(n);
            let first = std::mem::replace(v, rest);
            t2.get_mut(&keys[i]).unwrap().extend(first);
            "moved contents to the file before"
        }
        _ => {
            let p = gen_path(g, &dirs);
            if fits(&t, &dirs, &p) {
                t2.insert(p, gen_content(g));
            }
            "added file"
        }
    };
    let want2 = expected(&t2, &exts, sub);
    let changed = cx.dir();
    write_tree(g, &t2, &dirs, &changed);
    let d = read_archive_data_from_directory(&changed, &opt, conv).or_vio("reading a directory")?;
    same(&d, &want2, what)?;
    if want2 == want {
        cx.label("change not archived");
        ensure!(d.hash() == hash, "{}: the hash changed to {:x} although the archived files are the same", what, d.hash());
    } else {
        cx.label(what);
        ensure!(d.hash() != hash, "{}: the hash of the changed files is {:x} as before", what, hash);
    }
    Ok(())
}

/// Sources: read from the directory, from an archive file and from a stream.
fn sources(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts::default());
    cx.sample = Some(clip(&schema_text(&s)));
    cx.nontrivial_if(!s.mems.is_empty());
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    if g.bool() {
        std::fs::write(dir.join("notes.txt"), "not a source").expect("scratch");
    }
    if g.bool() {
        std::fs::create_dir(dir.join("sub")).expect("scratch");
        std::fs::write(dir.join("sub/root.json5"), "not a source").expect("scratch");
    }
    let v = g.bool();
    let (root, hash) = dochy_core::json_dir_to_root_with_hash(&dir, v).or_vio("reading a source")?;
    let path = cx.dir().join("src");
    let mut f = std::fs::File::create(&path).expect("scratch");
    dochy_core::archive_src_dir(&dir, &mut f).or_vio("archiving a source")?;
    drop(f);
    let (root2, hash2) = dochy_core::archive_file_to_root_with_hash(&path, v).or_vio("reading an archive")?;
    let bytes = std::fs::read(&path).expect("scratch");
    let (root3, hash3) = dochy_core::read_archive_to_root_with_hash(&mut &bytes[..], v).or_vio("reading an archive")?;
    ensure!(hash == hash2 && hash == hash3, "hashes of a source {:x}, its archive {:x}, read as a stream {:x}", hash, hash2, hash3);
    let doc = s.initial();
    check_doc(&s, &doc, &root, "document from a directory")?;
    check_doc(&s, &doc, &root2, "document from an archive")?;
    check_doc(&s, &doc, &root3, "document from a stream")
}
