//! What the checks of save directories and history directories share: source versions, documents
//! being edited.

use super::version::{convert, evolve};
use crate::engine::*;
use crate::model::*;
use crate::ensure;
use dochy_core::structs::RootObject;
use dochy_fs::common::CurrentSrc;
use std::path::{Path, PathBuf};

/// One version of a source definition.
pub struct Ver {
    pub schema: Schema,
    pub text: Vec<(String, String)>,
    pub hash: u128,
}

pub struct Vers {
    pub vers: Vec<Ver>,
    /// the current one
    pub cur: usize,
}

impl Vers {
    pub fn first(g: &mut Gen) -> Vers {
        let s = gen_store_schema(g);
        let mut v = Vers { vers: vec![], cur: 0 };
        v.push(s);
        v
    }
    fn push(&mut self, s: Schema) {
        let text = print_source(&s, &Style::plain());
        match self.vers.iter().position(|v| v.text == text) {
            Some(i) => self.cur = i,
            None => {
                self.vers.push(Ver { schema: s, text, hash: 0 });
                self.cur = self.vers.len() - 1;
            }
        }
    }
    /// goes to another version: a new one, or one that was there before
    pub fn change(&mut self, g: &mut Gen) {
        if self.vers.len() > 1 && g.chance(1, 3) {
            self.cur = g.us(self.vers.len());
        } else {
            let n = evolve(g, &self.vers[self.cur].schema);
            self.push(n);
        }
    }
    pub fn schema(&self) -> &Schema {
        &self.vers[self.cur].schema
    }
    /// Writes the current version to a new place and learns its hash.
    pub fn place(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<CurrentSrc> {
        let dir = cx.dir();
        let v = &mut self.vers[self.cur];
        for (n, t) in &v.text {
            std::fs::write(dir.join(n), t).expect("scratch");
        }
        let src = if g.chance(1, 3) {
            cx.label("source given as archive");
            let path = cx.dir().join("any.name");
            let mut f = std::fs::File::create(&path).expect("scratch");
            dochy_core::archive_src_dir(&dir, &mut f).or_vio("archiving a source")?;
            drop(f);
            // the directory is not needed any more
            std::fs::remove_dir_all(&dir).expect("scratch");
            CurrentSrc::from_archive_file(path)
        } else {
            CurrentSrc::from_src_dir(dir)
        };
        Ok(src)
    }
    /// the hash that an opened directory reports for the current version
    pub fn hash(&mut self, hash: u128) -> Res<()> {
        let cur = self.cur;
        let v = &mut self.vers[cur];
        if v.hash == 0 {
            v.hash = hash;
            ensure!(hash != 0, "HARNESS: hash 0");
            for (i, o) in self.vers.iter().enumerate() {
                ensure!(i == cur || o.hash != hash, "two different sources have the same hash {:x}", hash);
            }
        } else {
            ensure!(v.hash == hash, "the hash of the same source was {:x}, now {:x}", v.hash, hash);
        }
        Ok(())
    }
    pub fn with_hash(&self, hash: u128) -> Option<usize> {
        self.vers.iter().position(|v| v.hash == hash)
    }
    /// the document of version `ver` as it has to be in the current version
    pub fn converted(&self, ver: usize, d: &Doc) -> Result<Doc, String> {
        if ver == self.cur {
            Ok(d.clone())
        } else {
            convert(&self.vers[ver].schema, d, self.schema())
        }
    }
}

/// Random sources, and ones with a few strings, whose differences have sizes that can be chosen.
pub fn gen_store_schema(g: &mut Gen) -> Schema {
    if g.chance(2, 5) {
        let n = g.range(2, 6);
        let mut s = Schema::default();
        for i in 0..n {
            let vt = gen_vt(g);
            s.mems.push(RMem::Param(PDef { name: format!("text{}", i), ty: Ty::Str, vt, def: Val::Str(String::new()) }));
        }
        s
    } else {
        gen_schema(g, &Opts { wide: 0, ..Opts::default() })
    }
}

pub struct Live {
    pub doc: Doc,
    pub root: RootObject,
    pub key: u64,
}

pub fn edit(g: &mut Gen, s: &Schema, l: &mut Live, log: &mut Vec<String>) -> Res<()> {
    let texts: Vec<String> = s.params().iter().filter(|p| p.name.starts_with("text") && p.ty == Ty::Str).map(|p| p.name.clone()).collect();
    if texts.len() >= 2 {
        let mut err = None;
        let k = l.key;
        g.many(0, 4, 2, |g, _| {
            let n = g.pick(&texts).clone();
            let base = *g.pick(&[0usize, 8, 40, 200, 1000, 6000]);
            let len = base + g.us(base / 2 + 1);
            let c = (b'a' + g.us(26) as u8) as char;
            // not compressible to nothing
            let mut x = g.below(1 << 16);
            let t: String = (0..len)
                .map(|_| {
                    x = mix(x);
                    if x % 3 == 0 { c } else { (b'a' + (x >> 8) as u8 % 26) as char }
                })
                .collect();
            let mut v = Val::Str(t);
            if g.chance(1, 6) {
                if let Some(x) = l.doc.vals.get(&n).and_then(|v| gen_near(g, v)) {
                    v = x;
                }
            }
            let op = Op::SetRoot(n.clone(), Ty::Str, v);
            let a = apply_model(s, &mut l.doc, &op);
            let b = apply_real(s, &mut l.root, &op);
            if a != b || !a {
                err = Some(Fail::Violation(format!("setting {} reported {}", n, b)));
            }
            log.push(format!("doc{}.{}={}x{}", k, n, c, len));
        });
        if let Some(e) = err {
            return Err(e);
        }
    }
    let mut ops = vec![];
    if g.chance(1, 500) {
        // larger than what buffers hold
        let large: Vec<&PDef> = s.params().into_iter().filter(|p| matches!(p.ty, Ty::Str | Ty::Bin | Ty::Ints | Ty::Floats)).collect();
        if !large.is_empty() {
            let p = *g.pick(&large);
            let n = *g.pick(&[4097, 8193, 32769, 65536, 66000, 140_000]);
            let v = super::large::gen_sized(g, p.ty, n);
            log.push(format!("doc{}.{}=large({})", l.key, p.name, n));
            let op = Op::SetRoot(p.name.clone(), p.ty, v);
            let a = apply_model(s, &mut l.doc, &op);
            let b = apply_real(s, &mut l.root, &op);
            ensure!(a && b, "setting {} to a large value reported {}", p.name, b);
        }
    }
    let mut err = None;
    let avg = if texts.len() >= 2 { 1 } else { 4 };
    g.many(0, 12, avg, |g, _| {
        if err.is_none() {
            if let Err(e) = step(g, s, &mut l.doc, &mut l.root, &OpOpts::default(), &mut ops) {
                err = Some(e);
            }
        }
    });
    if !ops.is_empty() {
        log.push(format!("doc{}: {}", l.key, ops_text(&ops)));
    }
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// Moves a directory to a path nothing in the process knows.
pub fn move_dir(cx: &mut Cx, from: &Path) -> PathBuf {
    let to = cx.dir().join("moved");
    std::fs::rename(from, &to).expect("scratch rename");
    to
}

pub fn set_mtime(p: &Path, secs: i64, nanos: i64) {
    use std::os::unix::ffi::OsStrExt;
    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).expect("path");
    let t = libc::timespec { tv_sec: secs, tv_nsec: nanos };
    let ts = [t, t];
    let r = unsafe { libc::utimensat(libc::AT_FDCWD, c.as_ptr(), ts.as_ptr(), 0) };
    assert!(r == 0, "HARNESS: utimensat");
}

/// a name that a file may have or part of one
pub fn gen_name(g: &mut Gen) -> String {
    let s: String = match g.us(5) {
        0 => {
            let n = g.range(1, 20);
            (0..n).map(|_| gen_char(g)).collect()
        }
        1 => g.sel(&["n", "N", "é", "あ"]).repeat(g.range(1, 60)),
        2 => {
            let base = g.sel(&["a", "b", "A", "src", "created_time", "dochy_1_0", "_0", ""]).to_string();
            base + g.sel(&[".tmp", ".bak", "~", ".his", ".dat", ".archive", ".json5", " ", ".", ".lock", "_", ".0", "0"])
        }
        3 => g.sel(&["A", "B", "FILE.dochy", "a ", " a", "a.", "-a", "a(", "Ab", "aB"]).to_string(),
        _ => format!("{:032x}", g.u64()),
    };
    let s: String = s.chars().filter(|c| *c != '/' && *c != '\0').collect();
    if s.is_empty() || s == "." || s == ".." {
        "e".to_string()
    } else {
        s
    }
}
