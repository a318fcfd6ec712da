//! F01, F02, F03: directories of saved documents.

use super::store::*;
use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_fs::common::{get_hash_times, hash, hash_dir_path, hash_dir_paths, remove_hash_dir};
use dochy_fs::filesys::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "F01",
            suites: vec![suite("saves", saves, 40000, 1_000_000), suite("large_values", super::large::file_values, 150, 3000)],
            rule: "a document that differs from its source was saved and loaded, and at least two files were saved",
            level: "exploration",
            assumptions: &["file names are plain names, without path separators"],
        },
        Prop {
            id: "F02",
            suites: vec![suite("versions", versions, 30000, 800_000)],
            rule: "a file saved under another source version was loaded",
            level: "exploration",
            assumptions: &["the source is not edited between opening a directory and the first save into it"],
        },
        Prop {
            id: "F03",
            suites: vec![suite("listings", listings, 40000, 1_000_000), suite("names", names, 300000, 5_000_000), suite("many_files", super::large::many_files, 800, 15_000)],
            rule: "listings: at least two files were listed while foreign files or directories, or several versions, were present; names: every case",
            level: "exploration",
            assumptions: &["a foreign directory whose name is 32 lower-case hexadecimal digits is not distinguishable from one of the directory's own"],
        },
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Saves,
    Versions,
    Listings,
}

fn saves(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Saves)
}
fn versions(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Versions)
}
fn listings(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Listings)
}

struct Saved {
    doc: Doc,
    text: String,
}

struct World {
    v: Vers,
    dir: PathBuf,
    info: SaveDirInfo,
    live: Vec<Live>,
    files: BTreeMap<(usize, String), Saved>,
    /// versions that have a directory, with the creation time once seen
    dirs: Vec<(usize, Option<std::time::SystemTime>)>,
    /// between which times they were made
    born: BTreeMap<usize, (std::time::SystemTime, std::time::SystemTime)>,
    next_key: u64,
    log: Vec<String>,
    foreign: usize,
    saved_changed: bool,
}

const NAMES: &[&str] = &["a", "b", "file.dochy", "with space", "名前", ".hidden", "_0_0.his", "src.archive2", "x#y", "0", "é", "root.json5", "Src.archive", "new\nline"];

fn pick_name(g: &mut Gen) -> String {
    match g.weighted(&[30, 1, 1]) {
        0 => {
            let n = if g.chance(3, 4) { 4 } else { NAMES.len() };
            NAMES[g.us(n)].to_string()
        }
        1 => gen_name(g),
        _ => g.sel(&["src.archive", "created_time.dat"]).to_string(),
    }
}

impl World {
    fn new(g: &mut Gen, cx: &mut Cx) -> Res<World> {
        let mut v = Vers::first(g);
        let dir = cx.dir();
        let src = v.place(g, cx)?;
        let info = SaveDirInfo::create(&dir, src).or_vio("opening a save directory")?;
        v.hash(info.hash())?;
        let mut w = World { v, dir, info, live: vec![], files: BTreeMap::new(), dirs: vec![], born: BTreeMap::new(), next_key: 0, log: vec![], foreign: 0, saved_changed: false };
        w.check_opened()?;
        w.fresh_live();
        Ok(w)
    }
    fn fresh_live(&mut self) {
        let doc = self.v.schema().initial();
        let root = self.info.clone_src_root();
        self.next_key += 1;
        self.live.push(Live { doc, root, key: self.next_key });
    }
    fn check_opened(&self) -> Res<()> {
        let doc = self.v.schema().initial();
        check_doc(self.v.schema(), &doc, &self.info.clone_src_root(), "document of an opened directory")?;
        ensure!(self.info.save_dir() == self.dir, "the directory reports another path");
        Ok(())
    }
    /// another process opens the directory, perhaps with another source
    fn reopen(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        self.live.clear();
        let src = self.v.place(g, cx)?;
        if g.chance(1, 3) {
            self.log.push(format!("source {} taken over in the same process", self.v.cur));
            self.info = unsafe { force_update_and_get_info_us(&self.dir, src) }.or_vio("replacing the source")?;
        } else {
            self.log.push(format!("opened elsewhere with source {}", self.v.cur));
            self.dir = move_dir(cx, &self.dir);
            self.info = SaveDirInfo::create(&self.dir, src).or_vio("opening a save directory")?;
        }
        self.v.hash(self.info.hash())?;
        self.check_opened()?;
        self.fresh_live();
        Ok(())
    }
    fn hash_of(&self, ver: usize) -> u128 {
        self.v.vers[ver].hash
    }
    fn path_of(&self, ver: usize, name: &str) -> PathBuf {
        hash_dir_path(&self.dir, self.hash_of(ver)).join(name)
    }
    fn save(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        let k = g.us(self.live.len());
        let name = pick_name(g);
        let overwrite = g.bool();
        let nb = g.chance(1, 8);
        let cur = self.v.cur;
        let key = (cur, name.clone());
        let reserved = name == "src.archive" || name == "created_time.dat";
        let exists = self.files.contains_key(&key);
        let before = if exists || reserved { std::fs::read(self.path_of(cur, &name)).ok() } else { None };
        self.log.push(format!("doc{} saved as {:?}{}{}", self.live[k].key, name, if overwrite { ", overwriting" } else { "" }, if nb { ", in the background" } else { "" }));
        let (since, clock) = (std::time::SystemTime::now(), std::time::Instant::now());
        let r = if nb {
            let (tx, rx) = std::sync::mpsc::channel();
            save_dochy_file_nb(&self.info, &name, &self.live[k].root, overwrite, move |r| {
                let _ = tx.send(r);
            });
            match rx.recv_timeout(std::time::Duration::from_secs(60)) {
                Ok(r) => r,
                Err(_) => vio!("a background save never reported its result"),
            }
        } else {
            save_dochy_file(&self.info, &name, &self.live[k].root, overwrite)
        };
        if reserved {
            cx.label("reserved name");
            ensure!(r.is_err(), "saving as {} was not refused", name);
            ensure!(std::fs::read(self.path_of(cur, &name)).ok() == before, "refused save changed {}", name);
            return Ok(());
        }
        if !self.dirs.iter().any(|d| d.0 == cur) {
            self.dirs.push((cur, None));
            self.born.remove(&cur);
            // unless the clock was set meanwhile
            let until = std::time::SystemTime::now();
            let passed = until.duration_since(since).map(|d| d.as_secs_f64()).unwrap_or(-1.0);
            if (passed - clock.elapsed().as_secs_f64()).abs() < 0.01 {
                self.born.insert(cur, (since, until));
            }
        }
        if exists && !overwrite {
            cx.label("overwriting refused");
            ensure!(r.is_err(), "saving over {:?} without permission was not refused", name);
            ensure!(std::fs::read(self.path_of(cur, &name)).ok() == before, "refused save changed {:?}", name);
            return Ok(());
        }
        let path = r.or_vio("saving")?;
        ensure!(path == self.path_of(cur, &name), "saved as {:?}, expected {:?}", path, self.path_of(cur, &name));
        if exists {
            cx.label("overwritten");
        }
        let text = show_doc(self.v.schema(), &self.live[k].doc);
        if text != show_doc(self.v.schema(), &self.v.schema().initial()) {
            self.saved_changed = true;
        }
        self.files.insert(key, Saved { doc: self.live[k].doc.clone(), text });
        Ok(())
    }
    fn load(&mut self, g: &mut Gen, cx: &mut Cx, ver: usize, name: &str, adopt: bool) -> Res<()> {
        let validation = g.bool();
        let path = self.path_of(ver, name);
        let r = match no_panic(|| load_dochy_file(&path, &self.info, validation)) {
            Ok(r) => r,
            Err(p) => vio!("loading panicked: {}", p),
        };
        let f = &self.files[&(ver, name.to_string())];
        if ver != self.v.cur {
            cx.label("loaded from another version");
        }
        match self.v.converted(ver, &f.doc) {
            Ok(d) => {
                let root = r.or_vio("loading a saved file")?;
                let want = if ver == self.v.cur { f.text.clone() } else { show_doc(self.v.schema(), &d) };
                let got = observe(self.v.schema(), &root);
                ensure!(got == want, "loaded {:?}: {}", name, diff_text(&want, &got));
                if adopt {
                    self.log.push(format!("loaded {:?} of source {}", name, ver));
                    self.next_key += 1;
                    let l = Live { doc: d, root, key: self.next_key };
                    if self.live.len() >= 3 {
                        let k = g.us(self.live.len());
                        self.live[k] = l;
                    } else {
                        self.live.push(l);
                    }
                }
            }
            Err(e) => {
                cx.label("loading refused, rightly");
                if validation && r.is_ok() {
                    vio!("a file that doesn't fit the current source was loaded ({})", e);
                }
            }
        }
        Ok(())
    }
    fn check_all(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        let keys: Vec<(usize, String)> = self.files.keys().cloned().collect();
        for (ver, name) in keys {
            self.load(g, cx, ver, &name, false)?;
        }
        Ok(())
    }
    fn check_list(&mut self, cx: &mut Cx) -> Res<()> {
        let list = list_dochy_files(&self.dir).or_vio("listing files")?;
        let mut got: Vec<(u128, String)> = list.iter().map(|f| (f.hash(), f.name().to_string())).collect();
        let mut want: Vec<(u128, String)> = self.files.keys().map(|(v, n)| (self.hash_of(*v), n.clone())).collect();
        got.sort();
        want.sort();
        ensure!(got == want, "listed files {:?}, expected {:?}", got, want);
        for w in list.windows(2) {
            ensure!(w[0].modified() <= w[1].modified(), "files are not listed by modification time: {:?} before {:?}", w[0], w[1]);
        }
        for f in &list {
            let ver = self.v.with_hash(f.hash()).or_vio("HARNESS: hash")?;
            let path = f.calc_path(&self.dir);
            ensure!(path == self.path_of(ver, f.name()), "path {:?} of a listed file", path);
            let m = std::fs::metadata(&path).or_vio("listed file")?;
            ensure!(f.len() == m.len() && f.modified() == m.modified().expect("mtime"), "listed {:?}, but its length is {}", f, m.len());
        }
        let times = get_hash_times(&self.dir).or_vio("listing source versions")?;
        let got: Vec<u128> = times.iter().map(|t| t.0).collect();
        let want: Vec<u128> = self.dirs.iter().map(|d| self.hash_of(d.0)).collect();
        ensure!(got == want, "listed source versions {:x?}, expected {:x?}", got, want);
        for (t, d) in times.iter().zip(self.dirs.iter_mut()) {
            match d.1 {
                None => {
                    let now = std::time::SystemTime::now();
                    let age = now.duration_since(t.1).unwrap_or_default().as_secs();
                    ensure!(age < 3600, "creation time {:?} of a new source version", t.1);
                    if let Some((since, until)) = self.born.get(&d.0) {
                        let slack = std::time::Duration::from_millis(50);
                        ensure!(*since <= t.1 + slack && t.1 <= *until + slack, "creation time {:?} of a source version made between {:?} and {:?}", t.1, since, until);
                    }
                    d.1 = Some(t.1);
                }
                Some(x) => ensure!(x == t.1, "creation time of a source version changed from {:?} to {:?}", x, t.1),
            }
        }
        let paths: Vec<PathBuf> = hash_dir_paths(&self.dir).or_vio("listing source directories")?.collect();
        let want: Vec<PathBuf> = self.dirs.iter().map(|d| hash_dir_path(&self.dir, self.hash_of(d.0))).collect();
        ensure!(paths == want, "directories {:?}, expected {:?}", paths, want);
        if list.len() >= 2 {
            if self.dirs.len() > 1 {
                cx.label("listed several versions");
            }
            if self.foreign > 0 {
                cx.label("listed among foreign files");
            }
        }
        Ok(())
    }
    fn remove(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        let keys: Vec<(usize, String)> = self.files.keys().cloned().collect();
        let (ver, name) = if keys.is_empty() || g.chance(1, 4) {
            let v = g.us(self.v.vers.len());
            (v, pick_name(g))
        } else {
            g.pick(&keys).clone()
        };
        if self.hash_of(ver) == 0 {
            return Ok(());
        }
        let reserved = name == "src.archive" || name == "created_time.dat";
        let exists = self.files.contains_key(&(ver, name.clone()));
        self.log.push(format!("removed {:?} of source {}", name, ver));
        let r = remove_dochy_file(&self.dir, self.hash_of(ver), &name);
        if reserved {
            cx.label("reserved name");
            ensure!(r.is_err(), "removing {} was not refused", name);
            let there = self.dirs.iter().any(|d| d.0 == ver);
            ensure!(self.path_of(ver, &name).exists() == there, "{} is gone", name);
        } else if exists {
            r.or_vio("removing a saved file")?;
            ensure!(!self.path_of(ver, &name).exists(), "removed file {:?} is still there", name);
            self.files.remove(&(ver, name));
        } else {
            ensure!(r.is_err(), "removing a file that doesn't exist succeeded: {:?}", name);
        }
        Ok(())
    }
    fn foreign(&mut self, g: &mut Gen) -> Res<()> {
        self.foreign += 1;
        let n = self.foreign;
        let hex: String = (0..32).map(|_| std::char::from_digit(g.below(16) as u32, 16).unwrap()).collect();
        match g.us(8) {
            0 => std::fs::write(self.dir.join(format!("foreign{}", n)), b"x").expect("scratch"),
            1 => std::fs::write(self.dir.join(hex), b"x").expect("scratch"),
            2 => std::fs::create_dir_all(self.dir.join(format!("dir{}", n)).join("src.archive")).expect("scratch"),
            3 => {
                // nearly a directory of a source version
                let name = match g.us(6) {
                    0 => hex[..31].to_string(),
                    1 => format!("{}0", hex),
                    2 => format!("{}g", &hex[..31]),
                    3 => format!("A{}", &hex[1..]),
                    4 => format!("/{}", &hex[1..]).replace('/', ":"),
                    _ => format!("{}é", &hex[..30]),
                };
                let d = self.dir.join(name);
                let _ = std::fs::create_dir(&d);
                std::fs::write(d.join("a"), b"x").expect("scratch");
            }
            4 | 5 if !self.dirs.is_empty() => {
                // a directory among the saved files
                let ver = g.pick(&self.dirs).0;
                let d = self.path_of(ver, &format!("dir{}", n));
                std::fs::create_dir_all(&d).expect("scratch");
                std::fs::write(d.join("a"), b"x").expect("scratch");
            }
            6 if !self.dirs.is_empty() => {
                // another modification time
                let keys: Vec<(usize, String)> = self.files.keys().cloned().collect();
                if !keys.is_empty() {
                    let (v, name) = g.pick(&keys).clone();
                    let secs = g.below(4_000_000_000) as i64 - 1_000_000_000;
                    set_mtime(&self.path_of(v, &name), secs, g.below(1_000_000_000) as i64);
                    self.log.push(format!("time of {:?} set to {}", name, secs));
                }
            }
            _ => std::fs::create_dir_all(self.dir.join(format!("empty{}", n))).expect("scratch"),
        }
        Ok(())
    }
}

fn world(g: &mut Gen, cx: &mut Cx, focus: Focus) -> Res<()> {
    let mut w = World::new(g, cx)?;
    let weights: &[u32] = match focus {
        //             edit new copy save load list remove reopen version foreign drop
        Focus::Saves => &[6, 1, 1, 8, 5, 1, 2, 1, 0, 0, 0],
        Focus::Versions => &[6, 1, 1, 6, 6, 1, 1, 1, 4, 0, 0],
        Focus::Listings => &[3, 1, 1, 8, 1, 4, 4, 1, 2, 5, 1],
    };
    let mut err = None;
    g.many(6, 40, 16, |g, _| {
        if err.is_some() {
            return;
        }
        if let Err(e) = op(g, cx, &mut w, focus, weights) {
            err = Some(e);
        }
    });
    let head = w.v.vers.iter().enumerate().map(|(i, v)| format!("source {}: {}", i, clip(&schema_text(&v.schema)))).collect::<Vec<_>>().join("; ");
    cx.sample = Some(format!("{}; steps: {}", head, w.log.join(" | ")));
    if let Some(e) = err {
        return Err(e);
    }
    w.check_list(cx)?;
    w.check_all(g, cx)?;
    w.reopen(g, cx)?;
    w.check_list(cx)?;
    w.check_all(g, cx)?;
    match focus {
        Focus::Saves => cx.nontrivial_if(w.saved_changed && w.files.len() >= 2),
        Focus::Versions => {
            let b = cx.labels.iter().any(|l| l == "loaded from another version");
            cx.nontrivial_if(b)
        }
        Focus::Listings => {
            let b = cx.labels.iter().any(|l| l.starts_with("listed "));
            cx.nontrivial_if(b)
        }
    }
    Ok(())
}

fn op(g: &mut Gen, cx: &mut Cx, w: &mut World, focus: Focus, weights: &[u32]) -> Res<()> {
    match g.weighted(weights) {
        0 => {
            let k = g.us(w.live.len());
            let s = w.v.vers[w.v.cur].schema.clone();
            edit(g, &s, &mut w.live[k], &mut w.log)
        }
        1 => {
            if w.live.len() < 3 {
                w.fresh_live();
            }
            Ok(())
        }
        2 => {
            if w.live.len() < 3 {
                let k = g.us(w.live.len());
                let (doc, root) = (w.live[k].doc.clone(), w.live[k].root.clone());
                w.next_key += 1;
                w.log.push(format!("doc{} copied as doc{}", w.live[k].key, w.next_key));
                w.live.push(Live { doc, root, key: w.next_key });
            }
            Ok(())
        }
        3 => w.save(g, cx),
        4 => {
            let keys: Vec<(usize, String)> = w.files.keys().cloned().collect();
            if !keys.is_empty() {
                let (v, n) = g.pick(&keys).clone();
                w.load(g, cx, v, &n, true)?;
            }
            Ok(())
        }
        5 => w.check_list(cx),
        6 => w.remove(g, cx),
        7 => {
            w.reopen(g, cx)?;
            if focus != Focus::Listings {
                w.check_all(g, cx)?;
            }
            Ok(())
        }
        8 => {
            w.v.change(g);
            w.reopen(g, cx)
        }
        9 => w.foreign(g),
        _ => {
            // a whole version is thrown away
            if w.dirs.is_empty() {
                return Ok(());
            }
            let i = g.us(w.dirs.len());
            let ver = w.dirs[i].0;
            w.log.push(format!("directory of source {} removed", ver));
            remove_hash_dir(&w.dir, w.hash_of(ver)).or_vio("removing the directory of a version")?;
            w.dirs.remove(i);
            w.files.retain(|k, _| k.0 != ver);
            Ok(())
        }
    }
}

/// Hashes and directory names.
fn names(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut h: u128 = (g.u64() as u128) << 64 | g.u64() as u128;
    match g.us(4) {
        0 => {}
        1 => h >>= g.us(128),
        2 => h = 1u128 << g.us(128),
        _ => h = !(1u128 << g.us(128)),
    }
    cx.nontrivial = true;
    cx.sample = Some(format!("{:032x}", h));
    let n = hash::hash_to_folder_name(h);
    ensure!(n == OsString::from(format!("{:032x}", h)), "name {:?} of the hash {:x}", n, h);
    ensure!(hash::folder_name_to_hash(&n) == Some(h), "name {:?} is read as {:?}", n, hash::folder_name_to_hash(&n));
    // names that are not those of a hash
    let mut b: Vec<char> = format!("{:032x}", h).chars().collect();
    let before = b.clone();
    g.many(1, 4, 1, |g, _| {
        let i = g.us(b.len());
        let c = match g.us(4) {
            0 => (g.below(128) as u8) as char,
            1 => *g.pick(&['g', 'G', 'A', 'F', '/', ':', '`', '@', '\u{0}', ' ', '-', '+', '_', 'x']),
            2 => gen_char(g),
            _ => std::char::from_digit(g.below(16) as u32, 16).unwrap(),
        };
        match g.us(4) {
            0 => b.insert(i, c),
            1 if b.len() > 1 => {
                b.remove(i);
            }
            _ => b[i] = c,
        }
    });
    let t: String = b.iter().collect();
    let valid = b.len() == 32 && b.iter().all(|c| matches!(c, '0'..='9' | 'a'..='f'));
    let want = if valid { u128::from_str_radix(&t, 16).ok() } else { None };
    if b != before {
        cx.label(if valid { "another hash" } else { "not a hash" });
    }
    let got = match no_panic(|| hash::folder_name_to_hash(OsString::from(t.clone()).as_os_str())) {
        Ok(v) => v,
        Err(p) => vio!("reading the name {:?} panicked: {}", t, p),
    };
    ensure!(got == want, "name {:?} is read as {:x?}, expected {:x?}", t, got, want);
    Ok(())
}

/// E01: one file of the directory is damaged; then repaired.
pub fn damaged(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    use super::damage::*;
    let mut w = World::new(g, cx)?;
    let mut err = None;
    g.many(4, 24, 10, |g, _| {
        if err.is_none() {
            err = op(g, cx, &mut w, Focus::Versions, &[6, 1, 1, 6, 1, 0, 1, 1, 2, 0, 0]).err();
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    cx.labels.clear();
    let head = w.v.vers.iter().enumerate().map(|(i, v)| format!("source {}: {}", i, clip(&schema_text(&v.schema)))).collect::<Vec<_>>().join("; ");
    if w.dirs.is_empty() {
        return Ok(());
    }
    let (ver, _) = *g.pick(&w.dirs);
    let mut names: Vec<String> = w.files.keys().filter(|k| k.0 == ver).map(|k| k.1.clone()).collect();
    names.push("src.archive".into());
    names.push("created_time.dat".into());
    let name = names[g.us(names.len())].clone();
    let path = w.path_of(ver, &name);
    let d = Damage::inflict(g, &path)?;
    w.log.push(format!("{:?} of source {} damaged: {}", name, ver, d.what));
    cx.sample = Some(format!("{}; steps: {}", head, w.log.join(" | ")));
    if g.chance(1, 4) {
        // another process, which knows nothing of the file
        w.reopen(g, cx)?;
    }
    quiet("listing files", || list_dochy_files(&w.dir).map(|_| ()))?.or_vio("listing files")?;
    quiet("listing source versions", || get_hash_times(&w.dir).map(|_| ()))?.or_vio("listing source versions")?;
    let keys: Vec<(usize, String)> = w.files.keys().cloned().collect();
    for (v, n) in &keys {
        let uses = *v == ver && (*n == name || name == "src.archive" && *v != w.v.cur);
        if uses {
            let p = w.path_of(*v, n);
            let validation = g.bool();
            let r = quiet("loading a damaged file", || load_dochy_file(&p, &w.info, validation))?;
            cx.nontrivial_if(d.real && !d.empty);
            match r {
                Ok(root) => {
                    cx.label("damaged, loaded");
                    let s = w.v.schema().clone();
                    quiet("reading what was loaded from a damaged file", || observe(&s, &root))?;
                }
                Err(_) => cx.label("damaged, refused"),
            }
        } else {
            w.load(g, cx, *v, n, false)?;
        }
    }
    // saving goes on
    if g.bool() {
        let root = w.info.clone_src_root();
        let r = quiet("saving next to a damaged file", || save_dochy_file(&w.info, "another file", &root, true))?;
        if let Ok(p) = r {
            let root = load_dochy_file(&p, &w.info, true).or_vio("loading a new file next to a damaged one")?;
            check_doc(w.v.schema(), &w.v.schema().initial(), &root, "new file next to a damaged one")?;
            std::fs::remove_file(&p).expect("scratch");
            let cur = w.v.cur;
            if !w.dirs.iter().any(|d| d.0 == cur) {
                w.dirs.push((cur, None));
            }
        }
    }
    d.repair(&w.path_of(ver, &name));
    w.check_all(g, cx)
}
