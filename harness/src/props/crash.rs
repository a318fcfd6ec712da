//! K01, K02: file operations that fail, and processes that die while saving.

use super::history::Op as HOp;
use super::store::*;
use super::{suite, Prop};
use crate::engine::*;
use crate::faults::{self, Fault};
use crate::model::*;
use crate::{ensure, vio};
use dochy_core::structs::RootObject;
use dochy_fs::common::{get_hash_times, hash_dir_path, CurrentSrc};
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use dochy_fs::FsResult;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "K01",
            suites: vec![suite("histories", k01_histories, 25000, 600_000), suite("files", k01_files, 25000, 600_000)],
            rule: "an operation of a save or removal failed, or the saving process died in it, after at least one file had been saved",
            level: "exploration",
            assumptions: &[
                "what a process had written before it died is kept by the file system in the order of writing",
                "operations that only ask whether a file exists do not fail",
            ],
        },
        Prop {
            id: "K02",
            suites: vec![suite("histories", k02_histories, 20000, 500_000), suite("files", k02_files, 20000, 500_000), suite("sources", sources, 20000, 500_000)],
            rule: "a read failed, or reads and writes were done piecemeal, while documents or sources were loaded, listed, opened or saved",
            level: "exploration",
            assumptions: &["operations that only ask for a file's attributes do not fail"],
        },
    ]
}

fn k01_histories(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    histories(g, cx, true)
}
fn k02_histories(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    histories(g, cx, false)
}
fn k01_files(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    files(g, cx, true)
}
fn k02_files(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    files(g, cx, false)
}

fn arm(g: &mut Gen, f: Fault, changes: usize) -> String {
    let (pass, part) = match f {
        Fault::Crash | Fault::Change => (g.weighted(&[4, 4, 4, 4, 3, 3, 3, 2, 2, 2, 1, 1][..changes]) as u64, *g.pick(&[0, 1, 40, 128, 255])),
        Fault::Read => {
            let n = if g.bool() { 4 } else { 40 };
            (g.below(n), 0)
        }
        Fault::Dribble => (*g.pick(&[1, 2, 3, 7, 64, 4096]), 0),
    };
    let errno = *g.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE]);
    faults::arm(f, pass, part, errno);
    format!("{:?} {}", f, pass)
}

/// Runs a call with a fault. Gives its result, and whether the fault took effect.
fn with_fault<T>(g: &mut Gen, f: Option<Fault>, log: &mut Vec<String>, call: impl FnOnce() -> FsResult<T>) -> Res<(Result<T, String>, bool)> {
    fault_within(12, g, f, log, call)
}

/// the same, with the fault in one of the first `changes` operations that change something
fn fault_within<T>(changes: usize, g: &mut Gen, f: Option<Fault>, log: &mut Vec<String>, call: impl FnOnce() -> FsResult<T>) -> Res<(Result<T, String>, bool)> {
    let f = match f {
        Some(f) => f,
        None => {
            return match no_panic(call) {
                Ok(r) => Ok((r.map_err(|e| e.to_string()), false)),
                Err(p) => vio!("a call panicked: {}", p),
            }
        }
    };
    let t = arm(g, f, changes);
    let r = no_panic(call);
    let hit = faults::disarm();
    if hit {
        log.push(format!("[{}]", t));
    }
    match r {
        Ok(r) => Ok((r.map_err(|e| e.to_string()), hit)),
        // a process that dies does not get that far
        Err(p) if f == Fault::Crash => Ok((Err(p), hit)),
        Err(p) => vio!("a call panicked when a file operation failed: {}", p),
    }
}

fn change_fault(g: &mut Gen) -> Option<Fault> {
    match g.weighted(&[3, 4, 4, 1]) {
        0 => None,
        1 => Some(Fault::Crash),
        2 => Some(Fault::Change),
        _ => Some(Fault::Dribble),
    }
}

fn read_fault(g: &mut Gen) -> Option<Fault> {
    match g.weighted(&[2, 5, 2]) {
        0 => None,
        1 => Some(Fault::Read),
        _ => Some(Fault::Dribble),
    }
}

/// the source as it was opened
fn opened(s: &Schema, root: &RootObject) -> Res<()> {
    let (want, got) = (show_doc(s, &s.initial()), observe(s, root));
    ensure!(want == got, "the source was read wrongly: {}", diff_text(&want, &got));
    Ok(())
}

struct HFile {
    ver: usize,
    name: String,
    doc: Doc,
    text: String,
}

struct HWorld {
    v: Vers,
    opt: HistoryOptions,
    op: HOp,
    dir: PathBuf,
    src: CurrentSrc,
    info: HistoryInfo,
    live: Live,
    /// the files that have to be there
    files: Vec<HFile>,
    /// files that may be there, and need not load
    doomed: BTreeSet<(u128, String)>,
    log: Vec<String>,
    hits: usize,
}

impl HWorld {
    fn new(g: &mut Gen, cx: &mut Cx) -> Res<HWorld> {
        let op = HOp::gen(g);
        let opt = op.build(g)?;
        let mut v = Vers::first(g);
        let dir = cx.dir();
        let src = v.place(g, cx)?;
        let info = HistoryInfo::create(&dir, src.clone(), &opt).or_vio("opening a history directory")?;
        v.hash(info.hash())?;
        let live = Live { doc: v.schema().initial(), root: info.clone_src_root(), key: 1 };
        Ok(HWorld { v, opt, op, dir, src, info, live, files: vec![], doomed: BTreeSet::new(), log: vec![], hits: 0 })
    }
    /// Another process opens the directory.
    fn elsewhere(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        self.elsewhere_with(g, cx, None)
    }
    fn elsewhere_with(&mut self, g: &mut Gen, cx: &mut Cx, fault: Option<Fault>) -> Res<()> {
        self.log.push(format!("opened elsewhere with source {}", self.v.cur));
        self.src = self.v.place(g, cx)?;
        self.opt = self.op.build(g)?;
        self.dir = move_dir(cx, &self.dir);
        let (dir, src, opt) = (&self.dir, &self.src, &self.opt);
        let (r, hit) = with_fault(g, fault, &mut self.log, || HistoryInfo::create(dir, src.clone(), opt))?;
        self.info = match r {
            Ok(i) => i,
            Err(e) => {
                ensure!(hit && fault == Some(Fault::Read), "opening a history directory failed: {}", e);
                HistoryInfo::create(dir, src.clone(), opt).or_vio("opening a history directory again")?
            }
        };
        if hit {
            cx.label("opened");
            self.hits += 1;
        }
        self.v.hash(self.info.hash())?;
        opened(self.v.schema(), &self.info.clone_src_root())?;
        self.live = Live { doc: self.v.schema().initial(), root: self.info.clone_src_root(), key: self.live.key + 1 };
        Ok(())
    }
    fn key(&self, f: &HFile) -> (u128, String) {
        (self.v.vers[f.ver].hash, f.name.clone())
    }
    fn listed(&self) -> Res<BTreeSet<(u128, String)>> {
        let h = list_histories(&self.info).or_vio("listing histories")?;
        let l = h.list_files();
        let s: BTreeSet<(u128, String)> = l.iter().map(|d| (d.hash(), d.props().calc_filename())).collect();
        ensure!(s.len() == l.len(), "a file is listed twice");
        Ok(s)
    }
    /// the files that are listed besides those that have to be
    fn extra(&mut self) -> Res<Vec<(u128, String)>> {
        let l = self.listed()?;
        for f in &self.files {
            ensure!(l.contains(&self.key(f)), "{} is not listed any more", f.name);
        }
        let known: BTreeSet<_> = self.files.iter().map(|f| self.key(f)).collect();
        self.doomed.retain(|d| l.contains(d));
        Ok(l.into_iter().filter(|x| !known.contains(x) && !self.doomed.contains(x)).collect())
    }
    fn load(&self, g: &mut Gen, ver: usize, name: &str, fault: Option<Fault>, log: &mut Vec<String>) -> Res<(Result<RootObject, String>, bool)> {
        let validation = g.bool();
        let h = list_histories(&self.info).or_vio("listing histories")?;
        let l = h.list_files();
        let hash = self.v.vers[ver].hash;
        let d = match l.iter().find(|d| d.hash() == hash && d.props().calc_filename() == name) {
            Some(d) => d,
            None => vio!("{} is not listed", name),
        };
        with_fault(g, fault, log, || load_history_file_data(&self.info, d, validation))
    }
    fn judge(&self, f: &HFile, r: Result<RootObject, String>, hit: bool, fault: Option<Fault>) -> Res<Option<(Doc, RootObject)>> {
        match (self.v.converted(f.ver, &f.doc), r) {
            (Ok(d), Ok(root)) => {
                let want = if f.ver == self.v.cur { f.text.clone() } else { show_doc(self.v.schema(), &d) };
                let got = observe(self.v.schema(), &root);
                ensure!(got == want, "loaded {}: {}", f.name, diff_text(&want, &got));
                Ok(Some((d, root)))
            }
            (Ok(_), Err(e)) => {
                ensure!(hit && fault == Some(Fault::Read), "{} does not load: {}", f.name, e);
                Ok(None)
            }
            // documents that do not fit the current source
            (Err(_), _) => Ok(None),
        }
    }
    fn check(&mut self, g: &mut Gen) -> Res<()> {
        let extra = self.extra()?;
        ensure!(extra.is_empty(), "files that were never saved are listed: {:?}", extra);
        let mut log = vec![];
        for f in &self.files {
            let (r, _) = self.load(g, f.ver, &f.name, None, &mut log)?;
            self.judge(f, r, false, None)?;
        }
        // what was loaded counts as the document being edited; it is gone
        Ok(())
    }
    fn saved(&mut self, name: String, doc: Doc) {
        let text = show_doc(self.v.schema(), &doc);
        self.files.push(HFile { ver: self.v.cur, name, doc, text });
    }
    fn save(&mut self, g: &mut Gen, cx: &mut Cx, fault: Option<Fault>) -> Res<()> {
        let tag = if g.chance(1, 4) { Some(g.sel(&["a", "tag", ""]).to_string()) } else { None };
        let nb = fault != Some(Fault::Crash) && g.chance(1, 6);
        let mut log = std::mem::take(&mut self.log);
        let (info, root) = (&self.info, &self.live.root);
        log.push(format!("doc{} saved{}", self.live.key, if nb { " in the background" } else { "" }));
        let r = with_fault(g, fault, &mut log, || {
            if nb {
                let (tx, rx) = std::sync::mpsc::channel();
                save_history_file_nb(info, tag, root, move |r| {
                    let _ = tx.send(r);
                });
                rx.recv_timeout(std::time::Duration::from_secs(120)).unwrap_or_else(|_| panic!("a background save did not report"))
            } else {
                save_history_file(info, tag, root)
            }
        });
        self.log = log;
        let (r, hit) = r?;
        if hit {
            cx.label(match fault.unwrap() {
                Fault::Crash => "died while saving",
                Fault::Change => "operation of a save failed",
                Fault::Read => "read of a save failed",
                Fault::Dribble => "saved piecemeal",
            });
            if !self.files.is_empty() && fault != Some(Fault::Dribble) {
                self.hits += 1;
            }
        }
        let doc = self.live.doc.clone();
        if hit && fault == Some(Fault::Crash) {
            self.elsewhere(g, cx)?;
            // the file is there as a whole, or not at all
            let mut extra = self.extra()?;
            ensure!(extra.len() <= 1, "files that were never saved are listed: {:?}", extra);
            if let Some((h, n)) = extra.pop() {
                cx.label("saved before it died");
                ensure!(h == self.v.vers[self.v.cur].hash, "a file that was never saved is listed: {}", n);
                self.log.push(format!("-> {}", n));
                self.saved(n, doc);
            }
            return self.check(g);
        }
        match r {
            Ok(p) => {
                self.log.push(format!("-> {}", p.calc_filename()));
                self.saved(p.calc_filename(), doc);
            }
            Err(e) => {
                ensure!(hit && fault != Some(Fault::Dribble), "saving failed: {}", e);
                self.log.push("failed".into());
                let extra = self.extra()?;
                ensure!(extra.is_empty(), "a save that failed left a file behind: {:?}", extra);
            }
        }
        Ok(())
    }
    fn remove(&mut self, g: &mut Gen, cx: &mut Cx, fault: Option<Fault>) -> Res<()> {
        let h = list_histories(&self.info).or_vio("listing histories")?;
        let l: Vec<(u128, String)> = h.list_files().iter().map(|d| (d.hash(), d.props().calc_filename())).collect();
        if l.is_empty() || !self.doomed.is_empty() {
            return Ok(());
        }
        let here: Vec<FileNameProps> = h.list_files().iter().filter(|d| d.hash() == self.info.hash()).map(|d| d.props().clone()).collect();
        if g.bool() && !here.is_empty() {
            return self.remove_some(g, cx, fault, h, here);
        }
        let n = g.range(1, l.len() + 1);
        let mut log = std::mem::take(&mut self.log);
        log.push(format!("all but the newest {} removed", n));
        let dir = &self.dir;
        let r = fault_within(5, g, fault, &mut log, || h.remove_old_files(n, dir));
        self.log = log;
        let (r, hit) = r?;
        if hit && fault != Some(Fault::Dribble) {
            cx.label(if fault == Some(Fault::Crash) { "died while removing" } else { "operation of a removal failed" });
            self.hits += 1;
        } else if let Err(e) = r {
            vio!("removing failed: {}", e);
        }
        if hit && fault == Some(Fault::Crash) {
            self.elsewhere(g, cx)?;
        }
        let keep: BTreeSet<(u128, String)> = l[l.len() - n.min(l.len())..].iter().cloned().collect();
        let (stay, go): (Vec<HFile>, Vec<HFile>) = std::mem::take(&mut self.files).into_iter().partition(|f| keep.contains(&(self.v.vers[f.ver].hash, f.name.clone())));
        self.files = stay;
        self.doomed.extend(go.iter().map(|f| (self.v.vers[f.ver].hash, f.name.clone())));
        self.check(g)?;
        if !self.doomed.is_empty() {
            // the same again, without trouble, leaves only what is needed
            let h = list_histories(&self.info).or_vio("listing histories")?;
            h.remove_old_files(n, &self.dir).or_vio("removing old files again")?;
            self.check(g)?;
        }
        Ok(())
    }
}

impl HWorld {
    /// Removes what is not needed for some files of the current version.
    fn remove_some(&mut self, g: &mut Gen, cx: &mut Cx, fault: Option<Fault>, h: FileHistories, here: Vec<FileNameProps>) -> Res<()> {
        let keep: Vec<bool> = here.iter().map(|_| g.chance(2, 5)).collect();
        let hash = self.info.hash();
        let history = match h.iter().find(|x| x.0 == hash) {
            Some(x) => &x.1,
            None => vio!("the current version is not listed"),
        };
        let remover = HistoryRemover::from(history);
        for (p, k) in here.iter().zip(&keep) {
            if *k {
                ensure!(remover.keep(p).is_some(), "{} can not be kept", p.calc_filename());
            }
        }
        let removable: BTreeSet<String> = remover.get_removable_props().iter().map(|p| p.calc_filename()).collect();
        let mut log = std::mem::take(&mut self.log);
        log.push(format!("{:?} removed", removable));
        let dir = hash_dir_path(&self.dir, hash);
        let r = fault_within(5, g, fault, &mut log, || Ok(remover.remove(&dir)));
        self.log = log;
        let (r, hit) = r?;
        let left: BTreeSet<String> = removable.iter().filter(|n| dir.join(n).exists()).cloned().collect();
        if hit && fault != Some(Fault::Dribble) {
            cx.label(if fault == Some(Fault::Crash) { "died while removing" } else { "operation of a removal failed" });
            self.hits += 1;
        }
        match r {
            Ok(failed) => {
                // what could not be removed is reported
                let failed: BTreeSet<String> = failed.iter().filter_map(|p| p.file_name()).map(|n| n.to_string_lossy().to_string()).collect();
                ensure!(failed == left, "{:?} could not be removed, but {:?} was reported", left, failed);
            }
            Err(e) => ensure!(hit && fault == Some(Fault::Crash), "removing failed: {}", e),
        }
        let cur = self.v.cur;
        let (go, stay): (Vec<HFile>, Vec<HFile>) = std::mem::take(&mut self.files).into_iter().partition(|f| f.ver == cur && removable.contains(&f.name));
        self.files = stay;
        self.doomed.extend(go.iter().map(|f| (hash, f.name.clone())));
        if hit && fault == Some(Fault::Crash) {
            self.elsewhere(g, cx)?;
        }
        self.check(g)
    }
}

/// The faults have to reach the code under test.
fn hooked(cx: &mut Cx) -> Res<()> {
    static WORKS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    if !WORKS.load(std::sync::atomic::Ordering::SeqCst) {
        assert!(faults::works(&cx.dir()), "HARNESS: file operations do not pass through the hooks");
        WORKS.store(true, std::sync::atomic::Ordering::SeqCst);
    }
    Ok(())
}

fn histories(g: &mut Gen, cx: &mut Cx, changes: bool) -> Res<()> {
    hooked(cx)?;
    let mut w = HWorld::new(g, cx)?;
    let mut r = Ok(());
    g.many(4, 30, 12, |g, _| {
        if r.is_ok() {
            r = history_step(g, cx, &mut w, changes);
        }
    });
    if r.is_ok() {
        r = history_end(g, cx, &mut w);
    }
    let _ = faults::disarm();
    cx.sample = Some(format!("source {} {:?}; {}", clip(&schema_text(&w.v.vers[0].schema)), w.op, w.log.join(" | ")));
    cx.nontrivial_if(w.hits > 0);
    if r.is_ok() {
        let _ = unsafe { init_dochy_cache_us(&w.dir, w.src.clone(), &w.opt) };
    }
    r
}

fn history_end(g: &mut Gen, cx: &mut Cx, w: &mut HWorld) -> Res<()> {
    w.check(g)?;
    w.elsewhere(g, cx)?;
    w.check(g)?;
    // the sources of the files are still there
    w.v.change(g);
    w.elsewhere(g, cx)?;
    w.check(g)?;
    w.save(g, cx, None)?;
    w.check(g)
}

fn history_step(g: &mut Gen, cx: &mut Cx, w: &mut HWorld, changes: bool) -> Res<()> {
    match g.weighted(&[6, 8, 4, if changes { 2 } else { 0 }, 1, 1]) {
        0 => {
            let s = w.v.schema().clone();
            edit(g, &s, &mut w.live, &mut w.log)
        }
        1 => {
            let f = if changes { change_fault(g) } else { read_fault(g) };
            w.save(g, cx, f)
        }
        2 => {
            if w.files.is_empty() {
                return Ok(());
            }
            let i = g.us(w.files.len());
            let fault = if changes { None } else { read_fault(g) };
            if !changes && g.chance(1, 4) {
                // a list is complete, or an error
                let mut log = vec![];
                let info = &w.info;
                let (r, hit) = with_fault(g, fault, &mut log, || list_histories(info))?;
                w.log.push(format!("listed {}", log.join("")));
                match r {
                    Ok(h) => {
                        let got: BTreeSet<(u128, String)> = h.list_files().iter().map(|d| (d.hash(), d.props().calc_filename())).collect();
                        let want: BTreeSet<_> = w.files.iter().map(|f| w.key(f)).collect();
                        ensure!(got == want, "listed {:?} when a read failed, there are {:?}", got, want);
                    }
                    Err(e) => ensure!(hit && fault == Some(Fault::Read), "listing failed: {}", e),
                }
                if hit {
                    cx.label("listed");
                    w.hits += 1;
                }
                return Ok(());
            }
            let name = w.files[i].name.clone();
            let mut log = std::mem::take(&mut w.log);
            log.push(format!("doc{} loaded from {}", w.live.key, name));
            let r = w.load(g, w.files[i].ver, &name, fault, &mut log);
            w.log = log;
            let (r, hit) = r?;
            if hit {
                cx.label(if r.is_ok() { "loaded all the same" } else { "load failed" });
                w.hits += 1;
            }
            if let Some((doc, root)) = w.judge(&w.files[i], r, hit, fault)? {
                w.live = Live { doc, root, key: w.live.key };
            } else if hit {
                // nothing is left of the failure
                let (r, _) = w.load(g, w.files[i].ver, &name, None, &mut vec![])?;
                w.judge(&w.files[i], r, false, None)?;
            }
            Ok(())
        }
        3 => {
            let f = change_fault(g);
            w.remove(g, cx, f)
        }
        4 => {
            w.v.change(g);
            let f = if changes { None } else { read_fault(g) };
            w.elsewhere_with(g, cx, f)
        }
        _ => {
            if g.bool() {
                w.elsewhere(g, cx)?;
            }
            w.check(g)
        }
    }
}

// ------------------------------------------------------------------ save directories

struct Saved {
    doc: Doc,
    text: String,
}

struct FWorld {
    v: Vers,
    dir: PathBuf,
    info: SaveDirInfo,
    live: Live,
    files: BTreeMap<(usize, String), Saved>,
    log: Vec<String>,
    hits: usize,
}

impl FWorld {
    fn new(g: &mut Gen, cx: &mut Cx) -> Res<FWorld> {
        let mut v = Vers::first(g);
        let dir = cx.dir();
        let src = v.place(g, cx)?;
        let info = SaveDirInfo::create(&dir, src).or_vio("opening a save directory")?;
        v.hash(info.hash())?;
        let live = Live { doc: v.schema().initial(), root: info.clone_src_root(), key: 1 };
        Ok(FWorld { v, dir, info, live, files: BTreeMap::new(), log: vec![], hits: 0 })
    }
    fn elsewhere(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        self.elsewhere_with(g, cx, None)
    }
    fn elsewhere_with(&mut self, g: &mut Gen, cx: &mut Cx, fault: Option<Fault>) -> Res<()> {
        self.log.push(format!("opened elsewhere with source {}", self.v.cur));
        let src = self.v.place(g, cx)?;
        self.dir = move_dir(cx, &self.dir);
        let dir = &self.dir;
        let (r, hit) = with_fault(g, fault, &mut self.log, || SaveDirInfo::create(dir, src.clone()))?;
        self.info = match r {
            Ok(i) => i,
            Err(e) => {
                ensure!(hit && fault == Some(Fault::Read), "opening a save directory failed: {}", e);
                SaveDirInfo::create(dir, src).or_vio("opening a save directory again")?
            }
        };
        if hit {
            cx.label("opened");
            self.hits += 1;
        }
        self.v.hash(self.info.hash())?;
        opened(self.v.schema(), &self.info.clone_src_root())?;
        self.live = Live { doc: self.v.schema().initial(), root: self.info.clone_src_root(), key: self.live.key + 1 };
        Ok(())
    }
    fn path(&self, ver: usize, name: &str) -> PathBuf {
        hash_dir_path(&self.dir, self.v.vers[ver].hash).join(name)
    }
    fn listed(&self) -> Res<BTreeSet<(u128, String)>> {
        let l = list_dochy_files(&self.dir).or_vio("listing files")?;
        Ok(l.iter().map(|f| (f.hash(), f.name().to_string())).collect())
    }
    fn wanted(&self) -> BTreeSet<(u128, String)> {
        self.files.keys().map(|(v, n)| (self.v.vers[*v].hash, n.clone())).collect()
    }
    /// What a file loads as: the text of the document, if it does.
    fn judge(&self, ver: usize, name: &str, s: &Saved, r: Result<RootObject, String>, may_fail: bool) -> Res<Option<(Doc, RootObject)>> {
        match (self.v.converted(ver, &s.doc), r) {
            (Ok(d), Ok(root)) => {
                let want = if ver == self.v.cur { s.text.clone() } else { show_doc(self.v.schema(), &d) };
                let got = observe(self.v.schema(), &root);
                ensure!(got == want, "loaded {:?}: {}", name, diff_text(&want, &got));
                Ok(Some((d, root)))
            }
            (Ok(_), Err(e)) => {
                ensure!(may_fail, "{:?} does not load: {}", name, e);
                Ok(None)
            }
            (Err(_), _) => Ok(None),
        }
    }
    fn check(&self, g: &mut Gen) -> Res<()> {
        let (got, want) = (self.listed()?, self.wanted());
        ensure!(got == want, "listed {:?}, expected {:?}", got, want);
        for ((ver, name), s) in &self.files {
            let validation = g.bool();
            let (r, _) = with_fault(g, None, &mut vec![], || load_dochy_file(self.path(*ver, name), &self.info, validation))?;
            self.judge(*ver, name, s, r, false)?;
        }
        Ok(())
    }
    fn save(&mut self, g: &mut Gen, cx: &mut Cx, fault: Option<Fault>) -> Res<()> {
        let name = g.sel(&["a", "b", "c", "名前"]).to_string();
        let overwrite = g.chance(2, 3);
        let nb = fault != Some(Fault::Crash) && g.chance(1, 6);
        let key = (self.v.cur, name.clone());
        let new = Saved { doc: self.live.doc.clone(), text: show_doc(self.v.schema(), &self.live.doc) };
        let mut log = std::mem::take(&mut self.log);
        log.push(format!("doc{} saved as {:?}{}", self.live.key, name, if overwrite { ", overwriting" } else { "" }));
        let (info, root) = (&self.info, &self.live.root);
        let r = with_fault(g, fault, &mut log, || {
            if nb {
                let (tx, rx) = std::sync::mpsc::channel();
                save_dochy_file_nb(info, &name, root, overwrite, move |r| {
                    let _ = tx.send(r);
                });
                rx.recv_timeout(std::time::Duration::from_secs(120)).unwrap_or_else(|_| panic!("a background save did not report"))
            } else {
                save_dochy_file(info, &name, root, overwrite)
            }
        });
        self.log = log;
        let (r, hit) = r?;
        let refused = !overwrite && self.files.contains_key(&key);
        if hit {
            cx.label(match fault.unwrap() {
                Fault::Crash => "died while saving",
                Fault::Change => "operation of a save failed",
                Fault::Read => "read of a save failed",
                Fault::Dribble => "saved piecemeal",
            });
            if !self.files.is_empty() && fault != Some(Fault::Dribble) {
                self.hits += 1;
            }
        }
        let died = hit && fault == Some(Fault::Crash);
        if died {
            self.elsewhere(g, cx)?;
        }
        match (&r, died) {
            (Ok(_), false) => {
                ensure!(!refused, "a file was overwritten without permission");
                self.files.insert(key, new);
            }
            (Err(e), false) if refused => {
                let _ = e;
            }
            (Err(e), false) => {
                ensure!(hit && fault != Some(Fault::Dribble), "saving failed: {}", e);
                self.log.push("failed".into());
                self.check(g)?;
            }
            (_, true) => {
                // the file is the former one, if there was one, or the new one as a whole
                let l = self.listed()?;
                let id = (self.v.vers[self.v.cur].hash, name.clone());
                if l.contains(&id) && !refused {
                    let p = self.path(key.0, &name);
                    let (r, _) = with_fault(g, None, &mut vec![], || load_dochy_file(p, &self.info, true))?;
                    match r {
                        Ok(root) => {
                            if observe(self.v.schema(), &root) == new.text {
                                cx.label("saved before it died");
                                self.files.insert(key, new);
                            }
                        }
                        Err(e) => vio!("{:?} does not load after a save of it was cut off: {}", name, e),
                    }
                }
                self.check(g)?;
            }
        }
        Ok(())
    }
    fn remove(&mut self, g: &mut Gen, cx: &mut Cx, fault: Option<Fault>) -> Res<()> {
        if self.files.is_empty() {
            return Ok(());
        }
        let k = g.us(self.files.len());
        let (ver, name) = self.files.keys().nth(k).cloned().unwrap();
        let mut log = std::mem::take(&mut self.log);
        log.push(format!("{:?} removed", name));
        let (dir, hash) = (&self.dir, self.v.vers[ver].hash);
        let r = fault_within(1, g, fault, &mut log, || remove_dochy_file(dir, hash, &name));
        self.log = log;
        let (r, hit) = r?;
        if hit && fault == Some(Fault::Crash) {
            self.elsewhere(g, cx)?;
        }
        if hit && fault != Some(Fault::Dribble) {
            self.hits += 1;
            cx.label("operation of a removal failed");
            if !self.listed()?.contains(&(hash, name.clone())) {
                self.files.remove(&(ver, name));
            }
        } else {
            if let Err(e) = r {
                vio!("removing failed: {}", e);
            }
            self.files.remove(&(ver, name));
        }
        self.check(g)
    }
}

fn files(g: &mut Gen, cx: &mut Cx, changes: bool) -> Res<()> {
    hooked(cx)?;
    let mut w = FWorld::new(g, cx)?;
    let mut r = Ok(());
    g.many(4, 30, 12, |g, _| {
        if r.is_ok() {
            r = file_step(g, cx, &mut w, changes);
        }
    });
    if r.is_ok() {
        r = file_end(g, cx, &mut w);
    }
    let _ = faults::disarm();
    cx.sample = Some(format!("source {}; {}", clip(&schema_text(&w.v.vers[0].schema)), w.log.join(" | ")));
    cx.nontrivial_if(w.hits > 0);
    r
}

fn file_end(g: &mut Gen, cx: &mut Cx, w: &mut FWorld) -> Res<()> {
    w.check(g)?;
    w.elsewhere(g, cx)?;
    w.check(g)?;
    w.v.change(g);
    w.elsewhere(g, cx)?;
    w.check(g)?;
    w.save(g, cx, None)?;
    w.check(g)
}

fn file_step(g: &mut Gen, cx: &mut Cx, w: &mut FWorld, changes: bool) -> Res<()> {
    match g.weighted(&[6, 8, 4, if changes { 2 } else { 0 }, 1, 1]) {
        0 => {
            let s = w.v.schema().clone();
            edit(g, &s, &mut w.live, &mut w.log)
        }
        1 => {
            let f = if changes { change_fault(g) } else { read_fault(g) };
            w.save(g, cx, f)
        }
        2 => {
            let fault = if changes { None } else { read_fault(g) };
            if w.files.is_empty() {
                return Ok(());
            }
            if !changes && g.chance(1, 8) {
                let mut log = vec![];
                let dir = &w.dir;
                let want = get_hash_times(dir).or_vio("listing source versions")?;
                let (r, hit) = with_fault(g, fault, &mut log, || get_hash_times(dir))?;
                w.log.push(format!("listed source versions {}", log.join("")));
                match r {
                    Ok(l) => ensure!(l == want, "source versions {:x?} when a read failed, expected {:x?}", l, want),
                    Err(e) => ensure!(hit && fault == Some(Fault::Read), "listing source versions failed: {}", e),
                }
                if hit {
                    cx.label("source versions listed");
                    w.hits += 1;
                }
                return Ok(());
            }
            if !changes && g.chance(1, 4) {
                let mut log = vec![];
                let dir = &w.dir;
                let (r, hit) = with_fault(g, fault, &mut log, || list_dochy_files(dir))?;
                w.log.push(format!("listed {}", log.join("")));
                match r {
                    Ok(l) => {
                        let got: BTreeSet<(u128, String)> = l.iter().map(|f| (f.hash(), f.name().to_string())).collect();
                        let want = w.wanted();
                        ensure!(got == want, "listed {:?} when a read failed, there are {:?}", got, want);
                    }
                    Err(e) => ensure!(hit && fault == Some(Fault::Read), "listing failed: {}", e),
                }
                if hit {
                    cx.label("listed");
                    w.hits += 1;
                }
                return Ok(());
            }
            let k = g.us(w.files.len());
            let (ver, name) = w.files.keys().nth(k).cloned().unwrap();
            let validation = g.bool();
            let mut log = std::mem::take(&mut w.log);
            log.push(format!("doc{} loaded from {:?}", w.live.key, name));
            let p = w.path(ver, &name);
            let info = &w.info;
            let r = with_fault(g, fault, &mut log, || load_dochy_file(p, info, validation));
            w.log = log;
            let (r, hit) = r?;
            if hit {
                cx.label(if r.is_ok() { "loaded all the same" } else { "load failed" });
                w.hits += 1;
            }
            let s = &w.files[&(ver, name.clone())];
            if let Some((doc, root)) = w.judge(ver, &name, s, r, hit && fault == Some(Fault::Read))? {
                w.live = Live { doc, root, key: w.live.key };
            }
            Ok(())
        }
        3 => {
            let f = change_fault(g);
            w.remove(g, cx, f)
        }
        4 => {
            w.v.change(g);
            let f = if changes { None } else { read_fault(g) };
            w.elsewhere_with(g, cx, f)
        }
        _ => {
            if g.bool() {
                w.elsewhere(g, cx)?;
            }
            w.check(g)
        }
    }
}

// ------------------------------------------------------------------ sources

/// Sources and their archives are read and written.
fn sources(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    hooked(cx)?;
    let s = gen_store_schema(g);
    let dir = cx.dir();
    for (n, t) in print_source(&s, &Style::plain()) {
        std::fs::write(dir.join(n), t).expect("scratch");
    }
    let path = cx.dir().join("archive");
    let (_, hash) = dochy_core::json_dir_to_root_with_hash(&dir, true).or_vio("reading a source")?;
    let mut log = vec![];
    let mut hits = 0;
    let mut archived = false;
    for _ in 0..g.range(2, 6) {
        let what = g.us(if archived { 3 } else { 2 });
        let f = if what == 1 && g.bool() { Fault::Change } else { read_fault(g).unwrap_or(Fault::Read) };
        let t = arm(g, f, 6);
        let r = no_panic(|| match what {
            0 => dochy_core::json_dir_to_root_with_hash(&dir, true).map(Some).map_err(|e| e.to_string()),
            1 => {
                let mut file = std::fs::File::create(&path).map_err(|e| e.to_string())?;
                dochy_core::archive_src_dir(&dir, &mut file).map(|_| None).map_err(|e| e.to_string())
            }
            _ => {
                let mut file = std::fs::File::open(&path).map_err(|e| e.to_string())?;
                dochy_core::read_archive_to_root_with_hash(&mut file, true).map(Some).map_err(|e| e.to_string())
            }
        });
        let hit = faults::disarm();
        hits += hit as usize;
        let what = ["source read", "source archived", "archive read"][what];
        log.push(format!("{} [{}]", what, t));
        cx.sample = Some(format!("source {}; {}", clip(&schema_text(&s)), log.join(" | ")));
        let r = match r {
            Ok(r) => r,
            Err(p) => vio!("{}: panicked when a file operation failed: {}", what, p),
        };
        if hit {
            cx.label(&format!("{}{}", what, if r.is_ok() { "" } else { ", failed" }));
        }
        match r {
            Ok(Some((root, h))) => {
                opened(&s, &root)?;
                ensure!(h == hash, "{}: the hash is {:x}, it was {:x}", what, h, hash);
            }
            Ok(None) => {
                archived = true;
                let mut file = std::fs::File::open(&path).expect("scratch");
                let (root, h) = dochy_core::read_archive_to_root_with_hash(&mut file, true).or_vio("reading an archive whose writing was reported as done")?;
                opened(&s, &root)?;
                ensure!(h == hash, "the archive's hash is {:x}, it was {:x}", h, hash);
            }
            Err(e) => {
                ensure!(hit && f != Fault::Dribble, "{} failed: {}", what, e);
                if what == "source archived" {
                    archived = false;
                }
            }
        }
    }
    cx.nontrivial_if(hits > 0);
    Ok(())
}
