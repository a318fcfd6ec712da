//! N01: saves in the background.

use super::history::Op as HOp;
use super::store::*;
use super::{suite, Prop, Suite};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_core::structs::RootObject;
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::path::PathBuf;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "N01",
        suites: vec![
            suite("queues", queues, 50000, 1_000_000),
            Suite { deterministic: false, ..suite("threads", threads, 20000, 400_000) },
            Suite { deterministic: false, ..suite("vacant", vacant, 3000, 60_000) },
        ],
        rule: "queues: a document was edited between the request of a save and its execution; threads: at least two threads saved; vacant: a save was asked for while another was seen running before and after",
        level: "exploration",
        assumptions: &["a background save that has not reported after two minutes never will"],
    }]
}

const WAIT: Duration = Duration::from_secs(120);

fn wait<T>(rx: &Receiver<T>) -> Res<T> {
    match rx.recv_timeout(WAIT) {
        Ok(t) => Ok(t),
        Err(RecvTimeoutError::Disconnected) => vio!("the callback of a background save was dropped without being called"),
        Err(RecvTimeoutError::Timeout) => vio!("a background save did not report within {:?}", WAIT),
    }
}

/// A history directory with what was requested.
struct Dir {
    dir: PathBuf,
    src: dochy_fs::common::CurrentSrc,
    opt: HistoryOptions,
    info: HistoryInfo,
    /// requests since the last drain: what has to be saved, and where its result arrives
    pending: Vec<(Doc, String, Receiver<Result<FileNameProps, String>>)>,
    /// numbers of the requests, in the order the callbacks ran
    order: Arc<Mutex<Vec<usize>>>,
    requests: usize,
    /// saved documents in order
    saved: Vec<(FileNameProps, Doc, String)>,
    live: Vec<Live>,
    gate: Option<Sender<()>>,
}

impl Dir {
    fn new(g: &mut Gen, cx: &mut Cx, v: &mut Vers) -> Res<Dir> {
        let opt = HOp::gen(g).build(g)?;
        let dir = cx.dir();
        let src = v.place(g, cx)?;
        let info = HistoryInfo::create(&dir, src.clone(), &opt).or_vio("opening a history directory")?;
        let live = vec![Live { doc: v.schema().initial(), root: info.clone_src_root(), key: 1 }];
        Ok(Dir { dir, src, opt, info, pending: vec![], order: Default::default(), requests: 0, saved: vec![], live, gate: None })
    }
    fn request(&mut self, g: &mut Gen, s: &Schema, log: &mut Vec<String>, cx: &mut Cx) -> Res<()> {
        let k = g.us(self.live.len());
        let (tx, rx) = channel();
        let n = self.requests;
        let order = self.order.clone();
        // holds up the queue after this save until everything is requested
        let gate = if self.gate.is_none() && g.chance(1, 2) {
            let (a, b) = channel::<()>();
            self.gate = Some(a);
            Some(b)
        } else {
            None
        };
        let held = gate.is_some();
        let call = move |r: dochy_fs::FsResult<FileNameProps>| {
            order.lock().unwrap().push(n);
            let _ = tx.send(r.map_err(|e| e.to_string()));
            if let Some(b) = gate {
                let _ = b.recv_timeout(WAIT);
            }
        };
        let tag = if g.chance(1, 4) { Some(format!("t{}", n)) } else { None };
        let vacant = g.chance(1, 5);
        if vacant {
            let first = self.requests == 0;
            if !save_history_file_nb_if_vacant(&self.info, tag, &self.live[k].root, call) {
                cx.label("not vacant");
                if held {
                    self.gate = None;
                }
                ensure!(!first, "an unused directory was said to be in use");
                // refused: nothing is saved, and the callback is gone
                match rx.recv_timeout(WAIT) {
                    Err(RecvTimeoutError::Disconnected) => {}
                    _ => vio!("a refused save called its callback"),
                }
                return Ok(());
            }
        } else {
            save_history_file_nb(&self.info, tag, &self.live[k].root, call);
        }
        log.push(format!("doc{} requested{}", self.live[k].key, if held { ", queue held" } else { "" }));
        self.requests += 1;
        let doc = self.live[k].doc.clone();
        let text = show_doc(s, &doc);
        self.pending.push((doc, text, rx));
        Ok(())
    }
    fn drain(&mut self, log: &mut Vec<String>) -> Res<()> {
        log.push("waited".into());
        self.gate = None;
        for (doc, text, rx) in self.pending.drain(..) {
            let p = wait(&rx)?;
            let p = match p {
                Ok(p) => p,
                Err(e) => vio!("a background save failed: {}", e),
            };
            self.saved.push((p, doc, text));
            ensure!(rx.recv_timeout(WAIT) == Err(RecvTimeoutError::Disconnected), "a callback ran twice");
        }
        let o = self.order.lock().unwrap().clone();
        ensure!(o == (0..self.requests).collect::<Vec<_>>(), "callbacks ran in the order {:?}", o);
        Ok(())
    }
    fn check(&mut self, s: &Schema, g: &mut Gen) -> Res<()> {
        let h = list_histories(&self.info).or_vio("listing histories")?;
        let got: Vec<String> = h.list_files().iter().map(|d| d.props().calc_filename()).collect();
        let want: Vec<String> = self.saved.iter().map(|x| x.0.calc_filename()).collect();
        ensure!(got == want, "files in the order {:?}, requested as {:?}", got, want);
        for (d, (p, _, text)) in h.list_files().iter().zip(&self.saved) {
            let v = g.bool();
            let r = load_history_file_data(&self.info, d, v).or_vio("loading a history file")?;
            let got = observe(s, &r);
            ensure!(&got == text, "{} is not the document of the time of the request: {}", p.calc_filename(), diff_text(text, &got));
        }
        Ok(())
    }
    fn close(&mut self) {
        let _ = unsafe { init_dochy_cache_us(&self.dir, self.src.clone(), &self.opt) };
    }
}

fn queues(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut v = Vers::first(g);
    let s = v.schema().clone();
    let n = if g.chance(1, 3) { 2 } else { 1 };
    let mut dirs = vec![];
    for _ in 0..n {
        dirs.push(Dir::new(g, cx, &mut v)?);
    }
    let mut log = vec![];
    let mut r = Ok(());
    let mut edited = false;
    g.many(3, 40, 14, |g, _| {
        if r.is_ok() {
            r = queue_op(g, cx, &s, &mut dirs, &mut log, &mut edited);
        }
    });
    cx.sample = Some(format!("source {} steps: {}", clip(&schema_text(&s)), log.join(" | ")));
    cx.nontrivial_if(edited);
    let mut end = |g: &mut Gen| -> Res<()> {
        for d in dirs.iter_mut() {
            d.gate = None;
        }
        for d in dirs.iter_mut() {
            d.drain(&mut log)?;
            d.check(&s, g)?;
        }
        Ok(())
    };
    if r.is_ok() {
        r = end(g);
    }
    for d in dirs.iter_mut() {
        // lets what is queued end before its directory is closed
        d.gate = None;
        for (_, _, rx) in d.pending.drain(..) {
            let _ = rx.recv_timeout(Duration::from_secs(5));
        }
        if r.is_ok() {
            d.close();
        }
    }
    r
}

fn queue_op(g: &mut Gen, cx: &mut Cx, s: &Schema, dirs: &mut Vec<Dir>, log: &mut Vec<String>, edited: &mut bool) -> Res<()> {
    let i = g.us(dirs.len());
    let d = &mut dirs[i];
    if d.live.is_empty() {
        d.live.push(Live { doc: s.initial(), root: d.info.clone_src_root(), key: 99 });
    }
    match g.weighted(&[8, 8, 1, 2, 1]) {
        0 => d.request(g, s, log, cx),
        1 => {
            let k = g.us(d.live.len());
            if d.gate.is_some() && !d.pending.is_empty() {
                *edited = true;
            }
            edit(g, s, &mut d.live[k], log)
        }
        2 => {
            if d.live.len() < 3 {
                let k = g.us(d.live.len());
                let key = d.live.iter().map(|l| l.key).max().unwrap() + 1;
                let l = Live { doc: d.live[k].doc.clone(), root: d.live[k].root.clone(), key };
                d.live.push(l);
            }
            Ok(())
        }
        3 => {
            d.drain(log)?;
            if g.bool() {
                d.check(s, g)?;
            }
            if !d.saved.is_empty() && g.chance(1, 2) {
                // goes on from an earlier file
                let h = list_histories(&d.info).or_vio("listing histories")?;
                let j = g.us(d.saved.len());
                let l = h.list_files();
                ensure!(l.len() == d.saved.len(), "{} files are listed, {} were saved", l.len(), d.saved.len());
                let root = load_history_file_data(&d.info, &l[j], false).or_vio("loading a history file")?;
                let k = g.us(d.live.len());
                log.push(format!("doc{} loaded from {}", d.live[k].key, d.saved[j].0.calc_filename()));
                d.live[k].root = root;
                d.live[k].doc = d.saved[j].1.clone();
            }
            Ok(())
        }
        _ => {
            // the document goes away while its save may be waiting
            if d.live.len() > 1 {
                let k = g.us(d.live.len());
                d.live.remove(k);
            }
            Ok(())
        }
    }
}

/// Saves requested only if none is running: refused while another one runs, done when none was requested since the last report.
fn vacant(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut v = Vers::first(g);
    let s = v.schema().clone();
    let mut d = Dir::new(g, cx, &mut v)?;
    let mut log = vec![];
    let n = g.range(2, 8);
    for _ in 0..n {
        for _ in 0..g.us(30) {
            edit(g, &s, &mut d.live[0], &mut log)?;
        }
        if g.bool() {
            // nothing is running
            let (tx, rx) = channel();
            let yes = save_history_file_nb_if_vacant(&d.info, None, &d.live[0].root, move |r| {
                let _ = tx.send(r.map_err(|e| e.to_string()));
            });
            ensure!(yes, "a save was refused while none was running");
            log.push("saved when vacant".into());
            d.order.lock().unwrap().push(d.requests);
            d.requests += 1;
            let text = show_doc(&s, &d.live[0].doc);
            d.pending.push((d.live[0].doc.clone(), text, rx));
            d.drain(&mut log)?;
            continue;
        }
        let (tx, rx) = channel();
        let reported = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let r2 = reported.clone();
        let order = d.order.clone();
        let k = d.requests;
        save_history_file_nb(&d.info, None, &d.live[0].root, move |r| {
            r2.store(true, std::sync::atomic::Ordering::SeqCst);
            order.lock().unwrap().push(k);
            let _ = tx.send(r.map_err(|e| e.to_string()));
        });
        d.requests += 1;
        let text = show_doc(&s, &d.live[0].doc);
        d.pending.push((d.live[0].doc.clone(), text.clone(), rx));
        let over = || reported.load(std::sync::atomic::Ordering::SeqCst);
        while get_peekable_info(&d.info).queued() == 0 && !over() {
            std::hint::spin_loop();
        }
        let (tx, rx) = channel();
        let order = d.order.clone();
        let k = d.requests;
        let yes = save_history_file_nb_if_vacant(&d.info, None, &d.live[0].root, move |r| {
            order.lock().unwrap().push(k);
            let _ = tx.send(r.map_err(|e| e.to_string()));
        });
        // the only save requested was seen running, and still is
        let running = get_peekable_info(&d.info).queued() != 0 && !over();
        if yes {
            // a second save may itself be running by now, but only after the first reported
            ensure!(!running, "a save was not refused while another was running");
            d.requests += 1;
            d.pending.push((d.live[0].doc.clone(), text, rx));
            log.push("second save done".into());
        } else {
            if running {
                cx.label("refused while running");
                cx.nontrivial = true;
            }
            log.push("second save refused".into());
            ensure!(rx.recv_timeout(WAIT) == Err(RecvTimeoutError::Disconnected), "a refused save called its callback");
        }
        d.drain(&mut log)?;
    }
    cx.sample = Some(format!("source {} steps: {}", clip(&schema_text(&s)), log.join(" | ")));
    d.check(&s, g)?;
    d.close();
    Ok(())
}

struct Shared {
    schema: Schema,
    info: HistoryInfo,
    files: SaveDirInfo,
}

/// What one thread did: history saves in order, file saves with their results.
#[derive(Default)]
struct Done {
    history: Vec<(FileNameProps, String)>,
    files: Vec<(String, bool, String, Result<PathBuf, String>)>,
}

fn run_thread(sh: &Shared, t: u64, seed: u64, own: Option<HistoryInfo>, start: Arc<std::sync::Barrier>) -> Res<Done> {
    let mut g = Gen::random(seed);
    let g = &mut g;
    let s = &sh.schema;
    let mut live = Live { doc: s.initial(), root: sh.info.clone_src_root(), key: t };
    let nb = g.bool();
    let info = own.as_ref().unwrap_or(&sh.info);
    let mut log = vec![];
    let mut done = Done::default();
    let mut history = vec![];
    let mut files = vec![];
    start.wait();
    let n = g.range(1, 8);
    for _ in 0..n {
        match g.us(4) {
            0 => edit(g, s, &mut live, &mut log)?,
            1 | 2 => {
                let text = show_doc(s, &live.doc);
                if nb {
                    let (tx, rx) = channel();
                    save_history_file_nb(info, None, &live.root, move |r| {
                        let _ = tx.send(r.map_err(|e| e.to_string()));
                    });
                    history.push((text, rx));
                } else {
                    let p = save_history_file(info, None, &live.root).or_vio("saving a history file among threads")?;
                    done.history.push((p, text));
                }
            }
            _ => {
                let name = g.sel(&["a", "b", "c", "d"]).to_string();
                let overwrite = g.bool();
                let text = show_doc(s, &live.doc);
                if g.bool() {
                    let (tx, rx) = channel();
                    save_dochy_file_nb(&sh.files, &name, &live.root, overwrite, move |r| {
                        let _ = tx.send(r.map_err(|e| e.to_string()));
                    });
                    files.push((name, overwrite, text, rx));
                } else {
                    let r = save_dochy_file(&sh.files, &name, &live.root, overwrite).map_err(|e| e.to_string());
                    done.files.push((name, overwrite, text, r));
                }
            }
        }
        if g.chance(1, 4) {
            // a file of its own comes and goes
            let name = format!("own{}", t);
            let text = show_doc(s, &live.doc);
            let path = save_dochy_file(&sh.files, &name, &live.root, true).or_vio("saving a file among threads")?;
            let l = list_dochy_files(sh.files.save_dir()).or_vio("listing files among threads")?;
            ensure!(l.iter().any(|f| f.name() == name), "a saved file is not listed among threads");
            let r = load_dochy_file(&path, &sh.files, true).or_vio("loading a file among threads")?;
            let got = observe(s, &r);
            ensure!(got == text, "{} read among threads: {}", name, diff_text(&text, &got));
            remove_dochy_file(sh.files.save_dir(), sh.files.hash(), &name).or_vio("removing a file among threads")?;
        }
        if g.chance(1, 4) {
            // files others may be writing
            if let Some(path) = done.files.iter().filter_map(|f| f.3.as_ref().ok()).last() {
                load_dochy_file(path, &sh.files, true).or_vio("loading a file among threads that write it")?;
            }
        }
        if g.chance(1, 6) {
            // reading in between
            if let Some((p, text)) = done.history.last() {
                let h = list_histories(info).or_vio("listing histories among threads")?;
                let d = h.list_files().into_iter().find(|d| d.props() == p).or_vio("a saved file among the listed")?;
                let r: RootObject = load_history_file_data(info, &d, false).or_vio("loading a history file among threads")?;
                let got = observe(s, &r);
                ensure!(&got == text, "{} read among threads: {}", p.calc_filename(), diff_text(text, &got));
            }
        }
    }
    for (text, rx) in history {
        match wait(&rx)? {
            Ok(p) => done.history.push((p, text)),
            Err(e) => vio!("a background save failed: {}", e),
        }
    }
    for (name, overwrite, text, rx) in files {
        let r = wait(&rx)?;
        done.files.push((name, overwrite, text, r));
    }
    Ok(done)
}

fn threads(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut v = Vers::first(g);
    let schema = v.schema().clone();
    let opt = HOp::gen(g).build(g)?;
    let (dir, fdir) = (cx.dir(), cx.dir());
    let src = v.place(g, cx)?;
    let info = HistoryInfo::create(&dir, src.clone(), &opt).or_vio("opening a history directory")?;
    let files = SaveDirInfo::create(&fdir, src.clone()).or_vio("opening a save directory")?;
    let n = g.range(2, 4);
    let mut starts = vec![];
    let mut infos: Vec<(HistoryInfo, PathBuf)> = vec![(info.clone(), dir.clone())];
    for t in 0..n {
        let seed = g.below(1 << 40);
        let own = if g.chance(1, 3) {
            let d = cx.dir();
            let i = HistoryInfo::create(&d, src.clone(), &opt).or_vio("opening a history directory")?;
            infos.push((i.clone(), d));
            Some(i)
        } else {
            None
        };
        starts.push((t as u64, seed, own));
    }
    cx.sample = Some(format!("source {}; {} threads, {} with a directory of their own; {:?}", clip(&schema_text(&schema)), n, infos.len() - 1, starts.iter().map(|s| s.1).collect::<Vec<_>>()));
    cx.nontrivial = true;
    let sh = Arc::new(Shared { schema, info, files });
    let barrier = Arc::new(std::sync::Barrier::new(n));
    let mut handles = vec![];
    for (t, seed, own) in starts {
        let (sh, b) = (sh.clone(), barrier.clone());
        let where_ = own.clone().unwrap_or(sh.info.clone());
        handles.push((where_, std::thread::spawn(move || run_thread(&sh, t, seed, own, b))));
    }
    let mut done = vec![];
    let mut bad = None;
    for (w, h) in handles {
        match h.join() {
            Ok(Ok(d)) => done.push((w, d)),
            Ok(Err(e)) => bad = Some(e),
            Err(_) => bad = Some(Fail::Violation("a thread panicked while saving".into())),
        }
    }
    if let Some(e) = bad {
        return Err(e);
    }
    let s = &sh.schema;
    for (i, _) in &infos {
        let h = list_histories(i).or_vio("listing histories")?;
        let list = h.list_files();
        let names: Vec<String> = list.iter().map(|d| d.props().calc_filename()).collect();
        let mine: Vec<&Done> = done.iter().filter(|d| &d.0 == i).map(|d| &d.1).collect();
        let total: usize = mine.iter().map(|d| d.history.len()).sum();
        ensure!(names.len() == total, "{} files are listed, {} were saved: {:?}", names.len(), total, names);
        for d in mine {
            let mut last = None;
            for (p, text) in &d.history {
                let pos = names.iter().position(|x| *x == p.calc_filename()).or_vio("a saved file among the listed")?;
                ensure!(last.map_or(true, |l| l < pos), "the saves of one thread are not in the order of their requests: {:?} in {:?}", d.history.iter().map(|h| h.0.calc_filename()).collect::<Vec<_>>(), names);
                last = Some(pos);
                let r = load_history_file_data(i, &list[pos], false).or_vio("loading a history file")?;
                let got = observe(s, &r);
                ensure!(&got == text, "{} is not the document of the time of the request: {}", p.calc_filename(), diff_text(text, &got));
            }
        }
    }
    // files
    for name in ["a", "b", "c", "d"] {
        let all: Vec<_> = done.iter().flat_map(|d| d.1.files.iter()).filter(|f| f.0 == name).collect();
        let won: Vec<_> = all.iter().filter(|f| f.3.is_ok()).collect();
        if all.is_empty() {
            continue;
        }
        let fresh = won.iter().filter(|f| !f.1).count();
        ensure!(fresh <= 1, "{} saves without permission to overwrite succeeded for one file", fresh);
        ensure!(!won.is_empty(), "no save of a file succeeded: {:?}", all[0].3);
        if let Some(f) = all.iter().find(|f| f.1 && f.3.is_err()) {
            vio!("a save with permission to overwrite failed: {:?}", f.3);
        }
        let path = won[0].3.as_ref().ok().cloned().or_vio("HARNESS: path")?;
        let r = load_dochy_file(&path, &sh.files, true).or_vio("loading a file")?;
        let got = observe(s, &r);
        ensure!(won.iter().any(|f| f.2 == got), "the file {} holds none of the documents saved into it: {}", name, diff_text(&won[0].2, &got));
        if won.len() == 1 {
            cx.label("one save of a name");
        }
    }
    for (_, d) in &infos {
        let _ = unsafe { init_dochy_cache_us(d, src.clone(), &opt) };
    }
    Ok(())
}
