//! H01 - H05: history directories.

use super::store::*;
use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::history::*;
use std::collections::BTreeSet;
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "H01",
            suites: vec![suite("histories", h01, 40000, 1_000_000), suite("long", super::large::long_histories, 800, 20_000)],
            rule: "at least four files were saved, one of them deriving from an earlier one",
            level: "exploration",
            assumptions: &["one directory is used with one set of options (multi-threading aside), as the options' documentation requires"],
        },
        Prop {
            id: "H02",
            suites: vec![suite("lists", h02, 40000, 1_000_000), suite("names", names, 300000, 5_000_000), suite("long", super::large::long_histories, 500, 12_000)],
            rule: "lists: at least four files were saved, one of them on a branch of its own; names: every case",
            level: "exploration",
            assumptions: &["the clock does not go back between the first saves of two source versions"],
        },
        Prop {
            id: "H03",
            suites: vec![suite("removals", h03, 40000, 1_000_000), suite("long", super::large::long_histories, 500, 12_000)],
            rule: "files were removed while at least one was kept",
            level: "exploration",
            assumptions: &[],
        },
        Prop {
            id: "H04",
            suites: vec![suite("phases", h04, 20000, 500_000), suite("options", options, 50000, 500_000), suite("series", series, 1500, 40_000)],
            rule: "at least eight files were saved in derivation, over at least two phases or in a cumulative series",
            level: "exploration",
            assumptions: &["the limits are not claimed for max_phase 1 without updates of phase 0, where there is no phase to move up to"],
        },
        Prop {
            id: "H05",
            suites: vec![suite("versions", h05, 30000, 800_000)],
            rule: "a file saved under another source version was loaded",
            level: "exploration",
            assumptions: &["the same options are used over the versions of a source"],
        },
    ]
}

#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Contents,
    Lists,
    Removals,
    Phases,
    Versions,
}

fn h01(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Contents)
}
fn h02(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Lists)
}
fn h03(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Removals)
}
fn h04(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Phases)
}
/// Options read back as they were set, and contradictory ones are refused.
fn options(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let limit = |g: &mut Gen| if g.bool() { Some(g.us(4)) } else { None };
    let max_phase = g.us(4);
    let (update0, save, load) = (g.bool(), g.bool(), g.bool());
    let cum = if g.bool() { Some((limit(g), limit(g))) } else { None };
    cx.sample(|| format!("max_phase {} update_phase_0 {} cumulative {:?}", max_phase, update0, cum));
    let b = HistoryOptionsBuilder::new()
        .max_phase(max_phase)
        .update_phase_0(update0)
        .mt_save(save)
        .mt_load(load)
        .cumulative(cum.map(|(n, c)| CumulativeOptionsBuilder::new().limit_nth(n).limit_count(c)));
    let zero = cum.map_or(false, |(n, c)| n == Some(0) || c == Some(0));
    let flat = max_phase == 0 && (!update0 || cum.map_or(false, |(n, c)| n.is_some() || c.is_some()));
    match b.build() {
        Err(e) => ensure!(zero || flat, "options are refused: {}", e),
        Ok(o) => {
            ensure!(!zero && !flat, "contradictory options are accepted: {:?}", o);
            ensure!(
                o.max_phase() == max_phase && o.update_phase_0() == update0 && o.mt_save() == save && o.mt_load() == load,
                "other options: {:?}",
                o
            );
            ensure!(o.is_cumulative() == cum.is_some() && o.cumulative().map(|c| (c.limit_nth(), c.limit_count())) == cum, "other cumulative options: {:?}", o);
        }
    }
    cx.label(if zero || flat { "refused" } else { "accepted" });
    cx.nontrivial_if(zero || flat || cum.is_some());
    Ok(())
}
fn h05(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    world(g, cx, Focus::Versions)
}

#[derive(Clone, Debug)]
pub struct Op {
    pub max_phase: usize,
    pub update0: bool,
    /// limit_nth, limit_count
    pub cum: Option<(Option<usize>, Option<usize>)>,
}

impl Op {
    pub fn gen(g: &mut Gen) -> Op {
        if g.chance(1, 10) {
            return Op { max_phase: 3, update0: true, cum: Some((Some(1), Some(10))) };
        }
        let max_phase = [1, 2, 3, 0, 4][g.weighted(&[4, 4, 3, 2, 1])];
        let update0 = max_phase == 0 || !g.chance(1, 4);
        let cum = if g.chance(2, 3) {
            let nth = if max_phase > 0 && g.chance(1, 3) { Some(g.range(1, 5)) } else { None };
            let count = if max_phase > 0 && g.chance(1, 2) { Some(g.range(1, 6)) } else { None };
            Some((nth, count))
        } else {
            None
        };
        Op { max_phase, update0, cum }
    }
    pub fn build(&self, g: &mut Gen) -> Res<HistoryOptions> {
        if self.max_phase == 3 && self.update0 && self.cum == Some((Some(1), Some(10))) {
            // these are the documented defaults
            match g.us(4) {
                0 => return Ok(HistoryOptions::new()),
                1 => return Ok(AsRef::<HistoryOptions>::as_ref(&()).clone()),
                2 => return HistoryOptionsBuilder::new().build().or_vio("building options"),
                _ => {}
            }
        }
        HistoryOptionsBuilder::new()
            .max_phase(self.max_phase)
            .update_phase_0(self.update0)
            .mt_save(g.bool())
            .mt_load(g.bool())
            .cumulative(self.cum.map(|(n, c)| CumulativeOptionsBuilder::new().limit_nth(n).limit_count(c)))
            .build()
            .or_vio("building options")
    }
}

/// A saved file, as the model knows it.
struct HFile {
    ver: usize,
    control: u32,
    prev_ctl: u32,
    order: Vec<u32>,
    tag: Option<String>,
    doc: Doc,
    text: String,
    /// per phase up to its own: size of the file, total size and number of the files saved on it since
    sizes: Vec<(u64, u64, u64)>,
    /// the file of every phase up to its own
    phases: Vec<usize>,
    /// earlier files of a cumulative series
    series: Vec<usize>,
    alive: bool,
}

impl HFile {
    fn phase(&self) -> usize {
        self.order.len() - 1
    }
    fn name(&self) -> String {
        let mut s = String::new();
        if let Some(t) = &self.tag {
            s += &format!("#{}#", t);
        }
        if self.prev_ctl != self.control {
            s += &format!("({})", self.prev_ctl);
        }
        s += &format!("_{}", self.control);
        for o in &self.order {
            s += &format!("_{}", o);
        }
        s + ".his"
    }
}

struct World {
    v: Vers,
    op: Op,
    opt: HistoryOptions,
    dir: PathBuf,
    src: CurrentSrc,
    info: HistoryInfo,
    live: Vec<Live>,
    files: Vec<HFile>,
    /// versions in order of their directories' creation
    dirs: Vec<usize>,
    /// document whose next save derives, and from which file
    current: Option<(u64, usize)>,
    next_key: u64,
    log: Vec<String>,
    derived: usize,
    branched: usize,
    removed: bool,
    max_series: usize,
}

pub const TAGS: &[&str] = &["", "a", "tag", "日本", "x y", "(1)", "_0_0", ".his", "a.his", "é(", "0", "new\nline", "#", "a#b", "a/b", "\\", ".."];

pub fn gen_tag(g: &mut Gen) -> String {
    if g.chance(1, 4) {
        gen_name(g)
    } else {
        g.sel(TAGS).to_string()
    }
}

fn good_tag(t: &str) -> bool {
    !t.contains(|c| c == '#' || c == '/' || c == '\\')
}

impl World {
    fn new(g: &mut Gen, cx: &mut Cx) -> Res<World> {
        let op = Op::gen(g);
        World::with(g, cx, op)
    }
    fn with(g: &mut Gen, cx: &mut Cx, op: Op) -> Res<World> {
        let opt = op.build(g)?;
        let mut v = Vers::first(g);
        let dir = cx.dir();
        let src = v.place(g, cx)?;
        let info = HistoryInfo::create(&dir, src.clone(), &opt).or_vio("opening a history directory")?;
        v.hash(info.hash())?;
        let mut w = World {
            v,
            op,
            opt,
            dir,
            src,
            info,
            live: vec![],
            files: vec![],
            dirs: vec![],
            current: None,
            next_key: 0,
            log: vec![],
            derived: 0,
            branched: 0,
            removed: false,
            max_series: 0,
        };
        w.check_opened()?;
        w.fresh_live();
        Ok(w)
    }
    fn add_live(&mut self, doc: Doc, root: dochy_core::structs::RootObject) -> u64 {
        self.next_key += 1;
        self.live.push(Live { doc, root, key: self.next_key });
        self.next_key
    }
    fn fresh_live(&mut self) {
        let doc = self.v.schema().initial();
        let root = self.info.clone_src_root();
        self.add_live(doc, root);
    }
    fn check_opened(&self) -> Res<()> {
        let doc = self.v.schema().initial();
        check_doc(self.v.schema(), &doc, &self.info.clone_src_root(), "document of an opened directory")?;
        ensure!(self.info.options() == &self.opt, "the directory reports other options");
        Ok(())
    }
    fn reopen(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        self.live.clear();
        self.current = None;
        self.src = self.v.place(g, cx)?;
        self.opt = self.op.build(g)?;
        if g.chance(1, 3) {
            self.log.push(format!("source {} taken over in the same process", self.v.cur));
            self.info = unsafe { init_dochy_cache_us(&self.dir, self.src.clone(), &self.opt) }.or_vio("replacing the source")?;
        } else {
            self.log.push(format!("opened elsewhere with source {}", self.v.cur));
            // ends the thread that saves in the background
            let _ = unsafe { init_dochy_cache_us(&self.dir, self.src.clone(), &self.opt) };
            self.dir = move_dir(cx, &self.dir);
            self.info = HistoryInfo::create(&self.dir, self.src.clone(), &self.opt).or_vio("opening a history directory")?;
        }
        self.v.hash(self.info.hash())?;
        self.check_opened()?;
        self.fresh_live();
        Ok(())
    }
    /// opening the directory again, in the same process
    fn open_again(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        match g.us(3) {
            0 => {
                let i = HistoryInfo::create(&self.dir, self.src.clone(), &self.opt).or_vio("opening a history directory again")?;
                ensure!(i == self.info, "the directory opened again is another one");
                cx.label("opened again");
            }
            1 => {
                let other = Op::gen(g).build(g)?;
                if other != self.opt {
                    cx.label("other options refused");
                    let r = HistoryInfo::create(&self.dir, self.src.clone(), &other);
                    ensure!(r.is_err(), "opening a history directory with other options was not refused: {:?} then {:?}", self.opt, other);
                }
            }
            _ => {
                cx.label("other source refused");
                let mut v = Vers::first(g);
                let src = v.place(g, cx)?;
                let r = HistoryInfo::create(&self.dir, src, &self.opt);
                ensure!(r.is_err(), "opening a history directory with another source was not refused");
            }
        }
        self.check_opened()?;
        ensure!(self.info.hash() == self.v.vers[self.v.cur].hash, "the source changed");
        Ok(())
    }
    fn hash_of(&self, ver: usize) -> u128 {
        self.v.vers[ver].hash
    }
    fn alive_in(&self, ver: usize) -> Vec<usize> {
        (0..self.files.len()).filter(|i| self.files[*i].alive && self.files[*i].ver == ver).collect()
    }
    fn find(&self, ver: usize, control: u32, order: &[u32]) -> Option<usize> {
        self.alive_in(ver).into_iter().find(|i| self.files[*i].control == control && self.files[*i].order == order)
    }
    /// all files a file is composed of, without itself
    fn needs(&self, i: usize) -> Vec<usize> {
        let f = &self.files[i];
        let mut v: Vec<usize> = f.phases[..f.phase()].to_vec();
        v.extend(&f.series);
        v
    }
    /// the phase the documented rule gives to a file saved on `from`
    fn next_phase(&self, from: usize) -> usize {
        let s = &self.files[from].sizes;
        let n = s.len();
        if n <= self.op.max_phase {
            return n;
        }
        // in the deepest phase: how far up
        let mut p = n - 1;
        loop {
            if p == 0 {
                return if self.op.update0 { 0 } else { 1 };
            }
            let (ps, pd, pn) = s[p - 1];
            let (cs, cd, cn) = s[p];
            let stay = (ps + pd + cs + cd) as f64 / (1 + pn + 1 + cn) as f64;
            let up = (ps + pd) as f64 / (1 + pn) as f64;
            let mut shift = stay > up;
            if !shift && p == n - 1 {
                if let Some((nth, count)) = self.op.cum {
                    if let Some(c) = count {
                        if c as u64 <= pn {
                            shift = true;
                        }
                    }
                    if let Some(nth) = nth {
                        let mut all: Vec<u64> = s.iter().map(|x| x.0).collect();
                        all.sort();
                        all.reverse();
                        if let Some(x) = all.get(nth - 1) {
                            if *x <= pd {
                                shift = true;
                            }
                        }
                    }
                }
            }
            if !shift {
                return p;
            }
            p -= 1;
        }
    }
    fn save(&mut self, g: &mut Gen, cx: &mut Cx, k: usize) -> Res<()> {
        let tag = if g.chance(2, 3) { None } else { Some(gen_tag(g)) };
        let cur = self.v.cur;
        let alive = self.alive_in(cur);
        let newest = alive.last().cloned();
        let base = match self.current {
            Some((key, f)) if key == self.live[k].key => Some(f),
            _ => None,
        };
        let nb = g.chance(1, 10);
        let wait = |rx: std::sync::mpsc::Receiver<_>| match rx.recv_timeout(std::time::Duration::from_secs(60)) {
            Ok(r) => Ok(r),
            Err(_) => Err(Fail::Violation("a background save never reported its result".into())),
        };
        self.log.push(format!("doc{} saved{}{}", self.live[k].key, tag.as_ref().map_or(String::new(), |t| format!(" with tag {:?}", t)), if nb { " in the background" } else { "" }));
        let r = if nb {
            let (tx, rx) = std::sync::mpsc::channel();
            save_history_file_nb(&self.info, tag.clone(), &self.live[k].root, move |r| {
                let _ = tx.send(r);
            });
            wait(rx)?
        } else {
            save_history_file(&self.info, tag.clone(), &self.live[k].root)
        };
        if tag.as_ref().map_or(false, |t| !good_tag(t)) {
            cx.label("tag refused");
            ensure!(r.is_err(), "tag {:?} was not refused", tag);
            return Ok(());
        }
        let p = r.or_vio("saving a history file")?;
        if !self.dirs.contains(&cur) {
            self.dirs.push(cur);
        }
        // where it has to be
        let max = self.op.max_phase;
        let from = base.and_then(|b| {
            let f = &self.files[b];
            if f.phase() == max && Some(b) != newest {
                if f.phase() == 0 {
                    None
                } else {
                    self.find(cur, f.prev_ctl, &f.order[..max])
                }
            } else if f.alive {
                Some(b)
            } else {
                None
            }
        });
        let newest_ctl = newest.map(|n| self.files[n].control);
        let me = self.files.len();
        let (control, prev_ctl, order, mut sizes, phases, series);
        match from {
            None => {
                control = newest_ctl.map_or(0, |c| c + 1);
                prev_ctl = control;
                order = vec![0];
                sizes = vec![];
                phases = vec![me];
                series = vec![];
            }
            Some(b) => {
                self.derived += 1;
                let f = &self.files[b];
                let np = self.next_phase(b);
                control = if Some(b) == newest { f.control } else { newest_ctl.unwrap() + 1 };
                if Some(b) != newest {
                    self.branched += 1;
                    cx.label("branch");
                }
                let mut s = vec![];
                if np > f.phase() {
                    let mut o = f.order.clone();
                    o.push(0);
                    order = o;
                    prev_ctl = f.control;
                } else {
                    let mut o = f.order[..np + 1].to_vec();
                    o[np] += 1;
                    order = o;
                    if np == max && self.op.cum.is_some() {
                        prev_ctl = f.control;
                        s = f.series.clone();
                        s.push(b);
                        cx.label("cumulative");
                    } else {
                        prev_ctl = self.files[f.phases[np]].prev_ctl;
                        cx.label(if np < max { "moved up" } else { "same phase" });
                    }
                }
                series = s;
                sizes = f.sizes[..np.min(f.sizes.len())].to_vec();
                let mut ph = f.phases[..np.min(f.phases.len())].to_vec();
                ph.push(me);
                phases = ph;
            }
        }
        let mut f = HFile { ver: cur, control, prev_ctl, order, tag, doc: self.live[k].doc.clone(), text: String::new(), sizes: vec![], phases, series, alive: true };
        let got = (p.control(), p.prev_ctl(), p.order().to_vec(), p.tag().map(|s| s.to_string()));
        let want = (f.control, f.prev_ctl, f.order.clone(), f.tag.clone());
        ensure!(
            got == want,
            "saved as control {}, previous control {}, order {:?}, tag {:?}; expected {}, {}, {:?}, {:?} ({:?})",
            got.0, got.1, got.2, got.3, want.0, want.1, want.2, want.3, self.op
        );
        let name = f.name();
        ensure!(p.calc_filename() == name, "file name {:?}, expected {:?}", p.calc_filename(), name);
        let path = hash_dir_path(&self.dir, self.hash_of(cur)).join(&name);
        let bytes = std::fs::read(&path).or_vio("saved history file")?;
        let mut rest: &[u8] = &bytes;
        dochy_compaction::enc_dec::decode::decode(&mut rest).or_vio("head of a saved history file")?;
        let size = rest.len() as u64;
        for s in sizes.iter_mut() {
            s.1 += size;
            s.2 += 1;
        }
        sizes.push((size, 0, 0));
        f.sizes = sizes;
        f.text = show_doc(self.v.schema(), &f.doc);
        // limits
        ensure!(f.phase() <= max, "a file of phase {} with max_phase {}", f.phase(), max);
        ensure!(f.phases.len() == f.phase() + 1, "HARNESS: phases");
        if let Some((_, Some(c))) = self.op.cum {
            if f.phase() == max && !(max == 1 && !self.op.update0) {
                ensure!(f.series.len() < c, "{} files in a row with limit_count {}", f.series.len() + 1, c);
            }
        }
        if self.op.cum.is_none() {
            ensure!(f.series.is_empty(), "HARNESS: series");
        }
        self.max_series = self.max_series.max(f.series.len() + 1);
        self.log.push(format!("-> {}", name));
        self.files.push(f);
        self.current = Some((self.live[k].key, me));
        Ok(())
    }
    fn load(&mut self, g: &mut Gen, cx: &mut Cx, i: usize, adopt: bool) -> Res<()> {
        let validation = g.bool();
        let f = &self.files[i];
        if f.ver != self.v.cur {
            cx.label("loaded from another version");
        }
        let histories = list_histories(&self.info).or_vio("listing histories")?;
        let list = histories.list_files();
        let name = f.name();
        let data = match list.iter().find(|d| d.hash() == self.hash_of(f.ver) && d.props().calc_filename() == name) {
            Some(d) => d,
            None => vio!("{} is not listed", name),
        };
        let r = match no_panic(|| {
            if g.bool() {
                load_history_file_data(&self.info, data, validation)
            } else {
                load_history_file(&self.info, data.props(), data.history(), validation)
            }
        }) {
            Ok(r) => r,
            Err(p) => vio!("loading {} panicked: {}", name, p),
        };
        match self.v.converted(f.ver, &f.doc) {
            Ok(d) => {
                let root = r.or_vio(&format!("loading {}", name))?;
                let want = if f.ver == self.v.cur { f.text.clone() } else { show_doc(self.v.schema(), &d) };
                let got = observe(self.v.schema(), &root);
                ensure!(got == want, "loaded {} ({:?}): {}", name, self.op, diff_text(&want, &got));
                let same = f.ver == self.v.cur;
                if adopt {
                    self.log.push(format!("loaded {} of source {}", name, f.ver));
                    if self.live.len() >= 3 {
                        let k = g.us(self.live.len());
                        self.live.remove(k);
                    }
                    let key = self.add_live(d, root);
                    self.current = if same { Some((key, i)) } else { None };
                } else {
                    // what was loaded is the current document, but is gone
                    self.current = None;
                }
            }
            Err(e) => {
                cx.label("loading refused, rightly");
                if validation && r.is_ok() {
                    vio!("a file that doesn't fit the current source was loaded ({})", e);
                }
                if r.is_ok() {
                    self.current = None;
                }
            }
        }
        Ok(())
    }
    fn check_all(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        for i in 0..self.files.len() {
            if self.files[i].alive {
                self.load(g, cx, i, false)?;
            }
        }
        Ok(())
    }
    /// alive files in the order they have to be listed
    fn listed(&self) -> Vec<usize> {
        self.dirs.iter().flat_map(|v| self.alive_in(*v)).collect()
    }
    fn check_list(&mut self) -> Res<()> {
        let histories = list_histories(&self.info).or_vio("listing histories")?;
        let got: Vec<(u128, String)> = histories.list_files().iter().map(|d| (d.hash(), d.props().calc_filename())).collect();
        let want: Vec<(u128, String)> = self.listed().iter().map(|i| (self.hash_of(self.files[*i].ver), self.files[*i].name())).collect();
        ensure!(got == want, "listed files {:?}, expected {:?}", got.iter().map(|x| &x.1).collect::<Vec<_>>(), want.iter().map(|x| &x.1).collect::<Vec<_>>());
        for (d, i) in histories.list_files().iter().zip(self.listed()) {
            let f = &self.files[i];
            ensure!(d.props().tag() == f.tag.as_deref(), "tag {:?} of {}", d.props().tag(), f.name());
            ensure!(d.props().phase() == f.phase() && d.props().order() == f.order && d.props().prev_ctl() == f.prev_ctl, "properties of {}", f.name());
            ensure!(d.calc_path(&self.dir) == hash_dir_path(&self.dir, self.hash_of(f.ver)).join(f.name()), "path of {}", f.name());
            ensure!(d.history().get_props(f.control, &f.order) == Some(d.props()), "{} is not found by its order", f.name());
            if f.series.is_empty() && f.phase() > 0 {
                let parent = &self.files[f.phases[f.phase() - 1]];
                let p = d.history().get_parent(d.props()).map(|p| p.calc_filename());
                ensure!(p == Some(parent.name()), "parent {:?} of {}, expected {}", p, f.name(), parent.name());
            }
        }
        let newest = histories.get_newest_file_data().map(|d| (d.hash(), d.props().calc_filename()));
        ensure!(newest.as_ref() == want.last(), "newest file {:?}, expected {:?}", newest, want.last());
        let got: Vec<u128> = histories.iter().map(|h| h.0).collect();
        let dirs: Vec<u128> = self.dirs.iter().map(|d| self.hash_of(*d)).collect();
        ensure!(got == dirs, "listed source versions {:x?}, expected {:x?}", got, dirs);
        for (h, his) in histories.iter() {
            let ver = self.v.with_hash(*h).or_vio("HARNESS: hash")?;
            let dir = hash_dir_path(&self.dir, *h);
            let want = self.alive_in(ver).last().map(|i| dir.join(self.files[*i].name()));
            ensure!(his.newest_file_path(&dir) == want, "newest path of a version");
            let one = FileHistory::create(&self.dir, *h, self.op.max_phase, self.op.cum.is_some()).or_vio("reading a history")?;
            ensure!(one.list_files() == his.list_files(), "a history read alone differs");
        }
        Ok(())
    }
    /// what has to stay when `keep` stays
    fn closure(&self, keep: &[usize]) -> BTreeSet<usize> {
        let mut s = BTreeSet::new();
        for k in keep {
            s.insert(*k);
            s.extend(self.needs(*k));
        }
        s
    }
    fn on_disk(&self, ver: usize) -> Option<BTreeSet<String>> {
        let d = hash_dir_path(&self.dir, self.hash_of(ver));
        let rd = std::fs::read_dir(d).ok()?;
        Some(rd.map(|e| e.expect("scratch").file_name().to_string_lossy().to_string()).filter(|n| n.ends_with(".his")).collect())
    }
    fn remove(&mut self, g: &mut Gen, cx: &mut Cx) -> Res<()> {
        if self.dirs.is_empty() {
            return Ok(());
        }
        let all = self.listed();
        if g.chance(1, 2) {
            // the newest n of all versions
            let n = if g.chance(1, 12) { 0 } else { g.us(all.len() + 2) };
            self.log.push(format!("all but the newest {} removed", n));
            let histories = list_histories(&self.info).or_vio("listing histories")?;
            histories.remove_old_files(n, &self.dir).or_vio("removing old files")?;
            let kept: Vec<usize> = all[all.len() - n.min(all.len())..].to_vec();
            let last = *self.dirs.last().unwrap();
            let in_last = self.alive_in(last);
            let mut dirs = vec![];
            for ver in self.dirs.clone() {
                let mine = self.alive_in(ver);
                let names: BTreeSet<String> = mine.iter().map(|i| self.files[*i].name()).collect();
                let must: Vec<usize> = kept.iter().cloned().filter(|i| self.files[*i].ver == ver).collect();
                let disk = self.on_disk(ver);
                match disk {
                    None => {
                        ensure!(must.is_empty() && (ver != last || n == 0), "the directory of a version with files to keep was removed, keeping {}", n);
                        for i in mine {
                            self.files[i].alive = false;
                            self.removed = true;
                        }
                    }
                    Some(disk) => {
                        ensure!(n > 0, "a directory is left after all files were removed");
                        let want: BTreeSet<String> = if ver == last && n < in_last.len() {
                            let c = self.closure(&must);
                            for i in &mine {
                                if !c.contains(i) {
                                    self.files[*i].alive = false;
                                    self.removed = true;
                                }
                            }
                            c.iter().map(|i| self.files[*i].name()).collect()
                        } else {
                            ensure!(n >= in_last.len(), "files of an older version are left, although {} of {} files of the newest version are kept", n, in_last.len());
                            names
                        };
                        ensure!(disk == want, "files left after keeping the newest {}: {:?}, expected {:?}", n, disk, want);
                        dirs.push(ver);
                    }
                }
            }
            self.dirs = dirs;
        } else {
            // within one version
            let ver = *g.pick(&self.dirs);
            let mine = self.alive_in(ver);
            let history = FileHistory::create(&self.dir, self.hash_of(ver), self.op.max_phase, self.op.cum.is_some()).or_vio("reading a history")?;
            let hash_dir = hash_dir_path(&self.dir, self.hash_of(ver));
            let keep: Vec<usize>;
            let failed;
            let removable: Vec<String>;
            if g.bool() {
                let n = if g.chance(1, 12) { 0 } else { g.us(mine.len() + 2) };
                self.log.push(format!("all but the newest {} of source {} removed", n, ver));
                keep = mine[mine.len() - n.min(mine.len())..].to_vec();
                removable = history.get_removable_old_items(n).iter().map(|p| p.calc_filename()).collect();
                failed = history.remove_old_files(n, &hash_dir);
            } else {
                let (num, den) = *g.pick(&[(1, 4), (1, 2), (1, 10)]);
                keep = mine.iter().cloned().filter(|_| g.chance(num, den)).collect();
                self.log.push(format!("all but {:?} of source {} removed", keep.iter().map(|i| self.files[*i].name()).collect::<Vec<_>>(), ver));
                let remover = HistoryRemover::from(&history);
                for i in &keep {
                    let f = &self.files[*i];
                    let p = history.get_props(f.control, &f.order).or_vio("a saved file in its history")?;
                    ensure!(remover.keep(p).is_some(), "{} couldn't be kept", f.name());
                }
                removable = remover.get_removable_props().iter().map(|p| p.calc_filename()).collect();
                failed = remover.remove(&hash_dir);
            }
            ensure!(failed.is_empty(), "couldn't remove {:?}", failed);
            let c = self.closure(&keep);
            let want: BTreeSet<String> = c.iter().map(|i| self.files[*i].name()).collect();
            let gone: BTreeSet<String> = mine.iter().filter(|i| !c.contains(i)).map(|i| self.files[*i].name()).collect();
            let n = removable.len();
            let removable: BTreeSet<String> = removable.into_iter().collect();
            ensure!(n == removable.len() && removable == gone, "files named removable {:?}, expected {:?} ({:?})", removable, gone, self.op);
            let disk = self.on_disk(ver).or_vio("directory of a version")?;
            ensure!(disk == want, "files left {:?}, expected {:?} ({:?})", disk, want, self.op);
            for i in mine {
                if !c.contains(&i) {
                    self.files[i].alive = false;
                    self.removed = true;
                }
            }
        }
        if self.removed && self.files.iter().any(|f| f.alive) {
            cx.label("removed some");
        }
        Ok(())
    }
}

fn world(g: &mut Gen, cx: &mut Cx, focus: Focus) -> Res<()> {
    let mut w = World::new(g, cx)?;
    let weights: &[u32] = match focus {
        //                edit+save edit new copy save load list remove reopen version again point
        Focus::Contents => &[16, 3, 1, 1, 3, 5, 0, 0, 1, 0, 0, 2],
        Focus::Lists => &[12, 2, 1, 1, 4, 5, 4, 1, 1, 1, 0, 2],
        Focus::Removals => &[14, 2, 1, 1, 3, 4, 1, 3, 1, 1, 0, 1],
        Focus::Phases => &[30, 1, 1, 1, 3, 2, 0, 0, 1, 0, 0, 1],
        Focus::Versions => &[8, 2, 1, 1, 3, 6, 1, 0, 1, 4, 2, 1],
    };
    let (max, avg) = match focus {
        Focus::Phases => (120, 40),
        _ => (60, 20),
    };
    let mut err = None;
    g.many(6, max, avg, |g, _| {
        if err.is_none() {
            if let Err(e) = op(g, cx, &mut w, weights) {
                err = Some(e);
            }
        }
    });
    let head = w.v.vers.iter().enumerate().map(|(i, v)| format!("source {}: {}", i, clip(&schema_text(&v.schema)))).collect::<Vec<_>>().join("; ");
    cx.sample = Some(format!("{:?}; {}; steps: {}", w.op, head, w.log.join(" | ")));
    if err.is_none() {
        err = finish(g, cx, &mut w).err();
    }
    // ends the thread that saves in the background
    let _ = unsafe { init_dochy_cache_us(&w.dir, w.src.clone(), &w.opt) };
    if let Some(e) = err {
        return Err(e);
    }
    cx.count("files saved", w.files.len() as u64);
    let other = cx.labels.iter().any(|l| l == "loaded from another version");
    match focus {
        Focus::Contents => cx.nontrivial_if(w.files.len() >= 4 && w.derived >= 1),
        Focus::Lists => cx.nontrivial_if(w.files.len() >= 4 && w.branched >= 1),
        Focus::Removals => cx.nontrivial_if(w.removed && w.files.iter().any(|f| f.alive)),
        Focus::Phases => cx.nontrivial_if(w.derived >= 8 && (w.max_series >= 2 || w.files.iter().any(|f| f.phase() > 0))),
        Focus::Versions => cx.nontrivial_if(other),
    }
    Ok(())
}

/// Long series of small changes on large ones, with limits that are reached late.
fn series(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let max_phase = g.range(1, 4);
    let nth = if g.chance(1, 3) { Some(g.range(1, 5)) } else { None };
    let count = if g.chance(3, 4) { Some(g.range(7, 320)) } else { None };
    let op = Op { max_phase, update0: g.bool(), cum: if g.chance(5, 6) { Some((nth, count)) } else { None } };
    let mut w = World::with(g, cx, op)?;
    let r = series_in(g, cx, &mut w);
    cx.sample = Some(format!("{:?}; {} saves; {}", w.op, w.files.len(), clip(&schema_text(&w.v.schema()))));
    // ends the thread that saves in the background
    let _ = unsafe { init_dochy_cache_us(&w.dir, w.src.clone(), &w.opt) };
    r?;
    cx.label(if w.max_series >= 100 { "100 in a row" } else if w.max_series >= 10 { "ten in a row" } else { "few in a row" });
    cx.nontrivial_if(w.derived >= 50);
    Ok(())
}

fn series_in(g: &mut Gen, cx: &mut Cx, w: &mut World) -> Res<()> {
    let n = *g.pick(&[60usize, 150, 350]);
    let large = *g.pick(&[30u64, 100, 1000]);
    let s = w.v.schema().clone();
    while w.files.len() < n {
        let k = w.live.len() - 1;
        if w.files.len() <= w.op.max_phase || g.chance(1, large) {
            for _ in 0..30 {
                edit(g, &s, &mut w.live[k], &mut w.log)?;
            }
        } else if g.chance(3, 4) {
            edit(g, &s, &mut w.live[k], &mut w.log)?;
        }
        w.save(g, cx, k)?;
    }
    w.check_list()?;
    for _ in 0..5 {
        let i = g.us(w.files.len());
        w.load(g, cx, i, false)?;
    }
    Ok(())
}

fn finish(g: &mut Gen, cx: &mut Cx, w: &mut World) -> Res<()> {
    w.check_list()?;
    w.check_all(g, cx)?;
    // another process, which has only the directory
    w.reopen(g, cx)?;
    w.check_list()?;
    w.check_all(g, cx)
}

fn op(g: &mut Gen, cx: &mut Cx, w: &mut World, weights: &[u32]) -> Res<()> {
    let edit_one = |g: &mut Gen, w: &mut World, k: usize| {
        let s = w.v.vers[w.v.cur].schema.clone();
        edit(g, &s, &mut w.live[k], &mut w.log)
    };
    match g.weighted(weights) {
        0 => {
            // the usual course: the current document is edited and saved
            let k = match w.current.and_then(|(key, _)| w.live.iter().position(|l| l.key == key)) {
                Some(k) => k,
                None => g.us(w.live.len()),
            };
            edit_one(g, w, k)?;
            w.save(g, cx, k)
        }
        1 => {
            let k = g.us(w.live.len());
            edit_one(g, w, k)
        }
        2 => {
            if w.live.len() < 3 {
                w.fresh_live();
            }
            Ok(())
        }
        3 => {
            if w.live.len() < 3 {
                let k = g.us(w.live.len());
                let (doc, root) = (w.live[k].doc.clone(), w.live[k].root.clone());
                let from = w.live[k].key;
                let key = w.add_live(doc, root);
                w.log.push(format!("doc{} copied as doc{}", from, key));
            }
            Ok(())
        }
        4 => {
            let k = g.us(w.live.len());
            w.save(g, cx, k)
        }
        5 => {
            let alive: Vec<usize> = (0..w.files.len()).filter(|i| w.files[*i].alive).collect();
            if !alive.is_empty() {
                let i = *g.pick(&alive);
                w.load(g, cx, i, true)?;
            }
            Ok(())
        }
        6 => w.check_list(),
        7 => {
            w.remove(g, cx)?;
            if g.bool() {
                w.check_list()?;
                w.check_all(g, cx)?;
            }
            Ok(())
        }
        8 => w.reopen(g, cx),
        9 => {
            w.v.change(g);
            w.reopen(g, cx)
        }
        10 => w.open_again(g, cx),
        _ => {
            // a document loaded from or saved to a file earlier is declared to go on from it
            if let Some((key, i)) = w.current {
                if let Some(k) = w.live.iter().position(|l| l.key == key) {
                    if g.bool() {
                        w.current = None;
                        set_current_root_obj_info(&w.info, None);
                        w.log.push("no current document".into());
                    } else {
                        let f = &w.files[i];
                        let props = FileNameProps::new(f.control, f.prev_ctl, f.order.clone(), f.tag.clone()).or_vio("properties")?;
                        set_current_root_obj_info(&w.info, Some(CurrentRootObjInfo::new(w.live[k].root.id(), props)));
                    }
                }
            }
            Ok(())
        }
    }
}

/// File names and their properties.
fn names(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    cx.nontrivial = true;
    let num = |g: &mut Gen| match g.us(4) {
        0 => g.below(3) as u32,
        1 => g.below(1000) as u32,
        2 => u32::MAX - g.below(3) as u32,
        _ => g.below(1 << 32) as u32,
    };
    let control = num(g);
    let prev = if g.bool() { control } else { num(g) };
    let mut order = vec![];
    g.many(1, 12, 4, |g, _| order.push(num(g)));
    let tag = if g.bool() {
        None
    } else if g.bool() {
        Some(gen_tag(g))
    } else {
        Some(gen_string(g))
    };
    let tag = tag.map(|t| t.replace('#', "").replace('/', "").replace('\\', ""));
    let p = FileNameProps::new(control, prev, order.clone(), tag.clone()).or_vio("properties")?;
    let mut want = HFile { ver: 0, control, prev_ctl: prev, order: order.clone(), tag: tag.clone(), doc: Doc::default(), text: String::new(), sizes: vec![], phases: vec![], series: vec![], alive: true };
    let name = p.calc_filename();
    cx.sample = Some(name.clone());
    ensure!(name == want.name(), "file name {:?}, expected {:?}", name, want.name());
    let q = FileNameProps::from(&name);
    ensure!(q.as_ref() == Some(&p), "file name {:?} is read as {:?}", name, q);
    ensure!(p.phase() == order.len() - 1 && p.order_base() == &order[..order.len() - 1], "phase of {:?}", p);
    ensure!(calc_filename(tag.as_deref(), control, if prev == control { None } else { Some(prev) }, &order) == name, "file name of {:?}", p);
    // other names: read as what they say, or not at all
    let mut b: Vec<char> = name.chars().collect();
    g.many(1, 4, 2, |g, _| {
        if b.is_empty() {
            return;
        }
        let i = g.us(b.len());
        let c = match g.us(3) {
            0 => *g.pick(&['#', '_', '(', ')', '.', 'h', 'i', 's', '0', '9', '-', '+', ' ']),
            1 => (b'0' + g.below(10) as u8) as char,
            _ => gen_char(g),
        };
        match g.us(3) {
            0 => b.insert(i, c),
            1 => {
                b.remove(i);
            }
            _ => b[i] = c,
        }
    });
    let t: String = b.iter().collect();
    match no_panic(|| FileNameProps::from(&t)) {
        Err(p) => vio!("reading the name {:?} panicked: {}", t, p),
        Ok(None) => cx.label("not a history file"),
        Ok(Some(p)) => {
            want.tag = p.tag().map(|s| s.to_string());
            want.control = p.control();
            want.prev_ctl = p.prev_ctl();
            want.order = p.order().to_vec();
            ensure!(p.calc_filename() == want.name(), "file name {:?} of {:?}", p.calc_filename(), p);
            let again = FileNameProps::from(&p.calc_filename());
            ensure!(again.as_ref() == Some(&p), "{:?} is read as {:?}, and again as {:?}", t, p, again);
        }
    }
    Ok(())
}

/// E01: one file of the directory is damaged; then repaired.
pub fn damaged(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut w = World::new(g, cx)?;
    let mut err = None;
    g.many(4, 40, 14, |g, _| {
        if err.is_none() {
            err = op(g, cx, &mut w, &[12, 2, 1, 1, 3, 4, 0, 1, 1, 1, 0, 0]).err();
        }
    });
    cx.labels.clear();
    if err.is_none() {
        err = damage_one(g, cx, &mut w).err();
    }
    let head = w.v.vers.iter().enumerate().map(|(i, v)| format!("source {}: {}", i, clip(&schema_text(&v.schema)))).collect::<Vec<_>>().join("; ");
    cx.sample = Some(format!("{:?}; {}; steps: {}", w.op, head, w.log.join(" | ")));
    let _ = unsafe { init_dochy_cache_us(&w.dir, w.src.clone(), &w.opt) };
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn damage_one(g: &mut Gen, cx: &mut Cx, w: &mut World) -> Res<()> {
    use super::damage::*;
    if w.dirs.is_empty() {
        return Ok(());
    }
    let ver = *g.pick(&w.dirs);
    let hash_dir = hash_dir_path(&w.dir, w.hash_of(ver));
    let files = w.alive_in(ver);
    let (name, hit) = match g.weighted(&[10, 1, 1]) {
        0 if !files.is_empty() => {
            let i = *g.pick(&files);
            (w.files[i].name(), Some(i))
        }
        1 => ("created_time.dat".to_string(), None),
        _ => ("src.archive".to_string(), None),
    };
    let d = Damage::inflict(g, &hash_dir.join(&name))?;
    w.log.push(format!("{:?} of source {} damaged: {}", name, ver, d.what));
    // most of the time what is remembered of the files is gone
    if g.chance(3, 4) {
        w.info = unsafe { init_dochy_cache_us(&w.dir, w.src.clone(), &w.opt) }.or_vio("opening a history directory")?;
        w.current = None;
    }
    let histories = quiet("listing histories", || list_histories(&w.info))?.or_vio("listing histories")?;
    for i in 0..w.files.len() {
        if !w.files[i].alive {
            continue;
        }
        let uses = match hit {
            Some(h) => h == i || w.needs(i).contains(&h),
            None => name == "src.archive" && w.files[i].ver == ver && ver != w.v.cur,
        };
        if !uses {
            cx.label("undamaged, loaded");
            w.load(g, cx, i, false)?;
            continue;
        }
        let f = &w.files[i];
        let hash = w.hash_of(f.ver);
        let data = match histories.list_files().into_iter().find(|d| d.hash() == hash && d.props().calc_filename() == f.name()) {
            Some(d) => d,
            None => {
                ensure!(d.gone, "{} is not listed", f.name());
                continue;
            }
        };
        let validation = g.bool();
        let r = quiet("loading a history file that is damaged or needs a damaged one", || load_history_file_data(&w.info, &data, validation))?;
        w.current = None;
        cx.nontrivial_if(d.real && !d.empty);
        match r {
            Ok(root) => {
                cx.label("damaged, loaded");
                let s = w.v.schema().clone();
                quiet("reading what was loaded from a damaged history file", || observe(&s, &root))?;
                if g.chance(1, 3) && f.ver == w.v.cur {
                    // goes on from there
                    cx.label("saved on a damaged file");
                    let r = quiet("saving on a damaged history file", || save_history_file(&w.info, None, &root))?;
                    if let Ok(p) = r {
                        let _ = std::fs::remove_file(hash_dir.join(p.calc_filename()));
                    }
                    w.info = unsafe { init_dochy_cache_us(&w.dir, w.src.clone(), &w.opt) }.or_vio("opening a history directory")?;
                }
            }
            Err(_) => cx.label("damaged, refused"),
        }
    }
    d.repair(&hash_dir.join(&name));
    w.live.clear();
    w.info = unsafe { init_dochy_cache_us(&w.dir, w.src.clone(), &w.opt) }.or_vio("opening a history directory")?;
    w.current = None;
    w.check_all(g, cx)
}
