//! Sizes beyond those of the other suites: long values, long histories, directories with many files.

use super::history::Op as Options;
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_core::structs::RootObject;
use dochy_diff::{apply_diff, get_diff};
use dochy_fs::common::CurrentSrc;
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::Duration;

const NORMAL: Vt = Vt { null: false, undef: false };

/// Lengths around the limits of 16 bits and well beyond them.
pub fn length(g: &mut Gen) -> usize {
    match g.weighted(&[2, 3, 3, 2, 1]) {
        0 => g.range(1000, 40_000),
        1 => 65_530 + g.us(12),
        2 => g.range(65_536, 140_000),
        3 => g.range(140_000, 400_000),
        _ => (1 << 20) - 4 + g.us(9),
    }
}

pub fn noise(seed: u64, len: usize) -> impl Iterator<Item = u64> {
    let mut x = seed;
    (0..len).map(move |_| {
        x = mix(x);
        x
    })
}

fn gen_large(g: &mut Gen, ty: Ty) -> Val {
    let n = length(g);
    gen_sized(g, ty, n)
}

pub fn gen_sized(g: &mut Gen, ty: Ty, n: usize) -> Val {
    let seed = g.u64();
    let kind = g.us(3);
    match ty {
        Ty::Str => {
            let chars = ['a', '0', '"', 'é', 'あ', '\n', '\\', '😀'];
            let mut s = String::new();
            for x in noise(seed, n) {
                let c = match kind {
                    0 => 'a',
                    1 => chars[(x >> 9) as usize % 3],
                    _ => chars[(x >> 9) as usize % chars.len()],
                };
                if s.len() + c.len_utf8() > n {
                    break;
                }
                s.push(c);
            }
            while s.len() < n {
                s.push('z');
            }
            Val::Str(s)
        }
        Ty::Ints => Val::Ints(noise(seed, n / 4).map(|x| if kind == 0 { (x % 5) as i64 } else { x as i64 }).collect()),
        Ty::Floats => Val::Floats(noise(seed, n / 4).map(|x| (x as i64 >> 20) as f64 / 8.0).collect()),
        _ => Val::Bin(noise(seed, n).map(|x| if kind == 0 { 7 } else { (x >> 13) as u8 }).collect()),
    }
}

const TYPES: [Ty; 4] = [Ty::Str, Ty::Bin, Ty::Ints, Ty::Floats];

fn empty(ty: Ty) -> Val {
    match ty {
        Ty::Str => Val::Str(String::new()),
        Ty::Ints => Val::Ints(vec![]),
        Ty::Floats => Val::Floats(vec![]),
        _ => Val::Bin(vec![]),
    }
}

fn large_document(g: &mut Gen, cx: &mut Cx) -> Res<(Schema, std::path::PathBuf, Doc, RootObject)> {
    let params: Vec<PDef> = TYPES.iter().enumerate().map(|(i, ty)| PDef { name: format!("p{}", i), ty: *ty, vt: NORMAL, def: empty(*ty) }).collect();
    let def = ListDef { params: params.clone(), ..ListDef::default() };
    let mut s = Schema { mems: params.iter().cloned().map(RMem::Param).collect() };
    s.mems.push(RMem::MList("list".into(), def, false, MList { items: vec![(0, MItem::default())], next_id: 1 }));
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let mut log = vec![];
    let mut text = vec![];
    for _ in 0..g.range(1, 3) {
        let p = g.pick(&params).clone();
        let v = gen_large(g, p.ty);
        let item = g.bool();
        text.push(format!("{:?} of {} in {}", p.ty, size(&v), if item { "an item" } else { "the root" }));
        let op = if item {
            Op::SetItem(LPath { root: "list".into(), steps: vec![] }, 0, p.name, p.ty, v)
        } else {
            Op::SetRoot(p.name, p.ty, v)
        };
        apply_both(&s, &mut doc, &mut root, op, &mut log)?;
    }
    cx.sample = Some(text.join(", "));
    cx.nontrivial = true;
    Ok((s, dir, doc, root))
}

fn size(v: &Val) -> usize {
    match v {
        Val::Str(s) => s.len(),
        Val::Bin(b) => b.len(),
        Val::Ints(i) => i.len(),
        Val::Floats(f) => f.len(),
        _ => 0,
    }
}

/// A document with long lists whose tables and constant lists have many rows.
fn long_document(g: &mut Gen, cx: &mut Cx) -> Res<(Schema, std::path::PathBuf, Doc, RootObject)> {
    let need_refs = g.chance(1, 3);
    let mut s = gen_schema(g, &Opts { need_mlist: true, need_refs, wide: 0, max_depth: 1, ..Opts::default() });
    let rows = *g.pick(&[0usize, 60, 300, 1100]);
    add_rows(&mut s, rows);
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let mut log = vec![];
    let mut longest = 0;
    for _ in 0..g.range(1, 4) {
        longest = longest.max(super::diff::grow(g, &s, &mut doc, &mut root, &mut log)?);
        check_doc(&s, &doc, &root, "document with long lists")?;
    }
    cx.sample = Some(format!("{} more rows, {} operations, up to {} items: {}", rows, log.len(), longest, clip(&schema_text(&s))));
    cx.label(if longest >= 256 { "list of 256 items or more" } else if longest >= 64 { "list of 64 items or more" } else { "short list" });
    cx.nontrivial = rows >= 60 || longest >= 64;
    Ok((s, dir, doc, root))
}

/// Makes the tables and constant lists longer that have rows at all.
pub fn add_rows(s: &mut Schema, rows: usize) {
    for m in s.mems.iter_mut() {
        match m {
            RMem::Table(_, _, items) if !items.is_empty() => {
                for k in 0..rows {
                    let it = items[k % items.len().min(7)].1.clone();
                    items.push((format!("row{}", k * 7919 % 100_003), it));
                }
            }
            RMem::CList(_, _, items) if !items.is_empty() => {
                for k in 0..rows {
                    let it = items[k % items.len().min(7)].clone();
                    items.push(it);
                }
            }
            _ => {}
        }
    }
}

fn sized_document(g: &mut Gen, cx: &mut Cx) -> Res<(Schema, std::path::PathBuf, Doc, RootObject)> {
    if g.bool() {
        long_document(g, cx)
    } else {
        large_document(g, cx)
    }
}

/// R01
pub fn values(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, _, doc, root) = sized_document(g, cx)?;
    check_doc(&s, &doc, &root, "document with large values")
}

/// R02
pub fn clones(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, _, doc, root) = sized_document(g, cx)?;
    let mut live = vec![(doc, root)];
    for _ in 0..g.range(1, 4) {
        let (d, r) = g.pick(&live);
        let c = (d.clone(), r.clone());
        live.push(c);
    }
    let mut log = vec![];
    for _ in 0..g.range(1, 5) {
        let k = g.us(live.len());
        let (d, r) = &mut live[k];
        if s.mems.iter().any(|m| m.name() == "p1") && g.chance(2, 3) {
            let i = g.us(TYPES.len());
            let (name, ty) = (format!("p{}", i), TYPES[i]);
            let v = gen_large(g, ty);
            let lp = LPath { root: "list".into(), steps: vec![] };
            let op = match g.us(4) {
                0 => Op::SetRoot(name, ty, v),
                1 => Op::MutRoot(name, ty, v),
                2 => Op::SetItem(lp, 0, name, ty, v),
                _ => Op::MutItem(lp, 0, name, ty, v),
            };
            apply_both(&s, d, r, op, &mut log)?;
        } else {
            super::diff::grow(g, &s, d, r, &mut log)?;
        }
        if live.len() > 1 && g.chance(1, 6) {
            let k = g.us(live.len());
            live.remove(k);
        }
        for (k, (d, r)) in live.iter().enumerate() {
            check_doc(&s, d, r, &format!("document {} of {}", k, live.len()))?;
        }
    }
    Ok(())
}

/// L01
pub fn lists(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, _, mut doc, mut root) = long_document(g, cx)?;
    let mut log = vec![];
    for lp in doc.list_paths(&s) {
        let want = match doc.list(&lp) {
            Some(l) => l,
            None => continue,
        };
        let l = real_list(&mut root, &lp).or_vio("list")?;
        ensure!(l.len() == want.items.len() && l.is_empty() == want.items.is_empty() && l.next_id() == want.next_id, "length {} or next ID {} of {:?}", l.len(), l.next_id(), lp);
        ensure!(l.first_id() == want.items.first().map(|i| i.0) && l.last_id() == want.items.last().map(|i| i.0), "first {:?} or last {:?} of {:?}", l.first_id(), l.last_id(), lp);
        let ids: BTreeSet<u64> = want.items.iter().map(|i| i.0).collect();
        for id in 0..want.next_id.min(3000) {
            ensure!(l.contains_key(id) == ids.contains(&id) && l.get_item_const(id).is_some() == ids.contains(&id), "item {} of {:?}", id, lp);
        }
    }
    // emptied and filled again
    let paths = doc.list_paths(&s);
    let lp = g.pick(&paths).clone();
    let ids: Vec<u64> = doc.list(&lp).map(|l| l.items.iter().map(|i| i.0).collect()).unwrap_or_default();
    for id in ids {
        let op = match g.us(3) {
            0 => Op::RemoveFirst(lp.clone()),
            1 => Op::RemoveLast(lp.clone()),
            _ => Op::Remove(lp.clone(), id),
        };
        apply_both(&s, &mut doc, &mut root, op, &mut log)?;
    }
    check_doc(&s, &doc, &root, "emptied list")?;
    super::diff::grow(g, &s, &mut doc, &mut root, &mut log)?;
    check_doc(&s, &doc, &root, "list filled again")
}

/// L02
pub fn iterations(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, _, doc, mut root) = long_document(g, cx)?;
    for lp in doc.list_paths(&s) {
        let ids: Vec<u64> = match doc.list(&lp) {
            Some(l) => l.items.iter().map(|i| i.0).collect(),
            None => continue,
        };
        let mut l = real_list(&mut root, &lp).or_vio("list")?;
        let back: Vec<u64> = ids.iter().rev().cloned().collect();
        let got: Vec<u64> = l.iter_const().map(|i| i.0).collect();
        ensure!(got == ids, "read-only iteration visits {:?}, expected {:?}", got, ids);
        let got: Vec<u64> = l.iter_mut().map(|i| i.0).collect();
        ensure!(got == ids, "mutable iteration visits {:?}, expected {:?}", got, ids);
        let mut it = l.iter_from_last_const();
        let mut got = vec![];
        while let Some((id, _)) = it.prev_const() {
            ensure!(got.len() < ids.len(), "iterating backwards does not end");
            got.push(id);
        }
        ensure!(got == back, "backward iteration visits {:?}, expected {:?}", got, back);
        for _ in 0..4 {
            if ids.is_empty() {
                break;
            }
            let at = g.us(ids.len());
            let got: Vec<u64> = l.iter_from_id_const(ids[at]).or_vio("iteration from an item")?.map(|i| i.0).collect();
            ensure!(got == ids[at..], "iteration from {} visits {:?}, expected {:?}", ids[at], got, &ids[at..]);
            let mut it = l.iter_from_id_mut(ids[at]).or_vio("iteration from an item")?;
            let mut got = vec![];
            while let Some((id, _)) = it.prev_mut() {
                ensure!(got.len() < ids.len(), "iterating backwards does not end");
                got.push(id);
            }
            ensure!(got == back[ids.len() - 1 - at..], "backward iteration from {} visits {:?}", ids[at], got);
        }
    }
    Ok(())
}

pub fn differences(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, dir, doc, root) = large_document(g, cx)?;
    let mut fresh = load_source(&dir)?;
    let d = get_diff(&fresh, &root).or_vio("taking a difference")?;
    apply_diff(&mut fresh, &mut d.as_slice()).or_vio("applying a difference")?;
    check_doc(&s, &doc, &fresh, "difference of large values")
}

pub fn export(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, _, doc, root) = sized_document(g, cx)?;
    let text = dochy_core::root_to_json_new_default(&root).or_vio("exporting")?.to_string_pretty();
    let dir = cx.dir();
    std::fs::write(dir.join("root.json5"), text).or_vio("writing a source")?;
    let again = load_source(&dir)?;
    let f = super::source::frozen(&s, &doc);
    check_doc(&f, &f.initial(), &again, "export of large values")
}

pub fn file_values(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, dir, doc, root) = sized_document(g, cx)?;
    let out = cx.dir();
    let info = SaveDirInfo::create(&out, CurrentSrc::from_src_dir(&dir)).or_vio("opening a save directory")?;
    let path = save_dochy_file(&info, "f", &root, false).or_vio("saving a file")?;
    let back = load_dochy_file(&path, &info, g.bool()).or_vio("loading a file")?;
    check_doc(&s, &doc, &back, "file with large values")?;
    let out = cx.dir();
    let opts = Options::gen(g).build(g)?;
    let info = HistoryInfo::create(&out, CurrentSrc::from_src_dir(&dir), &opts).or_vio("opening a history directory")?;
    for _ in 0..g.range(1, 3) {
        let props = save_history_file(&info, None, &root).or_vio("saving a history file")?;
        let list = list_histories(&info).or_vio("listing histories")?;
        let files = list.list_files();
        let f = match files.iter().find(|f| f.props() == &props) {
            Some(f) => f,
            None => vio!("a saved history file is not listed"),
        };
        let back = load_history_file_data(&info, f, g.bool()).or_vio("loading a history file")?;
        check_doc(&s, &doc, &back, "history file with large values")?;
    }
    Ok(())
}

// ------------------------------------------------------------------ many files

fn number_source(cx: &mut Cx) -> Res<(Schema, std::path::PathBuf, RootObject)> {
    let s = Schema { mems: vec![RMem::Param(PDef { name: "n".into(), ty: Ty::Int, vt: NORMAL, def: Val::Int(-1) })] };
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let root = load_source(&dir)?;
    Ok((s, dir, root))
}

fn set(s: &Schema, r: &mut RootObject, n: i64) -> Res<()> {
    ensure!(apply_real(s, r, &Op::SetRoot("n".into(), Ty::Int, Val::Int(n))), "setting a parameter failed");
    Ok(())
}

fn is(s: &Schema, r: &RootObject, n: i64, what: &str) -> Res<()> {
    let mut want = s.initial();
    apply_model(s, &mut want, &Op::SetRoot("n".into(), Ty::Int, Val::Int(n)));
    check_doc(s, &want, r, what)
}

/// Directories with hundreds of files.
pub fn many_files(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, src, mut root) = number_source(cx)?;
    let dir = cx.dir();
    let info = SaveDirInfo::create(&dir, CurrentSrc::from_src_dir(&src)).or_vio("opening a save directory")?;
    let n = *g.pick(&[40usize, 130, 270, 700]);
    let names = g.range(n / 2, n + 1) as u64;
    let mut seed = g.u64();
    let mut pick = |below: u64| {
        seed = mix(seed);
        (seed >> 8) % below
    };
    let mut files: BTreeMap<String, i64> = BTreeMap::new();
    for i in 0..n as i64 {
        set(&s, &mut root, i)?;
        let name = format!("file{}.dat", pick(names));
        save_dochy_file(&info, &name, &root, true).or_vio("saving a file")?;
        files.insert(name, i);
        if pick(9) == 0 {
            let name = format!("file{}.dat", pick(names));
            if files.remove(&name).is_some() {
                remove_dochy_file(&dir, info.hash(), &name).or_vio("removing a file")?;
            }
        }
    }
    cx.sample(|| format!("{} saves under {} names", n, names));
    let list = list_dochy_files(&dir).or_vio("listing files")?;
    let listed: BTreeSet<String> = list.iter().map(|f| f.name().to_string()).collect();
    ensure!(list.len() == files.len() && listed.iter().eq(files.keys()), "{} files are listed, {} are there", list.len(), files.len());
    ensure!(list.windows(2).all(|w| w[0].modified() <= w[1].modified()), "{} files are not listed by time", list.len());
    for f in &list {
        let r = load_dochy_file(f.calc_path(&dir), &info, false).or_vio("loading a file")?;
        is(&s, &r, files[f.name()], f.name())?;
    }
    cx.nontrivial_if(files.len() > 20);
    Ok(())
}

/// the parameters of the documents of long histories; a file takes many others to read all of them
const FIELDS: usize = 40;

fn numbers_source(cx: &mut Cx) -> Res<(Schema, std::path::PathBuf, RootObject)> {
    let mems = (0..FIELDS).map(|i| RMem::Param(PDef { name: format!("n{}", i), ty: Ty::Int, vt: NORMAL, def: Val::Int(-1) })).collect();
    let s = Schema { mems };
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let root = load_source(&dir)?;
    Ok((s, dir, root))
}

/// A document and what its parameters have to be.
struct Numbers {
    root: RootObject,
    ns: Vec<i64>,
}

impl Numbers {
    fn set(&mut self, s: &Schema, k: u64, n: i64) -> Res<()> {
        let k = k as usize % FIELDS;
        self.ns[k] = n;
        ensure!(apply_real(s, &mut self.root, &Op::SetRoot(format!("n{}", k), Ty::Int, Val::Int(n))), "setting a parameter failed");
        Ok(())
    }
}

struct Long {
    dir: std::path::PathBuf,
    /// in the order of saving
    files: Vec<(FileNameProps, Vec<i64>)>,
}

impl Long {
    fn listed(&self, info: &HistoryInfo) -> Res<()> {
        let list = list_histories(info).or_vio("listing histories")?;
        let got: Vec<_> = list.list_files().iter().map(|f| f.props().clone()).collect();
        if let Some(k) = (0..got.len().max(self.files.len())).find(|k| got.get(*k) != self.files.get(*k).map(|f| &f.0)) {
            vio!("of {} files the one with number {} is listed as {:?}, {:?} was saved", self.files.len(), k, got.get(k), self.files.get(k));
        }
        let newest = list.get_newest_file_data().map(|f| f.props().clone());
        ensure!(newest.as_ref() == self.files.last().map(|f| &f.0), "the newest file is said to be {:?}", newest);
        Ok(())
    }
    fn load(&self, s: &Schema, info: &HistoryInfo, k: usize) -> Res<Numbers> {
        let list = list_histories(info).or_vio("listing histories")?;
        let files = list.list_files();
        let (p, ns) = &self.files[k];
        let f = match files.iter().find(|f| f.props() == p) {
            Some(f) => f,
            None => vio!("{} is not listed", p.calc_filename()),
        };
        let r = load_history_file_data(info, f, false).or_vio("loading a history file")?;
        let mut want = s.initial();
        for (i, n) in ns.iter().enumerate().filter(|x| *x.1 != -1) {
            apply_model(s, &mut want, &Op::SetRoot(format!("n{}", i), Ty::Int, Val::Int(*n)));
        }
        check_doc(s, &want, &r, &p.calc_filename())?;
        Ok(Numbers { root: r, ns: ns.clone() })
    }
}

/// Hundreds of saves into one history, in long series, in many branches or queued in the background.
pub fn long_histories(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, src, root) = numbers_source(cx)?;
    let mut doc = Numbers { root, ns: vec![-1; FIELDS] };
    let dir = cx.dir();
    let op = match g.us(5) {
        0 => Options { max_phase: 0, update0: true, cum: None },
        1 => Options { max_phase: g.range(1, 4), update0: false, cum: None },
        2 => Options { max_phase: g.us(3), update0: true, cum: Some((None, None)) },
        3 => Options { max_phase: g.range(1, 3), update0: false, cum: Some((None, Some(300))) },
        _ => Options::gen(g),
    };
    let opts = op.build(g)?;
    let info = HistoryInfo::create(&dir, CurrentSrc::from_src_dir(&src), &opts).or_vio("opening a history directory")?;
    let n = *g.pick(&[30usize, 130, 270, 400]);
    // one save in so many follows the load of some file, is queued with others
    let branch = *g.pick(&[1u64, 3, 20, 100_000]);
    let burst = *g.pick(&[100_000u64, 100_000, 40, 10]);
    let mut seed = g.u64();
    let mut pick = |below: u64| {
        seed = mix(seed);
        (seed >> 8) % below
    };
    cx.sample(|| format!("{} saves, one in {} after a load, one in {} begins a queue, {:?}", n, branch, burst, op));
    let mut h = Long { dir: dir.clone(), files: vec![] };
    let mut i = 0;
    while h.files.len() < n {
        if !h.files.is_empty() && pick(branch) == 0 {
            let k = pick(h.files.len() as u64) as usize;
            doc = h.load(&s, &info, k)?;
        }
        if pick(burst) == 0 {
            let (tx, rx) = std::sync::mpsc::channel();
            let m = 20 + pick(130) as i64;
            let mut states = vec![];
            for k in 0..m {
                let tx = tx.clone();
                doc.set(&s, pick(FIELDS as u64), i + k)?;
                states.push(doc.ns.clone());
                save_history_file_nb(&info, None, &doc.root, move |r| {
                    let _ = tx.send((k, r.map_err(|e| e.to_string())));
                });
            }
            for k in 0..m {
                let (j, r) = rx.recv_timeout(Duration::from_secs(60)).or_vio("waiting for background saves")?;
                ensure!(j == k, "background save {} of {} is reported as number {}", j, m, k);
                h.files.push((r.or_vio("a background save")?, states[k as usize].clone()));
            }
            i += m;
            cx.label("queued");
        } else {
            doc.set(&s, pick(FIELDS as u64), i)?;
            let tag = if pick(5) == 0 { Some(format!("t{}", i)) } else { None };
            h.files.push((save_history_file(&info, tag.clone(), &doc.root).or_vio("saving a history file")?, doc.ns.clone()));
            ensure!(h.files[h.files.len() - 1].0.tag() == tag.as_deref(), "saved with tag {:?}, named {:?}", tag, h.files[h.files.len() - 1].0);
            i += 1;
        }
    }
    h.listed(&info)?;
    for _ in 0..20 {
        h.load(&s, &info, pick(h.files.len() as u64) as usize)?;
    }
    if let Some(m) = h.files.iter().map(|f| f.0.control()).max() {
        cx.label(if m >= 256 { "256 branches" } else if m >= 10 { "ten branches" } else { "few branches" });
    }
    if let Some(m) = h.files.iter().flat_map(|f| f.0.order().iter().copied()).max() {
        cx.label(if m >= 256 { "256 in a row" } else if m >= 10 { "ten in a row" } else { "few in a row" });
    }
    // the newest of many are kept
    let keep = 1 + pick(n as u64) as usize;
    let list = list_histories(&info).or_vio("listing histories")?;
    list.remove_old_files(keep, &h.dir).or_vio("removing old files")?;
    let left = names(&info)?;
    let total = h.files.len();
    for (k, f) in h.files.iter().enumerate() {
        ensure!(k + keep < total || left.contains(&f.0.calc_filename()), "{} is not kept among the newest {}", f.0.calc_filename(), keep);
    }
    h.files.retain(|f| left.contains(&f.0.calc_filename()));
    h.listed(&info)?;
    for _ in 0..10 {
        let back = pick(keep.min(h.files.len()) as u64) as usize;
        h.load(&s, &info, h.files.len() - 1 - back)?;
    }
    doc = h.load(&s, &info, h.files.len() - 1)?;
    doc.set(&s, pick(FIELDS as u64), -2)?;
    h.files.push((save_history_file(&info, None, &doc.root).or_vio("saving a history file")?, doc.ns.clone()));
    h.listed(&info)?;
    // another process
    close(&dir, &src, &opts);
    h.load(&s, &info, h.files.len() - 1)?;
    let k = h.files.len() - 1 - pick(keep.min(h.files.len()) as u64) as usize;
    h.load(&s, &info, k)?;
    close(&dir, &src, &opts);
    cx.nontrivial_if(n > 100);
    Ok(())
}

fn names(info: &HistoryInfo) -> Res<BTreeSet<String>> {
    let list = list_histories(info).or_vio("listing histories")?;
    Ok(list.list_files().iter().map(|f| f.props().calc_filename()).collect())
}

fn close(dir: &Path, src: &Path, opts: &HistoryOptions) {
    let _ = unsafe { init_dochy_cache_us(dir, CurrentSrc::from_src_dir(src), opts) };
}
