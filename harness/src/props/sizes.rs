//! H06: what history files hold.

use super::history::Op as Options;
use super::{suite, Prop};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use dochy_core::structs::RootObject;
use dochy_diff::get_diff;
use dochy_fs::common::{hash_dir_path, CurrentSrc};
use dochy_fs::filesys::{save_dochy_file, SaveDirInfo};
use dochy_fs::history::*;
use std::collections::BTreeMap;
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "H06",
        suites: vec![suite("saves", saves, 25_000, 500_000)],
        rule: "a file was saved that builds on another one and would be several times larger if it held everything",
        level: "exploration",
        assumptions: &["the document is saved by the process that has saved the files it builds on"],
    }]
}

fn noise(g: &mut Gen, len: usize) -> Vec<u8> {
    let mut x = g.u64();
    (0..len)
        .map(|_| {
            x = mix(x);
            x as u8
        })
        .collect()
}

/// Sources with some members that hold a lot, next to any others.
fn saves(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut s = gen_schema(g, &Opts { wide: 0, ..Opts::default() });
    let normal = Vt { null: false, undef: false };
    let big = PDef { name: "big_data".into(), ty: Ty::Bin, vt: normal, def: Val::Bin(vec![]) };
    let text = PDef { name: "big_text".into(), ty: Ty::Str, vt: normal, def: Val::Str(String::new()) };
    let def = ListDef { params: vec![big.clone(), text.clone()], ..ListDef::default() };
    s.mems.retain(|m| !m.name().starts_with("big_"));
    s.mems.push(RMem::Param(big));
    s.mems.push(RMem::Param(text));
    s.mems.push(RMem::MList("big_list".into(), def, false, MList::default()));
    let src_dir = cx.dir();
    write_source(&src_dir, &s, &Style::plain());
    let dir = cx.dir();
    let op = Options::gen(g);
    let opts = op.build(g)?;
    let info = HistoryInfo::create(&dir, CurrentSrc::from_src_dir(&src_dir), &opts).or_vio("opening a history directory")?;
    let source = get_peekable_info(&info).clone_src_root();
    let mut root = if g.bool() { source.clone() } else { load_source(&src_dir)? };
    let mut doc = s.initial();
    let mut log = vec![];
    let hash = get_peekable_info(&info).hash();
    let hash_dir = hash_dir_path(&dir, hash);
    let mut saved: BTreeMap<(u32, Vec<u32>), RootObject> = BTreeMap::new();
    let own = load_source(&src_dir)?;
    let save_dir = cx.dir();
    let mut sinfo: Option<SaveDirInfo> = None;
    let mut states: BTreeMap<String, Doc> = BTreeMap::new();
    let mut err = None;
    let fill = |g: &mut Gen, doc: &mut Doc, root: &mut RootObject, log: &mut Vec<Op>| -> Res<()> {
        let len = g.range(300, 3000);
        let list = LPath { root: "big_list".into(), steps: vec![] };
        let bytes = noise(g, len);
        let text: String = bytes.iter().map(|b| (b'a' + b % 26) as char).collect();
        let op = match g.us(3) {
            0 => Op::SetRoot("big_data".into(), Ty::Bin, Val::Bin(bytes)),
            1 => Op::SetRoot("big_text".into(), Ty::Str, Val::Str(text)),
            _ => {
                apply_both(&s, doc, root, Op::Insert { list: list.clone(), first: false, refs: BTreeMap::new() }, log)?;
                let id = doc.list(&list).and_then(|l| l.items.last().map(|i| i.0)).unwrap_or(0);
                if g.bool() {
                    Op::SetItem(list, id, "big_data".into(), Ty::Bin, Val::Bin(bytes))
                } else {
                    Op::SetItem(list, id, "big_text".into(), Ty::Str, Val::Str(text))
                }
            }
        };
        apply_both(&s, doc, root, op, log)?;
        Ok(())
    };
    for _ in 0..g.range(1, 4) {
        fill(g, &mut doc, &mut root, &mut log)?;
    }
    g.many(2, 16, 7, |g, _| {
        if err.is_some() {
            return;
        }
        let r = (|| -> Res<()> {
            if g.chance(1, 6) {
                fill(g, &mut doc, &mut root, &mut log)?;
            }
            for _ in 0..g.us(4) {
                step(g, &s, &mut doc, &mut root, &OpOpts::default(), &mut log)?;
            }
            match g.weighted(&[16, 1, 1, 1, 1]) {
                1 => {
                    // goes on from a file read back, which shares nothing with what the process has saved
                    let list = list_histories(&info).or_vio("listing histories")?;
                    let files = list.list_files();
                    if !files.is_empty() {
                        let f = g.pick(&files);
                        root = load_history_file_data(&info, f, g.bool()).or_vio("loading a history file")?;
                        doc = states.get(f.props().calc_filename().as_str()).or_vio("the state of a listed file")?.clone();
                        saved.clear();
                        cx.label("went on from a loaded file");
                    }
                }
                2 => {
                    let list = list_histories(&info).or_vio("listing histories")?;
                    let files = list.list_files();
                    if !files.is_empty() {
                        load_history_file_data(&info, g.pick(&files), g.bool()).or_vio("loading a history file")?;
                        cx.label("loaded a file");
                    }
                }
                3 => {
                    let list = list_histories(&info).or_vio("listing histories")?;
                    list.remove_old_files(g.range(1, 4), &dir).or_vio("removing old files")?;
                }
                4 => {
                    let sinfo = match &sinfo {
                        Some(i) => i,
                        None => {
                            sinfo = Some(SaveDirInfo::create(&save_dir, CurrentSrc::from_src_dir(&src_dir)).or_vio("opening a save directory")?);
                            sinfo.as_ref().unwrap()
                        }
                    };
                    let path = save_dochy_file(sinfo, "f", &root, true).or_vio("saving a file")?;
                    let size = std::fs::metadata(&path).or_vio("a saved file")?.len() as usize;
                    let need = get_diff(&own, &root).or_vio("taking a difference")?.len();
                    ensure!(size <= need + 256, "a saved file has {} bytes, what differs from the source takes {}", size, need);
                    cx.label("save directory");
                }
                _ => {}
            }
            let props = if g.chance(1, 3) {
                let (tx, rx) = std::sync::mpsc::channel();
                save_history_file_nb(&info, None, &root, move |r| {
                    let _ = tx.send(r.map_err(|e| e.to_string()));
                });
                rx.recv_timeout(Duration::from_secs(60)).or_vio("waiting for a background save")?.or_vio("a background save")?
            } else {
                save_history_file(&info, None, &root).or_vio("saving a history file")?
            };
            let size = std::fs::metadata(hash_dir.join(props.calc_filename())).or_vio("a saved file")?.len() as usize;
            let order = props.order().to_vec();
            let last = *order.last().unwrap_or(&0);
            let parent = if order.len() == op.max_phase + 1 && op.cum.is_some() && last > 0 {
                let mut o = order.clone();
                *o.last_mut().unwrap() -= 1;
                Some((props.control(), o))
            } else if order.len() > 1 {
                Some((props.prev_ctl(), order[..order.len() - 1].to_vec()))
            } else {
                None
            };
            states.insert(props.calc_filename(), doc.clone());
            let base = match &parent {
                Some(p) => saved.get(p).cloned(),
                None => Some(source.clone()),
            };
            saved.insert((props.control(), order), root.clone());
            let base = match base {
                Some(b) => b,
                None => return Ok(()),
            };
            let need = get_diff(&base, &root).or_vio("taking a difference")?.len();
            let all = get_diff(&source, &root).or_vio("taking a difference")?.len();
            ensure!(
                size <= need + 256,
                "{} has {} bytes, what changed since {:?} takes {} and everything {} ({:?})",
                props.calc_filename(), size, parent, need, all, op
            );
            if parent.is_some() && all > 4 * (need + 256) {
                cx.nontrivial = true;
            }
            Ok(())
        })();
        err = r.err();
    });
    cx.sample = Some(format!("{:?}; source {} operations: {}", op, clip(&schema_text(&s)), ops_text(&log)));
    match err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
