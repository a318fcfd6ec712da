//! M01: memory is given back.

use super::history::Op as Options;
use super::version::evolve;
use super::{suite, Prop};
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use dochy_core::structs::RootObject;
use dochy_diff::{apply_diff, get_diff};
use dochy_fs::common::CurrentSrc;
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::path::Path;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "M01",
        suites: vec![suite("documents", documents, 12_000, 250_000), suite("directories", directories, 2500, 50_000)],
        rule: "documents: the program repeated edits a document at least three times; directories: more states were saved than the process may hold",
        level: "exploration",
        assumptions: &["memory is what the program has requested from the allocator and not given back"],
    }]
}

/// Bytes in use, once they no longer change: threads that have done their work may still be ending.
fn live() -> i64 {
    let mut last = crate::live_bytes();
    let t0 = Instant::now();
    let mut same = 0;
    while same < 3 && t0.elapsed() < Duration::from_secs(5) {
        std::thread::sleep(Duration::from_micros(300));
        let now = crate::live_bytes();
        same = if now == last { same + 1 } else { 0 };
        last = now;
    }
    last
}

/// Everything a program does with documents in memory, all of it dropped in the end.
fn program(s: &Schema, dir: &Path, next: &Path, ops: &[Op], cut: usize) -> Res<()> {
    let root = load_source(dir)?;
    let mut r = root.clone();
    let mut copies: Vec<RootObject> = vec![];
    for (i, op) in ops.iter().enumerate() {
        apply_real(s, &mut r, op);
        if i % 3 == 1 {
            copies.push(r.clone());
        }
        if i % 7 == 5 {
            copies.remove(0);
        }
    }
    let d = get_diff(&root, &r).or_vio("taking a difference")?;
    let mut x = root.clone();
    apply_diff(&mut x, &mut d.as_slice()).or_vio("applying a difference")?;
    let mut y = root.clone();
    let _ = apply_diff(&mut y, &mut &d[..d.len().min(cut)]);
    let _ = x.contents_eq(&r);
    let _ = observe(s, &x);
    let _ = dochy_core::root_to_json_new_default(&r).map(|j| j.to_string_pretty());
    let mut bytes = vec![];
    dochy_core::archive_src_dir(dir, &mut bytes).or_vio("archiving a source")?;
    let a = dochy_core::read_archive_to_root(&mut bytes.as_slice(), true);
    let _ = dochy_core::read_archive_to_root(&mut &bytes[..bytes.len().min(cut)], true);
    let to = load_source(next)?;
    let _ = dochy_core::adjust_versions(to.clone(), r, true);
    let _ = dochy_core::adjust_versions(to, x, false);
    drop(root);
    drop(a);
    Ok(())
}

fn documents(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let need_mlist = g.chance(1, 2);
    let s = gen_schema(g, &Opts { wide: 0, need_mlist, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let n = evolve(g, &s);
    let next = cx.dir();
    write_source(&next, &n, &Style::plain());
    let mut ops = vec![];
    {
        let mut root = load_source(&dir)?;
        let mut doc = s.initial();
        let mut err = None;
        g.many(0, 40, 12, |g, _| {
            if err.is_none() {
                err = step(g, &s, &mut doc, &mut root, &OpOpts::default(), &mut ops).err();
            }
        });
        if let Some(e) = err {
            return Err(e);
        }
    }
    let cut = g.us(200);
    cx.sample(|| format!("source {} operations: {}", clip(&schema_text(&s)), ops_text(&ops)));
    let run = |times: usize| -> Res<i64> {
        let before = live();
        for _ in 0..times {
            program(&s, &dir, &next, &ops, cut)?;
        }
        Ok(live() - before)
    };
    run(1)?;
    // what remains after a few repetitions has to stay the same after many more
    if run(2)? > 0 {
        cx.label("repeated");
        let mut grown = vec![];
        while grown.len() < 6 && grown.iter().all(|n| *n >= 480) {
            grown.push(run(30)?);
        }
        ensure!(
            grown.iter().any(|n| *n < 480),
            "each of six times 30 repetitions of a program that drops all its documents leaves memory in use: {:?} bytes",
            grown
        );
    }
    cx.nontrivial_if(ops.len() >= 3);
    Ok(())
}

/// a document's contents that compression does not make smaller
fn noise(seed: &mut u64, len: usize) -> Vec<u8> {
    (0..len)
        .map(|_| {
            *seed = mix(*seed);
            *seed as u8
        })
        .collect()
}

/// A process that goes on saving and loading documents, each of which shares nothing with the last.
fn directories(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    const SIZE: usize = 24 << 10;
    let s = Schema { mems: vec![
        RMem::Param(PDef { name: "data".into(), ty: Ty::Bin, vt: Vt { null: false, undef: false }, def: Val::Bin(vec![]) }),
        RMem::Param(PDef { name: "n".into(), ty: Ty::Int, vt: Vt { null: false, undef: false }, def: Val::Int(0) }),
    ] };
    let src_dir = cx.dir();
    write_source(&src_dir, &s, &Style::plain());
    let dir = cx.dir();
    let op = Options::gen(g);
    let hist = g.chance(3, 4);
    let phases = if hist { op.max_phase } else { 0 };
    // documents the process may hold: one per phase, the one being edited, and some to spare
    let may = phases + 4;
    let limit = (may * 2 * SIZE + (96 << 10)) as i64;
    let rounds = 3 * may + g.range(6, 12);
    cx.sample(|| format!("{} rounds of {} bytes, history {} {:?}", rounds, SIZE, hist, op));
    let mut seed = g.u64();
    let src = CurrentSrc::from_src_dir(&src_dir);
    let opts = op.build(g)?;
    let before = live();
    let (hinfo, sinfo) = if hist {
        (Some(HistoryInfo::create(&dir, src, &opts).or_vio("opening a history directory")?), None)
    } else {
        (None, Some(SaveDirInfo::create(&dir, src).or_vio("opening a save directory")?))
    };
    let mut root = load_source(&src_dir)?;
    let mut names: Vec<String> = vec![];
    for i in 0..rounds {
        if i > 0 && g.chance(1, 4) {
            // documents loaded and dropped
            let n = g.range(1, 5 * may);
            if let Some(info) = &hinfo {
                let list = list_histories(info).or_vio("listing histories")?;
                let files = list.list_files();
                for _ in 0..n {
                    load_history_file_data(info, g.pick(&files), g.bool()).or_vio("loading a history file")?;
                }
            } else if let Some(info) = &sinfo {
                let files = list_dochy_files(&dir).or_vio("listing files")?;
                let paths: Vec<_> = files.iter().map(|f| f.calc_path(&dir)).collect();
                for _ in 0..n {
                    if !paths.is_empty() {
                        load_dochy_file(g.pick(&paths), info, g.bool()).or_vio("loading a file")?;
                    }
                }
            }
            cx.label("loads only");
            let used = live() - before;
            ensure!(
                used <= limit,
                "after loading and dropping {} documents of {} bytes the process holds {} bytes, more than {} for {} documents (history {}, {:?})",
                n, SIZE, used, limit, may, hist, op
            );
        }
        let ok = apply_real(&s, &mut root, &Op::SetRoot("data".into(), Ty::Bin, Val::Bin(noise(&mut seed, SIZE))));
        ensure!(ok, "setting a parameter failed");
        apply_real(&s, &mut root, &Op::SetRoot("n".into(), Ty::Int, Val::Int(i as i64)));
        let back = g.chance(1, 2);
        let act = g.weighted(&[6, 2, 2, 1]);
        if let Some(info) = &hinfo {
            if back {
                let (tx, rx) = std::sync::mpsc::channel();
                save_history_file_nb(info, None, &root, move |r| {
                    let _ = tx.send(r.map(|_| ()).map_err(|e| e.to_string()));
                });
                let r = rx.recv_timeout(Duration::from_secs(60)).or_vio("waiting for a background save")?;
                r.or_vio("a background save")?;
            } else {
                save_history_file(info, None, &root).or_vio("saving a history file")?;
            }
            let list = list_histories(info).or_vio("listing histories")?;
            match act {
                1 => {
                    let files = list.list_files();
                    let f = g.pick(&files);
                    root = load_history_file_data(info, f, g.bool()).or_vio("loading a history file")?;
                }
                2 => {
                    let files = list.list_files();
                    let f = g.pick(&files);
                    load_history_file_data(info, f, true).or_vio("loading a history file")?;
                }
                3 => {
                    list.remove_old_files(g.range(1, 4), &dir).or_vio("removing old files")?;
                }
                _ => {}
            }
        } else if let Some(info) = &sinfo {
            let name = format!("f{}", g.us(6));
            let path = if back {
                let (tx, rx) = std::sync::mpsc::channel();
                save_dochy_file_nb(info, &name, &root, true, move |r| {
                    let _ = tx.send(r.map_err(|e| e.to_string()));
                });
                let r = rx.recv_timeout(Duration::from_secs(60)).or_vio("waiting for a background save")?;
                r.or_vio("a background save")?
            } else {
                save_dochy_file(info, &name, &root, true).or_vio("saving a file")?
            };
            if !names.contains(&name) {
                names.push(name.clone());
            }
            match act {
                1 => root = load_dochy_file(&path, info, g.bool()).or_vio("loading a file")?,
                2 => {
                    load_dochy_file(&path, info, true).or_vio("loading a file")?;
                    list_dochy_files(&dir).or_vio("listing files")?;
                }
                3 => remove_dochy_file(&dir, info.hash(), &name).or_vio("removing a file")?,
                _ => {}
            }
        }
        let used = live() - before;
        ensure!(
            used <= limit,
            "after saving {} documents of {} bytes the process holds {} bytes, more than {} for {} documents (history {}, {:?})",
            i + 1, SIZE, used, limit, may, hist, op
        );
        cx.nontrivial_if(i > 2 * may);
    }
    cx.label(if hist { "history" } else { "save directory" });
    Ok(())
}
