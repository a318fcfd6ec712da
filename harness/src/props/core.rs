//! R01, R02, L01, L02, T01: documents in memory.

use super::{suite, Prop, Suite};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_core::intf::mlist_iter_const::MListIterConst;
use dochy_core::intf::mlist_iter_mut::MListIterMut;
use dochy_core::intf::{citem, mitem, root, table, CItemPtr, CListConst, MItemPtr, MListConst, MListMut, MListPtr, RootObjectPtr};
use dochy_core::structs::{LinkedMap, Qv, RootObject};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "R01",
            suites: vec![suite("writes", writes, 40000, 1500000), suite("large_values", super::large::values, 200, 4000)],
            rule: "at least one write was accepted and every getter was read afterwards",
            level: "exploration",
            assumptions: &["NaN payloads and the sign of zero are not distinguished"],
        },
        Prop {
            id: "R02",
            suites: vec![
                Suite { asan: 1500, ..suite("clones", clones, 25000, 800000) },
                Suite { asan: 300, deterministic: false, ..suite("threads", threads, 4000, 100000) },
                Suite { asan: 20, ..suite("large_values", super::large::clones, 300, 6000) },
            ],
            rule: "at least two documents of one clone family were alive and one of them was edited after the cloning",
            level: "exploration",
            assumptions: &[],
        },
        Prop {
            id: "L01",
            suites: vec![
                Suite { asan: 3000, ..suite("linked_map", linked_map, 120000, 3000000) },
                Suite { asan: 1500, ..suite("document_lists", document_lists, 25000, 800000) },
                Suite { asan: 30, ..suite("long", super::large::lists, 500, 10000) },
            ],
            rule: "at least 5 successful list operations of at least 2 kinds",
            level: "exploration",
            assumptions: &["an item pointer is not used after its item was removed, as the API demands"],
        },
        Prop {
            id: "L02",
            suites: vec![
                Suite { asan: 2000, ..suite("map_iterators", map_iterators, 300000, 6000000) },
                Suite { asan: 1000, ..suite("document_iterators", document_iterators, 120000, 2000000) },
                Suite { asan: 30, ..suite("long", super::large::iterations, 500, 10000) },
            ],
            rule: "the list had at least 2 items and an iterator was stepped at least twice",
            level: "exploration",
            assumptions: &[],
        },
        Prop {
            id: "T01",
            suites: vec![suite("references", references, 25000, 800000)],
            rule: "at least one reference or alternative was resolved to a table item",
            level: "exploration",
            assumptions: &["references are set to IDs that exist in the table"],
        },
    ]
}

// ------------------------------------------------------------------ R01

fn check_getters_root(s: &Schema, d: &Doc, r: &RootObject) -> Res<()> {
    let p = ptr(r);
    for q in s.params() {
        let want = d.vals.get(&q.name).unwrap_or(&q.def).text();
        for ty in TYPES {
            let got = get_root(p, ty, &q.name).map(|v| v.text());
            let def = get_root_def(p, ty, &q.name).map(|v| v.text());
            let imm = get_root_imm(p, ty, &q.name).map(|v| v.text());
            if ty == q.ty {
                ensure!(got.as_ref() == Some(&want), "{} reads {:?}, expected {}", q.name, got, want);
                ensure!(def == Some(q.def.text()), "default of {} reads {:?}, expected {}", q.name, def, q.def.text());
                if matches!(ty, Ty::Str | Ty::Ints | Ty::Floats | Ty::Bin) {
                    ensure!(imm.as_ref() == Some(&want), "{} reads {:?} by reference, expected {}", q.name, imm, want);
                }
            } else {
                ensure!(got.is_none() && def.is_none() && imm.is_none(), "{} of type {:?} reads as {:?}: {:?} {:?} {:?}", q.name, q.ty, ty, got, def, imm);
            }
        }
        let un = root::is_unmodified(p, &q.name);
        ensure!(un == !d.vals.contains_key(&q.name), "{} unmodified: {}", q.name, un);
    }
    for ty in TYPES {
        ensure!(get_root(p, ty, "no_such_member").is_none(), "a member that does not exist has a value");
    }
    Ok(())
}

fn check_getters_items(s: &Schema, d: &Doc, r: &mut RootObject) -> Res<()> {
    for lp in d.list_paths(s) {
        let def = s.list_def(&lp).unwrap();
        if let Some(l) = d.list(&lp) {
            for (id, it) in &l.items {
                let item = real_list(r, &lp).and_then(|mut l| l.get_item_mut(*id)).or_vio("item")?;
                for q in &def.params {
                    let want = it.vals.get(&q.name).unwrap_or(&q.def).text();
                    for ty in TYPES {
                        let got = get_mitem(item, ty, &q.name).map(|v| v.text());
                        let df = get_mitem_def(item, ty, &q.name).map(|v| v.text());
                        let imm = get_mitem_imm(item, ty, &q.name).map(|v| v.text());
                        if ty == q.ty {
                            ensure!(got.as_ref() == Some(&want), "item member {} reads {:?}, expected {}", q.name, got, want);
                            ensure!(df == Some(q.def.text()), "default of item member {} reads {:?}", q.name, df);
                            if matches!(ty, Ty::Str | Ty::Ints | Ty::Floats | Ty::Bin) {
                                ensure!(imm.as_ref() == Some(&want), "item member {} reads {:?} by reference, expected {}", q.name, imm, want);
                            }
                        } else {
                            ensure!(got.is_none() && df.is_none() && imm.is_none(), "item member {} of type {:?} reads as {:?}", q.name, q.ty, ty);
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn check_citem(d: &ListDef, m: &CItem, it: CItemPtr) -> Res<()> {
    for q in &d.params {
        let want = m.vals.get(&q.name).unwrap_or(&q.def).text();
        for ty in TYPES {
            let got = get_citem(it, ty, &q.name).map(|v| v.text());
            let df = get_citem_def(it, ty, &q.name).map(|v| v.text());
            let imm = get_citem_imm(it, ty, &q.name).map(|v| v.text());
            if ty == q.ty {
                ensure!(got.as_ref() == Some(&want), "constant item member {} reads {:?}, expected {}", q.name, got, want);
                ensure!(df == Some(q.def.text()), "default of constant item member {} reads {:?}", q.name, df);
                if matches!(ty, Ty::Str | Ty::Ints | Ty::Floats | Ty::Bin) {
                    ensure!(imm.as_ref() == Some(&want), "constant item member {} reads {:?} by reference", q.name, imm);
                }
            } else {
                ensure!(got.is_none() && df.is_none() && imm.is_none(), "constant item member {} of type {:?} reads as {:?}", q.name, q.ty, ty);
            }
        }
    }
    Ok(())
}

fn check_constants(s: &Schema, r: &RootObject) -> Res<()> {
    for m in &s.mems {
        match m {
            RMem::CList(n, d, items) => {
                let l = root::get_clist::<CItemPtr>(ptr(r), n).or_vio("constant list")?;
                ensure!(l.len() == items.len(), "constant list {} has {} items", n, l.len());
                for (k, x) in items.iter().enumerate() {
                    check_citem(d, x, l.value(k))?;
                }
            }
            RMem::Table(n, d, items) => {
                let t = root::get_table(ptr(r).def(), n).or_vio("table")?;
                for (id, x) in items {
                    check_citem(d, x, table::get_value(t, id).or_vio("table item")?)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn blank(ty: Ty) -> Val {
    match ty {
        Ty::Bool => Val::Bool(false),
        Ty::Int => Val::Int(0),
        Ty::Float => Val::Float(0.0),
        Ty::Str => Val::Str(String::new()),
        Ty::Ints => Val::Ints(vec![]),
        Ty::Floats => Val::Floats(vec![]),
        Ty::Bin => Val::Bin(vec![]),
    }
}

/// Asking for a member as something it is not, or for one that is not there, finds nothing and changes no value.
fn check_kinds(s: &Schema, d: &Doc, r: &RootObject) -> Res<()> {
    let r = &mut r.clone();
    let p = ptr(r);
    for n in s.mems.iter().map(|m| m.name()).chain(["no_such_member"]) {
        let (mut table, mut clist, mut mlist, mut ty) = (false, false, false, None);
        match s.get(n) {
            Some(RMem::Table(..)) => table = true,
            Some(RMem::CList(..)) => clist = true,
            Some(RMem::MList(..)) => mlist = true,
            Some(RMem::Param(q)) => ty = Some(q.ty),
            None => {}
        }
        ensure!(root::get_table(p.def(), n).is_some() == table, "{} taken for a table or not found as one", n);
        ensure!(root::get_clist::<CItemPtr>(p, n).is_some() == clist, "{} taken for a constant list or not found as one", n);
        ensure!(root::get_mlist_const::<MItemPtr>(p, n).is_some() == mlist, "{} taken for a mutable list or not found as one", n);
        if !mlist {
            ensure!(root::get_mlist_mut::<MItemPtr>(p, n).is_none(), "{} taken for a mutable list", n);
        }
        if ty.is_none() {
            ensure!(!root::set_initial_value(p, n, 0), "initial value of {} can be set", n);
        }
        for t in TYPES.iter().filter(|t| Some(**t) != ty) {
            ensure!(mutate_root(p, *t, n, &blank(*t)).is_none(), "{} can be changed in place as {:?}", n, t);
            ensure!(!set_root(p, *t, n, &blank(*t)), "{} can be set as {:?}", n, t);
        }
    }
    for q in s.params() {
        let want = d.vals.get(&q.name).unwrap_or(&q.def).text();
        let got = get_root(p, q.ty, &q.name).map(|v| v.text());
        ensure!(got.as_ref() == Some(&want), "{} reads {:?} after asking for it as something else, expected {}", q.name, got, want);
    }
    for lp in d.list_paths(s) {
        let (def, l) = match (s.list_def(&lp), d.list(&lp)) {
            (Some(def), Some(l)) => (def, l),
            _ => continue,
        };
        for (id, it) in &l.items {
            let item = real_list(r, &lp).and_then(|mut l| l.get_item_mut(*id)).or_vio("item")?;
            let names = def.params.iter().map(|q| q.name.as_str()).chain(def.inners.iter().map(|i| i.name.as_str()));
            for n in names.chain(["no_such_member"]) {
                let ty = def.params.iter().find(|q| q.name == n).map(|q| q.ty);
                let inner = def.inners.iter().any(|i| i.name == n);
                ensure!(mitem::get_mil_const::<MItemPtr>(item, n).is_some() == inner, "item member {} taken for a list or not found as one", n);
                if !inner {
                    ensure!(mitem::get_mil_mut::<MItemPtr>(item, n).is_none(), "item member {} taken for a list", n);
                }
                if ty.is_none() {
                    ensure!(!mitem::set_initial_value(item, n, 0), "initial value of item member {} can be set", n);
                }
                for t in TYPES.iter().filter(|t| Some(**t) != ty) {
                    ensure!(mutate_mitem(item, *t, n, &blank(*t)).is_none(), "item member {} can be changed in place as {:?}", n, t);
                    ensure!(!set_mitem(item, *t, n, &blank(*t)), "item member {} can be set as {:?}", n, t);
                }
            }
            ensure!(mitem::get_ref_id(item, "no_such_member").is_none(), "a reference that does not exist has an ID");
            ensure!(mitem::get_ref(item, "no_such_member").is_none(), "a reference that does not exist has an item");
            for q in &def.params {
                let want = it.vals.get(&q.name).unwrap_or(&q.def).text();
                let got = get_mitem(item, q.ty, &q.name).map(|v| v.text());
                ensure!(got.as_ref() == Some(&want), "item member {} reads {:?} after asking for it as something else, expected {}", q.name, got, want);
            }
        }
    }
    Ok(())
}

fn writes(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts { wide: 1, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut r = load_source(&dir)?;
    let mut d = s.initial();
    let mut log = vec![];
    let mut ok = 0;
    check_getters_root(&s, &d, &r)?;
    check_constants(&s, &r)?;
    let mut err = None;
    let avg = *g.pick(&[6, 2, 15, 40]);
    let every = g.range(1, 4);
    g.many(0, avg * 3, avg, |g, i| {
        if err.is_some() {
            return;
        }
        let mut f = || -> Res<()> {
            if step(g, &s, &mut d, &mut r, &OpOpts::default(), &mut log)? {
                ok += 1;
            }
            if i % every == 0 {
                check_doc(&s, &d, &r, "after the operations")?;
            }
            Ok(())
        };
        if let Err(e) = f() {
            err = Some(e);
        }
    });
    cx.sample(|| format!("source {} operations: {}", clip(&schema_text(&s)), ops_text(&log)));
    if let Some(e) = err {
        return Err(e);
    }
    check_doc(&s, &d, &r, "after all operations")?;
    check_getters_root(&s, &d, &r)?;
    check_getters_items(&s, &d, &mut r)?;
    check_constants(&s, &r)?;
    check_kinds(&s, &d, &r)?;
    check_doc(&s, &d, &r, "after asking a copy for members as something they are not")?;
    for o in &log {
        cx.label(o.kind());
    }
    cx.nontrivial_if(ok > 0);
    Ok(())
}

// ------------------------------------------------------------------ R02

fn clones(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let need_mlist = g.chance(3, 4);
    let s = gen_schema(g, &Opts { need_mlist, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut live: Vec<(Doc, RootObject)> = vec![(s.initial(), load_source(&dir)?)];
    let mut log = vec![];
    let mut edited_after_clone = false;
    let mut err = None;
    g.many(1, 60, 20, |g, _| {
        if err.is_some() {
            return;
        }
        let mut f = || -> Res<()> {
            let i = g.us(live.len());
            match g.weighted(&[8, 2, 1]) {
                1 if live.len() < 5 => {
                    let c = (live[i].0.clone(), live[i].1.clone());
                    ensure!(c.1.contents_eq(&live[i].1), "a clone does not compare equal to its original");
                    live.push(c);
                    log.push(format!("clone {}", i));
                }
                2 if live.len() > 1 => {
                    live.remove(i);
                    log.push(format!("drop {}", i));
                }
                _ => {
                    let mut l = vec![];
                    let (d, r) = &mut live[i];
                    let done = step(g, &s, d, r, &OpOpts::default(), &mut l)?;
                    log.push(format!("{}: {}", i, ops_text(&l)));
                    if done && live.len() > 1 {
                        edited_after_clone = true;
                    }
                }
            }
            for (k, (d, r)) in live.iter().enumerate() {
                check_doc(&s, d, r, &format!("document {} of {}", k, live.len()))?;
            }
            Ok(())
        };
        if let Err(e) = f() {
            err = Some(e);
        }
    });
    cx.sample(|| format!("source {} steps: {}", clip(&schema_text(&s)), clip(&log.join("; "))));
    if let Some(e) = err {
        return Err(e);
    }
    cx.nontrivial_if(edited_after_clone);
    Ok(())
}

/// Several threads edit clones of one document at the same time.
fn threads(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts { need_mlist: true, wide: 0, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut base = load_source(&dir)?;
    let mut bd = s.initial();
    let mut log = vec![];
    for _ in 0..g.us(8) {
        step(g, &s, &mut bd, &mut base, &OpOpts::default(), &mut log)?;
    }
    let n = g.range(2, 4);
    let mut jobs = vec![];
    let mut edits = 0;
    for _ in 0..n {
        // the edits are chosen against the model before the threads start
        let mut d = bd.clone();
        let mut ops = vec![];
        for _ in 0..g.range(3, 25) {
            if let Some(op) = gen_op(g, &s, &d, &OpOpts::default()) {
                let ok = apply_model(&s, &mut d, &op);
                edits += ok as usize;
                ops.push((op, ok));
            }
        }
        jobs.push((d, ops, base.clone()));
    }
    cx.sample(|| format!("source {} {} threads, {} edits", clip(&schema_text(&s)), n, edits));
    let s = std::sync::Arc::new(s);
    let barrier = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = jobs
        .into_iter()
        .map(|(d, ops, mut r)| {
            let s = s.clone();
            let b = barrier.clone();
            std::thread::spawn(move || -> Res<()> {
                b.wait();
                for (op, ok) in ops {
                    let got = apply_real(&s, &mut r, &op);
                    ensure!(got == ok, "`{}` reported {}", op.text(), got);
                    let c = r.clone();
                    drop(c);
                }
                check_doc(&s, &d, &r, "document edited in a thread")
            })
        })
        .collect();
    let mut res = Ok(());
    for h in hs {
        match h.join() {
            Ok(Ok(())) => {}
            Ok(Err(e)) => res = Err(e),
            Err(_) => res = Err(Fail::Violation(take_last_panic().unwrap_or_else(|| "panic".into()))),
        }
    }
    res?;
    check_doc(&s, &bd, &base, "document whose clones were edited in threads")?;
    cx.nontrivial_if(edits > 0);
    Ok(())
}

// ------------------------------------------------------------------ L01

struct Lm {
    real: LinkedMap<String>,
    model: Vec<(u64, String)>,
    next: u64,
}

fn check_map(m: &Lm) -> Res<()> {
    let r = &m.real;
    let ids: Vec<u64> = m.model.iter().map(|x| x.0).collect();
    let fwd: Vec<(u64, String)> = {
        let mut v = vec![];
        let mut it = r.iter();
        while let Some((k, x)) = it.next() {
            v.push((*k, x.clone()));
            if v.len() > ids.len() + 2 {
                break;
            }
        }
        v
    };
    ensure!(fwd == m.model, "order {:?}, expected {:?}", fwd, m.model);
    let mut back: Vec<u64> = vec![];
    let mut it = r.iter_from_last();
    while let Some((k, _)) = it.prev() {
        back.push(*k);
        if back.len() > ids.len() + 2 {
            break;
        }
    }
    back.reverse();
    ensure!(back == ids, "backwards {:?}, expected {:?}", back, ids);
    ensure!(r.len() == ids.len() && r.is_empty() == ids.is_empty(), "length {}", r.len());
    ensure!(r.first_id() == ids.first().cloned() && r.last_id() == ids.last().cloned(), "ends {:?} {:?}", r.first_id(), r.last_id());
    ensure!(r.first() == m.model.first().map(|x| &x.1) && r.last() == m.model.last().map(|x| &x.1), "first or last item");
    ensure!(r.next_id() == m.next, "next id {}, expected {}", r.next_id(), m.next);
    for (id, v) in &m.model {
        ensure!(r.contains_key(*id) && r.get_item(*id) == Some(v), "lookup of {}", id);
    }
    for id in [m.next, m.next + 1, u64::MAX] {
        if !ids.contains(&id) {
            ensure!(!r.contains_key(id) && r.get_item(id).is_none(), "{} is found though it is not there", id);
        }
    }
    Ok(())
}

fn linked_map(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut maps: Vec<Lm> = vec![];
    if g.chance(1, 3) {
        let n = g.us(6);
        let mut items = vec![];
        for i in 0..n {
            items.push((i as u64 * 2 + g.below(2), format!("s{}", i)));
        }
        let next = items.iter().map(|x| x.0 + 1).max().unwrap_or(0) + g.below(3);
        maps.push(Lm { real: LinkedMap::construct(items.clone(), next), model: items, next });
    } else {
        maps.push(Lm { real: LinkedMap::new(), model: vec![], next: 0 });
    }
    check_map(&maps[0])?;
    let mut kinds = std::collections::HashSet::new();
    let mut okc = 0;
    let mut log: Vec<String> = vec![];
    let mut err = None;
    let avg = *g.pick(&[12, 4, 40]);
    g.many(1, avg * 4, avg, |g, step| {
        if err.is_some() {
            return;
        }
        let mut f = || -> Res<()> {
            let mi = g.us(maps.len());
            let nm = maps.len();
            let m = &mut maps[mi];
            let any_id = |g: &mut Gen, m: &Lm| -> u64 {
                if m.model.is_empty() || g.chance(1, 12) {
                    g.below(m.next + 2)
                } else {
                    match g.us(4) {
                        0 => m.model[0].0,
                        1 => m.model[m.model.len() - 1].0,
                        _ => m.model[g.us(m.model.len())].0,
                    }
                }
            };
            let k = g.weighted(&[4, 3, 4, 2, 2, 3, 3, 4, 4, 2, 2, 1, 1, 2]);
            let val = format!("v{}", step);
            let mut note = String::new();
            let ok = match k {
                0 | 1 => {
                    let id = if k == 0 {
                        if g.bool() { m.real.insert(val.clone()) } else { m.real.insert_last(val.clone()) }
                    } else {
                        m.real.insert_first(val.clone())
                    };
                    ensure!(id == m.next, "insert gave id {}, expected {}", id, m.next);
                    m.next += 1;
                    if k == 0 {
                        m.model.push((id, val));
                    } else {
                        m.model.insert(0, (id, val));
                    }
                    note = format!("insert {}", if k == 0 { "last" } else { "first" });
                    true
                }
                2 => {
                    let id = any_id(g, m);
                    note = format!("remove {}", id);
                    let e = m.model.iter().position(|x| x.0 == id);
                    let got = m.real.remove(id);
                    ensure!(got == e.is_some(), "remove({}) reported {}", id, got);
                    if let Some(p) = e {
                        m.model.remove(p);
                    }
                    got
                }
                3 => {
                    note = "remove_first".into();
                    let e = !m.model.is_empty();
                    ensure!(m.real.remove_first() == e, "remove_first");
                    if e {
                        m.model.remove(0);
                    }
                    e
                }
                4 => {
                    note = "remove_last".into();
                    let e = m.model.pop().is_some();
                    ensure!(m.real.remove_last() == e, "remove_last");
                    e
                }
                5 | 6 => {
                    let id = any_id(g, m);
                    note = format!("move {} {}", if k == 5 { "first" } else { "last" }, id);
                    let e = m.model.iter().position(|x| x.0 == id);
                    let got = if k == 5 { m.real.move_to_first(id) } else { m.real.move_to_last(id) };
                    ensure!(got == e.is_some(), "{} reported {}", note, got);
                    if let Some(p) = e {
                        let x = m.model.remove(p);
                        if k == 5 {
                            m.model.insert(0, x);
                        } else {
                            m.model.push(x);
                        }
                    }
                    got
                }
                7 | 8 => {
                    let a = any_id(g, m);
                    let id = any_id(g, m);
                    note = format!("move {} {} {}", id, if k == 7 { "before" } else { "after" }, a);
                    let e = a != id && m.model.iter().any(|x| x.0 == a) && m.model.iter().any(|x| x.0 == id);
                    let got = if k == 7 { m.real.move_to_prev(a, id) } else { m.real.move_to_next(a, id) };
                    ensure!(got == e, "{} reported {}", note, got);
                    if e {
                        let p = m.model.iter().position(|x| x.0 == id).unwrap();
                        let x = m.model.remove(p);
                        let q = m.model.iter().position(|x| x.0 == a).unwrap();
                        m.model.insert(if k == 7 { q } else { q + 1 }, x);
                    }
                    got
                }
                9 => {
                    // write through every mutable access
                    let id = any_id(g, m);
                    note = format!("write {}", id);
                    let e = m.model.iter().position(|x| x.0 == id);
                    match g.us(3) {
                        0 => match (m.real.get_item_mut(id), e) {
                            (Some(x), Some(p)) => {
                                *x = val.clone();
                                m.model[p].1 = val;
                            }
                            (None, None) => {}
                            _ => vio!("get_item_mut({})", id),
                        },
                        1 => match (m.real.first_mut(), m.model.first_mut()) {
                            (Some(x), Some(p)) => {
                                x.push('f');
                                p.1.push('f');
                            }
                            (None, None) => {}
                            _ => vio!("first_mut"),
                        },
                        _ => match (m.real.last_mut(), m.model.last_mut()) {
                            (Some(x), Some(p)) => {
                                x.push('l');
                                p.1.push('l');
                            }
                            (None, None) => {}
                            _ => vio!("last_mut"),
                        },
                    }
                    true
                }
                10 => {
                    // insertion under a given id
                    let id = if g.bool() { m.next + g.below(4) } else { any_id(g, m) };
                    let first = g.bool();
                    note = format!("insert {} with id {}", if first { "first" } else { "last" }, id);
                    let e = !m.model.iter().any(|x| x.0 == id);
                    let got = if first { m.real.insert_first_with_id(id, val.clone()) } else { m.real.insert_last_with_id(id, val.clone()) };
                    ensure!(got == e, "{} reported {}", note, got);
                    if e {
                        if first {
                            m.model.insert(0, (id, val));
                        } else {
                            m.model.push((id, val));
                        }
                        // the caller looks after the next id
                        m.next = m.next.max(id + 1);
                        m.real.set_next_id(m.next);
                    }
                    got
                }
                11 if nm < 3 => {
                    let c = Lm { real: m.real.clone(), model: m.model.clone(), next: m.next };
                    ensure!(c.real == m.real, "a clone differs from the original");
                    maps.push(c);
                    note = format!("clone {}", mi);
                    true
                }
                12 if nm > 1 => {
                    let m = maps.remove(mi);
                    let got: Vec<(u64, String)> = m.real.into_iter().collect();
                    ensure!(got == m.model, "taken apart: {:?}, expected {:?}", got, m.model);
                    note = format!("consume {}", mi);
                    true
                }
                _ => {
                    note = "iter_mut".into();
                    let ids: Vec<u64> = m.model.iter().map(|x| x.0).collect();
                    let mut got = vec![];
                    for (id, v) in m.real.iter_mut() {
                        v.push('m');
                        got.push(*id);
                        if got.len() > ids.len() {
                            break;
                        }
                    }
                    ensure!(got == ids, "mutable iteration {:?}, expected {:?}", got, ids);
                    for x in m.model.iter_mut() {
                        x.1.push('m');
                    }
                    true
                }
            };
            log.push(note);
            if ok {
                okc += 1;
                kinds.insert(k);
            }
            for m in &maps {
                check_map(m)?;
            }
            Ok(())
        };
        if let Err(e) = f() {
            err = Some(e);
        }
    });
    cx.sample(|| clip(&log.join("; ")));
    if let Some(e) = err {
        return Err(e);
    }
    cx.nontrivial_if(okc >= 5 && kinds.len() >= 2);
    Ok(())
}

fn document_lists(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts { need_mlist: true, wide: 0, clists: false, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut r = load_source(&dir)?;
    let mut d = s.initial();
    let mut log = vec![];
    let mut kinds = std::collections::HashSet::new();
    let mut n = 0;
    let mut err = None;
    // every id ever given out, per list, must be new
    let mut seen: BTreeMap<String, std::collections::HashSet<u64>> = BTreeMap::new();
    let avg = *g.pick(&[15, 5, 50]);
    g.many(2, avg * 3, avg, |g, _| {
        if err.is_some() {
            return;
        }
        let mut f = || -> Res<()> {
            if g.chance(1, 12) {
                r = r.clone();
            }
            let done = step(g, &s, &mut d, &mut r, &OpOpts::default(), &mut log)?;
            let op = log.last().cloned();
            if let Some(op) = &op {
                if done && !matches!(op, Op::SetRoot(..) | Op::MutRoot(..) | Op::InitRoot(..) | Op::Touch(..)) {
                    n += 1;
                    kinds.insert(op.kind());
                }
                if let Op::Insert { list, first, .. } = op {
                    let l = real_list(&mut r, list).or_vio("list")?;
                    let id = if *first { l.first_id() } else { l.last_id() }.or_vio("inserted item")?;
                    if list.steps.is_empty() {
                        ensure!(seen.entry(list.root.clone()).or_default().insert(id), "id {} of {} was given out twice", id, list.root);
                    }
                }
            }
            check_doc(&s, &d, &r, "after a list operation")
        };
        if let Err(e) = f() {
            err = Some(e);
        }
    });
    cx.sample(|| format!("source {} operations: {}", clip(&schema_text(&s)), ops_text(&log)));
    if let Some(e) = err {
        return Err(e);
    }
    cx.nontrivial_if(n >= 5 && kinds.len() >= 2);
    Ok(())
}

// ------------------------------------------------------------------ L02

/// What a cursor over `ids` has to answer. `pos` None: nothing left.
struct Cursor {
    ids: Vec<u64>,
    pos: Option<usize>,
}
impl Cursor {
    fn here(&self) -> Option<u64> {
        self.pos.map(|p| self.ids[p])
    }
    fn next(&mut self) -> Option<u64> {
        let r = self.here();
        if let Some(p) = self.pos {
            self.pos = if p + 1 < self.ids.len() { Some(p + 1) } else { None };
        }
        r
    }
    fn prev(&mut self) -> Option<u64> {
        let r = self.here();
        if let Some(p) = self.pos {
            self.pos = if p > 0 { Some(p - 1) } else { None };
        }
        r
    }
    fn is_first(&self) -> bool {
        self.pos == Some(0)
    }
    fn is_last(&self) -> bool {
        self.pos.map(|p| p + 1 == self.ids.len()).unwrap_or(false)
    }
}

fn map_iterators(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let n = g.us(8);
    let mut map: LinkedMap<String> = LinkedMap::new();
    for i in 0..n {
        if g.chance(1, 4) {
            map.insert_first(format!("x{}", i));
        } else {
            map.insert_last(format!("x{}", i));
        }
    }
    for _ in 0..g.us(4) {
        let k = map.next_id();
        if k > 0 {
            let id = g.below(k);
            match g.us(3) {
                0 => map.remove(id),
                1 => map.move_to_first(id),
                _ => map.move_to_last(id),
            };
        }
    }
    let ids: Vec<u64> = map.iter().map(|(k, _)| *k).collect();
    let mut steps = 0;
    let mut log = vec![format!("{:?}", ids)];
    let start = g.us(3);
    let pos = match start {
        0 => if ids.is_empty() { None } else { Some(0) },
        1 => if ids.is_empty() { None } else { Some(ids.len() - 1) },
        _ => {
            if ids.is_empty() {
                ensure!(map.iter_from_id(map.next_id()).is_none(), "an iterator starts at an id that does not exist");
                ensure!(map.iter_mut_from_id(0).is_none(), "an iterator starts at an id that does not exist");
                return Ok(());
            }
            Some(g.us(ids.len()))
        }
    };
    let mut c = Cursor { ids: ids.clone(), pos };
    let k = g.range(1, 12);
    if g.bool() {
        let mut it = match start {
            0 => map.iter(),
            1 => map.iter_from_last(),
            _ => map.iter_from_id(ids[pos.unwrap()]).or_vio("iterator from an id")?,
        };
        for _ in 0..k {
            ensure!(it.is_available() == c.pos.is_some(), "{:?}: is_available {}", log, it.is_available());
            ensure!(it.is_first() == c.is_first(), "{:?}: is_first {}", log, it.is_first());
            ensure!(it.is_last() == c.is_last(), "{:?}: is_last {}", log, it.is_last());
            let (a, e, what) = match g.us(3) {
                0 => (it.next(), c.next(), "next"),
                1 => (it.prev(), c.prev(), "prev"),
                _ => (it.current(), c.here(), "current"),
            };
            log.push(what.into());
            ensure!(a.map(|x| *x.0) == e, "{:?}: {:?}, expected {:?}", log, a, e);
            if let Some((id, v)) = a {
                ensure!(map.get_item(*id) == Some(v), "{:?}: wrong item for {}", log, id);
            }
            steps += 1;
        }
    } else {
        let mut it = match start {
            0 => map.iter_mut(),
            1 => map.iter_mut_from_last(),
            _ => map.iter_mut_from_id(ids[pos.unwrap()]).or_vio("iterator from an id")?,
        };
        for _ in 0..k {
            ensure!(it.is_available() == c.pos.is_some(), "{:?}: is_available {}", log, it.is_available());
            ensure!(it.is_first() == c.is_first(), "{:?}: is_first {}", log, it.is_first());
            ensure!(it.is_last() == c.is_last(), "{:?}: is_last {}", log, it.is_last());
            let e = c.next();
            let a = it.next();
            log.push("next_mut".into());
            ensure!(a.as_ref().map(|x| *x.0) == e, "{:?}: {:?}, expected {:?}", log, a, e);
            if let Some((_, v)) = a {
                v.push('!');
            }
            steps += 1;
        }
        let marked: Vec<u64> = map.iter().filter(|(_, v)| v.ends_with('!')).map(|(k, _)| *k).collect();
        let from = match start {
            0 => 0,
            1 => ids.len().max(1) - 1,
            _ => pos.unwrap(),
        };
        let want: Vec<u64> = ids.iter().cloned().skip(from).take(k).collect();
        ensure!(marked == want, "mutable iterator wrote {:?}, expected {:?}", marked, want);
    }
    cx.sample(|| log.join(" "));
    cx.nontrivial_if(ids.len() >= 2 && steps >= 2);
    Ok(())
}

fn document_iterators(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut def = ListDef::default();
    def.params.push(PDef { name: "v".into(), ty: Ty::Int, vt: Vt::NORMAL, def: Val::Int(7) });
    let mut s = Schema::default();
    let n = g.us(7);
    let mut l = MList::default();
    for i in 0..n {
        let mut it = MItem::default();
        it.vals.insert("v".into(), Val::Int(100 + i as i64));
        l.items.push((i as u64, it));
    }
    l.next_id = n as u64;
    let citems: Vec<CItem> = (0..g.us(6))
        .map(|i| {
            let mut c = CItem::default();
            c.vals.insert("v".into(), Val::Int(i as i64));
            c
        })
        .collect();
    s.mems.push(RMem::MList("m".into(), def.clone(), false, l));
    s.mems.push(RMem::CList("c".into(), def, citems.clone()));
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut r = load_source(&dir)?;
    let mut d = s.initial();
    let mut log = vec![];
    for _ in 0..g.us(8) {
        step(g, &s, &mut d, &mut r, &OpOpts { invalid: false, ..OpOpts::default() }, &mut log)?;
    }
    let m = d.lists["m"].as_ref().unwrap();
    let ids: Vec<u64> = m.items.iter().map(|x| x.0).collect();
    let value = |id: u64| -> String { m.get(id).and_then(|i| i.vals.get("v").cloned()).unwrap_or(Val::Int(7)).text() };
    let lp = LPath { root: "m".into(), steps: vec![] };
    let rp = RootObjectPtr::new(&mut r);
    let start = g.us(3);
    let pos = if ids.is_empty() {
        None
    } else {
        match start {
            0 => Some(0),
            1 => Some(ids.len() - 1),
            _ => Some(g.us(ids.len())),
        }
    };
    let mut c = Cursor { ids: ids.clone(), pos };
    let k = g.range(1, 10);
    let mut trace = vec![];
    let kind = g.us(3);
    macro_rules! walk {
        ($it:expr, $next:ident, $prev:ident, $cur:ident, $view:expr) => {{
            let mut it = $it;
            for _ in 0..k {
                ensure!(it.is_available() == c.pos.is_some(), "{:?}: is_available {}", trace, it.is_available());
                ensure!(it.is_first() == c.is_first(), "{:?}: is_first {}", trace, it.is_first());
                ensure!(it.is_last() == c.is_last(), "{:?}: is_last {}", trace, it.is_last());
                let what = g.us(3);
                let e = match what {
                    0 => c.next(),
                    1 => c.prev(),
                    _ => c.here(),
                };
                let a = match what {
                    0 => it.$next(),
                    1 => it.$prev(),
                    _ => it.$cur(),
                };
                trace.push(["next", "prev", "current"][what]);
                ensure!(a.as_ref().map(|x| x.0) == e, "{:?}: {:?}, expected {:?} in {:?}", trace, a.as_ref().map(|x| x.0), e, ids);
                if let Some((id, item)) = a {
                    let p: MItemPtr = $view(item);
                    let got = get_mitem(p, Ty::Int, "v").map(|v| v.text());
                    ensure!(got == Some(value(id)), "{:?}: item {} has {:?}", trace, id, got);
                }
            }
        }};
    }
    let mut list: MListPtr<MItemPtr> = root::get_mlist_mut(rp, "m").or_vio("list")?;
    match kind {
        0 => {
            let konst = g.bool();
            let it = match (start, konst) {
                (_, _) if ids.is_empty() => {
                    ensure!(list.iter_from_id_const(0).is_none(), "iterator at a missing id");
                    list.iter_const()
                }
                (0, true) => list.iter_const(),
                (1, true) => list.iter_from_last_const(),
                (_, true) => list.iter_from_id_const(ids[pos.unwrap()]).or_vio("iterator")?,
                (0, false) => list.iter_mut(),
                (1, false) => list.iter_from_last_mut(),
                (_, false) => list.iter_from_id_mut(ids[pos.unwrap()]).or_vio("iterator")?,
            };
            if konst {
                walk!(it, next_const, prev_const, current_const, |p| p)
            } else {
                walk!(it, next_mut, prev_mut, current_mut, |p| p)
            }
        }
        1 => {
            let src = 0;
            let ml: MListConst<MItemPtr> = MListConst::new(list, &src);
            let it: MListIterConst<MItemPtr> = if ids.is_empty() {
                ml.iter()
            } else {
                match start {
                    0 => ml.iter(),
                    1 => ml.iter_from_last(),
                    _ => ml.iter_from_id(ids[pos.unwrap()]).or_vio("iterator")?,
                }
            };
            walk!(it, next, prev, current, |p: dochy_core::intf::mlist_const::MItemConst<MItemPtr>| *p)
        }
        _ => {
            let mut src = 0;
            // the mutable wrapper starts at the first item only; other starts come from the raw iterator
            let it: MListIterMut<MItemPtr> = if ids.is_empty() || start == 0 {
                MListIterMut::new(list.iter_mut(), &mut src)
            } else if start == 1 {
                MListIterMut::new(list.iter_from_last_mut(), &mut src)
            } else {
                MListIterMut::new(list.iter_from_id_mut(ids[pos.unwrap()]).or_vio("iterator")?, &mut src)
            };
            walk!(it, next, prev, current, |p: dochy_core::intf::mlist_mut::MItemMut<MItemPtr>| *p)
        }
    }
    // whole iterations agree with one another
    let src = 0;
    let mut src2 = 0;
    let a: Vec<u64> = MListConst::new(list, &src).iter().take(ids.len() + 2).map(|x| x.0).collect();
    let b: Vec<u64> = MListMut::new(list, &mut src2).iter().take(ids.len() + 2).map(|x| x.0).collect();
    let e: Vec<u64> = list.iter_const().take(ids.len() + 2).map(|x| x.0).collect();
    ensure!(a == ids && b == ids && e == ids, "whole iterations {:?} {:?} {:?}, expected {:?}", a, b, e, ids);
    ends(g, list, &ids)?;
    let cl = root::get_clist::<CItemPtr>(rp, "c").or_vio("constant list")?;
    let ptr_vals: Vec<String> = cl.iter().take(20).map(|i| get_citem(i, Ty::Int, "v").map(|v| v.text()).unwrap_or_default()).collect();
    let cc = CListConst::new(cl, &src);
    let const_vals: Vec<String> = cc.iter().take(20).map(|i| get_citem(*i, Ty::Int, "v").map(|v| v.text()).unwrap_or_default()).collect();
    let idx_vals: Vec<String> = (0..cc.len()).map(|i| get_citem(*cc.value(i), Ty::Int, "v").map(|v| v.text()).unwrap_or_default()).collect();
    let want: Vec<String> = citems.iter().map(|c| c.vals["v"].text()).collect();
    ensure!(ptr_vals == want && const_vals == want && idx_vals == want, "constant list iterations {:?} {:?} {:?}, expected {:?}", ptr_vals, const_vals, idx_vals, want);
    let _ = lp;
    cx.sample(|| format!("{:?} start {:?} {:?}", ids, pos, trace));
    cx.nontrivial_if(ids.len() >= 2 && k >= 2);
    Ok(())
}

/// Items reached through the changeable handle from its ends and by ID are those of the list.
fn ends(g: &mut Gen, mut list: MListPtr<MItemPtr>, ids: &[u64]) -> Res<()> {
    ensure!(list.first_mut().map(|p| p.item()) == ids.first().and_then(|i| list.get_item_const(*i)).map(|p| p.item()), "other first item");
    ensure!(list.last_mut().map(|p| p.item()) == ids.last().and_then(|i| list.get_item_const(*i)).map(|p| p.item()), "other last item");
    let seen = |id: u64| list.get_item_const(id).and_then(|p| get_mitem(p, Ty::Int, "v")).map(|v| v.text());
    let mut src = ();
    let mut m: MListMut<MItemPtr> = MListMut::new(list, &mut src);
    ensure!(m.len() == ids.len() && m.is_empty() == ids.is_empty(), "handle counts {} items of {:?}", m.len(), ids);
    ensure!(m.first_id().as_ref() == ids.first() && m.last_id().as_ref() == ids.last(), "handle has ends {:?} {:?} of {:?}", m.first_id(), m.last_id(), ids);
    ensure!(m.next_id() == list.next_id(), "handle's next ID {}", m.next_id());
    let none = m.next_id();
    ensure!(!m.contains_key(none) && m.get_mut(none).is_none(), "handle has an item that was not given out");
    if ids.is_empty() {
        ensure!(m.first_mut().is_none() && m.last_mut().is_none(), "an empty list has ends");
        return Ok(());
    }
    for (k, v) in [1001, 1002, 1003].iter().enumerate() {
        let id = match k {
            0 => ids[0],
            1 => ids[ids.len() - 1],
            _ => ids[g.us(ids.len())],
        };
        ensure!(m.contains_key(id), "handle has no item {}", id);
        {
            let mut it = match k {
                0 => m.first_mut(),
                1 => m.last_mut(),
                _ => m.get_mut(id),
            }
            .or_vio("item of the handle")?;
            let p: &mut MItemPtr = &mut it;
            ensure!(mitem::set_int(*p, "v", Qv::Val(*v)), "item {} refuses a value", id);
        }
        ensure!(seen(id) == Some(Val::Int(*v).text()), "value set through the handle: item {} has {:?}", id, seen(id));
    }
    Ok(())
}

// ------------------------------------------------------------------ T01

fn table_item_text(s: &Schema, r: &RootObject, t: &str, id: &str) -> Option<String> {
    let tp = root::get_table(ptr(r).def(), t)?;
    let it = table::get_value(tp, id)?;
    Some(citem_text(s, t, it))
}

fn citem_text(s: &Schema, t: &str, it: CItemPtr) -> String {
    let mut out = String::new();
    if let Some(RMem::Table(_, d, _)) = s.get(t) {
        obs_citem(&mut out, "", d, it);
    }
    out
}

fn check_ref(s: &Schema, r: &RootObject, t: &str, want: &RVal, got: Option<Qv<CItemPtr>>, id: Option<Qv<String>>) -> Res<bool> {
    let got_id = match &id {
        Some(Qv::Val(x)) => RVal::Id(x.clone()),
        Some(Qv::Null) => RVal::Null,
        Some(Qv::Undefined) => RVal::Undef,
        None => vio!("reference to {} has no value", t),
    };
    ensure!(&got_id == want, "reference to {} reads {:?}, expected {:?}", t, got_id, want);
    match (want, got) {
        (RVal::Null, Some(Qv::Null)) | (RVal::Undef, Some(Qv::Undefined)) => Ok(false),
        (RVal::Id(i), Some(Qv::Val(p))) => {
            let a = citem_text(s, t, p);
            let b = table_item_text(s, r, t, i).or_vio("table item")?;
            ensure!(a == b, "reference to {} {} resolves to another item: {} instead of {}", t, i, a, b);
            // the model's own idea of that item, with a member that tells items apart
            if let Some(RMem::Table(_, _, items)) = s.get(t) {
                let (_, it) = items.iter().find(|x| &x.0 == i).or_vio("model item")?;
                let want = it.vals.get("who").map(|v| v.text());
                let got = get_citem(p, Ty::Str, "who").map(|v| v.text());
                ensure!(got == want, "reference to {} {} resolves to {:?}", t, i, got);
            }
            Ok(true)
        }
        (w, g) => vio!("reference to {} expected {:?}, got {:?}", t, w, g.map(|q| matches!(q, Qv::Val(_)))),
    }
}

fn check_citem_refs(s: &Schema, r: &RootObject, d: &ListDef, m: &CItem, it: CItemPtr) -> Res<u64> {
    let mut n = 0;
    if d.is_enum {
        let (t, v) = m.refs.iter().next().or_vio("alternative")?;
        let e = citem::get_enum(it);
        ensure!(e.clone().map(|x| (x.0, RVal::Id(x.1))) == Some((t.clone(), v.clone())), "alternative reads {:?}, expected {} {:?}", e, t, v);
        if let RVal::Id(_) = v {
            n += check_ref(s, r, t, v, citem::get_ref(it, t), citem::get_ref_id(it, t).map(|q| qvs(q)))? as u64;
        }
    } else {
        for rd in &d.refs {
            let want = m.refs.get(&rd.table).unwrap_or(&rd.def);
            n += check_ref(s, r, &rd.table, want, citem::get_ref(it, &rd.table), citem::get_ref_id(it, &rd.table).map(|q| qvs(q)))? as u64;
        }
    }
    for i in &d.inners {
        if let Some(l) = m.inners.get(&i.name) {
            let real = citem::get_cil::<CItemPtr>(it, &i.name).or_vio("inner list")?;
            for (k, x) in l.iter().enumerate() {
                n += check_citem_refs(s, r, &i.def, x, real.value(k))?;
            }
        }
    }
    Ok(n)
}

fn qvs(q: Qv<&String>) -> Qv<String> {
    match q {
        Qv::Val(s) => Qv::Val(s.clone()),
        Qv::Null => Qv::Null,
        Qv::Undefined => Qv::Undefined,
    }
}

fn check_all_refs(s: &Schema, d: &Doc, r: &mut RootObject) -> Res<u64> {
    let mut n = 0;
    for m in &s.mems {
        match m {
            RMem::CList(name, def, items) => {
                let l = root::get_clist::<CItemPtr>(ptr(r), name).or_vio("constant list")?;
                for (k, x) in items.iter().enumerate() {
                    n += check_citem_refs(s, r, def, x, l.value(k))?;
                }
            }
            RMem::Table(name, def, items) => {
                let t = root::get_table(ptr(r).def(), name).or_vio("table")?;
                for (id, x) in items {
                    n += check_citem_refs(s, r, def, x, table::get_value(t, id).or_vio("table item")?)?;
                }
                let kvs = table::get_kvs(t);
                let mut got: Vec<&str> = kvs.items().iter().map(|k| k.id()).collect();
                got.sort();
                let mut want: Vec<&str> = items.iter().map(|i| i.0.as_str()).collect();
                want.sort();
                ensure!(got == want, "table {} has the IDs {:?}, expected {:?}", name, got, want);
                for kv in kvs.items() {
                    let found = table::get_value(t, kv.id()).map(|i| i.item());
                    ensure!(found == Some(kv.item()), "the ID {} of table {} is listed with another item", kv.id(), name);
                }
                // no other ID finds anything
                for id in &want {
                    for other in [id.to_uppercase(), id.to_lowercase(), format!("{} ", id), format!("{}_", id), id.chars().skip(1).collect(), String::new()] {
                        if !want.contains(&other.as_str()) {
                            ensure!(table::get_value(t, &other).is_none(), "table {} has an item with the ID {:?}", name, other);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for lp in d.list_paths(s) {
        let def = s.list_def(&lp).unwrap();
        if let Some(l) = d.list(&lp) {
            for (id, it) in &l.items {
                let item = real_list(r, &lp).and_then(|mut l| l.get_item_mut(*id)).or_vio("item")?;
                if def.is_enum {
                    let (t, v) = it.refs.iter().next().or_vio("alternative")?;
                    let e = mitem::get_enum(item);
                    ensure!(e.clone().map(|x| (x.0, RVal::Id(x.1))) == Some((t.clone(), v.clone())), "alternative reads {:?}, expected {} {:?}", e, t, v);
                    for rd in &def.refs {
                        if &rd.table == t {
                            n += check_ref(s, r, t, v, mitem::get_ref(item, t), mitem::get_ref_id(item, t).map(|q| qvs(q)))? as u64;
                        } else {
                            let other = mitem::get_ref_id(item, &rd.table).map(|q| qvs(q));
                            ensure!(matches!(other, Some(Qv::Null)), "alternative {} is active although {} is selected: {:?}", rd.table, t, other);
                        }
                    }
                } else {
                    for rd in &def.refs {
                        let want = it.refs.get(&rd.table).unwrap_or(&rd.def);
                        n += check_ref(s, r, &rd.table, want, mitem::get_ref(item, &rd.table), mitem::get_ref_id(item, &rd.table).map(|q| qvs(q)))? as u64;
                    }
                }
            }
        }
    }
    Ok(n)
}

fn references(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut s = gen_schema(g, &Opts { need_mlist: true, need_refs: true, ..Opts::default() });
    if g.chance(1, 300) {
        let rows = g.range(100, 1100);
        super::large::add_rows(&mut s, rows);
        cx.label("tables with many rows");
    }
    // every table item tells who it is
    for m in s.mems.iter_mut() {
        if let RMem::Table(n, d, items) = m {
            d.params.push(PDef { name: "who".into(), ty: Ty::Str, vt: Vt::NORMAL, def: Val::Str(String::new()) });
            for (id, it) in items.iter_mut() {
                it.vals.insert("who".into(), Val::Str(format!("{}/{}", n, id)));
            }
        }
    }
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut r = load_source(&dir)?;
    let mut d = s.initial();
    cx.sample(|| schema_text(&s));
    let mut n = check_all_refs(&s, &d, &mut r)?;
    let start = r.clone();
    let mut log = vec![];
    let mut err = None;
    g.many(0, 40, 12, |g, i| {
        if err.is_some() {
            return;
        }
        let mut f = || -> Res<()> {
            step(g, &s, &mut d, &mut r, &OpOpts { invalid: false, ref_weight: 12, ..OpOpts::default() }, &mut log)?;
            if i % 3 == 0 {
                n += check_all_refs(&s, &d, &mut r)?;
            }
            Ok(())
        };
        if let Err(e) = f() {
            err = Some(e);
        }
    });
    cx.sample = Some(format!("source {} operations: {}", clip(&schema_text(&s)), ops_text(&log)));
    if let Some(e) = err {
        return Err(e);
    }
    n += check_all_refs(&s, &d, &mut r)?;
    // saved and loaded
    let diff = super::diff::diff(&start, &r)?;
    let mut fresh = load_source(&dir)?;
    dochy_diff::apply_diff(&mut fresh, &mut diff.as_slice()).or_vio("applying a difference")?;
    n += check_all_refs(&s, &d, &mut fresh)?;
    cx.count("references resolved", n);
    if log.iter().any(|o| matches!(o, Op::SetEnum(..))) {
        cx.label("alternative selected");
    }
    if log.iter().any(|o| matches!(o, Op::SetRef(..))) {
        cx.label("reference set");
    }
    cx.nontrivial_if(n > 0);
    Ok(())
}
