//! V01: converting documents of an older source to a newer one.

use super::accessor::{choose_olds, source_text};
use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "V01",
        suites: vec![suite("conversions", conversions, 40000, 1_500_000)],
        rule: "the newer source differs from the older one and the document had been changed or has list items",
        level: "exploration",
        assumptions: &[],
    }]
}

fn used_names(d: &ListDef) -> Vec<String> {
    d.params.iter().map(|p| p.name.clone()).chain(d.inners.iter().map(|i| i.name.clone())).collect()
}

fn fresh(g: &mut Gen, used: &[String], pool: &[String]) -> String {
    // now and then a name that some other place has, or had
    if !pool.is_empty() && g.chance(1, 4) {
        let n = g.pick(pool).clone();
        if !used.contains(&n) {
            return n;
        }
    }
    for k in 0.. {
        let n = format!("added{}", k);
        if !used.contains(&n) {
            return n;
        }
    }
    unreachable!()
}

fn change_param(g: &mut Gen, p: &mut PDef) {
    match g.weighted(&[5, 4, 2]) {
        0 => {}
        1 => {
            p.vt = gen_vt(g);
        }
        _ => {
            p.ty = *g.pick(&TYPES);
        }
    }
    p.def = if p.vt.null && g.chance(1, 4) { Val::Null } else { gen_val(g, p.ty, true) };
}

fn new_param(g: &mut Gen, name: String) -> PDef {
    let mut p = PDef { name, ty: *g.pick(&TYPES), vt: gen_vt(g), def: Val::Null };
    if g.chance(1, 3) {
        p.vt.undef = true;
    }
    p.def = if p.vt.null && g.chance(1, 4) { Val::Null } else { gen_val(g, p.ty, true) };
    p
}

fn change_def(g: &mut Gen, d: &mut ListDef, mutable: bool, tables: &[(String, Vec<String>)], pool: &[String], depth: usize) {
    let used = used_names(d);
    match g.weighted(&[4, 3, 3, 3, 2, 2, 4]) {
        0 => {
            let n = fresh(g, &used, pool);
            let p = new_param(g, n);
            let at = g.us(d.params.len() + 1);
            d.params.insert(at, p);
        }
        1 if !d.params.is_empty() => {
            let i = g.us(d.params.len());
            d.params.remove(i);
        }
        2 if !d.params.is_empty() => {
            let i = g.us(d.params.len());
            change_param(g, &mut d.params[i]);
        }
        3 if depth < 3 => {
            let name = fresh(g, &used, pool);
            let mut inner = ListDef::default();
            let n = 1 + g.us(2);
            for k in 0..n {
                inner.params.push(new_param(g, format!("added{}", k)));
            }
            d.inners.push(Inner { name, def: inner, undefiable: mutable && g.chance(1, 2) });
        }
        4 if !d.inners.is_empty() => {
            let i = g.us(d.inners.len());
            if g.bool() {
                d.inners.remove(i);
            } else if mutable {
                d.inners[i].undefiable = !d.inners[i].undefiable;
            }
        }
        5 => {
            // references
            let have: Vec<String> = d.refs.iter().map(|r| r.table.clone()).collect();
            let free: Vec<&(String, Vec<String>)> = tables.iter().filter(|t| !have.contains(&t.0)).collect();
            if !d.refs.is_empty() && g.chance(1, 3) {
                let i = g.us(d.refs.len());
                d.refs.remove(i);
                if d.refs.is_empty() {
                    d.is_enum = false;
                }
            } else if !free.is_empty() {
                let (t, ids) = (*g.pick(&free)).clone();
                if d.is_enum {
                    let null = g.chance(3, 4);
                    d.refs.push(RefDef { table: t, vt: Vt { null, undef: false }, def: RVal::Null });
                } else {
                    let vt = gen_vt(g);
                    let def = match g.us(3) {
                        0 => RVal::Id(g.pick(&ids).clone()),
                        1 if vt.null => RVal::Null,
                        1 => RVal::Id(g.pick(&ids).clone()),
                        _ => RVal::Id(String::new()),
                    };
                    d.refs.push(RefDef { table: t, vt, def });
                }
            }
        }
        _ => {
            if !d.inners.is_empty() {
                let i = g.us(d.inners.len());
                change_def(g, &mut d.inners[i].def, mutable, tables, pool, depth + 1);
            }
        }
    }
}

fn fit_vals(g: &mut Gen, d: &ListDef, vals: &mut BTreeMap<String, Val>) {
    vals.retain(|n, v| d.params.iter().any(|p| p.name == *n && type_ok(p, v)));
    for p in &d.params {
        if g.chance(1, 8) {
            vals.insert(p.name.clone(), gen_val(g, p.ty, true));
        }
    }
}

fn fit_refs(g: &mut Gen, d: &ListDef, tables: &[(String, Vec<String>)], refs: &mut BTreeMap<String, RVal>) {
    let ids = |t: &str| tables.iter().find(|(n, _)| n == t).map(|x| x.1.clone()).unwrap_or_default();
    refs.retain(|t, v| {
        d.refs.iter().any(|r| {
            r.table == *t
                && match v {
                    RVal::Null => r.vt.null && !d.is_enum,
                    RVal::Undef => false,
                    RVal::Id(i) => ids(t).contains(i),
                }
        })
    });
    if d.is_enum {
        while refs.len() > 1 {
            let k = refs.keys().next().unwrap().clone();
            refs.remove(&k);
        }
        if refs.is_empty() {
            let r = g.pick(&d.refs);
            refs.insert(r.table.clone(), RVal::Id(ids(&r.table)[0].clone()));
        }
    } else {
        for r in &d.refs {
            if r.def == RVal::Id(String::new()) && !refs.contains_key(&r.table) {
                refs.insert(r.table.clone(), RVal::Id(ids(&r.table)[0].clone()));
            }
        }
    }
}

fn fit_citem(g: &mut Gen, d: &ListDef, tables: &[(String, Vec<String>)], it: &mut CItem) {
    fit_vals(g, d, &mut it.vals);
    fit_refs(g, d, tables, &mut it.refs);
    it.inners.retain(|n, _| d.inners.iter().any(|i| i.name == *n));
    for i in &d.inners {
        if let Some(l) = it.inners.get_mut(&i.name) {
            for x in l {
                fit_citem(g, &i.def, tables, x);
            }
        }
    }
}

fn fit_mlist(g: &mut Gen, d: &ListDef, tables: &[(String, Vec<String>)], l: &mut MList) {
    for (_, it) in &mut l.items {
        fit_vals(g, d, &mut it.vals);
        fit_refs(g, d, tables, &mut it.refs);
        it.inners.retain(|n, _| d.inners.iter().any(|i| i.name == *n));
        for i in &d.inners {
            if let Some(Some(x)) = it.inners.get_mut(&i.name) {
                fit_mlist(g, &i.def, tables, x);
            }
        }
    }
}

fn fit_def(g: &mut Gen, d: &mut ListDef, tables: &[(String, Vec<String>)]) {
    d.refs.retain(|r| tables.iter().any(|t| t.0 == r.table));
    for r in &mut d.refs {
        let ids = &tables.iter().find(|t| t.0 == r.table).unwrap().1;
        if let RVal::Id(i) = &r.def {
            if !i.is_empty() && !ids.contains(i) {
                r.def = RVal::Id(g.pick(ids).clone());
            }
        }
        if r.def == RVal::Null && !d.is_enum && !r.vt.null {
            r.def = RVal::Id(ids[0].clone());
        }
    }
    if d.refs.is_empty() {
        d.is_enum = false;
    }
    for i in &mut d.inners {
        fit_def(g, &mut i.def, tables);
    }
}

/// Gives some of a list's items in the source something in one of their own lists, which
/// may be a new one.
fn fill_inner(g: &mut Gen, d: &mut ListDef, l: &mut MList, pool: &[String]) {
    if d.inners.is_empty() || g.chance(1, 3) {
        let name = fresh(g, &used_names(d), pool);
        let def = ListDef { params: vec![new_param(g, "added0".into())], ..ListDef::default() };
        d.inners.push(Inner { name, def, undefiable: true });
    }
    let name = g.pick(&d.inners).name.clone();
    for (_, item) in &mut l.items {
        if g.bool() {
            let inner = item.inners.entry(name.clone()).or_insert(None);
            let inner = inner.get_or_insert_with(MList::default);
            inner.items.push((inner.next_id, MItem::default()));
            inner.next_id += 1;
        }
    }
}

/// A later version of a source: some edits, then everything made consistent again.
pub fn evolve(g: &mut Gen, s: &Schema) -> Schema {
    let mut n = s.clone();
    let pool: Vec<String> = s.mems.iter().map(|m| m.name().to_string()).collect();
    let edits = g.range(1, 5);
    for _ in 0..edits {
        g.span(|g| {
            let used: Vec<String> = n.mems.iter().map(|m| m.name().to_string()).collect();
            let tables = tables_of(&n);
            match g.weighted(&[3, 2, 3, 6, 2, 1, 1, 2]) {
                0 => {
                    let name = fresh(g, &used, &pool);
                    let p = new_param(g, name);
                    let at = g.us(n.mems.len() + 1);
                    n.mems.insert(at, RMem::Param(p));
                }
                1 if !n.mems.is_empty() => {
                    let i = g.us(n.mems.len());
                    n.mems.remove(i);
                }
                2 if !n.mems.is_empty() => {
                    let i = g.us(n.mems.len());
                    if let RMem::Param(p) = &mut n.mems[i] {
                        change_param(g, p);
                    }
                }
                3 if !n.mems.is_empty() => {
                    let lists: Vec<usize> = (0..n.mems.len()).filter(|i| !matches!(n.mems[*i], RMem::Param(_))).collect();
                    if !lists.is_empty() {
                        let i = *g.pick(&lists);
                        match &mut n.mems[i] {
                            RMem::MList(_, d, _, _) => change_def(g, d, true, &tables, &pool, 0),
                            RMem::Table(_, d, _) | RMem::CList(_, d, _) => change_def(g, d, false, &tables, &pool, 0),
                            _ => {}
                        }
                    }
                }
                4 if !n.mems.is_empty() => {
                    // items of a list
                    let i = g.us(n.mems.len());
                    match &mut n.mems[i] {
                        RMem::MList(_, d, _, l) => {
                            let how = g.weighted(&[2, 2, 1]);
                            if !l.items.is_empty() && how == 0 {
                                let k = g.us(l.items.len());
                                l.items.remove(k);
                            } else if !l.items.is_empty() && how == 2 {
                                fill_inner(g, d, l, &pool);
                            } else {
                                let id = l.next_id;
                                l.items.push((id, MItem::default()));
                                l.next_id += 1;
                            }
                        }
                        RMem::CList(_, _, v) => {
                            if !v.is_empty() && g.bool() {
                                v.pop();
                            } else {
                                v.push(CItem::default());
                            }
                        }
                        RMem::Table(_, _, v) => {
                            if v.len() > 1 && g.bool() {
                                let k = g.us(v.len());
                                v.remove(k);
                            } else {
                                let ids: Vec<String> = v.iter().map(|x| x.0.clone()).collect();
                                let id = fresh(g, &ids, &[]);
                                v.push((id, CItem::default()));
                            }
                        }
                        _ => {}
                    }
                }
                5 if !n.mems.is_empty() => {
                    // another kind of member by the same name
                    let i = g.us(n.mems.len());
                    let name = n.mems[i].name().to_string();
                    let d = ListDef { params: vec![new_param(g, "x".into())], ..ListDef::default() };
                    let k = g.us(3);
                    if !matches!(n.mems[i], RMem::Table(_, _, _)) {
                        n.mems[i] = match k {
                            0 => RMem::Param(new_param(g, name)),
                            1 => RMem::CList(name, d, vec![CItem::default()]),
                            _ => {
                                let undefiable = g.bool();
                                RMem::MList(name, d, undefiable, MList { items: vec![(0, MItem::default())], next_id: 1 })
                            }
                        };
                    }
                }
                6 => {
                    let name = fresh(g, &used, &pool);
                    let d = ListDef { params: vec![new_param(g, "x".into())], ..ListDef::default() };
                    let undefiable = g.bool();
                    n.mems.push(RMem::MList(name, d, undefiable, MList { items: vec![(0, MItem::default())], next_id: 1 }));
                }
                _ => {
                    // undefiable or not
                    for m in &mut n.mems {
                        if let RMem::MList(_, _, u, _) = m {
                            if g.chance(1, 3) {
                                *u = !*u;
                            }
                        }
                    }
                }
            }
        });
    }
    let tables = tables_of(&n);
    for m in &mut n.mems {
        match m {
            RMem::Param(_) => {}
            RMem::Table(_, d, v) => {
                fit_def(g, d, &tables);
                for (_, it) in v {
                    fit_citem(g, d, &tables, it);
                }
            }
            RMem::CList(_, d, v) => {
                fit_def(g, d, &tables);
                for it in v {
                    fit_citem(g, d, &tables, it);
                }
            }
            RMem::MList(_, d, _, l) => {
                fit_def(g, d, &tables);
                fit_mlist(g, d, &tables, l);
            }
        }
    }
    n
}

// ------------------------------------------------------------------ the specification

fn type_ok(p: &PDef, v: &Val) -> bool {
    match v {
        Val::Null => p.vt.null,
        Val::Undef => p.vt.undef,
        Val::Bool(_) => p.ty == Ty::Bool,
        Val::Int(_) => p.ty == Ty::Int,
        Val::Float(_) => p.ty == Ty::Float,
        Val::Str(_) => p.ty == Ty::Str,
        Val::Ints(_) => p.ty == Ty::Ints,
        Val::Floats(_) => p.ty == Ty::Floats,
        Val::Bin(_) => p.ty == Ty::Bin,
    }
}

/// A stored null or undefined keeps the type it had; it only fits a member of the same type.
fn carry(old: Option<&PDef>, new: &PDef, v: &Val) -> Result<Val, String> {
    if !type_ok(new, v) || (!v.is_val() && old.map_or(true, |o| o.ty != new.ty)) {
        return Err(format!("value {} doesn't fit {:?}", v.text(), new));
    }
    Ok(v.clone())
}

fn convert_list(old: Option<&ListDef>, new: &ListDef, l: &MList, tables: &[(String, Vec<String>)]) -> Result<MList, String> {
    let mut r = MList { items: vec![], next_id: l.next_id };
    for (id, it) in &l.items {
        let mut n = MItem::default();
        let had = |name: &str| old.map_or(false, |o| o.params.iter().any(|p| p.name == name) || o.inners.iter().any(|i| i.name == name));
        for p in &new.params {
            if let Some(v) = it.vals.get(&p.name) {
                let op = old.and_then(|o| o.params.iter().find(|x| x.name == p.name));
                n.vals.insert(p.name.clone(), carry(op, p, v)?);
            } else if it.inners.contains_key(&p.name) {
                return Err(format!("{} was an inner list", p.name));
            } else if p.vt.undef && !had(&p.name) {
                n.vals.insert(p.name.clone(), Val::Undef);
            }
        }
        for i in &new.inners {
            match it.inners.get(&i.name) {
                Some(Some(x)) => {
                    let oi = old.and_then(|o| o.inners.iter().find(|y| y.name == i.name)).map(|y| &y.def);
                    n.inners.insert(i.name.clone(), Some(convert_list(oi, &i.def, x, tables)?));
                }
                Some(None) => {
                    if !i.undefiable {
                        return Err(format!("{} was undefined", i.name));
                    }
                    n.inners.insert(i.name.clone(), None);
                }
                None => {
                    if it.vals.contains_key(&i.name) {
                        return Err(format!("{} was a value", i.name));
                    }
                    if i.undefiable && !had(&i.name) {
                        n.inners.insert(i.name.clone(), None);
                    }
                }
            }
        }
        for r in &new.refs {
            match it.refs.get(&r.table) {
                Some(v) => {
                    let ok = match v {
                        RVal::Null => r.vt.null && !new.is_enum,
                        RVal::Undef => r.vt.undef,
                        RVal::Id(i) => tables.iter().any(|(t, ids)| *t == r.table && ids.contains(i)),
                    };
                    if !ok {
                        return Err(format!("reference {} {}", r.table, v.text()));
                    }
                    n.refs.insert(r.table.clone(), v.clone());
                }
                None => {
                    if new.is_enum {
                        continue;
                    }
                    if r.vt.undef && !old.map_or(false, |o| o.refs.iter().any(|x| x.table == r.table)) {
                        n.refs.insert(r.table.clone(), RVal::Undef);
                    } else if r.def == RVal::Id(String::new()) {
                        return Err(format!("reference {} isn't given", r.table));
                    }
                }
            }
        }
        if new.is_enum && n.refs.len() != 1 {
            return Err("alternative isn't given".into());
        }
        r.items.push((*id, n));
    }
    Ok(r)
}

/// The document in the new version, or why it has to be refused.
pub fn convert(old: &Schema, d: &Doc, new: &Schema) -> Result<Doc, String> {
    let tables = tables_of(new);
    let mut r = Doc::default();
    for m in &new.mems {
        match m {
            RMem::Param(p) => match old.get(&p.name) {
                None => {
                    if p.vt.undef {
                        r.vals.insert(p.name.clone(), Val::Undef);
                    }
                }
                Some(RMem::Param(op)) => {
                    if let Some(v) = d.vals.get(&p.name) {
                        r.vals.insert(p.name.clone(), carry(Some(op), p, v)?);
                    }
                }
                Some(RMem::MList(_, _, _, _)) => return Err(format!("{} was a mutable list", p.name)),
                Some(_) => {}
            },
            RMem::MList(n, def, undefiable, init) => match old.get(n) {
                None if *undefiable => {
                    r.lists.insert(n.clone(), None);
                }
                Some(RMem::MList(_, od, _, _)) => match d.lists.get(n) {
                    Some(Some(l)) => {
                        r.lists.insert(n.clone(), Some(convert_list(Some(od), def, l, &tables)?));
                    }
                    _ => {
                        if !undefiable {
                            return Err(format!("{} was undefined", n));
                        }
                        r.lists.insert(n.clone(), None);
                    }
                },
                _ => {
                    r.lists.insert(n.clone(), Some(init.clone()));
                }
            },
            _ => {}
        }
    }
    Ok(r)
}

fn conversions(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let mut s = gen_schema(g, &Opts { wide: 0, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let versions = 1 + g.weighted(&[5, 2, 1]);
    let mut text = clip(&schema_text(&s));
    for _ in 0..versions {
        let mut log = vec![];
        let mut err = None;
        g.many(0, 16, 5, |g, _| {
            if err.is_none() {
                if let Err(e) = step(g, &s, &mut doc, &mut root, &OpOpts::default(), &mut log) {
                    err = Some(e);
                }
            }
        });
        if let Some(e) = err {
            return Err(e);
        }
        if g.chance(1, 50) && super::diff::grow(g, &s, &mut doc, &mut root, &mut log)? >= 64 {
            cx.label("list of 64 items or more");
        }
        let before = show_doc(&s, &doc);
        check_doc(&s, &doc, &root, "document before its conversion")?;
        let same = g.chance(1, 12);
        let mut n = if same { s.clone() } else { evolve(g, &s) };
        // documents of older versions may use what the new one marks as old
        let olds = if !same && g.chance(1, 3) { Some(choose_olds(g, &mut n)) } else { None };
        text = format!("{} then {} then {}", text, ops_text(&log), clip(&schema_text(&n)));
        cx.sample = Some(text.clone());
        let dir = cx.dir();
        match &olds {
            Some(o) => {
                let t = source_text(&n, o);
                if t.contains("Old") {
                    cx.label("marked as old");
                    cx.sample = Some(format!("{}\n{}", text, t));
                }
                std::fs::write(dir.join("root.json5"), t).expect("scratch")
            }
            None => write_source(&dir, &n, &Style::plain()),
        }
        let new_root = load_source(&dir)?;
        let new_doc = n.initial();
        check_doc(&n, &new_doc, &new_root, "initial document of the new version")?;
        let want = convert(&s, &doc, &n);
        let got = match no_panic(|| dochy_core::adjust_versions(new_root.clone(), root.clone(), true)) {
            Ok(r) => r,
            Err(p) => vio!("converting panicked: {}\n{}", p, text),
        };
        check_doc(&s, &doc, &root, "old document after it was converted")?;
        check_doc(&n, &new_doc, &new_root, "new document after another one was converted to it")?;
        let same = schema_text(&s) == schema_text(&n);
        match (want, got) {
            (Ok(w), Ok(r)) => {
                cx.label(if same { "same version" } else { "converted" });
                let want = show_doc(&n, &w);
                let o = observe(&n, &r);
                ensure!(o == want, "converted document: {}\n{}", diff_text(&want, &o), text);
                // without validation it is the same
                let r2 = dochy_core::adjust_versions(new_root.clone(), root.clone(), false).or_vio("converting without validation")?;
                let o = observe(&n, &r2);
                ensure!(o == want, "document converted without validation: {}\n{}", diff_text(&want, &o), text);
                if same {
                    // nothing but the marks of what was changed may differ
                    ensure!(before == want, "HARNESS: model of the same version");
                }
                cx.nontrivial_if(!same && (!log.is_empty() || doc.count_items(&s) > 0));
                doc = w;
                root = r;
                s = n;
            }
            (Err(e), Ok(r)) => vio!("a document that doesn't fit the new version was converted ({}): {}\n{}", e, clip(&observe(&n, &r)), text),
            (Ok(_), Err(e)) => vio!("conversion was refused: {}\n{}", e, text),
            (Err(_), Err(_)) => {
                cx.label("refused, rightly");
                cx.nontrivial_if(!same);
                match no_panic(|| dochy_core::adjust_versions(new_root.clone(), root.clone(), false)) {
                    Ok(_) => {}
                    Err(p) => vio!("converting without validation panicked: {}\n{}", p, text),
                }
                break;
            }
        }
    }
    Ok(())
}
