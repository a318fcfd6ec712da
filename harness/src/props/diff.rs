//! D01, D02: binary differences between documents.

use super::version::{convert, evolve};
use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::{ensure, vio};
use dochy_core::structs::RootObject;
use dochy_diff::{apply_diff, get_diff};

pub fn props() -> Vec<Prop> {
    vec![
    Prop {
        id: "D01",
        suites: vec![suite("derivations", derivations, 50000, 1_500_000), suite("long_lists", long_lists, 1500, 40000), suite("many_members", many_members, 300, 6000), suite("converted", converted, 15000, 400_000), suite("large_values", super::large::differences, 200, 4000)],
        rule: "at least one difference between two unequal documents was taken and applied",
        level: "exploration",
        assumptions: &["the newer document derives from the older one (copies and API edits), as the difference function's documentation requires"],
    },
    Prop {
        id: "D02",
        suites: vec![suite("elsewhere", elsewhere, 60000, 1_500_000), suite("moves", moves, 60000, 1_500_000)],
        rule: "elsewhere: documents whose other parts differ were given the same edits, and the difference is not empty; moves: a list of at least five items had one moved",
        level: "exploration",
        assumptions: &["the newer document derives from the older one (copies and API edits), as the difference function's documentation requires"],
    },
    Prop {
        id: "D03",
        suites: vec![suite("copies", equality, 40000, 1_000_000)],
        rule: "two documents with different contents were compared",
        level: "exploration",
        assumptions: &["the documents compared come from the same source definition"],
    }]
}

pub struct Node {
    pub doc: Doc,
    pub root: RootObject,
    pub parent: Option<usize>,
    pub text: String,
}

pub fn ancestors(nodes: &[Node], mut i: usize) -> Vec<usize> {
    let mut v = vec![i];
    while let Some(p) = nodes[i].parent {
        v.push(p);
        i = p;
    }
    v
}

pub fn diff(a: &RootObject, b: &RootObject) -> Res<Vec<u8>> {
    get_diff(a, b).or_vio("taking a difference")
}

/// A tree of documents, each a copy of its parent with some operations applied.
pub fn gen_tree(g: &mut Gen, s: &Schema, root: RootObject, doc: Doc, n: usize, ops: usize, o: &OpOpts, log: &mut Vec<Op>) -> Res<Vec<Node>> {
    let mut nodes = vec![];
    let text = show_doc(s, &doc);
    nodes.push(Node { doc, root, parent: None, text });
    for _ in 0..n {
        let last = nodes.len() - 1;
        let parent = if g.chance(1, 4) { g.us(nodes.len()) } else { last };
        let mut doc = nodes[parent].doc.clone();
        let mut root = nodes[parent].root.clone();
        let mut err = None;
        g.many(0, ops * 4, ops, |g, _| {
            if err.is_none() {
                if let Err(e) = step(g, s, &mut doc, &mut root, o, log) {
                    err = Some(e);
                }
            }
        });
        if let Some(e) = err {
            return Err(e);
        }
        check_doc(s, &doc, &root, "document after its operations")?;
        let text = show_doc(s, &doc);
        nodes.push(Node { doc, root, parent: Some(parent), text });
    }
    Ok(nodes)
}

fn derivations(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let need_refs = g.chance(1, 3);
    let s = gen_schema(g, &Opts { need_refs, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let root = load_source(&dir)?;
    let doc = s.initial();
    check_doc(&s, &doc, &root, "initial document")?;
    let fresh = load_source(&dir)?;
    let n = g.range(1, 4);
    let ops = *g.pick(&[3, 1, 6, 12]);
    let mut log = vec![];
    cx.sample(|| schema_text(&s));
    let nodes = gen_tree(g, &s, root, doc, n, ops, &OpOpts::default(), &mut log)?;
    cx.sample = Some(format!("source {} operations: {}", clip(&schema_text(&s)), ops_text(&log)));
    for o in &log {
        cx.label(o.kind());
    }
    check_tree(cx, &s, &nodes, &fresh)
}

/// Differences along a tree of documents, `fresh` being a separate document in the state of the first.
fn check_tree(cx: &mut Cx, s: &Schema, nodes: &[Node], fresh: &RootObject) -> Res<()> {
    for i in 1..nodes.len() {
        for a in ancestors(nodes, i) {
            let d = diff(&nodes[a].root, &nodes[i].root)?;
            let mut r = nodes[a].root.clone();
            apply_diff(&mut r, &mut d.as_slice()).or_vio("applying a difference")?;
            let o = observe(s, &r);
            if o != nodes[i].text {
                vio!("difference {}->{} applied to a copy of the older document: {}", a, i, diff_text(&nodes[i].text, &o));
            }
            if nodes[a].text != nodes[i].text {
                cx.nontrivial = true;
                cx.count("differences between unequal documents", 1);
            }
        }
        // the chain from the source, onto a document that shares nothing with the others
        let mut path = ancestors(nodes, i);
        path.reverse();
        let mut r = fresh.clone();
        for w in path.windows(2) {
            let d = diff(&nodes[w[0]].root, &nodes[w[1]].root)?;
            apply_diff(&mut r, &mut d.as_slice()).or_vio("applying a chain of differences")?;
        }
        let o = observe(s, &r);
        ensure!(o == nodes[i].text, "chain of differences {:?}: {}", path, diff_text(&nodes[i].text, &o));
        // taking differences changes neither document
        let o = observe(s, &nodes[i].root);
        ensure!(o == nodes[i].text, "document changed by taking differences: {}", diff_text(&nodes[i].text, &o));
    }
    let o = observe(s, fresh);
    ensure!(o == nodes[0].text, "fresh document changed: {}", diff_text(&nodes[0].text, &o));
    Ok(())
}

/// Documents converted from an older source, where a list can be undefined at first.
fn converted(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts { wide: 0, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let mut log = vec![];
    for _ in 0..g.us(8) {
        step(g, &s, &mut doc, &mut root, &OpOpts::default(), &mut log)?;
    }
    let n = evolve(g, &s);
    let doc = match convert(&s, &doc, &n) {
        Ok(d) => d,
        Err(_) => {
            cx.label("not convertible");
            return Ok(());
        }
    };
    let dir = cx.dir();
    write_source(&dir, &n, &Style::plain());
    let source = load_source(&dir)?;
    let root2 = dochy_core::adjust_versions(source.clone(), root.clone(), true).or_vio("converting a document")?;
    let fresh = dochy_core::adjust_versions(source.clone(), root, true).or_vio("converting a document")?;
    check_doc(&n, &doc, &root2, "converted document")?;
    if doc.lists.values().any(|l| l.is_none()) {
        cx.label("undefined list");
    }
    // from the new source to the converted document
    let d = diff(&source, &root2)?;
    let mut r = load_source(&dir)?;
    apply_diff(&mut r, &mut d.as_slice()).or_vio("applying a difference")?;
    check_doc(&n, &doc, &r, "difference between the source and the converted document, applied to the source")?;
    let mut log = vec![];
    let k = g.range(1, 3);
    let ops = *g.pick(&[3, 1, 6]);
    let nodes = gen_tree(g, &n, root2, doc, k, ops, &OpOpts::default(), &mut log)?;
    cx.sample = Some(format!("source {} converted to {} operations: {}", clip(&schema_text(&s)), clip(&schema_text(&n)), ops_text(&log)));
    check_tree(cx, &n, &nodes, &fresh)
}

/// Inserts, removes or moves up to hundreds of items of a list. Gives the length of the list.
pub fn grow(g: &mut Gen, s: &Schema, doc: &mut Doc, root: &mut RootObject, log: &mut Vec<Op>) -> Res<usize> {
    let lists = doc.list_paths(s);
    if lists.is_empty() {
        return Ok(0);
    }
    let lp = g.pick(&lists).clone();
    let n = *g.pick(&[70usize, 20, 300, 700]);
    match g.weighted(&[4, 2, 2]) {
        0 => {
            let tables = tables_of(s);
            for _ in 0..n {
                let refs = match s.list_def(&lp) {
                    Some(def) => gen_refs(g, def, &tables, true),
                    None => break,
                };
                let first = g.chance(1, 10);
                apply_both(s, doc, root, Op::Insert { list: lp.clone(), first, refs: refs.clone() }, log)?;
            }
        }
        1 => {
            let ids: Vec<u64> = doc.list(&lp).map(|l| l.items.iter().map(|i| i.0).collect()).unwrap_or_default();
            let (a, b) = *g.pick(&[(1, 2), (1, 10), (9, 10)]);
            for id in ids {
                if g.chance(a, b) {
                    apply_both(s, doc, root, Op::Remove(lp.clone(), id), log)?;
                }
            }
        }
        _ => {
            let ids: Vec<u64> = doc.list(&lp).map(|l| l.items.iter().map(|i| i.0).collect()).unwrap_or_default();
            if ids.len() > 1 {
                for _ in 0..n.min(ids.len()) {
                    let (a, b) = (*g.pick(&ids), *g.pick(&ids));
                    let op = match g.us(4) {
                        0 => Op::MoveFirst(lp.clone(), a),
                        1 => Op::MoveLast(lp.clone(), a),
                        _ if a == b => continue,
                        2 => Op::MovePrev(lp.clone(), a, b),
                        _ => Op::MoveNext(lp.clone(), a, b),
                    };
                    apply_both(s, doc, root, op, log)?;
                }
            }
        }
    }
    for _ in 0..g.us(30) {
        step(g, s, doc, root, &OpOpts { max_items: 5000, ..OpOpts::default() }, log)?;
    }
    Ok(doc.list(&lp).map(|l| l.items.len()).unwrap_or(0))
}

/// Lists of hundreds of items, filled, thinned out and reordered in bulk between differences.
fn long_lists(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let need_refs = g.chance(1, 4);
    let s = gen_schema(g, &Opts { need_mlist: true, need_refs, wide: 0, max_depth: 1, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let fresh = load_source(&dir)?;
    cx.sample(|| schema_text(&s));
    let mut before = (doc.clone(), root.clone());
    let mut chain = fresh.clone();
    let rounds = g.range(2, 5);
    let mut longest = 0;
    let mut log = vec![];
    for _ in 0..rounds {
        longest = longest.max(grow(g, &s, &mut doc, &mut root, &mut log)?);
        let text = show_doc(&s, &doc);
        let d = diff(&before.1, &root)?;
        let mut r = before.1.clone();
        apply_diff(&mut r, &mut d.as_slice()).or_vio("applying a difference")?;
        let o = observe(&s, &r);
        ensure!(o == text, "difference of long lists: {}", diff_text(&text, &o));
        apply_diff(&mut chain, &mut d.as_slice()).or_vio("applying a chain of differences")?;
        let o = observe(&s, &chain);
        ensure!(o == text, "chain of differences of long lists: {}", diff_text(&text, &o));
        before = (doc.clone(), root.clone());
    }
    cx.label(if longest >= 256 { "list of 256 items or more" } else if longest >= 64 { "list of 64 items or more" } else { "short list" });
    cx.nontrivial_if(longest >= 64);
    Ok(())
}

/// Documents whose root, or whose list items, have hundreds to tens of thousands of members,
/// few or many of which change between two differences.
fn many_members(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let n = match g.weighted(&[6, 6, 1, 1]) {
        0 => g.range(60, 200),
        1 => g.range(200, 2000),
        2 => g.range(32700, 33000),
        _ => g.range(33000, 70000),
    };
    let lists = g.us(4);
    let in_items = g.bool();
    let mut salt = g.u64();
    let mut next = |below: usize| {
        salt = salt.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (salt >> 33) as usize % below
    };
    let params: Vec<PDef> = (0..n)
        .map(|i| {
            let (ty, def) = match next(4) {
                0 => (Ty::Bool, Val::Bool(false)),
                1 => (Ty::Str, Val::Str("s".into())),
                _ => (Ty::Int, Val::Int(i as i64)),
            };
            PDef { name: format!("m{}", i), ty, vt: Vt { null: false, undef: false }, def }
        })
        .collect();
    let small = ListDef { params: params[..2].to_vec(), ..ListDef::default() };
    let mut s = Schema { mems: vec![] };
    if in_items {
        let mut def = ListDef { params: params.clone(), ..ListDef::default() };
        for k in 0..lists {
            def.inners.push(Inner { name: format!("l{}", k), def: small.clone(), undefiable: false });
        }
        s.mems.push(RMem::MList("list".into(), def, false, MList { items: vec![(0, MItem::default())], next_id: 1 }));
    } else {
        s.mems.extend(params.iter().cloned().map(RMem::Param));
        for k in 0..lists {
            s.mems.insert(next(n), RMem::MList(format!("l{}", k), small.clone(), false, MList::default()));
        }
    }
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut chain = load_source(&dir)?;
    let mut doc = s.initial();
    check_doc(&s, &doc, &root, "initial document")?;
    let mut log = vec![];
    for _ in 0..g.range(1, 3) {
        let before = root.clone();
        let part = *g.pick(&[n, 64, 32, 24, 11, 2]);
        let k = (n / part).max(1);
        for _ in 0..k {
            let p = &params[next(n)];
            let val = match p.ty {
                Ty::Bool => Val::Bool(next(2) == 0),
                Ty::Str => Val::Str(format!("t{}", next(9))),
                _ => Val::Int(next(70000) as i64 - 35000),
            };
            if in_items {
                let list = LPath { root: "list".into(), steps: vec![] };
                apply_both(&s, &mut doc, &mut root, Op::SetItem(list, 0, p.name.clone(), p.ty, val), &mut log)?;
            } else {
                apply_both(&s, &mut doc, &mut root, Op::SetRoot(p.name.clone(), p.ty, val), &mut log)?;
            }
        }
        for i in 0..lists {
            if next(2) == 0 {
                let name = format!("l{}", i);
                let list = if in_items { LPath { root: "list".into(), steps: vec![(0, name)] } } else { LPath { root: name, steps: vec![] } };
                apply_both(&s, &mut doc, &mut root, Op::Insert { list, first: false, refs: Default::default() }, &mut log)?;
            }
        }
        let text = show_doc(&s, &doc);
        let d = diff(&before, &root)?;
        let mut r = before.clone();
        apply_diff(&mut r, &mut d.as_slice()).or_vio("applying a difference")?;
        let o = observe(&s, &r);
        ensure!(o == text, "difference of documents of {} members, {} changed: {}", n, k, diff_text(&text, &o));
        apply_diff(&mut chain, &mut d.as_slice()).or_vio("applying a chain of differences")?;
        let o = observe(&s, &chain);
        ensure!(o == text, "chain of differences of documents of {} members: {}", n, diff_text(&text, &o));
        cx.nontrivial = true;
    }
    cx.sample = Some(format!("{} members {}, {} lists; operations: {}", n, if in_items { "in the items of a list" } else { "at the root" }, lists, ops_text(&log)));
    cx.label(if n >= 32768 { "32768 members or more" } else { "60 members or more" });
    Ok(())
}

/// list an operation works on, and the item and its member if it is about one
fn place(op: &Op) -> (Option<&LPath>, Option<(u64, &str)>, Option<&str>) {
    match op {
        Op::SetRoot(n, ..) | Op::MutRoot(n, ..) | Op::InitRoot(n, ..) => (None, None, Some(n)),
        Op::Touch(l) | Op::Insert { list: l, .. } | Op::Remove(l, _) | Op::RemoveFirst(l) | Op::RemoveLast(l) => (Some(l), None, None),
        Op::MoveFirst(l, _) | Op::MoveLast(l, _) | Op::MovePrev(l, ..) | Op::MoveNext(l, ..) => (Some(l), None, None),
        Op::SetItem(l, id, n, ..) | Op::MutItem(l, id, n, ..) | Op::InitItem(l, id, n, ..) | Op::SetRef(l, id, n, _) | Op::SetEnum(l, id, n, _) => (Some(l), Some((*id, n)), None),
    }
}

fn starts_with(p: &LPath, base: &LPath) -> bool {
    p.root == base.root && p.steps.len() >= base.steps.len() && p.steps[..base.steps.len()] == base.steps[..]
}

fn is_move(op: &Op) -> bool {
    op.kind() == "move"
}

/// What `x` changes has no part in the difference that `ops` make.
fn is_elsewhere(x: &Op, ops: &[Op]) -> bool {
    let (l, item, root) = place(x);
    ops.iter().all(|o| {
        let (ol, oitem, oroot) = place(o);
        if let Some(n) = root {
            return oroot != Some(n);
        }
        let l = l.unwrap();
        let ol = match ol {
            None => return true,
            Some(ol) => ol,
        };
        // items that are written anew, with everything inside
        if is_move(o) && starts_with(l, ol) {
            return false;
        }
        if let (Op::SetEnum(..), Some((id, _))) = (o, oitem) {
            if ol == l && item.map(|i| i.0) == Some(id) {
                return false;
            }
            if starts_with(l, ol) && l.steps.len() > ol.steps.len() && l.steps[ol.steps.len()].0 == id {
                return false;
            }
        }
        match item {
            // a member of an item
            Some(i) => !(ol == l && oitem == Some(i)),
            // the items of a list: neither they nor what is inside may be edited
            None => !starts_with(ol, l),
        }
    })
}

/// Two documents get the same edits, and differ in what is not edited: the differences are equal.
fn elsewhere(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts::default());
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let o = OpOpts::default();
    let empty = diff(&root, &root.clone())?;
    let mut log = vec![];
    let mut err = None;
    let big = g.chance(1, 6);
    g.many(0, if big { 200 } else { 30 }, if big { 100 } else { 12 }, |g, _| {
        if err.is_none() {
            err = step(g, &s, &mut doc, &mut root, &o, &mut log).err();
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    cx.sample = Some(format!("source {} document: {}", clip(&schema_text(&s)), ops_text(&log)));
    // a copy
    let d = diff(&root, &root.clone())?;
    ensure!(d == empty, "the difference to an identical copy is {} bytes, {} for the initial document", d.len(), empty.len());
    ensure!(d.len() <= 8, "the difference to an identical copy is {} bytes", d.len());
    // edits
    let (mut to, mut to_doc) = (root.clone(), doc.clone());
    let mut ops = vec![];
    let mut err = None;
    g.many(0, 6, 2, |g, _| {
        if err.is_none() {
            err = step(g, &s, &mut to_doc, &mut to, &o, &mut ops).err();
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    // the other document
    let (mut root2, mut doc2) = (root.clone(), doc.clone());
    let mut other = vec![];
    g.many(1, 30, 8, |g, _| {
        if let Some(x) = gen_op(g, &s, &doc2, &o) {
            if is_elsewhere(&x, &ops) {
                apply_model(&s, &mut doc2, &x);
                apply_real(&s, &mut root2, &x);
                other.push(x);
            }
        }
    });
    let mut to2 = root2.clone();
    let mut to2_doc = doc2.clone();
    for x in &ops {
        apply_model(&s, &mut to2_doc, x);
        apply_real(&s, &mut to2, x);
    }
    check_doc(&s, &to2_doc, &to2, "other document after its operations")?;
    cx.sample = Some(format!("source {} document: {}; edits: {}; elsewhere: {}", clip(&schema_text(&s)), ops_text(&log), ops_text(&ops), ops_text(&other)));
    for x in &ops {
        cx.label(x.kind());
    }
    let a = diff(&root, &to)?;
    let b = diff(&root2, &to2)?;
    cx.nontrivial_if(a != empty && show_doc(&s, &doc) != show_doc(&s, &doc2));
    ensure!(a == b, "the difference is {} bytes, and {} with other data elsewhere", a.len(), b.len());
    Ok(())
}

/// Moves: no more items are written anew than were moved.
fn moves(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let param = |n: &str| PDef { name: n.to_string(), ty: Ty::Str, vt: Vt::NORMAL, def: Val::Str(String::new()) };
    let inner = ListDef { params: vec![param("deep")], ..ListDef::default() };
    let def = ListDef { params: vec![param("text")], inners: vec![Inner { name: "inner".into(), undefiable: false, def: inner }], ..ListDef::default() };
    let s = Schema { mems: vec![RMem::MList("list".into(), def, false, MList::default())], ..Schema::default() };
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let top = LPath { root: "list".into(), steps: vec![] };
    let n = g.range(2, 25);
    let act = |doc: &mut Doc, root: &mut RootObject, op: Op| -> Res<()> {
        let a = apply_model(&s, doc, &op);
        let b = apply_real(&s, root, &op);
        ensure!(a == b, "`{}` reported {}, expected {}", op.text(), b, a);
        Ok(())
    };
    let text = |id: u64| Val::Str(format!("~{:04}~", id));
    for _ in 0..n {
        let id = doc.list(&top).map_or(0, |l| l.next_id);
        act(&mut doc, &mut root, Op::Insert { list: top.clone(), first: g.chance(1, 4), refs: Default::default() })?;
        act(&mut doc, &mut root, Op::SetItem(top.clone(), id, "text".into(), Ty::Str, text(id)))?;
        if g.chance(1, 4) {
            let p = LPath { root: "list".into(), steps: vec![(id, "inner".into())] };
            act(&mut doc, &mut root, Op::Insert { list: p.clone(), first: false, refs: Default::default() })?;
            act(&mut doc, &mut root, Op::SetItem(p, 0, "deep".into(), Ty::Str, text(id)))?;
        }
    }
    let (mut to, mut to_doc) = (root.clone(), doc.clone());
    let mut ops = vec![];
    let mut err = None;
    let mut moved = 0;
    let o = OpOpts { invalid: false, ..OpOpts::default() };
    g.many(1, 8, 3, |g, _| {
        let ids: Vec<u64> = to_doc.list(&top).map_or(vec![], |l| l.items.iter().map(|i| i.0).collect());
        let next = if ids.len() > 1 && g.chance(2, 3) {
            let (a, b) = (*g.pick(&ids), *g.pick(&ids));
            Some(match g.us(4) {
                0 if a != b => Op::MovePrev(top.clone(), a, b),
                1 if a != b => Op::MoveNext(top.clone(), a, b),
                2 => Op::MoveLast(top.clone(), a),
                _ => Op::MoveFirst(top.clone(), a),
            })
        } else {
            gen_op(g, &s, &to_doc, &o)
        };
        if let (None, Some(op)) = (&err, next) {
            let op = match op {
                // only items at the top have marks
                Op::InitItem(..) => return,
                op => op,
            };
            if is_move(&op) && place(&op).0 == Some(&top) {
                moved += 1;
            }
            ops.push(op.clone());
            err = act(&mut to_doc, &mut to, op).err();
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    cx.sample = Some(format!("{} items; edits: {}", n, ops_text(&ops)));
    cx.nontrivial_if(n >= 5 && moved > 0);
    let d = diff(&root, &to)?;
    let anew: Vec<u64> = (0..n as u64)
        .filter(|id| {
            let mark = format!("~{:04}~", id);
            d.windows(mark.len()).any(|w| w == mark.as_bytes())
        })
        // moves inside an item write what is inside it anew
        .filter(|id| !ops.iter().any(|o| is_move(o) && place(o).0.map_or(false, |l| l.steps.len() == 1 && l.steps[0].0 == *id)))
        .collect();
    ensure!(anew.len() <= moved, "{} items were moved, and {:?} were written anew", moved, anew);
    let mut r = root.clone();
    apply_diff(&mut r, &mut d.as_slice()).or_vio("applying a difference")?;
    check_doc(&s, &to_doc, &r, "document from the difference")
}

/// The contents of a document: everything but the IDs still to be given out.
fn contents(s: &Schema, d: &Doc) -> String {
    show_doc(s, d)
        .lines()
        .map(|l| match l.find(" next_id=") {
            Some(i) if l[..i].contains(" len=") => &l[..i],
            _ => l,
        })
        .collect::<Vec<_>>()
        .join("\n")
}

fn equality(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let need_mlist = g.chance(3, 4);
    let s = gen_schema(g, &Opts { need_mlist, wide: 0, ..Opts::default() });
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let (mut d, mut r) = (s.initial(), load_source(&dir)?);
    // the same operations on a document of its own
    let mut twin = load_source(&dir)?;
    let bases = [r.clone(), twin.clone()];
    let mut log = vec![];
    for _ in 0..g.us(14) {
        step(g, &s, &mut d, &mut r, &OpOpts { invalid: false, ..OpOpts::default() }, &mut log)?;
    }
    for o in &log {
        apply_real(&s, &mut twin, o);
    }
    let mut docs = vec![(d.clone(), r), (d, twin)];
    let mut from = vec![0, 1];
    for _ in 0..g.range(1, 3) {
        let k = g.us(docs.len());
        let (mut d, mut r) = (docs[k].0.clone(), docs[k].1.clone());
        for _ in 0..g.range(1, 3) {
            step(g, &s, &mut d, &mut r, &OpOpts { invalid: false, ..OpOpts::default() }, &mut log)?;
        }
        docs.push((d, r));
        from.push(from[k]);
    }
    // what comes back when one of them is saved
    let k = g.us(docs.len());
    let mut back = load_source(&dir)?;
    apply_diff(&mut back, &mut diff(&bases[from[k]], &docs[k].1)?.as_slice()).or_vio("applying a difference")?;
    docs.push((docs[k].0.clone(), back));
    cx.sample(|| format!("source {} operations: {}", clip(&schema_text(&s)), ops_text(&log)));
    let shown: Vec<String> = docs.iter().map(|(d, _)| contents(&s, d)).collect();
    let mut differ = false;
    for i in 0..docs.len() {
        for j in 0..docs.len() {
            let eq = docs[i].1.contents_eq(&docs[j].1);
            if shown[i] != shown[j] {
                differ = true;
                ensure!(!eq, "documents {} and {} compare equal: {}", i, j, diff_text(&shown[i], &shown[j]));
            }
        }
        let copy = docs[i].1.clone();
        ensure!(copy.contents_eq(&docs[i].1) && docs[i].1.contents_eq(&copy), "a copy of document {} compares unequal to it: {}", i, clip(&shown[i]));
    }
    cx.nontrivial_if(differ);
    Ok(())
}
