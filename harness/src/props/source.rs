//! S01, S02, X01: reading document sources and converting documents back to source text.

use super::accessor::{gen_case, source_text, Olds};
use super::{suite, Prop};
use crate::engine::*;
use crate::model::*;
use crate::tree::*;
use crate::{ensure, vio};
use dochy_core::structs::RootObject;
use std::path::Path;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "S01",
            suites: vec![suite("spellings", spellings, 30000, 1_000_000), suite("definitions", definitions, 10000, 300_000)],
            rule: "spellings: the source has a list with items or at least three members, and two of its spellings differ; definitions: the source has a list",
            level: "exploration",
            assumptions: &[],
        },
        Prop {
            id: "S02",
            suites: vec![suite("faults", faults, 60000, 2_000_000), suite("damage", damage, 60000, 2_000_000)],
            rule: "faults: one fault of a known kind was put into a source that loads without it; damage: the damaged text differs from the valid one",
            level: "exploration",
            assumptions: &["nesting of the source text is bounded (the parser is recursive)"],
        },
        Prop {
            id: "X01",
            suites: vec![suite("texts", texts, 25000, 1_000_000), suite("definitions", exported_definitions, 10000, 300_000), suite("large_values", super::large::export, 100, 2000)],
            rule: "texts: the document was changed after it was loaded, or has list items; definitions: the source has a list",
            level: "exploration",
            assumptions: &["an undefined root list has no spelling; it is written as an empty list"],
        },
    ]
}

fn schema_for_text(g: &mut Gen) -> Schema {
    gen_schema(g, &Opts { wide: 1, ..Opts::default() })
}

pub fn archive_of(dir: &Path) -> Res<Vec<u8>> {
    let mut v = vec![];
    dochy_core::archive_src_dir(dir, &mut v).or_vio("archiving a source directory")?;
    Ok(v)
}

fn size(s: &Schema) -> bool {
    s.mems.len() >= 3
        || s.mems.iter().any(|m| match m {
            RMem::Param(_) => false,
            RMem::Table(_, _, i) => !i.is_empty(),
            RMem::CList(_, _, i) => !i.is_empty(),
            RMem::MList(_, _, _, l) => !l.items.is_empty(),
        })
}

/// The same tree with harmless additions: names listed as old that nothing uses.
fn add_olds(g: &mut Gen, s: &Schema, t: &mut Tree) -> usize {
    let mut n = 0;
    let u = uses(s);
    let sites = t.sites.clone();
    for (p, w) in sites.iter().rev() {
        match w {
            What::List(Kind::Table, k) if *k > 0 && g.chance(1, 3) => {
                let name = match &mut t.root {
                    J::Obj(o) => o[p[0]].0.clone(),
                    _ => continue,
                };
                let ids: Vec<String> = s.table_ids(&name).into_iter().filter(|i| !u.ids.contains(&(name.clone(), i.clone()))).collect();
                if !ids.is_empty() {
                    // behind the definition; sites of items are visited before their list
                    t.root.at(p).arr_mut().insert(2, arr("Old", vec![J::Str(g.pick(&ids).clone())]));
                    n += 1;
                }
            }
            _ => {}
        }
    }
    if let J::Obj(o) = &mut t.root {
        if !s.mems.is_empty() && g.chance(1, 3) {
            let m = g.pick(&s.mems).name().to_string();
            o.push(("Old".to_string(), J::Arr(vec![st(&m)])));
            n += 1;
        }
    }
    n
}

fn spellings(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = schema_for_text(g);
    let doc = s.initial();
    let want = show_doc(&s, &doc);
    let plain = print_source(&s, &Style::plain());
    cx.sample(|| schema_text(&s));
    let mut differ = false;
    for k in 0..3 {
        let dir = cx.dir();
        let mut files = if k == 2 {
            let mut t = tree(&s);
            let n = add_olds(g, &s, &mut t);
            cx.count("names marked as old", n as u64);
            vec![("root.json5".to_string(), t.root.text())]
        } else {
            let st = if k == 0 { Style::plain() } else { Style::random(g, &s) };
            print_source(&s, &st)
        };
        differ |= files != plain;
        // other files and subdirectories are not part of a source
        if g.chance(1, 3) {
            cx.label("unrelated files");
            let n = g.sel(&["readme.txt", "sub/zz_other.json5", "sub/root.json5", "root.json", "noextension", "backup.json5.bak"]);
            files.push((n.to_string(), g.sel(&["{ a : 1 }", "1", "not a source", ""]).to_string()));
        }
        if files.len() > 1 {
            cx.label("split source");
        }
        for (n, t) in &files {
            let p = dir.join(n);
            std::fs::create_dir_all(p.parent().unwrap()).expect(": scratch");
            std::fs::write(p, t).expect(": scratch");
        }
        let show = || files.iter().map(|(n, t)| format!("--- {}\n{}\n", n, t)).collect::<String>();
        let (root, hash) = match no_panic(|| dochy_core::json_dir_to_root_with_hash(&dir, true)) {
            Ok(Ok(r)) => r,
            Ok(Err(e)) => vio!("a valid source was refused: {}\n{}", e, show()),
            Err(p) => vio!("loading a valid source panicked: {}\n{}", p, show()),
        };
        let o = observe(&s, &root);
        ensure!(o == want, "loaded document: {}\n{}", diff_text(&want, &o), show());
        // the archive of the directory
        let a = archive_of(&dir)?;
        let (r2, h2) = dochy_core::read_archive_to_root_with_hash(&mut a.as_slice(), true).or_vio("reading an archived source")?;
        let o = observe(&s, &r2);
        ensure!(o == want, "document loaded from the archive: {}\n{}", diff_text(&want, &o), show());
        ensure!(hash == h2, "hash of the directory {:x}, of its archive {:x}\n{}", hash, h2, show());
        let f = dir.join("arc.archive");
        std::fs::write(&f, &a).expect(": scratch");
        let (r3, h3) = dochy_core::archive_file_to_root_with_hash(&f, true).or_vio("reading an archive file")?;
        ensure!(observe(&s, &r3) == want && h3 == hash, "archive file and archive data read differently");
        // loading without validation gives the same document
        let r4 = dochy_core::read_archive_to_root(&mut a.as_slice(), false).or_vio("reading an archived source without validation")?;
        let o = observe(&s, &r4);
        ensure!(o == want, "document loaded without validation: {}\n{}", diff_text(&want, &o), show());
    }
    cx.nontrivial_if(differ && size(&s));
    Ok(())
}

/// One line for each member, reference and table item of a source: its kind and whether it is old.
fn wanted_definitions(s: &Schema, o: &Olds) -> String {
    fn ty(t: Ty) -> &'static str {
        match t {
            Ty::Bool => "Bool",
            Ty::Int => "Int",
            Ty::Float => "Float",
            Ty::Str => "Str",
            Ty::Ints => "IntArray",
            Ty::Floats => "FloatArray",
            Ty::Bin => "Binary",
        }
    }
    fn line(out: &mut Vec<String>, path: &str, name: &str, kind: &str, vt: Vt, old: bool) -> String {
        out.push(format!("{}.{} {}{}{}", path, name, kind, vt.suffix(), if old { " old" } else { "" }));
        format!("{}.{}", path, name)
    }
    fn def(out: &mut Vec<String>, path: &str, d: &ListDef, o: &Olds, inner: &str) {
        for p in &d.params {
            line(out, path, &p.name, ty(p.ty), p.vt, o.mems.contains(&p.name));
        }
        for i in &d.inners {
            let at = line(out, path, &i.name, inner, Vt { null: false, undef: i.undefiable }, o.mems.contains(&i.name));
            def(out, &at, &i.def, o, inner);
        }
        let kind = if d.is_enum { "Enum" } else { "Ref" };
        for r in &d.refs {
            line(out, path, &format!("({})", r.table), kind, r.vt, o.is_old_ref(d, &r.table));
        }
    }
    let mut out = vec![];
    for m in &s.mems {
        let old = o.mems.contains(m.name());
        match m {
            RMem::Param(p) => {
                line(&mut out, "", &p.name, ty(p.ty), p.vt, old);
            }
            RMem::Table(n, d, items) => {
                let at = line(&mut out, "", n, "Table", Vt::NORMAL, old);
                def(&mut out, &at, d, o, "Cil");
                for (k, _) in items {
                    line(&mut out, &at, &format!("[{}]", k), "item", Vt::NORMAL, o.keys.contains(&(n.clone(), k.clone())));
                }
            }
            RMem::CList(n, d, _) => {
                let at = line(&mut out, "", n, "CList", Vt::NORMAL, old);
                def(&mut out, &at, d, o, "Cil");
            }
            RMem::MList(n, d, undef, _) => {
                let at = line(&mut out, "", n, "MList", Vt { null: false, undef: *undef }, old);
                def(&mut out, &at, d, o, "Mil");
            }
        }
    }
    out.sort();
    out.join("\n")
}

fn loaded_definitions(root: &RootObject) -> String {
    use dochy_core::intf::member_desc::{get_member_desc, MemberDesc};
    use dochy_core::structs::VarType;
    fn suffix(v: VarType) -> &'static str {
        match v {
            VarType::Normal => "",
            VarType::Nullable => "?",
            VarType::Undefiable => "!",
            VarType::UndefNullable => "!?",
        }
    }
    fn old(b: bool) -> &'static str {
        if b {
            " old"
        } else {
            ""
        }
    }
    fn walk(out: &mut Vec<String>, path: &str, v: &[MemberDesc]) {
        for m in v {
            let at = format!("{}.{}", path, m.name());
            out.push(format!("{} {:?}{}{}", at, m.member_type(), suffix(m.var_type()), old(m.is_old())));
            if let Some(c) = m.child_descs() {
                walk(out, &at, c.items());
                let kind = if c.refs().is_enum() { "Enum" } else { "Ref" };
                for r in c.refs().items() {
                    out.push(format!("{}.({}) {}{}{}", at, r.data_name(), kind, suffix(r.var_type()), old(r.is_old())));
                }
                for k in c.keys() {
                    out.push(format!("{}.[{}] item{}", at, k.key(), old(k.is_old())));
                }
            }
        }
    }
    let mut out = vec![];
    walk(&mut out, "", &get_member_desc(root));
    out.sort();
    out.join("\n")
}

fn definition_case(g: &mut Gen, cx: &mut Cx) -> Res<(Schema, String, RootObject)> {
    let (s, o) = gen_case(g);
    let text = source_text(&s, &o);
    let dir = cx.dir();
    std::fs::write(dir.join("root.json5"), &text).expect(": scratch");
    let root = load_source(&dir)?;
    let want = wanted_definitions(&s, &o);
    cx.sample(|| clip(&text));
    cx.nontrivial_if(s.mems.iter().any(|m| !matches!(m, RMem::Param(_))));
    if want.contains(" old") {
        cx.label("names marked as old");
    }
    Ok((s, want, root))
}

fn definitions(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, want, root) = definition_case(g, cx)?;
    let got = loaded_definitions(&root);
    ensure!(got == want, "loaded definitions: {}\n{}", diff_text(&want, &got), schema_text(&s));
    Ok(())
}

fn exported_definitions(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, want, root) = definition_case(g, cx)?;
    let text = dochy_core::root_to_json_new_default(&root).or_vio("converting to text")?.to_string_pretty();
    let dir = cx.dir();
    std::fs::write(dir.join("root.json5"), &text).expect(": scratch");
    let back = dochy_core::json_dir_to_root(&dir, true).or_vio("reading the text of a document back")?;
    let got = loaded_definitions(&back);
    ensure!(got == want, "definitions read back from the text: {}\n{}", diff_text(&want, &got), text);
    check_doc(&s, &s.initial(), &back, "document read back from its text")?;
    Ok(())
}

type Files = Vec<(String, Vec<u8>)>;

fn sites(t: &Tree, f: impl Fn(&What) -> bool) -> Vec<(Vec<usize>, What)> {
    t.sites.iter().filter(|(_, w)| f(w)).cloned().collect()
}

fn pick_site(g: &mut Gen, t: &Tree, f: impl Fn(&What) -> bool) -> Option<(Vec<usize>, What)> {
    let v = sites(t, f);
    if v.is_empty() {
        None
    } else {
        Some(g.pick(&v).clone())
    }
}

/// Value of another type than `ty`, in a form that cannot be read as `ty`.
fn wrong_type(g: &mut Gen, ty: Ty) -> J {
    loop {
        let t = *g.pick(&TYPES);
        if t == ty {
            let i = TYPES.iter().position(|x| *x == ty).unwrap();
            let t = TYPES[(i + 1) % TYPES.len()];
            return val_tree(t, &gen_val(g, t, true));
        }
        return val_tree(t, &gen_val(g, t, true));
    }
}

const N_FAULTS: usize = 63;

/// Puts one fault into the source. None: no place for this fault.
fn fault(g: &mut Gen, s: &Schema, t: &mut Tree, extra: &mut Files, n: usize) -> Option<&'static str> {
    let is_item = |w: &What| matches!(w, What::Item(_, _));
    let in_table = |k: Kind| move |w: &What| matches!(w, What::Item(kk, _) if *kk == k);
    let u = uses(s);
    macro_rules! root {
        () => {
            t.root.obj_mut()
        };
    }
    Some(match n {
        0 => {
            let (p, _) = pick_site(g, t, is_item)?;
            let v = val_tree(Ty::Int, &Val::Int(1));
            t.root.at(&p).obj_mut().push(("zz_unknown".into(), v));
            "unknown member in an item"
        }
        1 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Value(_)))?;
            if let What::Value(d) = w {
                *t.root.at(&p) = wrong_type(g, d.ty);
            }
            "value of another type in an item"
        }
        2 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Value(d) if !d.vt.null))?;
            if let What::Value(d) = w {
                *t.root.at(&p) = val_tree(d.ty, &Val::Null);
            }
            "null in an item for a member that isn't nullable"
        }
        3 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Value(d) if !d.vt.undef))?;
            if let What::Value(d) = w {
                *t.root.at(&p) = val_tree(d.ty, &Val::Undef);
            }
            "undefined in an item for a member that isn't undefiable"
        }
        4 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Default(d) if !d.vt.null))?;
            if let What::Default(d) = w {
                *t.root.at(&p) = val_tree(d.ty, &Val::Null);
            }
            "null default of a member that isn't nullable"
        }
        5 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Default(d) if !d.vt.undef))?;
            if let What::Default(d) = w {
                *t.root.at(&p) = val_tree(d.ty, &Val::Undef);
            }
            "undefined default of a member that isn't undefiable"
        }
        6 => {
            let (p, _) = pick_site(g, t, in_table(Kind::Table))?;
            t.root.at(&p).obj_mut().retain(|(k, _)| k != "ID");
            "table item without ID"
        }
        7 => {
            let (p, _) = pick_site(g, t, in_table(Kind::Table))?;
            for (k, v) in t.root.at(&p).obj_mut() {
                if k == "ID" {
                    *v = raw(g.sel(&["5", "0", "1.0", "null", "true", "[]"]));
                }
            }
            "table item whose ID isn't a string"
        }
        8 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(Kind::Table, n) if *n >= 1))?;
            let a = t.root.at(&p).arr_mut();
            let items: Vec<usize> = (0..a.len()).filter(|i| matches!(a[*i], J::Obj(_))).collect();
            let x = a[*g.pick(&items)].clone();
            a.push(x);
            "repeated table ID"
        }
        9 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Item(Kind::CList, _) | What::Item(Kind::Cil, _)))?;
            let v = if g.bool() { st("a") } else { raw("3") };
            t.root.at(&p).obj_mut().push(("ID".into(), v));
            "ID in an item of a constant list"
        }
        10 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Item(k, _) if k.mutable()))?;
            let v = if g.bool() { st("a") } else { raw(g.sel(&["-1", "null", "true", "[]", "1.5", "-1.0", "-0.5", "NaN", "Infinity", "1e300"])) };
            let o = t.root.at(&p).obj_mut();
            o.retain(|(k, _)| k != "ID");
            o.push(("ID".into(), v));
            "ID in an item of a mutable list that isn't a number from 0"
        }
        11 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, n) if k.mutable() && *n >= 2))?;
            let a = t.root.at(&p).arr_mut();
            let items: Vec<usize> = (0..a.len()).filter(|i| matches!(a[*i], J::Obj(_))).collect();
            let x = g.us(items.len() - 1);
            let y = x + 1 + g.us(items.len() - x - 1);
            let id = a[items[x]].obj_mut().iter().find(|(k, _)| k == "ID").map(|(_, v)| v.clone()).unwrap_or(J::Raw(x.to_string()));
            let o = a[items[y]].obj_mut();
            o.retain(|(k, _)| k != "ID");
            o.push(("ID".into(), id));
            "repeated ID in a mutable list"
        }
        12 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, n) if k.mutable() && *n >= 1))?;
            let a = t.root.at(&p).arr_mut();
            let mut max = 0u64;
            let mut k = 0u64;
            for x in a.iter_mut() {
                if let J::Obj(o) = x {
                    let id = o.iter().find(|(k, _)| k == "ID").map(|(_, v)| v.text().parse::<u64>().unwrap()).unwrap_or(k);
                    max = max.max(id);
                    k += 1;
                }
            }
            a.retain(|x| !matches!(x, J::Arr(v) if v.get(0) == Some(&st("NextID"))));
            let v = if g.bool() { max } else { g.below(max + 1) };
            a.insert(1, arr("NextID", vec![J::Raw(v.to_string())]));
            "next ID that isn't greater than all IDs"
        }
        13 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if k.mutable() && *k != Kind::MilDef))?;
            let a = t.root.at(&p).arr_mut();
            a.retain(|x| !matches!(x, J::Arr(v) if v.get(0) == Some(&st("NextID"))));
            let v = match g.us(4) {
                0 => vec![raw(g.sel(&["-1", "-9223372036854775808"]))],
                1 => vec![st("5")],
                2 => vec![],
                _ => vec![raw("99"), raw("99")],
            };
            a.insert(1, arr("NextID", v));
            "next ID that isn't a number from 0"
        }
        14 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if !k.mutable() || *k == Kind::MilDef))?;
            t.root.at(&p).arr_mut().insert(1, arr("NextID", vec![raw("99999999999")]));
            "next ID in a list that has no IDs"
        }
        15 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if !matches!(k, Kind::Cil | Kind::Mil)))?;
            t.root.at(&p).arr_mut().retain(|x| !matches!(x, J::Arr(v) if matches!(v.get(0), Some(J::Obj(_)))));
            "list without a default object"
        }
        16 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if !matches!(k, Kind::Cil | Kind::Mil)))?;
            let d = t.root.at(&p).arr_mut()[1].clone();
            t.root.at(&p).arr_mut().insert(1, d);
            "two default objects"
        }
        17 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if matches!(k, Kind::Cil | Kind::Mil)))?;
            t.root.at(&p).arr_mut().insert(1, J::Arr(vec![J::Obj(vec![])]));
            "default object in an inner list"
        }
        18 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if *k != Kind::Table))?;
            t.root.at(&p).arr_mut().insert(1, arr("Old", vec![st("a")]));
            "Old in a list that isn't a table"
        }
        19 => {
            root!().push(("Old".into(), J::Arr(vec![st("zz_unknown")])));
            "unknown name in Old of the root"
        }
        20 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Def(_, _)))?;
            t.root.at(&p).obj_mut().push(("Old".into(), J::Arr(vec![st("zz_unknown")])));
            "unknown name in Old of a default object"
        }
        21 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::RefDef(_)))?;
            t.root.at(&p).obj_mut().push(("Old".into(), J::Arr(vec![st("zz_unknown")])));
            "unknown name in Old of references"
        }
        22 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(Kind::Table, _)))?;
            t.root.at(&p).arr_mut().insert(1, arr("Old", vec![st("zz_unknown")]));
            "unknown ID in Old of a table"
        }
        23 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if matches!(k, Kind::Table | Kind::CList | Kind::MList)))?;
            let o = root!();
            let name = o[p[0]].0.trim_end_matches('!').to_string();
            o[p[0]].0 = format!("{}{}", name, g.sel(&["?", "!?", "?!"]));
            "list marked as nullable"
        }
        24 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if matches!(k, Kind::Table | Kind::CList)))?;
            root!()[p[0]].0.push('!');
            "constant list marked as undefiable"
        }
        25 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Default(_) | What::Value(_)))?;
            *t.root.at(&p) = match g.us(6) {
                0 => arr("Foo", vec![raw("1")]),
                1 => J::Arr(vec![raw("1"), st("a")]),
                2 => J::Arr(vec![raw("1"), raw("2.5")]),
                3 => J::Arr(vec![raw("1"), raw("null")]),
                4 => J::Arr(vec![]),
                _ => J::Arr(vec![raw("1"), J::Arr(vec![raw("1")])]),
            };
            "array that has no type"
        }
        26 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Default(_) | What::Value(_)))?;
            *t.root.at(&p) = arr("Binary", vec![raw("1"), raw(g.sel(&["256", "-1", "1.0", "9223372036854775807"]))]);
            "binary data with something that isn't a byte"
        }
        27 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Default(_) | What::Value(_)))?;
            *t.root.at(&p) = match g.us(3) {
                0 => raw("null"),
                1 => raw("undefined"),
                _ => raw("{}"),
            };
            "null, undefined or an object without a type"
        }
        28 => {
            let name = g.sel(&["A", "Foo", "1a", "a-b", "a b", "", "a??", "a!!", "a!?!", "?", "é", "aé", "a.b", "a\n", "@@", "old!x"]);
            match pick_site(g, t, |w| matches!(w, What::Def(_, _) | What::Item(_, _))) {
                Some((p, _)) if g.chance(2, 3) => t.root.at(&p).obj_mut().push((name.into(), raw("1"))),
                _ => root!().push((name.into(), raw("1"))),
            }
            "name that isn't allowed"
        }
        29 => {
            let o = root!();
            if o.is_empty() {
                return None;
            }
            let k = g.us(o.len());
            let name = o[k].0.trim_end_matches(|c| c == '?' || c == '!').to_string();
            let suf = if o[k].0.ends_with('?') { "!" } else { "?" };
            o.push((format!("{}{}", name, suf), raw("1")));
            "root member given twice"
        }
        30 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Def(_, d) if !d.params.is_empty()))?;
            if let What::Def(_, d) = w {
                let x = g.pick(&d.params);
                let suf = if x.vt.null { "!" } else { "?" };
                t.root.at(&p).obj_mut().push((format!("{}{}", x.name, suf), val_tree(x.ty, &gen_val(g, x.ty, true))));
            }
            "member of a default object given twice"
        }
        31 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Value(_)))?;
            if let What::Value(d) = w {
                let item = &p[..p.len() - 1];
                t.root.at(item).obj_mut().push((format!("{}?", d.name), val_tree(d.ty, &gen_val(g, d.ty, true))));
            }
            "member of an item given twice"
        }
        32 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::RefDef(d) if !d.is_enum))?;
            if let What::RefDef(d) = w {
                let r = g.pick(&d.refs);
                let suf = if r.vt.null { "!" } else { "?" };
                let id = g.pick(&t.tables.iter().find(|(n, _)| *n == r.table)?.1).clone();
                t.root.at(&p).obj_mut().push((format!("{}{}", r.table, suf), st(&id)));
            }
            "reference given twice"
        }
        33 => {
            let o = root!();
            if o.is_empty() {
                return None;
            }
            let k = g.us(o.len());
            let name = o[k].0.trim_end_matches(|c| c == '?' || c == '!').to_string();
            let (key, v) = if g.bool() { (o[k].0.clone(), o[k].1.clone()) } else { (name, raw("1")) };
            extra.push((format!("{}.json5", key), v.text().into_bytes()));
            "member in the root file and in its own file"
        }
        34 => {
            extra.push(("zz_unknown.json5".into(), b"1".to_vec()));
            extra.push((g.sel(&["zz_unknown?.json5", "zz_unknown!?.json5", "zz_unknown!.json5"]).into(), b"2".to_vec()));
            "two files for one member"
        }
        35 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Ref(_)))?;
            if let What::Ref(_) = w {
                let o = t.root.at(&p).obj_mut();
                let k = g.us(o.len());
                o[k].1 = st("zz_unknown");
            }
            "reference of an item to a missing table item"
        }
        36 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::RefDef(d) if !d.is_enum))?;
            if let What::RefDef(_) = w {
                let o = t.root.at(&p).obj_mut();
                let k = g.us(o.len());
                o[k].1 = st("zz_unknown");
            }
            "default reference to a missing table item"
        }
        37 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::RefDef(d) if !d.is_enum))?;
            t.root.at(&p).obj_mut().push(("zz_unknown".into(), st("a")));
            "default reference to a missing table"
        }
        38 => {
            // to a member that isn't a table
            let other = s.mems.iter().find(|m| !matches!(m, RMem::Table(_, _, _)))?.name().to_string();
            let (p, _) = pick_site(g, t, |w| matches!(w, What::RefDef(d) if !d.is_enum))?;
            t.root.at(&p).obj_mut().push((other, st("a")));
            "default reference to something that isn't a table"
        }
        39 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Ref(d) if !d.is_enum && d.refs.iter().any(|r| r.def == RVal::Id(String::new()))))?;
            if let What::Ref(d) = w {
                let req: Vec<&RefDef> = d.refs.iter().filter(|r| r.def == RVal::Id(String::new())).collect();
                let name = g.pick(&req).table.clone();
                t.root.at(&p).obj_mut().retain(|(k, _)| *k != name);
            }
            "reference without default not given"
        }
        40 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Ref(d) if d.is_enum || d.refs.iter().any(|r| !r.vt.null)))?;
            if let What::Ref(d) = w {
                let name = d.refs.iter().find(|r| d.is_enum || !r.vt.null)?.table.clone();
                let o = t.root.at(&p).obj_mut();
                o.retain(|(k, _)| *k != name);
                if d.is_enum {
                    o.clear();
                }
                o.push((name, raw("null")));
            }
            "null reference where null isn't allowed"
        }
        41 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Ref(_) | What::RefDef(_)))?;
            let o = t.root.at(&p).obj_mut();
            let k = g.us(o.len());
            o[k].1 = raw(g.sel(&["1", "1.5", "true", "[]", "{}", "\"Not a name\"", "\"a?\"", "\"ID\""]));
            "reference that isn't a name"
        }
        42 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Ref(_)))?;
            t.root.at(&p).obj_mut().push(("zz_unknown".into(), st("a")));
            "unknown reference in an item"
        }
        43 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Ref(d) if d.is_enum && d.refs.len() > 1))?;
            if let What::Ref(d) = w {
                let o = t.root.at(&p).obj_mut();
                let r = d.refs.iter().find(|r| o[0].0 != r.table)?;
                let id = t.tables.iter().find(|(n, _)| *n == r.table)?.1[0].clone();
                o.push((r.table.clone(), st(&id)));
            }
            "two alternatives in an item"
        }
        44 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Ref(d) if d.is_enum))?;
            let k = p[p.len() - 1];
            let item = &p[..p.len() - 1];
            if g.bool() {
                t.root.at(item).obj_mut().remove(k);
            } else {
                t.root.at(&p).obj_mut().clear();
            }
            "no alternative in an item"
        }
        45 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::RefDef(d) if d.is_enum))?;
            if let What::RefDef(d) = w {
                let o = t.root.at(&p).obj_mut();
                let k = g.us(o.len());
                let id = t.tables.iter().find(|(n, _)| *n == d.refs[k].table)?.1[0].clone();
                o[k].1 = if g.bool() { st(&id) } else { st("") };
            }
            "default alternative that isn't null"
        }
        46 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Def(_, _)))?;
            if let What::Def(k, _) = w {
                let tag = if k.mutable() { "CilDef" } else { "MilDef" };
                t.root.at(&p).obj_mut().push(("zz_inner".into(), arr(tag, vec![J::Arr(vec![J::Obj(vec![("a".into(), raw("1"))])])])));
            }
            "inner list of the other mutability"
        }
        47 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Def(_, _)))?;
            let tag = g.sel(&["CList", "Table", "MList", "Cil", "Mil"]);
            let body = if tag == "Cil" || tag == "Mil" { vec![] } else { vec![J::Arr(vec![J::Obj(vec![("a".into(), raw("1"))])])] };
            t.root.at(&p).obj_mut().push(("zz_inner".into(), arr(tag, body)));
            "list that can't be in a default object"
        }
        48 => {
            let tag = g.sel(&["Cil", "Mil", "CilDef", "MilDef", "__InnerMutUndefined"]);
            let body = if tag.ends_with("Def") { vec![J::Arr(vec![J::Obj(vec![("a".into(), raw("1"))])])] } else { vec![] };
            root!().push(("zz_inner".into(), arr(tag, body)));
            "inner list at the root"
        }
        49 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Item(_, d) if !d.inners.is_empty()))?;
            if let What::Item(k, d) = w {
                let i = g.pick(&d.inners).name.clone();
                let o = t.root.at(&p).obj_mut();
                o.retain(|(n, _)| *n != i);
                o.push((i, arr(if k.mutable() { "Cil" } else { "Mil" }, vec![])));
            }
            "inner list of an item of the other mutability"
        }
        50 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Value(_)))?;
            if let What::Value(d) = w {
                // the default object of the list this item is in
                let mut q = p.clone();
                q.pop();
                let item_site = q.clone();
                let def = find_def(t, &item_site)?;
                t.root.at(&def).obj_mut().push(("Old".into(), J::Arr(vec![st(&d.name)])));
            }
            "item uses a member that is marked as old"
        }
        51 => {
            let ids: Vec<(String, String)> = u.ids.iter().filter(|(_, i)| !i.is_empty()).cloned().collect();
            if ids.is_empty() {
                return None;
            }
            let (tab, id) = g.pick(&ids).clone();
            let o = root!();
            let k = o.iter().position(|(n, _)| *n == tab)?;
            o[k].1.arr_mut().insert(2, arr("Old", vec![st(&id)]));
            "reference to a table item that is marked as old"
        }
        52 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::Ref(_)))?;
            if let What::Ref(_) = w {
                let name = t.root.at(&p).obj_mut()[0].0.clone();
                let mut q = p.clone();
                q.pop();
                let def = find_def(t, &q)?;
                for (k, v) in t.root.at(&def).obj_mut() {
                    if k == "Ref" || k == "Enum" {
                        v.obj_mut().push(("Old".into(), J::Arr(vec![st(&name)])));
                    }
                }
            }
            "item uses a reference that is marked as old"
        }
        53 => {
            let (k, v) = match g.us(3) {
                0 => ("ID", st("a")),
                1 => ("ID", raw("1")),
                _ => ("Ref", J::Obj(vec![("a".into(), st("b"))])),
            };
            root!().push((k.into(), v));
            "ID or references at the root"
        }
        54 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Def(_, _)))?;
            t.root.at(&p).obj_mut().push(("ID".into(), st("a")));
            "ID in a default object"
        }
        55 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::Ref(_) | What::RefDef(_)))?;
            let (k, v) = match g.us(2) {
                0 => ("ID", st("a")),
                _ => ("Ref", J::Obj(vec![("a".into(), st("b"))])),
            };
            t.root.at(&p).obj_mut().push((k.into(), v));
            "ID or references in references"
        }
        56 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, _) if matches!(k, Kind::CilDef | Kind::MilDef)))?;
            t.root.at(&p).arr_mut().push(J::Obj(vec![]));
            "items in the definition of an inner list"
        }
        57 => {
            let (p, _) = pick_site(g, t, |w| matches!(w, What::List(k, n) if !matches!(k, Kind::CilDef | Kind::MilDef) && *n > 0))?;
            let x = match g.us(3) {
                0 => J::Arr(vec![J::Obj(vec![])]),
                1 => raw("1"),
                _ => arr("Old", vec![]),
            };
            t.root.at(&p).arr_mut().push(x);
            "something that isn't an item behind the items"
        }
        58 => {
            let (p, _) = pick_site(g, t, is_item)?;
            t.root.at(&p).obj_mut().push(("Old".into(), J::Arr(vec![st("a")])));
            "Old in an item"
        }
        59 => {
            extra.push((g.sel(&["Foo.json5", "ID.json5", "Ref.json5", "1.json5", "a b.json5", "a??.json5", "é.json5"]).into(), b"1".to_vec()));
            "file name that isn't a member name"
        }
        60 => {
            extra.push((g.sel(&["zz_a.json5", "zz_b?.json5"]).into(), g.sel(&["", "[", "{a:1}", "1 2", "null", "\"a", "/*", "[\"Cil\"]", "[\"Float\", \"a\"]"]).as_bytes().to_vec()));
            "file that can't be read as a member"
        }
        62 => {
            let (p, w) = pick_site(g, t, |w| matches!(w, What::List(..)))?;
            let kind = match w {
                What::List(k, _) => k,
                _ => return None,
            };
            let a = t.root.at(&p).arr_mut();
            let at = a.iter().position(|x| matches!(x, J::Obj(_))).unwrap_or(a.len());
            if kind == Kind::Table && g.bool() {
                // twice, whether or not the table had one before
                a.insert(at, arr("Old", vec![]));
                a.insert(at, arr("Old", vec![]));
            } else if kind.mutable() && kind != Kind::MilDef && g.bool() {
                let other = if g.bool() { "99999999999" } else { "99999999998" };
                a.insert(at, arr("NextID", vec![raw("99999999999")]));
                a.insert(at, arr("NextID", vec![raw(other)]));
            } else {
                let d = a.iter().find(|x| matches!(x, J::Arr(w) if matches!(w.get(0), Some(J::Obj(_)))))?.clone();
                a.insert(at, d);
            }
            "attribute of a list given twice"
        }
        _ => {
            match g.us(2) {
                0 => extra.push(("zz_a.json5".into(), vec![b'"', 0xff, 0xfe, b'"'])),
                _ => extra.push(("root.json5".into(), vec![])),
            }
            "an empty root file or a file that isn't text"
        }
    })
}

/// Path of the default object of the list that holds the item at `item`.
fn find_def(t: &Tree, item: &[usize]) -> Option<Vec<usize>> {
    // names of the inner lists on the way
    let mut names: Vec<String> = vec![];
    let mut j = &t.root;
    let mut first = None;
    for (n, i) in item.iter().enumerate() {
        j = match j {
            J::Arr(v) => &v[*i],
            J::Obj(v) => {
                if n == 0 {
                    first = Some(*i);
                } else {
                    names.push(v[*i].0.clone());
                }
                &v[*i].1
            }
            _ => return None,
        };
    }
    let mut path = vec![first?];
    path.push(def_index(walk(&t.root, &path)?)?);
    path.push(0);
    for n in names {
        if let J::Obj(v) = walk(&t.root, &path)? {
            path.push(v.iter().position(|(x, _)| x.trim_end_matches('!') == n)?);
        }
        path.push(def_index(walk(&t.root, &path)?)?);
        path.push(0);
    }
    Some(path)
}

fn def_index(list: &J) -> Option<usize> {
    match list {
        J::Arr(v) => v.iter().position(|x| matches!(x, J::Arr(w) if matches!(w.get(0), Some(J::Obj(_))))),
        _ => None,
    }
}

fn walk<'a>(j: &'a J, path: &[usize]) -> Option<&'a J> {
    let mut j = j;
    for i in path {
        j = match j {
            J::Arr(v) => v.get(*i)?,
            J::Obj(v) => &v.get(*i)?.1,
            _ => return None,
        };
    }
    Some(j)
}

fn write_files(dir: &Path, files: &Files) {
    for (n, t) in files {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).expect(": scratch");
        std::fs::write(p, t).expect(": scratch");
    }
}

fn show_files(files: &Files) -> String {
    files.iter().map(|(n, t)| format!("--- {}\n{}\n", n, String::from_utf8_lossy(t))).collect()
}

fn faults(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts { wide: 0, ..Opts::default() });
    let mut t = tree(&s);
    let good: Files = vec![("root.json5".to_string(), t.root.text().into_bytes())];
    let first = g.us(N_FAULTS);
    let mut extra = vec![];
    let mut what = None;
    for k in 0..N_FAULTS {
        what = fault(g, &s, &mut t, &mut extra, (first + k) % N_FAULTS);
        if what.is_some() {
            break;
        }
    }
    let what = what.expect("HARNESS: no fault fits");
    cx.label(what);
    let mut bad: Files = vec![("root.json5".to_string(), t.root.text().into_bytes())];
    for (n, v) in extra {
        bad.retain(|(m, _)| *m != n);
        bad.push((n, v));
    }
    cx.sample(|| format!("{}: {}", what, clip(&show_files(&bad))));
    let dir = cx.dir();
    write_files(&dir, &good);
    match no_panic(|| dochy_core::json_dir_to_root(&dir, true)) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => vio!("a valid source was refused: {}\n{}", e, show_files(&good)),
        Err(p) => vio!("loading a valid source panicked: {}\n{}", p, show_files(&good)),
    }
    let dir = cx.dir();
    write_files(&dir, &bad);
    match no_panic(|| dochy_core::json_dir_to_root(&dir, true)) {
        Ok(Ok(_)) => vio!("accepted a source with a fault ({})\n{}", what, show_files(&bad)),
        Ok(Err(_)) => {}
        Err(p) => vio!("panicked on a source with a fault ({}): {}\n{}", what, p, show_files(&bad)),
    }
    // the same through an archive
    let mut a = vec![];
    match no_panic(|| dochy_core::archive_src_dir(&dir, &mut a)) {
        Ok(Ok(())) => match no_panic(|| dochy_core::read_archive_to_root(&mut a.as_slice(), true)) {
            Ok(Ok(_)) => vio!("accepted an archived source with a fault ({})\n{}", what, show_files(&bad)),
            Ok(Err(_)) => {}
            Err(p) => vio!("panicked on an archived source with a fault ({}): {}\n{}", what, p, show_files(&bad)),
        },
        Ok(Err(_)) => {}
        Err(p) => vio!("archiving a source with a fault ({}) panicked: {}\n{}", what, p, show_files(&bad)),
    }
    cx.nontrivial = true;
    Ok(())
}

fn use_it(r: &RootObject) -> Result<(), String> {
    no_panic(|| {
        let c = r.clone();
        let _ = dochy_core::root_to_json_new_default(&c).map(|v| v.to_string_pretty());
        let d = dochy_diff::get_diff(r, &c);
        if let Ok(d) = d {
            let mut c = c;
            let _ = dochy_diff::apply_diff(&mut c, &mut d.as_slice());
        }
    })
}

fn damage(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts { wide: 0, ..Opts::default() });
    let mut t = tree(&s);
    let before = t.root.text();
    let n = 1 + g.weighted(&[4, 2, 1, 1]);
    for _ in 0..n {
        let paths = t.root.paths();
        let p = g.pick(&paths).clone();
        g.span(|g| {
            let new = gen_j(g, 0);
            let key = gen_key(g);
            match g.us(6) {
                0 => *t.root.at(&p) = new,
                1 => {
                    // remove
                    if let Some((last, head)) = p.split_last() {
                        match t.root.at(head) {
                            J::Arr(v) => {
                                v.remove(*last);
                            }
                            J::Obj(v) => {
                                v.remove(*last);
                            }
                            _ => {}
                        }
                    }
                }
                2 => match t.root.at(&p) {
                    J::Arr(v) => {
                        let i = g.us(v.len() + 1);
                        v.insert(i, new);
                    }
                    J::Obj(v) => {
                        if v.iter().all(|(k, _)| *k != key) {
                            v.push((key, new));
                        }
                    }
                    x => *x = new,
                },
                3 => {
                    // rename a member
                    if let J::Obj(v) = t.root.at(&p) {
                        if !v.is_empty() && v.iter().all(|(k, _)| *k != key) {
                            let i = g.us(v.len());
                            v[i].0 = key;
                        }
                    }
                }
                4 => {
                    // copy another node here
                    let q = g.pick(&paths).clone();
                    if !p.starts_with(&q) {
                        let x = t.root.at(&q).clone();
                        *t.root.at(&p) = x;
                    }
                }
                _ => {
                    // swap two elements or values
                    match t.root.at(&p) {
                        J::Arr(v) if v.len() > 1 => {
                            let i = g.us(v.len());
                            let j = g.us(v.len());
                            v.swap(i, j);
                        }
                        J::Obj(v) if v.len() > 1 => {
                            let i = g.us(v.len());
                            let j = g.us(v.len());
                            let x = v[i].1.clone();
                            v[i].1 = std::mem::replace(&mut v[j].1, x);
                        }
                        _ => {}
                    }
                }
            }
        });
    }
    let mut text = t.root.text().into_bytes();
    if g.chance(1, 4) {
        // damage of the text itself
        let k = g.us(text.len().max(1));
        match g.us(4) {
            0 => text.truncate(k),
            1 if !text.is_empty() => {
                text.remove(k);
            }
            2 if !text.is_empty() => text[k] = g.below(256) as u8,
            _ => {
                let b = *g.pick(b"{}[]:,\"'!?/*\\");
                text.insert(k.min(text.len()), b)
            }
        }
    }
    let text_s = String::from_utf8_lossy(&text).into_owned();
    cx.nontrivial_if(text_s != before);
    cx.sample(|| clip(&text_s));
    let dir = cx.dir();
    std::fs::write(dir.join("root.json5"), &text).expect(": scratch");
    let a = no_panic(|| dochy_core::json_dir_to_root(&dir, true));
    let b = no_panic(|| dochy_core::json_dir_to_root(&dir, false));
    match (a, b) {
        (Err(p), _) => vio!("loading panicked: {}\n{}", p, text_s),
        (_, Err(p)) => vio!("loading without validation panicked: {}\n{}", p, text_s),
        (Ok(Ok(r)), Ok(Ok(r2))) => {
            cx.label("accepted");
            if let Err(p) = use_it(&r) {
                vio!("an accepted source can't be used: {}\n{}", p, text_s);
            }
            let x = dochy_core::root_to_json_new_default(&r).or_vio("converting to text")?.to_string_pretty();
            let y = dochy_core::root_to_json_new_default(&r2).or_vio("converting to text")?.to_string_pretty();
            ensure!(x == y, "validation changes the document\n{}", text_s);
        }
        (Ok(Ok(_)), Ok(Err(e))) => vio!("accepted with validation, refused without: {}\n{}", e, text_s),
        (Ok(Err(_)), Ok(Ok(_))) => cx.label("refused by validation"),
        (Ok(Err(_)), Ok(Err(_))) => cx.label("refused"),
    }
    Ok(())
}

/// The source a document's text stands for: current values are the defaults, current items the
/// initial items.
pub fn frozen(s: &Schema, d: &Doc) -> Schema {
    let mut n = s.clone();
    for m in &mut n.mems {
        match m {
            RMem::Param(p) => {
                if let Some(v) = d.vals.get(&p.name) {
                    p.def = v.clone();
                }
            }
            RMem::MList(name, _, _, l) => *l = d.lists.get(name).cloned().flatten().unwrap_or_default(),
            _ => {}
        }
    }
    n
}

fn texts(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let s = gen_schema(g, &Opts::default());
    let dir = cx.dir();
    write_source(&dir, &s, &Style::plain());
    let mut root = load_source(&dir)?;
    let mut doc = s.initial();
    let mut log = vec![];
    let mut err = None;
    g.many(0, 30, 8, |g, _| {
        if err.is_none() {
            if let Err(e) = step(g, &s, &mut doc, &mut root, &OpOpts::default(), &mut log) {
                err = Some(e);
            }
        }
    });
    if let Some(e) = err {
        return Err(e);
    }
    check_doc(&s, &doc, &root, "document after its operations")?;
    cx.sample(|| format!("{} then {}", clip(&schema_text(&s)), ops_text(&log)));
    cx.nontrivial_if(!log.is_empty() || size(&s));
    let text = match no_panic(|| dochy_core::root_to_json_new_default(&root)) {
        Ok(Ok(v)) => v.to_string_pretty(),
        Ok(Err(e)) => vio!("converting to text: {}", e),
        Err(p) => vio!("converting to text panicked: {}", p),
    };
    let o = observe(&s, &root);
    ensure!(o == show_doc(&s, &doc), "converting to text changed the document");
    let f = frozen(&s, &doc);
    let fd = f.initial();
    let want = show_doc(&f, &fd);
    let dir = cx.dir();
    std::fs::write(dir.join("root.json5"), &text).expect(": scratch");
    let back = match no_panic(|| dochy_core::json_dir_to_root(&dir, true)) {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => vio!("the text of a document can't be read back: {}\n{}", e, text),
        Err(p) => vio!("reading the text of a document panicked: {}\n{}", p, text),
    };
    let o = observe(&f, &back);
    ensure!(o == want, "document read back from its text: {}\n{}", diff_text(&want, &o), text);
    let again = dochy_core::root_to_json_new_default(&back).or_vio("converting to text")?.to_string_pretty();
    ensure!(again == text, "text of the document read back differs: {}", diff_text(&text, &again));
    Ok(())
}
