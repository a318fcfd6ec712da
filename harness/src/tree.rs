//! A source as a tree of JSON5 values, with the places that have a meaning marked, so that single
//! faults can be put into a valid source.

use crate::engine::*;
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    /// written as it is
    Raw(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn raw(s: &str) -> J {
    J::Raw(s.to_string())
}
pub fn st(s: &str) -> J {
    J::Str(s.to_string())
}
pub fn arr(tag: &str, rest: Vec<J>) -> J {
    let mut v = vec![st(tag)];
    v.extend(rest);
    J::Arr(v)
}

impl J {
    pub fn at(&mut self, path: &[usize]) -> &mut J {
        let mut j = self;
        for i in path {
            j = match j {
                J::Arr(v) => &mut v[*i],
                J::Obj(v) => &mut v[*i].1,
                _ => panic!("HARNESS: path into a leaf"),
            };
        }
        j
    }
    pub fn arr_mut(&mut self) -> &mut Vec<J> {
        match self {
            J::Arr(v) => v,
            _ => panic!("HARNESS: not an array"),
        }
    }
    pub fn obj_mut(&mut self) -> &mut Vec<(String, J)> {
        match self {
            J::Obj(v) => v,
            _ => panic!("HARNESS: not an object"),
        }
    }
    pub fn print(&self, out: &mut String) {
        match self {
            J::Raw(s) => out.push_str(s),
            J::Str(s) => quote(out, s),
            J::Arr(v) => {
                out.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        out.push_str(", ");
                    }
                    x.print(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        out.push_str(", ");
                    }
                    quote(out, n);
                    out.push_str(": ");
                    x.print(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.print(&mut s);
        s
    }
    /// paths of all nodes
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(j: &J, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(p.clone());
            let n = match j {
                J::Arr(v) => v.len(),
                J::Obj(v) => v.len(),
                _ => 0,
            };
            for i in 0..n {
                p.push(i);
                go(
                    match j {
                        J::Arr(v) => &v[i],
                        J::Obj(v) => &v[i].1,
                        _ => unreachable!(),
                    },
                    p,
                    out,
                );
                p.pop();
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        out
    }
}

fn quote(out: &mut String, s: &str) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{2028}' || c == '\u{2029}' => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Table,
    CList,
    MList,
    Cil,
    Mil,
    CilDef,
    MilDef,
}

impl Kind {
    pub fn mutable(self) -> bool {
        matches!(self, Kind::MList | Kind::Mil | Kind::MilDef)
    }
}

#[derive(Clone, Debug)]
pub enum What {
    /// value of a root member or of a member in a default object
    Default(PDef),
    /// value of a member in an item
    Value(PDef),
    /// the array of a list; how many items it has
    List(Kind, usize),
    /// the default object of a list
    Def(Kind, ListDef),
    /// an item and its definition
    Item(Kind, ListDef),
    /// a reference object in a default object
    RefDef(ListDef),
    /// a reference object in an item
    Ref(ListDef),
}

pub struct Tree {
    pub root: J,
    pub sites: Vec<(Vec<usize>, What)>,
    pub tables: Vec<(String, Vec<String>)>,
}

struct Build {
    sites: Vec<(Vec<usize>, What)>,
    path: Vec<usize>,
}

pub fn val_tree(ty: Ty, v: &Val) -> J {
    let tag = match ty {
        Ty::Bool => "Bool",
        Ty::Int => "Int",
        Ty::Float => "Float",
        Ty::Str => "Str",
        Ty::Ints => "IntArray",
        Ty::Floats => "FloatArray",
        Ty::Bin => "Binary",
    };
    match v {
        Val::Null => arr(tag, vec![raw("null")]),
        Val::Undef => arr(tag, vec![raw("undefined")]),
        Val::Bool(b) => J::Raw(b.to_string()),
        Val::Int(i) => J::Raw(i.to_string()),
        Val::Float(f) => J::Raw(format!("{:?}", f)),
        Val::Str(s) => J::Str(s.clone()),
        Val::Ints(v) => arr(tag, v.iter().map(|x| J::Raw(x.to_string())).collect()),
        Val::Floats(v) => arr(tag, v.iter().map(|x| J::Raw(format!("{:?}", x))).collect()),
        Val::Bin(v) => arr(tag, v.iter().map(|x| J::Raw(x.to_string())).collect()),
    }
}

fn rval_tree(v: &RVal) -> J {
    match v {
        RVal::Null => raw("null"),
        RVal::Undef => raw("undefined"),
        RVal::Id(s) => st(s),
    }
}

impl Build {
    fn site(&mut self, w: What) {
        self.sites.push((self.path.clone(), w));
    }
    fn push(&mut self, obj: &mut Vec<(String, J)>, key: String, f: impl FnOnce(&mut Build) -> J) {
        self.path.push(obj.len());
        let j = f(self);
        self.path.pop();
        obj.push((key, j));
    }
    fn add(&mut self, a: &mut Vec<J>, f: impl FnOnce(&mut Build) -> J) {
        self.path.push(a.len());
        let j = f(self);
        self.path.pop();
        a.push(j);
    }
    fn def(&mut self, k: Kind, d: &ListDef) -> J {
        let mut a = vec![];
        self.add(&mut a, |b| b.def_obj(k, d));
        J::Arr(a)
    }
    fn def_obj(&mut self, k: Kind, d: &ListDef) -> J {
        self.site(What::Def(k, d.clone()));
        let mut o = vec![];
        for p in &d.params {
            self.push(&mut o, format!("{}{}", p.name, p.vt.suffix()), |b| {
                b.site(What::Default(p.clone()));
                val_tree(p.ty, &p.def)
            });
        }
        for i in &d.inners {
            self.push(&mut o, format!("{}{}", i.name, if i.undefiable { "!" } else { "" }), |b| {
                let k = if k.mutable() { Kind::MilDef } else { Kind::CilDef };
                b.site(What::List(k, 0));
                let mut a = vec![st(if k.mutable() { "MilDef" } else { "CilDef" })];
                b.add(&mut a, |b| b.def(k, &i.def));
                J::Arr(a)
            });
        }
        if !d.refs.is_empty() {
            self.push(&mut o, if d.is_enum { "Enum" } else { "Ref" }.to_string(), |b| {
                b.site(What::RefDef(d.clone()));
                J::Obj(d.refs.iter().map(|r| (format!("{}{}", r.table, r.vt.suffix()), rval_tree(&r.def))).collect())
            });
        }
        J::Obj(o)
    }
    fn common(&mut self, o: &mut Vec<(String, J)>, d: &ListDef, vals: &BTreeMap<String, Val>, refs: &BTreeMap<String, RVal>) {
        for p in &d.params {
            if let Some(v) = vals.get(&p.name) {
                self.push(o, p.name.clone(), |b| {
                    b.site(What::Value(p.clone()));
                    val_tree(p.ty, v)
                });
            }
        }
        if !refs.is_empty() {
            self.push(o, if d.is_enum { "Enum" } else { "Ref" }.to_string(), |b| {
                b.site(What::Ref(d.clone()));
                J::Obj(refs.iter().map(|(t, v)| (t.clone(), rval_tree(v))).collect())
            });
        }
    }
    fn citem(&mut self, k: Kind, d: &ListDef, it: &CItem, id: Option<&str>) -> J {
        self.site(What::Item(k, d.clone()));
        let mut o = vec![];
        if let Some(id) = id {
            o.push(("ID".to_string(), st(id)));
        }
        self.common(&mut o, d, &it.vals, &it.refs);
        for i in &d.inners {
            if let Some(l) = it.inners.get(&i.name) {
                self.push(&mut o, i.name.clone(), |b| {
                    b.site(What::List(Kind::Cil, l.len()));
                    let mut a = vec![st("Cil")];
                    for x in l {
                        b.add(&mut a, |b| b.citem(Kind::Cil, &i.def, x, None));
                    }
                    J::Arr(a)
                });
            }
        }
        J::Obj(o)
    }
    fn mlist(&mut self, k: Kind, d: &ListDef, l: &MList) -> J {
        self.site(What::List(k, l.items.len()));
        let mut a = vec![st(if k == Kind::Mil { "Mil" } else { "MList" })];
        if k == Kind::MList {
            self.add(&mut a, |b| b.def(k, d));
        }
        let implied = l.items.iter().map(|(id, _)| id + 1).max().unwrap_or(0).max(l.items.len() as u64);
        if l.next_id != implied {
            a.push(arr("NextID", vec![J::Raw(l.next_id.to_string())]));
        }
        for (n, (id, it)) in l.items.iter().enumerate() {
            self.add(&mut a, |b| {
                b.site(What::Item(k, d.clone()));
                let mut o = vec![];
                if *id != n as u64 {
                    o.push(("ID".to_string(), J::Raw(id.to_string())));
                }
                b.common(&mut o, d, &it.vals, &it.refs);
                for i in &d.inners {
                    match it.inners.get(&i.name) {
                        Some(Some(l)) => b.push(&mut o, i.name.clone(), |b| b.mlist(Kind::Mil, &i.def, l)),
                        Some(None) => o.push((i.name.clone(), arr("__InnerMutUndefined", vec![]))),
                        None => {}
                    }
                }
                J::Obj(o)
            });
        }
        J::Arr(a)
    }
}

pub fn tree(s: &Schema) -> Tree {
    let mut b = Build { sites: vec![], path: vec![] };
    let mut o = vec![];
    for m in &s.mems {
        match m {
            RMem::Param(p) => b.push(&mut o, format!("{}{}", p.name, p.vt.suffix()), |b| {
                b.site(What::Default(p.clone()));
                val_tree(p.ty, &p.def)
            }),
            RMem::Table(n, d, items) => b.push(&mut o, n.clone(), |b| {
                b.site(What::List(Kind::Table, items.len()));
                let mut a = vec![st("Table")];
                b.add(&mut a, |b| b.def(Kind::Table, d));
                for (id, it) in items {
                    b.add(&mut a, |b| b.citem(Kind::Table, d, it, Some(id)));
                }
                J::Arr(a)
            }),
            RMem::CList(n, d, items) => b.push(&mut o, n.clone(), |b| {
                b.site(What::List(Kind::CList, items.len()));
                let mut a = vec![st("CList")];
                b.add(&mut a, |b| b.def(Kind::CList, d));
                for it in items {
                    b.add(&mut a, |b| b.citem(Kind::CList, d, it, None));
                }
                J::Arr(a)
            }),
            RMem::MList(n, d, u, l) => b.push(&mut o, format!("{}{}", n, if *u { "!" } else { "" }), |b| b.mlist(Kind::MList, d, l)),
        }
    }
    Tree { root: J::Obj(o), sites: b.sites, tables: tables_of(s) }
}

/// Names that some item of the definition uses, and the table IDs that are referred to.
pub struct Uses {
    pub ids: BTreeSet<(String, String)>,
}

pub fn uses(s: &Schema) -> Uses {
    fn def(u: &mut Uses, d: &ListDef) {
        for r in &d.refs {
            refv(u, &r.table, &r.def);
        }
        for i in &d.inners {
            def(u, &i.def);
        }
    }
    fn refv(u: &mut Uses, t: &str, v: &RVal) {
        if let RVal::Id(i) = v {
            u.ids.insert((t.to_string(), i.clone()));
        }
    }
    fn citem(u: &mut Uses, it: &CItem) {
        for (t, v) in &it.refs {
            refv(u, t, v);
        }
        for l in it.inners.values() {
            for x in l {
                citem(u, x);
            }
        }
    }
    fn mlist(u: &mut Uses, l: &MList) {
        for (_, it) in &l.items {
            for (t, v) in &it.refs {
                refv(u, t, v);
            }
            for x in it.inners.values().flatten() {
                mlist(u, x);
            }
        }
    }
    let mut u = Uses { ids: Default::default() };
    for m in &s.mems {
        match m {
            RMem::Param(_) => {}
            RMem::Table(_, d, items) => {
                def(&mut u, d);
                for (_, it) in items {
                    citem(&mut u, it);
                }
            }
            RMem::CList(_, d, items) => {
                def(&mut u, d);
                for it in items {
                    citem(&mut u, it);
                }
            }
            RMem::MList(_, d, _, l) => {
                def(&mut u, d);
                mlist(&mut u, l);
            }
        }
    }
    u
}

/// A replacement for any node, for random damage.
pub fn gen_j(g: &mut Gen, depth: usize) -> J {
    match g.us(if depth > 2 { 4 } else { 6 }) {
        0 => raw(g.sel(&["null", "0", "undefined", "true", "-1", "1.5", "300", "NaN", "-0.0", "9223372036854775807", "18446744073709551615", "1e400"])),
        1 => st(g.sel(&[
            "", "a", "Int", "Float", "Str", "Bool", "IntArray", "FloatArray", "Binary", "Table", "CList", "MList", "Cil", "Mil", "CilDef", "MilDef", "Default", "Old", "NextID", "ID", "Ref", "Enum",
            "__InnerMutUndefined", "root", "x!?", "é",
        ])),
        2 => raw("[]"),
        3 => raw("{}"),
        4 => {
            let mut v = vec![];
            g.many(0, 4, 2, |g, _| v.push(gen_j(g, depth + 1)));
            J::Arr(v)
        }
        _ => {
            let mut v: Vec<(String, J)> = vec![];
            g.many(0, 3, 2, |g, _| {
                let k = gen_key(g);
                let j = gen_j(g, depth + 1);
                if v.iter().all(|(n, _)| *n != k) {
                    v.push((k, j));
                }
            });
            J::Obj(v)
        }
    }
}

pub fn gen_key(g: &mut Gen) -> String {
    g.sel(&["a", "b", "a?", "a!", "a!?", "a??", "ID", "Ref", "Enum", "Old", "foo", "Foo", "@x", "", "x y", "é", "a?!"]).to_string()
}
