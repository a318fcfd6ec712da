//! Reference model of a document source ("schema") and of a document, with generators, a source
//! printer, an operation language applied to model and code under test alike, and an observer that
//! reads everything a program can read from the real document.

use crate::engine::*;
use crate::{ensure, vio};
use dochy_core::intf::{citem, mitem, root, table, CItemPtr, CListPtr, MItemPtr, MListConst, MListMut, MListPtr, RootObjectPtr};
use dochy_core::structs::{Qv, RootObject};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::Path;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Bool,
    Int,
    Float,
    Str,
    Ints,
    Floats,
    Bin,
}
pub const TYPES: [Ty; 7] = [Ty::Int, Ty::Str, Ty::Bool, Ty::Float, Ty::Ints, Ty::Floats, Ty::Bin];

#[derive(Clone, Debug)]
pub enum Val {
    Null,
    Undef,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Ints(Vec<i64>),
    Floats(Vec<f64>),
    Bin(Vec<u8>),
}

pub fn fshow(f: f64) -> String {
    if f.is_nan() {
        "NaN".to_string()
    } else if f == 0.0 {
        "0.0".to_string()
    } else {
        format!("{:?}", f)
    }
}

impl Val {
    pub fn show(&self, out: &mut String) {
        match self {
            Val::Null => out.push_str("null"),
            Val::Undef => out.push_str("undefined"),
            Val::Bool(b) => {
                let _ = write!(out, "{}", b);
            }
            Val::Int(i) => {
                let _ = write!(out, "i{}", i);
            }
            Val::Float(f) => {
                let _ = write!(out, "f{}", fshow(*f));
            }
            Val::Str(s) => {
                let _ = write!(out, "{:?}", s);
            }
            Val::Ints(v) => {
                let _ = write!(out, "I{:?}", v);
            }
            Val::Floats(v) => {
                out.push_str("F[");
                for f in v {
                    out.push_str(&fshow(*f));
                    out.push(',');
                }
                out.push(']');
            }
            Val::Bin(v) => {
                let _ = write!(out, "B{:?}", v);
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.show(&mut s);
        s
    }
    pub fn is_val(&self) -> bool {
        !matches!(self, Val::Null | Val::Undef)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Vt {
    pub null: bool,
    pub undef: bool,
}
impl Vt {
    pub const NORMAL: Vt = Vt { null: false, undef: false };
    pub fn accepts(&self, v: &Val) -> bool {
        match v {
            Val::Null => self.null,
            Val::Undef => self.undef,
            _ => true,
        }
    }
    pub fn suffix(&self) -> &'static str {
        match (self.undef, self.null) {
            (false, false) => "",
            (false, true) => "?",
            (true, false) => "!",
            (true, true) => "!?",
        }
    }
}

#[derive(Clone, Debug)]
pub struct PDef {
    pub name: String,
    pub ty: Ty,
    pub vt: Vt,
    pub def: Val,
}

#[derive(Clone, Debug, PartialEq)]
pub enum RVal {
    Null,
    Undef,
    Id(String),
}
impl RVal {
    pub fn text(&self) -> String {
        match self {
            RVal::Null => "null".into(),
            RVal::Undef => "undefined".into(),
            RVal::Id(s) => format!("->{}", s),
        }
    }
}

#[derive(Clone, Debug)]
pub struct RefDef {
    pub table: String,
    pub vt: Vt,
    /// Id("") means: has to be given by every item
    pub def: RVal,
}

#[derive(Clone, Debug)]
pub struct Inner {
    pub name: String,
    pub def: ListDef,
    pub undefiable: bool,
}

#[derive(Clone, Debug, Default)]
pub struct ListDef {
    pub params: Vec<PDef>,
    pub inners: Vec<Inner>,
    pub refs: Vec<RefDef>,
    pub is_enum: bool,
}

#[derive(Clone, Debug, Default)]
pub struct CItem {
    pub vals: BTreeMap<String, Val>,
    pub inners: BTreeMap<String, Vec<CItem>>,
    pub refs: BTreeMap<String, RVal>,
}

#[derive(Clone, Debug, Default)]
pub struct MItem {
    pub vals: BTreeMap<String, Val>,
    /// absent: never touched (reads as an empty list)
    pub inners: BTreeMap<String, Option<MList>>,
    pub refs: BTreeMap<String, RVal>,
}

#[derive(Clone, Debug, Default)]
pub struct MList {
    pub items: Vec<(u64, MItem)>,
    pub next_id: u64,
}
impl MList {
    pub fn pos(&self, id: u64) -> Option<usize> {
        self.items.iter().position(|(i, _)| *i == id)
    }
    pub fn get(&self, id: u64) -> Option<&MItem> {
        self.items.iter().find(|(i, _)| *i == id).map(|(_, v)| v)
    }
    pub fn get_mut(&mut self, id: u64) -> Option<&mut MItem> {
        self.items.iter_mut().find(|(i, _)| *i == id).map(|(_, v)| v)
    }
}

#[derive(Clone, Debug)]
pub enum RMem {
    Param(PDef),
    Table(String, ListDef, Vec<(String, CItem)>),
    CList(String, ListDef, Vec<CItem>),
    MList(String, ListDef, bool, MList),
}
impl RMem {
    pub fn name(&self) -> &str {
        match self {
            RMem::Param(p) => &p.name,
            RMem::Table(n, _, _) | RMem::CList(n, _, _) | RMem::MList(n, _, _, _) => n,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Schema {
    pub mems: Vec<RMem>,
}

impl Schema {
    pub fn get(&self, name: &str) -> Option<&RMem> {
        self.mems.iter().find(|m| m.name() == name)
    }
    pub fn param(&self, name: &str) -> Option<&PDef> {
        match self.get(name) {
            Some(RMem::Param(p)) => Some(p),
            _ => None,
        }
    }
    pub fn params(&self) -> Vec<&PDef> {
        self.mems.iter().filter_map(|m| if let RMem::Param(p) = m { Some(p) } else { None }).collect()
    }
    pub fn mlists(&self) -> Vec<(&String, &ListDef)> {
        self.mems.iter().filter_map(|m| if let RMem::MList(n, d, _, _) = m { Some((n, d)) } else { None }).collect()
    }
    pub fn table_ids(&self, name: &str) -> Vec<String> {
        match self.get(name) {
            Some(RMem::Table(_, _, items)) => items.iter().map(|(i, _)| i.clone()).collect(),
            _ => vec![],
        }
    }
    pub fn list_def(&self, path: &LPath) -> Option<&ListDef> {
        let mut d = match self.get(&path.root) {
            Some(RMem::MList(_, d, _, _)) => d,
            _ => return None,
        };
        for (_, n) in &path.steps {
            d = &d.inners.iter().find(|i| &i.name == n)?.def;
        }
        Some(d)
    }
    pub fn initial(&self) -> Doc {
        let mut d = Doc::default();
        for m in &self.mems {
            if let RMem::MList(n, _, _, l) = m {
                d.lists.insert(n.clone(), Some(l.clone()));
            }
        }
        d
    }
}

#[derive(Clone, Debug, Default)]
pub struct Doc {
    pub vals: BTreeMap<String, Val>,
    pub lists: BTreeMap<String, Option<MList>>,
}

/// root list name, then (item id, inner list name)*
#[derive(Clone, Debug, PartialEq)]
pub struct LPath {
    pub root: String,
    pub steps: Vec<(u64, String)>,
}

impl Doc {
    pub fn list(&self, p: &LPath) -> Option<&MList> {
        let mut l = self.lists.get(&p.root)?.as_ref()?;
        for (id, n) in &p.steps {
            l = l.get(*id)?.inners.get(n)?.as_ref()?;
        }
        Some(l)
    }
    /// creates missing lists on the way, as mutable access does
    pub fn list_mut(&mut self, p: &LPath) -> Option<&mut MList> {
        let mut l = self.lists.entry(p.root.clone()).or_insert(None).get_or_insert_with(MList::default);
        for (id, n) in &p.steps {
            let it = l.get_mut(*id)?;
            l = it.inners.entry(n.clone()).or_insert(None).get_or_insert_with(MList::default);
        }
        Some(l)
    }
    /// all lists that can be reached: path, length
    pub fn list_paths(&self, s: &Schema) -> Vec<LPath> {
        fn walk(l: Option<&MList>, d: &ListDef, p: LPath, out: &mut Vec<LPath>) {
            out.push(p.clone());
            if let Some(l) = l {
                for (id, it) in &l.items {
                    for inner in &d.inners {
                        let sub = it.inners.get(&inner.name).and_then(|o| o.as_ref());
                        let mut q = p.clone();
                        q.steps.push((*id, inner.name.clone()));
                        walk(sub, &inner.def, q, out);
                    }
                }
            }
        }
        let mut out = vec![];
        for (n, d) in s.mlists() {
            walk(self.lists.get(n).and_then(|o| o.as_ref()), d, LPath { root: n.clone(), steps: vec![] }, &mut out);
        }
        out
    }
    pub fn count_items(&self, s: &Schema) -> usize {
        self.list_paths(s).iter().filter_map(|p| self.list(p)).map(|l| l.items.len()).sum()
    }
}

// ------------------------------------------------------------------ rendering of the model

fn show_param(out: &mut String, pre: &str, p: &PDef, v: Option<&Val>, flags: bool) {
    let _ = write!(out, "{}.{}=", pre, p.name);
    v.unwrap_or(&p.def).show(out);
    if flags && v.is_some() {
        out.push('*');
    }
    out.push('\n');
}

fn show_refs(out: &mut String, pre: &str, d: &ListDef, refs: &BTreeMap<String, RVal>) {
    if d.is_enum {
        let _ = write!(out, "{}.Enum=", pre);
        for (k, v) in refs {
            let _ = write!(out, "{}{} ", k, v.text());
        }
        out.push('\n');
    } else {
        for r in &d.refs {
            let v = refs.get(&r.table).unwrap_or(&r.def);
            let _ = write!(out, "{}.Ref.{}={}\n", pre, r.table, v.text());
        }
    }
}

fn show_citem(out: &mut String, pre: &str, d: &ListDef, it: &CItem) {
    for p in &d.params {
        show_param(out, pre, p, it.vals.get(&p.name), false);
    }
    for i in &d.inners {
        let empty = vec![];
        let l = it.inners.get(&i.name).unwrap_or(&empty);
        let _ = write!(out, "{}.{} len={}\n", pre, i.name, l.len());
        for (k, x) in l.iter().enumerate() {
            show_citem(out, &format!("{}.{}[{}]", pre, i.name, k), &i.def, x);
        }
    }
    show_refs(out, pre, d, &it.refs);
}

fn show_mlist(out: &mut String, pre: &str, d: &ListDef, l: &MList) {
    let _ = write!(out, "{} len={} next_id={}\n", pre, l.items.len(), l.next_id);
    for (id, it) in &l.items {
        let p = format!("{}#{}", pre, id);
        show_mitem(out, &p, d, it);
    }
}

pub fn show_mitem(out: &mut String, p: &str, d: &ListDef, it: &MItem) {
    let _ = write!(out, "{}\n", p);
    for q in &d.params {
        show_param(out, p, q, it.vals.get(&q.name), true);
    }
    for i in &d.inners {
        let q = format!("{}.{}", p, i.name);
        match it.inners.get(&i.name) {
            None => {
                let _ = write!(out, "{} len=0 next_id=0\n", q);
            }
            Some(None) => {
                let _ = write!(out, "{} undefined\n", q);
            }
            Some(Some(l)) => show_mlist(out, &q, &i.def, l),
        }
    }
    show_refs(out, p, d, &it.refs);
}

pub fn show_doc(s: &Schema, d: &Doc) -> String {
    let mut out = String::new();
    for m in &s.mems {
        match m {
            RMem::Param(p) => show_param(&mut out, "", p, d.vals.get(&p.name), true),
            RMem::Table(n, def, items) => {
                let mut ids: Vec<&(String, CItem)> = items.iter().collect();
                ids.sort_by(|a, b| a.0.cmp(&b.0));
                let _ = write!(out, "{} table len={}\n", n, ids.len());
                for (id, it) in ids {
                    show_citem(&mut out, &format!("{}[{}]", n, id), def, it);
                }
            }
            RMem::CList(n, def, items) => {
                let _ = write!(out, "{} clist len={}\n", n, items.len());
                for (k, it) in items.iter().enumerate() {
                    show_citem(&mut out, &format!("{}[{}]", n, k), def, it);
                }
            }
            RMem::MList(n, def, _, _) => match d.lists.get(n) {
                Some(Some(l)) => show_mlist(&mut out, n, def, l),
                _ => {
                    let _ = write!(out, "{} undefined\n", n);
                }
            },
        }
    }
    out
}

// ------------------------------------------------------------------ observing the real document

pub fn ptr(r: &RootObject) -> RootObjectPtr {
    RootObjectPtr::new(r as *const RootObject as *mut RootObject)
}

fn qv<T>(q: Qv<T>, f: impl Fn(T) -> Val) -> Val {
    match q {
        Qv::Val(v) => f(v),
        Qv::Null => Val::Null,
        Qv::Undefined => Val::Undef,
    }
}

macro_rules! getter {
    ($name:ident, $m:ident, $p:ty) => {
        /// current value; None if the code under test says there is no such member of this type
        pub fn $name(p: $p, ty: Ty, n: &str) -> Option<Val> {
            Some(match ty {
                Ty::Bool => qv($m::get_bool(p, n)?, Val::Bool),
                Ty::Int => qv($m::get_int(p, n)?, Val::Int),
                Ty::Float => qv($m::get_float(p, n)?, Val::Float),
                Ty::Str => qv($m::get_str(p, n)?, Val::Str),
                Ty::Ints => qv($m::get_int_array(p, n)?, Val::Ints),
                Ty::Floats => qv($m::get_float_array(p, n)?, Val::Floats),
                Ty::Bin => qv($m::get_binary(p, n)?, Val::Bin),
            })
        }
    };
}
getter!(get_root, root, RootObjectPtr);
getter!(get_mitem, mitem, MItemPtr);
getter!(get_citem, citem, CItemPtr);

macro_rules! getter_def {
    ($name:ident, $m:ident, $p:ty) => {
        pub fn $name(p: $p, ty: Ty, n: &str) -> Option<Val> {
            Some(match ty {
                Ty::Bool => qv($m::get_bool_def(p, n)?, Val::Bool),
                Ty::Int => qv($m::get_int_def(p, n)?, Val::Int),
                Ty::Float => qv($m::get_float_def(p, n)?, Val::Float),
                Ty::Str => qv($m::get_str_def(p, n)?, |s: &String| Val::Str(s.clone())),
                Ty::Ints => qv($m::get_int_array_def(p, n)?, |s: &Vec<i64>| Val::Ints(s.clone())),
                Ty::Floats => qv($m::get_float_array_def(p, n)?, |s: &Vec<f64>| Val::Floats(s.clone())),
                Ty::Bin => qv($m::get_binary_def(p, n)?, |s: &Vec<u8>| Val::Bin(s.clone())),
            })
        }
    };
}
getter_def!(get_root_def, root, RootObjectPtr);
getter_def!(get_mitem_def, mitem, MItemPtr);
getter_def!(get_citem_def, citem, CItemPtr);

macro_rules! getter_imm {
    ($name:ident, $m:ident, $p:ty) => {
        /// the borrowing getters (strings and arrays only)
        pub fn $name(p: $p, ty: Ty, n: &str) -> Option<Val> {
            Some(match ty {
                Ty::Str => qv($m::get_immutable_str(p, n)?, |s: &String| Val::Str(s.clone())),
                Ty::Ints => qv($m::get_immutable_int_array(p, n)?, |s: &Vec<i64>| Val::Ints(s.clone())),
                Ty::Floats => qv($m::get_immutable_float_array(p, n)?, |s: &Vec<f64>| Val::Floats(s.clone())),
                Ty::Bin => qv($m::get_immutable_binary(p, n)?, |s: &Vec<u8>| Val::Bin(s.clone())),
                _ => return None,
            })
        }
    };
}
getter_imm!(get_root_imm, root, RootObjectPtr);
getter_imm!(get_mitem_imm, mitem, MItemPtr);
getter_imm!(get_citem_imm, citem, CItemPtr);

fn to_qv<T: Clone>(v: &Val, f: impl Fn(&Val) -> Option<T>) -> Option<Qv<T>> {
    match v {
        Val::Null => Some(Qv::Null),
        Val::Undef => Some(Qv::Undefined),
        v => f(v).map(Qv::Val),
    }
}

macro_rules! setter {
    ($name:ident, $m:ident, $p:ty) => {
        pub fn $name(p: $p, ty: Ty, n: &str, v: &Val) -> bool {
            match ty {
                Ty::Bool => $m::set_bool(p, n, to_qv(v, |v| if let Val::Bool(b) = v { Some(*b) } else { None }).unwrap()),
                Ty::Int => $m::set_int(p, n, to_qv(v, |v| if let Val::Int(b) = v { Some(*b) } else { None }).unwrap()),
                Ty::Float => $m::set_float(p, n, to_qv(v, |v| if let Val::Float(b) = v { Some(*b) } else { None }).unwrap()),
                Ty::Str => $m::set_str(p, n, to_qv(v, |v| if let Val::Str(b) = v { Some(b.clone()) } else { None }).unwrap()),
                Ty::Ints => $m::set_int_array(p, n, to_qv(v, |v| if let Val::Ints(b) = v { Some(b.clone()) } else { None }).unwrap()),
                Ty::Floats => $m::set_float_array(p, n, to_qv(v, |v| if let Val::Floats(b) = v { Some(b.clone()) } else { None }).unwrap()),
                Ty::Bin => $m::set_binary(p, n, to_qv(v, |v| if let Val::Bin(b) = v { Some(b.clone()) } else { None }).unwrap()),
            }
        }
    };
}
setter!(set_root, root, RootObjectPtr);
setter!(set_mitem, mitem, MItemPtr);

macro_rules! mutator {
    ($name:ident, $m:ident, $p:ty) => {
        /// In-place change through the mutable getters: Some(true) changed, Some(false) null/undefined.
        pub fn $name(p: $p, ty: Ty, n: &str, v: &Val) -> Option<bool> {
            match (ty, v) {
                (Ty::Str, Val::Str(x)) => Some(match $m::get_mutable_str(p, n)? {
                    Qv::Val(r) => {
                        *r = x.clone();
                        true
                    }
                    _ => false,
                }),
                (Ty::Ints, Val::Ints(x)) => Some(match $m::get_mutable_int_array(p, n)? {
                    Qv::Val(r) => {
                        r.clear();
                        r.extend_from_slice(x);
                        true
                    }
                    _ => false,
                }),
                (Ty::Floats, Val::Floats(x)) => Some(match $m::get_mutable_float_array(p, n)? {
                    Qv::Val(r) => {
                        *r = x.clone();
                        true
                    }
                    _ => false,
                }),
                (Ty::Bin, Val::Bin(x)) => Some(match $m::get_mutable_binary(p, n)? {
                    Qv::Val(r) => {
                        r.clear();
                        r.extend_from_slice(x);
                        true
                    }
                    _ => false,
                }),
                _ => None,
            }
        }
    };
}
mutator!(mutate_root, root, RootObjectPtr);
mutator!(mutate_mitem, mitem, MItemPtr);

fn obs_param(out: &mut String, pre: &str, p: &PDef, v: Option<Val>, modified: bool) {
    let _ = write!(out, "{}.{}=", pre, p.name);
    match v {
        Some(v) => v.show(out),
        None => out.push_str("<no such member>"),
    }
    if modified {
        out.push('*');
    }
    out.push('\n');
}

fn rv<T: AsRef<str>>(q: Option<Qv<T>>) -> String {
    match q {
        None => "<none>".to_string(),
        Some(Qv::Null) => RVal::Null.text(),
        Some(Qv::Undefined) => RVal::Undef.text(),
        Some(Qv::Val(s)) => RVal::Id(s.as_ref().to_string()).text(),
    }
}

fn obs_refs(out: &mut String, pre: &str, d: &ListDef, en: Option<(String, String)>, get: impl Fn(&str) -> String) {
    if d.is_enum {
        let _ = write!(out, "{}.Enum=", pre);
        if let Some((t, id)) = en {
            let _ = write!(out, "{}{} ", t, RVal::Id(id).text());
        }
        out.push('\n');
    } else {
        for r in &d.refs {
            let _ = write!(out, "{}.Ref.{}={}\n", pre, r.table, get(&r.table));
        }
    }
}

pub fn obs_citem(out: &mut String, pre: &str, d: &ListDef, it: CItemPtr) {
    for p in &d.params {
        obs_param(out, pre, p, get_citem(it, p.ty, &p.name), false);
    }
    for i in &d.inners {
        match citem::get_cil::<CItemPtr>(it, &i.name) {
            None => {
                let _ = write!(out, "{}.{} <no such list>\n", pre, i.name);
            }
            Some(l) => obs_clist(out, &format!("{}.{}", pre, i.name), &i.def, l, ""),
        }
    }
    obs_refs(out, pre, d, citem::get_enum(it), |t| rv(citem::get_ref_id(it, t)));
}

pub fn obs_clist(out: &mut String, pre: &str, d: &ListDef, l: CListPtr<CItemPtr>, word: &str) {
    let _ = write!(out, "{}{} len={}\n", pre, word, l.len());
    for k in 0..l.len() {
        obs_citem(out, &format!("{}[{}]", pre, k), d, l.value(k));
    }
}

pub fn obs_mlist(out: &mut String, pre: &str, d: &ListDef, l: MListPtr<MItemPtr>) {
    let _ = write!(out, "{} len={} next_id={}\n", pre, l.len(), l.next_id());
    let mut ids = vec![];
    let mut it = l.iter_const();
    while let Some((id, item)) = it.next_const() {
        ids.push(id);
        if ids.len() > l.len() + 3 {
            out.push_str("<iteration does not end>\n");
            return;
        }
        obs_mitem(out, &format!("{}#{}", pre, id), d, item);
    }
    if l.first_id() != ids.first().cloned() || l.last_id() != ids.last().cloned() || l.is_empty() != ids.is_empty() {
        let _ = write!(out, "<inconsistent ends {:?} {:?} {:?}>\n", ids, l.first_id(), l.last_id());
    }
    let mut back = vec![];
    let mut it = l.iter_from_last_const();
    while let Some((id, _)) = it.prev_const() {
        back.push(id);
        if back.len() > ids.len() + 3 {
            break;
        }
    }
    back.reverse();
    if back != ids {
        let _ = write!(out, "<backward {:?} forward {:?}>\n", back, ids);
    }
    for id in &ids {
        if !l.contains_key(*id) || l.get_item_const(*id).is_none() {
            let _ = write!(out, "<{} not found by id>\n", id);
        }
    }
    obs_wrapper(out, l, &ids);
}

/// The lifetime-checked view of the list shows what the list itself shows.
fn obs_wrapper(out: &mut String, l: MListPtr<MItemPtr>, ids: &[u64]) {
    let at = |id: Option<&u64>| id.and_then(|i| l.get_item_const(*i)).map(|p| p.item());
    let src = ();
    let c: MListConst<MItemPtr> = MListConst::new(l, &src);
    let (first, last) = (at(ids.first()), at(ids.last()));
    if l.first_const().map(|p| p.item()) != first || l.last_const().map(|p| p.item()) != last {
        out.push_str("<other item at an end>\n");
    }
    if c.first().map(|p| p.item()) != first || c.last().map(|p| p.item()) != last || c.first_id().as_ref() != ids.first() || c.last_id().as_ref() != ids.last() {
        out.push_str("<other item at an end of the view>\n");
    }
    if c.len() != l.len() || c.is_empty() != l.is_empty() || c.next_id() != l.next_id() {
        let _ = write!(out, "<view len={} next_id={}>\n", c.len(), c.next_id());
    }
    for id in ids.iter().chain(&[l.next_id()]) {
        if c.contains_key(*id) != l.contains_key(*id) || c.get_item(*id).map(|p| p.item()) != at(Some(id)) {
            let _ = write!(out, "<{} differs in the view>\n", id);
        }
    }
}

pub fn obs_mitem(out: &mut String, p: &str, d: &ListDef, item: MItemPtr) {
    let _ = write!(out, "{}\n", p);
    for q in &d.params {
        obs_param(out, p, q, get_mitem(item, q.ty, &q.name), !mitem::is_unmodified(item, &q.name));
    }
    for i in &d.inners {
        let q = format!("{}.{}", p, i.name);
        match mitem::get_mil_const::<MItemPtr>(item, &i.name) {
            None => {
                let _ = write!(out, "{} <no such list>\n", q);
            }
            Some(None) => {
                let _ = write!(out, "{} undefined\n", q);
            }
            Some(Some(l)) => obs_mlist(out, &q, &i.def, l),
        }
    }
    obs_refs(out, p, d, mitem::get_enum(item), |t| rv(mitem::get_ref_id(item, t)));
}

/// Everything that can be read from the document, in the format of `show_doc`.
pub fn observe(s: &Schema, r: &RootObject) -> String {
    let mut out = String::new();
    let p = ptr(r);
    for m in &s.mems {
        match m {
            RMem::Param(d) => obs_param(&mut out, "", d, get_root(p, d.ty, &d.name), !root::is_unmodified(p, &d.name)),
            RMem::Table(n, def, _) => match root::get_table(p.def(), n) {
                None => {
                    let _ = write!(out, "{} <no such table>\n", n);
                }
                Some(t) => {
                    let kvs = table::get_kvs(t);
                    let mut ids: Vec<String> = kvs.items().iter().map(|k| k.id().to_string()).collect();
                    ids.sort();
                    let _ = write!(out, "{} table len={}\n", n, ids.len());
                    for id in &ids {
                        match table::get_value(t, id) {
                            Some(it) => obs_citem(&mut out, &format!("{}[{}]", n, id), def, it),
                            None => {
                                let _ = write!(out, "{}[{}] <not found>\n", n, id);
                            }
                        }
                    }
                }
            },
            RMem::CList(n, def, _) => match root::get_clist::<CItemPtr>(p, n) {
                None => {
                    let _ = write!(out, "{} <no such clist>\n", n);
                }
                Some(l) => obs_clist(&mut out, n, def, l, " clist"),
            },
            RMem::MList(n, def, _, _) => match root::get_mlist_const::<MItemPtr>(p, n) {
                None => {
                    let _ = write!(out, "{} <no such mlist>\n", n);
                }
                Some(None) => {
                    let _ = write!(out, "{} undefined\n", n);
                }
                Some(Some(l)) => obs_mlist(&mut out, n, def, l),
            },
        }
    }
    out
}

/// First differing lines of two renderings.
pub fn diff_text(expected: &str, got: &str) -> String {
    let a: Vec<&str> = expected.lines().collect();
    let b: Vec<&str> = got.lines().collect();
    for i in 0..a.len().max(b.len()) {
        let x = a.get(i).cloned().unwrap_or("<end>");
        let y = b.get(i).cloned().unwrap_or("<end>");
        if x != y {
            return format!("expected `{}` got `{}`", clip(x), clip(y));
        }
    }
    "equal".into()
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 300 {
        let t: String = s.chars().take(300).collect();
        format!("{}...", t)
    } else {
        s.to_string()
    }
}

pub fn check_doc(s: &Schema, d: &Doc, r: &RootObject, what: &str) -> Res<()> {
    let e = show_doc(s, d);
    let o = observe(s, r);
    if e != o {
        vio!("{}: {}", what, diff_text(&e, &o));
    }
    Ok(())
}

// ------------------------------------------------------------------ generators

pub fn gen_int(g: &mut Gen) -> i64 {
    match g.weighted(&[6, 3, 3, 2, 2, 1]) {
        0 => g.below(40) as i64 - 8,
        1 => {
            let k = g.below(63);
            let off = g.below(5) as i64 - 2;
            let base = (1i64 << k).wrapping_add(off);
            if g.bool() { base.wrapping_neg() } else { base }
        }
        2 => g.below(1 << 17) as i64 - (1 << 16),
        3 => g.u64() as i64,
        4 => *g.pick(&[i64::MAX, i64::MIN, i64::MIN + 1, -1, 255, 256, -128, -129, 127, 128, 65535, 65536, 4294967295, 4294967296, 9007199254740993]),
        _ => (g.below(2000) as i64 - 1000) * 10i64.pow(g.below(15) as u32),
    }
}

pub fn gen_float(g: &mut Gen, finite: bool) -> f64 {
    match g.weighted(&[5, 4, 2, 2, 2, 1]) {
        0 => (g.below(4000) as f64 - 2000.0) / *g.pick(&[1.0, 10.0, 100.0, 4.0, 1000.0]),
        1 => gen_int(g) as f64,
        2 => {
            let f = f64::from_bits(g.u64());
            if finite && !f.is_finite() { 1.5 } else { f }
        }
        3 => (f32::from_bits(g.below(1 << 32) as u32) as f64).max(-1e30).min(1e30),
        4 => *g.pick(&[0.1, 1e-300, 5e-324, f64::MAX, f64::MIN_POSITIVE, -0.0, 1.0 / 3.0, 123456789.125, 1e15, 1e16, -1e22]),
        _ => {
            if finite {
                0.5
            } else {
                *g.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN])
            }
        }
    }
}

pub fn gen_char(g: &mut Gen) -> char {
    match g.weighted(&[8, 2, 2, 1, 1, 2]) {
        0 => (b'a' + g.below(26) as u8) as char,
        5 => (b'A' + g.below(26) as u8) as char,
        1 => (b'0' + g.below(10) as u8) as char,
        2 => *g.pick(&[' ', '"', '\'', '\\', '\n', '\r', '\t', '/', '{', '}', '[', ']', ',', ':', '#', '_', '-', '.', '*', '$']),
        3 => *g.pick(&['é', 'あ', '漢', '😀', '\u{2028}', '\u{2029}', '\u{feff}', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10ffff}', '\u{8}', '\u{b}', '\u{c}']),
        _ => char::from_u32(g.below(0x11_0000) as u32).unwrap_or('x'),
    }
}

pub fn gen_string(g: &mut Gen) -> String {
    match g.weighted(&[3, 8, 2, 2, 1]) {
        0 => g.pick(&["", "a", "0", "foo"]).to_string(),
        1 => {
            let n = g.us(14);
            (0..n).map(|_| gen_char(g)).collect()
        }
        2 => format!("{}", gen_int(g)),
        3 => fshow(gen_float(g, false)),
        _ => {
            // long
            let n = match g.us(4) {
                0 => 60 + g.us(10),
                1 => 120 + g.us(20),
                2 => 250 + g.us(12),
                _ => 300 + g.us(3000),
            };
            let c = gen_char(g);
            let d = gen_char(g);
            let k = 1 + g.us(20);
            (0..n).map(|i| if i % k == 0 { d } else { c }).collect()
        }
    }
}

fn gen_len(g: &mut Gen) -> usize {
    match g.weighted(&[8, 2, 1]) {
        0 => g.us(6),
        1 => g.us(20),
        _ => *g.pick(&[15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 256, 257, 300]),
    }
}

pub fn gen_val(g: &mut Gen, ty: Ty, finite: bool) -> Val {
    match ty {
        Ty::Bool => Val::Bool(g.bool()),
        Ty::Int => Val::Int(gen_int(g)),
        Ty::Float => Val::Float(gen_float(g, finite)),
        Ty::Str => Val::Str(gen_string(g)),
        Ty::Ints => {
            let n = gen_len(g);
            let small = g.bool();
            Val::Ints((0..n).map(|_| if small { g.below(200) as i64 } else { gen_int(g) }).collect())
        }
        Ty::Floats => {
            let n = gen_len(g);
            Val::Floats((0..n).map(|_| gen_float(g, finite)).collect())
        }
        Ty::Bin => {
            let n = gen_len(g);
            Val::Bin((0..n).map(|_| g.below(256) as u8).collect())
        }
    }
}

/// a value that differs from `v` in one place only
pub fn gen_near(g: &mut Gen, v: &Val) -> Option<Val> {
    let at = |g: &mut Gen, n: usize| if g.bool() { n - 1 - g.us(n.min(4)) } else { g.us(n) };
    Some(match v {
        Val::Int(i) => Val::Int(i ^ 1 << g.us(64)),
        Val::Str(t) if !t.is_empty() => {
            let mut c: Vec<char> = t.chars().collect();
            let i = at(g, c.len());
            c[i] = if c[i] == 'x' { 'y' } else { 'x' };
            Val::Str(c.into_iter().collect())
        }
        Val::Ints(v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = at(g, v.len());
            v[i] ^= 1 << g.us(64);
            Val::Ints(v)
        }
        Val::Floats(v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = at(g, v.len());
            v[i] = if v[i] == 1.5 { 2.5 } else { 1.5 };
            Val::Floats(v)
        }
        Val::Bin(v) if !v.is_empty() => {
            let mut v = v.clone();
            let i = at(g, v.len());
            v[i] ^= 1 << g.us(8);
            Val::Bin(v)
        }
        _ => return None,
    })
}

/// a value for a parameter that is `cur` now
fn gen_next(g: &mut Gen, p: &PDef, cur: Option<&Val>) -> Val {
    if g.chance(1, 5) {
        if let Some(v) = gen_near(g, cur.unwrap_or(&p.def)) {
            return v;
        }
    }
    gen_for(g, p, false)
}

/// a value the parameter accepts
pub fn gen_for(g: &mut Gen, p: &PDef, finite: bool) -> Val {
    if p.vt.null && g.chance(1, 6) {
        return Val::Null;
    }
    if p.vt.undef && g.chance(1, 6) {
        return Val::Undef;
    }
    gen_val(g, p.ty, finite)
}

pub fn gen_vt(g: &mut Gen) -> Vt {
    match g.weighted(&[6, 2, 1, 1]) {
        0 => Vt::NORMAL,
        1 => Vt { null: true, undef: false },
        2 => Vt { null: false, undef: true },
        _ => Vt { null: true, undef: true },
    }
}

const STEMS: [&str; 26] = [
    "a", "b", "foo", "bar", "baz", "value", "name", "list", "count", "x", "y", "item", "data", "flag", "longMemberName", "camelCase", "snake_case", "_u", "n", "hp",
    "text", "pos", "inner", "z", "@sys", "under_Score",
];

pub struct Names {
    used: std::collections::BTreeSet<String>,
    pub reserved: fn(&str) -> bool,
    /// gives names that differ in case and underscores only, and long ones
    pub loose: bool,
}
impl Names {
    pub fn new() -> Names {
        Names { used: Default::default(), reserved: |_| false, loose: false }
    }
    fn odd(&self, g: &mut Gen) -> String {
        let like = if self.used.is_empty() { STEMS[g.us(STEMS.len())].to_string() } else { self.used.iter().nth(g.us(self.used.len())).unwrap().clone() };
        match g.us(4) {
            0 => {
                let k = g.us(like.len());
                like.chars().enumerate().map(|(i, c)| if i == k && i > 0 { if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() } } else { c }).collect()
            }
            1 => like + "_",
            2 => format!("_{}", like.trim_start_matches('@')),
            _ => {
                let n = *g.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 120]);
                like.chars().cycle().take(n).map(|c| if c == '@' { 'q' } else { c }).collect()
            }
        }
    }
    pub fn fresh(&mut self, g: &mut Gen) -> String {
        if self.loose && g.chance(1, 10) {
            let s = self.odd(g);
            if s != "root" && s.len() <= 120 && !(self.reserved)(&s) && self.used.insert(s.clone()) {
                return s;
            }
        }
        let stem = *g.pick(&STEMS);
        let mut s = stem.to_string();
        let mut n = 0;
        loop {
            let key = if self.loose { s.clone() } else { s.to_lowercase().replace('_', "") };
            if s != "root" && !(self.reserved)(&s) && self.used.insert(key) {
                return s;
            }
            n += 1;
            s = format!("{}{}", stem, n);
        }
    }
}

#[derive(Clone)]
pub struct Opts {
    /// probability (of 16) of a wide object
    pub wide: u64,
    pub tables: bool,
    pub clists: bool,
    pub mlists: bool,
    /// at least one mutable list
    pub need_mlist: bool,
    /// at least one table, and list items that mostly refer to tables
    pub need_refs: bool,
    pub undef: bool,
    pub max_depth: usize,
    pub initial_items: usize,
    pub reserved: fn(&str) -> bool,
    /// gives inner lists names that no other list of the schema has (for accessor generation)
    pub uniq: Option<std::rc::Rc<std::cell::Cell<u32>>>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { wide: 1, tables: true, clists: true, mlists: true, need_mlist: false, need_refs: false, undef: true, max_depth: 2, initial_items: 3, reserved: |_| false, uniq: None }
    }
}

pub fn gen_pdef(g: &mut Gen, names: &mut Names, o: &Opts) -> PDef {
    let name = names.fresh(g);
    let ty = *g.pick(&TYPES);
    let mut vt = gen_vt(g);
    if !o.undef {
        vt.undef = false;
    }
    let mut p = PDef { name, ty, vt, def: Val::Null };
    p.def = if p.vt.null && g.chance(1, 4) {
        Val::Null
    } else if p.vt.undef && g.chance(1, 6) {
        Val::Undef
    } else {
        gen_val(g, ty, true)
    };
    p
}

fn gen_list_def(g: &mut Gen, o: &Opts, depth: usize, mutable: bool, tables: &[(String, Vec<String>)]) -> ListDef {
    let mut names = Names::new();
    names.reserved = o.reserved;
    names.loose = o.uniq.is_none();
    let mut d = ListDef::default();
    let wide = g.chance(o.wide, 24);
    let n = if wide { g.range(9, 75) } else { g.us(5) };
    for _ in 0..n {
        let p = g.span(|g| gen_pdef(g, &mut names, o));
        d.params.push(p);
    }
    if depth < o.max_depth && g.chance(2, 5) {
        let k = 1 + g.weighted(&[4, 1]);
        for _ in 0..k {
            let mut name = names.fresh(g);
            if let Some(c) = &o.uniq {
                c.set(c.get() + 1);
                name = format!("{}L{}", name, c.get());
            }
            let def = g.span(|g| gen_list_def(g, o, depth + 1, mutable, tables));
            let undefiable = mutable && o.undef && g.chance(1, 4);
            d.inners.push(Inner { name, def, undefiable });
        }
    }
    let refs_of_8 = if o.need_refs { 7 } else { 4 };
    if !tables.is_empty() && g.chance(refs_of_8, 8) {
        d.is_enum = g.chance(1, 3);
        let alt_null = g.chance(3, 4);
        for (t, ids) in tables {
            let skipped = if tables.len() > 100 { 1 } else { 4 };
            if !d.refs.is_empty() && g.chance(skipped, 12) {
                continue;
            }
            if d.is_enum {
                d.refs.push(RefDef { table: t.clone(), vt: Vt { null: alt_null, undef: false }, def: RVal::Null });
            } else {
                let mut vt = gen_vt(g);
                if !o.undef {
                    vt.undef = false;
                }
                let def = match g.us(3) {
                    0 => RVal::Id(g.pick(ids).clone()),
                    1 if vt.null => RVal::Null,
                    1 if vt.undef && g.bool() => RVal::Undef,
                    1 => RVal::Id(g.pick(ids).clone()),
                    _ => RVal::Id(String::new()),
                };
                d.refs.push(RefDef { table: t.clone(), vt, def });
            }
        }
    }
    d
}

pub fn gen_ref_value(g: &mut Gen, r: &RefDef, ids: &[String]) -> RVal {
    if r.vt.null && g.chance(1, 5) {
        return RVal::Null;
    }
    if r.vt.undef && g.chance(1, 6) {
        return RVal::Undef;
    }
    RVal::Id(g.pick(ids).clone())
}

pub fn gen_refs(g: &mut Gen, d: &ListDef, tables: &[(String, Vec<String>)], undef_ok: bool) -> BTreeMap<String, RVal> {
    let mut m = BTreeMap::new();
    let ids = |t: &str| tables.iter().find(|(n, _)| n == t).map(|(_, i)| i.clone()).unwrap_or_default();
    if d.is_enum {
        let r = g.pick(&d.refs).clone();
        let ids = ids(&r.table);
        m.insert(r.table.clone(), RVal::Id(g.pick(&ids).clone()));
    } else {
        for r in &d.refs {
            let required = r.def == RVal::Id(String::new());
            if required || g.chance(1, 3) {
                let mut v = gen_ref_value(g, r, &ids(&r.table));
                if v == RVal::Undef && !undef_ok {
                    v = RVal::Id(ids(&r.table)[0].clone());
                }
                m.insert(r.table.clone(), v);
            }
        }
    }
    m
}

fn gen_vals(g: &mut Gen, d: &ListDef, finite: bool) -> BTreeMap<String, Val> {
    let mut m = BTreeMap::new();
    for p in &d.params {
        if g.chance(2, 5) {
            let v = gen_for(g, p, finite);
            m.insert(p.name.clone(), v);
        }
    }
    m
}

fn gen_citem(g: &mut Gen, d: &ListDef, tables: &[(String, Vec<String>)], depth: usize) -> CItem {
    let mut it = CItem { vals: gen_vals(g, d, true), inners: BTreeMap::new(), refs: gen_refs(g, d, tables, true) };
    for i in &d.inners {
        if g.chance(2, 3) {
            let mut v = vec![];
            g.many(0, 4, 2, |g, _| v.push(gen_citem(g, &i.def, tables, depth + 1)));
            it.inners.insert(i.name.clone(), v);
        }
    }
    it
}

/// Mostly 0, 1, 2...; otherwise any distinct IDs below the next ID.
fn gen_ids(g: &mut Gen, l: &mut MList) {
    l.next_id = l.items.len() as u64;
    if l.items.is_empty() || !g.chance(1, 4) {
        return;
    }
    let mut ids = vec![];
    let mut id = 0;
    for _ in 0..l.items.len() {
        id += *g.pick(&[0, 1, 2, 100, 5_000_000_000]);
        ids.push(id);
        id += 1;
    }
    for k in 0..ids.len() {
        let j = k + g.us(ids.len() - k);
        ids.swap(k, j);
        l.items[k].0 = ids[k];
    }
    l.next_id = id + *g.pick(&[0, 0, 1, 7]);
}

pub fn gen_mitem_init(g: &mut Gen, d: &ListDef, tables: &[(String, Vec<String>)]) -> MItem {
    let mut it = MItem { vals: gen_vals(g, d, true), inners: BTreeMap::new(), refs: gen_refs(g, d, tables, true) };
    for i in &d.inners {
        if g.chance(1, 2) {
            let mut v = MList::default();
            g.many(0, 3, 1, |g, k| v.items.push((k as u64, gen_mitem_init(g, &i.def, tables))));
            gen_ids(g, &mut v);
            it.inners.insert(i.name.clone(), Some(v));
        }
    }
    it
}

pub fn gen_schema(g: &mut Gen, o: &Opts) -> Schema {
    let mut names = Names::new();
    names.reserved = o.reserved;
    names.loose = o.uniq.is_none();
    let mut s = Schema::default();
    let np = if g.chance(o.wide, 12) {
        match g.us(3) {
            0 => g.range(9, 20),
            1 => g.range(60, 70),
            _ => g.range(70, 140),
        }
    } else {
        g.us(7)
    };
    // tables first, so that others can refer to them
    let mut tables: Vec<(String, Vec<String>)> = vec![];
    let many_tables = o.tables && g.chance(o.wide, 40);
    if o.tables {
        let nt = if many_tables { *g.pick(&[14, 30, 90, 150]) } else if o.need_refs { g.weighted(&[0, 4, 3, 2]) } else { g.weighted(&[5, 4, 2, 1]) };
        for _ in 0..nt {
            let n = names.fresh(g);
            let mut idn = Names::new();
            idn.loose = o.uniq.is_none();
            let k = if many_tables { g.range(1, 2) } else if g.chance(1, 25) { g.range(9, 40) } else { g.range(1, 4) };
            let ids = (0..k).map(|_| idn.fresh(g)).collect();
            tables.push((n, ids));
        }
    }
    let mut mems: Vec<RMem> = vec![];
    for (t, ids) in tables.clone() {
        let (def, items) = g.span(|g| {
            let def = if many_tables { ListDef::default() } else { gen_list_def(g, o, 1, false, &tables) };
            let items: Vec<(String, CItem)> = ids.iter().map(|i| (i.clone(), gen_citem(g, &def, &tables, 0))).collect();
            (def, items)
        });
        mems.push(RMem::Table(t, def, items));
    }
    for _ in 0..np {
        let p = g.span(|g| gen_pdef(g, &mut names, o));
        mems.push(RMem::Param(p));
    }
    if o.clists {
        let n = g.weighted(&[3, 2, 1]);
        for _ in 0..n {
            let name = names.fresh(g);
            let m = g.span(|g| {
                let def = gen_list_def(g, o, 0, false, &tables);
                let mut items = vec![];
                g.many(0, 6, 2, |g, _| items.push(gen_citem(g, &def, &tables, 0)));
                RMem::CList(name, def, items)
            });
            mems.push(m);
        }
    }
    if o.mlists {
        let n = if o.need_mlist { 1 + g.weighted(&[4, 2, 1]) } else { g.weighted(&[2, 4, 2, 1]) };
        for _ in 0..n {
            let name = names.fresh(g);
            let m = g.span(|g| {
                let def = gen_list_def(g, o, 0, true, &tables);
                let mut l = MList::default();
                if o.initial_items > 0 {
                    g.many(0, o.initial_items * 2, o.initial_items, |g, k| l.items.push((k as u64, gen_mitem_init(g, &def, &tables))));
                }
                gen_ids(g, &mut l);
                let undefiable = o.undef && g.chance(1, 5);
                RMem::MList(name, def, undefiable, l)
            });
            mems.push(m);
        }
    }
    // mix the order
    let n = mems.len();
    if n > 1 {
        for _ in 0..g.us(4) {
            let a = g.us(n);
            let b = g.us(n);
            mems.swap(a, b);
        }
    }
    s.mems = mems;
    s
}

pub fn tables_of(s: &Schema) -> Vec<(String, Vec<String>)> {
    s.mems.iter().filter_map(|m| if let RMem::Table(n, _, it) = m { Some((n.clone(), it.iter().map(|x| x.0.clone()).collect())) } else { None }).collect()
}

// ------------------------------------------------------------------ source printer

/// How a source is written; every style has the same meaning.
#[derive(Clone, Debug)]
pub struct Style {
    seed: u64,
    pub plain: bool,
    /// members written to their own file, by name
    pub split: Vec<String>,
}
impl Style {
    pub fn plain() -> Style {
        Style { seed: 0, plain: true, split: vec![] }
    }
    pub fn random(g: &mut Gen, s: &Schema) -> Style {
        let seed = g.u64();
        let split = if g.bool() { s.mems.iter().filter(|_| g.chance(1, 3)).map(|m| m.name().to_string()).collect() } else { vec![] };
        Style { seed, plain: false, split }
    }
}

struct Pr {
    r: u64,
    plain: bool,
    out: String,
}
impl Pr {
    fn rnd(&mut self, n: u64) -> u64 {
        if self.plain {
            return 0;
        }
        self.r = self.r.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.r) % n
    }
    fn ws(&mut self) {
        match self.rnd(14) {
            0 | 1 | 2 | 3 | 4 | 5 => {
                if self.plain {
                    self.out.push(' ');
                }
            }
            6 => self.out.push('\n'),
            7 => self.out.push_str("\t "),
            8 => self.out.push_str("/* c, [{ \" */"),
            9 => self.out.push_str("// note : ['\n"),
            _ => self.out.push(' '),
        }
    }
    fn string(&mut self, s: &str) {
        let q = if self.rnd(2) == 0 { '"' } else { '\'' };
        self.out.push(q);
        for c in s.chars() {
            match c {
                '\\' => self.out.push_str("\\\\"),
                '\n' => self.out.push_str("\\n"),
                '\r' => self.out.push_str("\\r"),
                '\u{2028}' => self.out.push_str("\\u2028"),
                '\u{2029}' => self.out.push_str("\\u2029"),
                '"' | '\'' => {
                    if c == q || self.rnd(3) == 0 {
                        self.out.push('\\');
                    }
                    self.out.push(c);
                }
                '\0' => {
                    if self.rnd(2) == 0 {
                        self.out.push_str("\\x00")
                    } else {
                        self.out.push_str("\\u0000")
                    }
                }
                '\t' if self.rnd(2) == 0 => self.out.push_str("\\t"),
                '\u{b}' if self.rnd(2) == 0 => self.out.push_str("\\v"),
                c if self.rnd(20) == 19 && (c as u32) < 0xd800 => {
                    let t = format!("\\u{:04x}", c as u32);
                    self.out.push_str(&t)
                }
                c => self.out.push(c),
            }
        }
        self.out.push(q);
    }
    fn key(&mut self, k: &str) {
        self.ws();
        match self.rnd(4) {
            1 => {
                let _ = write!(self.out, "\"{}\"", k);
            }
            2 => {
                let _ = write!(self.out, "'{}'", k);
            }
            // names without quotes end in "!?" only
            _ if k.ends_with("?!") => {
                let _ = write!(self.out, "\"{}\"", k);
            }
            _ => self.out.push_str(k),
        }
        self.ws();
        self.out.push(':');
        self.ws();
    }
    fn tagged(&mut self, tag: &str, body: &[String]) {
        self.out.push('[');
        self.string_simple(tag);
        for b in body {
            self.out.push(',');
            self.ws();
            self.out.push_str(b);
        }
        if self.rnd(5) == 4 {
            self.out.push(',');
        }
        self.out.push(']');
    }
    fn string_simple(&mut self, s: &str) {
        let q = if self.rnd(2) == 0 { '"' } else { '\'' };
        let _ = write!(self.out, "{}{}{}", q, s, q);
    }
    fn val(&mut self, ty: Ty, v: &Val) {
        let tag = match ty {
            Ty::Bool => "Bool",
            Ty::Int => "Int",
            Ty::Float => "Float",
            Ty::Str => "Str",
            Ty::Ints => "IntArray",
            Ty::Floats => "FloatArray",
            Ty::Bin => "Binary",
        };
        match v {
            Val::Null => self.tagged(tag, &["null".into()]),
            Val::Undef => self.tagged(tag, &["undefined".into()]),
            Val::Bool(b) => {
                let _ = write!(self.out, "{}", b);
            }
            Val::Int(i) => {
                let _ = write!(self.out, "{}", i);
            }
            Val::Float(f) => {
                if f.fract() == 0.0 && f.abs() < 1e15 && *f != 0.0 && self.rnd(2) == 1 {
                    self.tagged("Float", &[format!("{}", *f as i64)]);
                } else if self.rnd(6) == 5 {
                    self.tagged("Float", &[format!("{:?}", f)]);
                } else {
                    let _ = write!(self.out, "{:?}", f);
                }
            }
            Val::Str(s) => self.string(s),
            Val::Ints(v) => {
                let b: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                if !v.is_empty() && self.rnd(2) == 1 {
                    let _ = write!(self.out, "[{}]", b.join(", "));
                } else {
                    self.tagged(tag, &b);
                }
            }
            Val::Floats(v) => {
                let mut b = vec![];
                for x in v {
                    // whole numbers may be written as integers, and each number in an array of its own
                    let t = if x.fract() == 0.0 && x.abs() < 9e15 && *x != 0.0 && self.rnd(2) == 1 { format!("{}", *x as i64) } else { format!("{:?}", x) };
                    b.push(if self.rnd(10) == 9 { format!("[\"Float\", {}]", t) } else { t });
                }
                self.tagged(tag, &b);
            }
            Val::Bin(v) => {
                let b: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                self.tagged(tag, &b);
            }
        }
    }
    fn member_key(&mut self, m: &RMem) -> String {
        match m {
            RMem::Param(p) => format!("{}{}", p.name, self.suffix(&p.vt)),
            RMem::MList(n, _, true, _) => format!("{}!", n),
            m => m.name().to_string(),
        }
    }
    fn suffix(&mut self, vt: &Vt) -> &'static str {
        match vt.suffix() {
            "!?" if self.rnd(2) == 1 => "?!",
            x => x,
        }
    }
    fn comma(&mut self, first: &mut bool) {
        if *first {
            *first = false;
        } else {
            self.out.push(',');
            if self.plain {
                self.out.push('\n');
            }
        }
    }
    fn close(&mut self, first: bool, c: char) {
        if !first && self.rnd(3) == 2 {
            self.out.push(',');
        }
        self.ws();
        self.out.push(c);
    }
    fn rval(&mut self, v: &RVal) {
        match v {
            RVal::Null => self.out.push_str("null"),
            RVal::Undef => self.out.push_str("undefined"),
            RVal::Id(s) => self.string_simple(s),
        }
    }
    fn list_def(&mut self, d: &ListDef, mutable: bool) {
        self.out.push('[');
        if self.rnd(3) == 2 {
            self.string_simple("Default");
            self.out.push(',');
        }
        self.ws();
        self.out.push('{');
        let mut first = true;
        for p in &d.params {
            self.comma(&mut first);
            let x = self.suffix(&p.vt);
            self.key(&format!("{}{}", p.name, x));
            self.val(p.ty, &p.def);
        }
        for i in &d.inners {
            self.comma(&mut first);
            self.key(&format!("{}{}", i.name, if i.undefiable { "!" } else { "" }));
            self.out.push('[');
            self.string_simple(if mutable { "MilDef" } else { "CilDef" });
            self.out.push(',');
            self.list_def(&i.def, mutable);
            self.out.push(']');
        }
        if !d.refs.is_empty() {
            self.comma(&mut first);
            self.key(if d.is_enum { "Enum" } else { "Ref" });
            self.out.push('{');
            let mut f = true;
            for r in &d.refs {
                self.comma(&mut f);
                let x = self.suffix(&r.vt);
                self.key(&format!("{}{}", r.table, x));
                self.rval(&r.def);
            }
            self.close(f, '}');
        }
        self.close(first, '}');
        self.out.push(']');
    }
    fn vals_refs(&mut self, d: &ListDef, vals: &BTreeMap<String, Val>, refs: &BTreeMap<String, RVal>, first: &mut bool) {
        for p in &d.params {
            if let Some(v) = vals.get(&p.name) {
                self.comma(first);
                self.key(&p.name);
                self.val(p.ty, v);
            }
        }
        if !refs.is_empty() {
            self.comma(first);
            self.key(if d.is_enum { "Enum" } else { "Ref" });
            self.out.push('{');
            let mut f = true;
            for (t, v) in refs {
                self.comma(&mut f);
                self.key(t);
                self.rval(v);
            }
            self.close(f, '}');
        }
    }
    fn citem(&mut self, d: &ListDef, it: &CItem, id: Option<&str>) {
        self.out.push('{');
        let mut first = true;
        if let Some(id) = id {
            self.comma(&mut first);
            self.key("ID");
            self.string(id);
        }
        self.vals_refs(d, &it.vals, &it.refs, &mut first);
        for i in &d.inners {
            if let Some(l) = it.inners.get(&i.name) {
                self.comma(&mut first);
                self.key(&i.name);
                self.out.push('[');
                self.string_simple("Cil");
                for x in l {
                    self.out.push(',');
                    self.ws();
                    self.citem(&i.def, x, None);
                }
                self.out.push(']');
            }
        }
        self.close(first, '}');
    }
    fn mitems(&mut self, d: &ListDef, l: &MList) {
        let implied = l.items.iter().map(|(id, _)| id + 1).max().unwrap_or(0).max(l.items.len() as u64);
        if l.next_id != implied || self.rnd(8) == 7 {
            let _ = write!(self.out, ", [\"NextID\", {}]", l.next_id);
        }
        for (k, (id, it)) in l.items.iter().enumerate() {
            self.out.push(',');
            self.ws();
            self.out.push('{');
            let mut first = true;
            if *id != k as u64 || self.rnd(8) == 7 {
                self.comma(&mut first);
                self.key("ID");
                let _ = write!(self.out, "{}", id);
            }
            self.vals_refs(d, &it.vals, &it.refs, &mut first);
            for i in &d.inners {
                if let Some(Some(l)) = it.inners.get(&i.name) {
                    self.comma(&mut first);
                    self.key(&i.name);
                    self.out.push('[');
                    self.string_simple("Mil");
                    self.mitems(&i.def, l);
                    self.out.push(']');
                }
            }
            self.close(first, '}');
        }
    }
    fn member(&mut self, m: &RMem) {
        match m {
            RMem::Param(p) => self.val(p.ty, &p.def),
            RMem::Table(_, d, items) => {
                self.out.push('[');
                self.string_simple("Table");
                self.out.push(',');
                self.ws();
                self.list_def(d, false);
                for (id, it) in items {
                    self.out.push(',');
                    self.ws();
                    self.citem(d, it, Some(id));
                }
                self.out.push(']');
            }
            RMem::CList(_, d, items) => {
                self.out.push('[');
                self.string_simple("CList");
                self.out.push(',');
                self.ws();
                self.list_def(d, false);
                for it in items {
                    self.out.push(',');
                    self.ws();
                    self.citem(d, it, None);
                }
                self.out.push(']');
            }
            RMem::MList(_, d, _, l) => {
                self.out.push('[');
                self.string_simple("MList");
                self.out.push(',');
                self.ws();
                self.list_def(d, true);
                self.mitems(d, l);
                self.out.push(']');
            }
        }
    }
}

/// (file name, text)
pub fn print_source(s: &Schema, st: &Style) -> Vec<(String, String)> {
    let mut files = vec![];
    let mut p = Pr { r: st.seed, plain: st.plain, out: String::new() };
    p.ws();
    p.out.push('{');
    let mut first = true;
    for m in &s.mems {
        if st.split.iter().any(|x| x == m.name()) {
            continue;
        }
        p.comma(&mut first);
        let k = p.member_key(m);
        p.key(&k);
        p.member(m);
    }
    p.close(first, '}');
    p.ws();
    files.push(("root.json5".to_string(), std::mem::take(&mut p.out)));
    for m in &s.mems {
        if st.split.iter().any(|x| x == m.name()) {
            p.ws();
            p.member(m);
            p.ws();
            files.push((format!("{}.json5", p.member_key(m)), std::mem::take(&mut p.out)));
        }
    }
    files
}

pub fn write_source(dir: &Path, s: &Schema, st: &Style) {
    std::fs::create_dir_all(dir).expect("scratch");
    for (n, t) in print_source(s, st) {
        std::fs::write(dir.join(n), t).expect("scratch");
    }
}

pub fn load_source(dir: &Path) -> Res<RootObject> {
    dochy_core::json_dir_to_root(dir, true).or_vio("loading a valid source")
}

// ------------------------------------------------------------------ operations

#[derive(Clone, Debug)]
pub enum Op {
    SetRoot(String, Ty, Val),
    /// through the mutable getter
    MutRoot(String, Ty, Val),
    InitRoot(String, usize),
    /// mutable access to a list, without changing it
    Touch(LPath),
    Insert { list: LPath, first: bool, refs: BTreeMap<String, RVal> },
    Remove(LPath, u64),
    RemoveFirst(LPath),
    RemoveLast(LPath),
    MoveFirst(LPath, u64),
    MoveLast(LPath, u64),
    /// before / after the item with the first id
    MovePrev(LPath, u64, u64),
    MoveNext(LPath, u64, u64),
    SetItem(LPath, u64, String, Ty, Val),
    MutItem(LPath, u64, String, Ty, Val),
    InitItem(LPath, u64, String, usize),
    SetRef(LPath, u64, String, RVal),
    SetEnum(LPath, u64, String, String),
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match self {
            Op::SetRoot(..) => "set",
            Op::MutRoot(..) => "set_in_place",
            Op::InitRoot(..) => "set_initial",
            Op::Touch(..) => "touch",
            Op::Insert { .. } => "insert",
            Op::Remove(..) | Op::RemoveFirst(..) | Op::RemoveLast(..) => "remove",
            Op::MoveFirst(..) | Op::MoveLast(..) | Op::MovePrev(..) | Op::MoveNext(..) => "move",
            Op::SetItem(..) => "item_set",
            Op::MutItem(..) => "item_set_in_place",
            Op::InitItem(..) => "item_set_initial",
            Op::SetRef(..) => "set_ref",
            Op::SetEnum(..) => "set_enum",
        }
    }
    pub fn text(&self) -> String {
        let p = |l: &LPath| {
            let mut s = l.root.clone();
            for (i, n) in &l.steps {
                let _ = write!(s, "#{}.{}", i, n);
            }
            s
        };
        match self {
            Op::SetRoot(n, _, v) => format!("set {} {}", n, clip(&v.text())),
            Op::MutRoot(n, _, v) => format!("mutate {} {}", n, clip(&v.text())),
            Op::InitRoot(n, k) => format!("init {} {}", n, k),
            Op::Touch(l) => format!("touch {}", p(l)),
            Op::Insert { list, first, refs } => format!("insert_{} {} {:?}", if *first { "first" } else { "last" }, p(list), refs),
            Op::Remove(l, i) => format!("remove {}#{}", p(l), i),
            Op::RemoveFirst(l) => format!("remove_first {}", p(l)),
            Op::RemoveLast(l) => format!("remove_last {}", p(l)),
            Op::MoveFirst(l, i) => format!("move_first {}#{}", p(l), i),
            Op::MoveLast(l, i) => format!("move_last {}#{}", p(l), i),
            Op::MovePrev(l, a, i) => format!("move {}#{} before #{}", p(l), i, a),
            Op::MoveNext(l, a, i) => format!("move {}#{} after #{}", p(l), i, a),
            Op::SetItem(l, i, n, _, v) => format!("set {}#{}.{} {}", p(l), i, n, clip(&v.text())),
            Op::MutItem(l, i, n, _, v) => format!("mutate {}#{}.{} {}", p(l), i, n, clip(&v.text())),
            Op::InitItem(l, i, n, k) => format!("init {}#{}.{} {}", p(l), i, n, k),
            Op::SetRef(l, i, t, v) => format!("ref {}#{}.{} {}", p(l), i, t, v.text()),
            Op::SetEnum(l, i, t, v) => format!("enum {}#{} {} {}", p(l), i, t, v),
        }
    }
}

fn initial_val(ty: Ty, len: usize) -> Val {
    match ty {
        Ty::Bool => Val::Bool(false),
        Ty::Int => Val::Int(0),
        Ty::Float => Val::Float(0.0),
        Ty::Str => Val::Str(String::new()),
        Ty::Ints => Val::Ints(vec![0; len]),
        Ty::Floats => Val::Floats(vec![0.0; len]),
        Ty::Bin => Val::Bin(vec![0; len]),
    }
}

fn move_item(l: &mut MList, anchor: Option<u64>, id: u64, after: bool) -> bool {
    // anchor None: to the very first (after=false) / last (after=true)
    let pos = match l.pos(id) {
        Some(p) => p,
        None => return false,
    };
    match anchor {
        None => {
            let it = l.items.remove(pos);
            if after {
                l.items.push(it);
            } else {
                l.items.insert(0, it);
            }
            true
        }
        Some(a) => {
            if l.pos(a).is_none() || a == id {
                return false;
            }
            let it = l.items.remove(pos);
            let q = l.pos(a).unwrap();
            l.items.insert(if after { q + 1 } else { q }, it);
            true
        }
    }
}

/// Applies to the model; the result is what the code under test has to report.
pub fn apply_model(s: &Schema, d: &mut Doc, op: &Op) -> bool {
    let set = |cur: &mut BTreeMap<String, Val>, p: Option<&PDef>, ty: Ty, v: &Val| -> bool {
        match p {
            Some(p) if p.ty == ty && p.vt.accepts(v) => {
                cur.insert(p.name.clone(), v.clone());
                true
            }
            _ => false,
        }
    };
    let mutate = |cur: &mut BTreeMap<String, Val>, p: Option<&PDef>, ty: Ty, v: &Val| -> bool {
        let p = match p {
            Some(p) => p,
            None => return false,
        };
        let now = cur.entry(p.name.clone()).or_insert_with(|| p.def.clone());
        if p.ty != ty {
            return false;
        }
        if now.is_val() {
            *now = v.clone();
            true
        } else {
            false
        }
    };
    match op {
        Op::SetRoot(n, ty, v) => set(&mut d.vals, s.param(n), *ty, v),
        Op::MutRoot(n, ty, v) => mutate(&mut d.vals, s.param(n), *ty, v),
        Op::InitRoot(n, len) => match s.param(n) {
            Some(p) => {
                d.vals.insert(n.clone(), initial_val(p.ty, *len));
                true
            }
            None => false,
        },
        Op::Touch(l) => d.list_mut(l).is_some(),
        Op::Insert { list, first, refs } => {
            let l = match d.list_mut(list) {
                Some(l) => l,
                None => return false,
            };
            let id = l.next_id;
            l.next_id += 1;
            let it = (id, MItem { refs: refs.clone(), ..Default::default() });
            if *first {
                l.items.insert(0, it);
            } else {
                l.items.push(it);
            }
            true
        }
        Op::Remove(p, id) => match d.list_mut(p) {
            Some(l) => match l.pos(*id) {
                Some(q) => {
                    l.items.remove(q);
                    true
                }
                None => false,
            },
            None => false,
        },
        Op::RemoveFirst(p) => match d.list_mut(p) {
            Some(l) if !l.items.is_empty() => {
                l.items.remove(0);
                true
            }
            _ => false,
        },
        Op::RemoveLast(p) => match d.list_mut(p) {
            Some(l) => l.items.pop().is_some(),
            _ => false,
        },
        Op::MoveFirst(p, id) => d.list_mut(p).map(|l| move_item(l, None, *id, false)).unwrap_or(false),
        Op::MoveLast(p, id) => d.list_mut(p).map(|l| move_item(l, None, *id, true)).unwrap_or(false),
        Op::MovePrev(p, a, id) => d.list_mut(p).map(|l| move_item(l, Some(*a), *id, false)).unwrap_or(false),
        Op::MoveNext(p, a, id) => d.list_mut(p).map(|l| move_item(l, Some(*a), *id, true)).unwrap_or(false),
        Op::SetItem(p, id, n, ty, v) => {
            let def = s.list_def(p).and_then(|x| x.params.iter().find(|q| &q.name == n)).cloned();
            match d.list_mut(p).and_then(|l| l.get_mut(*id)) {
                Some(it) => set(&mut it.vals, def.as_ref(), *ty, v),
                None => false,
            }
        }
        Op::MutItem(p, id, n, ty, v) => {
            let def = s.list_def(p).and_then(|x| x.params.iter().find(|q| &q.name == n)).cloned();
            match d.list_mut(p).and_then(|l| l.get_mut(*id)) {
                Some(it) => mutate(&mut it.vals, def.as_ref(), *ty, v),
                None => false,
            }
        }
        Op::InitItem(p, id, n, len) => {
            let def = s.list_def(p).and_then(|x| x.params.iter().find(|q| &q.name == n)).cloned();
            match (d.list_mut(p).and_then(|l| l.get_mut(*id)), def) {
                (Some(it), Some(q)) => {
                    it.vals.insert(n.clone(), initial_val(q.ty, *len));
                    true
                }
                _ => false,
            }
        }
        Op::SetRef(p, id, t, v) => match d.list_mut(p).and_then(|l| l.get_mut(*id)) {
            Some(it) => {
                it.refs.insert(t.clone(), v.clone());
                true
            }
            None => false,
        },
        Op::SetEnum(p, id, t, v) => match d.list_mut(p).and_then(|l| l.get_mut(*id)) {
            Some(it) => {
                it.refs.clear();
                it.refs.insert(t.clone(), RVal::Id(v.clone()));
                true
            }
            None => false,
        },
    }
}

pub fn real_list(r: &mut RootObject, p: &LPath) -> Option<MListPtr<MItemPtr>> {
    let mut l = root::get_mlist_mut::<MItemPtr>(RootObjectPtr::new(r), &p.root)?;
    for (id, n) in &p.steps {
        let it = l.get_item_mut(*id)?;
        l = mitem::get_mil_mut::<MItemPtr>(it, n)?;
    }
    Some(l)
}

fn to_ref_qv(v: &RVal) -> Qv<String> {
    match v {
        RVal::Null => Qv::Null,
        RVal::Undef => Qv::Undefined,
        RVal::Id(s) => Qv::Val(s.clone()),
    }
}

/// Every other state of a list is changed through the lifetime-checked handle.
fn viewed(l: &MListPtr<MItemPtr>) -> bool {
    (l.next_id() / 2 + l.len() as u64) % 2 == 1
}

fn on_list(r: &mut RootObject, p: &LPath, raw: impl FnOnce(MListPtr<MItemPtr>) -> bool, view: impl FnOnce(&mut MListMut<MItemPtr>) -> bool) -> bool {
    match real_list(r, p) {
        None => false,
        Some(l) if viewed(&l) => view(&mut MListMut::new(l, &mut ())),
        Some(l) => raw(l),
    }
}

pub fn apply_real(s: &Schema, r: &mut RootObject, op: &Op) -> bool {
    let p = RootObjectPtr::new(r);
    let item = |r: &mut RootObject, l: &LPath, id: u64| -> Option<MItemPtr> { real_list(r, l)?.get_item_mut(id) };
    match op {
        Op::SetRoot(n, ty, v) => set_root(p, *ty, n, v),
        Op::MutRoot(n, ty, v) => mutate_root(p, *ty, n, v).unwrap_or(false),
        Op::InitRoot(n, len) => root::set_initial_value(p, n, *len),
        Op::Touch(l) => real_list(r, l).is_some(),
        Op::Insert { list, first, refs } => match real_list(r, list) {
            None => false,
            Some(mut l) => {
                let it = match (*first, viewed(&l)) {
                    (true, false) => l.insert_first(),
                    (false, false) => l.insert_last(),
                    (true, true) => *MListMut::new(l, &mut ()).insert_first(),
                    (false, true) if l.len() % 3 == 0 => *MListMut::new(l, &mut ()).insert(),
                    (false, true) => *MListMut::new(l, &mut ()).insert_last(),
                };
                let en = s.list_def(list).map(|d| d.is_enum).unwrap_or(false);
                for (t, v) in refs {
                    match v {
                        RVal::Id(id) if en => mitem::set_enum(it, t, id),
                        v => mitem::set_ref(it, t, to_ref_qv(v)),
                    };
                }
                true
            }
        },
        Op::Remove(l, id) => on_list(r, l, |mut l| unsafe { l.remove(*id) }, |l| l.remove(*id)),
        Op::RemoveFirst(l) => on_list(r, l, |mut l| unsafe { l.remove_first() }, |l| l.remove_first()),
        Op::RemoveLast(l) => on_list(r, l, |mut l| unsafe { l.remove_last() }, |l| l.remove_last()),
        Op::MoveFirst(l, id) => on_list(r, l, |mut l| l.move_to_first(*id), |l| l.move_to_first(*id)),
        Op::MoveLast(l, id) => on_list(r, l, |mut l| l.move_to_last(*id), |l| l.move_to_last(*id)),
        Op::MovePrev(l, a, id) => on_list(r, l, |mut l| l.move_to_prev(*a, *id), |l| l.move_to_prev(*a, *id)),
        Op::MoveNext(l, a, id) => on_list(r, l, |mut l| l.move_to_next(*a, *id), |l| l.move_to_next(*a, *id)),
        Op::SetItem(l, id, n, ty, v) => item(r, l, *id).map(|i| set_mitem(i, *ty, n, v)).unwrap_or(false),
        Op::MutItem(l, id, n, ty, v) => item(r, l, *id).and_then(|i| mutate_mitem(i, *ty, n, v)).unwrap_or(false),
        Op::InitItem(l, id, n, len) => item(r, l, *id).map(|i| mitem::set_initial_value(i, n, *len)).unwrap_or(false),
        Op::SetRef(l, id, t, v) => item(r, l, *id).map(|i| mitem::set_ref(i, t, to_ref_qv(v))).unwrap_or(false),
        Op::SetEnum(l, id, t, v) => item(r, l, *id).map(|i| mitem::set_enum(i, t, v)).unwrap_or(false),
    }
}

#[derive(Clone)]
pub struct OpOpts {
    pub moves: bool,
    pub refs: bool,
    /// writes the code has to refuse
    pub invalid: bool,
    pub max_items: usize,
    pub ref_weight: u32,
}
impl Default for OpOpts {
    fn default() -> Self {
        OpOpts { moves: true, refs: true, invalid: true, max_items: 60, ref_weight: 4 }
    }
}

fn gen_id(g: &mut Gen, l: Option<&MList>, bad: bool) -> Option<u64> {
    let l = l?;
    if bad && g.chance(1, 25) {
        return Some(l.next_id + g.below(3));
    }
    if l.items.is_empty() {
        return None;
    }
    Some(match g.us(4) {
        0 => l.items[0].0,
        1 => l.items[l.items.len() - 1].0,
        _ => l.items[g.us(l.items.len())].0,
    })
}

fn other_ty(g: &mut Gen, ty: Ty) -> Ty {
    let t = *g.pick(&TYPES);
    if t == ty { if ty == Ty::Int { Ty::Float } else { Ty::Int } } else { t }
}

/// An operation that makes sense in the present state (None if the schema offers nothing).
fn init_len(g: &mut Gen) -> usize {
    if g.chance(1, 30) { *g.pick(&[127, 128, 255, 256, 300, 1000]) } else { g.us(5) }
}

pub fn gen_op(g: &mut Gen, s: &Schema, d: &Doc, o: &OpOpts) -> Option<Op> {
    let params = s.params();
    let lists = d.list_paths(s);
    let in_list = !lists.is_empty() && (params.is_empty() || g.chance(7, 10));
    if !in_list {
        if params.is_empty() {
            return None;
        }
        let p = *g.pick(&params);
        return Some(match g.weighted(&[8, 3, 1, if o.invalid { 1 } else { 0 }]) {
            0 => Op::SetRoot(p.name.clone(), p.ty, gen_next(g, p, d.vals.get(&p.name))),
            1 => {
                if matches!(p.ty, Ty::Str | Ty::Ints | Ty::Floats | Ty::Bin) {
                    Op::MutRoot(p.name.clone(), p.ty, gen_val(g, p.ty, false))
                } else {
                    Op::SetRoot(p.name.clone(), p.ty, p.def.clone())
                }
            }
            2 => Op::InitRoot(p.name.clone(), init_len(g)),
            _ => {
                if g.bool() && !(p.vt.null && p.vt.undef) {
                    let v = if !p.vt.null { Val::Null } else { Val::Undef };
                    Op::SetRoot(p.name.clone(), p.ty, v)
                } else {
                    let t = other_ty(g, p.ty);
                    Op::SetRoot(p.name.clone(), t, gen_val(g, t, false))
                }
            }
        });
    }
    let lp = g.pick(&lists).clone();
    let def = s.list_def(&lp)?;
    let l = d.list(&lp);
    let n = l.map(|l| l.items.len()).unwrap_or(0);
    let tables = tables_of(s);
    let w = [
        if n < o.max_items { if n < 3 { 8 } else { 4 } } else { 0 },
        if n > 0 && !def.params.is_empty() { 8 } else { 0 },
        if n > 0 { 3 } else { 0 },
        if n > 1 && o.moves { 3 } else { 0 },
        if n > 0 && o.refs && !def.refs.is_empty() { o.ref_weight } else { 0 },
        1,
    ];
    Some(match g.weighted(&w) {
        0 => {
            let refs = gen_refs(g, def, &tables, true);
            Op::Insert { list: lp, first: g.chance(1, 3), refs }
        }
        1 => {
            let id = gen_id(g, l, o.invalid)?;
            let p = g.pick(&def.params).clone();
            match g.weighted(&[8, 3, 1, if o.invalid { 1 } else { 0 }]) {
                0 => {
                    let cur = l.and_then(|l| l.items.iter().find(|i| i.0 == id)).and_then(|i| i.1.vals.get(&p.name));
                    Op::SetItem(lp, id, p.name.clone(), p.ty, gen_next(g, &p, cur))
                }
                1 => {
                    if matches!(p.ty, Ty::Str | Ty::Ints | Ty::Floats | Ty::Bin) {
                        Op::MutItem(lp, id, p.name.clone(), p.ty, gen_val(g, p.ty, false))
                    } else {
                        Op::SetItem(lp, id, p.name.clone(), p.ty, p.def.clone())
                    }
                }
                2 => Op::InitItem(lp, id, p.name.clone(), init_len(g)),
                _ => {
                    if g.bool() && !(p.vt.null && p.vt.undef) {
                        let v = if !p.vt.null { Val::Null } else { Val::Undef };
                        Op::SetItem(lp, id, p.name.clone(), p.ty, v)
                    } else {
                        let t = other_ty(g, p.ty);
                        Op::SetItem(lp, id, p.name.clone(), t, gen_val(g, t, false))
                    }
                }
            }
        }
        2 => match g.us(4) {
            0 => Op::RemoveFirst(lp),
            1 => Op::RemoveLast(lp),
            _ => Op::Remove(lp, gen_id(g, l, o.invalid)?),
        },
        3 => {
            let a = gen_id(g, l, o.invalid)?;
            let b = gen_id(g, l, o.invalid)?;
            match g.us(4) {
                0 => Op::MoveFirst(lp, a),
                1 => Op::MoveLast(lp, a),
                2 if a != b => Op::MovePrev(lp, a, b),
                3 if a != b => Op::MoveNext(lp, a, b),
                _ => Op::MoveFirst(lp, a),
            }
        }
        4 => {
            let id = gen_id(g, l, false)?;
            let r = g.pick(&def.refs).clone();
            let ids = s.table_ids(&r.table);
            if def.is_enum {
                Op::SetEnum(lp, id, r.table.clone(), g.pick(&ids).clone())
            } else {
                let v = gen_ref_value(g, &r, &ids);
                Op::SetRef(lp, id, r.table, v)
            }
        }
        _ => Op::Touch(lp),
    })
}

/// Generates and applies one operation to both sides.
pub fn step(g: &mut Gen, s: &Schema, d: &mut Doc, r: &mut RootObject, o: &OpOpts, log: &mut Vec<Op>) -> Res<bool> {
    let op = match gen_op(g, s, d, o) {
        Some(o) => o,
        None => return Ok(false),
    };
    apply_both(s, d, r, op, log)
}

/// applies an operation to the model and to the document and compares what they report
pub fn apply_both(s: &Schema, d: &mut Doc, r: &mut RootObject, op: Op, log: &mut Vec<Op>) -> Res<bool> {
    log.push(op.clone());
    let a = apply_model(s, d, &op);
    let b = apply_real(s, r, &op);
    ensure!(a == b, "`{}` reported {}, expected {}", op.text(), b, a);
    Ok(a)
}

pub fn ops_text(ops: &[Op]) -> String {
    let mut v: Vec<String> = ops.iter().take(25).map(|o| o.text()).collect();
    if ops.len() > 25 {
        v.push(format!("... {} operations", ops.len()));
    }
    v.join("; ")
}

pub fn schema_text(s: &Schema) -> String {
    print_source(s, &Style::plain())[0].1.replace('\n', "")
}
