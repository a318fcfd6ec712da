//! I01: generated accessor code. Each case makes a few sources, generates their accessors, writes a
//! program that uses every accessor, compiles it against the library, runs it and compares what it
//! prints with the model.

use super::{suite, Prop, Suite};
use crate::engine::*;
use crate::model::*;
use crate::tree::*;
use crate::{ensure, vio};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "I01",
        suites: vec![suite("stable", stable, 30000, 600_000), Suite { name: "programs", run: programs, quick: 240, thorough: 8000, workers: 8, asan: 0, deterministic: true }],
        rule: "stable: the source has a list or at least three members; programs: the compiled programs read at least one list and made at least three changes through accessors",
        level: "exploration",
        assumptions: &["names are no reserved words of Rust and stay distinct after conversion to Rust's naming conventions; lists have distinct names across the whole source"],
    }]
}

fn snake(s: &str) -> String {
    let mut r = String::new();
    for (i, c) in s.chars().enumerate() {
        match c {
            '@' => r.push_str("at"),
            c if c.is_ascii_uppercase() => {
                if i > 0 {
                    r.push('_');
                }
                r.push(c.to_ascii_lowercase());
            }
            c => r.push(c),
        }
    }
    r
}

fn camel(s: &str) -> String {
    let mut r = String::new();
    let mut up = true;
    for (i, c) in s.chars().enumerate() {
        match c {
            '@' => {
                r.push_str("At");
                up = false;
            }
            '_' if i > 0 => up = true,
            c if up => {
                r.push(c.to_ascii_uppercase());
                up = false;
            }
            c => r.push(c),
        }
    }
    r
}

fn rs(ty: Ty) -> &'static str {
    match ty {
        Ty::Bool => "bool",
        Ty::Int => "i64",
        Ty::Float => "f64",
        Ty::Str => "String",
        Ty::Ints => "Vec<i64>",
        Ty::Floats => "Vec<f64>",
        Ty::Bin => "Vec<u8>",
    }
}

fn by_ref(ty: Ty) -> bool {
    !matches!(ty, Ty::Bool | Ty::Int | Ty::Float)
}

fn wrap(t: &str, vt: Vt) -> String {
    match (vt.null, vt.undef) {
        (false, false) => t.to_string(),
        (true, false) => format!("NullOr<{}>", t),
        (false, true) => format!("UndefOr<{}>", t),
        (true, true) => format!("Qv<{}>", t),
    }
}

fn wrapper(vt: Vt) -> &'static str {
    match (vt.null, vt.undef) {
        (false, false) => "",
        (true, false) => "NullOr",
        (false, true) => "UndefOr",
        (true, true) => "Qv",
    }
}

fn wrapped(vt: Vt, state: u8, e: &str) -> String {
    let w = wrapper(vt);
    match state {
        0 if w.is_empty() => e.to_string(),
        0 => format!("{}::Val({})", w, e),
        1 => format!("{}::Null", w),
        _ if w == "UndefOr" => "UndefOr::Undefined".to_string(),
        _ => "Qv::Undefined".to_string(),
    }
}

fn lit(v: &Val) -> String {
    let f = |x: &f64| format!("f64::from_bits({})", x.to_bits());
    match v {
        Val::Null | Val::Undef => String::new(),
        Val::Bool(b) => b.to_string(),
        Val::Int(i) if *i == i64::MIN => "i64::MIN".into(),
        Val::Int(i) => format!("{}i64", i),
        Val::Float(x) => f(x),
        Val::Str(s) => format!("{:?}.to_string()", s),
        Val::Ints(v) => format!("vec!{:?}", v).replace("-9223372036854775808", "i64::MIN"),
        Val::Floats(v) => format!("vec![{}]", v.iter().map(f).collect::<Vec<_>>().join(",")),
        Val::Bin(v) => format!("vec!{:?}", v),
    }
}

fn state(v: &Val) -> u8 {
    match v {
        Val::Null => 1,
        Val::Undef => 2,
        _ => 0,
    }
}

/// What the source lists as old; the names of its accessors end in `_old`.
#[derive(Default, Debug)]
pub struct Olds {
    pub mems: BTreeSet<String>,
    pub refs: BTreeSet<String>,
    pub keys: BTreeSet<(String, String)>,
}

impl Olds {
    fn name(&self, n: &str) -> String {
        format!("{}{}", snake(n), if self.mems.contains(n) { "_old" } else { "" })
    }
    fn ref_name(&self, d: &ListDef, t: &str) -> String {
        format!("{}{}", snake(t), if self.is_old_ref(d, t) { "_old" } else { "" })
    }
    pub fn is_old_ref(&self, d: &ListDef, t: &str) -> bool {
        !d.is_enum && self.refs.contains(t) && d.refs.iter().any(|r| r.table == t && r.def != RVal::Id(String::new()))
    }
    fn key(&self, t: &str, k: &str) -> String {
        format!("{}{}", snake(k), if self.keys.contains(&(t.to_string(), k.to_string())) { "_old" } else { "" })
    }
    fn variant(&self, t: &str, k: &str) -> String {
        format!("acc::{}TableID::{}{}", camel(t), camel(k), if self.keys.contains(&(t.to_string(), k.to_string())) { "Old" } else { "" })
    }
}

/// Chooses names to be old and takes the values of old members out of the items.
pub fn choose_olds(g: &mut Gen, s: &mut Schema) -> Olds {
    let mut o = Olds::default();
    if !g.chance(1, 2) {
        return o;
    }
    fn names(d: &ListDef, out: &mut BTreeSet<String>) {
        for p in &d.params {
            out.insert(p.name.clone());
        }
        for i in &d.inners {
            out.insert(i.name.clone());
            names(&i.def, out);
        }
    }
    let mut all = BTreeSet::new();
    let mut tables = vec![];
    for m in &s.mems {
        match m {
            RMem::Param(p) => {
                all.insert(p.name.clone());
            }
            RMem::Table(n, d, _) => {
                tables.push(n.clone());
                names(d, &mut all)
            }
            RMem::CList(n, d, _) | RMem::MList(n, d, _, _) => {
                all.insert(n.clone());
                names(d, &mut all)
            }
        }
    }
    for t in &tables {
        all.remove(t);
        if g.chance(1, 4) {
            o.refs.insert(t.clone());
        }
    }
    for n in all {
        if g.chance(1, 5) {
            o.mems.insert(n);
        }
    }
    fn citem(o: &Olds, d: &ListDef, it: &mut CItem) {
        it.vals.retain(|k, _| !o.mems.contains(k));
        it.inners.retain(|k, _| !o.mems.contains(k));
        it.refs.retain(|k, _| !o.is_old_ref(d, k));
        for i in &d.inners {
            for x in it.inners.get_mut(&i.name).into_iter().flatten() {
                citem(o, &i.def, x);
            }
        }
    }
    fn mlist(o: &Olds, d: &ListDef, l: &mut MList) {
        for (_, it) in &mut l.items {
            it.vals.retain(|k, _| !o.mems.contains(k));
            it.inners.retain(|k, _| !o.mems.contains(k));
            it.refs.retain(|k, _| !o.is_old_ref(d, k));
            for i in &d.inners {
                if let Some(Some(x)) = it.inners.get_mut(&i.name) {
                    mlist(o, &i.def, x);
                }
            }
        }
    }
    for m in &mut s.mems {
        match m {
            RMem::Param(_) => {}
            RMem::Table(_, d, items) => items.iter_mut().for_each(|(_, it)| citem(&o, d, it)),
            RMem::CList(_, d, items) => items.iter_mut().for_each(|it| citem(&o, d, it)),
            RMem::MList(_, d, _, l) => mlist(&o, d, l),
        }
    }
    let u = uses(s);
    for (t, ids) in tables_of(s) {
        for i in ids {
            if !u.ids.contains(&(t.clone(), i.clone())) && g.chance(1, 3) {
                o.keys.insert((t.clone(), i));
            }
        }
    }
    o
}

pub fn source_text(s: &Schema, o: &Olds) -> String {
    let mut t = tree(s);
    let list = |v: Vec<String>| J::Arr(v.iter().map(|x| st(x)).collect());
    let sites = t.sites.clone();
    for (p, w) in sites.iter().rev() {
        match w {
            What::Def(_, d) => {
                let v: Vec<String> = d.params.iter().map(|p| &p.name).chain(d.inners.iter().map(|i| &i.name)).filter(|n| o.mems.contains(*n)).cloned().collect();
                if !v.is_empty() {
                    t.root.at(p).obj_mut().push(("Old".into(), list(v)));
                }
            }
            What::RefDef(d) => {
                let v: Vec<String> = d.refs.iter().map(|r| r.table.clone()).filter(|r| o.is_old_ref(d, r)).collect();
                if !v.is_empty() {
                    t.root.at(p).obj_mut().push(("Old".into(), list(v)));
                }
            }
            What::List(Kind::Table, _) => {
                let name = t.root.obj_mut()[p[0]].0.clone();
                let v: Vec<J> = o.keys.iter().filter(|(n, _)| n == &name).map(|(_, k)| st(k)).collect();
                if !v.is_empty() {
                    t.root.at(p).arr_mut().insert(2, arr("Old", v));
                }
            }
            _ => {}
        }
    }
    let v: Vec<String> = s.mems.iter().map(|m| m.name().to_string()).filter(|n| o.mems.contains(n)).collect();
    if !v.is_empty() {
        t.root.obj_mut().push(("Old".into(), list(v)));
    }
    t.root.text()
}

pub fn gen_case(g: &mut Gen) -> (Schema, Olds) {
    let big = g.chance(1, 40);
    let opts = Opts { wide: if big { 4 } else { 0 }, uniq: Some(Default::default()), ..Opts::default() };
    let mut s = gen_schema(g, &opts);
    if g.chance(1, 12) {
        // a table without items
        s.mems.push(RMem::Table("emptyTable".into(), ListDef::default(), vec![]));
    }
    let o = choose_olds(g, &mut s);
    (s, o)
}

fn write(dir: &Path, text: &str) {
    std::fs::create_dir_all(dir).expect(": scratch");
    std::fs::write(dir.join("root.json5"), text).expect(": scratch");
}

fn generate(dir: &Path) -> Res<String> {
    let root = dochy_core::json_dir_to_root(dir, true).or_vio("loading a valid source")?;
    match no_panic(|| dochy_intf::generate_interface(&root).to_string()) {
        Ok(t) => Ok(t),
        Err(p) => vio!("generating accessors panicked: {}", p),
    }
}

fn stable(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let (s, o) = gen_case(g);
    cx.nontrivial_if(s.mems.len() >= 3 || s.mems.iter().any(|m| !matches!(m, RMem::Param(_))));
    cx.sample(|| schema_text(&s));
    let dir = cx.dir().join("src");
    write(&dir, &source_text(&s, &o));
    let a = generate(&dir)?;
    let b = generate(&dir)?;
    ensure!(a == b, "generating twice from one source: {}", diff_text(&a, &b));
    let out = cx.dir().join("acc.rs");
    dochy_intf::generate_accessor_from_json_dir(&dir, &out, true).or_vio("generating an accessor file")?;
    let c = std::fs::read_to_string(&out).or_vio("reading the accessor file")?;
    ensure!(a == c, "generating into a file: {}", diff_text(&a, &c));
    // the library also loads sources from archives
    if g.chance(1, 4) {
        let v = super::source::archive_of(&dir)?;
        let root = dochy_core::read_archive_to_root(&mut &v[..], true).or_vio("loading an archive")?;
        let d = dochy_intf::generate_interface(&root).to_string();
        ensure!(a == d, "generating from the archive of the source: {}", diff_text(&a, &d));
        cx.label("archive");
    }
    Ok(())
}

// ------------------------------------------------------------------ the program

struct Emit<'a> {
    s: &'a Schema,
    o: &'a Olds,
    code: String,
    /// functions of lists that were reached, in order
    n: usize,
}

const PRELUDE: &str = r#"
#![allow(warnings)]
use dochy::core::structs::*;
pub trait Sh { fn sh(&self) -> String; }
impl Sh for bool { fn sh(&self) -> String { self.to_string() } }
impl Sh for i64 { fn sh(&self) -> String { format!("i{}", self) } }
impl Sh for u64 { fn sh(&self) -> String { format!("u{}", self) } }
impl Sh for usize { fn sh(&self) -> String { format!("u{}", self) } }
fn fs(f: f64) -> String { if f.is_nan() { "NaN".into() } else if f == 0.0 { "0.0".into() } else { format!("{:?}", f) } }
impl Sh for f64 { fn sh(&self) -> String { format!("f{}", fs(*self)) } }
impl Sh for String { fn sh(&self) -> String { format!("{:?}", self) } }
impl Sh for Vec<i64> { fn sh(&self) -> String { format!("I{:?}", self) } }
impl Sh for Vec<f64> { fn sh(&self) -> String { let mut s = "F[".to_string(); for f in self { s.push_str(&fs(*f)); s.push(','); } s.push(']'); s } }
impl Sh for Vec<u8> { fn sh(&self) -> String { format!("B{:?}", self) } }
impl<T: Sh> Sh for &T { fn sh(&self) -> String { (*self).sh() } }
impl<T: Sh> Sh for NullOr<T> { fn sh(&self) -> String { match self { NullOr::Null => "null".into(), NullOr::Val(v) => v.sh() } } }
impl<T: Sh> Sh for UndefOr<T> { fn sh(&self) -> String { match self { UndefOr::Undefined => "undefined".into(), UndefOr::Val(v) => v.sh() } } }
impl<T: Sh> Sh for Qv<T> { fn sh(&self) -> String { match self { Qv::Null => "null".into(), Qv::Undefined => "undefined".into(), Qv::Val(v) => v.sh() } } }
pub fn put(o: &mut String, pre: &str, n: &str, v: &dyn Sh) { o.push_str(pre); o.push_str(n); o.push_str(&v.sh()); o.push('\n'); }
"#;

impl<'a> Emit<'a> {
    fn w(&mut self, s: &str) {
        self.code.push_str(s);
        self.code.push('\n');
    }
    fn params(&mut self, ps: &[PDef], it: &str) {
        for p in ps {
            let f = self.o.name(&p.name);
            let t = wrap(&format!("{}{}", if by_ref(p.ty) { "&" } else { "" }, rs(p.ty)), p.vt);
            self.w(&format!("let v: {} = {}.{}(); put(o, pre, \".{}=\", &v);", t, it, f, p.name));
            self.w(&format!("let v: {} = {}.{}_def_val(); put(o, pre, \".{} default=\", &v);", t, it, f, p.name));
        }
    }
    fn refs(&mut self, d: &ListDef, list: &str) {
        if d.is_enum {
            self.w("match it.get_enum() {");
            for r in &d.refs {
                self.w(&format!("acc::{}Enum::{}(i) => put(o, pre, \".enum {} \", &i),", camel(list), camel(&r.table), r.table));
            }
            self.w("}");
            self.w("let (a, b): (String, String) = it.get_enum_ids(); put(o, pre, \".enum list=\", &a); put(o, pre, \".enum id=\", &b);");
        } else {
            for r in &d.refs {
                let f = self.o.ref_name(d, &r.table);
                self.w(&format!("let v: {} = it.ref_id_{}(); put(o, pre, \".id of {}=\", &v);", wrap("&String", r.vt), f, r.table));
                let t = wrap(&format!("acc::{}CItem", camel(&r.table)), r.vt);
                self.w(&format!("let v: {} = it.ref_{}(); put(o, pre, \".item of {}=\", &v);", t, f, r.table));
            }
        }
    }
    /// `fn c_<list>` showing an item
    fn citem(&mut self, list: &str, d: &ListDef) {
        self.n += 1;
        self.w(&format!("fn c_{}(it: &acc::{}CItem, pre: &str, o: &mut String) {{", snake(list), camel(list)));
        self.params(&d.params, "it");
        self.refs(d, list);
        for i in &d.inners {
            self.clist("it", &i.name);
        }
        self.w("}");
        for i in &d.inners {
            self.citem(&i.name, &i.def);
        }
    }
    fn clist(&mut self, it: &str, list: &str) {
        let f = self.o.name(list);
        self.w(&format!("let l: CListConst<acc::{}CItem> = {}.{}(); put(o, pre, \".{} len=\", &l.len());", camel(list), it, f, list));
        self.w(&format!("for (k, x) in l.iter().enumerate() {{ c_{}(&x, &format!(\"{{}}.{}[{{}}]\", pre, k), o); }}", snake(list), list));
        self.w("for k in 0..l.len() { let x = l.value(k); }");
    }
    fn mitem(&mut self, list: &str, d: &ListDef) {
        self.n += 1;
        self.w(&format!("fn m_{}(it: &acc::{}MItem, pre: &str, o: &mut String) {{", snake(list), camel(list)));
        self.params(&d.params, "it");
        self.refs(d, list);
        for i in &d.inners {
            self.mlist("it", &i.name, i.undefiable);
        }
        self.w("}");
        self.w(&format!("fn l_{}(l: &MListConst<acc::{}MItem>, pre: &str, o: &mut String) {{", snake(list), camel(list)));
        self.w("put(o, pre, \" len=\", &l.len()); put(o, pre, \" next=\", &l.next_id());");
        self.w(&format!("for (id, x) in l.iter() {{ m_{}(&x, &format!(\"{{}}#{{}}\", pre, id), o); }}", snake(list)));
        self.w("}");
        for i in &d.inners {
            self.mitem(&i.name, &i.def);
        }
    }
    fn mlist(&mut self, it: &str, list: &str, undefiable: bool) {
        let f = self.o.name(list);
        self.w(&format!("let p = format!(\"{{}}.{}\", pre);", list));
        if undefiable {
            self.w(&format!("let l: Option<MListConst<acc::{}MItem>> = {}.{}();", camel(list), it, f));
            self.w(&format!("match l {{ Some(l) => l_{}(&l, &p, o), None => o.push_str(&format!(\"{{}} undefined\\n\", p)) }}", snake(list)));
        } else {
            self.w(&format!("let l: MListConst<acc::{}MItem> = {}.{}(); l_{}(&l, &p, o);", camel(list), it, f, snake(list)));
        }
    }
    fn show(&mut self) {
        let s = self.s;
        for m in &s.mems {
            match m {
                RMem::Param(_) => {}
                RMem::Table(n, d, _) => {
                    self.citem(n, d);
                    self.w(&format!("impl Sh for acc::{}CItem {{ fn sh(&self) -> String {{ let mut r = String::new(); let (it, o, pre) = (self, &mut r, \"\");", camel(n)));
                    self.params(&d.params, "it");
                    self.w("r.replace('\\n', \";\") } }");
                }
                RMem::CList(n, d, _) => self.citem(n, d),
                RMem::MList(n, d, _, _) => self.mitem(n, d),
            }
        }
        self.w("fn show(r: &acc::RootIntf, o: &mut String) { let pre = \"\";");
        for m in &s.mems {
            match m {
                RMem::Param(p) => self.params(std::slice::from_ref(p), "r"),
                RMem::Table(n, _, items) => self.table(n, items),
                RMem::CList(n, _, _) => self.clist("r", n),
                RMem::MList(n, _, u, _) => self.mlist("r", n, *u),
            }
        }
        self.w("}");
    }
    fn table(&mut self, n: &str, items: &[(String, CItem)]) {
        let id = format!("acc::{}TableID", camel(n));
        self.w(&format!("let t: CTableConst<acc::{}Table> = r.{}(); put(o, \"\", \"{} len=\", &{}::len());", camel(n), snake(n), n, id));
        self.w(&format!("put(o, \"\", \"{} ids=\", &{}::metadata().len());", n, id));
        self.w(&format!("put(o, \"\", \"{} unknown=\", &{}::from_str(\"no such id\").is_none());", n, id));
        for (k, _) in items {
            self.w(&format!("{{ let pre = \"{}[{}]\"; let x: CItemConst<acc::{}CItem> = t.{}(); c_{}(&x, pre, o);", n, k, camel(n), self.o.key(n, k), snake(n)));
            self.w(&format!("let i: Option<{}> = {}::from_str(\"{}\"); let num: usize = i.unwrap().to_num(); let i = {}::from_num(num);", id, id, k, id));
            self.w(&format!("put(o, pre, \" num=\", &(num < {}::len() && {}::metadata()[num] == \"{}\")); put(o, pre, \" str=\", &i.to_str().to_string());", id, id, k));
            self.w(&format!("put(o, pre, \" same=\", &({}.to_num() == num)); let y = t.get_by_id(i); put(o, pre, \" by id=\", &*y); }}", self.o.variant(n, k)));
        }
    }
    // -------------------------------------------------------------- operations
    fn ref_code(&self, d: &ListDef, list: &str, t: &str, v: &RVal) -> String {
        if d.is_enum {
            match v {
                RVal::Id(k) => format!("it.set_enum(acc::{}Kind::{}({}));", camel(list), camel(t), self.o.variant(t, k)),
                _ => String::new(),
            }
        } else {
            let vt = d.refs.iter().find(|r| r.table == t).map(|r| r.vt).unwrap_or(Vt::NORMAL);
            let e = match v {
                RVal::Id(k) => wrapped(vt, 0, &self.o.variant(t, k)),
                RVal::Null => wrapped(vt, 1, ""),
                RVal::Undef => wrapped(vt, 2, ""),
            };
            format!("it.set_ref_{}({});", self.o.ref_name(d, t), e)
        }
    }
    fn set_code(&self, it: &str, p: &PDef, v: &Val) -> String {
        format!("let v: {} = {}; {}.set_{}(v);", wrap(rs(p.ty), p.vt), wrapped(p.vt, state(v), &lit(v)), it, self.o.name(&p.name))
    }
    fn mut_code(&self, it: &str, p: &PDef, v: &Val) -> String {
        let t = wrap(&format!("&mut {}", rs(p.ty)), p.vt);
        let w = wrapper(p.vt);
        let set = if w.is_empty() { format!("*m = {};", lit(v)) } else { format!("if let {}::Val(m) = m {{ *m = {}; }}", w, lit(v)) };
        format!("let m: {} = {}.{}_mut(); {}", t, it, self.o.name(&p.name), set)
    }
    fn op(&mut self, k: usize, op: &Op) {
        let s = self.s;
        let open = |e: &Emit, l: &LPath| {
            let mut c = format!("let mut l = r.{}_mut(); ", e.o.name(&l.root));
            for (id, n) in &l.steps {
                let _ = write!(c, "let mut it = l.get_mut({}).unwrap(); let mut l = it.{}_mut(); ", id, e.o.name(n));
            }
            c
        };
        let item = |e: &Emit, l: &LPath, id: u64| format!("{}let mut it = l.get_mut({}).unwrap(); ", open(e, l), id);
        let last = |l: &LPath| l.steps.last().map(|x| x.1.clone()).unwrap_or_else(|| l.root.clone());
        let done = |e: String| format!("let b: bool = {}; put(o, \"op {}\", \" \", &b);", e, k);
        let c = match op {
            Op::SetRoot(n, _, v) => self.set_code("r", s.param(n).unwrap(), v),
            Op::MutRoot(n, _, v) => self.mut_code("r", s.param(n).unwrap(), v),
            Op::Touch(l) => open(self, l),
            Op::Insert { list, first, refs } => {
                let d = s.list_def(list).unwrap();
                let f = if *first { "insert_first" } else if k % 2 == 0 { "insert" } else { "insert_last" };
                let mut c = format!("{}let mut it = l.{}(); ", open(self, list), f);
                for (t, v) in refs {
                    c.push_str(&self.ref_code(d, &last(list), t, v));
                }
                c
            }
            Op::Remove(l, i) => open(self, l) + &done(format!("l.remove({})", i)),
            Op::RemoveFirst(l) => open(self, l) + &done("l.remove_first()".into()),
            Op::RemoveLast(l) => open(self, l) + &done("l.remove_last()".into()),
            Op::MoveFirst(l, i) => open(self, l) + &done(format!("l.move_to_first({})", i)),
            Op::MoveLast(l, i) => open(self, l) + &done(format!("l.move_to_last({})", i)),
            Op::MovePrev(l, a, i) => open(self, l) + &done(format!("l.move_to_prev({}, {})", a, i)),
            Op::MoveNext(l, a, i) => open(self, l) + &done(format!("l.move_to_next({}, {})", a, i)),
            Op::SetItem(l, i, n, _, v) => {
                let p = s.list_def(l).unwrap().params.iter().find(|p| &p.name == n).unwrap();
                item(self, l, *i) + &self.set_code("it", p, v)
            }
            Op::MutItem(l, i, n, _, v) => {
                let p = s.list_def(l).unwrap().params.iter().find(|p| &p.name == n).unwrap();
                item(self, l, *i) + &self.mut_code("it", p, v)
            }
            Op::SetRef(l, i, t, v) => item(self, l, *i) + &self.ref_code(s.list_def(l).unwrap(), &last(l), t, v),
            Op::SetEnum(l, i, t, v) => item(self, l, *i) + &self.ref_code(s.list_def(l).unwrap(), &last(l), t, &RVal::Id(v.clone())),
            Op::InitRoot(..) | Op::InitItem(..) => String::new(),
        };
        self.w(&format!("{{ {} }}", c));
    }
}

// ------------------------------------------------------------------ what it has to print

struct Want<'a> {
    s: &'a Schema,
    out: String,
}

impl<'a> Want<'a> {
    fn put(&mut self, pre: &str, n: &str, v: &str) {
        let _ = write!(self.out, "{}{}{}\n", pre, n, v);
    }
    fn params(&mut self, ps: &[PDef], pre: &str, vals: &std::collections::BTreeMap<String, Val>) {
        for p in ps {
            self.put(pre, &format!(".{}=", p.name), &vals.get(&p.name).unwrap_or(&p.def).text());
            self.put(pre, &format!(".{} default=", p.name), &p.def.text());
        }
    }
    fn shallow(&self, t: &str, id: &str) -> String {
        let mut w = Want { s: self.s, out: String::new() };
        if let Some(RMem::Table(_, d, items)) = self.s.get(t) {
            if let Some((_, it)) = items.iter().find(|x| x.0 == id) {
                w.params(&d.params, "", &it.vals);
            }
        }
        w.out.replace('\n', ";")
    }
    fn refs(&mut self, d: &ListDef, pre: &str, refs: &std::collections::BTreeMap<String, RVal>) {
        if d.is_enum {
            for (t, v) in refs {
                if let RVal::Id(k) = v {
                    let x = self.shallow(t, k);
                    self.put(pre, &format!(".enum {} ", t), &x);
                    self.put(pre, ".enum list=", &format!("{:?}", t));
                    self.put(pre, ".enum id=", &format!("{:?}", k));
                }
            }
        } else {
            for r in &d.refs {
                let (a, b) = match refs.get(&r.table).unwrap_or(&r.def) {
                    RVal::Null => ("null".to_string(), "null".to_string()),
                    RVal::Undef => ("undefined".to_string(), "undefined".to_string()),
                    RVal::Id(k) => (format!("{:?}", k), self.shallow(&r.table, k)),
                };
                self.put(pre, &format!(".id of {}=", r.table), &a);
                self.put(pre, &format!(".item of {}=", r.table), &b);
            }
        }
    }
    fn citem(&mut self, d: &ListDef, it: &CItem, pre: &str) {
        self.params(&d.params, pre, &it.vals);
        self.refs(d, pre, &it.refs);
        let none = vec![];
        for i in &d.inners {
            self.clist(&i.name, &i.def, it.inners.get(&i.name).unwrap_or(&none), pre);
        }
    }
    fn clist(&mut self, n: &str, d: &ListDef, l: &[CItem], pre: &str) {
        self.put(pre, &format!(".{} len=", n), &format!("u{}", l.len()));
        for (k, x) in l.iter().enumerate() {
            self.citem(d, x, &format!("{}.{}[{}]", pre, n, k));
        }
    }
    fn mlist(&mut self, d: &ListDef, l: &MList, pre: &str) {
        self.put(pre, " len=", &format!("u{}", l.items.len()));
        self.put(pre, " next=", &format!("u{}", l.next_id));
        for (id, it) in &l.items {
            let p = format!("{}#{}", pre, id);
            self.params(&d.params, &p, &it.vals);
            self.refs(d, &p, &it.refs);
            for i in &d.inners {
                let q = format!("{}.{}", p, i.name);
                match it.inners.get(&i.name) {
                    None => self.mlist(&i.def, &MList::default(), &q),
                    Some(None) => self.put(&q, " undefined", ""),
                    Some(Some(l)) => self.mlist(&i.def, l, &q),
                }
            }
        }
    }
    fn doc(&mut self, doc: &Doc) {
        let s = self.s;
        for m in &s.mems {
            match m {
                RMem::Param(p) => self.params(std::slice::from_ref(p), "", &doc.vals),
                RMem::Table(n, d, items) => {
                    self.put("", &format!("{} len=", n), &format!("u{}", items.len()));
                    self.put("", &format!("{} ids=", n), &format!("u{}", items.len()));
                    self.put("", &format!("{} unknown=", n), "true");
                    for (k, it) in items {
                        let pre = format!("{}[{}]", n, k);
                        self.citem(d, it, &pre);
                        self.put(&pre, " num=", "true");
                        self.put(&pre, " str=", &format!("{:?}", k));
                        self.put(&pre, " same=", "true");
                        let x = self.shallow(n, k);
                        self.put(&pre, " by id=", &x);
                    }
                }
                RMem::CList(n, d, l) => self.clist(n, d, l, ""),
                RMem::MList(n, d, _, _) => match doc.lists.get(n) {
                    Some(Some(l)) => self.mlist(d, l, &format!(".{}", n)),
                    _ => self.put("", &format!(".{} undefined", n), ""),
                },
            }
        }
    }
}

struct Unit {
    s: Schema,
    doc: Doc,
    want: String,
    text: String,
    ops: Vec<Op>,
}

fn tools() -> Vec<String> {
    let p = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let t = std::fs::read_to_string(Path::new(&p).join("harness/target-intf/deps.txt")).unwrap_or_default();
    let v: Vec<String> = t.lines().map(|x| x.to_string()).collect();
    if v.len() != 3 {
        panic!("HARNESS: the list of libraries for generated programs is missing");
    }
    v
}

/// (exit code, output); None: it did not end in time or was killed
fn run(c: &mut Command, dir: &Path, limit: u64) -> Option<(i32, String)> {
    let out = dir.join("output.txt");
    let f = std::fs::File::create(&out).expect(": scratch");
    let mut child = c.stdin(Stdio::null()).stdout(f.try_clone().expect(": scratch")).stderr(f).spawn().expect("HARNESS: starting a program");
    let t0 = Instant::now();
    loop {
        if let Some(st) = child.try_wait().expect("HARNESS: wait") {
            let t = String::from_utf8_lossy(&std::fs::read(&out).expect(": scratch")).to_string();
            return st.code().map(|c| (c, t));
        }
        if t0.elapsed() > Duration::from_secs(limit) {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(4));
    }
}

fn compile(tools: &[String], dir: &Path, from: &str, exe: &Path) -> Option<(i32, String)> {
    let mut c = Command::new("rustc");
    c.current_dir(dir).args(&["--edition", "2018", "--crate-name", "program", "--cap-lints", "allow", "-C", "debuginfo=0", "-C", "codegen-units=2"]);
    c.arg("-L").arg(format!("dependency={}", tools[0])).arg("--extern").arg(format!("dochy={}", tools[1])).arg("--extern").arg(format!("dochy_diff={}", tools[2]));
    c.arg(from).arg("-o").arg(exe);
    run(&mut c, dir, 150)
}

fn programs(g: &mut Gen, cx: &mut Cx) -> Res<()> {
    let tools = tools();
    let dir = cx.dir();
    let mut units: Vec<Unit> = vec![];
    let mut main = String::from(PRELUDE);
    let mut calls = String::new();
    let mut changes = 0;
    let mut lists = 0;
    let mut err = None;
    g.many(1, 10, 8, |g, k| {
        if err.is_some() {
            return;
        }
        let (s, o) = gen_case(g);
        let text = source_text(&s, &o);
        let src = dir.join(format!("s{}", k));
        write(&src, &text);
        let acc = match generate(&src) {
            Ok(a) => a,
            Err(e) => {
                err = Some(e);
                return;
            }
        };
        std::fs::write(dir.join(format!("a{}.rs", k)), acc).expect(": scratch");
        let mut doc = s.initial();
        let mut ops: Vec<Op> = vec![];
        let oo = OpOpts { invalid: false, max_items: 8, ..OpOpts::default() };
        let mut results = String::new();
        g.many(0, 24, 10, |g, _| {
            if let Some(op) = gen_op(g, &s, &doc, &oo) {
                if matches!(op, Op::InitRoot(..) | Op::InitItem(..)) {
                    return;
                }
                let b = apply_model(&s, &mut doc, &op);
                if op.kind() == "remove" || op.kind() == "move" {
                    let _ = write!(results, "op {} {}\n", ops.len(), b);
                }
                ops.push(op);
            }
        });
        changes += ops.len();
        lists += s.mems.iter().filter(|m| !matches!(m, RMem::Param(_))).count();
        let mut w = Want { s: &s, out: String::new() };
        w.doc(&s.initial());
        w.out.push_str(&results);
        w.doc(&doc);
        let want = w.out;
        let mut e = Emit { s: &s, o: &o, code: String::new(), n: 0 };
        e.w(&format!("mod m{} {{ pub mod acc {{ include!({:?}); }}", k, dir.join(format!("a{}.rs", k))));
        e.w("use super::*; use dochy::core::intf::*; use dochy::core::structs::*;");
        e.show();
        e.w("pub fn run(o: &mut String) {");
        e.w(&format!("let src = {:?}; let root: RootObject = dochy::core::json_dir_to_root(src, true).unwrap();", src));
        e.w("let before = dochy::core::json_dir_to_root(src, true).unwrap();");
        e.w("let mut holder = acc::RootIntf::new(root); show(&holder, o); { let r = &mut holder;");
        for (i, op) in ops.iter().enumerate() {
            e.op(i, op);
        }
        e.w("} show(&holder, o);");
        e.w("let d = dochy_diff::get_diff(&before, holder.root_obj_ref()).unwrap();");
        e.w("let after: RootObject = holder.deconstruct(); let d2 = dochy_diff::get_diff(&before, &after).unwrap();");
        e.w("o.push_str(\"difference\"); for b in &d { o.push_str(&format!(\" {}\", b)); } if d != d2 { o.push_str(\" changed\"); } o.push('\\n');");
        e.w("} }");
        main.push_str(&e.code);
        let _ = write!(
            calls,
            "let h = std::thread::spawn(|| {{ let mut o = String::new(); m{0}::run(&mut o); o }}); match h.join() {{ Ok(o) => println!(\"=== {0}\\n{{}}\", o), Err(_) => println!(\"=== {0}\\npanicked\") }}\n",
            k
        );
        if !o.mems.is_empty() || !o.refs.is_empty() || !o.keys.is_empty() {
            cx.label("names marked as old");
        }
        for op in &ops {
            cx.count(op.kind(), 1);
        }
        units.push(Unit { s, doc, want, text, ops });
    });
    if let Some(e) = err {
        return Err(e);
    }
    let _ = write!(main, "fn main() {{\n{}}}\n", calls);
    std::fs::write(dir.join("main.rs"), &main).expect(": scratch");
    cx.count("sources", units.len() as u64);
    cx.nontrivial_if(changes >= 3 && lists > 0);
    let show = |k: usize| format!("{}\noperations: {}", units[k].text, ops_text(&units[k].ops));
    cx.sample(|| show(0));
    let exe = dir.join("program");
    match compile(&tools, &dir, "main.rs", &exe) {
        Some((0, _)) => {}
        Some((1, t)) if t.contains("error") => {
            // is it the generated code, or can nothing be compiled here?
            std::fs::write(dir.join("control.rs"), format!("{}fn main() {{ let _ = dochy_diff::get_diff; }}\n", PRELUDE)).expect(": scratch");
            match compile(&tools, &dir, "control.rs", &dir.join("control")) {
                Some((0, _)) => {}
                r => panic!("HARNESS: rustc does not work {:?}", r),
            }
            let at = t.find("error").unwrap();
            let msg: String = t[at..].lines().take(12).collect::<Vec<_>>().join("\n");
            vio!("the program with generated accessors does not compile: {}\n{}", msg, units.iter().map(|u| u.text.clone()).collect::<Vec<_>>().join("\n"));
        }
        r => panic!("HARNESS: rustc gave no answer {:?}", r),
    }
    let t = match run(&mut Command::new(&exe), &dir, 60) {
        Some((0, t)) => t,
        r => vio!("the program with generated accessors did not run to its end: {:?}", r.map(|(c, t)| (c, clip(&t)))),
    };
    for (k, u) in units.iter().enumerate() {
        let head = format!("=== {}\n", k);
        let part = match t.find(&head) {
            Some(p) => &t[p + head.len()..],
            None => vio!("HARNESS: no output of program part {}", k),
        };
        let part = &part[..part.find("\n=== ").map(|x| x + 1).unwrap_or(part.len())];
        if part.trim() == "panicked" {
            vio!("an accessor panicked: {}\n{}", t.lines().find(|l| l.contains("panicked at")).unwrap_or(""), show(k));
        }
        let at = match part.rfind("difference") {
            Some(p) => p,
            None => vio!("HARNESS: output ends early: {}", clip(part)),
        };
        ensure!(part[..at] == u.want[..], "accessors: {}\n{}", diff_text(&u.want, &part[..at]), show(k));
        let line = part[at..].lines().next().unwrap_or("");
        ensure!(!line.ends_with("changed"), "taking the document out of the accessors changed it\n{}", show(k));
        let bytes: Vec<u8> = line.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
        let mut root = dochy_core::json_dir_to_root(dir.join(format!("s{}", k)), true).or_vio("loading a valid source")?;
        dochy_diff::apply_diff(&mut root, &mut &bytes[..]).or_vio("applying the difference the program made")?;
        if let Err(Fail::Violation(m)) = check_doc(&u.s, &u.doc, &root, "the document changed through accessors") {
            vio!("{}\n{}", m, show(k));
        }
    }
    Ok(())
}
