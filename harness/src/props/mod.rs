use crate::engine::CaseFn;

mod accessor;
mod archive;
mod compaction;
mod core;
mod crash;
mod damage;
mod json5;
mod large;
mod memory;
mod source;
mod version;
mod diff;
mod files;
mod history;
mod nb;
mod sizes;
mod store;

pub struct Suite {
    pub name: &'static str,
    pub run: CaseFn,
    pub quick: u64,
    pub thorough: u64,
    pub workers: u64,
    /// cases of the quick tier that are also run in the AddressSanitizer build
    pub asan: u64,
    pub deterministic: bool,
}

pub struct Prop {
    pub id: &'static str,
    pub suites: Vec<Suite>,
    /// what makes a case non-trivial
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
}

pub fn suite(name: &'static str, run: CaseFn, quick: u64, thorough: u64) -> Suite {
    Suite { name, run, quick, thorough, workers: 8, asan: 0, deterministic: true }
}

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(diff::props());
    v.extend(core::props());
    v.extend(json5::props());
    v.extend(compaction::props());
    v.extend(source::props());
    v.extend(version::props());
    v.extend(archive::props());
    v.extend(files::props());
    v.extend(history::props());
    v.extend(nb::props());
    v.extend(crash::props());
    v.extend(damage::props());
    v.extend(memory::props());
    v.extend(sizes::props());
    v.extend(accessor::props());
    v
}
