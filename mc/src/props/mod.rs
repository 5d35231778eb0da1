use crate::engine::{Space, Tier};

pub mod blocks;
pub mod configs;
pub mod deser;
pub mod faults;
pub mod history;
pub mod inputs;
pub mod iters;
pub mod numbers;
pub mod raw;
pub mod scalars;
pub mod strings;
pub mod structure;
pub mod wide;
pub mod writes;

pub struct Probe {
    pub args: &'static [&'static str],
    pub what: &'static str,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub technique: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub spaces: fn(Tier) -> Vec<Space>,
    pub probes: &'static [Probe],
}

pub fn all() -> Vec<&'static Prop> {
    vec![&raw::C01, &raw::C02, &structure::C03, &scalars::C04, &structure::C05, &structure::C06, &history::C07, &history::C08, &history::C09, &history::C10, &history::C11, &deser::C12, &numbers::C13, &strings::C14, &iters::C15, &faults::C16, &history::C17, &configs::C18, &structure::C19, &blocks::C20]
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

pub fn probe(args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("nest") => raw::probe_nest(&args[1..]),
        _ => 2,
    }
}
