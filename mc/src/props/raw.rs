//! C01 lossless round trip and C02 totality, over raw input bytes.

use nondestructive::yaml::{self, Any, Value};

use super::{inputs, Probe, Prop};
use crate::engine::*;
use crate::view::*;

pub static C01: Prop = Prop {
    id: "C01",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of inputs against the real parser and writer",
    rule: "every byte string, token string and corpus edit within the bounds of each space; non-trivial: the parser accepts it, so that there is output to compare",
    assumptions: &[],
    spaces: spaces_c01,
    probes: &[],
};

pub static C02: Prop = Prop {
    id: "C02",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of inputs against the real parser, with a watchdog, an allocation limit and crash isolation",
    rule: "every byte string, token string and corpus edit within the bounds of each space; non-trivial: the input is rejected, or holds a collection, a quote or a block scalar",
    assumptions: &["A case using more than 6 s of CPU does not terminate", "256 MiB for one allocation is out of proportion to inputs below 1 MiB"],
    spaces: spaces_c02,
    probes: &[Probe {
        args: &["nest", "flow", "100000"],
        what: "parsing 100000 nested flow sequences",
    }],
};

fn spaces_c01(tier: Tier) -> Vec<Space> {
    inputs::all(tier)
        .into_iter()
        .map(|i| {
            let gen = i.gen;
            Space::new(i.name, i.max_dev, move |c| {
                let v = gen(c);
                round_trip(c, &v)
            })
        })
        .collect()
}

fn round_trip(c: &mut Case<'_>, v: &[u8]) -> Res {
    note(|n| *n = show(v));
    let Ok(doc) = yaml::from_slice(v) else {
        c.outcome("rejected");
        return Ok(());
    };
    c.nontrivial(v);
    c.sample(|| show(v));
    let w = written(&doc);
    if w != v {
        return fail(
            "write_to differs from the input",
            show(v),
            format!("written: {}", show(&w)),
        );
    }
    if let Ok(s) = std::str::from_utf8(v) {
        c.outcome("accepted, UTF-8");
        let d = doc.to_string();
        if d != s {
            return fail(
                "Display differs from the input",
                show(v),
                format!("displayed: {}", show(d.as_bytes())),
            );
        }
    } else {
        c.outcome("accepted, not UTF-8");
    }
    Ok(())
}

fn spaces_c02(tier: Tier) -> Vec<Space> {
    inputs::all(tier)
        .into_iter()
        .map(|i| {
            let gen = i.gen;
            Space::new(i.name, i.max_dev, move |c| {
                let v = gen(c);
                total(c, &v)
            })
        })
        .collect()
}

/// Call every read accessor on every value.
fn visit(v: &Value<'_>, n: &mut usize) {
    *n += 1;
    let _ = (v.as_bool(), v.as_str(), v.as_bstr(), v.id());
    let _ = (v.as_u8(), v.as_i128(), v.as_f64(), v.as_f32());
    match v.as_any() {
        Any::Mapping(m) => {
            let len = m.len();
            let mut k = 0;
            for (key, v) in m.iter() {
                if let Ok(key) = std::str::from_utf8(key) {
                    let _ = m.get(key);
                }
                visit(&v, n);
                k += 1;
            }
            assert_eq!(k, len);
        }
        Any::Sequence(s) => {
            let _ = (s.first().is_some(), s.last().is_some());
            for i in 0..s.len() {
                visit(&s.get(i).expect("item"), n);
            }
        }
        Any::Number(m) => {
            let _ = (m.as_raw(), m.as_u64(), m.as_f64());
        }
        Any::String(s) => {
            let _ = s.as_raw();
        }
        _ => {}
    }
}

fn total(c: &mut Case<'_>, v: &[u8]) -> Res {
    note(|n| *n = show(v));
    match yaml::from_slice(v) {
        Ok(doc) => {
            let mut n = 0;
            visit(&doc.as_ref(), &mut n);
            let mut len = 0usize;
            len += doc.to_string().len();
            len += written(&doc).len();
            if v.len() < 64 {
                len += format!("{:?}{:?}{:?}", doc, doc.as_ref(), doc.as_ref().as_any()).len();
            }
            c.count("bytes produced", len as u64);
            c.outcome(doc_kind(&doc.as_ref()));
            if n > 1 || v.iter().any(|b| b"[{\"'|>".contains(b)) {
                c.nontrivial(v);
                c.sample(|| format!("{} accepted with {n} values", show(v)));
            }
            // No more values than bytes, plus the empty ones at the end.
            if n > 2 * v.len() + 2 {
                return fail(
                    "more values than the input can hold",
                    show(v),
                    format!("{n} values from {} bytes", v.len()),
                );
            }
        }
        Err(e) => {
            c.nontrivial(v);
            c.sample(|| format!("{} rejected: {e}", show(v)));
            let s = e.span();
            if s.start > s.end || s.end > v.len() {
                return fail(
                    "the span of an error is outside of the input",
                    show(v),
                    format!("{s:?}, input length {}", v.len()),
                );
            }
            c.outcome(&format!("{:?}", e.kind()));
            let text = e.to_string();
            if !text.contains(&s.start.to_string()) || format!("{e:?}").is_empty() {
                return fail("the error is not described", show(v), text);
            }
        }
    }
    Ok(())
}

fn doc_kind(v: &Value<'_>) -> &'static str {
    match v.as_any() {
        Any::Null => "root null",
        Any::Bool(_) => "root bool",
        Any::Number(_) => "root number",
        Any::String(_) => "root string",
        Any::Mapping(_) => "root mapping",
        Any::Sequence(_) => "root sequence",
        _ => "root raw",
    }
}

/// Run in a process of its own: deep nesting.
pub fn probe_nest(args: &[String]) -> i32 {
    let n: usize = args[1].parse().expect("depth");
    let v = match args[0].as_str() {
        "flow" => "[".repeat(n) + &"]".repeat(n),
        "block" => "- ".repeat(n) + "x",
        _ => "{a: ".repeat(n) + &"}".repeat(n),
    };
    match yaml::from_slice(&v) {
        Ok(d) => {
            println!("accepted");
            i32::from(written(&d) != v.as_bytes())
        }
        Err(e) => {
            println!("rejected: {e}");
            0
        }
    }
}
