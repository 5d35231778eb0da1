//! Documents with so many values that their ids, lengths and indexes do not
//! fit in 8 or 16 bits: C10 ids, C11 snapshots, C17 clones.

use std::collections::HashSet;

use nondestructive::yaml::{self, AnyMut, Document, Id, Separator};

use crate::engine::*;
use crate::view::*;

/// Around every power of two at which a narrow integer would overflow.
const SIZES: &[usize] = &[
    1, 2, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 1000, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536,
    70_000,
];

const KINDS: &[&str] = &["block mapping", "block sequence", "inline sequence", "inline mapping", "sequence of mappings"];

/// A way to get another document which is the same.
pub type Copy = fn(&Document) -> Result<Document, String>;

fn render(kind: usize, values: &[String]) -> String {
    let mut s = String::new();
    for (i, v) in values.iter().enumerate() {
        if i > 0 && (kind == 2 || kind == 3) {
            s.push_str(", ");
        }
        s.push_str(&match kind {
            0 => format!("k{i}: {v}\n"),
            1 => format!("- {v}\n"),
            2 => v.clone(),
            3 => format!("k{i}: {v}"),
            _ => format!("- a: {v}\n"),
        });
    }
    match kind {
        2 => format!("[{s}]\n"),
        3 => format!("{{{s}}}\n"),
        _ => s,
    }
}

/// The ids of the values.
fn ids(doc: &Document, kind: usize) -> Option<Vec<Id>> {
    let root = doc.as_ref();
    Some(match kind {
        0 | 3 => root.as_mapping()?.iter().map(|(_, v)| v.id()).collect(),
        4 => root.as_sequence()?.iter().map(|v| Some(v.as_mapping()?.get("a")?.id())).collect::<Option<_>>()?,
        _ => root.as_sequence()?.iter().map(|v| v.id()).collect(),
    })
}

/// Every id stands for the value it is expected to.
fn stand(doc: &Document, ids: &[Id], values: &[String], log: &str) -> Res {
    for (i, (id, want)) in ids.iter().zip(values).enumerate() {
        let v = doc.value(*id);
        let got = v.to_string();
        if got != *want || v.id() != *id {
            return fail("an id stands for another value", log, format!("{i}: {got}, expected {want}"));
        }
    }
    Ok(())
}

/// Add an entry, and get its id.
fn add(doc: &mut Document, key: &str) -> Option<Id> {
    match doc.as_mut().into_any_mut() {
        AnyMut::Mapping(mut m) => {
            let mut v = m.insert(key, Separator::Auto);
            v.set_string("new");
            Some(v.into_ref().id())
        }
        AnyMut::Sequence(mut s) => {
            let mut v = s.push(Separator::Auto);
            v.set_string("new");
            Some(v.into_ref().id())
        }
        _ => None,
    }
}

fn run(c: &mut Case<'_>, copy: Option<Copy>) -> Res {
    let kind = c.pick(KINDS.len());
    let n = c.of(SIZES);
    let at = [0, n / 2, n - 1][c.pick(n.min(3))];
    let mut log = format!("{} of {n}", KINDS[kind]);
    note(|s| s.clone_from(&log));
    c.nontrivial(log.as_bytes());
    let mut values: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
    let text = render(kind, &values);
    let mut doc = match yaml::from_slice(&text) {
        Ok(doc) => doc,
        Err(e) => return fail("a document is rejected", log, e.to_string()),
    };
    let Some(mut known) = ids(&doc, kind) else {
        return fail("a value cannot be reached", log, "");
    };
    if known.len() != n || known.iter().collect::<HashSet<_>>().len() != n {
        return fail("two values have the same id", log, format!("{} values", known.len()));
    }
    stand(&doc, &known, &values, &log)?;

    // One value is set.
    log.push_str(&format!("; set {at}"));
    note(|s| s.clone_from(&log));
    doc.value_mut(known[at]).set_u32(7);
    values[at] = "7".into();
    c.transition();
    stand(&doc, &known, &values, &log)?;
    let text = render(kind, &values);
    if written(&doc) != text.as_bytes() {
        return fail("an edit by id changes something else", log, "");
    }

    // Another document which is the same, and goes its own way.
    if let Some(copy) = copy {
        log.push_str("; copy");
        note(|s| s.clone_from(&log));
        let mut other = match copy(&doc) {
            Ok(other) => other,
            Err(e) => return fail("a document is not restored", log, e),
        };
        if written(&other) != text.as_bytes() {
            return fail("a copy is written differently", log, "");
        }
        if ids(&other, kind).as_ref() != Some(&known) {
            return fail("a copy has other ids", log, "");
        }
        stand(&other, &known, &values, &log)?;
        let last = n - 1 - at;
        other.value_mut(known[last]).set_u32(8);
        stand(&doc, &known, &values, &log)?;
        let mine = std::mem::replace(&mut values[last], "8".into());
        stand(&other, &known, &values, &log)?;
        if written(&other) != render(kind, &values).as_bytes() || written(&doc) != text.as_bytes() {
            return fail("an edit of a copy changes something else", log, "");
        }
        values[last] = mine;
        // The rest of the history is that of the copy.
        other.value_mut(known[last]).set_string(&values[last]);
        if values[last] == "7" {
            other.value_mut(known[last]).set_u32(7);
        }
        stand(&doc, &known, &values, &log)?;
        doc = other;
    }

    // An entry is added, removed, and added again.
    for key in ["n", "m"] {
        log.push_str("; add");
        note(|s| s.clone_from(&log));
        let Some(id) = add(&mut doc, key) else {
            return fail("not a collection", log, "");
        };
        c.transition();
        if known.contains(&id) {
            return fail("two values have the same id", log, id.to_string());
        }
        known.push(id);
        values.push("new".into());
        stand(&doc, &known, &values, &log)?;
        if key == "n" {
            log.push_str(&format!("; remove {at}"));
            note(|s| s.clone_from(&log));
            let done = match doc.as_mut().into_any_mut() {
                AnyMut::Mapping(mut m) => m.remove(&format!("k{at}")),
                AnyMut::Sequence(mut s) => s.remove(at),
                _ => false,
            };
            c.transition();
            if !done {
                return fail("an entry is not removed", log, "");
            }
            known.remove(at);
            values.remove(at);
            stand(&doc, &known, &values, &log)?;
        }
    }
    let mut now = match ids(&doc, if kind == 4 { 1 } else { kind }) {
        Some(now) => now,
        None => return fail("a value cannot be reached", log, ""),
    };
    if kind == 4 {
        // The values are in the entries, but for those which were added.
        for (id, known) in now.iter_mut().zip(&known) {
            *id = doc.value(*id).as_mapping().and_then(|m| m.get("a").map(|v| v.id())).unwrap_or(*id);
            if id != known {
                break;
            }
        }
    }
    if now != known {
        return fail("the id of a value changed", log, "");
    }
    c.stats.validated += 1;
    c.state(log.as_bytes());
    c.outcome("many values");
    c.sample(|| log.clone());
    Ok(())
}

pub fn space(copy: Option<Copy>) -> Space {
    Space::new(format!("many values, up to {}", SIZES[SIZES.len() - 1]), 1, move |c| run(c, copy))
}

/// Where something may overflow.
fn around(n: usize) -> Vec<usize> {
    let mut at: Vec<usize> = SIZES.iter().flat_map(|&s| [s - 1, s]).chain([n / 2, n - 1, n, n + 1, 2 * n]).collect();
    at.sort_unstable();
    at.dedup();
    at
}

/// All ways to look at a collection of many entries.
fn look(c: &mut Case<'_>) -> Res {
    let kind = c.pick(4);
    let n = c.of(SIZES);
    let log = format!("{} of {n}", KINDS[kind]);
    note(|s| s.clone_from(&log));
    c.nontrivial(log.as_bytes());
    let values: Vec<String> = (0..n).map(|i| format!("v{i}")).collect();
    let text = render(kind, &values);
    let mut doc = match yaml::from_slice(&text) {
        Ok(doc) => doc,
        Err(e) => return fail("a document is rejected", log, e.to_string()),
    };
    let bad = |what: &str, got: String| fail("a collection of many entries differs", &log, format!("{what}: {got}"));
    macro_rules! look {
        ($it:expr, $value:expr) => {{
            let it = || $it;
            if it().len() != n || it().size_hint() != (n, Some(n)) || it().count() != n {
                return bad("the length of an iterator", format!("{:?}", it().size_hint()));
            }
            let value = $value;
            for (i, v) in it().enumerate() {
                if value(v) != (i, Some(&*values[i])) {
                    return bad("from the front", i.to_string());
                }
            }
            for (i, v) in it().rev().enumerate() {
                if value(v) != (n - 1 - i, Some(&*values[n - 1 - i])) {
                    return bad("from the back", i.to_string());
                }
            }
            for k in around(n) {
                let (mut a, mut b) = (it(), it());
                let (x, y) = (a.nth(k), b.nth_back(k));
                if x.is_some() != (k < n) || y.is_some() != (k < n) {
                    return bad("nth", k.to_string());
                }
                let left = n.saturating_sub(k).saturating_sub(1);
                if a.len() != left || b.len() != left {
                    return bad("the length after nth", k.to_string());
                }
                if let (Some(x), Some(y)) = (x, y) {
                    let (x, y) = (value(x), value(y));
                    if x != (k, Some(&*values[k])) || y != (n - 1 - k, Some(&*values[n - 1 - k])) {
                        return bad("nth", format!("{k}: {x:?} {y:?}"));
                    }
                }
            }
        }};
    }
    let index = |s: &str| s.get(1..).and_then(|i| i.parse().ok()).unwrap_or(usize::MAX);
    let root = doc.as_ref();
    if let Some(m) = root.as_mapping() {
        if m.len() != n || m.is_empty() {
            return bad("the length of a mapping", m.len().to_string());
        }
        look!(m.iter(), |(k, v): (&bstr::BStr, yaml::Value<'_>)| {
            (std::str::from_utf8(k).map_or(usize::MAX, index), doc.value(v.id()).as_str())
        });
        for k in around(n) {
            let got = m.get(&format!("k{k}"));
            if got.as_ref().and_then(|v| v.as_str()) != values.get(k).map(|v| &**v) {
                return bad("get", k.to_string());
            }
        }
    } else if let Some(s) = root.as_sequence() {
        if s.len() != n || s.is_empty() {
            return bad("the length of a sequence", s.len().to_string());
        }
        look!(s.iter(), |v: yaml::Value<'_>| {
            let s = doc.value(v.id()).as_str();
            (s.map_or(usize::MAX, index), s)
        });
        for k in around(n) {
            if s.get(k).as_ref().and_then(|v| v.as_str()) != values.get(k).map(|v| &**v) {
                return bad("get", k.to_string());
            }
        }
    } else {
        return bad("not a collection", root.to_string());
    }
    for k in around(n) {
        let want = values.get(k).map(|v| &**v);
        let ok = match doc.as_mut().into_any_mut() {
            AnyMut::Mapping(mut m) => m.get_mut(&format!("k{k}")).map(|v| v.into_ref()).as_ref().and_then(|v| v.as_str()) == want,
            AnyMut::Sequence(mut s) => s.get_mut(k).map(|v| v.into_ref()).as_ref().and_then(|v| v.as_str()) == want,
            _ => false,
        };
        let ok = ok
            && match doc.as_mut().into_any_mut() {
                AnyMut::Mapping(m) => m.get_into_mut(&format!("k{k}")).map(|v| v.into_ref()).as_ref().and_then(|v| v.as_str()) == want,
                AnyMut::Sequence(s) => s.get_into_mut(k).map(|v| v.into_ref()).as_ref().and_then(|v| v.as_str()) == want,
                _ => false,
            };
        if !ok {
            return bad("get_mut", k.to_string());
        }
    }
    if written(&doc) != text.as_bytes() {
        return fail("looking at a document changes it", log, "");
    }
    c.stats.validated += 1;
    c.state(log.as_bytes());
    c.outcome("many entries");
    c.sample(|| log.clone());
    Ok(())
}

pub fn looking() -> Space {
    Space::new(format!("many entries, up to {}", SIZES[SIZES.len() - 1]), 1, look)
}
