//! All ways to look at a collection or a value agree: C15.

use std::collections::VecDeque;

use nondestructive::yaml::{self, Any, AnyMut, Document, Id, Value};

use super::structure;
use super::Prop;
use crate::engine::*;
use crate::hist::{self, Kind, Model};
use crate::view::*;

pub static C15: Prop = Prop {
    id: "C15",
    level: "model_checking",
    technique: "explicit-state exploration of every sequence of iterator calls on the real iterators in lock-step with a double-ended reference queue, and exhaustive comparison of the accessors of every value of bounded-exhaustively enumerated documents and edits",
    rule: "iterators: every collection size, kind, origin and way to get an iterator, times every sequence of calls up to the depth, times every way to consume what is left; a state is what has been taken from each end; accessors: every document of the reference renderer within its bounds and every document after one edit, every value in it",
    assumptions: &["The entries of a collection are those its construction says"],
    spaces: spaces_c15,
    probes: &[],
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Call {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Finish {
    Forward,
    Backward,
    Count,
    Last,
    Fold,
    Rfold,
    Len,
}

const FINISH: &[Finish] = &[
    Finish::Forward,
    Finish::Backward,
    Finish::Count,
    Finish::Last,
    Finish::Fold,
    Finish::Rfold,
    Finish::Len,
];

type Entry = (Vec<u8>, u64, Id);

/// A collection of `n` entries, and what they are.
fn build(kind: usize, origin: usize, n: usize) -> (Document, Vec<(Vec<u8>, u64)>) {
    let map = kind < 2;
    let flow = kind % 2 == 1;
    let render = |items: &[usize]| {
        let mut s = String::new();
        for (at, i) in items.iter().enumerate() {
            let entry = match (map, flow) {
                (true, true) => format!("k{i}: {i}"),
                (false, true) => format!("{i}"),
                (true, false) => format!("k{i}: {i}\n"),
                (false, false) => format!("- {i}\n"),
            };
            if flow && at > 0 {
                s.push_str(", ");
            }
            s.push_str(&entry);
        }
        match (map, flow) {
            (true, true) => format!("{{{s}}}"),
            (false, true) => format!("[{s}]"),
            _ => s,
        }
    };
    let all: Vec<usize> = (0..n).collect();
    let key = |i: &usize| {
        let k = if map { format!("k{i}").into_bytes() } else { Vec::new() };
        (k, *i as u64)
    };
    let entries: Vec<_> = all.iter().map(key).collect();
    match origin {
        // As it was read.
        0 if n > 0 || flow => (yaml::from_slice(render(&all)).expect("a collection"), entries),
        // One more at the end was removed.
        1 => {
            let mut more = all.clone();
            more.push(n);
            let mut doc = yaml::from_slice(render(&more)).expect("a collection");
            match doc.as_mut().into_any_mut() {
                AnyMut::Mapping(mut m) => assert!(m.remove(&format!("k{n}"))),
                AnyMut::Sequence(mut s) => assert!(s.remove(n)),
                _ => unreachable!(),
            }
            (doc, entries)
        }
        // One more in the middle was removed.
        2 => {
            let mut more = all.clone();
            more.insert(n / 2, 999);
            let mut doc = yaml::from_slice(render(&more)).expect("a collection");
            match doc.as_mut().into_any_mut() {
                AnyMut::Mapping(mut m) => assert!(m.remove("k999")),
                AnyMut::Sequence(mut s) => assert!(s.remove(n / 2)),
                _ => unreachable!(),
            }
            (doc, entries)
        }
        // Built from nothing.
        _ => {
            let text = match kind {
                1 => "{}",
                3 => "[]",
                _ => "",
            };
            let mut doc = yaml::from_slice(text).expect("a document");
            if map {
                let mut m = doc.as_mut().make_mapping();
                for i in 0..n {
                    m.insert_u64(format!("k{i}"), i as u64);
                }
            } else {
                let mut s = doc.as_mut().make_sequence();
                for i in 0..n {
                    s.push_u64(i as u64);
                }
            }
            (doc, entries)
        }
    }
}

/// Drive an iterator and the reference queue.
fn drive<I>(
    c: &mut Case<'_>,
    mut it: I,
    mut queue: VecDeque<Entry>,
    depth: usize,
    seen: impl Fn(I::Item) -> Option<Entry> + Copy,
    case: &mut String,
) -> Res
where
    I: DoubleEndedIterator + ExactSizeIterator,
{
    let n = queue.len();
    let mut calls = vec![None, Some(Call::Next), Some(Call::NextBack)];
    let steps: Vec<usize> = if n > SMALL {
        vec![0, 1, 7, n / 2, n - 1, n, n + 1]
    } else {
        (0..=n + 1).collect()
    };
    for k in steps.into_iter().chain([usize::MAX]) {
        calls.push(Some(Call::Nth(k)));
        calls.push(Some(Call::NthBack(k)));
    }
    let bad = |case: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| {
        fail("an iterator differs from the collection", case, format!("{got:?}, expected {want:?}"))
    };
    let sizes = |it: &I, queue: &VecDeque<Entry>, case: &str| -> Res {
        let n = queue.len();
        if it.len() != n || it.size_hint() != (n, Some(n)) {
            return bad(case, &it.size_hint(), &n);
        }
        Ok(())
    };
    sizes(&it, &queue, case)?;
    for _ in 0..depth {
        let Some(call) = c.of(&calls) else {
            break;
        };
        case.push_str(&format!("; {call:?}"));
        note(|s| s.clone_from(case));
        if c.fresh() {
            c.transition();
        }
        let (got, want) = match call {
            Call::Next => (it.next(), queue.pop_front()),
            Call::NextBack => (it.next_back(), queue.pop_back()),
            Call::Nth(k) => {
                queue.drain(..k.min(queue.len()));
                (it.nth(k), queue.pop_front())
            }
            Call::NthBack(k) => {
                queue.truncate(queue.len().saturating_sub(k));
                (it.nth_back(k), queue.pop_back())
            }
        };
        let got = got.map(|i| seen(i).expect("a number"));
        if got != want {
            return bad(case, &got, &want);
        }
        sizes(&it, &queue, case)?;
        c.state(format!("{:?}", queue.iter().map(|e| e.1).collect::<Vec<_>>()).as_bytes());
    }
    let finish = c.of(FINISH);
    case.push_str(&format!("; {finish:?}"));
    note(|s| s.clone_from(case));
    let want: Vec<Entry> = queue.into_iter().collect();
    let seen = |i: I::Item| seen(i).expect("a number");
    let got: Vec<Entry> = match finish {
        Finish::Forward => {
            let mut out = Vec::new();
            while let Some(i) = it.next() {
                out.push(seen(i));
            }
            // Nothing comes after the end, on either side.
            if it.next().is_some() || it.next_back().is_some() || it.len() != 0 {
                return bad(case, &"entries after the end", &"none");
            }
            out
        }
        Finish::Backward => {
            let mut out = Vec::new();
            while let Some(i) = it.next_back() {
                out.push(seen(i));
            }
            if it.next().is_some() || it.next_back().is_some() || it.len() != 0 {
                return bad(case, &"entries after the end", &"none");
            }
            out.reverse();
            out
        }
        Finish::Count => {
            let k = it.count();
            if k != want.len() {
                return bad(case, &k, &want.len());
            }
            return Ok(());
        }
        Finish::Last => {
            let l = it.last().map(seen);
            if l.as_ref() != want.last() {
                return bad(case, &l, &want.last());
            }
            return Ok(());
        }
        Finish::Fold => it.fold(Vec::new(), |mut v, i| {
            v.push(seen(i));
            v
        }),
        Finish::Rfold => {
            let mut v = it.rfold(Vec::new(), |mut v, i| {
                v.push(seen(i));
                v
            });
            v.reverse();
            v
        }
        Finish::Len => {
            if it.len() != want.len() {
                return bad(case, &it.len(), &want.len());
            }
            it.map(seen).collect()
        }
    };
    if got != want {
        return bad(case, &got, &want);
    }
    c.stats.validated += 1;
    c.outcome(match finish {
        Finish::Forward | Finish::Fold | Finish::Len => "consumed from the front",
        _ => "consumed in another way",
    });
    let case = case.clone();
    c.sample(|| case);
    Ok(())
}

/// Collections of up to this size are advanced by every distance.
const SMALL: usize = 8;

/// Sizes of larger collections.
const LARGE: &[usize] = &[9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300];

fn iterators(max: usize, depth: usize, nested: bool) -> Space {
    let (name, sizes): (_, Vec<usize>) = if max > SMALL {
        let sizes = LARGE.iter().copied().filter(|&n| n <= max).collect();
        (format!("iterators, large collections, up to {max} entries, depth {depth}"), sizes)
    } else {
        (format!("iterators, up to {max} entries, depth {depth}"), (0..=max).collect())
    };
    Space::new(name, 0, move |c| {
        let kind = c.pick(4);
        let origin = c.pick(4);
        let n = c.of(&sizes);
        let how = c.pick(if nested { 1 } else { 3 });
        let (doc, entries) = build(kind, origin, n);
        let mut case = format!(
            "{} of {n} entries, {}, by {}",
            ["block mapping", "inline mapping", "block sequence", "inline sequence"][kind],
            ["as parsed", "after removing the last", "after removing one", "built"][origin],
            ["iter", "into_iter", "into_iter of a reference"][how]
        );
        note(|s| s.clone_from(&case));
        c.nontrivial(case.as_bytes());
        let root = doc.as_ref();
        // The ids are found by key and index, not by iterating.
        if kind < 2 {
            let Some(m) = root.as_mapping() else {
                // Empty block collections cannot be read.
                return if n == 0 && origin == 0 { Ok(()) } else { fail("not a mapping", case, "") };
            };
            let mut queue = VecDeque::new();
            for (k, v) in entries {
                let Some(value) = m.get(std::str::from_utf8(&k).unwrap_or("")) else {
                    return fail("a key is not found", case, show(&k));
                };
                queue.push_back((k, v, value.id()));
            }
            let seen = |(k, v): (&bstr::BStr, Value<'_>)| Some((k.to_vec(), v.as_u64()?, v.id()));
            match how {
                0 => drive(c, m.iter(), queue, depth, seen, &mut case),
                1 => drive(c, m.into_iter(), queue, depth, seen, &mut case),
                _ => drive(c, (&m).into_iter(), queue, depth, seen, &mut case),
            }
        } else {
            let Some(s) = root.as_sequence() else {
                return if n == 0 && origin == 0 { Ok(()) } else { fail("not a sequence", case, "") };
            };
            let mut queue = VecDeque::new();
            for (i, (k, v)) in entries.into_iter().enumerate() {
                let Some(value) = s.get(i) else {
                    return fail("an index is not found", case, i.to_string());
                };
                queue.push_back((k, v, value.id()));
            }
            let seen = |v: Value<'_>| Some((Vec::new(), v.as_u64()?, v.id()));
            match how {
                0 => drive(c, s.iter(), queue, depth, seen, &mut case),
                1 => drive(c, s.into_iter(), queue, depth, seen, &mut case),
                _ => drive(c, (&s).into_iter(), queue, depth, seen, &mut case),
            }
        }
    })
}

// ---------------------------------------------------------------------------

/// Every read accessor of a value and of everything in it.
fn read(doc: &Document, v: &Value<'_>, n: &Node, case: &str) -> Res {
    let id = v.id();
    let bad = |what: &str| fail(format!("accessors disagree: {what}"), case, format!("on {n}"));
    let again = || doc.value(id);

    let any = |a: &Any<'_>| match a {
        Any::Null => "null",
        Any::Bool(_) => "bool",
        Any::Number(_) => "number",
        Any::String(_) => "string",
        Any::Mapping(_) => "mapping",
        Any::Sequence(_) => "sequence",
        _ => "raw",
    };
    let kind = n.kind();
    if any(&v.as_any()) != kind || any(&again().into_any()) != kind {
        return bad("as_any");
    }
    if v.as_any().is_null() != (kind == "null") || again().into_any().is_null() != (kind == "null") {
        return bad("is_null");
    }
    let b = match n {
        Node::Bool(b) => Some(*b),
        _ => None,
    };
    if v.as_bool() != b || v.as_any().into_bool() != b {
        return bad("as_bool");
    }
    let s = match n {
        Node::Str(s) => Some(&s[..]),
        _ => None,
    };
    let utf8 = s.and_then(|s| std::str::from_utf8(s).ok());
    if v.as_bstr().map(|s| s as &[u8]) != s || v.as_any().into_string().map(|s| s.to_vec()).as_deref() != s {
        return bad("as_bstr");
    }
    if v.as_str() != utf8 {
        return bad("as_str");
    }
    let raw = match n {
        Node::Num(r) => Some(&r[..]),
        _ => None,
    };
    let number = [
        v.as_number().map(|n| n.as_raw().to_string()),
        again().into_number().map(|n| n.as_raw().to_string()),
        v.as_any().into_number().map(|n| n.as_raw().to_string()),
    ];
    if number.iter().any(|n| n.as_deref() != raw) {
        return bad("as_number");
    }
    if raw.is_none()
        && (v.as_f32().is_some()
            || v.as_f64().is_some()
            || v.as_u8().is_some()
            || v.as_i8().is_some()
            || v.as_u16().is_some()
            || v.as_i16().is_some()
            || v.as_u32().is_some()
            || v.as_i32().is_some()
            || v.as_u64().is_some()
            || v.as_i64().is_some()
            || v.as_u128().is_some()
            || v.as_i128().is_some())
    {
        return bad("a number");
    }
    let (m, q) = (v.as_mapping(), v.as_sequence());
    if m.is_some() != (kind == "mapping") {
        return bad("as_mapping");
    }
    if q.is_some() != (kind == "sequence") {
        return bad("as_sequence");
    }
    match n {
        Node::Map(items) => {
            let Some(m) = m else {
                return Ok(());
            };
            if m.id() != id || m.len() != items.len() || m.is_empty() != items.is_empty() {
                return bad("the length of a mapping");
            }
            if m.iter().map(|(k, _)| k.to_vec()).ne(items.iter().map(|(k, _)| k.clone())) {
                return bad("the keys of a mapping");
            }
            let ids: Vec<Id> = m.iter().map(|(_, v)| v.id()).collect();
            for (i, (k, node)) in items.iter().enumerate() {
                if let Ok(k) = std::str::from_utf8(k) {
                    let first = items.iter().position(|(o, _)| o == k.as_bytes()).unwrap_or(i);
                    if m.get(k).map(|v| v.id()) != Some(ids[first]) {
                        return bad("Mapping::get");
                    }
                }
                read(doc, &doc.value(ids[i]), node, case)?;
            }
            if m.get("no such key").is_some() {
                return bad("Mapping::get of a missing key");
            }
            if format!("{m:?}").is_empty() {
                return bad("Debug");
            }
        }
        Node::Seq(items) => {
            let Some(q) = q else {
                return Ok(());
            };
            if q.id() != id || q.len() != items.len() || q.is_empty() != items.is_empty() {
                return bad("the length of a sequence");
            }
            let ids: Vec<Id> = q.iter().map(|v| v.id()).collect();
            if ids.len() != items.len() {
                return bad("the entries of a sequence");
            }
            if q.first().map(|v| v.id()) != ids.first().copied() || q.last().map(|v| v.id()) != ids.last().copied() {
                return bad("Sequence::first and last");
            }
            for (i, node) in items.iter().enumerate() {
                if q.get(i).map(|v| v.id()) != Some(ids[i]) {
                    return bad("Sequence::get");
                }
                read(doc, &doc.value(ids[i]), node, case)?;
            }
            if q.get(items.len()).is_some() || q.get(usize::MAX).is_some() {
                return bad("Sequence::get of a missing index");
            }
            if format!("{q:?}").is_empty() {
                return bad("Debug");
            }
        }
        _ => {
            if format!("{v:?}").is_empty() {
                return bad("Debug");
            }
        }
    }
    Ok(())
}

/// Every mutable accessor of a value and of everything in it.
fn mutable(doc: &mut Document, id: Id, n: &Node, case: &str) -> Res {
    let bad = |what: &str| fail(format!("mutable accessors disagree: {what}"), case, format!("on {n}"));
    let any = |a: &AnyMut<'_>| match a {
        AnyMut::Mapping(_) => "mapping",
        AnyMut::Sequence(_) => "sequence",
        _ => "scalar",
    };
    let kind = match n {
        Node::Map(_) => "mapping",
        Node::Seq(_) => "sequence",
        _ => "scalar",
    };
    let mut v = doc.value_mut(id);
    if v.as_ref().id() != id {
        return bad("id");
    }
    if v.as_mapping_mut().is_some() != (kind == "mapping") || v.as_sequence_mut().is_some() != (kind == "sequence") {
        return bad("as_mapping_mut and as_sequence_mut");
    }
    if v.into_ref().id() != id {
        return bad("into_ref");
    }
    if doc.value_mut(id).into_mapping_mut().is_some() != (kind == "mapping")
        || doc.value_mut(id).into_sequence_mut().is_some() != (kind == "sequence")
    {
        return bad("into_mapping_mut and into_sequence_mut");
    }
    let a = doc.value_mut(id).into_any_mut();
    if any(&a) != kind || a.id() != id {
        return bad("into_any_mut");
    }
    match n {
        Node::Map(items) => {
            let ids: Vec<Id> = match doc.value(id).as_mapping() {
                Some(m) => m.iter().map(|(_, v)| v.id()).collect(),
                None => return bad("as_mapping"),
            };
            let Some(mut m) = doc.value_mut(id).into_mapping_mut() else {
                return Ok(());
            };
            if m.as_ref().id() != id || m.as_ref().len() != items.len() {
                return bad("MappingMut::as_ref");
            }
            if m.get_mut("no such key").is_some() {
                return bad("get_mut of a missing key");
            }
            if m.get_into_mut("no such key").is_some() {
                return bad("get_into_mut of a missing key");
            }
            for (i, (k, node)) in items.iter().enumerate() {
                if let Ok(k) = std::str::from_utf8(k) {
                    let first = items.iter().position(|(o, _)| o == k.as_bytes()).unwrap_or(i);
                    let Some(mut m) = doc.value_mut(id).into_mapping_mut() else {
                        return Ok(());
                    };
                    if m.get_mut(k).map(|v| v.into_ref().id()) != Some(ids[first]) {
                        return bad("MappingMut::get_mut");
                    }
                    if m.get_into_mut(k).map(|v| v.into_ref().id()) != Some(ids[first]) {
                        return bad("MappingMut::get_into_mut");
                    }
                }
                mutable(doc, ids[i], node, case)?;
            }
            let refs = doc.value_mut(id).into_mapping_mut().map(|m| m.into_ref().iter().map(|(_, v)| v.id()).collect());
            if refs != Some(ids) {
                return bad("MappingMut::into_ref");
            }
        }
        Node::Seq(items) => {
            let ids: Vec<Id> = match doc.value(id).as_sequence() {
                Some(m) => m.iter().map(|v| v.id()).collect(),
                None => return bad("as_sequence"),
            };
            let Some(mut s) = doc.value_mut(id).into_sequence_mut() else {
                return Ok(());
            };
            if s.as_ref().id() != id || s.as_ref().len() != items.len() {
                return bad("SequenceMut::as_ref");
            }
            if s.get_mut(items.len()).is_some() || s.get_mut(usize::MAX).is_some() {
                return bad("get_mut of a missing index");
            }
            let none = doc.value_mut(id).into_sequence_mut().and_then(|s| s.get_into_mut(usize::MAX)).is_none();
            let Some(s) = doc.value_mut(id).into_sequence_mut() else {
                return Ok(());
            };
            if !none || s.get_into_mut(items.len()).is_some() {
                return bad("get_into_mut of a missing index");
            }
            for (i, node) in items.iter().enumerate() {
                let Some(mut s) = doc.value_mut(id).into_sequence_mut() else {
                    return Ok(());
                };
                if s.get_mut(i).map(|v| v.into_ref().id()) != Some(ids[i]) {
                    return bad("SequenceMut::get_mut");
                }
                if s.get_into_mut(i).map(|v| v.into_ref().id()) != Some(ids[i]) {
                    return bad("SequenceMut::get_into_mut");
                }
                mutable(doc, ids[i], node, case)?;
            }
            let refs = doc.value_mut(id).into_sequence_mut().map(|m| m.into_ref().iter().map(|v| v.id()).collect());
            if refs != Some(ids) {
                return bad("SequenceMut::into_ref");
            }
        }
        _ => {}
    }
    Ok(())
}

fn accessors(c: &mut Case<'_>, doc: &mut Document, want: &Node, case: &str) -> Res {
    read(doc, &doc.as_ref(), want, case)?;
    let before = written(doc);
    let id = doc.as_ref().id();
    if doc.as_mut().into_ref().id() != id {
        return fail("accessors disagree: id of the root", case, "");
    }
    mutable(doc, id, want, case)?;
    if written(doc) != before {
        return fail("getting a mutable value changes the document", case, show(&written(doc)));
    }
    c.stats.validated += 1;
    Ok(())
}

fn is_deep(m: &Model) -> bool {
    matches!(m.kind, Kind::Map(_) | Kind::Seq(_))
}

fn spaces_c15(tier: Tier) -> Vec<Space> {
    let mut out = vec![iterators(5, tier.sel(3, 4), false), iterators(tier.sel(65, 300), tier.sel(2, 3), true)];
    if tier == Tier::Thorough {
        out.push(iterators(7, 4, true));
        out.push(iterators(4, 5, true));
    } else {
        out.push(iterators(3, 4, true));
    }

    out.extend(structure::docs(tier, structure::configs(tier), "accessors in ", true, |c, d| {
        c.nontrivial(&d.text);
        let mut doc = match yaml::from_slice(&d.text) {
            Ok(doc) => doc,
            Err(e) => return fail("a document is rejected", show(&d.text), e.to_string()),
        };
        c.outcome("parsed");
        accessors(c, &mut doc, &d.tree.node(), &show(&d.text))
    }));

    let depth = tier.sel(1, 2);
    out.push(Space::new(format!("accessors after {depth} edits"), 0, move |c| {
        let text = hist::DOCS[c.pick(hist::DOCS.len())];
        let mut log = show(text.as_bytes());
        note(|n| n.clone_from(&log));
        let Ok(mut doc) = yaml::from_slice(text) else {
            return fail("a document is rejected", log, "");
        };
        let mut world = hist::world(&doc);
        for _ in 0..depth {
            let (path, op) = hist::choose(c, &world.root, &hist::FULL);
            log.push_str("; ");
            log.push_str(&hist::describe(&path, &op));
            note(|n| n.clone_from(&log));
            if c.fresh() {
                c.transition();
            }
            hist::perform(&mut doc, &world.root, &path, &op, hist::Route::Into);
            world.apply(&path, &op);
        }
        c.nontrivial(log.as_bytes());
        c.outcome(if is_deep(&world.root) { "edited collection" } else { "edited scalar" });
        accessors(c, &mut doc, &world.root.node(), &log)
    }));
    out.push(super::wide::looking());
    out
}
