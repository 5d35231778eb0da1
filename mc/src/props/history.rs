//! Histories of edits: C07 data against the model, C08 written data, C09
//! agreement of the writers, C10 ids, C11 snapshots, C17 clones.

use std::collections::HashMap;
use std::io::Cursor;

use serde::Deserialize as _;
use nondestructive::yaml::{self, Document, Id};

use super::Prop;
use crate::engine::*;
use crate::gen;
use crate::hist::{self, Alphabet, Kind, Model, Op, Route, World, DOCS};
use crate::view::*;

macro_rules! history {
    ($name:ident, $id:literal, $what:literal, $spaces:ident) => {
        pub static $name: Prop = Prop {
            id: $id,
            level: "model_checking",
            technique: concat!("explicit exploration of every history of edits up to a depth on the real implementation in lock-step with a reference model: ", $what),
            rule: "every starting document, times every sequence of operations of the alphabet of the space up to its depth; a state is the data and the bytes of the document, a transition is one edit, and every step of every history is executed on the real document and compared",
            assumptions: &["Operations outside of the alphabet of a space (other strings, numbers, separators) are covered by C05, C06, C13, C14 and C20 one at a time"],
            spaces: $spaces,
            probes: &[],
        };
    };
}

history!(C07, "C07", "the data read from the document is that of the model", spaces_c07);
history!(C08, "C08", "the written document parses to the data of the model", spaces_c08);
history!(C09, "C09", "Display and write_to agree", spaces_c09);
history!(C10, "C10", "ids stand for the same value", spaces_c10);
history!(C11, "C11", "a restored snapshot continues like the original", spaces_c11);
history!(C17, "C17", "a clone and its original do not affect each other", spaces_c17);

/// Name, documents, alphabet, depth.
pub type Config = (&'static str, &'static [&'static str], Alphabet, usize);

fn configs(tier: Tier, quick: (usize, usize, usize), thorough: (usize, usize, usize)) -> Vec<Config> {
    let (core, more, full) = tier.sel(quick, thorough);
    vec![
        ("every operation", DOCS, hist::FULL, full),
        ("more operations", DOCS, hist::MORE, more),
        ("core operations", DOCS, hist::CORE, core),
    ]
}

pub struct Step<'a> {
    pub doc: &'a mut Document,
    pub world: &'a World,
    /// The operations so far.
    pub log: &'a str,
}

/// Explore histories; `check` is called in every state which has not been
/// checked by an earlier run.
pub fn explore<S: Default>(
    tier: Tier,
    configs: Vec<Config>,
    routes: u32,
    check: impl Fn(&mut Case<'_>, &mut S, Step<'_>) -> Res + Clone + Sync + Send + 'static,
) -> Vec<Space> {
    let mut out = Vec::new();

    for (name, docs, alphabet, depth) in configs {
        let check = check.clone();
        out.push(Space::new(format!("{name}, depth {depth}"), routes, move |c| {
            let text = docs[c.pick(docs.len())];
            walk(c, text.as_bytes(), &alphabet, depth, routes > 0, &check)
        }));
    }

    // Starting from documents which are large in some way.
    for (alphabet, depth) in [(hist::MORE, 1), (hist::CORE, 2)] {
        let check = check.clone();
        let large = hist::large();
        out.push(Space::new(format!("large documents, depth {depth}"), 0, move |c| {
            let n = if depth > 1 { tier.sel(hist::SLIM, large.len()) } else { large.len() };
            let text = &large[c.pick(n)];
            walk(c, text.as_bytes(), &alphabet, depth, false, &check)
        }));
    }

    // Starting from documents which are larger than that.
    {
        let check = check.clone();
        let huge = hist::huge();
        out.push(Space::new("huge documents, depth 1", 0, move |c| {
            let text = &huge[c.pick(huge.len())];
            walk(c, text.as_bytes(), tier.sel(&hist::CORE, &hist::MORE), 1, false, &check)
        }));
    }

    // Longer histories from small documents.
    for (depth, small) in [(5, SMALL), (6, tier.sel(&[], &SMALL[1..3]))] {
        if small.is_empty() {
            continue;
        }
        let check = check.clone();
        out.push(Space::new(format!("small documents, depth {depth}"), 0, move |c| {
            let text = small[c.pick(small.len())];
            walk(c, text.as_bytes(), &hist::TINY, depth, false, &check)
        }));
    }

    // Starting from documents of every layout.
    for (alphabet, depth, budget, devs) in [
        (hist::MORE, 1, tier.sel(3, 4), 2),
        (hist::CORE, tier.sel(2, 3), 3, 1),
    ] {
        let check = check.clone();
        out.push(Space::new(format!("documents of {budget} values, depth {depth}"), devs, move |c| {
            let cfg = gen::Config {
                budget,
                ..gen::FULL
            };
            let d = gen::doc(c, cfg);
            walk(c, &d.text, &alphabet, depth, false, &check)
        }));
    }

    out
}

const SMALL: &[&str] = &["", "a: 1\n", "- 1\n", "{a: 1}", "[1]\n", "a: |\n  b\n"];

fn walk<S: Default>(
    c: &mut Case<'_>,
    text: &[u8],
    alphabet: &Alphabet,
    depth: usize,
    routes: bool,
    check: &impl Fn(&mut Case<'_>, &mut S, Step<'_>) -> Res,
) -> Res {
    let mut log = show(text);
    note(|n| n.clone_from(&log));
    let mut doc = start(text.as_ref())?;
    let mut world = hist::world(&doc);
    let mut state = S::default();
    let mut first = c.fresh();

    for step in 0..=depth {
        if step > 0 {
            let (path, op) = hist::choose(c, &world.root, alphabet);
            let route = if routes {
                c.dev_of(&[Route::Into, Route::Borrow, Route::Id])
            } else {
                Route::Into
            };
            first = c.fresh();
            apply(&mut doc, &mut world, &path, &op, route, &mut log)?;
            if first {
                c.transition();
            }
        }
        if first {
            state_of(c, &doc, &world);
        }
        // NB: state which is carried along has to be brought up to date even
        // where it was checked before.
        check(
            c,
            &mut state,
            Step {
                doc: &mut doc,
                world: &world,
                log: &log,
            },
        )?;
    }
    c.stats.validated += 1;
    c.sample(|| log.clone());
    Ok(())
}

/// Short histories repeated many times.
fn repeated<S: Default>(
    tier: Tier,
    check: impl Fn(&mut Case<'_>, &mut S, Step<'_>) -> Res + Clone + Sync + Send + 'static,
) -> Space {
    let times = tier.sel(12, 24);
    let period = tier.sel(2, 3);
    Space::new(format!("{period} operations, {times} times"), 0, move |c| {
        let text = c.of(&["a: 1\n", "- 1\n", "{a: 1}", "[1]\n", "a:\n  b: [1]\n", "- a: 1\n- b: 2\n"]);
        let mut log = show(text.as_bytes());
        note(|n| n.clone_from(&log));
        let Ok(mut doc) = yaml::from_slice(text) else {
            return Ok(());
        };
        let mut world = hist::world(&doc);
        let mut state = S::default();
        // Which path and operation, by number.
        let picks: Vec<(usize, usize)> = (0..period).map(|_| (c.pick(4), c.pick(9))).collect();
        for i in 0..times * period {
            let (p, o) = picks[i % period];
            let paths = world.root.paths();
            let path = paths[if p == 3 { paths.len() - 1 } else { p.min(paths.len() - 1) }].clone();
            let ops = hist::ops(world.root.at(&path), &hist::CORE);
            let op = ops[if o < 5 { o } else { ops.len() - 1 - (o - 5) % ops.len() }].clone();
            // Keep it small.
            if world.root.paths().len() > 24 && matches!(op, Op::Push(..) | Op::Insert(..)) {
                continue;
            }
            apply(&mut doc, &mut world, &path, &op, Route::Into, &mut log)?;
            c.transition();
            state_of(c, &doc, &world);
            check(
                c,
                &mut state,
                Step {
                    doc: &mut doc,
                    world: &world,
                    log: &log,
                },
            )?;
        }
        c.stats.validated += 1;
        c.sample(|| log.clone());
        Ok(())
    })
}

/// Many edits of one collection: entries are added, some or all of them are
/// removed, and others are added. The edits with what to call them.
fn script(c: &mut Case<'_>, sizes: &[usize], root: &Model) -> (Vec<usize>, Vec<(Op, String)>) {
    let paths: Vec<_> = root.paths().into_iter().filter(|p| root.at(p).is_collection()).collect();
    let path = paths[c.pick(paths.len())].clone();
    let map = matches!(root.at(&path).kind, Kind::Map(_));
    let n = c.of(sizes);
    // Large ones with few kinds of values.
    let (v, w) = if n > 100 { (1, 1) } else { (hist::V_MORE.len(), 3) };
    let v = hist::V_MORE[c.pick(v)];
    let w = [hist::V::U32, hist::V::Map, hist::V::Double][c.pick(w)];
    let removal = c.pick(6);
    let mut out = Vec::new();
    let add = |name: &str, i: usize, v: hist::V| {
        if map {
            Op::Insert(format!("{name}{i}"), v, i % 2 == 1)
        } else {
            Op::Push(v, i % 2 == 1)
        }
    };
    for i in 0..n {
        out.push((add("g", i, v), format!("add {} times {v:?} at {path:?}", i + 1)));
    }
    let mut have = root.at(&path).len() + n;
    for i in 0..n {
        let at = match removal {
            0 => break,
            1 => 0,
            2 => have - 1,
            3 => have / 2,
            // Every other one, from the front.
            4 => i.min(have - 1),
            _ => {
                out.push((Op::Clear, "clear".into()));
                break;
            }
        };
        out.push((Op::Remove(at), format!("remove {} of them ({removal})", i + 1)));
        have -= 1;
        if removal == 4 && i + 1 >= have {
            break;
        }
    }
    for i in 0..n {
        out.push((add("h", i, w), format!("add {} times {w:?}", i + 1)));
    }
    (path, out)
}

const GROWING: &[&str] = &["a: 1\n", "- 1\n", "{a: 1}", "[1]\n", "a:\n  b: [1]\n", "- a: 1\n- b: 2\n", "a: {}\nb:\n- x # c\n\n- y\n# d\n"];

/// Run a script and leave what it made, without looking in between.
fn grown(c: &mut Case<'_>, sizes: &[usize], doc: &mut Document, world: &mut World, log: &mut String) -> Res {
    let (path, ops) = script(c, sizes, &world.root);
    let n = c.of(&[ops.len(), ops.len() * 2 / 3, ops.len() / 2]);
    for (op, name) in ops.into_iter().take(n) {
        apply(doc, world, &path, &op, Route::Into, &mut log.clone())?;
        say(log, &name);
    }
    Ok(())
}

/// Everything which can be seen of the numbers in a document, which were written
/// in some way: how they are serialized depends on their type.
fn types(doc: &Document) -> (Vec<u8>, String) {
    let mut out = Vec::new();
    let v = doc.as_ref();
    if let Err(e) = ciborium::into_writer(&v, &mut out) {
        out = e.to_string().into_bytes();
    }
    let content = super::deser::Content::deserialize(v).map_or_else(|e| e.to_string(), |c| format!("{c:?}"));
    (out, content)
}

/// Choose an operation, on any value or on a few of them.
fn choose(c: &mut Case<'_>, root: &Model, alphabet: &Alphabet, few: bool) -> (Vec<usize>, Op) {
    if !few {
        return hist::choose(c, root, alphabet);
    }
    let mut paths = root.paths();
    let n = paths.len();
    let mut at = vec![0, n / 2, n - 1];
    at.dedup();
    let path = paths.swap_remove(c.of(&at));
    let mut ops = hist::ops(root.at(&path), alphabet);
    let op = ops.swap_remove(c.pick(ops.len()));
    (path, op)
}

/// Other starting points for the properties which walk on their own.
fn starts(
    tier: Tier,
    walk: impl Fn(&mut Case<'_>, &[u8], Option<&'static [usize]>, &Alphabet, usize) -> Res
        + Copy
        + Sync
        + Send
        + 'static,
) -> Vec<Space> {
    let mut out = Vec::new();
    for (alphabet, depth) in [(hist::MORE, 1), (hist::CORE, 2)] {
        let large = hist::large();
        out.push(Space::new(format!("large documents, depth {depth}"), 1, move |c| {
            let n = if depth > 1 { tier.sel(hist::SLIM, large.len()) } else { large.len() };
            let text = &large[c.pick(n)];
            walk(c, text.as_bytes(), None, &alphabet, depth)
        }));
    }
    let huge = hist::huge();
    out.push(Space::new("huge documents, depth 1", 1, move |c| {
        let text = &huge[c.pick(huge.len())];
        walk(c, text.as_bytes(), None, &hist::CORE, 1)
    }));
    for (budget, depth, devs) in [(tier.sel(3, 4), 1, 2), (3, 2, tier.sel(1, 2))] {
        out.push(Space::new(format!("documents of {budget} values, depth {depth}"), devs, move |c| {
            let cfg = gen::Config {
                budget,
                ..gen::FULL
            };
            let d = gen::doc(c, cfg);
            walk(c, &d.text, None, &hist::CORE, depth)
        }));
    }
    let depth = 4;
    out.push(Space::new(format!("small documents, depth {depth}"), 1, move |c| {
        let text = c.of(SMALL);
        walk(c, text.as_bytes(), None, &hist::TINY, depth)
    }));
    let sizes: &'static [usize] = tier.sel(&[9, 33], &[9, 17, 33, 40, 65]);
    out.push(Space::new("grown collections, depth 1", 1, move |c| {
        let text = c.of(tier.sel(&GROWING[..5], GROWING));
        walk(c, text.as_bytes(), Some(sizes), &hist::CORE, 1)
    }));
    out
}

fn growing<S: Default>(
    tier: Tier,
    check: impl Fn(&mut Case<'_>, &mut S, Step<'_>) -> Res + Clone + Sync + Send + 'static,
) -> Space {
    let sizes: &[usize] = tier.sel(&[9, 40, 70, 260], &[9, 17, 33, 40, 65, 100, 130, 260, 520]);
    Space::new(format!("growing collections, up to {} entries", sizes[sizes.len() - 1]), 0, move |c| {
        let text = c.of(GROWING);
        let mut log = show(text.as_bytes());
        let mut doc = start(text.as_bytes())?;
        let mut world = hist::world(&doc);
        let mut state = S::default();
        let (path, ops) = script(c, sizes, &world.root);
        for (op, name) in ops {
            apply(&mut doc, &mut world, &path, &op, Route::Into, &mut log.clone())?;
            say(&mut log, &name);
            c.transition();
            state_of(c, &doc, &world);
            check(
                c,
                &mut state,
                Step {
                    doc: &mut doc,
                    world: &world,
                    log: &log,
                },
            )?;
        }
        c.stats.validated += 1;
        c.sample(|| log.clone());
        Ok(())
    })
}

/// Say what was done, in place of the step before where that was the same.
fn say(log: &mut String, what: &str) {
    let word = |s: &str| s.split(' ').next().map(String::from);
    let last = log.rfind("; ");
    if let Some(i) = last {
        if word(&log[i + 2..]) == word(what) {
            log.truncate(i);
        }
    }
    log.push_str("; ");
    log.push_str(what);
    note(|n| n.clone_from(log));
}

fn start(text: &[u8]) -> Result<Document, Fail> {
    match yaml::from_slice(text) {
        Ok(d) => Ok(d),
        Err(e) => fail("a document is rejected", show(text), e.to_string()),
    }
}

fn apply(
    doc: &mut Document,
    world: &mut World,
    path: &[usize],
    op: &Op,
    route: Route,
    log: &mut String,
) -> Res {
    log.push_str("; ");
    log.push_str(&hist::describe(path, op));
    if route != Route::Into {
        log.push_str(&format!(" by {route:?}"));
    }
    note(|n| n.clone_from(log));
    let got = hist::perform(doc, &world.root, path, op, route);
    let want = world.apply(path, op);
    if got != Some(want) {
        return fail(
            "an edit does not find its target",
            log.clone(),
            format!("returned {got:?}, expected {want}"),
        );
    }
    Ok(())
}

fn state_of(c: &mut Case<'_>, doc: &Document, world: &World) {
    let mut bytes = written(doc);
    bytes.push(0);
    bytes.extend(format!("{:?}", world.root.node()).bytes());
    c.state(&bytes);
}

// ---------------------------------------------------------------------------

fn spaces_c07(tier: Tier) -> Vec<Space> {
    let check = |_: &mut Case<'_>, (): &mut (), s: Step<'_>| match hist::same(s.doc, &s.world.root) {
        Ok(()) => Ok(()),
        Err(e) => fail("the data is not that of the history", s.log, e),
    };
    let mut v = explore(tier, configs(tier, (3, 2, 1), (4, 3, 2)), tier.sel(1, 1), check);
    v.push(repeated(tier, check));
    v.push(growing(tier, check));
    v
}

fn strip_last(m: &mut Model) {
    let n = m.len();
    match &mut m.kind {
        Kind::Str(s) if s.ends_with(b"\n") => {
            s.pop();
        }
        Kind::Map(_) | Kind::Seq(_) if n > 0 && !m.flow => strip_last(m.child_mut(n - 1)),
        _ => {}
    }
}

fn spaces_c08(tier: Tier) -> Vec<Space> {
    let check = |c: &mut Case<'_>, (): &mut (), s: Step<'_>| {
        if s.world.root.has_hole() {
            c.outcome("nothing in a flow sequence");
            return Ok(());
        }
        let w = written(s.doc);
        let want = if w.ends_with(b"\n") {
            s.world.root.reparsed()
        } else {
            // The last line of a block scalar ends with the document.
            let mut m = s.world.root.clone();
            strip_last(&mut m);
            m.reparsed()
        };
        match yaml::from_slice(&w) {
            Ok(d) => {
                let got = view(&d);
                if got != want && (w.ends_with(b"\n") || got != s.world.root.reparsed()) {
                    return fail(
                        "the written document has other data",
                        s.log,
                        format!("{} is {got}, expected {want}", show(&w)),
                    );
                }
            }
            Err(e) => {
                return fail(
                    "the written document is rejected",
                    s.log,
                    format!("{}: {e}, expected {want}", show(&w)),
                );
            }
        }
        Ok(())
    };
    let mut v = explore(tier, configs(tier, (3, 3, 2), (4, 4, 2)), 0, check);
    v.push(repeated(tier, check));
    v.push(growing(tier, check));
    v
}

fn spaces_c09(tier: Tier) -> Vec<Space> {
    let check = |_: &mut Case<'_>, (): &mut (), s: Step<'_>| {
        let w = written(s.doc);
        let d = s.doc.to_string();
        if d.as_bytes() != w {
            return fail(
                "Display and write_to differ",
                s.log,
                format!("{} and {}", show(d.as_bytes()), show(&w)),
            );
        }
        Ok(())
    };
    let mut v = explore(tier, configs(tier, (3, 3, 2), (4, 4, 2)), 0, check);
    v.push(repeated(tier, check));
    v.push(growing(tier, check));
    v.extend(super::strings::spaces_c09(tier));
    v
}

// ---------------------------------------------------------------------------

fn ids(doc: &Document, root: &Model) -> Option<Vec<(u32, Id, Vec<usize>)>> {
    root.paths()
        .into_iter()
        .map(|p| Some((root.at(&p).num, hist::id_at(doc, root, &p)?, p)))
        .collect()
}

fn spaces_c10(tier: Tier) -> Vec<Space> {
    let check = |_: &mut Case<'_>, known: &mut HashMap<u32, Id>, s: Step<'_>| {
        let root = &s.world.root;
        let Some(now) = ids(s.doc, root) else {
            return fail("a value cannot be reached", s.log, "");
        };
        let alive: HashMap<u32, Id> = now.iter().map(|(n, id, _)| (*n, *id)).collect();
        known.retain(|n, _| alive.contains_key(n));
        for (n, id, path) in &now {
            let old = *known.entry(*n).or_insert(*id);
            if old != *id {
                return fail(
                    "the id of a value changed",
                    s.log,
                    format!("{path:?} was {old}, is {id}"),
                );
            }
        }
        for (i, a) in now.iter().enumerate() {
            if now[..i].iter().any(|b| a.1 == b.1) {
                return fail("two values have the same id", s.log, format!("{:?}", a.2));
            }
        }
        for (_, id, path) in &now {
            let want = root.at(path).node();
            let v = s.doc.value(*id);
            let got = node(&v);
            if got != want || v.id() != *id {
                return fail(
                    "an id stands for another value",
                    s.log,
                    format!("{path:?}: {got}, expected {want}"),
                );
            }
            match v.as_any() {
                yaml::Any::Mapping(m) if m.id() != *id => {
                    return fail("the id of a mapping differs", s.log, format!("{path:?}"));
                }
                yaml::Any::Sequence(m) if m.id() != *id => {
                    return fail("the id of a sequence differs", s.log, format!("{path:?}"));
                }
                _ => {}
            }
            let a = s.doc.value_mut(*id).into_any_mut().id();
            if a != *id {
                return fail("the id of a mutable value differs", s.log, format!("{path:?}"));
            }
        }
        if s.doc.as_ref().id() != now[0].1 {
            return fail("the id of the root differs", s.log, "");
        }
        Ok(())
    };
    let mut v = explore(tier, configs(tier, (3, 3, 2), (4, 4, 2)), 0, check);
    v.push(repeated(tier, check));
    v.push(growing(tier, check));
    v.push(super::wide::space(None));
    v
}

// ---------------------------------------------------------------------------

fn snapshot(doc: &Document) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    ciborium::into_writer(doc, &mut out).map_err(|e| e.to_string())?;
    Ok(out)
}

fn restore(b: &[u8]) -> Result<Document, String> {
    ciborium::from_reader(Cursor::new(b)).map_err(|e| e.to_string())
}

fn spaces_c11(tier: Tier) -> Vec<Space> {
    // In every state, the restored document is the same; from some state on,
    // the history is continued on the restored document as well.
    let (core, more) = tier.sel((3, 2), (4, 3));
    let mut out = Vec::new();
    for (name, alphabet, depth) in [
        ("every operation", hist::FULL, tier.sel(1, 2)),
        ("more operations", hist::MORE, more),
        ("core operations", hist::CORE, core),
    ] {
        out.push(Space::new(format!("{name}, depth {depth}"), 1, move |c| {
            let text = DOCS[c.pick(DOCS.len())];
            restoring(c, text.as_bytes(), None, &alphabet, depth)
        }));
    }
    out.extend(starts(tier, restoring));
    // Numbers of every type.
    let mut values = super::numbers::integers(Tier::Quick);
    values.extend(super::numbers::floats(Tier::Quick));
    let places = super::writes::few();
    out.push(Space::new(format!("written numbers, {} values", values.len()), 0, move |c| {
        let v = values[c.pick(values.len())];
        let p = &places[c.pick(places.len())];
        let log = format!("{}; {v:?}", p.describe());
        note(|n| n.clone_from(&log));
        let doc = super::writes::write(p, b"k", &v)?;
        let r = match snapshot(&doc).and_then(|b| restore(&b)) {
            Ok(r) => r,
            Err(e) => return fail("a document is not restored", log, e),
        };
        c.stats.validated += 1;
        c.state(log.as_bytes());
        alike(&doc, &r, &hist::world(&doc).root, u32::MAX, &log)
    }));
    // Documents with other content: any bytes, comments, and forms of scalars.
    out.push(Space::new("parsed documents", 1, move |c| {
        let d = gen::doc(
            c,
            gen::Config {
                budget: tier.sel(4, 5),
                ..gen::FULL
            },
        );
        note(|n| *n = show(&d.text));
        snapshot_of(c, &d.text)
    }));
    out.push(Space::new("raw bytes", 0, move |c| {
        let n = c.pick(tier.sel(4, 5) + 1);
        let v: Vec<u8> = (0..n).map(|_| c.of(super::inputs::BYTES)).collect();
        note(|n| *n = show(&v));
        snapshot_of(c, &v)
    }));
    out.push(super::wide::space(Some(|doc| snapshot(doc).and_then(|b| restore(&b)))));
    out
}

fn restoring(
    c: &mut Case<'_>,
    text: &[u8],
    prelude: Option<&'static [usize]>,
    alphabet: &Alphabet,
    depth: usize,
) -> Res {
    let mut log = show(text);
    note(|n| n.clone_from(&log));
    let mut doc = start(text)?;
    let mut world = hist::world(&doc);
    if let Some(sizes) = prelude {
        grown(c, sizes, &mut doc, &mut world, &mut log)?;
    }
    let mut other: Option<Document> = None;
    let mut before = 0;

    for step in 0..=depth {
        if step > 0 {
            let (path, op) = choose(c, &world.root, alphabet, prelude.is_some());
            if c.fresh() {
                c.transition();
            }
            if let Some(other) = &mut other {
                let mut w = world.clone();
                let mut l = format!("{log} (restored)");
                apply(other, &mut w, &path, &op, Route::Into, &mut l)?;
            }
            apply(&mut doc, &mut world, &path, &op, Route::Into, &mut log)?;
        }
        let now = match other {
            None => c.dev(2) == 1,
            Some(_) => false,
        };
        if c.fresh() {
            state_of(c, &doc, &world);
            let b = match snapshot(&doc) {
                Ok(b) => b,
                Err(e) => return fail("a document is not serialized", log, e),
            };
            let r = match restore(&b) {
                Ok(r) => r,
                Err(e) => return fail("a document is not deserialized", log, e),
            };
            alike(&doc, &r, &world.root, u32::MAX, &log)?;
            if let Some(other) = &other {
                alike(&doc, other, &world.root, before, &format!("{log}, continued"))?;
            }
        }
        if now {
            log.push_str("; restore");
            before = world.next;
            match snapshot(&doc).and_then(|b| restore(&b)) {
                Ok(r) => other = Some(r),
                Err(e) => return fail("a document is not restored", log, e),
            }
        }
    }
    c.stats.validated += 1;
    c.sample(|| log.clone());
    Ok(())
}

fn snapshot_of(c: &mut Case<'_>, text: &[u8]) -> Res {
    let Ok(doc) = yaml::from_slice(text) else {
        return Ok(());
    };
    let r = match snapshot(&doc).and_then(|b| restore(&b)) {
        Ok(r) => r,
        Err(e) => return fail("a document is not restored", show(text), e),
    };
    c.state(text);
    c.sample(|| show(text));
    if written(&r) != text || view(&r) != view(&doc) || types(&r) != types(&doc) || r.as_ref().id() != doc.as_ref().id() {
        return fail(
            "a restored document differs",
            show(text),
            show(&written(&r)),
        );
    }
    c.stats.validated += 1;
    Ok(())
}

fn alike(a: &Document, b: &Document, root: &Model, before: u32, log: &str) -> Res {
    let (x, y) = (written(a), written(b));
    if x != y {
        return fail(
            "a restored document is written differently",
            log,
            format!("{}, original {}", show(&y), show(&x)),
        );
    }
    let (x, y) = (view(a), view(b));
    if x != y {
        return fail(
            "a restored document has other data",
            log,
            format!("{y}, original {x}"),
        );
    }
    let (x, y) = (types(a), types(b));
    if x != y {
        return fail(
            "a restored document is serialized differently",
            log,
            format!("{y:?}, original {x:?}"),
        );
    }
    let (Some(mut x), Some(mut y)) = (ids(a, root), ids(b, root)) else {
        return fail("a value cannot be reached", log, "");
    };
    for (_, id, path) in &y {
        if node(&b.value(*id)) != root.at(path).node() {
            return fail("an id stands for something else after restoring", log, format!("{path:?}"));
        }
    }
    // Values made since then do not have to have the same ids.
    x.retain(|(n, ..)| *n < before);
    y.retain(|(n, ..)| *n < before);
    if x != y {
        return fail("a restored document has other ids", log, "");
    }
    for (_, id, path) in x {
        if node(&b.value(id)) != root.at(&path).node() {
            return fail("an id stands for something else after restoring", log, format!("{path:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------

fn spaces_c17(tier: Tier) -> Vec<Space> {
    let mut out = Vec::new();
    for (name, alphabet, depth) in [
        ("more operations", hist::MORE, tier.sel(2, 3)),
        ("core operations", hist::CORE, tier.sel(3, 4)),
    ] {
        out.push(Space::new(format!("{name}, depth {depth}"), 1, move |c| {
            let text = DOCS[c.pick(DOCS.len())];
            cloning(c, text.as_bytes(), None, &alphabet, depth)
        }));
    }
    out.extend(starts(tier, cloning));
    // Numbers of every type.
    let mut values = super::numbers::integers(Tier::Quick);
    values.extend(super::numbers::floats(Tier::Quick));
    let places = super::writes::few();
    out.push(Space::new(format!("written numbers, {} values", values.len()), 0, move |c| {
        let v = values[c.pick(values.len())];
        let p = &places[c.pick(places.len())];
        let log = format!("{}; {v:?}", p.describe());
        note(|n| n.clone_from(&log));
        let doc = super::writes::write(p, b"k", &v)?;
        let other = doc.clone();
        c.stats.validated += 1;
        c.state(log.as_bytes());
        let root = hist::world(&doc).root;
        if look(&doc, &root) == look(&other, &root) {
            Ok(())
        } else {
            fail("a clone differs from its original", log, show(&written(&other)))
        }
    }));
    out.push(super::wide::space(Some(|doc| Ok(doc.clone()))));
    out
}

fn cloning(
    c: &mut Case<'_>,
    text: &[u8],
    prelude: Option<&'static [usize]>,
    alphabet: &Alphabet,
    depth: usize,
) -> Res {
    let mut log = show(text);
    note(|n| n.clone_from(&log));
    let mut doc = start(text)?;
    let mut world = hist::world(&doc);
    if let Some(sizes) = prelude {
        grown(c, sizes, &mut doc, &mut world, &mut log)?;
    }
    let mut docs = vec![(doc, world)];
    // What each of them looked like when it was last edited.
    let mut last = vec![look(&docs[0].0, &docs[0].1.root)];

    for step in 0..=depth {
        let mut edited = 0;
        if step > 0 {
            edited = c.pick(docs.len());
            let (doc, world) = &mut docs[edited];
            let (path, op) = choose(c, &world.root, alphabet, prelude.is_some());
            if edited == 1 {
                log.push_str("; (clone)");
            }
            apply(doc, world, &path, &op, Route::Into, &mut log)?;
            last[edited] = look(doc, &world.root);
            if c.fresh() {
                c.transition();
            }
        }
        if c.fresh() {
            for (i, (doc, world)) in docs.iter().enumerate() {
                state_of(c, doc, world);
                if look(doc, &world.root) != last[i] {
                    return fail(
                        if i == 0 {
                            "an edit of the clone changed the original"
                        } else {
                            "an edit of the original changed the clone"
                        },
                        log,
                        show(&written(doc)),
                    );
                }
                if let Err(e) = hist::same(doc, &world.root) {
                    return fail(
                        if i == edited {
                            "the edited document is not that of its history"
                        } else {
                            "the other document is not that of its history"
                        },
                        log,
                        e,
                    );
                }
            }
        }
        let ways = if depth > 2 { 2 } else { 3 };
        let how = if docs.len() == 1 && step < depth { c.dev(ways) } else { 0 };
        if how > 0 {
            let (doc, world) = &docs[0];
            let mut d = (start(b"other:\n  - x # y\n")?, world.clone());
            if how == 1 {
                log.push_str("; clone");
                d.0 = doc.clone();
            } else {
                log.push_str("; clone_from");
                d.0.clone_from(doc);
            }
            let l = look(&d.0, &d.1.root);
            if l != last[0] {
                return fail("a clone differs from its original", log, show(&l.0));
            }
            last.push(l);
            docs.push(d);
        }
    }
    c.stats.validated += 1;
    c.sample(|| log.clone());
    Ok(())
}

type Look = (Vec<u8>, Node, Option<Vec<(u32, Id, Vec<usize>)>>, (Vec<u8>, String));

fn look(doc: &Document, root: &Model) -> Look {
    (written(doc), view(doc), ids(doc, root), types(doc))
}
