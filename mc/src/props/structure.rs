//! Documents whose meaning and layout is known: C03 structure, C05 and C06
//! locality of edits, C19 slices.

use nondestructive::yaml::{self, Document, Value, ValueMut};

use super::Prop;
use crate::engine::*;
use crate::gen::{self, Config, Doc, Shape, Tree, FULL};
use crate::view::*;

pub static C03: Prop = Prop {
    id: "C03",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of trees and layouts from a reference renderer, compared with the real parser and cross-checked with libyaml",
    rule: "every document of the reference renderer within the node budget and the number of layout deviations; non-trivial: distinct texts",
    assumptions: &["The reference renderer writes what it says it writes; every document in plain YAML is cross-checked with libyaml (serde_yaml)"],
    spaces: spaces_c03,
    probes: &[],
};

pub static C05: Prop = Prop {
    id: "C05",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of documents, nodes and setters, with an exact oracle for the resulting bytes",
    rule: "every document of the reference renderer within its bounds, times every value in it, times every setter; non-trivial: distinct triples",
    assumptions: &["The reference renderer knows where each value is in its text (C19 checks the same positions against the values' own text)"],
    spaces: spaces_c05,
    probes: &[],
};

pub static C06: Prop = Prop {
    id: "C06",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of documents, collections and entry edits, with an exact oracle for the resulting bytes",
    rule: "every document of the reference renderer within its bounds, times every collection in it, times every removal, clear, insertion and push; non-trivial: distinct triples",
    assumptions: &["The reference renderer knows where each entry is in its text"],
    spaces: spaces_c06,
    probes: &[],
};

pub static C19: Prop = Prop {
    id: "C19",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of documents from a reference renderer with known positions of every value",
    rule: "every document of the reference renderer within its bounds, and every value in it; non-trivial: distinct texts",
    assumptions: &[],
    spaces: spaces_c19,
    probes: &[],
};

/// Configurations of the reference renderer: name, configuration, deviations.
pub fn configs(tier: Tier) -> Vec<(&'static str, Config, u32)> {
    let plain = Config {
        scalars: false,
        keys: false,
        layout: false,
        duplicates: false,
        ..FULL
    };
    let layout = Config {
        layout: true,
        ..plain
    };
    vec![
        (
            "shapes",
            Config {
                budget: tier.sel(7, 9),
                width: 4,
                depth: 6,
                ..plain
            },
            0,
        ),
        (
            "everything",
            Config {
                budget: tier.sel(4, 5),
                ..FULL
            },
            tier.sel(2, 2),
        ),
        (
            "layout",
            Config {
                budget: tier.sel(5, 6),
                ..layout
            },
            2,
        ),
        (
            "layout, deeper",
            Config {
                budget: tier.sel(3, 4),
                ..layout
            },
            tier.sel(3, 4),
        ),
        (
            "scalars and keys",
            Config {
                budget: tier.sel(3, 3),
                layout: false,
                ..FULL
            },
            tier.sel(2, 3),
        ),
    ]
}

/// Smaller bounds, for what is multiplied by the edits of each document.
pub fn edit_configs(tier: Tier) -> Vec<(&'static str, Config, u32)> {
    if tier == Tier::Thorough {
        return configs(Tier::Quick);
    }
    configs(tier)
        .into_iter()
        .map(|(name, cfg, devs)| {
            let budget = cfg.budget - usize::from(name != "scalars and keys");
            (name, Config { budget, ..cfg }, devs)
        })
        .collect()
}

pub fn docs(
    tier: Tier,
    configs: Vec<(&'static str, Config, u32)>,
    prefix: &str,
    with_larger: bool,
    run: impl Fn(&mut Case<'_>, &Doc) -> Res + Clone + Sync + Send + 'static,
) -> Vec<Space> {
    let larger = run.clone();
    let larger = Space::new(format!("{prefix}larger documents"), 1, move |c| {
        let d = gen::doc(
            c,
            Config {
                budget: 3,
                width: 2,
                depth: 2,
                duplicates: false,
                scalars: tier == Tier::Thorough,
                keys: tier == Tier::Thorough,
                layout: true,
            },
        );
        let Some(d) = d.larger(c, tier) else {
            return Ok(());
        };
        note(|n| *n = show(&d.text));
        larger(c, &d)
    });
    let mut v: Vec<_> = configs
        .into_iter()
        .map(|(name, cfg, devs)| {
            let run = run.clone();
            Space::new(format!("{prefix}{name}"), devs, move |c| {
                let d = gen::doc(c, cfg);
                note(|n| *n = show(&d.text));
                run(c, &d)
            })
        })
        .collect();
    if with_larger {
        v.push(larger);
    }
    v
}

pub fn value_at<'a>(v: Value<'a>, d: &Doc, path: &[usize]) -> Option<Value<'a>> {
    let mut v = v;
    let mut t = &d.tree;
    for &i in path {
        v = match t.shape {
            Shape::Map | Shape::FlowMap => v.as_mapping()?.iter().nth(i)?.1,
            _ => v.as_sequence()?.iter().nth(i)?,
        };
        t = &t.items[i].value;
    }
    Some(v)
}

/// Whether all keys of the path are the first ones in their mappings, which are
/// those that are found.
fn is_first(d: &Doc, path: &[usize]) -> bool {
    (0..path.len()).all(|n| {
        let items = &d.tree.at(&path[..n]).items;
        let name = |i: &crate::gen::Item| i.key.as_ref().map(|k| k.name.clone());
        match name(&items[path[n]]) {
            None => true,
            key => items.iter().position(|i| name(i) == key) == Some(path[n]),
        }
    })
}

/// The mutable value at the given path, through the accessors by key and index,
/// or by its id if there is another entry with the same key in front of it.
pub fn value_mut<'a>(doc: &'a mut Document, d: &Doc, path: &[usize]) -> Option<ValueMut<'a>> {
    if !d.unique && !is_first(d, path) {
        let id = value_at(doc.as_ref(), d, path)?.id();
        return Some(doc.value_mut(id));
    }
    let mut v = doc.as_mut();
    let mut t = &d.tree;
    for &i in path {
        v = match t.shape {
            Shape::Map | Shape::FlowMap => {
                let key = &t.items[i].key.as_ref()?.name;
                let key = std::str::from_utf8(key).ok()?;
                v.into_mapping_mut()?.get_into_mut(key)?
            }
            _ => v.into_sequence_mut()?.get_into_mut(i)?,
        };
        t = &t.items[i].value;
    }
    Some(v)
}

fn parse_doc(d: &Doc) -> Result<Document, Fail> {
    match yaml::from_slice(&d.text) {
        Ok(doc) => Ok(doc),
        Err(e) => fail(
            "a document in the supported subset is rejected",
            show(&d.text),
            format!("{e} at {:?}, expected {}", e.span(), d.tree.node()),
        ),
    }
}

fn spaces_c03(tier: Tier) -> Vec<Space> {
    let mut v = docs(tier, configs(tier), "", true, denotation);
    v.push(Space::new("large documents", 0, |c| {
        let (text, expected) = large(c);
        is_denoted(c, &text, &expected)
    }));
    v.push(super::wide::looking());
    v.push(Space::new("two texts", 0, |c| {
        let (a, b) = super::inputs::twins(c);
        let t = |v: &[u8]| String::from_utf8_lossy(v).into_owned();
        let (a, b) = (t(&a), t(&b));
        let (text, expected) = match c.pick(3) {
            0 => (
                format!("x: {a}\ny: {b}\n"),
                Node::Map(vec![(b"x".to_vec(), Node::str(&a)), (b"y".to_vec(), Node::str(&b))]),
            ),
            1 => (
                format!("{a}: 1\n{b}: 2\n"),
                Node::Map(vec![(a.clone().into(), Node::num(1)), (b.clone().into(), Node::num(2))]),
            ),
            _ => (
                format!("- '{a}'\n- |\n  {b}\n"),
                Node::Seq(vec![Node::str(&a), Node::str(format!("{b}\n"))]),
            ),
        };
        is_denoted(c, text.as_bytes(), &expected)
    }));
    v
}

fn is_denoted(c: &mut Case<'_>, text: &[u8], expected: &Node) -> Res {
    note(|n| *n = show(text));
    c.nontrivial(text);
    let doc = match nondestructive::yaml::from_slice(text) {
        Ok(doc) => doc,
        Err(e) => return fail("a document is rejected", show(text), e.to_string()),
    };
    let got = view(&doc);
    if got != *expected {
        return fail(
            "the document does not read as what it denotes",
            show(text),
            format!("read as {got}, expected {expected}"),
        );
    }
    c.outcome("a large document");
    lookup(&doc.as_ref(), expected, text)
}

/// Documents of every size, each large in one way.
fn large(c: &mut Case<'_>) -> (Vec<u8>, Node) {
    let n = super::inputs::length(c);
    // Lookups of every entry are quadratic.
    let few = n.min(700);
    let deep = n.min(96);
    let wide = n.min(9000);
    let pad = |n: usize| " ".repeat(n);
    let map = |m: &[(&str, Node)]| Node::Map(m.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.clone())).collect());
    let (text, node) = match c.pick(20) {
        0 => (
            (0..few.max(1)).map(|i| format!("k{i}: v{i}\n")).collect(),
            Node::Map((0..few.max(1)).map(|i| (format!("k{i}").into(), Node::str(format!("v{i}")))).collect()),
        ),
        1 => (
            (0..few.max(1)).map(|i| format!("- {i}\n")).collect(),
            Node::Seq((0..few.max(1)).map(Node::num).collect()),
        ),
        2 => (
            format!("[{}]", (0..few).map(|i| format!("{i}, ")).collect::<String>()),
            Node::Seq((0..few).map(Node::num).collect()),
        ),
        3 => (
            format!("{{{}}}\n", (0..few).map(|i| format!("k{i}: {i}, ")).collect::<String>()),
            Node::Map((0..few).map(|i| (format!("k{i}").into(), Node::num(i))).collect()),
        ),
        4 => (
            format!(
                "{}{}x: 1\n z: 2\n",
                (0..deep).map(|i| format!("{}k:\n", pad(i + 1))).collect::<String>(),
                pad(deep + 1)
            ),
            {
                let mut v = map(&[("x", Node::num(1))]);
                if deep == 0 {
                    v = map(&[("x", Node::num(1)), ("z", Node::num(2))]);
                }
                for i in 0..deep {
                    v = if i + 1 == deep {
                        map(&[("k", v), ("z", Node::num(2))])
                    } else {
                        map(&[("k", v)])
                    };
                }
                v
            },
        ),
        5 => (
            format!("{}x\n", "- ".repeat(deep)),
            (0..deep).fold(Node::str("x"), |v, _| Node::Seq(vec![v])),
        ),
        6 => (
            format!(
                "{}{}x: 1\n",
                (0..deep).map(|i| format!("{}- k:\n", pad(3 * i))).collect::<String>(),
                pad(3 * deep)
            ),
            (0..deep).fold(map(&[("x", Node::num(1))]), |v, _| Node::Seq(vec![map(&[("k", v)])])),
        ),
        7 => (
            format!("{}1{}\n", "[".repeat(deep), "]".repeat(deep)),
            (0..deep).fold(Node::num(1), |v, _| Node::Seq(vec![v])),
        ),
        8 => (
            format!("{}1{}\n", "{a: ".repeat(deep), "}".repeat(deep)),
            (0..deep).fold(Node::num(1), |v, _| map(&[("a", v)])),
        ),
        9 => (
            format!("a:\n {0}b: 1\n {0}c:\n {0}- 2\n {0}- 3\nd: 4\n", pad(wide)),
            map(&[
                (
                    "a",
                    map(&[("b", Node::num(1)), ("c", Node::Seq(vec![Node::num(2), Node::num(3)]))]),
                ),
                ("d", Node::num(4)),
            ]),
        ),
        10 => (
            format!("{0}a: 1\n{0}b: 2\n", pad(wide)),
            map(&[("a", Node::num(1)), ("b", Node::num(2))]),
        ),
        11 => (
            format!("-{0} a: 1\n {0} b: 2\n-{0} x\n", pad(wide)),
            Node::Seq(vec![map(&[("a", Node::num(1)), ("b", Node::num(2))]), Node::str("x")]),
        ),
        12 => (
            format!("k{0}: 1\n\"l{0}\": 2\n'm{0}': 3\n", "y".repeat(n)),
            Node::Map(
                ["k", "l", "m"]
                    .iter()
                    .enumerate()
                    .map(|(i, k)| (format!("{k}{}", "y".repeat(n)).into(), Node::num(i + 1)))
                    .collect(),
            ),
        ),
        13 => {
            let s = "t u".repeat(n.max(1));
            (
                format!("- {s}\n- '{s}'\n- \"{s}\"\n- [{s}]\n"),
                Node::Seq(vec![
                    Node::str(&s),
                    Node::str(&s),
                    Node::str(&s),
                    Node::Seq(vec![Node::str(&s)]),
                ]),
            )
        }
        14 => (
            format!("a: |\n{}b: 1\n", "  t\n".repeat(wide.max(1))),
            map(&[("a", Node::str("t\n".repeat(wide.max(1)))), ("b", Node::num(1))]),
        ),
        15 => (
            format!("a: |\n {0}t\n {0} u\nb: 1\n", pad(wide)),
            map(&[("a", Node::str("t\n u\n")), ("b", Node::num(1))]),
        ),
        16 => (
            format!("a: 1{0}b:{0}  - 2{0}  - 3{0}", format!("\n{}", "  # c\n\n".repeat(wide.min(1000)))),
            map(&[("a", Node::num(1)), ("b", Node::Seq(vec![Node::num(2), Node::num(3)]))]),
        ),
        17 => (
            format!("a:{0} 1{0}\nb:{0} [{0}2{0},{0}3{0}]{0}\n{0}", pad(n)),
            map(&[("a", Node::num(1)), ("b", Node::Seq(vec![Node::num(2), Node::num(3)]))]),
        ),
        18 => (
            format!("- \"{}\"\n- '{}'\n", "\\n".repeat(n), "''".repeat(n)),
            Node::Seq(vec![Node::str("\n".repeat(n)), Node::str("'".repeat(n))]),
        ),
        _ => {
            let d = "7".repeat(n.max(1));
            (
                format!("a: {d}\nb: -0.{d}\n"),
                map(&[("a", Node::num(&d)), ("b", Node::num(format!("-0.{d}")))]),
            )
        }
    };
    (text.into_bytes(), node)
}

fn denotation(c: &mut Case<'_>, d: &Doc) -> Res {
    let expected = d.tree.node();
    c.nontrivial(&d.text);
    c.sample(|| format!("{} is {expected}", show(&d.text)));

    if d.std {
        match serde_yaml::from_slice::<serde_yaml::Value>(&d.text) {
            Ok(v) if gen::same_as_yaml(&expected, &v) => c.stats.validated += 1,
            r => {
                // The renderer is wrong about its own document, which is not a
                // statement about the code under test.
                internal(&format!(
                    "reference renderer disagrees with libyaml: {} is {expected}, libyaml {r:?}",
                    show(&d.text)
                ));
            }
        }
        c.outcome("cross-checked with libyaml");
    } else {
        c.outcome("outside of what libyaml reads alike");
    }

    let doc = parse_doc(d)?;
    let got = view(&doc);
    if got != expected {
        return fail(
            "the document does not read as what it denotes",
            show(&d.text),
            format!("read as {got}, expected {expected}"),
        );
    }
    lookup(&doc.as_ref(), &expected, &d.text)
}

/// Lookups by key and index find what is there and nothing else.
fn lookup(v: &Value<'_>, n: &Node, text: &[u8]) -> Res {
    match n {
        Node::Map(items) => {
            let Some(m) = v.as_mapping() else {
                return fail("as_mapping", show(text), format!("{n}"));
            };
            for (i, (k, _)) in items.iter().enumerate() {
                let Ok(k) = std::str::from_utf8(k) else {
                    continue;
                };
                let first = items.iter().position(|(o, _)| o == k.as_bytes());
                let Some(got) = m.get(k) else {
                    return fail("a key is not found", show(text), k);
                };
                let expect = m.iter().nth(first.unwrap_or(i)).map(|(_, v)| v.id());
                if Some(got.id()) != expect {
                    return fail("a key finds another entry", show(text), k);
                }
                for other in crate::hist::near(k) {
                    if items.iter().all(|(o, _)| o != other.as_bytes()) && m.get(&other).is_some() {
                        return fail("a key which is not there is found", show(text), other);
                    }
                }
            }
            for ((_, n), (_, v)) in items.iter().zip(m.iter()) {
                lookup(&v, n, text)?;
            }
            if m.len() != items.len() || m.is_empty() != items.is_empty() {
                return fail("length of a mapping", show(text), m.len().to_string());
            }
        }
        Node::Seq(items) => {
            let Some(s) = v.as_sequence() else {
                return fail("as_sequence", show(text), format!("{n}"));
            };
            if s.len() != items.len() || s.is_empty() != items.is_empty() {
                return fail("length of a sequence", show(text), s.len().to_string());
            }
            for (i, n) in items.iter().enumerate() {
                let Some(v) = s.get(i) else {
                    return fail("an index is not found", show(text), i.to_string());
                };
                lookup(&v, n, text)?;
            }
            if s.get(items.len()).is_some()
                || s.get(items.len() + 1).is_some()
                || s.get(usize::MAX).is_some()
                || s.first().map(|v| node(&v)).as_ref() != items.first()
                || s.last().map(|v| node(&v)).as_ref() != items.last()
            {
                return fail("ends of a sequence", show(text), format!("{n}"));
            }
        }
        _ => {}
    }
    Ok(())
}

/// Setters for scalars, and what they write.
const SETTERS: &[&str] = &[
    "42", "true", "~", "null", "-1.5", "new text", "\"it's\"", "-170141183460469231731687303715884105728", "",
    "''",
];

pub fn set(v: &mut ValueMut<'_>, k: usize) -> Node {
    match k {
        0 => {
            v.set_u32(42);
            Node::num("42")
        }
        1 => {
            v.set_bool(true);
            Node::Bool(true)
        }
        2 => {
            v.set_null(yaml::Null::Tilde);
            Node::Null
        }
        3 => {
            v.set_null(yaml::Null::Keyword);
            Node::Null
        }
        4 => {
            v.set_f64(-1.5);
            Node::num("-1.5")
        }
        5 => {
            v.set_string("new text");
            Node::str("new text")
        }
        6 => {
            v.set_string("it's");
            Node::str("it's")
        }
        7 => {
            v.set_i128(i128::MIN);
            Node::num(i128::MIN)
        }
        8 => {
            v.set_null(yaml::Null::Empty);
            Node::Null
        }
        _ => {
            v.set_string_with("", yaml::StringKind::Single);
            Node::str("")
        }
    }
}

fn splice(text: &[u8], start: usize, end: usize, with: &[u8]) -> Vec<u8> {
    let mut v = text[..start].to_vec();
    v.extend_from_slice(with);
    v.extend_from_slice(&text[end..]);
    v
}

fn compare(case: &str, doc: &Document, expected: &[u8]) -> Res {
    let w = written(doc);
    if w != expected {
        return fail(
            "an edit changes other bytes",
            case,
            format!("written: {}\nexpected: {}", show(&w), show(expected)),
        );
    }
    Ok(())
}

fn spaces_c05(tier: Tier) -> Vec<Space> {
    let mut v = docs(tier, edit_configs(tier), "set in ", true, |c, d| {
        step_set(c, d, &mut parse_doc(d)?, &d.show())?;
        Ok(())
    });
    v.extend(after_edit(tier, "set", step_set));
    v
}

type Step = fn(&mut Case<'_>, &Doc, &mut Document, &str) -> Result<Option<Doc>, Fail>;

/// Any edit, and then the given one.
fn after_edit(tier: Tier, name: &str, step: Step) -> Vec<Space> {
    let small = Config {
        budget: 3,
        width: 3,
        depth: 3,
        duplicates: false,
        scalars: false,
        keys: false,
        layout: true,
    };
    let mut out = Vec::new();
    for (what, before, cfg, devs) in [
        ("layouts", 1, small, tier.sel(1, 2)),
        (
            "again",
            2,
            Config {
                budget: tier.sel(2, 3),
                ..small
            },
            1,
        ),
        (
            "shapes",
            1,
            Config {
                budget: tier.sel(4, 5),
                layout: false,
                ..small
            },
            0,
        ),
        (
            "everything",
            1,
            Config {
                scalars: true,
                keys: true,
                ..small
            },
            1,
        ),
    ] {
        out.push(Space::new(format!("{before} edits, then {name}, {what}"), devs, move |c| {
            let mut d = gen::doc(c, cfg);
            let mut doc = parse_doc(&d)?;
            let mut log = d.show();
            for _ in 0..before {
                let first: Step = if c.pick(2) == 0 { step_set } else { step_entry };
                let Some(e) = first(c, &d, &mut doc, &log)? else {
                    c.outcome("not followed");
                    return Ok(());
                };
                log.push_str(&format!(" which is now {}", e.show()));
                c.transition();
                d = e;
            }
            step(c, &d, &mut doc, &log)?;
            c.transition();
            Ok(())
        }));
    }
    out
}

impl Doc {
    fn show(&self) -> String {
        show(&self.text)
    }

    /// The document after the value at the given path has been edited.
    fn edited(&self, path: &[usize], text: Vec<u8>, f: impl FnOnce(&mut Tree)) -> Doc {
        fn go(t: &mut Tree, path: &[usize], by: isize, f: impl FnOnce(&mut Tree)) {
            let Some((&i, rest)) = path.split_first() else {
                return f(t);
            };
            go(&mut t.items[i].value, rest, by, f);
            t.items[i].comma = t.items[i].comma.map(|n| n.wrapping_add_signed(by));
            for item in &mut t.items[i + 1..] {
                moved(item, by);
            }
            t.end = match t.items.last() {
                Some(item) if t.shape.is_block() => item.value.end,
                _ => t.end.wrapping_add_signed(by),
            };
        }
        let by = text.len() as isize - self.text.len() as isize;
        let mut tree = self.tree.clone();
        go(&mut tree, path, by, f);
        Doc {
            text,
            tree,
            ..*self
        }
    }
}

fn moved(item: &mut gen::Item, by: isize) {
    fn tree(t: &mut Tree, by: isize) {
        for n in [&mut t.pre, &mut t.start, &mut t.end] {
            *n = n.wrapping_add_signed(by);
        }
        for item in &mut t.items {
            moved(item, by);
        }
    }
    item.start = item.start.wrapping_add_signed(by);
    item.comma = item.comma.map(|n| n.wrapping_add_signed(by));
    if let Some(k) = &mut item.key {
        k.start = k.start.wrapping_add_signed(by);
        k.end = k.end.wrapping_add_signed(by);
    }
    tree(&mut item.value, by);
}

fn leaf(scalar: Node, pre: usize, start: usize, end: usize) -> Tree {
    Tree {
        shape: if start == end { Shape::Empty } else { Shape::Scalar },
        scalar,
        pre,
        start,
        end,
        indent: 0,
        items: Vec::new(),
    }
}

/// Set any value. Returns the document as it is now.
fn step_set(c: &mut Case<'_>, d: &Doc, doc: &mut Document, log: &str) -> Result<Option<Doc>, Fail> {
    let paths = d.paths();
    let path = &paths[c.pick(paths.len())];
    let t = d.tree.at(path);
    // Inserting with a key that is there sets the value.
    let (last, key) = match path.split_last() {
        Some((last, parent)) if is_first(d, path) => (parent, d.tree.at(parent).items[*last].key.as_ref()),
        _ => (&[][..], None),
    };
    let again = c.pick(SETTERS.len() + usize::from(key.is_some()));
    let k = again % SETTERS.len();
    let op = if again == k {
        format!("set {:?} at {path:?}", SETTERS[k])
    } else {
        format!("insert {:?} with the key of {path:?}", SETTERS[k])
    };
    let case = format!("{log}: {op}");
    note(|n| n.clone_from(&case));

    let Some(mut v) = value_mut(doc, d, if again == k { path } else { last }) else {
        return fail("a value cannot be reached", case, "");
    };
    let node = match (again == k, key) {
        (false, Some(key)) => {
            let Some(mut m) = v.as_mapping_mut() else {
                return fail("a value cannot be reached", case, "");
            };
            m.insert_u32(&key.name, 42);
            Node::num("42")
        }
        _ => set(&mut v, k),
    };

    let flow_seq_item = path.split_last().is_some_and(|(_, p)| d.tree.at(p).shape == Shape::FlowSeq);
    let root = path.is_empty();
    let new = SETTERS[k];

    let (start, end, text) = if new.is_empty() {
        // Whitespace in front of nothing is not written.
        (if root { t.start } else { t.pre }, d.end(t), String::new())
    } else if t.shape == Shape::Empty {
        let space = if !root {
            if flow_seq_item { "" } else { " " }
        } else if d.text[..t.pre].rsplit(|&b| b == b'\n').next().is_some_and(|l| !l.trim_ascii().is_empty()) {
            "\n"
        } else {
            ""
        };
        (t.pre, t.end, format!("{space}{new}"))
    } else {
        (t.start, d.end(t), new.to_string())
    };
    let expected = splice(&d.text, start, end, text.as_bytes());

    c.nontrivial(case.as_bytes());
    c.sample(|| format!("{case} gives {}", show(&expected)));
    compare(&case, doc, &expected)?;

    let Some(v) = value_at(doc.as_ref(), d, path) else {
        return fail("the value is gone", case, "");
    };
    let got = crate::view::node(&v);
    if got != node {
        return fail("the value is not what was set", case, format!("{got}, expected {node}"));
    }
    if root || new.is_empty() {
        return Ok(None);
    }
    let at = start + text.len();
    Ok(Some(d.edited(path, expected, |t| {
        *t = leaf(node, t.pre, at - new.len(), at);
    })))
}

fn spaces_c06(tier: Tier) -> Vec<Space> {
    let mut v = docs(tier, edit_configs(tier), "entries in ", true, |c, d| {
        step_entry(c, d, &mut parse_doc(d)?, &d.show())?;
        Ok(())
    });
    v.extend(after_edit(tier, "edit entries", step_entry));
    v
}

/// What is inserted, and how it is written.
const VALUES: &[(&str, &str)] = &[("u32", "77"), ("string", "in'ner"), ("bool", "false"), ("null", ""), ("spaced", "77")];

/// The separator of what is inserted as spaced.
const SPACED: &str = "   ";

/// Remove or add any entry. Returns the document as it is now.
fn step_entry(c: &mut Case<'_>, d: &Doc, doc: &mut Document, log: &str) -> Result<Option<Doc>, Fail> {
    let paths: Vec<_> = d
        .paths()
        .into_iter()
        .filter(|p| d.tree.at(p).shape.is_collection())
        .collect();
    if paths.is_empty() {
        return Ok(None);
    }
    let path = &paths[c.pick(paths.len())];
    let t = d.tree.at(path);
    let n = t.items.len();
    let root = path.is_empty();
    let map = matches!(t.shape, Shape::Map | Shape::FlowMap);
    let flow = t.shape.is_flow();
    // Remove each entry, clear, add.
    let k = c.pick(n + 1 + VALUES.len());
    let op = match k.checked_sub(n) {
        None => format!("remove {k} of {path:?}"),
        Some(0) => format!("clear {path:?}"),
        Some(k) => format!("add {} to {path:?}", VALUES[k - 1].0),
    };
    let case = format!("{log}: {op}");
    note(|n| n.clone_from(&case));
    c.nontrivial(case.as_bytes());
    c.outcome(op.split(' ').next().unwrap_or_default());
    let Some(mut v) = value_mut(doc, d, path) else {
        return fail("a value cannot be reached", case, "");
    };

    if k < n {
        let item = &t.items[k];
        let done = if map {
            let key = item.key.as_ref().map(|k| k.name.clone()).unwrap_or_default();
            let key = String::from_utf8(key).unwrap_or_default();
            if !d.unique && !is_first(d, &[&path[..], &[k]].concat()) {
                // Only the first entry with a key is removed by it.
                return Ok(None);
            }
            v.as_mapping_mut().is_some_and(|mut m| m.remove(&key) && (!d.unique || !m.remove(&key)))
        } else {
            v.as_sequence_mut().is_some_and(|mut s| !s.remove(n) && s.remove(k))
        };
        if !done {
            return fail("an entry is not removed", case, "");
        }
        let (start, end) = if flow {
            let after = if k == 0 {
                t.start + 1
            } else {
                t.items[k - 1].comma.unwrap_or(0) + 1
            };
            match item.comma {
                Some(n) => (after, n + 1),
                None if k > 0 => (after - 1, item.value.end),
                None => (after, item.value.end),
            }
        } else if n == 1 {
            (if root { t.start } else { t.pre }, d.extent(t.end))
        } else if k == 0 {
            (t.start, d.extent(item.value.end))
        } else {
            (d.extent(t.items[k - 1].value.end), d.extent(item.value.end))
        };
        let expected = splice(&d.text, start, end, b"");
        if !flow && k > 0 && ends_with_block(&t.items[k - 1].value) {
            after_block(c, d, path, k, case, doc, &expected)?;
            return Ok(None);
        }
        c.sample(|| format!("{case} gives {}", show(&expected)));
        compare(&case, doc, &expected)?;
        if !flow && k > 0 && start > t.items[k - 1].value.end && expected.get(start).is_some_and(|&b| b != b'\n') {
            // Whitespace is now after the comment of the entry in front of it.
            return Ok(None);
        }
        if n == 1 || (flow && item.comma.is_none() && t.items[k - 1].comma != Some(t.items[k - 1].value.end)) {
            // What is inserted next may have the separator of what was there,
            // and whitespace in front of the comma is now that of the entry.
            return Ok(None);
        }
        return Ok(Some(d.edited(path, expected, |t| {
            let by = -((end - start) as isize);
            let had = t.items.remove(k).comma.is_some();
            for item in &mut t.items[k..] {
                moved(item, by);
            }
            if flow {
                t.end = t.end.wrapping_add_signed(by);
                if !had && k > 0 {
                    t.items[k - 1].comma = None;
                }
            } else {
                // The line break in front of the new first entry is part of
                // the collection.
                t.end = t.items[t.items.len() - 1].value.end;
            }
        })));
    }

    if k == n {
        match v.into_any_mut() {
            yaml::AnyMut::Mapping(mut m) => m.clear(),
            yaml::AnyMut::Sequence(mut s) => s.clear(),
            _ => {}
        }
        let (start, end) = if !flow {
            (if root { t.start } else { t.pre }, d.extent(t.end))
        } else {
            match t.items.last() {
                Some(item) => (
                    t.start + 1,
                    item.comma.map_or(item.value.end, |n| n + 1),
                ),
                None => (t.start + 1, t.start + 1),
            }
        };
        let expected = splice(&d.text, start, end, b"");
        c.sample(|| format!("{case} gives {}", show(&expected)));
        compare(&case, doc, &expected)?;
        return Ok(None);
    }

    let (kind, text) = VALUES[k - n - 1];
    let is_there = |key: &str| {
        t.items
            .iter()
            .any(|i| i.key.as_ref().is_some_and(|k| k.name == key.as_bytes()))
    };
    let key = ["new", "newer", "newest"].into_iter().find(|k| !is_there(k)).unwrap_or("n");
    match v.into_any_mut() {
        yaml::AnyMut::Mapping(mut m) => match kind {
            "u32" => m.insert_u32(key, 77),
            "string" => m.insert_str(key, text),
            "bool" => m.insert_bool(key, false),
            "spaced" => m.insert(key, yaml::Separator::Custom(SPACED)).set_u32(77),
            _ => {
                m.insert(key, yaml::Separator::Auto).set_null(yaml::Null::Empty);
            }
        },
        yaml::AnyMut::Sequence(mut s) => match kind {
            "u32" => s.push_u32(77),
            "string" => s.push_string(text),
            "bool" => s.push_bool(false),
            "spaced" => s.push(yaml::Separator::Custom(SPACED)).set_u32(77),
            _ => {
                s.push(yaml::Separator::Auto).set_null(yaml::Null::Empty);
            }
        },
        _ => {}
    }
    let text = if kind == "string" {
        "\"in'ner\""
    } else {
        text
    };
    let node = match kind {
        "u32" | "spaced" => Node::num(77),
        "string" => Node::str("in'ner"),
        "bool" => Node::Bool(false),
        _ => Node::Null,
    };
    // Where the entry is, and the position of its value and of its comma.
    let (at, expected, value, comma) = if !map && !flow {
        // The separator of the last item is used again.
        let (expected, value) = pushed(c, d, t, &case, text, (kind == "spaced").then_some(SPACED), doc)?;
        let at = t.items.last().map_or(t.end, |i| d.extent(i.value.end)) + 1 + t.indent;
        (at, expected, value, None)
    } else {
        let entry = match (map, flow, text) {
            (true, _, "") => format!("{key}:"),
            (true, ..) if kind == "spaced" => format!("{key}:{SPACED}{text}"),
            (false, ..) if kind == "spaced" => format!("{SPACED}{text}"),
            (true, ..) => format!("{key}: {text}"),
            (false, ..) => text.to_string(),
        };
        let (at, before, after) = if !flow {
            let last = t.items.last().map_or(t.end, |i| d.extent(i.value.end));
            (last, format!("\n{}", " ".repeat(t.indent)), "")
        } else {
            match t.items.last() {
                None => (t.start + 1, String::new(), ""),
                Some(item) => match item.comma {
                    Some(n) => (n + 1, " ".to_string(), ","),
                    None => (item.value.end, ", ".to_string(), ""),
                },
            }
        };
        let expected = splice(&d.text, at, at, format!("{before}{entry}{after}").as_bytes());
        c.sample(|| format!("{case} gives {}", show(&expected)));
        compare(&case, doc, &expected)?;
        let at = at + before.len();
        let end = at + entry.len();
        (at, expected, end - text.len(), (after == ",").then_some(end))
    };
    if !map && text.is_empty() {
        // Nothing cannot be the last item of an inline sequence, and the one of
        // a block sequence has a separator which is not written.
        return Ok(None);
    }
    let by = expected.len() - d.text.len();
    Ok(Some(d.edited(path, expected, |t| {
        if let Some(item) = t.items.last_mut() {
            if flow && item.comma.is_none() {
                item.comma = Some(item.value.end);
            }
        }
        let end = value + text.len();
        let pre = if map { at + key.len() + 1 } else if flow { at } else { at + 1 };
        t.items.push(gen::Item {
            key: map.then(|| gen::Key {
                name: key.into(),
                start: at,
                end: at + key.len(),
            }),
            start: at,
            comma,
            value: leaf(node, if text.is_empty() { value } else { pre }, value, end),
        });
        if flow {
            t.end += by;
        } else {
            t.end = end;
        }
    })))
}

fn ends_with_block(t: &gen::Tree) -> bool {
    match t.shape {
        Shape::Block => true,
        Shape::Map | Shape::Seq => t.items.last().is_some_and(|i| ends_with_block(&i.value)),
        _ => false,
    }
}

/// What now follows a block scalar must not become part of it, so whitespace at
/// the end of its line, and in front of comments, may differ.
fn after_block(
    c: &mut Case<'_>,
    d: &Doc,
    path: &[usize],
    k: usize,
    case: String,
    doc: &Document,
    expected: &[u8],
) -> Res {
    fn lines(t: &[u8]) -> Vec<&[u8]> {
        t.split(|&b| b == b'\n')
            .map(|l| {
                if l.trim_ascii_start().starts_with(b"#") {
                    l.trim_ascii_start()
                } else {
                    l.trim_ascii_end()
                }
            })
            .filter(|l| !l.is_empty())
            .collect()
    }
    let w = written(doc);
    c.outcome("remove after a block");
    if lines(&w) != lines(expected) {
        return fail("an edit changes other bytes", case, show(&w));
    }
    let mut tree = d.tree.clone();
    let mut t = &mut tree;
    for &i in path {
        t = &mut t.items[i].value;
    }
    t.items.remove(k);
    let want = tree.node();
    // The last line break of a block scalar may be the end of the document.
    let got = yaml::from_slice(if w.ends_with(b"\n") { w } else { [&w[..], b"\n"].concat() });
    match got {
        Ok(got) if view(&got) == want => Ok(()),
        Ok(got) => fail(
            "what follows a block became part of it",
            case,
            format!("{}, expected {want}", view(&got)),
        ),
        Err(e) => fail("an edited document is rejected", case, e.to_string()),
    }
}

fn pushed(
    c: &mut Case<'_>,
    d: &Doc,
    t: &gen::Tree,
    case: &str,
    text: &str,
    custom: Option<&str>,
    doc: &Document,
) -> Result<(Vec<u8>, usize), Fail> {
    let at = t.items.last().map_or(t.end, |i| d.extent(i.value.end));
    let w = written(doc);
    let (head, tail) = (&d.text[..at], &d.text[at..]);
    c.outcome("push");
    c.sample(|| format!("{case} gives {}", show(&w)));

    let inner = (w.starts_with(head) && w.ends_with(tail) && w.len() >= head.len() + tail.len())
        .then(|| &w[head.len()..w.len() - tail.len()]);
    let dash = format!("\n{}-", " ".repeat(t.indent));
    let sep = inner
        .and_then(|i| i.strip_prefix(dash.as_bytes()))
        .and_then(|i| i.strip_suffix(text.as_bytes()));
    let ok = sep.is_some_and(|sep| {
        if let Some(custom) = custom {
            return sep == custom.as_bytes();
        }
        if text.is_empty() {
            return sep.is_empty();
        }
        let last = t.items.last().map(|i| &d.text[i.start + 1..i.value.start]);
        let auto = match last {
            Some(b"") => t.items.iter().any(|i| sep == &d.text[i.start + 1..i.value.start]),
            Some(last) => sep == last,
            None => false,
        };
        auto || sep == b" "
    });
    if !ok {
        return fail(
            "a push changes other bytes",
            case,
            format!("written: {}", show(&w)),
        );
    }
    let value = w.len() - tail.len() - text.len();
    Ok((w, value))
}

fn spaces_c19(tier: Tier) -> Vec<Space> {
    docs(tier, configs(tier), "values of ", true, |c, d| {
        let doc = parse_doc(d)?;
        c.nontrivial(&d.text);
        for path in d.paths() {
            let t = d.tree.at(&path);
            let case = || format!("{}: {path:?}", show(&d.text));
            let Some(v) = value_at(doc.as_ref(), d, &path) else {
                return fail("a value cannot be reached", case(), "");
            };
            let text = &d.text[t.start..d.end(t)];
            let shown = match v.as_any() {
                yaml::Any::Mapping(m) => {
                    if m.to_string() != v.to_string() {
                        return fail("a mapping differs from its value", case(), m.to_string());
                    }
                    m.to_string()
                }
                yaml::Any::Sequence(s) => {
                    if s.to_string() != v.to_string() {
                        return fail("a sequence differs from its value", case(), s.to_string());
                    }
                    s.to_string()
                }
                yaml::Any::Number(n) => {
                    if n.as_raw() != text {
                        return fail("raw text of a number", case(), n.as_raw().to_string());
                    }
                    v.to_string()
                }
                yaml::Any::String(s) => {
                    if t.shape == Shape::Scalar && s.as_raw() != text {
                        return fail("raw text of a string", case(), s.as_raw().to_string());
                    }
                    v.to_string()
                }
                _ => v.to_string(),
            };
            if shown.as_bytes() != text {
                return fail(
                    "a value is not displayed as it is in the document",
                    case(),
                    format!("{}, expected {}", show(shown.as_bytes()), show(text)),
                );
            }
            c.count("values", 1);
        }
        c.sample(|| format!("{}: {} values", show(&d.text), d.paths().len()));
        Ok(())
    })
}
