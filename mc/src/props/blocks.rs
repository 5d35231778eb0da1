//! Block scalars: C20.

use nondestructive::yaml::{self, Block, Chomp, MappingMut, SequenceMut, ValueMut};

use super::writes::{self, What};
use super::{inputs, Prop};
use crate::engine::*;
use crate::gen;
use crate::view::*;

pub static C20: Prop = Prop {
    id: "C20",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of block scalars line by line, in every position, against a reference reader cross-checked with libyaml, and of blocks to write through a round trip",
    rule: "reading: every header, every list of lines of the space, every position and what follows; writing: every list of lines, every kind of block and every place; non-trivial: distinct documents the reference reader knows, and distinct combinations written",
    assumptions: &[
        "The reference reader is right; it is cross-checked with libyaml (serde_yaml) on every document",
        "Not claimed: text on the header line, blank and more indented lines of folded blocks, and texts which are not YAML",
    ],
    spaces: spaces_c20,
    probes: &[],
};

/// Where a block is: what is in front of it, the indentation of the collection
/// it is in, and what comes after it.
struct Position {
    before: &'static str,
    parent: Option<usize>,
    after: &'static [&'static str],
    /// What the document holds.
    tree: fn(Node, usize) -> Node,
}

fn map(e: Vec<(&str, Node)>) -> Node {
    Node::Map(e.into_iter().map(|(k, v)| (k.as_bytes().to_vec(), v)).collect())
}

fn seq(e: Vec<Node>) -> Node {
    Node::Seq(e)
}

fn opt(b: bool, n: Node) -> Option<Node> {
    b.then_some(n)
}

fn y() -> Node {
    Node::str("y")
}

/// The first positions are the ones of the largest spaces.
const POSITIONS: &[Position] = &[
    Position {
        before: "a: ",
        parent: Some(0),
        after: &["", "b: y\n"],
        tree: |n, i| map([("a", n)].into_iter().chain((i > 0).then(|| ("b", y()))).collect()),
    },
    Position {
        before: "- a: ",
        parent: Some(2),
        after: &["", "  b: y\n", "- y\n"],
        tree: |n, i| match i {
            0 => seq(vec![map(vec![("a", n)])]),
            1 => seq(vec![map(vec![("a", n), ("b", y())])]),
            _ => seq(vec![map(vec![("a", n)]), y()]),
        },
    },
    Position {
        before: "",
        parent: None,
        after: &[""],
        tree: |n, _| n,
    },
    Position {
        before: "--- ",
        parent: None,
        after: &[""],
        tree: |n, _| n,
    },
    Position {
        before: "---\n",
        parent: None,
        after: &[""],
        tree: |n, _| n,
    },
    Position {
        before: "- ",
        parent: Some(0),
        after: &["", "- y\n"],
        tree: |n, i| seq([n].into_iter().chain(opt(i > 0, y())).collect()),
    },
    Position {
        before: "- - ",
        parent: Some(2),
        after: &["", "  - y\n", "- y\n"],
        tree: |n, i| match i {
            0 => seq(vec![seq(vec![n])]),
            1 => seq(vec![seq(vec![n, y()])]),
            _ => seq(vec![seq(vec![n]), y()]),
        },
    },
    Position {
        before: "a:\n  b: ",
        parent: Some(2),
        after: &["", "  c: y\n", "d: y\n"],
        tree: |n, i| match i {
            0 => map(vec![("a", map(vec![("b", n)]))]),
            1 => map(vec![("a", map(vec![("b", n), ("c", y())]))]),
            _ => map(vec![("a", map(vec![("b", n)])), ("d", y())]),
        },
    },
    Position {
        before: "a:\n- ",
        parent: Some(0),
        after: &["", "- y\n", "d: y\n"],
        tree: |n, i| match i {
            0 => map(vec![("a", seq(vec![n]))]),
            1 => map(vec![("a", seq(vec![n, y()]))]),
            _ => map(vec![("a", seq(vec![n])), ("d", y())]),
        },
    },
    Position {
        before: "a:\n  - ",
        parent: Some(2),
        after: &["", "  - y\n", "d: y\n"],
        tree: |n, i| match i {
            0 => map(vec![("a", seq(vec![n]))]),
            1 => map(vec![("a", seq(vec![n, y()]))]),
            _ => map(vec![("a", seq(vec![n])), ("d", y())]),
        },
    },
    Position {
        before: "a:\n  ",
        parent: Some(0),
        after: &["", "d: y\n"],
        tree: |n, i| map([("a", n)].into_iter().chain((i > 0).then(|| ("d", y()))).collect()),
    },
    Position {
        before: "-   - a: ",
        parent: Some(6),
        after: &["", "      b: y\n", "    - y\n"],
        tree: |n, i| match i {
            0 => seq(vec![seq(vec![map(vec![("a", n)])])]),
            1 => seq(vec![seq(vec![map(vec![("a", n), ("b", y())])])]),
            _ => seq(vec![seq(vec![map(vec![("a", n)]), y()])]),
        },
    },
    Position {
        before: "'k' :  ",
        parent: Some(0),
        after: &["", "b: y\n"],
        tree: |n, i| map([("k", n)].into_iter().chain((i > 0).then(|| ("b", y()))).collect()),
    },
    Position {
        before: "  a: y\n  b: ",
        parent: Some(2),
        after: &["", "  c: y\n"],
        tree: |n, i| map([("a", y()), ("b", n)].into_iter().chain((i > 0).then(|| ("c", y()))).collect()),
    },
];

/// What a block says, or `None` if it is not one, or not one which is claimed.
///
/// `ends` says whether the last line has a line break.
fn reference(folded: bool, digit: Option<usize>, chomp: Chomp, parent: Option<usize>, lines: &[String], ends: bool) -> Option<String> {
    let spaces = |l: &str| l.bytes().take_while(|&b| b == b' ').count();
    let least = parent.map_or(0, |n| n + 1);
    let n = match digit {
        Some(d) => parent.unwrap_or(0) + d,
        None => {
            let first = lines.iter().find(|l| spaces(l) < l.len());
            // All of the lines are empty.
            let w = first.map_or(usize::MAX, |l| spaces(l));
            let widest = lines.iter().take_while(|l| spaces(l) == l.len()).map(|l| l.len()).max().unwrap_or(0);
            // Empty lines in front of the content must not be wider than it.
            if first.is_some() && w >= least && widest > w {
                return None;
            }
            if w < least { usize::MAX } else { w }
        }
    };
    let mut out = String::new();
    // Line breaks since the content.
    let mut breaks = 0;
    let mut content = false;
    let mut it = lines.iter().enumerate().peekable();
    while let Some((i, l)) = it.peek().copied() {
        let w = spaces(l);
        let last = i + 1 == lines.len() && !ends;
        if w < n && w < l.len() {
            break;
        }
        it.next();
        // Empty lines which are as wide as the content are not empty.
        if w == l.len() && w <= n {
            breaks += usize::from(!last);
            continue;
        }
        let l = &l[n..];
        if folded && (l.starts_with([' ', '\t']) || l.ends_with([' ', '\t'])) {
            return None;
        }
        if folded && content {
            if breaks > 1 {
                return None;
            }
            out.push(' ');
        } else {
            out.extend((0..breaks).map(|_| '\n'));
        }
        out.push_str(l);
        content = true;
        breaks = usize::from(!last);
    }
    // What is left must be comments.
    for (_, l) in it {
        let l = l.trim_start_matches(' ');
        if !l.is_empty() && !l.starts_with('#') {
            return None;
        }
    }
    match chomp {
        Chomp::Keep => out.extend((0..breaks).map(|_| '\n')),
        Chomp::Clip if content && breaks > 0 => out.push('\n'),
        _ => {}
    }
    Some(out)
}

struct Header {
    text: String,
    folded: bool,
    digit: Option<usize>,
    chomp: Chomp,
}

fn header(c: &mut Case<'_>, all: bool) -> Header {
    let folded = c.pick(2) == 1;
    let (chomp, sign) = [(Chomp::Clip, ""), (Chomp::Strip, "-"), (Chomp::Keep, "+")][c.pick(3)];
    let digit = match c.pick(if all { 6 } else { 3 }) {
        0 => None,
        n => Some([1, 2, 3, 4, 9][n - 1]),
    };
    let d = digit.map(|d| d.to_string()).unwrap_or_default();
    let mark = if folded { ">" } else { "|" };
    let swap = digit.is_some() && !sign.is_empty() && c.pick(2) == 1;
    let tail = if all { c.of(&["", " ", " # c", "  #", "\t# c: |"]) } else { "" };
    let text = if swap { format!("{mark}{sign}{d}{tail}") } else { format!("{mark}{d}{sign}{tail}") };
    Header { text, folded, digit, chomp }
}

fn read(c: &mut Case<'_>, h: &Header, lines: &[String], p: &Position, rest: usize, crlf: bool, ends: bool) -> Res {
    read_with(c, h, lines, p, rest, crlf, ends, true)
}

#[allow(clippy::too_many_arguments)]
fn read_with(c: &mut Case<'_>, h: &Header, lines: &[String], p: &Position, rest: usize, crlf: bool, ends: bool, cross: bool) -> Res {
    let Some(want) = reference(h.folded, h.digit, h.chomp, p.parent, lines, ends) else {
        c.count("not a block which is claimed", 1);
        return Ok(());
    };
    let want = (p.tree)(Node::str(want), rest);
    let mut text = format!("{}{}\n", p.before, h.text);
    for l in lines {
        text.push_str(l);
        text.push('\n');
    }
    if !ends {
        text.pop();
    }
    text.push_str(p.after[rest]);
    if crlf {
        text = text.replace('\n', "\r\n");
    }
    let case = || show(text.as_bytes());
    note(|n| *n = case());
    c.nontrivial(text.as_bytes());

    match serde_yaml::from_str::<serde_yaml::Value>(&text) {
        _ if !cross => {}
        Ok(v) if gen::same_as_yaml(&want, &v) => {
            c.count("cross-checked with libyaml", 1);
        }
        Ok(_) if p.parent.is_none() && lines.iter().any(|l| !l.is_empty() && !l.starts_with(' ')) => {}
        Ok(v) => internal(&format!("reference reader: {} is {want}, libyaml: {v:?}", case())),
        Err(e) => {
            c.count("rejected by libyaml", 1);
            // NB: libyaml wants the content of a block to be indented at the root.
            let flush = p.parent.is_none() && lines.iter().any(|l| !l.is_empty() && !l.starts_with(' '));
            // NB: it takes a tab the content starts with for indentation.
            let tab = lines.iter().any(|l| l.trim_start_matches(' ').starts_with('\t'));
            if !flush && !tab {
                internal(&format!("libyaml rejects {}: {e}", case()));
            }
        }
    }

    match yaml::from_slice(&text) {
        Ok(d) => {
            let got = view(&d);
            if got != want {
                return fail("a block scalar is read as something else", case(), format!("{got}, expected {want}"));
            }
        }
        Err(e) => return fail("a block scalar is rejected", case(), e.to_string()),
    }
    c.outcome(if h.folded { "folded" } else { "literal" });
    c.sample(case);
    Ok(())
}

/// Contents of lines, without indentation.
const CONTENT: &[&str] = &["", "t", "# c", "k: v", "- x", "u ", "\tt", "\t", "\"q", "- |", "é", "]", "---", "t # c", "'"];

fn line(c: &mut Case<'_>, widths: &[usize], contents: usize) -> String {
    let w = c.of(widths);
    format!("{:w$}{}", "", c.of(&CONTENT[..contents]))
}

fn chomps() -> [(Chomp, &'static str); 3] {
    [(Chomp::Clip, "clip"), (Chomp::Strip, "strip"), (Chomp::Keep, "keep")]
}

struct Lines<'a> {
    lines: Vec<&'a str>,
    block: Block,
}

impl What for Lines<'_> {
    fn set(&self, v: &mut ValueMut<'_>) {
        v.set_block(&self.lines, self.block);
    }
    fn insert(&self, m: &mut MappingMut<'_>, key: &[u8]) {
        m.insert_block(key, &self.lines, self.block);
    }
    fn push(&self, s: &mut SequenceMut<'_>) {
        s.push_block(&self.lines, self.block);
    }
}

/// Lines to write.
const WRITE: &[&str] = &[
    "", "t", "u v", "  x", "k: v", "- x", "# c", "w ", "'q'", "\"", "---", "é", "a #b", "]", "{", "\tt", "|", "...", ": ", "\\n", "~", "%", "  ", "\t",
    "? x", "&a",
];

/// Whether lines can be written as such a block.
fn fits(lines: &[&str], folded: bool, chomp: Chomp) -> bool {
    let trim = |l: &&str| l.trim_matches([' ', '\t', '\u{c}', '\r', '\n']).len();
    if folded {
        return !lines.iter().any(|l| trim(l) == 0 || trim(l) != l.len());
    }
    // NB: a line of whitespace in front is only told from an empty one by an
    // indentation indicator.
    match chomp {
        _ if lines.iter().all(|l| l.is_empty()) => lines.is_empty(),
        Chomp::Keep => true,
        _ => lines.last().map_or(true, |l| !l.is_empty()),
    }
}

fn spaces_c20(tier: Tier) -> Vec<Space> {
    let mut out = Vec::new();

    out.push(Space::new("reading: every header and position, 2 lines", 0, move |c| {
        let h = header(c, true);
        let p = &POSITIONS[c.pick(POSITIONS.len())];
        let rest = c.pick(p.after.len());
        let n = c.pick(3);
        let base = p.parent.unwrap_or(0);
        let lines: Vec<String> = (0..n).map(|_| line(c, &[base + 2, base + 3, 0, base + 1, base], tier.sel(3, 5))).collect();
        let crlf = c.pick(2) == 1;
        let ends = n == 0 || rest > 0 || c.pick(2) == 0;
        read(c, &h, &lines, p, rest, crlf, ends)
    }));
    let n = tier.sel(4, 5);
    out.push(Space::new(format!("reading: {n} lines of every width"), 0, move |c| {
        let h = header(c, false);
        let p = &POSITIONS[c.pick(tier.sel(2, 3))];
        let rest = c.pick(p.after.len());
        let k = c.pick(n + 1);
        let base = p.parent.unwrap_or(0);
        let lines: Vec<String> = (0..k).map(|_| line(c, &[base + 2, base + 1, base + 3, 0], 3)).collect();
        let ends = k == 0 || rest > 0 || c.pick(2) == 0;
        read(c, &h, &lines, p, rest, false, ends)
    }));
    out.push(Space::new("reading: lines of every content", 0, move |c| {
        let h = header(c, false);
        let p = &POSITIONS[c.pick(tier.sel(3, POSITIONS.len()))];
        let rest = c.pick(p.after.len());
        let k = c.pick(3) + 1;
        let base = p.parent.unwrap_or(0) + 2;
        let lines: Vec<String> = (0..k).map(|_| line(c, &[base], CONTENT.len())).collect();
        let crlf = c.pick(2) == 1;
        read(c, &h, &lines, p, rest, crlf, true)
    }));

    out.push(Space::new("reading: every indentation", 0, move |c| {
        let folded = c.pick(2) == 1;
        let (chomp, sign) = [(Chomp::Clip, ""), (Chomp::Strip, "-"), (Chomp::Keep, "+")][c.pick(3)];
        let digit = c.pick(10).checked_sub(1).map(|n| n + 1);
        let d = digit.map(|d| d.to_string()).unwrap_or_default();
        let mark = if folded { ">" } else { "|" };
        let text = if c.pick(2) == 0 { format!("{mark}{d}{sign}") } else { format!("{mark}{sign}{d}") };
        let h = Header { text, folded, digit, chomp };
        let p = &POSITIONS[c.pick(POSITIONS.len())];
        let rest = c.pick(p.after.len());
        let base = p.parent.unwrap_or(0);
        let width = match digit {
            Some(d) => base + d + c.pick(2),
            None => base + 1 + c.pick(tier.sel(40, 140)),
        };
        let t = |n: usize| format!("{:n$}t", "");
        let lines = match c.pick(6) {
            0 => vec![t(width)],
            1 => vec![t(width), t(width)],
            2 => vec![t(width), t(width + 1), t(width)],
            3 => vec![t(width), String::new(), t(width), String::new()],
            4 => vec![String::new(), t(width), t(width + 9)],
            _ => vec![" ".repeat(width), t(width), " ".repeat(width + 1), " ".repeat(base)],
        };
        let ends = rest > 0 || c.pick(2) == 0;
        read(c, &h, &lines, p, rest, false, ends)
    }));
    const SIZES: &[usize] = &[1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 127, 128, 129, 255, 256, 257, 1000, 5000];
    out.push(Space::new("reading: code points", 0, move |c| {
        let ch = inputs::codepoint(c, tier);
        let h = Header {
            text: String::new(),
            ..header(c, false)
        };
        if h.digit.is_some() || matches!(ch, '\n' | '\r' | ' ' | '\t' | '\u{c}') {
            return Ok(());
        }
        let sign = ["", "-", "+"][matches!(h.chomp, Chomp::Strip) as usize + 2 * matches!(h.chomp, Chomp::Keep) as usize];
        let h = Header {
            text: format!("{}{sign}", if h.folded { ">" } else { "|" }),
            ..h
        };
        let p = &POSITIONS[c.pick(2)];
        let rest = c.pick(p.after.len());
        let t = |s: String| format!("{:1$}{s}", "", p.parent.unwrap_or(0) + 2);
        let lines = match c.pick(7) {
            0 => vec![t(format!("{ch}"))],
            1 => vec![t(format!("a{ch}"))],
            2 => vec![t(format!("{ch}a"))],
            3 => vec![t(format!("a{ch}b")), t("c".into())],
            4 => vec![t("a".into()), t(format!("{ch}"))],
            5 => vec![t(format!("{ch}")), t("a".into())],
            _ => vec![t("a".into()), t(format!("{ch}")), t("a".into()), String::new()],
        };
        // NB: libyaml knows line breaks which are none any more, and rejects
        // control characters.
        let cross = !ch.is_control() && !matches!(ch, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}');
        read_with(c, &h, &lines, p, rest, false, true, cross)
    }));

    out.push(Space::new("reading: every size", 0, move |c| {
        let h = header(c, false);
        let p = &POSITIONS[c.pick(POSITIONS.len())];
        let rest = c.pick(p.after.len());
        let n = c.of(SIZES);
        let pad = " ".repeat(p.parent.unwrap_or(0) + 2);
        let lines = match c.pick(5) {
            0 => vec![format!("{pad}{}", "t".repeat(n))],
            1 => (0..n.min(1000)).map(|i| format!("{pad}t{i}")).collect(),
            2 => (0..n.min(1000)).map(|i| if i + 1 < n && i > 0 { String::new() } else { format!("{pad}t") }).collect(),
            3 => (0..n.min(1000)).map(|i| if i > 0 { String::new() } else { format!("{pad}t") }).collect(),
            _ => vec![format!("{pad}{0}", "t u ".repeat(n).trim_end()), format!("{pad}{}", "é".repeat(n))],
        };
        let crlf = c.pick(2) == 1;
        read(c, &h, &lines, p, rest, crlf, true)
    }));

    let all = writes::places(writes::TEXTS);
    let few = writes::few();
    let places = few.clone();
    let some = few.clone();
    out.push(Space::new("writing: code points", 0, move |c| {
        let ch = inputs::codepoint(c, tier);
        if matches!(ch, '\n' | '\r' | ' ' | '\t' | '\u{c}') {
            return Ok(());
        }
        let (a, b, d) = (format!("{ch}"), format!("a{ch}"), format!("{ch}a"));
        let lines = match c.pick(6) {
            0 => vec![&a[..]],
            1 => vec![&b[..], &a[..]],
            2 => vec![&d[..]],
            3 => vec![&a[..], &d[..]],
            4 => vec!["a", &a[..], "a"],
            _ => vec!["", &a[..]],
        };
        let p = &some[c.pick(some.len())];
        wrote(c, p, &lines)
    }));
    out.push(Space::new("writing: every size", 0, move |c| {
        let n = c.of(SIZES);
        let many = n.min(1000);
        let long = "t u ".repeat(n);
        let lines: Vec<String> = match c.pick(5) {
            0 => vec!["t".repeat(n)],
            1 => (0..many).map(|i| format!("t{i}")).collect(),
            2 => (0..many).map(|i| if i + 1 < many && i > 0 { String::new() } else { "t".into() }).collect(),
            3 => (0..many).map(|i| if i > 0 { String::new() } else { "t".into() }).collect(),
            _ => vec![long.trim_end().into(), format!("{}t", " ".repeat(n)), "é".repeat(n)],
        };
        let lines: Vec<&str> = lines.iter().map(|s| s.as_str()).collect();
        let p = &places[c.pick(places.len())];
        wrote(c, p, &lines)
    }));
    for (name, places, max, alphabet) in [
        ("every place", all, 2, tier.sel(12, WRITE.len())),
        ("a few places", few, 3, tier.sel(16, WRITE.len())),
    ] {
        let count = places.len();
        out.push(Space::new(format!("writing: {max} lines, {name} ({count})"), 0, move |c| {
            let k = c.pick(max + 1);
            let lines: Vec<&'static str> = (0..k).map(|_| c.of(&WRITE[..alphabet])).collect();
            let p = &places[c.pick(places.len())];
            wrote(c, p, &lines)
        }));
    }
    out
}

/// Write lines as every kind of block.
fn wrote(c: &mut Case<'_>, p: &writes::Place, lines: &[&str]) -> Res {
    let (chomp, name) = chomps()[c.pick(3)];
    let folded = c.pick(2) == 1;
    if !fits(lines, folded, chomp) {
        c.count("lines which do not make such a block", 1);
        return Ok(());
    }
    let block = if folded { Block::Folded(chomp) } else { Block::Literal(chomp) };
    let case = || format!("{}: {:?} as {} {name}", p.describe(), lines, if folded { "folded" } else { "literal" });
    note(|n| *n = case());
    c.nontrivial(case().as_bytes());
    let mut want = lines.join(if folded { " " } else { "\n" });
    if !lines.is_empty() && !matches!(chomp, Chomp::Strip) {
        want.push('\n');
    }
    let doc = writes::write(p, b"new", &Lines { lines: lines.to_vec(), block })?;
    let text = written(&doc);
    let tree = writes::expected(p, b"new", Node::str(&want));
    let got = view(&doc);
    if got != tree {
        return fail("the edited document does not hold what was written", case(), format!("{got}, expected {tree}"));
    }
    // A document which does not end in a line break, and ends with the
    // block, lacks the line break the block would end with.
    let mut read_back = tree.clone();
    if !text.ends_with(b"\n") && !p.flow {
        cut(&mut read_back, &p.target());
    }
    writes::reparse(&doc, &read_back, case)?;
    c.outcome(match (p.flow, folded) {
        (true, _) => "in an inline collection",
        (_, true) => "folded",
        (_, false) => "literal",
    });
    c.sample(case);
    Ok(())
}

/// Remove the last line break of the value at the path, if it is the last one
/// of the document.
fn cut(n: &mut Node, path: &[usize]) {
    match (n, path) {
        (Node::Str(s), []) => {
            if s.ends_with(b"\n") {
                s.pop();
            }
        }
        (Node::Map(m), [i, rest @ ..]) if i + 1 == m.len() => cut(&mut m[*i].1, rest),
        (Node::Seq(m), [i, rest @ ..]) if i + 1 == m.len() => cut(&mut m[*i], rest),
        _ => {}
    }
}
