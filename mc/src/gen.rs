//! Reference renderer: enumerates documents together with what they mean.
//!
//! The shape of the tree is enumerated with free choices within a budget of
//! nodes, its formatting with bounded deviations from the plainest form. Every
//! document comes with the data it denotes and with where every entry, key and
//! value is in its text. None of this uses the crate under test.

use crate::engine::{Case, Tier};
use crate::view::Node;

#[derive(Clone, Debug)]
pub struct Key {
    pub name: Vec<u8>,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub key: Option<Key>,
    /// The first byte of the entry: its dash, key, or value.
    pub start: usize,
    /// Where the comma after the entry is.
    pub comma: Option<usize>,
    pub value: Tree,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Scalar,
    Block,
    Empty,
    Seq,
    Map,
    FlowSeq,
    FlowMap,
}

impl Shape {
    pub fn is_flow(self) -> bool {
        matches!(self, Shape::FlowSeq | Shape::FlowMap)
    }

    pub fn is_block(self) -> bool {
        matches!(self, Shape::Seq | Shape::Map)
    }

    pub fn is_collection(self) -> bool {
        self.is_flow() || self.is_block()
    }
}

#[derive(Clone, Debug)]
pub struct Tree {
    pub shape: Shape,
    /// Data of a scalar.
    pub scalar: Node,
    /// Where the value would start if there was no whitespace in front of it.
    pub pre: usize,
    pub start: usize,
    pub end: usize,
    pub indent: usize,
    pub items: Vec<Item>,
}

impl Tree {
    pub fn node(&self) -> Node {
        match self.shape {
            Shape::Seq | Shape::FlowSeq => {
                Node::Seq(self.items.iter().map(|i| i.value.node()).collect())
            }
            Shape::Map | Shape::FlowMap => Node::Map(
                self.items
                    .iter()
                    .map(|i| {
                        let k = i.key.as_ref().expect("key");
                        (k.name.clone(), i.value.node())
                    })
                    .collect(),
            ),
            _ => self.scalar.clone(),
        }
    }

    pub fn at(&self, path: &[usize]) -> &Tree {
        match path {
            [] => self,
            [i, rest @ ..] => self.items[*i].value.at(rest),
        }
    }

    /// Paths of every node, in document order.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(t: &Tree, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(p.clone());
            for (i, item) in t.items.iter().enumerate() {
                p.push(i);
                go(&item.value, p, out);
                p.pop();
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }

    /// Whether the node or one of its ancestors is a flow collection.
    pub fn in_flow(&self, path: &[usize]) -> bool {
        let mut t = self;
        for i in path {
            if t.shape.is_flow() {
                return true;
            }
            t = &t.items[*i].value;
        }
        false
    }
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub text: Vec<u8>,
    pub tree: Tree,
    /// The text is plain YAML which other parsers read in the same way.
    pub std: bool,
    /// Keys are unique.
    pub unique: bool,
    /// The entries of the root which matter, if there are many others.
    pub focus: Option<(usize, usize)>,
}

impl Tree {
    fn each_offset(&mut self, f: &impl Fn(usize) -> usize, by: usize) {
        self.pre = f(self.pre);
        self.start = f(self.start);
        self.end = f(self.end);
        self.indent += by;
        for item in &mut self.items {
            item.start = f(item.start);
            item.comma = item.comma.map(f);
            if let Some(k) = &mut item.key {
                k.start = f(k.start);
                k.end = f(k.end);
            }
            item.value.each_offset(f, by);
        }
    }
}

impl Doc {
    /// Paths of every node, or of those which matter.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        let mut paths = self.tree.paths();
        if let Some((a, b)) = self.focus {
            paths.retain(|p| p.first().map_or(true, |i| (a..b).contains(i)));
        }
        paths
    }

    fn has_header(&self) -> bool {
        self.text.windows(3).any(|w| w == b"---")
    }

    /// The same document, with each line moved to the right.
    pub fn shifted(mut self, by: usize) -> Option<Doc> {
        if self.has_header() || !self.tree.shape.is_block() {
            return None;
        }
        let mut text = Vec::new();
        let mut starts = Vec::new();
        for line in self.text.split_inclusive(|&b| b == b'\n') {
            starts.push(text.len() - by * starts.len());
            text.resize(text.len() + by, b' ');
            text.extend_from_slice(line);
        }
        self.text = text;
        let pre = self.tree.pre;
        self.tree
            .each_offset(&|n| n + by * starts.iter().filter(|&&s| s <= n).count(), by);
        if pre == 0 {
            self.tree.pre = 0;
        }
        Some(self)
    }

    /// The same document as a value which is nested as deep as given, in
    /// mappings, sequences, or both in turn.
    pub fn nested(self, depth: usize, kind: usize) -> Option<Doc> {
        let mut d = self.shifted(2 * depth)?;
        for i in (0..depth).rev() {
            let seq = kind == 1 || (kind == 2 && i % 2 == 1);
            let indent = 2 * i;
            let key = if seq { "-" } else { "w:" };
            let mut text = " ".repeat(indent).into_bytes();
            let start = text.len();
            text.extend_from_slice(key.as_bytes());
            let pre = text.len();
            text.push(b'\n');
            let by = text.len();
            d.tree.each_offset(&|n| n + by, 0);
            text.extend_from_slice(&d.text);
            d.text = text;
            d.tree.pre = pre;
            let end = d.tree.end;
            d.tree = Tree {
                shape: if seq { Shape::Seq } else { Shape::Map },
                scalar: Node::Null,
                pre: 0,
                start,
                end,
                indent,
                items: vec![Item {
                    key: (!seq).then(|| Key {
                        name: b"w".to_vec(),
                        start,
                        end: start + 1,
                    }),
                    comma: None,
                    start,
                    value: d.tree,
                }],
            };
        }
        Some(d)
    }

    /// The same document, with other entries around those of the root.
    pub fn among(mut self, before: usize, after: usize) -> Option<Doc> {
        let map = match self.tree.shape {
            Shape::Map => true,
            Shape::Seq => false,
            _ => return None,
        };
        let have = self.tree.items.len();
        let indent = self.tree.indent;
        let entry = |name: &str, i: usize, at: usize| -> (String, Item) {
            let key = if map { format!("{name}{i}:") } else { "-".to_string() };
            let value = format!("{}", i * 7);
            let start = at + key.len() + 1;
            let end = start + value.len();
            let item = Item {
                key: map.then(|| Key {
                    name: format!("{name}{i}").into_bytes(),
                    start: at,
                    end: at + key.len() - 1,
                }),
                comma: None,
                start: at,
                value: Tree {
                    shape: Shape::Scalar,
                    scalar: Node::num(&value),
                    pre: start - 1,
                    start,
                    end,
                    indent: 0,
                    items: Vec::new(),
                },
            };
            (format!("{key} {value}"), item)
        };

        let at = self.tree.start;
        let mut text = self.text[..at].to_vec();
        let mut items = Vec::new();
        for i in 0..before {
            let (t, item) = entry("p", i, text.len());
            items.push(item);
            text.extend_from_slice(t.as_bytes());
            text.push(b'\n');
            text.resize(text.len() + indent, b' ');
        }
        let by = text.len() - at;
        let (pre, start) = (self.tree.pre, self.tree.start);
        self.tree.each_offset(&|n| n + by, 0);
        self.tree.pre = pre;
        self.tree.start = start;
        text.extend_from_slice(&self.text[at..]);
        self.text = text;

        let at = self.extent(self.tree.end);
        let tail = self.text.split_off(at);
        items.append(&mut self.tree.items);
        for i in 0..after {
            self.text.push(b'\n');
            self.text.resize(self.text.len() + indent, b' ');
            let (t, item) = entry("q", i, self.text.len());
            self.tree.end = item.value.end;
            items.push(item);
            self.text.extend_from_slice(t.as_bytes());
        }
        self.text.extend_from_slice(&tail);
        self.tree.items = items;
        self.focus = Some((before.saturating_sub(1), before + have + 1));
        Some(self)
    }

    /// The same document, larger in one way.
    pub fn larger(self, c: &mut Case<'_>, tier: Tier) -> Option<Doc> {
        const ALL: &[usize] = &[
            1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300,
        ];
        const FEW: &[usize] = &[17, 40, 70, 260];
        let (sizes, depths) = tier.sel((&FEW[1..], &FEW[..2]), (ALL, &ALL[..13]));
        match c.pick(6) {
            0 => {
                let n = c.of(sizes);
                self.shifted(n)
            }
            k @ 1..=3 => {
                let n = c.of(depths);
                self.nested(n, k - 1)
            }
            4 => {
                let n = c.of(sizes);
                self.among(n, 0)
            }
            _ => {
                let n = c.of(sizes);
                self.among(n / 2, n - n / 2)
            }
        }
    }

    /// The end of a value, where a comment on the same line belongs to the last
    /// entry of a block collection.
    pub fn end(&self, t: &Tree) -> usize {
        if t.shape.is_block() {
            self.extent(t.end)
        } else {
            t.end
        }
    }

    /// The end of an entry of a block collection, including a comment on the
    /// same line.
    pub fn extent(&self, end: usize) -> usize {
        let rest = &self.text[end..];
        let n = rest.iter().position(|&b| b == b'\n').unwrap_or(rest.len());
        if rest[..n].contains(&b'#') {
            end + n
        } else {
            end
        }
    }
}

#[derive(Clone, Copy)]
pub struct Config {
    pub budget: usize,
    pub width: usize,
    pub depth: usize,
    /// Offer scalars of other kinds, and block scalars.
    pub scalars: bool,
    /// Offer other forms of keys.
    pub keys: bool,
    /// Offer deviations in whitespace, comments and separators.
    pub layout: bool,
    pub duplicates: bool,
}

pub const FULL: Config = Config {
    budget: 5,
    width: 3,
    depth: 4,
    scalars: true,
    keys: true,
    layout: true,
    duplicates: true,
};

struct S(&'static str, N, bool, bool);

enum N {
    Null,
    T,
    F,
    Num,
    Bare,
    Is(&'static str),
}

use N::*;

/// Text, meaning, allowed in flow, and same meaning elsewhere.
const SCALARS: &[S] = &[
    S("1", Num, true, true),
    S("-7", Num, true, true),
    S("0.5", Num, true, true),
    S(".5", Num, true, true),
    S("-1.5e-3", Num, true, true),
    S("1e3", Num, true, true),
    S("123456789012345678901234567890", Num, true, false),
    S("007", Num, true, false),
    S("true", T, true, true),
    S("FALSE", F, true, true),
    S("False", F, true, true),
    S("null", Null, true, true),
    S("~", Null, true, true),
    S("NULL", Null, true, true),
    S("a b", Bare, true, true),
    S("12 34", Bare, true, true),
    S("1x", Bare, true, true),
    S("-x", Bare, true, true),
    S("1.2.3", Bare, true, true),
    S("1e", Bare, true, true),
    S("nulls", Bare, true, true),
    S("a:b", Bare, false, true),
    S("http://x/?y=1", Bare, false, true),
    S("a#b", Bare, true, true),
    S("a, [b] {c}", Bare, false, true),
    S("a \"b\" 'c'", Bare, true, true),
    S("\u{e9}\u{79c1}\u{1f600}", Bare, true, true),
    S("''", Is(""), true, true),
    S("'q'", Is("q"), true, true),
    S("'it''s'", Is("it's"), true, true),
    S("''''", Is("'"), true, true),
    S("'a: b # [c], {d}'", Is("a: b # [c], {d}"), true, true),
    S("'1'", Is("1"), true, true),
    S("'a\\n\"'", Is("a\\n\""), true, true),
    S("\"\"", Is(""), true, true),
    S("\"d\"", Is("d"), true, true),
    S("\"a: b # [c], {d}'\"", Is("a: b # [c], {d}'"), true, true),
    S("\"a\\nb\\t\\\"\\x41\\u00e9\"", Is("a\nb\t\"A\u{e9}"), true, true),
    S("\"null\"", Is("null"), true, true),
];

/// Block scalars: header, lines, and meaning.
const BLOCKS: &[(&str, &[&str], &str)] = &[
    ("|", &["x"], "x\n"),
    ("|", &["x", "y"], "x\ny\n"),
    ("|-", &["x", "", "  y"], "x\n\n  y"),
    ("|", &["# x", "a: b", "- c"], "# x\na: b\n- c\n"),
    (">", &["x", "y"], "x y\n"),
    (">-", &["x"], "x"),
];

pub struct Gen<'c, 'w> {
    pub c: &'c mut Case<'w>,
    cfg: Config,
    out: Vec<u8>,
    budget: usize,
    leaves: usize,
    keys: usize,
    std: bool,
    unique: bool,
    /// The last value was a block scalar.
    after_block: bool,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum After {
    Root,
    Key,
    Dash,
    /// Inside of a flow collection.
    Flow,
}

pub fn doc(c: &mut Case<'_>, cfg: Config) -> Doc {
    let mut g = Gen {
        c,
        cfg,
        out: Vec::new(),
        budget: cfg.budget,
        leaves: 0,
        keys: 0,
        std: true,
        unique: true,
        after_block: false,
    };

    let head = g.layout(&["", "---\n", "# c\n", "\n", "%YAML 1.2\n---\n", "--- # c\n\n"]);
    g.out.extend_from_slice(head.as_bytes());
    let tree = g.value(None, After::Root, 0);
    let tail = if g.after_block {
        "\n"
    } else {
        g.layout(&["\n", "", "\r\n", " # c", "\n\n# end\n", "\n  ", " \t"])
    };
    if tail.contains('\t') && matches!(g.out.last(), None | Some(b' ' | b'-' | b':' | b'\n')) {
        // A tab is not accepted as indentation elsewhere.
        g.std = false;
    }
    g.out.extend_from_slice(tail.as_bytes());
    let mut tree = tree;
    if tree.shape == Shape::Empty {
        // An empty root comes after everything else.
        tree.pre = g.out.len();
        tree.start = g.out.len();
        tree.end = g.out.len();
    }
    Doc {
        text: g.out,
        tree,
        std: g.std,
        unique: g.unique,
        focus: None,
    }
}

impl Gen<'_, '_> {
    fn layout<T: Clone>(&mut self, items: &[T]) -> T {
        if self.cfg.layout {
            self.c.dev_of(items)
        } else {
            items[0].clone()
        }
    }

    fn put(&mut self, s: impl AsRef<[u8]>) {
        self.out.extend_from_slice(s.as_ref());
    }

    fn pad(&mut self, n: usize) {
        self.out.resize(self.out.len() + n, b' ');
    }

    /// End the current line, and start one with the given indentation.
    fn line(&mut self, indent: usize) {
        let s = if self.after_block {
            "\n"
        } else {
            self.layout(&["\n", "\r\n", " \n", " # c\n", "\n\n", "\n# c: d\n", "\n    # - c\n \n"])
        };
        self.after_block = false;
        self.put(s);
        self.pad(indent);
    }

    fn value(&mut self, parent: Option<usize>, after: After, depth: usize) -> Tree {
        self.budget = self.budget.saturating_sub(1);
        let pre = self.out.len();
        let flow = after == After::Flow;
        let kind = if depth >= self.cfg.depth {
            0
        } else if self.budget == 0 {
            // Empty flow collections need no budget.
            self.c.dev(3)
        } else {
            self.c.pick(if flow { 3 } else { 5 })
        };

        match kind {
            1 | 2 => {
                self.separate(parent, after);
                self.flow(pre, parent, kind == 2, depth)
            }
            3 => self.block_seq(pre, parent, after, depth),
            4 => self.block_map(pre, parent, after, depth),
            _ => self.leaf(pre, parent, after),
        }
    }

    /// Whitespace before a scalar or a flow collection.
    fn separate(&mut self, parent: Option<usize>, after: After) {
        match after {
            After::Root => {
                let s = self.layout(&["", "  "]);
                self.put(s);
            }
            After::Key | After::Dash => match self.layout(&[0, 1, 2, 3]) {
                0 => self.put(" "),
                1 => self.put("  "),
                2 => {
                    self.std &= after == After::Key;
                    self.put(" \t");
                }
                _ => {
                    self.line(parent.unwrap_or(0) + 1);
                }
            },
            After::Flow => {}
        }
    }

    fn leaf(&mut self, pre: usize, parent: Option<usize>, after: After) -> Tree {
        let i = self.leaves;
        self.leaves += 1;
        let flow = after == After::Flow;
        let n = if self.cfg.scalars {
            1 + SCALARS.len() + 1 + if flow { 0 } else { BLOCKS.len() }
        } else {
            1
        };
        let k = self.c.dev(n);

        if k == 1 + SCALARS.len() {
            // An empty value.
            return Tree {
                shape: Shape::Empty,
                scalar: Node::Null,
                pre,
                start: pre,
                end: pre,
                indent: 0,
                items: Vec::new(),
            };
        }

        if k > 1 + SCALARS.len() {
            let (head, lines, text) = BLOCKS[k - SCALARS.len() - 2];
            if after != After::Root {
                self.put(" ");
            }
            let start = self.out.len();
            self.put(head);
            let indent = parent.map_or(0, |n| n + 1) + self.layout(&[1, 0, 3]);
            if indent == 0 {
                // A comment or a marker would not be content.
                self.std = false;
            }
            for l in lines {
                self.put("\n");
                if !l.is_empty() {
                    self.pad(indent);
                }
                self.put(l);
            }
            self.after_block = true;
            let end = self.out.len();
            return Tree {
                shape: Shape::Block,
                scalar: Node::str(text),
                pre,
                start,
                end,
                indent: 0,
                items: Vec::new(),
            };
        }

        self.separate(parent, after);
        let start = self.out.len();
        let scalar = if k == 0 {
            let t = format!("v{i}");
            self.put(&t);
            Node::str(t)
        } else {
            let S(text, node, in_flow, std) = &SCALARS[k - 1];
            let (text, node, std) = if flow && !in_flow {
                ("'not in flow'", &Is("not in flow"), true)
            } else {
                (*text, node, *std)
            };
            self.std &= std;
            self.put(text);
            match node {
                Null => Node::Null,
                T => Node::Bool(true),
                F => Node::Bool(false),
                Num => Node::num(text),
                Bare => Node::str(text),
                Is(s) => Node::str(s),
            }
        };

        Tree {
            shape: Shape::Scalar,
            scalar,
            pre,
            start,
            end: self.out.len(),
            indent: 0,
            items: Vec::new(),
        }
    }

    fn key(&mut self, flow: bool, items: &[Item]) -> Key {
        let i = self.keys;
        self.keys += 1;
        let start = self.out.len();
        let n = if self.cfg.keys { 15 } else { 1 };
        let dup = usize::from(self.cfg.duplicates && !items.is_empty());
        let k = self.c.dev(n + dup);

        let (text, name) = match k {
            0 => (format!("k{i}"), format!("k{i}")),
            k if k == n => {
                // The key of the first entry again.
                self.std = false;
                self.unique = false;
                let key = items[0].key.as_ref().expect("key");
                let name = String::from_utf8(key.name.clone()).expect("utf-8");
                (format!("'{}'", name.replace('\'', "''")), name)
            }
            1 => (format!("'k{i}'"), format!("k{i}")),
            2 => (format!("\"k{i}\""), format!("k{i}")),
            3 => (format!("k {i}"), format!("k {i}")),
            4 => (format!("'k''{i}'"), format!("k'{i}")),
            5 => (format!("\"k\\x41\\u00e9{i}\""), format!("kA\u{e9}{i}")),
            6 => (format!("{i}"), format!("{i}")),
            7 => (format!("k#{i}"), format!("k#{i}")),
            8 if flow => (format!("'k:{i}'"), format!("k:{i}")),
            8 => (format!("k:{i}"), format!("k:{i}")),
            9 => (format!("\"k: {i}\""), format!("k: {i}")),
            10 => (format!("-k{i}"), format!("-k{i}")),
            11 => (format!("\u{e9}\u{1f600}{i}"), format!("\u{e9}\u{1f600}{i}")),
            12 => (format!("'k, {{{i}}}'"), format!("k, {{{i}}}")),
            13 => (format!("k.\"{i}\""), format!("k.\"{i}\"")),
            _ => (format!("true{i}"), format!("true{i}")),
        };
        self.put(&text);
        let end = self.out.len();
        // Whitespace before the colon.
        let ws = self.layout(&["", " "]);
        self.put(ws);
        self.put(":");
        Key {
            name: name.into_bytes(),
            start,
            end,
        }
    }

    /// Whether there is another entry.
    fn more(&mut self, have: usize) -> bool {
        self.budget > 0 && have < self.cfg.width && self.c.pick(2) == 1
    }

    fn block_start(&mut self, parent: Option<usize>, after: After, seq: bool) -> usize {
        match after {
            After::Root => {
                let n = self.layout(&[0usize, 2, 1]);
                self.pad(n);
                n
            }
            After::Dash => {
                let p = parent.unwrap_or(0);
                match self.layout(&[0, 1, 2]) {
                    0 => {
                        self.put(" ");
                        p + 2
                    }
                    1 => {
                        self.put("   ");
                        p + 4
                    }
                    _ => {
                        self.line(p + 2);
                        p + 2
                    }
                }
            }
            _ => {
                let p = parent.unwrap_or(0);
                let n = if seq {
                    p + self.layout(&[2usize, 0, 1, 4])
                } else {
                    p + self.layout(&[2usize, 1, 4])
                };
                self.line(n);
                n
            }
        }
    }

    fn block_seq(&mut self, pre: usize, parent: Option<usize>, after: After, depth: usize) -> Tree {
        let indent = self.block_start(parent, after, true);
        let start = self.out.len();
        let mut items = Vec::new();
        let mut end = start;

        while items.is_empty() || self.more(items.len()) {
            if !items.is_empty() {
                self.line(indent);
            }
            let start = self.out.len();
            self.put("-");
            let value = self.value(Some(indent), After::Dash, depth + 1);
            end = value.end;
            items.push(Item {
                key: None,
                comma: None,
                start,
                value,
            });
        }

        Tree {
            shape: Shape::Seq,
            scalar: Node::Null,
            pre,
            start,
            end,
            indent,
            items,
        }
    }

    fn block_map(&mut self, pre: usize, parent: Option<usize>, after: After, depth: usize) -> Tree {
        let indent = self.block_start(parent, after, false);
        let start = self.out.len();
        let mut items = Vec::new();
        let mut end = start;

        while items.is_empty() || self.more(items.len()) {
            if !items.is_empty() {
                self.line(indent);
            }
            let start = self.out.len();
            let key = self.key(false, &items);
            let value = self.value(Some(indent), After::Key, depth + 1);
            end = value.end;
            items.push(Item {
                key: Some(key),
                comma: None,
                start,
                value,
            });
        }

        Tree {
            shape: Shape::Map,
            scalar: Node::Null,
            pre,
            start,
            end,
            indent,
            items,
        }
    }

    /// Whitespace inside of a flow collection.
    fn flow_ws(&mut self, parent: Option<usize>, forms: &[&'static str]) {
        let s = self.layout(forms);
        self.put(s);
        if s.ends_with('\n') {
            self.pad(parent.map_or(1, |n| n + 2));
        }
    }

    fn flow(&mut self, pre: usize, parent: Option<usize>, map: bool, depth: usize) -> Tree {
        let start = self.out.len();
        self.put(if map { "{" } else { "[" });
        let mut items = Vec::<Item>::new();
        let comma = |items: &mut Vec<Item>, at| {
            if let Some(last) = items.last_mut() {
                last.comma = Some(at);
                if !map && last.value.shape == Shape::Empty {
                    // Whitespace is in front of nothing.
                    last.value.pre = at;
                    last.value.start = at;
                    last.value.end = at;
                }
            }
        };

        while self.more(items.len()) {
            if !items.is_empty() {
                self.flow_ws(parent, &["", " ", "\n"]);
                comma(&mut items, self.out.len());
                self.put(",");
                self.flow_ws(parent, &[" ", "", "  ", "\n", " # c\n"]);
            } else {
                self.flow_ws(parent, &["", " ", "\n", " # c\n"]);
            }

            let start = self.out.len();
            let (key, value) = if map {
                let key = self.key(true, &items);
                let at = self.out.len();
                let quoted = matches!(self.out.get(key.start), Some(b'\'' | b'"'));
                let sep = self.layout(&[" ", "", "  ", "\n"]);
                self.put(sep);
                if sep == "\n" {
                    self.pad(parent.map_or(1, |n| n + 2));
                }
                let mut value = self.value(parent, After::Flow, depth + 1);
                if sep.is_empty() && !quoted {
                    // `a:b` and `{a:}` are something else elsewhere.
                    self.std = false;
                }
                value.pre = at;
                if value.shape == Shape::Empty {
                    value.start = at;
                    value.end = at;
                }
                (Some(key), value)
            } else {
                let value = self.value(parent, After::Flow, depth + 1);
                if value.shape == Shape::Empty {
                    self.std = false;
                }
                (None, value)
            };

            items.push(Item {
                key,
                comma: None,
                start,
                value,
            });
        }

        // NB: an empty entry cannot be the last one of a sequence, where it is
        // the trailing separator.
        if !map {
            if let Some(Item { value, .. }) = items.last() {
                if value.shape == Shape::Empty {
                    comma(&mut items, self.out.len());
                    self.put(",");
                }
            }
        }

        if items.last().is_some_and(|i| i.comma.is_none()) {
            let s = self.layout(&["", ",", " ,", ", ", "\n", " # c\n", " "]);
            if let Some(n) = s.find(',') {
                comma(&mut items, self.out.len() + n);
            }
            self.put(s);
            if s.ends_with('\n') {
                self.pad(parent.map_or(1, |n| n + 2));
            }
        } else if items.is_empty() {
            self.flow_ws(parent, &["", " ", "\n", " # c\n"]);
        }

        self.put(if map { "}" } else { "]" });

        Tree {
            shape: if map { Shape::FlowMap } else { Shape::FlowSeq },
            scalar: Node::Null,
            pre,
            start,
            end: self.out.len(),
            indent: 0,
            items,
        }
    }
}

/// Compare with what another parser makes of the same text.
pub fn same_as_yaml(n: &Node, v: &serde_yaml::Value) -> bool {
    use serde_yaml::Value as V;
    match (n, v) {
        (Node::Null, V::Null) => true,
        (Node::Bool(a), V::Bool(b)) => a == b,
        (Node::Num(a), V::Number(b)) => {
            if let Ok(n) = a.parse::<i64>() {
                b.as_i64() == Some(n)
            } else if let Ok(n) = a.parse::<u64>() {
                b.as_u64() == Some(n)
            } else {
                a.parse::<f64>().ok() == b.as_f64()
            }
        }
        (Node::Str(a), V::String(b)) => a == b.as_bytes(),
        (Node::Seq(a), V::Sequence(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_as_yaml(a, b))
        }
        (Node::Map(a), V::Mapping(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((k, a), (l, b))| {
                    let l = match l {
                        V::String(s) => s.clone(),
                        V::Number(n) => n.to_string(),
                        V::Bool(n) => n.to_string(),
                        V::Null => "null".into(),
                        _ => return false,
                    };
                    k == l.as_bytes() && same_as_yaml(a, b)
                })
        }
        _ => false,
    }
}
