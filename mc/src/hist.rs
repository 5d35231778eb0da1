//! Histories of edits: operations, the reference model they are applied to, and
//! the driver which applies them to the real document.
//!
//! The model is a plain tree of data. Every value has a number, so that what
//! an `Id` stands for can be followed through a history. Nothing in here looks
//! at how the crate under test represents a document.

use nondestructive::yaml::{self, AnyMut, Block, Chomp, Document, MappingMut, SequenceMut, Separator, StringKind, ValueMut};

use crate::engine::Case;
use crate::view::{self, Node};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Null, where an empty one is written as nothing at all.
    Null { empty: bool },
    Bool(bool),
    Num(String),
    Str(Vec<u8>),
    Map(Vec<(Vec<u8>, Model)>),
    Seq(Vec<Model>),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Model {
    pub num: u32,
    pub kind: Kind,
    /// Whether a collection is written with brackets.
    pub flow: bool,
}

pub struct World {
    pub root: Model,
    /// The number of the next value.
    pub next: u32,
}

impl Clone for World {
    fn clone(&self) -> Self {
        World {
            root: self.root.clone(),
            next: self.next,
        }
    }
}

impl Model {
    pub fn node(&self) -> Node {
        match &self.kind {
            Kind::Null { .. } => Node::Null,
            Kind::Bool(b) => Node::Bool(*b),
            Kind::Num(n) => Node::Num(n.clone()),
            Kind::Str(s) => Node::Str(s.clone()),
            Kind::Map(m) => Node::Map(m.iter().map(|(k, v)| (k.clone(), v.node())).collect()),
            Kind::Seq(s) => Node::Seq(s.iter().map(Model::node).collect()),
        }
    }

    /// What is read back when the document is written and parsed: an empty
    /// block collection is nothing, and so is null.
    pub fn reparsed(&self) -> Node {
        match &self.kind {
            Kind::Map(m) if m.is_empty() && !self.flow => Node::Null,
            Kind::Seq(m) if m.is_empty() && !self.flow => Node::Null,
            Kind::Map(m) => Node::Map(m.iter().map(|(k, v)| (k.clone(), v.reparsed())).collect()),
            Kind::Seq(s) => Node::Seq(s.iter().map(Model::reparsed).collect()),
            _ => self.node(),
        }
    }

    pub fn len(&self) -> usize {
        match &self.kind {
            Kind::Map(m) => m.len(),
            Kind::Seq(s) => s.len(),
            _ => 0,
        }
    }

    pub fn is_collection(&self) -> bool {
        matches!(self.kind, Kind::Map(_) | Kind::Seq(_))
    }

    pub fn child(&self, i: usize) -> &Model {
        match &self.kind {
            Kind::Map(m) => &m[i].1,
            Kind::Seq(s) => &s[i],
            _ => unreachable!(),
        }
    }

    pub fn child_mut(&mut self, i: usize) -> &mut Model {
        match &mut self.kind {
            Kind::Map(m) => &mut m[i].1,
            Kind::Seq(s) => &mut s[i],
            _ => unreachable!(),
        }
    }

    pub fn at(&self, path: &[usize]) -> &Model {
        path.iter().fold(self, |m, &i| m.child(i))
    }

    pub fn at_mut(&mut self, path: &[usize]) -> &mut Model {
        path.iter().fold(self, |m, &i| m.child_mut(i))
    }

    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(t: &Model, p: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(p.clone());
            for i in 0..t.len() {
                p.push(i);
                go(t.child(i), p, out);
                p.pop();
            }
        }
        let mut out = Vec::new();
        go(self, &mut Vec::new(), &mut out);
        out
    }

    /// Whether a flow sequence in this value has an entry which is written as
    /// nothing: there is no way to write that in YAML.
    pub fn has_hole(&self) -> bool {
        let hole = |m: &Model| matches!(m.kind, Kind::Null { empty: true });
        match &self.kind {
            Kind::Seq(s) => (self.flow && s.iter().any(hole)) || s.iter().any(Model::has_hole),
            Kind::Map(m) => m.iter().any(|(_, v)| v.has_hole()),
            _ => false,
        }
    }
}

/// The shape of a tree, with a path to every flow collection, as the starting
/// point of a history.
pub fn world(doc: &Document) -> World {
    fn go(v: &yaml::Value<'_>, next: &mut u32) -> Model {
        let num = *next;
        *next += 1;
        let mut flow = false;
        let kind = match v.as_any() {
            yaml::Any::Null => Kind::Null {
                empty: v.to_string().is_empty(),
            },
            yaml::Any::Bool(b) => Kind::Bool(b),
            yaml::Any::Number(n) => Kind::Num(n.as_raw().to_string()),
            yaml::Any::String(s) => Kind::Str(s.to_vec()),
            yaml::Any::Mapping(m) => {
                flow = m.to_string().starts_with('{');
                Kind::Map(m.iter().map(|(k, v)| (k.to_vec(), go(&v, next))).collect())
            }
            yaml::Any::Sequence(s) => {
                flow = s.to_string().starts_with('[');
                Kind::Seq(s.iter().map(|v| go(&v, next)).collect())
            }
            _ => panic!("not a value"),
        };
        Model { num, kind, flow }
    }
    let mut next = 0;
    let root = go(&doc.as_ref(), &mut next);
    World { root, next }
}

/// A value to write.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum V {
    U32,
    I128,
    F64,
    Bool,
    Empty,
    Tilde,
    Keyword,
    Str,
    Tricky,
    Single,
    Double,
    Literal,
    Folded,
    Map,
    Seq,
}

use V::*;

pub const V_CORE: &[V] = &[U32, Str, Empty, Map, Seq];
pub const V_MORE: &[V] = &[U32, Str, Tricky, Empty, Literal, Map, Seq];
pub const V_FULL: &[V] = &[
    U32, I128, F64, Bool, Empty, Tilde, Keyword, Str, Tricky, Single, Double, Literal, Folded, Map, Seq,
];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Set(V),
    /// Through `insert` with a separator and a setter, or through `insert_*`.
    Insert(String, V, bool),
    InsertAgain(usize, V),
    Remove(usize),
    RemoveMissing,
    /// A key which is not there, but is almost one which is.
    RemoveNear(String),
    Clear,
    Push(V, bool),
}

#[derive(Clone, Copy)]
pub struct Alphabet {
    pub set: &'static [V],
    pub add: &'static [V],
    /// Insertions and pushes through the general form as well.
    pub general: bool,
    pub missing: bool,
    /// Every entry rather than the first and the last one.
    pub entries: bool,
}

pub const CORE: Alphabet = Alphabet {
    set: V_CORE,
    add: &[U32],
    general: false,
    missing: false,
    entries: false,
};

pub const TINY: Alphabet = Alphabet {
    set: &[Str, Literal, Map, Seq],
    add: &[U32, Literal],
    general: false,
    missing: false,
    entries: false,
};

pub const MORE: Alphabet = Alphabet {
    set: V_MORE,
    add: &[U32, Tricky, Literal],
    general: false,
    missing: false,
    entries: true,
};

pub const FULL: Alphabet = Alphabet {
    set: V_FULL,
    add: V_FULL,
    general: true,
    missing: true,
    entries: true,
};

/// Keys which differ from the given one in something a lookup might ignore.
pub fn near(key: &str) -> Vec<String> {
    let swapped = |c: char| {
        if c.is_ascii_lowercase() {
            c.to_ascii_uppercase()
        } else {
            c.to_ascii_lowercase()
        }
    };
    let mut shorter = key.to_string();
    shorter.pop();
    let tail: String = key.chars().skip(1).collect();
    vec![
        key.chars().map(swapped).collect(),
        shorter,
        tail,
        format!("{key}x"),
        format!("x{key}"),
        format!("{key} "),
        format!(" {key}"),
        format!("{key}\0"),
    ]
}

/// Keys which are almost in the mapping.
fn near_keys(m: &Model) -> Vec<String> {
    let Kind::Map(m) = &m.kind else {
        return Vec::new();
    };
    let mut out: Vec<String> = Vec::new();
    // NB: the same for each key, so the last one does.
    if let Some((key, _)) = m.last() {
        for key in near(&String::from_utf8_lossy(key)) {
            if m.iter().all(|(o, _)| o != key.as_bytes()) && !out.contains(&key) {
                out.push(key);
            }
        }
    }
    out
}

/// Every operation on the given value.
pub fn ops(m: &Model, a: &Alphabet) -> Vec<Op> {
    let mut out: Vec<Op> = a.set.iter().map(|&v| Op::Set(v)).collect();
    if !m.is_collection() {
        return out;
    }
    let n = m.len();
    let entries: Vec<usize> = if a.entries {
        (0..n).collect()
    } else {
        let mut e = vec![];
        if n > 0 {
            e.push(0);
        }
        if n > 1 {
            e.push(n - 1);
        }
        e
    };
    for i in entries {
        out.push(Op::Remove(i));
        if matches!(m.kind, Kind::Map(_)) {
            out.push(Op::InsertAgain(i, a.add[i % a.add.len()]));
        }
    }
    out.push(Op::Clear);
    if a.missing {
        out.push(Op::RemoveMissing);
        for key in near_keys(m) {
            out.push(Op::Insert(key.clone(), U32, false));
            out.push(Op::RemoveNear(key));
        }
    }
    match &m.kind {
        Kind::Map(m) => {
            let key = ["n", "o: p", "q"]
                .into_iter()
                .find(|k| m.iter().all(|(o, _)| o != k.as_bytes()));
            if let Some(key) = key {
                for &v in a.add {
                    out.push(Op::Insert(key.into(), v, false));
                    if a.general {
                        out.push(Op::Insert(key.into(), v, true));
                    }
                }
            }
        }
        _ => {
            for &v in a.add {
                out.push(Op::Push(v, false));
                if a.general {
                    out.push(Op::Push(v, true));
                }
            }
        }
    }
    out
}

const TRICKY: &str = "it's: # [y]";

fn kind(v: V, flow: bool) -> (Kind, bool) {
    let k = match v {
        U32 => Kind::Num("7".into()),
        I128 => Kind::Num(i128::MIN.to_string()),
        F64 => Kind::Num("-0.5".into()),
        Bool => Kind::Bool(true),
        Empty => Kind::Null { empty: true },
        Tilde | Keyword => Kind::Null { empty: false },
        Str => Kind::Str(b"s".to_vec()),
        Tricky => Kind::Str(TRICKY.into()),
        Single => Kind::Str(b"it's".to_vec()),
        Double => Kind::Str(b"a\n\"b\"".to_vec()),
        Literal => Kind::Str(b"one\n  two\n".to_vec()),
        Folded => Kind::Str(b"one two".to_vec()),
        Map => Kind::Map(Vec::new()),
        Seq => Kind::Seq(Vec::new()),
    };
    (k, flow && matches!(v, Map | Seq))
}

impl World {
    fn fresh(&mut self, v: V, flow: bool) -> Model {
        let (kind, flow) = kind(v, flow);
        let num = self.next;
        self.next += 1;
        Model { num, kind, flow }
    }

    /// Whether the value at the path is in a flow collection.
    fn in_flow(&self, path: &[usize]) -> bool {
        (0..path.len()).any(|n| self.root.at(&path[..n]).flow)
    }

    /// Apply an operation to the model; what the call returns.
    pub fn apply(&mut self, path: &[usize], op: &Op) -> bool {
        let inside = self.in_flow(path);
        let this = self.root.at(path).flow;
        match op {
            Op::Set(v) => {
                let m = self.root.at_mut(path);
                let same = matches!((v, &m.kind), (Map, Kind::Map(_)) | (Seq, Kind::Seq(_)));
                if !same {
                    let (kind, flow) = kind(*v, inside);
                    m.kind = kind;
                    m.flow = flow;
                }
                true
            }
            Op::Insert(key, v, _) => {
                let new = self.fresh(*v, inside || this);
                if let Kind::Map(m) = &mut self.root.at_mut(path).kind {
                    m.push((key.as_bytes().to_vec(), new));
                }
                true
            }
            Op::InsertAgain(i, v) => {
                let mut p = path.to_vec();
                p.push(*i);
                // The first entry with that key.
                if let Kind::Map(m) = &self.root.at(path).kind {
                    let k = &m[*i].0;
                    p[path.len()] = m.iter().position(|(o, _)| o == k).unwrap_or(*i);
                }
                let m = self.root.at_mut(&p);
                let (kind, flow) = kind(*v, inside || this);
                m.kind = kind;
                m.flow = flow;
                true
            }
            Op::Remove(i) => {
                match &mut self.root.at_mut(path).kind {
                    Kind::Map(m) => {
                        let k = m[*i].0.clone();
                        let first = m.iter().position(|(o, _)| *o == k).unwrap_or(*i);
                        m.remove(first);
                    }
                    Kind::Seq(s) => {
                        s.remove(*i);
                    }
                    _ => {}
                }
                true
            }
            Op::RemoveMissing | Op::RemoveNear(_) => false,
            Op::Clear => {
                match &mut self.root.at_mut(path).kind {
                    Kind::Map(m) => m.clear(),
                    Kind::Seq(s) => s.clear(),
                    _ => {}
                }
                true
            }
            Op::Push(v, _) => {
                let new = self.fresh(*v, inside || this);
                if let Kind::Seq(s) = &mut self.root.at_mut(path).kind {
                    s.push(new);
                }
                true
            }
        }
    }
}

const LINES: [&str; 2] = ["one", "  two"];
const FOLDED: [&str; 2] = ["one", "two"];

fn set(v: &mut ValueMut<'_>, what: V) {
    match what {
        U32 => v.set_u32(7),
        I128 => v.set_i128(i128::MIN),
        F64 => v.set_f64(-0.5),
        Bool => v.set_bool(true),
        Empty => v.set_null(yaml::Null::Empty),
        Tilde => v.set_null(yaml::Null::Tilde),
        Keyword => v.set_null(yaml::Null::Keyword),
        Str => v.set_string("s"),
        Tricky => v.set_string(TRICKY),
        Single => v.set_string_with("it's", StringKind::Single),
        Double => v.set_string_with("a\n\"b\"", StringKind::Double),
        Literal => v.set_block(LINES, Block::Literal(Chomp::Clip)),
        Folded => v.set_block(FOLDED, Block::Folded(Chomp::Strip)),
        Map | Seq => unreachable!(),
    }
}

fn set_owned(mut v: ValueMut<'_>, what: V) {
    match what {
        Map => {
            let _ = v.make_mapping();
        }
        Seq => {
            let _ = v.make_sequence();
        }
        what => set(&mut v, what),
    }
}

fn insert(m: &mut MappingMut<'_>, key: &str, v: V, general: bool) {
    match v {
        U32 if !general => m.insert_u32(key, 7),
        I128 if !general => m.insert_i128(key, i128::MIN),
        F64 if !general => m.insert_f64(key, -0.5),
        Bool if !general => m.insert_bool(key, true),
        Str if !general => m.insert_str(key, "s"),
        Tricky if !general => m.insert_str(key, TRICKY),
        Literal if !general => m.insert_block(key, LINES, Block::Literal(Chomp::Clip)),
        Folded if !general => m.insert_block(key, FOLDED, Block::Folded(Chomp::Strip)),
        _ => {
            let sep = if general {
                Separator::Custom("  ")
            } else {
                Separator::Auto
            };
            set_owned(m.insert(key, sep), v);
        }
    }
}

fn push(s: &mut SequenceMut<'_>, v: V, general: bool) {
    match v {
        U32 if !general => s.push_u32(7),
        I128 if !general => s.push_i128(i128::MIN),
        F64 if !general => s.push_f64(-0.5),
        Bool if !general => s.push_bool(true),
        Str if !general => s.push_string("s"),
        Tricky if !general => s.push_string(TRICKY),
        Literal if !general => s.push_block(LINES, Block::Literal(Chomp::Clip)),
        Folded if !general => s.push_block(FOLDED, Block::Folded(Chomp::Strip)),
        _ => {
            let sep = if general {
                Separator::Custom("  ")
            } else {
                Separator::Auto
            };
            set_owned(s.push(sep), v);
        }
    }
}

/// How a value is reached.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Route {
    /// `into_*` and `get_into_mut`.
    Into,
    /// `as_*_mut` and `get_mut`.
    Borrow,
    /// The id of the value.
    Id,
}

fn key_of(m: &Model, i: usize) -> String {
    match &m.kind {
        Kind::Map(m) => String::from_utf8_lossy(&m[i].0).into_owned(),
        _ => String::new(),
    }
}

fn borrow<R>(
    v: &mut ValueMut<'_>,
    m: &Model,
    path: &[usize],
    f: &mut dyn FnMut(&mut ValueMut<'_>) -> Option<R>,
) -> Option<R> {
    let [i, rest @ ..] = path else {
        return f(v);
    };
    match &m.kind {
        Kind::Map(_) => borrow(
            &mut v.as_mapping_mut()?.get_mut(&key_of(m, *i))?,
            m.child(*i),
            rest,
            f,
        ),
        _ => borrow(&mut v.as_sequence_mut()?.get_mut(*i)?, m.child(*i), rest, f),
    }
}

fn into<'a>(mut v: ValueMut<'a>, root: &Model, path: &[usize]) -> Option<ValueMut<'a>> {
    let mut m = root;
    for &i in path {
        v = match &m.kind {
            Kind::Map(_) => v.into_mapping_mut()?.get_into_mut(&key_of(m, i))?,
            _ => v.into_sequence_mut()?.get_into_mut(i)?,
        };
        m = m.child(i);
    }
    Some(v)
}

/// The id of a value, through the read accessors.
pub fn id_at(doc: &Document, root: &Model, path: &[usize]) -> Option<yaml::Id> {
    let mut v = doc.as_ref();
    let mut m = root;
    for &i in path {
        v = match &m.kind {
            Kind::Map(_) => v.as_mapping()?.iter().nth(i)?.1,
            _ => v.as_sequence()?.iter().nth(i)?,
        };
        m = m.child(i);
    }
    Some(v.id())
}

fn run(v: ValueMut<'_>, m: &Model, op: &Op) -> Option<bool> {
    match op {
        Op::Set(s) => {
            set_owned(v, *s);
            return Some(true);
        }
        Op::Insert(key, w, general) => {
            insert(&mut v.into_mapping_mut()?, key, *w, *general);
        }
        Op::InsertAgain(i, w) => {
            insert(&mut v.into_mapping_mut()?, &key_of(m, *i), *w, false);
        }
        Op::Remove(i) => {
            return match v.into_any_mut() {
                AnyMut::Mapping(mut o) => Some(o.remove(&key_of(m, *i))),
                AnyMut::Sequence(mut s) => Some(s.remove(*i)),
                _ => None,
            }
        }
        Op::RemoveMissing => {
            return match v.into_any_mut() {
                AnyMut::Mapping(mut o) => Some(o.remove("missing")),
                AnyMut::Sequence(mut s) => Some(s.remove(m.len()) || s.remove(m.len() + 1) || s.remove(usize::MAX)),
                _ => None,
            }
        }
        Op::RemoveNear(key) => {
            let mut m = v.into_mapping_mut()?;
            return Some(m.get_mut(key).is_some() || m.remove(key));
        }
        Op::Clear => match v.into_any_mut() {
            AnyMut::Mapping(mut m) => m.clear(),
            AnyMut::Sequence(mut s) => s.clear(),
            _ => return None,
        },
        Op::Push(w, general) => {
            push(&mut v.into_sequence_mut()?, *w, *general);
        }
    }
    Some(true)
}

/// The same, for a value which is only borrowed.
fn run_borrowed(v: &mut ValueMut<'_>, m: &Model, op: &Op) -> Option<bool> {
    match op {
        Op::Set(Map | Seq) => return None,
        Op::Set(s) => set(v, *s),
        Op::Insert(key, w, general) => insert(&mut v.as_mapping_mut()?, key, *w, *general),
        Op::InsertAgain(i, w) => insert(&mut v.as_mapping_mut()?, &key_of(m, *i), *w, false),
        Op::Remove(i) => {
            return match &m.kind {
                Kind::Map(_) => Some(v.as_mapping_mut()?.remove(&key_of(m, *i))),
                _ => Some(v.as_sequence_mut()?.remove(*i)),
            }
        }
        Op::RemoveMissing => {
            return match &m.kind {
                Kind::Map(_) => Some(v.as_mapping_mut()?.remove("missing")),
                _ => Some(v.as_sequence_mut()?.remove(m.len())),
            }
        }
        Op::RemoveNear(key) => return Some(v.as_mapping_mut()?.remove(key)),
        Op::Clear => match &m.kind {
            Kind::Map(_) => v.as_mapping_mut()?.clear(),
            _ => v.as_sequence_mut()?.clear(),
        },
        Op::Push(w, general) => push(&mut v.as_sequence_mut()?, *w, *general),
    }
    Some(true)
}

/// Whether the value at the path is the one which is found by its keys: the
/// others of a repeated key are only reached by their ids.
fn is_first(root: &Model, path: &[usize]) -> bool {
    (0..path.len()).all(|n| match &root.at(&path[..n]).kind {
        Kind::Map(m) => m.iter().position(|(k, _)| *k == m[path[n]].0) == Some(path[n]),
        _ => true,
    })
}

/// Apply an operation to the real document; what the call returned, or `None`
/// if the value could not be reached.
pub fn perform(
    doc: &mut Document,
    root: &Model,
    path: &[usize],
    op: &Op,
    route: Route,
) -> Option<bool> {
    let m = root.at(path);
    let route = if is_first(root, path) { route } else { Route::Id };
    match route {
        Route::Borrow if !matches!(op, Op::Set(Map | Seq)) => {
            borrow(&mut doc.as_mut(), root, path, &mut |v| run_borrowed(v, m, op))
        }
        Route::Id => {
            let id = id_at(doc, root, path)?;
            run(doc.value_mut(id), m, op)
        }
        _ => run(into(doc.as_mut(), root, path)?, m, op),
    }
}

pub fn describe(path: &[usize], op: &Op) -> String {
    let op = match op {
        Op::Set(v) => format!("set {v:?}"),
        Op::Insert(k, v, g) => format!("insert {k:?} {v:?}{}", if *g { "*" } else { "" }),
        Op::InsertAgain(i, v) => format!("insert at the key of {i} {v:?}"),
        Op::Remove(i) => format!("remove {i}"),
        Op::RemoveMissing => "remove a missing entry".into(),
        Op::RemoveNear(k) => format!("remove {k:?}, which is not there"),
        Op::Clear => "clear".into(),
        Op::Push(v, g) => format!("push {v:?}{}", if *g { "*" } else { "" }),
    };
    format!("{op} at {path:?}")
}

/// Choose the next operation.
pub fn choose(c: &mut Case<'_>, m: &Model, a: &Alphabet) -> (Vec<usize>, Op) {
    let paths = m.paths();
    let all: Vec<(usize, Op)> = paths
        .iter()
        .enumerate()
        .flat_map(|(i, p)| ops(m.at(p), a).into_iter().map(move |o| (i, o)))
        .collect();
    let (i, op) = all[c.pick(all.len())].clone();
    (paths[i].clone(), op)
}

/// Two documents have the same data.
pub fn same(doc: &Document, m: &Model) -> Result<(), String> {
    let got = view::view(doc);
    let want = m.node();
    if got == want {
        Ok(())
    } else {
        Err(format!("{got}, expected {want}"))
    }
}

/// How many of the large documents have few values.
pub const SLIM: usize = 7;

/// Documents which are large in one way each.
pub fn large() -> Vec<String> {
    let pad = |n| " ".repeat(n);
    let mut out = Vec::new();
    // Wide and deep indentation.
    out.push(format!("a:\n{0}b: 1\n{0}c:\n{0}    - 2\n", pad(21)));
    out.push(format!("{0}a:\n{0} b: 1\n{0}c: 2\n", pad(34)));
    out.push(format!("-{0}a: 1\n {0}b:\n {0}- 2\n-{0}x\n", pad(17)));
    // Long texts.
    out.push(format!("{0}: '{0}'\nb: {0} # {0}\n# {0}\nc: \"{0}\"\n", "lorem ".repeat(50).trim_end()));
    out.push(format!("a:{0}1{0}# c\n{1}b:\n{1}- 2\n{1}- 3\n", pad(70), "\n".repeat(70)));
    out.push(format!("a: |\n{}b: [ {}1, 2 ]\n", "  line\n".repeat(40), pad(80)));
    out.push("- - - - - - - - - - - - x\n".to_string());
    // Many levels.
    let mut deep = String::new();
    for i in 0..12 {
        deep.push_str(&format!("{}k{i}:\n", pad(2 * i)));
    }
    deep.push_str(&format!("{}x\nz: 1\n", pad(24)));
    out.push(deep);
    let mut deep = String::new();
    for i in 0..6 {
        deep.push_str(&format!("{0}k:\n{0}   -\n", pad(6 * i)));
    }
    deep.push_str(&format!("{}z: 1\n", pad(36)));
    out.push(deep);
    out.push(format!("{}{}\n", "[{a: ".repeat(6), "}, 1]".repeat(6)));
    // Many entries.
    let entries = |pre: &str, f: &dyn Fn(usize) -> String, post: &str| {
        format!("{pre}{}{post}", (0..24).map(f).collect::<String>())
    };
    out.push(entries("", &|i| format!("k{i}: v{i}\n"), ""));
    out.push(entries("a:\n", &|i| format!("  - v{i}\n"), "b: 1\n"));
    out.push(entries("[", &|i| format!("{i}, "), "x]\n"));
    out.push(entries("{", &|i| format!("k{i}: {i}, "), "x: 1}\n"));
    out
}

/// Documents which are larger than that, for a single edit.
pub fn huge() -> Vec<String> {
    let mut out = Vec::new();
    let entries = |pre: &str, f: &dyn Fn(usize) -> String, post: &str| {
        format!("{pre}{}{post}", (0..260).map(f).collect::<String>())
    };
    out.push(entries("", &|i| format!("k{i}: v{i}\n"), ""));
    out.push(entries("a:\n", &|i| format!("- v{i} # {i}\n"), "b: 1\n"));
    out.push(entries("[", &|i| format!("{i}, "), "x]\n"));
    out.push(entries("{", &|i| format!("k{i}: {i}, "), "x: 1}\n"));
    let mut deep = String::new();
    for i in 0..140 {
        deep.push_str(&format!("{}k{i}:\n", " ".repeat(2 * i)));
    }
    deep.push_str(&format!("{}- x\nz: 1\n", " ".repeat(280)));
    out.push(deep);
    out.push(format!("{}x\n", "- ".repeat(140)));
    out.push(format!("{}{}\n", "[{a: ".repeat(70), "}, 1]".repeat(70)));
    out
}

/// Documents histories start from.
pub const DOCS: &[&str] = &[
    "",
    "x\n",
    "a: 1\n",
    "- 1\n",
    "{a: 1}",
    "[1]\n",
    "a: 1\nb: 2\n",
    "- 1\n- 2\n",
    "a:\n  b: 1\n",
    "a:\n  - 1\n",
    "- a: 1\n  b: 2\n",
    "- - 1\n  - 2\n",
    "a: [1, {b: 2}]\n",
    "# h\na: x # c\nb: y # d\n# t\n",
    "a:\n- 1\nb: 3\n",
    "a: |\n  one\n  two\nb: z\n",
    "a:\nb:\n",
    "{a: [], b: {}, }\n",
    "---\n- a:\n    - x\n",
    "a:\n  b: 1\n  c: 2\nd: 3\n",
    "  a:\n    b: 'q'\n  c: \"d\"\n",
    "[\n  1, # c\n  2,\n]\n",
    "{ 'a b' : 1 , \"c\": 2 }\n",
    "- # c\n  x # d\n- y\n",
    "a: 1\r\nb:\r\n  - 2\r\n",
    "a: # c\n  b: x # d\n# e\nf: [1] # g\n",
    "- a: 1\n- b: 2\n",
    "x # c\n",
    "- x # c\n- - y # d\n",
    "a:\n    b:\n        - 1\n\n        - 2\n\nc: 3\n",
    "a: 1\nb: 2\na: 3\n",
    "a:\n  - 1\n'a': {b: 2, b: [3]}\n",
    "a: |\n  one\n# c\nb: z\n",
    "a:\n  b: >-\n    x\n  # c\n  c: y\n",
    "- |2\n   x\n\n- y # c\n",
    "- >+\n  x\n\n# c\n- |-\n  y\n",
];

/// Documents with many features at once.
pub const CORPUS: &[&str] = &[
    "a: 1\nb: 2\n",
    "- one\n- two: 2\n  three: 3\n- - x\n  - y\n",
    "a:\n  b:\n    - 1\n    - c: {d: [1, 'e', \"f\"], g: ~}\n  h: true\n",
    "[1, {a: b}, [c], \"d\", 'e''f', null,]\n",
    "{a: 1, b: [2, 3], \"c\": 'd', e: {f: g},}\n",
    "# head\na: x # tail\n\n# mid\nb:\n  # in\n  - y\n# end\n",
    "a: |\n  one\n\n  two\nb: >-\n  x\n  y\n\nc: |+\n  z\n\n",
    "%YAML 1.2\n---\na: \"q\\n\\x41\\u00e9\"\r\nb: 'r'\r\n",
    "a:\nb:\n- 1\n- \nc: null\nd:",
    "'k 1': -1.5e3\n\"k:2\": .5\nk 3 : 0x1F\n",
    "\n  x\n",
    "- a:\n- b\n-\n  - c\n-\n  d: 1\n  e: 2",
    "\t- 1\n\t- [ \n 1 ,\n 2 ]\n",
    "a: {}\nb: []\nc: \"\"\nd: ''\ne: { }\nf: [ ]\n",
    "k\u{e9}y: v\u{e4}l\n\u{79c1}: \u{1f600}\n",
];
