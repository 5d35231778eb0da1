//! Writing one value into a document in every position, in every way: what
//! C09, C13, C14 and C20 share.

use nondestructive::yaml::{self, Document, MappingMut, Separator, SequenceMut, ValueMut};

use crate::engine::*;
use crate::hist::{self, Kind, Model};
use crate::view::*;

/// Something to write.
pub trait What {
    fn set(&self, v: &mut ValueMut<'_>);
    fn insert(&self, m: &mut MappingMut<'_>, key: &[u8]);
    fn push(&self, s: &mut SequenceMut<'_>);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    /// Replace the value at the path.
    Set,
    /// Add an entry with a new key, by the specific method.
    Insert,
    /// The same, with a separator and a setter.
    InsertSet,
    /// Insert with the key of the last entry.
    Again,
    Push,
    PushSet,
}

#[derive(Clone, Debug)]
pub struct Place {
    pub text: &'static str,
    pub path: Vec<usize>,
    pub how: How,
    /// Whether the value ends up in an inline collection.
    pub flow: bool,
    pub root: Model,
}

impl Place {
    pub fn describe(&self) -> String {
        format!("{}: {:?} at {:?}", show(self.text.as_bytes()), self.how, self.path)
    }

    /// The path of what is written.
    pub fn target(&self) -> Vec<usize> {
        let n = self.root.at(&self.path).len();
        let mut p = self.path.clone();
        match self.how {
            How::Set => {}
            How::Again => p.push(n - 1),
            _ => p.push(n),
        }
        p
    }

    pub fn is_new_key(&self) -> bool {
        matches!(self.how, How::Insert | How::InsertSet)
    }
}

/// Documents to write into.
pub const TEXTS: &[&str] = &[
    "",
    "x\n",
    "x # c\n",
    "--- x\n",
    "---\nx\n",
    "a: x\nb: y\n",
    "- x\n- y\n",
    "a:\n  b: x\n  c: y\nd: z\n",
    "- - x\n  - y\n- z\n",
    "a:\n  - x\nb: y\n",
    "- a: x\n  b: y\n- z\n",
    "[x, y]\n",
    "[]",
    "{a: x, b: y}\n",
    "{}",
    "k: [x, {a: y}]\nd: z\n",
    "- {a: [x], b: }\n- [y,\n  z]\n",
    "a:\nb: y\n",
    "-\n- y\n",
    "a: x # c\nb: y # d\n# e\n",
    "a: |\n  t\nb: y\n",
    "a:\r\n  b: x\r\n  c: y\r\nd: z\r\n",
    "a:\n- x\n- y\nb: z\n",
    "a: x\nb: y",
    "- x\n- y",
    "  a: x\n\n  b:\n      - y\n",
];

pub fn places(texts: &[&'static str]) -> Vec<Place> {
    let mut out = Vec::new();
    for &text in texts {
        let doc = yaml::from_slice(text).expect("a document to write into");
        let root = hist::world(&doc).root;
        for path in root.paths() {
            let m = root.at(&path);
            let inside = (0..path.len()).any(|n| root.at(&path[..n]).flow);
            let mut add = |how, flow| {
                out.push(Place {
                    text,
                    path: path.clone(),
                    how,
                    flow,
                    root: root.clone(),
                });
            };
            add(How::Set, inside);
            match m.kind {
                Kind::Map(_) => {
                    for how in [How::Insert, How::InsertSet, How::Again] {
                        if how != How::Again || m.len() > 0 {
                            add(how, inside || m.flow);
                        }
                    }
                }
                Kind::Seq(_) => {
                    for how in [How::Push, How::PushSet] {
                        add(how, inside || m.flow);
                    }
                }
                _ => {}
            }
        }
    }
    out
}

/// A few places which differ in everything that matters for what is written.
pub fn few() -> Vec<Place> {
    places(&[
        "x\n",
        "a: x\nb: y\n",
        "- x\n- y\n",
        "- a: x\n  b: y\n- z\n",
        "[x, y]\n",
        "{a: x, b: y}\n",
        "k: [x, {a: y}]\nd: z\n",
    ])
    .into_iter()
    .filter(|p| match p.how {
        How::Set => !p.root.at(&p.path).is_collection(),
        How::Again => false,
        How::Insert | How::Push => true,
        How::InsertSet | How::PushSet => p.path.is_empty(),
    })
    .collect()
}

fn reach<'a>(mut v: ValueMut<'a>, root: &Model, path: &[usize]) -> Option<ValueMut<'a>> {
    let mut m = root;
    for &i in path {
        v = match &m.kind {
            Kind::Map(e) => v
                .into_mapping_mut()?
                .get_into_mut(std::str::from_utf8(&e[i].0).ok()?)?,
            _ => v.into_sequence_mut()?.get_into_mut(i)?,
        };
        m = m.child(i);
    }
    Some(v)
}

/// Write something in a place, under the given key if that is new.
pub fn write(p: &Place, key: &[u8], what: &dyn What) -> Result<Document, Fail> {
    let mut doc = match yaml::from_slice(p.text) {
        Ok(d) => d,
        Err(e) => return fail("a document is rejected", show(p.text.as_bytes()), e.to_string()),
    };
    let done = (|| {
        let mut v = reach(doc.as_mut(), &p.root, &p.path)?;
        match p.how {
            How::Set => what.set(&mut v),
            How::Insert => what.insert(&mut v.into_mapping_mut()?, key),
            How::InsertSet => what.set(&mut v.into_mapping_mut()?.insert(key, Separator::Custom("  "))),
            How::Again => {
                let Kind::Map(e) = &p.root.at(&p.path).kind else {
                    return None;
                };
                what.insert(&mut v.into_mapping_mut()?, &e[e.len() - 1].0);
            }
            How::Push => what.push(&mut v.into_sequence_mut()?),
            How::PushSet => what.set(&mut v.into_sequence_mut()?.push(Separator::Custom("  "))),
        }
        Some(())
    })();
    match done {
        Some(()) => Ok(doc),
        None => fail("a value cannot be reached", p.describe(), ""),
    }
}

/// What the document holds after a write, where what is written holds `new`.
pub fn expected(p: &Place, key: &[u8], new: Node) -> Node {
    fn at<'n>(n: &'n mut Node, path: &[usize]) -> &'n mut Node {
        path.iter().fold(n, |n, &i| match n {
            Node::Map(m) => &mut m[i].1,
            Node::Seq(s) => &mut s[i],
            n => n,
        })
    }
    let mut n = p.root.node();
    let t = at(&mut n, &p.path);
    match (p.how, &mut *t) {
        (How::Set, t) => *t = new,
        (How::Again, Node::Map(m)) => {
            if let Some(e) = m.last_mut() {
                e.1 = new;
            }
        }
        (_, Node::Map(m)) => match m.iter_mut().find(|(k, _)| k == key) {
            Some(e) => e.1 = new,
            None => m.push((key.to_vec(), new)),
        },
        (_, Node::Seq(s)) => s.push(new),
        _ => {}
    }
    n
}

/// The node at a path, if it is there.
pub fn node_at<'n>(n: &'n Node, path: &[usize]) -> Option<&'n Node> {
    path.iter().try_fold(n, |n, &i| match n {
        Node::Map(m) => Some(&m.get(i)?.1),
        Node::Seq(s) => s.get(i),
        _ => None,
    })
}

pub fn value_at<'a>(doc: &'a Document, root: &Model, path: &[usize]) -> Option<yaml::Value<'a>> {
    let mut v = doc.as_ref();
    for (n, &i) in path.iter().enumerate() {
        v = match &root.at(&path[..n]).kind {
            Kind::Map(_) => v.as_mapping()?.iter().nth(i)?.1,
            _ => v.as_sequence()?.iter().nth(i)?,
        };
    }
    Some(v)
}

/// Compare the document and what is read from what it writes.
pub fn compare(doc: &Document, want: &Node, case: impl Fn() -> String) -> Result<Document, Fail> {
    let got = view(doc);
    if got != *want {
        return fail(
            "the edited document does not hold what was written",
            case(),
            format!("{got}, expected {want}"),
        );
    }
    reparse(doc, want, case)
}

pub fn reparse(doc: &Document, want: &Node, case: impl Fn() -> String) -> Result<Document, Fail> {
    let w = written(doc);
    match yaml::from_slice(&w) {
        Err(e) => fail(
            "the written document is rejected",
            case(),
            format!("{}: {e}, expected {want}", show(&w)),
        ),
        Ok(again) => {
            let got = view(&again);
            if got != *want {
                return fail(
                    "what is written is read back as something else",
                    case(),
                    format!("{} is {got}, expected {want}", show(&w)),
                );
            }
            Ok(again)
        }
    }
}
