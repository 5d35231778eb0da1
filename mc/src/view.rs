//! What a user sees of a document, through the public accessors only.

use nondestructive::yaml::{self, Any, Document, Value};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    Null,
    Bool(bool),
    /// The raw text of a number.
    Num(String),
    Str(Vec<u8>),
    Map(Vec<(Vec<u8>, Node)>),
    Seq(Vec<Node>),
    /// Not a value: a stale id or an internal node.
    Raw,
}

impl Node {
    pub fn str(s: impl AsRef<[u8]>) -> Node {
        Node::Str(s.as_ref().to_vec())
    }

    pub fn num(s: impl ToString) -> Node {
        Node::Num(s.to_string())
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Node::Null => "null",
            Node::Bool(_) => "bool",
            Node::Num(_) => "number",
            Node::Str(_) => "string",
            Node::Map(_) => "mapping",
            Node::Seq(_) => "sequence",
            Node::Raw => "raw",
        }
    }

    pub fn size(&self) -> usize {
        1 + match self {
            Node::Map(m) => m.iter().map(|(_, v)| v.size()).sum(),
            Node::Seq(m) => m.iter().map(Node::size).sum(),
            _ => 0,
        }
    }
}

impl std::fmt::Display for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Node::Null => f.write_str("null"),
            Node::Bool(b) => write!(f, "{b}"),
            Node::Num(n) => write!(f, "{n}"),
            Node::Str(s) => write!(f, "{}", show(s)),
            Node::Map(m) => {
                f.write_str("{")?;
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        f.write_str(", ")?;
                    }
                    write!(f, "{}: {v}", show(k))?;
                }
                f.write_str("}")
            }
            Node::Seq(m) => {
                f.write_str("[")?;
                for (i, v) in m.iter().enumerate() {
                    if i > 0 {
                        f.write_str(", ")?;
                    }
                    write!(f, "{v}")?;
                }
                f.write_str("]")
            }
            Node::Raw => f.write_str("<raw>"),
        }
    }
}

/// Bytes as a readable literal.
pub fn show(b: &[u8]) -> String {
    let mut o = String::from("\"");
    for c in bstr::ByteSlice::chars(b) {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if c.is_control() => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
        if o.len() > 4000 {
            o.push_str("…");
            break;
        }
    }
    o.push('"');
    o
}

pub fn node(v: &Value<'_>) -> Node {
    match v.as_any() {
        Any::Null => Node::Null,
        Any::Bool(b) => Node::Bool(b),
        Any::Number(n) => Node::Num(n.as_raw().to_string()),
        Any::String(s) => Node::Str(s.to_vec()),
        Any::Mapping(m) => Node::Map(m.iter().map(|(k, v)| (k.to_vec(), node(&v))).collect()),
        Any::Sequence(s) => Node::Seq(s.iter().map(|v| node(&v)).collect()),
        _ => Node::Raw,
    }
}

pub fn view(d: &Document) -> Node {
    node(&d.as_ref())
}

/// The bytes `write_to` produces.
pub fn written(d: &Document) -> Vec<u8> {
    let mut out = Vec::new();
    d.write_to(&mut out).expect("writing to a Vec");
    out
}

pub fn parse(b: &[u8]) -> Result<Document, yaml::Error> {
    yaml::from_slice(b)
}
