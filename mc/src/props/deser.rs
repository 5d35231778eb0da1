//! Deserializing and serializing through serde: C12.

use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;

use nondestructive::yaml::{self, Document, Value};
use serde::de::{self, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer, Serialize};

use super::history::{self, Step};
use super::structure;
use super::Prop;
use crate::engine::*;
use super::{numbers, writes};
use crate::hist::{self, DOCS};
use crate::view::*;

pub static C12: Prop = Prop {
    id: "C12",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of documents, edit histories, trees, number texts and target types, comparing what is deserialized and serialized with the tree read by the accessors",
    rule: "every document of the reference renderer within its bounds, every history of edits up to a depth, every small tree times every target type, every number text times every number type; non-trivial: distinct documents",
    assumptions: &[
        "Which Rust value a tree denotes is stated for each target type by hand",
        "Not claimed: a sequence which is longer than the tuple it is read as, `-0` as an unsigned type",
    ],
    spaces: spaces_c12,
    probes: &[],
};

/// What a self-describing type is given.
#[derive(Clone, Debug, PartialEq)]
pub enum Content {
    None,
    Unit,
    Some(Box<Content>),
    Bool(bool),
    Int(i128),
    Big(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Content>),
    Map(Vec<(Content, Content)>),
    Newtype(Box<Content>),
}

struct ContentVisitor;

impl<'de> Visitor<'de> for ContentVisitor {
    type Value = Content;

    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Content, E> {
        Ok(Content::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Content, E> {
        Ok(Content::Int(v.into()))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Content, E> {
        Ok(Content::Int(v.into()))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Content, E> {
        Ok(Content::Int(v))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Content, E> {
        Ok(i128::try_from(v).map_or(Content::Big(v), Content::Int))
    }
    fn visit_f32<E>(self, v: f32) -> Result<Content, E> {
        Ok(Content::F32(v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Content, E> {
        Ok(Content::F64(v))
    }
    fn visit_char<E>(self, v: char) -> Result<Content, E> {
        Ok(Content::Char(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Content, E> {
        Ok(Content::Str(v.into()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Content, E> {
        Ok(Content::Bytes(v.into()))
    }
    fn visit_none<E>(self) -> Result<Content, E> {
        Ok(Content::None)
    }
    fn visit_unit<E>(self) -> Result<Content, E> {
        Ok(Content::Unit)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Content, D::Error> {
        Content::deserialize(d).map(|c| Content::Some(c.into()))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Content, D::Error> {
        Content::deserialize(d).map(|c| Content::Newtype(c.into()))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Content, A::Error> {
        let mut out = Vec::new();
        while let Some(v) = a.next_element()? {
            out.push(v);
        }
        Ok(Content::Seq(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Content, A::Error> {
        let mut out = Vec::new();
        while let Some(v) = a.next_entry()? {
            out.push(v);
        }
        Ok(Content::Map(out))
    }
}

impl<'de> Deserialize<'de> for Content {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_any(ContentVisitor)
    }
}

enum Num {
    Int(i128),
    Big(u128),
    Float(f64),
}

fn num(text: &str) -> Num {
    if let Ok(n) = text.parse() {
        return Num::Int(n);
    }
    if let Ok(n) = text.parse() {
        return Num::Big(n);
    }
    Num::Float(text.parse().unwrap_or(f64::NAN))
}

/// Where the numbers of a document are from.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
enum From {
    /// All of them are read.
    Text,
    /// Some were set, but not as `f32`.
    Edit,
    /// Some were set as `f32`.
    Narrow,
}

/// Whether what is deserialized is the tree. Numbers which were set as `f32`
/// are one.
fn agrees(c: &Content, n: &Node, from: From) -> bool {
    match (c, n) {
        (Content::None | Content::Unit, Node::Null) => true,
        (Content::Bool(a), Node::Bool(b)) => a == b,
        (Content::Str(a), Node::Str(b)) => a.as_bytes() == b,
        (Content::Bytes(a), Node::Str(b)) => a == b && std::str::from_utf8(b).is_err(),
        (Content::F32(a), Node::Num(text)) if from == From::Narrow => Ok(*a) == text.parse(),
        // NB: the same number.
        (Content::F32(a), Node::Num(text)) if from == From::Edit => Ok(f64::from(*a)) == text.parse(),
        (c, Node::Num(text)) => match (c, num(text)) {
            (Content::Int(a), Num::Int(b)) => *a == b,
            (Content::Big(a), Num::Big(b)) => *a == b,
            (Content::F64(a), Num::Float(b)) => a.to_bits() == b.to_bits(),
            // NB: integers which are set as a floating point number.
            (Content::F64(a), Num::Int(_) | Num::Big(_)) if from >= From::Edit => Ok(*a) == text.parse(),
            _ => false,
        },
        (Content::Seq(a), Node::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| agrees(a, b, from)),
        (Content::Map(a), Node::Map(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((k, a), (l, b))| agrees(k, &Node::Str(l.clone()), from) && agrees(a, b, from))
        }
        _ => false,
    }
}

/// The same for what is serialized as CBOR.
fn agrees_cbor(c: &ciborium::Value, n: &Node, from: From) -> bool {
    use ciborium::Value as V;
    let c = match c {
        V::Null => return *n == Node::Null,
        V::Bool(b) => Content::Bool(*b),
        V::Integer(i) => Content::Int((*i).into()),
        V::Float(f) => Content::F64(*f),
        V::Text(s) => Content::Str(s.clone()),
        V::Bytes(b) => Content::Bytes(b.clone()),
        // A large integer.
        V::Tag(2 | 3, v) => {
            let V::Bytes(b) = &**v else { return false };
            if b.len() > 16 {
                return false;
            }
            let m = b.iter().fold(0u128, |n, &b| n << 8 | u128::from(b));
            if matches!(c, V::Tag(3, _)) {
                match i128::try_from(m) {
                    Ok(m) => Content::Int(-1 - m),
                    _ => return false,
                }
            } else {
                i128::try_from(m).map_or(Content::Big(m), Content::Int)
            }
        }
        V::Array(a) => {
            let Node::Seq(b) = n else { return false };
            return a.len() == b.len() && a.iter().zip(b).all(|(a, b)| agrees_cbor(a, b, from));
        }
        V::Map(a) => {
            let Node::Map(b) = n else { return false };
            return a.len() == b.len()
                && a.iter()
                    .zip(b)
                    .all(|((k, a), (l, b))| agrees_cbor(k, &Node::Str(l.clone()), from) && agrees_cbor(a, b, from));
        }
        _ => return false,
    };
    if let (Content::F64(a), Node::Num(text), From::Narrow) = (&c, n, from) {
        if text.parse::<f32>().map(f64::from) == Ok(*a) {
            return true;
        }
    }
    agrees(&c, n, from)
}

fn cbor<T: Serialize>(v: &T) -> Result<ciborium::Value, String> {
    let mut b = Vec::new();
    ciborium::into_writer(v, &mut b).map_err(|e| e.to_string())?;
    let mut r = &b[..];
    let v = ciborium::from_reader(&mut r).map_err(|e| e.to_string())?;
    if r.is_empty() {
        Ok(v)
    } else {
        Err(format!("{} bytes are left over", r.len()))
    }
}

/// The self-describing form of a value, and what it is serialized to.
fn tree(v: Value<'_>, n: &Node, from: From, case: &dyn Fn() -> String) -> Res {
    let r = match n {
        Node::Map(_) => v.as_mapping().map(|v| cbor(&v)),
        Node::Seq(_) => v.as_sequence().map(|v| cbor(&v)),
        _ => None,
    };
    for r in [Some(cbor(&v)), r].into_iter().flatten() {
        match r {
            Ok(c) if agrees_cbor(&c, n, from) => {}
            Ok(c) => return fail("what is serialized is not what the document holds", case(), format!("{c:?}, expected {n}")),
            Err(e) => return fail("a value cannot be serialized", case(), format!("{e}, expected {n}")),
        }
    }
    match Content::deserialize(v.into_deserializer()) {
        Ok(c) if agrees(&c, n, from) => Ok(()),
        Ok(c) => fail("what is deserialized is not what the document holds", case(), format!("{c:?}, expected {n}")),
        Err(e) => fail("a value cannot be deserialized", case(), format!("{e}, expected {n}")),
    }
}

/// Every value of a document on its own.
fn every(doc: &Document, v: Value<'_>, n: &Node, from: From, case: &dyn Fn() -> String) -> Res {
    match n {
        Node::Map(m) => {
            let items: Vec<_> = v.as_mapping().map(|m| m.iter().map(|(_, v)| v).collect()).unwrap_or_default();
            for ((_, n), v) in m.iter().zip(items) {
                every(doc, v, n, from, case)?;
            }
        }
        Node::Seq(m) => {
            let items: Vec<_> = v.as_sequence().map(|m| m.iter().collect()).unwrap_or_default();
            for (n, v) in m.iter().zip(items) {
                every(doc, v, n, from, case)?;
            }
        }
        _ => {}
    }
    tree(v, n, from, case)
}

fn document(doc: &Document, n: &Node, from: From, case: &dyn Fn() -> String) -> Res {
    every(doc, doc.as_ref(), n, from, case)?;
    match Content::deserialize(doc.into_deserializer()) {
        Ok(c) if agrees(&c, n, from) => Ok(()),
        c => fail("what is deserialized is not what the document holds", case(), format!("{c:?}, expected {n}")),
    }
}

// ---------------------------------------------------------------------------
// Typed targets.

/// What a tree is as a Rust type.
#[derive(Debug)]
enum Want<T> {
    Is(T),
    /// It isn't one.
    Not,
    /// Not claimed.
    Any,
}

use Want::{Any, Is, Not};

impl<T> Want<T> {
    fn map<U>(self, f: impl FnOnce(T) -> U) -> Want<U> {
        match self {
            Is(v) => Is(f(v)),
            Not => Not,
            Any => Any,
        }
    }

    fn of(v: Option<T>) -> Self {
        v.map_or(Not, Is)
    }
}

/// All of them, or an error if any isn't.
fn all<T>(it: impl IntoIterator<Item = Want<T>>) -> Want<Vec<T>> {
    let mut out = Is(Vec::new());
    for v in it {
        match (&mut out, v) {
            (_, Not) => return Not,
            (Is(out), Is(v)) => out.push(v),
            _ => out = Any,
        }
    }
    out
}

trait Target: Sized {
    fn want(n: &Node) -> Want<Self>;
}

impl Target for bool {
    fn want(n: &Node) -> Want<Self> {
        match n {
            Node::Bool(b) => Is(*b),
            _ => Not,
        }
    }
}

macro_rules! numbers {
    ($($ty:ident)*) => {$(
        impl Target for $ty {
            fn want(n: &Node) -> Want<Self> {
                match n {
                    Node::Num(text) => match super::numbers::reference_as(text, stringify!($ty)) {
                        Some(true) => Want::of(text.parse().ok()),
                        Some(false) => Not,
                        None => Any,
                    },
                    _ => Not,
                }
            }
        }
    )*};
}

numbers!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 f32 f64);

fn text(n: &Node) -> Option<&str> {
    match n {
        Node::Str(s) => std::str::from_utf8(s).ok(),
        _ => None,
    }
}

impl Target for String {
    fn want(n: &Node) -> Want<Self> {
        Want::of(text(n).map(str::to_owned))
    }
}

impl Target for char {
    fn want(n: &Node) -> Want<Self> {
        Want::of(text(n).and_then(|s| {
            let mut it = s.chars();
            it.next().filter(|_| it.next().is_none())
        }))
    }
}

/// A byte string.
#[derive(Debug, PartialEq, Clone)]
struct Bytes(Vec<u8>);

struct BytesVisitor;

impl Visitor<'_> for BytesVisitor {
    type Value = Bytes;
    fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Bytes, E> {
        Ok(Bytes(v.into()))
    }
}

impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_bytes(BytesVisitor)
    }
}

impl Target for Bytes {
    fn want(n: &Node) -> Want<Self> {
        match n {
            Node::Str(s) => Is(Bytes(s.clone())),
            _ => Not,
        }
    }
}

#[derive(Debug, PartialEq, Clone)]
struct ByteBuf(Vec<u8>);

impl<'de> Deserialize<'de> for ByteBuf {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_byte_buf(BytesVisitor).map(|b| ByteBuf(b.0))
    }
}

impl Target for ByteBuf {
    fn want(n: &Node) -> Want<Self> {
        Bytes::want(n).map(|b| ByteBuf(b.0))
    }
}

impl Target for () {
    fn want(n: &Node) -> Want<Self> {
        Want::of((*n == Node::Null).then_some(()))
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone)]
struct Unit;

impl Target for Unit {
    fn want(n: &Node) -> Want<Self> {
        <()>::want(n).map(|()| Unit)
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone)]
struct Newtype<T>(T);

impl<T: Target> Target for Newtype<T> {
    fn want(n: &Node) -> Want<Self> {
        T::want(n).map(Newtype)
    }
}

impl<T: Target> Target for Option<T> {
    fn want(n: &Node) -> Want<Self> {
        match n {
            Node::Null => Is(None),
            n => T::want(n).map(Some),
        }
    }
}

impl<T: Target> Target for Vec<T> {
    fn want(n: &Node) -> Want<Self> {
        match n {
            Node::Seq(s) => all(s.iter().map(T::want)),
            _ => Not,
        }
    }
}

impl<A: Target, B: Target> Target for (A, B) {
    fn want(n: &Node) -> Want<Self> {
        let Node::Seq(s) = n else { return Not };
        let [a, b, rest @ ..] = &s[..] else { return Not };
        match (A::want(a), B::want(b)) {
            (Not, _) | (_, Not) => Not,
            (Is(a), Is(b)) if rest.is_empty() => Is((a, b)),
            _ => Any,
        }
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone)]
struct Pair<A, B>(A, B);

impl<A: Target, B: Target> Target for Pair<A, B> {
    fn want(n: &Node) -> Want<Self> {
        <(A, B)>::want(n).map(|(a, b)| Pair(a, b))
    }
}

impl<K: Target + Ord, V: Target> Target for BTreeMap<K, V> {
    fn want(n: &Node) -> Want<Self> {
        let Node::Map(m) = n else { return Not };
        // Of entries with the same key, the last one is kept.
        let keys = all(m.iter().map(|(k, _)| K::want(&Node::Str(k.clone()))));
        let values = all(m.iter().map(|(_, v)| V::want(v)));
        match (keys, values) {
            (Not, _) | (_, Not) => Not,
            (Is(k), Is(v)) => Is(k.into_iter().zip(v).collect()),
            _ => Any,
        }
    }
}

/// Every entry in order.
#[derive(Debug, PartialEq, Clone)]
struct Entries<T>(Vec<(ByteBuf, T)>);

impl<'de, T: Deserialize<'de>> Deserialize<'de> for Entries<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<T>(std::marker::PhantomData<T>);
        impl<'de, T: Deserialize<'de>> Visitor<'de> for V<T> {
            type Value = Entries<T>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a mapping")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut out = Vec::new();
                while let Some(k) = a.next_key::<Content>()? {
                    let k = match k {
                        Content::Str(s) => s.into_bytes(),
                        Content::Bytes(b) => b,
                        _ => return Err(de::Error::custom("not a key")),
                    };
                    out.push((ByteBuf(k), a.next_value()?));
                }
                Ok(Entries(out))
            }
        }
        d.deserialize_map(V(std::marker::PhantomData))
    }
}

impl<T: Target> Target for Entries<T> {
    fn want(n: &Node) -> Want<Self> {
        let Node::Map(m) = n else { return Not };
        all(m.iter().map(|(k, v)| T::want(v).map(|v| (ByteBuf(k.clone()), v)))).map(Entries)
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone)]
struct Struct {
    a: i64,
    b: Option<String>,
    #[serde(default)]
    x: Vec<u8>,
}

/// The values of fields, `None` if there is more than one with a name.
fn fields<'n>(m: &'n [(Vec<u8>, Node)], names: &[&str]) -> Option<Vec<Option<&'n Node>>> {
    names
        .iter()
        .map(|name| {
            let mut it = m.iter().filter(|(k, _)| k == name.as_bytes());
            let first = it.next();
            if it.next().is_some() {
                return None;
            }
            Some(first.map(|(_, v)| v))
        })
        .collect()
}

impl Target for Struct {
    fn want(n: &Node) -> Want<Self> {
        let (a, b, x) = match n {
            Node::Map(m) => {
                let Some(f) = fields(m, &["a", "b", "x"]) else { return Not };
                let Some(a) = f[0] else { return Not };
                (i64::want(a), f[1].map_or(Is(None), Option::want), f[2].map_or(Is(vec![]), Vec::want))
            }
            Node::Seq(s) => match &s[..] {
                [a, b] => (i64::want(a), Option::want(b), Is(vec![])),
                [a, b, x] => (i64::want(a), Option::want(b), Vec::want(x)),
                [] | [_] => return Not,
                _ => return Any,
            },
            _ => return Not,
        };
        match (a, b, x) {
            (Not, ..) | (_, Not, _) | (.., Not) => Not,
            (Is(a), Is(b), Is(x)) => Is(Struct { a, b, x }),
            _ => Any,
        }
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone)]
#[serde(deny_unknown_fields)]
struct Strict {
    a: Option<bool>,
}

impl Target for Strict {
    fn want(n: &Node) -> Want<Self> {
        match n {
            Node::Map(m) => match &m[..] {
                [] => Is(Strict { a: None }),
                [(k, v)] if k == b"a" => Option::want(v).map(|a| Strict { a }),
                _ => Not,
            },
            Node::Seq(s) => match &s[..] {
                [] => Not,
                [a] => Option::want(a).map(|a| Strict { a }),
                _ => Any,
            },
            _ => Not,
        }
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone, PartialOrd, Eq, Ord)]
enum Enum {
    A,
    B(i64),
    C(i64, String),
    D { x: i64 },
}

impl Target for Enum {
    fn want(n: &Node) -> Want<Self> {
        match n {
            Node::Str(s) if s == b"A" => Is(Enum::A),
            Node::Map(m) => {
                let [(k, v)] = &m[..] else { return Not };
                match &k[..] {
                    b"A" => <()>::want(v).map(|()| Enum::A),
                    b"B" => i64::want(v).map(Enum::B),
                    b"C" => <(i64, String)>::want(v).map(|(a, b)| Enum::C(a, b)),
                    b"D" => match v {
                        Node::Map(m) => match fields(m, &["x"]) {
                            Some(f) => f[0].map_or(Not, i64::want).map(|x| Enum::D { x }),
                            None => Not,
                        },
                        Node::Seq(s) => match &s[..] {
                            [] => Not,
                            [x] => i64::want(x).map(|x| Enum::D { x }),
                            _ => Any,
                        },
                        _ => Not,
                    },
                    _ => Not,
                }
            }
            _ => Not,
        }
    }
}

/// Whatever it is.
#[derive(Debug, PartialEq, Deserialize, Clone)]
#[serde(untagged)]
enum Untagged {
    Null(()),
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Seq(Vec<Untagged>),
    Map(BTreeMap<String, Untagged>),
}

impl Target for Untagged {
    fn want(n: &Node) -> Want<Self> {
        match n {
            Node::Null => Is(Untagged::Null(())),
            Node::Bool(b) => Is(Untagged::Bool(*b)),
            Node::Num(text) => match num(text) {
                Num::Int(n) => i64::try_from(n).map_or(Any, |n| Is(Untagged::Int(n))),
                Num::Big(_) => Any,
                Num::Float(n) => Is(Untagged::Float(n)),
            },
            Node::Str(_) => String::want(n).map(Untagged::Str),
            Node::Seq(_) => Vec::want(n).map(Untagged::Seq),
            Node::Map(_) => BTreeMap::want(n).map(Untagged::Map),
            Node::Raw => Any,
        }
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone)]
struct Flat {
    a: i64,
    #[serde(flatten)]
    rest: BTreeMap<String, Untagged>,
}

impl Target for Flat {
    fn want(n: &Node) -> Want<Self> {
        let Node::Map(m) = n else { return Not };
        let rest: Vec<_> = m.iter().filter(|(k, _)| k != b"a").cloned().collect();
        let Some(f) = fields(m, &["a"]) else { return Not };
        match (f[0].map_or(Not, i64::want), BTreeMap::want(&Node::Map(rest))) {
            (Not, _) | (_, Not) => Not,
            (Is(a), Is(rest)) => Is(Flat { a, rest }),
            _ => Any,
        }
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone)]
#[serde(tag = "a")]
enum Tagged {
    A,
    B { x: i64 },
}

impl Target for Tagged {
    fn want(n: &Node) -> Want<Self> {
        let Node::Map(m) = n else {
            // NB: a sequence which starts with the tag.
            return if matches!(n, Node::Seq(_)) { Any } else { Not };
        };
        let Some(f) = fields(m, &["a"]) else { return Not };
        // NB: a number can be the index of a variant.
        if let Some(Node::Num(_)) = f[0] {
            return Any;
        }
        match f[0].and_then(text) {
            Some("A") => Is(Tagged::A),
            Some("B") => match fields(m, &["x"]) {
                Some(f) => f[0].map_or(Not, i64::want).map(|x| Tagged::B { x }),
                None => Not,
            },
            _ => Not,
        }
    }
}

impl Target for de::IgnoredAny {
    fn want(_: &Node) -> Want<Self> {
        Is(de::IgnoredAny)
    }
}

impl Target for Cow<'_, str> {
    fn want(n: &Node) -> Want<Self> {
        String::want(n).map(Cow::Owned)
    }
}

fn judge<T: PartialEq + fmt::Debug>(name: &str, got: Result<T, impl fmt::Display>, want: Want<T>, case: &dyn Fn() -> String) -> Res {
    let got = got.map_err(|e| e.to_string());
    match (&got, &want) {
        (_, Any) | (Err(_), Not) => Ok(()),
        (Ok(a), Is(b)) if a == b => Ok(()),
        (Ok(_), Not) => fail(
            "a value is deserialized as a type it is not",
            case(),
            format!("as {name} {got:?}"),
        ),
        _ => fail("a value is deserialized as something else", case(), format!("as {name} {got:?}, expected {want:?}")),
    }
}

fn typed<'de, T: Target + Deserialize<'de> + PartialEq + fmt::Debug>(
    doc: &'de Document,
    id: yaml::Id,
    n: &Node,
    case: &dyn Fn() -> String,
) -> Res {
    judge(std::any::type_name::<T>(), T::deserialize(doc.value(id).into_deserializer()), T::want(n), case)
}

/// A tree as every type.
fn types(doc: &Document, id: yaml::Id, n: &Node, case: &dyn Fn() -> String) -> Res {
    macro_rules! types {
        ($($ty:ty),* $(,)?) => {
            $(typed::<$ty>(doc, id, n, case)?;)*
        };
    }
    types!(
        bool, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64, String, char, Bytes, ByteBuf, (), Unit,
        Newtype<i64>, Newtype<String>, Newtype<Option<i64>>, Option<i64>, Option<String>, Option<Unit>, Option<Vec<i64>>,
        Vec<i64>, Vec<Option<String>>, Vec<Vec<Untagged>>, Vec<Enum>, (i64, String), (Option<bool>, Untagged), Pair<i64, i64>, Pair<Untagged, String>,
        BTreeMap<String, i64>, BTreeMap<String, Option<String>>, BTreeMap<Newtype2, Untagged>, BTreeMap<Option<String>, Untagged>,
        BTreeMap<Key, i64>, BTreeMap<char, Untagged>, Entries<Untagged>, Entries<Option<Vec<u8>>>, Entries<Enum>,
        Struct, Strict, Enum, Option<Enum>, Untagged, Flat, Tagged, de::IgnoredAny, Vec<de::IgnoredAny>, Entries<de::IgnoredAny>, Cow<'_, str>,
    );
    let v = || doc.value(id).into_deserializer();
    judge("&str", <&str>::deserialize(v()), Want::of(text(n)), case)?;
    let bytes = match n {
        Node::Str(s) => Is(&s[..]),
        _ => Not,
    };
    judge("&[u8]", <&[u8]>::deserialize(v()), bytes, case)
}

/// Keys.
#[derive(Debug, PartialEq, Deserialize, Clone, PartialOrd, Eq, Ord)]
struct Newtype2(String);

impl Target for Newtype2 {
    fn want(n: &Node) -> Want<Self> {
        String::want(n).map(Newtype2)
    }
}

#[derive(Debug, PartialEq, Deserialize, Clone, PartialOrd, Eq, Ord)]
#[serde(rename_all = "lowercase")]
enum Key {
    A,
    B,
}

impl Target for Key {
    fn want(n: &Node) -> Want<Self> {
        match text(n) {
            Some("a") => Is(Key::A),
            Some("b") => Is(Key::B),
            _ => Not,
        }
    }
}

// ---------------------------------------------------------------------------

const LEAVES: &[(&str, &str)] = &[
    ("~", "n"),
    ("true", "b"),
    ("1", "d"),
    ("x", "s"),
    ("A", "s"),
    ("300", "d"),
    ("-1", "d"),
    ("1.5", "d"),
    ("''", "s"),
    ("\"1\"", "s"),
    ("[]", "l"),
    ("{}", "m"),
    ("\"\\n\"", "s"),
    ("é", "s"),
    ("1e2", "d"),
    ("9223372036854775808", "d"),
];

const KEYS: &[&str] = &["a", "b", "x", "A", "B", "C", "D", "é"];

/// A tree and its text in flow style, of at most `budget` values.
fn small(c: &mut Case<'_>, budget: &mut usize, leaves: usize, keys: usize, depth: usize) -> (Node, String) {
    *budget = budget.saturating_sub(1);
    let kinds = if depth > 0 && *budget > 0 { 2 } else { 0 };
    let k = c.pick(leaves + kinds);
    if k < leaves {
        let (text, kind) = LEAVES[k];
        let n = match kind {
            "n" => Node::Null,
            "b" => Node::Bool(true),
            "d" => Node::num(text),
            "l" => Node::Seq(vec![]),
            "m" => Node::Map(vec![]),
            _ => match text {
                "''" => Node::str(""),
                "\"1\"" => Node::str("1"),
                "\"\\n\"" => Node::str("\n"),
                t => Node::str(t),
            },
        };
        return (n, text.to_owned());
    }
    if k == leaves {
        let mut items = Vec::new();
        let mut texts = Vec::new();
        loop {
            let (n, t) = small(c, budget, leaves, keys, depth - 1);
            items.push(n);
            texts.push(t);
            if *budget == 0 || c.pick(2) == 0 {
                break;
            }
        }
        (Node::Seq(items), format!("[{}]", texts.join(", ")))
    } else {
        let mut items = Vec::new();
        let mut texts = Vec::new();
        loop {
            let key = KEYS[c.pick(keys)];
            let (n, t) = small(c, budget, leaves, keys, depth - 1);
            items.push((key.as_bytes().to_vec(), n));
            texts.push(format!("{key}: {t}"));
            if *budget == 0 || c.pick(2) == 0 {
                break;
            }
        }
        (Node::Map(items), format!("{{{}}}", texts.join(", ")))
    }
}

fn typed_case(c: &mut Case<'_>, text: &[u8], n: &Node) -> Res {
    let case = || show(text);
    note(|s| *s = case());
    c.nontrivial(text);
    let doc = match yaml::from_slice(text) {
        Ok(d) => d,
        Err(e) => return fail("a document is rejected", case(), e.to_string()),
    };
    let got = view(&doc);
    if got != *n {
        return fail("the document does not read as what it denotes", case(), format!("{got}, expected {n}"));
    }
    let id = doc.as_ref().id();
    types(&doc, id, n, &case)?;
    document(&doc, n, From::Text, &case)?;
    c.outcome(n.kind());
    c.sample(case);
    Ok(())
}

fn spaces_c12(tier: Tier) -> Vec<Space> {
    let mut out = Vec::new();
    let configs = match tier {
        Tier::Quick => structure::edit_configs(tier),
        Tier::Thorough => structure::configs(Tier::Quick),
    };
    out.extend(structure::docs(tier, configs, "documents: ", true, |c, d| {
        let doc = match yaml::from_slice(&d.text) {
            Ok(d) => d,
            Err(e) => return fail("a document in the supported subset is rejected", show(&d.text), e.to_string()),
        };
        c.nontrivial(&d.text);
        let n = view(&doc);
        document(&doc, &n, From::Text, &|| show(&d.text))?;
        c.outcome(n.kind());
        Ok(())
    }));

    let check = |_: &mut Case<'_>, (): &mut (), s: Step<'_>| {
        let n = view(s.doc);
        document(s.doc, &n, From::Edit, &|| s.log.to_owned())
    };
    out.extend(history::explore(
        tier,
        vec![
            ("histories: every operation", DOCS, hist::FULL, tier.sel(1, 2)),
            ("histories: more operations", DOCS, hist::MORE, tier.sel(2, 3)),
        ],
        0,
        check,
    ));

    for (budget, leaves, keys, depth) in tier.sel(
        &[(3, 16, 8, 2), (4, 8, 7, 3)][..],
        &[(4, 16, 8, 2), (5, 7, 5, 4)][..],
    ) {
        out.push(Space::new(
            format!("types: trees of {budget} values, {leaves} leaves, {keys} keys"),
            0,
            move |c| {
                let mut b = *budget;
                let (n, text) = small(c, &mut b, *leaves, *keys, *depth);
                typed_case(c, text.as_bytes(), &n)
            },
        ));
    }

    // Numbers of every type, written in every way.
    let mut values = numbers::integers(Tier::Quick);
    values.extend(numbers::floats(tier));
    let places = writes::few();
    out.push(Space::new(format!("written numbers, {} values, {} places", values.len(), places.len()), 0, move |c| {
        let v = values[c.pick(values.len())];
        let p = &places[c.pick(places.len())];
        let case = || format!("{}; {v:?}", p.describe());
        note(|n| *n = case());
        let doc = writes::write(p, b"k", &v)?;
        let n = view(&doc);
        let narrow = matches!(v, numbers::Val::F32(_));
        c.nontrivial(case().as_bytes());
        document(&doc, &n, if narrow { From::Narrow } else { From::Edit }, &case)
    }));
    // Numbers which are rounded.
    let (step32, step64) = (tier.sel(9, 2), tier.sel(61, 7));
    out.push(Space::new("types: between floats", 0, move |c| {
        let text = if c.pick(2) == 0 {
            numbers::between32(c, step32)
        } else {
            numbers::between64(c, step64)
        };
        typed_case(c, text.as_bytes(), &Node::Num(text.clone()))
    }));

    // Values of every number type, and texts close to one.
    out.push(Space::new("types: numbers", 0, move |c| {
        let k = c.pick(129);
        let m = if k == 128 { u128::MAX } else { (1u128 << k).wrapping_add(c.pick(3) as u128).wrapping_sub(1) };
        let text = match c.pick(5) {
            0 => m.to_string(),
            1 => format!("-{m}"),
            2 => format!("{m}.0"),
            3 => format!("{m}e0"),
            _ => format!("{m}0"),
        };
        let n = Node::Num(text.clone());
        match c.pick(3) {
            0 => typed_case(c, text.as_bytes(), &n),
            1 => typed_case(c, format!("- {text}\n- {text}").as_bytes(), &Node::Seq(vec![n.clone(), n])),
            _ => typed_case(c, format!("a: {text}\n").as_bytes(), &Node::Map(vec![(b"a".to_vec(), n)])),
        }
    }));
    let n = tier.sel(4, 6);
    out.push(Space::new(format!("types: number texts, length {n}"), 0, move |c| {
        let k = c.pick(n) + 1;
        let t: String = (0..k).map(|_| c.of(&["0", "1", "9", "-", ".", "e"])).collect();
        if !super::scalars::is_number(t.as_bytes()) {
            return Ok(());
        }
        typed_case(c, t.as_bytes(), &Node::Num(t.clone()))
    }));

    // Strings and keys of any bytes.
    let n = tier.sel(2, 3);
    out.push(Space::new(format!("types: bytes, length {n}"), 0, move |c| {
        let k = c.pick(n + 1);
        let t: Vec<u8> = (0..k).flat_map(|_| c.of(&[&b"a"[..], b"B", b"\xc3\xa9", b"\xff", b"\xc3", b" ", b"1", b"\xf0\x9f\x98\x80"]).to_vec()).collect();
        let q = [b"'", &t[..], b"'"].concat();
        match c.pick(3) {
            0 => typed_case(c, &q, &Node::Str(t)),
            1 => typed_case(c, &[b"{", &q[..], b": x}"].concat(), &Node::Map(vec![(t, Node::str("x"))])),
            _ => typed_case(c, &[b"- ", &q[..], b"\n- x\n"].concat(), &Node::Seq(vec![Node::Str(t), Node::str("x")])),
        }
    }));
    out
}
