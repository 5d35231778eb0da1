//! Scalars: C04 what their text denotes.

use nondestructive::yaml::{self, Document};

use super::{inputs, Prop};
use crate::engine::*;
use crate::view::*;

pub static C04: Prop = Prop {
    id: "C04",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of scalar texts over the characters of each sub-grammar, in every position, against a reference reader cross-checked with libyaml",
    rule: "every text of the alphabet of the space up to its length, times every position and what follows it; non-trivial: distinct documents whose meaning the reference reader knows",
    assumptions: &[
        "The reference reader is right; it is cross-checked with libyaml (serde_yaml) on every text of the cross-checked spaces",
        "Texts the crate does not claim to support are left out: tags, anchors, quoted strings over several lines, `+1`, `0x1`, `.inf`, `.nan`, and keywords in mixed case",
    ],
    spaces: spaces_c04,
    probes: &[],
};

/// What a single-line text denotes.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Read {
    Is(Node),
    Error,
    /// Not a scalar, or not one which is supported.
    Other,
}

use Read::*;

/// Decode the inside of a double-quoted string; `None` for an invalid escape.
pub fn unescape(b: &[u8]) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            out.push(b[i]);
            i += 1;
            continue;
        }
        let e = *b.get(i + 1)?;
        i += 2;
        let simple = match e {
            b'0' => "\0",
            b'a' => "\x07",
            b'b' => "\x08",
            b't' | b'\t' => "\t",
            b'n' => "\n",
            b'v' => "\x0b",
            b'f' => "\x0c",
            b'r' => "\r",
            b'e' => "\x1b",
            b' ' => " ",
            b'"' => "\"",
            b'/' => "/",
            b'\\' => "\\",
            b'N' => "\u{85}",
            b'_' => "\u{a0}",
            b'L' => "\u{2028}",
            b'P' => "\u{2029}",
            _ => "",
        };
        if !simple.is_empty() {
            out.extend_from_slice(simple.as_bytes());
            continue;
        }
        let n = match e {
            b'x' => 2,
            b'u' => 4,
            b'U' => 8,
            _ => return None,
        };
        let digits = b.get(i..i + n)?;
        if !digits.iter().all(u8::is_ascii_hexdigit) {
            return None;
        }
        let c = u32::from_str_radix(std::str::from_utf8(digits).ok()?, 16).ok()?;
        let c = char::from_u32(c)?;
        out.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
        i += n;
    }
    Some(out)
}

fn digits(b: &[u8]) -> usize {
    b.iter().take_while(|b| b.is_ascii_digit()).count()
}

/// A number of the core schema, without `+` and other bases.
pub fn is_number(b: &[u8]) -> bool {
    let b = b.strip_prefix(b"-").unwrap_or(b);
    let whole = digits(b);
    let mut b = &b[whole..];
    let mut frac = 0;
    if let Some(rest) = b.strip_prefix(b".") {
        frac = digits(rest);
        b = &rest[frac..];
    }
    if whole + frac == 0 {
        return false;
    }
    if let [b'e' | b'E', rest @ ..] = b {
        let rest = rest.strip_prefix(b"-").or(rest.strip_prefix(b"+")).unwrap_or(rest);
        let n = digits(rest);
        return n > 0 && n == rest.len();
    }
    b.is_empty()
}

/// The type of a plain scalar.
pub fn resolve(t: &[u8]) -> Read {
    match t {
        b"" | b"~" | b"null" | b"Null" | b"NULL" => return Is(Node::Null),
        b"true" | b"True" | b"TRUE" => return Is(Node::Bool(true)),
        b"false" | b"False" | b"FALSE" => return Is(Node::Bool(false)),
        _ => {}
    }
    if matches!(&t.to_ascii_lowercase()[..], b"true" | b"false" | b"null") {
        // Keywords in other spellings are not claimed to be anything.
        return Other;
    }
    if is_number(t) {
        return Is(Node::num(String::from_utf8_lossy(t)));
    }
    if t[0] == b'+' {
        return Other;
    }
    let u = t.strip_prefix(b"-").unwrap_or(t);
    if matches!(u, [b'0', b'x' | b'o', ..]) || matches!(&u.to_ascii_lowercase()[..], b".inf" | b".nan") {
        return Other;
    }
    Is(Node::str(t))
}

/// Whether a text is a plain scalar on one line; not whether it resolves to a
/// string.
pub fn is_plain(t: &[u8], flow: bool) -> bool {
    let Some((&first, &last)) = t.first().zip(t.last()) else {
        return false;
    };
    if matches!(first, b' ' | b'\t') || matches!(last, b' ' | b'\t' | b':') {
        return false;
    }
    if b",[]{}#&*!|>'\"%@`".contains(&first) {
        return false;
    }
    if matches!(first, b'-' | b'?' | b':') && (t.len() == 1 || matches!(t[1], b' ' | b'\t')) {
        return false;
    }
    if t.starts_with(b"---") || t.starts_with(b"...") {
        return false;
    }
    for (i, &b) in t.iter().enumerate() {
        match b {
            b':' if matches!(t.get(i + 1), None | Some(b' ' | b'\t')) => return false,
            b'#' if i > 0 && matches!(t[i - 1], b' ' | b'\t') => return false,
            // NB: the crate ends keys of inline mappings at any colon.
            b',' | b'[' | b']' | b'{' | b'}' | b':' if flow => return false,
            b'?' if flow && i == 0 => return false,
            0x20..=0x7e | b'\t' | 0x80.. => {}
            _ => return false,
        }
    }
    true
}

/// Read a scalar which takes up all of a line.
pub fn read(t: &[u8], flow: bool) -> Read {
    match t {
        [] => Is(Node::Null),
        [b'\'', inner @ ..] => {
            let mut out = Vec::new();
            let mut i = 0;
            loop {
                match (inner.get(i), inner.get(i + 1)) {
                    (Some(b'\''), Some(b'\'')) => {
                        out.push(b'\'');
                        i += 2;
                    }
                    (Some(b'\''), None) => return Is(Node::Str(out)),
                    (Some(b'\''), _) | (None, _) => return Other,
                    (Some(&b), _) => {
                        out.push(b);
                        i += 1;
                    }
                }
            }
        }
        [b'"', inner @ ..] => {
            let mut i = 0;
            while i < inner.len() && inner[i] != b'"' {
                i += 1 + usize::from(inner[i] == b'\\');
            }
            if i + 1 != inner.len() {
                return Other;
            }
            match unescape(&inner[..i]) {
                Some(s) => Is(Node::Str(s)),
                None => Error,
            }
        }
        _ if is_plain(t, flow) => resolve(t),
        _ => Other,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pos {
    Root,
    Value,
    Item,
    Nested,
    FlowItem,
    FlowValue,
    Key,
    SecondKey,
    FlowKey,
}

const POSITIONS: &[Pos] = &[
    Pos::Root,
    Pos::Value,
    Pos::Item,
    Pos::Nested,
    Pos::FlowItem,
    Pos::FlowValue,
    Pos::Key,
    Pos::SecondKey,
    Pos::FlowKey,
];

impl Pos {
    fn is_key(self) -> bool {
        matches!(self, Pos::Key | Pos::SecondKey | Pos::FlowKey)
    }

    fn is_flow(self) -> bool {
        matches!(self, Pos::FlowItem | Pos::FlowValue | Pos::FlowKey)
    }
}

/// Put a text into a document; what comes before it, what follows it, and the
/// data of the document given that of the scalar.
fn place(pos: Pos, t: &[u8], after: usize, node: &Node) -> (Vec<u8>, Node) {
    let one = || Node::num(1);
    let map = |m: Vec<(&[u8], Node)>| Node::Map(m.into_iter().map(|(k, v)| (k.to_vec(), v)).collect());
    let cat = |a: &str, b: &str| [a.as_bytes(), t, b.as_bytes()].concat();
    let key: &[u8] = match node {
        Node::Str(s) => s,
        // NB: every key is a string.
        _ => t,
    };
    match pos {
        Pos::Root => {
            let end = ["\n", "", " ", " # c\n", "\t\n\n", "\r\n"][after];
            (cat("", end), node.clone())
        }
        Pos::Value => {
            let end = ["\nz: 1\n", "", " \nz: 1", " # c\nz: 1\n", "\t\n", "\r\nz: 1\n"][after];
            let mut m = vec![(&b"k"[..], node.clone())];
            if end.contains('z') {
                m.push((b"z", one()));
            }
            (cat("k: ", end), map(m))
        }
        Pos::Item => {
            let end = ["\n- 1\n", "", " \n- 1\n", " # c\n- 1", "\t\n", "\r\n- 1\n"][after];
            let mut s = vec![node.clone()];
            if end.contains('-') {
                s.push(one());
            }
            (cat("- ", end), Node::Seq(s))
        }
        Pos::Nested => {
            let end = ["\nz: 1\n", "", " \n    l: 1\n", " # c\n  - 1\nz: 1\n", "\t\n", "\r\n  - 1\n"][after];
            let mut inner = vec![(&b"k"[..], node.clone())];
            if end.contains('l') {
                inner.push((b"l", one()));
            }
            let mut s = vec![map(inner)];
            if end.contains('-') {
                s.push(one());
            }
            let mut m = vec![(&b"a"[..], Node::Seq(s))];
            if end.contains('z') {
                m.push((b"z", one()));
            }
            (cat("a:\n  - k: ", end), map(m))
        }
        Pos::FlowItem => {
            let (start, end) = [("[", "]\n"), ("[", ", 1]"), ("[ ", " , 1 ]"), ("[1, ", "]"), ("[1,", "\n]"), ("[[", "],1]")][after];
            let n = node.clone();
            let s = match after {
                0 => vec![n],
                1 | 2 => vec![n, one()],
                3 | 4 => vec![one(), n],
                _ => vec![Node::Seq(vec![n]), one()],
            };
            (cat(start, end), Node::Seq(s))
        }
        Pos::FlowValue => {
            let (start, end) = [("{k: ", "}\n"), ("{k: ", ", z: 1}"), ("{ k: ", " , z: 1 }"), ("{z: 1, k: ", "}"), ("{z: 1,k: ", "\n}"), ("{k:  ", " }")][after];
            let n = node.clone();
            let m = match after {
                0 | 5 => vec![(&b"k"[..], n)],
                1 | 2 => vec![(&b"k"[..], n), (&b"z"[..], one())],
                _ => vec![(&b"z"[..], one()), (&b"k"[..], n)],
            };
            (cat(start, end), map(m))
        }
        Pos::Key => {
            let end = [": 1\n", ":\n", " : 1", ": 1 # c\n", ":\n  - 1\n", ":  1\r\n"][after];
            let v = match after {
                1 => Node::Null,
                4 => Node::Seq(vec![one()]),
                _ => one(),
            };
            (cat("", end), map(vec![(key, v)]))
        }
        Pos::SecondKey => {
            let (start, end) = [("Z: 1\n", ": 1\n"), ("- Z: 1\n  ", ":"), ("Z:\n  Y: 1\n", " : 1\n"), ("Z: # c\n\n", ": 1\n"), ("Z: 'x'\r\n", ": 1\n"), ("Z:\n- 1\n", ": 1\n")][after];
            let z = &b"Z"[..];
            let n = match after {
                0 => map(vec![(z, one()), (key, one())]),
                1 => Node::Seq(vec![map(vec![(z, one()), (key, Node::Null)])]),
                2 => map(vec![(z, map(vec![(b"Y", one())])), (key, one())]),
                3 => map(vec![(z, Node::Null), (key, one())]),
                4 => map(vec![(z, Node::str("x")), (key, one())]),
                _ => map(vec![(z, Node::Seq(vec![one()])), (key, one())]),
            };
            (cat(start, end), n)
        }
        Pos::FlowKey => {
            let (start, end) = [("{", ": 1}\n"), ("{", ": 1, Z: 1}"), ("{ ", " : 1 }"), ("{Z: 1, ", ": 1}"), ("{Z: 1,", ": 1,}"), ("[{", ": 1}]")][after];
            let z = &b"Z"[..];
            let n = match after {
                0 | 2 => map(vec![(key, one())]),
                1 => map(vec![(key, one()), (z, one())]),
                3 | 4 => map(vec![(z, one()), (key, one())]),
                _ => Node::Seq(vec![map(vec![(key, one())])]),
            };
            (cat(start, end), n)
        }
    }
}

fn check(c: &mut Case<'_>, t: &[u8], cross: bool) -> Res {
    let pos = c.of(POSITIONS);
    let after = c.pick(6);
    if t.contains(&b'\\') && t.starts_with(b"\"") && has_backslash(t) {
        // See the space about it.
        return Ok(());
    }
    let what = read(t, pos.is_flow());
    let (node, error) = match what {
        Is(node) => (node, false),
        Error => (Node::Null, true),
        Other => return Ok(()),
    };
    if t.is_empty() && (pos.is_key() || pos == Pos::FlowItem) {
        return Ok(());
    }
    let (text, want) = place(pos, t, after, &node);
    note(|n| *n = show(&text));
    let got = yaml::from_slice(&text);
    c.nontrivial(&text);
    if error {
        c.outcome("an invalid escape");
        return match got {
            Err(_) => Ok(()),
            Ok(d) => fail("an invalid escape is accepted", show(&text), view(&d).to_string()),
        };
    }
    c.outcome(node.kind());
    if cross {
        libyaml(c, &text, &want);
    }
    c.sample(|| format!("{} is {want}", show(&text)));
    match got {
        Ok(d) => {
            let got = view(&d);
            if got != want {
                return fail("a scalar denotes something else", show(&text), format!("{got}, expected {want}"));
            }
            if !pos.is_key() {
                typed(&d, &text, pos, after, &node)?;
            }
            Ok(())
        }
        Err(e) => fail("a scalar is rejected", show(&text), e.to_string()),
    }
}

/// The accessors of a single kind of value.
fn typed(d: &Document, text: &[u8], pos: Pos, after: usize, node: &Node) -> Res {
    let r = d.as_ref();
    let v = match pos {
        Pos::Root => Some(d.as_ref()),
        Pos::Value | Pos::FlowValue => r.as_mapping().and_then(|m| m.get("k")),
        Pos::Item => r.as_sequence().and_then(|s| s.iter().next()),
        Pos::FlowItem if after < 3 => r.as_sequence().and_then(|s| s.iter().next()),
        _ => return Ok(()),
    };
    let Some(v) = v else {
        return fail("a scalar is not found", show(text), "");
    };
    let ok = match node {
        Node::Null => matches!(v.as_any(), yaml::Any::Null),
        Node::Bool(b) => v.as_bool() == Some(*b),
        Node::Num(n) => v.as_number().is_some_and(|x| x.as_raw() == n.as_str()),
        Node::Str(s) => {
            v.as_bstr().is_some_and(|x| x == s.as_slice())
                && v.as_str() == std::str::from_utf8(s).ok()
        }
        _ => true,
    };
    if !ok {
        return fail("an accessor gives something else", show(text), node.to_string());
    }
    Ok(())
}

/// Whether a double-quoted text has an escaped backslash.
fn has_backslash(t: &[u8]) -> bool {
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'\\' {
            if t.get(i + 1) == Some(&b'\\') {
                return true;
            }
            i += 1;
        }
        i += 1;
    }
    false
}

/// Check the reference reader.
fn libyaml(c: &mut Case<'_>, text: &[u8], want: &Node) {
    // Neither tabs after scalars nor control characters are read in the same
    // way; numbers are compared by C13.
    if text.iter().any(|&b| b == b'\t' || b == 0x7f) {
        return;
    }
    fn same(v: &serde_yaml::Value, n: &Node, keys: bool) -> bool {
        use serde_yaml::Value as V;
        match (v, n) {
            (V::Null, Node::Null) => true,
            (V::Bool(a), Node::Bool(b)) => a == b,
            (V::Number(_), Node::Num(_)) => true,
            // NB: the YAML library takes numbers with leading zeros as strings.
            (V::String(a), Node::Num(b)) => a == b,
            (V::String(a), Node::Str(b)) => a.as_bytes() == b.as_slice(),
            (V::Null | V::Bool(_) | V::Number(_), Node::Str(_)) => keys,
            (V::Sequence(a), Node::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b, false)),
            (V::Mapping(a), Node::Map(b)) => {
                a.len() == b.len()
                    && a.iter().zip(b).all(|((k, v), (l, w))| {
                        same(k, &Node::str(l), true) && same(v, w, false)
                    })
            }
            _ => false,
        }
    }
    match serde_yaml::from_slice::<serde_yaml::Value>(text) {
        Ok(v) => {
            if same(&v, want, false) {
                c.count("cross-checked with libyaml", 1);
            } else {
                internal(&format!("reference reader: {} is {want}, libyaml: {v:?}", show(text)));
            }
        }
        Err(e) => {
            c.count("rejected by libyaml", 1);
            if std::env::var_os("NDMC_ALL").is_some() {
                internal(&format!("libyaml rejects {}: {e}", show(text)));
            }
        }
    }
}

const PLAIN: &[u8] = b"a1-.:# ,[]{}'\"?~!\\\t\xc3\xa9";
const NUMBER: &[u8] = b"019.-+eE_ x";
const SINGLE: &[u8] = b"a' \"\\#:,n]";
const DOUBLE: &[u8] = b"a\" '\\nxu41#:";

fn strings(c: &mut Case<'_>, alphabet: &[u8], max: usize) -> Vec<u8> {
    let n = c.pick(max + 1);
    (0..n).map(|_| alphabet[c.pick(alphabet.len())]).collect()
}

fn spaces_c04(tier: Tier) -> Vec<Space> {
    let mut out = Vec::new();
    let n = tier.sel(3, 4);
    out.push(Space::new(format!("words of plain texts, length {}", n + 1), 0, move |c| {
        let k = c.pick(n + 2);
        let t: Vec<u8> = (0..k)
            .flat_map(|_| c.of(&["a", "1", " ", ":", "#", "-", ".", "null", "true", "é", "?", "'", "\\"]).bytes())
            .collect();
        check(c, &t, true)
    }));
    out.push(Space::new(format!("plain texts, length {n}"), 0, move |c| {
        let mut t = strings(c, PLAIN, n);
        if let Ok(s) = std::str::from_utf8(&t) {
            let t2 = s.as_bytes().to_vec();
            t = t2;
        } else {
            return Ok(());
        }
        check(c, &t, true)
    }));
    let n = tier.sel(4, 5);
    out.push(Space::new(format!("numbers, length {n}"), 0, move |c| {
        let t = strings(c, NUMBER, n);
        check(c, &t, true)
    }));
    let n = tier.sel(4, 5);
    out.push(Space::new(format!("single-quoted, length {n}"), 0, move |c| {
        let t = strings(c, SINGLE, n);
        check(c, &[b"'", &t[..], b"'"].concat(), true)
    }));
    let n = tier.sel(4, 5);
    out.push(Space::new(format!("double-quoted, length {n}"), 0, move |c| {
        let t = strings(c, DOUBLE, n);
        check(c, &[b"\"", &t[..], b"\""].concat(), true)
    }));
    // Every way to spell a keyword, and texts close to one.
    out.push(Space::new("keywords", 0, |c| {
        let word = c.of(&["true", "false", "null", "yes", "no", "on", "off", "y", "n", ".inf", ".nan", "~", "~~", "nul", "tru"]);
        let case = c.pick(1 << word.len().min(5));
        let mut t: Vec<u8> = word
            .bytes()
            .enumerate()
            .map(|(i, b)| if case & (1 << i) != 0 { b.to_ascii_uppercase() } else { b })
            .collect();
        match c.pick(6) {
            0 => {}
            1 => t.push(b's'),
            2 => t.insert(0, b'-'),
            3 => t.extend_from_slice(b" x"),
            4 => t.insert(0, b'x'),
            _ => t.push(b'#'),
        }
        let t2 = t.clone();
        // Only the three common forms of a keyword are one.
        check(c, &t2, true)
    }));
    let escapes = |c: &mut Case<'_>, t: Vec<u8>| {
        let t = match c.pick(4) {
            0 => [b"\"", &t[..], b"\""].concat(),
            1 => [b"\"", &t[..], b"z\""].concat(),
            2 => [b"\"\\n", &t[..], b"\""].concat(),
            _ => [b"\" ", &t[..], b" \""].concat(),
        };
        check(c, &t, true)
    };
    out.push(Space::new("simple escapes", 0, move |c| {
        let b = c.pick(256) as u8;
        if matches!(b, b'\n' | b'\r' | 0) {
            return Ok(());
        }
        escapes(c, vec![b'\\', b])
    }));
    out.push(Space::new("hex escapes", 0, move |c| {
        let n = c.pick(256);
        let t = if c.pick(2) == 0 { format!("\\x{n:02x}") } else { format!("\\x{n:02X}") };
        escapes(c, t.into_bytes())
    }));
    out.push(Space::new("broken escapes", 0, move |c| {
        let kind = c.of(b"xuU");
        let digits: Vec<u8> = (0..c.pick(10)).map(|i| b"0010ffff1"[i]).collect();
        let bad = c.of(&["", "g", "-", "\\n", " ", "\u{e9}", "G", "_", ":", "@"]);
        let t = [b"\\", &[kind][..], &digits[..], bad.as_bytes()].concat();
        escapes(c, t)
    }));
    out.push(Space::new("unicode escapes", 0, move |c| {
        let step = tier.sel(7, 1);
        let n = c.pick(0x10000 / step) * step;
        let (n, t) = match c.pick(3) {
            0 => (n, format!("\\u{n:04x}")),
            1 => (n * 0x11, format!("\\U{:08X}", n * 0x11)),
            _ => (n * 0x1_0001, format!("\\U{:08x}", n * 0x1_0001)),
        };
        let _ = n;
        let t = [b"\"", t.as_bytes(), b"\""].concat();
        check(c, &t, true)
    }));
    out.push(Space::new("long scalars", 0, move |c| {
        const SIZES: &[usize] = &[7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1025];
        let n = c.of(SIZES);
        let k = c.pick(4);
        let fill = c.of(&["x", "x y ", "é", "7", "0"]);
        let odd: &[&str] = match k {
            0 => &["", " ", ":", " #", "#", ": ", "-", ".", "e", "e1", ".5", ",", "]", "'", "\"", "\\", "true", "\t"],
            1 => &["", "''", " ''", "\"", "\\", ": ", " # ", "[", "}"],
            2 => &["", "\\n", "\\x41", "\\u00e9", "\\U0001f600", "\\\"", "\\q", "\\x4", "'", ": ", " # ", "\\\\\""],
            _ => &["", ".", "-", "e1", "e", "e-1", "x", "+", " "],
        };
        let a = c.of(odd);
        let t = match c.pick(4) {
            0 => format!("{a}{}", fill.repeat(n)),
            1 => format!("{}{a}", fill.repeat(n)),
            2 => format!("{}{a}{}", fill.repeat(n / 2), fill.repeat(n - n / 2)),
            _ => format!("{}{a}{fill}", fill.repeat(n)),
        };
        let t = match k {
            1 => format!("'{t}'"),
            2 => format!("\"{t}\""),
            _ => t,
        };
        if t.contains("\\\\") {
            // The known finding.
            return Ok(());
        }
        check(c, t.as_bytes(), true)
    }));
    out.push(Space::new("code points", 0, move |c| {
        let ch = inputs::codepoint(c, tier);
        let t = match c.pick(5) {
            0 => format!("{ch}"),
            1 => format!("{ch}a"),
            2 => format!("a{ch}"),
            3 => format!("a{ch}b"),
            _ => format!("a {ch} #{ch}"),
        };
        let t = match c.pick(3) {
            0 => t,
            1 => format!("'{}'", t.replace('\'', "''")),
            _ => format!("\"{t}\""),
        };
        if t.contains(['\n', '\r', '\0']) || t.starts_with('\u{feff}') {
            // Other lines; the end of a quoted string; a byte order mark.
            return Ok(());
        }
        // NB: libyaml knows line breaks which are none any more.
        let cross = !matches!(ch, '\u{85}' | '\u{2028}' | '\u{2029}' | '\u{feff}');
        check(c, t.as_bytes(), cross)
    }));
    out.push(Space::new("an escaped backslash", 0, |c| {
        let t = br#""\\""#;
        c.nontrivial(t);
        match yaml::from_slice(t) {
            Ok(d) if view(&d) == Node::str("\\") => Ok(()),
            Ok(d) => fail("a scalar denotes something else", show(t), view(&d).to_string()),
            Err(e) => fail("a scalar is rejected", show(t), e.to_string()),
        }
    }));
    out
}
