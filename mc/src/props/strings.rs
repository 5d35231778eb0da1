//! Strings and keys which are written are read back: C14. The same strings for
//! the two writers, as a part of C09.

use nondestructive::yaml::{MappingMut, SequenceMut, StringKind, ValueMut};

use super::scalars::{is_plain, read, Read};
use super::writes::{self, How, Place, What};
use super::{inputs, Prop};
use crate::engine::*;
use crate::view::*;

pub static C14: Prop = Prop {
    id: "C14",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of strings over the characters the grammar distinguishes, times positions and ways to write them, through an edit, write and parse round trip on the real code",
    rule: "every string of the alphabet of the space up to its length, times every way to write it, times every place; non-trivial: distinct combinations of string, way and place",
    assumptions: &["Characters which no rule of the grammar or of the writer tells apart are represented by one of them"],
    spaces: spaces_c14,
    probes: &[],
};

/// Every character which is special somewhere, control characters, and one of
/// each class of others.
const ALPHABET: &[&str] = &[
    "a", " ", "'", "\"", ":", "#", "-", ",", "[", "]", "{", "}", "\n", "\\", "0", ".", "~", "?", "|", ">", "&", "*", "!",
    "%", "@", "`", "e", "=", "<", "/", "\t", "\r", "\0", "\x07", "\x08", "\x0b", "\x0c", "\x1b", "\x1f", "\x7f", "\u{80}", "\u{85}",
    "\u{a0}", "é", "\u{2028}", "\u{2029}", "\u{feff}", "\u{10000}", "+", "$",
];

/// The characters of the grammar.
const SYNTAX: &[&str] = &[
    "a", " ", "'", "\"", ":", "#", "-", ",", "[", "]", "{", "}", "\n", "\\", "1", ".",
];

const FEWER: &[&str] = &["a", " ", "'", "\"", ":", "#", "-", ",", "\n", "\\"];

/// Text which is something else than a string, or was once.
const WORDS: &[&str] = &[
    "true", "True", "TRUE", "tRUE", "false", "FALSE", "null", "Null", "NULL", "nULL", "~", "yes", "no", "on", "off", "y", "n", "0", "-0",
    "+0", "1", "-1", "+1", "12", "1.5", "-1.5", ".5", "5.", "1e3", "1E-3", "1e", "e1", "0x1F", "0o7", "0b1", "1_000", ".inf", "-.inf",
    "+.INF", ".nan", ".NaN", "inf", "nan", "---", "--- a", "----", "...", "... a", "- a", "-a", "? a", "?a", ": a", ":a", "a:", "a: b", "a:b",
    "a #b", "a# b", "#a", "a b", "a  b", " a", "a ", "a, b", "[a]", "{a: b}", "]", "&a", "*a", "!a", "!!str a", "|", "| a", ">-", "%a", "%YAML 1.2",
    "@a", "`a", "'a'", "\"a\"", "it's", "''", "\"\"", "a\nb", "a\n  b", "a\n\nb", "a\n", "\na", "\n", "a\n- b", "a\nb: c", "a\n# b", "a\n---\nb",
    "\\n", "\\\"", "\\", "\\\\", "\\u0041", "\ta", "a\t", "a\tb", "a\r\nb", "\u{feff}a", "é", "日本", "a\u{85}b", "a\u{2028}b", "<<", "=", "1:30",
    "2001-01-01", "a'b\"c", "'", "\"", ",", "-", "?", ":", "a:\tb", "a\t#b", "-\ta", "?\ta", ":\ta", "http://a/b?c#d", "C:\\a", "123456789012345678901234567890123456789012",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Way {
    Auto,
    Single,
    Double,
    Bare,
}

pub struct Text<'a> {
    pub way: Way,
    pub text: &'a str,
}

impl What for Text<'_> {
    fn set(&self, v: &mut ValueMut<'_>) {
        match self.way {
            Way::Auto => v.set_string(self.text),
            Way::Single => v.set_string_with(self.text, StringKind::Single),
            Way::Double => v.set_string_with(self.text, StringKind::Double),
            Way::Bare => v.set_string_with(self.text, StringKind::Bare),
        }
    }

    fn insert(&self, m: &mut MappingMut<'_>, key: &[u8]) {
        match self.way {
            Way::Auto => m.insert_str(key, self.text),
            _ => self.set(&mut m.insert(key, nondestructive::yaml::Separator::Auto)),
        }
    }

    fn push(&self, s: &mut SequenceMut<'_>) {
        match self.way {
            Way::Auto => s.push_string(self.text),
            _ => self.set(&mut s.push(nondestructive::yaml::Separator::Auto)),
        }
    }
}

pub struct Seven;

impl What for Seven {
    fn set(&self, v: &mut ValueMut<'_>) {
        v.set_u8(7);
    }
    fn insert(&self, m: &mut MappingMut<'_>, key: &[u8]) {
        m.insert_u8(key, 7);
    }
    fn push(&self, s: &mut SequenceMut<'_>) {
        s.push_u8(7);
    }
}

fn choose(c: &mut Case<'_>, alphabet: &[&str], len: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        match c.pick(alphabet.len() + 1) {
            0 => break,
            n => s.push_str(alphabet[n - 1]),
        }
    }
    s
}

fn ways(s: &str, p: &Place) -> Vec<Way> {
    let mut w = vec![Way::Auto, Way::Single, Way::Double];
    // A bare string has to be one which can be written without quotes.
    if is_plain(s.as_bytes(), p.flow) && read(s.as_bytes(), p.flow) == Read::Is(Node::str(s)) {
        w.push(Way::Bare);
    }
    w
}

type Source = (&'static str, Box<dyn Fn(&mut Case<'_>) -> String + Send + Sync>, bool);

fn sources(tier: Tier) -> Vec<Source> {
    let all = tier.sel(2, 3);
    let syntax = tier.sel(3, 4);
    let mut v: Vec<Source> = vec![
        ("words", Box::new(|c| c.of(WORDS).to_owned()), true),
        (
            "words with a character before or after",
            Box::new(|c| {
                let w = c.of(WORDS);
                let a = c.of(ALPHABET);
                if c.pick(2) == 0 {
                    format!("{w}{a}")
                } else {
                    format!("{a}{w}")
                }
            }),
            false,
        ),
        ("every character", Box::new(move |c| choose(c, ALPHABET, all)), tier == Tier::Quick),
        ("characters of the grammar", Box::new(move |c| choose(c, SYNTAX, syntax)), false),
    ];
    if tier == Tier::Thorough {
        v.push(("every character, length 2", Box::new(|c| choose(c, ALPHABET, 2)), true));
        v.push(("characters of the grammar, length 3", Box::new(|c| choose(c, SYNTAX, 3)), true));
        v.push(("fewer characters, length 5", Box::new(|c| choose(c, FEWER, 5)), false));
    }
    let sizes: &[usize] = tier.sel(
        &[8, 16, 31, 32, 64, 127, 128, 255, 256, 1025],
        &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 72, 79, 80, 81, 100, 119, 120, 121, 127, 128, 129, 255, 256, 257, 1025, 9000],
    );
    v.push((
        "long strings",
        Box::new(move |c| {
            let n = c.of(sizes);
            let a = c.of(ALPHABET);
            let fill = c.of(&["x", "x ", "é"]);
            match c.pick(4) {
                0 => format!("{a}{}", fill.repeat(n)),
                1 => format!("{}{a}", fill.repeat(n)),
                2 => format!("{}{a}x", fill.repeat(n / 2)),
                _ => a.repeat(n),
            }
        }),
        false,
    ));
    // Every character there is, alone and between others.
    v.push((
        "code points",
        Box::new(move |c| {
            let ch = inputs::codepoint(c, tier);
            match c.pick(6) {
                0 => ch.to_string(),
                1 => format!("a{ch}b"),
                2 => format!("'{ch}"),
                3 => format!("{ch}a"),
                4 => format!("a{ch}"),
                _ => format!("{ch} {ch}: {ch}"),
            }
        }),
        false,
    ));
    v
}

fn spaces_c14(tier: Tier) -> Vec<Space> {
    let mut out = Vec::new();
    for (name, source, everywhere) in sources(tier) {
        let source = std::sync::Arc::new(source);
        let places = if everywhere { writes::places(writes::TEXTS) } else { writes::few() };
        let n = places.len();
        let src = source.clone();
        let all = places.clone();
        out.push(Space::new(format!("values: {name}, {n} places"), 0, move |c| {
            let s = src(c);
            let p = &all[c.pick(all.len())];
            let w = ways(&s, p);
            let way = w[c.pick(w.len())];
            let case = || format!("{}: {} {way:?}", p.describe(), show(s.as_bytes()));
            note(|n| *n = case());
            c.nontrivial(case().as_bytes());
            let doc = writes::write(p, b"new", &Text { way, text: &s })?;
            let want = writes::expected(p, b"new", Node::str(&s));
            writes::compare(&doc, &want, case)?;
            let quote = match way {
                Way::Single => Some('\''),
                Way::Double => Some('"'),
                Way::Auto | Way::Bare => None,
            };
            if let Some(q) = quote {
                // The quotes which were asked for are the ones that are written.
                let at = crate::hist::world(&doc).root;
                let shown = writes::value_at(&doc, &at, &p.target()).map(|v| v.to_string());
                if !shown.as_deref().is_some_and(|t| t.len() > 1 && t.starts_with(q) && t.ends_with(q)) {
                    return fail("other quotes than the ones asked for", case(), format!("{shown:?}"));
                }
            }
            c.outcome(match way {
                Way::Auto => "chosen quoting",
                Way::Single => "single quotes",
                Way::Double => "double quotes",
                Way::Bare => "bare",
            });
            c.sample(case);
            Ok(())
        }));
        let keyed: Vec<Place> = places.into_iter().filter(Place::is_new_key).collect();
        let n = keyed.len();
        out.push(Space::new(format!("keys: {name}, {n} places"), 0, move |c| {
            let s = source(c);
            let p = &keyed[c.pick(keyed.len())];
            let case = || format!("{}: key {}", p.describe(), show(s.as_bytes()));
            note(|n| *n = case());
            c.nontrivial(case().as_bytes());
            let doc = writes::write(p, s.as_bytes(), &Seven)?;
            let want = writes::expected(p, s.as_bytes(), Node::num(7));
            let again = writes::compare(&doc, &want, case)?;
            for d in [&doc, &again] {
                let v = writes::value_at(d, &p.root, &p.path).and_then(|v| v.as_mapping()?.get(&s)?.as_u8());
                if v != Some(7) {
                    return fail("the key is not found", case(), format!("{v:?}"));
                }
            }
            c.outcome("key");
            c.sample(case);
            Ok(())
        }));
    }

    out.push(Space::new("two texts", 0, |c| {
        let (a, b) = super::inputs::twins(c);
        let (a, b) = (String::from_utf8_lossy(&a).into_owned(), String::from_utf8_lossy(&b).into_owned());
        let case = || format!("{a} and {b}");
        note(|n| *n = case());
        c.nontrivial(case().as_bytes());
        let mut doc = match nondestructive::yaml::from_slice("x: 1\n") {
            Ok(d) => d,
            Err(e) => return fail("a document is rejected", case(), e.to_string()),
        };
        let Some(mut m) = doc.as_mut().into_mapping_mut() else {
            return fail("a value cannot be reached", case(), "");
        };
        let two = |k: &[u8], v: Node, l: &[u8], w: Node| Node::Map(vec![(b"x".to_vec(), Node::num(1)), (k.to_vec(), v), (l.to_vec(), w)]);
        let want = if c.pick(2) == 0 {
            m.insert_str("a", &a);
            m.insert_str("b", &b);
            two(b"a", Node::str(&a), b"b", Node::str(&b))
        } else {
            m.insert_u32(&a, 1);
            m.insert_u32(&b, 2);
            two(a.as_bytes(), Node::num(1), b.as_bytes(), Node::num(2))
        };
        writes::compare(&doc, &want, case)?;
        c.outcome("two texts");
        Ok(())
    }));
    let keyed: Vec<Place> = writes::places(writes::TEXTS).into_iter().filter(Place::is_new_key).collect();
    const BYTES: &[&[u8]] = &[b"a", b"\xff", b"\xc3", b"'", b" ", b"\n", b"\x01", b":", b"\""];
    out.push(Space::new("keys which are not UTF-8", 0, move |c| {
        let mut key = Vec::new();
        for _ in 0..3 {
            let Some(i) = c.pick(BYTES.len() + 1).checked_sub(1) else {
                break;
            };
            key.extend_from_slice(BYTES[i]);
        }
        if std::str::from_utf8(&key).is_ok() {
            return Ok(());
        }
        let p = &keyed[c.pick(keyed.len())];
        let case = || format!("{}: key {:?}", p.describe(), bstr::BStr::new(&key));
        note(|n| *n = case());
        c.nontrivial(case().as_bytes());
        let doc = writes::write(p, &key, &Seven)?;
        let want = writes::expected(p, &key, Node::num(7));
        writes::compare(&doc, &want, case)?;
        c.outcome("key which is not UTF-8");
        Ok(())
    }));
    out
}

/// Both writers for every string, as a value and as a key.
pub fn spaces_c09(tier: Tier) -> Vec<Space> {
    sources(tier)
        .into_iter()
        .map(|(name, source, _)| {
            let places = writes::few();
            Space::new(format!("strings: {name}"), 0, move |c| {
                let s = source(c);
                let p = &places[c.pick(places.len())];
                let ways = if p.is_new_key() { 5 } else { 4 };
                let way = c.pick(ways);
                let case = || format!("{}: {} {way}", p.describe(), show(s.as_bytes()));
                note(|n| *n = case());
                c.nontrivial(case().as_bytes());
                let doc = if way == 4 {
                    writes::write(p, s.as_bytes(), &Seven)?
                } else {
                    let way = [Way::Auto, Way::Single, Way::Double, Way::Bare][way];
                    writes::write(p, b"new", &Text { way, text: &s })?
                };
                let d = doc.to_string();
                let w = written(&doc);
                if d.as_bytes() != w {
                    return fail("Display and write_to differ", case(), format!("{} and {}", show(d.as_bytes()), show(&w)));
                }
                if p.how == How::Set && p.path.is_empty() {
                    c.outcome("root");
                } else {
                    c.outcome("nested");
                }
                Ok(())
            })
        })
        .collect()
}
