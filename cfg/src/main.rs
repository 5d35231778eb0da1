//! Transcripts of the same histories, in one build configuration: what C18
//! compares between configurations.
//!
//! `ndcfg hash SIZE BLOCK`: a hash of every transcript of a block.
//! `ndcfg full SIZE BLOCK`: the transcripts, one per line.

use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

use nondestructive::yaml::{self, Any, Block, Chomp, Document, Null, Separator, StringKind, Value};

#[allow(dead_code)]
#[path = "../../mc/src/view.rs"]
mod view;

#[allow(dead_code)]
#[path = "../../mc/src/hist.rs"]
mod hist;

/// Every vector of choices, one after another.
mod engine {
    #[derive(Default)]
    pub struct Case<'w> {
        /// So that it looks like the explorer's.
        marker: std::marker::PhantomData<&'w ()>,
        choices: Vec<(usize, usize)>,
        pos: usize,
    }

    impl Case<'_> {
        pub fn pick(&mut self, n: usize) -> usize {
            if n <= 1 {
                return 0;
            }
            let i = self.pos;
            self.pos += 1;
            if i == self.choices.len() {
                self.choices.push((0, n));
            }
            assert_eq!(self.choices[i].1, n, "the choices differ between runs");
            self.choices[i].0
        }

        /// Go to the next vector.
        pub fn next(&mut self) -> bool {
            self.choices.truncate(self.pos);
            self.pos = 0;
            while let Some((c, n)) = self.choices.pop() {
                if c + 1 < n {
                    self.choices.push((c + 1, n));
                    return true;
                }
            }
            false
        }
    }
}

use engine::Case;
use hist::{Alphabet, Route, DOCS};

/// Everything that is seen of a value.
fn see(out: &mut String, v: &Value<'_>) {
    let _ = write!(out, "{v}");
    match v.as_any() {
        Any::Null => out.push('~'),
        Any::Bool(b) => {
            let _ = write!(out, "{b}");
        }
        Any::Number(n) => {
            let _ = write!(
                out,
                "{n:?} {:?} {:?} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?}",
                n.as_i64(),
                n.as_f64(),
                n.as_raw(),
                v.as_u8(),
                v.as_i8(),
                v.as_u16(),
                v.as_i16(),
                v.as_u32(),
                v.as_i32(),
                v.as_u64(),
                v.as_i64(),
                v.as_u128(),
                v.as_i128(),
                v.as_f32(),
                v.as_f64(),
            );
        }
        Any::String(s) => {
            let _ = write!(out, "{s:?} {:?}", v.as_str());
        }
        Any::Mapping(m) => {
            let _ = write!(out, "{}{{", m.len());
            for (k, v) in m.iter() {
                let _ = write!(out, "{k:?}: ");
                see(out, &v);
                out.push_str(", ");
            }
            out.push('}');
            // The other ways to reach the same.
            for (k, _) in m.iter().rev() {
                let _ = write!(out, "{k:?} ");
                match std::str::from_utf8(k).ok().and_then(|k| m.get(k)) {
                    Some(v) => brief(out, &v),
                    None => out.push('-'),
                }
            }
            let _ = write!(out, "{:?} {:?}", m.iter().size_hint(), m.get("k").is_some());
            for i in [0, m.len(), usize::MAX] {
                let _ = write!(out, " {} {}", m.iter().nth(i).is_some(), m.iter().nth_back(i).is_some());
            }
        }
        Any::Sequence(s) => {
            let _ = write!(out, "{}[", s.len());
            for v in s.iter() {
                see(out, &v);
                out.push_str(", ");
            }
            out.push(']');
            for v in s.iter().rev() {
                brief(out, &v);
            }
            for i in [0, s.len() / 2, s.len(), usize::MAX - 1, usize::MAX] {
                match s.get(i) {
                    Some(v) => brief(out, &v),
                    None => out.push('-'),
                }
                let _ = write!(out, "{} {} ", s.iter().nth(i).is_some(), s.iter().nth_back(i).is_some());
            }
            let _ = write!(out, "{:?}", s.iter().size_hint());
        }
        _ => out.push_str("<raw>"),
    }
}

/// A little of a value.
fn brief(out: &mut String, v: &Value<'_>) {
    let _ = match v.as_any() {
        Any::Mapping(m) => write!(out, "{{{}}}", m.len()),
        Any::Sequence(s) => write!(out, "[{}]", s.len()),
        _ => write!(out, "{v} "),
    };
}

fn state(out: &mut String, doc: &Document) {
    let _ = write!(out, "{doc} ");
    let _ = write!(out, "{} ", view::show(&view::written(doc)));
    see(out, &doc.as_ref());
    // Every mutable value, and what is not there.
    let mut copy = doc.clone();
    reach(out, &mut copy, doc.as_ref().id());
    let _ = write!(out, "{:?} {copy}", doc.as_ref());
    out.push('\t');
}

/// Everything that is reached from a mutable value.
fn reach(out: &mut String, doc: &mut Document, id: yaml::Id) {
    let keys: Vec<(Option<String>, yaml::Id)> = match doc.value(id).as_any() {
        Any::Mapping(m) => m.iter().map(|(k, v)| (Some(k.to_string()), v.id())).collect(),
        Any::Sequence(s) => s.iter().map(|v| (None, v.id())).collect(),
        _ => return,
    };
    for (i, (key, at)) in keys.into_iter().enumerate() {
        let found = match doc.value_mut(id).into_any_mut() {
            yaml::AnyMut::Mapping(mut m) => key.and_then(|k| m.get_mut(&k).map(|v| v.into_ref().id())),
            yaml::AnyMut::Sequence(mut s) => s.get_mut(i).map(|v| v.into_ref().id()),
            _ => None,
        };
        let _ = write!(out, "{} ", found == Some(at));
        reach(out, doc, at);
    }
    let none = match doc.value_mut(id).into_any_mut() {
        yaml::AnyMut::Mapping(mut m) => m.get_mut("\u{7f}").is_none() && !m.remove("\u{7f}"),
        yaml::AnyMut::Sequence(mut s) => {
            s.get_mut(usize::MAX).is_none() && !s.remove(usize::MAX) && s.get_into_mut(usize::MAX).is_none()
        }
        _ => true,
    };
    let _ = write!(out, "{none} ");
}

/// A writer which fails after so many bytes.
struct Full<'a>(&'a mut String, usize);

impl std::io::Write for Full<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.1 == 0 {
            return Err(std::io::ErrorKind::Other.into());
        }
        let n = b.len().min(self.1).min(3);
        self.1 -= n;
        let _ = write!(self.0, "{}", view::show(&b[..n]));
        Ok(n)
    }

    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// What is left of writing when the writer is full.
fn faults(out: &mut String, doc: &Document) {
    for n in 0..=view::written(doc).len() {
        let done = doc.write_to(Full(out, n)).is_ok();
        let _ = write!(out, "{done} ");
    }
}

/// One edit of a document which is large.
fn large(c: &mut Case<'_>, text: &str, few: bool, out: &mut String) -> u64 {
    let mut doc = yaml::from_slice(text).expect("a document");
    let world = hist::world(&doc);
    let paths = world.root.paths();
    let n = paths.len();
    let mut at: Vec<usize> = if few { vec![0, n / 2, n - 1] } else { (0..n).step_by(n / 20 + 1).collect() };
    at.dedup();
    let path = &paths[at[c.pick(at.len())]];
    let ops = hist::ops(world.root.at(path), if few { &hist::CORE } else { &hist::MORE });
    let op = &ops[c.pick(ops.len())];
    let _ = write!(out, "{}: ", hist::describe(path, op));
    let done = hist::perform(&mut doc, &world.root, path, op, Route::Into);
    let _ = write!(out, "{done:?} ");
    state(out, &doc);
    1
}

/// A document with many features, changed in one place.
fn mutated(c: &mut Case<'_>, text: &str, out: &mut String) {
    let mut v = text.as_bytes().to_vec();
    match c.pick(4) {
        0 => {}
        1 => {
            let i = c.pick(v.len());
            v.remove(i);
        }
        2 => {
            let i = c.pick(v.len() + 1);
            v.insert(i, b"a1 \n:-,[{\"'#|\xff"[c.pick(14)]);
        }
        _ => {
            let i = c.pick(v.len());
            v.truncate(i);
        }
    }
    let _ = write!(out, "{} ", view::show(&v));
    parsed(out, &v);
}

/// Where values are written.
const PLACES: &[&str] = &["x\n", "a: x\nb: y\n", "- x # c\n- y\n", "{a: x, b: y}\n", "[x, y]\n", "a:\n    - b: x\n    - y\n"];

/// A value is written over a scalar, or added.
fn put(c: &mut Case<'_>, text: &str, key: &str, out: &mut String, f: &dyn Fn(yaml::ValueMut<'_>)) {
    let mut doc = yaml::from_slice(text).expect("a document");
    let world = hist::world(&doc);
    let paths = world.root.paths();
    let path = &paths[c.pick(paths.len())];
    let Some(id) = hist::id_at(&doc, &world.root, path) else {
        return;
    };
    let v = doc.value_mut(id);
    match world.root.at(path).kind {
        hist::Kind::Map(_) => {
            if let Some(mut m) = v.into_mapping_mut() {
                f(m.insert(key, Separator::Auto));
            }
        }
        hist::Kind::Seq(_) => {
            if let Some(mut s) = v.into_sequence_mut() {
                f(s.push(Separator::Auto));
            }
        }
        _ => f(v),
    }
    state(out, &doc);
    parsed(out, &view::written(&doc));
}

fn parsed(out: &mut String, v: &[u8]) {
    match yaml::from_slice(v) {
        Ok(doc) => state(out, &doc),
        Err(e) => {
            let _ = write!(out, "{e} {:?}", e.span());
        }
    }
}

/// Of which strings are made.
const PIECES: &[&str] = &[
    "a", " ", "'", "\"", "\\", "\n", ":", "#", "-", "1", ".", "\t", "\r", "\0", "\x07", "\x1b", "é", "\u{85}", "\u{2028}", "😀", "~", ",", "[", "}", "&", "!", "|", "%", "null", "true",
];

fn string(c: &mut Case<'_>, first: usize, len: usize, out: &mut String) {
    let mut s = PIECES[first].to_owned();
    let mut pieces = 1;
    for _ in 1..len {
        match c.pick(PIECES.len() + 1) {
            0 => break,
            n => s.push_str(PIECES[n - 1]),
        }
        pieces += 1;
    }
    // Only the shortest ones are repeated.
    let long = match if pieces == 1 { c.pick(3) } else { 0 } {
        0 => s,
        n => s.repeat([40, 150][n - 1]),
    };
    let kind = [StringKind::Bare, StringKind::Single, StringKind::Double][c.pick(3)];
    let bare = matches!(kind, StringKind::Bare);
    let text = PLACES[c.pick(PLACES.len())];
    let _ = write!(out, "{} {kind:?} ", view::show(long.as_bytes()));
    put(c, text, &long, out, &|mut v| {
        if bare {
            v.set_string(&long);
        } else {
            v.set_string_with(&long, kind);
        }
    });
}

/// Text of numbers, and what only looks like one.
const DIGITS: &[&str] = &[
    "0", "-0", "1", "+1", "007", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536",
    "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
    "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
    "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
    "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "1e3", "1E+3", "1e-3", "1.", ".5",
    "-.5", "1.5", "1.0", "1e400", "1e-400", "-1e400", "0.1", "16777217", "9007199254740993", "3.4028236e38", "1e-46",
    "4.9e-324", "2.4703282292062327e-324", "1.7976931348623157e308", "1.7976931348623159e308", "0x10", "0o7", "1_000", ".inf",
    "-.INF", ".nan", "-", "+", ".", "1e", "1e+", "--1", "1.2.3", "1e3.5", "0.30000000000000004", "1 2", "1a",
];

fn number(c: &mut Case<'_>, text: &str, out: &mut String) {
    let place = PLACES[c.pick(PLACES.len())];
    let zeros = ["", "0", "00000000000000000000000000000000000000000000000000"][c.pick(3)];
    let (sign, rest) = match text.strip_prefix('-') {
        Some(rest) => ("-", rest),
        None => ("", text),
    };
    let it = format!("{sign}{zeros}{rest}");
    let _ = write!(out, "{it} ");
    parsed(out, place.replace('x', &it).as_bytes());
    put(c, place, "n", out, &|mut v| {
        if let Ok(n) = text.parse::<i128>() {
            v.set_i128(n);
        } else if let Ok(n) = text.parse::<u128>() {
            v.set_u128(n);
        } else if let Ok(n) = text.parse::<f64>() {
            v.set_f64(n);
        } else {
            v.set_null(Null::Tilde);
        }
    });
    // The same number in the other types.
    let mut doc = yaml::from_slice("[]").expect("a document");
    if let Some(mut s) = doc.as_mut().into_sequence_mut() {
        if let Ok(n) = text.parse::<f64>() {
            s.push_f32(n as f32);
            s.push_f64(n);
            s.push_u8(n as u8);
            s.push_i8(n as i8);
            s.push_u16(n as u16);
            s.push_i16(n as i16);
            s.push_u32(n as u32);
            s.push_i32(n as i32);
            s.push_u64(n as u64);
            s.push_i64(n as i64);
            s.push_u128(n as u128);
            s.push_i128(n as i128);
        }
    }
    state(out, &doc);
}

const LINES: &[&str] = &["a", "", "  b", "c ", "\t", "# d", "lorem ipsum dolor sit amet consectetur"];

/// A block is parsed, and the same lines are written.
fn lines(c: &mut Case<'_>, header: &str, out: &mut String) {
    let mut ls = Vec::new();
    for _ in 0..3 {
        match c.pick(LINES.len() + 1) {
            0 => break,
            n => ls.push(LINES[n - 1]),
        }
    }
    let many = if ls.len() < 3 { c.pick(2) } else { 0 };
    if many > 0 {
        ls = ls.repeat(60);
    }
    let (before, pad, after) = [("", "  ", ""), ("a: ", "  ", "b: 1\n"), ("- - ", "      ", "  - x\n"), ("a:\n  - ", "      ", "b: 1\n")][c.pick(4)];
    let mut text = format!("{before}{header}\n");
    for l in &ls {
        text.push_str(pad);
        text.push_str(l);
        text.push('\n');
    }
    text.push_str(after);
    let _ = write!(out, "{} ", view::show(text.as_bytes()));
    parsed(out, text.as_bytes());
    let chomp = if header.contains('-') {
        Chomp::Strip
    } else if header.contains('+') {
        Chomp::Keep
    } else {
        Chomp::Clip
    };
    let block = if header.starts_with('|') { Block::Literal(chomp) } else { Block::Folded(chomp) };
    put(c, PLACES[1 + many], "n", out, &|mut v| v.set_block(&ls, block));
}

const HEADERS: &[&str] = &["|", "|-", "|+", "|2", "|2-", "|+1", ">", ">-", ">+", ">2", ">1-", ">-2", "| # c", "|9"];

fn history(c: &mut Case<'_>, text: &str, a: &Alphabet, depth: usize, out: &mut String) -> u64 {
    let mut doc = yaml::from_slice(text).expect("a document");
    let mut world = hist::world(&doc);
    state(out, &doc);
    let mut steps = 0;
    for _ in 0..depth {
        let (path, op) = hist::choose(c, &world.root, a);
        let route = [Route::Into, Route::Borrow, Route::Id][steps as usize % 3];
        let _ = write!(out, "{}: ", hist::describe(&path, &op));
        let done = hist::perform(&mut doc, &world.root, &path, &op, route);
        let _ = write!(out, "{done:?} ");
        world.apply(&path, &op);
        state(out, &doc);
        steps += 1;
    }
    steps
}

const TOKENS: &[&str] = &[
    "a", ":", " ", "\n", "- ", "#", "'", "\"", ",", "[", "]", "{", "}", "1", "|", "~", "\\", "-", ".", "\r\n", "é", "\t", "true", "  ",
];

fn tokens(c: &mut Case<'_>, first: usize, len: usize, out: &mut String) {
    let mut s = TOKENS[first].to_owned();
    for _ in 1..len {
        match c.pick(TOKENS.len() + 1) {
            0 => break,
            n => s.push_str(TOKENS[n - 1]),
        }
    }
    let _ = write!(out, "{} ", view::show(s.as_bytes()));
    match yaml::from_slice(&s) {
        Ok(doc) => state(out, &doc),
        Err(e) => {
            let _ = write!(out, "{e} {:?}", e.span());
        }
    }
}

/// One execution of a block; `None` if there is no such block.
fn block(c: &mut Case<'_>, thorough: bool, block: usize, out: &mut String) -> Option<u64> {
    let mut n = block;
    // The number in the group of blocks, if it is this one.
    let mut group = |len: usize| {
        let at = (n < len).then_some(n);
        n = n.wrapping_sub(len);
        if at.is_some() {
            n = usize::MAX;
        }
        at
    };
    if let Some(i) = group(DOCS.len()) {
        return Some(history(c, DOCS[i], &hist::FULL, if thorough { 2 } else { 1 }, out));
    }
    if let Some(i) = group(DOCS.len()) {
        return Some(history(c, DOCS[i], &hist::MORE, 2, out));
    }
    if let Some(i) = group(DOCS.len()) {
        return Some(history(c, DOCS[i], &hist::CORE, 3, out));
    }
    if let Some(i) = group(TOKENS.len()) {
        tokens(c, i, if thorough { 5 } else { 4 }, out);
        return Some(1);
    }
    if let Some(i) = group(DOCS.len()) {
        let steps = history(c, DOCS[i], &hist::FULL, 0, out);
        faults(out, &yaml::from_slice(DOCS[i]).expect("a document"));
        return Some(steps + 1);
    }
    let docs = hist::large();
    if let Some(i) = group(docs.len()) {
        return Some(large(c, &docs[i], false, out));
    }
    let docs = hist::huge();
    if let Some(i) = group(docs.len()) {
        return Some(large(c, &docs[i], true, out));
    }
    if let Some(i) = group(hist::CORPUS.len()) {
        mutated(c, hist::CORPUS[i], out);
        return Some(1);
    }
    if let Some(i) = group(PIECES.len()) {
        string(c, i, if thorough { 3 } else { 2 }, out);
        return Some(1);
    }
    if let Some(i) = group(DIGITS.len()) {
        number(c, DIGITS[i], out);
        return Some(1);
    }
    if let Some(i) = group(HEADERS.len()) {
        lines(c, HEADERS[i], out);
        return Some(1);
    }
    None
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let full = args[0] == "full";
    let count = args[0] == "count";
    let thorough = args[1] == "thorough";
    let n: usize = args[2].parse().expect("a block");
    std::panic::set_hook(Box::new(|_| {}));

    let mut hash: u64 = 0xcbf2_9ce4_8422_2325;
    let (mut runs, mut steps, mut panics) = (0u64, 0u64, 0u64);
    let mut c = Case::default();
    let stdout = std::io::stdout();
    let mut stdout = std::io::BufWriter::new(stdout.lock());
    loop {
        let mut out = String::new();
        match catch_unwind(AssertUnwindSafe(|| block(&mut c, thorough, n, &mut out))) {
            Ok(None) => {
                println!("none");
                return;
            }
            Ok(Some(n)) => steps += n,
            Err(e) => {
                panics += 1;
                let what = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
                    .unwrap_or_default();
                out.push_str("panic: ");
                out.push_str(&what);
            }
        }
        runs += 1;
        for b in out.bytes().chain([b'\n']) {
            hash ^= u64::from(b);
            hash = hash.wrapping_mul(0x0000_0100_0000_01b3);
        }
        if full {
            let _ = writeln!(stdout, "{}", out.replace('\n', "⏎"));
        }
        if !c.next() || count {
            break;
        }
    }
    if !full {
        let _ = writeln!(stdout, "{hash:016x} {runs} {steps} {panics} panics");
    }
}
