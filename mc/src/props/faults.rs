//! Failing and slow writers: C16.

use std::fmt::Write as _;
use std::io;

use nondestructive::yaml::{self, Document};

use super::structure;
use super::Prop;
use crate::engine::*;
use crate::hist;
use crate::view::*;

pub static C16: Prop = Prop {
    id: "C16",
    level: "fault_enumeration",
    technique: "exhaustive fault injection: the writer is a nondeterministic environment of which every behaviour with a bounded number of faults is explored, at every write call of every document, on the real writers",
    rule: "every document of the space, times every size of accepted pieces, times every sequence of at most the stated number of faults (short write, interruption, write of nothing, error) at any calls; non-trivial: distinct combinations of document and fault history",
    assumptions: &["A writer keeps to the contract of std::io::Write"],
    spaces: spaces_c16,
    probes: &[],
};

/// What a writer does in a call.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Does {
    /// What it does by default.
    Accept,
    Interrupt,
    Short,
    /// All of it, where the default is less.
    All,
    Fail(io::ErrorKind),
    Zero,
}

const DOES: &[Does] = &[
    Does::Accept,
    Does::Fail(io::ErrorKind::Other),
    Does::Interrupt,
    Does::Zero,
    Does::Short,
    Does::All,
    Does::Fail(io::ErrorKind::BrokenPipe),
    Does::Fail(io::ErrorKind::WouldBlock),
    Does::Fail(io::ErrorKind::UnexpectedEof),
    Does::Fail(io::ErrorKind::WriteZero),
];

struct Faulty<'c, 'w> {
    case: &'c mut Case<'w>,
    /// How much is accepted by default.
    piece: usize,
    out: Vec<u8>,
    log: String,
    calls: usize,
    failed: Option<io::ErrorKind>,
    /// The length, if faults are only placed near the ends of the document and
    /// of the pages of it.
    paged: Option<usize>,
    /// The number of calls after a failure.
    after: usize,
}

const MESSAGE: &str = "the disk is made of cheese";

impl io::Write for Faulty<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.failed.is_some() {
            // Accept everything, so that a failure which is not reported shows.
            self.after += 1;
            self.out.extend_from_slice(buf);
            return Ok(buf.len());
        }
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        let (at, end) = (self.out.len(), self.out.len() + buf.len());
        let near = |n: usize| at <= n + 16 && end + 16 >= n;
        let does = match self.paged {
            Some(len) if !near(0) && !near(len) && !(at / 4096..=end / 4096 + 1).any(|n| near(n * 4096)) => Does::Accept,
            _ => self.case.dev_of(DOES),
        };
        if does != Does::Accept {
            self.log.push_str(&format!("; {does:?} at {}", self.out.len()));
            let log = self.log.clone();
            note(|n| *n = log);
            self.case.transition();
        }
        let n = match does {
            Does::Accept => self.piece.min(buf.len()),
            Does::Short => (buf.len() + 1) / 2,
            Does::All => buf.len(),
            Does::Interrupt => return Err(io::ErrorKind::Interrupted.into()),
            Does::Fail(kind) => {
                self.failed = Some(kind);
                return Err(io::Error::new(kind, MESSAGE));
            }
            Does::Zero => {
                self.failed = Some(io::ErrorKind::WriteZero);
                self.log.push_str(" (nothing)");
                return Ok(0);
            }
        };
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Sink<'c, 'w> {
    case: &'c mut Case<'w>,
    out: String,
    failed: bool,
    after: usize,
}

impl std::fmt::Write for Sink<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.after += 1;
            self.out.push_str(s);
            return Ok(());
        }
        if self.case.dev(2) == 1 {
            self.failed = true;
            self.case.transition();
            return Err(std::fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

fn bytes(c: &mut Case<'_>, doc: &Document, log: &str, pieces: &[usize], paged: bool) -> Res {
    let full = written(doc);
    let data = view(doc);
    let piece = c.of(pieces);
    let start = format!("{log}; pieces of {piece}");
    note(|n| n.clone_from(&start));
    let mut w = Faulty {
        case: c,
        piece,
        out: Vec::new(),
        log: start,
        calls: 0,
        failed: None,
        paged: paged.then_some(full.len()),
        after: 0,
    };
    let result = doc.write_to(&mut w);
    let Faulty {
        out,
        log,
        failed,
        after,
        ..
    } = w;
    c.nontrivial(log.as_bytes());
    match (failed, result) {
        (None, Ok(())) => {
            if out != full {
                return fail("a slow writer gets other bytes", log, format!("{}, expected {}", show(&out), show(&full)));
            }
            c.outcome("written");
        }
        (None, Err(e)) => return fail("an error out of nothing", log, e.to_string()),
        (Some(kind), Ok(())) => return fail("an error is not reported", log, format!("{kind:?}")),
        (Some(kind), Err(e)) => {
            if e.kind() != kind {
                return fail("another error is reported", log, format!("{:?}, expected {kind:?}", e.kind()));
            }
            // NB: the error for a write of nothing is made up by the caller.
            let own = !log.ends_with(" (nothing)");
            if own && e.to_string() != MESSAGE {
                return fail("another error is reported", log, e.to_string());
            }
            if after > 0 {
                return fail("writing goes on after an error", log, format!("{after} more calls"));
            }
            if !full.starts_with(&out) {
                return fail(
                    "a failing writer does not get a prefix",
                    log,
                    format!("{}, expected a prefix of {}", show(&out), show(&full)),
                );
            }
            c.outcome("failed");
        }
    }
    if written(doc) != full || view(doc) != data {
        return fail("a failed write changes the document", log, show(&written(doc)));
    }
    c.stats.validated += 1;
    c.sample(|| log.clone());
    Ok(())
}

fn text(c: &mut Case<'_>, doc: &Document, log: &str) -> Res {
    let full = doc.to_string();
    let mut sink = Sink {
        case: c,
        out: String::new(),
        failed: false,
        after: 0,
    };
    let result = write!(sink, "{doc}");
    let Sink { out, failed, after, .. } = sink;
    let case = || format!("{log}; formatter fails at {}", out.len());
    if failed {
        c.nontrivial(case().as_bytes());
        if result.is_ok() {
            return fail("an error of the formatter is not reported", case(), "");
        }
        if after > 0 || !full.starts_with(&out) {
            return fail("formatting goes on after an error", case(), show(out.as_bytes()));
        }
        c.outcome("formatter failed");
    } else if result.is_err() || out != full {
        return fail("the formatter gets something else", case(), show(out.as_bytes()));
    }
    Ok(())
}

fn check(c: &mut Case<'_>, doc: &Document, log: &str) -> Res {
    if c.pick(2) == 0 {
        bytes(c, doc, log, &[usize::MAX, 1, 3], false)
    } else {
        text(c, doc, log)
    }
}

/// Documents with every kind of value and of text.
const RICH: &[&str] = &[
    "a: 'it''s'\nb: \"x\\n\"\n",
    "- |\n  one\n  two\n- >+\n  three\n\n- x\n",
    "{a: [1, ~, null, ], \"b\": {}, 'c': }\n",
    "---\n# c\nk: v # d\nl:\n  - true\n  -\n\n# e\n",
];

/// Documents larger than the buffers which writers commonly have.
fn long() -> Vec<String> {
    let mut out = hist::large();
    let it = "it ".repeat(3000);
    out.push(format!("a: '{it}'\nb: x\n"));
    out.push(format!("a: \"{it}\\n{it}\"\n"));
    out.push(format!("a: {it}# {it}\nb: |\n  {it}\nc: [1, {it}]\n"));
    out.push(format!("- a:{0}1{0}\n-{0}{{b:{0}c}}\n", " ".repeat(5000)));
    out.push((0..700).map(|i| format!("k{i}:\n  - 'v'\n")).collect());
    out
}

fn parse(text: &str) -> Result<Document, Fail> {
    match yaml::from_slice(text) {
        Ok(d) => Ok(d),
        Err(e) => fail("a document is rejected", show(text.as_bytes()), e.to_string()),
    }
}

fn edited(c: &mut Case<'_>, alphabet: &hist::Alphabet, depth: usize) -> Result<(Document, String), Fail> {
    let n = c.pick(hist::DOCS.len() + RICH.len());
    let text = hist::DOCS.get(n).or_else(|| RICH.get(n - hist::DOCS.len())).copied().unwrap_or("");
    let mut log = show(text.as_bytes());
    let mut doc = parse(text)?;
    let mut world = hist::world(&doc);
    for _ in 0..depth {
        let (path, op) = hist::choose(c, &world.root, alphabet);
        log.push_str("; ");
        log.push_str(&hist::describe(&path, &op));
        hist::perform(&mut doc, &world.root, &path, &op, hist::Route::Into);
        world.apply(&path, &op);
    }
    Ok((doc, log))
}

fn spaces_c16(tier: Tier) -> Vec<Space> {
    let mut out = Vec::new();
    for (name, alphabet, depth, faults) in [
        ("no edit", hist::FULL, 0, tier.sel(2, 3)),
        ("one edit", hist::FULL, 1, 1),
        ("core edits", hist::CORE, tier.sel(1, 2), 1),
        ("more edits", hist::MORE, 1, tier.sel(1, 2)),
    ] {
        out.push(Space::new(format!("{name}, {faults} faults"), faults, move |c| {
            let (doc, log) = edited(c, &alphabet, depth)?;
            check(c, &doc, &log)
        }));
    }
    let faults = tier.sel(1, 2);
    out.push(Space::new(format!("strings, {faults} faults"), faults, move |c| {
        use super::strings::{Text, Way};
        const TEXTS: &[&str] = &["s", "it's a 'b'", "a\n\"b\"\\\t", "\0\x01é\x02\u{2028}\x7f", ""];
        let text = c.of(TEXTS);
        let way = c.of(&[Way::Auto, Way::Single, Way::Double]);
        let places = super::writes::few();
        let p = &places[c.pick(places.len())];
        let key = if p.is_new_key() { c.of(&["new", "k\x03'"]) } else { "new" };
        let doc = super::writes::write(p, key.as_bytes(), &Text { way, text })?;
        let log = format!("{}: {key:?}: {text:?} {way:?}", p.describe());
        check(c, &doc, &log)
    }));
    let configs = structure::configs(Tier::Quick)
        .into_iter()
        .map(|(name, cfg, _)| {
            let budget = tier.sel(3, 4).min(cfg.budget);
            (name, crate::gen::Config { budget, ..cfg }, 2)
        })
        .collect();
    // NB: layouts and faults share the bound.
    out.extend(structure::docs(tier, configs, "faults in ", false, |c, d| {
        let doc = match yaml::from_slice(&d.text) {
            Ok(d) => d,
            Err(e) => return fail("a document is rejected", show(&d.text), e.to_string()),
        };
        check(c, &doc, &show(&d.text))
    }));
    let long = long();
    out.push(Space::new("long documents, 1 fault", 1, move |c| {
        let i = c.pick(long.len());
        let mut doc = parse(&long[i])?;
        let mut log = format!("long document {i}");
        if c.pick(2) == 1 {
            let text = "it's \\ \"\n".repeat(1500);
            log.push_str("; set to a long string");
            doc.as_mut().set_string(&text);
        }
        bytes(c, &doc, &log, &[usize::MAX, 100, 4096], true)
    }));
    out
}
