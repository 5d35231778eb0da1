//! Spaces of raw input bytes, shared by the properties about parsing.

use crate::hist::CORPUS;
use crate::engine::{Case, Tier};

pub type Gen = Box<dyn Fn(&mut Case<'_>) -> Vec<u8> + Sync + Send>;

pub struct Inputs {
    pub name: String,
    pub max_dev: u32,
    pub gen: Gen,
}

fn inputs(
    name: impl Into<String>,
    max_dev: u32,
    gen: impl Fn(&mut Case<'_>) -> Vec<u8> + Sync + Send + 'static,
) -> Inputs {
    Inputs {
        name: name.into(),
        max_dev,
        gen: Box::new(gen),
    }
}

/// Every byte the parser distinguishes, and one or two of every class it does
/// not.
pub const BYTES: &[u8] = b"a1 \n:-,[]{}\"'\\#|>~.e\t\r\0%x0\xff";

/// The core of `BYTES`.
pub const CORE: &[u8] = b"a1 \n:-,[]{}\"'\\#|";

/// Bytes for flow collections.
pub const FLOW: &[u8] = b"a1 ,:[]{}\"'#-\n";

/// Bytes for block structure.
pub const BLOCK: &[u8] = b"a1 \n:-|>#\"";

/// Bytes for quoted scalars.
pub const QUOTE: &[u8] = b"a \n\"'\\nxu0:\0";

pub const TOKENS: &[&[u8]] = &[
    b"a",
    b"b: ",
    b"c:",
    b"- ",
    b"-",
    b"\n",
    b"  ",
    b" ",
    b"[",
    b"]",
    b"{",
    b"}",
    b",",
    b"'q'",
    b"\"d\"",
    b"\"e\\n\"",
    b"12",
    b"-1.5e3",
    b"true",
    b"null",
    b"~",
    b"# c\n",
    b"|",
    b">-",
    b"|+\n",
    b"---",
    b"%Y 1\n",
    b"\r\n",
    b"\t",
    b"'it''s'",
    b"\xc3\xa9",
    b"\xff",
];

/// All strings of at most `max` symbols.
fn strings(alphabet: &'static [u8], max: usize) -> impl Fn(&mut Case<'_>) -> Vec<u8> {
    move |c| {
        let n = c.pick(max + 1);
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(alphabet[c.pick(alphabet.len())]);
        }
        v
    }
}

fn tokens(alphabet: &'static [&'static [u8]], max: usize) -> impl Fn(&mut Case<'_>) -> Vec<u8> {
    move |c| {
        let n = c.pick(max + 1);
        let mut v = Vec::new();
        for _ in 0..n {
            v.extend_from_slice(alphabet[c.pick(alphabet.len())]);
        }
        v
    }
}

/// One edit of a document at every position.
fn mutate(c: &mut Case<'_>, v: &mut Vec<u8>, alphabet: &[u8]) {
    match c.pick(6) {
        0 => {
            let i = c.pick(v.len() + 1);
            v.insert(i, alphabet[c.pick(alphabet.len())]);
        }
        1 => {
            if !v.is_empty() {
                let i = c.pick(v.len());
                v[i] = alphabet[c.pick(alphabet.len())];
            }
        }
        2 => {
            if !v.is_empty() {
                let i = c.pick(v.len());
                v.remove(i);
            }
        }
        3 => {
            let i = c.pick(v.len() + 1);
            v.truncate(i);
        }
        4 => {
            // Drop a short range.
            let i = c.pick(v.len() + 1);
            let n = 2 + c.pick(5);
            let j = (i + n).min(v.len());
            v.drain(i..j);
        }
        _ => {
            // Repeat a short range.
            let i = c.pick(v.len() + 1);
            let n = 1 + c.pick(6);
            let j = (i + n).min(v.len());
            let r = v[i..j].to_vec();
            v.splice(j..j, r);
        }
    }
}

pub const LENGTHS: &[usize] = &[
    300, 301, 510, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096,
    4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 65537, 70000,
];

/// Sizes: all of 0..300 and the neighbourhood of the powers of two.
pub fn length(c: &mut Case<'_>) -> usize {
    let i = c.pick(300 + LENGTHS.len());
    if i < 300 {
        i
    } else {
        LENGTHS[i - 300]
    }
}

fn rep(s: &[u8], n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len() * n);
    for _ in 0..n {
        v.extend_from_slice(s);
    }
    v
}

/// Every construct at every size of the ladder.
pub fn ladder(c: &mut Case<'_>) -> Vec<u8> {
    let n = length(c);
    let mut v = Vec::new();
    let around: &[(&[u8], &[u8])] = &[
        (b"", b""),
        (b"a: ", b"\nb: 2\n"),
        (b"- ", b"\n- z\n"),
        (b"[", b"]"),
        (b"{k: ", b", l: m}"),
        (b"x:\n  y:\n    - ", b"\n  w: 1\n"),
    ];
    match c.pick(13) {
        // Scalars.
        k @ 0..=5 => {
            let (pre, post) = c.of(around);
            let (open, body, close): (&[u8], &[u8], &[u8]) = match k {
                0 => (b"", b"a", b""),
                1 => (b"\"", b"a", b"\""),
                2 => (b"'", b"a", b"'"),
                3 => (b"'", b"''", b"'"),
                4 => (b"\"", b"\\n", b"\""),
                _ => (b"", b"7", b""),
            };
            v.extend_from_slice(pre);
            v.extend_from_slice(open);
            v.extend(rep(body, n));
            v.extend_from_slice(close);
            v.extend_from_slice(post);
        }
        // Keys.
        6 => {
            v.extend_from_slice(b"o: 1\n");
            v.extend(rep(b"k", n.max(1)));
            v.extend_from_slice(b": 1\n");
        }
        // Whitespace and comments.
        7 => {
            let w: &[u8] = c.of(&[&b" "[..], b"\n", b"#c\n", b"\r\n", b"\t"]);
            v.extend_from_slice(b"a:\n  - 1");
            v.push(b'\n');
            v.extend(rep(w, n));
            v.extend_from_slice(b"\n  - 2\n");
        }
        // Indentation.
        8 => {
            let pad = rep(b" ", n.min(9000));
            for line in [&b"a:\n"[..], b" b: 1\n", b" c:\n", b" - 2\n"] {
                v.extend_from_slice(&pad);
                v.extend_from_slice(line);
            }
        }
        // Many items.
        9 => {
            let n = n.min(9000);
            for i in 0..n {
                v.extend_from_slice(format!("k{i}: v{i}\n").as_bytes());
            }
        }
        10 => {
            let n = n.min(9000);
            for i in 0..n {
                v.extend_from_slice(format!("- v{i}\n").as_bytes());
            }
        }
        11 => {
            let n = n.min(9000);
            v.push(b'[');
            for i in 0..n {
                v.extend_from_slice(format!("{i}, ").as_bytes());
            }
            v.push(b']');
        }
        // Block scalar lines.
        _ => {
            v.extend_from_slice(b"a: |\n");
            v.extend(rep(b"  line\n", n.min(9000)));
            v.extend_from_slice(b"b: 1\n");
        }
    }
    v
}

/// Two texts which are the same but for one place, so that only something which
/// looks at all of both tells them apart.
pub fn twins(c: &mut Case<'_>) -> (Vec<u8>, Vec<u8>) {
    const LONG: &[usize] = &[
        159, 160, 161, 191, 192, 193, 200, 223, 224, 225, 239, 240, 241, 255, 256, 257, 300, 511, 512, 513, 1000,
        1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537,
    ];
    let i = c.pick(140 + LONG.len());
    let (n, at) = if i < 140 {
        (i + 1, c.pick(i + 1))
    } else {
        let n = LONG[i - 140];
        let at = [
            0, 1, 15, 16, 31, 32, 63, 64, 65, n / 4, n / 2, n / 2 + 1, 3 * n / 4, n - 65, n - 64, n - 63, n - 33, n - 32, n - 31,
            n - 17, n - 16, n - 2, n - 1,
        ];
        (n, at[c.pick(at.len())])
    };
    let a: Vec<u8> = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
    let mut b = a.clone();
    match c.pick(5) {
        0 => b[at] = b'z',
        1 => b[at] = b[at].to_ascii_uppercase(),
        2 => b.insert(at, b'z'),
        3 => {
            b.remove(at);
            b.push(b'z');
        }
        _ => b.rotate_left(at),
    }
    if a == b {
        b.push(b'z');
    }
    if c.pick(2) == 0 {
        (a, b)
    } else {
        (b, a)
    }
}

/// A document with two texts in places of the same kind.
pub fn twins_doc(c: &mut Case<'_>) -> Vec<u8> {
    let (a, b) = twins(c);
    let white = |v: &[u8]| -> Vec<u8> { v.iter().map(|&b| if b < b'm' { b' ' } else { b'\t' }).collect() };
    let parts: Vec<Vec<u8>> = match c.pick(6) {
        0 => vec![b"x: ".to_vec(), a, b"\ny: ".to_vec(), b, b"\n".to_vec()],
        1 => vec![a, b": 1\n".to_vec(), b, b": 2\n".to_vec()],
        2 => vec![b"x: 1 # ".to_vec(), a, b"\n# ".to_vec(), b, b"\ny: 2\n".to_vec()],
        3 => vec![b"['".to_vec(), a, b"', \"".to_vec(), b, b"\"]\n".to_vec()],
        4 => vec![b"x: ".to_vec(), white(&a), b"1\ny: ".to_vec(), white(&b), b"2\n".to_vec()],
        _ => vec![b"x: |\n  ".to_vec(), a, b"\ny: >-\n  ".to_vec(), b, b"\n".to_vec()],
    };
    parts.concat()
}

/// Nesting of every kind up to a depth of 96.
pub fn nesting(c: &mut Case<'_>) -> Vec<u8> {
    let n = c.pick(97);
    let mut v = Vec::new();
    match c.pick(6) {
        0 => {
            v.extend(rep(b"[", n));
            v.extend(rep(b"]", n));
        }
        1 => {
            v.extend(rep(b"{a: ", n));
            v.extend(rep(b"}", n));
        }
        2 => {
            for i in 0..n {
                v.extend(rep(b" ", i));
                v.extend_from_slice(b"k:\n");
            }
            v.extend(rep(b" ", n));
            v.extend_from_slice(b"x\n");
        }
        3 => {
            v.extend(rep(b"- ", n));
            v.extend_from_slice(b"x\n");
        }
        4 => {
            for _ in 0..n {
                v.extend_from_slice(b"- a: ");
            }
            v.extend_from_slice(b"x\n");
        }
        _ => {
            v.extend(rep(b"[{a: ", n));
            v.extend(rep(b"}, 1]", n));
        }
    }
    v
}

/// Bytes which are not UTF-8, and some which are not meant to be where they are.
const BROKEN: &[&[u8]] = &[
    b"\xef\xbb",
    b"\xef\xbb\xbf\xef\xbb\xbf",
    b"\xe2\x80",
    b"\xc2\xa0\xa0",
    b"\xff\xfe",
    b"\xfe\xff",
    b"\xc0\x80",
    b"\xed\xa0\x80",
    b"\0a\0",
];

/// Characters: the first blocks, and those of every other block which are white,
/// a line break, not seen, or at a border; or simply most of them.
pub fn codepoint(c: &mut Case<'_>, tier: Tier) -> char {
    const RANGES: &[(u32, u32)] = &[
        (0, 0x180),
        (0x2c0, 0x2c4),
        (0x300, 0x304),
        (0x3ff, 0x401),
        (0x7ff, 0x801),
        (0x1680, 0x1681),
        (0x180e, 0x180f),
        (0x1fff, 0x2070),
        (0x20ac, 0x20ad),
        (0x3000, 0x3004),
        (0xd7ff, 0xd800),
        (0xe000, 0xe001),
        (0xfe0f, 0xfe10),
        (0xfefe, 0xff0f),
        (0xfff0, 0x10001),
        (0x1f600, 0x1f601),
        (0xe0001, 0xe0002),
        (0x10ffff, 0x11_0000),
    ];
    if tier == Tier::Thorough {
        // All of the first plane.
        return char::from_u32(c.pick(0x11000) as u32).unwrap_or('\u{10ffff}');
    }
    let n: u32 = RANGES.iter().map(|(a, b)| b - a).sum();
    let mut i = c.pick(n as usize) as u32;
    for &(a, b) in RANGES {
        if i < b - a {
            return char::from_u32(a + i).unwrap_or('x');
        }
        i -= b - a;
    }
    unreachable!()
}

/// The spaces of raw inputs.
pub fn all(tier: Tier) -> Vec<Inputs> {
    let q = |a, b| tier.sel(a, b);
    vec![
        inputs("bytes", 0, strings(BYTES, q(4, 5))),
        inputs("core bytes", 0, strings(CORE, q(5, 6))),
        inputs("flow bytes", 0, strings(FLOW, q(6, 7))),
        inputs("block bytes", 0, strings(BLOCK, q(6, 8))),
        inputs("quote bytes", 0, strings(QUOTE, q(6, 7))),
        inputs("tokens", 0, tokens(TOKENS, q(4, 5))),
        inputs("corpus, 1 edit", 0, |c| {
            let mut v = CORPUS[c.pick(CORPUS.len())].as_bytes().to_vec();
            mutate(c, &mut v, BYTES);
            v
        }),
        inputs("corpus, 2 edits", 0, move |c| {
            let n = tier.sel(3, CORPUS.len());
            let mut v = CORPUS[c.pick(n)].as_bytes().to_vec();
            let alphabet: &[u8] = tier.sel(b" \n:-,\"", CORE);
            mutate(c, &mut v, alphabet);
            mutate(c, &mut v, alphabet);
            v
        }),
        inputs("code points", 0, move |c| {
            let n = tier.sel(4, 3);
            let mut v = CORPUS[[8, 0, 9, 3][c.pick(n)]].as_bytes().to_vec();
            let i = c.pick(v.len() + 1);
            let mut buf = [0; 4];
            let b = codepoint(c, tier).encode_utf8(&mut buf).as_bytes();
            v.splice(i..i, b.iter().copied());
            v
        }),
        inputs("broken code points", 0, move |c| {
            let mut v = CORPUS[c.pick(tier.sel(4, CORPUS.len()))].as_bytes().to_vec();
            let i = c.pick(v.len() + 1);
            let b: Vec<u8> = match c.pick(2) {
                0 => vec![0x80 + c.pick(0x80) as u8],
                _ => c.of(BROKEN).to_vec(),
            };
            v.splice(i..i, b);
            v
        }),
        inputs("sizes", 0, ladder),
        inputs("nesting", 0, nesting),
        inputs("two texts", 0, twins_doc),
    ]
}
