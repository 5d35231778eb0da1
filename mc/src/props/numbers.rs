//! Numbers are exact: C13.

use nondestructive::yaml::{self, Document, MappingMut, Number, SequenceMut, Value, ValueMut};

use super::scalars::{is_number, is_plain, resolve, Read};
use super::writes::{self, Place, What};
use super::Prop;
use crate::engine::*;
use crate::view::*;

pub static C13: Prop = Prop {
    id: "C13",
    level: "exploration",
    technique: "bounded-exhaustive enumeration of the values of every number type and of number texts, times every way to write and to read them, compared with exact arithmetic",
    rule: "every value of the set of each type, times every place, read as every type before and after a round trip; every text of the alphabet up to a length, in every position, read as every type; non-trivial: distinct combinations",
    assumptions: &[
        "The nearest float of a text is the one the standard library parses",
        "Not claimed: infinities and NaN, `-0` read as an unsigned type",
    ],
    spaces: spaces_c13,
    probes: &[],
};

macro_rules! types {
    ($($variant:ident $ty:ident $set:ident $insert:ident $push:ident $get:ident,)*) => {
        #[derive(Clone, Copy, Debug)]
        #[allow(non_camel_case_types)]
        pub enum Val {
            $($variant($ty),)*
        }

        impl What for Val {
            fn set(&self, v: &mut ValueMut<'_>) {
                match *self {
                    $(Val::$variant(n) => v.$set(n),)*
                }
            }
            fn insert(&self, m: &mut MappingMut<'_>, key: &[u8]) {
                match *self {
                    $(Val::$variant(n) => m.$insert(key, n),)*
                }
            }
            fn push(&self, s: &mut SequenceMut<'_>) {
                match *self {
                    $(Val::$variant(n) => s.$push(n),)*
                }
            }
        }

        /// Every reading of a value, as text that is distinct for distinct
        /// values.
        fn of_value(v: &Value<'_>) -> Vec<Option<String>> {
            vec![$(v.$get().map(|n| $ty::exact(n)),)*]
        }

        fn of_number(v: &Number<'_>) -> Vec<Option<String>> {
            vec![$(v.$get().map(|n| $ty::exact(n)),)*]
        }

        pub const TYPES: &[&str] = &[$(stringify!($ty),)*];

        impl Val {
            fn index(&self) -> usize {
                let mut i = 0;
                $(
                    if let Val::$variant(_) = self {
                        return i;
                    }
                    i += 1;
                )*
                i
            }

            fn exact(&self) -> String {
                match *self {
                    $(Val::$variant(n) => $ty::exact(n),)*
                }
            }
        }
    };
}

types! {
    F32 f32 set_f32 insert_f32 push_f32 as_f32,
    F64 f64 set_f64 insert_f64 push_f64 as_f64,
    U8 u8 set_u8 insert_u8 push_u8 as_u8,
    I8 i8 set_i8 insert_i8 push_i8 as_i8,
    U16 u16 set_u16 insert_u16 push_u16 as_u16,
    I16 i16 set_i16 insert_i16 push_i16 as_i16,
    U32 u32 set_u32 insert_u32 push_u32 as_u32,
    I32 i32 set_i32 insert_i32 push_i32 as_i32,
    U64 u64 set_u64 insert_u64 push_u64 as_u64,
    I64 i64 set_i64 insert_i64 push_i64 as_i64,
    U128 u128 set_u128 insert_u128 push_u128 as_u128,
    I128 i128 set_i128 insert_i128 push_i128 as_i128,
}

trait Exact {
    fn exact(self) -> String;
}

macro_rules! exact {
    ($($ty:ident)*) => {$(
        impl Exact for $ty {
            fn exact(self) -> String {
                self.to_string()
            }
        }
    )*};
}

exact!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128);

impl Exact for f32 {
    fn exact(self) -> String {
        format!("{:08x}", self.to_bits())
    }
}

impl Exact for f64 {
    fn exact(self) -> String {
        format!("{:016x}", self.to_bits())
    }
}

/// The number of bits of the magnitude a type holds, and whether it is signed.
fn range(ty: usize) -> (u32, bool) {
    let name = TYPES[ty];
    let bits: u32 = name[1..].parse().unwrap_or(0);
    (bits, name.starts_with('i'))
}

/// What a number text is when read as each type; `None` where that is not
/// claimed.
pub fn reference(text: &str) -> Vec<Option<Option<String>>> {
    let (neg, digits) = match text.strip_prefix('-') {
        Some(d) => (true, d),
        None => (false, text),
    };
    let whole = digits.bytes().all(|b| b.is_ascii_digit());
    // The magnitude without leading zeros; digit strings compare by length and
    // then alphabetically.
    let mag = digits.trim_start_matches('0');
    (0..TYPES.len())
        .map(|ty| match TYPES[ty] {
            "f32" => Some(text.parse::<f32>().ok().map(Exact::exact)),
            "f64" => Some(text.parse::<f64>().ok().map(Exact::exact)),
            _ if !whole => Some(None),
            _ => {
                let (bits, signed) = range(ty);
                if neg && !signed {
                    return if mag.is_empty() { None } else { Some(None) };
                }
                let max = if signed {
                    let m = 1u128 << (bits - 1);
                    if neg {
                        m
                    } else {
                        m - 1
                    }
                } else if bits == 128 {
                    u128::MAX
                } else {
                    (1u128 << bits) - 1
                };
                let max = max.to_string();
                let fits = (mag.len(), mag) <= (max.len(), &max[..]);
                Some(fits.then(|| match mag {
                    "" => "0".to_owned(),
                    mag if neg => format!("-{mag}"),
                    mag => mag.to_owned(),
                }))
            }
        })
        .collect()
}

/// Whether a number text is in the range of a type, `None` where that is not
/// claimed.
pub fn reference_as(text: &str, ty: &str) -> Option<bool> {
    let i = TYPES.iter().position(|t| *t == ty)?;
    reference(text)[i].as_ref().map(Option::is_some)
}

/// Every reading of a value is what the reference says.
fn check(doc: &Document, v: &Value<'_>, text: &str, case: &dyn Fn() -> String) -> Res {
    let want = reference(text);
    let got = of_value(v);
    let Some(number) = v.as_number() else {
        return fail("not a number", case(), text);
    };
    let Some(owned) = doc.value(v.id()).into_number() else {
        return fail("not a number", case(), text);
    };
    if number.as_raw() != text {
        return fail("the text of a number", case(), format!("{}, expected {text}", number.as_raw()));
    }
    for (how, got) in [
        ("value", got),
        ("number", of_number(&number)),
        ("into_number", of_number(&owned)),
    ] {
        for ((ty, got), want) in TYPES.iter().zip(got).zip(&want) {
            if let Some(want) = want {
                if got != *want {
                    return fail(
                        format!("a number reads as another {ty}"),
                        case(),
                        format!("{text} of {how} as {ty} is {got:?}, expected {want:?}"),
                    );
                }
            }
        }
    }
    Ok(())
}

/// Values around every power of two and of ten.
fn magnitudes() -> Vec<u128> {
    let mut out = vec![0, 1, 2, 3, 42, u128::MAX];
    let powers = (1..128)
        .map(|k| 1u128 << k)
        .chain((0..=38).map(|k| 10u128.pow(k)));
    for p in powers {
        out.extend([p - 1, p, p + 1]);
    }
    out.sort_unstable();
    out.dedup();
    out
}

pub fn integers(tier: Tier) -> Vec<Val> {
    let mut out = Vec::new();
    for m in magnitudes() {
        macro_rules! unsigned {
            ($($v:ident $ty:ident)*) => {$(
                if let Ok(n) = $ty::try_from(m) {
                    out.push(Val::$v(n));
                }
            )*};
        }
        macro_rules! signed {
            ($($v:ident $ty:ident)*) => {$(
                if let Ok(n) = $ty::try_from(m) {
                    out.push(Val::$v(n));
                    out.push(Val::$v(-n));
                }
                // NB: the lowest value has no positive counterpart.
                if m == 1 << ($ty::BITS - 1) {
                    out.push(Val::$v($ty::MIN));
                }
            )*};
        }
        unsigned!(U8 u8 U16 u16 U32 u32 U64 u64 U128 u128);
        signed!(I8 i8 I16 i16 I32 i32 I64 i64 I128 i128);
    }
    for n in 0..=255u8 {
        out.push(Val::U8(n));
        out.push(Val::I8(n as i8));
    }
    if tier == Tier::Thorough {
        for n in 0..=u16::MAX {
            out.push(Val::U16(n));
            out.push(Val::I16(n as i16));
        }
    }
    out
}

pub fn floats(tier: Tier) -> Vec<Val> {
    let mut out = Vec::new();
    for exp in 0..255u32 {
        for man in [0, 1, 2, 0x40_0000, 0x2a_aaaa, 0x55_5555, 0x7f_fffe, 0x7f_ffff] {
            for sign in [0, 1 << 31] {
                out.push(Val::F32(f32::from_bits(sign | exp << 23 | man)));
            }
        }
    }
    for exp in (0..2047u64).step_by(tier.sel(3, 1)) {
        for man in [0, 1, 2, 1 << 51, 0xa_aaaa_aaaa_aaaa, 0x5_5555_5555_5555, (1 << 52) - 2, (1 << 52) - 1] {
            for sign in [0, 1 << 63] {
                out.push(Val::F64(f64::from_bits(sign | exp << 52 | man)));
            }
        }
    }
    for exp in -45..=38 {
        for d in [1.0f32, 9.999_999, 1.5] {
            out.push(Val::F32(d * 10f32.powi(exp)));
        }
    }
    for exp in -330..=308 {
        for d in ["1", "9.999999999999999", "1.1"] {
            let n: f64 = format!("{d}e{exp}").parse().unwrap_or(0.0);
            out.push(Val::F64(n));
        }
    }
    out.retain(|v| match v {
        Val::F32(n) => n.is_finite(),
        Val::F64(n) => n.is_finite(),
        _ => true,
    });
    out
}

fn written_space(name: &str, values: Vec<Val>, places: Vec<Place>) -> Space {
    let n = places.len();
    Space::new(format!("{name}, {} values, {n} places", values.len()), 0, move |c| {
        let p = &places[c.pick(places.len())];
        let v = values[c.pick(values.len())];
        let case = || format!("{}: {v:?}", p.describe());
        note(|n| *n = case());
        c.nontrivial(case().as_bytes());
        let doc = writes::write(p, b"new", &v)?;
        let target = p.target();
        let Some(value) = writes::value_at(&doc, &p.root, &target) else {
            return fail("the value is gone", case(), "");
        };
        let Some(text) = value.as_number().map(|n| n.as_raw().to_string()) else {
            return fail("not a number", case(), node(&value).to_string());
        };
        let index = v.index();
        let want = Some(v.exact());
        let got = of_value(&value);
        if got[index] != want {
            return fail(
                "a number is read back as another",
                case(),
                format!("{text} is {:?}, expected {want:?}", got[index]),
            );
        }
        check(&doc, &value, &text, &case)?;
        let again = writes::compare(&doc, &writes::expected(p, b"new", Node::Num(text.clone())), case)?;
        let Some(value) = writes::value_at(&again, &p.root, &target) else {
            return fail("the value is gone", case(), "");
        };
        check(&again, &value, &text, &case)?;
        if of_value(&value)[index] != want {
            return fail("a number is parsed as another", case(), text);
        }
        c.outcome(TYPES[index]);
        c.sample(|| format!("{} is written as {text}", case()));
        Ok(())
    })
}

/// A number text in every position, and the path to it.
fn put(text: &str, pos: usize) -> (String, &'static [usize]) {
    match pos {
        0 => (text.to_owned(), &[]),
        1 => (format!("{text}\n"), &[]),
        2 => (format!("a: {text}\nb: y\n"), &[0]),
        3 => (format!("- {text} # c\n- y\n"), &[0]),
        4 => (format!("[{text}]\n"), &[0]),
        5 => (format!("[y, {text} , z]\n"), &[1]),
        6 => (format!("{{a: {text}}}"), &[0]),
        _ => (format!("a:\r\n  - b: {text}\r\n"), &[0, 0, 0]),
    }
}

fn text_case(c: &mut Case<'_>, text: &str, pos: usize) -> Res {
    let flow = (4..=6).contains(&pos);
    if !is_plain(text.as_bytes(), flow) {
        return Ok(());
    }
    let (doc, path) = put(text, pos);
    let case = || show(doc.as_bytes());
    note(|n| *n = case());
    c.nontrivial(doc.as_bytes());
    let parsed = match yaml::from_slice(&doc) {
        Ok(d) => d,
        Err(e) => return fail("a document is rejected", case(), e.to_string()),
    };
    let root = crate::hist::world(&parsed).root;
    let Some(v) = writes::value_at(&parsed, &root, path) else {
        return fail("the value cannot be reached", case(), view(&parsed).to_string());
    };
    if is_number(text.as_bytes()) {
        c.outcome(if text.bytes().all(|b| b.is_ascii_digit() || b == b'-') { "integer" } else { "float" });
        c.sample(|| format!("{}: {:?}", case(), of_value(&v)));
        return check(&parsed, &v, text, &case);
    }
    if resolve(text.as_bytes()) == Read::Other {
        c.outcome("not claimed");
        return Ok(());
    }
    c.outcome("not a number");
    if of_value(&v).iter().any(Option::is_some) || v.as_number().is_some() || parsed.value(v.id()).into_number().is_some() {
        return fail("a text which is no number reads as one", case(), format!("{:?}", of_value(&v)));
    }
    Ok(())
}

/// The exact decimal digits of `n * 2^exp`.
fn decimal(n: u64, exp: i32) -> String {
    // NB: the least significant digit comes first.
    let mut digits: Vec<u8> = n.to_string().bytes().rev().map(|b| b - b'0').collect();
    let factor = if exp < 0 { 5 } else { 2 };
    for _ in 0..exp.abs() {
        let mut carry = 0;
        for d in &mut digits {
            let v = *d * factor + carry;
            *d = v % 10;
            carry = v / 10;
        }
        if carry > 0 {
            digits.push(carry);
        }
    }
    let places = if exp < 0 { exp.unsigned_abs() as usize } else { 0 };
    while digits.len() <= places {
        digits.push(0);
    }
    let mut out: String = digits.iter().rev().map(|d| (d + b'0') as char).collect();
    if places > 0 {
        out.insert(out.len() - places, '.');
    }
    out
}

/// The texts of the point in the middle between two floats (which is `n * 2^exp`
/// with an odd `n`), and of the closest ones below and above it.
fn middle(n: u64, exp: i32, which: usize) -> String {
    let exact = decimal(n, exp);
    let dot = if exact.contains('.') { "" } else { "." };
    match which {
        0 => exact,
        1 => format!("{exact}{dot}{}1", "0".repeat(3)),
        2 => format!("{exact}{dot}{}1", "0".repeat(300)),
        n => {
            // One less in the last place, and nines after it.
            let mut b: Vec<u8> = exact.into_bytes();
            for d in b.iter_mut().rev() {
                match d {
                    b'.' => {}
                    b'0' => *d = b'9',
                    _ => {
                        *d -= 1;
                        break;
                    }
                }
            }
            let nines = "9".repeat(if n == 3 { 4 } else { 300 });
            format!("{}{dot}{nines}", String::from_utf8(b).unwrap_or_default())
        }
    }
}

/// Any text in the middle between two floats of 32 bits, or beside it.
pub fn between32(c: &mut Case<'_>, step: usize) -> String {
    let exp = -150 + (c.pick((150 + 105) / step) * step) as i32;
    let man = c.of(&[1 << 23, (1 << 23) + 1, 0xaa_aaaa, 0xd5_5555, (1 << 24) - 2, (1 << 24) - 1, 1, 2, 3, 0x2a_aaab]);
    let text = middle(2 * man + 1, exp, c.pick(5));
    format!("{}{text}", c.of(&["", "-"]))
}

/// The same for 64 bits.
pub fn between64(c: &mut Case<'_>, step: usize) -> String {
    let exp = -1075 + (c.pick((1075 + 972) / step) * step) as i32;
    let man = c.of(&[1 << 52, (1 << 52) + 1, 0x1a_aaaa_aaaa_aaaa, (1 << 53) - 2, (1 << 53) - 1, 1, 2, 0xa_aaaa_aaaa_aaab]);
    let text = middle(2 * man + 1, exp, c.pick(5));
    format!("{}{text}", c.of(&["", "-"]))
}

fn spaces_c13(tier: Tier) -> Vec<Space> {
    let mut out = vec![
        written_space("integers", integers(Tier::Quick), writes::places(writes::TEXTS)),
        written_space("floats", floats(tier), writes::few()),
    ];
    if tier == Tier::Thorough {
        out.push(written_space("more integers", integers(tier), writes::few()));
        out.push(written_space("floats everywhere", floats(Tier::Quick), writes::places(writes::TEXTS)));
    }

    let len = tier.sel(5, 7);
    out.push(Space::new(format!("texts, length {len}"), 0, move |c| {
        const CHARS: &[u8] = b"019.-eE+";
        let mut text = String::new();
        for _ in 0..len {
            match c.pick(CHARS.len() + 1) {
                0 => break,
                n => text.push(CHARS[n - 1] as char),
            }
        }
        let pos = c.pick(8);
        text_case(c, &text, pos)
    }));

    // Texts around the limits of all types, in every spelling.
    let mut numbers: Vec<String> = magnitudes().iter().map(u128::to_string).collect();
    numbers.extend(
        [
            "340282366920938463463374607431768211456",
            "340282366920938463463374607431768211457",
            "340282366920938463463374607431768211460",
            "999999999999999999999999999999999999999",
            "1000000000000000000000000000000000000000",
            "9007199254740993",
            "16777217",
            "33554435",
            "340282350000000000000000000000000000000",
            "340282356779733661637539395458142568447",
            "340282356779733661637539395458142568448",
        ]
        .map(str::to_owned),
    );
    let long = "9".repeat(400);
    numbers.push(long);
    numbers.push(format!("1{}", "0".repeat(309)));
    let fractions = [
        "0.1", "0.30000000000000004", "2.2250738585072011", "1.7976931348623157", "1.7976931348623159", "4.9406564584124654", "2.4703282292062327",
        "2.4703282292062328", "3.4028235677973366", "1.401298464324817", "7.006492321624085", "7.006492321624086", "9007199254740992.5", "9007199254740993.0000001",
        "0.000000000000000000000000000000000000001", "123456789.123456789",
    ];
    const EXPS: &[i32] = &[-400, -325, -324, -323, -308, -307, -46, -45, -44, -38, -1, 0, 1, 10, 37, 38, 39, 307, 308, 309, 400];
    out.push(Space::new("texts at the limits", 0, move |c| {
        let base = numbers[c.pick(numbers.len())].clone();
        let sign = ["", "-"][c.pick(2)];
        let (zeros, end) = [("", ""), ("0", ""), ("000000", ""), ("", ".0"), ("", "."), ("", "e0"), ("", "e-1"), ("", "E+2"), ("", ".5"), ("0", "e0")][c.pick(10)];
        let pos = c.pick(8);
        text_case(c, &format!("{sign}{zeros}{base}{end}"), pos)
    }));
    out.push(Space::new("fractions at the limits", 0, move |c| {
        let base = fractions[c.pick(fractions.len())];
        let sign = ["", "-"][c.pick(2)];
        let exp = EXPS[c.pick(EXPS.len())];
        let e = [format!("e{exp}"), format!("E{exp:+}"), String::new()][c.pick(3)].clone();
        let pos = c.pick(8);
        text_case(c, &format!("{sign}{base}{e}"), pos)
    }));
    // Texts which are in the middle between two floats, and just beside it: They
    // tell a number that is rounded once from one that is rounded twice.
    let (step32, step64) = (tier.sel(3, 1), tier.sel(61, 7));
    out.push(Space::new("between floats of 32 bits", 0, move |c| {
        let text = between32(c, step32);
        text_case(c, &text, 2)
    }));
    out.push(Space::new("between floats of 64 bits", 0, move |c| {
        let text = between64(c, step64);
        text_case(c, &text, 2)
    }));
    out
}
