//! Leaf pieces: P10 integers, P11 float/bool, P12 character classes,
//! P13 literals and char_of.
use super::*;
use crate::val::{ToVal, Val};
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter};
use num_bigint::BigInt;
use std::collections::HashSet;

/// What a leaf does at a position of a text: every match (end, value) and, if
/// there is none, the failure.
#[derive(Debug, Clone, PartialEq)]
pub enum Leaf {
    Match(usize, Val),
    Fail(usize, String),
    /// broken in a way no leaf may be
    Bad(String),
}
impl Leaf {
    fn show(&self) -> String {
        match self {
            Leaf::Match(e, v) => format!("match ending at byte {e}, value {v}"),
            Leaf::Fail(l, m) => format!("failure at byte {l}: {m}"),
            Leaf::Bad(s) => s.clone(),
        }
    }
}
pub fn leaf_at<Q: Parser>(q: &Q, s: &str, at: usize) -> Leaf
where
    Q::Output: ToVal,
{
    let q = parser!(q);
    let r = guarded(1 << 40, || {
        let mut cx = ParseContext::new(s);
        match q.parse_iter(&mut cx, at) {
            Err(_) => {
                let e = cx.into_reported_error();
                let full = e.to_string();
                let place = crate::model::place(s, e.location);
                match full.strip_suffix(&format!(" {place}")) {
                    Some(m) => Leaf::Fail(e.location, m.to_string()),
                    None => Leaf::Bad(format!("error printed as {full:?} for byte {}", e.location)),
                }
            }
            Ok(mut it) => {
                let end = it.match_end();
                let v = it.convert().0.to_val();
                if it.convert().0.to_val() != v {
                    return Leaf::Bad("two conversions of one match differ".into());
                }
                if it.backtrack(&mut cx).is_ok() {
                    return Leaf::Bad(format!(
                        "a second way to match, ending at {} after {end}",
                        it.match_end()
                    ));
                }
                Leaf::Match(end, v)
            }
        }
    });
    match r {
        Ok(l) => l,
        Err(o) => Leaf::Bad(o.show()),
    }
}
/// whole-text parse of a leaf
fn leaf_parse<Q: Parser>(q: &Q, s: &str) -> Leaf
where
    Q::Output: ToVal,
{
    match guarded(1 << 40, || q.parse(s)) {
        Ok(Ok(v)) => Leaf::Match(s.len(), v.to_val()),
        Ok(Err(e)) => {
            let full = e.to_string();
            let place = crate::model::place(s, e.location);
            match full.strip_suffix(&format!(" {place}")) {
                Some(m) => Leaf::Fail(e.location, m.to_string()),
                None => Leaf::Bad(format!("error printed as {full:?} for byte {}", e.location)),
            }
        }
        Err(o) => Leaf::Bad(o.show()),
    }
}
pub struct LeafCase<'a> {
    pub name: &'a str,
    pub text: &'a str,
    pub at: usize,
}
/// Compare both ways of using a leaf with what is expected at `at`.
pub fn leaf_check(
    cx: &mut Ctx,
    c: &LeafCase,
    want: impl FnOnce() -> Leaf,
    got: impl FnOnce() -> (Leaf, Option<Leaf>),
) {
    if !cx.case(|| format!("{} at byte {} of {:?}", c.name, c.at, c.text)) {
        return;
    }
    let want = want();
    let (leaf, whole) = got();
    cx.executions += 1;
    cx.states += 1;
    cx.transitions += 2; // as a piece in a context, and as the whole pattern
    match &leaf {
        Leaf::Match(e, _) => {
            cx.states += 1;
            cx.accepted += 1;
            cx.outcome(&(*e, c.name));
        }
        Leaf::Fail(_, m) => {
            cx.rejected += 1;
            cx.outcome(&(m, c.name));
        }
        _ => {}
    }
    if leaf != want {
        return cx.fail(format!(
            "{} at byte {} of {:?}:\n  expected {}\n  got      {}",
            c.name,
            c.at,
            c.text,
            want.show(),
            leaf.show()
        ));
    }
    if let Some(w) = whole {
        let want = match want {
            Leaf::Match(e, _) if e != c.text.len() => {
                Leaf::Fail(e, "extra unparsed text after match".into())
            }
            w => w,
        };
        if w != want {
            cx.fail(format!(
                "parser!({}).parse({:?}):\n  expected {}\n  got      {}",
                c.name,
                c.text,
                want.show(),
                w.show()
            ));
        }
    }
    cx.sample(|| format!("{} at byte {} of {:?}: {}", c.name, c.at, c.text, leaf.show()));
}

/// A piece far into a text, and before a long rest of it.
fn far(t: Tier, samples: &'static [&'static str], check: impl Fn(&mut Ctx, &str, usize) + Send + Sync + 'static) -> Part {
    list(
        "far into a long text",
        &format!("{} texts with n characters (of one, two and four bytes, and lines) before them, and none or n after: every n up to the bound and around powers of two", samples.len()),
        ladder(t.pick(70, 300), t.pick(1 << 16, 1 << 18)),
        move |cx, n| {
            for pre in ["x", "é", "7\n", "😂"] {
                let before = pre.repeat(*n);
                for s in samples {
                    check(cx, &format!("{before}{s}"), before.len());
                    if pre == "x" || *n <= 4096 {
                        check(cx, &format!("{before}{s}{before}"), before.len());
                        check(cx, &format!("{s}{before}"), 0);
                    }
                    if cx.viol.is_some() {
                        return;
                    }
                }
            }
        },
    )
}

// ---- P10

#[derive(Clone, Copy)]
pub struct IntPiece {
    pub name: &'static str,
    pub signed: bool,
    pub base: u32,
    /// bits, or 0 for unlimited
    pub bits: u32,
    pub ty: fn() -> &'static str,
    pub at: fn(&str, usize) -> Leaf,
    pub whole: fn(&str) -> Leaf,
}
macro_rules! ints {
    ($( $t:ident $n:ident $signed:literal $base:literal $bits:expr ; )*) => { vec![ $(
        IntPiece {
            name: stringify!($n), signed: $signed, base: $base, bits: $bits,
            ty: std::any::type_name::<$t>,
            at: |s, at| leaf_at(&$n, s, at),
            whole: |s| leaf_parse(&parser!($n), s),
        }
    ),* ] }
}
type BU = num_bigint::BigUint;
type BI = BigInt;
pub fn int_pieces() -> Vec<IntPiece> {
    let w = usize::BITS;
    ints! {
        u8 u8 false 10 8; u16 u16 false 10 16; u32 u32 false 10 32; u64 u64 false 10 64; u128 u128 false 10 128; usize usize false 10 w;
        i8 i8 true 10 8; i16 i16 true 10 16; i32 i32 true 10 32; i64 i64 true 10 64; i128 i128 true 10 128; isize isize true 10 w;
        u8 u8_bin false 2 8; u16 u16_bin false 2 16; u32 u32_bin false 2 32; u64 u64_bin false 2 64; u128 u128_bin false 2 128; usize usize_bin false 2 w;
        i8 i8_bin true 2 8; i16 i16_bin true 2 16; i32 i32_bin true 2 32; i64 i64_bin true 2 64; i128 i128_bin true 2 128; isize isize_bin true 2 w;
        u8 u8_hex false 16 8; u16 u16_hex false 16 16; u32 u32_hex false 16 32; u64 u64_hex false 16 64; u128 u128_hex false 16 128; usize usize_hex false 16 w;
        i8 i8_hex true 16 8; i16 i16_hex true 16 16; i32 i32_hex true 16 32; i64 i64_hex true 16 64; i128 i128_hex true 16 128; isize isize_hex true 16 w;
        BU big_uint false 10 0; BU big_uint_bin false 2 0; BU big_uint_hex false 16 0;
        BI big_int true 10 0; BI big_int_bin true 2 0; BI big_int_hex true 16 0;
    }
}

/// Reference: longest numeral at `at`, its exact value by Horner's rule.
pub fn int_want(pc: &IntPiece, s: &str, at: usize) -> Leaf {
    let b = &s.as_bytes()[at..];
    let mut i = 0;
    let mut neg = false;
    if pc.signed && matches!(b.first(), Some(b'+' | b'-')) {
        neg = b[0] == b'-';
        i = 1;
    }
    let d0 = i;
    let dig = |c: u8| -> Option<u32> {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        } as u32;
        (d < pc.base).then_some(d)
    };
    while i < b.len() && dig(b[i]).is_some() {
        i += 1;
    }
    if i == d0 {
        return Leaf::Fail(at, format!("expected {}", (pc.ty)()));
    }
    // small numbers natively, others exactly
    let lead = b[d0..i].iter().take_while(|c| **c == b'0').count();
    let sig = &b[d0 + lead..i];
    let v: Result<i128, BigInt> = if sig.len() * (32 - (pc.base - 1).leading_zeros()) as usize <= 120 {
        let mut v = 0i128;
        for c in sig {
            v = v * pc.base as i128 + dig(*c).unwrap() as i128;
        }
        Ok(if neg { -v } else { v })
    } else {
        let mut v = BigInt::from(0);
        for c in sig {
            v = v * pc.base + dig(*c).unwrap();
        }
        Err(if neg { -v } else { v })
    };
    let big = |v: &Result<i128, BigInt>| match v {
        Ok(v) => BigInt::from(*v),
        Err(v) => v.clone(),
    };
    if pc.bits > 0 {
        let one = BigInt::from(1);
        let (lo, hi) = if pc.signed {
            (-(one.clone() << (pc.bits - 1)), (one.clone() << (pc.bits - 1)) - 1)
        } else {
            (BigInt::from(0), (one << pc.bits) - 1)
        };
        let bv = big(&v);
        if bv < lo || bv > hi {
            let why = if bv > hi { "large" } else { "small" };
            return Leaf::Fail(
                at,
                format!(
                    "failed to parse {:?} as type {}: number too {why} to fit in target type",
                    &s[at..at + i],
                    (pc.ty)()
                ),
            );
        }
    }
    let val = if pc.bits == 0 || (pc.bits == 128 && !pc.signed) {
        Val::Big(big(&v).to_string())
    } else {
        match v {
            Ok(v) => Val::N(v),
            Err(v) => Val::N(v.to_string().parse().unwrap()),
        }
    };
    Leaf::Match(at + i, val)
}
fn int_check(cx: &mut Ctx, pc: &IntPiece, s: &str, at: usize) {
    leaf_check(
        cx,
        &LeafCase { name: pc.name, text: s, at },
        || int_want(pc, s, at),
        || ((pc.at)(s, at), if at == 0 { Some((pc.whole)(s)) } else { None }),
    )
}

pub fn p10(t: Tier) -> Parts {
    let pcs = int_pieces();
    assert_eq!(pcs.len(), 42);
    let mut parts = vec![];
    // (a) every short text
    let abc = ["+", "-", "0", "1", "7", "a", "F", "_", " ", "é"];
    let n = t.pick(5, 6);
    let texts = std::sync::Arc::new(strings(&abc, n));
    let mut units = vec![];
    for pc in &pcs {
        for k in 0..texts.len().div_ceil(5000) {
            units.push((*pc, k));
        }
    }
    {
        let texts = texts.clone();
        parts.push(list(
            "every short text",
            &format!("42 pieces x all {} texts of length <= {n} over {{+,-,0,1,7,a,F,_,space,é}}", texts.len()),
            units,
            move |cx, (pc, k)| {
                for s in texts.iter().skip(k * 5000).take(5000) {
                    int_check(cx, pc, s, 0);
                }
            },
        ));
    }
    // (b) every value near the 8- and 16-bit ranges, spelled every way
    let lim = t.pick(70_000i64, 140_000);
    let mut units = vec![];
    for pc in &pcs {
        let mut v = -lim;
        while v <= lim {
            units.push((*pc, v));
            v += 2000;
        }
    }
    parts.push(list(
        "every small value",
        &format!("42 pieces x all values of magnitude <= {lim}, optional +, 0 or 2 leading zeros, both hex cases"),
        units,
        |cx, (pc, v0)| {
            for v in *v0..*v0 + 2000 {
                let (neg, m) = (v < 0, v.unsigned_abs());
                let mut spell = vec![match pc.base {
                    10 => format!("{m}"),
                    2 => format!("{m:b}"),
                    _ => format!("{m:x}"),
                }];
                if pc.base == 16 {
                    spell.push(format!("{m:X}"));
                }
                for d in spell {
                    if neg {
                        int_check(cx, pc, &format!("-{d}"), 0);
                        if v % 7 == 0 {
                            int_check(cx, pc, &format!("-00{d}"), 0);
                        }
                    } else {
                        int_check(cx, pc, &d, 0);
                        if v % 7 == 0 {
                            int_check(cx, pc, &format!("+{d}"), 0);
                            int_check(cx, pc, &format!("00{d}"), 0);
                        }
                    }
                }
            }
        },
    ));
    // (c) around every power of two up to 2^132, and of ten
    let mut units = vec![];
    for pc in &pcs {
        for k in 0..=132u32 {
            units.push((*pc, k));
        }
    }
    let width = t.pick(3i32, 40);
    parts.push(list(
        "range boundaries",
        &format!("42 pieces x (2^k + d) and (10^(k/3) + d), k <= 132, |d| <= {width}, both signs, 0/1/5/40/300 leading zeros, 5 following texts, 2 positions"),
        units,
        move |cx, (pc, k)| {
            for base in [BigInt::from(1) << *k, BigInt::from(10).pow(*k / 3)] {
                for d in -width..=width {
                    let v: BigInt = base.clone() + d;
                    if v < BigInt::from(0) {
                        continue;
                    }
                    let digits = v.to_str_radix(pc.base);
                    for sign in ["", "-", "+"] {
                        for z in [0usize, 1, 5, 40, 300] {
                            let num = format!("{sign}{}{digits}", "0".repeat(z));
                            int_check(cx, pc, &num, 0);
                            if z <= 1 {
                                for after in [",", ".5", "_0", "é", "\n"] {
                                    int_check(cx, pc, &format!("{num}{after}"), 0);
                                    int_check(cx, pc, &format!("é1{num}{after}"), 2);
                                    int_check(cx, pc, &format!("1-{num}{after}"), 2);
                                }
                                if pc.base == 16 {
                                    int_check(cx, pc, &num.to_uppercase(), 0);
                                }
                            }
                        }
                    }
                }
            }
        },
    ));
    // (d) lengths
    let mut units = vec![];
    for pc in &pcs {
        for n in ladder(t.pick(200, 600), t.pick(1 << 13, 1 << 15)) {
            units.push((*pc, n));
        }
    }
    parts.push(list(
        "numeral lengths",
        "42 pieces x numerals of n equal digits, and n zeros then 7/1, for all small n and around powers of two",
        units,
        |cx, (pc, n)| {
            for d in ["0", "1", "9", "f"] {
                if d == "9" || *n < 3000 {
                    int_check(cx, pc, &d.repeat(*n), 0);
                }
            }
            int_check(cx, pc, &format!("{}1", "0".repeat(*n)), 0);
            int_check(cx, pc, &format!("-{}7", "0".repeat(*n)), 0);
        },
    ));
    // (e) every character as a would-be digit or sign
    let step = t.pick(1u32, 1);
    let mut units = vec![];
    let chosen: HashSet<&str> = t
        .pick(
            vec!["u32", "i64", "u8_hex", "i16_bin", "big_uint", "big_int_hex"],
            pcs.iter().map(|p| p.name).collect(),
        )
        .into_iter()
        .collect();
    for pc in pcs.iter().filter(|p| chosen.contains(p.name)) {
        let mut c = 0u32;
        while c < 0x110000 {
            units.push((*pc, c, 0x1000u32, false));
            c += 0x1000;
        }
    }
    for pc in &pcs {
        units.push((*pc, 0, 0x110000, true));
    }
    parts.push(list(
        "every character in a numeral",
        &format!("{} pieces x every Unicode scalar alone, before and after digits; all 42 pieces x every numeric or ASCII character", chosen.len()),
        units,
        move |cx, (pc, c0, n, numeric_only)| {
            let mut c = *c0;
            while c < c0 + n {
                if let Some(ch) = char::from_u32(c) {
                    if !numeric_only || ch.is_numeric() || c < 0x180 {
                        int_check(cx, pc, &format!("1{ch}0"), 0);
                        int_check(cx, pc, &format!("{ch}1"), 0);
                    }
                }
                c += step;
            }
        },
    ));
    let all = int_pieces();
    parts.push(far(t, &["12", "-34", "+1", "300", "zz", "fF", ""], move |cx, s, at| {
        for pc in &all {
            int_check(cx, pc, s, at);
        }
    }));
    // numbers next to other pieces
    parts.push(super::comb::numbers(t.pick(4, 4), t.pick(4, 5), What::AcceptValue));
    (parts, vec!["pieces hold their standard-library type names (std::any::type_name)", "usize/isize are 64 bits wide here"])
}

// ---- P11

#[derive(Clone, Copy)]
struct FloatPiece {
    name: &'static str,
    std: fn(&str) -> Option<Val>,
    at: fn(&str, usize) -> Leaf,
    whole: fn(&str) -> Leaf,
}
fn float_want(pc: &FloatPiece, s: &str, at: usize) -> Leaf {
    let rest = &s[at..];
    // the longest prefix the standard library accepts
    let mut ends: Vec<usize> = rest.char_indices().map(|(i, _)| i).skip(1).collect();
    ends.push(rest.len());
    for e in ends.into_iter().rev() {
        // no accepted text contains anything but these
        if let Some(v) = (pc.std)(&rest[..e]) {
            return Leaf::Match(at + e, v);
        }
    }
    Leaf::Fail(at, format!("expected {}", pc.name))
}
fn float_pieces() -> [FloatPiece; 2] {
    [
        FloatPiece {
            name: "f64",
            std: |s| s.parse::<f64>().ok().map(|x| x.to_val()),
            at: |s, at| leaf_at(&f64, s, at),
            whole: |s| leaf_parse(&parser!(f64), s),
        },
        FloatPiece {
            name: "f32",
            std: |s| s.parse::<f32>().ok().map(|x| x.to_val()),
            at: |s, at| leaf_at(&f32, s, at),
            whole: |s| leaf_parse(&parser!(f32), s),
        },
    ]
}
fn float_check(cx: &mut Ctx, pc: &FloatPiece, s: &str, at: usize) {
    leaf_check(
        cx,
        &LeafCase { name: pc.name, text: s, at },
        || float_want(pc, s, at),
        || ((pc.at)(s, at), if at == 0 { Some((pc.whole)(s)) } else { None }),
    )
}
fn chunks(v: Vec<String>, n: usize) -> Vec<Vec<String>> {
    let mut out = vec![];
    let mut it = v.into_iter().peekable();
    while it.peek().is_some() {
        out.push(it.by_ref().take(n).collect());
    }
    out
}
pub fn p11(t: Tier) -> Parts {
    let fps = float_pieces();
    let mut parts = vec![];
    let both = move |cx: &mut Ctx, v: &Vec<String>| {
        for s in v {
            for pc in &fps {
                float_check(cx, pc, s, 0);
            }
        }
    };
    let n = t.pick(6, 7);
    parts.push(list(
        "every short numeric text",
        &format!("f32, f64 x all texts of length <= {n} over {{+,-,.,0,3,e,E,_}}"),
        chunks(strings(&["+", "-", ".", "0", "3", "e", "E", "_"], n), 2000),
        both,
    ));
    // words: every way to spell a prefix of the special words, in every letter
    // case, with one character changed, dropped or added
    let mut words: HashSet<String> = HashSet::new();
    for w in ["infinity", "inf", "nan", "infinitys", "nane5", "inf.5", "infin", "na", "in", "i", "n", "e5", "infinit"] {
        for mask in 0..1u32 << w.len() {
            let s: String = w
                .chars()
                .enumerate()
                .map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
                .collect();
            for sign in ["", "+", "-"] {
                words.insert(format!("{sign}{s}"));
                if mask == 0 || mask + 1 == 1 << w.len() {
                    for i in 0..=s.len() {
                        for c in ["x", "n", "I", " ", "1", ".", "ı", "İ", "ſ"] {
                            words.insert(format!("{sign}{}{c}{}", &s[..i], &s[i..]));
                            if i < s.len() {
                                words.insert(format!("{sign}{}{c}{}", &s[..i], &s[i + 1..]));
                            }
                        }
                        if i < s.len() {
                            words.insert(format!("{sign}{}{}", &s[..i], &s[i + 1..]));
                        }
                    }
                }
            }
        }
    }
    let mut words: Vec<String> = words.into_iter().collect();
    words.sort();
    parts.push(list(
        "special words",
        "inf, infinity, nan and near misses, every letter case, all one-character edits of the plain spellings",
        chunks(words, 200),
        both,
    ));
    let n = t.pick(6, 7);
    parts.push(list(
        "every short word",
        &format!("f32, f64 x all texts of length <= {n} over {{i,n,f,N,a,1,-}}"),
        chunks(strings(&["i", "n", "f", "N", "a", "1", "-"], n), 2000),
        both,
    ));
    // values: mantissas x exponents
    let mants = ["1", "9", "17", "123456789", "1.7976931348623157", "1.7976931348623159", "4.9406564584124654", "2.4703282292062327", "3.40282346", "3.40282357", "1.40129846", "0.70064923", "9007199254740993", "9007199254740992.5", "16777217", "16777216.5", "0.1", ".5", "5.", "00001.50000"];
    let mut vals = vec![];
    for m in mants {
        for e in -420i32..=420 {
            vals.push(format!("{m}e{e}"));
            if e % 5 == 0 {
                vals.push(format!("-{m}E{e:+}"));
                vals.push(format!("+{m}e{e},"));
            }
        }
        vals.push(m.to_string());
    }
    parts.push(list(
        "exponents",
        "20 mantissas x every exponent from -420 to 420",
        chunks(vals, 200),
        both,
    ));
    // halfway cases between neighbouring f32 and f64 values
    let mut vals = vec![];
    let nbits = t.pick(6u32, 10);
    for e in (1..254u32).step_by(t.pick(7, 1)) {
        for m in 0..1u32 << nbits {
            let m = (m << (23 - nbits)) | (m & 1);
            let lo = f32::from_bits(e << 23 | m) as f64;
            let hi = f32::from_bits((e << 23 | m) + 1) as f64;
            let mid = (lo + hi) / 2.0; // exact
            let d = format!("{mid:.160}");
            if mid > 1e-30 && mid < 1e30 {
                vals.push(d.clone());
                vals.push(format!("{}1", d));
                vals.push(format!("{:e}", mid));
                let up = f64::from_bits(mid.to_bits() + 1);
                vals.push(format!("{up:e}"));
                vals.push(format!("{lo:e}"));
                // just below / above the tie, beyond f64 precision
                vals.push(format!("{}e-1", format!("{:.0}", mid * 10.0)));
            }
        }
    }
    parts.push(list(
        "halfway values",
        "exact midpoints of neighbouring f32 values, just above, and neighbours; long decimal expansions",
        chunks(vals, 100),
        both,
    ));
    // the same for f64: exact midpoints need hundreds of digits
    let mut units = vec![];
    let es: Vec<i32> = (-1074..=970).filter(|e| t.pick(e % 37 == 0, true) || (-60..=12).contains(e) || *e == -1074 || *e == 970).collect();
    for e in es {
        units.push(e);
    }
    let below = t.pick((1usize..=40).chain([60, 100, 200]).collect::<Vec<_>>(), (1..=60).chain([100, 200, 400, 800]).collect());
    let bounds = format!("midpoints of neighbouring f64 values for {} exponents x 7 mantissas: exact, and off by one unit in each of the {below:?} following decimal places; plain and with an exponent", units.len());
    parts.push(list("halfway between doubles", &bounds, units, move |cx, e| {
        let ten = BigInt::from(10);
        for m in [0u64, 1, 2, 3, 0x5_5555_5555_5555, 0xf_ffff_ffff_fffe, 0xf_ffff_ffff_ffff] {
            // (2 (2^52 + m) + 1) 2^(e-1), as digits x 10^-k
            let m = BigInt::from((1u64 << 52 | m) * 2 + 1);
            let (mut d, mut k) = (m, 0usize);
            if *e >= 1 {
                d <<= *e - 1;
            } else {
                k = (1 - *e) as usize;
                for _ in 0..k {
                    d *= 5;
                }
            }
            let mut all = vec![(d.clone(), k)];
            for b in &below {
                let scale = ten.pow(*b as u32);
                all.push((&d * &scale + 1, k + b));
                all.push((&d * &scale - 1, k + b));
            }
            for (d, k) in all {
                let ds = d.to_string();
                float_check(cx, &fps[0], &format!("{ds}e-{k}"), 0);
                float_check(cx, &fps[0], &format!("-{}.{}E{}", &ds[..1], &ds[1..], ds.len() as i64 - 1 - k as i64), 0);
                if ds.len() > k {
                    let (i, f) = ds.split_at(ds.len() - k);
                    float_check(cx, &fps[0], &format!("{i}.{f}"), 0);
                } else if k < 500 {
                    float_check(cx, &fps[0], &format!("0.{}{ds}", "0".repeat(k - ds.len())), 0);
                    float_check(cx, &fps[0], &format!("-.{}{ds}", "0".repeat(k - ds.len())), 0);
                }
                if cx.viol.is_some() {
                    return;
                }
            }
        }
    }));
    // as many digits as can matter, and one more
    let mut units = vec![];
    for n in ladder(t.pick(200, 800), t.pick(512, 1024)) {
        units.push(vec![
            "1".repeat(n),
            format!("0.{}1", "0".repeat(n)),
            format!("{}1.5", "0".repeat(n)),
            format!("1.{}", "9".repeat(n)),
            format!("1{}", "0".repeat(n)),
            format!("1e{}1", "0".repeat(n)),
            format!("-1e-{}", "1".repeat(n)),
        ]);
    }
    parts.push(list("lengths", "digit strings of every length up to the bound and around powers of two", units, both));
    let units: Vec<u32> = (0..0x110).collect();
    let every = t.pick(false, true);
    parts.push(list(
        "every character",
        "every Unicode scalar after, before and inside a number (f64; f32 too in the thorough tier)",
        units,
        move |cx, c0| {
            for c in c0 * 0x1000..(c0 + 1) * 0x1000 {
                if let Some(ch) = char::from_u32(c) {
                    for pc in &fps[..if every { 2 } else { 1 }] {
                        float_check(cx, pc, &format!("1{ch}5"), 0);
                        float_check(cx, pc, &format!("{ch}5"), 0);
                        float_check(cx, pc, &format!("{ch}nf"), 0);
                        float_check(cx, pc, &format!("é{ch}.5e{ch}3"), 2);
                    }
                }
            }
        },
    ));
    // bool
    let n = t.pick(5, 6);
    parts.push(list(
        "bool",
        &format!("all texts of length <= {n} over {{t,r,u,e,T,f,a,l,s}} and all one-character edits of true/false"),
        {
            let mut v = strings(&["t", "r", "u", "e", "f", "a", "l", "s", "T"], n);
            for w in ["true", "false", "truefalse", "true ", "false1", "TRUE", "False"] {
                for i in 0..=w.len() {
                    for c in ["t", "e", "E", "x", " ", "é", "\n", "ſ"] {
                        v.push(format!("{}{c}{}", &w[..i], &w[i..]));
                        if i < w.len() {
                            v.push(format!("{}{c}{}", &w[..i], &w[i + 1..]));
                        }
                    }
                }
            }
            chunks(v, 2000)
        },
        |cx, v| {
            for s in v {
                for at in if s.len() > 2 && s.is_char_boundary(1) { vec![0, 1] } else { vec![0] } {
                    leaf_check(
                        cx,
                        &LeafCase { name: "bool", text: s, at },
                        || {
                            if s[at..].starts_with("true") {
                                Leaf::Match(at + 4, Val::B(true))
                            } else if s[at..].starts_with("false") {
                                Leaf::Match(at + 5, Val::B(false))
                            } else {
                                Leaf::Fail(at, "expected bool".into())
                            }
                        },
                        || (leaf_at(&bool, s, at), if at == 0 { Some(leaf_parse(&parser!(bool), s)) } else { None }),
                    );
                }
            }
        },
    ));
    parts.push(far(t, &["1.5", "-3e2", "inf", "NaN", ".", "e", ""], move |cx, s, at| {
        for pc in &fps {
            float_check(cx, pc, s, at);
        }
    }));
    parts.push(far(t, &["true", "false", "tru", "True", ""], move |cx, s, at| {
        leaf_check(
            cx,
            &LeafCase { name: "bool", text: s, at },
            || {
                if s[at..].starts_with("true") {
                    Leaf::Match(at + 4, Val::B(true))
                } else if s[at..].starts_with("false") {
                    Leaf::Match(at + 5, Val::B(false))
                } else {
                    Leaf::Fail(at, "expected bool".into())
                }
            },
            || (leaf_at(&bool, s, at), None),
        );
    }));
    (parts, vec!["the standard library's str::parse::<f32/f64> is the definition of the value"])
}

// ---- P12

#[derive(Clone, Copy)]
struct ClassPiece {
    cls: Cls,
    name: &'static str,
    at: fn(&str, usize) -> Leaf,
    whole: fn(&str) -> Leaf,
    /// in a repetition inside string() after a letter, and as list
    run: fn(&str) -> Result<(String, Val), String>,
}
macro_rules! classes { ($($c:ident $n:ident)*) => { vec![$( ClassPiece {
    cls: Cls::$c, name: stringify!($n),
    at: |s, at| leaf_at(&$n, s, at),
    whole: |s| leaf_parse(&parser!($n), s),
    run: |s| match guarded(1 << 40, || (parser!(string($n+) any_char).parse(s), parser!(v:$n+ any_char => v).parse(s))) {
        Ok((Ok((a, _)), Ok(b))) => Ok((a, b.to_val())),
        Ok((Err(e), Err(f))) if e.to_string() == f.to_string() => Err(e.to_string()),
        Ok((a, b)) => Err(format!("string(...): {a:?}, list: {b:?}")),
        Err(o) => Err(o.show()),
    },
} ),*] } }

pub fn p12(t: Tier) -> Parts {
    let pcs = classes!(Alpha alpha Alnum alnum Upper upper Lower lower Any any_char Digit digit DigitBin digit_bin DigitHex digit_hex);
    let mut units = vec![];
    for pc in &pcs {
        for c in 0..0x110u32 {
            units.push((*pc, c));
        }
    }
    let pcs2 = pcs.clone();
    let mut parts = vec![list(
        "every character",
        "8 pieces x every Unicode scalar: alone, before and after other characters, at a later position, repeated in a list and in string(...)",
        units,
        move |cx, (pc, c0)| {
            for c in c0 * 0x1000..(c0 + 1) * 0x1000 {
                let Some(ch) = char::from_u32(c) else { continue };
                let want = |at: usize| match crate::model::class(pc.cls, ch) {
                    Some(v) => Leaf::Match(at + ch.len_utf8(), v),
                    None => Leaf::Fail(at, format!("expected {}", crate::model::noun(pc.cls))),
                };
                for (pre, post) in [("", ""), ("", "1x"), ("é", ""), ("x\n", "é")] {
                    let s = format!("{pre}{ch}{post}");
                    let at = pre.len();
                    leaf_check(
                        cx,
                        &LeafCase { name: pc.name, text: &s, at },
                        || want(at),
                        || ((pc.at)(&s, at), if at == 0 { Some((pc.whole)(&s)) } else { None }),
                    );
                }
                if cx.viol.is_some() {
                    return;
                }
                // c c c !
                let s = format!("{ch}{ch}{ch}!");
                if !cx.case(|| format!("string({0}+) any_char and {0}+ any_char on {s:?}", pc.name)) {
                    return;
                }
                cx.executions += 2;
                let want: Result<(String, Val), String> = match crate::model::class(pc.cls, ch) {
                    Some(v) => Ok((format!("{ch}{ch}{ch}"), Val::L(vec![v.clone(), v.clone(), v]))),
                    None => Err(format!("expected {} at line 1 column 1", crate::model::noun(pc.cls))),
                };
                let got = (pc.run)(&s);
                if got != want {
                    cx.fail(format!("string({0}+) any_char and {0}+ any_char on {s:?}:\n  expected {want:?}\n  got      {got:?}", pc.name));
                }
            }
        },
    )];
    // every pair of interesting characters
    let mut odd: Vec<char> = (0..0x250u32).filter_map(char::from_u32).collect();
    odd.extend("ǅᾈⅠⅰⓐⒶªº٣३０９ａＡΣσςſKßẞİıﬁﬀ\u{301}\u{200d}\u{feff}\u{fffd}\u{10ffff}\u{d7ff}\u{e000}\u{e0061}𝐀𝟎😂字🄀㈠½".chars());
    odd.extend("\u{fe0e}\u{fe0f}\u{200b}\u{200c}\u{2028}\u{2029}\u{20e3}\u{1f3fb}\u{1100}\u{1161}".chars());
    let texts: Vec<char> = odd.clone();
    parts.push(list(
        "pairs of characters",
        "8 pieces at each position of every two-character text over the first 592 scalars and over 50 unusual ones",
        texts,
        move |cx, a| {
            for b in &odd {
                let s = format!("{a}{b}");
                for pc in &pcs2 {
                    for (at, ch) in [(0, *a), (a.len_utf8(), *b)] {
                        leaf_check(
                            cx,
                            &LeafCase { name: pc.name, text: &s, at },
                            || match crate::model::class(pc.cls, ch) {
                                Some(v) => Leaf::Match(at + ch.len_utf8(), v),
                                None => Leaf::Fail(at, format!("expected {}", crate::model::noun(pc.cls))),
                            },
                            || ((pc.at)(&s, at), None),
                        );
                    }
                }
            }
        },
    ));
    let pcs3 = pcs.clone();
    let few: Vec<char> = "\r\n\t\0 aA1é\u{301}\u{200d}\u{fe0f}\u{feff}\u{85}\u{2028}😂\u{1f3fb}ǅſßΣｱ３字".chars().collect();
    parts.push(list(
        "three characters",
        "8 pieces at each position of every three-character text over 24 unusual scalars",
        few.clone(),
        move |cx, a| {
            for b in &few {
                for c in &few {
                    let s = format!("{a}{b}{c}");
                    for pc in &pcs3 {
                        let mut at = 0;
                        for ch in [*a, *b, *c] {
                            leaf_check(
                                cx,
                                &LeafCase { name: pc.name, text: &s, at },
                                || match crate::model::class(pc.cls, ch) {
                                    Some(v) => Leaf::Match(at + ch.len_utf8(), v),
                                    None => Leaf::Fail(at, format!("expected {}", crate::model::noun(pc.cls))),
                                },
                                || ((pc.at)(&s, at), None),
                            );
                            at += ch.len_utf8();
                        }
                    }
                }
            }
        },
    ));
    parts.push(list(
        "end of text",
        "8 pieces at the end of every text over {a,1,é,\\n} of length <= 4",
        strings(&["a", "1", "é", "\n"], 4),
        move |cx, s| {
            for pc in &pcs {
                leaf_check(
                    cx,
                    &LeafCase { name: pc.name, text: s, at: s.len() },
                    || Leaf::Fail(s.len(), format!("expected {}", crate::model::noun(pc.cls))),
                    || ((pc.at)(s, s.len()), None),
                );
            }
        },
    ));
    let all = classes!(Alpha alpha Alnum alnum Upper upper Lower lower Any any_char Digit digit DigitBin digit_bin DigitHex digit_hex);
    parts.push(far(t, &["a", "Z", "é", "7", "1", "😂", "ß", "\n", ""], move |cx, s, at| {
        for pc in &all {
            leaf_check(
                cx,
                &LeafCase { name: pc.name, text: s, at },
                || match s[at..].chars().next().and_then(|ch| Some((ch, crate::model::class(pc.cls, ch)?))) {
                    Some((ch, v)) => Leaf::Match(at + ch.len_utf8(), v),
                    None => Leaf::Fail(at, format!("expected {}", crate::model::noun(pc.cls))),
                },
                || ((pc.at)(s, at), None),
            );
        }
    }));
    (parts, vec!["the standard library's char predicates define the Unicode classes"])
}

// ---- P13

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
pub fn p13(t: Tier) -> Parts {
    let mut parts = vec![];
    let alphabets: [(&str, &[&str], usize, usize, &str); 5] = [
        ("string literals of control characters", &["\0", "\u{1}", "\t", "\u{b}", "\u{1b}", "\u{7f}", "\u{85}", "\u{2028}", "a"], 2, t.pick(3, 4), "NUL,^A,tab,vertical tab,escape,delete,next line,line separator,a"),
        ("string literals", &["a", "A", "é", "e", "\u{301}", "😂", "\n", "\\"], 3, t.pick(3, 4), "a,A,é,e,combining acute,😂,newline,backslash"),
        ("string literals with blanks", &["a", "\n", "\r", " ", "\t"], 3, t.pick(5, 6), "a,newline,carriage return,blank,tab"),
        ("string literals of digits and signs", &["0", "1", "-", "_", "'", "\""], 3, t.pick(4, 5), "0,1,-,_,',\""),
        ("string literals that look alike", &["s", "S", "ſ", "ß", "k", "\u{212a}", " ", "\u{a0}", "\u{200b}", "\u{feff}"], 2, t.pick(3, 4), "s,S,long s,sharp s,k,kelvin,blank,no-break space,zero-width space,byte order mark"),
    ];
    for (name, abc, n, m, words) in alphabets {
    let lits = strings(abc, n);
    let texts = std::sync::Arc::new(strings(abc, m));
    let tx = texts.clone();
    parts.push(list(
        name,
        &format!("all literals of length <= {n} x all texts of length <= {m} over {{{words}}}, from every character boundary; also as a literal of a larger pattern"),
        lits,
        move |cx, l| {
            let l: &'static str = leak(l);
            let q = parser!(l);
            let ctx = parser!(string(any_char) l);
            for s in tx.iter() {
                let mut at = 0;
                loop {
                    let want = || {
                        if s.as_bytes()[at..].starts_with(l.as_bytes()) {
                            Leaf::Match(at + l.len(), Val::U)
                        } else {
                            Leaf::Fail(at, format!("expected {l:?}"))
                        }
                    };
                    leaf_check(
                        cx,
                        &LeafCase { name: &format!("{l:?}"), text: s, at },
                        want,
                        || (leaf_at(&q, s, at), if at == 0 { Some(leaf_parse(&q, s)) } else { None }),
                    );
                    if cx.viol.is_some() {
                        return;
                    }
                    match s[at..].chars().next() {
                        Some(c) => at += c.len_utf8(),
                        None => break,
                    }
                }
                // after one character, nothing produced by the literal
                if let Some(c) = s.chars().next() {
                    if !cx.case(|| format!("string(any_char) {l:?} on {s:?}")) {
                        return;
                    }
                    cx.executions += 1;
                    let n = c.len_utf8();
                    let ok = &s[n..] == l;
                    match guarded(1 << 40, || ctx.parse(s)) {
                        Ok(Ok(v)) if ok && v == c.to_string() => cx.accepted += 1,
                        Ok(Err(e)) if !ok && e.location >= n => cx.rejected += 1,
                        r => cx.fail(format!("parser!(string(any_char) {l:?}) on {s:?}: {:?}", r.map_err(|o| o.show()))),
                    }
                }
            }
        },
    ));
    }
    let units: Vec<u32> = (0..0x110).collect();
    parts.push(list(
        "character literals",
        "every Unicode scalar as a literal (char and one-character string) against itself, its case variants, its neighbours, its own first bytes' look-alikes and the empty text",
        units,
        move |cx, c0| {
            for c in c0 * 0x1000..(c0 + 1) * 0x1000 {
                let Some(ch) = char::from_u32(c) else { continue };
                let mut others: Vec<String> = vec![
                    String::new(),
                    ch.to_string(),
                    format!("{ch}{ch}"),
                    format!("x{ch}"),
                    ch.to_lowercase().to_string(),
                    ch.to_uppercase().to_string(),
                ];
                for d in [c.wrapping_sub(1), c + 1, c ^ 0x20, c ^ 0x40, c & 0xff, c & 0x7f, c + 0x100, c + 0x10000] {
                    others.extend(char::from_u32(d).map(|x| x.to_string()));
                }
                let q = parser!(ch);
                let st = ch.to_string();
                let st: &str = &st;
                for s in &others {
                    let yes = s.chars().next() == Some(ch);
                    leaf_check(
                        cx,
                        &LeafCase { name: &format!("{ch:?}"), text: s, at: 0 },
                        || if yes { Leaf::Match(ch.len_utf8(), Val::U) } else { Leaf::Fail(0, format!("expected {ch:?}")) },
                        || (leaf_at(&q, s, 0), Some(leaf_parse(&q, s))),
                    );
                    leaf_check(
                        cx,
                        &LeafCase { name: &format!("{st:?}"), text: s, at: 0 },
                        || if yes { Leaf::Match(ch.len_utf8(), Val::U) } else { Leaf::Fail(0, format!("expected {st:?}")) },
                        || (leaf_at(&st, s, 0), Some(leaf_parse(&st, s))),
                    );
                }
                if cx.viol.is_some() {
                    return;
                }
            }
        },
    ));
    // long literals: mismatch at every position
    parts.push(list(
        "long literals",
        "literals of every length up to the bound and around powers of two, matching, cut short, and changed at each (or each 2^k-th) position",
        ladder(t.pick(130, 300), t.pick(1 << 12, 1 << 15)),
        |cx, n| {
            let l: String = (0..*n).map(|i| ['a', 'b', 'é', 'c', '😂'][(i * i + i / 3) % 5]).collect();
            let l: &'static str = leak(&l);
            let name = format!("literal of {n} characters");
            let mut go = |s: String| {
                let yes = s.starts_with(l);
                leaf_check(
                    cx,
                    &LeafCase { name: &name, text: &s, at: 0 },
                    || if yes { Leaf::Match(l.len(), Val::U) } else { Leaf::Fail(0, format!("expected {l:?}")) },
                    || (leaf_at(&l, &s, 0), Some(leaf_parse(&parser!(l), &s))),
                );
            };
            go(l.to_string());
            go(format!("{l}x"));
            go(String::new());
            let cs: Vec<char> = l.chars().collect();
            let pos: Vec<usize> = if *n <= 130 { (0..*n).collect() } else { (0..20).map(|k| (1usize << k) - 1).filter(|i| i < n).chain([n - 1, n - 2]).collect() };
            for i in pos {
                let mut d = cs.clone();
                d[i] = if d[i] == 'a' { 'A' } else { 'a' };
                go(d.iter().collect());
                go(cs[..i].iter().collect());
            }
        },
    ));
    // char_of
    let alphabets: [(&str, &[&str], usize, &[&str]); 5] = [
        ("char_of, every short option list", &["a", "b", "é", "😂", "A", "\n"], t.pick(5, 6), &["ê", "z"]),
        ("char_of, blanks and control characters", &["\0", "\t", "\r", " ", "\n", "a"], t.pick(4, 5), &["\u{1}", "\u{b}", "\u{7f}", "\u{85}", "\u{a0}"]),
        ("char_of, signs and digits", &["0", "9", "-", "^", "]", "["], t.pick(4, 5), &["5", ",", ".", "\\", "_"]),
        ("char_of, look-alikes", &["e", "\u{301}", "s", "ſ", "k", "\u{212a}", "\u{feff}"], t.pick(3, 4), &["é", "S", "K", "ß", "\u{200b}"]),
        ("char_of, characters that share bytes", &["\u{e9}", "\u{c3}", "\u{a9}", "\u{129}", "\u{ffe9}", "\u{100e9}"], t.pick(4, 5), &["\u{29}", "\u{e8}", "\u{1e9}"]),
    ];
    for (name, opt_alpha, n, more) in alphabets {
    parts.push(list(
        name,
        &format!("all option strings of length <= {n} (with repeats) over {opt_alpha:?} x texts of up to 2 characters over those and {more:?}, at every position"),
        strings(opt_alpha, n),
        move |cx, o| {
            let o: &'static str = leak(o);
            let q = char_of(o);
            let name = format!("char_of({o:?})");
            for s in strings(&[opt_alpha, more].concat(), 2) {
                let mut at = 0;
                loop {
                    let c = s[at..].chars().next();
                    leaf_check(
                        cx,
                        &LeafCase { name: &name, text: &s, at },
                        || match c.and_then(|c| o.chars().position(|x| x == c).map(|i| (c, i))) {
                            Some((c, i)) => Leaf::Match(at + c.len_utf8(), Val::N(i as i128)),
                            None => Leaf::Fail(at, format!("expected one of {o:?}")),
                        },
                        || (leaf_at(&q, &s, at), if at == 0 { Some(leaf_parse(&q, &s)) } else { None }),
                    );
                    match c {
                        Some(c) => at += c.len_utf8(),
                        None => break,
                    }
                }
                if cx.viol.is_some() {
                    return;
                }
            }
        },
    ));
    }
    parts.push(list(
        "char_of, every character",
        "every Unicode scalar c: char_of of c alone, of 'a' c 'b', of c next to its successor, on c, on its neighbours and on 'a' and 'b'",
        (0..0x110u32).collect(),
        move |cx, c0| {
            for c in c0 * 0x1000..(c0 + 1) * 0x1000 {
                let Some(ch) = char::from_u32(c) else { continue };
                let near: Vec<char> = [c + 1, c.wrapping_sub(1), c ^ 0x20, c & 0xff].into_iter().filter_map(char::from_u32).collect();
                let all = format!("{ch}a{ch}b{}{ch}", near[0]);
                let n = ch.len_utf8();
                let all: &'static str = Box::leak(all.into_boxed_str());
                for o in [&all[..n], &all[n..2 * n + 2], &all[n..], &all[2 * n + 1..]] {
                    let q = char_of(o);
                    for x in near.iter().copied().chain([ch, 'a', 'b']) {
                        let s = x.to_string();
                        let name = format!("char_of({o:?})");
                        leaf_check(
                            cx,
                            &LeafCase { name: &name, text: &s, at: 0 },
                            || match o.chars().position(|y| x == y) {
                                Some(i) => Leaf::Match(x.len_utf8(), Val::N(i as i128)),
                                None => Leaf::Fail(0, format!("expected one of {o:?}")),
                            },
                            || (leaf_at(&q, &s, 0), None),
                        );
                    }
                }
                if cx.viol.is_some() {
                    return;
                }
            }
        },
    ));
    // texts of options, and literals, that are parts of one another in memory
    let n = t.pick(4, 5);
    parts.push(list(
        "parts of the same text",
        &format!("char_of and literals made of every ordered pair of parts of every text of {n} characters over {{a,b,é}} (the parts in the same place in memory) x every text of up to 2 characters, one after the other, in turns"),
        strings(&["a", "b", "é"], n).into_iter().filter(|s| s.chars().count() == n).collect(),
        |cx, o| {
            let o: &'static str = leak(o);
            let ends: Vec<usize> = o.char_indices().map(|(i, _)| i).chain([o.len()]).collect();
            let mut subs: Vec<&'static str> = vec![];
            for (i, x) in ends.iter().enumerate() {
                for y in &ends[i..] {
                    subs.push(&o[*x..*y]);
                }
            }
            for x in &subs {
                for y in &subs {
                    let (p, q) = (char_of(x), char_of(y));
                    for s in strings(&["a", "b", "é", "z"], 2) {
                        for (k, (o, r)) in [(x, &p), (y, &q), (x, &p)].into_iter().enumerate() {
                            let name = format!("char_of({o:?}), beside one of {x:?} and {y:?} in the same text");
                            leaf_check(
                                cx,
                                &LeafCase { name: &name, text: &s, at: 0 },
                                || match s.chars().next().and_then(|c| o.chars().position(|x| x == c).map(|i| (c, i))) {
                                    Some((c, i)) => Leaf::Match(c.len_utf8(), Val::N(i as i128)),
                                    None => Leaf::Fail(0, format!("expected one of {o:?}")),
                                },
                                || (leaf_at(r, &s, 0), if k == 0 { Some(leaf_parse(r, &s)) } else { None }),
                            );
                            let name = format!("literal {o:?}, beside {x:?} and {y:?} in the same text");
                            leaf_check(
                                cx,
                                &LeafCase { name: &name, text: &s, at: 0 },
                                || if s.starts_with(*o) { Leaf::Match(o.len(), Val::U) } else { Leaf::Fail(0, format!("expected {o:?}")) },
                                || (leaf_at(&o, &s, 0), if k == 0 { Some(leaf_parse(&o, &s)) } else { None }),
                            );
                        }
                        if cx.viol.is_some() {
                            return;
                        }
                    }
                }
            }
        },
    ));
    parts.push(list(
        "char_of, long option lists",
        "option strings of every length up to the bound and around powers of two (one- to four-byte characters, each twice): every option, its neighbours, and absent characters",
        ladder(t.pick(300, 600), t.pick(4096, 8192)),
        |cx, n| {
            let mut cs: Vec<char> = (0..*n as u32)
                .map(|i| match i % 4 {
                    0 => char::from_u32(0x21 + i / 4 % 90).unwrap(),
                    1 => char::from_u32(0x100 + i).unwrap(),
                    2 => char::from_u32(0x4e00 + i).unwrap(),
                    _ => char::from_u32(0x1f300 + i).unwrap(),
                })
                .collect();
            let again = cs.clone();
            cs.extend(again.into_iter().rev());
            let o: &'static str = leak(&cs.iter().collect::<String>());
            let q = char_of(o);
            let name = format!("char_of(list of {} characters)", cs.len());
            let mut first: std::collections::HashMap<char, usize> = Default::default();
            for (i, c) in cs.iter().enumerate() {
                first.entry(*c).or_insert(i);
            }
            let step = (*n / 150).max(1);
            for c in cs.iter().take(*n).rev().step_by(step).chain(&['\u{0}', '\u{7f}', 'é', '\u{10ffff}', '𝄞']) {
                let s = format!("{c}{c}");
                leaf_check(
                    cx,
                    &LeafCase { name: &name, text: &s, at: 0 },
                    || match first.get(c) {
                        Some(i) => Leaf::Match(c.len_utf8(), Val::N(*i as i128)),
                        None => Leaf::Fail(0, format!("expected one of {o:?}")),
                    },
                    || (leaf_at(&q, &s, 0), None),
                );
                if cx.viol.is_some() {
                    return;
                }
            }
        },
    ));
    parts.push(far(t, &["ab", "é", "😂", "e", "a", "\n", ""], |cx, s, at| {
        macro_rules! one {
            ($q:expr, $name:expr, $want:expr) => {
                leaf_check(cx, &LeafCase { name: $name, text: s, at }, $want, || (leaf_at(&$q, s, at), None));
            };
        }
        for l in ["ab", "é", "😂", "a", "\n", ""] {
            one!(l, &format!("{l:?}"), || if s[at..].starts_with(l) { Leaf::Match(at + l.len(), Val::U) } else { Leaf::Fail(at, format!("expected {l:?}")) });
        }
        for l in ['a', 'é', '😂', '\n'] {
            one!(l, &format!("{l:?}"), || if s[at..].starts_with(l) { Leaf::Match(at + l.len_utf8(), Val::U) } else { Leaf::Fail(at, format!("expected {l:?}")) });
        }
        one!(char_of("xaé"), "char_of", || match s[at..].chars().next().and_then(|c| "xaé".chars().position(|d| d == c).map(|i| (c, i))) {
            Some((c, i)) => Leaf::Match(at + c.len_utf8(), Val::N(i as i128)),
            None => Leaf::Fail(at, "expected one of \"xaé\"".into()),
        });
    }));
    parts.push(super::comb::multibyte(t.pick(4, 5), 4, What::AcceptValue));
    (parts, vec![])
}
