//! Patterns that are also written out in `parser!(...)` as a whole, without
//! type erasure inside (the tables in typed0..). The list here and the tables
//! are in the same order; `mc gentyped` writes the tables.
use crate::gram::{upto, Cls, Coll, Num, Op, G, P};
use crate::val::Val;
use std::collections::HashSet;
use G::*;

/// Tables of patterns, one crate each.
pub const TABLES: usize = 6;
pub type Row = (&'static str, fn() -> crate::dynp::Bx);

fn p(g: G) -> P {
    P::new(g)
}
/// The Rust type of the pattern's value, if it can be written as a whole; the
/// raw tuple's types.
fn raw(g: &G) -> Option<Vec<String>> {
    let one = |s: String| Some(vec![s]);
    match g {
        Empty | Lit(_) | Ch(_) => Some(vec![]),
        Cls(Cls::Digit | Cls::DigitBin | Cls::DigitHex) | CharOf(_) => one("usize".into()),
        Cls(_) => one("char".into()),
        Num(Num::U8 | Num::U8Hex) => one("u8".into()),
        Num(Num::I8) => one("i8".into()),
        Num(Num::I32) => one("i32".into()),
        Num(Num::Usize) => one("usize".into()),
        Num(Num::Bool) => one("bool".into()),
        Seq(..) | Seq3(..) | SeqN(_) => {
            let mut v = vec![];
            for k in g.kids() {
                match **k {
                    // (in parentheses)
                    Seq(..) | Seq3(..) | SeqN(_) => v.push(ty(k)?),
                    _ => v.extend(raw(k)?),
                }
            }
            if v.len() > 8 {
                return None;
            }
            Some(v)
        }
        Alt(..) | Alt3(..) | AltN(_) => {
            let t: Option<Vec<String>> = g.kids().iter().map(|k| ty(k)).collect();
            let t = t?;
            if t.iter().any(|x| *x != t[0]) {
                return None;
            }
            one(t[0].clone())
        }
        Star(a) | Plus(a) | Lines(a) | Sections(a) => one(format!("Vec<{}>", ty(a)?)),
        RepSep(a, b) => {
            ty(b)?;
            one(format!("Vec<{}>", ty(a)?))
        }
        Opt(a) => one(format!("Option<{}>", ty(a)?)),
        Str(a) => {
            ty(a)?;
            one("String".into())
        }
        Line(a) | Section(a) | Paren(a) => one(ty(a)?),
        Map(_, a) => {
            ty(a)?;
            one("Val".into())
        }
        Rule(0, _) => one("Val".into()),
        Rules(rs, e) => {
            if rs.iter().any(|r| ty(r).as_deref() != Some("Val")) {
                return None;
            }
            raw(e)
        }
        Coll(k, a, Some(b)) => {
            ty(b)?;
            raw(&Coll(*k, a.clone(), None))
        }
        Coll(Coll::BSet, a, None) => one(format!("BTreeSet<{}>", ty(a)?)),
        Coll(Coll::HSet, a, None) => one(format!("HashSet<{}>", ty(a)?)),
        Coll(Coll::Deq, a, None) => one(format!("VecDeque<{}>", ty(a)?)),
        CollMap(c, k, v) => one(format!("{}<{}, {}>", if *c == Coll::HMap { "HashMap" } else { "BTreeMap" }, ty(k)?, ty(v)?)),
        _ => None,
    }
}
fn ty(g: &G) -> Option<String> {
    let v = raw(g)?;
    Some(if v.len() == 1 { v[0].clone() } else { format!("({})", v.join(", ")) })
}
/// A value as the model makes it in its typed mode: raw tuples made whole.
pub fn one(v: Val) -> Val {
    match v {
        Val::T(mut v) => match v.len() {
            0 => Val::U,
            1 => v.pop().unwrap(),
            _ => Val::T(v),
        },
        v => v,
    }
}

pub fn typed_pats() -> Vec<P> {
    let mut v: Vec<P> = vec![];
    // everything small
    v.extend(upto(
        &[Ch('a'), Lit("ab"), Cls(Cls::Any)],
        &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::Line, Op::Lines, Op::Section, Op::Sections, Op::Map, Op::Paren],
        &[Op::Seq, Op::Alt, Op::RepSep],
        3,
    ));
    // the core, one larger
    v.extend(upto(&[Ch('a'), Cls(Cls::Any)], &[Op::Star, Op::Opt, Op::Line], &[Op::Seq, Op::Alt, Op::RepSep], 4));
    // pairs of compounds
    let small = upto(&[Ch('a'), Lit("ab"), Cls(Cls::Any)], &[Op::Star, Op::Opt, Op::Map, Op::Str, Op::Lines], &[], 2);
    for a in &small[3..] {
        for b in &small[3..] {
            v.push(p(Seq(a.clone(), b.clone())));
        }
    }
    // a text taken apart in sections and lines
    let (a, b, any) = (p(Ch('a')), p(Ch('b')), p(Cls(Cls::Any)));
    for x in [a.clone(), any.clone(), p(Star(a.clone())), p(Plus(any.clone())), p(Str(p(Star(any.clone())))), p(Map(0, any.clone())), p(Seq(a.clone(), any.clone()))] {
        v.push(p(Sections(p(Lines(x.clone())))));
        v.push(p(Section(p(Lines(x.clone())))));
        v.push(p(Seq(p(Section(p(Line(x.clone())))), p(Section(p(Lines(x.clone())))))));
        v.push(p(Sections(p(Seq(p(Line(b.clone())), p(Lines(x.clone())))))));
        v.push(p(Star(p(Alt(p(Map(1, p(Line(x.clone())))), p(Map(2, p(Section(p(Line(b.clone())))))))))));
        v.push(p(Coll(Coll::BSet, x.clone(), None)));
        v.push(p(Coll(Coll::HSet, p(Seq(b.clone(), x.clone())), None)));
        v.push(p(Coll(Coll::Deq, p(Paren(p(Seq(x.clone(), b.clone())))), None)));
        v.push(p(Opt(p(Seq(p(Opt(x.clone())), b.clone())))));
        v.push(p(SeqN(vec![a.clone(), x.clone(), p(Opt(b.clone())), any.clone()])));
        v.push(p(SeqN(vec![any.clone(), x.clone(), any.clone(), b.clone(), p(Star(any.clone()))])));
        v.push(p(Alt3(p(Map(0, x.clone())), p(Map(1, p(Lit("ab")))), p(Map(2, p(Seq(any.clone(), x.clone())))))));
    }
    // rules
    let r = p(Rule(0, 0));
    let s = p(Rule(0, 1));
    let m = |n: u8, g: &P| p(Map(n, g.clone()));
    let bodies = [
        p(Map(0, p(Alt(p(Seq(a.clone(), p(Seq(r.clone(), b.clone())))), p(Seq(a.clone(), m(1, &b))))))),
        p(Alt(m(0, &p(Seq(a.clone(), r.clone()))), m(1, &p(Empty)))),
        p(Alt(m(0, &p(Seq(any.clone(), r.clone()))), m(1, &b))),
        m(0, &p(Opt(p(Seq(a.clone(), r.clone()))))),
        m(0, &p(Star(p(Seq(a.clone(), p(Seq(r.clone(), b.clone()))))))),
        m(0, &p(Line(p(Alt(m(1, &p(Seq(a.clone(), r.clone()))), m(2, &any)))))),
        m(0, &any),
    ];
    for d in &bodies {
        for e in [r.clone(), p(Star(r.clone())), p(Seq(r.clone(), p(Star(any.clone())))), p(Lines(r.clone())), p(Str(r.clone())), p(Seq(p(Opt(r.clone())), b.clone())), p(RepSep(r.clone(), p(Lit("\n"))))] {
            v.push(p(Rules(vec![d.clone()], e)));
        }
    }
    let two = [
        (p(Alt(m(0, &p(Seq(a.clone(), s.clone()))), m(1, &p(Empty)))), p(Alt(m(2, &p(Seq(b.clone(), r.clone()))), m(3, &p(Empty))))),
        (m(0, &p(Seq(any.clone(), p(Opt(s.clone()))))), m(1, &p(Seq(b.clone(), p(Opt(r.clone())))))),
    ];
    for (d, f) in two {
        for e in [r.clone(), s.clone(), p(Seq(r.clone(), s.clone())), p(Alt(s.clone(), r.clone())), p(Lines(p(Seq(s.clone(), r.clone()))))] {
            v.push(p(Rules(vec![d.clone(), f.clone()], e)));
        }
    }
    let mut seen = HashSet::new();
    v.retain(|g| ty(g).is_some() && !call(&typed_src(g)) && seen.insert(typed_src(g)));
    v
}
/// Those, then the ones of puzzle.rs.
fn all_pats() -> Vec<P> {
    let mut v = typed_pats();
    v.extend(crate::puzzle::puzzles().into_iter().map(|z| z.p));
    for g in &v {
        assert!(ty(g).is_some() && !call(&typed_src(g)), "cannot be written out: {}", typed_src(g));
    }
    v
}
/// A name followed by a group would be read as a call.
fn call(s: &str) -> bool {
    s.as_bytes().windows(3).any(|w| w[1..] == *b" (" && (w[0].is_ascii_alphanumeric() || w[0] == b'_'))
}
pub fn typed_src(g: &G) -> String {
    let s = g.src();
    let s = s.replace("(v:", "(v : ").replace(": _ =", ": Val =");
    match g {
        Rules(..) => s[1..s.len() - 1].to_string(),
        _ => s,
    }
}
/// The source of table `t`.
pub fn table_source(t: usize) -> String {
    let mut o = String::from("// Written by `mc gentyped`; see mc/base/src/typed.rs.\nuse mcbase::typed::prelude::*;\npub static TABLE: &[Row] = &[\n");
    for g in all_pats().iter().skip(t).step_by(TABLES) {
        let s = typed_src(g);
        o.push_str(&format!("    ({s:?}, || bx(parser!({s}))),\n"));
    }
    o.push_str("];\n");
    o
}
pub mod prelude {
    pub use super::Row;
    pub use crate::dynp::top as bx;
    pub use crate::val::{ToVal, Val};
    pub use aoc_parse::{parser, prelude::*};
    macro_rules! convs {
        ($($n:literal $f:ident)*) => { $(
            pub fn $f<T: ToVal>(v: T) -> Val {
                crate::dynp::conv::<$n>(v.to_val())
            }
        )* };
    }
    convs!(0 conv0 1 conv1 2 conv2 3 conv3 4 conv4 5 conv5);
}
