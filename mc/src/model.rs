//! Reference model: all ways a pattern matches at a position, from most to
//! least preferred, by plain recursion with a continuation; and the failures
//! met on the way, of which the furthest (first met among equals) is kept.
//!
//! The continuation returns `true` to stop the search.
use crate::gram::{Cls, Coll, Num, Own, G, P};
use crate::val::Val;
use mcbase::typed::one;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Msg {
    Extra,
    NotLineStart,
    NotSectionStart,
    LineExtra,
    SectionExtra,
    Expected(Exp),
    FromStr(String, &'static str, String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exp {
    Noun(&'static str),
    Str(&'static str),
    Ch(char),
    OneOf(&'static str),
}
impl Msg {
    pub fn text(&self) -> String {
        match self {
            Msg::Extra => "extra unparsed text after match".into(),
            Msg::NotLineStart => {
                "line() can't match here because this is not at the start of a line".into()
            }
            Msg::NotSectionStart => {
                "section() can't match here because this is not at the start of a section".into()
            }
            Msg::LineExtra => {
                "line(pattern) matched part of the line, but not all of it".into()
            }
            Msg::SectionExtra => {
                "section(pattern) matched part of the section, but not all of it".into()
            }
            Msg::Expected(Exp::Noun(n)) => format!("expected {n}"),
            Msg::Expected(Exp::Str(n)) => format!("expected {n:?}"),
            Msg::Expected(Exp::Ch(n)) => format!("expected {n:?}"),
            Msg::Expected(Exp::OneOf(n)) => format!("expected one of {n:?}"),
            Msg::FromStr(i, t, m) => format!("failed to parse {i:?} as type {t}: {m}"),
        }
    }
}

/// "at end of input" / "at line L column C", straight from the definition.
pub fn place(src: &str, loc: usize) -> String {
    if loc == src.len() {
        return "at end of input".into();
    }
    let (mut line, mut col) = (1, 1);
    for c in src[..loc].chars() {
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    format!("at line {line} column {col}")
}

/// A text being matched and the furthest failure in it.
pub struct Cx<'s> {
    pub src: &'s str,
    pub best: Option<(usize, Msg)>,
}
impl<'s> Cx<'s> {
    fn fail(&mut self, loc: usize, msg: Msg) -> bool {
        let further = match &self.best {
            None => true,
            Some((l, _)) => loc > *l,
        };
        if further {
            self.best = Some((loc, msg));
        }
        false
    }
}

#[derive(Clone)]
pub struct Scope(Option<Rc<(Vec<P>, Scope)>>);

pub struct Model {
    pub steps: u64,
    pub cap: u64,
    /// values as of a pattern written out whole (raw tuples), not as of one
    /// built from erased parts
    pub whole: bool,
}

pub type K<'k, 's> = &'k mut dyn FnMut(&mut Model, &mut Cx<'s>, usize, Val) -> bool;

thread_local! {
    /// steps after which a case is given up (and counted as such)
    pub static CAP: std::cell::Cell<u64> = const { std::cell::Cell::new(2_000_000) };
}

impl Model {
    pub fn new() -> Model {
        Model {
            steps: 0,
            cap: CAP.with(|c| c.get()),
            whole: false,
        }
    }
    fn tick(&mut self) -> bool {
        self.steps += 1;
        self.steps > self.cap
    }
    pub fn capped(&self) -> bool {
        self.steps > self.cap
    }

    pub fn run<'s>(&mut self, g: &G, sc: &Scope, cx: &mut Cx<'s>, at: usize, k: K<'_, 's>) -> bool {
        if self.tick() {
            return true;
        }
        if self.whole {
            return self.run0(g, sc, cx, at, &mut |m, cx, e, v| k(m, cx, e, raw(g, v)));
        }
        self.run0(g, sc, cx, at, k)
    }
    fn run0<'s>(&mut self, g: &G, sc: &Scope, cx: &mut Cx<'s>, at: usize, k: K<'_, 's>) -> bool {
        let rest = &cx.src[at..];
        match g {
            G::Empty => k(self, cx, at, Val::U),
            G::Lit(s) => {
                if rest.len() >= s.len() && rest.as_bytes()[..s.len()] == *s.as_bytes() {
                    k(self, cx, at + s.len(), Val::U)
                } else {
                    cx.fail(at, Msg::Expected(Exp::Str(s)))
                }
            }
            G::Ch(c) => {
                if rest.chars().next() == Some(*c) {
                    k(self, cx, at + c.len_utf8(), Val::U)
                } else {
                    cx.fail(at, Msg::Expected(Exp::Ch(*c)))
                }
            }
            G::Cls(c) => {
                let x = rest.chars().next();
                match x.and_then(|x| class(*c, x)) {
                    Some(v) => k(self, cx, at + x.unwrap().len_utf8(), v),
                    None => cx.fail(at, Msg::Expected(Exp::Noun(noun(*c)))),
                }
            }
            G::CharOf(opts) => {
                let x = rest.chars().next();
                match x.and_then(|x| opts.chars().position(|o| o == x)) {
                    Some(i) => k(self, cx, at + x.unwrap().len_utf8(), Val::N(i as i128)),
                    None => cx.fail(at, Msg::Expected(Exp::OneOf(opts))),
                }
            }
            G::Script(u) => {
                let src = cx.src;
                let after = |n: u8| rest.char_indices().map(|(i, _)| i).chain([rest.len()]).nth(n as usize);
                for n in &u.ends {
                    if let Some(e) = after(*n) {
                        let v = Val::M(u.id, Box::new(Val::S(src[at..at + e].to_string())));
                        if k(self, cx, at + e, v) {
                            return true;
                        }
                    }
                }
                let far = after(u.far).unwrap_or(rest.len());
                cx.fail(at + far, Msg::Expected(Exp::Noun(mcbase::dynp::NOUN)))
            }
            G::Own(how, v) => self.own(*how, v, sc, cx, at, k),
            G::Num(n) => match number(*n, rest) {
                Ok((len, v)) => k(self, cx, at + len, v),
                Err(m) => cx.fail(at, m),
            },
            G::Seq(a, b) => self.run(a, sc, cx, at, &mut |m, cx, e, va| {
                m.run(b, sc, cx, e, &mut |m, cx, e, vb| {
                    k(m, cx, e, Val::T(vec![va.clone(), vb]))
                })
            }),
            G::Seq3(a, b, c) => self.run(a, sc, cx, at, &mut |m, cx, e, va| {
                m.run(b, sc, cx, e, &mut |m, cx, e, vb| {
                    m.run(c, sc, cx, e, &mut |m, cx, e, vc| {
                        k(m, cx, e, Val::T(vec![va.clone(), vb.clone(), vc]))
                    })
                })
            }),
            G::Alt(a, b) => self.run(a, sc, cx, at, k) || self.run(b, sc, cx, at, k),
            G::Alt3(a, b, c) => {
                self.run(a, sc, cx, at, k)
                    || self.run(b, sc, cx, at, k)
                    || self.run(c, sc, cx, at, k)
            }
            G::SeqN(v) => self.seq(v, &[], sc, cx, at, k),
            G::AltN(v) => {
                for a in v {
                    if self.run(a, sc, cx, at, k) {
                        return true;
                    }
                }
                false
            }
            G::Opt(a) => {
                self.run(a, sc, cx, at, &mut |m, cx, e, v| {
                    k(m, cx, e, Val::O(Some(Box::new(v))))
                }) || k(self, cx, at, Val::O(None))
            }
            G::Star(a) => self.list(a, &G::Empty, 0, sc, cx, at, k),
            G::Plus(a) => self.list(a, &G::Empty, 1, sc, cx, at, k),
            G::RepSep(a, b) => self.list(a, b, 0, sc, cx, at, k),
            G::Lines(a) => self.list(&G::Line(a.clone()), &G::Empty, 0, sc, cx, at, k),
            G::Sections(a) => self.list(&G::Section(a.clone()), &G::Empty, 0, sc, cx, at, k),
            G::Str(a) => {
                let src = cx.src;
                self.run(a, sc, cx, at, &mut |m, cx, e, _| {
                    k(m, cx, e, Val::S(src[at..e].to_string()))
                })
            }
            G::Map(n, a) => self.run(a, sc, cx, at, &mut |m, cx, e, v| {
                k(m, cx, e, Val::M(*n, Box::new(v)))
            }),
            G::Paren(a) | G::Ref_(a) => self.run(a, sc, cx, at, k),
            G::Line(a) => {
                if at > 0 && !cx.src[..at].ends_with('\n') {
                    return cx.fail(at, Msg::NotLineStart);
                }
                if rest.is_empty() {
                    return cx.fail(at, Msg::Expected(Exp::Noun("line")));
                }
                let (inner, used) = match rest.split_once('\n') {
                    Some((l, _)) => (l, l.len() + 1),
                    None => (rest, rest.len()),
                };
                self.region(a, sc, cx, at, inner, used, Msg::LineExtra, k)
            }
            G::Section(a) => {
                let before = &cx.src[..at];
                if !(before.is_empty() || before == "\n" || before.ends_with("\n\n")) {
                    return cx.fail(at, Msg::NotSectionStart);
                }
                if rest.is_empty() {
                    return cx.fail(at, Msg::Expected(Exp::Noun("section")));
                }
                // the nonblank lines from here, then a blank line if any
                let mut inner = 0;
                for l in rest.split_inclusive('\n') {
                    if l == "\n" {
                        break;
                    }
                    inner += l.len();
                }
                let used = if inner < rest.len() { inner + 1 } else { inner };
                self.region(a, sc, cx, at, &rest[..inner], used, Msg::SectionExtra, k)
            }
            G::Rules(rs, e) => {
                let sc2 = Scope(Some(Rc::new((rs.clone(), sc.clone()))));
                self.run(e, &sc2, cx, at, k)
            }
            G::Rule(d, i) => {
                let mut s = sc;
                for _ in 0..*d {
                    s = &s.0.as_ref().unwrap().1;
                }
                let body = &s.0.as_ref().unwrap().0[*i as usize];
                self.run(body, s, cx, at, k)
            }
            G::Coll(c, a, sep) => {
                let empty = G::Empty;
                let sep: &G = match sep {
                    None => &empty,
                    Some(s) => s,
                };
                self.list(a, sep, 0, sc, cx, at, &mut |m, cx, e, v| {
                    let Val::L(xs) = v else { unreachable!() };
                    k(m, cx, e, collect(*c, xs))
                })
            }
            G::CollMap(c, a, b) => {
                let pair = G::Seq(a.clone(), b.clone());
                self.list(&pair, &G::Empty, 0, sc, cx, at, &mut |m, cx, e, v| {
                    let Val::L(xs) = v else { unreachable!() };
                    k(m, cx, e, collect(*c, xs))
                })
            }
        }
    }

    /// Combinators a user wrote: see base/src/own.rs.
    fn own<'s>(&mut self, how: Own, v: &[P], sc: &Scope, cx: &mut Cx<'s>, at: usize, k: K<'_, 's>) -> bool {
        let a = &v[0];
        let mut got = None;
        match how {
            Own::Peek => {
                self.run(a, sc, cx, at, &mut |_, _, _, v| {
                    got = Some(v);
                    true
                });
                self.capped() || got.is_some_and(|v| k(self, cx, at, v))
            }
            Own::Not => {
                let any = self.run(a, sc, cx, at, &mut |_, _, _, _| true);
                if self.capped() {
                    return true;
                }
                if any {
                    return cx.fail(at, Msg::Expected(Exp::Noun(mcbase::own::NOT)));
                }
                k(self, cx, at, Val::U)
            }
            Own::Twice => {
                let any = self.run(a, sc, cx, at, &mut |_, _, _, _| true);
                self.capped() || any && self.run(a, sc, cx, at, k)
            }
            Own::Or => self.run(&v[1], sc, cx, at, k) || self.run(a, sc, cx, at, k),
            Own::Both => self.run(a, sc, cx, at, &mut |m, cx, e, va| {
                let met = m.run(&v[1], sc, cx, at, &mut |_, _, e2, _| e2 == e);
                if m.capped() {
                    return true;
                }
                if !met {
                    return cx.fail(e, Msg::Expected(Exp::Noun(mcbase::own::BOTH)));
                }
                k(m, cx, e, va)
            }),
            Own::Whole => {
                let rest = &cx.src[at..];
                self.region(a, sc, cx, at, rest, rest.len(), Msg::Extra, k)
            }
            Own::Lazy => self.lazy(a, &[], sc, cx, at, k),
        }
    }
    fn lazy<'s>(&mut self, a: &G, acc: &[Val], sc: &Scope, cx: &mut Cx<'s>, at: usize, k: K<'_, 's>) -> bool {
        k(self, cx, at, Val::L(acc.to_vec()))
            || self.run(a, sc, cx, at, &mut |m, cx, e, v| {
                let mut acc = acc.to_vec();
                acc.push(v);
                e > at && m.lazy(a, &acc, sc, cx, e, k)
            })
    }

    fn seq<'s>(
        &mut self,
        v: &[P],
        acc: &[Val],
        sc: &Scope,
        cx: &mut Cx<'s>,
        at: usize,
        k: K<'_, 's>,
    ) -> bool {
        let Some((a, rest)) = v.split_first() else {
            return k(self, cx, at, Val::T(acc.to_vec()));
        };
        self.run(a, sc, cx, at, &mut |m, cx, e, va| {
            let mut acc = acc.to_vec();
            acc.push(va);
            m.seq(rest, &acc, sc, cx, e, k)
        })
    }

    #[allow(clippy::too_many_arguments)]
    fn region<'s>(
        &mut self,
        a: &G,
        sc: &Scope,
        cx: &mut Cx<'s>,
        at: usize,
        inner: &'s str,
        used: usize,
        partial: Msg,
        k: K<'_, 's>,
    ) -> bool {
        let mut icx = Cx {
            src: inner,
            best: None,
        };
        let mut got = None;
        self.run(a, sc, &mut icx, 0, &mut |_, icx, e, v| {
            if e == icx.src.len() {
                got = Some(v);
                true
            } else {
                icx.fail(e, partial.clone())
            }
        });
        if self.capped() {
            return true;
        }
        match got {
            Some(v) => k(self, cx, at + used, v),
            None => {
                let (l, msg) = icx.best.expect("a failure without a reason");
                cx.fail(at + l, msg)
            }
        }
    }

    /// `elem (sep elem)*`, or nothing if `min` is 0.
    #[allow(clippy::too_many_arguments)]
    fn list<'s>(
        &mut self,
        elem: &G,
        sep: &G,
        min: usize,
        sc: &Scope,
        cx: &mut Cx<'s>,
        at: usize,
        k: K<'_, 's>,
    ) -> bool {
        self.more(elem, sep, sc, cx, at, None, &[], k)
            || (min == 0 && k(self, cx, at, Val::L(vec![])))
    }
    #[allow(clippy::too_many_arguments)]
    fn more<'s>(
        &mut self,
        elem: &G,
        sep: &G,
        sc: &Scope,
        cx: &mut Cx<'s>,
        at: usize,
        last_start: Option<usize>,
        acc: &[Val],
        k: K<'_, 's>,
    ) -> bool {
        if last_start == Some(at) {
            return false; // the last element started here: no progress
        }
        self.run(elem, sc, cx, at, &mut |m, cx, e, v| {
            let mut acc2 = acc.to_vec();
            acc2.push(v);
            m.run(sep, sc, cx, e, &mut |m, cx, e2, _| {
                m.more(elem, sep, sc, cx, e2, Some(at), &acc2, k)
            }) || k(m, cx, e, Val::L(acc2.clone()))
        })
    }
}

/// The raw tuple of values a node contributes, from the value made of its
/// parts' raw tuples.
fn raw(g: &G, v: Val) -> Val {
    let ones = |v: Vec<Val>| v.into_iter().map(one).collect::<Vec<_>>();
    let x = match (g, v) {
        (G::Empty | G::Lit(_) | G::Ch(_), _) => return Val::T(vec![]),
        (G::Seq(..) | G::Seq3(..) | G::SeqN(_), Val::T(parts)) => {
            return Val::T(
                parts
                    .into_iter()
                    .zip(g.kids())
                    .flat_map(|(v, k)| match (v, &**k) {
                        // (in parentheses)
                        (v, G::Seq(..) | G::Seq3(..) | G::SeqN(_)) => vec![one(v)],
                        (Val::T(v), _) => v,
                        _ => unreachable!(),
                    })
                    .collect(),
            )
        }
        (G::Rules(..) | G::Ref_(_), v) => return v,
        (_, Val::L(v)) => Val::L(ones(v)),
        (_, Val::Deq(v)) => Val::Deq(ones(v)),
        (_, Val::BSet(v)) => Val::BSet(ones(v)),
        (_, Val::BMap(v)) => Val::BMap(v.into_iter().map(|(k, v)| (one(k), one(v))).collect()),
        (_, Val::HMap(v)) => Val::HMap(v.into_iter().map(|(k, v)| (one(k), one(v))).collect()),
        (_, Val::HSet(v)) => Val::HSet(v.into_iter().map(one).collect()),
        (_, Val::O(Some(v))) => Val::O(Some(Box::new(one(*v)))),
        (_, Val::M(n, v)) => Val::M(n, Box::new(one(*v))),
        (_, v) => one(v),
    };
    Val::T(vec![x])
}

fn collect(c: Coll, xs: Vec<Val>) -> Val {
    match c {
        Coll::HSet => Val::HSet(xs.into_iter().collect()),
        Coll::BSet => {
            let mut xs = xs;
            xs.sort();
            xs.dedup();
            Val::BSet(xs)
        }
        Coll::Deq => Val::Deq(xs),
        Coll::HMap | Coll::BMap => {
            let mut m: BTreeMap<Val, Val> = BTreeMap::new();
            for x in xs {
                let Val::T(mut kv) = x else { unreachable!() };
                let v = kv.pop().unwrap();
                let k = kv.pop().unwrap();
                m.insert(k, v);
            }
            if c == Coll::HMap {
                Val::HMap(m)
            } else {
                Val::BMap(m.into_iter().collect())
            }
        }
    }
}

pub fn class(c: Cls, x: char) -> Option<Val> {
    let yes = |b: bool| if b { Some(Val::C(x)) } else { None };
    let dig = |d: Option<u32>| d.map(|d| Val::N(d as i128));
    match c {
        Cls::Alpha => yes(x.is_alphabetic()),
        Cls::Alnum => yes(x.is_alphabetic() || x.is_numeric()),
        Cls::Upper => yes(x.is_uppercase()),
        Cls::Lower => yes(x.is_lowercase()),
        Cls::Any => Some(Val::C(x)),
        Cls::Digit => dig("0123456789".find(x).map(|i| i as u32)),
        Cls::DigitBin => dig("01".find(x).map(|i| i as u32)),
        Cls::DigitHex => dig("0123456789abcdef"
            .find(x)
            .or("0123456789ABCDEF".find(x))
            .map(|i| i as u32)),
    }
}
pub fn noun(c: Cls) -> &'static str {
    match c {
        Cls::Alpha => "letter",
        Cls::Alnum => "letter or digit",
        Cls::Upper => "uppercase letter",
        Cls::Lower => "lowercase letter",
        Cls::Any => "any character",
        Cls::Digit => "decimal digit",
        Cls::DigitBin => "binary digit",
        Cls::DigitHex => "hexadecimal digit",
    }
}

/// Longest numeral at the start of `s` and its value, or the failure.
fn number(n: Num, s: &str) -> Result<(usize, Val), Msg> {
    if n == Num::Bool {
        return if s.starts_with("true") {
            Ok((4, Val::B(true)))
        } else if s.starts_with("false") {
            Ok((5, Val::B(false)))
        } else {
            Err(Msg::Expected(Exp::Noun("bool")))
        };
    }
    let (signed, base, lo, hi, ty): (bool, u32, i128, i128, &'static str) = match n {
        Num::U8 => (false, 10, 0, 255, "u8"),
        Num::I8 => (true, 10, -128, 127, "i8"),
        Num::U8Hex => (false, 16, 0, 255, "u8"),
        Num::I32 => (true, 10, i32::MIN as i128, i32::MAX as i128, "i32"),
        Num::Usize => (false, 10, 0, usize::MAX as i128, "usize"),
        Num::Bool => unreachable!(),
    };
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    if signed && !b.is_empty() && (b[0] == b'+' || b[0] == b'-') {
        neg = b[0] == b'-';
        i = 1;
    }
    let d0 = i;
    let mut v: i128 = 0;
    while i < b.len() {
        match (b[i] as char).to_digit(base) {
            Some(d) if b[i] < 128 => v = (v * base as i128 + d as i128).min(1 << 90),
            _ => break,
        }
        i += 1;
    }
    if i == d0 {
        return Err(Msg::Expected(Exp::Noun(ty)));
    }
    if neg {
        v = -v;
    }
    if v < lo || v > hi {
        let why = if v > hi {
            "number too large to fit in target type"
        } else {
            "number too small to fit in target type"
        };
        return Err(Msg::FromStr(s[..i].to_string(), ty, why.to_string()));
    }
    Ok((i, Val::N(v)))
}

/// Model of a whole parse.
pub struct Whole {
    pub result: Result<Val, (usize, Msg)>,
    pub steps: u64,
    pub capped: bool,
}
pub fn parse(g: &G, src: &str) -> Whole {
    parse_as(g, src, false)
}
pub fn parse_as(g: &G, src: &str, whole: bool) -> Whole {
    let mut m = Model::new();
    m.whole = whole;
    let mut cx = Cx { src, best: None };
    let mut got = None;
    m.run(g, &Scope(None), &mut cx, 0, &mut |_, cx, e, v| {
        if e == cx.src.len() {
            got = Some(if whole { one(v) } else { v });
            true
        } else {
            cx.fail(e, Msg::Extra)
        }
    });
    let capped = m.capped();
    Whole {
        result: match got {
            Some(v) => Ok(v),
            None if capped => Err((0, Msg::Extra)),
            None => Err(cx.best.expect("a failure without a reason")),
        },
        steps: m.steps,
        capped,
    }
}

/// Every match from `at`, in order. `None` if there are too many to list.
pub fn all(g: &G, src: &str, at: usize, max: usize) -> Option<Vec<(usize, Val)>> {
    all_as(g, src, at, max, false)
}
pub fn all_as(g: &G, src: &str, at: usize, max: usize, whole: bool) -> Option<Vec<(usize, Val)>> {
    let mut m = Model::new();
    m.whole = whole;
    let mut cx = Cx { src, best: None };
    let mut out = vec![];
    m.run(g, &Scope(None), &mut cx, at, &mut |_, _, e, v| {
        out.push((e, if whole { one(v) } else { v }));
        out.len() > max
    });
    if m.capped() || out.len() > max {
        None
    } else {
        Some(out)
    }
}

/// Conversions in a value, in the order they run: left to right, inner first.
pub fn conversions(v: &Val, out: &mut Vec<(u8, Val)>) {
    match v {
        Val::T(x) | Val::L(x) | Val::BSet(x) | Val::Deq(x) => {
            for y in x {
                conversions(y, out);
            }
        }
        Val::O(Some(x)) => conversions(x, out),
        Val::M(n, x) => {
            conversions(x, out);
            out.push((*n, (**x).clone()));
        }
        _ => {}
    }
}
