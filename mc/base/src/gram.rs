//! Pattern syntax trees, their printed forms, and exhaustive enumeration.
use std::fmt::Write;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cls {
    Alpha,
    Alnum,
    Upper,
    Lower,
    Any,
    Digit,
    DigitBin,
    DigitHex,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Num {
    U8,
    I8,
    U8Hex,
    I32,
    Usize,
    Bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Coll {
    HSet,
    BSet,
    Deq,
    HMap,
    BMap,
}

pub type P = Arc<G>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum G {
    Empty,
    Lit(&'static str),
    Ch(char),
    Cls(Cls),
    CharOf(&'static str),
    Num(Num),
    Seq(P, P),
    Seq3(P, P, P),
    Alt(P, P),
    Alt3(P, P, P),
    /// 4 to 8 elements
    SeqN(Vec<P>),
    /// 4 to 8 arms
    AltN(Vec<P>),
    Star(P),
    Plus(P),
    Opt(P),
    RepSep(P, P),
    Str(P),
    Line(P),
    Lines(P),
    Section(P),
    Sections(P),
    Map(u8, P),
    Paren(P),
    /// borrowed: `&p`
    Ref_(P),
    /// rules and entry pattern
    Rules(Vec<P>, P),
    /// (how many rule sets out, index of the rule)
    Rule(u8, u8),
    /// list of elements (and separator) collected
    Coll(Coll, P, Option<P>),
    /// list of key/value pairs collected
    CollMap(Coll, P, P),
    /// a parser written by the user: see dynp.rs
    Script(Script),
    /// a combinator written by the user: see own.rs
    Own(Own, Vec<P>),
}
/// Matches `ends[0]` characters, then when asked again `ends[1]`, and so on
/// (those that go past the end of the text are left out); when it has no
/// more, reports that it failed `far` characters on.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Script {
    pub id: u8,
    pub far: u8,
    pub ends: Vec<u8>,
}
pub use crate::own::Own;
use G::*;

impl G {
    pub fn kids(&self) -> Vec<&P> {
        match self {
            Empty | Lit(_) | Ch(_) | Cls(_) | CharOf(_) | Num(_) | Rule(..) | Script(_) => vec![],
            Seq(a, b) | Alt(a, b) | RepSep(a, b) | CollMap(_, a, b) => vec![a, b],
            Seq3(a, b, c) | Alt3(a, b, c) => vec![a, b, c],
            Star(a) | Plus(a) | Opt(a) | Str(a) | Line(a) | Lines(a) | Section(a) | Sections(a)
            | Map(_, a) | Paren(a) | Ref_(a) => vec![a],
            SeqN(v) | AltN(v) | Own(_, v) => v.iter().collect(),
            Rules(rs, e) => rs.iter().chain([e]).collect(),
            Coll(_, a, None) => vec![a],
            Coll(_, a, Some(b)) => vec![a, b],
        }
    }
    /// The same node over other sub-patterns.
    pub fn map_kids(&self, r: &mut dyn FnMut(&P) -> P) -> G {
        match self {
            Empty | Lit(_) | Ch(_) | Cls(_) | CharOf(_) | Num(_) | Rule(..) | Script(_) => self.clone(),
            Seq(a, b) => Seq(r(a), r(b)),
            Seq3(a, b, c) => Seq3(r(a), r(b), r(c)),
            Alt(a, b) => Alt(r(a), r(b)),
            Alt3(a, b, c) => Alt3(r(a), r(b), r(c)),
            SeqN(v) => SeqN(v.iter().map(r).collect()),
            AltN(v) => AltN(v.iter().map(&mut *r).collect()),
            Own(k, v) => Own(*k, v.iter().map(r).collect()),
            Star(a) => Star(r(a)),
            Plus(a) => Plus(r(a)),
            Opt(a) => Opt(r(a)),
            RepSep(a, b) => RepSep(r(a), r(b)),
            Str(a) => Str(r(a)),
            Line(a) => Line(r(a)),
            Lines(a) => Lines(r(a)),
            Section(a) => Section(r(a)),
            Sections(a) => Sections(r(a)),
            Map(n, a) => Map(*n, r(a)),
            Paren(a) => Paren(r(a)),
            Ref_(a) => Ref_(r(a)),
            Rules(rs, e) => {
                let rs = rs.iter().map(&mut *r).collect();
                Rules(rs, r(e))
            }
            Coll(k, a, b) => {
                let a = r(a);
                Coll(*k, a, b.as_ref().map(r))
            }
            CollMap(k, a, b) => CollMap(*k, r(a), r(b)),
        }
    }
    pub fn size(&self) -> usize {
        1 + self.kids().iter().map(|k| k.size()).sum::<usize>()
    }
    pub fn any(&self, f: &dyn Fn(&G) -> bool) -> bool {
        f(self) || self.kids().iter().any(|k| k.any(f))
    }
    /// Could match the empty text (conservative: rule references count as yes).
    pub fn nullable(&self) -> bool {
        match self {
            Empty | Star(_) | Opt(_) | RepSep(..) | Lines(_) | Sections(_) => true,
            Lit(s) => s.is_empty(),
            Ch(_) | Cls(_) | CharOf(_) | Num(_) | Line(_) | Section(_) => false,
            Seq(a, b) => a.nullable() && b.nullable(),
            Seq3(a, b, c) => a.nullable() && b.nullable() && c.nullable(),
            Alt(a, b) => a.nullable() || b.nullable(),
            Alt3(a, b, c) => a.nullable() || b.nullable() || c.nullable(),
            SeqN(v) => v.iter().all(|x| x.nullable()),
            AltN(v) => v.iter().any(|x| x.nullable()),
            Plus(a) | Str(a) | Map(_, a) | Paren(a) | Ref_(a) => a.nullable(),
            Rules(_, _) | Rule(..) => true,
            Coll(..) | CollMap(..) => true,
            Script(s) => s.ends.contains(&0),
            Own(k, v) => match k {
                self::Own::Peek | self::Own::Not | self::Own::Lazy => true,
                self::Own::Twice | self::Own::Whole => v[0].nullable(),
                self::Own::Both => v[0].nullable() && v[1].nullable(),
                self::Own::Or => v[0].nullable() || v[1].nullable(),
            },
        }
    }
    /// As it would be written in `parser!(...)`. `top` positions need no grouping.
    pub fn src(&self) -> String {
        let mut s = String::new();
        self.w(&mut s, 0);
        s
    }
    // prec 0: anything; 1: element of a sequence; 2: operand of a quantifier
    fn w(&self, o: &mut String, prec: u8) {
        let un = |o: &mut String, f: &str, p: &P| {
            let _ = write!(o, "{f}(");
            p.w(o, 0);
            o.push(')');
        };
        match self {
            Empty => o.push_str("()"),
            Lit(s) => {
                let _ = write!(o, "{s:?}");
            }
            Ch(c) => {
                let _ = write!(o, "{c:?}");
            }
            Cls(c) => o.push_str(match c {
                self::Cls::Alpha => "alpha",
                self::Cls::Alnum => "alnum",
                self::Cls::Upper => "upper",
                self::Cls::Lower => "lower",
                self::Cls::Any => "any_char",
                self::Cls::Digit => "digit",
                self::Cls::DigitBin => "digit_bin",
                self::Cls::DigitHex => "digit_hex",
            }),
            CharOf(s) => {
                let _ = write!(o, "char_of({s:?})");
            }
            Num(n) => o.push_str(match n {
                self::Num::U8 => "u8",
                self::Num::I8 => "i8",
                self::Num::U8Hex => "u8_hex",
                self::Num::I32 => "i32",
                self::Num::Usize => "usize",
                self::Num::Bool => "bool",
            }),
            Seq(..) | Seq3(..) | SeqN(..) => {
                if prec > 0 {
                    o.push('(');
                }
                for (i, k) in self.kids().iter().enumerate() {
                    if i > 0 {
                        o.push(' ');
                    }
                    k.w(o, 1);
                }
                if prec > 0 {
                    o.push(')');
                }
            }
            Alt(..) | Alt3(..) | AltN(..) => {
                o.push('{');
                for (i, k) in self.kids().iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    k.w(o, 0);
                }
                o.push('}');
            }
            Star(p) => {
                p.w(o, 2);
                o.push('*');
            }
            Plus(p) => {
                p.w(o, 2);
                o.push('+');
            }
            Opt(p) => {
                if matches!(**p, Star(_) | Plus(_)) {
                    o.push('(');
                    p.w(o, 0);
                    o.push(')');
                } else {
                    p.w(o, 2);
                }
                o.push('?');
            }
            RepSep(p, s) => {
                o.push_str("repeat_sep(");
                p.w(o, 0);
                o.push_str(", ");
                s.w(o, 0);
                o.push(')');
            }
            Str(p) => un(o, "string", p),
            Line(p) => un(o, "line", p),
            Lines(p) => un(o, "lines", p),
            Section(p) => un(o, "section", p),
            Sections(p) => un(o, "sections", p),
            Map(n, p) => {
                o.push_str("(v:");
                p.w(o, 2);
                let _ = write!(o, " => conv{n}(v))");
            }
            Paren(p) => {
                o.push('(');
                p.w(o, 0);
                o.push(')');
            }
            Ref_(p) => un(o, "borrowed", p),
            Rules(rs, e) => {
                if prec > 0 {
                    o.push_str("named_parser!");
                }
                o.push('(');
                for (i, r) in rs.iter().enumerate() {
                    let _ = write!(o, "rule r{i}: _ = ");
                    r.w(o, 0);
                    o.push_str("; ");
                }
                e.w(o, 0);
                o.push(')');
            }
            Rule(d, i) => {
                for _ in 0..*d {
                    o.push_str("outer_");
                }
                let _ = write!(o, "r{i}");
            }
            Own(k, v) => {
                let _ = write!(o, "my_{}(", format!("{k:?}").to_lowercase());
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.w(o, 0);
                }
                o.push(')');
            }
            Script(s) => {
                let _ = write!(o, "user{}_{:?}_{}", s.id, s.ends, s.far);
            }
            Coll(c, p, s) => {
                let _ = write!(o, "{}(", cname(*c));
                match s {
                    None => {
                        p.w(o, 2);
                        o.push('*');
                    }
                    Some(s) => {
                        o.push_str("repeat_sep(");
                        p.w(o, 0);
                        o.push_str(", ");
                        s.w(o, 0);
                        o.push(')');
                    }
                }
                o.push(')');
            }
            CollMap(c, k, v) => {
                let _ = write!(o, "{}((", cname(*c));
                k.w(o, 1);
                o.push(' ');
                v.w(o, 1);
                o.push_str(")*)");
            }
        }
    }
}
fn cname(c: Coll) -> &'static str {
    match c {
        self::Coll::HSet => "hash_set",
        self::Coll::BSet => "btree_set",
        self::Coll::Deq => "vec_deque",
        self::Coll::HMap => "hash_map",
        self::Coll::BMap => "btree_map",
    }
}

pub fn p(g: G) -> P {
    Arc::new(g)
}

/// Operators of an exhaustive enumeration.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Star,
    Plus,
    Opt,
    Str,
    Line,
    Lines,
    Section,
    Sections,
    Map,
    Paren,
    Ref,
    Seq,
    Alt,
    RepSep,
    /// the pattern as the only rule of a rule set, used as its entry
    RuleWrap,
    CSet,
    Own(Own),
}
pub fn apply1(op: Op, a: &P) -> G {
    let a = a.clone();
    match op {
        Op::Star => Star(a),
        Op::Plus => Plus(a),
        Op::Opt => Opt(a),
        Op::Str => Str(a),
        Op::Line => Line(a),
        Op::Lines => Lines(a),
        Op::Section => Section(a),
        Op::Sections => Sections(a),
        Op::Map => Map(0, a),
        Op::Paren => Paren(a),
        Op::Ref => Ref_(a),
        Op::RuleWrap => Rules(vec![a], p(Rule(0, 0))),
        Op::CSet => Coll(self::Coll::HSet, a, None),
        Op::Own(k) => Own(k, vec![a]),
        _ => unreachable!(),
    }
}
pub fn apply2(op: Op, a: &P, b: &P) -> G {
    match op {
        Op::Seq => Seq(a.clone(), b.clone()),
        Op::Alt => Alt(a.clone(), b.clone()),
        Op::RepSep => RepSep(a.clone(), b.clone()),
        Op::Own(k) => Own(k, vec![a.clone(), b.clone()]),
        _ => unreachable!(),
    }
}

/// All patterns with exactly `n` nodes for each n in `1..=max`, over the given
/// leaves and operators (index 0 of the result is empty).
pub fn by_size(leaves: &[G], un: &[Op], bin: &[Op], max: usize) -> Vec<Vec<P>> {
    let mut out: Vec<Vec<P>> = vec![vec![]];
    for n in 1..=max {
        let mut v: Vec<P> = vec![];
        if n == 1 {
            v.extend(leaves.iter().map(|g| p(g.clone())));
        } else {
            for op in un {
                for a in &out[n - 1] {
                    v.push(p(apply1(*op, a)));
                }
            }
            for op in bin {
                for i in 1..n - 1 {
                    for a in &out[i] {
                        for b in &out[n - 1 - i] {
                            v.push(p(apply2(*op, a, b)));
                        }
                    }
                }
            }
        }
        out.push(v);
    }
    out
}
pub fn upto(leaves: &[G], un: &[Op], bin: &[Op], max: usize) -> Vec<P> {
    by_size(leaves, un, bin, max).concat()
}

/// Every string over `alpha` of length `0..=n` (in pieces of `alpha`), shortest first.
pub fn strings(alpha: &[&str], n: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut last = out.clone();
    for _ in 0..n {
        let mut next = Vec::with_capacity(last.len() * alpha.len());
        for s in &last {
            for a in alpha {
                next.push(format!("{s}{a}"));
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// Rule names reachable at the left edge without consuming anything: used to
/// leave out left-recursive rule sets (documented as unsupported).
pub fn left_recursive(rules: &[P]) -> bool {
    // nullability of rules by fixpoint
    let n = rules.len();
    let mut null = vec![false; n];
    loop {
        let mut ch = false;
        for i in 0..n {
            if !null[i] && gnull(&rules[i], &null) {
                null[i] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    let mut edge = vec![vec![false; n]; n];
    for i in 0..n {
        left(&rules[i], &null, &mut edge[i]);
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if edge[i][k] && edge[k][j] {
                    edge[i][j] = true;
                }
            }
        }
    }
    (0..n).any(|i| edge[i][i])
}
fn gnull(g: &G, null: &[bool]) -> bool {
    match g {
        Rule(0, i) => null[*i as usize],
        Seq(a, b) => gnull(a, null) && gnull(b, null),
        Seq3(a, b, c) => gnull(a, null) && gnull(b, null) && gnull(c, null),
        Alt(a, b) => gnull(a, null) || gnull(b, null),
        Alt3(a, b, c) => gnull(a, null) || gnull(b, null) || gnull(c, null),
        SeqN(v) => v.iter().all(|x| gnull(x, null)),
        AltN(v) => v.iter().any(|x| gnull(x, null)),
        Plus(a) | Str(a) | Map(_, a) | Paren(a) | Ref_(a) => gnull(a, null),
        Rules(_, _) | Rule(..) => true,
        g => g.nullable(),
    }
}
fn left(g: &G, null: &[bool], out: &mut Vec<bool>) {
    match g {
        Rule(0, i) => out[*i as usize] = true,
        Seq(a, b) => {
            left(a, null, out);
            if gnull(a, null) {
                left(b, null, out);
            }
        }
        Seq3(a, b, c) => {
            left(a, null, out);
            if gnull(a, null) {
                left(b, null, out);
                if gnull(b, null) {
                    left(c, null, out);
                }
            }
        }
        SeqN(v) => {
            for x in v {
                left(x, null, out);
                if !gnull(x, null) {
                    break;
                }
            }
        }
        RepSep(a, b) => {
            left(a, null, out);
            if gnull(a, null) {
                left(b, null, out);
            }
        }
        // everything else: any sub-pattern may start at the same place
        g => {
            for k in g.kids() {
                left(k, null, out);
            }
        }
    }
}

/// Stands for the hole in a context.
pub const HOLE: G = Ch('\u{0}');
