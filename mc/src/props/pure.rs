//! P17: parsing is a pure function of pattern and input. Histories of parses,
//! of parser objects, of parses inside conversions, of interleaved iterators;
//! and all schedules (with a bounded number of switches) of two threads.
use super::*;
use crate::dynp::{self, Bx};
use crate::gram::{Cls, Num};
use crate::sched::{self, Stop};
use crate::val::{ToVal, Val};
use aoc_parse::{parser, prelude::*, ParseContext, ParseError, ParseIter, Reported};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use G::{Alt, Ch, Empty, Lit, Map, Opt, RepSep, Rule, Rules, Seq, Star, Str};

fn show<T: ToVal>(s: &str, r: Result<T, ParseError>) -> String {
    match r {
        Ok(v) => format!("Ok {}", v.to_val()),
        Err(e) => {
            let d = format!("{e:?}");
            if d.contains("source") && !e.source.eq(s) {
                return format!("Err with another source: {d}");
            }
            format!("Err {} {e}", e.location)
        }
    }
}

type Fun = Box<dyn Fn(&str) -> String>;

macro_rules! fun {
    ($($p:tt)*) => {{
        let q = parser!($($p)*);
        (stringify!($($p)*).split_whitespace().collect::<Vec<_>>().join(" "), Box::new(move |s: &str| show(s, q.parse(s))) as Fun)
    }};
}
/// A parser of each kind.
fn funs() -> Vec<(String, Fun)> {
    vec![
        fun!(lines(u64)),
        fun!(sections(lines(repeat_sep(i8, ",")))),
        fun!(rule item: usize = { '(' v:items ')' => v + 1, "x" => 0 }; rule items: usize = v:item* => v.len(); items),
        fun!({string(alpha+), x:u8_hex => format!("hex {x}")}),
        fun!((alpha digit)* any_char),
        fun!(hash_set(alpha*)),
        fun!(f64),
        fun!(repeat_sep(string(alpha*), ',')),
        fun!(char_of("ab\n")* line(any_char*)),
        fun!((a:alpha? b:bool? => (b, a))*),
    ]
}
const TEXTS: &[&str] = &["12\n3\n", "", "1,-2\n\n3", "(()())", "a1b2\n", "ab,é", "1e3", "(("];

/// Every piece that uses a shared regular expression, and a few that do not.
macro_rules! pieces {
    ($($name:ident)*) => {
        const PIECES: &[&str] = &[$(stringify!($name)),*];
        fn piece(name: &str, s: &str) -> String {
            match name {
                $( stringify!($name) => { let q = parser!($name); show(s, q.parse(s)) } )*
                _ => unreachable!(),
            }
        }
    };
}
pieces!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize
        u8_bin i8_bin u64_bin i64_bin u8_hex i8_hex u64_hex i64_hex
        big_int big_uint big_int_bin big_uint_bin big_int_hex big_uint_hex
        f32 f64 bool alpha alnum upper lower digit digit_bin digit_hex any_char);
const PIECE_TEXTS: &[&str] = &["1", "-1", "10", "fF", "1.5", "true", "A", "2"];

/// `words`: pieces or numbers of `funs`, separated by commas, each parsing the
/// text of the same position; one result per line.
pub fn first(words: &str, texts: &str) -> String {
    let f = if words.contains('#') { funs() } else { vec![] };
    let mut o = String::new();
    for (w, t) in words.split(',').zip(texts.split('|')) {
        let r = match w.strip_prefix('#') {
            Some(n) => f[n.parse::<usize>().unwrap()].1(t),
            None => piece(w, t),
        };
        o.push_str(&format!("{r:?}\n"));
    }
    o
}
fn fresh(words: &str, texts: &str) -> Vec<String> {
    let out = std::process::Command::new(std::env::current_exe().unwrap()).args(["first", words, texts]).output().expect("cannot start a process");
    String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect()
}

fn table() -> HashMap<(usize, usize), String> {
    let mut m = HashMap::new();
    for i in 0..funs().len() {
        for (j, s) in TEXTS.iter().enumerate() {
            let l = fresh(&format!("#{i}"), s);
            m.insert((i, j), l.first().cloned().unwrap_or_else(|| "the process died".into()));
        }
    }
    m
}

fn parse_histories(t: Tier) -> Part {
    let n = funs().len() * TEXTS.len();
    let want = std::sync::OnceLock::new();
    // a unit: the first operation; an operation: parser, text, own text or one shared buffer
    list(
        "histories of parses",
        &format!("all sequences of {} parses out of {} parsers x {} texts, and of {} with the text in its own place or in one re-used buffer; each result equals that of the same parse done first in a new process", t.pick(3, 4), funs().len(), TEXTS.len(), t.pick(2, 3)),
        (0..n).collect(),
        move |cx, op0| {
            let want = want.get_or_init(table);
            let fs = funs();
            let mut buf = String::with_capacity(64);
            let mut run = |cx: &mut Ctx, seq: &[usize], places: usize| {
                let name = || {
                    seq.iter()
                        .enumerate()
                        .map(|(k, o)| format!("parser!({}) on {:?}{}", fs[o / TEXTS.len()].0, TEXTS[o % TEXTS.len()], if places >> k & 1 == 1 { " in the shared buffer" } else { "" }))
                        .collect::<Vec<_>>()
                        .join(", then ")
                };
                if !cx.case(name) {
                    return;
                }
                for (k, o) in seq.iter().enumerate() {
                    let (i, j) = (o / TEXTS.len(), o % TEXTS.len());
                    let s = if places >> k & 1 == 1 {
                        buf.clear();
                        buf.push_str(TEXTS[j]);
                        &buf[..]
                    } else {
                        TEXTS[j]
                    };
                    let got = match guarded(u64::MAX, || format!("{:?}", fs[i].1(s))) {
                        Ok(g) => g,
                        Err(o) => o.show(),
                    };
                    cx.executions += 1;
                    cx.transitions += 1;
                    if got != want[&(i, j)] {
                        cx.fail(format!("{}:\n  the last gave {got}\n  but first in a new process {}", name(), want[&(i, j)]));
                        return;
                    }
                }
                cx.states += seq.len() as u64;
                cx.accepted += 1;
                if seq.len() == 3 {
                    cx.sample(name);
                }
            };
            let mut seqs = vec![vec![*op0]];
            for _ in 1..t.pick(3, 4) {
                for s in &seqs {
                    if cx.viol.is_none() {
                        run(cx, s, 0);
                        if s.len() <= t.pick(2, 3) {
                            for places in 1..1usize << s.len() {
                                run(cx, s, places);
                            }
                        }
                    }
                }
                seqs = seqs.iter().flat_map(|s| (0..n).map(move |o| { let mut s = s.clone(); s.push(o); s })).collect();
            }
            for s in &seqs {
                run(cx, s, 0);
                if cx.viol.is_some() {
                    return;
                }
            }
        },
    )
}

fn first_uses(t: Tier) -> Part {
    let mut solo: Vec<Vec<String>> = vec![];
    let _ = &mut solo;
    let all: Vec<usize> = (0..PIECES.len()).collect();
    let texts: String = PIECE_TEXTS.join("|");
    let every = move |i: usize| -> Vec<String> {
        let w = vec![PIECES[i]; PIECE_TEXTS.len()].join(",");
        fresh(&w, &texts)
    };
    let alone = std::sync::OnceLock::<Vec<Vec<String>>>::new();
    list(
        "first use in a process",
        &format!("every ordered pair (thorough: also with a third in between) of {} pieces, the first to be used in a new process; {} texts", PIECES.len(), PIECE_TEXTS.len()),
        all,
        move |cx, i| {
            let alone = alone.get_or_init(|| (0..PIECES.len()).map(&every).collect());
            if !cx.case(|| format!("{} used first in a new process", PIECES[*i])) {
                return;
            }
            if alone[*i].len() != PIECE_TEXTS.len() {
                cx.fail(format!("{} used first in a new process: the process died", PIECES[*i]));
                return;
            }
            let mids: Vec<Option<usize>> = match t {
                Tier::Quick => vec![None],
                Tier::Thorough => std::iter::once(None).chain((0..PIECES.len()).map(Some)).collect(),
            };
            for j in 0..PIECES.len() {
                // one process: i on every text, (m on every text,) then j on every text
                for m in &mids {
                    let mut order = vec![*i];
                    order.extend(m.iter());
                    order.push(j);
                    let name = || format!("a new process using {}", order.iter().map(|k| PIECES[*k]).collect::<Vec<_>>().join(" then "));
                    if !cx.case(name) {
                        return;
                    }
                    let words: Vec<&str> = order.iter().flat_map(|k| vec![PIECES[*k]; PIECE_TEXTS.len()]).collect();
                    let texts: Vec<&str> = order.iter().flat_map(|_| PIECE_TEXTS.to_vec()).collect();
                    let got = fresh(&words.join(","), &texts.join("|"));
                    let want: Vec<String> = order.iter().flat_map(|k| alone[*k].clone()).collect();
                    cx.executions += got.len() as u64;
                    cx.states += got.len() as u64;
                    cx.transitions += got.len() as u64;
                    if got != want {
                        let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len());
                        cx.fail(format!(
                            "{}: {} on {:?} gave {} there, but {} when only that piece is used",
                            name(),
                            words.get(k).unwrap_or(&"?"),
                            texts.get(k).unwrap_or(&"?"),
                            got.get(k).map_or("nothing (the process died)", |s| s),
                            want.get(k).map_or("", |s| s)
                        ));
                        return;
                    }
                    cx.accepted += 1;
                    cx.outcome(&got);
                }
            }
        },
    )
}

// ---- parser objects: created, copied, moved, borrowed, dropped

fn obj(kind: usize) -> impl Parser<Output = Vec<(char, usize)>> + Copy {
    // one Rust type, three languages
    let (lit, opts) = [("a", "xy"), ("ab", "yx"), ("b", "xé")][kind];
    let (c, o) = (['-', '+', 'é'][kind], char_of(opts));
    parser!((lit k:o z:c? => (if z.is_some() { '+' } else { '.' }, k))*)
}
const OBJ_TEXTS: &[&str] = &["", "ax", "aby", "bé", "ax-ay", "abx+aby+", "béébxébé", "axaby", "ay-", "q"];
fn obj_want(kind: usize, s: &str) -> Option<Vec<(char, usize)>> {
    let (lit, opts) = [("a", "xy"), ("ab", "yx"), ("b", "xé")][kind];
    let c = ['-', '+', 'é'][kind];
    let mut v = vec![];
    let mut r = s;
    while !r.is_empty() {
        r = r.strip_prefix(lit)?;
        let x = r.chars().next()?;
        let k = opts.chars().position(|y| y == x)?;
        r = &r[x.len_utf8()..];
        match r.strip_prefix(c) {
            Some(q) => {
                r = q;
                v.push(('+', k));
            }
            None => v.push(('.', k)),
        }
    }
    Some(v)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ob {
    New(usize, usize),
    Copy(usize),
    Swap,
    Rebox(usize),
    Drop(usize),
    Borrow(usize),
    Both,
    /// start stepping through matches, and drop the iterator part way
    Abandon(usize),
    Panic(usize),
}
fn obj_history(ops: &[Ob], count: &mut u64) -> Result<(), String> {
    fn go<P: Parser<Output = Vec<(char, usize)>> + Copy>(mk: fn(usize) -> P, ops: &[Ob], count: &mut u64) -> Result<(), String> {
        let mut slots: [Option<(usize, Box<P>)>; 2] = [None, None];
        let tries = |k: usize, q: &P, count: &mut u64| -> Result<(), String> {
            for s in OBJ_TEXTS {
                *count += 1;
                let (got, want) = (q.parse(s).ok(), obj_want(k, s));
                if got != want {
                    return Err(format!("parser {k} on {s:?}: expected {want:?}, got {got:?}"));
                }
            }
            Ok(())
        };
        for op in ops {
            match *op {
                Ob::New(k, i) => slots[i] = Some((k, Box::new(mk(k)))),
                Ob::Copy(i) => {
                    let c = slots[i].as_ref().map(|(k, b)| (*k, Box::new(**b)));
                    slots[1 - i] = c;
                }
                Ob::Swap => slots.swap(0, 1),
                Ob::Rebox(i) => {
                    if let Some((k, b)) = slots[i].take() {
                        let v = *b;
                        tries(k, &v, count)?;
                        slots[i] = Some((k, Box::new(v)));
                    }
                }
                Ob::Drop(i) => slots[i] = None,
                Ob::Borrow(i) => {
                    if let Some((k, b)) = &slots[i] {
                        let r = &**b;
                        let q = parser!(r);
                        let q2 = &q;
                        for s in OBJ_TEXTS {
                            *count += 1;
                            let want = obj_want(*k, s);
                            let got = parser!(q2).parse(s).ok();
                            if got != want {
                                return Err(format!("a borrow of parser {k} on {s:?}: expected {want:?}, got {got:?}"));
                            }
                        }
                    }
                }
                Ob::Both => {
                    if let [Some((i, a)), Some((j, b))] = &slots {
                        let (x, y) = (**a, **b);
                        let q = parser!(u:x ";" v:y => (u, v));
                        for s in OBJ_TEXTS {
                            for r in OBJ_TEXTS {
                                *count += 1;
                                let want = obj_want(*i, s).zip(obj_want(*j, r));
                                let got = q.parse(&format!("{s};{r}")).ok();
                                if got != want {
                                    return Err(format!("parsers {i} \";\" {j} on {s:?};{r:?}: expected {want:?}, got {got:?}"));
                                }
                            }
                        }
                    }
                }
                Ob::Abandon(i) => {
                    if let Some((_, b)) = &slots[i] {
                        for s in ["ax-ay", "abx+aby+", "béébxébé"] {
                            let mut pc = ParseContext::new(s);
                            if let Ok(mut it) = b.parse_iter(&mut pc, 0) {
                                let _ = it.backtrack(&mut pc);
                            }
                            let mut pc = ParseContext::new(s);
                            std::mem::forget(b.parse_iter(&mut pc, 0));
                        }
                    }
                }
                Ob::Panic(i) => {
                    if let Some((_, b)) = &slots[i] {
                        let r = &**b;
                        let q = parser!(v:r => { if v.len() < 9 { std::panic::panic_any("conversion") } v });
                        for s in OBJ_TEXTS {
                            let _ = catch_unwind(AssertUnwindSafe(|| q.parse(s).is_ok()));
                        }
                    }
                }
            }
            for (k, b) in slots.iter().flatten() {
                tries(*k, b, count)?;
            }
        }
        Ok(())
    }
    go(obj, ops, count)
}
fn object_histories(t: Tier) -> Part {
    let mut ops = vec![Ob::Swap, Ob::Both];
    for i in 0..2 {
        for k in 0..3 {
            ops.push(Ob::New(k, i));
        }
        ops.extend([Ob::Copy(i), Ob::Rebox(i), Ob::Drop(i), Ob::Borrow(i), Ob::Abandon(i), Ob::Panic(i)]);
    }
    let depth = t.pick(4, 5);
    let heads: Vec<(Ob, Ob)> = ops.iter().filter(|o| matches!(o, Ob::New(..))).flat_map(|a| ops.iter().map(move |b| (*a, *b))).collect();
    list(
        "histories of parser objects",
        &format!("every sequence of {depth} operations out of {} (create one of 3 of the same type in one of 2 places, copy, swap, re-box, drop, borrow, combine, abandon an iterator, panic in a conversion), every live parser tried on {} texts after each", ops.len(), OBJ_TEXTS.len()),
        heads,
        move |cx, (a, b)| {
            let mut seqs: Vec<Vec<Ob>> = vec![vec![*a, *b]];
            for _ in 2..depth {
                seqs = seqs.into_iter().flat_map(|s| ops.iter().map(move |o| { let mut s = s.clone(); s.push(*o); s })).collect();
            }
            for s in seqs {
                if !cx.case(|| format!("history {s:?}")) {
                    return;
                }
                let mut count = 0;
                match guarded(u64::MAX, || obj_history(&s, &mut count)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => cx.fail(format!("after the operations {s:?}: {e}")),
                    Err(o) => cx.fail(format!("after the operations {s:?}: {}", o.show())),
                }
                cx.executions += count;
                cx.states += s.len() as u64;
                cx.transitions += s.len() as u64;
                cx.accepted += 1;
                cx.sample(|| format!("history {s:?}: {count} parses as expected"));
            }
        },
    )
}

// ---- parses made from inside a conversion

fn nested(t: Tier) -> Part {
    let pats = inner_pats();
    let texts = strings(&["a", "b", "\n"], t.pick(4, 5));
    let b = format!("outer parse x inner parse made in each of its conversions, and once more while that one converts: {} patterns x {} texts each", pats.len(), texts.len());
    list("parses inside conversions", &b, pats.clone(), move |cx, g| {
        let outer = dynp::build(&p(Map(0, g.clone())));
        for h in &pats {
            let inner = dynp::build(h);
            for s in &texts {
                if !cx.case(|| format!("parser!(v:{} => ..) on {s:?} parsing with {} in the conversion", g.src(), h.src())) {
                    return;
                }
                let solo_o = real_parse(&outer, s, u64::MAX).show();
                // inner texts: the same one (in the same place), and every other
                let mut solo_i: Vec<String> = vec![];
                for u in &texts {
                    solo_i.push(real_parse(&inner, u, u64::MAX).show());
                }
                let got_i = std::cell::RefCell::new(vec![]);
                let conv = |v: Val| {
                    for u in &texts {
                        let r = match inner.parse(u) {
                            Ok(v) => Out::Ok(v),
                            Err(e) => Out::Err(e),
                        };
                        got_i.borrow_mut().push(r.show());
                    }
                    v
                };
                let o2 = outer.clone();
                let q = parser!(v:o2 => conv(v));
                let r = guarded(u64::MAX, || q.parse(s));
                cx.executions += 2 + 2 * texts.len() as u64;
                cx.states += 1;
                cx.transitions += texts.len() as u64;
                let got_o = match r {
                    Ok(Ok(v)) => Out::Ok(v).show(),
                    Ok(Err(e)) => Out::Err(e).show(),
                    Err(o) => o.show(),
                };
                if got_o != solo_o {
                    cx.fail(format!("parser!({}) on {s:?} gave {solo_o} alone, but {got_o} when its conversion parses with {}", g.src(), h.src()));
                }
                let got_i = got_i.into_inner();
                if !got_i.is_empty() && got_i != solo_i {
                    let k = got_i.iter().zip(&solo_i).position(|(a, b)| a != b).unwrap();
                    cx.fail(format!("parser!({}) on {:?} gave {} alone, but {} inside a conversion of parser!({}) on {s:?}", h.src(), texts[k], solo_i[k], got_i[k], g.src()));
                }
                if got_i.is_empty() {
                    cx.rejected += 1;
                } else {
                    cx.accepted += 1;
                    cx.outcome(&got_i);
                }
            }
        }
    })
}
fn inner_pats() -> Vec<P> {
    let a = p(Ch('a'));
    let b = p(Ch('b'));
    let any = p(G::Cls(Cls::Any));
    let r = p(Rule(0, 0));
    vec![
        p(Star(a.clone())),
        p(Alt(p(Seq(a.clone(), b.clone())), p(Star(any.clone())))),
        p(Str(p(Star(any.clone())))),
        p(G::Lines(p(Star(p(Map(1, a.clone())))))),
        p(G::Sections(p(G::Lines(p(Str(p(G::Plus(any.clone())))))))),
        p(Seq(p(Opt(p(Map(1, a.clone())))), p(Map(2, p(Star(b.clone())))))),
        p(RepSep(p(G::Cls(Cls::Alpha)), p(Lit("\n")))),
        p(Rules(vec![p(Alt(p(Seq(a.clone(), r.clone())), p(Map(3, b.clone()))))], r.clone())),
        p(Rules(vec![p(Opt(p(Seq(b.clone(), r.clone()))))], p(G::Line(r.clone())))),
        p(G::Coll(crate::gram::Coll::BSet, any.clone(), None)),
        p(G::Num(Num::U8)),
        p(Empty),
        // rules looked up again on backtracking, in and around slices
        p(Rules(vec![p(Alt(p(Seq(a.clone(), r.clone())), p(Alt(p(Empty), p(Seq(any.clone(), r.clone()))))))], r.clone())),
        p(Rules(vec![p(Map(4, a.clone()))], p(Alt(p(Seq(any.clone(), b.clone())), p(Star(p(Alt(r.clone(), b.clone())))))))),
        p(Rules(vec![p(Alt(p(Empty), p(Seq(any.clone(), r.clone()))))], p(G::Lines(p(Seq(any.clone(), r.clone())))))),
        p(Rules(vec![p(Alt(p(Rules(vec![p(Seq(b.clone(), p(Rule(1, 0))))], p(Alt(p(Empty), r.clone())))), p(Seq(a.clone(), r.clone()))))], r)),
    ]
}

// ---- a parse made in the middle of another, at each of its steps

fn reentrant(t: Tier) -> Part {
    let pats = inner_pats();
    let texts = strings(&["a", "b", "\n"], t.pick(3, 4));
    let inner_texts = ["", "ab", "a\nab", "ba"];
    let b = format!(
        "outer parse x inner parse made on the same thread in the middle of it: {0} x {0} patterns (and the same parser object), {1} x {2} texts, at every single step (protocol call or conversion) of the outer one, the inner finished or left part way",
        pats.len(),
        texts.len(),
        inner_texts.len()
    );
    list("parses in the middle of parses", &b, pats.clone(), move |cx, g| {
        let outer = dynp::build(g);
        for (hi, h) in [g.clone()].into_iter().chain(pats.iter().cloned()).enumerate() {
            let inner = if hi == 0 { outer.clone() } else { dynp::build(&h) };
            let solo_i: Vec<String> = inner_texts.iter().map(|u| real_parse(&inner, u, u64::MAX).show()).collect();
            for s in &texts {
                let (solo_o, n) = sched::with_hook(0, || {}, || real_parse(&outer, s, u64::MAX).show());
                for k in 1..=n {
                    for (ui, u) in inner_texts.iter().enumerate() {
                        for part_way in [false, true] {
                            if !cx.case(|| format!("{} on {s:?}, with a parse by {} on {u:?}{} in the middle of its step {k}", g.src(), h.src(), if part_way { " (left part way)" } else { "" })) {
                                return;
                            }
                            let mut got_i = None;
                            let (got_o, _) = sched::with_hook(
                                k,
                                || {
                                    let log = take_log();
                                    if part_way {
                                        let mut pc = ParseContext::new(u);
                                        if let Ok(it) = inner.parse_iter(&mut pc, 0) {
                                            let _ = it.convert();
                                        };
                                    } else {
                                        got_i = Some(match inner.parse(u) {
                                            Ok(v) => Out::Ok(v).show(),
                                            Err(e) => Out::Err(e).show(),
                                        });
                                    }
                                    dynp::LOG.with(|l| *l.borrow_mut() = log);
                                },
                                || real_parse(&outer, s, u64::MAX).show(),
                            );
                            cx.executions += 2;
                            cx.states += 1;
                            cx.transitions += n;
                            cx.accepted += 1;
                            if got_o != solo_o || got_i.as_ref().is_some_and(|g| *g != solo_i[ui]) || (!part_way && got_i.is_none()) {
                                cx.fail(format!(
                                    "{} on {s:?}, with a parse by {} on {u:?}{} in the middle of its step {k}:\n  alone    {solo_o} and {}\n  together {got_o} and {got_i:?}",
                                    g.src(),
                                    h.src(),
                                    if part_way { " (left part way)" } else { "" },
                                    solo_i[ui]
                                ));
                            }
                        }
                    }
                }
                cx.outcome(&(solo_o, n));
            }
        }
    })
}

// ---- the same thing very often

/// One parser on a few texts over and over, and one text after very long ones.
fn again(t: Tier) -> Part {
    let pats: Vec<P> = {
        let mut v = upto(&[Ch('a'), Lit("ab"), G::Cls(Cls::Any), G::Num(Num::U8)], &[Op::Star, Op::Opt, Op::Str, Op::Line, Op::Sections, Op::Map, Op::RuleWrap, Op::CSet], &[Op::Seq, Op::Alt, Op::RepSep], t.pick(2, 3));
        v.extend(inner_pats());
        v
    };
    let n = t.pick(70_000, 140_000);
    let b = format!("{} patterns, each on 8 texts in turn, {n} parses, by one parser and by a new one each time; and each text again after texts of up to {n} characters", pats.len());
    list("the same parses very often", &b, pats, move |cx, g| {
        let texts = ["aab", "", "a\nab", "ab", "7", "b", "a", "256"];
        let show = |b: &Bx, s: &str| real_parse(b, s, u64::MAX).show();
        let first = dynp::build(g);
        let want: Vec<String> = texts.iter().map(|s| show(&dynp::build(g), s)).collect();
        let wants: Vec<Out> = texts.iter().map(|s| real_parse(&first, s, u64::MAX)).collect();
        let same = |a: &Out, b: &Out| match (a, b) {
            (Out::Ok(v), Out::Ok(w)) => v == w,
            (Out::Err(e), Out::Err(f)) => e.location == f.location,
            _ => false,
        };
        for fresh in [false, true] {
            if !cx.case(|| format!("parser!({}), {n} times on 8 texts in turn, {}", g.src(), if fresh { "built anew each time" } else { "one parser" })) {
                return;
            }
            let _ = take_log();
            let count = if fresh { n / 4 } else { n };
            for i in 0..count {
                let k = i % texts.len();
                let b = if fresh { dynp::build(g) } else { first.clone() };
                let out = real_parse(&b, texts[k], u64::MAX);
                dynp::LOG.with(|l| l.borrow_mut().clear());
                if !same(&out, &wants[k]) || (i + 64 > count || i % 997 == 0) && out.show() != want[k] {
                    let how = if fresh { "by parsers built anew" } else { "by one parser" };
                    return cx.fail(format!("parse number {} {how}, parser!({}) on {:?}:\n  expected {}\n  got      {}", i + 1, g.src(), texts[k], want[k], out.show()));
                }
            }
            cx.executions += count as u64;
            cx.states += count as u64;
            cx.transitions += count as u64;
            cx.accepted += count as u64;
        }
        // (some patterns have exponentially many ways to match a long text)
        if model_is_slow(g) {
            return;
        }
        for long in [1000usize, 4096, 65_536, n] {
            for unit in ["a", "b", "ab", "a\n", "\n"] {
                let l = unit.repeat(long);
                for (k, s) in texts.iter().enumerate() {
                    if !cx.case(|| format!("parser!({}) on {s:?} after {long} times {unit:?}", g.src())) {
                        return;
                    }
                    let _ = real_parse(&first, &l, u64::MAX);
                    dynp::LOG.with(|l| l.borrow_mut().clear());
                    let got = show(&first, s);
                    cx.executions += 2;
                    cx.states += 2;
                    cx.transitions += 2;
                    if got != want[k] {
                        return cx.fail(format!("parser!({}) on {s:?} after a text of {long} times {unit:?}:\n  expected {}\n  got      {got}", g.src(), want[k]));
                    }
                    if k % 3 == 2 && long > 5000 {
                        break;
                    }
                }
            }
        }
        let _ = take_log();
    })
}
/// More than one repetition: may take more than linear time.
fn model_is_slow(g: &G) -> bool {
    fn loops(g: &G) -> usize {
        let own = matches!(g, G::Star(_) | G::Plus(_) | G::RepSep(..) | G::Lines(_) | G::Sections(_) | G::Coll(..) | G::CollMap(..) | G::Rules(..) | G::Rule(..)) as usize;
        own + g.kids().iter().map(|k| loops(k)).sum::<usize>()
    }
    loops(g) > 1
}

// ---- two iterators, stepped alternately

fn interleaved(t: Tier) -> Part {
    let pats: Vec<P> = {
        let mut v = upto(&[Ch('a'), Lit("ab"), G::Cls(Cls::Any)], &[Op::Star, Op::Opt, Op::Str, Op::Line, Op::Map], &[Op::Seq, Op::Alt, Op::RepSep], 3);
        v.extend(inner_pats());
        v
    };
    let texts = ["aab", "a\nab", "abab"];
    let k = t.pick(6, 7);
    let b = format!("two iterators over the same or different ones of {} patterns and {} texts, in one context or two: every interleaving of up to {k} steps each (start, backtrack), converting at every step", pats.len(), texts.len());
    // partner patterns: itself and the fixed set
    let partners = inner_pats();
    list("interleaved iterators", &b, pats, move |cx, g| {
        let bg = dynp::build(g);
        for (pi, h) in [g.clone()].into_iter().chain(partners.iter().cloned()).enumerate() {
            let bh = if pi == 0 { bg.clone() } else { dynp::build(&h) };
            for s in texts {
                for u in texts {
                    let solo_g = solo(&bg, s, k);
                    let solo_h = solo(&bh, u, k);
                    let whole_h = real_parse(&bh, u, u64::MAX).show();
                    for mask in 1..1u32 << (k + 1) {
                        if !cx.case(|| format!("stepping {} on {s:?}, with whole parses by {} on {u:?} in between (before steps {mask:b})", g.src(), h.src())) {
                            return;
                        }
                        let mut whole = vec![];
                        let x = broken(&bg, s, &bh, u, mask, k, &mut whole);
                        cx.executions += 1;
                        cx.states += k as u64;
                        cx.transitions += k as u64 + whole.len() as u64;
                        cx.accepted += 1;
                        if x != solo_g || whole.iter().any(|w| *w != whole_h) {
                            cx.fail(format!(
                                "stepping {} on {s:?}, with whole parses by {} on {u:?} in between (before steps {mask:b}):\n  alone    {solo_g:?} and {whole_h}\n  together {x:?} and {whole:?}",
                                g.src(),
                                h.src()
                            ));
                        }
                    }
                    for shared in [false, true] {
                        if shared && s != u {
                            continue;
                        }
                        for mask in 0..1u32 << (2 * k) {
                            if mask.count_ones() as usize != k {
                                continue;
                            }
                            if !cx.case(|| format!("stepping {} on {s:?} and {} on {u:?} alternately (order {mask:b})", g.src(), h.src())) {
                                return;
                            }
                            let (x, y) = weave(&bg, s, &bh, u, shared, mask, k);
                            cx.executions += 1;
                            cx.states += 2 * k as u64;
                            cx.transitions += 2 * k as u64;
                            cx.accepted += 1;
                            if x != solo_g || y != solo_h {
                                cx.fail(format!(
                                    "stepping {} on {s:?} and {} on {u:?} alternately (order {mask:b}, one context: {shared}):\n  alone    {solo_g:?} and {solo_h:?}\n  together {x:?} and {y:?}",
                                    g.src(),
                                    h.src()
                                ));
                            }
                        }
                    }
                }
            }
        }
    })
}
type Steps = Vec<Option<(usize, Val)>>;
fn solo(b: &Bx, s: &str, k: usize) -> Steps {
    let mut pc = ParseContext::new(s);
    let mut it = None;
    let mut out = vec![];
    for i in 0..k {
        advance(b, &mut pc, &mut it, i == 0, &mut out);
    }
    out
}
fn advance<'p>(b: &'p Bx, pc: &mut ParseContext<'p>, it: &mut Option<dynp::BxIter<'p>>, start: bool, out: &mut Steps) {
    if start {
        *it = b.parse_iter(pc, 0).ok();
    } else if let Some(i) = it {
        if i.backtrack(pc).is_err() {
            *it = None;
        }
    }
    out.push(it.as_ref().map(|i| (i.match_end(), i.convert().0)));
}
fn weave(a: &Bx, s: &str, b: &Bx, u: &str, shared: bool, mask: u32, k: usize) -> (Steps, Steps) {
    let (mut x, mut y) = (vec![], vec![]);
    // each context is made when first needed
    let (mut pa, mut pb) = (None, None);
    let (mut ia, mut ib) = (None, None);
    for i in 0..2 * k {
        if mask >> i & 1 == 0 {
            let st = x.is_empty();
            advance(a, pa.get_or_insert_with(|| ParseContext::new(s)), &mut ia, st, &mut x);
        } else {
            let st = y.is_empty();
            let pc = if shared { pa.get_or_insert_with(|| ParseContext::new(s)) } else { pb.get_or_insert_with(|| ParseContext::new(u)) };
            advance(b, pc, &mut ib, st, &mut y);
        }
    }
    (x, y)
}
/// `k` steps of one iterator, a whole other parse made before each of those
/// the mask names.
fn broken(a: &Bx, s: &str, b: &Bx, u: &str, mask: u32, k: usize, other: &mut Vec<String>) -> Steps {
    let mut x = vec![];
    let mut pa = None;
    let mut ia = None;
    for i in 0..=k {
        if mask >> i & 1 == 1 {
            other.push(real_parse(b, u, u64::MAX).show());
        }
        if i < k {
            let pc = pa.get_or_insert_with(|| ParseContext::new(s));
            advance(a, pc, &mut ia, i == 0, &mut x);
        }
    }
    x
}

// ---- two threads

/// A leaf that lets the other thread run at every call; shareable.
#[derive(Clone, Copy)]
struct Y(char);
struct YIter(usize, char);
impl Parser for Y {
    type Output = char;
    type RawOutput = (char,);
    type Iter<'p> = YIter;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, at: usize) -> Result<YIter, Reported> {
        sched::point();
        let ok = cx.source()[at..].starts_with(self.0);
        sched::point();
        if ok {
            Ok(YIter(at + self.0.len_utf8(), self.0))
        } else {
            Err(cx.error_expected(at, "that"))
        }
    }
}
impl<'p> ParseIter<'p> for YIter {
    type RawOutput = (char,);
    fn match_end(&self) -> usize {
        self.0
    }
    fn backtrack(&mut self, _: &mut ParseContext<'p>) -> Result<(), Reported> {
        sched::point();
        Err(Reported)
    }
    fn convert(&self) -> (char,) {
        sched::point();
        (self.1,)
    }
}
type Shared = Box<dyn Fn(&str) -> String + Send + Sync>;
fn shared() -> Vec<(String, Shared)> {
    macro_rules! sh {
        ($($p:tt)*) => {{
            let q = parser!($($p)*);
            (stringify!($($p)*).to_string(), Box::new(move |s: &str| show(s, q.parse(s))) as Shared)
        }};
    }
    let (a, b) = (Y('a'), Y('b'));
    fn pause<T>(x: T) -> T {
        sched::point();
        x
    }
    vec![
        sh!(a*),
        sh!({a b, a a}),
        sh!(repeat_sep(a, b)),
        sh!(string(a*) b?),
        sh!(lines(a*)),
        sh!(sections(lines(a+))),
        sh!(x:(w:a => pause(w))* y:b => pause((x, y))),
        sh!(hash_set({a, b}*)),
        sh!(a u8 b),
        sh!(line({a, b}* => 1)*),
    ]
}
fn threads_own(t: Tier) -> Part {
    let pats = inner_pats();
    let texts = ["aab", "b", "a\nab", ""];
    let units: Vec<(usize, usize)> = (0..pats.len()).flat_map(|i| (i..pats.len()).map(move |j| (i, j))).collect();
    let k = t.pick(2, 3);
    list(
        "two threads, own parsers",
        &format!("two parses in two threads, every pair of {} patterns and of {} texts; every schedule with at most {k} switches at the protocol calls and conversions; results equal those alone", pats.len(), texts.len()),
        units,
        move |cx, (i, j)| {
            for s in texts {
                for u in texts {
                    let go = |g: &P, s: &str| {
                        let b = dynp::build(g);
                        move_out(&b, s)
                    };
                    let (wa, wb) = (go(&pats[*i], s), go(&pats[*j], u));
                    let (_, _, n) = sched::both(0, &[], || go(&pats[*i], s), || go(&pats[*j], u));
                    let k = if n > 40 { k.min(1) } else if n > 24 { k.min(2) } else { k };
                    for plan in sched::plans(n, k) {
                        for first in 0..2 {
                            if !cx.case(|| format!("{} on {s:?} and {} on {u:?} in two threads, schedule {first} {plan:?}", pats[*i].src(), pats[*j].src())) {
                                return;
                            }
                            let (x, y, m) = sched::both(first, &plan, || go(&pats[*i], s), || go(&pats[*j], u));
                            cx.executions += 1;
                            cx.states += plan.len() as u64 + 1;
                            cx.transitions += m as u64;
                            cx.accepted += 1;
                            if x != wa || y != wb {
                                cx.fail(format!("{} on {s:?} and {} on {u:?} in two threads, thread {first} first, switching at steps {plan:?}:\n  alone    {wa} and {wb}\n  together {x} and {y}", pats[*i].src(), pats[*j].src()));
                            }
                        }
                    }
                    cx.outcome(&(wa, wb));
                }
            }
        },
    )
}
fn move_out(b: &Bx, s: &str) -> String {
    real_parse(b, s, u64::MAX).show()
}
fn threads_shared(t: Tier) -> Part {
    let n = shared().len();
    let texts = ["aab", "ab", "a\naa\n", "a7b", ""];
    let k = t.pick(2, 3);
    list(
        "two threads, one parser",
        &format!("one shared parser (each of {n}) used by two threads on every pair of {} texts; every schedule with at most {k} switches at leaf calls and conversions", texts.len()),
        (0..n).collect(),
        move |cx, i| {
            let fs = shared();
            let (name, f) = &fs[*i];
            for s in texts {
                for u in texts {
                    let (wa, wb) = (f(s), f(u));
                    let (_, _, n) = sched::both(0, &[], || f(s), || f(u));
                    let k = if n > 60 { k.min(1) } else if n > 30 { k.min(2) } else { k };
                    for plan in sched::plans(n, k) {
                        for first in 0..2 {
                            if !cx.case(|| format!("{name} on {s:?} and on {u:?} in two threads, schedule {first} {plan:?}")) {
                                return;
                            }
                            let (x, y, m) = sched::both(first, &plan, || guarded(u64::MAX, || f(s)).unwrap_or_else(|o| o.show()), || guarded(u64::MAX, || f(u)).unwrap_or_else(|o| o.show()));
                            cx.executions += 1;
                            cx.states += plan.len() as u64 + 1;
                            cx.transitions += m as u64;
                            cx.accepted += 1;
                            if x != wa || y != wb {
                                cx.fail(format!("{name} on {s:?} and on {u:?} in two threads, thread {first} first, switching at steps {plan:?}:\n  alone    {wa} and {wb}\n  together {x} and {y}"));
                            }
                        }
                    }
                    cx.sample(|| format!("{name} on {s:?} and {u:?} in two threads: {wa} and {wb} under every schedule"));
                }
            }
        },
    )
}

/// Only ever used by the thread that gets it.
struct Sent<T>(T);
unsafe impl<T> Send for Sent<T> {}
unsafe impl<T> Sync for Sent<T> {}
impl<T> Sent<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Kinds of pieces by the regular expression they share.
const KINDS: &[(&str, &str, &str)] = &[
    ("u8", "usize", "12"),
    ("i32", "i64", "-3"),
    ("u8_bin", "u64_bin", "101"),
    ("i8_bin", "i64_bin", "-11"),
    ("u64_hex", "u8_hex", "c"),
    ("i8_hex", "i64_hex", "-f"),
    ("f64", "f32", "1.5"),
    ("bool", "bool", "true"),
    ("big_uint", "big_int", "77"),
    ("alpha", "alnum", "é"),
];
/// First uses in this process: every kind in turn (from the `r`-th), by two
/// threads, the first stopped before its `k`-th allocation, the second before
/// its `l`-th (0: never), or, with an `i`, the first that many instructions after
/// its `k`-th; `d`: which kind the second uses (0: the same, else that many further).
pub fn race_first(k: u64, l: u64, r: usize, d: usize, i: u64) -> String {
    let mut o = String::new();
    let stop = |n| if n == 0 { Stop::Never } else { Stop::Alloc(n) };
    for kind in r..r + KINDS.len() {
        let (a, _, s) = KINDS[kind % KINDS.len()];
        let (a2, b, u) = KINDS[(kind + d) % KINDS.len()];
        let b = if d == 0 { b } else { a2 };
        let first = if i > 0 { Stop::After(k, i) } else { stop(k) };
        let (x, y, (n, _)) = sched::race((first, stop(l)), || guarded(u64::MAX, || piece(a, s)).unwrap_or_else(|o| o.show()), || guarded(u64::MAX, || piece(b, u)).unwrap_or_else(|o| o.show()));
        o.push_str(&format!("{n} {a} on {s:?}: {x}; {b} on {u:?}: {y}\n"));
    }
    o
}
fn first_races(t: Tier) -> Part {
    // (partner, first kind, second stop up to, instructions up to)
    let mut plans: Vec<(usize, usize, u64, u64)> = vec![(0, 0, 0, 0), (0, 0, 0, 16)];
    if t == Tier::Thorough {
        plans = (0..KINDS.len()).flat_map(|d| [(d, 0, 0, 0), (d, 3, 0, 0)]).collect();
        plans.push((0, 0, 260, 0));
        plans.push((0, 0, 0, 120));
    }
    let units: Vec<(usize, usize, u64, u64, u64)> = plans.iter().flat_map(|(d, r, l, i)| (0..64).map(move |m| (*d, *r, *l, *i, m))).collect();
    list(
        "first use by two threads at once",
        &format!(
            "{} kinds of number, boolean and class used first in a new process by two threads, the first stopped at each of its allocations, and at each of the {} machine instructions that follow each, in turn until the second has finished or waits; the second uses {}",
            KINDS.len(),
            t.pick(16, 120),
            t.pick("the same kind", "the same kind or any other, in two orders of first use; and, up to allocation 260, the second of the same kind also stopped at each of its allocations until the first has finished or waits")
        ),
        units,
        move |cx, (d, r, lmax, imax, m)| {
            let run = |k: u64, l: u64, i: u64| {
                let out = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(["race", &k.to_string(), &l.to_string(), &r.to_string(), &d.to_string(), &i.to_string()])
                    .output()
                    .expect("cannot start a process");
                String::from_utf8_lossy(&out.stdout).lines().map(|l| l.split_once(' ').map_or((0, l.to_string()), |(n, l)| (n.parse().unwrap_or(0u64), l.to_string()))).collect::<Vec<_>>()
            };
            let solo = run(0, 0, 0);
            let mut max = solo.iter().map(|l| l.0).max().unwrap_or(0);
            if *lmax > 0 {
                max = max.min(*lmax);
            }
            if solo.len() != KINDS.len() {
                cx.fail("first use by two threads, one after the other: the process died".into());
                return;
            }
            for k in (*m + 1..=max).step_by(64) {
                let seconds = if *lmax == 0 { 0..=0 } else { 1..=*lmax };
                for (l, i) in seconds.flat_map(|l| (if *imax == 0 { 0..=0 } else { 1..=*imax }).map(move |i| (l, i))) {
                    let name = || format!("first use in a process by two threads, the first stopped {} its allocation {k} while the second runs{}", if i == 0 { "before".into() } else { format!("{i} machine instructions after") }, if l == 0 { String::new() } else { format!(", stopped before its allocation {l} while the first goes on") });
                    if !cx.case(|| format!("{} (kinds from {r}, partner {d})", name())) {
                        return;
                    }
                    let got = run(k, l, i);
                    cx.executions += 2 * got.len() as u64;
                    cx.states += solo.iter().filter(|l| l.0 >= k).count() as u64;
                    cx.transitions += 2 * got.len() as u64;
                    if let Some((g, s)) = got.iter().zip(&solo).find(|(g, s)| g.1 != s.1) {
                        cx.fail(format!("{}:\n  one after the other {}\n  this way            {}", name(), s.1, g.1));
                    } else if got.len() != solo.len() {
                        cx.fail(format!("{}: the process died after {:?}", name(), got.last().map(|g| &g.1)));
                    }
                    cx.accepted += 1;
                }
            }
            if *m == 0 {
                cx.outcome(&solo);
                cx.sample(|| format!("first uses, allocations per use: {:?}", solo));
            }
        },
    )
}
/// Single machine instructions of one parse.
fn instr_races(t: Tier) -> Part {
    let units: Vec<(usize, u64)> = (0..KINDS.len()).flat_map(|i| (0..8).map(move |m| (i, m))).collect();
    list(
        "two threads, stopped at machine instructions",
        &format!("{} kinds of number, boolean and class: the first thread's parse stopped before each of its machine instructions in turn (trap flag) until the second thread's whole parse with the same kind{} has finished or waits", KINDS.len(), t.pick("", ", or any other,")),
        units,
        move |cx, (i, m)| {
            for d in 0..t.pick(1, KINDS.len()) {
                let (a, b, s) = KINDS[*i];
                let (a2, _, u) = KINDS[(i + d) % KINDS.len()];
                // a rejected text for the second thread when of the same kind
                let (b, u) = if d == 0 { (b, "0") } else { (a2, u) };
                let fa = || guarded(u64::MAX, || piece(a, s)).unwrap_or_else(|o| o.show());
                let fb = || guarded(u64::MAX, || piece(b, u)).unwrap_or_else(|o| o.show());
                let (wa, wb) = (fa(), fb());
                let (_, _, (n, _)) = sched::race((Stop::Instr(u64::MAX), Stop::Never), fa, fb);
                if *m == 0 {
                    cx.sample(|| format!("{a} on {s:?}: {n} instructions"));
                    cx.outcome(&(&wa, &wb));
                }
                for k in (*m + 1..=n).step_by(8) {
                    if !cx.case(|| format!("{a} on {s:?} stopped at machine instruction {k} while another thread runs {b} on {u:?}")) {
                        return;
                    }
                    let (x, y, _) = sched::race((Stop::Instr(k), Stop::Never), fa, fb);
                    cx.executions += 2;
                    cx.states += 1;
                    cx.transitions += 2;
                    cx.accepted += 1;
                    if x != wa || y != wb {
                        cx.fail(format!("{a} on {s:?} stopped at its machine instruction {k} while another thread runs {b} on {u:?}:\n  alone    {wa} and {wb}\n  together {x} and {y}"));
                    }
                }
            }
        },
    )
}
fn alloc_races(t: Tier) -> Part {
    let nf = funs().len();
    let texts = |i: usize| TEXTS[i % TEXTS.len()];
    list(
        "two threads, stopped at allocations",
        &format!("every pair of {nf} parsers, each pair of {} texts; the first thread stopped at each of its allocations and releases in turn until the second thread's whole parse has finished or waits", t.pick(4, TEXTS.len())),
        (0..nf * nf).collect(),
        move |cx, ij| {
            let (i, j) = (ij / nf, ij % nf);
            let fa = funs();
            let fb = Sent(funs());
            let f = &fa[i];
            let nt = t.pick(4, TEXTS.len());
            for s in 0..nt {
                for u in 0..nt {
                    let (s, u) = (texts(i + s), texts(i + s + u));
                    let b = || guarded(u64::MAX, || fb.get()[j].1(u)).unwrap_or_else(|o| o.show());
                    let a = || guarded(u64::MAX, || f.1(s)).unwrap_or_else(|o| o.show());
                    let (wa, wb) = (a(), b());
                    let b = Sent(&b);
                    let (_, _, n) = sched::race((Stop::Never, Stop::Never), a, || b.get()());
                    for k in 1..=n.0 {
                        if !cx.case(|| format!("parser!({}) on {s:?} stopped at allocation {k} while another thread runs parser!({}) on {u:?}", f.0, fb.get()[j].0)) {
                            return;
                        }
                        let (x, y, _) = sched::race((Stop::Alloc(k), Stop::Never), a, || b.get()());
                        cx.executions += 2;
                        cx.states += 1;
                        cx.transitions += 2;
                        cx.accepted += 1;
                        if x != wa || y != wb {
                            cx.fail(format!("parser!({}) on {s:?} stopped at its allocation {k} while another thread runs parser!({}) on {u:?}:\n  alone    {wa} and {wb}\n  together {x} and {y}", f.0, fb.get()[j].0));
                        }
                    }
                    cx.outcome(&(wa, wb, n));
                }
            }
        },
    )
}

pub fn p17(t: Tier) -> Parts {
    (
        vec![
            parse_histories(t),
            first_uses(t),
            object_histories(t),
            super::hist::rule_histories(t),
            nested(t),
            reentrant(t),
            interleaved(t),
            again(t),
            threads_shared(t),
            threads_own(t),
            alloc_races(t),
            first_races(t),
            instr_races(t),
        ],
        vec![
            "control changes hands at protocol calls, leaf calls and conversions; the insides of a single leaf match (regex, lazy_static) run without interruption",
            "results are compared as printed values and errors",
        ],
    )
}
