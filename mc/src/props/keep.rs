//! P25: a parse leaves nothing behind once its result is dropped.
use super::comb::{one_rule_pats, region_pats, two_rule_pats, wide_pats, BIN, COMB_UN};
use super::*;
use crate::dynp::{self, Bx};
use crate::gram::{Cls, Coll as gram_coll, Num};
use crate::sched::held;
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter};
use G::{Alt, Ch, CharOf, Coll, CollMap, Empty, Lines, Lit, Map, RepSep, Seq, Star, Str};

const BUDGET: u64 = 100_000;

/// Room for the harness's own record, before anything is counted.
fn room() {
    dynp::CONV_STEPS.with(|l| l.borrow_mut().reserve(1 << 17));
    let _ = take_log();
}
/// One parse, its result looked at and dropped.
fn once(b: &Bx, s: &str) -> u8 {
    let r = guarded(BUDGET, || match b.parse(s) {
        Ok(v) => {
            drop(v);
            0
        }
        Err(e) => {
            drop((e.to_string(), format!("{e:?}")));
            1
        }
    });
    let _ = (take_log(), take_breach());
    match r {
        Ok(n) => n,
        Err(o) => {
            drop(o);
            2
        }
    }
}
/// The same, stopped after a few matches.
fn half(b: &Bx, s: &str) {
    let r = guarded(BUDGET, || {
        let mut pc = ParseContext::new(s);
        if let Ok(mut it) = b.parse_iter(&mut pc, 0) {
            let _ = it.match_end();
            let _ = it.backtrack(&mut pc);
        }
    });
    drop(r.map_err(drop));
    let _ = (take_log(), take_breach());
}
fn row_of(cx: &mut Ctx, g: &P, b: &Bx, inputs: &[String]) {
    room();
    for s in inputs {
        if !cx.case(|| format!("parser!({}) on {s:?}, then dropped", g.src())) {
            return;
        }
        let h0 = held();
        let how = once(b, s);
        let h1 = held();
        half(b, s);
        let h2 = held();
        cx.executions += 2;
        cx.states += 2;
        cx.transitions += steps();
        match how {
            0 => cx.accepted += 1,
            1 => cx.rejected += 1,
            _ => cx.skipped += 1,
        }
        if h1 != h0 || h2 != h1 {
            cx.fail(format!(
                "parser!({}) on {s:?}: {} bytes still allocated after the {} was dropped",
                g.src(),
                if h1 != h0 { h1 - h0 } else { h2 - h1 },
                if h1 != h0 { ["value", "error", "unwound parse"][how as usize] } else { "parse iterator" }
            ));
            return;
        }
        cx.outcome(&(how, s.len()));
        cx.sample(|| format!("parser!({}) on {s:?}: nothing left", g.src()));
    }
}
/// Build, use once, drop: the first time may make room for later; after that
/// nothing may stay, however often it is done.
fn comes_and_goes(cx: &mut Ctx, g: &P, mk: impl Fn() -> Bx, s: &str) {
    room();
    let leaks_itself = g.any(&|g| matches!(g, G::Ref_(_)));
    let n = if g.size() <= 3 { 40 } else { 4 };
    let mut h0 = 0;
    for k in 0..n {
        if k == 1 {
            h0 = held();
        }
        let b = mk();
        once(&b, s);
        drop(b);
    }
    cx.executions += n;
    if !leaks_itself && held() != h0 {
        cx.case(|| format!("building and dropping parser!({})", g.src()));
        cx.fail(format!("building parser!({}), parsing {s:?} and dropping it, {} times: {} bytes still allocated", g.src(), n - 1, held() - h0));
    }
}
fn keeps_nothing(name: &str, bounds: &str, pats: Vec<P>, mut inputs: Vec<String>) -> Part {
    // the first of each pattern, and every text once before that: room made on
    // first use, and kept, is not held against it
    inputs.sort_by_key(|s| std::cmp::Reverse(s.len()));
    Part {
        name: name.into(),
        bounds: format!("{bounds}: {} patterns x {} inputs", pats.len(), inputs.len()),
        units: pats.len(),
        run: Box::new(move |u, cx| {
            let g = &pats[u];
            comes_and_goes(cx, g, || dynp::build(g), &inputs[0]);
            if cx.viol.is_some() {
                return;
            }
            let b = dynp::build(g);
            for s in &inputs[..inputs.len().min(8)] {
                once(&b, s);
                half(&b, s);
            }
            row_of(cx, g, &b, &inputs);
        }),
    }
}
/// Everything that shares regular expressions, in one unit: their caches
/// belong to one thread at a time.
fn numbers(t: Tier) -> Part {
    let leaves: Vec<G> = [Num::U8, Num::I8, Num::U8Hex, Num::I32, Num::Usize, Num::Bool].map(G::Num).to_vec();
    let mut pats = upto(&leaves, &[Op::Star, Op::Str, Op::Lines, Op::Map], &[Op::Alt, Op::RepSep], 3);
    pats.push(p(Lines(p(RepSep(p(G::Num(Num::I32)), p(Ch(',')))))));
    pats.push(p(CollMap(gram_coll::HMap, p(Seq(p(G::Num(Num::U8)), p(Ch(',')))), p(G::Num(Num::I8)))));
    let inputs = strings(&["0", "7", "-", "f", ",", "\n"], t.pick(4, 5));
    Part {
        name: "numbers".into(),
        bounds: format!("{} patterns of numbers, {} texts, all in one thread, the second time round", pats.len(), inputs.len()),
        units: 1,
        run: Box::new(move |_, cx| {
            for g in &pats {
                let b = dynp::build(g);
                for _ in 0..2 {
                    for s in &inputs {
                        once(&b, s);
                        half(&b, s);
                    }
                    cx.case(|| "warming up".into());
                }
                row_of(cx, g, &b, &inputs);
                if cx.viol.is_some() {
                    return;
                }
            }
            // the rest of the pieces
            macro_rules! each {
                ($($n:ident)*) => { $( {
                    let b = dynp::bx(parser!($n));
                    let g = p(Lit(stringify!($n)));
                    for _ in 0..2 {
                        for s in &inputs {
                            once(&b, s);
                            half(&b, s);
                        }
                    }
                    row_of(cx, &g, &b, &inputs);
                } )* };
            }
            each!(u16 i16 u32 u64 i64 u128 i128 isize u64_bin i64_bin u128_hex i32_hex big_int big_uint big_int_hex big_uint_bin f32 f64 digit digit_bin digit_hex);
        }),
    }
}
fn written_whole(t: Tier) -> Part {
    let pats = whole();
    let mut inputs = strings(&["a", "b", "\n"], t.pick(5, 6));
    inputs.sort_by_key(|s| std::cmp::Reverse(s.len()));
    Part {
        name: "patterns written out whole".into(),
        bounds: format!("{} patterns x {} inputs", pats.len(), inputs.len()),
        units: pats.len(),
        run: Box::new(move |u, cx| {
            let (g, mk) = &pats[u];
            comes_and_goes(cx, g, mk, &inputs[0]);
            if cx.viol.is_some() {
                return;
            }
            let b = mk();
            for s in &inputs[..8] {
                once(&b, s);
                half(&b, s);
            }
            row_of(cx, g, &b, &inputs);
        }),
    }
}
/// A panic in a conversion or in the user's parser, at every call.
fn panics(t: Tier) -> Part {
    const UN: &[Op] = &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::Line, Op::Lines, Op::Section, Op::Sections, Op::Map, Op::Paren, Op::RuleWrap, Op::CSet];
    let leaf = G::Script(Script { id: 10, far: 0, ends: vec![2, 1] });
    let pats: Vec<P> = upto(&[leaf, Ch('a')], UN, BIN, 4).into_iter().filter(|g| g.any(&|g| matches!(g, G::Script(_)))).collect();
    let inputs = strings(&["a", "\n"], t.pick(4, 5));
    fam_with("panics", "patterns of <= 4 nodes with a user's parser; a panic at each call it gets".into(), pats, inputs, |cx, g, b, s| {
        if !cx.case(|| format!("parser!({}) on {s:?}, panicking in the user's parser", g.src())) {
            return;
        }
        room();
        dynp::CALLS.with(|c| c.set(0));
        once(b, s);
        let calls = dynp::CALLS.with(|c| c.get());
        for at in 1..=calls {
            for k in 0..2 {
                let h0 = held();
                dynp::PANIC_AT.with(|x| x.set(at));
                dynp::CALLS.with(|c| c.set(0));
                once(b, s);
                dynp::PANIC_AT.with(|x| x.set(0));
                cx.executions += 1;
                cx.states += 1;
                cx.transitions += steps();
                if k == 1 && held() != h0 {
                    cx.fail(format!("parser!({}) on {s:?}: after a panic of the user's parser at call number {at}, {} bytes still allocated", g.src(), held() - h0));
                    return;
                }
            }
        }
    })
}
/// Values with parts of every kind, by length of the text.
fn ladders(t: Tier) -> Part {
    list(
        "long texts",
        "lists, lines, sections, strings, sets and rules on texts of n elements, the last fitting or not: every n up to the bound and around powers of two",
        ladder(t.pick(64, 200), t.pick(1 << 14, 1 << 16)),
        |cx, n| {
            room();
            macro_rules! each {
                ($e:expr; $($pat:tt)*) => {{
                    let b = dynp::bx(parser!($($pat)*));
                    let good = $e.repeat(*n);
                    for s in [good.clone(), format!("{good}?")] {
                        once(&b, &s);
                        let h0 = held();
                        once(&b, &s);
                        cx.case(|| String::new());
                        cx.executions += 1;
                        cx.states += 1;
                        cx.transitions += steps();
                        if held() != h0 {
                            cx.fail(format!("parser!({}) on {n} times {:?}{}: {} bytes still allocated afterwards", stringify!($($pat)*), $e, if s == good { "" } else { " and \"?\"" }, held() - h0));
                            return;
                        }
                    }
                }};
            }
            each!("ab\n"; lines(string(alpha*)));
            each!("ab\n\n"; sections(lines(alpha*)));
            each!("ab,"; repeat_sep(string(alpha+), ','));
            each!("ab"; hash_set((alpha alpha)*));
            each!("ab"; (x:alpha y:{"b" => 1, "a" => 2} => (y, x))*);
            each!("ab"; rule r: (char, char) = alpha alpha; r*);
            each!("ab"; string({"a", "b"}*)?);
        },
    )
}

pub fn p25(t: Tier) -> Parts {
    let mut colls = vec![];
    let elems = upto(&[Ch('a'), G::Cls(Cls::Alpha), CharOf("ab")], &[Op::Str, Op::Map, Op::Opt, Op::Line], &[Op::Seq, Op::Alt], 3);
    for e in &elems {
        for c in [gram_coll::HSet, gram_coll::BSet, gram_coll::Deq] {
            colls.push(p(Coll(c, e.clone(), None)));
            colls.push(p(Coll(c, e.clone(), Some(p(Ch('b'))))));
            colls.push(p(Alt(p(Coll(c, e.clone(), None)), p(Lines(p(G::Cls(Cls::Any)))))));
        }
        for c in [gram_coll::HMap, gram_coll::BMap] {
            colls.push(p(CollMap(c, e.clone(), p(Str(p(Map(0, p(Ch('b')))))))));
            colls.push(p(Star(p(Seq(p(CollMap(c, p(Ch('a')), e.clone())), p(Lit("\n")))))));
        }
    }
    let mut rules = one_rule_pats(t.pick(4, 5));
    rules.extend(two_rule_pats(3));
    let parts = vec![
        written_whole(t),
        keeps_nothing("combinators", "all patterns over \"a\" \"ab\" 'b' empty; all texts over {a,b}", upto(&[Lit("a"), Lit("ab"), Ch('b'), Empty], COMB_UN, BIN, t.pick(4, 5)), strings(&["a", "b"], 5)),
        keeps_nothing("wide", "sequences and alternations of 3 to 8 parts", wide_pats(), strings(&["a", "b"], t.pick(4, 6))),
        keeps_nothing("regions", "all patterns over 'a' \"\\n\" any_char empty with lines and sections; all texts over {a,\\n}", region_pats(t.pick(5, 5)), strings(&["a", "\n"], t.pick(5, 7))),
        keeps_nothing("rule sets", "all one- and two-rule sets with small bodies; all texts over {a,b}", rules, strings(&["a", "b"], t.pick(4, 6))),
        keeps_nothing("collections", "sets, deques and maps of all elements of <= 3 nodes; all texts over {a,b,\\n}", colls, strings(&["a", "b", "\n"], t.pick(4, 6))),
        keeps_nothing("multi-byte text", "all patterns over \"é\" '😂' any_char; all texts over {é,😂,\\n}", upto(&[Lit("é"), Ch('😂'), G::Cls(Cls::Any)], &[Op::Star, Op::Str, Op::Line, Op::Opt], &[Op::Seq, Op::Alt], 4), strings(&["é", "😂", "\n"], t.pick(4, 5))),
        keeps_nothing(
            "users' combinators",
            "patterns of <= 4 nodes, and of 5 and 6 over some, with combinators the user wrote, which step, keep and drop the iterators of their parts in other orders; all texts over {a,\\n}",
            super::user::own_combs(t).into_iter().filter(|g| !g.any(&|g| matches!(g, G::Script(_)))).collect(),
            strings(&["a", "\n"], t.pick(3, 5)),
        ),
        numbers(t),
        panics(t),
        ladders(t),
    ];
    (parts, vec!["memory counted per thread, by the bytes asked for; what the crate's shared regular expressions keep for their own use between parses is not held against it"])
}
