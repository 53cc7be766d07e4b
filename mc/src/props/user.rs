//! P24: parsers written by a user work as parts of any pattern.
use super::comb::check_eq;
use super::*;
use crate::gram::Own;
use crate::dynp::{self, Bx, UserPanic};
use crate::model;
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter, Reported};
use std::panic::{catch_unwind, AssertUnwindSafe};
use G::{Ch, Coll, Lit};

const UN: &[Op] = &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::Line, Op::Lines, Op::Section, Op::Sections, Op::Map, Op::Paren, Op::Ref, Op::RuleWrap, Op::CSet];
const BIN: &[Op] = &[Op::Seq, Op::Alt, Op::RepSep];

fn script(id: u8, ends: &[u8], far: u8) -> G {
    G::Script(Script { id, far, ends: ends.to_vec() })
}
fn scripts(id: u8, len: usize, fars: &[u8]) -> Vec<P> {
    let mut seqs: Vec<Vec<u8>> = vec![vec![]];
    let mut last = seqs.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|s| (0..3u8).map(move |n| { let mut s = s.clone(); s.push(n); s })).collect();
        seqs.extend(last.iter().cloned());
    }
    seqs.iter().flat_map(|s| fars.iter().map(move |f| p(script(id, s, *f)))).collect()
}
fn numbered(g: &P) -> P {
    // conversions numbered apart from the users' parsers (which have 10 and up)
    number_maps(g)
}

/// Compare everything; every iterator dropped; conversions as the value says.
fn check(cx: &mut Ctx, g: &P, b: &Bx, s: &str) {
    dynp::LIVE.with(|l| l.set(0));
    let out = compare(cx, g, b, s, What::All);
    if cx.viol.is_some() {
        return;
    }
    let live = dynp::LIVE.with(|l| l.get());
    if live != 0 {
        cx.fail(format!("parser!({}) on {s:?}: {live} of the user's parse iterators never dropped", g.src()));
    }
    let log = take_log();
    if g.any(&|g| matches!(g, Coll(..) | G::Own(Own::Whole, _))) {
        return;
    }
    let mut want = vec![];
    if let Some(Out::Ok(v)) = &out {
        model::conversions(v, &mut want);
    }
    if out.is_some() && log != want {
        cx.fail(format!("parser!({}) on {s:?}: conversions asked for {log:?}, wanted {want:?}", g.src()));
    }
}

/// A panic in the user's code at every call it gets: it comes out of the
/// parse, and leaves the parser as it was.
fn panics(cx: &mut Ctx, g: &P, b: &Bx, s: &str) {
    let parse = || {
        dynp::CALLS.with(|c| c.set(0));
        dynp::LIVE.with(|c| c.set(0));
        let r = guarded(1 << 20, || b.parse(s));
        let _ = (take_log(), take_breach());
        r.map_err(|o| o.show()).map(|r| r.map_err(|e| (e.location, e.to_string())))
    };
    if !cx.case(|| format!("parser!({}) on {s:?}, panicking in the user's parser", g.src())) {
        return;
    }
    let before = parse();
    let calls = dynp::CALLS.with(|c| c.get());
    for at in 1..=calls {
        dynp::PANIC_AT.with(|x| x.set(at));
        dynp::CALLS.with(|c| c.set(0));
        let r = guarded(1 << 20, || catch_unwind(AssertUnwindSafe(|| b.parse(s))));
        dynp::PANIC_AT.with(|x| x.set(0));
        cx.executions += 2;
        cx.states += 2;
        cx.transitions += steps();
        let came = matches!(&r, Ok(Err(e)) if e.is::<UserPanic>());
        let live = dynp::LIVE.with(|l| l.get());
        let after = parse();
        if !came {
            cx.fail(format!("parser!({}) on {s:?}: the panic of the user's parser at its call number {at} did not come out", g.src()));
            return;
        }
        if live != 0 {
            cx.fail(format!("parser!({}) on {s:?}: after a panic of the user's parser at call number {at}, {live} of its parse iterators were never dropped", g.src()));
            return;
        }
        if after != before {
            cx.fail(format!("parser!({}) on {s:?}: after a panic of the user's parser at call number {at}, parsing again gives {after:?}, before {before:?}", g.src()));
            return;
        }
    }
    cx.outcome(&calls);
}

/// The same panic over and over in one thread: still nothing is left of it.
fn panics_often(cx: &mut Ctx, g: &P, b: &Bx, s: &str, times: usize) {
    let parse = || {
        dynp::CALLS.with(|c| c.set(0));
        let r = guarded(1 << 20, || b.parse(s));
        let _ = (take_log(), take_breach());
        r.map_err(|o| o.show()).map(|r| r.map_err(|e| (e.location, e.to_string())))
    };
    if !cx.case(|| format!("parser!({}) on {s:?}, panicking in the user's parser {times} times", g.src())) {
        return;
    }
    let before = parse();
    let calls = dynp::CALLS.with(|c| c.get());
    let mut ats = vec![1, calls];
    ats.dedup();
    for at in ats {
        if at == 0 {
            continue;
        }
        for _ in 0..times {
            dynp::PANIC_AT.with(|x| x.set(at));
            dynp::CALLS.with(|c| c.set(0));
            let r = guarded(1 << 20, || catch_unwind(AssertUnwindSafe(|| b.parse(s))));
            dynp::PANIC_AT.with(|x| x.set(0));
            cx.transitions += steps();
            drop(r);
        }
        cx.executions += times as u64;
        cx.states += times as u64;
        let after = parse();
        if after != before {
            cx.fail(format!("parser!({}) on {s:?}: after {times} panics of the user's parser at call number {at}, parsing gives {after:?}, before {before:?}", g.src()));
            return;
        }
    }
    cx.outcome(&calls);
}

// user's parsers with other raw outputs: none, two, eight values

struct None0;
struct Two;
struct Eight;
struct It<T> {
    end: usize,
    v: T,
}
macro_rules! fixed {
    ($p:ident, $t:ty, $n:expr, $mk:expr) => {
        impl Parser for $p {
            type Output = $t;
            type RawOutput = $t;
            type Iter<'p> = It<$t>;
            fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Result<It<$t>, Reported> {
                let src = cx.source();
                let cs: Vec<char> = src[start..].chars().take($n).collect();
                if cs.len() < $n {
                    return Err(cx.error_expected(src.len(), "any character"));
                }
                let end = start + cs.iter().map(|c| c.len_utf8()).sum::<usize>();
                let mk: fn(&[char]) -> $t = $mk;
                Ok(It { end, v: mk(&cs) })
            }
        }
        impl<'p> ParseIter<'p> for It<$t> {
            type RawOutput = $t;
            fn match_end(&self) -> usize {
                self.end
            }
            fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
                Err(cx.error_expected(0, "any character"))
            }
            fn convert(&self) -> $t {
                self.v.clone()
            }
        }
    };
}
type C8 = (char, char, char, char, char, char, char, char);
fixed!(None0, (), 1, |_| ());
fixed!(Two, (char, char), 2, |c| (c[0], c[1]));
fixed!(Eight, C8, 8, |c| (c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]));

fn shapes(t: Tier) -> Part {
    let inputs: Vec<String> = strings(&["a", "é", "\n"], t.pick(5, 7))
        .into_iter()
        .flat_map(|s| [s.clone(), format!("{s}bcdefg"), format!("bcdefgha{s}")])
        .collect();
    list(
        "other raw outputs",
        "user's parsers yielding no value, two values and eight, in sequences, groups, labels, alternations, lists, lines and rules, against the same written with the crate's own pieces; all texts over {a,é,\\n} and around eight characters",
        inputs,
        |cx, s| {
            let (none, two, eight) = (&None0, &Two, &Eight);
            macro_rules! pair {
                ([$($mine:tt)*] [$($own:tt)*]) => {{
                    check_eq(
                        cx,
                        || format!("parser!({}) with the user's own two, eight, none on {s:?}", stringify!($($mine)*)),
                        parser!($($own)*).parse(s).ok(),
                        || parser!($($mine)*).parse(s).ok(),
                    );
                }};
            }
            pair!([two] [any_char any_char]);
            pair!([two alpha] [any_char any_char alpha]);
            pair!([alpha two] [alpha any_char any_char]);
            pair!([two two] [any_char any_char any_char any_char]);
            pair!([alpha two alpha two] [alpha any_char any_char alpha any_char any_char]);
            pair!([(two)] [(any_char any_char)]);
            pair!([(two) alpha] [(any_char any_char) alpha]);
            pair!([two*] [(any_char any_char)*]);
            pair!([two? alpha] [(any_char any_char)? alpha]);
            pair!([repeat_sep(two, "a")] [repeat_sep(any_char any_char, "a")]);
            pair!([line(two) alpha] [line(any_char any_char) alpha]);
            pair!([lines(two)] [lines(any_char any_char)]);
            pair!([sections(two)] [sections(any_char any_char)]);
            pair!([x:two y:alpha => (y, x)] [x:(any_char any_char) y:alpha => (y, x)]);
            pair!([x:two => x.1] [x:(any_char any_char) => x.1]);
            pair!([two => 'x'] [any_char any_char => 'x']);
            pair!([{two, alpha => ('1', '1')}] [{any_char any_char, alpha => ('1', '1')}]);
            pair!([string(two)] [string(any_char any_char)]);
            pair!([hash_set(two*)] [hash_set((any_char any_char)*)]);
            pair!([hash_map(two*)] [hash_map((any_char any_char)*)]);
            pair!([rule r: (char, char) = two; r alpha] [rule r: (char, char) = any_char any_char; r alpha]);
            pair!([eight] [any_char any_char any_char any_char any_char any_char any_char any_char]);
            pair!([eight "a"] [any_char any_char any_char any_char any_char any_char any_char any_char "a"]);
            pair!(["a" eight] ["a" any_char any_char any_char any_char any_char any_char any_char any_char]);
            pair!([eight*] [(any_char any_char any_char any_char any_char any_char any_char any_char)*]);
            pair!([none alpha] [any_char x:alpha => x]);
            pair!([two none two] [x:any_char y:any_char any_char z:any_char t:any_char => (x, y, z, t)]);
            pair!([none eight] [any_char a:any_char b:any_char c:any_char d:any_char e:any_char f:any_char g:any_char h:any_char => (a, b, c, d, e, f, g, h)]);
            pair!([none*] [(any_char => ())*]);
            pair!([none? alpha] [(any_char => ())? alpha]);
            pair!([x:none y:two => (x, y)] [x:(any_char => ()) y:(any_char any_char) => (x, y)]);
            pair!([{none, two => ()}] [{any_char => (), any_char any_char => ()}]);
            pair!([lines(none)] [lines(any_char => ())]);
            pair!([none none none] [any_char any_char any_char => ()]);
        },
    )
}

/// The same in rules.
fn own_rules(t: Tier) -> Vec<P> {
    use crate::gram::Own::*;
    let un = [Op::Star, Op::Line].into_iter().chain([Peek, Not, Lazy, Twice].map(Op::Own)).collect::<Vec<_>>();
    let bin = [Op::Seq, Op::Alt].into_iter().chain([Both, Or].map(Op::Own)).collect::<Vec<_>>();
    let r0 = G::Rule(0, 0);
    let mut out = vec![];
    for body in upto(&[Ch('a'), Ch('b'), r0.clone()], &un, &bin, t.pick(5, 6)) {
        if !body.any(&|g| matches!(g, G::Own(..))) || !body.any(&|g| matches!(g, G::Rule(..))) || left_recursive(&[body.clone()]) {
            continue;
        }
        for e in [p(r0.clone()), p(G::Line(p(r0.clone()))), p(G::Star(p(G::Own(Twice, vec![p(r0.clone())])))), p(G::Seq(p(G::Own(Not, vec![p(G::Line(p(r0.clone())))])), p(r0.clone())))] {
            out.push(p(G::Rules(vec![body.clone()], e)));
        }
    }
    out
}
/// Patterns with a combinator the user wrote.
pub fn own_combs(t: Tier) -> Vec<P> {
    use crate::gram::Own::*;
    let un: Vec<Op> = [Op::Star, Op::Opt, Op::Line, Op::Section, Op::Str, Op::Map].into_iter().chain([Peek, Not, Lazy, Twice, Whole].map(Op::Own)).collect();
    let bin: Vec<Op> = [Op::Seq, Op::Alt].into_iter().chain([Both, Or].map(Op::Own)).collect();
    let all_un: Vec<Op> = UN.iter().copied().chain([Peek, Not, Lazy, Twice, Whole].map(Op::Own)).collect();
    let all_bin: Vec<Op> = BIN.iter().copied().chain([Both, Or].map(Op::Own)).collect();
    let mut v = upto(&[Ch('a'), Lit("a\n"), Ch('\n'), script(10, &[1, 0, 2], 0)], &all_un, &all_bin, 4);
    v.extend(by_size(&[Ch('a'), script(10, &[1, 0, 2], 0)], &un, &bin, 5).pop().unwrap());
    v.extend(by_size(&[Ch('a')], &[Op::Star, Op::Opt, Op::Line, Op::Own(Lazy), Op::Own(Not)], &[Op::Seq, Op::Alt, Op::Own(Both)], 6).pop().unwrap());
    v.into_iter().filter(|g| g.any(&|g| matches!(g, G::Own(..)))).collect()
}

pub fn p24(t: Tier) -> Parts {
    let inputs = strings(&["a", "\n"], 5);
    let with = |name: &str, bounds: &str, pats: Vec<P>, inputs: Vec<String>| fam_with(name, bounds.into(), pats.iter().map(numbered).collect(), inputs, check);
    let cs3 = contexts(&[Ch('a')], UN, BIN, 3);
    let cs4 = contexts(&[Ch('a')], UN, BIN, 4);
    let few: Vec<G> = vec![
        script(10, &[1], 0),
        script(11, &[0], 0),
        script(12, &[1, 0], 0),
        script(13, &[0, 1], 1),
        script(14, &[2, 1], 2),
        script(15, &[1, 1], 0),
        script(16, &[0, 1, 2], 0),
        script(17, &[], 2),
        Ch('a'),
    ];
    let scripted = |g: &P| g.any(&|g| matches!(g, G::Script(_)));
    let some: Vec<P> = upto(&few, UN, BIN, t.pick(4, 4)).into_iter().filter(scripted).collect();
    let some5: Vec<P> = upto(&few[2..6], &[Op::Star, Op::Opt, Op::Line, Op::Section], BIN, 5).into_iter().filter(|g| g.size() == 5).collect();
    let multi: Vec<P> = upto(&[script(10, &[1], 0), script(12, &[1, 0], 2), script(14, &[2, 1], 1), Lit("é")], UN, BIN, 3).into_iter().filter(scripted).collect();
    let parts = vec![
        with("one user's parser in a context", "contexts of <= 3 nodes x user's parsers with every sequence of <= 3 matches of 0 to 2 characters, failing 0 or 2 characters on; all texts over {a,\\n} of length <= 5", product(&cs3, &scripts(10, 3, &[0, 2])), inputs.clone()),
        with(
            "one user's parser in a larger context",
            "contexts of <= 4 nodes x user's parsers with every sequence of <= 3 matches; all texts over {a,\\n}",
            product(&cs4, &scripts(10, 3, t.pick(&[1], &[0, 1, 2]))),
            strings(&["a", "\n"], t.pick(4, 6)),
        ),
        with("several users' parsers", "patterns over 8 users' parsers and 'a'; all texts over {a,\\n} of length <= 5", some, strings(&["a", "\n"], t.pick(5, 7))),
        with("several users' parsers, larger", "patterns of 5 nodes over 4 users' parsers; all texts over {a,\\n}", some5, strings(&["a", "\n"], t.pick(4, 6))),
        with("users' combinators", "patterns of <= 4 nodes, and of 5 and 6 over some, with combinators the user wrote: lookahead, negative lookahead, lazy repetition, a trial run, intersection, alternation, a parse within the parse; all texts over {a,\\n}", own_combs(t), strings(&["a", "\n"], t.pick(4, 5))),
        with(
            "users' combinators with rules",
            "one-rule sets with bodies of <= 5 (thorough: 6) nodes over the rule itself, with combinators the user wrote; all texts over {a,b,\\n} of length <= 4",
            own_rules(t),
            strings(&["a", "b", "\n"], 4),
        ),
        with("multi-byte text", "patterns of <= 3 nodes over 3 users' parsers and \"é\"; all texts over {é,😂,\\n} of length <= 5", multi.clone(), strings(&["é", "😂", "\n"], t.pick(4, 5))),
        fam_with(
            "panics in the user's code",
            "contexts of <= 3 (thorough: 4) nodes x user's parsers, and patterns over three; a panic at every call the user's parser gets".into(),
            product(t.pick(&cs3, &cs4), &[p(script(10, &[1], 0)), p(script(10, &[1, 0], 0)), p(script(10, &[2, 1, 0], 0)), p(script(10, &[0, 1], 1))]).into_iter().chain(multi).map(|g| numbered(&g)).collect(),
            strings(&["a", "\n"], t.pick(4, 5)),
            panics,
        ),
        fam_with(
            "the same panic again and again",
            "contexts of <= 2 (thorough: 3) nodes x a user's parser; the panic at its first and its last call, each 70000 times in one thread, then a parse".into(),
            product(&contexts(&[Ch('a')], UN, BIN, t.pick(2, 3)), &[p(script(10, &[1, 0], 0))]).iter().map(numbered).collect(),
            vec!["aa".into()],
            move |cx, g, b, s| panics_often(cx, g, b, s, 70_000),
        ),
        super::comb::steps_fam("stepping through matches of users' combinators", "patterns of <= 4 (thorough: 5) nodes with combinators the user wrote".into(), own_combs(t).into_iter().filter(|g| g.size() <= t.pick(4, 5)).collect(), strings(&["a", "\n"], 4)),
        shapes(t),
    ];
    (parts, vec!["a user's parser is one that keeps to the contract of the public traits: matches end at character boundaries within the text, a failure is reported before it is returned"])
}
