//! Properties decided by comparing whole parses of exhaustively enumerated
//! pattern families with the reference model: P01, P02, P05, P07, P08, P14, P15.
use super::*;
use crate::dynp::Bx;
use crate::model;
use crate::val::Val;
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter};
use crate::gram::{Cls, Num};
use G::{Alt, Alt3, AltN, Ch, CharOf, Coll, CollMap, Empty, Line, Lines, Lit, Map, Opt, Paren, Plus, Ref_, RepSep, Rule, Rules, Section, Sections, Seq, Seq3, SeqN, Star, Str};

pub const COMB_UN: &[Op] = &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::Map, Op::Paren];
pub const BIN: &[Op] = &[Op::Seq, Op::Alt, Op::RepSep];
pub const REG_UN: &[Op] = &[Op::Star, Op::Opt, Op::Line, Op::Lines, Op::Section, Op::Sections];

/// combinators over short ASCII leaves
pub fn combinators(size: usize, len: usize, what: What) -> Part {
    fam(
        "combinators",
        format!("all patterns of <= {size} nodes over leaves \"a\" \"ab\" 'b' empty; * + ? string => () seq alt repeat_sep; all texts over {{a,b}} of length <= {len}"),
        upto(&[Lit("a"), Lit("ab"), Ch('b'), Empty], COMB_UN, BIN, size),
        strings(&["a", "b"], len),
        what,
    )
}
pub fn wide_pats() -> Vec<P> {
    let mut v = vec![];
    let small = upto(&[Lit("a"), Lit("ab"), Ch('b'), Empty], &[Op::Star, Op::Opt, Op::Plus], &[], 2);
    for a in &small {
        for b in &small {
            for c in &small {
                let (a, b, c) = (a.clone(), b.clone(), c.clone());
                v.push(p(Seq3(a.clone(), b.clone(), c.clone())));
                v.push(p(Seq(p(Alt3(a, b, c)), p(Opt(p(Ch('b')))))));
            }
        }
    }
    let three = [p(Ch('a')), p(Lit("ab")), p(Opt(p(Ch('b'))))];
    for n in 4..=8usize {
        for code in 0..3usize.pow(n as u32) {
            let mut c = code;
            let xs: Vec<P> = (0..n)
                .map(|_| {
                    let x = three[c % 3].clone();
                    c /= 3;
                    x
                })
                .collect();
            if n <= 6 || code % 4 == 0 {
                v.push(p(SeqN(xs.clone())));
            }
            if n <= 5 {
                v.push(p(Seq(p(AltN(xs)), p(Ch('b')))));
            }
        }
        // distinct arms / elements, so that each position is told apart
        let letters = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'];
        let arms: Vec<P> = (0..n).map(|i| p(Str(p(Ch(letters[i]))))).collect();
        v.push(p(AltN(arms.clone())));
        v.push(p(SeqN(arms)));
        let arms: Vec<P> = (0..n).map(|i| p(Seq(p(Opt(p(Ch('a')))), p(Ch(letters[i]))))).collect();
        v.push(p(Plus(p(AltN(arms)))));
    }
    v
}
pub fn wide(len: usize, what: What) -> Part {
    let mut inputs = strings(&["a", "b"], len);
    for n in 4..=8usize {
        let s: String = "abcdefgh"[..n].to_string();
        inputs.push(s.clone());
        for i in 0..n {
            inputs.push(s[i..i + 1].to_string());
            inputs.push(s[i..].to_string());
            inputs.push(format!("a{}", &s[i..i + 1]));
            let mut t = s.clone();
            t.replace_range(i..i + 1, "x");
            inputs.push(t);
        }
    }
    inputs.sort();
    inputs.dedup();
    fam(
        "wide",
        "sequences and alternations of 3 to 8 parts".into(),
        wide_pats(),
        inputs,
        what,
    )
}
pub fn region_pats(size: usize) -> Vec<P> {
    upto(&[Ch('a'), Lit("\n"), G::Cls(crate::gram::Cls::Any), Empty], REG_UN, &[Op::Seq, Op::Alt], size)
}
pub fn regions(size: usize, len: usize, what: What) -> Part {
    fam(
        "regions",
        format!("all patterns of <= {size} nodes over leaves 'a' \"\\n\" any_char empty; * ? line lines section sections seq alt; all texts over {{a,\\n}} of length <= {len}"),
        region_pats(size),
        strings(&["a", "\n"], len),
        what,
    )
}
/// regions of every kind around and inside combinations
pub fn region_bodies(ctx: usize, body: usize, len: usize, what: What) -> Part {
    let cs = contexts(&[Ch('b')], REG_UN, &[Op::Seq, Op::Alt], ctx);
    let bs = upto(&[Ch('a'), Ch('b'), Lit("\n")], &[Op::Star, Op::Opt, Op::Line, Op::Section], &[Op::Seq, Op::Alt], body);
    fam(
        "region contexts x bodies",
        format!("contexts of <= {ctx} nodes x bodies of <= {body} nodes; all texts over {{a,b,\\n}} of length <= {len}"),
        product(&cs, &bs),
        strings(&["a", "b", "\n"], len),
        what,
    )
}
pub fn multibyte(size: usize, len: usize, what: What) -> Part {
    fam(
        "multi-byte text",
        format!("all patterns of <= {size} nodes over leaves \"é\" '😂' any_char alpha char_of; * ? string line seq alt; all texts over {{é,😂,a,\\n}} of length <= {len}"),
        upto(
            &[Lit("é"), Ch('😂'), G::Cls(crate::gram::Cls::Any), G::Cls(crate::gram::Cls::Alpha), CharOf("é😂a")],
            &[Op::Star, Op::Opt, Op::Str, Op::Line],
            &[Op::Seq, Op::Alt],
            size,
        ),
        strings(&["é", "😂", "a", "\n"], len),
        what,
    )
}
pub fn numbers(size: usize, len: usize, what: What) -> Part {
    use crate::gram::{Cls, Num};
    fam(
        "numbers in patterns",
        format!("all patterns of <= {size} nodes over leaves u8 i8 u8_hex digit bool ',' '-'; * + ? seq alt repeat_sep; all texts over {{2,9,a,-,\\,}} of length <= {len}"),
        upto(
            &[G::Num(Num::U8), G::Num(Num::I8), G::Num(Num::U8Hex), G::Cls(Cls::Digit), Ch(','), Ch('-')],
            &[Op::Star, Op::Plus, Op::Opt],
            BIN,
            size,
        ),
        strings(&["2", "9", "a", "-", ","], len),
        what,
    )
}
/// one- and two-rule sets (not left-recursive), the entry being the first rule
/// alone or inside a context
pub fn one_rule_pats(size: usize) -> Vec<P> {
    let bodies = upto(
        &[Ch('a'), Ch('b'), Rule(0, 0), Empty],
        &[Op::Star, Op::Opt, Op::Str, Op::Map, Op::Line],
        &[Op::Seq, Op::Alt, Op::RepSep],
        size,
    );
    let r = p(Rule(0, 0));
    let entries: Vec<P> = vec![
        r.clone(),
        p(Seq(r.clone(), r.clone())),
        p(Star(p(Seq(p(Ch('b')), r.clone())))),
        p(Alt(p(Seq(r.clone(), p(Ch('b')))), r.clone())),
    ];
    let mut v = vec![];
    for b in bodies {
        let uses = b.any(&|g| matches!(g, Rule(..)));
        if left_recursive(&[b.clone()]) {
            continue;
        }
        for (i, e) in entries.iter().enumerate() {
            if uses || i == 1 {
                v.push(p(Rules(vec![b.clone()], e.clone())));
            }
        }
    }
    v
}
pub fn two_rule_pats(size: usize) -> Vec<P> {
    let bodies = upto(
        &[Ch('a'), Ch('b'), Rule(0, 0), Rule(0, 1)],
        &[Op::Star, Op::Opt, Op::Line],
        &[Op::Seq, Op::Alt],
        size,
    );
    let mut v = vec![];
    for a in &bodies {
        if !a.any(&|g| *g == Rule(0, 1)) {
            continue;
        }
        for b in &bodies {
            let rs = vec![a.clone(), b.clone()];
            if left_recursive(&rs) {
                continue;
            }
            v.push(p(Rules(rs.clone(), p(Rule(0, 0)))));
        }
    }
    v
}
pub fn one_rule(size: usize, len: usize, what: What) -> Part {
    fam(
        "one-rule sets",
        format!("all bodies of <= {size} nodes over 'a' 'b' the rule itself empty; * ? string => line seq alt repeat_sep; 4 entry patterns; all texts over {{a,b}} of length <= {len}"),
        one_rule_pats(size),
        strings(&["a", "b"], len),
        what,
    )
}
pub fn two_rules(size: usize, len: usize, what: What) -> Part {
    fam(
        "two-rule sets",
        format!("all pairs of bodies of <= {size} nodes over 'a' 'b' and both rules; * ? line seq alt; all texts over {{a,b}} of length <= {len}"),
        two_rule_pats(size),
        strings(&["a", "b"], len),
        what,
    )
}
pub fn collections(size: usize, len: usize, what: What) -> Part {
    use crate::gram::Coll as C;
    let bodies = upto(&[Ch('a'), Str(p(Lit("ab"))), CharOf("ab"), G::Cls(crate::gram::Cls::Any)], &[Op::Opt, Op::Plus], &[Op::Alt, Op::Seq], size);
    let mut v = vec![];
    for b in &bodies {
        for c in [C::HSet, C::BSet, C::Deq] {
            v.push(p(Coll(c, b.clone(), None)));
            v.push(p(Coll(c, b.clone(), Some(p(Opt(p(Ch('b'))))))));
            v.push(p(Seq(p(Coll(c, b.clone(), None)), p(Ch('b')))));
        }
        for c in [C::HMap, C::BMap] {
            for x in bodies.iter().take(8) {
                v.push(p(CollMap(c, b.clone(), x.clone())));
                v.push(p(CollMap(c, x.clone(), b.clone())));
            }
        }
    }
    fam(
        "collections",
        format!("hash_set btree_set vec_deque hash_map btree_map over bodies of <= {size} nodes; all texts over {{a,b}} of length <= {len}"),
        v,
        strings(&["a", "b"], len),
        what,
    )
}

/// Numbers of repetitions where counters and buffers end.
fn turns(max: usize) -> Vec<usize> {
    [4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025]
        .into_iter()
        .filter(|n| *n <= max)
        .collect()
}
/// Texts u v^n w: (u, v, w) in groups, so that a group can be given up when a
/// pattern is too ambiguous on it.
fn pumps(us: &[&str], vs: &[&str], ws: &[&str], max: usize) -> Vec<Vec<String>> {
    let mut out = vec![];
    for u in us {
        for v in vs {
            for w in ws {
                out.push(turns(max).iter().map(|n| format!("{u}{}{w}", v.repeat(*n))).collect());
            }
        }
    }
    out
}
fn pumped_fam(name: &str, bounds: &str, pats: Vec<P>, groups: Vec<Vec<String>>, max: usize, cap: u64, what: What) -> Part {
    pumped_with(name, bounds, pats, groups, max, cap, move |cx, g, b, s| {
        compare(cx, g, b, s, what);
    })
}
pub fn pumped_with(
    name: &str,
    bounds: &str,
    pats: Vec<P>,
    groups: Vec<Vec<String>>,
    max: usize,
    cap: u64,
    f: impl Fn(&mut Ctx, &P, &Bx, &str) + Send + Sync + 'static,
) -> Part {
    let n = groups.iter().map(|g| g.len()).sum::<usize>();
    let bounds = format!("{bounds}, n in {:?}; up to {cap} steps of the model each: {} patterns x {n} inputs", turns(max), pats.len());
    Part {
        name: name.into(),
        bounds,
        units: pats.len(),
        run: Box::new(move |u, cx| {
            let g = &pats[u];
            let b = crate::dynp::build(g);
            model::CAP.with(|c| c.set(cap));
            for ss in &groups {
                for s in ss {
                    let was = cx.skipped;
                    f(cx, g, &b, s);
                    if cx.viol.is_some() {
                        return;
                    }
                    if cx.skipped > was {
                        // the longer ones are beyond the cap too
                        cx.skipped = was;
                        break;
                    }
                }
            }
            model::CAP.with(|c| c.set(2_000_000));
        }),
    }
}
fn repeats(g: &P) -> bool {
    g.any(&|g| matches!(g, Star(_) | Plus(_) | RepSep(..) | Lines(_) | Sections(_) | Coll(..) | Rules(..)))
}
pub fn pumps_ab(max: usize) -> Vec<Vec<String>> {
    pumps(&["", "a", "b"], &["a", "b", "ab", "ba", "aab"], &["", "a", "b"], max)
}
pub fn pumps_lines(max: usize) -> Vec<Vec<String>> {
    pumps(&["", "a", "\n"], &["a", "\n", "a\n", "a\n\n", "aa\n", "a\na\n\n"], &["", "a", "\n"], max)
}
/// Stepping through all matches on such texts.
pub fn pumped_steps(t: Tier) -> Vec<Part> {
    let max = t.pick(65, 257);
    let cap = t.pick(3_000, 60_000);
    let f = |cx: &mut Ctx, g: &P, b: &Bx, s: &str| step_check_as(cx, g, b, s, 0, false);
    let ab: Vec<P> = upto(&[Lit("a"), Lit("ab"), Ch('b')], &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::RuleWrap], BIN, 4).into_iter().filter(repeats).collect();
    let ls: Vec<P> = upto(&[Ch('a'), G::Cls(crate::gram::Cls::Any)], REG_UN, &[Op::Seq, Op::Alt], 4).into_iter().filter(repeats).collect();
    vec![
        pumped_with("stepping on long texts", "all patterns of small size with a repetition; all texts u v^n w with u, w of <= 1 and v of <= 3 characters over {a,b}", ab, pumps_ab(max), max, cap, f),
        pumped_with("stepping on long texts of lines", "all patterns of small size with a repetition; all texts u v^n w with u, w of <= 1 and v of <= 5 characters over {a,\\n}", ls, pumps_lines(max), max, cap, f),
        fam_with(
            "stepping through deep nesting",
            format!("every two of 20 ways of wrapping a pattern, in turns, up to {} deep; up to {} steps of the model each", t.pick(17, 33), t.pick(2_000, 20_000)),
            deep_pats(t.pick(17, 33)),
            strings(&["a", "b", "\n"], 2).into_iter().chain(["aaaaaaa".into(), "bbbbbbba".into(), "abbbbbbbbbb".into()]).collect(),
            move |cx, g, b, s| {
                model::CAP.with(|c| c.set(t.pick(2_000, 20_000)));
                let was = cx.skipped;
                step_check_as(cx, g, b, s, 0, false);
                cx.skipped = was;
                model::CAP.with(|c| c.set(2_000_000));
            },
        ),
    ]
}
/// Small patterns on long texts made of one short piece again and again.
pub fn pumped(t: Tier, what: What) -> Part {
    pumped_of(t, what, |_| true)
}
pub fn pumped_of(t: Tier, what: What, only: fn(&G) -> bool) -> Part {
    let pats: Vec<P> = upto(&[Lit("a"), Lit("ab"), Ch('b')], &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::Line, Op::RuleWrap], BIN, 4).into_iter().filter(|g| repeats(g) && g.any(&only)).collect();
    let gs = pumps_ab(t.pick(129, 1025));
    pumped_fam("long texts", "all patterns of small size with a repetition; all texts u v^n w with u, w of <= 1 and v of <= 3 characters over {a,b}", pats, gs, t.pick(129, 1025), t.pick(3_000, 60_000), what)
}
pub fn pumped_pats(t: Tier, name: &str, what_pats: &str, pats: Vec<P>, what: What) -> Part {
    let max = t.pick(65, 513);
    pumped_fam(name, &format!("{what_pats}; all texts u v^n w with u, w of <= 1 and v of <= 3 characters over {{a,b}}"), pats, pumps_ab(max), max, t.pick(3_000, 60_000), what)
}
pub fn pumped_regions(t: Tier, what: What) -> Part {
    pumped_regions_of(t, what, &[], |_| true)
}
pub fn pumped_regions_of(t: Tier, what: What, more: &[Op], only: fn(&G) -> bool) -> Part {
    let un: Vec<Op> = REG_UN.iter().chain(more).copied().collect();
    let pats: Vec<P> = upto(&[Ch('a'), Lit("\n"), G::Cls(crate::gram::Cls::Any)], &un, &[Op::Seq, Op::Alt], 4).into_iter().filter(|g| repeats(g) && g.any(&only)).collect();
    let gs = pumps_lines(t.pick(33, 513));
    pumped_fam("long texts of lines", "all patterns of small size with a repetition; all texts u v^n w with u, w of <= 1 and v of <= 5 characters over {a,\\n}", pats, gs, t.pick(33, 513), t.pick(3_000, 60_000), what)
}
/// A match that takes as much as it can of a long text (or as little), where
/// only one far from its first choice will do.
pub fn far_back(t: Tier, what: What) -> Part {
    use crate::gram::Cls::Any;
    let any = || p(G::Cls(Any));
    let a = || p(Ch('a'));
    let ls = || p(Alt(a(), p(Ch('\n'))));
    let ab = || p(Alt(a(), p(Ch('b'))));
    // the part that has to be backed out of
    let firsts: Vec<P> = vec![
        p(Star(any())),
        p(Plus(ab())),
        p(Star(p(Alt(p(Lit("b")), a())))),
        p(Str(p(Star(any())))),
        p(Map(0, p(Star(any())))),
        p(Star(p(Map(0, any())))),
        p(Star(p(Seq(any(), p(Opt(p(Lit("c")))))))),
        p(Star(p(Seq(p(Opt(p(Lit("c")))), any())))),
        p(RepSep(any(), p(Lit("")))),
        p(RepSep(p(Lit("")), any())),
        p(Rules(vec![p(Star(any()))], p(Rule(0, 0)))),
        p(Rules(vec![any()], p(Star(p(Rule(0, 0)))))),
        p(Opt(p(Star(any())))),
        p(Alt(p(Plus(any())), p(Lit("zz")))),
        p(Alt(p(Lit("zz")), p(Plus(any())))),
        p(Paren(p(Seq(a(), p(Star(any())))))),
        p(Lines(p(Star(a())))),
        p(Star(p(Line(p(Star(a())))))),
        p(Sections(p(Star(a())))),
        p(Star(p(Section(p(Star(ls())))))),
        // few first, more when asked
        p(Rules(vec![p(Alt(p(Empty), p(Seq(any(), p(Rule(0, 0))))))], p(Rule(0, 0)))),
        p(Rules(vec![p(Alt(p(Seq(any(), p(Rule(0, 0)))), p(Lit(""))))], p(Rule(0, 0)))),
    ];
    // what must come after it
    let thens: Vec<P> = vec![
        p(Seq(p(Ch('b')), p(Star(any())))),
        p(Seq(p(Lit("b")), p(Str(p(Star(any())))))),
        p(Alt(p(Seq(p(Lit("ba")), p(Star(any())))), p(Lit("zz")))),
        p(Rules(vec![p(Seq(p(Ch('b')), p(Star(any()))))], p(Rule(0, 0)))),
        p(Line(p(Seq(p(Ch('b')), p(Star(any())))))),
        p(Section(p(Seq(p(Ch('b')), p(Star(any())))))),
    ];
    let wraps: Vec<fn(P) -> P> = vec![
        |x| x,
        |x| p(Line(x)),
        |x| p(Section(x)),
        |x| p(Str(x)),
        |x| p(Opt(x)),
        |x| p(Star(x)),
        |x| p(Alt(x, p(Lit("zz")))),
        |x| p(Alt(p(Lit("zz")), x)),
        |x| p(Seq(x, p(Opt(p(Lit("c")))))),
        |x| p(Rules(vec![x], p(Rule(0, 0)))),
    ];
    let ns = t.pick(vec![5, 17, 33, 65, 129, 257, 300], turns(1025));
    let long = t.pick(1100, 5000);
    let mut cases = vec![];
    for (i, f) in firsts.iter().enumerate() {
        // each match of these is as many rules deep as it is long
        let deep = i + 2 >= firsts.len();
        for (j, w) in wraps.iter().enumerate() {
            let mut ns: Vec<usize> = ns.iter().copied().filter(|n| !deep || *n < 40).collect();
            if j == 0 && !deep {
                ns.push(long);
            }
            for n in &thens {
                cases.push((w(p(Seq(f.clone(), n.clone()))), ns.clone()));
            }
            // nothing after it: the first choice must be all, or become so
            cases.push((w(f.clone()), ns));
        }
    }
    let cap = t.pick(60_000, 600_000);
    Part {
        name: "far from the first choice".into(),
        bounds: format!("{} ways of taking much or little x 7 things that must follow x 10 contexts, on 6 sorts of text of n in {ns:?} pieces (the barest also on {long}; below 40 where every match nests), {cap} steps of the model each", firsts.len()),
        units: cases.len(),
        run: Box::new(move |u, cx| {
            let (g, ns) = &cases[u];
            let b = crate::dynp::build(g);
            model::CAP.with(|c| c.set(cap));
            for (u, v, w, x, y) in [("a", "\n", "b", "a", ""), ("aa", "", "b", "a", ""), ("", "", "a", "a", "b"), ("a", "", "b", "a", "\n"), ("", "\n", "b", "a\n", ""), ("aa", "\n\n", "b", "a\n\n", "a")] {
                for n in ns {
                    let was = cx.skipped;
                    compare(cx, g, &b, &format!("{u}{v}{w}{}{y}", x.repeat(*n)), what);
                    if cx.viol.is_some() {
                        return;
                    }
                    if cx.skipped > was {
                        cx.skipped = was;
                        break;
                    }
                }
            }
            model::CAP.with(|c| c.set(2_000_000));
        }),
    }
}
/// Texts so long that ten thousand things fail on the way.
pub fn very_long(t: Tier, what: What) -> Part {
    let ab = || p(Alt(p(Ch('a')), p(Ch('b'))));
    let ba = || p(Alt(p(Map(0, p(Lit("b")))), p(Map(1, p(Ch('a'))))));
    let num = || p(G::Num(crate::gram::Num::U8));
    let firsts: Vec<P> = vec![
        p(Star(ab())),
        p(Plus(p(Alt(p(Lit("ba")), ba())))),
        p(RepSep(ab(), p(Ch(',')))),
        p(RepSep(p(Plus(ab())), p(Alt(p(Lit(", ")), p(Ch(',')))))),
        p(Star(p(Seq(p(Opt(p(Ch('a')))), p(Ch('b')))))),
        p(Str(p(Star(ab())))),
        p(Lines(p(Star(ab())))),
        p(Lines(ba())),
        p(Sections(p(Lines(ab())))),
        p(Star(p(Section(p(Plus(p(Line(ab())))))))),
        p(Rules(vec![ab()], p(Star(p(Rule(0, 0)))))),
        p(Star(p(Rules(vec![ba()], p(Rule(0, 0)))))),
        p(Coll(crate::gram::Coll::Deq, ab(), None)),
        p(RepSep(num(), p(Ch(',')))),
    ];
    let mut cases = vec![];
    for f in firsts {
        for g in [f.clone(), p(Seq(f.clone(), p(Ch('!')))), p(Alt(p(Seq(f.clone(), p(Lit("!!")))), f.clone()))] {
            for v in ["b", "ab", "a,", "b, ", "a\n", "b\n\n", "a\nb\n\n", "7,"] {
                cases.push((g.clone(), "", v, usize::MAX));
            }
        }
    }
    let ns = t.pick(vec![3_000, 12_000], vec![3_000, 12_000, 40_000, 70_000]);
    by_law(
        "very long texts",
        "14 lists, alone, before '!' and given up, on u^n v for 8 sorts of u and 6 of v",
        cases,
        &["", "a", "!", "?", "b!", "c\n"],
        ns,
        20_000_000,
        what,
    )
}
/// Texts whose one way to match is as many choices back as they are long.
pub fn very_far_back(t: Tier, what: What) -> Part {
    use crate::gram::Cls::Any;
    let any = || p(G::Cls(Any));
    let ab = || p(Alt(p(Ch('a')), p(Ch('b'))));
    let firsts: Vec<P> = vec![
        p(Star(any())),
        p(Plus(ab())),
        p(Star(p(Alt(p(Lit("b")), p(Ch('a')))))),
        p(Star(p(Alt(p(Lit("aa")), any())))),
        p(Str(p(Star(any())))),
        p(Map(0, p(Star(any())))),
        p(Star(p(Map(0, any())))),
        p(RepSep(any(), p(Lit("")))),
        p(RepSep(p(Lit("")), any())),
        p(RepSep(p(Plus(p(Ch('b')))), p(Plus(p(Ch('a')))))),
        p(Rules(vec![p(Star(any()))], p(Rule(0, 0)))),
        p(Star(p(Rules(vec![any()], p(Rule(0, 0)))))),
        p(Opt(p(Star(any())))),
        p(Alt(p(Plus(any())), p(Lit("zz")))),
        p(Alt(p(Lit("zz")), p(Star(any())))),
        p(Paren(p(Seq(ab(), p(Star(any())))))),
        p(Seq(p(Star(any())), p(Opt(p(Lit("c")))))),
        p(Seq(p(Opt(p(Lit("c")))), p(Star(any())))),
        p(Str(p(RepSep(any(), p(Lit("")))))),
        p(Coll(crate::gram::Coll::Deq, any(), None)),
    ];
    fn seq(x: P, y: P) -> P {
        p(Seq(x, y))
    }
    let thens: Vec<fn(P) -> P> = vec![
        |x| seq(x, seq(p(Ch('b')), p(Str(p(Star(p(G::Cls(Any)))))))),
        |x| seq(x, p(Str(seq(p(Lit("b")), p(Star(p(Alt(p(Lit("a")), p(Ch('c')))))))))),
        |x| p(Line(seq(x, seq(p(Ch('b')), p(Star(p(Ch('a')))))))),
        |x| seq(x, p(Alt(seq(p(Lit("ba")), p(Star(p(G::Cls(Any))))), p(Lit("zz"))))),
        |x| p(Section(seq(x, seq(p(Opt(p(Ch('!')))), seq(p(Lit("ba")), p(Str(p(Star(p(Ch('a'))))))))))),
        |x| seq(p(Ch('b')), seq(x, seq(p(Ch('b')), p(Star(p(Ch('a'))))))),
        |x| p(Alt(seq(x.clone(), p(Ch('c'))), seq(x, p(Rules(vec![p(Ch('b'))], seq(p(Rule(0, 0)), p(Str(p(Star(p(Ch('a')))))))))))),
    ];
    let most = t.pick(5_000, 70_000);
    let mut cases = vec![];
    for f in &firsts {
        for w in &thens {
            for u in ["b", "ab", "bb", "bab"] {
                cases.push((w(f.clone()), u, "a", if u == "ab" { usize::MAX } else { most }));
            }
        }
        // the whole of it is taken, and the whole of it given up
        cases.push((p(Seq(f.clone(), p(Ch('c')))), "", "a", usize::MAX));
        cases.push((p(Alt(p(Seq(f.clone(), p(Ch('c')))), p(Str(p(Star(any())))))), "b", "a", usize::MAX));
    }
    let ns = t.pick(vec![5_000, 70_000], vec![300, 5_000, 33_000, 70_000, 140_000, 300_000]);
    by_law(
        "very far back",
        "20 ways of taking everything x 9 things around them whose match begins 1 to 3 pieces into the text, on u a^n v for 4 sorts of u (beyond n = 5000, thorough 70000, only 1) and 2 of v",
        cases,
        &["", "\n"],
        ns,
        t.pick(20_000_000, 60_000_000),
        what,
    )
}
/// Each pattern on u v^n w, for every w of some, against the law that the
/// model's outcomes for small n follow.
fn by_law(name: &str, bounds: &str, cases: Vec<(P, &'static str, &'static str, usize)>, ws: &'static [&'static str], ns: Vec<usize>, most: u64, what: What) -> Part {
    Part {
        name: name.into(),
        bounds: format!("{bounds}, n in {ns:?}: where the model's outcomes for n = {}..{} all follow from one another, the outcome that follows for n ({most} steps of the model at most)", Law::FROM, Law::TO),
        units: cases.len(),
        run: Box::new(move |i, cx| {
            let (g, u, v, max) = &cases[i];
            let b = crate::dynp::build(g);
            for w in ws {
                let text = |n: usize| format!("{u}{}{w}", v.repeat(n));
                let Some(law) = Law::of(g, text) else { continue };
                for n in &ns {
                    if law.steps(*n) > most || n > max {
                        break;
                    }
                    let s = text(*n);
                    if !cx.case(|| format!("parser!({}) on {u:?}, {v:?} {n} times, then {w:?}", g.src())) {
                        return;
                    }
                    let want = law.outcome(&s, *n);
                    let _ = take_log();
                    let out = real_parse(&b, &s, budget_for(law.steps(*n)));
                    cx.transitions += steps();
                    cx.states += 1;
                    cx.executions += 1;
                    let bad = |why: &str| {
                        let cut = |s: String| if s.len() > 400 { format!("{}... ({} bytes)", s.chars().take(300).collect::<String>(), s.len()) } else { s };
                        let want = match &want {
                            Ok(x) => format!("Ok({x})"),
                            Err((l, x)) => format!("Err(byte {l}: {x})"),
                        };
                        format!("parser!({}) on {u:?}, {v:?} {n} times, then {w:?}: {why}\n  expected {}\n  got      {}", g.src(), cut(want), cut(out.show()))
                    };
                    if take_breach().is_some() {
                        cx.fail(bad("match protocol broken"));
                        return;
                    }
                    match (&want, &out) {
                        (_, Out::Panic(_)) => cx.fail(bad("panicked")),
                        (_, Out::Budget) => cx.fail(bad("did not finish")),
                        (Ok(x), Out::Ok(y)) => {
                            cx.accepted += 1;
                            if matches!(what, What::Value | What::AcceptValue | What::All) && *x != y.to_string() {
                                cx.fail(bad("wrong value"));
                            }
                        }
                        (Err((l, x)), Out::Err(e)) => {
                            cx.rejected += 1;
                            if matches!(what, What::Error | What::All) && (e.location != *l || e.to_string() != *x) {
                                cx.fail(bad("wrong failure reported"));
                            }
                        }
                        (Ok(_), Out::Err(_)) if !matches!(what, What::Error | What::Total) => cx.fail(bad("rejected, but the pattern can match the whole input")),
                        (Err(_), Out::Ok(_)) if !matches!(what, What::Value | What::Total) => cx.fail(bad("accepted, but the pattern cannot match the whole input")),
                        _ => {}
                    }
                    if cx.viol.is_some() {
                        return;
                    }
                }
            }
        }),
    }
}
/// How the model's outcome on u^n v grows with n.
struct Law {
    /// steps of the model: at 6, and the first and second difference
    st: (u64, u64, u64),
    how: How,
}
enum How {
    /// the value printed at 6, where it grows, and by what
    Ok(String, usize, String),
    /// where the failure is at 6, by how much that grows, and what it says
    Err(usize, usize, String),
}
impl Law {
    const FROM: usize = 6;
    const TO: usize = 14;
    fn of(g: &P, text: impl Fn(usize) -> String) -> Option<Law> {
        let rs: Vec<_> = (Self::FROM..=Self::TO).map(|n| model::parse(g, &text(n))).collect();
        if rs.iter().any(|r| r.capped) {
            return None;
        }
        let d = |i: usize| rs[i + 1].steps.checked_sub(rs[i].steps);
        let st = (rs[0].steps, d(0)?, d(1)?.checked_sub(d(0)?)?);
        let how = match (&rs[0].result, &rs[1].result) {
            (Ok(x), Ok(y)) => {
                let (x, y) = (x.to_string(), y.to_string());
                let more = y.len().checked_sub(x.len())?;
                let i = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
                How::Ok(x, i, y.get(i..i + more)?.to_string())
            }
            (Err((l, e)), Err((m, _))) => How::Err(*l, m.checked_sub(*l)?, e.text()),
            _ => return None,
        };
        let law = Law { st, how };
        let same = rs.iter().enumerate().all(|(i, r)| {
            let n = Self::FROM + i;
            let s = text(n);
            let is = match &r.result {
                Ok(v) => Ok(v.to_string()),
                Err((l, e)) => Err((*l, format!("{} {}", e.text(), model::place(&s, *l)))),
            };
            law.steps(n) == r.steps && law.outcome(&s, n) == is
        });
        same.then_some(law)
    }
    fn steps(&self, n: usize) -> u64 {
        let k = (n - Self::FROM) as u64;
        self.st.0 + self.st.1 * k + self.st.2 * (k * k.saturating_sub(1) / 2)
    }
    fn outcome(&self, s: &str, n: usize) -> Result<String, (usize, String)> {
        let k = n - Self::FROM;
        match &self.how {
            How::Ok(x, i, more) => Ok(format!("{}{}{}", &x[..*i], more.repeat(k), &x[*i..])),
            How::Err(l, d, e) => Err((l + d * k, format!("{e} {}", model::place(s, l + d * k)))),
        }
    }
}
/// One or two ways of wrapping, in turns, n deep.
pub fn deep_pats(max: usize) -> Vec<P> {
    type W = fn(P) -> P;
    let ws: &[W] = &[
        |x| p(Star(x)),
        |x| p(Plus(x)),
        |x| p(Opt(x)),
        |x| p(Str(x)),
        |x| p(Line(x)),
        |x| p(Lines(x)),
        |x| p(Section(x)),
        |x| p(Sections(x)),
        |x| p(Map(0, x)),
        |x| p(Paren(x)),
        |x| p(Ref_(x)),
        |x| p(Rules(vec![x], p(Rule(0, 0)))),
        |x| p(Seq(x, p(Opt(p(Ch('a')))))),
        |x| p(Seq(p(Opt(p(Ch('b')))), x)),
        |x| p(Alt(x, p(Lit("ab")))),
        |x| p(Alt(p(Lit("b")), x)),
        |x| p(RepSep(x, p(Ch('b')))),
        |x| p(RepSep(p(Ch('b')), x)),
        |x| p(Seq(x, p(Lit("")))),
        |x| p(Alt(p(Seq(x, p(Ch('b')))), p(Str(p(Star(p(Ch('a')))))))),
    ];
    let mut out = vec![];
    for w1 in ws {
        for w2 in ws {
            for n in [6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100].into_iter().filter(|n| *n <= max) {
                let mut g = p(Ch('a'));
                for i in 0..n {
                    g = if i % 2 == 0 { w1(g) } else { w2(g) };
                }
                out.push(g);
            }
        }
    }
    out
}
pub fn deep(t: Tier, what: What) -> Part {
    let mut inputs = strings(&["a", "b", "\n"], 2);
    for n in [3, 7, 16, 33] {
        inputs.push("a".repeat(n));
        inputs.push("b".repeat(n) + "a");
        inputs.push("a".to_string() + &"b".repeat(n));
    }
    fam_with(
        "deep nesting",
        format!("every two of 20 ways of wrapping a pattern, in turns, up to {} deep; up to {} steps of the model each",  t.pick(33, 100), t.pick(4_000, 50_000)),
        deep_pats(t.pick(33, 100)),
        inputs,
        move |cx, g, b, s| {
            model::CAP.with(|c| c.set(t.pick(4_000, 50_000)));
            let was = cx.skipped;
            compare(cx, g, b, s, what);
            cx.skipped = was; // the bound says how far the model is followed
            model::CAP.with(|c| c.set(2_000_000));
        },
    )
}

/// Every family, with one oracle.
pub fn everything(t: Tier, what: What) -> Vec<Part> {
    vec![
        combinators(t.pick(5, 6), t.pick(6, 6), what),
        wide(t.pick(5, 7), what),
        regions(t.pick(5, 6), t.pick(6, 7), what),
        region_bodies(t.pick(3, 3), t.pick(3, 4), t.pick(5, 5), what),
        multibyte(t.pick(4, 5), t.pick(4, 4), what),
        numbers(t.pick(3, 4), t.pick(5, 5), what),
        one_rule(t.pick(4, 5), t.pick(5, 6), what),
        two_rules(t.pick(3, 4), t.pick(5, 5), what),
        collections(t.pick(3, 4), t.pick(6, 7), what),
        pumped(t, what),
        pumped_regions(t, what),
        far_back(t, what),
        very_long(t, what),
        very_far_back(t, what),
        deep(t, what),
        whole_fam(|_| true, t.pick(6, 8), what),
        puzzles(|_| true, t.pick(24, 45), what),
    ]
}

pub fn p01(t: Tier) -> Parts {
    (everything(t, What::Accept), vec![])
}
pub fn p02(t: Tier) -> Parts {
    (everything(t, What::Value), vec![])
}

// ---- stepping through matches

/// Every match of `g` from `at`, real against model; each converted twice when
/// met; and a second pass converting only the last.
pub fn step_check(cx: &mut Ctx, g: &P, b: &Bx, s: &str, at: usize) {
    step_check_as(cx, g, b, s, at, false)
}
pub fn step_check_as(cx: &mut Ctx, g: &P, b: &Bx, s: &str, at: usize, whole: bool) {
    if !cx.case(|| format!("stepping parser!({}) from byte {at} of {s:?}", g.src())) {
        return;
    }
    let Some(want) = model::all_as(g, s, at, 600, whole) else {
        cx.skipped += 1;
        return;
    };
    let budget = 200_000_000;
    let show = |v: &[(usize, Val)]| {
        v.iter().map(|(e, v)| format!("(..{e}) {v}")).collect::<Vec<_>>().join("; ")
    };
    for pass in 0..2 {
        let got = guarded(budget, || {
            let mut pc = ParseContext::new(s);
            let mut got: Vec<(usize, Val)> = vec![];
            let mut why = None;
            let mut n = 0usize;
            match b.parse_iter(&mut pc, at) {
                Err(_) => {
                    // a failed start has always reported a failure
                    let e = pc.into_reported_error();
                    if e.location < at {
                        why = Some(format!("failure reported at {} before the start", e.location));
                    }
                }
                Ok(mut it) => loop {
                    n += 1;
                    if n > want.len() + 1 {
                        break;
                    }
                    if pass == 0 {
                        let e = it.match_end();
                        let v = it.convert().0;
                        if it.match_end() != e {
                            why = Some("converting moved the end of the match".to_string());
                        }
                        if it.convert().0 != v {
                            why = Some("two conversions of one match differ".to_string());
                        }
                        got.push((e, v));
                    } else if n == want.len() {
                        got.push((it.match_end(), it.convert().0));
                    }
                    if it.backtrack(&mut pc).is_err() {
                        break;
                    }
                },
            }
            (got, why, n)
        });
        cx.transitions += steps();
        cx.executions += 1;
        let _ = take_log();
        let breach = take_breach();
        let fail = |cx: &mut Ctx, got: String| {
            cx.fail(format!(
                "stepping through the matches of parser!({}) from byte {at} of {s:?}:\n  expected {}\n  got      {got}",
                g.src(),
                show(&want)
            ))
        };
        match got {
            Err(o) => return fail(cx, o.show()),
            Ok((got, why, n)) => {
                if let Some(w) = breach.or(why) {
                    return fail(cx, w);
                }
                if pass == 0 {
                    cx.states += n as u64;
                    if got != want {
                        return fail(cx, show(&got));
                    }
                    if want.is_empty() {
                        cx.rejected += 1;
                    } else {
                        cx.accepted += 1;
                    }
                    cx.outcome(&got);
                    cx.sample(|| format!("parser!({}) from byte {at} of {s:?}: {}", g.src(), show(&got)));
                } else if n != want.len() || got.as_slice() != &want[want.len().saturating_sub(1)..] {
                    return fail(cx, format!("(converting only the last match) {n} matches, last {}", show(&got)));
                }
            }
        }
        if want.is_empty() {
            break;
        }
    }
}
pub fn steps_fam(name: &str, bounds: String, pats: Vec<P>, inputs: Vec<String>) -> Part {
    fam_with(name, format!("{bounds}; from every character boundary"), pats, inputs, |cx, g, b, s| {
        for at in (0..=s.len()).filter(|i| s.is_char_boundary(*i)) {
            step_check(cx, g, b, s, at);
        }
    })
}
pub fn whole_steps(only: fn(&G) -> bool, len: usize) -> Part {
    let mut part = whole_with(only, len, |cx, g, b, s| {
        for at in (0..=s.len()).filter(|i| s.is_char_boundary(*i)) {
            step_check_as(cx, g, b, s, at, true);
        }
    });
    part.name = "stepping through patterns written out whole".into();
    part
}
pub fn p03(t: Tier) -> Parts {
    use crate::gram::Cls as C;
    let mut parts = vec![
        whole_steps(|_| true, t.pick(5, 6)),
        puzzles_with(|_| true, t.pick(0, 24), |cx, g, b, s| {
            for at in (0..=s.len()).filter(|i| s.is_char_boundary(*i) && (*i == 0 || s.len() <= 40)) {
                step_check_as(cx, g, b, s, at, true);
            }
        }),
        steps_fam(
            "combinators",
            format!("all patterns of <= {} nodes over \"a\" \"ab\" 'b' empty", t.pick(5, 5)),
            upto(&[Lit("a"), Lit("ab"), Ch('b'), Empty], COMB_UN, BIN, 5),
            strings(&["a", "b"], t.pick(4, 6)),
        ),
        steps_fam("wide", "sequences and alternations of 3 to 8 parts".into(), wide_pats(), strings(&["a", "b"], t.pick(4, 6))),
        steps_fam(
            "regions",
            "all patterns of <= 5 nodes over 'a' \"\\n\" any_char empty with line lines section sections".into(),
            region_pats(5),
            strings(&["a", "\n"], t.pick(4, 6)),
        ),
        steps_fam(
            "multi-byte text",
            "all patterns of <= 4 nodes".into(),
            upto(
                &[Lit("é"), Ch('😂'), G::Cls(C::Any), G::Cls(C::Alpha), CharOf("é😂a")],
                &[Op::Star, Op::Opt, Op::Str, Op::Line],
                &[Op::Seq, Op::Alt],
                t.pick(4, 5),
            ),
            strings(&["é", "😂", "a"], t.pick(4, 4)),
        ),
        steps_fam("one-rule sets", "bodies of <= 4 nodes".into(), one_rule_pats(t.pick(4, 5)), strings(&["a", "b"], t.pick(4, 5))),
        steps_fam("two-rule sets", "bodies of <= 3 nodes".into(), two_rule_pats(t.pick(3, 4)), strings(&["a", "b"], t.pick(4, 4))),
        steps_fam(
            "nullable repetitions",
            "all patterns of <= 5 nodes over empty, 'a', with * + ? repeat_sep seq alt".into(),
            upto(&[Empty, Ch('a')], &[Op::Star, Op::Plus, Op::Opt], BIN, t.pick(5, 6)),
            strings(&["a", "b"], t.pick(4, 5)),
        ),
        list(
            "long repetitions",
            "\"a\"*, \"a\"+, repeat_sep(\"a\", \"\"), {\"aa\", \"a\"}* limited to greedy order: every number of matches over texts of every length up to the bound",
            ladder(t.pick(200, 600), t.pick(2048, 8192)),
            |cx, n| {
                let s = "a".repeat(*n);
                let a = p(Str(p(Ch('a'))));
                for (g, min) in [
                    (p(Star(a.clone())), 0usize),
                    (p(Plus(a.clone())), 1),
                    (p(RepSep(a.clone(), p(Empty))), 0),
                    (p(Star(p(Opt(a.clone())))), usize::MAX),
                ] {
                    if min == usize::MAX && *n > 8 {
                        continue;
                    }
                    if min == usize::MAX {
                        step_check(cx, &g, &crate::dynp::build(&g), &s, 0);
                        continue;
                    }
                    if !cx.case(|| format!("stepping {} over {n} a's", g.src())) {
                        return;
                    }
                    let b = crate::dynp::build(&g);
                    let ends = guarded(1 << 40, || {
                        let mut pc = ParseContext::new(&s);
                        let mut ends = vec![];
                        if let Ok(mut it) = b.parse_iter(&mut pc, 0) {
                            loop {
                                ends.push(it.match_end());
                                if it.backtrack(&mut pc).is_err() {
                                    break;
                                }
                            }
                        }
                        ends
                    });
                    cx.executions += 1;
                    cx.states += *n as u64 + 1;
                    cx.transitions += steps();
                    let want: Vec<usize> = (min..=*n).rev().collect();
                    match ends {
                        Ok(e) if e == want => cx.accepted += 1,
                        Ok(e) => cx.fail(format!("stepping {} over {n} a's: ends of the {} matches differ from {n}..={min} (first difference at match {:?})", g.src(), e.len(), e.iter().zip(&want).position(|(a, b)| a != b))),
                        Err(o) => cx.fail(format!("stepping {} over {n} a's: {}", g.src(), o.show())),
                    }
                }
            },
        ),
    ];
    parts.extend(pumped_steps(t));
    (parts, vec!["the type-erasing wrapper forwards every call unchanged (dynp.rs)"])
}

// ---- P05

pub fn p05(t: Tier) -> Parts {
    let mut parts = everything(t, What::Error);
    parts.push(super::errs::reports(t));
    parts.push(super::errs::reports_in_patterns(t));
    parts.push(super::errs::reports_in_regions(t));
    parts.push(super::errs::leaf_failures(t));
    (parts, vec!["failures inside a line or section that matched are not remembered (they cannot be further than its end)"])
}

// ---- P07, P08

fn line_chars(what: What, name: &str, pats: Vec<P>, t: Tier) -> Part {
    fam(
        name,
        "every text of length <= 5 over {a, \\n, \\r, U+2028, U+85, \\v, space, NUL}".into(),
        pats,
        strings(&["a", "\n", "\r", "\u{2028}", "\u{85}", "\u{b}", " ", "\0"], t.pick(4, 5)),
        what,
    )
}
pub fn p07(t: Tier) -> Parts {
    let any = p(G::Cls(Cls::Any));
    let word = p(Str(p(Star(any.clone()))));
    let un = &[Op::Star, Op::Opt, Op::Line, Op::Lines];
    let leaves = [Ch('a'), Lit("\n"), G::Cls(Cls::Any), Empty, Lit("a\na")];
    let has = |g: &P| g.any(&|x| matches!(x, Line(_) | Lines(_)));
    let pats: Vec<P> = upto(&leaves, un, &[Op::Seq, Op::Alt], t.pick(5, 6)).into_iter().filter(has).collect();
    let small: Vec<P> = upto(&leaves, un, &[Op::Seq, Op::Alt], t.pick(4, 5)).into_iter().filter(has).collect();
    let ctx = contexts(&[Ch('b'), Lit("\n")], &[Op::Star, Op::Line, Op::Lines, Op::Section, Op::Sections, Op::Str], &[Op::Seq, Op::Alt, Op::RepSep], 3);
    let bodies: Vec<P> = upto(&[Ch('a'), G::Cls(Cls::Any), Lit("\n")], &[Op::Line, Op::Lines, Op::Star, Op::Str, Op::Map], &[Op::Seq, Op::Alt], 3)
        .into_iter()
        .filter(has)
        .collect();
    let mut parts = vec![
        pumped_regions_of(t, What::AcceptValue, &[Op::Str, Op::Map], |g| matches!(g, Line(_) | Lines(_))),
        fam("lines", format!("all patterns of <= {} nodes with line or lines, all texts over {{a,\\n}} of length <= {}", t.pick(5, 6), t.pick(7, 7)), pats, strings(&["a", "\n"], 7), What::AcceptValue),
        steps_fam("lines from every position", "patterns of <= 4 nodes with line or lines; texts over {a,\\n}".into(), small, strings(&["a", "\n"], t.pick(6, 7))),
        fam("lines in contexts", format!("contexts of <= 3 nodes x bodies of <= 3 nodes; texts over {{a,b,\\n}} of length <= {}", t.pick(5, 6)), product(&ctx, &bodies), strings(&["a", "b", "\n"], t.pick(5, 6)), What::AcceptValue),
        line_chars(
            What::AcceptValue,
            "what ends a line",
            vec![
                p(Lines(word.clone())),
                p(Line(word.clone())),
                p(Seq(p(Line(word.clone())), word.clone())),
                p(Seq(any.clone(), p(Opt(p(Line(word.clone())))))),
                p(Seq(p(Lines(p(Str(p(Plus(any.clone())))))), word.clone())),
                p(Str(p(Lines(p(Star(any.clone())))))),
                p(Star(p(Seq(p(Line(any.clone())), p(Line(p(Seq(any.clone(), any.clone())))))))),
                p(Section(p(Lines(word.clone())))),
            ],
            t,
        ),
        fam(
            "multi-byte lines",
            "8 patterns, texts over {é,😂,\\n} of length <= 7".into(),
            vec![
                p(Lines(word.clone())),
                p(Lines(p(Star(any.clone())))),
                p(Line(p(Lit("é")))),
                p(Seq(p(Line(p(Star(p(Ch('😂')))))), p(Lines(p(Lit("é")))))),
                p(Seq(p(Star(p(Ch('é')))), p(Seq(p(Lit("\n")), p(Lines(any.clone())))))),
            ],
            strings(&["é", "😂", "\n"], t.pick(7, 8)),
            What::AcceptValue,
        ),
    ];
    parts.push(line_ladder(t));
    parts.push(whole_fam(|g| matches!(g, Line(_) | Lines(_)), t.pick(8, 9), What::AcceptValue));
    parts.push(puzzles(|g| matches!(g, Line(_) | Lines(_)), t.pick(24, 45), What::AcceptValue));
    (parts, vec![])
}
pub fn check_eq<T: std::fmt::Debug + PartialEq>(cx: &mut Ctx, desc: impl Fn() -> String, want: T, got: impl FnOnce() -> T) {
    if !cx.case(&desc) {
        return;
    }
    cx.executions += 1;
    cx.states += 1;
    cx.transitions += 1;
    let clip = |s: String| if s.chars().count() > 400 { format!("{}...", s.chars().take(400).collect::<String>()) } else { s };
    match guarded(1 << 40, got) {
        Ok(g) if g == want => {
            cx.accepted += 1;
            cx.sample(|| format!("{}: {}", desc(), clip(format!("{want:?}"))));
        }
        Ok(g) => cx.fail(format!("{}:\n  expected {}\n  got      {}", desc(), clip(format!("{want:?}")), clip(format!("{g:?}")))),
        Err(o) => cx.fail(format!("{}: {}", desc(), o.show())),
    }
}
fn line_ladder(t: Tier) -> Part {
    list(
        "long texts",
        "n lines, one line of n characters, n blank lines: every n up to the bound and around powers of two, with and without the final newline",
        ladder(t.pick(300, 1000), t.pick(1 << 17, 1 << 18)),
        |cx, n| {
            let n = *n;
            for fin in ["", "\n"] {
                let ws: Vec<u32> = (0..n as u32).map(|i| i % 13).collect();
                let body: Vec<String> = ws.iter().map(|w| w.to_string()).collect();
                let mut s = body.join("\n");
                if n > 0 {
                    s.push_str(fin);
                }
                check_eq(cx, || format!("lines(u32) on {n} lines, final newline {fin:?}"), Ok(ws.clone()), || parser!(lines(u32)).parse(&s).map_err(|e| e.to_string()));
                if n > 0 {
                    check_eq(cx, || format!("line(u32)+ on {n} lines, final newline {fin:?}"), Ok(ws.clone()), || parser!(line(u32)+).parse(&s).map_err(|e| e.to_string()));
                    // the last line does not fit
                    let bad = format!("{}x{fin}", s.trim_end_matches('\n'));
                    check_eq(cx, || format!("lines(u32) on {n} lines, the last with an extra x"), true, || parser!(lines(u32)).parse(&bad).is_err());
                    let long: String = "é".repeat(n);
                    check_eq(cx, || format!("lines(string(any_char*)) on a line of {n} two-byte characters and another"), Ok(vec![long.clone(), "z".to_string()]), || parser!(lines(string(any_char*))).parse(&format!("{long}\nz{fin}")).map_err(|e| e.to_string()));
                    check_eq(cx, || format!("any_char* line('z') after {n} characters and a newline"), Ok((n + 1, ())), || parser!(a:any_char* b:line('z') => (a.len(), b)).parse(&format!("{long}\nz{fin}")).map_err(|e| e.to_string()));
                    let blank = "\n".repeat(n);
                    check_eq(cx, || format!("lines(\"\") on {n} newlines"), Ok(n), || parser!(v:lines("") => v.len()).parse(&blank).map_err(|e| e.to_string()));
                }
            }
        },
    )
}
pub fn p08(t: Tier) -> Parts {
    let any = p(G::Cls(Cls::Any));
    let word = p(Str(p(Star(any.clone()))));
    let un = &[Op::Star, Op::Opt, Op::Section, Op::Sections, Op::Lines];
    let leaves = [Ch('a'), Lit("\n"), G::Cls(Cls::Any), Empty];
    let has = |g: &P| g.any(&|x| matches!(x, Section(_) | Sections(_)));
    let pats: Vec<P> = upto(&leaves, un, &[Op::Seq, Op::Alt], t.pick(5, 6)).into_iter().filter(has).collect();
    let small: Vec<P> = upto(&leaves, un, &[Op::Seq, Op::Alt], t.pick(4, 5)).into_iter().filter(has).collect();
    let ctx = contexts(&[Ch('b'), Lit("\n")], &[Op::Star, Op::Line, Op::Section, Op::Sections, Op::Lines, Op::Str], &[Op::Seq, Op::Alt], 3);
    let bodies: Vec<P> = upto(&[Ch('a'), G::Cls(Cls::Any), Lit("\n")], &[Op::Section, Op::Sections, Op::Star, Op::Str, Op::Line], &[Op::Seq, Op::Alt], 3)
        .into_iter()
        .filter(has)
        .collect();
    let sec = |x: &P| p(Section(x.clone()));
    let parts = vec![
        pumped_regions_of(t, What::AcceptValue, &[Op::Str, Op::Map], |g| matches!(g, Section(_) | Sections(_))),
        whole_fam(|g| matches!(g, Section(_) | Sections(_)), t.pick(8, 9), What::AcceptValue),
        puzzles(|g| matches!(g, Section(_) | Sections(_)), t.pick(28, 45), What::AcceptValue),
        fam("sections", format!("all patterns of <= {} nodes with section or sections, all texts over {{a,\\n}} of length <= {}", t.pick(5, 6), t.pick(7, 7)), pats, strings(&["a", "\n"], t.pick(7, 7)), What::AcceptValue),
        steps_fam("sections from every position", "patterns of <= 4 nodes with section or sections; texts over {a,\\n}".into(), small, strings(&["a", "\n"], t.pick(7, 8))),
        fam("sections in contexts", format!("contexts of <= 3 nodes x bodies of <= 3 nodes; texts over {{a,b,\\n}} of length <= {}", t.pick(5, 6)), product(&ctx, &bodies), strings(&["a", "b", "\n"], t.pick(5, 6)), What::AcceptValue),
        line_chars(
            What::AcceptValue,
            "what ends a section",
            vec![
                p(Sections(word.clone())),
                sec(&word),
                p(Seq(sec(&word), word.clone())),
                p(Seq(any.clone(), p(Opt(sec(&word))))),
                p(Sections(p(Lines(word.clone())))),
                p(Str(p(Sections(p(Star(any.clone())))))),
                p(Seq(p(Lines(p(Str(p(Plus(any.clone())))))), p(Sections(word.clone())))),
                p(Seq(word.clone(), p(Seq(sec(&word), word.clone())))),
            ],
            t,
        ),
        fam(
            "longer texts of sections",
            "10 patterns, all texts over {a,\\n} of length <= 12".into(),
            vec![
                p(Sections(word.clone())),
                p(Sections(p(Lines(word.clone())))),
                p(Sections(p(Lines(p(Ch('a')))))),
                p(Seq(sec(&word), p(Sections(word.clone())))),
                p(Seq(p(Lines(p(Plus(any.clone())))), p(Seq(p(Lit("\n")), p(Sections(word.clone())))))),
                p(Star(p(Seq(sec(&p(Lines(p(Ch('a'))))), sec(&word))))),
                p(Alt(p(Sections(p(Line(word.clone())))), p(Sections(p(Seq(p(Line(word.clone())), p(Line(word.clone())))))))),
                p(Seq(p(Star(any.clone())), p(Sections(p(Lines(p(Str(p(Plus(p(Ch('a'))))))))))))
            ],
            strings(&["a", "\n"], t.pick(12, 15)),
            What::AcceptValue,
        ),
        list(
            "long texts",
            "n sections, a section of n lines, n blank lines: every n up to the bound and around powers of two, with and without the final newline",
            ladder(t.pick(300, 1000), t.pick(1 << 17, 1 << 18)),
            |cx, n| {
                let n = *n;
                for fin in ["", "\n", "\n\n"] {
                    if n == 0 {
                        continue;
                    }
                    let secs: Vec<Vec<u32>> = (0..n as u32).map(|i| (0..1 + i % 3).map(|j| i % 7 + j).collect()).collect();
                    let texts: Vec<String> = secs.iter().map(|s| s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n")).collect();
                    let s = texts.join("\n\n") + fin;
                    check_eq(cx, || format!("sections(lines(u32)) on {n} sections, ending {fin:?}"), Ok(secs.clone()), || parser!(sections(lines(u32))).parse(&s).map_err(|e| e.to_string()));
                    let one: Vec<u32> = (0..n as u32).map(|i| i % 9).collect();
                    let s = one.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("\n");
                    let s2 = format!("{s}\n\n7{fin}");
                    check_eq(cx, || format!("section(lines(u32)) section(lines(u32)) with {n} lines in the first"), Ok((one.clone(), vec![7u32])), || parser!(section(lines(u32)) section(lines(u32))).parse(&s2).map_err(|e| e.to_string()));
                    check_eq(cx, || format!("sections(\"\") on {n} newlines"), Ok(n), || parser!(v:sections("") => v.len()).parse(&"\n".repeat(n)).map_err(|e| e.to_string()));
                    let long = "é".repeat(n);
                    let s3 = format!("{long}\n\n{long}{fin}");
                    let f = if fin.is_empty() { "" } else { "\n" };
                    check_eq(cx, || format!("sections(string(any_char*)) on two sections of {n} characters, ending {fin:?}"), Ok(vec![format!("{long}\n"), format!("{long}{f}")]), || parser!(sections(string(any_char*))).parse(&s3).map_err(|e| e.to_string()));
                }
            },
        ),
    ];
    (parts, vec![])
}

// ---- P14

pub fn p14(t: Tier) -> Parts {
    use crate::gram::Cls as C;
    let un = &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::Map];
    let ctx = contexts(&[Ch('a')], &[Op::Star, Op::Opt, Op::Line, Op::Section, Op::RuleWrap, Op::Map, Op::Str], BIN, 4);
    let bodies: Vec<P> = upto(&[Ch('a'), Lit("ab"), Ch('b'), Empty], un, BIN, 3).into_iter().map(|b| p(Str(b))).collect();
    let reg: Vec<P> = region_pats(t.pick(4, 5)).into_iter().map(|b| p(Str(b))).collect();
    let rctx = contexts(&[Ch('a'), Lit("\n")], &[Op::Star, Op::Line, Op::Section, Op::Lines, Op::Sections], &[Op::Seq, Op::Alt], 3);
    let rb: Vec<P> = upto(&[Ch('a'), Lit("\n"), G::Cls(C::Any)], &[Op::Line, Op::Section, Op::Star], &[Op::Seq], 3).into_iter().map(|b| p(Str(b))).collect();
    let mb: Vec<P> = upto(&[Lit("é"), Ch('😂'), G::Cls(C::Any), CharOf("é😂a")], &[Op::Star, Op::Opt, Op::Line], &[Op::Seq, Op::Alt, Op::RepSep], 4).into_iter().map(|b| p(Str(b))).collect();
    let mctx = contexts(&[Ch('é')], &[Op::Star, Op::Line], &[Op::Seq, Op::Alt], 3);
    let mb2: Vec<P> = mb.iter().filter(|b| b.size() <= 4).cloned().collect();
    let mut rules = vec![];
    for g in one_rule_pats(t.pick(3, 4)) {
        rules.push(p(Str(g.clone())));
        rules.push(p(Seq(p(Opt(p(Ch('a')))), p(Str(g)))));
    }
    let nums: Vec<P> = upto(&[G::Num(Num::U8), G::Num(Num::I8), Ch(','), G::Cls(C::DigitHex)], &[Op::Star, Op::Opt], BIN, 4).into_iter().map(|b| p(Str(b))).collect();
    let ab = strings(&["a", "b"], t.pick(5, 6));
    let any = || p(G::Cls(C::Any));
    let all = || p(Str(p(Star(any()))));
    let anything: Vec<P> = vec![
        all(),
        p(Star(p(Str(any())))),
        p(Str(p(Star(p(Str(p(Plus(any())))))))),
        p(Seq(all(), p(Seq(any(), all())))),
        p(Line(all())),
        p(Star(p(Line(all())))),
        p(Lines(all())),
        p(Str(p(Lines(all())))),
        p(Star(p(Str(p(Line(all())))))),
        p(Section(all())),
        p(Sections(all())),
        p(Sections(p(Lines(all())))),
        p(Str(p(Sections(p(Lines(any())))))),
        p(Star(p(Section(p(Plus(p(Line(all())))))))),
        p(RepSep(all(), p(Ch(' ')))),
        p(Str(p(RepSep(all(), p(Ch('a')))))),
        p(RepSep(p(Str(p(Plus(any())))), p(Lit("\r\n")))),
        p(Rules(vec![p(Alt(p(Seq(any(), p(Rule(0, 0)))), all()))], p(Str(p(Rule(0, 0)))))),
    ];
    let parts = vec![
        whole_steps(|g| matches!(g, Str(_)), t.pick(6, 7)),
        puzzles(|g| matches!(g, Str(_)), t.pick(24, 45), What::AcceptValue),
        pumped_of(t, What::AcceptValue, |g| matches!(g, Str(_))),
        pumped_regions_of(t, What::AcceptValue, &[Op::Str], |g| matches!(g, Str(_))),
        steps_fam("string of every pattern", "string(body), bodies of <= 5 nodes".into(), upto(&[Ch('a'), Lit("ab"), Ch('b'), Empty], un, BIN, t.pick(4, 5)).into_iter().map(|b| p(Str(b))).collect(), ab.clone()),
        fam("contexts", "contexts of <= 4 nodes x string(bodies of <= 3 nodes); texts over {a,b}".into(), product(&ctx, &bodies), ab.clone(), What::AcceptValue),
        fam("string of regions", "string(body), bodies of <= 4 nodes with line lines section sections; texts over {a,\\n}".into(), reg, strings(&["a", "\n"], t.pick(6, 7)), What::AcceptValue),
        fam("string inside regions", "region contexts of <= 3 nodes x string(bodies); texts over {a,\\n}".into(), product(&rctx, &rb), strings(&["a", "\n"], t.pick(7, 8)), What::AcceptValue),
        steps_fam("multi-byte text", "string(body), bodies of <= 4 nodes; texts over {é,😂,a}".into(), mb, strings(&["é", "😂", "a"], t.pick(4, 5))),
        fam("multi-byte contexts", "contexts of <= 3 nodes x string(bodies); texts over {é,😂,\\n}".into(), product(&mctx, &mb2), strings(&["é", "😂", "\n"], t.pick(4, 5)), What::AcceptValue),
        fam("string of rules", "rule sets with bodies of <= 3 nodes inside string(...)".into(), rules, ab, What::AcceptValue),
        fam("string of numbers", "bodies of <= 4 nodes; texts over {0,2,-,\\,,a}".into(), nums, strings(&["0", "2", "-", ",", "a"], t.pick(4, 5)), What::AcceptValue),
        fam("blanks and line ends", "strings of anything in and around regions; texts over {\\r,\\n,blank,tab,NUL,a}".into(), anything.clone(), strings(&["\r", "\n", " ", "\t", "\0", "a"], t.pick(5, 6)), What::AcceptValue),
        fam("odd characters", "strings of anything in and around regions; texts over {combining acute,byte order mark,no-break space,next line,line separator,last scalar,e}".into(), anything, strings(&["e", "\u{301}", "\u{feff}", "\u{a0}", "\u{85}", "\u{2028}", "\u{10ffff}"], t.pick(4, 5)), What::AcceptValue),
        list(
            "every character captured",
            "every Unicode scalar c: string(any_char*) on c, c c, 'x' c 'x', c '\\n'; string(any_char) lists",
            (0..0x110u32).collect(),
            |cx, c0| {
                let all = parser!(string(any_char*));
                let each = parser!(string(any_char)*);
                let lines = parser!(lines(string(any_char*)));
                for c in c0 * 0x1000..(c0 + 1) * 0x1000 {
                    let Some(ch) = char::from_u32(c) else { continue };
                    for s in [format!("{ch}"), format!("{ch}{ch}"), format!("x{ch}x"), format!("{ch}\n")] {
                        check_eq(cx, || format!("string(any_char*) on {s:?}"), Ok(s.clone()), || all.parse(&s).map_err(|e| e.to_string()));
                        check_eq(cx, || format!("string(any_char)* on {s:?}"), Ok(s.chars().map(|c| c.to_string()).collect::<Vec<_>>()), || each.parse(&s).map_err(|e| e.to_string()));
                    }
                    if c != 10 {
                        let s = format!("{ch}\n{ch}{ch}\n");
                        check_eq(cx, || format!("lines(string(any_char*)) on {s:?}"), Ok(vec![ch.to_string(), format!("{ch}{ch}")]), || lines.parse(&s).map_err(|e| e.to_string()));
                    }
                    if cx.viol.is_some() {
                        return;
                    }
                }
            },
        ),
        list(
            "long captures",
            "captures of n characters after m others, every n up to the bound and around powers of two",
            ladder(t.pick(300, 1000), t.pick(1 << 17, 1 << 18)),
            |cx, n| {
                let n = *n;
                let body: String = (0..n).map(|i| ['x', 'é', '\n', '😂', ' '][i * 7 % 5]).collect();
                for m in [0, 1, n] {
                    let pre = "ß".repeat(m);
                    let s = format!("{pre}|{body}|{pre}");
                    check_eq(cx, || format!("'ß'* '|' string(any_char*) '|' string('ß'*), {n} characters after {m}"), Ok((m, body.clone(), pre.clone())), || {
                        parser!(a:'ß'* '|' b:string(any_char*) '|' c:string('ß'*) => (a.len(), b, c)).parse(&s).map_err(|e| e.to_string())
                    });
                    let s = format!("{pre}\n{}\n", body.replace('\n', "-"));
                    check_eq(cx, || format!("line('ß'*) line(string(any_char*)), {n} characters after {m}"), Ok((m, body.replace('\n', "-"))), || {
                        parser!(a:line('ß'*) b:line(string(any_char*)) => (a.len(), b)).parse(&s).map_err(|e| e.to_string())
                    });
                }
                let words: Vec<String> = (0..n).map(|i| "é".repeat(i % 4)).collect();
                let s = words.join(",");
                if n > 0 {
                    check_eq(cx, || format!("repeat_sep(string('é'*), ',') with {n} words"), Ok(words.clone()), || parser!(repeat_sep(string('é'*), ',')).parse(&s).map_err(|e| e.to_string()));
                    check_eq(cx, || format!("string(repeat_sep(string('é'*), ',')) with {n} words"), Ok(s.clone()), || parser!(string(repeat_sep(string('é'*), ','))).parse(&s).map_err(|e| e.to_string()));
                }
            },
        ),
    ];
    (parts, vec![])
}

// ---- P15

pub fn p15(t: Tier) -> Parts {
    use crate::gram::Cls as C;
    let leaves = [Ch('a'), Str(p(Lit("ab"))), Ch('b'), Empty];
    let un = &[Op::Star, Op::Plus, Op::Opt];
    let has = |g: &P| g.any(&|x| matches!(x, Star(_) | Plus(_) | Opt(_) | RepSep(..)));
    let pats: Vec<P> = upto(&leaves, un, BIN, t.pick(5, 6)).into_iter().filter(has).collect();
    let small: Vec<P> = upto(&leaves, un, BIN, t.pick(4, 5)).into_iter().filter(has).collect();
    // p q r: repetition, what follows needs some back
    let reps = [Op::Star, Op::Plus, Op::Opt];
    let elems = upto(&[Ch('a'), G::Cls(C::Any), Str(p(Lit("ab")))], &[Op::Opt, Op::Str], &[Op::Alt, Op::Seq], 3);
    let mut giveback = vec![];
    for e in &elems {
        for r in reps {
            let rep = p(apply1(r, e));
            for n in 0..4usize {
                let mut g = rep.clone();
                for _ in 0..n {
                    g = p(Seq(g, p(Ch('a'))));
                }
                giveback.push(g.clone());
                giveback.push(p(Seq(g, rep.clone())));
            }
        }
        for sep in &elems {
            let rep = p(RepSep(e.clone(), sep.clone()));
            giveback.push(rep.clone());
            giveback.push(p(Seq(rep.clone(), e.clone())));
            giveback.push(p(Seq(rep.clone(), sep.clone())));
            giveback.push(p(Seq(rep.clone(), p(Seq(sep.clone(), e.clone())))));
        }
    }
    let parts = vec![
        pumped_of(t, What::AcceptValue, |_| true),
        whole_fam(|g| matches!(g, Star(_) | Plus(_) | Opt(_) | RepSep(..)), t.pick(7, 8), What::AcceptValue),
        puzzles(|g| matches!(g, Star(_) | Plus(_) | Opt(_) | RepSep(..)), t.pick(24, 45), What::AcceptValue),
        whole_steps(|g| matches!(g, Star(_) | Plus(_) | Opt(_) | RepSep(..)), t.pick(5, 6)),
        fam("repetitions", "all patterns of <= 5 nodes containing * + ? or repeat_sep, over 'a' string(\"ab\") 'b' empty".into(), pats, strings(&["a", "b"], 6), What::AcceptValue),
        steps_fam("every number of elements", "patterns of <= 4 nodes containing a repetition".into(), small, strings(&["a", "b"], t.pick(5, 6))),
        fam("giving elements back", "repetitions of elements of <= 3 nodes followed by up to 3 literals, another repetition, a separator or an element".into(), giveback, strings(&["a", "b"], t.pick(7, 9)), What::AcceptValue),
        fam(
            "numbers and separators",
            "repeat_sep and * over numbers and separators; texts over {1,2,\\,, ;}".into(),
            {
                let mut v = vec![];
                for e in [p(G::Num(Num::U8)), p(G::Cls(C::Digit)), p(Opt(p(G::Num(Num::U8)))), p(Seq(p(G::Cls(C::Digit)), p(Opt(p(Ch(';')))))), p(Str(p(Star(p(G::Cls(C::Digit))))))] {
                    for s in [p(Ch(',')), p(Lit(", ")), p(Plus(p(Ch(',')))), p(Opt(p(Ch(',')))), p(Alt(p(Lit(", ")), p(Ch(',')))), p(Empty), p(Star(p(CharOf(", ;"))))] {
                        let r = p(RepSep(e.clone(), s.clone()));
                        v.push(r.clone());
                        v.push(p(Seq(r.clone(), p(Opt(p(Ch(',')))))));
                        v.push(p(RepSep(r.clone(), p(Ch(';')))));
                        v.push(p(Star(p(Seq(e.clone(), s.clone())))));
                        v.push(p(Plus(p(Seq(s.clone(), e.clone())))));
                        v.push(p(Lines(r)));
                    }
                }
                v
            },
            strings(&["1", "2", ",", " ", ";"], t.pick(5, 6)),
            What::AcceptValue,
        ),
        list(
            "any number of elements",
            "* + ? and repeat_sep over n elements and k elements given back: every n up to the bound and around powers of two",
            ladder(t.pick(300, 1200), t.pick(1 << 17, 1 << 20)),
            |cx, n| {
                let n = *n;
                let abc: String = (0..n).map(|i| ['a', 'b', 'c'][i % 3]).collect();
                let cs: Vec<char> = abc.chars().collect();
                let star = parser!(alpha*);
                check_eq(cx, || format!("alpha* on {n} letters"), Ok(cs.clone()), || star.parse(&abc).map_err(|e| e.to_string()));
                check_eq(cx, || format!("alpha+ on {n} letters"), if n > 0 { Ok(cs.clone()) } else { Err(()) }, || parser!(alpha+).parse(&abc).map_err(|_| ()));
                check_eq(cx, || format!("alpha? on {n} letters"), if n < 2 { Ok(cs.first().copied()) } else { Err(()) }, || parser!(alpha?).parse(&abc).map_err(|_| ()));
                let joined: String = cs.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", ");
                check_eq(cx, || format!("repeat_sep(alpha, \", \") on {n} letters"), Ok(cs.clone()), || parser!(repeat_sep(alpha, ", ")).parse(&joined).map_err(|e| e.to_string()));
                check_eq(cx, || format!("repeat_sep(alpha, \", \") on {n} letters and a final separator"), true, || parser!(repeat_sep(alpha, ", ")).parse(&format!("{joined}, ")).is_err());
                check_eq(cx, || format!("repeat_sep(alpha, \", \") on a separator and {n} letters"), true, || parser!(repeat_sep(alpha, ", ")).parse(&format!(", {joined}")).is_err());
                if n >= 1 {
                    check_eq(cx, || format!("repeat_sep(alpha, \", \") with a doubled separator after {n} letters"), true, || parser!(repeat_sep(alpha, ", ")).parse(&format!("{joined}, , x")).is_err());
                    check_eq(cx, || format!("repeat_sep(alpha, \", \") on {n} letters then \", \" string(any_char*)"), Ok((cs.clone(), ", 1".to_string())), || {
                        parser!(repeat_sep(alpha, ", ") string(any_char*)).parse(&format!("{joined}, 1")).map_err(|e| e.to_string())
                    });
                }
                // give back k
                for k in [1usize, 2, 3] {
                    let want = if n >= k { Ok((cs[..n - k].to_vec(), cs[n - k..].iter().collect::<String>())) } else { Err(()) };
                    check_eq(cx, || format!("alpha* then {k} letters, on {n} letters"), want, || {
                        match k {
                            1 => parser!(alpha* string(alpha)).parse(&abc),
                            2 => parser!(alpha* string(alpha alpha)).parse(&abc),
                            _ => parser!(alpha* string(alpha alpha alpha)).parse(&abc),
                        }
                        .map_err(|_| ())
                    });
                }
                if n <= 5000 {
                    // give back half: the boundary is fixed by a marker letter
                    let s = format!("{}b{}", "a".repeat(n), "a".repeat(n / 2));
                    check_eq(cx, || format!("any_char* 'b' any_char* with the b after {n} of {}", n + n / 2 + 1), Ok((n, n / 2)), || {
                        parser!(x:any_char* 'b' y:any_char* => (x.len(), y.len())).parse(&s).map_err(|e| e.to_string())
                    });
                    check_eq(cx, || format!("repeat_sep(any_char, \"\") 'b' any_char* with the b after {n}"), Ok((n, n / 2)), || {
                        parser!(x:repeat_sep(any_char, "") 'b' y:any_char* => (x.len(), y.len())).parse(&s).map_err(|e| e.to_string())
                    });
                }
                // nested
                let rows: Vec<Vec<usize>> = (0..n).map(|i| (0..i % 4).map(|j| (i + j) % 10).collect()).collect();
                let s: String = rows.iter().map(|r| r.iter().map(|d| d.to_string()).collect::<String>() + ";").collect();
                check_eq(cx, || format!("(digit* ';')* with {n} rows"), Ok(rows.clone()), || parser!((digit* ';')*).parse(&s).map_err(|e| e.to_string()));
            },
        ),
    ];
    (parts, vec![])
}
