//! P09: when, how often, in which order and with what conversions run.
use super::*;
use super::comb::check_eq;
use crate::dynp::Bx;
use crate::gram::Cls;
use crate::model;
use crate::val::Val;
use aoc_parse::{parser, prelude::*};
use std::cell::RefCell;
use G::{Alt, Ch, Coll, Line, Lit, Map, Opt, RepSep, Rules, Rule, Section, Seq, Star, Str};

/// One pattern, one text: the log of conversions against the model.
fn conv_check(cx: &mut Ctx, g: &P, b: &Bx, s: &str) {
    conv_check_as(cx, g, b, s, false)
}
fn conv_check_as(cx: &mut Ctx, g: &P, b: &Bx, s: &str, whole: bool) {
    if !cx.case(|| format!("conversions of parser!({}) on {s:?}", g.src())) {
        return;
    }
    let m = model::parse_as(g, s, whole);
    if m.capped {
        cx.skipped += 1;
        return;
    }
    let mut want = vec![];
    if let Ok(v) = &m.result {
        model::conversions(v, &mut want);
    }
    // twice: the second parse must convert the same again
    for round in 0..2 {
        let _ = take_log();
        let out = real_parse(b, s, budget_for(m.steps));
        let end = steps();
        cx.transitions += end;
        cx.executions += 1;
        let early = crate::dynp::CONV_STEPS.with(|c| c.borrow().iter().any(|s| *s != end));
        let log = take_log();
        cx.states += 1 + log.len() as u64;
        let show = |l: &[(u8, Val)]| l.iter().map(|(n, v)| format!("conv{n}({v})")).collect::<Vec<_>>().join(", ");
        let bad = |why: &str| format!("parser!({}) on {s:?} (parse {}): {why}\n  expected conversions [{}]\n  got [{}] and {}", g.src(), round + 1, show(&want), show(&log), out.show());
        match &out {
            // acceptance itself is decided by P01: judge the log by what happened
            Out::Ok(v) => {
                cx.accepted += 1;
                if m.result.as_ref() == Ok(v) {
                    if log != want {
                        cx.fail(bad("wrong conversions"));
                    }
                } else {
                    // a different value than the model's: the log must still be the value's own
                    let mut own = vec![];
                    model::conversions(v, &mut own);
                    if log != own {
                        cx.fail(bad("the conversions run are not those of the value returned"));
                    }
                }
                if early {
                    cx.fail(bad("a conversion ran before matching was over"));
                }
            }
            Out::Err(_) => {
                cx.rejected += 1;
                if !log.is_empty() {
                    cx.fail(bad("a conversion ran although the parse failed"));
                }
            }
            _ => cx.fail(bad("panicked or did not finish")),
        }
        cx.outcome(&log);
        if round == 0 && !log.is_empty() {
            cx.sample(|| format!("parser!({}) on {s:?}: conversions [{}]", g.src(), show(&log)));
        }
    }
}
fn cfam(name: &str, bounds: &str, pats: Vec<P>, inputs: Vec<String>) -> Part {
    let pats: Vec<P> = pats.iter().filter(|g| g.any(&|x| matches!(x, Map(..)))).map(number_maps).collect();
    fam_with(name, bounds.into(), pats, inputs, conv_check)
}

thread_local! { static EV: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
fn ev<T: std::fmt::Debug>(tag: &str, x: T) -> T {
    EV.with(|e| e.borrow_mut().push(format!("{tag}{x:?}")));
    x
}
fn take_ev() -> Vec<String> {
    EV.with(|e| std::mem::take(&mut *e.borrow_mut()))
}
/// Run a parse and return its conversions, or with a marker if it failed.
fn run<T>(r: impl FnOnce() -> Result<T, aoc_parse::ParseError>) -> Result<Vec<String>, Vec<String>> {
    let _ = take_ev();
    let ok = r().is_ok();
    let l = take_ev();
    if ok {
        Ok(l)
    } else {
        Err(l)
    }
}

pub fn p09(t: Tier) -> Parts {
    let un = &[Op::Star, Op::Plus, Op::Opt, Op::Str, Op::Map];
    let rules_pats = |size: usize| {
        let bodies = upto(&[Ch('a'), Ch('b'), Rule(0, 0)], &[Op::Map, Op::Opt, Op::Star, Op::Str], &[Op::Seq, Op::Alt], size);
        let r = p(Rule(0, 0));
        let mut v = vec![];
        for b in bodies {
            if left_recursive(&[b.clone()]) {
                continue;
            }
            for e in [r.clone(), p(Seq(r.clone(), r.clone())), p(Star(r.clone())), p(Map(0, p(Alt(p(Seq(r.clone(), p(Ch('b')))), r.clone())))), p(Str(r.clone()))] {
                v.push(p(Rules(vec![b.clone()], e)));
            }
        }
        v
    };
    let mut regs = vec![];
    {
        let cs = contexts(&[Ch('a')], &[Op::Star, Op::Line, Op::Lines, Op::Section, Op::Sections, Op::Map, Op::Str], &[Op::Seq, Op::Alt], 4);
        let bs = upto(&[Ch('a'), G::Cls(Cls::Any)], &[Op::Map, Op::Star], &[], 3);
        regs.extend(product(&cs, &bs));
    }
    let mut seps = vec![];
    for e in upto(&[Ch('a'), Str(p(Ch('b')))], &[Op::Map, Op::Opt], &[Op::Seq, Op::Alt], 4) {
        for s in upto(&[Ch('b'), G::Cls(Cls::Any)], &[Op::Map, Op::Opt], &[], 3) {
            let r = p(RepSep(e.clone(), s.clone()));
            seps.push(r.clone());
            seps.push(p(Seq(p(Map(0, r.clone())), p(Opt(p(Map(0, p(Ch('a')))))))));
            seps.push(p(Coll(crate::gram::Coll::Deq, e.clone(), Some(s.clone()))));
            seps.push(p(Map(0, p(Alt(p(Seq(r.clone(), p(Lit("ab")))), r)))));
        }
    }
    let mut back = vec![];
    {
        // several abandoned attempts before the one that counts
        let ms = upto(&[G::Cls(Cls::Any), Lit("ab"), Ch('a')], &[Op::Map], &[Op::Seq], 3);
        for a in &ms {
            for b in &ms {
                for c in [p(Ch('b')), p(Map(0, p(G::Cls(Cls::Any))))] {
                    back.push(p(Seq(p(Star(p(Map(0, a.clone())))), p(Seq(b.clone(), c.clone())))));
                    back.push(p(Alt(p(Seq(p(Map(0, p(Star(a.clone())))), c.clone())), p(Seq(p(Map(0, b.clone())), p(Star(p(Map(0, a.clone())))))))));
                    back.push(p(Seq(p(Opt(p(Map(0, a.clone())))), p(Seq(p(Opt(p(Map(0, b.clone())))), c.clone())))));
                    back.push(p(Line(p(Seq(p(Star(p(Map(0, a.clone())))), c.clone())))));
                    back.push(p(Section(p(Alt(p(Seq(p(Map(0, a.clone())), b.clone())), p(Star(p(Map(0, c.clone())))))))));
                }
            }
        }
    }
    let parts = vec![
        whole_with(|g| matches!(g, Map(..)), t.pick(6, 8), |cx, g, b, s| {
            // (the members of a set have no order of their own)
            if !g.any(&|x| matches!(x, Coll(crate::gram::Coll::HSet | crate::gram::Coll::BSet, ..))) {
                conv_check_as(cx, g, b, s, true);
            }
        }),
        puzzles_with(|g| matches!(g, Map(..)), t.pick(24, 40), |cx, g, b, s| conv_check_as(cx, g, b, s, true)),
        cfam(
            "combinators",
            "all patterns of <= 6 nodes with at least one =>, over 'a' \"ab\" 'b' with * + ? string seq alt repeat_sep; every conversion numbered and logged",
            upto(&[Ch('a'), Lit("ab"), Ch('b')], un, &[Op::Seq, Op::Alt, Op::RepSep], t.pick(6, 6)),
            strings(&["a", "b"], t.pick(5, 6)),
        ),
        cfam("abandoned attempts", "a repetition, optional or alternative of converted pieces that is given up in part", back, strings(&["a", "b"], t.pick(6, 8))),
        cfam("regions", "contexts of <= 4 nodes with line lines section sections string x converted bodies; texts over {a,\\n}", regs, strings(&["a", "\n"], t.pick(6, 8))),
        cfam("separators and deques", "converted elements and separators", seps, strings(&["a", "b"], t.pick(6, 7))),
        {
            use super::comb::{pumped_with, pumps_ab};
            let max = t.pick(65, 513);
            let pats = upto(&[Ch('a'), Lit("ab"), Ch('b')], &[Op::Star, Op::Plus, Op::Opt, Op::Map, Op::Line, Op::RuleWrap], &[Op::Seq, Op::Alt, Op::RepSep], t.pick(4, 5))
                .iter()
                .filter(|g| g.any(&|x| matches!(x, Map(..))) && g.any(&|x| matches!(x, Star(_) | G::Plus(_) | RepSep(..) | Rules(..))))
                .map(number_maps)
                .collect();
            pumped_with("long texts", "all patterns of small size with a conversion and a repetition; all texts u v^n w with u, w of <= 1 and v of <= 3 characters over {a,b}", pats, pumps_ab(max), max, t.pick(3_000, 60_000), conv_check)
        },
        fam_with(
            "deep nesting",
            format!("every two of 20 ways of wrapping a pattern, in turns, up to {} deep; up to {} steps of the model each", t.pick(33, 100), t.pick(4_000, 50_000)),
            super::comb::deep_pats(t.pick(33, 100)).iter().filter(|g| g.any(&|x| matches!(x, Map(..)))).map(number_maps).collect(),
            strings(&["a", "b", "\n"], 2).into_iter().chain(["aaaaaaa".into(), "bbbbbbba".into(), "abbbbbbbbbb".into()]).collect(),
            move |cx, g, b, s| {
                model::CAP.with(|c| c.set(t.pick(4_000, 50_000)));
                let was = cx.skipped;
                conv_check(cx, g, b, s);
                cx.skipped = was;
                model::CAP.with(|c| c.set(2_000_000));
            },
        ),
        cfam("rules", "rule sets with conversions inside the rule bodies and around their uses", rules_pats(t.pick(5, 6)), strings(&["a", "b"], t.pick(6, 7))),
        {
            let mut v = vec![];
            for n in 3..=8usize {
                // element i converted or not, for every subset
                for mask in 0..(1u32 << n) {
                    let xs: Vec<P> = (0..n)
                        .map(|i| {
                            let x = p(if i % 3 == 2 { Opt(p(Ch('b'))) } else { Ch('a') });
                            if mask >> i & 1 == 1 {
                                p(Map(0, x))
                            } else {
                                x
                            }
                        })
                        .collect();
                    if n == 3 {
                        v.push(p(G::Seq3(xs[0].clone(), xs[1].clone(), xs[2].clone())));
                        v.push(p(Star(p(G::Alt3(xs[0].clone(), p(Seq(xs[1].clone(), xs[2].clone())), p(Map(0, p(Ch('b')))))))));
                    } else {
                        v.push(p(G::SeqN(xs)));
                    }
                }
            }
            cfam("wide sequences", "sequences of 3 to 8 pieces, every subset of them converted", v, strings(&["a", "b"], t.pick(7, 8)))
        },
        list(
            "plain closures",
            "patterns written out in parser!, without type erasure: labels, groups, arms, collections, nested closures; all texts over {a,b,1,\\n} of length <= 6",
            strings(&["a", "b", "1", "\n"], 2),
            move |cx, head| {
                let seq = parser!(x:alpha y:digit => ev("xy", (x, y)));
                let many = parser!((x:alpha => ev("e", x))* y:digit => ev("end", y));
                let arms = parser!({x:alpha '1' => ev("1", x), x:alpha "b" => ev("b", x), x:alpha+ => ev("n", x)[0]}*);
                let set = parser!(hash_set((x:alpha => ev("e", x))*) digit);
                let map = parser!(hash_map(((k:alpha => ev("k", k)) (v:any_char => ev("v", v)))*));
                let bt = parser!(btree_map(((k:alpha => ev("k", k)) (v:any_char => ev("v", v)))+));
                let st = parser!(s:string((x:alpha => ev("in", x))*) d:(y:digit => ev("d", y)) => (s, d));
                let nest = parser!(v:(w:(x:alpha => ev("x", x)) z:(y:digit? => ev("z", y)) => ev("w", (w, z)))* => ev("v", v.len()));
                let li = parser!(a:lines((x:any_char* => ev("l", x.len()))) => ev("all", a));
                let sec = parser!(sections((x:line((y:any_char => ev("c", y))+)+ => ev("s", x.len()))));
                for tail in strings(&["a", "b", "1", "\n"], 4) {
                    let s = format!("{head}{tail}");
                    // head and tail overlap in shorter texts: every text is still covered
                    let cs: Vec<char> = s.chars().collect();
                    let al = |c: &char| c.is_alphabetic();
                    let dv = |c: char| c as usize - '0' as usize;
                    // seq
                    let want = if cs.len() == 2 && al(&cs[0]) && cs[1] == '1' { Ok(vec![format!("xy{:?}", (cs[0], 1usize))]) } else { Err(vec![]) };
                    check_eq(cx, || format!("conversions of x:alpha y:digit => .. on {s:?}"), want, || run(|| seq.parse(&s)));
                    // many
                    let n = cs.iter().take_while(|c| al(c)).count();
                    let tailed = n + 1 == cs.len() && cs[n] == '1';
                    let want = if tailed {
                        let mut v: Vec<String> = cs[..n].iter().map(|c| format!("e{c:?}")).collect();
                        v.push(format!("end{}", dv(cs[n])));
                        Ok(v)
                    } else {
                        Err(vec![])
                    };
                    check_eq(cx, || format!("conversions of (x:alpha => ..)* y:digit => .. on {s:?}"), want, || run(|| many.parse(&s)));
                    let want = if tailed { Ok(cs[..n].iter().map(|c| format!("e{c:?}")).collect::<Vec<_>>()) } else { Err(vec![]) };
                    check_eq(cx, || format!("conversions of hash_set((x:alpha => ..)*) digit on {s:?}"), want, || run(|| set.parse(&s)));
                    let want = if tailed { Ok(vec!["d1".to_string()]) } else { Err(vec![]) };
                    check_eq(cx, || format!("conversions of string((x:alpha => ..)*) digit on {s:?}"), want, || run(|| st.parse(&s)));
                    // arms
                    let want = arms_model(&cs).ok_or(vec![]);
                    check_eq(cx, || format!("conversions of an alternation of three converted arms, repeated, on {s:?}"), want, || run(|| arms.parse(&s)));
                    // maps
                    let pairs = cs.len() % 2 == 0 && cs.iter().step_by(2).all(al);
                    let kv: Vec<String> = cs.iter().enumerate().map(|(i, c)| format!("{}{c:?}", if i % 2 == 0 { "k" } else { "v" })).collect();
                    let want = if pairs { Ok(kv.clone()) } else { Err(vec![]) };
                    check_eq(cx, || format!("conversions of hash_map((k v)*) on {s:?}"), want, || run(|| map.parse(&s)));
                    let want = if pairs && !cs.is_empty() { Ok(kv) } else { Err(vec![]) };
                    check_eq(cx, || format!("conversions of btree_map((k v)+) on {s:?}"), want, || run(|| bt.parse(&s)));
                    // nest
                    let mut v = vec![];
                    let (mut i, mut k) = (0, 0);
                    while i < cs.len() && al(&cs[i]) {
                        let x = cs[i];
                        i += 1;
                        k += 1;
                        let z = if i < cs.len() && cs[i] == '1' {
                            i += 1;
                            Some(1usize)
                        } else {
                            None
                        };
                        v.push(format!("x{x:?}"));
                        v.push(format!("z{z:?}"));
                        v.push(format!("w{:?}", (x, z)));
                    }
                    v.push(format!("v{k}"));
                    let want = if i == cs.len() { Ok(v) } else { Err(vec![]) };
                    check_eq(cx, || format!("conversions of nested => on {s:?}"), want, || run(|| nest.parse(&s)));
                    // lines
                    let mut ls: Vec<usize> = s.split('\n').map(|l| l.chars().count()).collect();
                    if s.is_empty() || s.ends_with('\n') {
                        ls.pop();
                    }
                    let mut v: Vec<String> = ls.iter().map(|n| format!("l{n}")).collect();
                    v.push(format!("all{ls:?}"));
                    check_eq(cx, || format!("conversions of lines((any_char* => ..)) on {s:?}"), Ok(v), || run(|| li.parse(&s)));
                    // sections of nonempty lines
                    let mut v = vec![];
                    let mut good = true;
                    let mut rest = &s[..];
                    while !rest.is_empty() {
                        let (now, next) = if rest.starts_with('\n') {
                            good = false;
                            break;
                        } else {
                            match rest.find("\n\n") {
                                Some(i) => (&rest[..i + 1], &rest[i + 2..]),
                                None => (rest, ""),
                            }
                        };
                        let ls: Vec<&str> = now.trim_end_matches('\n').split('\n').collect();
                        for l in &ls {
                            for c in l.chars() {
                                v.push(format!("c{c:?}"));
                            }
                        }
                        v.push(format!("s{}", ls.len()));
                        rest = next;
                    }
                    let want = if good { Ok(v) } else { Err(vec![]) };
                    check_eq(cx, || format!("conversions of sections of converted lines on {s:?}"), want, || run(|| sec.parse(&s)));
                    if cx.viol.is_some() {
                        return;
                    }
                }
            },
        ),
        list(
            "any number of conversions",
            "n converted elements, in lists, lines, separated lists and rules: every n up to the bound and around powers of two",
            ladder(t.pick(200, 1000), t.pick(1 << 13, 1 << 16)),
            |cx, n| {
                let n = *n;
                let xs: Vec<String> = (0..n).map(|i| (i % 250).to_string()).collect();
                let want: Vec<String> = xs.iter().map(|x| format!("c{x}")).collect();
                let mut with_end = want.clone();
                with_end.push(format!("all{n}"));
                let joined = xs.join(",");
                let lines_ = xs.join("\n");
                check_eq(cx, || format!("repeat_sep((x:u8 => ..), ',') on {n} numbers"), Ok(with_end.clone()), || run(|| parser!(v:repeat_sep((x:u8 => ev("c", x)), ',') => ev("all", v.len())).parse(&joined)));
                check_eq(cx, || format!("lines(x:u8 => ..) on {n} numbers"), Ok(with_end), || run(|| parser!(v:lines((x:u8 => ev("c", x))) => ev("all", v.len())).parse(&lines_)));
                if n > 0 {
                    check_eq(cx, || format!("lines(x:u8 => ..) on {n} numbers and a bad line"), Err(vec![]), || run(|| parser!(lines((x:u8 => ev("c", x)))).parse(&format!("{lines_}\n-"))));
                    check_eq(cx, || format!("rule of (x:u8 => ..) used on {n} lines"), Ok(want.clone()), || run(|| parser!(rule r: u8 = (x:u8 => ev("c", x)); lines(r)).parse(&lines_)));
                    check_eq(cx, || format!("string of {n} converted numbers, then each again"), Ok(want.clone()), || run(|| parser!(string(repeat_sep((x:u8 => ev("in", x)), ',')) "|" repeat_sep((x:u8 => ev("c", x)), ',')).parse(&format!("{joined}|{joined}"))));
                }
            },
        ),
    ];
    (parts, vec!["conversions of the members of a hash set or hash map are judged in the plain-closure part only (order and duplicates cannot be read off the value)"])
}

/// `{x:alpha '1', x:alpha "b", x:alpha+}*` over the whole text: the log of the
/// most preferred complete match, by brute force.
fn arms_model(cs: &[char]) -> Option<Vec<String>> {
    if cs.is_empty() {
        return Some(vec![]);
    }
    if !cs[0].is_alphabetic() {
        return None;
    }
    let mut tries: Vec<(usize, String)> = vec![];
    if cs.len() > 1 && cs[1] == '1' {
        tries.push((2, format!("1{:?}", cs[0])));
    }
    if cs.len() > 1 && cs[1] == 'b' {
        tries.push((2, format!("b{:?}", cs[0])));
    }
    let run = cs.iter().take_while(|c| c.is_alphabetic()).count();
    for k in (1..=run).rev() {
        tries.push((k, format!("n{:?}", &cs[..k])));
    }
    for (k, e) in tries {
        if let Some(mut v) = arms_model(&cs[k..]) {
            v.insert(0, e);
            return Some(v);
        }
    }
    None
}
