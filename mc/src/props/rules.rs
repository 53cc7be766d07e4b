//! P16: a rule means its definition; rule sets do not disturb one another.
use super::*;
use super::comb::check_eq;
use crate::gram::Cls;
use aoc_parse::{parser, prelude::*, ParseContext, ParseIter, Reported};
use G::{Alt, Ch, Line, Lines, Lit, Map, Opt, Plus, RepSep, Rule, Rules, Section, Sections, Seq, Seq3, Star, Str};

/// Matches nothing, always; the value is fixed.
#[derive(Clone, Copy)]
struct Const(usize);
struct ConstIter(usize, usize);
impl Parser for Const {
    type Output = usize;
    type RawOutput = (usize,);
    type Iter<'p> = ConstIter;
    fn parse_iter<'p>(&'p self, _: &mut ParseContext<'p>, at: usize) -> Result<ConstIter, Reported> {
        Ok(ConstIter(self.0, at))
    }
}
impl<'p> ParseIter<'p> for ConstIter {
    type RawOutput = (usize,);
    fn match_end(&self) -> usize {
        self.1
    }
    fn backtrack(&mut self, _: &mut ParseContext<'p>) -> Result<(), Reported> {
        Err(Reported)
    }
    fn convert(&self) -> (usize,) {
        (self.0,)
    }
}

/// All rules of all (nested) rule sets as one set, references made global.
fn flatten(g: &P) -> Vec<P> {
    fn go(g: &P, frames: &mut Vec<Vec<u8>>, out: &mut Vec<Option<P>>) -> P {
        match &**g {
            Rule(d, i) => {
                let f = &frames[frames.len() - 1 - *d as usize];
                p(Rule(0, f[*i as usize]))
            }
            Rules(rs, e) => {
                let ids: Vec<u8> = (0..rs.len()).map(|k| (out.len() + k) as u8).collect();
                out.extend(rs.iter().map(|_| None));
                frames.push(ids.clone());
                for (k, r) in rs.iter().enumerate() {
                    let b = go(r, frames, out);
                    out[ids[k] as usize] = Some(b);
                }
                let e = go(e, frames, out);
                frames.pop();
                e
            }
            _ => Arc::new(g.map_kids(&mut |k| go(k, frames, out))),
        }
    }
    let mut out = vec![];
    let entry = go(g, &mut vec![], &mut out);
    let mut v: Vec<P> = out.into_iter().map(|x| x.unwrap()).collect();
    v.push(entry);
    v
}
fn sound(g: &P) -> bool {
    !left_recursive(&flatten(g))
}

fn uses_rule(g: &P) -> bool {
    g.any(&|x| matches!(x, Rule(..)))
}

/// Rule sets in rule bodies and in entry patterns; inner rules may name outer ones.
fn nested(ctx: usize, inner: usize) -> Vec<P> {
    let cs = contexts(&[Ch('a'), Rule(0, 0)], &[Op::Star, Op::Opt, Op::Line], &[Op::Seq, Op::Alt], ctx);
    let bs: Vec<P> = upto(&[Ch('b'), Ch('a'), Rule(0, 0), Rule(1, 0)], &[Op::Opt, Op::Star], &[Op::Seq, Op::Alt], inner)
        .into_iter()
        .filter(|b| b.any(&|x| matches!(x, Rule(1, _))) || b.any(&|x| matches!(x, Rule(0, _))) || b.size() == 1)
        .collect();
    let mut v = vec![];
    for c in &cs {
        for b in &bs {
            let set = p(Rules(vec![b.clone()], p(Rule(0, 0))));
            let body = plug(c, &set);
            for e in [p(Rule(0, 0)), p(Seq(p(Rule(0, 0)), p(Opt(p(Ch('b'))))))] {
                let g = p(Rules(vec![body.clone()], e));
                if sound(&g) {
                    v.push(g);
                }
            }
            // the nested set in the entry pattern, the outer rule being 'a' 'b'?
            let g = p(Rules(vec![p(Seq(p(Ch('a')), p(Opt(p(Ch('b'))))))], body));
            if sound(&g) {
                v.push(g);
            }
        }
    }
    v
}

fn three(size: usize) -> Vec<P> {
    // a ring of three rules, each small
    let bodies = upto(&[Ch('a'), Ch('b'), Rule(0, 0), Rule(0, 1), Rule(0, 2)], &[Op::Opt, Op::Star, Op::Map], &[Op::Seq, Op::Alt], size);
    let mut v = vec![];
    for a in &bodies {
        if !a.any(&|x| *x == Rule(0, 1)) {
            continue;
        }
        for b in &bodies {
            if !b.any(&|x| *x == Rule(0, 2)) {
                continue;
            }
            for c in &bodies {
                if !uses_rule(c) && c.size() > 1 {
                    continue;
                }
                let rs = vec![a.clone(), b.clone(), c.clone()];
                if !left_recursive(&rs) {
                    v.push(p(Rules(rs.clone(), p(Rule(0, 0)))));
                    if c.size() == 1 {
                        v.push(p(Rules(rs, p(Seq3(p(Rule(0, 2)), p(Rule(0, 0)), p(Opt(p(Rule(0, 1)))))))));
                    }
                }
            }
        }
    }
    v
}

/// Different rule sets next to each other and around each other.
fn neighbours() -> Vec<P> {
    let a = p(Ch('a'));
    let b = p(Ch('b'));
    let r = p(Rule(0, 0));
    let set = |body: G| p(Rules(vec![p(body)], p(Rule(0, 0))));
    let sets = vec![
        set(Seq(a.clone(), p(Opt(r.clone())))),
        set(Seq(b.clone(), p(Opt(r.clone())))),
        set(Alt(p(Seq3(a.clone(), r.clone(), b.clone())), p(Str(p(Opt(a.clone())))))),
        set(Map(1, p(Seq(b.clone(), p(Star(p(Seq(a.clone(), p(Opt(r.clone()))))))))) ),
        p(Rules(vec![p(Seq(a.clone(), p(Opt(p(Rule(0, 1)))))), p(Map(2, p(Seq(b.clone(), p(Opt(r.clone()))))))], p(Alt(r.clone(), p(Rule(0, 1)))))),
        p(Rules(vec![p(Map(3, b.clone())), p(Map(4, a.clone())), p(Alt(p(Rule(0, 1)), r.clone()))], p(Plus(p(Rule(0, 2)))))),
    ];
    let mut v = vec![];
    for x in &sets {
        for y in &sets {
            v.push(p(Seq(x.clone(), y.clone())));
            v.push(p(Alt(x.clone(), y.clone())));
            v.push(p(Star(p(Alt(x.clone(), y.clone())))));
            v.push(p(RepSep(x.clone(), y.clone())));
            v.push(p(Seq(p(Line(p(Star(x.clone())))), p(Lines(y.clone())))));
            v.push(p(Alt(p(Section(p(Lines(x.clone())))), p(Lines(p(Seq(y.clone(), x.clone())))))));
            v.push(p(Sections(p(Lines(p(Alt(x.clone(), y.clone())))))));
            v.push(p(Seq(p(Str(x.clone())), y.clone())));
            v.push(p(Seq3(x.clone(), p(Opt(y.clone())), x.clone())));
            // one set inside a rule of the other
            for z in &sets {
                v.push(p(Rules(vec![p(Alt(p(Seq(x.clone(), p(Opt(p(Rule(0, 0)))))), y.clone()))], p(Seq(p(Rule(0, 0)), p(Opt(z.clone())))))));
            }
        }
    }
    v.retain(sound);
    v
}

pub fn p16(t: Tier) -> Parts {
    let ab = |q, th| strings(&["a", "b"], t.pick(q, th));
    let abn = |q, th| strings(&["a", "b", "\n"], t.pick(q, th));
    let cs = contexts(
        &[Ch('b'), Lit("\n")],
        &[Op::Star, Op::Opt, Op::Line, Op::Lines, Op::Section, Op::Sections, Op::Str, Op::Map],
        &[Op::Seq, Op::Alt, Op::RepSep],
        3,
    );
    let one = super::comb::one_rule_pats(3);
    let lines_in = {
        let bodies = upto(&[Ch('a'), Lit("\n"), Rule(0, 0), G::Cls(Cls::Any)], &[Op::Opt, Op::Star, Op::Line, Op::Lines, Op::Section, Op::Sections], &[Op::Seq, Op::Alt], t.pick(5, 6));
        let mut v = vec![];
        for b in bodies {
            if uses_rule(&b) && !left_recursive(&[b.clone()]) {
                v.push(p(Rules(vec![b], p(Rule(0, 0)))));
            }
        }
        v
    };
    let mut parts = vec![
        super::comb::one_rule(t.pick(5, 6), t.pick(5, 6), What::All),
        super::comb::two_rules(t.pick(4, 4), t.pick(4, 6), What::All),
        fam("three-rule sets", "rings of three rules with bodies of <= 3 nodes over 'a' 'b' and the rules; two entry patterns; texts over {a,b}".into(), three(3), ab(4, 6), What::All),
        fam("nested rule sets", format!("a rule set inside a rule body or entry pattern (contexts of <= 3 nodes), inner bodies of <= {} nodes naming inner and outer rules; texts over {{a,b}}", t.pick(3, 4)), nested(3, t.pick(3, 4)), ab(5, 6), What::All),
        fam("several rule sets", "six different rule sets in pairs and triples, side by side, in lines and sections, in each other's rules; texts over {a,b,\\n}".into(), neighbours(), abn(4, 6), What::All),
        fam("rules in contexts", "contexts of <= 3 nodes (line lines section sections string * ? => seq alt repeat_sep) x one-rule sets with bodies of <= 3 nodes; texts over {a,b,\\n}".into(), product(&cs, &one), abn(4, 5), What::All),
        fam("regions in rules", "one-rule sets whose body (<= 4 nodes) has line lines section sections; texts over {a,\\n}".into(), lines_in, strings(&["a", "\n"], t.pick(6, 7)), What::All),
        steps_part(t),
        super::comb::pumped_pats(
            t,
            "rules on long texts",
            "all one-rule sets with bodies of <= 4 nodes, all two-rule sets with bodies of <= 3 nodes",
            super::comb::one_rule_pats(4).into_iter().chain(super::comb::two_rule_pats(3)).collect(),
            What::All,
        ),
        whole_fam(|g| matches!(g, Rules(..)), t.pick(8, 9), What::All),
        puzzles(|g| matches!(g, Rules(..)), t.pick(32, 45), What::All),
        super::comb::whole_steps(|g| matches!(g, Rules(..)), t.pick(6, 7)),
    ];
    parts.push(super::hist::rule_histories(t));
    parts.push(list(
        "depth of nesting, number of uses",
        "brackets nested n deep, n uses of a rule in a list, n rule sets built and used at once: every n up to the bound",
        ladder(t.pick(150, 400), t.pick(1 << 10, 1 << 12)),
        |cx, n| {
            let n = *n;
            let nest = parser!(
                rule item: usize = { '(' v:items ')' => v + 1, "x" => 0 };
                rule items: usize = v:item* => v.into_iter().max().unwrap_or(0);
                items
            );
            let s = "(".repeat(n) + &")".repeat(n);
            check_eq(cx, || format!("brackets nested {n} deep"), Ok(n), || nest.parse(&s).map_err(|e| e.to_string()));
            let s = "(".repeat(n) + "x" + &")".repeat(n + 1);
            check_eq(cx, || format!("brackets nested {n} deep and one too many"), Err(2 * n + 1), || nest.parse(&s).map_err(|e| e.location));
            let s = "x".repeat(n) + "()";
            check_eq(cx, || format!("{n} uses of a rule"), Ok(1), || nest.parse(&s).map_err(|e| e.to_string()));
            if n > 0 {
                let abc: String = (0..n).map(|i| ['a', 'b', 'c'][i % 3]).collect();
                let li = abc.chars().map(|c| c.to_string()).collect::<Vec<_>>().join("\n");
                check_eq(cx, || format!("a rule on {n} lines"), Ok(abc.chars().collect::<Vec<char>>()), || parser!(rule l: char = alpha; rule m: Vec<char> = lines(l); m).parse(&li).map_err(|e| e.to_string()));
                check_eq(cx, || format!("right-recursive list of {n}"), Ok(abc.clone()), || {
                    parser!(rule l: String = { c:alpha r:l => { let mut s = c.to_string(); s.push_str(&r); s }, c:alpha => c.to_string() }; l).parse(&abc).map_err(|e| e.to_string())
                });
                // n sets alive at once, in one vector that grows
                if n <= 600 {
                    check_eq(cx, || format!("{n} rule sets alive at once"), Ok(n), || {
                        let mut v = vec![];
                        for i in 0..n {
                            // the constant differs, through a parser rather than a captured variable
                            let c = Const(i);
                            v.push(parser!(rule r: usize = { "a" x:r => x + 1, "b" x:c => x }; r));
                        }
                        for (i, q) in v.iter().enumerate() {
                            let want = i + 2;
                            let got = q.parse("aab").map_err(|e| e.to_string())?;
                            if got != want {
                                return Err(format!("set {i} gave {got}, expected {want}"));
                            }
                        }
                        Ok(v.len())
                    });
                }
            }
        },
    ));
    parts.push(list(
        "rule sets built far apart",
        "two rule sets and n others built between them, kept or dropped, of the same types or others; the two then used alone, side by side and one inside a rule of the other: every n up to the bound and around powers of two",
        ladder(t.pick(140, 300), t.pick(1 << 17, 1 << 20)),
        |cx, n| {
            let n = *n;
            for kept in [false, true] {
                for other in [false, true] {
                    let how = if kept { "kept" } else { "dropped" };
                    check_eq(cx, || format!("{n} rule sets ({how}, other types: {other}) built between two"), Ok(()), || {
                        let one = || parser!(rule r: usize = { "a" x:s => x + 1, "b" => 10 }; rule s: usize = { "c" x:r => x + 100, "d" => 1000 }; r);
                        let a = one();
                        let mut heap: Vec<Box<dyn std::any::Any>> = vec![];
                        for i in 0..n {
                            if other {
                                let q = parser!(rule s: char = alpha; s);
                                if kept { heap.push(Box::new(q)) }
                            } else {
                                let q = parser!(rule r: usize = { "a" x:r => x + 7, "b" => 70000 }; r);
                                if i + 2 > n && q.parse("ab").map_err(|e| e.to_string())? != 70007 {
                                    return Err(format!("set {i} in between"));
                                }
                                if kept { heap.push(Box::new(q)) }
                            }
                        }
                        let ra = &*Box::leak(Box::new(a));
                        let a = ra;
                        let b = parser!(rule r: usize = { "a" x:r => x + 2, "b" => 20, "(" x:ra ")" => x + 5000 }; r);
                        for (s, want) in [("b", Some(10)), ("acb", Some(111)), ("ad", Some(1001)), ("ab", None), ("acad", Some(1102))] {
                            let got = a.parse(s).ok();
                            if got != want {
                                return Err(format!("the first on {s:?}: {got:?}, expected {want:?}"));
                            }
                        }
                        for (s, want) in [("b", Some(20)), ("aab", Some(24)), ("ad", None), ("a(acb)", Some(5113)), ("(ab)", None), ("aa(ad)", Some(6005))] {
                            let got = b.parse(s).ok();
                            if got != want {
                                return Err(format!("the second on {s:?}: {got:?}, expected {want:?}"));
                            }
                        }
                        let rb = &b;
                        let side = parser!(a "," rb "," a);
                        for (s, want) in [("acb,aab,b", Some((111, 24, 10))), ("ad,(ad),ad", Some((1001, 6001, 1001))), ("ab,b,b", None)] {
                            let got = side.parse(s).ok();
                            if got != want {
                                return Err(format!("side by side on {s:?}: {got:?}, expected {want:?}"));
                            }
                        }
                        Ok(())
                    });
                }
            }
        },
    ));
    parts.push(many_sets(t));
    (parts, vec![])
}
/// Patterns of k rule sets, all in use at once or by turns, each with a text
/// it matches.
fn of_sets(k: usize) -> Vec<(&'static str, P, String)> {
    let c = |i: usize| ['a', 'b', 'c', 'é', 'd'][i % 5];
    let r = |d: usize| p(Rule(d as u8, 0));
    let set = |body: P, e: P| p(Rules(vec![body], e));
    let half: String = (0..k).map(c).collect();
    let back: String = (0..k).rev().map(c).collect();
    let mut v = vec![];
    // a set inside the entry pattern of another, inside that of another
    let mut g = p(Ch('x'));
    for i in (0..k).rev() {
        g = set(p(Ch(c(i))), p(Seq3(r(0), g, r(0))));
    }
    v.push(("in each other's entry patterns", g, format!("{half}x{back}")));
    // the same in the rules
    let mut g = p(Ch('x'));
    for i in (0..k).rev() {
        g = set(p(Seq3(p(Ch(c(i))), g, p(Ch(c(i))))), r(0));
    }
    v.push(("in each other's rules", g, format!("{half}x{back}")));
    // all inner sets use a rule of the outermost one, and of the one around
    if k < 200 {
        let mut g = p(Ch('x'));
        for i in (0..k).rev() {
            let up = if i > 0 { p(Seq(r(1), r(i))) } else { r(0) };
            g = set(p(Ch(c(i))), p(Seq3(up, g, r(0))));
        }
        let a: String = (0..k).flat_map(|i| if i > 0 { vec![c(i - 1), c(0)] } else { vec![c(0)] }).collect();
        v.push(("that use rules of the sets around", g, format!("{a}x{back}")));
    }
    let one = |i: usize| set(p(Seq(p(Ch(c(i))), p(Opt(p(Seq(p(Ch(',')), r(0))))))), r(0));
    // side by side, again and again
    let mut g = one(k - 1);
    for i in (0..k - 1).rev() {
        g = p(Seq(one(i), g));
    }
    let t = half.replace('b', "b,b");
    v.push(("side by side", p(Star(g)), format!("{t}{t}{t}")));
    // one after another in a list whose items are alternatives, and back
    let lit: Vec<&'static str> = (0..k).map(|i| &*format!("{}{}", c(i), i).leak()).collect();
    let alt = |i: usize| set(p(Seq(p(Lit(lit[i])), p(Star(p(Seq(p(Ch('+')), r(0))))))), r(0));
    let mut g = alt(k - 1);
    for i in (0..k - 1).rev() {
        g = p(Alt(g, alt(i)));
    }
    let some: Vec<usize> = if k <= 40 { (0..k).collect() } else { vec![0, 1, 2, k / 2, k - 2, k - 1] };
    let mut ws: Vec<String> = some.iter().map(|i| lit[*i].to_string()).collect();
    ws.extend(some.iter().rev().map(|i| format!("{0}+{0}", lit[*i])));
    // the alternatives differ in their number, so one digit must end it
    v.push(("as alternatives", p(RepSep(g, p(Ch(';')))), ws.join(";")));
    // of an outer rule that comes back to itself through all of them
    let mut g = p(Alt(p(Ch('.')), p(Seq3(p(Ch('(')), r(k), p(Ch(')'))))));
    for i in 0..k {
        g = set(p(Ch(c(i))), p(Seq(r(0), g)));
    }
    v.push(("between a rule and itself", p(Rules(vec![g], p(Plus(r(0))))), format!("{back}({back}({back}.)){back}.")));
    v
}
fn many_sets(t: Tier) -> Part {
    let mut cases = vec![];
    let all = t.pick(40, 70);
    for k in (1..=all).chain(t.pick(vec![63, 64, 65, 127, 128, 129, 150], vec![100, 127, 128, 129, 190, 230])) {
        for (name, g, s) in of_sets(k) {
            cases.push((k, name, g, s));
        }
    }
    Part {
        name: "many rule sets in one pattern".into(),
        bounds: format!("k rule sets in each other's entry patterns, in each other's rules, using rules of those around, side by side, as alternatives, between a rule and itself: every k up to {all} and around powers of two up to {}; the text each is for, and that text with one character taken out, replaced or put in at every (for long texts, every so many) place", t.pick(150, 230)),
        units: cases.len(),
        run: Box::new(move |u, cx| {
            let (_, _, g, s) = &cases[u];
            let b = crate::dynp::build(g);
            let out = compare(cx, g, &b, s, What::All);
            if !matches!(out, Some(Out::Ok(_))) && cx.viol.is_none() {
                cx.fail(format!("parser!({}) does not match the text it is for", g.src()));
            }
            let cs: Vec<char> = s.chars().collect();
            for i in (0..=cs.len()).step_by((cs.len() / 40).max(1)) {
                let at = |n: usize, x: &str| cs[..i].iter().collect::<String>() + x + &cs[(i + n).min(cs.len())..].iter().collect::<String>();
                for s in [at(1, ""), at(1, "b"), at(0, "a"), at(usize::MAX >> 1, "")] {
                    compare(cx, g, &b, &s, What::All);
                    if cx.viol.is_some() {
                        return;
                    }
                }
            }
        }),
    }
}
fn steps_part(t: Tier) -> Part {
    super::comb::steps_fam("stepping through matches of rules", "one-rule sets with bodies of <= 4 nodes, nested sets".into(), {
        let mut v = super::comb::one_rule_pats(t.pick(3, 4));
        v.extend(nested(2, 3));
        v
    }, strings(&["a", "b"], t.pick(4, 5)))
}
