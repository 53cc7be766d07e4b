//! P21 collections, P22 equivalent formulations, P23 the aoc-runner helper.
use super::comb::check_eq;
use super::*;
use crate::dynp::{self, bx, Bx};
use crate::gram::{Cls, Coll as C, Num};
use crate::val::{ToVal, Val};
use aoc_parse::{parser, prelude::*, ParseError};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use G::{Alt, Ch, CharOf, Coll, CollMap, Empty, Line, Lines, Lit, Opt, Plus, RepSep, Seq, Star, Str};

// ---- P21

pub fn p21(t: Tier) -> Parts {
    let leaves = [Ch('a'), Str(p(Lit("ab"))), CharOf("ab"), G::Cls(Cls::Any)];
    let bodies = upto(&leaves, &[Op::Opt, Op::Plus, Op::Map, Op::Str], &[Op::Alt, Op::Seq], t.pick(3, 4));
    let sets = [C::HSet, C::BSet, C::Deq];
    let maps = [C::HMap, C::BMap];
    let mut direct = vec![];
    for b in &bodies {
        for c in sets {
            direct.push(p(Coll(c, b.clone(), None)));
            direct.push(p(Coll(c, b.clone(), Some(p(Opt(p(Ch('b'))))))));
            direct.push(p(Coll(c, b.clone(), Some(p(Ch('a'))))));
            direct.push(p(Seq(p(Coll(c, b.clone(), None)), p(Star(p(G::Cls(Cls::Any)))))));
            direct.push(p(Star(p(Seq(p(Coll(c, b.clone(), None)), p(Ch('b')))))));
        }
        for x in bodies.iter().filter(|x| x.size() <= 2) {
            for c in maps {
                direct.push(p(CollMap(c, b.clone(), x.clone())));
                direct.push(p(CollMap(c, x.clone(), b.clone())));
            }
        }
    }
    // collections in everything, collections of collections
    let cs = contexts(&[Ch('a')], &[Op::Star, Op::Opt, Op::Line, Op::Lines, Op::Sections, Op::Map, Op::Str], &[Op::Seq, Op::Alt, Op::RepSep], 3);
    let mut small = vec![];
    for e in [p(G::Cls(Cls::Any)), p(G::Cls(Cls::Alpha)), p(Str(p(Plus(p(Ch('a'))))))] {
        for c in sets {
            let s = p(Coll(c, e.clone(), None));
            small.push(s.clone());
            small.push(p(Coll(c, e.clone(), Some(p(Ch('b'))))));
            for d in sets {
                small.push(p(Coll(d, p(Seq(s.clone(), p(Ch('b')))), None)));
                small.push(p(Coll(d, p(Line(s.clone())), None)));
            }
            for m in maps {
                small.push(p(CollMap(m, p(Seq(s.clone(), p(Ch('b')))), e.clone())));
                small.push(p(CollMap(m, e.clone(), p(Line(s.clone())))));
            }
        }
        for m in maps {
            small.push(p(CollMap(m, e.clone(), p(G::Cls(Cls::Any)))));
        }
    }
    let nums: Vec<P> = {
        let mut v = vec![];
        for c in sets {
            v.push(p(Coll(c, p(G::Num(Num::U8)), Some(p(Ch(','))))));
            v.push(p(Coll(c, p(G::Num(Num::I8)), Some(p(Ch(','))))));
            v.push(p(Coll(c, p(G::Cls(Cls::Digit)), None)));
            v.push(p(Lines(p(Coll(c, p(G::Num(Num::U8)), Some(p(Ch(','))))))));
        }
        for m in maps {
            v.push(p(CollMap(m, p(G::Cls(Cls::Digit)), p(G::Num(Num::I8)))));
            v.push(p(CollMap(m, p(Seq(p(G::Num(Num::U8)), p(Ch(',')))), p(G::Cls(Cls::Digit)))));
        }
        v
    };
    let parts = vec![
        whole_fam(|g| matches!(g, Coll(..)), t.pick(7, 8), What::All),
        puzzles(|g| matches!(g, Coll(..) | CollMap(..)), t.pick(45, 80), What::All),
        fam("collections of lists", "hash_set btree_set vec_deque of p* and repeat_sep(p, s), hash_map btree_map of (k v)*, all p k v of <= 3 nodes; all texts over {a,b}".into(), direct, strings(&["a", "b"], t.pick(7, 8)), What::All),
        fam("collections in contexts", "contexts of <= 3 nodes x collections and collections of collections; all texts over {a,b,\\n}".into(), product(&cs, &small), strings(&["a", "b", "\n"], t.pick(4, 6)), What::All),
        fam("collections of numbers", "sets, deques and maps of numbers; all texts over {0,1,7,\\,,-,\\n}".into(), nums, strings(&["0", "1", "7", ",", "-", "\n"], t.pick(6, 7)), What::All),
        list(
            "real collection types",
            "the five pieces with their real element types over lists, lines, sections and optionals; all texts over {a,b,c,1,\\n} of length <= 6",
            strings(&["a", "b", "c", "1", "\n"], 2),
            |cx, head| {
                let hs = parser!(hash_set(lines(alpha)));
                let bs = parser!(btree_set(repeat_sep({alpha, x:digit => (b'0' + x as u8) as char}, "\n")));
                let vd = parser!(vec_deque(any_char+));
                let hm = parser!(hash_map(lines(alpha any_char)));
                let bm = parser!(btree_map((any_char any_char)*));
                let ho = parser!(hash_set(alpha?) string(any_char*));
                let hb = parser!(btree_set(hash_set(any_char*)));
                let mv = parser!(hash_map((alpha vec_deque(digit*))*));
                let tails = strings(&["a", "b", "c", "1", "\n"], 4);
                for tail in tails {
                    let s = format!("{head}{tail}");
                    let cs: Vec<char> = s.chars().collect();
                    let mut ls: Vec<&str> = s.split('\n').collect();
                    if s.is_empty() || s.ends_with('\n') {
                        ls.pop();
                    }
                    let al = |l: &&str| l.len() == 1 && *l != "1";
                    let want = ls.iter().all(al).then(|| ls.iter().map(|l| l.chars().next().unwrap()).collect::<HashSet<char>>());
                    check_eq(cx, || format!("hash_set(lines(alpha)) on {s:?}"), want, || hs.parse(&s).ok());
                    let parts: Vec<&str> = if s.is_empty() { vec![] } else { s.split('\n').collect() };
                    let want = parts.iter().all(|l| l.len() == 1).then(|| parts.iter().map(|l| l.chars().next().unwrap()).collect::<BTreeSet<char>>());
                    check_eq(cx, || format!("btree_set(repeat_sep(.., newline)) on {s:?}"), want, || bs.parse(&s).ok());
                    let want = (!cs.is_empty()).then(|| cs.iter().copied().collect::<VecDeque<char>>());
                    check_eq(cx, || format!("vec_deque(any_char+) on {s:?}"), want, || vd.parse(&s).ok());
                    let kv = ls.iter().all(|l| l.len() == 2 && !l.starts_with('1'));
                    let want = kv.then(|| {
                        let mut m = HashMap::new();
                        for l in &ls {
                            let mut c = l.chars();
                            m.insert(c.next().unwrap(), c.next().unwrap());
                        }
                        m
                    });
                    check_eq(cx, || format!("hash_map(lines(alpha any_char)) on {s:?}"), want, || hm.parse(&s).ok());
                    let want = (cs.len() % 2 == 0).then(|| {
                        let mut m = BTreeMap::new();
                        for c in cs.chunks(2) {
                            m.insert(c[0], c[1]);
                        }
                        m
                    });
                    check_eq(cx, || format!("btree_map((any_char any_char)*) on {s:?}"), want, || bm.parse(&s).ok());
                    let (o, rest): (HashSet<char>, String) = match cs.first() {
                        Some(c) if c.is_alphabetic() => ([*c].into(), s[1..].to_string()),
                        _ => ([].into(), s.clone()),
                    };
                    check_eq(cx, || format!("hash_set(alpha?) string(any_char*) on {s:?}"), Some((o, rest)), || ho.parse(&s).ok());
                    check_eq(cx, || format!("btree_set(hash_set(any_char*)) on {s:?}"), Some(cs.iter().copied().collect::<BTreeSet<char>>()), || hb.parse(&s).ok());
                    let mut m: HashMap<char, VecDeque<usize>> = HashMap::new();
                    let mut good = true;
                    let mut cur: Option<(char, VecDeque<usize>)> = None;
                    for c in &cs {
                        if c.is_alphabetic() {
                            if let Some((k, v)) = cur.take() {
                                m.insert(k, v);
                            }
                            cur = Some((*c, VecDeque::new()));
                        } else if *c == '1' && cur.is_some() {
                            cur.as_mut().unwrap().1.push_back(1);
                        } else {
                            good = false;
                        }
                    }
                    if let Some((k, v)) = cur {
                        m.insert(k, v);
                    }
                    check_eq(cx, || format!("hash_map((alpha vec_deque(digit*))*) on {s:?}"), good.then_some(m), || mv.parse(&s).ok());
                    if cx.viol.is_some() {
                        return;
                    }
                }
            },
        ),
        list(
            "any number of members",
            "n members, of which d distinct, with the first and last repeats told apart: every n up to the bound and around powers of two",
            ladder(t.pick(300, 1200), t.pick(1 << 17, 1 << 18)),
            |cx, n| {
                let n = *n;
                for d in [1usize, 2, 7, n / 2 + 1, n + 1] {
                    let xs: Vec<u32> = (0..n).map(|i| ((i * 7919) % d) as u32).collect();
                    let s = xs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
                    let name = |w: &str| format!("{w} of {n} numbers, {d} distinct at most");
                    check_eq(cx, || name("hash_set"), Ok(xs.iter().copied().collect::<HashSet<u32>>()), || parser!(hash_set(repeat_sep(u32, ','))).parse(&s).map_err(|e| e.to_string()));
                    check_eq(cx, || name("btree_set"), Ok(xs.iter().copied().collect::<BTreeSet<u32>>()), || parser!(btree_set(repeat_sep(u32, ','))).parse(&s).map_err(|e| e.to_string()));
                    check_eq(cx, || name("vec_deque"), Ok(xs.iter().copied().collect::<VecDeque<u32>>()), || parser!(vec_deque(repeat_sep(u32, ','))).parse(&s).map_err(|e| e.to_string()));
                    let s: String = xs.iter().enumerate().map(|(i, x)| format!("{x}={i}\n")).collect();
                    let mut m = HashMap::new();
                    let mut b = BTreeMap::new();
                    for (i, x) in xs.iter().enumerate() {
                        m.insert(*x, i);
                        b.insert(*x, i);
                    }
                    check_eq(cx, || name("hash_map"), Ok(m), || parser!(hash_map(lines(u32 '=' usize))).parse(&s).map_err(|e| e.to_string()));
                    check_eq(cx, || name("btree_map"), Ok(b), || parser!(btree_map(lines(u32 '=' usize))).parse(&s).map_err(|e| e.to_string()));
                }
            },
        ),
    ];
    (parts, vec![])
}

// ---- P22

fn st(x: impl ToVal) -> Val {
    x.to_val()
}
/// Pairs of formulations of one pattern `a`, as parsers with the same value.
fn forms(a: &Bx, nullable: bool) -> Vec<(&'static str, Bx, Bx)> {
    let c = || a.clone();
    let leak = |b: Bx| -> &'static Bx { Box::leak(Box::new(b)) };
    let mut v = vec![];
    {
        let (x, y) = (c(), c());
        v.push(("lines(p) and line(p)*", bx(parser!(lines(x))), bx(parser!(line(y)*))));
    }
    {
        let (x, y) = (c(), c());
        v.push(("sections(p) and section(p)*", bx(parser!(sections(x))), bx(parser!(section(y)*))));
    }
    {
        let (x, y) = (c(), c());
        v.push(("p? and {p, ()}", bx(parser!(x?)), bx(parser!({v:y => st(Some(v)), () => st(None::<Val>)}))));
    }
    if !nullable {
        let (x, y, z) = (c(), c(), c());
        v.push((
            "p+ and p p*",
            bx(parser!(x+)),
            bx(parser!(h:y t:z* => {
                let mut t: Vec<Val> = t;
                t.insert(0, h);
                Val::L(t)
            })),
        ));
    }
    {
        let (x, y) = (c(), c());
        v.push(("p* and repeat_sep(p, \"\")", bx(parser!(x*)), bx(parser!(repeat_sep(y, "")))));
    }
    {
        let r = leak(c());
        v.push(("p and &p", c(), bx(parser!(r))));
        let rr: &'static &'static Bx = Box::leak(Box::new(r));
        v.push(("p and &&p", c(), bx(parser!(rr))));
    }
    {
        let x = c();
        v.push(("p and (p)", c(), bx(parser!((x)))));
        let x = c();
        v.push(("p and ((p))", c(), bx(parser!(((x))))));
        let x = c();
        v.push(("p and {p}", c(), bx(parser!({x}))));
        let x = c();
        let named = parser!(x);
        v.push(("p and a named parser", c(), bx(parser!(named))));
        let x = c();
        let named = parser!(x);
        let named2 = parser!(named);
        v.push(("p and a named parser of a named parser", c(), bx(parser!((named2)))));
        let x = c();
        v.push(("p and rule r = p; r", c(), bx(parser!(rule r: Val = x; r))));
        let x = c();
        v.push(("p and rule s = r; rule r = p; s", c(), bx(parser!(rule s: Val = r; rule r: Val = x; s))));
        let x = c();
        v.push(("p and v:p => v", c(), bx(parser!(v:x => v))));
        let x = c();
        let e = parser!(());
        v.push(("p and () p ()", c(), bx(parser!(e v:x e => v))));
    }
    {
        let (x, y) = (c(), c());
        v.push(("string(p) and string((p))", bx(parser!(string(x))), bx(parser!(string((y))))));
        let (x, y) = (c(), c());
        v.push(("(p)* and p*", bx(parser!((x)*)), bx(parser!(y*))));
        let (x, y) = (c(), c());
        v.push(("lines(p) and rule r = line(p); r*", bx(parser!(lines(x))), bx(parser!(rule r: Val = line(y); r*))));
    }
    v
}
fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => x == y,
        (Out::Err(x), Out::Err(y)) => x.location == y.location && x.to_string() == y.to_string() && x.source == y.source,
        _ => false,
    }
}
fn equiv(name: &str, bounds: &str, bodies: Vec<P>, cs: Vec<P>, inputs: Vec<String>) -> Part {
    let pairs = forms(&dynp::build(&p(G::Ch('a'))), false).len();
    let b = format!("{bounds}; {pairs} pairs of formulations x {} contexts x {} texts", cs.len(), inputs.len());
    list(name, &b, bodies, move |cx, g| {
        let a = dynp::build(g);
        for (k, (what, l, r)) in forms(&a, g.nullable()).into_iter().enumerate() {
            for c in &cs {
                if k > 4 && c.size() > 2 {
                    // the plain wrappers: in small contexts
                    continue;
                }
                let (lb, rb) = (dynp::build_hole(c, l.clone()), dynp::build_hole(c, r.clone()));
                for s in &inputs {
                    let name = || format!("{what} with p = {}, in parser!({}) with _ for it, on {s:?}", g.src(), c.src().replace("'\\0'", "_"));
                    if !cx.case(name) {
                        return;
                    }
                    let x = real_parse(&lb, s, 400_000);
                    cx.transitions += steps();
                    let y = real_parse(&rb, s, 4_000_000);
                    cx.transitions += steps();
                    cx.executions += 2;
                    cx.states += 2;
                    let _ = take_log();
                    if matches!(x, Out::Budget) {
                        // more than exponentially many ways to match: not comparable
                        cx.skipped += 1;
                        continue;
                    }
                    if !same(&x, &y) {
                        cx.fail(format!("{} differ:\n  first  {}\n  second {}", name(), x.show(), y.show()));
                        return;
                    }
                    match x {
                        Out::Ok(v) => {
                            cx.accepted += 1;
                            cx.outcome(&v);
                        }
                        _ => cx.rejected += 1,
                    }
                    cx.sample(|| format!("{}: both {}", name(), y.show()));
                }
            }
        }
    })
}

macro_rules! plain {
    ($cx:expr, $texts:expr, $( $ty:ty : [ $($p:tt)* ] ; )*) => { $( {
        let l1 = parser!(lines($($p)*));
        let l2 = parser!(line($($p)*)*);
        let s1 = parser!(sections($($p)*));
        let s2 = parser!(section($($p)*)*);
        let o1 = parser!(($($p)*)?);
        let o2 = parser!({v:($($p)*) => Some(v), () => None});
        let p1 = parser!(($($p)*)+);
        let p2 = parser!(h:($($p)*) t:($($p)*)* => { let mut t = t; t.insert(0, h); t });
        let r1 = parser!(($($p)*)*);
        let r2 = parser!(repeat_sep($($p)*, ""));
        let a0 = parser!($($p)*);
        let a1 = parser!((($($p)*)));
        let a2 = parser!({$($p)*});
        let n = parser!($($p)*);
        let a3 = parser!(n);
        let m = parser!($($p)*);
        let mr = &m;
        let a4 = parser!(mr);
        let a5 = parser!(rule r: $ty = $($p)*; r);
        let a6 = parser!(rule q: $ty = r; rule r: $ty = ($($p)*); q);
        for s in $texts {
            let name = |w: &str| format!("{w} with p = {} on {s:?}", stringify!($($p)*));
            macro_rules! eq {
                ($what:expr, $x:expr, $y:expr) => {
                    let want = guarded(u64::MAX, || $x.parse(s).map(|v| v.to_val()).map_err(|e: ParseError| (e.location, e.to_string()))).map_err(|o| o.show());
                    check_eq($cx, || name($what), want, || Ok($y.parse(s).map(|v| v.to_val()).map_err(|e: ParseError| (e.location, e.to_string()))));
                };
            }
            eq!("line(p)* against lines(p)", l1, l2);
            eq!("section(p)* against sections(p)", s1, s2);
            eq!("{p, ()} against p?", o1, o2);
            eq!("p p* against p+", p1, p2);
            eq!("repeat_sep(p, \"\") against p*", r1, r2);
            eq!("((p)) against p", a0, a1);
            eq!("{p} against p", a0, a2);
            eq!("a named parser against p", a0, a3);
            eq!("&p against p", a0, a4);
            eq!("rule r = p; r against p", a0, a5);
            eq!("rule q = r; rule r = p; q against p", a0, a6);
            if $cx.viol.is_some() {
                return;
            }
        }
    } )* };
}

/// Parsers used without `parser!`: by value, through references, raw, and
/// in one or more `parser!`s.
fn direct_check<Q: Parser + ?Sized>(cx: &mut Ctx, name: &str, q: &Q, unraw: fn(Q::RawOutput) -> Q::Output, texts: &[String])
where
    Q::Output: ToVal,
{
    type R = Result<Val, (usize, String, String)>;
    fn show<T: ToVal>(r: Result<T, ParseError>) -> R {
        r.map(|v| v.to_val()).map_err(|e| (e.location, e.to_string(), e.source.clone()))
    }
    let m1 = parser!(q);
    let m2 = parser!(m1);
    let m1 = parser!(q);
    let mr = &m1;
    let m3 = parser!(mr);
    let qq = &q;
    for s in texts {
        let s = s.as_str();
        let want = guarded(u64::MAX, || show(m1.parse(s))).map_err(|o| o.show());
        let bad = want.as_ref().map_or(true, |w| w.is_err());
        let before = cx.accepted;
        check_eq(cx, || format!("{name}.parse({s:?}) against parser!({name})"), want.clone(), || Ok(show(Parser::parse(q, s))));
        check_eq(cx, || format!("(&{name}).parse({s:?}) against parser!({name})"), want.clone(), || Ok(show(Parser::parse(&q, s))));
        check_eq(cx, || format!("(&&{name}).parse({s:?}) against parser!({name})"), want.clone(), || Ok(show(Parser::parse(&qq, s))));
        check_eq(cx, || format!("{name}.parse_raw({s:?}) against parser!({name})"), want.clone(), || Ok(show(q.parse_raw(s).map(unraw))));
        check_eq(cx, || format!("(&{name}).parse_raw({s:?}) against parser!({name})"), want.clone(), || Ok(show(Parser::parse_raw(&q, s).map(unraw))));
        check_eq(cx, || format!("parser!({name}).parse_raw({s:?}) against its parse"), want.clone(), || Ok(show(m1.parse_raw(s).map(|v| v.0))));
        check_eq(cx, || format!("p.parse({s:?}) with p = parser!(parser!({name})) against parser!({name})"), want.clone(), || Ok(show(m2.parse(s))));
        check_eq(cx, || format!("p.parse({s:?}) with p = parser!(&parser!({name})) against parser!({name})"), want, || Ok(show(m3.parse(s))));
        if bad {
            cx.rejected += cx.accepted - before;
            cx.accepted = before;
        }
        if cx.viol.is_some() {
            return;
        }
    }
}
macro_rules! direct {
    ($cx:expr, $texts:expr, one: $($e:expr),* ; none: $($n:expr),* $(,)?) => {
        $( direct_check($cx, stringify!($e), &$e, |r| r.0, $texts); )*
        $( direct_check($cx, stringify!($n), $n, |r| r, $texts); )*
    };
}

pub fn p22(t: Tier) -> Parts {
    let leaves = [Ch('a'), Lit("ab"), Ch('b'), Empty];
    let bodies = upto(&leaves, &[Op::Star, Op::Opt, Op::Str, Op::Map], &[Op::Seq, Op::Alt, Op::RepSep], t.pick(4, 5));
    let reg = upto(&[Ch('a'), Lit("\n"), G::Cls(Cls::Any)], &[Op::Star, Op::Opt, Op::Line, Op::Lines, Op::Section], &[Op::Seq, Op::Alt], t.pick(4, 5));
    let cs = contexts(&[Ch('a')], &[Op::Star, Op::Opt, Op::Line, Op::Str], &[Op::Seq, Op::Alt], 3);
    let rcs = contexts(&[Lit("\n"), Ch('a')], &[Op::Star, Op::Line, Op::Section], &[Op::Seq, Op::Alt], 3);
    let mb = upto(&[Lit("é"), Ch('😂'), G::Cls(Cls::Alpha), CharOf("é😂"), G::Num(Num::U8)], &[Op::Star, Op::Opt], &[Op::Seq, Op::Alt], 3);
    let texts6 = strings(&["a", "b"], t.pick(4, 5));
    let parts = vec![
        equiv("combinators", "every p of <= 4 nodes over 'a' \"ab\" 'b' empty; contexts of <= 3 nodes; texts over {a,b}", bodies, cs, texts6),
        equiv("regions", "every p of <= 4 nodes with line lines section; contexts of <= 3 nodes; texts over {a,\\n}", reg, rcs, strings(&["a", "\n"], t.pick(4, 6))),
        equiv("multi-byte text", "every p of <= 3 nodes; texts over {é,😂,1,\\n}", mb, vec![p(HOLE), p(Star(p(HOLE))), p(Seq(p(HOLE), p(Ch('é')))), p(Line(p(HOLE)))], strings(&["é", "😂", "1", "\n"], t.pick(4, 5))),
        list(
            "plain patterns",
            "12 patterns written out without type erasure, each in all the formulations; all texts over {a,b,1,-,\\n} of length <= 6",
            strings(&["a", "b", "1", "-", "\n"], 2),
            move |cx, head| {
                let texts: Vec<String> = strings(&["a", "b", "1", "-", "\n"], t.pick(3, 5)).into_iter().map(|x| format!("{head}{x}")).collect();
                plain!(cx, &texts,
                    char: [alpha];
                    u8: [u8];
                    i8: [i8];
                    (char, usize): [alpha digit];
                    String: [string(alpha+)];
                    (): ["a"];
                    char: [{alpha, "1" => 'x'}];
                    (): ["a" '1'];
                    (char, Vec<usize>): [alpha digit* "-"];
                    Vec<char>: [alpha+];
                    Vec<u8>: ['-' repeat_sep(u8, "-")];
                    (usize, Option<char>): [x:digit y:alpha? => (x, y)];
                );
            },
        ),
        list(
            "used directly",
            "54 parsers used without parser!, by reference, raw, and in parser! once or twice; all texts over 12 pieces, up to 4 of them (thorough: 5)",
            strings(&["a", "b", "1", "0", "-", "\n", ",", "f", "true", "é", "300", "99999999999999999999999999999999999999999"], 1),
            move |cx, head| {
                let texts: Vec<String> = strings(&["a", "b", "1", "0", "-", "\n", ",", "f", "true", "é", "300", "99999999999999999999999999999999999999999"], t.pick(3, 4)).into_iter().map(|x| format!("{head}{x}")).collect();
                direct!(cx, &texts,
                    one: u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64, bool, u8_hex, u16_bin, i32_hex, u8_bin, i64_bin, big_int, big_uint,
                    alpha, alnum, upper, lower, digit, digit_bin, digit_hex, any_char, char_of("ab\n"),
                    string(any_char), string(parser!(alpha+)), string(string(digit)), line(u8), line(string(parser!(any_char*))), lines(u8), lines(alpha), section(line(u8)), section(parser!(any_char+)),
                    sections(lines(u8)), sections(line(alpha)), repeat_sep(u8, ","), repeat_sep(alpha, '-'), hash_set(lines(u8)), btree_set(repeat_sep(alpha, ",")), vec_deque(repeat_sep(u8, ",")),
                    hash_map(repeat_sep(parser!(alpha "-" u8), ',')), btree_map(lines(parser!(alpha digit)));
                    none: "a", &'a', "", "é\n", &"1,"
                );
            },
        ),
        list(
            "any number of elements",
            "lines/line*, sections/section*, p*/repeat_sep(p, \"\"), p+/p p* on n elements, right and with a fault at the end: every n up to the bound",
            ladder(t.pick(200, 800), t.pick(1 << 12, 1 << 14)),
            |cx, n| {
                let n = *n;
                for (what, s) in [("good", "1\n".repeat(n)), ("cut", "12\n".repeat(n) + "3"), ("bad", "1\n".repeat(n.min(4000)) + "x\n"), ("spaced", "1\n\n".repeat(n)), ("a run", "7".repeat(n)), ("a run and a fault", "7".repeat(n.min(4000)) + "é")] {
                    macro_rules! eq {
                        ($x:expr, $y:expr) => {
                            let want = guarded(u64::MAX, || $x.parse(&s).map_err(|e| (e.location, e.to_string()))).map_err(|o| o.show());
                            check_eq(cx, || format!("{} against {} on a {what} text of {n} elements", stringify!($y), stringify!($x)), want, || Ok($y.parse(&s).map_err(|e| (e.location, e.to_string()))));
                        };
                    }
                    eq!(parser!(lines(u8)), parser!(line(u8)*));
                    eq!(parser!(sections(u8 "\n")), parser!(section(u8 "\n")*));
                    eq!(parser!(sections(lines(u8))), parser!(section(line(u8)*)*));
                    eq!(parser!(digit*), parser!(repeat_sep(digit, "")));
                    eq!(parser!(digit+), parser!(h:digit t:digit* => { let mut t = t; t.insert(0, h); t }));
                    eq!(parser!(line(digit*)*), parser!(lines(repeat_sep(digit, ""))));
                }
            },
        ),
    ];
    (parts, vec!["p+ against p p* is compared for patterns p that cannot match the empty text"])
}

// ---- P23

#[derive(Debug, PartialEq)]
struct MyErr(usize, String, String);
impl From<ParseError> for MyErr {
    fn from(e: ParseError) -> MyErr {
        MyErr(e.location, e.source.clone(), e.to_string())
    }
}
fn help_check<Q: Parser>(cx: &mut Ctx, name: &str, q: &Q, s: &str)
where
    Q::Output: ToVal,
{
    let full = if s.ends_with('\n') { s.to_string() } else { format!("{s}\n") };
    let want = guarded(u64::MAX, || q.parse(&full).map(|v| v.to_val()).map_err(MyErr::from)).map_err(|o| o.show());
    let clip = |s: &str| if s.len() > 60 { format!("{:?}... ({} bytes)", s.chars().take(20).collect::<String>(), s.len()) } else { format!("{s:?}") };
    // the text, the text as restored, its parse
    cx.states += 2;
    cx.transitions += 1;
    cx.outcome(&format!("{name} {want:?}"));
    let (bad, before) = (want.as_ref().map_or(true, |w| w.is_err()), cx.accepted);
    check_eq(cx, || format!("aoc_parse(.., {name}) on {}", clip(s)), want, || Ok(aoc_parse::<&Q, MyErr>(s, q).map(|v| v.to_val())));
    if bad && cx.accepted > before {
        cx.accepted = before;
        cx.rejected += 1;
    }
}
pub fn p23(t: Tier) -> Parts {
    macro_rules! all {
        ($cx:expr, $s:expr) => {{
            let s = $s;
            help_check($cx, "lines(string(any_char*))", &parser!(lines(string(any_char*))), s);
            help_check($cx, "string(any_char*)", &parser!(string(any_char*)), s);
            help_check($cx, "lines(u64)", &parser!(lines(u64)), s);
            help_check($cx, "sections(lines(alpha+))", &parser!(sections(lines(alpha+))), s);
            help_check($cx, "section(lines(any_char*)) line(alpha)", &parser!(section(lines(any_char*)) line(alpha)), s);
            help_check($cx, "alpha* \"\\n\"", &parser!(alpha* "\n"), s);
            help_check($cx, "alpha*", &parser!(alpha*), s);
            help_check($cx, "repeat_sep(lines(u64), \"\\n\")", &parser!(repeat_sep(lines(u64), "\n")), s);
            help_check($cx, "hash_set(any_char*)", &parser!(hash_set(any_char*)), s);
            help_check($cx, "\"\\n\"*", &parser!(a:("\n" => 1)* => a.len()), s);
            help_check($cx, "()", &parser!(()), s);
            help_check($cx, "a rule set", &parser!(rule r: String = { "a" x:r => x + "a", "\n" => String::new() }; r), s);
        }};
    }
    let parts = vec![
        list(
            "all short texts",
            "12 parsers; all texts of length <= 6 over {a,1,\\n,\\r,é} and of length <= 3 over 12 more characters (line separators of other kinds, NUL, BOM, four-byte characters)",
            strings(&["a", "1", "\n", "\r", "é"], 2),
            move |cx, head| {
                for tail in strings(&["a", "1", "\n", "\r", "é"], t.pick(4, 5)) {
                    let s = format!("{head}{tail}");
                    all!(cx, &s);
                    if cx.viol.is_some() {
                        return;
                    }
                }
            },
        ),
        list(
            "all short texts with unusual characters",
            "12 parsers; all texts of length <= 4 over 14 characters",
            strings(&["\n", "\r", "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}", "\0", "\u{feff}", "😂", "\u{10ffff}", " ", "\\", "n"], 1),
            move |cx, head| {
                for tail in strings(&["\n", "\r", "\u{2028}", "\u{2029}", "\u{85}", "\u{b}", "\u{c}", "\0", "\u{feff}", "😂", "\u{10ffff}", " ", "\\", "n"], t.pick(2, 3)) {
                    let s = format!("{head}{tail}");
                    all!(cx, &s);
                    if cx.viol.is_some() {
                        return;
                    }
                }
            },
        ),
        list(
            "long texts",
            "n characters, n lines, n newlines, with 0 to 3 newlines at the end: every n up to the bound and around powers of two (the longest with one body and three ends)",
            ladder(t.pick(300, 1500), t.pick(1 << 20, 1 << 22)),
            move |cx, n| {
                let n = *n;
                if n > t.pick(1 << 13, 1 << 16) {
                    // the longest ones, plainly
                    for end in ["", "\n", "\n\n"] {
                        let s = "a".repeat(n) + end;
                        help_check(cx, "string(any_char*)", &parser!(string(any_char*)), &s);
                        if end.len() < 2 {
                            help_check(cx, "alpha* \"\\n\"", &parser!(alpha* "\n"), &s);
                        }
                        // (each line, and each choice taken back, copies the text)
                        if n <= 70_000 {
                            help_check(cx, "alpha*", &parser!(alpha*), &s);
                            help_check(cx, "lines(string(any_char*))", &parser!(lines(string(any_char*))), &("ab\n".repeat(n / 3) + "7" + end));
                        }
                    }
                    return;
                }
                for end in ["", "\n", "\n\n", "\n\n\n", "\r\n", "\r"] {
                    for body in ["a".repeat(n), "é\n".repeat(n), "7\n".repeat(n), "\n".repeat(n), "7\n\n".repeat(n)] {
                        let s = body.trim_end_matches('\n').to_string() + end;
                        help_check(cx, "lines(string(any_char*))", &parser!(lines(string(any_char*))), &s);
                        help_check(cx, "string(any_char*)", &parser!(string(any_char*)), &s);
                        if n <= 2000 || body.starts_with('7') {
                            help_check(cx, "lines(u64)", &parser!(lines(u64)), &s);
                            help_check(cx, "sections(lines(u64))", &parser!(sections(lines(u64))), &s);
                        }
                    }
                }
            },
        ),
    ];
    (parts, vec!["the result of the ordinary parse itself is decided by the other properties"])
}
