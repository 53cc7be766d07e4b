//! P04: every parse of every (not left-recursive) pattern on every text ends,
//! without panic, abort or stack overflow.
use super::*;
use crate::gram::{Cls, Num};
use aoc_parse::{parser, prelude::*};
use G::{Alt, Ch, CharOf, Empty, Lit, Opt, Plus, RepSep, Rule, Rules, Seq, Star, Str};

/// Small enough that a few hundred bytes of stack per element show at the
/// larger rungs of the ladders.
const SMALL: usize = 384 << 10;

fn small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(SMALL).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}

/// `f` parses and drops the result; true if it was accepted.
fn ends(cx: &mut Ctx, what: impl Fn() -> String, f: impl FnOnce() -> bool + Send) {
    if !cx.case(&what) {
        return;
    }
    cx.executions += 1;
    cx.states += 1;
    cx.transitions += 1;
    match small_stack(|| guarded(u64::MAX, f)) {
        Ok(ok) => {
            if ok {
                cx.accepted += 1
            } else {
                cx.rejected += 1
            }
            cx.outcome(&ok);
            cx.sample(|| format!("{}: {}", what(), if ok { "accepted" } else { "rejected" }));
        }
        Err(o) => cx.fail(format!("{}: {}", what(), o.show())),
    }
}

/// Parse, and print the error both ways.
macro_rules! fin {
    ($p:expr, $s:expr) => {{
        match $p.parse($s) {
            Ok(_) => true,
            Err(e) => {
                let _ = e.to_string();
                false
            }
        }
    }};
}

macro_rules! long {
    ($cx:expr, $n:expr, $(($name:expr, $p:expr, [$($s:expr),*])),* $(,)?) => {
        $( $( {
            let s: String = $s;
            ends($cx, || format!("{} on a long text ({} bytes, n = {}): {:?}...", $name, s.len(), $n, s.chars().take(12).collect::<String>()), || fin!($p, &s));
        } )* )*
    };
}

/// Patterns made of parts that can match the empty text, in every repetition.
fn nullable_rules(size: usize) -> Vec<P> {
    let bodies = upto(&[Ch('a'), Empty, Rule(0, 0)], &[Op::Star, Op::Plus, Op::Opt], BIN3, size);
    bodies
        .into_iter()
        .filter(|b| b.any(&|g| matches!(g, Rule(..))) && !left_recursive(&[b.clone()]))
        .map(|b| p(Rules(vec![b], p(Star(p(Rule(0, 0)))))))
        .collect()
}
const BIN3: &[Op] = &[Op::Seq, Op::Alt, Op::RepSep];

pub fn p04(t: Tier) -> Parts {
    let n1 = t.pick(5, 6);
    let un = &[Op::Star, Op::Plus, Op::Opt, Op::Str];
    let reg = &[Op::Star, Op::Plus, Op::Opt, Op::Line, Op::Lines, Op::Section, Op::Sections];
    let mut parts = vec![
        whole_fam(|_| true, t.pick(6, 8), What::Total),
        puzzles(|_| true, t.pick(24, 45), What::Total),
        super::comb::pumped(t, What::Total),
        super::comb::pumped_regions(t, What::Total),
        super::comb::deep(t, What::Total),
        fam(
            "patterns that can match nothing",
            format!("all patterns of <= {n1} nodes over empty 'a' \"\" with * + ? string repeat_sep seq alt; all texts over {{a,b}} of length <= {}", t.pick(5, 6)),
            upto(&[Empty, Ch('a'), Lit("")], un, BIN3, n1),
            strings(&["a", "b"], t.pick(5, 6)),
            What::Total,
        ),
        fam(
            "regions that can match nothing",
            format!("all patterns of <= {} nodes over empty 'a' \"\\n\" with * + ? line lines section sections seq alt; all texts over {{a,\\n}} of length <= 5", t.pick(5, 5)),
            upto(&[Empty, Ch('a'), Lit("\n")], reg, &[Op::Seq, Op::Alt], 5),
            strings(&["a", "\n"], t.pick(5, 7)),
            What::Total,
        ),
        fam(
            "separated regions",
            "all patterns of <= 5 nodes over empty 'a' with * line section repeat_sep".into(),
            upto(&[Empty, Ch('a'), G::Cls(Cls::Any)], &[Op::Star, Op::Line, Op::Section], &[Op::RepSep, Op::Seq], t.pick(5, 6)),
            strings(&["a", "\n"], t.pick(5, 6)),
            What::Total,
        ),
        fam(
            "rules that can match nothing",
            "r* where r is a rule whose body (<= 6 nodes over 'a', empty, r) is not left-recursive; texts over {a,b}".into(),
            nullable_rules(t.pick(5, 6)),
            strings(&["a", "b"], t.pick(4, 5)),
            What::Total,
        ),
        fam(
            "multi-byte text",
            "all patterns of <= 5 nodes over \"é\" '😂' any_char alpha char_of u8 f-like pieces; all texts of length <= 4 over {é,😂,a,1,combining acute,\\n}".into(),
            upto(
                &[Lit("é"), Ch('😂'), G::Cls(Cls::Any), CharOf("é😂a"), G::Num(Num::U8), Lit("e\u{301}")],
                &[Op::Star, Op::Opt, Op::Str, Op::Line, Op::Section],
                &[Op::Seq, Op::Alt],
                t.pick(4, 4),
            ),
            strings(&["é", "😂", "a", "1", "\u{301}", "\n"], t.pick(3, 4)),
            What::Total,
        ),
        {
            // regions and strings inside rules, repeated
            let mut v = vec![];
            for g in super::comb::one_rule_pats(t.pick(3, 4)) {
                v.push(p(Star(g.clone())));
                v.push(p(RepSep(g.clone(), p(Opt(p(Ch('b')))))));
                v.push(p(Plus(p(Str(g.clone())))));
                v.push(p(Star(p(Alt(p(Seq(g.clone(), p(Ch('b')))), g)))));
            }
            fam("repeated rule sets", "one-rule sets with bodies of <= 3 nodes, repeated in 4 ways; texts over {a,b}".into(), v, strings(&["a", "b"], 5), What::Total)
        },
    ];
    // every predefined piece on every short nasty text
    let nasty: Vec<&'static str> = vec!["a", "1", "-", "+", ".", "e", "_", "é", "😂", "\u{301}", "\u{660}", "\u{ff11}", "\n", "\r", "\0", "\u{feff}", "i", "t", "\u{10ffff}", "\u{d7ff}"];
    let first: Vec<String> = nasty.iter().map(|s| s.to_string()).chain([String::new()]).collect();
    let tails = strings(&nasty, t.pick(2, 3));
    parts.push(list(
        "every piece on every short text",
        "27 pieces alone, repeated, optional, separated, in line/section/string; all texts of length <= 3 over 20 troublesome characters (digits of other scripts, signs, combining marks, BOM, NUL, the last code points)",
        first,
        move |cx, f| {
            macro_rules! pieces {
                ($($name:ident)*) => { $( {
                    let a = parser!($name);
                    let b = parser!($name*);
                    let c = parser!(lines(repeat_sep($name, ",")));
                    let d = parser!(sections(line($name?)));
                    let e = parser!(string($name) $name?);
                    for t in &tails {
                        let s = format!("{f}{t}");
                        if !cx.case(|| format!("{} and patterns made from it on {s:?}", stringify!($name))) {
                            return;
                        }
                        cx.executions += 5;
                        cx.states += 5;
                        cx.transitions += 5;
                        match guarded(u64::MAX, || fin!(a, &s) as u32 + fin!(b, &s) as u32 + fin!(c, &s) as u32 + fin!(d, &s) as u32 + fin!(e, &s) as u32) {
                            Ok(k) => {
                                cx.accepted += k as u64;
                                cx.rejected += 5 - k as u64;
                                cx.outcome(&k);
                            }
                            Err(o) => {
                                cx.fail(format!("{} and patterns made from it on {s:?}: {}", stringify!($name), o.show()));
                                return;
                            }
                        }
                    }
                } )* };
            }
            pieces!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize
                    u8_bin i8_bin u128_bin i128_bin u8_hex i8_hex u128_hex i128_hex usize_hex isize_bin
                    big_int big_uint big_int_hex big_uint_bin
                    f32 f64 bool alpha alnum upper lower any_char digit digit_bin digit_hex);
        },
    ));
    parts.push(list(
        "any number of elements, small stack",
        "30 repetition patterns over n elements, accepted and rejected, in a thread with 384 KB of stack: every n up to the bound and around powers of two, past 10^5",
        ladder(t.pick(130, 1000), t.pick(1 << 17, 1 << 20)),
        |cx, n| {
            let n = *n;
            let rep = |s: &str| s.repeat(n);
            let sep = |s: &str, x: &str| vec![s; n].join(x);
            long!(
                cx,
                n,
                ("\"a\"*", parser!("a"*), [rep("a"), rep("a") + "b"]),
                ("alpha+", parser!(alpha+), [rep("é"), rep("é") + "1"]),
                ("any_char*", parser!(any_char*), [rep("😂\n")]),
                ("(alpha?)*", parser!((alpha?)*), [rep("a"), rep("a") + "-"]),
                ("any_char* 'z'", parser!(any_char* 'z'), [rep("a") + "z", rep("a"), String::from("z") + &rep("a")]),
                ("string(alpha*)", parser!(string(alpha*)), [rep("a"), rep("a") + "1"]),
                ("string(alpha)*", parser!(string(alpha)*), [rep("a"), rep("a") + "1"]),
                ("{\"ab\", \"a\"}*", parser!({"ab" => 1, "a" => 2}*), [rep("ab"), rep("ab") + "b"]),
                ("{alpha, '1', digit}*", parser!({x:alpha => x, "1" => 'n', d:digit => (d as u8) as char}*), [rep("a1"), rep("2") + "-"]),
                ("(alpha digit)*", parser!((alpha digit)*), [rep("a1"), rep("a1") + "a"]),
                ("(x:alpha => x)*", parser!((x:alpha => (x, x))*), [rep("a")]),
                ("repeat_sep(u8, \",\")", parser!(repeat_sep(u8, ",")), [sep("77", ","), sep("77", ",") + ",", sep("77", ",") + ",300"]),
                ("repeat_sep(alpha*, ';')", parser!(repeat_sep(alpha*, ';')), [sep("ab", ";"), rep(";")]),
                ("repeat_sep(digit, \"\")", parser!(repeat_sep(digit, "")), [rep("1"), rep("1") + "a"]),
                ("repeat_sep(alpha, ',')?", parser!(repeat_sep(alpha, ',')?), [sep("a", ",")]),
                ("(repeat_sep(digit, ',') ';')*", parser!((repeat_sep(digit, ',') ';')*), [rep("1,2;"), sep("1", ",") + ";"]),
                ("lines(u64)", parser!(lines(u64)), [rep("12\n"), sep("12", "\n")]),
                ("lines(any_char*)", parser!(lines(any_char*)), [rep("\n"), rep("é\n")]),
                ("line(digit)*", parser!(line(digit)*), [rep("1\n")]),
                ("line(any_char*)", parser!(line(any_char*)), [rep("é"), rep("é") + "\n"]),
                ("section(line(any_char*)*)", parser!(section(line(any_char+)*)), [rep("é\n"), rep("é\n") + "\n"]),
                ("sections(lines(u64))", parser!(sections(lines(u64))), [rep("1\n2\n\n"), rep("1\n")]),
                ("sections(any_char*)", parser!(sections(any_char*)), [rep("\n"), rep("a\n\n")]),
                ("lines(repeat_sep(u8, ' '))", parser!(lines(repeat_sep(u8, ' '))), [rep("1 2 3\n"), sep("1", " ")]),
                ("hash_set(alpha*)", parser!(hash_set(alpha*)), [rep("ab")]),
                ("btree_set(repeat_sep(u32, ','))", parser!(btree_set(repeat_sep(u32, ','))), [sep("12", ",")]),
                ("vec_deque(any_char*)", parser!(vec_deque(any_char*)), [rep("ab")]),
                ("hash_map((alpha digit)*)", parser!(hash_map((alpha digit)*)), [rep("a1b2")]),
                ("btree_map(lines(alpha '=' u8))", parser!(btree_map(lines(alpha '=' u8))), [rep("a=1\nb=2\n")]),
                ("rule r: char = alpha; r*", parser!(rule r: char = alpha; r*), [rep("a"), rep("a") + "1"]),
                ("rule r: usize = v:repeat_sep(alpha, ',') => ..; r", parser!(rule r: usize = v:repeat_sep(alpha, ',') => v.len(); lines(r)), [sep("a", ","), sep("a", "\n")]),
                ("rule r: usize = lines(alpha*)", parser!(rule r: usize = v:lines(alpha*) => v.len(); r), [rep("ab\n")]),
                ("char_of(\"abc\")*", parser!(char_of("abc")*), [rep("cba"), rep("c") + "d"]),
            );
            // rejected far in: copying the furthest failure is linear in the text
            let m = n.min(3000);
            let rep = |s: &str| s.repeat(m);
            long!(
                cx,
                m,
                ("lines(u64) failing on the last line", parser!(lines(u64)), [rep("12\n") + "x"]),
                ("lines({u64, alpha}) ", parser!(lines({x:u64 => x, alpha => 0})), [rep("a\n") + "-"]),
                ("sections(lines(u64)) failing in the last", parser!(sections(lines(u64))), [rep("1\n2\n\n") + "x"]),
                ("alpha* alpha* '1'", parser!(alpha* alpha* '1'), ["a".repeat(m.min(600))]),
                ("sections({lines(u64), lines(alpha)})", parser!(sections({x:lines(u64) => x.len(), y:lines(alpha) => y.len()})), [rep("1\n2\n\na\n\n")]),
            );
        },
    ));
    parts.push(list(
        "long numerals, small stack",
        "every number piece on numerals of n digits, with leading zeros, and cut short by something else",
        ladder(t.pick(200, 1000), t.pick(1 << 13, 1 << 16)),
        |cx, n| {
            let n = *n;
            macro_rules! nums {
                ($($name:ident)*) => { $( {
                    let q = parser!($name);
                    let l = parser!(lines($name));
                    for s in ["0".repeat(n), "1".repeat(n), format!("-{}", "1".repeat(n)), "1".repeat(n) + "x", "f".repeat(n) + "\n7", format!("{}.{}e{}", "1".repeat(n), "2".repeat(n), "3".repeat(n)), "9".repeat(n) + "é"] {
                        ends(cx, || format!("{} on a text of {} bytes: {:?}...", stringify!($name), s.len(), s.chars().take(9).collect::<String>()), || fin!(q, &s) | fin!(l, &s));
                    }
                } )* };
            }
            nums!(u8 i8 u16 i32 u64 i64 u128 i128 usize isize u8_bin i128_bin u32_hex i64_hex u128_hex big_int big_uint big_int_bin big_uint_hex f32 f64 bool digit);
        },
    ));
    (parts, vec!["recursion through rules may use stack in proportion to the nesting of the text"])
}
