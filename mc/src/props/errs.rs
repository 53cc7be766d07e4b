//! P05 (reports by user-written parsers, leaf failures) and P06 (the error
//! value itself).
use super::comb::*;
use super::*;

use crate::model;

use aoc_parse::{parser, prelude::*, ParseContext, ParseIter, Reported};
use G::{Ch, Lit};

/// A report a user-written parser can make through the public interface.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rep {
    Expected(usize, &'static str),
    Extra(usize),
    FromStr(usize, usize),
    /// An error made by another parse, moved here and handed to `report`.
    Made(usize),
}
impl Rep {
    fn make(self, cx: &mut ParseContext) -> Reported {
        match self {
            Rep::Expected(l, s) => cx.error_expected(l, s),
            Rep::Extra(l) => cx.error_extra(l),
            Rep::FromStr(a, b) => cx.error_from_str_failed(a, b, "ty", format!("why{a}{b}")),
            Rep::Made(l) => {
                let mut e = parser!(lower*).parse("Q").unwrap_err();
                e.source = cx.source().to_string();
                e.location = l;
                cx.report(e)
            }
        }
    }
    fn loc(self) -> usize {
        match self {
            Rep::Expected(l, _) | Rep::Extra(l) | Rep::FromStr(l, _) | Rep::Made(l) => l,
        }
    }
    /// As it comes out of a region that starts at `by`.
    fn shifted(self, by: usize) -> Rep {
        match self {
            Rep::Expected(l, s) => Rep::Expected(l + by, s),
            Rep::Extra(l) => Rep::Extra(l + by),
            Rep::FromStr(a, b) => Rep::FromStr(a + by, b + by),
            Rep::Made(l) => Rep::Made(l + by),
        }
    }
    fn text(self, src: &str) -> String {
        self.text_from(src, 0)
    }
    /// The text of a report made in a region that starts at `by`, by its place
    /// in the whole.
    fn text_from(self, src: &str, by: usize) -> String {
        let m = match self {
            Rep::Made(_) => "expected lowercase letter".into(),
            Rep::Expected(_, s) => format!("expected {s}"),
            Rep::Extra(_) => "extra unparsed text after match".into(),
            Rep::FromStr(a, b) => format!("failed to parse {:?} as type ty: why{}{}", &src[a..b], a - by, b - by),
        };
        format!("{m} {}", model::place(src, self.loc()))
    }
}
fn furthest(rs: &[Rep]) -> Option<Rep> {
    let mut best: Option<Rep> = None;
    for r in rs {
        if best.map_or(true, |b| r.loc() > b.loc()) {
            best = Some(*r);
        }
    }
    best
}

/// A user-written parser: reports these and fails, or matches nothing.
struct Reporter(Vec<Rep>, bool);
struct Nothing(usize);
impl Parser for Reporter {
    type Output = ();
    type RawOutput = ();
    type Iter<'p> = Nothing;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Result<Nothing, Reported> {
        for r in &self.0 {
            r.make(cx);
        }
        if self.1 {
            Ok(Nothing(start))
        } else {
            Err(Reported)
        }
    }
}
impl<'p> ParseIter<'p> for Nothing {
    type RawOutput = ();
    fn match_end(&self) -> usize {
        self.0
    }
    fn backtrack(&mut self, _: &mut ParseContext<'p>) -> Result<(), Reported> {
        Err(Reported)
    }
    fn convert(&self) {}
}

fn alphabet(src: &str) -> Vec<Rep> {
    let ls: Vec<usize> = (0..=src.len()).filter(|i| src.is_char_boundary(*i)).collect();
    let mut v = vec![];
    for (i, l) in ls.iter().enumerate() {
        v.push(Rep::Expected(*l, "x"));
        v.push(Rep::Expected(*l, "y"));
        v.push(Rep::Extra(*l));
        v.push(Rep::FromStr(*l, *ls.get(i + 1).unwrap_or(l)));
        v.push(Rep::Made(*l));
    }
    v
}

pub fn reports(t: Tier) -> Part {
    let src = "aé\nb";
    let al = alphabet(src);
    let n = t.pick(4usize, 5);
    let k = al.len();
    list(
        "report sequences",
        &format!("every sequence of 1 to {n} of {k} reports (every position of a multi-byte text; expected/extra/conversion failures, errors of other parses handed on) to a context, taken back directly and as the error of a failed parse by a user-written parser"),
        (0..k * k).collect(),
        move |cx, u| {
            let mut seqs: Vec<Vec<Rep>> = vec![vec![al[u / k], al[u % k]]];
            if u % k == 0 {
                seqs.push(vec![al[u / k]]);
            }
            let mut last = vec![seqs[0].clone()];
            for _ in 2..n {
                let mut next = vec![];
                for s in &last {
                    for r in &al {
                        let mut s = s.clone();
                        s.push(*r);
                        next.push(s);
                    }
                }
                seqs.extend(next.iter().cloned());
                last = next;
            }
            for rs in seqs {
                if !cx.case(|| format!("reports {rs:?} on {src:?}")) {
                    return;
                }
                cx.executions += 2;
                cx.states += rs.len() as u64;
                cx.transitions += rs.len() as u64;
                let want = furthest(&rs).unwrap();
                let w = (want.loc(), want.text(src));
                let got = guarded(1 << 40, || {
                    let mut c = ParseContext::new(src);
                    for r in &rs {
                        r.make(&mut c);
                    }
                    let e = c.into_reported_error();
                    let f = Reporter(rs.clone(), false);
                    let e2 = parser!(f).parse(src).unwrap_err();
                    ((e.location, e.to_string()), (e2.location, e2.to_string()))
                });
                match got {
                    Ok((a, b)) if a == w && b == w => {
                        cx.rejected += 1;
                        cx.sample(|| format!("reports {rs:?} -> {w:?}"));
                    }
                    Ok((a, b)) => cx.fail(format!("reports {rs:?} on {src:?}:\n  expected {w:?}\n  got      {a:?} (context), {b:?} (parse)")),
                    Err(o) => cx.fail(format!("reports {rs:?} on {src:?}: {}", o.show())),
                }
            }
        },
    )
}

/// A reporter before, after, in arms and in repetitions of ordinary pieces and
/// inside lines and sections: the report counts with the other failures.
pub fn reports_in_patterns(t: Tier) -> Part {
    let srcs = ["ab", "ab\ncd", "é\n\nz", "a\nb\n\n"];
    let mut units = vec![];
    for (si, s) in srcs.iter().enumerate() {
        for r in alphabet(s) {
            for ok in [false, true] {
                units.push((si, r, ok));
            }
        }
    }
    let _ = t;
    list(
        "reports inside patterns",
        "one report at every position of four texts by a user-written parser that then fails or matches, used in 9 patterns of ordinary pieces with a second report at every position",
        units,
        move |cx, (si, r1, ok)| {
            let src = srcs[*si];
            for r2 in alphabet(src) {
                // order of reports is the order in which the pieces are tried
                let both = [*r1, r2];
                let mk = || (Reporter(vec![*r1], *ok), Reporter(vec![r2], false));
                let mut go = |name: &str, want: Option<Rep>, f: &dyn Fn() -> Result<(), aoc_parse::ParseError>| {
                    if !cx.case(|| format!("{name} with {r1:?} ({}) and {r2:?} on {src:?}", if *ok { "matching" } else { "failing" })) {
                        return;
                    }
                    cx.executions += 1;
                    cx.states += 2;
                    cx.transitions += 2;
                    let want = want.map(|w| (w.loc(), w.text(src)));
                    let got = guarded(1 << 40, || f().err().map(|e| (e.location, e.to_string())));
                    match got {
                        Ok(g) if g == want => cx.rejected += 1,
                        Ok(g) => cx.fail(format!("{name} with {r1:?} (then {}) and {r2:?} on {src:?}:\n  expected {want:?}\n  got      {g:?}", if *ok { "matching" } else { "failing" })),
                        Err(o) => cx.fail(format!("{name}: {}", o.show())),
                    }
                };
                let first_only = [*r1];
                let seq: &[Rep] = if *ok { &both } else { &first_only };
                go("a b", furthest(seq), &|| {
                    let (a, b) = mk();
                    parser!(a b).parse(src).map(|_| ())
                });
                go("{a b, b}", furthest(&both), &|| {
                    let (a, b) = mk();
                    let b = &b;
                    parser!({(a b), b}).parse(src).map(|_| ())
                });
                // string(a) b
                go("string(a) b", furthest(seq), &|| {
                    let (a, b) = mk();
                    parser!(string(a) b).parse(src).map(|_| ())
                });
                // a? b: both are tried whatever a does
                go("a? b", furthest(&both), &|| {
                    let (a, b) = mk();
                    parser!(a? b).parse(src).map(|_| ())
                });
                go("a* b", furthest(&both), &|| {
                    let (a, b) = mk();
                    parser!(a* b).parse(src).map(|_| ())
                });
                go("repeat_sep(a, b) b", furthest(&both), &|| {
                    let (a, b) = mk();
                    let b = &b;
                    parser!(repeat_sep(a, b) b).parse(src).map(|_| ())
                });
            }
        },
    )
}

/// Reports made inside lines and sections that do not match.
pub fn reports_in_regions(_t: Tier) -> Part {
    // text, where the region starts, where what it holds ends
    let places = [("ab", 0usize, 2usize), ("ab\ncd\n", 3, 5), ("é\nzé", 3, 6), ("é\n\nb\n\nc", 4, 6), ("\n\na\nb", 2, 5), ("\n\nx\n", 2, 4)];
    let mut units = vec![];
    for (k, (s, a, b)) in places.iter().enumerate() {
        for r in alphabet(&s[*a..*b]) {
            units.push((k, r));
        }
    }
    list(
        "reports inside regions",
        "two reports at every position of a line or section, and one outside, by users' parsers that fail, in 6 patterns of lines and sections",
        units,
        move |cx, (k, r1)| {
            let (src, a, b) = places[*k];
            let one_line = !src[a..b].contains('\n') && (b == src.len() || src[b..].starts_with('\n'));
            let sect = a == 0 || src[..a].ends_with("\n\n");
            for r2 in alphabet(&src[a..b]) {
                for r3 in alphabet(src).into_iter().filter(|r| r.loc() >= a) {
                    let within = furthest(&[*r1, r2]).unwrap();
                    // (each with where its region starts)
                    let pick = |v: &[(Rep, usize)]| {
                        let mut best: Option<(Rep, usize)> = None;
                        for (r, by) in v {
                            if best.map_or(true, |(x, _)| r.loc() > x.loc()) {
                                best = Some((*r, *by));
                            }
                        }
                        let (r, by) = best.unwrap();
                        (r.loc(), r.text_from(src, by))
                    };
                    let (inn, out) = ((within.shifted(a), a), (r3, 0));
                    let mut go = |name: &str, want: (usize, String), f: &dyn Fn(&str, &'static Reporter, &'static Reporter) -> Option<aoc_parse::ParseError>| {
                        if !cx.case(|| format!("{name}, with {r1:?} and {r2:?} in the region at {a}..{b} and {r3:?} outside, on {src:?}")) {
                            return;
                        }
                        cx.executions += 1;
                        cx.states += 3;
                        cx.transitions += 3;
                        let (x, y) = (Box::into_raw(Box::new(Reporter(vec![*r1, r2], false))), Box::into_raw(Box::new(Reporter(vec![r3], false))));
                        let got = guarded(1 << 40, || f(src, unsafe { &*x }, unsafe { &*y }).map(|e| (e.location, e.to_string(), e.source == src)));
                        unsafe { drop((Box::from_raw(x), Box::from_raw(y))) };
                        match got {
                            Ok(Some((l, t, true))) if (l, t.clone()) == want => cx.rejected += 1,
                            Ok(g) => cx.fail(format!("{name}, with {r1:?} and {r2:?} in the region at {a}..{b} and {r3:?} outside, on {src:?}:\n  expected {want:?}\n  got      {g:?}")),
                            Err(o) => cx.fail(format!("{name}: {}", o.show())),
                        }
                    };
                    macro_rules! at { ($name:literal, $want:expr, |$x:ident, $y:ident| $p:expr) => {
                        go($name, $want, &|s, $x, $y| {
                            let mut c = ParseContext::new(s);
                            let p = $p;
                            let failed = p.parse_iter(&mut c, a).is_err();
                            failed.then(|| c.into_reported_error())
                        })
                    } }
                    if one_line {
                        at!("line(x)", pick(&[inn]), |x, _y| parser!(line(x)));
                        at!("{line(x), y}", pick(&[inn, out]), |x, y| parser!({line(x), y}));
                        at!("{y, line(x)}", pick(&[out, inn]), |x, y| parser!({y, line(x)}));
                        at!("line(x)* y", pick(&[inn, out]), |x, y| parser!(line(x)* y));
                    }
                    if sect {
                        at!("section(x)", pick(&[inn]), |x, _y| parser!(section(x)));
                        at!("{section(x), y}", pick(&[inn, out]), |x, y| parser!({section(x), y}));
                        at!("{y, section(x)}", pick(&[out, inn]), |x, y| parser!({y, section(x)}));
                    }
                }
            }
        },
    )
}

/// Failures of every kind of leaf at every position reached by a prefix.
pub fn leaf_failures(t: Tier) -> Part {
    let ints = super::leaf::int_pieces();
    let mut texts = strings(&["1", "-", "x", "é", "\n"], t.pick(4, 5));
    for d in [3usize, 4, 6, 11, 21, 40] {
        for pre in ["", "x", "é\n"] {
            texts.push(format!("{pre}{}", "9".repeat(d)));
            texts.push(format!("{pre}-{}x", "9".repeat(d)));
        }
    }
    list(
        "failures of number pieces",
        "42 integer pieces at every character boundary of every short text and of long numerals: position, text and type named",
        ints,
        move |cx, pc| {
            for s in &texts {
                for at in (0..=s.len()).filter(|i| s.is_char_boundary(*i)) {
                    super::leaf::leaf_check(
                        cx,
                        &super::leaf::LeafCase { name: pc.name, text: s, at },
                        || super::leaf::int_want(pc, s, at),
                        || ((pc.at)(s, at), None),
                    );
                }
            }
        },
    )
}

// ---- P06

/// Everything an error says about itself, against `loc` and the text.
fn error_check(cx: &mut Ctx, what: &dyn Fn() -> String, src: &str, e: &aoc_parse::ParseError) {
    let shown = e.to_string();
    let dbg = format!("{e:?}");
    let alt = format!("{e:#?}");
    let mut bad = |m: String| cx.fail(format!("{}: {m}", what()));
    if e.source != src {
        return bad(format!("error carries source {:?} instead of {src:?}", clip(&e.source)));
    }
    if e.location > src.len() || !src.is_char_boundary(e.location) {
        return bad(format!("error location {} is not a character boundary", e.location));
    }
    let place = model::place(src, e.location);
    if !shown.ends_with(&format!(" {place}")) {
        return bad(format!("printed as {shown:?}, but byte {} is {place:?}", e.location));
    }
    if (shown.matches("at end of input").count() > 0) != (e.location == src.len()) {
        return bad(format!("printed as {shown:?}, location {} of {}", e.location, src.len()));
    }
    for d in [&dbg, &alt] {
        if !d.contains(&format!("{shown:?}")) && !d.contains(&shown) {
            return bad(format!("debug form {:?} lacks the summary {shown:?}", clip(d)));
        }
    }
    let c = e.clone();
    if c.to_string() != shown || c.location != e.location || c.source != e.source {
        return bad("a clone of the error differs".into());
    }
    let dy: &dyn std::error::Error = e;
    if dy.to_string() != shown {
        bad("printed differently as a dyn Error".into());
    }
}
fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

fn p06_fam(name: &str, bounds: String, pats: Vec<P>, inputs: Vec<String>) -> Part {
    fam_with(name, bounds, pats, inputs, |cx, g, b, s| {
        if let Some(Out::Err(e)) = compare(cx, g, b, s, What::Total) {
            if cx.viol.is_none() {
                error_check(cx, &|| format!("parser!({}) on {s:?}", g.src()), s, &e);
            }
        }
    })
}

/// fails exactly at one byte
struct FailAt(usize);
impl Parser for FailAt {
    type Output = ();
    type RawOutput = ();
    type Iter<'p> = Nothing;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, _start: usize) -> Result<Nothing, Reported> {
        Err(cx.error_expected(self.0, "q"))
    }
}
fn place_check(cx: &mut Ctx, name: &dyn Fn() -> String, src: &str, loc: usize, e: Result<Option<aoc_parse::ParseError>, Out>) {
    cx.executions += 1;
    cx.states += 1;
    cx.transitions += 1;
    match e {
        Ok(Some(e)) => {
            cx.rejected += 1;
            if e.location != loc {
                return cx.fail(format!("{}: failure at byte {} instead of {loc}", name(), e.location));
            }
            error_check(cx, name, src, &e);
            cx.outcome(&e.to_string());
            cx.sample(|| format!("{}: {e}", name()));
        }
        Ok(None) => cx.fail(format!("{}: accepted", name())),
        Err(o) => cx.fail(format!("{}: {}", name(), o.show())),
    }
}

pub fn p06(t: Tier) -> Parts {
    let al = ["a", "\n", "é", "字", "😂", "\r", "\u{301}", "\u{2028}", "\0", "\t"];
    let n = t.pick(5, 6);
    let texts = strings(&al, n);
    let mut parts = vec![
        list(
            "every position of every text",
            &format!("all texts of length <= {n} over {{a,\\n,é,字,😂,\\r,combining acute,U+2028,NUL,tab}} x every character boundary, failure there by a user-written parser"),
            texts.chunks(500).map(|c| c.to_vec()).collect(),
            |cx, ts| {
                for s in ts {
                    for loc in (0..=s.len()).filter(|i| s.is_char_boundary(*i)) {
                        let name = || format!("failure at byte {loc} of {s:?}");
                        if !cx.case(name) {
                            return;
                        }
                        let e = guarded(1 << 40, || FailAt(loc).parse(s).err());
                        place_check(cx, &name, s, loc, e);
                    }
                }
            },
        ),
        list(
            "failure in nested lines and sections",
            &format!("texts of length <= {} over {{a,\\n,é,😂}} x every character boundary: any text up to there, then a piece that fails, inside nothing / line / section / section of lines / line in lines, reached through prefixes", t.pick(6, 7)),
            strings(&["a", "\n", "é", "😂"], t.pick(6, 7)).chunks(200).map(|c| c.to_vec()).collect(),
            |cx, ts| {
                let anyl = parser!(lines(any_char*));
                let anys = parser!(sections(any_char*));
                for s in ts {
                    let k = s.chars().count();
                    for i in 0..=k {
                        // the piece '\u{1}' never matches: furthest failure is at the
                        // furthest position it is tried at
                        let pre: String = s.chars().take(i).collect();
                        let loc = pre.len();
                        let pre: &str = &pre;
                        let name = |w: &str| format!("{w}, prefix {pre:?}, on {s:?}");
                        let mut go = |w: &'static str, f: &dyn Fn() -> Option<aoc_parse::ParseError>| {
                            if cx.case(|| name(w)) {
                                let e = guarded(1 << 40, f);
                                place_check(cx, &|| name(w), s, loc, e);
                            }
                        };
                        go("prefix '\\u{1}'", &|| parser!(pre '\u{1}').parse(s).err());
                        // position within the last line / last section of the prefix
                        let l0 = pre.rfind('\n').map_or(0, |x| x + 1);
                        let (before, inl) = pre.split_at(l0);
                        if loc < s.len() || l0 < loc {
                            go("lines line(prefix '\\u{1}')", &|| parser!(before line(inl '\u{1}')).parse(s).err());
                        }
                        let s0 = pre.match_indices("\n\n").last().map_or(0, |(x, _)| x + 2);
                        let (before, ins) = pre.split_at(s0);
                        if (loc < s.len() || s0 < loc) && !ins.starts_with('\n') && !(s[s0..].starts_with('\n') ) && !before.ends_with("\n\n\n") {
                            go("text section(prefix '\\u{1}')", &|| parser!(before section(ins '\u{1}')).parse(s).err());
                            let l1 = ins.rfind('\n').map_or(0, |x| x + 1);
                            let (mid, inl) = ins.split_at(l1);
                            // the line must not be empty and be inside the section
                            let rest = &s[s0 + l1..];
                            if !rest.is_empty() && !rest.starts_with('\n') {
                                go("text section(lines line(prefix '\\u{1}'))", &|| parser!(before section(mid line(inl '\u{1}'))).parse(s).err());
                            }
                        }
                        let _ = (&anyl, &anys);
                    }
                }
            },
        ),
        puzzles_with(|_| true, t.pick(24, 45), |cx, g, b, s| {
            if let Some(Out::Err(e)) = compare_as(cx, g, b, s, What::Total, true) {
                if cx.viol.is_none() {
                    error_check(cx, &|| format!("parser!({}) on {s:?}", g.src()), s, &e);
                }
            }
        }),
        whole_with(|_| true, t.pick(5, 7), |cx, g, b, s| {
            if let Some(Out::Err(e)) = compare_as(cx, g, b, s, What::Total, true) {
                if cx.viol.is_none() {
                    error_check(cx, &|| format!("parser!({}) on {s:?}", g.src()), s, &e);
                }
            }
        }),
        p06_fam(
            "failing patterns",
            "all patterns of <= 5 nodes over 'a' newline any_char empty with line lines section sections; all texts over {a,\\n} of length <= 5".into(),
            region_pats(t.pick(4, 5)),
            strings(&["a", "\n"], t.pick(6, 6)),
        ),
        p06_fam(
            "failing patterns over multi-byte text",
            "all patterns of <= 4 nodes; all texts over {é,😂,a,\\n} of length <= 4".into(),
            upto(
                &[Lit("é"), Ch('😂'), G::Cls(Cls::Alpha), G::Num(Num::U8)],
                &[Op::Star, Op::Str, Op::Line, Op::Section, Op::Lines],
                &[Op::Seq, Op::Alt],
                t.pick(4, 5),
            ),
            strings(&["é", "😂", "1", "\n"], t.pick(4, 4)),
        ),
        list(
            "long texts",
            "n characters before the failure on its line, n lines before it, n characters after it; one- to four-byte characters; every n up to the bound and around powers of two (past 2^16)",
            ladder(t.pick(300, 1000), t.pick(1 << 17, 1 << 20)),
            |cx, n| {
                let n = *n;
                for c in ['x', 'é', '字', '😂', '\n', '\r'] {
                    let run: String = std::iter::repeat(c).take(n).collect();
                    let cases = [
                        (format!("{run}!"), run.len()),
                        (run.clone(), run.len()),
                        (format!("a\nb{run}!\nzz"), run.len() + 3),
                        (format!("é!{run}"), 2),
                        (format!("{run}\né!\n"), run.len() + 3),
                    ];
                    for (s, loc) in cases {
                        let name = || format!("failure at byte {loc} of a text with {n} times {c:?} ({} bytes)", s.len());
                        if !cx.case(name) {
                            return;
                        }
                        let e = guarded(1 << 40, || {
                            let f = FailAt(loc);
                            parser!(f).parse(&s).err()
                        });
                        place_check(cx, &name, &s, loc, e);
                    }
                    if c != '\n' && n > 0 {
                        // through real lines
                        let s = format!("{run}\n{run}!\nb\n");
                        let loc = 2 * run.len() + 1;
                        let name = || format!("lines({c:?}*) on two lines of {n}, failure in the second");
                        if !cx.case(name) {
                            return;
                        }
                        let e = guarded(1 << 40, || parser!(lines(c*)).parse(&s).err());
                        place_check(cx, &name, &s, loc, e);
                        let s = format!("{}{run}!", "b\n".repeat(n.min(3000)));
                        let loc = s.len() - 1;
                        let name = || format!("lines({{'b', c+}}) on {} lines, failure in the last", n.min(3000));
                        if !cx.case(name) {
                            return;
                        }
                        let e = guarded(1 << 40, || parser!(lines({string('b'), string(c+)})).parse(&s).err());
                        place_check(cx, &name, &s, loc, e);
                    }
                }
            },
        ),
    ];
    parts.push(list(
        "leading characters that could be special",
        "every Unicode scalar before a failure, on the same line and on an earlier line",
        (0..0x110u32).collect(),
        |cx, c0| {
            for c in c0 * 0x1000..(c0 + 1) * 0x1000 {
                let Some(ch) = char::from_u32(c) else { continue };
                for s in [format!("{ch}!"), format!("{ch}\na!")] {
                    let loc = s.len() - 1;
                    let name = || format!("failure at byte {loc} of {s:?}");
                    if !cx.case(name) {
                        return;
                    }
                    let e = guarded(1 << 40, || FailAt(loc).parse(&s).err());
                    place_check(cx, &name, &s, loc, e);
                }
            }
        },
    ));
    (parts, vec![])
}
