//! P16 (rule sets) and P17: histories. Every sequence of operations on
//! parsers (create, move, combine, drop, parse, parse during a conversion, ...)
//! up to a length, every live parser being tried after every step; and every
//! schedule of two parses in progress at the same time.
use super::*;
use aoc_parse::{parser, prelude::*};

// ---- rule-set histories

type Out_ = String;

/// Three rule sets of one Rust type whose languages and values differ.
fn set(kind: usize) -> impl Parser<Output = Out_> {
    match kind {
        0 => parser!(rule r: String = { "a" x:r => format!("({x})"), "b" => "0".to_string() }; r),
        1 => parser!(
            rule r: String = { "a" x:s => format!("<{x}>"), "b" => "1".to_string() };
            rule s: String = { "a" x:r => format!("[{x}]"), "b" => "2".to_string() };
            r),
        _ => parser!(
            rule s: String = { "b" => "3".to_string(), x:lines(r) => format!("{x:?}") };
            rule r: String = { "a" x:r => format!("a{x}"), "b" => "4".to_string() };
            line(s)),
    }
}
const TEXTS: &[&str] = &["b", "ab", "aab", "aaab", "", "a", "ba", "ab\n", "aab\nb"];
fn expect(kind: usize, s: &str) -> Option<String> {
    let n = s.len().wrapping_sub(1);
    let plain = !s.is_empty() && s.ends_with('b') && s[..n].bytes().all(|c| c == b'a');
    match kind {
        0 if plain => Some("(".repeat(n) + "0" + &")".repeat(n)),
        1 if plain => {
            let mut o = String::new();
            for i in 0..n {
                o.push(if i % 2 == 0 { '<' } else { '[' });
            }
            o.push(if n % 2 == 0 { '1' } else { '2' });
            for i in (0..n).rev() {
                o.push(if i % 2 == 0 { '>' } else { ']' });
            }
            Some(o)
        }
        2 => {
            // one line: a*b, as rule s sees it
            let l = s.strip_suffix('\n').unwrap_or(s);
            if l.contains('\n') || s.is_empty() {
                return None;
            }
            if l == "b" {
                return Some("3".into());
            }
            if l.is_empty() {
                return Some("[]".into());
            }
            let n = l.len() - 1;
            (l.ends_with('b') && l[..n].bytes().all(|c| c == b'a')).then(|| format!("{:?}", vec!["a".repeat(n) + "4"]))
        }
        _ => None,
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum ROp {
    /// build set `.0` into slot `.1`
    New(usize, usize),
    /// move the parser to the other slot (dropping what was there)
    Move(usize),
    /// swap the slots
    Swap,
    /// move into a new box and back out
    Rebox(usize),
    /// through a vector that grows
    Grow(usize),
    Drop(usize),
    /// use both, in one pattern, moved in and given up afterwards
    Both,
    /// parse with slot `.0` inside a conversion of the other's parse
    Inside(usize),
}

fn rops() -> Vec<ROp> {
    let mut v = vec![];
    for s in 0..2 {
        for k in 0..3 {
            v.push(ROp::New(k, s));
        }
        v.push(ROp::Move(s));
        v.push(ROp::Rebox(s));
        v.push(ROp::Grow(s));
        v.push(ROp::Drop(s));
        v.push(ROp::Inside(s));
    }
    v.push(ROp::Swap);
    v.push(ROp::Both);
    v
}

struct Live<P> {
    kind: usize,
    par: P,
}

fn try_all<P: Parser<Output = String>>(l: &Live<P>, count: &mut u64) -> Result<(), String> {
    for s in TEXTS {
        *count += 1;
        let got = l.par.parse(s);
        let want = expect(l.kind, s);
        if got.as_ref().ok() != want.as_ref() {
            return Err(format!("rule set {} on {s:?}: expected {want:?}, got {got:?}", l.kind));
        }
    }
    Ok(())
}

/// Runs a history; the parser type is whatever `set` returns.
fn history(ops: &[ROp], count: &mut u64) -> Result<(), String> {
    fn go<P: Parser<Output = String> + 'static>(mk: fn(usize) -> P, ops: &[ROp], count: &mut u64) -> Result<(), String> {
        let mut slots: [Option<Live<P>>; 2] = [None, None];
        for op in ops {
            match *op {
                ROp::New(k, s) => slots[s] = Some(Live { kind: k, par: mk(k) }),
                ROp::Move(s) => {
                    let x = slots[s].take();
                    slots[1 - s] = x;
                }
                ROp::Swap => slots.swap(0, 1),
                ROp::Rebox(s) => {
                    if let Some(x) = slots[s].take() {
                        let b = Box::new(x);
                        try_all(&b, count)?;
                        slots[s] = Some(*b);
                    }
                }
                ROp::Grow(s) => {
                    if let Some(x) = slots[s].take() {
                        let mut v = Vec::with_capacity(1);
                        v.push(x);
                        try_all(&v[0], count)?;
                        for k in 0..3 {
                            v.push(Live { kind: k, par: mk(k) });
                        }
                        for y in &v {
                            try_all(y, count)?;
                        }
                        slots[s] = Some(v.swap_remove(0));
                    }
                }
                ROp::Drop(s) => slots[s] = None,
                ROp::Both => {
                    if let [Some(_), Some(_)] = slots {
                        let (x, y) = (slots[0].take().unwrap(), slots[1].take().unwrap());
                        let (i, j) = (x.kind, y.kind);
                        let (a, b) = (x.par, y.par);
                        let q = parser!(u:a ";" v:b => format!("{u} {v}"));
                        for s in ["b", "ab", "aab"] {
                            for r in ["b", "ab", "aab", ""] {
                                *count += 1;
                                let text = format!("{s};{r}");
                                // a line can start neither after ";" nor go on to it
                                let want = if i == 2 || j == 2 {
                                    None
                                } else {
                                    expect(i, s).zip(expect(j, r)).map(|(u, v)| format!("{u} {v}"))
                                };
                                let got = q.parse(&text);
                                if got.as_ref().ok() != want.as_ref() {
                                    return Err(format!("rule sets {i} \";\" {j} on {text:?}: expected {want:?}, got {got:?}"));
                                }
                            }
                        }
                    }
                }
                ROp::Inside(s) => {
                    if let [Some(x), Some(y)] = &slots {
                        let (o, i) = if s == 0 { (y, x) } else { (x, y) };
                        let (op, ip) = (&o.par, &i.par);
                        let q = parser!(v:op => (v, ip.parse("aab").ok(), ip.parse("a").ok()));
                        for s in TEXTS {
                            *count += 1;
                            let want = expect(o.kind, s).map(|v| (v, expect(i.kind, "aab"), expect(i.kind, "a")));
                            let got = q.parse(s).ok();
                            if got != want {
                                return Err(format!("rule set {} on {s:?}, set {} being parsed with in its conversion: expected {want:?}, got {got:?}", o.kind, i.kind));
                            }
                        }
                    }
                }
            }
            for l in slots.iter().flatten() {
                try_all(l, count)?;
            }
        }
        Ok(())
    }
    go(set, ops, count)
}

pub fn rule_histories(t: Tier) -> Part {
    let ops = rops();
    let n = ops.len();
    let depth = t.pick(5, 6);
    // a unit: the first two operations
    let heads: Vec<(ROp, ROp)> = ops.iter().flat_map(|a| ops.iter().map(move |b| (*a, *b))).collect();
    list(
        "histories of rule sets",
        &format!("every sequence of {depth} operations out of {n} (build one of 3 sets in one of 2 places, move, swap, re-box, grow a vector, drop, use both in one pattern, parse inside a conversion); every live parser tried on {} texts after every operation", TEXTS.len()),
        heads,
        move |cx, (a, b)| {
            if !matches!(a, ROp::New(..)) {
                // nothing to move or drop yet
                return;
            }
            let mut seqs: Vec<Vec<ROp>> = vec![vec![*a, *b]];
            for _ in 2..depth {
                seqs = seqs.into_iter().flat_map(|s| ops.iter().map(move |o| { let mut s = s.clone(); s.push(*o); s })).collect();
            }
            for s in seqs {
                if !cx.case(|| format!("history {s:?}")) {
                    return;
                }
                let mut count = 0;
                match guarded(u64::MAX, || history(&s, &mut count)) {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => cx.fail(format!("after the operations {s:?}: {e}")),
                    Err(o) => cx.fail(format!("after the operations {s:?}: {}", o.show())),
                }
                cx.executions += count;
                cx.states += s.len() as u64;
                cx.transitions += s.len() as u64;
                cx.accepted += 1;
                cx.sample(|| format!("history {s:?}: {count} parses as expected"));
            }
        },
    )
}
