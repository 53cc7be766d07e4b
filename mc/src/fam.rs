//! Pattern families: (every pattern of a finite set) x (every input of a
//! finite set), each compared with the reference model.
use crate::dynp::{self, Bx};
use crate::gram::*;
use crate::model;
use crate::run::*;
use std::sync::Arc;

/// What a family compares.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum What {
    /// accepted or not
    Accept,
    /// the value of every accepted input
    Value,
    /// position and description of every failure
    Error,
    /// accepted or not, and the value
    AcceptValue,
    /// everything
    All,
    /// only: finished, without panic
    Total,
}

pub fn compare(cx: &mut Ctx, g: &P, b: &Bx, s: &str, what: What) -> Option<Out> {
    compare_as(cx, g, b, s, what, false)
}
/// `whole`: the parser was written out whole, not built from erased parts.
pub fn compare_as(cx: &mut Ctx, g: &P, b: &Bx, s: &str, what: What, whole: bool) -> Option<Out> {
    if !cx.case(|| format!("parser!({}) on {s:?}", g.src())) {
        return None;
    }
    let m = model::parse_as(g, s, whole);
    if m.capped {
        cx.skipped += 1;
        return None;
    }
    dynp::MATCHES.with(|s| s.set(0));
    let _ = take_log();
    if whole {
        // through the parser's own parse first
        let out = real_whole(b, s, budget_for(m.steps));
        cx.executions += 1;
        judge(cx, g, s, what, &m, &out);
        if cx.viol.is_some() {
            return None;
        }
        let _ = take_log();
    }
    let out = real_parse(b, s, budget_for(m.steps));
    cx.transitions += steps();
    cx.states += 1 + dynp::MATCHES.with(|s| s.get());
    cx.executions += 1;
    judge(cx, g, s, what, &m, &out);
    if cx.viol.is_some() {
        return None;
    }
    cx.sample(|| format!("parser!({}) on {s:?} -> {}", g.src(), out.show()));
    Some(out)
}
/// One outcome against the model's.
fn judge(cx: &mut Ctx, g: &P, s: &str, what: What, m: &model::Whole, out: &Out) {
    let want = || match &m.result {
        Ok(v) => format!("Ok({v})"),
        Err((l, e)) => format!("Err(byte {l}: {} {})", e.text(), model::place(s, *l)),
    };
    let bad = |why: &str| {
        format!(
            "parser!({}) on {s:?}: {why}\n  expected {}\n  got      {}",
            g.src(),
            want(),
            out.show()
        )
    };
    if let Some(w) = take_breach() {
        cx.fail(bad(&format!("match protocol broken: {w}")));
        return;
    }
    match (&m.result, out) {
        (_, Out::Panic(_)) => cx.fail(bad("panicked")),
        (_, Out::Budget) => cx.fail(bad("did not finish")),
        (Ok(v), Out::Ok(w)) => {
            cx.accepted += 1;
            if matches!(what, What::Value | What::AcceptValue | What::All) && v != w {
                cx.fail(bad("wrong value"));
            }
            cx.outcome(w);
        }
        (Ok(_), Out::Err(_)) => {
            if !matches!(what, What::Error | What::Total) {
                cx.fail(bad("rejected, but the pattern can match the whole input"));
            }
        }
        (Err(_), Out::Ok(_)) => {
            if !matches!(what, What::Value | What::Total) {
                cx.fail(bad("accepted, but the pattern cannot match the whole input"));
            }
        }
        (Err((l, e)), Out::Err(r)) => {
            cx.rejected += 1;
            if matches!(what, What::Error | What::All) {
                let text = format!("{} {}", e.text(), model::place(s, *l));
                let shown = r.to_string();
                if r.location != *l || shown != text {
                    cx.fail(bad("wrong failure reported"));
                }
            }
            if what == What::Total {
                if let Err(o) = guarded(u64::MAX, || (r.to_string(), format!("{r:?}"))) {
                    cx.fail(bad(&format!("printing the error: {}", o.show())));
                }
            }
            cx.outcome(&(r.location, s.len()));
        }
    }
}

pub fn fam_with(
    name: &str,
    bounds: String,
    pats: Vec<P>,
    inputs: Vec<String>,
    f: impl Fn(&mut Ctx, &P, &Bx, &str) + Send + Sync + 'static,
) -> Part {
    let bounds = format!("{bounds}: {} patterns x {} inputs", pats.len(), inputs.len());
    Part {
        name: name.into(),
        bounds,
        units: pats.len(),
        run: Box::new(move |u, cx| {
            let g = &pats[u];
            let b = dynp::build(g);
            for s in &inputs {
                f(cx, g, &b, s);
                if cx.viol.is_some() {
                    return;
                }
            }
        }),
    }
}

pub fn fam(name: &str, bounds: String, pats: Vec<P>, inputs: Vec<String>, what: What) -> Part {
    fam_with(name, bounds, pats, inputs, move |cx, g, b, s| {
        compare(cx, g, b, s, what);
    })
}

/// Row `i` of the tables, for that pattern.
fn row(i: usize, g: &P) -> fn() -> Bx {
    let t = [mctyped0::TABLE, mctyped1::TABLE, mctyped2::TABLE, mctyped3::TABLE, mctyped4::TABLE, mctyped5::TABLE];
    let (src, f) = t[i % t.len()][i / t.len()];
    assert_eq!(src, mcbase::typed::typed_src(g), "the tables are out of date: run mc gentyped");
    f
}
/// The patterns written out whole, each with its parser.
pub fn whole() -> Vec<(P, fn() -> Bx)> {
    mcbase::typed::typed_pats()
        .into_iter()
        .enumerate()
        .map(|(i, g)| {
            let f = row(i, &g);
            (g, f)
        })
        .collect()
}
/// The patterns of puzzle.rs on every text one change (thorough: for shorter
/// texts, two) away from the texts they are for.
pub fn puzzles_with(only: fn(&G) -> bool, two: usize, f: impl Fn(&mut Ctx, &P, &Bx, &str) + Send + Sync + 'static) -> Part {
    use mcbase::puzzle::{edits, puzzles};
    let first = mcbase::typed::typed_pats().len();
    let mut units = vec![];
    let mut pats = 0;
    for (i, z) in puzzles().into_iter().enumerate() {
        if !z.p.any(&only) {
            continue;
        }
        let mk = row(first + i, &z.p);
        pats += 1;
        for t in z.texts {
            let es = edits(t, z.extra);
            if t.len() <= two {
                for c in es.chunks(40) {
                    units.push((z.p.clone(), mk, z.extra, c.to_vec(), true));
                }
            } else {
                for c in es.chunks(200) {
                    units.push((z.p.clone(), mk, z.extra, c.to_vec(), false));
                }
            }
        }
    }
    Part {
        name: "puzzles".into(),
        bounds: format!(
            "{pats} patterns such as puzzles need, written out whole; every text one change{} away from those they are for (a character taken out, put in, replaced, doubled, exchanged with the next; a line likewise; cut short at either end; other line ends): {} units",
            if two > 0 { format!(", for texts of up to {two} bytes two changes,") } else { String::new() },
            units.len()
        ),
        units: units.len(),
        run: Box::new(move |u, cx| {
            let (g, mk, extra, ts, two) = &units[u];
            let b = mk();
            for t in ts {
                if *two {
                    for s in edits(t, extra) {
                        f(cx, g, &b, &s);
                        if cx.viol.is_some() {
                            return;
                        }
                    }
                } else {
                    f(cx, g, &b, t);
                }
                if cx.viol.is_some() {
                    return;
                }
            }
        }),
    }
}
pub fn puzzles(only: fn(&G) -> bool, two: usize, what: What) -> Part {
    puzzles_with(only, two, move |cx, g, b, s| {
        compare_as(cx, g, b, s, what, true);
    })
}
pub fn whole_with(only: fn(&G) -> bool, len: usize, f: impl Fn(&mut Ctx, &P, &Bx, &str) + Send + Sync + 'static) -> Part {
    let pats: Vec<_> = whole().into_iter().filter(|(g, _)| g.any(&only)).collect();
    let inputs = strings(&["a", "b", "\n"], len);
    let bounds = format!("patterns written out whole in one parser!(...): {} patterns x {} inputs (all texts up to {len} of a, b and newline)", pats.len(), inputs.len());
    Part {
        name: "patterns written out whole".into(),
        bounds,
        units: pats.len(),
        run: Box::new(move |u, cx| {
            let (g, mk) = &pats[u];
            let b = mk();
            for s in &inputs {
                f(cx, g, &b, s);
                if cx.viol.is_some() {
                    return;
                }
            }
        }),
    }
}
pub fn whole_fam(only: fn(&G) -> bool, len: usize, what: What) -> Part {
    whole_with(only, len, move |cx, g, b, s| {
        compare_as(cx, g, b, s, what, true);
    })
}

/// A part whose units are the elements of a list.
pub fn list<T: Send + Sync + 'static>(
    name: &str,
    bounds: &str,
    items: Vec<T>,
    f: impl Fn(&mut Ctx, &T) + Send + Sync + 'static,
) -> Part {
    Part {
        name: name.into(),
        bounds: format!("{bounds}: {} units", items.len()),
        units: items.len(),
        run: Box::new(move |u, cx| f(cx, &items[u])),
    }
}

/// Contexts: patterns over the given leaves, one of which is `Ch('\u{0}')`
/// standing for the hole; exactly one hole.
pub use crate::gram::HOLE;
fn holes(g: &G) -> usize {
    if *g == HOLE {
        1
    } else {
        g.kids().iter().map(|k| holes(k)).sum()
    }
}
pub fn contexts(leaves: &[G], un: &[Op], bin: &[Op], max: usize) -> Vec<P> {
    let mut l = leaves.to_vec();
    l.push(HOLE);
    upto(&l, un, bin, max).into_iter().filter(|g| holes(g) == 1).collect()
}
pub fn plug(c: &P, body: &P) -> P {
    if **c == HOLE {
        return body.clone();
    }
    Arc::new(c.map_kids(&mut |x| plug(x, body)))
}
/// Number the `=>` conversions of a pattern left to right.
pub fn number_maps(g: &P) -> P {
    fn go(g: &P, n: &mut u8) -> P {
        if let G::Map(_, a) = &**g {
            let a = go(a, n);
            let k = *n;
            *n += 1;
            return Arc::new(G::Map(k.min(5), a));
        }
        Arc::new(g.map_kids(&mut |x| go(x, n)))
    }
    go(g, &mut 0)
}

pub fn product(cs: &[P], bodies: &[P]) -> Vec<P> {
    cs.iter().flat_map(|c| bodies.iter().map(move |b| plug(c, b))).collect()
}

/// 0..=dense, then 2^k-1, 2^k, 2^k+1 up to `max`.
pub fn ladder(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    let mut k = 1usize;
    while k <= max {
        for d in [k - 1, k, k + 1] {
            if d > dense && d <= max + 1 {
                v.push(d);
            }
        }
        k *= 2;
    }
    // and a few round numbers in between
    for d in [1000, 3000, 10_000, 30_000, 100_000, 300_000] {
        if d > dense && d <= max {
            v.push(d);
        }
    }
    v.sort();
    v.dedup();
    v
}
