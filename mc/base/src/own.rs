//! Combinators written by a user against the public traits: parsers made of
//! other parsers, whose iterators they start, step, keep and drop as they see
//! fit.
use crate::dynp::{Bx, BxIter};
use crate::val::Val;
use aoc_parse::{ParseContext, ParseIter, Parser, Reported};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Own {
    /// matches nothing where `p` matches; `p`'s value
    Peek,
    /// matches nothing where `p` does not match
    Not,
    /// any number of `p`, as few as will do
    Lazy,
    /// `p`, tried once before and given up
    Twice,
    /// the matches of `p` that end where some match of `q` ends
    Both,
    /// `q`, or if that does not do, `p`
    Or,
    /// a parse of its own, with `p`, of the whole of the remaining text
    /// (the value made at once)
    Whole,
}
pub const NOT: &str = "something else";
pub const BOTH: &str = "both to end here";

pub struct Comb {
    pub how: Own,
    pub a: Bx,
    pub b: Option<Bx>,
}
pub enum Iter<'p> {
    One(BxIter<'p>),
    Peek(BxIter<'p>, usize),
    Not(usize),
    Lazy(&'p Bx, Vec<BxIter<'p>>, usize),
    Both(BxIter<'p>, &'p Bx, usize),
    Or(BxIter<'p>, Option<&'p Bx>, usize),
    Whole(Val, usize),
}
fn both<'p>(cx: &mut ParseContext<'p>, b: &'p Bx, start: usize, end: usize) -> bool {
    if let Ok(mut it) = b.parse_iter(cx, start) {
        loop {
            if it.match_end() == end {
                return true;
            }
            if it.backtrack(cx).is_err() {
                break;
            }
        }
    }
    cx.error_expected(end, BOTH);
    false
}
fn next_both<'p>(cx: &mut ParseContext<'p>, it: &mut BxIter<'p>, b: &'p Bx, start: usize) -> Result<(), Reported> {
    while !both(cx, b, start, it.match_end()) {
        it.backtrack(cx)?;
    }
    Ok(())
}
impl Parser for Comb {
    type Output = Val;
    type RawOutput = (Val,);
    type Iter<'p> = Iter<'p>;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Result<Iter<'p>, Reported> {
        Ok(match self.how {
            Own::Peek => Iter::Peek(self.a.parse_iter(cx, start)?, start),
            Own::Not => {
                if self.a.parse_iter(cx, start).is_ok() {
                    return Err(cx.error_expected(start, NOT));
                }
                Iter::Not(start)
            }
            Own::Lazy => Iter::Lazy(&self.a, vec![], start),
            Own::Twice => {
                drop(self.a.parse_iter(cx, start)?);
                Iter::One(self.a.parse_iter(cx, start)?)
            }
            Own::Both => {
                let b = self.b.as_ref().unwrap();
                let mut it = self.a.parse_iter(cx, start)?;
                next_both(cx, &mut it, b, start)?;
                Iter::Both(it, b, start)
            }
            Own::Whole => {
                let src = cx.source();
                match self.a.parse(&src[start..]) {
                    Ok(v) => Iter::Whole(v, src.len()),
                    Err(mut e) => {
                        e.location += start;
                        e.source = src.to_string();
                        return Err(cx.report(e));
                    }
                }
            }
            Own::Or => match self.b.as_ref().unwrap().parse_iter(cx, start) {
                Ok(it) => Iter::Or(it, Some(&self.a), start),
                Err(Reported) => Iter::Or(self.a.parse_iter(cx, start)?, None, start),
            },
        })
    }
}
impl<'p> ParseIter<'p> for Iter<'p> {
    type RawOutput = (Val,);
    fn match_end(&self) -> usize {
        match self {
            Iter::One(it) | Iter::Both(it, ..) | Iter::Or(it, ..) => it.match_end(),
            Iter::Peek(_, at) | Iter::Not(at) | Iter::Whole(_, at) => *at,
            Iter::Lazy(_, its, start) => its.last().map_or(*start, |it| it.match_end()),
        }
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        match self {
            Iter::One(it) => it.backtrack(cx),
            Iter::Peek(..) | Iter::Not(_) | Iter::Whole(..) => Err(Reported),
            Iter::Both(it, b, start) => {
                it.backtrack(cx)?;
                next_both(cx, it, b, *start)
            }
            Iter::Or(it, other, start) => match it.backtrack(cx) {
                Ok(()) => Ok(()),
                Err(Reported) => {
                    let Some(a) = other.take() else { return Err(Reported) };
                    *it = a.parse_iter(cx, *start)?;
                    Ok(())
                }
            },
            Iter::Lazy(a, its, start) => {
                let at = its.last().map_or(*start, |it| it.match_end());
                if let Ok(mut it) = a.parse_iter(cx, at) {
                    loop {
                        if it.match_end() > at {
                            its.push(it);
                            return Ok(());
                        }
                        if it.backtrack(cx).is_err() {
                            break;
                        }
                    }
                }
                while let Some(mut it) = its.pop() {
                    let from = its.last().map_or(*start, |it| it.match_end());
                    while it.backtrack(cx).is_ok() {
                        if it.match_end() > from {
                            its.push(it);
                            return Ok(());
                        }
                    }
                }
                Err(Reported)
            }
        }
    }
    fn convert(&self) -> (Val,) {
        match self {
            Iter::One(it) | Iter::Both(it, ..) | Iter::Or(it, ..) | Iter::Peek(it, _) => it.convert(),
            Iter::Not(_) => (Val::U,),
            Iter::Whole(v, _) => (v.clone(),),
            Iter::Lazy(_, its, _) => (Val::L(its.iter().map(|it| it.convert().0).collect()),),
        }
    }
}
