//! Builds a real aoc-parse parser from a pattern tree at run time.
//!
//! Every node is made with the public `parser!` macro from the real
//! combinators; sub-patterns are type-erased behind `Bx`, a user-written
//! `Parser` (public traits only), which also counts steps and watches the
//! match protocol.
use crate::gram::{Cls, Coll, Num, Script, G, P};
use crate::val::{ToVal, Val};
use aoc_parse::{parser, prelude::*, ParseContext, ParseError, ParseIter, Reported};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

pub trait DynP {
    fn start<'p>(
        &'p self,
        cx: &mut ParseContext<'p>,
        pos: usize,
    ) -> Result<Box<dyn ParseIter<'p, RawOutput = (Val,)> + 'p>, Reported>;
    /// What the parser's own `parse` returns, with nothing around it.
    fn whole(&self, s: &str) -> Result<Val, ParseError>;
}
impl<Q: Parser<Output = Val, RawOutput = (Val,)>> DynP for Q {
    fn start<'p>(
        &'p self,
        cx: &mut ParseContext<'p>,
        pos: usize,
    ) -> Result<Box<dyn ParseIter<'p, RawOutput = (Val,)> + 'p>, Reported> {
        Ok(Box::new(self.parse_iter(cx, pos)?))
    }
    fn whole(&self, s: &str) -> Result<Val, ParseError> {
        self.parse(s)
    }
}

#[derive(Clone)]
pub struct Bx(pub Rc<dyn DynP>);

pub struct BxIter<'p> {
    inner: Box<dyn ParseIter<'p, RawOutput = (Val,)> + 'p>,
    start: usize,
}

thread_local! {
    pub static STEPS: Cell<u64> = const { Cell::new(0) };
    /// protocol calls that produced a match
    pub static MATCHES: Cell<u64> = const { Cell::new(0) };
    pub static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    /// first breach of the match protocol seen by any wrapper
    pub static BREACH: RefCell<Option<String>> = const { RefCell::new(None) };
    /// conversions run, in order: (number, argument)
    /// protocol steps taken when each conversion ran
    pub static CONV_STEPS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    pub static LOG: RefCell<Vec<(u8, Val)>> = const { RefCell::new(Vec::new()) };
}

pub struct BudgetExceeded;

fn step() {
    crate::sched::point();
    STEPS.with(|s| {
        s.set(s.get() + 1);
        if s.get() > BUDGET.with(|b| b.get()) {
            std::panic::panic_any(BudgetExceeded);
        }
    });
}
fn breach(f: impl FnOnce() -> String) {
    BREACH.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() {
            *b = Some(f());
        }
    });
}
fn check_end(cx: &ParseContext<'_>, start: usize, end: usize) {
    MATCHES.with(|m| m.set(m.get() + 1));
    let s = cx.source();
    if end < start || end > s.len() || !s.is_char_boundary(end) {
        breach(|| format!("match of {start}..{end} in {s:?} (length {})", s.len()));
    }
}

impl Parser for Bx {
    type Output = Val;
    type RawOutput = (Val,);
    type Iter<'p> = BxIter<'p>;
    fn parse_iter<'p>(
        &'p self,
        cx: &mut ParseContext<'p>,
        start: usize,
    ) -> Result<BxIter<'p>, Reported> {
        step();
        if start > cx.source().len() || !cx.source().is_char_boundary(start) {
            breach(|| format!("sub-pattern started at {start} in {:?}", cx.source()));
        }
        let inner = self.0.start(cx, start)?;
        check_end(cx, start, inner.match_end());
        Ok(BxIter { inner, start })
    }
}
impl<'p> ParseIter<'p> for BxIter<'p> {
    type RawOutput = (Val,);
    fn match_end(&self) -> usize {
        self.inner.match_end()
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        step();
        self.inner.backtrack(cx)?;
        check_end(cx, self.start, self.inner.match_end());
        Ok(())
    }
    fn convert(&self) -> (Val,) {
        self.inner.convert()
    }
}

/// Type-erase any parser.
pub fn bx<Q>(q: Q) -> Bx
where
    Q: Parser + 'static,
    Q::Output: ToVal,
{
    Bx(Rc::new(parser!(x:q => x.to_val())))
}

/// The same, for a parser that is also asked to parse whole texts by itself.
pub fn top<Q>(q: Q) -> Bx
where
    Q: Parser + 'static,
    Q::Output: ToVal,
{
    struct Shared<Q>(Rc<Q>);
    impl<Q: Parser> Parser for Shared<Q> {
        type Output = Q::Output;
        type RawOutput = Q::RawOutput;
        type Iter<'p>
            = Q::Iter<'p>
        where
            Self: 'p;
        fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, pos: usize) -> Result<Q::Iter<'p>, Reported> {
            self.0.parse_iter(cx, pos)
        }
    }
    struct Top<Q> {
        q: Rc<Q>,
        m: Bx,
    }
    impl<Q: Parser> DynP for Top<Q>
    where
        Q::Output: ToVal,
    {
        fn start<'p>(
            &'p self,
            cx: &mut ParseContext<'p>,
            pos: usize,
        ) -> Result<Box<dyn ParseIter<'p, RawOutput = (Val,)> + 'p>, Reported> {
            self.m.0.start(cx, pos)
        }
        fn whole(&self, s: &str) -> Result<Val, ParseError> {
            self.q.parse(s).map(|v| v.to_val())
        }
    }
    let q = Rc::new(q);
    Bx(Rc::new(Top { m: bx(Shared(q.clone())), q }))
}

pub fn conv<const N: u8>(v: Val) -> Val {
    LOG.with(|l| l.borrow_mut().push((N, v.clone())));
    crate::sched::point();
    CONV_STEPS.with(|l| l.borrow_mut().push(STEPS.with(|s| s.get())));
    Val::M(N, Box::new(v))
}

/// Rule parsers in scope, one frame per enclosing rule set.
#[derive(Clone, Default)]
pub struct Env(Vec<Vec<Bx>>);
impl Env {
    fn with(&self, f: Vec<Bx>) -> Env {
        let mut e = self.clone();
        e.0.push(f);
        e
    }
}

fn in1<R>(g: P, env: Env, r0: R) -> Bx
where
    R: Parser<Output = Val> + 'static,
{
    mk(&g, &env.with(vec![bx(r0)]))
}
fn in2<R, S>(g: P, env: Env, r0: R, r1: S) -> Bx
where
    R: Parser<Output = Val> + 'static,
    S: Parser<Output = Val> + 'static,
{
    mk(&g, &env.with(vec![bx(r0), bx(r1)]))
}
fn in3<R, S, T>(g: P, env: Env, r0: R, r1: S, r2: T) -> Bx
where
    R: Parser<Output = Val> + 'static,
    S: Parser<Output = Val> + 'static,
    T: Parser<Output = Val> + 'static,
{
    mk(&g, &env.with(vec![bx(r0), bx(r1), bx(r2)]))
}

/// `&'static P` as a parser.
fn borrowed(b: Bx) -> &'static Bx {
    // a leaked allocation per borrow; patterns are small
    Box::leak(Box::new(b))
}

pub fn build(g: &P) -> Bx {
    mk(g, &Env::default())
}

/// A context with the given parser in its hole.
pub fn build_hole(c: &P, hole: Bx) -> Bx {
    fn fill(g: &P) -> P {
        if **g == crate::gram::HOLE {
            return Arc::new(G::Rule(0, 0));
        }
        Arc::new(g.map_kids(&mut |k| fill(k)))
    }
    mk(&fill(c), &Env::default().with(vec![hole]))
}

fn mk(g: &P, env: &Env) -> Bx {
    match &**g {
        G::Empty => bx(parser!(())),
        G::Script(s) => Bx(Rc::new(User(s.clone()))),
        G::Own(how, v) => Bx(Rc::new(crate::own::Comb { how: *how, a: mk(&v[0], env), b: v.get(1).map(|b| mk(b, env)) })),
        G::Lit(s) => {
            let s: &'static str = s;
            bx(parser!(s))
        }
        G::Ch(c) => {
            let c = *c;
            bx(parser!(c))
        }
        G::Cls(Cls::Alpha) => bx(parser!(alpha)),
        G::Cls(Cls::Alnum) => bx(parser!(alnum)),
        G::Cls(Cls::Upper) => bx(parser!(upper)),
        G::Cls(Cls::Lower) => bx(parser!(lower)),
        G::Cls(Cls::Any) => bx(parser!(any_char)),
        G::Cls(Cls::Digit) => bx(parser!(digit)),
        G::Cls(Cls::DigitBin) => bx(parser!(digit_bin)),
        G::Cls(Cls::DigitHex) => bx(parser!(digit_hex)),
        G::CharOf(s) => {
            // (a variable inside a call would be taken for a pattern)
            let c = char_of(s);
            bx(parser!(c))
        }
        G::Num(Num::U8) => bx(parser!(u8)),
        G::Num(Num::I8) => bx(parser!(i8)),
        G::Num(Num::U8Hex) => bx(parser!(u8_hex)),
        G::Num(Num::I32) => bx(parser!(i32)),
        G::Num(Num::Usize) => bx(parser!(usize)),
        G::Num(Num::Bool) => bx(parser!(bool)),
        G::Seq(a, b) => {
            let (a, b) = (mk(a, env), mk(b, env));
            bx(parser!(a b))
        }
        G::Seq3(a, b, c) => {
            let (a, b, c) = (mk(a, env), mk(b, env), mk(c, env));
            bx(parser!(a b c))
        }
        G::Alt(a, b) => {
            let (a, b) = (mk(a, env), mk(b, env));
            bx(parser!({a, b}))
        }
        G::Alt3(a, b, c) => {
            let (a, b, c) = (mk(a, env), mk(b, env), mk(c, env));
            bx(parser!({a, b, c}))
        }
        G::SeqN(v) => {
            let v: Vec<Bx> = v.iter().map(|x| mk(x, env)).collect();
            let g = |i: usize| v[i].clone();
            match v.len() {
                4 => {
                    let (a, b, c, d) = (g(0), g(1), g(2), g(3));
                    bx(parser!(a b c d))
                }
                5 => {
                    let (a, b, c, d, e) = (g(0), g(1), g(2), g(3), g(4));
                    bx(parser!(a b c d e))
                }
                6 => {
                    let (a, b, c, d, e, f) = (g(0), g(1), g(2), g(3), g(4), g(5));
                    bx(parser!(a b c d e f))
                }
                7 => {
                    let (a, b, c, d, e, f, h) = (g(0), g(1), g(2), g(3), g(4), g(5), g(6));
                    bx(parser!(a b c d e f h))
                }
                8 => {
                    let (a, b, c, d, e, f, h, i) =
                        (g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7));
                    bx(parser!(a b c d e f h i))
                }
                _ => unreachable!(),
            }
        }
        G::AltN(v) => {
            let v: Vec<Bx> = v.iter().map(|x| mk(x, env)).collect();
            let g = |i: usize| v[i].clone();
            match v.len() {
                4 => {
                    let (a, b, c, d) = (g(0), g(1), g(2), g(3));
                    bx(parser!({a, b, c, d}))
                }
                5 => {
                    let (a, b, c, d, e) = (g(0), g(1), g(2), g(3), g(4));
                    bx(parser!({a, b, c, d, e}))
                }
                6 => {
                    let (a, b, c, d, e, f) = (g(0), g(1), g(2), g(3), g(4), g(5));
                    bx(parser!({a, b, c, d, e, f}))
                }
                7 => {
                    let (a, b, c, d, e, f, h) = (g(0), g(1), g(2), g(3), g(4), g(5), g(6));
                    bx(parser!({a, b, c, d, e, f, h}))
                }
                8 => {
                    let (a, b, c, d, e, f, h, i) =
                        (g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7));
                    bx(parser!({a, b, c, d, e, f, h, i}))
                }
                _ => unreachable!(),
            }
        }
        G::Star(a) => {
            let a = mk(a, env);
            bx(parser!(a*))
        }
        G::Plus(a) => {
            let a = mk(a, env);
            bx(parser!(a+))
        }
        G::Opt(a) => {
            let a = mk(a, env);
            bx(parser!(a?))
        }
        G::RepSep(a, b) => {
            let (a, b) = (mk(a, env), mk(b, env));
            bx(parser!(repeat_sep(a, b)))
        }
        G::Str(a) => {
            let a = mk(a, env);
            bx(parser!(string(a)))
        }
        G::Line(a) => {
            let a = mk(a, env);
            bx(parser!(line(a)))
        }
        G::Lines(a) => {
            let a = mk(a, env);
            bx(parser!(lines(a)))
        }
        G::Section(a) => {
            let a = mk(a, env);
            bx(parser!(section(a)))
        }
        G::Sections(a) => {
            let a = mk(a, env);
            bx(parser!(sections(a)))
        }
        G::Map(n, a) => {
            let a = mk(a, env);
            match n {
                0 => bx(parser!(v:a => conv::<0>(v))),
                1 => bx(parser!(v:a => conv::<1>(v))),
                2 => bx(parser!(v:a => conv::<2>(v))),
                3 => bx(parser!(v:a => conv::<3>(v))),
                4 => bx(parser!(v:a => conv::<4>(v))),
                _ => bx(parser!(v:a => conv::<5>(v))),
            }
        }
        G::Paren(a) => {
            let a = mk(a, env);
            bx(parser!((a)))
        }
        G::Ref_(a) => {
            let a = borrowed(mk(a, env));
            bx(parser!(a))
        }
        G::Rule(d, i) => env.0[env.0.len() - 1 - *d as usize][*i as usize].clone(),
        G::Rules(rs, e) => {
            let e = e.clone();
            let v = env.clone();
            match rs.len() {
                1 => {
                    let a = rs[0].clone();
                    let va = env.clone();
                    bx(parser!(rule r: Val = in1(a, va, r); in1(e, v, r)))
                }
                2 => {
                    let (a, b) = (rs[0].clone(), rs[1].clone());
                    let (va, vb) = (env.clone(), env.clone());
                    bx(parser!(
                        rule r: Val = in2(a, va, r, s);
                        rule s: Val = in2(b, vb, r, s);
                        in2(e, v, r, s)))
                }
                3 => {
                    let (a, b, c) = (rs[0].clone(), rs[1].clone(), rs[2].clone());
                    let (va, vb, vc) = (env.clone(), env.clone(), env.clone());
                    bx(parser!(
                        rule r: Val = in3(a, va, r, s, t);
                        rule s: Val = in3(b, vb, r, s, t);
                        rule t: Val = in3(c, vc, r, s, t);
                        in3(e, v, r, s, t)))
                }
                _ => unreachable!(),
            }
        }
        G::Coll(k, a, None) => {
            let a = mk(a, env);
            match k {
                Coll::HSet => bx(parser!(hash_set(a*))),
                Coll::BSet => bx(parser!(btree_set(a*))),
                Coll::Deq => bx(parser!(vec_deque(a*))),
                _ => unreachable!(),
            }
        }
        G::Coll(k, a, Some(b)) => {
            let (a, b) = (mk(a, env), mk(b, env));
            match k {
                Coll::HSet => bx(parser!(hash_set(repeat_sep(a, b)))),
                Coll::BSet => bx(parser!(btree_set(repeat_sep(a, b)))),
                Coll::Deq => bx(parser!(vec_deque(repeat_sep(a, b)))),
                _ => unreachable!(),
            }
        }
        G::CollMap(k, a, b) => {
            let (a, b) = (mk(a, env), mk(b, env));
            match k {
                Coll::HMap => bx(parser!(hash_map((a b)*))),
                Coll::BMap => bx(parser!(btree_map((a b)*))),
                _ => unreachable!(),
            }
        }
    }
}

// ---- parsers written by a user, against the public traits only

pub struct User(pub Script);
pub struct UserIter<'p> {
    me: &'p User,
    src: &'p str,
    start: usize,
    /// next of `ends` to try
    next: usize,
    end: usize,
    over: Cell<bool>,
}
thread_local! {
    /// calls made to users' parsers and their iterators
    pub static CALLS: Cell<u64> = const { Cell::new(0) };
    /// the call at which to panic (0: never)
    pub static PANIC_AT: Cell<u64> = const { Cell::new(0) };
    /// iterators of users' parsers not dropped yet
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
}
pub struct UserPanic;
fn call() {
    CALLS.with(|c| c.set(c.get() + 1));
    if CALLS.with(|c| c.get()) == PANIC_AT.with(|c| c.get()) {
        std::panic::panic_any(UserPanic);
    }
}
/// Byte position `n` characters after `at`, if the text is that long.
fn ahead(s: &str, at: usize, n: usize) -> Option<usize> {
    s[at..].char_indices().map(|(i, _)| at + i).chain([s.len()]).nth(n)
}
impl<'p> UserIter<'p> {
    fn advance(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        while let Some(&n) = self.me.0.ends.get(self.next) {
            self.next += 1;
            if let Some(e) = ahead(self.src, self.start, n as usize) {
                self.end = e;
                return Ok(());
            }
        }
        self.over.set(true);
        let far = ahead(self.src, self.start, self.me.0.far as usize).unwrap_or(self.src.len());
        Err(cx.error_expected(far, NOUN))
    }
    fn alive(&self, what: &str) {
        if self.over.get() {
            breach(|| format!("{what} called on a parse iterator that had run out of matches"));
        }
    }
}
pub const NOUN: &str = "what the user wants";
impl Parser for User {
    type Output = Val;
    type RawOutput = (Val,);
    type Iter<'p> = UserIter<'p>;
    fn parse_iter<'p>(&'p self, cx: &mut ParseContext<'p>, start: usize) -> Result<UserIter<'p>, Reported> {
        step();
        call();
        let src = cx.source();
        if start > src.len() || !src.is_char_boundary(start) {
            breach(|| format!("user's parser started at {start} in {src:?}"));
            return Err(cx.error_expected(0, NOUN));
        }
        let mut it = UserIter { me: self, src, start, next: 0, end: start, over: Cell::new(false) };
        LIVE.with(|l| l.set(l.get() + 1));
        it.advance(cx)?;
        Ok(it)
    }
}
impl<'p> ParseIter<'p> for UserIter<'p> {
    type RawOutput = (Val,);
    fn match_end(&self) -> usize {
        self.alive("match_end");
        self.end
    }
    fn backtrack(&mut self, cx: &mut ParseContext<'p>) -> Result<(), Reported> {
        step();
        call();
        self.alive("backtrack");
        if cx.source() != self.src {
            breach(|| format!("a match in {:?} was asked for its alternatives in {:?}", self.src, cx.source()));
        }
        self.advance(cx)
    }
    fn convert(&self) -> (Val,) {
        call();
        self.alive("convert");
        let v = Val::S(self.src[self.start..self.end].to_string());
        LOG.with(|l| l.borrow_mut().push((self.me.0.id, v.clone())));
        CONV_STEPS.with(|l| l.borrow_mut().push(STEPS.with(|s| s.get())));
        (Val::M(self.me.0.id, Box::new(v)),)
    }
}
impl Drop for UserIter<'_> {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}
