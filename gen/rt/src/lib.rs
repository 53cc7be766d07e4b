//! Support for the generated programs of gen.py: printing of values of any
//! shape, functions that take patterns, and the loop over the texts.
pub use aoc_parse;
use aoc_parse::Parser;
use std::collections::{BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub trait Show {
    fn show(&self, o: &mut String);
}
impl Show for () {
    fn show(&self, o: &mut String) {
        o.push_str("()");
    }
}
impl Show for usize {
    fn show(&self, o: &mut String) {
        o.push_str(&self.to_string());
    }
}
impl Show for char {
    fn show(&self, o: &mut String) {
        o.push('\'');
        o.push(*self);
    }
}
impl Show for &str {
    fn show(&self, o: &mut String) {
        o.push('<');
        o.push_str(self);
        o.push('>');
    }
}
impl Show for String {
    fn show(&self, o: &mut String) {
        o.push('<');
        o.push_str(self);
        o.push('>');
    }
}
fn list<'a, T: Show + 'a>(open: &str, v: impl Iterator<Item = &'a T>, close: &str, o: &mut String) {
    o.push_str(open);
    for (i, x) in v.enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.show(o);
    }
    o.push_str(close);
}
impl<T: Show> Show for Vec<T> {
    fn show(&self, o: &mut String) {
        list("[", self.iter(), "]", o);
    }
}
impl<T: Show> Show for VecDeque<T> {
    fn show(&self, o: &mut String) {
        list("dq[", self.iter(), "]", o);
    }
}
impl<T: Show> Show for BTreeSet<T> {
    fn show(&self, o: &mut String) {
        list("bs[", self.iter(), "]", o);
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self, o: &mut String) {
        match self {
            None => o.push('N'),
            Some(x) => {
                o.push_str("S{");
                x.show(o);
                o.push('}');
            }
        }
    }
}
impl<T: Show> Show for Box<T> {
    fn show(&self, o: &mut String) {
        (**self).show(o)
    }
}
macro_rules! tups { ($( ($($n:ident)+) )*) => { $(
    impl<$($n: Show),+> Show for ($($n,)+) {
        #[allow(non_snake_case, unused_assignments)]
        fn show(&self, o: &mut String) {
            let ($($n,)+) = self;
            o.push('(');
            let mut first = true;
            $( if !first { o.push(','); } first = false; $n.show(o); )+
            o.push(')');
        }
    }
)* } }
tups!((A B)(A B C)(A B C D)(A B C D E)(A B C D E F)(A B C D E F G)(A B C D E F G H));

/// What a generated `=>` expression produces: its number and the labels' values.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct M(pub String);
pub fn m(k: u32, v: &[&dyn Show]) -> M {
    let mut o = format!("m{k}(");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        x.show(&mut o);
    }
    o.push(')');
    M(o)
}
impl Show for M {
    fn show(&self, o: &mut String) {
        o.push_str(&self.0);
    }
}

/// Functions of the user's own, called from inside patterns.
pub fn same<P: Parser>(p: P) -> P {
    p
}
pub fn second<A, B: Parser>(_a: A, b: B) -> B {
    b
}
pub fn third<A, B, C: Parser>(_a: A, _b: B, c: C) -> C {
    c
}
pub fn sixth<A, B, C, D, E, F: Parser>(_a: A, _b: B, _c: C, _d: D, _e: E, f: F) -> F {
    f
}
#[allow(clippy::too_many_arguments)]
pub fn twelfth<A, B, C, D, E, F, G, H, I, J, K, L: Parser>(_a: A, _b: B, _c: C, _d: D, _e: E, _f: F, _g: G, _h: H, _i: I, _j: J, _k: K, l: L) -> L {
    l
}

pub fn nought() -> impl Parser<Output = usize, RawOutput = (usize,)> {
    aoc_parse::prelude::digit
}

pub const KK: &str = "-";
pub const CC: char = '+';

/// Parse every text and print the accepted ones' values: `id|index=value|...`
pub fn go<T: Show, P: Parser<Output = T>>(id: u32, p: P, texts: &[&str]) {
    let mut o = format!("{id}");
    for (i, s) in texts.iter().enumerate() {
        match catch_unwind(AssertUnwindSafe(|| p.parse(s).ok())) {
            Ok(None) => {}
            Ok(Some(v)) => {
                o.push_str(&format!("|{i}="));
                v.show(&mut o);
            }
            Err(_) => o.push_str(&format!("|{i}=panic")),
        }
    }
    println!("{}", o.replace('\n', "\\n"));
}

pub fn main(all: &[(u32, fn(u32))]) {
    std::panic::set_hook(Box::new(|_| {}));
    let only: Option<u32> = std::env::args().nth(1).map(|x| x.parse().unwrap());
    for (id, f) in all {
        if only.is_none() || only == Some(*id) {
            f(*id);
        }
    }
}

/// It is a parser.
pub fn chk<P: Parser>(_: &P) {}
