//! One value type for the output of every pattern, so that patterns of any
//! shape can be built at run time.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    U,
    C(char),
    N(i128),
    Big(String),
    F(u64),
    B(bool),
    S(String),
    T(Vec<Val>),
    L(Vec<Val>),
    O(Option<Box<Val>>),
    /// result of `=>` conversion number `.0`
    M(u8, Box<Val>),
    HSet(BTreeSet<Val>),
    BSet(Vec<Val>),
    Deq(Vec<Val>),
    HMap(BTreeMap<Val, Val>),
    BMap(Vec<(Val, Val)>),
}

pub trait ToVal {
    fn to_val(self) -> Val;
}
impl ToVal for Val {
    fn to_val(self) -> Val {
        self
    }
}
impl ToVal for () {
    fn to_val(self) -> Val {
        Val::U
    }
}
impl ToVal for char {
    fn to_val(self) -> Val {
        Val::C(self)
    }
}
impl ToVal for bool {
    fn to_val(self) -> Val {
        Val::B(self)
    }
}
impl ToVal for String {
    fn to_val(self) -> Val {
        Val::S(self)
    }
}
impl ToVal for &'static str {
    fn to_val(self) -> Val {
        Val::S(self.to_string())
    }
}
macro_rules! ints { ($($t:ty)*) => { $( impl ToVal for $t { fn to_val(self) -> Val { Val::N(self as i128) } } )* } }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128);
impl ToVal for u128 {
    fn to_val(self) -> Val {
        Val::Big(self.to_string())
    }
}
impl ToVal for num_bigint::BigInt {
    fn to_val(self) -> Val {
        Val::Big(self.to_string())
    }
}
impl ToVal for num_bigint::BigUint {
    fn to_val(self) -> Val {
        Val::Big(self.to_string())
    }
}
impl ToVal for f64 {
    fn to_val(self) -> Val {
        Val::F(self.to_bits())
    }
}
impl ToVal for f32 {
    fn to_val(self) -> Val {
        Val::F(self.to_bits() as u64)
    }
}
impl<T: ToVal> ToVal for Vec<T> {
    fn to_val(self) -> Val {
        Val::L(self.into_iter().map(ToVal::to_val).collect())
    }
}
impl<T: ToVal> ToVal for Option<T> {
    fn to_val(self) -> Val {
        Val::O(self.map(|x| Box::new(x.to_val())))
    }
}
impl<T: ToVal> ToVal for HashSet<T> {
    fn to_val(self) -> Val {
        let n = self.len();
        let s: BTreeSet<Val> = self.into_iter().map(ToVal::to_val).collect();
        assert_eq!(n, s.len());
        Val::HSet(s)
    }
}
impl<T: ToVal> ToVal for BTreeSet<T> {
    fn to_val(self) -> Val {
        Val::BSet(self.into_iter().map(ToVal::to_val).collect())
    }
}
impl<T: ToVal> ToVal for VecDeque<T> {
    fn to_val(self) -> Val {
        Val::Deq(self.into_iter().map(ToVal::to_val).collect())
    }
}
impl<K: ToVal, V: ToVal> ToVal for HashMap<K, V> {
    fn to_val(self) -> Val {
        Val::HMap(
            self.into_iter()
                .map(|(k, v)| (k.to_val(), v.to_val()))
                .collect(),
        )
    }
}
impl<K: ToVal, V: ToVal> ToVal for BTreeMap<K, V> {
    fn to_val(self) -> Val {
        Val::BMap(
            self.into_iter()
                .map(|(k, v)| (k.to_val(), v.to_val()))
                .collect(),
        )
    }
}
macro_rules! tups { ($( ($($n:ident)+) )*) => { $(
    impl<$($n: ToVal),+> ToVal for ($($n,)+) {
        #[allow(non_snake_case)]
        fn to_val(self) -> Val { let ($($n,)+) = self; Val::T(vec![$($n.to_val()),+]) }
    }
)* } }
tups!((A B)(A B C)(A B C D)(A B C D E)(A B C D E F)(A B C D E F G)(A B C D E F G H));

impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        fn list(f: &mut std::fmt::Formatter<'_>, o: &str, v: &[Val], c: &str) -> std::fmt::Result {
            f.write_str(o)?;
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    f.write_str(", ")?;
                }
                write!(f, "{x}")?;
            }
            f.write_str(c)
        }
        match self {
            Val::U => write!(f, "()"),
            Val::C(c) => write!(f, "{c:?}"),
            Val::N(n) => write!(f, "{n}"),
            Val::Big(n) => write!(f, "big {n}"),
            Val::F(n) => write!(f, "float bits {n:x}"),
            Val::B(b) => write!(f, "{b}"),
            Val::S(s) => write!(f, "{s:?}"),
            Val::T(v) => list(f, "(", v, ")"),
            Val::L(v) => list(f, "[", v, "]"),
            Val::O(None) => write!(f, "None"),
            Val::O(Some(v)) => write!(f, "Some({v})"),
            Val::M(t, v) => write!(f, "conv{t}({v})"),
            Val::HSet(s) => list(f, "hash_set{", &s.iter().cloned().collect::<Vec<_>>(), "}"),
            Val::BSet(s) => list(f, "btree_set{", s, "}"),
            Val::Deq(s) => list(f, "vec_deque[", s, "]"),
            Val::HMap(m) => write!(f, "hash_map{m:?}"),
            Val::BMap(m) => write!(f, "btree_map{m:?}"),
        }
    }
}
