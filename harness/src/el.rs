//! Element types: value generation and scalar reference semantics.
use crate::rng::Rng;
use redstone_ml::*;

pub trait El: RawDataType {
    const NAME: &'static str;
    const FLOAT: bool = false;
    /// i-th value of a pattern that repeats late
    fn nth(i: usize) -> Self;
    /// any value of the type, including extremes and (for floats) infinities and NaN
    fn any(r: &mut Rng) -> Self;
    /// equality as bit patterns, all NaNs being the same
    fn same(a: Self, b: Self) -> bool;
    fn from_bool(b: bool) -> Self;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op { Add, Sub, Mul, Div, Rem, And, Or, Shl, Shr }
pub use Op::*;

/// How the two operands are handed over.
#[derive(Clone, Copy, Debug)]
pub enum Pass { RefRef, RefVal, ValRef, ValVal }

pub trait Num: El + NumericDataType {
    const BITS: u32;
    const SIGNED: bool;
    const MAXI: i128; // largest integer n such that all integers up to n are exact
    fn from_i(i: i128) -> Self;
    fn to_f(self) -> f64;
    /// integer value (types other than floats, or floats holding integers)
    fn to_i(self) -> i128;
    fn cmp_lt(a: Self, b: Self) -> bool { a < b }
    fn absv(self) -> Self;
    fn min_v() -> Self;
    fn max_v() -> Self;
    fn ops() -> &'static [Op];
    /// the scalar operator (wrapping for integers)
    fn scalar(op: Op, a: Self, b: Self) -> Self;
    /// would the scalar operator overflow (panic when overflow checks are on)?
    fn overflows(op: Op, a: Self, b: Self) -> bool;
    fn has_neg() -> bool;
    fn scalar_neg(a: Self) -> Self;
    fn zero_v() -> Self { Self::from_i(0) }
    fn one_v() -> Self { Self::from_i(1) }

    // the array operations that need concrete types
    fn bin<'a>(op: Op, pass: Pass, a: NdArray<'a, Self>, b: NdArray<'a, Self>) -> NdArray<'static, Self>;
    fn bin_scalar(op: Op, by_ref: bool, a: NdArray<'_, Self>, b: Self) -> NdArray<'static, Self>;
    fn iop(op: Op, a: &mut NdArray<'_, Self>, b: &NdArray<'_, Self>);
    fn iop_owned(op: Op, a: &mut NdArray<'_, Self>, b: NdArray<'_, Self>);
    fn iop_scalar(op: Op, a: &mut NdArray<'_, Self>, b: Self);
    fn neg(by_ref: bool, a: NdArray<'_, Self>) -> NdArray<'static, Self>;
    fn dot(a: &NdArray<'_, Self>, b: &NdArray<'_, Self>) -> NdArray<'static, Self>;
    fn matmul<'a>(a: &'a NdArray<'a, Self>, b: &'a NdArray<'a, Self>) -> NdArray<'static, Self>;
    fn bmm<'a>(a: &'a NdArray<'a, Self>, b: &'a NdArray<'a, Self>) -> NdArray<'static, Self>;
    fn einsum<'a>(ops: &[&'a NdArray<'a, Self>], subs: &[&str], out: &str) -> NdArray<'static, Self>;
    fn mean(_a: &NdArray<'_, Self>) -> Option<NdArray<'static, Self>> { None }
    fn mean_along(_a: &NdArray<'_, Self>, _axes: &[isize]) -> Option<NdArray<'static, Self>> { None }
}

impl El for bool {
    const NAME: &'static str = "bool";
    fn nth(i: usize) -> Self { (i * 7 / 3) % 2 == 1 }
    fn any(r: &mut Rng) -> Self { r.chance(1, 2) }
    fn same(a: Self, b: Self) -> bool { a == b }
    fn from_bool(b: bool) -> Self { b }
}

macro_rules! common_ops { () => {
    fn dot(a: &NdArray<'_, Self>, b: &NdArray<'_, Self>) -> NdArray<'static, Self> { a.dot(b) }
    fn matmul<'a>(a: &'a NdArray<'a, Self>, b: &'a NdArray<'a, Self>) -> NdArray<'static, Self> { a.matmul(b) }
    fn bmm<'a>(a: &'a NdArray<'a, Self>, b: &'a NdArray<'a, Self>) -> NdArray<'static, Self> { a.bmm(b) }
    fn einsum<'a>(ops: &[&'a NdArray<'a, Self>], subs: &[&str], out: &str) -> NdArray<'static, Self> {
        einsum(ops, (subs, out))
    }
} }

macro_rules! dispatch { ($op:ident, $pass:ident, $a:ident, $b:ident; $($o:ident $t:tt),*) => {
    match ($op, $pass) {
        $( (Op::$o, Pass::RefRef) => &$a $t &$b,
           (Op::$o, Pass::RefVal) => &$a $t $b,
           (Op::$o, Pass::ValRef) => $a $t &$b,
           (Op::$o, Pass::ValVal) => $a $t $b, )*
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
} }
macro_rules! dispatch_s { ($op:ident, $r:ident, $a:ident, $b:ident; $($o:ident $t:tt),*) => {
    match ($op, $r) {
        $( (Op::$o, true) => &$a $t $b, (Op::$o, false) => $a $t $b, )*
        #[allow(unreachable_patterns)]
        _ => unreachable!(),
    }
} }
macro_rules! dispatch_i { ($op:ident, $a:ident, $b:ident; $($o:ident $t:tt),*) => {
    match $op { $( Op::$o => *$a $t $b, )*
        #[allow(unreachable_patterns)]
        _ => unreachable!() }
} }

macro_rules! neg_impl {
    (signed) => {
        fn has_neg() -> bool { true }
        fn scalar_neg(a: Self) -> Self { a.wrapping_neg() }
        fn neg(by_ref: bool, a: NdArray<'_, Self>) -> NdArray<'static, Self> { if by_ref { -&a } else { -a } }
        fn absv(self) -> Self { self.wrapping_abs() }
    };
    (unsigned) => {
        fn has_neg() -> bool { false }
        fn scalar_neg(_: Self) -> Self { unreachable!() }
        fn neg(_: bool, _: NdArray<'_, Self>) -> NdArray<'static, Self> { unreachable!() }
        fn absv(self) -> Self { self }
    };
}

macro_rules! int_el { ($($t:ident $s:ident;)*) => { $(
    impl El for $t {
        const NAME: &'static str = stringify!($t);
        fn nth(i: usize) -> Self { (i as u128).wrapping_mul(0x9E37_79B1).wrapping_add(i as u128 >> 3) as $t ^ (i as $t) }
        fn any(r: &mut Rng) -> Self {
            match r.below(8) {
                0 => $t::MAX, 1 => $t::MIN, 2 => 0, 3 => 1,
                4 => r.range(0, 100) as $t,
                _ => ((r.next() as u128) << 64 | r.next() as u128) as $t,
            }
        }
        fn same(a: Self, b: Self) -> bool { a == b }
        fn from_bool(b: bool) -> Self { b as $t }
    }
    impl Num for $t {
        const BITS: u32 = $t::BITS;
        const SIGNED: bool = $t::MIN != 0;
        const MAXI: i128 = if $t::BITS >= 128 { i128::MAX } else { $t::MAX as i128 };
        fn from_i(i: i128) -> Self { i as $t }
        fn to_f(self) -> f64 { self as f64 }
        fn to_i(self) -> i128 { self as i128 }
        fn min_v() -> Self { $t::MIN }
        fn max_v() -> Self { $t::MAX }
        fn ops() -> &'static [Op] { &[Add, Sub, Mul, Rem, And, Or, Shl, Shr] }
        fn scalar(op: Op, a: Self, b: Self) -> Self {
            match op {
                Add => a.wrapping_add(b), Sub => a.wrapping_sub(b), Mul => a.wrapping_mul(b),
                Rem => a.wrapping_rem(b), And => a & b, Or => a | b,
                Shl => a.wrapping_shl(b as u32), Shr => a.wrapping_shr(b as u32),
                Div => unreachable!(),
            }
        }
        fn overflows(op: Op, a: Self, b: Self) -> bool {
            match op {
                Add => a.checked_add(b).is_none(), Sub => a.checked_sub(b).is_none(), Mul => a.checked_mul(b).is_none(),
                Rem => a.checked_rem(b).is_none(),
                Shl | Shr => !((b as u128) < $t::BITS as u128),
                _ => false,
            }
        }
        fn bin<'a>(op: Op, pass: Pass, a: NdArray<'a, Self>, b: NdArray<'a, Self>) -> NdArray<'static, Self> {
            dispatch!(op, pass, a, b; Add +, Sub -, Mul *, Rem %, And &, Or |, Shl <<, Shr >>)
        }
        fn bin_scalar(op: Op, r: bool, a: NdArray<'_, Self>, b: Self) -> NdArray<'static, Self> {
            dispatch_s!(op, r, a, b; Add +, Sub -, Mul *, Rem %, And &, Or |, Shl <<, Shr >>)
        }
        fn iop(op: Op, a: &mut NdArray<'_, Self>, b: &NdArray<'_, Self>) {
            dispatch_i!(op, a, b; Add +=, Sub -=, Mul *=, Rem %=, And &=, Or |=, Shl <<=, Shr >>=)
        }
        fn iop_owned(op: Op, a: &mut NdArray<'_, Self>, b: NdArray<'_, Self>) {
            dispatch_i!(op, a, b; Add +=, Sub -=, Mul *=, Rem %=, And &=, Or |=, Shl <<=, Shr >>=)
        }
        fn iop_scalar(op: Op, a: &mut NdArray<'_, Self>, b: Self) {
            dispatch_i!(op, a, b; Add +=, Sub -=, Mul *=, Rem %=, And &=, Or |=, Shl <<=, Shr >>=)
        }
        neg_impl!($s);
        common_ops!();
    }
)* } }

int_el! { i8 signed; i16 signed; i32 signed; i64 signed; i128 signed; isize signed;
          u8 unsigned; u16 unsigned; u32 unsigned; u64 unsigned; u128 unsigned; usize unsigned; }

macro_rules! float_el { ($($t:ident $m:expr;)*) => { $(
    impl El for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = true;
        fn nth(i: usize) -> Self { (i % 4093) as $t * 0.5 - 700.0 + (i / 4093) as $t * 0.0625 }
        fn any(r: &mut Rng) -> Self {
            match r.below(14) {
                0 => $t::MAX, 1 => $t::MIN, 2 => 0.0, 3 => -0.0, 4 => $t::INFINITY, 5 => $t::NEG_INFINITY,
                6 => $t::NAN, 7 => $t::MIN_POSITIVE, 8 => 1.0,
                9 => r.range(-50, 50) as $t,
                10 => (r.unit() - 0.5) as $t * 1e30,
                _ => (r.unit() * 20.0 - 10.0) as $t,
            }
        }
        fn same(a: Self, b: Self) -> bool { (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits() }
        fn from_bool(b: bool) -> Self { b as u8 as $t }
    }
    impl Num for $t {
        const BITS: u32 = (std::mem::size_of::<$t>() * 8) as u32;
        const SIGNED: bool = true;
        const MAXI: i128 = $m;
        fn from_i(i: i128) -> Self { i as $t }
        fn to_f(self) -> f64 { self as f64 }
        fn to_i(self) -> i128 { self as i128 }
        fn min_v() -> Self { $t::NEG_INFINITY }
        fn max_v() -> Self { $t::INFINITY }
        fn ops() -> &'static [Op] { &[Add, Sub, Mul, Div, Rem] }
        fn scalar(op: Op, a: Self, b: Self) -> Self {
            match op { Add => a + b, Sub => a - b, Mul => a * b, Div => a / b, Rem => a % b, _ => unreachable!() }
        }
        fn overflows(_: Op, _: Self, _: Self) -> bool { false }
        fn bin<'a>(op: Op, pass: Pass, a: NdArray<'a, Self>, b: NdArray<'a, Self>) -> NdArray<'static, Self> {
            dispatch!(op, pass, a, b; Add +, Sub -, Mul *, Div /, Rem %)
        }
        fn bin_scalar(op: Op, r: bool, a: NdArray<'_, Self>, b: Self) -> NdArray<'static, Self> {
            dispatch_s!(op, r, a, b; Add +, Sub -, Mul *, Div /, Rem %)
        }
        fn iop(op: Op, a: &mut NdArray<'_, Self>, b: &NdArray<'_, Self>) {
            dispatch_i!(op, a, b; Add +=, Sub -=, Mul *=, Div /=, Rem %=)
        }
        fn iop_owned(op: Op, a: &mut NdArray<'_, Self>, b: NdArray<'_, Self>) {
            dispatch_i!(op, a, b; Add +=, Sub -=, Mul *=, Div /=, Rem %=)
        }
        fn iop_scalar(op: Op, a: &mut NdArray<'_, Self>, b: Self) {
            dispatch_i!(op, a, b; Add +=, Sub -=, Mul *=, Div /=, Rem %=)
        }
        fn has_neg() -> bool { true }
        fn scalar_neg(a: Self) -> Self { -a }
        fn neg(by_ref: bool, a: NdArray<'_, Self>) -> NdArray<'static, Self> { if by_ref { -&a } else { -a } }
        fn absv(self) -> Self { self.abs() }
        fn mean(a: &NdArray<'_, Self>) -> Option<NdArray<'static, Self>> { Some(a.mean()) }
        fn mean_along(a: &NdArray<'_, Self>, axes: &[isize]) -> Option<NdArray<'static, Self>> { Some(a.mean_along(axes)) }
        common_ops!();
    }
)* } }

float_el! { f32 1 << 24; f64 1 << 53; }

/// Runs `$body` with `$T` bound to one of the listed types, chosen by `$rng`.
/// only f32 and f64
pub static FLOATS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[macro_export]
macro_rules! pick_dtype {
    ($k:expr, $T:ident => $body:expr; $($t:ty),+) => {{
        let n = 0usize $( + { let _ = std::mem::size_of::<$t>(); 1 } )+;
        let k: usize = if $crate::el::FLOATS.load(std::sync::atomic::Ordering::Relaxed) { $k % 2 } else { $k % n };
        let mut i = 0usize;
        let _ = &mut i;
        loop {
            $( if i == k { type $T = $t; break $body; } i += 1; )+
            #[allow(unreachable_code)] { unreachable!() }
        }
    }};
}
#[macro_export]
macro_rules! any_dtype { ($k:expr, $T:ident => $body:expr) => {
    $crate::pick_dtype!($k, $T => $body; f32, f64, i32, bool, i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize)
} }
#[macro_export]
macro_rules! num_dtype { ($k:expr, $T:ident => $body:expr) => {
    $crate::pick_dtype!($k, $T => $body; f32, f64, f32, f64, i32, i8, i16, i64, i128, isize, u8, u16, u32, u64, u128, usize)
} }
