//! An instrumented user-side point type with a scalar type distinct from the native float.
//! It counts every arithmetic operation, comparison and axis access the library performs through the
//! `Point` / `Float` traits, enforces a step budget per call (a loop that does not end becomes a panic, decided on
//! logical steps) and refuses axis indices outside the dimension.
use crate::curves::HPoint;
use crate::{Co, F};
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static AXES: Cell<u64> = const { Cell::new(0) };
    static MAX_AXIS: Cell<usize> = const { Cell::new(0) };
}
/// start counting; more than `budget` steps panic
pub fn arm(budget: u64) {
    STEPS.with(|s| s.set(0));
    AXES.with(|s| s.set(0));
    MAX_AXIS.with(|s| s.set(0));
    BUDGET.with(|s| s.set(budget));
}
/// (arithmetic steps, axis reads, largest axis index read + 1) since `arm`
pub fn disarm() -> (u64, u64, usize) {
    BUDGET.with(|s| s.set(u64::MAX));
    (STEPS.with(|s| s.get()), AXES.with(|s| s.get()), MAX_AXIS.with(|s| s.get()))
}
#[inline]
fn step() {
    let n = STEPS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if n > BUDGET.with(|b| b.get()) {
        BUDGET.with(|b| b.set(u64::MAX));
        panic!("step budget of the call exceeded: the operation does not terminate within its arithmetic bound");
    }
}

/// No `Debug`, `AddAssign`, `Sum<Self>` or anything else the trait does not ask for.
#[derive(Clone, Copy, Default)]
pub struct PF(pub F);
impl PartialEq for PF {
    fn eq(&self, o: &PF) -> bool {
        step();
        self.0 == o.0
    }
}
impl PartialOrd for PF {
    fn partial_cmp(&self, o: &PF) -> Option<Ordering> {
        step();
        self.0.partial_cmp(&o.0)
    }
}
impl From<F> for PF {
    fn from(x: F) -> PF {
        PF(x)
    }
}
impl From<PF> for F {
    fn from(x: PF) -> F {
        x.0
    }
}
macro_rules! ops {
    ($($T:ident $f:ident;)+) => {$(
        impl $T<PF> for PF { type Output = PF; fn $f(self, o: PF) -> PF { step(); PF(self.0.$f(o.0)) } }
        impl $T<F> for PF { type Output = PF; fn $f(self, o: F) -> PF { step(); PF(self.0.$f(o)) } }
    )+};
}
ops! { Add add; Sub sub; Mul mul; Div div; Rem rem; }
impl Neg for PF {
    type Output = PF;
    fn neg(self) -> PF {
        step();
        PF(-self.0)
    }
}
impl std::iter::Sum<F> for PF {
    fn sum<I: Iterator<Item = F>>(it: I) -> PF {
        it.fold(PF(0.0), |a, b| a + b)
    }
}
impl Zero for PF {
    fn zero() -> PF {
        PF(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for PF {
    fn one() -> PF {
        PF(1.0)
    }
}
impl ToPrimitive for PF {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.0.to_f64()
    }
    fn to_f32(&self) -> Option<f32> {
        self.0.to_f32()
    }
}
impl NumCast for PF {
    fn from<T: ToPrimitive>(n: T) -> Option<PF> {
        <F as NumCast>::from(n).map(PF)
    }
}
impl Num for PF {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<PF, ()> {
        Err(())
    }
}
macro_rules! un { ($($f:ident)+) => {$( fn $f(self) -> PF { step(); PF(F::$f(self.0)) } )+} }
macro_rules! bin { ($($f:ident)+) => {$( fn $f(self, o: PF) -> PF { step(); PF(F::$f(self.0, o.0)) } )+} }
macro_rules! is { ($($f:ident)+) => {$( fn $f(self) -> bool { step(); F::$f(self.0) } )+} }
impl Float for PF {
    fn nan() -> PF {
        PF(F::NAN)
    }
    fn infinity() -> PF {
        PF(F::INFINITY)
    }
    fn neg_infinity() -> PF {
        PF(F::NEG_INFINITY)
    }
    fn neg_zero() -> PF {
        PF(-0.0)
    }
    fn min_value() -> PF {
        PF(F::MIN)
    }
    fn min_positive_value() -> PF {
        PF(F::MIN_POSITIVE)
    }
    fn epsilon() -> PF {
        PF(F::EPSILON)
    }
    fn max_value() -> PF {
        PF(F::MAX)
    }
    is! { is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative }
    fn classify(self) -> FpCategory {
        self.0.classify()
    }
    un! { floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt
    sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh }
    bin! { powf log max min hypot atan2 copysign }
    fn abs_sub(self, o: PF) -> PF {
        step();
        PF((self.0 - o.0).max(0.0))
    }
    fn mul_add(self, a: PF, b: PF) -> PF {
        step();
        PF(self.0.mul_add(a.0, b.0))
    }
    fn powi(self, n: i32) -> PF {
        step();
        PF(self.0.powi(n))
    }
    fn sin_cos(self) -> (PF, PF) {
        step();
        let (a, b) = self.0.sin_cos();
        (PF(a), PF(b))
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.0)
    }
}

/// what iterating a probe point yields: one opaque token per axis, no coordinate
pub struct Token(());

/// Carries more than its coordinates: neither the size nor the alignment of a point says anything about its dimension.
#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct Probe<const N: usize> {
    _tag: [u8; 3],
    c: [PF; N],
    _spare: [PF; 5],
}
impl<const N: usize> Default for Probe<N> {
    fn default() -> Self {
        Probe { _tag: [7; 3], c: [PF(0.0); N], _spare: [PF(F::NAN); 5] }
    }
}
impl<const N: usize> PartialEq for Probe<N> {
    fn eq(&self, o: &Self) -> bool {
        (0..N).all(|i| self.c[i] == o.c[i])
    }
}
impl<const N: usize> Add for Probe<N> {
    type Output = Self;
    fn add(mut self, o: Self) -> Self {
        for i in 0..N {
            self.c[i] = self.c[i] + o.c[i];
        }
        self
    }
}
impl<const N: usize> Sub for Probe<N> {
    type Output = Self;
    fn sub(mut self, o: Self) -> Self {
        for i in 0..N {
            self.c[i] = self.c[i] - o.c[i];
        }
        self
    }
}
impl<const N: usize> Mul<PF> for Probe<N> {
    type Output = Self;
    fn mul(mut self, o: PF) -> Self {
        for i in 0..N {
            self.c[i] = self.c[i] * o;
        }
        self
    }
}
impl<const N: usize> Mul<F> for Probe<N> {
    type Output = Self;
    fn mul(mut self, o: F) -> Self {
        for i in 0..N {
            self.c[i] = self.c[i] * o;
        }
        self
    }
}
impl<const N: usize> IntoIterator for Probe<N> {
    type Item = Token;
    type IntoIter = std::array::IntoIter<Token, N>;
    fn into_iter(self) -> Self::IntoIter {
        [(); N].map(Token).into_iter()
    }
}
impl<const N: usize> stroke::Point for Probe<N> {
    type Scalar = PF;
    const DIM: usize = N;
    fn axis(&self, index: usize) -> PF {
        step();
        AXES.with(|a| a.set(a.get() + 1));
        MAX_AXIS.with(|m| m.set(m.get().max(index + 1)));
        assert!(index < N, "axis {index} of a {N}-dimensional point requested");
        self.c[index]
    }
    fn squared_length(&self) -> PF {
        let mut s = PF(0.0);
        for x in self.c {
            s = s + x * x;
        }
        s
    }
}
impl<const N: usize> HPoint for Probe<N> {
    fn mk(c: &[F]) -> Self {
        let mut p = Probe::default();
        for (x, y) in p.c.iter_mut().zip(c) {
            *x = PF(*y);
        }
        p
    }
    fn co(&self) -> Co {
        self.c.iter().map(|x| x.0).collect()
    }
}
