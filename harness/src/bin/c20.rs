//! C20: component-wise point arithmetic.
use harness::{curves::sc, mon::*, probe::PF, rng::Rng, EPS, F, IS32};
use stroke::{Point, PointN};

trait T:
    Copy + Default + PartialOrd + std::ops::Add<Output = Self> + std::ops::Sub<Output = Self> + std::ops::Mul<Output = Self>
{
    fn draw(r: &mut Rng) -> Self;
    fn id(self) -> u64;
    fn show(self) -> String;
}
fn shw<X: T>(v: &[X]) -> String {
    v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")
}
macro_rules! tfloat {
    ($t:ty) => {
        impl T for $t {
            fn draw(r: &mut Rng) -> Self {
                match r.below(12) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => <$t>::NAN,
                    3 => <$t>::INFINITY,
                    4 => <$t>::NEG_INFINITY,
                    5 => <$t>::MIN_POSITIVE * 0.5,
                    6 => 1.0,
                    7 => r.range(-3, 3) as $t,
                    8 => (r.sym() * 10f64.powi(r.range(-20, 20) as i32)) as $t,
                    _ => (r.sym() * 10.0) as $t,
                }
            }
            fn id(self) -> u64 {
                if self.is_nan() {
                    u64::MAX
                } else {
                    (self as f64).to_bits()
                }
            }
            fn show(self) -> String {
                format!("{self:?}")
            }
        }
    };
}
tfloat!(f64);
tfloat!(f32);
impl T for i32 {
    fn draw(r: &mut Rng) -> Self {
        r.range(-1000, 1000) as i32
    }
    fn id(self) -> u64 {
        self as u64
    }
    fn show(self) -> String {
        self.to_string()
    }
}
impl T for PF {
    fn draw(r: &mut Rng) -> Self {
        PF(F::draw(r))
    }
    fn id(self) -> u64 {
        self.0.id()
    }
    fn show(self) -> String {
        self.0.show()
    }
}
fn ids<X: T, const N: usize>(p: PointN<X, N>) -> Vec<u64> {
    let it = lib_call("PointN::into_iter", || p.into_iter());
    it.map(|x| x.id()).collect()
}
fn mutate<X: T, const N: usize>(p: &mut PointN<X, N>, f: impl Fn(usize, &mut X)) -> usize {
    let it = lib_call("PointN::iter_mut", || p.into_iter());
    let mut n = 0;
    for x in it {
        f(n, x);
        n += 1;
    }
    n
}
fn arith<X: T, const N: usize>(c: &mut Case, name: &'static str) {
    c.cover(name);
    let mut a = [X::default(); N];
    let mut b = [X::default(); N];
    for i in 0..N {
        a[i] = X::draw(&mut c.rng);
        b[i] = X::draw(&mut c.rng);
    }
    let s = X::draw(&mut c.rng);
    let (pa, pb) = (PointN::new(a), PointN::new(b));
    let what = || format!("PointN<{name}, {N}> a=({}) b=({}) s={}", shw(&a), shw(&b), s.show());
    let want = |f: &dyn Fn(usize) -> X| -> Vec<u64> { (0..N).map(|i| f(i).id()).collect() };
    macro_rules! eqv {
        ($class:literal, $got:expr, $f:expr) => {{
            let g = ids($got);
            let w = want(&$f);
            c.check(g == w, $class, || format!("{} of {}", $class, what()));
        }};
    }
    eqv!("new", pa, |i| a[i]);
    eqv!("add", lib_call("PointN::add", || pa + pb), |i| a[i] + b[i]);
    eqv!("sub", lib_call("PointN::sub", || pa - pb), |i| a[i] - b[i]);
    eqv!("add-scalar", lib_call("PointN::add_scalar", || pa + s), |i| a[i] + s);
    eqv!("sub-scalar", lib_call("PointN::sub_scalar", || pa - s), |i| a[i] - s);
    eqv!("mul", lib_call("PointN::mul", || pa * s), |i| a[i] * s);
    eqv!("default", lib_call("PointN::default", || PointN::<X, N>::default()), |_| X::default());
    // operands are unchanged
    eqv!("operand", pa, |i| a[i]);
    eqv!("operand", pb, |i| b[i]);
    // equality
    let mut e = a;
    let k = c.rng.below(N + 1);
    let differs = k < N && c.rng.chance(0.5);
    if differs {
        e[k] = X::draw(&mut c.rng);
        c.cover(if k == 0 { "differs:first" } else if k == N - 1 { "differs:last" } else { "differs:inner" });
    }
    let pe = PointN::new(e);
    let eq = lib_call("PointN::eq", || pa == pe);
    let ne = lib_call("PointN::ne", || pa != pe);
    let expect = (0..N).all(|i| a[i] == e[i]);
    c.cover(if expect { "eq:true" } else { "eq:false" });
    c.check(eq == expect && ne != expect, "eq", || format!("== is {eq}, != is {ne} for ({}): {}", shw(&e), what()));
    let ab = lib_call("PointN::eq", || pa == pb);
    c.check(ab == (0..N).all(|i| a[i] == b[i]), "eq", || format!("a == b is {ab}: {}", what()));
    let aa = lib_call("PointN::eq", || pa == pa);
    c.check(aa == (0..N).all(|i| a[i] == a[i]), "eq", || format!("a == a is {aa}: {}", what()));
    // mutable iteration
    let mut m = pa;
    let j = c.rng.below(N);
    let n = mutate(&mut m, |i, x| {
        if i == j {
            *x = s;
        }
    });
    c.check(n == N, "iter-mut", || format!("mutable iteration visits {n} components: {}", what()));
    eqv!("iter-mut", m, |i| if i == j { s } else { a[i] });
    let mut m = pa;
    mutate(&mut m, |i, x| *x = b[i]);
    eqv!("iter-mut-all", m, |i| b[i]);
    // iteration by value from both ends and its length
    let it = pa.into_iter();
    c.check(it.len() == N, "iter", || format!("iterator length {}: {}", it.len(), what()));
    let back: Vec<u64> = it.rev().map(|x| x.id()).collect();
    let mut w = want(&|i| a[i]);
    w.reverse();
    c.check(back == w, "iter", || format!("reversed iteration of {}", what()));
    c.nontrivial(w.iter().fold(N as u64, |h, x| (h ^ x).wrapping_mul(0x100000001b3) ^ (h >> 31)));
    if c.want_sample() {
        c.sample(what());
    }
}
fn point<X: T + Into<F> + From<F>, const N: usize>(c: &mut Case, name: &'static str)
where
    PointN<X, N>: Point<Scalar = F>,
{
    c.cover(name);
    let mut a = [X::default(); N];
    let hostile = c.rng.chance(0.3);
    for x in a.iter_mut() {
        *x = if hostile { X::draw(&mut c.rng) } else { X::from((c.rng.sym() * 10f64.powi(c.rng.range(-6, 6) as i32)) as F) };
    }
    let p = PointN::new(a);
    let what = || format!("PointN<{name}, {N}> ({})", shw(&a));
    c.check(<PointN<X, N> as Point>::DIM == N, "dim", || format!("DIM {}: {}", <PointN<X, N> as Point>::DIM, what()));
    for i in 0..N {
        match lib_try("PointN::axis", || p.axis(i)) {
            Ok(v) => {
                let w: F = a[i].into();
                c.check(v.id() == w.id(), "axis", || format!("axis({i}) = {v:?}: {}", what()));
            }
            Err(e) => c.fail("axis", format!("axis({i}) panicked: {e}: {}", what())),
        }
    }
    let far = if c.rng.chance(0.5) { 1usize << c.rng.below(usize::BITS as usize) } else { 0usize.wrapping_sub(1 << c.rng.below(usize::BITS as usize)) };
    let low = c.rng.below(2 * N);
    for i in [N, N + 1, 2 * N, usize::MAX, N + c.rng.below(70000), far, far | low, far.wrapping_add(low), N.wrapping_mul(far), N.wrapping_mul(far).wrapping_add(low), c.rng.u64() as usize] {
        if i < N {
            continue;
        }
        c.cover("axis:beyond");
        let r = lib_try("PointN::axis", || p.axis(i));
        c.check(r.is_err(), "axis-beyond", || format!("axis({i}) returned {r:?}: {}", what()));
    }
    let sq = lib_call("PointN::squared_length", || p.squared_length());
    let v: Vec<f64> = a.iter().map(|x| { let y: F = (*x).into(); y as f64 }).collect();
    let want: f64 = v.iter().map(|x| x * x).sum();
    let max = F::MAX as f64;
    if want.is_nan() {
        c.check(sq.is_nan(), "squared-length", || format!("{sq:?} instead of NaN: {}", what()));
    } else if v.iter().any(|x| x.is_infinite()) {
        c.check(sq == F::INFINITY, "squared-length", || format!("{sq:?} instead of infinity: {}", what()));
    } else if want < max / 4.0 {
        c.cover("squared-length:finite");
        let tol = want * EPS * (4 + 2 * N) as f64 + if IS32 { 1e-42 } else { 1e-320 } * (N as f64 + 2.0);
        c.check((sq as f64 - want).abs() <= tol, "squared-length", || format!("{sq:?} instead of {want:e}: {}", what()));
    }
    // scaling by the native float through the trait
    let s = F::draw(&mut c.rng);
    let g = ids(lib_call("PointN::mul_native", || p * s));
    let w: Vec<u64> = a.iter().map(|x| { let y: F = (*x).into(); (y * s).id() }).collect();
    c.check(g == w, "mul-native", || format!("times {s:?}: {}", what()));
    let _ = sc::<PointN<F, 1>>(0.0);
}
macro_rules! table {
    ($c:ident, $i:expr, $($N:literal)+) => {{
        let mut k = 0;
        $(
            if $i == k { arith::<f64, $N>($c, "f64"); }
            if $i == k + 1 { arith::<f32, $N>($c, "f32"); }
            if $i == k + 2 { arith::<i32, $N>($c, "i32"); }
            if $i == k + 3 { arith::<PF, $N>($c, "user-scalar"); }
            if $i == k + 4 { point::<F, $N>($c, "native-point"); }
            if $i == k + 5 { point::<PF, $N>($c, "user-scalar-point"); }
            k += 6;
        )+
        let _ = k;
    }};
}
const ROWS: usize = 15 * 6;
fn main() {
    let spec = Spec {
        prop: "C20",
        quick: 1_800_000,
        mult: 40,
        rule: "15 dimensions (1..9, 12, 16, 31, 64, 65, 130) x component types f64, f32, i32 and a user scalar, each combination in turn, with random components including NaN, infinities, signed zeros and subnormals; every operation compared bit by bit with the component operation; distinct by dimension and components, all non-trivial",
        need: &[("f64", 1000), ("f32", 1000), ("i32", 1000), ("user-scalar", 1000), ("native-point", 1000), ("user-scalar-point", 1000), ("eq:true", 1000), ("eq:false", 1000), ("differs:first", 500), ("differs:last", 500), ("differs:inner", 500), ("axis:beyond", 1000), ("squared-length:finite", 1000)],
        no_alloc: false,
    };
    drive(spec, |c| {
        let i = c.idx as usize % ROWS;
        table!(c, i, 1 2 3 4 5 6 7 8 9 12 16 31 64 65 130);
    });
}
