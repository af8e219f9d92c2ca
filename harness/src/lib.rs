#![allow(incomplete_features)]
#![feature(generic_const_exprs)]
pub mod chk;
pub mod curves;
pub mod dd;
pub mod gen;
pub mod mon;
pub mod probe;
pub mod refm;
pub mod rng;
pub mod splines;
pub mod workout;
/// the workload of the program without std, run hosted
#[path = "../../bare/src/work.rs"]
pub mod bare;

/// The scalar the library selects in this configuration.
#[cfg(all(target_pointer_width = "64", not(stroke_verif_f32)))]
pub type F = f64;
#[cfg(all(target_pointer_width = "64", not(stroke_verif_f32)))]
pub const CONFIG: &str = "f64";
#[cfg(all(target_pointer_width = "64", stroke_verif_f32))]
pub type F = f32;
#[cfg(all(target_pointer_width = "64", stroke_verif_f32))]
pub const CONFIG: &str = "f32";
#[cfg(not(target_pointer_width = "64"))]
pub type F = f32;
#[cfg(not(target_pointer_width = "64"))]
pub const CONFIG: &str = "f32-32bit";

pub const IS32: bool = std::mem::size_of::<F>() == 4;
/// machine epsilon of the configuration
pub const EPS: f64 = F::EPSILON as f64;
/// relative tolerance of the oracles: far above accumulated rounding, far below any visible error
pub const RT: f64 = if IS32 { 4e-5 } else { 1e-11 };
/// absolute slack for underflow
pub const TINY: f64 = if IS32 { 1e-36 } else { 1e-290 };
/// the same after squaring and taking the root
pub const TINY_SQ: f64 = if IS32 { 1e-18 } else { 1e-150 };

pub type Co = Vec<F>;
pub fn d(x: F) -> f64 {
    x as f64
}
pub fn show(p: &[F]) -> String {
    let v: Vec<String> = p.iter().map(|x| format!("{:?}", x)).collect();
    format!("({})", v.join(", "))
}
pub fn shows(ps: &[Co]) -> String {
    ps.iter().map(|p| show(p)).collect::<Vec<_>>().join(" ")
}
pub fn hash_f(seed: u64, v: &[F]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for x in v {
        h = (h ^ d(*x).to_bits()).wrapping_mul(0x100000001b3);
        h ^= h >> 29;
    }
    h
}
pub fn hash_ps(seed: u64, ps: &[Co]) -> u64 {
    ps.iter().fold(seed, |h, p| hash_f(h, p))
}
