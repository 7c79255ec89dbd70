//! The properties. Each is a function from a choice sequence to a verdict.
use crate::engine::*;
use crate::geom::*;
use crate::oracle::*;
use crate::scalar::*;
use crate::tree::*;
use std::sync::atomic::Ordering::Relaxed;

pub mod build;
pub mod hist;
pub mod query;
pub mod space;
pub mod units;

/// the most dimensions there are
pub const MANY: usize = 20;

pub fn dim<T: Sc>(src: &mut Src, max: usize) -> usize {
    let ds: Vec<usize> = T::DIMS.iter().copied().filter(|&d| d <= max).collect();
    let w: Vec<u64> = (0..ds.len()).map(|i| if i < 3 { 4 } else { 2 }).collect();
    ds[src.weighted(&w)]
}

/// Dispatch on the float type: f64, f32 or (if `counted`) the instrumented double under a budget of
/// arithmetic operations far beyond what a small case needs, so that endless loops end.
pub fn typed(src: &mut Src, info: &mut Info, counted: bool,
    f: fn(&mut Src, &mut Info) -> Res, g: fn(&mut Src, &mut Info) -> Res, c: fn(&mut Src, &mut Info) -> Res) -> Res {
    match src.weighted(&[10, 7, if counted { 2 } else { 0 }]) {
        0 => {
            info.label(true, "f64");
            f(src, info)
        }
        1 => {
            info.label(true, "f32");
            g(src, info)
        }
        _ => {
            info.label(true, "f64-with-budget");
            OPS.store(0, Relaxed);
            BUDGET.store(200_000_000, Relaxed);
            let r = c(src, info);
            BUDGET.store(u64::MAX, Relaxed);
            r
        }
    }
}

pub fn err<T: Sc>(what: &str, r: Er<T>) -> String {
    format!("{what} failed: {r:?}")
}

/// `T::build` in pool `p`
pub fn build_in<'t, T: Build>(p: usize, data: &'t Data<T>, leafsize: usize, par: Option<usize>) -> Result<Bx<'t, T>, String> {
    in_pool(p, || T::build(data.d, &data.v, leafsize, par)).map_err(|e| err("building from finite data", e))
}

pub fn classify<T: Sc>(info: &mut Info, data: &Data<T>, leafsize: usize, par: Option<usize>, bx: Option<&[T]>) {
    info.label(true, data.layout);
    info.label(data.order != "as-is", data.order);
    info.label(data.n == 1, "n=1");
    info.label(data.n <= leafsize, "root-is-leaf");
    info.label(data.n >= 100_000, "n>=100000");
    info.label(leafsize == 0, "leafsize=0");
    info.label(par.is_some(), "parallel-build");
    info.label(bx.is_some(), "box");
    info.label(true, match data.d { 1 => "D=1", 2 => "D=2", 3 => "D=3", 4..=6 => "D=4..6", _ => "D>=8" });
}

pub fn show<T: Sc>(data: &Data<T>, leafsize: usize, par: Option<usize>, bx: Option<&[T]>) -> String {
    format!("{} leafsize={leafsize} {}{}", data.show(),
        match par { None => "serial build".into(), Some(l) => format!("parallel build (level {l})") },
        match bx { None => String::new(), Some(b) => format!(" box={b:?}") })
}

#[cfg(feature = "lite")]
pub fn table(prop: &str, profile: &str) -> Option<CaseFn> {
    Some(match (prop, profile) {
        ("C11", "small") => query::c11_small,
        ("C11", "mid") => query::c11_mid,
        _ => return None,
    })
}
#[cfg(not(feature = "lite"))]
pub fn table(prop: &str, profile: &str) -> Option<CaseFn> {
    Some(match (prop, profile) {
        ("C01", "small") => query::c01_small,
        ("C01", "mid") => query::c01_mid,
        ("C01", "big") => query::c01_big,
        ("C02", "small") => query::c02_small,
        ("C02", "mid") => query::c02_mid,
        ("C02", "big") => query::c02_big,
        ("C03", "small") => query::c03_small,
        ("C03", "mid") => query::c03_mid,
        ("C03", "big") => query::c03_big,
        ("C04", "small") => query::c04_small,
        ("C04", "mid") => query::c04_mid,
        ("C04", "big") => query::c04_big,
        ("C04", "with") => query::c04_with,
        ("C05", "small") => query::c05_small,
        ("C05", "with") => query::c05_with,
        ("C05", "mid") => query::c05_mid,
        ("C05", "big") => query::c05_big,
        ("C06", "small") => query::c06_small,
        ("C06", "mid") => query::c06_mid,
        ("C06", "big") => query::c06_big,
        ("C07", "small") => build::c07_small,
        ("C07", "mid") => build::c07_mid,
        ("C07", "big") => build::c07_big,
        ("C08", "small") => build::c08_small,
        ("C08", "mid") => build::c08_mid,
        ("C08", "big") => build::c08_big,
        ("C08", "schedule") => build::c08_schedule,
        ("C09", "small") => units::c09_small,
        ("C09", "large") => units::c09_large,
        ("C10", "small") => units::c10_small,
        ("C10", "large") => units::c10_large,
        ("C11", "small") => query::c11_small,
        ("C11", "mid") => query::c11_mid,
        ("C12", "small") => hist::c12_small,
        ("C12", "big") => hist::c12_big,
        ("C13", "small") => hist::c13,
        ("C14", "small") => build::c14_small,
        ("C14", "big") => build::c14_big,
        ("C14", "adversary") => build::c14_adversary,
        ("C15", "depth") => build::c15_depth,
        ("C15", "depthbig") => build::c15_depth_big,
        ("C15", "queries") => build::c15_queries,
        ("C16", "small") => units::c16,
        ("C19", "small") => hist::c19_small,
        ("C19", "mid") => hist::c19_mid,
        ("C20", "small") => space::c20_small,
        ("C20", "mid") => space::c20_mid,
        _ => return None,
    })
}
