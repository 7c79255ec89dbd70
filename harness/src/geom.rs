//! Generators of data sets, boxes, queries, leaf sizes, constructors and pools.
use crate::engine::{Draw, Rng, Src};
use crate::scalar::Sc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Size {
    /// 1..=200 points
    Small,
    /// 200..=3000
    Mid,
    /// around and above the approximate-median threshold: 99_900..=260_000
    Big,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Range {
    /// magnitudes around 1e-6..1e6
    Normal,
    /// any magnitude whose square neither overflows nor underflows
    Wide,
    /// any finite value
    Extreme,
}

#[derive(Clone)]
pub struct Data<T> {
    pub d: usize,
    pub n: usize,
    pub v: Vec<T>,
    pub layout: &'static str,
    pub order: &'static str,
}
impl<T: Sc> Data<T> {
    pub fn row(&self, i: usize) -> &[T] {
        &self.v[i * self.d..(i + 1) * self.d]
    }
    pub fn max(&self, a: usize) -> T {
        (0..self.n).map(|i| self.v[i * self.d + a]).fold(T::of(f64::MIN), |m, x| if x.f() > m.f() { x } else { m })
    }
    pub fn min(&self, a: usize) -> T {
        (0..self.n).map(|i| self.v[i * self.d + a]).fold(T::of(f64::MAX), |m, x| if x.f() < m.f() { x } else { m })
    }
    pub fn show(&self) -> String {
        if self.v.len() <= 60 {
            format!("{} {}d n={} {}/{} data={:?}", T::NAME, self.d, self.n, self.layout, self.order,
                (0..self.n).map(|i| self.row(i).to_vec()).collect::<Vec<_>>())
        } else {
            format!("{} {}d n={} {}/{} first={:?}", T::NAME, self.d, self.n, self.layout, self.order, self.row(0))
        }
    }
}

pub fn gen_n(src: &mut Src, size: Size) -> usize {
    match size {
        Size::Small => match src.weighted(&[3, 4, 6, 3, 1]) {
            0 => src.range(1, 4),
            1 => src.range(1, 12),
            2 => src.range(1, 48),
            3 => src.range(1, 200),
            _ => around_power(src, 3, 7),
        },
        Size::Mid => match src.weighted(&[44, 4, 2, 1]) {
            0 => src.range(200, 3000),
            1 => around_power(src, 8, 12),
            2 => src.range(3000, 40_000),
            _ => if src.below(3) == 0 { src.range(40_000, 99_989) } else { around_power(src, 13, 15) },
        },
        Size::Big => match src.weighted(&[2, 3]) {
            0 => src.range(99_990, 100_040),
            _ => src.range(100_000, 260_000),
        },
    }
}

fn around_power(src: &mut Src, lo: usize, hi: usize) -> usize {
    (1 << src.range(lo, hi)) + 1 - src.below(3) as usize
}

fn pow(b: f64, e: i64) -> f64 {
    b.powi(e as i32)
}

const LAYOUTS: [&str; 13] = [
    "lattice", "uniform", "clustered", "shared-coordinates", "line", "few-distinct", "wide", "offset",
    "grid-jitter", "sphere", "outlier", "constant-axis", "skewed",
];

struct Params {
    layout: usize,
    m: u64,
    spread: f64,
    scale: f64,
    off: Vec<f64>,
    dir: Vec<f64>,
    centers: Vec<Vec<f64>>,
    cv: usize,
    range: Range,
    emin: i64,
    emax: i64,
}

fn point<T: Sc, G: Draw>(g: &mut G, p: &Params, d: usize, i: usize, n: usize) -> Vec<f64> {
    let mut r: Vec<f64> = match p.layout {
        0 => (0..d).map(|_| g.below(p.m) as f64).collect(),
        2 => {
            let c = &p.centers[g.below(p.centers.len() as u64) as usize];
            (0..d).map(|a| c[a] + p.spread * (g.unit() - 0.5)).collect()
        }
        3 => (0..d).map(|a| p.centers[g.below(p.centers.len() as u64) as usize][a]).collect(),
        4 => {
            let t = g.below(2 * n as u64) as f64 / n as f64;
            (0..d).map(|a| t * p.dir[a] + p.spread * 1e-3 * g.unit() * ((p.m % 2) as f64)).collect()
        }
        5 => p.centers[g.below(p.centers.len() as u64) as usize].clone(),
        6 => (0..d)
            .map(|_| {
                let e = p.emin + g.below((p.emax - p.emin + 1) as u64) as i64;
                let s = if g.below(2) == 0 { 1.0 } else { -1.0 };
                match (p.range, g.below(12)) {
                    (_, 0) => 0.0,
                    (Range::Extreme, 1) => s * T::MAX,
                    (Range::Extreme, 2) => s * T::TINY * g.unit(),
                    _ => s * (1.0 + g.unit()) * 2f64.powi(e as i32),
                }
            })
            .collect(),
        8 => {
            let side = p.m.max(2);
            (0..d).map(|_| g.below(side) as f64 + p.spread * (g.unit() - 0.5)).collect()
        }
        9 => {
            let v: Vec<f64> = (0..d).map(|_| g.unit() - 0.5).collect();
            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt().max(1e-9);
            v.iter().map(|x| 1.0 + x / l).collect()
        }
        10 if i == n / 2 || (p.m > 4 && i == 0) => (0..d).map(|_| 1e3 * (1.0 + g.unit())).collect(),
        10 => (0..d).map(|_| p.spread * g.unit()).collect(),
        11 => (0..d).map(|a| if a == p.cv % d { p.dir[a] } else { g.unit() }).collect(),
        12 => (0..d).map(|_| g.unit().powi(8)).collect(),
        _ => (0..d).map(|_| g.unit()).collect(),
    };
    if p.layout != 6 {
        for a in 0..d {
            r[a] = r[a] * p.scale + p.off[a];
        }
    }
    r
}

/// Layouts 0..13; the first is the simplest. `nonneg`: all coordinates >= +0
pub fn gen_data<T: Sc>(src: &mut Src, d: usize, size: Size, range: Range, nonneg: bool) -> Data<T> {
    let n = gen_n(src, size);
    gen_data_n(src, d, n, range, nonneg)
}
pub fn gen_data_n<T: Sc>(src: &mut Src, d: usize, n: usize, range: Range, nonneg: bool) -> Data<T> {
    let layout = match range {
        Range::Extreme => 6,
        Range::Wide => src.weighted(&[2, 2, 1, 2, 1, 1, 6, 1, 1, 1, 1, 1, 1]),
        Range::Normal => src.weighted(&[5, 5, 4, 3, 2, 2, 0, 2, 3, 2, 2, 2, 2]),
    };
    let m = [2u64, 3, 1, 4, 8, 16, 50, 1000][src.below(8) as usize];
    let spread = pow(10.0, -(src.below(7) as i64));
    let scale = match src.weighted(&[12, 4, 4, 1]) {
        0 => 1.0,
        1 => pow(2.0, src.below(21) as i64 - 10),
        2 => pow(10.0, src.below(9) as i64 - 4),
        // far from one, with squares that neither overflow nor underflow
        _ => {
            let e = if T::MAX > 1e100 { 100 } else { 10 };
            pow(10.0, src.below(2 * e + 1) as i64 - e as i64)
        }
    };
    let offk = if layout == 7 { 1 + src.below(4) } else { src.weighted(&[6, 1, 1]) as u64 };
    let off: Vec<f64> = (0..d)
        .map(|_| if offk == 0 { 0.0 } else { (src.below(201) as f64 - 100.0) * pow(8.0, offk as i64 - 1) * scale })
        .collect();
    let nc = 1 + src.below(5) as usize;
    let explicit = n * d <= 24;
    let bulk = src.below(1 << 32);
    let mut rng = Rng::new(bulk);
    let integral = src.below(2) == 0;
    let centers: Vec<Vec<f64>> = (0..nc)
        .map(|_| (0..d).map(|_| if integral { rng.below(9) as f64 } else { rng.unit() * 4.0 }).collect())
        .collect();
    let dir: Vec<f64> = (0..d).map(|_| rng.below(5) as f64 - 2.0).collect();
    let (emin, emax) = match (range, T::MAX > 1e100) {
        (Range::Extreme, true) => (-1060, 1023),
        (Range::Extreme, false) => (-140, 127),
        (_, true) => (-300, 300),
        (_, false) => (-40, 40),
    };
    let p = Params { layout, m, spread, scale, off, dir, centers, cv: (bulk % 7) as usize, range, emin, emax };
    let mut v: Vec<T> = Vec::with_capacity(n * d);
    for i in 0..n {
        let r = if explicit { point::<T, _>(src, &p, d, i, n) } else { point::<T, _>(&mut rng, &p, d, i, n) };
        v.extend(r.iter().map(|&x| {
            let t = T::of(x.clamp(-T::MAX, T::MAX));
            if t.f() == 0.0 { T::of(0.0) } else { t }
        }));
    }
    let mut data = Data { d, n, v, layout: LAYOUTS[layout], order: "as-is" };
    // order of the input
    match src.weighted(&[10, 2, 2, 4, 4, 1, 1]) {
        1 => sort_rows(&mut data, (bulk % d as u64) as usize, false),
        2 => sort_rows(&mut data, (bulk % d as u64) as usize, true),
        3 => {
            data.order = "palindrome";
            for i in 0..n / 2 {
                let (a, b) = (i * d, (n - 1 - i) * d);
                for c in 0..d {
                    data.v[b + c] = data.v[a + c];
                }
            }
        }
        4 => {
            data.order = "with-copies";
            for _ in 0..=n / 8 {
                let (a, b) = (rng.below(n as u64) as usize * d, rng.below(n as u64) as usize * d);
                for c in 0..d {
                    data.v[b + c] = data.v[a + c];
                }
            }
        }
        // ascending teeth over the whole range, or ascending blocks out of order
        o @ (5 | 6) => {
            sort_rows(&mut data, (bulk % d as u64) as usize, bulk % 3 == 0);
            let teeth = [4, 32, 2, 3, 5, 16, 33, 64, 20, 12][rng.below(10) as usize].min(n);
            let turn = rng.below(teeth as u64) as usize;
            let mut v = Vec::with_capacity(data.v.len());
            for j in 0..teeth {
                let j = (j * 7 + turn) % teeth;
                if o == 5 {
                    (j..n).step_by(teeth).for_each(|i| v.extend_from_slice(data.row(i)));
                } else {
                    (j * n / teeth..(j + 1) * n / teeth).for_each(|i| v.extend_from_slice(data.row(i)));
                }
            }
            data.order = if o == 5 { "teeth" } else { "blocks" };
            // seven need not go into the number of blocks
            if v.len() == data.v.len() {
                data.v = v;
            }
        }
        _ => {}
    }
    if nonneg {
        let lo: Vec<f64> = (0..d).map(|a| data.min(a).f()).collect();
        let gap = src.below(3) == 0;
        for i in 0..n {
            for a in 0..d {
                let x = &mut data.v[i * d + a];
                let y = if layout == 6 { x.f().abs() } else if gap && lo[a] > 0.0 { x.f() } else { x.f() - lo[a] };
                let y = T::of(y.clamp(0.0, T::MAX));
                *x = if y.f() == 0.0 { T::of(0.0) } else { y };
            }
        }
    }
    // zeros of either sign are the same number
    if src.weighted(&[7, 1]) == 1 {
        for x in data.v.iter_mut().filter(|x| x.f() == 0.0) {
            *x = T::of(if rng.below(2) == 0 { -0.0 } else { 0.0 });
        }
    }
    data
}

fn sort_rows<T: Sc>(data: &mut Data<T>, a: usize, rev: bool) {
    let d = data.d;
    let mut rows: Vec<Vec<T>> = (0..data.n).map(|i| data.row(i).to_vec()).collect();
    rows.sort_by(|x, y| x[a].f().partial_cmp(&y[a].f()).unwrap());
    if rev {
        rows.reverse();
    }
    data.order = if rev { "descending" } else { "ascending" };
    data.v = rows.concat();
    debug_assert_eq!(data.v.len(), data.n * d);
}

/// A box that contains the data (data must be non-negative)
pub fn gen_box<T: Sc>(src: &mut Src, data: &Data<T>) -> Vec<T> {
    let kind = src.weighted(&[3, 2, 3, 3, 1, 1]);
    let all = (0..data.d).map(|a| data.max(a).f()).fold(0.0, f64::max);
    (0..data.d)
        .map(|a| {
            let m = data.max(a);
            let l = match kind {
                0 => m.f() * (1.0 + 0.25 * src.unit()),
                1 => m.f(),
                2 => m.f() * (1.0 + src.below(4) as f64),
                3 => all * 1.0625,
                4 => m.f() * 100.0,
                _ => m.f() + 1.0 + src.below(8) as f64,
            };
            let l = if l == 0.0 { T::of(if all > 0.0 { all } else { 1.0 }) } else { T::of(l) };
            // rounding may have gone below the largest coordinate
            let l = if l.f() < m.f() { m } else { l };
            // lengths whose half is exact and whose wrap does not overflow
            if l.f() < T::TINY * 1e6 { T::of(T::TINY * 1e6).max(m) } else { l }
        })
        .collect()
}

/// A finite query point; with a box, inside the box
pub fn gen_query<T: Sc, S: Draw>(src: &mut S, data: &Data<T>, bx: Option<&[T]>, range: Range) -> Vec<T> {
    let d = data.d;
    let n = data.n as u64;
    let pick = |src: &mut S| data.row(src.below(n) as usize).to_vec();
    let kind = match range {
        Range::Normal => src.weighted(&[3, 4, 3, 4, 3, 3, 2, 1]),
        _ => src.weighted(&[3, 4, 3, 4, 3, 3, 2, 3]),
    };
    let mut q: Vec<T> = match kind {
        // a data point
        0 => pick(src),
        // near a data point
        1 => {
            let p = pick(src);
            let e = pow(10.0, -(src.below(12) as i64));
            p.iter()
                .map(|x| match src.below(5) {
                    0 => *x,
                    1 => T::of(x.f() + e * (src.unit() - 0.5)),
                    2 => x.next_up(),
                    3 => x.next_down(),
                    _ => T::of(x.f() * (1.0 + e)),
                })
                .collect()
        }
        // between two data points
        2 => {
            let (a, b) = (pick(src), pick(src));
            (0..d).map(|i| T::of(a[i].f() * 0.5 + b[i].f() * 0.5)).collect()
        }
        // coordinates of different data points: on split planes
        3 => (0..d).map(|a| data.v[src.below(n) as usize * d + a]).collect(),
        // in (or a bit outside) the bounding box of some points
        4 => {
            let (a, b) = (pick(src), pick(src));
            let s = [1.0, 1.5, 4.0][src.below(3) as usize];
            (0..d)
                .map(|i| {
                    let u = (src.unit() - 0.5) * s + 0.5;
                    T::of(a[i].f() * (1.0 - u) + b[i].f() * u)
                })
                .collect()
        }
        // far outside
        5 => {
            let f = pow(10.0, src.below(7) as i64);
            let p = pick(src);
            p.iter().map(|x| T::of(x.f() + f * (src.below(5) as f64 - 2.0))).collect()
        }
        // small lattice points and halves
        6 => (0..d).map(|_| T::of(src.below(33) as f64 * 0.5 - 4.0)).collect(),
        // any magnitude
        _ => (0..d)
            .map(|_| {
                let emax = match (range, T::MAX > 1e100) {
                    (Range::Extreme, true) => 1023,
                    (Range::Extreme, false) => 127,
                    (Range::Wide, true) => 300,
                    (Range::Wide, false) => 40,
                    _ => 20,
                };
                let e = src.below(2 * emax + 1) as i32 - emax as i32;
                let s = [0.0, 1.0, -1.0][src.below(3) as usize];
                T::of(s * (1.0 + src.unit()) * 2f64.powi(e))
            })
            .collect(),
    };
    let lim = match (range, T::MAX > 1e100) {
        (Range::Extreme, _) => T::MAX,
        (_, true) => 2f64.powi(301),
        (_, false) => 2f64.powi(41),
    };
    for x in q.iter_mut() {
        *x = T::of(if x.f().is_nan() { 0.0 } else { x.f().clamp(-lim, lim) });
    }
    if let Some(b) = bx {
        for a in 0..d {
            let l = b[a].f();
            let x = q[a].f();
            let y = match src.weighted(&[6, 2, 1, 1, 1, 1]) {
                // wrapped into the box
                0 => {
                    if (0.0..=l).contains(&x) { x } else { x.rem_euclid(l) }
                }
                // close to a face
                1 => {
                    let e = l * pow(10.0, -(1 + src.below(6) as i64)) * src.unit();
                    if src.below(2) == 0 { e } else { l - e }
                }
                2 => 0.0,
                3 => l,
                4 => l * 0.5,
                _ => l * src.unit(),
            };
            let t = T::of(y.clamp(0.0, l));
            let t = if t.f() > l { b[a] } else { t };
            q[a] = if t.f() == 0.0 { T::of(if src.below(6) == 5 { -0.0 } else { 0.0 }) } else { t };
        }
    }
    q
}

pub fn gen_leafsize(src: &mut Src, n: usize) -> usize {
    match src.weighted(&[6, 3, 3, 2, 1, 1, 1, 1, 1]) {
        0 => src.range(1, 4),
        1 => src.range(1, 16),
        2 => [16, 32, 8, 64][src.below(4) as usize],
        3 => src.range(1, n),
        4 => n - 1,
        5 => n,
        6 => n + 1,
        7 => 0,
        _ => [usize::MAX, n.saturating_mul(2), 1 << 20][src.below(3) as usize],
    }
}

/// None: serial constructor. The deepest split levels only for small data (they start a thread per node).
pub fn gen_par(src: &mut Src, n: usize) -> Option<usize> {
    match src.weighted(&[4, 4, 1]) {
        0 => None,
        1 => Some(src.below(4) as usize),
        _ if n <= 60 => Some([4, 6, 9, 64, usize::MAX][src.below(5) as usize]),
        _ => Some([4, 5, 4, 5, 6, 7, 8][src.below(7) as usize]),
    }
}

const POOLS: [usize; 10] = [0, 2, 1, 3, 4, 5, 8, 16, 24, 70];
/// 0: no explicit pool (the caller is outside of any pool)
pub fn gen_pool(src: &mut Src) -> usize {
    src.weighted(&[20, 6, 6, 2, 4, 2, 4, 2, 1, 1])
}
pub fn pool_size(p: usize) -> usize {
    POOLS[p]
}
pub fn in_pool<R: Send>(p: usize, f: impl FnOnce() -> R + Send) -> R {
    use std::sync::OnceLock;
    static P: [OnceLock<rayon::ThreadPool>; 10] = [const { OnceLock::new() }; 10];
    if p == 0 {
        return f();
    }
    P[p].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(POOLS[p]).build().expect("pool")).install(f)
}
