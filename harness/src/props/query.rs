//! C01-C06, C11: what queries return.
use super::*;

/// A generated tree specification
pub struct Spec<T> {
    pub data: Data<T>,
    pub leafsize: usize,
    pub par: Option<usize>,
    pub bx: Option<Vec<T>>,
    pub pool: usize,
}
impl<T: Build> Spec<T> {
    pub fn gen(src: &mut Src, info: &mut Info, maxd: usize, size: Size, range: Range, boxed: bool) -> Self {
        let d = dim::<T>(src, maxd);
        let data = gen_data::<T>(src, d, size, range, boxed);
        let leafsize = gen_leafsize(src, data.n);
        let leafsize = if size != Size::Small && leafsize > data.n / 4 && src.below(4) > 0 { 16 } else { leafsize };
        let par = gen_par(src, data.n);
        let par = if size == Size::Big { par.map(|l| l.min(5)) } else { par };
        let bx = boxed.then(|| gen_box(src, &data));
        let pool = gen_pool(src);
        classify(info, &data, leafsize, par, bx.as_deref());
        info.desc = show(&data, leafsize, par, bx.as_deref());
        Spec { data, leafsize, par, bx, pool }
    }
    pub fn tree(&self) -> Result<Bx<'_, T>, String> {
        let t = build_in(self.pool, &self.data, self.leafsize, self.par)?;
        match &self.bx {
            Some(b) => t.set_box(b).map_err(|e| err("setting a box that contains the data", e)),
            None => Ok(t),
        }
    }
    /// so many queries that the case takes a second or two at most
    fn affordable(&self, nq: usize) -> usize {
        let (n, d) = (self.data.n, self.data.d);
        let images = if self.bx.is_some() { 1 << d.min(10) } else { 1 };
        // where nearly everything is searched
        let work = if d > 5 || self.leafsize > 400 { n * d * images } else { (n / 16).min(1000) * images };
        let most = (100_000_000 / work.max(1)).max(12);
        if nq > most { 1 + nq % most } else { nq }
    }
    /// one of so many rows is checked by brute force
    fn step(&self, nq: usize) -> usize {
        let images = if self.bx.is_some() { 1 << self.data.d.min(10) } else { 1 };
        let rows = (4_000_000 / (self.data.n * images * self.data.d)).clamp(3, 100);
        (nq / rows).max(1)
    }
    pub fn orc(&self) -> Orc<'_, T> {
        Orc::new(&self.data, self.bx.as_deref())
    }
}

fn pick_range(src: &mut Src) -> Range {
    if src.weighted(&[5, 1]) == 0 { Range::Normal } else { Range::Wide }
}

fn one<T: Build>(src: &mut Src, info: &mut Info, size: Size, boxed: bool) -> Res {
    let range = if boxed || size == Size::Big { Range::Normal } else { pick_range(src) };
    let maxd = if !boxed { MANY } else { match size { Size::Small => 12, Size::Mid => 5, Size::Big => 3 } };
    let s = Spec::<T>::gen(src, info, maxd, size, range, boxed);
    let t = s.tree()?;
    let o = s.orc();
    let nq = match size { Size::Small => 1 + src.below(6), Size::Mid => 25, Size::Big => 60 };
    let mut via_image = 0;
    for i in 0..nq {
        let q = gen_query(src, &s.data, s.bx.as_deref(), range);
        let r = t.q1(&q).map_err(|e| err(&format!("query at {q:?}"), e))?;
        o.check_one(&q, &r)?;
        if i < 3 {
            info.desc += &format!(" q={q:?}");
        }
        if boxed {
            let i = r.i[0] as usize;
            let row = s.data.row(i);
            let crossed = (0..s.data.d).filter(|&a| (q[a].f() - row[a].f()).abs() > s.bx.as_ref().unwrap()[a].f() * 0.5).count();
            via_image = via_image.max(crossed);
        }
        let row = s.data.row(r.i[0] as usize);
        info.label((0..s.data.d).all(|a| row[a].f() == q[a].f()), "query-on-data-point");
    }
    info.label(via_image == 1, "neighbour-through-face");
    info.label(via_image == 2, "neighbour-through-edge");
    info.label(via_image >= 3, "neighbour-through-corner");
    info.nontrivial = if boxed { via_image > 0 } else { s.data.n > s.leafsize };
    Ok(())
}
#[cfg(feature = "lite")]
pub type Counted = f64;
#[cfg(not(feature = "lite"))]
pub type Counted = Cf;
macro_rules! inst {
    ($name:ident, $counted:expr, $f:ident $(, $a:expr)*) => {
        pub fn $name(src: &mut Src, info: &mut Info) -> Res {
            typed(src, info, $counted, |s, i| $f::<f64>(s, i $(, $a)*), |s, i| $f::<f32>(s, i $(, $a)*), |s, i| $f::<crate::props::query::Counted>(s, i $(, $a)*))
        }
    };
}
pub(crate) use inst;
inst!(c01_small, true, one, Size::Small, false);
inst!(c01_mid, false, one, Size::Mid, false);
inst!(c01_big, false, one, Size::Big, false);
inst!(c03_small, true, one, Size::Small, true);
inst!(c03_mid, false, one, Size::Mid, true);
inst!(c03_big, false, one, Size::Big, true);

pub fn gen_k(src: &mut Src, n: usize) -> usize {
    match src.weighted(&[4, 4, 2, 1, 1, 1]) {
        0 => src.range(1, 4),
        1 => src.range(1, n.min(40)),
        2 => n,
        3 => n + 1 + src.below(10) as usize,
        4 => src.range(1, n),
        _ => if src.below(3) == 0 { 0 } else { n.saturating_sub(1) },
    }
}

fn many<T: Build>(src: &mut Src, info: &mut Info, size: Size, boxed: bool) -> Res {
    let range = if boxed || size == Size::Big { Range::Normal } else { pick_range(src) };
    let maxd = if boxed { match size { Size::Small => 8, Size::Mid => 4, Size::Big => 3 } } else { MANY };
    let mut s = Spec::<T>::gen(src, info, maxd, size, range, boxed);
    if boxed && s.data.d > 5 && s.data.n > 40 {
        // 2^D images of every point are enumerated
        s.data.v.truncate(40 * s.data.d);
        s.data.n = 40;
    }
    let t = s.tree()?;
    let o = s.orc();
    let nq = match size { Size::Small => 1 + src.below(4), Size::Mid => 8, Size::Big => if boxed { 4 } else { 20 } };
    let mut images = 0;
    for i in 0..nq {
        let q = gen_query(src, &s.data, s.bx.as_deref(), range);
        let mut k = gen_k(src, s.data.n);
        if size != Size::Small && k > 3000 {
            // more than sixteen bits count, once in a while
            k = if !boxed && i == 0 && src.below(8) == 7 { k } else { 1 + k % 500 };
        }
        info.label(k > 65_536, "k>65536");
        if i < 3 {
            info.desc += &format!(" k={k} q={q:?}");
        }
        let r = t.qk(&q, k).map_err(|e| err(&format!("k={k} query at {q:?}"), e))?;
        o.check_k(&q, k, &r.d, &r.i, r.pos.as_deref())?;
        info.label(k == 0, "k=0");
        info.label(k == 1, "k=1");
        info.label(k == s.data.n, "k=n");
        info.label(k > s.data.n, "k>n");
        info.label(k > 1 && k < s.data.n, "1<k<n");
        let tied = r.d.windows(2).any(|w| w[0].f() == w[1].f());
        info.label(tied, "tied-distances");
        if boxed {
            let mut ix = r.i.clone();
            ix.sort();
            let twice = ix.windows(2).any(|w| w[0] == w[1]);
            info.label(twice, "point-listed-more-than-once");
            let mut through = 0;
            for (j, &i) in r.i.iter().enumerate() {
                let direct: f64 = s.data.row(i as usize).iter().zip(&q).map(|(a, b)| (a.f() - b.f()).powi(2)).sum::<f64>().sqrt();
                if dd(r.d[j]) < direct * 0.999 {
                    through = 1
                }
            }
            images = images.max(through.max(twice as usize));
        } else {
            // a larger k only extends; k = 1 is the nearest neighbour
            if k > 0 && !r.d.is_empty() {
                let n1 = t.q1(&q).map_err(|e| err("query", e))?;
                if !((dd(n1.d[0]) - dd(r.d[0])).abs() <= o.tol(dd(r.d[0]))) {
                    return Err(format!("k={k} query at {q:?}: first distance {} but nearest neighbour at {}", r.d[0], n1.d[0]));
                }
            }
            info.nontrivial |= s.data.n > s.leafsize && k > 0 && k < s.data.n;
        }
    }
    info.label(images > 0, "neighbours-through-box-face");
    if boxed {
        info.nontrivial = images > 0;
    }
    Ok(())
}
inst!(c02_small, true, many, Size::Small, false);
inst!(c02_mid, false, many, Size::Mid, false);
inst!(c02_big, false, many, Size::Big, false);
fn c04_single<T: Build>(src: &mut Src, info: &mut Info, size: Size) -> Res {
    if BATCH && src.weighted(&[2, 1]) == 1 {
        return batch::<T>(src, info, size, Some(Batch::Par), Some(true));
    }
    many::<T>(src, info, size, true)
}
fn c04_w<T: Build>(src: &mut Src, info: &mut Info) -> Res {
    batch::<T>(src, info, Size::Small, Some(Batch::With), Some(true))
}
inst!(c04_small, true, c04_single, Size::Small);
inst!(c04_mid, false, c04_single, Size::Mid);
inst!(c04_big, false, c04_single, Size::Big);
inst!(c04_with, false, c04_w);

/// one of `n` places, the first and the last few more often than the others
pub fn anywhere(src: &mut Src, n: usize) -> usize {
    match src.weighted(&[4, 1, 2]) {
        0 => src.below(n as u64) as usize,
        1 => 0,
        _ => n - 1 - src.below(n.min(3) as u64) as usize,
    }
}

fn flat<T: Copy>(qs: &[Vec<T>]) -> Vec<T> {
    qs.concat()
}

/// Batched queries against single queries and brute force
fn batch<T: Build>(src: &mut Src, info: &mut Info, size: Size, which: Option<Batch>, boxed: Option<bool>) -> Res {
    let boxed = boxed.unwrap_or_else(|| src.below(2) == 1);
    let maxd = if boxed { if size == Size::Small { 6 } else { 3 } } else { MANY };
    let s = Spec::<T>::gen(src, info, maxd, size, Range::Normal, boxed);
    let t = s.tree()?;
    let o = s.orc();
    let which = which.unwrap_or_else(|| if src.below(2) == 0 { Batch::Par } else { Batch::With });
    let nq = match size {
        Size::Small => match src.weighted(&[6, 2, 1]) { 0 => src.range(1, 12), 1 => src.range(2, 70), _ => 0 },
        Size::Big => src.range(1, 400),
        _ => match src.weighted(&[10, 4, 1]) {
            0 => src.range(100, 1500),
            1 => src.range(1500, 9000),
            // more than sixteen bits count
            _ => src.range(60_000, 140_000),
        },
    };
    let nq = s.affordable(nq);
    let distinct = if nq > 200 { 60 } else { nq.max(1) };
    let qpool: Vec<Vec<T>> = (0..distinct).map(|_| gen_query(src, &s.data, s.bx.as_deref(), Range::Normal)).collect();
    let qs: Vec<Vec<T>> = if nq == distinct { qpool.clone() } else {
        let mut r = Rng::new(src.below(1 << 32));
        (0..nq).map(|_| qpool[r.below(distinct as u64) as usize].clone()).collect()
    };
    let qs = if qs.len() > 1 && src.below(4) == 0 { let mut q = qs; let l = q.len() - 1; q[l] = q[0].clone(); q } else { qs };
    let mut k = gen_k(src, s.data.n);
    if size != Size::Small || which == Batch::With {
        k = k.min(if which == Batch::With && src.below(8) > 0 { 24 } else if src.below(8) > 0 { 120 } else { 600 });
    }
    if nq > 9000 {
        k = k.min(5);
    }
    let pool = gen_pool(src);
    let bad = src.weighted(&[9, 1]) == 1 && nq > 0;
    let twins = !bad && src.weighted(&[7, 1]) == 1;
    info.desc += &format!(" {which:?} batch of {nq}, k={k}, pool {} (0: none){}{} first q={:?}", pool_size(pool),
        if bad { ", with a non-finite query" } else { "" }, if twins { ", two batches at once" } else { "" }, qs.first());
    info.label(true, if which == Batch::Par { "batch" } else { "batch-with-buffers" });
    info.label(nq == 0, "empty-batch");
    info.label(nq > 100, "batch>100");
    info.label(nq > 65_536, "batch>65536");
    info.label(k > s.data.n, "k>n");
    info.label(k == 0, "k=0");
    info.label(bad, "non-finite-in-batch");
    info.label(twins, "concurrent-batches");
    info.label(pool != 0, "own-pool");
    info.nontrivial = nq > 1 && s.data.n > s.leafsize && !bad && k > 0;
    if bad {
        let mut qs = qs;
        let mut bads = vec![];
        for _ in 0..1 + src.below(2) {
            let w = anywhere(src, nq);
            let a = src.below(s.data.d as u64) as usize;
            qs[w][a] = T::of([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][src.below(3) as usize]);
            bads.push(w);
        }
        let f = flat(&qs);
        return match in_pool(pool, || t.batch(which, &f, k)) {
            Err(Er::Invalid(p)) if bads.iter().any(|&w| same_bits(&qs[w], &p)) => Ok(()),
            r => Err(format!("batch with non-finite point(s) {bads:?}: {:?}", r.map(|_| "accepted"))),
        };
    }
    let f = flat(&qs);
    let check = |r: &Nn<T>, qs: &[Vec<T>]| -> Res {
        let w = k.min(s.data.n);
        if r.d.len() != w * qs.len() || r.i.len() != w * qs.len() {
            return Err(format!("batch of {} with k={k}, {} points: {} distances and {} indices", qs.len(), s.data.n, r.d.len(), r.i.len()));
        }
        let step = s.step(qs.len());
        let mut asked = std::collections::HashMap::new();
        for (j, q) in qs.iter().enumerate() {
            let (rd, ri) = (&r.d[j * w..(j + 1) * w], &r.i[j * w..(j + 1) * w]);
            // brute force for some rows, the single query for every row
            if j % step == 0 || j + 1 == qs.len() {
                o.check_k(q, k, rd, ri, None).map_err(|e| format!("row {j} of a batch of {}: {e}", qs.len()))?;
            }
            // (a large batch repeats its query points)
            let key: Vec<u64> = q.iter().map(|x| x.bits()).collect();
            let one = match asked.entry(key) {
                std::collections::hash_map::Entry::Occupied(e) => e.into_mut(),
                std::collections::hash_map::Entry::Vacant(e) => e.insert(t.qk(q, k).map_err(|e| err("single query", e))?),
            };
            for m in 0..w {
                if !((dd(one.d[m]) - dd(rd[m])).abs() <= o.tol(dd(one.d[m]))) {
                    return Err(format!("row {j} of a batch of {}, k={k}, {q:?}: {m}-th distance {} but {} when asked alone", qs.len(), rd[m], one.d[m]));
                }
                if !s.of_row(&o, q, ri[m], dd(rd[m])) {
                    return Err(format!("row {j} of a batch of {}, k={k}, {q:?}: {m}-th entry names point {} which is not at {}", qs.len(), ri[m], rd[m]));
                }
            }
        }
        Ok(())
    };
    if twins {
        let mut rev = qs.clone();
        rev.reverse();
        let g = flat(&rev);
        let (a, b) = if src.below(2) == 0 {
            std::thread::scope(|sc| {
                let h = sc.spawn(|| in_pool(pool, || t.batch(which, &f, k)));
                let b = in_pool(pool, || t.batch(which, &g, k));
                (h.join(), b)
            })
        } else {
            // both from within a pool: one thread may take up the second while it waits for the first
            info.label(true, "batches-within-a-pool");
            let (a, b) = in_pool(pool, || rayon::join(|| t.batch(which, &f, k), || t.batch(which, &g, k)));
            (Ok(a), b)
        };
        let a: std::thread::Result<_> = a;
        let a = a.map_err(|_| "a batch running next to another panicked".to_string())?;
        check(&a.map_err(|e| err("batch", e))?, &qs)?;
        return check(&b.map_err(|e| err("batch", e))?, &rev);
    }
    let r = in_pool(pool, || t.batch(which, &f, k)).map_err(|e| err("batch of finite queries", e))?;
    check(&r, &qs)
}
impl<T: Build> Spec<T> {
    /// is some image of point `i` at distance `dist`?
    fn of_row(&self, o: &Orc<T>, q: &[T], i: u64, dist: f64) -> bool {
        i < self.data.n as u64
            && (o.of_point(q, i as usize, false).iter().any(|x| (x - dist).abs() <= o.tol(*x))
                || o.of_point(q, i as usize, true).iter().any(|x| (x - dist).abs() <= o.tol(*x)))
    }
}
pub fn same_bits<T: Sc>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.bits() == y.bits() || (x.is_nan() && y.is_nan()))
}
fn b5<T: Build>(src: &mut Src, info: &mut Info, size: Size, which: Option<Batch>) -> Res {
    batch::<T>(src, info, size, which, None)
}
inst!(c05_small, true, b5, Size::Small, Some(Batch::Par));
inst!(c05_with, false, b5, Size::Small, Some(Batch::With));
inst!(c05_mid, false, b5, Size::Mid, None);
inst!(c05_big, false, b5, Size::Big, None);

/// Axis-decomposed batches
fn axis<T: Build>(src: &mut Src, info: &mut Info, size: Size) -> Res {
    let boxed = src.below(2) == 1;
    let maxd = if boxed { if size == Size::Small { 6 } else { 3 } } else { MANY };
    let range = if boxed { Range::Normal } else { pick_range(src) };
    let s = Spec::<T>::gen(src, info, maxd, size, range, boxed);
    let t = s.tree()?;
    let o = s.orc();
    let nq = match size { Size::Small => match src.weighted(&[6, 1]) { 0 => src.range(1, 8), _ => src.range(0, 40) }, Size::Big => src.range(1, 300), _ => match src.weighted(&[20, 1]) { 0 => src.range(10, 400), _ => src.range(4000, 90_000) } };
    let nq = s.affordable(nq);
    let distinct = if nq > 400 { 60 } else { nq };
    let mut qs: Vec<Vec<T>> = (0..distinct).map(|_| gen_query(src, &s.data, s.bx.as_deref(), range)).collect();
    if nq > distinct {
        let mut r = Rng::new(src.below(1 << 32));
        qs = (0..nq).map(|_| qs[r.below(distinct as u64) as usize].clone()).collect();
    }
    let mut k = gen_k(src, s.data.n);
    if size != Size::Small {
        k = k.min(if nq > 400 { 5 } else { 60 });
    }
    let pool = gen_pool(src);
    let d = s.data.d;
    let axis = match src.weighted(&[9, 1]) { 0 => src.below(d as u64) as usize, _ => [d, d + 1, usize::MAX][src.below(3) as usize] };
    let bad = nq > 0 && src.weighted(&[11, 1]) == 1;
    info.desc += &format!(" batch of {nq}, k={k}, axis {axis} apart, pool {} (0: none){} first q={:?}", pool_size(pool), if bad { ", with a non-finite query" } else { "" }, qs.first());
    info.label(nq > 65_536, "batch>65536");
    info.label(axis >= d, "no-such-axis");
    info.label(bad, "non-finite-in-batch");
    info.label(nq == 0, "empty-batch");
    info.label(k > s.data.n, "k>n");
    info.label(k == 0, "k=0");
    info.nontrivial = axis < d && nq > 0 && k > 0 && !bad && s.data.n > s.leafsize && d > 1;
    let mut bads = vec![];
    if bad {
        let w = anywhere(src, nq);
        let a = src.below(d as u64) as usize;
        qs[w][a] = T::of([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][src.below(3) as usize]);
        bads.push(w);
    }
    let f = flat(&qs);
    let r = in_pool(pool, || t.axis(&f, k, axis));
    if axis >= d {
        return match r {
            Err(Er::Axis) => Ok(()),
            r => Err(format!("axis {axis} of {d}: {:?}", r.map(|_| "accepted"))),
        };
    }
    if bad {
        return match r {
            Err(Er::Invalid(p)) if bads.iter().any(|&w| same_bits(&qs[w], &p)) => Ok(()),
            r => Err(format!("batch with a non-finite point {bads:?}: {:?}", r.map(|_| "accepted"))),
        };
    }
    let r = r.map_err(|e| err("axis-decomposed batch of finite queries", e))?;
    let w = k.min(s.data.n);
    if r.ax.len() != w * nq || r.non.len() != w * nq || r.i.as_ref().is_some_and(|i| i.len() != w * nq) {
        return Err(format!("batch of {nq} with k={k}, {} points: {} and {} distances", s.data.n, r.ax.len(), r.non.len()));
    }
    let step = s.step(nq);
    let mut asked = std::collections::HashMap::new();
    for (j, q) in qs.iter().enumerate() {
        if j % step == 0 || j + 1 == nq {
            o.check_axis(q, k, axis, &r, j).map_err(|e| format!("row {j}: {e}"))?;
        }
        // the same distances as an ordinary query
        let key: Vec<u64> = q.iter().map(|x| x.bits()).collect();
        let one = match asked.entry(key) {
            std::collections::hash_map::Entry::Occupied(e) => e.into_mut(),
            std::collections::hash_map::Entry::Vacant(e) => e.insert(t.qk(q, k).map_err(|e| err("single query", e))?),
        };
        for m in 0..w {
            let (a, b) = (dd(r.ax[j * w + m]), dd(r.non[j * w + m]));
            let total = (a * a + b * b).sqrt();
            let x = dd(one.d[m]);
            if total.is_finite() && !((total - x).abs() <= 2.0 * o.tol(x)) {
                return Err(format!("row {j}: {m}-th total distance {total:e}, but {x:e} by the ordinary query"));
            }
        }
    }
    Ok(())
}
inst!(c06_small, true, axis, Size::Small);
inst!(c06_mid, false, axis, Size::Mid);
inst!(c06_big, false, axis, Size::Big);

/// All queries there are in this configuration, on one tree
fn formats<T: Build>(src: &mut Src, info: &mut Info, size: Size) -> Res {
    match src.weighted(&[3, 3, if BATCH { 2 } else { 0 }, if BATCH { 3 } else { 0 }]) {
        0 => {
            let b = src.below(2) == 1;
            one::<T>(src, info, size, b)?
        }
        1 => {
            let b = src.below(2) == 1;
            many::<T>(src, info, size, b)?
        }
        2 => batch::<T>(src, info, size, Some(Batch::Par), None)?,
        _ => axis::<T>(src, info, size)?,
    }
    info.nontrivial = !info.labels.contains(&"root-is-leaf");
    Ok(())
}
inst!(c11_small, true, formats, Size::Small);
inst!(c11_mid, false, formats, Size::Mid);
