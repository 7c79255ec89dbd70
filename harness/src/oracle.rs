//! Brute force and validity predicates. All comparisons are made between distances (not squares),
//! in double precision, up to a tolerance of a few roundings of the float type under test.
use crate::geom::Data;
use crate::scalar::Sc;
use crate::tree::{Ax, Nn, SQRT};
use std::collections::{HashMap, HashSet};

pub struct Orc<'a, T> {
    pub data: &'a Data<T>,
    pub bx: Option<&'a [T]>,
    lmax: f64,
}

/// total, along-axis and off-axis distance of a candidate
#[derive(Clone, Copy, Debug)]
pub struct Cand {
    pub dist: f64,
    pub ax: f64,
    pub non: f64,
    pub idx: usize,
}

/// a reported distance, as a distance
pub fn dd<T: Sc>(x: T) -> f64 {
    if SQRT { x.f() } else { x.f().sqrt() }
}
fn sat<T: Sc>(s: f64) -> f64 {
    s.min(T::MAX).sqrt()
}

/// Kuhn's step of maximum bipartite matching: entry `j` takes a candidate, its owner another one
fn augment(j: usize, fits: &[Vec<usize>], owner: &mut HashMap<usize, usize>, tried: &mut HashSet<usize>) -> bool {
    for &c in &fits[j] {
        if !owner.contains_key(&c) {
            owner.insert(c, j);
            return true;
        }
    }
    for &c in &fits[j] {
        if tried.insert(c) {
            let other = owner[&c];
            if augment(other, fits, owner, tried) {
                owner.insert(c, j);
                return true;
            }
        }
    }
    false
}

impl<'a, T: Sc> Orc<'a, T> {
    pub fn new(data: &'a Data<T>, bx: Option<&'a [T]>) -> Self {
        let lmax = bx.map_or(0.0, |b| b.iter().map(|x| x.f()).fold(0.0, f64::max));
        Orc { data, bx, lmax }
    }
    pub fn tol(&self, dist: f64) -> f64 {
        let d = self.data.d as f64;
        dist * T::EPS * 2.0 * (d + 4.0) + (T::TINY * 8.0 * d).sqrt() + self.lmax * T::EPS * 4.0 * d
    }
    /// the two places a coordinate is looked for: directly, or through the nearest face.
    /// Exactly half way both faces are nearest; `plus` says which is meant.
    fn image(&self, q: f64, a: usize, plus: bool) -> f64 {
        let l = self.bx.unwrap()[a].f();
        if q < l * 0.5 || (q == l * 0.5 && plus) { q + l } else { q - l }
    }
    pub fn ambiguous(&self, q: &[T]) -> bool {
        self.bx.is_some_and(|b| (0..b.len()).any(|a| q[a].f() == b[a].f() * 0.5))
    }
    fn parts(&self, q: &[f64], i: usize, axis: usize) -> Cand {
        let (mut ax, mut non) = (0.0, 0.0);
        for (a, x) in self.data.row(i).iter().enumerate() {
            let t = q[a] - x.f();
            if a == axis { ax += t * t } else { non += t * t }
        }
        Cand { dist: sat::<T>(ax + non), ax: sat::<T>(ax), non: sat::<T>(non), idx: i }
    }
    fn images(&self, q: &[T], plus: bool) -> Vec<Vec<f64>> {
        let d = self.data.d;
        let q: Vec<f64> = q.iter().map(|x| x.f()).collect();
        if self.bx.is_none() {
            return vec![q];
        }
        (0..1usize << d)
            .map(|m| (0..d).map(|a| if m >> a & 1 == 1 { self.image(q[a], a, plus) } else { q[a] }).collect())
            .collect()
    }
    /// every candidate (point, image), unsorted
    pub fn cands(&self, q: &[T], axis: usize, plus: bool) -> Vec<Cand> {
        let im = self.images(q, plus);
        let mut r = Vec::with_capacity(self.data.n * im.len());
        for i in 0..self.data.n {
            for m in &im {
                r.push(self.parts(m, i, axis));
            }
        }
        r
    }
    /// distances of one point's images, ascending
    pub fn of_point(&self, q: &[T], i: usize, plus: bool) -> Vec<f64> {
        let mut r: Vec<f64> = self.images(q, plus).iter().map(|m| self.parts(m, i, 0).dist).collect();
        r.sort_by(|a, b| a.partial_cmp(b).unwrap());
        r
    }
    /// minimum-image distance, computed independently per axis
    pub fn min_dist(&self, q: &[T], i: usize) -> f64 {
        let mut s = 0.0;
        for (a, x) in self.data.row(i).iter().enumerate() {
            let t = (q[a].f() - x.f()).abs();
            let t = match self.bx {
                Some(b) => t.min(b[a].f() - t).max(0.0),
                None => t,
            };
            s += t * t;
        }
        sat::<T>(s)
    }
    pub fn nearest(&self, q: &[T]) -> f64 {
        (0..self.data.n).map(|i| self.min_dist(q, i)).fold(f64::INFINITY, f64::min)
    }

    fn pos(&self, i: usize, pos: &[T], j: usize) -> Result<(), String> {
        let d = self.data.d;
        if pos.len() < (j + 1) * d || (0..d).any(|a| pos[j * d + a].f() != self.data.row(i)[a].f()) {
            return Err(format!("position {:?} is not that of point {i}: {:?}",
                &pos[(j * d).min(pos.len())..((j + 1) * d).min(pos.len())], self.data.row(i)));
        }
        Ok(())
    }

    /// A nearest-neighbour answer
    pub fn check_one(&self, q: &[T], r: &Nn<T>) -> Result<(), String> {
        if r.d.len() != 1 || r.i.len() != 1 {
            return Err("nearest neighbour: not one result".into());
        }
        let (i, d) = (r.i[0] as usize, dd(r.d[0]));
        if r.i[0] >= self.data.n as u64 {
            return Err(format!("nearest neighbour of {q:?}: index {} of {} points", r.i[0], self.data.n));
        }
        if !(d >= 0.0 && d.is_finite()) {
            return Err(format!("nearest neighbour of {q:?}: distance {d}"));
        }
        let own = self.min_dist(q, i);
        if !((d - own).abs() <= self.tol(own)) {
            return Err(format!("nearest neighbour of {q:?}: distance {d:e} reported with point {i} at {own:e}"));
        }
        let best = self.nearest(q);
        if !(d <= best + self.tol(best)) {
            return Err(format!("nearest neighbour of {q:?}: distance {d:e} (point {i}), but the nearest is at {best:e}"));
        }
        if let Some(p) = &r.pos {
            if p.len() != self.data.d {
                return Err("wrong number of position components".into());
            }
            self.pos(i, p, 0)?;
        }
        Ok(())
    }

    /// A k-nearest-neighbour answer
    pub fn check_k(&self, q: &[T], k: usize, d: &[T], i: &[u64], pos: Option<&[T]>) -> Result<(), String> {
        let r = self.check_k1(q, k, d, i, pos, false);
        if r.is_err() && self.ambiguous(q) {
            return self.check_k1(q, k, d, i, pos, true);
        }
        r
    }
    fn check_k1(&self, q: &[T], k: usize, d: &[T], ix: &[u64], pos: Option<&[T]>, plus: bool) -> Result<(), String> {
        let n = self.data.n;
        let want = k.min(n);
        let ctx = || format!("k={k} nearest of {q:?}");
        if d.len() != want || ix.len() != want {
            return Err(format!("{}: {} distances and {} indices instead of {want}", ctx(), d.len(), ix.len()));
        }
        if let Some(p) = pos {
            if p.len() != want * self.data.d {
                return Err(format!("{}: {} position components", ctx(), p.len()));
            }
        }
        if want == 0 {
            return Ok(());
        }
        let mut c: Vec<f64> = self.cands(q, 0, plus).iter().map(|c| c.dist).collect();
        if want < c.len() {
            c.select_nth_unstable_by(want - 1, |a, b| a.partial_cmp(b).unwrap());
            c.truncate(want);
        }
        c.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for j in 0..want {
            let x = dd(d[j]);
            if !(x >= 0.0 && x.is_finite()) {
                return Err(format!("{}: distance {x}", ctx()));
            }
            if j > 0 && d[j].f() < d[j - 1].f() {
                return Err(format!("{}: distances not sorted at {j}: {} then {}", ctx(), d[j - 1], d[j]));
            }
            if !((x - c[j]).abs() <= self.tol(c[j])) {
                return Err(format!("{}: {j}-th distance {x:e} instead of {:e}", ctx(), c[j]));
            }
            if ix[j] >= n as u64 {
                return Err(format!("{}: index {} of {n} points", ctx(), ix[j]));
            }
            if let Some(p) = pos {
                self.pos(ix[j] as usize, p, j)?;
            }
        }
        // each point at its own distances, nearest image first, each image at most once
        let mut order: Vec<usize> = (0..want).collect();
        order.sort_by_key(|&j| (ix[j], j));
        let mut s = 0;
        while s < want {
            let i = ix[order[s]];
            let mut e = s;
            while e < want && ix[order[e]] == i {
                e += 1;
            }
            let own = self.of_point(q, i as usize, plus);
            if e - s > own.len() {
                return Err(format!("{}: point {i} listed {} times", ctx(), e - s));
            }
            for (m, &j) in order[s..e].iter().enumerate() {
                if !((dd(d[j]) - own[m]).abs() <= self.tol(own[m])) {
                    return Err(format!("{}: {j}-th entry names point {i} at distance {:e}, which is at {:e}",
                        ctx(), dd(d[j]), own[m]));
                }
            }
            s = e;
        }
        Ok(())
    }

    /// One row of an axis-decomposed answer
    pub fn check_axis(&self, q: &[T], k: usize, axis: usize, r: &Ax<T>, row: usize) -> Result<(), String> {
        let e = self.check_axis1(q, k, axis, r, row, false);
        if e.is_err() && self.ambiguous(q) {
            return self.check_axis1(q, k, axis, r, row, true);
        }
        e
    }
    fn check_axis1(&self, q: &[T], k: usize, axis: usize, r: &Ax<T>, row: usize, plus: bool) -> Result<(), String> {
        let n = self.data.n;
        let want = k.min(n);
        let ctx = || format!("k={k} nearest of {q:?} with axis {axis} apart");
        let mut c = self.cands(q, axis, plus);
        c.sort_by(|a, b| a.dist.partial_cmp(&b.dist).unwrap());
        let top = sat::<T>(f64::INFINITY);
        let mut prev = 0.0f64;
        let mut fits: Vec<Vec<usize>> = vec![];
        let mut owner: HashMap<usize, usize> = HashMap::new();
        for j in 0..want {
            let o = row * want + j;
            let (ax, non) = (dd(r.ax[o]), dd(r.non[o]));
            if !(ax >= 0.0 && non >= 0.0) {
                return Err(format!("{}: {j}-th entry {ax}, {non}", ctx()));
            }
            let (ax, non) = (ax.min(top), non.min(top));
            let total = (ax * ax + non * non).sqrt().min(top);
            let t = self.tol(c[j].dist) * 2.0;
            if !((total - c[j].dist).abs() <= t) {
                return Err(format!("{}: {j}-th entry is ({ax:e}, {non:e}), together {total:e}, instead of {:e}", ctx(), c[j].dist));
            }
            if total < prev - t {
                return Err(format!("{}: not sorted at {j}", ctx()));
            }
            prev = total;
            if let Some(i) = &r.i {
                if i[o] >= n as u64 {
                    return Err(format!("{}: index {}", ctx(), i[o]));
                }
            }
            // candidates with these components
            let from = c.partition_point(|x| x.dist < total - 2.0 * t);
            let hits: Vec<usize> = (from..c.len())
                .take_while(|&x| c[x].dist <= total + 2.0 * t)
                .filter(|&x| {
                    r.i.as_ref().is_none_or(|i| i[o] == c[x].idx as u64)
                        && (c[x].ax - ax).abs() <= self.tol(c[x].ax) + self.tol(0.0)
                        && (c[x].non - non).abs() <= self.tol(c[x].non) + self.tol(0.0)
                })
                .collect();
            fits.push(hits);
            // each candidate answers for at most one entry: an augmenting path per entry
            if !augment(j, &fits, &mut owner, &mut HashSet::new()) {
                return Err(format!("{}: {j}-th entry ({ax:e}, {non:e}, index {:?}) belongs to no (further) point",
                    ctx(), r.i.as_ref().map(|i| i[o])));
            }
        }
        Ok(())
    }
}
