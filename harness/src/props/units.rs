//! C09, C10, C16: validation, boxes, distance primitives.
use super::query::{anywhere, same_bits};
use super::*;
use crate::props::query::inst;

fn bad_value<T: Sc>(src: &mut Src) -> T {
    T::of([f64::NAN, f64::INFINITY, f64::NEG_INFINITY][src.below(3) as usize])
}
/// a finite but unusual value
fn odd_value<T: Sc>(src: &mut Src) -> T {
    let t = match src.below(8) {
        0 => T::MAX,
        1 => -T::MAX,
        2 => T::TINY,
        3 => T::TINY * T::EPS, // subnormal
        4 => -T::TINY * 0.5,
        5 => return -T::of(0.0),
        6 => 1.0 / T::TINY,
        _ => 0.0,
    };
    T::of(t)
}

fn validate<T: Build>(src: &mut Src, info: &mut Info, large: bool) -> Res {
    // beyond any threshold of chunks; these are always refused
    let huge = large && src.weighted(&[70, 1]) == 1;
    let d = dim::<T>(src, if huge { 3 } else { MANY });
    let n = if huge {
        src.range(250_000, 1_200_000)
    } else if large {
        match src.weighted(&[3, 1]) { 0 => src.range(1000, 20_000), _ => src.range(60_000, 130_000) }
    } else if src.weighted(&[20, 1]) == 1 { 0 } else { gen_n(src, Size::Small) };
    let mut data = if n == 0 { Data { d, n, v: vec![], layout: "empty", order: "as-is" } } else {
        let range = [Range::Normal, Range::Wide, Range::Extreme][src.weighted(&[3, 1, 1])];
        gen_data_n::<T>(src, d, n, range, false)
    };
    let leafsize = gen_leafsize(src, n.max(1));
    let par = gen_par(src, n);
    let par = if large { par.map(|l| l.min(4)) } else { par };
    let pool = gen_pool(src);
    let other = if par.is_some() { None } else { Some(src.below(3) as usize) };
    classify(info, &data, leafsize, par, None);
    info.desc = show(&data, leafsize, par, None);
    if n == 0 {
        info.nontrivial = true;
        for p in [par, other] {
            match in_pool(pool, || T::build(d, &data.v, leafsize, p)) {
                Err(Er::Empty) => {}
                r => return Err(format!("building from no points ({p:?}): {:?}", r.map(|_| "accepted"))),
            }
        }
        return Ok(());
    }
    // some odd but finite values
    for _ in 0..src.weighted(&[3, 1, 1]) {
        let i = src.below(data.v.len() as u64) as usize;
        data.v[i] = odd_value(src);
        info.label(true, "odd-finite-value");
    }
    let mut bads: Vec<usize> = vec![];
    let nb = src.weighted(&[3, 5, 2, 1]).max(huge as usize);
    info.label(huge, "n>=250000");
    for _ in 0..nb {
        let r = anywhere(src, n);
        let a = src.below(d as u64) as usize;
        data.v[r * d + a] = bad_value(src);
        bads.push(r);
    }
    info.label(nb == 0, "finite-data");
    info.label(nb > 0, "non-finite-data");
    info.label(nb > 1, "several-non-finite");
    info.desc += &format!(" non-finite rows {bads:?}");
    if nb > 0 {
        info.nontrivial = true;
        for p in [par, other] {
            match in_pool(pool, || T::build(d, &data.v, leafsize, p)) {
                Err(Er::Invalid(x)) if bads.iter().any(|&b| same_bits(data.row(b), &x)) => {}
                r => return Err(format!("data with non-finite rows {bads:?} ({p:?}): {:?}", r.map(|_| "accepted"))),
            }
        }
        return Ok(());
    }
    for p in [par, other] {
        let t = build_in(pool, &data, leafsize, p)?;
        let inside = (0..d).all(|a| !(data.min(a).f() < 0.0) && data.max(a).f() < T::MAX * 1e-3);
        let bx: Option<Vec<T>> = (inside && src.below(2) == 1 && d <= 6).then(|| (0..d).map(|a| T::of(data.max(a).f() * 1.5 + 1.0)).collect());
        let t = match &bx {
            Some(b) => t.set_box(b).map_err(|e| err("setting a box that contains the data", e))?,
            None => t,
        };
        info.label(bx.is_some(), "query-with-box");
        for _ in 0..2 {
            let mut q = gen_query(src, &data, bx.as_deref(), if bx.is_some() { Range::Normal } else { Range::Extreme });
            if bx.is_none() && src.below(3) == 0 {
                let a = src.below(d as u64) as usize;
                q[a] = odd_value(src);
            }
            let good = q.clone();
            let bad = src.weighted(&[1, 2]) == 1;
            if bad {
                for _ in 0..1 + src.below(2) {
                    let a = src.below(d as u64) as usize;
                    q[a] = bad_value(src);
                }
                info.label(true, "non-finite-query");
                info.nontrivial = true;
            } else {
                info.label(true, "finite-query");
            }
            let k = src.below(4) as usize;
            let check = |what: &str, r: Result<(), Er<T>>| -> Res {
                match r {
                    Ok(()) if !bad => Ok(()),
                    Err(Er::Invalid(x)) if bad && same_bits(&q, &x) => Ok(()),
                    r => Err(format!("{what} at {q:?} ({}): {r:?}", if bad { "not finite" } else { "finite" })),
                }
            };
            check("query", t.q1(&q).map(|_| ()))?;
            check(&format!("k={k} query"), t.qk(&q, k).map(|_| ()))?;
            if BATCH {
                let m = if large && src.weighted(&[2, 1]) == 1 {
                    let top = if src.weighted(&[12, 1]) == 1 { 70_000 } else { 9000 };
                    src.range(100, if bx.is_none() { top } else { 400 }).min(300_000_000 / (n * d))
                } else {
                    src.below(6) as usize
                };
                let k = if m > 5 { k.min(1) } else { k };
                info.label(m > 1024, "batch>1024");
                let at = anywhere(src, m + 1);
                let mut b = vec![];
                for i in 0..=m {
                    b.extend_from_slice(if i == at { &q } else { &good });
                }
                check("batch", in_pool(pool, || t.batch(Batch::Par, &b, k)).map(|_| ()))?;
                if src.weighted(&[7, 1]) == 1 {
                    check("batch with buffers", in_pool(pool, || t.batch(Batch::With, &b, k)).map(|_| ()))?;
                }
                let ax = src.below(d as u64) as usize;
                check("axis-decomposed batch", in_pool(pool, || t.axis(&b, k, ax)).map(|_| ()))?;
            }
        }
    }
    Ok(())
}
inst!(c09_small, false, validate, false);
inst!(c09_large, false, validate, true);

fn boxes<T: Build>(src: &mut Src, info: &mut Info, large: bool) -> Res {
    let d = dim::<T>(src, if large { 4 } else { 12 });
    let size = if large { if src.weighted(&[3, 1]) == 1 { Size::Big } else { Size::Mid } } else { Size::Small };
    let signed = src.weighted(&[3, 1]) == 1;
    let mut data = gen_data::<T>(src, d, size, Range::Normal, !signed);
    if !signed && src.weighted(&[4, 1]) == 1 {
        let i = src.below(data.v.len() as u64) as usize;
        data.v[i] = T::of(-[1.0, 1e-3, 0.5, T::TINY, 100.0][src.below(5) as usize]);
    }
    let leafsize = gen_leafsize(src, data.n);
    let par = gen_par(src, data.n);
    let par = if large { par.map(|l| l.min(4)) } else { par };
    let neg = data.v.iter().any(|x| x.f() < 0.0);
    let maxs: Vec<T> = (0..d).map(|a| data.max(a)).collect();
    let mut t = build_in(0, &data, leafsize, par)?;
    classify::<T>(info, &data, leafsize, par, None);
    info.desc = show::<T>(&data, leafsize, par, None);
    for round in 0..1 + src.below(3) {
        let mut b: Vec<T> = maxs.iter().map(|m| {
            let l = T::of(m.f() * (1.0 + src.below(3) as f64 * 0.25) + [0.0, 1.0, 1e-9][src.below(3) as usize]);
            let l = if l.f() < m.f() { *m } else { l };
            if l.f() < T::TINY * 1e6 { T::of(1.0).max(*m) } else { l }
        }).collect();
        for _ in 0..src.weighted(&[3, 3, 2]) {
            let a = src.below(d as u64) as usize;
            b[a] = match src.below(10) {
                8 => T::of(T::MAX),
                9 => T::of(T::MAX * [0.75, 0.5, 1e-8, 1e-20][src.below(4) as usize]).max(maxs[a]),
                0 => maxs[a],
                1 => maxs[a].next_down(),
                2 => maxs[a].next_up(),
                3 => T::of(f64::NAN),
                4 => T::of(f64::INFINITY),
                5 => T::of(f64::NEG_INFINITY),
                6 => T::of(maxs[a].f() * 0.5 - 1.0),
                _ => T::of(-1.0),
            };
            if b[a].f() == 0.0 || (b[a].f().is_finite() && b[a].f().abs() < T::TINY * 1e6) {
                b[a] = T::of(1.0); // zero and subnormal lengths are left open by the interface
            }
        }
        let small = (0..d).any(|a| maxs[a].f() > b[a].f());
        let infinite = b.iter().any(|x| !x.f().is_finite());
        let should = !neg && !small && !infinite;
        info.desc += &format!(" box={b:?}");
        info.label(should, "acceptable-box");
        info.label(neg, "negative-data");
        info.label(small, "box-too-small");
        info.label(infinite, "non-finite-box");
        info.label(b.iter().any(|x| x.f().is_finite() && x.f() > T::MAX * 1e-3), "immense-box");
        info.label(round > 0, "box-replaced");
        info.label((0..d).any(|a| maxs[a].f() == b[a].f()), "box-equals-largest-coordinate");
        info.nontrivial |= !should || round > 0;
        match t.set_box(&b) {
            Ok(x) if should => t = x,
            Ok(_) => return Err(format!("box {b:?} accepted (data up to {maxs:?}, negative: {neg})")),
            Err(e) => {
                let right = match e {
                    Er::Neg => neg,
                    Er::Small => small,
                    Er::BadBox => infinite,
                    _ => false,
                };
                if should || !right {
                    return Err(format!("box {b:?} refused with {e:?} (data up to {maxs:?}, negative: {neg})"));
                }
                return Ok(());
            }
        }
        if d <= 8 || data.n < 30 {
            let bx = Some(&b[..]);
            let o = Orc::new(&data, bx);
            for _ in 0..if large { 4 } else { 2 } {
                let q = gen_query(src, &data, bx, Range::Normal);
                let r = t.q1(&q).map_err(|e| err("query", e))?;
                o.check_one(&q, &r)?;
                let k = 1 + src.below(6) as usize;
                if data.n << d < 2_000_000 {
                    let r = t.qk(&q, k).map_err(|e| err("query", e))?;
                    o.check_k(&q, k, &r.d, &r.i, r.pos.as_deref())?;
                }
                if BATCH && data.n << d < 100_000 {
                    let r = t.batch(Batch::Par, &q, k).map_err(|e| err("batch", e))?;
                    o.check_k(&q, k, &r.d, &r.i, None)?;
                    let ax = src.below(d as u64) as usize;
                    let r = t.axis(&q, k, ax).map_err(|e| err("axis-decomposed batch", e))?;
                    if r.ax.len() != k.min(data.n) {
                        return Err("axis-decomposed batch of the wrong length".into());
                    }
                    o.check_axis(&q, k, ax, &r, 0)?;
                }
            }
        }
    }
    Ok(())
}
inst!(c10_small, false, boxes, false);
inst!(c10_large, false, boxes, true);

// ---- C16

fn prim<T: Build, const D: usize>(src: &mut Src, info: &mut Info) -> Res {
    use fnntw::{distance::*, point::Point, NotNan};
    let exact = src.below(2) == 0;
    let range = if exact { Range::Normal } else { [Range::Normal, Range::Wide, Range::Extreme][src.below(3) as usize] };
    let num = |src: &mut Src| -> T {
        if exact {
            return T::of(src.below(17) as f64 - 8.0);
        }
        match range {
            Range::Normal => T::of((src.unit() - 0.5) * 10f64.powi(src.below(9) as i32 - 4)),
            _ => {
                let e = match (range, T::MAX > 1e100) { (Range::Extreme, true) => 1020, (Range::Extreme, false) => 124, (_, true) => 300, _ => 40 };
                let s = [1.0, -1.0, 0.0][src.weighted(&[4, 4, 1])];
                T::of(s * (1.0 + src.unit()) * 2f64.powi(src.below(2 * e + 1) as i32 - e as i32))
            }
        }
    };
    let pt = |src: &mut Src| -> [T; D] { [(); D].map(|_| num(src)) };
    let nn = |x: [T; D]| -> [NotNan<T>; D] { x.map(|v| unsafe { NotNan::new_unchecked(v) }) };
    let (a, b) = (pt(src), pt(src));
    let b = match src.weighted(&[5, 1, 1]) { 0 => b, 1 => a, _ => { let mut c = a; c[0] = b[0]; c } };
    info.label(true, T::NAME);
    info.label(true, match range { _ if exact => "integers", Range::Normal => "normal", Range::Wide => "wide", _ => "extreme" });
    info.desc = format!("{} a={a:?} b={b:?}", T::NAME);
    let (na, nb) = (nn(a), nn(b));
    // f64 reference of the same saturating definition
    let sq = |x: f64| x * x;
    let reference: f64 = (0..D).map(|i| sq(a[i].f() - b[i].f())).sum();
    let tol = |r: f64| if exact { 0.0 } else { r * T::EPS * (D as f64 + 3.0) + T::TINY * D as f64 };
    let near = |x: f64, r: f64| { let r = r.min(T::MAX); (x - r).abs() <= tol(r) };
    let d2 = squared_euclidean(&na, &nb);
    if !(d2.f() >= 0.0) || !near(d2.f(), reference) {
        return Err(format!("squared distance of {a:?} and {b:?} is {d2}, not {reference:e}"));
    }
    let back = squared_euclidean(&nb, &na);
    if !near(back.f(), reference) {
        return Err(format!("squared distance of {b:?} and {a:?} is {back}, the other way round {d2}"));
    }
    if squared_euclidean(&na, &na).f() != 0.0 {
        return Err(format!("squared distance of {a:?} to itself is not zero"));
    }
    info.label(a == b, "equal-points");
    info.label(reference > T::MAX, "overflow");
    info.nontrivial = a != b;
    for axis in 0..D {
        let (t, x, r) = squared_euclidean_axis(&na, &nb, axis);
        let rx = sq(a[axis].f() - b[axis].f());
        let rr: f64 = (0..D).filter(|&i| i != axis).map(|i| sq(a[i].f() - b[i].f())).sum();
        let (fx, fr) = (x.f().min(T::MAX), r.f().min(T::MAX));
        if !near(t.f(), reference) || !near(fx, rx) || !near(fr, rr) {
            return Err(format!("{a:?} and {b:?} along axis {axis}: ({t}, {x}, {r}) instead of ({reference:e}, {rx:e}, {rr:e})"));
        }
    }
    // to a box
    let (c, e) = (pt(src), pt(src));
    let lo: [T; D] = std::array::from_fn(|i| if c[i].f() <= e[i].f() { c[i] } else { e[i] });
    let hi: [T; D] = std::array::from_fn(|i| if c[i].f() <= e[i].f() { e[i] } else { c[i] });
    let q = match src.below(4) { 0 => lo, 1 => std::array::from_fn(|i| if src.below(2) == 0 { lo[i] } else { hi[i] }), 2 => std::array::from_fn(|i| T::of(lo[i].f() * 0.5 + hi[i].f() * 0.5)), _ => a };
    let s = calc_dist_sq_to_space(&nn(q), &nn(lo), &nn(hi)).f();
    let gap = |i: usize| (lo[i].f() - q[i].f()).max(q[i].f() - hi[i].f()).max(0.0);
    let rs: f64 = (0..D).map(|i| sq(gap(i))).sum();
    info.desc += &format!(" box {lo:?}..{hi:?} q={q:?}");
    info.label(rs == 0.0, "inside-box");
    if !near(s, rs) || (rs == 0.0 && s != 0.0) {
        return Err(format!("squared distance of {q:?} to the box {lo:?}..{hi:?} is {s:e}, not {rs:e}"));
    }
    for _ in 0..3 {
        let p: [T; D] = std::array::from_fn(|i| match src.below(4) {
            0 => lo[i],
            1 => hi[i],
            _ => { let u = src.unit(); let x = T::of(lo[i].f() * (1.0 - u) + hi[i].f() * u); if x.f() >= lo[i].f() && x.f() <= hi[i].f() { x } else { lo[i] } }
        });
        let dp = squared_euclidean(&nn(q), &nn(p)).f();
        if s > dp + tol(dp) {
            return Err(format!("{q:?} is {s:e} from the box {lo:?}..{hi:?} but {dp:e} from {p:?} in it"));
        }
    }
    // updating a best candidate
    let other = nn(c);
    let cur = match src.weighted(&[2, 2, 2, 1, 1, 2]) {
        0 => d2,
        1 => T::of(d2.f() * 0.5),
        2 => T::of((d2.f() * 2.0 + T::TINY * 16.0).min(T::MAX)),
        3 => T::of(0.0),
        4 => T::of(T::MAX),
        _ => squared_euclidean(&na, &other),
    };
    // decided only where rounding cannot matter
    let exactly = exact || cur.f() == 0.0;
    let clear = exactly || (cur.f() - reference.min(T::MAX)).abs() > 2.0 * tol(reference.min(T::MAX));
    let closer = reference.min(T::MAX) < cur.f();
    let (pc, po) = (Point::new(&nb), Point::new(&other));
    let (mut best, mut cand) = (cur, &po);
    new_best(&na, &pc, &mut best, &mut cand);
    let took = std::ptr::eq(cand, &pc);
    let (mut best2, mut cand2) = (cur, &other);
    let said = new_best_short(&na, &nb, &mut best2, &mut cand2);
    let took2 = std::ptr::eq(cand2, &nb);
    info.desc += &format!(" best so far {cur}");
    info.label(closer, "closer");
    info.label(cur.f() == d2.f(), "equally-close");
    if clear && took != closer {
        return Err(format!("candidate {b:?} for {a:?}, best so far {cur}: {}", if took { "taken" } else { "not taken" }));
    }
    if clear && took2 != closer {
        return Err(format!("candidate {b:?} for {a:?}, best so far {cur}: {} by the short-circuiting update", if took2 { "taken" } else { "not taken" }));
    }
    if said != took2 {
        return Err(format!("the short-circuiting update says {said} and does {took2}"));
    }
    for (took, best) in [(took, best), (took2, best2)] {
        if took && !near(best.f(), reference) || !took && best.bits() != cur.bits() {
            return Err(format!("candidate {b:?} for {a:?}: best {cur} became {best}"));
        }
    }
    if !took && !std::ptr::eq(cand, &po) || !took2 && !std::ptr::eq(cand2, &other) {
        return Err("the best candidate is neither the old nor the new one".into());
    }
    Ok(())
}
pub fn c16(src: &mut Src, info: &mut Info) -> Res {
    macro_rules! pick {
        ($($t:ident $d:literal)*) => {{
            let all: &[fn(&mut Src, &mut Info) -> Res] = &[$(prim::<$t, $d>),*];
            // the first dozen more often
            let i = if src.weighted(&[2, 1]) == 0 { src.below(12) } else { src.below(all.len() as u64) };
            all[i as usize](src, info)
        }};
    }
    pick!(f64 3 f64 2 f64 1 f64 5 f32 3 f32 2 f32 1 f64 4 f64 6 f64 7 f32 11 f64 8
          f64 9 f64 10 f64 11 f64 12 f64 13 f64 14 f64 15 f64 16 f64 17 f64 19 f64 24 f64 33
          f32 4 f32 5 f32 6 f32 7 f32 8 f32 9 f32 15 f32 16 f32 18 f32 31)
}
