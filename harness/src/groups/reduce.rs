//! C09/C10: reductions over everything and over axes.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::{ensure, num_dtype};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Red { Sum, Product, Min, Max, MinMag, MaxMag, Mean }
use Red::*;

/// Values for a reduction of up to `n` elements that stays within the type whatever the order,
/// and whether the result must be exact (or within rounding).
pub fn values<T: Num>(r: &mut Rng, red: Red, n: usize) -> (Vec<T>, bool) {
    let style = r.below(4);
    match red {
        Sum | Mean if T::FLOAT => match style {
            0 | 1 => { let b = ((T::MAXI / (n as i128 + 1)).min(1000)).max(1) as i64; ((0..n).map(|_| T::from_i(r.range(-b, b) as i128)).collect(), true) }
            2 => ((0..n).map(|_| T::scalar(Div, T::from_i(r.range(-1_000_000, 1_000_000) as i128), T::from_i(r.range(1, 3000) as i128))).collect(), false),
            _ => {
                // an infinity of one sign dominates
                let mut v: Vec<T> = (0..n).map(|_| T::from_i(r.range(-9, 9) as i128)).collect();
                let k = r.below(n);
                if r.chance(1, 2) { v[k] = if r.chance(1, 2) { T::max_v() } else { T::min_v() }; }
                if r.chance(1, 3) { sprinkle(r, &mut v); }
                (v, true)
            }
        },
        Sum | Mean => {
            // |x1| + ... + |xn| fits
            let cap = T::MAXI / n as i128;
            let neg = T::SIGNED;
            let v: Vec<T> = if cap >= 1 {
                let b = cap.min(1 << 40) as i64;
                (0..n).map(|_| T::from_i(r.range(if neg { -b } else { 0 }, b) as i128)).collect()
            } else {
                let mut v = vec![T::from_i(0); n];
                let mut left = T::MAXI;
                while left > 0 { let b = left.min(9) as i64; let x = r.range(1, b); let k = r.below(n); if v[k] == T::from_i(0) { v[k] = T::from_i(if neg && r.chance(1, 2) { -x } else { x } as i128); } left -= x as i128; }
                v
            };
            if style == 3 { // one extreme value among zeros
                let mut v = vec![T::from_i(0); n]; let k = r.below(n); v[k] = if r.chance(1, 2) { T::max_v() } else { T::min_v() }; return (v, true);
            }
            (v, true)
        }
        Product if T::FLOAT && style >= 2 && n <= 2000 => ((0..n).map(|_| { let s = if r.chance(1, 2) { 1 } else { -1 }; T::scalar(Div, T::from_i(s * r.range(900_000, 1_100_000) as i128), T::from_i(1_000_000)) }).collect(), false),
        Product => {
            // mostly ones, some powers of two, signs, maybe a zero
            let mut budget = (T::BITS as usize).min(60) - 2;
            if T::FLOAT { budget = 60; }
            let mut v: Vec<T> = (0..n).map(|_| T::from_i(if T::SIGNED && r.chance(1, 2) { -1 } else { 1 })).collect();
            for _ in 0..r.below(12) {
                let k = r.below(n); let e = r.us(1, 4).min(budget); budget -= e;
                if v[k] == T::from_i(1) || T::SIGNED && v[k] == T::from_i(-1) { v[k] = T::scalar(Mul, v[k], T::from_i(1i128 << e)); }
            }
            if r.chance(1, 12) { let k = r.below(n); v[k] = T::from_i(0); }
            if T::FLOAT && r.chance(1, 8) { sprinkle(r, &mut v); }
            (v, true)
        }
        _ => {
            let mag = matches!(red, MinMag | MaxMag);
            let mut v: Vec<T> = match style {
                0 => (0..n).map(|_| { let x = T::any(r); if x != x { T::from_i(5) } else { x } }).collect(),
                1 => (0..n).map(|_| T::from_i(if T::SIGNED { r.range(-100, -1) } else { r.range(100, 120) } as i128)).collect(),
                2 => (0..n).map(|_| T::from_i(r.range(1, 100) as i128)).collect(),
                _ => if T::FLOAT { let x = if r.chance(1, 2) { T::max_v() } else { T::min_v() }; vec![x; n] } else { let x = if r.chance(1, 2) { T::max_v() } else { T::min_v() }; vec![x; n] },
            };
            // one element decides, often at the end or at a block boundary
            if matches!(style, 1 | 2) && r.chance(3, 4) {
                let k = spot(r, n);
                v[k] = match (red, T::SIGNED) {
                    (Min, true) => T::from_i(-120), (Min, false) | (MinMag, _) => T::from_i(0),
                    (MaxMag, true) if r.chance(1, 2) => T::from_i(-125), _ => T::from_i(125),
                };
            }
            // the magnitude of the most negative integer is not representable
            if mag && !T::FLOAT && T::SIGNED { for x in v.iter_mut() { if *x == T::min_v() { *x = T::scalar(Add, T::min_v(), T::from_i(1)); } } }
            (v, true)
        }
    }
}

/// a position, with a preference for the ends and for the edges of blocks
fn spot(r: &mut Rng, n: usize) -> usize {
    match r.below(6) {
        0 => 0,
        1 | 2 => n - 1,
        3 => n - 1 - r.below(n.min(9)),
        4 => { let b = *r.pick(&[4usize, 8, 16, 32, 64, 128, 256, 512, 1024, 4096]); let k = b * r.us(1, (n / b).max(1)); (k - r.below(2)).min(n - 1) }
        _ => r.below(n),
    }
}

/// zeros, infinities and NaN, whose sum and product do not depend on the order
fn sprinkle<T: Num>(r: &mut Rng, v: &mut [T]) {
    let zero = T::from_i(0);
    let inf = T::scalar(Div, T::from_i(1), zero);
    let ninf = T::scalar(Div, T::from_i(-1), zero);
    let nan = T::scalar(Div, zero, zero);
    for _ in 0..r.us(1, 3) {
        let k = spot(r, v.len());
        v[k] = *r.pick(&[zero, zero, inf, ninf, inf, nan]);
    }
}

/// exact reference for a list of elements
pub enum Want<T> { Exact(T), Near { value: f64, tol: f64 } }

pub fn reference<T: Num>(red: Red, v: &[T], exact: bool) -> Want<T> {
    match red {
        Sum | Product => {
            if T::FLOAT && !exact {
                let eps = if T::BITS == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
                if red == Sum {
                    // compensated sum
                    let (mut s, mut e, mut a) = (0f64, 0f64, 0f64);
                    for x in v { let x = x.to_f(); let t = s + x; e += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s }; s = t; a += x.abs(); }
                    return Want::Near { value: s + e, tol: a * eps * (v.len() as f64 + 2.0) + 1e-300 };
                }
                let p: f64 = v.iter().map(|x| x.to_f()).product();
                return Want::Near { value: p, tol: p.abs() * (eps + f64::EPSILON) * (v.len() as f64 + 2.0) * 2.0 + 1e-300 };
            }
            let op = if red == Sum { Add } else { Mul };
            let mut acc = T::from_i(if red == Sum { 0 } else { 1 });
            for &x in v { acc = T::scalar(op, acc, x); }
            Want::Exact(acc)
        }
        Mean => {
            let n = v.len();
            match reference(Sum, v, exact) {
                Want::Exact(s) => Want::Near { value: s.to_f() / n as f64, tol: (s.to_f() / n as f64).abs() * if T::BITS == 32 { 4.0 * f32::EPSILON as f64 } else { 4.0 * f64::EPSILON } },
                Want::Near { value, tol } => Want::Near { value: value / n as f64, tol: tol / n as f64 + (value / n as f64).abs() * if T::BITS == 32 { 4.0 * f32::EPSILON as f64 } else { 4.0 * f64::EPSILON } },
            }
        }
        Min | Max | MinMag | MaxMag => {
            let mag = matches!(red, MinMag | MaxMag);
            let mut it = v.iter().map(|&x| if mag { x.absv() } else { x });
            let mut acc = it.next().unwrap();
            for x in it { if matches!(red, Min | MinMag) { if x < acc { acc = x; } } else if x > acc { acc = x; } }
            Want::Exact(acc)
        }
    }
}

pub fn agrees<T: Num>(got: T, want: &Want<T>) -> bool {
    match want {
        Want::Exact(w) => got == *w || (got != got && *w != *w),
        Want::Near { value, tol } => {
            let g = got.to_f();
            if value.is_infinite() || value.is_nan() { g == *value || (g.is_nan() && value.is_nan()) } else { (g - value).abs() <= *tol }
        }
    }
}
pub fn show<T: Num>(w: &Want<T>) -> String { match w { Want::Exact(x) => format!("{x:?}"), Want::Near { value, tol } => format!("{value} within {tol:e}") } }

fn pick_red<T: Num>(r: &mut Rng) -> Red { let k = r.below(if T::FLOAT { 7 } else { 6 }); [Sum, Product, Min, Max, MinMag, MaxMag, Mean][k] }

pub fn full<T: Num>(a: &NdArray<'_, T>, red: Red) -> NdArray<'static, T> {
    match red { Sum => a.sum(), Product => a.product(), Min => a.min(), Max => a.max(), MinMag => a.min_magnitude(), MaxMag => a.max_magnitude(), Mean => T::mean(a).unwrap() }
}
pub fn along<T: Num>(a: &NdArray<'_, T>, red: Red, axes: &[isize]) -> NdArray<'static, T> {
    match red {
        Sum => a.sum_along(axes), Product => a.product_along(axes), Min => a.min_along(axes), Max => a.max_along(axes),
        MinMag => a.min_magnitude_along(axes), MaxMag => a.max_magnitude_along(axes), Mean => T::mean_along(a, axes).unwrap(),
    }
}

pub fn case_c09(c: &mut Case) -> Res { let k = c.rng.below(1 << 20); num_dtype!(k, T => c09::<T>(c)) }

/// data for a base buffer such that the *view* holds the generated values and all other cells hold junk
fn place<T: Num>(r: &mut Rng, plan: &Plan, gen: &mut dyn FnMut(&mut Rng, usize) -> (Vec<T>, bool)) -> (Vec<T>, bool, M) {
    let m = plan.steps.iter().fold(M::base(&plan.base), |m, s| m.apply(&s.step));
    let mut data: Vec<T> = (0..size(&plan.base)).map(|_| { let x = T::any(r); if x != x { T::max_v() } else { x } }).collect();
    // a repeated (broadcast) view has fewer cells than elements; its values must still be in range
    let mut cells: Vec<usize> = m.idx.clone();
    cells.sort(); cells.dedup();
    let reps = m.size() / cells.len();
    let (v, exact) = gen(r, m.size());
    let _ = reps;
    for (k, &cell) in cells.iter().enumerate() { data[cell] = v[k]; }
    (data, exact, m)
}

/// a repeated element multiplies its contribution: keep to layouts without repetition for sums and products
fn allow_bc(red: Red) -> bool { !matches!(red, Sum | Product | Mean) }

fn c09<T: Num>(c: &mut Case) -> Res {
    let red = pick_red::<T>(&mut c.rng);
    let shape = pick_shape(c, 7, 500);
    let o = opts_for(&shape, allow_bc(red));
    let mut plan = plan_for(&mut c.rng, &shape, o);
    let mut exact_bc = false;
    if !allow_bc(red) && c.rng.chance(1, 6) && size(&shape) < 200 {
        // repetition with values small enough for any number of repetitions
        let mut sh = shape.clone();
        for a in 0..sh.len() { if sh[a] == 1 && size(&sh) < 20000 { sh[a] = c.rng.us(1, 3); } }
        if c.rng.chance(1, 2) { sh.insert(0, c.rng.us(1, 3)); }
        plan.steps.push(PStep { step: Step::Broadcast(sh), consume: false });
        exact_bc = true;
    }
    c.note(format!("{} {red:?} of {}", T::NAME, plan_text(&plan)));
    c.sig(format!("{}{red:?}{}{}", T::NAME, kinds(&plan), size_class(size(&shape))));
    let (data, exact, m) = place::<T>(&mut c.rng, &plan, &mut |r, n| if exact_bc {
        ((0..n).map(|k| T::from_i(if red == Product { if k == 0 && T::SIGNED { -1 } else { 1 } } else if T::MAXI < 100000 { (k == 0) as i128 } else { r.range(0, 9) as i128 })).collect(), true)
    } else { values::<T>(r, red, n) });
    if exact_bc && red != Product && T::MAXI < 100000 && m.idx.iter().filter(|&&i| i == m.idx[0]).count() as i128 > T::MAXI { return Ok(()); }
    let want = reference(red, &m.values(&data), exact);
    with_plan(&plan, data, &mut no_mon, &mut |a, m, _| {
        let r = full(&a, red);
        ensure!(r.shape().is_empty() && r.size() == 1, "{red:?}: result has shape {:?}", r.shape());
        ensure!(agrees(r.value(), &want), "{red:?} of {} elements is {:?}, expected {}", m.size(), r.value(), show(&want));
        event("reductions_checked", 1);
        event("elements_reduced", m.size() as u64);
        Ok(())
    })?;
    Ok(())
}

pub fn case_c10(c: &mut Case) -> Res { let k = c.rng.below(1 << 20); num_dtype!(k, T => c10::<T>(c)) }

fn c10<T: Num>(c: &mut Case) -> Res {
    let red = pick_red::<T>(&mut c.rng);
    let mut shape = pick_shape(c, 7, 500);
    if shape.is_empty() { shape = vec![c.rng.us(1, 5)]; }
    let nd = shape.len();
    let o = opts_for(&shape, allow_bc(red));
    let plan = plan_for(&mut c.rng, &shape, o);
    let mut axes: Vec<usize> = match c.rng.below(6) { 0 => (0..nd).collect(), 1 => vec![c.rng.below(nd)], 2 => vec![nd - 1], 3 => vec![0], _ => (0..nd).filter(|_| c.rng.chance(1, 2)).collect() };
    c.rng.shuffle(&mut axes);
    let signed: Vec<isize> = axes.iter().map(|&a| if red == Mean { a as isize } else { neg_axis(&mut c.rng, a, nd) }).collect();
    c.note(format!("{} {red:?} along {signed:?} of {}", T::NAME, plan_text(&plan)));
    let mut mask = String::new();
    for a in 0..nd { mask.push(if axes.contains(&a) { 'x' } else { '.' }); }
    c.sig(format!("{}{red:?}{mask}{}{}", T::NAME, kinds(&plan), size_class(size(&shape))));
    let (data, exact, m) = place::<T>(&mut c.rng, &plan, &mut |r, n| values::<T>(r, red, n));
    let vals = m.values(&data);
    let keep: Vec<usize> = (0..nd).filter(|a| !axes.contains(a)).collect();
    let out: Vec<usize> = keep.iter().map(|&a| shape[a]).collect();
    let mut groups: Vec<Vec<T>> = vec![vec![]; size(&out)];
    let mut ix = vec![0; nd];
    for v in vals {
        let o = keep.iter().fold(0, |acc, &a| acc * shape[a] + ix[a]);
        groups[o].push(v);
        for a in (0..nd).rev() { ix[a] += 1; if ix[a] < shape[a] { break; } ix[a] = 0; }
    }
    let want: Vec<Want<T>> = groups.iter().map(|g| reference(red, g, exact)).collect();
    let single = signed.len() == 1 && c.rng.chance(1, 2);
    with_plan(&plan, data, &mut no_mon, &mut |a, _, _| {
        let r = if single && red == Sum { a.sum_along(Axis(signed[0])) } else if single && red == Max { a.max_along(signed[0]) } else { along(&a, red, &signed) };
        ensure!(r.shape() == out, "{red:?} along {signed:?} of shape {shape:?} has shape {:?}, expected {out:?}", r.shape());
        let got = contents(&r);
        ensure!(got.len() == want.len(), "{red:?} along {signed:?}: {} elements", got.len());
        for (k, w) in want.iter().enumerate() {
            ensure!(agrees(got[k], w), "{red:?} along {signed:?} of shape {shape:?}: element {:?} is {:?}, expected {}", unravel(k, &out), got[k], show(w));
        }
        if axes.len() == nd {
            let f = full(&a, red).value();
            ensure!(agrees(f, &want[0]), "full {red:?} is {f:?} but reducing every axis gives {:?}", got[0]);
        }
        event("axis_reductions_checked", 1);
        event("elements_compared", got.len() as u64);
        Ok(())
    })?;
    Ok(())
}
