//! C16: constructors. C17: random constructors. C18: conversion, equality, printing.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::{any_dtype, ensure, num_dtype};

// ---------------------------------------------------------------- C16

/// nested construction needs concrete element types
pub trait NewFrom: El {
    fn v1(d: Vec<Self>) -> NdArray<'static, Self>;
    fn v2(d: Vec<Vec<Self>>) -> NdArray<'static, Self>;
    fn v3(d: Vec<Vec<Vec<Self>>>) -> NdArray<'static, Self>;
    fn v4(d: Vec<Vec<Vec<Vec<Self>>>>) -> NdArray<'static, Self>;
    /// arrays (and arrays of vectors) of a few fixed shapes; None when k names none
    fn fixed(k: usize, f: &mut dyn FnMut() -> Self) -> Option<(Vec<usize>, NdArray<'static, Self>)>;
    fn mixed(rows: [Vec<Self>; 3]) -> NdArray<'static, Self>;
    fn mixed2(rows: Vec<[Self; 4]>) -> NdArray<'static, Self>;
    fn zeros_ones(shape: &[usize]) -> (NdArray<'static, Self>, NdArray<'static, Self>);
}
fn arr<T, const N: usize>(f: &mut dyn FnMut() -> T) -> [T; N] { std::array::from_fn(|_| f()) }
macro_rules! new_from { ($($t:ty)*) => { $(
    impl NewFrom for $t {
        fn v1(d: Vec<Self>) -> NdArray<'static, Self> { NdArray::new(d) }
        fn v2(d: Vec<Vec<Self>>) -> NdArray<'static, Self> { NdArray::new(d) }
        fn v3(d: Vec<Vec<Vec<Self>>>) -> NdArray<'static, Self> { NdArray::new(d) }
        fn v4(d: Vec<Vec<Vec<Vec<Self>>>>) -> NdArray<'static, Self> { NdArray::new(d) }
        fn fixed(k: usize, f: &mut dyn FnMut() -> Self) -> Option<(Vec<usize>, NdArray<'static, Self>)> {
            Some(match k {
                0 => (vec![1], NdArray::new(arr::<_, 1>(f))),
                1 => (vec![7], NdArray::new(arr::<_, 7>(f))),
                2 => (vec![2, 3], NdArray::new(arr::<_, 2>(&mut || arr::<_, 3>(f)))),
                3 => (vec![3, 1, 2], NdArray::new(arr::<_, 3>(&mut || arr::<_, 1>(&mut || arr::<_, 2>(f))))),
                4 => (vec![2, 3, 2, 4], NdArray::new(arr::<_, 2>(&mut || arr::<_, 3>(&mut || arr::<_, 2>(&mut || arr::<_, 4>(f)))))),
                5 => (vec![1, 1, 1, 2, 3], NdArray::new(arr::<_, 1>(&mut || arr::<_, 1>(&mut || arr::<_, 1>(&mut || arr::<_, 2>(&mut || arr::<_, 3>(f))))))),
                6 => (vec![2, 1, 2, 1, 2, 1], NdArray::new(arr::<_, 2>(&mut || arr::<_, 1>(&mut || arr::<_, 2>(&mut || arr::<_, 1>(&mut || arr::<_, 2>(&mut || arr::<_, 1>(f)))))))),
                7 => (vec![17, 19], NdArray::new(arr::<_, 17>(&mut || arr::<_, 19>(f)))),
                8 => (vec![64, 3], NdArray::new(arr::<_, 64>(&mut || arr::<_, 3>(f)))),
                _ => return None,
            })
        }
        fn mixed(rows: [Vec<Self>; 3]) -> NdArray<'static, Self> { NdArray::new(rows) }
        fn mixed2(rows: Vec<[Self; 4]>) -> NdArray<'static, Self> { NdArray::new(rows) }
        fn zeros_ones(shape: &[usize]) -> (NdArray<'static, Self>, NdArray<'static, Self>) { (NdArray::zeros(shape), NdArray::ones(shape)) }
    }
)* } }
new_from! { f32 f64 i32 bool i8 i16 i64 i128 isize u8 u16 u32 u64 u128 usize }

/// what every freshly constructed array must be
fn fresh<T: El>(what: &str, mut a: NdArray<'_, T>, shape: &[usize], vals: &[T]) -> Res {
    expect_exact(what, &a, shape, vals)?;
    ensure!(!a.is_view() && a.is_contiguous(), "{what}: not an owned contiguous array");
    ensure!(a.size() == vals.len() && a.ndims() == shape.len(), "{what}: size() or ndims() is wrong");
    let s = a.data_slice().to_vec();
    ensure!(same_all(&s, vals), "{what}: data slice {}", first_diff(&s, vals));
    // it owns its elements: writing one changes that one only
    let k = vals.len() / 2;
    if shape.len() <= 8 {
        let ix = unravel(k, shape);
        set_at(&mut a, &ix, T::nth(31));
        let mut w = vals.to_vec();
        w[k] = T::nth(31);
        let got = contents(&a);
        ensure!(same_all(&got, &w), "{what}: after assigning element {ix:?}, element {}", first_diff(&got, &w));
        let v = a.into_data_vector();
        ensure!(same_all(&v, &w), "{what}: into_data_vector gives something else: {}", first_diff(&v, &w));
    }
    event("arrays_constructed", 1);
    Ok(())
}

fn fresh_t<T: El + TensorDataType>(what: &str, t: Tensor<'_, T>, shape: &[usize], vals: &[T]) -> Res {
    ensure!(t.shape() == shape, "{what}: tensor shape {:?}, expected {shape:?}", t.shape());
    ensure!(!t.requires_grad() && t.is_leaf(), "{what}: a new tensor requires gradients or is no leaf");
    expect_exact(what, t.ndarray(), shape, vals)?;
    event("tensors_constructed", 1);
    Ok(())
}

fn nest<T: Copy>(shape: &[usize], vals: &[T]) -> Nested<T> {
    match shape.len() {
        1 => Nested::V1(vals.to_vec()),
        2 => Nested::V2(vals.chunks(shape[1]).map(|c| c.to_vec()).collect()),
        3 => Nested::V3(vals.chunks(shape[1] * shape[2]).map(|c| c.chunks(shape[2]).map(|c| c.to_vec()).collect()).collect()),
        _ => Nested::V4(vals.chunks(shape[1] * shape[2] * shape[3]).map(|c| c.chunks(shape[2] * shape[3]).map(|c| c.chunks(shape[3]).map(|c| c.to_vec()).collect()).collect()).collect()),
    }
}
enum Nested<T> { V1(Vec<T>), V2(Vec<Vec<T>>), V3(Vec<Vec<Vec<T>>>), V4(Vec<Vec<Vec<Vec<T>>>>) }
impl<T: NewFrom> Nested<T> {
    fn build(self) -> NdArray<'static, T> { match self { Nested::V1(v) => T::v1(v), Nested::V2(v) => T::v2(v), Nested::V3(v) => T::v3(v), Nested::V4(v) => T::v4(v) } }
    /// shortens, lengthens or empties one inner vector, at a random depth; the outermost one is left alone
    fn spoil(&mut self, r: &mut Rng) -> bool {
        fn change<U: Clone>(r: &mut Rng, v: &mut Vec<U>) { match r.below(3) { 0 => v.clear(), 1 => { v.pop(); } _ => { let x = v[0].clone(); v.push(x); } } }
        match self {
            Nested::V1(_) => false,
            Nested::V2(v) => { if v.len() < 2 { return false; } let i = r.below(v.len()); change(r, &mut v[i]); true }
            Nested::V3(v) => {
                let i = r.below(v.len());
                if r.chance(1, 2) { if v.len() < 2 { return false; } change(r, &mut v[i]); return true; }
                if v.len() * v[0].len() < 2 { return false; }
                let j = r.below(v[i].len()); change(r, &mut v[i][j]); true
            }
            Nested::V4(v) => {
                let i = r.below(v.len());
                if v.len() * v[0].len() * v[0][0].len() < 2 { return false; }
                let j = r.below(v[i].len());
                if r.chance(1, 3) && v.len() * v[0].len() >= 2 { change(r, &mut v[i][j]); return true; }
                let k = r.below(v[i][j].len()); change(r, &mut v[i][j][k]); true
            }
        }
    }
    /// empties one level everywhere
    fn hollow(&mut self, depth: usize) {
        match self {
            Nested::V1(v) => v.clear(),
            Nested::V2(v) => if depth == 0 { v.clear() } else { for x in v { x.clear() } },
            Nested::V3(v) => if depth == 0 { v.clear() } else { for x in v { if depth == 1 { x.clear() } else { for y in x { y.clear() } } } },
            Nested::V4(v) => if depth == 0 { v.clear() } else { for x in v { if depth == 1 { x.clear() } else { for y in x { if depth == 2 { y.clear() } else { for z in y { z.clear() } } } } } },
        }
    }
}

pub fn case_c16(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    match c.rng.below(10) {
        0..=4 => any_dtype!(k, T => c16_raw::<T>(c)),
        5..=6 => num_dtype!(k, T => c16_range::<T>(c)),
        _ => if k % 2 == 0 { c16_float::<f32>(c) } else { c16_float::<f64>(c) },
    }
}

fn c16_raw<T: NewFrom>(c: &mut Case) -> Res {
    let which = c.rng.below(9);
    c.note(format!("{} raw constructor {which}", T::NAME));
    match which {
        0 | 1 => {
            let shape = pick_shape(c, 8, 2000);
            c.note(format!("shape {shape:?}"));
            c.sig(format!("full{}{:?}", T::NAME, shape.iter().take(4).collect::<Vec<_>>()));
            let x = T::any(&mut c.rng);
            let n = size(&shape);
            let v = vec![x; n];
            match c.rng.below(3) { 0 => fresh("full", NdArray::full(x, shape.clone()), &shape, &v)?, 1 => fresh("full", NdArray::full(x, &shape), &shape, &v)?, _ => fresh("full", NdArray::full(x, &shape[..]), &shape, &v)? }
            if shape.len() == 1 { fresh("full with a number as shape", NdArray::full(x, n), &shape, &v)?; }
            if shape.len() == 2 { fresh("full with an array as shape", NdArray::full(x, [shape[0], shape[1]]), &shape, &v)?; }
            let (z, o) = T::zeros_ones(&shape);
            fresh("zeros", z, &shape, &vec![T::from_bool(false); n])?;
            fresh("ones", o, &shape, &vec![T::from_bool(true); n])?;
        }
        2 => {
            c.sig(format!("scalar{}", T::NAME));
            let x = T::any(&mut c.rng);
            let a = NdArray::<T>::scalar(x);
            ensure!(T::same(a.value(), x), "value of scalar({x:?}) is {:?}", a.value());
            fresh("scalar", a, &[], &[x])?;
        }
        3 => {
            let k = c.rng.below(9);
            c.sig(format!("array{}{k}", T::NAME));
            let mut vals = vec![];
            let r = &mut c.rng;
            let (shape, a) = T::fixed(k, &mut || { let x = T::any(r); vals.push(x); x }).unwrap();
            fresh("new from nested arrays", a, &shape, &vals)?;
        }
        4 => {
            let n = c.rng.us(1, 9);
            let mut rows: [Vec<T>; 3] = std::array::from_fn(|_| (0..n).map(|_| T::any(&mut c.rng)).collect());
            c.sig(format!("arrayofvec{}{n}", T::NAME));
            let vals: Vec<T> = rows.iter().flatten().copied().collect();
            fresh("new from an array of vectors", T::mixed(rows.clone()), &[3, n], &vals)?;
            let rows2: Vec<[T; 4]> = (0..n).map(|_| std::array::from_fn(|_| T::any(&mut c.rng))).collect();
            let vals: Vec<T> = rows2.iter().flatten().copied().collect();
            fresh("new from a vector of arrays", T::mixed2(rows2), &[n, 4], &vals)?;
            let i = c.rng.below(3);
            if c.rng.chance(1, 2) { rows[i].pop(); } else { rows[i].push(T::nth(3)); }
            ensure!(panics(|| { T::mixed(rows.clone()); }), "an array of vectors of lengths {:?} is accepted", rows.each_ref().map(|r| r.len()));
            event("ragged_refused", 1);
        }
        _ => {
            let nd = c.rng.us(1, 4);
            let big = c.rng.below(60) == 0;
            let shape: Vec<usize> = (0..nd).map(|_| if big { c.rng.us(1, 14) } else { c.rng.us(1, 5) }).collect();
            c.note(format!("shape {shape:?}"));
            c.sig(format!("vec{}{shape:?}", T::NAME));
            let vals: Vec<T> = (0..size(&shape)).map(|_| T::any(&mut c.rng)).collect();
            // spare capacity in the vector must not matter
            let mut n = nest(&shape, &vals);
            if let Nested::V1(v) = &mut n { if c.rng.chance(1, 2) { v.reserve(c.rng.us(1, 40)); } }
            fresh("new from nested vectors", n.build(), &shape, &vals)?;
            let mut n = nest(&shape, &vals);
            if n.spoil(&mut c.rng) {
                match attempt(|| n.build()) {
                    Outcome::Panic(_) => event("ragged_refused", 1),
                    Outcome::Value(a) => return Err(Fail(format!("ragged nested data is accepted as an array of shape {:?} with {} elements", a.shape(), a.size()))),
                }
            }
            if c.rng.chance(1, 3) {
                let d = c.rng.below(nd);
                let mut n = nest(&shape, &vals);
                n.hollow(d);
                match attempt(|| n.build()) {
                    Outcome::Panic(_) => event("empty_refused", 1),
                    Outcome::Value(a) => return Err(Fail(format!("empty nested data (emptied at depth {d} of {shape:?}) is accepted as an array of shape {:?}", a.shape()))),
                }
            }
            let mut es = shape.clone();
            let i = c.rng.below(nd);
            es[i] = 0;
            match attempt(|| NdArray::full(T::nth(1), es.clone())) {
                Outcome::Panic(_) => event("empty_refused", 1),
                Outcome::Value(_) => return Err(Fail(format!("full with the empty shape {es:?} is accepted"))),
            }
        }
    }
    Ok(())
}

fn c16_range<T: Num + NewFrom>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    // exact for every type: integers, or multiples of 1/8
    let unit: f64 = if T::FLOAT { 0.125 } else { 1.0 };
    let lim: i128 = match T::BITS { 8 => 120, 16 => 30000, _ => if r.chance(1, 8) { 200_000 } else { 3000 } };
    let mut step = if r.chance(1, 2) { 1 } else { r.range(1, 13) as i128 };
    if T::SIGNED && r.chance(1, 3) { step = -step; }
    let ones = r.chance(1, 3) && !T::FLOAT || r.chance(1, 6);
    if ones { step = if T::FLOAT { 8 } else { 1 }; }
    // the span must fit the type, and so must every index
    let half = if T::SIGNED { lim / 2 } else { 0 };
    let lo = r.range(-(half as i64), half as i64) as i128 + if T::SIGNED { 0 } else { r.range(0, (lim / 2) as i64) as i128 };
    let max_span = (if T::SIGNED { half } else { lim / 2 }).max(1);
    let max_span = if T::FLOAT && T::BITS == 32 { max_span.min(40_000) } else { max_span };
    let span = r.range(1, max_span as i64) as i128;
    let (start, stop) = if step > 0 { (lo, lo + span) } else { if T::SIGNED { (lo, lo - span) } else { (lo + span, lo) } };
    let n = ((stop - start).abs() + step.abs() - 1) / step.abs();
    let val = |i: i128| -> T { if T::FLOAT { f_to::<T>(i as f64 * unit) } else { T::from_i(i) } };
    let vals: Vec<T> = (0..n).map(|k| val(start + k * step)).collect();
    c.note(format!("{} arange {:?}..{:?} step {:?}", T::NAME, val(start), val(stop), val(step)));
    c.sig(format!("arange{}{}{}{}", T::NAME, step, size_class(n as usize), (stop - start) % step == 0));
    let a = if ones { NdArray::<T>::arange(val(start), val(stop)) } else { NdArray::<T>::arange_with_step(val(start), val(stop), val(step)) };
    fresh("arange", a, &[n as usize], &vals)?;
    // the wrong direction, or nothing at all
    if c.rng.chance(1, 4) {
        ensure!(panics(|| { NdArray::<T>::arange_with_step(val(stop), val(start), val(step)); }), "arange in the wrong direction is accepted");
        ensure!(panics(|| { NdArray::<T>::arange_with_step(val(start), val(start), val(step)); }), "an empty arange is accepted");
        event("empty_refused", 2);
    }
    Ok(())
}
fn f_to<T: Num>(x: f64) -> T { let mut best = None; if T::BITS == 32 { let y = x as f32; best = Some(unsafe { std::mem::transmute_copy::<f32, T>(&y) }) } else if T::BITS == 64 { best = Some(unsafe { std::mem::transmute_copy::<f64, T>(&x) }) } best.unwrap() }

fn c16_float<T: Num + NewFrom + FloatDataType>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let eps = if T::BITS == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
    let which = r.below(4);
    let v = |r: &mut Rng| -> f64 { match r.below(4) { 0 => r.range(-20, 20) as f64, 1 => (r.unit() - 0.5) * 2e6, 2 => r.unit(), _ => r.range(-4000, 4000) as f64 / 16.0 } };
    match which {
        0 | 1 => {
            let (s, e): (T, T) = (f_to(v(r)), f_to(v(r)));
            let num = match r.below(6) { 0 => 1, 1 => 2, 2 => 3, 3 => r.us(1000, 9000), _ => r.us(2, 60) };
            let excl = r.chance(1, 2);
            c.note(format!("{} linspace{} {s:?} {e:?} {num}", T::NAME, if excl { "_exclusive" } else { "" }));
            c.sig(format!("linspace{}{excl}{}", T::NAME, num));
            let (sf, ef) = (s.to_f(), e.to_f());
            let tol = 6.0 * eps * (sf.abs() + ef.abs());
            let chk = |what: &str, shape: &[usize], got: &[T]| -> Res {
                ensure!(shape == [num] && got.len() == num, "{what}({s:?}, {e:?}, {num}) has shape {shape:?}");
                let parts = if excl { num } else { (num - 1).max(1) } as f64;
                for (i, x) in got.iter().enumerate() {
                    let w = sf + (ef - sf) * (i as f64 / parts);
                    ensure!((x.to_f() - w).abs() <= tol, "{what}({s:?}, {e:?}, {num}): element {i} is {x:?}, expected {w}");
                }
                ensure!(T::same(got[0], s) || got[0] == s, "{what} does not start at {s:?} but {:?}", got[0]);
                Ok(())
            };
            let a = if excl { NdArray::<T>::linspace_exclusive(s, e, num) } else { NdArray::<T>::linspace(s, e, num) };
            chk("linspace", a.shape(), &contents(&a))?;
            ensure!(!a.is_view() && a.is_contiguous(), "linspace: not an owned contiguous array");
            let t = if excl { Tensor::<T>::linspace_exclusive(s, e, num) } else { Tensor::<T>::linspace(s, e, num) };
            chk("tensor linspace", t.shape(), &contents(t.ndarray()))?;
            ensure!(panics(|| { NdArray::<T>::linspace(s, e, 0); }), "linspace with no points is accepted");
            ensure!(panics(|| { NdArray::<T>::linspace_exclusive(s, e, 0); }), "linspace_exclusive with no points is accepted");
            event("intervals_checked", 1);
        }
        2 => {
            // steps that are not exact in binary: count and values as the documented formula has them
            let step: T = f_to(*r.pick(&[0.1, 0.2, 0.3, 0.7, 1.0 / 3.0, 2.5, 1e-3]));
            let k = r.us(1, 400);
            let s: T = f_to(v(r) % 64.0);
            // stop half a step beyond the last element: the count is not a matter of rounding
            let e: T = f_to(s.to_f() + (k as f64 - 0.5) * step.to_f());
            c.note(format!("{} arange_with_step {s:?} {e:?} {step:?}", T::NAME));
            c.sig(format!("farange{}{k}", T::NAME));
            let a = NdArray::<T>::arange_with_step(s, e, step);
            let tol = 6.0 * eps * (s.to_f().abs() + e.to_f().abs() + step.to_f());
            ensure!(a.shape() == [k], "arange_with_step has shape {:?}, expected [{k}]", a.shape());
            for (i, x) in contents(&a).iter().enumerate() {
                let w = s.to_f() + i as f64 * step.to_f();
                ensure!((x.to_f() - w).abs() <= tol, "arange_with_step: element {i} is {x:?}, expected {w}");
            }
            event("intervals_checked", 1);
        }
        _ => {
            let shape = pick_shape(c, 6, 1000);
            c.note(format!("{} tensor {shape:?}", T::NAME));
            c.sig(format!("tensor{}{shape:?}", T::NAME));
            let n = size(&shape);
            let x = T::any(&mut c.rng);
            fresh_t("full", Tensor::full(x, shape.clone()), &shape, &vec![x; n])?;
            fresh_t("zeros", Tensor::zeros(shape.clone()), &shape, &vec![T::zero_v(); n])?;
            fresh_t("ones", Tensor::ones(shape.clone()), &shape, &vec![T::one_v(); n])?;
            fresh_t("scalar", Tensor::scalar(x), &[], &[x])?;
            let k = c.rng.us(1, 40);
            fresh_t("arange", Tensor::arange(f_to(1.0), f_to(1.0 + k as f64)), &[k], &(0..k).map(|i| f_to(1.0 + i as f64)).collect::<Vec<T>>())?;
            let mut es = shape.clone();
            if !es.is_empty() { es[0] = 0; ensure!(panics(|| { Tensor::<T>::full(x, es.clone()); }), "a tensor of empty shape {es:?} is accepted"); }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn phi(x: f64) -> f64 {
    // Abramowitz-Stegun 7.1.26 by way of erf, absolute error below 1.5e-7
    let z = x.abs() / std::f64::consts::SQRT_2;
    let t = 1.0 / (1.0 + 0.3275911 * z);
    let e = 1.0 - (((((1.061405429 * t - 1.453152027) * t) + 1.421413741) * t - 0.284496736) * t + 0.254829592) * t * (-z * z).exp();
    if x >= 0.0 { 0.5 * (1.0 + e) } else { 0.5 * (1.0 - e) }
}

/// All thresholds below have false alarm probabilities of at most about 1e-13 per test.
fn statistics(what: &str, v: &[f64], mean: f64, var: f64, kurt: f64, cdf: &dyn Fn(f64) -> (f64, f64), lags: &[usize]) -> Res {
    let n = v.len() as f64;
    let m = v.iter().sum::<f64>() / n;
    let z = (m - mean) / (var / n).sqrt();
    ensure!(z.abs() < 7.6, "{what}: mean of {n} samples is {m}, expected {mean} (z = {z:.1})");
    let s2 = v.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / n;
    let z = (s2 - var) / (var * ((kurt - 1.0) / n).sqrt());
    ensure!(z.abs() < 8.0 || kurt <= 1.0, "{what}: variance of {n} samples is {s2}, expected {var} (z = {z:.1})");
    let mut s = v.to_vec();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut d: f64 = 0.0;
    let mut i = 0;
    while i < s.len() {
        let mut j = i;
        while j < s.len() && s[j] == s[i] { j += 1; }
        let (below, upto) = cdf(s[i]); // P(X < x), P(X <= x)
        d = d.max((i as f64 / n - below).abs()).max((j as f64 / n - upto).abs());
        i = j;
    }
    let k = d * n.sqrt();
    ensure!(k < 4.1, "{what}: the distribution of {n} samples is off: Kolmogorov distance {d:.5} (scaled {k:.1})");
    for &lag in lags {
        if lag == 0 || lag * 2 > v.len() { continue; }
        let m = v.len() - lag;
        let c = (0..m).map(|i| (v[i] - mean) * (v[i + lag] - mean)).sum::<f64>() / var;
        let z = c / (m as f64).sqrt();
        ensure!(z.abs() < 8.5, "{what}: samples {lag} apart are correlated (z = {z:.1})");
    }
    event("distributions_tested", 1);
    event("samples_tested", v.len() as u64);
    Ok(())
}

trait MakeRand<T: RawDataType> {
    fn vals(&self) -> Vec<T>;
    fn sh(&self) -> Vec<usize>;
    fn owned_ok(&self) -> bool { true }
}
impl<T: El> MakeRand<T> for NdArray<'_, T> {
    fn vals(&self) -> Vec<T> { contents(self) }
    fn sh(&self) -> Vec<usize> { self.shape().to_vec() }
    fn owned_ok(&self) -> bool { !self.is_view() && self.is_contiguous() && self.data_slice().len() == self.size() }
}
impl<T: El + TensorDataType> MakeRand<T> for Tensor<'_, T> {
    fn vals(&self) -> Vec<T> { contents(self.ndarray()) }
    fn sh(&self) -> Vec<usize> { self.shape().to_vec() }
}

/// 64 samples of one of the constructors, as bits.
fn sample(which: u64) -> Vec<u64> {
    fn f32s(v: Vec<f32>) -> Vec<u64> { v.into_iter().map(|x| x.to_bits() as u64).collect() }
    fn f64s(v: Vec<f64>) -> Vec<u64> { v.into_iter().map(|x| x.to_bits()).collect() }
    match which % 8 {
        0 => f32s(NdArray::<f32>::rand(64).vals()),
        1 => f64s(NdArray::<f64>::rand([8, 8]).vals()),
        2 => f32s(NdArray::<f32>::randn(64).vals()),
        3 => f64s(NdArray::<f64>::randn([4, 16]).vals()),
        4 => f32s(NdArray::<f32>::uniform(64, -3.0, 8.0).vals()),
        5 => f64s(Tensor::<f64>::uniform([2, 32], 5.0, 6.0).vals()),
        6 => NdArray::<i32>::randint(64, -1000, 1000).vals().into_iter().map(|x| x as u64).collect(),
        _ => NdArray::<u8>::randint([64], 0, 255).vals().into_iter().map(|x| x as u64).collect(),
    }
}

/// prints samples, for the comparison between processes
pub fn case_c17sample(c: &mut Case) -> Res {
    let s: Vec<String> = sample(c.cfg.case).iter().take(16).map(|x| format!("{x:x}")).collect();
    c.note(s.join(" "));
    c.sig("sample");
    Ok(())
}

/// first calls of fresh threads and fresh processes
fn c17_apart(c: &mut Case, which: u64) -> Res {
    c.note(format!("first samples of fresh threads or processes, constructor {}", which % 8));
    c.sig(format!("apart{}", which % 8));
    let v: Vec<Vec<u64>> = (0..3).map(|_| std::thread::spawn(move || sample(which)).join().unwrap()).collect();
    ensure!(v[0] != v[1] && v[0] != v[2] && v[1] != v[2], "two threads get the same 64 random samples");
    event("threads_compared", 3);
    if c.rng.chance(1, 3) {
        let exe = std::env::current_exe().unwrap();
        let k = which % 8;
        let run = || -> Option<String> {
            let o = std::process::Command::new(&exe).args(["--group", "C17sample", "--from", &k.to_string(), "--to", &(k + 1).to_string()])
                .stderr(std::process::Stdio::null()).output().ok()?;
            String::from_utf8_lossy(&o.stdout).lines().find(|l| l.starts_with("X ")).map(|l| l.to_string())
        };
        if let (Some(a), Some(b)) = (run(), run()) {
            ensure!(a != b, "two processes get the same random samples: {a}");
            event("processes_compared", 2);
        }
    }
    Ok(())
}

/// Very many calls for a few samples each: the samples of every position, over all calls, follow the distribution.
fn c17_pool<T: Num + FloatDataType, A: MakeRand<T> + RandomConstructors<T>>(c: &mut Case) -> Res {
    let which = c.rng.below(3);
    let n = c.rng.us(1, 9);
    let shape = if n % 2 == 0 && c.rng.chance(1, 2) { vec![n / 2, 2] } else { vec![n] };
    let calls = 20_000;
    let name = ["rand", "uniform", "randn"][which];
    c.note(format!("{calls} calls of {name} {} {shape:?}", T::NAME));
    c.sig(format!("pool{name}{}{shape:?}", T::NAME));
    let mut all: Vec<f64> = Vec::with_capacity(calls * n);
    for _ in 0..calls {
        let a: A = match which { 0 => A::rand(shape.clone()), 1 => A::uniform(shape.clone(), f_to(-2.0), f_to(6.0)), _ => A::randn(shape.clone()) };
        ensure!(a.sh() == shape, "{name} has shape {:?}, expected {shape:?}", a.sh());
        all.extend(a.vals().iter().map(|x| x.to_f()));
    }
    ensure!(all.len() == calls * n, "{name}: wrong number of samples");
    let unit = |v: &[f64]| -> Vec<f64> { if which == 1 { v.iter().map(|x| (x + 2.0) / 8.0).collect() } else { v.to_vec() } };
    let test = |what: String, v: Vec<f64>| -> Res<()> {
        if which == 2 { statistics(&what, &v, 0.0, 1.0, 3.0, &|x| (phi(x), phi(x)), &[1, 2, 3, 4, 8, 9]) }
        else { statistics(&what, &v, 0.5, 1.0 / 12.0, 1.8, &|x| (x, x), &[1, 2, 3, 4, 8, 9]) }
    };
    for k in 0..n {
        let col: Vec<f64> = all[k..].iter().step_by(n).copied().collect();
        test(format!("sample {k} of {n} of {calls} calls of {name}"), unit(&col))?;
    }
    test(format!("{calls} calls of {name} for {n} samples"), unit(&all))?;
    event("call_sequences_tested", 1);
    Ok(())
}

pub fn case_c17(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    if !c.cfg.tiny {
        match c.rng.below(300) {
            0 | 1 => return c17_apart(c, k as u64),
            2 => return match k % 4 { 0 => c17_pool::<f32, NdArray<'static, f32>>(c), 1 => c17_pool::<f64, NdArray<'static, f64>>(c), 2 => c17_pool::<f32, Tensor<'static, f32>>(c), _ => c17_pool::<f64, Tensor<'static, f64>>(c) },
            _ => {}
        }
    }
    match c.rng.below(4) {
        0 | 1 => num_dtype!(k, T => c17_int::<T>(c)),
        2 => if k % 2 == 0 { c17_float::<f32, NdArray<'static, f32>>(c) } else { c17_float::<f64, NdArray<'static, f64>>(c) },
        _ => if k % 2 == 0 { c17_float::<f32, Tensor<'static, f32>>(c) } else { c17_float::<f64, Tensor<'static, f64>>(c) },
    }
}

fn stat_shape(c: &mut Case) -> (Vec<usize>, bool) {
    let heavy = c.rng.below(12) == 0;
    if !heavy { return (pick_shape(c, 5, 600), false); }
    let n = *c.rng.pick(&[20_000usize, 20_000, 200_000]);
    let rows = *c.rng.pick(&[1usize, 4, 10, 100]);
    (if rows == 1 { vec![n] } else if c.rng.chance(1, 2) { vec![rows, n / rows] } else { vec![n / rows, rows] }, true)
}

fn c17_int<T: Num>(c: &mut Case) -> Res {
    let (shape, heavy) = stat_shape(c);
    let r = &mut c.rng;
    // sampling is done in floating point: where its resolution is no longer far finer than 1, the distribution is not specified
    let wide: i64 = match T::BITS { 32 if T::FLOAT => 4000, 8 => 100, 16 => 30000, _ => 1 << 22 };
    let k: i64 = match r.below(5) { 0 => 1, 1 => 2, 2 => r.range(2, 12), 3 => r.range(2, 100), _ => r.range(1, wide) };
    let lo = if T::SIGNED && T::BITS == 8 { r.range(-128, 127 - k) } else if T::SIGNED { r.range(-(wide), wide - k) } else if T::BITS == 8 { r.range(0, 255 - k) } else { r.range(0, wide) };
    let (low, high) = (T::from_i(lo as i128), T::from_i((lo + k) as i128));
    c.note(format!("randint {} {shape:?} {low:?}..{high:?}", T::NAME));
    c.sig(format!("randint{}{:?}{}", T::NAME, shape.len(), k.min(40)));
    let a = NdArray::<T>::randint(shape.clone(), low, high);
    let n = size(&shape);
    ensure!(a.sh() == shape, "randint has shape {:?}, expected {shape:?}", a.sh());
    ensure!(a.owned_ok(), "randint does not return an owned contiguous array");
    let v = a.vals();
    ensure!(v.len() == n, "randint holds {} samples, expected {n}", v.len());
    for x in &v {
        ensure!(*x >= low && *x < high && (!T::FLOAT || x.to_f().fract() == 0.0), "randint({low:?}, {high:?}) returns {x:?}");
    }
    event("samples_in_range", n as u64);
    if k >= 2 && n >= 200 {
        let b = NdArray::<T>::randint(shape.clone(), low, high);
        ensure!(!same_all(&v, &b.vals()), "two calls of randint return the same {n} samples");
        event("call_pairs_compared", 1);
    }
    if (n as i64) > 60 * k {
        let mut seen = vec![false; k as usize];
        for x in &v { seen[(x.to_i() - lo as i128) as usize] = true; }
        if let Some(i) = seen.iter().position(|s| !s) { return Err(Fail(format!("randint({low:?}, {high:?}) never returns {} in {n} samples", lo + i as i64))); }
        event("ranges_covered", 1);
    }
    if heavy && k >= 2 {
        let kf = k as f64;
        let f: Vec<f64> = v.iter().map(|x| x.to_f() - lo as f64).collect();
        let mean = (kf - 1.0) / 2.0;
        let var = (kf * kf - 1.0) / 12.0;
        let m4 = (kf * kf - 1.0) * (3.0 * kf * kf - 7.0) / 240.0;
        statistics("randint", &f, mean, var, m4 / (var * var), &|x| (x / kf, (x + 1.0) / kf), &lags(&shape))?;
    }
    Ok(())
}

fn lags(shape: &[usize]) -> Vec<usize> {
    let n = size(shape);
    let mut l: Vec<usize> = (1..=16).collect();
    l.extend([32, 64, 100, 128, 256, 1000, 1024, n / 2, n / 4, *shape.last().unwrap()]);
    l
}

fn c17_float<T: Num + FloatDataType, A: MakeRand<T> + RandomConstructors<T>>(c: &mut Case) -> Res {
    let (shape, heavy) = stat_shape(c);
    let which = c.rng.below(4);
    let r = &mut c.rng;
    let (lo, hi): (T, T) = match r.below(6) {
        0 => (f_to(-1.0), f_to(1.0)),
        1 => { let a = r.range(-1000, 1000) as f64; (f_to(a), f_to(a + r.range(1, 500) as f64 / 7.0)) }
        2 => (f_to(-1e30), f_to(3e30)),
        3 => (f_to(1e-30), f_to(4e-30)),
        4 => { // as narrow as possible: the upper bound is one to three steps above the lower one
            let a = 1.0 + r.range(0, 63) as f64 / 64.0;
            // (for doubles the rand crate takes 2^52 steps to set up such a range, so those get a wider one)
            let e = if T::BITS == 32 { f32::EPSILON as f64 } else { f64::EPSILON * 4294967296.0 };
            (f_to(a), f_to(a + e * r.range(1, 3) as f64))
        }
        _ => (f_to(0.0), f_to(r.unit() * 10.0 + 0.5)),
    };
    let narrow = (hi.to_f() - lo.to_f()) < 1e-6 * hi.to_f().abs() && hi.to_f() > 0.5;
    let call = || -> A { match which { 0 => A::rand(shape.clone()), 1 | 2 => A::uniform(shape.clone(), lo, hi), _ => A::randn(shape.clone()) } };
    let name = ["rand", "uniform", "uniform", "randn"][which];
    c.note(format!("{name} {} {shape:?} {lo:?}..{hi:?}", T::NAME));
    c.sig(format!("{name}{}{}{}{}", T::NAME, shape.len(), size_class(size(&shape)), narrow));
    let a = call();
    let n = size(&shape);
    ensure!(a.sh() == shape, "{name} has shape {:?}, expected {shape:?}", a.sh());
    ensure!(a.owned_ok(), "{name} does not return an owned contiguous array");
    let v = a.vals();
    ensure!(v.len() == n, "{name} holds {} samples, expected {n}", v.len());
    let (l, h) = match which { 0 => (0.0, 1.0), 3 => (-40.0, 40.0), _ => (lo.to_f(), hi.to_f()) };
    for x in &v { ensure!(x.to_f() >= l && x.to_f() < h, "{name} in [{l}, {h}) returns {x:?}"); }
    event("samples_in_range", n as u64);
    if n >= 20 && !narrow || n >= 400 && which != 1 && which != 2 {
        let b = call().vals();
        ensure!(!same_all(&v, &b), "two calls of {name} return the same {n} samples");
        let eq = v.windows(2).filter(|w| T::same(w[0], w[1])).count();
        ensure!(eq <= 3 + n / 1000, "{eq} of {n} successive samples of {name} are equal");
        event("call_pairs_compared", 1);
    }
    if heavy && !narrow {
        let f: Vec<f64> = v.iter().map(|x| x.to_f()).collect();
        match which {
            3 => statistics(name, &f, 0.0, 1.0, 3.0, &|x| (phi(x), phi(x)), &lags(&shape))?,
            _ => { let w = h - l; let f: Vec<f64> = f.iter().map(|x| (x - l) / w).collect();
                   statistics(name, &f, 0.5, 1.0 / 12.0, 1.8, &|x| (x, x), &lags(&shape))? }
        }
    }
    Ok(())
}

/// Very many samples: the ends of the range, and the tails.
pub fn case_c17big(c: &mut Case) -> Res {
    let k = c.cfg.case % 4;
    let n = 4_000_000usize;
    c.note(format!("{n} samples, constructor {k}"));
    c.sig(format!("big{k}"));
    match k {
        0 | 1 => {
            for _ in 0..4 {
                let a = NdArray::<f32>::rand(n);
                let (mut lo, mut hi) = (f32::MAX, f32::MIN);
                for x in a.data_slice() { lo = lo.min(*x); hi = hi.max(*x); }
                ensure!(lo >= 0.0 && hi < 1.0, "rand returns {lo:?} or {hi:?}, outside of [0, 1)");
                ensure!(lo < 1e-5 && hi > 1.0 - 1e-5, "{n} samples of rand span only {lo:?} to {hi:?}");
                event("samples_in_range", n as u64);
            }
        }
        2 => {
            let a = NdArray::<f32>::uniform(n, -3.0, 5.0);
            let (mut lo, mut hi) = (f32::MAX, f32::MIN);
            for x in a.data_slice() { lo = lo.min(*x); hi = hi.max(*x); }
            ensure!(lo >= -3.0 && hi < 5.0 && lo < -3.0 + 8e-5 && hi > 5.0 - 8e-5, "uniform(-3, 5) spans {lo:?} to {hi:?}");
            let a = NdArray::<i16>::randint(n, -30000, 2000);
            let (mut lo, mut hi) = (i16::MAX, i16::MIN);
            for x in a.data_slice() { lo = lo.min(*x); hi = hi.max(*x); }
            ensure!(lo == -30000 && hi == 1999, "randint(-30000, 2000) spans {lo} to {hi}");
            event("samples_in_range", 2 * n as u64);
        }
        _ => {
            let a = NdArray::<f64>::randn(n);
            // P(x > 4.2) = 1.33e-5: 53 expected on either side
            let hi = a.data_slice().iter().filter(|x| **x > 4.2).count();
            let lo = a.data_slice().iter().filter(|x| **x < -4.2).count();
            ensure!(lo > 3 && hi > 3 && lo < 150 && hi < 150, "of {n} samples of randn, {lo} lie below -4.2 and {hi} above 4.2; 53 expected each");
            let s2 = a.data_slice().iter().map(|x| x * x).sum::<f64>() / n as f64;
            let m = a.data_slice().iter().sum::<f64>() / n as f64;
            ensure!((s2 - 1.0).abs() < 8.0 * (2.0 / n as f64).sqrt() && m.abs() < 8.0 / (n as f64).sqrt(), "randn has mean {m} and variance {s2}");
            event("samples_in_range", n as u64);
        }
    }
    event("large_samples_checked", 1);
    Ok(())
}

// ---------------------------------------------------------------- C18

pub enum V { I(i128), U(u128), F(f64) }
pub trait Cast: Num {
    fn v(self) -> V;
    /// the value converted, or None when it cannot be represented
    fn of(v: &V) -> Option<Self>;
}
macro_rules! cast_int { ($($t:ty)*) => { $( impl Cast for $t {
    fn v(self) -> V { if (self as u128) <= i128::MAX as u128 || <$t>::MIN != 0 { V::I(self as i128) } else { V::U(self as u128) } }
    fn of(v: &V) -> Option<Self> { match *v {
        V::I(i) => <$t>::try_from(i).ok(),
        V::U(u) => <$t>::try_from(u).ok(),
        V::F(f) => {
            let t = f.trunc();
            if !t.is_finite() { return None; }
            // 2^127 and 2^128 do not fit i128: compare in floating point first
            if t < -1.7014118346046923e38 || t >= 3.402823669209385e38 { return None; }
            if t >= 1.7014118346046923e38 { <$t>::try_from(t as u128).ok() } else { <$t>::try_from(t as i128).ok() }
        }
    } }
} )* } }
cast_int! { i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize }
macro_rules! cast_float { ($($t:ty)*) => { $( impl Cast for $t {
    fn v(self) -> V { V::F(self as f64) }
    fn of(v: &V) -> Option<Self> { Some(match *v { V::I(i) => i as $t, V::U(u) => u as $t, V::F(f) => f as $t }) }
} )* } }
cast_float! { f32 f64 }

pub fn case_c18(c: &mut Case) -> Res {
    let (k, k2) = (c.rng.below(1 << 20), c.rng.below(1 << 20));
    match c.rng.below(5) {
        0 | 1 => num_dtype!(k, T => num_dtype!(k2, F => astype::<T, F>(c))),
        2 => any_dtype!(k, T => equality::<T>(c)),
        3 => any_dtype!(k, T => debug_text::<T>(c)),
        _ => if k % 2 == 0 { tensor_eq::<f32>(c) } else { tensor_eq::<f64>(c) },
    }
}

fn astype<T: Cast, F: Cast>(c: &mut Case) -> Res {
    let shape = pick_shape(c, 6, 200);
    let o = opts_for(&shape, true);
    let plan = plan_for(&mut c.rng, &shape, o);
    let style = c.rng.below(4);
    c.note(format!("astype {} to {} style {style} {}", T::NAME, F::NAME, plan_text(&plan)));
    c.sig(format!("as{}{}{style}{}", T::NAME, F::NAME, kinds(&plan)));
    let r = &mut c.rng;
    // values that fit both types, and now and then a single one that may not
    let mut data: Vec<T> = (0..size(&plan.base)).map(|_| {
        if T::FLOAT && style > 0 { let x: f64 = r.range(if F::SIGNED { -120 } else { 0 }, 126) as f64 + r.range(0, 7) as f64 / 8.0; f_to::<T>(x) }
        else { T::from_i(r.range(if T::SIGNED && F::SIGNED { -128 } else { 0 }, 127) as i128) }
    }).collect();
    if style == 2 { let k = r.below(data.len()); data[k] = edge::<T, F>(r); }
    if style == 3 && !T::FLOAT { for x in data.iter_mut() { let y = T::any(r); if F::of(&y.v()).is_some() { *x = y; } } }
    with_plan(&plan, data.clone(), &mut no_mon, &mut |a, m, mem| {
        let vals = m.values(&data);
        let want: Vec<Option<F>> = vals.iter().map(|x| F::of(&x.v())).collect();
        let out = attempt(|| a.astype::<F>());
        match out {
            Outcome::Value(b) => {
                if let Some(i) = want.iter().position(|w| w.is_none()) { return Err(Fail(format!("astype turns {:?}, which {} cannot represent, into {:?}", vals[i], F::NAME, contents(&b).get(i)))); }
                let w: Vec<F> = want.iter().map(|x| x.unwrap()).collect();
                expect_exact(&format!("astype from {} to {}", T::NAME, F::NAME), &b, &m.shape, &w)?;
                ensure!(!b.is_view() && b.is_contiguous(), "astype does not return an owned contiguous array");
                event("conversions_checked", 1);
            }
            Outcome::Panic(e) => {
                ensure!(want.iter().any(|w| w.is_none()), "astype from {} to {} panics although every value fits: {e}", T::NAME, F::NAME);
                event("conversions_refused", 1);
            }
        }
        ensure!(same_all(&mem.snapshot(), &data), "astype changed its operand");
        Ok(())
    })?;
    Ok(())
}

/// a value near the limits of either type
fn edge<T: Cast, F: Cast>(r: &mut Rng) -> T {
    if T::FLOAT {
        if F::FLOAT { return T::from_i(r.range(-1000, 1000) as i128); }
        let b = F::BITS as i32 - F::SIGNED as i32;
        // all of these are exact: the largest value below the limit in T's precision, the limit, NaN, infinity
        let p = 2f64.powi(b);
        let below = if T::BITS == 32 { if b <= 23 { p - 0.5 } else { p * (1.0 - f32::EPSILON as f64 / 2.0) } } else if b <= 52 { p - 0.5 } else { p * (1.0 - f64::EPSILON / 2.0) };
        let low = if F::SIGNED { -p } else { 0.0 };
        let x = match r.below(9) { 0 => p, 1 => below, 2 => low, 3 => if F::SIGNED { -p * 2.0 } else { -1.0 }, 4 => -0.5, 5 => f64::NAN, 6 => f64::INFINITY, 7 => f64::NEG_INFINITY, _ => p * 4.0 };
        if b >= 127 && T::BITS == 32 && x.is_finite() && x.abs() > 3e38 { return f_to::<T>(f64::INFINITY); }
        return f_to::<T>(x);
    }
    T::any(r)
}

fn strip(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

fn render<T: El>(shape: &[usize], vals: &[T]) -> String {
    if shape.is_empty() { return format!("{:?}", vals[0]); }
    let n = vals.len() / shape[0];
    let parts: Vec<String> = vals.chunks(n).map(|c| render(&shape[1..], c)).collect();
    format!("[{}]", parts.join(","))
}

fn debug_text<T: El>(c: &mut Case) -> Res {
    let long = c.rng.chance(1, 60) && !c.cfg.tiny;
    let shape = if long {
        let mut sh: Vec<usize> = (0..c.rng.below(4)).map(|_| c.rng.us(1, 3)).collect();
        sh.push(match c.rng.below(3) { 0 => c.rng.us(100, 1100), 1 => c.rng.us(1000, 5000), _ => c.rng.us(5000, 12000) });
        c.rng.shuffle(&mut sh);
        sh
    } else { rand_shape(&mut c.rng, 6, 60) };
    let o = opts_for(&shape, true);
    let plan = plan_for(&mut c.rng, &shape, o);
    c.note(format!("debug {} {}", T::NAME, plan_text(&plan)));
    c.sig(format!("dbg{}{:?}{}", T::NAME, shape, kinds(&plan)));
    let data: Vec<T> = (0..size(&plan.base)).map(|_| T::any(&mut c.rng)).collect();
    with_plan(&plan, data.clone(), &mut no_mon, &mut |a, m, _| {
        let s = format!("{a:?}");
        let w = render(&m.shape, &m.values(&data));
        let cut = |x: &str| x.chars().take(2000).collect::<String>();
        ensure!(strip(&s) == w, "the debug text is {}, expected (up to blanks) {}", cut(&s), cut(&w));
        event("texts_checked", 1);
        Ok(())
    })?;
    Ok(())
}

fn equality<T: El>(c: &mut Case) -> Res {
    let shape = pick_shape(c, 6, 200);
    let n = size(&shape);
    let (o, o2) = (opts_for(&shape, true), opts_for(&shape, false));
    let p1 = plan_for(&mut c.rng, &shape, o);
    let p2 = plan_for(&mut c.rng, &shape, o2);
    let kind = c.rng.below(6);
    c.note(format!("== {} kind {kind} {} and {}", T::NAME, plan_text(&p1), plan_text(&p2)));
    c.sig(format!("eq{}{kind}{}/{}", T::NAME, kinds(&p1), kinds(&p2)));
    let mut d1: Vec<T> = (0..size(&p1.base)).map(|_| loop { let x = T::any(&mut c.rng); if x == x { break x } }).collect();
    if kind == 5 && T::FLOAT { for x in d1.iter_mut() { *x = T::from_bool(false); } }
    let m1 = p1.steps.iter().fold(M::base(&p1.base), |m, s| m.apply(&s.step));
    let m2 = p2.steps.iter().fold(M::base(&p2.base), |m, s| m.apply(&s.step));
    let vals = m1.values(&d1);
    // the other operand: the same logical contents in another layout, everything around them different
    let mut d2: Vec<T> = (0..size(&p2.base)).map(|_| T::any(&mut c.rng)).collect();
    for (k, &i) in m2.idx.iter().enumerate() { d2[i] = vals[k]; }
    let k = match c.rng.below(4) { 0 => 0, 1 => n - 1, _ => c.rng.below(n) };
    if kind == 1 { d2[m2.idx[k]] = loop { let x = T::any(&mut c.rng); if x != vals[k] { break x } } }
    if kind == 5 && T::FLOAT { // zeros of either sign are equal
        let nz: T = if std::mem::size_of::<T>() == 4 { unsafe { std::mem::transmute_copy(&-0.0f32) } } else { unsafe { std::mem::transmute_copy(&-0.0f64) } };
        d2[m2.idx[k]] = nz;
    }
    let v2 = m2.values(&d2);
    let want = vals.iter().zip(&v2).all(|(a, b)| a == b);
    with_two((&p1, &p2), (d1, d2), &mut |(a, _, _), (b, _, _)| {
        let got = [a == b, b == a, &a == b, b == &a, a == &b, &a == &b];
        ensure!(got.iter().all(|g| *g == want), "equality of arrays with {} contents gives {got:?} (in the forms a==b, b==a, &a==b, b==&a, a==&b, &a==&b)", if want { "equal" } else { "different" });
        #[allow(clippy::partialeq_ne_impl)]
        { ensure!((a != b) != want, "a != b disagrees with a == b"); }
        event("equalities_checked", 1);
        Ok(())
    })?;
    // an array is compared with itself by its elements, too: it differs from itself when it holds a NaN
    if kind >= 3 {
        let mut d: Vec<T> = (0..size(&p1.base)).map(|_| loop { let x = T::any(&mut c.rng); if x == x { break x } }).collect();
        let bad = (0..200).map(|_| T::any(&mut c.rng)).find(|x| x != x);
        let put = bad.is_some() && c.rng.chance(1, 2);
        if put { d[m1.idx[k]] = bad.unwrap(); }
        let around = bad.is_some() && c.rng.chance(1, 2);
        if around {
            let mut inside = vec![false; d.len()];
            for &i in &m1.idx { inside[i] = true; }
            for (i, x) in d.iter_mut().enumerate() { if !inside[i] { *x = bad.unwrap(); } }
        }
        with_plan(&p1, d, &mut no_mon, &mut |a, _, _| {
            let v = (&a).view();
            #[allow(clippy::eq_op)]
            let got = [a == a, a == v, v == a, &a == &v, !(a != a), !(a != v)];
            ensure!(got.iter().all(|g| *g == !put), "equality of an array {} with itself (and with a view of itself) gives {got:?}", if put { "holding a NaN" } else { "without a NaN" });
            event("self_equalities_checked", 1);
            Ok(())
        })?;
    }
    // same elements, another shape
    if kind == 2 {
        let f = unsafe { NdArray::<T>::from_contiguous_owned_buffer(vec![n], vals.clone()) };
        let g = unsafe { NdArray::<T>::from_contiguous_owned_buffer(vec![n], vals.clone()) };
        let other = refactor(&mut c.rng, n);
        if other != [n] {
            let g = g.reshape(other.clone());
            ensure!(f != g && g != f && !(f == g), "arrays of shapes [{n}] and {other:?} are equal");
            event("equalities_checked", 1);
        }
        // a prefix is not the whole
        if n > 1 {
            let h = unsafe { NdArray::<T>::from_contiguous_owned_buffer(vec![n - 1], vals[..n - 1].to_vec()) };
            ensure!(f != h && h != f, "an array equals its own prefix");
        }
    }
    Ok(())
}

fn tensor_eq<T: Num + TensorDataType>(c: &mut Case) -> Res {
    let shape = rand_shape(&mut c.rng, 5, 60);
    let n = size(&shape);
    let vals: Vec<T> = (0..n).map(|_| f_to::<T>(c.rng.range(-5, 5) as f64)).collect();
    let k = c.rng.below(n);
    let differ = c.rng.chance(1, 2);
    let mut v2 = vals.clone();
    if differ { v2[k] = f_to::<T>(77.0); }
    c.note(format!("tensor == {} {shape:?} differ {differ} at {k}", T::NAME));
    c.sig(format!("teq{}{shape:?}{differ}", T::NAME));
    let t1 = unsafe { Tensor::<T>::from_contiguous_owned_buffer(shape.clone(), vals.clone()) };
    let t2 = unsafe { Tensor::<T>::from_contiguous_owned_buffer(shape.clone(), v2.clone()) };
    let a2 = unsafe { NdArray::<T>::from_contiguous_owned_buffer(shape.clone(), v2.clone()) };
    let got = [t1 == t2, t2 == t1, t1 == a2, a2 == t1, a2 == &t1, &a2 == t1];
    ensure!(got.iter().all(|g| *g != differ), "tensor equality gives {got:?}, expected {}", !differ);
    {
        let mut v3 = vals.clone();
        let nan = c.rng.chance(1, 2);
        if nan { v3[k] = f_to::<T>(f64::NAN); }
        let t3 = unsafe { Tensor::<T>::from_contiguous_owned_buffer(shape.clone(), v3) };
        let w = (&t3).view();
        #[allow(clippy::eq_op)]
        let got = [t3 == t3, t3 == w, w == t3, w == w, t3 == *t3.ndarray(), *t3.ndarray() == t3];
        ensure!(got.iter().all(|g| *g != nan), "equality of a tensor {} with itself (and with a view of itself) gives {got:?}", if nan { "holding a NaN" } else { "without a NaN" });
        event("self_equalities_checked", 1);
    }
    ensure!(strip(&format!("{t1:?}")) == render(&shape, &vals), "the debug text of the tensor is {t1:?}");
    event("equalities_checked", 1);
    event("texts_checked", 1);
    Ok(())
}
