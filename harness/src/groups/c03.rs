//! C03/C06: after every step of a chain of views, the real view is compared with the model.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::run::*;
use rsv::{any_dtype, ensure};

/// C03: cell addresses, shape, strides, size.
pub fn mon_addressing<T: El>(a: &NdArray<'_, T>, m: &M, mem: Mem<T>, _owned: bool) -> Res {
    ensure!(a.shape() == m.shape, "view has shape {:?}, expected {:?}", a.shape(), m.shape);
    ensure!(a.stride().len() == m.shape.len(), "view has {} strides for {} axes", a.stride().len(), m.shape.len());
    ensure!(a.ndims() == m.shape.len(), "ndims() is {}, expected {}", a.ndims(), m.shape.len());
    ensure!(a.size() == m.size(), "size() is {}, expected {}", a.size(), m.size());
    let l = m.shape.first().copied().unwrap_or(0);
    ensure!(a.len() == l, "len() is {}, expected {l}", a.len());
    let ptrs: Vec<*mut T> = a.flatiter_ptr().take(m.size() + 1).collect();
    ensure!(ptrs.len() == m.size(), "the view has {} element addresses, expected {}", ptrs.len(), m.size());
    for (k, p) in ptrs.iter().enumerate() {
        let c = mem.cell(*p);
        ensure!(c == Some(m.idx[k]), "element {:?} of the view is cell {:?} of the source, expected {}", unravel(k, &m.shape), c, m.idx[k]);
    }
    // the reported strides must describe the same addresses
    let st = a.stride();
    let mut ix = vec![0usize; m.shape.len()];
    for k in 0..m.size() {
        let off: usize = ix.iter().zip(st).map(|(i, s)| i * s).sum();
        ensure!(m.idx[0] + off == m.idx[k], "strides {:?} put element {:?} at distance {} from the first, expected {}", st, ix, off, m.idx[k] as isize - m.idx[0] as isize);
        for x in (0..ix.len()).rev() { ix[x] += 1; if ix[x] < m.shape[x] { break; } ix[x] = 0; }
    }
    event("view_states_checked", 1);
    event("addresses_checked", m.size() as u64);
    Ok(())
}

pub fn case_c03(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    any_dtype!(k, T => go::<T>(c, &mut mon_addressing::<T>))
}

fn go<T: El>(c: &mut Case, mon: &mut dyn FnMut(&NdArray<'_, T>, &M, Mem<T>, bool) -> Res) -> Res {
    let (max, nd) = if c.cfg.tiny { (24, 4) } else { (400, 9) };
    let target = rand_shape(&mut c.rng, nd, max);
    let o = Opts { max_steps: if c.cfg.thorough { 9 } else { 6 }, max_base: if c.cfg.tiny { 200 } else { 4000 }, ..Default::default() };
    let p = plan_for(&mut c.rng, &target, o);
    c.note(format!("{} {}", T::NAME, plan_text(&p)));
    c.sig(format!("{}{}n{}s{}", T::NAME, kinds(&p), target.len(), size_class(size(&target))));
    let data: Vec<T> = (0..size(&p.base)).map(T::nth).collect();
    let want = data.clone();
    with_plan(&p, data, mon, &mut |a, m, mem| {
        // reading through the view gives the source elements, and taking views copied or changed nothing
        let v = contents(&a);
        let e = m.values(&want);
        ensure!(v.len() == e.len() && v.iter().zip(&e).all(|(x, y)| T::same(*x, *y)), "elements read through the view are {v:?}, expected {e:?}");
        let snap = mem.snapshot();
        ensure!(snap.iter().zip(&want).all(|(x, y)| T::same(*x, *y)), "taking views changed the source buffer");
        Ok(())
    })?;
    if !T::FLOAT && T::NAME == "i32" { subscript_view(c)?; }
    Ok(())
}

/// einsum_view is a view too
fn subscript_view(c: &mut Case) -> Res {
    let sh = { let mut s = rand_shape(&mut c.rng, 5, 120); if s.is_empty() { s = vec![3]; } s };
    let p = plan_for(&mut c.rng, &sh, Opts::default());
    let n = sh.len();
    let letters: Vec<char> = "abcdefghij".chars().collect();
    let mut perm: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut perm);
    let inp: String = letters[..n].iter().collect();
    let out: String = perm.iter().map(|&i| letters[i]).collect();
    c.note(format!("einsum_view {inp}->{out} of {}", plan_text(&p)));
    with_plan::<i32, ()>(&p, (0..size(&p.base)).map(i32::nth).collect(), &mut no_mon, &mut |a, m, mem| {
        let v = match einsum_view(&a, (&inp, &out)) { Some(v) => v, None => return Err(Fail(format!("einsum_view {inp}->{out} returned nothing"))) };
        let nsh: Vec<usize> = perm.iter().map(|&i| m.shape[i]).collect();
        let mut idx = vec![];
        for k in 0..size(&nsh) {
            let o = unravel(k, &nsh);
            let mut ix = vec![0; n];
            for (q, &i) in perm.iter().enumerate() { ix[i] = o[q]; }
            idx.push(m.idx[ravel(&ix, &m.shape)]);
        }
        mon_addressing(&v, &M { shape: nsh, idx }, mem, false)
    })?;
    Ok(())
}

/// C06: flags tell the truth.
pub fn mon_flags<T: El>(a: &NdArray<'_, T>, m: &M, mem: Mem<T>, owned: bool) -> Res {
    let ptrs: Vec<usize> = a.flatiter_ptr().take(m.size() + 1).map(|p| p as usize).collect();
    let w = std::mem::size_of::<T>();
    ensure!(ptrs.len() == m.size(), "array of size {} has {} element addresses", m.size(), ptrs.len());
    let gap = |k: usize| ptrs.windows(2).all(|p| p[1].wrapping_sub(p[0]) == k * w);
    ensure!(a.is_view() != owned, "is_view() is {} for an array that {} its storage", a.is_view(), if owned { "owns" } else { "does not own" });
    if a.is_contiguous() {
        event("contiguous_states", 1);
        ensure!(gap(1), "shape {:?} stride {:?} reports contiguous but its elements are not consecutive in memory", a.shape(), a.stride());
        let s = a.data_slice();
        ensure!(s.as_ptr() as usize == ptrs[0], "data_slice does not start at the first element");
        ensure!(s.len() == m.size(), "data_slice of a contiguous array has {} elements, the array has {}", s.len(), m.size());
        let v = m.values(&mem.snapshot());
        ensure!(s.iter().zip(&v).all(|(x, y)| T::same(*x, *y)), "data_slice differs from the logical contents");
        ensure!(a.is_uniformly_strided(), "contiguous array does not report a uniform stride");
    } else {
        event("non_contiguous_states", 1);
        ensure!(panics(|| { a.data_slice(); }), "data_slice of a non-contiguous array did not panic");
    }
    let us = a.has_uniform_stride();
    ensure!(us.is_some() == a.is_uniformly_strided(), "has_uniform_stride() is {:?} but is_uniformly_strided() is {}", us, a.is_uniformly_strided());
    if let Some(k) = us {
        event("uniform_states", 1);
        ensure!(gap(k), "shape {:?} stride {:?} reports uniform stride {} but its elements are not that far apart", a.shape(), a.stride(), k);
        if a.is_contiguous() && m.size() > 1 { ensure!(k == 1, "contiguous array reports uniform stride {k}"); }
    }
    if owned { ensure!(true, ""); }
    event("view_states_checked", 1);
    Ok(())
}

pub fn case_c06(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    if k % 4 == 3 { return any_dtype!(k / 4, T => fresh::<T>(c)); }
    any_dtype!(k / 4, T => go::<T>(c, &mut mon_flags::<T>))
}

/// constructors and copies are contiguous, and owners
fn fresh<T: El>(c: &mut Case) -> Res {
    let target = rand_shape(&mut c.rng, 6, 300);
    let p = plan_for(&mut c.rng, &target, Opts::default());
    c.note(format!("copies of {} {}", T::NAME, plan_text(&p)));
    c.sig(format!("fresh{}{}", T::NAME, kinds(&p)));
    let data: Vec<T> = (0..size(&p.base)).map(T::nth).collect();
    let it_axis = c.rng.below(8);
    let fresh_ok = |what: &str, r: &NdArray<'_, T>| -> Res {
        let cont = contents(r);
        let ptr = match r.flatiter_ptr().next() { Some(p) => p, None => return Err(Fail(format!("{what} is empty"))) };
        ensure!(r.is_contiguous() && r.is_uniformly_strided() && !r.is_view(), "{what}: contiguous={} uniform={} view={}", r.is_contiguous(), r.is_uniformly_strided(), r.is_view());
        let mut st = vec![0; r.ndims()]; let mut acc = 1;
        for a in (0..r.ndims()).rev() { st[a] = acc; acc *= r.shape()[a]; }
        ensure!(r.stride() == st, "{what}: strides {:?} for shape {:?}", r.stride(), r.shape());
        mon_flags(r, &M::base(r.shape()), Mem { ptr, len: cont.len() }, true)?;
        event("fresh_arrays_checked", 1);
        Ok(())
    };
    with_plan(&p, data, &mut no_mon, &mut |a, m, _| {
        fresh_ok("clone()", &a.clone())?;
        fresh_ok("flatten()", &a.flatten())?;
        fresh_ok("full()", &NdArray::<T>::full(T::nth(3), m.shape.clone()))?;
        fresh_ok("scalar()", &NdArray::<T>::scalar(T::nth(5)))?;
        if !m.shape.is_empty() {
            let ax = it_axis % m.shape.len();
            for (k, s) in a.iter_along(ax as isize).take(m.shape[ax]).enumerate() { if k < 3 { fresh_ok("iteration item", &s)?; } }
        }
        let cl = a.clone();
        let want = contents(&cl);
        match attempt(|| cl.into_data_vector()) {
            Outcome::Value(v) => ensure!(v.len() == want.len() && v.iter().zip(&want).all(|(x, y)| T::same(*x, *y)), "into_data_vector of a copy has other contents"),
            Outcome::Panic(e) => return Err(Fail(format!("into_data_vector of a copy panicked: {e}"))),
        }
        let (view, cont, v) = (a.is_view(), a.is_contiguous(), contents(&a));
        match attempt(|| a.into_data_vector()) {
            Outcome::Value(d) => { ensure!(!view && cont, "into_data_vector succeeded on a view or non-contiguous array");
                ensure!(d.len() == v.len() && d.iter().zip(&v).all(|(x, y)| T::same(*x, *y)), "into_data_vector has other contents than the array"); }
            Outcome::Panic(e) => ensure!(view || !cont, "into_data_vector of an owned contiguous array panicked: {e}"),
        }
        Ok(())
    })?;
    Ok(())
}
