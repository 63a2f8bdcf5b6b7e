//! C01/C02: every workload of every other monitor, run for what it does to memory only, and
//! programs made of owners (arrays, vectors, shared arrays, tensors, graphs) that come and go.
use redstone_ml::*;
use rsv::alloc;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::{any_dtype, ensure, num_dtype};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

/// The workloads of the other groups.
pub const SUBS: &[(&str, CaseFn)] = &[
    ("C03", crate::c03::case_c03), ("C06", crate::c03::case_c06), ("C04", crate::write::case_c04), ("C05", crate::write::case_c05),
    ("C07", crate::elem::case_c07), ("C08", crate::elem::case_c08), ("C09", crate::reduce::case_c09), ("C10", crate::reduce::case_c10),
    ("C11", crate::linalg::case_c11), ("C12", crate::linalg::case_c12), ("C13", crate::linalg::case_c13), ("C14", crate::iter::case_c14),
    ("C15", crate::iter::case_c15), ("C16", crate::misc::case_c16), ("C18", crate::misc::case_c18), ("C19", crate::tensor::case_c19),
    ("C20", crate::tensor::case_c20), ("C21", crate::tensor::case_c21), ("C22", crate::invalid::case_c22), ("C17", crate::misc::case_c17),
    ("own", own), ("train", train), ("panics", panicking), ("bytes", bytes),
];

/// Runs a workload for its effect on memory; what it thinks of the values is another property.
fn quietly(f: CaseFn, case: &mut Case) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(case))) {
        Ok(r) => { drop_last_panic(); r }
        Err(_) => Err(Fail(format!("unexpected panic: {}", take_last_panic()))),
    }
}

fn sub<'a>(c: &'a Case, rng: &Rng) -> Case<'a> {
    Case { rng: rng.clone(), cfg: c.cfg, sig: String::new(), desc: String::new() }
}

/// One workload under a sanitizer or interpreter: it aborts the process on an invalid access.
pub fn case_c01(c: &mut Case) -> Res {
    let (mut name, mut f) = SUBS[c.rng.below(SUBS.len())];
    // large samples take minutes in an interpreter
    if name == "C17" && c.cfg.tiny { (name, f) = SUBS[13]; }
    let rng = c.rng.clone();
    let (sig, desc, ok) = {
        let mut s = sub(c, &rng);
        let ok = quietly(f, &mut s).is_ok();
        (s.sig, s.desc, ok)
    };
    c.sig(format!("{name}:{sig}"));
    c.note(format!("{name}: {desc}"));
    event(if ok { "workloads_completed" } else { "workloads_with_other_complaints" }, 1);
    Ok(())
}

fn live() -> (u64, u64) { (alloc::LIVE.load(Relaxed), alloc::LIVE_BYTES.load(Relaxed)) }

/// The same workload again and again: after the first time (which may fill caches), each further
/// run must leave exactly as many blocks and bytes allocated as it found.
pub fn case_c02(c: &mut Case) -> Res {
    let k = if c.rng.chance(1, 3) { SUBS.len() - 1 - c.rng.below(4) } else { c.rng.below(SUBS.len() - 5) };
    let (name, f) = SUBS[k];
    let rng = c.rng.clone();
    let mut growth = vec![];
    let a0 = alloc::ALLOCS.load(Relaxed);
    let mut told = None;
    for round in 0..4 {
        let before = live();
        {
            let mut s = sub(c, &rng);
            let v = quietly(f, &mut s);
            // the workloads of this file watch ownership themselves
            if name.as_bytes()[0].is_ascii_lowercase() && v.is_err() { c.note(format!("{name}: {}", s.desc)); return v; }
            drop(v);
            if round == 0 { told = Some((std::mem::take(&mut s.sig), std::mem::take(&mut s.desc))); }
        }
        let after = live();
        if round == 0 {
            let (sig, desc) = told.take().unwrap();
            c.sig(format!("{name}:{sig}"));
            c.note(format!("{name}: {desc}"));
        } else if round == 1 && before == after {
            break;
        } else {
            growth.push((after.0 as i64 - before.0 as i64, after.1 as i64 - before.1 as i64));
        }
    }
    event("allocations_watched", alloc::ALLOCS.load(Relaxed) - a0);
    event("leak_comparisons", 1);
    if growth.len() == 3 && growth.iter().all(|g| g.0 != 0 || g.1 != 0) {
        return Err(Fail(format!("memory is not released: repeating the same calls changes what is allocated by {:?} (blocks, bytes) each time", growth)));
    }
    Ok(())
}

fn vec_with_slack<T: El>(r: &mut Rng, n: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(n + if r.chance(1, 2) { r.below(20) } else { 0 });
    v.extend((0..n).map(T::nth));
    v
}

enum Owner { Arr(NdArray<'static, f64>), Vec(Vec<f64>), Shared(Rc<NdArray<'static, f64>>), Tens(Tensor<'static, f64>) }
struct Held { o: Owner, shape: Vec<usize>, vals: Vec<f64> }

fn look(h: &Held) -> Res {
    let ok = match &h.o {
        Owner::Arr(a) => a.shape() == h.shape && same_all(&contents(a), &h.vals),
        Owner::Vec(v) => same_all(v, &h.vals),
        Owner::Shared(a) => a.shape() == h.shape && same_all(&contents(a), &h.vals),
        Owner::Tens(t) => t.shape() == h.shape && same_all(&contents(t.ndarray()), &h.vals),
    };
    event("owners_rechecked", 1);
    ensure!(ok, "an owner no longer has its contents: {:?} {:?}", h.shape, h.vals);
    Ok(())
}

/// Owners change hands: every conversion there is, in random order, everything dropped in random order.
pub fn own(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut pool: Vec<Held> = vec![];
    let mut log = String::new();
    for _ in 0..r.us(3, if c.cfg.tiny { 8 } else { 24 }) {
        let k = r.below(16);
        log.push((b'a' + k as u8) as char);
        if pool.is_empty() || k == 0 {
            let n = r.us(1, 40);
            let v: Vec<f64> = vec_with_slack(r, n);
            let sh = refactor(r, n);
            let a = unsafe { NdArray::from_contiguous_owned_buffer(sh.clone(), v.clone()) };
            let v2: Vec<f64> = vec_with_slack(r, n);
            let a = if r.chance(1, 2) { NdArray::new(v2).reshape(sh.clone()) } else { a };
            pool.push(Held { o: Owner::Arr(a), shape: sh, vals: v });
            continue;
        }
        let i = r.below(pool.len());
        let Held { o, shape, vals } = pool.swap_remove(i);
        let keep = |o: Owner, shape: Vec<usize>, vals: Vec<f64>| Held { o, shape, vals };
        match (k, o) {
            (1, o) => drop(o),
            (_, Owner::Vec(v)) => {
                let sh = refactor(r, v.len());
                if r.chance(1, 2) { pool.push(keep(Owner::Arr(NdArray::new(v).reshape(sh.clone())), sh, vals)); }
                else { pool.push(keep(Owner::Tens(Tensor::new(v).reshape(sh.clone())), sh, vals)); }
            }
            (2 | 3, Owner::Arr(a)) => {
                // a chain of consuming views that ends contiguous
                let sh = refactor(r, vals.len());
                let a = a.reshape(sh.clone()).unsqueeze(0).view().squeeze();
                let a = if a.ndims() >= 2 { a.transpose(0, 1).transpose(1, 0) } else { a };
                pool.push(keep(Owner::Arr(a.reshape(sh.clone())), sh, vals));
            }
            (4 | 5, Owner::Arr(a)) => pool.push(keep(Owner::Vec(a.into_data_vector()), vec![vals.len()], vals)),
            (6, Owner::Arr(a)) => {
                let b = a.clone();
                pool.push(keep(Owner::Arr(b), shape.clone(), vals.clone()));
                pool.push(keep(Owner::Arr(a), shape, vals));
            }
            (7, Owner::Arr(a)) => {
                let want: Vec<f64> = vals.iter().map(|x| x + x).collect();
                let b = a.clone();
                pool.push(keep(Owner::Arr(a + b), shape, want));
            }
            (8, Owner::Arr(a)) => {
                // views into it come and go while it lives
                let s: Vec<f64> = { let v = (&a).view(); let w = (&v).reshape([vals.len()]); let x = w.slice_along(Axis(0), 0..1); x.flatiter().collect() };
                ensure!(s[0].to_bits() == vals[0].to_bits(), "the first element of a slice is wrong");
                let items: Vec<NdArray<'_, f64>> = if a.ndims() > 0 { a.iter().collect() } else { vec![] };
                let n: usize = items.iter().map(|x| x.size()).sum();
                ensure!(a.ndims() == 0 || n == vals.len(), "iteration items do not add up");
                drop(items);
                pool.push(keep(Owner::Arr(a), shape, vals));
            }
            (9, Owner::Arr(a)) => { let f = a.flatten(); drop(a); pool.push(keep(Owner::Arr(f), vec![vals.len()], vals)); }
            (_, Owner::Arr(a)) => {
                if r.chance(1, 2) { let t = Tensor::new(a.into_data_vector()).reshape(shape.clone()); pool.push(keep(Owner::Tens(t), shape, vals)); }
                else { pool.push(keep(Owner::Shared(Rc::new(a)), shape, vals)); }
            }
            (2, Owner::Shared(a)) => { let b = a.clone(); pool.push(keep(Owner::Shared(b), shape.clone(), vals.clone())); pool.push(keep(Owner::Shared(a), shape, vals)); }
            (_, Owner::Shared(a)) => match Rc::try_unwrap(a) {
                Ok(x) => pool.push(keep(Owner::Arr(x), shape, vals)),
                Err(x) => pool.push(keep(Owner::Shared(x), shape, vals)),
            },
            (2 | 3, Owner::Tens(t)) => { let a = t.get_ndarray(); pool.push(keep(Owner::Shared(a), shape.clone(), vals.clone())); pool.push(keep(Owner::Tens(t), shape, vals)); }
            (4 | 5, Owner::Tens(t)) => { let a = t.into_ndarray(); pool.push(keep(Owner::Arr(a), shape, vals)); }
            (6, Owner::Tens(t)) => { let a = t.detach(); pool.push(keep(Owner::Arr(a), shape.clone(), vals.clone())); pool.push(keep(Owner::Tens(t), shape, vals)); }
            (7 | 8, Owner::Tens(t)) => { let sh = refactor(r, vals.len()); pool.push(keep(Owner::Tens(t.reshape(sh.clone())), sh, vals)); }
            (9 | 10, Owner::Tens(mut t)) => {
                if t.is_leaf() { t.set_requires_grad(true); }
                let u = (&t * 1.0).reshape([vals.len()]);
                if r.chance(1, 2) { u.backward(); }
                pool.push(keep(Owner::Tens(u), vec![vals.len()], vals.clone()));
                pool.push(keep(Owner::Tens(t), shape, vals));
            }
            (11, Owner::Tens(t)) => {
                let v: Vec<f64> = { let w = (&t).reshape([vals.len()]); contents(w.ndarray()) };
                ensure!(same_all(&v, &vals), "a borrowing reshape has other values");
                pool.push(keep(Owner::Tens(t), shape, vals));
            }
            (_, Owner::Tens(t)) => {
                let want: Vec<f64> = vals.iter().map(|x| -x).collect();
                pool.push(keep(Owner::Tens(-t), shape, want));
            }
        }
        for h in &pool { look(h)?; }
    }
    c.note(format!("owners {log}"));
    c.sig(log);
    let r = &mut c.rng;
    while !pool.is_empty() {
        let i = r.below(pool.len());
        pool.swap_remove(i);
        for h in &pool { look(h)?; }
    }
    Ok(())
}

/// A training loop: what is allocated must not grow from one iteration to the next.
pub fn train(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (n, m) = (r.us(1, 6), r.us(1, 6));
    let mut w = Tensor::<f64>::new((0..n * m).map(|i| i as f64 / 8.0).collect::<Vec<_>>()).reshape([n, m]);
    w.set_requires_grad(true);
    let mut b = Tensor::<f64>::new(vec![0.5; n]);
    if r.chance(1, 2) { b.set_requires_grad(true); }
    let x = Tensor::<f64>::new((0..m).map(|i| i as f64 - 1.0).collect::<Vec<_>>());
    let form = r.below(6);
    let zero = r.chance(1, 2);
    c.note(format!("training loop {n}x{m} form {form}"));
    c.sig(format!("train{form}{n}{m}"));
    let mut marks = vec![];
    let rounds = 6;
    marks.reserve(rounds);
    for _ in 0..rounds {
        {
            let y = w.matmul(&x) + &b;
            let l = match form {
                0 => (&y).dot(&y),
                1 => { let z = &y * &y; let o = Tensor::<f64>::ones([n]); z.dot(&o) }
                2 => { let z = (&y).reshape([n, 1]); let t = (&z).T(); let s = t.matmul(&z); s.reshape([1]) }
                3 => { let z = -(&y) / 2.0; let a = &z * &y; a - &b }
                4 => { let p = (&w).reshape([1, n, m]); let q = x.clone_of().reshape([1, m, 1]); p.bmm(&q).reshape([n]) }
                _ => { let z = (&y).unsqueeze(0) * (&y).unsqueeze(1); z.reshape([n * n]) }
            };
            let g0 = l.gradient().is_some();
            l.backward();
            if !g0 { event("training_steps", 1); }
            if form % 2 == 0 { l.backward(); }
        }
        let g: Vec<f64> = { let g = w.gradient(); g.map(|g| contents(&g)).unwrap_or_default() };
        ensure!(g.len() == n * m, "the gradient of the weights has {} elements", g.len());
        drop(g);
        if zero { w.zero_gradient(); b.zero_gradient(); }
        marks.push(live());
    }
    if cfg!(feature = "guardalloc") {
        ensure!(marks[2..].iter().all(|m| *m == marks[1]), "memory in use grows from one iteration to the next: {marks:?}");
    }
    Ok(())
}

trait CloneOf { fn clone_of(&self) -> Tensor<'static, f64>; }
impl CloneOf for Tensor<'_, f64> { fn clone_of(&self) -> Tensor<'static, f64> { Tensor::new(contents(self.ndarray())) } }

/// Operations that panic half-way while they own operands.
pub fn panicking(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    num_dtype!(k, T => panicking_t::<T>(c))
}

fn panicking_t<T: Num>(c: &mut Case) -> Res {
    let shape = pick_shape(c, 4, 60);
    let n = size(&shape);
    let r = &mut c.rng;
    let mut v: Vec<T> = vec_with_slack(r, n);
    let mut w: Vec<T> = vec_with_slack(r, n);
    for x in v.iter_mut() { if r.chance(1, 4) { *x = T::any(r); } }
    for x in w.iter_mut() { if r.chance(1, 4) { *x = T::any(r); } }
    if r.chance(1, 2) { w[n - 1] = T::zero_v(); v[n - 1] = T::min_v(); }
    let mk = |v: Vec<T>| -> NdArray<'static, T> { unsafe { NdArray::from_contiguous_owned_buffer(shape.clone(), v) } };
    let kind = r.below(12);
    let op = *r.pick(T::ops());
    let pass = *r.pick(&[Pass::RefRef, Pass::RefVal, Pass::ValRef, Pass::ValVal]);
    let other = { let mut s = shape.clone(); s.push(2); s.push(n + 1); s };
    let nd = shape.len();
    let mut rr = r.clone();
    let sh = shape.clone();
    let out = attempt(move || match kind {
        0..=2 => { T::bin(op, pass, mk(v), mk(w)); }
        3 => { T::bin_scalar(op, rr.chance(1, 2), mk(v), T::zero_v()); }
        4 => { let mut a = mk(v); T::iop(op, &mut a, &mk(w)); }
        5 => { let mut a = mk(v); T::iop_owned(op, &mut a, mk(w)); }
        6 => { mk(v).astype::<u8>(); mk(w).astype::<i16>(); }
        7 => { mk(v).reshape(other); }
        8 => { mk(v).unsqueeze(7).transpose(nd as isize + 3, 0); }
        9 => { let a = mk(v).unsqueeze(0).unsqueeze(0); let b = a.T(); b.reshape([n + 1]); }
        10 => { let a = mk(v); let x = a.unsqueeze(0).transpose(0, nd as isize); drop(x.into_data_vector()); NdArray::<f32>::new(vec![vec![1f32; 2], vec![2f32; 3]]); }
        _ => { let a = mk(v); a.product(); a.sum(); let d = T::einsum(&[&a], &["qq"], "qz"); drop(d); let _ = sh; }
    });
    let panicked = matches!(out, Outcome::Panic(_));
    drop(out);
    event(if panicked { "panics_observed" } else { "calls_that_did_not_panic" }, 1);
    c.note(format!("{} {:?} call kind {kind} {op:?} {pass:?} panicked {panicked}", T::NAME, shape));
    c.sig(format!("panic{}{kind}{op:?}{panicked}", T::NAME));
    Ok(())
}

/// The buffer goes at the very moment its last owner goes.
pub fn bytes(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    any_dtype!(k, T => bytes_t::<T>(c))
}

fn bytes_t<T: El>(c: &mut Case) -> Res {
    if !cfg!(feature = "guardalloc") { return Ok(()); }
    let shape = pick_shape(c, 5, 300);
    let n = size(&shape);
    let r = &mut c.rng;
    let v: Vec<T> = vec_with_slack(r, n);
    let cap = v.capacity();
    let b = (cap * std::mem::size_of::<T>()) as u64;
    let o = Opts { broadcast: false, max_steps: 6, max_base: n };
    let steps = forward_steps(r, &shape, o.max_steps, false);
    let steps: Vec<PStep> = steps.into_iter().filter(|s| matches!(s.step, Step::View | Step::Squeeze | Step::T | Step::Unsqueeze(_) | Step::Transpose(..))).collect();
    let cut = r.chance(1, 3);
    c.note(format!("{} {:?} capacity {cap} through {} consuming views", T::NAME, shape, steps.len()));
    c.sig(format!("bytes{}{:?}", T::NAME, steps.iter().map(|s| std::mem::discriminant(&s.step)).collect::<Vec<_>>().len()));
    let mut a = unsafe { NdArray::from_contiguous_owned_buffer(shape.clone(), v) };
    for s in &steps {
        let nd = a.ndims();
        let ok = |x: isize| x < nd as isize && x >= -(nd as isize);
        a = match &s.step {
            Step::View => a.view(), Step::Squeeze => a.squeeze(),
            Step::T if nd >= 2 => a.T(),
            Step::Unsqueeze(x) if *x <= nd as isize && *x >= -(nd as isize) => a.unsqueeze(*x),
            Step::Transpose(x, y) if ok(*x) && ok(*y) => a.transpose(*x, *y),
            _ => a,
        };
    }
    let before = live();
    if cut {
        // an owned, contiguous array gives its buffer away: nothing is freed with the array
        let a = a.squeeze();
        if a.is_contiguous() {
            let p = a.flatiter_ptr().next().unwrap();
            let v = a.into_data_vector();
            ensure!(v.len() == n && v.as_ptr() as usize == p as usize, "the data vector is not the array's buffer");
            ensure!(v.capacity() == cap, "a buffer of capacity {cap} comes back with capacity {}", v.capacity());
            let mid = live();
            drop(v);
            let freed = mid.1 - live().1;
            ensure!(freed == b, "dropping the data vector freed {freed} bytes, not {b}");
            event("releases_measured", 1);
        }
        return Ok(());
    }
    {
        let w = (&a).view();
        let x = (&w).unsqueeze(0);
        let mid = live();
        drop(x);
        drop(w);
        ensure!(mid.1 - live().1 < b.max(200) + 400, "dropping views freed {} bytes", mid.1 - live().1);
        ensure!(mid.0 - live().0 <= 4, "dropping two views freed {} blocks", mid.0 - live().0);
    }
    let lens = a.ndims();
    drop(a);
    let freed = before.1.wrapping_sub(live().1);
    ensure!(freed >= b && freed <= b + 64 * (lens as u64 + 8) * 8, "dropping the last owner of a buffer of {b} bytes freed {freed} bytes");
    event("releases_measured", 1);
    Ok(())
}
