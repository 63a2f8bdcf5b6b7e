//! C14: iteration order and coverage. C15: indexing.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::{any_dtype, ensure};

pub fn case_c14(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    any_dtype!(k, T => c14::<T>(c))
}

/// Drains an iterator, takes a few more steps after the end, and compares each item.
fn drain<T: El>(what: &str, it: &mut dyn Iterator<Item = NdArray<'_, T>>, shape: &[usize], want: &[Vec<T>]) -> Res {
    let mut n = 0;
    let mut ended = 0;
    for _ in 0..want.len() + 3 {
        match it.next() {
            Some(a) => {
                ensure!(ended == 0, "{what} yields an item again after it ended (item number {n})");
                ensure!(n < want.len(), "{what} yields more than the {} expected items", want.len());
                expect_exact(&format!("{what}, item {n}"), &a, shape, &want[n])?;
                n += 1;
            }
            None => ended += 1,
        }
    }
    ensure!(n == want.len(), "{what} yields {n} items, expected {}", want.len());
    ensure!(ended == 3, "{what} does not stay ended");
    event("sub_arrays_visited", n as u64);
    Ok(())
}

/// The sub-arrays at successive (row-major) positions of `axes` (ascending).
fn subs<T: Copy>(m: &M, vals: &[T], axes: &[usize]) -> (Vec<usize>, Vec<Vec<T>>) {
    let outer: Vec<usize> = axes.iter().map(|&a| m.shape[a]).collect();
    let inner_axes: Vec<usize> = (0..m.shape.len()).filter(|a| !axes.contains(a)).collect();
    let inner: Vec<usize> = inner_axes.iter().map(|&a| m.shape[a]).collect();
    let mut out = vec![];
    for o in 0..size(&outer) {
        let oi = unravel(o, &outer);
        let mut v = Vec::with_capacity(size(&inner));
        for i in 0..size(&inner) {
            let ii = unravel(i, &inner);
            let mut full = vec![0; m.shape.len()];
            for (k, &a) in axes.iter().enumerate() { full[a] = oi[k]; }
            for (k, &a) in inner_axes.iter().enumerate() { full[a] = ii[k]; }
            v.push(vals[ravel(&full, &m.shape)]);
        }
        out.push(v);
    }
    (inner, out)
}

/// Drives an iterator of `n` items through the methods every iterator has, and compares what each returns.
fn drive<I: Iterator>(what: &str, mut it: I, n: usize, r: &mut Rng, check: &dyn Fn(usize, &I::Item) -> Res) -> Res {
    let mut p = 0;
    let item = |what: String, x: Option<I::Item>, at: usize| -> Res {
        match x {
            Some(x) => { ensure!(at < n, "{what} yields an item beyond the {n} there are"); check(at, &x).map_err(|e| Fail(format!("{what}: {}", e.0))) }
            None => { ensure!(at >= n, "{what} yields nothing although item {at} of {n} is left"); Ok(()) }
        }
    };
    for _ in 0..r.us(1, 12) {
        let left = n - p;
        let k = match r.below(5) { 0 => 0, 1 => 1, 2 => left, 3 => r.below(left + 3), _ => r.below(7) };
        match r.below(6) {
            0 => { item(format!("{what}.next() at {p}"), it.next(), p)?; p = (p + 1).min(n); }
            1 => { item(format!("{what}.nth({k}) at {p}"), it.nth(k), p + k)?; p = (p + k + 1).min(n); }
            2 => {
                let (lo, hi) = it.size_hint();
                ensure!(lo <= left && hi.is_none_or(|h| h >= left), "{what}.size_hint() at {p} is {lo}, {hi:?} with {left} items left");
            }
            3 => {
                let k = k.min(50);
                for (j, x) in it.by_ref().take(k).enumerate() { item(format!("{what}.take({k}), item {j} at {p}"), Some(x), p + j)?; }
                p = (p + k).min(n);
            }
            4 => {
                let mut at = p + k;
                item(format!("{what}.skip({k}) at {p}"), it.by_ref().skip(k).next(), at)?;
                at = (at + 1).min(n);
                p = at;
            }
            _ => {
                let step = r.us(1, 5);
                for (j, x) in it.by_ref().step_by(step).take(3).enumerate() { item(format!("{what}.step_by({step}), item {j} at {p}"), Some(x), p + j * step)?; }
                // take(3) stops after the third item
                let taken = 3.min(n.saturating_sub(p).div_ceil(step));
                p = if taken == 3 { p + 2 * step + 1 } else { n };
            }
        }
    }
    event("iterator_calls_checked", 12);
    let left = n - p;
    match r.below(6) {
        0 => { let k = it.count(); ensure!(k == left, "{what}.count() at {p} is {k} with {left} items left"); }
        1 => { let x = it.last(); if left == 0 { ensure!(x.is_none(), "{what}.last() at the end yields an item"); } else { item(format!("{what}.last() at {p}"), x, n - 1)?; } }
        2 => {
            let v: Vec<I::Item> = it.collect();
            ensure!(v.len() == left, "{what}.collect() at {p} has {} items with {left} left", v.len());
            for (j, x) in v.into_iter().enumerate() { item(format!("{what}.collect(), item {j} at {p}"), Some(x), p + j)?; }
        }
        3 => {
            let mut j = p;
            let e = it.fold(Ok(()), |e: Res, x| { let e = e.and_then(|_| item(format!("{what}.fold(), item {j}"), Some(x), j)); j += 1; e });
            e?;
            ensure!(j == n, "{what}.fold() at {p} visits {} items with {left} left", j - p);
        }
        4 => {
            let mut j = p;
            let mut e = Ok(());
            it.for_each(|x| { if e.is_ok() { e = item(format!("{what}.for_each(), item {j}"), Some(x), j); } j += 1; });
            e?;
            ensure!(j == n, "{what}.for_each() at {p} visits {} items with {left} left", j - p);
        }
        _ => {
            let mut it = it.enumerate().filter(|(j, _)| j % 2 == 0);
            while let Some((j, x)) = it.next() { item(format!("{what}.filter(), item {j} at {p}"), Some(x), p + j)?; }
        }
    }
    Ok(())
}

fn c14<T: El>(c: &mut Case) -> Res {
    let shape = pick_shape(c, 8, 300);
    let o = opts_for(&shape, true);
    let plan = plan_for(&mut c.rng, &shape, o);
    let mode = c.rng.below(8);
    let mut r2 = Rng::new(c.rng.next(), 0);
    c.note(format!("{} mode {mode} {}", T::NAME, plan_text(&plan)));
    c.sig(format!("{}{mode}{}n{}s{}", T::NAME, kinds(&plan), shape.len(), size_class(size(&shape))));
    let data: Vec<T> = (0..size(&plan.base)).map(T::nth).collect();
    let nd = shape.len();
    let axis = if nd > 0 { c.rng.below(nd) } else { 0 };
    let neg = c.rng.chance(1, 3);
    let mut axes: Vec<usize> = (0..nd).filter(|_| c.rng.chance(1, 2)).collect();
    c.rng.shuffle(&mut axes);
    let as_array = c.rng.chance(1, 2);
    let split = c.rng.below(size(&shape) + 1);
    with_plan(&plan, data.clone(), &mut no_mon, &mut |a, m, mem| {
        let vals = m.values(&data);
        match mode {
            0 | 1 => {
                // flat iteration: addresses, values, and the end
                let mut it = a.flatiter();
                let mut ip = a.flatiter_ptr();
                for k in 0..m.size() {
                    let (v, p) = (it.next(), ip.next());
                    ensure!(matches!(v, Some(x) if T::same(x, vals[k])), "flat iteration yields {v:?} as element {k}, expected {:?}", vals[k]);
                    ensure!(matches!(p, Some(x) if mem.cell(x) == Some(m.idx[k])), "pointer iteration yields cell {:?} as element {k}, expected {}", p.map(|p| mem.cell(p)), m.idx[k]);
                }
                for _ in 0..4 {
                    let v = it.next();
                    ensure!(v.is_none(), "flat iteration of {} elements yields another element {v:?} after the end", m.size());
                    ensure!(ip.next().is_none(), "pointer iteration goes on after the end");
                }
                event("elements_visited", m.size() as u64);
                // two iterators over the same array do not disturb each other
                let mut i1 = a.flatiter();
                for v in vals.iter().take(split) { ensure!(matches!(i1.next(), Some(x) if T::same(x, *v)), "interrupted iteration differs"); }
                let full: Vec<T> = a.flatiter().take(m.size() + 1).collect();
                ensure!(same_all(&full, &vals), "a second iterator differs: {}", first_diff(&full, &vals));
                let rest: Vec<T> = i1.take(m.size() + 1).collect();
                ensure!(same_all(&rest, &vals[split..]), "iteration resumed after {split} elements differs: {}", first_diff(&rest, &vals[split..]));
            }
            6 => {
                drive("flatiter", a.flatiter(), m.size(), &mut r2, &|k, x| if T::same(*x, vals[k]) { Ok(()) } else { Err(Fail(format!("{x:?} as element {k}, expected {:?}", vals[k]))) })?;
                drive("flatiter_ptr", a.flatiter_ptr(), m.size(), &mut r2, &|k, x| if mem.cell(*x) == Some(m.idx[k]) { Ok(()) } else { Err(Fail(format!("cell {:?} as element {k}, expected {}", mem.cell(*x), m.idx[k]))) })?;
            }
            7 if nd > 0 => {
                let mut sorted = axes.clone(); sorted.sort();
                let which = r2.below(3);
                let (s, w) = match which { 0 => subs(m, &vals, &[0]), 1 => subs(m, &vals, &[axis]), _ => subs(m, &vals, &sorted) };
                let check = |k: usize, x: &NdArray<'_, T>| expect_exact(&format!("item {k}"), x, &s, &w[k]);
                match which {
                    0 => drive("iter", a.iter(), w.len(), &mut r2, &check)?,
                    1 => drive("iter_along", a.iter_along(axis as isize), w.len(), &mut r2, &check)?,
                    _ => drive("nditer", a.nditer(axes.clone()), w.len(), &mut r2, &check)?,
                }
            }
            2 if nd > 0 => {
                let (s, w) = subs(m, &vals, &[0]);
                drain("iter", &mut a.iter(), &s, &w)?;
            }
            3 if nd > 0 => {
                let (s, w) = subs(m, &vals, &[axis]);
                let ax = if neg { axis as isize - nd as isize } else { axis as isize };
                drain(&format!("iter_along({ax})"), &mut a.iter_along(ax), &s, &w)?;
                drain(&format!("iter_along(Axis({ax}))"), &mut a.iter_along(Axis(ax)), &s, &w)?;
            }
            _ if nd > 0 => {
                let mut sorted = axes.clone(); sorted.sort();
                let (s, w) = subs(m, &vals, &sorted);
                let what = format!("nditer({axes:?})");
                if as_array && axes.len() == 1 { drain(&what, &mut a.nditer([axes[0]]), &s, &w)?; }
                else if as_array && axes.len() == 2 { drain(&what, &mut a.nditer([axes[0], axes[1]]), &s, &w)?; }
                else { drain(&what, &mut a.nditer(axes.clone()), &s, &w)?; }
            }
            _ => {
                let v: Vec<T> = a.flatiter().take(3).collect();
                ensure!(same_all(&v, &vals), "iteration over a scalar yields {v:?}, expected {vals:?}");
                // no axes: the whole array, once
                let (s, w) = subs(m, &vals, &[]);
                drain("nditer([])", &mut a.nditer(vec![0usize; 0]), &s, &w)?;
            }
        }
        ensure!(same_all(&mem.snapshot(), &data), "iteration changed the array");
        event("iterations_checked", 1);
        Ok(())
    })?;
    Ok(())
}

pub fn case_c15(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    any_dtype!(k, T => c15::<T>(c))
}

fn c15<T: El>(c: &mut Case) -> Res {
    let shape = pick_shape(c, 8, 200);
    let o = opts_for(&shape, c.rng.chance(1, 2));
    let plan = plan_for(&mut c.rng, &shape, o);
    c.note(format!("{} {}", T::NAME, plan_text(&plan)));
    c.sig(format!("{}{}n{}s{}", T::NAME, kinds(&plan), shape.len(), size_class(size(&shape))));
    let ro = has_broadcast(&plan.steps);
    let data: Vec<T> = (0..size(&plan.base)).map(T::nth).collect();
    let nd = shape.len();
    let rng = &mut c.rng;
    let mut log = String::new();
    let r = with_plan(&plan, data.clone(), &mut no_mon, &mut |mut a, m, mem| {
        let mut want = data.clone();
        for _ in 0..12 {
            let k = rng.below(m.size());
            let ix = unravel(k, &m.shape);
            match rng.below(6) {
                0 | 1 => {
                    let got = get_at(&a, &ix);
                    ensure!(T::same(got, want[m.idx[k]]), "element {ix:?} reads {got:?}, expected {:?}", want[m.idx[k]]);
                    let nth = a.flatiter().nth(k);
                    ensure!(matches!(nth, Some(v) if T::same(v, got)), "element {ix:?} is {got:?} by index and {nth:?} by iteration");
                    if nd == 1 { ensure!(T::same(a[ix[0]], got), "a[{}] and a[[{}]] differ", ix[0], ix[0]); }
                    event("reads", 1);
                }
                2 => {
                    let x = T::any(rng);
                    match attempt(|| if nd == 1 && k % 2 == 0 { a[ix[0]] = x } else { set_at(&mut a, &ix, x) }) {
                        Outcome::Value(()) => { want[m.idx[k]] = x; event("writes", 1); }
                        Outcome::Panic(e) => { ensure!(ro, "assigning element {ix:?} panicked: {e}"); event("writes_refused", 1); }
                    }
                }
                3 => {
                    // one coordinate out of range, by a little or a lot
                    if nd == 0 { continue; }
                    let mut bad = ix.clone();
                    let ax = rng.below(nd);
                    let n = m.shape[ax];
                    bad[ax] = match rng.below(6) { 0 | 1 => n, 2 => n + 1, 3 => n * 2 + rng.below(5), 4 => usize::MAX, _ => usize::MAX / 2 + 1 };
                    log = format!("index {bad:?} of shape {:?}", m.shape);
                    ensure!(panics(|| { std::hint::black_box(get_at(&a, &bad)); }), "reading element {bad:?} of shape {:?} is not refused", m.shape);
                    let x = T::any(rng);
                    ensure!(panics(|| set_at(&mut a, &bad, x)), "assigning element {bad:?} of shape {:?} is not refused", m.shape);
                    if nd == 1 {
                        ensure!(panics(|| { std::hint::black_box(a[bad[0]]); }), "reading a[{}] of shape {:?} is not refused", bad[0], m.shape);
                        ensure!(panics(|| a[bad[0]] = x), "assigning a[{}] of shape {:?} is not refused", bad[0], m.shape);
                    }
                    event("out_of_range_refused", 1);
                }
                4 => {
                    // the wrong number of coordinates, all of them small
                    let cnt = if rng.chance(1, 2) { rng.below(11) } else if nd > 0 && rng.chance(1, 2) { nd - 1 } else { nd + 1 };
                    if cnt == nd { continue; }
                    let bad: Vec<usize> = (0..cnt).map(|i| if rng.chance(1, 2) || i >= nd { 0 } else { ix[i] }).collect();
                    log = format!("index {bad:?} of shape {:?}", m.shape);
                    ensure!(panics(|| { std::hint::black_box(get_at(&a, &bad)); }), "reading with {cnt} coordinates from {nd} axes is not refused");
                    let x = T::any(rng);
                    ensure!(panics(|| set_at(&mut a, &bad, x)), "assigning with {cnt} coordinates to {nd} axes is not refused");
                    event("wrong_count_refused", 1);
                }
                _ => {
                    if nd == 1 { continue; }
                    ensure!(panics(|| { std::hint::black_box(a[0]); }), "a[0] of an array with {nd} axes is not refused");
                    let x = T::any(rng);
                    ensure!(panics(|| a[0] = x), "a[0] = x of an array with {nd} axes is not refused");
                    event("wrong_count_refused", 1);
                }
            }
            let snap = mem.snapshot();
            ensure!(same_all(&snap, &want), "the buffer is wrong afterwards: cell {}", first_diff(&snap, &want));
        }
        if m.size() <= 400 {
            for k in 0..m.size() {
                let ix = unravel(k, &m.shape);
                let got = get_at(&a, &ix);
                ensure!(T::same(got, want[m.idx[k]]), "element {ix:?} reads {got:?}, expected {:?}", want[m.idx[k]]);
            }
            event("reads", m.size() as u64);
        }
        Ok(())
    });
    if r.is_err() { c.note(log); }
    r?;
    Ok(())
}
