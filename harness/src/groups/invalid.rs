//! C22: calls that violate a requirement must panic, and must leave everything they were given as it was.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::{any_dtype, ensure, num_dtype};
use std::hint::black_box;

pub fn case_c22(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    match k % 8 {
        0..=3 => any_dtype!(k / 8, T => single::<T>(c)),
        4 | 5 => num_dtype!(k / 8, T => pair::<T>(c)),
        6 => if c.rng.chance(1, 2) { tensors::<f32>(c) } else { tensors::<f64>(c) },
        _ => num_dtype!(k / 8, T => constructors::<T>(c)),
    }
}

fn bad_axis(r: &mut Rng, n: usize) -> isize {
    let n = n as isize;
    *r.pick(&[n, n, n + 1, -n - 1, -n - 1, -n - 2, isize::MAX, isize::MIN, isize::MIN + 1, 1 << 32, -(1 << 32), n + 64, 2 * n + 3])
}
fn good_axis(r: &mut Rng, n: usize) -> isize { if n == 0 { 0 } else { let a = r.below(n); neg_axis(r, a, n) } }
fn bad_len(r: &mut Rng, n: usize) -> usize { *r.pick(&[n + 1, n + 1, n + 2, 2 * n, 2 * n + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2, 1 << 33]) }

/// an element or range that does not lie within an axis of length n, or is empty or reversed
fn bad_ix(r: &mut Rng, n: usize) -> Ix {
    let big = |r: &mut Rng| bad_len(r, n).max(n + 1);
    match r.below(12) {
        0 => Ix::At(n),
        1 => Ix::At(big(r)),
        2 => { let a = r.below(n); Ix::Range(a, big(r)) }
        3 => Ix::Range(n, big(r)),
        4 => { let a = r.us(0, n); Ix::Range(a, a) }
        5 => { let a = r.us(1, n); let b = r.below(a); Ix::Range(a, b) }
        6 => { let a = r.below(n); Ix::RangeIncl(a, big(r) - 1) }
        7 => if n >= 2 { let a = r.us(1, n - 1); let b = r.below(a); Ix::RangeIncl(a, b) } else { Ix::RangeIncl(0, n) },
        8 => Ix::From(*r.pick(&[n, n + 1, usize::MAX])),
        9 => Ix::To(big(r)),
        10 => Ix::To(0),
        _ => Ix::ToIncl(*r.pick(&[n, n + 1, usize::MAX - 1, usize::MAX])),
    }
}

fn slice_along<T: El>(a: &NdArray<'_, T>, ax: isize, ix: &Ix) {
    // the lifetime tie of slice_along is with the array itself
    let a: &NdArray<'_, T> = unsafe { std::mem::transmute(a) };
    match ix.clone() {
        Ix::At(i) => { black_box(a.slice_along(Axis(ax), i)); }
        Ix::Range(x, y) => { black_box(a.slice_along(Axis(ax), x..y)); }
        Ix::RangeIncl(x, y) => { black_box(a.slice_along(Axis(ax), x..=y)); }
        Ix::From(x) => { black_box(a.slice_along(Axis(ax), x..)); }
        Ix::To(y) => { black_box(a.slice_along(Axis(ax), ..y)); }
        Ix::ToIncl(y) => { black_box(a.slice_along(Axis(ax), ..=y)); }
        Ix::Full => { black_box(a.slice_along(Axis(ax), ..)); }
    }
}

fn refused(what: &str, f: impl FnOnce()) -> Res {
    ensure!(panics(f), "{what} was accepted");
    event("calls_refused", 1);
    Ok(())
}

/// shapes with another number of elements than n, none, or more than can be counted
fn bad_count(r: &mut Rng, n: usize) -> Vec<usize> {
    match r.below(8) {
        0 => vec![n + 1],
        1 => vec![n, 2],
        2 => vec![2, n, 1],
        3 => vec![0],
        4 => vec![n, 0],
        5 => vec![usize::MAX, 2, n],
        6 => vec![1 << 32, 1 << 32, n],       // product wraps to 0
        _ => if n > 1 { let mut s = vec![]; for _ in 0..r.us(0, 3) { s.push(1); } if r.chance(1, 2) { s.push(n - 1); } s } else { vec![2, 2] },
    }
}

fn wrapping_count(n: usize) -> Option<Vec<usize>> {
    // k * m = n modulo 2^64 with k odd: a shape whose wrapped element count is right
    for k in [3usize, 5, 7, 9, 11, 13] {
        let mut inv = 1usize;
        for _ in 0..6 { inv = inv.wrapping_mul(2usize.wrapping_sub(k.wrapping_mul(inv))); }
        let m = inv.wrapping_mul(n);
        if (k as u128) * (m as u128) != n as u128 { return Some(vec![k, m]); }
    }
    None
}

fn single<T: El>(c: &mut Case) -> Res {
    let mut shape = pick_shape(c, 6, 200);
    let kind = c.rng.below(17);
    if kind == 12 { shape.truncate(c.rng.below(2)); }
    let o = opts_for(&shape, c.rng.chance(1, 2) || kind == 13);
    let plan = plan_for(&mut c.rng, &shape, o);
    let ro = has_broadcast(&plan.steps);
    let data: Vec<T> = (0..size(&plan.base)).map(T::nth).collect();
    c.sig(format!("{}one{kind}{}n{}", T::NAME, kinds(&plan), shape.len()));
    c.note(format!("{} {}", T::NAME, plan_text(&plan)));
    let r = &mut c.rng;
    let nd = shape.len();
    let n = size(&shape);
    let mut log = String::new();
    let res = with_plan(&plan, data.clone(), &mut no_mon, &mut |a, m, mem| {
        let meta = (a.shape().to_vec(), a.stride().to_vec(), a.is_view(), a.is_contiguous(), a.is_uniformly_strided());
        let mut a = Some(a);
        macro_rules! no { ($($t:tt)*) => {{ log = format!($($t)*); log.clone() }} }
        macro_rules! a { () => { a.as_ref().unwrap() } }
        // a second handle for operations that consume: a view, so that the storage survives
        macro_rules! twice { ($what:expr, $x:ident => $e:expr) => {{
            let what = $what;
            refused(&what, || { let $x = a!(); black_box($e); })?;
            let v: NdArray<'_, T> = a!().view();
            refused(&format!("{what} (consuming)"), || { let $x = v; black_box($e); })?;
        }} }
        match kind {
            0 => { let s = bad_count(r, n); if s == shape { return Ok(()); } twice!(no!("reshape({s:?})"), x => x.reshape(s.clone())) }
            1 => { if let Some(s) = wrapping_count(n) { twice!(no!("reshape({s:?})"), x => x.reshape(s.clone())) } }
            2 => { let (x1, x2) = if r.chance(1, 2) { (bad_axis(r, nd), good_axis(r, nd)) } else { (good_axis(r, nd), bad_axis(r, nd)) };
                   twice!(no!("transpose({x1}, {x2})"), x => x.transpose(x1, x2)) }
            3 => { let x1 = bad_axis(r, nd + 1); twice!(no!("unsqueeze({x1})"), x => x.unsqueeze(x1)) }
            4 => { let x1 = bad_axis(r, nd); refused(&no!("iter_along({x1})"), || { black_box(a!().iter_along(x1)); })? }
            5 => { let x1 = bad_axis(r, nd); let ix = Ix::At(0); refused(&no!("slice_along(Axis({x1}), 0)"), || slice_along(a!(), x1, &ix))? }
            6 | 7 => if nd > 0 {
                let ax = r.below(nd); let ix = bad_ix(r, shape[ax]); let ax2 = neg_axis(r, ax, nd);
                refused(&no!("slice_along(Axis({ax2}), {ix:?})"), || slice_along(a!(), ax2, &ix))?;
            },
            8 | 9 => if nd > 0 {
                // one bad index among good ones, or too many
                let cnt = r.us(1, nd);
                let mut v: Vec<Ix> = (0..cnt).map(|k| { let l = r.us(1, shape[k]); let s = r.us(0, shape[k] - l); Ix::spell(r, s, l, shape[k]) }).collect();
                if r.chance(1, 4) { v = (0..nd).map(|k| Ix::At(r.below(shape[k]))).collect(); for _ in 0..r.us(1, 2) { v.push(if r.chance(1, 2) { Ix::At(0) } else { Ix::Full }); } }
                else { let k = r.below(cnt); v[k] = bad_ix(r, shape[k]); }
                refused(&no!("slice({v:?})"), || { black_box(a!().slice(v.iter().map(|i| i.lib()).collect::<Vec<_>>())); })?;
            },
            10 => {
                let s = match r.below(5) {
                    0 if nd > 0 => { let k = r.us(1, nd); shape[k..].to_vec() }
                    1 => { let mut s = shape.clone(); s.insert(0, 0); s }
                    2 => { let mut s = vec![1 << 32, 1 << 32]; s.extend(&shape); s }
                    _ => { let big: Vec<usize> = (0..nd).filter(|&k| shape[k] > 1).collect();
                        if big.is_empty() { return Ok(()); }
                        let k = *r.pick(&big); let mut s = shape.clone(); s[k] = *r.pick(&[1, shape[k] + 1, shape[k] - 1, shape[k] * 2, 0]); if s[k] == shape[k] { s[k] += 1; } s }
                };
                if s == shape { return Ok(()); }
                refused(&no!("broadcast_to({s:?})"), || { black_box(a!().broadcast_to(&s)); })?;
            }
            11 => if nd > 0 {
                // axes repeated or out of range
                let mut v: Vec<usize> = (0..nd).filter(|_| r.chance(1, 2)).collect();
                let x = r.below(nd);
                if r.chance(1, 2) { if !v.contains(&x) { v.push(x); } v.push(x); } else { v.push(*r.pick(&[nd, nd + 1, usize::MAX])); }
                r.shuffle(&mut v);
                refused(&no!("nditer({v:?})"), || { black_box(a!().nditer(v.clone())); })?;
                let b = bad_axis(r, nd);
                refused(&no!("iter_along({b})"), || { black_box(a!().iter_along(Axis(b))); })?;
            },
            12 => {
                // fewer than two axes
                match r.below(7) {
                    0 => twice!(no!("T of {nd} axes"), x => x.T()),
                    1 => refused(&no!("diagonal of {nd} axes"), || { black_box(a!().diagonal()); })?,
                    2 => refused(&no!("offset_diagonal of {nd} axes"), || { black_box(a!().offset_diagonal(0)); })?,
                    3 => refused(&no!("diagonal_along of {nd} axes"), || { black_box(a!().diagonal_along(0, 0)); })?,
                    4 => refused(&no!("diagonal_along of {nd} axes"), || { black_box(a!().diagonal_along(0, 1)); })?,
                    5 => refused(&no!("diagonal_along of {nd} axes"), || { black_box(a!().diagonal_along(0, -1)); })?,
                    _ => if nd == 0 { refused(&no!("iter of a scalar"), || { black_box(a!().iter()); })? },
                }
            }
            13 => {
                if ro {
                    let x = T::any(r);
                    let y = &mut a.as_mut().unwrap();
                    let ix = unravel(r.below(n), &shape);
                    refused(&no!("fill of a read-only view"), || y.fill(x))?;
                    refused(&no!("element assignment to a read-only view"), || set_at(y, &ix, x))?;
                }
            }
            14 => {
                if n > 1 { refused(&no!("value of {n} elements"), || { black_box(a!().value()); })?; }
                if !meta.3 { refused(&no!("data_slice of a non-contiguous array"), || { black_box(a!().data_slice().len()); })?; }
                if meta.2 || !meta.3 {
                    if meta.2 { let v = a.take().unwrap(); refused(&no!("into_data_vector of a view"), || { black_box(v.into_data_vector()); })?;
                        let s = mem.snapshot(); ensure!(same_all(&s, &data), "{log}: the buffer changed: {}", first_diff(&s, &data)); return Ok(()); }
                    let v: NdArray<'_, T> = a!().view();
                    refused(&no!("into_data_vector of a view"), || { black_box(v.into_data_vector()); })?;
                }
            }
            15 if nd >= 2 => {
                // diagonals: same axis twice, axes out of range, offsets out of range
                let p = r.below(nd); let q = (p + r.us(1, nd - 1)) % nd;
                let (np, nq) = (neg_axis(r, p, nd), neg_axis(r, q, nd));
                match r.below(4) {
                    0 => { let p2 = if np < 0 { p as isize } else { p as isize - nd as isize }; let p2 = if r.chance(1, 2) { p2 } else { np };
                        refused(&no!("diagonal_along({np}, {p2})"), || { black_box(a!().diagonal_along(np, p2)); })? }
                    1 => { let b = bad_axis(r, nd); let (x, y) = if r.chance(1, 2) { (b, nq) } else { (nq, b) };
                        refused(&no!("diagonal_along({x}, {y})"), || { black_box(a!().diagonal_along(x, y)); })? }
                    _ => { let off = if r.chance(1, 2) { let d = shape[q] as isize; *r.pick(&[d, d + 1, isize::MAX, 1 << 40]) } else { let d = shape[p] as isize; *r.pick(&[-d, -d - 1, isize::MIN, isize::MIN + 1, -(1 << 40)]) };
                        refused(&no!("offset_diagonal_along({off}, {np}, {nq})"), || { black_box(a!().offset_diagonal_along(off, np, nq)); })?;
                        if p == 0 && q == 1 { refused(&no!("offset_diagonal({off})"), || { black_box(a!().offset_diagonal(off)); })?; } }
                }
            }
            16 => {
                // reshape of an array that has no uniform stride
                if n > 1 && !meta.4 {
                    let s = if shape == [n] { vec![1, n] } else { vec![n] };
                    twice!(no!("reshape({s:?}) of a non-uniformly strided array"), x => x.reshape(s.clone()));
                }
            }
            _ => {}
        }
        let a = a.unwrap();
        let s = mem.snapshot();
        ensure!(same_all(&s, &data), "{log}: the buffer changed: {}", first_diff(&s, &data));
        let now = (a.shape().to_vec(), a.stride().to_vec(), a.is_view(), a.is_contiguous(), a.is_uniformly_strided());
        ensure!(now == meta, "{log}: the array is now {now:?}, before {meta:?}");
        expect_exact("the array after the refused call", &a, &m.shape, &m.values(&data))?;
        expect_exact("a copy after the refused call", &a.clone(), &m.shape, &m.values(&data))?;
        event("arrays_unchanged", 1);
        Ok(())
    });
    c.note(log);
    res.map(|_| ())
}

/// a shape that cannot be broadcast with `s` (which has an axis longer than 1)
fn incompatible(r: &mut Rng, s: &[usize]) -> Option<Vec<usize>> {
    let big: Vec<usize> = (0..s.len()).filter(|&k| s[k] > 1).collect();
    if big.is_empty() { return None; }
    let k = *r.pick(&big);
    let mut o = s.to_vec();
    o[k] = *r.pick(&[s[k] + 1, s[k] - 1, s[k] * 2, 2, 3]);
    if o[k] == s[k] || o[k] <= 1 { o[k] = s[k] + 1; }
    for j in 0..o.len() { if j != k && r.chance(1, 4) { o[j] = 1; } }
    if r.chance(1, 3) { let d = r.us(0, k); o.drain(..d); }
    else if r.chance(1, 4) { o.insert(0, r.us(1, 3)); }
    if size(&o) > 5000 { return None; }
    Some(o)
}

fn pair<T: Num>(c: &mut Case) -> Res {
    let kind = c.rng.below(9);
    let r = &mut c.rng;
    let d = |r: &mut Rng| r.us(1, 6);
    let other = |r: &mut Rng, x: usize| { let y = *r.pick(&[x + 1, x + 2, x * 2, 1, 2, x.saturating_sub(1)]); if y == x || y == 0 { x + 1 } else { y } };
    let (m, k, n, b) = (d(r), d(r), d(r), d(r));
    let (sa, sb): (Vec<usize>, Vec<usize>) = match kind {
        0 | 1 => { // incompatible shapes
            let s = { let mut s = rand_shape(r, 5, 120); if s.iter().all(|&x| x == 1) { s.push(r.us(2, 6)); } s };
            match incompatible(r, &s) { Some(o) => if r.chance(1, 2) { (s, o) } else { (o, s) }, None => return Ok(()) }
        }
        2 => match r.below(3) { 0 => (vec![k], vec![other(r, k)]), 1 => (vec![m, k], vec![k]), _ => if r.chance(1, 2) { (vec![k], vec![m, k]) } else { (vec![], vec![k]) } }, // dot
        3 => match r.below(7) { // matmul
            0 => (vec![m, k], vec![other(r, k)]), 1 | 2 => (vec![m, k], vec![other(r, k), n]), 3 => (vec![k], vec![k, n]), 4 => (vec![b, m, k], vec![k, n]),
            5 => (vec![b, m, k], vec![b, k, n]), _ => if r.chance(1, 2) { (vec![], vec![]) } else { (vec![m, k], vec![]) } },
        4 => match r.below(6) { // bmm
            0 => (vec![b, m, k], vec![other(r, b), k, n]), 1 | 2 => (vec![b, m, k], vec![b, other(r, k), n]), 3 => (vec![b, m, k], vec![k, n]), 4 => (vec![m, k], vec![b, k, n]), _ => (vec![1, b, m, k], vec![1, b, k, n]) },
        5 => (rand_shape(r, 5, 100), vec![1]), // axis reductions
        _ => (vec![m, k], vec![k, n]),         // einsum
    };
    let (oa, ob) = (opts_for(&sa, true), opts_for(&sb, true));
    let (pa, pb) = (plan_for(r, &sa, oa), plan_for(r, &sb, ob));
    let mk = |r: &mut Rng, n: usize| -> Vec<T> { (0..n).map(|_| T::from_i(r.range(1, 3) as i128)).collect() };
    let (da, db) = (mk(r, size(&pa.base)), mk(r, size(&pb.base)));
    let keep = (da.clone(), db.clone());
    c.sig(format!("{}two{kind}{}/{}", T::NAME, kinds(&pa), kinds(&pb)));
    c.note(format!("{} {} / {}", T::NAME, plan_text(&pa), plan_text(&pb)));
    let r = &mut c.rng;
    let mut log = String::new();
    let res = with_two((&pa, &pb), (da, db), &mut |(mut a, ma, mema), (bb, mb, memb)| {
        let meta = (a.shape().to_vec(), a.stride().to_vec(), bb.shape().to_vec(), bb.stride().to_vec());
        {
            let (x, y): (&NdArray<'_, T>, &NdArray<'_, T>) = unsafe { (std::mem::transmute(&a), std::mem::transmute(&bb)) };
            match kind {
                0 => { let op = *r.pick(T::ops()); let p = *r.pick(&[Pass::RefRef, Pass::RefVal, Pass::ValRef, Pass::ValVal]);
                    log = format!("{op:?} of shapes {sa:?} and {sb:?}"); refused(&log, || { black_box(T::bin(op, p, x.view(), y.view())); })?; }
                1 => { let op = *r.pick(T::ops()); log = format!("in-place {op:?} of shapes {sa:?} and {sb:?}");
                    let own = r.chance(1, 2);
                    refused(&log, || if own { T::iop_owned(op, &mut a, y.view()) } else { T::iop(op, &mut a, y) })?; }
                2 => { log = format!("dot of shapes {sa:?} and {sb:?}"); refused(&log, || { black_box(T::dot(x, y)); })?; }
                3 => { log = format!("matmul of shapes {sa:?} and {sb:?}"); refused(&log, || { black_box(T::matmul(x, y)); })?; }
                4 => { log = format!("bmm of shapes {sa:?} and {sb:?}"); refused(&log, || { black_box(T::bmm(x, y)); })?; }
                5 => {
                    let nd = sa.len();
                    let mut v: Vec<isize> = (0..nd).filter(|_| r.chance(1, 3)).map(|k| k as isize).collect();
                    if nd > 0 && r.chance(1, 2) { let q = r.below(nd) as isize; if !v.contains(&q) { v.push(q); } v.push(if r.chance(1, 2) { q } else { q - nd as isize }); }
                    else { v.push(bad_axis(r, nd)); }
                    r.shuffle(&mut v);
                    let k = r.below(9);
                    log = format!("axis reduction {k} over {v:?} of shape {sa:?}");
                    let f = || { match k {
                        0 => { black_box(x.sum_along(v.clone())); } 1 => { black_box(x.product_along(v.clone())); }
                        2 => { black_box(x.min_along(v.clone())); } 3 => { black_box(x.max_along(v.clone())); }
                        4 => { black_box(x.min_magnitude_along(v.clone())); } 5 => { black_box(x.max_magnitude_along(v.clone())); }
                        6 => { if T::mean_along(x, &v).is_none() { panic!("no mean") } }
                        7 => { let b = bad_axis_of(&v, nd); black_box(x.trace_along(b, 0)); }
                        _ => { let b = bad_axis_of(&v, nd); black_box(x.offset_trace_along(0, 0, b)); }
                    } };
                    refused(&log, f)?;
                    if nd < 2 { refused("trace of fewer than 2 axes", || { black_box(x.trace()); })?; refused("offset_trace of fewer than 2 axes", || { black_box(x.offset_trace(0)); })?; }
                }
                _ => {
                    // subscripts for two operands of two axes
                    let (mm, kk, _nn) = (sa[0], sa[1], sb[1]);
                    let opts: Vec<(Vec<&str>, &str)> = vec![
                        (vec!["ij"], "ij"), (vec!["ij", "jk", "kl"], "il"), (vec![], ""),                  // wrong number of subscripts
                        (vec!["i", "jk"], "ik"), (vec!["ijk", "jk"], "ik"), (vec!["ij", "j"], "i"), (vec!["", "jk"], "jk"), (vec!["ij", "jkl"], "il"),  // wrong number of labels
                        (vec!["ij", "jk"], "il"), (vec!["ij", "jk"], "iz"), (vec!["ij", "jk"], "ii"), (vec!["ij", "jk"], "iki"), (vec!["ij", "jk"], "ikik"), // bad output
                        (vec!["i1", "jk"], "ik"), (vec!["i*", "jk"], "ik"), (vec!["ij", "jk"], "i-"), (vec!["ij", "jé"], "i"), (vec!["i.", "jk"], "ik"), (vec!["ij", "jk"], "1"),
                    ];
                    let (subs, out) = r.pick(&opts).clone();
                    let mut use_it = true;
                    let (subs, out) = if r.chance(1, 4) { if mm == kk || kk != sb[0] { use_it = false; } (vec!["ii", "jk"], "k") } else { (subs, out) };
                    if !use_it { return Ok(()); }
                    // sizes that disagree
                    let (subs, out) = if kind == 8 { if sb[1] == kk { return Ok(()); } (vec!["ij", "kj"], "ik") } else { (subs, out) };
                    log = format!("einsum {subs:?} -> {out:?} of shapes {sa:?} and {sb:?}");
                    refused(&log, || { black_box(T::einsum(&[x, y], &subs, out)); })?;
                    if subs.len() == 2 && subs[0].len() != 2 { let (s, o) = (subs[0], out); refused(&format!("einsum_view {s} -> {o} of shape {sa:?}"), || { black_box(einsum_view(x, (s, o)).is_some()); })?; }
                }
            }
        }
        for (mem, d) in [(mema, &keep.0), (memb, &keep.1)] { let s = mem.snapshot(); ensure!(same_all(&s, d), "{log}: an operand changed: {}", first_diff(&s, d)); }
        ensure!(meta == (a.shape().to_vec(), a.stride().to_vec(), bb.shape().to_vec(), bb.stride().to_vec()), "{log}: the shape of an operand changed");
        expect_exact("the first operand after the refused call", &a.clone(), &ma.shape, &ma.values(&keep.0))?;
        expect_exact("the second operand after the refused call", &bb.clone(), &mb.shape, &mb.values(&keep.1))?;
        event("arrays_unchanged", 2);
        Ok(())
    });
    c.note(log);
    res.map(|_| ())
}

/// an out-of-range axis derived from the list, for the functions that take single axes
fn bad_axis_of(v: &[isize], nd: usize) -> isize { let n = nd as isize; v.iter().copied().find(|&x| x < -n || x >= n).unwrap_or(n) }

fn constructors<T: Num>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let kind = r.below(6);
    let shape: Vec<usize> = match r.below(6) {
        0 => vec![0], 1 => vec![3, 0, 2], 2 => vec![1 << 32, 1 << 32], 3 => vec![usize::MAX], 4 => vec![usize::MAX, 3], _ => vec![(isize::MAX as usize) / if kind == 5 { 4 } else { std::mem::size_of::<T>() } + 1] };
    c.sig(format!("{}con{kind}{shape:?}", T::NAME));
    c.note(format!("{} constructor {kind} {shape:?}", T::NAME));
    let r = &mut c.rng;
    match kind {
        0 => refused("zeros", || { black_box(NdArray::<T>::zeros(shape.clone())); }),
        1 => refused("ones", || { black_box(NdArray::<T>::ones(shape.clone())); }),
        2 => refused("full", || { black_box(NdArray::<T>::full(T::from_i(3), shape.clone())); }),
        3 => refused("randint", || { black_box(NdArray::<T>::randint(shape.clone(), T::from_i(0), T::from_i(3))); }),
        4 => { let (a, b) = (r.range(0, 5) as i128, r.range(0, 5) as i128); let (lo, hi) = (a.max(b), a.min(b));
            refused("randint with low >= high", || { black_box(NdArray::<T>::randint(vec![2], T::from_i(lo), T::from_i(hi))); }) }
        _ => {
            let (a, b) = (r.range(0, 5) as f64, r.range(0, 5) as f64); let (lo, hi) = (a.max(b), a.min(b));
            refused("uniform with low >= high", || { black_box(NdArray::<f64>::uniform(vec![2], lo, hi)); })?;
            refused("rand", || { black_box(NdArray::<f32>::rand(shape.clone())); })?;
            refused("randn", || { black_box(NdArray::<f64>::randn(shape.clone())); })?;
            refused("tensor zeros", || { black_box(Tensor::<f32>::zeros(shape.clone())); })
        }
    }
}

trait F: Num + TensorDataType {}
impl F for f32 {}
impl F for f64 {}

/// tensors with gradients, values and graphs intact after a refused call
fn tensors<T: F>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let mut sa = rand_shape(r, 4, 60);
    if sa.iter().all(|&d| d == 1) { sa.push(r.us(2, 5)); }
    let kind = r.below(9);
    let d = |r: &mut Rng| r.us(1, 5);
    let (m, k, n, b) = (d(r), d(r), d(r), d(r));
    let other = |r: &mut Rng, x: usize| if r.chance(1, 2) { x + 1 } else { x + 2 };
    let sb = match kind {
        0 | 1 => match incompatible(r, &sa) { Some(s) => s, None => return Ok(()) },
        2 => { sa = vec![k]; if r.chance(1, 2) { vec![other(r, k)] } else { vec![k, n] } }
        3 => { sa = vec![m, k]; match r.below(4) { 0 => vec![other(r, k)], 1 => vec![b, k, n], 2 => vec![], _ => vec![other(r, k), n] } }
        4 => { sa = vec![b, m, k]; match r.below(3) { 0 => vec![other(r, b), k, n], 1 => vec![b, other(r, k), n], _ => vec![k, n] } }
        _ => vec![2],
    };
    let val = |r: &mut Rng, n: usize| -> Vec<T> { (0..n).map(|_| T::from_i(r.range(-9, 9) as i128)).collect() };
    let (va, vb) = (val(r, size(&sa)), val(r, size(&sb)));
    let (ga, gb) = (r.chance(2, 3), r.chance(1, 2));
    let warm = r.chance(1, 2); // a gradient is there already
    c.sig(format!("{}ten{kind}{ga}{gb}{warm}{}{}", T::NAME, sa.len(), sb.len()));
    let mut a = unsafe { Tensor::<T>::from_contiguous_owned_buffer(sa.clone(), va.clone()) };
    let mut bt = unsafe { Tensor::<T>::from_contiguous_owned_buffer(sb.clone(), vb.clone()) };
    a.set_requires_grad(ga); bt.set_requires_grad(gb);
    let three = T::from_i(3);
    let mut times = 0;
    if warm && ga { (&a * three).backward(); times += 1; }
    let (x, y) = (&a, &bt);
    let r = &mut c.rng;
    let what;
    match kind {
        0 | 1 => { let op = r.below(4); what = format!("operator {op} of shapes {sa:?} and {sb:?}");
            refused(&what, || { match op { 0 => black_box(x + y), 1 => black_box(x - y), 2 => black_box(x * y), _ => black_box(x / y) }; })?; }
        2 => { what = format!("dot of shapes {sa:?} and {sb:?}"); refused(&what, || { black_box(x.dot(y)); })?; }
        3 => { what = format!("matmul of shapes {sa:?} and {sb:?}"); refused(&what, || { black_box(x.matmul(y)); })?; }
        4 => { what = format!("bmm of shapes {sa:?} and {sb:?}"); refused(&what, || { black_box(x.bmm(y)); })?; }
        5 => { let s = bad_count(r, size(&sa)); if s == sa { return Ok(()); } what = format!("reshape of {sa:?} to {s:?}"); refused(&what, || { black_box(x.reshape(s.clone())); })?; }
        6 => { let (p, q) = (bad_axis(r, sa.len()), good_axis(r, sa.len())); what = format!("transpose({p}, {q}) of {sa:?}"); refused(&what, || { black_box(x.transpose(p, q)); })?;
            let u = bad_axis(r, sa.len() + 1); refused(&format!("unsqueeze({u}) of {sa:?}"), || { black_box(x.unsqueeze(u)); })?;
            if sa.len() < 2 { refused(&format!("T of {sa:?}"), || { black_box(x.T()); })?; } }
        7 => { what = format!("value of {sa:?}"); if size(&sa) == 1 { return Ok(()); } refused(&what, || { black_box(x.value()); })?; }
        _ => {
            // a seed of another shape, even one that could be broadcast
            let mut s = sa.clone();
            match r.below(5) { 0 => s.insert(0, 1), 1 => { let k = r.below(s.len()); s[k] += 1; } 2 => s = vec![size(&sa), 1, 1], 3 => s = vec![], _ => { let k = r.below(s.len()); if s[k] == 1 { s[k] = 2 } else { s[k] = 1 } } }
            if s == sa { return Ok(()); }
            what = format!("backward_with a seed of shape {s:?} on {sa:?}");
            let seed: NdArray<'static, T> = NdArray::full(T::from_i(2), s.clone());
            let res = x * three;
            refused(&what, || res.backward_with(&seed))?;
            refused(&what, || x.backward_with(&seed))?;
        }
    }
    // everything as before
    let check_grad = |t: &Tensor<'_, T>, n: usize, times: usize, req: bool| -> Res {
        let t: &Tensor<'_, T> = unsafe { std::mem::transmute(t) };
        match (req, t.gradient()) {
            (false, None) => Ok(()),
            (true, Some(g)) => { let v = contents(&g); ensure!(v.len() == n && v.iter().all(|&x| x == T::from_i(3 * times as i128)), "{what}: the gradient is {v:?} after {times} contributions of 3"); Ok(()) }
            (q, g) => Err(Fail(format!("{what}: requires_grad is {q}, a gradient is there: {}", g.is_some()))),
        }
    };
    expect_exact("the first tensor after the refused call", a.ndarray(), &sa, &va)?;
    expect_exact("the second tensor after the refused call", bt.ndarray(), &sb, &vb)?;
    check_grad(&a, size(&sa), times, ga)?;
    check_grad(&bt, size(&sb), 0, gb)?;
    // and still usable
    if ga { (&a * three).backward(); times += 1; check_grad(&a, size(&sa), times, ga)?; }
    if gb { (&bt * three).backward(); check_grad(&bt, size(&sb), 1, gb)?; }
    event("tensors_unchanged", 2);
    c.note(what);
    Ok(())
}
