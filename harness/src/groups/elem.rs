//! C07/C08: element-wise operators, out of place and in place.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::{ensure, num_dtype};

const CHECKED: bool = cfg!(debug_assertions);

/// Operand values for `op` on which the scalar operator is defined for every pair (l, r).
pub fn operand<T: Num>(r: &mut Rng, op: Op, left: bool, n: usize) -> Vec<T> {
    if T::FLOAT {
        let style = r.below(4);
        return (0..n).map(|_| match style {
            0 => T::from_i(r.range(-9, 9) as i128),
            1 => T::any(r),
            _ => T::scalar(Div, T::from_i(r.range(-1_000_000, 1_000_000) as i128), T::from_i(r.range(1, 3000) as i128)),
        }).collect();
    }
    let bits = T::BITS as i128;
    let half = |x: T| T::scalar(Shr, x, T::from_i(1));
    let wrap = !CHECKED && r.chance(1, 2);
    (0..n).map(|_| {
        let x = T::any(r);
        match op {
            And | Or => x,
            Shl | Shr if left => x,
            Shl | Shr => T::from_i(r.range(0, bits as i64 - 1) as i128),
            Rem if left => x,
            Rem => { let y = if r.chance(1, 2) { x } else { T::from_i(r.range(1, 11) as i128) }; if y == T::from_i(0) || T::SIGNED && y == T::from_i(-1) { T::from_i(3) } else { y } }
            _ if wrap => x,
            Add => half(x),
            Sub => if T::SIGNED { half(x) } else if left { T::scalar(Or, x, T::scalar(Shl, T::from_i(1), T::from_i(bits - 1))) } else { half(x) },
            // |x| below the square root of the largest value
            Mul => { let y = T::scalar(Shr, x, T::from_i((bits + 1) / 2)); if r.chance(1, 2) { y } else { T::from_i(r.range(0, 11) as i128) } }
            Div => unreachable!(),
        }
    }).collect()
}

pub fn case_c07(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    num_dtype!(k, T => c07::<T>(c))
}

fn opname(op: Op) -> String { format!("{op:?}") }

fn c07<T: Num>(c: &mut Case) -> Res {
    let out = pick_shape(c, 7, 500);
    let op = *c.rng.pick(T::ops());
    let mode = c.rng.below(10);
    if mode < 7 {
        let (sa, sb) = operand_shapes(&mut c.rng, &out);
        let (oa, ob) = (opts_for(&sa, true), opts_for(&sb, true));
        let (pa, pb) = (plan_for(&mut c.rng, &sa, oa), plan_for(&mut c.rng, &sb, ob));
        let pass = *c.rng.pick(&[Pass::RefRef, Pass::RefVal, Pass::ValRef, Pass::ValVal]);
        c.note(format!("{} {} {pass:?}: {} with {}", T::NAME, opname(op), plan_text(&pa), plan_text(&pb)));
        c.sig(format!("{}{}{pass:?}{}/{}{:?}{:?}", T::NAME, opname(op), kinds(&pa), kinds(&pb), sa.len(), sb.len()));
        let d = (operand::<T>(&mut c.rng, op, true, size(&pa.base)), operand::<T>(&mut c.rng, op, false, size(&pb.base)));
        let keep = d.clone();
        with_two((&pa, &pb), d, &mut |(a, ma, _), (b, mb, _)| {
            let (va, vb) = (ma.values(&keep.0), mb.values(&keep.1));
            let want: Vec<T> = bmap(&out_shape(&sa, &sb), &sa).iter().zip(bmap(&out_shape(&sa, &sb), &sb)).map(|(&i, j)| T::scalar(op, va[i], vb[j])).collect();
            let r = bin2(op, pass, a, b);
            event("binary_operations", 1);
            expect_exact(&opname(op), &r, &out_shape(&sa, &sb), &want)
        })?;
        if mode == 0 { aliased::<T>(c, op)?; }
    } else {
        let o = opts_for(&out, true);
        let p = plan_for(&mut c.rng, &out, o);
        let data = operand::<T>(&mut c.rng, op, true, size(&p.base));
        let s = operand::<T>(&mut c.rng, op, false, 1)[0];
        let by_ref = c.rng.chance(1, 2);
        let neg = T::has_neg() && mode == 9;
        c.note(format!("{} {} {}: {}", T::NAME, if neg { "Neg".into() } else { opname(op) }, if by_ref { "by reference" } else { "by value" }, plan_text(&p)));
        c.sig(format!("{}{}{}s{}n{}", T::NAME, if neg { "Neg".into() } else { opname(op) }, by_ref, kinds(&p), size_class(size(&out))));
        let data: Vec<T> = if neg && CHECKED { data.into_iter().map(|x| if !T::FLOAT && x == T::min_v() { T::max_v() } else { x }).collect() } else { data };
        let keep = data.clone();
        with_plan(&p, data, &mut no_mon, &mut |a, m, _| {
            let v = m.values(&keep);
            if neg {
                let want: Vec<T> = v.iter().map(|&x| T::scalar_neg(x)).collect();
                event("unary_operations", 1);
                expect_exact("unary minus", &T::neg(by_ref, a), &m.shape, &want)
            } else {
                let want: Vec<T> = v.iter().map(|&x| T::scalar(op, x, s)).collect();
                event("scalar_operations", 1);
                expect_exact(&format!("{} with a scalar", opname(op)), &T::bin_scalar(op, by_ref, a, s), &m.shape, &want)
            }
        })?;
    }
    Ok(())
}

/// both operands are views of one array
fn aliased<T: Num>(c: &mut Case, op: Op) -> Res {
    if !T::FLOAT && !matches!(op, And | Or | Add) { return Ok(()); }
    let n = c.rng.us(1, 12);
    let data = operand::<T>(&mut c.rng, op, true, n * n);
    let keep = data.clone();
    let k = c.rng.below(3);
    with_plan(&Plan { base: vec![n, n], steps: vec![] }, data, &mut no_mon, &mut |a, m, _| {
        let st = match k { 0 => Step::T, 1 => Step::View, _ => Step::Broadcast(vec![n, n]) };
        let mb = m.apply(&st);
        let b = match k { 0 => (&a).T(), 1 => (&a).view(), _ => a.broadcast_to(&[n, n]) };
        let want: Vec<T> = (0..n * n).map(|i| T::scalar(op, keep[m.idx[i]], keep[mb.idx[i]])).collect();
        expect_exact(&format!("{} of two views of one array", opname(op)), &bin2(op, Pass::RefRef, (&a).view(), b), &m.shape, &want)
    })?;
    Ok(())
}

pub fn out_shape(a: &[usize], b: &[usize]) -> Vec<usize> {
    let n = a.len().max(b.len());
    (0..n).map(|i| {
        let x = if i + a.len() >= n { a[i + a.len() - n] } else { 1 };
        let y = if i + b.len() >= n { b[i + b.len() - n] } else { 1 };
        if x == 1 { y } else { x }
    }).collect()
}

fn bin2<T: Num>(op: Op, pass: Pass, a: NdArray<'_, T>, b: NdArray<'_, T>) -> NdArray<'static, T> {
    // the wrapper wants one lifetime for both
    let (a, b): (NdArray<'_, T>, NdArray<'_, T>) = unsafe { (std::mem::transmute(a), std::mem::transmute(b)) };
    T::bin(op, pass, a, b)
}

pub fn case_c08(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    num_dtype!(k, T => c08::<T>(c))
}

fn c08<T: Num>(c: &mut Case) -> Res {
    let dst = pick_shape(c, 6, 400);
    let op = *c.rng.pick(T::ops());
    let od = opts_for(&dst, false);
    let mut pd = plan_for(&mut c.rng, &dst, od);
    // a read-only destination now and then
    let readonly = c.rng.chance(1, 8) && size(&dst) < 5000;
    let mut dst = dst;
    if readonly {
        let mut sh = dst.clone();
        let mut real = false;
        for a in 0..sh.len() { if sh[a] == 1 && size(&sh) < 5000 && c.rng.chance(2, 3) { sh[a] = c.rng.us(2, 3); real = true; } }
        if !real || c.rng.chance(1, 3) { sh.insert(0, c.rng.us(2, 4)); }
        pd.steps.push(PStep { step: Step::Broadcast(sh.clone()), consume: false });
        dst = sh;
        // and views of it stay read-only
        let n = c.rng.us(0, 2);
        let f = forward_steps(&mut c.rng, &dst, n, false);
        let m = f.iter().fold(M::base(&dst), |m, s| m.apply(&s.step));
        dst = m.shape;
        pd.steps.extend(f);
    }
    // y: any shape that broadcasts to dst
    let mut sy = dst.clone();
    match c.rng.below(4) {
        0 | 1 => {}
        2 => { let d = c.rng.us(0, sy.len()); sy = sy[d..].to_vec(); }
        _ => { for d in sy.iter_mut() { if c.rng.chance(1, 3) { *d = 1; } } let d = c.rng.us(0, sy.len()); if c.rng.chance(1, 3) { sy = sy[d..].to_vec(); } }
    }
    // a y that cannot be broadcast
    let bad = !readonly && c.rng.chance(1, 8);
    if bad {
        match c.rng.below(3) {
            0 if !sy.is_empty() => { let a = c.rng.below(sy.len()); sy[a] = dst[dst.len() - sy.len() + a] + c.rng.us(1, 2); if sy[a] == 1 { sy[a] = 7; } }
            1 if !sy.is_empty() && dst.iter().any(|&d| d > 2) => {
                sy = dst.clone();
                let v: Vec<usize> = (0..dst.len()).filter(|&a| dst[a] > 2).collect();
                let a = *c.rng.pick(&v); sy[a] = dst[a] - 1;
            }
            2 if c.rng.chance(1, 2) => { sy = vec![1; dst.len() + c.rng.us(1, 2)]; }
            _ => { sy = dst.clone(); let d = c.rng.us(1, 3); sy.insert(0, d); }
        }
    }
    let oy = opts_for(&sy, true);
    let py = plan_for(&mut c.rng, &sy, oy);
    let scalar = !bad && c.rng.chance(1, 4);
    let owned = c.rng.chance(1, 2);
    c.note(format!("{} {}={} {}{}: x {} y {:?} {}", T::NAME, opname(op), if scalar { " scalar" } else { "" }, if readonly { "readonly " } else { "" }, if bad { "bad " } else { "" }, plan_text(&pd), sy, plan_text(&py)));
    c.sig(format!("{}{}{scalar}{readonly}{bad}{}/{}", T::NAME, opname(op), kinds(&pd), kinds(&py)));
    let dx = operand::<T>(&mut c.rng, op, true, size(&pd.base));
    let dy = operand::<T>(&mut c.rng, op, false, size(&py.base));
    let (kx, ky) = (dx.clone(), dy.clone());
    with_two((&pd, &py), (dx, dy), &mut |(mut x, mx, memx), (y, my, memy)| {
        let (sh, st, fl) = (x.shape().to_vec(), x.stride().to_vec(), (x.is_view(), x.is_contiguous(), x.is_uniformly_strided()));
        let vy = my.values(&ky);
        let s = ky[0];
        let mut want = kx.clone();
        if !bad && !readonly {
            let map = bmap(&mx.shape, &sy);
            for k in 0..mx.size() { want[mx.idx[k]] = T::scalar(op, kx[mx.idx[k]], if scalar { s } else { vy[map[k]] }); }
        }
        let y = &y;
        let xr = &mut x;
        let out = attempt(|| {
            if scalar { T::iop_scalar(op, xr, s) }
            else if owned { T::iop_owned(op, xr, y.view()) }
            else { T::iop(op, xr, y) }
        });
        match out {
            Outcome::Panic(e) => { ensure!(bad || readonly, "in-place operator panicked: {e}"); event("in_place_refused", 1); }
            Outcome::Value(()) => {
                ensure!(!readonly, "in-place operator on a read-only (broadcast) destination was not refused");
                ensure!(!bad, "y of shape {sy:?} was accepted for x of shape {:?}", mx.shape);
                event("in_place_operations", 1);
            }
        }
        ensure!(x.shape() == sh && x.stride() == st && (x.is_view(), x.is_contiguous(), x.is_uniformly_strided()) == fl, "in-place operator changed the metadata of x");
        let snap = memx.snapshot();
        ensure!(same_all(&snap, &want), "after {}=, x's buffer is wrong: cell {}", opname(op), first_diff(&snap, &want));
        ensure!(same_all(&contents(&x), &mx.values(&want)), "after {}=, x reads back wrong", opname(op));
        ensure!(same_all(&memy.snapshot(), &ky), "{}= changed y", opname(op));
        event("cells_compared", (snap.len() + ky.len()) as u64);
        Ok(())
    })?;
    if c.rng.chance(1, 10) && (T::FLOAT || matches!(op, And | Or | Add)) { siblings::<T>(c, op)?; }
    Ok(())
}

/// x and y are disjoint parts (or the same part) of one array
fn siblings<T: Num>(c: &mut Case, op: Op) -> Res {
    let n = c.rng.us(2, 9);
    let m = c.rng.us(1, 9);
    let data = operand::<T>(&mut c.rng, op, true, n * m);
    let keep = data.clone();
    let (i, j) = (c.rng.below(n), c.rng.below(n));
    let tr = c.rng.chance(1, 2);
    with_plan(&Plan { base: if tr { vec![m, n] } else { vec![n, m] }, steps: vec![] }, data, &mut no_mon, &mut |a, ma, mem| {
        let ax = if tr { 1 } else { 0 };
        let mut x = a.slice_along(Axis(ax), i);
        let y = a.slice_along(Axis(ax), j);
        let mx = ma.apply(&Step::SliceAlong(ax, Ix::At(i)));
        let my = ma.apply(&Step::SliceAlong(ax, Ix::At(j)));
        let mut want = keep.clone();
        for k in 0..m { want[mx.idx[k]] = T::scalar(op, keep[mx.idx[k]], keep[my.idx[k]]); }
        T::iop(op, &mut x, &y);
        let snap = mem.snapshot();
        ensure!(same_all(&snap, &want), "row {i} {}= row {j} of one array: cell {}", opname(op), first_diff(&snap, &want));
        event("in_place_operations_within_one_array", 1);
        Ok(())
    })?;
    Ok(())
}
