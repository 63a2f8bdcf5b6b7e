//! C04: writes hit exactly the denoted cells. C05: results and operands never share memory.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::run::*;
use rsv::{any_dtype, ensure, num_dtype};

pub fn case_c04(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    any_dtype!(k, T => c04::<T>(c))
}

fn c04<T: El + From<bool>>(c: &mut Case) -> Res {
    let base = pick_shape(c, 6, 400);
    let ns = c.rng.us(0, 5);
    let v_steps = forward_steps(&mut c.rng, &base, ns, true);
    let ns = c.rng.us(0, 4);
    let w_steps = forward_steps(&mut c.rng, &base, ns, true);
    // the parent itself may be a view into a larger buffer
    let o = opts_for(&base, false);
    let plan = plan_for(&mut c.rng, &base, o);
    c.note(format!("{} parent {}; writer {:?}; observer {:?}", T::NAME, plan_text(&plan), steps(&v_steps), steps(&w_steps)));
    c.sig(format!("{}{}/{}/{}{}", T::NAME, kinds(&plan), stkinds(&v_steps), stkinds(&w_steps), size_class(size(&base))));
    let ro = has_broadcast(&v_steps);
    let data: Vec<T> = (0..size(&plan.base)).map(T::nth).collect();
    let mut want = data.clone();
    let rng = &mut c.rng;
    with_plan(&plan, data, &mut no_mon, &mut |mut a, m, mem| {
        if v_steps.is_empty() {
            // write through the array itself
            return writes(rng, &mut a, m, mem, &mut want, false, &mut |_| Ok(()));
        }
        rec(a.view_of(), m.clone(), mem, false, &w_steps, &mut no_mon, &mut |w, mw, _| {
            let want = &mut want;
            let rng = &mut *rng;
            let w = &w;
            rec(a.view_of(), m.clone(), mem, false, &v_steps, &mut no_mon, &mut |mut v, mv, _| {
                writes(rng, &mut v, mv, mem, want, ro, &mut |want: &Vec<T>| {
                    ensure!(same_all(&contents(w), &mw.values(want)), "an overlapping view does not observe the write: {}", first_diff(&contents(w), &mw.values(want)));
                    ensure!(same_all(&contents(&a), &m.values(want)), "the source does not observe the write: {}", first_diff(&contents(&a), &m.values(want)));
                    event("overlapping_views_compared", 1);
                    Ok(())
                })
            })?;
            Ok(())
        })?;
        Ok(())
    })?;
    Ok(())
}

trait ViewOf<'a, T: RawDataType> { fn view_of(&'a self) -> NdArray<'a, T>; }
impl<'a, T: RawDataType> ViewOf<'a, T> for NdArray<'a, T> { fn view_of(&'a self) -> NdArray<'a, T> { self.view() } }

fn steps(s: &[PStep]) -> Vec<&Step> { s.iter().map(|x| &x.step).collect() }
fn stkinds(s: &[PStep]) -> String { kinds(&Plan { base: vec![], steps: s.to_vec() }) }

fn writes<T: El + From<bool>>(rng: &mut rsv::rng::Rng, v: &mut NdArray<'_, T>, m: &M, mem: Mem<T>, want: &mut Vec<T>, may_refuse: bool,
                              observe: &mut dyn FnMut(&Vec<T>) -> Res) -> Res {
    for _ in 0..rng.us(1, 3) {
        let before = want.clone();
        let (what, out) = match rng.below(4) {
            0 => {
                let x = T::any(rng);
                for &i in &m.idx { want[i] = x; }
                ("fill", attempt(|| v.fill(x)))
            }
            1 => {
                for &i in &m.idx { want[i] = T::from(false); }
                ("zero", attempt(|| v.zero()))
            }
            _ => {
                if m.shape.len() > 10 { continue; }
                let k = rng.below(m.size());
                let ix = unravel(k, &m.shape);
                let x = T::any(rng);
                want[m.idx[k]] = x;
                let plain = m.shape.len() == 1 && rng.chance(1, 2);
                ("element assignment", attempt(|| if plain { v[ix[0]] = x } else { set_at(v, &ix, x) }))
            }
        };
        if let Outcome::Panic(e) = &out {
            ensure!(may_refuse, "{what} through a writable array panicked: {e}");
            *want = before;
            event("writes_refused", 1);
        } else { event("writes", 1); }
        let snap = mem.snapshot();
        ensure!(same_all(&snap, want), "after {what}, the buffer is wrong: cell {}", first_diff(&snap, want));
        let got = contents(v);
        ensure!(same_all(&got, &m.values(want)), "after {what}, the view reads back wrong: element {}", first_diff(&got, &m.values(want)));
        ensure!(v.shape() == m.shape, "{what} changed the shape");
        event("cells_compared", (snap.len() + got.len()) as u64);
        observe(want)?;
    }
    Ok(())
}

pub fn case_c05(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    match c.rng.below(16) {
        0 => return c05_tensor::<f32>(c),
        1 => return c05_tensor::<f64>(c),
        _ => {}
    }
    num_dtype!(k, T => c05::<T>(c))
}

/// Results of tensor operations, and what is taken out of a tensor by copy.
fn c05_tensor<T: Num + TensorDataType>(c: &mut Case) -> Res {
    let shape = rand_shape(&mut c.rng, 4, if c.cfg.tiny { 16 } else { 60 });
    let n = size(&shape);
    let (as_view, grad) = (shape.len() > 1 && c.rng.chance(1, 2), c.rng.chance(1, 2));
    let (x, y) = if as_view { (c.rng.below(shape.len()) as isize, c.rng.below(shape.len()) as isize) } else { (0, 0) };
    c.note(format!("{} tensor {shape:?} transposed {as_view} axes {x} {y} grad {grad}", T::NAME));
    c.sig(format!("tensor{}{shape:?}{x}{y}{as_view}{grad}", T::NAME));
    let vals: Vec<T> = (0..n).map(|_| T::from_i(c.rng.range(1, 9) as i128)).collect();
    let mut base = unsafe { Tensor::<T>::from_contiguous_owned_buffer(shape.clone(), vals.clone()) };
    base.set_requires_grad(grad);
    let mem = Mem { ptr: base.ndarray().flatiter_ptr().next().unwrap(), len: n };
    let bshape = shape.clone();
    let m = if as_view { M::base(&shape).apply(&Step::Transpose(x, y)) } else { M::base(&shape) };
    let (shape, want) = (m.shape.clone(), m.values(&vals));
    let dets: Vec<(NdArray<'static, T>, &str)> = {
        let t = if as_view { (&base).transpose(x, y) } else { (&base).view() };
        let st = state(base.ndarray(), mem);
        let two = T::from_i(2);
        let ops: Vec<(&str, Box<dyn Fn() -> Tensor<'static, T> + '_>)> = vec![
            ("tensor addition", Box::new(|| &t + &t)), ("tensor subtraction", Box::new(|| &t - &t)),
            ("tensor multiplication", Box::new(|| &t * &t)), ("tensor division", Box::new(|| &t / &t)),
            ("tensor negation", Box::new(|| -&t)),
            ("tensor and scalar addition", Box::new(|| &t + two)),
        ];
        for (what, f) in &ops {
            let r = f();
            unchanged(what, base.ndarray(), mem, &st)?;
            independent(what, r.detach(), &[mem, Mem { ptr: r.ndarray().flatiter_ptr().next().unwrap(), len: n }])?;
            for p in r.ndarray().flatiter_ptr().take(n) { ensure!(mem.cell(p).is_none(), "the result of {what} shares memory with its operand"); }
        }
        for (what, f) in [("detach", 0), ("detach of an owner", 1)] {
            let (d, sh, w) = if f == 0 { (t.detach(), &shape, &want) } else { (base.detach(), &bshape, &vals) };
            unchanged(what, base.ndarray(), mem, &st)?;
            expect_exact(what, &d, sh, w)?;
            independent(what, d, &[mem])?;
        }
        vec![(t.detach(), "view"), (base.detach(), "owner")]
    };
    drop(base);
    // what was detached outlives the tensor
    for (d, k) in &dets {
        let (sh, w) = if *k == "view" { (&shape, &want) } else { (&bshape, &vals) };
        expect_exact("detach, after the tensor is gone", d, sh, w)?;
    }
    event("tensor_results_checked_independent", 1);
    Ok(())
}

struct State<T> { shape: Vec<usize>, stride: Vec<usize>, flags: (bool, bool, bool), vals: Vec<T> }
fn state<T: El>(a: &NdArray<'_, T>, mem: Mem<T>) -> State<T> {
    State { shape: a.shape().to_vec(), stride: a.stride().to_vec(), flags: (a.is_view(), a.is_contiguous(), a.is_uniformly_strided()), vals: mem.snapshot() }
}
fn unchanged<T: El>(what: &str, a: &NdArray<'_, T>, mem: Mem<T>, s: &State<T>) -> Res {
    let n = state(a, mem);
    ensure!(n.shape == s.shape && n.stride == s.stride && n.flags == s.flags, "{what} changed the operand's metadata");
    ensure!(same_all(&n.vals, &s.vals), "{what} changed the operand: cell {}", first_diff(&n.vals, &s.vals));
    Ok(())
}

/// r came out of `what` with operands living in `mems`
fn independent<T: El, U: El>(what: &str, mut r: NdArray<'_, U>, mems: &[Mem<T>]) -> Res {
    let ptrs: Vec<*mut U> = r.flatiter_ptr().take(r.size() + 1).collect();
    let mut seen = std::collections::HashSet::new();
    for p in &ptrs {
        for mem in mems {
            let (lo, hi) = (mem.ptr as usize, mem.ptr as usize + mem.len * std::mem::size_of::<T>());
            ensure!(!((*p as usize) < hi && *p as usize + std::mem::size_of::<U>() > lo), "the result of {what} shares memory with its operand");
        }
        ensure!(seen.insert(*p as usize), "two elements of the result of {what} share a memory cell");
    }
    let snaps: Vec<Vec<T>> = mems.iter().map(|m| m.snapshot()).collect();
    let held = contents(&r);
    // write to the operands' memory, look at the result; then the other way round
    for (mem, s) in mems.iter().zip(&snaps) {
        for i in 0..mem.len { unsafe { std::ptr::write_volatile(mem.ptr.add(i), s[(i + 1) % s.len()]) } }
    }
    ensure!(same_all(&contents(&r), &held), "a later write to an operand is visible in the result of {what}");
    for (mem, s) in mems.iter().zip(&snaps) {
        for i in 0..mem.len { unsafe { std::ptr::write_volatile(mem.ptr.add(i), s[i]) } }
    }
    match attempt(|| r.fill(U::nth(977))) {
        Outcome::Value(()) => {}
        Outcome::Panic(e) => return Err(Fail(format!("the result of {what} cannot be written: {e}"))),
    }
    for (mem, s) in mems.iter().zip(&snaps) { ensure!(same_all(&mem.snapshot(), s), "a later write to the result of {what} is visible in an operand"); }
    event("results_checked_independent", 1);
    Ok(())
}

fn c05<T: Num>(c: &mut Case) -> Res {
    let big = c.rng.below(400) == 0 || c.cfg.huge;
    let long = !c.cfg.tiny && !c.cfg.small && c.rng.chance(1, 150);
    let shape = if long && !big {
        let mut sh: Vec<usize> = (0..c.rng.us(1, 2)).map(|_| c.rng.us(1, 3)).collect();
        sh.push(c.rng.us(1000, 15_000));
        if c.rng.chance(1, 4) { c.rng.shuffle(&mut sh); }
        sh
    } else if big { pick_shape(c, 3, 2000) } else { rand_shape(&mut c.rng, 5, if c.cfg.tiny { 16 } else { 120 }) };
    let o = opts_for(&shape, true);
    let pa = plan_for(&mut c.rng, &shape, o);
    let which = c.rng.below(12);
    c.note(format!("{} op {which} on {}", T::NAME, plan_text(&pa)));
    c.sig(format!("{}{which}{}", T::NAME, kinds(&pa)));
    let small = |r: &mut rsv::rng::Rng, n: usize| -> Vec<T> { (0..n).map(|_| T::from_i(r.range(0, 3) as i128)).collect() };
    let data: Vec<T> = if which < 3 { (0..size(&pa.base)).map(T::nth).collect() } else if which == 8 { (0..size(&pa.base)).map(|_| T::from_i(c.rng.range(0, 1) as i128)).collect() } else { small(&mut c.rng, size(&pa.base)) };
    // keep sums of small values within small types
    let tot = size(&shape) as i128;
    let data: Vec<T> = if which >= 7 && !T::FLOAT && tot * 9 * 9 > T::MAXI { data.iter().map(|_| T::from_i(0)).collect() } else { data };
    let pick = c.rng.below(1 << 16);
    let nd = shape.len();
    match which {
        0..=2 | 5..=8 => {
            with_plan(&pa, data, &mut no_mon, &mut |a, m, mem| {
                let st = state(&a, mem);
                let vals = m.values(&st.vals);
                match which {
                    0 => {
                        let r = a.clone();
                        unchanged("clone", &a, mem, &st)?;
                        expect_exact("clone", &r, &m.shape, &vals)?;
                        independent("clone", r, &[mem])?;
                        let r = a.flatten();
                        unchanged("flatten", &a, mem, &st)?;
                        expect_exact("flatten", &r, &[m.size()], &vals)?;
                        independent("flatten", r, &[mem])?;
                    }
                    1 => {
                        if nd == 0 { return Ok(()); }
                        let ax = pick % nd;
                        let mut n = 0;
                        for r in a.iter_along(ax as isize).take(m.shape[ax]) {
                            let r2 = r;
                            if n < 4 { independent("iteration item", r2, &[mem])?; }
                            n += 1;
                        }
                        unchanged("iteration", &a, mem, &st)?;
                        for r in a.iter().take(3) { independent("iteration item", r, &[mem])?; }
                        let mut axes: Vec<usize> = (0..nd).filter(|x| (pick >> x) & 1 == 1).collect();
                        if axes.is_empty() { axes.push(0); }
                        for r in a.nditer(axes).take(3) { independent("iteration item", r, &[mem])?; }
                        unchanged("iteration", &a, mem, &st)?;
                    }
                    2 => {
                        // items are snapshots: a later next() must not change one already handed out
                        if nd == 0 { return Ok(()); }
                        let mut kept: Vec<(NdArray<'_, T>, Vec<T>)> = vec![];
                        for r in a.iter().take(m.shape[0]) { let v = contents(&r); kept.push((r, v)); if kept.len() > 6 { break; } }
                        for (r, v) in &kept { ensure!(same_all(&contents(r), v), "an iteration item changed when the iterator moved on"); }
                        unchanged("iteration", &a, mem, &st)?;
                    }
                    5 => {
                        let by_ref = pick & 1 == 0; // or a handle of a view, by value
                        if T::has_neg() {
                            let r = T::neg(by_ref, a.view_of());
                            unchanged("unary minus", &a, mem, &st)?;
                            independent("unary minus", r, &[mem])?;
                        }
                        let r = T::bin_scalar(Add, by_ref, a.view_of(), T::from_i(2));
                        unchanged("scalar addition", &a, mem, &st)?;
                        independent("scalar addition", r, &[mem])?;
                        // adding nothing is still a copy
                        let r = T::bin_scalar(Add, by_ref, a.view_of(), T::from_i(0));
                        independent("scalar addition of zero", r, &[mem])?;
                        let r = T::bin_scalar(Mul, by_ref, a.view_of(), T::from_i(1));
                        independent("scalar multiplication by one", r, &[mem])?;
                    }
                    6 => {
                        let r = a.astype::<f32>(); unchanged("astype", &a, mem, &st)?; independent("astype", r, &[mem])?;
                        let r = a.astype::<i64>(); unchanged("astype", &a, mem, &st)?; independent("astype", r, &[mem])?;
                        let r = a.astype::<T>(); unchanged("astype", &a, mem, &st)?;
                        expect_exact("astype to the same type", &r, &m.shape, &vals)?;
                        independent("astype", r, &[mem])?;
                    }
                    7 => {
                        for (n, r) in [("sum", a.sum()), ("min", a.min()), ("max", a.max()), ("min_magnitude", a.min_magnitude()), ("max_magnitude", a.max_magnitude())] {
                            unchanged(n, &a, mem, &st)?; independent(n, r, &[mem])?;
                        }
                        if let Some(r) = T::mean(&a) { unchanged("mean", &a, mem, &st)?; independent("mean", r, &[mem])?; }
                        if nd > 0 {
                            let axes: Vec<isize> = (0..nd).filter(|x| (pick >> x) & 1 == 1).map(|x| x as isize).collect();
                            for (n, r) in [("sum_along", a.sum_along(&axes)), ("min_along", a.min_along(&axes)), ("max_along", a.max_along(&axes)), ("max_magnitude_along", a.max_magnitude_along(&axes))] {
                                unchanged(n, &a, mem, &st)?; independent(n, r, &[mem])?;
                            }
                        }
                    }
                    _ => {
                        let r = a.product(); unchanged("product", &a, mem, &st)?; independent("product", r, &[mem])?;
                        if nd > 0 { let r = a.product_along(vec![(pick % nd) as isize]); unchanged("product_along", &a, mem, &st)?; independent("product_along", r, &[mem])?; }
                        if nd > 0 && nd <= 6 {
                            // also when there is nothing to add up
                            let mut letters: Vec<char> = "ijklmn".chars().take(nd).collect();
                            let ins: String = letters.iter().collect();
                            letters.rotate_left(pick % nd);
                            let outs: String = letters.iter().collect();
                            let r = one(&a, &ins, &outs);
                            unchanged("einsum", &a, mem, &st)?;
                            let mut sorted = contents(&r); let mut w = vals.clone();
                            let key = |v: &T| v.to_f(); 
                            sorted.sort_by(|p, q| key(p).total_cmp(&key(q))); w.sort_by(|p, q| key(p).total_cmp(&key(q)));
                            ensure!(same_all(&sorted, &w), "einsum {ins}->{outs} lost elements");
                            independent("einsum", r, &[mem])?;
                        }
                        if nd >= 2 { let r = a.offset_trace_along(0, 0, 1); unchanged("trace", &a, mem, &st)?; independent("trace", r, &[mem])?; }
                    }
                }
                Ok(())
            })?;
        }
        _ => {
            // two operands
            let (sa, sb) = match which { 9 => (vec![shape.iter().product()], vec![shape.iter().product()]),
                10 => { let (m, k, n) = (c.rng.us(1, 6), c.rng.us(1, 6), c.rng.us(1, 6)); if c.rng.chance(1, 3) { (vec![m, k], vec![k]) } else { (vec![m, k], vec![k, n]) } }
                11 => { let (b, m, k, n) = (c.rng.us(1, 4), c.rng.us(1, 5), c.rng.us(1, 5), c.rng.us(1, 5)); (vec![b, m, k], vec![b, k, n]) }
                _ => operand_shapes(&mut c.rng, &shape) };
            let (oa, ob) = (opts_for(&sa, true), opts_for(&sb, true));
            let (p1, p2) = (plan_for(&mut c.rng, &sa, oa), plan_for(&mut c.rng, &sb, ob));
            c.note(format!("with {} and {}", plan_text(&p1), plan_text(&p2)));
            let zero = !T::FLOAT && tot * 9 * 9 > T::MAXI;
            let d1: Vec<T> = if zero { vec![T::from_i(0); size(&p1.base)] } else { small(&mut c.rng, size(&p1.base)) };
            let d2: Vec<T> = if zero { vec![T::from_i(0); size(&p2.base)] } else { small(&mut c.rng, size(&p2.base)) };
            let op = if T::SIGNED && c.rng.chance(1, 2) { Sub } else { *c.rng.pick(&[Add, Mul]) };
            // handing over a handle of a view gives nobody the right to write through it
            let pass = *c.rng.pick(&[Pass::RefRef, Pass::RefVal, Pass::ValRef, Pass::ValVal]);
            with_two((&p1, &p2), (d1, d2), &mut |(a, _, ma), (b, _, mb)| {
                let (s1, s2) = (state(&a, ma), state(&b, mb));
                let (name, r) = match which {
                    9 => ("dot", T::dot(&a, &b)),
                    10 => ("matmul", mm(&a, &b, 0)),
                    11 => if pick % 3 == 0 { ("einsum", mm(&a, &b, 2)) } else { ("bmm", mm(&a, &b, 1)) },
                    _ => ("binary operator", bin2(op, pass, &a, &b)),
                };
                unchanged(name, &a, ma, &s1)?; unchanged(name, &b, mb, &s2)?;
                independent(name, r, &[ma, mb])
            })?;
        }
    }
    Ok(())
}

/// the library ties both operands of a product to one lifetime
fn mm<T: Num>(a: &NdArray<'_, T>, b: &NdArray<'_, T>, k: usize) -> NdArray<'static, T> {
    let (a, b): (&NdArray<'_, T>, &NdArray<'_, T>) = unsafe { (std::mem::transmute(a), std::mem::transmute(b)) };
    match k { 0 => T::matmul(a, b), 1 => T::bmm(a, b), _ => T::einsum(&[a, b], &["bij", "bjk"], "bik") }
}
fn one<T: Num>(a: &NdArray<'_, T>, ins: &str, outs: &str) -> NdArray<'static, T> {
    let a: &NdArray<'_, T> = unsafe { std::mem::transmute(a) };
    T::einsum(&[a], &[ins], outs)
}
fn bin2<T: Num>(op: Op, pass: Pass, a: &NdArray<'_, T>, b: &NdArray<'_, T>) -> NdArray<'static, T> {
    let (a, b): (&NdArray<'_, T>, &NdArray<'_, T>) = unsafe { (std::mem::transmute(a), std::mem::transmute(b)) };
    T::bin(op, pass, a.view_of(), b.view_of())
}
