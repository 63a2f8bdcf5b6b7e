//! C11 products, C12 diagonals and traces, C13 einsum.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::{any_dtype, ensure, num_dtype};

/// A sum of products, with what the library may legitimately return.
pub struct Acc { pub exact: i128, pub f: f64, pub abs: f64, pub terms: usize }

/// `n` values for an operand of a sum of `terms` products of `ops` factors; exact or not
pub fn factors<T: Num>(r: &mut Rng, n: usize, terms: usize, ops: usize, exact: bool) -> Vec<T> {
    if !exact {
        return (0..n).map(|_| T::scalar(Div, T::from_i(r.range(-100_000, 100_000) as i128), T::from_i(r.range(1, 3000) as i128))).collect();
    }
    let b = bound::<T>(terms, ops);
    if b == 0 { // sparse: at most a few ones
        let mut v = vec![T::from_i(0); n];
        for _ in 0..2 { let k = r.below(n); v[k] = T::from_i(1); }
        return v;
    }
    (0..n).map(|_| T::from_i(r.range(if T::SIGNED { -b } else { 0 }, b) as i128)).collect()
}

/// largest b <= 30 with terms * b^ops within the exact range of T
pub fn bound<T: Num>(terms: usize, ops: usize) -> i64 {
    let lim = T::MAXI / terms.max(1) as i128;
    let mut b = 0i128;
    while b < 30 && (b + 1).pow(ops as u32) <= lim { b += 1; }
    b as i64
}

/// compares results of sums of products. `want[k]` = list of (product terms) folded as exact integer or float
pub fn compare<T: Num>(what: &str, r: &NdArray<'_, T>, shape: &[usize], want: &[Acc], exact: bool) -> Res {
    ensure!(r.shape() == shape, "{what}: shape is {:?}, expected {shape:?}", r.shape());
    let got = contents(r);
    ensure!(got.len() == want.len(), "{what}: {} elements, expected {}", got.len(), want.len());
    let eps = if T::BITS == 32 { f32::EPSILON as f64 } else { f64::EPSILON };
    for (k, w) in want.iter().enumerate() {
        if exact { ensure!(got[k] == T::from_i(w.exact), "{what}: element {:?} is {:?}, expected {}", unravel(k, shape), got[k], w.exact); }
        else {
            let tol = w.abs * eps * (w.terms as f64 + 8.0) * 2.0 + 1e-30;
            ensure!((got[k].to_f() - w.f).abs() <= tol, "{what}: element {:?} is {:?}, expected {} within {tol:e}", unravel(k, shape), got[k], w.f);
        }
    }
    event("elements_compared", got.len() as u64);
    Ok(())
}

/// naive Einstein summation over values in row-major order
pub fn naive<T: Num>(subs: &[Vec<usize>], shapes: &[Vec<usize>], vals: &[Vec<T>], out: &[usize], dims: &[usize], exact: bool) -> Vec<Acc> {
    let used: Vec<usize> = (0..dims.len()).filter(|l| subs.iter().any(|s| s.contains(l))).collect();
    let summed: Vec<usize> = used.iter().copied().filter(|l| !out.contains(l)).collect();
    let osh: Vec<usize> = out.iter().map(|&l| dims[l]).collect();
    let ssh: Vec<usize> = summed.iter().map(|&l| dims[l]).collect();
    // contribution of each label to the flat position in each operand
    let nl = dims.len();
    let mut coef = vec![vec![0usize; nl]; subs.len()];
    for (o, s) in subs.iter().enumerate() {
        let mut st = 1;
        for a in (0..s.len()).rev() { coef[o][s[a]] += st; st *= shapes[o][a]; }
    }
    let ns = size(&ssh);
    let mut res = Vec::with_capacity(size(&osh));
    let mut oi = vec![0; osh.len()];
    for _ in 0..size(&osh) {
        let base: Vec<usize> = coef.iter().map(|c| out.iter().zip(&oi).map(|(&l, &i)| c[l] * i).sum()).collect();
        let mut si = vec![0; ssh.len()];
        let (mut e, mut f, mut a) = (0i128, 0f64, 0f64);
        for _ in 0..ns {
            let (mut pe, mut pf) = (1i128, 1f64);
            for o in 0..subs.len() {
                let p = base[o] + summed.iter().zip(&si).map(|(&l, &i)| coef[o][l] * i).sum::<usize>();
                if exact { pe *= vals[o][p].to_i(); } else { pf *= vals[o][p].to_f(); }
            }
            if exact { e += pe; } else { f += pf; a += pf.abs(); }
            for x in (0..si.len()).rev() { si[x] += 1; if si[x] < ssh[x] { break; } si[x] = 0; }
        }
        res.push(Acc { exact: e, f, abs: a, terms: ns + subs.len() });
        for x in (0..oi.len()).rev() { oi[x] += 1; if oi[x] < osh[x] { break; } oi[x] = 0; }
    }
    res
}

pub fn case_c11(c: &mut Case) -> Res { let k = c.rng.below(1 << 20); num_dtype!(k, T => c11::<T>(c)) }

fn dim(r: &mut Rng, tiny: bool) -> usize {
    if tiny && FLOATS.load(std::sync::atomic::Ordering::Relaxed) { return *r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 13, 17]); }
    if tiny { return r.us(1, 4); }
    match r.below(12) { 0 | 1 => 1, 2..=6 => r.us(2, 6), 7..=9 => r.us(6, 20), 10 => *r.pick(&[15, 16, 17, 31, 32, 33]), _ => r.us(20, 60) }
}

fn c11<T: Num>(c: &mut Case) -> Res {
    let kind = c.rng.below(5);
    let (tiny, huge) = (c.cfg.tiny, c.cfg.huge);
    let r = &mut c.rng;
    let (mut b, mut m, mut k, mut n) = (dim(r, true), dim(r, tiny), dim(r, tiny), dim(r, tiny));
    if T::BITS == 8 { k = k.min(60); }
    if r.chance(1, 60) && !tiny { k = r.us(100, 3000); m = m.min(6); n = n.min(6); }
    if r.chance(1, 100) && !tiny { m = r.us(60, 150); n = r.us(60, 150); k = k.min(30); b = b.min(2); }
    if r.chance(1, 250) && !tiny {
        // one long dimension
        (b, m, k, n) = (r.us(1, 2), r.us(1, 3), r.us(1, 3), r.us(1, 3));
        match r.below(4) { 0 => m = r.us(150, 30_000), 1 => n = r.us(150, 30_000), _ => k = r.us(3000, 40_000) }
    }
    if huge {
        (b, m, k, n) = (2, r.us(1, 3), (1 << 20) + r.us(1, 1 << 18), r.us(1, 2));
        if kind == 2 && r.chance(1, 2) { std::mem::swap(&mut m, &mut k); }
        if kind >= 3 { match r.below(3) { 0 => {} 1 => { (m, k, n) = (r.us(1025, 1200), r.us(1, 3), r.us(1025, 1200)); } _ => { (m, k, n) = (r.us(100, 140), r.us(257, 300), r.us(100, 140)); } } b = 1 + b * (n < 3) as usize; }
    }
    let (sa, sb, subs, out): (Vec<usize>, Vec<usize>, Vec<Vec<usize>>, Vec<usize>) = match kind {
        0 => (vec![k], vec![k], vec![vec![2], vec![2]], vec![]),                         // dot
        1 => (vec![k], vec![k], vec![vec![2], vec![2]], vec![]),                         // matmul of vectors
        2 => (vec![m, k], vec![k], vec![vec![1, 2], vec![2]], vec![1]),                  // matrix-vector
        3 => (vec![m, k], vec![k, n], vec![vec![1, 2], vec![2, 3]], vec![1, 3]),
        _ => (vec![b, m, k], vec![b, k, n], vec![vec![0, 1, 2], vec![0, 2, 3]], vec![0, 1, 3]),
    };
    let dims = [b, m, k, n];
    let exact = !T::FLOAT || r.chance(1, 2);
    let (oa, ob) = (opts_for(&sa, true), opts_for(&sb, true));
    let mut turned = |r: &mut Rng, sh: &[usize], o: Opts| {
        if sh.len() < 2 || !r.chance(1, 4) { return plan_for(r, sh, o); }
        let mut t = sh.to_vec();
        t.swap(sh.len() - 1, sh.len() - 2);
        let mut p = plan_for(r, &t, o);
        p.steps.push(PStep { step: Step::Transpose(-1, -2), consume: r.chance(1, 2) });
        p
    };
    let pa = turned(r, &sa, oa);
    let pb = turned(r, &sb, ob);
    let da = factors::<T>(r, size(&pa.base), k, 2, exact);
    let db = factors::<T>(r, size(&pb.base), k, 2, exact);
    let name = ["dot", "matmul (vectors)", "matmul (matrix, vector)", "matmul", "bmm"][kind];
    let sparse = exact && bound::<T>(k, 2) == 0;
    c.note(format!("{} {name} exact={exact}: {} by {}", T::NAME, plan_text(&pa), plan_text(&pb)));
    c.sig(format!("{}{name}{}/{} {}{}{}", T::NAME, kinds(&pa), kinds(&pb), size_class(m), size_class(k), size_class(n)));
    if sparse && (kinds(&pa).contains('b') || kinds(&pb).contains('b')) { return Ok(()); }
    let keep = (da.clone(), db.clone());
    with_two((&pa, &pb), (da, db), &mut |(a, ma, _), (bb, mb, _)| {
        let want = naive::<T>(&subs, &[sa.clone(), sb.clone()], &[ma.values(&keep.0), mb.values(&keep.1)], &out, &dims, exact);
        let osh: Vec<usize> = out.iter().map(|&l| dims[l]).collect();
        let (a, bb): (&NdArray<'_, T>, &NdArray<'_, T>) = unsafe { (std::mem::transmute(&a), std::mem::transmute(&bb)) };
        let r = match kind { 0 => T::dot(a, bb), 4 => T::bmm(a, bb), _ => T::matmul(a, bb) };
        event("products_checked", 1);
        compare(name, &r, &osh, &want, exact)
    })?;
    Ok(())
}

pub fn case_c12(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    if !c.cfg.tiny && !c.cfg.small && c.rng.chance(1, 150) { return num_dtype!(k / 2, T => long_diagonals::<T>(c)); }
    if k % 2 == 0 { any_dtype!(k / 2, T => diagonals::<T>(c)) } else { num_dtype!(k / 2, T => traces::<T>(c)) }
}

fn setup(c: &mut Case) -> (Vec<usize>, Plan, isize, usize, usize) {
    let mut sh = pick_shape(c, 6, 400);
    while sh.len() < 2 { sh.push(c.rng.us(1, 7)); }
    let nd = sh.len();
    let o = opts_for(&sh, true);
    let plan = plan_for(&mut c.rng, &sh, o);
    let (mut a, mut b) = if c.rng.chance(1, 3) { (0, 1) } else { (c.rng.below(nd), c.rng.below(nd)) };
    if a == b { b = (a + 1) % nd; if c.rng.chance(1, 2) { std::mem::swap(&mut a, &mut b); } }
    let off = if c.rng.chance(1, 3) { 0 } else { c.rng.range(-(sh[a] as i64 - 1), sh[b] as i64 - 1) as isize };
    (sh, plan, off, a, b)
}

/// diagonals longer than any matrix one would store: the same row (or column) repeated without being copied
fn long_diagonals<T: Num>(c: &mut Case) -> Res {
    let (len, deep) = (c.rng.us(500, 30_000), c.rng.us(1, 3));
    let (rows, by_row, exact) = (c.rng.us(500, 30_000), c.rng.chance(1, 2), !T::FLOAT || c.rng.chance(1, 2));
    let off = if c.rng.chance(1, 3) { 0 } else { c.rng.range(-(rows.min(len) as i64 - 1), rows.min(len) as i64 - 1) as isize };
    c.note(format!("{} diagonal offset {off} of {len}x{deep} repeated {rows} times, as rows {by_row}", T::NAME));
    c.sig(format!("{}long{}{}{by_row}{deep}", T::NAME, off.signum(), size_class(len)));
    let data = factors::<T>(&mut c.rng, len * deep, len, 1, exact);
    if exact && bound::<T>(len, 1) == 0 { return Ok(()); }
    let base = unsafe { NdArray::<T>::from_contiguous_owned_buffer(vec![len, deep], data.clone()) };
    let wide = base.broadcast_to(&[rows, len, deep]);
    let x = if by_row { (&wide).view() } else { (&wide).transpose(0, 1) };
    // element (i, i + off) of the first two axes
    let (h, w) = if by_row { (rows as isize, len as isize) } else { (len as isize, rows as isize) };
    let (i0, j0) = if off < 0 { (-off, 0) } else { (0, off) };
    let d = (h - i0).min(w - j0);
    if d <= 0 { return Ok(()); }
    let first = if by_row { j0 } else { i0 } as usize;
    let d = d as usize;
    let lists: Vec<Vec<T>> = (0..deep).map(|z| (0..d).map(|k| data[(first + k) * deep + z]).collect()).collect();
    let flat: Vec<T> = lists.iter().flatten().copied().collect();
    expect_exact("offset_diagonal", &x.offset_diagonal(off), &[deep, d], &flat)?;
    let want: Vec<Acc> = lists.iter().map(|g| Acc {
        exact: if exact { g.iter().map(|x| x.to_i()).sum() } else { 0 }, f: g.iter().map(|x| x.to_f()).sum(), abs: g.iter().map(|x| x.to_f().abs()).sum(), terms: d }).collect();
    compare("offset_trace", &x.offset_trace(off), &[deep], &want, exact)?;
    compare("offset_trace_along", &x.offset_trace_along(off, 0, 1), &[deep], &want, exact)?;
    compare("offset_trace_along", &x.offset_trace_along(-off, 1, 0), &[deep], &want, exact)?;
    event("long_diagonals_checked", 1);
    Ok(())
}

fn diagonals<T: El>(c: &mut Case) -> Res {
    let (sh, plan, off, a, b) = setup(c);
    let nd = sh.len();
    let (na, nb) = (neg_axis(&mut c.rng, a, nd), neg_axis(&mut c.rng, b, nd));
    c.note(format!("{} diagonal offset {off} axes {na},{nb} of {}", T::NAME, plan_text(&plan)));
    c.sig(format!("{}d{}{}{a}{b}{}", T::NAME, kinds(&plan), off.signum(), nd));
    let data: Vec<T> = (0..size(&plan.base)).map(T::nth).collect();
    let keep = data.clone();
    let use_axis_type = c.rng.chance(1, 2);
    with_plan(&plan, data, &mut no_mon, &mut |x, m, mem| {
        let md = m.apply(&Step::Diagonal(off, a as isize, b as isize));
        let check = |name: &str, v: &NdArray<'_, T>| -> Res {
            expect_exact(name, v, &md.shape, &md.values(&keep))?;
            for (k, p) in v.flatiter_ptr().enumerate() {
                ensure!(mem.cell(p) == Some(md.idx[k]), "{name}: element {k} is a copy or another cell");
            }
            event("diagonals_checked", 1);
            Ok(())
        };
        if use_axis_type { check("offset_diagonal_along", &x.offset_diagonal_along(off, Axis(na), Axis(nb)))?; }
        check("offset_diagonal_along", &x.offset_diagonal_along(off, na, nb))?;
        if off == 0 { check("diagonal_along", &x.diagonal_along(na, nb))?; }
        if a == 0 && b == 1 { check("offset_diagonal", &x.offset_diagonal(off))?; }
        if a == 0 && b == 1 && off == 0 { check("diagonal", &x.diagonal())?; }
        Ok(())
    })?;
    Ok(())
}

fn traces<T: Num>(c: &mut Case) -> Res {
    let (sh, plan, off, a, b) = setup(c);
    let nd = sh.len();
    let (na, nb) = (neg_axis(&mut c.rng, a, nd), neg_axis(&mut c.rng, b, nd));
    let terms = sh[a].min(sh[b]);
    let exact = !T::FLOAT || c.rng.chance(1, 2);
    c.note(format!("{} trace offset {off} axes {na},{nb} of {}", T::NAME, plan_text(&plan)));
    c.sig(format!("{}t{}{}{a}{b}{}", T::NAME, kinds(&plan), off.signum(), nd));
    let data = factors::<T>(&mut c.rng, size(&plan.base), terms, 1, exact);
    if exact && bound::<T>(terms, 1) == 0 { return Ok(()); }
    let keep = data.clone();
    with_plan(&plan, data, &mut no_mon, &mut |x, m, _| {
        let md = m.apply(&Step::Diagonal(off, a as isize, b as isize));
        let v = md.values(&keep);
        let d = *md.shape.last().unwrap();
        let osh = md.shape[..md.shape.len() - 1].to_vec();
        let want: Vec<Acc> = v.chunks(d).map(|g| Acc {
            exact: if exact { g.iter().map(|x| x.to_i()).sum() } else { 0 }, f: g.iter().map(|x| x.to_f()).sum(), abs: g.iter().map(|x| x.to_f().abs()).sum(), terms: d }).collect();
        compare("offset_trace_along", &x.offset_trace_along(off, na, nb), &osh, &want, exact)?;
        if off == 0 { compare("trace_along", &x.trace_along(na, nb), &osh, &want, exact)?; }
        if a == 0 && b == 1 { compare("offset_trace", &x.offset_trace(off), &osh, &want, exact)?; }
        if a == 0 && b == 1 && off == 0 { compare("trace", &x.trace(), &osh, &want, exact)?; }
        event("traces_checked", 1);
        Ok(())
    })?;
    Ok(())
}

pub fn case_c13(c: &mut Case) -> Res {
    let k = c.rng.below(1 << 20);
    if k % 5 == 4 { return num_dtype!(k / 5, T => views::<T>(c)); }
    num_dtype!(k / 5, T => c13::<T>(c))
}

const LETTERS: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

const FAMOUS: &[(&[&str], &str)] = &[
    (&["ij", "jk"], "ik"), (&["ij", "jk"], "ki"), (&["ij", "kj"], "ik"), (&["ji", "jk"], "ik"), (&["ij", "j"], "i"), (&["ij", "i"], "j"), (&["i", "i"], ""), (&["i", "j"], "ij"),
    (&["i", "i"], "i"), (&["ij", "ij"], "ij"), (&["ij", "ij"], ""), (&["ij"], "ji"), (&["ii"], ""), (&["ii"], "i"), (&["ij"], ""), (&["ij"], "i"), (&["ij"], "j"), (&["i"], ""), (&["bij", "bjk"], "bik"),
    (&["ij", "jk", "kl"], "il"), (&["ij", "kj", "i"], "ik"), (&["i", "i", "i"], ""), (&["i", "", "i"], "i"), (&["", "i"], "i"), (&["i", ""], ""), (&["ijk", "jil"], "kl"), (&["i", "j", "k"], "ijk"), (&["ij", "", "jk"], "ik"),
    (&["ij", "i", "j"], ""), (&["i", "ij", "j"], ""), (&["abc"], "cab"), (&["iij"], "j"), (&["iij"], "ij"), (&["ijj", "j"], "i"),
];

fn c13<T: Num>(c: &mut Case) -> Res {
    let (tiny, small, huge) = (c.cfg.tiny, c.cfg.small, c.cfg.huge);
    let r = &mut c.rng;
    let nl;
    let mut subs: Vec<Vec<usize>> = vec![];
    let mut out: Vec<usize>;
    if r.chance(1, 3) {
        let (s, o) = *r.pick(FAMOUS);
        let mut names: Vec<char> = vec![];
        let mut id = |ch: char| { if let Some(i) = names.iter().position(|&x| x == ch) { i } else { names.push(ch); names.len() - 1 } };
        for x in s { subs.push(x.chars().map(&mut id).collect()); }
        out = o.chars().map(&mut id).collect();
        nl = names.len();
    } else {
        nl = if huge { r.us(1, 3) } else if r.chance(1, 40) && !tiny { r.us(10, 20) } else if r.chance(1, 6) && !tiny { r.us(5, 10) } else { r.us(1, 6) };
        let nops = match r.below(8) { 0 | 1 => 1, 2..=4 => 2, 5 | 6 => 3, _ => if huge { 2 } else if r.chance(1, 10) && !tiny { r.us(8, 14) } else { r.us(3, 8) } };
        for _ in 0..nops {
            let most = if nl > 9 { nl + 1 } else if r.chance(1, 4) && !tiny { 8.min(nl + 2) } else { 4.min(nl + 1) };
            let n = r.us(0, most);
            let mut s: Vec<usize> = vec![];
            for _ in 0..n { let l = r.below(nl); if !s.contains(&l) || r.chance(1, 5) { s.push(l); } }
            subs.push(s);
        }
        out = vec![];
        for l in 0..nl { if subs.iter().any(|s| s.contains(&l)) && r.chance(1, 2) { out.push(l); } }
        r.shuffle(&mut out);
    }
    if subs.iter().all(|s| s.is_empty()) { subs[0].push(0); if nl == 0 { return Ok(()); } }
    let nops = subs.len();
    // label sizes, keeping the iteration space small
    let mut dims: Vec<usize> = (0..nl).map(|_| if small { *r.pick(&[1, 2, 3, 4, 5, 8, 17]) } else if tiny { r.us(1, 3) } else { match r.below(6) { 0 => 1, 1..=3 => r.us(2, 4), 4 => r.us(4, 9), _ => *r.pick(&[1, 8, 16, 17, 33]) } }).collect();
    if nl <= 2 && r.chance(1, 10) && !tiny { let k = r.below(nl); dims[k] = r.us(50, 2000); }
    if nl > 6 { let one = if nl > 10 { 2 } else { 6 }; for d in dims.iter_mut() { *d = if r.chance(1, one) { 1 } else { r.us(2, 3) }; } }
    if huge { let k = r.below(nl); dims[k] = r.us(1 << 20, 3 << 19); for (j, d) in dims.iter_mut().enumerate() { if j != k { *d = (*d).min(3); } } }
    let lim = if huge { 9 << 19 } else if small { 300 } else if tiny { 100 } else { 60_000 };
    // a label repeated within an operand counts each time
    let largest = |dims: &[usize]| subs.iter().map(|s| s.iter().map(|&l| dims[l]).product::<usize>()).max().unwrap_or(1).max(size(dims));
    while largest(&dims) > lim { let k = r.below(nl); dims[k] = (dims[k] / 2).max(1); }
    let terms: usize = (0..nl).filter(|l| !out.contains(l)).map(|l| dims[l]).product();
    let exact = !T::FLOAT || r.chance(2, 3);
    if exact && bound::<T>(terms, nops) == 0 { event("einsum_skipped_small_type", 1); c.sig("skip"); return Ok(()); }
    let shapes: Vec<Vec<usize>> = subs.iter().map(|s| s.iter().map(|&l| dims[l]).collect()).collect();
    let plans: Vec<Plan> = shapes.iter().map(|s| { let o = opts_for(s, true); plan_for(r, s, o) }).collect();
    let mut data: Vec<Vec<T>> = plans.iter().map(|p| factors::<T>(r, size(&p.base), terms, nops, exact)).collect();
    let keep = data.clone();
    // names: any distinct letters
    let mut lets: Vec<u8> = LETTERS.to_vec();
    r.shuffle(&mut lets);
    let text = |s: &[usize]| -> String { s.iter().map(|&l| lets[l] as char).collect() };
    let st: Vec<String> = subs.iter().map(|s| text(s)).collect();
    let ot = text(&out);
    c.note(format!("{} einsum {}->{ot} dims {dims:?} exact={exact} of {}", T::NAME, st.join(","), plans.iter().map(plan_text).collect::<Vec<_>>().join(" , ")));
    let canon: Vec<String> = subs.iter().map(|s| s.iter().map(|l| l.to_string()).collect()).collect();
    c.sig(format!("{}{}>{:?}{}", T::NAME, canon.join(","), out, plans.iter().map(kinds).collect::<Vec<_>>().join(",")));
    with_many(&plans, &mut data, vec![], vec![], vec![], &mut |arrs, ms, mems| {
        let vals: Vec<Vec<T>> = ms.iter().zip(&keep).map(|(m, d)| m.values(d)).collect();
        let want = naive::<T>(&subs, &shapes, &vals, &out, &dims, exact);
        let osh: Vec<usize> = out.iter().map(|&l| dims[l]).collect();
        let arrs: &[&NdArray<'_, T>] = unsafe { std::mem::transmute(arrs) };
        let sr: Vec<&str> = st.iter().map(|s| s.as_str()).collect();
        let r = T::einsum(arrs, &sr, &ot);
        event("einsums_checked", 1);
        compare("einsum", &r, &osh, &want, exact)?;
        for (mem, d) in mems.iter().zip(&keep) { ensure!(same_all(&mem.snapshot(), d), "einsum changed an operand"); }
        Ok(())
    })?;
    Ok(())
}

/// einsum_view: a view exactly when nothing is summed
fn views<T: Num>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let n = if r.chance(1, 20) { r.us(6, 12) } else { r.us(1, 5) };
    let nl = r.us(1, n);
    let dims: Vec<usize> = (0..nl).map(|_| if n > 5 { *r.pick(&[1, 1, 2, 2, 3]) } else { r.us(1, 5) }).collect();
    let subs: Vec<usize> = (0..n).map(|a| if a < nl { a } else { r.below(nl) }).collect();
    let mut subs = subs; r.shuffle(&mut subs);
    let mut out: Vec<usize> = (0..nl).filter(|_| r.chance(5, 6)).collect();
    r.shuffle(&mut out);
    let shape: Vec<usize> = subs.iter().map(|&l| dims[l]).collect();
    if size(&shape) > 20_000 { return Ok(()); }
    let o = opts_for(&shape, true);
    let plan = plan_for(r, &shape, o);
    let data: Vec<T> = (0..size(&plan.base)).map(T::nth).collect();
    let keep = data.clone();
    let mut lets: Vec<u8> = LETTERS.to_vec();
    r.shuffle(&mut lets);
    let text = |s: &[usize]| -> String { s.iter().map(|&l| lets[l] as char).collect() };
    let (st, ot) = (text(&subs), text(&out));
    c.note(format!("{} einsum_view {st}->{ot} of {}", T::NAME, plan_text(&plan)));
    c.sig(format!("{}view{subs:?}{out:?}{}", T::NAME, kinds(&plan)));
    with_plan(&plan, data, &mut no_mon, &mut |a, m, mem| {
        let v = einsum_view(&a, (&st, &ot));
        if out.len() < nl {
            ensure!(v.is_none(), "einsum_view {st}->{ot} returned a view although a label is summed");
            event("einsum_views_refused", 1);
            return Ok(());
        }
        let v = match v { Some(v) => v, None => return Err(Fail(format!("einsum_view {st}->{ot} returned nothing"))) };
        let osh: Vec<usize> = out.iter().map(|&l| dims[l]).collect();
        let mut cells = vec![];
        for k in 0..size(&osh) {
            let oi = unravel(k, &osh);
            let ix: Vec<usize> = subs.iter().map(|l| oi[out.iter().position(|x| x == l).unwrap()]).collect();
            cells.push(m.idx[ravel(&ix, &m.shape)]);
        }
        let vals: Vec<T> = cells.iter().map(|&i| keep[i]).collect();
        expect_exact("einsum_view", &v, &osh, &vals)?;
        for (k, p) in v.flatiter_ptr().enumerate() { ensure!(mem.cell(p) == Some(cells[k]), "einsum_view: element {k} is not a cell of the operand"); }
        event("einsum_views_checked", 1);
        Ok(())
    })?;
    Ok(())
}
