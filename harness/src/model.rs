//! The reference model of an array view, the generator of layouts, and the driver that applies a
//! layout plan to the real library step by step.
use crate::el::El;
use crate::rng::Rng;
use crate::run::{event, Fail, Res};
use crate::ensure;
use redstone_ml::*;

/// A view as mathematics has it: for every multi-index (row-major), which cell of the base buffer.
#[derive(Clone, Debug, PartialEq)]
pub struct M { pub shape: Vec<usize>, pub idx: Vec<usize> }

pub fn size(shape: &[usize]) -> usize { shape.iter().product() }

pub fn unravel(mut i: usize, shape: &[usize]) -> Vec<usize> {
    let mut v = vec![0; shape.len()];
    for a in (0..shape.len()).rev() { v[a] = i % shape[a]; i /= shape[a]; }
    v
}
pub fn ravel(ix: &[usize], shape: &[usize]) -> usize { ix.iter().zip(shape).fold(0, |acc, (i, n)| acc * n + i) }

#[derive(Clone, Debug, PartialEq)]
pub enum Ix { At(usize), Range(usize, usize), RangeIncl(usize, usize), From(usize), To(usize), ToIncl(usize), Full }

impl Ix {
    pub fn lib(&self) -> Index {
        match *self {
            Ix::At(i) => Index::from(i), Ix::Range(a, b) => Index::from(a..b), Ix::RangeIncl(a, b) => Index::from(a..=b),
            Ix::From(a) => Index::from(a..), Ix::To(b) => Index::from(..b), Ix::ToIncl(b) => Index::from(..=b),
            Ix::Full => Index::from(..),
        }
    }
    /// (start, length) within an axis of length n
    pub fn bounds(&self, n: usize) -> (usize, usize) {
        match *self {
            Ix::At(i) => (i, 1), Ix::Range(a, b) => (a, b - a), Ix::RangeIncl(a, b) => (a, b - a + 1),
            Ix::From(a) => (a, n - a), Ix::To(b) => (0, b), Ix::ToIncl(b) => (0, b + 1), Ix::Full => (0, n),
        }
    }
    pub fn collapses(&self) -> bool { matches!(self, Ix::At(_)) }
    /// an index expression selecting start..start+len of an axis of length n, spelled at random
    pub fn spell(r: &mut Rng, start: usize, len: usize, n: usize) -> Ix {
        let mut c = vec![Ix::Range(start, start + len), Ix::RangeIncl(start, start + len - 1)];
        if start + len == n { c.push(Ix::From(start)); c.push(Ix::From(start)); }
        if start == 0 { c.push(Ix::To(len)); c.push(Ix::ToIncl(len - 1)); }
        if start == 0 && len == n { c.push(Ix::Full); }
        r.pick(&c).clone()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    View,
    Reshape(Vec<usize>),
    Squeeze,
    Unsqueeze(isize),
    Transpose(isize, isize),
    T,
    SliceAlong(isize, Ix),
    Slice(Vec<Ix>),
    Diagonal(isize, isize, isize), // offset, axis1, axis2
    Broadcast(Vec<usize>),
}

#[derive(Clone, Debug)]
pub struct PStep { pub step: Step, pub consume: bool }

#[derive(Clone, Debug)]
pub struct Plan { pub base: Vec<usize>, pub steps: Vec<PStep> }

fn abs(a: isize, n: usize) -> usize { if a < 0 { (a + n as isize) as usize } else { a as usize } }

impl M {
    pub fn base(shape: &[usize]) -> M { M { shape: shape.to_vec(), idx: (0..size(shape)).collect() } }
    pub fn size(&self) -> usize { self.idx.len() }

    /// The definition of each view.
    pub fn apply(&self, s: &Step) -> M {
        let n = self.shape.len();
        let build = |shape: Vec<usize>, f: &dyn Fn(&[usize]) -> usize| -> M {
            let mut idx = Vec::with_capacity(size(&shape));
            let mut ix = vec![0; shape.len()];
            for _ in 0..size(&shape) {
                idx.push(self.idx[f(&ix)]);
                for a in (0..shape.len()).rev() { ix[a] += 1; if ix[a] < shape[a] { break; } ix[a] = 0; }
            }
            M { shape, idx }
        };
        match s {
            Step::View => self.clone(),
            Step::Reshape(sh) => M { shape: sh.clone(), idx: self.idx.clone() },
            Step::Squeeze => M { shape: self.shape.iter().copied().filter(|&d| d != 1).collect(), idx: self.idx.clone() },
            Step::Unsqueeze(a) => { let mut sh = self.shape.clone(); sh.insert(abs(*a, n + 1), 1); M { shape: sh, idx: self.idx.clone() } }
            Step::T => self.apply(&Step::Transpose(0, 1)),
            Step::Transpose(a, b) => {
                let (a, b) = (abs(*a, n), abs(*b, n));
                let mut sh = self.shape.clone(); sh.swap(a, b);
                build(sh, &|ix| { let mut v = ix.to_vec(); v.swap(a, b); ravel(&v, &self.shape) })
            }
            Step::SliceAlong(a, i) => {
                let a = abs(*a, n);
                let mut v = vec![Ix::Full; a]; v.push(i.clone());
                self.apply(&Step::Slice(v))
            }
            Step::Slice(v) => {
                let mut sh = vec![]; let mut map = vec![]; // (start, kept)
                for a in 0..n {
                    let i = v.get(a).cloned().unwrap_or(Ix::Full);
                    let (st, len) = i.bounds(self.shape[a]);
                    map.push((st, !i.collapses()));
                    if !i.collapses() { sh.push(len); }
                }
                build(sh, &|ix| {
                    let mut k = 0;
                    let full: Vec<usize> = map.iter().map(|&(st, kept)| if kept { k += 1; st + ix[k - 1] } else { st }).collect();
                    ravel(&full, &self.shape)
                })
            }
            Step::Diagonal(off, a, b) => {
                let (a, b) = (abs(*a, n), abs(*b, n));
                let (o1, o2) = if *off >= 0 { (0, *off as usize) } else { ((-*off) as usize, 0) };
                let d = (self.shape[a] - o1).min(self.shape[b] - o2);
                let mut sh: Vec<usize> = (0..n).filter(|&x| x != a && x != b).map(|x| self.shape[x]).collect();
                sh.push(d);
                build(sh, &|ix| {
                    let i = ix[ix.len() - 1];
                    let mut k = 0;
                    let full: Vec<usize> = (0..n).map(|x| if x == a { i + o1 } else if x == b { i + o2 } else { k += 1; ix[k - 1] }).collect();
                    ravel(&full, &self.shape)
                })
            }
            Step::Broadcast(sh) => {
                let pad = sh.len() - n;
                build(sh.clone(), &|ix| {
                    let full: Vec<usize> = (0..n).map(|x| if self.shape[x] == 1 { 0 } else { ix[pad + x] }).collect();
                    ravel(&full, &self.shape)
                })
            }
        }
    }

    pub fn values<T: Copy>(&self, base: &[T]) -> Vec<T> { self.idx.iter().map(|&i| base[i]).collect() }
}

pub fn neg_axis(r: &mut Rng, a: usize, n: usize) -> isize { if r.chance(1, 3) { a as isize - n as isize } else { a as isize } }

/// A random shape with at most `max` elements.
pub fn rand_shape(r: &mut Rng, max_nd: usize, max: usize) -> Vec<usize> {
    let nd = match r.below(20) { 0 => 0, 1..=4 => 1, 5..=10 => 2, 11..=14 => 3, 15..=16 => 4, _ => r.us(0, max_nd) }.min(max_nd);
    let mut sh = vec![1; nd];
    // equal lengths
    if nd > 1 && r.chance(1, 10) {
        let top = (max as f64).powf(1.0 / nd as f64) as usize;
        return vec![r.us(1, top.clamp(1, 40)); nd];
    }
    let style = r.below(4);
    let mut total = 1;
    let mut order: Vec<usize> = (0..nd).collect();
    r.shuffle(&mut order);
    for &a in &order {
        let cap = max / total;
        let d = match style {
            0 => r.us(1, 4),
            1 => r.us(2, 7),
            2 => *r.pick(&[1, 1, 2, 3, 5, 8, 9, 16, 17]),
            _ => *r.pick(&[1, 2, 3, 4, 5, 7, 11, 31, 32, 33, 64, 65, 100]),
        };
        sh[a] = d.clamp(1, cap.max(1));
        total *= sh[a];
    }
    sh
}

/// Which steps a generated plan may contain.
#[derive(Clone, Copy)]
pub struct Opts { pub broadcast: bool, pub max_steps: usize, pub max_base: usize }
impl Default for Opts { fn default() -> Self { Opts { broadcast: true, max_steps: 5, max_base: 4000 } } }

/// Generates a plan whose result has exactly `target` as its shape, working backwards from it.
pub fn plan_for(r: &mut Rng, target: &[usize], o: Opts) -> Plan {
    let mut steps: Vec<PStep> = vec![];
    let mut cur = target.to_vec();
    let n = r.us(0, o.max_steps);
    // once a reshape has been put in, everything before it must keep the elements evenly spaced
    let mut uniform = false;
    for _ in 0..n {
        let nd = cur.len();
        let tot = size(&cur);
        let room = (o.max_base / tot.max(1)).max(1);
        let k = r.below(11);
        let consume = r.chance(1, 2);
        let st = match k {
            0 => Some(Step::View),
            1 if nd >= 2 && !uniform => {
                let (a, b) = (r.below(nd), r.below(nd));
                cur.swap(a, b);
                if a == 0 && b == 1 && r.chance(1, 2) { Some(Step::T) } else { Some(Step::Transpose(neg_axis(r, a, nd), neg_axis(r, b, nd))) }
            }
            2 | 3 if nd >= 1 && nd <= 9 => {
                let a = if uniform { 0 } else { r.below(nd) };
                let len = cur[a];
                let extra_max = ((room - 1).min(4) * len.max(1)).min(6).max(0);
                let extra = if room <= 1 { 0 } else { r.us(0, extra_max.min((room - 1) * len)) };
                let start = r.us(0, extra);
                cur[a] = len + extra;
                let ix = Ix::spell(r, start, len, cur[a]);
                if r.chance(1, 2) { Some(Step::SliceAlong(neg_axis(r, a, nd), ix)) } else {
                    let mut v = vec![Ix::Full; a]; v.push(ix);
                    for _ in 0..r.below(nd - a) { v.push(Ix::Full); }
                    Some(Step::Slice(v))
                }
            }
            4 | 5 if nd < 9 && room > 1 => {
                let a = if uniform { if nd == 1 && r.chance(1, 2) { 1 } else { 0 } } else { r.below(nd + 1) };
                let d = r.us(1, room.min(4));
                let i = r.below(d);
                cur.insert(a, d);
                if r.chance(1, 2) { Some(Step::SliceAlong(neg_axis(r, a, nd + 1), Ix::At(i))) } else {
                    let mut v = vec![Ix::Full; a]; v.push(Ix::At(i));
                    Some(Step::Slice(v))
                }
            }
            6 if o.broadcast && !uniform => {
                let full = cur.clone();
                let drop = if r.chance(1, 2) { r.us(0, nd) } else { 0 };
                cur = cur[drop..].to_vec();
                for d in cur.iter_mut() { if r.chance(1, 3) { *d = 1; } }
                Some(Step::Broadcast(full))
            }
            7 if cur.contains(&1) => {
                let ones: Vec<usize> = (0..nd).filter(|&a| cur[a] == 1).collect();
                let a = *r.pick(&ones);
                cur.remove(a);
                Some(Step::Unsqueeze(neg_axis(r, a, nd)))
            }
            8 if !cur.contains(&1) && nd < 8 => {
                for _ in 0..r.us(1, 2) { let a = r.us(0, cur.len()); cur.insert(a, 1); }
                Some(Step::Squeeze)
            }
            9 if nd >= 1 && nd < 8 && room > 2 && (!uniform || nd == 1) => {
                let d = cur[nd - 1];
                let (a, b) = if r.chance(1, 2) { (0, 1) } else {
                    let a = r.us(0, nd); let mut b = r.us(0, nd); if a == b { b = (a + 1) % (nd + 1); } (a, b)
                };
                if d * d > o.max_base || tot * d * 2 > o.max_base { None } else {
                    let off = r.range(-2, 2) as isize;
                    let (o1, o2) = if off >= 0 { (0, off as usize) } else { ((-off) as usize, 0) };
                    let (mut da, mut db) = (d + o1, d + o2);
                    if !uniform { if r.chance(1, 3) { if r.chance(1, 2) { da += r.us(0, 2) } else { db += r.us(0, 2) } } }
                    let rest = cur[..nd - 1].to_vec();
                    let mut it = rest.into_iter();
                    cur = (0..nd + 1).map(|x| if x == a { da } else if x == b { db } else { it.next().unwrap() }).collect();
                    Some(Step::Diagonal(off, neg_axis(r, a, nd + 1), neg_axis(r, b, nd + 1)))
                }
            }
            10 => {
                let sh = cur.clone();
                cur = refactor(r, tot);
                uniform = true;
                Some(Step::Reshape(sh))
            }
            _ => None,
        };
        if let Some(step) = st {
            let consume = consume && matches!(step, Step::View | Step::Reshape(_) | Step::Squeeze | Step::Unsqueeze(_) | Step::Transpose(..) | Step::T);
            steps.push(PStep { step, consume });
        }
    }
    steps.reverse();
    Plan { base: cur, steps }
}

/// A random shape with exactly `n` elements.
pub fn refactor(r: &mut Rng, mut n: usize) -> Vec<usize> {
    let mut sh = vec![];
    let mut p = 2;
    let nd = r.us(1, 4);
    let mut dims = vec![1usize; nd];
    while n > 1 && p * p <= n {
        while n % p == 0 { let i = r.below(nd); dims[i] *= p; n /= p; }
        p += 1;
    }
    if n > 1 { let i = r.below(nd); dims[i] *= n; }
    sh.extend(dims);
    if sh.iter().all(|&d| d == 1) && r.chance(1, 3) { sh.clear(); }
    sh
}

/// The base buffer, readable at any time through its address while the array under test lives.
#[derive(Clone, Copy)]
pub struct Mem<T> { pub ptr: *mut T, pub len: usize }
impl<T: Copy> Mem<T> {
    pub fn snapshot(&self) -> Vec<T> { unsafe { (0..self.len).map(|i| std::ptr::read_volatile(self.ptr.add(i))).collect() } }
    /// cell number of an address, if it lies in the buffer
    pub fn cell(&self, p: *const T) -> Option<usize> {
        let (a, b) = (p as usize, self.ptr as usize);
        let s = std::mem::size_of::<T>();
        if a >= b && a < b + self.len * s && (a - b) % s == 0 { Some((a - b) / s) } else { None }
    }
}

pub enum Monitor { Off, Layout }

/// Applies the plan to a real array with contents `data` and hands the result to `f`.
/// With `mon`, the real array is compared with the model after every single step.
pub fn with_plan<T: El, R>(plan: &Plan, data: Vec<T>, mon: &mut dyn FnMut(&NdArray<'_, T>, &M, Mem<T>, bool) -> Res,
                           f: &mut dyn FnMut(NdArray<'_, T>, &M, Mem<T>) -> Res<R>) -> Res<Option<R>> {
    let flat = unsafe { NdArray::<T>::from_contiguous_owned_buffer(vec![data.len()], data) };
    let len = flat.size();
    let arr = if plan.base == [len] { flat } else { flat.reshape(plan.base.clone()) };
    let ptr = match arr.flatiter_ptr().next() { Some(p) => p, None => return Err(Fail("no first element".into())) };
    let mem = Mem { ptr, len };
    let m = M::base(&plan.base);
    mon(&arr, &m, mem, true)?;
    rec(arr, m, mem, true, &plan.steps, mon, f)
}

/// Applies further steps to an array the model `m` describes.
pub fn rec<T: El, R>(arr: NdArray<'_, T>, m: M, mem: Mem<T>, owned: bool, steps: &[PStep],
                 mon: &mut dyn FnMut(&NdArray<'_, T>, &M, Mem<T>, bool) -> Res,
                 f: &mut dyn FnMut(NdArray<'_, T>, &M, Mem<T>) -> Res<R>) -> Res<Option<R>> {
    let Some((s, rest)) = steps.split_first() else { return f(arr, &m, mem).map(Some) };
    if let Step::Reshape(sh) = &s.step {
        // documented precondition of reshape; what the flag itself promises is another property
        if *sh != m.shape && !arr.is_uniformly_strided() { event("plans_skipped_reshape_of_non_uniform", 1); return Ok(None); }
    }
    let m2 = m.apply(&s.step);
    event("view_steps", 1);
    macro_rules! go { ($n:expr, $o:expr) => {{ let n = $n; mon(&n, &m2, mem, $o)?; rec(n, m2, mem, $o, rest, mon, f) }} }
    if s.consume {
        match &s.step {
            Step::View => go!(arr.view(), owned),
            Step::Reshape(sh) => go!(arr.reshape(sh.clone()), owned),
            Step::Squeeze => go!(arr.squeeze(), owned),
            Step::Unsqueeze(a) => go!(arr.unsqueeze(*a), owned),
            Step::Transpose(a, b) => go!(arr.transpose(*a, *b), owned),
            Step::T => go!(arr.T(), owned),
            _ => unreachable!(),
        }
    } else {
        let before = (arr.shape().to_vec(), arr.stride().to_vec(), arr.is_view(), arr.is_contiguous());
        let r = match &s.step {
            Step::View => go!((&arr).view(), false),
            Step::Reshape(sh) => go!((&arr).reshape(sh.clone()), false),
            Step::Squeeze => go!((&arr).squeeze(), false),
            Step::Unsqueeze(a) => go!((&arr).unsqueeze(*a), false),
            Step::Transpose(a, b) => go!((&arr).transpose(Axis(*a), Axis(*b)), false),
            Step::T => go!((&arr).T(), false),
            Step::SliceAlong(a, i) => match i.clone() {
                Ix::At(i) => go!(arr.slice_along(Axis(*a), i), false),
                Ix::Range(x, y) => go!(arr.slice_along(Axis(*a), x..y), false),
                Ix::RangeIncl(x, y) => go!(arr.slice_along(Axis(*a), x..=y), false),
                Ix::From(x) => go!(arr.slice_along(Axis(*a), x..), false),
                Ix::To(y) => go!(arr.slice_along(Axis(*a), ..y), false),
                Ix::ToIncl(y) => go!(arr.slice_along(Axis(*a), ..=y), false),
                Ix::Full => go!(arr.slice_along(Axis(*a), ..), false),
            },
            Step::Slice(v) => go!(arr.slice(v.iter().map(|i| i.lib()).collect::<Vec<_>>()), false),
            Step::Diagonal(o, a, b) => {
                if *o == 0 && *a == 0 && *b == 1 { go!(arr.diagonal(), false) }
                else if *a == 0 && *b == 1 { go!(arr.offset_diagonal(*o), false) }
                else if *o == 0 { go!(arr.diagonal_along(*a, *b), false) }
                else { go!(arr.offset_diagonal_along(*o, *a, *b), false) }
            }
            Step::Broadcast(sh) => go!(arr.broadcast_to(sh), false),
        }?;
        let after = (arr.shape().to_vec(), arr.stride().to_vec(), arr.is_view(), arr.is_contiguous());
        ensure!(before == after, "taking a view changed the array it was taken from: {before:?} -> {after:?}");
        Ok(r)
    }
}

pub fn no_mon<T: El>(_: &NdArray<'_, T>, _: &M, _: Mem<T>, _: bool) -> Res { Ok(()) }

/// Two arrays with planned layouts.
pub fn with_two<T: El, R>(p: (&Plan, &Plan), d: (Vec<T>, Vec<T>),
                          f: &mut dyn FnMut((NdArray<'_, T>, &M, Mem<T>), (NdArray<'_, T>, &M, Mem<T>)) -> Res<R>) -> Res<Option<R>> {
    let mut d1 = Some(d.1);
    let r = with_plan(p.0, d.0, &mut no_mon, &mut |a, ma, mema| {
        let mut a = Some(a);
        with_plan(p.1, d1.take().unwrap(), &mut no_mon, &mut |b, mb, memb| f((a.take().unwrap(), ma, mema), (b, mb, memb)))
    })?;
    Ok(r.flatten())
}

/// Any number of arrays with planned layouts, by reference.
pub fn with_many<T: El>(plans: &[Plan], data: &mut Vec<Vec<T>>, acc: Vec<&NdArray<'_, T>>, ms: Vec<M>, mems: Vec<Mem<T>>,
                        f: &mut dyn FnMut(&[&NdArray<'_, T>], &[M], &[Mem<T>]) -> Res) -> Res<Option<()>> {
    let Some((p, rest)) = plans.split_first() else { return f(&acc, &ms, &mems).map(Some) };
    let d = data.remove(0);
    let r = with_plan(p, d, &mut no_mon, &mut |a, m, mem| {
        let mut acc: Vec<&NdArray<'_, T>> = acc.iter().map(|x| &**x).collect();
        acc.push(&a);
        let mut ms = ms.clone(); ms.push(m.clone());
        let mut mems = mems.clone(); mems.push(mem);
        with_many(rest, data, acc, ms, mems, f)
    })?;
    Ok(r.flatten())
}

/// The logical contents of an array, read element by element through its own addresses.
pub fn contents<T: El>(a: &NdArray<'_, T>) -> Vec<T> { a.flatiter().take(a.size() + 1).collect() }

/// Compares an array with expected shape and contents, bit for bit.
pub fn expect_exact<T: El>(what: &str, a: &NdArray<'_, T>, shape: &[usize], vals: &[T]) -> Res {
    ensure!(a.shape() == shape, "{what}: shape is {:?}, expected {:?}", a.shape(), shape);
    let got = contents(a);
    ensure!(got.len() == vals.len(), "{what}: {} elements, expected {}", got.len(), vals.len());
    for i in 0..vals.len() {
        ensure!(T::same(got[i], vals[i]), "{what}: element {:?} is {:?}, expected {:?}", unravel(i, shape), got[i], vals[i]);
    }
    event("elements_compared", vals.len() as u64);
    Ok(())
}

pub fn kinds(p: &Plan) -> String {
    p.steps.iter().map(|s| {
        let c = match s.step { Step::View => 'v', Step::Reshape(_) => 'r', Step::Squeeze => 'q', Step::Unsqueeze(_) => 'u', Step::Transpose(..) => 't', Step::T => 'T',
            Step::SliceAlong(_, Ix::At(_)) => 'i', Step::SliceAlong(..) => 's', Step::Slice(_) => 'S', Step::Diagonal(..) => 'd', Step::Broadcast(_) => 'b' };
        if s.consume { c.to_ascii_uppercase() } else { c }
    }).collect()
}

pub fn plan_text(p: &Plan) -> String {
    let mut s = format!("base{:?}", p.base);
    for st in &p.steps { s += &format!("{}{:?}", if st.consume { "=>" } else { "->" }, st.step); }
    s
}

pub fn size_class(n: usize) -> usize { (usize::BITS - n.leading_zeros()) as usize }

/// A shape for a case: mostly small, now and then thousands of elements, rarely very many.
pub fn pick_shape(c: &mut crate::run::Case, max_nd: usize, max: usize) -> Vec<usize> {
    let r = &mut c.rng;
    if c.cfg.small { return rand_shape(r, max_nd.min(4), max.min(70)); }
    if c.cfg.tiny { return rand_shape(r, max_nd.min(4), max.min(16)); }
    if c.cfg.huge {
        let tot = (1 << 20) + r.us(1, 1 << 19);
        let mut sh = vec![tot];
        if max_nd >= 2 && r.chance(1, 2) { let d = r.us(1, 9); sh = vec![tot / d + 1, d]; }
        if max_nd >= 2 && r.chance(1, 6) { sh = vec![1025, 1031]; }
        if max_nd >= 3 && r.chance(1, 4) { let d = r.us(1, 3); sh.push(d); sh[0] = sh[0] / d + 1; }
        r.shuffle(&mut sh);
        return sh;
    }
    let k = r.below(3000);
    let lim = if k == 0 { 400_000 } else if k < 60 { 20_000 } else { max };
    let nd = if k < 60 { max_nd.min(3) } else { max_nd };
    if k < 60 {
        let nd = r.us(1, nd.max(1));
        let mut left = r.us(lim / 8, lim);
        let mut sh = vec![1; nd];
        for (a, d) in sh.iter_mut().enumerate() {
            *d = if a + 1 == nd { left } else { r.us(1, (left as f64).powf(1.0 / (nd - a) as f64) as usize * 2 + 1).min(left) };
            left /= *d;
            left = left.max(1);
        }
        r.shuffle(&mut sh);
        return sh;
    }
    // many axes
    if k < 120 && max_nd >= 6 {
        let nd = r.us(9, 24);
        let mut sh = vec![1; nd];
        let mut total = 1;
        for d in sh.iter_mut() { let x = *r.pick(&[1, 1, 2, 2, 3]); if total * x <= max { *d = x; total *= x; } }
        r.shuffle(&mut sh);
        return sh;
    }
    rand_shape(r, nd, lim)
}

pub fn opts_for(target: &[usize], broadcast: bool) -> Opts {
    let t = size(target);
    Opts { broadcast, max_steps: if t > 5000 { 3 } else { 5 }, max_base: if t > 5000 { t * 2 } else { 4000.max(t) } }
}

/// Random steps that are valid for an array of shape `shape`, with the shape they lead to.
pub fn forward_steps(r: &mut Rng, shape: &[usize], n: usize, broadcast: bool) -> Vec<PStep> {
    let mut cur = shape.to_vec();
    let mut out = vec![];
    for _ in 0..n {
        let nd = cur.len();
        let st = match r.below(11) {
            0 => Some(Step::View),
            1 if nd >= 2 => { let (a, b) = (r.below(nd), r.below(nd)); cur.swap(a, b); Some(Step::Transpose(neg_axis(r, a, nd), neg_axis(r, b, nd))) }
            2 | 3 if nd >= 1 => {
                let a = r.below(nd);
                let st = r.below(cur[a]); let len = r.us(1, cur[a] - st);
                let ix = Ix::spell(r, st, len, cur[a]);
                cur[a] = len;
                Some(Step::SliceAlong(neg_axis(r, a, nd), ix))
            }
            4 if nd >= 1 => {
                let a = r.below(nd); let i = r.below(cur[a]); cur.remove(a);
                Some(Step::SliceAlong(neg_axis(r, a, nd), Ix::At(i)))
            }
            5 if nd >= 2 => {
                let a = r.below(nd); let mut b = r.below(nd); if a == b { b = (a + 1) % nd; }
                let off = r.range(-(cur[a] as i64 - 1).min(2), (cur[b] as i64 - 1).min(2)) as isize;
                let (o1, o2) = if off >= 0 { (0, off as usize) } else { ((-off) as usize, 0) };
                let d = (cur[a] - o1).min(cur[b] - o2);
                cur = (0..nd).filter(|&x| x != a && x != b).map(|x| cur[x]).collect();
                cur.push(d);
                Some(Step::Diagonal(off, neg_axis(r, a, nd), neg_axis(r, b, nd)))
            }
            6 if nd < 8 => { let a = r.us(0, nd); cur.insert(a, 1); Some(Step::Unsqueeze(neg_axis(r, a, nd + 1))) }
            7 => { cur.retain(|&d| d != 1); Some(Step::Squeeze) }
            8 if broadcast && nd < 7 => {
                let mut sh = cur.clone();
                for a in 0..sh.len() { if sh[a] == 1 && size(&sh) < 20000 && r.chance(1, 2) { sh[a] = r.us(1, 3); } }
                if r.chance(1, 3) { sh.insert(0, r.us(1, 3)); }
                cur = sh.clone();
                Some(Step::Broadcast(sh))
            }
            9 if nd >= 1 => {
                let k = r.us(1, nd);
                let mut left = vec![]; let mut ixs = vec![];
                for a in 0..k {
                    if r.chance(1, 3) { ixs.push(Ix::At(r.below(cur[a]))); continue; }
                    let st = r.below(cur[a]); let len = r.us(1, cur[a] - st);
                    ixs.push(Ix::spell(r, st, len, cur[a]));
                    left.push(len);
                }
                left.extend_from_slice(&cur[k..]);
                cur = left;
                Some(Step::Slice(ixs))
            }
            _ => None,
        };
        if let Some(step) = st { out.push(PStep { step, consume: false }); }
    }
    out
}

pub fn has_broadcast(steps: &[PStep]) -> bool { steps.iter().any(|s| matches!(s.step, Step::Broadcast(_))) }

/// a[[i, j, ...]] for as many coordinates as given (up to 8)
pub fn get_at<T: El>(a: &NdArray<'_, T>, ix: &[usize]) -> T {
    macro_rules! g { ($($n:literal)*) => { match ix.len() { $( $n => { let mut k = [0usize; $n]; k.copy_from_slice(ix); a[k] } )* _ => unreachable!() } } }
    g!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27)
}
pub fn set_at<T: El>(a: &mut NdArray<'_, T>, ix: &[usize], v: T) {
    macro_rules! g { ($($n:literal)*) => { match ix.len() { $( $n => { let mut k = [0usize; $n]; k.copy_from_slice(ix); a[k] = v } )* _ => unreachable!() } } }
    g!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27)
}

pub fn same_all<T: El>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| T::same(*x, *y)) }

/// where two slices first differ, for messages
pub fn first_diff<T: El>(a: &[T], b: &[T]) -> String {
    if a.len() != b.len() { return format!("{} elements instead of {}", a.len(), b.len()); }
    match (0..a.len()).find(|&i| !T::same(a[i], b[i])) { Some(i) => format!("number {i} is {:?}, expected {:?}", a[i], b[i]), None => "no difference".into() }
}

/// The NumPy broadcast of `idx`-th element: position in an operand of shape `op` of the element `ix` of the result.
pub fn bpos(ix: &[usize], op: &[usize]) -> usize {
    let pad = ix.len() - op.len();
    let mut p = 0;
    for (a, &n) in op.iter().enumerate() { p = p * n + if n == 1 { 0 } else { ix[pad + a] }; }
    p
}
/// for every element of the broadcast shape, the position in the operand
pub fn bmap(out: &[usize], op: &[usize]) -> Vec<usize> {
    let mut v = Vec::with_capacity(size(out));
    let mut ix = vec![0; out.len()];
    for _ in 0..size(out) {
        v.push(bpos(&ix, op));
        for a in (0..out.len()).rev() { ix[a] += 1; if ix[a] < out[a] { break; } ix[a] = 0; }
    }
    v
}
/// Two operand shapes that broadcast to `out`.
pub fn operand_shapes(r: &mut Rng, out: &[usize]) -> (Vec<usize>, Vec<usize>) {
    let mut a = out.to_vec(); let mut b = out.to_vec();
    match r.below(6) {
        0 | 1 => {}
        2 => { let d = r.us(0, out.len()); b = b[d..].to_vec(); }
        3 => { b = vec![]; }
        _ => {
            for i in 0..out.len() { match r.below(4) { 0 => a[i] = 1, 1 => b[i] = 1, _ => {} } }
            let mut d = 0;
            while d < b.len() && b[d] == 1 && r.chance(1, 2) { d += 1; }
            b = b[d..].to_vec();
            if b.len() == out.len() { let mut d = 0; while d < a.len() && a[d] == 1 && r.chance(1, 2) { d += 1; } a = a[d..].to_vec(); }
        }
    }
    if r.chance(1, 2) { (b, a) } else { (a, b) }
}
