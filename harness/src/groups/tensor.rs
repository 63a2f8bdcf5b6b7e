//! C19/C20/C21: random tensor programs and call histories, watched by an independent reverse-mode
//! interpreter in double precision that also bounds the rounding error of every value it predicts.
use redstone_ml::*;
use rsv::el::*;
use rsv::model::*;
use rsv::rng::Rng;
use rsv::run::*;
use rsv::ensure;

pub trait Fl: Num + TensorDataType { const EPS: f64; fn of_f(x: f64) -> Self; }
impl Fl for f32 { const EPS: f64 = f32::EPSILON as f64; fn of_f(x: f64) -> Self { x as f32 } }
impl Fl for f64 { const EPS: f64 = f64::EPSILON; fn of_f(x: f64) -> Self { x } }

/// value and the sum of the magnitudes it was made of
#[derive(Clone, Copy, Debug)]
struct D { v: f64, a: f64 }
impl D {
    fn ex(v: f64) -> D { D { v, a: v.abs() } }
    fn add(self, o: D) -> D { D { v: self.v + o.v, a: self.a + o.a } }
    fn neg(self) -> D { D { v: -self.v, a: self.a } }
    fn mul(self, o: D) -> D { D { v: self.v * o.v, a: self.a * o.a } }
    fn div(self, o: D) -> D { let b = o.v.abs(); let k = o.a / b; D { v: self.v / o.v, a: self.a / b * k } }
}
const Z: D = D { v: 0.0, a: 0.0 };

#[derive(Clone, Debug)]
enum Kind {
    Leaf,
    Bin(Op, usize, usize),
    BinS(Op, usize, f64),
    Neg(usize),
    MatMul(usize, usize), // dot, matrix-vector, matrix-matrix
    Bmm(usize, usize),
    Same(usize),          // reshape, squeeze, unsqueeze, view: elements in order
    Transpose(usize, usize, usize),
}

struct Node { shape: Vec<usize>, val: Vec<D>, req: bool, kind: Kind, paths: f64, depth: usize }

/// C[m,n] = A[m,k] B[k,n] with optional transposition of the stored operands
fn mm(a: &[D], b: &[D], m: usize, k: usize, n: usize, ta: bool, tb: bool) -> Vec<D> {
    let mut c = vec![Z; m * n];
    for i in 0..m { for j in 0..n {
        let mut s = Z;
        for l in 0..k { s = s.add(a[if ta { l * m + i } else { i * k + l }].mul(b[if tb { j * k + l } else { l * n + j }])); }
        c[i * n + j] = s;
    } }
    c
}
fn permute(v: &[D], shape: &[usize], a: usize, b: usize) -> (Vec<usize>, Vec<D>) {
    let mut sh = shape.to_vec(); sh.swap(a, b);
    let out = (0..v.len()).map(|i| { let mut ix = unravel(i, &sh); ix.swap(a, b); v[ravel(&ix, shape)] }).collect();
    (sh, out)
}
fn bshape(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
    let n = a.len().max(b.len());
    (0..n).map(|i| {
        let x = if i + a.len() >= n { a[i + a.len() - n] } else { 1 };
        let y = if i + b.len() >= n { b[i + b.len() - n] } else { 1 };
        if x == y || y == 1 { Some(x) } else if x == 1 { Some(y) } else { None }
    }).collect()
}

struct Oracle { nodes: Vec<Node>, rounds: f64 }

impl Oracle {
    fn push(&mut self, kind: Kind) -> Option<usize> {
        let nodes = &self.nodes;
        let (shape, val, ps, work): (Vec<usize>, Vec<D>, Vec<usize>, usize) = match &kind {
            Kind::Leaf => unreachable!(),
            Kind::Bin(op, a, b) => {
                let (x, y) = (&nodes[*a], &nodes[*b]);
                let sh = bshape(&x.shape, &y.shape)?;
                let (p, q) = (bmap(&sh, &x.shape), bmap(&sh, &y.shape));
                let v = p.iter().zip(&q).map(|(&i, &j)| { let (l, r) = (x.val[i], y.val[j]);
                    match op { Add => l.add(r), Sub => l.add(r.neg()), Mul => l.mul(r), _ => l.div(r) } }).collect();
                let w = 3 + size(&sh) / x.val.len().min(y.val.len());
                (sh, v, vec![*a, *b], w)
            }
            Kind::BinS(op, a, s) => {
                let s = D::ex(*s);
                (nodes[*a].shape.clone(), nodes[*a].val.iter().map(|l| match op { Add => l.add(s), Sub => l.add(s.neg()), Mul => l.mul(s), _ => l.div(s) }).collect(), vec![*a], 3)
            }
            Kind::Neg(a) => (nodes[*a].shape.clone(), nodes[*a].val.iter().map(|x| x.neg()).collect(), vec![*a], 1),
            Kind::MatMul(a, b) => {
                let (x, y) = (&nodes[*a], &nodes[*b]);
                match (x.shape.len(), y.shape.len()) {
                    (1, 1) => (vec![], mm(&x.val, &y.val, 1, x.shape[0], 1, false, false), vec![*a, *b], 2 + x.shape[0]),
                    (2, 1) => (vec![x.shape[0]], mm(&x.val, &y.val, x.shape[0], x.shape[1], 1, false, false), vec![*a, *b], 2 + x.shape[0].max(x.shape[1])),
                    _ => (vec![x.shape[0], y.shape[1]], mm(&x.val, &y.val, x.shape[0], x.shape[1], y.shape[1], false, false), vec![*a, *b], 2 + x.shape[0].max(x.shape[1]).max(y.shape[1])),
                }
            }
            Kind::Bmm(a, b) => {
                let (x, y) = (&nodes[*a], &nodes[*b]);
                let (bt, m, k, n) = (x.shape[0], x.shape[1], x.shape[2], y.shape[2]);
                let v = (0..bt).flat_map(|i| mm(&x.val[i * m * k..(i + 1) * m * k], &y.val[i * k * n..(i + 1) * k * n], m, k, n, false, false)).collect();
                (vec![bt, m, n], v, vec![*a, *b], 2 + m.max(k).max(n))
            }
            Kind::Same(a) => (vec![], nodes[*a].val.clone(), vec![*a], 0),
            Kind::Transpose(a, i, j) => { let (s, v) = permute(&nodes[*a].val, &nodes[*a].shape, *i, *j); (s, v, vec![*a], 0) }
        };
        if val.iter().any(|d| !(d.a < 1e5)) { return None; }
        let paths: f64 = ps.iter().map(|&p| if nodes[p].req { nodes[p].paths } else { 0.0 }).sum();
        if paths > 300.0 { return None; }
        let req = ps.iter().any(|&p| nodes[p].req);
        let depth = 1 + ps.iter().map(|&p| nodes[p].depth).max().unwrap_or(0);
        self.rounds += work as f64;
        self.nodes.push(Node { shape, val, req, kind, paths, depth });
        Some(self.nodes.len() - 1)
    }

    fn leaf(&mut self, shape: &[usize], val: Vec<D>, req: bool) -> usize {
        self.nodes.push(Node { shape: shape.to_vec(), val, req, kind: Kind::Leaf, paths: 1.0, depth: 0 });
        self.nodes.len() - 1
    }

    /// vector-Jacobian products of node `out` with `seed`, for every node
    fn vjp(&self, out: usize, seed: Vec<D>) -> Vec<Option<Vec<D>>> {
        let mut g: Vec<Option<Vec<D>>> = vec![None; self.nodes.len()];
        g[out] = Some(seed);
        for n in (0..=out).rev() {
            let Some(gr) = g[n].clone() else { continue };
            let node = &self.nodes[n];
            if !node.req { g[n] = None; continue; }
            let send = |g: &mut Vec<Option<Vec<D>>>, p: usize, f: &dyn Fn(&mut Vec<D>)| {
                if !self.nodes[p].req { return; }
                let t = g[p].get_or_insert_with(|| vec![Z; self.nodes[p].val.len()]);
                f(t);
            };
            match &node.kind {
                Kind::Leaf => {}
                Kind::Bin(op, a, b) => {
                    let (x, y) = (&self.nodes[*a], &self.nodes[*b]);
                    let (p, q) = (bmap(&node.shape, &x.shape), bmap(&node.shape, &y.shape));
                    send(&mut g, *a, &|t| for k in 0..gr.len() {
                        let d = match op { Add | Sub => gr[k], Mul => gr[k].mul(y.val[q[k]]), _ => gr[k].div(y.val[q[k]]) };
                        t[p[k]] = t[p[k]].add(d);
                    });
                    send(&mut g, *b, &|t| for k in 0..gr.len() {
                        let d = match op { Add => gr[k], Sub => gr[k].neg(), Mul => gr[k].mul(x.val[p[k]]), _ => gr[k].mul(x.val[p[k]]).neg().div(y.val[q[k]]).div(y.val[q[k]]) };
                        t[q[k]] = t[q[k]].add(d);
                    });
                }
                Kind::BinS(op, a, s) => send(&mut g, *a, &|t| for k in 0..gr.len() {
                    t[k] = t[k].add(match op { Add | Sub => gr[k], Mul => gr[k].mul(D::ex(*s)), _ => gr[k].div(D::ex(*s)) });
                }),
                Kind::Neg(a) => send(&mut g, *a, &|t| for k in 0..gr.len() { t[k] = t[k].add(gr[k].neg()); }),
                Kind::Same(a) => send(&mut g, *a, &|t| for k in 0..gr.len() { t[k] = t[k].add(gr[k]); }),
                Kind::Transpose(a, i, j) => { let (_, v) = permute(&gr, &node.shape, *i, *j); send(&mut g, *a, &|t| for k in 0..v.len() { t[k] = t[k].add(v[k]); }) }
                Kind::MatMul(a, b) => {
                    let (x, y) = (&self.nodes[*a], &self.nodes[*b]);
                    let (m, k, n) = match (x.shape.len(), y.shape.len()) { (1, 1) => (1, x.shape[0], 1), (2, 1) => (x.shape[0], x.shape[1], 1), _ => (x.shape[0], x.shape[1], y.shape[1]) };
                    let ga = mm(&gr, &y.val, m, n, k, false, true);
                    let gb = mm(&x.val, &gr, k, m, n, true, false);
                    send(&mut g, *a, &|t| for i in 0..ga.len() { t[i] = t[i].add(ga[i]); });
                    send(&mut g, *b, &|t| for i in 0..gb.len() { t[i] = t[i].add(gb[i]); });
                }
                Kind::Bmm(a, b) => {
                    let (x, y) = (&self.nodes[*a], &self.nodes[*b]);
                    let (bt, m, k, n) = (x.shape[0], x.shape[1], x.shape[2], y.shape[2]);
                    for i in 0..bt {
                        let gs = &gr[i * m * n..(i + 1) * m * n];
                        let ga = mm(gs, &y.val[i * k * n..(i + 1) * k * n], m, n, k, false, true);
                        let gb = mm(&x.val[i * m * k..(i + 1) * m * k], gs, k, m, n, true, false);
                        send(&mut g, *a, &|t| for q in 0..ga.len() { let z = i * m * k + q; t[z] = t[z].add(ga[q]); });
                        send(&mut g, *b, &|t| for q in 0..gb.len() { let z = i * k * n + q; t[z] = t[z].add(gb[q]); });
                    }
                }
            }
        }
        g
    }
}

/// A live library tensor and the oracle node it stands for.
struct Live<T: Fl> {
    t: Box<Tensor<'static, T>>,
    node: usize,
    id: usize,
    borrows: Option<usize>, // id of the tensor whose storage this one borrows
    bits: Vec<T>,           // its contents when it was made
    user_leaf: bool,        // came out of a constructor
    grad: Option<Vec<D>>,   // expected accumulated gradient, if it is a leaf with one
    rounds: f64,
    alias: bool,            // may share its gradient function with its operand
}

struct World<T: Fl> { o: Oracle, live: Vec<Live<T>>, next: usize, log: String, budget: usize, values: bool, sizes: usize }

impl<T: Fl> Drop for World<T> {
    // views go before what they borrow from, as the borrow checker would have it
    fn drop(&mut self) { while let Some(l) = self.live.pop() { drop(l); } }
}

impl<T: Fl> World<T> {
    fn new() -> Self { World { o: Oracle { nodes: vec![], rounds: 8.0 }, live: vec![], next: 0, log: String::new(), budget: 0, values: false, sizes: 40 } }

    fn borrowed(&self, id: usize) -> bool { self.live.iter().any(|l| l.borrows == Some(id)) }

    /// the reference a safe program would hold; the live list keeps its target alive long enough
    fn r(&self, i: usize) -> &'static Tensor<'static, T> { unsafe { &*(&*self.live[i].t as *const Tensor<'static, T>) } }

    fn add_leaf(&mut self, r: &mut Rng, shape: Vec<usize>) -> Res<usize> {
        let n = size(&shape);
        let style = r.below(3);
        let v: Vec<f64> = (0..n).map(|_| match style {
            0 => *r.pick(&[-2.0, -1.0, -0.5, 0.5, 1.0, 2.0, 1.0, 4.0]),
            1 => { let x = r.range(2, 24) as f64 / 8.0; if r.chance(1, 2) { -x } else { x } }
            _ => (r.unit() * 2.0 + 0.3) * if r.chance(1, 2) { -1.0 } else { 1.0 },
        }).map(|x| T::of_f(x).to_f()).collect();
        let data: Vec<T> = v.iter().map(|x| T::of_f(*x)).collect();
        let mut t = unsafe { Tensor::<T>::from_contiguous_owned_buffer(shape.clone(), data.clone()) };
        let req = r.chance(2, 3);
        ensure!(!t.requires_grad() && t.is_leaf(), "a new tensor requires gradients or is no leaf");
        ensure!(t.gradient_is_none(), "a new tensor has a gradient");
        if req {
            t.set_requires_grad(true);
            if r.chance(1, 8) { t.set_requires_grad(false); ensure!(!t.requires_grad() && t.gradient_is_none(), "gradients stay enabled after being disabled"); t.set_requires_grad(true); }
        }
        let node = self.o.leaf(&shape, v.into_iter().map(D::ex).collect(), req);
        self.log += &format!("#{} = leaf{shape:?}{}; ", self.next, if req { "*" } else { "" });
        self.live.push(Live { t: Box::new(t), node, id: self.next, borrows: None, bits: data, user_leaf: true, grad: if req { Some(vec![Z; n]) } else { None }, rounds: 0.0, alias: false });
        self.next += 1;
        Ok(self.live.len() - 1)
    }

    fn finish(&mut self, node: usize, t: Tensor<'static, T>, borrows: Option<usize>, want: Option<NdArray<'static, T>>, alias: bool, what: String) -> Res<usize> {
        let exp_shape = self.o.nodes[node].shape.clone();
        ensure!(t.shape() == exp_shape, "{what}: shape is {:?}, expected {exp_shape:?}", t.shape());
        let bits = contents(t.ndarray());
        let tol = self.o.rounds * T::EPS * 2.0;
        for (k, d) in self.o.nodes[node].val.iter().enumerate() {
            ensure!((bits[k].to_f() - d.v).abs() <= tol * d.a, "{what}: element {k} is {:?}, expected {}", bits[k], d.v);
        }
        event("values_predicted", bits.len() as u64);
        if let Some(w) = want {
            ensure!(w.shape() == exp_shape, "{what}: the array operation has shape {:?}, the tensor operation {exp_shape:?}", w.shape());
            let wv = contents(&w);
            ensure!(same_all(&bits, &wv), "{what}: the tensor operation and the array operation differ: element {}", first_diff(&bits, &wv));
            event("tensor_and_array_results_compared", 1);
        }
        let req = self.o.nodes[node].req;
        ensure!(t.requires_grad() == req, "{what}: requires_grad() is {}, expected {req}", t.requires_grad());
        ensure!(t.is_leaf() == !req, "{what}: is_leaf() is {} for a result with requires_grad() {req}", t.is_leaf());
        event("results_checked", 1);
        self.log += &format!("#{} = {what}; ", self.next);
        self.live.push(Live { t: Box::new(t), node, id: self.next, borrows, bits, user_leaf: false, grad: None, rounds: 0.0, alias });
        self.next += 1;
        Ok(self.live.len() - 1)
    }

    /// may this tensor be moved away now?
    fn movable(&self, i: usize) -> bool { !self.borrowed(self.live[i].id) }

    fn step(&mut self, r: &mut Rng) -> Res {
        if self.live.is_empty() || r.chance(1, 9) {
            let sh = if r.chance(1, 3) && !self.live.is_empty() { let i = r.below(self.live.len()); let mut s = self.o.nodes[self.live[i].node].shape.clone(); r.shuffle(&mut s); s } else { rand_shape(r, 4, self.sizes) };
            self.add_leaf(r, sh)?;
            return Ok(());
        }
        // half the time carry on from the latest result, so that graphs get deep
        let i = if r.chance(1, 2) { self.live.len() - 1 } else { r.below(self.live.len()) };
        let ni = self.live[i].node;
        let shape = self.o.nodes[ni].shape.clone();
        match r.below(12) {
            0..=3 => self.binary(r, i, &shape),
            4 => self.scalar_op(r, i),
            5 => {
                let Some(n) = self.o.push(Kind::Neg(ni)) else { return Ok(()) };
                self.o.nodes[n].shape = shape;
                let id = self.live[i].id;
                let want = self.array_of(i).map(|a| -&a);
                if self.movable(i) && r.chance(1, 4) {
                    let l = self.live.remove(i);
                    let t = -*l.t;
                    self.finish(n, t, None, want, false, format!("-#{id} (moved)"))?;
                } else {
                    let t = -self.r(i);
                    self.finish(n, t, None, want, false, format!("-#{id}"))?;
                }
                Ok(())
            }
            6..=8 => self.reshaping(r, i, &shape),
            _ => self.product(r, i, &shape),
        }
    }

    /// the same contents as an array, for the comparison of tensor and array operations
    fn array_of(&self, i: usize) -> Option<NdArray<'static, T>> {
        if !self.values { return None; }
        // bit for bit the same computation needs the same layout
        let a: &'static NdArray<'static, T> = unsafe { std::mem::transmute(self.live[i].t.ndarray()) };
        Some(a.view())
    }

    /// index of a live tensor that broadcasts with `shape`, making one if need be
    fn partner(&mut self, r: &mut Rng, i: usize, shape: &[usize]) -> Res<usize> {
        let ok: Vec<usize> = (0..self.live.len()).filter(|&j| bshape(shape, &self.o.nodes[self.live[j].node].shape).is_some_and(|s| size(&s) <= self.sizes * 4)).collect();
        if r.chance(1, 8) { return Ok(i); }
        if !ok.is_empty() && r.chance(1, 2) { return Ok(*r.pick(&ok)); }
        let mut s = shape.to_vec();
        match r.below(4) {
            0 => {}
            1 => { let d = r.us(0, s.len()); s.drain(..d); for x in s.iter_mut() { if r.chance(1, 3) { *x = 1; } } }
            2 => for x in s.iter_mut() { if r.chance(1, 2) { *x = 1; } },
            _ => { for x in s.iter_mut() { if *x == 1 { *x = r.us(1, 4); } } if r.chance(1, 2) && s.len() < 5 { s.insert(0, r.us(1, 3)); } }
        }
        if size(&s) > self.sizes * 4 { s = shape.to_vec(); }
        self.add_leaf(r, s)
    }

    fn binary(&mut self, r: &mut Rng, i: usize, shape: &[usize]) -> Res {
        let j = self.partner(r, i, shape)?;
        let (mut a, mut b) = if r.chance(1, 2) { (i, j) } else { (j, i) };
        let op = *r.pick(&[Add, Sub, Mul, Mul, Div, Div]);
        let (na, nb) = (self.live[a].node, self.live[b].node);
        if op == Div && self.o.nodes[nb].val.iter().any(|d| d.v.abs() < 0.2 || d.a > 20.0 * d.v.abs()) { return Ok(()); }
        let Some(n) = self.o.push(Kind::Bin(op, na, nb)) else { return Ok(()) };
        let (ia, ib) = (self.live[a].id, self.live[b].id);
        let want = match (self.array_of(a), self.array_of(b)) {
            (Some(x), Some(y)) => Some(match op { Add => &x + &y, Sub => &x - &y, Mul => &x * &y, _ => &x / &y }), _ => None };
        let ma = a != b && self.movable(a) && r.chance(1, 5);
        let mb = a != b && self.movable(b) && r.chance(1, 5) && self.live[b].borrows != Some(ia) && self.live[a].borrows != Some(ib);
        let ma = ma && self.live[b].borrows != Some(ia) && self.live[a].borrows != Some(ib);
        let what = format!("#{ia}{} {op:?} #{ib}{}", if ma { "(moved)" } else { "" }, if mb { "(moved)" } else { "" });
        macro_rules! go { ($x:expr, $y:expr) => { match op { Add => $x + $y, Sub => $x - $y, Mul => $x * $y, _ => $x / $y } } }
        let t = match (ma, mb) {
            (false, false) => { let (x, y) = (self.r(a), self.r(b)); go!(x, y) }
            (true, false) => { let x = self.live.remove(a); if b > a { b -= 1; } let y = self.r(b); go!(*x.t, y) }
            (false, true) => { let y = self.live.remove(b); if a > b { a -= 1; } let x = self.r(a); go!(x, *y.t) }
            (true, true) => { let (hi, lo) = (a.max(b), a.min(b)); let h = self.live.remove(hi); let l = self.live.remove(lo); let (x, y) = if a > b { (h, l) } else { (l, h) }; go!(*x.t, *y.t) }
        };
        self.finish(n, t, None, want, false, what)?;
        Ok(())
    }

    fn scalar_op(&mut self, r: &mut Rng, i: usize) -> Res {
        let ni = self.live[i].node;
        let op = *r.pick(&[Add, Sub, Mul, Div]);
        let s = T::of_f(*r.pick(&[0.5, 2.0, -1.5, 3.0, -0.25, 1.0, 10.0, 0.1]));
        let Some(n) = self.o.push(Kind::BinS(op, ni, s.to_f())) else { return Ok(()) };
        let id = self.live[i].id;
        let want = self.array_of(i).map(|x| match op { Add => &x + s, Sub => &x - s, Mul => &x * s, _ => &x / s });
        let mv = self.movable(i) && r.chance(1, 4);
        let t = if mv { let l = self.live.remove(i); let x = *l.t; match op { Add => x + s, Sub => x - s, Mul => x * s, _ => x / s } }
                else { let x = self.r(i); match op { Add => x + s, Sub => x - s, Mul => x * s, _ => x / s } };
        self.finish(n, t, None, want, matches!(op, Add | Sub), format!("#{id}{} {op:?} {s:?}", if mv { "(moved)" } else { "" }))?;
        Ok(())
    }

    fn reshaping(&mut self, r: &mut Rng, i: usize, shape: &[usize]) -> Res {
        let nd = shape.len();
        let n = size(shape);
        let ni = self.live[i].node;
        let id = self.live[i].id;
        let kind = r.below(6);
        let (step, new): (Step, Vec<usize>) = match kind {
            0 | 1 => { let s = refactor(r, n); (Step::Reshape(s.clone()), s) }
            2 => (Step::Squeeze, shape.iter().copied().filter(|d| *d != 1).collect()),
            3 if nd < 6 => { let a = r.us(0, nd); let mut s = shape.to_vec(); s.insert(a, 1); (Step::Unsqueeze(neg_axis(r, a, nd + 1)), s) }
            4 if nd >= 2 => { let (a, b) = (r.below(nd), r.below(nd)); let mut s = shape.to_vec(); s.swap(a, b);
                (if a == 0 && b == 1 { Step::T } else { Step::Transpose(neg_axis(r, a, nd), neg_axis(r, b, nd)) }, s) }
            _ => (Step::View, shape.to_vec()),
        };
        if let Step::Reshape(s) = &step { if s != shape && !self.live[i].t.is_uniformly_strided() { return Ok(()); } }
        let node = match &step {
            Step::T => self.o.push(Kind::Transpose(ni, 0, 1)),
            Step::Transpose(a, b) => { let f = |x: isize| if x < 0 { (x + nd as isize) as usize } else { x as usize }; self.o.push(Kind::Transpose(ni, f(*a), f(*b))) }
            _ => self.o.push(Kind::Same(ni)),
        };
        let Some(node) = node else { return Ok(()) };
        self.o.nodes[node].shape = new;
        macro_rules! go { ($x:expr) => { match &step {
            Step::View => $x.view(), Step::Reshape(s) => $x.reshape(s.clone()), Step::Squeeze => $x.squeeze(), Step::Unsqueeze(a) => $x.unsqueeze(*a),
            Step::T => $x.T(), Step::Transpose(a, b) => $x.transpose(*a, *b), _ => unreachable!() } } }
        let want = self.array_of(i).map(|x| { let v: NdArray<'_, T> = go!(&x); v.clone() });
        let mv = self.movable(i) && r.chance(1, 3);
        let what = format!("#{id}{} {step:?}", if mv { "(moved)" } else { "" });
        let alias = matches!(step, Step::View | Step::Reshape(_));
        if mv {
            let l = self.live.remove(i);
            let t = *l.t;
            let t: Tensor<'static, T> = go!(t);
            self.finish(node, t, None, want, alias, what)?;
        } else {
            let x = self.r(i);
            let t: Tensor<'static, T> = go!(x);
            self.finish(node, t, Some(id), want, alias, what)?;
        }
        Ok(())
    }

    fn product(&mut self, r: &mut Rng, i: usize, shape: &[usize]) -> Res {
        let ni = self.live[i].node;
        let id = self.live[i].id;
        let nd = shape.len();
        if !(1..=3).contains(&nd) { return Ok(()); }
        let left = r.chance(1, 2);
        let d = match r.below(4) { 0 => *r.pick(shape), 1 if self.sizes > 40 => r.us(1, 33), _ => r.us(1, 5) };
        // shape of the other operand
        let (other, bmm) = match (nd, left) {
            (1, true) => (vec![shape[0]], false),
            (1, false) => if r.chance(1, 2) { (vec![shape[0]], false) } else { (vec![d, shape[0]], false) },
            (2, true) => if r.chance(1, 3) { (vec![shape[1]], false) } else { (vec![shape[1], d], false) },
            (2, false) => (vec![d, shape[0]], false),
            (_, true) => (vec![shape[0], shape[2], d], true),
            (_, false) => (vec![shape[0], d, shape[1]], true),
        };
        let cand: Vec<usize> = (0..self.live.len()).filter(|&j| {
            let s = &self.o.nodes[self.live[j].node].shape;
            s.len() == other.len() && match (nd, left) {
                (1, _) if other.len() == 1 => *s == other,
                (1, _) => s[1] == shape[0],
                (2, true) => s[0] == shape[1], (2, false) => s[1] == shape[0],
                (_, true) => s[0] == shape[0] && s[1] == shape[2], (_, false) => s[0] == shape[0] && s[2] == shape[1],
            }
        }).collect();
        let j = if !cand.is_empty() && r.chance(1, 2) { *r.pick(&cand) } else { if size(&other) > self.sizes * 4 { return Ok(()); } self.add_leaf(r, other)? };
        let (a, b) = if left { (i, j) } else { (j, i) };
        let (na, nb) = (self.live[a].node, self.live[b].node);
        let _ = ni; let _ = id;
        {
            let (x, y) = (&self.o.nodes[na].shape, &self.o.nodes[nb].shape);
            let cols = if y.len() == 1 { 1 } else { *y.last().unwrap() };
            let rows = if x.len() == 1 { 1 } else { size(x) / x.last().unwrap() };
            if rows * cols > 4 * self.sizes.max(2000) || size(x) * cols > 10 << 20 { return Ok(()); }
        }
        let k = if bmm { Kind::Bmm(na, nb) } else { Kind::MatMul(na, nb) };
        let Some(n) = self.o.push(k) else { return Ok(()) };
        let (ia, ib) = (self.live[a].id, self.live[b].id);
        let both1 = self.o.nodes[na].shape.len() == 1 && self.o.nodes[nb].shape.len() == 1;
        let use_dot = both1 && r.chance(1, 2);
        let want = match (self.array_of(a), self.array_of(b)) {
            (Some(x), Some(y)) => { let (x, y): (&'static NdArray<'static, T>, &'static NdArray<'static, T>) = unsafe { (std::mem::transmute(&x), std::mem::transmute(&y)) };
                Some(if bmm { T::bmm(x, y) } else if use_dot { T::dot(x, y) } else { T::matmul(x, y) }) } _ => None };
        let (x, y) = (self.r(a), self.r(b));
        let t: Tensor<'static, T> = if bmm { x.bmm(y) } else if use_dot { x.dot(y) } else { x.matmul(y) };
        self.finish(n, t, None, want, false, format!("#{ia} {} #{ib}", if bmm { "bmm" } else if use_dot { "dot" } else { "matmul" }))?;
        Ok(())
    }

    /// backward from a live tensor, with ones or a seed in an arbitrary layout
    fn backward(&mut self, r: &mut Rng, i: usize) -> Res {
        let n = self.live[i].node;
        let id = self.live[i].id;
        let shape = self.o.nodes[n].shape.clone();
        let x = self.r(i);
        let seed: Vec<D>;
        if r.chance(1, 2) {
            seed = vec![D::ex(1.0); size(&shape)];
            self.log += &format!("#{id}.backward(); ");
            x.backward();
        } else {
            let o = Opts { broadcast: true, max_steps: 4, max_base: 4000 };
            let plan = plan_for(r, &shape, o);
            let data: Vec<T> = (0..size(&plan.base)).map(|_| T::of_f(r.range(-16, 16) as f64 / 4.0)).collect();
            let m = plan.steps.iter().fold(M::base(&plan.base), |m, s| m.apply(&s.step));
            seed = m.values(&data).iter().map(|x| D::ex(x.to_f())).collect();
            self.log += &format!("#{id}.backward_with({}); ", plan_text(&plan));
            let done = with_plan(&plan, data.clone(), &mut no_mon, &mut |a, _, mem| {
                let s: &NdArray<'static, T> = unsafe { std::mem::transmute(&a) };
                x.backward_with(s);
                ensure!(same_all(&mem.snapshot(), &data), "backward_with changed the seed it was given");
                Ok(())
            })?;
            if done.is_none() { return Ok(()); }
        }
        event("backward_calls", 1);
        let g = self.o.vjp(n, seed);
        let extra = self.o.rounds;
        for l in self.live.iter_mut() {
            if let (Some(acc), Some(Some(d))) = (l.grad.as_mut(), g.get(l.node)) {
                for k in 0..acc.len() { acc[k] = acc[k].add(d[k]); }
                l.rounds += extra;
            }
        }
        self.check_grads(&format!("after backward of #{id}"))
    }

    fn check_grads(&self, when: &str) -> Res {
        for l in &self.live {
            let t = &l.t;
            match &l.grad {
                Some(w) => {
                    ensure!(t.requires_grad(), "{when}: #{} no longer requires gradients", l.id);
                    if l.user_leaf { ensure!(t.is_leaf(), "{when}: #{} is no longer a leaf", l.id); }
                    let g: Option<NdArray<'_, T>> = unsafe { &*(&**t as *const Tensor<'static, T>) }.gradient();
                    let Some(g) = g else { return Err(Fail(format!("{when}: #{} requires gradients and has none", l.id))) };
                    let sh = &self.o.nodes[l.node].shape;
                    ensure!(g.shape() == sh, "{when}: the gradient of #{} has shape {:?}, the tensor {sh:?}", l.id, g.shape());
                    let v = contents(&g);
                    let tol = (l.rounds + self.o.rounds + 8.0) * 2.0 * T::EPS;
                    for k in 0..w.len() {
                        ensure!((v[k].to_f() - w[k].v).abs() <= tol * w[k].a, "{when}: gradient element {:?} of #{} is {:?}, expected {}", unravel(k, sh), l.id, v[k], w[k].v);
                    }
                    event("gradient_elements_checked", v.len() as u64);
                    event("gradients_checked", 1);
                }
                None => {
                    let req = self.o.nodes[l.node].req;
                    ensure!(t.requires_grad() == req, "{when}: requires_grad() of #{} changed", l.id);
                    if !req { ensure!(t.gradient_is_none(), "{when}: #{}, which does not require gradients, has one", l.id); event("gradient_absences_checked", 1); }
                    else if !l.alias { ensure!(t.gradient_is_none(), "{when}: #{}, which is no leaf, has a gradient", l.id); }
                }
            }
        }
        Ok(())
    }

    fn check_values(&self, when: &str) -> Res {
        for l in &self.live {
            let v = contents(l.t.ndarray());
            ensure!(l.t.shape() == self.o.nodes[l.node].shape, "{when}: the shape of #{} changed", l.id);
            ensure!(same_all(&v, &l.bits), "{when}: the value of #{} changed: element {}", l.id, first_diff(&v, &l.bits));
        }
        event("tensors_rechecked", self.live.len() as u64);
        Ok(())
    }

    fn conversions(&mut self, r: &mut Rng) -> Res {
        if self.live.is_empty() { return Ok(()); }
        let i = r.below(self.live.len());
        let id = self.live[i].id;
        let sh = self.o.nodes[self.live[i].node].shape.clone();
        let bits = self.live[i].bits.clone();
        match r.below(5) {
            0 => expect_exact(&format!("#{id}.ndarray()"), self.live[i].t.ndarray(), &sh, &bits)?,
            1 => {
                let rc = self.live[i].t.get_ndarray();
                expect_exact(&format!("#{id}.get_ndarray()"), &rc, &sh, &bits)?;
            }
            2 => {
                let mut d = self.live[i].t.detach();
                expect_exact(&format!("#{id}.detach()"), &d, &sh, &bits)?;
                ensure!(!d.is_view(), "detach does not return an owned array");
                d.fill(T::of_f(-77.0));
                let v = contents(self.live[i].t.ndarray());
                ensure!(same_all(&v, &bits), "writing to the detached array changed #{id}");
            }
            3 => {
                if !self.movable(i) { return Ok(()); }
                let l = self.live.remove(i);
                self.log += &format!("#{id}.into_ndarray(); ");
                let mut d = l.t.into_ndarray();
                expect_exact(&format!("#{id}.into_ndarray()"), &d, &sh, &bits)?;
                ensure!(!d.is_view(), "into_ndarray does not return an owned array");
                // what it hands out is the caller's alone: writing to it changes no tensor and no recorded graph
                d.fill(T::of_f(-77.0));
                self.check_values("after writing to the result of into_ndarray")?;
            }
            _ => if bits.len() == 1 { let v = self.live[i].t.value(); ensure!(T::same(v, bits[0]), "#{id}.value() is {v:?}, expected {:?}", bits[0]); },
        }
        event("conversions_checked", 1);
        Ok(())
    }
}

trait GradNone { fn gradient_is_none(&self) -> bool; }
impl<T: Fl> GradNone for Tensor<'static, T> { fn gradient_is_none(&self) -> bool { unsafe { &*(self as *const Self) }.gradient().is_none() } }

fn start<T: Fl>(c: &mut Case) -> World<T> {
    let mut w = World::<T>::new();
    if c.cfg.huge {
        // a few operations on more than a million elements
        w.sizes = 3 << 19;
        w.budget = 3;
        let sh = pick_shape(c, 3, 0);
        let _ = w.add_leaf(&mut c.rng, sh);
        return w;
    }
    w.sizes = if c.cfg.tiny { 6 } else { match c.rng.below(40) { 0 => 3000, 1..=4 => 300, _ => 40 } };
    w.budget = if c.cfg.tiny { 5 } else if w.sizes > 1000 { 4 } else if c.rng.chance(1, 60) { c.rng.us(40, 120) } else if c.cfg.thorough { c.rng.us(2, 24) } else { c.rng.us(2, 14) };
    w
}

fn finish_case<T: Fl>(c: &mut Case, w: &World<T>, r: Res) -> Res {
    let kinds: String = w.o.nodes.iter().map(|n| match n.kind { Kind::Leaf => 'L', Kind::Bin(Add, ..) => '+', Kind::Bin(Sub, ..) => '-', Kind::Bin(Mul, ..) => '*', Kind::Bin(..) => '/', Kind::BinS(..) => 's', Kind::Neg(_) => 'n', Kind::MatMul(..) => 'm', Kind::Bmm(..) => 'b', Kind::Same(_) => 'r', Kind::Transpose(..) => 't' }).collect();
    c.sig(format!("{}{kinds}", T::NAME));
    c.note(format!("{} {}", T::NAME, w.log));
    r
}

/// C19: one program, one backward call.
pub fn case_c19(c: &mut Case) -> Res { if c.rng.chance(1, 2) { c19::<f32>(c) } else { c19::<f64>(c) } }
fn c19<T: Fl>(c: &mut Case) -> Res {
    let mut w = start::<T>(c);
    let r = c19_run(c, &mut w);
    finish_case(c, &w, r)
}
fn c19_run<T: Fl>(c: &mut Case, w: &mut World<T>) -> Res {
    let r = &mut c.rng;
    for _ in 0..w.budget { w.step(r)?; }
    // from the deepest result that requires gradients, or any other
    let cand: Vec<usize> = (0..w.live.len()).filter(|&i| w.o.nodes[w.live[i].node].req).collect();
    if cand.is_empty() { return Ok(()); }
    let i = if r.chance(2, 3) { *cand.iter().max_by_key(|&&i| w.o.nodes[w.live[i].node].depth).unwrap() } else { *r.pick(&cand) };
    event("graph_depth_total", w.o.nodes[w.live[i].node].depth as u64);
    w.backward(r, i)
}

/// C20: infinite, NaN, subnormal and very large contributions, zeroed and accumulated again.
fn c20_special<T: Fl>(c: &mut Case) -> Res {
    let sh = pick_shape(c, 4, 60);
    let r = &mut c.rng;
    let n = size(&sh);
    let mut log = format!("{} special leaf{sh:?}; ", T::NAME);
    c.sig = format!("special{}{}", T::NAME, sh.len());
    let mut t = unsafe { Tensor::<T>::from_contiguous_owned_buffer(sh.clone(), vec![T::of_f(1.5); n]) };
    t.set_requires_grad(true);
    let mut acc: Vec<T> = vec![T::of_f(0.0); n];
    for _ in 0..r.us(1, 6) {
        match r.below(4) {
            0 => {
                log += "zero_gradient; ";
                t.zero_gradient();
                acc = vec![T::of_f(0.0); n];
                event("gradients_zeroed", 1);
            }
            k => {
                let wild = k == 1;
                let seed: Vec<T> = (0..n).map(|_| if wild && r.chance(1, 3) { *r.pick(&[T::of_f(f64::INFINITY), T::of_f(f64::NEG_INFINITY), T::of_f(f64::NAN), T::of_f(T::EPS * 1e-35)]) } else { T::of_f(r.range(-9, 9) as f64) }).collect();
                let s = unsafe { NdArray::<T>::from_contiguous_owned_buffer(sh.clone(), seed.clone()) };
                let x: &Tensor<'static, T> = unsafe { std::mem::transmute(&t) };
                let s: &NdArray<'static, T> = unsafe { std::mem::transmute(&s) };
                let how = r.below(4);
                log += &format!("backward_with({wild}) of {}; ", ["itself", "-x", "x * 2", "x + x"][how]);
                let f: Vec<T> = match how {
                    0 => { x.backward_with(s); seed }
                    1 => { (-x).backward_with(s); seed.iter().map(|v| -*v).collect() }
                    2 => { (x * T::of_f(2.0)).backward_with(s); seed.iter().map(|v| *v * T::of_f(2.0)).collect() }
                    _ => { (x + x).backward_with(s); for k in 0..n { acc[k] = acc[k] + seed[k]; } seed }
                };
                for k in 0..n { acc[k] = acc[k] + f[k]; }
                event("backward_calls", 1);
            }
        }
        let x: &'static Tensor<'static, T> = unsafe { std::mem::transmute(&t) };
        let Some(g) = x.gradient() else { return Err(Fail(format!("{log}: no gradient"))) };
        ensure!(g.shape() == sh, "{log}: the gradient has shape {:?}", g.shape());
        let v = contents(&g);
        for k in 0..n {
            let (a, b) = (v[k].to_f(), acc[k].to_f());
            ensure!(a == b || a.is_nan() && b.is_nan(), "{log}: gradient element {k} is {a}, expected {b}");
        }
        event("gradients_checked", 1);
    }
    c.note(log);
    Ok(())
}

/// C20: histories of building, backward, zeroing, enabling and dropping.
pub fn case_c20(c: &mut Case) -> Res { if c.rng.chance(1, 40) { return if c.rng.chance(1, 2) { c20_special::<f32>(c) } else { c20_special::<f64>(c) }; } if c.rng.chance(1, 2) { c20::<f32>(c) } else { c20::<f64>(c) } }
fn c20<T: Fl>(c: &mut Case) -> Res {
    let mut w = start::<T>(c);
    let r = c20_run(c, &mut w);
    finish_case(c, &w, r)
}
fn c20_run<T: Fl>(c: &mut Case, w: &mut World<T>) -> Res {
    let r = &mut c.rng;
    for _ in 0..w.budget * 2 {
        match r.below(12) {
            0..=5 => w.step(r)?,
            6..=8 => if !w.live.is_empty() {
                let cand: Vec<usize> = (0..w.live.len()).filter(|&i| w.o.nodes[w.live[i].node].req).collect();
                let i = if !cand.is_empty() && r.chance(7, 8) { *r.pick(&cand) } else { r.below(w.live.len()) };
                w.backward(r, i)?;
            },
            9 => {
                let cand: Vec<usize> = (0..w.live.len()).filter(|&i| w.live[i].grad.is_some()).collect();
                if cand.is_empty() { continue; }
                let i = *r.pick(&cand);
                w.log += &format!("#{}.zero_gradient(); ", w.live[i].id);
                w.live[i].t.zero_gradient();
                for x in w.live[i].grad.as_mut().unwrap() { *x = Z; }
                event("gradients_zeroed", 1);
                w.check_grads("after zero_gradient")?;
            }
            10 => {
                // drop something that nobody borrows from
                let cand: Vec<usize> = (0..w.live.len()).filter(|&i| w.movable(i)).collect();
                if cand.is_empty() || w.live.len() < 3 { continue; }
                let i = *r.pick(&cand);
                w.log += &format!("drop #{}; ", w.live[i].id);
                drop(w.live.remove(i));
                event("tensors_dropped", 1);
            }
            _ => {
                // enable (again, or for a result that was not tracked so far)
                let cand: Vec<usize> = (0..w.live.len()).filter(|&i| w.live[i].grad.is_some() || (!w.o.nodes[w.live[i].node].req && w.movable(i) && w.live[i].borrows.is_none())).collect();
                if cand.is_empty() { continue; }
                let i = *r.pick(&cand);
                w.log += &format!("#{}.set_requires_grad(true); ", w.live[i].id);
                w.live[i].t.set_requires_grad(true);
                if w.live[i].grad.is_none() {
                    let (sh, val) = { let n = &w.o.nodes[w.live[i].node]; (n.shape.clone(), n.val.clone()) };
                    let n = val.len();
                    let node = w.o.leaf(&sh, val, true);
                    w.live[i].node = node;
                    w.live[i].grad = Some(vec![Z; n]);
                    w.live[i].rounds = 0.0;
                }
                w.check_grads("after set_requires_grad(true)")?;
            }
        }
    }
    w.check_grads("at the end")?;
    w.check_values("at the end")
}

/// C21: values of tensor operations, against array operations.
pub fn case_c21(c: &mut Case) -> Res { if c.rng.chance(1, 2) { c21::<f32>(c) } else { c21::<f64>(c) } }
fn c21<T: Fl>(c: &mut Case) -> Res {
    let mut w = start::<T>(c);
    w.values = true;
    let r = c21_run(c, &mut w);
    finish_case(c, &w, r)
}
fn c21_run<T: Fl>(c: &mut Case, w: &mut World<T>) -> Res {
    let r = &mut c.rng;
    for _ in 0..w.budget {
        w.step(r)?;
        if r.chance(1, 3) { w.conversions(r)?; }
        if r.chance(1, 6) {
            let cand: Vec<usize> = (0..w.live.len()).filter(|&i| w.o.nodes[w.live[i].node].req).collect();
            if !cand.is_empty() { let i = *r.pick(&cand); let x = w.r(i); w.log += &format!("#{}.backward(); ", w.live[i].id); x.backward(); event("backward_calls", 1); w.check_values("after backward")?; }
        }
    }
    w.check_values("at the end")
}
