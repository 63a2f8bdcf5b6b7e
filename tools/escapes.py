"""C24: programs that try to use an array, view, iterator, slice, gradient or graph after its storage is gone.

Each program makes an owner, derives a handle from it, ends the owner's life in one of many ways and then uses
the handle.  The compiler's verdict on each program is observed; a program it accepts is run under
AddressSanitizer and must read exactly the values the handle had while the owner lived.  For every way of
deriving a handle there is a control, in which the owner lives on, that must compile: a rejection then means
that the compiler saw the escape."""
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

PRELUDE = r'''#![allow(warnings)]
use redstone_ml::*;
use std::rc::Rc;
use std::cell::RefCell;

fn mk() -> NdArray<'static, f64> { NdArray::<f64>::arange(1.0, 13.0).reshape([3, 4]) }
fn mk2() -> NdArray<'static, f64> { NdArray::<f64>::full(-7.0, [3, 4]) }
fn mkt() -> Tensor<'static, f64> { Tensor::new([[1.0, 2.0, 3.0, 4.0], [5.0, 6.0, 7.0, 8.0], [9.0, 10.0, 11.0, 12.0]]) }
fn mkt2() -> Tensor<'static, f64> { Tensor::full(-7.0, [3, 4]) }
/// a leaf that already has a gradient
fn mkg() -> Tensor<'static, f64> { let mut t = mkt(); t.set_requires_grad(true); (&t * &t).backward(); t }
fn mkg2() -> Tensor<'static, f64> { let mut t = mkt2(); t.set_requires_grad(true); t }

fn av(a: &NdArray<f64>) -> Vec<f64> { let mut v: Vec<f64> = a.shape().iter().map(|&d| d as f64).collect(); v.extend(a.flatiter()); v }
fn tv(t: &Tensor<f64>) -> Vec<f64> { av(&t.detach()) }
/// blocks of the sizes the owners had, with other contents
fn scribble() -> Vec<Vec<f64>> { (0..64).map(|k| vec![-99.0; 1 + k % 16]).collect() }
fn report(n: usize, want: Vec<f64>, got: Vec<f64>) {
    if want == got { println!("OK {n}"); } else { println!("WRONG {n}: read {got:?} instead of {want:?}"); }
}
'''

ARR, FLAT, ND, SLICE, REF, RC, TEN, GRAPH, OPT = "av(&h)", "h.collect::<Vec<f64>>()", "h.flat_map(|x| av(&x)).collect::<Vec<f64>>()", "h.to_vec()", "av(h)", "av(&h)", "tv(&h)", \
    "{ h.backward(); h.backward(); tv(&h) }", "av(&h.unwrap())"

# handles that borrow or copy from an array {o}
ARRAY = [
    ("view", "(&{o}).view()", ARR), ("T", "(&{o}).T()", ARR), ("transpose", "(&{o}).transpose(0, 1)", ARR), ("reshape", "(&{o}).reshape([12])", ARR),
    ("squeeze", "(&{o}).squeeze()", ARR), ("unsqueeze", "(&{o}).unsqueeze(1)", ARR), ("slice", "{o}.slice(s![1.., 0..2])", ARR), ("slice_row", "{o}.slice(s![1])", ARR),
    ("slice_along", "{o}.slice_along(Axis(1), 2)", ARR), ("broadcast", "{o}.broadcast_to(&[2, 3, 4])", ARR), ("diagonal", "{o}.diagonal()", ARR),
    ("offset_diagonal", "{o}.offset_diagonal(1)", ARR), ("diagonal_along", "{o}.diagonal_along(1, 0)", ARR), ("offset_diagonal_along", "{o}.offset_diagonal_along(-1, 0, 1)", ARR),
    ("einsum_view", "einsum_view(&{o}, (\"ij\", \"ji\"))", OPT), ("flatiter", "{o}.flatiter()", FLAT), ("iter", "{o}.iter()", ND), ("iter_along", "{o}.iter_along(1)", ND),
    ("nditer", "{o}.nditer([0, 1])", ND), ("iter_item", "{o}.iter().next().unwrap()", ARR), ("iter_last", "{o}.iter_along(1).last().unwrap()", ARR), ("data_slice", "{o}.data_slice()", SLICE),
    ("clone", "{o}.clone()", ARR), ("astype", "{o}.astype::<f64>()", ARR), ("flatten", "{o}.flatten()", ARR), ("sum", "{o}.sum()", ARR), ("sum_along", "{o}.sum_along(0)", ARR),
    ("max_along", "{o}.max_along(1)", ARR), ("mean", "{o}.mean()", ARR), ("neg", "-(&{o})", ARR), ("add_scalar", "&{o} + 1.5", ARR), ("add", "&{o} + &{o}", ARR),
    ("matmul", "{o}.matmul(&(&{o}).T())", ARR), ("dot", "{o}.slice(s![0]).dot(&{o}.slice(s![1]))", ARR), ("trace", "{o}.trace()", ARR),
    ("einsum", "einsum([&{o}, &{o}], ([\"ij\", \"ij\"], \"i\"))", ARR), ("einsum_one", "einsum([&{o}], ([\"ij\"], \"ji\"))", ARR),
    ("shape", "{o}.shape()", "h.iter().map(|&x| x as f64).collect::<Vec<f64>>()"), ("stride", "{o}.stride()", "h.iter().map(|&x| x as f64).collect::<Vec<f64>>()"),
    ("index", "&{o}[[1, 2]]", "vec![*h]"), ("as_ref", "AsRef::<NdArray<f64>>::as_ref(&{o})", REF),
]
# by value: the handle takes the place of the owner
MOVE = [("move_view", "{o}.view()", ARR), ("move_T", "{o}.T()", ARR), ("move_transpose", "{o}.transpose(1, 0)", ARR), ("move_reshape", "{o}.reshape([4, 3])", ARR),
        ("move_squeeze", "{o}.squeeze()", ARR), ("move_unsqueeze", "{o}.unsqueeze(0)", ARR), ("move_add", "{o} + 1.0", ARR), ("move_neg", "-{o}", ARR)]
# second steps that work on what most first steps give
SECOND = [x for x in ARRAY if x[0] in ("view", "T", "unsqueeze", "squeeze", "flatiter", "iter", "iter_item", "data_slice", "clone", "as_ref", "add_scalar", "shape")] + \
         [("slice1", "{o}.slice(s![0..1])", ARR), ("slice_along1", "{o}.slice_along(Axis(0), 0)", ARR), ("broadcast1", "{o}.broadcast_to(&[&[2usize][..], {o}.shape()].concat())", ARR)] + \
         [x for x in MOVE if x[0] in ("move_view", "move_T", "move_unsqueeze", "move_squeeze")]
TENSOR = [
    ("t_view", "(&{o}).view()", TEN), ("t_reshape", "(&{o}).reshape([12])", TEN), ("t_T", "(&{o}).T()", TEN), ("t_transpose", "(&{o}).transpose(0, 1)", TEN), ("t_squeeze", "(&{o}).squeeze()", TEN),
    ("t_unsqueeze", "(&{o}).unsqueeze(0)", TEN), ("t_ndarray", "{o}.ndarray()", REF), ("t_get_ndarray", "{o}.get_ndarray()", RC), ("t_detach", "{o}.detach()", ARR),
    ("t_ndarray_view", "{o}.ndarray().view()", ARR), ("t_ndarray_slice", "{o}.ndarray().slice(s![1])", ARR), ("t_ndarray_flatiter", "{o}.ndarray().flatiter()", FLAT),
    ("t_ndarray_iter", "{o}.ndarray().iter()", ND), ("t_ndarray_data", "{o}.ndarray().data_slice()", SLICE), ("t_mul", "&{o} * 2.0", TEN), ("t_add", "&{o} + &{o}", TEN), ("t_neg", "-(&{o})", TEN),
    ("t_matmul", "{o}.matmul(&(&{o}).T())", TEN), ("t_shape", "{o}.shape()", "h.iter().map(|&x| x as f64).collect::<Vec<f64>>()"), 
    ("t_into_of_view", "(&{o}).view().into_ndarray()", ARR), ("t_into_of_reshape", "(&{o}).reshape([2, 6]).into_ndarray()", ARR), ("t_rc_of_view", "(&{o}).view().get_ndarray()", RC), ("t_rc_of_T", "(&{o}).T().get_ndarray()", RC),
    ("t_detach_of_T", "(&{o}).T().detach()", ARR), ("t_into_of_T", "(&{o}).T().into_ndarray()", ARR), ("t_rc_slice", "{o}.get_ndarray().slice(s![1])", ARR),
]
GRAD = [
    ("g_gradient", "{o}.gradient().unwrap()", ARR), ("g_gradient_slice", "{o}.gradient().unwrap().slice(s![1])", ARR), ("g_gradient_T", "{o}.gradient().unwrap().T()", ARR),
    ("g_gradient_iter", "{o}.gradient().unwrap().flatiter()", FLAT), ("g_mul", "&{o} * &{o}", GRAPH), ("g_mul_scalar", "&{o} * 3.0", GRAPH), ("g_div", "&{o} / &{o}", GRAPH), ("g_neg", "-(&{o})", GRAPH),
    ("g_view", "(&{o}).view()", GRAPH), ("g_reshape", "(&{o}).reshape([12])", GRAPH), ("g_T", "(&{o}).T()", GRAPH), ("g_matmul", "{o}.matmul(&(&{o}).T())", GRAPH), ("g_bmm", "(&{o}).unsqueeze(0).matmul(&(&{o}).T().unsqueeze(0))", GRAPH), ("g_sub", "&{o} - &{o}", GRAPH),
    ("g_chain", "((&{o} * 2.0) + &{o}).reshape([2, 6]).T()", GRAPH), ("g_detach", "{o}.detach()", ARR), ("g_get_ndarray", "{o}.get_ndarray()", RC),
]
MOVET = [("t_move_view", "{o}.view()", TEN), ("t_move_reshape", "{o}.reshape([4, 3])", TEN), ("t_move_T", "{o}.T()", TEN), ("t_move_into", "{o}.into_ndarray()", ARR), ("t_move_squeeze", "{o}.squeeze()", TEN), ("t_move_add", "{o} + 1.0", TEN)]

# how the owner ends; %(d)s the handle, %(m)s a maker, %(n)s another, %(u)s the use
ENDS = {
    "control": "let o = %(m)s(); let h = %(d:o)s; let s = scribble(); let got = %(u)s; drop(s);",
    "block": "let h; { let o = %(m)s(); h = %(d:o)s; } let s = scribble(); let got = %(u)s;",
    "drop": "let o = %(m)s(); let h = %(d:o)s; drop(o); let s = scribble(); let got = %(u)s;",
    "assign": "let mut o = %(m)s(); let h = %(d:o)s; o = %(n)s(); let s = scribble(); let got = %(u)s; drop(o);",
    "replace": "let mut o = %(m)s(); let h = %(d:o)s; drop(std::mem::replace(&mut o, %(n)s())); let s = scribble(); let got = %(u)s; drop(o);",
    "closure": "let f = || { let o = %(m)s(); %(d:o)s }; let h = f(); let s = scribble(); let got = %(u)s;",
    "option": "let mut o = Some(%(m)s()); let h = %(d:(*o.as_ref().unwrap()))s; o = None; let s = scribble(); let got = %(u)s; drop(o);",
    "take": "let mut o = Some(%(m)s()); let h = %(d:(*o.as_ref().unwrap()))s; drop(o.take()); let s = scribble(); let got = %(u)s;",
    "vec": "let mut o = vec![%(m)s(), %(n)s()]; let h = %(d:o[0])s; o.clear(); let s = scribble(); let got = %(u)s;",
    "vec_swap": "let mut o = vec![%(m)s(), %(n)s()]; let h = %(d:o[0])s; drop(o.swap_remove(0)); let s = scribble(); let got = %(u)s;",
    "temporary": "let h = %(d:%(m)s())s; let s = scribble(); let got = %(u)s;",
    "boxed": "let o = Box::new(%(m)s()); let h = %(d:(*o))s; drop(o); let s = scribble(); let got = %(u)s;",
    "rc": "let o = Rc::new(%(m)s()); let h = %(d:(*o))s; drop(o); let s = scribble(); let got = %(u)s;",
    "refcell": "let o = RefCell::new(%(m)s()); let h = %(d:(*o.borrow()))s; drop(o.replace(%(n)s())); let s = scribble(); let got = %(u)s;",
    "consumed": "let o = %(m)s(); let h = %(d:o)s; drop(o + 1.0); let s = scribble(); let got = %(u)s;",
    "forgotten_box": "let o = %(m)s(); let h = %(d:o)s; let f: Box<dyn FnOnce() -> Vec<f64>> = Box::new(move || %(u)s); drop(o); let s = scribble(); let got = f();",
    "struct": "struct K<H> { h: H } let k; { let o = %(m)s(); k = K { h: %(d:o)s }; } let s = scribble(); let h = k.h; let got = %(u)s;",
    "collected": "let mut k = Vec::new(); for _ in 0..2 { let o = %(m)s(); k.push(%(d:o)s); } let s = scribble(); let h = k.pop().unwrap(); let got = %(u)s;",
    "moved": "let o = %(m)s(); let h = %(d:o)s; let p = vec![o]; drop(p); let s = scribble(); let got = %(u)s;",
}
# the gradient is changed while a handle on it is kept; what the handle then reads is not judged, only that it reads live memory
ENDS_GRADIENT = {
    "zeroed": "let o = %(m)s(); let h = %(d:o)s; o.zero_gradient(); let s = scribble(); let got = %(u)s;",
    "backward_again": "let o = %(m)s(); let h = %(d:o)s; (&o * &o).backward(); let s = scribble(); let got = %(u)s;",
    "backward_scaled": "let o = %(m)s(); let h = %(d:o)s; (&o * 2.0).backward(); (&o).T().backward(); (&o).reshape([12]).backward(); let s = scribble(); let got = %(u)s;",
    "backward_seeded": "let o = %(m)s(); let h = %(d:o)s; (-(&o)).backward_with(NdArray::<f64>::ones([3, 4])); o.zero_gradient(); (&o * 1.5).backward(); let s = scribble(); let got = %(u)s;",
    "zeroed_and_dropped": "let h; { let o = %(m)s(); h = %(d:o)s; o.zero_gradient(); (&o * &o).backward(); } let s = scribble(); let got = %(u)s;",
    "kept_by_graph": "let o = %(m)s(); let g = &o * &o; let h = %(d:o)s; drop(o); g.backward(); drop(g); let s = scribble(); let got = %(u)s;",
}
# two steps: what ends is the owner or the handle in the middle
ENDS2 = {
    "control2": "let o = %(m)s(); let a = %(d:o)s; let h = %(e:a)s; let s = scribble(); let got = %(u)s;",
    "root": "let o = %(m)s(); let a = %(d:o)s; let h = %(e:a)s; drop(o); let s = scribble(); let got = %(u)s;",
    "root_block": "let h; { let o = %(m)s(); let a = %(d:o)s; h = %(e:a)s; } let s = scribble(); let got = %(u)s;",
    "middle": "let o = %(m)s(); let a = %(d:o)s; let h = %(e:a)s; drop(a); let s = scribble(); let got = %(u)s;",
    "middle_block": "let o = %(m)s(); let h; { let a = %(d:o)s; h = %(e:a)s; } let s = scribble(); let got = %(u)s;",
    "middle_temporary": "let o = %(m)s(); let h = %(e:(%(d:o)s))s; let s = scribble(); let got = %(u)s;",
    "root_temporary": "let o = %(m)s(); let h = %(e:(%(d:o)s))s; drop(o); let s = scribble(); let got = %(u)s;",
    "root_assign": "let mut o = %(m)s(); let a = %(d:o)s; let h = %(e:a)s; o = %(n)s(); let s = scribble(); let got = %(u)s; drop(o);",
}
BORROW = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0597", "E0716", "E0713", "E0373", "E0521", "E0310", "E0382", "E0712", "E0700", "E0621", "E0759", "E0626"}


def fill(t, m, n, d, e, u):
    t = t.replace("%(m)s", m).replace("%(n)s", n)
    # innermost first
    for _ in range(4):
        t = re.sub(r"%\(d:((?:[^%()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*)\)s", lambda x: d.replace("{o}", x.group(1)), t)
        t = re.sub(r"%\(e:((?:[^%()]|\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))*)\)s", lambda x: (e or "").replace("{o}", x.group(1)), t)
    return t.replace("%(u)s", u)


def programs(tier, seed):
    """(name, control name, body) for every program."""
    out = []
    for family, m, n in ((ARRAY, "mk", "mk2"), (TENSOR, "mkt", "mkt2"), (GRAD, "mkg", "mkg2"), (MOVE, "mk", "mk2"), (MOVET, "mkt", "mkt2")):
        for name, d, u in family:
            moves = name.startswith(("move_", "t_move_"))
            for end, t in ENDS.items():
                if moves and end not in ("control", "block", "closure", "temporary", "struct", "collected"):
                    continue
                want = "let want = { let o = %s(); let h = %s; %s };" % (m, d.replace("{o}", "o"), u)
                out.append((name + "/" + end, name + "/control", want + " " + fill(t, m, n, d, None, u)))
            for end, t in ENDS_GRADIENT.items() if family is GRAD else ():
                out.append((name + "/" + end, name + "/control", fill(t, m, n, d, None, u) + " let want = got.clone();"))
    pairs = [(a, b) for a in ARRAY + MOVE if a[2] == ARR for b in SECOND]
    if tier == "quick":
        r = random.Random(seed)
        pairs = r.sample(pairs, min(len(pairs), 300))
    for (n1, d, _), (n2, e, u) in pairs:
        for end, t in ENDS2.items():
            if n1.startswith("move_") and end in ("root", "root_temporary", "root_assign"):
                continue
            want = "let want = { let o = mk(); let a = %s; let h = %s; %s };" % (d.replace("{o}", "o"), e.replace("{o}", "a"), u)
            out.append(("%s+%s/%s" % (n1, n2, end), "%s+%s/control2" % (n1, n2), want + " " + fill(t, "mk", "mk2", d, e, u)))
    return out


def source(progs, idx):
    lines = [PRELUDE]
    for i in idx:
        lines.append("fn p%d() { %s report(%d, want, got); }" % (i, progs[i][2], i))
    lines.append("fn main() { match std::env::args().nth(1).unwrap().parse::<usize>().unwrap() {")
    lines += ["    %d => p%d()," % (i, i) for i in idx]
    lines.append("    _ => std::process::exit(3) } }")
    return "\n".join(lines) + "\n"


def errors(cargo, env, cwd, text, verb):
    with open(os.path.join(cwd, "src", "main.rs"), "w") as f:
        f.write(text)
    p = subprocess.run(cargo + [verb, "--offline", "--target", "x86_64-unknown-linux-gnu", "--message-format=json"], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    lines = text.split("\n")
    bad = {}
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        if m["target"]["name"] != "escape":
            return p.returncode, None, m["message"].get("rendered", "")
        code = (m["message"].get("code") or {}).get("code")
        for s in m["message"]["spans"]:
            if s["is_primary"] and s["file_name"].endswith("main.rs"):
                w = re.match(r"fn p(\d+)\(", lines[s["line_start"] - 1])
                if w:
                    bad.setdefault(int(w.group(1)), []).append((code, m["message"]["message"]))
    return p.returncode, bad, p.stderr[-3000:]


def run(r, tdir, cargo, env, jobs, error, miri=False):
    progs = programs(r.tier, r.seed)
    cwd = os.path.join(tdir, "crate")
    os.makedirs(os.path.join(cwd, "src"), exist_ok=True)
    with open(os.path.join(cwd, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "escape"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nredstone-ml = { path = "/repo" }\n\n[profile.dev]\nopt-level = 0\ndebug = 0\n')
    if not os.path.exists(os.path.join(cwd, "Cargo.lock")) and os.path.exists("/repo/Cargo.lock"):
        with open("/repo/Cargo.lock") as f, open(os.path.join(cwd, "Cargo.lock"), "w") as g:
            g.write(f.read())
    left = list(range(len(progs)))
    rejected, other = {}, {}
    for round_ in range(12):
        rc, bad, text = errors(cargo, env, cwd, source(progs, left), "build")
        if bad is None:
            raise error("the crate does not build:\n" + text[-3000:])
        if rc == 0:
            break
        if not bad:
            raise error("the escape programs do not build for a reason outside them:\n" + text)
        for i, errs in bad.items():
            odd = [e for e in errs if e[0] not in BORROW and not (e[0] is None and ("lifetime" in e[1] or "borrow" in e[1]))]
            (other if odd else rejected)[i] = odd or errs
        left = [i for i in left if i not in bad]
    else:
        raise error("the escape programs keep failing to build")
    exe = os.path.join(tdir, "x86_64-unknown-linux-gnu", "debug", "escape")

    def one(i):
        try:
            return i, subprocess.run([exe, str(i)], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
        except subprocess.TimeoutExpired:
            return i, None
    with ThreadPoolExecutor(jobs) as pool:
        results = dict(pool.map(one, left))
    ok = {i for i, p in results.items() if p is not None and p.returncode == 0 and p.stdout.strip() == "OK %d" % i}
    names = {p[0]: i for i, p in enumerate(progs)}
    # what an accepted program did
    ran = 0
    panicked = 0
    for i in left:
        name, control, body = progs[i]
        p = results[i]
        if i in ok:
            ran += 1
            continue
        if p is None:
            r.notes.append("program %s did not end" % name)
            r.inconclusive += 1
            continue
        if p.returncode == 101 and "panicked" in p.stderr:
            # a refusal; not a use of freed storage
            panicked += 1
            continue
        msg = "an accepted program uses storage after its end: %s: %s" % (name, p.stdout.strip() if p.stdout.startswith("WRONG") else (
            re.search(r"ERROR: AddressSanitizer: [^\n]*", p.stderr) or re.search(r"(?s).{0,300}$", p.stderr)).group(0))
        r.violations.append({"property": r.pid, "variant": "escape", "group": r.pid, "case": i, "seed": r.seed, "extra": [], "msg": msg, "desc": body, "bin": "escape", "program": PRELUDE + "fn main() { %s report(0, want, got); }" % body})
    sound = 0
    blind = []
    for i in rejected:
        c = names[progs[i][1]]
        if c in ok:
            sound += 1
        elif c == i or c in rejected or c in other:
            blind.append(progs[i][0])
    r.evaluations += ran + sound
    for i in list(ok) + list(rejected):
        r.sigs.add(progs[i][0])
    ev = r.events
    ev["programs_rejected_whose_control_compiles"] = sound
    ev["programs_accepted_and_run"] = ran
    ev["programs_accepted_that_refused_at_run_time"] = panicked
    ev["programs_not_expressible"] = len(other)
    ev["programs_rejected_with_their_control"] = len(blind)
    for i in sorted(rejected)[:4] + sorted(ok)[-4:]:
        r.samples.append("%s: %s" % (progs[i][0], rejected[i][0][1] if i in rejected else "accepted, right values"))
    if other:
        r.notes.append("not expressible: " + ", ".join(sorted(set(progs[i][0].split("/")[0] for i in other)))[:1500])
        r.debug_other = {progs[i][0]: other[i] for i in other}
        if os.environ.get("ESCAPE_DEBUG"):
            print(json.dumps(r.debug_other, indent=0))
    r.stages.append({"variant": "escape (asan)", "programs": len(progs)})
