"""A standard library whose std::arch::aarch64 exists on this machine.

The Arm vector kernels import std::arch::aarch64.  This copies the toolchain's library sources and adds that
module, with each instruction the kernels may use written out in Rust after the Arm reference (FADDV
pairwise, FMAX/FMIN propagating NaN and ordering -0 < +0, FMLA fused), so that the kernels run natively here,
under AddressSanitizer, with cargo's -Zbuild-std."""
import os
import shutil
import subprocess

HEAD = """
#[doc(hidden)]
#[stable(feature = "simd_arch", since = "1.27.0")]
pub mod aarch64 {
    #![allow(non_camel_case_types, missing_docs, missing_debug_implementations)]
    static RSV: crate::sync::atomic::AtomicU64 = crate::sync::atomic::AtomicU64::new(0);
    /// how many vectors were loaded, set and summed
    #[stable(feature = "simd_arch", since = "1.27.0")] pub fn rsv_calls() -> u64 { RSV.load(crate::sync::atomic::Ordering::Relaxed) }
    #[inline] fn hit() { RSV.fetch_add(1, crate::sync::atomic::Ordering::Relaxed); }
"""
MINMAX = "if x != x || y != y {{ {t}::NAN }} else if x == y {{ if x.is_sign_negative() == {neg} {{ x }} else {{ y }} }} else if x {op} y {{ x }} else {{ y }}"
S = '    #[inline] #[stable(feature = "simd_arch", since = "1.27.0")] pub '


def module():
    out = [HEAD]
    for t, n, q, h in (("f32", 4, "float32x4_t", "float32x2_t"), ("f64", 2, "float64x2_t", "float64x1_t")):
        for ty, k in ((q, n), (h, n // 2)):
            out.append('    #[derive(Clone, Copy)] #[repr(C)] #[stable(feature = "simd_arch", since = "1.27.0")] pub struct %s([%s; %d]);' % (ty, t, k))
        for ty, k, x in ((q, n, "q"), (h, n // 2, "")):
            for f, e in (("add", "x + y"), ("sub", "x - y"), ("mul", "x * y"), ("div", "x / y"),
                         ("max", MINMAX.format(t=t, op=">", neg="false")), ("min", MINMAX.format(t=t, op="<", neg="true"))):
                out.append(S + "unsafe fn v%s%s_%s(a: %s, b: %s) -> %s { let mut r = a; let mut i = 0; while i < %d { let (x, y) = (a.0[i], b.0[i]); r.0[i] = %s; i += 1; } r }" % (f, x, t, ty, ty, ty, k, e))
            for f, e in (("neg", "-x"), ("abs", "if x.is_sign_negative() { -x } else { x }")):
                out.append(S + "unsafe fn v%s%s_%s(a: %s) -> %s { let mut r = a; let mut i = 0; while i < %d { let x = a.0[i]; r.0[i] = %s; i += 1; } r }" % (f, x, t, ty, ty, k, e))
            for f, e in (("fma", "p.mul_add(s, x)"), ("fms", "(-p).mul_add(s, x)"), ("mla", "x + p * s"), ("mls", "x - p * s")):
                out.append(S + "unsafe fn v%s%s_%s(a: %s, b: %s, c: %s) -> %s { let mut r = a; let mut i = 0; while i < %d { let (x, p, s) = (a.0[i], b.0[i], c.0[i]); r.0[i] = %s; i += 1; } r }" % (f, x, t, ty, ty, ty, ty, k, e))
            out.append(S + "unsafe fn vld1%s_%s(p: *const %s) -> %s { hit(); %s(unsafe { crate::ptr::read_unaligned(p.cast()) }) }" % (x, t, t, ty, ty))
            out.append(S + "unsafe fn vst1%s_%s(p: *mut %s, a: %s) { unsafe { crate::ptr::write_unaligned(p.cast(), a.0) } }" % (x, t, t, ty))
            for f in ("dup", "mov"):
                out.append(S + "unsafe fn v%s%s_n_%s(v: %s) -> %s { %s([v; %d]) }" % (f, x, t, t, ty, ty, k))
            out.append(S + "unsafe fn vset%s_lane_%s<const LANE: i32>(v: %s, a: %s) -> %s { let mut a = a; a.0[LANE as usize] = v; a }" % (x, t, t, ty, ty))
            out.append(S + "unsafe fn vget%s_lane_%s<const LANE: i32>(a: %s) -> %s { a.0[LANE as usize] }" % (x, t, ty, t))
        tree = "(a.0[0] + a.0[1]) + (a.0[2] + a.0[3])" if n == 4 else "a.0[0] + a.0[1]"
        out.append(S + "unsafe fn vaddvq_%s(a: %s) -> %s { hit(); %s }" % (t, q, t, tree))
        for f, op, neg in (("max", ">", "false"), ("min", "<", "true")):
            out.append(S + "unsafe fn v%svq_%s(a: %s) -> %s { hit(); let mut r = a.0[0]; let mut i = 1; while i < %d { let (x, y) = (r, a.0[i]); r = %s; i += 1; } r }" % (f, t, q, t, n, MINMAX.format(t=t, op=op, neg=neg)))
        out.append(S + "unsafe fn vget_low_%s(a: %s) -> %s { %s(unsafe { crate::ptr::read(a.0.as_ptr().cast()) }) }" % (t, q, h, h))
        out.append(S + "unsafe fn vget_high_%s(a: %s) -> %s { %s(unsafe { crate::ptr::read(a.0.as_ptr().add(%d).cast()) }) }" % (t, q, h, h, n // 2))
        out.append(S + "unsafe fn vcombine_%s(a: %s, b: %s) -> %s { let mut r = [0.0; %d]; let mut i = 0; while i < %d { r[i] = a.0[i]; r[i + %d] = b.0[i]; i += 1; } %s(r) }" % (t, h, h, q, n, n // 2, n // 2, q))
    out.append(S + "unsafe fn vaddv_f32(a: float32x2_t) -> f32 { a.0[0] + a.0[1] }")
    out.append("}\n")
    return "\n".join(out)


def make(tdir, toolchain, env):
    """Returns the root of the patched sources."""
    root = os.path.join(tdir, "rust-src")
    lib = os.path.join(root, "library")
    done = os.path.join(tdir, "rust-src.done")
    text = module()
    if not (os.path.exists(done) and open(done).read() == text):
        sysroot = subprocess.run(["rustc", "+" + toolchain, "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True, env=env).stdout.strip()
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        shutil.copytree(os.path.join(sysroot, "lib/rustlib/src/rust/library"), lib, symlinks=True)
        p = os.path.join(lib, "std/src/lib.rs")
        s = open(p).read()
        mark = "    pub use core::arch::*;\n"
        if s.count(mark) != 1:
            raise RuntimeError("the library sources are not what this tool expects")
        s = s.replace(mark, mark + text, 1)
        open(p, "w").write(s)
        open(done, "w").write(text)
    return root
