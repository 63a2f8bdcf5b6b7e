//! C23: the accelerated configurations. The workloads of the other groups, with their own oracles, run in a
//! build whose kernels call stand-ins for the vendor libraries.
use rsv::run::*;

const KERNELS: &[(&str, CaseFn)] = &[
    ("C04", crate::write::case_c04), ("C07", crate::elem::case_c07), ("C07", crate::elem::case_c07), ("C08", crate::elem::case_c08),
    ("C09", crate::reduce::case_c09), ("C09", crate::reduce::case_c09), ("C10", crate::reduce::case_c10),
    ("C11", crate::linalg::case_c11), ("C11", crate::linalg::case_c11), ("C11", crate::linalg::case_c11), ("C12", crate::linalg::case_c12), ("C13", crate::linalg::case_c13),
    ("C05", crate::write::case_c05), ("C19", crate::tensor::case_c19), ("C21", crate::tensor::case_c21),
];

#[cfg(feature = "accel")]
extern "C" { fn rsv_accel_calls(k: i32) -> u64; }
#[cfg(feature = "accel")]
const NAMES: [&str; 19] = ["vadd", "vsub", "vmul", "vdiv", "vsadd", "vsmul", "vsdiv", "svdiv", "vfill", "sve", "maxv", "minv", "maxmgv", "minmgv", "dotpr", "set", "cblas_dot", "cblas_gemv", "cblas_gemm"];

pub fn case_c23(c: &mut Case) -> Res {
    let (name, f) = KERNELS[c.rng.below(KERNELS.len())];
    #[cfg(feature = "accel")]
    let before: Vec<u64> = (0..19).map(|k| unsafe { rsv_accel_calls(k) }).collect();
    #[cfg(neon_simd)]
    let neon = std::arch::aarch64::rsv_calls();
    let r = f(c);
    #[cfg(neon_simd)]
    { let n = std::arch::aarch64::rsv_calls() - neon; if n > 0 { event("vector_instructions", n); event("workloads_with_vector_instructions", 1); } }
    let s = std::mem::take(&mut c.sig);
    c.sig(format!("{name}:{s}"));
    let d = std::mem::take(&mut c.desc);
    c.note(format!("{name}: {d}"));
    #[cfg(feature = "accel")]
    for k in 0..19 {
        let n = unsafe { rsv_accel_calls(k as i32) } - before[k];
        if n > 0 { event(NAMES[k], n); }
    }
    event("accelerated_workloads", 1);
    r
}
