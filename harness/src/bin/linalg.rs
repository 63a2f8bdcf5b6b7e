#[path = "../groups/linalg.rs"]
mod linalg;
fn main() { rsv::run::main_with(&[("C11", linalg::case_c11), ("C12", linalg::case_c12), ("C13", linalg::case_c13)]); }
