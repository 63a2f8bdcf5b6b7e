#[path = "../groups/reduce.rs"]
mod reduce;
fn main() { rsv::run::main_with(&[("C09", reduce::case_c09), ("C10", reduce::case_c10)]); }
