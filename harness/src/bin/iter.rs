#[path = "../groups/iter.rs"]
mod iter;
fn main() { rsv::run::main_with(&[("C14", iter::case_c14), ("C15", iter::case_c15)]); }
