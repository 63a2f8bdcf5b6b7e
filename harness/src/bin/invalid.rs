#[path = "../groups/invalid.rs"]
mod invalid;
fn main() { rsv::run::main_with(&[("C22", invalid::case_c22)]) }
