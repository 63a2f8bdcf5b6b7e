#[path = "../groups/elem.rs"]
mod elem;
fn main() { rsv::run::main_with(&[("C07", elem::case_c07), ("C08", elem::case_c08)]); }
