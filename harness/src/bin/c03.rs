#[path = "../groups/c03.rs"]
mod c03;
fn main() { rsv::run::main_with(&[("C03", c03::case_c03), ("C06", c03::case_c06)]); }
