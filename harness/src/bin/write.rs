#[path = "../groups/write.rs"]
mod write;
fn main() { rsv::run::main_with(&[("C04", write::case_c04), ("C05", write::case_c05)]); }
