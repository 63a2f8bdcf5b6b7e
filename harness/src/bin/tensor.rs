#[path = "../groups/tensor.rs"]
mod tensor;
fn main() { rsv::run::main_with(&[("C19", tensor::case_c19), ("C20", tensor::case_c20), ("C21", tensor::case_c21)]); }
