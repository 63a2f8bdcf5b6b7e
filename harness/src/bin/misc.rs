#[path = "../groups/misc.rs"]
mod misc;
fn main() { rsv::run::main_with(&[("C16", misc::case_c16), ("C17", misc::case_c17), ("C17sample", misc::case_c17sample), ("C17big", misc::case_c17big), ("C18", misc::case_c18)]); }
