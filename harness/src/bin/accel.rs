#[path = "../groups/write.rs"] mod write;
#[path = "../groups/elem.rs"] mod elem;
#[path = "../groups/reduce.rs"] mod reduce;
#[path = "../groups/linalg.rs"] mod linalg;
#[path = "../groups/tensor.rs"] mod tensor;
#[path = "../groups/accel.rs"] mod accel;
fn main() { rsv::run::main_with(&[("C23", accel::case_c23)]) }
