#[path = "../groups/c03.rs"] mod c03;
#[path = "../groups/write.rs"] mod write;
#[path = "../groups/elem.rs"] mod elem;
#[path = "../groups/reduce.rs"] mod reduce;
#[path = "../groups/linalg.rs"] mod linalg;
#[path = "../groups/iter.rs"] mod iter;
#[path = "../groups/misc.rs"] mod misc;
#[path = "../groups/tensor.rs"] mod tensor;
#[path = "../groups/invalid.rs"] mod invalid;
#[path = "../groups/mem.rs"] mod mem;
fn main() {
    let mut g: Vec<(&str, rsv::run::CaseFn)> = vec![("C01", mem::case_c01), ("C02", mem::case_c02)];
    g.extend_from_slice(mem::SUBS);
    rsv::run::main_with(&g)
}
