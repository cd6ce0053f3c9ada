//@ include prelude.vrs
//@ include discrete_body.vrs
} // verus!
fn main() {}
