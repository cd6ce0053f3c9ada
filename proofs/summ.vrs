//@ include prelude.vrs
//@ include coll.vrs
//@ include summ_body.vrs
} // verus!
fn main() {}
