//@ include prelude.vrs
//@ gsubst PI => f32_PI()
//@ include gauss_body.vrs
} // verus
fn main() {}
