@@include prelude.vinc
verus! {
@@include externs.vinc
@@set response on
@@set body on
@@set compress on
@@include world.vinc
}
fn main() {}
