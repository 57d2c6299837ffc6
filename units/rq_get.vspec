@@include prelude.vinc
verus! {
@@include externs.vinc
@@set acc on
@@include world.vinc
@@include requester.vinc
@@include acc.vinc
}
fn main() {}
