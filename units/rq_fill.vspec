@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rq_fill on
@@include world.vinc
@@include requester.vinc
}
fn main() {}
