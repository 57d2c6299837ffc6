@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rq_head on
@@include world.vinc
@@include requester.vinc
}
fn main() {}
