@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rq_acc on
@@include world.vinc
@@include requester.vinc
}
fn main() {}
