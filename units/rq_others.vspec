@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rq_others on
@@include world.vinc
@@include requester.vinc
}
fn main() {}
