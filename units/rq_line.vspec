@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rq_line on
@@include world.vinc
@@include requester.vinc
}
fn main() {}
