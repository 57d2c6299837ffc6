@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rs_head on
@@include world.vinc
@@include requester.vinc
@@include responser.vinc
}
fn main() {}
