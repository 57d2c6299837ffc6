@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rs_rest on
@@include world.vinc
@@include requester.vinc
@@include responser.vinc
}
fn main() {}
