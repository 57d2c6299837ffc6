@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rs_write on
@@include world.vinc
@@include location_lem.vinc
@@include location_thm.vinc
@@include requester.vinc
@@include responser.vinc
@@include responser_thm.vinc
}
fn main() {}
