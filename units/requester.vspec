@@include prelude.vinc
verus! {
@@include externs.vinc
@@set response on
@@set rq_resp on
@@include world.vinc
@@include requester.vinc
}
fn main() {}
