@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rq_parse on
@@include world.vinc
@@include route.vinc
@@include node.vinc
@@include router.vinc
@@include requester.vinc
@@include form.vinc
@@include acc.vinc
@@include lock.vinc
@@include parse.vinc
}
fn main() {}
