@@include prelude.vinc
verus! {
@@include externs.vinc
@@set dispatch on
@@include world.vinc
@@include route.vinc
@@include node.vinc
@@include router.vinc
@@include requester.vinc
@@include form.vinc
@@include acc.vinc
@@include tcp.vinc
@@include context.vinc
@@include lock.vinc
@@include parse.vinc
@@include dispatch.vinc
@@include conn.vinc
@@include listen.vinc
}
fn main() {}
