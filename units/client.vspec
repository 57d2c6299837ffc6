@@include prelude.vinc
verus! {
@@include externs.vinc
@@set client on
@@include world.vinc
@@include requester.vinc
@@include responser.vinc
@@include acc.vinc
@@include tcp.vinc
@@include client.vinc
}
fn main() {}
