@@include prelude.vinc
verus! {
@@include externs.vinc
@@set context on
@@include world.vinc
@@include requester.vinc
@@include form.vinc
@@include acc.vinc
@@include tcp.vinc
@@include context.vinc
}
fn main() {}
