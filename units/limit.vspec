@@include prelude.vinc
verus! {
@@include externs.vinc
@@set limit on
@@include time.vinc
@@include limit.vinc
}
fn main() {}
