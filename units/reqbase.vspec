@@include prelude.vinc
verus! {
@@include externs.vinc
@@set request on
@@set body on
@@set response on
@@set header on
@@include world.vinc
}
fn main() {}
