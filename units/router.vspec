@@include prelude.vinc
verus! {
@@include externs.vinc
@@set router on
@@include world.vinc
@@include route.vinc
@@include router.vinc
}
fn main() {}
