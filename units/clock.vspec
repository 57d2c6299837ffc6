@@include prelude.vinc
verus! {
@@set time extern
@@set clock on
@@include time.vinc
}
fn main() {}
