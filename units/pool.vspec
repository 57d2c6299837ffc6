@@include prelude.vinc
verus! {
@@include externs.vinc
@@set pool on
@@include pool.vinc
@@include pool_thm.vinc
}
fn main() {}
