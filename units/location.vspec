@@include prelude.vinc
verus! {
@@include osv.vinc
@@set values extern
@@include values.vinc
@@include firsts.vinc
@@include location.vinc
@@include location_lem.vinc
@@include location_thm.vinc
}
fn main() {}
