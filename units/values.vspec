@@include prelude.vinc
verus! {
@@include values.vinc
@@set content_type extern
@@include content_type.vinc
@@include files.vinc
}
fn main() {}
