@@include prelude.vinc
verus! {
@@include externs.vinc
@@set rq_form on
@@include world.vinc
@@include requester.vinc
@@include form.vinc
@@include form_thm.vinc
}
fn main() {}
