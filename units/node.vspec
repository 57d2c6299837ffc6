@@include prelude.vinc
verus! {
@@include externs.vinc
@@include world.vinc
@@include route.vinc
@@include route_lem.vinc
@@set node on
@@include node.vinc
@@include route_thm.vinc
}
fn main() {}
