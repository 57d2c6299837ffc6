@@include prelude.vinc
verus! {
@@include io.vinc
@@set values extern
@@set codec extern
@@set userinfo extern
@@set location extern
@@include values.vinc
@@include osv.vinc
@@include firsts.vinc
@@include location.vinc
@@include codec.vinc
@@include userinfo.vinc
@@include scheme.vinc
@@include addr.vinc
@@include url.vinc
@@include url_lem.vinc
}
fn main() {}
