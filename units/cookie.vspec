@@include prelude.vinc
verus! {
@@include externs.vinc
@@set cookie on
@@set setcookie on
@@set header on
@@include world.vinc
@@include cookie_lem.vinc
/// `#[derive(PartialEq)]` on Cookie compares every field; the derive itself is checked to be there
@@derives http/header/cookie.rs Cookie PartialEq
impl XEq<Cookie> for Cookie {
    uninterp spec fn xeq(&self, o: &Cookie) -> bool;
    #[verifier::external_body] fn x_eq(&self, o: &Cookie) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_ne(&self, o: &Cookie) -> (r: bool) { unimplemented!() }
}
pub trait CkA { spec fn CkA_s(&self, o: &&Cookie) -> bool; fn CkA_f(&self, other: &&Cookie) -> (r: bool) ensures r == self.CkA_s(other); }
impl CkA for Cookie {
    open spec fn CkA_s(&self, o: &&Cookie) -> bool { self.xeq(*o) }
@@fn http/header/cookie.rs `PartialEq<&'aCookie> for Cookie::eq` ret=r rename=CkA_f novis xeq $cookie
@@sub &&'a => &&
@@end
}
pub trait CkB { spec fn CkB_s(&self, o: &Cookie) -> bool; fn CkB_f(&self, other: &Cookie) -> (r: bool) ensures r == self.CkB_s(other); }
impl CkB for &Cookie {
    open spec fn CkB_s(&self, o: &Cookie) -> bool { (**self).xeq(o) }
@@fn http/header/cookie.rs `PartialEq<Cookie> for &Cookie::eq` ret=r rename=CkB_f novis xeq $cookie
@@end
}
}
fn main() {}
