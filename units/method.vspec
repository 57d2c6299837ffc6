@@include prelude.vinc
verus! {
@@include method.vinc
impl Method {
@@fn http/method.rs `Method::is_safe` ret=r
@@spec
    ensures r == (self.0 == Inner::Get || self.0 == Inner::Head || self.0 == Inner::Options || self.0 == Inner::Trace)
@@end
@@fn http/method.rs `Method::is_idempotent` ret=r
@@spec
    ensures r == (self.0 == Inner::Put || self.0 == Inner::Delete)
@@end
@@fn http/method.rs `Method::is_cacheable` ret=r
@@spec
    ensures r == (self.0 == Inner::Get || self.0 == Inner::Head || self.0 == Inner::Post)
@@end
@@fn http/method.rs `AsRef<str> for Method::as_ref` ret=r
@@spec
    ensures r@ == mtok(self.0)
@@end
@@fn http/method.rs `Debug for Method::fmt` ret=r rename=x_fmtD novis
@@spec
    ensures shown(old(f).view(), final(f).view(), old(f).refuses(mtok(self.0)), r, mtok(self.0))
@@end
@@fn http/method.rs `Display for Method::fmt` ret=r rename=x_show novis
@@spec
    ensures shown(old(f).view(), final(f).view(), old(f).refuses(mtok(self.0)), r, mtok(self.0))
@@end
}
impl XEq<Method> for Method {
    open spec fn xeq(&self, o: &Method) -> bool { *self == *o }
    fn x_eq(&self, o: &Method) -> (r: bool) { *self == *o }
    fn x_ne(&self, o: &Method) -> (r: bool) { *self != *o }
}
pub trait MeA { spec fn MeA_s(&self, o: &&Method) -> bool; fn MeA_f(&self, other: &&Method) -> (r: bool) ensures r == self.MeA_s(other); }
impl MeA for Method {
    open spec fn MeA_s(&self, o: &&Method) -> bool { *self == **o }
@@fn http/method.rs `PartialEq<&'aMethod> for Method::eq` ret=r rename=MeA_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait MeB { spec fn MeB_s(&self, o: &Method) -> bool; fn MeB_f(&self, other: &Method) -> (r: bool) ensures r == self.MeB_s(other); }
impl MeB for &Method {
    open spec fn MeB_s(&self, o: &Method) -> bool { **self == *o }
@@fn http/method.rs `PartialEq<Method> for &Method::eq` ret=r rename=MeB_f novis xeq
@@end
}
pub trait MeC { spec fn MeC_s(&self, o: &str) -> bool; fn MeC_f(&self, other: &str) -> (r: bool) ensures r == self.MeC_s(other); }
impl MeC for Method {
    open spec fn MeC_s(&self, o: &str) -> bool { mtok(self.0) == o@ }
@@fn http/method.rs `PartialEq<str> for Method::eq` ret=r rename=MeC_f novis xeq
@@end
}
pub trait MeD { spec fn MeD_s(&self, o: &Method) -> bool; fn MeD_f(&self, other: &Method) -> (r: bool) ensures r == self.MeD_s(other); }
impl MeD for str {
    open spec fn MeD_s(&self, o: &Method) -> bool { self@ == mtok(o.0) }
@@fn http/method.rs `PartialEq<Method> for str::eq` ret=r rename=MeD_f novis xeq
@@end
}
pub trait MeE { spec fn MeE_s(&self, o: &&str) -> bool; fn MeE_f(&self, other: &&str) -> (r: bool) ensures r == self.MeE_s(other); }
impl MeE for Method {
    open spec fn MeE_s(&self, o: &&str) -> bool { mtok(self.0) == o@ }
@@fn http/method.rs `PartialEq<&'astr> for Method::eq` ret=r rename=MeE_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait MeF { spec fn MeF_s(&self, o: &Method) -> bool; fn MeF_f(&self, other: &Method) -> (r: bool) ensures r == self.MeF_s(other); }
impl MeF for &str {
    open spec fn MeF_s(&self, o: &Method) -> bool { self@ == mtok(o.0) }
@@fn http/method.rs `PartialEq<Method> for &str::eq` ret=r rename=MeF_f novis xeq
@@end
}
@@include version.vinc
impl Version {
@@fn http/version.rs `ToString for Version::to_string` ret=r
@@spec
    ensures r@ == vtok(*self)
@@end
@@fn http/version.rs `Debug for Version::fmt` ret=r rename=x_fmtD novis
@@spec
    ensures shown(old(f).view(), final(f).view(), old(f).refuses(vtok(*self)), r, vtok(*self))
@@end
}
impl XEq<Version> for Version {
    open spec fn xeq(&self, o: &Version) -> bool { *self == *o }
    fn x_eq(&self, o: &Version) -> (r: bool) { *self == *o }
    fn x_ne(&self, o: &Version) -> (r: bool) { *self != *o }
}
pub trait VeA { spec fn VeA_s(&self, o: &&Version) -> bool; fn VeA_f(&self, other: &&Version) -> (r: bool) ensures r == self.VeA_s(other); }
impl VeA for Version {
    open spec fn VeA_s(&self, o: &&Version) -> bool { *self == **o }
@@fn http/version.rs `PartialEq<&'aVersion> for Version::eq` ret=r rename=VeA_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait VeB { spec fn VeB_s(&self, o: &Version) -> bool; fn VeB_f(&self, other: &Version) -> (r: bool) ensures r == self.VeB_s(other); }
impl VeB for &Version {
    open spec fn VeB_s(&self, o: &Version) -> bool { **self == *o }
@@fn http/version.rs `PartialEq<Version> for &Version::eq` ret=r rename=VeB_f novis xeq
@@end
}
pub trait VeC { spec fn VeC_s(&self, o: &str) -> bool; fn VeC_f(&self, other: &str) -> (r: bool) ensures r == self.VeC_s(other); }
impl VeC for Version {
    open spec fn VeC_s(&self, o: &str) -> bool { vtok(*self) == o@ }
@@fn http/version.rs `PartialEq<str> for Version::eq` ret=r rename=VeC_f novis xeq
@@end
}
pub trait VeD { spec fn VeD_s(&self, o: &Version) -> bool; fn VeD_f(&self, other: &Version) -> (r: bool) ensures r == self.VeD_s(other); }
impl VeD for str {
    open spec fn VeD_s(&self, o: &Version) -> bool { self@ == vtok(*o) }
@@fn http/version.rs `PartialEq<Version> for str::eq` ret=r rename=VeD_f novis xeq
@@end
}
pub trait VeE { spec fn VeE_s(&self, o: &&str) -> bool; fn VeE_f(&self, other: &&str) -> (r: bool) ensures r == self.VeE_s(other); }
impl VeE for Version {
    open spec fn VeE_s(&self, o: &&str) -> bool { vtok(*self) == o@ }
@@fn http/version.rs `PartialEq<&'astr> for Version::eq` ret=r rename=VeE_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait VeF { spec fn VeF_s(&self, o: &Version) -> bool; fn VeF_f(&self, other: &Version) -> (r: bool) ensures r == self.VeF_s(other); }
impl VeF for &str {
    open spec fn VeF_s(&self, o: &Version) -> bool { self@ == vtok(*o) }
@@fn http/version.rs `PartialEq<Version> for &str::eq` ret=r rename=VeF_f novis xeq
@@end
}

/// every method and version is read back from its own token, in both readings
proof fn theorem_roundtrip(m: Method)
    ensures meth_of(mtok(m.0)) == Some(m), meth_of_b(mbytes(m.0)) == Some(m),
        Method::OPTIONS.0 == Inner::Options, Method::GET.0 == Inner::Get, Method::POST.0 == Inner::Post, Method::PUT.0 == Inner::Put, Method::DELETE.0 == Inner::Delete,
        Method::HEAD.0 == Inner::Head, Method::TRACE.0 == Inner::Trace, Method::CONNECT.0 == Inner::Connect, Method::PATCH.0 == Inner::Patch, Method::LINK.0 == Inner::Link,
        Method::UNLINK.0 == Inner::UnLink, Method::PRI.0 == Inner::Pri,
        Version::HTTP_10.major == 1, Version::HTTP_10.minor == 0, Version::HTTP_11.major == 1, Version::HTTP_11.minor == 1,
        ver_of_b(vbytes(Version::HTTP_10)) == Some(Version::HTTP_10), ver_of_b(vbytes(Version::HTTP_11)) == Some(Version::HTTP_11),
        ver_of(vtok(Version::HTTP_10)) == Some(Version::HTTP_10), ver_of(vtok(Version::HTTP_11)) == Some(Version::HTTP_11),
{ lemma_ver_tok(); lemma_meth_tok(); reveal_strlit("OPTIONS"); reveal_strlit("GET"); reveal_strlit("POST"); reveal_strlit("PUT"); reveal_strlit("DELETE"); reveal_strlit("HEAD"); reveal_strlit("TRACE"); reveal_strlit("CONNECT"); reveal_strlit("PATCH"); reveal_strlit("LINK"); reveal_strlit("UNLINK"); reveal_strlit("PRI"); }
} // verus!
fn main() {}
