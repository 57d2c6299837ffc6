@@include prelude.vinc
verus! {
proof fn lemma_multi(s: Seq<char>)
    ensures
        encode_utf8(multi()).len() == 30, multi().len() == 30,
        starts(s, multi()) <==> encode_utf8(s).len() >= 30 && encode_utf8(s).take(30) == encode_utf8(multi()),
        starts(s, multi()) ==> encode_utf8(s).skip(30) == encode_utf8(s.skip(30)) && valid_utf8(encode_utf8(s).take(30)) && (s.len() > 30 <==> encode_utf8(s).len() > 30),
        forall|a: Seq<char>, b: Seq<char>| #![trigger encode_utf8(a), encode_utf8(b)] encode_utf8(a) == encode_utf8(b) <==> a == b,
{
    reveal_strlit("multipart/form-data; boundary=");
    let bytes = seq![109u8, 117u8, 108u8, 116u8, 105u8, 112u8, 97u8, 114u8, 116u8, 47u8, 102u8, 111u8, 114u8, 109u8, 45u8, 100u8, 97u8, 116u8, 97u8, 59u8, 32u8, 98u8, 111u8, 117u8, 110u8, 100u8, 97u8, 114u8, 121u8, 61u8];
    lem::lemma_ascii(multi(), bytes);
    assert forall|a: Seq<char>, b: Seq<char>| #![trigger encode_utf8(a), encode_utf8(b)] encode_utf8(a) == encode_utf8(b) <==> a == b by { lem::lemma_enc_inj(a, b); }
    if starts(s, multi()) {
        let t = s.skip(30);
        assert(s =~= multi() + t);
        encode_utf8_concat(multi(), t);
        assert(encode_utf8(s).take(30) =~= encode_utf8(multi()));
        assert(encode_utf8(s).skip(30) =~= encode_utf8(t));
        encode_utf8_valid_utf8(multi());
        if t.len() == 0 { lem::lemma_ascii(t, Seq::<u8>::empty()); }
        if encode_utf8(t).len() == 0 { lem::lemma_ascii(Seq::<char>::empty(), Seq::<u8>::empty()); assert(encode_utf8(t) =~= Seq::<u8>::empty()); }
    } else if encode_utf8(s).len() >= 30 && encode_utf8(s).take(30) == encode_utf8(multi()) {
        encode_utf8_valid_utf8(s); encode_utf8_valid_utf8(multi());
        let e = encode_utf8(s);
        assert forall|i: int| 0 <= i < 30 implies e[i] < 128 by { assert(e[i] == e.take(30)[i]); assert(e.take(30) == bytes); assert(bytes[i] < 128); }
        lem::lemma_boundary(e, 30);
        valid_utf8_split(e, 30);
        decode_utf8_split(e, 30);
        encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(multi());
        assert(e.subrange(0, 30) =~= e.take(30));
        assert(s =~= multi() + decode_utf8(e.subrange(30, e.len() as int)));
        assert(s.subrange(0, 30) =~= multi());
    }
}
@@include content_type.vinc
impl ContentType {
@@method to_string x_to_string
@@fn http/header/content_type.rs `ContentType::multipart_form_data` ret=r
@@spec
    ensures r.0 == Inner::MultipartFormData(src)
@@end
@@fn http/header/content_type.rs `ContentType::multipart_form_data_str` ret=r
@@spec
    ensures match r.0 { Inner::MultipartFormData(b) => b@ == src@, _ => false }
@@end
@@fn http/header/content_type.rs `ContentType::custom` ret=r
@@spec
    ensures r.0 == Inner::CustomType(src)
@@end
@@fn http/header/content_type.rs `ContentType::custom_str` ret=r
@@spec
    ensures match r.0 { Inner::CustomType(b) => b@ == src@, _ => false }
@@end
@@fn http/header/content_type.rs `AsRef<str> for ContentType::as_ref` ret=r
@@spec
    ensures r@ == ctok(self.0)
@@end
@@nomethod to_string
@@fn http/header/content_type.rs `Debug for ContentType::fmt` ret=r rename=x_fmtd novis 
@@spec
    ensures shown(old(f).view(), final(f).view(), old(f).refuses(ctok(self.0)), r, ctok(self.0))
@@end
}
impl XEq<ContentType> for ContentType {
    open spec fn xeq(&self, o: &ContentType) -> bool { same_inner(self.0, o.0) }
    #[verifier::external_body] fn x_eq(&self, o: &ContentType) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_ne(&self, o: &ContentType) -> (r: bool) { unimplemented!() }
}
pub trait CtA { spec fn CtA_s(&self, o: &&ContentType) -> bool; fn CtA_f(&self, other: &&ContentType) -> (r: bool) ensures r == self.CtA_s(other); }
impl CtA for ContentType {
    open spec fn CtA_s(&self, o: &&ContentType) -> bool { same_inner(self.0, o.0) }
@@fn http/header/content_type.rs `PartialEq<&'aContentType> for ContentType::eq` ret=r rename=CtA_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait CtB { spec fn CtB_s(&self, o: &ContentType) -> bool; fn CtB_f(&self, other: &ContentType) -> (r: bool) ensures r == self.CtB_s(other); }
impl CtB for &ContentType {
    open spec fn CtB_s(&self, o: &ContentType) -> bool { same_inner(self.0, o.0) }
@@fn http/header/content_type.rs `PartialEq<ContentType> for &ContentType::eq` ret=r rename=CtB_f novis xeq
@@end
}
pub trait CtC { spec fn CtC_s(&self, o: &str) -> bool; fn CtC_f(&self, other: &str) -> (r: bool) ensures r == self.CtC_s(other); }
impl CtC for ContentType {
    open spec fn CtC_s(&self, o: &str) -> bool { ctok(self.0) == o@ }
@@fn http/header/content_type.rs `PartialEq<str> for ContentType::eq` ret=r rename=CtC_f novis xeq
@@end
}
pub trait CtD { spec fn CtD_s(&self, o: &ContentType) -> bool; fn CtD_f(&self, other: &ContentType) -> (r: bool) ensures r == self.CtD_s(other); }
impl CtD for str {
    open spec fn CtD_s(&self, o: &ContentType) -> bool { self@ == ctok(o.0) }
@@fn http/header/content_type.rs `PartialEq<ContentType> for str::eq` ret=r rename=CtD_f novis xeq
@@end
}
pub trait CtE { spec fn CtE_s(&self, o: &&str) -> bool; fn CtE_f(&self, other: &&str) -> (r: bool) ensures r == self.CtE_s(other); }
impl CtE for ContentType {
    open spec fn CtE_s(&self, o: &&str) -> bool { ctok(self.0) == o@ }
@@fn http/header/content_type.rs `PartialEq<&'astr> for ContentType::eq` ret=r rename=CtE_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait CtF { spec fn CtF_s(&self, o: &ContentType) -> bool; fn CtF_f(&self, other: &ContentType) -> (r: bool) ensures r == self.CtF_s(other); }
impl CtF for &str {
    open spec fn CtF_s(&self, o: &ContentType) -> bool { self@ == ctok(o.0) }
@@fn http/header/content_type.rs `PartialEq<ContentType> for &str::eq` ret=r rename=CtF_f novis xeq
@@end
}

/// every supported type is read back from its name, whatever constant it is; a multipart type with its boundary
proof fn theorem_roundtrip(c: ContentType, d: ContentType)
    requires ct_is(ctok(c.0), d), !(c.0 is CustomType), !(c.0 is MultipartFormData)
    ensures d.0 == c.0
{ lemma_multi(ctok(c.0)); reveal_strlit("text/html"); reveal_strlit("text/plain"); reveal_strlit("text/xml"); reveal_strlit("image/gif"); reveal_strlit("image/jpeg"); reveal_strlit("image/png"); reveal_strlit("application/xhtml+xml"); reveal_strlit("application/xml"); reveal_strlit("application/atom+xml"); reveal_strlit("application/json"); reveal_strlit("application/pdf"); reveal_strlit("application/msword"); reveal_strlit("application/octet-stream"); reveal_strlit("application/x-www-form-urlencoded"); assert("text/html"@.len() == 9); assert("text/plain"@.len() == 10); assert("text/xml"@.len() == 8); assert("image/gif"@.len() == 9); assert("image/jpeg"@.len() == 10); assert("image/png"@.len() == 9); assert("application/xhtml+xml"@.len() == 21); assert("application/xml"@.len() == 15); assert("application/atom+xml"@.len() == 20); assert("application/json"@.len() == 16); assert("application/pdf"@.len() == 15); assert("application/msword"@.len() == 18); assert("application/octet-stream"@.len() == 24); assert("application/x-www-form-urlencoded"@.len() == 33); assert("text/html"@ != "image/gif"@) by { assert("text/html"@[0] != "image/gif"@[0]); } assert("text/html"@ != "image/png"@) by { assert("text/html"@[0] != "image/png"@[0]); } assert("text/plain"@ != "image/jpeg"@) by { assert("text/plain"@[0] != "image/jpeg"@[0]); } assert("image/gif"@ != "image/png"@) by { assert("image/gif"@[6] != "image/png"@[6]); } assert("application/xml"@ != "application/pdf"@) by { assert("application/xml"@[12] != "application/pdf"@[12]); } }
/// every constant has its own name
proof fn theorem_constants()
    ensures ContentType::TEXT_HTML.0 == Inner::TextHtml, ContentType::TEXT_PLAIN.0 == Inner::TextPlain, ContentType::TEXT_XML.0 == Inner::TextXml, ContentType::IMAGE_GIF.0 == Inner::ImageGif, ContentType::IMAGE_JPEG.0 == Inner::ImageJpeg, ContentType::IMAGE_PNG.0 == Inner::ImagePng, ContentType::APPLICATION_XHTML_XML.0 == Inner::ApplicationXHtmlXml, ContentType::APPLICATION_XML.0 == Inner::ApplicationXml, ContentType::APPLICATION_ATOM_XML.0 == Inner::ApplicationAtomXml, ContentType::APPLICATION_JSON.0 == Inner::ApplicationJson, ContentType::APPLICATION_PDF.0 == Inner::ApplicationPdf, ContentType::APPLICATION_MS_WORD.0 == Inner::ApplicationMsWord, ContentType::APPLICATION_OCTET_STREAM.0 == Inner::ApplicationOctetStream, ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED.0 == Inner::ApplicationXWWWFormUrlEncoded
{ }
} // verus!
fn main() {}
