@@include prelude.vinc
verus! {
@@set status on
@@include status_spec.vinc
@@struct http/status.rs Status
/// `#[derive(PartialEq)]` on Status compares both fields (Rust reference); the derive itself is checked to be there
@@derives http/status.rs Status PartialEq
impl XEq<Status> for Status {
    open spec fn xeq(&self, o: &Status) -> bool { self.0 == o.0 && self.1@ == o.1@ }
    #[verifier::external_body] fn x_eq(&self, o: &Status) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn x_ne(&self, o: &Status) -> (r: bool) { unimplemented!() }
}
impl Status {
@@const http/status.rs Status::*
@@include status_code.vinc
@@fn http/status.rs `Status::phrase` ret=r
@@spec
    ensures r@ == self.1@
@@end
@@method as_bytes x_as_bytes
@@fn http/status.rs `Status::phrase_as_slice` ret=r
@@spec
    ensures r@ == encode_utf8(self.1@)
@@end
@@nomethod as_bytes
@@fn http/status.rs `Status::code` ret=r
@@spec
    ensures r == self.0
@@end
@@method to_string x_to_string
@@method add x_adds
@@fn http/status.rs `Debug for Status::fmt` ret=r rename=x_fmtD novis
@@spec
    ensures shown(old(f).view(), final(f).view(), old(f).refuses(dec(self.0 as int) + " "@ + self.1@), r, dec(self.0 as int) + " "@ + self.1@)
@@end
@@nomethod add
@@nomethod to_string
}
pub open spec fn same(a: Status, b: Status) -> bool { a.0 == b.0 && a.1@ == b.1@ }
pub trait EqA { spec fn EqA_s(&self, o: &&Status) -> bool; fn EqA_f(&self, other: &&Status) -> (r: bool) ensures r == self.EqA_s(other); }
impl EqA for Status {
    open spec fn EqA_s(&self, o: &&Status) -> bool { same(*self, **o) }
@@fn http/status.rs `PartialEq<&'aStatus> for Status::eq` ret=r rename=EqA_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait EqB { spec fn EqB_s(&self, o: &Status) -> bool; fn EqB_f(&self, other: &Status) -> (r: bool) ensures r == self.EqB_s(other); }
impl EqB for &Status {
    open spec fn EqB_s(&self, o: &Status) -> bool { same(**self, *o) }
@@fn http/status.rs `PartialEq<Status> for &Status::eq` ret=r rename=EqB_f novis xeq 
@@end
}
pub trait EqC { spec fn EqC_s(&self, o: &str) -> bool; fn EqC_f(&self, other: &str) -> (r: bool) ensures r == self.EqC_s(other); }
impl EqC for Status {
    open spec fn EqC_s(&self, o: &str) -> bool { self.1@ == o@ }
@@fn http/status.rs `PartialEq<str> for Status::eq` ret=r rename=EqC_f novis xeq 
@@end
}
pub trait EqD { spec fn EqD_s(&self, o: &Status) -> bool; fn EqD_f(&self, other: &Status) -> (r: bool) ensures r == self.EqD_s(other); }
impl EqD for str {
    open spec fn EqD_s(&self, o: &Status) -> bool { self@ == o.1@ }
@@fn http/status.rs `PartialEq<Status> for str::eq` ret=r rename=EqD_f novis xeq 
@@end
}
pub trait EqE { spec fn EqE_s(&self, o: &&str) -> bool; fn EqE_f(&self, other: &&str) -> (r: bool) ensures r == self.EqE_s(other); }
impl EqE for Status {
    open spec fn EqE_s(&self, o: &&str) -> bool { self.1@ == o@ }
@@fn http/status.rs `PartialEq<&'astr> for Status::eq` ret=r rename=EqE_f novis xeq
@@sub &&'a => &&
@@end
}
pub trait EqF { spec fn EqF_s(&self, o: &Status) -> bool; fn EqF_f(&self, other: &Status) -> (r: bool) ensures r == self.EqF_s(other); }
impl EqF for &str {
    open spec fn EqF_s(&self, o: &Status) -> bool { self@ == o.1@ }
@@fn http/status.rs `PartialEq<Status> for &str::eq` ret=r rename=EqF_f novis xeq 
@@end
}
@@method eq x_eq
pub trait EqG { spec fn EqG_s(&self, o: &String) -> bool; fn EqG_f(&self, other: &String) -> (r: bool) ensures r == self.EqG_s(other); }
impl EqG for Status {
    open spec fn EqG_s(&self, o: &String) -> bool { self.1@ == o@ }
@@fn http/status.rs `PartialEq<String> for Status::eq` ret=r rename=EqG_f novis xeq 
@@end
}
pub trait EqH { spec fn EqH_s(&self, o: &Status) -> bool; fn EqH_f(&self, other: &Status) -> (r: bool) ensures r == self.EqH_s(other); }
impl EqH for String {
    open spec fn EqH_s(&self, o: &Status) -> bool { self@ == o.1@ }
@@fn http/status.rs `PartialEq<Status> for String::eq` ret=r rename=EqH_f novis xeq 
@@end
}
@@nomethod eq
pub trait EqI { spec fn EqI_s(&self, o: &u16) -> bool; fn EqI_f(&self, other: &u16) -> (r: bool) ensures r == self.EqI_s(other); }
impl EqI for Status {
    open spec fn EqI_s(&self, o: &u16) -> bool { self.0 == *o }
@@fn http/status.rs `PartialEq<u16> for Status::eq` ret=r rename=EqI_f novis xeq 
@@end
}
pub trait EqJ { spec fn EqJ_s(&self, o: &Status) -> bool; fn EqJ_f(&self, other: &Status) -> (r: bool) ensures r == self.EqJ_s(other); }
impl EqJ for u16 {
    open spec fn EqJ_s(&self, o: &Status) -> bool { *self == o.0 }
@@fn http/status.rs `PartialEq<Status> for u16::eq` ret=r rename=EqJ_f novis xeq 
@@end
}

// every named status is in the table
proof fn theorem_constants()
    ensures
        Status::CONTINUE.wf(), Status::CONTINUE.0 == 100,
        Status::SWITCHING_PROTOCOLS.wf(), Status::SWITCHING_PROTOCOLS.0 == 101,
        Status::PROCESSING.wf(), Status::PROCESSING.0 == 102,
        Status::OK.wf(), Status::OK.0 == 200,
        Status::CREATED.wf(), Status::CREATED.0 == 201,
        Status::ACCEPTED.wf(), Status::ACCEPTED.0 == 202,
        Status::NON_AUTHORITATIVE_INFORMATION.wf(), Status::NON_AUTHORITATIVE_INFORMATION.0 == 203,
        Status::NO_CONTENT.wf(), Status::NO_CONTENT.0 == 204,
        Status::RESET_CONTENT.wf(), Status::RESET_CONTENT.0 == 205,
        Status::PARTIAL_CONTENT.wf(), Status::PARTIAL_CONTENT.0 == 206,
        Status::MULTI_STATUS.wf(), Status::MULTI_STATUS.0 == 207,
        Status::ALREADY_REPORTED.wf(), Status::ALREADY_REPORTED.0 == 208,
        Status::IM_USED.wf(), Status::IM_USED.0 == 226,
        Status::MULTIPLE_CHOICES.wf(), Status::MULTIPLE_CHOICES.0 == 300,
        Status::MOVED_PERMANENTLY.wf(), Status::MOVED_PERMANENTLY.0 == 301,
        Status::FOUND.wf(), Status::FOUND.0 == 302,
        Status::SEE_OTHER.wf(), Status::SEE_OTHER.0 == 303,
        Status::NOT_MODIFIED.wf(), Status::NOT_MODIFIED.0 == 304,
        Status::USE_PROXY.wf(), Status::USE_PROXY.0 == 305,
        Status::TEMPORARY_REDIRECT.wf(), Status::TEMPORARY_REDIRECT.0 == 307,
        Status::PERMANENT_REDIRECT.wf(), Status::PERMANENT_REDIRECT.0 == 308,
        Status::BAD_REQUEST.wf(), Status::BAD_REQUEST.0 == 400,
        Status::UNAUTHORIZED.wf(), Status::UNAUTHORIZED.0 == 401,
        Status::PAYMENT_REQUIRED.wf(), Status::PAYMENT_REQUIRED.0 == 402,
        Status::FORBIDDEN.wf(), Status::FORBIDDEN.0 == 403,
        Status::NOT_FOUND.wf(), Status::NOT_FOUND.0 == 404,
        Status::METHOD_NOT_ALLOWED.wf(), Status::METHOD_NOT_ALLOWED.0 == 405,
        Status::NOT_ACCEPTABLE.wf(), Status::NOT_ACCEPTABLE.0 == 406,
        Status::PROXY_AUTHENTICATION_REQUIRED.wf(), Status::PROXY_AUTHENTICATION_REQUIRED.0 == 407,
        Status::REQUEST_TIMEOUT.wf(), Status::REQUEST_TIMEOUT.0 == 408,
        Status::CONFLICT.wf(), Status::CONFLICT.0 == 409,
        Status::GONE.wf(), Status::GONE.0 == 410,
        Status::LENGTH_REQUIRED.wf(), Status::LENGTH_REQUIRED.0 == 411,
        Status::PRECONDITION_FAILED.wf(), Status::PRECONDITION_FAILED.0 == 412,
        Status::PAYLOAD_TOO_LARGE.wf(), Status::PAYLOAD_TOO_LARGE.0 == 413,
        Status::URI_TOO_LONG.wf(), Status::URI_TOO_LONG.0 == 414,
        Status::UNSUPPORTED_MEDIA_TYPE.wf(), Status::UNSUPPORTED_MEDIA_TYPE.0 == 415,
        Status::RANGE_NOT_SATISFIABLE.wf(), Status::RANGE_NOT_SATISFIABLE.0 == 416,
        Status::EXPECTATION_FAILED.wf(), Status::EXPECTATION_FAILED.0 == 417,
        Status::IM_A_TEAPOT.wf(), Status::IM_A_TEAPOT.0 == 418,
        Status::MISDIRECTED_REQUEST.wf(), Status::MISDIRECTED_REQUEST.0 == 421,
        Status::UNPROCESSABLE_ENTITY.wf(), Status::UNPROCESSABLE_ENTITY.0 == 422,
        Status::LOCKED.wf(), Status::LOCKED.0 == 423,
        Status::FAILED_DEPENDENCY.wf(), Status::FAILED_DEPENDENCY.0 == 424,
        Status::UPGRADE_REQUIRED.wf(), Status::UPGRADE_REQUIRED.0 == 426,
        Status::PRECONDITION_REQUIRED.wf(), Status::PRECONDITION_REQUIRED.0 == 428,
        Status::TOO_MANY_REQUESTS.wf(), Status::TOO_MANY_REQUESTS.0 == 429,
        Status::REQUEST_HEADER_FIELDS_TOO_LARGE.wf(), Status::REQUEST_HEADER_FIELDS_TOO_LARGE.0 == 431,
        Status::UNAVAILABLE_FOR_LEGAL_REASONS.wf(), Status::UNAVAILABLE_FOR_LEGAL_REASONS.0 == 451,
        Status::INTERNAL_SERVER_ERROR.wf(), Status::INTERNAL_SERVER_ERROR.0 == 500,
        Status::NOT_IMPLEMENTED.wf(), Status::NOT_IMPLEMENTED.0 == 501,
        Status::BAD_GATEWAY.wf(), Status::BAD_GATEWAY.0 == 502,
        Status::SERVICE_UNAVAILABLE.wf(), Status::SERVICE_UNAVAILABLE.0 == 503,
        Status::GATEWAY_TIMEOUT.wf(), Status::GATEWAY_TIMEOUT.0 == 504,
        Status::HTTP_VERSION_NOT_SUPPORTED.wf(), Status::HTTP_VERSION_NOT_SUPPORTED.0 == 505,
        Status::VARIANT_ALSO_NEGOTIATES.wf(), Status::VARIANT_ALSO_NEGOTIATES.0 == 506,
        Status::INSUFFICIENT_STORAGE.wf(), Status::INSUFFICIENT_STORAGE.0 == 507,
        Status::LOOP_DETECTED.wf(), Status::LOOP_DETECTED.0 == 508,
        Status::NOT_EXTENDED.wf(), Status::NOT_EXTENDED.0 == 510,
        Status::NETWORK_AUTHENTICATION_REQUIRED.wf(), Status::NETWORK_AUTHENTICATION_REQUIRED.0 == 511,
{ reveal_strlit("Continue"); reveal_strlit("Switching Protocols"); reveal_strlit("Processing"); reveal_strlit("OK"); reveal_strlit("Created"); reveal_strlit("Accepted"); reveal_strlit("Non Authoritative Information"); reveal_strlit("No Content"); reveal_strlit("Reset Content"); reveal_strlit("Partial Content"); reveal_strlit("Multi-Status"); reveal_strlit("Already Reported"); reveal_strlit("IM Used"); reveal_strlit("Multiple Choices"); reveal_strlit("Moved Permanently"); reveal_strlit("Found"); reveal_strlit("See Other"); reveal_strlit("Not Modified"); reveal_strlit("Use Proxy"); reveal_strlit("Temporary Redirect"); reveal_strlit("Permanent Redirect"); reveal_strlit("Bad Request"); reveal_strlit("Unauthorized"); reveal_strlit("Payment Required"); reveal_strlit("Forbidden"); reveal_strlit("Not Found"); reveal_strlit("Method Not Allowed"); reveal_strlit("Not Acceptable"); reveal_strlit("Proxy Authentication Required"); reveal_strlit("Request Timeout"); reveal_strlit("Conflict"); reveal_strlit("Gone"); reveal_strlit("Length Required"); reveal_strlit("Precondition Failed"); reveal_strlit("Payload Too Large"); reveal_strlit("URI Too Long"); reveal_strlit("Unsupported Media Type"); reveal_strlit("Range Not Satisfiable"); reveal_strlit("Expectation Failed"); reveal_strlit("I'm a teapot"); reveal_strlit("Misdirected Request"); reveal_strlit("Unprocessable Entity"); reveal_strlit("Locked"); reveal_strlit("Failed Dependency"); reveal_strlit("Upgrade Required"); reveal_strlit("Precondition Required"); reveal_strlit("Too Many Requests"); reveal_strlit("Request Header Fields Too Large"); reveal_strlit("Unavailable For Legal Reasons"); reveal_strlit("Internal Server Error"); reveal_strlit("Not Implemented"); reveal_strlit("Bad Gateway"); reveal_strlit("Service Unavailable"); reveal_strlit("Gateway Timeout"); reveal_strlit("HTTP Version Not Supported"); reveal_strlit("Variant Also Negotiates"); reveal_strlit("Insufficient Storage"); reveal_strlit("Loop Detected"); reveal_strlit("Not Extended"); reveal_strlit("Network Authentication Required"); }
} // verus!
fn main() {}
