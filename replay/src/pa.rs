//! properties over the public API alone
use crate::util::*;
use crate::{Case, Prop, Verdict};
use flate2::Compression;
use starry::header::cookie::SameSite;
use starry::header::{ContentType, Cookie, CookieBuilder};
use starry::utils::cryptos::base64::{Base64Decoder, Base64Encoder};
use starry::utils::cryptos::hex::{HexDecoder, HexEncoder};
use starry::utils::cryptos::{Base64, Hex};
use starry::utils::{Compress, Time};
use starry::{Inner, Method, MultipartValues, Response, Status, Values, Version};
use std::collections::{BTreeMap, HashMap};

macro_rules! want {
    ($got:expr, $exp:expr, $($what:tt)*) => {{
        match ($got, $exp) {
            (g, e) => if g != e { return Err(format!("{}: got {:?}, expected {:?}", format!($($what)*), g, e)) }
        }
    }};
}
pub(crate) use want;

// ------------------------------------------------------------------ C08: multimaps
// items: "<op><key>=<value>", op s S a A (set, set_str, add, add_str), d (del); upper-case M I D: the multipart map
fn c08(c: &Case) -> Verdict {
    let mut vs = Values::new();
    let mut m: HashMap<String, Vec<String>> = HashMap::new();
    let mut ms = MultipartValues::new();
    let mut mm: HashMap<String, (String, Vec<u8>)> = HashMap::new();
    let mut keys: Vec<String> = vec!["".into(), "zz".into()];
    for (i, item) in c.iter().enumerate() {
        if item.is_empty() {
            return Err("bad case".into());
        }
        let t = s(&item[1..]);
        let (k, v) = match t.find('=') {
            Some(p) => (t[..p].to_string(), t[p + 1..].to_string()),
            None => (t.clone(), String::new()),
        };
        keys.push(k.clone());
        match item[0] {
            b's' => { vs.set(k.clone(), v.clone()); m.insert(k, vec![v]); }
            b'S' => { vs.set_str(&k, &v); m.insert(k, vec![v]); }
            b'a' => { vs.add(k.clone(), v.clone()); m.entry(k).or_default().push(v); }
            b'A' => { vs.add_str(&k, &v); m.entry(k).or_default().push(v); }
            b'd' => want!(vs.del(k.as_str()), m.remove(&k).map(|v| v[0].clone()), "op {}: del returns the first value", i),
            b'e' => want!(vs.del(&k), m.remove(&k).map(|v| v[0].clone()), "op {}: del by String returns the first value", i),
            b'M' | b'I' => {
                let old = if item[0] == b'I' && ms.get(v.as_str()).is_some() {
                    let f = ms.get(v.as_str()).unwrap();
                    let e = mm[&v].clone();
                    let old = ms.insert(k.clone(), f);
                    (old, mm.insert(k, e))
                } else {
                    let content: Vec<u8> = v.bytes().rev().collect();
                    let old = ms.insert_obj(k.clone(), v.clone(), content.clone(), ContentType::TEXT_PLAIN);
                    (old, mm.insert(k, (v, content)))
                };
                want!(old.0.map(|f| (f.filename(), f.size(), f.content())), old.1.map(|(a, b)| (a, b.len(), b)), "op {}: insert returns the old entry", i)
            }
            b'D' => want!(ms.del(k.as_str()).map(|f| (f.filename(), f.size(), f.content())), mm.remove(&k).map(|(a, b)| (a, b.len(), b)), "op {}: del returns the entry", i),
            _ => return Err("bad case".into()),
        }
        for k in &keys {
            want!(vs.get(k.as_str()), m.get(k).map(|v| v[0].clone()), "after op {}: get {:?}", i, k);
            want!(vs.vec(k.as_str()), m.get(k).cloned(), "after op {}: vec {:?}", i, k);
            want!(vs.contain(k.as_str()), m.contains_key(k), "after op {}: contain {:?}", i, k);
            want!(ms.get(k.as_str()).map(|f| (f.filename(), f.size(), f.content())), mm.get(k).map(|(a, b)| (a.clone(), b.len(), b.clone())), "after op {}: multipart get {:?}", i, k);
            want!(ms.have(k.as_str()), mm.contains_key(k), "after op {}: multipart have {:?}", i, k);
        }
        want!(vs.len(), m.len(), "after op {}: len", i);
        want!(vs.map(), m.clone(), "after op {}: map", i);
        want!(vs.clone().map(), m.clone(), "after op {}: clone", i);
        want!(ms.len(), mm.len(), "after op {}: multipart len", i);
        want!(ms.map().into_iter().map(|(k, f)| (k, f.content())).collect::<BTreeMap<_, _>>(),
              mm.iter().map(|(k, f)| (k.clone(), f.1.clone())).collect::<BTreeMap<_, _>>(), "after op {}: multipart map", i);
    }
    Ok(c.len() > 1)
}
fn c08_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let ops = ["sa=1", "Sb=2", "aa=3", "Aa=4", "ab=1", "da", "eb", "s=", "Ma=x", "Ma=y", "Ib=a", "Da"];
    sequences(ops.len(), if tier > 0 { 5 } else { 4 }, &mut |v| f(v.iter().map(|i| ops[*i].as_bytes().to_vec()).collect()));
}
fn c08_rand(r: &mut Rng) -> Case {
    let n = 1 + r.below(30);
    (0..n).map(|_| {
        let mut t = String::from(r.pick(&["s", "S", "a", "A", "d", "e", "M", "I", "D"]));
        t.push_str(&r.word(&["a", "b", "A", "é", " ", "", "Host", "k1"], 2));
        t.push('=');
        t.push_str(&r.word(&["a", "b", "", "=", "x y", "ü", "\r\n"], 3));
        t.into_bytes()
    }).collect()
}

// ------------------------------------------------------------------ C18: media types
const MEDIA: [(&str, Inner); 14] = [
    ("text/html", Inner::TextHtml), ("text/plain", Inner::TextPlain), ("text/xml", Inner::TextXml), ("image/gif", Inner::ImageGif),
    ("image/jpeg", Inner::ImageJpeg), ("image/png", Inner::ImagePng), ("application/xhtml+xml", Inner::ApplicationXHtmlXml),
    ("application/xml", Inner::ApplicationXml), ("application/atom+xml", Inner::ApplicationAtomXml), ("application/json", Inner::ApplicationJson),
    ("application/pdf", Inner::ApplicationPdf), ("application/msword", Inner::ApplicationMsWord),
    ("application/octet-stream", Inner::ApplicationOctetStream), ("application/x-www-form-urlencoded", Inner::ApplicationXWWWFormUrlEncoded),
];
const MULTI: &str = "multipart/form-data; boundary=";
fn c18(c: &Case) -> Verdict {
    if c.len() != 1 {
        return Err("bad case".into());
    }
    let t = s(&c[0]);
    let got = ContentType::from_str(&t);
    let (inner, name) = if t.len() > MULTI.len() && t.starts_with(MULTI) {
        (Inner::MultipartFormData(t[MULTI.len()..].to_string()), "multipart/form-data")
    } else {
        match MEDIA.iter().find(|m| m.0 == t) {
            Some(m) => (m.1.clone(), m.0),
            None => (Inner::ApplicationOctetStream, "application/octet-stream"),
        }
    };
    if got.inner() != inner {
        return Err(format!("media type of {:?} is {:?}, expected {:?}", t, got.inner().as_str(), inner.as_str()));
    }
    want!(got.as_str(), name, "text of the media type {:?}", t);
    want!(got.as_ref(), name, "reference text of {:?}", t);
    want!(format!("{:?}", got), name, "shown text of {:?}", t);
    want!(got.inner().as_str(), name, "text of the inner media type {:?}", t);
    if !(got == name && name == got && got == got.clone() && &got == got && got == &got) {
        return Err(format!("{:?} does not compare equal to its own text", t));
    }
    if let Some(o) = MEDIA.iter().find(|m| m.0 != name) {
        if got == o.0 || got == ContentType::from_str(o.0) {
            return Err(format!("{:?} compares equal to {:?}", t, o.0));
        }
    }
    want!(ContentType::custom_str(&t).as_str(), t.as_str(), "custom media type");
    want!(ContentType::custom(t.clone()).as_str(), t.as_str(), "custom media type");
    for ct in [ContentType::multipart_form_data_str(&t), ContentType::multipart_form_data(t.clone())] {
        want!(ct.as_str(), "multipart/form-data", "multipart media type");
        if ct.inner() != Inner::MultipartFormData(t.clone()) {
            return Err("multipart media type lost its boundary".into());
        }
    }
    Ok(name != "application/octet-stream")
}
fn c18_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    // every named constant is the type of its own text
    for (ct, t) in [(ContentType::TEXT_HTML, "text/html"), (ContentType::TEXT_PLAIN, "text/plain"), (ContentType::TEXT_XML, "text/xml"),
        (ContentType::IMAGE_GIF, "image/gif"), (ContentType::IMAGE_JPEG, "image/jpeg"), (ContentType::IMAGE_PNG, "image/png"),
        (ContentType::APPLICATION_XHTML_XML, "application/xhtml+xml"), (ContentType::APPLICATION_XML, "application/xml"),
        (ContentType::APPLICATION_ATOM_XML, "application/atom+xml"), (ContentType::APPLICATION_JSON, "application/json"),
        (ContentType::APPLICATION_PDF, "application/pdf"), (ContentType::APPLICATION_MS_WORD, "application/msword"),
        (ContentType::APPLICATION_OCTET_STREAM, "application/octet-stream"),
        (ContentType::APPLICATION_X_WWW_FORM_URL_ENCODED, "application/x-www-form-urlencoded")] {
        assert_eq!(ct.as_str(), t);
    }
    for (t, _) in MEDIA.iter() {
        for pre in ["", " "] {
            for post in ["", " ", ";", "; charset=utf-8", "x"] {
                if !f(vec![format!("{}{}{}", pre, t, post).into_bytes()]) || !f(vec![t.to_uppercase().into_bytes()]) {
                    return;
                }
                for cut in 0..t.len() {
                    f(vec![t[..cut].as_bytes().to_vec()]);
                    f(vec![format!("{}{}", &t[..cut], &t[cut + 1..]).into_bytes()]);
                }
            }
        }
    }
    for cut in 0..MULTI.len() + 1 {
        for tail in ["", "a", "é", "-----------------------------------", "ééééééééééééééééééééééééé", "\"x\"", " "] {
            if !f(vec![format!("{}{}", &MULTI[..cut], tail).into_bytes()]) {
                return;
            }
        }
    }
}
fn c18_rand(r: &mut Rng) -> Case {
    let base = if r.chance(1, 2) { MULTI } else { MEDIA[r.below(14)].0 };
    let mut b: Vec<char> = base.chars().collect();
    for _ in 0..r.below(3) {
        let i = r.below(b.len() + 1);
        match r.below(3) {
            0 if i < b.len() => { b.remove(i); }
            1 => b.insert(i, *['é', 'x', ';', ' ', '/', '-', '\u{10348}'].get(r.below(7)).unwrap()),
            _ => { if i < b.len() { b[i] = b[i].to_ascii_uppercase() } }
        }
    }
    let mut t: String = b.into_iter().collect();
    t.push_str(&r.word(&["-", "a", "é", "\"", ";", " ", "12"], 6));
    vec![t.into_bytes()]
}

// ------------------------------------------------------------------ C19: status table
pub const STATUS: [(u16, &str); 62] = [(100, "Continue"), (101, "Switching Protocols"), (102, "Processing"), (200, "OK"), (201, "Created"),
    (202, "Accepted"), (203, "Non Authoritative Information"), (204, "No Content"), (205, "Reset Content"), (206, "Partial Content"),
    (207, "Multi-Status"), (208, "Already Reported"), (226, "IM Used"), (300, "Multiple Choices"), (301, "Moved Permanently"), (302, "Found"),
    (303, "See Other"), (304, "Not Modified"), (305, "Use Proxy"), (307, "Temporary Redirect"), (308, "Permanent Redirect"),
    (400, "Bad Request"), (401, "Unauthorized"), (402, "Payment Required"), (403, "Forbidden"), (404, "Not Found"), (405, "Method Not Allowed"),
    (406, "Not Acceptable"), (407, "Proxy Authentication Required"), (408, "Request Timeout"), (409, "Conflict"), (410, "Gone"),
    (411, "Length Required"), (412, "Precondition Failed"), (413, "Payload Too Large"), (414, "URI Too Long"), (415, "Unsupported Media Type"),
    (416, "Range Not Satisfiable"), (417, "Expectation Failed"), (418, "I'm a teapot"), (421, "Misdirected Request"),
    (422, "Unprocessable Entity"), (423, "Locked"), (424, "Failed Dependency"), (426, "Upgrade Required"), (428, "Precondition Required"),
    (429, "Too Many Requests"), (431, "Request Header Fields Too Large"), (451, "Unavailable For Legal Reasons"),
    (500, "Internal Server Error"), (501, "Not Implemented"), (502, "Bad Gateway"), (503, "Service Unavailable"), (504, "Gateway Timeout"),
    (505, "HTTP Version Not Supported"), (506, "Variant Also Negotiates"), (507, "Insufficient Storage"), (508, "Loop Detected"),
    (510, "Not Extended"), (511, "Network Authentication Required"), (0, ""), (0, "")];
fn c19(c: &Case) -> Verdict {
    let code: u16 = match c.get(0).and_then(|t| s(t).parse().ok()) {
        Some(c) => c,
        None => return Err("bad case".into()),
    };
    let exp = STATUS.iter().find(|x| x.0 == code && x.0 != 0);
    match (Status::from_code(code), exp) {
        (Ok(st), Some((_, p))) => {
            want!(st.code(), code, "code of status {}", code);
            if !(code == 203 && st.phrase() == "Non-Authoritative Information") {
                want!(st.phrase(), *p, "reason phrase of {}", code);
            }
            want!(format!("{:?}", st), format!("{} {}", code, st.phrase()), "shown text of {}", code);
            want!(st.phrase_as_slice(), st.phrase().as_bytes(), "reason phrase bytes of {}", code);
            if !(st == code && code == st && st == *st.phrase() && st == st.phrase().to_string() && st == st.clone()) {
                return Err(format!("status {} does not compare equal to its own code and phrase", code));
            }
            for (o, _) in STATUS.iter().filter(|o| o.0 != 0 && o.0 != code) {
                if Status::from_code(*o).map(|x| x == st || x == code).unwrap_or(false) {
                    return Err(format!("status {} compares equal to {}", code, o));
                }
            }
            Ok(true)
        }
        (Err(_), None) => Ok(false),
        (Ok(_), None) => Err(format!("{} is no registered status and yet accepted", code)),
        (Err(_), Some(_)) => Err(format!("status {} refused", code)),
    }
}
fn c19_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    let k: [(Status, u16); 60] = [(Status::CONTINUE, 100), (Status::SWITCHING_PROTOCOLS, 101), (Status::PROCESSING, 102), (Status::OK, 200),
        (Status::CREATED, 201), (Status::ACCEPTED, 202), (Status::NON_AUTHORITATIVE_INFORMATION, 203), (Status::NO_CONTENT, 204),
        (Status::RESET_CONTENT, 205), (Status::PARTIAL_CONTENT, 206), (Status::MULTI_STATUS, 207), (Status::ALREADY_REPORTED, 208),
        (Status::IM_USED, 226), (Status::MULTIPLE_CHOICES, 300), (Status::MOVED_PERMANENTLY, 301), (Status::FOUND, 302), (Status::SEE_OTHER, 303),
        (Status::NOT_MODIFIED, 304), (Status::USE_PROXY, 305), (Status::TEMPORARY_REDIRECT, 307), (Status::PERMANENT_REDIRECT, 308),
        (Status::BAD_REQUEST, 400), (Status::UNAUTHORIZED, 401), (Status::PAYMENT_REQUIRED, 402), (Status::FORBIDDEN, 403), (Status::NOT_FOUND, 404),
        (Status::METHOD_NOT_ALLOWED, 405), (Status::NOT_ACCEPTABLE, 406), (Status::PROXY_AUTHENTICATION_REQUIRED, 407),
        (Status::REQUEST_TIMEOUT, 408), (Status::CONFLICT, 409), (Status::GONE, 410), (Status::LENGTH_REQUIRED, 411),
        (Status::PRECONDITION_FAILED, 412), (Status::PAYLOAD_TOO_LARGE, 413), (Status::URI_TOO_LONG, 414), (Status::UNSUPPORTED_MEDIA_TYPE, 415),
        (Status::RANGE_NOT_SATISFIABLE, 416), (Status::EXPECTATION_FAILED, 417), (Status::IM_A_TEAPOT, 418), (Status::MISDIRECTED_REQUEST, 421),
        (Status::UNPROCESSABLE_ENTITY, 422), (Status::LOCKED, 423), (Status::FAILED_DEPENDENCY, 424), (Status::UPGRADE_REQUIRED, 426),
        (Status::PRECONDITION_REQUIRED, 428), (Status::TOO_MANY_REQUESTS, 429), (Status::REQUEST_HEADER_FIELDS_TOO_LARGE, 431),
        (Status::UNAVAILABLE_FOR_LEGAL_REASONS, 451), (Status::INTERNAL_SERVER_ERROR, 500), (Status::NOT_IMPLEMENTED, 501),
        (Status::BAD_GATEWAY, 502), (Status::SERVICE_UNAVAILABLE, 503), (Status::GATEWAY_TIMEOUT, 504), (Status::HTTP_VERSION_NOT_SUPPORTED, 505),
        (Status::VARIANT_ALSO_NEGOTIATES, 506), (Status::INSUFFICIENT_STORAGE, 507), (Status::LOOP_DETECTED, 508), (Status::NOT_EXTENDED, 510),
        (Status::NETWORK_AUTHENTICATION_REQUIRED, 511)];
    for (st, code) in k.iter() {
        if st.code() != *code && !f(vec![b"0".to_vec()]) {
            return;
        }
    }
    for code in 0..=65535u32 {
        if !f(vec![code.to_string().into_bytes()]) {
            return;
        }
    }
}
fn c19_rand(r: &mut Rng) -> Case {
    vec![r.below(65536).to_string().into_bytes()]
}

// ------------------------------------------------------------------ C20: tokens
fn methods() -> Vec<(&'static str, Method)> {
    vec![("OPTIONS", Method::OPTIONS), ("GET", Method::GET), ("POST", Method::POST), ("PUT", Method::PUT), ("DELETE", Method::DELETE),
         ("HEAD", Method::HEAD), ("TRACE", Method::TRACE), ("CONNECT", Method::CONNECT), ("PATCH", Method::PATCH), ("LINK", Method::LINK),
         ("UNLINK", Method::UNLINK), ("PRI", Method::PRI)]
}
pub fn method(t: &str) -> Option<Method> {
    methods().into_iter().find(|m| m.0 == t).map(|m| m.1)
}
fn c20(c: &Case) -> Verdict {
    if c.len() != 1 {
        return Err("bad case".into());
    }
    let b = &c[0];
    let exp = if b.is_empty() { Some(("GET", Method::GET)) } else { methods().into_iter().find(|m| m.0.as_bytes() == &b[..]) };
    let mut nt = exp.is_some();
    let mut got = vec![Method::from_bytes(b)];
    if let Ok(t) = std::str::from_utf8(b) {
        got.push(Method::from_str(t))
    }
    for g in got {
        match (&g, &exp) {
            (Ok(g), Some((t, m))) => {
                want!(g.as_str(), *t, "token of the method read from {:?}", s(b));
                want!(g.to_string(), t.to_string(), "display of {:?}", s(b));
                want!(format!("{:?}", g), t.to_string(), "shown text of {:?}", s(b));
                if g != m || *g != **t || **t != *g || methods().iter().any(|o| o.0 != *t && (o.1 == *g || *g == *o.0)) {
                    return Err(format!("method {:?} does not compare as its own token", s(b)));
                }
                want!(g.is_safe(), ["GET", "HEAD", "OPTIONS", "TRACE"].contains(t), "safe: {}", t);
                want!(g.is_cacheable(), ["GET", "HEAD", "POST"].contains(t), "cacheable: {}", t);
            }
            (Err(_), None) => {}
            (Ok(g), None) => return Err(format!("{:?} is no method and yet read as {}", s(b), g.as_str())),
            (Err(_), Some((t, _))) => return Err(format!("method {} refused", t)),
        }
    }
    if let Ok(t) = std::str::from_utf8(b) {
        match (Version::from_str(t), t) {
            (Ok(v), "HTTP/1.0") | (Ok(v), "HTTP/1.1") => {
                nt = true;
                want!(v.as_slice(), t.as_bytes(), "version bytes of {}", t);
                want!(v.as_ref(), t, "version text of {}", t);
                want!(v.to_string(), t.to_string(), "version string of {}", t);
                want!(format!("{:?}", v), t.to_string(), "shown version {}", t);
                want!((v.major(), v.minor()), (1, if t == "HTTP/1.1" { 1 } else { 0 }), "version numbers of {}", t);
                if v != *t || *t != v || (v == Version::HTTP_10) != (t == "HTTP/1.0") || (v == Version::HTTP_11) != (t == "HTTP/1.1") {
                    return Err(format!("version {} does not compare as itself", t));
                }
            }
            (Ok(_), _) => return Err(format!("{:?} accepted as a version", t)),
            (Err(_), "HTTP/1.0") | (Err(_), "HTTP/1.1") => return Err(format!("{} refused", t)),
            (Err(_), _) => {}
        }
    }
    #[cfg(feature = "hooks")]
    {
        let v = starry::verif_hooks::version_from_bytes(b).ok().map(|v| v.as_slice().to_vec());
        want!(v, if &b[..] == b"HTTP/1.0" || &b[..] == b"HTTP/1.1" { Some(b.clone()) } else { None }, "version read from the bytes {:?}", s(b));
    }
    Ok(nt)
}
fn c20_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    for (m, v) in methods() {
        assert_eq!(v.as_str(), m);
    }
    let mut words: Vec<String> = methods().iter().map(|m| m.0.to_string()).collect();
    words.extend(["HTTP/1.0", "HTTP/1.1", "HTTP/2.0", "HTTP/1.2", "HTTP/0.9", ""].iter().map(|x| x.to_string()));
    for w in &words {
        f(vec![w.clone().into_bytes()]);
        f(vec![w.to_lowercase().into_bytes()]);
        for i in 0..w.len() {
            let mut d = w.clone().into_bytes();
            d.remove(i);
            f(vec![d]);
            for c in 0..=255u8 {
                let mut d = w.clone().into_bytes();
                d[i] = c;
                f(vec![d.clone()]);
                if tier > 0 || c % 16 == 0 {
                    d = w.clone().into_bytes();
                    d.insert(i, c);
                    f(vec![d]);
                }
            }
        }
        for c in 0..=255u8 {
            let mut d = w.clone().into_bytes();
            d.push(c);
            if !f(vec![d]) {
                return;
            }
        }
    }
    for a in &words {
        for b in &words {
            f(vec![format!("{}{}", a, b).into_bytes()]);
        }
    }
}
fn c20_rand(r: &mut Rng) -> Case {
    vec![match r.below(3) {
        0 => r.word(&["G", "E", "T", "P", "U", "O", "S", "L", "I", "N", "K", "UN", "R", "H", "A", "D"], 8).into_bytes(),
        1 => r.word(&["HTTP", "/", "1", ".", "0", "1", "2", " "], 6).into_bytes(),
        _ => r.bytes(b"GETPUSOHDRILNKC\xff/ ", 8),
    }]
}

// ------------------------------------------------------------------ C21: time
// items: "<unit><sign><n>"; the first one builds the value, the others add or subtract
const NS: [i128; 8] = [1, 1_000, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000, 86_400_000_000_000, 604_800_000_000_000];
fn c21_step(item: &[u8]) -> Option<(usize, i64)> {
    if item.len() < 2 {
        return None;
    }
    let u = b"nuimMhdw".iter().position(|x| *x == item[0])?;
    Some((u, s(&item[1..]).parse().ok()?))
}
/// days since 1970-01-01 to y-m-d
fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
fn c21_text(secs: i64) -> String {
    let (y, m, d) = civil(secs.div_euclid(86400));
    let t = secs.rem_euclid(86400);
    format!("{:04}-{:02}-{:02} {:02}:{:02}:{:02}", y, m, d, t / 3600, t / 60 % 60, t % 60)
}
fn c21(c: &Case) -> Verdict {
    let mut it = c.iter();
    let (u, n) = match it.next().and_then(|i| c21_step(i)) {
        Some(x) if x.0 <= 4 => x,
        _ => return Err("bad case".into()),
    };
    let lim = 9_000_000_000_000_000_000i128 * 1_000_000 / 2; // milliseconds of a duration stay within i64
    let mut ns = n as i128 * NS[u];
    if ns.abs() > lim {
        return Err("bad case".into());
    }
    let mut t = match u {
        0 => Time::from_nanoseconds(n),
        1 => Time::from_microseconds(n),
        2 => Time::from_milliseconds(n),
        3 => Time::from_secs(n),
        _ => Time::from_minutes(n),
    };
    let mut k = 0;
    loop {
        let big = |x: i128| if x > i64::MAX as i128 || x < i64::MIN as i128 { None } else { Some(x as i64) };
        want!(t.num_nanoseconds(), big(ns), "step {}: nanoseconds", k);
        want!(t.num_microseconds(), big(ns / 1000), "step {}: microseconds", k);
        want!(t.num_milliseconds() as i128, ns / 1_000_000, "step {}: milliseconds", k);
        want!(t.num_seconds() as i128, ns / NS[3], "step {}: seconds", k);
        want!(t.num_minutes() as i128, ns / NS[4], "step {}: minutes", k);
        want!(t.num_hours() as i128, ns / NS[5], "step {}: hours", k);
        want!(t.num_days() as i128, ns / NS[6], "step {}: days", k);
        want!(t.num_weeks() as i128, ns / NS[7], "step {}: weeks", k);
        if Time::from(t.duration()) != t {
            return Err("a time rebuilt from its duration differs".into());
        }
        let secs = ns.div_euclid(NS[3]) as i64;
        // years 1 to 9999; a fraction of a second is dropped
        if secs > -62_135_500_000 && secs < 253_402_300_000 {
            let text = c21_text(secs);
            want!(t.to_string(), text.clone(), "step {}: text", k);
            want!(t.format_string("%Y-%m-%d %H:%M:%S"), text.clone(), "step {}: formatted", k);
            want!(Time::format_data(t, "%d/%m/%Y %H.%M.%S"), format!("{}/{}/{} {}", &text[8..10], &text[5..7], &text[..4], text[11..].replace(':', ".")), "step {}: format_data", k);
            match Time::parse_from_str(&text, "%Y-%m-%d %H:%M:%S") {
                Ok(p) => want!(p.num_seconds(), secs, "step {}: {} parsed", k, text),
                Err(e) => return Err(format!("{} refused: {}", text, e)),
            }
            // a fraction that is read, is kept
            let sub = ns.rem_euclid(NS[3]);
            let exact = chrono::Duration::seconds(secs) + chrono::Duration::nanoseconds(sub as i64);
            for (frac, f) in [(format!(".{:09}", sub), "%Y-%m-%d %H:%M:%S%.f"), (format!(".{:09}", sub), "%Y-%m-%d %H:%M:%S%.9f"), (format!("{:09}", sub), "%Y-%m-%d %H:%M:%S%9f")] {
                let text = text.clone() + &frac;
                match Time::parse_from_str(&text, f) {
                    Ok(p) => want!(p.duration(), exact, "step {}: {} parsed with its fraction", k, text),
                    Err(e) => return Err(format!("{} refused: {}", text, e)),
                }
            }
            let http = t.format_string("%a, %d %b %Y %H:%M:%S GMT");
            match Time::parse_from_str(&http, "%a, %d %b %Y %H:%M:%S GMT") {
                Ok(p) => want!(p, Time::from_secs(secs), "step {}: {} parsed", k, http),
                Err(e) => return Err(format!("{} refused: {}", http, e)),
            }
        }
        k += 1;
        let item = match it.next() {
            Some(i) => i,
            None => break,
        };
        let sub = item.first() == Some(&b'-');
        let raw = item.first() == Some(&b'=');
        let (u, n) = match c21_step(if sub || raw { &item[1..] } else { item }) {
            Some(x) => x,
            None => return Err("bad case".into()),
        };
        let d = n as i128 * NS[u];
        let next = if sub { ns - d } else { ns + d };
        if d.abs() > lim || next.abs() > lim {
            return Err("bad case".into());
        }
        ns = next;
        let dur = |u: usize, n: i64| match u {
            0 => chrono::Duration::nanoseconds(n),
            1 => chrono::Duration::microseconds(n),
            2 => chrono::Duration::milliseconds(n),
            3 => chrono::Duration::seconds(n),
            4 => chrono::Duration::minutes(n),
            5 => chrono::Duration::hours(n),
            6 => chrono::Duration::days(n),
            _ => chrono::Duration::weeks(n),
        };
        if raw {
            if n % 2 == 0 { t.add(dur(u, n)) } else { t.sub(dur(u, -n)) }
            continue;
        }
        match (u, sub) {
            (0, false) => t.add_nanoseconds(n),
            (1, false) => t.add_microseconds(n),
            (2, false) => t.add_milliseconds(n),
            (3, false) => t.add_seconds(n),
            (4, false) => t.add_minutes(n),
            (5, false) => t.add_hours(n),
            (6, false) => t.add_days(n),
            (7, false) => t.add_weeks(n),
            (0, true) => t.sub_nanoseconds(n),
            (1, true) => t.sub_microseconds(n),
            (2, true) => t.sub_milliseconds(n),
            (3, true) => t.sub_seconds(n),
            (4, true) => t.sub_minutes(n),
            (5, true) => t.sub_hours(n),
            (6, true) => t.sub_days(n),
            _ => t.sub_weeks(n),
        }
    }
    Ok(ns != 0)
}
fn c21_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    let ns = [0i64, 1, -1, 59, 60, 61, 999, 1000, 86399, 86400, 604800, -604801, 1638907696, 951782400, 1582934400, 4102444800, 32503680000, 253402300799];
    for u in "nuimM".chars() {
        for n in ns {
            if !f(vec![format!("{}{}", u, n).into_bytes()]) {
                return;
            }
            for v in "nuimMhdw".chars() {
                for k in [1i64, -1, 7, 1500] {
                    f(vec![format!("{}{}", u, n).into_bytes(), format!("{}{}", v, k).into_bytes()]);
                    f(vec![format!("{}{}", u, n).into_bytes(), format!("-{}{}", v, k).into_bytes()]);
                    f(vec![format!("{}{}", u, n).into_bytes(), format!("={}{}", v, k).into_bytes()]);
                }
            }
        }
    }
}
fn c21_rand(r: &mut Rng) -> Case {
    let n = |r: &mut Rng| match r.below(4) {
        0 => r.below(100) as i64 - 50,
        1 => r.next() as i64 % 100_000,
        2 => r.next() as i64 % 10_000_000_000,
        _ => r.next() as i64 % 1_000_000_000_000_000_000,
    };
    let mut c = vec![format!("{}{}", r.pick(&["n", "u", "i", "m", "M"]), n(r)).into_bytes()];
    for _ in 0..r.below(6) {
        c.push(format!("{}{}{}", r.pick(&["", "-", "="]), r.pick(&["n", "u", "i", "m", "M", "h", "d", "w"]), n(r)).into_bytes())
    }
    c
}

// ------------------------------------------------------------------ C22: codecs
fn c22(c: &Case) -> Verdict {
    if c.len() != 1 {
        return Err("bad case".into());
    }
    let b = &c[0][..];
    let e = b64(b);
    want!(Base64::encode(b), e.clone(), "base64 of a slice");
    want!(Base64::encode(b.to_vec()), e.clone(), "base64 of a vector");
    want!(Base64::decode(e.as_str()).ok(), Some(b.to_vec()), "base64 decoded from a slice");
    want!(Base64::decode(e).ok(), Some(b.to_vec()), "base64 decoded from a string");
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    want!(Hex::encode(b), h.clone(), "hex of a slice");
    want!(Hex::encode(b.to_vec()), h.clone(), "hex of a vector");
    want!(Hex::decode(h.as_str()).ok(), Some(b.to_vec()), "hex decoded from a slice");
    want!(Hex::decode(h.to_uppercase()).ok(), Some(b.to_vec()), "upper-case hex decoded from a string");
    if let Ok(t) = std::str::from_utf8(b) {
        want!(Hex::encode(t), h.clone(), "hex of a text");
        let hexy = t.len() % 2 == 0 && t.bytes().all(|x| x.is_ascii_hexdigit());
        want!(Hex::decode(t).is_ok(), hexy, "hex accepted");
        want!(Hex::decode(t.to_string()).is_ok(), hexy, "hex accepted from a string");
        // malformed input is an error, never a panic
        let _ = Base64::decode(t);
    }
    for l in [Compression::none(), Compression::fast(), Compression::default(), Compression::best()] {
        use std::io::Read;
        let g = Compress::gzip(b, l).map_err(|e| e.to_string())?;
        let z = Compress::zlib(b, l).map_err(|e| e.to_string())?;
        let d = Compress::deflate(b, l).map_err(|e| e.to_string())?;
        want!(Compress::un_gzip(&g).ok(), Some(b.to_vec()), "gzip round trip");
        want!(Compress::un_zlib(&z).ok(), Some(b.to_vec()), "zlib round trip");
        want!(Compress::un_deflate(&d).ok(), Some(b.to_vec()), "deflate round trip");
        let mut o = vec![];
        want!((g.starts_with(&[0x1f, 0x8b, 8]), flate2::read::GzDecoder::new(&g[..]).read_to_end(&mut o).is_ok(), &o[..]), (true, true, b), "gzip format");
        o = vec![];
        want!((z[0] & 15, flate2::read::ZlibDecoder::new(&z[..]).read_to_end(&mut o).is_ok(), &o[..]), (8, true, b), "zlib format");
        o = vec![];
        want!((flate2::read::DeflateDecoder::new(&d[..]).read_to_end(&mut o).is_ok(), &o[..]), (true, b), "deflate format");
        want!(Compress::un_gzip(&g[..g.len() - 1]).is_err(), true, "truncated gzip refused");
        want!(Compress::un_zlib(&z[..z.len() - 1]).is_err(), true, "truncated zlib refused");
    }
    let _ = (Compress::un_gzip(b), Compress::un_zlib(b), Compress::un_deflate(b));
    Ok(b.len() > 0)
}
fn c22_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    for n in 0..70 {
        for k in [0u8, 1, 0x41, 0xff] {
            if !f(vec![vec![k; n]]) {
                return;
            }
        }
        f(vec![(0..n as u8).collect()]);
    }
    for n in [1000, 5000, 70000] {
        f(vec![vec![b'a'; n]]);
        f(vec![(0..n).map(|i| (i * i % 251) as u8).collect()]);
    }
    for a in 0..=255u8 {
        f(vec![vec![a]]);
        f(vec![vec![b'0', a]]);
    }
}
fn c22_rand(r: &mut Rng) -> Case {
    let n = r.size();
    vec![match r.below(3) {
        0 => (0..n).map(|_| r.next() as u8).collect(),
        1 => (0..n).map(|_| b"ABcd01+/= \n"[r.below(11)]).collect(),
        _ => { let k = r.next() as u8; (0..n).map(|i| if i % 97 == 0 { r.next() as u8 } else { k }).collect() }
    }]
}

// ------------------------------------------------------------------ C14: Set-Cookie
// case: name, value, then attributes "P<path>" "D<domain>" "E<secs>" "M<max-age>" "S" "H" "X<0..2>" (round trip)
//    or "raw", texts of Set-Cookie headers
const HTTP_DATE: &str = "%a, %d %b %Y %H:%M:%S GMT";
fn c14(c: &Case) -> Verdict {
    if c.is_empty() {
        return Err("bad case".into());
    }
    if c[0] == b"raw" {
        return c14_raw(c);
    }
    if c.len() < 2 {
        return Err("bad case".into());
    }
    let clean = |t: &str| !t.contains(';') && t.trim() == t;
    let (name, value) = (s(&c[0]), s(&c[1]));
    if name.is_empty() || name.contains('=') || !clean(&name) || !clean(&value) {
        return Err("bad case".into());
    }
    let mut b = CookieBuilder::new();
    b.name_value(name.clone(), value.clone());
    let mut exp: BTreeMap<&str, Option<String>> = BTreeMap::new();
    let (mut path, mut domain, mut expires, mut max_age, mut secure, mut httponly) = (None, None, None, None, false, false);
    for a in &c[2..] {
        if a.is_empty() {
            return Err("bad case".into());
        }
        let v = s(&a[1..]);
        if !clean(&v) {
            return Err("bad case".into());
        }
        match a[0] {
            b'P' => { b.path(v.clone()); path = Some(v.clone()); exp.insert("Path", Some(v)); }
            b'D' => { b.domain(v.clone()); domain = Some(v.clone()); exp.insert("Domain", Some(v)); }
            b'E' => match v.parse::<i64>() {
                Ok(n) if n > -62_135_500_000 && n < 253_402_300_000 => {
                    let t = Time::from_secs(n);
                    b.expires(t);
                    expires = Some(t);
                    let (txt, (y, m, d)) = (c21_text(n), civil(n.div_euclid(86400)));
                    let wd = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"][n.div_euclid(86400).rem_euclid(7) as usize];
                    let mo = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"][m as usize - 1];
                    exp.insert("Expires", Some(format!("{}, {:02} {} {:04} {} GMT", wd, d, mo, y, &txt[11..])));
                }
                _ => return Err("bad case".into()),
            },
            b'M' => match v.parse::<isize>() {
                Ok(n) => { b.max_age(n); max_age = Some(n); exp.insert("Max-Age", Some(n.to_string())); }
                _ => return Err("bad case".into()),
            },
            b'S' => { b.secure(true); secure = true; exp.insert("Secure", None); }
            b'H' => { b.httponly(true); httponly = true; exp.insert("HttpOnly", None); }
            b'X' => {
                let k = v.parse::<usize>().unwrap_or(0) % 3;
                b.same_site([SameSite::None, SameSite::Strict, SameSite::Lax][k].clone());
                exp.insert("SameSite", Some(["None", "Strict", "Lax"][k].to_string()));
            }
            _ => return Err("bad case".into()),
        }
    }
    let cookie = b.build();
    if !exp.contains_key("SameSite") {
        let other = Cookie::create(name.clone(), value.clone(), path, domain, expires, max_age, secure, httponly);
        want!(other, cookie.clone(), "cookie created directly and by the builder");
    }
    let text = cookie.to_string();
    let mut parts = text.split("; ");
    want!(parts.next().unwrap(), format!("{}={}", name, value).as_str(), "name and value rendered in {:?}", text);
    let mut got: BTreeMap<String, Option<String>> = BTreeMap::new();
    for p in parts {
        let (k, v) = match p.find('=') {
            Some(i) => (p[..i].to_string(), Some(p[i + 1..].to_string())),
            None => (p.to_string(), None),
        };
        if got.insert(k, v).is_some() {
            return Err(format!("attribute rendered twice in {:?}", text));
        }
    }
    want!(got, exp.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<BTreeMap<_, _>>(), "attributes rendered in {:?}", text);
    let mut resp = Response::success();
    resp.add_set_cookie(cookie.clone());
    resp.add_set_cookie(Cookie::new("second".into(), "2".into()));
    match resp.read_set_cookies() {
        Ok(v) => want!(v, vec![cookie, Cookie::new("second".into(), "2".into())], "cookies read back from {:?}", text),
        Err(e) => return Err(format!("{:?} refused when read back: {}", text, e)),
    }
    Ok(c.len() > 2)
}
fn c14_raw(c: &Case) -> Verdict {
    let mut resp = Response::success();
    let mut exp: Option<Vec<Cookie>> = Some(vec![]);
    for t in &c[1..] {
        let t = s(t);
        resp.add_header_str("Set-Cookie", &t);
        let mut b = CookieBuilder::new();
        let (mut path, mut domain, mut expires, mut max_age, mut site) = (None, None, None, None, None);
        let mut bad = false;
        for (i, p) in t.split(';').enumerate() {
            let p = p.trim();
            let (k, v) = match p.find('=') {
                Some(i) => (p[..i].to_string(), Some(p[i + 1..].to_string())),
                None => (p.to_string(), None),
            };
            if i == 0 {
                if let Some(v) = v {
                    b.name_value(k, v);
                }
                continue;
            }
            // blanks around '=' and non-ASCII names are not covered by the property
            if k.trim() != k || !k.is_ascii() || v.as_ref().map(|v| v.trim() != v).unwrap_or(false) {
                return Err("bad case".into());
            }
            match k.to_ascii_lowercase().as_str() {
                "path" => path = v,
                "domain" => domain = v,
                "max-age" => max_age = v.map(|v| match v.parse::<isize>() { Ok(n) => n, Err(_) => { bad = true; 0 } }),
                "expires" => expires = v.map(|v| match Time::parse_from_str(&v, HTTP_DATE) { Ok(n) => n, Err(_) => { bad = true; Time::from_secs(0) } }),
                "secure" => { b.secure(true); }
                "httponly" => { b.httponly(true); }
                "samesite" => site = v.and_then(|v| match v.to_ascii_lowercase().as_str() {
                    "none" => Some(SameSite::None),
                    "strict" => Some(SameSite::Strict),
                    "lax" => Some(SameSite::Lax),
                    _ => None,
                }),
                _ => {}
            }
        }
        if let Some(x) = path { b.path(x); }
        if let Some(x) = domain { b.domain(x); }
        if let Some(x) = expires { b.expires(x); }
        if let Some(x) = max_age { b.max_age(x); }
        if let Some(x) = site { b.same_site(x); }
        if bad { exp = None } else if let Some(e) = exp.as_mut() { e.push(b.build()) }
    }
    let nt = exp.is_some();
    want!(resp.read_set_cookies().ok(), exp, "cookies read from {:?}", c[1..].iter().map(|x| s(x)).collect::<Vec<_>>());
    Ok(nt)
}
fn c14_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let at = ["P/", "P", "P/a=b", "Dexample.com", "E0", "E1638959874", "E253402300799", "E-3600", "M0", "M-1", "M3600", "S", "H", "X0", "X1", "X2"];
    for (n, v) in [("a", "b"), ("sid", ""), ("k", "v=w=="), ("Path", "x"), ("secure", "y"), ("é", "ü ö")] {
        let mut go = true;
        sequences(at.len(), if tier > 0 { 3 } else { 2 }, &mut |ix| {
            let mut c: Case = vec![n.as_bytes().to_vec(), v.as_bytes().to_vec()];
            c.extend(ix.iter().map(|i| at[*i].as_bytes().to_vec()));
            go = f(c);
            go
        });
        if !go {
            return;
        }
    }
    let parts = ["a=b", "a", "a=b=c", " Path=/x", "pAtH=/", "path", "; Secure", "HTTPONLY", "secure=1", "Max-Age=10", "max-age=x", "Max-Age",
        "SameSite=None", "samesite=LAX", "SameSite=strict", "SameSite=foo", "SameSite", "Domain=d", "Version=1", "", " ",
        "Expires=Wed, 08 Dec 2021 10:37:54 GMT", "expires=x", "Expires=Fri, 31 Dec 9999 23:59:59 GMT", "Expires=Thu, 01 Jan 1970 00:00:00 GMT"];
    sequences(parts.len(), if tier > 0 { 4 } else { 3 }, &mut |ix| {
        f(vec![b"raw".to_vec(), ix.iter().map(|i| parts[*i]).collect::<Vec<_>>().join(";").into_bytes()])
    });
}
fn c14_rand(r: &mut Rng) -> Case {
    let al = ["a", "b", "/", "-", "=", "é", "x y", ".", ",", "\""];
    if r.chance(1, 3) {
        let mut c = vec![b"raw".to_vec()];
        for _ in 0..1 + r.below(2) {
            let mut t = r.word(&["a", "b", "=", " "], 4);
            for _ in 0..r.below(6) {
                t.push(';');
                t.push_str(r.pick(&["", " ", "  "]));
                t.push_str(r.pick(&["Path", "path", "DOMAIN", "Secure", "httpOnly", "Max-Age", "SameSite", "Expires", "foo", ""]));
                t.push_str(r.pick(&["", "=", "=/", "=5", "=-7", "=Lax", "=none", "=Strict", "=Sun, 06 Nov 1994 08:49:37 GMT", "=a=b", "=3.5"]));
            }
            c.push(t.into_bytes());
        }
        return c;
    }
    let mut c = vec![r.word(&["a", "b", "-", "é", "Path"], 4).into_bytes(), r.word(&al, 5).into_bytes()];
    for _ in 0..r.below(5) {
        c.push(match r.below(7) {
            0 => format!("P{}", r.word(&al, 4)),
            1 => format!("D{}", r.word(&al, 3)),
            2 => format!("E{}", (r.next() % 253_402_300_000) as i64 - 2_000_000_000),
            3 => format!("M{}", r.next() as i64 >> r.below(60)),
            4 => "S".into(),
            5 => "H".into(),
            _ => format!("X{}", r.below(3)),
        }.into_bytes())
    }
    c
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", rule: "histories of set/add/del/insert operations; every query is compared with a plain map after each; non-trivial: two or more operations", enumerate: c08_enum, random: c08_rand, check: c08, threads: 6, spice: true },
        Prop { id: "C14", rule: "a cookie with any set of attributes rendered and read back, or raw Set-Cookie texts; non-trivial: at least one attribute, or accepted", enumerate: c14_enum, random: c14_rand, check: c14, threads: 6, spice: true },
        Prop { id: "C18", rule: "every known media type, its prefixes and neighbours, multipart boundaries; non-trivial: not the fallback type", enumerate: c18_enum, random: c18_rand, check: c18, threads: 4, spice: true },
        Prop { id: "C19", rule: "every 16-bit code; non-trivial: a registered one", enumerate: c19_enum, random: c19_rand, check: c19, threads: 4, spice: true },
        Prop { id: "C20", rule: "method and version tokens and all their one-byte neighbours; non-trivial: a token", enumerate: c20_enum, random: c20_rand, check: c20, threads: 4, spice: true },
        Prop { id: "C21", rule: "histories of additions and subtractions in eight units; non-trivial: a non-zero instant", enumerate: c21_enum, random: c21_rand, check: c21, threads: 6, spice: true },
        Prop { id: "C22", rule: "byte strings through the base64, hex, gzip, zlib and deflate codecs; non-trivial: not empty", enumerate: c22_enum, random: c22_rand, check: c22, threads: 8, spice: true },
    ]
}
