//! properties of the server's request and response path, through the guarded hooks
use crate::pa::{method, want, STATUS};
use crate::util::*;
use crate::{Case, Prop, Rng, Verdict};
use starry::header::{AcceptEncoding, ContentType};
use starry::verif_hooks as hk;
use starry::{Context, Requester, Response, Status, Version};
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Mutex, OnceLock};

pub const METHODS: [&str; 12] = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];
static SINK: Mutex<u64> = Mutex::new(0);
fn h<const N: u64>(_: &mut Context) {
    *SINK.lock().unwrap() += N
}
pub fn handlers() -> [fn(&mut Context); 16] {
    [h::<1>, h::<2>, h::<3>, h::<4>, h::<5>, h::<6>, h::<7>, h::<8>, h::<9>, h::<10>, h::<11>, h::<12>, h::<13>, h::<14>, h::<15>, h::<16>]
}
fn hindex(f: fn(&mut Context)) -> Option<usize> {
    handlers().iter().position(|g| *g as usize == f as usize)
}
macro_rules! register {
    ($r:expr, $m:expr, $p:expr, $f:expr) => {
        match $m {
            "OPTIONS" => $r.option($p, $f),
            "GET" => $r.get($p, $f),
            "POST" => $r.post($p, $f),
            "PUT" => $r.put($p, $f),
            "DELETE" => $r.delete($p, $f),
            "HEAD" => $r.head($p, $f),
            "TRACE" => $r.trace($p, $f),
            "CONNECT" => $r.connect($p, $f),
            "PATCH" => $r.patch($p, $f),
            "LINK" => $r.link($p, $f),
            "UNLINK" => $r.unlink($p, $f),
            _ => $r.pri($p, $f),
        }
    };
}

// ------------------------------------------------------------------ C01: routing
// items: "R<METHOD> <group> <pattern>" and "F<METHOD> <path>"
struct Reg {
    method: String,
    keys: Vec<String>,
    names: Vec<Option<String>>,
    handler: usize,
}
fn split_pattern(p: &str) -> (Vec<String>, Vec<Option<String>>) {
    p[1..].split('/').map(|x| match x.strip_prefix(':') {
        Some(n) => ("?".to_string(), Some(n.to_string())),
        None => (x.to_string(), None),
    }).unzip()
}
fn best<'a>(regs: &'a [Reg], m: &str, path: &str) -> Option<&'a Reg> {
    if !path.starts_with('/') {
        return None;
    }
    let segs: Vec<&str> = path[1..].split('/').collect();
    let of: Vec<&Reg> = regs.iter().filter(|r| r.method == m).collect();
    let mut cands: Vec<&Reg> = of.iter().cloned().filter(|r| r.keys.len() == segs.len()
        && r.names.iter().zip(&r.keys).zip(&segs).all(|((n, k), s)| n.is_some() || k == s)).collect();
    // among several the one whose first differing segment was registered first
    let mut depth = 0;
    while cands.len() > 1 {
        let prefix = cands[0].keys[..depth].to_vec();
        let first = of.iter().filter(|r| r.keys.len() > depth && r.keys[..depth] == prefix[..])
            .map(|r| r.keys[depth].clone()).find(|k| cands.iter().any(|c| c.keys[depth] == *k)).unwrap();
        cands.retain(|c| c.keys[depth] == first);
        depth += 1
    }
    cands.into_iter().next()
}
fn c01(c: &Case) -> Verdict {
    let routes = hk::Routes::new();
    let mut regs: Vec<Reg> = vec![];
    let hs = handlers();
    let mut fetched = false;
    for item in c {
        let t = s(item);
        if !t.starts_with(['R', 'F']) {
            return Err("bad case".into());
        }
        let p: Vec<&str> = t[1..].split(' ').collect();
        match (&t[..1], p.len()) {
            ("R", 3) if METHODS.contains(&p[0]) => {
                let full = format!("{}{}", p[1], p[2]);
                if full.split('/').any(|x| x == "?") || regs.len() >= 16 {
                    return Err("bad case".into());
                }
                let n = regs.len();
                let done = catch_unwind(AssertUnwindSafe(|| register!(routes.router(p[1]), p[0], p[2], hs[n]))).is_ok();
                let legal = full.starts_with('/') && {
                    let keys = split_pattern(&full).0;
                    !regs.iter().any(|r| r.method == p[0] && r.keys == keys)
                };
                want!(done, legal, "registration of {} {:?} accepted", p[0], full);
                if !done {
                    // the registry is no longer usable after a refused registration
                    return Ok(fetched);
                }
                let (keys, names) = split_pattern(&full);
                regs.push(Reg { method: p[0].into(), keys, names, handler: n });
            }
            ("F", 2) if METHODS.contains(&p[0]) => {
                if p[1].split('/').any(|x| x == "?") {
                    return Err("bad case".into());
                }
                let expected = best(&regs, p[0], p[1]);
                let judge = |what: &str, got: Option<(fn(&mut Context), HashMap<String, String>)>| -> Result<(), String> {
                    match (got, expected) {
                        (None, None) => Ok(()),
                        (Some((f, fields)), Some(r)) => {
                            want!(hindex(f), Some(r.handler), "handler of {} {} {:?}", what, p[0], p[1]);
                            let mut exp: HashMap<&str, Vec<&str>> = HashMap::new();
                            for (n, v) in r.names.iter().zip(p[1][1..].split('/')) {
                                if let Some(n) = n {
                                    exp.entry(n).or_default().push(v)
                                }
                            }
                            let ok = fields.len() == exp.len() && fields.iter().all(|(k, v)| exp.get(k.as_str()).map(|e| e.contains(&v.as_str())).unwrap_or(false));
                            if !ok {
                                return Err(format!("parameters of {} {} {:?}: got {:?}, expected {:?}", what, p[0], p[1], fields, exp));
                            }
                            Ok(())
                        }
                        (g, e) => Err(format!("{} {} {:?}: handler {:?}, expected {:?}", what, p[0], p[1], g.map(|g| hindex(g.0)), e.map(|e| e.handler))),
                    }
                };
                fetched |= expected.is_some();
                judge("fetch", hk::Routes::fetch(&routes, p[1], method(p[0]).unwrap()))?;
                // the same through a request that names this path
                if !p[1].is_empty() && !p[1].contains(|x: char| "?#\r\n".contains(x)) {
                    let (mock, out) = Mock::new(format!("{} {} HTTP/1.1\r\nHost: h\r\n\r\n", p[0], p[1]).into_bytes(), vec![]);
                    let got = hk::request(mock, &routes, ("1.2.3.4", 5678), ("10.0.0.1", 80));
                    if got.is_err() {
                        refused(&out.lock().unwrap().clone(), 404)?
                    }
                    judge("request", got.ok().map(|g| (g.1, g.2)))?;
                }
            }
            _ => return Err("bad case".into()),
        }
    }
    Ok(fetched)
}
fn c01_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let pats = ["/", "/a", "/:x", "/a/b", "/a/:y", "/:x/b", "/:x/:y", "/a/b/c", "/a/:z/c", "/a/"];
    let paths = ["/", "/a", "/b", "/a/b", "/a/c", "/c/b", "/c/d", "/a/b/c", "/a/d/c", "/a/", "//b", "a", "", "/a/b/c/d", "/:x", "/a/b/d"];
    let fetches: Vec<Vec<u8>> = paths.iter().flat_map(|p| [format!("FGET {}", p).into_bytes(), format!("FPOST {}", p).into_bytes()]).collect();
    let mut go = true;
    sequences(pats.len(), if tier > 0 { 4 } else { 3 }, &mut |v| {
        let mut c: Case = v.iter().map(|i| format!("RGET  {}", pats[*i]).into_bytes()).collect();
        c.extend(fetches.clone());
        go = f(c);
        go
    });
    if !go {
        return;
    }
    // every method has its own routes
    for m in METHODS {
        let mut c: Case = vec![format!("R{} /g /x/:id", m).into_bytes()];
        for o in METHODS {
            c.push(format!("F{} /g/x/7", o).into_bytes())
        }
        f(c);
    }
    for (g, p) in [("/m/n", "/a"), ("/:g", "/a"), ("/m", "a"), ("m", "/a"), ("", "a"), ("/m/", "a"), ("/m", ""), ("", "")] {
        f(vec![format!("RPUT {} {}", g, p).into_bytes(), b"FPUT /m/n/a".to_vec(), b"FPUT /m/a".to_vec(), b"FPUT /ma".to_vec(), b"FPUT /m".to_vec(), b"FPUT m/a".to_vec()]);
    }
}
fn c01_rand(r: &mut Rng) -> Case {
    let mut c = vec![];
    let seg = ["a", "b", "", "c", ":x", ":y", ":", "é", "Ab", "a.b", "a+b", "%41", "*", ":A", "..", "."];
    let mk = |r: &mut Rng, n: usize, set: &[&str]| -> String { (0..n).map(|_| format!("/{}", r.pick(set))).collect() };
    let ms = ["GET", "GET", "POST", "PRI", "LINK", "HEAD", "UNLINK", "PUT"];
    let mut pats: Vec<(&str, String)> = vec![];
    for _ in 0..2 + r.below(9) {
        let (g, n) = (r.below(2), if r.chance(1, 25) { 4 + r.below(67) } else { 1 + r.below(3) });
        let (m, g, p) = (r.pick(&ms), mk(r, g, &seg), mk(r, n, &seg));
        pats.push((m, format!("{}{}", g, p)));
        c.push(format!("R{} {} {}", m, g, p).into_bytes());
    }
    for _ in 0..6 {
        let n = 1 + r.below(4);
        c.push(format!("F{} {}", r.pick(&ms), mk(r, n, &["a", "b", "c", "", "d", "é", ":x", "x.y"])).into_bytes());
    }
    // paths that fit a pattern, or nearly do
    for _ in 0..8 {
        let (m, p) = &pats[r.below(pats.len())];
        let mut q: Vec<String> = p[1..].split('/').map(|x| if x.starts_with(':') {
            match r.below(6) {
                0 => String::new(),
                1 => format!("{}{}", r.pick(crate::ODD), r.pick(crate::ODD)),
                2 => format!("a{}b", r.pick(crate::ODD)),
                3 => "x".repeat(1 + r.below(40)),
                _ => r.pick(&["a", "b", "7", "A", "a.b", "null", "é", "index.html", "-1"]).to_string(),
            }
        } else {
            x.to_string()
        }).collect();
        let k = r.below(q.len());
        match r.below(9) {
            0 => q[k] = q[k].to_uppercase(),
            1 => q[k] = q[k].to_lowercase(),
            2 => q.push(String::new()),
            3 => q.insert(k, r.pick(&["", ".", ".."]).to_string()),
            4 => { q.remove(k); }
            5 => q[k].push_str(r.pick(crate::ODD)),
            _ => {}
        }
        let m = if r.chance(1, 6) { r.pick(&ms) } else { *m };
        let t = q.join("/").replace(|x: char| " \r\n".contains(x), "_");
        c.push(format!("F{} /{}", m, t).into_bytes());
    }
    c
}

// ------------------------------------------------------------------ a model of what a server makes of a request
pub type Target = (String, BTreeMap<String, String>, Option<String>);
/// the request target: '#' ends the query, '?' ends the path
pub fn target(t: &[u8]) -> Target {
    let (t, fragment) = match t.iter().position(|b| *b == b'#') {
        Some(i) => (&t[..i], Some(s(&t[i + 1..]))),
        None => (t, None),
    };
    let (p, q) = match t.iter().position(|b| *b == b'?') {
        Some(i) => (&t[..i], &t[i + 1..]),
        None => (t, &t[..0]),
    };
    (s(p), pairs(q).into_iter().map(|(k, v)| (s(&k), s(&v))).collect(), fragment)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Accepted {
    pub method: String,
    pub target: Target,
    pub version: String,
    pub route: usize,
    pub headers: BTreeMap<String, String>,
    pub userinfo: Option<(String, String)>,
    pub cookies: Vec<(String, String)>,
    pub encoding: Option<&'static str>,
    pub close: bool,
    pub body: Vec<u8>,
    pub length: Option<isize>,
}
#[derive(Debug)]
pub enum Model {
    Empty,
    /// not covered by the properties
    Open,
    Reject(u16),
    Accept(Accepted),
}
fn unb64(t: &str) -> Option<Vec<u8>> {
    let al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let body = t.trim_end_matches('=');
    let mut out = vec![];
    let (mut acc, mut n) = (0u32, 0);
    for ch in body.chars() {
        acc = acc << 6 | al.find(ch)? as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
            acc &= (1 << n) - 1
        }
    }
    if b64(&out) == t { Some(out) } else { None }
}
/// Ok: credentials, Err: must be refused
pub fn basic(t: &str) -> Result<(String, String), ()> {
    if t.len() < 6 || !t.as_bytes()[..6].eq_ignore_ascii_case(b"Basic ") {
        return Err(());
    }
    let b = match unb64(&t[6..]) {
        Some(b) => b,
        // anything but the base64 of some bytes must be refused
        None => return Err(()),
    };
    match b.iter().position(|x| *x == b':') {
        Some(i) if i > 0 => match (String::from_utf8(b[..i].to_vec()), String::from_utf8(b[i + 1..].to_vec())) {
            (Ok(u), Ok(p)) => Ok((u, p)),
            _ => Err(()),
        },
        _ => Err(()),
    }
}
pub fn best_encoding(t: &str) -> Option<&'static str> {
    let items: Vec<&str> = t.split(',').map(|x| x.trim()).collect();
    ["gzip", "deflate", "zlib"].iter().find(|e| items.contains(e)).cloned()
}
fn cookie_list(values: &[String], filter: &str) -> Result<Vec<(String, String)>, ()> {
    let mut v = vec![];
    for t in values {
        for p in t.trim().split(';') {
            let p = p.trim();
            let i = p.find('=').ok_or(())?;
            if filter.is_empty() || &p[..i] == filter {
                v.push((p[..i].to_string(), p[i + 1..].to_string()))
            }
        }
    }
    Ok(v)
}
/// routes of the test server, in order of registration: "/", "/a", "/a/:id", "/:x/y" for every method, "/get" for GET alone
fn test_route(m: &str, path: &str) -> Option<usize> {
    if !path.starts_with('/') {
        return None;
    }
    let g: Vec<&str> = path[1..].split('/').collect();
    match (g.len(), g[0]) {
        (1, "") => Some(0),
        (1, "a") => Some(1),
        (1, "get") if m == "GET" => Some(4),
        (2, "a") => Some(2),
        (2, _) if g[1] == "y" => Some(3),
        _ => None,
    }
}
fn test_routes() -> &'static hk::Routes {
    static R: OnceLock<hk::Routes> = OnceLock::new();
    R.get_or_init(|| {
        let r = hk::Routes::new();
        for (i, p) in ["/", "/a", "/a/:id", "/:x/y"].iter().enumerate() {
            for m in METHODS {
                r.add(p, method(m).unwrap(), handlers()[i])
            }
        }
        r.add("/get", method("GET").unwrap(), handlers()[4]);
        r
    })
}
pub fn model(msg: &[u8]) -> Model {
    if msg.is_empty() {
        return Model::Empty;
    }
    // request line
    let end = msg.iter().position(|b| *b == b'\r' || *b == b'\n').unwrap_or(msg.len());
    let line = &msg[..end];
    let parts: Vec<&[u8]> = line.split(|b| *b == b' ').collect();
    if parts.len() > 1 && parts[0].is_empty() {
        return Model::Open;
    }
    let m = s(parts[0]);
    if parts.len() > 1 && !METHODS.contains(&m.as_str()) {
        return Model::Reject(405);
    }
    if parts.len() != 3 || end == msg.len() {
        return Model::Reject(400);
    }
    let version = s(parts[2]);
    if version != "HTTP/1.0" && version != "HTTP/1.1" {
        return Model::Reject(505);
    }
    let start = match (msg[end], msg.get(end + 1)) {
        (b'\n', _) => end + 1,
        (_, Some(b'\n')) => end + 2,
        _ => return Model::Reject(400),
    };
    let tg = target(parts[1]);
    let route = match test_route(&m, &tg.0) {
        Some(r) => r,
        None => return Model::Reject(404),
    };
    let (hs, off) = header_block(&msg[start..]);
    let rest = &msg[start + off..];
    let mut a = Accepted {
        method: m.clone(), target: tg, version, route, headers: hs.iter().cloned().collect(), userinfo: None, cookies: vec![], encoding: None,
        close: last_of(&hs, "Connection").map(|v| v != "keep-alive").unwrap_or(true), body: vec![], length: None,
    };
    if let Some(v) = last_of(&hs, "Authorization") {
        match basic(v) {
            Ok(u) => a.userinfo = Some(u),
            Err(()) => return Model::Reject(400),
        }
    }
    if last_of(&hs, "Host").is_none() {
        return Model::Reject(417);
    }
    a.encoding = last_of(&hs, "Accept-Encoding").and_then(|v| best_encoding(v));
    if let Some(v) = last_of(&hs, "Cookie") {
        match cookie_list(&[v.clone()], "") {
            Ok(v) => a.cookies = v,
            Err(()) => return Model::Reject(400),
        }
    }
    if ["PATCH", "PUT", "POST"].contains(&m.as_str()) {
        match last_of(&hs, "Content-Length") {
            None => {}
            Some(v) => match v.parse::<isize>() {
                Ok(n) if n >= 0 => {
                    a.body = rest[..(n as usize).min(rest.len())].to_vec();
                    a.length = Some(n)
                }
                Ok(-1) => a.body = rest.to_vec(),
                _ => return Model::Reject(411),
            },
        }
    }
    Model::Accept(a)
}
/// a response as written to a stream: version, code, phrase, header lines, body
pub fn response(out: &[u8]) -> Result<(String, u16, String, Vec<(String, String)>, Vec<u8>), String> {
    let bad = |w: &str| Err(format!("{}: {:?}", w, s(out)));
    let end = match out.windows(4).position(|w| w == b"\r\n\r\n") {
        Some(i) => i,
        None => return bad("no complete head"),
    };
    let head = s(&out[..end]);
    let mut lines = head.split("\r\n");
    let first: Vec<&str> = lines.next().unwrap().splitn(3, ' ').collect();
    if first.len() != 3 {
        return bad("malformed status line");
    }
    let code = match first[1].parse::<u16>() {
        Ok(c) => c,
        Err(_) => return bad("malformed status code"),
    };
    let mut hs = vec![];
    for l in lines {
        match l.find(": ") {
            Some(i) => hs.push((l[..i].to_string(), l[i + 2..].to_string())),
            None => return bad("malformed header line"),
        }
    }
    Ok((first[0].into(), code, first[2].into(), hs, out[end + 4..].to_vec()))
}
pub fn phrase(code: u16) -> Option<&'static str> {
    STATUS.iter().find(|x| x.0 == code && x.0 != 0).map(|x| x.1)
}
/// the stream must carry exactly one bodiless response of the given status
fn refused(out: &[u8], code: u16) -> Result<(), String> {
    let (v, c, p, _, body) = response(out)?;
    want!(c, code, "status of the refusal");
    want!(Some(p.as_str()), phrase(code), "reason phrase of the refusal");
    if !(v == "HTTP/1.0" || v == "HTTP/1.1") || !body.is_empty() {
        return Err(format!("malformed refusal {:?}", s(out)));
    }
    Ok(())
}
type Got = (Requester<Mock>, fn(&mut Context), HashMap<String, String>);
pub fn parse(msg: &[u8], chunks: &[u8]) -> (Result<Got, String>, std::sync::Arc<Mutex<Vec<u8>>>) {
    let (mock, out) = Mock::new(msg.to_vec(), chunks_of(chunks));
    (hk::request(mock, test_routes(), ("1.2.3.4", 5678), ("10.0.0.1", 80)), out)
}
const LINE: u32 = 1;
const HEAD: u32 = 2;
const BODY: u32 = 4;
const QUERY: u32 = 8;
const USER: u32 = 16;
const COOKIE: u32 = 32;
const ENC: u32 = 64;
const CLOSE: u32 = 128;
/// items: message, chunk sizes
fn facets(c: &Case, mask: u32, codes: &[u16]) -> Verdict {
    if c.is_empty() {
        return Err("bad case".into());
    }
    let msg = &c[0];
    let m = model(msg);
    let (got, out) = parse(msg, c.get(1).map(|x| &x[..]).unwrap_or(b""));
    let out = out.lock().unwrap().clone();
    match (m, got) {
        (Model::Open, _) => Ok(false),
        (Model::Empty, Err(_)) => {
            want!(out.len(), 0, "bytes written to a peer that sent nothing");
            Ok(false)
        }
        (Model::Empty, Ok(_)) => Err("a request out of nothing".into()),
        (Model::Reject(code), Err(_)) => {
            if codes.contains(&code) {
                refused(&out, code)?;
                return Ok(true);
            }
            Ok(false)
        }
        (Model::Reject(code), Ok((mut r, _, _))) => {
            if codes.contains(&code) {
                return Err(format!("request accepted, expected status {}; its body is {:?}", code, s(&r.body())));
            }
            Ok(false)
        }
        (Model::Accept(_), Err(e)) => Err(format!("request refused ({}), answer {:?}", e, s(&out))),
        (Model::Accept(a), Ok((mut r, f, fields))) => {
            want!(out.len(), 0, "bytes written for an accepted request");
            let req = hk::request_of(&r);
            if mask & LINE != 0 {
                want!(r.method().as_str(), a.method.as_str(), "method");
                want!(r.path(), a.target.0.clone(), "path");
                want!(r.version().to_string(), a.version, "version");
                want!(hindex(f), Some(a.route), "handler");
                let segs: Vec<&str> = a.target.0[1..].split('/').collect();
                let exp: HashMap<String, String> = match a.route {
                    2 => HashMap::from([("id".to_string(), segs[1].to_string())]),
                    3 => HashMap::from([("x".to_string(), segs[0].to_string())]),
                    _ => HashMap::new(),
                };
                want!(fields, exp, "path parameters");
                want!((r.client().host(), r.client().port()), ("1.2.3.4".to_string(), 5678), "client address");
                want!((r.addr().host(), r.addr().port()), ("10.0.0.1".to_string(), 80), "local address");
            }
            if mask & HEAD != 0 {
                want!(r.header().map().into_iter().collect::<BTreeMap<_, _>>(), a.headers.iter().map(|(k, v)| (k.clone(), vec![v.clone()])).collect(), "header fields");
                want!(hk::request_host(&req), a.headers["Host"].clone(), "host");
                want!(r.content_type().map(|c| c.as_str().to_string()), a.headers.get("Content-Type").map(|t| ContentType::from_str(t).as_str().to_string()), "content type");
            }
            if mask & BODY != 0 {
                if let Some(n) = a.length {
                    if n > 0 {
                        want!(hk::request_content_length(&req), n, "content length");
                    }
                }
                let b = r.body();
                if b != a.body {
                    return Err(format!("body has {} bytes {:?}, expected {} bytes {:?}", b.len(), cut(&b), a.body.len(), cut(&a.body)));
                }
            }
            if mask & QUERY != 0 {
                let l = r.location();
                want!(l.query().map().into_iter().collect::<BTreeMap<_, _>>(), a.target.1.iter().map(|(k, v)| (k.clone(), vec![v.clone()])).collect(), "query");
                want!(l.fragment(), a.target.2, "fragment");
                for (k, v) in a.target.1.iter() {
                    want!(r.param_value(k.as_str()), Some(v.clone()), "parameter {:?}", k);
                    want!(r.have_param_value(k.as_str()), true, "presence of parameter {:?}", k);
                    for n in near(k) {
                        want!((r.param_value(n.as_str()), r.have_param_value(n.as_str())), (a.target.1.get(&n).cloned(), a.target.1.contains_key(&n)), "parameter {:?}", n);
                    }
                }
                want!(r.count_param_value(), a.target.1.len(), "number of parameters");
            }
            if mask & USER != 0 {
                want!(r.userinfo().map(|u| (u.username(), u.password())), a.userinfo, "credentials");
            }
            if mask & COOKIE != 0 {
                let g: Vec<(String, String)> = r.cookies().iter().map(|c| hk::cookie_pair(c)).collect();
                want!(g, a.cookies.clone(), "cookies");
                for k in a.cookies.iter().flat_map(|x| { let mut v = near(&x.0); v.push(x.0.clone()); v }).collect::<Vec<_>>().iter() {
                    want!(r.cookie_get(k).map(|c| hk::cookie_pair(&c)), a.cookies.iter().find(|x| x.0 == **k).cloned(), "cookie {:?}", k);
                }
                want!(r.cookie_get("no such").is_none(), !a.cookies.iter().any(|x| x.0 == "no such"), "a cookie that was not sent");
            }
            if mask & ENC != 0 {
                want!(enc_name(&r.accept_encoding()), a.encoding.unwrap_or(""), "content coding");
            }
            if mask & CLOSE != 0 {
                want!(hk::request_close(&req), a.close, "connection closed after the response");
            }
            Ok(true)
        }
    }
}
/// names close to a name: another case, a letter more, a letter less, blanks around
fn near(k: &str) -> Vec<String> {
    let mut v = vec![k.to_lowercase(), k.to_uppercase(), format!("{}a", k), format!("a{}", k), format!(" {}", k), format!("{} ", k), k.trim().to_string(), String::new()];
    if let Some((i, _)) = k.char_indices().last() {
        v.push(k[..i].to_string());
        v.push(k.chars().skip(1).collect());
    }
    v
}
fn cut(b: &[u8]) -> String {
    s(&b[..b.len().min(60)])
}
fn enc_name(e: &AcceptEncoding) -> &'static str {
    match e {
        AcceptEncoding::GZip => "gzip",
        AcceptEncoding::Deflate => "deflate",
        AcceptEncoding::Br => "br",
        AcceptEncoding::ZLib => "zlib",
        AcceptEncoding::None => "",
    }
}

// ------------------------------------------------------------------ C03: request line
fn c03(c: &Case) -> Verdict {
    facets(c, LINE, &[400, 404, 405, 505, 417])
}
fn c03_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let pieces: [&[u8]; 9] = [b"GET", b" ", b"/a", b"HTTP/1.1", b"\r", b"\n", b"x", b"HTTP/1.0", b"?k=v"];
    let tails: [&[u8]; 3] = [b"Host: h\r\n\r\n", b"\r\n", b""];
    for m in METHODS.iter().chain(["get", "FOO", "GETX", "GE"].iter()) {
        for t in ["/", "/a", "/a/b", "/q/y", "/get", "/nope", "/a/b/c", "*", "a", "http://h/a", "?x", "/a?x#y", "/a/", "//y"] {
            for v in ["HTTP/1.1", "HTTP/1.0", "HTTP/2.0", "HTTP/1.1 ", "http/1.1", "", "HTTP/1.11", "HTTP/0.9"] {
                for e in ["\r\n", "\n", "\r", "\r\r\n", " \r\n", "\rx\n"] {
                    let mut l = format!("{} {} {}{}", m, t, v, e).into_bytes();
                    l.extend_from_slice(tails[0]);
                    if !f(vec![l, b"".to_vec()]) {
                        return;
                    }
                }
            }
        }
    }
    sequences(pieces.len(), if tier > 0 { 7 } else { 6 }, &mut |v| {
        let mut l: Vec<u8> = vec![];
        for i in v {
            l.extend_from_slice(pieces[*i])
        }
        tails.iter().take(if tier > 0 { 3 } else { 1 }).all(|t| {
            let mut m = l.clone();
            m.extend_from_slice(t);
            f(vec![m, b"".to_vec()])
        })
    });
    // a long target arriving in several reads
    for n in [900, 1000, 1010, 1020, 1024, 1030, 2040, 5000] {
        for t in ["/a/", "/a?k="] {
            let m = format!("GET {}{} HTTP/1.1\r\nHost: h\r\n\r\n", t, "z".repeat(n)).into_bytes();
            for ch in ["", "1", "1000", "10,100000"] {
                f(vec![m.clone(), ch.as_bytes().to_vec()]);
            }
        }
    }
}
fn c03_rand(r: &mut Rng) -> Case {
    let mut l = vec![];
    l.extend_from_slice(METHODS[r.below(12)].as_bytes());
    l.push(b' ');
    for _ in 0..r.below(4) {
        l.extend_from_slice(r.pick(&["/", "/a", "/y", "?", "#", "a=b", "&", "/get", "é", "%20", ".."]).as_bytes())
    }
    if r.chance(1, 8) {
        let n = r.size();
        l.extend(vec![b'/'; 1]);
        l.extend(vec![b'n'; n]);
    }
    l.push(b' ');
    l.extend_from_slice(r.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/1.1", "HTTP/1.2"]).as_bytes());
    l.extend_from_slice(r.pick(&["\r\n", "\r\n", "\n"]).as_bytes());
    for _ in 0..r.below(3) {
        let i = r.below(l.len() + 1);
        match r.below(4) {
            0 => l.insert(i, b" \r\n\t\0\xff/x"[r.below(8)]),
            1 if i < l.len() => { l.remove(i); }
            _ => {}
        }
    }
    l.extend_from_slice(r.pick(&["Host: h\r\n\r\n", "Host: h\r\nX-A: b\r\n\r\n", "X: y\r\n\r\n", "Host: h", "Host:\r\n\r\n", "\r\n"]).as_bytes());
    let ch = rand_chunks(r, l.len());
    vec![l, ch]
}

// ------------------------------------------------------------------ C04: header block
fn with_head(r: &mut Rng, line: &str, lines: &[String]) -> Case {
    let mut m = String::from(line);
    for l in lines {
        m.push_str(l);
        m.push_str(if r.chance(1, 10) { "\n" } else { "\r\n" })
    }
    m.push_str("\r\n");
    let ch = rand_chunks(r, m.len());
    vec![m.into_bytes(), ch]
}
fn c04(c: &Case) -> Verdict {
    facets(c, HEAD, &[417])
}
fn c04_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let pieces: [&[u8]; 10] = [b"A", b":", b" ", b"\r\n", b"\n", b"\t", b"\r", b"Host", b"b:c", b"\xc3\xa9"];
    sequences(pieces.len(), if tier > 0 { 6 } else { 5 }, &mut |v| {
        let mut m = b"GET / HTTP/1.1\r\nHost: h\r\n".to_vec();
        for i in v {
            m.extend_from_slice(pieces[*i])
        }
        let a = m.clone();
        m.extend_from_slice(b"\r\n\r\n");
        f(vec![m, b"".to_vec()]) && f(vec![a, b"".to_vec()])
    });
    for n in [950, 960, 970, 980, 990, 1000, 1024, 2000, 9000] {
        for ch in ["", "1", "1023", "30,100000"] {
            f(vec![format!("GET / HTTP/1.1\r\nX-Long: {}\r\nHost: h\r\nX-After: 1\r\n\r\n", "v".repeat(n)).into_bytes(), ch.as_bytes().to_vec()]);
        }
    }
}
fn c04_rand(r: &mut Rng) -> Case {
    let mut lines = vec![];
    for _ in 0..r.below(9) {
        let mut l = r.pick(&["Host", "X-A", "x-a", "Content-Type", "User-Agent", "", "é", "Accept-Encoding", "Upgrade", " X"]).to_string();
        l.push_str(r.pick(&[":", ": ", ":  ", ":\t", "", " : ", ": :"]));
        l.push_str(&r.word(&["a", "b", ":", " ", "\t", "=", ";", "ü", "text/html", "http://x:1/y", "\u{1}"], 5));
        if r.chance(1, 20) {
            let n = r.size();
            l.push_str(&"w".repeat(n));
        }
        lines.push(l);
    }
    if r.chance(9, 10) {
        let i = r.below(lines.len() + 1);
        lines.insert(i, "Host: example.com".into())
    }
    let mut c = with_head(r, "GET /a HTTP/1.1\r\n", &lines);
    for _ in 0..r.below(2) {
        let i = r.below(c[0].len());
        c[0][i] = [0xff, b':', b' ', b'\r', b'\n', 0xc3][r.below(6)]
    }
    if r.chance(1, 8) {
        let n = r.below(c[0].len()) + 1;
        c[0].truncate(n)
    }
    c
}

// ------------------------------------------------------------------ C05: body
fn c05(c: &Case) -> Verdict {
    facets(c, BODY, &[411])
}
fn c05_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    for m in ["POST", "PUT", "PATCH", "GET", "DELETE"] {
        for len in ["0", "1", "2", "5", "10", "1000", "-1", "-2", "", "x", "+3", "007", "5 ", "99999999999999999999", "-0"] {
            for n in [0usize, 1, 5, 9, 10, 11, 1000, 1001] {
                for ch in ["", "1", "60,100000", "61,1"] {
                    let mut b = format!("{} /a HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\n", m, len).into_bytes();
                    b.extend((0..n).map(|i| b"\r\nab\n\r=&-\xff"[i % 10]));
                    if !f(vec![b, ch.as_bytes().to_vec()]) {
                        return;
                    }
                }
            }
        }
        f(vec![format!("{} /a HTTP/1.1\r\nHost: h\r\n\r\nno length", m).into_bytes(), b"".to_vec()]);
    }
    // lengths around the read buffer, body arriving with the head or behind it
    for head in [0usize, 100, 940, 950, 960, 1000, 2000] {
        for len in [1usize, 20, 900, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 5000] {
            for short in [0usize, 1, 1000] {
                for ch in ["", "1024", "1000", "1", "5000"] {
                    if short > len || (ch == "1" && len > 1100) {
                        continue;
                    }
                    let mut b = format!("POST /a HTTP/1.1\r\nHost: h\r\nX: {}\r\nContent-Length: {}\r\n\r\n", "x".repeat(head), len).into_bytes();
                    b.extend((0..len - short).map(|i| (i % 251) as u8));
                    if !f(vec![b, ch.as_bytes().to_vec()]) {
                        return;
                    }
                }
            }
        }
    }
}
fn c05_rand(r: &mut Rng) -> Case {
    let n = r.size();
    let len = match r.below(8) {
        0 => (n + r.below(30)) as isize,
        1 => n.saturating_sub(r.below(30)) as isize,
        2 => r.below(6) as isize - 3,
        _ => n as isize,
    };
    let pad = if r.chance(1, 3) { r.size() } else { 0 };
    let mut b = format!("{} /a HTTP/1.1\r\nHost: h\r\nX: {}\r\nContent-Length: {}\r\n\r\n", r.pick(&["POST", "PUT", "PATCH", "POST", "GET"]), "p".repeat(pad), len).into_bytes();
    b.extend((0..n).map(|_| if r.chance(1, 3) { b"\r\n\0=&"[r.below(5)] } else { r.next() as u8 }));
    let ch = rand_chunks(r, b.len());
    vec![b, ch]
}

// ------------------------------------------------------------------ C06: request target
// item: the target; also sent through a whole request
fn c06(c: &Case) -> Verdict {
    if c.len() != 1 {
        return Err("bad case".into());
    }
    let mut raw = c[0].clone();
    let cutat = raw.iter().position(|b| *b == b'\r').unwrap_or(raw.len());
    let exp = target(&raw[..cutat]);
    raw.push(b'\r');
    let (p, q, fr, text) = hk::location(raw);
    want!(p, exp.0.clone(), "path");
    want!(q.map().into_iter().collect::<BTreeMap<_, _>>(), exp.1.iter().map(|(k, v)| (k.clone(), vec![v.clone()])).collect(), "query");
    want!(fr.clone(), exp.2.clone(), "fragment");
    // the rendered text stands for the same target
    let mut again = text.clone().into_bytes();
    again.push(b'\r');
    let (p2, q2, f2, _) = hk::location(again);
    want!(p2, if exp.0 == "/" { String::new() } else { exp.0.clone() }, "path of the rendered target {:?}", text);
    want!((q2.map(), f2), (q.map(), fr), "query and fragment of the rendered target {:?}", text);
    if !c[0].iter().any(|b| b" \r\n".contains(b)) && c[0].first() == Some(&b'/') {
        let mut m = b"GET ".to_vec();
        m.extend_from_slice(&c[0]);
        m.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n\r\n");
        facets(&vec![m], QUERY, &[])?;
    }
    Ok(!exp.1.is_empty() || exp.2.is_some())
}
fn c06_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    texts(&["/", "?", "#", "=", "&", "a", "b"], if tier > 0 { 8 } else { 6 }, &mut |t| f(vec![t.into_bytes()]));
    texts(&["/", "?", "#", "=", "&", "a", "\r", "é"], if tier > 0 { 6 } else { 5 }, &mut |t| f(vec![t.into_bytes()]));
    texts(&["?", "#", "=", "&", "a", "b"], if tier > 0 { 7 } else { 5 }, &mut |t| f(vec![format!("/a?{}", t).into_bytes()]));
}
fn c06_rand(r: &mut Rng) -> Case {
    let mut b = b"/a".to_vec();
    if r.chance(1, 3) {
        b.clear()
    }
    for _ in 0..r.below(16) {
        b.extend_from_slice([&b"/"[..], b"?", b"#", b"=", b"&", b"a", b"b", b"key", b"\xff", "é".as_bytes(), b"%41", b"+"][r.below(12)]);
    }
    vec![b]
}

// ------------------------------------------------------------------ C07: URL
pub type Url = (bool, Option<(String, String)>, String, u16, Target);
/// None: must be refused
/// a port written with a plus sign ("+80"): nothing is promised about it
pub fn plus_port(t: &str) -> bool {
    t.match_indices(":+").any(|(i, _)| t[i + 2..].starts_with(|c: char| c.is_ascii_digit()))
}
pub fn url(t: &str) -> Option<Url> {
    let (tls, rest) = if let Some(x) = t.strip_prefix("https://") { (true, x) } else { (false, t.strip_prefix("http://").unwrap_or(t)) };
    let end = rest.find(|c| c == '/' || c == '?' || c == '#').unwrap_or(rest.len());
    let (auth, loc) = rest.split_at(end);
    let (user, host) = match auth.find('@') {
        Some(i) => {
            let u = &auth[..i];
            let k = u.find(':')?;
            if k == 0 || u[k + 1..].contains(':') {
                return None;
            }
            (Some((u[..k].to_string(), u[k + 1..].to_string())), &auth[i + 1..])
        }
        None => (None, auth),
    };
    if host.contains('@') {
        return None;
    }
    let (host, port) = match host.find(':') {
        Some(i) => (&host[..i], host[i + 1..].parse::<u16>().ok()?),
        None => (host, if tls { 443 } else { 80 }),
    };
    if host.is_empty() {
        return None;
    }
    let loc = loc.as_bytes();
    let cutat = loc.iter().position(|b| *b == b'\r').unwrap_or(loc.len());
    Some((tls, user, host.to_string(), port, target(&loc[..cutat])))
}
fn c07(c: &Case) -> Verdict {
    let t = match c.get(0).map(|b| std::str::from_utf8(b)) {
        Some(Ok(t)) if c.len() == 1 && !plus_port(&t) => t,
        _ => return Err("bad case".into()),
    };
    let exp = url(t);
    let got = hk::url(t).ok().map(|(tls, user, host, port, path, query, fragment)| {
        (tls, user, host, port, (path, query.map().into_iter().map(|(k, v)| (k, v.join("\0"))).collect::<BTreeMap<_, _>>(), fragment))
    });
    want!(got, exp.clone(), "parts of {:?}", t);
    Ok(exp.is_some())
}
fn c07_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    for s in ["", "http://", "https://", "http:", "https:/", "HTTP://", "ftp://"] {
        for u in ["", "u:p@", "u@", ":p@", "u:@", "u:p:q@", "u:p@x:y@", "@", "https:x@"] {
            for h in ["h", "example.com", "", "127.0.0.1", "é"] {
                for p in ["", ":80", ":0", ":65535", ":65536", ":", ":x", ":443", ":1:2"] {
                    for l in ["", "/", "/a/b?c=d&e=f#g", "?a=b", "#f", "/a:b@c", "/a?u:p@h", "?x@y:1", "#a/b?c"] {
                        if !f(vec![format!("{}{}{}{}{}", s, u, h, p, l).into_bytes()]) {
                            return;
                        }
                    }
                }
            }
        }
    }
    texts(&["a", ":", "@", "/", "?", "#", "1"], if tier > 0 { 7 } else { 6 }, &mut |t| f(vec![t.into_bytes()]));
    texts(&["a", ":", "@", "/", "1"], 5, &mut |t| f(vec![format!("https://{}", t).into_bytes()]));
}
fn c07_rand(r: &mut Rng) -> Case {
    let mut t = r.pick(&["http://", "https://", "", "http"]).to_string();
    t.push_str(&r.word(&["a", ":", "@", "/", "?", "#", "80", "é", "=", "&", "b.c", "x:y@", ":8080"], 9));
    vec![t.into_bytes()]
}

// ------------------------------------------------------------------ C09, C10: responses
fn requester() -> (Requester<Mock>, std::sync::Arc<Mutex<Vec<u8>>>) {
    let (r, out) = parse(b"GET / HTTP/1.1\r\nHost: h\r\n\r\n", b"");
    (r.expect("plain request accepted").0, out)
}
fn send(resp: Response) -> Result<(String, u16, String, Vec<(String, String)>, Vec<u8>), String> {
    let (mut r, out) = requester();
    hk::respond(&mut r, resp).map_err(|e| format!("response failed: {}", e))?;
    let out = out.lock().unwrap().clone();
    response(&out)
}
fn grouped(h: &[(String, String)]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in h {
        m.entry(k.clone()).or_default().push(v.clone())
    }
    m
}
// items: "<code>" (canned response) or "new<0|1><0|1>" (version minor, connection); then "a<k>: <v>", "s<k>: <v>" header operations, "c<name>=<value>" cookies, "b<body>"
fn c09(c: &Case) -> Verdict {
    if c.is_empty() {
        return Err("bad case".into());
    }
    let t = s(&c[0]);
    let mut exp: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let (mut resp, version, code) = match t.strip_prefix("new") {
        Some(x) if x.len() == 2 => {
            let (v, k) = (x.starts_with('1'), x.ends_with('1'));
            exp.insert("Content-Length".into(), vec!["0".into()]);
            exp.insert("Content-Type".into(), vec!["text/plain".into()]);
            if k {
                exp.insert("Connection".into(), vec!["keep-alive".into()]);
            }
            (hk::response_new(if v { Version::HTTP_11 } else { Version::HTTP_10 }, k, false), Some(if v { "HTTP/1.1" } else { "HTTP/1.0" }), 200)
        }
        Some(_) => return Err("bad case".into()),
        None => {
            let code: u16 = t.parse().map_err(|_| "bad case".to_string())?;
            match Status::from_code(code) {
                Ok(st) => (match code {
                    200 => Response::success(), 400 => Response::bad_request(), 401 => Response::unauthorized(), 403 => Response::forbidden(),
                    404 => Response::not_found(), 405 => Response::method_not_allowed(), 406 => Response::not_acceptable(),
                    408 => Response::request_timeout(), 411 => Response::length_required(), 417 => Response::expectation_failed(),
                    505 => Response::http_version_not_supported(),
                    _ => Response::custom(st),
                }, None, code),
                Err(_) => return Err("bad case".into()),
            }
        }
    };
    let mut body: Vec<u8> = vec![];
    for i in &c[1..] {
        if i.is_empty() {
            return Err("bad case".into());
        }
        if i[0] == b'b' {
            body = i[1..].to_vec();
            resp.write(body.clone(), AcceptEncoding::None);
            exp.insert("Content-Length".into(), vec![body.len().to_string()]);
            exp.insert("Content-Type".into(), vec!["text/plain".into()]);
            continue;
        }
        let t = s(&i[1..]);
        if t.contains('\r') || t.contains('\n') {
            return Err("bad case".into());
        }
        if i[0] == b'c' {
            let p = t.find('=').ok_or("bad case")?;
            if p == 0 {
                return Err("bad case".into());
            }
            resp.add_set_cookie(starry::header::Cookie::new(t[..p].into(), t[p + 1..].into()));
            exp.entry("Set-Cookie".into()).or_default().push(t);
            continue;
        }
        let p = t.find(": ").ok_or("bad case")?;
        let (k, v) = (t[..p].to_string(), t[p + 2..].to_string());
        if k.is_empty() || k.contains(':') {
            return Err("bad case".into());
        }
        match i[0] {
            b'a' => { resp.add_header(k.clone(), v.clone()); exp.entry(k).or_default().push(v); }
            b'A' => { resp.add_header_str(&k, &v); exp.entry(k).or_default().push(v); }
            b's' => { resp.set_header(k.clone(), v.clone()); exp.insert(k, vec![v]); }
            b'S' => { resp.set_header_str(&k, &v); exp.insert(k, vec![v]); }
            _ => return Err("bad case".into()),
        }
    }
    let n = c.len();
    let (v, cd, ph, hs, b) = send(resp)?;
    match version {
        Some(x) => want!(v.as_str(), x, "version of the response"),
        None => if v != "HTTP/1.0" && v != "HTTP/1.1" { return Err(format!("version of the response is {:?}", v)) },
    }
    want!(cd, code, "status code");
    if code != 203 {
        want!(Some(ph.as_str()), phrase(code), "reason phrase");
    }
    want!(grouped(&hs), exp, "header lines");
    if b != body {
        return Err(format!("body of {} bytes, expected {} bytes", b.len(), body.len()));
    }
    Ok(n > 1)
}
fn c09_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    for (code, _) in STATUS.iter() {
        f(vec![code.to_string().into_bytes()]);
        f(vec![code.to_string().into_bytes(), b"aX-A: b".to_vec(), b"bhello".to_vec()]);
    }
    let ops = ["aX: 1", "AX: 2", "sX: 3", "SY: ", "aSet-Cookie: q=1", "ck=v", "bhello\r\n\r\nworld", "b", "aY: a: b"];
    for first in ["new00", "new01", "new10", "new11", "200", "404"] {
        sequences(ops.len(), if tier > 0 { 4 } else { 3 }, &mut |v| {
            let mut c = vec![first.as_bytes().to_vec()];
            c.extend(v.iter().map(|i| ops[*i].as_bytes().to_vec()));
            f(c)
        });
    }
}
fn c09_rand(r: &mut Rng) -> Case {
    let mut c = vec![if r.chance(1, 2) { STATUS[r.below(60)].0.to_string() } else { format!("new{}{}", r.below(2), r.below(2)) }.into_bytes()];
    for _ in 0..r.below(10) {
        c.push(match r.below(6) {
            0 => {
                let n = r.size();
                let mut b = vec![b'b'];
                b.extend((0..n).map(|_| r.next() as u8));
                b
            }
            1 => format!("c{}={}", r.pick(&["a", "b", "sid"]), r.word(&["x", "=", "y z"], 3)).into_bytes(),
            _ => format!("{}{}: {}", r.pick(&["a", "A", "s", "S"]), r.pick(&["X-A", "X-B", "Location", "Vary", "Set-Cookie", "é", "Connection"]), r.word(&["a", ":", " ", "é", "=", "0"], 6)).into_bytes(),
        })
    }
    c
}
// items: "<compress 0|1>", then "<variant w|t|s|S><type 0|1|2><enc g|d|z|b|n><body>"
fn c10(c: &Case) -> Verdict {
    if c.len() < 2 || c[0].len() != 1 {
        return Err("bad case".into());
    }
    let compress = c[0] == b"1";
    let mut resp = hk::response_new(Version::HTTP_11, false, compress);
    let (mut ty, mut enc, mut body) = ("text/plain", "", vec![]);
    for i in &c[1..] {
        if i.len() < 3 {
            return Err("bad case".into());
        }
        let cts = [("text/html", ContentType::TEXT_HTML), ("application/json", ContentType::APPLICATION_JSON), ("x-y/z", ContentType::custom_str("x-y/z"))];
        let (tn, tc) = cts[(i[1] % 3) as usize].clone();
        let (en, ec) = match i[2] {
            b'g' => ("gzip", AcceptEncoding::GZip),
            b'd' => ("deflate", AcceptEncoding::Deflate),
            b'z' => ("zlib", AcceptEncoding::ZLib),
            b'b' => ("", AcceptEncoding::Br),
            b'n' => ("", AcceptEncoding::None),
            _ => return Err("bad case".into()),
        };
        body = i[3..].to_vec();
        enc = if compress { en } else { "" };
        match i[0] {
            b'w' => { resp.write(body.clone(), ec); ty = "text/plain" }
            b't' => { resp.write_type(body.clone(), tc, ec); ty = tn }
            b's' => { resp.write_slice(Box::leak(body.clone().into_boxed_slice()), ec); ty = "text/plain" }
            b'S' => { resp.write_slice_type(Box::leak(body.clone().into_boxed_slice()), tc, ec); ty = tn }
            _ => return Err("bad case".into()),
        }
    }
    let (_, _, _, hs, out) = send(resp)?;
    let m = grouped(&hs);
    want!(m.get("Content-Length").cloned(), Some(vec![out.len().to_string()]), "Content-Length of {} bytes", out.len());
    want!(m.get("Content-Type").cloned(), Some(vec![ty.to_string()]), "Content-Type");
    let used = m.get("Content-Encoding").cloned().unwrap_or_default();
    let plain = match used.len() {
        0 => out.clone(),
        1 => {
            want!(used[0].as_str(), enc, "Content-Encoding although the client asked for {:?}", enc);
            use std::io::Read;
            let mut p = vec![];
            let ok = match enc {
                "gzip" => flate2::read::GzDecoder::new(&out[..]).read_to_end(&mut p).is_ok(),
                "zlib" => flate2::read::ZlibDecoder::new(&out[..]).read_to_end(&mut p).is_ok(),
                _ => flate2::read::DeflateDecoder::new(&out[..]).read_to_end(&mut p).is_ok(),
            };
            if !ok {
                return Err(format!("the body does not decode as {}", enc));
            }
            p
        }
        _ => return Err("several Content-Encoding lines".into()),
    };
    if plain != body {
        return Err(format!("the client reads {} bytes {:?}, the handler wrote {} bytes {:?}", plain.len(), cut(&plain), body.len(), cut(&body)));
    }
    Ok(compress)
}
fn c10_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let long = "hello ".repeat(300);
    let bodies = ["", "x", "short body", long.as_str()];
    let mut writes: Vec<Vec<u8>> = vec![];
    for v in ["w", "t", "s", "S"] {
        for t in ["0", "1"] {
            for e in ["g", "d", "z", "b", "n"] {
                for b in bodies {
                    writes.push(format!("{}{}{}{}", v, t, e, b).into_bytes())
                }
            }
        }
    }
    for k in ["0", "1"] {
        for a in &writes {
            if !f(vec![k.as_bytes().to_vec(), a.clone()]) {
                return;
            }
        }
        for (i, a) in writes.iter().enumerate() {
            for (j, b) in writes.iter().enumerate() {
                if (tier > 0 || (i * 7 + j) % 5 == 0) && !f(vec![k.as_bytes().to_vec(), a.clone(), b.clone()]) {
                    return;
                }
            }
        }
    }
}
fn c10_rand(r: &mut Rng) -> Case {
    let mut c = vec![format!("{}", r.below(2)).into_bytes()];
    for _ in 0..1 + r.below(3) {
        let mut w = format!("{}{}{}", r.pick(&["w", "t", "s", "S"]), r.below(3), r.pick(&["g", "d", "z", "b", "n"])).into_bytes();
        let n = r.size();
        let noisy = r.chance(1, 2);
        w.extend((0..n).map(|i| if noisy { r.next() as u8 } else { b"abc\r\n"[i % 5] }));
        c.push(w)
    }
    c
}

// ------------------------------------------------------------------ C11: Accept-Encoding
fn c11(c: &Case) -> Verdict {
    let t = match c.get(0).map(|b| std::str::from_utf8(b)) {
        Some(Ok(t)) if c.len() == 1 => t,
        _ => return Err("bad case".into()),
    };
    let exp = best_encoding(t);
    want!(hk::accept_encoding_best(t).map(|e| enc_name(&e)), exp, "coding chosen for {:?}", t);
    if !t.contains('\r') && !t.contains('\n') {
        let m = format!("GET / HTTP/1.1\r\nHost: h\r\nAccept-Encoding: {}\r\n\r\n", t);
        facets(&vec![m.into_bytes()], ENC, &[])?;
    }
    Ok(exp.is_some())
}
fn c11_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    texts(&["gzip", "deflate", "zlib", "br", ",", " ", "x"], if tier > 0 { 7 } else { 6 }, &mut |t| f(vec![t.into_bytes()]));
}
fn c11_rand(r: &mut Rng) -> Case {
    vec![r.word(&["gzip", "deflate", "zlib", "br", ",", ", ", ";q=0", "GZIP", "identity", "*", " ", "\t", "é", "g"], 10).into_bytes()]
}

// ------------------------------------------------------------------ C12: credentials
// items: "raw", value  |  prefix, user-and-password bytes (encoded canonically)
fn c12(c: &Case) -> Verdict {
    if c.len() != 2 {
        return Err("bad case".into());
    }
    let t = if c[0] == b"raw" { s(&c[1]) } else { format!("{}{}", s(&c[0]), b64(&c[1])) };
    let got = catch_unwind(AssertUnwindSafe(|| hk::userinfo_basic(&t))).map_err(|_| format!("panic on {:?}", t))?;
    let exp = basic(&t);
    want!(got.clone().map_err(|_| ()), exp.clone(), "credentials in {:?}", t);
    if let Ok((u, p)) = &exp {
        let again = format!("Basic {}", hk::userinfo_base64(u, p));
        want!(again.clone(), format!("Basic {}", b64(format!("{}:{}", u, p).as_bytes())), "rendered credentials");
        want!(hk::userinfo_basic(&again).ok(), Some((u.clone(), p.clone())), "credentials read back from {:?}", again);
    }
    if !t.contains('\r') && !t.contains('\n') && t.trim_start() == t {
        facets(&vec![format!("GET / HTTP/1.1\r\nHost: h\r\nAuthorization: {}\r\n\r\n", t).into_bytes()], USER, &[400])?;
    }
    Ok(exp.is_ok())
}
fn c12_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    for p in ["Basic ", "basic ", "BASIC ", "bAsIc ", "Basic", "Basic  ", "Bearer ", "Digest ", "", "Basi", "Bàsic "] {
        texts(&[":", "u", "p", "é", " "], if tier > 0 { 6 } else { 5 }, &mut |t| f(vec![p.as_bytes().to_vec(), t.into_bytes()]));
        f(vec![p.as_bytes().to_vec(), b"u\xff:p".to_vec()]);
        f(vec![p.as_bytes().to_vec(), b"u:\xffp".to_vec()]);
    }
    texts(&["Basic", " ", "d", "=", "é", "!", "dTpw"], if tier > 0 { 6 } else { 5 }, &mut |t| f(vec![b"raw".to_vec(), t.into_bytes()]));
}
fn c12_rand(r: &mut Rng) -> Case {
    if r.chance(1, 4) {
        let mut t = r.pick(&["Basic ", "basic ", "B", "", "Bearer "]).to_string();
        t.push_str(&r.word(&["d", "T", "p", "w", "=", "é", " ", "\u{1}", "dTpw"], 6));
        return vec![b"raw".to_vec(), t.into_bytes()];
    }
    vec![r.pick(&["Basic ", "BASIC ", "basic ", "Basic", "basic: "]).as_bytes().to_vec(), r.bytes(b"uup::p\xc3\xa9 @/", 12)]
}

// ------------------------------------------------------------------ C13: Cookie
// items: filter, then Cookie header values
fn c13(c: &Case) -> Verdict {
    if c.is_empty() {
        return Err("bad case".into());
    }
    let filter = s(&c[0]);
    let vals: Vec<String> = c[1..].iter().map(|v| s(v)).collect();
    let exp = cookie_list(&vals, &filter);
    let got = hk::read_cookies(Some(vals.clone()), &filter).map(|v| v.iter().map(|c| hk::cookie_pair(c)).collect::<Vec<_>>()).map_err(|_| ());
    want!(got, exp.clone(), "cookies of {:?} named {:?}", vals, filter);
    want!(hk::read_cookies(None, &filter).map(|v| v.len()), Ok(0), "cookies of no header");
    if let Some(v) = vals.last() {
        if !v.contains('\r') && !v.contains('\n') && v.trim_start() == v {
            facets(&vec![format!("GET / HTTP/1.1\r\nHost: h\r\nCookie: {}\r\n\r\n", v).into_bytes()], COOKIE, &[400])?;
        }
    }
    Ok(exp.map(|v| !v.is_empty()).unwrap_or(false))
}
fn c13_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    for filter in ["", "a", "A", "ab"] {
        texts(&["a", "b", "=", ";", " ", "é"], if tier > 0 { 7 } else { 6 }, &mut |t| f(vec![filter.as_bytes().to_vec(), t.into_bytes()]));
    }
    texts(&["a=1", "b=2", "a=", "=c", "; ", ";"], 4, &mut |t| f(vec![b"a".to_vec(), t.clone().into_bytes(), b"a=9; b=8".to_vec()]) && f(vec![b"".to_vec(), b"q=1".to_vec(), t.into_bytes()]));
}
fn c13_rand(r: &mut Rng) -> Case {
    let mut c = vec![r.pick(&["", "a", "sid", "SID", "si", "A"]).as_bytes().to_vec()];
    for _ in 0..1 + r.below(3) {
        c.push(r.word(&["a=1", "sid", "=", ";", "; ", "\"x\"", "a=b=c", " ", "é", "\t", "b=;"], 8).into_bytes())
    }
    c
}

// ------------------------------------------------------------------ C15: keep-alive
// items: version minor "0|1", connection values (none: header absent)
fn c15(c: &Case) -> Verdict {
    if c.is_empty() || c.len() > 3 || c[1..].iter().any(|v| v.contains(&b'\n') || v.contains(&b'\r') || s(v).as_bytes() != &v[..] || v.first().map(|b| b" \t".contains(b)).unwrap_or(false)) {
        return Err("bad case".into());
    }
    let minor = if c[0] == b"0" { "0" } else { "1" };
    let mut m = format!("GET / HTTP/1.{}\r\nHost: h\r\n", minor);
    for v in &c[1..] {
        m.push_str(&format!("Connection: {}\r\n", s(v)))
    }
    m.push_str("\r\n");
    facets(&vec![m.into_bytes()], CLOSE, &[])?;
    let keep = c[1..].last().map(|v| v == b"keep-alive").unwrap_or(false);
    let v = if minor == "0" { Version::HTTP_10 } else { Version::HTTP_11 };
    let mut h = starry::Header::new();
    if let Some(x) = c[1..].last() {
        h.set_str("Connection", &s(x));
    }
    let before = h.map();
    want!(hk::check_close(&mut h, &v, false), !keep, "connection closed");
    want!(h.map(), before, "header left alone");
    for compress in [false, true] {
        let (ver, _, _, hs, _) = send(hk::response_new(v.clone(), keep, compress))?;
        want!(ver, v.to_string(), "version of the response");
        want!(grouped(&hs).get("Connection").cloned(), if keep { Some(vec!["keep-alive".to_string()]) } else { None }, "Connection header of the response");
    }
    Ok(keep)
}
fn c15_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    for v in ["0", "1"] {
        f(vec![v.as_bytes().to_vec()]);
        for x in ["keep-alive", "close", "Keep-Alive", "keep-alive ", "keep-aliv", "keep-alive, Upgrade", "", "upgrade", "keepalive", "CLOSE", "keep-alive\t", "é"] {
            f(vec![v.as_bytes().to_vec(), x.as_bytes().to_vec()]);
            for y in ["keep-alive", "close"] {
                f(vec![v.as_bytes().to_vec(), x.as_bytes().to_vec(), y.as_bytes().to_vec()]);
            }
        }
    }
}
fn c15_rand(r: &mut Rng) -> Case {
    let mut c = vec![r.pick(&["0", "1"]).as_bytes().to_vec()];
    for _ in 0..r.below(3) {
        c.push(r.word(&["keep", "-", "alive", "close", "keep-alive", ",", " ", "x"], 4).trim_start().as_bytes().to_vec())
    }
    c
}

// ------------------------------------------------------------------ C16: urlencoded forms
fn post(ct: &str, body: &[u8], chunks: &[u8]) -> (Result<Got, String>, std::sync::Arc<Mutex<Vec<u8>>>) {
    let mut m = format!("POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n", ct, body.len()).into_bytes();
    m.extend_from_slice(body);
    parse(&m, chunks)
}
fn form_is(r: &mut Requester<Mock>, exp: &BTreeMap<String, String>) -> Result<(), String> {
    let got = r.form().map_err(|e| format!("form refused: {}", e))?;
    want!(got.map().into_iter().collect::<BTreeMap<_, _>>(), exp.iter().map(|(k, v)| (k.clone(), vec![v.clone()])).collect(), "form fields");
    for (k, v) in exp {
        want!(r.form_value(k.as_str()).ok(), Some(Some(v.clone())), "field {:?}", k);
        want!(r.have_form_value(k.as_str()).ok(), Some(true), "presence of field {:?}", k);
        for n in near(k) {
            want!((r.form_value(n.as_str()).ok(), r.have_form_value(n.as_str()).ok()), (Some(exp.get(&n).cloned()), Some(exp.contains_key(&n))), "field {:?}", n);
        }
    }
    want!(r.have_form_value("no such").ok(), Some(exp.contains_key("no such")), "presence of a field that was not sent");
    want!(r.count_form_value().ok(), Some(exp.len()), "number of fields");
    Ok(())
}
fn c16(c: &Case) -> Verdict {
    if c.is_empty() || c[0].split(|b| *b == b'&').any(|p| p == b"=") {
        return Err("bad case".into());
    }
    let exp: BTreeMap<String, String> = pairs(&c[0]).into_iter().map(|(k, v)| (s(&k), s(&v))).collect();
    let (got, _) = post("application/x-www-form-urlencoded", &c[0], c.get(1).map(|x| &x[..]).unwrap_or(b""));
    let (mut r, _, _) = got.map_err(|e| format!("request refused: {}", e))?;
    form_is(&mut r, &exp)?;
    Ok(!exp.is_empty())
}
fn c16_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    texts(&["a", "b", "=", "&", "\r\n"], if tier > 0 { 9 } else { 7 }, &mut |t| f(vec![t.into_bytes()]));
}
fn c16_rand(r: &mut Rng) -> Case {
    let mut b = r.bytes(b"ab=&=&+%\xc3\xa9\n", 40);
    if r.chance(1, 10) {
        let n = r.size();
        b.extend(vec![b'v'; n]);
        b.extend_from_slice(b"&z=1");
    }
    let ch = rand_chunks(r, b.len());
    vec![b, ch]
}

// ------------------------------------------------------------------ C17: multipart forms
// items: boundary, chunks, then per part "t<name>\n<content>" or "f<name>\n<filename>\n<content type>\n<content>"; or boundary, "raw", body
fn c17(c: &Case) -> Verdict {
    if c.len() < 2 || !c[0].is_ascii() || c[0].is_empty() || s(&c[0]).trim() != s(&c[0]) || c[0].iter().any(|b| b < &b' ') {
        return Err("bad case".into());
    }
    let boundary = s(&c[0]);
    let ct = format!("multipart/form-data; boundary={}", boundary);
    if c[1] == b"raw" {
        let (got, out) = post(&ct, c.get(2).map(|x| &x[..]).unwrap_or(b""), b"");
        let (mut r, _, _) = got.map_err(|e| format!("request refused: {}", e))?;
        let ok = r.multipart_form().is_ok();
        let out = out.lock().unwrap().clone();
        if ok {
            want!(out.len(), 0, "bytes written for a readable form");
        } else {
            refused(&out, 400)?
        }
        // the first line must be the boundary
        let body = c.get(2).cloned().unwrap_or_default();
        let first: Vec<u8> = body.split(|b| *b == b'\n').next().unwrap().to_vec();
        let first = s(first.strip_suffix(b"\r").unwrap_or(&first));
        if !body.is_empty() && first != format!("--{}", boundary) && first != format!("--{}--", boundary) && ok {
            return Err("a body that does not start with the boundary was accepted".into());
        }
        return Ok(ok);
    }
    let (start, end) = (format!("--{}", boundary), format!("--{}--", boundary));
    let mut body: Vec<u8> = vec![];
    let mut form: BTreeMap<String, String> = BTreeMap::new();
    let mut files: BTreeMap<String, (String, Vec<u8>)> = BTreeMap::new();
    for p in &c[2..] {
        let n = match p.first() {
            Some(b't') => 2,
            Some(b'f') => 4,
            _ => return Err("bad case".into()),
        };
        let q: Vec<&[u8]> = p[1..].splitn(n, |b| *b == b'\n').collect();
        if q.len() != n {
            return Err("bad case".into());
        }
        let content = q[n - 1].to_vec();
        let words = &q[..n - 1];
        if words.iter().any(|w| std::str::from_utf8(w).is_err() || w.iter().any(|b| *b < b' ' || b"\";".contains(b)))
            || content.split(|b| *b == b'\n').any(|l| { let l = s(l.strip_suffix(b"\r").unwrap_or(l)); l == start || l == end }) {
            return Err("bad case".into());
        }
        body.extend_from_slice(start.as_bytes());
        if n == 2 {
            body.extend_from_slice(format!("\r\nContent-Disposition: form-data; name=\"{}\"\r\n\r\n", s(q[0])).as_bytes());
            form.insert(s(q[0]), s(&content));
        } else {
            body.extend_from_slice(format!("\r\nContent-Disposition: form-data; name=\"{}\"; filename=\"{}\"\r\n", s(q[0]), s(q[1])).as_bytes());
            if !q[2].is_empty() {
                body.extend_from_slice(format!("Content-Type: {}\r\n", s(q[2])).as_bytes());
            }
            body.extend_from_slice(b"\r\n");
            files.insert(s(q[0]), (s(q[1]), content.clone()));
        }
        body.extend_from_slice(&content);
        body.extend_from_slice(b"\r\n");
    }
    body.extend_from_slice(end.as_bytes());
    if c[1].first() != Some(&b'n') {
        body.extend_from_slice(b"\r\n");
    }
    let (got, out) = post(&ct, &body, &c[1].iter().filter(|b| **b != b'n').cloned().collect::<Vec<_>>());
    let (mut r, _, _) = got.map_err(|e| format!("request refused: {}", e))?;
    let ms = r.multipart_form().map_err(|e| format!("form refused: {}", e))?;
    let g: BTreeMap<String, (String, usize, Vec<u8>)> = ms.map().into_iter().map(|(k, f)| (k, hk::file_parts(&f))).collect();
    let e: BTreeMap<String, (String, usize, Vec<u8>)> = files.into_iter().map(|(k, (n, c))| (k, (n, c.len(), c))).collect();
    if g != e {
        return Err(format!("files: got {:?}, expected {:?}", g, e).chars().take(1500).collect());
    }
    for (k, v) in &e {
        want!(r.form_file_value(k.as_str()).ok().and_then(|f| f).map(|f| f.content()), Some(v.2.clone()), "file {:?}", k);
    }
    form_is(&mut r, &form)?;
    want!(out.lock().unwrap().len(), 0, "bytes written for a well-formed form");
    Ok(c.len() > 2)
}
fn c17_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let cs = ["", "x", "\r\n", "\n", "\r", "a\r\n", "\r\na", "--b", "--b-- ", "a\n--bx\r\n", "\r\r\n\n", "a\n", "\u{0}\u{1}", "é", "--b---"];
    let mut parts: Vec<Vec<u8>> = vec![];
    for t in cs {
        parts.push(format!("tn\n{}", t).into_bytes());
        parts.push(format!("ff\nname.txt\n\n{}", t).into_bytes());
    }
    parts.push(b"ff\n\ntext/html\nz\xff\x00\r\n\xfe".to_vec());
    parts.push(b"t\nempty name".to_vec());
    parts.push(b"fg\nsp ace.bin\napplication/octet-stream\nzz".to_vec());
    for a in &parts {
        for ch in ["", "n", "1"] {
            if !f(vec![b"b".to_vec(), ch.as_bytes().to_vec(), a.clone()]) {
                return;
            }
        }
        for b in &parts {
            if !f(vec![b"b".to_vec(), b"".to_vec(), a.clone(), b.clone()]) {
                return;
            }
        }
    }
    let pieces = ["--b", "\r\n", "--", "Content-Disposition: form-data", "; name=\"a\"", "; filename=\"f\"", "; name=\"", "\"", "x", ";", "; filename=\""];
    texts(&pieces, if tier > 0 { 6 } else { 5 }, &mut |t| f(vec![b"b".to_vec(), b"raw".to_vec(), t.into_bytes()]));
    texts(&pieces[3..], 3, &mut |t| f(vec![b"b".to_vec(), b"raw".to_vec(), format!("--b\r\nContent-Disposition: form-data{}\r\n\r\nx\r\n--b--\r\n", t).into_bytes()]));
}
fn c17_rand(r: &mut Rng) -> Case {
    let b = r.pick(&["b", "----WebKitFormBoundary7MA4YWxk", "-", "a b"]).to_string();
    if r.chance(1, 5) {
        let t = r.word(&["--", &b, "\r\n", "\n", "Content-Disposition: form-data", "; name=\"a\"", "; filename=\"x\"", "\"", ";", "Content-Type: text/html", " ", "é", "name=", "filename=\""], 16);
        return vec![b.clone().into_bytes(), b"raw".to_vec(), t.into_bytes()];
    }
    let mut ch = rand_chunks(r, 400);
    if r.chance(1, 4) {
        ch.insert(0, b'n')
    }
    let mut c = vec![b.clone().into_bytes(), ch];
    for _ in 0..r.below(5) {
        let mut p = match r.below(2) {
            0 => format!("t{}\n", r.word(&["a", "b", "é", "-", "name="], 2)),
            _ => format!("f{}\n{}\n{}\n", r.word(&["a", "b", "c"], 2), r.word(&["f", ".txt", " ", "é", "/"], 3), r.pick(&["", "text/plain", "image/png", "multipart/mixed; boundary=x"])),
        }.into_bytes();
        match r.below(3) {
            0 => {
                let n = r.size();
                p.extend((0..n).map(|_| r.next() as u8))
            }
            _ => {
                for _ in 0..r.below(12) {
                    p.extend_from_slice([&b"\r\n"[..], b"\n", b"\r", b"--", b.as_bytes(), b"x", b"\0", b"\xff", b" ", b"Content-Type: a"][r.below(10)]);
                }
            }
        }
        c.push(p)
    }
    c
}

// ------------------------------------------------------------------ C23: no bytes from a client crash a worker
fn c23(c: &Case) -> Verdict {
    if c.is_empty() {
        return Err("bad case".into());
    }
    let (got, out) = parse(&c[0], c.get(1).map(|x| &x[..]).unwrap_or(b""));
    match got {
        Ok((mut r, _, _)) => {
            want!(out.lock().unwrap().len(), 0, "bytes written for an accepted request");
            let _ = (r.method(), r.scheme(), r.path(), r.version(), r.header(), r.content_type(), r.accept_encoding(), r.cookies());
            let _ = (r.userinfo().map(|u| (u.username(), u.password())), r.location().to_string(), r.client().to_string(), r.url());
            let _ = (r.param_value("a"), r.count_param_value(), r.cookie_get("a"), format!("{:?}", r), hk::request_of(&r).to_string());
            let before = out.lock().unwrap().len();
            let k = c[0].len() % 4;
            let res: Vec<bool> = match k {
                0 => vec![r.form().is_ok(), r.multipart_form().is_ok()],
                1 => vec![r.multipart_form().is_ok(), r.form_file_value("a").is_ok()],
                2 => vec![r.form_value("a").is_ok(), r.have_form_value("b").is_ok(), r.count_form_value().is_ok()],
                _ => vec![r.form_file_value("f").is_ok(), r.form().is_ok()],
            };
            let _ = r.body();
            let o = out.lock().unwrap().clone();
            if res.iter().any(|x| !x) {
                response(&o)?;
            } else {
                want!(o.len(), before, "bytes written while reading the form");
            }
            let mut resp = hk::response_new(r.version(), !hk::request_close(&hk::request_of(&r)), true);
            resp.write(b"some body some body some body".to_vec(), r.accept_encoding());
            hk::respond(&mut r, resp)?;
            Ok(true)
        }
        Err(_) => {
            let o = out.lock().unwrap().clone();
            if c[0].is_empty() {
                want!(o.len(), 0, "bytes written to a peer that sent nothing");
                return Ok(false);
            }
            let (_, code, ph, _, body) = response(&o)?;
            if code < 400 || phrase(code) != Some(ph.as_str()) || !body.is_empty() {
                return Err(format!("malformed refusal {:?}", s(&o)));
            }
            Ok(true)
        }
    }
}
fn c23_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    let base: Vec<Vec<u8>> = vec![
        b"POST /a/b?k=v&w HTTP/1.1\r\nHost: h\r\nAuthorization: Basic dTpw\r\nCookie: a=b; c=d\r\nAccept-Encoding: gzip, zlib\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 7\r\n\r\na=1&b=2".to_vec(),
        b"PUT /a HTTP/1.0\r\nHost: h\r\nContent-Type: multipart/form-data; boundary=b\r\nContent-Length: 132\r\nConnection: keep-alive\r\n\r\n--b\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--b\r\nContent-Disposition: form-data; name=\"f\"; filename=\"x\"\r\n\r\nz\r\n--b--".to_vec(),
    ];
    for b in &base {
        for i in 0..b.len() {
            if !f(vec![b[..i].to_vec()]) {
                return;
            }
            for x in [0u8, b' ', b'\r', b'\n', b':', b'=', b'-', 0xc3, 0xff, b'"', b'0', b'9'] {
                let mut d = b.clone();
                d[i] = x;
                f(vec![d]);
                let mut d = b.clone();
                d.insert(i, x);
                f(vec![d, b"7".to_vec()]);
            }
            let mut d = b.clone();
            d.remove(i);
            f(vec![d]);
        }
    }
    for v in ["", "-", "-1", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "1e3", "0x10", " 5", "\u{661}"] {
        f(vec![format!("POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: {}\r\n\r\nabc", v).into_bytes()]);
    }
    for ct in ["multipart/form-data; boundary=", "multipart/form-data; boundar", "multipart/form-data;", "é", "multipart/form-data; boundaré", "multipart/form-data; boundary=é", "ééééééééééééééééééééé"] {
        for b in ["", "\n", "--\n", "----\n", "--\r\nContent-Disposition: form-data; name=\"\r\n", "--\nContent-Disposition: form-data;name=\"a\";filename=\"\n", "--é\r\nContent-Disposition: form-data; name=\"é\"; filename=\"é\"\r\nContent-Type: multipart/form-data; boundar\u{e9}\r\n\r\nx\r\n--é--"] {
            f(vec![format!("POST /a HTTP/1.1\r\nHost: h\r\nContent-Type: {}\r\nContent-Length: {}\r\n\r\n{}", ct, b.len(), b).into_bytes()]);
        }
    }
}
fn c23_rand(r: &mut Rng) -> Case {
    let mut m: Vec<u8> = vec![];
    if r.chance(1, 6) {
        m = r.bytes(b"GET /a?=&# HTTP1.\r\n:\xff\0", 60);
        return vec![m, b"".to_vec()];
    }
    m.extend_from_slice(r.pick(&["POST", "PUT", "GET", "PATCH"]).as_bytes());
    m.push(b' ');
    m.extend_from_slice(r.pick(&["/", "/a", "/a/b?k=v", "/q/y?&=#x", "/a?é=%"]).as_bytes());
    m.extend_from_slice(b" HTTP/1.1\r\nHost: h\r\n");
    let body: Vec<u8> = {
        let mut b = vec![];
        for _ in 0..r.below(14) {
            b.extend_from_slice([&b"--b"[..], b"\r\n", b"--", b"Content-Disposition: form-data", b"; name=\"a\"", b"; filename=\"f\"", b"\"", b";", b"a=1", b"&", b"=", b"\xff", b"\xc3\xa9", b"Content-Type: ", b"\n", b"\r\n\r\n"][r.below(16)]);
        }
        b
    };
    for _ in 0..r.below(7) {
        let l = match r.below(8) {
            0 => format!("Authorization: {}", r.word(&["Basic ", "B", "é", "dTpw", "=", ":", "basic "], 3)),
            1 => format!("Cookie: {}", r.word(&["a=b", ";", "=", "é", " "], 4)),
            2 => format!("Accept-Encoding: {}", r.word(&["gzip", ",", "br", " ", "é"], 4)),
            3 => format!("Content-Type: {}", r.pick(&["multipart/form-data; boundary=b", "application/x-www-form-urlencoded", "multipart/form-data; boundary=", "multipart/form-data; boundar", "é/ééééééééééééééééééé", "", "text/html", "multipart/form-data; boundary=é"])),
            4 => format!("Content-Length: {}", r.pick(&["0", "-1", "-2", "1", "99", "x", "", "1000000000000"])),
            5 => format!("Content-Length: {}", body.len()),
            6 => format!("Connection: {}", r.pick(&["keep-alive", "close", "é", ""])),
            _ => r.word(&["X", ":", " ", "é", "\t", "Host"], 5),
        };
        m.extend_from_slice(l.as_bytes());
        m.extend_from_slice(b"\r\n");
    }
    m.extend_from_slice(b"\r\n");
    m.extend_from_slice(&body);
    for _ in 0..r.below(3) {
        let i = r.below(m.len());
        m[i] = [0xff, 0xc3, b'\r', b'\n', b' ', b':', 0, b'='][r.below(8)]
    }
    let ch = rand_chunks(r, m.len());
    vec![m, ch]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", rule: "histories of registrations and look-ups against a list of the registered patterns; non-trivial: a look-up that finds a handler", enumerate: c01_enum, random: c01_rand, check: c01, threads: 6, spice: true },
        Prop { id: "C03", rule: "request lines built from every sequence of tokens, mutated and split over reads; non-trivial: accepted, or refused with one of the statuses of the property", enumerate: c03_enum, random: c03_rand, check: c03, threads: 8, spice: true },
        Prop { id: "C04", rule: "header blocks built from every sequence of tokens, mutated, truncated and split over reads; non-trivial: accepted or without Host", enumerate: c04_enum, random: c04_rand, check: c04, threads: 8, spice: true },
        Prop { id: "C05", rule: "bodies and declared lengths around each other and around the read buffer, split over reads; non-trivial: accepted or refused with 411", enumerate: c05_enum, random: c05_rand, check: c05, threads: 8, spice: true },
        Prop { id: "C06", rule: "request targets over the separators; non-trivial: with query or fragment", enumerate: c06_enum, random: c06_rand, check: c06, threads: 8, spice: true },
        Prop { id: "C07", rule: "URLs over the separators and from every combination of parts; non-trivial: accepted", enumerate: c07_enum, random: c07_rand, check: c07, threads: 8, spice: true },
        Prop { id: "C09", rule: "responses with any status, header operations and body, written to a stream that takes 61 bytes at a time; non-trivial: at least one operation", enumerate: c09_enum, random: c09_rand, check: c09, threads: 8, spice: true },
        Prop { id: "C10", rule: "sequences of body writes in all variants, content types and codings; non-trivial: compression on", enumerate: c10_enum, random: c10_rand, check: c10, threads: 8, spice: true },
        Prop { id: "C11", rule: "Accept-Encoding texts over the coding names and separators; non-trivial: a coding is chosen", enumerate: c11_enum, random: c11_rand, check: c11, threads: 8, spice: true },
        Prop { id: "C12", rule: "credentials and raw Authorization texts; non-trivial: accepted", enumerate: c12_enum, random: c12_rand, check: c12, threads: 8, spice: true },
        Prop { id: "C13", rule: "Cookie texts over the separators, several headers, filters; non-trivial: at least one cookie", enumerate: c13_enum, random: c13_rand, check: c13, threads: 8, spice: true },
        Prop { id: "C15", rule: "protocol version and Connection values; non-trivial: the connection is kept", enumerate: c15_enum, random: c15_rand, check: c15, threads: 4, spice: true },
        Prop { id: "C16", rule: "form bodies over the separators, split over reads; non-trivial: at least one field", enumerate: c16_enum, random: c16_rand, check: c16, threads: 8, spice: true },
        Prop { id: "C17", rule: "forms rendered from parts with contents that resemble boundaries and line ends, and malformed bodies; non-trivial: at least one part, or accepted", enumerate: c17_enum, random: c17_rand, check: c17, threads: 8, spice: true },
        Prop { id: "C23", rule: "whole requests, truncated and mutated at every position, all accessors called; non-trivial: not empty", enumerate: c23_enum, random: c23_rand, check: c23, threads: 8, spice: true },
    ]
}
