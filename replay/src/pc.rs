//! properties of the client side: the request it sends, the response it reads
use crate::pa::{want, STATUS};
use crate::pb::{phrase, target, url};
use crate::util::*;
use crate::{Case, Prop, Rng, Verdict};
use starry::verif_hooks as hk;
use starry::{HttpClient, Method};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::TcpListener;
use std::time::Duration;

// ------------------------------------------------------------------ C24: what the client sends
/// request line and headers of a request with no body
fn request_text(out: &[u8]) -> Result<(String, Vec<u8>, String, Vec<(String, String)>), String> {
    let bad = |w: &str| Err(format!("{}: {:?}", w, s(out)));
    if !out.ends_with(b"\r\n\r\n") {
        return bad("the request does not end with its empty line");
    }
    let end = out.windows(2).position(|w| w == b"\r\n").unwrap();
    let line = &out[..end];
    let (a, b) = match (line.iter().position(|c| *c == b' '), line.iter().rposition(|c| *c == b' ')) {
        (Some(a), Some(b)) if a < b => (a, b),
        _ => return bad("malformed request line"),
    };
    let mut hs = vec![];
    let mut rest = &out[end + 2..];
    loop {
        let e = match rest.windows(2).position(|w| w == b"\r\n") {
            Some(e) => e,
            None => return bad("malformed header block"),
        };
        if e == 0 {
            break;
        }
        let l = s(&rest[..e]);
        match l.find(": ") {
            Some(i) => hs.push((l[..i].to_string(), l[i + 2..].to_string())),
            None => return bad("malformed header line"),
        }
        rest = &rest[e + 2..]
    }
    if rest.len() != 2 {
        return bad("more than one message");
    }
    Ok((s(&line[..a]), line[a + 1..b].to_vec(), s(&line[b + 1..]), hs))
}
fn same_target(got: &[u8], exp: &(String, BTreeMap<String, String>, Option<String>), what: &str) -> Result<(), String> {
    let path = if exp.0.is_empty() { "/".to_string() } else { exp.0.clone() };
    want!(target(got), (path, exp.1.clone(), None), "target sent for {}", what);
    if got.contains(&b'?') && exp.1.is_empty() {
        return Err(format!("target sent for {}: empty query in {:?}", what, s(got)));
    }
    Ok(())
}
thread_local! {
    static LISTENER: TcpListener = TcpListener::bind("127.0.0.1:0").expect("loopback listener");
}
/// what arrives at a server on the loopback interface when the public client fetches the URL
fn over_loopback(scheme: &str, user: &str, loc: &str, with_port: bool) -> Result<Option<(Vec<u8>, String, u16)>, String> {
    LISTENER.with(|l| {
        let port = l.local_addr().unwrap().port();
        let host = format!("127.0.0.1{}", if with_port { format!(":{}", port) } else { String::new() });
        let u = format!("{}{}{}{}", scheme, user, host, loc);
        if url(&u).map(|x| x.3) != Some(port) {
            return Ok(None);
        }
        let l = l.try_clone().map_err(|_| "bad case".to_string())?;
        let t = std::thread::spawn(move || {
            let (mut st, _) = l.accept().expect("accept");
            st.set_read_timeout(Some(Duration::from_secs(5))).ok();
            let mut got = vec![];
            let mut buf = [0u8; 4096];
            while !got.ends_with(b"\r\n\r\n") {
                match st.read(&mut buf) {
                    Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]),
                    _ => break,
                }
            }
            st.write_all(b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\nX-Y: z\r\n\r\nhi").ok();
            got
        });
        let r = HttpClient::get(&u);
        if r.is_err() {
            // let the server side finish
            let _ = std::net::TcpStream::connect(("127.0.0.1", port));
        }
        let got = t.join().map_err(|_| "bad case".to_string())?;
        match r {
            Ok(mut r) => {
                want!(r.body(), b"hi".to_vec(), "body of the response to {:?}", u);
                Ok(Some((got, u, port)))
            }
            Err(e) => Err(format!("fetching {:?} failed: {}", u, e)),
        }
    })
}
/// items: "N", scheme, userinfo with '@', location: over loopback; or "M", URL: on a stream
fn c24(c: &Case) -> Verdict {
    if c.len() == 4 && c[0] == b"N" {
        let (sch, user, loc) = (s(&c[1]), s(&c[2]), s(&c[3]));
        let plain = |t: &str| t.bytes().all(|b| b > 32 && b != 127) && t.as_bytes().len() < 4000;
        if !plain(&sch) || !plain(&user) || !plain(&loc) || !(loc.is_empty() || loc.starts_with(|x| x == '/' || x == '?' || x == '#'))
            || !["", "http://"].contains(&&sch[..]) || !(user.is_empty() || user.ends_with('@')) || user.contains(|x| x == '/' || x == '?' || x == '#') {
            return Err("bad case".into());
        }
        let (got, u, port) = match over_loopback(&sch, &user, &loc, true)? {
            Some(x) => x,
            None => return Ok(false),
        };
        let exp = url(&u).unwrap();
        let (m, t, v, hs) = request_text(&got)?;
        want!(m.as_str(), "GET", "method sent for {:?}", u);
        want!(v == "HTTP/1.0" || v == "HTTP/1.1", true, "version {:?} sent for {:?}", v, u);
        same_target(&t, &exp.4, &u)?;
        let one = |n: &str| hs.iter().filter(|(k, _)| k == n).map(|(_, v)| v.clone()).collect::<Vec<_>>();
        want!(one("Host"), vec![format!("127.0.0.1:{}", port)], "Host sent for {:?}", u);
        let auth: Vec<String> = exp.1.iter().map(|(a, b)| format!("Basic {}", b64(format!("{}:{}", a, b).as_bytes()))).collect();
        want!(one("Authorization"), auth, "credentials sent for {:?}", u);
        want!(hs.iter().filter(|(k, _)| k != "Host" && k != "Authorization" && k != "Connection").count(), 0, "other headers sent for {:?}", u);
        return Ok(exp.1.is_some() || !exp.4.1.is_empty() || exp.4.0.len() > 1);
    }
    if c.len() != 3 || c[0] != b"M" {
        return Err("bad case".into());
    }
    let (name, u) = (s(&c[1]), s(&c[2]));
    let method: Method = match crate::pb::METHODS.iter().position(|m| *m == name) {
        Some(i) => [Method::OPTIONS, Method::GET, Method::POST, Method::PUT, Method::DELETE, Method::HEAD, Method::TRACE, Method::CONNECT,
                    Method::PATCH, Method::LINK, Method::UNLINK, Method::PRI][i].clone(),
        None => return Err("bad case".into()),
    };
    if u.bytes().any(|b| b <= 32 || b == 127) || crate::pb::plus_port(&u) {
        return Err("bad case".into());
    }
    let exp = match url(&u) {
        Some(e) => e,
        None => {
            want!(hk::client_request(method, &u).is_err(), true, "URL {:?} refused", u);
            return Ok(false);
        }
    };
    let req = match hk::client_request(method, &u) {
        Ok(r) => r,
        Err(e) => return Err(format!("URL {:?} refused: {}", u, e)),
    };
    let (mock, out) = Mock::new(b"HTTP/1.1 200 OK\r\n\r\n".to_vec(), vec![]);
    if let Err(e) = hk::exchange(mock, req) {
        return Err(format!("exchange for {:?} failed: {}", u, e));
    }
    let got = out.lock().unwrap().clone();
    let (m, t, v, _) = request_text(&got)?;
    want!(m, name, "method sent for {:?}", u);
    want!(v == "HTTP/1.0" || v == "HTTP/1.1", true, "version {:?} sent for {:?}", v, u);
    same_target(&t, &exp.4, &u)?;
    Ok(exp.4.0.len() > 1 || !exp.4.1.is_empty())
}
fn c24_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    for user in ["", "u:p@", "user:@", "é:ü@", "a:b=c@", "aaaa:bb@"] {
        for loc in ["", "/", "/a", "/a/b?c=d", "?x=1&y=2", "/a#f", "#f", "/a?b#c?d", "/a/?", "/?k", "/a?b=c=d&b=e"] {
            if !f(vec![b"N".to_vec(), b"http://".to_vec(), user.as_bytes().to_vec(), loc.as_bytes().to_vec()]) {
                return;
            }
        }
    }
    for m in crate::pb::METHODS {
        for u in ["http://h", "h:1/a", "http://u:p@h:80/x?y=z#w"] {
            f(vec![b"M".to_vec(), m.as_bytes().to_vec(), u.as_bytes().to_vec()]);
        }
    }
    texts(&["a", "/", "?", "#", "=", "&"], if tier > 0 { 7 } else { 6 }, &mut |t| f(vec![b"M".to_vec(), b"GET".to_vec(), format!("http://h/{}", t).into_bytes()]));
    texts(&["a", "/", "?", "#", "="], 4, &mut |t| f(vec![b"M".to_vec(), b"GET".to_vec(), format!("http://h{}", t).into_bytes()]));
}
fn c24_rand(r: &mut Rng) -> Case {
    if r.chance(1, 400) {
        let user = if r.chance(1, 2) { String::new() } else { format!("{}:{}@", r.word(&["u", "é", "=", "xy", "%40"], 6), r.word(&["p", "%", "+", "zz"], 9)) };
        let loc = format!("{}{}", r.pick(&["", "/", "?", "#"]), r.word(&["a", "/", "?", "#", "=", "&", "é", "bc", "%20", "+"], 12));
        let loc = if loc.is_empty() || loc.starts_with(|x| x == '/' || x == '?' || x == '#') { loc } else { format!("/{}", loc) };
        return vec![b"N".to_vec(), r.pick(&["", "http://"]).as_bytes().to_vec(), user.into_bytes(), loc.into_bytes()];
    }
    let mut u = r.pick(&["http://h", "https://h:8443", "h", "http://u:p@h.x:8080"]).to_string();
    u.push_str(r.pick(&["", "/", "?", "#"]));
    if u.ends_with(|x| x == '/' || x == '?' || x == '#') {
        u.push_str(&r.word(&["a", "/", "?", "#", "=", "&", "é", "bc", "%20", "+", ":", "@", "x=y&"], 14))
    }
    vec![b"M".to_vec(), r.pick(&crate::pb::METHODS).as_bytes().to_vec(), u.into_bytes()]
}

// ------------------------------------------------------------------ C25: what the client reads
struct Expected {
    version: String,
    code: u16,
    headers: BTreeMap<String, Vec<String>>,
    body: Vec<u8>,
}
/// None: must be refused
fn model(msg: &[u8]) -> Option<Option<Expected>> {
    // status line: version, code and phrase up to the line end
    let nl = match msg.iter().position(|b| *b == b'\n') {
        Some(i) => i,
        None => return Some(None),
    };
    let line = &msg[..nl];
    let line = line.strip_suffix(b"\r").unwrap_or(line);
    if line.contains(&b'\r') {
        return Some(None);
    }
    let mut it = line.splitn(3, |b| *b == b' ');
    let (v, c, p) = match (it.next(), it.next(), it.next()) {
        (Some(v), Some(c), Some(p)) => (v, c, p),
        _ => return Some(None),
    };
    if v != b"HTTP/1.0" && v != b"HTTP/1.1" {
        return Some(None);
    }
    let c = s(c);
    if c.starts_with('+') && c[1..].starts_with(|x: char| x.is_ascii_digit()) {
        return None;
    }
    let code = match c.parse::<u16>() {
        Ok(c) => c,
        Err(_) => return Some(None),
    };
    match phrase(code) {
        Some(q) if q.as_bytes() == p => {}
        _ => return Some(None),
    }
    let (hs, at) = header_block(&msg[nl + 1..]);
    let mut headers: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in hs {
        let e = headers.entry(k.clone()).or_default();
        if k != "Set-Cookie" {
            e.clear()
        }
        e.push(v)
    }
    // cookies of a response are Set-Cookie; a Cookie header is not covered
    if headers.contains_key("Cookie") {
        return None;
    }
    let rest = &msg[nl + 1 + at..];
    let body = match headers.get("Content-Length").map(|v| &v[0]) {
        Some(l) if l.starts_with('+') && l[1..].starts_with(|x: char| x.is_ascii_digit()) => return None,
        Some(l) => match l.parse::<isize>() {
            Ok(-1) => rest,
            Ok(n) if n >= 0 => &rest[..rest.len().min(n as usize)],
            _ => return Some(None),
        },
        None => rest,
    };
    Some(Some(Expected { version: s(v), code, headers, body: body.to_vec() }))
}
/// items: bytes of the response; sizes of the pieces in which they arrive
fn c25(c: &Case) -> Verdict {
    if c.is_empty() || c.len() > 2 {
        return Err("bad case".into());
    }
    let exp = match model(&c[0]) {
        Some(e) => e,
        None => return Ok(false),
    };
    let (mock, _) = Mock::new(c[0].clone(), c.get(1).map(|x| chunks_of(x)).unwrap_or_default());
    let got = hk::exchange(mock, hk::client_request(Method::GET, "http://h/").map_err(|e| format!("bad case {}", e))?);
    match (got, exp) {
        (Err(_), None) => Ok(false),
        (Ok(r), None) => Err(format!("malformed response taken for {} {:?}", hk::response_parts(&r).1, s(&c[0]))),
        (Err(e), Some(_)) => Err(format!("well-formed response refused: {}", e)),
        (Ok(mut r), Some(x)) => {
            let (v, code, h) = hk::response_parts(&r);
            want!(v.to_string(), x.version, "version");
            want!(code, x.code, "status");
            want!(h.map().into_iter().collect::<BTreeMap<_, _>>(), x.headers, "headers");
            want!(r.body(), x.body.clone(), "body");
            Ok(!x.body.is_empty() || h.len() > 0)
        }
    }
}
fn c25_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    for (code, p) in STATUS.iter().filter(|x| x.0 != 0) {
        for v in ["HTTP/1.0", "HTTP/1.1"] {
            f(vec![format!("{} {} {}\r\nA: b\r\n\r\nbody", v, code, p).into_bytes()]);
            f(vec![format!("{} {} {}\n\nbody", v, code, p).into_bytes()]);
            f(vec![format!("{} {} {}", v, code, p).into_bytes()]);
            f(vec![format!("{} {} {} \r\n\r\n", v, code, p).into_bytes()]);
            f(vec![format!("{} {} {}\r\n\r\n", v, code, p.to_uppercase()).into_bytes()]);
        }
    }
    for n in 0..1200u32 {
        f(vec![format!("HTTP/1.1 {} OK\r\n\r\n", n).into_bytes()]);
    }
    for l in ["", "HTTP/1.1", "HTTP/1.1 ", "HTTP/1.1 200", "HTTP/1.1 200 ", "HTTP/2.0 200 OK", "HTTP/1.1  200 OK", "http/1.1 200 OK", "HTTP/1.1 0200 OK",
              "HTTP/1.1 200 O K", "HTTP/1.1 65736 OK", "HTTP/1.1 -200 OK", "HTTP/1.1 200 OK\r", "HTTP/1.1 200 OK\rX", " HTTP/1.1 200 OK", "HTTP/1.1 200 OK\u{e9}"] {
        for e in ["", "\r\n", "\n", "\r\n\r\n", "\r\n\r\nxy", "\n\nxy", "\r"] {
            f(vec![format!("{}{}", l, e).into_bytes()]);
        }
    }
    for cl in ["", "0", "1", "5", "6", "7", "-1", "-2", "x", "1.5", "99999999999999999999", "1000000"] {
        for b in ["", "a", "hello", "hello!", "a\r\n\r\nb", "\0\u{1}"] {
            for ch in ["", "1", "40", "3,5,100"] {
                f(vec![format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n{}", cl, b).into_bytes(), ch.as_bytes().to_vec()]);
                f(vec![format!("HTTP/1.1 404 Not Found\r\nSet-Cookie: a=b\r\nSet-Cookie: c=d\r\nX: y\r\nX: z\r\n\r\n{}", b).into_bytes(), ch.as_bytes().to_vec()]);
            }
        }
    }
    texts(&["a", ":", " ", "\r\n", "\n", "\t", "Set-Cookie: "], if tier > 0 { 6 } else { 5 }, &mut |t| f(vec![format!("HTTP/1.1 200 OK\r\n{}", t).into_bytes()]));
}
fn c25_rand(r: &mut Rng) -> Case {
    let (code, p) = STATUS[r.below(STATUS.len())];
    let mut m = format!("{} {} {}{}", r.pick(&["HTTP/1.1", "HTTP/1.0", "HTTP/1.1", "HTTP/1.1", "HTTP/3"]), code, p, r.pick(&["\r\n", "\n", "\r\n", "\r\n"])).into_bytes();
    let mut body = vec![];
    for _ in 0..r.size() {
        body.push(if r.chance(1, 3) { b'a' } else { r.next() as u8 })
    }
    for _ in 0..r.below(5) {
        let l = match r.below(6) {
            0 => format!("Content-Length: {}", (body.len() as i64 + r.below(5) as i64 - 2).max(-2)),
            1 => format!("Set-Cookie: {}", r.word(&["a=b", ";", " ", "Path=/", "x"], 5)),
            2 => format!("{}: {}", r.pick(&["X", "Y", "Content-Type", "Connection"]), r.word(&["a", " ", ":", "\t", "keep-alive", "é"], 5)),
            3 => r.word(&["a", ":", " ", "\t", "\r"], 6),
            _ => format!("{}:{}", r.word(&["k", "-", "X"], 3), r.word(&[" ", "v", "\t", "w"], 5)),
        };
        m.extend_from_slice(l.as_bytes());
        m.extend_from_slice(r.pick(&["\r\n", "\r\n", "\n"]).as_bytes());
    }
    if !r.chance(1, 12) {
        m.extend_from_slice(r.pick(&["\r\n", "\r\n", "\n"]).as_bytes());
        m.extend_from_slice(&body)
    }
    if r.chance(1, 8) && !m.is_empty() {
        let i = r.below(m.len());
        match r.below(3) {
            0 => { m.remove(i); }
            1 => m[i] = r.next() as u8,
            _ => m.truncate(i),
        }
    }
    let ch = rand_chunks(r, m.len());
    vec![m, ch]
}

// ------------------------------------------------------------------ C29: one connection per request
/// items: one per round of fetches: the number of fetches at once; then a letter for each: how its server end behaves
/// (c: answers and closes, k: announces keep-alive and closes a little later, h: answers slowly, d: closes without an answer)
fn c29(c: &Case) -> Verdict {
    use std::sync::{atomic::{AtomicBool, Ordering}, mpsc, Arc, Mutex};
    if c.is_empty() || c.len() > 4 || c.iter().any(|r| r.is_empty() || r.len() > 6 || r.iter().any(|b| !b"ckhd".contains(b))) {
        return Err("bad case".into());
    }
    let l = TcpListener::bind("127.0.0.1:0").map_err(|_| "bad case")?;
    l.set_nonblocking(true).map_err(|_| "bad case")?;
    let port = l.local_addr().map_err(|_| "bad case")?.port();
    let stop = Arc::new(AtomicBool::new(false));
    let seen: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let server = { let (stop, seen) = (stop.clone(), seen.clone()); std::thread::spawn(move || {
        let mut open = vec![];
        while !stop.load(Ordering::SeqCst) {
            let mut st = match l.accept() { Ok((st, _)) => st, Err(_) => { std::thread::sleep(Duration::from_micros(300)); continue } };
            let seen = seen.clone();
            open.push(std::thread::spawn(move || {
                st.set_nonblocking(false).ok();
                st.set_read_timeout(Some(Duration::from_secs(5))).ok();
                let mut got = vec![];
                let mut buf = [0u8; 4096];
                while !got.ends_with(b"\r\n\r\n") {
                    match st.read(&mut buf) { Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]), _ => break }
                }
                let path = s(&got).split(' ').nth(1).unwrap_or("").to_string();
                let mode = path.bytes().last().unwrap_or(b'c');
                if mode == b'h' { std::thread::sleep(Duration::from_millis(20)) }
                if mode != b'd' {
                    let conn = if mode == b'k' { "Connection: keep-alive\r\n" } else { "" };
                    st.write_all(format!("HTTP/1.1 200 OK\r\n{}Content-Length: {}\r\n\r\n{}", conn, path.len(), path).as_bytes()).ok();
                    if mode == b'k' { std::thread::sleep(Duration::from_millis(15)) }
                }
                st.shutdown(std::net::Shutdown::Write).ok();
                // whatever else the client sends on this connection
                loop { match st.read(&mut buf) { Ok(n) if n > 0 => got.extend_from_slice(&buf[..n]), _ => break } }
                seen.lock().unwrap().push(got)
            }));
        }
        for t in open { let _ = t.join(); }
    }) };
    let mut bad = None;
    'rounds: for (i, r) in c.iter().enumerate() {
        let (tx, rx) = mpsc::channel();
        for (j, m) in r.iter().enumerate() {
            let (tx, u, m) = (tx.clone(), format!("/{}/{}/{}", i, j, *m as char), *m);
            std::thread::spawn(move || {
                let r = HttpClient::get(&format!("http://127.0.0.1:{}{}", port, u));
                let _ = tx.send(match r {
                    Ok(mut r) => {
                        let b = s(&r.body());
                        if m != b'd' && b == u { None } else { Some(format!("fetching {:?}: body {:?}", u, b)) }
                    }
                    Err(_) if m == b'd' => None,
                    Err(e) => Some(format!("fetching {:?} failed: {}", u, e)),
                });
            });
        }
        for _ in r.iter() {
            match rx.recv_timeout(Duration::from_secs(12)) {
                Ok(None) => {}
                Ok(w) => { bad = w; break 'rounds }
                Err(_) => { bad = Some(format!("a fetch of round {} has not returned after 12 s", i)); break 'rounds }
            }
        }
    }
    stop.store(true, Ordering::SeqCst);
    let _ = server.join();
    if let Some(w) = bad {
        return Err(w);
    }
    let seen = seen.lock().unwrap();
    for g in seen.iter() {
        want!(s(g).matches("GET /").count(), 1, "requests on the connection that carried {:?}", s(g));
    }
    want!(seen.len(), c.iter().map(|r| r.len()).sum::<usize>(), "connections opened");
    Ok(c.len() > 1 || c[0].len() > 1)
}
fn c29_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    for a in ["c", "k", "h", "d", "cc", "kk", "ck", "kd", "kkk", "chkd", "kkkkkk"] {
        for b in ["", "c", "k", "kc", "kkkk"] {
            let mut c: Case = vec![a.into()];
            if !b.is_empty() { c.push(b.into()); c.push(b.into()) }
            if !f(c) { return }
        }
    }
}
fn c29_rand(r: &mut Rng) -> Case {
    (0..1 + r.below(4)).map(|_| r.word(&["c", "k", "h", "d", "k"], 5).into_bytes()).map(|w| if w.is_empty() { b"k".to_vec() } else { w }).collect()
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C29", rule: "up to 4 rounds of up to 6 fetches at once from a loopback server that answers and closes, announces keep-alive, answers slowly or not at all; non-trivial: more than one fetch",
               enumerate: c29_enum, random: c29_rand, check: c29, threads: 4, spice: false },
        Prop { id: "C24", rule: "URLs over credentials, hosts, ports, paths, queries and fragments fetched by the client, over loopback and on a recording stream; non-trivial: the URL has credentials, a path or a query",
               enumerate: c24_enum, random: c24_rand, check: c24, threads: 8, spice: true },
        Prop { id: "C25", rule: "response byte strings, well-formed and damaged, in pieces of every size; non-trivial: read, with a header or a body",
               enumerate: c25_enum, random: c25_rand, check: c25, threads: 8, spice: true },
    ]
}
