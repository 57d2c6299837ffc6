//! C02: filters and handlers, through a real server on the loopback interface
use crate::pa::want;
use crate::util::*;
use crate::{Case, Prop, Rng, Verdict};
use starry::utils::concurrent::ThreadPool;
use starry::{Context, Extend, HttpServer, Limit, Status};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

static TRACE: Mutex<Option<HashMap<String, Vec<String>>>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(0);

fn note(ctx: &Context, what: String) {
    let id = ctx.req_header_get("X-Id").unwrap_or_default();
    TRACE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).entry(id).or_default().push(what)
}
/// what a touching filter does: a digit in X-Touch says which
const TOUCHES: [(u16, &str); 8] = [(0, ""), (100, "Continue"), (404, "Not Found"), (500, "Internal Server Error"), (403, "Forbidden"), (200, "OK"), (304, "Not Modified"), (0, "")];
fn touch(ctx: &mut Context, name: char) {
    let t = ctx.req_header_get("X-Touch").unwrap_or_default();
    match t.chars().find(|x| x.is_ascii_digit()) {
        Some('1') => ctx.resp_status(Status::CONTINUE),
        Some('2') => ctx.resp_status(Status::NOT_FOUND),
        Some('3') => ctx.resp_status(Status::INTERNAL_SERVER_ERROR),
        Some('4') => ctx.resp_status(Status::FORBIDDEN),
        Some('5') => ctx.resp_status(Status::OK),
        Some('6') => ctx.resp_status(Status::NOT_MODIFIED),
        Some('7') => ctx.resp_add_header_str("X-Touched", "yes"),
        _ => ctx.resp_body(format!("touched by {}", name).into_bytes()),
    }
}
/// a filter answers when its letter is in the request's X-Answer header; it may write a body without answering (X-Touch)
fn filter<const N: u8>(ctx: &mut Context) {
    let name = (b'a' + N) as char;
    note(ctx, format!("filter {}", name));
    if ctx.req_header_get("X-Touch").map(|x| x.contains(name)).unwrap_or(false) {
        touch(ctx, name)
    }
    if ctx.req_header_get("X-Answer").map(|x| x.contains(name)).unwrap_or(false) {
        let mut body = format!("filter {}", name).into_bytes();
        if ctx.req_header_get("X-Big").is_some() {
            body.resize(BIG, b'.')
        }
        ctx.resp_body(body);
        ctx.response()
    }
}
/// more than the socket buffers take, so that writing it fails once the peer is gone
const BIG: usize = 24 << 20;
fn handler<const N: u8>(ctx: &mut Context) {
    note(ctx, format!("handler {}", N));
    ctx.resp_body(format!("handler {}", N).into_bytes());
    ctx.response()
}
const FILTERS: [fn(&mut Context); 3] = [filter::<0>, filter::<1>, filter::<2>];
const HANDLERS: [fn(&mut Context); 4] = [handler::<0>, handler::<1>, handler::<2>, handler::<3>];
const METHODS: [&str; 12] = ["OPTIONS", "GET", "POST", "PUT", "DELETE", "HEAD", "TRACE", "CONNECT", "PATCH", "LINK", "UNLINK", "PRI"];

fn chain(t: &str) -> Vec<fn(&mut Context)> {
    t.bytes().filter(|b| b.is_ascii_lowercase()).map(|b| FILTERS[(b - b'a') as usize]).collect()
}
/// "-": no filters given at all; "": an empty list; else letters
fn specs(n: usize) -> Vec<String> {
    let mut v = vec!["-".to_string()];
    texts(&["a", "b", "c"], n, &mut |t| {
        v.push(t);
        true
    });
    v
}
fn routes() -> Vec<String> {
    let mut v = specs(3);
    v.extend(["abcabcabcabcabc", "aaaaaaaaaaaa", "ccccccccba", "ababababababababababab", "abca", "aabbcc"].iter().map(|x| x.to_string()));
    v
}
macro_rules! register {
    ($r:expr, $m:expr, $p:expr, $h:expr, $e:expr) => {{
        let (r, p, h): (_, &str, fn(&mut Context)) = (&$r, $p, $h);
        match $e {
            Some(e) => match $m {
                0 => r.option_wf(p, h, e), 1 => r.get_wf(p, h, e), 2 => r.post_wf(p, h, e), 3 => r.put_wf(p, h, e),
                4 => r.delete_wf(p, h, e), 5 => r.head_wf(p, h, e), 6 => r.trace_wf(p, h, e), 7 => r.connect_wf(p, h, e),
                8 => r.patch_wf(p, h, e), 9 => r.link_wf(p, h, e), 10 => r.unlink_wf(p, h, e), _ => r.pri_wf(p, h, e),
            },
            None => match $m {
                0 => r.option(p, h), 1 => r.get(p, h), 2 => r.post(p, h), 3 => r.put(p, h),
                4 => r.delete(p, h), 5 => r.head(p, h), 6 => r.trace(p, h), 7 => r.connect(p, h),
                8 => r.patch(p, h), 9 => r.link(p, h), 10 => r.unlink(p, h), _ => r.pri(p, h),
            },
        }
    }};
}
struct Server {
    port: u16,
    groups: Vec<String>,
    routes: Vec<String>,
}
fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let mut srv = HttpServer::new();
        srv.set_pool_size(16);
        let dir = std::env::temp_dir().join(format!("starry-replay-{}", std::process::id()));
        srv.set_log(log::LevelFilter::Off, dir.to_string_lossy().to_string(), 16, 2);
        let (groups, routes) = (specs(2), routes());
        let mut k = 0;
        for (i, g) in groups.iter().enumerate() {
            // groups spread over a few prefixes, so that routes of different groups share tree nodes
            let prefix = format!("/g{}", i % 3);
            let r = if g == "-" { srv.router(&prefix) } else { srv.router_wf(&prefix, Extend::e1(chain(g))) };
            for (j, t) in routes.iter().enumerate() {
                for m in [k % 12, (k + 5) % 12] {
                    let e = if t == "-" { None } else { Some(Extend::e1(chain(t))) };
                    register!(r, m, &format!("/{}/{}{}", i, j, if j % 3 == 2 { "/:v" } else { "" }), HANDLERS[(i + j + m) % 4], e)
                }
                k += 1
            }
        }
        // routes with a limit that lets everything pass
        let r = srv.router_wf("/lim", Extend::e1(chain("c")));
        r.get_wf("/0", HANDLERS[0], Extend::e3(chain("ab"), Limit::new(-1, 4, -1)));
        r.get_wf("/1", HANDLERS[1], Extend::e2(Limit::new(-1, 4, -1)));
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        std::thread::spawn(move || srv.listener(("127.0.0.1", port)).map_err(|e| e.to_string()));
        let t = Instant::now();
        while TcpStream::connect(("127.0.0.1", port)).is_err() && t.elapsed() < Duration::from_secs(10) {
            std::thread::sleep(Duration::from_millis(20))
        }
        let _ = std::fs::remove_dir_all(&dir);
        Server { port, groups, routes }
    })
}
/// items: group number, route number, which of the two methods, letters that answer, letters that touch the response; or "lim", 0 or 1, "", ...
/// a sixth item "hup": the answering filter's body is large, and the peer hangs up after its first byte
fn c02(c: &Case) -> Verdict {
    let hup = c.len() == 6 && c[5] == b"hup" && !c[3].is_empty();
    if c.len() != 5 && !hup {
        return Err("bad case".into());
    }
    let sv = server();
    let (answer, touch) = (s(&c[3]), s(&c[4]));
    let (path, m, order, h) = if c[0] == b"lim" {
        match &c[1][..] {
            b"0" => ("/lim/0".to_string(), "GET", "abc".to_string(), 0),
            b"1" => ("/lim/1".to_string(), "GET", "c".to_string(), 1),
            _ => return Err("bad case".into()),
        }
    } else {
        let n = |b: &[u8], max: usize| s(b).parse::<usize>().ok().filter(|n| *n < max).ok_or("bad case".to_string());
        let (i, j, w) = (n(&c[0], sv.groups.len())?, n(&c[1], sv.routes.len())?, n(&c[2], 2)?);
        let k = i * sv.routes.len() + j;
        let m = (k + 5 * w) % 12;
        (format!("/g{}/{}/{}{}", i % 3, i, j, if j % 3 == 2 { "/x.7" } else { "" }), METHODS[m], format!("{}{}", sv.routes[j], sv.groups[i]).replace('-', ""), (i + j + m) % 4)
    };
    if !answer.bytes().all(|b| (b'a'..b'd').contains(&b)) || !touch.bytes().all(|b| (b'a'..b'd').contains(&b) || (b'0'..b'8').contains(&b)) {
        return Err("bad case".into());
    }
    let id = NEXT.fetch_add(1, Ordering::SeqCst).to_string();
    let io = |e: std::io::Error| format!("no answer to {} {}: {}", m, path, e);
    let mut st = match (0..100).find_map(|k| {
        std::thread::sleep(Duration::from_millis(k));
        TcpStream::connect(("127.0.0.1", sv.port)).ok()
    }) {
        Some(st) => st,
        // out of ports: nothing to do with the code
        None => return Err("bad case".into()),
    };
    st.set_read_timeout(Some(Duration::from_secs(15))).map_err(io)?;
    st.write_all(format!("{} {} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\nX-Answer: {}\r\nX-Touch: {}\r\n{}\r\n", m, path, id, answer, touch, if hup { "X-Big: 1\r\n" } else { "" }).as_bytes()).map_err(io)?;
    let mut out = vec![];
    let mut buf = [0u8; 4096];
    loop {
        if hup && !out.is_empty() {
            // bytes left unread: the connection is reset
            drop(st);
            std::thread::sleep(Duration::from_millis(if order.contains(|x| answer.contains(x)) { 300 } else { 0 }));
            break;
        }
        match st.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => out.extend_from_slice(&buf[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => break,
            Err(e) => return Err(io(e)),
        }
    }
    // filters and the handler are done before the connection is closed
    let got = TRACE.lock().unwrap().get_or_insert_with(HashMap::new).remove(&id).unwrap_or_default();
    let mut exp = vec![];
    let mut body = format!("handler {}", h);
    let mut answered = false;
    let what = touch.bytes().find(|x| x.is_ascii_digit()).map(|b| TOUCHES[(b - b'0') as usize]).unwrap_or((0, ""));
    let mut status = (200, "OK");
    for x in order.chars() {
        if touch.contains(x) && what.0 > 0 {
            status = what
        }
        exp.push(format!("filter {}", x));
        if answer.contains(x) {
            body = format!("filter {}", x);
            answered = true;
            break;
        }
    }
    if !answered {
        exp.push(body.clone())
    }
    want!(got, exp, "what ran for {} {} (filters {:?}, answering {:?})", m, path, order, answer);
    if hup {
        return Ok(order.contains(|x| answer.contains(x)));
    }
    let text = s(&out);
    match text.find("\r\n\r\n") {
        Some(i) if text.starts_with(&format!("HTTP/1.1 {} {}\r\n", status.0, status.1)) => want!(&text[i + 4..], &body[..], "body of the answer to {} {}", m, path),
        _ => return Err(format!("answer to {} {} is {:?}", m, path, text)),
    }
    Ok(order.len() > 0)
}
fn c02_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let (groups, routes) = (specs(2).len(), routes().len());
    for l in ["0", "1"] {
        for a in ["", "c", "a", "b"] {
            f(vec![b"lim".to_vec(), l.into(), b"0".to_vec(), a.into(), b"".to_vec()]);
        }
    }
    for (i, j, a) in [(1, 3, "a"), (4, 7, "a"), (4, 7, "b"), (5, 20, "b"), (6, 35, "c")] {
        f(vec![i.to_string().into(), j.to_string().into(), b"0".to_vec(), a.into(), b"".to_vec(), b"hup".to_vec()]);
    }
    let mut k = 0usize;
    for i in 0..groups {
        for j in 0..routes {
            for a in ["", "a", "b", "c"] {
                for t in ["", "ab", ["abc1", "abc2", "a3", "ac4", "b6", "c7"][(i + j) % 6]] {
                    k += 1;
                    if tier == 0 && k % 2 == 0 && t != "" && a != "" {
                        continue;
                    }
                    if !f(vec![i.to_string().into(), j.to_string().into(), (k % 2).to_string().into(), a.into(), t.into()]) {
                        return;
                    }
                }
            }
        }
    }
}
fn c02_rand(r: &mut Rng) -> Case {
    vec![r.below(14).to_string().into(), r.below(47).to_string().into(), r.below(2).to_string().into(),
         r.pick(&["", "a", "b", "c", "ab", "bc", "abc"]).into(), format!("{}{}", r.pick(&["", "a", "b", "c", "ab", "abc"]), r.pick(&["", "0", "1", "2", "3", "4", "5", "6", "7"])).into()]
}
/// section, count, interval (milliseconds)
const LIMITS: [(i64, usize, i64); 8] = [(400, 1, 0), (600, 2, 0), (700, 3, 0), (800, 2, 150), (500, 1, 100), (700, 4, 0), (900, 3, 200), (-1, 2, 250)];
static HITS: Mutex<Option<HashMap<String, Instant>>> = Mutex::new(None);
fn limited(ctx: &mut Context) {
    let id = ctx.req_header_get("X-Id").unwrap_or_default();
    HITS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).insert(id, Instant::now());
    ctx.resp_body(b"ok".to_vec());
    ctx.response()
}
/// a server of its own: requests that wait for their turn hold its workers. Each limit has 3 routes
fn limit_server() -> u16 {
    static S: OnceLock<u16> = OnceLock::new();
    *S.get_or_init(|| {
        let mut srv = HttpServer::new();
        srv.set_pool_size(96);
        let dir = std::env::temp_dir().join(format!("starry-replay-l{}", std::process::id()));
        srv.set_log(log::LevelFilter::Off, dir.to_string_lossy().to_string(), 16, 2);
        let r = srv.router("/limit");
        let g = srv.router_wf("/limit", Extend::e1(chain("a")));
        for (i, (a, b, c)) in LIMITS.iter().enumerate() {
            r.get_wf(&format!("/{}/0", i), limited, Extend::e2(Limit::new(*a, *b, *c)));
            g.head_wf(&format!("/{}/1", i), limited, Extend::e3(chain("b"), Limit::new(*a, *b, *c)));
            g.post_wf(&format!("/{}/2", i), limited, Extend::e2(Limit::new(*a, *b, *c)));
        }
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        std::thread::spawn(move || srv.listener(("127.0.0.1", port)).map_err(|e| e.to_string()));
        let t = Instant::now();
        while TcpStream::connect(("127.0.0.1", port)).is_err() && t.elapsed() < Duration::from_secs(10) {
            std::thread::sleep(Duration::from_millis(20))
        }
        let _ = std::fs::remove_dir_all(&dir);
        port
    })
}
/// items: number of a limit, one of its routes, idle time before, arrivals (milliseconds, separated by commas)
fn c28(c: &Case) -> Verdict {
    if c.len() != 4 {
        return Err("bad case".into());
    }
    let n = |b: &[u8], max: u64| s(b).parse::<u64>().ok().filter(|n| *n < max).ok_or("bad case".to_string());
    let (l, route, idle) = (n(&c[0], LIMITS.len() as u64)? as usize, n(&c[1], 3)?, n(&c[2], 10000)?);
    let arrivals: Vec<u64> = s(&c[3]).split(',').map(|x| n(x.as_bytes(), 5000)).collect::<Result<_, _>>()?;
    if arrivals.len() > 12 {
        return Err("bad case".into());
    }
    let (section, count, interval) = LIMITS[l];
    let port = limit_server();
    std::thread::sleep(Duration::from_millis(idle));
    let t0 = Instant::now();
    // each request is let through between the time it was sent and the time its handler ran
    let mut spans: Vec<(Duration, Duration)> = arrivals.iter().map(|at| {
        let at = *at;
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_millis(at).saturating_sub(t0.elapsed()));
            let id = format!("l{}", NEXT.fetch_add(1, Ordering::SeqCst));
            let sent = t0.elapsed();
            let mut st = TcpStream::connect(("127.0.0.1", port)).ok()?;
            st.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
            st.write_all(format!("{} /limit/{}/{} HTTP/1.1\r\nHost: h\r\nX-Id: {}\r\nConnection: close\r\n\r\n", ["GET", "HEAD", "POST"][route as usize], l, route, id).as_bytes()).ok()?;
            let mut out = vec![];
            let _ = st.read_to_end(&mut out);
            let at = HITS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).remove(&id)?;
            Some((sent, at.duration_since(t0)))
        })
    }).collect::<Vec<_>>().into_iter().filter_map(|t| t.join().ok().flatten()).collect();
    spans.sort_by_key(|x| x.1);
    let tight = |k: usize, w: i64| spans.windows(k).find(|v| {
        // 3 ms: the limiter reads a clock of its own
        w > 3 && v.iter().map(|x| x.1).max().unwrap() - v.iter().map(|x| x.0).min().unwrap() < Duration::from_millis(w as u64 - 3)
    }).map(|v| v.iter().map(|x| format!("{:?}..{:?}", x.0, x.1)).collect::<Vec<_>>());
    if let Some(v) = tight(count + 1, section) {
        return Err(format!("limit of {} requests in {} ms: {} requests passed within that time: {:?}", count, section, count + 1, v));
    }
    if let Some(v) = tight(2, interval) {
        return Err(format!("limit of one request in {} ms: two requests passed within that time: {:?}", interval, v));
    }
    Ok(spans.len() > count)
}
fn c28_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let mut k = 0;
    for idle in [0u64, 2600] {
        for l in 0..LIMITS.len() {
            let (section, count, _) = LIMITS[l];
            let half = (section / 2).max(40) as u64;
            let mut plans: Vec<Vec<u64>> = vec![vec![0; 2 * count + 2], (0..2 * count as u64 + 2).map(|i| if i < 2 { 0 } else { half + i }).collect()];
            if tier > 0 {
                plans.push((0..12).map(|i| i * half / 3).collect());
                plans.push((0..12).map(|i| i / 4 * 2 * half).collect());
            }
            for p in plans {
                k += 1;
                if !f(vec![l.to_string().into(), (k % 3).to_string().into(), idle.to_string().into(), p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",").into()]) {
                    return;
                }
            }
        }
    }
}
fn c28_rand(r: &mut Rng) -> Case {
    let n = 2 + r.below(10);
    let span = [1usize, 200, 900, 2500][r.below(4)];
    let p: Vec<String> = (0..n).map(|_| r.below(span).to_string()).collect();
    vec![r.below(LIMITS.len()).to_string().into(), r.below(3).to_string().into(), r.pick(&["0", "300", "900", "2000"]).to_string().into(), p.join(",").into()]
}
const KEEPALIVE: u64 = 1500;
fn keep_server() -> u16 {
    static S: OnceLock<u16> = OnceLock::new();
    *S.get_or_init(|| {
        let mut srv = HttpServer::new();
        srv.set_pool_size(16);
        srv.set_keepalive(KEEPALIVE as i64);
        let dir = std::env::temp_dir().join(format!("starry-replay-k{}", std::process::id()));
        srv.set_log(log::LevelFilter::Off, dir.to_string_lossy().to_string(), 16, 2);
        let r = srv.router("");
        r.get("/k", handler::<0>);
        r.post("/k", handler::<0>);
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        std::thread::spawn(move || srv.listener(("127.0.0.1", port)).map_err(|e| e.to_string()));
        let t = Instant::now();
        while TcpStream::connect(("127.0.0.1", port)).is_err() && t.elapsed() < Duration::from_secs(10) {
            std::thread::sleep(Duration::from_millis(20))
        }
        let _ = std::fs::remove_dir_all(&dir);
        port
    })
}
/// one connection; gaps: idle times (milliseconds) before the second, third, ... request.
/// Judged against times that a stalled machine can only move to the safe side: the latest request was served after the
/// moment it was sent, so an end less than a keep-alive time after that moment is early whatever was delayed.
fn c27_once(gaps: &[u64]) -> Verdict {
    let mut st = TcpStream::connect(("127.0.0.1", keep_server())).map_err(|_| "bad case")?;
    let _ = st.set_nodelay(true);
    let keep = Duration::from_millis(KEEPALIVE);
    let slack = Duration::from_millis(20);
    let mut buf = [0u8; 4096];
    let mut sent = Instant::now();
    for i in 0..gaps.len() + 1 {
        if i > 0 {
            std::thread::sleep(Duration::from_millis(gaps[i - 1]))
        }
        let before = sent;
        sent = Instant::now();
        st.set_read_timeout(Some(Duration::from_secs(10))).map_err(|_| "bad case")?;
        let req: &[u8] = if i % 2 == 0 { b"GET /k HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\n\r\n" } else { b"POST /k HTTP/1.1\r\nHost: h\r\nConnection: keep-alive\r\nContent-Length: 2\r\n\r\nab" };
        let mut got: Vec<u8> = vec![];
        if st.write_all(req).is_ok() {
            while !got.ends_with(b"handler 0") {
                match st.read(&mut buf) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => got.extend_from_slice(&buf[..n]),
                }
            }
        }
        if !got.ends_with(b"handler 0") {
            if before.elapsed() + slack >= keep {
                return Ok(false); // the machine stalled: the idle time may have been over
            }
            return Err(format!("keep-alive time {} ms, idle times {:?}: request {} was not answered: the connection is closed", KEEPALIVE, gaps, i + 1));
        }
    }
    let t = Instant::now();
    st.set_read_timeout(Some(Duration::from_millis(KEEPALIVE + 1200))).map_err(|_| "bad case")?;
    match st.read(&mut buf) {
        Ok(0) if sent.elapsed() + slack < keep => Err(format!("keep-alive time {} ms, idle times {:?}: closed after {:?}", KEEPALIVE, gaps, sent.elapsed())),
        Ok(n) if n > 0 => Err("an answer to no request".to_string()),
        Ok(_) if t.elapsed() > keep + Duration::from_millis(1000) => Err(format!("keep-alive time {} ms, idle times {:?}: still open after {:?}", KEEPALIVE, gaps, t.elapsed())),
        Err(e) if e.kind() != std::io::ErrorKind::ConnectionReset => Err(format!("keep-alive time {} ms, idle times {:?}: still open after {:?}", KEEPALIVE, gaps, t.elapsed())),
        _ => Ok(gaps.len() > 0),
    }
}
/// items: idle times. Reported only when it fails three times: a stalled machine is not a defect
fn c27(c: &Case) -> Verdict {
    if c.len() > 8 {
        return Err("bad case".into());
    }
    let gaps: Vec<u64> = c.iter().map(|x| s(x).parse::<u64>().ok().filter(|n| *n <= KEEPALIVE * 3 / 4).ok_or("bad case".to_string())).collect::<Result<_, _>>()?;
    if gaps.iter().sum::<u64>() > 3500 {
        return Err("bad case".into());
    }
    let mut r = c27_once(&gaps);
    for _ in 0..2 {
        if r.is_err() {
            r = c27_once(&gaps)
        }
    }
    r
}
fn c27_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    for g in [&[][..], &[0], &[600], &[500, 500, 500, 500], &[650, 650, 650], &[300, 300, 300, 300, 300, 300, 300], &[0, 0, 600, 0, 600], &[600, 0, 0], &[600, 1100], &[0, 1100], &[1100, 100, 1000], &[0, 0, 0, 0, 0, 0, 0, 0]] {
        if !f(g.iter().map(|x: &u64| x.to_string().into()).collect()) {
            return;
        }
    }
}
fn c27_rand(r: &mut Rng) -> Case {
    let top = if r.chance(1, 2) { 650 } else { 1125 };
    let n = r.below(if top > 700 { 4 } else { 6 });
    (0..n).map(|_| r.below(top).to_string().into()).collect()
}
const POOLS: [(usize, usize); 6] = [(1, 1), (1, 8), (2, 2), (2, 30), (3, 30), (5, 3)];
static FREE: Mutex<Vec<Vec<(Arc<ThreadPool>, Vec<u8>)>>> = Mutex::new(vec![]);
/// items: a pool, a script: j a job, p a job that panics, s a job that takes a while, l a job that goes on to the end of the script (one worker at least is left),
/// w wait a little, W wait longer, d wait until everything is done; a script that starts with N gets a pool of its own
fn c26(c: &Case) -> Verdict {
    if c.len() != 2 || c[1].len() > if c[1].starts_with(b"N") { 100000 } else { 60 } {
        return Err("bad case".into());
    }
    let own = c[1].starts_with(b"N");
    let script = &c[1][own as usize..];
    let k = s(&c[0]).parse::<usize>().ok().filter(|n| *n < POOLS.len()).ok_or("bad case".to_string())?;
    // pools keep their threads for ever: use them again
    let old = { let mut f = FREE.lock().unwrap_or_else(|e| e.into_inner()); f.resize(POOLS.len(), vec![]); if own { None } else { f[k].pop() } };
    let (pool, mut before) = match old {
        Some((p, mut h)) => {
            // should it fail now, then because of what the pool went through before as well
            h.push(b'd');
            h.extend_from_slice(script);
            let mut all = vec![b'N'];
            all.extend_from_slice(&h);
            crate::INSTEAD.with(|i| *i.borrow_mut() = Some(vec![c[0].clone(), all]));
            (p, h)
        }
        None => {
            let mut b = ThreadPool::builder();
            b.pool_size(POOLS[k].0).task_count(POOLS[k].1).name_prefix("pool under test ");
            (Arc::new(b.create().map_err(|e| e.to_string())?), script.to_vec())
        }
    };
    let runs: Arc<Vec<AtomicU64>> = Arc::new(script.iter().map(|_| AtomicU64::new(0)).collect());
    let over = Arc::new((AtomicU64::new(0), AtomicU64::new(0)));
    let mut long = 0;
    let mut taken = vec![false; script.len()];
    let done = |taken: &[bool], ms: u64| {
        let t = Instant::now();
        loop {
            if (0..taken.len()).all(|i| !taken[i] || runs[i].load(Ordering::SeqCst) > 0) {
                return true;
            }
            if t.elapsed() > Duration::from_millis(ms) {
                return false;
            }
            std::thread::sleep(Duration::from_micros(50))
        }
    };
    for (i, x) in script.iter().enumerate() {
        let r = runs.clone();
        let job = |f: fn()| pool.execute(move || { r[i].fetch_add(1, Ordering::SeqCst); f() });
        match x {
            b'j' => taken[i] = job(|| {}).is_ok(),
            b'p' => taken[i] = job(|| panic!("a job that crashes its worker")).is_ok(),
            b's' => taken[i] = job(|| std::thread::sleep(Duration::from_millis(4))).is_ok(),
            b'l' if long + 1 < POOLS[k].0 => {
                let (r, o) = (runs.clone(), over.clone());
                taken[i] = pool.execute(move || {
                    r[i].fetch_add(1, Ordering::SeqCst);
                    while o.0.load(Ordering::SeqCst) == 0 { std::thread::sleep(Duration::from_millis(1)) }
                    o.1.fetch_add(1, Ordering::SeqCst);
                }).is_ok();
                long += taken[i] as u64 as usize
            }
            b'l' => {}
            b'w' => std::thread::sleep(Duration::from_micros(100)),
            b'W' => std::thread::sleep(Duration::from_millis(20)),
            b'd' => if !done(&taken, 8000) { break },
            _ => return Err("bad case".into()),
        }
    }
    let all = done(&taken, 8000);
    over.0.store(1, Ordering::SeqCst);
    if !all {
        let l: Vec<usize> = (0..taken.len()).filter(|i| taken[*i] && runs[*i].load(Ordering::SeqCst) == 0).collect();
        return Err(format!("pool of {} workers, queue of {}: accepted jobs {:?} of script {:?} did not run within 8 s", POOLS[k].0, POOLS[k].1, l, s(script)));
    }
    std::thread::sleep(Duration::from_micros(200));
    for i in 0..taken.len() {
        want!(runs[i].load(Ordering::SeqCst), taken[i] as u64, "runs of job {} of script {:?}", i, s(script));
    }
    let t = Instant::now();
    while over.1.load(Ordering::SeqCst) < long as u64 && t.elapsed() < Duration::from_secs(8) { std::thread::sleep(Duration::from_micros(50)) }
    if own {
        return Ok(true);
    }
    crate::INSTEAD.with(|i| *i.borrow_mut() = None);
    if before.len() > 20000 {
        return Ok(true); // enough of this one
    }
    before.shrink_to_fit();
    FREE.lock().unwrap_or_else(|e| e.into_inner())[k].push((pool, before));
    Ok(script.iter().any(|x| b"jpsl".contains(x)))
}
fn c26_enum(tier: u32, f: &mut dyn FnMut(Case) -> bool) {
    let crashes = "pd".repeat(30);
    for (k, t) in [(0, format!("N{}j", crashes)), (2, format!("N{}jdjdj", crashes)), (3, format!("N{}ljjdjjdjdjdj", crashes)), (2, "NpWpWpWljWjWjWjWjWjWjWjWjWjWjWjWjW".into()), (4, "NpWpWpWpWpWlljWjWjWjWjWjWjWjWjWjWjWjW".into()), (2, "NpWljWjWjWjWjWjW".into()), (2, "Npdpdpdljdjdjdjdjdjdjdjdj".into()), (4, "Npdpdpdlljdjdjdjdjdjdjdjdj".into()),
        (4, "Npldpdpdlpdpdjdjdjdjdjdj".into()), (5, "Npppdllppdppdlldpdpdjdjdjdj".into()), (1, "Npppppppppdpppppppdjjjj".into())] {
        if !f(vec![k.to_string().into(), t.into()]) {
            return;
        }
    }
    for k in 0..POOLS.len() {
        for t in ["j", "p", "pj", "ppj", "ppppppj", "pdjdpdj", "sssspppp", "jjjjjjjj", "pppppppppppdjjjjjj", "spspspspspjjjdpj", "swjswjswj"] {
            if !f(vec![k.to_string().into(), t.into()]) {
                return;
            }
        }
    }
    // a job submitted just as the worker gets free
    for k in 0..if tier > 0 { 3000 } else { 300 } {
        if !f(vec![(k % 2).to_string().into(), "jdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjdjd".into()]) {
            return;
        }
    }
}
fn c26_rand(r: &mut Rng) -> Case {
    let n = 1 + r.below(58);
    let t: String = (0..n).map(|_| r.pick(&["j", "j", "j", "p", "s", "w", "d", "d", "l"])).collect();
    vec![r.below(POOLS.len()).to_string().into(), t.into()]
}
const OPEN: [(usize, bool, i64); 5] = [(8, false, 30000), (8, true, 30000), (8, false, -5), (8, true, 60000), (1, false, 30000)];
fn who(ctx: &mut Context) {
    let t = ctx.req_client_addr().to_string() + &".".repeat(300);
    ctx.resp_body(t.into_bytes());
    ctx.response()
}
fn open_server(k: usize) -> u16 {
    static S: Mutex<[Option<u16>; 5]> = Mutex::new([None; 5]);
    let mut l = S.lock().unwrap_or_else(|e| e.into_inner());
    *l[k].get_or_insert_with(|| {
        let mut srv = HttpServer::new();
        srv.set_pool_size(OPEN[k].0);
        srv.set_keepalive(OPEN[k].2);
        if OPEN[k].1 {
            srv.set_compress()
        }
        let dir = std::env::temp_dir().join(format!("starry-replay-o{}-{}", k, std::process::id()));
        srv.set_log(log::LevelFilter::Off, dir.to_string_lossy().to_string(), 16, 2);
        srv.router("").get("/who", who);
        let port = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        std::thread::spawn(move || srv.listener(("0.0.0.0", port)).map_err(|e| e.to_string()));
        let t = Instant::now();
        while TcpStream::connect(("127.0.0.1", port)).is_err() && t.elapsed() < Duration::from_secs(10) {
            std::thread::sleep(Duration::from_millis(20))
        }
        let _ = std::fs::remove_dir_all(&dir);
        port
    })
}
fn served_again(port: u16, what: &str) -> Verdict {
    let t = Instant::now();
    loop {
        if let Ok(mut st) = TcpStream::connect(("127.0.0.1", port)) {
            st.set_read_timeout(Some(Duration::from_secs(5))).map_err(|_| "bad case")?;
            let _ = st.write_all(b"GET /who HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n");
            let mut v = vec![];
            let _ = st.read_to_end(&mut v);
            if v.starts_with(b"HTTP/1.1 200 ") {
                return Ok(true);
            }
        }
        if t.elapsed() > Duration::from_secs(12) {
            return Err(format!("{}, no further connection is served for 12 s", what));
        }
        std::thread::sleep(Duration::from_millis(100))
    }
}
/// items: "bind": the port is taken; or a server, the number of connections, 1 when they ask for a compressed answer
fn c30(c: &Case) -> Verdict {
    if c.len() == 1 && c[0] == b"bind" {
        let l = TcpListener::bind("127.0.0.1:0").map_err(|_| "bad case")?;
        let port = l.local_addr().map_err(|_| "bad case")?.port();
        let mut srv = HttpServer::new();
        srv.set_pool_size(1);
        let dir = std::env::temp_dir().join(format!("starry-replay-b{}", std::process::id()));
        srv.set_log(log::LevelFilter::Off, dir.to_string_lossy().to_string(), 16, 2);
        let (tx, rx) = std::sync::mpsc::channel();
        let t = std::thread::spawn(move || { let _ = tx.send(srv.listener(("127.0.0.1", port)).is_ok()); });
        let r = rx.recv_timeout(Duration::from_secs(10));
        if !matches!(r, Err(std::sync::mpsc::RecvTimeoutError::Timeout)) {
            let _ = t.join();
        }
        let _ = std::fs::remove_dir_all(&dir);
        return match r {
            Ok(false) => Ok(true),
            Ok(true) => Err("listener on a port that is taken returned Ok".into()),
            Err(_) => Err("listener on a port that is taken returned no error (it panicked or went on)".into()),
        };
    }
    if c.len() == 1 && c[0] == b"reset" {
        // connections that are reset before they are looked at
        let port = open_server(0);
        std::thread::scope(|sc| for _ in 0..4 {
            sc.spawn(move || for _ in 0..150 {
                if let Ok(st) = TcpStream::connect(("127.0.0.1", port)) {
                    use std::os::fd::AsRawFd;
                    extern "C" { fn setsockopt(fd: i32, level: i32, name: i32, value: *const i32, len: u32) -> i32; }
                    let v = [1i32, 0];
                    unsafe { setsockopt(st.as_raw_fd(), 1, 13, v.as_ptr(), 8); }
                }
            });
        });
        std::thread::sleep(Duration::from_millis(100));
        return served_again(port, "after 600 connections that were reset at once");
    }
    if c.len() == 1 && c[0] == b"flood" {
        // more silent connections than the worker and the queue can take; they go away again
        let port = open_server(4);
        let open: Vec<_> = (0..130).map(|_| { let s = TcpStream::connect(("127.0.0.1", port)); std::thread::sleep(Duration::from_millis(1)); s }).collect();
        std::thread::sleep(Duration::from_millis(200));
        drop(open);
        return served_again(port, "after 130 connections at once to a server with one worker");
    }
    if c.len() != 3 {
        return Err("bad case".into());
    }
    let num = |i: usize, max: usize| s(&c[i]).parse::<usize>().ok().filter(|n| *n <= max).ok_or("bad case".to_string());
    let (k, n, gzip) = (num(0, OPEN.len() - 2)?, num(1, 24)?, num(2, 1)? == 1);
    let port = open_server(k);
    let mut open = vec![];
    for i in 0..n {
        let mut st = match TcpStream::connect((["127.0.0.1", "127.0.0.2"][i % 2], port)) { Ok(x) => x, Err(_) => return Ok(false) };
        st.set_read_timeout(Some(Duration::from_secs(15))).map_err(|_| "bad case")?;
        let _ = st.write_all(format!("GET /who HTTP/1.1\r\nHost: h\r\nConnection: close\r\n{}\r\n", if gzip { "Accept-Encoding: gzip\r\n" } else { "" }).as_bytes());
        open.push(st)
    }
    for (i, mut st) in open.into_iter().enumerate() {
        let me = st.local_addr().map_err(|_| "bad case")?.to_string();
        let mut v = vec![];
        let _ = st.read_to_end(&mut v);
        let t = String::from_utf8_lossy(&v).to_string();
        want!(t.starts_with("HTTP/1.1 200 "), true, "connection {} of {}: answer {:?} starts with the status", i + 1, n, t);
        want!(t.contains("Content-Encoding: gzip\r\n"), gzip && OPEN[k].1, "connection {} of {}: compressed", i + 1, n);
        if !(gzip && OPEN[k].1) {
            want!(t.split("\r\n\r\n").nth(1).unwrap_or("").trim_end_matches('.'), me, "connection {} of {}: the address its handler sees", i + 1, n);
        }
    }
    std::thread::sleep(Duration::from_millis(10));
    Ok(n > 0)
}
fn c30_enum(_: u32, f: &mut dyn FnMut(Case) -> bool) {
    if !f(vec!["bind".into()]) || !f(vec!["flood".into()]) || !f(vec!["reset".into()]) {
        return;
    }
    for k in 0..OPEN.len() - 1 {
        for n in [1, 2, 8, 24] {
            for z in ["0", "1"] {
                if !f(vec![k.to_string().into(), n.to_string().into(), z.into()]) {
                    return;
                }
            }
        }
    }
}
fn c30_rand(r: &mut Rng) -> Case {
    vec![r.below(4).to_string().into(), (1 + r.below(24)).to_string().into(), r.below(2).to_string().into()]
}
pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C30", rule: "up to 24 connections at once to 4 servers with different settings, each asking for its own address, and a listener on a port that is taken; non-trivial: a connection was made",
                enumerate: c30_enum, random: c30_rand, check: c30, threads: 2, spice: false },
         Prop { id: "C02", rule: "requests to a server on loopback whose routes carry every combination of up to 2 group filters and 3 route filters; non-trivial: the route has a filter",
                enumerate: c02_enum, random: c02_rand, check: c02, threads: 8, spice: false },
         Prop { id: "C28", rule: "bursts and spread arrivals at routes with 8 different limits, after idle times, on a loopback server; non-trivial: more requests passed than the limit's count",
                enumerate: c28_enum, random: c28_rand, check: c28, threads: 12, spice: false },
         Prop { id: "C27", rule: "connections to a loopback server with a keep-alive time of 1.5 s, up to 8 requests at idle times below 45 % of it; non-trivial: more than one request",
                enumerate: c27_enum, random: c27_rand, check: c27, threads: 4, spice: false },
         Prop { id: "C26", rule: "scripts of up to 60 submissions (quick, slow and crashing jobs, pauses) to 6 pools; non-trivial: a job was submitted",
                enumerate: c26_enum, random: c26_rand, check: c26, threads: 4, spice: false }]
}
