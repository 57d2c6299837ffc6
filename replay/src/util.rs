use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

pub struct Rng(u64);
/// literals of the source under test that the source the checks were written for did not have: a hint where to look, nothing more
pub struct Dict {
    pub toks: Vec<String>,
    pub nums: Vec<u64>,
    /// the property's cases may hold any text
    pub free: bool,
}
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> Option<&'static Dict> {
    DICT.get().filter(|d| !d.nums.is_empty() || !d.toks.is_empty())
}
/// the file: one literal per line, "s" and the escaped text or "n" and the number
pub fn load_dict(path: &str, free: bool, unesc: fn(&str) -> Vec<u8>) {
    let mut d = Dict { toks: vec![], nums: vec![], free };
    for l in std::fs::read_to_string(path).unwrap_or_default().lines().take(200) {
        match l.split_once(' ') {
            Some(("s", t)) => if let Ok(t) = String::from_utf8(unesc(t)) {
                if !t.is_empty() && t.len() < 300 { d.toks.push(t) }
            },
            Some(("n", n)) => if let Ok(n) = n.parse() { d.nums.push(n) },
            _ => {}
        }
    }
    let _ = DICT.set(d);
}

impl Rng {
    /// a hinted number or one next to it
    pub fn hint(&mut self, max: u64) -> Option<u64> {
        let d = dict()?;
        if d.nums.is_empty() {
            return None;
        }
        let n = d.nums[(self.next() % d.nums.len() as u64) as usize];
        let n = match self.next() % 8 { 0 | 1 => n.saturating_sub(1), 2 | 3 => n.saturating_add(1), 4 => n.saturating_add(self.next() % 9), _ => n };
        if n <= max { Some(n) } else { None }
    }
    /// a hinted text
    pub fn hinted(&mut self) -> Option<&'static str> {
        let d = dict()?;
        if d.toks.is_empty() || !d.free {
            return None;
        }
        Some(&d.toks[(self.next() % d.toks.len() as u64) as usize])
    }
    pub fn new(s: u64) -> Rng {
        Rng(s ^ 0x2545F4914F6CDD1D)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n > 2 && DICT.get().is_some() && self.next() % 24 == 0 {
            if let Some(k) = self.hint(n as u64 - 1) {
                return k as usize;
            }
        }
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
    /// a string of up to `max` pieces of `alphabet`
    pub fn word(&mut self, alphabet: &[&str], max: usize) -> String {
        let n = self.below(max + 1);
        if DICT.get().is_some() && self.next() % 6 == 0 {
            if let Some(t) = self.hinted() {
                // a hinted text at the start, the end, in the middle or alone
                let a: String = (0..n).map(|_| self.pick(alphabet)).collect();
                return match self.next() % 5 {
                    0 => t.to_string(),
                    1 => format!("{}{}", t, a),
                    2 | 3 => format!("{}{}", a, t),
                    _ => format!("{}{}{}", a, t, self.pick(alphabet)),
                };
            }
            if self.next() % 3 == 0 && DICT.get().map_or(false, |d| d.free) {
                // as long as a hinted number
                if let Some(k) = self.hint(9000) {
                    return (0..k).map(|_| self.pick(alphabet)).collect();
                }
            }
        }
        (0..n).map(|_| self.pick(alphabet)).collect()
    }
    pub fn bytes(&mut self, alphabet: &[u8], max: usize) -> Vec<u8> {
        let n = self.below(max + 1);
        (0..n).map(|_| alphabet[self.below(alphabet.len())]).collect()
    }
    /// sizes: mostly small, sometimes around the 1024-byte buffer
    pub fn size(&mut self) -> usize {
        if DICT.get().is_some() && self.next() % 6 == 0 {
            if let Some(k) = self.hint(70_000) {
                return k as usize;
            }
        }
        match self.below(10) {
            0..=5 => self.below(40),
            6 | 7 => 1000 + self.below(60),
            8 => 2030 + self.below(60),
            _ => self.below(5000),
        }
    }
}

pub fn s(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

/// calls `f` on every sequence over 0..k of length 0..=n, shortest first; stops when `f` returns false
pub fn sequences(k: usize, n: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    for len in 0..=n {
        let mut v = vec![0usize; len];
        loop {
            if !f(&v) {
                return false;
            }
            let mut i = len;
            loop {
                if i == 0 {
                    break;
                }
                i -= 1;
                v[i] += 1;
                if v[i] < k {
                    break;
                }
                v[i] = 0;
                if i == 0 {
                    i = usize::MAX;
                    break;
                }
            }
            if len == 0 || i == usize::MAX {
                break;
            }
        }
    }
    true
}

/// every text over `alphabet` of up to `n` pieces
pub fn texts(alphabet: &[&str], n: usize, f: &mut dyn FnMut(String) -> bool) -> bool {
    sequences(alphabet.len(), n, &mut |v| f(v.iter().map(|i| alphabet[*i]).collect()))
}

/// in-memory stream: hands the input out in given chunk sizes (the last one repeats), then end of file; keeps what is written
pub struct Mock {
    input: Vec<u8>,
    pos: usize,
    chunks: Vec<usize>,
    ci: usize,
    pub out: Arc<Mutex<Vec<u8>>>,
}
impl Mock {
    pub fn new(input: Vec<u8>, chunks: Vec<usize>) -> (Mock, Arc<Mutex<Vec<u8>>>) {
        let out = Arc::new(Mutex::new(vec![]));
        (Mock { input, pos: 0, chunks, ci: 0, out: out.clone() }, out)
    }
}
impl std::fmt::Debug for Mock {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("mock")
    }
}
impl Read for Mock {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let c = if self.chunks.is_empty() { 1 << 20 } else { self.chunks[self.ci.min(self.chunks.len() - 1)].max(1) };
        self.ci += 1;
        let n = c.min(buf.len()).min(self.input.len() - self.pos);
        buf[..n].copy_from_slice(&self.input[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Write for Mock {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        // a stream may accept less than it is offered
        let n = buf.len().min(61);
        self.out.lock().unwrap().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
pub fn chunks_of(item: &[u8]) -> Vec<usize> {
    s(item).split(',').filter_map(|x| x.parse().ok()).collect()
}
pub fn rand_chunks(r: &mut Rng, len: usize) -> Vec<u8> {
    match r.below(5) {
        0 => b"".to_vec(),
        1 => format!("{}", 1 + r.below(3)).into_bytes(),
        2 => format!("{},100000", 1 + r.below(len.max(1))).into_bytes(),
        3 => format!("{},{},100000", 1 + r.below(len.max(1)), 1 + r.below(20)).into_bytes(),
        _ => format!("{}", 1 + r.below(1100)).into_bytes(),
    }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(src: &[u8]) -> String {
    let mut o = String::new();
    for c in src.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                o.push(B64[(n >> (18 - 6 * k)) as usize & 63] as char)
            } else {
                o.push('=')
            }
        }
    }
    o
}

/// `name[=value]` pieces separated by '&': the piece's name ends at its first '='; the last piece of a name counts
pub fn pairs(src: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if src.is_empty() {
        return v;
    }
    for piece in src.split(|b| *b == b'&') {
        match piece.iter().position(|b| *b == b'=') {
            Some(i) => v.push((piece[..i].to_vec(), piece[i + 1..].to_vec())),
            None if piece.is_empty() => {}
            None => v.push((piece.to_vec(), vec![])),
        }
    }
    v
}

/// the header block: `name: value` lines up to the first empty line (or the end); returns the pairs in order and the offset
/// behind the empty line
pub fn header_block(src: &[u8]) -> (Vec<(String, String)>, usize) {
    let mut v = vec![];
    let mut pos = 0;
    loop {
        let end = match src[pos..].iter().position(|b| *b == b'\n') {
            Some(i) => pos + i,
            None => return (v, src.len()),
        };
        let line: Vec<u8> = src[pos..end].iter().filter(|b| **b != b'\r').cloned().collect();
        pos = end + 1;
        if line.is_empty() {
            return (v, pos);
        }
        if let Some(i) = line.iter().position(|b| *b == b':') {
            let val: Vec<u8> = line[i + 1..].iter().skip_while(|b| **b == b' ' || **b == b'\t').cloned().collect();
            v.push((s(&line[..i]), s(&val)));
        }
    }
}
pub fn last_of<'a>(v: &'a [(String, String)], name: &str) -> Option<&'a String> {
    v.iter().rev().find(|(k, _)| k == name).map(|(_, v)| v)
}
