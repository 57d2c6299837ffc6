//! vex: mechanical extraction of functions of the code under test into a Verus file.
//!
//!   vex <src root> <unit spec> <out.rs> <out.json>
//!
//! The unit spec is a Verus file with `@@` directives.  Everything that is not a directive is copied
//! verbatim (spec functions, lemmas, trusted stand-ins for library code).  `@@fn` blocks splice in the text of
//! a real function, with the contract, loop invariants and ghost code that the block gives, after the
//! lowerings listed in LOWERINGS (each one counted in out.json).  Exit 0 on success, 3 when an anchor is lost
//! (a function, loop or position named by the spec is no longer there) or the text cannot be lowered.

use proc_macro2::{LineColumn, Span};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

type R<T> = Result<T, String>;

struct SrcFile {
    text: String,
    lines: Vec<usize>,
    ast: syn::File,
}

impl SrcFile {
    fn off(&self, lc: LineColumn) -> usize {
        // proc_macro2 columns count chars
        let start = self.lines[lc.line - 1];
        let line = &self.text[start..];
        match line.char_indices().nth(lc.column) {
            Some((i, _)) => start + i,
            None => start + line.len(),
        }
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.off(s.start()), self.off(s.end()))
    }
}

fn load(path: &str) -> R<SrcFile> {
    let text = std::fs::read_to_string(path).map_err(|e| format!("lost anchor: file {}: {}", path, e))?;
    let mut lines = vec![0];
    for (i, b) in text.bytes().enumerate() {
        if b == b'\n' {
            lines.push(i + 1)
        }
    }
    let ast = syn::parse_file(&text).map_err(|e| format!("cannot parse {}: {}", path, e))?;
    Ok(SrcFile { text, lines, ast })
}

#[derive(Default, Clone)]
struct Global {
    vars: BTreeMap<String, String>,
    methods: BTreeMap<String, String>,
    paths: BTreeMap<String, String>,
    /// ghost arguments appended to the calls of a method or function
    extras: BTreeMap<String, String>,
    dropped: BTreeSet<String>,
    /// vacuity probe: "", "start", "loop" or "end": an assertion that must FAIL is planted there
    probe: String,
}

#[derive(Default)]
struct FnSpec {
    file: String,
    qual: String,
    flags: Vec<String>,
    spec: String,
    loops: BTreeMap<usize, String>,
    ats: Vec<(String, String)>,
    wher: Option<String>,
    subs: Vec<(String, String)>,
    attrs: String,
}

impl FnSpec {
    fn flag(&self, f: &str) -> bool {
        self.flags.iter().any(|x| x == f)
    }
    fn opt(&self, k: &str) -> Option<&str> {
        self.flags.iter().find_map(|x| x.strip_prefix(k).and_then(|y| y.strip_prefix('=')))
    }
}

struct Low<'a> {
    f: &'a SrcFile,
    g: &'a Global,
    sp: &'a FnSpec,
    edits: Vec<(usize, usize, String)>,
    loops: usize,
    loop_seen: BTreeSet<usize>,
    /// closures given to methods that are not replaced by a match
    bare: BTreeSet<(usize, usize)>,
    at_seen: BTreeSet<usize>,
    bound: BTreeMap<String, usize>,
    strs: BTreeSet<String>,
    errs: Vec<String>,
    counts: BTreeMap<&'static str, usize>,
    loop_ids: HashMap<usize, usize>,
}

fn last(p: &syn::Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

fn path_str(p: &syn::Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

impl<'a> Low<'a> {
    fn count(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1
    }
    fn apply(&mut self, r: (usize, usize)) -> String {
        let mut inside: Vec<(usize, usize, String)> = vec![];
        let mut keep = vec![];
        for e in self.edits.drain(..) {
            if e.0 >= r.0 && e.1 <= r.1 {
                inside.push(e)
            } else {
                keep.push(e)
            }
        }
        self.edits = keep;
        inside.sort_by_key(|e| (e.0, e.1));
        let mut out = String::new();
        let mut pos = r.0;
        for (a, b, t) in inside {
            if a < pos {
                self.errs.push(format!("overlapping edits at byte {}", a));
                continue;
            }
            out.push_str(&self.f.text[pos..a]);
            out.push_str(&t);
            pos = b;
        }
        out.push_str(&self.f.text[pos..r.1]);
        out
    }
    fn sub<T: Spanned>(&mut self, t: &T) -> String {
        let r = self.f.range(t.span());
        self.apply(r)
    }
    fn rep(&mut self, r: (usize, usize), s: String) {
        // whatever was inside has been consumed by apply(); drop leftovers
        self.edits.retain(|e| !(e.0 >= r.0 && e.1 <= r.1 && !(e.0 == e.1 && (e.0 == r.0 || e.0 == r.1))));
        self.edits.push((r.0, r.1, s))
    }
    fn ats(&mut self, key: &str) -> String {
        let mut out = String::new();
        for (i, (k, t)) in self.sp.ats.iter().enumerate() {
            if k == key {
                self.at_seen.insert(i);
                out.push_str(t);
            }
        }
        out
    }
    /// contents of a block (between the braces), rendered, with a `;` when the tail expression lacks one and text follows
    fn block_inner(&mut self, b: &syn::Block, semi: bool) -> String {
        let r = self.f.range(b.span());
        let mut s = self.apply((r.0 + 1, r.1 - 1));
        if semi {
            if let Some(syn::Stmt::Expr(_, None)) = b.stmts.last() {
                s.push_str(";");
            }
        }
        s
    }
    fn loop_body(&mut self, id: usize, b: &syn::Block) -> String {
        let mut start = self.ats(&format!("loop{}.start", id));
        if self.g.probe == "loop" {
            start.push_str("\nproof { assert(false); /*PROBE*/ }\n");
        }
        let end = self.ats(&format!("loop{}.end", id));
        let inner = self.block_inner(b, true);
        format!("{}{}{}", start, inner, end)
    }
    fn lit_bytes(b: &[u8]) -> String {
        format!("&[{}]", b.iter().map(|x| format!("{}u8", x)).collect::<Vec<_>>().join(", "))
    }
    fn pat_lits(p: &syn::Pat, out: &mut Vec<syn::Lit>) -> bool {
        match p {
            syn::Pat::Lit(l) => match &l.lit {
                syn::Lit::ByteStr(_) | syn::Lit::Str(_) => {
                    out.push(l.lit.clone());
                    true
                }
                _ => false,
            },
            syn::Pat::Or(o) => o.cases.iter().all(|c| Self::pat_lits(c, out)),
            syn::Pat::Paren(p) => Self::pat_lits(&p.pat, out),
            _ => false,
        }
    }
    fn format_parts(fmt: &str) -> R<Vec<(bool, String)>> {
        // (true, text): a literal piece; (false, name): a placeholder, `{}` when the name is empty
        let mut out = vec![];
        let mut cur = String::new();
        let mut it = fmt.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' => {
                    if it.peek() == Some(&'{') {
                        it.next();
                        cur.push('{');
                        continue;
                    }
                    let mut spec = String::new();
                    loop {
                        match it.next() {
                            Some('}') => break,
                            Some(x) => spec.push(x),
                            None => return Err("bad format string".into()),
                        }
                    }
                    let ident = spec.chars().all(|c| c == '_' || c.is_alphanumeric()) && !spec.starts_with(|c: char| c.is_ascii_digit());
                    if !ident {
                        return Err(format!("format spec {{{}}} not supported", spec));
                    }
                    if !cur.is_empty() {
                        out.push((true, std::mem::take(&mut cur)))
                    }
                    out.push((false, spec))
                }
                '}' => {
                    it.next();
                    cur.push('}')
                }
                c => cur.push(c),
            }
        }
        if !cur.is_empty() {
            out.push((true, cur))
        }
        Ok(out)
    }
    fn do_macro(&mut self, m: &syn::Macro, range: (usize, usize), stmt: bool) {
        let name = path_str(&m.path);
        let semi = if stmt { ";" } else { "" };
        if name.starts_with("log::") || ["println", "print", "eprintln"].contains(&name.as_str()) {
            self.count("log/print statement dropped");
            self.rep(range, format!("x_log(){}", semi));
            return;
        }
        if name == "panic" {
            let f = if self.sp.flag("refuse") { "x_refuse" } else { "x_panic" };
            self.count(if f == "x_refuse" { "panic! -> x_refuse()" } else { "panic! -> x_panic()" });
            self.rep(range, format!("{}(){}", f, semi));
            return;
        }
        if name == "assert" {
            if let Ok(args) = m.parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            ) {
                if let Some(a) = args.first() {
                    self.visit_expr(a);
                    let t = self.sub(a);
                    self.count("assert! -> x_assert()");
                    self.rep(range, format!("x_assert({}){}", t, semi));
                    return;
                }
            }
        }
        if name == "vec" {
            // Verus supports vec!; still lower what is inside
            if let Ok(args) = m.parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            ) {
                for a in args.iter() {
                    self.visit_expr(a)
                }
            }
            return;
        }
        if name == "format" || name == "write" {
            let args = match m.parse_body_with(
                syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
            ) {
                Ok(a) => a,
                Err(e) => {
                    self.errs.push(format!("format!: {}", e));
                    return;
                }
            };
            let mut it = args.iter();
            let dest = if name == "write" {
                it.next().map(|d| {
                    self.visit_expr(d);
                    self.sub(d)
                })
            } else {
                None
            };
            let fmt = match it.next() {
                Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
                _ => {
                    self.errs.push("format!: no literal".into());
                    return;
                }
            };
            let parts = match Self::format_parts(&fmt) {
                Ok(p) => p,
                Err(e) => {
                    self.errs.push(e);
                    return;
                }
            };
            let mut s = String::from("{ let mut __f = String::new(); ");
            for p in parts {
                match p {
                    (true, t) => {
                        self.strs.insert(t.clone());
                        let _ = write!(s, "__f.push_str({:?}); ", t);
                    }
                    (false, n) if !n.is_empty() => {
                        let _ = write!(s, "x_arg(&mut __f, &({})); ", n);
                    }
                    _ => match it.next() {
                        Some(a) => {
                            self.visit_expr(a);
                            let t = self.sub(a);
                            let _ = write!(s, "x_arg(&mut __f, &({})); ", t);
                        }
                        None => {
                            self.errs.push("format!: too few arguments".into());
                            return;
                        }
                    },
                }
            }
            s.push_str("__f }");
            if it.next().is_some() {
                self.errs.push("format!: named arguments".into());
                return;
            }
            self.count("format! -> sequence of push_str / x_arg");
            if let Some(d) = dest {
                s = format!("({}).x_put({})", d, s)
            }
            self.rep(range, format!("{}{}", s, semi));
            return;
        }
        self.errs.push(format!("unsupported macro {}!", name));
    }
    /// a combinator of Option or Result whose closures are written in place and leave only by their end
    fn combines(m: &syn::ExprMethodCall) -> bool {
        struct Leaves(bool);
        impl<'ast> Visit<'ast> for Leaves {
            fn visit_expr(&mut self, e: &'ast syn::Expr) {
                if matches!(e, syn::Expr::Return(_) | syn::Expr::Try(_)) {
                    self.0 = true
                }
                visit::visit_expr(self, e)
            }
        }
        let n: Vec<Option<usize>> = m.args.iter().map(|a| match a {
            syn::Expr::Closure(c) if c.asyncness.is_none() => {
                let mut l = Leaves(false);
                l.visit_expr(&c.body);
                if l.0 { Some(9) } else { Some(c.inputs.len()) }
            }
            _ => None,
        }).collect();
        match m.method.to_string().as_str() {
            "map_or" => n.len() == 2 && n[0].is_none() && n[1] == Some(1),
            "map_or_else" => n.len() == 2 && matches!(n[0], Some(0) | Some(1)) && n[1] == Some(1),
            "is_some_and" | "is_none_or" | "is_ok_and" | "is_err_and" | "filter" | "map_err" | "map" | "and_then" => n == [Some(1)],
            "unwrap_or_else" | "or_else" => n == [Some(0)] || n == [Some(1)],
            "ok_or_else" => n == [Some(0)],
            _ => false,
        }
    }
    fn combinator(&mut self, m: &syn::ExprMethodCall) -> Option<String> {
        if !Self::combines(m) || !self.ats("closure").is_empty() {
            return None;
        }
        let r = self.sub(&*m.receiver);
        let mut cs: Vec<(Option<String>, String)> = vec![];
        for a in m.args.iter() {
            match a {
                syn::Expr::Closure(c) => {
                    let p = c.inputs.first().map(|p| match p {
                        syn::Pat::Type(t) => self.sub(&*t.pat),
                        p => self.sub(p),
                    });
                    cs.push((p, self.sub(&*c.body)))
                }
                a => cs.push((None, self.sub(a))),
            }
        }
        let p = |k: usize| cs[k].0.clone().unwrap_or("_".into());
        let b = |k: usize| cs[k].1.clone();
        Some(match m.method.to_string().as_str() {
            "map_or" => format!("match (({}).x_case().1, {}) {{ (Ok({}), _) => {{ {} }}, (Err(_), __d) => __d }}", r, b(0), p(1), b(1)),
            "map_or_else" => format!("match ({}).x_case().1 {{ Ok({}) => {{ {} }}, Err({}) => {{ {} }} }}", r, p(1), b(1), p(0), b(0)),
            "is_some_and" => format!("match {} {{ Some({}) => {{ {} }}, None => false }}", r, p(0), b(0)),
            "is_none_or" => format!("match {} {{ Some({}) => {{ {} }}, None => true }}", r, p(0), b(0)),
            "is_ok_and" => format!("match {} {{ Ok({}) => {{ {} }}, Err(_) => false }}", r, p(0), b(0)),
            "is_err_and" => format!("match {} {{ Err({}) => {{ {} }}, Ok(_) => false }}", r, p(0), b(0)),
            "filter" => format!("match x_opt({}) {{ Some(__v) => {{ let __keep = match &__v {{ {} => {{ {} }} }}; if __keep {{ Some(__v) }} else {{ None }} }} None => None }}", r, p(0), b(0)),
            "map_err" => format!("match {} {{ Ok(__v) => Ok(__v), Err({}) => Err({{ {} }}) }}", r, p(0), b(0)),
            "map" => format!("match ({}).x_case() {{ (__f, Ok({})) => __f.x_ok({{ {} }}), (__f, Err(__e)) => __f.x_err(__e) }}", r, p(0), b(0)),
            "and_then" => format!("match ({}).x_case().1 {{ Ok({}) => {{ {} }}, Err(__e) => XErr::x_err(__e) }}", r, p(0), b(0)),
            "unwrap_or_else" => format!("match ({}).x_case().1 {{ Ok(__v) => __v, Err({}) => {{ {} }} }}", r, p(0), b(0)),
            "or_else" if cs[0].0.is_none() => format!("match {} {{ Some(__v) => Some(__v), None => {{ {} }} }}", r, b(0)),
            "or_else" => format!("match {} {{ Ok(__v) => Ok(__v), Err({}) => {{ {} }} }}", r, p(0), b(0)),
            _ => format!("match x_opt({}) {{ Some(__v) => Ok(__v), None => Err({{ {} }}) }}", r, b(0)),
        }).map(|t| format!("({})", t))
    }
    fn loop_id(&mut self, sp: Span) -> usize {
        let o = self.f.off(sp.start());
        *self.loop_ids.get(&o).unwrap_or(&usize::MAX)
    }
    fn inv(&mut self, id: usize) -> String {
        self.loop_seen.insert(id);
        match self.sp.loops.get(&id) {
            Some(t) => format!("\n{}\n", t),
            None => " ".into(),
        }
    }
}

struct LoopIds<'a> {
    f: &'a SrcFile,
    ids: HashMap<usize, usize>,
    bound: BTreeMap<String, usize>,
}
impl<'a, 'ast> Visit<'ast> for LoopIds<'a> {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        if matches!(e, syn::Expr::Loop(_) | syn::Expr::While(_) | syn::Expr::ForLoop(_)) {
            let n = self.ids.len();
            self.ids.insert(self.f.off(e.span().start()), n);
        }
        visit::visit_expr(self, e)
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let at = self.f.range(p.ident.span()).0; let e = self.bound.entry(p.ident.to_string()).or_insert(at); if at < *e { *e = at }
        visit::visit_pat_ident(self, p)
    }
}

impl<'a, 'ast> Visit<'ast> for Low<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Macro(m) = s {
            let r = self.f.range(s.span());
            let name = path_str(&m.mac.path);
            if name == "format" || name == "vec" {
                self.do_macro(&m.mac, r, false)
            } else {
                // a statement macro that is the tail of a block has the type of the macro
                self.do_macro(&m.mac, r, m.semi_token.is_some())
            }
            return;
        }
        visit::visit_stmt(self, s)
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        visit::visit_arm(self, a);
        let mut lits = vec![];
        if Self::pat_lits(&a.pat, &mut lits) {
            let mut conds = vec![];
            for l in lits {
                match l {
                    syn::Lit::ByteStr(b) => conds.push(format!("x_beq(__m, {})", Self::lit_bytes(&b.value()))),
                    syn::Lit::Str(s) => {
                        self.strs.insert(s.value());
                        conds.push(format!("x_seq(__m, {:?})", s.value()))
                    }
                    _ => {}
                }
            }
            let cond = conds.join(" || ");
            self.count("string/byte-string pattern -> equality guard");
            let r = self.f.range(a.pat.span());
            match &a.guard {
                Some((_, g)) => {
                    let t = self.sub(&**g);
                    let gr = self.f.range(g.span());
                    self.rep((r.0, gr.1), format!("__m if ({}) && ({})", cond, t))
                }
                None => self.rep(r, format!("__m if {}", cond)),
            }
        }
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        visit::visit_pat(self, p)
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        visit::visit_path(self, p);
        let full = path_str(p);
        if let Some(to) = self.g.paths.get(&full) {
            self.count("library path -> trusted stand-in");
            let a = self.f.range(p.segments.first().unwrap().ident.span()).0;
            let b = self.f.range(p.segments.last().unwrap().ident.span()).1;
            let to = to.clone();
            self.rep((a, b), to);
            return;
        }
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if ["crate", "std", "core", "super"].contains(&first.as_str()) {
            let n = p.segments.len();
            let mut k = p.segments.iter().position(|s| s.ident.to_string().chars().next().unwrap().is_uppercase()).unwrap_or(n - 1);
            if k >= n {
                k = n - 1
            }
            let a = self.f.range(p.span()).0;
            let b = self.f.range(p.segments[k].ident.span()).0;
            self.count("module path stripped");
            self.edits.push((a, b, String::new()));
        }
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let er = self.f.range(e.span());
        match e {
            syn::Expr::Macro(m) => {
                self.do_macro(&m.mac, er, false);
                return;
            }
            syn::Expr::Lit(l) => {
                match &l.lit {
                    syn::Lit::ByteStr(b) => {
                        self.count("byte-string literal -> array literal");
                        self.rep(er, Self::lit_bytes(&b.value()))
                    }
                    syn::Lit::Str(s) => {
                        self.strs.insert(s.value());
                    }
                    _ => {}
                }
                return;
            }
            syn::Expr::MethodCall(m) if !Self::combines(m) => {
                for a in m.args.iter() {
                    if let syn::Expr::Closure(c) = a {
                        let r = self.f.range(c.span());
                        self.bare.insert(r);
                    }
                }
            }
            _ => {}
        }
        visit::visit_expr(self, e);
        if let syn::Expr::Call(c) = e {
            if let syn::Expr::Path(p) = &*c.func {
                if let Some(x) = self.g.extras.get(&path_str(&p.path)) {
                    self.count("ghost argument added to a call");
                    let t = if c.args.is_empty() || c.args.trailing_punct() { x.clone() } else { format!(", {}", x) };
                    self.edits.push((er.1 - 1, er.1 - 1, t));
                }
            }
        }
        match e {
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "borrow_mut" && m.args.is_empty() {
                    self.count("x.borrow_mut() -> &mut x");
                    let t = self.sub(&*m.receiver);
                    self.rep(er, format!("(&mut {})", t));
                    return;
                }
                if let (true, syn::Expr::Lit(syn::ExprLit { lit, .. })) = (name == "len" && m.args.is_empty(), &*m.receiver) {
                    let n = match lit {
                        syn::Lit::Str(s) => Some(s.value().len()),
                        syn::Lit::ByteStr(b) => Some(b.value().len()),
                        _ => None,
                    };
                    if let Some(n) = n {
                        self.count("length of a literal -> number");
                        self.rep(er, format!("({}usize)", n));
                        return;
                    }
                }
                if let Some(t) = self.combinator(m) {
                    self.count("combinator with a closure -> match");
                    self.rep(er, t);
                    return;
                }
                if let Some(to) = self.g.methods.get(&name) {
                    let r = self.f.range(m.method.span());
                    self.count("library method -> trusted stand-in");
                    self.rep(r, to.clone());
                }
                if let Some(x) = self.g.extras.get(&name) {
                    self.count("ghost argument added to a call");
                    let t = if m.args.is_empty() || m.args.trailing_punct() { x.clone() } else { format!(", {}", x) };
                    self.edits.push((er.1 - 1, er.1 - 1, t));
                }
            }
            syn::Expr::Binary(b) => {
                if matches!(b.op, syn::BinOp::Add(_)) && self.sp.flag("stradd") {
                    let l = self.sub(&*b.left);
                    let r = self.sub(&*b.right);
                    self.count("string + -> x_add");
                    self.rep(er, format!("x_add({}, {})", l, r));
                }
                let is_lit = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::Str(_)));
                if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) && (is_lit(&b.left) || is_lit(&b.right)) {
                    // a string literal on one side
                    let (x, lit) = if is_lit(&b.right) { (self.sub(&*b.left), self.sub(&*b.right)) } else { (self.sub(&*b.right), self.sub(&*b.left)) };
                    let m = if matches!(b.op, syn::BinOp::Eq(_)) { "x_eq" } else { "x_ne" };
                    self.count("== on strings -> x_eq");
                    self.rep(er, format!("({}).{}({})", x, m, lit))
                } else if matches!(b.op, syn::BinOp::Eq(_)) && self.sp.flag("xeq") {
                    let l = self.sub(&*b.left);
                    let r = self.sub(&*b.right);
                    self.count("== on strings -> x_eq");
                    self.rep(er, format!("({}).x_eq(&({}))", l, r));
                }
            }
            syn::Expr::Index(i) => {
                if let syn::Expr::Range(r) = &*i.index {
                    let base = self.sub(&*i.expr);
                    let s = match (&r.start, &r.end, &r.limits) {
                        (Some(a), None, _) => {
                            let a = self.sub(&**a);
                            format!("{}.x_from({})", base, a)
                        }
                        (None, Some(b), syn::RangeLimits::HalfOpen(_)) => {
                            let b = self.sub(&**b);
                            format!("{}.x_to({})", base, b)
                        }
                        (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => {
                            let a = self.sub(&**a);
                            let b = self.sub(&**b);
                            format!("{}.x_range({}, {})", base, a, b)
                        }
                        _ => {
                            self.errs.push("unsupported range index".into());
                            return;
                        }
                    };
                    self.count("range index -> x_from/x_to/x_range");
                    self.rep(er, s)
                }
            }
            syn::Expr::Reference(rf) => {
                // `&x[a..b]` : x_range already yields a reference
                let mut inner = &*rf.expr;
                while let syn::Expr::Paren(p) = inner {
                    inner = &p.expr
                }
                if let syn::Expr::Index(i) = inner {
                    if matches!(&*i.index, syn::Expr::Range(_)) {
                        let mut t = self.sub(&*rf.expr);
                        if rf.mutability.is_some() {
                            for n in ["x_from", "x_to", "x_range"] {
                                if let Some(p) = t.rfind(&format!(".{}(", n)) {
                                    t.replace_range(p + 1..p + 3, "x_m");
                                    break;
                                }
                            }
                        }
                        self.rep(er, t)
                    }
                }
            }
            syn::Expr::Call(c) => match &*c.func {
                syn::Expr::Path(p) => {
                    if let Some(id) = p.path.get_ident() {
                        let id = id.to_string();
                        if self.bound.get(&id).map_or(false, |at| *at < self.f.range(p.span()).0) && id.chars().next().unwrap().is_lowercase() {
                            let args: Vec<String> = c.args.iter().map(|a| self.sub(a)).collect();
                            self.count("call through a function pointer -> x_invoke");
                            self.rep(er, format!("x_invoke({}, {})", id, args.join(", ")))
                        }
                    }
                }
                syn::Expr::MethodCall(_) | syn::Expr::Field(_) | syn::Expr::Paren(_) => {
                    let f = self.sub(&*c.func);
                    let args: Vec<String> = c.args.iter().map(|a| self.sub(a)).collect();
                    self.count("call through a function pointer -> x_invoke");
                    self.rep(er, format!("x_invoke({}, {})", f, args.join(", ")))
                }
                _ => {}
            },
            syn::Expr::Closure(c) => {
                let a = self.ats("closure");
                if !a.is_empty() && matches!(c.output, syn::ReturnType::Default) {
                    let head = self.f.text.get(er.0..self.f.range(c.body.span()).0).unwrap_or("").to_string();
                    let b = self.sub(&*c.body);
                    self.count("contract added to a closure");
                    self.rep(er, format!("{}{} {{ {} }}", head, a, b))
                } else if a.is_empty() && self.bare.contains(&er) {
                    self.errs.push("closure without a contract".into())
                }
            }
            syn::Expr::Return(r) => {
                let p = self.ats("return");
                if !p.is_empty() {
                    let v = match &r.expr {
                        Some(x) => self.sub(&**x),
                        None => String::new(),
                    };
                    self.rep(er, format!("{{ {} return {}; }}", p, v))
                }
            }
            syn::Expr::Loop(l) => {
                let id = self.loop_id(e.span());
                let label = match &l.label {
                    Some(x) => format!("{}: ", x.name),
                    None => String::new(),
                };
                let body = self.loop_body(id, &l.body);
                let inv = self.inv(id);
                let (b, a) = (self.ats(&format!("loop{}.before", id)), self.ats(&format!("loop{}.after", id)));
                let pre = self.sp.opt("loopattr").map(|_| "").unwrap_or("");
                let t = format!("{}{}loop{}{{{}}}", pre, label, inv, body);
                let t = if b.is_empty() && a.is_empty() { t } else { format!("{{ {} {}; {} }}", b, t, a) };
                self.rep(er, t)
            }
            syn::Expr::While(w) => {
                let id = self.loop_id(e.span());
                if let syn::Expr::Let(l) = &*w.cond {
                    let (pat, ex) = (self.sub(&*l.pat), self.sub(&*l.expr));
                    let label = match &w.label {
                        Some(x) => format!("{}: ", x.name),
                        None => String::new(),
                    };
                    let body = self.loop_body(id, &w.body);
                    let start = self.ats(&format!("loop{}.start", id));
                    let body = body[start.len()..].to_string();
                    let inv = self.inv(id);
                    let (b, a) = (self.ats(&format!("loop{}.before", id)), self.ats(&format!("loop{}.after", id)));
                    self.count("while let -> loop with match");
                    let t = format!("{}loop{}{{ {} match {} {{ {} => {{{}}} _ => {{ break }} }} }}", label, inv, start, ex, pat, body);
                    let t = if b.is_empty() && a.is_empty() { t } else { format!("{{ {} {}; {} }}", b, t, a) };
                    self.rep(er, t);
                    return;
                }
                let cond = self.sub(&*w.cond);
                let body = self.loop_body(id, &w.body);
                let inv = self.inv(id);
                let (b, a) = (self.ats(&format!("loop{}.before", id)), self.ats(&format!("loop{}.after", id)));
                let t = format!("while {}{}{{{}}}", cond, inv, body);
                let t = if b.is_empty() && a.is_empty() { t } else { format!("{{ {} {} {} }}", b, t, a) };
                self.rep(er, t)
            }
            syn::Expr::ForLoop(fl) => {
                let id = self.loop_id(e.span());
                let pat = self.sub(&*fl.pat);
                let mut itermut = None;
                if let syn::Expr::MethodCall(m) = &*fl.expr {
                    if m.method == "iter_mut" {
                        itermut = Some(self.sub(&*m.receiver))
                    }
                }
                let ex = self.sub(&*fl.expr);
                let body = self.loop_body(id, &fl.body);
                let inv = self.inv(id);
                let (b, a) = (self.ats(&format!("loop{}.before", id)), self.ats(&format!("loop{}.after", id)));
                let t = match itermut {
                    Some(v) => {
                        self.count("for over iter_mut -> indexed loop");
                        format!(
                            "{{ let mut __i{id}: usize = 0; {b} while __i{id} < {v}.len(){inv}{{ let {pat} = &mut {v}[__i{id}]; __i{id} = __i{id} + 1; {body} }} {a} }}"
                        )
                    }
                    None => {
                        self.count("for -> loop over an explicit iterator");
                        format!(
                            "match x_iter({ex}) {{ mut __it{id} => {{ {b} loop{inv}{{ match __it{id}.x_next() {{ Some({pat}) => {{ {body} }} None => break, }} }} {a} }} }}"
                        )
                    }
                };
                self.rep(er, t)
            }
            _ => {}
        }
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let r = self.f.range(a.span());
        self.edits.push((r.0, r.1, String::new()));
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        visit::visit_type(self, t)
    }
}

fn cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && quote::ToTokens::to_token_stream(a).to_string().replace(' ', "").contains("cfg(test)")
    })
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => last(&p.path),
        syn::Type::Reference(r) => ty_name(&r.elem),
        _ => String::new(),
    }
}

struct Found<'a> {
    sig: &'a syn::Signature,
    vis: Option<&'a syn::Visibility>,
    block: &'a syn::Block,
    span: Span,
}

/// qual: `name`, `Type::name`, `Trait for Type::name`, `Trait<Arg> for Type::name`
fn find_fn<'a>(f: &'a SrcFile, qual: &str) -> R<Found<'a>> {
    let (tr, rest) = match qual.split_once(" for ") {
        Some((a, b)) => (Some(a.trim().to_string()), b.trim()),
        None => (None, qual),
    };
    let mut hits = vec![];
    match rest.rsplit_once("::") {
        None => {
            for it in &f.ast.items {
                if let syn::Item::Fn(x) = it {
                    if x.sig.ident == rest && !cfg_test(&x.attrs) && !x.attrs.iter().any(|a| a.path().is_ident("test")) {
                        hits.push(Found { sig: &x.sig, vis: Some(&x.vis), block: &x.block, span: x.sig.span() })
                    }
                }
            }
        }
        Some((ty, name)) => {
            for it in &f.ast.items {
                if let syn::Item::Impl(im) = it {
                    let isref = matches!(&*im.self_ty, syn::Type::Reference(_));
                    if cfg_test(&im.attrs) || ty_name(&im.self_ty) != ty.trim_start_matches('&') || isref != ty.starts_with('&') {
                        continue;
                    }
                    let ok = match (&tr, &im.trait_) {
                        (None, None) => true,
                        (Some(t), Some((_, p, _))) => {
                            let a = quote::ToTokens::to_token_stream(p.segments.last().unwrap()).to_string().replace(' ', "");
                            a == t.replace(' ', "") || last(p) == *t
                        }
                        _ => false,
                    };
                    if !ok {
                        continue;
                    }
                    for x in &im.items {
                        if let syn::ImplItem::Fn(m) = x {
                            if m.sig.ident == name {
                                hits.push(Found { sig: &m.sig, vis: Some(&m.vis), block: &m.block, span: m.sig.span() })
                            }
                        }
                    }
                }
            }
        }
    }
    match hits.len() {
        1 => Ok(hits.pop().unwrap()),
        0 => Err(format!("lost anchor: function {} not found", qual)),
        n => Err(format!("lost anchor: function {} found {} times", qual, n)),
    }
}

/// `from` as a whole word
fn rename_word(s: &str, from: &str, to: &str) -> String {
    let is = |c: char| c.is_alphanumeric() || c == '_';
    let mut out = String::new();
    let mut rest = s;
    let mut prev = ' ';
    while let Some(i) = rest.find(from) {
        let before = rest[..i].chars().last().unwrap_or(prev);
        let after = rest[i + from.len()..].chars().next().unwrap_or(' ');
        out.push_str(&rest[..i]);
        out.push_str(if is(before) || is(after) { from } else { to });
        prev = from.chars().last().unwrap();
        rest = &rest[i + from.len()..];
    }
    out.push_str(rest);
    out
}

fn emit_fn(root: &str, files: &mut HashMap<String, SrcFile>, g: &Global, sp: &FnSpec, counts: &mut BTreeMap<&'static str, usize>) -> R<(String, usize, usize)> {
    if !files.contains_key(&sp.file) {
        files.insert(sp.file.clone(), load(&format!("{}/{}", root, sp.file))?);
    }
    let f = &files[&sp.file];
    let fd = find_fn(f, &sp.qual)?;
    let mut ids = LoopIds { f, ids: HashMap::new(), bound: BTreeMap::new() };
    ids.visit_signature(fd.sig);
    ids.visit_block(fd.block);
    let mut lw = Low {
        f, g, sp,
        edits: vec![], loops: 0, loop_seen: BTreeSet::new(), bare: BTreeSet::new(), at_seen: BTreeSet::new(),
        bound: ids.bound.clone(), strs: BTreeSet::new(), errs: vec![], counts: BTreeMap::new(), loop_ids: ids.ids.clone(),
    };
    lw.loops = ids.ids.len();
    if let Some(n) = sp.opt("loops") {
        let n: usize = n.parse().map_err(|_| "bad loops=")?;
        if n != lw.loops {
            return Err(format!("lost anchor: {} has {} loops, the contract knows {}", sp.qual, lw.loops, n));
        }
    }
    // signature
    lw.visit_signature(fd.sig);
    let sig_r = f.range(fd.sig.span());
    if let Some(w) = &sp.wher {
        if let Some(wc) = &fd.sig.generics.where_clause {
            let r = f.range(wc.span());
            lw.rep(r, w.clone());
            lw.count("where clause over std traits -> where clause over trusted stand-in traits");
        } else {
            return Err(format!("lost anchor: {} has no where clause", sp.qual));
        }
    }
    let ret = sp.opt("ret").unwrap_or("r");
    match &fd.sig.output {
        syn::ReturnType::Type(_, t) => {
            let r = f.range(t.span());
            let tt = lw.apply(r);
            lw.rep(r, format!("({}: {})", ret, tt));
        }
        syn::ReturnType::Default => {}
    }
    if let Some(n) = sp.opt("rename") {
        let r = f.range(fd.sig.ident.span());
        lw.rep(r, n.to_string());
    }
    let mut sig = lw.apply(sig_r);
    if sp.flag("extern") {
        // only the contract: the body is verified in the unit this text is shared with
        for (a, b) in &sp.subs {
            sig = sig.replace(a.as_str(), b);
        }
        if !lw.errs.is_empty() {
            return Err(format!("cannot lower {}: {}", sp.qual, lw.errs.join("; ")));
        }
        let vis = if sp.flag("novis") { "" } else { "pub " };
        let out = format!("{}#[verifier::external_body] {}{}\n{}\n{{ unimplemented!() }}\n", sp.attrs, vis, sig, sp.spec);
        return Ok((out, fd.span.start().line, fd.block.span().end().line));
    }
    // body
    lw.visit_block(fd.block);
    let head = lw.ats("head");
    let mut start = lw.ats("start");
    let mut end = lw.ats("end");
    if g.probe == "start" {
        start = format!("\nproof {{ assert(false); /*PROBE*/ }}\n{}", start);
    }
    if g.probe == "end" && !sp.flag("noend") {
        end.push_str("\nproof { assert(false); /*PROBE*/ }\n");
    }
    let body_r = f.range(fd.block.span());
    let body;
    if end.is_empty() {
        body = lw.apply((body_r.0 + 1, body_r.1 - 1));
    } else {
        match fd.block.stmts.last() {
            Some(syn::Stmt::Expr(e, None)) if !matches!(fd.sig.output, syn::ReturnType::Default) => {
                let er = f.range(e.span());
                let tail = lw.apply(er);
                let head = lw.apply((body_r.0 + 1, er.0));
                body = format!("{} let {} = {}; {} {}", head, ret, tail, end, ret);
            }
            _ => {
                let semi = matches!(fd.block.stmts.last(), Some(syn::Stmt::Expr(_, None)));
                body = format!("{}{} {}", lw.apply((body_r.0 + 1, body_r.1 - 1)), if semi { ";" } else { "" }, end)
            }
        }
    }
    if !lw.errs.is_empty() {
        return Err(format!("cannot lower {}: {}", sp.qual, lw.errs.join("; ")));
    }
    for k in sp.loops.keys() {
        if !lw.loop_seen.contains(k) {
            return Err(format!("lost anchor: loop {} of {}", k, sp.qual));
        }
    }
    for (i, (k, _)) in sp.ats.iter().enumerate() {
        if !lw.at_seen.contains(&i) && k != "start" && k != "end" && k != "head" {
            return Err(format!("lost anchor: position {} of {}", k, sp.qual));
        }
    }
    let mut body = body;
    if let Some(rc) = fd.sig.receiver() {
        if rc.reference.is_none() && rc.mutability.is_some() {
            sig = sig.replacen("mut self", "self", 1);
            body = format!("let mut this = self; {}", rename_word(&body, "self", "this"));
            lw.count("mut self -> a mutable local named this");
        }
    }
    for (a, b) in &sp.subs {
        let na = sig.matches(a.as_str()).count() + body.matches(a.as_str()).count();
        if na == 0 {
            return Err(format!("lost anchor: text {:?} of {}", a, sp.qual));
        }
        sig = sig.replace(a.as_str(), b);
        body = body.replace(a.as_str(), b);
        lw.count("stated per-function substitution");
    }
    let mut reveal = String::new();
    // the literals the annotations speak of may be gone from the code
    let named: Vec<String> = ghost_strs(&body).into_iter().filter(|s| !lw.strs.contains(s)).collect();
    for s in &named {
        let _ = write!(reveal, "reveal_strlit({:?}); ", s);
    }
    for s in &lw.strs {
        let _ = write!(reveal, "reveal_strlit({:?}); ", s);
    }
    if !reveal.is_empty() {
        reveal = format!("proof {{ {} }} ", reveal)
    }
    let vis = if sp.flag("novis") { "" } else { "pub " };
    let _ = fd.vis;
    let l0 = fd.span.start().line;
    let l1 = fd.block.span().end().line;
    let mut out = format!("{}{}{}\n{}\n{{ {}{}{}{} }}\n", sp.attrs, vis, sig, sp.spec, head, reveal, start, body);
    if sp.flag("nounwind") {
        out.push_str("");
    }
    for (k, n) in lw.counts {
        *counts.entry(k).or_default() += n
    }
    Ok((out, l0, l1))
}

fn derives(attrs: &[syn::Attribute]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                out.insert(last(&m.path));
                Ok(())
            });
        }
    }
    out
}

struct TyLow<'a> {
    f: &'a SrcFile,
    g: &'a Global,
    edits: Vec<(usize, usize, String)>,
}
impl<'a, 'ast> Visit<'ast> for TyLow<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let r = self.f.range(a.span());
        self.edits.push((r.0, r.1, String::new()));
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        visit::visit_path(self, p);
        let full = path_str(p);
        if let Some(to) = self.g.paths.get(&full) {
            let a = self.f.range(p.segments.first().unwrap().ident.span()).0;
            let b = self.f.range(p.segments.last().unwrap().ident.span()).1;
            self.edits.push((a, b, to.clone()));
        }
    }
    fn visit_field(&mut self, fl: &'ast syn::Field) {
        for a in &fl.attrs {
            self.visit_attribute(a)
        }
        match &fl.vis {
            syn::Visibility::Inherited => {
                let a = match &fl.ident {
                    Some(i) => self.f.range(i.span()).0,
                    None => self.f.range(fl.ty.span()).0,
                };
                self.edits.push((a, a, "pub ".into()))
            }
            v => {
                let r = self.f.range(v.span());
                self.edits.push((r.0, r.1, "pub".into()))
            }
        }
        self.visit_type(&fl.ty)
    }
}

fn apply_edits(text: &str, r: (usize, usize), mut edits: Vec<(usize, usize, String)>) -> String {
    edits.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut pos = r.0;
    for (a, b, t) in edits {
        if a < pos || b > r.1 {
            continue;
        }
        out.push_str(&text[pos..a]);
        out.push_str(&t);
        pos = b;
    }
    out.push_str(&text[pos..r.1]);
    out
}

fn emit_type(root: &str, files: &mut HashMap<String, SrcFile>, g: &Global, kind: &str, file: &str, name: &str, flags: &[String]) -> R<String> {
    if !files.contains_key(file) {
        files.insert(file.into(), load(&format!("{}/{}", root, file))?);
    }
    let f = &files[file];
    let has = |x: &str| flags.iter().any(|y| y == x);
    for it in &f.ast.items {
        let (attrs, ident, span, generics) = match it {
            syn::Item::Struct(s) if kind == "struct" => (&s.attrs, &s.ident, s.span(), &s.generics),
            syn::Item::Enum(s) if kind == "enum" => (&s.attrs, &s.ident, s.span(), &s.generics),
            _ => continue,
        };
        if ident != name {
            continue;
        }
        let mut tl = TyLow { f, g, edits: vec![] };
        let start = match it {
            syn::Item::Struct(s) => {
                tl.visit_fields(&s.fields);
                f.range(s.struct_token.span()).0
            }
            syn::Item::Enum(s) => {
                // variant fields of an enum take no visibility
                for v in &s.variants {
                    for a in &v.attrs {
                        tl.visit_attribute(a)
                    }
                    for fl in &v.fields {
                        tl.visit_type(&fl.ty)
                    }
                }
                f.range(s.enum_token.span()).0
            }
            _ => unreachable!(),
        };
        let end = f.range(span).1;
        let mut body = apply_edits(&f.text, (start, end), tl.edits);
        let d = derives(attrs);
        let mut out = String::new();
        let mut nm = name.to_string();
        if let Some(n) = flags.iter().find_map(|x| x.strip_prefix("rename=")) {
            body = body.replacen(name, n, 1);
            nm = n.to_string();
        }
        if has("eq") {
            if !d.contains("PartialEq") || !d.contains("Eq") {
                return Err(format!("lost anchor: {} no longer derives PartialEq, Eq", name));
            }
            out.push_str("#[derive(PartialEq, Eq, Structural)]\n");
        }
        for fl in flags {
            if let Some(a) = fl.strip_prefix("attr=") {
                let _ = write!(out, "#[{}]\n", a);
            }
        }
        let _ = write!(out, "pub {}\n", body);
        if has("clone") {
            if !d.contains("Clone") {
                return Err(format!("lost anchor: {} no longer derives Clone", name));
            }
            let gp: Vec<String> = generics.params.iter().map(|p| match p {
                syn::GenericParam::Type(t) => t.ident.to_string(),
                _ => String::new(),
            }).collect();
            let ga = if gp.is_empty() { String::new() } else { format!("<{}>", gp.join(",")) };
            let _ = write!(
                out,
                "impl{ga} Clone for {nm}{ga} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\n"
            );
        }
        return Ok(out);
    }
    Err(format!("lost anchor: {} {} not found in {}", kind, name, file))
}

fn emit_const(root: &str, files: &mut HashMap<String, SrcFile>, g: &Global, file: &str, qual: &str) -> R<String> {
    if !files.contains_key(file) {
        files.insert(file.into(), load(&format!("{}/{}", root, file))?);
    }
    let f = &files[file];
    let render = |it_span: Span, start: usize, ty: &syn::Type, ex: &syn::Expr| -> String {
        let mut tl = TyLow { f, g, edits: vec![] };
        tl.visit_type(ty);
        visit::visit_expr(&mut tl, ex);
        let end = f.range(it_span).1;
        format!("pub {}\n", apply_edits(&f.text, (start, end), tl.edits).replacen(": &str", ": &'static str", 1).replacen(": &[u8]", ": &'static [u8]", 1))
    };
    let (ty, name) = match qual.rsplit_once("::") {
        Some((a, b)) => (Some(a), b),
        None => (None, qual),
    };
    let mut out = String::new();
    for it in &f.ast.items {
        match (it, ty) {
            (syn::Item::Const(c), None) if c.ident == name => {
                out.push_str(&render(c.span(), f.range(c.const_token.span()).0, &c.ty, &c.expr))
            }
            (syn::Item::Impl(im), Some(t)) if im.trait_.is_none() && ty_name(&im.self_ty) == t => {
                for x in &im.items {
                    if let syn::ImplItem::Const(c) = x {
                        if name == "*" || c.ident == name {
                            out.push_str(&render(c.span(), f.range(c.const_token.span()).0, &c.ty, &c.expr))
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if out.is_empty() {
        return Err(format!("lost anchor: const {} not found in {}", qual, file));
    }
    Ok(out)
}

fn read_spec(path: &str, seen: &mut BTreeSet<String>) -> R<Vec<(String, String)>> {
    let t = std::fs::read_to_string(path).map_err(|e| format!("spec {}: {}", path, e))?;
    let dir = std::path::Path::new(path).parent().unwrap();
    let mut out = vec![];
    for l in t.lines() {
        if let Some(x) = l.trim_start().strip_prefix("@@include ") {
            let p = dir.join(x.trim()).to_string_lossy().to_string();
            if seen.insert(p.clone()) {
                out.extend(read_spec(&p, seen)?);
            }
        } else {
            out.push((path.to_string(), l.to_string()))
        }
    }
    Ok(out)
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn run(args: &[String]) -> R<()> {
    let (root, spec, out_rs, out_json) = (&args[1], &args[2], &args[3], &args[4]);
    let mut seen = BTreeSet::new();
    let lines = read_spec(spec, &mut seen)?;
    let mut g = Global::default();
    for p in ["cmp", "std::cmp", "core::cmp"] {
        g.paths.insert(format!("{}::min", p), "x_min".into());
        g.paths.insert(format!("{}::max", p), "x_max".into());
    }
    g.probe = args.get(5).cloned().unwrap_or_default();
    let mut files = HashMap::new();
    let mut counts: BTreeMap<&'static str, usize> = BTreeMap::new();
    let mut out = String::new();
    let mut fns: Vec<(String, String, usize, usize, usize, usize, bool)> = vec![];
    let mut errs: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].1.trim_start().to_string();
        i += 1;
        if !l.starts_with("@@") {
            out.push_str(&lines[i - 1].1);
            out.push('\n');
            continue;
        }
        let w: Vec<String> = l.split_whitespace().map(|x| x.to_string()).collect();
        let res: R<()> = (|| {
            match w[0].as_str() {
                "@@method" => {
                    g.methods.insert(w[1].clone(), w[2].clone());
                    if w.len() > 3 {
                        g.extras.insert(w[1].clone(), w[3..].join(" "));
                    } else {
                        g.extras.remove(&w[1]);
                    }
                }
                "@@nomethod" => {
                    g.methods.remove(&w[1]);
                    g.extras.remove(&w[1]);
                }
                "@@set" => {
                    g.vars.insert(w[1].clone(), w[2].clone());
                }
                "@@path" => {
                    g.paths.insert(w[1].clone(), w[2].clone());
                    if w.len() > 3 {
                        g.extras.insert(w[1].clone(), w[3..].join(" "));
                    } else {
                        g.extras.remove(&w[1]);
                    }
                }
                "@@nopath" => {
                    g.paths.remove(&w[1]);
                    g.extras.remove(&w[1]);
                }
                "@@struct" | "@@enum" => {
                    let t = emit_type(root, &mut files, &g, &w[0][2..], &w[1], &w[2], &w[3..])?;
                    out.push_str(&t)
                }
                "@@derives" => {
                    if !files.contains_key(&w[1]) {
                        files.insert(w[1].clone(), load(&format!("{}/{}", root, w[1]))?);
                    }
                    let ok = files[&w[1]].ast.items.iter().any(|it| match it {
                        syn::Item::Struct(s) => s.ident == w[2] && derives(&s.attrs).contains(&w[3]),
                        syn::Item::Enum(s) => s.ident == w[2] && derives(&s.attrs).contains(&w[3]),
                        _ => false,
                    });
                    if !ok {
                        return Err(format!("lost anchor: {} no longer derives {}", w[2], w[3]));
                    }
                }
                "@@const" => {
                    let t = emit_const(root, &mut files, &g, &w[1], &w[2])?;
                    out.push_str(&t)
                }
                "@@fn" => {
                    // @@fn FILE `QUAL` flags...
                    let rest = l["@@fn".len()..].trim();
                    let (file, rest) = rest.split_once(' ').ok_or("bad @@fn")?;
                    let (qual, rest) = if let Some(r) = rest.trim().strip_prefix('`') {
                        r.split_once('`').ok_or("bad @@fn")?
                    } else {
                        rest.trim().split_once(' ').unwrap_or((rest.trim(), ""))
                    };
                    let mut sp = FnSpec {
                        file: file.into(),
                        qual: qual.into(),
                        flags: rest.split_whitespace().filter_map(|x| match x.strip_prefix('$') {
                            Some(v) => g.vars.get(v).cloned(),
                            None => Some(x.to_string()),
                        }).collect(),
                        ..Default::default()
                    };
                    #[derive(Clone)]
                    enum Cur { Spec, Loop(usize), At(String), None }
                    let mut cur = Cur::None;
                    loop {
                        if i >= lines.len() {
                            return Err("unterminated @@fn".into());
                        }
                        let ln = lines[i].1.clone();
                        i += 1;
                        let t = ln.trim_start();
                        if t.starts_with("@@end") {
                            break;
                        }
                        if t.starts_with("@@spec") {
                            cur = Cur::Spec
                        } else if let Some(x) = t.strip_prefix("@@loop ") {
                            let n: usize = x.trim().parse().map_err(|_| "bad @@loop")?;
                            sp.loops.insert(n, String::new());
                            cur = Cur::Loop(n)
                        } else if let Some(x) = t.strip_prefix("@@at ") {
                            sp.ats.push((x.trim().to_string(), String::new()));
                            cur = Cur::At(x.trim().to_string())
                        } else if let Some(x) = t.strip_prefix("@@where ") {
                            sp.wher = Some(x.to_string())
                        } else if let Some(x) = t.strip_prefix("@@sub ") {
                            let (a, b) = x.split_once(" => ").ok_or("bad @@sub")?;
                            sp.subs.push((a.trim().to_string(), b.trim().to_string()))
                        } else if let Some(x) = t.strip_prefix("@@attr ") {
                            sp.attrs.push_str(x);
                            sp.attrs.push('\n')
                        } else if t.starts_with("@@") {
                            return Err(format!("unknown directive {}", t));
                        } else {
                            let dst = match &cur {
                                Cur::Spec => &mut sp.spec,
                                Cur::Loop(n) => sp.loops.get_mut(n).unwrap(),
                                Cur::At(_) => &mut sp.ats.last_mut().unwrap().1,
                                Cur::None => {
                                    if t.is_empty() {
                                        continue;
                                    }
                                    return Err(format!("text outside a block: {}", t));
                                }
                            };
                            dst.push_str(&ln);
                            dst.push('\n')
                        }
                    }
                    let start = out.matches('\n').count() + 1;
                    let (t, l0, l1) = emit_fn(root, &mut files, &g, &sp, &mut counts)?;
                    out.push_str(&format!("// extracted from {}:{}-{} {}\n", sp.file, l0, l1, sp.qual));
                    out.push_str(&t);
                    let end = out.matches('\n').count() + 1;
                    fns.push((sp.file.clone(), sp.qual.clone(), l0, l1, start, end, sp.flag("extern")));
                }
                x => return Err(format!("unknown directive {}", x)),
            }
            Ok(())
        })();
        if let Err(e) = res {
            errs.push(e)
        }
    }
    std::fs::write(out_rs, &out).map_err(|e| e.to_string())?;
    let mut j = String::from("{\n \"functions\": [\n");
    for (k, (file, q, l0, l1, a, b, ext)) in fns.iter().enumerate() {
        let _ = write!(
            j,
            "  {{\"file\": {}, \"fn\": {}, \"src_lines\": [{}, {}], \"out_lines\": [{}, {}], \"extern\": {}}}{}\n",
            json_str(file), json_str(q), l0, l1, a, b, ext,
            if k + 1 < fns.len() { "," } else { "" }
        );
    }
    j.push_str(" ],\n \"lowerings\": {");
    j.push_str(&counts.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    j.push_str("},\n \"errors\": [");
    j.push_str(&errs.iter().map(|e| json_str(e)).collect::<Vec<_>>().join(", "));
    j.push_str("]\n}\n");
    std::fs::write(out_json, j).map_err(|e| e.to_string())?;
    if errs.is_empty() {
        Ok(())
    } else {
        Err(errs.join("\n"))
    }
}

/// the plain string literals followed by '@' in a text
fn ghost_strs(text: &str) -> BTreeSet<String> {
    let b: Vec<char> = text.chars().collect();
    let mut out = BTreeSet::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '"' {
            let mut j = i + 1;
            while j < b.len() && b[j] != '"' {
                j += if b[j] == '\\' { 2 } else { 1 }
            }
            if j + 1 < b.len() && b[j + 1] == '@' {
                let s: String = b[i + 1..j].iter().collect();
                if !s.contains('\\') && !s.is_empty() {
                    out.insert(s);
                }
            }
            i = j
        } else if b[i] == '\'' && i + 2 < b.len() && b[i + 2] == '\'' {
            i += 2
        } else if b[i] == '\'' && i + 3 < b.len() && b[i + 1] == '\\' && b[i + 3] == '\'' {
            i += 3
        }
        i += 1
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Err(e) = run(&args) {
        eprintln!("{}", e);
        std::process::exit(3)
    }
}
