@@include prelude.vinc
verus! {
pub open spec fn pick(acc: Option<AcceptEncoding>, p: Seq<Seq<char>>) -> Option<AcceptEncoding> {
    if has(p, "gzip"@) { Some(AcceptEncoding::GZip) }
    else if acc == Some(AcceptEncoding::Deflate) || has(p, "deflate"@) { Some(AcceptEncoding::Deflate) }
    else if acc == Some(AcceptEncoding::ZLib) || has(p, "zlib"@) { Some(AcceptEncoding::ZLib) }
    else { None }
}
// ------------------------------------------------ blanks around the whole list do not matter
proof fn lemma_trim_lr(s: Seq<char>)
    ensures s.len() > 0 && is_ws(s[0]) ==> trim(s.skip(1)) == trim(s),
        s.len() > 0 && is_ws(s.last()) ==> trim(s.drop_last()) == trim(s),
    decreases s.len()
{
    if s.len() > 0 && is_ws(s.last()) {
        let d = s.drop_last();
        if is_ws(s[0]) {
            if s.len() == 1 {
                assert(s.skip(1) =~= Seq::<char>::empty()); assert(d =~= Seq::<char>::empty());
            } else {
                lemma_trim_lr(s.skip(1));
                assert(s.skip(1).drop_last() =~= d.skip(1));
                assert(s.skip(1).last() == s.last());
            }
        }
    }
}
proof fn lemma_find(s: Seq<char>, c: char)
    ensures 0 <= find(s, c) <= s.len(), find(s, c) < s.len() ==> s[find(s, c)] == c, forall|i: int| 0 <= i < find(s, c) ==> s[i] != c,
    decreases s.len()
{ if s.len() > 0 && s[0] != c { lemma_find(s.skip(1), c);
    assert forall|i: int| 0 <= i < find(s, c) implies s[i] != c by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } } } }
proof fn lemma_find_unique(s: Seq<char>, c: char, k: int)
    requires 0 <= k <= s.len(), k < s.len() ==> s[k] == c, forall|i: int| 0 <= i < k ==> s[i] != c
    ensures find(s, c) == k
{ lemma_find(s, c); }
proof fn lemma_l(s: Seq<char>, t: Seq<char>)
    requires s.len() > 0, is_ws(s[0])
    ensures has(split(s.skip(1), ','), t) == has(split(s, ','), t)
{
    let u = s.skip(1);
    let i = find(s, ',');
    lemma_find(s, ',');
    lemma_find_unique(u, ',', i - 1);
    lemma_trim_lr(s.take(i));
    assert(s.take(i).skip(1) =~= u.take(i - 1));
    if i < s.len() {
        assert(s.skip(i + 1) =~= u.skip(i));
        let r = split(s.skip(i + 1), ',');
        assert((seq![s.take(i)] + r).skip(1) =~= r);
        assert((seq![u.take(i - 1)] + r).skip(1) =~= r);
    } else {
        assert(s.take(i) =~= s && u.take(i - 1) =~= u);
        assert(seq![s].skip(1) =~= seq![u].skip(1));
    }
}
proof fn lemma_r(s: Seq<char>, t: Seq<char>)
    requires s.len() > 0, is_ws(s.last())
    ensures has(split(s.drop_last(), ','), t) == has(split(s, ','), t)
    decreases s.len()
{
    let u = s.drop_last();
    let i = find(s, ',');
    lemma_find(s, ',');
    if i < s.len() {
        lemma_find_unique(u, ',', i);
        assert(s.take(i) =~= u.take(i));
        let a = s.skip(i + 1);
        lemma_r(a, t);
        assert(a.drop_last() =~= u.skip(i + 1));
        let (r, q) = (split(a, ','), split(u.skip(i + 1), ','));
        assert((seq![s.take(i)] + r).skip(1) =~= r);
        assert((seq![u.take(i)] + q).skip(1) =~= q);
    } else {
        lemma_find_unique(u, ',', u.len() as int);
        lemma_trim_lr(s);
        assert(seq![s].skip(1) =~= seq![u].skip(1));
    }
}
proof fn lemma_tl(s: Seq<char>, t: Seq<char>) ensures has(split(trim_l(s), ','), t) == has(split(s, ','), t) decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { lemma_l(s, t); lemma_tl(s.skip(1), t); } }
proof fn lemma_tr(s: Seq<char>, t: Seq<char>) ensures has(split(trim_r(s), ','), t) == has(split(s, ','), t) decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { lemma_r(s, t); lemma_tr(s.drop_last(), t); } }
proof fn theorem_tokens(s: Seq<char>, t: Seq<char>)
    ensures has(split(trim(s), ','), t) == has(split(s, ','), t)
{ lemma_tl(s, t); lemma_tr(trim_l(s), t); }
@@include encoding.vinc
@@method eq x_eq

pub trait EqA { spec fn eqa_s(&self, o: &&AcceptEncoding) -> bool; fn eqa(&self, other: &&AcceptEncoding) -> (r: bool) ensures r == self.eqa_s(other); }
impl EqA for AcceptEncoding {
    open spec fn eqa_s(&self, o: &&AcceptEncoding) -> bool { etok(*self) == etok(**o) }
@@fn http/header/encode_type.rs `PartialEq<&'aAcceptEncoding> for AcceptEncoding::eq` ret=r rename=eqa novis
@@sub &&'a => &&
@@end
}
pub trait EqB { spec fn eqb_s(&self, o: &AcceptEncoding) -> bool; fn eqb(&self, other: &AcceptEncoding) -> (r: bool) ensures r == self.eqb_s(other); }
impl EqB for &AcceptEncoding {
    open spec fn eqb_s(&self, o: &AcceptEncoding) -> bool { etok(**self) == etok(*o) }
@@fn http/header/encode_type.rs `PartialEq<AcceptEncoding> for &AcceptEncoding::eq` ret=r rename=eqb novis
@@end
}
proof fn lemma_toks()
    ensures "gzip"@ != "deflate"@, "gzip"@ != "zlib"@, "gzip"@ != ""@, "gzip"@ != "br"@, "deflate"@ != "zlib"@, "deflate"@ != ""@, "deflate"@ != "br"@,
        "zlib"@ != ""@, "zlib"@ != "br"@, ""@ != "br"@
{ reveal_strlit("gzip"); reveal_strlit("deflate"); reveal_strlit("zlib"); reveal_strlit(""); reveal_strlit("br");
  assert("gzip"@.len() == 4 && "deflate"@.len() == 7 && "zlib"@.len() == 4 && "br"@.len() == 2 && ""@.len() == 0);
  assert("gzip"@[0] == 'g' && "zlib"@[0] == 'z'); }
/// every encoding is read back from its token and different encodings have different tokens
proof fn theorem_enc(e: AcceptEncoding) ensures enc_of(etok(e)) == e
{ lemma_toks(); }
} // verus!
fn main() {}
