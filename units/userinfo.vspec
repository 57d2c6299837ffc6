@@include prelude.vinc
verus! {
@@set codec extern
/// the first six bytes are the scheme exactly when the first six characters are
proof fn lemma_basic(s: Seq<char>)
    ensures ({
        let b = encode_utf8(s); let l = lower_ascii("Basic "@);
        &&& s.len() >= 6 && lower_ascii(s.take(6)) == l ==> b.len() >= 6 && valid_utf8(b.take(6)) && b.take(6) == encode_utf8(s.take(6)) && b.skip(6) == encode_utf8(s.skip(6))
        &&& forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.take(6) && s.len() >= 6 && lower_ascii(s.take(6)) == l ==> r == s.take(6)
        &&& forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.skip(6) && s.len() >= 6 && lower_ascii(s.take(6)) == l ==> r == s.skip(6)
        &&& forall|r: Seq<char>| b.len() >= 6 && #[trigger] encode_utf8(r) == b.take(6) && lower_ascii(r) == l ==> s.len() >= 6 && s.take(6) == r
    })
{
    let b = encode_utf8(s); let l = lower_ascii("Basic "@);
    reveal_strlit("Basic ");
    assert(l =~= seq!['b', 'a', 's', 'i', 'c', ' ']);
    assert forall|x: Seq<char>| #[trigger] lower_ascii(x) == l implies x.len() == 6 && is_ascii_chars(x) by {
        assert(x.len() == lower_ascii(x).len());
        assert forall|i: int| 0 <= i < x.len() implies '\0' <= #[trigger] x[i] <= '\u{7f}' by { assert(lower_ascii(x)[i] == l[i]); }
    }
    encode_utf8_valid_utf8(s);
    if s.len() >= 6 && lower_ascii(s.take(6)) == l {
        assert(s =~= s.take(6) + s.skip(6));
        encode_utf8_concat(s.take(6), s.skip(6));
        is_ascii_chars_encode_utf8(s.take(6));
        encode_utf8_valid_utf8(s.take(6));
        assert(b.take(6) =~= encode_utf8(s.take(6)));
        assert(b.skip(6) =~= encode_utf8(s.skip(6)));
        assert forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.take(6) implies r == s.take(6) by { lem::lemma_enc_inj(r, s.take(6)); }
        assert forall|r: Seq<char>| #[trigger] encode_utf8(r) == b.skip(6) implies r == s.skip(6) by { lem::lemma_enc_inj(r, s.skip(6)); }
    }
    assert forall|r: Seq<char>| b.len() >= 6 && #[trigger] encode_utf8(r) == b.take(6) && lower_ascii(r) == l implies s.len() >= 6 && s.take(6) == r by {
        is_ascii_chars_encode_utf8(r);
        assert forall|i: int| 0 <= i < 6 implies b[i] < 128 by { assert(b.take(6)[i] == r[i] as u8); }
        lem::lemma_boundary(b, 6);
        valid_utf8_split(b, 6);
        decode_utf8_split(b, 6);
        encode_utf8_decode_utf8(s); encode_utf8_decode_utf8(r);
        assert(b.subrange(0, 6) =~= b.take(6));
        assert(s =~= r + decode_utf8(b.subrange(6, b.len() as int)));
        assert(s.take(6) =~= r);
    }
}
@@include codec.vinc
@@include userinfo.vinc
// ---------------------------------------------------------------- the property: there and back
proof fn lemma_colon(u: Seq<char>, p: Seq<char>)
    requires u.len() > 0, forall|i: int| 0 <= i < u.len() ==> u[i] != ':'
    ensures cred_of(encode_utf8(u + ":"@ + p)) == Some((u, p))
{
    reveal_strlit(":");
    let c = seq![':']; assert(":"@ =~= c);
    let eu = encode_utf8(u); let ep = encode_utf8(p);
    assert(encode_utf8(c) =~= seq![58u8]) by { lem::lemma_ascii(c, seq![58u8]); }
    encode_utf8_concat(u, c); encode_utf8_concat(u + c, p);
    let d = encode_utf8(u + c + p);
    assert(d =~= eu + seq![58u8] + ep);
    lem::lemma_nobyte(u, ':');
    lem::lemma_bfind(d, 58u8);
    assert(d[eu.len() as int] == 58u8);
    assert(bfind(d, 58u8) == eu.len()) by {
        let i = bfind(d, 58u8);
        if i < eu.len() { assert(d[i] == eu[i]); }
    }
    assert(d.take(eu.len() as int) =~= eu); assert(d.skip(eu.len() as int + 1) =~= ep);
    encode_utf8_valid_utf8(u); encode_utf8_valid_utf8(p);
    encode_utf8_decode_utf8(u); encode_utf8_decode_utf8(p);
    if eu.len() == 0 { assert(encode_utf8(Seq::<char>::empty()) =~= eu) by { lem::lemma_ascii(Seq::<char>::empty(), eu); } lem::lemma_enc_inj(u, Seq::<char>::empty()); }
}
fn there_and_back(username: String, password: String)
    requires username@.len() > 0, forall|i: int| 0 <= i < username@.len() ==> username@[i] != ':'
{
    let ghost (n, p) = (username@, password@);
    let u = Userinfo::new(username, password);
    let text = x_string_from("Basic ").x_adds(u.base64().as_str());
    proof {
        reveal_strlit("Basic ");
        assert(text@.take(6) =~= "Basic "@);
        assert(text@.skip(6) =~= b64enc(encode_utf8(utext(u))));
        axiom_b64(encode_utf8(utext(u)));
        lemma_colon(n, p);
    }
    let back = Userinfo::from_basic(text);
    assert(back is Ok);
    if let Ok(b) = back { assert(b.username@ == n && b.password@ == p); }
}
}
fn main() {}
