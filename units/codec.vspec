@@include prelude.vinc
verus! {
@@include codec.vinc
// ---------------------------------------------------------------- hex (hex crate): an even number of hexadecimal digits
pub open spec fn hexd(n: int) -> char { if n < 10 { ('0' as u32 + n) as u8 as char } else { ('a' as u32 + n - 10) as u8 as char } }
pub open spec fn hexv(c: char) -> int { if '0' <= c && c <= '9' { c as int - 48 } else if 'a' <= c && c <= 'f' { c as int - 87 } else if 'A' <= c && c <= 'F' { c as int - 55 } else { -1 } }
pub open spec fn hexenc(b: Seq<u8>) -> Seq<char> { Seq::new(2 * b.len(), |i: int| if i % 2 == 0 { hexd(b[i / 2] as int / 16) } else { hexd(b[i / 2] as int % 16) }) }
pub open spec fn ishex(s: Seq<char>) -> bool { s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> hexv(#[trigger] s[i]) >= 0 }
pub open spec fn hexdec(s: Seq<char>) -> Option<Seq<u8>> { if ishex(s) { Some(Seq::new(s.len() / 2, |i: int| (16 * hexv(s[2 * i]) + hexv(s[2 * i + 1])) as u8)) } else { None } }
#[verifier::external_body] pub struct FromHexError { e: u8 }
pub trait AsBytesX { spec fn asb(&self) -> Seq<u8>; }
impl AsBytesX for &[u8] { open spec fn asb(&self) -> Seq<u8> { self@ } }
impl AsBytesX for &str { open spec fn asb(&self) -> Seq<u8> { encode_utf8(self@) } }
#[verifier::external_body] pub fn x_hex_encode<T: AsBytesX>(b: T) -> (r: String) ensures r@ == hexenc(b.asb()) { unimplemented!() }
#[verifier::external_body] pub fn x_hex_decode(s: &str) -> (r: Result<Vec<u8>, FromHexError>) ensures match r { Ok(v) => hexdec(s@) == Some(v@), Err(_) => hexdec(s@).is_none() } { unimplemented!() }
pub struct Hex;
pub trait HDec<T> { spec fn htext(t: T) -> Seq<char>;
    fn decode(t: T) -> (r: StarryResult<Vec<u8>>) ensures match r { Ok(v) => hexdec(Self::htext(t)) == Some(v@), Err(_) => hexdec(Self::htext(t)).is_none() }; }
pub trait HEnc<T> { spec fn hbytes(t: T) -> Seq<u8>;
    fn encode(t: T) -> (r: String) ensures r@ == hexenc(Self::hbytes(t)); }
@@path hex::encode x_hex_encode
@@path hex::decode x_hex_decode
impl HDec<String> for Hex { open spec fn htext(t: String) -> Seq<char> { t@ }
@@fn utils/cryptos/hex.rs `HexDecoder<String> for Hex::decode` ret=r novis
@@end
}
impl HDec<&str> for Hex { open spec fn htext(t: &str) -> Seq<char> { t@ }
@@fn utils/cryptos/hex.rs `HexDecoder<&str> for Hex::decode` ret=r novis
@@end
}
impl HEnc<&[u8]> for Hex { open spec fn hbytes(t: &[u8]) -> Seq<u8> { t@ }
@@fn utils/cryptos/hex.rs `HexEncoder<&[u8]> for Hex::encode` ret=r novis
@@end
}
impl HEnc<Vec<u8>> for Hex { open spec fn hbytes(t: Vec<u8>) -> Seq<u8> { t@ }
@@fn utils/cryptos/hex.rs `HexEncoder<Vec<u8>> for Hex::encode` ret=r novis
@@end
}
impl HEnc<&str> for Hex { open spec fn hbytes(t: &str) -> Seq<u8> { encode_utf8(t@) }
@@fn utils/cryptos/hex.rs `HexEncoder<&str> for Hex::encode` ret=r novis
@@end
}
@@include compress.vinc
// ---------------------------------------------------------------- the property
proof fn theorem_hex(b: Seq<u8>) ensures hexdec(hexenc(b)) == Some(b)
{
    let s = hexenc(b);
    assert forall|i: int| 0 <= i < s.len() implies hexv(#[trigger] s[i]) == (if i % 2 == 0 { b[i / 2] as int / 16 } else { b[i / 2] as int % 16 }) by { lemma_digit(b[i / 2] as int / 16); lemma_digit(b[i / 2] as int % 16); }
    let r = Seq::new(s.len() / 2, |i: int| (16 * hexv(s[2 * i]) + hexv(s[2 * i + 1])) as u8);
    assert forall|i: int| 0 <= i < b.len() implies r[i] == b[i] by { assert((2 * i) / 2 == i); assert((2 * i + 1) / 2 == i); }
    assert(r =~= b);
}
proof fn lemma_digit(n: int) requires 0 <= n < 16 ensures hexv(hexd(n)) == n
{ assert(hexv(hexd(n)) == n); }
fn roundtrips(b: &[u8], l: Compression)
{
    proof { axiom_b64(b@); theorem_hex(b@); }
    let t: String = <Base64 as BEnc<&[u8]>>::encode(b);
    match <Base64 as BDec<String>>::decode(t) { Ok(v) => { assert(v@ == b@); } Err(_) => { assert(false); } }
    let t: String = <Hex as HEnc<&[u8]>>::encode(b);
    match <Hex as HDec<String>>::decode(t) { Ok(v) => { assert(v@ == b@); } Err(_) => { assert(false); } }
    match Compress::gzip(b, l) { Ok(z) => { match Compress::un_gzip(z.as_slice()) { Ok(v) => { assert(v@ == b@); } Err(_) => { assert(false); } } } Err(_) => {} }
    match Compress::zlib(b, l) { Ok(z) => { match Compress::un_zlib(z.as_slice()) { Ok(v) => { assert(v@ == b@); } Err(_) => { assert(false); } } } Err(_) => {} }
    match Compress::deflate(b, l) { Ok(z) => { match Compress::un_deflate(z.as_slice()) { Ok(v) => { assert(v@ == b@); } Err(_) => { assert(false); } } } Err(_) => {} }
}
}
fn main() {}
