// Escaping for XML and HTML: the specification, on characters and on bytes.
pub mod escapes {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::prelude::*;
/// What each character of text becomes: the five characters with a meaning in
/// XML are named by their entity, all others stand for themselves.
pub open spec fn esc1(c: char) -> Seq<char> {
    if c == '<' { seq!['&', 'l', 't', ';'] }
    else if c == '>' { seq!['&', 'g', 't', ';'] }
    else if c == '"' { seq!['&', 'q', 'u', 'o', 't', ';'] }
    else if c == '\'' { seq!['&', 'a', 'p', 'o', 's', ';'] }
    else if c == '&' { seq!['&', 'a', 'm', 'p', ';'] }
    else { seq![c] }
}
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { esc1(s[0]) + esc(s.skip(1)) }
}
/// The same, on the bytes of the text.
pub open spec fn escb1(b: u8) -> Seq<u8> {
    if b == 60 { seq![38u8, 108, 116, 59] }
    else if b == 62 { seq![38u8, 103, 116, 59] }
    else if b == 34 { seq![38u8, 113, 117, 111, 116, 59] }
    else if b == 39 { seq![38u8, 97, 112, 111, 115, 59] }
    else if b == 38 { seq![38u8, 97, 109, 112, 59] }
    else { seq![b] }
}
pub open spec fn escb(s: Seq<u8>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { escb1(s[0]) + escb(s.skip(1)) }
}
pub proof fn lemma_escb_add(a: Seq<u8>, b: Seq<u8>)
    ensures escb(a + b) == escb(a) + escb(b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(escb(a) + escb(b) =~= escb(b)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lemma_escb_add(a.skip(1), b);
        assert(escb1(a[0]) + (escb(a.skip(1)) + escb(b)) =~= (escb1(a[0]) + escb(a.skip(1))) + escb(b));
    }
}
pub proof fn lemma_escb_id(a: Seq<u8>)
    requires forall|i: int| 0 <= i < a.len() ==> a[i] >= 0x80
    ensures escb(a) == a
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.skip(1).len() implies a.skip(1)[i] >= 0x80 by { assert(a.skip(1)[i] == a[i + 1]); }
        lemma_escb_id(a.skip(1));
        assert(seq![a[0]] + a.skip(1) =~= a);
    } else { assert(escb(a) =~= a); }
}
pub proof fn lemma_escb1_char(c: char)
    ensures escb(encode_scalar(c as u32)) == encode_utf8(esc1(c))
{
    let e = encode_scalar(c as u32);
    assert(encode_utf8(seq![c]) == e) by {
        reveal_with_fuel(encode_utf8, 2);
        assert(seq![c].drop_first() =~= Seq::<char>::empty());
        assert(e + Seq::<u8>::empty() =~= e);
    }
    if (c as u32) >= 0x80 {
        assert forall|i: int| 0 <= i < e.len() implies e[i] >= 0x80 by { lemma_enc_hi(c, i); }
        lemma_escb_id(e);
        assert(esc1(c) == seq![c]);
    } else {
        lemma_enc_ascii(c);
        assert(escb(e) == escb1(c as u8)) by {
            reveal_with_fuel(escb, 2);
            assert(e.skip(1) =~= Seq::<u8>::empty());
            assert(escb1(c as u8) + Seq::<u8>::empty() =~= escb1(c as u8));
        }
        let x = esc1(c);
        assert(is_ascii_chars(x));
        is_ascii_chars_encode_utf8(x);
        assert(encode_utf8(x).len() == x.len());
        assert forall|i: int| 0 <= i < x.len() implies encode_utf8(x)[i] == x[i] as u8 by { }
        assert(escb1(c as u8) =~= encode_utf8(x));
    }
}
pub proof fn lemma_escb_chars(s: Seq<char>)
    ensures escb(encode_utf8(s)) == encode_utf8(esc(s))
    decreases s.len()
{
    if s.len() == 0 { assert(encode_utf8(s) =~= Seq::<u8>::empty()); assert(encode_utf8(esc(s)) =~= Seq::<u8>::empty()); }
    else {
        assert(s.drop_first() =~= s.skip(1));
        lemma_escb_chars(s.skip(1));
        lemma_escb1_char(s[0]);
        lemma_escb_add(encode_scalar(s[0] as u32), encode_utf8(s.skip(1)));
        encode_utf8_concat(esc1(s[0]), esc(s.skip(1)));
    }
}
} // mod escapes
