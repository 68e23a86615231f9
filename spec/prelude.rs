// ---------------------------------------------------------------------------
// Shims for the standard library: the extracted code calls these in place of
// the std functions of the same meaning (the renaming table is in the
// configuration). `external_body` ones are trusted to describe std.
// ---------------------------------------------------------------------------
pub mod prelude {
pub use crate::escapes::*;
pub use std::rc::Rc;
use vstd::prelude::*;
use vstd::utf8::*;

#[verifier::external_body]
pub fn vx_unreachable() -> !
    requires false
{ unimplemented!() }

/// Storing a value in an arena that outlives the caller (seam's `register_formatter`,
/// `register_node`, ...), which gives a reference to it.
#[verifier::external_body]
pub fn vx_arena<'z, T>(t: T) -> (r: &'z T)
    ensures *r == t
{ unimplemented!() }

/// Whether two references point to the same place.
pub uninterp spec fn same_ref<T: ?Sized>(a: &T, b: &T) -> bool;
#[verifier::external_body]
pub fn vx_ptr_eq<T: ?Sized>(a: &T, b: &T) -> (r: bool) ensures r == same_ref(a, b) { unimplemented!() }

pub fn vx_assert(b: bool)
    requires b
{ }

// ---- strings -------------------------------------------------------------
pub uninterp spec fn dbg_view(s: Seq<char>) -> Seq<char>;
pub open spec fn ascii_lower1(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u32) as char } else { c } }
/// A to Z become a to z; nothing else changes.
pub open spec fn ascii_lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| ascii_lower1(s[i])) }
pub uninterp spec fn uni_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn uni_upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_view(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn is_ws(c: char) -> bool;
pub uninterp spec fn nat_view(n: nat) -> Seq<char>;

/// Anything with a textual form for `{}`.
pub trait VxDisplay {
    spec fn dview(&self) -> Seq<char>;
}
impl VxDisplay for str { open spec fn dview(&self) -> Seq<char> { self@ } }
impl VxDisplay for String { open spec fn dview(&self) -> Seq<char> { self@ } }
impl VxDisplay for char { open spec fn dview(&self) -> Seq<char> { seq![*self] } }
impl VxDisplay for usize { open spec fn dview(&self) -> Seq<char> { nat_view(*self as nat) } }
impl<'x, T: VxDisplay + ?Sized> VxDisplay for &'x T { open spec fn dview(&self) -> Seq<char> { (**self).dview() } }

pub trait VxPut {
    spec fn vp(&self) -> Seq<char>;
    fn vx_put<T: VxDisplay + ?Sized>(&mut self, t: &T)
        ensures final(self).vp() == old(self).vp() + t.dview();
    fn vx_put_debug<T: VxDisplay + ?Sized>(&mut self, t: &T)
        ensures final(self).vp() == old(self).vp() + dbg_view(t.dview());
    /// Any other formatting specification: nothing is known of the text.
    fn vx_put_other<T: ?Sized>(&mut self, t: &T)
        ensures old(self).vp().is_prefix_of(final(self).vp());
}
impl VxPut for String {
    open spec fn vp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_put<T: VxDisplay + ?Sized>(&mut self, t: &T) { unimplemented!() }
    #[verifier::external_body] fn vx_put_debug<T: VxDisplay + ?Sized>(&mut self, t: &T) { unimplemented!() }
    #[verifier::external_body] fn vx_put_other<T: ?Sized>(&mut self, t: &T) { unimplemented!() }
}

pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == encode_utf8(self.sv());
    fn vx_len(&self) -> (r: usize) ensures r == encode_utf8(self.sv()).len();
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == ascii_lower(self.sv());
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == uni_lower(self.sv());
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == uni_upper(self.sv());
    fn vx_trim(&self) -> (r: &str) ensures r@ == trim_view(self.sv());
    fn vx_chars(&self) -> (r: VxChars) ensures r@ == self.sv();
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn vx_bytes(&self) -> (r: VxBytes) ensures r@ == encode_utf8(self.sv());
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxChars) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: VxBytes) { unimplemented!() }
}

/// No text is longer than this (a guarantee of the language).
#[verifier::external_body]
pub proof fn axiom_str_len(s: &str) ensures encode_utf8(s@).len() <= isize::MAX { }
#[verifier::external_body]
pub fn vx_str_from_utf8_unchecked<'x>(v: &'x [u8]) -> (r: &'x str)
    requires valid_utf8(v@)
    ensures encode_utf8(r@) == v@, r@ == decode_utf8(v@)
{ unimplemented!() }
pub trait VxCharList { spec fn clv(&self) -> Seq<char>; fn vx_contains(&self, c: &char) -> (r: bool) ensures r == self.clv().contains(*c); }
impl<const N: usize> VxCharList for [char; N] { open spec fn clv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_contains(&self, c: &char) -> (r: bool) { unimplemented!() } }
pub trait VxBoundary { spec fn bdv(&self) -> Seq<char>; fn vx_is_char_boundary(&self, i: usize) -> (r: bool) ensures r == on_char(encode_utf8(self.bdv()), i as int); }
impl VxBoundary for str { open spec fn bdv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_is_char_boundary(&self, i: usize) -> (r: bool) { unimplemented!() } }

#[verifier::external_body]
pub struct VxChars { x: usize }
impl View for VxChars { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxChars {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
            Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<char>) ensures r == if n < old(self)@.len() { Some(old(self)@[n as int]) } else { None } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_any<F: Fn(char) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|c: char| f.requires((c,))
        ensures
            r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
    { unimplemented!() }
}
pub trait VxChar {
    fn vx_is_whitespace(self) -> (r: bool);
}
impl VxChar for char {
    #[verifier::external_body] fn vx_is_whitespace(self) -> (r: bool) ensures r == is_ws(self) { unimplemented!() }
}
#[verifier::external_body]
pub struct VxBytes { x: usize }
impl View for VxBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VxBytes {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u8>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
            Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}

#[verifier::external_body]
pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VxStrOf { spec fn so(&self) -> Seq<char>; fn vx_str_of_(&self) -> (r: &str) ensures r@ == self.so(); }
impl VxStrOf for str { open spec fn so(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str_of_(&self) -> (r: &str) { unimplemented!() } }
impl VxStrOf for String { open spec fn so(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str_of_(&self) -> (r: &str) { unimplemented!() } }
impl<'x, T: VxStrOf + ?Sized> VxStrOf for &'x T { open spec fn so(&self) -> Seq<char> { (**self).so() } #[verifier::external_body] fn vx_str_of_(&self) -> (r: &str) { unimplemented!() } }
pub fn vx_str_of<T: VxStrOf + ?Sized>(t: &T) -> (r: &str) ensures r@ == t.so() { t.vx_str_of_() }

pub trait VxStrAdd { fn vx_add_assign(&mut self, s: &str); }
impl VxStrAdd for String {
    #[verifier::external_body] fn vx_add_assign(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub trait VxStringMut { spec fn smv(&self) -> Seq<char>;
    fn vx_pop(&mut self) -> (r: Option<char>)
        ensures match r { None => old(self).smv().len() == 0 && final(self).smv() == old(self).smv(),
            Some(c) => old(self).smv().len() > 0 && c == old(self).smv().last() && final(self).smv() == old(self).smv().drop_last() }; }
impl VxStringMut for String { open spec fn smv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_pop(&mut self) -> (r: Option<char>) { unimplemented!() } }

#[verifier::external_body]
pub fn vx_string_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_utf8_unchecked(v: Vec<u8>) -> (r: String)
    requires valid_utf8(v@)
    ensures r@ == decode_utf8(v@)
{ unimplemented!() }

/// `Vec<u8>::extend` with a byte-string literal.
pub trait VxExtend { fn vx_extend<const N: usize>(&mut self, s: &[u8; N]); }
impl VxExtend for Vec<u8> {
    #[verifier::external_body]
    fn vx_extend<const N: usize>(&mut self, s: &[u8; N]) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
}

// ---- patterns of str methods ---------------------------------------------
pub trait VxPat { spec fn in_(&self, s: Seq<char>) -> bool; spec fn starts(&self, s: Seq<char>) -> bool; spec fn ends(&self, s: Seq<char>) -> bool; }
impl VxPat for char {
    open spec fn in_(&self, s: Seq<char>) -> bool { s.contains(*self) }
    open spec fn starts(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self }
    open spec fn ends(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self }
}
pub open spec fn seq_ends<T>(s: Seq<T>, t: Seq<T>) -> bool { s.len() >= t.len() && s.skip(s.len() - t.len()) == t }
impl<'x> VxPat for &'x str {
    open spec fn in_(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - self@.len() && #[trigger] s.subrange(i, i + self@.len()) == self@ }
    open spec fn starts(&self, s: Seq<char>) -> bool { self@.is_prefix_of(s) }
    open spec fn ends(&self, s: Seq<char>) -> bool { seq_ends(s, self@) }
}
pub trait VxStrPat {
    spec fn spv(&self) -> Seq<char>;
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.in_(self.spv());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.starts(self.spv());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.ends(self.spv());
}
impl VxStrPat for str {
    open spec fn spv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
}
/// Mentions a term, as a hint to the solver.
pub open spec fn seen(s: Seq<char>) -> bool { true }
pub open spec fn strs_contain(l: Seq<&str>, s: Seq<char>) -> bool { exists|i: int| 0 <= i < l.len() && (#[trigger] l[i])@ == s }
pub trait VxStrList {
    spec fn slv(&self) -> Seq<&str>;
    fn vx_contains<S: VxStrOf + ?Sized>(&self, s: &S) -> (r: bool) ensures r == strs_contain(self.slv(), s.so());
    fn vx_binary_search(&self, s: &&str) -> (r: Result<usize, usize>)
        ensures r is Ok ==> strs_contain(self.slv(), s@), r is Err && strs_sorted(self.slv()) ==> !strs_contain(self.slv(), s@);
}
impl<const N: usize> VxStrList for [&'static str; N] {
    open spec fn slv(&self) -> Seq<&str> { self@ }
    #[verifier::external_body] fn vx_contains<S: VxStrOf + ?Sized>(&self, s: &S) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_binary_search(&self, s: &&str) -> (r: Result<usize, usize>) { unimplemented!() }
}
/// Ordered as strings are (by code points, which is the order of the bytes in UTF-8).
pub open spec fn seq_lt(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { (a[0] as int) < (b[0] as int) }
    else { seq_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn strs_sorted(l: Seq<&str>) -> bool { forall|i: int| 0 <= i < l.len() - 1 ==> seq_lt((#[trigger] l[i])@, l[i + 1]@) }

/// The texts, with `d` between them.
pub open spec fn joined(l: Seq<Seq<char>>, d: Seq<char>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { joined(l.drop_last(), d) + d + l.last() }
}
pub open spec fn views(l: Seq<String>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i]@) }
pub trait VxJoin { fn vx_join(&self, d: &str) -> (r: String); }
impl VxJoin for [String] {
    #[verifier::external_body] fn vx_join(&self, d: &str) -> (r: String) ensures r@ == joined(views(self@), d@) { unimplemented!() }
}

// ---- copies ----------------------------------------------------------------
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for String { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VxClone for Vec<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VxClone for Option<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T> VxClone for Box<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<'x, T: ?Sized> VxClone for &'x T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }

pub trait VxToOwned { type Owned; spec fn owned_ok(&self, r: &Self::Owned) -> bool; fn vx_to_owned(&self) -> (r: Self::Owned) ensures self.owned_ok(&r); }
impl VxToOwned for str { type Owned = String; open spec fn owned_ok(&self, r: &String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
impl VxToOwned for String { type Owned = String; open spec fn owned_ok(&self, r: &String) -> bool { *r == *self } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
impl<T> VxToOwned for Vec<T> { type Owned = Vec<T>; open spec fn owned_ok(&self, r: &Vec<T>) -> bool { *r == *self } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxToOwned for [T] { type Owned = Vec<T>; open spec fn owned_ok(&self, r: &Vec<T>) -> bool { r@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() } }

pub trait VxToVec<T> { spec fn tv(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tv(); }
impl<T> VxToVec<T> for [T] { open spec fn tv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
impl<T> VxToVec<T> for Vec<T> { open spec fn tv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }

// ---- equality --------------------------------------------------------------
pub trait VxEq<R: ?Sized> { spec fn eqv(&self, other: &R) -> bool; fn vx_eq_(&self, other: &R) -> (r: bool) ensures r == self.eqv(other); }
pub fn vx_eq<L: VxEq<R> + ?Sized, R: ?Sized>(l: &L, r: &R) -> (b: bool) ensures b == l.eqv(r) { l.vx_eq_(r) }
impl VxEq<String> for String { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl VxEq<str> for str { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl VxEq<str> for String { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'x> VxEq<&'x str> for String { open spec fn eqv(&self, o: &&'x str) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &&'x str) -> (r: bool) { unimplemented!() } }
impl<'x> VxEq<String> for &'x str { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn vx_eq_(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl<'x, 'y, L: VxEq<R> + ?Sized, R: ?Sized> VxEq<&'y R> for &'x L { open spec fn eqv(&self, o: &&'y R) -> bool { (**self).eqv(&**o) } #[verifier::external_body] fn vx_eq_(&self, o: &&'y R) -> (r: bool) { unimplemented!() } }
impl<T: VxEq<T>> VxEq<Vec<T>> for Vec<T> { open spec fn eqv(&self, o: &Vec<T>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).eqv(&o@[i]) } #[verifier::external_body] fn vx_eq_(&self, o: &Vec<T>) -> (r: bool) { unimplemented!() } }
impl<T: VxEq<T>> VxEq<Box<T>> for Box<T> { open spec fn eqv(&self, o: &Box<T>) -> bool { (**self).eqv(&**o) } fn vx_eq_(&self, o: &Box<T>) -> (r: bool) { (**self).vx_eq_(&**o) } }
impl<T: VxEq<T>> VxEq<Option<T>> for Option<T> {
    open spec fn eqv(&self, o: &Option<T>) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.eqv(&b), (None, None) => true, _ => false } }
    #[verifier::external_body] fn vx_eq_(&self, o: &Option<T>) -> (r: bool) { unimplemented!() } }
impl VxEq<char> for char { open spec fn eqv(&self, o: &char) -> bool { *self == *o } fn vx_eq_(&self, o: &char) -> (r: bool) { *self == *o } }
impl VxEq<u8> for u8 { open spec fn eqv(&self, o: &u8) -> bool { *self == *o } fn vx_eq_(&self, o: &u8) -> (r: bool) { *self == *o } }
impl VxEq<usize> for usize { open spec fn eqv(&self, o: &usize) -> bool { *self == *o } fn vx_eq_(&self, o: &usize) -> (r: bool) { *self == *o } }
impl VxEq<bool> for bool { open spec fn eqv(&self, o: &bool) -> bool { *self == *o } fn vx_eq_(&self, o: &bool) -> (r: bool) { *self == *o } }

// ---- slices and iterators ----------------------------------------------------
pub trait VxAsSl<T> { spec fn asl(&self) -> Seq<T>; fn vx_as_sl(&self) -> (r: &[T]) ensures r@ == self.asl(); }
impl<T> VxAsSl<T> for Vec<T> { open spec fn asl(&self) -> Seq<T> { self@ } fn vx_as_sl(&self) -> (r: &[T]) { self.as_slice() } }
impl<T> VxAsSl<T> for [T] { open spec fn asl(&self) -> Seq<T> { self@ } fn vx_as_sl(&self) -> (r: &[T]) { self } }

pub trait VxSlice { type Out: ?Sized;
    spec fn slice_ok(&self, i: usize, j: usize) -> bool;
    spec fn slice_from_ok(&self, i: usize) -> bool;
    spec fn slice_is(&self, i: usize, j: usize, r: &Self::Out) -> bool;
    spec fn slice_from_is(&self, i: usize, r: &Self::Out) -> bool;
    fn vx_slice(&self, i: usize, j: usize) -> (r: &Self::Out) requires self.slice_ok(i, j) ensures self.slice_is(i, j, r);
    fn vx_slice_from(&self, i: usize) -> (r: &Self::Out) requires self.slice_from_ok(i) ensures self.slice_from_is(i, r);
}
impl<T> VxSlice for [T] { type Out = [T];
    open spec fn slice_ok(&self, i: usize, j: usize) -> bool { i <= j <= self@.len() }
    open spec fn slice_from_ok(&self, i: usize) -> bool { i <= self@.len() }
    open spec fn slice_is(&self, i: usize, j: usize, r: &[T]) -> bool { r@ == self@.subrange(i as int, j as int) }
    open spec fn slice_from_is(&self, i: usize, r: &[T]) -> bool { r@ == self@.skip(i as int) }
    #[verifier::external_body] fn vx_slice(&self, i: usize, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &[T]) { unimplemented!() }
}
impl<T> VxSlice for Vec<T> { type Out = [T];
    open spec fn slice_ok(&self, i: usize, j: usize) -> bool { i <= j <= self@.len() }
    open spec fn slice_from_ok(&self, i: usize) -> bool { i <= self@.len() }
    open spec fn slice_is(&self, i: usize, j: usize, r: &[T]) -> bool { r@ == self@.subrange(i as int, j as int) }
    open spec fn slice_from_is(&self, i: usize, r: &[T]) -> bool { r@ == self@.skip(i as int) }
    #[verifier::external_body] fn vx_slice(&self, i: usize, j: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &[T]) { unimplemented!() }
}
/// `&s[i..j]` of a string: byte offsets, which must fall on character boundaries.
pub open spec fn on_char(b: Seq<u8>, i: int) -> bool { 0 <= i <= b.len() && is_char_boundary(b, i) }
/// The first `i` characters are ASCII: one byte each.
pub open spec fn ascii_prefix(s: Seq<char>, i: int) -> bool { 0 <= i <= s.len() && forall|j: int| 0 <= j < i ==> (#[trigger] s[j] as u32) < 0x80 }
impl VxSlice for str { type Out = str;
    open spec fn slice_ok(&self, i: usize, j: usize) -> bool { i <= j <= encode_utf8(self@).len() && on_char(encode_utf8(self@), i as int) && on_char(encode_utf8(self@), j as int) }
    open spec fn slice_from_ok(&self, i: usize) -> bool { ascii_prefix(self@, i as int) || (i <= encode_utf8(self@).len() && on_char(encode_utf8(self@), i as int)) }
    open spec fn slice_is(&self, i: usize, j: usize, r: &str) -> bool { encode_utf8(r@) == encode_utf8(self@).subrange(i as int, j as int) }
    open spec fn slice_from_is(&self, i: usize, r: &str) -> bool { encode_utf8(r@) == encode_utf8(self@).skip(i as int) && (ascii_prefix(self@, i as int) ==> r@ == self@.skip(i as int)) }
    #[verifier::external_body] fn vx_slice(&self, i: usize, j: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &str) { unimplemented!() }
}

/// The iterators: what remains to be yielded.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SIter<'a, T> { x: &'a [T] }
impl<'a, T> View for SIter<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<'a, T> SIter<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
            Some(c) => old(self)@.len() > 0 && *c == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_clone(&self) -> (r: SIter<'a, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: SIter<'a, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(self) -> (r: SIter<'a, T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: &'a [T]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: VIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&'a T>) ensures match r { None => self@.len() == 0, Some(c) => self@.len() > 0 && *c == self@[0] } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: SIter<'a, T>) ensures r@ == if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: SIter<'a, T>) ensures r@ == if n <= self@.len() { self@.take(n as int) } else { self@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take_while<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: SIter<'a, T>)
        requires forall|t: &&'a T| #[trigger] f.requires((t,))
        ensures r@.is_prefix_of(self@),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((&&#[trigger] r@[i],), true),
            r@.len() < self@.len() ==> f.ensures((&&self@[r@.len() as int],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: SEnum<'a, T>) ensures r@ == self@, r.at() == 0 { unimplemented!() }
    /// Mapping each element through a closure to a reference.
    #[verifier::external_body]
    pub fn vx_map<U, F: Fn(&'a T) -> &'a U>(self, f: F) -> (r: SIter<'a, U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&self@[i],), &#[trigger] r@[i]),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SEnum<'a, T> { x: &'a [T] }
impl<'a, T> View for SEnum<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<'a, T> SEnum<'a, T> {
    pub uninterp spec fn at(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, &'a T)>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@.len() == 0 && final(self).at() == old(self).at(),
            Some(c) => old(self)@.len() > 0 && c.0 == old(self).at() && *c.1 == old(self)@[0] && final(self)@ == old(self)@.skip(1) && final(self).at() == old(self).at() + 1,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: SEnum<'a, T>) ensures r@ == self@, r.at() == self.at() { unimplemented!() }
}

pub trait VxIter<T> { spec fn itv(&self) -> Seq<T>; fn vx_iter<'b>(&'b self) -> (r: SIter<'b, T>) ensures r@ == self.itv(); }
impl<T> VxIter<T> for [T] { open spec fn itv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'b>(&'b self) -> (r: SIter<'b, T>) { unimplemented!() } }
impl<T> VxIter<T> for Vec<T> { open spec fn itv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'b>(&'b self) -> (r: SIter<'b, T>) { unimplemented!() } }
/// `into_iter`: by reference from a reference, by value from an owned vector.
pub trait VxIntoIter: Sized { type T; type It; spec fn iiv(self) -> Seq<Self::T>; spec fn iio(r: Self::It) -> Seq<Self::T>;
    fn vx_into_iter(self) -> (r: Self::It) ensures Self::iio(r) == self.iiv(); }
impl<'b, T> VxIntoIter for &'b [T] { type T = T; type It = SIter<'b, T>; open spec fn iiv(self) -> Seq<T> { self@ } open spec fn iio(r: SIter<'b, T>) -> Seq<T> { r@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: SIter<'b, T>) { unimplemented!() } }
impl<'b, T> VxIntoIter for &'b Vec<T> { type T = T; type It = SIter<'b, T>; open spec fn iiv(self) -> Seq<T> { self@ } open spec fn iio(r: SIter<'b, T>) -> Seq<T> { r@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: SIter<'b, T>) { unimplemented!() } }
impl<T> VxIntoIter for Vec<T> { type T = T; type It = VIter<T>; open spec fn iiv(self) -> Seq<T> { self@ } open spec fn iio(r: VIter<T>) -> Seq<T> { r@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
/// An iterator that owns what it yields.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { x: Vec<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures match r {
            None => old(self)@.len() == 0 && final(self)@.len() == 0,
            Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.skip(1),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: VIter<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: VIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: VIter<T>) ensures r@ == if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() } { unimplemented!() }
}
/// `a..b`.
pub struct VxRange { pub i: usize, pub end: usize }
#[verifier::external_body]
pub fn vx_range(x: core::ops::Range<usize>) -> (r: VxRange) ensures r.i == x.start, r.end == x.end { unimplemented!() }
impl VxRange {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures final(self).end == old(self).end, match r { None => old(self).i >= old(self).end && final(self).i == old(self).i, Some(k) => old(self).i < old(self).end && k == old(self).i && final(self).i == old(self).i + 1 }
    { if self.i < self.end { let k = self.i; self.i = self.i + 1; Some(k) } else { None } }
}
pub trait VxLen { spec fn ln(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.ln(); fn vx_is_empty(&self) -> (r: bool) ensures r == (self.ln() == 0); }
impl<T> VxLen for [T] { open spec fn ln(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }
impl<T> VxLen for Vec<T> { open spec fn ln(&self) -> nat { self@.len() } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() } }

pub trait VxGetMut<T> { spec fn gm(&self) -> Seq<T>; fn vx_first_mut(&mut self) -> (r: Option<&mut T>)
    ensures match r { None => 0 >= old(self).gm().len() && final(self).gm() == old(self).gm(),
        Some(p) => 0 < old(self).gm().len() && *p == old(self).gm()[0] && final(self).gm() == old(self).gm().update(0, *final(p)) };
    fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
    ensures match r { None => i >= old(self).gm().len() && final(self).gm() == old(self).gm(),
        Some(p) => i < old(self).gm().len() && *p == old(self).gm()[i as int] && final(self).gm() == old(self).gm().update(i as int, *final(p)) }; }
impl<T> VxGetMut<T> for Vec<T> { open spec fn gm(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_first_mut(&mut self) -> (r: Option<&mut T>) { unimplemented!() } #[verifier::external_body] fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() } }

pub fn vx_vec1<T>(t: T) -> (r: Vec<T>) ensures r@ == seq![t] { let mut v = Vec::new(); v.push(t); proof { assert(v@ =~= seq![t]); } v }
#[verifier::external_body]
pub fn vx_vec_repeat<T>(t: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == t { unimplemented!() }

pub trait VxOptMap<T>: Sized { spec fn ov(self) -> Option<T>;
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.ov() is Some ==> f.requires((self.ov()->0,))
        ensures match self.ov() { None => r == d, Some(t) => f.ensures((t,), r) };
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.ov() is Some ==> f.requires((self.ov()->0,))
        ensures match self.ov() { None => r is None, Some(t) => r is Some && f.ensures((t,), r->0) };
}
impl<T> VxOptMap<T> for Option<T> {
    open spec fn ov(self) -> Option<T> { self }
    #[verifier::external_body]
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
    #[verifier::external_body]
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() }
}

pub trait VxResMap<T, E>: Sized { spec fn rv(self) -> Result<T, E>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)
        requires self.rv() is Ok ==> f.requires((self.rv()->Ok_0,))
        ensures match self.rv() { Err(e) => r == Err::<U, E>(e), Ok(t) => r is Ok && f.ensures((t,), r->Ok_0) };
    fn vx_map_err<U, F: FnOnce(E) -> U>(self, f: F) -> (r: Result<T, U>)
        requires self.rv() is Err ==> f.requires((self.rv()->Err_0,))
        ensures match self.rv() { Ok(t) => r == Ok::<T, U>(t), Err(e) => r is Err && f.ensures((e,), r->Err_0) };
}
impl<T, E> VxResMap<T, E> for Result<T, E> {
    open spec fn rv(self) -> Result<T, E> { self }
    #[verifier::external_body]
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_map_err<U, F: FnOnce(E) -> U>(self, f: F) -> (r: Result<T, U>) { unimplemented!() }
}

// ---- descape -----------------------------------------------------------------
/// What the dependency `descape` makes of a string's escapes; none if they are malformed.
pub uninterp spec fn unescaped(s: Seq<char>) -> Option<Seq<char>>;
pub struct VxInvalidEscape { pub index: usize }
#[verifier::external_body]
pub struct VxCow { x: usize }
impl View for VxCow { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxCow {
    #[verifier::external_body] pub fn vx_to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VxUnescape { spec fn uv(&self) -> Seq<char>; fn to_unescaped(&self) -> (r: Result<VxCow, VxInvalidEscape>)
    ensures match unescaped(self.uv()) { None => r is Err, Some(t) => r is Ok && r->Ok_0@ == t }; }
impl VxUnescape for str { open spec fn uv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn to_unescaped(&self) -> (r: Result<VxCow, VxInvalidEscape>) { unimplemented!() } }

// ---- unicode_width --------------------------------------------------------------
/// How many terminal columns a text takes.
pub uninterp spec fn text_width(s: Seq<char>) -> nat;
#[verifier::external_body]
pub fn vx_text_width(s: &str) -> (r: usize) ensures r == text_width(s@), r < usize::MAX { unimplemented!() }

// ---- errors ------------------------------------------------------------------
pub struct VxFmtError { }
/// A boxed error of any kind; its contents are not specified.
pub struct VxErr { }
#[verifier::external_body]
pub fn vx_q<T, E>(r: Result<T, E>) -> (q: Result<T, VxErr>)
    ensures match r { Ok(t) => q is Ok && q->Ok_0 == t, Err(_) => q is Err }
{ unimplemented!() }

// ---- sequences, normalised -----------------------------------------------------
pub open spec fn one<T>(c: T) -> Seq<T> { seq![c] }
pub broadcast proof fn lemma_push_one<T>(a: Seq<T>, c: T) ensures #[trigger] a.push(c) == a + one(c) { assert(a.push(c) =~= a + one(c)); }
pub broadcast proof fn lemma_assoc<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>) ensures #[trigger] ((a + b) + c) == a + (b + c) { assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn lemma_empty_l<T>(a: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + a) == a { assert((Seq::<T>::empty() + a) =~= a); }
pub broadcast proof fn lemma_empty_r<T>(a: Seq<T>) ensures #[trigger] (a + Seq::<T>::empty()) == a { assert((a + Seq::<T>::empty()) =~= a); }
pub broadcast proof fn lemma_len0<T>(a: Seq<T>, b: Seq<T>) requires b.len() == 0 ensures #[trigger] (a + b) == a { assert((a + b) =~= a); }
pub broadcast proof fn lemma_skip0<T>(s: Seq<T>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast proof fn lemma_skip_skip<T>(s: Seq<T>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= s.len()
    ensures #[trigger] s.skip(i).skip(j) == s.skip(i + j)
{ assert(s.skip(i).skip(j) =~= s.skip(i + j)); }

// ---- UTF-8 --------------------------------------------------------------------
pub proof fn lemma_enc_ascii(c: char)
    requires (c as u32) < 0x80
    ensures encode_scalar(c as u32) =~= seq![c as u8]
{
    let v = c as u32;
    assert((v & 0x7f) as u8 == v as u8) by (bit_vector) requires v < 0x80;
}
pub proof fn lemma_enc_hi(c: char, i: int)
    requires (c as u32) >= 0x80, 0 <= i < encode_scalar(c as u32).len()
    ensures encode_scalar(c as u32)[i] >= 0x80
{
    let v = c as u32;
    assert(0xc0u8 | (((v >> 6) & 0x1f) as u8) >= 0x80) by (bit_vector);
    assert(0xe0u8 | (((v >> 12) & 0x0f) as u8) >= 0x80) by (bit_vector);
    assert(0xf0u8 | (((v >> 18) & 0x07) as u8) >= 0x80) by (bit_vector);
    assert(0x80u8 | ((v & 0x3f) as u8) >= 0x80) by (bit_vector);
    assert(0x80u8 | (((v >> 6) & 0x3f) as u8) >= 0x80) by (bit_vector);
    assert(0x80u8 | (((v >> 12) & 0x3f) as u8) >= 0x80) by (bit_vector);
}
/// The first byte of a text tells its first character, when that is ASCII.
pub broadcast proof fn lemma_first_byte(s: Seq<char>)
    requires s.len() > 0
    ensures encode_utf8(s).len() > 0,
        (s[0] as u32) < 0x80 ==> #[trigger] encode_utf8(s)[0] == s[0] as u8,
        (s[0] as u32) >= 0x80 ==> encode_utf8(s)[0] >= 0x80,
{
    let c = s[0];
    if (c as u32) < 0x80 { lemma_enc_ascii(c); } else { lemma_enc_hi(c, 0); }
}
/// Pieces between character boundaries are valid.
pub proof fn lemma_piece(b: Seq<u8>, i: int, j: int)
    requires valid_utf8(b), on_char(b, i), on_char(b, j), i <= j
    ensures valid_utf8(b.subrange(i, j)), valid_utf8(b.skip(i)), on_char(b.skip(i), j - i)
{
    valid_utf8_split(b, i);
    let t = b.subrange(i, b.len() as int);
    assert(t =~= b.skip(i));
    is_char_boundary_start_end_of_seq(t);
    if i < j && j < b.len() {
        is_char_boundary_iff_is_leading_byte(b, j);
        is_char_boundary_iff_is_leading_byte(t, j - i);
    }
    valid_utf8_split(t, j - i);
    assert(t.subrange(0, j - i) =~= b.subrange(i, j));
}
/// What is always at hand; the rest only when a proof does not go through without.
pub broadcast group vx_min { lemma_len0, lemma_skip0, lemma_skip_skip, lemma_first_byte }
pub broadcast group vx_seqs { lemma_push_one, lemma_assoc, lemma_empty_l, lemma_empty_r, lemma_len0, lemma_skip0, lemma_skip_skip, lemma_first_byte }
} // mod prelude
