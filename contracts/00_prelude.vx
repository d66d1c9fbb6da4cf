@@ # Shims standing in for std/memchr iterators and the few std functions
@@ # Verus has no specification for, plus the specification vocabulary.
@@ prelude
// a 64-bit target
global size_of usize == 8;
use vstd::std_specs::iter::IteratorSpec;
use vstd::utf8::*;
use vstd::string::*;
use core::ops::Range;
use core::cmp::Ordering;

// ------------------------------------------------------------ std contracts
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == ('a' <= *c && *c <= 'z');
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == ('A' <= *c && *c <= 'Z');
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c && *c <= '9');
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool)
    ensures r == (*c == ' ' || *c == '\t' || *c == '\n' || *c == '\x0C' || *c == '\r');
pub assume_specification [<char as core::convert::From<u8>>::from] (b: u8) -> (r: char) ensures r == b as char;
pub assume_specification [u8::is_ascii_alphabetic] (c: &u8) -> (r: bool)
    ensures r == ((65 <= *c && *c <= 90) || (97 <= *c && *c <= 122));
pub uninterp spec fn u_upper(c: char) -> bool;
pub uninterp spec fn u_lower(c: char) -> bool;
pub uninterp spec fn u_numeric(c: char) -> bool;
pub uninterp spec fn u_alpha(c: char) -> bool;
pub assume_specification [char::is_uppercase] (c: char) -> (r: bool) ensures r == u_upper(c);
pub assume_specification [char::is_lowercase] (c: char) -> (r: bool) ensures r == u_lower(c);
pub assume_specification [char::is_numeric] (c: char) -> (r: bool) ensures r == u_numeric(c);
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool) ensures r == u_alpha(c);
pub open spec fn fold(c: char) -> char { if 'A' <= c && c <= 'Z' { (c as u32 + 32) as char } else { c } }
pub assume_specification [char::eq_ignore_ascii_case] (c: &char, d: &char) -> (r: bool) ensures r == (fold(*c) == fold(*d));
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: Option<T>)
    ensures r == (if b { Some(t) } else { None });
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T)
    ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> cloned(v, #[trigger] final(s)@[i]);

// ------------------------------------------------------------ small shims
pub fn vx_check(b: bool) requires b {}
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unreachable!() }
/// lifetime-only transmute
#[verifier::external_body]
pub fn vx_extend_slice<'x, 'y, T>(x: &'x [T]) -> (r: &'y [T]) ensures r@ == x@ { unsafe { core::mem::transmute(x) } }
/// `transmute::<u32, char>`: defined for scalar values only
#[verifier::external_body]
pub const fn vx_u32_as_char(x: u32) -> (r: char)
    requires x <= 0xd7ff || 0xe000 <= x <= 0x10ffff
    ensures r as u32 == x
{ unsafe { core::mem::transmute::<u32, char>(x) } }
pub fn vx_slice_eq(a: &[char], b: &[char]) -> (r: bool) ensures r == (a@ == b@)
{
    if a.len() != b.len() { return false; }
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len() == b@.len(), forall|k: int| 0 <= k < i ==> a@[k] == b@[k],
        decreases a@.len() - i
    {
        if a[i] != b[i] { return false; }
        i += 1;
    }
    assert(a@ =~= b@);
    true
}
pub open spec fn ord_int(o: Ordering) -> int { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
pub assume_specification<'r, T, F: FnMut(&'r T) -> Ordering> [<[T]>::binary_search_by] (s: &'r [T], f: F) -> (r: Result<usize, usize>)
    requires
        forall|x: &'r T| f.requires((x,)),
        forall|i: int, j: int, a: Ordering, b: Ordering| 0 <= i <= j < s@.len()
            && #[trigger] f.ensures((&s@[i],), a) && #[trigger] f.ensures((&s@[j],), b)
            ==> ord_int(a) <= ord_int(b),
    ensures match r {
        Ok(i) => i < s@.len() && f.ensures((&s@[i as int],), Ordering::Equal),
        Err(i) => i <= s@.len()
            && (forall|k: int| 0 <= k < i ==> #[trigger] f.ensures((&s@[k],), Ordering::Less))
            && (forall|k: int| i <= k < s@.len() ==> #[trigger] f.ensures((&s@[k],), Ordering::Greater)),
    };

pub use crate::vxiter::*;
/// stands in for Range::len
pub fn vx_range_len(r: &Range<usize>) -> (o: usize)
    ensures o == (if r.start <= r.end { r.end - r.start } else { 0 })
{ if r.start <= r.end { r.end - r.start } else { 0 } }
/// stands in for Ordering::reverse
pub fn vx_reverse(o: Ordering) -> (r: Ordering)
    ensures r == (match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less })
{ match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }

@@ items vxiter
// ------------------------------------------------------------ iterators
pub trait VxIterator: Sized {
    type Item;
    spec fn rem(&self) -> Seq<Self::Item>;
    spec fn wf(&self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures final(self).wf(), match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(x) => old(self).rem().len() > 0 && x == old(self).rem()[0]
                && final(self).rem() == old(self).rem().subrange(1, old(self).rem().len() as int) };
}
pub trait VxDoubleEnded: VxIterator {
    fn next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf(),
        ensures final(self).wf(), match r {
            None => old(self).rem().len() == 0 && final(self).rem() == old(self).rem(),
            Some(x) => old(self).rem().len() > 0 && x == old(self).rem().last()
                && final(self).rem() == old(self).rem().drop_last() };
}
pub struct VxIter<'a, T> { pub s: &'a [T], pub lo: usize, pub hi: usize }
impl<'a, T> VxIter<'a, T> {
    pub fn len(&self) -> (r: usize) requires self.wf() ensures r == self.rem().len() { self.hi - self.lo }
}
impl<'a, T> VxIterator for VxIter<'a, T> {
    type Item = &'a T;
    open spec fn rem(&self) -> Seq<&'a T> { Seq::new((self.hi - self.lo) as nat, |i: int| &self.s@[self.lo + i]) }
    open spec fn wf(&self) -> bool { self.lo <= self.hi <= self.s@.len() }
    fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s, final(self).hi == old(self).hi,
            match r { Some(x) => old(self).lo < old(self).hi && final(self).lo == old(self).lo + 1 && *x == old(self).s@[old(self).lo as int],
                      None => old(self).lo == old(self).hi && final(self).lo == old(self).lo }
    {
        if self.lo < self.hi {
            let x = &self.s[self.lo];
            self.lo += 1;
            assert(self.rem() =~= old(self).rem().subrange(1, old(self).rem().len() as int));
            Some(x)
        } else { assert(self.rem() =~= old(self).rem()); None }
    }
}
impl<'a, T> VxDoubleEnded for VxIter<'a, T> {
    fn next_back(&mut self) -> (r: Option<&'a T>)
        ensures final(self).s == old(self).s, final(self).lo == old(self).lo,
            match r { Some(x) => old(self).lo < old(self).hi && final(self).hi == old(self).hi - 1 && *x == old(self).s@[final(self).hi as int],
                      None => old(self).lo == old(self).hi && final(self).hi == old(self).hi }
    {
        if self.lo < self.hi {
            self.hi -= 1;
            assert(self.rem() =~= old(self).rem().drop_last());
            Some(&self.s[self.hi])
        } else { assert(self.rem() =~= old(self).rem()); None }
    }
}
pub struct VxCopied<'a, T> { pub it: VxIter<'a, T> }
impl<'a, T: Copy> VxCopied<'a, T> {
    pub fn new(it: VxIter<'a, T>) -> (r: Self) ensures r.it == it { VxCopied { it } }
}
impl<'a, T: Copy> VxIterator for VxCopied<'a, T> {
    type Item = T;
    open spec fn rem(&self) -> Seq<T> { self.it.s@.subrange(self.it.lo as int, self.it.hi as int) }
    open spec fn wf(&self) -> bool { self.it.wf() }
    fn next(&mut self) -> (r: Option<T>)
        ensures final(self).wf(), final(self).rem().len() <= old(self).rem().len()
    {
        if self.it.lo < self.it.hi {
            let x = self.it.s[self.it.lo];
            self.it.lo += 1;
            assert(self.rem() =~= old(self).rem().subrange(1, old(self).rem().len() as int));
            Some(x)
        } else { assert(self.rem() =~= old(self).rem()); None }
    }
}
impl<'a, T: Copy> VxDoubleEnded for VxCopied<'a, T> {
    fn next_back(&mut self) -> (r: Option<T>)
        ensures final(self).wf(), final(self).rem().len() <= old(self).rem().len()
    {
        if self.it.lo < self.it.hi {
            self.it.hi -= 1;
            assert(self.rem() =~= old(self).rem().drop_last());
            Some(self.it.s[self.it.hi])
        } else { assert(self.rem() =~= old(self).rem()); None }
    }
}
pub struct VxEnumerate<I> { pub it: I, pub n: usize }
impl<I: VxIterator> VxEnumerate<I> {
    pub fn new(it: I) -> (r: Self) ensures r.it == it, r.n == 0 { VxEnumerate { it, n: 0 } }
}
impl<I: VxIterator> VxIterator for VxEnumerate<I> {
    type Item = (usize, I::Item);
    open spec fn rem(&self) -> Seq<(usize, I::Item)> { Seq::new(self.it.rem().len(), |i: int| ((self.n + i) as usize, self.it.rem()[i])) }
    open spec fn wf(&self) -> bool { self.it.wf() && self.n + self.it.rem().len() <= usize::MAX }
    // (naming wf and rem makes Verus define them before this function)
    fn next(&mut self) -> (r: Option<(usize, I::Item)>)
        ensures final(self).wf(), final(self).rem().len() <= old(self).rem().len()
    {
        let x = match self.it.next() { Some(x) => x, None => { assert(self.rem() =~= old(self).rem()); return None } };
        let n = self.n;
        self.n += 1;
        assert(self.rem() =~= old(self).rem().subrange(1, old(self).rem().len() as int));
        Some((n, x))
    }
}
pub struct VxRev<I> { pub it: I }
impl<I: VxDoubleEnded> VxRev<I> {
    pub fn new(it: I) -> (r: Self) ensures r.it == it { VxRev { it } }
}
impl<I: VxDoubleEnded> VxIterator for VxRev<I> {
    type Item = I::Item;
    open spec fn rem(&self) -> Seq<I::Item> { self.it.rem().reverse() }
    open spec fn wf(&self) -> bool { self.it.wf() }
    fn next(&mut self) -> (r: Option<I::Item>)
        ensures final(self).wf(), final(self).rem().len() <= old(self).rem().len()
    {
        let r = self.it.next_back();
        proof {
            if r.is_some() { assert(self.rem() =~= old(self).rem().subrange(1, old(self).rem().len() as int)); }
        }
        r
    }
}
pub trait VxSliceExt<T> { fn vx_iter(&self) -> (r: VxIter<'_, T>); }
impl<T> VxSliceExt<T> for [T] {
    fn vx_iter(&self) -> (r: VxIter<'_, T>) ensures r.s@ == self@, r.lo == 0, r.hi == self@.len(), r.wf() { VxIter { s: self, lo: 0, hi: self.len() } }
}
pub trait VxInto { type It: VxIterator; fn vx_into_iter(self) -> (r: Self::It); }
impl<'a, T> VxInto for &'a [T] {
    type It = VxIter<'a, T>;
    fn vx_into_iter(self) -> (r: VxIter<'a, T>) ensures r.s@ == self@, r.lo == 0, r.hi == self@.len(), r.wf() { VxIter { s: self, lo: 0, hi: self.len() } }
}
impl<I: VxIterator> VxInto for I { type It = I; fn vx_into_iter(self) -> (r: I) ensures r == self { self } }


@@ plain-items memchr
/// stands in for the memchr crate: its contracts are assumed of the crate, and
/// hold of these bodies
pub fn memchr(n1: u8, haystack: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && haystack@[i as int] == n1 && forall|k: int| 0 <= k < i ==> haystack@[k] != n1,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 }
{ memchr2(n1, n1, haystack) }
pub fn memchr2(n1: u8, n2: u8, haystack: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && (haystack@[i as int] == n1 || haystack@[i as int] == n2)
            && forall|k: int| 0 <= k < i ==> haystack@[k] != n1 && haystack@[k] != n2,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2 }
{
    let mut i: usize = 0;
    while i < haystack.len()
        invariant i <= haystack@.len(), forall|k: int| 0 <= k < i ==> haystack@[k] != n1 && haystack@[k] != n2,
        decreases haystack@.len() - i
    {
        if haystack[i] == n1 || haystack[i] == n2 { return Some(i); }
        i += 1;
    }
    None
}
pub fn memrchr(n1: u8, haystack: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && haystack@[i as int] == n1 && forall|k: int| i < k < haystack@.len() ==> haystack@[k] != n1,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 }
{ memrchr2(n1, n1, haystack) }
pub fn memrchr2(n1: u8, n2: u8, haystack: &[u8]) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && (haystack@[i as int] == n1 || haystack@[i as int] == n2)
            && forall|k: int| i < k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2 }
{
    let mut i: usize = haystack.len();
    while i > 0
        invariant i <= haystack@.len(), forall|k: int| i <= k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2,
        decreases i
    {
        i -= 1;
        if haystack[i] == n1 || haystack[i] == n2 { return Some(i); }
    }
    None
}
pub struct Memchr<'h> { pub n: u8, pub h: &'h [u8], pub pos: usize }
impl<'h> Memchr<'h> {
    pub fn new(n: u8, h: &'h [u8]) -> (r: Self) ensures r.n == n, r.h == h, r.pos == 0 { Memchr { n, h, pos: 0 } }
    pub fn next(&mut self) -> (r: Option<usize>)
        requires old(self).pos <= old(self).h@.len(),
        ensures final(self).n == old(self).n, final(self).h == old(self).h, final(self).pos <= final(self).h@.len(),
            match r {
                Some(i) => old(self).pos <= i < old(self).h@.len() && old(self).h@[i as int] == old(self).n
                    && final(self).pos == i + 1
                    && forall|k: int| old(self).pos <= k < i ==> old(self).h@[k] != old(self).n,
                None => forall|k: int| old(self).pos <= k < old(self).h@.len() ==> old(self).h@[k] != old(self).n,
            }
    {
        while self.pos < self.h.len()
            invariant
                old(self).pos <= self.pos <= self.h@.len(), self.n == old(self).n, self.h == old(self).h,
                forall|k: int| old(self).pos <= k < self.pos ==> self.h@[k] != self.n,
            decreases self.h@.len() - self.pos
        {
            let i = self.pos;
            self.pos = i + 1;
            if self.h[i] == self.n { return Some(i); }
        }
        None
    }
}
pub struct Memchr2<'h> { pub n1: u8, pub n2: u8, pub h: &'h [u8], pub pos: usize }
impl<'h> Memchr2<'h> {
    pub fn new(n1: u8, n2: u8, h: &'h [u8]) -> (r: Self) ensures r.n1 == n1, r.n2 == n2, r.h == h, r.pos == 0 { Memchr2 { n1, n2, h, pos: 0 } }
    pub fn next(&mut self) -> (r: Option<usize>)
        requires old(self).pos <= old(self).h@.len(),
        ensures final(self).n1 == old(self).n1, final(self).n2 == old(self).n2, final(self).h == old(self).h, final(self).pos <= final(self).h@.len(),
            match r {
                Some(i) => old(self).pos <= i < old(self).h@.len()
                    && (old(self).h@[i as int] == old(self).n1 || old(self).h@[i as int] == old(self).n2)
                    && final(self).pos == i + 1
                    && forall|k: int| old(self).pos <= k < i ==> old(self).h@[k] != old(self).n1 && old(self).h@[k] != old(self).n2,
                None => forall|k: int| old(self).pos <= k < old(self).h@.len() ==> old(self).h@[k] != old(self).n1 && old(self).h@[k] != old(self).n2,
            }
    {
        while self.pos < self.h.len()
            invariant
                old(self).pos <= self.pos <= self.h@.len(), self.n1 == old(self).n1, self.n2 == old(self).n2, self.h == old(self).h,
                forall|k: int| old(self).pos <= k < self.pos ==> self.h@[k] != self.n1 && self.h@[k] != self.n2,
            decreases self.h@.len() - self.pos
        {
            let i = self.pos;
            self.pos = i + 1;
            if self.h[i] == self.n1 || self.h[i] == self.n2 { return Some(i); }
        }
        None
    }
}

@@ inherent-iter candidate::CandidateMatches
@@ inherent-iter candidate::UnicodeMatches
@@ inherent-iter metrics::fzf::parser::Words
@@ inherent-iter metrics::fzf::parser::Patterns
@@ drop metrics::fzf::slab::Cols
@@ drop metrics::fzf::slab::Rows
