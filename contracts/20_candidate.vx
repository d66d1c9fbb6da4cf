@@ prelude
/// the chars of an ASCII byte string
pub open spec fn asc(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i] as char) }
/// no char of cs[lo..hi] matches `p`
pub open spec fn none_eq(e: VxCharEq, p: char, cs: Seq<char>, lo: int, hi: int) -> bool {
    forall|k: int| lo <= k < hi ==> !e.eqv(p, #[trigger] cs[k])
}
/// `r` is the first offset at or after `lo` whose char matches `p`
pub open spec fn first_eq(e: VxCharEq, p: char, cs: Seq<char>, lo: int, r: Option<usize>) -> bool {
    match r {
        Some(i) => lo <= i < cs.len() && e.eqv(p, cs[i as int]) && none_eq(e, p, cs, lo, i as int),
        None => none_eq(e, p, cs, lo, cs.len() as int),
    }
}
/// `r` is the last offset before `hi` whose char matches `p`
pub open spec fn last_eq(e: VxCharEq, p: char, cs: Seq<char>, hi: int, r: Option<usize>) -> bool {
    match r {
        Some(i) => i < hi && e.eqv(p, cs[i as int]) && none_eq(e, p, cs, i + 1, hi),
        None => none_eq(e, p, cs, 0, hi),
    }
}
/// byte offset of the k-th char
pub open spec fn boff(cs: Seq<char>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { boff(cs, k - 1) + cs[k - 1].len_utf8() }
}
pub proof fn boff_mono(cs: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= cs.len()
    ensures boff(cs, a) <= boff(cs, b), b - a <= boff(cs, b) - boff(cs, a) <= 4 * (b - a)
    decreases b
{
    if a < b { boff_mono(cs, a, b - 1); }
}
pub proof fn boff_asc(s: Seq<u8>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < s.len() ==> s[i] < 128
    ensures boff(asc(s), k) == k
    decreases k
{
    if k > 0 { boff_asc(s, k - 1); assert((asc(s)[k - 1] as u32) < 128); }
}
pub proof fn boff_prefix(cs: Seq<char>, n: int, k: int)
    requires 0 <= k <= n <= cs.len()
    ensures boff(cs.subrange(0, n), k) == boff(cs, k)
    decreases k
{
    if k > 0 { boff_prefix(cs, n, k - 1); }
}
/// the ASCII fast paths agree with the char comparison
pub proof fn ascii_eqv(e: VxCharEq, p: char, b: u8)
    requires b < 128
    ensures
        (p as u32) >= 128 ==> !e.eqv(p, b as char),
        (p as u32) < 128 && e.is_cs() ==> (e.eqv(p, b as char) <==> p as u8 == b),
        (p as u32) < 128 && !e.is_cs() ==> {
            let n = p as u8;
            let m = if 65 <= n <= 90 { (n + 32) as u8 } else if 97 <= n <= 122 { (n - 32) as u8 } else { n };
            e.eqv(p, b as char) <==> (b == n || b == m)
        },
{
    nz_ascii(b as char);
    assert(e.eqv(p, b as char) == (if e.is_cs() { p == b as char } else { fold(p) == fold(b as char) }));
    let n = p as u8;
    if (p as u32) < 128 { assert(n as char == p); assert(n as u32 == p as u32); }
    assert((b as char) as u32 == b as u32);
}
pub const MAXLEN: usize = 0x1000_0000;
pub proof fn enc_len(c: char)
    ensures encode_scalar(c as u32).len() == c.len_utf8()
{
    let v = c as u32;
    assert(has_width_1_encoding(v) || has_width_2_encoding(v) || has_width_3_encoding(v) || has_width_4_encoding(v));
}
/// byte offsets of chars are those of the UTF-8 text
pub proof fn boff_is_utf8(cs: Seq<char>, k: int)
    requires 0 <= k <= cs.len()
    ensures boff(cs, k) == encode_utf8(cs.subrange(0, k)).len()
    decreases k
{
    if k == 0 { cpos_ends(cs); } else { boff_is_utf8(cs, k - 1); cpos_step(cs, k - 1); enc_len(cs[k - 1]); }
}

@@ items candidate
impl<'a> Candidate<'a> {
    pub open spec fn v(self) -> Seq<char> {
        match self { Candidate::Ascii(s) => asc(s@), Candidate::Unicode(s) => s@ }
    }
    pub open spec fn wf(self) -> bool {
        &&& self.v().len() <= MAXLEN
        &&& match self { Candidate::Ascii(s) => forall|i: int| 0 <= i < s@.len() ==> #[trigger] s@[i] < 128, _ => true }
    }
}
impl<'a> CandidateMatches<'a> {
    pub open spec fn pos(self) -> int {
        self.start_offset + match self.iter {
            CandidateMatchesIter::Memchr(m) => m.pos as int,
            CandidateMatchesIter::Memchr2(m) => m.pos as int,
            CandidateMatchesIter::Unicode(m) => m.offset as int,
        }
    }
    pub open spec fn rest(self) -> Seq<char> {
        match self.iter {
            CandidateMatchesIter::Memchr(m) => asc(m.h@).subrange(m.pos as int, m.h@.len() as int),
            CandidateMatchesIter::Memchr2(m) => asc(m.h@).subrange(m.pos as int, m.h@.len() as int),
            CandidateMatchesIter::Unicode(m) => m.haystack@,
        }
    }
    pub open spec fn hit(self, c: char) -> bool {
        match self.iter {
            CandidateMatchesIter::Memchr(m) => c == m.n as char,
            CandidateMatchesIter::Memchr2(m) => c == m.n1 as char || c == m.n2 as char,
            CandidateMatchesIter::Unicode(m) => m.char_eq.eqv(m.needle, c),
        }
    }
    pub open spec fn wf(self) -> bool {
        &&& self.pos() + self.rest().len() <= usize::MAX
        &&& match self.iter {
            CandidateMatchesIter::Memchr(m) => m.pos <= m.h@.len(),
            CandidateMatchesIter::Memchr2(m) => m.pos <= m.h@.len(),
            CandidateMatchesIter::Unicode(m) => true,
        }
    }
    /// what is left to yield are the offsets at or after `from` in `cs`
    /// whose char matches `p`
    pub open spec fn inv(self, cs: Seq<char>, p: char, e: VxCharEq, from: int) -> bool {
        &&& self.wf()
        &&& 0 <= from <= cs.len()
        &&& (self.rest().len() == 0 && none_eq(e, p, cs, from, cs.len() as int))
            || (self.pos() == from && self.rest() == cs.subrange(from, cs.len() as int)
                && forall|k: int| from <= k < cs.len() ==> self.hit(#[trigger] cs[k]) == e.eqv(p, cs[k]))
    }
}

@@ fn candidate::Candidate::char
@contract
    requires char_idx < self.v().len()
    ensures vx_r == self.v()[char_idx as int]

@@ fn candidate::Candidate::chars
@contract
    ensures vx_r.wf(), vx_r.rem() == self.v()
@proof start
    assert(self.v().subrange(0, self.v().len() as int) =~= self.v());

@@ fn candidate::Candidate::chars_from
@contract
    requires char_offset <= self.v().len()
    ensures vx_r.wf(), vx_r.rem() =~= self.v().subrange(char_offset as int, self.v().len() as int)

@@ fn candidate::Candidate::char_len
@contract
    ensures vx_r == self.v().len()

@@ fn candidate::Candidate::find_first_from
@contract
    requires self.wf(), char_offset <= self.v().len(), is_case_sensitive == char_eq.is_cs()
    ensures first_eq(char_eq, ch, self.v(), char_offset as int, vx_r)
@proof start
    proof {
        assert forall|i: int| 0 <= i < self.v().len() && self is Ascii && (ch as u32) >= 128 implies !char_eq.eqv(ch, #[trigger] self.v()[i]) by {
            if let Candidate::Ascii(s) = self { assert(s@[i] < 128); ascii_eqv(char_eq, ch, s@[i]); }
        }
        let off = char_offset as int;
        let t = self.v().subrange(off, self.v().len() as int);
        assert(forall|i: int| off <= i < self.v().len() ==> #[trigger] self.v()[i] == t[i - off]);
        if let Candidate::Ascii(s) = self { assert(asc(s@.subrange(off, s@.len() as int)) =~= t); }
    }

@@ fn candidate::Candidate::find_last
@contract
    requires self.wf(), is_case_sensitive == char_eq.is_cs()
    ensures last_eq(char_eq, ch, self.v(), self.v().len() as int, vx_r)
@proof start
    proof {
        assert forall|i: int| 0 <= i < self.v().len() && self is Ascii && (ch as u32) >= 128 implies !char_eq.eqv(ch, #[trigger] self.v()[i]) by {
            if let Candidate::Ascii(s) = self { assert(s@[i] < 128); ascii_eqv(char_eq, ch, s@[i]); }
        }
    }

@@ fn candidate::Candidate::find_last_from
@contract
    requires self.wf(), end_offset <= self.v().len(), is_case_sensitive == char_eq.is_cs()
    ensures last_eq(char_eq, ch, self.v(), end_offset as int, vx_r)
@proof start
    proof {
        assert forall|i: int| 0 <= i < self.v().len() && self is Ascii && (ch as u32) >= 128 implies !char_eq.eqv(ch, #[trigger] self.v()[i]) by {
            if let Candidate::Ascii(s) = self { assert(s@[i] < 128); ascii_eqv(char_eq, ch, s@[i]); }
        }
        let t = self.v().subrange(0, end_offset as int);
        assert(forall|i: int| 0 <= i < end_offset ==> #[trigger] self.v()[i] == t[i]);
        if let Candidate::Ascii(s) = self { assert(asc(s@.subrange(0, end_offset as int)) =~= t); }
    }

@@ fn candidate::Candidate::leading_spaces
@contract
    ensures vx_r <= self.v().len(),
        forall|i: int| 0 <= i < vx_r ==> #[trigger] self.v()[i] == ' ',
        vx_r < self.v().len() ==> self.v()[vx_r as int] != ' ',
@loop 0
    invariant_except_break vx_it0.lo == vx_acc1,
    invariant
        vx_it0.s@ == slice@, vx_it0.hi == slice@.len(), vx_it0.wf(),
        self.v() == asc(slice@),
        forall|i: int| 0 <= i < vx_acc1 ==> #[trigger] self.v()[i] == ' ',
    ensures vx_acc1 <= self.v().len(), vx_acc1 < self.v().len() ==> self.v()[vx_acc1 as int] != ' ',
    decreases vx_it0.hi - vx_it0.lo
@loop 1
    invariant_except_break vx_it2.lo == vx_acc3,
    invariant
        vx_it2.s@ == slice@, vx_it2.hi == slice@.len(), vx_it2.wf(),
        self.v() == slice@,
        forall|i: int| 0 <= i < vx_acc3 ==> #[trigger] self.v()[i] == ' ',
    ensures vx_acc3 <= self.v().len(), vx_acc3 < self.v().len() ==> self.v()[vx_acc3 as int] != ' ',
    decreases vx_it2.hi - vx_it2.lo

@@ fn candidate::Candidate::trailing_spaces
@contract
    ensures vx_r <= self.v().len(),
        forall|i: int| self.v().len() - vx_r <= i < self.v().len() ==> #[trigger] self.v()[i] == ' ',
        vx_r < self.v().len() ==> self.v()[self.v().len() - vx_r - 1] != ' ',
@loop 0
    invariant_except_break vx_it0.hi + vx_acc1 == slice@.len(),
        forall|i: int| vx_it0.hi <= i < self.v().len() ==> #[trigger] self.v()[i] == ' ',
    invariant
        vx_it0.s@ == slice@, vx_it0.lo == 0, vx_it0.wf(), slice@.len() <= usize::MAX,
        self.v() == asc(slice@),
    ensures vx_acc1 <= self.v().len(), vx_acc1 < self.v().len() ==> self.v()[self.v().len() - vx_acc1 - 1] != ' ',
        forall|i: int| self.v().len() - vx_acc1 <= i < self.v().len() ==> #[trigger] self.v()[i] == ' ',
    decreases vx_it0.hi - vx_it0.lo
@loop 1
    invariant_except_break vx_it2.hi + vx_acc3 == slice@.len(),
        forall|i: int| vx_it2.hi <= i < self.v().len() ==> #[trigger] self.v()[i] == ' ',
    invariant
        vx_it2.s@ == slice@, vx_it2.lo == 0, vx_it2.wf(), slice@.len() <= usize::MAX,
        self.v() == slice@,
    ensures vx_acc3 <= self.v().len(), vx_acc3 < self.v().len() ==> self.v()[self.v().len() - vx_acc3 - 1] != ' ',
        forall|i: int| self.v().len() - vx_acc3 <= i < self.v().len() ==> #[trigger] self.v()[i] == ' ',
    decreases vx_it2.hi - vx_it2.lo

@@ fn candidate::Candidate::matches
@contract
    requires self.wf(), is_case_sensitive == char_eq.is_cs()
    ensures vx_r.inv(self.v(), ch, char_eq, 0)
@proof start
    assert(self.v().subrange(0, self.v().len() as int) =~= self.v());

@@ fn candidate::Candidate::matches_from
@contract
    requires self.wf(), char_offset <= self.v().len(), is_case_sensitive == char_eq.is_cs()
    ensures vx_r.inv(self.v(), ch, char_eq, char_offset as int)
@proof start
    proof {
        let off = char_offset as int;
        let t = self.v().subrange(off, self.v().len() as int);
        assert(forall|i: int| off <= i < self.v().len() ==> #[trigger] self.v()[i] == t[i - off]);
        if let Candidate::Ascii(s) = self { assert(asc(s@.subrange(off, s@.len() as int)) =~= t); }
        assert(t.subrange(0, t.len() as int) =~= t);
    }

@@ fn candidate::Candidate::slice
@contract
    requires char_range.start <= char_range.end <= self.v().len()
    ensures vx_r.v() =~= self.v().subrange(char_range.start as int, char_range.end as int), self.wf() ==> vx_r.wf()

@@ fn candidate::Candidate::to_byte_offset
@contract
    requires self.wf(), char_offset <= self.v().len()
    ensures vx_r == boff(self.v(), char_offset as int)
@proof start
    proof {
        if let Candidate::Ascii(s) = self { boff_asc(s@, char_offset as int); }
        boff_mono(self.v(), 0, char_offset as int);
    }
@loop 0
    invariant
        self.v() == slice@, char_offset <= slice@.len(), char_offset <= MAXLEN,
        vx_it0.s@ == slice@.subrange(0, char_offset as int), vx_it0.hi == char_offset, vx_it0.wf(),
        vx_acc2 == boff(slice@, vx_it0.lo as int), vx_acc2 <= 4 * vx_it0.lo,
    ensures vx_acc2 == boff(slice@, char_offset as int),
    decreases vx_it0.hi - vx_it0.lo

@@ fn candidate::Candidate::to_byte_range
@contract
    requires self.wf(), char_range.start <= char_range.end <= self.v().len()
    ensures vx_r.start == boff(self.v(), char_range.start as int), vx_r.end == boff(self.v(), char_range.end as int)
@proof start
    proof {
        if let Candidate::Ascii(s) = self { boff_asc(s@, char_range.start as int); boff_asc(s@, char_range.end as int); }
        boff_mono(self.v(), 0, char_range.start as int);
        boff_mono(self.v(), 0, char_range.end as int);
    }
@loop 0
    invariant
        self.v() == slice@, char_range.start <= char_range.end <= slice@.len(), slice@.len() <= MAXLEN,
        chars.s@ == slice@.subrange(0, char_range.end as int), chars.hi == char_range.end, chars.wf(),
        chars.lo + vx_n2 == char_range.start,
        vx_acc3 == boff(slice@, chars.lo as int), vx_acc3 <= 4 * chars.lo,
    ensures vx_acc3 == boff(slice@, char_range.start as int), chars.lo == char_range.start,
    decreases vx_n2
@loop 1
    invariant
        self.v() == slice@, char_range.start <= char_range.end <= slice@.len(), slice@.len() <= MAXLEN,
        chars.s@ == slice@.subrange(0, char_range.end as int), chars.hi == char_range.end, chars.wf(),
        start <= 4 * char_range.start, vx_acc6 <= 4 * chars.lo,
        start + vx_acc6 == boff(slice@, chars.lo as int),
    ensures start + vx_acc6 == boff(slice@, char_range.end as int), vx_acc6 <= 4 * MAXLEN,
    decreases chars.hi - chars.lo

@@ fn candidate::find_first_ascii
@contract
    requires needle < 128, forall|i: int| 0 <= i < haystack@.len() ==> #[trigger] haystack@[i] < 128
    ensures forall|e: VxCharEq| #[trigger] e.is_cs() == is_case_sensitive ==> first_eq(e, needle as char, asc(haystack@), 0, vx_r)
@proof start
    proof {
        assert forall|e: VxCharEq, i: int| 0 <= i < haystack@.len() && e.is_cs() == is_case_sensitive implies (#[trigger] e.eqv(needle as char, asc(haystack@)[i])) ==
            (haystack@[i] == needle || !is_case_sensitive && 65 <= needle <= 90 && haystack@[i] == needle + 32 || !is_case_sensitive && 97 <= needle <= 122 && haystack@[i] == needle - 32) by {
            ascii_eqv(e, needle as char, haystack@[i]);
        }
    }

@@ fn candidate::find_last_ascii
@contract
    requires needle < 128, forall|i: int| 0 <= i < haystack@.len() ==> #[trigger] haystack@[i] < 128
    ensures forall|e: VxCharEq| #[trigger] e.is_cs() == is_case_sensitive ==> last_eq(e, needle as char, asc(haystack@), haystack@.len() as int, vx_r)
@proof start
    proof {
        assert forall|e: VxCharEq, i: int| 0 <= i < haystack@.len() && e.is_cs() == is_case_sensitive implies (#[trigger] e.eqv(needle as char, asc(haystack@)[i])) ==
            (haystack@[i] == needle || !is_case_sensitive && 65 <= needle <= 90 && haystack@[i] == needle + 32 || !is_case_sensitive && 97 <= needle <= 122 && haystack@[i] == needle - 32) by {
            ascii_eqv(e, needle as char, haystack@[i]);
        }
    }

@@ fn candidate::find_first_unicode
@contract
    ensures first_eq(char_eq, needle, haystack@, 0, vx_r)
@loop 0
    invariant_except_break vx_acc2 is None, none_eq(char_eq, needle, haystack@, 0, vx_it0.lo as int),
    invariant
        vx_it0.s@ == haystack@, vx_it0.hi == haystack@.len(), vx_it0.wf(), vx_n1 == vx_it0.lo,
    ensures first_eq(char_eq, needle, haystack@, 0, vx_acc2),
    decreases vx_it0.hi - vx_it0.lo

@@ fn candidate::find_last_unicode
@contract
    ensures last_eq(char_eq, needle, haystack@, haystack@.len() as int, vx_r)
@loop 0
    invariant_except_break vx_acc2 is None, none_eq(char_eq, needle, haystack@, vx_it0.hi as int, haystack@.len() as int),
    invariant
        vx_it0.s@ == haystack@, vx_it0.lo == 0, vx_it0.wf(),
    ensures last_eq(char_eq, needle, haystack@, haystack@.len() as int, vx_acc2),
    decreases vx_it0.hi - vx_it0.lo

@@ impl-items candidate::Chars as Iterator
open spec fn rem(&self) -> Seq<char> {
    match self {
        Chars::Ascii(it) => asc(it.s@.subrange(it.lo as int, it.hi as int)),
        Chars::Unicode(it) => it.s@.subrange(it.lo as int, it.hi as int),
    }
}
open spec fn wf(&self) -> bool { match self { Chars::Ascii(it) => it.wf(), Chars::Unicode(it) => it.wf() } }

@@ fn candidate::<Chars as Iterator>::next
@proof end
    assert(vx_ret is Some ==> self.rem() =~= old(self).rem().subrange(1, old(self).rem().len() as int));
    assert(vx_ret is None ==> self.rem() =~= old(self).rem());

@@ fn candidate::<Chars as DoubleEndedIterator>::next_back
@proof end
    assert(vx_ret is Some ==> self.rem() =~= old(self).rem().drop_last());
    assert(vx_ret is None ==> self.rem() =~= old(self).rem());

@@ fn candidate::CandidateMatches::from_ascii
@contract
    requires forall|i: int| 0 <= i < haystack@.len() ==> #[trigger] haystack@[i] < 128,
        start_offset + haystack@.len() <= MAXLEN
    ensures vx_r.wf(),
        (needle as u32) < 128 ==> vx_r.pos() == start_offset && vx_r.rest() =~= asc(haystack@)
            && forall|e: VxCharEq, i: int| e.is_cs() == is_case_sensitive && 0 <= i < haystack@.len() ==> vx_r.hit(asc(haystack@)[i]) == #[trigger] e.eqv(needle, asc(haystack@)[i]),
        (needle as u32) >= 128 ==> vx_r.rest().len() == 0
            && forall|e: VxCharEq, i: int| 0 <= i < haystack@.len() ==> !#[trigger] e.eqv(needle, asc(haystack@)[i]),
@proof start
    proof {
        let n0 = needle as u8;
        assert forall|e: VxCharEq, i: int| 0 <= i < haystack@.len() && (needle as u32) < 128 && e.is_cs() == is_case_sensitive implies (#[trigger] e.eqv(needle, asc(haystack@)[i])) ==
            (haystack@[i] == n0 || !is_case_sensitive && 65 <= n0 <= 90 && haystack@[i] == n0 + 32 || !is_case_sensitive && 97 <= n0 <= 122 && haystack@[i] == n0 - 32) by {
            ascii_eqv(e, needle, haystack@[i]);
        }
        assert forall|e: VxCharEq, i: int| 0 <= i < haystack@.len() && (needle as u32) >= 128 implies !(#[trigger] e.eqv(needle, asc(haystack@)[i])) by {
            ascii_eqv(e, needle, haystack@[i]);
        }
    }

@@ fn candidate::CandidateMatches::from_unicode
@contract
    requires start_offset + haystack@.len() <= MAXLEN
    ensures vx_r.wf(), vx_r.pos() == start_offset, vx_r.rest() == haystack@,
        forall|c: char| #[trigger] vx_r.hit(c) == char_eq.eqv(needle, c)

@@ fn candidate::<CandidateMatches as Iterator>::next
@attr verifier::rlimit(60)
@contract
    requires old(self).wf()
    ensures final(self).wf(),
        forall|cs: Seq<char>, p: char, e: VxCharEq, from: int| #[trigger] old(self).inv(cs, p, e, from) ==>
            first_eq(e, p, cs, from, vx_r) && (vx_r is Some ==> final(self).inv(cs, p, e, vx_r->0 + 1))
@proof end
    proof {
        let rest = old(self).rest();
        assert(match self.iter {
            CandidateMatchesIter::Memchr(m) => forall|k: int| 0 <= k < m.h@.len() ==> (#[trigger] m.h@[k] == m.n <==> asc(m.h@)[k] == m.n as char),
            CandidateMatchesIter::Memchr2(m) => forall|k: int| 0 <= k < m.h@.len() ==> (#[trigger] m.h@[k] == m.n1 || m.h@[k] == m.n2 <==> asc(m.h@)[k] == m.n1 as char || asc(m.h@)[k] == m.n2 as char),
            _ => true });
        if let Some(i) = vx_ret {
            let j = i - old(self).pos();
            assert(0 <= j < rest.len() && old(self).hit(rest[j]));
            assert(forall|k: int| 0 <= k < j ==> !old(self).hit(#[trigger] rest[k]));
            assert(self.rest() =~= rest.subrange(j + 1, rest.len() as int));
            assert(self.pos() == i + 1);
            assert(forall|c: char| self.hit(c) == old(self).hit(c));
        } else {
            assert(forall|k: int| 0 <= k < rest.len() ==> !old(self).hit(#[trigger] rest[k]));
        }
        assert forall|cs: Seq<char>, p: char, e: VxCharEq, from: int| #[trigger] old(self).inv(cs, p, e, from) implies
            first_eq(e, p, cs, from, vx_ret) && (vx_ret is Some ==> self.inv(cs, p, e, vx_ret->0 + 1)) by {
            if old(self).rest().len() > 0 {
                assert(forall|k: int| from <= k < cs.len() ==> #[trigger] cs[k] == rest[k - from]);
                if let Some(i) = vx_ret {
                    assert(self.rest() =~= cs.subrange(i + 1, cs.len() as int));
                    assert(forall|k: int| from <= k < i ==> rest[k - from] == #[trigger] cs[k]);
                }
            }
        }
    }

@@ fn candidate::UnicodeMatches::new
@contract
    ensures vx_r.needle == ch, vx_r.haystack == haystack, vx_r.char_eq == char_eq, vx_r.offset == 0

@@ fn candidate::<UnicodeMatches as Iterator>::next
@contract
    requires old(self).offset + old(self).haystack@.len() <= usize::MAX
    ensures final(self).needle == old(self).needle, final(self).char_eq == old(self).char_eq,
        match vx_r {
            None => none_eq(old(self).char_eq, old(self).needle, old(self).haystack@, 0, old(self).haystack@.len() as int)
                && *final(self) == *old(self),
            Some(r) => {
                let i = r - old(self).offset;
                &&& 0 <= i < old(self).haystack@.len()
                &&& old(self).char_eq.eqv(old(self).needle, old(self).haystack@[i])
                &&& none_eq(old(self).char_eq, old(self).needle, old(self).haystack@, 0, i)
                &&& final(self).offset == r + 1
                &&& final(self).haystack@ == old(self).haystack@.subrange(i + 1, old(self).haystack@.len() as int)
            },
        }
@loop 0
    invariant_except_break vx_acc2 is None, none_eq(self.char_eq, self.needle, self.haystack@, 0, vx_it0.lo as int),
    invariant
        vx_it0.s@ == self.haystack@, vx_it0.hi == self.haystack@.len(), vx_it0.wf(), vx_n1 == vx_it0.lo,
        *self == *old(self),
    ensures first_eq(self.char_eq, self.needle, self.haystack@, 0, vx_acc2),
    decreases vx_it0.hi - vx_it0.lo
