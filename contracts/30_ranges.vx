@@ prelude
/// x is covered by one of rs[from..]
pub open spec fn covers(rs: Seq<Range<usize>>, from: int, x: int) -> bool {
    exists|i: int| from <= i < rs.len() && (#[trigger] rs[i]).start <= x < rs[i].end
}
/// rs[from..] is sorted, has no empty range, and any two of them are apart
pub open spec fn rwf(rs: Seq<Range<usize>>, from: int) -> bool {
    &&& forall|i: int| from <= i < rs.len() ==> (#[trigger] rs[i]).start < rs[i].end
    &&& forall|i: int, j: int| from <= i < j < rs.len() ==> (#[trigger] rs[i]).end < (#[trigger] rs[j]).start
}
pub open spec fn same_prefix(a: Seq<Range<usize>>, b: Seq<Range<usize>>, n: int) -> bool {
    a.len() >= n && b.len() >= n && forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
}
/// b covers what a covers and [s, e)
pub open spec fn adds(a: Seq<Range<usize>>, b: Seq<Range<usize>>, from: int, s: int, e: int) -> bool {
    forall|x: int| #[trigger] covers(b, from, x) <==> (covers(a, from, x) || s <= x < e)
}
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }

/// r0[i] is extended to `end`, swallowing the k ranges after it
pub proof fn lemma_extend(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, i: int, k: int, end0: int)
    requires
        rwf(r0, from), 0 <= from <= i, 0 <= k, i + k < r0.len(),
        forall|j: int| i < j <= i + k ==> (#[trigger] r0[j]).start <= end0,
        i + k + 1 < r0.len() ==> r0[i + k + 1].start > imax(end0, r0[i + k].end as int),
        r1.len() == r0.len() - k,
        forall|j: int| 0 <= j < i ==> #[trigger] r1[j] == r0[j],
        r1[i].start == r0[i].start, r1[i].end == imax(end0, r0[i + k].end as int),
        forall|j: int| i < j < r1.len() ==> #[trigger] r1[j] == r0[j + k],
    ensures rwf(r1, from), same_prefix(r0, r1, from), adds(r0, r1, from, r0[i].start as int, end0)
{
    assert(r0[i + k].end >= r0[i].end && r0[i + k].start >= r0[i].start);
    assert forall|a: int, b: int| from <= a < b < r1.len() implies (#[trigger] r1[a]).end < (#[trigger] r1[b]).start by {
        if b > i {
            assert(r1[b] == r0[b + k]);
            if a > i { assert(r1[a] == r0[a + k]); }
            else if b > i + 1 { assert(r0[i + k + 1].start < r0[i + k + 1].end < r0[b + k].start); }
        }
    }
    assert forall|a: int| from <= a < r1.len() implies (#[trigger] r1[a]).start < r1[a].end by {
        if a > i { assert(r1[a] == r0[a + k]); }
    }
    assert forall|x: int| #[trigger] covers(r1, from, x) <==> (covers(r0, from, x) || r0[i].start <= x < end0) by {
        if covers(r1, from, x) {
            let a = choose|a: int| from <= a < r1.len() && (#[trigger] r1[a]).start <= x < r1[a].end;
            if a > i { assert(r1[a] == r0[a + k]); }
            if a == i && x >= end0 {
                assert(r0[i + k].start <= imax(end0, r0[i].start as int) );
                assert(r0[i + k].start <= x < r0[i + k].end);
            }
        }
        if covers(r0, from, x) {
            let a = choose|a: int| from <= a < r0.len() && (#[trigger] r0[a]).start <= x < r0[a].end;
            if a > i + k { assert(r1[a - k] == r0[a]); }
            else if a >= i {
                assert(r0[a].end <= r0[i + k].end && r0[i].start <= r0[a].start);
                assert(r1[i].start <= x < r1[i].end);
            } else { assert(r1[a] == r0[a]); }
        }
        if r0[i].start <= x < end0 { assert(r1[i].start <= x < r1[i].end); }
    }
}
/// r0[i] is made to start at `s`
pub proof fn lemma_lower(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, i: int, s: int)
    requires
        rwf(r0, from), 0 <= from <= i < r0.len(), s <= r0[i].start, i > from ==> r0[i - 1].end < s,
        r1.len() == r0.len(), forall|j: int| 0 <= j < r0.len() && j != i ==> #[trigger] r1[j] == r0[j],
        r1[i].start == s, r1[i].end == r0[i].end,
    ensures rwf(r1, from), same_prefix(r0, r1, from), adds(r0, r1, from, s, r0[i].start as int)
{
    assert forall|a: int, b: int| from <= a < b < r1.len() implies (#[trigger] r1[a]).end < (#[trigger] r1[b]).start by {
        if b == i { assert(r0[a].end <= r0[i - 1].end) by { if a < i - 1 { assert(r0[a].end < r0[i - 1].start < r0[i - 1].end); } } }
    }
    assert forall|x: int| #[trigger] covers(r1, from, x) <==> (covers(r0, from, x) || s <= x < r0[i].start) by {
        if covers(r1, from, x) {
            let a = choose|a: int| from <= a < r1.len() && (#[trigger] r1[a]).start <= x < r1[a].end;
            assert(a != i ==> r1[a] == r0[a]);
            assert(r0[a].start <= x < r0[a].end || s <= x < r0[i].start);
        }
        if covers(r0, from, x) {
            let a = choose|a: int| from <= a < r0.len() && (#[trigger] r0[a]).start <= x < r0[a].end;
            assert(r1[a].start <= x < r1[a].end);
        }
        if s <= x < r0[i].start { assert(r1[i].start <= x < r1[i].end); }
    }
}
/// a range is inserted at i
pub proof fn lemma_insert_at(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, i: int, r: Range<usize>)
    requires
        rwf(r0, from), 0 <= from <= i <= r0.len(), r.start < r.end,
        i > from ==> r0[i - 1].end < r.start, i < r0.len() ==> r.end < r0[i].start,
        r1.len() == r0.len() + 1, r1[i] == r,
        forall|j: int| 0 <= j < i ==> #[trigger] r1[j] == r0[j],
        forall|j: int| i < j < r1.len() ==> #[trigger] r1[j] == r0[j - 1],
    ensures rwf(r1, from), same_prefix(r0, r1, from), adds(r0, r1, from, r.start as int, r.end as int)
{
    assert forall|a: int, b: int| from <= a < b < r1.len() implies (#[trigger] r1[a]).end < (#[trigger] r1[b]).start by {
        if b == i { if a < i - 1 { assert(r0[a].end < r0[i - 1].start < r0[i - 1].end); } }
        else if a == i { if b - 1 > i { assert(r0[i].start < r0[i].end < r0[b - 1].start); } }
    }
    assert forall|a: int| from <= a < r1.len() implies (#[trigger] r1[a]).start < r1[a].end by {
        if a < i { assert(r1[a] == r0[a]); } else if a > i { assert(r1[a] == r0[a - 1]); }
    }
    assert forall|x: int| #[trigger] covers(r1, from, x) <==> (covers(r0, from, x) || r.start <= x < r.end) by {
        if covers(r1, from, x) {
            let a = choose|a: int| from <= a < r1.len() && (#[trigger] r1[a]).start <= x < r1[a].end;
            if a < i { assert(r1[a] == r0[a]); } else if a > i { assert(r1[a] == r0[a - 1]); }
        }
        if covers(r0, from, x) {
            let a = choose|a: int| from <= a < r0.len() && (#[trigger] r0[a]).start <= x < r0[a].end;
            if a < i { assert(r1[a] == r0[a]); } else { assert(r1[a + 1] == r0[a]); }
        }
        if r.start <= x < r.end { assert(r1[i] == r); }
    }
    assert forall|a: int| 0 <= a < from implies #[trigger] r0[a] == r1[a] by {}
}

/// [s, m) is covered already
pub proof fn lemma_adds_less(a: Seq<Range<usize>>, b: Seq<Range<usize>>, from: int, i: int, s: int, e: int)
    requires from <= i < a.len(), adds(a, b, from, a[i].start as int, e), a[i].start <= s <= a[i].end
    ensures adds(a, b, from, s, e)
{
    assert forall|x: int| #[trigger] covers(b, from, x) <==> (covers(a, from, x) || s <= x < e) by {
        if a[i].start <= x < s { assert(a[i].start <= x < a[i].end); }
    }
}

pub open spec fn ext_at(r0: Seq<Range<usize>>, i: int, e: int) -> Seq<Range<usize>> {
    r0.update(i, Range { start: r0[i].start, end: imax(r0[i].end as int, e) as usize })
}
pub open spec fn low_at(r0: Seq<Range<usize>>, i: int, s: int) -> Seq<Range<usize>> {
    r0.update(i, Range { start: s as usize, end: r0[i].end })
}
pub open spec fn end_before(r0: Seq<Range<usize>>, n: int, p: int) -> int { if p > n { r0[p - 1].end as int } else { -1int } }
pub open spec fn start_after(r0: Seq<Range<usize>>, p: int) -> int { if p < r0.len() { r0[p].start as int } else { usize::MAX + 1int } }
/// what inserting r before the p-th range can amount to
pub proof fn lemma_cases(r0: Seq<Range<usize>>, n: int, p: int, r: Range<usize>)
    requires rwf(r0, n), 0 <= n <= p <= r0.len(), r.start < r.end,
        p > n ==> r0[p - 1].start < r.start, p < r0.len() ==> r.start < r0[p].start
    ensures
        ({
        let lo = end_before(r0, n, p);
        let hi = start_after(r0, p);
        let ns = r.start as int;
        let ne = r.end as int;
        &&& lo < hi
        &&& (p > n ==> r0[p - 1].start < r0[p - 1].end)
        &&& (p < r0.len() ==> r0[p].start < r0[p].end)
        &&& (lo < ns && ne < hi ==> {
            let r1 = r0.insert(p, r);
            rwf(r1, n) && same_prefix(r0, r1, n) && adds(r0, r1, n, ns, ne) })
        &&& (ns <= lo && ne < hi ==> {
            let r1 = ext_at(r0, p - 1, ne);
            rwf(r1, n) && same_prefix(r0, r1, n) && adds(r0, r1, n, ns, ne) })
        &&& (lo < ns && hi <= ne ==> {
            let r1 = low_at(r0, p, ns);
            rwf(r1, n) && same_prefix(r0, r1, n) && adds(r0, r1, n, ns, hi) })
        })
{
    let lo = end_before(r0, n, p);
    let hi = start_after(r0, p);
    let ns = r.start as int;
    let ne = r.end as int;
    if lo < ns && ne < hi {
        lemma_insert_at(r0, r0.insert(p, r), n, p, r);
    }
    if ns <= lo && ne < hi {
        let r1 = ext_at(r0, p - 1, ne);
        lemma_extend(r0, r1, n, p - 1, 0, ne);
        lemma_adds_less(r0, r1, n, p - 1, ns, ne);
    }
    if lo < ns && hi <= ne {
        lemma_lower(r0, low_at(r0, p, ns), n, p, ns);
    }
}
pub proof fn lemma_rwf_sorted(r0: Seq<Range<usize>>, n: int)
    requires rwf(r0, n)
    ensures forall|i: int, j: int| n <= i <= j < r0.len() ==> (#[trigger] r0[i]).start <= (#[trigger] r0[j]).start
{
}
pub proof fn lemma_adds_trans(a: Seq<Range<usize>>, b: Seq<Range<usize>>, c: Seq<Range<usize>>, from: int, s: int, m: int, e: int)
    requires adds(a, b, from, s, m), adds(b, c, from, s, e), m <= e
    ensures adds(a, c, from, s, e)
{
    assert forall|x: int| #[trigger] covers(c, from, x) <==> (covers(a, from, x) || s <= x < e) by {
        assert(covers(b, from, x) || !covers(b, from, x));
    }
}

@@ items matched_ranges
impl<'a> MatchedRanges<'a> {
    pub open spec fn cur(self) -> Seq<Range<usize>> { self.ranges@ }
    pub open spec fn own(self) -> Seq<Range<usize>> { self.ranges@.subrange(self.initial_len as int, self.ranges@.len() as int) }
    pub open spec fn wf(self) -> bool { self.initial_len <= self.ranges@.len() && rwf(self.ranges@, self.initial_len as int) }
    pub open spec fn cov(self, x: int) -> bool { covers(self.ranges@, self.initial_len as int, x) }
    /// nothing but the covered positions changed
    #[verifier::prophetic]
    pub open spec fn kept(self, o: Self) -> bool {
        &&& self.initial_len == o.initial_len
        &&& same_prefix(o.ranges@, self.ranges@, o.initial_len as int)
        &&& *final(self.ranges) == *final(o.ranges)
    }
}

@@ fn matched_ranges::<MatchedRanges as From>::from
@contract
    ensures vx_r.initial_len == old(ranges)@.len(), *vx_r.ranges == *old(ranges), *final(ranges) == *final(vx_r.ranges)

@@ fn matched_ranges::MatchedRanges::binary_search_by
@contract
    requires
        self.initial_len <= self.cur().len(),
        forall|x: &'r Range<usize>| fun.requires((x,)),
        forall|i: int, j: int, a: Ordering, b: Ordering| self.initial_len <= i <= j < self.cur().len()
            && #[trigger] fun.ensures((&self.cur()[i],), a) && #[trigger] fun.ensures((&self.cur()[j],), b)
            ==> ord_int(a) <= ord_int(b),
    ensures match vx_r {
        Ok(i) => i < self.own().len() && fun.ensures((&self.own()[i as int],), Ordering::Equal),
        Err(i) => i <= self.own().len()
            && (forall|k: int| 0 <= k < i ==> fun.ensures((&#[trigger] self.own()[k],), Ordering::Less))
            && (forall|k: int| i <= k < self.own().len() ==> fun.ensures((&#[trigger] self.own()[k],), Ordering::Greater)),
    }

@@ fn matched_ranges::MatchedRanges::extend_to
@contract
    requires old(self).wf(), old(self).initial_len + idx < old(self).ranges@.len()
    ensures final(self).wf(), final(self).kept(*old(self)),
        adds(old(self).ranges@, final(self).ranges@, old(self).initial_len as int, old(self).ranges@[old(self).initial_len + idx].start as int, end as int)
@proof start
    assert(self.ranges@.len() == self.ranges.len());
    let ghost end0 = end as int;
    let ghost r0 = self.ranges@;
    let ghost i = self.initial_len + idx;
    let ghost mut k: int = 0;
@loop 0
    invariant
        self.kept(*old(self)), r0 == old(self).ranges@, old(self).wf(), i == self.initial_len + idx, i < self.ranges@.len(),
        r0.len() <= usize::MAX, 0 <= k, i + k < r0.len(), self.ranges@.len() == r0.len() - k,
        forall|j: int| 0 <= j <= i ==> #[trigger] self.ranges@[j] == r0[j],
        forall|j: int| i < j < self.ranges@.len() ==> #[trigger] self.ranges@[j] == r0[j + k],
        forall|j: int| i < j <= i + k ==> (#[trigger] r0[j]).start <= end0,
        end == imax(end0, r0[i + k].end as int),
    decreases self.ranges@.len()
@proof loop 0 head
    assert(self.ranges@[i + 1] == r0[i + 1 + k]);
    assert(r0[i + k].end < r0[i + k + 1].start < r0[i + k + 1].end);
    proof { k = k + 1; }
@proof end
    proof {
        if i + 1 < self.ranges@.len() { assert(self.ranges@[i + 1] == r0[i + 1 + k]); }
        lemma_extend(r0, self.ranges@, self.initial_len as int, i, k, end0);
    }

@@ fn matched_ranges::MatchedRanges::get_mut
@contract
    requires old(self).initial_len + idx <= usize::MAX
    ensures final(self).initial_len == old(self).initial_len, *final(final(self).ranges) == *final(old(self).ranges),
        match vx_r {
            Some(r) => old(self).initial_len + idx < old(self).ranges@.len() && *r == old(self).ranges@[old(self).initial_len + idx]
                && final(self).ranges@ == old(self).ranges@.update(old(self).initial_len + idx, *final(r)),
            None => old(self).initial_len + idx >= old(self).ranges@.len() && final(self).ranges@ == old(self).ranges@,
        }

@@ fn matched_ranges::MatchedRanges::insert
@attr verifier::rlimit(60)
@contract
    requires old(self).wf(), new_range.start < new_range.end
    ensures
        final(self).wf(), //[C07,C08]
        final(self).kept(*old(self)), //[C07]
        adds(old(self).ranges@, final(self).ranges@, old(self).initial_len as int, new_range.start as int, new_range.end as int), //[C08]
@proof start
    hide(rwf); hide(adds); hide(covers);
    assert(self.ranges@.len() == self.ranges.len());
    let ghost r0 = self.ranges@;
    let ghost n = self.initial_len as int;
    let ghost ns = new_range.start as int;
    let ghost ne = new_range.end as int;
    proof { lemma_rwf_sorted(r0, n); }
@proof before self.extend_to(idx, new_range.end)
    assert(self.own()[idx as int] == r0[n + idx]);
@proof before if insert_idx == 0
    let ghost p = n + insert_idx;
    let ghost lo = end_before(r0, n, p);
    let ghost hi = start_after(r0, p);
    proof {
        if p > n { assert(r0[p - 1] == self.own()[p - 1 - n]); }
        if p < r0.len() { assert(r0[p] == self.own()[p - n]); }
        lemma_cases(r0, n, p, new_range);
    }
@proof before self.extend_to(0, new_range.end)
    assert(self.ranges@ =~= low_at(r0, p, ns));
@proof after self.extend_to(0, new_range.end)
    proof { lemma_adds_trans(r0, low_at(r0, p, ns), self.ranges@, n, ns, hi, ne); }
@proof before self.extend_to(insert_idx, new_range.end)
    assert(self.ranges@ =~= low_at(r0, p, ns));
@proof after self.extend_to(insert_idx, new_range.end)
    proof { lemma_adds_trans(r0, low_at(r0, p, ns), self.ranges@, n, ns, hi, ne); }
@proof before self.insert_at(insert_idx, new_range)
    assert(self.ranges@ =~= r0);
@proof after self.insert_at(insert_idx, new_range)
    assert(self.ranges@ =~= r0.insert(p, new_range));
@proof after prev_range.end = new_range.end
    assert(self.ranges@ =~= ext_at(r0, p - 1, ne));
@proof before self.extend_to(insert_idx - 1, new_range.end)
    assert(self.ranges@ =~= r0);
@proof after self.extend_to(insert_idx - 1, new_range.end)
    proof { lemma_adds_less(r0, self.ranges@, n, p - 1, ns, ne); }
@proof before return #1
    assert(lo < ns && ne < hi ==> self.ranges@ =~= r0.insert(p, new_range));
@proof before return #2
    assert(lo < ns && ne < hi ==> self.ranges@ =~= r0.insert(p, new_range));
@proof before return #3
    assert(lo < ns && ne < hi ==> self.ranges@ =~= r0.insert(p, new_range));
    assert(ns <= lo && ne < hi ==> self.ranges@ =~= ext_at(r0, p - 1, ne));
@proof end
    proof {
        if ns <= lo && ne < hi && ne <= lo {
            assert(self.ranges@ =~= r0);
            assert(r0 =~= ext_at(r0, p - 1, ne));
        }
    }
@closure 0
|range: &Range<usize>| -> (o: Ordering)
    ensures ord_int(o) == (if range.start < new_range.start { -1int } else if range.start == new_range.start { 0 } else { 1 })

@@ fn matched_ranges::MatchedRanges::insert_at
@contract
    requires old(self).initial_len + idx <= old(self).ranges@.len()
    ensures final(self).initial_len == old(self).initial_len, *final(final(self).ranges) == *final(old(self).ranges),
        final(self).ranges@ == old(self).ranges@.insert(old(self).initial_len + idx, range)

@proof start
    assert(self.ranges@.len() == self.ranges.len());
@@ fn matched_ranges::MatchedRanges::last_mut
@contract
    ensures final(self).initial_len == old(self).initial_len, *final(final(self).ranges) == *final(old(self).ranges),
        match vx_r {
            Some(r) => old(self).ranges@.len() > 0 && *r == old(self).ranges@.last()
                && final(self).ranges@ == old(self).ranges@.update(old(self).ranges@.len() - 1, *final(r)),
            None => old(self).ranges@.len() == 0 && final(self).ranges@ == old(self).ranges@,
        }

@@ fn matched_ranges::MatchedRanges::len
@contract
    requires self.initial_len <= self.cur().len()
    ensures vx_r == self.cur().len() - self.initial_len

@@ fn matched_ranges::MatchedRanges::push
@contract
    ensures final(self).initial_len == old(self).initial_len, *final(final(self).ranges) == *final(old(self).ranges),
        final(self).ranges@ == old(self).ranges@.push(range)

@@ fn matched_ranges::MatchedRanges::remove
@contract
    requires old(self).initial_len + idx < old(self).ranges@.len()
    ensures final(self).initial_len == old(self).initial_len, *final(final(self).ranges) == *final(old(self).ranges),
        vx_r == old(self).ranges@[old(self).initial_len + idx],
        final(self).ranges@ == old(self).ranges@.remove(old(self).initial_len + idx)

@proof start
    assert(self.ranges@.len() == self.ranges.len());
@@ fn matched_ranges::MatchedRanges::split_at_mut
@contract
    requires old(self).initial_len + idx <= old(self).ranges@.len()
    ensures final(self).initial_len == old(self).initial_len, *final(final(self).ranges) == *final(old(self).ranges),
        vx_r.0@ == old(self).ranges@.subrange(old(self).initial_len as int, old(self).initial_len + idx),
        vx_r.1@ == old(self).ranges@.subrange(old(self).initial_len + idx, old(self).ranges@.len() as int),
        final(self).ranges@ =~= old(self).ranges@.subrange(0, old(self).initial_len as int) + final(vx_r.0)@ + final(vx_r.1)@
@proof start
    assert(self.ranges@.len() == self.ranges.len());
