@@ impl-items metrics::fzf::fzf_v1::FzfV1 as Fzf
open spec fn held(&self) -> Seq<char> { self.candidate_slab.chars@ }
open spec fn cfg(&self) -> Cfg { Cfg { v2: false, case: self.case_sensitivity, norm: self.candidate_normalization, scheme: self.scoring_scheme } }

@@ fn metrics::fzf::fzf_v1::<FzfV1 as Fzf>::alloc_chars
@contract

@@ fn metrics::fzf::fzf_v1::<FzfV1 as Fzf>::char_eq
@contract

@@ fn metrics::fzf::fzf_v1::<FzfV1 as Fzf>::scheme
@contract

@@ fn metrics::fzf::fzf_v1::<FzfV1 as Fzf>::fuzzy
@contract
@proof start
    let ghost e = self.cfg().eq(pattern.has_uppercase);
    let ghost p = pattern.text@;
    let ghost cs = candidate.v();
    let ghost n = p.len() as int;
    // a term longer than the candidate does not match
    proof { gpos_mono(e, p, cs, 0, -1, n - 1); }
@proof before let score
    proof {
        gpos_mono(e, p, cs, 0, 0, n - 1);
        v1_window(e, p, cs);
    }

@@ prelude
/// a hit before `hi` is not after the last one
pub proof fn prev_at_is(e: VxCharEq, c: char, cs: Seq<char>, hi: int)
    requires 0 <= hi <= cs.len()
    ensures
        -1 <= prev_at(e, c, cs, hi) < hi || hi == 0 && prev_at(e, c, cs, hi) == -1,
        prev_at(e, c, cs, hi) >= 0 ==> e.eqv(c, cs[prev_at(e, c, cs, hi)]),
        none_eq(e, c, cs, prev_at(e, c, cs, hi) + 1, hi),
    decreases hi
{
    if hi > 0 && !e.eqv(c, cs[hi - 1]) { prev_at_is(e, c, cs, hi - 1); }
}
pub proof fn last_eq_prev(e: VxCharEq, c: char, cs: Seq<char>, hi: int, r: Option<usize>)
    requires 0 <= hi <= cs.len(), last_eq(e, c, cs, hi, r)
    ensures prev_at(e, c, cs, hi) == (match r { Some(i) => i as int, None => -1 })
{
    prev_at_is(e, c, cs, hi);
}
pub proof fn first_eq_next(e: VxCharEq, c: char, cs: Seq<char>, lo: int, r: Option<usize>)
    requires 0 <= lo <= cs.len(), first_eq(e, c, cs, lo, r)
    ensures next_at(e, c, cs, lo) == (match r { Some(i) => i as int, None => cs.len() as int })
    decreases cs.len() - lo
{
    if lo < cs.len() && !e.eqv(c, cs[lo]) { first_eq_next(e, c, cs, lo + 1, r); }
}
/// an alignment within the first `end` chars is nowhere after the rightmost one
pub proof fn rpos_last(e: VxCharEq, p: Seq<char>, cs: Seq<char>, end: int, pos: Seq<int>, k: int)
    requires aligned(e, p, cs, pos), 0 <= k <= p.len(), 0 <= end <= cs.len(), p.len() > 0, pos.last() < end
    ensures k < p.len() ==> pos[k] <= rpos(e, p, cs, end, k) && e.eqv(p[k], cs[rpos(e, p, cs, end, k)]),
        rpos(e, p, cs, end, k) <= end - (p.len() - k),
        k + 1 < p.len() ==> rpos(e, p, cs, end, k) < rpos(e, p, cs, end, k + 1)
    decreases p.len() - k
{
    if k < p.len() {
        rpos_last(e, p, cs, end, pos, k + 1);
        let hi = rpos(e, p, cs, end, k + 1);
        prev_at_is(e, p[k], cs, hi);
        if k + 1 < p.len() { assert(pos[k] < pos[k + 1]); }
        assert(pos[k] < hi);
        assert(e.eqv(p[k], cs[pos[k]]));
    }
}
/// an alignment at or after `from` is nowhere before the leftmost one
pub proof fn gpos_first(e: VxCharEq, p: Seq<char>, cs: Seq<char>, from: int, pos: Seq<int>, k: int)
    requires aligned(e, p, cs, pos), 0 <= from, p.len() > 0, pos[0] >= from, 0 <= k < p.len()
    ensures gpos(e, p, cs, from, k) <= pos[k]
    decreases k
{
    let lo = gpos(e, p, cs, from, k - 1) + 1;
    if k > 0 { gpos_first(e, p, cs, from, pos, k - 1); assert(pos[k - 1] < pos[k]); }
    gpos_mono(e, p, cs, from, -1, k - 1);
    next_at_is(e, p[k], cs, lo);
    assert(e.eqv(p[k], cs[pos[k]]));
    assert(lo <= pos[k]);
}
/// the leftmost alignment is one
pub proof fn greedy_aligned(e: VxCharEq, p: Seq<char>, cs: Seq<char>, from: int)
    requires 0 <= from, p.len() > 0, gpos(e, p, cs, from, p.len() - 1) < cs.len()
    ensures aligned(e, p, cs, greedy(e, p, cs, from))
{
    let pos = greedy(e, p, cs, from);
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] pos[k] < cs.len() && e.eqv(p[k], cs[pos[k]]) by {
        gpos_mono(e, p, cs, from, -1, k - 1);
        gpos_mono(e, p, cs, from, k, p.len() - 1);
        next_at_is(e, p[k], cs, gpos(e, p, cs, from, k - 1) + 1);
    }
    assert forall|j: int, k: int| 0 <= j < k < p.len() implies #[trigger] pos[j] < #[trigger] pos[k] by { gpos_mono(e, p, cs, from, j, k); }
}
/// the window FzfV1 finds
pub proof fn v1_window(e: VxCharEq, p: Seq<char>, cs: Seq<char>)
    requires p.len() > 0, gpos(e, p, cs, 0, p.len() - 1) < cs.len()
    ensures ({
        let end = gpos(e, p, cs, 0, p.len() - 1) + 1;
        let s = v1_start(e, p, cs);
        &&& 0 <= s < end <= cs.len()
        &&& s <= end - p.len()
        &&& e.eqv(p[0], cs[s])
        &&& gpos(e, p, cs, s, p.len() - 1) < end
    })
{
    let n = p.len() as int;
    let end = gpos(e, p, cs, 0, n - 1) + 1;
    let pos = greedy(e, p, cs, 0);
    greedy_aligned(e, p, cs, 0);
    assert(pos.last() == pos[n - 1] && pos[n - 1] == gpos(e, p, cs, 0, n - 1));
    gpos_mono(e, p, cs, 0, -1, n - 1);
    rpos_last(e, p, cs, end, pos, 0);
    let r = Seq::new(p.len(), |k: int| rpos(e, p, cs, end, k));
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] r[k] < cs.len() && e.eqv(p[k], cs[r[k]]) by { rpos_last(e, p, cs, end, pos, k); assert(pos[k] >= 0); }
    assert forall|j: int, k: int| 0 <= j < k < n implies #[trigger] r[j] < #[trigger] r[k] by { rpos_inc(e, p, cs, end, pos, j, k); }
    gpos_first(e, p, cs, r[0], r, n - 1);
    rpos_last(e, p, cs, end, pos, n - 1);
    assert(pos[0] >= 0);
}
pub proof fn rpos_inc(e: VxCharEq, p: Seq<char>, cs: Seq<char>, end: int, pos: Seq<int>, j: int, k: int)
    requires aligned(e, p, cs, pos), 0 <= j < k < p.len(), 0 <= end <= cs.len(), pos.last() < end
    ensures rpos(e, p, cs, end, j) < rpos(e, p, cs, end, k)
    decreases k - j
{
    rpos_last(e, p, cs, end, pos, j);
    if j + 1 < k { rpos_inc(e, p, cs, end, pos, j + 1, k); }
}

@@ fn metrics::fzf::fzf_v1::forward_pass
@contract
    requires pattern.wf(), pattern.text@.len() > 0, candidate.wf(), opts.wf()
    ensures ({
        let g = gpos(opts.char_eq, pattern.text@, candidate.v(), 0, pattern.text@.len() - 1);
        match vx_r { Some(end) => end == g + 1 && end <= candidate.v().len(), None => g >= candidate.v().len() }
    }) //[C01,C12]
@proof start
    let ghost e = opts.char_eq;
    let ghost p = pattern.text@;
    let ghost cs = candidate.v();
    let ghost n = p.len() as int;
    // a term longer than the candidate does not match
    proof { gpos_mono(e, p, cs, 0, -1, n - 1); }
    let ghost mut k: int = 0;
    assert(p.subrange(0, n) =~= p);
@loop 0
    invariant_except_break
        end_offset == gpos(e, p, cs, 0, k - 1) + 1, pattern_chars.rem() == p.subrange(k + 1, n),
    invariant
        e == opts.char_eq, p == pattern.text@, cs == candidate.v(), n == p.len(), opts.wf(), candidate.wf(),
        0 <= k < n, pattern_char == p[k], pattern_chars.wf(), end_offset <= cs.len(),
    ensures end_offset == gpos(e, p, cs, 0, n - 1) + 1
    decreases n - k
@proof loop 0 head
    proof {
        assert forall|r: Option<usize>| #[trigger] first_eq(e, p[k], cs, end_offset as int, r) implies next_at(e, p[k], cs, end_offset as int) == (match r { Some(i) => i as int, None => cs.len() as int }) by {
            first_eq_next(e, p[k], cs, end_offset as int, r);
        }
        gpos_mono(e, p, cs, 0, k, n - 1);
    }
@proof loop 0 tail
    proof { assert(p.subrange(k + 1, n).subrange(1, n - k - 1) =~= p.subrange(k + 2, n)); k = k + 1; }

@@ fn metrics::fzf::fzf_v1::backward_pass
@contract
    requires pattern.wf(), pattern.text@.len() > 0, candidate.wf(), opts.wf(),
        end_offset == gpos(opts.char_eq, pattern.text@, candidate.v(), 0, pattern.text@.len() - 1) + 1, end_offset <= candidate.v().len()
    ensures vx_r == v1_start(opts.char_eq, pattern.text@, candidate.v()) //[C12]
@proof start
    let ghost e = opts.char_eq;
    let ghost p = pattern.text@;
    let ghost cs = candidate.v();
    let ghost n = p.len() as int;
    let ghost end = end_offset as int;
    let ghost pos = greedy(e, p, cs, 0);
    let ghost mut k: int = n - 1;
    assert(p.subrange(0, n) =~= p);
    proof { greedy_aligned(e, p, cs, 0); }
@proof before let mut start_offset
    assert(p.reverse().subrange(1, n) =~= p.subrange(0, n - 1).reverse());
@loop 0
    invariant_except_break
        start_offset == rpos(e, p, cs, end, k + 1), pattern_chars.rem() == p.subrange(0, k).reverse(),
    invariant
        e == opts.char_eq, p == pattern.text@, cs == candidate.v(), n == p.len(), opts.wf(), candidate.wf(),
        0 <= k < n, pattern_char == p[k], pattern_chars.wf(),
        start_offset <= cs.len(), end == end_offset, end <= cs.len(),
        aligned(e, p, cs, pos), pos.last() < end,  v1_start(e, p, cs) == rpos(e, p, cs, end, 0),
    ensures start_offset == v1_start(e, p, cs)
    decreases k
@proof loop 0 head
    proof {
        assert forall|r: Option<usize>| #[trigger] last_eq(e, p[k], cs, start_offset as int, r) implies prev_at(e, p[k], cs, start_offset as int) == (match r { Some(i) => i as int, None => -1 }) by {
            last_eq_prev(e, p[k], cs, start_offset as int, r);
        }
        rpos_last(e, p, cs, end, pos, k);
        assert(pos[k] >= 0);
    }
@proof loop 0 tail
    proof { assert(p.subrange(0, k).reverse().subrange(1, k) =~= p.subrange(0, k - 1).reverse()); k = k - 1; }

@@ fn metrics::fzf::fzf_v1::<FzfV1 as Default>::default
@contract
    ensures vx_r.cfg() == (Cfg { v2: false, case: CaseSensitivity::Smart, norm: false, scheme: s_scheme(FzfScheme::Default) }) //[C19]

@@ plain-fn metrics::fzf::fzf_v1::<FzfV1 as Clone>::clone
@contract
    ensures vx_r.cfg() == self.cfg() //[C10,C19]

@@ fn metrics::fzf::fzf_v1::FzfV1::new
@contract
    ensures vx_r.cfg() == (Cfg { v2: false, case: CaseSensitivity::Smart, norm: false, scheme: s_scheme(FzfScheme::Default) }) //[C19]

@@ fn metrics::fzf::fzf_v1::FzfV1::set_candidate_normalization
@contract
    ensures *final(vx_r) == *final(self), vx_r.cfg() == (Cfg { norm: normalization, ..old(self).cfg() }) //[C16,C19]

@@ fn metrics::fzf::fzf_v1::FzfV1::set_case_sensitivity
@contract
    ensures *final(vx_r) == *final(self), vx_r.cfg() == (Cfg { case: case_sensitivity, ..old(self).cfg() }) //[C15,C19]

@@ fn metrics::fzf::fzf_v1::FzfV1::set_scoring_scheme
@contract
    ensures *final(vx_r) == *final(self), vx_r.cfg() == (Cfg { scheme: s_scheme(scheme), ..old(self).cfg() }) //[C11,C19]

@@ fn case_sensitivity::<CaseSensitivity as Default>::default
@contract
    ensures vx_r == CaseSensitivity::Smart //[C19]

@@ fn metrics::fzf::scheme::FzfScheme::into_inner
@contract
    ensures vx_r == s_scheme(self) //[C11,C19]

@@ fn metrics::fzf::fzf_v1::<FzfV1 as Metric>::distance
@contract
    requires sc_wf(old(self).cfg().scheme), query.wf(), candidate@.len() <= MAXLEN
    ensures
        final(self).cfg() == old(self).cfg(), //[C10,C19]
        scored(s_query(old(self).cfg(), query.conds(), candidate@), match vx_r { Some(d) => Some(d.0), None => None }), //[C01,C02,C03,C04,C09,C10,C11,C12,C15,C16]

@@ fn metrics::fzf::fzf_v1::<FzfV1 as Metric>::distance_and_ranges
@contract
    requires sc_wf(old(self).cfg().scheme), query.wf(), candidate@.len() <= MAXLEN
    ensures
        final(self).cfg() == old(self).cfg(), //[C10,C19]
        scored(s_query(old(self).cfg(), query.conds(), candidate@), match vx_r { Some(d) => Some(d.0), None => None }), //[C01,C02,C03,C04,C09,C10,C11,C12,C15,C16]
        same_prefix(old(ranges)@, final(ranges)@, old(ranges)@.len() as int), //[C07]
        rwf(final(ranges)@, old(ranges)@.len() as int), //[C07]
        vx_r is None ==> final(ranges)@ == old(ranges)@, //[C07]
        vx_r is Some ==> marks(old(ranges)@, final(ranges)@, old(ranges)@.len() as int, candidate@,
            (s_query(old(self).cfg(), query.conds(), candidate@)->0).1), //[C04,C08,C12]
