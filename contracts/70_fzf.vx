@@ prelude
/// first offset at or after `from` whose char matches `c`; cs.len() or more if there is none
pub open spec fn next_at(e: VxCharEq, c: char, cs: Seq<char>, from: int) -> int
    decreases cs.len() - from
{
    if from < 0 || from >= cs.len() { from } else if e.eqv(c, cs[from]) { from } else { next_at(e, c, cs, from + 1) }
}
/// offset of the k-th char of p in its leftmost alignment at or after `from`
pub open spec fn gpos(e: VxCharEq, p: Seq<char>, cs: Seq<char>, from: int, k: int) -> int
    decreases k + 1
{
    if k < 0 { from - 1 } else { next_at(e, p[k], cs, gpos(e, p, cs, from, k - 1) + 1) }
}
pub open spec fn greedy(e: VxCharEq, p: Seq<char>, cs: Seq<char>, from: int) -> Seq<int> {
    Seq::new(p.len(), |k: int| gpos(e, p, cs, from, k))
}
/// pos is an alignment of p in cs: where p is a subsequence
pub open spec fn aligned(e: VxCharEq, p: Seq<char>, cs: Seq<char>, pos: Seq<int>) -> bool {
    &&& pos.len() == p.len()
    &&& forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] pos[k] < cs.len() && e.eqv(p[k], cs[pos[k]])
    &&& forall|j: int, k: int| 0 <= j < k < p.len() ==> #[trigger] pos[j] < #[trigger] pos[k]
}
pub proof fn next_at_is(e: VxCharEq, c: char, cs: Seq<char>, from: int)
    requires 0 <= from
    ensures
        next_at(e, c, cs, from) >= from,
        none_eq(e, c, cs, from, next_at(e, c, cs, from)),
        next_at(e, c, cs, from) < cs.len() ==> e.eqv(c, cs[next_at(e, c, cs, from)]),
    decreases cs.len() - from
{
    if from < cs.len() && !e.eqv(c, cs[from]) { next_at_is(e, c, cs, from + 1); }
}
/// the leftmost alignment is increasing
pub proof fn gpos_mono(e: VxCharEq, p: Seq<char>, cs: Seq<char>, from: int, j: int, k: int)
    requires 0 <= from, -1 <= j <= k < p.len()
    ensures gpos(e, p, cs, from, j) >= from - 1, gpos(e, p, cs, from, k) - gpos(e, p, cs, from, j) >= k - j
    decreases k - j + 1, k + 1
{
    if j < k {
        gpos_mono(e, p, cs, from, j, k - 1);
        next_at_is(e, p[k], cs, gpos(e, p, cs, from, k - 1) + 1);
    } else if k >= 0 {
        gpos_mono(e, p, cs, from, k - 1, k - 1);
        next_at_is(e, p[k], cs, gpos(e, p, cs, from, k - 1) + 1);
    }
}
pub open spec fn gap_cost(g: int) -> int { if g <= 0 { 0 } else { 3 + (g - 1) } }
/// the bonus that the run the k-th matched char is in was started with
pub open spec fn run_bonus(cs: Seq<char>, pos: Seq<int>, k: int, sc: Scheme) -> int
    decreases k
{
    let b = bonus_at(cs, pos[k], sc, sc.initial_char_class);
    if k <= 0 || pos[k] != pos[k - 1] + 1 { b }
    else {
        let f = run_bonus(cs, pos, k - 1, sc);
        if b >= 8 && b > f { b } else { f }
    }
}
/// the bonus of the k-th matched char
pub open spec fn char_bonus(cs: Seq<char>, pos: Seq<int>, k: int, sc: Scheme) -> int {
    let b = bonus_at(cs, pos[k], sc, sc.initial_char_class);
    if k <= 0 || pos[k] != pos[k - 1] + 1 { b } else { imax(imax(b, run_bonus(cs, pos, k, sc)), 4) }
}
/// the score of the first k matched chars (C11)
pub open spec fn align_score(cs: Seq<char>, pos: Seq<int>, k: int, sc: Scheme) -> int
    decreases k
{
    if k <= 0 { 0 }
    else {
        let i = k - 1;
        align_score(cs, pos, i, sc) + 16 + (if i == 0 { 2 * char_bonus(cs, pos, i, sc) } else { char_bonus(cs, pos, i, sc) })
            - (if i == 0 { 0 } else { gap_cost(pos[i] - pos[i - 1] - 1) })
    }
}
/// byte x belongs to one of the first k chars of pos
pub open spec fn pcov(cs: Seq<char>, pos: Seq<int>, k: int, x: int) -> bool {
    exists|i: int| 0 <= i < k && boff(cs, #[trigger] pos[i]) <= x < boff(cs, pos[i] + 1)
}
/// r1 covers what r0 covers and the bytes of the first k chars of pos
pub open spec fn padds(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, cs: Seq<char>, pos: Seq<int>, k: int) -> bool {
    forall|x: int| #[trigger] covers(r1, from, x) <==> (covers(r0, from, x) || pcov(cs, pos, k, x))
}
pub proof fn padds_step(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, r2: Seq<Range<usize>>, from: int, cs: Seq<char>, pos: Seq<int>, k: int)
    requires padds(r0, r1, from, cs, pos, k), 0 <= k < pos.len(), adds(r1, r2, from, boff(cs, pos[k]), boff(cs, pos[k] + 1))
    ensures padds(r0, r2, from, cs, pos, k + 1)
{
    assert forall|x: int| #[trigger] covers(r2, from, x) <==> (covers(r0, from, x) || pcov(cs, pos, k + 1, x)) by {
        assert(covers(r2, from, x) <==> covers(r1, from, x) || boff(cs, pos[k]) <= x < boff(cs, pos[k] + 1));
        if pcov(cs, pos, k + 1, x) {
            let i = choose|i: int| 0 <= i < k + 1 && boff(cs, #[trigger] pos[i]) <= x < boff(cs, pos[i] + 1);
            if i < k { assert(pcov(cs, pos, k, x)); }
        }
        if pcov(cs, pos, k, x) {
            let i = choose|i: int| 0 <= i < k && boff(cs, #[trigger] pos[i]) <= x < boff(cs, pos[i] + 1);
            assert(0 <= i < k + 1);
        }
        if boff(cs, pos[k]) <= x < boff(cs, pos[k] + 1) { assert(pcov(cs, pos, k + 1, x)); }
    }
}
/// the bounds of every score
pub open spec fn s_bounded(x: int) -> bool { -0x4_0000_0000 <= x <= 0x4_0000_0000 }

@@ items matched_ranges
impl<'a> MatchedRanges<'a> {
    #[verifier::prophetic]
    pub open spec fn same(self, o: Self) -> bool {
        &&& self.initial_len == o.initial_len
        &&& self.ranges@ == o.ranges@
        &&& *final(self.ranges) == *final(o.ranges)
    }
}

@@ fn metrics::fzf::fzf::compute_score
@contract
    requires
        0 < pattern.text@.len() <= MAXLEN, candidate.wf(), sc_wf(*scheme),
        candidate_char_range.start < candidate_char_range.end <= candidate.v().len(),
        char_eq.eqv(pattern.text@[0], candidate.v()[candidate_char_range.start as int]),
        gpos(char_eq, pattern.text@, candidate.v(), candidate_char_range.start as int, pattern.text@.len() - 1) < candidate_char_range.end,
        old(ranges).wf(),
    ensures
        vx_r == align_score(candidate.v(), greedy(char_eq, pattern.text@, candidate.v(), candidate_char_range.start as int), pattern.text@.len() as int, *scheme), //[C11,C12]
        s_bounded(vx_r as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES ==> padds(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(), greedy(char_eq, pattern.text@, candidate.v(), candidate_char_range.start as int), pattern.text@.len() as int), //[C08,C12]
        !RANGES ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]
@proof start
    let ghost e = char_eq;
    let ghost p = pattern.text@;
    let ghost n = p.len() as int;
    let ghost cs = candidate.v();
    let ghost s = candidate_char_range.start as int;
    let ghost t = candidate_char_range.end as int;
    let ghost pos = greedy(e, p, cs, s);
    let ghost mut i = s;
    let ghost mut j: int = 0;
    proof {
        gpos_mono(e, p, cs, s, 0, n - 1);
        boff_mono(cs, 0, s);
        assert(gpos(e, p, cs, s, -1) == s - 1);
    }
@loop 0
    invariant_except_break
        0 <= j < n, s <= i <= t,
        vx_it0.rem() == cs.subrange(i, t),
        pattern_chars.rem() == p.subrange(j + 1, n), pattern_chars.wf(),
        pattern_char == p[j],
        prev_class == s_prev(cs, i, *scheme, scheme.initial_char_class),
        next_at(e, p[j], cs, i) == pos[j],
        is_first_pattern_char == (j == 0),
        j == 0 ==> i == s && score == 0 && consecutive == 0,
        j > 0 ==> pos[j - 1] < i && score == align_score(cs, pos, j, *scheme) - gap_cost(i - pos[j - 1] - 1)
            && is_in_gap == (i > pos[j - 1] + 1) && (consecutive > 0 <==> i == pos[j - 1] + 1)
            && (consecutive > 0 ==> first_bonus == run_bonus(cs, pos, j - 1, *scheme)),
        consecutive <= j, 0 <= first_bonus <= 10,
        -3 * (i - s) <= score <= 36 * (i - s),
        RANGES ==> byte_range_start == boff(cs, s) && byte_range_start + byte_offset == boff(cs, i),
        RANGES ==> padds(old(ranges).ranges@, ranges.ranges@, old(ranges).initial_len as int, cs, pos, j),
    invariant
        e == char_eq, cs == candidate.v(), p == pattern.text@, n == p.len(), pos == greedy(e, p, cs, s), 0 <= s, t <= cs.len(), n <= MAXLEN, cs.len() <= MAXLEN,
        e.eqv(p[0], cs[s]), s < t,
        sc_wf(*scheme), vx_it0.wf(), gpos(e, p, cs, s, n - 1) < t,
        ranges.wf(), ranges.kept(*old(ranges)), !RANGES ==> ranges.same(*old(ranges)),
    ensures
        score == align_score(cs, pos, n, *scheme), s_bounded(score as int),
        RANGES ==> padds(old(ranges).ranges@, ranges.ranges@, old(ranges).initial_len as int, cs, pos, n),
    decreases t - i
@proof before let mut score
    assert(p.subrange(0, n) =~= p);
    assert(p.subrange(0, n).subrange(1, n) =~= p.subrange(1, n));
@proof loop 0 head
    proof {
        gpos_mono(e, p, cs, s, j, n - 1);
        next_at_is(e, p[j], cs, i);
    }
@proof after let candidate_ch = vx_e0;
    assert(cs.subrange(i, t).subrange(1, t - i) =~= cs.subrange(i + 1, t));
    assert(candidate_ch == cs[i]);
    proof { boff_mono(cs, 0, i + 1); bonus_bound(cs, i, *scheme, scheme.initial_char_class); }
    let ghost rg = ranges.ranges@;
@proof before is_in_gap = false
    proof {
        assert(pos[j] == i);
        assert(j > 0 ==> i - pos[j - 1] - 1 >= 0);
        assert(score == align_score(cs, pos, j + 1, *scheme));
        if RANGES { padds_step(old(ranges).ranges@, rg, ranges.ranges@, ranges.initial_len as int, cs, pos, j); }
        j = j + 1;
        assert(p.subrange(j, n).len() == n - j);
        if j < n { assert(p.subrange(j, n).subrange(1, n - j) =~= p.subrange(j + 1, n)); }
    }
@proof loop 0 tail
    proof { i = i + 1; }

@@ prelude
pub assume_specification<T: Clone> [<Range<T> as Clone>::clone] (r: &Range<T>) -> (o: Range<T>)
    ensures cloned(r.start, o.start), cloned(r.end, o.end);
/// p occurs in cs at offset s
pub open spec fn occ(e: VxCharEq, p: Seq<char>, cs: Seq<char>, s: int) -> bool {
    0 <= s && s + p.len() <= cs.len() && forall|k: int| 0 <= k < p.len() ==> e.eqv(#[trigger] p[k], cs[s + k])
}
pub open spec fn obonus(cs: Seq<char>, s: int, sc: Scheme) -> int { bonus_at(cs, s, sc, sc.initial_char_class) }
/// the occurrence an exact term is matched at (C02)
pub open spec fn best_occ(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme, s: int) -> bool {
    &&& occ(e, p, cs, s)
    &&& if obonus(cs, s, sc) >= 8 {
            forall|t: int| t < s && #[trigger] occ(e, p, cs, t) ==> obonus(cs, t, sc) < 8
        } else {
            forall|t: int| #[trigger] occ(e, p, cs, t) ==> obonus(cs, t, sc) < 8 && obonus(cs, t, sc) <= obonus(cs, s, sc)
                && (t < s ==> obonus(cs, t, sc) < obonus(cs, s, sc))
        }
}
pub open spec fn s_exact(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme) -> Option<int> {
    if exists|s: int| best_occ(e, p, cs, sc, s) { Some(choose|s: int| best_occ(e, p, cs, sc, s)) } else { None }
}
/// there is one best occurrence at most
pub proof fn best_occ_unique(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme, s: int, t: int)
    requires best_occ(e, p, cs, sc, s), best_occ(e, p, cs, sc, t)
    ensures s == t
{}
/// where a prefix term is matched (C03)
pub open spec fn s_prefix(e: VxCharEq, p: Seq<char>, cs: Seq<char>) -> Option<int> {
    let s = n_lead(cs) - n_lead(p);
    if occ(e, p, cs, s) { Some(s) } else { None }
}
/// where a suffix term is matched (C03)
pub open spec fn s_suffix(e: VxCharEq, p: Seq<char>, cs: Seq<char>) -> Option<int> {
    let t = cs.len() - (n_trail(cs) - n_trail(p));
    if t <= cs.len() && occ(e, p, cs, t - p.len()) { Some(t - p.len()) } else { None }
}
/// where an equality term is matched (C03)
pub open spec fn s_equal(e: VxCharEq, p: Seq<char>, cs: Seq<char>) -> Option<int> {
    let s = n_lead(cs) - n_lead(p);
    let t = cs.len() - (n_trail(cs) - n_trail(p));
    if t <= cs.len() && s + p.len() == t && occ(e, p, cs, s) { Some(s) } else { None }
}
/// the n offsets from s on
pub open spec fn span(s: int, n: int) -> Seq<int> { Seq::new(n as nat, |k: int| s + k) }
/// an occurrence is the leftmost alignment from its start on
pub proof fn occ_greedy_at(e: VxCharEq, p: Seq<char>, cs: Seq<char>, s: int, k: int)
    requires occ(e, p, cs, s), -1 <= k < p.len()
    ensures gpos(e, p, cs, s, k) == s + k
    decreases k + 1
{
    if k >= 0 { occ_greedy_at(e, p, cs, s, k - 1); }
}
pub proof fn occ_greedy(e: VxCharEq, p: Seq<char>, cs: Seq<char>, s: int)
    requires occ(e, p, cs, s), p.len() > 0
    ensures greedy(e, p, cs, s) == span(s, p.len() as int), gpos(e, p, cs, s, p.len() - 1) == s + p.len() - 1,
        boff(cs, s) < boff(cs, s + p.len()), e.eqv(p[0], cs[s])
{
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] gpos(e, p, cs, s, k) == s + k by { occ_greedy_at(e, p, cs, s, k); }
    assert(greedy(e, p, cs, s) =~= span(s, p.len() as int));
    boff_mono(cs, s, s + p.len());
    assert(p[0] == p[0] && cs[s] == cs[s + 0]);
}
/// byte x of cs[s..s+n] belongs to one of its chars
pub proof fn span_at(cs: Seq<char>, s: int, n: int, x: int) -> (k: int)
    requires 0 <= s, 0 < n, s + n <= cs.len(), boff(cs, s) <= x < boff(cs, s + n)
    ensures 0 <= k < n, boff(cs, s + k) <= x < boff(cs, s + k + 1)
    decreases n
{
    if x >= boff(cs, s + n - 1) { n - 1 } else { span_at(cs, s, n - 1, x) }
}
pub proof fn span_adds(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, cs: Seq<char>, s: int, n: int)
    requires 0 <= s, 0 < n, s + n <= cs.len(), adds(r0, r1, from, boff(cs, s), boff(cs, s + n))
    ensures padds(r0, r1, from, cs, span(s, n), n)
{
    assert forall|x: int| #[trigger] covers(r1, from, x) <==> (covers(r0, from, x) || pcov(cs, span(s, n), n, x)) by {
        if boff(cs, s) <= x < boff(cs, s + n) {
            let k = span_at(cs, s, n, x);
            assert(span(s, n)[k] == s + k);
            assert(pcov(cs, span(s, n), n, x));
        }
        if pcov(cs, span(s, n), n, x) {
            let k = choose|k: int| 0 <= k < n && boff(cs, #[trigger] span(s, n)[k]) <= x < boff(cs, span(s, n)[k] + 1);
            boff_mono(cs, s, s + k);
            boff_mono(cs, s + k + 1, s + n);
        }
    }
}
/// what a term matched at offset m makes of score and ranges
pub open spec fn at_span(m: Option<int>, r: Option<i64>, n: int, cs: Seq<char>, sc: Scheme) -> bool {
    match m {
        Some(s) => r is Some && r->0 == align_score(cs, span(s, n), n, sc),
        None => r is None,
    }
}
/// what is left of cs from i on, with the offsets counted from c
pub open spec fn enum_from(cs: Seq<char>, i: int, c: int) -> Seq<(usize, char)> {
    Seq::new((cs.len() - i) as nat, |k: int| ((i - c + k) as usize, cs[i + k]))
}

@@ fn metrics::fzf::fzf::exact_match
@contract
    requires pattern.wf(), pattern.text@.len() > 0, candidate.wf(), sc_wf(*scheme), old(ranges).wf()
    ensures
        vx_r is Some <==> exists|s: int| occ(char_eq, pattern.text@, candidate.v(), s), //[C02]
        at_span(s_exact(char_eq, pattern.text@, candidate.v(), *scheme), vx_r, pattern.text@.len() as int, candidate.v(), *scheme), //[C02,C11]
        vx_r is Some ==> s_bounded(vx_r->0 as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES && vx_r is Some ==> padds(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(),
            span(s_exact(char_eq, pattern.text@, candidate.v(), *scheme)->0, pattern.text@.len() as int), pattern.text@.len() as int), //[C02,C08]
        !RANGES || vx_r is None ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]
@proof start
    let ghost e = char_eq;
    let ghost p = pattern.text@;
    let ghost n = p.len() as int;
    let ghost cs = candidate.v();
    let ghost len = cs.len() as int;
    let ghost sc = *scheme;
@loop 0
    invariant_except_break
        start_offset <= len,
        !matched ==> best_bonus == -1 && forall|s: int| s < start_offset ==> !#[trigger] occ(e, p, cs, s),
        matched ==> best_bonus < 8,
        matched ==> forall|s: int| s < start_offset && #[trigger] occ(e, p, cs, s) ==> obonus(cs, s, sc) <= best_bonus
                && (s < best_bonus_char_start ==> obonus(cs, s, sc) < best_bonus),
    invariant
        e == char_eq, cs == candidate.v(), len == cs.len(), p == pattern.text@, n == p.len(), n > 0, sc == *scheme, sc_wf(sc), candidate.wf(), pattern.wf(),
        ranges.same(*old(ranges)), ranges.wf(),
        matched ==> occ(e, p, cs, best_bonus_char_start as int) && best_bonus_char_end == best_bonus_char_start + n
            && best_bonus == obonus(cs, best_bonus_char_start as int, sc) && best_bonus_char_start < start_offset,
    ensures
        !matched ==> forall|s: int| !#[trigger] occ(e, p, cs, s),
        matched ==> best_occ(e, p, cs, sc, best_bonus_char_start as int),
    decreases len - start_offset
@proof before let mut chars
    let ghost c = start_offset as int;
    let ghost mut i = c;
@proof after let mut chars
    assert(chars.rem() =~= enum_from(cs, c, c));
@loop 1
    invariant_except_break
        c <= i <= len, 0 <= pattern_char_idx < n,
        chars.rem() == enum_from(cs, i, c),
        prev_class == s_prev(cs, i, sc, sc.initial_char_class),
        pattern_char_idx == 0 ==> start_offset == c && none_eq(e, p[0], cs, c, i),
        pattern_char_idx > 0 ==> {
            &&& c <= bonus_start < i
            &&& i == bonus_start + pattern_char_idx
            &&& start_offset == bonus_start + 1
            &&& none_eq(e, p[0], cs, c, bonus_start as int)
            &&& forall|k: int| 0 <= k < pattern_char_idx ==> e.eqv(#[trigger] p[k], cs[bonus_start + k])
            &&& current_bonus == obonus(cs, bonus_start as int, sc)
        },
        // nothing new was matched
        !matched ==> best_bonus == -1 && forall|s: int| s < c ==> !#[trigger] occ(e, p, cs, s),
        matched ==> best_bonus < 8,
        matched ==> forall|s: int| s < c && #[trigger] occ(e, p, cs, s) ==> obonus(cs, s, sc) <= best_bonus
                && (s < best_bonus_char_start ==> obonus(cs, s, sc) < best_bonus),
        matched ==> best_bonus_char_start < c,
    invariant
        e == char_eq, cs == candidate.v(), len == cs.len(), p == pattern.text@, n == p.len(), n > 0, sc == *scheme, sc_wf(sc), pattern.wf(), candidate.wf(),
        c <= len, c == current_start_offset, len <= MAXLEN, chars.wf(),
        ranges.same(*old(ranges)), ranges.wf(),
        matched ==> occ(e, p, cs, best_bonus_char_start as int) && best_bonus_char_end == best_bonus_char_start + n
            && best_bonus == obonus(cs, best_bonus_char_start as int, sc) && best_bonus_char_start < start_offset,
    ensures
        start_offset <= len, c <= start_offset, chars.wf(),
        !matched ==> best_bonus == -1 && forall|s: int| s < start_offset ==> !#[trigger] occ(e, p, cs, s),
        matched ==> best_bonus < 8,
        matched ==> forall|s: int| s < start_offset && #[trigger] occ(e, p, cs, s) ==> obonus(cs, s, sc) <= best_bonus
                && (s < best_bonus_char_start ==> obonus(cs, s, sc) < best_bonus),
        chars.rem().len() == 0 ==> forall|s: int| start_offset <= s ==> !#[trigger] occ(e, p, cs, s),
        chars.rem().len() > 0 ==> start_offset > c,
    decreases len - i
@proof loop 1 head
    proof {
        // what a start before the first char that matches p[0] would mean
        assert forall|s: int| #[trigger] occ(e, p, cs, s) implies e.eqv(p[0], cs[s]) && s + n <= len by { assert(cs[s + 0] == cs[s]); assert(p[0] == p[0]); }
    }
@proof after let (char_offset, candidate_ch) = vx_e0;
    assert(chars.rem() =~= enum_from(cs, i + 1, c));
    assert(candidate_ch == cs[i] && char_offset == i - c);
    proof {
        if pattern_char_idx > 0 && !e.eqv(p[pattern_char_idx as int], cs[i]) {
            assert(!occ(e, p, cs, bonus_start as int)) by { assert(cs[bonus_start + pattern_char_idx] == cs[i]); }
        }
        bonus_bound(cs, i, sc, sc.initial_char_class);
        i = i + 1;
    }
@proof before if current_bonus >= bonus::BOUNDARY
    assert(occ(e, p, cs, bonus_start as int));
@proof after let matched_range
    proof {
        best_occ_unique_all(e, p, cs, sc, best_bonus_char_start as int);
        occ_greedy(e, p, cs, best_bonus_char_start as int);
    }
@proof before Some(score) #0
    proof { if RANGES { span_adds(old(ranges).ranges@, ranges.ranges@, ranges.initial_len as int, cs, best_bonus_char_start as int, n); } }

@@ prelude
pub proof fn best_occ_unique_all(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme, s: int)
    requires best_occ(e, p, cs, sc, s)
    ensures s_exact(e, p, cs, sc) == Some(s)
{
    best_occ_unique(e, p, cs, sc, s, choose|t: int| best_occ(e, p, cs, sc, t));
}

@@ fn metrics::fzf::fzf::prefix_match
@contract
    requires pattern.wf(), pattern.text@.len() > 0, candidate.wf(), sc_wf(*scheme), old(ranges).wf()
    ensures
        at_span(s_prefix(char_eq, pattern.text@, candidate.v()), vx_r, pattern.text@.len() as int, candidate.v(), *scheme), //[C03,C11]
        vx_r is Some ==> s_bounded(vx_r->0 as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES && vx_r is Some ==> padds(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(),
            span(s_prefix(char_eq, pattern.text@, candidate.v())->0, pattern.text@.len() as int), pattern.text@.len() as int), //[C03,C08]
        !RANGES || vx_r is None ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]
@proof start
    let ghost e = char_eq;
    let ghost p = pattern.text@;
    let ghost n = p.len() as int;
    let ghost cs = candidate.v();
    let ghost len = cs.len() as int;
    let ghost mut k: int = 0;
    assert(p.subrange(0, n) =~= p);
@loop 0
    invariant_except_break
        0 <= k <= n, s + k <= len,
        vx_it0.rem() == cs.subrange(s + k, len),
    invariant
        e == char_eq, cs == candidate.v(), len == cs.len(), p == pattern.text@, n == p.len(),
        0 <= s <= len, s == n_lead(cs) - n_lead(p), vx_it0.wf(), pattern_chars.wf(),
        ranges.same(*old(ranges)), ranges.wf(),
        0 <= k <= n,
        pattern_chars.rem() == p.subrange(k, n),
        forall|j: int| 0 <= j < k ==> e.eqv(#[trigger] p[j], cs[s + j]),
    ensures k == n && s + k <= len || s + k == len
    decreases len - (s + k)
@proof before let mut vx_it0
    let ghost s = ignored_leading_spaces as int;
    assert(cs.subrange(s, len).len() == len - s);
@proof after let pattern_ch = vx_e1;
    assert(cs.subrange(s + k, len).subrange(1, len - s - k) =~= cs.subrange(s + k + 1, len));
    assert(p.subrange(k, n).subrange(1, n - k) =~= p.subrange(k + 1, n));
    assert(pattern_ch == p[k] && candidate_ch == cs[s + k]);
    proof { k = k + 1; }
@proof before let matched_range
    proof { occ_greedy(e, p, cs, s); }
@proof before Some(score) #0
    proof { if RANGES { span_adds(old(ranges).ranges@, ranges.ranges@, ranges.initial_len as int, cs, s, n); } }

@@ fn metrics::fzf::fzf::ignored_candidate_leading_spaces
@contract
    requires pattern.wf(), candidate.wf()
    ensures match vx_r { Some(k) => k == n_lead(candidate.v()) - n_lead(pattern.text@) && k <= candidate.v().len(),
                         None => n_lead(candidate.v()) < n_lead(pattern.text@) }
@proof start
    proof { n_lead_bound(candidate.v()); n_lead_bound(pattern.text@); }
@proof after let candidate_leading_spaces
    proof { n_lead_is(candidate.v(), candidate_leading_spaces as int); }

@@ fn metrics::fzf::fzf::ignored_candidate_trailing_spaces
@contract
    requires pattern.wf(), candidate.wf()
    ensures match vx_r { Some(k) => k == n_trail(candidate.v()) - n_trail(pattern.text@) && k <= candidate.v().len(),
                         None => n_trail(candidate.v()) < n_trail(pattern.text@) }
@proof start
    proof { n_trail_bound(candidate.v()); n_trail_bound(pattern.text@); }
@proof after let candidate_trailing_spaces
    proof { n_trail_is(candidate.v(), candidate_trailing_spaces as int); }

@@ fn metrics::fzf::fzf::suffix_match
@contract
    requires pattern.wf(), pattern.text@.len() > 0, candidate.wf(), sc_wf(*scheme), old(ranges).wf()
    ensures
        at_span(s_suffix(char_eq, pattern.text@, candidate.v()), vx_r, pattern.text@.len() as int, candidate.v(), *scheme), //[C03,C11]
        vx_r is Some ==> s_bounded(vx_r->0 as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES && vx_r is Some ==> padds(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(),
            span(s_suffix(char_eq, pattern.text@, candidate.v())->0, pattern.text@.len() as int), pattern.text@.len() as int), //[C03,C08]
        !RANGES || vx_r is None ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]
@proof start
    let ghost e = char_eq;
    let ghost p = pattern.text@;
    let ghost n = p.len() as int;
    let ghost cs = candidate.v();
    let ghost len = cs.len() as int;
    let ghost mut k: int = 0;
    assert(p.subrange(0, n) =~= p);
@loop 0
    invariant_except_break
        0 <= k <= n, 0 <= t - k,
        vx_it0.rem() == cs.subrange(0, t - k),
    invariant
        e == char_eq, cs == candidate.v(), len == cs.len(), p == pattern.text@, n == p.len(),
        t == len - (n_trail(cs) - n_trail(p)), t <= len, vx_it0.wf(), pattern_chars.wf(),
        ranges.same(*old(ranges)), ranges.wf(),
        0 <= k <= n,
        pattern_chars.rem() == p.subrange(0, n - k).reverse(),
        forall|j: int| n - k <= j < n ==> e.eqv(#[trigger] p[j], cs[t - n + j]),
    ensures k == n && k <= t || t == k
    decreases t - k
@proof before let mut vx_it0
    let ghost t = chars_up_to_ignored_spaces as int;
    assert(cs.subrange(0, t).subrange(0, t) =~= cs.subrange(0, t));
@proof after let pattern_ch = vx_e1;
    assert(cs.subrange(0, t - k).drop_last() =~= cs.subrange(0, t - k - 1));
    assert(p.subrange(0, n - k).reverse().subrange(1, n - k) =~= p.subrange(0, n - k - 1).reverse());
    assert(pattern_ch == p[n - k - 1] && candidate_ch == cs[t - k - 1]);
    proof { k = k + 1; }
@proof before let matched_range
    proof { occ_greedy(e, p, cs, t - n); }
@proof before Some(score) #0
    proof { if RANGES { span_adds(old(ranges).ranges@, ranges.ranges@, ranges.initial_len as int, cs, t - n, n); } }

@@ fn metrics::fzf::fzf::equal_match
@contract
    requires pattern.wf(), pattern.text@.len() > 0, candidate.wf(), sc_wf(*scheme), old(ranges).wf()
    ensures
        at_span(s_equal(char_eq, pattern.text@, candidate.v()), vx_r, pattern.text@.len() as int, candidate.v(), *scheme), //[C03,C11]
        vx_r is Some ==> s_bounded(vx_r->0 as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES && vx_r is Some ==> padds(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(),
            span(s_equal(char_eq, pattern.text@, candidate.v())->0, pattern.text@.len() as int), pattern.text@.len() as int), //[C03,C08]
        !RANGES || vx_r is None ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]
@proof start
    let ghost e = char_eq;
    let ghost p = pattern.text@;
    let ghost n = p.len() as int;
    let ghost cs = candidate.v();
    let ghost len = cs.len() as int;
    let ghost mut k: int = 0;
    assert(p.subrange(0, n) =~= p);
@loop 0
    invariant_except_break
        candidate_chars.rem() == cs.subrange(s + k, t),
    invariant
        0 <= k <= n, 0 <= s <= s + k <= t,
        e == char_eq, cs == candidate.v(), len == cs.len(), p == pattern.text@, n == p.len(),
        s == n_lead(cs) - n_lead(p), t == len - (n_trail(cs) - n_trail(p)), t <= len, candidate_chars.wf(), pattern_chars.wf(),
        ranges.same(*old(ranges)), ranges.wf(), t - s >= n,
        k < n ==> candidate_chars.rem().len() > 0,
        k == n ==> candidate_chars.rem().len() == t - s - n,
        pattern_chars.rem() == p.subrange(k, n),
        forall|j: int| 0 <= j < k ==> e.eqv(#[trigger] p[j], cs[s + j]),
    ensures k == n
    decreases n - k
@proof before let mut pattern_chars
    let ghost s = matched_char_range.start as int;
    let ghost t = matched_char_range.end as int;
@proof loop 0 before
    assert(cs.subrange(s, t).subrange(0, t - s) =~= cs.subrange(s, t));
@proof after let candidate_ch = vx_e1;
    assert(cs.subrange(s + k, t).subrange(1, t - s - k) =~= cs.subrange(s + k + 1, t));
    assert(p.subrange(k, n).subrange(1, n - k) =~= p.subrange(k + 1, n));
    assert(pattern_ch == p[k] && candidate_ch == cs[s + k]);
    proof { k = k + 1; }
@proof before let score
    proof { occ_greedy(e, p, cs, s); }
@proof before Some(score) #0
    proof { if RANGES { span_adds(old(ranges).ranges@, ranges.ranges@, ranges.initial_len as int, cs, s, n); } }
