@@ # What a query matches, and how it scores: the meaning of the trait Fzf.
@@ prelude
// ---------------------------------------------------------------- FzfV1
/// last offset before `hi` whose char matches `c`; -1 if there is none
pub open spec fn prev_at(e: VxCharEq, c: char, cs: Seq<char>, hi: int) -> int
    decreases hi
{
    if hi <= 0 || hi > cs.len() { -1 } else if e.eqv(c, cs[hi - 1]) { hi - 1 } else { prev_at(e, c, cs, hi - 1) }
}
/// offset of the k-th char of p in its rightmost alignment before `end`
pub open spec fn rpos(e: VxCharEq, p: Seq<char>, cs: Seq<char>, end: int, k: int) -> int
    decreases p.len() - k
{
    if k >= p.len() { end } else { prev_at(e, p[k], cs, rpos(e, p, cs, end, k + 1)) }
}
/// FzfV1: the window ends as early as possible, and starts as late as it still can (C12)
pub open spec fn v1_start(e: VxCharEq, p: Seq<char>, cs: Seq<char>) -> int {
    rpos(e, p, cs, gpos(e, p, cs, 0, p.len() - 1) + 1, 0)
}
pub open spec fn s_v1(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme) -> Option<(int, Seq<int>)> {
    if gpos(e, p, cs, 0, p.len() - 1) >= cs.len() { None }
    else {
        let pos = greedy(e, p, cs, v1_start(e, p, cs));
        Some((align_score(cs, pos, p.len() as int, sc), pos))
    }
}
// ---------------------------------------------------------------- FzfV2
/// what the dynamic program works on: the pattern, the part of the candidate
/// from the first offset its first char matches at to the last one its last
/// char matches at, the class of the char before it, and the first offset
/// each char of the pattern can be matched at
pub struct Dp { pub e: VxCharEq, pub p: Seq<char>, pub t: Seq<char>, pub f: Seq<int>, pub sc: Scheme, pub init: CharClass }
/// score, length of the run that ends here, whether the next char continues a gap
pub struct DpCell { pub h: int, pub c: int, pub g: bool }
impl Dp {
    pub open spec fn hit(self, i: int, j: int) -> bool { self.e.eqv(self.p[i], self.t[j]) }
    pub open spec fn b(self, j: int) -> int { bonus_at(self.t, j, self.sc, self.init) }
    pub open spec fn m(self) -> int { self.p.len() as int }
    pub open spec fn w(self) -> int { self.t.len() as int }
    /// a cell of fzf's scoring matrix, from the one to its left and the one up left of it (C13)
    pub open spec fn step(self, i: int, j: int, left: DpCell, up: DpCell) -> DpCell {
        let skip = left.h - (if left.g { 1int } else { 3int });
        if !self.hit(i, j) { DpCell { h: imax(skip, 0), c: 0, g: true } }
        else if i == 0 { DpCell { h: 16 + 2 * self.b(j), c: 1, g: false } }
        else {
            let run = up.c + 1;
            let fb = self.b(j + 1 - run);
            let fresh = run > 1 && self.b(j) >= 8 && self.b(j) > fb;
            let bonus = if run > 1 && !fresh { imax(imax(4, fb), self.b(j)) } else { self.b(j) };
            if up.h + 16 + bonus < skip {
                let h = up.h + 16 + self.b(j);
                DpCell { h: imax(h, skip), c: 0, g: h < skip }
            } else {
                DpCell { h: imax(up.h + 16 + bonus, skip), c: if fresh { 1 } else { run }, g: false }
            }
        }
    }
    pub open spec fn at(self, i: int, j: int) -> DpCell
        decreases i + 1, j + 1
    {
        if i < 0 || j < 0 || j < self.f[i] { DpCell { h: 0, c: 0, g: false } }
        else { self.step(i, j, self.at(i, j - 1), self.at(i - 1, j - 1)) }
    }
    /// the highest score of the first n cells of the last row, and the leftmost cell that has it (C13)
    pub open spec fn best(self, n: int) -> (int, int)
        decreases n
    {
        if n <= 0 { (0, 0) }
        else {
            let r = self.best(n - 1);
            let i = self.m() - 1;
            if n - 1 >= self.f[i] && self.hit(i, n - 1) && self.at(i, n - 1).h > r.0 { (self.at(i, n - 1).h, n - 1) } else { r }
        }
    }
    /// whether the char at j is taken as the i-th one
    pub open spec fn takes(self, i: int, j: int, prefer: bool) -> bool {
        let h = self.at(i, j).h;
        let up = self.at(i - 1, j - 1).h;
        let left = self.at(i, j - 1).h;
        h > up && (h > left || h == left && prefer)
    }
    pub open spec fn prefers(self, i: int, j: int) -> bool {
        self.at(i, j).c > 1 || (i + 1 < self.m() && j + 1 < self.w() && self.at(i + 1, j + 1).c > 0)
    }
    /// the offsets of the chars up to the i-th one, going back from cell (i, j)
    pub open spec fn trace(self, i: int, j: int, prefer: bool) -> Seq<int>
        decreases j + 1
    {
        if i < 0 || j < 0 { Seq::empty() }
        else if self.takes(i, j, prefer) { self.trace(i - 1, j - 1, self.prefers(i, j)).push(j) }
        else { self.trace(i, j - 1, self.prefers(i, j)) }
    }
}
/// last offset of the last char of p
pub open spec fn v2_last(e: VxCharEq, p: Seq<char>, cs: Seq<char>) -> int { prev_at(e, p.last(), cs, cs.len() as int) }
pub open spec fn v2_dp(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme) -> Dp {
    let a = gpos(e, p, cs, 0, 0);
    Dp { e, p, t: cs.subrange(a, v2_last(e, p, cs) + 1), sc, init: s_prev(cs, a, sc, sc.initial_char_class),
         f: Seq::new(p.len(), |k: int| gpos(e, p, cs, 0, k) - a) }
}
pub open spec fn shift(s: Seq<int>, d: int) -> Seq<int> { Seq::new(s.len(), |k: int| s[k] + d) }
/// the best of the first n chars of cs for a pattern of one char, leftmost on ties (C13)
pub open spec fn best_one(e: VxCharEq, c: char, cs: Seq<char>, sc: Scheme, n: int) -> (int, int)
    decreases n
{
    if n <= 0 { (0, 0) }
    else {
        let r = best_one(e, c, cs, sc, n - 1);
        let h = 16 + 2 * bonus_at(cs, n - 1, sc, sc.initial_char_class);
        if e.eqv(c, cs[n - 1]) && h > r.0 { (h, n - 1) } else { r }
    }
}
pub open spec fn s_v2(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme) -> Option<(int, Seq<int>)> {
    if gpos(e, p, cs, 0, p.len() - 1) >= cs.len() { None }
    else if p.len() == 1 {
        let r = best_one(e, p[0], cs, sc, cs.len() as int);
        Some((r.0, seq![r.1]))
    } else {
        let dp = v2_dp(e, p, cs, sc);
        let r = dp.best(dp.w());
        Some((r.0, shift(dp.trace(dp.m() - 1, r.1, true), gpos(e, p, cs, 0, 0))))
    }
}
// ---------------------------------------------------------------- terms and queries
/// the settings of a metric, and which one it is
pub struct Cfg { pub v2: bool, pub case: CaseSensitivity, pub norm: bool, pub scheme: Scheme }
/// whether a term is matched case sensitively (C15)
pub open spec fn s_case(c: CaseSensitivity, up: bool) -> bool {
    match c { CaseSensitivity::Sensitive => true, CaseSensitivity::Insensitive => false, CaseSensitivity::Smart => up }
}
impl Cfg {
    /// which chars are equal in a term with or without uppercase letters (C15, C16)
    pub open spec fn eq(self, up: bool) -> VxCharEq { VxCharEq::of(s_case(self.case, up), self.norm) }
}
pub open spec fn s_fuzzy(cfg: Cfg, p: Seq<char>, cs: Seq<char>) -> Option<(int, Seq<int>)> {
    let e = cfg.eq(has_up(p));
    if cfg.v2 { s_v2(e, p, cs, cfg.scheme) } else { s_v1(e, p, cs, cfg.scheme) }
}
pub open spec fn spanned(m: Option<int>, n: int, cs: Seq<char>, sc: Scheme) -> Option<(int, Seq<int>)> {
    match m { Some(s) => Some((align_score(cs, span(s, n), n, sc), span(s, n))), None => None }
}
/// the score of a term without its negation, and the offsets of the chars it matches
pub open spec fn s_pos(cfg: Cfg, t: Term, cs: Seq<char>) -> Option<(int, Seq<int>)> {
    let e = cfg.eq(has_up(t.text));
    let n = t.text.len() as int;
    match t.kind {
        MatchType::Fuzzy => s_fuzzy(cfg, t.text, cs),
        MatchType::Exact => spanned(s_exact(e, t.text, cs, cfg.scheme), n, cs, cfg.scheme),
        MatchType::PrefixExact => spanned(s_prefix(e, t.text, cs), n, cs, cfg.scheme),
        MatchType::SuffixExact => spanned(s_suffix(e, t.text, cs), n, cs, cfg.scheme),
        MatchType::EqualExact => spanned(s_equal(e, t.text, cs), n, cs, cfg.scheme),
    }
}
pub open spec fn s_term(cfg: Cfg, t: Term, cs: Seq<char>) -> Option<(int, Seq<int>)> {
    if t.neg { if s_pos(cfg, t, cs) is None { Some((0, Seq::empty())) } else { None } } else { s_pos(cfg, t, cs) }
}
/// the first of ts[k..] that matches (C04)
pub open spec fn s_or(cfg: Cfg, ts: Seq<Term>, cs: Seq<char>, k: int) -> Option<(int, Seq<int>)>
    decreases ts.len() - k
{
    if k < 0 || k >= ts.len() { None }
    else if s_term(cfg, ts[k], cs) is Some { s_term(cfg, ts[k], cs) }
    else { s_or(cfg, ts, cs, k + 1) }
}
/// the first n conditions (C04)
pub open spec fn s_and(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, n: int) -> Option<(int, Seq<int>)>
    decreases n
{
    if n <= 0 { Some((0, Seq::empty())) }
    else {
        match (s_and(cfg, q, cs, n - 1), s_or(cfg, q[n - 1], cs, 0)) {
            (Some(a), Some(b)) => Some((a.0 + b.0, a.1 + b.1)),
            _ => None,
        }
    }
}
pub open spec fn s_query(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>) -> Option<(int, Seq<int>)> { s_and(cfg, q, cs, q.len() as int) }
/// whether r is the score of the match m
pub open spec fn scored(m: Option<(int, Seq<int>)>, r: Option<i64>) -> bool {
    match m { Some(x) => r == Some(x.0 as i64) && r->0 == x.0, None => r is None }
}
/// r1 covers what r0 covers and the bytes of the chars at pos
pub open spec fn marks(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, cs: Seq<char>, pos: Seq<int>) -> bool {
    padds(r0, r1, from, cs, pos, pos.len() as int)
}
pub proof fn marks_none(r0: Seq<Range<usize>>, from: int, cs: Seq<char>)
    ensures marks(r0, r0, from, cs, Seq::empty())
{}
pub proof fn marks_then(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, r2: Seq<Range<usize>>, from: int, cs: Seq<char>, a: Seq<int>, b: Seq<int>)
    requires marks(r0, r1, from, cs, a), marks(r1, r2, from, cs, b)
    ensures marks(r0, r2, from, cs, a + b)
{
    let c = a + b;
    assert forall|x: int| #[trigger] covers(r2, from, x) <==> (covers(r0, from, x) || pcov(cs, c, c.len() as int, x)) by {
        assert(covers(r2, from, x) <==> (covers(r1, from, x) || pcov(cs, b, b.len() as int, x)));
        if pcov(cs, a, a.len() as int, x) {
            let i = choose|i: int| 0 <= i < a.len() && boff(cs, #[trigger] a[i]) <= x < boff(cs, a[i] + 1);
            assert(c[i] == a[i]);
        }
        if pcov(cs, b, b.len() as int, x) {
            let i = choose|i: int| 0 <= i < b.len() && boff(cs, #[trigger] b[i]) <= x < boff(cs, b[i] + 1);
            assert(c[a.len() + i] == b[i]);
        }
        if pcov(cs, c, c.len() as int, x) {
            let i = choose|i: int| 0 <= i < c.len() && boff(cs, #[trigger] c[i]) <= x < boff(cs, c[i] + 1);
            if i < a.len() { assert(a[i] == c[i]); } else { assert(b[i - a.len()] == c[i]); }
        }
    }
}

@@ fn matched_ranges::MatchedRanges::clear
@contract
    requires old(self).initial_len <= old(self).ranges@.len()
    ensures final(self).initial_len == old(self).initial_len, *final(final(self).ranges) == *final(old(self).ranges),
        final(self).ranges@ == old(self).ranges@.subrange(0, old(self).initial_len as int) //[C07]

@@ trait-items metrics::fzf::fzf::Fzf
/// the settings
spec fn cfg(&self) -> Cfg;
/// the memory handed out by alloc_chars, whose lifetime the code extends: nobody may write to it while it is in use
spec fn held(&self) -> Seq<char>;

@@ fn metrics::fzf::fzf::Fzf::alloc_chars
@contract
    ensures vx_r@ == candidate@, //[C10]
        candidate@.len() <= final(self).held().len(), vx_r@ == final(self).held().subrange(0, candidate@.len() as int), //[C10,C17]
        final(self).cfg() == old(self).cfg(), //[C19]

@@ fn metrics::fzf::fzf::Fzf::char_eq
@contract
    ensures vx_r == self.cfg().eq(pattern.has_uppercase) //[C15,C16]

@@ fn metrics::fzf::fzf::Fzf::scheme
@contract
    ensures *vx_r == self.cfg().scheme //[C11,C19]

@@ fn metrics::fzf::fzf::Fzf::fuzzy
@contract
    requires sc_wf(old(self).cfg().scheme), pattern.wf(), pattern.text@.len() > 0, candidate.wf(), old(ranges).wf()
    ensures
        final(self).cfg() == old(self).cfg(), //[C19]
        final(self).held() == old(self).held(), //[C10,C17]
        scored(s_fuzzy(old(self).cfg(), pattern.text@, candidate.v()), vx_r), //[C01,C09,C10,C11,C12,C13,C15,C16]
        vx_r is Some ==> s_bounded(vx_r->0 as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES && vx_r is Some ==> marks(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(),
            (s_fuzzy(old(self).cfg(), pattern.text@, candidate.v())->0).1), //[C08,C12,C13]
        !RANGES || vx_r is None ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]

@@ fn metrics::fzf::fzf::Fzf::score
@contract
    requires sc_wf(old(self).cfg().scheme), pattern.wf(), pattern.text@.len() > 0, candidate.wf(), old(ranges).wf()
    ensures
        final(self).cfg() == old(self).cfg(), //[C19]
        final(self).held() == old(self).held(), //[C10,C17]
        scored(s_term(old(self).cfg(), pattern.term(), candidate.v()), vx_r), //[C01,C02,C03,C04,C09,C11,C15,C16]
        vx_r is Some ==> s_bounded(vx_r->0 as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES && vx_r is Some ==> marks(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(),
            (s_term(old(self).cfg(), pattern.term(), candidate.v())->0).1), //[C04,C08]
        !RANGES || vx_r is None ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]
@proof start
    proof {
        marks_none(ranges.ranges@, ranges.initial_len as int, candidate.v());
        // a term longer than the candidate does not match
        gpos_mono(self.cfg().eq(pattern.has_uppercase), pattern.text@, candidate.v(), 0, -1, pattern.text@.len() - 1);
    }

@@ fn metrics::fzf::fzf::Fzf::distance
@attr verifier::loop_isolation(false)
@attr verifier::allow_complex_invariants
@contract
    requires sc_wf(old(self).cfg().scheme), query.wf(), candidate@.len() <= MAXLEN
    ensures
        final(self).cfg() == old(self).cfg(), //[C19]
        scored(s_query(old(self).cfg(), query.conds(), candidate@), match vx_r { Some(d) => Some(d.0), None => None }), //[C01,C02,C03,C04,C09,C10,C11,C12,C13,C15,C16]
        same_prefix(old(ranges)@, final(ranges)@, old(ranges)@.len() as int), //[C07]
        rwf(final(ranges)@, old(ranges)@.len() as int), //[C07]
        !RANGES || vx_r is None ==> final(ranges)@ == old(ranges)@, //[C07,C08,C09]
        RANGES && vx_r is Some ==> marks(old(ranges)@, final(ranges)@, old(ranges)@.len() as int, candidate@,
            (s_query(old(self).cfg(), query.conds(), candidate@)->0).1), //[C08,C12,C13]
@proof start
    let ghost r0 = ranges@;
    let ghost n = r0.len() as int;
    let ghost cs = candidate@;
    let ghost c = self.cfg();
    let ghost q = query.conds();
    proof {
        if let SearchMode::NotExtended(p) = query.search_mode { if q.len() > 0 { assert(q[0][0] == p.term()); s_and_one(c, p.term(), cs); } }
        marks_none(r0, n, cs);
        ascii_utf8(cs);
    }
@proof before let ranges
    assert(candidate.v() =~= cs);
@proof after let ranges
    let ghost mr0 = *ranges;
    let ghost h0 = self.held();
@loop 0
    invariant
        vx_it0.s@ == conditions@, vx_it0.hi == conditions@.len(), vx_it0.wf(), conditions@.len() <= MAXLEN,
        forall|i: int| 0 <= i < conditions@.len() ==> (#[trigger] conditions@[i]).wf(),
        q == conds_of(conditions@), q == query.conds(), n == r0.len(), candidate.v() == cs, candidate.wf(),
        self.cfg() == c, sc_wf(c.scheme), c == old(self).cfg(), self.held() == h0,
        ranges.wf(), ranges.kept(mr0), !RANGES ==> ranges.same(mr0), mr0.ranges@ == r0, mr0.initial_len == n,
        s_and(c, q, cs, vx_it0.lo as int) is Some, total_score == (s_and(c, q, cs, vx_it0.lo as int)->0).0,
        -0x4_0000_0000 * vx_it0.lo <= total_score <= 0x4_0000_0000 * vx_it0.lo,
        RANGES ==> marks(r0, ranges.ranges@, n, cs, (s_and(c, q, cs, vx_it0.lo as int)->0).1),
    ensures vx_it0.lo == conditions@.len(),
    decreases vx_it0.hi - vx_it0.lo
@proof after let condition
    let ghost k = vx_it0.lo - 1;
    let ghost ts = q[k];
    let ghost a = s_and(c, q, cs, k)->0;
    let ghost r1 = ranges.ranges@;
    let ghost mut j: int = 0;
    assert(ts == condition.terms());
    let ghost ps = condition.or_patterns@;
@loop 1
    invariant_except_break
        vx_acc2 is None, 0 <= j <= ps.len(), vx_it1.rem() == ps.subrange(j, ps.len() as int),
        s_or(c, ts, cs, 0) == s_or(c, ts, cs, j),
        ranges.ranges@ == r1,
    invariant
        vx_it1.wf(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).wf() && ps[i].text@.len() > 0,
        ts.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> ts[i] == (#[trigger] ps[i]).term(),
        candidate.v() == cs, candidate.wf(),
        self.cfg() == c, sc_wf(c.scheme), self.held() == h0,
        ranges.wf(), ranges.kept(mr0), !RANGES ==> ranges.same(mr0), mr0.initial_len == n,
    ensures
        scored(s_or(c, ts, cs, 0), vx_acc2), vx_acc2 is Some ==> s_bounded(vx_acc2->0 as int),
        RANGES && vx_acc2 is Some ==> marks(r1, ranges.ranges@, n, cs, (s_or(c, ts, cs, 0)->0).1),
    decreases ps.len() - j
@proof after let pattern
    assert(ps.subrange(j, ps.len() as int).subrange(1, ps.len() - j) =~= ps.subrange(j + 1, ps.len() as int));
    assert(pattern == ps[j]);
@proof before if vx_acc2.is_some()
    proof { j = j + 1; }
@proof before ranges.clear
    proof { s_and_none(c, q, cs, k + 1, q.len() as int); }
@proof after ranges.clear
    assert(ranges.ranges@ =~= r0);
@proof after total_score +=
    proof { if RANGES { marks_then(r0, r1, ranges.ranges@, n, cs, a.1, (s_or(c, ts, cs, 0)->0).1); } }

@@ prelude
pub proof fn s_and_none(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, k: int, n: int)
    requires k <= n, s_and(cfg, q, cs, k) is None
    ensures s_and(cfg, q, cs, n) is None
    decreases n - k
{
    if k < n { s_and_none(cfg, q, cs, k, n - 1); }
}
pub proof fn s_and_one(cfg: Cfg, t: Term, cs: Seq<char>)
    requires !t.neg, t.kind is Fuzzy
    ensures ({
        let r = s_query(cfg, seq![seq![t]], cs);
        let f = s_fuzzy(cfg, t.text, cs);
        match f { Some(x) => r is Some && (r->0).0 == x.0 && (r->0).1 =~= x.1, None => r is None }
    })
{
    reveal_with_fuel(s_and, 2);
    reveal_with_fuel(s_or, 2);
}
pub proof fn ascii_utf8(cs: Seq<char>)
    ensures is_ascii_chars(cs) ==> asc(encode_utf8(cs)) == cs && forall|i: int| 0 <= i < cs.len() ==> #[trigger] encode_utf8(cs)[i] < 128
{
    if is_ascii_chars(cs) {
        is_ascii_chars_encode_utf8(cs);
        assert(asc(encode_utf8(cs)) =~= cs);
    }
}
