@@ impl-items metrics::fzf::fzf_v2::FzfV2 as Fzf
open spec fn held(&self) -> Seq<char> { self.candidate_slab.chars@ }
open spec fn cfg(&self) -> Cfg { Cfg { v2: true, case: self.case_sensitivity, norm: self.candidate_normalization, scheme: self.scoring_scheme } }

@@ prelude
pub use crate::metrics::fzf::candidate::CandidateV2;
impl Dp {
    pub open spec fn wf(self) -> bool {
        &&& sc_wf(self.sc)
        &&& 1 <= self.m() <= MAXLEN
        &&& 1 <= self.w() <= MAXLEN
        &&& self.f.len() == self.m()
        &&& self.f[0] == 0
        &&& forall|k: int| 0 <= k < self.m() ==> 0 <= #[trigger] self.f[k] < self.w() && self.hit(k, self.f[k])
        &&& forall|j: int, k: int| 0 <= j < k < self.m() ==> #[trigger] self.f[j] < #[trigger] self.f[k]
    }
    /// penalty for skipping the char after (i, j)
    pub open spec fn pen(self, i: int, j: int) -> int { if self.at(i, j).g { 1 } else { 3 } }
}
pub open spec fn dp_of(p: Seq<char>, c: CandidateV2, sc: Scheme, f: Seq<usize>) -> Dp {
    Dp { e: c.opts.char_eq, p, t: c.base.v(), f: Seq::new(f.len(), |k: int| f[k] as int), sc, init: c.initial_char_class }
}
pub open spec fn dp_row(ch: char, c: CandidateV2, sc: Scheme) -> Dp {
    Dp { e: c.opts.char_eq, p: seq![ch], t: c.base.v(), f: seq![0int], sc, init: c.initial_char_class }
}
/// the first row depends on the first char of the pattern only
pub proof fn dp_row_same(a: Dp, b: Dp, j: int)
    requires a.e == b.e, a.p[0] == b.p[0], a.t == b.t, a.f[0] == b.f[0], a.sc == b.sc, a.init == b.init
    ensures a.at(0, j) == b.at(0, j)
    decreases j + 1
{
    if j >= 0 && j >= a.f[0] { dp_row_same(a, b, j - 1); }
}
pub proof fn dp_bound(d: Dp, i: int, j: int)
    requires sc_wf(d.sc), -1 <= j
    ensures 0 <= d.at(i, j).h, i >= 0 ==> d.at(i, j).h <= 36 * (i + 1), i < 0 ==> d.at(i, j).h == 0 && d.at(i, j).c == 0, 0 <= d.at(i, j).c <= j + 1, i >= 0 ==> d.at(i, j).c <= i + 1
    decreases i + 1, j + 1
{
    if i < 0 || j < 0 || j < d.f[i] {} else {
        dp_bound(d, i, j - 1);
        dp_bound(d, i - 1, j - 1);
        bonus_bound(d.t, j, d.sc, d.init);
        bonus_bound(d.t, j - d.at(i - 1, j - 1).c, d.sc, d.init);
    }
}
/// a column that does not match
pub proof fn dp_skip(d: Dp, i: int, j: int)
    requires d.f[i] <= j, 0 <= i, 0 <= j, !d.hit(i, j)
    ensures d.at(i, j).h == imax(d.at(i, j - 1).h - d.pen(i, j - 1), 0), d.at(i, j).c == 0, d.pen(i, j) == 1, i == d.m() - 1 ==> d.best(j + 1) == d.best(j)
{}
/// cells of row i hold the first n cells of row i of d, and the rest is empty
pub open spec fn holds(d: Dp, i: int, n: int, h: Seq<i64>, c: Seq<usize>) -> bool {
    &&& h.len() == d.w() && c.len() == d.w()
    &&& forall|j: int| 0 <= j < n && j < d.w() ==> #[trigger] h[j] == d.at(i, j).h
    &&& forall|j: int| 0 <= j < n && j < d.w() ==> #[trigger] c[j] == d.at(i, j).c
    &&& forall|j: int| n <= j < d.w() ==> #[trigger] h[j] == 0
    &&& forall|j: int| n <= j < d.w() ==> #[trigger] c[j] == 0
}

@@ fn metrics::fzf::fzf_v2::score_first_row
@contract
    requires
        old(candidate).wf(*scheme), 1 <= old(candidate).base.v().len(),
        holds(dp_row(first_pattern_char, *old(candidate), *scheme), 0, 0, old(scores_first_row)@, old(consecutives_first_row)@),
        old(candidate).opts.char_eq.eqv(first_pattern_char, old(candidate).base.v()[0]),
    ensures
        final(candidate).wf(*scheme), final(candidate).same(*old(candidate)),
        holds(dp_row(first_pattern_char, *old(candidate), *scheme), 0, old(candidate).base.v().len() as int, final(scores_first_row)@, final(consecutives_first_row)@), //[C11,C13]
@proof start
    let ghost d = dp_row(first_pattern_char, *candidate, *scheme);
    let ghost e = candidate.opts.char_eq;
    let ghost w = d.w();
    let ghost mut done: int = 0;
@loop 0
    invariant_except_break
        vx_it0.wf(), vx_it0.inv(d.t, first_pattern_char, e, done),
    invariant
        d == dp_row(first_pattern_char, *old(candidate), *scheme), e == d.e, w == d.w(), 1 <= w <= MAXLEN, candidate.wf(*scheme), candidate.same(*old(candidate)),
        e.eqv(first_pattern_char, d.t[0]),
        0 <= done <= w, holds(d, 0, done, scores_first_row@, consecutives_first_row@),
        done == 0 ==> column == 0,
        done > 0 ==> column == done - 1 && prev_score == d.at(0, done - 1).h && penalty == d.pen(0, done - 1),
    ensures done > 0, none_eq(e, first_pattern_char, d.t, done, w)
    decreases w - done
@proof loop 0 head
    let ghost it = vx_it0;
    assert(first_pattern_char == d.p[0]);
@loop 1
    invariant
        d == dp_row(first_pattern_char, *old(candidate), *scheme), e == d.e, w == d.w(), 1 <= w <= MAXLEN, candidate.wf(*scheme),
        none_eq(e, first_pattern_char, d.t, done, vx_end1 as int), 0 <= done <= w, vx_end1 < w,
        done == 0 ==> vx_end1 == 0 && holds(d, 0, 0, scores_first_row@, consecutives_first_row@),
        done > 0 ==> done <= vx_i1 <= vx_end1 && prev_score == d.at(0, vx_i1 - 1).h && penalty == d.pen(0, vx_i1 - 1) && holds(d, 0, vx_i1 as int, scores_first_row@, consecutives_first_row@),
    ensures done > 0 ==> vx_i1 == vx_end1
    decreases vx_end1 - vx_i1
@proof loop 1 head
    proof { dp_skip(d, 0, vx_i1 as int); dp_bound(d, 0, vx_i1 - 1); }
@proof loop 0 tail
    proof {
        bonus_bound(d.t, column as int, d.sc, d.init);
        done = column + 1;
    }
@loop 2
    invariant
        d == dp_row(first_pattern_char, *old(candidate), *scheme), e == d.e, w == d.w(), 1 <= w <= MAXLEN, candidate.wf(*scheme), candidate.same(*old(candidate)),
        none_eq(e, first_pattern_char, d.t, done, w), 0 < done <= w, vx_end2 == w,
        done <= vx_i2 <= vx_end2 && prev_score == d.at(0, vx_i2 - 1).h && penalty == d.pen(0, vx_i2 - 1) && holds(d, 0, vx_i2 as int, scores_first_row@, consecutives_first_row@),
    decreases vx_end2 - vx_i2
@proof loop 2 head
    proof { dp_skip(d, 0, vx_i2 as int); dp_bound(d, 0, vx_i2 - 1); }

@@ prelude
pub open spec fn row_of<T>(s: Seq<T>, w: int, i: int) -> Seq<T> { s.subrange(i * w, i * w + w) }
/// the first r rows of the matrices hold those of d, and the rest is empty
pub open spec fn rows_hold(d: Dp, r: int, h: Seq<i64>, c: Seq<usize>) -> bool {
    &&& h.len() == d.m() * d.w() && c.len() == d.m() * d.w()
    &&& forall|i: int| 0 <= i < d.m() ==> holds(d, i, if i < r { d.w() } else { 0 }, #[trigger] row_of(h, d.w(), i), row_of(c, d.w(), i))
}
pub proof fn row_in(m: int, w: int, i: int)
    requires 0 <= i < m, 0 < w
    ensures 0 <= i * w, i * w + w <= m * w, i * w + w == (i + 1) * w
{
    assert(0 <= i * w) by (nonlinear_arith) requires 0 <= i, 0 < w;
    assert(i * w + w <= m * w) by (nonlinear_arith) requires i + 1 <= m, 0 < w;
    assert(i * w + w == (i + 1) * w) by (nonlinear_arith);
}
pub proof fn rows_apart(w: int, i: int, j: int)
    requires 0 <= i < j, 0 < w
    ensures i * w + w <= j * w
{
    assert(i * w + w <= j * w) by (nonlinear_arith) requires i + 1 <= j, 0 < w;
}
/// writing two rows changes these rows only
pub proof fn rows_set<T>(o: Seq<T>, n: Seq<T>, m: int, w: int, a: int, b: int, ra: Seq<T>, rb: Seq<T>, i: int)
    requires
        o.len() == m * w, n.len() == m * w, 0 < w, 0 <= a < b < m, ra.len() == w, rb.len() == w, 0 <= i < m,
        forall|x: int| 0 <= x < o.len() ==> #[trigger] n[x] ==
            (if a * w <= x < a * w + w { ra[x - a * w] } else if b * w <= x < b * w + w { rb[x - b * w] } else { o[x] }),
    ensures row_of(n, w, i) == (if i == a { ra } else if i == b { rb } else { row_of(o, w, i) })
{
    row_in(m, w, i); row_in(m, w, a); row_in(m, w, b);
    rows_apart(w, a, b);
    if i < a { rows_apart(w, i, a); }
    if a < i { rows_apart(w, a, i); }
    if i < b { rows_apart(w, i, b); }
    if b < i { rows_apart(w, b, i); }
    assert(row_of(n, w, i) =~= (if i == a { ra } else if i == b { rb } else { row_of(o, w, i) }));
}
pub proof fn row_set<T>(o: Seq<T>, n: Seq<T>, m: int, w: int, a: int, ra: Seq<T>, i: int)
    requires
        o.len() == m * w, n.len() == m * w, 0 < w, 0 <= a < m, ra.len() == w, 0 <= i < m,
        forall|x: int| 0 <= x < o.len() ==> #[trigger] n[x] == (if a * w <= x < a * w + w { ra[x - a * w] } else { o[x] }),
    ensures row_of(n, w, i) == (if i == a { ra } else { row_of(o, w, i) })
{
    row_in(m, w, i); row_in(m, w, a);
    if i < a { rows_apart(w, i, a); }
    if a < i { rows_apart(w, a, i); }
    assert(row_of(n, w, i) =~= (if i == a { ra } else { row_of(o, w, i) }));
}
pub proof fn dp_best_none(d: Dp, n: int)
    requires d.wf(), n <= d.f[d.m() - 1]
    ensures d.best(n) == (0int, 0int)
    decreases n
{
    if n > 0 { dp_best_none(d, n - 1); }
}
/// the last row's first match has a score
pub proof fn dp_best_pos(d: Dp, n: int)
    requires d.wf(), d.m() >= 2, d.f[d.m() - 1] < n <= d.w()
    ensures d.best(n).0 > 0
    decreases n
{
    let i = d.m() - 1;
    dp_best_in(d, n - 1);
    if n - 1 > d.f[i] { dp_best_pos(d, n - 1); }
    else {
        let j = n - 1;
        assert(d.hit(i, j));
        dp_bound(d, i - 1, j - 1);
        bonus_bound(d.t, j, d.sc, d.init);
        assert(d.at(i, j) == d.step(i, j, d.at(i, j - 1), d.at(i - 1, j - 1)));
    }
}
pub proof fn dp_best_in(d: Dp, n: int)
    requires d.wf(), 0 <= n <= d.w()
    ensures 0 <= d.best(n).0 <= 36 * d.m(), 0 <= d.best(n).1 < d.w(), n > 0 ==> d.best(n).1 < n
    decreases n
{
    if n > 0 { dp_best_in(d, n - 1); dp_bound(d, d.m() - 1, n - 1); }
}

@@ fn metrics::fzf::fzf_v2::score_remaining_rows
@attr verifier::rlimit(200)
@contract
    requires
        dp_of(pattern.text@, *old(candidate), *scheme, matches@).wf(), pattern.text@.len() >= 2,
        old(candidate).wf(*scheme), matches@.len() == pattern.text@.len(),
        old(scores).wf(), old(consecutives).wf(), old(consecutives).h() == pattern.text@.len(), old(consecutives).w() == old(candidate).base.v().len(),
        old(scores).h() == pattern.text@.len(), old(scores).w() == old(candidate).base.v().len(),
        rows_hold(dp_of(pattern.text@, *old(candidate), *scheme, matches@), 1, old(scores).cells(), old(consecutives).cells()),
    ensures
        final(candidate).wf(*scheme), final(candidate).same(*old(candidate)),
        final(scores).wf(), final(consecutives).wf(), final(scores).kept(*old(scores)), final(consecutives).kept(*old(consecutives)),
        ({
            let d = dp_of(pattern.text@, *old(candidate), *scheme, matches@);
            &&& rows_hold(d, d.m(), final(scores).cells(), final(consecutives).cells()) //[C13]
            &&& vx_r.0 == d.best(d.w()).0 //[C13]
            &&& vx_r.1.0 == (d.m() - 1) * d.w() + d.best(d.w()).1 //[C13]
        })
@proof start
    let ghost d = dp_of(pattern.text@, *candidate, *scheme, matches@);
    let ghost e = candidate.opts.char_eq;
    let ghost w = d.w();
    let ghost m = d.m();
    proof {
        row_in(m, w, m - 1);
        assert(d.f[m - 1] == matches@[m - 1] && d.f[m - 1] < w);
        assert(m * w <= 0x100_0000_0000_0000) by (nonlinear_arith) requires 0 <= m <= 0x1000_0000, 0 <= w <= 0x1000_0000;
    }
@loop 0
    invariant
        d == dp_of(pattern.text@, *old(candidate), *scheme, matches@), d.wf(), e == d.e, w == d.w(), m == d.m(), m >= 2,
        matrix_width == w, last_row_idx == m - 1, vx_end0 == m, matches@.len() == m, pattern.text@.len() == m,
        candidate.wf(*scheme), candidate.same(*old(candidate)),
        scores.wf(), consecutives.wf(), scores.kept(*old(scores)), consecutives.kept(*old(consecutives)),
        scores.h() == m, scores.w() == w, consecutives.h() == m, consecutives.w() == w,
        1 <= vx_i0 <= m, m * w <= 0x100_0000_0000_0000, (m - 1) * w + w <= m * w, 0 <= (m - 1) * w,
        rows_hold(d, vx_i0 as int, scores.cells(), consecutives.cells()),
        vx_i0 < m ==> max_score == 0,
        vx_i0 == m ==> max_score == d.best(w).0 && max_score_cell.0 == (m - 1) * w + d.best(w).1,
    decreases vx_end0 - vx_i0
@proof loop 0 head
    let ghost i = vx_i0 as int;
    let ghost h0 = scores.cells();
    let ghost c0 = consecutives.cells();
    let ghost f = d.f[i];
    let ghost ph = row_of(h0, w, i - 1);
    let ghost pc = row_of(c0, w, i - 1);
    let ghost mut done: int = f;
    proof {
        row_in(m, w, i); row_in(m, w, i - 1);
        assert(holds(d, i - 1, w, ph, pc));
        assert(holds(d, i, 0, row_of(h0, w, i), row_of(c0, w, i)));
        assert(d.f[0] < d.f[i]);
        if i == m - 1 { dp_best_none(d, f); }
        assert(f == matches@[i]);
    }
@loop 1
    invariant_except_break
        vx_it1.wf(), vx_it1.inv(d.t, pattern_char, e, done),
    invariant
        d == dp_of(pattern.text@, *old(candidate), *scheme, matches@), d.wf(), e == d.e, w == d.w(), m == d.m(), m >= 2,
        matrix_width == w, last_row_idx == m - 1, 1 <= i < m, row_idx == i, pattern_char == d.p[i], f == d.f[i],
        m * w <= 0x100_0000_0000_0000, (m - 1) * w + w <= m * w, 0 <= (m - 1) * w,
        candidate.wf(*scheme), candidate.same(*old(candidate)),
        holds(d, i - 1, w, ph, pc), prev_scores_row@ == ph, prev_consecutives_row@ == pc,
        1 <= f <= done <= w, holds(d, i, done, scores_row@, consecutives_row@),
        penalty == d.pen(i, done - 1),
        column == if done == f { f } else { done - 1 },
        i < m - 1 ==> max_score == 0,
        i == m - 1 ==> max_score == d.best(done).0 && (max_score > 0 ==> max_score_cell.0 == (m - 1) * w + d.best(done).1),
    ensures done > f, none_eq(e, pattern_char, d.t, done, w)
    decreases w - done
@proof loop 1 head
    proof { assert(d.hit(i, f)); }
@loop 2
    invariant
        d.wf(), e == d.e, w == d.w(), m == d.m(), 1 <= i < m, pattern_char == d.p[i], f == d.f[i],
        none_eq(e, pattern_char, d.t, done, vx_end2 as int), 1 <= f <= done <= w, vx_end2 < w,
        done == f ==> vx_end2 == f && vx_i2 == f + 1 && penalty == d.pen(i, done - 1) && holds(d, i, done, scores_row@, consecutives_row@),
        done > f ==> done <= vx_i2 <= vx_end2 && penalty == d.pen(i, vx_i2 - 1) && holds(d, i, vx_i2 as int, scores_row@, consecutives_row@),
        done > f && i == m - 1 ==> d.best(vx_i2 as int) == d.best(done),
    ensures done > f ==> vx_i2 == vx_end2
    decreases vx_end2 - vx_i2
@proof loop 2 head
    proof { dp_skip(d, i, vx_i2 as int); dp_bound(d, i, vx_i2 - 1); }
@proof before let score_left = scores_row[column - 1] - penalty
    let ghost j = char_offset as int;
    proof {
        dp_bound(d, i, j - 1); dp_bound(d, i - 1, j - 1); dp_bound(d, i, j);
        bonus_bound(d.t, j, d.sc, d.init);
        bonus_bound(d.t, j - d.at(i - 1, j - 1).c, d.sc, d.init);
        assert(d.hit(i, j));
        assert(scores_row@[j - 1] == d.at(i, j - 1).h);
        assert(ph[j - 1] == d.at(i - 1, j - 1).h);
        assert(pc[j - 1] == d.at(i - 1, j - 1).c);
        assert(d.at(i, j) == d.step(i, j, d.at(i, j - 1), d.at(i - 1, j - 1)));
        if i == m - 1 { dp_best_in(d, done); }
    }
@proof loop 1 tail
    proof {
        assert(score == d.at(i, j).h);
        assert(consecutive == d.at(i, j).c);
        done = column + 1;
    }
@loop 3
    invariant
        d.wf(), e == d.e, w == d.w(), m == d.m(), 1 <= i < m, pattern_char == d.p[i], f == d.f[i],
        none_eq(e, pattern_char, d.t, done, w), 1 <= f < done <= w, vx_end3 == w,
        done <= vx_i3 <= vx_end3, penalty == d.pen(i, vx_i3 - 1), holds(d, i, vx_i3 as int, scores_row@, consecutives_row@),
        i == m - 1 ==> d.best(vx_i3 as int) == d.best(done),
    decreases vx_end3 - vx_i3
@proof loop 3 head
    proof { dp_skip(d, i, vx_i3 as int); dp_bound(d, i, vx_i3 - 1); }
@proof loop 0 tail
    let ghost rh = scores_row@;
    let ghost rc = consecutives_row@;
    proof {
        if i == m - 1 { dp_best_pos(d, w); }
        assert forall|k: int| 0 <= k < m implies holds(d, k, if k < i + 1 { w } else { 0 }, #[trigger] row_of(scores.cells(), w, k), row_of(consecutives.cells(), w, k)) by {
            rows_set(h0, scores.cells(), m, w, i - 1, i, ph, rh, k);
            rows_set(c0, consecutives.cells(), m, w, i - 1, i, pc, rc, k);
            assert(holds(d, k, if k < i { w } else { 0 }, row_of(h0, w, k), row_of(c0, w, k)));
        }
    }

@@ fn metrics::fzf::fzf_v2::score
@contract
    requires
        dp_of(pattern.text@, *old(candidate), *scheme, matches@).wf(), pattern.text@.len() >= 2,
        old(candidate).wf(*scheme), matches@.len() == pattern.text@.len(),
    ensures
        final(candidate).wf(*scheme), final(candidate).same(*old(candidate)),
        vx_r.0.wf(), vx_r.1.wf(), vx_r.0.h() == pattern.text@.len(), vx_r.0.w() == old(candidate).base.v().len(),
        vx_r.1.h() == vx_r.0.h(), vx_r.1.w() == vx_r.0.w(),
        ({
            let d = dp_of(pattern.text@, *old(candidate), *scheme, matches@);
            &&& rows_hold(d, d.m(), vx_r.0.cells(), vx_r.1.cells()) //[C10,C13]
            &&& vx_r.2 == d.best(d.w()).0 //[C10,C11,C13]
            &&& vx_r.3.0 == (d.m() - 1) * d.w() + d.best(d.w()).1 //[C13]
        })
@proof start
    let ghost d = dp_of(pattern.text@, *candidate, *scheme, matches@);
    let ghost w = d.w();
    let ghost m = d.m();
    let ghost d0 = dp_row(pattern.text@[0], *candidate, *scheme);
    proof {
        assert(m * w <= 0x100_0000_0000_0000) by (nonlinear_arith) requires 0 <= m <= 0x1000_0000, 0 <= w <= 0x1000_0000;
        row_in(m, w, 0);
        assert(d.hit(0, 0));
    }
@proof before score_first_row
    let ghost h0 = scoring_matrix.cells();
    let ghost c0 = consecutive_matrix.cells();
    assert(holds(d0, 0, 0, row_of(h0, w, 0), row_of(c0, w, 0)));
@proof after score_first_row
    proof {
        let h1 = scoring_matrix.cells();
        let c1 = consecutive_matrix.cells();
        assert(h1.len() == m * w && c1.len() == m * w);
        let rh = row_of(h1, w, 0);
        let rc = row_of(c1, w, 0);
        assert forall|k: int| 0 <= k < m implies holds(d, k, if k < 1 { w } else { 0 }, #[trigger] row_of(h1, w, k), row_of(c1, w, k)) by {
            row_in(m, w, k);
            if k > 0 { rows_apart(w, 0, k); }
            assert forall|j: int| 0 <= j < w && k == 0 implies #[trigger] d.at(0, j) == d0.at(0, j) by { dp_row_same(d, d0, j); }
        }
    }

@@ prelude
/// the walk back over the matrices that hold h and c, w columns wide, from cell (i, j)
pub open spec fn mtrace(h: Seq<i64>, c: Seq<usize>, w: int, i: int, j: int, prefer: bool) -> Seq<int>
    decreases j + 1
{
    if i < 0 || j < 0 { Seq::empty() }
    else {
        let k = i * w + j;
        let left = if j == 0 { 0 } else { h[k - 1] };
        let up = if i == 0 || j == 0 { 0 } else { h[k - w - 1] };
        let next = c[k] > 1 || (k + w + 1 < c.len() && c[k + w + 1] > 0);
        if h[k] > up && (h[k] > left || h[k] == left && prefer) { mtrace(h, c, w, i - 1, j - 1, next).push(j) }
        else { mtrace(h, c, w, i, j - 1, next) }
    }
}
/// r1 covers what r0 covers and the bytes of the chars of t at pos, t starting at byte `at`
pub open spec fn smarks(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, t: Seq<char>, at: int, pos: Seq<int>) -> bool {
    forall|x: int| #[trigger] covers(r1, from, x) <==> (covers(r0, from, x) || pcov(t, pos, pos.len() as int, x - at))
}
pub proof fn smarks_step(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, r2: Seq<Range<usize>>, from: int, t: Seq<char>, at: int, pos: Seq<int>, j: int)
    requires smarks(r0, r1, from, t, at, pos), adds(r1, r2, from, at + boff(t, j), at + boff(t, j + 1))
    ensures smarks(r0, r2, from, t, at, seq![j] + pos)
{
    let q = seq![j] + pos;
    assert forall|x: int| #[trigger] covers(r2, from, x) <==> (covers(r0, from, x) || pcov(t, q, q.len() as int, x - at)) by {
        assert(covers(r2, from, x) <==> covers(r1, from, x) || at + boff(t, j) <= x < at + boff(t, j + 1));
        let y = x - at;
        if pcov(t, q, q.len() as int, y) {
            let i = choose|i: int| 0 <= i < q.len() && boff(t, #[trigger] q[i]) <= y < boff(t, q[i] + 1);
            if i > 0 { assert(pos[i - 1] == q[i]); }
        }
        if pcov(t, pos, pos.len() as int, y) {
            let i = choose|i: int| 0 <= i < pos.len() && boff(t, #[trigger] pos[i]) <= y < boff(t, pos[i] + 1);
            assert(q[i + 1] == pos[i]);
        }
        if boff(t, j) <= y < boff(t, j + 1) { assert(q[0] == j); }
    }
}

@@ fn metrics::fzf::fzf_v2::matched_ranges
@attr verifier::loop_isolation(false)
@attr verifier::allow_complex_invariants
@contract
    requires
        scores.wf(), consecutives.wf(), consecutives.h() == scores.h(), consecutives.w() == scores.w(),
        scores.h() <= MAXLEN, scores.w() <= MAXLEN, scores.w() == candidate.v().len(), max_score_cell.0 < scores.cells().len(),
        candidate.wf(), old(ranges).wf(), start_byte_offset <= 4 * MAXLEN,
    ensures
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        smarks(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(), start_byte_offset as int,
            mtrace(scores.cells(), consecutives.cells(), scores.w(), max_score_cell.0 as int / scores.w(), max_score_cell.0 as int % scores.w(), true)), //[C08,C13]
@proof start
    let ghost h = scores.cells();
    let ghost c = consecutives.cells();
    let ghost w = scores.w();
    let ghost m = scores.h();
    let ghost t = candidate.v();
    let ghost i0 = max_score_cell.0 as int / w;
    let ghost j0 = max_score_cell.0 as int % w;
    let ghost full = mtrace(h, c, w, i0, j0, true);
    let ghost mut taken: Seq<int> = Seq::empty();
    let ghost r0 = ranges.ranges@;
    proof {
        assert(m * w <= 0x100_0000_0000_0000) by (nonlinear_arith) requires 0 <= m <= 0x1000_0000, 0 <= w <= 0x1000_0000;
        assert(0 <= i0 < m && 0 <= j0 < w && i0 * w + j0 == max_score_cell.0) by (nonlinear_arith)
            requires i0 == max_score_cell.0 as int / w, j0 == max_score_cell.0 as int % w, 0 <= max_score_cell.0 < m * w, w > 0;
        assert(full + taken =~= full);
    }
@loop 0
    invariant_except_break
        0 <= row < m, 0 <= col < w, cell.0 == row * w + col,
        full == mtrace(h, c, w, row as int, col as int, prefer_match) + taken,
    invariant
        ranges.wf(), ranges.kept(*old(ranges)),
        smarks(r0, ranges.ranges@, old(ranges).initial_len as int, t, start_byte_offset as int, taken),
    ensures full == taken
    decreases col
@proof loop 0 head
    let ghost i = row as int;
    let ghost j = col as int;
    let ghost rg = ranges.ranges@;
    proof {
        row_in(m, w, i);
        if i > 0 { row_in(m, w, i - 1); }
        boff_mono(t, 0, j + 1);
        boff_mono(t, j, j + 1);
        assert(mtrace(h, c, w, i - 1, -1, false) =~= Seq::empty());
        assert(mtrace(h, c, w, i - 1, -1, true) =~= Seq::empty());
        assert(mtrace(h, c, w, -1, j - 1, false) =~= Seq::empty());
        assert(mtrace(h, c, w, -1, j - 1, true) =~= Seq::empty());
        assert(mtrace(h, c, w, i, -1, false) =~= Seq::empty());
        assert(mtrace(h, c, w, i, -1, true) =~= Seq::empty());
    }
@proof after ranges.insert
    proof {
        smarks_step(r0, rg, ranges.ranges@, old(ranges).initial_len as int, t, start_byte_offset as int, taken, j);
        assert(mtrace(h, c, w, i - 1, j - 1, prefer_match).push(j) + taken =~= mtrace(h, c, w, i - 1, j - 1, prefer_match) + (seq![j] + taken));
        taken = seq![j] + taken;
    }

@@ fn metrics::fzf::fzf_v2::matches
@contract
    requires pattern.wf(), pattern.text@.len() > 0, candidate.wf(), opts.wf()
    ensures ({
        let e = opts.char_eq;
        let p = pattern.text@;
        let cs = candidate.v();
        match vx_r {
            Some((offs, last)) => {
                &&& gpos(e, p, cs, 0, p.len() - 1) < cs.len() //[C01]
                &&& offs@.len() == p.len()
                &&& forall|k: int| 0 <= k < p.len() ==> #[trigger] offs@[k] == gpos(e, p, cs, 0, k) //[C12]
                &&& last == v2_last(e, p, cs) + 1 //[C12]
            },
            None => gpos(e, p, cs, 0, p.len() - 1) >= cs.len(), //[C01]
        }
    })
@proof start
    let ghost e = opts.char_eq;
    let ghost p = pattern.text@;
    let ghost cs = candidate.v();
    let ghost n = p.len() as int;
    // a term longer than the candidate does not match
    proof { gpos_mono(e, p, cs, 0, -1, n - 1); }
@loop 0
    invariant_except_break
        last_match_offset == gpos(e, p, cs, 0, pattern_char_idx - 1) + 1,
        forall|k: int| 0 <= k < pattern_char_idx ==> #[trigger] match_offsets@[k] == gpos(e, p, cs, 0, k),
    invariant
        e == opts.char_eq, p == pattern.text@, cs == candidate.v(), n == p.len(), opts.wf(), candidate.wf(), pattern.wf(),
        match_offsets@.len() == n, 0 <= pattern_char_idx < n, last_match_offset <= cs.len(),
    ensures
        pattern_char_idx == n - 1, gpos(e, p, cs, 0, n - 1) < cs.len(),
        forall|k: int| 0 <= k < n ==> #[trigger] match_offsets@[k] == gpos(e, p, cs, 0, k),
    decreases n - pattern_char_idx
@proof loop 0 head
    proof {
        let lo = last_match_offset as int;
        let k = pattern_char_idx as int;
        assert forall|r: Option<usize>| #[trigger] first_eq(e, p[k], cs, lo, r) implies next_at(e, p[k], cs, lo) == (match r { Some(i) => i as int, None => cs.len() as int }) by {
            first_eq_next(e, p[k], cs, lo, r);
        }
        gpos_mono(e, p, cs, 0, k, n - 1);
    }
@proof before let last_char_offset_inclusive
    proof {
        assert forall|r: Option<usize>| #[trigger] last_eq(e, p[n - 1], cs, cs.len() as int, r) implies
            r is Some && v2_last(e, p, cs) == r->0 by {
            last_eq_prev(e, p[n - 1], cs, cs.len() as int, r);
            gpos_mono(e, p, cs, 0, -1, n - 2);
            next_at_is(e, p[n - 1], cs, gpos(e, p, cs, 0, n - 2) + 1);
        }
    }

@@ fn metrics::fzf::fzf_v2::fuzzy_single_char
@contract
    requires candidate.wf(), opts.wf(), sc_wf(*scheme), old(ranges).wf()
    ensures
        match vx_r {
            Some(r) => next_at(opts.char_eq, pattern_char, candidate.v(), 0) < candidate.v().len()
                && r == best_one(opts.char_eq, pattern_char, candidate.v(), *scheme, candidate.v().len() as int).0, //[C01,C11,C13]
            None => next_at(opts.char_eq, pattern_char, candidate.v(), 0) >= candidate.v().len(), //[C01]
        },
        vx_r is Some ==> s_bounded(vx_r->0 as int), //[C17]
        final(ranges).wf(), //[C07]
        final(ranges).kept(*old(ranges)), //[C07]
        RANGES && vx_r is Some ==> marks(old(ranges).ranges@, final(ranges).ranges@, old(ranges).initial_len as int, candidate.v(),
            seq![best_one(opts.char_eq, pattern_char, candidate.v(), *scheme, candidate.v().len() as int).1]), //[C08,C13]
        !RANGES || vx_r is None ==> final(ranges).same(*old(ranges)), //[C07,C08,C09]
@proof start
    let ghost e = opts.char_eq;
    let ghost cs = candidate.v();
    let ghost r0 = ranges.ranges@;
    let ghost mut done: int = 0;
@loop 0
    invariant_except_break
        vx_it0.wf(), vx_it0.inv(cs, pattern_char, e, done),
        max_score == best_one(e, pattern_char, cs, *scheme, done).0, max_score_pos == best_one(e, pattern_char, cs, *scheme, done).1,
        max_score == 0 ==> none_eq(e, pattern_char, cs, 0, done),
    invariant
        e == opts.char_eq, cs == candidate.v(), sc_wf(*scheme), candidate.wf(), 0 <= done <= cs.len(),
        0 <= max_score <= 36, max_score_pos < cs.len() || max_score_pos == 0,
        max_score > 0 ==> max_score_pos < cs.len() && e.eqv(pattern_char, cs[max_score_pos as int]),
    ensures
        max_score == best_one(e, pattern_char, cs, *scheme, cs.len() as int).0, max_score_pos == best_one(e, pattern_char, cs, *scheme, cs.len() as int).1,
        max_score == 0 ==> none_eq(e, pattern_char, cs, 0, cs.len() as int),
    decreases cs.len() - done
@proof loop 0 head
    proof {
        assert forall|j: int| done <= j <= cs.len() && none_eq(e, pattern_char, cs, done, j) implies
            #[trigger] best_one(e, pattern_char, cs, *scheme, j) == best_one(e, pattern_char, cs, *scheme, done) by {
            best_one_skip(e, pattern_char, cs, *scheme, done, j);
        }
    }
    let ghost s0 = max_score;
@proof before let prev_class
    let ghost j = char_offset as int;
    proof {
        bonus_bound(cs, j, *scheme, scheme.initial_char_class);
        assert(best_one(e, pattern_char, cs, *scheme, j) == best_one(e, pattern_char, cs, *scheme, done));
    }
@proof loop 0 tail
    proof { done = j + 1; }
@proof before if max_score == 0
    proof {
        next_at_is(e, pattern_char, cs, 0);
        boff_mono(cs, 0, cs.len() as int);
        if max_score > 0 { boff_mono(cs, 0, max_score_pos as int); boff_mono(cs, max_score_pos as int, max_score_pos + 1); }
    }
@proof after ranges.insert
    proof {
        let pos = seq![max_score_pos as int];
        assert(padds(r0, r0, ranges.initial_len as int, cs, pos, 0));
        padds_step(r0, r0, ranges.ranges@, ranges.initial_len as int, cs, pos, 0);
    }

@@ prelude
pub proof fn best_one_skip(e: VxCharEq, c: char, cs: Seq<char>, sc: Scheme, a: int, b: int)
    requires 0 <= a <= b <= cs.len(), none_eq(e, c, cs, a, b)
    ensures best_one(e, c, cs, sc, b) == best_one(e, c, cs, sc, a)
    decreases b - a
{
    if a < b { best_one_skip(e, c, cs, sc, a, b - 1); }
}

@@ prelude
pub proof fn v2_dp_wf(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme)
    requires sc_wf(sc), 2 <= p.len() <= MAXLEN, cs.len() <= MAXLEN, gpos(e, p, cs, 0, p.len() - 1) < cs.len()
    ensures v2_dp(e, p, cs, sc).wf(), 0 <= gpos(e, p, cs, 0, 0) < v2_last(e, p, cs) < cs.len()
{
    let d = v2_dp(e, p, cs, sc);
    let pos = greedy(e, p, cs, 0);
    let n = p.len() as int;
    greedy_aligned(e, p, cs, 0);
    prev_at_is(e, p.last(), cs, cs.len() as int);
    assert(pos[n - 1] <= v2_last(e, p, cs) && pos[0] < pos[n - 1]);
    assert forall|k: int| 0 <= k < n implies 0 <= #[trigger] d.f[k] < d.w() && d.hit(k, d.f[k]) by {
        assert(pos[0] <= pos[k] <= pos[n - 1]);
        assert(d.t[d.f[k]] == cs[pos[k]]);
    }
    assert forall|j: int, k: int| 0 <= j < k < n implies #[trigger] d.f[j] < #[trigger] d.f[k] by { assert(pos[j] < pos[k]); }
}
pub proof fn trace_in(d: Dp, i: int, j: int, prefer: bool)
    ensures forall|k: int| 0 <= k < d.trace(i, j, prefer).len() ==> 0 <= #[trigger] d.trace(i, j, prefer)[k] <= j
    decreases j + 1
{
    if i >= 0 && j >= 0 {
        trace_in(d, i - 1, j - 1, d.prefers(i, j));
        trace_in(d, i, j - 1, d.prefers(i, j));
        let t = d.trace(i, j, prefer);
        let a = d.trace(i - 1, j - 1, d.prefers(i, j));
        let b = d.trace(i, j - 1, d.prefers(i, j));
        assert forall|k: int| 0 <= k < t.len() implies 0 <= #[trigger] t[k] <= j by {
            if d.takes(i, j, prefer) { if k < a.len() { assert(t[k] == a[k]); } } else { assert(t[k] == b[k]); }
        }
    }
}
/// the walk over the filled matrices is that over the cells they hold
pub proof fn mtrace_is(d: Dp, h: Seq<i64>, c: Seq<usize>, i: int, j: int, prefer: bool)
    requires d.wf(), rows_hold(d, d.m(), h, c), i < d.m(), j < d.w()
    ensures mtrace(h, c, d.w(), i, j, prefer) == d.trace(i, j, prefer)
    decreases j + 1
{
    let m = d.m();
    let w = d.w();
    if i >= 0 && j >= 0 {
        let k = i * w + j;
        row_in(m, w, i);
        assert(holds(d, i, w, row_of(h, w, i), row_of(c, w, i)));
        assert(h[k] == row_of(h, w, i)[j] && c[k] == row_of(c, w, i)[j]);
        if j > 0 { assert(h[k - 1] == row_of(h, w, i)[j - 1]); }
        if i > 0 && j > 0 {
            row_in(m, w, i - 1);
            assert(holds(d, i - 1, w, row_of(h, w, i - 1), row_of(c, w, i - 1)));
            assert(h[k - w - 1] == row_of(h, w, i - 1)[j - 1]);
        }
        if i + 1 < m {
            row_in(m, w, i + 1);
            assert(holds(d, i + 1, w, row_of(h, w, i + 1), row_of(c, w, i + 1)));
            if j + 1 < w { assert(c[k + w + 1] == row_of(c, w, i + 1)[j + 1]); }
        }
        if j + 1 == w && i + 2 < m {
            row_in(m, w, i + 2);
            assert(holds(d, i + 2, w, row_of(h, w, i + 2), row_of(c, w, i + 2)));
            assert(c[k + w + 1] == row_of(c, w, i + 2)[0]);
            assert(d.f[0] < d.f[i + 2]);
        }
        if i + 1 >= m { assert(k + w + 1 >= c.len()); }
        if j + 1 == w && i + 2 >= m { assert(k + w + 1 >= c.len()) by { if i + 2 == m { row_in(m, w, i + 1); } } }
        mtrace_is(d, h, c, i - 1, j - 1, d.prefers(i, j));
        mtrace_is(d, h, c, i, j - 1, d.prefers(i, j));
    }
}
pub proof fn boff_sub(cs: Seq<char>, a: int, b: int, k: int)
    requires 0 <= a <= b <= cs.len(), 0 <= k <= b - a
    ensures boff(cs, a + k) == boff(cs, a) + boff(cs.subrange(a, b), k)
    decreases k
{
    if k > 0 { boff_sub(cs, a, b, k - 1); }
}
pub proof fn smarks_shift(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, from: int, cs: Seq<char>, a: int, b: int, pos: Seq<int>)
    requires 0 <= a <= b <= cs.len(), smarks(r0, r1, from, cs.subrange(a, b), boff(cs, a), pos),
        forall|k: int| 0 <= k < pos.len() ==> 0 <= #[trigger] pos[k] < b - a
    ensures marks(r0, r1, from, cs, shift(pos, a))
{
    let t = cs.subrange(a, b);
    let q = shift(pos, a);
    let n = pos.len() as int;
    assert forall|x: int| #[trigger] covers(r1, from, x) <==> (covers(r0, from, x) || pcov(cs, q, n, x)) by {
        let y = x - boff(cs, a);
        if pcov(t, pos, n, y) {
            let i = choose|i: int| 0 <= i < n && boff(t, #[trigger] pos[i]) <= y < boff(t, pos[i] + 1);
            boff_sub(cs, a, b, pos[i]); boff_sub(cs, a, b, pos[i] + 1);
            assert(q[i] == pos[i] + a);
        }
        if pcov(cs, q, n, x) {
            let i = choose|i: int| 0 <= i < n && boff(cs, #[trigger] q[i]) <= x < boff(cs, q[i] + 1);
            assert(q[i] == pos[i] + a);
            boff_sub(cs, a, b, pos[i]); boff_sub(cs, a, b, pos[i] + 1);
        }
    }
}

@@ fn metrics::fzf::fzf_v2::<FzfV2 as Fzf>::fuzzy
@contract
@proof start
    let ghost e = self.cfg().eq(pattern.has_uppercase);
    let ghost p = pattern.text@;
    let ghost cs = candidate.v();
    let ghost n = p.len() as int;
    let ghost sc = self.scoring_scheme;
    let ghost a = gpos(e, p, cs, 0, 0);
    let ghost z = v2_last(e, p, cs) + 1;
    let ghost d = v2_dp(e, p, cs, sc);
    let ghost r0 = ranges.ranges@;
    assert(gpos(e, p, cs, 0, -1) == -1);
    // a term longer than the candidate does not match
    proof { gpos_mono(e, p, cs, 0, -1, n - 1); }
@proof before let first_offset
    let ghost offs = match_offsets@;
    proof {
        v2_dp_wf(e, p, cs, sc);
        boff_mono(cs, 0, a);
        assert forall|k: int| 0 <= k < n implies #[trigger] offs[k] >= a by { gpos_mono(e, p, cs, 0, 0, k); }
    }
@loop 0
    invariant
        vx_i0 <= match_offsets@.len(), match_offsets@.len() == offs.len(), first_offset == a,
        forall|k: int| 0 <= k < offs.len() ==> #[trigger] offs[k] >= a,
        forall|k: int| 0 <= k < vx_i0 ==> #[trigger] match_offsets@[k] == offs[k] - a,
        forall|k: int| vx_i0 <= k < offs.len() ==> #[trigger] match_offsets@[k] == offs[k],
    decreases match_offsets@.len() - vx_i0
@proof before let (scores, consecutive, score, score_cell)
    proof {
        let d1 = dp_of(p, candidate, sc, match_offsets@);
        assert(d1.f =~= d.f);
        assert(d1 == d);
        assert(candidate.wf(sc));
    }
@proof after let (scores, consecutive, score, score_cell)
    proof {
        let m = d.m();
        let w = d.w();
        let b = d.best(w).1;
        dp_best_in(d, w);
        row_in(m, w, m - 1);
        let k = score_cell.0 as int;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(k, w, m - 1, b);
        mtrace_is(d, scores.cells(), consecutive.cells(), m - 1, b, true);
        trace_in(d, m - 1, b, true);
    }
@proof after matched_ranges
    proof { smarks_shift(r0, ranges.ranges@, ranges.initial_len as int, cs, a, z, d.trace(d.m() - 1, d.best(d.w()).1, true)); }

@@ fn metrics::fzf::fzf_v2::<FzfV2 as Fzf>::alloc_chars
@contract

@@ fn metrics::fzf::fzf_v2::<FzfV2 as Fzf>::char_eq
@contract

@@ fn metrics::fzf::fzf_v2::<FzfV2 as Fzf>::scheme
@contract

@@ fn metrics::fzf::fzf_v2::<FzfV2 as Default>::default
@contract
    ensures vx_r.cfg() == (Cfg { v2: true, case: CaseSensitivity::Smart, norm: false, scheme: s_scheme(FzfScheme::Default) }) //[C19]

@@ plain-fn metrics::fzf::fzf_v2::<FzfV2 as Clone>::clone
@contract
    ensures vx_r.cfg() == self.cfg() //[C10,C19]

@@ fn metrics::fzf::fzf_v2::FzfV2::new
@contract
    ensures vx_r.cfg() == (Cfg { v2: true, case: CaseSensitivity::Smart, norm: false, scheme: s_scheme(FzfScheme::Default) }) //[C19]

@@ fn metrics::fzf::fzf_v2::FzfV2::set_candidate_normalization
@contract
    ensures *final(vx_r) == *final(self), vx_r.cfg() == (Cfg { norm: normalization, ..old(self).cfg() }) //[C16,C19]

@@ fn metrics::fzf::fzf_v2::FzfV2::set_case_sensitivity
@contract
    ensures *final(vx_r) == *final(self), vx_r.cfg() == (Cfg { case: case_sensitivity, ..old(self).cfg() }) //[C15,C19]

@@ fn metrics::fzf::fzf_v2::FzfV2::set_scoring_scheme
@contract
    ensures *final(vx_r) == *final(self), vx_r.cfg() == (Cfg { scheme: s_scheme(scheme), ..old(self).cfg() }) //[C11,C19]

@@ fn metrics::fzf::fzf_v2::<FzfV2 as Metric>::distance
@contract
    requires sc_wf(old(self).cfg().scheme), query.wf(), candidate@.len() <= MAXLEN
    ensures
        final(self).cfg() == old(self).cfg(), //[C10,C19]
        scored(s_query(old(self).cfg(), query.conds(), candidate@), match vx_r { Some(d) => Some(d.0), None => None }), //[C01,C02,C03,C04,C09,C10,C11,C13,C15,C16]

@@ fn metrics::fzf::fzf_v2::<FzfV2 as Metric>::distance_and_ranges
@contract
    requires sc_wf(old(self).cfg().scheme), query.wf(), candidate@.len() <= MAXLEN
    ensures
        final(self).cfg() == old(self).cfg(), //[C10,C19]
        scored(s_query(old(self).cfg(), query.conds(), candidate@), match vx_r { Some(d) => Some(d.0), None => None }), //[C01,C02,C03,C04,C09,C10,C11,C13,C15,C16]
        same_prefix(old(ranges)@, final(ranges)@, old(ranges)@.len() as int), //[C07]
        rwf(final(ranges)@, old(ranges)@.len() as int), //[C07]
        vx_r is None ==> final(ranges)@ == old(ranges)@, //[C07]
        vx_r is Some ==> marks(old(ranges)@, final(ranges)@, old(ranges)@.len() as int, candidate@,
            (s_query(old(self).cfg(), query.conds(), candidate@)->0).1), //[C04,C08,C13]

