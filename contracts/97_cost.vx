@@ # How long a distance computation takes (C20).  Only read when VX_CLOCK is set:
@@ # every loop iteration then advances a ghost clock that is threaded through
@@ # the functions (`vx_clk`), and these contracts bound it.

@@ clock-prelude
pub tracked struct VxClk { pub ghost t: nat }
impl VxClk {
    pub proof fn tick(tracked &mut self, k: nat)
        ensures final(self).t == old(self).t + k
    { self.t = self.t + k; }
}
/// a search from `from` in `n` chars
pub open spec fn ck_first(r: Option<usize>, from: int, n: int) -> int {
    match r { Some(i) => 2 * (i - from + 1), None => 2 * (n - from + 1) }
}
/// a search backwards from `end`
pub open spec fn ck_last(r: Option<usize>, end: int) -> int {
    match r { Some(i) => 2 * (end - i), None => 2 * (end + 1) }
}
/// linear in the chars of the term and of the candidate
pub open spec fn ck_lin(m: int, n: int) -> int { 32 * (m + n + 2) }
/// proportional to their product
pub open spec fn ck_prod(m: int, n: int) -> int { 64 * ((m + 1) * (n + 1)) }
pub proof fn ck_lin_le(m: int, n: int)
    requires m >= 0, n >= 0
    ensures ck_lin(m, n) <= ck_prod(m, n)
{ assert(32 * (m + n + 2) <= 64 * ((m + 1) * (n + 1))) by (nonlinear_arith) requires m >= 0, n >= 0; }
/// what looking for a term costs at most: the product only for exact terms and where FzfV2 matches
pub open spec fn ck_fuzzy(cfg: Cfg, p: Seq<char>, cs: Seq<char>) -> int {
    if cfg.v2 && s_fuzzy(cfg, p, cs) is Some { ck_prod(p.len() as int, cs.len() as int) } else { ck_lin(p.len() as int, cs.len() as int) }
}
pub open spec fn ck_term(cfg: Cfg, t: Term, cs: Seq<char>) -> int {
    match t.kind {
        MatchType::Fuzzy => ck_fuzzy(cfg, t.text, cs),
        MatchType::Exact => ck_prod(t.text.len() as int, cs.len() as int),
        _ => ck_lin(t.text.len() as int, cs.len() as int),
    }
}
pub proof fn ck_term_pos(cfg: Cfg, t: Term, cs: Seq<char>)
    ensures ck_term(cfg, t, cs) >= 0
{
    let m = t.text.len() as int;
    let n = cs.len() as int;
    assert(64 * ((m + 1) * (n + 1)) >= 0) by (nonlinear_arith) requires m >= 0, n >= 0;
}
/// the first k terms of a condition
pub open spec fn ck_or(cfg: Cfg, ts: Seq<Term>, cs: Seq<char>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { ck_or(cfg, ts, cs, k - 1) + ck_term(cfg, ts[k - 1], cs) + 1 }
}
pub proof fn ck_or_mono(cfg: Cfg, ts: Seq<Term>, cs: Seq<char>, j: int, k: int)
    requires j <= k
    ensures 0 <= ck_or(cfg, ts, cs, j) <= ck_or(cfg, ts, cs, k)
    decreases k
{
    if k > 0 {
        ck_term_pos(cfg, ts[k - 1], cs);
        if j < k { ck_or_mono(cfg, ts, cs, j, k - 1); } else { ck_or_mono(cfg, ts, cs, k - 1, k - 1); }
    }
}
/// the first k conditions
pub open spec fn ck_and(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, k: int) -> int decreases k {
    if k <= 0 { 0 } else { ck_and(cfg, q, cs, k - 1) + ck_or(cfg, q[k - 1], cs, q[k - 1].len() as int) + 2 }
}
pub proof fn ck_and_mono(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, j: int, k: int)
    requires j <= k
    ensures 0 <= ck_and(cfg, q, cs, j) <= ck_and(cfg, q, cs, k)
    decreases k
{
    if k > 0 {
        ck_or_mono(cfg, q[k - 1], cs, 0, q[k - 1].len() as int);
        if j < k { ck_and_mono(cfg, q, cs, j, k - 1); } else { ck_and_mono(cfg, q, cs, k - 1, k - 1); }
    }
}
pub proof fn ck_or_step(cfg: Cfg, ts: Seq<Term>, cs: Seq<char>, k: int)
    requires 0 <= k < ts.len()
    ensures ck_or(cfg, ts, cs, 0) == 0, ck_or(cfg, ts, cs, k + 1) == ck_or(cfg, ts, cs, k) + ck_term(cfg, ts[k], cs) + 1,
        0 <= ck_or(cfg, ts, cs, k + 1) <= ck_or(cfg, ts, cs, ts.len() as int)
{ ck_or_mono(cfg, ts, cs, k + 1, ts.len() as int); }
pub proof fn ck_and_step(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, k: int)
    requires 0 <= k < q.len()
    ensures ck_and(cfg, q, cs, 0) == 0, ck_and(cfg, q, cs, k + 1) == ck_and(cfg, q, cs, k) + ck_or(cfg, q[k], cs, q[k].len() as int) + 2,
        0 <= ck_and(cfg, q, cs, k + 1) <= ck_and(cfg, q, cs, q.len() as int), ck_and(cfg, q, cs, k) >= 0
{ ck_and_mono(cfg, q, cs, k + 1, q.len() as int); ck_and_mono(cfg, q, cs, k, k + 1); }
pub proof fn ck_one(cfg: Cfg, p: Term, cs: Seq<char>)
    requires p.kind is Fuzzy
    ensures ck_and(cfg, seq![seq![p]], cs, 1) >= ck_fuzzy(cfg, p.text, cs) + 1
{
    let q = seq![seq![p]];
    ck_and_step(cfg, q, cs, 0);
    ck_or_step(cfg, q[0], cs, 0);
}
/// a whole query: its terms, and reading the candidate
pub open spec fn ck_query(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>) -> int {
    ck_and(cfg, q, cs, q.len() as int) + 4 * (encode_utf8(cs).len() + 1)
}
/// C20, read off the contracts of `distance`: q is one plain (fuzzy) term, m its chars, b the bytes of the candidate.
/// Rejecting takes linear time, for both metrics (also where ranges are asked for)
pub proof fn theorem_c20_reject(cfg: Cfg, t: Term, cs: Seq<char>)
    requires t.kind is Fuzzy, !t.neg, s_query(cfg, seq![seq![t]], cs) is None
    ensures ck_query(cfg, seq![seq![t]], cs) <= 64 * (t.text.len() + encode_utf8(cs).len() + 2), //[C20]
{
    ck_one_is(cfg, t, cs);
    let q = seq![seq![t]];
    assert(s_and(cfg, q, cs, 0) is Some);
    assert(s_or(cfg, q[0], cs, 1) is None);
    assert(s_or(cfg, q[0], cs, 0) is None);
    utf8_len_ge(cs);
}
/// FzfV1 always takes linear time
pub proof fn theorem_c20_v1(cfg: Cfg, t: Term, cs: Seq<char>)
    requires t.kind is Fuzzy, !cfg.v2
    ensures ck_query(cfg, seq![seq![t]], cs) <= 64 * (t.text.len() + encode_utf8(cs).len() + 2), //[C20]
{ ck_one_is(cfg, t, cs); utf8_len_ge(cs); }
/// any term, any metric: the product of the lengths
pub proof fn theorem_c20_product(cfg: Cfg, t: Term, cs: Seq<char>)
    ensures ck_query(cfg, seq![seq![t]], cs) <= 128 * ((t.text.len() + 1) * (encode_utf8(cs).len() + 1)), //[C20]
{
    ck_one_is(cfg, t, cs);
    utf8_len_ge(cs);
    let m = t.text.len() as int;
    let n = cs.len() as int;
    let b = encode_utf8(cs).len() as int;
    ck_lin_le(m, n);
    assert(64 * ((m + 1) * (n + 1)) + 3 + 4 * (b + 1) <= 128 * ((m + 1) * (b + 1))) by (nonlinear_arith) requires 0 <= m, 0 <= n <= b;
}
pub proof fn ck_one_is(cfg: Cfg, t: Term, cs: Seq<char>)
    ensures ck_query(cfg, seq![seq![t]], cs) == ck_term(cfg, t, cs) + 3 + 4 * (encode_utf8(cs).len() + 1)
{
    let q = seq![seq![t]];
    ck_and_step(cfg, q, cs, 0);
    ck_or_step(cfg, q[0], cs, 0);
}
/// the ranges cover bytes below e only
pub open spec fn ck_w(rs: Seq<Range<usize>>, from: int, e: int) -> bool { forall|x: int| #[trigger] covers(rs, from, x) ==> x < e }
/// so that there are at most e of them
pub proof fn ck_count(rs: Seq<Range<usize>>, from: int, e: int)
    requires rwf(rs, from), ck_w(rs, from, e), 0 <= from <= rs.len(), e >= 0
    ensures rs.len() - from <= e
{
    if rs.len() > from {
        ck_ends(rs, from, rs.len() - 1);
        let last = rs[rs.len() - 1];
        assert(covers(rs, from, last.end - 1)) by { assert(last.start <= last.end - 1 < last.end); }
    }
}
proof fn ck_ends(rs: Seq<Range<usize>>, from: int, i: int)
    requires rwf(rs, from), 0 <= from <= i < rs.len()
    ensures rs[i].end >= i - from + 1
    decreases i - from
{ if i > from { ck_ends(rs, from, i - 1); } }
/// what is put aside for l ranges: each can be moved e times once more
pub open spec fn ck_own(l: int, e: int) -> int { l * (e + 1) }
/// k insertions among ranges below e
pub open spec fn ck_ins(k: int, e: int) -> int { 2 * (k * (e + 1)) }
/// one term, ranges asked for; e bytes of candidate
pub open spec fn ck_rterm(m: int, e: int) -> int { 128 * ((m + 1) * (e + 1)) }
pub proof fn ck_ins_step(k: int, e: int)
    requires k >= 0, e >= 0
    ensures ck_ins(k + 1, e) == ck_ins(k, e) + 2 * (e + 1), ck_ins(k, e) >= 0, ck_ins(0, e) == 0
{ assert(2 * ((k + 1) * (e + 1)) == 2 * (k * (e + 1)) + 2 * (e + 1) && k * (e + 1) >= 0) by (nonlinear_arith) requires k >= 0, e >= 0; }
/// l0 ranges became l1
pub proof fn ck_moved(t0: int, t1: int, l0: int, l1: int, e: int)
    requires 0 <= l0 <= e, 0 <= l1 <= l0 + 1, t1 <= t0 + (l0 - l1 + 2) * (l0 + 1)
    ensures t1 + ck_own(l1, e) <= t0 + ck_own(l0, e) + 2 * (e + 1)
{
    assert((l0 - l1 + 2) * (l0 + 1) + l1 * (e + 1) <= l0 * (e + 1) + 2 * (e + 1)) by (nonlinear_arith) requires 0 <= l0 <= e, l1 <= l0 + 1;
}
pub proof fn ck_prod_ge(m: int, n: int)
    requires m >= 0, n >= 0
    ensures ck_prod(m, n) >= 64 * (n + 1), ck_prod(m, n) >= 64 * (m + 1)
{ assert((m + 1) * (n + 1) >= n + 1 && (m + 1) * (n + 1) >= m + 1) by (nonlinear_arith) requires m >= 0, n >= 0; }
pub proof fn ck_rterm_ge(m: int, n: int, e: int)
    requires m >= 0, 0 <= n <= e
    ensures ck_prod(m, n) + ck_ins(m, e) + 16 * (n + 1) + 2 * (e + 1) <= ck_rterm(m, e), ck_lin(m, n) <= ck_prod(m, n),
        ck_ins(1, e) == 2 * (e + 1), ck_ins(0, e) == 0, ck_ins(m, e) >= 0, ck_own(0, e) == 0
{
    ck_lin_le(m, n);
    assert(64 * ((m + 1) * (n + 1)) + 2 * (m * (e + 1)) + 16 * (n + 1) + 2 * (e + 1) <= 128 * ((m + 1) * (e + 1)) && 0 <= m * (e + 1)) by (nonlinear_arith)
        requires m >= 0, 0 <= n <= e;
}
/// the first k terms of a condition, ranges asked for
pub open spec fn ck_ror(ts: Seq<Term>, e: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { ck_ror(ts, e, k - 1) + ck_rterm(ts[k - 1].text.len() as int, e) + 1 }
}
pub open spec fn ck_rand(q: Seq<Seq<Term>>, e: int, k: int) -> int decreases k {
    if k <= 0 { 0 } else { ck_rand(q, e, k - 1) + ck_ror(q[k - 1], e, q[k - 1].len() as int) + 2 }
}
pub open spec fn ck_rquery(q: Seq<Seq<Term>>, e: int) -> int { ck_rand(q, e, q.len() as int) + 4 * (e + 1) }
pub proof fn ck_ror_mono(ts: Seq<Term>, e: int, j: int, k: int)
    requires j <= k, e >= 0
    ensures 0 <= ck_ror(ts, e, j) <= ck_ror(ts, e, k)
    decreases k
{
    if k > 0 {
        let m = ts[k - 1].text.len() as int;
        assert(128 * ((m + 1) * (e + 1)) >= 0) by (nonlinear_arith) requires m >= 0, e >= 0;
        if j < k { ck_ror_mono(ts, e, j, k - 1); } else { ck_ror_mono(ts, e, k - 1, k - 1); }
    }
}
pub proof fn ck_rand_mono(q: Seq<Seq<Term>>, e: int, j: int, k: int)
    requires j <= k, e >= 0
    ensures 0 <= ck_rand(q, e, j) <= ck_rand(q, e, k)
    decreases k
{
    if k > 0 {
        ck_ror_mono(q[k - 1], e, 0, q[k - 1].len() as int);
        if j < k { ck_rand_mono(q, e, j, k - 1); } else { ck_rand_mono(q, e, k - 1, k - 1); }
    }
}
pub proof fn ck_ror_step(ts: Seq<Term>, e: int, k: int)
    requires 0 <= k < ts.len(), e >= 0
    ensures ck_ror(ts, e, 0) == 0, ck_ror(ts, e, k + 1) == ck_ror(ts, e, k) + ck_rterm(ts[k].text.len() as int, e) + 1,
        0 <= ck_ror(ts, e, k + 1) <= ck_ror(ts, e, ts.len() as int)
{ ck_ror_mono(ts, e, k + 1, ts.len() as int); }
pub proof fn ck_rand_step(q: Seq<Seq<Term>>, e: int, k: int)
    requires 0 <= k < q.len(), e >= 0
    ensures ck_rand(q, e, 0) == 0, ck_rand(q, e, k + 1) == ck_rand(q, e, k) + ck_ror(q[k], e, q[k].len() as int) + 2,
        0 <= ck_rand(q, e, k + 1) <= ck_rand(q, e, q.len() as int), ck_rand(q, e, k) >= 0
{ ck_rand_mono(q, e, k + 1, q.len() as int); ck_rand_mono(q, e, k, k + 1); }
pub proof fn ck_rone(p: Term, e: int)
    requires e >= 0
    ensures ck_rand(seq![seq![p]], e, 1) == ck_rterm(p.text.len() as int, e) + 3
{
    let q = seq![seq![p]];
    ck_rand_step(q, e, 0);
    ck_ror_step(q[0], e, 0);
}
/// q is one term, and not one that FzfV2 looks for
pub open spec fn ck_single(cfg: Cfg, q: Seq<Seq<Term>>) -> bool { q.len() == 1 && q[0].len() == 1 && !(cfg.v2 && q[0][0].kind is Fuzzy) }
pub proof fn ck_empty(rs: Seq<Range<usize>>, n: int, e: int)
    requires n == rs.len(), e >= 0
    ensures rwf(rs, n), ck_w(rs, n, e), ck_own(0, e) == 0, forall|l: int| l >= 0 ==> #[trigger] ck_own(l, e) >= l
{
    assert(0 * (e + 1) == 0);
    assert forall|l: int| l >= 0 implies #[trigger] ck_own(l, e) >= l by { ck_clear(l, e); }
}
pub proof fn ck_clear(l: int, e: int)
    requires l >= 0, e >= 0
    ensures ck_own(l, e) >= l
{ assert(l * (e + 1) >= l) by (nonlinear_arith) requires l >= 0, e >= 0; }
/// C20 where ranges are asked for: q is one term, e the bytes of the candidate
pub proof fn theorem_c20_ranges(p: Term, e: int)
    requires e >= 0
    ensures ck_rquery(seq![seq![p]], e) <= 160 * ((p.text.len() + 1) * (e + 1)), //[C20]
{
    ck_rone(p, e);
    let m = p.text.len() as int;
    assert(128 * ((m + 1) * (e + 1)) + 3 + 4 * (e + 1) <= 160 * ((m + 1) * (e + 1))) by (nonlinear_arith) requires m >= 0, e >= 0;
}
/// the bytes of a text, counted char by char
pub open spec fn ck_bytes(cs: Seq<char>) -> int { boff(cs, cs.len() as int) }
pub proof fn ck_bytes_is(cs: Seq<char>)
    ensures ck_bytes(cs) == encode_utf8(cs).len()
{ boff_is_utf8(cs, cs.len() as int); assert(cs.subrange(0, cs.len() as int) =~= cs); }
pub proof fn ck_boffs(cs: Seq<char>)
    ensures forall|k: int| 0 <= k <= cs.len() ==> #[trigger] boff(cs, k) <= ck_bytes(cs), cs.len() <= ck_bytes(cs)
{
    boff_mono(cs, 0, cs.len() as int);
    assert forall|k: int| 0 <= k <= cs.len() implies #[trigger] boff(cs, k) <= ck_bytes(cs) by { boff_mono(cs, k, cs.len() as int); }
}
pub trait VxStrCost { fn vx_is_ascii(&self, c: Tracked<&mut VxClk>) -> bool; }
impl VxStrCost for str {
    fn vx_is_ascii(&self, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: bool)
        ensures call_ensures(str::is_ascii, (self,), r), final(vx_clk).t == old(vx_clk).t + encode_utf8(self@).len()
    { proof { vx_clk.tick(encode_utf8(self@).len()); } self.is_ascii() }
}
pub trait VxCharCost { fn vx_is_ascii(&self) -> bool; }
impl VxCharCost for char {
    fn vx_is_ascii(&self) -> (r: bool) ensures r == ((*self as u32) < 128) { self.is_ascii() }
}
pub trait VxRangeCost: Sized { fn vx_clone(&self) -> Self; }
impl VxRangeCost for Range<usize> {
    fn vx_clone(&self) -> (r: Self) ensures r == *self { self.clone() }
}
pub trait VxVecCost<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_resize(&mut self, n: usize, v: T, c: Tracked<&mut VxClk>);
    fn vx_insert(&mut self, i: usize, v: T, c: Tracked<&mut VxClk>) requires i <= old(self).vx_seq().len();
    fn vx_remove(&mut self, i: usize, c: Tracked<&mut VxClk>) -> T requires i < old(self).vx_seq().len();
    fn vx_truncate(&mut self, n: usize, c: Tracked<&mut VxClk>);
}
impl<T: Clone> VxVecCost<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_resize(&mut self, n: usize, v: T, Tracked(vx_clk): Tracked<&mut VxClk>)
        ensures
            final(self)@.len() == n,
            n <= old(self)@.len() ==> final(self)@ == old(self)@.subrange(0, n as int),
            n > old(self)@.len() ==> {
                &&& final(self)@.subrange(0, old(self)@.len() as int) == old(self)@
                &&& forall|i| #![all_triggers] old(self)@.len() <= i < n ==> cloned::<T>(v, final(self)@[i])
            },
            final(vx_clk).t == old(vx_clk).t + n,
    { proof { vx_clk.tick(n as nat); } self.resize(n, v) }
    fn vx_insert(&mut self, i: usize, v: T, Tracked(vx_clk): Tracked<&mut VxClk>)
        ensures final(self)@ == old(self)@.insert(i as int, v), final(vx_clk).t == old(vx_clk).t + old(self)@.len() - i,
    { proof { vx_clk.tick((self@.len() - i) as nat); } self.insert(i, v) }
    fn vx_remove(&mut self, i: usize, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: T)
        ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int), final(vx_clk).t == old(vx_clk).t + old(self)@.len() - i,
    { assert(self.vx_seq() == self@); proof { vx_clk.tick((self@.len() - i) as nat); } self.remove(i) }
    fn vx_truncate(&mut self, n: usize, Tracked(vx_clk): Tracked<&mut VxClk>)
        ensures n <= old(self)@.len() ==> final(self)@ == old(self)@.subrange(0, n as int),
            n > old(self)@.len() ==> final(self)@ == old(self)@,
            final(vx_clk).t == old(vx_clk).t + (if n < old(self)@.len() { old(self)@.len() - n } else { 0int }),
    { proof { vx_clk.tick(if n < self@.len() { (self@.len() - n) as nat } else { 0 }); } self.truncate(n) }
}
pub fn vx_vec<T: Clone>(v: T, n: usize, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(v, #[trigger] r@[i]), final(vx_clk).t == old(vx_clk).t + n,
{ proof { vx_clk.tick(n as nat); } vec![v; n] }
pub trait VxSliceCost<T> { fn vx_fill(&mut self, v: T, c: Tracked<&mut VxClk>); }
impl<T: Clone> VxSliceCost<T> for [T] {
    fn vx_fill(&mut self, v: T, Tracked(vx_clk): Tracked<&mut VxClk>)
        ensures
            final(self)@.len() == old(self)@.len(), forall|i: int| 0 <= i < final(self)@.len() ==> cloned(v, #[trigger] final(self)@[i]),
            final(vx_clk).t == old(vx_clk).t + old(self)@.len(),
    { proof { vx_clk.tick(self@.len()); } self.fill(v) }
}

@@ clock-items root
pub mod vxcost {
use vstd::prelude::*;
use vstd::utf8::*;
use core::ops::Range;
use crate::vxspec::*;
use crate::*;
use crate::metrics::fzf::fzf::Fzf;
use crate::metrics::fzf::query::*;
use crate::metrics::fzf::distance::FzfDistance;
use crate::metrics::fzf::fzf_v1::FzfV1;
use crate::metrics::fzf::fzf_v2::FzfV2;
/// C20 of Fzf V1, as a user of the crate sees it
pub fn api_cost_v1(m: &mut FzfV1, query: FzfQuery<'_>, c: &str, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<FzfDistance>)
    requires sc_wf(old(m).cfg().scheme), query.wf(), c@.len() <= MAXLEN
    ensures
        forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] ==> final(vx_clk).t <= old(vx_clk).t + 128 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)), //[C20]
        r is None ==> forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg ==>
            final(vx_clk).t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2), //[C20]
        forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy ==>
            final(vx_clk).t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2), //[C20]
{
    let ghost cfg = m.cfg();
    let r = m.distance(query, c, Tracked(&mut *vx_clk));
    proof {
        assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] implies
            vx_clk.t <= old(vx_clk).t + 128 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)) by { theorem_c20_product(cfg, t, c@); }
        if r is None {
            assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg implies
                vx_clk.t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2) by { theorem_c20_reject(cfg, t, c@); }
        }
        assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy implies
            vx_clk.t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2) by { theorem_c20_v1(cfg, t, c@); }
    }
    r
}
/// the same, ranges asked for
pub fn api_cost_ranges_v1(m: &mut FzfV1, query: FzfQuery<'_>, c: &str, ranges: &mut Vec<Range<usize>>, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<FzfDistance>)
    requires sc_wf(old(m).cfg().scheme), query.wf(), c@.len() <= MAXLEN
    ensures
        forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy ==>
            final(vx_clk).t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2), //[C20]
        final(vx_clk).t <= old(vx_clk).t + ck_rquery(query.conds(), encode_utf8(c@).len() as int), //[C20]
        forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] ==> final(vx_clk).t <= old(vx_clk).t + 160 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)), //[C20]
        r is None ==> forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg ==>
            final(vx_clk).t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2), //[C20]
{
    let ghost cfg = m.cfg();
    let r = m.distance_and_ranges(query, c, ranges, Tracked(&mut *vx_clk));
    proof {
        assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy implies
            vx_clk.t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2) by {
            assert(query.conds()[0] == seq![t]);
            theorem_c20_v1(cfg, t, c@);
        }
        assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] implies
            vx_clk.t <= old(vx_clk).t + 160 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)) by { theorem_c20_ranges(t, encode_utf8(c@).len() as int); }
        if r is None {
            assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg implies
                vx_clk.t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2) by { theorem_c20_reject(cfg, t, c@); }
        }
    }
    r
}
// the verifier must reject this: if it accepts it, the contracts or axioms contradict each other
fn vx_probe_cost_v1(m: &mut FzfV1, query: FzfQuery<'_>, c: &str, ranges: &mut Vec<Range<usize>>, Tracked(vx_clk): Tracked<&mut VxClk>)
    requires sc_wf(old(m).cfg().scheme), query.wf(), c@.len() <= MAXLEN
{
    let a = m.distance(query, c, Tracked(&mut *vx_clk));
    let b = m.distance_and_ranges(query, c, ranges, Tracked(&mut *vx_clk));
    assert(false);
}
/// C20 of Fzf V2, as a user of the crate sees it
pub fn api_cost_v2(m: &mut FzfV2, query: FzfQuery<'_>, c: &str, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<FzfDistance>)
    requires sc_wf(old(m).cfg().scheme), query.wf(), c@.len() <= MAXLEN
    ensures
        forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] ==> final(vx_clk).t <= old(vx_clk).t + 128 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)), //[C20]
        r is None ==> forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg ==>
            final(vx_clk).t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2), //[C20]
{
    let ghost cfg = m.cfg();
    let r = m.distance(query, c, Tracked(&mut *vx_clk));
    proof {
        assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] implies
            vx_clk.t <= old(vx_clk).t + 128 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)) by { theorem_c20_product(cfg, t, c@); }
        if r is None {
            assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg implies
                vx_clk.t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2) by { theorem_c20_reject(cfg, t, c@); }
        }
    }
    r
}
/// the same, ranges asked for
pub fn api_cost_ranges_v2(m: &mut FzfV2, query: FzfQuery<'_>, c: &str, ranges: &mut Vec<Range<usize>>, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<FzfDistance>)
    requires sc_wf(old(m).cfg().scheme), query.wf(), c@.len() <= MAXLEN
    ensures
        final(vx_clk).t <= old(vx_clk).t + ck_rquery(query.conds(), encode_utf8(c@).len() as int), //[C20]
        forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] ==> final(vx_clk).t <= old(vx_clk).t + 160 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)), //[C20]
        r is None ==> forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg ==>
            final(vx_clk).t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2), //[C20]
{
    let ghost cfg = m.cfg();
    let r = m.distance_and_ranges(query, c, ranges, Tracked(&mut *vx_clk));
    proof {
        assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] implies
            vx_clk.t <= old(vx_clk).t + 160 * ((t.text.len() + 1) * (encode_utf8(c@).len() + 1)) by { theorem_c20_ranges(t, encode_utf8(c@).len() as int); }
        if r is None {
            assert forall|t: Term| #![all_triggers] query.conds() == seq![seq![t]] && t.kind is Fuzzy && !t.neg implies
                vx_clk.t <= old(vx_clk).t + 64 * (t.text.len() + encode_utf8(c@).len() + 2) by { theorem_c20_reject(cfg, t, c@); }
        }
    }
    r
}
// the verifier must reject this: if it accepts it, the contracts or axioms contradict each other
fn vx_probe_cost_v2(m: &mut FzfV2, query: FzfQuery<'_>, c: &str, ranges: &mut Vec<Range<usize>>, Tracked(vx_clk): Tracked<&mut VxClk>)
    requires sc_wf(old(m).cfg().scheme), query.wf(), c@.len() <= MAXLEN
{
    let a = m.distance(query, c, Tracked(&mut *vx_clk));
    let b = m.distance_and_ranges(query, c, ranges, Tracked(&mut *vx_clk));
    assert(false);
}
} // mod vxcost

@@ clock-items memchr
use crate::VxClk;
/// stands in for the memchr crate: its contracts are assumed of the crate, and
/// hold of these bodies
pub fn memchr(n1: u8, haystack: &[u8], Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && haystack@[i as int] == n1 && forall|k: int| 0 <= k < i ==> haystack@[k] != n1,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 },
        final(vx_clk).t == old(vx_clk).t + (match r { Some(i) => i + 1, None => haystack@.len() as int }),
{ memchr2(n1, n1, haystack, Tracked(&mut *vx_clk)) }
pub fn memchr2(n1: u8, n2: u8, haystack: &[u8], Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && (haystack@[i as int] == n1 || haystack@[i as int] == n2)
            && forall|k: int| 0 <= k < i ==> haystack@[k] != n1 && haystack@[k] != n2,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2 },
        final(vx_clk).t == old(vx_clk).t + (match r { Some(i) => i + 1, None => haystack@.len() as int }),
{
    let mut i: usize = 0;
    while i < haystack.len()
        invariant vx_clk.t == old(vx_clk).t + i, i <= haystack@.len(), forall|k: int| 0 <= k < i ==> haystack@[k] != n1 && haystack@[k] != n2,
        decreases haystack@.len() - i
    {
        proof { vx_clk.tick(1); }
        if haystack[i] == n1 || haystack[i] == n2 { return Some(i); }
        i += 1;
    }
    None
}
pub fn memrchr(n1: u8, haystack: &[u8], Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && haystack@[i as int] == n1 && forall|k: int| i < k < haystack@.len() ==> haystack@[k] != n1,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 },
        final(vx_clk).t == old(vx_clk).t + (match r { Some(i) => haystack@.len() - i, None => haystack@.len() as int }),
{ memrchr2(n1, n1, haystack, Tracked(&mut *vx_clk)) }
pub fn memrchr2(n1: u8, n2: u8, haystack: &[u8], Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<usize>)
    ensures match r {
        Some(i) => i < haystack@.len() && (haystack@[i as int] == n1 || haystack@[i as int] == n2)
            && forall|k: int| i < k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2,
        None => forall|k: int| 0 <= k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2 },
        final(vx_clk).t == old(vx_clk).t + (match r { Some(i) => haystack@.len() - i, None => haystack@.len() as int }),
{
    let mut i: usize = haystack.len();
    while i > 0
        invariant vx_clk.t == old(vx_clk).t + haystack@.len() - i, i <= haystack@.len(), forall|k: int| i <= k < haystack@.len() ==> haystack@[k] != n1 && haystack@[k] != n2,
        decreases i
    {
        proof { vx_clk.tick(1); }
        i -= 1;
        if haystack[i] == n1 || haystack[i] == n2 { return Some(i); }
    }
    None
}
pub struct Memchr<'h> { pub n: u8, pub h: &'h [u8], pub pos: usize }
impl<'h> Memchr<'h> {
    pub fn new(n: u8, h: &'h [u8]) -> (r: Self) ensures r.n == n, r.h == h, r.pos == 0 { Memchr { n, h, pos: 0 } }
    pub fn next(&mut self, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<usize>)
        requires old(self).pos <= old(self).h@.len(),
        ensures final(self).n == old(self).n, final(self).h == old(self).h, final(self).pos <= final(self).h@.len(),
            match r {
                Some(i) => old(self).pos <= i < old(self).h@.len() && old(self).h@[i as int] == old(self).n
                    && final(self).pos == i + 1
                    && forall|k: int| old(self).pos <= k < i ==> old(self).h@[k] != old(self).n,
                None => forall|k: int| old(self).pos <= k < old(self).h@.len() ==> old(self).h@[k] != old(self).n,
            },
            final(vx_clk).t == old(vx_clk).t + final(self).pos - old(self).pos, r is None ==> final(self).pos == old(self).h@.len(),
    {
        while self.pos < self.h.len()
            invariant
                vx_clk.t == old(vx_clk).t + self.pos - old(self).pos,
                old(self).pos <= self.pos <= self.h@.len(), self.n == old(self).n, self.h == old(self).h,
                forall|k: int| old(self).pos <= k < self.pos ==> self.h@[k] != self.n,
            decreases self.h@.len() - self.pos
        {
            proof { vx_clk.tick(1); }
            let i = self.pos;
            self.pos = i + 1;
            if self.h[i] == self.n { return Some(i); }
        }
        None
    }
}
pub struct Memchr2<'h> { pub n1: u8, pub n2: u8, pub h: &'h [u8], pub pos: usize }
impl<'h> Memchr2<'h> {
    pub fn new(n1: u8, n2: u8, h: &'h [u8]) -> (r: Self) ensures r.n1 == n1, r.n2 == n2, r.h == h, r.pos == 0 { Memchr2 { n1, n2, h, pos: 0 } }
    pub fn next(&mut self, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: Option<usize>)
        requires old(self).pos <= old(self).h@.len(),
        ensures final(self).n1 == old(self).n1, final(self).n2 == old(self).n2, final(self).h == old(self).h, final(self).pos <= final(self).h@.len(),
            match r {
                Some(i) => old(self).pos <= i < old(self).h@.len()
                    && (old(self).h@[i as int] == old(self).n1 || old(self).h@[i as int] == old(self).n2)
                    && final(self).pos == i + 1
                    && forall|k: int| old(self).pos <= k < i ==> old(self).h@[k] != old(self).n1 && old(self).h@[k] != old(self).n2,
                None => forall|k: int| old(self).pos <= k < old(self).h@.len() ==> old(self).h@[k] != old(self).n1 && old(self).h@[k] != old(self).n2,
            },
            final(vx_clk).t == old(vx_clk).t + final(self).pos - old(self).pos, r is None ==> final(self).pos == old(self).h@.len(),
    {
        while self.pos < self.h.len()
            invariant
                vx_clk.t == old(vx_clk).t + self.pos - old(self).pos,
                old(self).pos <= self.pos <= self.h@.len(), self.n1 == old(self).n1, self.n2 == old(self).n2, self.h == old(self).h,
                forall|k: int| old(self).pos <= k < self.pos ==> self.h@[k] != self.n1 && self.h@[k] != self.n2,
            decreases self.h@.len() - self.pos
        {
            proof { vx_clk.tick(1); }
            let i = self.pos;
            self.pos = i + 1;
            if self.h[i] == self.n1 || self.h[i] == self.n2 { return Some(i); }
        }
        None
    }
}


@@ cost candidate::Candidate::leading_spaces
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (self.v().len() + 1), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_acc1,
    ensures vx_clk.t <= old(vx_clk).t + vx_acc1 + 1,
@loop 1
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_acc3,
    ensures vx_clk.t <= old(vx_clk).t + vx_acc3 + 1,

@@ cost candidate::Candidate::trailing_spaces
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (self.v().len() + 1), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_acc1,
    ensures vx_clk.t <= old(vx_clk).t + vx_acc1 + 1,
@loop 1
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_acc3,
    ensures vx_clk.t <= old(vx_clk).t + vx_acc3 + 1,

@@ cost candidate::find_first_ascii
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_first(vx_r, 0, haystack@.len() as int), //[C20]

@@ cost candidate::find_last_ascii
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_last(vx_r, haystack@.len() as int), //[C20]

@@ cost candidate::find_first_unicode
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_first(vx_r, 0, haystack@.len() as int), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_it0.lo,
    ensures vx_clk.t <= old(vx_clk).t + ck_first(vx_acc2, 0, haystack@.len() as int),

@@ cost candidate::find_last_unicode
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_last(vx_r, haystack@.len() as int), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + haystack@.len() - vx_it0.hi,
    ensures vx_clk.t <= old(vx_clk).t + ck_last(vx_acc2, haystack@.len() as int),

@@ cost candidate::Candidate::find_first_from
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_first(vx_r, char_offset as int, self.v().len() as int), //[C20]

@@ cost candidate::Candidate::find_last
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_last(vx_r, self.v().len() as int), //[C20]

@@ cost candidate::Candidate::find_last_from
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_last(vx_r, end_offset as int), //[C20]

@@ cost candidate::<UnicodeMatches as Iterator>::next
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (match vx_r { Some(r) => r - old(self).offset + 1, None => old(self).haystack@.len() + 1int }), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_it0.lo,
    ensures vx_clk.t <= old(vx_clk).t + (match vx_acc2 { Some(i) => i + 1, None => self.haystack@.len() + 1int }),

@@ cost candidate::<CandidateMatches as Iterator>::next
@contract
    ensures
        final(self).rest().len() <= old(self).rest().len(), //[C20]
        vx_r is Some ==> final(self).rest().len() < old(self).rest().len()
            && final(vx_clk).t <= old(vx_clk).t + 2 * (old(self).rest().len() - final(self).rest().len()), //[C20]
        vx_r is None ==> final(vx_clk).t <= old(vx_clk).t + 2 * (old(self).rest().len() + 1), //[C20]

@@ cost matched_ranges::MatchedRanges::clear
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + old(self).ranges@.len() - old(self).initial_len, //[C20]

@@ cost metrics::fzf::slab::BonusSlab::alloc
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (len + 1), //[C20]
@loop 0
    invariant vx_clk.t <= old(vx_clk).t + len + vx_i0,

@@ cost metrics::fzf::slab::CandidateSlab::alloc
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (encode_utf8(text@).len() + 1), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + encode_utf8(text@).len() + char_len,
    ensures vx_clk.t <= old(vx_clk).t + encode_utf8(text@).len() + text@.len() + 1,

@@ cost metrics::fzf::slab::MatchedIndicesSlab::alloc
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (len + 1), //[C20]

@@ cost metrics::fzf::slab::MatrixSlab::alloc
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (height * width + 1), //[C20]

@@ cost metrics::fzf::candidate::CandidateV2::new
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 4 * (base.v().len() + 1), //[C20]

@@ cost metrics::fzf::fzf::ignored_candidate_leading_spaces
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 4 * (candidate.v().len() + 1), //[C20]

@@ cost metrics::fzf::fzf::ignored_candidate_trailing_spaces
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 4 * (candidate.v().len() + 1), //[C20]

@@ cost metrics::fzf::fzf::compute_score
@contract
    ensures !RANGES ==> final(vx_clk).t <= old(vx_clk).t + 2 * (candidate.v().len() + 1), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            2 * (candidate.v().len() + 1) + ck_ins(pattern.text@.len() as int, ck_bytes(candidate.v()))), //[C20]
        RANGES && old(ranges).none() ==> final(vx_clk).t <= old(vx_clk).t + 2 * (candidate.v().len() + 1), //[C20]
@loop 0
    invariant_except_break !RANGES ==> vx_clk.t <= old(vx_clk).t + i - s,
        RANGES ==> ranges.spent(vx_clk.t as int, *old(ranges), old(vx_clk).t as int, bb, i + 1 + ck_ins(j, bb)),
        RANGES && old(ranges).none() ==> ranges.below(boff(cs, i)) && vx_clk.t <= old(vx_clk).t + i + 1,
    invariant bb == ck_bytes(cs), forall|k: int| 0 <= k <= cs.len() ==> #[trigger] boff(cs, k) <= bb, bb >= 0,
    ensures !RANGES ==> vx_clk.t <= old(vx_clk).t + t - s + 1,
        RANGES ==> ranges.spent(vx_clk.t as int, *old(ranges), old(vx_clk).t as int, bb, t + 2 + ck_ins(n, bb)),
        RANGES && old(ranges).none() ==> vx_clk.t <= old(vx_clk).t + t + 2,
@proof start
    let ghost bb = ck_bytes(candidate.v());
    proof { ck_boffs(candidate.v()); ck_ins_step(0, bb); }
@proof loop 0 head
    proof { ck_ins_step(j, bb); }

@@ cost metrics::fzf::fzf::prefix_match
@contract
    ensures !RANGES || vx_r is None || old(ranges).none() ==> final(vx_clk).t <= old(vx_clk).t + ck_lin(pattern.text@.len() as int, candidate.v().len() as int), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v()))), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + 4 * (len + 1) + k,
    invariant ck_lin(pattern.text@.len() as int, candidate.v().len() as int) <= ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v())),
    ensures vx_clk.t <= old(vx_clk).t + 4 * (len + 1) + len + 1,
@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(pattern.text@.len() as int, candidate.v().len() as int, ck_bytes(candidate.v())); }
@proof before ranges.insert
    assert(ranges.below(ck_bytes(candidate.v())) == old(ranges).below(ck_bytes(candidate.v())));

@@ cost metrics::fzf::fzf::suffix_match
@contract
    ensures !RANGES || vx_r is None || old(ranges).none() ==> final(vx_clk).t <= old(vx_clk).t + ck_lin(pattern.text@.len() as int, candidate.v().len() as int), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v()))), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + 4 * (len + 1) + k,
    invariant ck_lin(pattern.text@.len() as int, candidate.v().len() as int) <= ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v())),
    ensures vx_clk.t <= old(vx_clk).t + 4 * (len + 1) + len + 1,
@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(pattern.text@.len() as int, candidate.v().len() as int, ck_bytes(candidate.v())); }
@proof before ranges.insert
    assert(ranges.below(ck_bytes(candidate.v())) == old(ranges).below(ck_bytes(candidate.v())));

@@ cost metrics::fzf::fzf::equal_match
@contract
    ensures !RANGES || vx_r is None || old(ranges).none() ==> final(vx_clk).t <= old(vx_clk).t + ck_lin(pattern.text@.len() as int, candidate.v().len() as int), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v()))), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + 8 * (len + 1) + k,
    invariant ck_lin(pattern.text@.len() as int, candidate.v().len() as int) <= ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v())),
    ensures vx_clk.t <= old(vx_clk).t + 8 * (len + 1) + n + 1,
@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(pattern.text@.len() as int, candidate.v().len() as int, ck_bytes(candidate.v())); }
@proof before ranges.insert
    assert(ranges.below(ck_bytes(candidate.v())) == old(ranges).below(ck_bytes(candidate.v())));

@@ cost metrics::fzf::fzf::exact_match
@contract
    ensures !RANGES || vx_r is None || old(ranges).none() ==> final(vx_clk).t <= old(vx_clk).t + ck_prod(pattern.text@.len() as int, candidate.v().len() as int), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v()))), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + ck_steps(n, start_offset as int),
    ensures vx_clk.t <= old(vx_clk).t + ck_steps(n, len + 1),
@loop 1
    invariant_except_break vx_clk.t <= vx_t1 + i - c,
    invariant vx_t1 <= old(vx_clk).t + ck_steps(n, c) + 1,
        forall|k: int| c < k ==> #[trigger] ck_steps(n, k) >= ck_steps(n, c) + (k - c) + n + 4,
    ensures
        chars.rem().len() > 0 ==> vx_clk.t <= old(vx_clk).t + ck_steps(n, start_offset as int),
        vx_clk.t <= old(vx_clk).t + ck_steps(n, len + 1),
@proof loop 0 head
    let ghost vx_t1 = vx_clk.t;
    proof { ck_steps_step(n, start_offset as int); }
@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(pattern.text@.len() as int, candidate.v().len() as int, ck_bytes(candidate.v())); }
    proof { ck_steps_prod(pattern.text@.len() as int, candidate.v().len() as int); }
@proof before ranges.insert
    assert(ranges.below(ck_bytes(candidate.v())) == old(ranges).below(ck_bytes(candidate.v())));

@@ clock-items metrics::fzf::fzf
/// looking for an exact term of n chars from each of k offsets
pub open spec fn ck_steps(n: int, k: int) -> int { (n + 8) * k }
pub proof fn ck_steps_step(n: int, c: int)
    requires n >= 0, c >= 0
    ensures forall|k: int| c < k ==> #[trigger] ck_steps(n, k) >= ck_steps(n, c) + (k - c) + n + 4
{
    assert forall|k: int| c < k implies #[trigger] ck_steps(n, k) >= ck_steps(n, c) + (k - c) + n + 4 by {
        assert((n + 8) * k >= (n + 8) * c + (k - c) + n + 4) by (nonlinear_arith) requires n >= 0, 0 <= c < k;
    }
}
pub proof fn ck_steps_prod(n: int, len: int)
    requires n >= 0, len >= 0
    ensures ck_steps(n, 0) == 0, 0 <= ck_steps(n, len + 1) + 8 * (len + 1) <= ck_prod(n, len)
{
    assert((n + 8) * 0 == 0 && 0 <= (n + 8) * (len + 1) && (n + 8) * (len + 1) + 8 * (len + 1) <= 64 * ((n + 1) * (len + 1))) by (nonlinear_arith) requires n >= 0, len >= 0;
}

@@ cost metrics::fzf::fzf_v1::forward_pass
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 4 * (candidate.v().len() + 1), //[C20]
@loop 0
    invariant vx_clk.t <= old(vx_clk).t + 3 * end_offset,

@@ cost metrics::fzf::fzf_v1::backward_pass
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 4 * (candidate.v().len() + 1), //[C20]
@loop 0
    invariant vx_clk.t <= old(vx_clk).t + 3 * (end_offset - start_offset),

@@ cost metrics::fzf::fzf_v2::matches
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 8 * (pattern.text@.len() + candidate.v().len() + 2), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + 2 * (n + 1) + 3 * last_match_offset,
    ensures vx_clk.t <= old(vx_clk).t + 2 * (n + 1) + 3 * cs.len(),

@@ cost metrics::fzf::fzf::Fzf::alloc_chars
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 2 * (encode_utf8(candidate@).len() + 1), //[C20]

@@ cost metrics::fzf::fzf::Fzf::fuzzy
@contract
    ensures !RANGES || vx_r is None || (old(ranges).none() && !old(self).cfg().v2) ==> final(vx_clk).t <= old(vx_clk).t + ck_fuzzy(old(self).cfg(), pattern.text@, candidate.v()), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v()))), //[C20]


@@ cost metrics::fzf::fzf_v2::fuzzy_single_char
@contract
    ensures !RANGES || vx_r is None ==> final(vx_clk).t <= old(vx_clk).t + 8 * (candidate.v().len() + 1), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            ck_rterm(1, ck_bytes(candidate.v()))), //[C20]
@loop 0
    invariant_except_break vx_clk.t + 4 * vx_it0.rest().len() <= old(vx_clk).t + 4 * cs.len(),
    ensures vx_clk.t <= old(vx_clk).t + 4 * (cs.len() + 1),
@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(1, candidate.v().len() as int, ck_bytes(candidate.v())); ck_prod_ge(1, candidate.v().len() as int); }
@proof before ranges.insert
    assert(ranges.below(ck_bytes(candidate.v())) == old(ranges).below(ck_bytes(candidate.v())));

@@ clock-items metrics::fzf::fzf_v2
/// scoring k rows of w cells
pub open spec fn ck_rows(w: int, k: int) -> int { (10 * w + 16) * k }
pub proof fn ck_rows_step(w: int, k: int)
    requires w >= 0, k >= 0
    ensures ck_rows(w, k + 1) == ck_rows(w, k) + 10 * w + 16, ck_rows(w, k) >= 0
{
    assert((10 * w + 16) * (k + 1) == (10 * w + 16) * k + 10 * w + 16 && (10 * w + 16) * k >= 0) by (nonlinear_arith) requires w >= 0, k >= 0;
}
/// all of FzfV2's steps for a candidate it matches
pub proof fn ck_v2_all(m: int, n: int, w: int)
    requires m >= 1, n >= 0, 0 <= w <= n
    ensures 4 * (m * w + 1) + ck_rows(w, m) + 24 * (m + n + 2) <= ck_prod(m, n)
{
    assert(4 * (m * w + 1) + (10 * w + 16) * m + 24 * (m + n + 2) <= 64 * ((m + 1) * (n + 1))) by (nonlinear_arith)
        requires m >= 1, n >= 0, 0 <= w <= n;
}

@@ clock-items metrics::fzf::fzf_v2
/// marking k chars on a walk over w columns
pub open spec fn ck_walk(k: int, w: int, e: int) -> int { (k + 1) * (w + 1) + ck_ins(k, e) }
pub proof fn ck_walk_step(k: int, w: int, e: int)
    requires k >= 0, e >= 0
    ensures ck_walk(k + 1, w, e) == ck_walk(k, w, e) + w + 1 + 2 * (e + 1), ck_walk(0, w, e) == w + 1
{
    assert(0 * (e + 1) == 0);
    ck_ins_step(k, e);
    assert((k + 2) * (w + 1) == (k + 1) * (w + 1) + w + 1) by (nonlinear_arith);
}
pub proof fn ck_walk_mono(k: int, m: int, w: int, e: int)
    requires 0 <= k <= m, w >= 0, e >= 0
    ensures ck_walk(k, w, e) <= ck_walk(m, w, e), ck_walk(0, w, e) == w + 1
    decreases m - k
{ ck_walk_step(k, w, e); if k < m { ck_walk_mono(k + 1, m, w, e); } }
pub proof fn ck_v2_ranges(m: int, n: int, w: int, e: int)
    requires m >= 1, 0 <= w <= n <= e
    ensures ck_prod(m, n) + w + ck_walk(m, w, e) + n + 1 <= ck_rterm(m, e)
{
    assert(64 * ((m + 1) * (n + 1)) + w + (m + 1) * (w + 1) + 2 * (m * (e + 1)) + n + 1 <= 128 * ((m + 1) * (e + 1))) by (nonlinear_arith)
        requires m >= 1, 0 <= w <= n <= e;
}

@@ cost metrics::fzf::fzf_v2::score_first_row
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 8 * old(candidate).base.v().len() + 8, //[C20]
@loop 0
    invariant_except_break vx_clk.t + 4 * vx_it0.rest().len() <= old(vx_clk).t + 4 * w + done,
    ensures vx_clk.t <= old(vx_clk).t + 4 * w + 4 + done,
@loop 1
    invariant
        done == 0 ==> vx_clk.t <= vx_t1,
        done > 0 ==> vx_clk.t <= vx_t1 + vx_i1 - done,
@proof loop 1 before
    let ghost vx_t1 = vx_clk.t;
@loop 2
    invariant vx_clk.t <= old(vx_clk).t + 4 * w + 4 + vx_i2,

@@ cost metrics::fzf::fzf_v2::score_remaining_rows
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_rows(old(candidate).base.v().len() as int, pattern.text@.len() as int), //[C20]
@loop 0
    invariant vx_clk.t <= old(vx_clk).t + ck_rows(w, vx_i0 as int),
@proof loop 0 head
    let ghost vx_t0 = vx_clk.t;
    proof { ck_rows_step(w, vx_i0 as int); }
@loop 1
    invariant_except_break vx_clk.t + 4 * vx_it1.rest().len() <= vx_t0 + 4 * w + done,
    ensures vx_clk.t <= vx_t0 + 4 * w + 4 + done,
@loop 2
    invariant
        done == f ==> vx_clk.t <= vx_t2,
        done > f ==> vx_clk.t <= vx_t2 + vx_i2 - done,
@proof loop 2 before
    let ghost vx_t2 = vx_clk.t;
@loop 3
    invariant vx_clk.t <= vx_t0 + 4 * w + 4 + vx_i3,
@proof start
    proof { ck_rows_step(candidate.base.v().len() as int, 0); }

@@ cost metrics::fzf::fzf_v2::score
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 4 * (pattern.text@.len() * old(candidate).base.v().len() + 1)
        + ck_rows(old(candidate).base.v().len() as int, pattern.text@.len() as int) + 8 * old(candidate).base.v().len() + 8, //[C20]

@@ cost metrics::fzf::fzf_v2::<FzfV2 as Fzf>::fuzzy
@loop 0
    invariant vx_clk.t <= vx_t1 + vx_i0,
@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(pattern.text@.len() as int, candidate.v().len() as int, ck_bytes(candidate.v())); }
@proof loop 0 before
    let ghost vx_t1 = vx_clk.t;
    proof { ck_v2_all(n, cs.len() as int, z - a); ck_v2_ranges(n, cs.len() as int, z - a, ck_bytes(cs)); }
@proof before matched_ranges
    proof { boff_sub(cs, a, z, z - a); }
    assert(ranges.below(ck_bytes(cs)) == old(ranges).below(ck_bytes(cs)));

@@ cost metrics::fzf::fzf_v1::<FzfV1 as Fzf>::fuzzy
@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(pattern.text@.len() as int, candidate.v().len() as int, ck_bytes(candidate.v())); ck_prod_ge(pattern.text@.len() as int, candidate.v().len() as int); }

@@ cost metrics::fzf::fzf_v2::matched_ranges
@contract
    ensures forall|e: int| #[trigger] old(ranges).below(e) && start_byte_offset + ck_bytes(candidate.v()) <= e ==>
        final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, e, scores.w() + ck_walk(scores.h(), scores.w(), e)), //[C20]
@loop 0
    invariant
        0 <= k <= m,
    invariant_except_break
        k == i0 - row,
        forall|e: int| #[trigger] old(ranges).below(e) && start_byte_offset + ck_bytes(t) <= e ==>
            ranges.spent(vx_clk.t as int, *old(ranges), old(vx_clk).t as int, e, w - 1 - col + ck_walk(k, w, e)),
    ensures
        forall|e: int| #[trigger] old(ranges).below(e) && start_byte_offset + ck_bytes(t) <= e ==>
            ranges.spent(vx_clk.t as int, *old(ranges), old(vx_clk).t as int, e, w + ck_walk(k, w, e)),
@proof start
    let ghost mut k: int = 0;
    proof { ck_boffs(candidate.v()); }
@proof loop 0 before
    proof { assert forall|e: int| e >= 0 implies #[trigger] ck_walk(0, w, e) == w + 1 by { ck_walk_step(0, w, e); } }
@proof loop 0 after
    proof { assert forall|e: int| e >= 0 implies #[trigger] ck_walk(k, w, e) <= ck_walk(m, w, e) by { ck_walk_mono(k, m, w, e); } }
@proof after ranges.insert
    proof {
        assert forall|e: int| #[trigger] old(ranges).below(e) && start_byte_offset + ck_bytes(t) <= e implies
            ranges.spent(vx_clk.t as int, *old(ranges), old(vx_clk).t as int, e, w - col + ck_walk(k + 1, w, e)) by { ck_walk_step(k, w, e); }
        k = k + 1;
    }

@@ cost metrics::fzf::fzf::Fzf::score
@contract
    ensures !RANGES || vx_r is None || pattern.is_inverse || (old(ranges).none() && !(old(self).cfg().v2 && pattern.match_type is Fuzzy)) ==> final(vx_clk).t <= old(vx_clk).t + ck_term(old(self).cfg(), pattern.term(), candidate.v()), //[C20]
        RANGES ==> final(ranges).spent(final(vx_clk).t as int, *old(ranges), old(vx_clk).t as int, ck_bytes(candidate.v()),
            ck_rterm(pattern.text@.len() as int, ck_bytes(candidate.v()))), //[C20]

@proof start
    proof { ck_boffs(candidate.v()); ck_rterm_ge(pattern.text@.len() as int, candidate.v().len() as int, ck_bytes(candidate.v())); }

@@ cost metrics::fzf::fzf::Fzf::distance
@contract
    ensures
        !RANGES ==> final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]
        // a single condition that rejects
        RANGES && query.conds().len() <= 1 && vx_r is None ==> final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]
        // a single term that FzfV2 does not look for
        RANGES && ck_single(old(self).cfg(), query.conds()) ==> final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]
        // ranges asked for
        RANGES ==> final(vx_clk).t <= old(vx_clk).t + ck_rquery(query.conds(), encode_utf8(candidate@).len() as int), //[C20]
@loop 0
    invariant
        vx_it0.lo == 0 ==> ranges.ranges@.len() == n,
        bb == ck_bytes(cs), bb == encode_utf8(cs).len(),
    invariant_except_break
        RANGES ==> ranges.below(bb) && vx_clk.t + ranges.aside(bb) <= old(vx_clk).t + 4 * (bb + 1) - 1 + ck_rand(q, bb, vx_it0.lo as int),
        !RANGES || vx_it0.lo == 0 || ck_single(c, q) ==> vx_clk.t <= old(vx_clk).t + 4 * (encode_utf8(cs).len() + 1) - 1 + ck_and(c, q, cs, vx_it0.lo as int),
    ensures
        RANGES ==> ranges.below(bb) && vx_clk.t + ranges.aside(bb) <= old(vx_clk).t + 4 * (bb + 1) + ck_rand(q, bb, vx_it0.lo as int),
        !RANGES || vx_it0.lo == 0 || ck_single(c, q) ==> vx_clk.t <= old(vx_clk).t + 4 * (encode_utf8(cs).len() + 1) + ck_and(c, q, cs, vx_it0.lo as int),
@proof loop 0 head
    let ghost vx_t1 = vx_clk.t;
    let ghost vx_a1 = ranges.aside(bb);
    proof { if vx_it0.lo < q.len() { ck_rand_step(q, bb, vx_it0.lo as int); ck_ror_mono(q[vx_it0.lo as int], bb, 0, q[vx_it0.lo as int].len() as int); } }
    proof { if vx_it0.lo < q.len() { ck_and_step(c, q, cs, vx_it0.lo as int); ck_or_mono(c, q[vx_it0.lo as int], cs, 0, q[vx_it0.lo as int].len() as int); } }
@loop 1
    invariant_except_break
        RANGES ==> ranges.below(bb) && vx_clk.t + ranges.aside(bb) <= vx_t1 + vx_a1 + ck_ror(ts, bb, j),
        !RANGES || k == 0 ==> vx_clk.t <= vx_t1 + ck_or(c, ts, cs, j),
    ensures
        RANGES ==> ranges.below(bb) && vx_clk.t + ranges.aside(bb) <= vx_t1 + vx_a1 + ck_ror(ts, bb, ts.len() as int) + 1,
        !RANGES || (k == 0 && (vx_acc2 is None || ck_single(c, q))) ==> vx_clk.t <= vx_t1 + ck_or(c, ts, cs, ts.len() as int) + 1,
@proof loop 1 head
    proof { if j < ts.len() { ck_or_step(c, ts, cs, j); ck_ror_step(ts, bb, j); } }
@attr verifier::rlimit(200)
@proof start
    hide(ck_term);
    hide(ck_fuzzy);
    hide(ck_or);
    hide(ck_and);
    hide(ck_ror);
    hide(ck_rand);
    hide(ck_rterm);
    hide(ck_own);
    hide(ck_w);
    hide(rwf);
    hide(encode_utf8);
    let ghost bb = ck_bytes(candidate@);
    proof {
        ck_bytes_is(candidate@);
        ck_boffs(candidate@);
        ck_rand_mono(query.conds(), bb, 0, 0);
        ck_empty(ranges@, ranges@.len() as int, bb);
        let q = query.conds();
        let c = self.cfg();
        utf8_len_ge(candidate@);
        ck_and_mono(c, q, candidate@, 0, 0);
        if q.len() > 0 {
            ck_and_step(c, q, candidate@, 0);
            if let SearchMode::NotExtended(p) = query.search_mode {
                assert(q =~= seq![seq![p.term()]]);
                ck_one(c, p.term(), candidate@);
                ck_rone(p.term(), bb);
            }
        }
    }
@proof loop 0 after
    assert(!RANGES ==> vx_clk.t <= old(vx_clk).t + 4 * (encode_utf8(cs).len() + 1) + ck_and(c, q, cs, q.len() as int));
    assert(!RANGES ==> vx_clk.t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), cs));

@@ cost metrics::fzf::fzf_v1::<FzfV1 as Metric>::distance
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]

@@ cost metrics::fzf::fzf_v1::<FzfV1 as Metric>::distance_and_ranges
@contract
    ensures query.conds().len() <= 1 && vx_r is None ==> final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]
        ck_single(old(self).cfg(), query.conds()) ==> final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]
        final(vx_clk).t <= old(vx_clk).t + ck_rquery(query.conds(), encode_utf8(candidate@).len() as int), //[C20]

@@ cost metrics::fzf::fzf_v2::<FzfV2 as Metric>::distance
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]

@@ cost metrics::fzf::fzf_v2::<FzfV2 as Metric>::distance_and_ranges
@contract
    ensures query.conds().len() <= 1 && vx_r is None ==> final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]
        ck_single(old(self).cfg(), query.conds()) ==> final(vx_clk).t <= old(vx_clk).t + ck_query(old(self).cfg(), query.conds(), candidate@), //[C20]
        final(vx_clk).t <= old(vx_clk).t + ck_rquery(query.conds(), encode_utf8(candidate@).len() as int), //[C20]

@@ clock-items matched_ranges
use crate::*;
impl<'a> MatchedRanges<'a> {
    pub open spec fn count(self) -> int { self.ranges@.len() - self.initial_len }
    /// what is put aside for the ranges there are
    pub open spec fn aside(self, e: int) -> int { ck_own(self.count(), e) }
    /// what was spent between o at t0 and self at t1, of what is put aside and b more
    pub open spec fn spent(self, t1: int, o: Self, t0: int, e: int, b: int) -> bool {
        o.below(e) ==> self.below(e) && t1 + self.aside(e) <= t0 + o.aside(e) + b
    }
    pub open spec fn none(self) -> bool { self.count() == 0 }
    pub open spec fn below(self, e: int) -> bool { ck_w(self.ranges@, self.initial_len as int, e) }
}

@@ cost matched_ranges::MatchedRanges::extend_to
@contract
    ensures
        final(self).count() <= old(self).count(),
        final(vx_clk).t <= old(vx_clk).t + (old(self).count() - final(self).count() + 1) * (old(self).count() + 1), //[C20]
@loop 0
    invariant k <= l0, l0 == r0.len() - self.initial_len, l0 >= 1, vx_clk.t <= old(vx_clk).t + k * (l0 + 1),
@proof start
    let ghost l0 = self.count();
@proof loop 0 tail
    proof { assert((k - 1) * (l0 + 1) + l0 + 1 <= k * (l0 + 1)) by (nonlinear_arith); }
@proof end
    proof { assert(k * (l0 + 1) + 1 <= (k + 1) * (l0 + 1)) by (nonlinear_arith) requires l0 >= 0; }

@@ cost matched_ranges::MatchedRanges::insert_at
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + old(self).count() - idx, //[C20]

@@ cost matched_ranges::MatchedRanges::remove
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + old(self).count() - idx, //[C20]

@@ cost matched_ranges::MatchedRanges::insert
@contract
    ensures forall|e: int| #[trigger] old(self).below(e) && new_range.end <= e ==> final(self).below(e)
        && final(vx_clk).t + final(self).aside(e) <= old(vx_clk).t + old(self).aside(e) + 2 * (e + 1), //[C20]
        // after all there are
        old(self).below(new_range.start as int) ==> final(vx_clk).t == old(vx_clk).t && final(self).below(new_range.end as int), //[C20]
@proof after let insert_idx
    proof {
        if old(self).below(new_range.start as int) {
            reveal(rwf);
            reveal(covers);
            assert forall|j: int| self.initial_len <= j < r0.len() implies (#[trigger] r0[j]).start < r0[j].end <= new_range.start by {
                assert(covers(r0, n, r0[j].end - 1)) by { assert(r0[j].start <= r0[j].end - 1 < r0[j].end); }
            }
            assert(insert_idx == self.count()) by { if insert_idx < self.count() { assert(self.own()[insert_idx as int] == r0[n + insert_idx]); } }
        }
    }
@proof before self.extend_to(idx, new_range.end)
    proof {
        if old(self).below(new_range.start as int) {
            reveal(rwf);
            reveal(covers);
            assert(self.own()[idx as int] == r0[n + idx]);
            assert(covers(r0, n, r0[n + idx].start as int));
        }
    }
@proof exits
    proof {
        let l0 = old(self).count();
        let l1 = self.count();
        let t0 = old(vx_clk).t as int;
        let t1 = vx_clk.t as int;
        assert(l1 <= l0 + 1);
        assert(t1 <= t0 + (l0 - l1 + 2) * (l0 + 1)) by (nonlinear_arith)
            requires l0 >= 0, l1 <= l0 + 1, t1 <= t0 + l0 && l1 <= l0 + 1 || t1 <= t0 + (l0 - l1 + 1) * (l0 + 1);
        if old(self).below(new_range.start as int) { reveal(adds); }
        assert forall|e: int| #[trigger] old(self).below(e) && new_range.end <= e implies self.below(e)
            && t1 + self.aside(e) <= t0 + old(self).aside(e) + 2 * (e + 1) by {
            reveal(adds);
            ck_count(old(self).ranges@, old(self).initial_len as int, e);
            ck_moved(t0, t1, l0, l1, e);
        }
    }

@@ cost candidate::Candidate::to_byte_offset
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + char_offset + 1, //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_it0.lo,
    ensures vx_clk.t <= old(vx_clk).t + char_offset + 1,

@@ cost candidate::Candidate::to_byte_range
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + char_range.end + 2, //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + chars.lo,
    ensures vx_clk.t <= old(vx_clk).t + char_range.start + 1,
@loop 1
    invariant_except_break vx_clk.t <= old(vx_clk).t + chars.lo + 1,
    ensures vx_clk.t <= old(vx_clk).t + char_range.end + 2,
