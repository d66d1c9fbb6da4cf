@@ # How long parsing takes (C20): linear in the bytes of the query, whatever the parser's buffers hold.
@@ clock-prelude
pub open spec fn ck_b(s: Seq<char>) -> int { encode_utf8(s).len() as int }
/// parsing b bytes
pub open spec fn ck_parse(b: int) -> int { 32 * (b + 1) }
/// what is left after p chars
pub proof fn ck_rest(q: Seq<char>, p: int)
    requires 0 <= p <= q.len()
    ensures ck_b(q.subrange(p, q.len() as int)) == ck_b(q) - cpos(q, p), p <= cpos(q, p)
{
    cpos_add(q, p, q.len() - p);
    cpos_ends(q);
    cpos_ends(q.subrange(p, q.len() as int));
    cpos_mono(q, 0, p);
}
/// what the first word takes
pub proof fn ck_word(q: Seq<char>)
    requires q.len() > 0, n_lead(q) == 0
    ensures ck_b(w_rest(q)) + w_take(q).0.len() <= ck_b(q), ck_b(w_rest(q)) + cpos(q, w_take(q).1) <= ck_b(q), 0 < w_take(q).0.len() <= w_take(q).1 <= q.len()
{
    w_rest_bound(q);
    let p = w_take(q).1;
    ck_rest(q, p);
    let r = q.subrange(p, q.len() as int);
    n_lead_bound(r);
    ck_rest(r, n_lead(r));
}

@@ cost utils::leading_spaces
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + vx_r + 1, //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_acc1,
    ensures vx_clk.t <= old(vx_clk).t + vx_acc1 + 1,

@@ cost utils::strip_leading_spaces
@contract
    ensures final(vx_clk).t + ck_b(vx_r@) <= old(vx_clk).t + ck_b(s@) + 1, ck_b(vx_r@) <= ck_b(s@), //[C20]
@proof start
    proof { n_lead_bound(s@); ck_rest(s@, n_lead(s@)); }

@@ cost metrics::fzf::parser::Words::alloc
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + s@.len() + 1, s@.len() <= ck_b(s@), //[C20]
@proof start
    proof { utf8_len_ge(s@); }
@loop 0
    invariant_except_break vx_clk.t + vx_it0.remaining().len() <= old(vx_clk).t + s@.len(),
    ensures vx_clk.t <= old(vx_clk).t + s@.len() + 1,

@@ cost metrics::fzf::parser::Words::new
@contract
    ensures final(vx_clk).t + ck_b(vx_r.s@) <= old(vx_clk).t + ck_b(s@) + 1, ck_b(vx_r.s@) <= ck_b(s@), //[C20]

@@ cost metrics::fzf::parser::<Words as Iterator>::next
@contract
    ensures
        vx_r is None ==> final(vx_clk).t <= old(vx_clk).t,
        vx_r matches Some(w) ==> final(vx_clk).t + 6 * ck_b(final(self).s@) <= old(vx_clk).t + 6 * ck_b(old(self).s@), //[C20]
        vx_r matches Some(w) ==> ck_b(final(self).s@) + w@.len() <= ck_b(old(self).s@) && w@.len() > 0,
@proof start
    proof { if self.s@.len() > 0 { ck_word(self.s@); } }
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + 3 * cpos(q, p),
    ensures vx_clk.t <= old(vx_clk).t + 3 * cpos(q, p) + 2,
@proof loop 0 after
    proof { ck_rest(old(self).s@, w_take(old(self).s@).1); ck_word(old(self).s@); }

@@ cost metrics::fzf::query::Pattern::raw
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 3 * (text@.len() + 1), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_it0.lo,
    ensures vx_clk.t <= old(vx_clk).t + text@.len() + 1,
@loop 1
    invariant_except_break vx_clk.t <= old(vx_clk).t + text@.len() + 1 + text@.len() - vx_it2.hi,
    ensures vx_clk.t <= old(vx_clk).t + 2 * (text@.len() + 1),
@loop 2
    invariant_except_break vx_clk.t <= old(vx_clk).t + 2 * (text@.len() + 1) + vx_it4.lo,
    ensures vx_clk.t <= old(vx_clk).t + 3 * (text@.len() + 1),

@@ cost metrics::fzf::query::Pattern::parse
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 3 * (text@.len() + 1), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + vx_it0.lo,
    ensures vx_clk.t <= old(vx_clk).t + text@.len() + 1,
@loop 1
    invariant_except_break vx_clk.t <= old(vx_clk).t + w.len() + 1 + vx_it2.lo,
    invariant text@.len() <= w.len(),
    ensures vx_clk.t <= old(vx_clk).t + 2 * (w.len() + 1),
@loop 2
    invariant_except_break vx_clk.t <= old(vx_clk).t + 2 * (w.len() + 1) + text@.len() - vx_it4.hi,
    invariant text@.len() <= w.len(),
    ensures vx_clk.t <= old(vx_clk).t + 3 * (w.len() + 1),

@@ cost metrics::fzf::query::FzfQuery::new_not_extended
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + 3 * (chars@.len() + 1), //[C20]

@@ cost metrics::fzf::parser::Patterns::new
@contract
    ensures final(vx_clk).t + ck_b(vx_r.words.s@) <= old(vx_clk).t + ck_b(s@) + 1, ck_b(vx_r.words.s@) <= ck_b(s@), //[C20]

@@ cost metrics::fzf::parser::<Patterns as Iterator>::next
@contract
    ensures final(vx_clk).t + 13 * ck_b(final(self).words.s@) <= old(vx_clk).t + 13 * ck_b(old(self).words.s@) + 1, //[C20]
@loop 0
    invariant_except_break vx_clk.t + 13 * ck_b(self.words.s@) <= old(vx_clk).t + 13 * ck_b(old(self).words.s@),
    ensures vx_clk.t + 13 * ck_b(self.words.s@) <= old(vx_clk).t + 13 * ck_b(old(self).words.s@) + 1,

@@ cost metrics::fzf::parser::FzfParser::parse
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_parse(ck_b(query@)), //[C20]
@loop 0
    invariant_except_break
        vx_clk.t + 13 * ck_b(vx_it0.words.s@) + 2 * vx_it0.need() <= old(vx_clk).t + 13 * ck_b(query@) + 5 * ck_b(query@) + 16,
    ensures vx_clk.t <= old(vx_clk).t + 18 * ck_b(query@) + 20,
@proof start
    proof { utf8_len_ge(query@); }

@@ cost metrics::fzf::parser::FzfParser::parse_not_extended
@contract
    ensures final(vx_clk).t <= old(vx_clk).t + ck_parse(ck_b(query@)), //[C20]
@loop 0
    invariant_except_break vx_clk.t <= old(vx_clk).t + ck_b(query@) + char_len,
    ensures vx_clk.t <= old(vx_clk).t + ck_b(query@) + query@.len() + 1,
@proof start
    proof { utf8_len_ge(query@); }

@@ clock-items root
pub mod vxcost_parse {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::vxspec::*;
use crate::*;
use crate::metrics::fzf::query::*;
use crate::metrics::fzf::parser::*;
/// C20 of the parser, as a user of the crate sees it: whatever it parsed before
pub fn api_cost_parse(p: &mut FzfParser, first: &str, second: &str, Tracked(vx_clk): Tracked<&mut VxClk>) -> (r: (bool, bool))
    requires first@.len() <= MAXLEN, second@.len() <= MAXLEN
    ensures final(vx_clk).t <= old(vx_clk).t + 32 * (encode_utf8(first@).len() + 1) + 64 * (encode_utf8(second@).len() + 1), //[C20]
{
    let a = p.parse(first, Tracked(&mut *vx_clk)).is_empty();
    assert(vx_clk.t <= old(vx_clk).t + 32 * (encode_utf8(first@).len() + 1)); //[C20]
    let b = p.parse_not_extended(second, Tracked(&mut *vx_clk)).is_empty();
    let c = p.parse(second, Tracked(&mut *vx_clk)).is_empty();
    (a, b && c)
}
// the verifier must reject this: if it accepts it, the contracts or axioms contradict each other
fn vx_probe_cost_parse(p: &mut FzfParser, first: &str, second: &str, Tracked(vx_clk): Tracked<&mut VxClk>)
    requires first@.len() <= MAXLEN, second@.len() <= MAXLEN
{
    let a = p.parse(first, Tracked(&mut *vx_clk)).is_empty();
    let b = p.parse_not_extended(second, Tracked(&mut *vx_clk)).is_empty();
    assert(false);
}
} // mod vxcost_parse
