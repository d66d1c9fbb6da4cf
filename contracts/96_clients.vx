@@ # The properties at the level of the public API: what any caller can rely on, from the contracts alone.
@@ items root
pub mod vxclients {
use vstd::prelude::*;
use core::ops::Range;
use crate::vxspec::*;
use crate::*;
use crate::metrics::fzf::fzf::Fzf;
use crate::metrics::fzf::fzf_v1::FzfV1;
use crate::metrics::fzf::fzf_v2::FzfV2;
use crate::metrics::fzf::parser::FzfParser;
use crate::metrics::fzf::distance::{FzfDistance, by_score};
pub open spec fn score_of(r: Option<FzfDistance>) -> Option<i64> { match r { Some(d) => Some(d.0), None => None } }
/// any history of one metric: settings changed, other queries and candidates, longer or shorter
fn api_v1(m: &mut FzfV1, p: &mut FzfParser, q: &str, c: &str, q2: &str, c2: &str, ranges: &mut Vec<Range<usize>>, other: &mut Vec<Range<usize>>, cased: CaseSensitivity, norm: bool, scheme: FzfScheme)
    requires sc_wf(old(m).cfg().scheme), q@.len() <= MAXLEN, c@.len() <= MAXLEN, q2@.len() <= MAXLEN, c2@.len() <= MAXLEN
{
    let ghost cfg0 = m.cfg();
    // C09, C10: the three calls agree, whatever is computed in between
    let a = m.distance(p.parse(q), c);
    let _ = m.distance(p.parse(q2), c2);
    let _ = m.distance_and_ranges(p.parse_not_extended(q2), c2, other);
    let ghost r0 = ranges@;
    let b = m.distance_and_ranges(p.parse(q), c, ranges);
    let d = m.distance(p.parse(q), c);
    assert(score_of(a) == score_of(b) && score_of(b) == score_of(d)); //[C09,C10]
    assert(a == b && b == d); //[C09,C10]
    // C06: the meaning of a query is that of its text
    assert(scored(s_query(cfg0, s_parse(q@), c@), score_of(b))); //[C04,C06]
    // C07, C08: what is appended
    assert(same_prefix(r0, ranges@, r0.len() as int)); //[C07]
    proof { c05_nothing_empty(s_words(strip(q@)), Seq::empty(), false); }
    // C19: the settings are what they were, and a setter changes its own only (C15, C16)
    assert(m.cfg() == cfg0); //[C19]
    m.set_case_sensitivity(cased);
    assert(m.cfg() == (Cfg { case: cased, ..cfg0 })); //[C15,C19]
    m.set_candidate_normalization(norm);
    assert(m.cfg() == (Cfg { case: cased, norm, ..cfg0 })); //[C16,C19]
    m.set_scoring_scheme(scheme);
    assert(m.cfg() == (Cfg { v2: false, case: cased, norm, scheme: s_scheme(scheme) })); //[C11,C19]
    proof { c19_schemes(scheme); }
    let e = m.distance(p.parse_not_extended(q), c);
    assert(scored(s_query(Cfg { v2: false, case: cased, norm, scheme: s_scheme(scheme) }, s_raw(q@), c@), score_of(e))); //[C10,C15,C16]
    // C01: a query that is one fuzzy term matches iff it is a subsequence
    proof {
        if q@.len() > 0 {
            let t = Term { text: q@, kind: MatchType::Fuzzy, neg: false };
            c01_fuzzy_iff_subsequence(m.cfg(), t, c@);
            assert(e is Some <==> is_subsequence(m.cfg().eq(has_up(q@)), q@, c@)); //[C01]
        } else {
            assert(score_of(e) == Some(0i64)); //[C04]
        }
    }
}
fn api_v2(m: &mut FzfV2, p: &mut FzfParser, q: &str, c: &str, q2: &str, c2: &str, ranges: &mut Vec<Range<usize>>, other: &mut Vec<Range<usize>>, cased: CaseSensitivity, norm: bool, scheme: FzfScheme)
    requires sc_wf(old(m).cfg().scheme), q@.len() <= MAXLEN, c@.len() <= MAXLEN, q2@.len() <= MAXLEN, c2@.len() <= MAXLEN
{
    let ghost cfg0 = m.cfg();
    let a = m.distance(p.parse(q), c);
    let _ = m.distance(p.parse(q2), c2);
    let _ = m.distance_and_ranges(p.parse_not_extended(q2), c2, other);
    let ghost r0 = ranges@;
    let b = m.distance_and_ranges(p.parse(q), c, ranges);
    let d = m.distance(p.parse(q), c);
    assert(a == b && b == d); //[C09,C10]
    assert(scored(s_query(cfg0, s_parse(q@), c@), score_of(b))); //[C04,C06]
    assert(same_prefix(r0, ranges@, r0.len() as int)); //[C07]
    assert(m.cfg() == cfg0); //[C19]
    m.set_case_sensitivity(cased);
    assert(m.cfg() == (Cfg { case: cased, ..cfg0 })); //[C15,C19]
    m.set_candidate_normalization(norm);
    assert(m.cfg() == (Cfg { case: cased, norm, ..cfg0 })); //[C16,C19]
    m.set_scoring_scheme(scheme);
    assert(m.cfg() == (Cfg { v2: true, case: cased, norm, scheme: s_scheme(scheme) })); //[C11,C19]
    proof { c19_schemes(scheme); }
    let e = m.distance(p.parse_not_extended(q), c);
    proof {
        if q@.len() > 0 {
            let t = Term { text: q@, kind: MatchType::Fuzzy, neg: false };
            c01_fuzzy_iff_subsequence(m.cfg(), t, c@);
            assert(e is Some <==> is_subsequence(m.cfg().eq(has_up(q@)), q@, c@)); //[C01]
        } else {
            assert(score_of(e) == Some(0i64)); //[C04]
        }
    }
}
/// a new metric can be used at once (C19), FzfV1 and FzfV2 accept the same candidates (C01)
fn api_both(p: &mut FzfParser, q: &str, c: &str)
    requires q@.len() <= MAXLEN, c@.len() <= MAXLEN
{
    let mut m1 = FzfV1::new();
    let mut m2 = FzfV2::new();
    proof { c19_schemes(FzfScheme::Default); }
    let a = m1.distance(p.parse(q), c);
    let b = m2.distance(p.parse(q), c);
    proof { c01_v1_iff_v2(m1.cfg(), m2.cfg(), s_parse(q@), c@, s_parse(q@).len() as int); }
    assert(a is Some <==> b is Some); //[C01]
}
/// a copy of a metric, and of a parser, gives the same results (C10, C19)
fn api_clones(m1: &mut FzfV1, m2: &mut FzfV2, p: &mut FzfParser, q: &str, c: &str, ranges: &mut Vec<Range<usize>>)
    requires sc_wf(old(m1).cfg().scheme), sc_wf(old(m2).cfg().scheme), q@.len() <= MAXLEN, c@.len() <= MAXLEN
{
    let mut n1 = m1.clone();
    assert(n1.cfg() == m1.cfg()); //[C10,C19]
    let mut n2 = m2.clone();
    assert(n2.cfg() == m2.cfg()); //[C10,C19]
    let mut o = p.clone();
    let a = m1.distance(p.parse(q), c);
    let b = n1.distance_and_ranges(o.parse(q), c, ranges);
    assert(a == b); //[C06,C09,C10]
    let a = n2.distance(p.parse_not_extended(q), c);
    let b = m2.distance_and_ranges(o.parse_not_extended(q), c, ranges);
    assert(a == b); //[C06,C09,C10]
}
/// every way of comparing two distances compares their scores (C14)
fn api_order(a: FzfDistance, b: FzfDistance)
{
    let r = a < b;
    assert(r == (a.0 > b.0)); //[C14]
    let r = a <= b;
    assert(r == (a.0 >= b.0)); //[C14]
    let r = a > b;
    assert(r == (a.0 < b.0)); //[C14]
    let r = a >= b;
    assert(r == (a.0 <= b.0)); //[C14]
    let r = a == b;
    assert(r == (a.0 == b.0)); //[C14]
    let r = a != b;
    assert(r == (a.0 != b.0)); //[C14]
    let r = a.cmp(&b);
    assert(r == by_score(a, b)); //[C14]
    let r = a.partial_cmp(&b);
    assert(r == Some(by_score(a, b))); //[C14]
    let r = a.min(b);
    assert(r.0 == (if a.0 >= b.0 { a.0 } else { b.0 })); //[C14]
    let r = a.max(b);
    assert(r.0 == (if a.0 <= b.0 { a.0 } else { b.0 })); //[C14]
}
/// the ranges appended to a buffer, whatever is in it (C07, C08)
fn api_ranges(m: &mut FzfV2, p: &mut FzfParser, q: &str, c: &str, ranges: &mut Vec<Range<usize>>)
    requires sc_wf(old(m).cfg().scheme), q@.len() <= MAXLEN, c@.len() <= MAXLEN
{
    let ghost r0 = ranges@;
    let ghost n = r0.len() as int;
    let r = m.distance_and_ranges(p.parse(q), c, ranges);
    assert(r is None ==> ranges@ == r0); //[C07]
    assert(rwf(ranges@, n)); //[C07]
    proof {
        if r is Some {
            let qs = s_parse(q@);
            let pos = (s_query(m.cfg(), qs, c@)->0).1;
            terms_parsed(q@);
            and_in(m.cfg(), qs, c@, qs.len() as int);
            c07_char_boundaries(r0, ranges@, c@, pos);
            assert(forall|i: int| n <= i < ranges@.len() ==> boundary(c@, (#[trigger] ranges@[i]).start as int) && boundary(c@, ranges@[i].end as int)
                && ranges@[i].start < ranges@[i].end <= encode_utf8(c@).len()); //[C07]
            assert forall|x: int| #[trigger] covers(ranges@, n, x) <==> exists|k: int| 0 <= k < pos.len()
                && encode_utf8(c@.subrange(0, #[trigger] pos[k])).len() <= x < encode_utf8(c@.subrange(0, pos[k] + 1)).len() by { //[C08]
                c08_exactly(r0, ranges@, c@, pos, x);
            }
        }
    }
}
} // mod vxclients

@@ prelude
/// no term of a query is longer than the query
pub proof fn words_len(q: Seq<char>)
    ensures forall|i: int| 0 <= i < s_words(q).len() ==> (#[trigger] s_words(q)[i]).len() <= q.len()
    decreases q.len()
{
    if q.len() == 0 || n_lead(q) != 0 {} else {
        w_rest_bound(q);
        words_len(w_rest(q));
        let r = s_words(w_rest(q));
        assert forall|i: int| 0 <= i < s_words(q).len() implies (#[trigger] s_words(q)[i]).len() <= q.len() by { if i > 0 { assert(s_words(q)[i] == r[i - 1]); } }
    }
}
pub open spec fn terms_upto(q: Seq<Seq<Term>>, n: int) -> bool {
    forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q[i].len() ==> 0 < (#[trigger] q[i][j]).text.len() <= n
}
pub proof fn conds_len(ws: Seq<Seq<char>>, cur: Seq<Term>, lfo: bool, n: int)
    requires forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).len() <= n, forall|i: int| 0 <= i < cur.len() ==> 0 < (#[trigger] cur[i]).text.len() <= n
    ensures terms_upto(s_conds(ws, cur, lfo), n)
    decreases ws.len()
{
    if ws.len() > 0 {
        let rest = ws.drop_first();
        assert forall|i: int| 0 <= i < rest.len() implies (#[trigger] rest[i]).len() <= n by { assert(rest[i] == ws[i + 1]); }
        if ws[0] == bar() { conds_len(rest, cur, false, n); }
        else {
            match s_word(ws[0]) {
                None => { conds_len(rest, cur, lfo, n); }
                Some(t) => {
                    assert(ws[0].len() <= n);
                    conds_len(rest, seq![t], true, n);
                    conds_len(rest, cur.push(t), true, n);
                    let r = s_conds(rest, seq![t], true);
                    if lfo {
                        let s = s_conds(ws, cur, lfo);
                        assert(s == seq![cur] + r);
                        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].len() implies 0 < (#[trigger] s[i][j]).text.len() <= n by { if i > 0 { assert(s[i] == r[i - 1]); } }
                    }
                }
            }
        }
    }
}
pub proof fn terms_parsed(q: Seq<char>)
    requires q.len() <= MAXLEN
    ensures terms_ok(s_parse(q))
{
    strip_bound(q);
    words_len(strip(q));
    conds_len(s_words(strip(q)), Seq::empty(), false, MAXLEN as int);
}

@@ items root
pub mod vxprobes {
use vstd::prelude::*;
use core::ops::Range;
use crate::vxspec::*;
use crate::*;
use crate::metrics::fzf::fzf::Fzf;
use crate::metrics::fzf::fzf_v1::FzfV1;
use crate::metrics::fzf::fzf_v2::FzfV2;
use crate::metrics::fzf::parser::FzfParser;
// The verifier must reject these: if it accepts one, the contracts or axioms contradict each other.
fn vx_probe_v1(p: &mut FzfParser, q: &str, c: &str, ranges: &mut Vec<Range<usize>>)
    requires q@.len() <= MAXLEN, c@.len() <= MAXLEN
{
    let mut m = FzfV1::new();
    m.set_candidate_normalization(true);
    proof { c19_schemes(FzfScheme::Default); nz_ascii('a'); c15_modes(Cfg { norm: false, ..m.cfg() }, true, 'a', 'b'); }
    let a = m.distance(p.parse(q), c);
    let b = m.distance_and_ranges(p.parse_not_extended(q), c, ranges);
    assert(false);
}
fn vx_probe_v2(p: &mut FzfParser, q: &str, c: &str, ranges: &mut Vec<Range<usize>>)
    requires q@.len() <= MAXLEN, c@.len() <= MAXLEN
{
    let mut m = FzfV2::new();
    m.set_candidate_normalization(true);
    proof { c19_schemes(FzfScheme::Default); nz_ascii('a'); vx_str_to(q, 0); vx_str_from(q, 0); }
    let a = m.distance(p.parse_not_extended(q), c);
    let b = m.distance_and_ranges(p.parse(q), c, ranges);
    assert(false);
}
} // mod vxprobes
