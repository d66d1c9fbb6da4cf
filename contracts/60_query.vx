@@ prelude
pub use crate::metrics::fzf::query::{MatchType, Pattern, Condition, FzfQuery, SearchMode};
pub use crate::CaseSensitivity;
/// number of spaces t starts with
pub open spec fn n_lead(t: Seq<char>) -> int
    decreases t.len()
{
    if t.len() > 0 && t[0] == ' ' { 1 + n_lead(t.drop_first()) } else { 0 }
}
/// number of spaces t ends with
pub open spec fn n_trail(t: Seq<char>) -> int
    decreases t.len()
{
    if t.len() > 0 && t.last() == ' ' { 1 + n_trail(t.drop_last()) } else { 0 }
}
pub proof fn n_lead_is(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(), forall|i: int| 0 <= i < k ==> #[trigger] t[i] == ' ', k < t.len() ==> t[k] != ' '
    ensures n_lead(t) == k
    decreases k
{
    if k > 0 {
        assert(t[0] == ' ');
        let u = t.drop_first();
        assert(forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] == t[i + 1]);
        n_lead_is(u, k - 1);
    }
}
pub proof fn n_trail_is(t: Seq<char>, k: int)
    requires 0 <= k <= t.len(), forall|i: int| t.len() - k <= i < t.len() ==> #[trigger] t[i] == ' ', k < t.len() ==> t[t.len() - k - 1] != ' '
    ensures n_trail(t) == k
    decreases k
{
    if k > 0 {
        assert(t[t.len() - 1] == ' ');
        let u = t.drop_last();
        assert(forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] == t[i]);
        n_trail_is(u, k - 1);
    }
}
pub proof fn n_lead_bound(t: Seq<char>)
    ensures 0 <= n_lead(t) <= t.len(), forall|i: int| 0 <= i < n_lead(t) ==> #[trigger] t[i] == ' ', n_lead(t) < t.len() ==> t[n_lead(t)] != ' '
    decreases t.len()
{
    if t.len() > 0 && t[0] == ' ' {
        let u = t.drop_first();
        n_lead_bound(u);
        assert forall|i: int| 0 <= i < n_lead(t) implies #[trigger] t[i] == ' ' by { if i > 0 { assert(u[i - 1] == ' '); } }
    }
}
pub proof fn n_trail_bound(t: Seq<char>)
    ensures 0 <= n_trail(t) <= t.len(), forall|i: int| t.len() - n_trail(t) <= i < t.len() ==> #[trigger] t[i] == ' ', n_trail(t) < t.len() ==> t[t.len() - n_trail(t) - 1] != ' '
    decreases t.len()
{
    if t.len() > 0 && t.last() == ' ' {
        let u = t.drop_last();
        n_trail_bound(u);
        assert forall|i: int| t.len() - n_trail(t) <= i < t.len() implies #[trigger] t[i] == ' ' by { if i < t.len() - 1 { assert(u[i] == ' '); } }
    }
}
pub open spec fn has_up(t: Seq<char>) -> bool { exists|i: int| 0 <= i < t.len() && u_upper(#[trigger] t[i]) }

/// a term of a query
pub struct Term { pub text: Seq<char>, pub kind: MatchType, pub neg: bool }

/// what a word of a query means (C05): [!] ['|^] text [$]
pub open spec fn s_word(w: Seq<char>) -> Option<Term> {
    let neg = w.len() > 0 && w[0] == '!';
    let a = if neg { w.subrange(1, w.len() as int) } else { w };
    let dollar = a.len() > 1 && a.last() == '$';
    let b = if dollar { a.drop_last() } else { a };
    let quote = b.len() > 0 && b[0] == '\'';
    let caret = b.len() > 0 && b[0] == '^';
    let c = if quote || caret { b.subrange(1, b.len() as int) } else { b };
    let kind =
        if quote { if neg { MatchType::Fuzzy } else { MatchType::Exact } }
        else if caret { if dollar { MatchType::EqualExact } else { MatchType::PrefixExact } }
        else if dollar { MatchType::SuffixExact }
        else if neg { MatchType::Exact }
        else { MatchType::Fuzzy };
    if c.len() == 0 { None } else { Some(Term { text: c, kind, neg }) }
}

@@ items metrics::fzf::query
impl<'a> Pattern<'a> {
    /// the cached facts about the text are true of it
    pub open spec fn wf(self) -> bool {
        &&& self.text@.len() <= MAXLEN
        &&& self.has_uppercase == has_up(self.text@)
        &&& self.leading_spaces == n_lead(self.text@)
        &&& self.trailing_spaces == n_trail(self.text@)
    }
    pub open spec fn term(self) -> Term { Term { text: self.text@, kind: self.match_type, neg: self.is_inverse } }
}
impl<'a> Condition<'a> {
    pub open spec fn wf(self) -> bool {
        self.or_patterns@.len() > 0 && forall|i: int| 0 <= i < self.or_patterns@.len() ==> (#[trigger] self.or_patterns@[i]).wf() && self.or_patterns@[i].text@.len() > 0
    }
    pub open spec fn terms(self) -> Seq<Term> { Seq::new(self.or_patterns@.len(), |i: int| self.or_patterns@[i].term()) }
}
pub open spec fn conds_of<'a>(cs: Seq<Condition<'a>>) -> Seq<Seq<Term>> { Seq::new(cs.len(), |i: int| cs[i].terms()) }
impl<'a> FzfQuery<'a> {
    pub open spec fn wf(self) -> bool {
        match self.search_mode {
            SearchMode::Extended(c) => c@.len() <= MAXLEN && forall|i: int| 0 <= i < c@.len() ==> (#[trigger] c@[i]).wf(),
            SearchMode::NotExtended(p) => p.wf() && p.match_type is Fuzzy && !p.is_inverse,
        }
    }
    /// the terms of the query: an AND of ORs
    pub open spec fn conds(self) -> Seq<Seq<Term>> {
        match self.search_mode {
            SearchMode::Extended(c) => conds_of(c@),
            SearchMode::NotExtended(p) => if p.text@.len() == 0 { Seq::empty() } else { seq![seq![p.term()]] },
        }
    }
}

@@ fn metrics::fzf::query::FzfQuery::is_empty
@contract
    requires self.wf()
    ensures vx_r == (self.conds().len() == 0) //[C04]

@@ fn metrics::fzf::query::FzfQuery::new_extended
@contract
    requires conditions@.len() <= MAXLEN, forall|i: int| 0 <= i < conditions@.len() ==> (#[trigger] conditions@[i]).wf()
    ensures vx_r.wf(), vx_r.conds() =~~= conds_of(conditions@) //[C04,C05,C06]

@@ fn metrics::fzf::query::FzfQuery::new_not_extended
@contract
    requires chars@.len() <= MAXLEN
    ensures vx_r.wf(), vx_r.conds() == s_raw(chars@) //[C05,C06]

@@ prelude
/// the meaning of a query that is not in the extended syntax (C05)
pub open spec fn s_raw(q: Seq<char>) -> Seq<Seq<Term>> {
    if q.len() == 0 { Seq::empty() } else { seq![seq![Term { text: q, kind: MatchType::Fuzzy, neg: false }]] }
}

@@ fn metrics::fzf::query::<Condition as Default>::default
@contract
    ensures vx_r.or_patterns@.len() == 0

@@ fn metrics::fzf::query::Condition::iter
@contract
    ensures vx_r.it.s@ == self.or_patterns@, vx_r.it.lo == 0, vx_r.it.hi == self.or_patterns@.len(), vx_r.wf()

@@ fn metrics::fzf::query::Condition::new
@contract
    ensures vx_r.or_patterns == or_patterns

@@ fn metrics::fzf::query::<Pattern as Default>::default
@contract
    ensures vx_r.text@.len() == 0, vx_r.wf()

@@ fn metrics::fzf::query::Pattern::char_len
@contract
    ensures vx_r == self.text@.len()

@@ fn metrics::fzf::query::Pattern::char
@contract
    requires idx < self.text@.len()
    ensures vx_r == self.text@[idx as int]

@@ fn metrics::fzf::query::Pattern::chars
@contract
    ensures vx_r.it.s@ == self.text@, vx_r.it.lo == 0, vx_r.it.hi == self.text@.len(), vx_r.wf()

@@ fn metrics::fzf::query::Pattern::is_empty
@contract
    ensures vx_r == (self.text@.len() == 0)

@@ fn metrics::fzf::query::Pattern::leading_spaces
@contract
    ensures vx_r == self.leading_spaces

@@ fn metrics::fzf::query::Pattern::trailing_spaces
@contract
    ensures vx_r == self.trailing_spaces

@@ fn metrics::fzf::query::Pattern::raw
@contract
    requires text@.len() <= MAXLEN
    ensures vx_r.wf(), vx_r.text == text, //[C03,C15]
        vx_r.match_type is Fuzzy, !vx_r.is_inverse, //[C05]
@loop 0
    invariant_except_break vx_it0.lo == vx_acc1,
    invariant
        vx_it0.s@ == text@, vx_it0.hi == text@.len(), vx_it0.wf(), text@.len() <= MAXLEN,
        forall|i: int| 0 <= i < vx_acc1 ==> #[trigger] text@[i] == ' ',
    ensures vx_acc1 <= text@.len(), vx_acc1 < text@.len() ==> text@[vx_acc1 as int] != ' ',
    decreases vx_it0.hi - vx_it0.lo
@loop 1
    invariant_except_break vx_it2.hi + vx_acc3 == text@.len(),
        forall|i: int| vx_it2.hi <= i < text@.len() ==> #[trigger] text@[i] == ' ',
    invariant
        vx_it2.s@ == text@, vx_it2.lo == 0, vx_it2.wf(), text@.len() <= MAXLEN,
    ensures vx_acc3 <= text@.len(), vx_acc3 < text@.len() ==> text@[text@.len() - vx_acc3 - 1] != ' ',
        forall|i: int| text@.len() - vx_acc3 <= i < text@.len() ==> #[trigger] text@[i] == ' ',
    decreases vx_it2.hi - vx_it2.lo
@loop 2
    invariant_except_break !vx_acc5, forall|i: int| 0 <= i < vx_it4.lo ==> !u_upper(#[trigger] text@[i]),
    invariant vx_it4.s@ == text@, vx_it4.hi == text@.len(), vx_it4.wf(),
    ensures vx_acc5 == has_up(text@),
    decreases vx_it4.hi - vx_it4.lo
@proof end
    proof { n_lead_is(text@, vx_ret.leading_spaces as int); n_trail_is(text@, vx_ret.trailing_spaces as int); }

@@ fn metrics::fzf::query::Pattern::parse
@contract
    requires 0 < text@.len() <= MAXLEN
    ensures
        match vx_r { Some(p) => p.wf() && p.text@.len() > 0, None => true }, //[C03,C15]
        (match vx_r { Some(p) => Some(p.term()), None => None }) == s_word(text@), //[C05]
@proof start
    let ghost w = text@;
    assert(w.subrange(0, w.len() as int) =~= w);
    assert(w.len() > 1 ==> w.subrange(1, w.len() as int).drop_last() =~= w.subrange(1, w.len() - 1));
    assert(w.drop_last() =~= w.subrange(0, w.len() - 1));
@loop 0
    invariant_except_break !vx_acc1, forall|i: int| 0 <= i < vx_it0.lo ==> !u_upper(#[trigger] text@[i]),
    invariant vx_it0.s@ == text@, vx_it0.hi == text@.len(), vx_it0.wf(),
    ensures vx_acc1 == has_up(text@),
    decreases vx_it0.hi - vx_it0.lo
@loop 1
    invariant_except_break vx_it2.lo == vx_acc3,
    invariant
        vx_it2.s@ == text@, vx_it2.hi == text@.len(), vx_it2.wf(), text@.len() <= MAXLEN,
        forall|i: int| 0 <= i < vx_acc3 ==> #[trigger] text@[i] == ' ',
    ensures vx_acc3 <= text@.len(), vx_acc3 < text@.len() ==> text@[vx_acc3 as int] != ' ',
    decreases vx_it2.hi - vx_it2.lo
@loop 2
    invariant_except_break vx_it4.hi + vx_acc5 == text@.len(),
        forall|i: int| vx_it4.hi <= i < text@.len() ==> #[trigger] text@[i] == ' ',
    invariant
        vx_it4.s@ == text@, vx_it4.lo == 0, vx_it4.wf(), text@.len() <= MAXLEN,
    ensures vx_acc5 <= text@.len(), vx_acc5 < text@.len() ==> text@[text@.len() - vx_acc5 - 1] != ' ',
        forall|i: int| text@.len() - vx_acc5 <= i < text@.len() ==> #[trigger] text@[i] == ' ',
    decreases vx_it4.hi - vx_it4.lo
@proof end
    proof { n_lead_is(text@, vx_ret->0.leading_spaces as int); n_trail_is(text@, vx_ret->0.trailing_spaces as int); }

@@ fn metrics::fzf::query::ends_with
@contract
    ensures vx_r == (haystack@.len() > 0 && haystack@.last() == needle)

@@ fn metrics::fzf::query::starts_with
@contract
    ensures vx_r == (haystack@.len() > 0 && haystack@[0] == needle)

@@ fn metrics::fzf::query::<MatchType as Default>::default
@contract
    ensures vx_r is Fuzzy
