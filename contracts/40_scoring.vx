@@ prelude
pub use crate::metrics::fzf::scoring::CharClass;
pub use crate::metrics::fzf::scheme::{Scheme, FzfScheme};
/// which class a char is in (C11)
pub open spec fn s_class(c: char, d: VxDelim) -> CharClass {
    if (c as u32) < 128 {
        if 'a' <= c && c <= 'z' { CharClass::Lower }
        else if 'A' <= c && c <= 'Z' { CharClass::Upper }
        else if '0' <= c && c <= '9' { CharClass::Number }
        else if c == ' ' || c == '\t' || c == '\n' || c == '\x0C' || c == '\r' { CharClass::WhiteSpace }
        else if d.is(c) { CharClass::Delimiter }
        else { CharClass::NonWord }
    } else {
        if u_lower(c) { CharClass::Lower }
        else if u_upper(c) { CharClass::Upper }
        else if u_numeric(c) { CharClass::Number }
        else if u_alpha(c) { CharClass::Letter }
        else if vstd::std_specs::char::is_white_space(c) { CharClass::WhiteSpace }
        else if d.is(c) { CharClass::Delimiter }
        else { CharClass::NonWord }
    }
}
/// the bonus of a char of class `next` coming after one of class `prev`
pub open spec fn s_bonus(prev: CharClass, next: CharClass, white: int, delim: int) -> int {
    match next {
        CharClass::NonWord => 8,
        CharClass::WhiteSpace => white,
        _ =>
            if next == CharClass::Upper && prev == CharClass::Lower { 7 }
            else if next == CharClass::Number && prev != CharClass::Number { 7 }
            else if prev == CharClass::WhiteSpace { white }
            else if prev == CharClass::Delimiter { delim }
            else if prev == CharClass::NonWord { 8 }
            else { 0 },
    }
}
/// class of the char before the i-th
pub open spec fn s_prev(cs: Seq<char>, i: int, sc: Scheme, init: CharClass) -> CharClass {
    if i <= 0 { init } else { s_class(cs[i - 1], sc.is_delimiter) }
}
pub open spec fn bonus_at(cs: Seq<char>, i: int, sc: Scheme, init: CharClass) -> int {
    s_bonus(s_prev(cs, i, sc, init), s_class(cs[i], sc.is_delimiter), sc.bonus_boundary_white as int, sc.bonus_boundary_delimiter as int)
}
pub open spec fn sc_wf(sc: Scheme) -> bool {
    0 <= sc.bonus_boundary_white <= 10 && 0 <= sc.bonus_boundary_delimiter <= 10
}
pub proof fn bonus_bound(cs: Seq<char>, i: int, sc: Scheme, init: CharClass)
    requires sc_wf(sc)
    ensures 0 <= bonus_at(cs, i, sc, init) <= 10
{}
/// the three schemes (C11)
pub open spec fn s_scheme(s: FzfScheme) -> Scheme {
    match s {
        FzfScheme::Default => Scheme {
            bonus_boundary_white: 10, bonus_boundary_delimiter: 9,
            initial_char_class: CharClass::WhiteSpace, is_delimiter: VxDelim::is_delimiter_default },
        FzfScheme::Path => Scheme {
            bonus_boundary_white: 8, bonus_boundary_delimiter: 9,
            initial_char_class: CharClass::Delimiter, is_delimiter: VxDelim::is_delimiter_path },
        FzfScheme::History => Scheme {
            bonus_boundary_white: 8, bonus_boundary_delimiter: 8,
            initial_char_class: CharClass::WhiteSpace, is_delimiter: VxDelim::is_delimiter_default },
    }
}

@@ items root
impl VxFnPtr_char__bool {
    pub open spec fn is(self, c: char) -> bool {
        match self {
            Self::is_delimiter_default => c == '/' || c == ',' || c == ':' || c == ';' || c == '|',
            Self::is_delimiter_path => c == '/',
            Self::is_normalized => !in_table(c),
        }
    }
}

@@ fn VxFnPtr_char__bool::call
@contract
    ensures vx_r == self.is(a0)

@@ items metrics::fzf::scheme
/// the constants of the three schemes (C11)
proof fn scheme_constants()
    ensures
        DEFAULT == s_scheme(FzfScheme::Default), //[C11]
        PATH == s_scheme(FzfScheme::Path), //[C11]
        HISTORY == s_scheme(FzfScheme::History), //[C11]
{}

@@ fn metrics::fzf::scheme::<FzfScheme as Default>::default
@contract
    ensures vx_r == FzfScheme::Default //[C19]

@@ fn metrics::fzf::scheme::<Scheme as Default>::default
@contract
    ensures vx_r == s_scheme(FzfScheme::Default) //[C11,C19]

@@ plain-fn metrics::fzf::scheme::<Scheme as Clone>::clone
@contract
    ensures vx_r == *self //[C10,C19]

@@ fn metrics::fzf::scheme::is_delimiter_default
@contract
    ensures vx_r == VxDelim::is_delimiter_default.is(ch) //[C11]

@@ fn metrics::fzf::scheme::is_delimiter_path
@contract
    ensures vx_r == VxDelim::is_delimiter_path.is(ch) //[C11]

@@ fn metrics::fzf::scoring::char_class
@contract
    ensures vx_r == s_class(ch, scheme.is_delimiter) //[C11]

@@ fn metrics::fzf::scoring::ascii_char_class
@contract
    requires (ch as u32) < 128
    ensures vx_r == s_class(ch, scheme.is_delimiter) //[C11]

@@ fn metrics::fzf::scoring::non_ascii_char_class
@contract
    requires (ch as u32) >= 128
    ensures vx_r == s_class(ch, scheme.is_delimiter) //[C11]

@@ fn metrics::fzf::scoring::compute_bonus
@contract
    ensures vx_r == s_bonus(prev_class, next_class, scheme.bonus_boundary_white as int, scheme.bonus_boundary_delimiter as int) //[C11]

@@ compared metrics::fzf::distance::FzfDistance
@@ items metrics::fzf::distance
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
/// the higher the score, the smaller the distance
pub open spec fn by_score(a: FzfDistance, b: FzfDistance) -> Ordering {
    if a.0 > b.0 { Ordering::Less } else if a.0 == b.0 { Ordering::Equal } else { Ordering::Greater }
}
impl PartialEqSpecImpl for FzfDistance {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &FzfDistance) -> bool { self.0 == other.0 }
}
impl PartialOrdSpecImpl for FzfDistance {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &FzfDistance) -> Option<Ordering> { Some(by_score(*self, *other)) }
}
impl OrdSpecImpl for FzfDistance {
    open spec fn obeys_cmp_spec() -> bool { true }
    open spec fn cmp_spec(&self, other: &FzfDistance) -> Ordering { by_score(*self, *other) }
}

@@ fn metrics::fzf::distance::<FzfDistance as Ord>::cmp
@contract
    ensures vx_r == by_score(*self, *other) //[C14]

@@ fn metrics::fzf::distance::<FzfDistance as PartialOrd>::partial_cmp
@contract
    ensures vx_r == Some(by_score(*self, *other)) //[C14]

@@ fn metrics::fzf::distance::FzfDistance::into_score
@contract
    ensures vx_r == self.0 //[C14]

@@ fn metrics::fzf::scheme::FzfScheme::from_inner
@contract
    ensures forall|s: FzfScheme| *scheme == s_scheme(s) ==> vx_r == Some(s) //[C19]

@@ fn metrics::fzf::distance::<FzfDistance as Default>::default
@contract
    ensures vx_r.0 == 0 //[C14]

@@ fn metrics::fzf::distance::FzfDistance::from_score
@contract
    ensures vx_r.0 == score //[C14]

@@ items metrics::fzf::candidate
impl CandidateOpts {
    pub open spec fn wf(self) -> bool { self.is_case_sensitive == self.char_eq.is_cs() }
    pub open spec fn s_new(cs: bool, norm: bool) -> Self { CandidateOpts { char_eq: VxCharEq::of(cs, norm), is_case_sensitive: cs } }
}
impl<'a> CandidateV2<'a> {
    /// the cached bonuses are those of `scheme`
    pub open spec fn wf(self, scheme: Scheme) -> bool {
        &&& self.base.wf()
        &&& self.opts.wf()
        &&& self.bonuses@.len() == self.base.v().len()
        &&& sc_wf(scheme)
        &&& forall|k: int| 0 <= k < self.bonuses@.len() && (#[trigger] self.bonuses@[k]).is_set
                ==> self.bonuses@[k].value == bonus_at(self.base.v(), k, scheme, self.initial_char_class)
    }
    pub open spec fn same(self, o: Self) -> bool {
        self.base == o.base && self.opts == o.opts && self.initial_char_class == o.initial_char_class
    }
}

@@ fn metrics::fzf::candidate::<CandidateOpts as Default>::default
@contract
    ensures vx_r == CandidateOpts::s_new(false, false) //[C19]

@@ fn metrics::fzf::candidate::CandidateOpts::new
@contract
    ensures vx_r == CandidateOpts::s_new(is_case_sensitive, is_normalized), vx_r.wf()

@@ fn metrics::fzf::candidate::CandidateV2::bonus_at
@contract
    requires old(self).wf(*scheme), char_idx < old(self).base.v().len()
    ensures final(self).wf(*scheme), final(self).same(*old(self)),
        vx_r == bonus_at(old(self).base.v(), char_idx as int, *scheme, old(self).initial_char_class) //[C11,C10]
@proof start
    proof { bonus_bound(self.base.v(), char_idx as int, *scheme, self.initial_char_class); }

@@ fn metrics::fzf::candidate::CandidateV2::char
@contract
    requires char_idx < self.base.v().len()
    ensures vx_r == self.base.v()[char_idx as int]

@@ fn metrics::fzf::candidate::CandidateV2::char_len
@contract
    ensures vx_r == self.base.v().len()

@@ fn metrics::fzf::candidate::CandidateV2::into_base
@contract
    ensures vx_r == self.base

@@ fn metrics::fzf::candidate::CandidateV2::matches
@contract
    requires self.base.wf(), self.opts.wf()
    ensures vx_r.inv(self.base.v(), ch, self.opts.char_eq, 0)

@@ fn metrics::fzf::candidate::CandidateV2::matches_from
@contract
    requires self.base.wf(), self.opts.wf(), char_offset <= self.base.v().len()
    ensures vx_r.inv(self.base.v(), ch, self.opts.char_eq, char_offset as int)

@@ fn metrics::fzf::candidate::CandidateV2::new
@contract
    requires base.wf(), opts.wf()
    ensures vx_r.base == base, vx_r.opts == opts, vx_r.initial_char_class == initial_char_class,
        forall|sc: Scheme| sc_wf(sc) ==> #[trigger] vx_r.wf(sc) //[C10]
