@@ prelude
pub use crate::VxFnPtr_char_char__bool as VxCharEq;
pub use crate::VxFnPtr_char__bool as VxDelim;
pub use crate::normalize::{nz, in_table, nz_ascii};
/// char equality: C15 and C16
pub open spec fn ceq(cs: bool, norm: bool, p: char, c: char) -> bool {
    let d = if norm && !in_table(p) { nz(c) } else { c };
    if cs { p == d } else { fold(p) == fold(d) }
}

@@ items root
impl VxFnPtr_char_char__bool {
    pub open spec fn is_cs(self) -> bool { self is case_sensitive_eq || self is case_sensitive_normalized_eq }
    pub open spec fn eqv(self, p: char, c: char) -> bool {
        match self {
            Self::case_insensitive_eq => ceq(false, false, p, c),
            Self::case_insensitive_normalized_eq => ceq(false, true, p, c),
            Self::case_sensitive_eq => ceq(true, false, p, c),
            Self::case_sensitive_normalized_eq => ceq(true, true, p, c),
        }
    }
    pub open spec fn of(cs: bool, norm: bool) -> Self {
        match (cs, norm) {
            (false, false) => Self::case_insensitive_eq,
            (false, true) => Self::case_insensitive_normalized_eq,
            (true, false) => Self::case_sensitive_eq,
            (true, true) => Self::case_sensitive_normalized_eq,
        }
    }
}

@@ fn VxFnPtr_char_char__bool::call
@contract
    ensures vx_r == self.eqv(a0, a1)

@@ fn utils::ascii_letter_flip_case
@contract
    requires (65 <= ascii_letter <= 90) || (97 <= ascii_letter <= 122)
    ensures (65 <= ascii_letter <= 90) ==> vx_r == ascii_letter + 32,
        (97 <= ascii_letter <= 122) ==> vx_r == ascii_letter - 32
@proof start
    assert((65 <= ascii_letter <= 90) ==> ascii_letter ^ 0x20u8 == ascii_letter + 32) by (bit_vector);
    assert((97 <= ascii_letter <= 122) ==> ascii_letter ^ 0x20u8 == ascii_letter - 32) by (bit_vector);

@@ fn utils::case_insensitive_eq
@contract
    ensures vx_r == ceq(false, false, lhs, rhs)
@@ fn utils::case_insensitive_normalized_eq
@contract
    ensures vx_r == ceq(false, true, lhs, rhs)
@@ fn utils::case_sensitive_eq
@contract
    ensures vx_r == ceq(true, false, lhs, rhs)
@@ fn utils::case_sensitive_normalized_eq
@contract
    ensures vx_r == ceq(true, true, lhs, rhs)
@@ fn utils::char_eq
@contract
    ensures vx_r == VxCharEq::of(is_case_sensitive, normalize_candidate)
@@ fn utils::normalize_candidate_char
@contract
    ensures vx_r == (if in_table(query_char) { candidate_char } else { nz(candidate_char) })
