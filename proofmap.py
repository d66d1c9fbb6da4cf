"""what each check claims"""
LEVEL = {f"C{i:02}": "proof" for i in range(1, 21)}
# decided on the text with the ghost clock
COST = ["C20"]
ASSUME = {
    "C20": [
        "what is counted: every iteration of every loop of the crate (iterator chains are loops too), and what memchr and the "
        "methods of std that are linear in something (resize, fill, clone, is_ascii, insert, remove, truncate, vec![x; n], ...) go through; "
        "everything else takes constant time",
        "not counted: reading the query (FzfParser); a binary search among the ranges counts as one step",
    ],
}
ORACLE_EXTRA = {"C16": "normalize"}
_N = ("Every obligation of the crate is discharged by Verus for all inputs of up to 2^28 characters. Trusted: Verus/Z3, the extraction, "
      "contracts assumed on std and memchr (evidence: trusted_base).")
NOTE = {p: _N for p in LEVEL}
NOT_APPLICABLE = {
    "C21": "The fzf binary is not in the sandbox and is not Rust code under contract; C11-C13 state and prove the algorithm it is documented to implement instead.",
}
# per property: the Verus proof fns (contracts/95_theorems.vx), API clients (96_clients.vx) and
# exec-function contracts that state it; check.py insists that each is in the verified text
THEOREMS = {
    "C01": ["c01_fuzzy_iff_subsequence", "c01_v1_iff_v2", "api_both"],
    "C02": ["c02_exact_iff_occurs"],
    "C03": ["c03_prefix", "c03_suffix", "c03_equality"],
    "C04": ["c04_or", "c04_and", "c04_negation", "api_v1", "api_v2"],
    "C05": ["c05_last_word", "c05_word_then", "c05_leading_spaces", "c05_bars", "c05_trailing_bar",
            "c05_markers_only", "c05_or_and", "c05_nothing_empty"],
    "C06": ["api_v1", "api_v2"],
    "C07": ["c07_char_boundaries", "api_ranges"],
    "C08": ["c08_exactly", "api_ranges"],
    "C09": ["c09_same_result", "api_v1", "api_v2"],
    "C10": ["c09_same_result", "api_v1", "api_v2"],
    "C11": ["c11_score_of_alignment", "c11_scheme"],
    "C12": ["c12_window"],
    "C13": ["c13_single", "c13_alignment"],
    "C14": ["<FzfDistance as Ord>::cmp", "<FzfDistance as PartialOrd>::partial_cmp", "api_order"],
    "C15": ["c15_modes", "api_v1", "api_v2"],
    "C16": ["c16_normalization", "c16_table", "api_v1", "api_v2"],
    "C20": ["theorem_c20_reject", "theorem_c20_v1", "theorem_c20_product", "theorem_c20_ranges", "api_cost_v1", "api_cost_v2",
            "api_cost_ranges_v1", "api_cost_ranges_v2", "api_cost_parse"],
    "C19": ["c19_schemes", "api_v1", "api_v2"],
}

# properties that rest on a function whose contract carries no tag of its own
FN_TAGS = [
    (r"Candidate::(find_last|find_last_from)$|candidate::find_last_", ["C12", "C13"]),
    (r"Candidate::find_first_from$|candidate::find_first_", ["C01", "C12", "C13", "C15"]),
    (r"(leading|trailing)_spaces$", ["C03"]),
    (r"Candidate::to_byte_", ["C07", "C08"]),
    (r"Matches|Candidate::matches", ["C01", "C13", "C15"]),
    (r"candidate::Candidate::|Chars as|Pattern::|Pattern as", ["C01", "C02", "C03", "C11"]),
    (r"matched_ranges::", ["C07", "C08"]),
    (r"normalize", ["C16"]),
    (r"utils::|char_eq|CandidateOpts|char_char__bool", ["C01", "C15", "C16"]),
    (r"VxFnPtr_char__bool", ["C11", "C19"]),
    (r"fzf::candidate::CandidateV2", ["C10", "C13"]),
    (r"alloc_chars|CandidateSlab", ["C01", "C10"]),
    (r"FzfV1 as Fzf>::fuzzy", ["C01", "C11", "C12"]),
    (r"FzfV2 as Fzf>::fuzzy", ["C01", "C11", "C13"]),
    (r"Fzf>::scheme", ["C11", "C19"]),
    (r"FzfDistance", ["C14"]),
    (r"parser::|query::", ["C05", "C06"]),
    (r"slab::", ["C10", "C13"]),
]
