@@ # The properties, as theorems about the specifications the contracts are written in.
@@ prelude
// ---------------------------------------------------------------- C01
pub open spec fn is_subsequence(e: VxCharEq, p: Seq<char>, cs: Seq<char>) -> bool { exists|pos: Seq<int>| aligned(e, p, cs, pos) }
pub proof fn subsequence_iff_greedy(e: VxCharEq, p: Seq<char>, cs: Seq<char>)
    requires p.len() > 0
    ensures gpos(e, p, cs, 0, p.len() - 1) < cs.len() <==> is_subsequence(e, p, cs)
{
    let n = p.len() as int;
    if gpos(e, p, cs, 0, n - 1) < cs.len() { greedy_aligned(e, p, cs, 0); }
    if is_subsequence(e, p, cs) {
        let pos = choose|pos: Seq<int>| aligned(e, p, cs, pos);
        assert(pos[0] >= 0 && pos[n - 1] < cs.len());
        gpos_first(e, p, cs, 0, pos, n - 1);
    }
}
/// a query of one fuzzy term matches iff the term is a subsequence of the candidate
pub proof fn c01_fuzzy_iff_subsequence(cfg: Cfg, t: Term, cs: Seq<char>)
    requires t.text.len() > 0, t.kind is Fuzzy, !t.neg
    ensures s_query(cfg, seq![seq![t]], cs) is Some <==> is_subsequence(cfg.eq(has_up(t.text)), t.text, cs) //[C01]
{
    s_and_one(cfg, t, cs);
    subsequence_iff_greedy(cfg.eq(has_up(t.text)), t.text, cs);
}
/// FzfV1 and FzfV2 accept the same candidates, for every query
pub proof fn c01_v1_iff_v2(a: Cfg, b: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, n: int)
    requires a.case == b.case, a.norm == b.norm, a.scheme == b.scheme, n <= q.len()
    ensures s_and(a, q, cs, n) is Some <==> s_and(b, q, cs, n) is Some //[C01]
    decreases n
{
    if n > 0 { c01_v1_iff_v2(a, b, q, cs, n - 1); or_same(a, b, q[n - 1], cs, 0); }
}
pub proof fn or_same(a: Cfg, b: Cfg, ts: Seq<Term>, cs: Seq<char>, k: int)
    requires a.case == b.case, a.norm == b.norm, a.scheme == b.scheme
    ensures s_or(a, ts, cs, k) is Some <==> s_or(b, ts, cs, k) is Some
    decreases ts.len() - k
{
    if 0 <= k < ts.len() { or_same(a, b, ts, cs, k + 1); }
}
// ---------------------------------------------------------------- C02
/// the best of the occurrences before n
proof fn best_upto(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme, n: int) -> (s: int)
    requires exists|t: int| t < n && #[trigger] occ(e, p, cs, t)
    ensures s < n, occ(e, p, cs, s),
        obonus(cs, s, sc) >= 8 ==> forall|t: int| t < s && #[trigger] occ(e, p, cs, t) ==> obonus(cs, t, sc) < 8,
        obonus(cs, s, sc) < 8 ==> forall|t: int| t < n && #[trigger] occ(e, p, cs, t) ==> obonus(cs, t, sc) < 8
            && obonus(cs, t, sc) <= obonus(cs, s, sc) && (t < s ==> obonus(cs, t, sc) < obonus(cs, s, sc)),
    decreases n
{
    if n <= 0 { assert(false); 0 }
    else if exists|t: int| t < n - 1 && #[trigger] occ(e, p, cs, t) {
        let r = best_upto(e, p, cs, sc, n - 1);
        if obonus(cs, r, sc) < 8 && occ(e, p, cs, n - 1) && obonus(cs, n - 1, sc) > obonus(cs, r, sc) { n - 1 } else { r }
    } else { n - 1 }
}
/// an exact term matches iff it occurs, and at its best occurrence
pub proof fn c02_exact_iff_occurs(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme)
    ensures
        s_exact(e, p, cs, sc) is Some <==> exists|s: int| occ(e, p, cs, s), //[C02]
        s_exact(e, p, cs, sc) is Some ==> best_occ(e, p, cs, sc, s_exact(e, p, cs, sc)->0), //[C02]
{
    if exists|s: int| occ(e, p, cs, s) {
        let s = choose|s: int| occ(e, p, cs, s);
        assert(s < cs.len() + 1 && occ(e, p, cs, s));
        let r = best_upto(e, p, cs, sc, cs.len() as int + 1);
        assert forall|t: int| #[trigger] occ(e, p, cs, t) implies t < cs.len() + 1 by {}
        assert(best_occ(e, p, cs, sc, r));
    }
}
// ---------------------------------------------------------------- C03
pub open spec fn starts_with_eq(e: VxCharEq, t: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= t.len() && forall|k: int| 0 <= k < p.len() ==> e.eqv(#[trigger] p[k], t[k])
}
pub open spec fn ends_with_eq(e: VxCharEq, t: Seq<char>, p: Seq<char>) -> bool {
    p.len() <= t.len() && forall|k: int| 0 <= k < p.len() ==> e.eqv(#[trigger] p[k], t[t.len() - p.len() + k])
}
pub proof fn c03_prefix(e: VxCharEq, p: Seq<char>, cs: Seq<char>)
    ensures ({
        let s = n_lead(cs) - n_lead(p);
        s_prefix(e, p, cs) is Some <==> s >= 0 && starts_with_eq(e, cs.subrange(s, cs.len() as int), p)
    }) //[C03]
{
    n_lead_bound(cs); n_lead_bound(p);
    let s = n_lead(cs) - n_lead(p);
    if s >= 0 {
        let t = cs.subrange(s, cs.len() as int);
        assert forall|k: int| 0 <= k < p.len() && s + p.len() <= cs.len() implies #[trigger] t[k] == cs[s + k] by {}
        if starts_with_eq(e, t, p) { assert forall|k: int| 0 <= k < p.len() implies e.eqv(#[trigger] p[k], cs[s + k]) by { assert(t[k] == cs[s + k]); } }
        if occ(e, p, cs, s) { assert forall|k: int| 0 <= k < p.len() implies e.eqv(#[trigger] p[k], t[k]) by {} }
    }
}
pub proof fn c03_suffix(e: VxCharEq, p: Seq<char>, cs: Seq<char>)
    ensures ({
        let d = n_trail(cs) - n_trail(p);
        s_suffix(e, p, cs) is Some <==> d >= 0 && ends_with_eq(e, cs.subrange(0, cs.len() - d), p)
    }) //[C03]
{
    n_trail_bound(cs); n_trail_bound(p);
    let d = n_trail(cs) - n_trail(p);
    if d >= 0 {
        let t = cs.subrange(0, cs.len() - d);
        let s = t.len() - p.len();
        if ends_with_eq(e, t, p) { assert forall|k: int| 0 <= k < p.len() implies e.eqv(#[trigger] p[k], cs[s + k]) by { assert(t[s + k] == cs[s + k]); } }
        if occ(e, p, cs, s) { assert forall|k: int| 0 <= k < p.len() implies e.eqv(#[trigger] p[k], t[s + k]) by {} }
    }
}
pub proof fn c03_equality(e: VxCharEq, p: Seq<char>, cs: Seq<char>)
    ensures ({
        let s = n_lead(cs) - n_lead(p);
        let t = cs.len() - (n_trail(cs) - n_trail(p));
        s_equal(e, p, cs) is Some <==> s >= 0 && s <= t <= cs.len() && p.len() == t - s && starts_with_eq(e, cs.subrange(s, t), p)
    }) //[C03]
{
    n_lead_bound(cs); n_lead_bound(p); n_trail_bound(cs); n_trail_bound(p);
    let s = n_lead(cs) - n_lead(p);
    let t = cs.len() - (n_trail(cs) - n_trail(p));
    if 0 <= s <= t && t <= cs.len() && p.len() == t - s {
        let u = cs.subrange(s, t);
        if starts_with_eq(e, u, p) { assert forall|k: int| 0 <= k < p.len() implies e.eqv(#[trigger] p[k], cs[s + k]) by { assert(u[k] == cs[s + k]); } }
        if occ(e, p, cs, s) { assert forall|k: int| 0 <= k < p.len() implies e.eqv(#[trigger] p[k], u[k]) by {} }
    }
}
// ---------------------------------------------------------------- C04
/// alternative j is the first of ts that matches
pub open spec fn first_alt(cfg: Cfg, ts: Seq<Term>, cs: Seq<char>, j: int) -> bool {
    0 <= j < ts.len() && s_term(cfg, ts[j], cs) is Some && forall|i: int| 0 <= i < j ==> s_term(cfg, #[trigger] ts[i], cs) is None
}
pub proof fn or_is_first(cfg: Cfg, ts: Seq<Term>, cs: Seq<char>, k: int)
    requires 0 <= k <= ts.len(), forall|i: int| 0 <= i < k ==> s_term(cfg, #[trigger] ts[i], cs) is None
    ensures match s_or(cfg, ts, cs, k) {
        Some(x) => exists|j: int| #[trigger] first_alt(cfg, ts, cs, j) && s_term(cfg, ts[j], cs) == Some(x),
        None => forall|i: int| 0 <= i < ts.len() ==> s_term(cfg, #[trigger] ts[i], cs) is None,
    }
    decreases ts.len() - k
{
    if k < ts.len() {
        if s_term(cfg, ts[k], cs) is Some { assert(first_alt(cfg, ts, cs, k)); } else { or_is_first(cfg, ts, cs, k + 1); }
    }
}
/// an OR is its first matching alternative
pub proof fn c04_or(cfg: Cfg, ts: Seq<Term>, cs: Seq<char>)
    ensures
        s_or(cfg, ts, cs, 0) is Some <==> exists|j: int| 0 <= j < ts.len() && s_term(cfg, #[trigger] ts[j], cs) is Some, //[C04]
        forall|j: int| #[trigger] first_alt(cfg, ts, cs, j) ==> s_or(cfg, ts, cs, 0) == s_term(cfg, ts[j], cs), //[C04]
{
    or_is_first(cfg, ts, cs, 0);
    assert forall|j: int| #[trigger] first_alt(cfg, ts, cs, j) implies s_or(cfg, ts, cs, 0) == s_term(cfg, ts[j], cs) by {
        let x = s_or(cfg, ts, cs, 0)->0;
        let i = choose|i: int| #[trigger] first_alt(cfg, ts, cs, i) && s_term(cfg, ts[i], cs) == Some(x);
        assert(i == j) by { if i < j { assert(s_term(cfg, ts[i], cs) is None); } if j < i { assert(s_term(cfg, ts[j], cs) is None); } }
    }
}
/// the sum of the scores of the first n conditions
pub open spec fn sum_scores(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { sum_scores(cfg, q, cs, n - 1) + (s_or(cfg, q[n - 1], cs, 0)->0).0 }
}
pub proof fn and_is_all(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, n: int)
    requires n <= q.len()
    ensures
        s_and(cfg, q, cs, n) is Some <==> forall|i: int| 0 <= i < n ==> s_or(cfg, #[trigger] q[i], cs, 0) is Some,
        s_and(cfg, q, cs, n) is Some ==> (s_and(cfg, q, cs, n)->0).0 == sum_scores(cfg, q, cs, n),
    decreases n
{
    if n > 0 { and_is_all(cfg, q, cs, n - 1); }
}
/// a query is an AND, and its score is the sum of those of its conditions
pub proof fn c04_and(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>)
    ensures
        s_query(cfg, q, cs) is Some <==> forall|i: int| 0 <= i < q.len() ==> s_or(cfg, #[trigger] q[i], cs, 0) is Some, //[C04]
        s_query(cfg, q, cs) is Some ==> (s_query(cfg, q, cs)->0).0 == sum_scores(cfg, q, cs, q.len() as int), //[C04]
        q.len() == 0 ==> s_query(cfg, q, cs) == Some((0int, Seq::<int>::empty())), //[C04]
{
    and_is_all(cfg, q, cs, q.len() as int);
}
/// a negated term matches iff its positive form does not, and scores 0
pub proof fn c04_negation(cfg: Cfg, t: Term, cs: Seq<char>)
    requires t.neg
    ensures
        s_term(cfg, t, cs) is Some <==> s_term(cfg, Term { neg: false, ..t }, cs) is None, //[C04]
        s_term(cfg, t, cs) is Some ==> s_term(cfg, t, cs) == Some((0int, Seq::<int>::empty())), //[C04]
{
    assert(s_pos(cfg, t, cs) == s_pos(cfg, Term { neg: false, ..t }, cs));
}
// ---------------------------------------------------------------- C05
/// w with its spaces escaped
pub open spec fn esc(w: Seq<char>) -> Seq<char>
    decreases w.len()
{
    if w.len() == 0 { Seq::empty() }
    else if w[0] == ' ' { seq!['\\', ' '] + esc(w.drop_first()) }
    else { seq![w[0]] + esc(w.drop_first()) }
}
pub proof fn take_esc(w: Seq<char>, r: Seq<char>)
    requires r.len() == 0 || (r[0] == ' ' && (w.len() > 0 ==> w.last() != '\\'))
    ensures w_take(esc(w) + r) == (w, esc(w).len() as int), w.len() <= esc(w).len(), w.len() > 0 ==> esc(w).len() > 0 && esc(w)[0] != ' '
    decreases w.len()
{
    let q = esc(w) + r;
    if w.len() == 0 {
        assert(q =~= r);
        assert(w =~= Seq::<char>::empty());
    } else {
        let v = w.drop_first();
        if v.len() > 0 { assert(v.last() == w.last()); }
        take_esc(v, r);
        if w[0] == ' ' {
            assert(q.subrange(2, q.len() as int) =~= esc(v) + r);
            assert(seq![' '] + v =~= w);
        } else {
            assert(q.subrange(1, q.len() as int) =~= esc(v) + r);
            assert(seq![w[0]] + v =~= w);
            if v.len() == 0 { assert(esc(v) + r =~= r); } else { assert((esc(v) + r)[0] == esc(v)[0]); }
        }
    }
}
/// escaping a word and splitting gives the word back: the last one ...
pub proof fn c05_last_word(w: Seq<char>)
    requires w.len() > 0
    ensures s_words(strip(esc(w))) == seq![w] //[C05]
{
    let q = esc(w);
    take_esc(w, Seq::empty());
    assert(q + Seq::<char>::empty() =~= q);
    n_lead_is(q, 0);
    assert(strip(q) =~= q);
    let e = q.subrange(q.len() as int, q.len() as int);
    assert(e =~= Seq::<char>::empty());
    n_lead_bound(e);
    assert(w_rest(q) =~= Seq::<char>::empty());
    assert(s_words(w_rest(q)) =~= Seq::<Seq<char>>::empty());
    assert(s_words(q) =~= seq![w]);
}
/// ... and one with spaces and more words after it
pub proof fn c05_word_then(w: Seq<char>, spaces: Seq<char>, more: Seq<char>)
    requires w.len() > 0, w.last() != '\\', spaces.len() > 0, forall|i: int| 0 <= i < spaces.len() ==> #[trigger] spaces[i] == ' ', n_lead(more) == 0
    ensures s_words(strip(esc(w) + spaces + more)) == seq![w] + s_words(more) //[C05]
{
    let r = spaces + more;
    let q = esc(w) + r;
    assert(esc(w) + spaces + more =~= q);
    assert(r[0] == spaces[0]);
    take_esc(w, r);
    n_lead_is(q, 0);
    assert(strip(q) =~= q);
    assert(q.subrange(esc(w).len() as int, q.len() as int) =~= r);
    n_lead_bound(more);
    assert forall|i: int| 0 <= i < spaces.len() implies #[trigger] r[i] == ' ' by { assert(r[i] == spaces[i]); }
    if more.len() > 0 { assert(r[spaces.len() as int] == more[0]); }
    n_lead_is(r, spaces.len() as int);
    assert(strip(r) =~= more);
}
/// spaces before the first word do not count
pub proof fn c05_leading_spaces(spaces: Seq<char>, q: Seq<char>)
    requires forall|i: int| 0 <= i < spaces.len() ==> #[trigger] spaces[i] == ' ', n_lead(q) == 0
    ensures s_parse(spaces + q) == s_parse(q) //[C05]
{
    let r = spaces + q;
    n_lead_bound(q);
    assert forall|i: int| 0 <= i < spaces.len() implies #[trigger] r[i] == ' ' by { assert(r[i] == spaces[i]); }
    if q.len() > 0 { assert(r[spaces.len() as int] == q[0]); }
    n_lead_is(r, spaces.len() as int);
    assert(strip(r) =~= q);
    assert(strip(q) =~= q);
}
pub open spec fn bar() -> Seq<char> { seq!['|'] }
/// leading and repeated bars do not count
pub proof fn c05_bars(ws: Seq<Seq<char>>, cur: Seq<Term>, lfo: bool)
    ensures
        s_conds(seq![bar()] + ws, Seq::empty(), false) == s_conds(ws, Seq::empty(), false), //[C05]
        s_conds(seq![bar(), bar()] + ws, cur, lfo) == s_conds(seq![bar()] + ws, cur, lfo), //[C05]
{
    assert((seq![bar()] + ws).drop_first() =~= ws);
    let l = seq![bar(), bar()] + ws;
    assert(l.drop_first() =~= seq![bar()] + ws);
    assert(l[0] == bar() && (seq![bar()] + ws)[0] == bar());
    assert(s_conds(l, cur, lfo) == s_conds(seq![bar()] + ws, cur, false));
    assert(s_conds(seq![bar()] + ws, cur, false) == s_conds(ws, cur, false));
    assert(s_conds(seq![bar()] + ws, cur, lfo) == s_conds(ws, cur, false));
}
/// a trailing bar does not count
pub proof fn c05_trailing_bar(ws: Seq<Seq<char>>, cur: Seq<Term>, lfo: bool)
    ensures s_conds(ws.push(bar()), cur, lfo) == s_conds(ws, cur, lfo) //[C05]
    decreases ws.len()
{
    let l = ws.push(bar());
    if ws.len() == 0 {
        assert(l.drop_first() =~= Seq::<Seq<char>>::empty());
        assert(l[0] == bar());
        assert(s_conds(l, cur, lfo) == s_conds(l.drop_first(), cur, false));
    } else {
        assert(l[0] == ws[0]);
        assert(l.drop_first() =~= ws.drop_first().push(bar()));
        let rest = ws.drop_first();
        if ws[0] == bar() { c05_trailing_bar(rest, cur, false); }
        else {
            match s_word(ws[0]) {
                None => { c05_trailing_bar(rest, cur, lfo); }
                Some(t) => { c05_trailing_bar(rest, seq![t], true); c05_trailing_bar(rest, cur.push(t), true); }
            }
        }
    }
}
/// a word that is only markers does not count
pub proof fn c05_markers_only(w: Seq<char>, ws: Seq<Seq<char>>, cur: Seq<Term>, lfo: bool)
    requires s_word(w) is None, w != bar()
    ensures s_conds(seq![w] + ws, cur, lfo) == s_conds(ws, cur, lfo) //[C05]
{
    assert((seq![w] + ws).drop_first() =~= ws);
}
/// a bar joins two terms into one condition, without it they are two
pub proof fn c05_or_and(a: Seq<char>, b: Seq<char>)
    requires s_word(a) is Some, s_word(b) is Some, a != bar(), b != bar()
    ensures
        s_conds(seq![a, bar(), b], Seq::empty(), false) == seq![seq![s_word(a)->0, s_word(b)->0]], //[C05]
        s_conds(seq![a, b], Seq::empty(), false) == seq![seq![s_word(a)->0], seq![s_word(b)->0]], //[C05]
{
    reveal_with_fuel(s_conds, 5);
    let t = s_word(a)->0;
    let u = s_word(b)->0;
    let l = seq![a, bar(), b];
    assert(l.drop_first() =~= seq![bar(), b]);
    assert(seq![bar(), b].drop_first() =~= seq![b]);
    assert(seq![a, b].drop_first() =~= seq![b]);
    assert(seq![b].drop_first() =~= Seq::<Seq<char>>::empty());
    assert(Seq::<Term>::empty().push(t) =~= seq![t]);
    assert(seq![t].push(u) =~= seq![t, u]);
    assert(seq![seq![t]] + seq![seq![u]] =~= seq![seq![t], seq![u]]);
}
/// no condition and no term is empty
pub proof fn c05_nothing_empty(ws: Seq<Seq<char>>, cur: Seq<Term>, lfo: bool)
    requires forall|i: int| 0 <= i < cur.len() ==> (#[trigger] cur[i]).text.len() > 0, lfo ==> cur.len() > 0
    ensures forall|i: int| 0 <= i < s_conds(ws, cur, lfo).len() ==> (#[trigger] s_conds(ws, cur, lfo)[i]).len() > 0
            && forall|j: int| 0 <= j < s_conds(ws, cur, lfo)[i].len() ==> (#[trigger] s_conds(ws, cur, lfo)[i][j]).text.len() > 0, //[C05]
    decreases ws.len()
{
    if ws.len() > 0 {
        let rest = ws.drop_first();
        if ws[0] == bar() { c05_nothing_empty(rest, cur, false); }
        else {
            match s_word(ws[0]) {
                None => { c05_nothing_empty(rest, cur, lfo); }
                Some(t) => {
                    c05_nothing_empty(rest, seq![t], true);
                    c05_nothing_empty(rest, cur.push(t), true);
                    if lfo {
                        let r = s_conds(rest, seq![t], true);
                        let s = s_conds(ws, cur, lfo);
                        assert(s == seq![cur] + r);
                        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() > 0 && forall|j: int| 0 <= j < s[i].len() ==> (#[trigger] s[i][j]).text.len() > 0 by {
                            if i > 0 { assert(s[i] == r[i - 1]); }
                        }
                    }
                }
            }
        }
    }
}
// ---------------------------------------------------------------- C07, C08
/// what a query matches are chars of the candidate
pub proof fn fuzzy_in(cfg: Cfg, p: Seq<char>, cs: Seq<char>)
    requires p.len() > 0, p.len() <= MAXLEN, cs.len() <= MAXLEN, sc_wf(cfg.scheme), s_fuzzy(cfg, p, cs) is Some
    ensures forall|k: int| 0 <= k < (s_fuzzy(cfg, p, cs)->0).1.len() ==> 0 <= #[trigger] (s_fuzzy(cfg, p, cs)->0).1[k] < cs.len()
{
    let e = cfg.eq(has_up(p));
    if cfg.v2 {
        if p.len() == 1 { c13_single(e, p, cs, cfg.scheme); }
        else { c13_alignment(e, p, cs, cfg.scheme); }
    } else {
        c12_window(e, p, cs, cfg.scheme);
    }
}
pub proof fn pos_in(cfg: Cfg, t: Term, cs: Seq<char>)
    requires t.text.len() > 0, t.text.len() <= MAXLEN, cs.len() <= MAXLEN, sc_wf(cfg.scheme), s_term(cfg, t, cs) is Some
    ensures forall|k: int| 0 <= k < (s_term(cfg, t, cs)->0).1.len() ==> 0 <= #[trigger] (s_term(cfg, t, cs)->0).1[k] < cs.len()
{
    let e = cfg.eq(has_up(t.text));
    if !t.neg {
        if t.kind is Fuzzy { fuzzy_in(cfg, t.text, cs); }
        if t.kind is Exact { c02_exact_iff_occurs(e, t.text, cs, cfg.scheme); }
    }
}
/// the terms of a query that FzfParser makes
pub open spec fn terms_ok(q: Seq<Seq<Term>>) -> bool {
    forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q[i].len() ==> 0 < (#[trigger] q[i][j]).text.len() <= MAXLEN
}
pub proof fn and_in(cfg: Cfg, q: Seq<Seq<Term>>, cs: Seq<char>, n: int)
    requires terms_ok(q), cs.len() <= MAXLEN, sc_wf(cfg.scheme), n <= q.len(), s_and(cfg, q, cs, n) is Some
    ensures forall|k: int| 0 <= k < (s_and(cfg, q, cs, n)->0).1.len() ==> 0 <= #[trigger] (s_and(cfg, q, cs, n)->0).1[k] < cs.len()
    decreases n
{
    if n > 0 {
        and_in(cfg, q, cs, n - 1);
        or_is_first(cfg, q[n - 1], cs, 0);
        let a = (s_and(cfg, q, cs, n - 1)->0).1;
        let x = s_or(cfg, q[n - 1], cs, 0)->0;
        let j = choose|j: int| #[trigger] first_alt(cfg, q[n - 1], cs, j) && s_term(cfg, q[n - 1][j], cs) == Some(x);
        assert(q[n - 1][j].text.len() > 0);
        pos_in(cfg, q[n - 1][j], cs);
        let r = (s_and(cfg, q, cs, n)->0).1;
        assert(r == a + x.1);
        assert forall|k: int| 0 <= k < r.len() implies 0 <= #[trigger] r[k] < cs.len() by { if k < a.len() { assert(r[k] == a[k]); } else { assert(r[k] == x.1[k - a.len()]); } }
    }
}
/// x is where a char of cs starts, or the end of cs
pub open spec fn boundary(cs: Seq<char>, x: int) -> bool { exists|k: int| 0 <= k <= cs.len() && x == #[trigger] encode_utf8(cs.subrange(0, k)).len() }
proof fn bound_at(cs: Seq<char>, k: int)
    requires 0 <= k <= cs.len()
    ensures boundary(cs, boff(cs, k)), boff(cs, k) <= encode_utf8(cs).len()
{
    boff_is_utf8(cs, k); boff_mono(cs, k, cs.len() as int); boff_is_utf8(cs, cs.len() as int); cpos_ends(cs);
}
/// the ranges that are appended start and end where chars do, within the candidate
pub proof fn c07_char_boundaries(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, cs: Seq<char>, pos: Seq<int>)
    requires marks(r0, r1, r0.len() as int, cs, pos), rwf(r1, r0.len() as int), forall|k: int| 0 <= k < pos.len() ==> 0 <= #[trigger] pos[k] < cs.len()
    ensures forall|i: int| r0.len() <= i < r1.len() ==> boundary(cs, (#[trigger] r1[i]).start as int) && boundary(cs, r1[i].end as int)
        && r1[i].start < r1[i].end <= encode_utf8(cs).len(), //[C07]
{
    let n = r0.len() as int;
    let m = pos.len() as int;
    assert(forall|x: int| !#[trigger] covers(r0, n, x));
    assert forall|i: int| n <= i < r1.len() implies boundary(cs, (#[trigger] r1[i]).start as int) && boundary(cs, r1[i].end as int) && r1[i].start < r1[i].end <= encode_utf8(cs).len() by {
        let s = r1[i].start as int;
        let t = r1[i].end as int;
        assert(covers(r1, n, s));
        assert(pcov(cs, pos, m, s));
        let k = choose|k: int| 0 <= k < m && boff(cs, #[trigger] pos[k]) <= s < boff(cs, pos[k] + 1);
        let a = boff(cs, pos[k]);
        if a < s {
            assert(pcov(cs, pos, m, s - 1)) by { assert(boff(cs, pos[k]) <= s - 1 < boff(cs, pos[k] + 1)); }
            assert(covers(r1, n, s - 1));
            let j = choose|j: int| n <= j < r1.len() && (#[trigger] r1[j]).start <= s - 1 < r1[j].end;
            if j < i { assert(r1[j].end < r1[i].start); } else if i < j { assert(r1[i].end < r1[j].start); }
            assert(false);
        }
        bound_at(cs, pos[k]);
        assert(covers(r1, n, t - 1));
        assert(pcov(cs, pos, m, t - 1));
        let k = choose|k: int| 0 <= k < m && boff(cs, #[trigger] pos[k]) <= t - 1 < boff(cs, pos[k] + 1);
        let b = boff(cs, pos[k] + 1);
        if t < b {
            assert(pcov(cs, pos, m, t)) by { assert(boff(cs, pos[k]) <= t < boff(cs, pos[k] + 1)); }
            assert(covers(r1, n, t));
            let j = choose|j: int| n <= j < r1.len() && (#[trigger] r1[j]).start <= t < r1[j].end;
            if j < i { assert(r1[j].end < r1[i].start); } else if i < j { assert(r1[i].end < r1[j].start); }
            assert(false);
        }
        bound_at(cs, pos[k] + 1);
    }
}
/// the bytes covered are exactly those of the chars matched
pub proof fn c08_exactly(r0: Seq<Range<usize>>, r1: Seq<Range<usize>>, cs: Seq<char>, pos: Seq<int>, x: int)
    requires marks(r0, r1, r0.len() as int, cs, pos), forall|k: int| 0 <= k < pos.len() ==> 0 <= #[trigger] pos[k] < cs.len()
    ensures covers(r1, r0.len() as int, x) <==> exists|k: int| 0 <= k < pos.len()
        && encode_utf8(cs.subrange(0, #[trigger] pos[k])).len() <= x < encode_utf8(cs.subrange(0, pos[k] + 1)).len() //[C08]
{
    assert(forall|x: int| !#[trigger] covers(r0, r0.len() as int, x));
    assert forall|k: int| 0 <= k < pos.len() implies boff(cs, #[trigger] pos[k]) == encode_utf8(cs.subrange(0, pos[k])).len()
        && boff(cs, pos[k] + 1) == encode_utf8(cs.subrange(0, pos[k] + 1)).len() by { boff_is_utf8(cs, pos[k]); boff_is_utf8(cs, pos[k] + 1); }
    assert(covers(r1, r0.len() as int, x) <==> pcov(cs, pos, pos.len() as int, x));
    if pcov(cs, pos, pos.len() as int, x) { let k = choose|k: int| 0 <= k < pos.len() && boff(cs, #[trigger] pos[k]) <= x < boff(cs, pos[k] + 1); assert(boff(cs, pos[k]) <= x); }
}
// ---------------------------------------------------------------- C09, C10
/// what the contracts of distance and distance_and_ranges say determines what they return
pub proof fn c09_same_result(m: Option<(int, Seq<int>)>, a: Option<i64>, b: Option<i64>)
    requires scored(m, a), scored(m, b)
    ensures a == b //[C09,C10]
{}
// ---------------------------------------------------------------- C11
/// the score of a positive term is that of the chars it matches
pub proof fn c11_score_of_alignment(cfg: Cfg, t: Term, cs: Seq<char>)
    requires !t.neg, s_term(cfg, t, cs) is Some, !cfg.v2 || !(t.kind is Fuzzy)
    ensures ({ let m = s_term(cfg, t, cs)->0; m.1.len() == t.text.len() && m.0 == align_score(cs, m.1, m.1.len() as int, cfg.scheme) }) //[C11]
{}
/// the scheme: 16 and a bonus per char, less 3 and 1 for each further char of a gap
pub proof fn c11_scheme(cs: Seq<char>, pos: Seq<int>, k: int, sc: Scheme)
    requires 0 <= k < pos.len()
    ensures
        k == 0 ==> align_score(cs, pos, 1, sc) == 16 + 2 * obonus(cs, pos[0], sc), //[C11]
        k > 0 && pos[k] == pos[k - 1] + 1 ==> align_score(cs, pos, k + 1, sc) == align_score(cs, pos, k, sc) + 16 + char_bonus(cs, pos, k, sc)
            && char_bonus(cs, pos, k, sc) >= 4 && char_bonus(cs, pos, k, sc) >= obonus(cs, pos[k], sc), //[C11]
        k > 0 && pos[k] > pos[k - 1] + 1 ==> align_score(cs, pos, k + 1, sc) == align_score(cs, pos, k, sc) + 16 + obonus(cs, pos[k], sc) - 3 - (pos[k] - pos[k - 1] - 2), //[C11]
{
    reveal_with_fuel(align_score, 2);
}
// ---------------------------------------------------------------- C12
/// the window ends at the earliest offset, starts at the latest, and holds the leftmost alignment from its start
pub proof fn c12_window(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme)
    requires p.len() > 0, s_v1(e, p, cs, sc) is Some
    ensures ({
        let r = (s_v1(e, p, cs, sc)->0).1;
        let n = p.len() as int;
        &&& aligned(e, p, cs, r)
        &&& forall|pos: Seq<int>| #[trigger] aligned(e, p, cs, pos) ==> r[n - 1] <= pos[n - 1]
        &&& forall|pos: Seq<int>| #[trigger] aligned(e, p, cs, pos) && pos[n - 1] <= r[n - 1] ==> pos[0] <= r[0]
        &&& forall|pos: Seq<int>, k: int| #![trigger aligned(e, p, cs, pos), pos[k]] aligned(e, p, cs, pos) && pos[0] >= r[0] && 0 <= k < n ==> r[k] <= pos[k]
    }) //[C12]
{
    let n = p.len() as int;
    let end = gpos(e, p, cs, 0, n - 1) + 1;
    let s = v1_start(e, p, cs);
    let r = (s_v1(e, p, cs, sc)->0).1;
    v1_window(e, p, cs);
    greedy_aligned(e, p, cs, s);
    gpos_mono(e, p, cs, s, -1, 0);
    next_at_is(e, p[0], cs, s);
    assert(gpos(e, p, cs, s, -1) == s - 1);
    assert(r[0] == s) by { assert(gpos(e, p, cs, s, 0) == next_at(e, p[0], cs, s)); assert(next_at(e, p[0], cs, s) == s); }
    assert(r[0] >= 0);
    gpos_first(e, p, cs, 0, r, n - 1);
    assert(r[n - 1] == end - 1);
    assert forall|pos: Seq<int>| #[trigger] aligned(e, p, cs, pos) implies r[n - 1] <= pos[n - 1] by { assert(pos[0] >= 0); gpos_first(e, p, cs, 0, pos, n - 1); }
    assert forall|pos: Seq<int>| #[trigger] aligned(e, p, cs, pos) && pos[n - 1] <= r[n - 1] implies pos[0] <= r[0] by { rpos_last(e, p, cs, end, pos, 0); }
    assert forall|pos: Seq<int>, k: int| #![trigger aligned(e, p, cs, pos), pos[k]] aligned(e, p, cs, pos) && pos[0] >= r[0] && 0 <= k < n implies r[k] <= pos[k] by { gpos_first(e, p, cs, s, pos, k); }
}
// ---------------------------------------------------------------- C13
/// a single char: the leftmost of its occurrences with the highest bonus
pub proof fn best_one_is(e: VxCharEq, c: char, cs: Seq<char>, sc: Scheme, n: int)
    requires 0 <= n <= cs.len(), sc_wf(sc)
    ensures ({
        let r = best_one(e, c, cs, sc, n);
        &&& none_eq(e, c, cs, 0, n) ==> r == (0int, 0int)
        &&& !none_eq(e, c, cs, 0, n) ==> 0 <= r.1 < n && e.eqv(c, cs[r.1]) && r.0 == 16 + 2 * obonus(cs, r.1, sc)
        &&& forall|j: int| 0 <= j < n && e.eqv(c, #[trigger] cs[j]) ==> obonus(cs, j, sc) <= obonus(cs, r.1, sc) && (j < r.1 ==> obonus(cs, j, sc) < obonus(cs, r.1, sc))
    })
    decreases n
{
    if n > 0 { best_one_is(e, c, cs, sc, n - 1); bonus_bound(cs, n - 1, sc, sc.initial_char_class); }
}
pub proof fn c13_single(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme)
    requires p.len() == 1, cs.len() <= MAXLEN, sc_wf(sc), s_v2(e, p, cs, sc) is Some
    ensures ({
        let r = s_v2(e, p, cs, sc)->0;
        let a = r.1[0];
        &&& r.1.len() == 1 && 0 <= a < cs.len() && e.eqv(p[0], cs[a])
        &&& r.0 == 16 + 2 * obonus(cs, a, sc)
        &&& forall|j: int| 0 <= j < cs.len() && e.eqv(p[0], #[trigger] cs[j]) ==> obonus(cs, j, sc) <= obonus(cs, a, sc) && (j < a ==> obonus(cs, j, sc) < obonus(cs, a, sc))
    }) //[C13]
{
    best_one_is(e, p[0], cs, sc, cs.len() as int);
    gpos_mono(e, p, cs, 0, -1, -1);
    assert(gpos(e, p, cs, 0, 0) == next_at(e, p[0], cs, 0));
    next_at_is(e, p[0], cs, 0);
    assert(e.eqv(p[0], cs[next_at(e, p[0], cs, 0)]));
}
/// a cell of the last row that counts
pub open spec fn last_cell(d: Dp, n: int, j: int) -> bool { 0 <= j < n && d.f[d.m() - 1] <= j && d.hit(d.m() - 1, j) }
/// best is the highest cell of the last row, the leftmost on ties
pub proof fn best_is_max(d: Dp, n: int)
    requires d.wf(), 0 <= n <= d.w()
    ensures
        n > d.f[d.m() - 1] ==> last_cell(d, n, d.best(n).1) && d.best(n).0 == d.at(d.m() - 1, d.best(n).1).h && d.best(n).0 > 0,
        forall|j: int| #[trigger] last_cell(d, n, j) ==> d.at(d.m() - 1, j).h <= d.best(n).0 && (j < d.best(n).1 ==> d.at(d.m() - 1, j).h < d.best(n).0),
    decreases n
{
    let i = d.m() - 1;
    if n > 0 {
        best_is_max(d, n - 1);
        assert forall|j: int| #[trigger] last_cell(d, n, j) && j < n - 1 implies last_cell(d, n - 1, j) by {}
        if n - 1 == d.f[i] { dp_best_none(d, n - 1); }
        if n - 1 >= d.f[i] && d.hit(i, n - 1) { dp_hit_pos(d, i, n - 1); assert(last_cell(d, n, n - 1)); }
        if n > d.f[i] && !(d.best(n).1 == n - 1 && d.best(n).0 > d.best(n - 1).0) && n - 1 > d.f[i] { assert(last_cell(d, n - 1, d.best(n - 1).1)); assert(last_cell(d, n, d.best(n - 1).1)); }
    }
}
/// a cell that matches is worth more than the one up left of it
pub proof fn dp_hit_pos(d: Dp, i: int, j: int)
    requires d.wf(), 0 <= i < d.m(), d.f[i] <= j, 0 <= j < d.w(), d.hit(i, j)
    ensures d.at(i, j).h >= 16 + d.at(i - 1, j - 1).h, d.at(i, j).h > 0
{
    dp_bound(d, i - 1, j - 1);
    bonus_bound(d.t, j, d.sc, d.init);
    bonus_bound(d.t, j - d.at(i - 1, j - 1).c, d.sc, d.init);
}
/// only cells that match are taken
pub proof fn takes_hit(d: Dp, i: int, j: int, prefer: bool)
    requires d.wf(), 0 <= i < d.m(), 0 <= j < d.w(), d.takes(i, j, prefer)
    ensures d.f[i] <= j, d.hit(i, j)
{
    dp_bound(d, i - 1, j - 1);
    dp_bound(d, i, j - 1);
}
/// the walk back from a cell that can be reached takes one char of each row
pub proof fn trace_aligned(d: Dp, i: int, j: int, prefer: bool)
    requires d.wf(), -1 <= i < d.m(), -1 <= j < d.w(), i >= 0 ==> d.f[i] <= j
    ensures ({
        let t = d.trace(i, j, prefer);
        &&& t.len() == i + 1
        &&& forall|k: int| 0 <= k <= i ==> d.f[k] <= #[trigger] t[k] <= j && d.hit(k, t[k])
        &&& forall|a: int, b: int| 0 <= a < b <= i ==> #[trigger] t[a] < #[trigger] t[b]
    })
    decreases j + 1
{
    if i >= 0 {
        assert(d.f[i] >= 0);
        let t = d.trace(i, j, prefer);
        if d.takes(i, j, prefer) {
            takes_hit(d, i, j, prefer);
            if i > 0 { assert(d.f[i - 1] < d.f[i]); }
            trace_aligned(d, i - 1, j - 1, d.prefers(i, j));
            let u = d.trace(i - 1, j - 1, d.prefers(i, j));
            assert(t == u.push(j));
            assert forall|k: int| 0 <= k <= i implies d.f[k] <= #[trigger] t[k] <= j && d.hit(k, t[k]) by { if k < i { assert(t[k] == u[k]); } }
            assert forall|a: int, b: int| 0 <= a < b <= i implies #[trigger] t[a] < #[trigger] t[b] by { assert(t[a] == u[a]); if b < i { assert(t[b] == u[b]); } }
        } else {
            if j == d.f[i] { assert(d.hit(i, d.f[i])); dp_hit_pos(d, i, j); assert(false); }
            trace_aligned(d, i, j - 1, d.prefers(i, j));
        }
    }
}
/// the chars reported are an alignment of the term, and its last one is the leftmost of the best cells of the last row
pub proof fn c13_alignment(e: VxCharEq, p: Seq<char>, cs: Seq<char>, sc: Scheme)
    requires 2 <= p.len() <= MAXLEN, cs.len() <= MAXLEN, sc_wf(sc), s_v2(e, p, cs, sc) is Some
    ensures ({
        let d = v2_dp(e, p, cs, sc);
        let r = s_v2(e, p, cs, sc)->0;
        let j = d.best(d.w()).1;
        &&& d.wf()
        &&& aligned(e, p, cs, r.1)
        &&& last_cell(d, d.w(), j) && r.0 == d.at(d.m() - 1, j).h
        &&& forall|k: int| #[trigger] last_cell(d, d.w(), k) ==> d.at(d.m() - 1, k).h <= r.0 && (k < j ==> d.at(d.m() - 1, k).h < r.0)
    }) //[C13]
{
    let d = v2_dp(e, p, cs, sc);
    let a = gpos(e, p, cs, 0, 0);
    v2_dp_wf(e, p, cs, sc);
    best_is_max(d, d.w());
    let j = d.best(d.w()).1;
    trace_aligned(d, d.m() - 1, j, true);
    let t = d.trace(d.m() - 1, j, true);
    let r = shift(t, a);
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] r[k] < cs.len() && e.eqv(p[k], cs[r[k]]) by { assert(d.f[k] <= t[k]); assert(d.t[t[k]] == cs[r[k]]); }
    assert forall|x: int, y: int| 0 <= x < y < p.len() implies #[trigger] r[x] < #[trigger] r[y] by { assert(t[x] < t[y]); }
}
// ---------------------------------------------------------------- C15, C16
pub open spec fn letter(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
/// c is d, or the same ASCII letter in the other case
pub open spec fn same_letter(c: char, d: char) -> bool { c == d || (letter(c) && letter(d) && (c as int - d as int == 32 || d as int - c as int == 32)) }
pub proof fn c15_modes(cfg: Cfg, up: bool, p: char, c: char)
    requires !cfg.norm
    ensures
        cfg.case is Sensitive ==> (cfg.eq(up).eqv(p, c) <==> p == c), //[C15]
        cfg.case is Insensitive ==> (cfg.eq(up).eqv(p, c) <==> same_letter(p, c)), //[C15]
        cfg.case is Smart && up ==> (cfg.eq(up).eqv(p, c) <==> p == c), //[C15]
        cfg.case is Smart && !up ==> (cfg.eq(up).eqv(p, c) <==> same_letter(p, c)), //[C15]
{
    fold_same(p, c);
}
pub proof fn fold_same(p: char, c: char)
    ensures fold(p) == fold(c) <==> same_letter(p, c)
{}
/// normalization maps the candidate's char unless the query's one lies in the table's ranges
pub proof fn c16_normalization(cfg: Cfg, up: bool, p: char, c: char)
    ensures
        cfg.norm && !in_table(p) ==> (cfg.eq(up).eqv(p, c) <==> Cfg { norm: false, ..cfg }.eq(up).eqv(p, nz(c))), //[C16]
        cfg.norm && in_table(p) ==> (cfg.eq(up).eqv(p, c) <==> Cfg { norm: false, ..cfg }.eq(up).eqv(p, c)), //[C16]
{}
// ---------------------------------------------------------------- C11, C19
/// every scheme a metric can have is one the contracts of distance accept
pub proof fn c19_schemes(s: FzfScheme)
    ensures sc_wf(s_scheme(s)) //[C19]
{}
