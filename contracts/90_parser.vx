@@ prelude
/// the word a text that does not start with a space starts with, and how many chars it takes:
/// an escaped space is part of the word, an unescaped one ends it (C05)
pub open spec fn w_take(q: Seq<char>) -> (Seq<char>, int)
    decreases q.len()
{
    if q.len() == 0 || q[0] == ' ' {
        (Seq::empty(), 0)
    } else if q[0] == '\\' && q.len() > 1 && q[1] == ' ' {
        let r = w_take(q.subrange(2, q.len() as int));
        (seq![' '] + r.0, 2 + r.1)
    } else {
        let r = w_take(q.subrange(1, q.len() as int));
        (seq![q[0]] + r.0, 1 + r.1)
    }
}
pub proof fn w_take_bound(q: Seq<char>)
    ensures w_take(q).0.len() <= w_take(q).1 <= q.len(), q.len() > 0 && q[0] != ' ' ==> w_take(q).0.len() > 0
    decreases q.len()
{
    if q.len() == 0 || q[0] == ' ' {
    } else if q[0] == '\\' && q.len() > 1 && q[1] == ' ' {
        w_take_bound(q.subrange(2, q.len() as int));
    } else {
        w_take_bound(q.subrange(1, q.len() as int));
    }
}
pub open spec fn no_space(q: Seq<char>, k: int) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] q[i] != ' ' }
/// the first space, or the end of the text, ends the word
pub proof fn w_take_run(q: Seq<char>, k: int)
    requires 0 <= k <= q.len(), no_space(q, k), k == q.len() || (q[k] == ' ' && (k > 0 ==> q[k - 1] != '\\'))
    ensures w_take(q) == (q.subrange(0, k), k)
    decreases k
{
    if k > 0 {
        let u = q.subrange(1, q.len() as int);
        assert(q[0] != ' ');
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] u[i] != ' ' by { assert(u[i] == q[i + 1]); }
        w_take_run(u, k - 1);
        assert(seq![q[0]] + u.subrange(0, k - 1) =~= q.subrange(0, k));
        if q.len() > 1 && q[1] == ' ' { if k > 1 { assert(q[1] != ' '); } assert(k == 1); assert(q[0] != '\\'); }
    } else {
        assert(q.subrange(0, 0) =~= Seq::<char>::empty());
    }
}
/// the first space is escaped
pub proof fn w_take_esc(q: Seq<char>, k: int)
    requires 0 < k < q.len(), no_space(q, k), q[k] == ' ', q[k - 1] == '\\'
    ensures ({
        let r = w_take(q.subrange(k + 1, q.len() as int));
        w_take(q) == (q.subrange(0, k - 1) + seq![' '] + r.0, k + 1 + r.1)
    })
    decreases k
{
    let r = w_take(q.subrange(k + 1, q.len() as int));
    assert(q[0] != ' ');
    if k == 1 {
        assert(q.subrange(0, 0) + seq![' '] + r.0 =~= seq![' '] + r.0);
    } else {
        let u = q.subrange(1, q.len() as int);
        assert forall|i: int| 0 <= i < k - 1 implies #[trigger] u[i] != ' ' by { assert(u[i] == q[i + 1]); }
        w_take_esc(u, k - 1);
        assert(u.subrange(k, u.len() as int) =~= q.subrange(k + 1, q.len() as int));
        assert(q[1] != ' ');
        assert(seq![q[0]] + (u.subrange(0, k - 2) + seq![' '] + r.0) =~= q.subrange(0, k - 1) + seq![' '] + r.0);
    }
}
pub proof fn strip_bound(t: Seq<char>)
    ensures strip(t).len() <= t.len(), n_lead(strip(t)) == 0, strip(t).len() > 0 ==> strip(t)[0] != ' '
{
    n_lead_bound(t);
    n_lead_is(strip(t), 0);
}
/// what is left after the first word
pub open spec fn w_rest(q: Seq<char>) -> Seq<char> { strip(q.subrange(w_take(q).1, q.len() as int)) }
pub proof fn w_rest_bound(q: Seq<char>)
    requires q.len() > 0, n_lead(q) == 0
    ensures q[0] != ' ', 0 < w_take(q).0.len() <= w_take(q).1 <= q.len(), w_rest(q).len() < q.len(), n_lead(w_rest(q)) == 0
{
    n_lead_bound(q);
    w_take_bound(q);
    strip_bound(q.subrange(w_take(q).1, q.len() as int));
}
/// the words of a text that does not start with a space
pub open spec fn s_words(q: Seq<char>) -> Seq<Seq<char>>
    decreases q.len() via s_words_d
{
    if q.len() == 0 || n_lead(q) != 0 { Seq::empty() } else { seq![w_take(q).0] + s_words(w_rest(q)) }
}
#[via_fn]
proof fn s_words_d(q: Seq<char>) { if q.len() == 0 || n_lead(q) != 0 {} else { w_rest_bound(q); } }

/// the first space byte is the first space
pub proof fn first_space(t: Seq<char>, off: int) -> (k: int)
    requires 0 <= off < encode_utf8(t).len(), encode_utf8(t)[off] == 32u8, forall|i: int| 0 <= i < off ==> encode_utf8(t)[i] != 32u8
    ensures 0 <= k < t.len(), cpos(t, k) == off, cpos(t, k + 1) == off + 1, t[k] == ' ', no_space(t, k),
        k == 0 <==> off == 0,
        off > 0 ==> (encode_utf8(t)[off - 1] == 92u8 <==> t[k - 1] == '\\'),
        off > 0 && t[k - 1] == '\\' ==> cpos(t, k - 1) == off - 1,
{
    let k = byte_at(t, off);
    cpos_ends(t);
    assert forall|i: int| 0 <= i < k implies #[trigger] t[i] != ' ' by {
        if t[i] == ' ' { cpos_step(t, i); cpos_mono(t, i, k); }
    }
    cpos_mono(t, 0, k);
    if off > 0 {
        if k == 0 { assert(false); }
        if encode_utf8(t)[off - 1] == 92u8 {
            let j = byte_at(t, off - 1);
            cpos_inj(t, j + 1, k);
        }
        if t[k - 1] == '\\' { cpos_step(t, k - 1); }
    }
    k
}
pub proof fn no_space_all(t: Seq<char>)
    requires forall|i: int| 0 <= i < encode_utf8(t).len() ==> encode_utf8(t)[i] != 32u8
    ensures no_space(t, t.len() as int)
{
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] != ' ' by {
        if t[i] == ' ' { cpos_step(t, i); cpos_mono(t, 0, i); cpos_ends(t); }
    }
}

@@ items metrics::fzf::parser
pub use super::query::conds_of;
#[verifier::external_body]
pub fn vx_retag_mut<'a, 'x, 'y>(x: &'a mut [Pattern<'x>]) -> (r: &'a mut [Pattern<'y>])
   ensures r@ == old(x)@, final(r)@ == final(x)@
{ unsafe { core::mem::transmute(x) } }
#[verifier::external_body]
pub fn vx_retag_Condition<'x, 'y>(x: Condition<'x>) -> (r: Condition<'y>)
   ensures r == x
{ unsafe { core::mem::transmute(x) } }
impl<'buf, 's> Words<'buf, 's> {
    pub open spec fn wf(self) -> bool {
        &&& self.allocated + self.s@.len() <= self.buf@.len()
        &&& n_lead(self.s@) == 0
    }
}

@@ fn metrics::fzf::parser::Words::alloc
@contract
    requires old(self).allocated + s@.len() <= old(self).buf@.len()
    ensures final(self).s == old(self).s, final(self).allocated == old(self).allocated + s@.len(),
        final(self).buf@.len() == old(self).buf@.len(),
        forall|i: int| 0 <= i < old(self).allocated ==> #[trigger] final(self).buf@[i] == old(self).buf@[i], //[C06]
        final(self).buf@.subrange(old(self).allocated as int, final(self).allocated as int) == s@, //[C05]
@loop 0
    invariant
        vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease() is Some,
        vx_it0.remaining().len() <= s@.len(),
        vx_it0.remaining() == s@.subrange(s@.len() - vx_it0.remaining().len(), s@.len() as int),
        self.s == old(self).s, self.allocated + vx_it0.remaining().len() == old(self).allocated + s@.len(),
        old(self).allocated <= self.allocated,
        old(self).allocated + s@.len() <= old(self).buf@.len(),
        self.buf@.len() == old(self).buf@.len(),
        forall|i: int| 0 <= i < old(self).allocated ==> #[trigger] self.buf@[i] == old(self).buf@[i],
        self.buf@.subrange(old(self).allocated as int, self.allocated as int) == s@.subrange(0, self.allocated - old(self).allocated),
    ensures self.allocated == old(self).allocated + s@.len(),
    decreases vx_it0.decrease()->0

@@ fn metrics::fzf::parser::Words::new
@contract
    requires s@.len() <= old(buf)@.len()
    ensures vx_r.wf(), vx_r.s@ == strip(s@), vx_r.allocated == 0, vx_r.buf@ == old(buf)@
@proof start
    proof { strip_bound(s@); }

@@ fn metrics::fzf::parser::<Words as Iterator>::next
@contract
    requires old(self).wf()
    ensures final(self).wf(), final(self).buf@.len() == old(self).buf@.len(),
        forall|i: int| 0 <= i < old(self).allocated ==> #[trigger] final(self).buf@[i] == old(self).buf@[i], //[C06]
        old(self).allocated <= final(self).allocated,
        match vx_r {
            None => old(self).s@.len() == 0 && final(self).s@ == old(self).s@,
            Some(w) => old(self).s@.len() > 0 && w@ == w_take(old(self).s@).0 && final(self).s@ == w_rest(old(self).s@), //[C05]
        },
        // the word handed out is the memory between the two marks, which later calls do not write to
        vx_r matches Some(w) ==> w@ == final(self).buf@.subrange(old(self).allocated as int, final(self).allocated as int), //[C06,C17]
@proof start
    let ghost q = self.s@;
    let ghost mut p: int = 0;
    let vx_b = self.s.as_bytes();
    proof { w_take_bound(q); n_lead_bound(q); assert(vx_b@.len() == vx_b.len()); }
@proof loop 0 before
    proof {
        cpos_ends(q);
        assert(q.subrange(0, q.len() as int) =~= q);
        assert(self.buf@.subrange(prev_allocated as int, self.allocated as int) + w_take(q).0 =~= w_take(q).0);
    }
@loop 0
    invariant_except_break
        s@ == q.subrange(p, q.len() as int),
        w_take(q).0 == self.buf@.subrange(prev_allocated as int, self.allocated as int) + w_take(s@).0,
        w_take(q).1 == p + w_take(s@).1,
    invariant
        0 <= p <= q.len(), cpos(q, p) == word_byte_end,
        self.s == old(self).s, q == self.s@, encode_utf8(q).len() <= usize::MAX,
        prev_allocated == old(self).allocated, prev_allocated <= self.allocated <= prev_allocated + p,
        prev_allocated + q.len() <= self.buf@.len(), self.buf@.len() == old(self).buf@.len(),
        forall|i: int| 0 <= i < prev_allocated ==> #[trigger] self.buf@[i] == old(self).buf@[i],
    ensures
        w_take(q) == (self.buf@.subrange(prev_allocated as int, self.allocated as int), p),
    decreases q.len() - p
@proof loop 0 head
    let ghost w0 = self.buf@.subrange(prev_allocated as int, self.allocated as int);
    let ghost buf0 = self.buf@;
    proof {
        cpos_ends(s@);
        if encode_utf8(s@).len() > 0 && encode_utf8(s@)[0] == 32u8 { let k = first_space(s@, 0); }
        assert(s@.len() > 0 && s@[0] == ' ' ==> w_take(s@) == (Seq::<char>::empty(), 0int));
        assert(w0 + Seq::<char>::empty() =~= w0);
    }
@proof before self.alloc(&s[..offset - 1])
    let ghost k = first_space(s@, offset as int);
    proof {
        vx_str_to(s, k - 1);
        vx_str_from(s, k + 1);
        w_take_esc(s@, k);
        reveal_strlit(" ");
        cpos_add(q, p, k + 1);
        cpos_mono(q, p + k + 1, q.len() as int);
        cpos_ends(q);
    }
@proof before self.alloc(" ")
    let ghost w1 = self.buf@.subrange(prev_allocated as int, self.allocated as int);
    proof { assert(" "@ =~= seq![' ']); assert(w1 =~= w0 + s@.subrange(0, k - 1)); }
@proof after word_byte_end += offset + 1
    proof {
        assert(self.buf@.subrange(prev_allocated as int, self.allocated as int) =~= w1 + seq![' ']);
        p = p + k + 1;
        assert(s@ =~= q.subrange(p, q.len() as int));
    }
@proof before let s = &s[..offset]
    let ghost t = s@;
    let ghost k = first_space(s@, offset as int);
    proof {
        vx_str_to(s, k);
        w_take_run(s@, k);
        cpos_add(q, p, k);
        cpos_mono(q, p + k, q.len() as int);
        cpos_ends(q);
    }
@proof after word_byte_end += s.len() #0
    proof {
        p = p + k;
        assert(self.buf@.subrange(prev_allocated as int, self.allocated as int) =~= w0 + t.subrange(0, k));
    }
@proof before self.alloc(s) #1
    proof {
        no_space_all(s@);
        w_take_run(s@, s@.len() as int);
        cpos_ends(s@);
        cpos_add(q, p, s@.len() as int);
        cpos_mono(q, p + s@.len(), q.len() as int);
        cpos_ends(q);
        assert(s@.subrange(0, s@.len() as int) =~= s@);
    }
@proof after word_byte_end += s.len() #1
    proof {
        p = p + s@.len();
        assert(self.buf@.subrange(prev_allocated as int, self.allocated as int) =~= w0 + s@);
    }
@proof loop 0 after
    proof {
        vx_str_from(self.s, p);
        w_rest_bound(q);
        strip_bound(q.subrange(p, q.len() as int));
    }

@@ prelude
/// what the words of a query mean (C05): `|` joins the terms around it, other words start a new condition
pub open spec fn s_conds(ws: Seq<Seq<char>>, cur: Seq<Term>, lfo: bool) -> Seq<Seq<Term>>
    decreases ws.len()
{
    if ws.len() == 0 {
        if cur.len() == 0 { Seq::empty() } else { seq![cur] }
    } else {
        let rest = ws.drop_first();
        if ws[0] == seq!['|'] {
            s_conds(rest, cur, false)
        } else {
            match s_word(ws[0]) {
                None => s_conds(rest, cur, lfo),
                Some(t) => if lfo { seq![cur] + s_conds(rest, seq![t], true) } else { s_conds(rest, cur.push(t), true) },
            }
        }
    }
}
/// the meaning of a query (C05)
pub open spec fn s_parse(q: Seq<char>) -> Seq<Seq<Term>> { s_conds(s_words(strip(q)), Seq::empty(), false) }
pub open spec fn halves(n: nat) -> int { (n as int + 1) / 2 }
pub proof fn w_take_ends(q: Seq<char>)
    ensures w_take(q).1 < q.len() ==> q[w_take(q).1] == ' ', 0 <= w_take(q).1
    decreases q.len()
{
    if q.len() == 0 || q[0] == ' ' {
    } else if q[0] == '\\' && q.len() > 1 && q[1] == ' ' {
        w_take_ends(q.subrange(2, q.len() as int));
    } else {
        w_take_ends(q.subrange(1, q.len() as int));
    }
}
/// n chars hold at most n / 2 words, rounded up
pub proof fn w_rest_halves(q: Seq<char>)
    requires q.len() > 0, n_lead(q) == 0
    ensures halves(w_rest(q).len()) + 1 <= halves(q.len())
{
    w_rest_bound(q);
    w_take_ends(q);
    let r = q.subrange(w_take(q).1, q.len() as int);
    if r.len() > 0 { assert(r[0] == ' '); n_lead_bound(r); assert(n_lead(r) >= 1); }
    n_lead_bound(r);
}

@@ items metrics::fzf::parser
pub open spec fn terms_of<'a>(ps: Seq<Pattern<'a>>) -> Seq<Term> { Seq::new(ps.len(), |i: int| ps[i].term()) }
impl<'buf, 's> Patterns<'buf, 's> {
    pub open spec fn need(self) -> int { (if self.next is Some { 1int } else { 0 }) + halves(self.words.s@.len()) }
    pub open spec fn wf(self) -> bool {
        &&& self.words.wf()
        &&& self.words.s@.len() <= MAXLEN
        &&& self.allocated + self.need() <= self.buf@.len()
        &&& self.next matches Some(p) ==> p.wf() && p.text@.len() > 0
    }
    /// the conditions still to come
    pub open spec fn left(self) -> Seq<Seq<Term>> {
        match self.next {
            Some(p) => s_conds(s_words(self.words.s@), seq![p.term()], true),
            None => s_conds(s_words(self.words.s@), Seq::empty(), false),
        }
    }
}

@@ fn metrics::fzf::parser::Patterns::alloc
@contract
    requires old(self).allocated < old(self).buf@.len()
    ensures final(self).allocated == old(self).allocated + 1,
        final(self).buf@ == old(self).buf@.update(old(self).allocated as int, pattern), //[C05]
        final(self).words == old(self).words, final(self).next == old(self).next

@@ fn metrics::fzf::parser::Patterns::new
@contract
    requires s@.len() <= old(char_buf)@.len(), s@.len() <= MAXLEN, halves(s@.len()) <= old(patterns_buf)@.len()
    ensures vx_r.wf(), vx_r.need() <= halves(s@.len()), vx_r.left() == s_parse(s@) //[C05]
@proof start
    proof { strip_bound(s@); }

@@ fn metrics::fzf::parser::<Patterns as Iterator>::next
@contract
    requires old(self).wf()
    ensures final(self).wf(), final(self).buf@.len() == old(self).buf@.len(),
        forall|i: int| 0 <= i < old(self).allocated ==> #[trigger] final(self).buf@[i] == old(self).buf@[i], //[C06]
        match vx_r {
            None => old(self).left().len() == 0,
            Some(ps) => ps@.len() > 0 && old(self).left() == seq![terms_of(ps@)] + final(self).left() //[C05]
                && final(self).need() + 1 <= old(self).need()
                && forall|i: int| 0 <= i < ps@.len() ==> (#[trigger] ps@[i]).wf() && ps@[i].text@.len() > 0,
        },
        // the patterns handed out are the memory between the two marks, which later calls do not write to
        old(self).allocated <= final(self).allocated,
        vx_r matches Some(ps) ==> ps@ == final(self).buf@.subrange(old(self).allocated as int, final(self).allocated as int), //[C06,C17]
@proof start
    let ghost goal = self.left();
@loop 0
    invariant_except_break
        self.next is None, looking_for_or ==> self.allocated > prev_allocated,
        goal == s_conds(s_words(self.words.s@), terms_of(self.buf@.subrange(prev_allocated as int, self.allocated as int)), looking_for_or),
    invariant
        self.wf(), old(self).wf(), goal == old(self).left(),
        self.buf@.len() == old(self).buf@.len(),
        prev_allocated == old(self).allocated, prev_allocated <= self.allocated,
        forall|i: int| 0 <= i < prev_allocated ==> #[trigger] self.buf@[i] == old(self).buf@[i],
        forall|i: int| prev_allocated <= i < self.allocated ==> (#[trigger] self.buf@[i]).wf() && self.buf@[i].text@.len() > 0,
        self.need() + (self.allocated - prev_allocated) <= old(self).need(),
    ensures
        self.allocated == prev_allocated ==> goal.len() == 0,
        self.allocated > prev_allocated ==> goal == seq![terms_of(self.buf@.subrange(prev_allocated as int, self.allocated as int))] + self.left(),
    decreases self.words.s@.len()

@proof loop 0 before
    proof {
        let b = self.buf@.subrange(prev_allocated as int, self.allocated as int);
        assert(terms_of(b) =~= match old(self).next { Some(p) => seq![p.term()], None => Seq::<Term>::empty() });
    }
@proof loop 0 head
    let ghost ws = self.words.s@;
    let ghost cur = terms_of(self.buf@.subrange(prev_allocated as int, self.allocated as int));
    proof {
        if ws.len() > 0 {
            w_rest_bound(ws);
            w_rest_halves(ws);
            let l = s_words(ws);
            assert(l == seq![w_take(ws).0] + s_words(w_rest(ws)));
            assert(l.drop_first() =~= s_words(w_rest(ws)));
        }
        assert(['|']@ =~= seq!['|']);
    }
@proof after self.alloc(word)
    assert(terms_of(self.buf@.subrange(prev_allocated as int, self.allocated as int)) =~= cur.push(word.term()));

@@ fn metrics::fzf::parser::<FzfParser as Default>::default
@contract
@@ plain-fn metrics::fzf::parser::<FzfParser as Clone>::clone
@contract

@@ fn metrics::fzf::parser::FzfParser::new
@contract

@@ fn metrics::fzf::parser::FzfParser::parse
@contract
    requires query@.len() <= MAXLEN
    ensures vx_r.wf(), vx_r.conds() == s_parse(query@) //[C05,C06]
@proof start
    let vx_b = query.as_bytes();
    proof { utf8_len_ge(query@); assert(vx_b@.len() == vx_b.len()); assert(query.len() == vx_b@.len()); }
@loop 0
    invariant_except_break
        vx_it0.wf(), num_conditions as int + vx_it0.need() <= self.conditions@.len(),
        num_conditions as int + vx_it0.need() <= MAXLEN,
        conds_of(self.conditions@.subrange(0, num_conditions as int)) + vx_it0.left() == s_parse(query@),
    invariant
        0 <= num_conditions <= self.conditions@.len(), num_conditions <= MAXLEN,
        forall|i: int| 0 <= i < num_conditions ==> (#[trigger] self.conditions@[i]).wf(),
    ensures
        conds_of(self.conditions@.subrange(0, num_conditions as int)) == s_parse(query@),
    decreases vx_it0.need()
@proof loop 0 head
    let ghost n0 = num_conditions;
    let ghost before = conds_of(self.conditions@.subrange(0, num_conditions as int));
    assert(vx_it0.left().len() == 0 ==> before + vx_it0.left() =~= before);
@proof loop 0 tail
    assert(conds_of(self.conditions@.subrange(0, num_conditions as int)) =~= before.push(terms_of(condition.or_patterns@)));
    assert(before + (seq![terms_of(condition.or_patterns@)] + vx_it0.left()) =~= before.push(terms_of(condition.or_patterns@)) + vx_it0.left());

@@ fn metrics::fzf::parser::FzfParser::parse_not_extended
@contract
    requires query@.len() <= MAXLEN
    ensures vx_r.wf(), vx_r.conds() == s_raw(query@) //[C05,C06]
@proof start
    let vx_b = query.as_bytes();
    proof { utf8_len_ge(query@); assert(vx_b@.len() == vx_b.len()); assert(query.len() == vx_b@.len()); }
@proof loop 0 before
    assert(self.chars@.len() == self.chars.len());
@loop 0
    invariant
        usize::MAX >= self.chars@.len() >= query@.len(), char_len + vx_it0.remaining().len() == query@.len(),
        vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease() is Some,
        vx_it0.remaining() == query@.subrange(char_len as int, query@.len() as int),
        self.chars@.subrange(0, char_len as int) == query@.subrange(0, char_len as int),
    ensures char_len == query@.len()
    decreases vx_it0.decrease()->0
@proof loop 0 tail
    assert(self.chars@.subrange(0, char_len as int) =~= query@.subrange(0, char_len as int));
@proof loop 0 after
    assert(query@.subrange(0, query@.len() as int) =~= query@);
