@@ # Text as chars and as UTF-8 bytes; slicing a str; stripping spaces.
@@ prelude
pub use vstd::std_specs::core::IndexSpec;
pub use vstd::utf8::encode_utf8;
pub uninterp spec fn vx_str_idx<I: core::slice::SliceIndex<str>>(s: &str, i: I, r: &<I as core::slice::SliceIndex<str>>::Output) -> bool;
pub assume_specification<I: core::slice::SliceIndex<str>>[<str as core::ops::Index<I>>::index](s: &str, i: I) -> (r: &<I as core::slice::SliceIndex<str>>::Output)
    ensures vx_str_idx(s, i, r);
/// where the k-th char of t starts in its UTF-8 encoding
pub open spec fn cpos(t: Seq<char>, k: int) -> int { encode_utf8(t.subrange(0, k)).len() as int }
/// slicing a str at the byte offset of a char
pub axiom fn vx_str_to(s: &str, k: int)
    requires 0 <= k <= s@.len()
    ensures forall|i: core::ops::RangeTo<usize>| i.end == cpos(s@, k) ==> #[trigger] (*s).index_req(&i),
        forall|i: core::ops::RangeTo<usize>, r: &str| i.end == cpos(s@, k) && #[trigger] vx_str_idx(s, i, r) ==> r@ == s@.subrange(0, k);
pub axiom fn vx_str_from(s: &str, k: int)
    requires 0 <= k <= s@.len()
    ensures forall|i: core::ops::RangeFrom<usize>| i.start == cpos(s@, k) ==> #[trigger] (*s).index_req(&i),
        forall|i: core::ops::RangeFrom<usize>, r: &str| i.start == cpos(s@, k) && #[trigger] vx_str_idx(s, i, r) ==> r@ == s@.subrange(k, s@.len() as int);

pub proof fn enc_char(c: char)
    ensures (c as u32) < 128 ==> encode_scalar(c as u32) == seq![c as u8],
        (c as u32) >= 128 ==> forall|i: int| 0 <= i < encode_scalar(c as u32).len() ==> #[trigger] encode_scalar(c as u32)[i] >= 128,
        encode_scalar(c as u32).len() > 0
{
    let v = c as u32;
    if v < 128 {
        assert(has_width_1_encoding(v));
        assert(leading_byte_width_1(v) == v as u8) by (bit_vector) requires v < 128;
    } else {
        assert(!has_width_1_encoding(v));
        assert(leading_byte_width_2(v) >= 128) by (bit_vector);
        assert(leading_byte_width_3(v) >= 128) by (bit_vector);
        assert(leading_byte_width_4(v) >= 128) by (bit_vector);
        assert(last_continuation_byte(v) >= 128) by (bit_vector);
        assert(second_last_continuation_byte(v) >= 128) by (bit_vector);
        assert(third_last_continuation_byte(v) >= 128) by (bit_vector);
    }
}
pub proof fn cpos_ends(t: Seq<char>)
    ensures cpos(t, 0) == 0, cpos(t, t.len() as int) == encode_utf8(t).len()
{
    assert(t.subrange(0, 0) =~= Seq::<char>::empty());
    assert(t.subrange(0, t.len() as int) =~= t);
}
pub proof fn cpos_add(t: Seq<char>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= t.len()
    ensures cpos(t, a + b) == cpos(t, a) + cpos(t.subrange(a, t.len() as int), b),
        encode_utf8(t.subrange(0, a + b)) == encode_utf8(t.subrange(0, a)) + encode_utf8(t.subrange(a, t.len() as int).subrange(0, b))
{
    assert(t.subrange(0, a + b) =~= t.subrange(0, a) + t.subrange(a, t.len() as int).subrange(0, b));
    encode_utf8_concat(t.subrange(0, a), t.subrange(a, t.len() as int).subrange(0, b));
}
pub proof fn cpos_one(c: char)
    ensures encode_utf8(seq![c]) == encode_scalar(c as u32)
{
    let u = seq![c];
    assert(u.drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(u) == encode_scalar(u[0] as u32) + encode_utf8(u.drop_first()));
    assert(encode_utf8(u) =~= encode_scalar(c as u32));
}
pub proof fn cpos_step(t: Seq<char>, k: int)
    requires 0 <= k < t.len()
    ensures cpos(t, k + 1) == cpos(t, k) + encode_scalar(t[k] as u32).len(),
        cpos(t, k) < cpos(t, k + 1) <= encode_utf8(t).len(),
        (t[k] as u32) < 128 ==> cpos(t, k + 1) == cpos(t, k) + 1 && encode_utf8(t)[cpos(t, k)] == t[k] as u8,
{
    let u = t.subrange(k, t.len() as int);
    cpos_add(t, k, 1);
    assert(u.subrange(0, 1) =~= seq![t[k]]);
    cpos_one(t[k]);
    enc_char(t[k]);
    let v = t.subrange(k + 1, t.len() as int);
    assert(t =~= t.subrange(0, k + 1) + v);
    encode_utf8_concat(t.subrange(0, k + 1), v);
}
pub proof fn cpos_mono(t: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= t.len()
    ensures a <= cpos(t, a), b - a <= cpos(t, b) - cpos(t, a)
    decreases b
{
    if a < b { cpos_step(t, b - 1); cpos_mono(t, a, b - 1); }
    else if a > 0 { cpos_step(t, a - 1); cpos_mono(t, a - 1, a - 1); }
    else { cpos_ends(t); }
}
/// an ASCII byte in UTF-8 is an ASCII char
pub proof fn byte_at(t: Seq<char>, i: int) -> (k: int)
    requires 0 <= i < encode_utf8(t).len(), encode_utf8(t)[i] < 128
    ensures 0 <= k < t.len(), cpos(t, k) == i, cpos(t, k + 1) == i + 1, t[k] as u8 == encode_utf8(t)[i], (t[k] as u32) < 128
    decreases t.len()
{
    let n = t.len() - 1;
    if t.len() == 0 { cpos_ends(t); assert(false); }
    let u = t.subrange(0, n);
    let last = t.subrange(n, t.len() as int);
    assert(t =~= u + last);
    encode_utf8_concat(u, last);
    assert(last =~= seq![t[n]]);
    cpos_one(t[n]);
    enc_char(t[n]);
    cpos_ends(t);
    if i < encode_utf8(u).len() {
        let k = byte_at(u, i);
        assert(u.subrange(0, k) =~= t.subrange(0, k));
        assert(u.subrange(0, k + 1) =~= t.subrange(0, k + 1));
        k
    } else {
        assert(encode_utf8(t)[i] == encode_scalar(t[n] as u32)[i - encode_utf8(u).len()]);
        assert((t[n] as u32) < 128);
        n
    }
}
pub proof fn cpos_inj(t: Seq<char>, a: int, b: int)
    requires 0 <= a <= t.len(), 0 <= b <= t.len(), cpos(t, a) == cpos(t, b)
    ensures a == b
{
    if a < b { cpos_mono(t, a, b); } else { cpos_mono(t, b, a); }
}
/// the spaces a text starts with, as bytes
pub proof fn lead_bytes(t: Seq<char>, k: int)
    requires 0 <= k <= encode_utf8(t).len(), forall|i: int| 0 <= i < k ==> #[trigger] encode_utf8(t)[i] == 32u8
    ensures k <= t.len(), cpos(t, k) == k, forall|i: int| 0 <= i < k ==> #[trigger] t[i] == ' '
    decreases k
{
    if k > 0 {
        lead_bytes(t, k - 1);
        let j = byte_at(t, k - 1);
        cpos_inj(t, j, k - 1);
        enc_char(t[j]);
    } else {
        cpos_ends(t);
    }
}
pub proof fn not_space_byte(t: Seq<char>, k: int)
    requires 0 <= k < encode_utf8(t).len(), k <= t.len(), cpos(t, k) == k, encode_utf8(t)[k] != 32u8
    ensures k < t.len(), t[k] != ' '
{
    cpos_ends(t);
    if k < t.len() { cpos_step(t, k); }
}
pub open spec fn strip(t: Seq<char>) -> Seq<char> { t.subrange(n_lead(t), t.len() as int) }

@@ fn utils::leading_spaces
@contract
    ensures vx_r == cpos(s@, n_lead(s@)), //[C05]
        0 <= n_lead(s@) <= s@.len()
@loop 0
    invariant_except_break vx_it0.rem() == encode_utf8(s@).subrange(vx_acc1 as int, encode_utf8(s@).len() as int),
    invariant
        vx_it0.wf(), 0 <= vx_acc1 <= encode_utf8(s@).len(), encode_utf8(s@).len() <= usize::MAX,
        forall|i: int| 0 <= i < vx_acc1 ==> #[trigger] encode_utf8(s@)[i] == 32u8,
    ensures vx_acc1 == encode_utf8(s@).len() || encode_utf8(s@)[vx_acc1 as int] != 32u8,
    decreases vx_it0.rem().len()
@proof start
    let vx_b = s.as_bytes();
    proof { assert(vx_b@.len() == vx_b.len()); assert(vx_b@.subrange(0, vx_b@.len() as int) =~= vx_b@); }
@proof end
    proof {
        lead_bytes(s@, vx_ret as int);
        cpos_ends(s@);
        if vx_ret < encode_utf8(s@).len() { not_space_byte(s@, vx_ret as int); }
        else { cpos_mono(s@, vx_ret as int, s@.len() as int); cpos_inj(s@, vx_ret as int, s@.len() as int); }
        n_lead_is(s@, vx_ret as int);
    }

@@ fn utils::strip_leading_spaces
@contract
    ensures vx_r@ == strip(s@) //[C05]
@proof start
    proof { n_lead_bound(s@); vx_str_from(s, n_lead(s@)); }
