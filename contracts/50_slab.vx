@@ prelude
pub proof fn utf8_len_ge(s: Seq<char>)
    ensures s.len() <= encode_utf8(s).len() <= 4 * s.len()
    decreases s.len()
{
    if s.len() > 0 {
        utf8_len_ge(s.drop_first());
    }
}

@@ fn metrics::fzf::slab::<V2Slab as Default>::default
@contract

@@ # what a slab holds does not matter (C10), so neither does what a copy of it holds
@@ plain-fn metrics::fzf::slab::<V2Slab as Clone>::clone
@contract

@@ plain-fn metrics::fzf::slab::<BonusSlab as Clone>::clone
@contract

@@ plain-fn metrics::fzf::slab::<CandidateSlab as Clone>::clone
@contract

@@ plain-fn metrics::fzf::slab::<MatchedIndicesSlab as Clone>::clone
@contract

@@ plain-fn metrics::fzf::slab::<MatrixSlab as Clone>::clone
@contract

@@ fn metrics::fzf::slab::<Bonus as Default>::default
@contract
    ensures !vx_r.is_set

@@ fn metrics::fzf::slab::Bonus::is_set
@contract
    ensures vx_r == self.is_set

@@ fn metrics::fzf::slab::Bonus::set
@contract
    requires 0 <= value <= 255
    ensures final(self).is_set, final(self).value == value

@@ fn metrics::fzf::slab::Bonus::value
@contract
    ensures vx_r == self.value

@@ fn metrics::fzf::slab::<BonusSlab as Default>::default
@contract

@@ fn metrics::fzf::slab::BonusSlab::alloc
@contract
    ensures vx_r@.len() == len,
        forall|i: int| 0 <= i < len ==> !(#[trigger] vx_r@[i]).is_set //[C10]
@loop 0
    invariant
        vx_i0 <= slice@.len(), slice@.len() == len,
        forall|i: int| 0 <= i < vx_i0 ==> !(#[trigger] slice@[i]).is_set,
    decreases slice@.len() - vx_i0

@@ fn metrics::fzf::slab::<CandidateSlab as Default>::default
@contract

@@ fn metrics::fzf::slab::CandidateSlab::alloc
@contract
    ensures vx_r@ == text@, //[C01,C10]
        // the slice handed out is the slab's own memory
        text@.len() <= final(self).chars@.len(), vx_r@ == final(self).chars@.subrange(0, text@.len() as int), //[C10]
@proof start
    let vx_b = text.as_bytes();
    proof { utf8_len_ge(text@); assert(vx_b@.len() == vx_b.len()); assert(text.len() == vx_b@.len()); }
@proof loop 0 before
    assert(self.chars@.len() == self.chars.len());
@loop 0
    invariant
        usize::MAX >= self.chars@.len() >= text@.len(), char_len + vx_it0.remaining().len() == text@.len(),
        vx_it0.obeys_prophetic_iter_laws(), vx_it0.decrease() is Some,
        vx_it0.remaining() == text@.subrange(char_len as int, text@.len() as int),
        self.chars@.subrange(0, char_len as int) == text@.subrange(0, char_len as int),
    ensures char_len == text@.len()
    decreases vx_it0.decrease()->0
@proof loop 0 tail
    assert(self.chars@.subrange(0, char_len as int) =~= text@.subrange(0, char_len as int));

@@ fn metrics::fzf::slab::<MatchedIndicesSlab as Default>::default
@contract

@@ fn metrics::fzf::slab::MatchedIndicesSlab::alloc
@contract
    ensures vx_r@.len() == len

@@ trait-items metrics::fzf::slab::MatrixItem
spec fn s_fill() -> Self;
proof fn cloned_fill(y: Self)
    requires cloned(Self::s_fill(), y)
    ensures y == Self::s_fill();

@@ fn metrics::fzf::slab::MatrixItem::fill
@contract
    ensures vx_r == Self::s_fill()

@@ impl-items metrics::fzf::slab::Score as MatrixItem
open spec fn s_fill() -> Self { 0 }
proof fn cloned_fill(y: Self) {}

@@ impl-items metrics::fzf::slab::usize as MatrixItem
open spec fn s_fill() -> Self { 0 }
proof fn cloned_fill(y: Self) {}

@@ fn metrics::fzf::slab::<Score as MatrixItem>::fill
@contract

@@ fn metrics::fzf::slab::<usize as MatrixItem>::fill
@contract

@@ fn metrics::fzf::slab::<MatrixSlab as Default>::default
@contract

@@ items metrics::fzf::slab
impl<'a, T: MatrixItem> Matrix<'a, T> {
    pub open spec fn wf(self) -> bool {
        self.slice@.len() == self.height * self.width && self.width > 0 && self.height > 0
    }
    pub open spec fn cells(self) -> Seq<T> { self.slice@ }
    pub open spec fn h(self) -> int { self.height as int }
    pub open spec fn w(self) -> int { self.width as int }
    pub open spec fn at(self, row: int, col: int) -> T { self.slice@[row * self.width + col] }
    pub open spec fn kept(self, o: Self) -> bool {
        self.height == o.height && self.width == o.width
    }
}

@@ fn metrics::fzf::slab::MatrixSlab::alloc
@contract
    requires width > 0, height > 0, height * width <= usize::MAX
    ensures vx_r.wf(), vx_r.height == height, vx_r.width == width,
        forall|i: int| 0 <= i < vx_r.slice@.len() ==> #[trigger] vx_r.slice@[i] == T::s_fill() //[C10]
@proof start
    assert(height * width > 0) by (nonlinear_arith) requires width > 0, height > 0;
@proof after slice.fill
    assert forall|i: int| 0 <= i < slice@.len() implies #[trigger] slice@[i] == T::s_fill() by {
        T::cloned_fill(slice@[i]);
    }

@@ fn metrics::fzf::slab::Matrix::get_value
@contract
    ensures vx_r == (if cell.0 < self.cells().len() { Some(self.cells()[cell.0 as int]) } else { None })

@@ fn metrics::fzf::slab::Matrix::col_of
@contract
    requires self.w() > 0
    ensures vx_r == cell.0 as int % self.w()

@@ fn metrics::fzf::slab::Matrix::down_right
@contract
    requires cell.0 + self.w() + 1 <= usize::MAX
    ensures vx_r.0 == cell.0 + self.w() + 1

@@ fn metrics::fzf::slab::Matrix::height
@contract
    ensures vx_r == self.h()

@@ fn metrics::fzf::slab::Matrix::left
@contract
    requires cell.0 > 0
    ensures vx_r.0 == cell.0 - 1

@@ fn metrics::fzf::slab::Matrix::row_of
@contract
    requires self.w() > 0
    ensures vx_r == cell.0 as int / self.w()

@@ fn metrics::fzf::slab::Matrix::row_mut
@contract
    requires old(self).wf(), row < old(self).height
    ensures final(self).kept(*old(self)),
        vx_r@ == old(self).slice@.subrange(row * old(self).width, row * old(self).width + old(self).width),
        final(vx_r)@.len() == old(self).width ==> final(self).slice@.len() == old(self).slice@.len(),
        forall|i: int| 0 <= i < old(self).slice@.len() && final(vx_r)@.len() == old(self).width ==> #[trigger] final(self).slice@[i] ==
            (if row * old(self).width <= i < row * old(self).width + old(self).width { final(vx_r)@[i - row * old(self).width] } else { old(self).slice@[i] })
@proof start
    proof { assert(self.slice@.len() == self.slice.len()); assert(row * self.width >= 0) by (nonlinear_arith) requires row >= 0, self.width >= 0; assert(row * self.width + self.width <= self.height * self.width) by (nonlinear_arith) requires row + 1 <= self.height, 0 <= self.width; }

@@ fn metrics::fzf::slab::Matrix::two_rows_mut
@contract
    requires old(self).wf(), row_idx_a < row_idx_b < old(self).height
    ensures final(self).kept(*old(self)),
        vx_r.0@ == old(self).slice@.subrange(row_idx_a * old(self).width, row_idx_a * old(self).width + old(self).width),
        vx_r.1@ == old(self).slice@.subrange(row_idx_b * old(self).width, row_idx_b * old(self).width + old(self).width),
        ({
            let w = old(self).width;
            let o = old(self).slice@;
            let a = row_idx_a * w;
            let b = row_idx_b * w;
            final(vx_r.0)@.len() == w && final(vx_r.1)@.len() == w ==> {
                &&& final(self).slice@.len() == o.len()
                &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] final(self).slice@[i] ==
                    (if a <= i < a + w { final(vx_r.0)@[i - a] } else if b <= i < b + w { final(vx_r.1)@[i - b] } else { o[i] })
            }
        })
@proof start
    proof {
        assert(self.slice@.len() == self.slice.len());
        assert(row_idx_a * self.width >= 0) by (nonlinear_arith) requires row_idx_a >= 0, self.width >= 0;
        assert(row_idx_b * self.width + self.width <= self.height * self.width) by (nonlinear_arith) requires row_idx_b + 1 <= self.height, 0 <= self.width;
        assert(row_idx_a * self.width + self.width <= row_idx_b * self.width) by (nonlinear_arith) requires row_idx_a + 1 <= row_idx_b, 0 <= self.width;
    }

@@ fn metrics::fzf::slab::Matrix::up_left
@contract
    requires cell.0 >= self.w() + 1
    ensures vx_r.0 == cell.0 - self.w() - 1

@@ fn metrics::fzf::slab::Matrix::width
@contract
    ensures vx_r == self.w()

@@ fn metrics::fzf::slab::<Matrix as Index>::index
@contract
    requires index.0 < self.cells().len()
    ensures *vx_r == self.cells()[index.0 as int]

@@ fn metrics::fzf::slab::<Matrix as IndexMut>::index_mut
@contract
    requires index.0 < old(self).slice@.len()
    ensures *vx_r == old(self).slice@[index.0 as int], final(self).kept(*old(self)),
        final(self).slice@ == old(self).slice@.update(index.0 as int, *final(vx_r))
