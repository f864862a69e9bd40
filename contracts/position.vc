clone { Position, Positioned, MaybePositioned }
items {
    pub open spec fn pend(p: Position) -> int { p.start + p.width }
    pub open spec fn span(a: Position, b: Position, r: Position) -> bool {
        &&& r.start == imin(a.start as int, b.start as int)
        &&& r.start + r.width == imax(pend(a), pend(b))
    }
    pub open spec fn fits(p: Position) -> bool { p.start + p.width <= usize::MAX }
}
func "Position::from_span" { ret r; props { C13, C05 }
  spec { requires fits(pos1), fits(pos2), ensures span(pos1, pos2, r), fits(r), }
}
func "Position::from_between" { ret r; props { C13, C05 }
  spec { requires fits(pos1), fits(pos2), pend(pos1) <= pos2.start || pend(pos2) <= pos1.start,
    ensures fits(r), r.start == imin(pend(pos1), pend(pos2)), r.start + r.width == imax(pos1.start as int, pos2.start as int), }
  after_let points { ps = points@; }
  entry { let ghost mut ps: Seq<usize> = Seq::empty(); }
  before_let start { between_sorted(ps, points@); }
}
items {
    pub proof fn between_sorted(p: Seq<usize>, s: Seq<usize>)
        requires p.len() == 4, p[0] <= p[1], p[2] <= p[3], p[1] <= p[2] || p[3] <= p[0], s.to_multiset() == p.to_multiset(),
            forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j],
        ensures s.len() == 4, s[1] == imin(p[1] as int, p[3] as int), s[2] == imax(p[0] as int, p[2] as int)
    {
        p.to_multiset_ensures(); s.to_multiset_ensures();
        let leq = |a: usize, b: usize| a <= b;
        if p[1] <= p[2] { vstd::seq_lib::lemma_sorted_unique(s, p, leq); }
        else {
            let q = p.subrange(2, 4) + p.subrange(0, 2);
            vstd::seq_lib::lemma_multiset_commutative(p.subrange(2, 4), p.subrange(0, 2));
            vstd::seq_lib::lemma_multiset_commutative(p.subrange(0, 2), p.subrange(2, 4));
            assert(p =~= p.subrange(0, 2) + p.subrange(2, 4));
            q.to_multiset_ensures();
            assert(q.to_multiset() =~= (p.subrange(0, 2) + p.subrange(2, 4)).to_multiset());
            assert(q[0] == p[2] && q[1] == p[3] && q[2] == p[0] && q[3] == p[1]);
            assert(vstd::relations::sorted_by(q, leq));
            assert(vstd::relations::sorted_by(s, leq));
            vstd::seq_lib::lemma_sorted_unique(s, q, leq);
        }
    }
}
func "Positioned::new" { ret r; spec { ensures r.value == value, r.position == position, } }
func "Positioned::new_raw" { ret r; spec { ensures r.value == value, r.position.start == start, r.position.width == width, } }
func "Positioned::new_span" { ret r; spec { requires fits(pos1), fits(pos2), ensures r.value == value, span(pos1, pos2, r.position), fits(r.position), } }
func "Positioned::new_between" { ret r; spec {
  requires fits(pos1), fits(pos2), pend(pos1) <= pos2.start || pend(pos2) <= pos1.start,
  ensures r.value == value, fits(r.position), r.position.start == imin(pend(pos1), pend(pos2)), r.position.start + r.position.width == imax(pos1.start as int, pos2.start as int), } }
func "Positioned::map" { ret r; spec { requires f.requires((self.value,)), ensures f.ensures((self.value,), r.value), r.position == self.position, } }
func "MaybePositioned::new_positioned" { ret r; spec { ensures r.value == value, r.maybe_position == Some(position), } }
func "MaybePositioned::new_unpositioned" { ret r; spec { ensures r.value == value, r.maybe_position is None, } }
func "MaybePositioned::new_span" { ret r; spec { requires fits(pos1), fits(pos2), ensures r.value == value, r.maybe_position is Some, span(pos1, pos2, r.maybe_position->0), fits(r.maybe_position->0), } }
inject "impl From<Positioned<T>> for MaybePositioned<T>" {
  open spec fn from_ens(t: Positioned<T>, r: Self) -> bool { r.value == t.value && r.maybe_position == Some(t.position) }
}

func "MaybePositioned::from<Positioned<T>>" { props { C13 } }
items {
    // The text without the blanks around it, and how many blanks come before it.
    pub open spec fn is_trim(s: Seq<char>, a: int, b: int) -> bool {
        &&& 0 <= a <= b <= s.len()
        &&& (forall|i: int| 0 <= i < a ==> ws(#[trigger] s[i]))
        &&& (forall|i: int| b <= i < s.len() ==> ws(#[trigger] s[i]))
        &&& (a < b ==> !ws(s[a]) && !ws(s[b - 1]))
    }
}
func "Positioned<String>::trim" { props { C12, C13, C05 }
  spec {
    requires ascii(old(self).value@), old(self).position.start + old(self).value@.len() <= usize::MAX,
    ensures
      exists|a: int, b: int| #[trigger] is_trim(old(self).value@, a, b) && final(self).value@ == old(self).value@.subrange(a, b)
        && (a < b ==> final(self).position.start == old(self).position.start + a && final(self).position.width == b - a)
        && (a == b ==> final(self).position.start == old(self).position.start && final(self).position.width == 0 && final(self).value@.len() == 0),
      ascii(final(self).value@),
  }
  entry { broadcast use crate::vstd_model::axiom_blen; let ghost v0 = self.value@; }
  inline position 0 { |c: char| -> (b: bool) ensures b == !ws(c) }
  inline position 1 { |c: char| -> (b: bool) ensures b == !ws(c) }
  after_call clear { assert(is_trim(v0, v0.len() as int, v0.len() as int)); assert(self.value@ =~= v0.subrange(v0.len() as int, v0.len() as int)); }
  before_let stop_trim_pos { assert(v0.reverse()[v0.len() - 1 - start_trim_pos] == v0[start_trim_pos as int]); }
  after_let stop_trim_pos { assert(v0.reverse().len() == v0.len()); assert(forall|i: int| 0 <= i < v0.len() ==> v0[i] == v0.reverse()[v0.len() - 1 - i]);
     assert(is_trim(v0, start_trim_pos as int, stop_trim_pos as int)); }
}
items {
    // In a set, two are the same when their text and their place are.
    impl<T: Clone + View> View for Positioned<T> { type V = (T::V, Position); open spec fn view(&self) -> (T::V, Position) { (self.value@, self.position) } }
    // `trim` is called by this name everywhere.
    impl Positioned<String> {
        pub fn v_trim(&mut self)
            requires ascii(old(self).value@), old(self).position.start + old(self).value@.len() <= usize::MAX,
            ensures exists|a: int, b: int| #[trigger] is_trim(old(self).value@, a, b) && final(self).value@ == old(self).value@.subrange(a, b)
                && (a < b ==> final(self).position.start == old(self).position.start + a && final(self).position.width == b - a)
                && (a == b ==> final(self).position.start == old(self).position.start && final(self).position.width == 0 && final(self).value@.len() == 0),
              ascii(final(self).value@),
        { self.trim(); }
    }
}
