items {
    // The line recalled at step i >= 1 back: this session's lines newest first, then earlier sessions' newest first.
    pub open spec fn pl(h: InputHistory, i: int) -> Seq<char> {
        let n = h.primary_internal_history@.len();
        if i <= n { h.primary_internal_history@[n - i]@ } else { h.primary_db_history@[i - n - 1]@ }
    }
    pub open spec fn steps(h: InputHistory) -> int { h.primary_internal_history@.len() as int + h.primary_db_history@.len() as int }
    // What is shown at step i: the edited copy if there is one.
    pub open spec fn shown(h: InputHistory, i: int) -> Seq<char> {
        match h.current_history@[i] { Some(s) => s@, None => pl(h, i) }
    }
    pub open spec fn all_ascii(v: Seq<String>) -> bool { forall|i: int| 0 <= i < v.len() ==> ascii((#[trigger] v[i])@) }
    pub open spec fn ih_wf(h: InputHistory) -> bool {
        &&& 0 <= h.current_index < h.current_history@.len()
        &&& h.current_history@[0] is Some
        &&& h.current_history@.len() - 1 <= steps(h)
        &&& all_ascii(h.primary_internal_history@)
        &&& all_ascii(h.primary_db_history@)
        &&& (forall|i: int| 0 <= i < h.current_history@.len() && (#[trigger] h.current_history@[i]) is Some ==> ascii((h.current_history@[i]->0)@))
    }
    pub open spec fn cur(h: InputHistory) -> Seq<char> { shown(h, h.current_index as int) }
    pub open spec fn fresh(h: InputHistory) -> bool { h.current_index == 0 && h.current_history@.len() == 1 && h.current_history@[0] is Some && (h.current_history@[0]->0)@ == Seq::<char>::empty() }
    pub proof fn line_small(h: InputHistory)
        requires ih_wf(h)
        ensures cur(h).len() <= isize::MAX
    {
        broadcast use crate::vstd_model::axiom_blen_pos;
        let i = h.current_index as int; let n = h.primary_internal_history@.len();
        match h.current_history@[i] { Some(s) => { axiom_string_small(s); }, None => { if i <= n { axiom_string_small(h.primary_internal_history@[n - i]); } else { axiom_string_small(h.primary_db_history@[i - n - 1]); } } }
    }
    // The primary histories are the same; so is where the session is in them.
    pub open spec fn same_primary(a: InputHistory, b: InputHistory) -> bool {
        &&& a.primary_internal_history@ == b.primary_internal_history@ &&& a.primary_db_history@ == b.primary_db_history@
        &&& a.db_history_exhausted == b.db_history_exhausted
    }
    // Only the line shown now differs.
    pub open spec fn others_same(a: InputHistory, b: InputHistory) -> bool {
        &&& same_primary(a, b) &&& a.current_index == b.current_index &&& a.current_history@.len() == b.current_history@.len()
        &&& forall|i: int| 0 <= i < a.current_history@.len() && i != a.current_index ==> #[trigger] shown(b, i) == shown(a, i)
    }
    pub open spec fn no_read(a: InputHistory, b: InputHistory, d0: SavedData, d1: SavedData) -> bool {
        same_primary(a, b) && d0 == d1
    }
}
func "InputHistory::new" { ret r; props { C09 }
  spec { ensures ih_wf(r), fresh(r), r.primary_internal_history@.len() == 0, r.primary_db_history@.len() == 0, r.db_history_exhausted == !use_db } }
func "InputHistory::input_finished" { ret r; props { C09, C10 }
  spec {
    requires ih_wf(*old(self)), maybe_db is Some ==> db_ok((*maybe_db->0).connection@)
    ensures ih_wf(*final(self)), fresh(*final(self)), final(self).db_history_exhausted == old(self).db_history_exhausted,
      final(self).primary_db_history@ == old(self).primary_db_history@,
      final(self).primary_internal_history@.len() == old(self).primary_internal_history@.len() + 1,
      final(self).primary_internal_history@.last()@ == cur(*old(self)),
      final(self).primary_internal_history@.drop_last() == old(self).primary_internal_history@,
      match maybe_db {
        None => r == Ok::<Option<i64>, crate::vstd_model::BoxError>(None),
        Some(db) => db_ok((*final(db)).connection@) && (*final(db)).input_history_position == (*db).input_history_position && match r {
          Err(e) => (*final(db)).connection@ == (*db).connection@ && outside(e),
          Ok(None) => false,
          Ok(Some(id)) => added((*db).connection@, cur(*old(self)), id as int, (*final(db)).connection@),
        } } }
  entry { proof { axiom_vec_small(self.primary_internal_history); } }
}
func "InputHistory::current_line" { ret r; props { C09 }
  spec { requires ih_wf(*self) ensures r@ == cur(*self), ascii(r@) }
  entry { proof { axiom_vec_small(self.primary_internal_history); } }
}
func "InputHistory::try_to_go_to_earlier_line" { ret r; props { C09, C10 }
  spec {
    requires ih_wf(*old(self)), maybe_db is Some ==> db_ok((*maybe_db->0).connection@)
    ensures ih_wf(*final(self)), final(self).primary_internal_history@ == old(self).primary_internal_history@,
      earlier(*old(self), *final(self), r), r is Err && maybe_db is Some ==> outside(r->Err_0),
      maybe_db is Some ==> (*final(maybe_db->0)).connection@ == (*maybe_db->0).connection@,
      old(self).current_index < steps(*old(self)) ==> r == Ok::<bool, crate::vstd_model::BoxError>(true) && same_primary(*old(self), *final(self))
          && (maybe_db is Some ==> *final(maybe_db->0) == *maybe_db->0),
      old(self).current_index >= steps(*old(self)) && old(self).db_history_exhausted ==> r == Ok::<bool, crate::vstd_model::BoxError>(false) && same_primary(*old(self), *final(self))
          && (maybe_db is Some ==> *final(maybe_db->0) == *maybe_db->0),
      old(self).current_index >= steps(*old(self)) && !old(self).db_history_exhausted ==> match maybe_db {
          None => r is Err && same_primary(*old(self), *final(self)),
          Some(db) => match r {
              Ok(true) => final(self).primary_db_history@.len() == old(self).primary_db_history@.len() + 1 && final(self).primary_db_history@.drop_last() == old(self).primary_db_history@
                  && !final(self).db_history_exhausted
                  && prev_read((*db).connection@, (*db).input_history_position, (*final(db)).input_history_position, Ok(Some(final(self).primary_db_history@.last()))),
              Ok(false) => final(self).primary_db_history@ == old(self).primary_db_history@ && final(self).db_history_exhausted
                  && prev_read((*db).connection@, (*db).input_history_position, (*final(db)).input_history_position, Ok(None)),
              Err(_) => same_primary(*old(self), *final(self)) && (*final(db)).input_history_position == (*db).input_history_position,
          } } }
  entry { proof { axiom_vec_small(self.primary_internal_history); axiom_vec_small(self.primary_db_history); } }
}
items {
    // One step back, or none at all; edits that were made stay where they are.
    pub open spec fn earlier(a: InputHistory, b: InputHistory, r: Result<bool, BoxError>) -> bool {
        &&& b.current_index == (if r == Ok::<bool, BoxError>(true) { a.current_index + 1 } else { a.current_index as int })
        &&& b.current_history@.len() >= a.current_history@.len()
        &&& forall|i: int| 0 <= i < a.current_history@.len() ==> #[trigger] shown(b, i) == shown(a, i)
        &&& (b.current_index >= a.current_history@.len() ==> cur(b) == pl(b, b.current_index as int))
    }
}
func "InputHistory::try_to_go_to_later_line" { ret r; props { C09 }
  spec { requires ih_wf(*old(self))
    ensures ih_wf(*final(self)), same_primary(*old(self), *final(self)), final(self).current_history == old(self).current_history, r == (old(self).current_index > 0),
      final(self).current_index == (if r { old(self).current_index - 1 } else { 0 }) } }
func "InputHistory::ensure_current_line_populated" { props { C09, C15 }
  spec { requires ih_wf(*old(self))
    ensures ih_wf(*final(self)), others_same(*old(self), *final(self)), cur(*final(self)) == cur(*old(self)), final(self).current_history@[final(self).current_index as int] is Some } }
func "InputHistory::insert_char_into_current_line" { props { C09, C15, C05 }
  spec { requires ih_wf(*old(self)), index <= cur(*old(self)).len(), ascii_c(ch)
    ensures ih_wf(*final(self)), others_same(*old(self), *final(self)), cur(*final(self)) == cur(*old(self)).insert(index as int, ch) }
  entry { let ghost mut m = *self; }
  after_call ensure_current_line_populated { m = *self; }
  after_call insert { assert forall|i: int| 0 <= i < m.current_history@.len() && i != m.current_index implies #[trigger] shown(*self, i) == shown(*old(self), i) by { assert(self.current_history@[i] == m.current_history@[i]); assert(shown(m, i) == shown(*old(self), i)); } }
 }
func "InputHistory::remove_char_from_current_line" { props { C09, C15, C05 }
  spec { requires ih_wf(*old(self)), index < cur(*old(self)).len()
    ensures ih_wf(*final(self)), others_same(*old(self), *final(self)), cur(*final(self)) == cur(*old(self)).remove(index as int) }
  entry { let ghost mut m = *self; }
  after_call ensure_current_line_populated { m = *self; }
  after_call remove { assert forall|i: int| 0 <= i < m.current_history@.len() && i != m.current_index implies #[trigger] shown(*self, i) == shown(*old(self), i) by { assert(self.current_history@[i] == m.current_history@[i]); assert(shown(m, i) == shown(*old(self), i)); } }
 }
