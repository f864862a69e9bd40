clone { }
items {
    pub open spec fn hrow(d: Db, o: Seq<int>, i: int) -> Row
        { Row { input: d.hist[o[i]].input, next: if i + 1 < o.len() { Some(o[i + 1]) } else { None }, prev: if i > 0 { Some(o[i - 1]) } else { None } } }
    pub open spec fn link(d: Db, o: Seq<int>, i: int) -> bool { d.hist.contains_key(o[i]) && i64::MIN <= o[i] <= i64::MAX && d.hist[o[i]] == hrow(d, o, i) }
    // The history rows, oldest first, with ids that only grow, linked both ways, with both ends tagged.
    pub open spec fn is_list(d: Db, o: Seq<int>) -> bool {
        &&& (forall|i: int, j: int| 0 <= i < j < o.len() ==> #[trigger] o[i] < #[trigger] o[j])
        &&& (forall|i: int| 0 <= i < o.len() ==> #[trigger] link(d, o, i))
        &&& (forall|id: int| #[trigger] d.hist.contains_key(id) ==> o.contains(id))
        &&& d.tags.dom() =~= set![1int, 2int]
        &&& d.tags[1] == (if o.len() > 0 { Some(o.last()) } else { None })
        &&& d.tags[2] == (if o.len() > 0 { Some(o[0]) } else { None })
    }
    #[verifier::opaque] pub open spec fn row_of(x: real, r: VarRow) -> bool { is_rat(x) && r.numer == int_text(rn(x), 10) && r.denom == int_text(rd(x), 10) }
    pub open spec fn row_ok(r: VarRow) -> bool { exists|x: real| #[trigger] row_of(x, r) }
    pub open spec fn vars_ok(d: Db) -> bool {
        forall|k: Seq<char>| #[trigger] d.vars.contains_key(k) ==> row_ok(d.vars[k]) && d.hist.contains_key(d.vars[k].last)
    }
    pub open spec fn hist_ascii(d: Db) -> bool { forall|id: int| #[trigger] d.hist.contains_key(id) ==> ascii(d.hist[id].input) }
    pub open spec fn db_ok(d: Db) -> bool { d.fk && vars_ok(d) && hist_ascii(d) && (exists|o: Seq<int>| #[trigger] is_list(d, o)) && d.meta.contains_key(3) && d.meta[3] >= 1 }
    pub open spec fn cap(d: Db) -> int { d.meta[3] }
    pub open spec fn the_list(d: Db) -> Seq<int> { choose|o: Seq<int>| #[trigger] is_list(d, o) }
    pub open spec fn texts(d: Db) -> Seq<Seq<char>> { the_list(d).map_values(|i: int| d.hist[i].input) }
    // After eviction: the newest rows are kept, with their texts and the variables that they keep alive.
    pub open spec fn kept(d: Db, o: Seq<int>, r: Db, k: int) -> bool {
        &&& 0 <= k <= o.len()
        &&& is_list(r, o.skip(k))
        &&& r.meta == d.meta && r.fk == d.fk
        &&& (forall|i: int| k <= i < o.len() ==> (#[trigger] r.hist[o[i]]).input == d.hist[o[i]].input)
        &&& (forall|n: Seq<char>| #[trigger] r.vars.contains_key(n) <==> d.vars.contains_key(n) && o.skip(k).contains(d.vars[n].last))
        &&& (forall|n: Seq<char>| #[trigger] r.vars.contains_key(n) ==> r.vars[n] == d.vars[n])
    }
    // There is only one such order.
    pub proof fn list_unique(d: Db, a: Seq<int>, b: Seq<int>)
        requires is_list(d, a), is_list(d, b)
        ensures a == b
        decreases a.len()
    {
        if a.len() == 0 {
            if b.len() > 0 { assert(link(d, b, 0)); assert(a.contains(b[0])); }
            assert(a =~= b);
        } else {
            assert(link(d, a, 0)); assert(b.contains(a[0]));
            list_len(d, a); list_len(d, b);
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { same_at(d, a, b, i); }
            assert(a =~= b);
        }
    }
    proof fn same_at(d: Db, a: Seq<int>, b: Seq<int>, i: int)
        requires is_list(d, a), is_list(d, b), 0 <= i < a.len(), a.len() == b.len()
        ensures a[i] == b[i]
        decreases i
    {
        if i > 0 { same_at(d, a, b, i - 1);
            assert(link(d, a, i - 1)); assert(link(d, b, i - 1));
        } else { assert(d.tags[2] == Some(a[0])); }
    }
    pub proof fn list_len(d: Db, o: Seq<int>)
        requires is_list(d, o)
        ensures d.hist.dom().len() == o.len(), d.hist.dom() =~= o.to_set(), o.no_duplicates()
    {
        assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by { if i < j { assert(o[i] < o[j]); } else { assert(o[j] < o[i]); } }
        assert(o.no_duplicates());
        o.unique_seq_to_set();
        assert forall|id: int| d.hist.dom().contains(id) <==> o.to_set().contains(id) by {
            if o.to_set().contains(id) { let i = choose|i: int| 0 <= i < o.len() && o[i] == id; assert(link(d, o, i)); }
        }
        assert(d.hist.dom() =~= o.to_set());
    }
    // One more row at the new end.
    pub proof fn list_push(d: Db, o: Seq<int>, id: int, text: Seq<char>, r: Db)
        requires is_list(d, o), forall|i: int| #[trigger] d.hist.contains_key(i) ==> i < id, i64::MIN <= id <= i64::MAX,
            r == pushed(d, id, text),
        ensures is_list(r, o.push(id)), forall|i: int| 0 <= i < o.len() ==> (#[trigger] r.hist[o[i]]).input == d.hist[o[i]].input, r.hist[id].input == text
    {
        let p = o.push(id);
        if o.len() > 0 { assert(link(d, o, o.len() - 1)); }
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] link(r, p, i) by {
            if i < o.len() { assert(link(d, o, i)); assert(link(d, o, i)); assert(o[i] < id); if i + 1 < o.len() { assert(o[i] < o[o.len() - 1]); } }
        }
        assert forall|x: int| #[trigger] r.hist.contains_key(x) implies p.contains(x) by {
            if x != id { assert(d.hist.contains_key(x)); let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(p[i] == x); } else { assert(p[o.len() as int] == id); }
        }
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] < #[trigger] p[j] by { assert(link(d, o, i)); if j < o.len() { assert(o[i] < o[j]); } }
    }
    pub proof fn same_hist(d: Db, r: Db)
        requires db_ok(d), r.hist == d.hist, r.tags == d.tags
        ensures exists|o: Seq<int>| #[trigger] is_list(r, o), forall|o: Seq<int>| #[trigger] is_list(d, o) ==> is_list(r, o)
    {
        assert forall|o: Seq<int>| #[trigger] is_list(d, o) implies is_list(r, o) by {
            assert forall|i: int| 0 <= i < o.len() implies #[trigger] link(r, o, i) by { assert(link(d, o, i)); }
        }
        assert(is_list(r, the_list(d)));
    }
    pub open spec fn pushed(d: Db, id: int, text: Seq<char>) -> Db {
        let a = Db { hist: d.hist.insert(id, Row { input: text, next: None, prev: d.tags[1] }), ..d };
        let b = tag_set(a, 1, Some(id));
        match d.tags[1] { Some(f) => next_set(b, f, Some(id)), None => tag_set(b, 2, Some(id)) }
    }
    // The oldest row goes.
    pub open spec fn popped(d: Db, o: Seq<int>) -> Db { hist_del(tag_set(prev_set(d, o[1], None), 2, Some(o[1])), o[0]) }
    pub proof fn list_pop(d: Db, o: Seq<int>)
        requires is_list(d, o), o.len() >= 2
        ensures is_list(popped(d, o), o.skip(1)), unreferenced(tag_set(prev_set(d, o[1], None), 2, Some(o[1])), o[0]), d.hist[o[0]].next == Some(o[1]),
            forall|i: int| 1 <= i < o.len() ==> (#[trigger] popped(d, o).hist[o[i]]).input == d.hist[o[i]].input,
            popped(d, o).vars == vars_without(d.vars, o[0]), popped(d, o).meta == d.meta, popped(d, o).fk == d.fk
    {
        let r = popped(d, o);
        let p = o.skip(1);
        let m = tag_set(prev_set(d, o[1], None), 2, Some(o[1]));
        assert(link(d, o, 0)); assert(link(d, o, 1)); assert(o[0] < o[1]);
        assert(link(d, o, 0));
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] link(r, p, i) by {
            assert(p[i] == o[i + 1]); assert(link(d, o, i + 1)); assert(link(d, o, i + 1)); assert(o[0] < o[i + 1]);
            if i > 0 { assert(o[1] < o[i + 1]); assert(p[i - 1] == o[i]); }
            if i + 1 < p.len() { assert(p[i + 1] == o[i + 2]); }
        }
        assert forall|x: int| #[trigger] r.hist.contains_key(x) implies p.contains(x) by { assert(d.hist.contains_key(x)); let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(p[i - 1] == x); }
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] < #[trigger] p[j] by { assert(o[i + 1] < o[j + 1]); }
        assert forall|i: int| #[trigger] m.hist.contains_key(i) && i != o[0] implies m.hist[i].next != Some(o[0]) && m.hist[i].prev != Some(o[0]) by {
            assert(d.hist.contains_key(i)); let k = choose|k: int| 0 <= k < o.len() && o[k] == i; assert(link(d, o, k));
            if k + 1 < o.len() { assert(o[0] < o[k + 1]); }
            if k > 1 { assert(o[0] < o[k - 1]); }
        }
        assert(p.last() == o.last()); assert(o[0] < o.last());
        assert(r.tags.dom() =~= set![1int, 2int]);
        assert forall|i: int| 1 <= i < o.len() implies (#[trigger] r.hist[o[i]]).input == d.hist[o[i]].input by { assert(o[0] < o[i]); }
    }
    pub proof fn kept_refl(d: Db, o: Seq<int>)
        requires is_list(d, o), vars_ok(d)
        ensures kept(d, o, d, 0)
    {
        assert(o.skip(0) =~= o);
    }
    pub proof fn kept_step(d: Db, o: Seq<int>, r: Db, k: int)
        requires kept(d, o, r, k), k + 2 <= o.len(), is_list(d, o), vars_ok(d)
        ensures kept(d, o, popped(r, o.skip(k)), k + 1), list_pop_facts(r, o.skip(k))
    {
        let q = o.skip(k);
        list_pop(r, q);
        assert(q.skip(1) =~= o.skip(k + 1));
        assert(link(r, q, 0)); assert(link(r, q, 1)); assert(q[0] < q[1]);
        let z = popped(r, q);
        assert forall|i: int| k + 1 <= i < o.len() implies (#[trigger] z.hist[o[i]]).input == d.hist[o[i]].input by { assert(q[i - k] == o[i]); }
        list_len(d, o);
        assert forall|n: Seq<char>| #[trigger] z.vars.contains_key(n) <==> d.vars.contains_key(n) && o.skip(k + 1).contains(d.vars[n].last) by {
            if d.vars.contains_key(n) {
                let l = d.vars[n].last;
                if o.skip(k + 1).contains(l) { let t = o.skip(k + 1); let j = choose|j: int| 0 <= j < t.len() && t[j] == l; assert(q[j + 1] == l); assert(o[k] < o[k + 1 + j]); assert(l != o[k]); }
                if q.contains(l) && l != q[0] { let j = choose|j: int| 0 <= j < q.len() && q[j] == l; assert(o.skip(k + 1)[j - 1] == l); }
            }
        }
        assert forall|n: Seq<char>| #[trigger] z.vars.contains_key(n) implies z.vars[n] == d.vars[n] by { assert(r.vars.contains_key(n)); }
    }
    pub open spec fn list_pop_facts(d: Db, o: Seq<int>) -> bool {
        &&& unreferenced(tag_set(prev_set(d, o[1], None), 2, Some(o[1])), o[0])
        &&& d.hist[o[0]].next == Some(o[1]) && d.tags[2] == Some(o[0]) && d.hist.contains_key(o[0]) && d.hist.contains_key(o[1]) && o[0] != o[1]
    }
    pub proof fn kept_ok(d: Db, o: Seq<int>, r: Db, k: int)
        requires kept(d, o, r, k), is_list(d, o), vars_ok(d), hist_ascii(d), d.meta.contains_key(3), d.meta[3] >= 1, d.fk
        ensures db_ok(r), r.hist.dom().len() == o.len() - k
    {
        list_len(r, o.skip(k));
        assert forall|id: int| #[trigger] r.hist.contains_key(id) implies ascii(r.hist[id].input) by { let t = o.skip(k); let j = choose|j: int| 0 <= j < t.len() && t[j] == id; assert(t[j] == o[k + j]); assert(link(d, o, k + j)); assert(r.hist[o[k + j]].input == d.hist[o[k + j]].input); }
        assert forall|n: Seq<char>| #[trigger] r.vars.contains_key(n) implies row_ok(r.vars[n]) && r.hist.contains_key(r.vars[n].last) by {
            assert(d.vars.contains_key(n)); let l = d.vars[n].last; let t = o.skip(k); let j = choose|j: int| 0 <= j < t.len() && t[j] == l; assert(link(r, t, j));
        }
    }
    // The digits that are stored for a number are read back as that number.
    pub proof fn text_back(x: int)
        ensures ascii(int_text(x, 10)), forall|r: Option<BigInt>| #[trigger] parse_ens(int_text(x, 10), 10, r) ==> r is Some && (r->0)@ == x
    {
        let s = int_text(x, 10);
        if x < 0 { lemma_to_digits(-x, 10); assert(s.skip(1) =~= to_digits(-x, 10)); assert(s[0] == '-'); }
        else { lemma_to_digits(x, 10); }
    }
}
items {
    // What a session may find in a file: nothing, or what a session of this program left there.
    pub open spec fn file_ok(d: Db) -> bool { no_tables(d) || db_ok(Db { fk: true, ..d }) && d.meta.contains_key(1) && d.meta.contains_key(2) && d.meta[2] <= CURRENT_DB_VERSION }
    pub open spec fn files_ok() -> bool { forall|p: Seq<char>| file_ok(#[trigger] opened(p)) }
    // A new session has what was stored when it started, and stands at the newest line.
    pub open spec fn begun(d: Db, s: SavedData) -> bool {
        &&& db_ok(s.connection@) && s.connection@.hist == d.hist && s.connection@.vars == d.vars && (d.meta.contains_key(3) ==> s.connection@.meta == d.meta) && (no_tables(d) ==> cap(s.connection@) >= 1)
        &&& opos(s.input_history_position) == s.connection@.tags[1]
    }
}
func "SavedData::open" { ret r; props { C10, C11 }
  spec { requires files_ok() ensures match r { Ok(Some(s)) => exists|p: Seq<char>| begun(#[trigger] opened(p), s), Ok(None) => true, Err(e) => outside(e) } }
  before_let transaction { assert(file_ok(opened(db_path@))); }
  before_call commit { 
    let d = opened(db_path@);
    if no_tables(d) { assert(transaction@.tags.dom() =~= set![1int, 2int]); assert(is_list(transaction@, Seq::empty())); } else { assert(transaction@ == (Db { fk: true, ..d })); } }
}
func "validate_max_history_size" { ret r; props { C12, C10 } spec { ensures r is Ok <==> value >= 1 } }
func "SavedData::get_max_history_size_with_transaction" { ret r; props { C12, C10 }
  spec {
    requires old(transaction)@.meta.contains_key(3)
    ensures Transaction::same(old(transaction), final(transaction)), final(transaction)@ == old(transaction)@, final(transaction).last == old(transaction).last,
      r is Ok ==> r->Ok_0 == cap(old(transaction)@), r is Err ==> outside(r->Err_0) }
}
func "SavedData::get_max_history_size" { ret r; props { C12, C10 }
  spec {
    requires db_ok(old(self).connection@)
    ensures final(self).connection@ == old(self).connection@, final(self).input_history_position == old(self).input_history_position,
      r is Ok ==> r->Ok_0 == cap(old(self).connection@), r is Err ==> outside(r->Err_0) }
}
func "SavedData::enforce_history_size_with_transaction" { ret r; props { C10, C11 }
  spec {
    requires db_ok(old(transaction)@)
    ensures Transaction::same(old(transaction), final(transaction)), final(transaction).last == old(transaction).last,
      r is Err ==> outside(r->Err_0), r is Ok ==> cap(old(transaction)@) >= 1 && db_ok(final(transaction)@),
      r is Ok ==> forall|o: Seq<int>| is_list(old(transaction)@, o) ==> #[trigger] kept(old(transaction)@, o, final(transaction)@, imax(0, o.len() - cap(old(transaction)@))) }
  entry { let ghost d0 = transaction@; let ghost o = the_list(d0); let ghost mut k: int = 0; let ghost mut dk = d0; proof { kept_refl(d0, o); list_len(d0, o); } }
  loop 0 {
    spec {
      invariant Transaction::same(old(transaction), transaction), transaction.last == old(transaction).last, db_ok(d0), d0 == old(transaction)@, is_list(d0, o),
        max_history_size == cap(d0), max_history_size >= 1, kept(d0, o, transaction@, k), 0 <= k <= imax(0, o.len() - cap(d0)),
      ensures Transaction::same(old(transaction), transaction), transaction.last == old(transaction).last, kept(d0, o, transaction@, k), k == imax(0, o.len() - cap(d0)),
      decreases o.len() - k
    }
    start { dk = transaction@; kept_ok(d0, o, transaction@, k); }
    end { let z = popped(dk, o.skip(k)); assert(transaction@.hist =~= z.hist); assert(transaction@.tags =~= z.tags); k = k + 1; }
    after { proof { kept_ok(d0, o, transaction@, k);
       assert forall|p: Seq<int>| is_list(d0, p) implies #[trigger] kept(d0, p, transaction@, imax(0, p.len() - cap(d0))) by { list_unique(d0, p, o); } } }
  }
  before_let old_back { kept_step(d0, o, transaction@, k); }
}
func "SavedData::add_to_input_history" { ret r; props { C10, C11, C09 }
  spec {
    requires db_ok(old(self).connection@), ascii(input@)
    ensures final(self).input_history_position == old(self).input_history_position, db_ok(final(self).connection@),
      r is Err ==> final(self).connection@ == old(self).connection@ && outside(r->Err_0),
      r is Ok ==> added(old(self).connection@, input@, r->Ok_0 as int, final(self).connection@) }
  entry { let ghost d0 = self.connection@; let ghost o = the_list(d0); proof { list_len(d0, o); if o.len() > 0 { assert(link(d0, o, o.len() - 1)); } } }
  before_call enforce_history_size_with_transaction {
    let z = pushed(d0, added_input_id as int, input@);
    assert(transaction@.hist =~= z.hist); assert(transaction@.tags =~= z.tags);
    list_push(d0, o, added_input_id as int, input@, transaction@);
    let p = o.push(added_input_id as int);
    assert forall|n: Seq<char>| #[trigger] transaction@.vars.contains_key(n) implies row_ok(transaction@.vars[n]) && transaction@.hist.contains_key(transaction@.vars[n].last) by { assert(d0.vars.contains_key(n)); }
    assert(db_ok(transaction@));
  }
  before_call commit { added_facts(d0, o, input@, added_input_id as int, transaction@); 
  }
}
items {
    // The line was stored at the new end, under the id given back, and the oldest beyond the capacity went.
    pub open spec fn added(d: Db, text: Seq<char>, id: int, r: Db) -> bool {
        &&& cap(d) >= 1
        &&& !d.hist.contains_key(id)
        &&& r.hist.contains_key(id) && r.hist[id].input == text
        &&& forall|o: Seq<int>| #[trigger] is_list(d, o) ==> kept(pushed(d, id, text), o.push(id), r, imax(0, o.len() + 1 - cap(d))) && (forall|i: int| 0 <= i < o.len() ==> (#[trigger] pushed(d, id, text).hist[o[i]]).input == d.hist[o[i]].input)
    }
}
items {
    pub proof fn added_facts(d: Db, o: Seq<int>, text: Seq<char>, id: int, r: Db)
        requires is_list(d, o), vars_ok(d), d.meta.contains_key(3), cap(d) >= 1, forall|i: int| #[trigger] d.hist.contains_key(i) ==> i < id, i64::MIN <= id <= i64::MAX,
            kept(pushed(d, id, text), o.push(id), r, imax(0, o.len() + 1 - cap(d)))
        ensures added(d, text, id, r)
    {
        let z = pushed(d, id, text); let p = o.push(id); let k = imax(0, o.len() + 1 - cap(d)); let t = p.skip(k);
        list_push(d, o, id, text, z);
        assert(t[t.len() - 1] == id); assert(link(r, t, t.len() - 1)); assert(p[o.len() as int] == id);
        assert(r.hist[p[o.len() as int]].input == z.hist[p[o.len() as int]].input);
        assert(!d.hist.contains_key(id));
        assert forall|q: Seq<int>| #[trigger] is_list(d, q) implies kept(pushed(d, id, text), q.push(id), r, imax(0, q.len() + 1 - cap(d))) && (forall|i: int| 0 <= i < q.len() ==> (#[trigger] pushed(d, id, text).hist[q[i]]).input == d.hist[q[i]].input) by { list_unique(d, q, o); }
    }
}
func "SavedData::set_max_history_size" { ret r; props { C10, C11, C12 }
  spec {
    requires db_ok(old(self).connection@)
    ensures final(self).input_history_position == old(self).input_history_position, db_ok(final(self).connection@),
      r is Err ==> final(self).connection@ == old(self).connection@ && (size >= 1 ==> outside(r->Err_0)),
      r is Ok ==> size >= 1 && cap(final(self).connection@) == size
        && (forall|o: Seq<int>| #[trigger] is_list(old(self).connection@, o) ==> kept(resized(old(self).connection@, size as int), o, final(self).connection@, imax(0, o.len() - size))) }
  before_call enforce_history_size_with_transaction { same_hist(old(self).connection@, transaction@); assert(vars_ok(transaction@)); }
  before_call commit {
    assert forall|o: Seq<int>| #[trigger] is_list(old(self).connection@, o) implies kept(resized(old(self).connection@, size as int), o, transaction@, imax(0, o.len() - size)) by { same_hist(old(self).connection@, resized(old(self).connection@, size as int)); }
    same_hist(old(self).connection@, resized(old(self).connection@, size as int));
  }
}
items {
    pub open spec fn resized(d: Db, size: int) -> Db { Db { meta: d.meta.insert(3, size), ..d } }
}
func "SavedData::get_prev_input_history" { ret r; props { C10, C09 }
  spec {
    requires db_ok(old(self).connection@)
    ensures final(self).connection@ == old(self).connection@,
      prev_read(old(self).connection@, old(self).input_history_position, final(self).input_history_position, r), r is Err ==> outside(r->Err_0) }
  entry { let ghost d0 = self.connection@; let ghost o = the_list(d0);
    proof { assert forall|id: int| #[trigger] d0.hist.contains_key(id) implies d0.hist[id].prev is None || i64::MIN <= d0.hist[id].prev->0 <= i64::MAX by {
        let i = choose|i: int| 0 <= i < o.len() && o[i] == id; assert(link(d0, o, i)); if i > 0 { assert(link(d0, o, i - 1)); } } } }
}
items {
    pub open spec fn opos(p: Option<i64>) -> Option<int> { match p { Some(i) => Some(i as int), None => None } }
    // Reads the row the session is at and moves to the one before it; a row that is gone ends it.
    pub open spec fn prev_read(d: Db, p0: Option<i64>, p1: Option<i64>, r: Result<Option<String>, BoxError>) -> bool {
        match r {
            Err(_) => p1 == p0,
            Ok(Some(s)) => p0 is Some && d.hist.contains_key(p0->0 as int) && s@ == d.hist[p0->0 as int].input && opos(p1) == d.hist[p0->0 as int].prev,
            Ok(None) => p1 is None && (p0 is None || !d.hist.contains_key(p0->0 as int)),
        }
    }
    // So reading visits the list from its newest entry to its oldest.
    pub proof fn reads_in_order(d: Db, o: Seq<int>, k: int, p0: Option<i64>, p1: Option<i64>, r: Result<Option<String>, BoxError>)
        requires is_list(d, o), prev_read(d, p0, p1, r), r is Ok, 0 <= k < o.len(), p0 is Some, p0->0 == o[k]
        ensures r->Ok_0 is Some, (r->Ok_0->0)@ == d.hist[o[k]].input, opos(p1) == (if k > 0 { Some(o[k - 1]) } else { None::<int> })
    { assert(link(d, o, k)); assert(link(d, o, k)); }
}
items {
    // A change of one variable that keeps its row readable and its line stored.
    pub proof fn vars_put(d: Db, k: Seq<char>, w: VarRow)
        requires db_ok(d), d.hist.contains_key(w.last), row_ok(w)
        ensures db_ok(Db { vars: d.vars.insert(k, w), ..d })
    {
        let r = Db { vars: d.vars.insert(k, w), ..d };
        same_hist(d, r);
        assert forall|n: Seq<char>| #[trigger] r.vars.contains_key(n) implies row_ok(r.vars[n]) && r.hist.contains_key(r.vars[n].last) by { if n != k { assert(d.vars.contains_key(n)); } }
    }
    pub proof fn row_touched(r: VarRow, id: int)
        requires row_ok(r)
        ensures row_ok(VarRow { last: id, ..r })
    { let x = choose|x: real| #[trigger] row_of(x, r); reveal(row_of); assert(row_of(x, VarRow { last: id, ..r })); }
    pub proof fn row_made(x: real, r: VarRow)
        requires is_rat(x), r.numer == int_text(rn(x), 10), r.denom == int_text(rd(x), 10)
        ensures row_of(x, r), row_ok(r)
    { reveal(row_of); assert(row_of(x, r)); }
}
func "SavedData::set_variable" { ret r; props { C11, C08 }
  spec {
    requires db_ok(old(self).connection@)
    ensures final(self).input_history_position == old(self).input_history_position, db_ok(final(self).connection@),
      r is Err ==> final(self).connection@ == old(self).connection@ && (old(self).connection@.hist.contains_key(last_used_by_id as int) ==> outside(r->Err_0)),
      r is Ok ==> final(self).connection@ == (Db { vars: old(self).connection@.vars.insert(var.name@, VarRow { numer: int_text(rn(var.value@), 10), denom: int_text(rd(var.value@), 10), last: last_used_by_id as int }), ..old(self).connection@ }) }
  entry { hide(int_text); hide(is_rat); hide(vars_ok); hide(is_list); let ghost d0 = self.connection@; let ghost w = VarRow { numer: int_text(rn(var.value@), 10), denom: int_text(rd(var.value@), 10), last: last_used_by_id as int }; proof { axiom_rational(var.value); row_made(var.value@, w); } }
  after_call execute { vars_put(d0, var.name@, w); }
}
func "SavedData::touch_variable" { ret r; props { C11 }
  spec {
    requires db_ok(old(self).connection@)
    ensures final(self).input_history_position == old(self).input_history_position, db_ok(final(self).connection@),
      r is Err ==> final(self).connection@ == old(self).connection@ && (old(self).connection@.hist.contains_key(last_used_by_id as int) ==> outside(r->Err_0)),
      r is Ok ==> final(self).connection@ == touched(old(self).connection@, name@, last_used_by_id as int) }
  entry { let ghost d0 = self.connection@; let ghost w = VarRow { last: last_used_by_id as int, ..d0.vars[name@] }; proof { if d0.vars.contains_key(name@) { row_touched(d0.vars[name@], last_used_by_id as int); } } }
  after_call execute { if d0.vars.contains_key(name@) { vars_put(d0, name@, w); } }
}
items {
    pub open spec fn touched(d: Db, k: Seq<char>, id: int) -> Db { if d.vars.contains_key(k) { Db { vars: d.vars.insert(k, VarRow { last: id, ..d.vars[k] }), ..d } } else { d } }
}
items {
    pub proof fn text_one(a: int, b: int)
        requires int_text(a, 10) == int_text(b, 10)
        ensures a == b
    {
        let s = int_text(a, 10);
        if a < 0 { lemma_to_digits(-a, 10); assert(s.skip(1) =~= to_digits(-a, 10)); assert(s[0] == '-'); } else { lemma_to_digits(a, 10); }
        if b < 0 { lemma_to_digits(-b, 10); assert(s.skip(1) =~= to_digits(-b, 10)); assert(s[0] == '-'); } else { lemma_to_digits(b, 10); }
    }
    // A stored row stands for one number: what is read is what was stored.
    pub proof fn stored_is_read(x: real, y: real, r: VarRow)
        requires row_of(x, r), row_of(y, r)
        ensures x == y
    { reveal(row_of); text_one(rn(x), rn(y)); text_one(rd(x), rd(y)); lemma_rat(x); lemma_rat(y); }
}
func "SavedData::get_variable" { ret r; props { C11, C08, C05 }
  spec {
    requires db_ok(old(self).connection@)
    ensures final(self).connection@ == old(self).connection@, final(self).input_history_position == old(self).input_history_position,
      match r {
        Ok(None) => !old(self).connection@.vars.contains_key(name@),
        Ok(Some(v)) => v.name@ == name@ && old(self).connection@.vars.contains_key(name@) && row_of(v.value@, old(self).connection@.vars[name@]),
        Err(e) => outside(e) } }
  entry { let ghost d0 = self.connection@; let ghost x0 = choose|x: real| #[trigger] row_of(x, d0.vars[name@]); }
  before_let numer {
    assert(row_ok(d0.vars[name@])); reveal(row_of);
    assert(numer_str@ == int_text(rn(x0), 10)); assert(denom_str@ == int_text(rd(x0), 10));
    lemma_rat(x0); text_back(rn(x0)); text_back(rd(x0));
  }
}
func "SavedData::clear_variable" { ret r; props { C11, C08 }
  spec {
    requires db_ok(old(self).connection@)
    ensures final(self).input_history_position == old(self).input_history_position, db_ok(final(self).connection@),
      r is Err ==> final(self).connection@ == old(self).connection@ && outside(r->Err_0),
      r is Ok ==> final(self).connection@ == (Db { vars: old(self).connection@.vars.remove(name@), ..old(self).connection@ }) }
  after_call execute { same_hist(old(self).connection@, self.connection@); }
}
