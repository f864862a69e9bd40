clone { Variable }
items {
    pub open spec fn vput(m: Map<Seq<char>, BigRational>, v: Variable) -> Map<Seq<char>, BigRational> { m.insert(v.name@, v.value) }
    // What a database has for a variable: nothing, or exactly the value that was stored.
    pub open spec fn read_ok(d: Db, name: Seq<char>, r: Option<Variable>) -> bool {
        match r { None => !d.vars.contains_key(name), Some(v) => v.name@ == name && d.vars.contains_key(name) && row_of(v.value@, d.vars[name]) }
    }
    pub open spec fn same_db(a: SavedData, b: SavedData) -> bool { a.connection@ == b.connection@ && a.input_history_position == b.input_history_position }
    pub open spec fn stored(d: Db, v: Variable, id: int) -> Db { Db { vars: d.vars.insert(v.name@, VarRow { numer: int_text(rn(v.value@), 10), denom: int_text(rd(v.value@), 10), last: id }), ..d } }
    // The line being evaluated is stored, under this id.
    pub open spec fn held_row(id: Option<i64>, d: Db) -> bool { id is Some && d.hist.contains_key(id->0 as int) }
    pub open spec fn db_in(m: Option<&mut SavedData>) -> bool { m is Some ==> db_ok((*m->0).connection@) }
}
func "VariableStore::new" { ret r; props { C08 } spec { ensures r.vars@ == Map::<Seq<char>, BigRational>::empty() } }
func "VariableStore::update" { ret r; props { C08, C11 }
  spec {
    requires db_in(maybe_db)
    ensures final(self).vars@ == vput(old(self).vars@, var),
      maybe_db is None && maybe_input_history_id is None ==> r is Ok,
      match maybe_db { None => true, Some(db) => (*final(db)).input_history_position == (*db).input_history_position && db_ok((*final(db)).connection@)
        && (r is Err ==> (*final(db)).connection@ == (*db).connection@ && (held_row(maybe_input_history_id, (*db).connection@) ==> outside(r->Err_0)))
        && (r is Ok ==> maybe_input_history_id is Some && (*final(db)).connection@ == stored((*db).connection@, var, maybe_input_history_id->0 as int)) } } }
func "VariableStore::touch" { ret r; props { C08, C11 }
  spec {
    requires db_in(maybe_db)
    ensures final(self).vars == old(self).vars,
      maybe_db is None && maybe_input_history_id is None ==> r is Ok,
      match maybe_db { None => true, Some(db) => (*final(db)).input_history_position == (*db).input_history_position && db_ok((*final(db)).connection@)
        && (r is Err ==> (*final(db)).connection@ == (*db).connection@ && (held_row(maybe_input_history_id, (*db).connection@) ==> outside(r->Err_0)))
        && (r is Ok ==> maybe_input_history_id is Some && (*final(db)).connection@ == touched((*db).connection@, name@, maybe_input_history_id->0 as int)) } } }
func "VariableStore::get" { ret r; props { C08, C11 }
  spec {
    requires db_in(maybe_db)
    ensures maybe_db is Some ==> same_db(*maybe_db->0, *final(maybe_db->0)),
      got_var(old(self).vars@, name@, match maybe_db { Some(db) => Some((*db).connection@), None => None::<Db> }, final(self).vars@, r) } }
items {
    // The value held by this session; failing that, the stored one, which the session then holds too.
    pub open spec fn got_var(m: Map<Seq<char>, BigRational>, name: Seq<char>, d: Option<Db>, m1: Map<Seq<char>, BigRational>, r: Result<Option<Variable>, BoxError>) -> bool {
        if m.contains_key(name) {
            m1 == m && match r { Ok(Some(v)) => v.name@ == name && v.value == m[name], _ => false }
        } else {
            match d { None => m1 == m && r == Ok::<Option<Variable>, BoxError>(None), Some(d) => reloaded(m, name, d, m1, r) }
        }
    }
    pub open spec fn reloaded(m: Map<Seq<char>, BigRational>, name: Seq<char>, d: Db, m1: Map<Seq<char>, BigRational>, r: Result<Option<Variable>, BoxError>) -> bool {
        match r {
            Ok(v) => read_ok(d, name, v) && m1 == (match v { Some(v) => vput(m, v), None => m }),
            Err(e) => m1 == m && outside(e),
        }
    }
}
func "VariableStore::reload" { ret r; props { C08, C11 }
  spec {
    requires db_ok(old(db).connection@)
    ensures same_db(*old(db), *final(db)), reloaded(old(self).vars@, name@, old(db).connection@, final(self).vars@, r) } }
func "VariableStore::purge" { ret r; props { C08, C11 }
  spec {
    requires db_in(maybe_db)
    ensures final(self).vars@ == old(self).vars@.remove(name@),
      maybe_db is None ==> r is Ok,
      match maybe_db { None => true, Some(db) => (*final(db)).input_history_position == (*db).input_history_position && db_ok((*final(db)).connection@)
        && (r is Err ==> (*final(db)).connection@ == (*db).connection@ && outside(r->Err_0))
        && (r is Ok ==> (*final(db)).connection@ == (Db { vars: (*db).connection@.vars.remove(name@), ..(*db).connection@ })) } } }
