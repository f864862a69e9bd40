// Assumed contracts on rusqlite / SQLite: each statement bcalc sends does to the tables what its SQL
// says, or fails and changes nothing; a transaction takes effect when it is committed. TRUSTED.
#![allow(unused_imports, unused_variables, dead_code)]
use vstd::prelude::*;
use crate::specs::*;
use crate::vstd_model::*;

verus! {
pub struct Row { pub input: Seq<char>, pub next: Option<int>, pub prev: Option<int> }
pub struct VarRow { pub numer: Seq<char>, pub denom: Seq<char>, pub last: int }
// The stored tables.
pub struct Db {
    pub meta: Map<int, int>,
    pub hist: Map<int, Row>,
    pub tags: Map<int, Option<int>>,
    pub vars: Map<Seq<char>, VarRow>,
    // References are enforced, and rows that refer to a deleted row go with it (per connection).
    pub fk: bool,
}
#[verifier::external_body]
pub struct Connection { x: () }
impl View for Connection { type V = Db; uninterp spec fn view(&self) -> Db; }
// `none`: the query found no row. `bad`: the statement itself is at fault (a value of another type, a broken reference).
pub struct SqlError { pub none: bool, pub bad: bool }
pub open spec fn failed(e: SqlError) -> bool { !e.none && !e.bad }
impl VFrom<SqlError> for BoxError { open spec fn from_ens(t: SqlError, r: BoxError) -> bool { failed(t) ==> outside(r) } #[verifier::external_body] fn v_from(t: SqlError) -> (r: BoxError) { unimplemented!() } }

// A query that found no row is reported as an error of its own kind.
pub trait OptionalExtension<T>: Sized { spec fn opt_ens(self, r: Result<Option<T>, SqlError>) -> bool; fn optional(self) -> (r: Result<Option<T>, SqlError>) ensures self.opt_ens(r); }
impl<T> OptionalExtension<T> for Result<T, SqlError> {
    open spec fn opt_ens(self, r: Result<Option<T>, SqlError>) -> bool {
        match self { Ok(v) => r == Ok::<Option<T>, SqlError>(Some(v)), Err(e) => if e.none { r == Ok::<Option<T>, SqlError>(None) } else { r == Err::<Option<T>, SqlError>(e) } }
    }
    fn optional(self) -> (r: Result<Option<T>, SqlError>) { match self { Ok(v) => Ok(Some(v)), Err(e) => if e.none { Ok(None) } else { Err(e) } } }
}

// Values sent.
pub ghost enum SqlG { Null, Int(int), Text(Seq<char>) }
#[verifier::external_body]
pub struct SqlV { x: () }
impl View for SqlV { type V = SqlG; uninterp spec fn view(&self) -> SqlG; }
pub trait ToSql { spec fn sql(&self) -> SqlG; fn v_sql(&self) -> (r: SqlV) ensures r@ == self.sql(); }
impl ToSql for i64 { open spec fn sql(&self) -> SqlG { SqlG::Int(*self as int) } #[verifier::external_body] fn v_sql(&self) -> (r: SqlV) { unimplemented!() } }
impl ToSql for usize { open spec fn sql(&self) -> SqlG { SqlG::Int(*self as int) } #[verifier::external_body] fn v_sql(&self) -> (r: SqlV) { unimplemented!() } }
impl ToSql for str { open spec fn sql(&self) -> SqlG { SqlG::Text(self@) } #[verifier::external_body] fn v_sql(&self) -> (r: SqlV) { unimplemented!() } }
impl ToSql for String { open spec fn sql(&self) -> SqlG { SqlG::Text(self@) } #[verifier::external_body] fn v_sql(&self) -> (r: SqlV) { unimplemented!() } }
impl<T: ToSql> ToSql for Option<T> { open spec fn sql(&self) -> SqlG { match self { Some(x) => x.sql(), None => SqlG::Null } } #[verifier::external_body] fn v_sql(&self) -> (r: SqlV) { unimplemented!() } }
impl<'a, T: ToSql + ?Sized> ToSql for &'a T { open spec fn sql(&self) -> SqlG { (**self).sql() } fn v_sql(&self) -> (r: SqlV) { (**self).v_sql() } }

// Values read: `ok` says that the stored value has the type asked for.
pub trait FromSql: Sized { spec fn ok(g: SqlG) -> bool; spec fn got(self, g: SqlG) -> bool; }
impl FromSql for i64 { open spec fn ok(g: SqlG) -> bool { g is Int } open spec fn got(self, g: SqlG) -> bool { g == SqlG::Int(self as int) } }
impl FromSql for String { open spec fn ok(g: SqlG) -> bool { g is Text } open spec fn got(self, g: SqlG) -> bool { g == SqlG::Text(self@) } }
impl<T: FromSql> FromSql for Option<T> { open spec fn ok(g: SqlG) -> bool { g is Null || T::ok(g) } open spec fn got(self, g: SqlG) -> bool { match self { None => g is Null, Some(x) => !(g is Null) && x.got(g) } } }

pub open spec fn oint(o: Option<int>) -> SqlG { match o { None => SqlG::Null, Some(i) => SqlG::Int(i) } }
pub open spec fn goint(g: SqlG) -> Option<int> { match g { SqlG::Int(i) => Some(i), _ => None } }
pub open spec fn cell<T: FromSql>(has: bool, g: SqlG, r: Result<T, SqlError>) -> bool {
    match r { Ok(v) => has && v.got(g), Err(e) => (e.none ==> !has) && (e.bad ==> has && !T::ok(g)) }
}
pub open spec fn cell2<T: FromSql, U: FromSql>(has: bool, g: SqlG, h: SqlG, r: Result<(T, U), SqlError>) -> bool {
    match r { Ok(v) => has && v.0.got(g) && v.1.got(h), Err(e) => (e.none ==> !has) && (e.bad ==> has && !(T::ok(g) && U::ok(h))) }
}
pub open spec fn eff(before: Db, after: Db, want: Db, ok: bool) -> bool { if ok { after == want } else { after == before } }
// Nothing stored refers to this history row.
pub open spec fn unreferenced(d: Db, id: int) -> bool {
    &&& forall|i: int| d.hist.contains_key(i) && i != id ==> #[trigger] d.hist[i].next != Some(id) && d.hist[i].prev != Some(id)
    &&& forall|k: int| d.tags.contains_key(k) ==> #[trigger] d.tags[k] != Some(id)
}
pub open spec fn tag_set(d: Db, k: int, v: Option<int>) -> Db { if d.tags.contains_key(k) { Db { tags: d.tags.insert(k, v), ..d } } else { d } }
pub open spec fn next_set(d: Db, id: int, v: Option<int>) -> Db { if d.hist.contains_key(id) { Db { hist: d.hist.insert(id, Row { next: v, ..d.hist[id] }), ..d } } else { d } }
pub open spec fn prev_set(d: Db, id: int, v: Option<int>) -> Db { if d.hist.contains_key(id) { Db { hist: d.hist.insert(id, Row { prev: v, ..d.hist[id] }), ..d } } else { d } }
pub open spec fn vars_without(m: Map<Seq<char>, VarRow>, id: int) -> Map<Seq<char>, VarRow> { m.restrict(m.dom().filter(|k: Seq<char>| m[k].last != id)) }
pub open spec fn hist_del(d: Db, id: int) -> Db { if d.hist.contains_key(id) { Db { hist: d.hist.remove(id), vars: vars_without(d.vars, id), ..d } } else { d } }

#[verifier::external_body]
pub fn v_env_fails() -> (r: bool) { unimplemented!() }

pub struct Transaction<'a> { pub conn: &'a mut Connection, pub work: Ghost<Db>, pub last: Ghost<int> }
impl<'a> View for Transaction<'a> { type V = Db; open spec fn view(&self) -> Db { self.work@ } }
impl Connection {
    pub fn transaction<'a>(&'a mut self) -> (r: Result<Transaction<'a>, SqlError>)
        ensures match r { Ok(t) => t.work@ == old(self)@ && *t.conn == *old(self) && *final(t.conn) == *final(self), Err(e) => *final(self) == *old(self) && failed(e) }
    {
        if v_env_fails() { return Err(SqlError { none: false, bad: false }); }
        let ghost w = self@;
        Ok(Transaction { conn: self, work: Ghost(w), last: Ghost(0) })
    }
    #[verifier::external_body]
    fn v_store(&mut self, w: Ghost<Db>) -> (r: Result<(), SqlError>) ensures eff(old(self)@, final(self)@, w@, r is Ok), r is Err ==> *final(self) == *old(self) && failed(r->Err_0) { unimplemented!() }
}
impl<'a> Transaction<'a> {
    pub fn commit(self) -> (r: Result<(), SqlError>)
        ensures r is Ok ==> (*final(self.conn))@ == self.work@, r is Err ==> *final(self.conn) == *old(self.conn) && failed(r->Err_0)
    { let mut t = self; t.conn.v_store(t.work) }
    // What stays the same when a statement runs inside the transaction.
    #[verifier::prophetic]
    pub open spec fn same(o: &Self, f: &Self) -> bool { *f.conn == *o.conn && *final(f.conn) == *final(o.conn) }

    #[verifier::external_body]
    pub fn sql_get_tag<T: FromSql>(&mut self, p: Vec<SqlV>) -> (r: Result<T, SqlError>)
        requires p@.len() == 1, p@[0]@ is Int
        ensures Self::same(old(self), final(self)), final(self)@ == old(self)@, final(self).last == old(self).last,
            cell(old(self)@.tags.contains_key(p@[0]@->Int_0), oint(old(self)@.tags[p@[0]@->Int_0]), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_set_tag(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 2, p@[1]@ is Int, p@[0]@ is Int ==> old(self)@.hist.contains_key(p@[0]@->Int_0), !(p@[0]@ is Text)
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), eff(old(self)@, final(self)@, tag_set(old(self)@, p@[1]@->Int_0, goint(p@[0]@)), r is Ok), final(self).last == old(self).last
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_insert_input(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 2, p@[0]@ is Text, p@[1]@ is Int ==> old(self)@.hist.contains_key(p@[1]@->Int_0), !(p@[1]@ is Text)
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)),
            r is Err ==> final(self)@ == old(self)@,
            r is Ok ==> ({ let id = final(self).last@;
                &&& i64::MIN <= id <= i64::MAX
                &&& forall|i: int| #[trigger] old(self)@.hist.contains_key(i) ==> i < id
                &&& final(self)@ == (Db { hist: old(self)@.hist.insert(id, Row { input: p@[0]@->Text_0, next: None, prev: goint(p@[1]@) }), ..old(self)@ }) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last_insert_rowid(&self) -> (r: i64) ensures r == self.last@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_set_next(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 2, p@[0]@ is Int, p@[1]@ is Int, old(self)@.hist.contains_key(p@[0]@->Int_0)
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, eff(old(self)@, final(self)@, next_set(old(self)@, p@[1]@->Int_0, goint(p@[0]@)), r is Ok)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_count_inputs<T: FromSql>(&mut self, p: Vec<SqlV>) -> (r: Result<T, SqlError>)
        requires p@.len() == 0
        ensures Self::same(old(self), final(self)), final(self)@ == old(self)@, final(self).last == old(self).last, cell(true, SqlG::Int(old(self)@.hist.dom().len() as int), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_get_next<T: FromSql>(&mut self, p: Vec<SqlV>) -> (r: Result<T, SqlError>)
        requires p@.len() == 1, p@[0]@ is Int
        ensures Self::same(old(self), final(self)), final(self)@ == old(self)@, final(self).last == old(self).last, cell(old(self)@.hist.contains_key(p@[0]@->Int_0), oint(old(self)@.hist[p@[0]@->Int_0].next), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_clear_prev(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 1, p@[0]@ is Int
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, eff(old(self)@, final(self)@, prev_set(old(self)@, p@[0]@->Int_0, None), r is Ok)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_delete_input(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 1, p@[0]@ is Int, old(self)@.fk, unreferenced(old(self)@, p@[0]@->Int_0)
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, eff(old(self)@, final(self)@, hist_del(old(self)@, p@[0]@->Int_0), r is Ok)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_get_meta<T: FromSql>(&mut self, p: Vec<SqlV>) -> (r: Result<T, SqlError>)
        requires p@.len() == 1, p@[0]@ is Int
        ensures Self::same(old(self), final(self)), final(self)@ == old(self)@, final(self).last == old(self).last, cell(old(self)@.meta.contains_key(p@[0]@->Int_0), SqlG::Int(old(self)@.meta[p@[0]@->Int_0]), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_put_meta(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 2, p@[0]@ is Int, p@[1]@ is Int
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, eff(old(self)@, final(self)@, Db { meta: old(self)@.meta.insert(p@[0]@->Int_0, p@[1]@->Int_0), ..old(self)@ }, r is Ok)
    { unimplemented!() }
}
// The tables in the file at a path when this session opens it; one that is not there, or is missing tables, has none.
pub uninterp spec fn opened(p: Seq<char>) -> Db;
pub open spec fn no_tables(d: Db) -> bool { d.meta == Map::<int, int>::empty() && d.hist == Map::<int, Row>::empty() && d.tags == Map::<int, Option<int>>::empty() && d.vars == Map::<Seq<char>, VarRow>::empty() }
// Setting up: what is there already stays as it is.
impl<'a> Transaction<'a> {
    #[verifier::external_body]
    pub fn sql_create_meta(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 0 ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_create_inputs(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 0 ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_create_tags(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 0 ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_create_vars(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 0 ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_first_meta(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 2, p@[0]@ is Int, p@[1]@ is Int
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, eff(old(self)@, final(self)@, meta_first(old(self)@, p@[0]@->Int_0, p@[1]@->Int_0), r is Ok)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_first_tag(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 1, p@[0]@ is Int
        ensures r is Err ==> failed(r->Err_0), Self::same(old(self), final(self)), final(self).last == old(self).last, eff(old(self)@, final(self)@, tag_first(old(self)@, p@[0]@->Int_0), r is Ok)
    { unimplemented!() }
}
pub open spec fn meta_first(d: Db, k: int, v: int) -> Db { if d.meta.contains_key(k) { d } else { Db { meta: d.meta.insert(k, v), ..d } } }
pub open spec fn tag_first(d: Db, k: int) -> Db { if d.tags.contains_key(k) { d } else { Db { tags: d.tags.insert(k, None), ..d } } }
impl Connection {
    // The bundled SQLite (Cargo.toml) enforces references from the start (SQLITE_DEFAULT_FOREIGN_KEYS=1).
    #[verifier::external_body]
    pub fn open(p: PathBuf) -> (r: Result<Connection, SqlError>) ensures match r { Ok(c) => c@ == (Db { fk: true, ..opened(p@) }), Err(e) => failed(e) } { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_foreign_keys(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 0 ensures r is Err ==> failed(r->Err_0), eff(old(self)@, final(self)@, Db { fk: true, ..old(self)@ }, r is Ok) { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_get_input<T: FromSql, U: FromSql>(&mut self, p: Vec<SqlV>) -> (r: Result<(T, U), SqlError>)
        requires p@.len() == 1, p@[0]@ is Int
        ensures final(self)@ == old(self)@, cell2(old(self)@.hist.contains_key(p@[0]@->Int_0), SqlG::Text(old(self)@.hist[p@[0]@->Int_0].input), oint(old(self)@.hist[p@[0]@->Int_0].prev), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_put_var(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 4, p@[0]@ is Text, p@[1]@ is Text, p@[2]@ is Text, p@[3]@ is Int
        ensures r is Err ==> !(r->Err_0).none && ((r->Err_0).bad ==> !old(self)@.hist.contains_key(p@[3]@->Int_0)), ({ let id = p@[3]@->Int_0;
            &&& eff(old(self)@, final(self)@, Db { vars: old(self)@.vars.insert(p@[0]@->Text_0, VarRow { numer: p@[1]@->Text_0, denom: p@[2]@->Text_0, last: id }), ..old(self)@ }, r is Ok)
            &&& (r is Ok ==> old(self)@.hist.contains_key(id)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_touch_var(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 2, p@[0]@ is Int, p@[1]@ is Text
        ensures r is Err ==> !(r->Err_0).none && ((r->Err_0).bad ==> !old(self)@.hist.contains_key(p@[0]@->Int_0)), ({ let id = p@[0]@->Int_0; let k = p@[1]@->Text_0; let v = old(self)@.vars;
            &&& eff(old(self)@, final(self)@, if v.contains_key(k) { Db { vars: v.insert(k, VarRow { last: id, ..v[k] }), ..old(self)@ } } else { old(self)@ }, r is Ok)
            &&& (r is Ok && v.contains_key(k) ==> old(self)@.hist.contains_key(id)) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_get_var<T: FromSql, U: FromSql>(&mut self, p: Vec<SqlV>) -> (r: Result<(T, U), SqlError>)
        requires p@.len() == 1, p@[0]@ is Text
        ensures final(self)@ == old(self)@, cell2(old(self)@.vars.contains_key(p@[0]@->Text_0), SqlG::Text(old(self)@.vars[p@[0]@->Text_0].numer), SqlG::Text(old(self)@.vars[p@[0]@->Text_0].denom), r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn sql_delete_var(&mut self, p: Vec<SqlV>) -> (r: Result<usize, SqlError>)
        requires p@.len() == 1, p@[0]@ is Text
        ensures r is Err ==> failed(r->Err_0), eff(old(self)@, final(self)@, Db { vars: old(self)@.vars.remove(p@[0]@->Text_0), ..old(self)@ }, r is Ok)
    { unimplemented!() }
}
}
