opts { ufcs; }
items {
    // ---- a line is entered: the history first ----
    pub open spec fn finished(a: InputHistory, b: InputHistory) -> bool {
        &&& ih_wf(b) && fresh(b) && b.db_history_exhausted == a.db_history_exhausted && b.primary_db_history@ == a.primary_db_history@
        &&& b.primary_internal_history@.len() == a.primary_internal_history@.len() + 1
        &&& b.primary_internal_history@.last()@ == cur(a) && b.primary_internal_history@.drop_last() == a.primary_internal_history@
    }
    // `id` is the saved line's, if the line is saved; without it, saving failed.
    pub open spec fn entered(s: Sess, s1: Sess, id: Option<Option<i64>>) -> bool {
        &&& s1.args == s.args && s1.vars == s.vars
        &&& match s.inputs {
            None => s1 == s && id == Some(None::<i64>),
            Some(h) => s1.inputs is Some && finished(h, s1.inputs->0) && match s.db {
                None => s1.db is None && id == Some(None::<i64>),
                Some(d) => s1.db is Some && (s1.db->0).1 == d.1 && db_ok((s1.db->0).0) && match id {
                    None => (s1.db->0).0 == d.0,
                    Some(None) => false,
                    Some(Some(i)) => added(d.0, cur(h), i as int, (s1.db->0).0),
                } } }
    }
    // ---- the variables a line mentions are used by it ----
    pub ghost enum Names { List(Seq<String>), Toks(Seq<Tk>) }
    pub open spec fn mentions(k: Names, n: Seq<char>) -> bool { match k { Names::List(v) => crate::commands::listed(v, n), Names::Toks(t) => named(t, n) } }
    pub open spec fn row_used(d: Db, d1: Db, id: Option<i64>, n: Seq<char>) -> bool {
        d.vars.contains_key(n) ==> id is Some && d1.vars.contains_key(n) && d1.vars[n] == (VarRow { last: id->0 as int, ..d.vars[n] })
    }
    pub open spec fn rows_used(d: Db, d1: Db, names: Names, id: Option<i64>, all: bool) -> bool {
        &&& db_ok(d1) && d1 == (Db { vars: d1.vars, ..d })
        &&& forall|n: Seq<char>| #[trigger] mentions(names, n) && all ==> row_used(d, d1, id, n)
        &&& forall|n: Seq<char>| #[trigger] same_row(d.vars, d1.vars, n) || mentions(names, n) && row_used(d, d1, id, n) && d.vars.contains_key(n)
    }
    pub open spec fn used(s: Sess, t: Sess, names: Names, id: Option<i64>, all: bool) -> bool {
        match s.db { None => t == s, Some(d) => t.db is Some && (t.db->0).1 == d.1 && t == (Sess { db: t.db, ..s }) && rows_used(d.0, (t.db->0).0, names, id, all) }
    }
    // What the user is not told about is none of the calculator's doing.
    pub open spec fn no_fault(r: Result<String, CalculatorFailure>) -> bool { match r { Err(CalculatorFailure::RuntimeError(b)) => outside(b), _ => true } }
    pub open spec fn kept_row(id: Option<i64>, d: Option<(Db, Option<i64>)>) -> bool { match d { Some(d) => held_row(id, d.0), None => id is None } }
    pub proof fn enter_held(s: Sess, s1: Sess, id: Option<i64>)
        requires entered(s, s1, Some(id)), s.db is Some ==> s.inputs is Some
        ensures kept_row(id, s1.db)
    { }
    pub proof fn command_faults(n: Arg, a: Arg, s: Sess, t: Sess, e: CalculatorFailure)
        requires command_ran(n, a, s, t, Err::<(String, Vec<String>), CalculatorFailure>(e))
        ensures crate::commands::only_outside(e)
    { }
    pub proof fn command_lists(n: Arg, a: Arg, s: Sess, t: Sess, m: (String, Vec<String>))
        requires command_ran(n, a, s, t, Ok::<(String, Vec<String>), CalculatorFailure>(m)), m.1@.len() > 0
        ensures t.db == s.db
    { }
    pub open spec fn fails(r: Result<String, CalculatorFailure>) -> bool { r is Err && !(r->Err_0 is InputError) }
    // ---- commands ----
    pub open spec fn commanded(c: Arg, a: Arg, s: Sess, id: Option<i64>, t: Sess, r: Result<String, CalculatorFailure>) -> bool {
        exists|u: Sess, o: CmdOut| #[trigger] command_ran(c, a, s, u, o) && match o {
            Err(e) => t == u && r == Err::<String, CalculatorFailure>(e),
            Ok(m) => if u.vars is None { t == u && r == Ok::<String, CalculatorFailure>(m.0) }
                else { used(u, t, Names::List(m.1@), id, r is Ok) && (r == Ok::<String, CalculatorFailure>(m.0) || fails(r)) },
        }
    }
    // ---- expressions ----
    pub open spec fn cx(s: Sess) -> Ctx {
        Ctx { vars: match s.vars { Some(m) => Some(env_of(m, disk(s))), None => None }, p: (s.args.precision + s.args.extra_precision) as nat, radix: s.args.radix as int }
    }
    pub open spec fn disk(s: Sess) -> Option<Db> { match s.db { Some(d) => Some(d.0), None => None } }
    // Nothing changes; a stored value may be read.
    pub open spec fn kept(s: Sess, t: Sess) -> bool {
        t == (Sess { vars: t.vars, ..s }) && t.vars is Some == s.vars is Some && (s.vars is Some ==> env_of(t.vars->0, disk(s)) == env_of(s.vars->0, disk(s)))
    }
    pub open spec fn put(v: Variable, id: Option<i64>, s: Sess, t: Sess, done: bool) -> bool {
        &&& s.vars is Some && t.vars is Some && (exists|m: Map<Seq<char>, BigRational>| #[trigger] vars_at(s.vars->0, disk(s), m) && t.vars->0 == vput(m, v))
        &&& match s.db {
            None => done || id is Some,
            Some(d) => t.db is Some && (t.db->0).1 == d.1 && db_ok((t.db->0).0) && (!done ==> (t.db->0).0 == d.0) && (done ==> id is Some && (t.db->0).0 == stored(d.0, v, id->0 as int)),
        }
        &&& t == (Sess { vars: t.vars, db: t.db, ..s }) && (s.db is None ==> t.db is None)
    }
    pub open spec fn tree_ran(tree: SyntaxTree, s: Sess, id: Option<i64>, t: Sess, v: Result<BigRational, CalculatorFailure>) -> bool {
        match tree.maybe_result_var {
            None => kept(s, t) && told(v, s.db is Some) && (broke(v) || ev(tree.root, cx(s), out_of(v))),
            Some(name) => match v {
                Ok(x) => ev(tree.root, cx(s), Out::Ok(x@)) && put(Variable { name: name.value, value: x }, id, s, t, true),
                Err(e) => if e is InputError {
                        kept(s, t) && err_pos(e) is Some && (ev(tree.root, cx(s), out_of(v)) || s.vars is None && input_err_of(e, MissingCapabilityError::NoVariableStore.disp(), Some(name.position)))
                    } else {
                        kept(s, t) && s.db is Some
                        || exists|x: BigRational| ev(tree.root, cx(s), Out::Ok(#[trigger] x@)) && put(Variable { name: name.value, value: x }, id, s, t, false)
                    },
            },
        }
    }
    pub open spec fn out_radix(a: Args) -> int { match a.convert_to_radix { Some(r) => r as int, None => a.radix as int } }
    pub open spec fn printed(x: real, a: Args) -> Seq<char> {
        if a.fractional { frac_string(x, out_radix(a), a.upper) } else { dec_text(x, out_radix(a), a.precision as int, a.commas, a.upper) }
    }
    pub open spec fn computed(ts: Seq<Tk>, s: Sess, id: Option<i64>, t: Sess, r: Result<String, CalculatorFailure>) -> bool {
        if ts.len() == 0 { t == s && r is Ok && (r->Ok_0)@ == Seq::<char>::empty() }
        else if !whole(right_side(ts)) { t == s && r is Err && r->Err_0 is InputError && match err_pos(r->Err_0) { Some(p) => err_in(ts, p) || right_side(ts).len() == 0 && p.start == 0 && pend(p) == 0, None => false } }
        else { exists|tree: SyntaxTree| #[trigger] tree_of(tree, ts) && match r {
            Ok(text) => exists|x: BigRational| text@ == printed(#[trigger] x@, s.args) && tree_ran(tree, s, id, t, Ok::<BigRational, CalculatorFailure>(x)),
            Err(e) => tree_ran(tree, s, id, t, Err::<BigRational, CalculatorFailure>(e)),
        } }
    }
    pub open spec fn evaluated(ts: Seq<Tk>, s: Sess, id: Option<i64>, t: Sess, r: Result<String, CalculatorFailure>) -> bool {
        if s.vars is None { computed(ts, s, id, t, r) }
        else { fails(r) && used(s, t, Names::Toks(ts), id, false) || exists|u: Sess| #[trigger] used(s, u, Names::Toks(ts), id, true) && computed(ts, u, id, t, r) }
    }
    // ---- a line ----
    pub open spec fn acted(p: Result<ParsedInput, Positioned<ParseError>>, s: Sess, id: Option<i64>, t: Sess, r: Result<String, CalculatorFailure>) -> bool {
        match p {
            Err(e) => t == s && r is Err && input_err_of(r->Err_0, e.value.disp(), Some(e.position)),
            Ok(ParsedInput::Command(c)) => commanded(c.0, c.1, s, id, t, r),
            Ok(ParsedInput::Tokens(v)) => evaluated(v@, s, id, t, r),
        }
    }
    pub open spec fn line_ran(line: Seq<char>, s: Sess, t: Sess, r: Result<String, CalculatorFailure>) -> bool {
        entered(s, t, None) && fails(r)
        || exists|s1: Sess, id: Option<i64>, p: Result<ParsedInput, Positioned<ParseError>>| #[trigger] entered(s, s1, Some(id)) && #[trigger] parsed(line, s.args.radix as int, p) && acted(p, s1, id, t, r)
    }
    pub proof fn str_small(s: &str) ensures s@.len() <= usize::MAX { broadcast use crate::vstd_model::axiom_blen_pos; axiom_str_small(s); }
    pub open spec fn in_range(a: Args) -> bool { 2 <= a.radix <= 16 && (a.convert_to_radix is Some ==> 2 <= a.convert_to_radix->0 <= 16) }
    // ---- loops over names ----
    pub open spec fn some_var(t: Seq<&Positioned<Token>>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] t[i]).value is Variable && t[i].value->Variable_0@ == n }
}
func "calculate" { ret r; props { C05, C06, C08, C11, C12, C14 }
  attr { #[verifier::spinoff_prover] #[verifier::rlimit(80)] }
  spec { requires in_range(*old(args)), tk_wf(*tokenizer), table_ok(*old(command_executor)), db_in(maybe_db), maybe_inputs is Some ==> ih_wf(*maybe_inputs->0)
    ensures *final(command_executor) == *old(command_executor), line_ran(input@,
      Sess { args: *old(args), db: db_now(maybe_db), vars: vars_now(maybe_vars), inputs: inputs_now(maybe_inputs) },
      Sess { args: *final(args), db: db_then(maybe_db), vars: vars_then(maybe_vars), inputs: inputs_then(maybe_inputs) }, r),
      (maybe_db is Some ==> maybe_inputs is Some) ==> no_fault(r) }
  entry { hide(ev); hide(command_ran); hide(added); hide(frac_string); hide(dec_text); hide(tree_of); hide(whole); hide(lexed); hide(err_in); hide(env_of); hide(tok_err); hide(rows_done); hide(rows_used); hide(db_ok); hide(touched); hide(is_cmd); hide(toks_ok); hide(named); hide(some_var); let ghost s0 = Sess { args: *args, db: db_now(maybe_db), vars: vars_now(maybe_vars), inputs: inputs_now(maybe_inputs) }; let ghost mut s1 = s0; let ghost db0 = maybe_db; let ghost v0 = maybe_vars; let ghost mut dn: Db = (s0.db->0).0; let ghost mut pn: Option<i64> = (s0.db->0).1; let ghost mut s2 = s0; let ghost mut cp: Db = (s0.db->0).0; let ghost mut w: Seq<Seq<char>> = Seq::empty(); let ghost mut ts: Seq<Tk> = Seq::empty(); proof { str_small(input); assert forall|n: Arg, a: Arg, s: Sess, t: Sess, e: CalculatorFailure| #[trigger] command_ran(n, a, s, t, Err::<(String, Vec<String>), CalculatorFailure>(e)) implies crate::commands::only_outside(e) by { command_faults(n, a, s, t, e); } } }
  after_let maybe_input_history_id { s1 = Sess { args: *args, db: db_now(maybe_db), vars: vars_now(maybe_vars), inputs: inputs_now(maybe_inputs) }; assert(entered(s0, s1, Some(maybe_input_history_id))); if maybe_db is Some ==> maybe_inputs is Some { enter_held(s0, s1, maybe_input_history_id); } dn = (*maybe_db->0).connection@; pn = (*maybe_db->0).input_history_position; }
  after_let tokens { ts = tokens@; assert(lexed(input@, input@.len() as int, s0.args.radix as int, ts)); lexed_ok(input@, s0.args.radix as int, ts); }
  after_let message { assert forall|n: Arg, a: Arg, s: Sess, t: Sess, m: (String, Vec<String>)| #[trigger] command_ran(n, a, s, t, Ok::<(String, Vec<String>), CalculatorFailure>(m)) && m.1@.len() > 0 implies t.db == s.db by { command_lists(n, a, s, t, m); } assert forall|n: Arg, a: Arg, s: Sess, t: Sess, o: CmdOut| #[trigger] command_ran(n, a, s, t, o) && sound(s) implies sound(t) by { command_sound(n, a, s, t, o); } dn = (*maybe_db->0).connection@; pn = (*maybe_db->0).input_history_position; }
  loop 0 { iter it; spec { invariant 0 <= it.idx() <= it.src().len(), it.src() == vars_touched@, *final(vars) == *final(v0->0), vars.vars@ == vn, maybe_db is Some == db0 is Some, w == str_texts(it.src()),
      maybe_db is Some ==> *final(maybe_db->0) == *final(db0->0) && (*maybe_db->0).input_history_position == pn && db_ok((*maybe_db->0).connection@) && rows_done(dn, (*maybe_db->0).connection@, w, it.idx(), maybe_input_history_id),
    ensures it.idx() == it.src().len(), decreases it.src().len() - it.idx() }
    attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
    before { let ghost vn = vars.vars@; proof { w = str_texts(vars_touched@); if maybe_db is Some { none_done(dn, w, maybe_input_history_id); } list_texts(vars_touched@); } }
    after { proof { if maybe_db is Some { done_used(dn, (db_now(maybe_db)->0).0, w, w.len() as int, maybe_input_history_id, Names::List(vars_touched@)); } } }
    start { let j = it.idx() - 1; assert(var_name == it.src()[j]); assert(w[j] == var_name@); cp = (*maybe_db->0).connection@; if maybe_db is Some { done_used(dn, cp, w, j, maybe_input_history_id, Names::List(vars_touched@)); } }
    end { if maybe_db is Some { step_done(dn, cp, (*maybe_db->0).connection@, w, it.idx() - 1, maybe_input_history_id); } } }
  loop 1 { iter it1; spec { invariant 0 <= it1.idx() <= it1.src().len(), ref_seq(ts, it1.src()), forall|n: Seq<char>| #[trigger] named(ts, n) <==> some_var(it1.src(), it1.src().len() as int, n), forall|n: Seq<char>| #[trigger] vars_touched@.contains(n) <==> some_var(it1.src(), it1.idx(), n),
    ensures it1.idx() == it1.src().len() decreases it1.src().len() - it1.idx() }
    init { proof { none_yet_named(); named_refs(ts, it1.src()); } }
    start { let j = it1.idx() - 1; assert(positioned_token == it1.src()[j]); var_step(it1.src(), j); } }
  loop 2 { iter it2; spec { invariant 0 <= it2.idx() <= it2.src().len(), *final(vars) == *final(vb), vars.vars@ == vb.vars@, w == ref_texts(it2.src()), maybe_db is Some == db0 is Some,
      maybe_db is Some ==> *final(maybe_db->0) == *final(db0->0) && (*maybe_db->0).input_history_position == pn && db_ok((*maybe_db->0).connection@) && rows_done(dn, (*maybe_db->0).connection@, w, it2.idx(), maybe_input_history_id),
    ensures it2.idx() == it2.src().len() decreases it2.src().len() - it2.idx() }
    attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
    before { let ghost vb = vars; }
    init { proof { w = ref_texts(it2.src()); set_refs(ts, vars_touched@, it2.src()); if maybe_db is Some { none_done(dn, w, maybe_input_history_id); } } }
    after { proof { s2 = Sess { args: *args, db: db_now(maybe_db), vars: s1.vars, inputs: s1.inputs }; if maybe_db is Some { done_used(dn, (*maybe_db->0).connection@, w, w.len() as int, maybe_input_history_id, Names::Toks(ts)); } assert(used(s1, s2, Names::Toks(ts), maybe_input_history_id, true)); } }
    start { let j = it2.idx() - 1; assert(var_name == it2.src()[j]); assert(w[j] == var_name@); cp = (*maybe_db->0).connection@; if maybe_db is Some { done_used(dn, cp, w, j, maybe_input_history_id, Names::Toks(ts)); } }
    end { if maybe_db is Some { step_done(dn, cp, (*maybe_db->0).connection@, w, it2.idx() - 1, maybe_input_history_id); } } }
}
items {
    pub proof fn lexed_ok(s: Seq<char>, radix: int, t: Seq<Tk>)
        requires lexed(s, s.len() as int, radix, t), s.len() <= usize::MAX ensures toks_ok(t)
    { lexed_in_order(s, s.len() as int, radix, t); }
    pub open spec fn str_texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    pub open spec fn ref_texts(v: Seq<&String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
    // The first k names are used.
    pub open spec fn rows_done(d: Db, d1: Db, v: Seq<Seq<char>>, k: int, id: Option<i64>) -> bool {
        &&& db_ok(d1) && d1 == (Db { vars: d1.vars, ..d })
        &&& forall|n: Seq<char>| #![trigger crate::commands::some_text(v, k, n)] #![trigger d1.vars.contains_key(n)] if crate::commands::some_text(v, k, n) { row_used(d, d1, id, n) && d.vars.contains_key(n) == d1.vars.contains_key(n) } else { same_row(d.vars, d1.vars, n) }
    }
    pub open spec fn all_of(names: Names, w: Seq<Seq<char>>) -> bool { forall|n: Seq<char>| #[trigger] mentions(names, n) <==> crate::commands::some_text(w, w.len() as int, n) }
    pub proof fn none_done(d: Db, w: Seq<Seq<char>>, id: Option<i64>)
        requires db_ok(d) ensures rows_done(d, d, w, 0, id)
    { }
    pub proof fn step_done(d: Db, d1: Db, d2: Db, w: Seq<Seq<char>>, k: int, id: Option<i64>)
        requires rows_done(d, d1, w, k, id), 0 <= k < w.len(), id is Some, d2 == touched(d1, w[k], id->0 as int), db_ok(d2)
        ensures rows_done(d, d2, w, k + 1, id)
    {
        assert forall|n: Seq<char>| #[trigger] crate::commands::some_text(w, k + 1, n) <==> crate::commands::some_text(w, k, n) || n == w[k] by { }
        assert forall|n: Seq<char>| #![trigger crate::commands::some_text(w, k + 1, n)] #![trigger d2.vars.contains_key(n)] if crate::commands::some_text(w, k + 1, n) { row_used(d, d2, id, n) && d.vars.contains_key(n) == d2.vars.contains_key(n) } else { same_row(d.vars, d2.vars, n) } by {
            assert(crate::commands::some_text(w, k, n) || !crate::commands::some_text(w, k, n)); assert(d1.vars.contains_key(n) || !d1.vars.contains_key(n)); }
    }
    pub proof fn done_used(d: Db, d1: Db, w: Seq<Seq<char>>, k: int, id: Option<i64>, names: Names)
        requires rows_done(d, d1, w, k, id), all_of(names, w), 0 <= k <= w.len()
        ensures d1.hist == d.hist, rows_used(d, d1, names, id, false), k == w.len() ==> rows_used(d, d1, names, id, true)
    {
        assert forall|n: Seq<char>| #[trigger] same_row(d.vars, d1.vars, n) || mentions(names, n) && row_used(d, d1, id, n) && d.vars.contains_key(n) by {
            if crate::commands::some_text(w, k, n) { assert(crate::commands::some_text(w, w.len() as int, n)); assert(mentions(names, n)); } }
    }
    pub proof fn list_texts(v: Seq<String>)
        ensures all_of(Names::List(v), str_texts(v))
    {
        let w = str_texts(v);
        assert forall|n: Seq<char>| #[trigger] mentions(Names::List(v), n) <==> crate::commands::some_text(w, w.len() as int, n) by {
            if crate::commands::listed(v, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n; assert(w[i] == n); }
            if crate::commands::some_text(w, w.len() as int, n) { let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == n; assert(v[i]@ == n); }
        }
    }
    pub open spec fn vars_are(t: Seq<Tk>, s: Set<Seq<char>>) -> bool { forall|n: Seq<char>| #[trigger] s.contains(n) <==> named(t, n) }
    pub proof fn none_yet_named() ensures forall|w: Seq<&Tk>, n: Seq<char>| !#[trigger] some_var(w, 0, n) { }
    pub proof fn var_step(w: Seq<&Tk>, j: int)
        requires 0 <= j < w.len()
        ensures forall|n: Seq<char>| #[trigger] some_var(w, j + 1, n) <==> some_var(w, j, n) || w[j].value is Variable && n == w[j].value->Variable_0@
    { }
    pub proof fn named_refs(t: Seq<Tk>, w: Seq<&Tk>)
        requires ref_seq(t, w) ensures forall|n: Seq<char>| #[trigger] named(t, n) <==> some_var(w, w.len() as int, n)
    {
        assert forall|n: Seq<char>| #[trigger] named(t, n) <==> some_var(w, w.len() as int, n) by {
            if named(t, n) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).value is Variable && t[i].value->Variable_0@ == n; assert(*w[i] == t[i]); assert(w[i].value is Variable); }
            if some_var(w, w.len() as int, n) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).value is Variable && w[i].value->Variable_0@ == n; assert(*w[i] == t[i]); assert(t[i].value is Variable); }
        }
    }
    pub proof fn command_sound(n: Arg, a: Arg, s: Sess, t: Sess, o: CmdOut)
        requires command_ran(n, a, s, t, o), sound(s) ensures sound(t)
    { if known(meant(n.value@)) { let c = choose|c: DynCommand| #[trigger] called(c) == meant(n.value@) && ran(c, a, s, t, o); stays_sound(c, a, s, t, o); } }
    pub proof fn set_refs(t: Seq<Tk>, s: Set<Seq<char>>, u: Seq<&String>)
        requires vars_are(t, s), exists|v: Seq<String>| #[trigger] set_order::<String>(s, v) && ref_seq(v, u)
        ensures all_of(Names::Toks(t), ref_texts(u))
    {
        let v = choose|v: Seq<String>| #[trigger] set_order::<String>(s, v) && ref_seq(v, u);
        let w = ref_texts(u);
        assert forall|n: Seq<char>| #[trigger] mentions(Names::Toks(t), n) <==> crate::commands::some_text(w, w.len() as int, n) by {
            if named(t, n) { assert(s.contains(n)); let i = crate::commands::in_turn::<String>(s, v, n); assert(*u[i] == v[i]); assert(w[i] == n); }
            if crate::commands::some_text(w, w.len() as int, n) { let i = choose|i: int| 0 <= i < w.len() && #[trigger] w[i] == n; assert(*u[i] == v[i]); assert(s.contains(v[i]@)); }
        }
    }
}
items {
    // ---- what any line does, and what it leaves alone ----
    // The settings: only commands change them, and never out of range.
    pub proof fn settings_stay(line: Seq<char>, s: Sess, t: Sess, r: Result<String, CalculatorFailure>)
        requires line_ran(line, s, t, r), settings_ok(s.args)
        ensures settings_ok(t.args), !is_cmd(line) ==> t.args == s.args
    {
        if !(entered(s, t, None) && fails(r)) {
            let (s1, id, p) = choose|s1: Sess, id: Option<i64>, p: Result<ParsedInput, Positioned<ParseError>>| #[trigger] entered(s, s1, Some(id)) && #[trigger] parsed(line, s.args.radix as int, p) && acted(p, s1, id, t, r);
            match p {
                Ok(ParsedInput::Command(c)) => {
                    let (u, o) = choose|u: Sess, o: CmdOut| #[trigger] command_ran(c.0, c.1, s1, u, o) && match o {
                        Err(e) => t == u && r == Err::<String, CalculatorFailure>(e),
                        Ok(m) => if u.vars is None { t == u && r == Ok::<String, CalculatorFailure>(m.0) }
                            else { used(u, t, Names::List(m.1@), id, r is Ok) && (r == Ok::<String, CalculatorFailure>(m.0) || fails(r)) },
                    };
                    if known(meant(c.0.value@)) { let d = choose|d: DynCommand| #[trigger] called(d) == meant(c.0.value@) && ran(d, c.1, s1, u, o); stays_in_bounds(d, c.1, s1, u, o); }
                },
                _ => { },
            }
        }
    }
    // A line that is not a command, and the tokens it is made of.
    pub open spec fn line_toks(line: Seq<char>, radix: int, ts: Seq<Tk>) -> bool { !is_cmd(line) && lexed(line, line.len() as int, radix, ts) }
    pub open spec fn assigns_to(line: Seq<char>, radix: int, n: Seq<char>) -> bool { exists|ts: Seq<Tk>| #[trigger] line_toks(line, radix, ts) && assigns(ts) && ts[0].value->Variable_0@ == n }
    // What a variable is worth.
    pub open spec fn held(s: Sess, n: Seq<char>) -> Option<real> { if s.vars is Some { env_of(s.vars->0, disk(s))(n) } else { None } }
    // It was only on disk, and the line that used it last went from the history.
    pub open spec fn evicted(s: Sess, t: Sess, n: Seq<char>) -> bool {
        s.vars is Some && !(s.vars->0).contains_key(n) && s.db is Some && t.db is Some && (s.db->0).0.vars.contains_key(n)
            && !(t.db->0).0.hist.contains_key((s.db->0).0.vars[n].last) && held(t, n) is None
    }
    pub proof fn row_worth(a: VarRow, b: VarRow)
        requires row_ok(a), a.numer == b.numer, a.denom == b.denom
        ensures row_real(a) == row_real(b)
    { row_touched(a, b.last); assert(b == (VarRow { last: b.last, ..a })); let x = choose|x: real| #[trigger] row_of(x, a); let y = choose|y: real| #[trigger] row_of(y, b); reveal(row_of); assert(row_of(x, b)); stored_is_read(x, y, b); assert(row_of(row_real(b), b)); assert(row_of(row_real(a), a)); stored_is_read(row_real(a), row_real(b), b); }
    pub proof fn enter_keeps(s: Sess, s1: Sess, id: Option<Option<i64>>)
        requires entered(s, s1, id), sound(s)
        ensures sound(s1), s1.vars == s.vars, s1.args == s.args, forall|n: Seq<char>| #[trigger] held(s1, n) == held(s, n) || evicted(s, s1, n)
    {
        if s.inputs is Some && s.db is Some && id is Some {
            let d = (s.db->0).0; let d1 = (s1.db->0).0; let o = the_list(d); let i = id->0->0 as int;
            assert(is_list(d, o));
            let text = cur(s.inputs->0);
            let k = imax(0, o.len() + 1 - cap(d)); let p = pushed(d, i, text);
            assert(crate::saved_data::kept(p, o.push(i), d1, k));
            assert(p.vars == d.vars);
            assert forall|n: Seq<char>| #[trigger] held(s1, n) == held(s, n) || evicted(s, s1, n) by {
                if s.vars is Some && !(s.vars->0).contains_key(n) && d.vars.contains_key(n) && !d1.vars.contains_key(n) {
                    let last = d.vars[n].last;
                    assert(!o.push(i).skip(k).contains(last));
                    if d1.hist.contains_key(last) { assert(o.push(i).skip(k).contains(last)); }
                }
            }
        }
    }
    pub proof fn use_keeps(s: Sess, t: Sess, names: Names, id: Option<i64>, all: bool)
        requires used(s, t, names, id, all), sound(s)
        ensures sound(t), t.args == s.args, t.vars == s.vars, forall|n: Seq<char>| #[trigger] held(t, n) == held(s, n),
            s.db is Some ==> t.db is Some && (t.db->0).0.hist == (s.db->0).0.hist
    {
        if s.db is Some {
            let d = (s.db->0).0; let d1 = (t.db->0).0;
            assert forall|n: Seq<char>| #[trigger] held(t, n) == held(s, n) by {
                assert(same_row(d.vars, d1.vars, n) || mentions(names, n) && row_used(d, d1, id, n) && d.vars.contains_key(n));
                if d.vars.contains_key(n) { row_worth(d.vars[n], d1.vars[n]); }
            }
        }
    }
    pub open spec fn answers(r: Result<String, CalculatorFailure>) -> bool { !(r is Err && r->Err_0 is InputError) }
    pub proof fn put_changes(v: Variable, id: Option<i64>, s: Sess, t: Sess, done: bool)
        requires put(v, id, s, t, done), sound(s)
        ensures t.args == s.args, t.vars is Some, sound(t), held(t, v.name@) == Some(v.value@), forall|n: Seq<char>| n != v.name@ ==> #[trigger] held(t, n) == held(s, n)
    {
        let m = choose|m: Map<Seq<char>, BigRational>| #[trigger] vars_at(s.vars->0, disk(s), m) && t.vars->0 == vput(m, v);
        assert forall|n: Seq<char>| n != v.name@ implies #[trigger] held(t, n) == held(s, n) by {
            assert(env_of(m, disk(s))(n) == env_of(s.vars->0, disk(s))(n));
        }
    }
    // A line of tokens leaves every variable as it was but the one it assigns.
    pub proof fn compute_changes(ts: Seq<Tk>, s: Sess, id: Option<i64>, t: Sess, r: Result<String, CalculatorFailure>)
        requires computed(ts, s, id, t, r), sound(s), s.vars is Some
        ensures t.args == s.args, t.vars is Some, s.db is Some ==> t.db is Some && (t.db->0).0.hist == (s.db->0).0.hist,
            forall|n: Seq<char>| #[trigger] held(t, n) == held(s, n) || answers(r) && assigns(ts) && ts[0].value->Variable_0@ == n,
            r is Ok && assigns(ts) ==> exists|x: real| held(t, ts[0].value->Variable_0@) == Some(x) && (r->Ok_0)@ == #[trigger] printed(x, s.args)
    {
        if ts.len() == 0 || !whole(right_side(ts)) { }
        else {
            match r {
                Ok(text) => {
                    let tree = choose|tree: SyntaxTree| #[trigger] tree_of(tree, ts) && exists|x: BigRational| text@ == printed(#[trigger] x@, s.args) && tree_ran(tree, s, id, t, Ok::<BigRational, CalculatorFailure>(x));
                    let x = choose|x: BigRational| text@ == printed(#[trigger] x@, s.args) && tree_ran(tree, s, id, t, Ok::<BigRational, CalculatorFailure>(x));
                    match tree.maybe_result_var { Some(name) => { put_changes(Variable { name: name.value, value: x }, id, s, t, true); assert(held(t, ts[0].value->Variable_0@) == Some(x@)); assert(text@ == printed(x@, s.args)); }, None => { } }
                },
                Err(e) => {
                    let tree = choose|tree: SyntaxTree| #[trigger] tree_of(tree, ts) && tree_ran(tree, s, id, t, Err::<BigRational, CalculatorFailure>(e));
                    match tree.maybe_result_var { Some(name) => {
                        if !(e is InputError) && !(kept(s, t) && s.db is Some) { let x = choose|x: BigRational| ev(tree.root, cx(s), Out::Ok(#[trigger] x@)) && put(Variable { name: name.value, value: x }, id, s, t, false); put_changes(Variable { name: name.value, value: x }, id, s, t, false); }
                    }, None => { } }
                },
            }
        }
    }
    // A line that is not a command changes no value but that of the variable it assigns.
    pub proof fn values_stay(line: Seq<char>, s: Sess, t: Sess, r: Result<String, CalculatorFailure>)
        requires line_ran(line, s, t, r), sound(s), s.vars is Some, !is_cmd(line), line.len() <= usize::MAX
        ensures t.vars is Some, forall|n: Seq<char>| #[trigger] held(t, n) == held(s, n) || evicted(s, t, n) || answers(r) && assigns_to(line, s.args.radix as int, n),
            r is Ok ==> forall|n: Seq<char>| #[trigger] assigns_to(line, s.args.radix as int, n) ==> exists|x: real| held(t, n) == Some(x) && (r->Ok_0)@ == #[trigger] printed(x, s.args)
    {
        let radix = s.args.radix as int;
        if entered(s, t, None) && fails(r) { enter_keeps(s, t, None); }
        else {
            let (s1, id, p) = choose|s1: Sess, id: Option<i64>, p: Result<ParsedInput, Positioned<ParseError>>| #[trigger] entered(s, s1, Some(id)) && #[trigger] parsed(line, s.args.radix as int, p) && acted(p, s1, id, t, r);
            enter_keeps(s, s1, Some(id));
            if p is Ok {
                let ts = (p->Ok_0)->Tokens_0@;
                assert(line_toks(line, radix, ts));
                if fails(r) && used(s1, t, Names::Toks(ts), id, false) { use_keeps(s1, t, Names::Toks(ts), id, false); }
                else {
                    let u = choose|u: Sess| #[trigger] used(s1, u, Names::Toks(ts), id, true) && computed(ts, u, id, t, r);
                    use_keeps(s1, u, Names::Toks(ts), id, true);
                    compute_changes(ts, u, id, t, r);
                    assert forall|n: Seq<char>| #[trigger] held(t, n) == held(s, n) || evicted(s, t, n) || answers(r) && assigns_to(line, radix, n) by {
                        assert(held(u, n) == held(s1, n)); assert(held(s1, n) == held(s, n) || evicted(s, s1, n));
                        assert(held(t, n) == held(u, n) || answers(r) && assigns(ts) && ts[0].value->Variable_0@ == n);
                    }
                    if r is Ok {
                        assert forall|n: Seq<char>| #[trigger] assigns_to(line, radix, n) implies exists|x: real| held(t, n) == Some(x) && (r->Ok_0)@ == #[trigger] printed(x, s.args) by {
                            let w = choose|w: Seq<Tk>| #[trigger] line_toks(line, radix, w) && assigns(w) && w[0].value->Variable_0@ == n;
                            one_reading(line, radix, w, ts);
                        }
                    }
                }
            }
        }
    }
    pub proof fn one_reading(line: Seq<char>, radix: int, a: Seq<Tk>, b: Seq<Tk>)
        requires line_toks(line, radix, a), line_toks(line, radix, b)
        ensures a == b
    { lex_unique(line, line.len() as int, radix, a, b); }
    // An error in how a line is written points into the line.
    pub proof fn misprint_located(line: Seq<char>, s: Sess, t: Sess, e: CalculatorFailure)
        requires line_ran(line, s, t, Err::<String, CalculatorFailure>(e)), e is InputError, !is_cmd(line), line.len() <= usize::MAX,
            forall|ts: Seq<Tk>| #[trigger] line_toks(line, s.args.radix as int, ts) ==> !whole(right_side(ts))
        ensures err_pos(e) is Some, in_line(err_pos(e)->0, line)
    {
        let r = Err::<String, CalculatorFailure>(e);
        let radix = s.args.radix as int;
        let (s1, id, p) = choose|s1: Sess, id: Option<i64>, p: Result<ParsedInput, Positioned<ParseError>>| #[trigger] entered(s, s1, Some(id)) && #[trigger] parsed(line, s.args.radix as int, p) && acted(p, s1, id, t, r);
        match p {
            Err(x) => { refused(line, radix, x); },
            Ok(_) => {
                let ts = (p->Ok_0)->Tokens_0@;
                assert(line_toks(line, radix, ts));
                lexed_in_order(line, line.len() as int, radix, ts);
                assert(toks_in(ts, 0, line.len() as int));
                if s1.vars is Some { let u = choose|u: Sess| #[trigger] used(s1, u, Names::Toks(ts), id, true) && computed(ts, u, id, t, r); assert(computed(ts, u, id, t, r)); }
                if ts.len() > 0 && right_side(ts).len() > 0 { assert(err_in(ts, err_pos(e)->0)); }
                else if ts.len() > 0 && !err_in(ts, err_pos(e)->0) { assert(pend(err_pos(e)->0) == 0); }
            },
        }
    }
}

items {
    pub proof fn ran_in_range(c: DynCommand, a: Arg, s: Sess, t: Sess, r: CmdOut)
        requires ran(c, a, s, t, r), in_range(s.args)
        ensures in_range(t.args), t.args.alternate_screen == s.args.alternate_screen, t.inputs == s.inputs, t.vars is Some == s.vars is Some, t.db is Some == s.db is Some
    { }
    // After any line the session is ready for the next one.
    pub proof fn ready_again(line: Seq<char>, s: Sess, t: Sess, r: Result<String, CalculatorFailure>)
        requires line_ran(line, s, t, r), sound(s), in_range(s.args), s.inputs is Some, line.len() <= usize::MAX
        ensures sound(t), in_range(t.args), t.args.alternate_screen == s.args.alternate_screen, t.inputs is Some, finished(s.inputs->0, t.inputs->0), t.vars is Some == s.vars is Some, t.db is Some == s.db is Some
    {
        if entered(s, t, None) && fails(r) { }
        else {
            let (s1, id, p) = choose|s1: Sess, id: Option<i64>, p: Result<ParsedInput, Positioned<ParseError>>| #[trigger] entered(s, s1, Some(id)) && #[trigger] parsed(line, s.args.radix as int, p) && acted(p, s1, id, t, r);
            enter_keeps(s, s1, Some(id));
            match p {
                Err(e) => { },
                Ok(ParsedInput::Command(c)) => {
                    let (u, o) = choose|u: Sess, o: CmdOut| #[trigger] command_ran(c.0, c.1, s1, u, o) && match o {
                        Err(e) => t == u && r == Err::<String, CalculatorFailure>(e),
                        Ok(m) => if u.vars is None { t == u && r == Ok::<String, CalculatorFailure>(m.0) }
                            else { used(u, t, Names::List(m.1@), id, r is Ok) && (r == Ok::<String, CalculatorFailure>(m.0) || fails(r)) },
                    };
                    command_sound(c.0, c.1, s1, u, o);
                    if known(meant(c.0.value@)) { let d = choose|d: DynCommand| #[trigger] called(d) == meant(c.0.value@) && ran(d, c.1, s1, u, o); ran_in_range(d, c.1, s1, u, o); }
                    match o { Ok(m) => { if u.vars is Some { use_keeps(u, t, Names::List(m.1@), id, r is Ok); } }, Err(e) => { } }
                },
                Ok(ParsedInput::Tokens(v)) => {
                    let ts = v@;
                    if s1.vars is None { compute_ready(ts, s1, id, t, r); }
                    else if fails(r) && used(s1, t, Names::Toks(ts), id, false) { use_keeps(s1, t, Names::Toks(ts), id, false); }
                    else {
                        let u = choose|u: Sess| #[trigger] used(s1, u, Names::Toks(ts), id, true) && computed(ts, u, id, t, r);
                        use_keeps(s1, u, Names::Toks(ts), id, true);
                        compute_ready(ts, u, id, t, r);
                    }
                },
            }
        }
    }
    pub proof fn compute_ready(ts: Seq<Tk>, s: Sess, id: Option<i64>, t: Sess, r: Result<String, CalculatorFailure>)
        requires computed(ts, s, id, t, r), sound(s)
        ensures sound(t), t.args == s.args, t.inputs == s.inputs, t.vars is Some == s.vars is Some, t.db is Some == s.db is Some
    { if s.vars is Some { compute_changes(ts, s, id, t, r); } }
}

items {
    use crate::crossterm::seen_width as was_wide; use crate::crossterm::event::Event as Ev; use crate::crossterm::event::KeyEvent as KeyEv; use crate::crossterm::event::KeyCode as KeyC;
    // ---- the line editor ----
    pub open spec fn db_of_session(o: Option<SavedData>) -> Option<(Db, Option<i64>)> { match o { Some(s) => Some((s.connection@, s.input_history_position)), None => None } }
    // The lines, where in the shown one the cursor is, and the saved lines.
    pub ghost struct Ed { pub lines: InputHistory, pub at: int, pub db: Option<(Db, Option<i64>)> }
    pub open spec fn text(e: Ed) -> Seq<char> { cur(e.lines) }
    pub open spec fn ed_ok(e: Ed) -> bool { ih_wf(e.lines) && 0 <= e.at <= text(e).len() && (e.db is Some ==> db_ok((e.db->0).0)) && (e.db is None ==> e.lines.db_history_exhausted) }
    pub open spec fn no_mods(k: KeyEv) -> bool { k.modifiers.bits == 0 }
    pub open spec fn only_shift(k: KeyEv) -> bool { k.modifiers.bits == 1 }
    pub open spec fn only_ctrl(k: KeyEv) -> bool { k.modifiers.bits == 2 }
    pub open spec fn typed(a: Ed, b: Ed, c: char) -> bool { b.db == a.db && others_same(a.lines, b.lines) && text(b) == text(a).insert(a.at, c) && b.at == a.at + 1 }
    pub open spec fn deleted(a: Ed, b: Ed, i: int) -> bool { b.db == a.db && others_same(a.lines, b.lines) && text(b) == text(a).remove(i) && b.at == i }
    pub open spec fn moved_to(a: Ed, b: Ed, i: int) -> bool { b == (Ed { at: i, ..a }) }
    // Open less closed parentheses in s[i..j].
    pub open spec fn opens(s: Seq<char>, i: int, j: int) -> int decreases j - i { if i >= j { 0 } else { opens(s, i, j - 1) + (if s[j - 1] == '(' { 1int } else if s[j - 1] == ')' { -1 } else { 0 }) } }
    pub proof fn opens_split(s: Seq<char>, i: int, m: int, j: int)
        requires i <= m <= j
        ensures opens(s, i, j) == opens(s, i, m) + opens(s, m, j)
        decreases j - m
    { if m < j { opens_split(s, i, m, j - 1); } }
    // Looking for the partner of the parenthesis at p, to the left or to the right, from p to q.
    pub open spec fn looked(s: Seq<char>, p: int, q: int, left: bool, n: int) -> bool {
        if left { 0 <= q <= p < s.len() && n <= p - q && n == -opens(s, q + 1, p + 1) && forall|k: int| q < k <= p ==> #[trigger] opens(s, k, p + 1) < 0 }
        else { 0 <= p <= q < s.len() && n <= q - p && n == opens(s, p, q) && forall|k: int| p < k <= q ==> #[trigger] opens(s, p, k) > 0 }
    }
    pub open spec fn count_on(s: Seq<char>, q: int, left: bool, n: int) -> int { n + (if s[q] == (if left { ')' } else { '(' }) { 1int } else if s[q] == (if left { '(' } else { ')' }) { -1 } else { 0 }) }
    pub proof fn look_on(s: Seq<char>, p: int, q: int, left: bool, n: int)
        requires looked(s, p, q, left, n), s[p] == (if left { ')' } else { '(' })
        ensures
            0 <= p < s.len(), 0 <= q < s.len(), n <= s.len(), (if q == p { n == 0 } else { n > 0 }),
            ({ let m = count_on(s, q, left, n);
                &&& m == 0 ==> partner(s, p, q)
                &&& m > 0 && left && q == 0 ==> !exists|k: int| partner(s, p, k)
                &&& m > 0 && !left && q == s.len() - 1 ==> !exists|k: int| partner(s, p, k)
                &&& m > 0 && left && q > 0 ==> looked(s, p, q - 1, left, m)
                &&& m > 0 && !left && q < s.len() - 1 ==> looked(s, p, q + 1, left, m) }),
    {
        if left { opens_split(s, q, q + 1, p + 1); } assert(opens(s, q, q + 1) == opens(s, q, q) + (if s[q] == '(' { 1int } else if s[q] == ')' { -1 } else { 0 }));
        if left {
            assert forall|k: int| q < k <= p implies #[trigger] opens(s, q, k) == opens(s, q, p + 1) - opens(s, k, p + 1) by { opens_split(s, q, k, p + 1); }
            if q == p { assert(opens(s, p, p + 1) == -1); } else { assert(opens(s, q + 1, p + 1) < 0); }
            assert(-opens(s, q, p + 1) == count_on(s, q, left, n));
        } else { if q == p { assert(opens(s, p, p) == 0); } else { assert(opens(s, p, q) > 0); } assert(opens(s, p, q + 1) == count_on(s, q, left, n)); }
        if left && q == 0 && opens(s, q, p + 1) < 0 { assert forall|k: int| !partner(s, p, k) by { if pair(s, k, p) { assert(opens(s, k, p + 1) < 0); } } }
        if !left && q == s.len() - 1 && opens(s, p, q + 1) > 0 { assert forall|k: int| !partner(s, p, k) by { if pair(s, p, k) { assert(opens(s, p, k + 1) > 0); } } }
    }
    pub proof fn no_partner(s: Seq<char>, p: int) ensures 0 <= p < s.len() && s[p] != '(' && s[p] != ')' ==> !exists|k: int| partner(s, p, k) { }
    pub proof fn prompt_gap() ensures ascii(crate::vstd_model::iter::times(" "@, 2)), crate::vstd_model::iter::times(" "@, 2).len() == 2 { reveal_strlit(" "); crate::vstd_model::iter::times_len(" "@, 2); }
    pub proof fn look_first(s: Seq<char>, p: int, left: bool) requires 0 <= p < s.len() ensures looked(s, p, p, left, 0) { }
    // The parenthesis at i is closed by the one at j.
    pub open spec fn pair(s: Seq<char>, i: int, j: int) -> bool { 0 <= i < j < s.len() && opens(s, i, j + 1) == 0 && (forall|k: int| i < k <= j ==> #[trigger] opens(s, i, k) > 0) }
    pub open spec fn under(e: Ed) -> int { imin(e.at, text(e).len() - 1) }
    pub open spec fn partner(s: Seq<char>, p: int, q: int) -> bool { s[p] == '(' && pair(s, p, q) || s[p] == ')' && pair(s, q, p) }
    pub open spec fn jumped(a: Ed, b: Ed) -> bool {
        let s = text(a); let p = under(a);
        moved_to(a, b, b.at) && if s.len() >= 2 && exists|q: int| partner(s, p, q) { partner(s, p, b.at) } else { b.at == a.at }
    }
    pub broadcast proof fn no_step(a: InputHistory, b: InputHistory, r: Result<bool, BoxError>) requires ih_wf(a), ih_wf(b), #[trigger] earlier(a, b, r), r == Ok::<bool, BoxError>(false) ensures cur(b) == cur(a) { assert(shown(b, a.current_index as int) == shown(a, a.current_index as int)); }
    pub broadcast proof fn still_out(a: InputHistory, b: InputHistory) requires #[trigger] others_same(a, b) ensures b.db_history_exhausted == a.db_history_exhausted { }
    // One line back, which may have to be read from an earlier session's.
    pub open spec fn went_up(a: Ed, b: Ed, moved: bool) -> bool {
        &&& b.lines.primary_internal_history@ == a.lines.primary_internal_history@ && earlier(a.lines, b.lines, Ok::<bool, BoxError>(moved)) && disk_of(a) == disk_of(b)
        &&& if a.lines.current_index < steps(a.lines) { moved && same_primary(a.lines, b.lines) && b.db == a.db }
            else if a.lines.db_history_exhausted { !moved && same_primary(a.lines, b.lines) && b.db == a.db }
            else { a.db is Some && b.db is Some && if moved {
                    b.lines.primary_db_history@.len() == a.lines.primary_db_history@.len() + 1 && b.lines.primary_db_history@.drop_last() == a.lines.primary_db_history@ && !b.lines.db_history_exhausted
                        && prev_read((a.db->0).0, (a.db->0).1, (b.db->0).1, Ok(Some(b.lines.primary_db_history@.last())))
                } else { b.lines.primary_db_history@ == a.lines.primary_db_history@ && b.lines.db_history_exhausted && prev_read((a.db->0).0, (a.db->0).1, (b.db->0).1, Ok(None)) } }
        &&& b.at == (if moved { text(b).len() as int } else { a.at })
    }
    pub open spec fn disk_of(e: Ed) -> Option<Db> { match e.db { Some(d) => Some(d.0), None => None } }
    pub open spec fn went_down(a: Ed, b: Ed, moved: bool) -> bool {
        &&& b.db == a.db && same_primary(a.lines, b.lines) && b.lines.current_history == a.lines.current_history && moved == (a.lines.current_index > 0)
        &&& b.lines.current_index == (if moved { a.lines.current_index - 1 } else { 0 }) && b.at == (if moved { text(b).len() as int } else { a.at })
    }
    pub open spec fn stride(k: KeyEv) -> int { if no_mods(k) { 1 } else if only_ctrl(k) || only_shift(k) { 15 } else { 0 } }
    pub open spec fn quits(k: KeyEv) -> bool { only_ctrl(k) && (k.code == KeyC::Char('c') || k.code == KeyC::Char('d') || k.code == KeyC::Char('z')) }
    // What each key does.
    pub open spec fn key_did(k: KeyEv, a: Ed, b: Ed) -> bool {
        match k.code {
            KeyC::Char(c) => if !ascii_c(c) { b == a } else if only_ctrl(k) && (c == 'm' || c == 'n') { jumped(a, b) } else if no_mods(k) { typed(a, b, c) } else if only_shift(k) { typed(a, b, up_c(c)) } else { b == a },
            KeyC::Backspace => if a.at == 0 { b == a } else { deleted(a, b, a.at - 1) },
            KeyC::Delete => if a.at == text(a).len() { b == a } else { deleted(a, b, a.at) },
            KeyC::Up => went_up(a, b, true) || went_up(a, b, false),
            KeyC::Down => went_down(a, b, true) || went_down(a, b, false),
            KeyC::Left => moved_to(a, b, imax(0, a.at - stride(k))),
            KeyC::Right => moved_to(a, b, imin(text(a).len() as int, a.at + stride(k))),
            KeyC::Home => moved_to(a, b, 0),
            KeyC::End => moved_to(a, b, text(a).len() as int),
            _ => b == a,
        }
    }
    pub open spec fn ends_line(e: Ev) -> bool { match e { Ev::Key(k) => k.code is Enter, _ => false } }
    pub open spec fn quits_ev(e: Ev) -> bool { match e { Ev::Key(k) => quits(k), _ => false } }
    pub open spec fn did(e: Ev, a: Ed, b: Ed) -> bool { match e { Ev::Key(k) => key_did(k, a, b), _ => b == a } }
    // What must hold when an event has been dealt with, when a line has been entered, and when the session ends.
    pub proof fn jump_done(a: Ed, b: Ed) requires moved_to(a, b, b.at), text(a).len() >= 2, partner(text(a), under(a), b.at) ensures jumped(a, b) { }
    pub proof fn key_done(e: Option<Ev>, a: Ed, b: Ed, entered: bool) requires e is Some, did(e->0, a, b), entered == ends_line(e->0), ed_ok(b) { }
    pub proof fn line_done(e: Option<Ev>) requires e is Some, ends_line(e->0) { }
    pub proof fn session_done(e: Option<Ev>) requires e is Some, quits_ev(e->0) { }
    // A line that was entered, and what came of it.
    pub ghost struct Ran { pub line: Seq<char>, pub s: Sess, pub t: Sess, pub r: Result<String, CalculatorFailure> }
    pub open spec fn ran_line(e: Ran, at: Ed) -> bool { line_ran(e.line, e.s, e.t, e.r) && e.s.inputs == Some(at.lines) && e.s.db == at.db && e.line == text(at) && e.s.vars is Some }
    // The window was once too narrow for the margins.
    pub open spec fn narrow(a: Args) -> bool { exists|w: u16| #[trigger] was_wide(w) && w <= (if a.alternate_screen { 2int } else { 4 }) }
}
constant "PROMPT_STR" { ensures PROMPT_STR@.len() == 2, ascii(PROMPT_STR@) }
constant "SCROLL_LEFT_INDICATOR_STR" { ensures SCROLL_LEFT_INDICATOR_STR@.len() == 2, ascii(SCROLL_LEFT_INDICATOR_STR@) }
constant "SCROLL_RIGHT_INDICATOR_STR" { ensures SCROLL_RIGHT_INDICATOR_STR@.len() == 2, ascii(SCROLL_RIGHT_INDICATOR_STR@) }
func "interactive_calc" { ret r; props { C05, C09, C15 }
  attr { #[verifier::exec_allows_no_decreases_clause] #[verifier::spinoff_prover] #[verifier::rlimit(100)] }
  spec { requires in_range(*old(args)), tk_wf(tokenizer), table_ok(command_executor), files_ok()
    ensures r is Err ==> outside(r->Err_0) || narrow(*final(args)) }
  literals;
  entry { hide(line_ran); hide(did); hide(ascii); hide(looked); hide(pair); hide(partner); hide(key_did); hide(cur); hide(db_ok); hide(opens); hide(prev_read); hide(ih_wf); hide(others_same); hide(tk_wf); hide(table_ok); hide(fresh); hide(earlier); broadcast use crate::vstd_model::axiom_blen, no_step, still_out;
    let ghost mut now: Ed; let ghost mut prev: Ed; let ghost mut last: Option<Ev> = None; let ghost mut ran: Option<Ran> = None; let ghost mut rounds: nat = 0; let ghost mut s0: Sess; }
  loop 0 { attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } spec { invariant in_range(*args), tk_wf(tokenizer), table_ok(command_executor), ih_wf(inputs), maybe_db is Some ==> db_ok((maybe_db->0).connection@), maybe_db is None ==> inputs.db_history_exhausted,
      fresh(inputs), rounds > 0 ==> ran is Some && ran_line(ran->0, now),
    }
    after { proof { session_done(last); } }
    start { rounds = rounds + 1; ran = None; now = Ed { lines: inputs, at: 0, db: db_of_session(maybe_db) }; } }
  loop 1 { attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } spec { invariant now == (Ed { lines: inputs, at: cursor_pos as int, db: db_of_session(maybe_db) }), ed_ok(now), in_range(*args), cols <= 65535, was_wide(cols as u16), scroll_offset <= isize::MAX, input_complete ==> last is Some && ends_line(last->0) }
    after { proof { line_done(last); } } }
  loop 2 { attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } spec { invariant current_index <= current_input@.len() decreases current_input@.len() - current_index } }
  loop 3 { attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } spec { invariant ed_ok(Ed { lines: inputs, at: cursor_pos as int, db: db_of_session(maybe_db) }), !input_complete, last is None ==> now == (Ed { lines: inputs, at: cursor_pos as int, db: db_of_session(maybe_db) }),
      last is Some ==> did(last->0, prev, Ed { lines: inputs, at: cursor_pos as int, db: db_of_session(maybe_db) }) && !ends_line(last->0),
      cols <= 65535, was_wide(cols as u16), scroll_offset <= isize::MAX,
    }
    before { proof { last = None; line_small(inputs); } }
    after { proof { now = Ed { lines: inputs, at: cursor_pos as int, db: db_of_session(maybe_db) }; reveal(did); match last->0 { Ev::Key(k) => match k.code { KeyC::Char(c) => if !ascii_c(c) { key_done(last, prev, now, input_complete); } else if only_ctrl(k) && (c == 'm' || c == 'n') { key_done(last, prev, now, input_complete); } else if no_mods(k) { key_done(last, prev, now, input_complete); } else if only_shift(k) { key_done(last, prev, now, input_complete); } else { key_done(last, prev, now, input_complete); }, KeyC::Left => { key_done(last, prev, now, input_complete); }, KeyC::Right => { key_done(last, prev, now, input_complete); }, KeyC::Up => { key_done(last, prev, now, input_complete); }, KeyC::Down => { key_done(last, prev, now, input_complete); }, KeyC::Backspace => { key_done(last, prev, now, input_complete); }, KeyC::Delete => { key_done(last, prev, now, input_complete); }, _ => { key_done(last, prev, now, input_complete); } }, _ => { key_done(last, prev, now, input_complete); } } } } }
  loop 4 { attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } spec { invariant scroll_offset <= isize::MAX, cursor_pos == c0, looked(current_input@, p0, pos as int, search_left, open_count as int) decreases (if search_left { pos as int } else { current_input@.len() - pos }) }
    before { let ghost p0 = pos as int; let ghost c0 = cursor_pos; proof { look_first(current_input@, p0, search_left); } }
    start { look_on(current_input@, p0, pos as int, search_left, open_count as int); } }
  loop 5 { iter it; attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } spec { invariant 0 <= it.idx() <= it.src().len() decreases it.src().len() - it.idx() } }
  scrutinee read { reveal(did); reveal(key_did); reveal(cur); line_small(inputs); prev = Ed { lines: inputs, at: cursor_pos as int, db: db_of_session(maybe_db) }; last = Some(__seen); }
  after_let current_input { axiom_str_small(current_input); }
  after_let wrap_str { prompt_gap(); }
  after_assign cursor_pos 0 { jump_done(prev, Ed { lines: inputs, at: cursor_pos as int, db: db_of_session(maybe_db) }); }
  after_let string_bytes { no_partner(current_input@, pos as int); }
  after_let input { axiom_string_small(input); }
  before_let output { s0 = Sess { args: *args, db: db_of_session(maybe_db), vars: Some(vars.vars@), inputs: Some(inputs) }; }
  scrutinee calculate { ran = Some(Ran { line: input@, s: s0, t: Sess { args: *args, db: db_of_session(maybe_db), vars: Some(vars.vars@), inputs: Some(inputs) }, r: __seen }); ready_again(input@, s0, ran->0.t, __seen); }
}
items {
    // One line given as an argument: what became of it is written out, or handed to the caller.
    pub open spec fn answered(r: Result<String, CalculatorFailure>) -> bool {
        match r { Ok(t) => crate::vstd_model::written(t@), Err(CalculatorFailure::InputError(m)) => crate::vstd_model::complained("Error: "@ + m.value@), Err(CalculatorFailure::RuntimeError(_)) => true }
    }
    pub proof fn line_answered(r: Result<String, CalculatorFailure>) requires answered(r) { }
}
func "main" { ret r; props { C05, C14 }
  spec { requires files_ok() }
  entry { hide(line_ran); hide(tk_wf); hide(table_ok); let ghost mut came: Result<String, CalculatorFailure> = arbitrary(); }
  literals;
  scrutinee calculate { came = __seen; }
  after_call calculate { line_answered(came); }
}
items {
    // ---- C07: what is printed, entered again ----
    // The unsigned text of a value, from its digits before and after the point.
    pub open spec fn digits_text(a: Seq<char>, b: Seq<char>) -> Seq<char> { if b.len() == 0 { a } else { a + seq!['.'] + b } }
    pub open spec fn digit_like(c: char, radix: int) -> bool { c == '.' || digit_val(c) < radix }
    proof fn digit_plain(c: char, radix: int)
        requires digit_like(c, radix), radix <= 16
        ensures ascii_c(c), !sep(c), !ws(c), c != '/', c != '_', c != '$', c != 's', c != 'm', op_tok(c) is None
    {}
    proof fn plain_same(w: Seq<char>)
        requires forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != '_'
        ensures plain(w) == w
        decreases w.len()
    {
        if w.len() > 0 {
            let u = w.drop_last();
            assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != '_' by { assert(u[i] == w[i]); }
            plain_same(u);
            assert(u.push(w.last()) =~= w);
        }
    }
    proof fn digits_word(a: Seq<char>, b: Seq<char>, radix: int)
        requires a.len() > 0, all_digits(a, radix), all_digits(b, radix), 2 <= radix <= 16
        ensures ({ let w = digits_text(a, b);
            w.len() > 0 && (forall|i: int| 0 <= i < w.len() ==> digit_like(#[trigger] w[i], radix)) && w[0] != '$' && name_tok(w) is None
                && num_ok(w, radix) && num_val(w, radix) == read_value(a, b, radix) })
    {
        let w = digits_text(a, b);
        assert(w[0] == a[0]);
        assert forall|i: int| 0 <= i < w.len() implies digit_like(#[trigger] w[i], radix) && w[i] != '_' && w[i] != 's' && w[i] != 'm' by {
            if i < a.len() { assert(w[i] == a[i]); } else if i > a.len() { assert(w[i] == b[i - a.len() - 1]); }
            digit_plain(w[i], radix);
        }
        digit_plain(w[0], radix);
        let (n1, n2, n3, n4) = (seq!['s', 'q', 'r', 't'], seq!['a', 'b', 's'], seq!['m', 'a', 'x'], seq!['m', 'i', 'n']);
        assert(n1[0] == 's' && n2[2] == 's' && n3[0] == 'm' && n4[0] == 'm');
        assert(w != n1 && w != n2 && w != n3 && w != n4);
        plain_same(w);
        if b.len() == 0 {
            assert(!pointed(w)) by { assert forall|k: int| !is_point(w, k) by { if 0 <= k < w.len() { assert(digit_val(a[k]) < radix); assert(w[k] != '.'); } } }
            assert(a + b =~= a);
        } else {
            let k = a.len() as int;
            assert forall|i: int| 0 <= i < k implies #[trigger] w[i] != '.' by { assert(w[i] == a[i]); assert(digit_val(a[i]) < radix); }
            assert(is_point(w, k));
            point_uniq(w, k);
            assert(w.take(k) =~= a);
            assert(w.skip(k + 1) =~= b);
        }
        let d = num_digits(w);
        assert(d == a + b);
        assert forall|i: int| 0 <= i < d.len() implies digit_val(#[trigger] d[i]) < radix by { if i < a.len() { assert(d[i] == a[i]); } else { assert(d[i] == b[i - a.len()]); } }
    }
    proof fn run_from(s: Seq<char>, b: int, n: int)
        requires 0 <= b < n <= s.len(), b == 0 || sep(s[b - 1]), forall|i: int| b <= i < n ==> !sep(#[trigger] s[i])
        ensures run_start(s, n) == b
        decreases n
    { if n > b + 1 { run_from(s, b, n - 1); } else { assert(!sep(s[n - 1])); assert(run_start(s, n - 1) == b); } }
    pub open spec fn one_number(t: Seq<Tk>, neg: bool, x: real) -> bool {
        if neg { t.len() == 2 && is_minus(t[0].value) && t[1].value is Number && t[1].value->Number_0@ == x } else { t.len() == 1 && t[0].value is Number && t[0].value->Number_0@ == x }
    }
    // The tokenizer reads the digits as one number, and a sign as a minus in front of it.
    proof fn digits_parsed(neg: bool, a: Seq<char>, b: Seq<char>, radix: int, r: Result<ParsedInput, Positioned<ParseError>>)
        requires a.len() > 0, all_digits(a, radix), all_digits(b, radix), 2 <= radix <= 16,
            parsed((if neg { seq!['-'] } else { Seq::empty() }) + digits_text(a, b), radix, r)
        ensures r is Ok, r->Ok_0 is Tokens, one_number(r->Ok_0->Tokens_0@, neg, read_value(a, b, radix))
    {
        let w = digits_text(a, b);
        let sg = if neg { seq!['-'] } else { Seq::<char>::empty() };
        let s = sg + w;
        let k = sg.len() as int; let n = s.len() as int;
        digits_word(a, b, radix);
        assert forall|i: int| 0 <= i < n implies ascii_c(#[trigger] s[i]) && !ws(s[i]) && s[i] != '/' && (i >= k ==> !sep(s[i])) by {
            if i >= k { assert(s[i] == w[i - k]); digit_plain(w[i - k], radix); } else { assert(s[i] == '-'); }
        }
        assert(ascii(s));
        assert(s.subrange(k, n) =~= w);
        if neg { assert(s[0] == '-'); }
        run_from(s, k, n);
        assert(!is_cmd(s)) by { assert(s.len() > 0); }
        match r {
            Ok(ParsedInput::Command(p)) => { assert(false); }
            Ok(ParsedInput::Tokens(v)) => {
                let t = v@;
                assert(!sep(s[n - 1]));
                reveal_with_fuel(lexed, 3);
                assert(lexed(s, n, radix, t));
                assert(word_is(w, radix, t.last().value));
                assert(lexed(s, k, radix, t.drop_last()));
                if neg {
                    assert(op_tok(s[0]) is Some && !ws(s[0]));
                    assert(t.drop_last().len() == 1);
                    assert(t.drop_last()[0] == t[0]);
                }
            }
            Err(e) => {
                let m = pend(e.position);
                assert(bad_run(s, radix, m));
                run_bounds(s, m);
                assert(m > k) by { if m <= k { assert(neg && m == 1); assert(sep(s[0])); } }
                assert(m == n) by { if m < n { assert(sep(s[m])); } }
                assert(false);
            }
        }
    }
    // One number, with or without a minus, is an expression, and worth that number.
    proof fn number_whole(t: Seq<Tk>, neg: bool, x: real)
        requires one_number(t, neg, x)
        ensures !assigns(t), right_side(t) == t, whole(t)
    {
        if neg {
            let u = t.skip(1);
            assert(u[0] == t[1] && u.skip(1).len() == 0);
            assert(item_rest(u) == Some(u.skip(1)));
            assert(opnd_rest(u) == Some(u.skip(1)));
            assert(opnd_rest(t) == Some(u.skip(1)));
            assert(expr_rest(t) == Some(u.skip(1)));
        } else {
            assert(t.skip(1).len() == 0);
            assert(item_rest(t) == Some(t.skip(1)));
            assert(opnd_rest(t) == Some(t.skip(1)));
            assert(expr_rest(t) == Some(t.skip(1)));
        }
    }
    proof fn number_worth(t: Seq<Tk>, neg: bool, x: real, n: SyntaxTreeNode, c: Ctx, o: Out)
        requires one_number(t, neg, x), reads(n, t, Seq::empty()), ev(n, c, o)
        ensures o == Out::Ok(if neg { 0real - x } else { x })
        decreases n
    {
        match n {
            SyntaxTreeNode::Number(b) => { assert(t[0].value == Token::Number(b.value)); }
            SyntaxTreeNode::Variable(b) => { assert(t[0].value == Token::Variable(b.name)); }
            SyntaxTreeNode::Function(b) => { assert(t[0].value == Token::Function(b.function_name)); }
            SyntaxTreeNode::Parenthesized(b) => { assert(t[0].value is OpenParen); }
            SyntaxTreeNode::Unary(b) => {
                assert(neg) by { if !neg { assert(t[0].value is Number); } }
                assert(b.operator == UnaryOperatorToken::Negate);
                let u = t.skip(1);
                assert(u[0] == t[1]);
                assert(one_number(u, false, x));
                let y = choose|y: Out| #[trigger] seen(y) && ev(b.operand, c, y) && (match y { Ok(v) => un_ok(b.operator, b.operator_position, v, c, o), Err(_) => o == y });
                assert(ev_un(*b, c, o));
                number_worth(u, false, x, b.operand, c, y);
            }
            SyntaxTreeNode::Binary(b) => {
                assert(reads_bin(*b, t, Seq::empty()));
                let u = choose|u: Seq<Tk>| #[trigger] cut(u) && reads(b.operand_1, t, u) && u.len() > 0 && u[0] == tk(Token::BinaryOperator(b.operator), b.operator_position) && reads(b.operand_2, u.skip(1), Seq::empty());
                reads_suf(b.operand_1, t, u);
                reads_suf(b.operand_2, u.skip(1), Seq::empty());
                assert(u.len() >= 2);
                assert(false);
            }
        }
    }
    // The answer to one number is that number.
    proof fn number_answers(ts: Seq<Tk>, neg: bool, x0: real, u: Sess, id: Option<i64>, t: Sess, r: Result<String, CalculatorFailure>)
        requires one_number(ts, neg, x0), computed(ts, u, id, t, r), !fails(r)
        ensures r is Ok, (r->Ok_0)@ == printed(if neg { 0real - x0 } else { x0 }, u.args)
    {
        hide(ev); hide(reads); hide(printed); hide(whole);
        number_whole(ts, neg, x0);
        let tree = choose|tree: SyntaxTree| #[trigger] tree_of(tree, ts) && match r {
            Ok(text) => exists|y: BigRational| text@ == printed(#[trigger] y@, u.args) && tree_ran(tree, u, id, t, Ok::<BigRational, CalculatorFailure>(y)),
            Err(e) => tree_ran(tree, u, id, t, Err::<BigRational, CalculatorFailure>(e)),
        };
        assert(tree.maybe_result_var is None);
        match r {
            Ok(text) => {
                let y = choose|y: BigRational| text@ == printed(#[trigger] y@, u.args) && tree_ran(tree, u, id, t, Ok::<BigRational, CalculatorFailure>(y));
                number_worth(ts, neg, x0, tree.root, cx(u), Out::Ok(y@));
            }
            Err(e) => { number_worth(ts, neg, x0, tree.root, cx(u), out_of(Err::<BigRational, CalculatorFailure>(e))); }
        }
    }
    // A line that was printed, at any precision, entered again in its radix: it fails for reasons of the file, or it is worth what was printed.
    pub proof fn read_again(v: real, p: int, upper: bool, line: Seq<char>, s: Sess, t: Sess, r: Result<String, CalculatorFailure>)
        requires in_range(s.args), line_ran(line, s, t, r),
            p >= 0, line == dec_text(v, s.args.radix as int, p, false, upper)
        ensures fails(r) || r is Ok && reread((r->Ok_0)@, v, p, s.args)
    {
        hide(computed); hide(lexed); hide(printed); hide(frac_text); hide(int_part);
        let radix = s.args.radix as int;
        let a = int_part(v, radix, p, upper); let b = frac_text(v, radix, p, upper);
        let neg = v < 0real;
        let x0 = read_value(a, b, radix);
        let x = if neg { 0real - x0 } else { x0 };
        digits_printed(v, radix, p, upper);
        reads_back(v, radix, p, upper);
        assert(line =~= (if neg { seq!['-'] } else { Seq::empty() }) + digits_text(a, b));
        assert(worth_again(x, v, radix, p));
        if !fails(r) {
            let (s1, id, q) = choose|s1: Sess, id: Option<i64>, q: Result<ParsedInput, Positioned<ParseError>>| #[trigger] entered(s, s1, Some(id)) && #[trigger] parsed(line, s.args.radix as int, q) && acted(q, s1, id, t, r);
            digits_parsed(neg, a, b, radix, q);
            let ts = q->Ok_0->Tokens_0@;
            assert(evaluated(ts, s1, id, t, r));
            let u = if s1.vars is None { s1 } else { choose|u: Sess| #[trigger] used(s1, u, Names::Toks(ts), id, true) && computed(ts, u, id, t, r) };
            assert(computed(ts, u, id, t, r) && u.args == s.args);
            number_whole(ts, neg, x0);
            number_answers(ts, neg, x0, u, id, t, r);
            assert(r is Ok && (r->Ok_0)@ == printed(x, u.args));
            assert(worth_again(x, v, s.args.radix as int, p) && (r->Ok_0)@ == printed(x, s.args));
        }
    }
    pub open spec fn reread(text: Seq<char>, v: real, p: int, a: Args) -> bool { exists|x: real| #[trigger] worth_again(x, v, a.radix as int, p) && text == printed(x, a) }
    pub open spec fn worth_again(x: real, v: real, radix: int, p: int) -> bool {
        (is_int(scaled(v, radix, p)) ==> x == v) && rabs(x - v) * (2real * (scale(radix, p) as real)) <= 1real
    }
}
