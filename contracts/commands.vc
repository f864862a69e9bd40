opts { ufcs; }
undyn { Command }

items {
    // ---- the commands and their names ----
    pub open spec fn called(c: DynCommand) -> Seq<char> {
        match c {
            DynCommand::HelpCommand(_) => "help"@,
            DynCommand::ReloadVarCommand(_) => "reloadvar"@,
            DynCommand::PurgeVarCommand(_) => "purgevar"@,
            DynCommand::HistoryCapacityCommand(_) => "histcap"@,
            DynCommand::FractionalCommand(_) => "fractional"@,
            DynCommand::RadixCommand(_) => "radix"@,
            DynCommand::ConvertToRadixCommand(_) => "converttoradix"@,
            DynCommand::UpperCommand(_) => "upper"@,
            DynCommand::CommaCommand(_) => "commas"@,
            DynCommand::PrecisionCommand(_) => "precision"@,
        }
    }
    pub open spec fn also(c: DynCommand) -> Seq<Seq<char>> {
        match c {
            DynCommand::HelpCommand(_) => seq!["h"@],
            DynCommand::FractionalCommand(_) => seq!["f"@],
            DynCommand::RadixCommand(_) => seq!["r"@],
            DynCommand::CommaCommand(_) => seq!["comma"@],
            DynCommand::PrecisionCommand(_) => seq!["p"@],
            _ => Seq::empty(),
        }
    }
    pub open spec fn made(f: COMMAND_CONSTRUCTORSFn, c: DynCommand) -> bool {
        match f {
            COMMAND_CONSTRUCTORSFn::HelpCommand_new => c is HelpCommand,
            COMMAND_CONSTRUCTORSFn::ReloadVarCommand_new => c is ReloadVarCommand,
            COMMAND_CONSTRUCTORSFn::PurgeVarCommand_new => c is PurgeVarCommand,
            COMMAND_CONSTRUCTORSFn::HistoryCapacityCommand_new => c is HistoryCapacityCommand,
            COMMAND_CONSTRUCTORSFn::FractionalCommand_new => c is FractionalCommand,
            COMMAND_CONSTRUCTORSFn::RadixCommand_new => c is RadixCommand,
            COMMAND_CONSTRUCTORSFn::ConvertToRadixCommand_new => c is ConvertToRadixCommand,
            COMMAND_CONSTRUCTORSFn::UpperCommand_new => c is UpperCommand,
            COMMAND_CONSTRUCTORSFn::CommaCommand_new => c is CommaCommand,
            COMMAND_CONSTRUCTORSFn::PrecisionCommand_new => c is PrecisionCommand,
        }
    }
    pub open spec fn fname(f: COMMAND_CONSTRUCTORSFn) -> Seq<char> {
        match f {
            COMMAND_CONSTRUCTORSFn::HelpCommand_new => "help"@,
            COMMAND_CONSTRUCTORSFn::ReloadVarCommand_new => "reloadvar"@,
            COMMAND_CONSTRUCTORSFn::PurgeVarCommand_new => "purgevar"@,
            COMMAND_CONSTRUCTORSFn::HistoryCapacityCommand_new => "histcap"@,
            COMMAND_CONSTRUCTORSFn::FractionalCommand_new => "fractional"@,
            COMMAND_CONSTRUCTORSFn::RadixCommand_new => "radix"@,
            COMMAND_CONSTRUCTORSFn::ConvertToRadixCommand_new => "converttoradix"@,
            COMMAND_CONSTRUCTORSFn::UpperCommand_new => "upper"@,
            COMMAND_CONSTRUCTORSFn::CommaCommand_new => "commas"@,
            COMMAND_CONSTRUCTORSFn::PrecisionCommand_new => "precision"@,
        }
    }
    // What a command may be called besides its name.
    pub open spec fn alias_for(n: Seq<char>) -> Option<Seq<char>> {
        if n == "h"@ { Some("help"@) } else if n == "f"@ { Some("fractional"@) } else if n == "r"@ { Some("radix"@) } else if n == "comma"@ { Some("commas"@) } else if n == "p"@ { Some("precision"@) } else { None }
    }
    pub open spec fn known(n: Seq<char>) -> bool { n == "help"@ || n == "reloadvar"@ || n == "purgevar"@ || n == "histcap"@ || n == "fractional"@ || n == "radix"@ || n == "converttoradix"@ || n == "upper"@ || n == "commas"@ || n == "precision"@ }
    // Every name stands for its command, every alias for its name, and there are no others.
    pub open spec fn names_ok(m: Map<Seq<char>, DynCommand>) -> bool {
        forall|n: Seq<char>| (#[trigger] m.contains_key(n) <==> known(n)) && (m.contains_key(n) ==> called(m[n]) == n)
    }
    pub open spec fn aliases_ok(m: Map<Seq<char>, String>) -> bool {
        forall|n: Seq<char>| (#[trigger] m.contains_key(n) <==> alias_for(n) is Some) && (m.contains_key(n) ==> alias_for(n) == Some(m[n]@))
    }
    pub open spec fn table_ok(e: CommandExecutor) -> bool { names_ok(e.command_map@) && aliases_ok(e.alias_map@) }
    pub open spec fn meant(n: Seq<char>) -> Seq<char> { match alias_for(n) { Some(m) => m, None => n } }
    pub open spec fn same_text(v: Seq<&str>, w: Seq<Seq<char>>) -> bool { v.len() == w.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i])@ == w[i] }
    // Every command is in the list, once.
    pub open spec fn all_made(s: Seq<COMMAND_CONSTRUCTORSFn>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j]
        &&& forall|f: COMMAND_CONSTRUCTORSFn| #[trigger] made_at(s, f)
    }
    pub open spec fn made_at(s: Seq<COMMAND_CONSTRUCTORSFn>, f: COMMAND_CONSTRUCTORSFn) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == f }
    pub open spec fn all_refs(s: Seq<&COMMAND_CONSTRUCTORSFn>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
        &&& forall|f: COMMAND_CONSTRUCTORSFn| some_name(s, s.len() as int, #[trigger] fname(f))
    }
    pub open spec fn some_name(s: Seq<&COMMAND_CONSTRUCTORSFn>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && fname(*#[trigger] s[i]) == n }
    pub open spec fn some_alias(s: Seq<&COMMAND_CONSTRUCTORSFn>, k: int, n: Seq<char>) -> bool { alias_for(n) is Some && some_name(s, k, alias_for(n)->0) }
    pub open spec fn some_text(s: Seq<Seq<char>>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && #[trigger] s[i] == n }
    pub open spec fn name_of(n: Seq<char>) -> COMMAND_CONSTRUCTORSFn { choose|f: COMMAND_CONSTRUCTORSFn| fname(f) == n }
    pub proof fn known_named(n: Seq<char>)
        requires known(n) ensures fname(name_of(n)) == n
    {
        assert(fname(COMMAND_CONSTRUCTORSFn::HelpCommand_new) == "help"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::ReloadVarCommand_new) == "reloadvar"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::PurgeVarCommand_new) == "purgevar"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::HistoryCapacityCommand_new) == "histcap"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::FractionalCommand_new) == "fractional"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::RadixCommand_new) == "radix"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::ConvertToRadixCommand_new) == "converttoradix"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::UpperCommand_new) == "upper"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::CommaCommand_new) == "commas"@);
        assert(fname(COMMAND_CONSTRUCTORSFn::PrecisionCommand_new) == "precision"@);
    }
    // ---- a session's state ----
    pub ghost struct Sess { pub args: Args, pub db: Option<(Db, Option<i64>)>, pub vars: Option<Map<Seq<char>, BigRational>>, pub inputs: Option<InputHistory> }
    pub open spec fn db_now(m: Option<&mut SavedData>) -> Option<(Db, Option<i64>)> { match m { Some(d) => Some(((*d).connection@, (*d).input_history_position)), None => None } }
    #[verifier::prophetic]
    pub open spec fn db_then(m: Option<&mut SavedData>) -> Option<(Db, Option<i64>)> { match m { Some(d) => Some(((*final(d)).connection@, (*final(d)).input_history_position)), None => None } }
    pub open spec fn vars_now(m: Option<&mut VariableStore>) -> Option<Map<Seq<char>, BigRational>> { match m { Some(d) => Some((*d).vars@), None => None } }
    #[verifier::prophetic]
    pub open spec fn vars_then(m: Option<&mut VariableStore>) -> Option<Map<Seq<char>, BigRational>> { match m { Some(d) => Some((*final(d)).vars@), None => None } }
    pub open spec fn inputs_now(m: Option<&mut InputHistory>) -> Option<InputHistory> { match m { Some(d) => Some(*d), None => None } }
    #[verifier::prophetic]
    pub open spec fn inputs_then(m: Option<&mut InputHistory>) -> Option<InputHistory> { match m { Some(d) => Some(*final(d)), None => None } }
    pub open spec fn before(d: DataForCommands) -> Sess { Sess { args: *d.args, db: db_now(d.maybe_db), vars: vars_now(d.maybe_vars), inputs: inputs_now(d.maybe_inputs) } }
    #[verifier::prophetic]
    pub open spec fn after(d: DataForCommands) -> Sess { Sess { args: *final(d.args), db: db_then(d.maybe_db), vars: vars_then(d.maybe_vars), inputs: inputs_then(d.maybe_inputs) } }
    pub type CmdOut = Result<(String, Vec<String>), CalculatorFailure>;
    pub type Arg = Positioned<String>;
    pub open spec fn says(r: CmdOut, text: Seq<char>) -> bool { r is Ok && (r->Ok_0).0@ == text && (r->Ok_0).1@.len() == 0 }
    pub open spec fn set(s: Sess, a: Args) -> Sess { Sess { args: a, ..s } }
    pub open spec fn data_ok(c: DataForCommands) -> bool { tk_wf(*c.tokenizer) && names_ok(c.command_map@) && aliases_ok(c.alias_map@) && db_in(c.maybe_db) }
    pub open spec fn arg_ok(a: Arg) -> bool { ascii(a.value@) && a.position.start + a.value@.len() <= usize::MAX }
    // ---- what the commands do ----
    // What is not the user's doing comes from outside: the database, the disk.
    pub open spec fn only_outside(e: CalculatorFailure) -> bool { e is RuntimeError ==> outside(e->RuntimeError_0) }
    pub open spec fn no_such(n: Seq<char>) -> Seq<char> { "No such command: '"@ + n + "'"@ }
    pub open spec fn refuses(r: CmdOut, s: Sess, t: Sess) -> bool { r is Err && t == s }
    // On or off.
    pub open spec fn flag(w: Seq<char>) -> Option<bool> { if w == "f"@ || w == "false"@ { Some(false) } else if w == "t"@ || w == "true"@ { Some(true) } else { None } }
    pub open spec fn flag_ran(a: Arg, cur: bool, on: Args, off: Args, s: Sess, t: Sess, r: CmdOut) -> bool {
        let w = trimmed(lower(a.value@));
        if w.len() == 0 { says(r, bool_text(cur)) && t == s }
        else { match flag(w) { Some(b) => says(r, "Done"@) && t == set(s, if b { on } else { off }), None => r is Err && input_err_of(r->Err_0, "Invalid argument"@, Some(a.position)) && t == s } }
    }
    // The whole numbers given.
    pub open spec fn vals(v: Seq<Positioned<i64>>) -> Seq<i64> { v.map_values(|x: Positioned<i64>| x.value) }
    pub open spec fn ints_in(s: Seq<char>, t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>) -> bool { !is_cmd(s) && ascii(s) && lexed(s, s.len() as int, 10, t) && ints_of(t, v) }
    pub open spec fn given(s: Seq<char>, n: Seq<i64>) -> bool { exists|t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>| #[trigger] ints_in(s, t, v) && vals(v) == n }
    pub open spec fn not_ints(s: Seq<char>) -> bool { is_cmd(s) || no_ints(s, 10) }
    pub open spec fn near(r: CmdOut, a: Arg) -> bool { r is Err && r->Err_0 is InputError && match err_pos(r->Err_0) { Some(p) => in_line(p, a.value@), None => false } }
    pub open spec fn wrong(a: Arg, s: Sess, t: Sess, r: CmdOut, bad: spec_fn(Seq<i64>) -> bool) -> bool {
        near(r, a) && t == s && (not_ints(a.value@) || exists|n: Seq<i64>| #[trigger] given(a.value@, n) && bad(n))
    }
    pub open spec fn a_radix(x: i64) -> bool { 2 <= x <= 16 }
    pub open spec fn radix_ran(a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        if r is Err { wrong(a, s, t, r, |n: Seq<i64>| n.len() > 1 || n.len() == 1 && !a_radix(n[0])) }
        else { exists|n: Seq<i64>| #[trigger] given(a.value@, n) && (n.len() == 0 && says(r, u8_text(s.args.radix)) && t == s
            || n.len() == 1 && a_radix(n[0]) && says(r, "Done"@) && t == set(s, Args { radix: n[0] as u8, ..s.args })) }
    }
    pub open spec fn out_radix_text(o: Option<u8>) -> Seq<char> { match o { Some(x) => u8_text(x), None => "None"@ } }
    pub open spec fn convert_ran(a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        if trimmed(lower(a.value@)) == "none"@ { says(r, "Done"@) && t == set(s, Args { convert_to_radix: None, ..s.args }) }
        else if r is Err { wrong(a, s, t, r, |n: Seq<i64>| n.len() > 1 || n.len() == 1 && !a_radix(n[0])) }
        else { exists|n: Seq<i64>| #[trigger] given(a.value@, n) && (n.len() == 0 && says(r, out_radix_text(s.args.convert_to_radix)) && t == s
            || n.len() == 1 && a_radix(n[0]) && says(r, "Done"@) && t == set(s, Args { convert_to_radix: Some(n[0] as u8), ..s.args })) }
    }
    pub open spec fn prec_text(s: Args) -> Seq<char> { "Precision = "@ + u8_text(s.precision) + "\nExtra Precision = "@ + u8_text(s.extra_precision) }
    pub open spec fn extra_of(n: Seq<i64>, s: Sess) -> int { if n.len() == 2 { n[1] as int } else { s.args.extra_precision as int } }
    pub open spec fn precs_ok(n: Seq<i64>, s: Sess) -> bool { 0 <= n[0] && 0 <= extra_of(n, s) && n[0] + extra_of(n, s) <= 255 }
    pub open spec fn precision_ran(a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        if r is Err { wrong(a, s, t, r, |n: Seq<i64>| n.len() > 2 || n.len() > 0 && !precs_ok(n, s)) }
        else { exists|n: Seq<i64>| #[trigger] given(a.value@, n) && (n.len() == 0 && says(r, prec_text(s.args)) && t == s
            || 1 <= n.len() <= 2 && precs_ok(n, s) && says(r, "Done"@) && t == set(s, Args { precision: n[0] as u8, extra_precision: extra_of(n, s) as u8, ..s.args })) }
    }
    pub open spec fn only_db(s: Sess, d: Db) -> Sess { Sess { db: Some((d, (s.db->0).1)), ..s } }
    pub open spec fn recapped(d: Db, d1: Db, size: int) -> bool {
        cap(d1) == size && db_ok(d1) && forall|o: Seq<int>| #[trigger] is_list(d, o) ==> kept(resized(d, size), o, d1, imax(0, o.len() - size))
    }
    pub open spec fn histcap_ran(a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        match r {
            Err(e) => t == s && only_outside(e) && (e is InputError ==> not_ints(a.value@) || s.db is None || exists|n: Seq<i64>| #[trigger] given(a.value@, n) && (n.len() > 1 || n.len() == 1 && n[0] < 1)),
            Ok(_) => s.db is Some && exists|n: Seq<i64>| #[trigger] given(a.value@, n) && (n.len() == 0 && (exists|c: i64| says(r, #[trigger] i64_text(c)) && c == cap((s.db->0).0)) && t == s
                || n.len() == 1 && n[0] >= 1 && says(r, "Done"@) && t.db is Some && t == only_db(s, (t.db->0).0) && recapped((s.db->0).0, (t.db->0).0, n[0] as int)),
        }
    }
    // The names given.
    pub open spec fn vars_in(s: Seq<char>, t: Seq<Positioned<Token>>) -> bool { !is_cmd(s) && ascii(s) && lexed(s, s.len() as int, 10, t) && all_vars(t) }
    pub open spec fn named(t: Seq<Positioned<Token>>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).value is Variable && t[i].value->Variable_0@ == n }
    pub open spec fn same_at(m: Map<Seq<char>, BigRational>, m1: Map<Seq<char>, BigRational>, n: Seq<char>) -> bool { m.contains_key(n) == m1.contains_key(n) && (m.contains_key(n) ==> m1[n] == m[n]) }
    pub open spec fn read_at(d: Db, m1: Map<Seq<char>, BigRational>, n: Seq<char>) -> bool { d.vars.contains_key(n) && m1.contains_key(n) && row_of(m1[n]@, d.vars[n]) }
    pub open spec fn not_vars(s: Seq<char>) -> bool { is_cmd(s) || !ascii(s) || forall|t: Seq<Positioned<Token>>| #[trigger] lexed(s, s.len() as int, 10, t) ==> !all_vars(t) }
    // Every name given then has its stored value, if one is stored; nothing else changes. A failing database may leave some as they were.
    pub open spec fn reload_ran(a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        match r {
            Err(e) => if e is InputError { t == s && (not_vars(a.value@) || s.db is None || s.vars is None) }
                else { only_outside(e) && s.db is Some && s.vars is Some && t.vars is Some && t == (Sess { vars: t.vars, ..s })
                    && exists|k: Seq<Positioned<Token>>| #[trigger] vars_in(a.value@, k) && forall|n: Seq<char>| #[trigger] same_at(s.vars->0, t.vars->0, n) || named(k, n) && read_at((s.db->0).0, t.vars->0, n) },
            Ok(o) => s.db is Some && s.vars is Some && t.vars is Some && t == (Sess { vars: t.vars, ..s }) && exists|k: Seq<Positioned<Token>>| #[trigger] vars_in(a.value@, k) && reload_done(k, (s.db->0).0, s.vars->0, t.vars->0, o.1@),
        }
    }
    pub open spec fn listed(v: Seq<String>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == n }
    pub open spec fn reload_done(k: Seq<Positioned<Token>>, d: Db, m: Map<Seq<char>, BigRational>, m1: Map<Seq<char>, BigRational>, used: Seq<String>) -> bool {
        forall|n: Seq<char>| #![trigger named(k, n)] #![trigger m1.contains_key(n)] (if named(k, n) && d.vars.contains_key(n) { read_at(d, m1, n) } else { same_at(m, m1, n) }) && (listed(used, n) <==> named(k, n))
    }
    // Every name given is then unset, here and on disk; nothing else changes. A failing database may leave some as they were on disk.
    pub open spec fn purge_ran(a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        match r {
            Err(e) => if e is InputError { t == s && (not_vars(a.value@) || s.vars is None) } else { only_outside(e) && purge_rest(a, s, t) },
            Ok(o) => says(r, "Done"@) && s.vars is Some && t.vars is Some && (s.db is Some ==> t.db is Some) && t == (Sess { vars: t.vars, db: if s.db is Some { Some(((t.db->0).0, (s.db->0).1)) } else { None }, ..s })
                && exists|k: Seq<Positioned<Token>>| #[trigger] vars_in(a.value@, k) && gone(k, s.vars->0, t.vars->0) && (s.db is Some ==> (t.db->0).0 == (Db { vars: (t.db->0).0.vars, ..(s.db->0).0 }) && gone_rows(k, (s.db->0).0.vars, (t.db->0).0.vars)),
        }
    }
    pub open spec fn purge_rest(a: Arg, s: Sess, t: Sess) -> bool {
        &&& s.vars is Some && t.vars is Some && s.db is Some && t.db is Some
        &&& t == (Sess { vars: t.vars, db: Some(((t.db->0).0, (s.db->0).1)), ..s }) && (t.db->0).0 == (Db { vars: (t.db->0).0.vars, ..(s.db->0).0 })
        &&& exists|k: Seq<Positioned<Token>>| #[trigger] vars_in(a.value@, k) && some_gone(k, s.vars->0, t.vars->0) && some_rows_gone(k, (s.db->0).0.vars, (t.db->0).0.vars)
    }
    pub open spec fn gone(k: Seq<Positioned<Token>>, m: Map<Seq<char>, BigRational>, m1: Map<Seq<char>, BigRational>) -> bool { forall|n: Seq<char>| #![trigger named(k, n)] #![trigger m1.contains_key(n)] if named(k, n) { !m1.contains_key(n) } else { same_at(m, m1, n) } }
    pub open spec fn gone_rows(k: Seq<Positioned<Token>>, m: Map<Seq<char>, VarRow>, m1: Map<Seq<char>, VarRow>) -> bool { forall|n: Seq<char>| #![trigger named(k, n)] #![trigger m1.contains_key(n)] if named(k, n) { !m1.contains_key(n) } else { same_row(m, m1, n) } }
    pub open spec fn same_row(m: Map<Seq<char>, VarRow>, m1: Map<Seq<char>, VarRow>, n: Seq<char>) -> bool { m.contains_key(n) == m1.contains_key(n) && (m.contains_key(n) ==> m1[n] == m[n]) }
    pub open spec fn some_gone(k: Seq<Positioned<Token>>, m: Map<Seq<char>, BigRational>, m1: Map<Seq<char>, BigRational>) -> bool { forall|n: Seq<char>| #[trigger] same_at(m, m1, n) || named(k, n) && !m1.contains_key(n) }
    pub open spec fn some_rows_gone(k: Seq<Positioned<Token>>, m: Map<Seq<char>, VarRow>, m1: Map<Seq<char>, VarRow>) -> bool { forall|n: Seq<char>| #[trigger] same_row(m, m1, n) || named(k, n) && !m1.contains_key(n) }
    // Help for one command is about that command; help without one lists them all.
    pub open spec fn about(text: Seq<char>, n: Seq<char>) -> bool { let p = "Usage: /"@ + n; p.len() <= text.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] text[i] == p[i] }
    pub open spec fn lists(text: Seq<char>, n: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>, w: int| text == #[trigger] listing(a, n, w, b) }
    pub open spec fn listing(a: Seq<char>, n: Seq<char>, w: int, b: Seq<char>) -> Seq<char> { a + ("\n  "@ + pad_right(n, ' ', w) + " "@) + b }
    pub open spec fn help_ran(a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        t == s && exists|i: int, j: int| #[trigger] is_trim(a.value@, i, j) && ({
            let n = a.value@.subrange(i, j);
            if i == j { r is Ok && (r->Ok_0).1@.len() == 0 && forall|c: Seq<char>| #[trigger] known(c) ==> lists((r->Ok_0).0@, c) }
            else if known(meant(n)) { r is Ok && (r->Ok_0).1@.len() == 0 && about((r->Ok_0).0@, meant(n)) }
            else { r is Err && err_text(r->Err_0) == no_such(n) && err_pos(r->Err_0) == Some(Position { start: (a.position.start + i) as usize, width: (j - i) as usize }) }
        })
    }
    pub open spec fn ran(c: DynCommand, a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        match c {
            DynCommand::HelpCommand(_) => help_ran(a, s, t, r),
            DynCommand::ReloadVarCommand(_) => reload_ran(a, s, t, r),
            DynCommand::PurgeVarCommand(_) => purge_ran(a, s, t, r),
            DynCommand::HistoryCapacityCommand(_) => histcap_ran(a, s, t, r),
            DynCommand::FractionalCommand(_) => flag_ran(a, s.args.fractional, Args { fractional: true, ..s.args }, Args { fractional: false, ..s.args }, s, t, r),
            DynCommand::RadixCommand(_) => radix_ran(a, s, t, r),
            DynCommand::ConvertToRadixCommand(_) => convert_ran(a, s, t, r),
            DynCommand::UpperCommand(_) => flag_ran(a, s.args.upper, Args { upper: true, ..s.args }, Args { upper: false, ..s.args }, s, t, r),
            DynCommand::CommaCommand(_) => flag_ran(a, s.args.commas, Args { commas: true, ..s.args }, Args { commas: false, ..s.args }, s, t, r),
            DynCommand::PrecisionCommand(_) => precision_ran(a, s, t, r),
        }
    }
    pub proof fn same_elems(a: Seq<String>, b: Seq<String>)
        requires a.to_multiset() == b.to_multiset()
        ensures forall|n: Seq<char>| listed(a, n) == #[trigger] listed(b, n)
    {
        a.to_multiset_ensures(); b.to_multiset_ensures();
        assert forall|n: Seq<char>| listed(a, n) == #[trigger] listed(b, n) by {
            if listed(a, n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n; assert(a.contains(a[i])); assert(a.to_multiset().count(a[i]) > 0); assert(b.to_multiset().count(a[i]) > 0); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j]@ == n); }
            if listed(b, n) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i])@ == n; assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j]@ == n); }
        }
    }
    pub proof fn lists_more(text: Seq<char>, more: Seq<char>)
        ensures forall|n: Seq<char>| lists(text, n) ==> #[trigger] lists(text + more, n)
    {
        assert forall|n: Seq<char>| lists(text, n) implies #[trigger] lists(text + more, n) by {
            let (a, b, w) = choose|a: Seq<char>, b: Seq<char>, w: int| text == #[trigger] listing(a, n, w, b);
            assert(text + more =~= listing(a, n, w, b + more));
        }
    }
    pub proof fn lists_one(text: Seq<char>, n: Seq<char>, w: int, line: Seq<char>, more: Seq<char>)
        requires line == "\n  "@ + pad_right(n, ' ', w) + " "@
        ensures lists(text + line + more, n), forall|m: Seq<char>| lists(text, m) ==> #[trigger] lists(text + line + more, m)
    {
        lists_more(text, line); lists_more(text + line, more);
        assert(text + line + more == listing(text, n, w, more));
    }
    pub proof fn listed_push(u: Seq<String>, x: String)
        ensures forall|n: Seq<char>| #[trigger] listed(u.push(x), n) <==> listed(u, n) || n == x@
    {
        assert forall|n: Seq<char>| #[trigger] listed(u.push(x), n) <==> listed(u, n) || n == x@ by {
            if listed(u, n) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i])@ == n; assert(u.push(x)[i]@ == n); }
            if n == x@ { assert(u.push(x)[u.len() as int]@ == n); }
        }
    }
    // The names in a list, as a set.
    pub open spec fn toks_set(t: Seq<Positioned<Token>>, s: Set<(Seq<char>, Position)>) -> bool {
        &&& forall|n: Seq<char>, p: Position| #[trigger] s.contains((n, p)) ==> named(t, n)
        &&& forall|n: Seq<char>| #[trigger] named(t, n) ==> exists|p: Position| s.contains((n, p))
    }
    pub open spec fn some_tok(v: Seq<Positioned<String>>, k: int, n: Seq<char>) -> bool { exists|i: int| 0 <= i < k && (#[trigger] v[i]).value@ == n }
    pub proof fn list_set()
        ensures forall|t: Seq<Positioned<Token>>, v: Seq<Positioned<String>>, h: HashSet<Positioned<String>>| #![trigger vars_of(t, v), HashSet::<Positioned<String>>::iter_ens(v, h)]
            vars_of(t, v) && HashSet::<Positioned<String>>::iter_ens(v, h) ==> all_vars(t) && toks_set(t, h@)
    {
        assert forall|t: Seq<Positioned<Token>>, v: Seq<Positioned<String>>, h: HashSet<Positioned<String>>| #![trigger vars_of(t, v), HashSet::<Positioned<String>>::iter_ens(v, h)]
            vars_of(t, v) && HashSet::<Positioned<String>>::iter_ens(v, h) implies all_vars(t) && toks_set(t, h@) by {
            assert forall|n: Seq<char>, p: Position| #[trigger] h@.contains((n, p)) implies named(t, n) by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == (n, p); assert(t[i].value is Variable); }
            assert forall|n: Seq<char>| #[trigger] named(t, n) implies exists|p: Position| h@.contains((n, p)) by {
                let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).value is Variable && t[i].value->Variable_0@ == n; assert(v[i]@ == (n, v[i].position)); assert(h@.contains((n, v[i].position))); }
        }
    }
    pub proof fn in_turn<K: View>(s: Set<K::V>, v: Seq<K>, k: K::V) -> (i: int)
        requires set_order::<K>(s, v), s.contains(k) ensures 0 <= i < v.len(), v[i]@ == k
    { choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == k }
    pub proof fn set_names(t: Seq<Positioned<Token>>, s: Set<(Seq<char>, Position)>, v: Seq<Positioned<String>>)
        requires toks_set(t, s), set_order::<Positioned<String>>(s, v)
        ensures forall|n: Seq<char>| named(t, n) == #[trigger] some_tok(v, v.len() as int, n), forall|i: int| 0 <= i < v.len() ==> named(t, (#[trigger] v[i]).value@)
    {
        assert forall|i: int| 0 <= i < v.len() implies named(t, (#[trigger] v[i]).value@) by { assert(s.contains(v[i]@)); assert(s.contains((v[i].value@, v[i].position))); }
        assert forall|n: Seq<char>| named(t, n) == #[trigger] some_tok(v, v.len() as int, n) by {
            if named(t, n) { let p = choose|p: Position| s.contains((n, p)); assert(s.contains((n, p))); let i = in_turn::<Positioned<String>>(s, v, (n, p)); assert(v[i].value@ == n); assert(some_tok(v, v.len() as int, n)); }
            if some_tok(v, v.len() as int, n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).value@ == n; assert(named(t, v[i].value@)); }
        }
    }
    // ---- the settings stay within bounds, whatever is run ----
    pub open spec fn settings_ok(a: Args) -> bool { 2 <= a.radix <= 16 && (a.convert_to_radix is Some ==> 2 <= a.convert_to_radix->0 <= 16) && a.precision + a.extra_precision <= 255 }
    // The database stays sound, too.
    pub open spec fn sound(s: Sess) -> bool { s.db is Some ==> db_ok((s.db->0).0) }
    pub proof fn stays_sound(c: DynCommand, a: Arg, s: Sess, t: Sess, r: CmdOut)
        requires ran(c, a, s, t, r), sound(s)
        ensures sound(t)
    {
        if c is PurgeVarCommand && t != s && s.db is Some {
            let d = (s.db->0).0; let d1 = (t.db->0).0;
            assert forall|n: Seq<char>| #[trigger] d1.vars.contains_key(n) implies row_ok(d1.vars[n]) && d1.hist.contains_key(d1.vars[n].last) by { assert(same_row(d.vars, d1.vars, n)); assert(d.vars.contains_key(n)); }
            let o = the_list(d); assert(is_list(d, o)); assert forall|i: int| 0 <= i < o.len() implies #[trigger] link(d1, o, i) by { assert(link(d, o, i)); } assert(is_list(d1, o));
        }
    }
    pub proof fn stays_in_bounds(c: DynCommand, a: Arg, s: Sess, t: Sess, r: CmdOut)
        requires ran(c, a, s, t, r), settings_ok(s.args)
        ensures settings_ok(t.args)
    { }
    // What was given is one list of numbers.
    pub proof fn ints_only(t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>, w: Seq<Positioned<i64>>)
        requires ints_of(t, v), ints_of(t, w)
        ensures vals(v) == vals(w)
        decreases t.len()
    {
        let n = t.len() as int;
        if n > 0 {
            let m = if crate::token::minus_at(t, n - 2) { n - 2 } else { n - 1 };
            ints_only(t.take(m), v.drop_last(), w.drop_last());
            assert(vals(v) =~= vals(v.drop_last()).push(v.last().value)); assert(vals(w) =~= vals(w.drop_last()).push(w.last().value));
        } else { assert(vals(v) =~= vals(w)); }
    }
    pub proof fn given_once(s: Seq<char>, n: Seq<i64>, m: Seq<i64>)
        requires given(s, n), given(s, m)
        ensures n == m
    {
        let (t, v) = choose|t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>| #[trigger] ints_in(s, t, v) && vals(v) == n;
        let (u, w) = choose|t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>| #[trigger] ints_in(s, t, v) && vals(v) == m;
        lex_unique(s, s.len() as int, 10, t, u);
        ints_only(t, v, w);
    }
    pub proof fn ints_within(t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>, n: int)
        requires ints_of(t, v), forall|i: int| 0 <= i < t.len() ==> pend((#[trigger] t[i]).position) <= n
        ensures forall|i: int| 0 <= i < v.len() ==> pend((#[trigger] v[i]).position) <= n
        decreases t.len()
    {
        let k = t.len() as int;
        if k > 0 {
            let m = if crate::token::minus_at(t, k - 2) { k - 2 } else { k - 1 };
            assert forall|i: int| 0 <= i < m implies pend((#[trigger] t.take(m)[i]).position) <= n by { assert(t.take(m)[i] == t[i]); }
            ints_within(t.take(m), v.drop_last(), n);
            assert forall|i: int| 0 <= i < v.len() implies pend((#[trigger] v[i]).position) <= n by {
                if i < v.len() - 1 { assert(v.drop_last()[i] == v[i]); } else if m == k - 2 { assert(pend(t[k - 2].position) <= n && pend(t[k - 1].position) <= n); } else { assert(pend(t[k - 1].position) <= n); }
            }
        }
    }
    pub proof fn got_ints(s: Seq<char>, v: Seq<Positioned<i64>>)
        requires !is_cmd(s) && ascii(s) && exists|t: Seq<Positioned<Token>>| #[trigger] lexed(s, s.len() as int, 10, t) && ints_of(t, v)
        ensures given(s, vals(v)), vals(v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> in_line((#[trigger] v[i]).position, s) && vals(v)[i] == v[i].value
    {
        let t = choose|t: Seq<Positioned<Token>>| #[trigger] lexed(s, s.len() as int, 10, t) && ints_of(t, v);
        assert(ints_in(s, t, v));
        lexed_in_order(s, s.len() as int, 10, t);
        ints_within(t, v, s.len() as int);
    }
    pub proof fn names_apart()
        ensures
            forall|f: COMMAND_CONSTRUCTORSFn, g: COMMAND_CONSTRUCTORSFn| #![trigger fname(f), fname(g)] fname(f) == fname(g) ==> f == g,
            forall|f: COMMAND_CONSTRUCTORSFn| alias_for(#[trigger] fname(f)) is None, forall|f: COMMAND_CONSTRUCTORSFn| known(#[trigger] fname(f)),
            forall|c: DynCommand, i: int| 0 <= i < also(c).len() ==> alias_for(#[trigger] also(c)[i]) == Some(called(c)),
            forall|c: DynCommand, n: Seq<char>| #![trigger called(c), alias_for(n)] alias_for(n) == Some(called(c)) ==> some_text(also(c), also(c).len() as int, n),
            forall|n: Seq<char>| #![trigger alias_for(n)] alias_for(n) is Some ==> known(alias_for(n)->0),
            known("help"@), known("reloadvar"@), known("purgevar"@), known("histcap"@), known("fractional"@), known("radix"@), known("converttoradix"@), known("upper"@), known("commas"@), known("precision"@),
            alias_for("h"@) == Some("help"@), !known("h"@), alias_for("f"@) == Some("fractional"@), !known("f"@), alias_for("r"@) == Some("radix"@), !known("r"@), alias_for("comma"@) == Some("commas"@), !known("comma"@), alias_for("p"@) == Some("precision"@), !known("p"@)
    {
        reveal_strlit("help"); assert("help"@.len() == 4 && "help"@[0] == 'h');
        reveal_strlit("h"); assert("h"@.len() == 1 && "h"@[0] == 'h');
        reveal_strlit("reloadvar"); assert("reloadvar"@.len() == 9 && "reloadvar"@[0] == 'r');
        reveal_strlit("purgevar"); assert("purgevar"@.len() == 8 && "purgevar"@[0] == 'p');
        reveal_strlit("histcap"); assert("histcap"@.len() == 7 && "histcap"@[0] == 'h');
        reveal_strlit("fractional"); assert("fractional"@.len() == 10 && "fractional"@[0] == 'f');
        reveal_strlit("f"); assert("f"@.len() == 1 && "f"@[0] == 'f');
        reveal_strlit("radix"); assert("radix"@.len() == 5 && "radix"@[0] == 'r');
        reveal_strlit("r"); assert("r"@.len() == 1 && "r"@[0] == 'r');
        reveal_strlit("converttoradix"); assert("converttoradix"@.len() == 14 && "converttoradix"@[0] == 'c');
        reveal_strlit("upper"); assert("upper"@.len() == 5 && "upper"@[0] == 'u');
        reveal_strlit("commas"); assert("commas"@.len() == 6 && "commas"@[0] == 'c');
        reveal_strlit("comma"); assert("comma"@.len() == 5 && "comma"@[0] == 'c');
        reveal_strlit("precision"); assert("precision"@.len() == 9 && "precision"@[0] == 'p');
        reveal_strlit("p"); assert("p"@.len() == 1 && "p"@[0] == 'p');
        assert forall|c: DynCommand, n: Seq<char>| #![trigger called(c), alias_for(n)] alias_for(n) == Some(called(c)) implies some_text(also(c), also(c).len() as int, n) by { assert(also(c).len() == 1 ==> also(c)[0] == also(c)[0]); }
    }
}
constant "COMMAND_CONSTRUCTORS" { ensures all_made(COMMAND_CONSTRUCTORS@), }
func "COMMAND_CONSTRUCTORSFn::call" { ret r; props { C14 } spec { ensures made(*self, r) } }
func "DynCommand::name" { ret r; props { C12, C14 } spec { ensures r@ == called(*self) } }
func "DynCommand::aliases" { ret r; props { C12, C14 } spec { ensures same_text(r@, also(*self)) } }
func "DynCommand::long_help" { ret r; props { C12, C14 } spec { ensures about(r@, called(*self)) } }
func "DynCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures ran(*self, arguments, before(data), after(data), r) } }
func "HelpCommand::new" { ret r; props { C14 } spec { ensures r is HelpCommand } }
func "HelpCommand::name" { ret r; props { C14 } spec { ensures r@ == "help"@ } }
func "HelpCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, seq!["h"@]) } }
func "HelpCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "help"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("help"); } } }
func "ReloadVarCommand::new" { ret r; props { C14 } spec { ensures r is ReloadVarCommand } }
func "ReloadVarCommand::name" { ret r; props { C14 } spec { ensures r@ == "reloadvar"@ } }
func "ReloadVarCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, Seq::<Seq<char>>::empty()) } }
func "ReloadVarCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "reloadvar"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("reloadvar"); } } }
func "PurgeVarCommand::new" { ret r; props { C14 } spec { ensures r is PurgeVarCommand } }
func "PurgeVarCommand::name" { ret r; props { C14 } spec { ensures r@ == "purgevar"@ } }
func "PurgeVarCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, Seq::<Seq<char>>::empty()) } }
func "PurgeVarCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "purgevar"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("purgevar"); } } }
func "HistoryCapacityCommand::new" { ret r; props { C14 } spec { ensures r is HistoryCapacityCommand } }
func "HistoryCapacityCommand::name" { ret r; props { C14 } spec { ensures r@ == "histcap"@ } }
func "HistoryCapacityCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, Seq::<Seq<char>>::empty()) } }
func "HistoryCapacityCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "histcap"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("histcap"); } } }
func "FractionalCommand::new" { ret r; props { C14 } spec { ensures r is FractionalCommand } }
func "FractionalCommand::name" { ret r; props { C14 } spec { ensures r@ == "fractional"@ } }
func "FractionalCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, seq!["f"@]) } }
func "FractionalCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "fractional"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("fractional"); } } }
func "RadixCommand::new" { ret r; props { C14 } spec { ensures r is RadixCommand } }
func "RadixCommand::name" { ret r; props { C14 } spec { ensures r@ == "radix"@ } }
func "RadixCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, seq!["r"@]) } }
func "RadixCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "radix"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("radix"); } } }
func "ConvertToRadixCommand::new" { ret r; props { C14 } spec { ensures r is ConvertToRadixCommand } }
func "ConvertToRadixCommand::name" { ret r; props { C14 } spec { ensures r@ == "converttoradix"@ } }
func "ConvertToRadixCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, Seq::<Seq<char>>::empty()) } }
func "ConvertToRadixCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "converttoradix"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("converttoradix"); } } }
func "UpperCommand::new" { ret r; props { C14 } spec { ensures r is UpperCommand } }
func "UpperCommand::name" { ret r; props { C14 } spec { ensures r@ == "upper"@ } }
func "UpperCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, Seq::<Seq<char>>::empty()) } }
func "UpperCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "upper"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("upper"); } } }
func "CommaCommand::new" { ret r; props { C14 } spec { ensures r is CommaCommand } }
func "CommaCommand::name" { ret r; props { C14 } spec { ensures r@ == "commas"@ } }
func "CommaCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, seq!["comma"@]) } }
func "CommaCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "commas"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("commas"); } } }
func "PrecisionCommand::new" { ret r; props { C14 } spec { ensures r is PrecisionCommand } }
func "PrecisionCommand::name" { ret r; props { C14 } spec { ensures r@ == "precision"@ } }
func "PrecisionCommand::aliases" { ret r; props { C14 } spec { ensures same_text(r@, seq!["p"@]) } }
func "PrecisionCommand::long_help" { ret r; literals; props { C14 } spec { ensures about(r@, "precision"@) } entry { proof { reveal_strlit("Usage: /"); reveal_strlit("precision"); } } }
func "HelpCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures help_ran(arguments, before(data), after(data), r) }
  entry { let ghost mut c0: Seq<String> = Seq::empty(); let ghost mut g0: Seq<char> = Seq::empty(); }
  after_let commands { c0 = commands@; assert forall|i: int| 0 <= i < c0.len() implies known(#[trigger] c0[i]@) by { } assert forall|n: Seq<char>| #[trigger] known(n) implies listed(c0, n) by { assert(data.command_map@.contains_key(n)); } }
  after_call sort { same_elems(c0, commands@); assert forall|i: int| 0 <= i < commands@.len() implies known(#[trigger] commands@[i]@) by { assert(listed(commands@, commands@[i]@)); assert(listed(c0, commands@[i]@)); } assert forall|c: Seq<char>| #[trigger] known(c) implies exists|i: int| 0 <= i < commands@.len() && (#[trigger] commands@[i])@ == c by { assert(listed(c0, c)); assert(listed(commands@, c)); } }
  loop 0 { iter it; spec { invariant 0 <= it.idx() <= it.src().len(), names_ok(data.command_map@), forall|i: int| 0 <= i < it.src().len() ==> known(#[trigger] it.src()[i]@),
      forall|i: int| 0 <= i < it.idx() ==> lists(output@, #[trigger] it.src()[i]@),
      forall|c: Seq<char>| #[trigger] known(c) ==> exists|i: int| 0 <= i < it.src().len() && (#[trigger] it.src()[i])@ == c,
    ensures it.idx() == it.src().len(), forall|c: Seq<char>| #[trigger] known(c) ==> lists(output@, c) decreases it.src().len() - it.idx() }
    start { g0 = output@; assert(command == it.src()[it.idx() - 1]); assert(data.command_map@.contains_key(command@)); }
    end { let line = "
  "@ + pad_right(command@, ' ', max_command_width as int) + " "@; let more = output@.skip((g0 + line).len() as int); assert(output@ =~= g0 + line + more); lists_one(g0, command@, max_command_width as int, line, more); } }
  inline fold 0 { |acc: usize, command: &String| -> (m: usize) ensures true } }
func "ReloadVarCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures reload_ran(arguments, before(data), after(data), r) }
  attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
  entry { let ghost d0 = data; let ghost m0 = (*data.maybe_vars->0).vars@; let ghost c0 = (*data.maybe_db->0).connection@; let ghost mut u0: Seq<String> = Seq::empty(); let ghost mut k: Seq<Positioned<Token>> = Seq::empty(); proof { list_set(); } }
  after_let variable_tokens { k = choose|t: Seq<Positioned<Token>>| #[trigger] vars_in(arguments.value@, t) && toks_set(t, variable_tokens@);
    assert(exists|t: Seq<Positioned<Token>>| #[trigger] lexed(arguments.value@, arguments.value@.len() as int, 10, t) && vars_in(arguments.value@, t) && toks_set(t, variable_tokens@)); assert(vars_in(arguments.value@, k) && toks_set(k, variable_tokens@));
    assert forall|v: Seq<Positioned<String>>| #[trigger] set_order::<Positioned<String>>(variable_tokens@, v) implies (forall|n: Seq<char>| named(k, n) == #[trigger] some_tok(v, v.len() as int, n)) && forall|i: int| 0 <= i < v.len() ==> named(k, (#[trigger] v[i]).value@) by { set_names(k, variable_tokens@, v); } }
  loop 0 { iter it; spec { invariant 0 <= it.idx() <= it.src().len(), 
      vars_in(arguments.value@, k), forall|n: Seq<char>| named(k, n) == #[trigger] some_tok(it.src(), it.src().len() as int, n), forall|i: int| 0 <= i < it.src().len() ==> named(k, (#[trigger] it.src()[i]).value@),
      *final(vars) == *final(d0.maybe_vars->0), *final(db) == *final(d0.maybe_db->0), db_ok(c0), db.connection@ == c0, db.input_history_position == (*d0.maybe_db->0).input_history_position,
      forall|n: Seq<char>| #![trigger vars.vars@.contains_key(n)] #![trigger some_tok(it.src(), it.idx(), n)] if some_tok(it.src(), it.idx(), n) && c0.vars.contains_key(n) { read_at(c0, vars.vars@, n) } else { same_at(m0, vars.vars@, n) },
      forall|n: Seq<char>| #[trigger] listed(variables_touched@, n) <==> some_tok(it.src(), it.idx(), n),
    ensures it.idx() == it.src().len() decreases it.src().len() - it.idx() }
    end { let x = variables_touched@.last(); assert(variables_touched@ =~= u0.push(x)); listed_push(u0, x); }
    start { u0 = variables_touched@; let j = it.idx() - 1; assert(variable_token == it.src()[j]); 
      assert forall|n: Seq<char>| #[trigger] some_tok(it.src(), j + 1, n) <==> some_tok(it.src(), j, n) || n == variable_token.value@ by { } } } }
func "PurgeVarCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures purge_ran(arguments, before(data), after(data), r) }
  attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
  entry { let ghost d0 = data; let ghost m0 = (*data.maybe_vars->0).vars@; let ghost c0 = (*data.maybe_db->0).connection@; let ghost mut k: Seq<Positioned<Token>> = Seq::empty(); proof { list_set(); } }
  after_let variable_tokens { k = choose|t: Seq<Positioned<Token>>| #[trigger] vars_in(arguments.value@, t) && toks_set(t, variable_tokens@);
    assert(exists|t: Seq<Positioned<Token>>| #[trigger] lexed(arguments.value@, arguments.value@.len() as int, 10, t) && vars_in(arguments.value@, t) && toks_set(t, variable_tokens@)); assert(vars_in(arguments.value@, k) && toks_set(k, variable_tokens@));
    assert forall|v: Seq<Positioned<String>>| #[trigger] set_order::<Positioned<String>>(variable_tokens@, v) implies (forall|n: Seq<char>| named(k, n) == #[trigger] some_tok(v, v.len() as int, n)) && forall|i: int| 0 <= i < v.len() ==> named(k, (#[trigger] v[i]).value@) by { set_names(k, variable_tokens@, v); } }
  loop 0 { iter it; spec { invariant 0 <= it.idx() <= it.src().len(), 
      vars_in(arguments.value@, k), forall|n: Seq<char>| named(k, n) == #[trigger] some_tok(it.src(), it.src().len() as int, n), forall|i: int| 0 <= i < it.src().len() ==> named(k, (#[trigger] it.src()[i]).value@),
      *final(vars) == *final(d0.maybe_vars->0), data.maybe_db is Some == d0.maybe_db is Some, data.maybe_db is Some ==> *final(data.maybe_db->0) == *final(d0.maybe_db->0) && (*data.maybe_db->0).input_history_position == (*d0.maybe_db->0).input_history_position
        && db_ok((*data.maybe_db->0).connection@) && (*data.maybe_db->0).connection@ == (Db { vars: (*data.maybe_db->0).connection@.vars, ..c0 }),
      forall|n: Seq<char>| #![trigger vars.vars@.contains_key(n)] #![trigger some_tok(it.src(), it.idx(), n)] if some_tok(it.src(), it.idx(), n) { !vars.vars@.contains_key(n) } else { same_at(m0, vars.vars@, n) },
      data.maybe_db is Some ==> forall|n: Seq<char>| #![trigger (*data.maybe_db->0).connection@.vars.contains_key(n)] #![trigger some_tok(it.src(), it.idx(), n)] if some_tok(it.src(), it.idx(), n) { !(*data.maybe_db->0).connection@.vars.contains_key(n) } else { same_row(c0.vars, (*data.maybe_db->0).connection@.vars, n) },
    ensures it.idx() == it.src().len() decreases it.src().len() - it.idx() }
    start { let j = it.idx() - 1; assert(variable_token == it.src()[j]); 
      assert forall|n: Seq<char>| #[trigger] some_tok(it.src(), j + 1, n) <==> some_tok(it.src(), j, n) || n == variable_token.value@ by { } } } }
func "HistoryCapacityCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures histcap_ran(arguments, before(data), after(data), r) } after_let parsed_args { got_ints(arguments.value@, parsed_args@); } }
func "FractionalCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures flag_ran(arguments, before(data).args.fractional, Args { fractional: true, ..before(data).args }, Args { fractional: false, ..before(data).args }, before(data), after(data), r) } }
func "UpperCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures flag_ran(arguments, before(data).args.upper, Args { upper: true, ..before(data).args }, Args { upper: false, ..before(data).args }, before(data), after(data), r) } }
func "CommaCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures flag_ran(arguments, before(data).args.commas, Args { commas: true, ..before(data).args }, Args { commas: false, ..before(data).args }, before(data), after(data), r) } }
func "RadixCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures radix_ran(arguments, before(data), after(data), r) } after_let parsed_args { got_ints(arguments.value@, parsed_args@); } }
func "ConvertToRadixCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures convert_ran(arguments, before(data), after(data), r) } after_let parsed_args { got_ints(arguments.value@, parsed_args@); } }
func "PrecisionCommand::execute" { ret r; props { C12, C14 } spec { requires data_ok(data), arg_ok(arguments) ensures precision_ran(arguments, before(data), after(data), r) } after_let parsed_args { got_ints(arguments.value@, parsed_args@); } }
func "CommandExecutor::new" { ret r; props { C14, C05 } spec { ensures table_ok(r) }
  attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
  entry { proof { names_apart(); assert forall|o: Seq<COMMAND_CONSTRUCTORSFn>, s: Seq<&COMMAND_CONSTRUCTORSFn>| all_made(o) && #[trigger] ref_seq(o, s) implies all_refs(s) by {
      assert forall|f: COMMAND_CONSTRUCTORSFn| some_name(s, s.len() as int, #[trigger] fname(f)) by { assert(made_at(o, f)); let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == f; assert(*s[i] == f); }
      assert forall|i: int, j: int| 0 <= i < j < s.len() implies *#[trigger] s[i] != *#[trigger] s[j] by { assert(o[i] != o[j]); } }
    assert forall|n: Seq<char>| #[trigger] known(n) implies fname(name_of(n)) == n by { known_named(n); } } }
  loop 0 { iter it; spec { invariant 0 <= it.idx() <= it.src().len(), all_refs(it.src()),
      forall|n: Seq<char>| (#[trigger] command_map@.contains_key(n) <==> some_name(it.src(), it.idx(), n)) && (command_map@.contains_key(n) ==> called(command_map@[n]) == n),
      forall|n: Seq<char>| (#[trigger] alias_map@.contains_key(n) <==> some_alias(it.src(), it.idx(), n)) && (alias_map@.contains_key(n) ==> alias_for(n) == Some(alias_map@[n]@)),
     ensures it.idx() == it.src().len() decreases it.src().len() - it.idx() }
    after { proof { let k = it.src().len() as int;
      assert forall|n: Seq<char>| #[trigger] known(n) <==> some_name(it.src(), k, n) by { if known(n) { assert(fname(name_of(n)) == n); } }
      assert forall|n: Seq<char>| #[trigger] some_alias(it.src(), k, n) <==> alias_for(n) is Some by { if alias_for(n) is Some { assert(known(alias_for(n)->0)); } } } }
    start { let k = it.idx() - 1; assert(constructor == it.src()[k]);
      assert forall|n: Seq<char>| #[trigger] some_name(it.src(), k + 1, n) <==> some_name(it.src(), k, n) || n == fname(*constructor) by { } } }
  loop 1 { iter it2; spec { invariant 0 <= it2.idx() <= it2.src().len(), it2.src().len() == also(command).len(), forall|i: int| 0 <= i < it2.src().len() ==> (#[trigger] it2.src()[i])@ == also(command)[i],
      forall|n: Seq<char>| (#[trigger] alias_map@.contains_key(n) <==> some_alias(it.src(), it.idx() - 1, n) || some_text(also(command), it2.idx(), n)) && (alias_map@.contains_key(n) ==> alias_for(n) == Some(alias_map@[n]@)),
     ensures it2.idx() == it2.src().len() decreases it2.src().len() - it2.idx() }
    start { let j = it2.idx() - 1; assert(alias == it2.src()[j]); assert(alias_for(also(command)[j]) == Some(called(command))); assert(alias@ == also(command)[j]); assert(called(command) == fname(*constructor));
      assert forall|n: Seq<char>| #[trigger] some_text(also(command), j + 1, n) <==> some_text(also(command), j, n) || n == also(command)[j] by { } } } }
func "CommandExecutor::execute_command" { ret r; props { C12, C14 }
  spec { requires table_ok(*old(self)), tk_wf(*tokenizer), db_in(maybe_db), arg_ok(arguments)
    ensures *final(self) == *old(self), command_ran(alias_name, arguments,
      Sess { args: *old(program_arguments), db: db_now(maybe_db), vars: vars_now(maybe_vars), inputs: inputs_now(maybe_inputs) },
      Sess { args: *final(program_arguments), db: db_then(maybe_db), vars: vars_then(maybe_vars), inputs: inputs_then(maybe_inputs) }, r) } }
items {
    pub open spec fn command_ran(name: Arg, a: Arg, s: Sess, t: Sess, r: CmdOut) -> bool {
        if known(meant(name.value@)) { exists|c: DynCommand| #[trigger] called(c) == meant(name.value@) && ran(c, a, s, t, r) }
        else { t == s && r is Err && input_err_of(r->Err_0, no_such(name.value@), Some(name.position)) }
    }
}
