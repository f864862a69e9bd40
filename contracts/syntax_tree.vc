opts { ufcs; }
undyn { OperationNode }
clone { SyntaxTreeNode, NumericNode, VariableNode, UnaryNode, BinaryNode, FunctionNode, ParenthesizedNode }
items {
    // ---- what an expression is worth ----
    // The value, or the text and the place of the error.
    pub type Out = Result<real, (Seq<char>, Position)>;
    pub struct Ctx { pub vars: Option<spec_fn(Seq<char>) -> Option<real>>, pub p: nat, pub radix: int }
    pub open spec fn seen(x: Out) -> bool { true }
    pub open spec fn un_ok(o: UnaryOperatorToken, at: Position, x: real, c: Ctx, r: Out) -> bool {
        match o {
            UnaryOperatorToken::SquareRoot => powered(x, 0.5real, at, c, r),
            UnaryOperatorToken::Negate => r == Out::Ok(0real - x),
            UnaryOperatorToken::AbsoluteValue => r == Out::Ok(rabs(x)),
        }
    }
    pub open spec fn pow_out(t: Result<BigRational, MathExecutionError>, at: Position) -> Out { match t { Ok(v) => Out::Ok(v@), Err(k) => Out::Err((k.disp(), at)) } }
    pub open spec fn powered(x: real, e: real, at: Position, c: Ctx, r: Out) -> bool {
        exists|t: Result<BigRational, MathExecutionError>| #[trigger] pow_ok(x, e, c.p, c.radix, t) && r == pow_out(t, at)
    }
    pub open spec fn bin_ok(o: BinaryOperatorToken, at: Position, x: real, y: real, c: Ctx, r: Out) -> bool {
        match o {
            BinaryOperatorToken::Add => r == Out::Ok(x + y),
            BinaryOperatorToken::Subtract => r == Out::Ok(x - y),
            BinaryOperatorToken::Multiply => r == Out::Ok(x * y),
            BinaryOperatorToken::Divide => r == (if y == 0real { Out::Err((MathExecutionError::DivisionByZero.disp(), at)) } else { Out::Ok(x / y) }),
            BinaryOperatorToken::Modulus => r == (if y == 0real { Out::Err((MathExecutionError::DivisionByZero.disp(), at)) } else { Out::Ok(rrem(x, y)) }),
            BinaryOperatorToken::Exponent => powered(x, y, at, c, r),
        }
    }
    pub open spec fn fn_of(f: FunctionNameToken, xs: Seq<real>) -> real
        decreases xs.len()
    {
        if xs.len() <= 1 { xs[0] } else { step_of(f, fn_of(f, xs.drop_last()), xs.last()) }
    }
    pub open spec fn fn_ok(f: FunctionNameToken, at: Position, xs: Seq<real>, r: Out) -> bool {
        r == (if xs.len() == 0 { Out::Err((MathExecutionError::FunctionNeedsArguments(f).disp(), at)) } else { Out::Ok(fn_of(f, xs)) })
    }
    pub open spec fn ev(n: SyntaxTreeNode, c: Ctx, r: Out) -> bool
        decreases n
    {
        match n {
            SyntaxTreeNode::Number(b) => r == Out::Ok(b.value@),
            SyntaxTreeNode::Variable(b) => ev_var(*b, c, r),
            SyntaxTreeNode::Unary(b) => ev_un(*b, c, r),
            SyntaxTreeNode::Binary(b) => ev_bin(*b, c, r),
            SyntaxTreeNode::Function(b) => ev_fn(*b, c, r),
            SyntaxTreeNode::Parenthesized(b) => ev(b.node, c, r),
        }
    }
    pub open spec fn ev_var(n: VariableNode, c: Ctx, r: Out) -> bool {
        match c.vars {
            None => r == Out::Err((MissingCapabilityError::NoVariableStore.disp(), n.position)),
            Some(f) => match f(n.name@) { Some(v) => r == Out::Ok(v), None => r == Out::Err((MathExecutionError::UnknownVariable(n.name).disp(), n.position)) },
        }
    }
    pub open spec fn ev_un(n: UnaryNode, c: Ctx, r: Out) -> bool
        decreases n
    { exists|x: Out| #[trigger] seen(x) && ev(n.operand, c, x) && (match x { Ok(v) => un_ok(n.operator, n.operator_position, v, c, r), Err(_) => r == x }) }
    pub open spec fn ev_bin(n: BinaryNode, c: Ctx, r: Out) -> bool
        decreases n
    { exists|x: Out| #[trigger] seen(x) && ev(n.operand_1, c, x) && (match x { Ok(v) => exists|y: Out| #[trigger] seen(y) && ev(n.operand_2, c, y) && (match y { Ok(w) => bin_ok(n.operator, n.operator_position, v, w, c, r), Err(_) => r == y }), Err(_) => r == x }) }
    // The operands from the first on, up to the first that has no value.
    pub open spec fn ev_fn(n: FunctionNode, c: Ctx, r: Out) -> bool
        decreases n
    {
        (exists|xs: Seq<real>| xs.len() == n.operands@.len() && (forall|i: int| 0 <= i < xs.len() ==> ev(n.operands@[i], c, Out::Ok(#[trigger] xs[i]))) && #[trigger] fn_stop(xs) && fn_ok(n.function_name, n.function_name_position, xs, r))
        || (r is Err && exists|xs: Seq<real>| #[trigger] fn_stop(xs) && xs.len() < n.operands@.len() && (forall|i: int| 0 <= i < xs.len() ==> ev(n.operands@[i], c, Out::Ok(#[trigger] xs[i]))) && ev(n.operands@[xs.len() as int], c, r))
    }
    pub open spec fn fn_stop(xs: Seq<real>) -> bool { true }
    // ---- running it ----
    pub open spec fn args_ok(a: Args) -> bool { 2 <= a.radix <= 16 }
    pub open spec fn row_real(r: VarRow) -> real { choose|x: real| #[trigger] row_of(x, r) }
    pub open spec fn db_of(m: Option<&mut SavedData>) -> Option<Db> { match m { Some(d) => Some((*d).connection@), None => None::<Db> } }
    // What each name stands for: what this session holds; failing that, what is stored.
    pub open spec fn env_of(m: Map<Seq<char>, BigRational>, d: Option<Db>) -> spec_fn(Seq<char>) -> Option<real> {
        |k: Seq<char>| if m.contains_key(k) { Some(m[k]@) } else { match d { Some(d) => if d.vars.contains_key(k) { Some(row_real(d.vars[k])) } else { None }, None => None } }
    }
    pub open spec fn ctx(v: Option<&mut VariableStore>, d: Option<&mut SavedData>, a: Args) -> Ctx {
        Ctx { vars: match v { Some(v) => Some(env_of((*v).vars@, db_of(d))), None => None }, p: (a.precision + a.extra_precision) as nat, radix: a.radix as int }
    }
    #[verifier::prophetic]
    pub open spec fn kept_db(m: Option<&mut SavedData>) -> bool { m is Some ==> same_db(*m->0, *final(m->0)) }
    #[verifier::prophetic]
    pub open spec fn kept_env(v: Option<&mut VariableStore>, d: Option<&mut SavedData>) -> bool { v is Some ==> env_of((*final(v->0)).vars@, db_of(d)) == env_of((*v->0).vars@, db_of(d)) }
    pub open spec fn out_of(r: Result<BigRational, CalculatorFailure>) -> Out {
        match r { Ok(v) => Out::Ok(v@), Err(e) => Out::Err((err_text(e), err_pos(e)->0)) }
    }
    // An error is the user's, with a place, unless the database failed.
    pub open spec fn told(r: Result<BigRational, CalculatorFailure>, db: bool) -> bool {
        match r { Ok(_) => true, Err(e) => if e is InputError { err_pos(e) is Some } else { db && outside(e->RuntimeError_0) } }
    }
    pub open spec fn broke(r: Result<BigRational, CalculatorFailure>) -> bool { match r { Ok(_) => false, Err(e) => !(e is InputError) } }
    pub proof fn get_keeps(m: Map<Seq<char>, BigRational>, name: Seq<char>, d: Option<Db>, m1: Map<Seq<char>, BigRational>, r: Result<Option<Variable>, BoxError>)
        requires got_var(m, name, d, m1, r)
        ensures env_of(m1, d) == env_of(m, d),
            match r { Ok(Some(v)) => env_of(m, d)(name) == Some(v.value@), Ok(None) => env_of(m, d)(name) is None, Err(e) => d is Some && outside(e) }
    {
        if !m.contains_key(name) && d is Some {
            match r { Ok(Some(v)) => { stored_is_read(v.value@, row_real(d->0.vars[name]), d->0.vars[name]); }, _ => {} }
        }
        assert(env_of(m1, d) =~= env_of(m, d));
    }
    pub proof fn rn_zero(y: real) requires is_rat(y) ensures (rn(y) == 0) == (y == 0real) {
        lemma_rat(y); let (n, d) = (rn(y), rd(y));
        assert((n == 0) == (y == 0real)) by (nonlinear_arith) requires n as real == y * (d as real), d >= 1;
    }
    pub open spec fn step_of(f: FunctionNameToken, a: real, b: real) -> real { match f { FunctionNameToken::Max => rmax(a, b), FunctionNameToken::Min => rmin(a, b) } }
    pub open spec fn steps_as<F: FnMut(BigRational, BigRational) -> BigRational>(n: FunctionNameToken, f: F) -> bool { forall|a: BigRational, b: BigRational, r: BigRational| #[trigger] f.ensures((a, b), r) ==> r@ == step_of(n, a@, b@) }
    pub proof fn folded<F: FnMut(BigRational, BigRational) -> BigRational>(n: FunctionNameToken, f: F, init: BigRational, s: Seq<BigRational>, r: BigRational, xs: Seq<real>)
        requires fold_ens(f, init, s, r), steps_as(n, f), xs.len() == s.len() + 1, xs[0] == init@, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == xs[i + 1]
        ensures r@ == fn_of(n, xs)
        decreases s.len()
    {
        if s.len() > 0 {
            let m = choose|m: BigRational| fold_ens(f, init, s.drop_last(), m) && #[trigger] f.ensures((m, s.last()), r);
            folded(n, f, init, s.drop_last(), m, xs.drop_last());
            assert(s.last()@ == xs.last());
        }
    }
    pub open spec fn as_node(d: DynOperationNode) -> SyntaxTreeNode {
        match d {
            DynOperationNode::NumericNode(n) => SyntaxTreeNode::Number(n),
            DynOperationNode::VariableNode(n) => SyntaxTreeNode::Variable(n),
            DynOperationNode::UnaryNode(n) => SyntaxTreeNode::Unary(n),
            DynOperationNode::BinaryNode(n) => SyntaxTreeNode::Binary(n),
            DynOperationNode::FunctionNode(n) => SyntaxTreeNode::Function(n),
            DynOperationNode::ParenthesizedNode(n) => SyntaxTreeNode::Parenthesized(n),
        }
    }
}
func "NumericNode::execute" { ret r; props { C01 }
  spec { requires args_ok(*_args), db_in(_maybe_db) ensures kept_db(_maybe_db), kept_env(_maybe_vars, _maybe_db), told(r, _maybe_db is Some), seen(out_of(r)), r is Ok && (r->Ok_0)@ == self.value@ } }
inject "impl From<ExpressionEnd> for InputReadResult" { open spec fn from_ens(t: ExpressionEnd, r: Self) -> bool { r == InputReadResult::End(t) } }
func "InputReadResult::from<ExpressionEnd>" { props { C04 } }
func "VariableNode::execute" { ret r; props { C01, C08, C13 }
  spec { requires args_ok(*_args), db_in(maybe_db) ensures kept_db(maybe_db), kept_env(maybe_vars, maybe_db), told(r, maybe_db is Some), seen(out_of(r)), broke(r) || ev_var(self, ctx(maybe_vars, maybe_db, *_args), out_of(r)) }
  entry { let ghost vm = (*maybe_vars->0).vars@; let ghost dd = db_of(maybe_db); let ghost nm = self.name@;
    proof { assert forall|m1: Map<Seq<char>, BigRational>, r: Result<Option<Variable>, BoxError>| #[trigger] got_var(vm, nm, dd, m1, r) implies env_of(m1, dd) == env_of(vm, dd) && match r { Ok(Some(v)) => env_of(vm, dd)(nm) == Some(v.value@), Ok(None) => env_of(vm, dd)(nm) is None, Err(e) => dd is Some && outside(e) } by { get_keeps(vm, nm, dd, m1, r); } } }
}
func "SyntaxTreeNode::into_operation_node" { ret r; props { C01 } spec { ensures as_node(r) == self } }
func "UnaryNode::execute" { ret r; props { C01, C13 }
  spec { requires args_ok(*args), db_in(maybe_db) ensures kept_db(maybe_db), kept_env(maybe_vars, maybe_db), told(r, maybe_db is Some), seen(out_of(r)), broke(r) || ev_un(self, ctx(maybe_vars, maybe_db, *args), out_of(r)) decreases self }
  after_let operand { assert(ev(self.operand, ctx(maybe_vars, maybe_db, *args), Out::Ok(operand@))); }
  after_let one_half { assert(one_half@ == 1real / 2real); assert(1real / 2real == 0.5real); 
    let c = ctx(maybe_vars, maybe_db, *args); let at = self.operator_position;
    assert forall|t: Result<BigRational, MathExecutionError>| #[trigger] pow_ok(operand@, one_half@, total_precision as nat, args.radix as int, t) implies ev_un(self, c, pow_out(t, at)) by { assert(c.p == total_precision as nat); assert(pow_ok(operand@, 0.5real, c.p, c.radix, t)); assert(un_ok(self.operator, at, operand@, c, pow_out(t, at))); } }
}
func "BinaryNode::execute" { ret r; props { C01, C13 }
  spec { requires args_ok(*args), db_in(maybe_db) ensures kept_db(maybe_db), kept_env(maybe_vars, maybe_db), told(r, maybe_db is Some), seen(out_of(r)), broke(r) || ev_bin(self, ctx(maybe_vars, maybe_db, *args), out_of(r)) decreases self }
  entry { hide(ev_var); hide(ev_fn); hide(ev_un); hide(pow_ok); hide(is_rat); hide(rn); hide(rrem); }
  after_let operand_2 { axiom_rational(operand_2); rn_zero(operand_2@); assert(ev(self.operand_2, ctx(maybe_vars, maybe_db, *args), Out::Ok(operand_2@))); }
  after_let total_precision {
    let c = ctx(maybe_vars, maybe_db, *args); let at = self.operator_position;
    assert forall|t: Result<BigRational, MathExecutionError>| #[trigger] pow_ok(operand_1@, operand_2@, total_precision as nat, args.radix as int, t) implies ev_bin(self, c, pow_out(t, at)) by { assert(c.p == total_precision as nat); assert(pow_ok(operand_1@, operand_2@, c.p, c.radix, t)); assert(bin_ok(self.operator, at, operand_1@, operand_2@, c, pow_out(t, at))); assert(seen(Out::Ok(operand_1@))); assert(ev(self.operand_1, c, Out::Ok(operand_1@))); assert(seen(Out::Ok(operand_2@))); } }
}
func "FunctionNode::execute" { ret r; props { C01, C13 }
  spec { requires args_ok(*args), db_in(maybe_db) ensures kept_db(maybe_db), kept_env(maybe_vars, maybe_db), told(r, maybe_db is Some), seen(out_of(r)), broke(r) || ev_fn(self, ctx(maybe_vars, maybe_db, *args), out_of(r)) decreases self }
  entry { let ghost s0 = self; let ghost ops = self.operands@; let ghost c0 = ctx(maybe_vars, maybe_db, *args); let ghost d0 = db_of(maybe_db); let ghost mut xs: Seq<real> = Seq::empty();
    let ghost v0 = maybe_vars; let ghost b0 = maybe_db; }
  loop 0 { iter it; attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
    spec {
      invariant it.src() == ops, ops == s0.operands@, self.function_name == s0.function_name, self.function_name_position == s0.function_name_position, 0 <= it.idx() <= ops.len(), operands@.len() == it.idx(), xs.len() == it.idx(),
        forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]) == operands@[i]@,
        forall|i: int| 0 <= i < xs.len() ==> ev(ops[i], c0, Out::Ok(#[trigger] xs[i])),
        maybe_vars is Some == v0 is Some, maybe_db is Some == b0 is Some, db_of(maybe_db) == d0, db_in(maybe_db), args_ok(*args), ctx(maybe_vars, maybe_db, *args) == c0,
        maybe_vars is Some ==> *final(maybe_vars->0) == *final(v0->0),
        maybe_db is Some ==> *final(maybe_db->0) == *final(b0->0) && (*maybe_db->0).input_history_position == (*b0->0).input_history_position,
      ensures it.idx() == ops.len()
      decreases ops.len() - it.idx()
    }
    start { assert(fn_stop(xs)); assert(operand == ops[it.idx() - 1]); assert(decreases_to!(s0 => s0.operands)); assert(ops[it.idx() - 1] == s0.operands@[it.idx() - 1]); assert(decreases_to!(s0.operands => s0.operands[it.idx() - 1])); }
  }
  after_call push { xs = xs.push(operands@.last()@); }
  after_let operand_iter { assert(fn_stop(xs)); assert(s0 == self); assert(xs.len() == self.operands@.len()); assert forall|o: Out| #[trigger] seen(o) && fn_ok(self.function_name, self.function_name_position, xs, o) implies ev_fn(self, c0, o) by { assert(fn_stop(xs)); } }
  after_let operand_iter 1 { assert(fn_stop(xs)); assert(s0 == self); assert(xs.len() == self.operands@.len()); assert forall|o: Out| #[trigger] seen(o) && fn_ok(self.function_name, self.function_name_position, xs, o) implies ev_fn(self, c0, o) by { assert(fn_stop(xs)); } }
  after_let init 0 { assert(steps_as(FunctionNameToken::Max, max::<BigRational>)); assert forall|r: BigRational| #[trigger] fold_ens(max::<BigRational>, init, operand_iter.rest(), r) implies r@ == fn_of(FunctionNameToken::Max, xs) by { assert(operand_iter.rest().len() == xs.len() - 1); folded(FunctionNameToken::Max, max::<BigRational>, init, operand_iter.rest(), r, xs); } }
  after_let init 1 { assert(steps_as(FunctionNameToken::Min, min::<BigRational>)); assert forall|r: BigRational| #[trigger] fold_ens(min::<BigRational>, init, operand_iter.rest(), r) implies r@ == fn_of(FunctionNameToken::Min, xs) by { folded(FunctionNameToken::Min, min::<BigRational>, init, operand_iter.rest(), r, xs); } }
}
func "ParenthesizedNode::execute" { ret r; props { C01, C13 }
  spec { requires args_ok(*args), db_in(maybe_db) ensures kept_db(maybe_db), kept_env(maybe_vars, maybe_db), told(r, maybe_db is Some), seen(out_of(r)), broke(r) || ev(self.node, ctx(maybe_vars, maybe_db, *args), out_of(r)) decreases self }
}
func "SyntaxTreeNode::execute" { ret r; props { C01, C13 }
  spec { requires args_ok(*args), db_in(maybe_db) ensures kept_db(maybe_db), kept_env(maybe_vars, maybe_db), told(r, maybe_db is Some), seen(out_of(r)), broke(r) || ev(self, ctx(maybe_vars, maybe_db, *args), out_of(r)) decreases self, 2int }
}
func "DynOperationNode::execute" { ret r; props { C01, C13 }
  spec { requires args_ok(*args), db_in(maybe_db) ensures kept_db(maybe_db), kept_env(maybe_vars, maybe_db), told(r, maybe_db is Some), seen(out_of(r)), broke(r) || ev(as_node(self), ctx(maybe_vars, maybe_db, *args), out_of(r)) decreases as_node(self), 1int }
  entry { proof { match as_node(self) { SyntaxTreeNode::Unary(b) => { assert(decreases_to!(as_node(self) => *b)); }, SyntaxTreeNode::Binary(b) => { assert(decreases_to!(as_node(self) => *b)); }, SyntaxTreeNode::Function(b) => { assert(decreases_to!(as_node(self) => *b)); }, SyntaxTreeNode::Parenthesized(b) => { assert(decreases_to!(as_node(self) => *b)); }, _ => {} } } }
}
items {
    // ---- where a node is ----
    pub open spec fn spanned(a: Position, b: Position) -> Position { Position { start: imin(a.start as int, b.start as int) as usize, width: (imax(pend(a), pend(b)) - imin(a.start as int, b.start as int)) as usize } }
    pub open spec fn npos(n: SyntaxTreeNode) -> Position
        decreases n
    {
        match n {
            SyntaxTreeNode::Number(b) => b.position,
            SyntaxTreeNode::Variable(b) => b.position,
            SyntaxTreeNode::Unary(b) => un_pos(*b),
            SyntaxTreeNode::Binary(b) => bin_pos(*b),
            SyntaxTreeNode::Function(b) => spanned(b.function_name_position, b.operands_position),
            SyntaxTreeNode::Parenthesized(b) => spanned(b.open_position, b.close_position),
        }
    }
    pub open spec fn un_pos(b: UnaryNode) -> Position decreases b { spanned(b.operator_position, npos(b.operand)) }
    pub open spec fn bin_pos(b: BinaryNode) -> Position decreases b { spanned(b.operator_position, spanned(npos(b.operand_1), npos(b.operand_2))) }
    // Every place in it fits the machine.
    pub open spec fn pos_ok(n: SyntaxTreeNode) -> bool
        decreases n
    {
        match n {
            SyntaxTreeNode::Number(b) => fits(b.position),
            SyntaxTreeNode::Variable(b) => fits(b.position),
            SyntaxTreeNode::Unary(b) => un_pos_ok(*b),
            SyntaxTreeNode::Binary(b) => bin_pos_ok(*b),
            SyntaxTreeNode::Function(b) => fits(b.function_name_position) && fits(b.operands_position),
            SyntaxTreeNode::Parenthesized(b) => fits(b.open_position) && fits(b.close_position),
        }
    }
    pub open spec fn un_pos_ok(b: UnaryNode) -> bool decreases b { fits(b.operator_position) && pos_ok(b.operand) }
    pub open spec fn bin_pos_ok(b: BinaryNode) -> bool decreases b { fits(b.operator_position) && pos_ok(b.operand_1) && pos_ok(b.operand_2) }
    pub open spec fn ref_node(d: DynOperationNodeRef) -> SyntaxTreeNode {
        match d {
            DynOperationNodeRef::NumericNode(n) => SyntaxTreeNode::Number(Box::new(*n)),
            DynOperationNodeRef::VariableNode(n) => SyntaxTreeNode::Variable(Box::new(*n)),
            DynOperationNodeRef::UnaryNode(n) => SyntaxTreeNode::Unary(Box::new(*n)),
            DynOperationNodeRef::BinaryNode(n) => SyntaxTreeNode::Binary(Box::new(*n)),
            DynOperationNodeRef::FunctionNode(n) => SyntaxTreeNode::Function(Box::new(*n)),
            DynOperationNodeRef::ParenthesizedNode(n) => SyntaxTreeNode::Parenthesized(Box::new(*n)),
        }
    }
}
func "NumericNode::position" { ret r; props { C13 } spec { ensures r == self.position } }
func "VariableNode::position" { ret r; props { C13 } spec { ensures r == self.position } }
func "UnaryNode::position" { ret r; props { C13, C05 } spec { requires un_pos_ok(*self) ensures r == un_pos(*self), fits(r) decreases *self } }
func "BinaryNode::position" { ret r; props { C13, C05 } spec { requires bin_pos_ok(*self) ensures r == bin_pos(*self), fits(r) decreases *self } }
func "FunctionNode::position" { ret r; props { C13, C05 } spec { requires fits(self.function_name_position), fits(self.operands_position) ensures r == spanned(self.function_name_position, self.operands_position), fits(r) decreases *self } }
func "ParenthesizedNode::position" { ret r; props { C13, C05 } spec { requires fits(self.open_position), fits(self.close_position) ensures r == spanned(self.open_position, self.close_position), fits(r) decreases *self } }
func "SyntaxTreeNode::as_operation_node" { ret r; props { C13 } spec { ensures ref_node(r) == *self } }
func "SyntaxTreeNode::position" { ret r; props { C13, C05 } spec { requires pos_ok(*self) ensures r == npos(*self), fits(r) decreases *self, 2int } }
func "DynOperationNodeRef::position" { ret r; props { C13, C05 } spec { requires pos_ok(ref_node(*self)) ensures r == npos(ref_node(*self)), fits(r) decreases ref_node(*self), 1int } }

func "OperandOrOperator::is_operator" { ret r; props { C04 } spec { ensures r == (*self is Operator) } }
func "OperandOrOperator::is_operand" { ret r; props { C04 } spec { ensures r == (*self is Operand) } }
func "OperandOrOperator::matches_operator" { ret r; props { C04 } spec { ensures r == (*self is Operator && (*self)->Operator_0.value == other) } }
func "OperandOrOperator::in_operator_slice" { ret r; props { C04 } spec { ensures r == (*self is Operator && slice@.contains((*self)->Operator_0.value)) } }
func "OperandOrOperator::unwrap_operator" { ret r; props { C04, C05 } spec { requires self is Operator ensures r == self->Operator_0 } }
func "OperandOrOperator::unwrap_operand" { ret r; props { C04, C05 } spec { requires self is Operand ensures r == self->Operand_0 } }
items {
    pub open spec fn held(id: Option<i64>, db: Option<&mut SavedData>) -> bool { match db { Some(d) => held_row(id, (*d).connection@), None => id is None } }
    pub open spec fn vars_at(m: Map<Seq<char>, BigRational>, d: Option<Db>, m1: Map<Seq<char>, BigRational>) -> bool { env_of(m1, d) == env_of(m, d) }
    // The line's value; if it is assigned, the name stands for it from then on, and nothing else changes.
    #[verifier::prophetic]
    pub open spec fn assigned(v: Variable, id: Option<i64>, vars: Option<&mut VariableStore>, db: Option<&mut SavedData>, done: bool) -> bool {
        &&& vars is Some && (exists|m: Map<Seq<char>, BigRational>| #[trigger] vars_at((*vars->0).vars@, db_of(db), m) && (*final(vars->0)).vars@ == vput(m, v))
        &&& (match db { None => done || id is Some, Some(d) => (*final(d)).input_history_position == (*d).input_history_position && db_ok((*final(d)).connection@)
            && (!done ==> (*final(d)).connection@ == (*d).connection@)
            && (done ==> id is Some && (*final(d)).connection@ == stored((*d).connection@, v, id->0 as int)) })
    }
}
func "SyntaxTree::execute" { ret r; props { C01, C08, C11, C13 }
  spec {
    requires args_ok(*args), db_in(maybe_db)
    ensures
      match self.maybe_result_var {
        None => kept_db(maybe_db) && kept_env(maybe_vars, maybe_db) && told(r, maybe_db is Some) && (broke(r) || ev(self.root, ctx(maybe_vars, maybe_db, *args), out_of(r))),
        Some(name) => match r {
            Ok(v) => ev(self.root, ctx(maybe_vars, maybe_db, *args), Out::Ok(v@)) && assigned(Variable { name: name.value, value: v }, maybe_input_history_id, maybe_vars, maybe_db, true),
            Err(e) => if e is InputError {
                    kept_db(maybe_db) && kept_env(maybe_vars, maybe_db) && err_pos(e) is Some && (ev(self.root, ctx(maybe_vars, maybe_db, *args), out_of(r))
                        || maybe_vars is None && input_err_of(e, MissingCapabilityError::NoVariableStore.disp(), Some(name.position)))
                } else {
                    (outside(e->RuntimeError_0) || !held(maybe_input_history_id, maybe_db)) && (kept_db(maybe_db) && kept_env(maybe_vars, maybe_db) && maybe_db is Some && outside(e->RuntimeError_0)
                    || exists|v: BigRational| ev(self.root, ctx(maybe_vars, maybe_db, *args), Out::Ok(#[trigger] v@)) && assigned(Variable { name: name.value, value: v }, maybe_input_history_id, maybe_vars, maybe_db, false))
                },
        },
      }
  }
  entry { hide(ev); let ghost rv = self.maybe_result_var; let ghost vm = (*maybe_vars->0).vars@; let ghost dd = db_of(maybe_db); }
  after_let result { if maybe_vars is Some { assert(vars_at(vm, dd, (*maybe_vars->0).vars@)); } }
}
items {
    // ---- how an expression is written ----
    pub type Tk = Positioned<Token>;
    pub open spec fn tk(v: Token, p: Position) -> Tk { Positioned { value: v, position: p } }
    pub open spec fn op_lev(o: BinaryOperatorToken) -> int {
        match o { BinaryOperatorToken::Exponent => 1, BinaryOperatorToken::Modulus => 2, BinaryOperatorToken::Multiply => 3, BinaryOperatorToken::Divide => 3, BinaryOperatorToken::Add => 4, BinaryOperatorToken::Subtract => 4 }
    }
    pub open spec fn lev(n: SyntaxTreeNode) -> int { match n { SyntaxTreeNode::Binary(b) => op_lev(b.operator), _ => 0 } }
    pub open spec fn is_minus(t: Token) -> bool { t == Token::BinaryOperator(BinaryOperatorToken::Subtract) }
    pub open spec fn stops(s: Seq<Tk>) -> bool { s.len() == 0 || s[0].value is Comma || s[0].value is CloseParen }
    pub open spec fn cut(u: Seq<Tk>) -> bool { true }
    pub open spec fn cuts(u: Seq<Seq<Tk>>) -> bool { true }
    // The tokens of s from the first on, up to where t starts, are how n is written.
    pub open spec fn reads(n: SyntaxTreeNode, s: Seq<Tk>, t: Seq<Tk>) -> bool
        decreases n
    {
        s.len() > 0 && match n {
            SyntaxTreeNode::Number(b) => s[0] == tk(Token::Number(b.value), b.position) && t == s.skip(1),
            SyntaxTreeNode::Variable(b) => s[0] == tk(Token::Variable(b.name), b.position) && t == s.skip(1),
            SyntaxTreeNode::Unary(b) => reads_un(*b, s, t),
            SyntaxTreeNode::Binary(b) => reads_bin(*b, s, t),
            SyntaxTreeNode::Function(b) => reads_fn(*b, s, t),
            SyntaxTreeNode::Parenthesized(b) => reads_par(*b, s, t),
        }
    }
    // Negation, sqrt and abs take the next single operand.
    pub open spec fn reads_un(b: UnaryNode, s: Seq<Tk>, t: Seq<Tk>) -> bool
        decreases b
    {
        &&& s[0].position == b.operator_position
        &&& (s[0].value == Token::UnaryOperator(b.operator) || (b.operator == UnaryOperatorToken::Negate && is_minus(s[0].value)))
        &&& lev(b.operand) == 0 && reads(b.operand, s.skip(1), t)
    }
    // The operands bind at least as tightly as the operator, and the right one more so: each level groups from the left.
    pub open spec fn reads_bin(b: BinaryNode, s: Seq<Tk>, t: Seq<Tk>) -> bool
        decreases b
    {
        &&& lev(b.operand_1) <= op_lev(b.operator) && lev(b.operand_2) < op_lev(b.operator)
        &&& exists|u: Seq<Tk>| #[trigger] cut(u) && reads(b.operand_1, s, u) && u.len() > 0 && u[0] == tk(Token::BinaryOperator(b.operator), b.operator_position) && reads(b.operand_2, u.skip(1), t)
    }
    pub open spec fn reads_par(b: ParenthesizedNode, s: Seq<Tk>, t: Seq<Tk>) -> bool
        decreases b
    {
        &&& s[0] == tk(Token::OpenParen, b.open_position)
        &&& exists|u: Seq<Tk>| #[trigger] cut(u) && reads(b.node, s.skip(1), u) && u.len() > 0 && u[0] == tk(Token::CloseParen, b.close_position) && t == u.skip(1)
    }
    pub open spec fn open_next(s: Seq<Tk>) -> bool { s.len() > 0 && s[0].value is OpenParen }
    // A function's arguments: in parentheses, with commas between them; or the next single operand.
    pub open spec fn reads_fn(b: FunctionNode, s: Seq<Tk>, t: Seq<Tk>) -> bool
        decreases b
    {
        &&& s[0] == tk(Token::Function(b.function_name), b.function_name_position)
        &&& if open_next(s.skip(1)) {
            exists|us: Seq<Seq<Tk>>| #[trigger] cuts(us) && us.len() == b.operands@.len() + 1 && us[0] == s.skip(1)
                && (forall|i: int| 0 <= i < us.len() - 1 ==> (#[trigger] us[i]).len() > 0 && reads(b.operands@[i], us[i].skip(1), us[i + 1]))
                && (forall|i: int| 0 < i < us.len() - 1 ==> (#[trigger] us[i])[0].value is Comma)
                && closes(s.skip(1), us.last(), us.len() - 1, b.operands_position, t)
        } else {
            b.operands@.len() == 1 && lev(b.operands@[0]) == 0 && reads(b.operands@[0], s.skip(1), t) && b.operands_position == npos(b.operands@[0])
        }
    }
    pub open spec fn closes(s: Seq<Tk>, last: Seq<Tk>, count: int, p: Position, t: Seq<Tk>) -> bool {
        let e = if count == 0 { s.skip(1) } else { last };
        e.len() > 0 && e[0].value is CloseParen && t == e.skip(1) && p == spanned(s[0].position, e[0].position)
    }
    // ---- whether it is one ----
    // What is left after the operand that s starts with; None if it starts with none.
    pub open spec fn item_rest(s: Seq<Tk>) -> Option<Seq<Tk>>
        decreases s.len(), 0int
    {
        if s.len() == 0 { None } else {
            match s[0].value {
                Token::Number(_) => Some(s.skip(1)),
                Token::Variable(_) => Some(s.skip(1)),
                Token::UnaryOperator(_) => opnd_rest(s.skip(1)),
                Token::OpenParen => match expr_rest(s.skip(1)) { Some(u) => if u.len() > 0 && u[0].value is CloseParen { Some(u.skip(1)) } else { None }, None => None },
                Token::Function(_) => if open_next(s.skip(1)) {
                        if s.len() > 2 && s[2].value is CloseParen { Some(s.skip(3)) } else { args_rest(s.skip(2)) }
                    } else { opnd_rest(s.skip(1)) },
                _ => None,
            }
        }
    }
    pub open spec fn opnd_rest(s: Seq<Tk>) -> Option<Seq<Tk>>
        decreases s.len(), 1int
    { if s.len() > 0 && is_minus(s[0].value) { opnd_rest(s.skip(1)) } else { item_rest(s) } }
    pub open spec fn expr_rest(s: Seq<Tk>) -> Option<Seq<Tk>>
        decreases s.len(), 2int
    {
        match opnd_rest(s) {
            Some(u) => if u.len() >= s.len() { None } else if stops(u) { Some(u) } else if u[0].value is BinaryOperator { expr_rest(u.skip(1)) } else { None },
            None => None,
        }
    }
    pub open spec fn args_rest(s: Seq<Tk>) -> Option<Seq<Tk>>
        decreases s.len(), 3int
    {
        match expr_rest(s) {
            Some(u) => if u.len() >= s.len() || u.len() == 0 { None } else if u[0].value is CloseParen { Some(u.skip(1)) } else { args_rest(u.skip(1)) },
            None => None,
        }
    }
    // ---- places ----
    // In order, without overlap, from lo to hi.
    pub open spec fn toks_in(s: Seq<Tk>, lo: int, hi: int) -> bool {
        &&& 0 <= lo && hi <= usize::MAX
        &&& (forall|i: int| 0 <= i < s.len() ==> lo <= (#[trigger] s[i]).position.start && pend(s[i].position) <= hi)
        &&& (forall|i: int, j: int| 0 <= i < j < s.len() ==> pend((#[trigger] s[i]).position) <= (#[trigger] s[j]).position.start)
    }
    pub open spec fn toks_ok(s: Seq<Tk>) -> bool { toks_in(s, 0, usize::MAX as int) }
    pub open spec fn at_in(p: Position, lo: int, hi: int) -> bool { lo <= p.start && pend(p) <= hi }
    // Wherever the tokens are (and q), p is there too.
    pub open spec fn err_in(s: Seq<Tk>, p: Position) -> bool { forall|lo: int, hi: int| #[trigger] toks_in(s, lo, hi) ==> at_in(p, lo, hi) }
    pub open spec fn err_near(s: Seq<Tk>, q: Position, p: Position) -> bool { forall|lo: int, hi: int| #[trigger] toks_in(s, lo, hi) && at_in(q, lo, hi) ==> at_in(p, lo, hi) }
    pub open spec fn suf(s: Seq<Tk>, t: Seq<Tk>) -> bool { t.len() <= s.len() && t == s.skip(s.len() - t.len()) }
    pub proof fn suf_next(s: Seq<Tk>, t: Seq<Tk>)
        requires suf(s, t), t.len() > 0
        ensures suf(s, t.skip(1))
    { assert(t.skip(1) =~= s.skip(s.len() - t.len() + 1)); }
    pub proof fn suf_trans(s: Seq<Tk>, t: Seq<Tk>, u: Seq<Tk>)
        requires suf(s, t), suf(t, u)
        ensures suf(s, u)
    { assert(u =~= s.skip(s.len() - u.len())); }
    pub proof fn suf_in(s: Seq<Tk>, t: Seq<Tk>)
        requires suf(s, t)
        ensures forall|lo: int, hi: int| #[trigger] toks_in(s, lo, hi) ==> toks_in(t, lo, hi)
    {
        assert forall|lo: int, hi: int| #[trigger] toks_in(s, lo, hi) implies toks_in(t, lo, hi) by {
            let k = s.len() - t.len();
            assert forall|i: int| 0 <= i < t.len() implies lo <= (#[trigger] t[i]).position.start && pend(t[i].position) <= hi by { assert(t[i] == s[k + i]); }
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies pend((#[trigger] t[i]).position) <= (#[trigger] t[j]).position.start by { assert(t[i] == s[k + i]); assert(t[j] == s[k + j]); }
        }
    }
    // Something is read, and what is left is what follows it.
    pub proof fn reads_suf(n: SyntaxTreeNode, s: Seq<Tk>, t: Seq<Tk>)
        requires reads(n, s, t)
        ensures suf(s, t), t.len() < s.len()
        decreases n
    {
        match n {
            SyntaxTreeNode::Number(b) => { },
            SyntaxTreeNode::Variable(b) => { },
            SyntaxTreeNode::Unary(b) => { reads_suf(b.operand, s.skip(1), t); suf_trans(s, s.skip(1), t); },
            SyntaxTreeNode::Binary(b) => {
                let u = choose|u: Seq<Tk>| #[trigger] cut(u) && reads(b.operand_1, s, u) && u.len() > 0 && u[0] == tk(Token::BinaryOperator(b.operator), b.operator_position) && reads(b.operand_2, u.skip(1), t);
                reads_suf(b.operand_1, s, u); reads_suf(b.operand_2, u.skip(1), t); suf_next(s, u); suf_trans(s, u.skip(1), t);
            },
            SyntaxTreeNode::Parenthesized(b) => {
                let u = choose|u: Seq<Tk>| #[trigger] cut(u) && reads(b.node, s.skip(1), u) && u.len() > 0 && u[0] == tk(Token::CloseParen, b.close_position) && t == u.skip(1);
                reads_suf(b.node, s.skip(1), u); suf_trans(s, s.skip(1), u); suf_next(s, u);
            },
            SyntaxTreeNode::Function(b) => {
                if open_next(s.skip(1)) {
                    let us = fn_cuts(*b, s, t);
                    let m = us.len() - 1;
                    args_suf(*b, us, m);
                    suf_trans(s, s.skip(1), us.last());
                    if m == 0 { suf_next(s, s.skip(1)); suf_next(s, s.skip(1).skip(1)); } else { suf_next(s, us.last()); }
                } else { reads_suf(b.operands@[0], s.skip(1), t); suf_trans(s, s.skip(1), t); }
            },
        }
    }
    pub open spec fn are_cuts(b: FunctionNode, s: Seq<Tk>, us: Seq<Seq<Tk>>) -> bool {
        &&& us.len() == b.operands@.len() + 1 && us[0] == s.skip(1)
        &&& (forall|i: int| 0 <= i < us.len() - 1 ==> (#[trigger] us[i]).len() > 0 && reads(b.operands@[i], us[i].skip(1), us[i + 1]))
        &&& (forall|i: int| 0 < i < us.len() - 1 ==> (#[trigger] us[i])[0].value is Comma)
    }
    pub open spec fn fn_cuts(b: FunctionNode, s: Seq<Tk>, t: Seq<Tk>) -> Seq<Seq<Tk>> {
        choose|us: Seq<Seq<Tk>>| #[trigger] cuts(us) && are_cuts(b, s, us) && closes(s.skip(1), us.last(), us.len() - 1, b.operands_position, t)
    }
    pub proof fn args_suf(b: FunctionNode, us: Seq<Seq<Tk>>, m: int)
        requires us.len() == b.operands@.len() + 1, 0 <= m < us.len(), forall|i: int| 0 <= i < us.len() - 1 ==> (#[trigger] us[i]).len() > 0 && reads(b.operands@[i], us[i].skip(1), us[i + 1])
        ensures suf(us[0], us[m]), forall|i: int| 0 <= i <= m ==> suf(us[0], #[trigger] us[i]), m > 0 ==> us[m].len() < us[0].len()
        decreases b, m
    {
        if m == 0 { assert(us[0] =~= us[0].skip(0)); } else {
            args_suf(b, us, m - 1);
            let v = us[m - 1];
            assert(reads(b.operands@[m - 1], v.skip(1), us[m - 1 + 1]));
            assert(decreases_to!(b => b.operands)); assert(decreases_to!(b.operands => b.operands[m - 1]));
            reads_suf(b.operands@[m - 1], v.skip(1), us[m]);
            suf_next(us[0], v); suf_trans(us[0], v.skip(1), us[m]);
        }
    }
}
items {
    pub open spec fn cons(x: Tk, s: Seq<Tk>) -> Seq<Tk> { seq![x] + s }
    pub open spec fn fn_tok(f: FunctionNameToken, p: Position) -> Tk { tk(Token::Function(f), p) }
    // What ended it, and what is left after that.
    pub open spec fn ended(u: Seq<Tk>, e: ExpressionEnd, t: Seq<Tk>) -> bool {
        match e {
            ExpressionEnd::InputEmpty => u.len() == 0 && t == u,
            ExpressionEnd::Comma(p) => u.len() > 0 && u[0] == tk(Token::Comma, p) && t == u.skip(1),
            ExpressionEnd::CloseParen(p) => u.len() > 0 && u[0] == tk(Token::CloseParen, p) && t == u.skip(1),
        }
    }
    // The opening parenthesis, an operand, and then a comma and an operand, over and over.
    pub open spec fn args_read(s: Seq<Tk>, us: Seq<Seq<Tk>>, ops: Seq<SyntaxTreeNode>) -> bool {
        &&& us.len() == ops.len() + 1 && us[0] == s
        &&& (forall|i: int| 0 <= i < us.len() - 1 ==> (#[trigger] us[i]).len() > 0 && reads(ops[i], us[i].skip(1), us[i + 1]))
        &&& (forall|i: int| 0 < i < us.len() - 1 ==> (#[trigger] us[i])[0].value is Comma)
    }
    pub open spec fn closed(s: Seq<Tk>, us: Seq<Seq<Tk>>, p: Position, t: Seq<Tk>) -> bool {
        let e = if us.len() == 1 { s.skip(1) } else { us.last() };
        e.len() > 0 && e[0] == tk(Token::CloseParen, p) && t == e.skip(1)
    }
    pub proof fn no_operand(s: Seq<Tk>)
        requires stops(s)
        ensures item_rest(s) is None, opnd_rest(s) is None, expr_rest(s) is None, args_rest(s) is None
    { assert(item_rest(s) is None); assert(opnd_rest(s) is None); assert(expr_rest(s) is None); }
    pub proof fn args_next(s: Seq<Tk>, us: Seq<Seq<Tk>>, ops: Seq<SyntaxTreeNode>, n: SyntaxTreeNode, u: Seq<Tk>)
        requires args_read(s, us, ops), us.last().len() > 0, reads(n, us.last().skip(1), u), ops.len() > 0 ==> us.last()[0].value is Comma, suf(s, us.last())
        ensures args_read(s, us.push(u), ops.push(n)), suf(s, u), u.len() < us.last().len() - 1
    {
        let vs = us.push(u); let qs = ops.push(n);
        assert forall|i: int| 0 <= i < vs.len() - 1 implies (#[trigger] vs[i]).len() > 0 && reads(qs[i], vs[i].skip(1), vs[i + 1]) by { if i < us.len() - 1 { assert(vs[i] == us[i]); assert(vs[i + 1] == us[i + 1]); } else { assert(vs[i] == us.last()); } }
        reads_suf(n, us.last().skip(1), u); suf_next(s, us.last()); suf_trans(s, us.last().skip(1), u);
    }
    pub proof fn args_done(b: FunctionNode, w: Seq<Tk>, us: Seq<Seq<Tk>>, p: Position, t: Seq<Tk>)
        requires w.len() > 0, w[0] == fn_tok(b.function_name, b.function_name_position), open_next(w.skip(1)), args_read(w.skip(1), us, b.operands@), closed(w.skip(1), us, p, t), b.operands_position == spanned(w[1].position, p)
        ensures reads_fn(b, w, t), reads(SyntaxTreeNode::Function(Box::new(b)), w, t)
    { assert(cuts(us)); assert(closes(w.skip(1), us.last(), us.len() - 1, b.operands_position, t)); assert(w[1] == w.skip(1)[0]); }
    pub proof fn spans(a: Position, b: Position)
        requires fits(a), fits(b), pend(a) <= b.start
        ensures fits(spanned(a, b)), spanned(a, b).start == a.start, pend(spanned(a, b)) == pend(b), spanned(b, a) == spanned(a, b)
    { }
    // A node is where its tokens are.
    pub open spec fn placed(p: Position, s: Seq<Tk>, t: Seq<Tk>) -> bool {
        t.len() < s.len() && suf(s, t) && fits(p) && p.start == s[0].position.start && pend(p) == pend(s[s.len() - t.len() - 1].position)
    }
    pub proof fn tok_lt(s: Seq<Tk>, i: int, j: int)
        requires toks_ok(s), 0 <= i < s.len(), 0 <= j < s.len()
        ensures fits(s[i].position), fits(s[j].position), i < j ==> pend(s[i].position) <= s[j].position.start
    { }
    pub proof fn suf_ok(s: Seq<Tk>, t: Seq<Tk>)
        requires suf(s, t), toks_ok(s)
        ensures toks_ok(t), t.len() > 0 ==> t[0] == s[s.len() - t.len()], suf(s, s), t.len() > 0 ==> suf(s, t.skip(1))
    { suf_in(s, t); assert(s =~= s.skip(0)); if t.len() > 0 { suf_next(s, t); } }
    pub proof fn span_un(b: UnaryNode, s: Seq<Tk>, t: Seq<Tk>)
        requires s.len() > 0, reads_un(b, s, t), toks_ok(s)
        ensures placed(un_pos(b), s, t), un_pos_ok(b)
        decreases b
    {
        hide(toks_in); hide(toks_ok);
        let v = s.skip(1);
        assert(suf(s, s.skip(1))) by { assert(s.skip(1) =~= s.skip(s.len() - v.len())); } suf_ok(s, v);
        reads_span(b.operand, v, t);
        suf_trans(s, v, t);
        tok_lt(s, 0, 1); spans(s[0].position, npos(b.operand));
        assert(v[v.len() - t.len() - 1] == s[s.len() - t.len() - 1]);
    }
    pub proof fn span_bin(b: BinaryNode, s: Seq<Tk>, t: Seq<Tk>)
        requires s.len() > 0, reads_bin(b, s, t), toks_ok(s)
        ensures placed(bin_pos(b), s, t), bin_pos_ok(b)
        decreases b
    {
        hide(toks_in); hide(toks_ok);
        let u = choose|u: Seq<Tk>| #[trigger] cut(u) && reads(b.operand_1, s, u) && u.len() > 0 && u[0] == tk(Token::BinaryOperator(b.operator), b.operator_position) && reads(b.operand_2, u.skip(1), t);
        reads_span(b.operand_1, s, u); suf_ok(s, u);
        let v = u.skip(1); suf_ok(s, v);
        reads_span(b.operand_2, v, t); suf_trans(s, v, t);
        let k = s.len() - u.len();
        tok_lt(s, k - 1, k); tok_lt(s, k, k + 1); tok_lt(s, 0, k - 1);
        spans(npos(b.operand_1), npos(b.operand_2));
        assert(v[v.len() - t.len() - 1] == s[s.len() - t.len() - 1]);
        assert(v[0] == s[k + 1]);
        tok_lt(s, k + 1, s.len() - t.len() - 1);
    }
    pub proof fn span_par(b: ParenthesizedNode, s: Seq<Tk>, t: Seq<Tk>)
        requires s.len() > 0, reads_par(b, s, t), toks_ok(s)
        ensures placed(spanned(b.open_position, b.close_position), s, t), fits(b.open_position), fits(b.close_position)
    {
        hide(toks_in); hide(toks_ok); 
        let v = s.skip(1);
        let u = choose|u: Seq<Tk>| #[trigger] cut(u) && reads(b.node, s.skip(1), u) && u.len() > 0 && u[0] == tk(Token::CloseParen, b.close_position) && t == u.skip(1);
        assert(suf(s, s.skip(1))) by { assert(s.skip(1) =~= s.skip(s.len() - v.len())); } suf_ok(s, v);
        reads_suf(b.node, v, u); suf_trans(s, v, u); suf_ok(s, u);
        let k = s.len() - u.len();
        tok_lt(s, 0, k); spans(s[0].position, s[k].position);
    }
    pub proof fn span_fn(b: FunctionNode, s: Seq<Tk>, t: Seq<Tk>)
        requires s.len() > 0, reads_fn(b, s, t), toks_ok(s)
        ensures placed(spanned(b.function_name_position, b.operands_position), s, t), fits(b.function_name_position), fits(b.operands_position)
        decreases b
    {
        hide(toks_in); hide(toks_ok);
        let v = s.skip(1);
        assert(suf(s, s.skip(1))) by { assert(s.skip(1) =~= s.skip(s.len() - v.len())); } suf_ok(s, v);
        if open_next(v) {
            let us = fn_cuts(b, s, t);
            let m = us.len() - 1;
            args_suf(b, us, m);
            let e = if m == 0 { v.skip(1) } else { us.last() };
            if m > 0 { suf_trans(s, v, us.last()); }
            suf_ok(s, e);
            let k = s.len() - e.len();
            tok_lt(s, 0, 1); tok_lt(s, 1, k); spans(s[1].position, s[k].position); spans(s[0].position, b.operands_position);
        } else {
            assert(decreases_to!(b => b.operands)); assert(decreases_to!(b.operands => b.operands[0]));
            reads_span(b.operands@[0], v, t);
            suf_trans(s, v, t);
            tok_lt(s, 0, 1); spans(s[0].position, b.operands_position);
            assert(v[v.len() - t.len() - 1] == s[s.len() - t.len() - 1]);
        }
    }
    pub proof fn reads_span(n: SyntaxTreeNode, s: Seq<Tk>, t: Seq<Tk>)
        requires reads(n, s, t), toks_ok(s)
        ensures placed(npos(n), s, t), pos_ok(n)
        decreases n
    {
        match n {
            SyntaxTreeNode::Number(b) => { tok_lt(s, 0, 0); },
            SyntaxTreeNode::Variable(b) => { tok_lt(s, 0, 0); },
            SyntaxTreeNode::Unary(b) => { span_un(*b, s, t); },
            SyntaxTreeNode::Binary(b) => { span_bin(*b, s, t); },
            SyntaxTreeNode::Parenthesized(b) => { span_par(*b, s, t); },
            SyntaxTreeNode::Function(b) => { span_fn(*b, s, t); },
        }
    }
    pub proof fn near_in(s: Seq<Tk>)
        requires s.len() > 0
        ensures forall|q: Position| #[trigger] err_near(s.skip(1), s[0].position, q) ==> err_in(s, q), err_in(s, s[0].position), toks_ok(s) ==> toks_ok(s.skip(1)) && fits(s[0].position)
    {
        assert(s.skip(1) =~= s.skip(s.len() - s.skip(1).len()));
        suf_in(s, s.skip(1));
    }
    pub proof fn suf_pos(s: Seq<Tk>, t: Seq<Tk>)
        requires suf(s, t), t.len() > 0
        ensures err_in(s, t[0].position), toks_ok(s) ==> fits(t[0].position) && toks_ok(t) && toks_ok(t.skip(1)) && s[0].position.start <= t[0].position.start
    { suf_in(s, t); suf_next(s, t); suf_in(s, t.skip(1)); assert(t[0] == s[s.len() - t.len()]); if t.len() < s.len() { assert(toks_ok(s) ==> pend(s[0].position) <= t[0].position.start); } }
    pub proof fn one_done(b: FunctionNode, w: Seq<Tk>, t: Seq<Tk>)
        requires w.len() > 0, w[0] == fn_tok(b.function_name, b.function_name_position), !open_next(w.skip(1)), b.operands@.len() == 1, lev(b.operands@[0]) == 0, reads(b.operands@[0], w.skip(1), t), b.operands_position == npos(b.operands@[0])
        ensures reads(SyntaxTreeNode::Function(Box::new(b)), w, t)
    { assert(reads_fn(b, w, t)); }
    pub proof fn in_near(s: Seq<Tk>, t: Seq<Tk>, p: Position)
        requires suf(s, t)
        ensures forall|q: Position| #[trigger] err_in(t, q) ==> err_near(s, p, q), err_near(s, p, p), toks_ok(s) ==> toks_ok(t)
    { suf_in(s, t); }
    pub proof fn cons_skip(x: Tk, s: Seq<Tk>)
        ensures cons(x, s).len() == s.len() + 1, cons(x, s)[0] == x, cons(x, s).skip(1) == s
    { assert(cons(x, s).skip(1) =~= s); }
    pub proof fn fn_unfold(w: Seq<Tk>)
        requires w.len() > 0, w[0].value is Function
        ensures ({ let s = w.skip(1); item_rest(w) == (if open_next(s) { if s.len() > 1 && s[1].value is CloseParen { Some(s.skip(2)) } else { args_rest(s.skip(1)) } } else { opnd_rest(s) }) })
    { if w.len() > 1 { assert(w.skip(1).skip(1) =~= w.skip(2)); } if w.len() > 2 { assert(w.skip(1).skip(2) =~= w.skip(3)); } }
    pub open spec fn end_pos(e: ExpressionEnd) -> Option<Position> { match e { ExpressionEnd::Comma(p) => Some(p), ExpressionEnd::CloseParen(p) => Some(p), ExpressionEnd::InputEmpty => None } }
    pub open spec fn args_stepped(s: Seq<Tk>, r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>, t: Seq<Tk>) -> bool {
        &&& stops(s) == (r is Ok && r->Ok_0.0 is None)
        &&& (r is Ok && end_pos(r->Ok_0.1) is Some ==> err_in(s, end_pos(r->Ok_0.1)->0) && (toks_ok(s) ==> fits(end_pos(r->Ok_0.1)->0) && s[0].position.start <= end_pos(r->Ok_0.1)->0.start))
        &&& (r is Ok && toks_ok(s) ==> toks_ok(t))
        &&& match r {
                Ok((Some(n), e)) => expr_rest(s) is Some && reads(n, s, expr_rest(s)->0) && ended(expr_rest(s)->0, e, t) && args_rest(s) == (match e { ExpressionEnd::Comma(_) => args_rest(t), ExpressionEnd::CloseParen(_) => Some(t), ExpressionEnd::InputEmpty => None }),
                _ => args_rest(s) is None && expr_rest(s) is None,
            }
    }
    pub proof fn args_step(s: Seq<Tk>, r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>, t: Seq<Tk>)
        requires expr_read(s, r, t)
        ensures
            args_stepped(s, r, t)
    {
        if stops(s) { no_operand(s); }
        match r { Ok((Some(n), e)) => { let u = expr_rest(s)->0; reads_suf(n, s, u); if u.len() > 0 { suf_pos(s, u); } else { suf_in(s, u); } }, Ok((None, e)) => { assert(s =~= s.skip(0)); if s.len() > 0 { suf_pos(s, s); } }, _ => {} }
    }
    pub open spec fn item_read(s: Seq<Tk>, r: Result<InputReadResult, Positioned<SyntaxError>>, t: Seq<Tk>) -> bool {
        match r {
            Ok(InputReadResult::End(e)) => ended(s, e, t),
            Ok(InputReadResult::Operator(o)) => s.len() > 0 && s[0] == tk(Token::BinaryOperator(o.value), o.position) && t == s.skip(1),
            Ok(InputReadResult::Operand(n)) => item_rest(s) == Some(t) && reads(n, s, t) && lev(n) == 0,
            Err(e) => !stops(s) && !(s[0].value is BinaryOperator) && item_rest(s) is None && err_in(s, e.position),
        }
    }
    pub open spec fn expr_read(s: Seq<Tk>, r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>, t: Seq<Tk>) -> bool {
        match r {
            Ok((Some(n), e)) => exists|u: Seq<Tk>| #[trigger] cut(u) && expr_rest(s) == Some(u) && reads(n, s, u) && ended(u, e, t),
            Ok((None, e)) => ended(s, e, t),
            Err(e) => !stops(s) && expr_rest(s) is None && err_in(s, e.position),
        }
    }
}
items {
    // ---- a whole line ----
    pub open spec fn assigns(s: Seq<Tk>) -> bool { s.len() >= 2 && s[0].value is Variable && s[1].value is AssignmentOperator }
    pub open spec fn right_side(s: Seq<Tk>) -> Seq<Tk> { if assigns(s) { s.skip(2) } else { s } }
    // It is one expression, from beginning to end.
    pub open spec fn whole(s: Seq<Tk>) -> bool { expr_rest(s) is Some && expr_rest(s)->0.len() == 0 }
    pub open spec fn tree_of(t: SyntaxTree, s: Seq<Tk>) -> bool {
        &&& reads(t.root, right_side(s), Seq::empty())
        &&& match t.maybe_result_var { Some(v) => assigns(s) && s[0] == tk(Token::Variable(v.value), v.position), None => !assigns(s) }
    }
    pub open spec fn new_stepped(s: Seq<Tk>, r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>) -> bool {
        match r {
            Ok((Some(n), ExpressionEnd::InputEmpty)) => whole(right_side(s)) && reads(n, right_side(s), Seq::empty()),
            Ok((None, ExpressionEnd::InputEmpty)) => right_side(s).len() == 0 && !whole(right_side(s)),
            Ok((_, ExpressionEnd::Comma(p))) => !whole(right_side(s)) && err_in(s, p),
            Ok((_, ExpressionEnd::CloseParen(p))) => !whole(right_side(s)) && err_in(s, p),
            Err(e) => !whole(right_side(s)) && err_in(s, e.position),
        }
    }
    pub proof fn new_step(s: Seq<Tk>, r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>, t: Seq<Tk>)
        requires expr_read(right_side(s), r, t)
        ensures new_stepped(s, r)
    {
        let w = right_side(s);
        assert(suf(s, w)) by { assert(s =~= s.skip(0)); }
        suf_in(s, w);
        match r {
            Ok((Some(n), e)) => {
                let u = choose|u: Seq<Tk>| #[trigger] cut(u) && expr_rest(w) == Some(u) && reads(n, w, u) && ended(u, e, t);
                reads_suf(n, w, u);
                match e {
                    ExpressionEnd::InputEmpty => { assert(u =~= Seq::empty()); },
                    _ => { suf_pos(w, u); },
                }
            },
            Ok((None, e)) => { assert(stops(w)); no_operand(w); match e { ExpressionEnd::InputEmpty => { }, _ => { assert(w =~= w.skip(0)); suf_pos(w, w); } } },
            Err(e) => { },
        }
    }
}
func "SyntaxTree::new" { ret r; props { C04, C05, C13 }
  spec { requires toks_ok(input@)
    ensures match r {
      Ok(t) => whole(right_side(input@)) && tree_of(t, input@),
      Err(e) => !whole(right_side(input@)) && (err_in(input@, e.position) || right_side(input@).len() == 0 && e.position.start == 0 && pend(e.position) == 0),
    } }
  entry { let ghost s0 = input@; proof { assert forall|r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>, t: Seq<Tk>| #[trigger] expr_read(right_side(s0), r, t) implies new_stepped(s0, r) by { new_step(s0, r, t); } } }
  after_let maybe_result_var { assert(input@ =~= right_side(s0)); assert(toks_ok(right_side(s0))) by { assert(suf(s0, right_side(s0))) by { assert(s0 =~= s0.skip(0)); } suf_in(s0, right_side(s0)); } }
}
func "SyntaxTree::read_expression" { ret r; props { C04, C05, C13 }
  spec { requires toks_ok(old(input)@) ensures expr_read(old(input)@, r, final(input)@) decreases old(input)@.len(), 3int }
  entry { let ghost s0 = input@; let ghost mut bs: Seq<Seq<Tk>> = seq![s0]; let ghost mut here: Seq<Tk> = s0; let ghost mut l: Seq<OperandOrOperator> = Seq::empty(); let ghost mut ee: Seq<Tk> = s0; let ghost mut a = false; let ghost mut o0: Seq<OperandOrOperator> = Seq::empty();
    proof { none_yet(l, bs); assert(s0 =~= s0.skip(0)); } }
  loop 0 { attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
    spec {
      invariant_except_break input@ == bs.last()
      invariant bs.len() == ooos@.len() + 1, spells(ooos@, bs), single(ooos@, bs), bs[0] == s0, suf(s0, bs.last()), toks_ok(bs.last()),
      ensures ended(bs.last(), expression_end, input@)
      decreases input@.len()
    }
    start { here = input@; l = ooos@; assert forall|r: Result<InputReadResult, Positioned<SyntaxError>>, t: Seq<Tk>| #[trigger] item_read(here, r, t) && r is Err implies expr_read(s0, Err(r->Err_0), t) by { read_fails(s0, l, bs, r->Err_0, t); } }
    after { proof { raw_rest(ooos@, bs, 0); a = listed(ooos@, 0); ee = bs.last(); single_neg(ooos@, bs); } }
  }
  after_call push_back 0 { item_push(s0, l, bs, ooos@.last(), input@); bs = bs.push(input@); assert(ooos@ =~= l.push(ooos@.last())); }
  after_let temp { assert(ooos@ + temp@ =~= ooos@); }
  loop 1 { 
    spec {
      invariant spells(ooos@ + temp@, bs), all_lev(ooos@ + temp@, 0), negated(ooos@ + temp@, ooos@.len() as int), listed(ooos@ + temp@, 0) == a, bs[0] == s0, bs.last() == ee,
      ensures ooos@.len() == 0
      decreases ooos@.len()
    }
    start { l = ooos@ + temp@; o0 = ooos@; join_l(o0, temp@); }
    after { proof { assert(ooos@ + temp@ =~= temp@); turns(temp@); lev_start(temp@); } }
  }
  after_call push_back 2 { let k = o0.len() - 1; neg_step(l, bs, k); bs = bs.remove(k); neg_join(o0, temp@); assert(ooos@ =~= o0.drop_last().drop_last().push(OperandOrOperator::Operand(neg_node(o0[k - 1]->Operator_0, o0[k]->Operand_0)))) by { reveal(neg_node); } }
  after_call push_front 0 { assert(ooos@ + temp@ =~= l); neg_skip(l, o0.len() - 1); }
  loop 2 { iter it; before { proof { assert forall|s: Seq<&&'static [BinaryOperatorToken]>, o: Seq<&'static [BinaryOperatorToken]>| #[trigger] op_levels(o) && #[trigger] ref_seq(o, s) implies levels_src(s) by { levels_are(s); } } }  
    spec {
      invariant levels_src(it.src()), 0 <= it.idx() <= 4, temp@.len() == 0, spells(ooos@, bs), in_turn(ooos@) == a, lev_ok(ooos@, 0, it.idx() + 1), pat_ok(ooos@, 0, it.idx() + 1), bs[0] == s0, bs.last() == ee,
      ensures it.idx() == 4
      decreases 4 - it.idx()
    }
    start { assert(temp@ + ooos@ =~= ooos@); }
  }
  loop 3 { 
    spec {
      invariant levels_src(it.src()), 1 <= it.idx() <= 4, *ordered_operator == *it.src()[it.idx() - 1], spells(temp@ + ooos@, bs), in_turn(temp@ + ooos@) == a, lev_ok(temp@ + ooos@, temp@.len() as int, it.idx()), pat_ok(temp@ + ooos@, temp@.len() as int, it.idx()), bs[0] == s0, bs.last() == ee,
      ensures ooos@.len() == 0
      decreases ooos@.len()
    }
    start { l = temp@ + ooos@; o0 = ooos@; join_r(temp@, o0); }
    after { proof { assert(ooos@.len() == 0); join_nil(temp@, ooos@); lev_next(temp@, it.idx()); } }
  }
  after_call push_front 1 { let t = temp@.len() as int; bin_step(l, bs, t, it.idx()); bs = bs.remove(t + 2).remove(t + 1); bin_join(temp@, o0); assert(ooos@ =~= seq![OperandOrOperator::Operand(bin_node(o0[1]->Operator_0, o0[0]->Operand_0, o0[2]->Operand_0))] + o0.skip(3)) by { reveal(bin_node); } }
  after_call push_back 3 { assert(temp@ + ooos@ =~= l); bin_skip(l, temp@.len() - 1, it.idx()); }
  before_let root { l = ooos@; assert(cut(ee)); finished(l, bs); }
}
func "SyntaxTree::read_operand_or_operator" { ret r; props { C04, C05, C13 }
  spec { requires toks_ok(old(input)@) ensures item_read(old(input)@, r, final(input)@) decreases old(input)@.len(), 1int }
  entry { let ghost s0 = input@; proof { if s0.len() > 0 { near_in(s0); cons_skip(s0[0], s0.skip(1)); assert(cons(s0[0], s0.skip(1)) =~= s0); } } }
}
func "SyntaxTree::read_operand" { ret r; props { C04, C05, C13 }
  spec { requires toks_ok(old(input)@)
    ensures match r {
      Ok(OperandReadResult::Operand(n)) => opnd_rest(old(input)@) == Some(final(input)@) && reads(n, old(input)@, final(input)@) && lev(n) == 0,
      Ok(OperandReadResult::End(_)) => opnd_rest(old(input)@) is None,
      Err(e) => opnd_rest(old(input)@) is None && err_in(old(input)@, e.position),
    }
    decreases old(input)@.len(), 2int }
  entry { let ghost s0 = input@; proof { if s0.len() > 0 { near_in(s0); } if stops(s0) { no_operand(s0); } } }
}
func "SyntaxTree::read_unary_node" { ret r; props { C04, C05, C13 }
  spec { requires toks_ok(old(input)@)
    ensures match r {
      Ok(SyntaxTreeNode::Unary(b)) => b.operator == operator && b.operator_position == operator_position && opnd_rest(old(input)@) == Some(final(input)@) && reads(b.operand, old(input)@, final(input)@) && lev(b.operand) == 0,
      Ok(_) => false,
      Err(e) => opnd_rest(old(input)@) is None && err_near(old(input)@, operator_position, e.position),
    }
    decreases old(input)@.len(), 3int }
}
func "SyntaxTree::read_parenthesized_node" { ret r; props { C04, C05, C13 }
  spec { requires toks_ok(old(input)@), fits(open_position)
    ensures ({ let w = cons(tk(Token::OpenParen, open_position), old(input)@); match r {
      Ok(n) => item_rest(w) == Some(final(input)@) && reads(n, w, final(input)@) && lev(n) == 0,
      Err(e) => item_rest(w) is None && err_near(old(input)@, open_position, e.position),
    } })
    decreases old(input)@.len(), 4int }
  entry { let ghost s0 = input@; let ghost w = cons(tk(Token::OpenParen, open_position), s0); proof { cons_skip(w[0], s0); assert forall|r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>, t: Seq<Tk>| #[trigger] expr_read(s0, r, t) implies args_stepped(s0, r, t) by { args_step(s0, r, t); } } }
}
func "SyntaxTree::read_function_node" { ret r; props { C04, C05, C13 }
  spec { requires toks_ok(old(input)@), fits(function_name_position)
    ensures ({ let w = cons(fn_tok(function_name, function_name_position), old(input)@); match r {
      Ok(n) => item_rest(w) == Some(final(input)@) && reads(n, w, final(input)@) && lev(n) == 0,
      Err(e) => item_rest(w) is None && err_near(old(input)@, function_name_position, e.position),
    } })
    decreases old(input)@.len(), 4int }
  entry { hide(toks_in); hide(toks_ok); hide(err_in); hide(err_near); hide(reads); hide(item_rest); hide(args_rest); hide(opnd_rest); hide(expr_rest);
    let ghost s0 = input@; let ghost f0 = fn_tok(function_name, function_name_position); let ghost w = cons(f0, s0); let ghost mut us: Seq<Seq<Tk>> = seq![s0]; let ghost mut here: Seq<Tk> = s0;
    proof { cons_skip(f0, s0); fn_unfold(w); if s0.len() == 0 { no_operand(s0); } assert(s0 =~= s0.skip(0)); in_near(s0, s0, function_name_position); if s0.len() > 0 { near_in(s0); } } }
  after_let operand { reads_span(operand, s0, input@); }
  after_let node 0 { one_done(node, w, input@); }
  after_let node 1 { args_done(node, w, us, close_paren_pos, input@); }
  after_call push_front { assert(input@ =~= s0); }
  loop 0 { attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] }
    spec {
      invariant_except_break us.last().len() > 0, input@ == us.last().skip(1), toks_ok(input@), suf(s0, input@), us.len() > 1 ==> item_rest(w) == args_rest(input@),
        match maybe_comma_pos { None => us.len() == 1, Some(p) => us.len() > 1 && us.last()[0] == tk(Token::Comma, p) && err_in(s0, p) },
      invariant args_read(s0, us, operands@), suf(s0, us.last()), s0.len() > 0, s0[0] == post_fn_name_token,
      ensures closed(s0, us, close_paren_pos, input@), item_rest(w) == Some(input@)
      decreases input@.len()
    }
    start { here = input@; in_near(s0, here, function_name_position);  assert forall|r: Result<(Option<SyntaxTreeNode>, ExpressionEnd), Positioned<SyntaxError>>, t: Seq<Tk>| #[trigger] expr_read(here, r, t) implies args_stepped(here, r, t) by { args_step(here, r, t); } }
  }
  after_call push { let u = expr_rest(here)->0; args_next(s0, us, operands@.drop_last(), operands@.last(), u); us = us.push(u); if u.len() > 0 { suf_next(s0, u); suf_pos(s0, u); } }
}
items {
    // ---- a list of operands and operators ----
    pub open spec fn minus_at(l: Seq<OperandOrOperator>, j: int) -> bool { l[j] is Operator && l[j]->Operator_0.value is Subtract }
    // Each item of the list is written between two boundaries.
    pub open spec fn spelled(o: OperandOrOperator, s: Seq<Tk>, t: Seq<Tk>) -> bool {
        match o {
            OperandOrOperator::Operand(n) => reads(n, s, t),
            OperandOrOperator::Operator(p) => s.len() > 0 && s[0] == tk(Token::BinaryOperator(p.value), p.position) && t == s.skip(1),
        }
    }
    #[verifier::opaque] pub open spec fn spells(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>) -> bool {
        bs.len() == l.len() + 1 && forall|i: int| 0 <= i < l.len() ==> spelled(#[trigger] l[i], bs[i], bs[i + 1])
    }
    #[verifier::opaque] pub open spec fn single(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>) -> bool {
        forall|i: int| 0 <= i < l.len() && #[trigger] l[i] is Operand ==> lev(l[i]->Operand_0) == 0 && item_rest(bs[i]) == Some(bs[i + 1])
    }
    #[verifier::opaque] pub open spec fn all_lev(l: Seq<OperandOrOperator>, k: int) -> bool { forall|i: int| 0 <= i < l.len() && #[trigger] l[i] is Operand ==> lev(l[i]->Operand_0) <= k }
    // From i on, it is an expression: operands with operators between them, and minus signs before operands.
    #[verifier::opaque] pub open spec fn listed(l: Seq<OperandOrOperator>, i: int) -> bool {
        &&& 0 <= i < l.len() && l.last() is Operand
        &&& forall|j: int| i <= j < l.len() ==> match #[trigger] l[j] { OperandOrOperator::Operand(_) => j == i || l[j - 1] is Operator, OperandOrOperator::Operator(p) => minus_at(l, j) || j > i && l[j - 1] is Operand }
    }
    // Operands and operators in turn.
    #[verifier::opaque] pub open spec fn in_turn(l: Seq<OperandOrOperator>) -> bool {
        l.len() % 2 == 1 && forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j] is Operand) == (j % 2 == 0)
    }
    pub proof fn rest_less(s: Seq<Tk>)
        ensures item_rest(s) is Some ==> item_rest(s)->0.len() < s.len(), opnd_rest(s) is Some ==> opnd_rest(s)->0.len() < s.len(), expr_rest(s) is Some ==> expr_rest(s)->0.len() < s.len(), args_rest(s) is Some ==> args_rest(s)->0.len() < s.len()
        decreases s.len()
    {
        if s.len() > 0 {
            rest_less(s.skip(1));
            if s.len() > 1 { rest_less(s.skip(2)); }
            assert(item_rest(s) is Some ==> item_rest(s)->0.len() < s.len());
            assert(opnd_rest(s) is Some ==> opnd_rest(s)->0.len() < s.len());
            if opnd_rest(s) is Some { let u = opnd_rest(s)->0; if u.len() > 0 { rest_less(u.skip(1)); } }
            assert(expr_rest(s) is Some ==> expr_rest(s)->0.len() < s.len());
            if expr_rest(s) is Some { let u = expr_rest(s)->0; if u.len() > 0 { rest_less(u.skip(1)); } }
        } else { no_operand(s); }
    }
    pub proof fn reads_starts(n: SyntaxTreeNode, s: Seq<Tk>)
        requires exists|t: Seq<Tk>| reads(n, s, t)
        ensures !stops(s)
        decreases n
    {
        let t = choose|t: Seq<Tk>| reads(n, s, t);
        match n {
            SyntaxTreeNode::Binary(b) => { let u = choose|u: Seq<Tk>| #[trigger] cut(u) && reads(b.operand_1, s, u) && u.len() > 0 && u[0] == tk(Token::BinaryOperator(b.operator), b.operator_position) && reads(b.operand_2, u.skip(1), t); reads_starts(b.operand_1, s); },
            SyntaxTreeNode::Unary(b) => { assert(reads_un(*b, s, t)); },
            SyntaxTreeNode::Parenthesized(b) => { assert(reads_par(*b, s, t)); },
            SyntaxTreeNode::Function(b) => { assert(reads_fn(*b, s, t)); },
            _ => {}
        }
    }
    pub proof fn minus_rest(s: Seq<Tk>)
        requires s.len() > 0, s[0].value is BinaryOperator
        ensures item_rest(s) is None, opnd_rest(s) == (if is_minus(s[0].value) { opnd_rest(s.skip(1)) } else { None }), is_minus(s[0].value) ==> expr_rest(s) == expr_rest(s.skip(1)), !is_minus(s[0].value) ==> expr_rest(s) is None
    {
        rest_less(s); rest_less(s.skip(1));
        assert(item_rest(s) is None);
        assert(opnd_rest(s) == (if is_minus(s[0].value) { opnd_rest(s.skip(1)) } else { None }));
        assert(expr_rest(s.skip(1)) == expr_rest(s.skip(1)));
    }
    pub proof fn item_expr(s: Seq<Tk>)
        requires item_rest(s) is Some
        ensures ({ let u = item_rest(s)->0; u.len() < s.len() && opnd_rest(s) == Some(u) && expr_rest(s) == (if stops(u) { Some(u) } else if u[0].value is BinaryOperator { expr_rest(u.skip(1)) } else { None }) })
    { rest_less(s); if s.len() > 0 && is_minus(s[0].value) { minus_rest(s); } assert(opnd_rest(s) == item_rest(s)); }
    pub proof fn raw_rest(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, i: int)
        requires spells(l, bs), single(l, bs), stops(bs.last()), 0 <= i <= l.len()
        ensures expr_rest(bs[i]) == (if listed(l, i) { Some(bs.last()) } else { None })
        decreases l.len() - i
    {
        hide(reads); hide(item_rest); hide(opnd_rest); hide(expr_rest); hide(args_rest); reveal(spells); reveal(single); reveal(listed);
        if i == l.len() { no_operand(bs[i]); } else {
            assert(spelled(l[i], bs[i], bs[i + 1]));
            raw_rest(l, bs, i + 1);
            match l[i] {
                OperandOrOperator::Operator(p) => {
                    minus_rest(bs[i]);
                    if minus_at(l, i) {
                        if listed(l, i + 1) { assert(listed(l, i)); }
                        if listed(l, i) { assert(listed(l, i + 1)); }
                    } else { assert(!listed(l, i)); }
                },
                OperandOrOperator::Operand(n) => {
                    item_expr(bs[i]);
                    if i + 1 == l.len() { assert(listed(l, i)); }
                    else {
                        assert(spelled(l[i + 1], bs[i + 1], bs[i + 2]));
                        match l[i + 1] {
                            OperandOrOperator::Operand(m) => { assert(single_at(l, bs, i + 1)); item_expr(bs[i + 1]); starts_not_op(bs[i + 1]); assert(!listed(l, i)); },
                            OperandOrOperator::Operator(p) => {
                                raw_rest(l, bs, i + 2);
                                if listed(l, i + 2) { assert(listed(l, i)); }
                                if listed(l, i) { assert(listed(l, i + 2)); }
                            },
                        }
                    }
                },
            }
        }
    }
    pub open spec fn single_at(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, i: int) -> bool { l[i] is Operand && item_rest(bs[i]) == Some(bs[i + 1]) }
    pub proof fn starts_not_op(s: Seq<Tk>)
        requires item_rest(s) is Some
        ensures s.len() > 0, !stops(s), !(s[0].value is BinaryOperator)
    { if stops(s) { no_operand(s); } else if s[0].value is BinaryOperator { minus_rest(s); } }
}
items {
    // What cannot be read at all.
    pub open spec fn dead(u: Seq<Tk>) -> bool { !stops(u) && !(u[0].value is BinaryOperator) && item_rest(u) is None }
    pub proof fn dead_expr(s: Seq<Tk>) requires dead(s) ensures expr_rest(s) is None { assert(opnd_rest(s) is None); }
    pub proof fn raw_dead(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, i: int)
        requires spells(l, bs), single(l, bs), dead(bs.last()), 0 <= i <= l.len()
        ensures expr_rest(bs[i]) is None
        decreases l.len() - i
    {
        hide(reads); hide(args_rest); hide(item_rest); hide(opnd_rest); hide(expr_rest); reveal(spells); reveal(single);
        if i == l.len() { dead_expr(bs[i]); } else {
            assert(spelled(l[i], bs[i], bs[i + 1]));
            raw_dead(l, bs, i + 1);
            match l[i] {
                OperandOrOperator::Operator(p) => { minus_rest(bs[i]); },
                OperandOrOperator::Operand(n) => {
                    item_expr(bs[i]);
                    if i + 1 < l.len() {
                        assert(spelled(l[i + 1], bs[i + 1], bs[i + 2]));
                        match l[i + 1] {
                            OperandOrOperator::Operand(m) => { assert(single_at(l, bs, i + 1)); item_expr(bs[i + 1]); starts_not_op(bs[i + 1]); },
                            OperandOrOperator::Operator(p) => { raw_dead(l, bs, i + 2); },
                        }
                    }
                },
            }
        }
    }
    pub proof fn spells_suf(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, i: int)
        requires spells(l, bs), 0 <= i <= l.len()
        ensures suf(bs[0], bs[i]), toks_ok(bs[0]) ==> toks_ok(bs[i])
        decreases i
    { reveal(spells);
        if i == 0 { assert(bs[0] =~= bs[0].skip(0)); } else {
            spells_suf(l, bs, i - 1);
            assert(spelled(l[i - 1], bs[i - 1], bs[i - 1 + 1]));
            match l[i - 1] { OperandOrOperator::Operand(n) => { reads_suf(n, bs[i - 1], bs[i]); suf_trans(bs[0], bs[i - 1], bs[i]); }, OperandOrOperator::Operator(p) => { suf_next(bs[0], bs[i - 1]); } }
            suf_in(bs[0], bs[i]);
        }
    }
    pub proof fn spells_push(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, o: OperandOrOperator, t: Seq<Tk>)
        requires spells(l, bs), spelled(o, bs.last(), t)
        ensures spells(l.push(o), bs.push(t)), single(l, bs) && (o is Operand ==> lev(o->Operand_0) == 0 && item_rest(bs.last()) == Some(t)) ==> single(l.push(o), bs.push(t))
    {
        hide(reads); hide(item_rest); reveal(spells); reveal(single);
        let m = l.push(o); let cs = bs.push(t);
        assert forall|i: int| 0 <= i < m.len() implies spelled(#[trigger] m[i], cs[i], cs[i + 1]) by { if i < l.len() { assert(m[i] == l[i]); assert(cs[i] == bs[i] && cs[i + 1] == bs[i + 1]); } }
        if single(l, bs) && (o is Operand ==> lev(o->Operand_0) == 0 && item_rest(bs.last()) == Some(t)) {
            assert forall|i: int| 0 <= i < m.len() && #[trigger] m[i] is Operand implies lev(m[i]->Operand_0) == 0 && item_rest(cs[i]) == Some(cs[i + 1]) by { if i < l.len() { assert(m[i] == l[i]); assert(cs[i] == bs[i] && cs[i + 1] == bs[i + 1]); } }
        }
    }
    pub proof fn starts_on(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>)
        requires spells(l, bs), l.len() > 0
        ensures !stops(bs[0])
    { reveal(spells); assert(spelled(l[0], bs[0], bs[0int + 1])); match l[0] { OperandOrOperator::Operand(n) => { reads_starts(n, bs[0]); }, _ => {} } }
    // ---- minus signs that negate ----
    // From k on, none is left.
    #[verifier::opaque] pub open spec fn negated(l: Seq<OperandOrOperator>, k: int) -> bool {
        forall|j: int| k <= j < l.len() && 1 <= j && #[trigger] l[j] is Operand && minus_at(l, j - 1) ==> j >= 2 && l[j - 2] is Operand
    }
    #[verifier::opaque] pub open spec fn neg_node(p: Positioned<BinaryOperatorToken>, n: SyntaxTreeNode) -> SyntaxTreeNode { SyntaxTreeNode::Unary(Box::new(UnaryNode { operator: UnaryOperatorToken::Negate, operator_position: p.position, operand: n })) }
    #[verifier::opaque] pub open spec fn neg_list(l: Seq<OperandOrOperator>, k: int) -> Seq<OperandOrOperator> { l.remove(k).update(k - 1, OperandOrOperator::Operand(neg_node(l[k - 1]->Operator_0, l[k]->Operand_0))) }
    pub proof fn neg_reads(p: Positioned<BinaryOperatorToken>, n: SyntaxTreeNode, s: Seq<Tk>, t: Seq<Tk>)
        requires s.len() > 0, s[0] == tk(Token::BinaryOperator(p.value), p.position), p.value is Subtract, reads(n, s.skip(1), t), lev(n) == 0
        ensures reads(neg_node(p, n), s, t), lev(neg_node(p, n)) == 0
    { reveal(neg_node); let b = UnaryNode { operator: UnaryOperatorToken::Negate, operator_position: p.position, operand: n }; assert(reads_un(b, s, t)); }
    pub proof fn bin_reads(p: Positioned<BinaryOperatorToken>, a: SyntaxTreeNode, b: SyntaxTreeNode, s: Seq<Tk>, u: Seq<Tk>, t: Seq<Tk>)
        requires reads(a, s, u), u.len() > 0, u[0] == tk(Token::BinaryOperator(p.value), p.position), reads(b, u.skip(1), t), lev(a) <= op_lev(p.value), lev(b) < op_lev(p.value)
        ensures reads(bin_node(p, a, b), s, t), lev(bin_node(p, a, b)) == op_lev(p.value)
    { reveal(bin_node); let n = BinaryNode { operator: p.value, operator_position: p.position, operand_1: a, operand_2: b }; assert(cut(u)); assert(reads_bin(n, s, t)); reads_starts(a, s); }
    pub proof fn neg_step(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, k: int)
        requires spells(l, bs), 1 <= k < l.len(), l[k] is Operand, minus_at(l, k - 1), k == 1 || l[k - 2] is Operator, all_lev(l, 0), negated(l, k + 1)
        ensures ({ let m = neg_list(l, k); let cs = bs.remove(k); spells(m, cs) && cs[0] == bs[0] && cs.last() == bs.last() && listed(m, 0) == listed(l, 0) && all_lev(m, 0) && negated(m, k) })
    {
        neg_spells(l, bs, k); neg_items(l, k); neg_listed(l, k);
    }
    pub proof fn neg_spells(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, k: int)
        requires spells(l, bs), 1 <= k < l.len(), l[k] is Operand, minus_at(l, k - 1), all_lev(l, 0)
        ensures ({ let m = neg_list(l, k); let cs = bs.remove(k); spells(m, cs) && cs[0] == bs[0] && cs.last() == bs.last() })
    {
        hide(reads); reveal(spells); reveal(all_lev); reveal(neg_list);
        let m = neg_list(l, k); let cs = bs.remove(k);
        assert(m.len() == l.len() - 1);
        assert(lev(l[k]->Operand_0) == 0);
        assert(spelled(l[k - 1], bs[k - 1], bs[k - 1 + 1])); assert(spelled(l[k], bs[k], bs[k + 1]));
        neg_reads(l[k - 1]->Operator_0, l[k]->Operand_0, bs[k - 1], bs[k + 1]);
        assert(m[k - 1] == OperandOrOperator::Operand(neg_node(l[k - 1]->Operator_0, l[k]->Operand_0)));
        assert forall|i: int| 0 <= i < m.len() implies spelled(#[trigger] m[i], cs[i], cs[i + 1]) by {
            if i < k - 1 { assert(m[i] == l[i]); assert(spelled(l[i], bs[i], bs[i + 1])); }
            else if i >= k { assert(m[i] == l[i + 1]); assert(spelled(l[i + 1], bs[i + 1], bs[i + 1 + 1])); }
        }
    }
    pub proof fn neg_items(l: Seq<OperandOrOperator>, k: int)
        requires 1 <= k < l.len(), l[k] is Operand, all_lev(l, 0), negated(l, k + 1)
        ensures all_lev(neg_list(l, k), 0), negated(neg_list(l, k), k)
    {
        reveal(all_lev); reveal(negated); reveal(neg_list); reveal(neg_node);
        let m = neg_list(l, k);
        assert forall|i: int| 0 <= i < m.len() && #[trigger] m[i] is Operand implies lev(m[i]->Operand_0) <= 0 by { if i < k - 1 { assert(m[i] == l[i]); } else if i >= k { assert(m[i] == l[i + 1]); } }
        assert forall|j: int| k <= j < m.len() && 1 <= j && #[trigger] m[j] is Operand && minus_at(m, j - 1) implies j >= 2 && m[j - 2] is Operand by { assert(m[j] == l[j + 1]); if j > k { assert(m[j - 1] == l[j]); if j - 2 >= k { assert(m[j - 2] == l[j - 1]); } } }
    }
    pub proof fn neg_listed(l: Seq<OperandOrOperator>, k: int)
        requires 1 <= k < l.len(), l[k] is Operand, minus_at(l, k - 1), k == 1 || l[k - 2] is Operator
        ensures listed(neg_list(l, k), 0) == listed(l, 0)
    { reveal(listed); reveal(neg_list);
        let m = neg_list(l, k);
        assert(forall|j: int| 0 <= j < k - 1 ==> m[j] == l[j]);
        assert(forall|j: int| k <= j < m.len() ==> #[trigger] m[j] == l[j + 1]);
        assert(m[k - 1] is Operand);
        assert(m.last() is Operand == l.last() is Operand) by { if k < m.len() { assert(m.last() == l.last()); } }
        if listed(l, 0) {
            assert forall|j: int| 0 <= j < m.len() implies match #[trigger] m[j] { OperandOrOperator::Operand(_) => j == 0 || m[j - 1] is Operator, OperandOrOperator::Operator(p) => minus_at(m, j) || j > 0 && m[j - 1] is Operand } by {
                if j < k - 1 { assert(l[j] == m[j]); if j > 0 { assert(l[j - 1] == m[j - 1]); } } else if j == k - 1 { if j > 0 { assert(m[j - 1] == l[k - 2]); } } else { assert(l[j + 1] == m[j]); if j > k { assert(m[j - 1] == l[j]); } else { assert(l[j] is Operand); } }
            }
        }
        if listed(m, 0) {
            assert forall|j: int| 0 <= j < l.len() implies match #[trigger] l[j] { OperandOrOperator::Operand(_) => j == 0 || l[j - 1] is Operator, OperandOrOperator::Operator(p) => minus_at(l, j) || j > 0 && l[j - 1] is Operand } by {
                if j < k - 1 { assert(l[j] == m[j]); if j > 0 { assert(l[j - 1] == m[j - 1]); } } else if j > k { assert(m[j - 1] == l[j]); if j - 1 > k { assert(m[j - 2] == l[j - 1]); } }
            }
        }
    }
    // With none left, the list goes in turn.
    pub proof fn no_run(l: Seq<OperandOrOperator>, j: int)
        requires listed(l, 0), negated(l, 0), 0 <= j < l.len(), minus_at(l, j), j == 0 || l[j - 1] is Operator
        ensures false
        decreases l.len() - j
    { reveal(listed); reveal(negated);
        assert(j + 1 < l.len());
        assert(match l[j + 1] { OperandOrOperator::Operand(_) => j + 1 == 0 || l[j] is Operator, OperandOrOperator::Operator(p) => minus_at(l, j + 1) || j + 1 > 0 && l[j] is Operand });
        if l[j + 1] is Operand { assert(minus_at(l, j + 1 - 1)); } else { no_run(l, j + 1); }
    }
    pub open spec fn step_fits(l: Seq<OperandOrOperator>, j: int) -> bool { match l[j] { OperandOrOperator::Operand(_) => j == 0 || l[j - 1] is Operator, OperandOrOperator::Operator(p) => minus_at(l, j) || j > 0 && l[j - 1] is Operand } }
    pub proof fn listed_at(l: Seq<OperandOrOperator>, j: int) requires listed(l, 0), 0 <= j < l.len() ensures step_fits(l, j) { reveal(listed); }
    pub proof fn turn_at(l: Seq<OperandOrOperator>, j: int)
        requires listed(l, 0), negated(l, 0), 0 <= j < l.len()
        ensures (l[j] is Operand) == (j % 2 == 0)
        decreases j
    {
       
        if j > 0 { turn_at(l, j - 1); }
        listed_at(l, j);
        if l[j] is Operator && j % 2 == 0 { if !minus_at(l, j) { assert(l[j - 1] is Operand); } else { no_run(l, j); } }
    }
    pub proof fn turn_is(l: Seq<OperandOrOperator>, j: int) requires in_turn(l), 0 <= j < l.len() ensures (l[j] is Operand) == (j % 2 == 0) { reveal(in_turn); }
    pub proof fn turns(l: Seq<OperandOrOperator>)
        requires negated(l, 0)
        ensures listed(l, 0) == in_turn(l)
    { reveal(listed); reveal(in_turn);
       
        if listed(l, 0) {
            assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j] is Operand) == (j % 2 == 0) by { turn_at(l, j); }
            turn_at(l, l.len() - 1);
        }
        if in_turn(l) { turns_back(l); }
    }
    pub proof fn turns_back(l: Seq<OperandOrOperator>)
        requires in_turn(l)
        ensures listed(l, 0)
    { reveal(listed);
       
        assert(l.len() % 2 == 1) by { reveal(in_turn); }
        turn_is(l, l.len() - 1);
        assert forall|j: int| 0 <= j < l.len() implies match #[trigger] l[j] { OperandOrOperator::Operand(_) => j == 0 || l[j - 1] is Operator, OperandOrOperator::Operator(p) => minus_at(l, j) || j > 0 && l[j - 1] is Operand } by { turn_is(l, j); if j > 0 { turn_is(l, j - 1); } }
    }
    // ---- operators, level by level ----
    pub open spec fn pat(l: Seq<OperandOrOperator>, i: int) -> bool { 0 <= i && i + 2 < l.len() && l[i] is Operand && l[i + 1] is Operator && l[i + 2] is Operand }
    #[verifier::opaque] pub open spec fn lev_ok(l: Seq<OperandOrOperator>, t: int, k: int) -> bool { forall|i: int| 0 <= i < l.len() && #[trigger] l[i] is Operand ==> lev(l[i]->Operand_0) <= (if i <= t { k } else { k - 1 }) }
    #[verifier::opaque] pub open spec fn pat_ok(l: Seq<OperandOrOperator>, t: int, k: int) -> bool { forall|i: int| #[trigger] pat(l, i) ==> op_lev(l[i + 1]->Operator_0.value) > (if i < t { k } else { k - 1 }) }
    #[verifier::opaque] pub open spec fn bin_node(p: Positioned<BinaryOperatorToken>, a: SyntaxTreeNode, b: SyntaxTreeNode) -> SyntaxTreeNode { SyntaxTreeNode::Binary(Box::new(BinaryNode { operator: p.value, operator_position: p.position, operand_1: a, operand_2: b })) }
    #[verifier::opaque] pub open spec fn bin_list(l: Seq<OperandOrOperator>, t: int) -> Seq<OperandOrOperator> { l.remove(t + 2).remove(t + 1).update(t, OperandOrOperator::Operand(bin_node(l[t + 1]->Operator_0, l[t]->Operand_0, l[t + 2]->Operand_0))) }
    pub proof fn bin_step(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, t: int, k: int)
        requires spells(l, bs), pat(l, t), lev_ok(l, t, k), pat_ok(l, t, k), op_lev(l[t + 1]->Operator_0.value) == k
        ensures ({ let m = bin_list(l, t); let cs = bs.remove(t + 2).remove(t + 1); spells(m, cs) && cs[0] == bs[0] && cs.last() == bs.last() && in_turn(m) == in_turn(l) && lev_ok(m, t, k) && pat_ok(m, t, k) })
    {
        bin_spells(l, bs, t, k); bin_turn(l, t); bin_levs(l, t, k);
    }
    pub proof fn bin_spells(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, t: int, k: int)
        requires spells(l, bs), pat(l, t), lev_ok(l, t, k), op_lev(l[t + 1]->Operator_0.value) == k
        ensures ({ let m = bin_list(l, t); let cs = bs.remove(t + 2).remove(t + 1); spells(m, cs) && cs[0] == bs[0] && cs.last() == bs.last() })
    {
        hide(reads); reveal(spells); reveal(lev_ok); reveal(bin_list);
        let m = bin_list(l, t); let cs = bs.remove(t + 2).remove(t + 1);
        assert(m.len() == l.len() - 2);
        assert(cs.len() == bs.len() - 2);
        assert(forall|i: int| 0 <= i <= t ==> #[trigger] cs[i] == bs[i]);
        assert(forall|i: int| t < i < cs.len() ==> #[trigger] cs[i] == bs[i + 2]);
        assert(forall|i: int| 0 <= i < t ==> #[trigger] m[i] == l[i]);
        assert(forall|i: int| t < i < m.len() ==> #[trigger] m[i] == l[i + 2]);
        assert(spelled(m[t], cs[t], cs[t + 1])) by {
            assert(spelled(l[t], bs[t], bs[t + 1])); assert(spelled(l[t + 1], bs[t + 1], bs[t + 1 + 1])); assert(spelled(l[t + 2], bs[t + 2], bs[t + 2 + 1]));
            bin_reads(l[t + 1]->Operator_0, l[t]->Operand_0, l[t + 2]->Operand_0, bs[t], bs[t + 1], bs[t + 3]);
        }
        assert forall|i: int| 0 <= i < m.len() implies spelled(#[trigger] m[i], cs[i], cs[i + 1]) by {
            if i < t { assert(spelled(l[i], bs[i], bs[i + 1])); }
            else if i > t { assert(spelled(l[i + 2], bs[i + 2], bs[i + 2 + 1])); }
        }
    }
    pub proof fn bin_turn(l: Seq<OperandOrOperator>, t: int)
        requires pat(l, t)
        ensures in_turn(bin_list(l, t)) == in_turn(l)
    {
        reveal(in_turn); reveal(bin_list);
        let m = bin_list(l, t);
        assert(m.len() == l.len() - 2);
        assert(m[t] is Operand);
        if in_turn(l) { assert forall|j: int| 0 <= j < m.len() implies (#[trigger] m[j] is Operand) == (j % 2 == 0) by { if j < t { assert(m[j] == l[j]); } else if j > t { assert(m[j] == l[j + 2]); } else { assert(l[t] is Operand); } } }
        if in_turn(m) { assert forall|j: int| 0 <= j < l.len() implies (#[trigger] l[j] is Operand) == (j % 2 == 0) by { assert((m[t] is Operand) == (t % 2 == 0)); if j < t { assert(m[j] == l[j]); } else if j > t + 2 { assert(m[j - 2] == l[j]); } } }
    }
    pub proof fn bin_levs(l: Seq<OperandOrOperator>, t: int, k: int)
        requires pat(l, t), lev_ok(l, t, k), pat_ok(l, t, k), op_lev(l[t + 1]->Operator_0.value) == k
        ensures lev_ok(bin_list(l, t), t, k), pat_ok(bin_list(l, t), t, k)
    {
        reveal(lev_ok); reveal(pat_ok); reveal(bin_list); reveal(bin_node);
        let m = bin_list(l, t);
        assert(m.len() == l.len() - 2);
        assert(forall|i: int| 0 <= i < t ==> #[trigger] m[i] == l[i]);
        assert(forall|i: int| t < i < m.len() ==> #[trigger] m[i] == l[i + 2]);
        assert forall|i: int| #[trigger] pat(m, i) implies op_lev(m[i + 1]->Operator_0.value) > (if i < t { k } else { k - 1 }) by {
            if i < t { if i + 1 < t { assert(pat(l, i)) by { assert(m[i] == l[i]); assert(m[i + 1] == l[i + 1]); if i + 2 < t { assert(m[i + 2] == l[i + 2]); } } } }
            else { assert(pat(l, i + 2)) by { assert(m[i + 1] == l[i + 3]); assert(m[i + 2] == l[i + 4]); if i > t { assert(m[i] == l[i + 2]); } } }
        }
    }
    pub proof fn bin_skip(l: Seq<OperandOrOperator>, t: int, k: int)
        requires lev_ok(l, t, k), pat_ok(l, t, k), pat(l, t) ==> op_lev(l[t + 1]->Operator_0.value) != k
        ensures lev_ok(l, t + 1, k), pat_ok(l, t + 1, k)
    { reveal(lev_ok); reveal(pat_ok); }
    pub proof fn lev_next(l: Seq<OperandOrOperator>, k: int)
        requires lev_ok(l, l.len() as int, k), pat_ok(l, l.len() as int, k)
        ensures lev_ok(l, 0, k + 1), pat_ok(l, 0, k + 1)
    { reveal(lev_ok); reveal(pat_ok); }
    // ---- when it is none ----
    pub proof fn fail_op(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, i: int)
        requires spells(l, bs), 0 <= i < l.len(), l[i] is Operator
        ensures err_in(bs[0], l[i]->Operator_0.position), !stops(bs[0])
    { hide(toks_in); reveal(spells); spells_suf(l, bs, i); assert(spelled(l[i], bs[i], bs[i + 1])); suf_pos(bs[0], bs[i]); starts_on(l, bs); }
    pub proof fn fail_two(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>)
        requires spells(l, bs), l.len() >= 2, l[0] is Operand, l[1] is Operand, toks_ok(bs[0])
        ensures ({ let a = l[0]->Operand_0; let b = l[1]->Operand_0; pos_ok(a) && pos_ok(b) && fits(npos(a)) && fits(npos(b)) && pend(npos(a)) <= npos(b).start
            && (forall|p: Position| fits(p) && p.start == pend(npos(a)) && pend(p) == npos(b).start ==> #[trigger] err_in(bs[0], p)) }), !stops(bs[0])
    { reveal(spells);
        let a = l[0]->Operand_0; let b = l[1]->Operand_0; let s = bs[0]; let u = bs[1];
        starts_on(l, bs);
        assert(spelled(l[0], bs[0], bs[0int + 1])); assert(spelled(l[1], bs[1], bs[1int + 1]));
        spells_suf(l, bs, 1);
        reads_span(a, s, u); reads_span(b, u, bs[2]); suf_ok(s, u);
        let k = s.len() - u.len();
        tok_lt(s, k - 1, k);
        assert forall|p: Position| fits(p) && p.start == pend(npos(a)) && pend(p) == npos(b).start implies #[trigger] err_in(s, p) by {
            assert forall|lo: int, hi: int| #[trigger] toks_in(s, lo, hi) implies at_in(p, lo, hi) by { assert(lo <= s[k - 1].position.start); assert(pend(s[k].position) <= hi); }
        }
    }
}
items {
    pub proof fn none_yet(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>) requires l.len() == 0, bs.len() == 1 ensures spells(l, bs), single(l, bs) { reveal(spells); reveal(single); }
    pub proof fn item_push(s0: Seq<Tk>, l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, o: OperandOrOperator, t: Seq<Tk>)
        requires spells(l, bs), single(l, bs), suf(s0, bs.last()), toks_ok(s0), spelled(o, bs.last(), t), o is Operand ==> lev(o->Operand_0) == 0 && item_rest(bs.last()) == Some(t)
        ensures spells(l.push(o), bs.push(t)), single(l.push(o), bs.push(t)), suf(s0, t), toks_ok(t), t.len() < bs.last().len()
    {
        hide(reads); hide(toks_in); reveal(spells); reveal(single);
        spells_push(l, bs, o, t);
        match o { OperandOrOperator::Operand(n) => { reads_suf(n, bs.last(), t); suf_trans(s0, bs.last(), t); }, OperandOrOperator::Operator(p) => { suf_next(s0, bs.last()); } }
        suf_in(s0, t); assert(toks_ok(t));
    }
    pub proof fn read_fails(s0: Seq<Tk>, l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>, e: Positioned<SyntaxError>, t: Seq<Tk>)
        requires spells(l, bs), single(l, bs), bs[0] == s0, suf(s0, bs.last()), item_read(bs.last(), Err(e), t)
        ensures expr_read(s0, Err(e), t)
    {
        hide(reads); hide(toks_in); hide(item_rest); hide(expr_rest); reveal(spells); reveal(single);
        raw_dead(l, bs, 0); suf_in(s0, bs.last());
        if l.len() > 0 { starts_on(l, bs); }
    }
    pub proof fn single_neg(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>) requires single(l, bs) ensures all_lev(l, 0), negated(l, l.len() as int) { reveal(single); reveal(negated); reveal(all_lev); }
    pub proof fn neg_skip(l: Seq<OperandOrOperator>, n: int)
        requires 0 <= n < l.len(), negated(l, n + 1), !(l[n] is Operand && n > 0 && minus_at(l, n - 1) && (n < 2 || l[n - 2] is Operator))
        ensures negated(l, n)
    { reveal(negated); }
    pub proof fn lev_start(l: Seq<OperandOrOperator>) requires all_lev(l, 0) ensures lev_ok(l, 0, 1), pat_ok(l, 0, 1) { reveal(all_lev); reveal(lev_ok); reveal(pat_ok); }
    pub open spec fn levels_src(s: Seq<&&[BinaryOperatorToken]>) -> bool { s.len() == 4 && forall|i: int, v: BinaryOperatorToken| 0 <= i < 4 ==> #[trigger] s[i]@.contains(v) == (op_lev(v) == i + 1) }
    pub proof fn levels_are(s: Seq<&&'static [BinaryOperatorToken]>)
        requires exists|o: Seq<&'static [BinaryOperatorToken]>| #[trigger] op_levels(o) && ref_seq(o, s)
        ensures levels_src(s)
    {
        let o = choose|o: Seq<&'static [BinaryOperatorToken]>| #[trigger] op_levels(o) && ref_seq(o, s);
        assert forall|i: int, v: BinaryOperatorToken| 0 <= i < 4 implies #[trigger] s[i]@.contains(v) == (op_lev(v) == i + 1) by {
            assert(*s[i] == o[i]); let q = o[i]@;
            if op_lev(v) == i + 1 { if i == 0 { assert(q[0] == v); } else if i == 1 { assert(q[0] == v); } else { assert(q[0] == v || q[1] == v); } }
        }
    }
    pub proof fn join_l(o: Seq<OperandOrOperator>, t: Seq<OperandOrOperator>)
        ensures (o + t).len() == o.len() + t.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] (o + t)[i] == o[i]
    { }
    pub proof fn join_nil(t: Seq<OperandOrOperator>, o: Seq<OperandOrOperator>)
        requires o.len() == 0
        ensures t + o == t, o + t == t
    { assert(t + o =~= t); assert(o + t =~= t); }
    pub proof fn join_r(t: Seq<OperandOrOperator>, o: Seq<OperandOrOperator>)
        ensures (t + o).len() == o.len() + t.len(), forall|i: int| 0 <= i < o.len() ==> (t + o)[t.len() + i] == #[trigger] o[i]
    { }
    pub proof fn neg_join(o: Seq<OperandOrOperator>, t: Seq<OperandOrOperator>)
        requires o.len() >= 2
        ensures ({ let k = o.len() - 1; o.drop_last().drop_last().push(OperandOrOperator::Operand(neg_node(o[k - 1]->Operator_0, o[k]->Operand_0))) + t == neg_list(o + t, k) })
    { reveal(neg_list); reveal(neg_node); let k = o.len() - 1; assert(o.drop_last().drop_last().push(OperandOrOperator::Operand(neg_node(o[k - 1]->Operator_0, o[k]->Operand_0))) + t =~= neg_list(o + t, k)); }
    pub proof fn bin_join(t: Seq<OperandOrOperator>, o: Seq<OperandOrOperator>)
        requires o.len() >= 3
        ensures t + (seq![OperandOrOperator::Operand(bin_node(o[1]->Operator_0, o[0]->Operand_0, o[2]->Operand_0))] + o.skip(3)) == bin_list(t + o, t.len() as int)
    { reveal(bin_list); reveal(bin_node); assert(t + (seq![OperandOrOperator::Operand(bin_node(o[1]->Operator_0, o[0]->Operand_0, o[2]->Operand_0))] + o.skip(3)) =~= bin_list(t + o, t.len() as int)); }
    // What is left says how it went.
    pub proof fn finished(l: Seq<OperandOrOperator>, bs: Seq<Seq<Tk>>)
        requires spells(l, bs), toks_ok(bs[0]), pat_ok(l, 0, 5)
        ensures l.len() == 0 ==> bs.last() == bs[0],
            l.len() == 1 && l[0] is Operand ==> in_turn(l) && reads(l[0]->Operand_0, bs[0], bs.last()),
            l.len() > 1 || l.len() == 1 && l[0] is Operator ==> !in_turn(l) && !stops(bs[0]),
            forall|i: int| 0 <= i < l.len() && #[trigger] l[i] is Operator ==> err_in(bs[0], l[i]->Operator_0.position),
            l.len() >= 2 && l[0] is Operand && l[1] is Operand ==> ({ let a = l[0]->Operand_0; let b = l[1]->Operand_0; pos_ok(a) && pos_ok(b) && fits(npos(a)) && fits(npos(b)) && pend(npos(a)) <= npos(b).start
                && (forall|p: Position| fits(p) && p.start == pend(npos(a)) && pend(p) == npos(b).start ==> #[trigger] err_in(bs[0], p)) }),
            !pat(l, 0)
    {
        hide(reads); hide(toks_in); hide(pos_ok); hide(npos); hide(err_in); reveal(spells); reveal(in_turn); reveal(pat_ok);
        if l.len() == 1 { assert(spelled(l[0], bs[0], bs[0int + 1])); }
        if l.len() > 0 { starts_on(l, bs); }
        if l.len() > 1 && in_turn(l) { assert(l.len() >= 3); assert(l[0] is Operand); assert(!(l[1] is Operand)); assert(l[2] is Operand); assert(pat(l, 0)); }
        assert forall|i: int| 0 <= i < l.len() && #[trigger] l[i] is Operator implies err_in(bs[0], l[i]->Operator_0.position) by { fail_op(l, bs, i); }
        if l.len() >= 2 && l[0] is Operand && l[1] is Operand { fail_two(l, bs); }
    }
}
