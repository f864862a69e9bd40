opts { ufcs; }
clone { Token, ParsedInput }
items {
    impl VDisp for UnaryOperatorToken { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VDisp for BinaryOperatorToken { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VDisp for FunctionNameToken { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VDisp for Token { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
}
inject "impl From<BigRational> for Token" { open spec fn from_ens(t: BigRational, r: Self) -> bool { r == Token::Number(t) } }
inject "impl From<BinaryOperatorToken> for Token" { open spec fn from_ens(t: BinaryOperatorToken, r: Self) -> bool { r == Token::BinaryOperator(t) } }
inject "impl From<UnaryOperatorToken> for Token" { open spec fn from_ens(t: UnaryOperatorToken, r: Self) -> bool { r == Token::UnaryOperator(t) } }
inject "impl From<FunctionNameToken> for Token" { open spec fn from_ens(t: FunctionNameToken, r: Self) -> bool { r == Token::Function(t) } }
func "Token::from<BigRational>" { props { C03, C07 } }
func "Token::from<BinaryOperatorToken>" { props { C03 } }
func "Token::from<UnaryOperatorToken>" { props { C03 } }
func "Token::from<FunctionNameToken>" { props { C03 } }
items {
    // The documented order of operations, tightest first.
    pub open spec fn op_levels(s: Seq<&'static [BinaryOperatorToken]>) -> bool {
        &&& s.len() == 4
        &&& s[0]@ =~= seq![BinaryOperatorToken::Exponent]
        &&& s[1]@ =~= seq![BinaryOperatorToken::Modulus]
        &&& s[2]@ =~= seq![BinaryOperatorToken::Multiply, BinaryOperatorToken::Divide]
        &&& s[3]@ =~= seq![BinaryOperatorToken::Add, BinaryOperatorToken::Subtract]
    }
}
constant "ORDERED_BINARY_OPERATORS" { ensures op_levels(ORDERED_BINARY_OPERATORS@), }
items {
    // ---- the tokens of a line ----
    pub open spec fn op_tok(c: char) -> Option<Token> {
        if c == '+' { Some(Token::BinaryOperator(BinaryOperatorToken::Add)) }
        else if c == '-' { Some(Token::BinaryOperator(BinaryOperatorToken::Subtract)) }
        else if c == '*' { Some(Token::BinaryOperator(BinaryOperatorToken::Multiply)) }
        else if c == '/' { Some(Token::BinaryOperator(BinaryOperatorToken::Divide)) }
        else if c == '%' { Some(Token::BinaryOperator(BinaryOperatorToken::Modulus)) }
        else if c == '^' { Some(Token::BinaryOperator(BinaryOperatorToken::Exponent)) }
        else if c == '(' { Some(Token::OpenParen) }
        else if c == ')' { Some(Token::CloseParen) }
        else if c == '=' { Some(Token::AssignmentOperator) }
        else if c == ',' { Some(Token::Comma) }
        else { None }
    }
    pub open spec fn sep(c: char) -> bool { ws(c) || op_tok(c) is Some }
    // The built-in names.
    pub open spec fn name_tok(w: Seq<char>) -> Option<Token> {
        if w == seq!['s', 'q', 'r', 't'] { Some(Token::UnaryOperator(UnaryOperatorToken::SquareRoot)) }
        else if w == seq!['a', 'b', 's'] { Some(Token::UnaryOperator(UnaryOperatorToken::AbsoluteValue)) }
        else if w == seq!['m', 'a', 'x'] { Some(Token::Function(FunctionNameToken::Max)) }
        else if w == seq!['m', 'i', 'n'] { Some(Token::Function(FunctionNameToken::Min)) }
        else { None }
    }
    // A number: underscores do not count, the first point splits the digits.
    pub open spec fn plain(w: Seq<char>) -> Seq<char> decreases w.len() {
        if w.len() == 0 { w } else if w.last() == '_' { plain(w.drop_last()) } else { plain(w.drop_last()).push(w.last()) }
    }
    pub open spec fn is_point(p: Seq<char>, k: int) -> bool { 0 <= k < p.len() && p[k] == '.' && forall|i: int| 0 <= i < k ==> #[trigger] p[i] != '.' }
    pub open spec fn pointed(p: Seq<char>) -> bool { exists|k: int| is_point(p, k) }
    pub open spec fn point_at(p: Seq<char>) -> int { choose|k: int| is_point(p, k) }
    pub open spec fn num_digits(w: Seq<char>) -> Seq<char> { let p = plain(w); if pointed(p) { p.take(point_at(p)) + p.skip(point_at(p) + 1) } else { p } }
    pub open spec fn num_places(w: Seq<char>) -> nat { let p = plain(w); if pointed(p) { (p.len() - 1 - point_at(p)) as nat } else { 0 } }
    pub open spec fn num_ok(w: Seq<char>, radix: int) -> bool { num_digits(w).len() > 0 && all_digits(num_digits(w), radix) }
    pub open spec fn num_val(w: Seq<char>, radix: int) -> real { (digits_val(num_digits(w), radix) as real) / (ipow(radix, num_places(w)) as real) }
    // What a run of characters is.
    pub open spec fn word_is(w: Seq<char>, radix: int, t: Token) -> bool {
        if w[0] == '$' { t is Variable && t->Variable_0@ == w }
        else if name_tok(w) is Some { t == name_tok(w)->0 }
        else { num_ok(w, radix) && t is Number && t->Number_0@ == num_val(w, radix) }
    }
    pub open spec fn word_bad(w: Seq<char>, radix: int) -> bool { w.len() > 0 && w[0] != '$' && name_tok(w) is None && !num_ok(w, radix) }
    // Where the run that ends at n starts.
    pub open spec fn run_start(s: Seq<char>, n: int) -> int decreases n {
        if n <= 0 { 0 } else if sep(s[n - 1]) { n } else { run_start(s, n - 1) }
    }
    pub open spec fn at(t: Positioned<Token>, start: int, stop: int) -> bool { t.position.start == start && pend(t.position) == stop }
    // t is exactly the tokens of the first n characters, n being where a token ends or nothing is open.
    pub open spec fn lexed(s: Seq<char>, n: int, radix: int, t: Seq<Positioned<Token>>) -> bool decreases n {
        if n <= 0 { t.len() == 0 }
        else if ws(s[n - 1]) { lexed(s, n - 1, radix, t) }
        else if op_tok(s[n - 1]) is Some { t.len() > 0 && t.last().value == op_tok(s[n - 1])->0 && at(t.last(), n - 1, n) && lexed(s, n - 1, radix, t.drop_last()) }
        else { let b = run_start(s, n); 0 <= b < n && t.len() > 0 && word_is(s.subrange(b, n), radix, t.last().value) && at(t.last(), b, n) && lexed(s, b, radix, t.drop_last()) }
    }
    pub open spec fn ends(s: Seq<char>, n: int) -> bool { n == s.len() || (0 <= n < s.len() && sep(s[n])) }
    // The first character that is not ASCII, else the first run that is nothing.
    pub open spec fn bad_run(s: Seq<char>, radix: int, n: int) -> bool {
        0 < n <= s.len() && ends(s, n) && 0 <= run_start(s, n) < n && word_bad(s.subrange(run_start(s, n), n), radix) && exists|t: Seq<Positioned<Token>>| lexed(s, run_start(s, n), radix, t)
    }
    pub open spec fn tok_err(s: Seq<char>, radix: int, e: Positioned<ParseError>) -> bool {
        if !ascii(s) {
            e.value is NonAscii && e.position.width == 1 && e.position.start < s.len() && !ascii_c(s[e.position.start as int]) && forall|i: int| 0 <= i < e.position.start ==> ascii_c(#[trigger] s[i])
        } else {
            bad_run(s, radix, pend(e.position)) && e.position.start == run_start(s, pend(e.position)) && e.value is InvalidNumber
                && e.value->InvalidNumber_0@ == s.subrange(e.position.start as int, pend(e.position))
        }
    }
    // ---- command lines ----
    pub open spec fn is_cmd(s: Seq<char>) -> bool { trim_start_at(s) < s.len() && s[trim_start_at(s)] == '/' }
    // c: the name, from the slash (which is not part of the text) to the first blank; a: what follows that blank, untouched.
    pub open spec fn cmd_parts(s: Seq<char>, c: Positioned<String>, a: Positioned<String>) -> bool {
        let b = trim_start_at(s); let e = pend(c.position);
        &&& c.position.start == b && b < e <= s.len() && c.value@ == s.subrange(b + 1, e)
        &&& (forall|i: int| b < i < e ==> !ws(#[trigger] s[i]))
        &&& if e == s.len() { a.value@.len() == 0 && a.position.start == s.len() && a.position.width == 0 }
            else { ws(s[e]) && a.value@ == s.skip(e + 1) && a.position.start == e + 1 && pend(a.position) == s.len() }
    }
    pub open spec fn tk_wf(k: Tokenizer) -> bool {
        forall|w: Seq<char>| (#[trigger] k.token_map@.dom().contains(w) <==> name_tok(w) is Some) && (name_tok(w) is Some ==> k.token_map@[w] == name_tok(w)->0)
    }
    pub open spec fn parsed(s: Seq<char>, radix: int, r: Result<ParsedInput, Positioned<ParseError>>) -> bool {
        match r {
            Ok(ParsedInput::Command(p)) => ascii(s) && is_cmd(s) && cmd_parts(s, p.0, p.1),
            Ok(ParsedInput::Tokens(t)) => ascii(s) && !is_cmd(s) && lexed(s, s.len() as int, radix, t@),
            Err(e) => tok_err(s, radix, e) && !(ascii(s) && is_cmd(s)),
        }
    }
}
items {
    pub broadcast proof fn push_last<A>(t: Seq<A>, x: A) ensures #[trigger] t.push(x).drop_last() == t { assert(t.push(x).drop_last() =~= t); }
    pub broadcast proof fn bchars_push(v: Seq<u8>, x: u8) ensures #[trigger] bchars(v.push(x)) == bchars(v).push(x as char) { assert(bchars(v.push(x)) =~= bchars(v).push(x as char)); }
    pub proof fn run_bounds(s: Seq<char>, n: int)
        requires 0 <= n <= s.len()
        ensures 0 <= run_start(s, n) <= n, forall|j: int| run_start(s, n) <= j < n ==> !sep(#[trigger] s[j]), run_start(s, n) > 0 ==> sep(s[run_start(s, n) - 1]),
        decreases n
    { if n > 0 && !sep(s[n - 1]) { run_bounds(s, n - 1); } }
    pub proof fn point_uniq(p: Seq<char>, k: int) requires is_point(p, k) ensures pointed(p), point_at(p) == k
    { let j = point_at(p); assert(is_point(p, j)); if j < k { assert(p[j] != '.'); } if k < j { assert(p[k] != '.'); } }
    pub proof fn num_step(w: Seq<char>, i: int)
        requires 0 <= i < w.len()
        ensures plain(w.take(i + 1)) == (if w[i] == '_' { plain(w.take(i)) } else { plain(w.take(i)).push(w[i]) }),
          ({ let p = plain(w.take(i)); let q = plain(w.take(i + 1));
             &&& (forall|k: int| #[trigger] is_point(p, k) ==> is_point(q, k))
             &&& (!pointed(p) && w[i] != '.' ==> !pointed(q))
             &&& (!pointed(p) && w[i] == '.' ==> is_point(q, p.len() as int) && q.take(p.len() as int) + q.skip(p.len() as int + 1) == p)
             &&& (w[i] != '_' ==> forall|k: int| 0 <= k < p.len() ==> #[trigger] q.take(k) + q.skip(k + 1) == (p.take(k) + p.skip(k + 1)).push(w[i])) })
    {
        assert(w.take(i + 1).drop_last() =~= w.take(i)); assert(w.take(i + 1).last() == w[i]);
        let p = plain(w.take(i)); let q = plain(w.take(i + 1));
        if w[i] != '_' {
            assert(q == p.push(w[i]));
            assert forall|k: int| 0 <= k < p.len() implies #[trigger] q.take(k) + q.skip(k + 1) == (p.take(k) + p.skip(k + 1)).push(w[i]) by { assert(q.take(k) + q.skip(k + 1) =~= (p.take(k) + p.skip(k + 1)).push(w[i])); }
            if w[i] == '.' && !pointed(p) {
                assert forall|j: int| 0 <= j < p.len() implies #[trigger] q[j] != '.' by { if p[j] == '.' { first_point(p, j); } }
                assert(is_point(q, p.len() as int));
                assert(q.take(p.len() as int) + q.skip(p.len() as int + 1) =~= p);
            }
            if !pointed(p) && w[i] != '.' && pointed(q) { let k = point_at(q); assert(is_point(q, k)); assert(k < p.len()); assert(p[k] == '.'); first_point(p, k); }
            assert forall|k: int| #[trigger] is_point(p, k) implies is_point(q, k) by { assert forall|j: int| 0 <= j < k implies #[trigger] q[j] != '.' by { assert(p[j] != '.'); } }
        }
    }
    pub proof fn first_point(p: Seq<char>, j: int) requires 0 <= j < p.len(), p[j] == '.' ensures pointed(p) decreases j
    { if forall|i: int| 0 <= i < j ==> #[trigger] p[i] != '.' { assert(is_point(p, j)); } else { let i = choose|i: int| 0 <= i < j && #[trigger] p[i] == '.'; first_point(p, i); } }
    pub proof fn plain_chars(w: Seq<char>)
        requires forall|i: int| 0 <= i < w.len() ==> !sep(#[trigger] w[i])
        ensures forall|i: int| 0 <= i < plain(w).len() ==> !sep(#[trigger] plain(w)[i]) && plain(w)[i] != '_', plain(w).len() <= w.len(),
        decreases w.len()
    { if w.len() > 0 { plain_chars(w.drop_last()); } }
    pub proof fn num_chars(w: Seq<char>)
        requires forall|i: int| 0 <= i < w.len() ==> !sep(#[trigger] w[i])
        ensures !num_digits(w).contains('_'), num_digits(w).len() > 0 ==> num_digits(w)[0] != '-' && num_digits(w)[0] != '+',
          pointed(plain(w)) ==> num_digits(w).len() == plain(w).len() - 1 && 0 <= point_at(plain(w)) < plain(w).len(),
    { plain_chars(w); let p = plain(w); let q = num_digits(w);
      if pointed(p) { assert(is_point(p, point_at(p))); let k = point_at(p);
        assert forall|i: int| 0 <= i < q.len() implies #[trigger] q[i] != '_' && !sep(q[i]) by { if i < k { assert(q[i] == p[i]); } else { assert(q[i] == p[i + 1]); } } }
      if q.len() > 0 { assert(!sep(q[0])); }
    }
    pub proof fn pow_nz(b: int, e: nat) requires b >= 1 ensures ipow(b, e) >= 1 decreases e
    { if e > 0 { pow_nz(b, (e - 1) as nat); assert(b * ipow(b, (e - 1) as nat) >= 1) by (nonlinear_arith) requires b >= 1, ipow(b, (e - 1) as nat) >= 1; } }
}
func "Tokenizer::new" { ret r; props { C03, C07 }
  spec { ensures tk_wf(r) }
  entry { proof { reveal_strlit("sqrt"); reveal_strlit("abs"); reveal_strlit("max"); reveal_strlit("min");
     assert("sqrt"@ =~= seq!['s', 'q', 'r', 't']); assert("abs"@ =~= seq!['a', 'b', 's']); assert("max"@ =~= seq!['m', 'a', 'x']); assert("min"@ =~= seq!['m', 'i', 'n']);
     assert("max"@[1] == 'a' && "min"@[1] == 'i'); assert("abs"@[0] == 'a' && "max"@[0] == 'm' && "min"@[0] == 'm'); assert("sqrt"@.len() == 4); } }
}
func "Tokenizer::tokenize" { ret r; props { C03, C07, C13, C14 }
  spec { requires tk_wf(*self), 2 <= radix <= 16 ensures parsed(input@, radix as int, r) }
  entry { broadcast use {crate::vstd_model::axiom_blen, crate::vstd_model::axiom_blen_pos, push_last, bchars_push}; let ghost s = input@; proof { reveal_with_fuel(lexed, 3); } }
  loop 0 { iter it; spec {
     invariant 0 <= it.idx() <= it.src().len(), it.src().len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] it.src()[i]).0 == i && it.src()[i].1 == s[i],
       forall|i: int| 0 <= i < it.idx() ==> ascii_c(#[trigger] s[i]),
     ensures ascii(s), decreases s.len() - it.idx() }
     start { assert(chr == s[position as int]); assert(position == it.idx() - 1); } attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } }
  loop 1 { iter it; attr { #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] } spec {
     invariant ascii(s), tk_wf(*self), 2 <= radix <= 16, bchars(input@) == s, input@.len() == s.len(), !is_cmd(s),
       0 <= it.idx() <= s.len(), it.src().len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] it.src()[i]).0 == i && *(it.src()[i].1) == input@[i],
       0 <= run_start(s, it.idx()) <= it.idx(), bchars(buffer@) == s.subrange(run_start(s, it.idx()), it.idx()), lexed(s, run_start(s, it.idx()), radix as int, tokens@),
     ensures it.idx() == s.len(),
     decreases s.len() - it.idx() }
     start { let i = it.idx() - 1; assert(position == i); assert(*chr == input@[i]); assert(*chr as char == s[i]) by { assert(bchars(input@)[i] == s[i]); }
       line_buf(s, i, buffer@); run_bounds(s, i + 1); assert(s.subrange(run_start(s, i), i).push(s[i]) =~= s.subrange(run_start(s, i), i + 1)); }
     after { proof { line_buf(s, s.len() as int, buffer@); assert(s.subrange(s.len() as int, s.len() as int) =~= Seq::<char>::empty()); } } }
}
items {
    // The pending run, as bytes.
    pub proof fn line_buf(s: Seq<char>, n: int, b: Seq<u8>)
        requires 0 <= n <= s.len(), ascii(s), bchars(b) == s.subrange(run_start(s, n), n), 0 <= run_start(s, n) <= n,
        ensures b.len() == n - run_start(s, n), forall|j: int| 0 <= j < b.len() ==> b[j] < 128 && !sep(#[trigger] b[j] as char)
    {
        run_bounds(s, n);
        assert(bchars(b).len() == b.len());
        assert forall|j: int| 0 <= j < b.len() implies b[j] < 128 && !sep(#[trigger] b[j] as char) by { assert(bchars(b)[j] == s[run_start(s, n) + j]); assert(b[j] as char == s[run_start(s, n) + j]); }
    }
}
func "Tokenizer::maybe_extract_command" { ret r; props { C14, C13 }
  spec { requires ascii(input@) ensures match r { Ok(Some(ParsedInput::Command(p))) => is_cmd(input@) && cmd_parts(input@, p.0, p.1), Ok(None) => !is_cmd(input@), _ => false } }
  entry { broadcast use {crate::vstd_model::axiom_blen, crate::vstd_model::axiom_blen_pos}; }
  inline split_once 0 { |c: char| -> (b: bool) ensures b == ws(c) }
  after_let post_slash { assert forall|i: int| trim_start_at(input@) < i < input@.len() implies #[trigger] input@[i] == post_slash@[i - trim_start_at(input@) - 1] by { } 
     assert forall|n: int| 0 <= n <= post_slash@.len() implies #[trigger] post_slash@.take(n) == input@.subrange(trim_start_at(input@) + 1, trim_start_at(input@) + 1 + n) by { assert(post_slash@.take(n) =~= input@.subrange(trim_start_at(input@) + 1, trim_start_at(input@) + 1 + n)); }
     assert(post_slash@ =~= post_slash@.take(post_slash@.len() as int));
     assert forall|n: int| 0 <= n < post_slash@.len() implies #[trigger] post_slash@.skip(n + 1) == input@.skip(trim_start_at(input@) + 1 + n + 1) by { assert(post_slash@.skip(n + 1) =~= input@.skip(trim_start_at(input@) + 1 + n + 1)); } }
}
func "Tokenizer::tokenize_on_multichar_end" { ret r; props { C03, C07, C13 }
  spec { requires tk_wf(*self), 2 <= radix <= 16, old(buffer)@.len() <= buffer_stop_position, forall|i: int| 0 <= i < old(buffer)@.len() ==> old(buffer)@[i] < 128 && !sep(#[trigger] old(buffer)@[i] as char)
    ensures ({ let w = bchars(old(buffer)@);
      match r {
        Ok(_) => final(buffer)@.len() == 0 && if w.len() == 0 { final(tokens)@ == old(tokens)@ } else {
          final(tokens)@.len() == old(tokens)@.len() + 1 && final(tokens)@.drop_last() == old(tokens)@ && word_is(w, radix as int, final(tokens)@.last().value) && at(final(tokens)@.last(), buffer_stop_position - w.len(), buffer_stop_position as int) },
        Err(e) => word_bad(w, radix as int) && e.value is InvalidNumber && e.value->InvalidNumber_0@ == w && e.position.start == buffer_stop_position - w.len() && e.position.width == w.len(),
      } }) }
  entry { broadcast use {push_last, bchars_push}; let ghost w = bchars(buffer@); let ghost t0 = tokens@;
    proof { assert forall|i: int| 0 <= i < w.len() implies !sep(#[trigger] w[i]) by { assert(w[i] == buffer@[i] as char); } num_chars(w); assert(w.take(w.len() as int) =~= w); assert(w.take(0).len() == 0); } }
  after_let buffer_as_string { assert(buffer_as_string@ =~= w); assert(w[0] == buffer@[0] as char); }
  before_let numer { if maybe_dec_index is Some { point_uniq(plain(w), maybe_dec_index->0 as int); } assert(bchars(clean_buffer@) == num_digits(w)); assert(num_digits(w).len() == clean_buffer@.len()); }
  before_let denom { pow_nz(radix as int, num_places(w)); }
  loop 0 { iter it; spec {
     invariant buffer@ == old(buffer)@, w == bchars(buffer@), 0 <= it.idx() <= w.len(), ref_seq(buffer@, it.src()),
       match maybe_dec_index { None => bchars(clean_buffer@) == plain(w.take(it.idx())) && !pointed(plain(w.take(it.idx()))),
         Some(k) => is_point(plain(w.take(it.idx())), k as int) && k <= clean_buffer@.len() && bchars(clean_buffer@) == plain(w.take(it.idx())).take(k as int) + plain(w.take(it.idx())).skip(k + 1) },
     ensures it.idx() == w.len(),
     decreases w.len() - it.idx() }
     start { num_step(w, it.idx() - 1); assert(w[it.idx() - 1] == *chr as char); } }
}
items {
    // A line has one reading only.
    pub proof fn same_token(a: Positioned<Token>, b: Positioned<Token>, w: Seq<char>, radix: int, i: int, j: int)
        requires word_is(w, radix, a.value), word_is(w, radix, b.value), at(a, i, j), at(b, i, j)
        ensures a == b
    {
        if a.value is Variable && b.value is Variable { axiom_string_ext(a.value->Variable_0, b.value->Variable_0); }
        if a.value is Number && b.value is Number { crate::num::axiom_rational_ext(a.value->Number_0, b.value->Number_0); }
    }
    pub proof fn lex_unique(s: Seq<char>, n: int, radix: int, a: Seq<Positioned<Token>>, b: Seq<Positioned<Token>>)
        requires lexed(s, n, radix, a), lexed(s, n, radix, b), n <= s.len()
        ensures a == b
        decreases n
    {
        if n <= 0 { assert(a =~= b); }
        else if ws(s[n - 1]) { lex_unique(s, n - 1, radix, a, b); }
        else {
            let m = if op_tok(s[n - 1]) is Some { n - 1 } else { run_start(s, n) };
            lex_unique(s, m, radix, a.drop_last(), b.drop_last());
            if op_tok(s[n - 1]) is None { same_token(a.last(), b.last(), s.subrange(m, n), radix, m, n); }
            assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last()));
        }
    }
    // A line that is refused has no reading.
    pub proof fn bad_none(s: Seq<char>, n: int, m: int, radix: int, t: Seq<Positioned<Token>>)
        requires bad_run(s, radix, n), n <= m <= s.len()
        ensures !lexed(s, m, radix, t)
        decreases m
    {
        run_bounds(s, m); run_bounds(s, n);
        if m > n {
            assert(sep(s[n]));
            if sep(s[m - 1]) { bad_none(s, n, m - 1, radix, t); bad_none(s, n, m - 1, radix, t.drop_last()); }
            else { let b = run_start(s, m); if b <= n { assert(!sep(s[n])); } bad_none(s, n, b, radix, t.drop_last()); }
        } else { assert(!sep(s[n - 1])); }
    }
    // Tokens are in order, do not overlap, lie in the line, and only blanks are between them.
    pub open spec fn in_order(s: Seq<char>, n: int, t: Seq<Positioned<Token>>) -> bool {
        &&& (forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).position.width >= 1 && pend(t[i].position) <= n)
        &&& (forall|i: int, j: int| 0 <= i < j < t.len() ==> pend((#[trigger] t[i]).position) <= (#[trigger] t[j]).position.start)
        &&& (forall|k: int| 0 <= k < n ==> ws(#[trigger] s[k]) == !covered(t, k))
    }
    pub open spec fn covered(t: Seq<Positioned<Token>>, k: int) -> bool { exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).position.start <= k < pend(t[i].position) }
    pub proof fn lexed_in_order(s: Seq<char>, n: int, radix: int, t: Seq<Positioned<Token>>)
        requires lexed(s, n, radix, t), 0 <= n <= s.len()
        ensures in_order(s, n, t)
        decreases n
    {
        if n == 0 { }
        else if ws(s[n - 1]) { lexed_in_order(s, n - 1, radix, t);
            assert forall|k: int| 0 <= k < n implies ws(#[trigger] s[k]) == !covered(t, k) by { if k == n - 1 && covered(t, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).position.start <= k < pend(t[i].position); assert(false); } } }
        else {
            let m = if op_tok(s[n - 1]) is Some { n - 1 } else { run_start(s, n) };
            run_bounds(s, n);
            let u = t.drop_last();
            lexed_in_order(s, m, radix, u);
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies pend((#[trigger] t[i]).position) <= (#[trigger] t[j]).position.start by { assert(u[i] == t[i]); if j < u.len() { assert(u[j] == t[j]); } }
            assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).position.width >= 1 && pend(t[i].position) <= n by { if i < u.len() { assert(u[i] == t[i]); } }
            assert forall|k: int| 0 <= k < n implies ws(#[trigger] s[k]) == !covered(t, k) by {
                if k >= m { assert(t[t.len() - 1].position.start <= k < pend(t[t.len() - 1].position)); assert(!sep(s[k]) || k == n - 1); }
                else {
                    if covered(u, k) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).position.start <= k < pend(u[i].position); assert(t[i] == u[i]); }
                    if covered(t, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).position.start <= k < pend(t[i].position); assert(i < u.len()); assert(t[i] == u[i]); }
                }
            }
        }
    }
    pub proof fn refused(s: Seq<char>, radix: int, e: Positioned<ParseError>)
        requires tok_err(s, radix, e)
        ensures in_line(e.position, s), ascii(s) ==> forall|t: Seq<Positioned<Token>>| !#[trigger] lexed(s, s.len() as int, radix, t)
    {
        if ascii(s) { assert forall|t: Seq<Positioned<Token>>| !#[trigger] lexed(s, s.len() as int, radix, t) by { bad_none(s, pend(e.position), s.len() as int, radix, t); } }
    }
    pub open spec fn only_reading(s: Seq<char>, radix: int, t: Seq<Positioned<Token>>) -> bool {
        &&& lexed(s, s.len() as int, radix, t) && in_order(s, s.len() as int, t)
        &&& (forall|u: Seq<Positioned<Token>>| #[trigger] lexed(s, s.len() as int, radix, u) ==> u == t)
        &&& (forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).value is Number ==> t[i].value->Number_0@ >= 0real)
    }
    pub proof fn digits_nonneg(s: Seq<char>, radix: int) requires radix >= 0 ensures digits_val(s, radix) >= 0 decreases s.len()
    { if s.len() > 0 { digits_nonneg(s.drop_last(), radix); assert(digits_val(s.drop_last(), radix) * radix >= 0) by (nonlinear_arith) requires digits_val(s.drop_last(), radix) >= 0, radix >= 0; } }
    pub proof fn lexed_nonneg(s: Seq<char>, n: int, radix: int, t: Seq<Positioned<Token>>)
        requires lexed(s, n, radix, t), 0 <= n <= s.len(), radix >= 2
        ensures forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).value is Number ==> t[i].value->Number_0@ >= 0real
        decreases n
    {
        if n > 0 {
            if ws(s[n - 1]) { lexed_nonneg(s, n - 1, radix, t); }
            else {
                let m = if op_tok(s[n - 1]) is Some { n - 1 } else { run_start(s, n) };
                run_bounds(s, n);
                let u = t.drop_last();
                lexed_nonneg(s, m, radix, u);
                assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]).value is Number implies t[i].value->Number_0@ >= 0real by {
                    if i < u.len() { assert(u[i] == t[i]); } else {
                        let w = s.subrange(m, n);
                        digits_nonneg(num_digits(w), radix); pow_nz(radix, num_places(w));
                        let (a, b) = (digits_val(num_digits(w), radix) as real, ipow(radix, num_places(w)) as real);
                        assert(a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 1real;
                    }
                }
            }
        }
    }
    pub proof fn reading(s: Seq<char>, radix: int, t: Seq<Positioned<Token>>)
        requires lexed(s, s.len() as int, radix, t), radix >= 2
        ensures only_reading(s, radix, t)
    {
        lexed_in_order(s, s.len() as int, radix, t); lexed_nonneg(s, s.len() as int, radix, t);
        assert forall|u: Seq<Positioned<Token>>| #[trigger] lexed(s, s.len() as int, radix, u) implies u == t by { lex_unique(s, s.len() as int, radix, u, t); }
    }
    // A list of variables and nothing else.
    pub open spec fn vars_of(t: Seq<Positioned<Token>>, v: Seq<Positioned<String>>) -> bool {
        v.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).value is Variable && v[i].value@ == t[i].value->Variable_0@ && v[i].position == t[i].position
    }
    pub open spec fn all_vars(t: Seq<Positioned<Token>>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).value is Variable }
    pub open spec fn minus_at(t: Seq<Positioned<Token>>, i: int) -> bool { 0 <= i < t.len() && t[i].value == Token::BinaryOperator(BinaryOperatorToken::Subtract) }
    pub open spec fn int_tok(t: Token) -> bool { t is Number && is_int(t->Number_0@) && t->Number_0@ <= i64::MAX as real && t->Number_0@ >= 0real }
    // Whole numbers, each with at most one minus in front, and nothing else.
    pub open spec fn ints_of(t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>) -> bool decreases t.len() {
        let n = t.len() as int;
        if n == 0 { v.len() == 0 } else {
            &&& int_tok(t[n - 1].value) && v.len() > 0
            &&& if minus_at(t, n - 2) { v.last().value as real == 0real - t[n - 1].value->Number_0@ && span(t[n - 2].position, t[n - 1].position, v.last().position) && ints_of(t.take(n - 2), v.drop_last()) }
                else { v.last().value as real == t[n - 1].value->Number_0@ && v.last().position == t[n - 1].position && ints_of(t.take(n - 1), v.drop_last()) }
        }
    }
    pub open spec fn int_here(t: Seq<Positioned<Token>>, i: int) -> bool { int_tok(t[i].value) || (minus_at(t, i) && i + 1 < t.len() && int_tok(t[i + 1].value)) }
    pub open spec fn int_shaped(t: Seq<Positioned<Token>>) -> bool { (exists|v: Seq<Positioned<i64>>| ints_of(t, v)) ==> forall|i: int| 0 <= i < t.len() ==> #[trigger] int_here(t, i) }
    pub proof fn ints_shape(t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>)
        requires ints_of(t, v)
        ensures forall|i: int| 0 <= i < t.len() ==> #[trigger] int_here(t, i)
        decreases t.len()
    {
        let n = t.len() as int;
        if n > 0 {
            let m = if minus_at(t, n - 2) { n - 2 } else { n - 1 };
            let u = t.take(m);
            ints_shape(u, v.drop_last());
            assert forall|i: int| 0 <= i < t.len() implies #[trigger] int_here(t, i) by { if i < m { assert(int_here(u, i)); assert(u[i] == t[i]); if i + 1 < m { assert(u[i + 1] == t[i + 1]); } } }
        }
    }
    pub proof fn ints_shape_all(t: Seq<Positioned<Token>>) ensures int_shaped(t)
    { if exists|v: Seq<Positioned<i64>>| ints_of(t, v) { let v = choose|v: Seq<Positioned<i64>>| ints_of(t, v); ints_shape(t, v); } }
    pub proof fn int_step(t: Seq<Positioned<Token>>, i: int)
        requires int_shaped(t), 0 <= i < t.len()
        ensures (exists|v: Seq<Positioned<i64>>| ints_of(t, v)) ==> int_here(t, i) && (i > 0 ==> int_here(t, i - 1)),
          t.take(i + 1).take(i) == t.take(i), i > 0 ==> t.take(i + 1).take(i - 1) == t.take(i - 1), t.take(i + 1).last() == t[i]
    { assert(t.take(i + 1).take(i) =~= t.take(i)); if i > 0 { assert(t.take(i + 1).take(i - 1) =~= t.take(i - 1)); } 
      if exists|v: Seq<Positioned<i64>>| ints_of(t, v) { assert(int_here(t, i)); if i > 0 { assert(int_here(t, i - 1)); } } }
    pub proof fn ints_grow(t: Seq<Positioned<Token>>, i: int, v: Seq<Positioned<i64>>)
        requires 0 <= i < t.len(), int_tok(t[i].value)
        ensures
            ints_of(t.take(i), v) && !minus_at(t, i - 1) ==> forall|x: Positioned<i64>| x.value as real == t[i].value->Number_0@ && x.position == t[i].position ==> ints_of(t.take(i + 1), #[trigger] v.push(x)),
            minus_at(t, i - 1) && ints_of(t.take(i - 1), v) ==> forall|x: Positioned<i64>| x.value as real == 0real - t[i].value->Number_0@ && span(t[i - 1].position, t[i].position, x.position) ==> ints_of(t.take(i + 1), #[trigger] v.push(x)),
    {
        let u = t.take(i + 1);
        assert(u.take(i) =~= t.take(i)); if i > 0 { assert(u.take(i - 1) =~= t.take(i - 1)); }
        assert(minus_at(u, i - 1) == minus_at(t, i - 1));
        if minus_at(t, i - 1) && ints_of(t.take(i - 1), v) {
            assert forall|x: Positioned<i64>| x.value as real == 0real - t[i].value->Number_0@ && span(t[i - 1].position, t[i].position, x.position) implies ints_of(t.take(i + 1), #[trigger] v.push(x)) by { assert(v.push(x).drop_last() =~= v); }
        }
        if ints_of(t.take(i), v) && !minus_at(t, i - 1) {
            assert forall|x: Positioned<i64>| x.value as real == t[i].value->Number_0@ && x.position == t[i].position implies ints_of(t.take(i + 1), #[trigger] v.push(x)) by { assert(v.push(x).drop_last() =~= v); }
        }
    }
    // No reading of the line is a list of whole numbers.
    pub open spec fn no_ints(s: Seq<char>, radix: int) -> bool {
        forall|t: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>| #![trigger lexed(s, s.len() as int, radix, t), ints_of(t, v)] lexed(s, s.len() as int, radix, t) ==> !ints_of(t, v)
    }
    pub proof fn int_at(s: Seq<char>, radix: int, t: Seq<Positioned<Token>>, i: int)
        requires only_reading(s, radix, t), 0 <= i < t.len()
        ensures in_line(t[i].position, s), i > 0 ==> in_line(t[i - 1].position, s), t[i].value is Number ==> t[i].value->Number_0@ >= 0real && (t[i].value->Number_0@ <= i64::MAX as real ==> int_tok(t[i].value) == is_int(t[i].value->Number_0@)),
            !int_here(t, i) ==> no_ints(s, radix), i > 0 && !int_here(t, i - 1) ==> no_ints(s, radix),
            !int_tok(t[i].value) && !minus_at(t, i) ==> no_ints(s, radix),
            i > 0 && minus_at(t, i - 1) && !int_tok(t[i].value) ==> no_ints(s, radix), i == t.len() - 1 && minus_at(t, i) ==> no_ints(s, radix),
            t[i].value is Number ==> ((t[i].value->Number_0@ > i64::MAX as real || rd(t[i].value->Number_0@) != 1) == !int_tok(t[i].value)) && (rd(t[i].value->Number_0@) == 1 ==> t[i].value->Number_0@ == rn(t[i].value->Number_0@) as real),
    {
        ints_shape_all(t);
        if t[i].value is Number { crate::num::axiom_rational(t[i].value->Number_0); lemma_int_rat(t[i].value->Number_0@); }
        if !int_here(t, i) || (i > 0 && !int_here(t, i - 1)) {
            assert forall|u: Seq<Positioned<Token>>, v: Seq<Positioned<i64>>| #![trigger lexed(s, s.len() as int, radix, u), ints_of(u, v)] lexed(s, s.len() as int, radix, u) implies !ints_of(u, v) by { assert(u == t); }
        }
    }
    pub open spec fn in_line(p: Position, s: Seq<char>) -> bool { pend(p) <= s.len() }
}
func "Tokenizer::tokenize_variable_list" { ret r; props { C12, C13, C11 }
  spec { requires tk_wf(*self), input@.len() <= usize::MAX
    ensures match r { Ok(v) => !is_cmd(input@) && ascii(input@) && exists|t: Seq<Positioned<Token>>| #[trigger] lexed(input@, input@.len() as int, 10, t) && vars_of(t, v@),
      Err(e) => in_line(e.position, input@) && (ascii(input@) && !is_cmd(input@) ==> forall|t: Seq<Positioned<Token>>| #[trigger] lexed(input@, input@.len() as int, 10, t) ==> !all_vars(t)) } }
  before_let message { refused(input@, 10, positioned_error); }
  before_let result { reading(input@, 10, positioned_tokens@); }
  loop 0 { iter it; spec {
    invariant 0 <= it.idx() <= it.src().len(), only_reading(input@, 10, it.src()), ascii(input@), !is_cmd(input@), vars_of(it.src().take(it.idx()), result@),
    ensures it.idx() == it.src().len(), decreases it.src().len() - it.idx() }
    start { let i = it.idx() - 1; assert(positioned_token == it.src()[i]); assert(it.src().take(i + 1) =~= it.src().take(i).push(it.src()[i])); }
    after { proof { assert(it.src().take(it.src().len() as int) =~= it.src()); } } }
}
func "Tokenizer::tokenize_int_list" { ret r; props { C12, C13, C05 }
  spec { requires tk_wf(*self), input@.len() <= usize::MAX, 2 <= radix <= 16
    ensures match r { Ok(v) => !is_cmd(input@) && ascii(input@) && exists|t: Seq<Positioned<Token>>| #[trigger] lexed(input@, input@.len() as int, radix as int, t) && ints_of(t, v@),
      Err(e) => in_line(e.position, input@) && (ascii(input@) && !is_cmd(input@) ==> no_ints(input@, radix as int)) } }
  entry { hide(ints_of); hide(lexed); hide(is_int); hide(only_reading); hide(no_ints); hide(is_rat); proof { assert(ints_of(Seq::<Positioned<Token>>::empty(), Seq::<Positioned<i64>>::empty())) by { reveal(ints_of); } } }
  before_let message { refused(input@, radix as int, positioned_error); assert(ascii(input@) ==> no_ints(input@, radix as int)) by { reveal(no_ints); } }
  before_let result { reading(input@, radix as int, positioned_tokens@); assert(positioned_tokens@.take(0) =~= Seq::<Positioned<Token>>::empty()); }
  loop 0 { iter it; spec {
    invariant 0 <= it.idx() <= it.src().len(), only_reading(input@, radix as int, it.src()), ascii(input@), !is_cmd(input@), 2 <= radix <= 16, input@.len() <= usize::MAX,
      just_read_negative_sign_pos is Some ==> minus_at(it.src(), it.idx() - 1) && just_read_negative_sign_pos->0 == it.src()[it.idx() - 1].position && ints_of(it.src().take(it.idx() - 1), result@),
      just_read_negative_sign_pos is None ==> ints_of(it.src().take(it.idx()), result@) && !minus_at(it.src(), it.idx() - 1),
    ensures it.idx() == it.src().len(), decreases it.src().len() - it.idx() }
    start { let i = it.idx() - 1; let t = it.src(); assert(positioned_token == t[i]); int_at(input@, radix as int, t, i); if int_tok(t[i].value) { ints_grow(t, i, result@); } }
    after { proof { assert(it.src().take(it.src().len() as int) =~= it.src()); let n = it.src().len() as int; if n > 0 { int_at(input@, radix as int, it.src(), n - 1); } assert(lexed(input@, input@.len() as int, radix as int, it.src())) by { reveal(only_reading); } } } }
}
