drop { InternalCalculatorErrorDummy }
clone { ParseError, SyntaxError, MathExecutionError, MissingCapabilityError }
items {
    impl VDisp for ParseError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VDisp for SyntaxError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VDisp for MathExecutionError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VDisp for MissingCapabilityError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn v_to_string(&self) -> (r: String) { unimplemented!() } }
    impl VFrom<InternalCalculatorError> for BoxError { open spec fn from_ens(t: InternalCalculatorError, r: BoxError) -> bool { true } #[verifier::external_body] fn v_from(t: InternalCalculatorError) -> (r: BoxError) { unimplemented!() } }
    impl VFrom<CalculatorEnvironmentError> for BoxError { open spec fn from_ens(t: CalculatorEnvironmentError, r: BoxError) -> bool { true } #[verifier::external_body] fn v_from(t: CalculatorEnvironmentError) -> (r: BoxError) { unimplemented!() } }
    impl VFrom<CalculatorDatabaseInconsistencyError> for BoxError { open spec fn from_ens(t: CalculatorDatabaseInconsistencyError, r: BoxError) -> bool { true } #[verifier::external_body] fn v_from(t: CalculatorDatabaseInconsistencyError) -> (r: BoxError) { unimplemented!() } }
    // The user's error and where in the line it is.
    pub open spec fn input_err(f: CalculatorFailure) -> bool { f is InputError }
    pub open spec fn err_pos(f: CalculatorFailure) -> Option<crate::position::Position> { match f { CalculatorFailure::InputError(m) => m.maybe_position, _ => None } }
    pub open spec fn err_text(f: CalculatorFailure) -> Seq<char> { match f { CalculatorFailure::InputError(m) => m.value@, _ => Seq::empty() } }
    pub open spec fn input_err_of(f: CalculatorFailure, text: Seq<char>, p: Option<crate::position::Position>) -> bool {
        f is InputError && err_text(f) == text && err_pos(f) == p
    }
}
inject "impl From<Positioned<String>> for CalculatorFailure" { open spec fn from_ens(t: Positioned<String>, r: Self) -> bool { input_err_of(r, t.value@, Some(t.position)) } }
inject "impl From<Box<dynstd::error::Error>> for CalculatorFailure" { open spec fn from_ens(t: BoxError, r: Self) -> bool { r == CalculatorFailure::RuntimeError(t) } }
inject "impl From<Positioned<ParseError>> for CalculatorFailure" { open spec fn from_ens(t: Positioned<ParseError>, r: Self) -> bool { input_err_of(r, t.value.disp(), Some(t.position)) } }
inject "impl From<Positioned<SyntaxError>> for CalculatorFailure" { open spec fn from_ens(t: Positioned<SyntaxError>, r: Self) -> bool { input_err_of(r, t.value.disp(), Some(t.position)) } }
inject "impl From<Positioned<MathExecutionError>> for CalculatorFailure" { open spec fn from_ens(t: Positioned<MathExecutionError>, r: Self) -> bool { input_err_of(r, t.value.disp(), Some(t.position)) } }
inject "impl From<MissingCapabilityError> for CalculatorFailure" { open spec fn from_ens(t: MissingCapabilityError, r: Self) -> bool { input_err_of(r, t.disp(), None) } }
inject "impl From<Positioned<MissingCapabilityError>> for CalculatorFailure" { open spec fn from_ens(t: Positioned<MissingCapabilityError>, r: Self) -> bool { input_err_of(r, t.value.disp(), Some(t.position)) } }
func "CalculatorFailure::from<Positioned<String>>" { props { C13 } }
func "CalculatorFailure::from<Box<dynstd::error::Error>>" { props { C13 } }
func "CalculatorFailure::from<Positioned<ParseError>>" { props { C13 } inline map { |v: ParseError| -> (s: String) ensures s@ == v.disp() } }
func "CalculatorFailure::from<Positioned<SyntaxError>>" { props { C13 } inline map { |v: SyntaxError| -> (s: String) ensures s@ == v.disp() } }
func "CalculatorFailure::from<Positioned<MathExecutionError>>" { props { C13 } inline map { |v: MathExecutionError| -> (s: String) ensures s@ == v.disp() } }
func "CalculatorFailure::from<MissingCapabilityError>" { props { C13 } }
func "CalculatorFailure::from<Positioned<MissingCapabilityError>>" { props { C13 } inline map { |v: MissingCapabilityError| -> (s: String) ensures s@ == v.disp() } }
func "InternalCalculatorError::new" { ret r; }
func "CalculatorEnvironmentError::new" { ret r; }
func "CalculatorDatabaseInconsistencyError::new" { ret r; }
