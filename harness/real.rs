// Everything the checks ask of the code under test goes through here.
use super::oracle::Q;
use crate::commands::CommandExecutor;
use crate::error::CalculatorFailure;
use crate::input_history::InputHistory;
use crate::saved_data::SavedData;
use crate::syntax_tree::SyntaxTree;
use crate::token::{ParsedInput, Token, Tokenizer};
use crate::variable::{Variable, VariableStore};
use crate::Args;
use clap::Parser;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Text(String),
    /// An error that is about the input: what it says, and where.
    Input(String, Option<(usize, usize)>),
    /// Any other error.
    Runtime(String),
}

impl Out {
    pub fn failed(&self) -> bool {
        !matches!(self, Out::Text(_))
    }
}

pub fn failure(f: CalculatorFailure) -> Out {
    match f {
        CalculatorFailure::InputError(m) => {
            Out::Input(m.value, m.maybe_position.map(|p| (p.start, p.width)))
        }
        CalculatorFailure::RuntimeError(e) => Out::Runtime(e.to_string()),
    }
}

pub fn args() -> Args {
    let mut args = Args::try_parse_from(["bcalc"]).unwrap();
    args.no_db = true;
    args
}

#[derive(Clone, Debug, PartialEq)]
pub struct Settings {
    pub radix: u8,
    pub convert: Option<u8>,
    pub precision: u8,
    pub extra: u8,
    pub fractional: bool,
    pub commas: bool,
    pub upper: bool,
}

pub fn settings(a: &Args) -> Settings {
    Settings {
        radix: a.radix,
        convert: a.convert_to_radix,
        precision: a.precision,
        extra: a.extra_precision,
        fractional: a.fractional,
        commas: a.commas,
        upper: a.upper,
    }
}

pub fn set(a: &mut Args, s: &Settings) {
    a.radix = s.radix;
    a.convert_to_radix = s.convert;
    a.precision = s.precision;
    a.extra_precision = s.extra;
    a.fractional = s.fractional;
    a.commas = s.commas;
    a.upper = s.upper;
}

pub struct Calculator {
    pub args: Args,
    pub tokenizer: Tokenizer,
    pub executor: CommandExecutor,
    pub db: Option<SavedData>,
    pub inputs: InputHistory,
    pub vars: VariableStore,
}

impl Calculator {
    pub fn new(db: Option<SavedData>) -> Calculator {
        Calculator {
            args: args(),
            tokenizer: Tokenizer::new(),
            executor: CommandExecutor::new(),
            inputs: InputHistory::new(db.is_some()),
            db,
            vars: VariableStore::new(),
        }
    }

    /// Types a line and enters it.
    pub fn enter(&mut self, line: &str) -> Out {
        if line.is_ascii() {
            for (i, c) in line.chars().enumerate() {
                self.inputs.insert_char_into_current_line(i, c);
            }
        }
        match crate::calculate(
            line,
            &mut self.args,
            &self.tokenizer,
            &mut self.executor,
            self.db.as_mut(),
            Some(&mut self.inputs),
            Some(&mut self.vars),
        ) {
            Ok(text) => Out::Text(text),
            Err(f) => failure(f),
        }
    }

    /// Evaluates a line as `--input` does.
    pub fn once(&mut self, line: &str) -> Out {
        match crate::calculate(line, &mut self.args, &self.tokenizer, &mut self.executor, None, None, None) {
            Ok(text) => Out::Text(text),
            Err(f) => failure(f),
        }
    }

    /// What the session holds for a variable, without looking on disk.
    pub fn held(&mut self, name: &str) -> Option<Q> {
        self.vars.get(name.to_string(), None).unwrap().map(|v| v.value)
    }

    pub fn define(&mut self, name: &str, value: &Q) {
        self.vars
            .update(Variable { name: name.to_string(), value: value.clone() }, None, None)
            .unwrap();
    }

    /// The value of a line, before it is printed.
    pub fn value(&mut self, line: &str) -> Result<Q, Out> {
        let toks = match self.tokenizer.tokenize(line, self.args.radix) {
            Ok(ParsedInput::Tokens(t)) => t,
            Ok(ParsedInput::Command(_)) => return Err(Out::Runtime("a command".to_string())),
            Err(e) => return Err(failure(e.into())),
        };
        let tree = match SyntaxTree::new(toks.into()) {
            Ok(t) => t,
            Err(e) => return Err(failure(e.into())),
        };
        tree.execute(None, Some(&mut self.vars), None, &self.args).map_err(failure)
    }
}

pub enum Lexed {
    Toks(Vec<super::oracle::Tok>),
    Command { name: String, name_at: (usize, usize), args: String, args_at: (usize, usize) },
    Error(usize, usize),
}

pub fn lex(tokenizer: &Tokenizer, line: &str, radix: u8) -> Lexed {
    use super::oracle::{Tok, T};
    use crate::token::{BinaryOperatorToken as B, FunctionNameToken as F, UnaryOperatorToken as U};
    match tokenizer.tokenize(line, radix) {
        Err(e) => Lexed::Error(e.position.start, e.position.width),
        Ok(ParsedInput::Command((name, args))) => Lexed::Command {
            name: name.value,
            name_at: (name.position.start, name.position.width),
            args: args.value,
            args_at: (args.position.start, args.position.width),
        },
        Ok(ParsedInput::Tokens(toks)) => Lexed::Toks(
            toks.into_iter()
                .map(|p| Tok {
                    t: match p.value {
                        Token::Variable(v) => T::Var(v),
                        Token::AssignmentOperator => T::Assign,
                        Token::Comma => T::Comma,
                        Token::Number(q) => T::Num(q),
                        Token::OpenParen => T::Open,
                        Token::CloseParen => T::Close,
                        Token::BinaryOperator(b) => T::Op(match b {
                            B::Add => '+',
                            B::Subtract => '-',
                            B::Multiply => '*',
                            B::Divide => '/',
                            B::Modulus => '%',
                            B::Exponent => '^',
                        }),
                        Token::UnaryOperator(U::SquareRoot) => T::Sqrt,
                        Token::UnaryOperator(U::AbsoluteValue) => T::Abs,
                        Token::UnaryOperator(U::Negate) => T::Op('-'),
                        Token::Function(F::Max) => T::Max,
                        Token::Function(F::Min) => T::Min,
                    },
                    start: p.position.start,
                    end: p.position.start + p.position.width,
                })
                .collect(),
        ),
    }
}

/// Is the line a well-formed expression, and if not, where is it said to go wrong? `None` if it does not
/// get as far as being parsed.
pub fn accepts(tokenizer: &Tokenizer, line: &str, radix: u8) -> Option<Result<(), (usize, usize)>> {
    match tokenizer.tokenize(line, radix) {
        Ok(ParsedInput::Tokens(t)) => Some(match SyntaxTree::new(t.into()) {
            Ok(_) => Ok(()),
            Err(e) => Err((e.position.start, e.position.width)),
        }),
        _ => None,
    }
}
