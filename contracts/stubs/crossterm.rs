// Assumed contracts on crossterm: what it reports (events, size, cursor) and what it may be asked to
// write. TRUSTED.
#![allow(unused_imports, unused_variables, dead_code)]
use vstd::prelude::*;
use crate::specs::*;
use crate::vstd_model::*;

verus! {
// The terminal was this wide at some time: it said so.
pub uninterp spec fn seen_width(w: u16) -> bool;
// Something that can be written to the terminal. Rows and columns are sent one higher, with 16 bits.
pub trait VCommand { spec fn ok(&self) -> bool; }
#[verifier::external_body]
pub fn v_put<C: VCommand>(out: &mut Stdout, c: &C) -> (r: Result<(), io::Error>) requires c.ok() ensures io::real(r) { unimplemented!() }
pub mod cursor {
    use vstd::prelude::*;
    use super::VCommand;
    use crate::vstd_model::io;
    verus! {
    // Crossterm reads a position from 1 and reports it from 0.
    #[verifier::external_body]
    pub fn position() -> (r: Result<(u16, u16), io::Error>) ensures super::io::real(r), r is Ok ==> (r->Ok_0).0 < 65535 && (r->Ok_0).1 < 65535 { unimplemented!() }
    pub struct MoveTo(pub u16, pub u16);
    impl VCommand for MoveTo { open spec fn ok(&self) -> bool { self.0 < 65535 && self.1 < 65535 } }
    pub struct MoveToColumn(pub u16);
    impl VCommand for MoveToColumn { open spec fn ok(&self) -> bool { self.0 < 65535 } }
    pub struct MoveToNextLine(pub u16);
    impl VCommand for MoveToNextLine { open spec fn ok(&self) -> bool { true } }
    }
}
pub mod style {
    use vstd::prelude::*;
    use super::VCommand;
    verus! {
    pub struct Print<T>(pub T);
    impl<T> VCommand for Print<T> { open spec fn ok(&self) -> bool { true } }
    }
}
pub mod terminal {
    use vstd::prelude::*;
    use super::VCommand;
    use crate::vstd_model::io;
    verus! {
    #[verifier::external_body]
    pub fn size() -> (r: Result<(u16, u16), io::Error>) ensures super::io::real(r), r is Ok ==> super::seen_width((r->Ok_0).0) { unimplemented!() }
    #[verifier::external_body]
    pub fn enable_raw_mode() -> (r: Result<(), io::Error>) ensures super::io::real(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn disable_raw_mode() -> (r: Result<(), io::Error>) ensures super::io::real(r) { unimplemented!() }
    pub enum ClearType { All, Purge, FromCursorDown, FromCursorUp, CurrentLine, UntilNewLine }
    pub struct Clear(pub ClearType);
    impl VCommand for Clear { open spec fn ok(&self) -> bool { true } }
    pub struct EnterAlternateScreen;
    impl VCommand for EnterAlternateScreen { open spec fn ok(&self) -> bool { true } }
    pub struct LeaveAlternateScreen;
    impl VCommand for LeaveAlternateScreen { open spec fn ok(&self) -> bool { true } }
    }
}
pub mod event {
    use vstd::prelude::*;
    use crate::vstd_model::{io, VEq};
    verus! {
    pub enum KeyCode { Backspace, Enter, Left, Right, Up, Down, Home, End, PageUp, PageDown, Tab, BackTab, Delete, Insert, F(u8), Char(char), Null, Esc, CapsLock, ScrollLock, NumLock, PrintScreen, Pause, Menu, KeypadBegin, Other }
    #[derive(Clone, Copy)]
    pub struct KeyModifiers { pub bits: u8 }
    impl KeyModifiers {
        pub const SHIFT: KeyModifiers = KeyModifiers { bits: 1 };
        pub const CONTROL: KeyModifiers = KeyModifiers { bits: 2 };
        pub const ALT: KeyModifiers = KeyModifiers { bits: 4 };
        pub const NONE: KeyModifiers = KeyModifiers { bits: 0 };
        pub fn v_is_empty(&self) -> (r: bool) ensures r == (self.bits == 0) { self.bits == 0 }
    }
    impl VEq<KeyModifiers> for KeyModifiers {
        open spec fn eqs(&self, o: &KeyModifiers) -> bool { self.bits == o.bits }
        fn v_eq(&self, o: &KeyModifiers) -> (r: bool) { self.bits == o.bits }
        fn v_ne(&self, o: &KeyModifiers) -> (r: bool) { self.bits != o.bits }
    }
    pub struct KeyEvent { pub code: KeyCode, pub modifiers: KeyModifiers }
    pub enum Event { FocusGained, FocusLost, Key(KeyEvent), Mouse(u8), Paste(String), Resize(u16, u16) }
    // Pasting is an event of its own only if that was asked for (EnableBracketedPaste).
    #[verifier::external_body]
    pub fn read() -> (r: Result<Event, io::Error>)
        ensures super::io::real(r), r is Ok ==> !(r->Ok_0 is Paste) && (r->Ok_0 is Resize ==> super::seen_width(r->Ok_0->Resize_0))
    { unimplemented!() }
    }
}
}
