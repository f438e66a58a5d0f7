// ---- core::fmt: a Formatter is the text written to it so far, and options (width, precision …). What follows is assumed of core:
// Display of strings, characters and unsigned integers without options writes the text itself or the numeral;
// write_str and write_char ignore the options; the arguments of write! are formatted without options.
pub struct FmtError;
#[verifier::external_body]
pub struct Formatter { v: String }
impl Formatter {
    pub uninterp spec fn view(&self) -> Seq<char>;
    // no option is set
    pub uninterp spec fn plain(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self)@ == old(self)@ + s@, final(self).plain() == old(self).plain() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self)@ == old(self)@.push(c), final(self).plain() == old(self).plain() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_arg<T: Shown + ?Sized>(&mut self, x: &T) -> (r: Result<(), FmtError>)
        ensures r is Ok ==> final(self)@ == old(self)@ + x.shown(), final(self).plain() == old(self).plain() { unimplemented!() }
}
pub trait Shown {
    spec fn shown(&self) -> Seq<char>;
    // the options are ignored
    spec fn fixed(&self) -> bool;
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>)
        ensures r is Ok && (old(f).plain() || self.fixed()) ==> final(f)@ == old(f)@ + self.shown();
}
// imported by some functions; its methods are inherent ones here
pub trait FmtWrite {}
impl Shown for str { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for String { open spec fn shown(&self) -> Seq<char> { self@ } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for u8 { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for u16 { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for u32 { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for u64 { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl Shown for usize { open spec fn shown(&self) -> Seq<char> { decimal(*self as nat) } open spec fn fixed(&self) -> bool { false }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl<T: Shown + ?Sized> Shown for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } open spec fn fixed(&self) -> bool { (**self).fixed() }
    #[verifier::external_body]
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
// format!
#[verifier::external_body]
pub struct Out { v: String }
impl Out {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn lit(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Shown + ?Sized>(&mut self, x: &T) ensures final(self)@ == old(self)@ + x.shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub mod fmt {
    pub use super::{Formatter, Shown as Display, FmtError as Error, FmtWrite as Write};
    pub type Result = core::result::Result<(), super::FmtError>;
}
