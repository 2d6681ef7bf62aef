// The arguments of a program, as clap hands them over, and what it prints
use crate::graph::VertexId;
use crate::text::*;
/// the ids, one per line
pub open spec fn listed(s: Seq<VertexId>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { listed(s.drop_last()) + dec(s.last().0 as nat) + "\n"@ } }
#[verifier::external_body]
pub struct ArgMatches { _r: u8 }
impl ArgMatches {
    /// the option is on the command line
    pub uninterp spec fn has(&self, name: Seq<char>) -> bool;
    /// the values of the option (or its default value)
    pub uninterp spec fn texts(&self, name: Seq<char>) -> Seq<&str>;
    /// how the option is declared: what the user writes for it (--long, -short), whether it has values, may have several,
    /// how many at least, whether it must be there, and its value when it is not
    pub uninterp spec fn long(&self, name: Seq<char>) -> Seq<char>;
    pub uninterp spec fn short(&self, name: Seq<char>) -> Seq<char>;
    pub uninterp spec fn valued(&self, name: Seq<char>) -> bool;
    pub uninterp spec fn many(&self, name: Seq<char>) -> bool;
    pub uninterp spec fn least(&self, name: Seq<char>) -> nat;
    pub uninterp spec fn needed(&self, name: Seq<char>) -> bool;
    pub uninterp spec fn preset(&self, name: Seq<char>) -> Option<Seq<char>>;
    /// --name is a flag
    pub open spec fn flag(&self, name: Seq<char>) -> bool { self.long(name) == name && !self.valued(name) && !self.needed(name) }
    /// --name may be given a value
    pub open spec fn takes_one(&self, name: Seq<char>) -> bool { self.long(name) == name && self.valued(name) && self.least(name) <= 1 }
    /// --name may be given any list of at least min values
    pub open spec fn takes_list(&self, name: Seq<char>, min: nat) -> bool { self.long(name) == name && self.valued(name) && self.many(name) && self.least(name) <= min && !self.needed(name) }
    /// --name may be given a value, which is d when it is not there
    pub open spec fn takes_or(&self, name: Seq<char>, d: Seq<char>) -> bool { self.takes_one(name) && self.preset(name) == Some(d) }
    pub open spec fn optional(&self, name: Seq<char>) -> bool { self.takes_one(name) && !self.needed(name) && self.preset(name) is None }
    #[verifier::external_body]
    pub fn is_present(&self, name: &str) -> (r: bool)
        ensures r == self.has(name@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn value_of<'a>(&'a self, name: &str) -> (r: Option<&'a str>)
        ensures match r { Some(x) => self.texts(name@).len() > 0 && x == self.texts(name@)[0], None => self.texts(name@).len() == 0 },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values_of<'a>(&'a self, name: &str) -> (r: Option<It<&'a str>>)
        ensures match r { Some(x) => self.texts(name@).len() > 0 && x.all() == self.texts(name@) && x.pos() == 0, None => self.texts(name@).len() == 0 },
    { unimplemented!() }
}
/// App::new(..)...get_matches(): whatever the user wrote
#[verifier::external_body]
pub fn vcli_matches() -> (r: ArgMatches)
{ unimplemented!() }
/// Arg::with_name(..)...: one option of the declaration
#[verifier::external_body]
pub fn vcli_option(m: &ArgMatches, name: &str, long: &str, short: &str, valued: bool, many: bool, least: usize, needed: bool, has: bool, preset: &str)
    ensures m.long(name@) == long@, m.short(name@) == short@, m.valued(name@) == valued, m.many(name@) == many, m.least(name@) == least, m.needed(name@) == needed,
        m.preset(name@) == (if has { Some(preset@) } else { None::<Seq<char>> }),
{ unimplemented!() }
/// unwrap and expect in a main function: the program ends with an error unless there is a value
pub trait VOrExit<T>: Sized {
    spec fn value(self) -> Option<T>;
    fn or_exit(self) -> (r: T)
        ensures self.value() == Some(r);
}
impl<T> VOrExit<T> for Option<T> {
    open spec fn value(self) -> Option<T> { self }
    #[verifier::external_body]
    fn or_exit(self) -> (r: T) { unimplemented!() }
}
impl<T, E> VOrExit<T> for Result<T, E> {
    open spec fn value(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    #[verifier::external_body]
    fn or_exit(self) -> (r: T) { unimplemented!() }
}
/// the line the user types when asked
pub uninterp spec fn typed() -> Seq<char>;
/// std::io::stdin().read_line(buffer)
#[verifier::external_body]
pub fn vcli_line(buffer: &mut String) -> (r: Result<usize, IoError>)
    ensures r is Ok ==> final(buffer)@ == old(buffer)@ + typed(),
{ unimplemented!() }
/// as_ref() of a &str: the same text, which decides equality
pub trait VPlain {
    fn plain_(&self) -> (r: &str);
}
impl VPlain for str {
    #[verifier::external_body]
    fn plain_(&self) -> (r: &str)
        ensures r@ == self@, forall|x: &str| #![trigger x@] x@ == r@ ==> x == r,
    { unimplemented!() }
}
