// Paths and files: what the command-line tools ask of the file system
use crate::text::*;
#[verifier::external_body]
pub struct Path { _r: u8 }
#[verifier::external_body]
pub struct PathBuf { _r: u8 }
/// the path of the entry named s in the directory p
pub uninterp spec fn entry_of(p: Seq<char>, s: Seq<char>) -> Seq<char>;
impl Path {
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new<'a>(s: &'a str) -> (r: &'a Path)
        ensures r.txt() == s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf)
        ensures r.txt() == entry_of(self.txt(), s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures r is Some, r->Some_0@ == self.txt(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
    { unimplemented!() }
}
impl PathBuf {
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf)
        ensures r.txt() == entry_of(self.txt(), s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_boxed_path(self) -> (r: Box<Path>)
        ensures r.txt() == self.txt(),
    { unimplemented!() }
}
pub trait VAsRef<T> { fn as_ref_(&self) -> &T; }
impl VAsRef<Path> for Box<Path> {
    fn as_ref_(&self) -> (r: &Path)
        ensures *r == **self,
    { &**self }
}
impl VPath for &Path { open spec fn path_text(&self) -> Seq<char> { self.txt() } }
impl VPath for PathBuf { open spec fn path_text(&self) -> Seq<char> { self.txt() } }
impl VPath for &PathBuf { open spec fn path_text(&self) -> Seq<char> { self.txt() } }
impl IoError {
    #[verifier::external_body]
    pub fn description(&self) -> (r: &str)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn remove_file<P: VPath>(p: P) -> (r: IoResult<()>)
{ unimplemented!() }
#[verifier::external_body]
pub fn remove_dir_all<P: VPath>(p: P) -> (r: IoResult<()>)
    ensures r is Ok ==> removed(p.path_text()),
{ unimplemented!() }
/// the directory was removed with all it holds
pub uninterp spec fn removed(path: Seq<char>) -> bool;
#[verifier::external_body]
pub fn create_dir_all<P: VPath>(p: P) -> (r: IoResult<()>)
{ unimplemented!() }
pub mod fs { pub use super::{remove_file, remove_dir_all, create_dir_all}; pub use crate::text::{File, OpenOptions}; }
pub mod path { pub use super::{Path, PathBuf}; }
