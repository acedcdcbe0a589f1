// Paths, environment, files, YAML, CSV and ordered maps: stand-ins for std, dirs, serde_yaml and csv. Trusted.
// Everything outside the program (environment, directories, file contents) is a fixed, arbitrary function of its name.
use vstd::prelude::*;
use crate::sp::*;
use crate::vx::*;
use crate::ext::{From, Into, AsRef, ToString};

// ---- paths --------------------------------------------------------------------------------------------
/// an abstract path
pub struct PathV { pub id: int }
/// an abstract OsStr
pub struct OsV { pub id: int }
pub uninterp spec fn p_of(s: Seq<char>) -> PathV;
pub uninterp spec fn p_join(d: PathV, f: PathV) -> PathV;
pub uninterp spec fn p_with_ext(p: PathV, e: Seq<char>) -> PathV;
pub uninterp spec fn p_ext(p: PathV) -> Option<OsV>;
pub uninterp spec fn os_of(s: Seq<char>) -> OsV;
pub uninterp spec fn os_str(o: OsV) -> Option<Seq<char>>;
pub uninterp spec fn p_is_file(p: PathV) -> bool;
pub uninterp spec fn p_exists(p: PathV) -> bool;
pub uninterp spec fn p_is_dir(p: PathV) -> bool;
/// a file name without separators whose only dot, if any, is its first character
pub open spec fn simple_name(f: Seq<char>) -> bool {
    &&& f.len() > 0 && f != seq!['.']
    &&& forall|i: int| 0 <= i < f.len() ==> #[trigger] f[i] != '/' && f[i] != '\0'
    &&& forall|i: int| 1 <= i < f.len() ==> #[trigger] f[i] != '.'
}
pub open spec fn simple_ext(e: Seq<char>) -> bool { e.len() > 0 && forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] != '/' && e[i] != '.' && e[i] != '\0' }
pub open spec fn dotted_name(f: Seq<char>, e: Seq<char>) -> Seq<char> { f + seq!['.'] + e }
pub axiom fn ax_with_ext(d: PathV, f: Seq<char>, e: Seq<char>)
    requires simple_name(f), simple_ext(e)
    ensures p_with_ext(p_join(d, p_of(f)), e) == p_join(d, p_of(dotted_name(f, e)));
pub axiom fn ax_with_ext2(d: PathV, f: Seq<char>, e: Seq<char>, g: Seq<char>)
    requires simple_name(f), simple_ext(e), simple_ext(g)
    ensures p_with_ext(p_join(d, p_of(dotted_name(f, e))), g) == p_join(d, p_of(dotted_name(f, g)));
pub axiom fn ax_ext(d: PathV, f: Seq<char>, e: Seq<char>)
    requires simple_name(f), simple_ext(e)
    ensures p_ext(p_join(d, p_of(dotted_name(f, e)))) == Some(os_of(e));
pub broadcast axiom fn ax_os_str(s: Seq<char>) ensures os_str(#[trigger] os_of(s)) == Some(s);

pub mod path {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Path { p: std::path::PathBuf }
    pub type PathBuf = Path;
    #[verifier::external_body] pub struct OsStr { p: std::path::PathBuf }
    impl Path {
        pub uninterp spec fn view(&self) -> PathV;
        #[verifier::external_body] pub fn new<P: PathArg>(p: P) -> (r: Path) ensures r@ == p.vx_pa() { unimplemented!() }
        #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn is_file(&self) -> (r: bool) ensures r == p_is_file(self@) { unimplemented!() }
        #[verifier::external_body] pub fn is_dir(&self) -> (r: bool) ensures r == p_is_dir(self@) { unimplemented!() }
        #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == p_exists(self@) { unimplemented!() }
        #[verifier::external_body] pub fn extension(&self) -> (r: Option<&OsStr>) ensures r.is_some() == p_ext(self@).is_some(), r.is_some() ==> r.unwrap()@ == p_ext(self@).unwrap() { unimplemented!() }
        #[verifier::external_body] pub fn push<P: PathArg>(&mut self, p: P) ensures final(self)@ == p_join(old(self)@, p.vx_pa()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_join<P: PathArg>(&self, p: P) -> (r: PathBuf) ensures r@ == p_join(self@, p.vx_pa()) { unimplemented!() }
        #[verifier::external_body] pub fn set_extension<S: StrArg>(&mut self, e: S) -> (r: bool) ensures final(self)@ == p_with_ext(old(self)@, e.vx_sa()) { unimplemented!() }
        #[verifier::external_body] pub fn with_extension<S: StrArg>(&self, e: S) -> (r: PathBuf) ensures r@ == p_with_ext(self@, e.vx_sa()) { unimplemented!() }
    }
    impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl OsStr {
        pub uninterp spec fn view(&self) -> OsV;
        #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r.is_some() == os_str(self@).is_some(), r.is_some() ==> r.unwrap()@ == os_str(self@).unwrap() { unimplemented!() }
    }
    /// what can be pushed onto a path
    pub trait PathArg { spec fn vx_pa(&self) -> PathV; }
    impl PathArg for str { open spec fn vx_pa(&self) -> PathV { p_of(self@) } }
    impl PathArg for String { open spec fn vx_pa(&self) -> PathV { p_of(self@) } }
    impl PathArg for Path { open spec fn vx_pa(&self) -> PathV { self@ } }
    impl<T: PathArg + ?Sized> PathArg for &T { open spec fn vx_pa(&self) -> PathV { (**self).vx_pa() } }
    pub trait StrArg { spec fn vx_sa(&self) -> Seq<char>; }
    impl StrArg for str { open spec fn vx_sa(&self) -> Seq<char> { self@ } }
    impl StrArg for String { open spec fn vx_sa(&self) -> Seq<char> { self@ } }
    impl<T: StrArg + ?Sized> StrArg for &T { open spec fn vx_sa(&self) -> Seq<char> { (**self).vx_sa() } }
    impl AsRef<Path> for Path {
        open spec fn vx_as_ref_ok(&self, r: &Path) -> bool { r@ == self@ }
        fn vx_as_ref(&self) -> (r: &Path) { self }
    }
    impl AsRef<Path> for str {
        open spec fn vx_as_ref_ok(&self, r: &Path) -> bool { r@ == p_of(self@) }
        #[verifier::external_body] fn vx_as_ref(&self) -> (r: &Path) { unimplemented!() }
    }
    impl AsRef<Path> for String {
        open spec fn vx_as_ref_ok(&self, r: &Path) -> bool { r@ == p_of(self@) }
        #[verifier::external_body] fn vx_as_ref(&self) -> (r: &Path) { unimplemented!() }
    }
    impl From<String> for Path {
        open spec fn vx_from_ok(t: String, r: Path) -> bool { r@ == p_of(t@) }
        #[verifier::external_body] fn vx_from(t: String) -> (r: Path) { unimplemented!() }
    }
    impl From<&str> for Path {
        open spec fn vx_from_ok(t: &str, r: Path) -> bool { r@ == p_of(t@) }
        #[verifier::external_body] fn vx_from(t: &str) -> (r: Path) { unimplemented!() }
    }
}
pub use path::{Path, PathBuf};
/// `==` between values of different types
pub trait VxSame<B: ?Sized> { spec fn vx_eqv(&self, o: &B) -> bool; }
impl VxSame<&str> for &path::OsStr { open spec fn vx_eqv(&self, o: &&str) -> bool { os_str((*self)@) == Some((*o)@) } }
impl VxSame<str> for &path::OsStr { open spec fn vx_eqv(&self, o: &str) -> bool { os_str((*self)@) == Some(o@) } }
impl VxSame<&str> for String { open spec fn vx_eqv(&self, o: &&str) -> bool { self@ == (*o)@ } }
impl VxSame<&str> for &str { open spec fn vx_eqv(&self, o: &&str) -> bool { (*self)@ == (*o)@ } }
impl VxSame<&str> for str { open spec fn vx_eqv(&self, o: &&str) -> bool { self@ == (*o)@ } }
impl<B> VxSame<Option<B>> for Option<B> { open spec fn vx_eqv(&self, o: &Option<B>) -> bool { *self == *o } }
//@needs corr::item::Item: PartialEq
impl VxSame<Vec<crate::corr::item::Item>> for Vec<crate::corr::item::Item> { open spec fn vx_eqv(&self, o: &Vec<crate::corr::item::Item>) -> bool { crate::sp::ivs(self@) == crate::sp::ivs(o@) } }
//@end
#[verifier::external_body]
pub fn vx_same<A: VxSame<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.vx_eqv(b) { unimplemented!() }

// ---- environment and files ------------------------------------------------------------------------------
pub uninterp spec fn env_var(n: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn home_of() -> Option<PathV>;
pub uninterp spec fn cwd_of() -> Option<PathV>;
pub uninterp spec fn f_opens(p: PathV) -> bool;
/// the text of a file that can be read and is UTF-8
pub uninterp spec fn f_text(p: PathV) -> Option<Seq<char>>;
pub mod io {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: std::io::Error }
    impl ToString for Error {
        uninterp spec fn vx_ts(&self) -> Seq<char>;
        #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
    }
    pub struct Stdin {}
    pub fn stdin() -> (r: Stdin) { Stdin {} }
    impl Stdin {
        /// appends the next line of the input with its end
        #[verifier::external_body] pub fn read_line(&self, io: &mut VxIo, b: &mut String) -> (r: Result<usize, Error>)
            ensures r.is_ok() == stdin_line(old(io)@.read).is_some(), r.is_ok() ==> final(b)@ == old(b)@ + stdin_line(old(io)@.read).unwrap(),
                final(io)@ == (IoV { read: old(io)@.read + 1, ..old(io)@ }) { unimplemented!() }
    }
}
/// the terminal of a program: what it has printed, how many lines it has read, and whether it may end by a panic
pub struct IoV { pub out: Seq<char>, pub read: int, pub may_exit: bool }
#[verifier::external_body] pub struct VxIo { e: u8 }
/// the lines of the input (with their ends); None is one that cannot be read
pub uninterp spec fn stdin_line(n: int) -> Option<Seq<char>>;
impl VxIo {
    pub uninterp spec fn view(&self) -> IoV;
    #[verifier::external_body] pub fn vx_println(&mut self, s: String) ensures final(self)@ == (IoV { out: old(self)@.out + s@ + seq!['\n'], read: old(self)@.read, may_exit: false }) { unimplemented!() }
    #[verifier::external_body] pub fn vx_print(&mut self, s: String) ensures final(self)@ == (IoV { out: old(self)@.out + s@, read: old(self)@.read, may_exit: false }) { unimplemented!() }
    /// a panic or exit of a program
    #[verifier::external_body] pub fn vx_exit(&mut self) -> ! requires old(self)@.may_exit { unimplemented!() }
}
pub mod env_logger { #[verifier::external_body] pub fn init() { unimplemented!() } }
// ---- Python: stand-ins for pyo3 --------------------------------------------------------------------------
#[verifier::external_body] #[derive(Debug)] pub struct PyErr { e: u8 }
impl PyErr { /// an OSError
    pub uninterp spec fn is_os(&self) -> bool; }
pub type PyResult<T> = Result<T, PyErr>;
pub struct PyOSError {}
impl PyOSError { #[verifier::external_body] pub fn new_err(s: String) -> (r: PyErr) ensures r.is_os() { unimplemented!() } }
pub fn vx_err_py(e: PyErr) -> (r: PyErr) ensures r == e { e }
#[verifier::external_body] pub struct PyAny { e: u8 }
impl PyAny {
    /// what its attribute items holds, when it has one that is a list of Item
    pub uninterp spec fn vx_items(&self) -> Option<Seq<ItemV>>;
    #[verifier::external_body] pub fn extract<T: FromPyObject>(&self) -> (r: Result<T, PyErr>) ensures T::vx_extract_ok(*self, r) { unimplemented!() }
}
pub trait FromPyObject: Sized { spec fn vx_extract_ok(a: PyAny, r: Result<Self, PyErr>) -> bool; }
#[verifier::external_body] pub struct Python { e: u8 }
#[verifier::external_body] pub struct PyModule { e: u8 }
/// Box<dyn Error>
#[verifier::external_body] #[derive(Debug)] pub struct VxBoxErr { e: u8 }
/// the text of UTF-8 bytes
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body] #[derive(Debug)] pub struct FromUtf8Error { e: u8 }
#[verifier::external_body] pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures r.is_ok() == utf8_text(v@).is_some(), r.is_ok() ==> r.unwrap()@ == utf8_text(v@).unwrap() { unimplemented!() }
pub mod env {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct VarError { e: u8 }
    #[verifier::external_body] pub fn var(n: &str) -> (r: Result<String, VarError>) ensures r.is_ok() == env_var(n@).is_some(), r.is_ok() ==> r.unwrap()@ == env_var(n@).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn set_var(n: &str, v: &str) requires n@ == "RUST_LOG"@ { unimplemented!() }
    #[verifier::external_body] pub fn current_dir() -> (r: Result<PathBuf, io::Error>) ensures r.is_ok() == cwd_of().is_some(), r.is_ok() ==> r.unwrap()@ == cwd_of().unwrap() { unimplemented!() }
}
pub mod dirs {
    use super::*;
    #[verifier::external_body] pub fn home_dir() -> (r: Option<PathBuf>) ensures r.is_some() == home_of().is_some(), r.is_some() ==> r.unwrap()@ == home_of().unwrap() { unimplemented!() }
}
pub mod fs {
    use super::*;
    #[verifier::external_body] pub struct File { f: u8 }
    impl File {
        pub uninterp spec fn view(&self) -> PathV;
        #[verifier::external_body] pub fn open<P: AsRef<Path>>(p: P) -> (r: Result<File, io::Error>)
            ensures exists|q: &Path| #[trigger] p.vx_as_ref_ok(q) && r.is_ok() == f_opens(q@) && (r.is_ok() ==> r.unwrap()@ == q@) { unimplemented!() }
    }
    #[verifier::external_body] pub fn canonicalize<P: AsRef<Path>>(p: P) -> (r: Result<PathBuf, io::Error>)
        ensures exists|q: &Path| #[trigger] p.vx_as_ref_ok(q) && r.is_ok() == f_canon(q@).is_some() && (r.is_ok() ==> r.unwrap()@ == f_canon(q@).unwrap()) { unimplemented!() }
    #[verifier::external_body] pub fn read_to_string<P: AsRef<Path>>(p: P) -> (r: Result<String, io::Error>)
        ensures exists|q: &Path| #[trigger] p.vx_as_ref_ok(q) && r.is_ok() == f_text(q@).is_some() && (r.is_ok() ==> r.unwrap()@ == f_text(q@).unwrap()) { unimplemented!() }
}
pub use fs::File;
/// the canonical form of a path names the same file, and what can be opened has one
pub broadcast axiom fn ax_canon(p: PathV)
    ensures
        f_opens(p) ==> (#[trigger] f_canon(p)).is_some(),
        f_canon(p).is_some() ==> f_opens(f_canon(p).unwrap()) == f_opens(p) && f_text(f_canon(p).unwrap()) == f_text(p)
            && forall|o: CsvOpt| #[trigger] csv_rows(f_canon(p).unwrap(), o) == csv_rows(p, o);
pub uninterp spec fn f_canon(p: PathV) -> Option<PathV>;
/// what can be read can be opened
pub broadcast axiom fn ax_f_text(p: PathV) ensures (#[trigger] f_text(p)).is_some() ==> f_opens(p);

// ---- YAML ---------------------------------------------------------------------------------------------
pub enum YV { Null, Other, Str(Seq<char>), Seq(Seq<YV>), Map(Seq<(YV, YV)>) }
pub uninterp spec fn yaml_parse(t: Seq<char>) -> Option<YV>;
pub open spec fn ymap_ok(m: Seq<(YV, YV)>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0 }
/// the value of a string key, when v is a mapping that has it
pub open spec fn ymap_get(m: Seq<(YV, YV)>, k: Seq<char>, n: int) -> Option<YV> decreases n {
    if n <= 0 { None } else if m[n - 1].0 == YV::Str(k) { Some(m[n - 1].1) } else { ymap_get(m, k, n - 1) }
}
pub open spec fn yget(v: YV, k: Seq<char>) -> Option<YV> { match v { YV::Map(m) => ymap_get(m, k, m.len() as int), _ => None } }
pub mod serde_yaml {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: u8 }
    #[verifier::external_body] pub struct Value { e: u8 }
    #[verifier::external_body] pub struct Mapping { e: u8 }
    pub type Sequence = Vec<Value>;
    impl Value {
        pub uninterp spec fn view(&self) -> YV;
        #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>)
            ensures r.is_some() == yget(self@, k@).is_some(), r.is_some() ==> r.unwrap()@ == yget(self@, k@).unwrap() { unimplemented!() }
        #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == (self@ is Null) { unimplemented!() }
        #[verifier::external_body] pub fn is_string(&self) -> (r: bool) ensures r == (self@ is Str) { unimplemented!() }
        #[verifier::external_body] pub fn is_sequence(&self) -> (r: bool) ensures r == (self@ is Seq) { unimplemented!() }
        #[verifier::external_body] pub fn is_mapping(&self) -> (r: bool) ensures r == (self@ is Map) { unimplemented!() }
        #[verifier::external_body] pub fn vx_as_str(&self) -> (r: Option<&str>) ensures r.is_some() == (self@ is Str), r.is_some() ==> r.unwrap()@ == self@->Str_0 { unimplemented!() }
        #[verifier::external_body] pub fn as_sequence(&self) -> (r: Option<&Vec<Value>>) ensures r.is_some() == (self@ is Seq), r.is_some() ==> yvs(r.unwrap()@) == self@->Seq_0 { unimplemented!() }
        #[verifier::external_body] pub fn as_mapping(&self) -> (r: Option<&Mapping>) ensures r.is_some() == (self@ is Map), r.is_some() ==> r.unwrap()@ == self@->Map_0 { unimplemented!() }
    }
    impl Mapping {
        pub uninterp spec fn view(&self) -> Seq<(YV, YV)>;
        #[verifier::external_body] pub fn vx_iter(&self) -> (r: VxIter<(&Value, &Value)>) ensures r.pos() == 0, yps(r.seq()) == self@, ymap_ok(self@) { unimplemented!() }
    }
    impl<'a> VxIntoIter for &'a Mapping { type Item = (&'a Value, &'a Value);
        open spec fn vx_into_iter_ok(self, r: VxIter<(&'a Value, &'a Value)>) -> bool { yps(r.seq()) == self@ && ymap_ok(self@) }
        #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(&'a Value, &'a Value)>) { unimplemented!() }
    }
    pub open spec fn yvs(s: Seq<Value>) -> Seq<YV> { Seq::new(s.len(), |i: int| s[i]@) }
    pub open spec fn yps(s: Seq<(&Value, &Value)>) -> Seq<(YV, YV)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
    #[verifier::external_body] pub fn from_reader(f: File) -> (r: Result<Value, Error>)
        ensures r.is_ok() == (f_text(f@).is_some() && yaml_parse(f_text(f@).unwrap()).is_some()), r.is_ok() ==> r.unwrap()@ == yaml_parse(f_text(f@).unwrap()).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn from_str(s: &str) -> (r: Result<Value, Error>)
        ensures r.is_ok() == yaml_parse(s@).is_some(), r.is_ok() ==> r.unwrap()@ == yaml_parse(s@).unwrap() { unimplemented!() }
    /// a type with derive(Serialize), which has no secret: its document depends on its fields alone and can be read back
    #[verifier::external_body] pub fn to_string<T: YamlSer>(t: &T) -> (r: Result<String, Error>)
        ensures r.is_ok(), exists|v: YV| #[trigger] t.vx_doc(v) && yaml_parse(r.unwrap()@) == Some(v) && yaml_parse(r.unwrap()@ + seq!['\n']) == Some(v) { unimplemented!() }
    impl super::serde::de::Error for Error { #[verifier::external_body] fn custom(m: &str) -> (r: Self) { unimplemented!() } }
}
pub use serde_yaml::{yvs, yps};
pub trait YamlSer { spec fn vx_doc(&self, v: YV) -> bool; }
pub mod serde { pub mod de { use super::super::*; pub trait Error: Sized { fn custom(m: &str) -> (r: Self); } } }

// ---- CSV ----------------------------------------------------------------------------------------------
pub struct CsvOpt { pub flexible: bool, pub headers: bool, pub delimiter: int, pub quoting: bool, pub trim: int, pub other: int }
pub open spec fn csv_default() -> CsvOpt { CsvOpt { flexible: false, headers: true, delimiter: 44, quoting: true, trim: 0, other: 0 } }
/// the records of a file, read with these options; None is a record that cannot be read
pub uninterp spec fn csv_rows(p: PathV, o: CsvOpt) -> Seq<Option<Seq<Seq<char>>>>;
pub mod csv {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { e: std::io::Error }
    #[verifier::external_body] pub struct ReaderBuilder { e: u8 }
    #[verifier::external_body] pub struct Reader { e: u8 }
    #[verifier::external_body] pub struct StringRecord { e: u8 }
    pub enum Trim { None, Headers, Fields, All }
    impl ReaderBuilder {
        pub uninterp spec fn view(&self) -> CsvOpt;
        #[verifier::external_body] pub fn new() -> (r: ReaderBuilder) ensures r@ == csv_default() { unimplemented!() }
        #[verifier::external_body] pub fn flexible(&mut self, b: bool) -> (r: &mut ReaderBuilder) ensures *final(self) == *final(r), r@ == (CsvOpt { flexible: b, ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn has_headers(&mut self, b: bool) -> (r: &mut ReaderBuilder) ensures *final(self) == *final(r), r@ == (CsvOpt { headers: b, ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn quoting(&mut self, b: bool) -> (r: &mut ReaderBuilder) ensures *final(self) == *final(r), r@ == (CsvOpt { quoting: b, ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn delimiter(&mut self, b: u8) -> (r: &mut ReaderBuilder) ensures *final(self) == *final(r), r@ == (CsvOpt { delimiter: b as int, ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn vx_trim(&mut self, b: Trim) -> (r: &mut ReaderBuilder) ensures *final(self) == *final(r), r@ == (CsvOpt { trim: trim_no(b), ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn from_path<P: AsRef<Path>>(&self, p: P) -> (r: Result<Reader, Error>)
            ensures exists|q: &Path| #[trigger] p.vx_as_ref_ok(q) && r.is_ok() == f_opens(q@) && (r.is_ok() ==> r.unwrap()@ == csv_rows(q@, self@)) { unimplemented!() }
    }
    pub open spec fn trim_no(t: Trim) -> int { match t { Trim::None => 0, Trim::Headers => 1, Trim::Fields => 2, Trim::All => 3 } }
    impl Reader {
        pub uninterp spec fn view(&self) -> Seq<Option<Seq<Seq<char>>>>;
        #[verifier::external_body] pub fn from_path<P: AsRef<Path>>(p: P) -> (r: Result<Reader, Error>)
            ensures exists|q: &Path| #[trigger] p.vx_as_ref_ok(q) && r.is_ok() == f_opens(q@) && (r.is_ok() ==> r.unwrap()@ == csv_rows(q@, csv_default())) { unimplemented!() }
        /// the remaining records; a record has at least one field
        #[verifier::external_body] pub fn vx_records(&mut self) -> (r: VxIter<Result<StringRecord, Error>>)
            ensures r.pos() == 0, r.seq().len() == old(self)@.len(),
                forall|i: int| #![trigger r.seq()[i]] #![trigger old(self)@[i]] 0 <= i < r.seq().len() ==> r.seq()[i].is_ok() == old(self)@[i].is_some()
                    && (r.seq()[i].is_ok() ==> r.seq()[i].unwrap()@ == old(self)@[i].unwrap() && r.seq()[i].unwrap()@.len() > 0) { unimplemented!() }
    }
    impl StringRecord {
        pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
        #[verifier::external_body] pub fn vx_iter(&self) -> (r: VxIter<&str>) ensures r.pos() == 0, r.seq().len() == self@.len(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ == self@[i] { unimplemented!() }
        #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body] pub fn vx_index(&self, i: usize) -> (r: &str) requires i < self@.len() ensures r@ == self@[i as int] { unimplemented!() }
        #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&str>) ensures r.is_some() == (i < self@.len()), r.is_some() ==> r.unwrap()@ == self@[i as int] { unimplemented!() }
    }
    /// what a field of a record can be written from
    pub trait Field { spec fn vx_field(&self) -> Seq<char>; }
    impl Field for String { open spec fn vx_field(&self) -> Seq<char> { self@ } }
    impl Field for str { open spec fn vx_field(&self) -> Seq<char> { self@ } }
    impl<T: Field + ?Sized> Field for &T { open spec fn vx_field(&self) -> Seq<char> { (**self).vx_field() } }
    pub open spec fn fields<T: Field>(s: Seq<T>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].vx_field()) }
    pub struct WriteOpt { pub flexible: bool, pub headers: bool, pub delimiter: int, pub quote: int, pub other: int }
    pub open spec fn write_default() -> WriteOpt { WriteOpt { flexible: false, headers: true, delimiter: 44, quote: 0, other: 0 } }
    pub enum QuoteStyle { Always, Necessary, NonNumeric, Never }
    pub open spec fn quote_no(q: QuoteStyle) -> int { match q { QuoteStyle::Necessary => 0, QuoteStyle::Always => 1, QuoteStyle::NonNumeric => 2, QuoteStyle::Never => 3 } }
    #[verifier::external_body] pub struct WriterBuilder { e: u8 }
    impl WriterBuilder {
        pub uninterp spec fn view(&self) -> WriteOpt;
        #[verifier::external_body] pub fn new() -> (r: WriterBuilder) ensures r@ == write_default() { unimplemented!() }
        #[verifier::external_body] pub fn flexible(&mut self, b: bool) -> (r: &mut WriterBuilder) ensures *final(self) == *final(r), r@ == (WriteOpt { flexible: b, ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn has_headers(&mut self, b: bool) -> (r: &mut WriterBuilder) ensures *final(self) == *final(r), r@ == (WriteOpt { headers: b, ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn delimiter(&mut self, b: u8) -> (r: &mut WriterBuilder) ensures *final(self) == *final(r), r@ == (WriteOpt { delimiter: b as int, ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn quote_style(&mut self, b: QuoteStyle) -> (r: &mut WriterBuilder) ensures *final(self) == *final(r), r@ == (WriteOpt { quote: quote_no(b), ..old(self)@ }) { unimplemented!() }
        #[verifier::external_body] pub fn from_writer<W>(&self, w: W) -> (r: Writer<W>) ensures r@ == Seq::<Seq<Seq<char>>>::empty(), r.opt() == self@, r.sink() == w { unimplemented!() }
    }
    #[verifier::external_body] #[verifier::reject_recursive_types(W)] pub struct Writer<W> { w: W }
    impl<W> Writer<W> {
        /// the records written so far
        pub uninterp spec fn view(&self) -> Seq<Seq<Seq<char>>>;
        pub uninterp spec fn opt(&self) -> WriteOpt;
        /// what it was created with
        pub uninterp spec fn sink(&self) -> W;
        /// writing into a sink that accepts everything; without `flexible` every record must have the same length
        #[verifier::external_body] pub fn write_record<T: Field>(&mut self, r: &Vec<T>) -> (x: Result<(), Error>)
            ensures final(self).opt() == old(self).opt(), final(self).sink() == old(self).sink(),
                old(self).opt().flexible ==> x.is_ok(),
                x.is_ok() ==> final(self)@ == old(self)@.push(fields(r@)) { unimplemented!() }
    }
}
pub use csv::{WriteOpt, write_default};
/// the text of these records, written with these options
pub uninterp spec fn csv_text(r: Seq<Seq<Seq<char>>>, o: WriteOpt) -> Seq<char>;
#[verifier::external_body] #[derive(Debug)] pub struct IntoInnerError { e: u8 }
impl csv::Writer<Vec<u8>> {
    #[verifier::external_body] pub fn into_inner(self) -> (r: Result<Vec<u8>, IntoInnerError>)
        ensures r.is_ok(), self.sink()@.len() == 0 ==> utf8_text(r.unwrap()@) == Some(csv_text(self@, self.opt())) { unimplemented!() }
}
/// records written with the default quoting, behind a header line and with an empty line at the end, are read back as they are
pub axiom fn ax_csv_text(p: PathV, r: Seq<Seq<Seq<char>>>)
    requires f_text(p) == Some("from,to\n"@ + csv_text(r, (WriteOpt { flexible: true, ..write_default() })) + seq!['\n']), forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).len() > 0
    ensures f_opens(p), csv_rows(p, (CsvOpt { flexible: true, ..csv_default() })) == Seq::new(r.len(), |i: int| Some(r[i]));
pub trait Write {}
impl Write for Vec<u8> {}
impl ToString for crate::ext::anyhow::Error { uninterp spec fn vx_ts(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

// ---- ordered maps -----------------------------------------------------------------------------------------
pub mod collections {
    use super::*;
    pub use std::collections::{HashMap, HashSet};
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct BTreeMap<K, V> { k: K, v: V }
    impl<K, V> BTreeMap<K, V> {
        pub uninterp spec fn view(&self) -> Map<K, V>;
        #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
        #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
        /// every entry once, ascending by key; what the iterator yields can be changed
        #[verifier::external_body] pub fn vx_iter_mut(&mut self) -> (r: VxIter<(&K, &mut V)>) where K: VxOrd
            ensures r.pos() == 0, sorted_map(derefs_mut(r.seq()), old(self)@) { unimplemented!() }
        /// entry(k).or_insert(v)
        #[verifier::external_body] pub fn vx_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
            ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(r)) { unimplemented!() }
    }
    impl<K, V> super::VxIntoIter for BTreeMap<K, V> where K: VxOrd { type Item = (K, V);
        open spec fn vx_into_iter_ok(self, r: VxIter<(K, V)>) -> bool { sorted_map(r.seq(), self@) }
        #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<(K, V)>) { unimplemented!() }
    }
    impl<'a, K: 'a, V: 'a> super::VxIterable<'a> for BTreeMap<K, V> where K: VxOrd { type Item = (&'a K, &'a V);
        open spec fn vx_iter_ok(&'a self, r: VxIter<(&'a K, &'a V)>) -> bool { sorted_map(derefs(r.seq()), self@) }
        #[verifier::external_body] fn vx_iter(&'a self) -> (r: VxIter<(&'a K, &'a V)>) { unimplemented!() }
    }
    pub open spec fn derefs<K, V>(s: Seq<(&K, &V)>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }
    pub open spec fn derefs_mut<K, V>(s: Seq<(&K, &mut V)>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }
    /// every entry once, ascending by key
    pub open spec fn sorted_map<K: VxOrd, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
        &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
        &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
        &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 && s[i].0.vx_le(&s[j].0)
    }
}
pub use collections::{BTreeMap, sorted_map, derefs, derefs_mut};
impl VxOrd for String { open spec fn vx_le(&self, o: &Self) -> bool { self@ == o@ || str_lt(self@, o@) } }
impl<'a> VxOrd for &'a String { open spec fn vx_le(&self, o: &Self) -> bool { (*self)@ == (*o)@ || str_lt((*self)@, (*o)@) } }
/// an extension is what follows the last dot
pub broadcast axiom fn ax_ext_nodot(p: PathV)
    ensures (#[trigger] p_ext(p)).is_some() && os_str(p_ext(p).unwrap()).is_some() ==> !os_str(p_ext(p).unwrap()).unwrap().contains('.');
