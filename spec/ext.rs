// Stand-ins for the types of other crates and the std traits that the extracted code names. Trusted.
use vstd::prelude::*;
use crate::sp::*;
use crate::vx::*;
pub use std::mem;
pub use std::collections::{HashMap, HashSet};
pub use crate::sys::*;

// std traits, with contracts
pub trait From<T>: Sized {
    spec fn vx_from_ok(t: T, r: Self) -> bool;
    fn vx_from(t: T) -> (r: Self) ensures Self::vx_from_ok(t, r);
}
pub trait Into<T>: Sized {
    spec fn vx_into_ok(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.vx_into_ok(r);
}
impl<T, U: From<T>> Into<U> for T {
    open spec fn vx_into_ok(self, r: U) -> bool { U::vx_from_ok(self, r) }
    fn vx_into(self) -> (r: U) { U::vx_from(self) }
}
impl From<&str> for String {
    open spec fn vx_from_ok(t: &str, r: String) -> bool { r@ == t@ }
    #[verifier::external_body] fn vx_from(t: &str) -> (r: String) { unimplemented!() }
}
impl From<String> for String {
    open spec fn vx_from_ok(t: String, r: String) -> bool { r == t }
    fn vx_from(t: String) -> (r: String) { t }
}
impl From<&String> for String {
    open spec fn vx_from_ok(t: &String, r: String) -> bool { r@ == t@ }
    #[verifier::external_body] fn vx_from(t: &String) -> (r: String) { unimplemented!() }
}
pub trait Default: Sized {
    spec fn vx_default_ok(r: Self) -> bool;
    fn default() -> (r: Self) ensures Self::vx_default_ok(r);
}
pub trait AsRef<T: ?Sized> {
    spec fn vx_as_ref_ok(&self, r: &T) -> bool;
    fn vx_as_ref(&self) -> (r: &T) ensures self.vx_as_ref_ok(r);
}
impl<T: ?Sized, U: ?Sized + AsRef<T>> AsRef<T> for &U {
    open spec fn vx_as_ref_ok(&self, r: &T) -> bool { (**self).vx_as_ref_ok(r) }
    fn vx_as_ref(&self) -> (r: &T) { (**self).vx_as_ref() }
}
pub trait ToString {
    spec fn vx_ts(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.vx_ts();
}
impl ToString for str {
    open spec fn vx_ts(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl ToString for String {
    open spec fn vx_ts(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl ToString for char {
    open spec fn vx_ts(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub mod anyhow { use super::*; #[derive(Debug)] pub struct Error {} pub type Result<T> = std::result::Result<T, Error>; }

