// ---- serde_json::Value, std::path::Path -------------------------------------------------------
pub mod vxjson {
use super::vxp::*;
use super::vxcoll::*;
use vstd::prelude::*;
use vstd::string::*;
verus! {
#[verifier::external_body] pub struct VValue { _p: () }
impl VValue {
    /// what the value is: a string, an array, an object (or none of these)
    pub uninterp spec fn v_str(self) -> Option<Seq<char>>;
    pub uninterp spec fn v_arr(self) -> Option<Seq<VValue>>;
    pub uninterp spec fn v_obj(self) -> Option<Map<Seq<char>, VValue>>;
    #[verifier::external_body] pub fn as_str<'a>(&'a self) -> (r: Option<&'a str>) ensures match r { None => self.v_str() is None, Some(s) => self.v_str() == Some(s@) } { unimplemented!() }
    #[verifier::external_body] pub fn as_array<'a>(&'a self) -> (r: Option<&'a Vec<VValue>>) ensures match r { None => self.v_arr() is None, Some(s) => self.v_arr() == Some(s@) } { unimplemented!() }
    #[verifier::external_body] pub fn as_object<'a>(&'a self) -> (r: Option<&'a VMap<String, VValue>>) ensures match r { None => self.v_obj() is None, Some(s) => self.v_obj() == Some(s@) } { unimplemented!() }
    #[verifier::external_body] pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a VValue>) ensures match r { None => obj_get(*self, k@) is None, Some(v) => obj_get(*self, k@) == Some(*v) } { unimplemented!() }
}
pub open spec fn map_get(m: Map<Seq<char>, VValue>, k: Seq<char>) -> Option<VValue> { if m.dom().contains(k) { Some(m[k]) } else { None } }
pub open spec fn obj_get(v: VValue, k: Seq<char>) -> Option<VValue> { match v.v_obj() { Some(m) => map_get(m, k), None => None } }
pub open spec fn v_opt_str(v: Option<VValue>) -> Option<Seq<char>> { match v { Some(x) => x.v_str(), None => None } }

/// the last component of a path
pub uninterp spec fn path_file_name(p: Seq<char>) -> Option<Seq<char>>;
pub axiom fn ax_path_file_name(dir: Seq<char>, name: Seq<char>)
    ensures name.len() > 0 && !name.contains('/') && name != seq!['.'] && name != seq!['.', '.'] ==> path_file_name(name) == Some(name) && path_file_name(dir + seq!['/'] + name) == Some(name);
#[verifier::external_body] pub struct VPath { _p: () }
#[verifier::external_body] pub struct VOsStr { _p: () }
impl VPath {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new<'a>(s: &'a str) -> (r: &'a VPath) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body] pub fn file_name<'a>(&'a self) -> (r: Option<&'a VOsStr>) ensures match r { None => path_file_name(self.text()) is None, Some(n) => path_file_name(self.text()) == Some(n.text()) } { unimplemented!() }
}
impl VOsStr {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn to_str<'a>(&'a self) -> (r: Option<&'a str>) ensures r matches Some(s) && s@ == self.text() { unimplemented!() /* the path came from a str */ }
}
}
}
pub use vxjson::*;
