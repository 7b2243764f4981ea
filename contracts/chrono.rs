// ---- assumed contract of chrono and of the time-zone database -----------------------------
// DateTime<Utc> is an instant: a number of nanoseconds.  Parsing is an uninterpreted
// function of (timestamp digits, time zone); ordering and millis() are arithmetic.
pub mod vxchrono {
use super::vxp::*;
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
pub struct DateTimeUtc { pub nanos: i128 }
impl Clone for DateTimeUtc { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for DateTimeUtc {}
impl PartialEqSpecImpl for DateTimeUtc { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &DateTimeUtc) -> bool { self.nanos == o.nanos } }
impl PartialEq for DateTimeUtc { #[verifier::external_body] fn eq(&self, o: &DateTimeUtc) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for DateTimeUtc {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &DateTimeUtc) -> Option<Ordering> { Some(if self.nanos < o.nanos { Ordering::Less } else if self.nanos == o.nanos { Ordering::Equal } else { Ordering::Greater }) }
}
impl PartialOrd for DateTimeUtc { #[verifier::external_body] fn partial_cmp(&self, o: &DateTimeUtc) -> Option<Ordering> { unimplemented!() } }
/// floor to milliseconds
pub open spec fn millis(d: DateTimeUtc) -> int { d.nanos as int / 1_000_000 }
impl DateTimeUtc {
    #[verifier::external_body]
    pub fn timestamp_millis(&self) -> (r: i64) ensures r as int == millis(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct ChronoParseError { }
/// NaiveDateTime: civil time without zone, in nanoseconds since the civil epoch.
pub struct NaiveDateTime { pub nanos: i128 }
/// civil time of 14 digits yyyyMMddHHmmss, when they name a calendar second
pub uninterp spec fn civil(s: Seq<char>) -> Option<int>;
impl NaiveDateTime {
    #[verifier::external_body]
    pub fn parse_from_str(s: &str, fmt: &str) -> (r: Result<NaiveDateTime, ChronoParseError>)
        ensures fmt@ == "%Y%m%d%H%M%S"@ && digits(s@) && s@.len() == 14 ==>
            (match civil(s@) { None => r is Err, Some(n) => r is Ok && r->Ok_0.nanos == n && n % 1_000_000_000 == 0 })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_nanosecond(&self, n: u32) -> (r: Option<NaiveDateTime>)
        ensures n < 1_000_000_000 ==> (r matches Some(x) && x.nanos == (self.nanos as int / 1_000_000_000) * 1_000_000_000 + n as int)
    { unimplemented!() }
}
/// what a civil time means in the local zone of the machine, when it is unambiguous
pub uninterp spec fn local_instant(n: int) -> Option<int>;
impl DateTimeUtc {
    #[verifier::external_body]
    pub fn from_naive_utc_and_offset(n: NaiveDateTime, z: Utc) -> (r: DateTimeUtc) ensures r.nanos == n.nanos { unimplemented!() }
}
pub struct Utc;
pub struct Local;
#[verifier::external_body]
pub struct LocalResult { }
#[verifier::external_body]
pub struct DateTimeLocal { }
pub uninterp spec fn lr_single(l: LocalResult) -> Option<int>;
pub uninterp spec fn dl_utc(l: DateTimeLocal) -> int;
impl Local {
    #[verifier::external_body]
    pub fn from_local_datetime(&self, n: &NaiveDateTime) -> (r: LocalResult) ensures lr_single(r) == local_instant(n.nanos as int) { unimplemented!() }
}
impl LocalResult {
    #[verifier::external_body]
    pub fn single(self) -> (r: Option<DateTimeLocal>) ensures match lr_single(self) { None => r is None, Some(n) => r matches Some(d) && dl_utc(d) == n } { unimplemented!() }
}
impl DateTimeLocal {
    #[verifier::external_body]
    pub fn to_utc(self) -> (r: DateTimeUtc) ensures r.nanos == dl_utc(self) { unimplemented!() }
}
}
}
pub use vxchrono::*;
