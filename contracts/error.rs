// The crate's error types, extracted.  Payloads are messages or wrapped foreign errors; no
// property depends on them, so the foreign payload types are opaque.
verus! {
#[verifier::external_body] pub struct ArrowErr { _p: () }
#[verifier::external_body] pub struct AvroErr { _p: () }
#[verifier::external_body] pub struct ParquetErr { _p: () }
#[verifier::external_body] pub struct IoErr { _p: () }
#[verifier::external_body] pub struct Utf8Err { _p: () }
#[verifier::external_body] pub struct UrlErr { _p: () }
#[verifier::external_body] pub struct ObjStoreErr { _p: () }
#[verifier::external_body] pub struct ObjPathErr { _p: () }
//@rule path arrow::error::ArrowError ArrowErr
//@rule path apache_avro::Error AvroErr
//@rule path parquet::errors::ParquetError ParquetErr
//@rule path std::io::Error IoErr
//@rule path std::str::Utf8Error Utf8Err
//@rule path object_store::Error ObjStoreErr
//@rule path object_store::path::Error ObjPathErr
//@rule path url::ParseError UrlErr
//@type crates/core/src/config/error.rs ConfigError
//@type crates/core/src/storage/error.rs StorageError
//@type crates/core/src/error.rs CoreError
// thiserror's #[from] conversions
impl vstd::std_specs::convert::FromSpecImpl<ConfigError> for CoreError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ConfigError) -> CoreError { CoreError::Config(e) } }
impl vstd::std_specs::convert::FromSpecImpl<StorageError> for CoreError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: StorageError) -> CoreError { CoreError::Storage(e) } }
impl core::convert::From<ConfigError> for CoreError { fn from(e: ConfigError) -> CoreError { CoreError::Config(e) } }
impl core::convert::From<StorageError> for CoreError { fn from(e: StorageError) -> CoreError { CoreError::Storage(e) } }
/// CoreError::Storage as a function value
pub fn vx_err_storage(e: StorageError) -> (r: CoreError) ensures r == CoreError::Storage(e) { CoreError::Storage(e) }
}
pub type Result<T, E = CoreError> = core::result::Result<T, E>;
pub use ConfigError::*;
