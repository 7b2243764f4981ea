//@include prelude.rs
//@include collections.rs
//@include error.rs
//@include config_use.inc
verus! {
//@rules reset
//@rule method iter vx_iter
//@rule method to_string vx_to_string
//@rule eq_ops
//@rule opaque_fmt
//@rule method parse vx_parse
//@rule method into vx_io_err
//@rule method is_some_and vx_is_some_and
//@rule path HashMap VMap
//@rule path HashSet VHSet
//@rule path u32::from_be_bytes vx_be32
//@rule path u64::from_be_bytes vx_be64
//@rule path String::from_utf8 vx_from_utf8
//@rule path AvroSchema VSchema
//@rule path implRead+Seek StorageReader
//@rule path implRead TakeRef<'_,'_>
//@rule path Arc VArc
//@rule path std::io::ErrorKind io::ErrorKind
//@rule path apache_avro::Error::ReadBytes vx_avro_read_bytes
//@rule path CoreError::ReadLogFileError vx_err_io
//@rule path CoreError::ArrowError vx_err_arrow
//@rule path LogFormatVersion::try_from LogFormatVersion::vx_from_bytes
//@rule path BlockType::try_from BlockType::vx_from_bytes
//@rule path BlockMetadataKey::try_from BlockMetadataKey::vx_from_bytes
//@prop C09
pub mod io {
    use super::*;
    verus! {
    pub enum ErrorKind { UnexpectedEof, InvalidData, Other }
    pub struct Sink { pub x: () }
    pub fn sink() -> (r: Sink) { Sink { x: () } }
    #[verifier::external_body] pub fn copy<R: Read>(r: &mut R, w: &mut Sink) -> (n: core::result::Result<u64, IoErr>)
        ensures later(&*final(r), &*old(r)), n is Ok, (*final(r)).pos() == (*final(r)).data().len() { unimplemented!() }
    }
}
pub struct VArc<T> { pub v: T }
impl<T> Clone for VArc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VArc<HudiConfigs> { #[verifier::external_body] pub fn get_or_default(&self, c: HudiTableConfig) -> (r: HudiConfigValue) requires cfg_default(c) is Some
    ensures kind_ok(c, r), r == (match cfg_try(self.v, c) { Some(v) => v, None => cfg_default(c)->Some_0 }) { unimplemented!() } }

// ---- std::io, by assumed contract -----------------------------------------------------------------
pub fn vx_err_io(e: IoErr) -> (r: CoreError) ensures r == CoreError::ReadLogFileError(e) { CoreError::ReadLogFileError(e) }
pub fn vx_err_arrow(e: ArrowErr) -> (r: CoreError) ensures r == CoreError::ArrowError(e) { CoreError::ArrowError(e) }
impl vstd::std_specs::convert::FromSpecImpl<IoErr> for CoreError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: IoErr) -> CoreError { CoreError::ReadLogFileError(e) } }
impl core::convert::From<IoErr> for CoreError { fn from(e: IoErr) -> CoreError { CoreError::ReadLogFileError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<AvroErr> for CoreError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: AvroErr) -> CoreError { CoreError::AvroError(e) } }
impl core::convert::From<AvroErr> for CoreError { fn from(e: AvroErr) -> CoreError { CoreError::AvroError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<ParquetErr> for CoreError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ParquetErr) -> CoreError { CoreError::ParquetError(e) } }
impl core::convert::From<ParquetErr> for CoreError { fn from(e: ParquetErr) -> CoreError { CoreError::ParquetError(e) } }
impl IoErr {
    pub uninterp spec fn why(&self) -> io::ErrorKind;
    #[verifier::external_body] pub fn kind(&self) -> (r: io::ErrorKind) ensures r == self.why() { unimplemented!() }
}
impl VxEq<io::ErrorKind> for io::ErrorKind { open spec fn same(&self, o: &io::ErrorKind) -> bool { *self == *o } }
impl io::ErrorKind { #[verifier::external_body] pub fn vx_io_err(self) -> (r: IoErr) { unimplemented!() } }
#[verifier::external_body] pub fn vx_avro_read_bytes(e: IoErr) -> (r: AvroErr) { unimplemented!() }

/// What is read: a reader stands at a place in a sequence of bytes.  `same` says that it is the
/// same reader, later; `spent` that a borrowed reader is left as the same reader, later.
pub trait Src: Sized {
    spec fn data(&self) -> Seq<u8>;
    spec fn pos(&self) -> int;
    #[verifier::prophetic] spec fn same(&self, o: &Self) -> bool;
    #[verifier::prophetic] spec fn spent(&self) -> bool;
    /// a borrowed reader is left at a place
    #[verifier::prophetic] spec fn ends_at(&self, p: int) -> bool;
    proof fn same_refl(a: &Self) ensures a.same(a);
    proof fn same_trans(a: &Self, b: &Self, c: &Self) requires a.same(b), b.same(c), a.pos() >= b.pos() >= c.pos(), a.data() == b.data(), b.data() == c.data() ensures a.same(c);
}
pub broadcast proof fn lemma_refl<R: Src>(a: &R) ensures #[trigger] a.same(a) { R::same_refl(a); }
pub broadcast proof fn lemma_trans<R: Src>(a: &R, b: &R, c: &R) requires #[trigger] a.same(b), #[trigger] b.same(c), a.pos() >= b.pos() >= c.pos(), a.data() == b.data(), b.data() == c.data() ensures a.same(c) { R::same_trans(a, b, c); }
pub broadcast group group_src { lemma_refl, lemma_trans }
pub trait Read: Src {
    fn read_exact<B: VxBuf>(&mut self, buf: &mut B) -> (r: core::result::Result<(), IoErr>)
        ensures later(&*final(self), &*old(self)),
            r is Ok ==> got(&*final(self), &*old(self), old(buf).bytes().len() as int) && final(buf).bytes() == old(self).data().subrange(old(self).pos(), old(self).pos() + old(buf).bytes().len()),
            r matches Err(e) ==> e.why() == io::ErrorKind::UnexpectedEof && old(self).pos() + old(buf).bytes().len() > old(self).data().len();
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, IoErr>)
        ensures later(&*final(self), &*old(self)),
            r is Ok, (*final(self)).pos() == (*final(self)).data().len(), 0 <= old(self).pos() <= (*final(self)).pos() ==> final(buf)@ == old(buf)@ + old(self).data().subrange(old(self).pos(), (*final(self)).pos());
    fn by_ref<'a>(&'a mut self) -> (r: &'a mut Self) ensures *r == *old(self), *final(r) == *final(self);
    fn take(self, n: u64) -> (r: Take<Self>) ensures r.inner == self, r.lim == n;
}
#[verifier::prophetic] pub open spec fn later<R: Src>(a: &R, b: &R) -> bool { a.same(b) && a.data() == b.data() && a.pos() >= b.pos() && (b.pos() <= b.data().len() ==> a.pos() <= a.data().len()) }
pub open spec fn got<R: Src>(a: &R, b: &R, n: int) -> bool { a.pos() == b.pos() + n && 0 <= b.pos() && b.pos() + n <= b.data().len() }
pub trait Seek: Read {
    fn stream_position(&mut self) -> (r: core::result::Result<u64, IoErr>)
        ensures later(&*final(self), &*old(self)), (*final(self)).pos() == old(self).pos(), r matches Ok(p) && p == old(self).pos();
}
pub trait VxBuf { spec fn bytes(&self) -> Seq<u8>; }
impl<const N: usize> VxBuf for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
/// `std::io::Take`: what is left of a reader, up to a number of bytes
pub struct Take<R> { pub inner: R, pub lim: u64 }
impl<R: Read> Take<R> { pub fn limit(&self) -> (r: u64) ensures r == self.lim { self.lim } }
pub open spec fn upto(d: Seq<u8>, n: int) -> Seq<u8> { if n < 0 { Seq::empty() } else if n <= d.len() { d.subrange(0, n) } else { d } }
impl<R: Src> Src for Take<R> {
    open spec fn data(&self) -> Seq<u8> { upto(self.inner.data(), self.inner.pos() + self.lim) }
    open spec fn pos(&self) -> int { self.inner.pos() }
    #[verifier::prophetic] open spec fn same(&self, o: &Self) -> bool { later(&self.inner, &o.inner) && self.inner.pos() + self.lim == o.inner.pos() + o.lim }
    #[verifier::prophetic] open spec fn spent(&self) -> bool { self.inner.spent() }
    #[verifier::prophetic] open spec fn ends_at(&self, p: int) -> bool { self.inner.ends_at(p) }
    proof fn same_refl(a: &Self) { R::same_refl(&a.inner); }
    proof fn same_trans(a: &Self, b: &Self, c: &Self) { R::same_trans(&a.inner, &b.inner, &c.inner); }
}
impl<R: Read> Read for Take<R> {
    #[verifier::external_body] fn read_exact<B: VxBuf>(&mut self, buf: &mut B) -> (r: core::result::Result<(), IoErr>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, IoErr>) { unimplemented!() }
    #[verifier::external_body] fn by_ref<'a>(&'a mut self) -> (r: &'a mut Self) { self }
    fn take(self, n: u64) -> (r: Take<Self>) { Take { inner: self, lim: n } }
}
impl<'b, R: Src> Src for &'b mut R {
    open spec fn data(&self) -> Seq<u8> { (**self).data() }
    open spec fn pos(&self) -> int { (**self).pos() }
    #[verifier::prophetic] open spec fn same(&self, o: &Self) -> bool { *final(*self) == *final(*o) && later(&**self, &**o) }
    #[verifier::prophetic] open spec fn spent(&self) -> bool { later(&*final(*self), &**self) }
    #[verifier::prophetic] open spec fn ends_at(&self, p: int) -> bool { (*final(*self)).pos() == p }
    proof fn same_refl(a: &Self) { R::same_refl(&**a); }
    proof fn same_trans(a: &Self, b: &Self, c: &Self) { R::same_trans(&**a, &**b, &**c); }
}
impl<'b, R: Read> Read for &'b mut R {
    #[verifier::external_body] fn read_exact<B: VxBuf>(&mut self, buf: &mut B) -> (r: core::result::Result<(), IoErr>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, IoErr>) { unimplemented!() }
    #[verifier::external_body] fn by_ref<'a>(&'a mut self) -> (r: &'a mut Self) { self }
    #[verifier::external_body] fn take(self, n: u64) -> (r: Take<Self>) { Take { inner: self, lim: n } }
}
/// a file in the storage, open
#[verifier::external_body] pub struct StorageReader { _p: () }
impl StorageReader { pub uninterp spec fn bytes(&self) -> Seq<u8>; pub uninterp spec fn at(&self) -> int; }
impl Src for StorageReader {
    open spec fn data(&self) -> Seq<u8> { self.bytes() }
    open spec fn pos(&self) -> int { self.at() }
    #[verifier::prophetic] open spec fn same(&self, o: &Self) -> bool { true }
    #[verifier::prophetic] open spec fn spent(&self) -> bool { true }
    #[verifier::prophetic] open spec fn ends_at(&self, p: int) -> bool { true }
    proof fn same_refl(a: &Self) { }
    proof fn same_trans(a: &Self, b: &Self, c: &Self) { }
}
impl Read for StorageReader {
    #[verifier::external_body] fn read_exact<B: VxBuf>(&mut self, buf: &mut B) -> (r: core::result::Result<(), IoErr>) { unimplemented!() }
    #[verifier::external_body] fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: core::result::Result<usize, IoErr>) { unimplemented!() }
    #[verifier::external_body] fn by_ref<'a>(&'a mut self) -> (r: &'a mut Self) { self }
    fn take(self, n: u64) -> (r: Take<Self>) { Take { inner: self, lim: n } }
}
impl Seek for StorageReader { #[verifier::external_body] fn stream_position(&mut self) -> (r: core::result::Result<u64, IoErr>) { unimplemented!() } }
pub type TakeRef<'a, 'b> = &'a mut Take<&'b mut StorageReader>;

// ---- numbers and texts in bytes ---------------------------------------------------------------------
pub open spec fn be(d: Seq<u8>, p: int, n: nat) -> int decreases n { if n == 0 { 0 } else { be(d, p, (n - 1) as nat) * 256 + d[p + n - 1] as int } }
pub proof fn lemma_be_range(d: Seq<u8>, p: int, n: nat) ensures be(d, p, n) >= 0 decreases n { if n > 0 { lemma_be_range(d, p, (n - 1) as nat); } }
pub broadcast proof fn lemma_be32_range(d: Seq<u8>, p: int) ensures #[trigger] be32(d, p) >= 0 { lemma_be_range(d, p, 4); }
pub broadcast proof fn lemma_be64_range(d: Seq<u8>, p: int) ensures #[trigger] be64(d, p) >= 0 { lemma_be_range(d, p, 8); }
pub open spec fn be32(d: Seq<u8>, p: int) -> int { be(d, p, 4) }
pub open spec fn be64(d: Seq<u8>, p: int) -> int { be(d, p, 8) }
#[verifier::external_body] pub fn vx_be32(b: [u8; 4]) -> (r: u32) ensures r == be32(b@, 0) { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn vx_be64(b: [u8; 8]) -> (r: u64) ensures r == be64(b@, 0) { u64::from_be_bytes(b) }
pub proof fn lemma_be(d: Seq<u8>, a: int, b: int, i: int, n: nat) requires 0 <= a, 0 <= i, a + i + n <= b <= d.len() ensures be(d.subrange(a, b), i, n) == be(d, a + i, n) decreases n
{ if n > 0 { lemma_be(d, a, b, i, (n - 1) as nat); } }
/// a number read is the number that stands there
pub broadcast proof fn lemma_be32(d: Seq<u8>, a: int, b: int, i: int) requires 0 <= a, 0 <= i, a + i + 4 <= b <= d.len() ensures #[trigger] be32(d.subrange(a, b), i) == be32(d, a + i) { lemma_be(d, a, b, i, 4); }
pub broadcast proof fn lemma_be64(d: Seq<u8>, a: int, b: int, i: int) requires 0 <= a, 0 <= i, a + i + 8 <= b <= d.len() ensures #[trigger] be64(d.subrange(a, b), i) == be64(d, a + i) { lemma_be(d, a, b, i, 8); }
/// a part of a part
pub broadcast proof fn lemma_part(d: Seq<u8>, a: int, b: int, x: int, y: int) requires 0 <= a <= b <= d.len(), 0 <= x <= y <= b - a ensures #[trigger] d.subrange(a, b).subrange(x, y) == d.subrange(a + x, a + y) { assert(d.subrange(a, b).subrange(x, y) =~= d.subrange(a + x, a + y)); }
pub broadcast proof fn lemma_upto(d: Seq<u8>, n: int, x: int, y: int) requires 0 <= x <= y <= upto(d, n).len() ensures #[trigger] upto(d, n).subrange(x, y) == d.subrange(x, y) { assert(upto(d, n).subrange(x, y) =~= d.subrange(x, y)); }
pub broadcast proof fn lemma_upto32(d: Seq<u8>, n: int, i: int) requires 0 <= i, i + 4 <= upto(d, n).len() ensures #[trigger] be32(upto(d, n), i) == be32(d, i) { if n <= d.len() { lemma_be(d, 0, n, i, 4); } }
pub broadcast group group_be { lemma_be32_range, lemma_be64_range, lemma_upto32, lemma_be32, lemma_be64, lemma_part, lemma_upto }
/// the text that bytes are, when they are UTF-8
pub uninterp spec fn text_of(b: Seq<u8>) -> Option<String>;
#[verifier::external_body] pub struct FromUtf8Err { _p: () }
impl FromUtf8Err { #[verifier::external_body] pub fn utf8_error(&self) -> (r: Utf8Err) { unimplemented!() } }
#[verifier::external_body] pub fn vx_from_utf8(b: Vec<u8>) -> (r: core::result::Result<String, FromUtf8Err>) ensures match r { Ok(s) => text_of(b@) == Some(s), Err(_) => text_of(b@) is None } { unimplemented!() }
impl VxIntoIterator for core::ops::Range<u32> {
    type Item = u32;
    open spec fn items(self) -> Seq<u32> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as u32) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<u32>) { unimplemented!() /* self.into_iter() */ }
}
pub trait VxIsSomeAnd<T> { spec fn osa(self) -> Option<T>; fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> bool requires self.osa() matches Some(x) ==> f.requires((x,)); }
impl<T> VxIsSomeAnd<T> for Option<T> {
    open spec fn osa(self) -> Option<T> { self }
    fn vx_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
        ensures match self { None => !r, Some(x) => f.ensures((x,), r) }
    { match self { None => false, Some(x) => f(x) } }
}

// ---- the log format ---------------------------------------------------------------------------------
//@type crates/core/src/file_group/log_file/log_format.rs LogFormatVersion structural
//@type crates/core/src/file_group/log_file/log_block.rs BlockType structural
//@type crates/core/src/file_group/log_file/log_block.rs BlockMetadataType structural
//@type crates/core/src/file_group/log_file/log_block.rs BlockMetadataKey structural
//@type crates/core/src/file_group/log_file/log_block.rs CommandBlock structural
//@type crates/core/src/file_group/log_file/log_block.rs LogBlock
impl VxEq<BlockType> for BlockType { open spec fn same(&self, o: &BlockType) -> bool { *self == *o } }
impl VxKey for BlockMetadataKey { type K = BlockMetadataKey; open spec fn k(&self) -> BlockMetadataKey { *self } }
pub open spec fn version_of(n: int) -> Option<LogFormatVersion> { if n == 0 { Some(LogFormatVersion::V0) } else if n == 1 { Some(LogFormatVersion::V1) } else if n == 2 { Some(LogFormatVersion::V2) } else if n == 3 { Some(LogFormatVersion::V3) } else { None } }
pub open spec fn type_of(n: int) -> Option<BlockType> { if n == 0 { Some(BlockType::Command) } else if n == 1 { Some(BlockType::Delete) } else if n == 2 { Some(BlockType::Corrupted) } else if n == 3 { Some(BlockType::AvroData) } else if n == 4 { Some(BlockType::HfileData) } else if n == 5 { Some(BlockType::ParquetData) } else if n == 6 { Some(BlockType::CdcData) } else { None } }
pub open spec fn key_of(n: int) -> Option<BlockMetadataKey> { if n == 0 { Some(BlockMetadataKey::InstantTime) } else if n == 1 { Some(BlockMetadataKey::TargetInstantTime) } else if n == 2 { Some(BlockMetadataKey::Schema) } else if n == 3 { Some(BlockMetadataKey::CommandBlockType) } else if n == 4 { Some(BlockMetadataKey::CompactedBlockTimes) } else if n == 5 { Some(BlockMetadataKey::RecordPositions) } else if n == 6 { Some(BlockMetadataKey::BlockIdentifier) } else { None } }
pub open spec fn magic() -> Seq<u8> { seq![35u8, 72, 85, 68, 73, 35] }
//@type crates/core/src/file_group/log_file/log_format.rs MAGIC ensures MAGIC@ == magic()
impl VxEq<&[u8]> for [u8; 6] { open spec fn same(&self, o: &&[u8]) -> bool { self@ == o@ } }
//@fn crates/core/src/file_group/log_file/log_format.rs TryFrom<u32> for LogFormatVersion::try_from
@name vx_from_u32
@spec
    ensures match ret { Ok(v) => version_of(value as int) == Some(v), Err(_) => version_of(value as int) is None }
//@end
//@fn crates/core/src/file_group/log_file/log_format.rs TryFrom<[u8; 4]> for LogFormatVersion::try_from
@name vx_from_bytes
@rule path Self::try_from Self::vx_from_u32
@spec
    ensures match ret { Ok(v) => version_of(be32(value_bytes@, 0)) == Some(v), Err(_) => version_of(be32(value_bytes@, 0)) is None }
//@end
//@fn crates/core/src/file_group/log_file/log_format.rs LogFormatVersion::has_block_type
@spec
    ensures ret == (*self != LogFormatVersion::V0)
//@end
//@fn crates/core/src/file_group/log_file/log_format.rs LogFormatVersion::has_header
@spec
    ensures ret == (*self != LogFormatVersion::V0)
//@end
//@fn crates/core/src/file_group/log_file/log_format.rs LogFormatVersion::has_content_length
@spec
    ensures ret == (*self != LogFormatVersion::V0)
//@end
//@fn crates/core/src/file_group/log_file/log_format.rs LogFormatVersion::has_footer
@spec
    ensures ret == (*self == LogFormatVersion::V1)
//@end
//@fn crates/core/src/file_group/log_file/log_format.rs LogFormatVersion::has_total_log_block_length
@spec
    ensures ret == (*self == LogFormatVersion::V1)
//@end
//@fn crates/core/src/file_group/log_file/log_block.rs TryFrom<[u8; 4]> for BlockType::try_from
@name vx_from_bytes
@spec
    ensures match ret { Ok(v) => type_of(be32(value_bytes@, 0)) == Some(v), Err(_) => type_of(be32(value_bytes@, 0)) is None }
//@end
//@fn crates/core/src/file_group/log_file/log_block.rs TryFrom<[u8; 4]> for BlockMetadataKey::try_from
@name vx_from_bytes
@spec
    ensures match ret { Ok(v) => key_of(be32(value_bytes@, 0)) == Some(v), Err(_) => key_of(be32(value_bytes@, 0)) is None }
//@end

// ---- records, by assumed contract of the Avro, Parquet and Arrow libraries ---------------------------
#[verifier::external_body] pub struct RecordBatch { _p: () }
/// a row: the values of its columns, with their names
#[verifier::external_body] pub struct Row { _p: () }
impl RecordBatch { pub uninterp spec fn rows(&self) -> Seq<Row>; }
pub open spec fn rows_of(b: Seq<RecordBatch>) -> Seq<Row> decreases b.len() { if b.len() == 0 { Seq::empty() } else { rows_of(b.drop_last()) + b.last().rows() } }
#[verifier::external_body] pub struct VSchema { _p: () }
#[verifier::external_body] pub struct AvroValue { _p: () }
pub type AvroResult<T> = core::result::Result<T, AvroErr>;
pub uninterp spec fn schema_of(s: Seq<char>) -> Option<VSchema>;
impl VSchema { #[verifier::external_body] pub fn parse_str(s: &str) -> (r: AvroResult<VSchema>) ensures match r { Ok(x) => schema_of(s@) == Some(x), Err(_) => schema_of(s@) is None } { unimplemented!() } }
impl Clone for VSchema { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the value that bytes begin with, and how many of them it takes
pub uninterp spec fn datum(s: VSchema, b: Seq<u8>) -> Option<(AvroValue, int)>;
#[verifier::external_body] pub fn from_avro_datum<R: Read>(s: &VSchema, r: &mut R, o: Option<&VSchema>) -> (v: AvroResult<AvroValue>)
    requires o is None
    ensures later(&*final(r), &*old(r)), v matches Ok(x) ==> 0 <= old(r).pos() <= (*final(r)).pos() <= old(r).data().len() && datum(*s, old(r).data().subrange(old(r).pos(), old(r).data().len() as int)) == Some((x, (*final(r)).pos() - old(r).pos())),
        v is Err ==> (0 <= old(r).pos() <= old(r).data().len() ==> datum(*s, old(r).data().subrange(old(r).pos(), old(r).data().len() as int)) is None)
{ unimplemented!() }

// ---- Avro records in a block: a length, and a value of just this length -------------------------------
pub open spec fn record_at(s: VSchema, d: Seq<u8>, p: int) -> Option<(AvroValue, int)> {
    if p < 0 || p + 4 > d.len() || p + 4 + be32(d, p) > d.len() { None }
    else { match datum(s, d.subrange(p + 4, p + 4 + be32(d, p))) { Some((v, n)) => if n == be32(d, p) { Some((v, p + 4 + n)) } else { None }, None => None } }
}
/// a number of records, one after the other, and where they end
pub open spec fn records_at(s: VSchema, d: Seq<u8>, p: int, n: nat) -> Option<(Seq<AvroValue>, int)> decreases n {
    if n == 0 { Some((Seq::empty(), p)) } else { match records_at(s, d, p, (n - 1) as nat) { None => None, Some((vs, q)) => match record_at(s, d, q) { None => None, Some((v, e)) => Some((vs.push(v), e)) } } }
}
pub proof fn lemma_records_part(s: VSchema, d: Seq<u8>, a: int, b: int, p: int, n: nat) requires 0 <= a <= b <= d.len(), 0 <= p <= b - a
    ensures records_at(s, d.subrange(a, b), p, n) == (match records_at(s, d.subrange(0, b), a + p, n) { Some((vs, q)) => Some((vs, q - a)), None => None }),
        records_at(s, d.subrange(a, b), p, n) matches Some((vs, q)) ==> p <= q <= b - a
    decreases n
{
    broadcast use group_be;
    if n > 0 { lemma_records_part(s, d, a, b, p, (n - 1) as nat);
        if let Some((vs, q)) = records_at(s, d.subrange(a, b), p, (n - 1) as nat) { let l = be32(d, a + q);
            if q + 4 <= b - a { lemma_be(d, a, b, q, 4); lemma_be(d, 0, b, a + q, 4); if q + 4 + l <= b - a { assert(d.subrange(a, b).subrange(q + 4, q + 4 + l) =~= d.subrange(0, b).subrange(a + q + 4, a + q + 4 + l)); } } } }
}
//@type crates/core/src/file_group/log_file/avro.rs AvroDataBlockContentReader
//@fn crates/core/src/file_group/log_file/avro.rs AvroDataBlockContentReader::new
@spec
    ensures ret.reader == reader, ret.writer_schema == *writer_schema, ret.remaining_records == num_records
//@end
//@fn crates/core/src/file_group/log_file/avro.rs Iterator for AvroDataBlockContentReader::next
@spec
    ensures final(self).writer_schema == old(self).writer_schema, later(&final(self).reader, &old(self).reader),
        match ret {
            None => old(self).remaining_records == 0 && final(self).remaining_records == 0 && final(self).reader.pos() == old(self).reader.pos(),
            Some(x) => final(self).remaining_records == old(self).remaining_records - 1
                && (0 <= old(self).reader.pos() <= old(self).reader.data().len() ==> match x { Ok(v) => record_at(old(self).writer_schema, old(self).reader.data(), old(self).reader.pos()) == Some((v, final(self).reader.pos())),
                    Err(_) => record_at(old(self).writer_schema, old(self).reader.data(), old(self).reader.pos()) is None }),
        }
@start
    broadcast use {group_be, group_src};
//@end

// ---- the content of a block ---------------------------------------------------------------------------
/// reads Avro records into Arrow rows (the functions themselves: avro unit); what it yields is a
/// function of the records its reader yields, and it yields the last of them when these are at an end
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct AvroArrowArrayReader<R> { _p: core::marker::PhantomData<R> }
/// the rows of records, when all of them are of the schema
pub uninterp spec fn arrow_rows(s: VSchema, v: Seq<AvroValue>) -> Option<Seq<Row>>;
/// the rows of records that stand at a place
pub open spec fn rows_at(s: VSchema, d: Seq<u8>, p: int, n: int) -> Option<Seq<Row>> { match records_at(s, d, p, n as nat) { Some((v, e)) => arrow_rows(s, v), None => None } }
impl<R: Read> AvroArrowArrayReader<R> {
    pub uninterp spec fn rest(&self) -> Option<Seq<Row>>;
    /// the reader it was made from
    pub uninterp spec fn source(&self) -> AvroDataBlockContentReader<R>;
    #[verifier::external_body] pub fn try_new(r: AvroDataBlockContentReader<R>, s: &VSchema, o: Option<Vec<String>>) -> (x: Result<AvroArrowArrayReader<R>>)
        requires o is None, r.writer_schema == *s
        ensures match x { Ok(a) => r.reader.spent() && a.source() == r && a.rest() == rows_at(*s, r.reader.data(), r.reader.pos(), r.remaining_records as int), Err(_) => rows_at(*s, r.reader.data(), r.reader.pos(), r.remaining_records as int) is None } { unimplemented!() }
    #[verifier::external_body] pub fn next_batch(&mut self, n: usize) -> (r: Option<core::result::Result<RecordBatch, ArrowErr>>)
        requires n > 0
        ensures final(self).source() == old(self).source(), match r { None => old(self).rest() == Some(Seq::<Row>::empty()) && old(self).source().reader.ends_at(end_of(old(self).source())), Some(Err(_)) => old(self).rest() is None,
            Some(Ok(b)) => b.rows().len() > 0 && left(*final(self)) < left(*old(self)) && old(self).rest() == (match final(self).rest() { Some(x) => Some(b.rows() + x), None => None }) } { unimplemented!() }
}
pub open spec fn end_of<R: Read>(r: AvroDataBlockContentReader<R>) -> int { match records_at(r.writer_schema, r.reader.data(), r.reader.pos(), r.remaining_records as nat) { Some((v, e)) => e, None => 0 } }
/// a measure of what is left: every batch has a record
pub uninterp spec fn left<R>(a: AvroArrowArrayReader<R>) -> nat;
#[verifier::external_body] pub struct Bytes { _p: () }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl Bytes { #[verifier::external_body] pub fn from(v: Vec<u8>) -> (r: Bytes) ensures r@ == v@ { unimplemented!() } }
pub uninterp spec fn parquet_rows(b: Seq<u8>) -> Option<Seq<Row>>;
pub struct ParquetRecordBatchReader { pub content: Ghost<Seq<u8>> }
impl ParquetRecordBatchReader { #[verifier::external_body] pub fn try_new(b: Bytes, n: usize) -> (r: core::result::Result<ParquetRecordBatchReader, ParquetErr>) requires n > 0 ensures match r { Ok(x) => x.content@ == b@, Err(_) => parquet_rows(b@) is None } { unimplemented!() } }
impl VxIntoIterator for ParquetRecordBatchReader {
    type Item = core::result::Result<RecordBatch, ArrowErr>;
    uninterp spec fn items(self) -> Seq<core::result::Result<RecordBatch, ArrowErr>>;
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<core::result::Result<RecordBatch, ArrowErr>>) { unimplemented!() /* self.into_iter() */ }
}
pub broadcast axiom fn ax_parquet(r: ParquetRecordBatchReader) ensures #![trigger r.items()]
    (forall|i: int| 0 <= i < r.items().len() ==> (#[trigger] r.items()[i]) is Ok) ==> parquet_rows(r.content@) == Some(rows_of(oks(r.items()))),
    forall|i: int| 0 <= i < r.items().len() && (#[trigger] r.items()[i]) is Err ==> parquet_rows(r.content@) is None;

/// the rows of the records of a block, and where they end: a format version, a number of records, the records
pub open spec fn avro_content(s: VSchema, d: Seq<u8>, p: int) -> Option<(Seq<Row>, int)> {
    if p < 0 || p + 8 > d.len() || be32(d, p) != 3 { None }
    else { match records_at(s, d, p + 8, be32(d, p + 4) as nat) { None => None, Some((v, e)) => match arrow_rows(s, v) { None => None, Some(rows) => Some((rows, e)) } } }
}
pub proof fn lemma_avro_part(s: VSchema, d: Seq<u8>, a: int, b: int) requires 0 <= a <= b <= d.len()
    ensures avro_content(s, d.subrange(a, b), 0) == (match avro_content(s, upto(d, b), a) { Some((r, e)) => Some((r, e - a)), None => None })
{
    broadcast use group_be;
    let (c, u) = (d.subrange(a, b), d.subrange(0, b)); assert(upto(d, b) =~= u);
    if 8 <= b - a { lemma_be(d, a, b, 0, 4); lemma_be(d, a, b, 4, 4); lemma_be(d, 0, b, a, 4); lemma_be(d, 0, b, a + 4, 4); lemma_records_part(s, d, a, b, 8, be32(c, 4) as nat); }
}
pub type Header = Map<BlockMetadataKey, String>;
/// the rows of a block
pub open spec fn contents(ty: BlockType, h: Header, c: Seq<u8>) -> Option<Seq<Row>> {
    match ty {
        BlockType::Command => Some(Seq::empty()),
        BlockType::ParquetData => parquet_rows(c),
        BlockType::AvroData => if h.dom().contains(BlockMetadataKey::Schema) && schema_of(h[BlockMetadataKey::Schema]@) is Some {
            match avro_content(schema_of(h[BlockMetadataKey::Schema]@)->Some_0, c, 0) { Some((rows, e)) => if e == c.len() { Some(rows) } else { None }, None => None } } else { None },
        _ => None,
    }
}
pub open spec fn has_length(v: LogFormatVersion) -> bool { v != LogFormatVersion::V0 }
pub open spec fn content_start(v: LogFormatVersion, p: int) -> int { if has_length(v) { p + 8 } else { p } }
pub open spec fn content_len(d: Seq<u8>, v: LogFormatVersion, fallback: int, p: int) -> int { if has_length(v) { be64(d, p) } else { fallback } }
//@type crates/core/src/file_group/log_file/content.rs Decoder
//@fn crates/core/src/file_group/log_file/content.rs Decoder::new
@spec
    ensures ret.batch_size > 0
//@end
//@fn crates/core/src/file_group/log_file/content.rs Decoder::content
@spec
    ensures match ret {
        Ok(t) => later(&*t.inner, &*old(reader)) && *final(t.inner) == *final(reader)
            && (has_length(*log_format_version) ==> got(&*t.inner, &*old(reader), 8)) && (!has_length(*log_format_version) ==> t.inner.pos() == old(reader).pos())
            && t.lim == content_len(old(reader).data(), *log_format_version, fallback_length as int, old(reader).pos()),
        Err(_) => has_length(*log_format_version) && old(reader).pos() + 8 > old(reader).data().len() }
@start
    broadcast use {group_be, group_src};
//@end
//@fn crates/core/src/file_group/log_file/content.rs Decoder::check_consumed
@spec
    ensures ret is Ok <==> content.lim == 0
//@end
//@fn crates/core/src/file_group/log_file/content.rs Decoder::decode_avro_record_content
@spec
    requires self.batch_size > 0, 0 <= old(reader).pos() <= old(reader).data().len()
    ensures match ret { Ok(b) => later(&*final(reader), &*old(reader)) && avro_content(*writer_schema, old(reader).data(), old(reader).pos()) == Some((rows_of(b@), (*final(reader)).pos())),
        Err(_) => avro_content(*writer_schema, old(reader).data(), old(reader).pos()) is None }
@start
    broadcast use {group_be, group_src};
    let ghost (d0, p0) = (reader.data(), reader.pos());
    proof { reveal_with_fuel(rows_of, 2); }
@loop 0 pre
    let ghost src = avro_arrow_array_reader.source();
@loop 0
    invariant_except_break self.batch_size > 0, avro_arrow_array_reader.source() == src, d0 == old(reader).data(), p0 == old(reader).pos(), 0 <= p0, p0 + 8 <= d0.len(), be32(d0, p0) == 3,
        rows_at(*writer_schema, d0, p0 + 8, be32(d0, p0 + 4)) == (match avro_arrow_array_reader.rest() { Some(x) => Some(rows_of(batches@) + x), None => None }),
    ensures rows_at(*writer_schema, d0, p0 + 8, be32(d0, p0 + 4)) == Some(rows_of(batches@)), src.reader.ends_at(end_of(src)),
    decreases left(avro_arrow_array_reader)
@loop 0 start
    let ghost b0 = batches@; let ghost x0 = avro_arrow_array_reader.rest();
@loop 0 end
    proof { assert(batches@.drop_last() =~= b0); if x0 is Some { assert(rows_of(batches@) + x0->Some_0 =~= rows_of(b0) + (batches@.last().rows() + x0->Some_0)); } }
//@end
//@fn crates/core/src/file_group/log_file/content.rs Decoder::decode_parquet_record_content
@spec
    requires self.batch_size > 0, 0 <= old(reader).pos() <= old(reader).data().len()
    ensures match ret { Ok(b) => later(&*final(reader), &*old(reader)) && (*final(reader)).pos() == old(reader).data().len() && parquet_rows(old(reader).data().subrange(old(reader).pos(), old(reader).data().len() as int)) == Some(rows_of(b@)),
        Err(_) => parquet_rows(old(reader).data().subrange(old(reader).pos(), old(reader).data().len() as int)) is None }
@start
    broadcast use {ax_parquet, group_src};
    let ghost (d0, p0) = (reader.data(), reader.pos());
@loop 0 pre
    let ghost all = vx_it0@;
@loop 0
    invariant_except_break vx_it0@ =~= all.subrange(all.len() - vx_it0@.len(), all.len() as int), batches@.len() == all.len() - vx_it0@.len(), vx_it0@.len() <= all.len(),
        forall|i: int| 0 <= i < batches@.len() ==> #[trigger] all[i] == Ok::<RecordBatch, ArrowErr>(batches@[i]),
        d0 == old(reader).data(), p0 == old(reader).pos(), forall|i: int| 0 <= i < all.len() && (#[trigger] all[i]) is Err ==> parquet_rows(d0.subrange(p0, d0.len() as int)) is None,
    ensures batches@ =~= oks(all), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]) is Ok,
    decreases vx_it0@.len()
//@end
//@fn crates/core/src/file_group/log_file/content.rs Decoder::decode_content
@spec
    requires self.batch_size > 0, 0 <= old(reader).pos() <= old(reader).data().len()
    ensures ret matches Ok(b) ==> ({ let (d, p) = (old(reader).data(), old(reader).pos()); let (c, n) = (content_start(*log_format_version, p), content_len(d, *log_format_version, fallback_length as int, p));
        later(&*final(reader), &*old(reader)) && (*final(reader)).pos() == c + n && p <= c && c + n <= d.len() && contents(*block_type, header@, d.subrange(c, c + n)) == Some(rows_of(b@)) }),
      ret is Err ==> ({ let (d, p) = (old(reader).data(), old(reader).pos()); let (c, n) = (content_start(*log_format_version, p), content_len(d, *log_format_version, fallback_length as int, p));
        c + n > d.len() || contents(*block_type, header@, d.subrange(c, c + n)) is None })
@start
    broadcast use {group_be, group_src};
    let ghost (d0, p0) = (reader.data(), reader.pos());
    let ghost (c0, n0) = (content_start(*log_format_version, p0), content_len(d0, *log_format_version, fallback_length as int, p0));
    proof { assert forall|s: VSchema| #![trigger avro_content(s, d0.subrange(c0, c0 + n0), 0)] c0 + n0 <= d0.len() && n0 >= 0 implies avro_content(s, d0.subrange(c0, c0 + n0), 0) == (match avro_content(s, upto(d0, c0 + n0), c0) { Some((r, e)) => Some((r, e - c0)), None => None }) by { lemma_avro_part(s, d0, c0, c0 + n0); } }
//@end
//@fn crates/core/src/file_group/log_file/content.rs Decoder::skip_content
@spec
    requires 0 <= old(reader).pos() <= old(reader).data().len()
    ensures ret is Ok ==> ({ let (d, p) = (old(reader).data(), old(reader).pos()); let (c, n) = (content_start(*log_format_version, p), content_len(d, *log_format_version, fallback_length as int, p));
        later(&*final(reader), &*old(reader)) && (*final(reader)).pos() == c + n && p <= c && c + n <= d.len() }),
      ret is Err ==> content_start(*log_format_version, old(reader).pos()) + content_len(old(reader).data(), *log_format_version, fallback_length as int, old(reader).pos()) > old(reader).data().len()
@start
    broadcast use {group_be, group_src};
//@end

//@prop C09 C10
// ---- a block ---------------------------------------------------------------------------------------------
impl VxFromStr for CommandBlock { type Err = CoreError; open spec fn parsed(s: Seq<char>) -> Option<CommandBlock> { if parsed_u32(s) == Some(0u32) { Some(CommandBlock::Rollback) } else { None } } }
//@fn crates/core/src/file_group/log_file/log_block.rs FromStr for CommandBlock::from_str
@spec
    ensures match ret { Ok(v) => CommandBlock::parsed(s@) == Some(v), Err(_) => CommandBlock::parsed(s@) is None }
//@end
pub open spec fn val(h: Header, k: BlockMetadataKey) -> Option<Seq<char>> { if h.dom().contains(k) { Some(h[k]@) } else { None } }
//@fn crates/core/src/file_group/log_file/log_block.rs LogBlock::instant_time
@spec
    ensures match ret { Ok(v) => val(self.header@, BlockMetadataKey::InstantTime) == Some(v@), Err(_) => val(self.header@, BlockMetadataKey::InstantTime) is None }
//@end
//@fn crates/core/src/file_group/log_file/log_block.rs LogBlock::target_instant_time
@spec
    ensures match ret { Ok(v) => self.block_type == BlockType::Command && val(self.header@, BlockMetadataKey::TargetInstantTime) == Some(v@), Err(_) => self.block_type != BlockType::Command || val(self.header@, BlockMetadataKey::TargetInstantTime) is None }
//@end
//@fn crates/core/src/file_group/log_file/log_block.rs LogBlock::command_block_type
@spec
    ensures ret is Ok <==> self.block_type == BlockType::Command && val(self.header@, BlockMetadataKey::CommandBlockType) is Some && parsed_u32(val(self.header@, BlockMetadataKey::CommandBlockType)->Some_0) == Some(0u32)
//@end
/// a block as it stands in a file
pub struct VBlock { pub version: LogFormatVersion, pub ty: BlockType, pub header: Header, pub rows: Seq<Row>, pub footer: Header, pub skipped: bool }
impl View for LogBlock { type V = VBlock; open spec fn view(&self) -> VBlock { VBlock { version: self.format_version, ty: self.block_type, header: self.header@, rows: rows_of(self.record_batches@), footer: self.footer@, skipped: self.skipped } } }
/// the window of a query (the functions themselves: timeline unit)
#[verifier::external_body] pub struct InstantRange { _p: () }
impl InstantRange {
    pub uninterp spec fn excluded(&self, t: Seq<char>, tz: Seq<char>) -> Option<bool>;
    #[verifier::external_body] pub fn not_in_range(&self, t: &str, tz: &str) -> (r: Result<bool>) ensures match r { Ok(b) => self.excluded(t@, tz@) == Some(b), Err(_) => self.excluded(t@, tz@) is None } { unimplemented!() }
}
pub open spec fn meta_entry(d: Seq<u8>, p: int) -> Option<(BlockMetadataKey, String, int)> {
    if p + 8 > d.len() || p + 8 + be32(d, p + 4) > d.len() { None }
    else { match (key_of(be32(d, p)), text_of(d.subrange(p + 8, p + 8 + be32(d, p + 4)))) { (Some(k), Some(v)) => Some((k, v, p + 8 + be32(d, p + 4))), _ => None } }
}
pub open spec fn meta_entries(d: Seq<u8>, p: int, n: nat) -> Option<(Header, int)> decreases n {
    if n == 0 { Some((Map::empty(), p)) } else { match meta_entries(d, p, (n - 1) as nat) { None => None, Some((m, q)) => match meta_entry(d, q) { None => None, Some((k, v, e)) => Some((m.insert(k, v), e)) } } }
}
pub proof fn lemma_meta_none(d: Seq<u8>, p: int, k: nat, n: nat) requires k <= n, meta_entries(d, p, k) is None ensures meta_entries(d, p, n) is None decreases n { if k < n { lemma_meta_none(d, p, k, (n - 1) as nat); } }
/// a header or a footer, where the version has one
pub open spec fn section(d: Seq<u8>, p: int, there: bool) -> Option<(Header, int)> { if !there { Some((Map::empty(), p)) } else if p + 4 > d.len() { None } else { meta_entries(d, p + 4, be32(d, p) as nat) } }
/// the block that stands at a place in a file, and where it ends
pub open spec fn block_at(d: Seq<u8>, p: int, r: InstantRange, tz: Seq<char>) -> Option<(VBlock, int)> {
    if p < 0 || p + 22 > d.len() || d.subrange(p, p + 6) != magic() { None } else {
    match (version_of(be32(d, p + 14)), type_of(be32(d, p + 18))) { (Some(v), Some(ty)) => if !has_length(v) { None } else { match section(d, p + 22, true) { None => None, Some((h, q)) => {
        let c = q + 8; let n = be64(d, q);
        let skipped = if ty == BlockType::Command { Some(false) } else { match val(h, BlockMetadataKey::InstantTime) { None => None, Some(t) => r.excluded(t, tz) } };
        if c + n > d.len() { None } else { match (skipped, section(d, c + n, v == LogFormatVersion::V1)) { (Some(s), Some((f, q2))) => {
            let end = if v == LogFormatVersion::V1 { q2 + 8 } else { q2 };
            let rows = if s { Some(Seq::empty()) } else { contents(ty, h, d.subrange(c, c + n)) };
            if end > d.len() || rows is None || be64(d, p + 6) != end - (p + 14) || (v == LogFormatVersion::V1 && be64(d, q2) != end - (p + 14) + 6) { None }
            else { Some((VBlock { version: v, ty, header: h, rows: rows->Some_0, footer: f, skipped: s }, end)) }
        }, _ => None } }
    } } }, _ => None } }
}
/// the blocks of a file from a place on, but for those outside of the window
pub open spec fn blocks_from(d: Seq<u8>, p: int, r: InstantRange, tz: Seq<char>) -> Option<Seq<VBlock>> decreases d.len() - p {
    if p + 6 > d.len() { Some(Seq::empty()) } else { match block_at(d, p, r, tz) { None => None, Some((b, e)) =>
        if e <= p { None } else { match blocks_from(d, e, r, tz) { None => None, Some(x) => if b.skipped { Some(x) } else { Some(seq![b] + x) } } } } }
}
#[verifier::external_body] pub struct BytesMut { _p: () }
impl BytesMut { #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) { unimplemented!() } }
#[verifier::external_body] pub struct Storage { _p: () }
pub open spec fn views(b: Seq<LogBlock>) -> Seq<VBlock> { Seq::new(b.len(), |i: int| b[i]@) }
/// what the storage holds at a path (the functions themselves: storage unit)
impl Storage { pub uninterp spec fn stored(&self, path: Seq<char>) -> Seq<u8>; pub uninterp spec fn unreadable(&self, path: Seq<char>) -> bool; }
impl VArc<Storage> { #[verifier::external_body] pub fn get_storage_reader(&self, p: &str) -> (r: Result<StorageReader>) ensures match r { Ok(x) => x.bytes() == self.v.stored(p@) && x.at() == 0, Err(_) => self.v.unreadable(p@) } { unimplemented!() } }
pub broadcast axiom fn ax_default_tz() ensures (#[trigger] cfg_default(HudiTableConfig::TimelineTimezone)) matches Some(HudiConfigValue::String(_));
pub broadcast axiom fn ax_tz_kind(h: HudiConfigs) ensures (#[trigger] cfg_try(h, HudiTableConfig::TimelineTimezone)) matches Some(v) ==> v is String;
pub open spec fn zone(h: HudiConfigs) -> Seq<char> { (match cfg_try(h, HudiTableConfig::TimelineTimezone) { Some(v) => v, None => cfg_default(HudiTableConfig::TimelineTimezone)->Some_0 })->String_0@ }
//@type crates/core/src/file_group/log_file/reader.rs DEFAULT_BUFFER_SIZE
//@type crates/core/src/file_group/log_file/reader.rs LogFileReader
impl LogFileReader<StorageReader> { pub open spec fn ok(&self) -> bool { 0 <= self.reader.pos() <= self.reader.data().len() }
    #[verifier::prophetic] pub open spec fn from(&self, o: &LogFileReader<StorageReader>) -> bool { later(&self.reader, &o.reader) && self.timezone == o.timezone } }
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_magic
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).from(old(self)), match ret {
        Ok(true) => got(&final(self).reader, &old(self).reader, 6) && old(self).reader.data().subrange(old(self).reader.pos(), old(self).reader.pos() + 6) == magic(),
        Ok(false) => old(self).reader.pos() + 6 > old(self).reader.data().len(),
        Err(_) => old(self).reader.pos() + 6 <= old(self).reader.data().len() && old(self).reader.data().subrange(old(self).reader.pos(), old(self).reader.pos() + 6) != magic() }
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_block_length
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).from(old(self)), match ret { Ok(n) => got(&final(self).reader, &old(self).reader, 8) && n == be64(old(self).reader.data(), old(self).reader.pos()), Err(_) => old(self).reader.pos() + 8 > old(self).reader.data().len() }
@start
    broadcast use group_be;
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::create_corrupted_block_if_needed
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures ret is None, *final(self) == *old(self)
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_block_length_or_corrupted_block
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).from(old(self)), match ret { Ok(x) => got(&final(self).reader, &old(self).reader, 8) && x.0 == be64(old(self).reader.data(), old(self).reader.pos()), Err(_) => old(self).reader.pos() + 8 > old(self).reader.data().len() }
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_log_format_version
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).from(old(self)), match ret { Ok(v) => got(&final(self).reader, &old(self).reader, 4) && version_of(be32(old(self).reader.data(), old(self).reader.pos())) == Some(v), Err(_) => old(self).reader.pos() + 4 > old(self).reader.data().len() || version_of(be32(old(self).reader.data(), old(self).reader.pos())) is None }
@start
    broadcast use group_be;
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_block_type
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).from(old(self)), match ret { Ok(v) => has_length(*format_version) && got(&final(self).reader, &old(self).reader, 4) && type_of(be32(old(self).reader.data(), old(self).reader.pos())) == Some(v), Err(_) => !has_length(*format_version) || old(self).reader.pos() + 4 > old(self).reader.data().len() || type_of(be32(old(self).reader.data(), old(self).reader.pos())) is None }
@start
    broadcast use group_be;
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_block_metadata
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).from(old(self)), match ret { Ok(m) => section(old(self).reader.data(), old(self).reader.pos(), if metadata_type == BlockMetadataType::Header { has_length(*format_version) } else { *format_version == LogFormatVersion::V1 }) == Some((m@, final(self).reader.pos())), Err(_) => section(old(self).reader.data(), old(self).reader.pos(), if metadata_type == BlockMetadataType::Header { has_length(*format_version) } else { *format_version == LogFormatVersion::V1 }) is None }
@start
    broadcast use {group_be, group_src};
    let ghost (d, p) = (self.reader.data(), self.reader.pos());
    proof { reveal_with_fuel(meta_entries, 2); }
@loop 0 pre
    let ghost n = be32(d, p);
@loop 0
    invariant self.ok(), self.from(old(self)), vx_it0@.len() <= n, n == be32(d, p), self.reader.data() == d, d == old(self).reader.data(), p == old(self).reader.pos(),
        meta_entries(d, p + 4, (n - vx_it0@.len()) as nat) == Some((metadata@, self.reader.pos())), p + 4 <= d.len(),
        metadata_type == BlockMetadataType::Header ==> has_length(*format_version), metadata_type != BlockMetadataType::Header ==> *format_version == LogFormatVersion::V1,
    ensures vx_it0@.len() == 0,
    decreases vx_it0@.len()
@loop 0 start
    broadcast use {group_be, group_src};
    let ghost q = self.reader.pos(); let ghost k = (n - vx_it0@.len() - 1) as nat;
    proof { if meta_entry(d, q) is None { lemma_meta_none(d, p + 4, k + 1, n as nat); } }
@loop 0 end
    proof { assert(meta_entry(d, q) is Some); }
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_total_block_length
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures final(self).ok(), final(self).from(old(self)), match ret {
        Ok(None) => *format_version != LogFormatVersion::V1 && final(self).reader.pos() == old(self).reader.pos(),
        Ok(Some(n)) => *format_version == LogFormatVersion::V1 && got(&final(self).reader, &old(self).reader, 8) && n == be64(old(self).reader.data(), old(self).reader.pos()),
        Err(_) => *format_version == LogFormatVersion::V1 && old(self).reader.pos() + 8 > old(self).reader.data().len() }
@start
    broadcast use group_be;
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::should_skip_block
@header impl LogFileReader<StorageReader>
@spec
    ensures (match val(header@, BlockMetadataKey::InstantTime) { None => None, Some(t) => instant_range.excluded(t, self.timezone@) }) == (match ret { Ok(b) => Some(b), Err(_) => None })
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_next_block
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures ret is Ok ==> final(self).ok() && final(self).from(old(self)), match ret {
        Ok(None) => old(self).reader.pos() + 6 > old(self).reader.data().len(),
        Ok(Some(b)) => final(self).reader.pos() > old(self).reader.pos() && block_at(old(self).reader.data(), old(self).reader.pos(), *instant_range, old(self).timezone@) == Some((b@, final(self).reader.pos())),
        Err(_) => old(self).reader.pos() + 6 <= old(self).reader.data().len() && block_at(old(self).reader.data(), old(self).reader.pos(), *instant_range, old(self).timezone@) is None }
@closure 0
    |$1: u64| -> (r: bool) requires block_length + 6 <= u64::MAX ensures r == ($1 != block_length + 6)
@start
    broadcast use {group_be, group_src};
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::new
@header impl LogFileReader<StorageReader>
@spec
    ensures match ret { Ok(x) => x.ok() && x.reader.bytes() == storage.v.stored(relative_path@) && x.reader.pos() == 0 && x.timezone@ == zone(hudi_configs.v), Err(_) => storage.v.unreadable(relative_path@) }
@start
    broadcast use {ax_default_tz, ax_tz_kind};
//@end
//@fn crates/core/src/file_group/log_file/reader.rs LogFileReader::read_all_blocks
@header impl LogFileReader<StorageReader>
@spec
    requires old(self).ok()
    ensures blocks_from(old(self).reader.data(), old(self).reader.pos(), *instant_range, old(self).timezone@) == (match ret { Ok(b) => Some(views(b@)), Err(_) => None })
@start
    let ghost (d, p, tz, r) = (self.reader.data(), self.reader.pos(), self.timezone@, *instant_range);
@loop 0
    invariant_except_break self.ok(), self.reader.data() == d, self.timezone@ == tz, r == *instant_range, d == old(self).reader.data(), p == old(self).reader.pos(), tz == old(self).timezone@,
        blocks_from(d, p, r, tz) == (match blocks_from(d, self.reader.pos(), r, tz) { Some(x) => Some(views(blocks@) + x), None => None }),
    ensures blocks_from(d, p, r, tz) == Some(views(blocks@)),
    decreases d.len() - self.reader.pos()
@loop 0 start
    let ghost b0 = blocks@;
@loop 0 end
    proof { if let Some(x) = blocks_from(d, self.reader.pos(), r, tz) { assert(views(blocks@) + x =~= views(b0) + (seq![blocks@.last()@] + x)); } }
//@end
// ---- the files of a slice ------------------------------------------------------------------------------
//@prop C10
/// the blocks in the window of the first n files
pub open spec fn files_blocks(st: Storage, paths: Seq<String>, n: int, r: InstantRange, tz: Seq<char>) -> Option<Seq<Seq<VBlock>>> decreases n {
    if n <= 0 { Some(Seq::empty()) } else { match (files_blocks(st, paths, n - 1, r, tz), blocks_from(st.stored(paths[n - 1]@), 0, r, tz)) { (Some(a), Some(b)) => Some(a.push(b)), _ => None } }
}
/// a command is understood: it is the rollback of an instant
pub open spec fn known(b: VBlock) -> bool { b.ty == BlockType::Command ==> val(b.header, BlockMetadataKey::CommandBlockType) is Some && parsed_u32(val(b.header, BlockMetadataKey::CommandBlockType)->Some_0) == Some(0u32) && val(b.header, BlockMetadataKey::TargetInstantTime) is Some }
/// a block says when it was written
pub open spec fn timed(b: VBlock) -> bool { val(b.header, BlockMetadataKey::InstantTime) is Some }
pub open spec fn understood(f: Seq<Seq<VBlock>>) -> bool { forall|i: int, j: int| #![trigger f[i][j]] 0 <= i < f.len() && 0 <= j < f[i].len() ==> known(f[i][j]) && timed(f[i][j]) }
pub proof fn lemma_files_prefix(st: Storage, paths: Seq<String>, m: int, n: int, r: InstantRange, tz: Seq<char>) requires 0 <= m <= n
    ensures files_blocks(st, paths, n, r, tz) matches Some(f) ==> f.len() == n && files_blocks(st, paths, m, r, tz) == Some(f.take(m)) decreases n
{
    if n > 0 { if m < n { lemma_files_prefix(st, paths, m, n - 1, r, tz); } else { lemma_files_prefix(st, paths, m - 1, n - 1, r, tz); } }
    if let Some(f) = files_blocks(st, paths, n, r, tz) { assert(f.take(n) =~= f); if m < n { assert(f.drop_last().take(m) =~= f.take(m)); assert(files_blocks(st, paths, n - 1, r, tz)->Some_0 =~= f.drop_last()); } }
}
pub open spec fn rolls_back(b: VBlock, t: Seq<char>) -> bool { b.ty == BlockType::Command && val(b.header, BlockMetadataKey::TargetInstantTime) == Some(t) }
pub open spec fn rolled_back(f: Seq<Seq<VBlock>>, t: Seq<char>) -> bool { exists|i: int, j: int| #![trigger f[i][j]] 0 <= i < f.len() && 0 <= j < f[i].len() && rolls_back(f[i][j], t) }
pub open spec fn undone(b: VBlock, f: Seq<Seq<VBlock>>) -> bool { val(b.header, BlockMetadataKey::InstantTime) matches Some(t) && rolled_back(f, t) }
/// the rows of the blocks of a file, but for those rolled back
pub open spec fn kept(b: Seq<VBlock>, f: Seq<Seq<VBlock>>) -> Seq<Seq<Row>> decreases b.len() { if b.len() == 0 { Seq::empty() } else if undone(b.last(), f) { kept(b.drop_last(), f) } else { kept(b.drop_last(), f).push(b.last().rows) } }
pub open spec fn all_kept(x: Seq<Seq<VBlock>>, f: Seq<Seq<VBlock>>) -> Seq<Seq<Row>> decreases x.len() { if x.len() == 0 { Seq::empty() } else { all_kept(x.drop_last(), f) + kept(x.last(), f) } }
pub open spec fn views2(b: Seq<Vec<LogBlock>>) -> Seq<Seq<VBlock>> { Seq::new(b.len(), |i: int| views(b[i]@)) }
pub open spec fn rows2(b: Seq<Vec<RecordBatch>>) -> Seq<Seq<Row>> { Seq::new(b.len(), |i: int| rows_of(b[i]@)) }
pub open spec fn rolled(b: Seq<VBlock>, n: int, t: Seq<char>) -> bool { exists|j: int| 0 <= j < n && rolls_back(#[trigger] b[j], t) }
pub proof fn lemma_rolled(f: Seq<Seq<VBlock>>, b: Seq<VBlock>, t: Seq<char>) ensures rolled_back(f.push(b), t) == (rolled_back(f, t) || rolled(b, b.len() as int, t)) {
    let g = f.push(b);
    if rolled_back(f, t) { let (i, j) = choose|i: int, j: int| #![trigger f[i][j]] 0 <= i < f.len() && 0 <= j < f[i].len() && rolls_back(f[i][j], t); assert(g[i][j] == f[i][j]); }
    if rolled(b, b.len() as int, t) { let j = choose|j: int| 0 <= j < b.len() && rolls_back(#[trigger] b[j], t); assert(g[f.len() as int][j] == b[j]); }
    if rolled_back(g, t) { let (i, j) = choose|i: int, j: int| #![trigger g[i][j]] 0 <= i < g.len() && 0 <= j < g[i].len() && rolls_back(g[i][j], t); if i < f.len() { assert(f[i][j] == g[i][j]); } else { assert(b[j] == g[i][j]); } }
}
pub proof fn lemma_rolled_next(b: Seq<VBlock>, n: int, t: Seq<char>) requires 0 <= n < b.len() ensures rolled(b, n + 1, t) == (rolled(b, n, t) || rolls_back(b[n], t)) {
    if rolled(b, n, t) { let j = choose|j: int| 0 <= j < n && rolls_back(#[trigger] b[j], t); assert(rolls_back(b[j], t)); }
}
//@type crates/core/src/file_group/log_file/scanner.rs LogFileScanner
//@fn crates/core/src/file_group/log_file/scanner.rs LogFileScanner::new
@spec
    ensures ret.hudi_configs == hudi_configs, ret.storage == storage
//@end
//@fn crates/core/src/file_group/log_file/scanner.rs LogFileScanner::scan
@spec
    ensures match (ret, files_blocks(self.storage.v, relative_paths@, relative_paths@.len() as int, *instant_range, zone(self.hudi_configs.v))) {
        (Ok(b), Some(f)) => understood(f) && rows2(b@) == all_kept(f, f),
        (Ok(_), None) => false,
        (Err(_), Some(f)) => !understood(f) || exists|i: int| 0 <= i < relative_paths@.len() && self.storage.v.unreadable(#[trigger] relative_paths@[i]@),
        (Err(_), None) => true }
@start
    let ghost (st, paths, r, tz) = (self.storage.v, relative_paths@, *instant_range, zone(self.hudi_configs.v));
    let ghost whole = files_blocks(st, paths, paths.len() as int, r, tz);
    proof { assert(paths.take(0) =~= Seq::empty()); }
@loop 0
    invariant vx_it0@.len() <= paths.len(), vx_it0@ =~= paths.skip(paths.len() - vx_it0@.len()), st == self.storage.v, r == *instant_range, tz == zone(self.hudi_configs.v), paths == relative_paths@,
        whole == files_blocks(st, paths, paths.len() as int, r, tz),
        files_blocks(st, paths, paths.len() - vx_it0@.len(), r, tz) == Some(views2(all_blocks@)),
        forall|i: int, j: int| #![trigger views2(all_blocks@)[i][j]] 0 <= i < views2(all_blocks@).len() && 0 <= j < views2(all_blocks@)[i].len() ==> known(views2(all_blocks@)[i][j]),
        forall|t: Seq<char>| #[trigger] rollback_targets@.dom().contains(t) <==> rolled_back(views2(all_blocks@), t),
    ensures vx_it0@.len() == 0, whole == files_blocks(st, paths, paths.len() as int, r, tz), files_blocks(st, paths, paths.len() as int, r, tz) == Some(views2(all_blocks@)),
    decreases vx_it0@.len()
@loop 0 start
    let ghost f0 = views2(all_blocks@); let ghost k = paths.len() - vx_it0@.len() - 1;
    proof { assert(path == paths[k]); lemma_files_prefix(st, paths, k, k, r, tz); lemma_files_prefix(st, paths, k + 1, paths.len() as int, r, tz); if let Some(f) = whole { assert(f.take(k + 1)[k] == f[k]); } }
@loop 0 end
    proof { let b = views(all_blocks@.last()@); assert(views2(all_blocks@) =~= f0.push(b));
        assert forall|t: Seq<char>| #[trigger] rolled_back(f0.push(b), t) == (rolled_back(f0, t) || rolled(b, b.len() as int, t)) by { lemma_rolled(f0, b, t); } }
@loop 1 pre
    let ghost all = blocks@;
@loop 1
    invariant vx_it1@.len() <= all.len(), forall|i: int| 0 <= i < vx_it1@.len() ==> *#[trigger] vx_it1@[i] == all[all.len() - vx_it1@.len() + i],
        whole == files_blocks(self.storage.v, relative_paths@, relative_paths@.len() as int, *instant_range, zone(self.hudi_configs.v)), whole matches Some(f) ==> 0 <= k < f.len() && f[k] == views(all),
        forall|j: int| #![trigger views(all)[j]] 0 <= j < all.len() - vx_it1@.len() ==> known(views(all)[j]),
        forall|t: Seq<char>| #[trigger] rollback_targets@.dom().contains(t) <==> rolled_back(f0, t) || rolled(views(all), all.len() - vx_it1@.len(), t),
    ensures vx_it1@.len() == 0,
    decreases vx_it1@.len()
@loop 1 start
    let ghost n = all.len() - vx_it1@.len() - 1;
    proof { assert(views(all)[n] == block@); if let Some(f) = whole { assert(f[k][n] == block@); }
        assert forall|t: Seq<char>| #[trigger] rolled(views(all), n + 1, t) == (rolled(views(all), n, t) || rolls_back(block@, t)) by { lemma_rolled_next(views(all), n, t); } }
@loop 2 pre
    let ghost (all, f) = (all_blocks@, views2(all_blocks@));
    proof { assert(f.take(0) =~= Seq::empty()); assert(f.take(f.len() as int) =~= f); }
@loop 2
    invariant vx_it2@.len() <= all.len(), vx_it2@ =~= all.skip(all.len() - vx_it2@.len()), f == views2(all), f.take(f.len() as int) == f,
        whole == Some(f), whole == files_blocks(self.storage.v, relative_paths@, relative_paths@.len() as int, *instant_range, zone(self.hudi_configs.v)),
        forall|i: int, j: int| #![trigger f[i][j]] 0 <= i < f.len() && 0 <= j < f[i].len() ==> known(f[i][j]),
        forall|i: int, j: int| #![trigger f[i][j]] 0 <= i < all.len() - vx_it2@.len() && 0 <= j < f[i].len() ==> timed(f[i][j]),
        forall|t: Seq<char>| #[trigger] rollback_targets@.dom().contains(t) <==> rolled_back(f, t),
        rows2(record_batches@) =~= all_kept(f.take(all.len() - vx_it2@.len()), f),
    ensures rows2(record_batches@) =~= all_kept(f, f), understood(f),
    decreases vx_it2@.len()
@loop 2 start
    let ghost (m, bl) = (all.len() - vx_it2@.len() - 1, blocks@);
    proof { assert(bl == all[m]@); assert(f.take(m + 1).drop_last() =~= f.take(m)); assert(views(bl).take(0) =~= Seq::empty()); assert(views(bl).take(bl.len() as int) =~= views(bl)); assert(f.take(m + 1).last() == views(bl)); assert(f[m] == views(bl)); }
@loop 3
    invariant vx_it3@.len() <= bl.len(), vx_it3@ =~= bl.skip(bl.len() - vx_it3@.len()), 0 <= m < f.len(), f[m] == views(bl),
        whole == Some(f), whole == files_blocks(self.storage.v, relative_paths@, relative_paths@.len() as int, *instant_range, zone(self.hudi_configs.v)),
        forall|j: int| #![trigger views(bl)[j]] 0 <= j < bl.len() - vx_it3@.len() ==> timed(views(bl)[j]),
        forall|t: Seq<char>| #[trigger] rollback_targets@.dom().contains(t) <==> rolled_back(f, t),
        rows2(record_batches@) =~= all_kept(f.take(m), f) + kept(views(bl).take(bl.len() - vx_it3@.len()), f),
    ensures vx_it3@.len() == 0,
    decreases vx_it3@.len()
@loop 3 start
    let ghost (e, b0) = (bl.len() - vx_it3@.len() - 1, record_batches@);
    proof { assert(block == bl[e]); assert(views(bl)[e] == block@); assert(f[m][e] == block@); assert(views(bl).take(e + 1).drop_last() =~= views(bl).take(e)); assert(views(bl).take(e + 1).last() == block@);
        assert(rows2(b0.push(block.record_batches)) =~= rows2(b0).push(block@.rows)); }
//@end
}
