//@include file_group.inc
//@include merge_base.inc
verus! {
//@rules reset
//@rule opaque_fmt
//@rule eq_ops
//@rule method iter vx_iter
//@rule method to_string vx_to_string
//@rule method extend vx_extend
//@rule path Arc VArc
//@rule path PathBuf VPathBuf
//@rule path SchemaRef VArc<Schema>
//@rule path HudiReadConfig HudiReadConfig
//@rule path ReadFileSliceError CoreError::ReadFileSliceError
//@prop C12
// ---- options ----------------------------------------------------------------------------------------------
//@type crates/core/src/config/read.rs HudiReadConfig structural
/// the value a read option is set to, when it is set and well-formed
pub uninterp spec fn read_try(h: HudiConfigs, c: HudiReadConfig) -> Option<HudiConfigValue>;
impl VxOption for HudiReadConfig {
    open spec fn tried(self, h: HudiConfigs) -> Option<HudiConfigValue> { read_try(h, self) }
    open spec fn has_default(self) -> bool { self == HudiReadConfig::InputPartitions || self == HudiReadConfig::ListingParallelism || self == HudiReadConfig::UseReadOptimizedMode }
    open spec fn reads(self, h: HudiConfigs, v: HudiConfigValue) -> bool { self == HudiReadConfig::UseReadOptimizedMode ==> v == (match read_try(h, self) { Some(x) => x, None => HudiConfigValue::Boolean(false) }) }
    open spec fn of_kind(self, v: HudiConfigValue) -> bool { (self == HudiReadConfig::UseReadOptimizedMode ==> v is Boolean) && (self == HudiReadConfig::InputPartitions ==> v is UInteger) && (self == HudiReadConfig::FileGroupStartTimestamp || self == HudiReadConfig::FileGroupEndTimestamp ==> v is String) }
}
pub broadcast axiom fn ax_defaults() ensures (#[trigger] cfg_default(HudiTableConfig::TimelineTimezone)) matches Some(HudiConfigValue::String(_)), (#[trigger] cfg_default(HudiTableConfig::PopulatesMetaFields)) == Some(HudiConfigValue::Boolean(true));
pub open spec fn value_of(h: HudiConfigs, c: HudiTableConfig) -> HudiConfigValue { match cfg_try(h, c) { Some(v) => v, None => cfg_default(c)->Some_0 } }
pub open spec fn populated(h: HudiConfigs) -> bool { value_of(h, HudiTableConfig::PopulatesMetaFields) == HudiConfigValue::Boolean(true) }
pub open spec fn text_opt(h: HudiConfigs, c: HudiReadConfig) -> Option<String> { match read_try(h, c) { Some(HudiConfigValue::String(s)) => Some(s), _ => None } }
pub open spec fn start_of(h: HudiConfigs) -> Option<String> { text_opt(h, HudiReadConfig::FileGroupStartTimestamp) }
pub open spec fn end_of(h: HudiConfigs) -> Option<String> { text_opt(h, HudiReadConfig::FileGroupEndTimestamp) }
pub open spec fn read_optimized(h: HudiConfigs) -> bool { read_try(h, HudiReadConfig::UseReadOptimizedMode) == Some(HudiConfigValue::Boolean(true)) }

// ---- commit times as text ------------------------------------------------------------------------------
/// a commit time of second precision denotes the first millisecond of the second
pub open spec fn millis(s: Seq<char>) -> Seq<char> { if vstd::utf8::encode_utf8(s).len() == 14 { s + "000"@ } else { s } }
/// String + &str
#[verifier::external_body] pub fn vx_str_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { a + b }
//@fn crates/core/src/file_group/reader.rs to_millis_precision
@rule method len vx_str_len
@rule str_add
@rule transparent_fmt
@spec
    ensures ret@ == millis(timestamp@)
@start
    proof { reveal_strlit("yyyyMMddHHmmss"); assert("yyyyMMddHHmmss"@.len() == 14); vstd::utf8::is_ascii_chars_encode_utf8("yyyyMMddHHmmss"@); }
//@end

/// texts of one length compare as their beginnings, then as their last characters
pub proof fn lemma_order_last(a: Seq<char>, b: Seq<char>)
    requires a.len() == b.len(), a.len() > 0
    ensures str_order(a, b) == (if str_order(a.drop_last(), b.drop_last()) != Ordering::Equal { str_order(a.drop_last(), b.drop_last()) } else { vx_int_cmp(a.last() as int, b.last() as int) })
    decreases a.len()
{
    if a.len() > 1 && a[0] == b[0] { lemma_order_last(a.drop_first(), b.drop_first()); assert(a.drop_first().drop_last() =~= a.drop_last().drop_first()); assert(b.drop_first().drop_last() =~= b.drop_last().drop_first()); }
    else if a.len() == 1 { reveal_with_fuel(str_order, 3); }
}
/// digits of one length compare as the numbers they write
pub proof fn lemma_order_digits(a: Seq<char>, b: Seq<char>) requires a.len() == b.len(), digits(a), digits(b) ensures str_order(a, b) == vx_int_cmp(dec(a), dec(b)) decreases a.len()
{ if a.len() > 0 { lemma_order_last(a, b); lemma_order_digits(a.drop_last(), b.drop_last()); } }
/// a commit time: yyyyMMddHHmmss or yyyyMMddHHmmssSSS
pub open spec fn commit_stamp(s: Seq<char>) -> bool { digits(s) && (s.len() == 14 || s.len() == 17) }
/// the number that orders commit times of either precision
pub open spec fn moment(s: Seq<char>) -> int { if s.len() == 14 { dec(s) * 1000 } else { dec(s) } }
/// a text compares with a longer one as with its beginning
pub proof fn lemma_order_longer(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires a.len() == b.len(), c.len() > 0 ensures str_order(a, b + c) == (if a == b { Ordering::Less } else { str_order(a, b) }) decreases a.len()
{
    if a.len() == 0 { assert(a =~= b); }
    else {
        assert((b + c)[0] == b[0] && (b + c).drop_first() =~= b.drop_first() + c);
        lemma_order_longer(a.drop_first(), b.drop_first(), c);
        if a[0] == b[0] && a.drop_first() == b.drop_first() { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
        assert((a[0] as u32 == b[0] as u32) == (a[0] == b[0]));
    }
}
/// for commit times of either precision, the window on text is the window on points in time
pub proof fn lemma_window(t: Seq<char>, s: Seq<char>) requires commit_stamp(t), commit_stamp(s)
    ensures str_order(t, millis(s)) == Ordering::Greater <==> moment(t) > moment(s)
{
    lemma_digits_bytes(s, 0);
    let m = millis(s); let p = m.take(14); let e = m.skip(14);
    reveal_strlit("000"); assert("000"@.len() == 3); assert(m.len() == 17 && digits(m)); assert(m =~= p + e);
    if s.len() == 14 {
        assert(m.drop_last() =~= s + "000"@.drop_last() && m.drop_last().drop_last() =~= s + "000"@.drop_last().drop_last() && m.drop_last().drop_last().drop_last() =~= s);
        reveal_with_fuel(dec, 4); assert(dec(m) == dec(s) * 1000);
    }
    assert(dec(m) == moment(s));
    if t.len() == 17 { lemma_order_digits(t, m); }
    else {
        lemma_order_longer(t, p, e); lemma_order_digits(t, p); lemma_str_order(t, p, p);
        assert(m.drop_last().drop_last().drop_last() =~= p); reveal_with_fuel(dec, 4);
        assert(dec(m) == dec(p) * 1000 + (e[0] as int - '0' as int) * 100 + (e[1] as int - '0' as int) * 10 + (e[2] as int - '0' as int));
    }
}
/// vec![x; n]
#[verifier::external_body] pub fn vx_vec_from_elem(x: bool, n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { vec![x; n] }
// ---- the window on base files ------------------------------------------------------------------------------
/// a text as a value of a column of texts
pub uninterp spec fn text_cell(s: Seq<char>) -> Cell;
pub broadcast axiom fn ax_text_comparable() ensures #[trigger] comparable(utf8());
pub broadcast axiom fn ax_text_literal(s: Seq<char>) ensures #[trigger] literal(s, utf8()) == Some(text_cell(s));
pub broadcast axiom fn ax_text_order(a: Seq<char>, b: Seq<char>) ensures #[trigger] cell_order(text_cell(a), text_cell(b)) == str_order(a, b);
impl MetaField { /// (meta unit)
    #[verifier::external_body] pub fn schema() -> (r: VArc<Schema>) ensures exists|i: int| 0 <= i < r.v.fs().len() && (#[trigger] r.v.fs()[i]).nm() == commit_time(), forall|i: int| 0 <= i < r.v.fs().len() ==> (#[trigger] r.v.fs()[i]).ty() == utf8() { unimplemented!() } }
pub open spec fn commit_time() -> Seq<char> { meta_name(MetaField::CommitTime) }
impl<T> VArc<T> { pub fn as_ref(&self) -> (r: &T) ensures *r == self.v { &self.v } }
pub open spec fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> { match (a, b) { (Some(x), Some(y)) => Some(x && y), _ => None } }
#[verifier::external_body] pub fn and(a: &BooleanArray, b: &BooleanArray) -> (r: core::result::Result<BooleanArray, ArrowErr>)
    ensures match r { Ok(o) => a.bits().len() == b.bits().len() && o.bits() == Seq::new(a.bits().len(), |i: int| and3(a.bits()[i], b.bits()[i])), Err(_) => a.bits().len() != b.bits().len() } { unimplemented!() }
impl BooleanArray { #[verifier::external_body] pub fn from(v: Vec<bool>) -> (r: BooleanArray) ensures r.bits() == v@.map_values(|b: bool| Some(b)) { unimplemented!() } }
impl RecordBatch { #[verifier::external_body] pub fn column_by_name(&self, n: &str) -> (r: Option<&ArrayRef>)
    ensures match r { Some(a) => find(self.fs(), n@) < self.fs().len() && a.ty() == self.fs()[find(self.fs(), n@)].ty() && a.cells() == column_of(self.rows(), find(self.fs(), n@)), None => find(self.fs(), n@) >= self.fs().len() } { unimplemented!() } }
/// the rows whose bit is set
pub open spec fn masked(rows: Seq<Row>, bits: Seq<Option<bool>>) -> Seq<Row> decreases rows.len() { if rows.len() == 0 { Seq::empty() } else { let r = masked(rows.drop_last(), bits.drop_last()); if bits.last() == Some(true) { r.push(rows.last()) } else { r } } }
#[verifier::external_body] pub fn filter_record_batch(b: &RecordBatch, m: &BooleanArray) -> (r: core::result::Result<RecordBatch, ArrowErr>)
    ensures match r { Ok(o) => m.bits().len() == b.rows().len() && o.sch() == b.sch() && o.rows() == masked(b.rows(), m.bits()), Err(_) => m.bits().len() != b.rows().len() } { unimplemented!() }
/// what a bound filter says of a value
pub open spec fn says_of(f: SchemableFilter, c: Option<Cell>) -> Option<bool> { match (c, f.value.inner.cells()[0]) { (Some(a), Some(b)) => Some(accepts(f.operator, cell_order(a, b))), _ => None } }
pub open spec fn all_say(f: Seq<SchemableFilter>, n: int, c: Option<Cell>) -> Option<bool> decreases n { if n <= 0 { Some(true) } else { and3(all_say(f, n - 1, c), says_of(f[n - 1], c)) } }
/// a commit time later than the start and not later than the end
pub open spec fn in_window(c: Option<Cell>, start: Seq<char>, end: Option<Seq<char>>) -> Option<bool> {
    match c { None => None, Some(a) => Some(cell_order(a, text_cell(start)) == Ordering::Greater && (end matches Some(e) ==> cell_order(a, text_cell(e)) != Ordering::Greater)) }
}
pub open spec fn opt_millis(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(millis(s@)), None => None } }
pub open spec fn commit_cell(b: RecordBatch, i: int) -> Option<Cell> { b.rows()[i][find(b.fs(), commit_time())] }
pub open spec fn window_bits(b: RecordBatch, start: Seq<char>, end: Option<Seq<char>>) -> Seq<Option<bool>> { Seq::new(b.rows().len(), |i: int| in_window(commit_cell(b, i), start, end)) }
pub open spec fn windowed(h: HudiConfigs) -> bool { populated(h) && start_of(h) is Some }
/// the batch has no commit times to compare
pub open spec fn no_times(b: RecordBatch) -> bool { find(b.fs(), commit_time()) >= b.fs().len() || b.fs()[find(b.fs(), commit_time())].ty() != utf8() }
//@type crates/core/src/file_group/reader.rs FileGroupReader
#[verifier::external_body] pub struct Storage { _p: () }
#[verifier::external_body] #[derive(Debug)] pub struct VReadError { _p: () }
/// the rows of a parquet file of the table (C18, parquet by its contract)
pub uninterp spec fn stored_rows(st: Storage, path: Seq<char>, b: RecordBatch) -> bool;
impl VArc<Storage> { #[verifier::external_body] pub fn get_parquet_file_data(&self, path: &str) -> (r: core::result::Result<RecordBatch, VReadError>) ensures match r { Ok(b) => stored_rows(self.v, path@, b), Err(_) => unreadable(self.v, path@) } { unimplemented!() } }
/// the file is not there or is not parquet (storage unit, C15)
pub uninterp spec fn unreadable(st: Storage, path: Seq<char>) -> bool;
pub proof fn lemma_bindable(f: Filter, s: Schema)
    requires unbindable(f, s), f.field_name@ == commit_time(), forall|i: int| 0 <= i < s.fs().len() ==> (#[trigger] s.fs()[i]).ty() == utf8(), exists|i: int| 0 <= i < s.fs().len() && (#[trigger] s.fs()[i]).nm() == commit_time()
    ensures false
{
    broadcast use ax_text_literal;
    let c = choose|c: Field| is_field(s.fs(), f.field_name@, c) && #[trigger] literal(f.field_value@, c.ty()) is None;
    let i = choose|i: int| 0 <= i < s.fs().len() && #[trigger] s.fs()[i] == c && c.nm() == f.field_name@ && forall|j: int| 0 <= j < i ==> (#[trigger] s.fs()[j]).nm() != f.field_name@;
    assert(s.fs()[i].ty() == utf8());
}
//@fn crates/core/src/file_group/reader.rs FileGroupReader::create_filtering_mask_for_base_file_records
@loops 1
@spec
    ensures match ret { Ok(None) => !windowed(self.hudi_configs.v), Ok(Some(m)) => windowed(self.hudi_configs.v) && m.bits() == window_bits(*records, millis(start_of(self.hudi_configs.v)->Some_0@), opt_millis(end_of(self.hudi_configs.v))), Err(_) => windowed(self.hudi_configs.v) && no_times(*records) }
@start
    broadcast use {ax_defaults, ax_text_literal, ax_text_comparable};
    proof { assert forall|f: Filter, s: Schema| #[trigger] unbindable(f, s) && f.field_name@ == commit_time() && (forall|i: int| 0 <= i < s.fs().len() ==> (#[trigger] s.fs()[i]).ty() == utf8()) && (exists|i: int| 0 <= i < s.fs().len() && (#[trigger] s.fs()[i]).nm() == commit_time()) implies false by { lemma_bindable(f, s); } }
    let ghost h = self.hudi_configs.v;
    proof { reveal_strlit(">"); reveal_strlit("<="); lemma_tokens(); }
@closure 0
    |$1: HudiConfigValue| -> (r: String) requires $1 is String ensures r@ == millis($1->String_0@)
@closure 1
    |$1: HudiConfigValue| -> (r: String) requires $1 is String ensures r@ == millis($1->String_0@)
@loop 0 pre
    let ghost fs = and_filters@; let ghost mut n: int = 0;
@loop 0
    invariant 0 <= n <= fs.len(), vx_it0@.len() == fs.len() - n, forall|j: int| 0 <= j < vx_it0@.len() ==> *(#[trigger] vx_it0@[j]) == fs[n + j],
        forall|j: int| 0 <= j < fs.len() ==> (#[trigger] fs[j]).field.nm() == commit_time() && fs[j].value.inner.ty() == utf8(), windowed(self.hudi_configs.v), comparable(utf8()),
        mask.bits() =~= Seq::new(records.rows().len(), |i: int| all_say(fs, n, commit_cell(*records, i))),
    ensures n == fs.len(), mask.bits() =~= Seq::new(records.rows().len(), |i: int| all_say(fs, fs.len() as int, commit_cell(*records, i))),
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(*filter == fs[n]); n = n + 1; }
@loop 0 post
    proof {
        let start = millis(start_of(h)->Some_0@);
        assert(fs[0].operator == ExprOperator::Gt && fs[0].value.inner.cells()[0] == Some(text_cell(start)));
        if end_of(h) is Some { assert(fs.len() == 2); assert(fs[1].operator == ExprOperator::Lte && fs[1].value.inner.cells()[0] == Some(text_cell(millis(end_of(h)->Some_0@)))); } else { assert(fs.len() == 1); }
        reveal_with_fuel(all_say, 4);
        assert forall|c: Option<Cell>| #[trigger] all_say(fs, fs.len() as int, c) == in_window(c, start, opt_millis(end_of(h))) by { }
        assert(mask.bits() =~= window_bits(*records, start, opt_millis(end_of(h))));
    }
//@end

// ---- reading a slice ------------------------------------------------------------------------------------------
/// of a base file's rows, those in the window
pub open spec fn base_gives(rd: FileGroupReader, path: Seq<char>, out: RecordBatch) -> bool { exists|b: RecordBatch| #[trigger] stored_rows(rd.storage.v, path, b) && out.sch() == b.sch() && out.rows() == base_rows(rd.hudi_configs.v, b) }
pub open spec fn base_rows(h: HudiConfigs, b: RecordBatch) -> Seq<Row> { if windowed(h) { masked(b.rows(), window_bits(b, millis(start_of(h)->Some_0@), opt_millis(end_of(h)))) } else { b.rows() } }
/// the file cannot be read, or a window is set and its rows have no commit times
pub open spec fn base_lost(rd: FileGroupReader, path: Seq<char>) -> bool { unreadable(rd.storage.v, path) || exists|b: RecordBatch| #[trigger] stored_rows(rd.storage.v, path, b) && windowed(rd.hudi_configs.v) && no_times(b) }
//@fn crates/core/src/file_group/reader.rs FileGroupReader::read_file_slice_by_base_file_path
@spec
    ensures match ret { Ok(o) => base_gives(*self, relative_path@, o), Err(_) => base_lost(*self, relative_path@) }
//@end
//@type crates/core/src/timeline/selector.rs InstantRange
//@fn crates/core/src/timeline/selector.rs InstantRange::new
@spec
    ensures ret.timezone == timezone, ret.start_timestamp == start_timestamp, ret.end_timestamp == end_timestamp, ret.start_inclusive == start_inclusive, ret.end_inclusive == end_inclusive
//@end
/// after the start, not after the end
pub open spec fn range_of(h: HudiConfigs, r: InstantRange) -> bool { value_of(h, HudiTableConfig::TimelineTimezone) == HudiConfigValue::String(r.timezone) && r.start_timestamp == start_of(h) && r.end_timestamp == end_of(h) && !r.start_inclusive && r.end_inclusive }
//@fn crates/core/src/file_group/reader.rs FileGroupReader::create_instant_range_for_log_file_scan
@spec
    ensures range_of(self.hudi_configs.v, ret)
@start
    broadcast use ax_defaults;
@closure 0
    |$1: HudiConfigValue| -> (r: String) requires $1 is String ensures r == $1->String_0
@closure 1
    |$1: HudiConfigValue| -> (r: String) requires $1 is String ensures r == $1->String_0
//@end
/// PathBuf on a system whose separator is a slash
pub open spec fn path_join(a: Seq<char>, b: Seq<char>) -> Seq<char> { if b.len() > 0 && b[0] == '/' { b } else if a.len() == 0 || a.last() == '/' { a + b } else { a.push('/') + b } }
pub struct VPathBuf { pub t: String }
impl VPathBuf {
    #[verifier::external_body] pub fn from(s: &str) -> (r: VPathBuf) ensures r.t@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, o: &str) -> (r: VPathBuf) ensures r.t@ == path_join(self.t@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some, r->Some_0@ == self.t@ { unimplemented!() }
}
//@fn crates/core/src/file_group/file_slice.rs FileSlice::relative_path_for_file
@spec
    ensures ret matches Ok(p) && p@ == path_join(self.partition_path@, file_name@)
@closure 0
    |$1: &str| -> (r: String) ensures r@ == $1@
//@end
//@fn crates/core/src/file_group/file_slice.rs FileSlice::base_file_relative_path
@spec
    ensures ret matches Ok(p) && p@ == path_join(self.partition_path@, base_name_of(self.base_file))
//@end
//@fn crates/core/src/file_group/file_slice.rs FileSlice::log_file_relative_path
@spec
    ensures ret matches Ok(p) && p@ == path_join(self.partition_path@, log_name_of(*log_file))
//@end
//@type crates/core/src/file_group/log_file/scanner.rs LogFileScanner
//@fn crates/core/src/file_group/log_file/scanner.rs LogFileScanner::new
@spec
    ensures ret.hudi_configs == hudi_configs, ret.storage == storage
//@end
/// the batches of the blocks of these files in the window that no rollback targets (scan's contract in the log unit)
pub uninterp spec fn scanned(h: HudiConfigs, st: Storage, paths: Seq<Seq<char>>, r: InstantRange, out: Seq<Seq<RecordBatch>>) -> bool;
/// one of the files cannot be read or does not follow the format (log unit)
pub uninterp spec fn scan_lost(h: HudiConfigs, st: Storage, paths: Seq<Seq<char>>, r: InstantRange) -> bool;
pub open spec fn texts(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub open spec fn batches(b: Seq<Vec<RecordBatch>>) -> Seq<Seq<RecordBatch>> { b.map_values(|x: Vec<RecordBatch>| x@) }
//@fn crates/core/src/file_group/log_file/scanner.rs LogFileScanner::scan
@trusted
@spec
    ensures match ret { Ok(b) => scanned(self.hudi_configs.v, self.storage.v, texts(relative_paths@), *instant_range, batches(b@)), Err(_) => scan_lost(self.hudi_configs.v, self.storage.v, texts(relative_paths@), *instant_range) }
//@end
//@fn crates/core/src/merge/record_merger.rs RecordMerger::new
@spec
    ensures ret.hudi_configs == hudi_configs
//@end
//@fn crates/core/src/merge/record_merger.rs RecordMerger::merge_record_batches
@trusted
@spec
    ensures fits(self.hudi_configs.v, schema.v.fs(), batches@) ==> match ret { Ok(b) => merge_gives(self.hudi_configs.v, schema.v.fs(), batches@, b.rows()), Err(_) => unmergeable(self.hudi_configs.v, schema.v, batches@) }
//@end
pub trait VxExtend<T> { fn vx_extend(&mut self, v: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() /* self.extend(v) */ } }
pub open spec fn joined(b: Seq<Seq<RecordBatch>>) -> Seq<RecordBatch> decreases b.len() { if b.len() == 0 { Seq::empty() } else { joined(b.drop_last()) + b.last() } }
/// the paths of the slice's log files, oldest version first
pub open spec fn log_paths(s: FileSlice, ps: Seq<Seq<char>>) -> bool {
    exists|ls: Seq<LogFile>| #[trigger] lists_logs(s.log_files@, ls) && ps == ls.map_values(|l: LogFile| path_join(s.partition_path@, log_name_of(l)))
}
pub open spec fn lists_logs(s: Set<LogFile>, ls: Seq<LogFile>) -> bool { covers(s, ls) && forall|i: int, j: int| 0 <= i < j < ls.len() ==> log_order(#[trigger] ls[i], #[trigger] ls[j]) == Ordering::Less }
pub open spec fn lists_refs(s: Set<LogFile>, it: Seq<&LogFile>) -> bool {
    (forall|i: int| 0 <= i < it.len() ==> s.contains(*#[trigger] it[i])) && (forall|e: LogFile| #[trigger] s.contains(e) ==> exists|i: int| 0 <= i < it.len() && *#[trigger] it[i] == e) && forall|i: int, j: int| 0 <= i < j < it.len() ==> (*#[trigger] it[i]).order(*#[trigger] it[j]) == Ordering::Less
}
pub open spec fn named_paths(s: FileSlice, it: Seq<&LogFile>, ps: Seq<Seq<char>>) -> bool { ps.len() == it.len() && forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> ps[i] == path_join(s.partition_path@, log_name_of(*it[i])) }
pub proof fn lemma_log_paths(s: FileSlice, it: Seq<&LogFile>, ps: Seq<Seq<char>>) requires lists_refs(s.log_files@, it), named_paths(s, it, ps) ensures log_paths(s, ps)
{
    let ls = it.map_values(|x: &LogFile| *x);
    assert forall|l: LogFile| #[trigger] s.log_files@.contains(l) implies exists|i: int| 0 <= i < ls.len() && #[trigger] ls[i] == l by { let i = choose|i: int| 0 <= i < it.len() && *#[trigger] it[i] == l; assert(ls[i] == l); }
    assert(lists_logs(s.log_files@, ls));
    assert(ps =~= ls.map_values(|l: LogFile| path_join(s.partition_path@, log_name_of(l))));
}
pub open spec fn base_path_of(s: FileSlice) -> Seq<char> { path_join(s.partition_path@, base_name_of(s.base_file)) }
pub open spec fn only_base(h: HudiConfigs, s: FileSlice) -> bool { s.log_files@ =~= Set::<LogFile>::empty() || read_optimized(h) }
/// the rows are what merging the base rows with the log rows gives
pub open spec fn slice_gives(rd: FileGroupReader, s: FileSlice, out: RecordBatch) -> bool {
    exists|x: RecordBatch, ps: Seq<Seq<char>>, r: InstantRange, l: Seq<Seq<RecordBatch>>| #[trigger] slice_parts(rd, s, x, ps, r, l) && (fits(rd.hudi_configs.v, x.fs(), seq![x] + joined(l)) ==> merge_gives(rd.hudi_configs.v, x.fs(), seq![x] + joined(l), out.rows()))
}
pub open spec fn slice_parts(rd: FileGroupReader, s: FileSlice, x: RecordBatch, ps: Seq<Seq<char>>, r: InstantRange, l: Seq<Seq<RecordBatch>>) -> bool {
    base_gives(rd, base_path_of(s), x) && log_paths(s, ps) && range_of(rd.hudi_configs.v, r) && scanned(rd.hudi_configs.v, rd.storage.v, ps, r, l)
}
/// the log files cannot be scanned, or what they hold cannot be merged
pub open spec fn slice_lost(rd: FileGroupReader, s: FileSlice) -> bool {
    ||| exists|ps: Seq<Seq<char>>, r: InstantRange| #[trigger] log_paths(s, ps) && range_of(rd.hudi_configs.v, r) && #[trigger] scan_lost(rd.hudi_configs.v, rd.storage.v, ps, r)
    ||| exists|x: RecordBatch, ps: Seq<Seq<char>>, r: InstantRange, l: Seq<Seq<RecordBatch>>| #[trigger] slice_parts(rd, s, x, ps, r, l) && (fits(rd.hudi_configs.v, x.fs(), seq![x] + joined(l)) ==> unmergeable(rd.hudi_configs.v, x.sch().v, seq![x] + joined(l)))
}
//@fn crates/core/src/file_group/reader.rs FileGroupReader::read_file_slice
@spec
    ensures ret is Err ==> base_lost(*self, base_path_of(*file_slice)) || !only_base(self.hudi_configs.v, *file_slice) && slice_lost(*self, *file_slice),
        ret matches Ok(o) ==> (if only_base(self.hudi_configs.v, *file_slice) { base_gives(*self, base_path_of(*file_slice), o) } else { slice_gives(*self, *file_slice, o) })
@start
    let ghost h = self.hudi_configs.v;
    proof { assert forall|it: VIter<&LogFile>, ps: Seq<String>| #![trigger it@, texts(ps)] lists_refs(file_slice.log_files@, it@) && named_paths(*file_slice, it@, texts(ps)) implies log_paths(*file_slice, texts(ps)) by { lemma_log_paths(*file_slice, it@, texts(ps)); } }
@closure 0
    |$1: &LogFile| -> (r: Result<String>) ensures r matches Ok(p) && p@ == path_join(file_slice.partition_path@, log_name_of(*$1))
@loop 0 pre
    let ghost (x, ps, r, all) = (all_record_batches@[0], texts(log_file_paths@), instant_range, log_record_batches@);
    proof { assert(batches(all).take(0) =~= Seq::empty()); assert(batches(all).take(all.len() as int) =~= batches(all)); assert(log_paths(*file_slice, ps)); assert(slice_parts(*self, *file_slice, x, ps, r, batches(all))); }
@loop 0
    invariant vx_it0@.len() <= all.len(), vx_it0@ =~= all.skip(all.len() - vx_it0@.len()),
        all_record_batches@ =~= seq![x] + joined(batches(all).take(all.len() - vx_it0@.len())),
        batches(all).take(all.len() as int) == batches(all),
    ensures all_record_batches@ =~= seq![x] + joined(batches(all)),
    decreases vx_it0@.len()
@loop 0 start
    proof { let n = all.len() - vx_it0@.len() - 1; let b = batches(all); assert(log_record_batch == all[n]); assert(b.take(n + 1).drop_last() =~= b.take(n)); assert(b.take(n + 1).last() == log_record_batch@); }
//@end
}
