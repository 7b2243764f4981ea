//@include expr.inc
//@include config_use.inc
verus! {
//@rules reset
//@rule eq_ops
//@rule opaque_fmt
//@rule method iter vx_iter
//@rule method cmp vx_cmp
//@rule method to_string vx_to_string
//@rule method to_ascii_lowercase vx_to_ascii_lowercase
//@rule path Arc VArc
//@rule path HashMap VMap
//@rule path SchemaRef VArc<Schema>
//@rule path ArrowError::CastError vx_cast_error
//@rule path error::Result ConfigResult
//@rule path InvalidValue ConfigError::InvalidValue
pub type ConfigResult<T, E = ConfigError> = core::result::Result<T, E>;
//@prop C11 C12
// ---- tables of rows: arrow by assumed contract --------------------------------------------------------
/// Arc: a shared value
pub struct VArc<T> { pub v: T }
impl<T> VArc<T> { pub fn new(v: T) -> (r: VArc<T>) ensures r.v == v { VArc { v } } }
impl<T> Clone for VArc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type Row = Seq<Option<Cell>>;
#[verifier::external_body] pub struct RecordBatch { _p: () }
/// the place of the first column of that name, or the number of columns
pub open spec fn find(fs: Seq<Field>, n: Seq<char>) -> int decreases fs.len() { if fs.len() == 0 { 0 } else if fs[0].nm() == n { 0 } else { 1 + find(fs.drop_first(), n) } }
impl RecordBatch {
    pub uninterp spec fn sch(&self) -> VArc<Schema>;
    pub uninterp spec fn rows(&self) -> Seq<Row>;
    pub open spec fn fs(&self) -> Seq<Field> { self.sch().v.fs() }
    #[verifier::external_body] pub fn schema(&self) -> (r: VArc<Schema>) ensures r == self.sch() { unimplemented!() }
    #[verifier::external_body] pub fn schema_ref(&self) -> (r: &VArc<Schema>) ensures *r == self.sch() { unimplemented!() }
    #[verifier::external_body] pub fn num_rows(&self) -> (r: usize) ensures r == self.rows().len() { unimplemented!() }
    #[verifier::external_body] pub fn column(&self, i: usize) -> (r: &ArrayRef) requires i < self.fs().len() ensures r.cells() == column_of(self.rows(), i as int), r.ty() == self.fs()[i as int].ty() { unimplemented!() }
    #[verifier::external_body] pub fn new_empty(s: VArc<Schema>) -> (r: RecordBatch) ensures r.sch() == s, r.rows().len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn project(&self, ix: &Vec<usize>) -> (r: core::result::Result<RecordBatch, ArrowErr>)
        ensures match r { Ok(b) => b.fs().len() == ix@.len() && b.rows() == projected(self.rows(), ix@), Err(_) => exists|k: int| 0 <= k < ix@.len() && (#[trigger] ix@[k]) >= self.fs().len() } { unimplemented!() }
}
pub open spec fn projected(rows: Seq<Row>, ix: Seq<usize>) -> Seq<Row> { rows.map_values(|r: Row| Seq::new(ix.len(), |k: int| r[ix[k] as int])) }
pub open spec fn column_of(rows: Seq<Row>, k: int) -> Seq<Option<Cell>> { Seq::new(rows.len(), |i: int| rows[i][k]) }
impl VArc<Schema> {
    #[verifier::external_body] pub fn fields<'a>(&'a self) -> (r: &'a Vec<Field>) ensures r@ == self.v.fs() { unimplemented!() }
    #[verifier::external_body] pub fn index_of(&self, n: &str) -> (r: core::result::Result<usize, ArrowErr>) ensures match r { Ok(i) => i == find(self.v.fs(), n@) && i < self.v.fs().len(), Err(_) => find(self.v.fs(), n@) >= self.v.fs().len() } { unimplemented!() }
}
impl vstd::std_specs::convert::FromSpecImpl<ArrowErr> for CoreError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ArrowErr) -> CoreError { CoreError::ArrowError(e) } }
impl core::convert::From<ArrowErr> for CoreError { fn from(e: ArrowErr) -> CoreError { CoreError::ArrowError(e) } }
#[verifier::external_body] pub fn vx_cast_error(s: String) -> (r: ArrowErr) { unimplemented!() }
impl Clone for ArrayRef { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for StringArray { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the text of a cell of a column of texts
pub uninterp spec fn cell_text(c: Option<Cell>) -> Seq<char>;
pub uninterp spec fn utf8() -> DataType;
pub trait VxArr: Sized { spec fn holds(&self, c: Seq<Option<Cell>>) -> bool; spec fn holds_ty(t: DataType) -> bool; }
impl VxArr for StringArray { open spec fn holds_ty(t: DataType) -> bool { t == utf8() } open spec fn holds(&self, c: Seq<Option<Cell>>) -> bool { self.strs() == c.map_values(|x: Option<Cell>| cell_text(x)) } }
impl ArrayRef {
    pub fn as_any(&self) -> (r: &ArrayRef) ensures r == self { self }
    #[verifier::external_body] pub fn downcast_ref<T: VxArr>(&self) -> (r: Option<&T>) ensures match r { Some(t) => t.holds(self.cells()), None => !T::holds_ty(self.ty()) } { unimplemented!() }
    #[verifier::external_body] pub fn data_type(&self) -> (r: &DataType) ensures *r == self.ty() { unimplemented!() }
}
impl StringArray {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.strs().len() { unimplemented!() }
    #[verifier::external_body] pub fn value<'a>(&'a self, i: usize) -> (r: &'a str) requires i < self.strs().len() ensures r@ == self.strs()[i as int] { unimplemented!() }
}
/// an array of row numbers
pub struct UInt32Array { pub v: Vec<u32> }
impl UInt32Array {
    pub fn values(&self) -> (r: &Vec<u32>) ensures *r == self.v { &self.v }
    #[verifier::external_body] pub fn from_iter_values(it: VIter<u32>) -> (r: UInt32Array) ensures r.v@ == it@ { unimplemented!() }
}
impl VxFromIter<u32> for UInt32Array { open spec fn from_seq(s: Seq<u32>, r: Self) -> bool { r.v@ == s } }
pub open spec fn flat(b: Seq<RecordBatch>) -> Seq<Row> decreases b.len() { if b.len() == 0 { Seq::empty() } else { flat(b.drop_last()) + b.last().rows() } }
/// puts batches one after the other, column by column: by place, not by name
#[verifier::external_body] pub fn concat_batches(s: &VArc<Schema>, b: &Vec<RecordBatch>) -> (r: core::result::Result<RecordBatch, ArrowErr>)
    requires forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]).fs().len() == s.v.fs().len()
    ensures match r { Ok(x) => x.sch() == *s && x.rows() == flat(b@), Err(_) => some_unfit(s.v, b@) } { unimplemented!() }
/// a column of the batch is not of the type of the schema's column at its place, or has nulls there where the schema has none
pub uninterp spec fn unfit(s: Schema, b: RecordBatch) -> bool;
pub open spec fn some_unfit(s: Schema, b: Seq<RecordBatch>) -> bool { exists|i: int| 0 <= i < b.len() && unfit(s, #[trigger] b[i]) }
pub open spec fn picked(rows: Seq<Row>, ix: Seq<u32>) -> Seq<Row> { ix.map_values(|j: u32| rows[j as int]) }
#[verifier::external_body] pub fn take_record_batch(b: &RecordBatch, ix: &UInt32Array) -> (r: core::result::Result<RecordBatch, ArrowErr>)
    requires forall|i: int| 0 <= i < ix.v@.len() ==> (#[trigger] ix.v@[i]) < b.rows().len()
    ensures r matches Ok(x) && x.sch() == b.sch() && x.rows() == picked(b.rows(), ix.v@) { unimplemented!() }

// ---- the order of rows -----------------------------------------------------------------------------------
pub open spec fn opt_order(a: Option<Cell>, b: Option<Cell>) -> Ordering { match (a, b) { (None, None) => Ordering::Equal, (None, Some(_)) => Ordering::Less, (Some(_), None) => Ordering::Greater, (Some(x), Some(y)) => cell_order(x, y) } }
/// the order of two rows of sort columns: by the first column, then by the next
pub open spec fn lex(a: Row, b: Row) -> Ordering decreases a.len() { if a.len() == 0 || b.len() == 0 { Ordering::Equal } else if opt_order(a[0], b[0]) != Ordering::Equal { opt_order(a[0], b[0]) } else { lex(a.drop_first(), b.drop_first()) } }
pub open spec fn keys_of(a: Seq<ArrayRef>, i: int) -> Row { Seq::new(a.len(), |k: int| a[k].cells()[i]) }
pub struct SortField { pub ty: DataType }
impl SortField { pub fn new(ty: DataType) -> (r: SortField) ensures r.ty == ty { SortField { ty } } }
pub struct RowConverter { pub f: Vec<SortField> }
#[verifier::external_body] pub struct VRows { _p: () }
/// a row in arrow's row format: it compares as the cells it was made of, nulls first
#[verifier::external_body] pub struct VRow { _p: () }
impl VRow { pub uninterp spec fn cells(&self) -> Row; #[verifier::external_body] pub fn vx_cmp(&self, o: &VRow) -> (r: Ordering) ensures r == lex(self.cells(), o.cells()) { unimplemented!() } }
/// arrow's row format takes the type
pub uninterp spec fn sortable(t: DataType) -> bool;
impl RowConverter {
    #[verifier::external_body] pub fn new(f: Vec<SortField>) -> (r: core::result::Result<RowConverter, VArrowError>) ensures (forall|i: int| 0 <= i < f@.len() ==> sortable((#[trigger] f@[i]).ty)) ==> r is Ok, r matches Ok(c) ==> c.f == f { unimplemented!() }
    #[verifier::external_body] pub fn convert_columns(&self, a: &[ArrayRef]) -> (r: core::result::Result<VRows, VArrowError>)
        ensures a@.len() == self.f@.len() && a@.len() > 0 && (forall|i: int| #![trigger a@[i]] 0 <= i < a@.len() ==> a@[i].ty() == self.f@[i].ty && a@[i].cells().len() == a@[0].cells().len()) ==> r is Ok,
            r matches Ok(x) ==> x.all() == Seq::new(a@[0].cells().len(), |i: int| keys_of(a@, i)) { unimplemented!() }
}
impl VRows { pub uninterp spec fn all(&self) -> Seq<Row>; #[verifier::external_body] pub fn vx_iter(&self) -> (r: VIter<VRow>) ensures r@.len() == self.all().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).cells() == self.all()[i] { unimplemented!() } }
impl<T> VIter<T> { #[verifier::external_body] pub fn enumerate(self) -> (r: VIter<(usize, T)>) ensures r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])), self@.len() <= usize::MAX { unimplemented!() } }
impl<'a, T: Copy> VIter<&'a T> { #[verifier::external_body] pub fn copied(self) -> (r: VIter<T>) ensures r@ == self@.map_values(|x: &T| *x) { unimplemented!() } }
pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>) -> bool { b.to_multiset() == a.to_multiset() }
pub open spec fn numbered<T>(a: Seq<(usize, T)>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == i }
pub proof fn lemma_permuted<T>(a: Seq<(usize, T)>, b: Seq<(usize, T)>) requires numbered(a), permuted(a, b)
    ensures b.len() == a.len(), forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 < a.len() && b[i] == a[b[i].0 as int], forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 != (#[trigger] b[j]).0
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(a[i].0 == i && a[j].0 == j); } }
    a.lemma_multiset_has_no_duplicates();
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 < a.len() && b[i] == a[b[i].0 as int] by {
        assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.to_multiset().count(b[i]) > 0); assert(a.contains(b[i]));
        let k = choose|k: int| 0 <= k < a.len() && a[k] == b[i]; assert(a[k].0 == k);
    }
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 != (#[trigger] b[j]).0 by { assert(b[i] != b[j]); }
}
pub open spec fn sorted_pair<T, F: Fn(&T, &T) -> Ordering>(f: F, a: T, b: T) -> bool { exists|o: Ordering| o != Ordering::Greater && #[trigger] f.ensures((&a, &b), o) }
pub trait VxSortBy<T> { fn sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) requires forall|a: T, b: T| #[trigger] f.requires((&a, &b)); }
impl<T> VxSortBy<T> for Vec<T> {
    #[verifier::external_body] fn sort_unstable_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        ensures permuted(old(self)@, final(self)@),
            forall|i: int, j: int| 0 <= i < j < final(self)@.len() ==> sorted_pair(f, #[trigger] final(self)@[i], #[trigger] final(self)@[j])
    { unimplemented!() }
}
/// ix orders the rows, each once: no row is followed by one that goes before it
pub open spec fn orders(ix: Seq<u32>, rows: Seq<Row>, desc: bool) -> bool {
    &&& ix.len() == rows.len()
    &&& forall|i: int| 0 <= i < ix.len() ==> (#[trigger] ix[i]) < rows.len()
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> (#[trigger] ix[i]) != (#[trigger] ix[j])
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> (if desc { lex(rows[(#[trigger] ix[j]) as int], rows[(#[trigger] ix[i]) as int]) } else { lex(rows[ix[i] as int], rows[ix[j] as int]) }) != Ordering::Greater
}
pub open spec fn key_rows(a: Seq<ArrayRef>) -> Seq<Row> { Seq::new(a[0].cells().len(), |i: int| keys_of(a, i)) }
/// no column has more rows than a row number counts, and columns are as long as each other
pub open spec fn even(a: Seq<ArrayRef>) -> bool { a.len() > 0 && a[0].cells().len() <= u32::MAX && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).cells().len() == a[0].cells().len() && sortable(a[i].ty()) }
//@fn crates/core/src/util/arrow.rs lexsort_to_indices
@spec
    requires even(arrays@)
    ensures orders(ret.v@, key_rows(arrays@), desc)
@start
    proof { assert forall|a: Seq<(usize, VRow)>, b: Seq<(usize, VRow)>| #[trigger] permuted(a, b) && numbered(a) implies b.len() == a.len() && (forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).0 < a.len() && b[i] == a[b[i].0 as int]) && (forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[i]).0 != (#[trigger] b[j]).0) by { lemma_permuted(a, b); } }
@closure 0
    |$1: &ArrayRef| -> (r: SortField) ensures r.ty == $1.ty()
@closure 1
    |$1: &(usize, VRow), $2: &(usize, VRow)| -> (r: Ordering) ensures r == lex((*$2).1.cells(), (*$1).1.cells())
@closure 2
    |$1: &(usize, VRow), $2: &(usize, VRow)| -> (r: Ordering) ensures r == lex((*$1).1.cells(), (*$2).1.cells())
@closure 3
    |$1: &(usize, VRow)| -> (r: u32) ensures r == (*$1).0 as u32
//@end
//@fn crates/core/src/util/arrow.rs ColumnAsArray for RecordBatch::get_array
@spec
    ensures match ret { Ok(a) => find(self.fs(), column_name@) < self.fs().len() && a.cells() == column_of(self.rows(), find(self.fs(), column_name@)) && a.ty() == self.fs()[find(self.fs(), column_name@)].ty(), Err(_) => find(self.fs(), column_name@) >= self.fs().len() }
//@end
//@fn crates/core/src/util/arrow.rs ColumnAsArray for RecordBatch::get_string_array
@spec
    ensures match ret { Ok(a) => find(self.fs(), column_name@) < self.fs().len() && a.holds(column_of(self.rows(), find(self.fs(), column_name@))), Err(_) => find(self.fs(), column_name@) >= self.fs().len() || self.fs()[find(self.fs(), column_name@)].ty() != utf8() }
@closure 0
    || -> (r: ArrowErr)
//@end
// ---- what merging gives ---------------------------------------------------------------------------------
/// the strategy a text names, in any letter case
pub open spec fn names_strategy(s: Seq<char>) -> Option<Seq<char>> { let l = ascii_lower(s); if l == "append_only"@ { Some("append_only"@) } else if l == "overwrite_with_latest"@ { Some("overwrite_with_latest"@) } else { None } }
//@type crates/core/src/metadata/meta_field.rs MetaField clone
/// Hudi's names, from the table format
pub open spec fn meta_name(m: MetaField) -> Seq<char> {
    match m { MetaField::CommitTime => "_hoodie_commit_time"@, MetaField::CommitSeqno => "_hoodie_commit_seqno"@, MetaField::RecordKey => "_hoodie_record_key"@,
        MetaField::PartitionPath => "_hoodie_partition_path"@, MetaField::FileName => "_hoodie_file_name"@, MetaField::Operation => "_hoodie_operation"@ }
}
//@fn crates/core/src/metadata/meta_field.rs AsRef<str> for MetaField::as_ref
@spec
    ensures ret@ == meta_name(*self)
//@end
/// the merge strategy in force: the one set, else the one the table's other options imply (config unit)
pub uninterp spec fn strategy_text(h: HudiConfigs) -> Seq<char>;
pub open spec fn keeps_all(h: HudiConfigs) -> bool { names_strategy(strategy_text(h)) == Some("append_only"@) }
pub open spec fn keeps_latest(h: HudiConfigs) -> bool { names_strategy(strategy_text(h)) == Some("overwrite_with_latest"@) }
/// an option, as HudiConfigs' methods take it
pub trait VxOption: Sized { spec fn tried(self, h: HudiConfigs) -> Option<HudiConfigValue>; spec fn has_default(self) -> bool; spec fn reads(self, h: HudiConfigs, v: HudiConfigValue) -> bool; spec fn of_kind(self, v: HudiConfigValue) -> bool; }
impl VxOption for HudiTableConfig {
    open spec fn tried(self, h: HudiConfigs) -> Option<HudiConfigValue> { cfg_try(h, self) }
    open spec fn has_default(self) -> bool { cfg_default(self) is Some || self == HudiTableConfig::RecordMergeStrategy }
    open spec fn reads(self, h: HudiConfigs, v: HudiConfigValue) -> bool { (cfg_default(self) is Some ==> v == (match cfg_try(h, self) { Some(x) => x, None => cfg_default(self)->Some_0 })) && (self == HudiTableConfig::RecordMergeStrategy ==> v is String && v->String_0@ == strategy_text(h) && (keeps_all(h) || keeps_latest(h))) }
    open spec fn of_kind(self, v: HudiConfigValue) -> bool { kind_ok(self, v) }
}
impl VArc<HudiConfigs> {
    #[verifier::external_body] pub fn get_or_default<C: VxOption>(&self, c: C) -> (r: HudiConfigValue) requires c.has_default() ensures c.of_kind(r), c.reads(self.v, r) { unimplemented!() }
    #[verifier::external_body] pub fn try_get<C: VxOption>(&self, c: C) -> (r: Option<HudiConfigValue>) ensures r == c.tried(self.v), r matches Some(v) ==> c.of_kind(v) { unimplemented!() }
    #[verifier::external_body] pub fn get<C: VxOption>(&self, c: C) -> (r: ConfigResult<HudiConfigValue>) ensures match r { Ok(v) => c.of_kind(v) && c.tried(self.v) == Some(v), Err(_) => c.tried(self.v) is None } { unimplemented!() }
}
/// the columns of a schema, by name
pub open spec fn by_name(fs: Seq<Field>, from: Seq<Field>, r: Row) -> Row { Seq::new(fs.len(), |k: int| r[find(from, fs[k].nm())]) }
pub open spec fn named_rows(fs: Seq<Field>, b: RecordBatch) -> Seq<Row> { b.rows().map_values(|r: Row| by_name(fs, b.fs(), r)) }
pub proof fn lemma_projected(fs: Seq<Field>, b: RecordBatch, ix: Seq<usize>) requires ix.len() == fs.len(), forall|k: int| 0 <= k < ix.len() ==> #[trigger] ix[k] == find(b.fs(), fs[k].nm()) ensures projected(b.rows(), ix) == named_rows(fs, b)
{
    assert forall|i: int| 0 <= i < b.rows().len() implies projected(b.rows(), ix)[i] == named_rows(fs, b)[i] by { let r = b.rows()[i]; assert(Seq::new(ix.len(), |k: int| r[ix[k] as int]) =~= by_name(fs, b.fs(), r)) by { assert forall|k: int| 0 <= k < fs.len() implies r[ix[k] as int] == r[find(b.fs(), fs[k].nm())] by { let z = ix[k]; } } }
    assert(projected(b.rows(), ix) =~= named_rows(fs, b));
}
/// the rows of all the batches, in order, their columns by name
pub open spec fn all_rows(fs: Seq<Field>, b: Seq<RecordBatch>) -> Seq<Row> decreases b.len() { if b.len() == 0 { Seq::empty() } else { all_rows(fs, b.drop_last()) + named_rows(fs, b.last()) } }
/// what rows of one record are ordered by: the precombine column, then the commit sequence number
pub open spec fn version(fs: Seq<Field>, pre: Seq<char>, r: Row) -> Row { seq![r[find(fs, pre)], r[find(fs, meta_name(MetaField::CommitSeqno))]] }
pub open spec fn row_key(fs: Seq<Field>, r: Row) -> Seq<char> { cell_text(r[find(fs, meta_name(MetaField::RecordKey))]) }
/// ix picks one row of each record, none of whose rows is newer
pub open spec fn latest(fs: Seq<Field>, pre: Seq<char>, rows: Seq<Row>, ix: Seq<u32>) -> bool {
    &&& forall|i: int| 0 <= i < ix.len() ==> (#[trigger] ix[i]) < rows.len()
    &&& forall|i: int, j: int| 0 <= i < j < ix.len() ==> row_key(fs, rows[(#[trigger] ix[i]) as int]) != row_key(fs, rows[(#[trigger] ix[j]) as int])
    &&& forall|r: int| 0 <= r < rows.len() ==> #[trigger] kept(fs, pre, rows, r, ix)
}
pub open spec fn kept(fs: Seq<Field>, pre: Seq<char>, rows: Seq<Row>, r: int, ix: Seq<u32>) -> bool { exists|i: int| 0 <= i < ix.len() && #[trigger] not_newer(fs, pre, rows, r, ix[i] as int) }
pub open spec fn not_newer(fs: Seq<Field>, pre: Seq<char>, rows: Seq<Row>, r: int, i: int) -> bool { row_key(fs, rows[i]) == row_key(fs, rows[r]) && lex(version(fs, pre, rows[r]), version(fs, pre, rows[i])) != Ordering::Greater }
//@type crates/core/src/merge/record_merger.rs RecordMerger
/// arrow's row format takes the column
pub open spec fn sorts(fs: Seq<Field>, n: Seq<char>) -> bool { sortable(fs[find(fs, n)].ty()) }
/// what a merge of these batches takes: fewer rows than a row number counts, columns the row format takes
pub open spec fn fits(h: HudiConfigs, fs: Seq<Field>, b: Seq<RecordBatch>) -> bool {
    all_rows(fs, b).len() <= u32::MAX && (cfg_try(h, HudiTableConfig::PrecombineField) matches Some(HudiConfigValue::String(p)) ==> sorts(fs, p@)) && sorts(fs, meta_name(MetaField::CommitSeqno))
}
/// the columns with which a merge tells versions apart are not there, or are not what they have to be
pub open spec fn no_versions(h: HudiConfigs, fs: Seq<Field>) -> bool {
    ||| match cfg_try(h, HudiTableConfig::PrecombineField) { Some(HudiConfigValue::String(p)) => find(fs, p@) >= fs.len(), _ => true }
    ||| find(fs, meta_name(MetaField::CommitSeqno)) >= fs.len()
    ||| find(fs, meta_name(MetaField::RecordKey)) >= fs.len() || fs[find(fs, meta_name(MetaField::RecordKey))].ty() != utf8()
}
/// the batch lacks a column of the schema
pub open spec fn lacks_column(fs: Seq<Field>, b: RecordBatch) -> bool { exists|k: int| 0 <= k < fs.len() && find(b.fs(), (#[trigger] fs[k]).nm()) >= b.fs().len() }
pub open spec fn some_lack(fs: Seq<Field>, b: Seq<RecordBatch>) -> bool { exists|i: int| 0 <= i < b.len() && lacks_column(fs, #[trigger] b[i]) }
/// why batches cannot be merged: one lacks a column or does not fit the schema, or versions cannot be told apart
pub open spec fn unmergeable(h: HudiConfigs, s: Schema, b: Seq<RecordBatch>) -> bool {
    ||| some_lack(s.fs(), b)
    ||| exists|to: Seq<RecordBatch>| #[trigger] selected(s.fs(), b, to) && some_unfit(s, to)
    ||| keeps_latest(h) && all_rows(s.fs(), b).len() > 0 && no_versions(h, s.fs())
}
pub open spec fn selected(fs: Seq<Field>, from: Seq<RecordBatch>, to: Seq<RecordBatch>) -> bool { from.len() == to.len() && forall|i: int| #![trigger to[i]] 0 <= i < to.len() ==> to[i].fs().len() == fs.len() && to[i].rows() == named_rows(fs, from[i]) }
/// the rows a merge gives: all of them in order, or of each record one that none is newer than
pub open spec fn merge_gives(h: HudiConfigs, fs: Seq<Field>, b: Seq<RecordBatch>, out: Seq<Row>) -> bool {
    &&& keeps_all(h) ==> out == all_rows(fs, b)
    &&& keeps_latest(h) ==> exists|pre: Seq<char>, ix: Seq<u32>| #[trigger] latest(fs, pre, all_rows(fs, b), ix) && out == picked(all_rows(fs, b), ix) && (all_rows(fs, b).len() > 0 ==> (cfg_try(h, HudiTableConfig::PrecombineField) matches Some(HudiConfigValue::String(p)) && p@ == pre))
}
}
