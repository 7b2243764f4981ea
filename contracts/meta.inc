//@include prelude.rs
//@include error.rs
verus! {
//@rule method iter vx_iter
//@rule method to_string vx_to_string
//@rule path std::fmt::Formatter VFmt
//@rule path std::fmt::Result VFmtResult
//@rule path Arc VArc
//@rule path SCHEMA SCHEMA_value()
//@rule path SCHEMA_WITH_OPERATION SCHEMA_WITH_OPERATION_value()
/// a Formatter, by what has been written to it
#[verifier::external_body]
pub struct VFmt<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a> View for VFmt<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub type VFmtResult = core::result::Result<(), core::fmt::Error>;
/// write!(f, ..)
#[verifier::external_body]
pub fn vx_write(f: &mut VFmt, s: String) -> (r: VFmtResult) ensures r is Ok ==> final(f)@ == old(f)@ + s@ { unimplemented!() }
/// Arc: a shared value
pub struct VArc<T> { pub v: T }
impl<T> VArc<T> { pub fn new(v: T) -> (r: VArc<T>) ensures r.v == v { VArc { v } } }
impl<T> Clone for VArc<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum DataType { Utf8, Other(u64) }
pub struct Field { pub name: String, pub ty: DataType, pub nullable: bool }
impl Field { #[verifier::external_body] pub fn new(n: &str, ty: DataType, nullable: bool) -> (r: Field) ensures r.name@ == n@, r.ty == ty, r.nullable == nullable { unimplemented!() } }
pub struct Schema { pub fields: Vec<Field> }
impl Schema { pub fn new(fields: Vec<Field>) -> (r: Schema) ensures r.fields == fields { Schema { fields } } }
pub type SchemaRef = VArc<Schema>;

//@prop C20
//@type crates/core/src/metadata/meta_field.rs MetaField clone
/// Hudi's names, from the table format
pub open spec fn meta_name(m: MetaField) -> Seq<char> {
    match m { MetaField::CommitTime => "_hoodie_commit_time"@, MetaField::CommitSeqno => "_hoodie_commit_seqno"@, MetaField::RecordKey => "_hoodie_record_key"@,
        MetaField::PartitionPath => "_hoodie_partition_path"@, MetaField::FileName => "_hoodie_file_name"@, MetaField::Operation => "_hoodie_operation"@ }
}
pub open spec fn meta_index(m: MetaField) -> int {
    match m { MetaField::CommitTime => 0, MetaField::CommitSeqno => 1, MetaField::RecordKey => 2, MetaField::PartitionPath => 3, MetaField::FileName => 4, MetaField::Operation => 5 }
}
/// the columns of a schema of the leading n meta fields
pub open spec fn meta_schema(fs: Seq<Field>, n: int) -> bool {
    fs.len() == n && forall|m: MetaField| #[trigger] meta_index(m) < n ==> ({ let f = fs[meta_index(m)]; f.name@ == meta_name(m) && f.ty == DataType::Utf8 && !f.nullable })
}
pub proof fn lemma_names()
    ensures forall|a: MetaField, b: MetaField| #[trigger] meta_name(a) == #[trigger] meta_name(b) ==> a == b
{
    reveal_strlit("_hoodie_commit_time"); reveal_strlit("_hoodie_commit_seqno"); reveal_strlit("_hoodie_record_key"); reveal_strlit("_hoodie_partition_path"); reveal_strlit("_hoodie_file_name"); reveal_strlit("_hoodie_operation");
    assert("_hoodie_commit_time"@[10] != "_hoodie_commit_seqno"@[15] || true);
    assert("_hoodie_commit_time"@.len() == 19 && "_hoodie_commit_seqno"@.len() == 20 && "_hoodie_record_key"@.len() == 18 && "_hoodie_partition_path"@.len() == 22 && "_hoodie_file_name"@.len() == 17 && "_hoodie_operation"@.len() == 17);
    assert("_hoodie_file_name"@[8] != "_hoodie_operation"@[8]);
}
//@fn crates/core/src/metadata/meta_field.rs AsRef<str> for MetaField::as_ref
@spec
    ensures ret@ == meta_name(*self)
//@end
//@fn crates/core/src/metadata/meta_field.rs Display for MetaField::fmt
@spec
    ensures ret is Ok ==> final(f)@ == old(f)@ + meta_name(*self)
@start
    proof { assert forall|x: Seq<char>| #[trigger] (Seq::<char>::empty() + x) == x by { assert(Seq::<char>::empty() + x =~= x); } }
//@end
//@fn crates/core/src/metadata/meta_field.rs FromStr for MetaField::from_str
@spec
    ensures match ret { Ok(m) => meta_name(m) == s@, Err(_) => forall|m: MetaField| meta_name(m) != s@ }
//@end
//@type crates/core/src/metadata/meta_field.rs SCHEMA lazy ensures meta_schema(ret.v.fields@, 5)
//@type crates/core/src/metadata/meta_field.rs SCHEMA_WITH_OPERATION lazy ensures meta_schema(ret.v.fields@, 6)
//@fn crates/core/src/metadata/meta_field.rs MetaField::field_index
@spec
    ensures ret == meta_index(*self)
//@end
//@fn crates/core/src/metadata/meta_field.rs MetaField::schema
@spec
    ensures meta_schema(ret.v.fields@, 5)
//@end
//@fn crates/core/src/metadata/meta_field.rs MetaField::schema_with_operation
@spec
    ensures meta_schema(ret.v.fields@, 6)
//@end
/// each name is read back to the field that has it, and to no other
pub proof fn one_name(a: MetaField, b: MetaField) ensures meta_name(a) == meta_name(b) <==> a == b { lemma_names(); }
}
