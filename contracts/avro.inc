//@include prelude.rs
//@include collections.rs
//@include error.rs
verus! {
//@rules reset
//@rule opaque_fmt
//@rule method iter vx_iter
//@rule method into vx_into
//@rule method to_string vx_to_string
//@rule path Result core::result::Result
//@rule path ArrowResult ArrowResult
//@rule path AvroResult AvroResult
//@rule path ArrowError ArrowErr
//@rule path SchemaError vx_schema_error
//@rule path BTreeMap VMap
//@prop C19
// ---- the types of apache_avro and arrow the code works on --------------------------------------------------
#[verifier::external_body] pub struct BigDecimal { _p: () }
#[verifier::external_body] pub struct Decimal { _p: () }
#[verifier::external_body] pub struct AvroDuration { _p: () }
#[verifier::external_body] pub struct Uuid { _p: () }
pub uninterp spec fn uuid_bytes(u: Uuid) -> Seq<u8>;
impl Uuid { #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8; 16]) ensures r@ == uuid_bytes(*self), uuid_bytes(*self).len() == 16 { unimplemented!() } }
/// apache_avro::types::Value
pub enum Value {
    Null, Boolean(bool), Int(i32), Long(i64), Float(f32), Double(f64), Bytes(Vec<u8>), String(String), Fixed(usize, Vec<u8>), Enum(u32, String),
    Union(u32, Box<Value>), Array(Vec<Value>), Map(VMap<String, Value>), Record(Vec<(String, Value)>), Date(i32), Decimal(Decimal), BigDecimal(BigDecimal),
    TimeMillis(i32), TimeMicros(i64), TimestampMillis(i64), TimestampMicros(i64), TimestampNanos(i64),
    LocalTimestampMillis(i64), LocalTimestampMicros(i64), LocalTimestampNanos(i64), Duration(AvroDuration), Uuid(Uuid),
}
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Value) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct ValueKind { _p: () }
pub trait VxInto { type To; spec fn as_to(self, r: Self::To) -> bool; fn vx_into(self) -> (r: Self::To) ensures self.as_to(r); }
impl VxInto for &Value { type To = ValueKind; open spec fn as_to(self, r: ValueKind) -> bool { true } #[verifier::external_body] fn vx_into(self) -> ValueKind { unimplemented!() } }
impl VxInto for Value { type To = ValueKind; open spec fn as_to(self, r: ValueKind) -> bool { true } #[verifier::external_body] fn vx_into(self) -> ValueKind { unimplemented!() } }
#[derive(PartialEq, Eq, Structural, Clone, Copy)] pub enum SchemaKind { Union, Other }
#[verifier::external_body] pub fn vx_kind(v: &Value) -> (r: SchemaKind) ensures r == SchemaKind::Union <==> v is Union { unimplemented!() /* SchemaKind::from(v) */ }
pub type AvroResult<T> = core::result::Result<T, AvroErr>;
pub type ArrowResult<T> = core::result::Result<T, ArrowErr>;
#[verifier::external_body] pub struct FromUtf8Error { _p: () }
#[verifier::external_body] pub fn vx_schema_error(s: String) -> ArrowErr { unimplemented!() }
#[verifier::external_body] pub fn vx_parse_error(s: String) -> ArrowErr { unimplemented!() }
#[verifier::external_body] pub fn vx_err_kind(k: ValueKind) -> AvroErr { unimplemented!() }
#[verifier::external_body] pub fn vx_err_utf8(k: FromUtf8Error) -> AvroErr { unimplemented!() }
#[verifier::external_body] pub fn vx_from_utf8(b: Vec<u8>) -> core::result::Result<String, FromUtf8Error> { unimplemented!() /* String::from_utf8(b) */ }
pub assume_specification [String::into_bytes] (s: String) -> (r: Vec<u8>) ensures r@ == vstd::utf8::encode_utf8(s@);
pub fn vx_some<T>(x: T) -> (r: Option<T>) ensures r == Some(x) { Some(x) }

// ---- what a value means, whatever type it is read as ----------------------------------------------------------
pub enum Cell { Null, Bool(bool), Int(int), F32(f32), F64(f64), Text(Seq<char>), Bytes(Seq<u8>), List(Seq<Cell>), Rec(Seq<Cell>), Other(Value) }
pub open spec fn unw(v: Value) -> Value { match v { Value::Union(_, b) => *b, _ => v } }
pub open spec fn cell(v: Value) -> Cell decreases v, 1nat { match v { Value::Union(_, b) => cell_plain(*b), _ => cell_plain(v) } }
pub open spec fn cell_plain(v: Value) -> Cell decreases v, 0nat {
    match v {
        Value::Null => Cell::Null,
        Value::Boolean(b) => Cell::Bool(b),
        Value::Int(i) => Cell::Int(i as int), Value::Date(i) => Cell::Int(i as int), Value::TimeMillis(i) => Cell::Int(i as int),
        Value::Long(i) => Cell::Int(i as int), Value::TimeMicros(i) => Cell::Int(i as int),
        Value::TimestampMillis(i) => Cell::Int(i as int), Value::TimestampMicros(i) => Cell::Int(i as int), Value::TimestampNanos(i) => Cell::Int(i as int),
        Value::LocalTimestampMillis(i) => Cell::Int(i as int), Value::LocalTimestampMicros(i) => Cell::Int(i as int), Value::LocalTimestampNanos(i) => Cell::Int(i as int),
        Value::Float(f) => Cell::F32(f), Value::Double(f) => Cell::F64(f),
        Value::Bytes(b) => Cell::Bytes(b@), Value::Fixed(_, b) => Cell::Bytes(b@), Value::Uuid(u) => Cell::Bytes(uuid_bytes(u)),
        Value::String(s) => Cell::Text(s@), Value::Enum(_, s) => Cell::Text(s@),
        Value::Array(a) => Cell::List(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { cell(a@[i]) } else { Cell::Null })),
        Value::Record(r) => Cell::Rec(Seq::new(r@.len(), |i: int| if 0 <= i < r@.len() { cell(r@[i].1) } else { Cell::Null })),
        v => Cell::Other(v),
    }
}
pub open spec fn cells(s: Seq<Value>) -> Seq<Cell> { s.map_values(|v: Value| cell(v)) }
pub open spec fn nil(v: Value) -> bool { unw(v) is Null }
pub open spec fn opt_cell(v: Option<Value>) -> Cell { match v { Some(v) => cell(v), None => Cell::Null } }

// ---- single values --------------------------------------------------------------------------------------------
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs maybe_resolve_union
@rule path SchemaKind::from vx_kind
@spec
    ensures *ret == unw(*value)
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs resolve_boolean
@spec
    ensures ret == (match unw(*value) { Value::Boolean(b) => Some(b), _ => None::<bool> })
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs resolve_fixed
@spec
    ensures unw(*v) matches Value::Fixed(n, b) ==> (n == size ==> ret is Some && ret->Some_0@ == b@),
        unw(*v) matches Value::Uuid(u) ==> (size == 16 ==> ret is Some && ret->Some_0@ == uuid_bytes(u) && uuid_bytes(u).len() == 16),
        unw(*v) is Null ==> ret is None
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs resolve_u8
@rule path AvroError::GetU8 vx_err_kind
@spec
    ensures true
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs resolve_bytes
@rule path AvroError::GetBytes vx_err_kind
@spec
    ensures unw(*v) matches Value::Bytes(b) ==> ret is Some && ret->Some_0@ == b@,
        unw(*v) is Null ==> ret is None
@closure 0
    |$1: Value| -> (r: Option<Vec<u8>>) ensures r == (match v { Value::Bytes(s) => Some(s), _ => None::<Vec<u8>> })
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs resolve_string
@rule path AvroError::GetString vx_err_kind
@rule path AvroError::ConvertToUtf8 vx_err_utf8
@rule path String::from_utf8 vx_from_utf8
@rule path Some vx_some
@spec
    ensures unw(*v) matches Value::String(s) ==> ret == Ok::<Option<String>, ArrowErr>(Some(s)),
        unw(*v) matches Value::Enum(_, s) ==> ret == Ok::<Option<String>, ArrowErr>(Some(s)),
        unw(*v) is Null ==> ret == Ok::<Option<String>, ArrowErr>(None)
//@end

// ---- arrow types ------------------------------------------------------------------------------------------------
pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
pub enum IntervalUnit { YearMonth, DayTime, MonthDayNano }
pub enum UnionMode { Sparse, Dense }
#[verifier::external_body] pub struct UnionFields { _p: () }
pub struct Fields { pub v: Vec<Arc<Field>> }
pub struct Field { pub name: String, pub dt: DataType, pub nullable: bool, pub metadata: VMap<String, String> }
pub enum DataType {
    Null, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Float16, Float32, Float64, Timestamp(TimeUnit, Option<String>), Date32, Date64,
    Time32(TimeUnit), Time64(TimeUnit), Duration(TimeUnit), Interval(IntervalUnit), Binary, FixedSizeBinary(i32), LargeBinary, BinaryView, Utf8, LargeUtf8, Utf8View,
    List(Arc<Field>), ListView(Arc<Field>), FixedSizeList(Arc<Field>, i32), LargeList(Arc<Field>), LargeListView(Arc<Field>), Struct(Fields), Union(UnionFields, UnionMode),
    Dictionary(Box<DataType>, Box<DataType>), Decimal128(u8, i8), Decimal256(u8, i8), Map(Arc<Field>, bool), RunEndEncoded(Arc<Field>, Arc<Field>),
}
impl Clone for Fields { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Field { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for DataType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Field {
    pub fn name(&self) -> (r: &String) ensures *r == self.name { &self.name }
    pub fn data_type(&self) -> (r: &DataType) ensures *r == self.dt { &self.dt }
}
impl Fields {
    pub open spec fn s(self) -> Seq<Arc<Field>> { self.v@ }
    #[verifier::external_body] pub fn vx_iter<'a>(&'a self) -> (r: VIter<&'a Arc<Field>>) ensures r@ == self.s().map_values(|x: Arc<Field>| &x) { unimplemented!() }
}
pub struct Schema { pub fields: Fields }
pub trait VxIntoFields: Sized { spec fn fields_of(self) -> Seq<Field>; }
impl VxIntoFields for Fields { open spec fn fields_of(self) -> Seq<Field> { self.s().map_values(|x: Arc<Field>| *x) } }
impl VxIntoFields for Vec<Field> { open spec fn fields_of(self) -> Seq<Field> { self@ } }
impl VxFromIter<Field> for Fields { open spec fn from_seq(s: Seq<Field>, r: Self) -> bool { r.s().map_values(|x: Arc<Field>| *x) == s } }
impl Schema {
    #[verifier::external_body] pub fn new<F: VxIntoFields>(fs: F) -> (r: Schema) ensures r.fields.fields_of() == fs.fields_of() { unimplemented!() }
    #[verifier::external_body] pub fn column_with_name<'a>(&'a self, n: &String) -> Option<(usize, &'a Field)> { unimplemented!() }
 pub fn fields(&self) -> (r: &Fields) ensures *r == self.fields { &self.fields } }

/// v, read as type dt: a value of that type, or null.  (Types Avro records are read as; for every other type, anything.)
pub open spec fn fits(dt: DataType, v: Value) -> bool decreases v, 1nat { match v { Value::Union(_, b) => fits_plain(dt, *b), _ => fits_plain(dt, v) } }
pub open spec fn fits_plain(dt: DataType, v: Value) -> bool decreases v, 0nat {
    match v {
        Value::Union(_, _) => false,
        Value::Null => true,
        _ => match dt {
            DataType::Null => false,
            DataType::Boolean => v is Boolean,
            DataType::Int32 => v is Int, DataType::Int64 => v is Long, DataType::Float32 => v is Float, DataType::Float64 => v is Double,
            DataType::Binary => v is Bytes, DataType::Utf8 => v is String || v is Enum,
            DataType::FixedSizeBinary(n) => (v matches Value::Fixed(k, b) && k == n && b@.len() == n) || (v is Uuid && n == 16),
            DataType::Date32 => v is Date,
            DataType::Time32(TimeUnit::Millisecond) => v is TimeMillis, DataType::Time64(TimeUnit::Microsecond) => v is TimeMicros,
            DataType::Timestamp(TimeUnit::Millisecond, _) => v is TimestampMillis || v is LocalTimestampMillis,
            DataType::Timestamp(TimeUnit::Microsecond, _) => v is TimestampMicros || v is LocalTimestampMicros,
            DataType::Timestamp(TimeUnit::Nanosecond, _) => v is TimestampNanos || v is LocalTimestampNanos,
            DataType::List(f) => v matches Value::Array(a) && forall|i: int| 0 <= i < a@.len() ==> fitsf(*f, #[trigger] a@[i]),
            DataType::Struct(fs) => v matches Value::Record(r) && r@.len() == fs.s().len() && forall|k: int| 0 <= k < r@.len() ==> fitsf(*fs.s()[k], (#[trigger] r@[k]).1),
            _ => true,
        }
    }
}
pub open spec fn fitsf(f: Field, v: Value) -> bool decreases v, 2nat { fits(f.dt, v) && (!f.nullable && !(f.dt is Null) && !(f.dt is Union) ==> !nil(v)) }
/// the types an Avro schema is read as
pub open spec fn made(dt: DataType) -> bool decreases dt {
    match dt {
        DataType::Null | DataType::Boolean | DataType::Int32 | DataType::Int64 | DataType::Float32 | DataType::Float64 | DataType::Binary | DataType::Utf8 | DataType::Date32 => true,
        DataType::Time32(u) => u is Millisecond, DataType::Time64(u) => u is Microsecond, DataType::Timestamp(u, z) => !(u is Second) && z is None,
        DataType::FixedSizeBinary(n) => 0 <= n,
        DataType::List(f) => made(f.dt),
        DataType::Struct(fs) => forall|k: int| 0 <= k < fs.v@.len() ==> made((#[trigger] fs.v@[k]).dt),
        DataType::Dictionary(k, _) => *k is Utf8,
        DataType::Union(_, _) | DataType::Decimal128(_, _) | DataType::Duration(_) => true,
        _ => false,
    }
}
/// the types a column, and the element of a list, can have
pub open spec fn readable(dt: DataType) -> bool decreases dt {
    match dt {
        DataType::List(f) => listable(f.dt),
        DataType::Struct(fs) => forall|k: int| 0 <= k < fs.v@.len() ==> readable((#[trigger] fs.v@[k]).dt),
        DataType::Dictionary(_, _) | DataType::Union(_, _) | DataType::Decimal128(_, _) | DataType::Duration(_) => false,
        _ => true,
    }
}
pub open spec fn listable(dt: DataType) -> bool decreases dt {
    match dt {
        DataType::Null | DataType::Boolean | DataType::Int32 | DataType::Int64 | DataType::Float32 | DataType::Float64 | DataType::Utf8 => true,
        DataType::List(f) => listable(f.dt),
        DataType::Struct(fs) => forall|k: int| 0 <= k < fs.v@.len() ==> readable((#[trigger] fs.v@[k]).dt),
        _ => false,
    }
}

// ---- sequences of values --------------------------------------------------------------------------------------------
/// the values behind a list of references
pub open spec fn vals(s: Seq<&Value>) -> Seq<Value> { s.map_values(|v: &Value| *v) }
/// the elements of a list value
pub open spec fn elems(v: Value) -> Seq<Value> { match unw(v) { Value::Array(a) => a@, Value::Null => Seq::empty(), u => seq![u] } }
/// the elements of all of them, one after the other
pub open spec fn flat(s: Seq<Value>) -> Seq<Value> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + elems(s.last()) } }
pub open spec fn rec(v: Value) -> Seq<(String, Value)> { match unw(v) { Value::Record(r) => r@, _ => Seq::empty() } }
pub open spec fn at(r: Seq<(String, Value)>, k: int) -> Value { if 0 <= k < r.len() { r[k].1 } else { Value::Null } }
/// the k-th field of each
pub open spec fn fieldcol(s: Seq<Value>, k: int) -> Seq<Value> { Seq::new(s.len(), |i: int| at(rec(s[i]), k)) }
pub open spec fn col(rows: Seq<&Vec<(String, Value)>>, k: int) -> Seq<Value> { Seq::new(rows.len(), |i: int| at(rows[i]@, k)) }
pub open spec fn all_fit(dt: DataType, s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> fits(dt, #[trigger] s[i]) }
/// lists hold fewer than 2^31 elements in a batch
pub open spec fn small(dt: DataType, s: Seq<Value>) -> bool decreases dt {
    match dt {
        DataType::List(f) => flat(s).len() <= i32::MAX && small(f.dt, flat(s)),
        DataType::Struct(fs) => forall|k: int| 0 <= k < fs.v@.len() ==> small((#[trigger] fs.v@[k]).dt, fieldcol(s, k)),
        _ => true,
    }
}
pub open spec fn catv<U>(ys: Seq<Vec<U>>) -> Seq<U> decreases ys.len() { if ys.len() == 0 { Seq::empty() } else { catv(ys.drop_last()) + ys.last()@ } }
pub proof fn lemma_cat<U>(ys: Seq<Vec<U>>, s: Seq<Value>, g: spec_fn(Value) -> U)
    requires ys.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] ys[i])@ == elems(s[i]).map_values(g)
    ensures catv(ys) == flat(s).map_values(g)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_cat(ys.drop_last(), s.drop_last(), g);
        assert(ys.last()@ == elems(s.last()).map_values(g)) by { assert(ys[s.len() - 1]@ == elems(s[s.len() - 1]).map_values(g)); }
        assert(catv(ys) =~= flat(s).map_values(g));
    } else { assert(catv(ys) =~= flat(s).map_values(g)); }
}
/// the i-th list is found at its offset
pub proof fn lemma_flat_part(s: Seq<Value>, i: int)
    requires 0 <= i < s.len()
    ensures flat(s.take(i + 1)) == flat(s.take(i)) + elems(s[i]), flat(s.take(i + 1)).len() <= flat(s).len(),
        flat(s).subrange(flat(s.take(i)).len() as int, flat(s.take(i + 1)).len() as int) == elems(s[i])
    decreases s.len()
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    if i + 1 == s.len() { assert(s.take(i + 1) =~= s); assert(s.drop_last() =~= s.take(i)); assert(flat(s).subrange(flat(s.take(i)).len() as int, flat(s).len() as int) =~= elems(s[i])); }
    else {
        lemma_flat_part(s.drop_last(), i);
        assert(s.drop_last().take(i + 1) =~= s.take(i + 1)); assert(s.drop_last().take(i) =~= s.take(i));
        let f = flat(s.drop_last()); let (a, b) = (flat(s.take(i)).len() as int, flat(s.take(i + 1)).len() as int);
        assert(flat(s).subrange(a, b) =~= f.subrange(a, b));
    }
}
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn flat_map<U, F: Fn(T) -> Vec<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures exists|ys: Seq<Vec<U>>| ys.len() == self@.len() && (forall|i: int| #![trigger ys[i]] #![trigger self@[i]] 0 <= i < ys.len() ==> f.ensures((self@[i],), ys[i])) && r@ == #[trigger] catv(ys)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>)
        ensures r@.len() == self@.len(), self@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i].0 == i && r@[i].1 == self@[i]
    { unimplemented!() }
}
pub open spec fn same_vals(r: Seq<&Value>, s: Seq<Value>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < r.len() ==> *r[i] == s[i] }
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs flatten_values
@spec
    ensures vals(ret@) == flat(vals(values@))
@closure 0
    |$1: &&'a Value| -> (r: Vec<&'a Value>) ensures same_vals(r@, elems(**row))
@start
    proof {
        let g = |v: Value| &v;
        assert forall|ys: Seq<Vec<&Value>>| ys.len() == values@.len() && (forall|i: int| 0 <= i < ys.len() ==> same_vals((#[trigger] ys[i])@, elems(*values@[i]))) implies vals(#[trigger] catv(ys)) == flat(vals(values@)) by
            { assert forall|i: int| 0 <= i < ys.len() implies (#[trigger] ys[i])@ == elems(vals(values@)[i]).map_values(g) by { assert(ys[i]@ =~= elems(*values@[i]).map_values(g)); } lemma_cat(ys, vals(values@), g); assert(vals(catv(ys)) =~= flat(vals(values@))); }
    }
//@end

pub open spec fn text(v: Value) -> Option<String> { match unw(v) { Value::String(s) => Some(s), Value::Enum(_, s) => Some(s), _ => None } }
pub open spec fn text_cell(t: Option<String>) -> Cell { match t { Some(s) => Cell::Text(s@), None => Cell::Null } }
pub open spec fn texts(r: Seq<Option<String>>, s: Seq<Value>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < r.len() ==> r[i] == text(s[i]) }
/// a row is null or a list whose elements are of the type
pub open spec fn lists_of(dt: DataType, v: Value) -> bool { (unw(v) is Null || unw(v) is Array) && all_fit(dt, elems(v)) }
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None });
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs flatten_string_values
@spec
    requires forall|i: int| 0 <= i < values@.len() ==> lists_of(DataType::Utf8, *#[trigger] values@[i])
    ensures ret@ == flat(vals(values@)).map_values(|v: Value| text(v))
@start
    proof {
        let g = |v: Value| text(v);
        assert forall|ys: Seq<Vec<Option<String>>>| ys.len() == values@.len() && (forall|i: int| 0 <= i < ys.len() ==> texts((#[trigger] ys[i])@, elems(*values@[i]))) implies #[trigger] catv(ys) == flat(vals(values@)).map_values(g) by
            { assert forall|i: int| 0 <= i < ys.len() implies (#[trigger] ys[i])@ == elems(vals(values@)[i]).map_values(g) by { assert(ys[i]@ =~= elems(*values@[i]).map_values(g)); } lemma_cat(ys, vals(values@), g); }
    }
@closure 0
    |$1: &&Value| -> (r: Vec<Option<String>>) requires lists_of(DataType::Utf8, **row) ensures texts(r@, elems(**row))
@closure 1
    |$1: &Value| -> (r: Option<String>) requires fits(DataType::Utf8, *s) ensures r == text(*s)
//@end

// ---- numbers ---------------------------------------------------------------------------------------------------------
pub enum VxNum { I32(i32), I64(i64), F32(f32), F64(f64) }
pub trait VxToNum { spec fn num(self) -> VxNum; }
impl VxToNum for i32 { open spec fn num(self) -> VxNum { VxNum::I32(self) } }
impl VxToNum for i64 { open spec fn num(self) -> VxNum { VxNum::I64(self) } }
impl VxToNum for f32 { open spec fn num(self) -> VxNum { VxNum::F32(self) } }
impl VxToNum for f64 { open spec fn num(self) -> VxNum { VxNum::F64(self) } }
/// num_traits::NumCast
pub trait NumCast: Sized { spec fn cast(n: VxNum) -> Option<Self>; fn vx_from<N: VxToNum>(n: N) -> (r: Option<Self>) ensures r == Self::cast(n.num()); }
pub uninterp spec fn cast_num<T>(n: VxNum) -> Option<T>;
impl NumCast for i32 { open spec fn cast(n: VxNum) -> Option<i32> { match n { VxNum::I32(i) => Some(i), _ => cast_num(n) } } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<i32> { unimplemented!() } }
impl NumCast for i64 { open spec fn cast(n: VxNum) -> Option<i64> { match n { VxNum::I64(i) => Some(i), VxNum::I32(i) => Some(i as i64), _ => cast_num(n) } } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<i64> { unimplemented!() } }
impl NumCast for f32 { open spec fn cast(n: VxNum) -> Option<f32> { match n { VxNum::F32(i) => Some(i), _ => cast_num(n) } } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<f32> { unimplemented!() } }
impl NumCast for f64 { open spec fn cast(n: VxNum) -> Option<f64> { match n { VxNum::F64(i) => Some(i), _ => cast_num(n) } } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<f64> { unimplemented!() } }
impl NumCast for i8 { open spec fn cast(n: VxNum) -> Option<i8> { cast_num(n) } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<i8> { unimplemented!() } }
impl NumCast for i16 { open spec fn cast(n: VxNum) -> Option<i16> { cast_num(n) } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<i16> { unimplemented!() } }
impl NumCast for u8 { open spec fn cast(n: VxNum) -> Option<u8> { cast_num(n) } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<u8> { unimplemented!() } }
impl NumCast for u16 { open spec fn cast(n: VxNum) -> Option<u16> { cast_num(n) } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<u16> { unimplemented!() } }
impl NumCast for u32 { open spec fn cast(n: VxNum) -> Option<u32> { cast_num(n) } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<u32> { unimplemented!() } }
impl NumCast for u64 { open spec fn cast(n: VxNum) -> Option<u64> { cast_num(n) } #[verifier::external_body] fn vx_from<N: VxToNum>(n: N) -> Option<u64> { unimplemented!() } }
pub trait VxCell: Sized { spec fn as_cell(self) -> Cell; }
impl VxCell for i32 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for i64 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for i8 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for i16 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for u8 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for u16 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for u32 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for u64 { open spec fn as_cell(self) -> Cell { Cell::Int(self as int) } }
impl VxCell for f32 { open spec fn as_cell(self) -> Cell { Cell::F32(self) } }
impl VxCell for f64 { open spec fn as_cell(self) -> Cell { Cell::F64(self) } }
pub trait ArrowPrimitiveType: Sized { type Native: NumCast + VxCell; spec fn ty() -> DataType; }
pub trait ArrowNumericType: ArrowPrimitiveType {}
/// the number a value holds
pub open spec fn number(v: Value) -> Option<VxNum> {
    match v {
        Value::Int(i) => Some(VxNum::I32(i)), Value::TimeMillis(i) => Some(VxNum::I32(i)), Value::Date(i) => Some(VxNum::I32(i)),
        Value::Long(l) => Some(VxNum::I64(l)), Value::TimeMicros(l) => Some(VxNum::I64(l)),
        Value::TimestampMillis(l) => Some(VxNum::I64(l)), Value::TimestampMicros(l) => Some(VxNum::I64(l)), Value::TimestampNanos(l) => Some(VxNum::I64(l)),
        Value::LocalTimestampMillis(l) => Some(VxNum::I64(l)), Value::LocalTimestampMicros(l) => Some(VxNum::I64(l)), Value::LocalTimestampNanos(l) => Some(VxNum::I64(l)),
        Value::Float(f) => Some(VxNum::F32(f)), Value::Double(f) => Some(VxNum::F64(f)),
        _ => None,
    }
}
pub open spec fn resolvable(v: Value) -> bool { nil(v) || number(unw(v)) is Some }
pub open spec fn resolved<N: NumCast>(v: Value) -> Option<N> { match number(unw(v)) { Some(n) => N::cast(n), None => None } }
pub open spec fn native_cell<N: VxCell>(n: Option<N>) -> Cell { match n { Some(x) => x.as_cell(), None => Cell::Null } }
/// reading v as type T keeps it
pub open spec fn prim_ok<T: ArrowPrimitiveType>(v: Value) -> bool { resolvable(v) && native_cell(resolved::<T::Native>(v)) == cell(v) }
pub trait Resolver: ArrowPrimitiveType { fn resolve(value: &Value) -> (r: Option<Self::Native>) requires resolvable(*value) ensures r == resolved::<Self::Native>(*value); }
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs Resolver for N::resolve
@header impl<N> Resolver for N where N: ArrowNumericType
@rule path NumCast::from NumCast::vx_from
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs resolve_item
@spec
    requires resolvable(*value)
    ensures ret == resolved::<T::Native>(*value)
//@end

// ---- arrays ------------------------------------------------------------------------------------------------------------
/// an arrow array, by its type and what its slots hold
#[verifier::external_body] pub struct ArrayRef { _p: () }
#[verifier::external_body] pub struct ArrayData { _p: () }
pub trait VxArr: Sized {
    spec fn aty(&self) -> DataType; spec fn cs(&self) -> Seq<Cell>;
    fn to_data(&self) -> (r: ArrayData) ensures r.aty() == self.aty(), r.cs() == self.cs();
    fn into_data(self) -> (r: ArrayData) ensures r.aty() == self.aty(), r.cs() == self.cs();
}
impl ArrayData { pub uninterp spec fn aty(&self) -> DataType; pub uninterp spec fn cs(&self) -> Seq<Cell>; }
impl VxArr for ArrayRef { uninterp spec fn aty(&self) -> DataType; uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
#[verifier::external_body] pub fn make_array(d: ArrayData) -> (r: ArrayRef) ensures r.aty() == d.aty(), r.cs() == d.cs() { unimplemented!() }
/// Arc::new
pub trait VxArc: Sized { type Out; spec fn arced(self, r: Self::Out) -> bool; fn arc(self) -> (r: Self::Out) ensures self.arced(r); }
impl<A: VxArr> VxArc for A { type Out = ArrayRef; open spec fn arced(self, r: ArrayRef) -> bool { r.aty() == self.aty() && r.cs() == self.cs() } #[verifier::external_body] fn arc(self) -> ArrayRef { unimplemented!() } }
impl VxArc for Field { type Out = Arc<Field>; open spec fn arced(self, r: Arc<Field>) -> bool { *r == self } fn arc(self) -> Arc<Field> { Arc::new(self) } }
impl VxArc for Schema { type Out = Arc<Schema>; open spec fn arced(self, r: Arc<Schema>) -> bool { *r == self } fn arc(self) -> Arc<Schema> { Arc::new(self) } }
pub fn vx_arc<A: VxArc>(a: A) -> (r: A::Out) ensures a.arced(r) { a.arc() }
pub struct NullArray { pub n: usize }
impl NullArray { pub fn new(n: usize) -> (r: Self) ensures r.n == n { NullArray { n } } }
impl VxArr for NullArray { open spec fn aty(&self) -> DataType { DataType::Null } open spec fn cs(&self) -> Seq<Cell> { Seq::new(self.n as nat, |i: int| Cell::Null) } #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
#[verifier::external_body] pub struct BooleanArray { _p: () }
impl VxArr for BooleanArray { open spec fn aty(&self) -> DataType { DataType::Boolean } uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
#[verifier::external_body] pub struct BooleanBuilder { _p: () }
impl View for BooleanBuilder { type V = Seq<Cell>; uninterp spec fn view(&self) -> Seq<Cell>; }
impl BooleanBuilder {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<Cell>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn append_value(&mut self, b: bool) ensures final(self)@ == old(self)@.push(Cell::Bool(b)) { unimplemented!() }
    #[verifier::external_body] pub fn append_null(&mut self) ensures final(self)@ == old(self)@.push(Cell::Null) { unimplemented!() }
    #[verifier::external_body] pub fn finish(&mut self) -> (r: BooleanArray) ensures r.cs() == old(self)@ { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct PrimitiveArray<T> { _p: core::marker::PhantomData<T> }
impl<T: ArrowPrimitiveType> VxArr for PrimitiveArray<T> { open spec fn aty(&self) -> DataType { T::ty() } uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
impl<T: ArrowPrimitiveType> VxFromIter<Option<T::Native>> for PrimitiveArray<T> { open spec fn from_seq(s: Seq<Option<T::Native>>, r: Self) -> bool { r.cs() == s.map_values(|x: Option<T::Native>| native_cell(x)) } }
impl<'a, T: ArrowPrimitiveType> VxFromIter<&'a Option<T::Native>> for PrimitiveArray<T> { open spec fn from_seq(s: Seq<&'a Option<T::Native>>, r: Self) -> bool { r.cs() == s.map_values(|x: &Option<T::Native>| native_cell(*x)) } }
/// an iterator of decoded values
pub trait Iterator: Sized { type Item; spec fn rest(&self) -> Seq<Self::Item>;
    fn by_ref(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r);
    /// take, then all of what it takes is asked for
    fn take(&mut self, n: usize) -> (r: VIter<Self::Item>) ensures r@ == old(self).rest().take(at_most(n as int, old(self).rest().len() as int)), final(self).rest() == old(self).rest().skip(at_most(n as int, old(self).rest().len() as int));
}
pub open spec fn at_most(n: int, m: int) -> int { if n <= m { n } else { m } }
pub type RecordSlice<'a> = &'a [&'a Vec<(String, Value)>];
//@type crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::field_lookup
@spec
    ensures ret == (if self.schema_lookup@.dom().contains(name@) && self.schema_lookup@[name@] < row@.len() { Some(&row@[self.schema_lookup@[name@] as int].1) } else { None })
@closure 0
    |$1: &usize| -> (r: Option<&'b (String, Value)>) ensures r == (if *i < row@.len() { Some(&row@[*i as int]) } else { None::<&'b (String, Value)> })
@closure 1
    |$1: &'b (String, Value)| -> (r: &'b Value) ensures *r == o.1
//@end
/// the position the reader has for a column
pub open spec fn found<I: Iterator<Item = AvroResult<Value>>>(a: AvroArrowArrayReader<I>, name: Seq<char>) -> bool { a.schema_lookup@.dom().contains(name) }
pub open spec fn pos<I: Iterator<Item = AvroResult<Value>>>(a: AvroArrowArrayReader<I>, name: Seq<char>) -> int { a.schema_lookup@[name] as int }
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_boolean_array
@rule path Arc::new vx_arc
@spec
    requires found(*self, col_name@), all_fit(DataType::Boolean, col(rows@, pos(*self, col_name@)))
    ensures ret.aty() is Boolean, ret.cs() == cells(col(rows@, pos(*self, col_name@)))
@loop 0
    invariant found(*self, col_name@), all_fit(DataType::Boolean, col(rows@, pos(*self, col_name@))), 0 <= vx_i <= rows@.len(), vx_it0@ == rows@.skip(vx_i).map_values(|x: &Vec<(String, Value)>| &x),
        builder@ == cells(col(rows@, pos(*self, col_name@))).take(vx_i)
    ensures vx_i == rows@.len()
    decreases vx_it0@.len()
@loop 0 pre
    let ghost mut vx_i: int = 0; proof { assert(rows@.skip(0) =~= rows@); assert(builder@ =~= cells(col(rows@, pos(*self, col_name@))).take(0)); }
@loop 0 start
    let ghost c = col(rows@, pos(*self, col_name@)); assert(*row == rows@[vx_i]); assert(fits(DataType::Boolean, c[vx_i])); proof { vx_i = vx_i + 1; assert(cells(c).take(vx_i) =~= cells(c).take(vx_i - 1).push(cell(c[vx_i - 1]))); }
@loop 0 post
    assert(builder@ =~= cells(col(rows@, pos(*self, col_name@))));
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_primitive_array
@rule path Arc::new vx_arc
@spec
    requires found(*self, col_name@), forall|i: int| 0 <= i < rows@.len() ==> prim_ok::<T>(#[trigger] col(rows@, pos(*self, col_name@))[i])
    ensures ret.aty() == T::ty(), ret.cs() == cells(col(rows@, pos(*self, col_name@)))
@closure 0
    |$1: &&Vec<(String, Value)>| -> (r: Option<T::Native>) requires prim_ok::<T>(at(row@, pos(*self, col_name@))) ensures native_cell(r) == cell(at(row@, pos(*self, col_name@)))
@closure 1
    |$1: &Value| -> (r: Option<T::Native>) requires resolvable(*value) ensures r == resolved::<T::Native>(*value)
@start
    proof { let c = col(rows@, pos(*self, col_name@)); assert forall|i: int| 0 <= i < rows@.len() implies #[trigger] at(rows@[i]@, pos(*self, col_name@)) == c[i] by {} }
//@end

pub open spec fn prims<T: ArrowPrimitiveType>(r: Seq<Option<T::Native>>, s: Seq<Value>) -> bool { r.len() == s.len() && forall|i: int| #![trigger r[i]] #![trigger s[i]] 0 <= i < r.len() ==> r[i] == resolved::<T::Native>(s[i]) }
pub open spec fn prim_list<T: ArrowPrimitiveType>(v: Value) -> bool { (unw(v) is Null || unw(v) is Array) && forall|i: int| 0 <= i < elems(v).len() ==> prim_ok::<T>(#[trigger] elems(v)[i]) }
/// what holds of the elements of each holds of all of them
pub proof fn lemma_flat_all(s: Seq<Value>, p: spec_fn(Value) -> bool)
    requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < elems(s[i]).len() ==> p(#[trigger] elems(s[i])[j])
    ensures forall|i: int| 0 <= i < flat(s).len() ==> p(#[trigger] flat(s)[i])
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < elems(t[i]).len() implies p(#[trigger] elems(t[i])[j]) by { assert(t[i] == s[i]); }
        lemma_flat_all(t, p);
        let e = elems(s.last());
        assert forall|i: int| 0 <= i < flat(s).len() implies p(#[trigger] flat(s)[i]) by { if i >= flat(t).len() { assert(flat(s)[i] == elems(s[s.len() - 1])[i - flat(t).len()]); } else { assert(flat(s)[i] == flat(t)[i]); } }
    }
}
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::read_primitive_list_values
@spec
    requires forall|i: int| 0 <= i < rows@.len() ==> prim_list::<T>(*#[trigger] rows@[i])
    ensures ret.aty() == T::ty(), ret.cs() == cells(flat(vals(rows@)))
@start
    proof {
        let g = |v: Value| resolved::<T::Native>(v); let f = flat(vals(rows@));
        assert forall|ys: Seq<Vec<Option<T::Native>>>| ys.len() == rows@.len() && (forall|i: int| 0 <= i < ys.len() ==> prims::<T>((#[trigger] ys[i])@, elems(*rows@[i]))) implies #[trigger] catv(ys) == f.map_values(g) by
            { assert forall|i: int| 0 <= i < ys.len() implies (#[trigger] ys[i])@ == elems(vals(rows@)[i]).map_values(g) by { assert(ys[i]@ =~= elems(*rows@[i]).map_values(g)); } lemma_cat(ys, vals(rows@), g); }
        let p = |v: Value| prim_ok::<T>(v);
        assert forall|i: int, j: int| 0 <= i < vals(rows@).len() && 0 <= j < elems(vals(rows@)[i]).len() implies p(#[trigger] elems(vals(rows@)[i])[j]) by { assert(prim_list::<T>(*rows@[i])); }
        lemma_flat_all(vals(rows@), p);
        assert forall|i: int| 0 <= i < f.len() implies native_cell(#[trigger] f.map_values(g)[i]) == cell(f[i]) by { assert(p(f[i])); }
    }
@closure 0
    |$1: &&Value| -> (r: Vec<Option<T::Native>>) requires prim_list::<T>(**row) ensures prims::<T>(r@, elems(**row))
@before let row = maybe_resolve_union(row);
    let ghost row0 = **row;
@after let row = maybe_resolve_union(row);
    assert(forall|i: int| 0 <= i < elems(row0).len() ==> prim_ok::<T>(#[trigger] elems(row0)[i])); assert(row matches Value::Array(a) ==> a@ == elems(row0));
@before array.to_data()
    assert(array.cs() =~= cells(flat(vals(rows@))));
//@end

// ---- buffers and array data ----------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct MutableBuffer { _p: () }
#[verifier::external_body] pub struct Buffer { _p: () }
/// a buffer's bits
impl View for MutableBuffer { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl Buffer {
    pub uninterp spec fn bits(&self) -> Seq<bool>; pub uninterp spec fn offs(&self) -> Seq<int>;
    #[verifier::external_body] pub fn from_slice_ref(v: &Vec<i32>) -> (r: Buffer) ensures r.offs() == v@.map_values(|x: i32| x as int) { unimplemented!() }
}
impl MutableBuffer {
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body] pub fn from_len_zeroed(n: usize) -> (r: Self) ensures r@ == Seq::new((n * 8) as nat, |i: int| false) { unimplemented!() }
    #[verifier::external_body] pub fn new(n: usize) -> (r: Self) ensures r.cap() == n, r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn with_bitset(self, n: usize, v: bool) -> (r: Self) requires n <= self.cap() ensures r@ == Seq::new((n * 8) as nat, |i: int| v) { unimplemented!() }
}
impl VxInto for MutableBuffer { type To = Buffer; open spec fn as_to(self, r: Buffer) -> bool { r.bits() == self@ } #[verifier::external_body] fn vx_into(self) -> Buffer { unimplemented!() } }
#[verifier::external_body] pub fn vx_set_bit(b: &mut MutableBuffer, i: usize) requires i < old(b)@.len() ensures final(b)@ == old(b)@.update(i as int, true) { unimplemented!() }
#[verifier::external_body] pub fn vx_unset_bit(b: &mut MutableBuffer, i: usize) requires i < old(b)@.len() ensures final(b)@ == old(b)@.update(i as int, false) { unimplemented!() }
#[verifier::external_body] pub fn vx_bit_ceil(n: usize, d: usize) -> (r: usize) requires d > 0 ensures r * d >= n, r as int == (n as int + d as int - 1) / (d as int) { unimplemented!() }
pub struct ArrayDataBuilder { pub dt: DataType, pub n: usize, pub bufs: Vec<Buffer>, pub nulls: Option<Buffer>, pub kids: Vec<ArrayData> }
impl ArrayData { pub fn builder(dt: DataType) -> (r: ArrayDataBuilder) ensures r.dt == dt, r.n == 0, r.bufs@.len() == 0, r.nulls is None, r.kids@.len() == 0 { ArrayDataBuilder::new(dt) } }
pub open spec fn no_null(c: Seq<Cell>) -> bool { forall|i: int| 0 <= i < c.len() ==> !((#[trigger] c[i]) is Null) }
impl ArrayDataBuilder {
    pub fn new(dt: DataType) -> (r: Self) ensures r.dt == dt, r.n == 0, r.bufs@.len() == 0, r.nulls is None, r.kids@.len() == 0 { ArrayDataBuilder { dt, n: 0, bufs: Vec::new(), nulls: None, kids: Vec::new() } }
    #[verifier::external_body] pub fn len(self, n: usize) -> (r: Self) ensures r == (ArrayDataBuilder { n, ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn add_buffer(self, b: Buffer) -> (r: Self) ensures r.bufs@ == self.bufs@.push(b), r == (ArrayDataBuilder { bufs: r.bufs, ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn null_bit_buffer(self, b: Option<Buffer>) -> (r: Self) ensures r == (ArrayDataBuilder { nulls: b, ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn child_data(self, k: Vec<ArrayData>) -> (r: Self) ensures r == (ArrayDataBuilder { kids: k, ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn add_child_data(self, k: ArrayData) -> (r: Self) ensures r.kids@ == self.kids@.push(k), r == (ArrayDataBuilder { kids: r.kids, ..self }) { unimplemented!() }
    pub open spec fn null_bits(self) -> Seq<bool> { self.nulls->Some_0.bits() }
    /// what arrow's validation asks for
    pub open spec fn valid(self) -> bool {
        &&& self.nulls is Some && self.n <= self.null_bits().len()
        &&& match self.dt {
            DataType::Boolean => self.bufs@.len() == 1 && self.n <= self.bufs@[0].bits().len() && self.kids@.len() == 0,
            DataType::List(f) => self.bufs@.len() == 1 && self.kids@.len() == 1 && self.kids@[0].aty() == f.dt && ({ let o = self.bufs@[0].offs();
                o.len() == self.n + 1 && 0 <= o[0] && (forall|i: int, j: int| 0 <= i <= j < o.len() ==> o[i] <= o[j]) && o[self.n as int] <= self.kids@[0].cs().len() })
                && (f.nullable || f.dt is Null || no_null(self.kids@[0].cs())),
            DataType::Struct(fs) => self.bufs@.len() == 0 && self.kids@.len() == fs.s().len() && (forall|k: int| #![trigger self.kids@[k]] 0 <= k < fs.s().len() ==> self.kids@[k].aty() == fs.s()[k].dt && self.kids@[k].cs().len() == self.n
                && (fs.s()[k].nullable || fs.s()[k].dt is Null || forall|i: int| 0 <= i < self.n && self.null_bits()[i] ==> !((#[trigger] self.kids@[k].cs()[i]) is Null))),
            _ => false,
        }
    }
    pub open spec fn made_cells(self) -> Seq<Cell> {
        Seq::new(self.n as nat, |i: int| if !self.null_bits()[i] { Cell::Null } else { match self.dt {
            DataType::Boolean => Cell::Bool(self.bufs@[0].bits()[i]),
            DataType::List(f) => Cell::List(self.kids@[0].cs().subrange(self.bufs@[0].offs()[i], self.bufs@[0].offs()[i + 1])),
            _ => Cell::Rec(Seq::new(self.kids@.len(), |k: int| self.kids@[k].cs()[i])),
        } })
    }
    #[verifier::external_body] pub fn build(self) -> (r: ArrowResult<ArrayData>) ensures self.valid() ==> r is Ok, r matches Ok(d) ==> self.valid() && d.aty() == self.dt && d.cs() == self.made_cells() { unimplemented!() }
}
#[verifier::external_body] pub struct StringArray { _p: () }
impl VxArr for StringArray { open spec fn aty(&self) -> DataType { DataType::Utf8 } uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
#[verifier::external_body] pub struct LargeStringArray { _p: () }
impl VxArr for LargeStringArray { open spec fn aty(&self) -> DataType { DataType::LargeUtf8 } uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
#[verifier::external_body] pub struct BinaryArray { _p: () }
impl VxArr for BinaryArray { open spec fn aty(&self) -> DataType { DataType::Binary } uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
impl VxFromIter<Option<String>> for StringArray { open spec fn from_seq(s: Seq<Option<String>>, r: Self) -> bool { r.cs() == s.map_values(|x: Option<String>| text_cell(x)) } }
impl VxFromIter<Option<String>> for LargeStringArray { open spec fn from_seq(s: Seq<Option<String>>, r: Self) -> bool { r.cs() == s.map_values(|x: Option<String>| text_cell(x)) } }
pub open spec fn ok_texts(s: Seq<ArrowResult<Option<String>>>) -> Seq<Cell> { Seq::new(s.len(), |i: int| text_cell(s[i]->Ok_0)) }
impl VxFromIter<ArrowResult<Option<String>>> for ArrowResult<StringArray> {
    open spec fn from_seq(s: Seq<ArrowResult<Option<String>>>, r: Self) -> bool { match r { Ok(a) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok) && a.cs() == ok_texts(s), Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err } }
}
pub open spec fn bytes_cell(b: Option<Vec<u8>>) -> Cell { match b { Some(b) => Cell::Bytes(b@), None => Cell::Null } }
impl VxFromIter<Option<Vec<u8>>> for BinaryArray { open spec fn from_seq(s: Seq<Option<Vec<u8>>>, r: Self) -> bool { r.cs() == s.map_values(|x: Option<Vec<u8>>| bytes_cell(x)) } }
#[verifier::external_body] pub struct FixedSizeBinaryArray { _p: () }
impl VxArr for FixedSizeBinaryArray { open spec fn aty(&self) -> DataType { DataType::FixedSizeBinary(self.width()) } uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
impl FixedSizeBinaryArray {
    pub uninterp spec fn width(&self) -> i32;
    #[verifier::external_body] pub fn try_from_sparse_iter_with_size(s: VIter<Option<Vec<u8>>>, n: i32) -> (r: ArrowResult<FixedSizeBinaryArray>)
        ensures n >= 0 && (forall|i: int| 0 <= i < s@.len() ==> ((#[trigger] s@[i]) matches Some(b) ==> b@.len() == n)) ==> r is Ok,
            r matches Ok(a) ==> a.width() == n && a.cs() == s@.map_values(|x: Option<Vec<u8>>| bytes_cell(x)) { unimplemented!() }
}
#[verifier::external_body] pub struct GenericListArray { _p: () }
impl VxArr for GenericListArray { uninterp spec fn aty(&self) -> DataType; uninterp spec fn cs(&self) -> Seq<Cell>; #[verifier::external_body] fn to_data(&self) -> ArrayData { unimplemented!() } #[verifier::external_body] fn into_data(self) -> ArrayData { unimplemented!() } }
#[verifier::external_body] pub fn vx_list_array(d: ArrayData) -> (r: GenericListArray) requires d.aty() is List ensures r.aty() == d.aty(), r.cs() == d.cs() { unimplemented!() /* GenericListArray::<i32>::from(d) */ }
/// list offsets, at the width of `List`
pub trait OffsetSizeTrait {}
impl OffsetSizeTrait for i32 {}
impl OffsetSizeTrait for i64 {}
pub fn vx_off_zero() -> (r: i32) ensures r == 0 { 0 }
pub fn vx_off_one() -> (r: i32) ensures r == 1 { 1 }
pub fn vx_off_from(n: usize) -> (r: Option<i32>) ensures r == (if n <= i32::MAX { Some(n as i32) } else { None }) { if n <= i32::MAX as usize { Some(n as i32) } else { None } }
pub trait VxOff { fn to_usize(&self) -> Option<usize>; }
impl VxOff for i32 { fn to_usize(&self) -> (r: Option<usize>) ensures r == (if *self >= 0 { Some(*self as usize) } else { None }) { if *self >= 0 { Some(*self as usize) } else { None } } }

// ---- dictionaries: what an Avro map is read as, and refused -------------------------------------------------------------
pub trait ArrowDictionaryKeyType {}
pub struct Int8Type {}
impl ArrowPrimitiveType for Int8Type { type Native = i8; open spec fn ty() -> DataType { DataType::Int8 } }
impl ArrowNumericType for Int8Type {}
impl ArrowDictionaryKeyType for Int8Type {}
pub struct Int16Type {}
impl ArrowPrimitiveType for Int16Type { type Native = i16; open spec fn ty() -> DataType { DataType::Int16 } }
impl ArrowNumericType for Int16Type {}
impl ArrowDictionaryKeyType for Int16Type {}
pub struct Int32Type {}
impl ArrowPrimitiveType for Int32Type { type Native = i32; open spec fn ty() -> DataType { DataType::Int32 } }
impl ArrowNumericType for Int32Type {}
impl ArrowDictionaryKeyType for Int32Type {}
pub struct Int64Type {}
impl ArrowPrimitiveType for Int64Type { type Native = i64; open spec fn ty() -> DataType { DataType::Int64 } }
impl ArrowNumericType for Int64Type {}
impl ArrowDictionaryKeyType for Int64Type {}
pub struct UInt8Type {}
impl ArrowPrimitiveType for UInt8Type { type Native = u8; open spec fn ty() -> DataType { DataType::UInt8 } }
impl ArrowNumericType for UInt8Type {}
impl ArrowDictionaryKeyType for UInt8Type {}
pub struct UInt16Type {}
impl ArrowPrimitiveType for UInt16Type { type Native = u16; open spec fn ty() -> DataType { DataType::UInt16 } }
impl ArrowNumericType for UInt16Type {}
impl ArrowDictionaryKeyType for UInt16Type {}
pub struct UInt32Type {}
impl ArrowPrimitiveType for UInt32Type { type Native = u32; open spec fn ty() -> DataType { DataType::UInt32 } }
impl ArrowNumericType for UInt32Type {}
impl ArrowDictionaryKeyType for UInt32Type {}
pub struct UInt64Type {}
impl ArrowPrimitiveType for UInt64Type { type Native = u64; open spec fn ty() -> DataType { DataType::UInt64 } }
impl ArrowNumericType for UInt64Type {}
impl ArrowDictionaryKeyType for UInt64Type {}
pub struct Float32Type {}
impl ArrowPrimitiveType for Float32Type { type Native = f32; open spec fn ty() -> DataType { DataType::Float32 } }
impl ArrowNumericType for Float32Type {}
pub struct Float64Type {}
impl ArrowPrimitiveType for Float64Type { type Native = f64; open spec fn ty() -> DataType { DataType::Float64 } }
impl ArrowNumericType for Float64Type {}
pub struct Date32Type {}
impl ArrowPrimitiveType for Date32Type { type Native = i32; open spec fn ty() -> DataType { DataType::Date32 } }
impl ArrowNumericType for Date32Type {}
pub struct Date64Type {}
impl ArrowPrimitiveType for Date64Type { type Native = i64; open spec fn ty() -> DataType { DataType::Date64 } }
impl ArrowNumericType for Date64Type {}
pub struct Time32SecondType {}
impl ArrowPrimitiveType for Time32SecondType { type Native = i32; open spec fn ty() -> DataType { DataType::Time32(TimeUnit::Second) } }
impl ArrowNumericType for Time32SecondType {}
pub struct Time32MillisecondType {}
impl ArrowPrimitiveType for Time32MillisecondType { type Native = i32; open spec fn ty() -> DataType { DataType::Time32(TimeUnit::Millisecond) } }
impl ArrowNumericType for Time32MillisecondType {}
pub struct Time64MicrosecondType {}
impl ArrowPrimitiveType for Time64MicrosecondType { type Native = i64; open spec fn ty() -> DataType { DataType::Time64(TimeUnit::Microsecond) } }
impl ArrowNumericType for Time64MicrosecondType {}
pub struct Time64NanosecondType {}
impl ArrowPrimitiveType for Time64NanosecondType { type Native = i64; open spec fn ty() -> DataType { DataType::Time64(TimeUnit::Nanosecond) } }
impl ArrowNumericType for Time64NanosecondType {}
pub struct TimestampSecondType {}
impl ArrowPrimitiveType for TimestampSecondType { type Native = i64; open spec fn ty() -> DataType { DataType::Timestamp(TimeUnit::Second, None) } }
impl ArrowNumericType for TimestampSecondType {}
pub struct TimestampMillisecondType {}
impl ArrowPrimitiveType for TimestampMillisecondType { type Native = i64; open spec fn ty() -> DataType { DataType::Timestamp(TimeUnit::Millisecond, None) } }
impl ArrowNumericType for TimestampMillisecondType {}
pub struct TimestampMicrosecondType {}
impl ArrowPrimitiveType for TimestampMicrosecondType { type Native = i64; open spec fn ty() -> DataType { DataType::Timestamp(TimeUnit::Microsecond, None) } }
impl ArrowNumericType for TimestampMicrosecondType {}
pub struct TimestampNanosecondType {}
impl ArrowPrimitiveType for TimestampNanosecondType { type Native = i64; open spec fn ty() -> DataType { DataType::Timestamp(TimeUnit::Nanosecond, None) } }
impl ArrowNumericType for TimestampNanosecondType {}
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::list_array_string_array_builder
@trusted
@spec
    ensures true
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_dictionary_array
@trusted
@spec
    ensures true
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_wrapped_list_array
@spec
    ensures *key_type is Utf8 ==> ret is Err
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_string_dictionary_array
@spec
    ensures *key_type is Utf8 ==> ret is Err
//@end
// ---- columns ----------------------------------------------------------------------------------------------------------------
pub open spec fn path(p: Seq<char>, n: Seq<char>) -> Seq<char> { if p.len() == 0 { n } else { p + "."@ + n } }
/// the reader finds the fields of a type where they are in its records
pub open spec fn indexed_dt(m: Map<Seq<char>, usize>, p: Seq<char>, dt: DataType) -> bool decreases dt {
    match dt {
        DataType::List(f) => indexed_dt(m, p + "."@ + f.name@, f.dt),
        DataType::Struct(fs) => forall|k: int| 0 <= k < fs.v@.len() ==> m.dom().contains(path(p, (#[trigger] fs.v@[k]).name@)) && m[path(p, fs.v@[k].name@)] == k && indexed_dt(m, path(p, fs.v@[k].name@), fs.v@[k].dt),
        _ => true,
    }
}
pub open spec fn list_field_ok(f: Field, v: Value) -> bool { unw(v) is Null || (unw(v) matches Value::Array(a) && forall|i: int| 0 <= i < a@.len() ==> fitsf(f, #[trigger] a@[i])) }
pub open spec fn full_row(fs: Fields, r: Seq<(String, Value)>) -> bool { r.len() == fs.s().len() && forall|k: int| 0 <= k < r.len() ==> fitsf(*fs.s()[k], (#[trigger] r[k]).1) }
pub open spec fn null_row(r: Seq<(String, Value)>) -> bool { r.len() == 0 || (r.len() == 1 && r[0].1 is Null) }
pub open spec fn row_ok(fs: Fields, r: Seq<(String, Value)>) -> bool { full_row(fs, r) || null_row(r) }
pub open spec fn columns(fs: Fields, rows: Seq<&Vec<(String, Value)>>, arrs: Seq<ArrayRef>) -> bool { arrs.len() == fs.s().len() && forall|k: int| 0 <= k < arrs.len() ==> (#[trigger] arrs[k]).aty() == fs.s()[k].dt && arrs[k].cs() == cells(col(rows, k)) }
pub open spec fn ov(o: Option<&Value>) -> Value { match o { Some(v) => *v, None => Value::Null } }
pub open spec fn column_ok(f: Field, c: Seq<Value>, r: ArrowResult<ArrayRef>) -> bool { (r is Ok <==> readable(f.dt)) && (r matches Ok(a) ==> a.aty() == f.dt && a.cs() == cells(c)) }
pub proof fn lemma_filter_all<T>(s: Seq<T>, q: spec_fn(T) -> bool) requires forall|i: int| 0 <= i < s.len() ==> q(#[trigger] s[i]) ensures s.filter(q) == s decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { lemma_filter_all(s.drop_last(), q); assert(s =~= s.drop_last().push(s.last())); } else { assert(s.filter(q) =~= s); } }
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_struct_array
@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
@rule drop_cast ArrayRef
@rule transparent_fmt
@rule method into_iter vx_into_iter
@rule path Arc::new vx_arc
@rule path bit_util::ceil vx_bit_ceil
@rule path bit_util::set_bit vx_set_bit
@rule maploop 8
@loops 1
@closures 10
@spec
    requires projection@.len() == 0, forall|i: int| 0 <= i < rows@.len() ==> row_ok(*struct_fields, (#[trigger] rows@[i])@),
        forall|k: int| 0 <= k < struct_fields.s().len() ==> small((#[trigger] struct_fields.s()[k]).dt, col(rows@, k)),
        indexed_dt(self.schema_lookup@, parent_field_name@, DataType::Struct(*struct_fields)), made(DataType::Struct(*struct_fields))
    ensures ret is Ok <==> readable(DataType::Struct(*struct_fields)), ret matches Ok(arrs) ==> columns(*struct_fields, rows@, arrs@)
@start
    let ghost fs = *struct_fields; let ghost m = self.schema_lookup@; let ghost p = parent_field_name@;
    proof {
        let q = |f: &Arc<Field>| true;
        let c = fs.s().map_values(|x: Arc<Field>| &x);
        assert(c.filter(q) =~= c) by { lemma_filter_all(c, q); }
        reveal_strlit("."); reveal_strlit("");
    }
@closure 0
    |$1: &&Arc<Field>| -> (r: bool) ensures r
@closure 1
    |$1: &Arc<Field>| -> (r: ArrowResult<ArrayRef>) requires exists|k: int| 0 <= k < fs.s().len() && #[trigger] fs.s()[k] == *field
        ensures forall|k: int| 0 <= k < fs.s().len() && #[trigger] fs.s()[k] == *field ==> column_ok(*fs.s()[k], col(rows@, k), r)
@before let field_path = if
    let ghost k = choose|k: int| 0 <= k < fs.s().len() && fs.s()[k] == *field; let ghost c = col(rows@, k);
@after let field_path = if
    proof {
        assert(field_path@ == path(p, field.name@)); assert(m.dom().contains(field_path@) && m[field_path@] == k && indexed_dt(m, field_path@, field.dt)); assert(made(field.dt));
        assert forall|j: int| 0 <= j < fs.s().len() && #[trigger] fs.s()[j] == *field implies j == k by { assert(m[path(p, fs.s()[j].name@)] == j); }
        assert forall|i: int| 0 <= i < c.len() implies fits(field.dt, #[trigger] c[i]) && (!field.nullable && !(field.dt is Null) && rows@[i]@.len() == fs.s().len() ==> true) && prims_all(field.dt, c[i]) by { assert(row_ok(fs, rows@[i]@)); if full_row(fs, rows@[i]@) { assert(fitsf(*fs.s()[k], rows@[i]@[k].1)); } lemma_prims(field.dt, c[i]); }
        assert(all_fit(field.dt, c));
    }
@closure 2
    |$1: &&Vec<(String, Value)>| -> (r: ArrowResult<Option<String>>) requires fits(DataType::Utf8, at(row@, k)) ensures r is Ok, text_cell(r->Ok_0) == cell(at(row@, k))
@closure 3
    |$1: &&Vec<(String, Value)>| -> (r: Option<Vec<u8>>) requires fits(DataType::Binary, at(row@, k)) ensures bytes_cell(r) == cell(at(row@, k))
@closure 4
    |$1: &&Vec<(String, Value)>| -> (r: Option<Vec<u8>>) requires fits(DataType::FixedSizeBinary(*size), at(row@, k)) ensures bytes_cell(r) == cell(at(row@, k)), r matches Some(b) ==> b@.len() == *size
@closure 5
    |$1: &Value| -> (r: Option<Vec<u8>>) requires fits(DataType::FixedSizeBinary(*size), *v), 0 <= *size ensures bytes_cell(r) == cell(*v), r matches Some(b) ==> b@.len() == *size
@closure 6
    |$1: &&Vec<(String, Value)>| -> (r: &Value) ensures *r == at(row@, k)
@closure 7
    |$1: (usize, &&Vec<(String, Value)>)| -> (r: (usize, Option<&Value>)) ensures r.0 == vx_a0.0, ov(r.1) == at(vx_a0.1@, k)
@before Ok(arr)
    proof { assert(arr.cs() =~= cells(c)); assert(arr.aty() == field.dt); }
@before match list_field.data_type() {
    proof { assert(made(list_field.dt)); assert(readable(field.dt) == listable(list_field.dt)); }
@after let extracted_rows
    assert(vals(extracted_rows@) =~= c);
    proof { assert forall|i: int| 0 <= i < extracted_rows@.len() implies list_field_ok(**list_field, *#[trigger] extracted_rows@[i]) by { assert(c[i] == *extracted_rows@[i]); assert(fits(field.dt, c[i])); } }
@after let arrays: ArrowResult
    proof {
        if arrays is Ok { let arrs = arrays->Ok_0@; assert forall|k: int| 0 <= k < fs.s().len() implies column_ok(*fs.s()[k], col(rows@, k), Ok(#[trigger] arrs[k])) by {}
            assert forall|k: int| 0 <= k < fs.v@.len() implies readable((#[trigger] fs.v@[k]).dt) by { assert(column_ok(*fs.s()[k], col(rows@, k), Ok(arrs[k]))); } }
    }
@loop 0 pre
    let ghost mut vx_i: int = 0; let ghost gs = *fields; let ghost n = rows@.len();
@loop 0
    invariant n == rows@.len(), c.len() == n, all_fit(DataType::Struct(gs), c), 0 <= vx_i <= n, vx_it0@.len() == n - vx_i, empty_vec@.len() == 0,
        forall|j: int| #![trigger vx_it0@[j]] 0 <= j < vx_it0@.len() ==> vx_it0@[j].0 == vx_i + j && ov(vx_it0@[j].1) == c[vx_i + j],
        vx_out8@.len() == vx_i, null_buffer@.len() >= n, forall|j: int| 0 <= j < vx_i ==> srow((#[trigger] vx_out8@[j])@, c[j]), forall|j: int| 0 <= j < n ==> #[trigger] null_buffer@[j] == (j < vx_i && unw(c[j]) is Record),
    ensures vx_i == n
    decreases vx_it0@.len()
@loop 0 start
    assert(fits(DataType::Struct(gs), c[vx_i])); proof { vx_i = vx_i + 1; }
@before let arrays =
    let ghost gs = *fields;
    proof {
        assert forall|k: int| 0 <= k < gs.s().len() implies #[trigger] col(struct_rows@, k) == fieldcol(c, k) by { assert forall|j: int| 0 <= j < c.len() implies at(struct_rows@[j]@, k) == at(rec(c[j]), k) by { assert(srow(struct_rows@[j]@, c[j])); assert(fits(DataType::Struct(gs), c[j])); } assert(col(struct_rows@, k) =~= fieldcol(c, k)); }
        assert forall|j: int| 0 <= j < c.len() implies row_ok(gs, #[trigger] struct_rows@[j]@) by { assert(srow(struct_rows@[j]@, c[j])); assert(fits(DataType::Struct(gs), c[j])); }
        assert forall|b: ArrayDataBuilder| readable(DataType::Struct(gs)) && b.dt == DataType::Struct(gs) && b.n == c.len() && b.null_bits() == null_buffer@ && b.nulls is Some && b.bufs@.len() == 0 && kids_ok(gs, c, b.kids@) implies #[trigger] b.valid() && b.made_cells() == cells(c) by {
            lemma_struct(b, gs, c);
        }
    }
@closure 9
    |$1: ArrayRef| -> (r: ArrayData) ensures r.aty() == a.aty(), r.cs() == a.cs()
//@end
#[verifier::external_body] pub fn vx_fmt_dbg<T>(s: String, x: &T) -> (r: String) { unimplemented!() }
pub trait VxAppend<T> { fn vx_append(&mut self, o: Vec<T>); }
impl<T> VxAppend<T> for Vec<T> { #[verifier::external_body] fn vx_append(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { let mut o = o; self.append(&mut o) } }
pub open spec fn sum_seq(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_seq(s.drop_last()) + s.last() } }
impl VIter<usize> { #[verifier::external_body] pub fn sum(self) -> (r: usize) requires sum_seq(self@) <= usize::MAX ensures r == sum_seq(self@) { unimplemented!() } }
#[verifier::external] impl core::fmt::Debug for ArrowErr { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub open spec fn prims_all(dt: DataType, v: Value) -> bool {
    (dt is Int32 ==> prim_ok::<Int32Type>(v)) && (dt is Int64 ==> prim_ok::<Int64Type>(v)) && (dt is Float32 ==> prim_ok::<Float32Type>(v)) && (dt is Float64 ==> prim_ok::<Float64Type>(v))
    && (dt is Date32 ==> prim_ok::<Date32Type>(v)) && (dt == DataType::Time32(TimeUnit::Millisecond) ==> prim_ok::<Time32MillisecondType>(v)) && (dt == DataType::Time64(TimeUnit::Microsecond) ==> prim_ok::<Time64MicrosecondType>(v))
    && (dt matches DataType::Timestamp(u, _) ==> (u is Millisecond ==> prim_ok::<TimestampMillisecondType>(v)) && (u is Microsecond ==> prim_ok::<TimestampMicrosecondType>(v)) && (u is Nanosecond ==> prim_ok::<TimestampNanosecondType>(v)))
}
pub proof fn lemma_prims(dt: DataType, v: Value) requires fits(dt, v) ensures prims_all(dt, v) {}
pub open spec fn list_prims(f: Field, v: Value) -> bool {
    (f.dt is Int32 ==> prim_list::<Int32Type>(v)) && (f.dt is Int64 ==> prim_list::<Int64Type>(v)) && (f.dt is Float32 ==> prim_list::<Float32Type>(v)) && (f.dt is Float64 ==> prim_list::<Float64Type>(v)) && (f.dt is Utf8 ==> lists_of(DataType::Utf8, v))
}
pub proof fn lemma_list_prims(f: Field, v: Value)
    requires list_field_ok(f, v)
    ensures list_prims(f, v)
{ assert forall|i: int| 0 <= i < elems(v).len() implies fits(f.dt, #[trigger] elems(v)[i]) && prims_all(f.dt, elems(v)[i]) by { assert(fitsf(f, elems(v)[i])); lemma_prims(f.dt, elems(v)[i]); } }
pub proof fn lemma_flat_mono(s: Seq<Value>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures flat(s.take(i)).len() <= flat(s.take(j)).len(), flat(s.take(j)).len() <= flat(s).len()
    decreases s.len() - i
{ assert(s.take(s.len() as int) =~= s); if i < j { lemma_flat_part(s, i); lemma_flat_mono(s, i + 1, j); } else if j < s.len() { lemma_flat_part(s, j); lemma_flat_mono(s, j + 1, s.len() as int); } }
pub proof fn lemma_sum(t: Seq<usize>, s: Seq<Value>)
    requires t.len() == s.len(), forall|i: int| #![trigger t[i]] 0 <= i < s.len() ==> t[i] == elems(s[i]).len()
    ensures sum_seq(t) == flat(s).len()
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| #![trigger t.drop_last()[i]] 0 <= i < t.len() - 1 implies t.drop_last()[i] == elems(s.drop_last()[i]).len() by { assert(t[i] == elems(s[i]).len()); } lemma_sum(t.drop_last(), s.drop_last()); assert(t[s.len() - 1] == elems(s[s.len() - 1]).len()); } }
/// the row a struct element is read from
pub open spec fn srow(r: Seq<(String, Value)>, v: Value) -> bool { match unw(v) { Value::Record(x) => r == x@, _ => null_row(r) } }
pub open spec fn kids_ok(fs: Fields, f: Seq<Value>, kids: Seq<ArrayData>) -> bool { kids.len() == fs.s().len() && forall|k: int| 0 <= k < kids.len() ==> (#[trigger] kids[k]).aty() == fs.s()[k].dt && kids[k].cs() == cells(fieldcol(f, k)) }
pub open spec fn records_set(bits: Seq<bool>, f: Seq<Value>) -> bool { bits.len() >= f.len() && forall|i: int| 0 <= i < f.len() ==> #[trigger] bits[i] == (unw(f[i]) is Record) }
/// struct cells put together from the cells of their fields
pub proof fn lemma_struct(b: ArrayDataBuilder, fs: Fields, f: Seq<Value>)
    requires readable(DataType::Struct(fs)), b.dt == DataType::Struct(fs), b.n == f.len(), b.nulls is Some, records_set(b.null_bits(), f), b.bufs@.len() == 0, kids_ok(fs, f, b.kids@), all_fit(DataType::Struct(fs), f)
    ensures b.valid(), b.made_cells() == cells(f)
{
    assert forall|k: int| #![trigger b.kids@[k]] 0 <= k < fs.s().len() implies b.kids@[k].aty() == fs.s()[k].dt && b.kids@[k].cs().len() == b.n && (fs.s()[k].nullable || fs.s()[k].dt is Null || forall|i: int| 0 <= i < b.n && b.null_bits()[i] ==> !((#[trigger] b.kids@[k].cs()[i]) is Null)) by {
        assert(readable(fs.v@[k].dt)); if !fs.s()[k].nullable && !(fs.s()[k].dt is Null) { assert forall|i: int| 0 <= i < b.n && b.null_bits()[i] implies !((#[trigger] b.kids@[k].cs()[i]) is Null) by { assert(fits(DataType::Struct(fs), f[i])); assert(fitsf(*fs.s()[k], rec(f[i])[k].1)); lemma_nil(rec(f[i])[k].1); } }
    }
    assert forall|i: int| 0 <= i < f.len() implies b.made_cells()[i] == cells(f)[i] by {
        assert(fits(DataType::Struct(fs), f[i])); assert(b.null_bits()[i] == (unw(f[i]) is Record));
        if unw(f[i]) is Record { let x = Seq::new(b.kids@.len(), |k: int| b.kids@[k].cs()[i]); let y = Seq::new(rec(f[i]).len(), |k: int| if 0 <= k < rec(f[i]).len() { cell(rec(f[i])[k].1) } else { Cell::Null });
            assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { assert(b.kids@[k].cs() == cells(fieldcol(f, k))); }
            assert(x =~= y); assert(b.made_cells()[i] == Cell::Rec(x)); let z = cell(f[i])->Rec_0; assert(z =~= y); }
    }
    assert(b.made_cells() =~= cells(f));
}
pub proof fn lemma_nil(v: Value) requires !(unw(v) is Null), !(unw(v) is Union) ensures !(cell(v) is Null) {}
pub open spec fn bool_slot(n: Seq<bool>, v: Seq<bool>, i: int) -> Cell { if n[i] { Cell::Bool(v[i]) } else { Cell::Null } }
/// the cells of the lists cut out of the cells of their elements
pub proof fn lemma_list_cells(s: Seq<Value>, i: int)
    requires 0 <= i < s.len()
    ensures unw(s[i]) matches Value::Array(a) ==> cell(s[i]) == Cell::List(cells(flat(s)).subrange(flat(s.take(i)).len() as int, flat(s.take(i + 1)).len() as int))
{
    lemma_flat_part(s, i);
    if unw(s[i]) is Array {
        let a = unw(s[i])->Array_0;
        let (x, y) = (flat(s.take(i)).len() as int, flat(s.take(i + 1)).len() as int);
        let l = cells(flat(s)).subrange(x, y);
        assert forall|j: int| 0 <= j < a@.len() implies l[j] == cell(#[trigger] a@[j]) by { assert(flat(s).subrange(x, y)[j] == a@[j]); }
        assert(cell(s[i])->List_0 =~= l);
    }
}
pub axiom fn ax_slice_len<T>(s: &[&T]) ensures s@.len() <= isize::MAX;
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::build_nested_list_array
@attr
#[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
@rule each
@rule transparent_fmt
@rule method into_iter vx_into_iter
@rule path Arc::new vx_arc
@rule path OffsetSize::zero vx_off_zero
@rule path OffsetSize::one vx_off_one
@rule path OffsetSize::from_usize vx_off_from
@rule path bit_util::ceil vx_bit_ceil
@rule path bit_util::set_bit vx_set_bit
@rule path bit_util::unset_bit vx_unset_bit
@rule path GenericListArray::<OffsetSize>::from vx_list_array
@rule maploop 5 Vec<&Vec<(String, Value)>>
@rule maploop 6
@loops 5
@closures 8
@spec
    requires forall|i: int| 0 <= i < rows@.len() ==> list_field_ok(*list_field, *#[trigger] rows@[i]),
        flat(vals(rows@)).len() <= i32::MAX, small(list_field.dt, flat(vals(rows@))),
        indexed_dt(self.schema_lookup@, parent_field_name@ + "."@ + list_field.name@, list_field.dt), made(list_field.dt)
    ensures ret is Ok <==> listable(list_field.dt),
        ret matches Ok(a) ==> a.aty() is List && *(a.aty()->List_0) == *list_field && a.cs() == cells(vals(rows@))
@start
    let ghost s = vals(rows@); let ghost f = flat(s); let ghost lf = *list_field; let ghost rows0 = rows@;
    proof {
        ax_slice_len(rows);
        let p = |v: Value| fitsf(lf, v);
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < elems(s[i]).len() implies p(#[trigger] elems(s[i])[j]) by { assert(list_field_ok(lf, *rows0[i])); }
        lemma_flat_all(s, p);
        assert forall|i: int| 0 <= i < f.len() implies fitsf(lf, #[trigger] f[i]) by { assert(p(f[i])); }
        assert forall|i: int| 0 <= i < s.len() implies list_field_ok(lf, #[trigger] s[i]) by { assert(list_field_ok(lf, *rows0[i])); }
        assert(s.take(0) =~= Seq::<Value>::empty());
        assert(s.take(s.len() as int) =~= s);
        reveal_strlit(".");
    }
@loop 0 pre
    let ghost mut vx_i: int = 0; assert(rows@ == rows0);
@loop 0
    invariant s == vals(rows0), f == flat(s), f.len() <= i32::MAX, forall|i: int| 0 <= i < s.len() ==> list_field_ok(lf, #[trigger] s[i]), 0 <= vx_i <= s.len(), vx_it0@.len() == s.len() - vx_i,
        forall|j: int| #![trigger vx_it0@[j]] 0 <= j < vx_it0@.len() ==> vx_it0@[j].0 == vx_i + j && *vx_it0@[j].1 == rows0[vx_i + j],
        offsets@.len() == vx_i + 1, forall|j: int| 0 <= j <= vx_i ==> #[trigger] offsets@[j] == flat(s.take(j)).len(), cur_offset == flat(s.take(vx_i)).len(),
        list_nulls@.len() >= s.len(), forall|j: int| 0 <= j < s.len() ==> #[trigger] list_nulls@[j] == (j < vx_i && unw(s[j]) is Array),
    ensures vx_i == s.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { lemma_flat_part(s, vx_i); assert(s[vx_i] == *rows0[vx_i]); assert(list_field_ok(lf, s[vx_i])); vx_i = vx_i + 1; }
@after let valid_len
    assert(valid_len == f.len());
    proof { assert forall|i: int| 0 <= i < rows@.len() implies list_prims(lf, *#[trigger] rows@[i]) by { lemma_list_prims(lf, *rows@[i]); }
    assert(lf.dt is Utf8 ==> f.map_values(|v: Value| text(v)).map_values(|x: Option<String>| text_cell(x)) =~= cells(f)) by { if lf.dt is Utf8 { assert forall|i: int| 0 <= i < f.len() implies text_cell(text(#[trigger] f[i])) == cell(f[i]) by { assert(fitsf(lf, f[i])); } } }
    }
@loop 1 pre
    let ghost mut vx_i: int = 0; assert(s.take(0) =~= Seq::<Value>::empty());
@loop 1
    invariant s == vals(rows0), f == flat(s), f.len() <= i32::MAX, forall|i: int| 0 <= i < s.len() ==> list_field_ok(lf, #[trigger] s[i]), forall|i: int| 0 <= i < f.len() ==> fitsf(lf, #[trigger] f[i]), lf.dt is Boolean,
        0 <= vx_i <= s.len(), vx_it1@.len() == s.len() - vx_i, forall|j: int| #![trigger vx_it1@[j]] 0 <= j < vx_it1@.len() ==> *vx_it1@[j] == rows0[vx_i + j],
        curr_index == flat(s.take(vx_i)).len(), bool_values@.len() >= f.len(), bool_nulls@.len() >= f.len(),
        forall|j: int| 0 <= j < curr_index ==> bool_slot(bool_nulls@, bool_values@, j) == cell(#[trigger] f[j]), forall|j: int| #![trigger bool_nulls@[j]] #![trigger bool_values@[j]] curr_index <= j < f.len() ==> bool_nulls@[j] && !bool_values@[j],
    ensures vx_i == s.len()
    decreases vx_it1@.len()
@loop 1 start
    let ghost base = curr_index as int; let ghost row_e = elems(*rows0[vx_i]); let ghost row_i = vx_i;
    proof { lemma_flat_part(s, vx_i); assert(s[vx_i] == *rows0[vx_i]); assert(list_field_ok(lf, s[vx_i]));
        assert forall|k: int| 0 <= k < row_e.len() implies row_e[k] == f[base + k] by { assert(f.subrange(base, base + row_e.len())[k] == row_e[k]); }
        vx_i = vx_i + 1; }
@loop 2 pre
    let ghost mut vx_k: int = 0; assert(vs@ == row_e);
@loop 2
    invariant f.len() <= i32::MAX, forall|i: int| 0 <= i < f.len() ==> fitsf(lf, #[trigger] f[i]), lf.dt is Boolean, 0 <= vx_k <= row_e.len(), base + row_e.len() <= f.len(), forall|k: int| 0 <= k < row_e.len() ==> row_e[k] == #[trigger] f[base + k],
        vx_it2@.len() == row_e.len() - vx_k, forall|j: int| #![trigger vx_it2@[j]] 0 <= j < vx_it2@.len() ==> *vx_it2@[j] == row_e[vx_k + j],
        curr_index == base + vx_k, base >= 0, bool_values@.len() >= f.len(), bool_nulls@.len() >= f.len(),
        forall|j: int| 0 <= j < curr_index ==> bool_slot(bool_nulls@, bool_values@, j) == cell(#[trigger] f[j]), forall|j: int| #![trigger bool_nulls@[j]] #![trigger bool_values@[j]] curr_index <= j < f.len() ==> bool_nulls@[j] && !bool_values@[j],
    ensures vx_k == row_e.len()
    decreases vx_it2@.len()
@loop 2 start
    assert(*value == f[base + vx_k]); assert(fitsf(lf, f[base + vx_k])); proof { vx_k = vx_k + 1; }
@before ArrayData::builder(list_field.data_type().clone())
    proof { assert forall|b: ArrayDataBuilder| #[trigger] b.valid() && b.dt is Boolean && b.n == f.len() && b.bufs@[0].bits() == bool_values@ && b.null_bits() == bool_nulls@ implies b.made_cells() == cells(f) by {
        assert forall|i: int| 0 <= i < f.len() implies b.made_cells()[i] == cells(f)[i] by { assert(bool_slot(bool_nulls@, bool_values@, i) == cell(f[i])); } assert(b.made_cells() =~= cells(f)); } }
@before let sub_parent_field_name = format

    proof { if lf.dt is List { let g = *(lf.dt->List_0);
        assert forall|r: Seq<&Value>, i: int| vals(r) == f && 0 <= i < r.len() implies list_field_ok(g, *#[trigger] r[i]) by { assert(vals(r)[i] == *r[i]); assert(fitsf(lf, f[i])); } } }
@before let array_item_count
    proof { assert forall|t: Seq<usize>| t.len() == s.len() && (forall|i: int| #![trigger t[i]] 0 <= i < s.len() ==> t[i] == elems(*rows0[i]).len()) implies #[trigger] sum_seq(t) == f.len() by
        { assert forall|i: int| #![trigger t[i]] 0 <= i < s.len() implies t[i] == elems(s[i]).len() by { assert(s[i] == *rows0[i]); } lemma_sum(t, s); } }
@closure 3
    |$1: &&Value| -> (r: usize) requires list_field_ok(lf, **row) ensures r == elems(**row).len()
@closure 4
    |$1: &&Value| -> (r: &Value) ensures *r == unw(**v)
@loop 3 pre
    let ghost mut vx_i: int = 0; assert(s.take(0) =~= Seq::<Value>::empty());
@loop 3
    invariant s == vals(rows0), f == flat(s), f.len() <= i32::MAX, forall|i: int| 0 <= i < s.len() ==> list_field_ok(lf, #[trigger] s[i]), forall|i: int| 0 <= i < f.len() ==> fitsf(lf, #[trigger] f[i]), lf.dt is Struct,
        0 <= vx_i <= s.len(), vx_it3@.len() == s.len() - vx_i, forall|j: int| #![trigger vx_it3@[j]] 0 <= j < vx_it3@.len() ==> *vx_it3@[j] == unw(s[vx_i + j]),
        null_row(null_struct_array@), vx_out5@.len() == struct_index, struct_index == flat(s.take(vx_i)).len(), null_buffer@.len() >= f.len(),
        forall|j: int| 0 <= j < struct_index ==> srow((#[trigger] vx_out5@[j])@, f[j]), forall|j: int| 0 <= j < f.len() ==> #[trigger] null_buffer@[j] == (j < struct_index && unw(f[j]) is Record),
    ensures vx_i == s.len()
    decreases vx_it3@.len()
@loop 3 start
    let ghost base = struct_index as int; let ghost row_e = elems(s[vx_i]); let ghost row_i = vx_i;
    proof { lemma_flat_part(s, vx_i); assert(list_field_ok(lf, s[vx_i]));
        assert forall|k: int| 0 <= k < row_e.len() implies row_e[k] == f[base + k] by { assert(f.subrange(base, base + row_e.len())[k] == row_e[k]); }
        vx_i = vx_i + 1; }
@loop 4 pre
    let ghost mut vx_k: int = 0; assert(values@ == row_e);
@loop 4
    invariant f.len() <= i32::MAX, forall|i: int| 0 <= i < f.len() ==> fitsf(lf, #[trigger] f[i]), lf.dt is Struct, 0 <= vx_k <= row_e.len(), base + row_e.len() <= f.len(), forall|k: int| 0 <= k < row_e.len() ==> row_e[k] == #[trigger] f[base + k],
        vx_it4@.len() == row_e.len() - vx_k, forall|j: int| #![trigger vx_it4@[j]] 0 <= j < vx_it4@.len() ==> *vx_it4@[j] == unw(row_e[vx_k + j]),
        struct_index == base + vx_k, base >= 0, null_row(null_struct_array@), vx_out6@.len() == vx_k, null_buffer@.len() >= f.len(),
        forall|j: int| 0 <= j < vx_k ==> srow((#[trigger] vx_out6@[j])@, f[base + j]), forall|j: int| 0 <= j < f.len() ==> #[trigger] null_buffer@[j] == (j < struct_index && unw(f[j]) is Record),
    ensures vx_k == row_e.len()
    decreases vx_it4@.len()
@loop 4 start
    assert(*v == unw(f[base + vx_k])); assert(fitsf(lf, f[base + vx_k])); proof { vx_k = vx_k + 1; }
@after let array_item_count
    assert(array_item_count == f.len());
@before let arrays = self.build_struct_array
    let ghost fs = lf.dt->Struct_0;
    proof {
        assert(rows@.len() == f.len());
        assert forall|k: int| 0 <= k < fs.s().len() implies #[trigger] col(rows@, k) == fieldcol(f, k) by { assert forall|j: int| 0 <= j < f.len() implies at(rows@[j]@, k) == at(rec(f[j]), k) by { assert(srow(rows@[j]@, f[j])); assert(fitsf(lf, f[j])); } assert(col(rows@, k) =~= fieldcol(f, k)); }
        assert forall|j: int| 0 <= j < rows@.len() implies row_ok(fs, #[trigger] rows@[j]@) by { assert(srow(rows@[j]@, f[j])); assert(fitsf(lf, f[j])); }
        assert forall|b: ArrayDataBuilder| readable(DataType::Struct(fs)) && b.dt == DataType::Struct(fs) && b.n == f.len() && b.null_bits() == null_buffer@ && b.nulls is Some && b.bufs@.len() == 0 && kids_ok(fs, f, b.kids@) implies #[trigger] b.valid() && b.made_cells() == cells(f) by {
            assert forall|i: int| 0 <= i < f.len() implies fits(DataType::Struct(fs), #[trigger] f[i]) by { assert(fitsf(lf, f[i])); }
            lemma_struct(b, fs, f);
        }
    }
@closure 7
    |$1: ArrayRef| -> (r: ArrayData) ensures r.aty() == a.aty(), r.cs() == a.cs()
@before let list_data = ArrayData::builder
    assert(array_data.aty() == lf.dt && array_data.cs() == cells(f));
    proof {
        let o = Seq::new((s.len() + 1) as nat, |j: int| flat(s.take(j)).len() as int);
        assert(offsets@.map_values(|x: i32| x as int) =~= o);
        assert forall|i: int, j: int| 0 <= i <= j < o.len() implies o[i] <= o[j] by { lemma_flat_mono(s, i, j); }
        if !lf.nullable && !(lf.dt is Null) { assert forall|i: int| 0 <= i < f.len() implies !((#[trigger] cells(f)[i]) is Null) by { assert(fitsf(lf, f[i])); } }
        assert forall|b: ArrayDataBuilder| #[trigger] b.valid() && (b.dt matches DataType::List(g) && *g == lf) && b.n == s.len() && b.bufs@[0].offs() == o && b.null_bits() == list_nulls@ && b.kids@[0].cs() == cells(f) implies b.made_cells() == cells(s) by {
            assert forall|i: int| 0 <= i < s.len() implies b.made_cells()[i] == cells(s)[i] by { lemma_list_cells(s, i); assert(list_field_ok(lf, s[i])); assert(list_nulls@[i] == (unw(s[i]) is Array)); }
            assert(b.made_cells() =~= cells(s)); }
    }
//@end

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, U, F: FnOnce(T) -> core::result::Result<U, E> + core::marker::Destruct> [core::result::Result::<T, E>::and_then] (o: core::result::Result<T, E>, f: F) -> (r: core::result::Result<U, E>)
    requires o matches Ok(x) ==> f.requires((x,)) ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
impl<T> VIter<T> { #[verifier::external_body] pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>) requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)) { unimplemented!() } }
// ---- batches -----------------------------------------------------------------------------------------------------------------
pub struct RecordBatch { pub schema: Arc<Schema>, pub cols: Vec<ArrayRef> }
impl RecordBatch {
    /// what RecordBatch::try_new checks
    pub open spec fn valid(fs: Fields, cols: Seq<ArrayRef>) -> bool {
        cols.len() == fs.s().len() && cols.len() > 0 && forall|k: int| #![trigger cols[k]] 0 <= k < cols.len() ==> cols[k].aty() == fs.s()[k].dt && cols[k].cs().len() == cols[0].cs().len() && (fs.s()[k].nullable || fs.s()[k].dt is Null || no_null(cols[k].cs()))
    }
    #[verifier::external_body] pub fn try_new(schema: Arc<Schema>, cols: Vec<ArrayRef>) -> (r: ArrowResult<RecordBatch>)
        ensures r is Ok <==> Self::valid(schema.fields, cols@), r matches Ok(b) ==> b.schema == schema && b.cols == cols { unimplemented!() }
}
pub open spec fn is_rec(v: AvroResult<Value>) -> bool { v matches Ok(Value::Record(_)) }
pub open spec fn recs(s: Seq<AvroResult<Value>>) -> Seq<Value> { s.map_values(|v: AvroResult<Value>| v->Ok_0) }
/// the batch that holds the values of the type's fields, row by row
pub open spec fn batch_of(b: RecordBatch, fs: Fields, vs: Seq<Value>) -> bool {
    b.schema.fields.fields_of() == fs.fields_of() && b.cols@.len() == fs.s().len() && forall|k: int| 0 <= k < fs.s().len() ==> (#[trigger] b.cols@[k]).aty() == fs.s()[k].dt && b.cols@[k].cs() == cells(fieldcol(vs, k))
}
impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
    /// the reader is for records of the type its schema says
    pub closed spec fn wf(self) -> bool { self.projection is None && made(DataType::Struct(self.schema.fields)) && indexed_dt(self.schema_lookup@, Seq::empty(), DataType::Struct(self.schema.fields)) }
}
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::next_batch
@rule path Arc::new vx_arc
@rule path ArrowError::ParseError vx_parse_error
@spec
    requires old(self).wf(), ({ let n = at_most(batch_size as int, old(self).values.rest().len() as int); let s = old(self).values.rest().take(n);
        (forall|i: int| 0 <= i < n ==> ((#[trigger] s[i]) matches Ok(Value::Record(r)) ==> full_row(old(self).schema.fields, r@))) && ((forall|i: int| 0 <= i < n ==> is_rec(#[trigger] s[i])) ==> small(DataType::Struct(old(self).schema.fields), recs(s))) })
    ensures final(self).schema == old(self).schema, final(self).wf(),
        ({ let n = at_most(batch_size as int, old(self).values.rest().len() as int); let s = old(self).values.rest().take(n);
            if n == 0 { ret is None }
            else if exists|i: int| 0 <= i < n && !is_rec(#[trigger] s[i]) { ret matches Some(Err(_)) }
            else { ret is Some && (ret->Some_0 is Ok <==> readable(DataType::Struct(old(self).schema.fields)) && old(self).schema.fields.s().len() > 0)
                && (ret matches Some(Ok(b)) ==> batch_of(b, old(self).schema.fields, recs(s)) && final(self).values.rest() == old(self).values.rest().skip(n)) } })
@start
    let ghost fs = self.schema.fields; let ghost n = at_most(batch_size as int, self.values.rest().len() as int); let ghost s = self.values.rest().take(n); let ghost vs = recs(s);
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
@after let rows = rows.iter()
    proof {
        assert forall|k: int| 0 <= k < fs.s().len() implies #[trigger] col(rows@, k) == fieldcol(vs, k) by { assert(col(rows@, k) =~= fieldcol(vs, k)) by { assert forall|i: int| 0 <= i < n implies at(rows@[i]@, k) == at(rec(vs[i]), k) by { assert(is_rec(s[i])); } } }
        assert forall|i: int| 0 <= i < n implies full_row(fs, (#[trigger] rows@[i])@) by { assert(is_rec(s[i])); }
    }
@before Some(arrays.and_then
    proof {
        assert(self.schema.fields == fs);
        let gs = projected_schema.fields;
        assert(gs.fields_of() == fs.fields_of()); assert(gs.fields_of().len() == gs.s().len());
        assert forall|k: int| 0 <= k < fs.s().len() implies *#[trigger] gs.s()[k] == *fs.s()[k] by { assert(gs.fields_of()[k] == fs.fields_of()[k]); }
        if arrays is Ok {
            let arrs = arrays->Ok_0@;
            assert forall|k: int| #![trigger arrs[k]] 0 <= k < arrs.len() implies arrs[k].aty() == gs.s()[k].dt && arrs[k].cs().len() == n && arrs[k].cs() == cells(fieldcol(vs, k)) && (gs.s()[k].nullable || gs.s()[k].dt is Null || no_null(arrs[k].cs())) by {
                assert(col(rows@, k) == fieldcol(vs, k));
                assert(readable(fs.v@[k].dt)); if !fs.s()[k].nullable && !(fs.s()[k].dt is Null) { assert forall|i: int| 0 <= i < n implies !((#[trigger] arrs[k].cs()[i]) is Null) by { assert(full_row(fs, rows@[i]@)); assert(fitsf(*fs.s()[k], rows@[i]@[k].1)); lemma_nil(rows@[i]@[k].1); } }
            }
            assert(RecordBatch::valid(gs, arrs) <==> fs.s().len() > 0);
        }
    }
@closure 0
    |$1: AvroResult<Value>| -> (r: ArrowResult<Vec<(String, Value)>>) ensures r is Ok <==> is_rec(value), r matches Ok(v) ==> value == Ok::<Value, AvroErr>(Value::Record(v))
@closure 1
    |$1: &String| -> (r: Option<(usize, &Field)>) ensures true
@closure 3
    |$1: Vec<ArrayRef>| -> (r: ArrowResult<RecordBatch>) ensures r is Ok <==> RecordBatch::valid(projected_schema.fields, arr@), r matches Ok(b) ==> b.schema == projected_schema && b.cols == arr
@closure 2
    |$1: (usize, &Field)| -> (r: Field) ensures true
//@end

// ---- avro schemas ----------------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct Name { _p: () }
impl Name { #[verifier::external_body] pub fn fullname(&self, ns: Option<String>) -> String { unimplemented!() } }
pub struct ArraySchema { pub items: Box<AvroSchema> }
pub struct MapSchema { pub types: Box<AvroSchema> }
pub struct UnionSchema { pub schemas: Vec<AvroSchema> }
pub struct RecordField { pub name: String, pub doc: Option<String>, pub schema: AvroSchema, pub position: usize }
pub struct RecordSchema { pub fields: Vec<RecordField>, pub lookup: VMap<String, usize> }
pub struct EnumSchema { pub symbols: Vec<String> }
pub struct FixedSchema { pub size: usize }
pub struct DecimalSchema { pub precision: usize, pub scale: usize }
/// apache_avro::Schema
pub enum AvroSchema {
    Null, Boolean, Int, Long, Float, Double, Bytes, String, Array(ArraySchema), Map(MapSchema), Union(UnionSchema), Record(RecordSchema), Enum(EnumSchema), Fixed(FixedSchema), Decimal(DecimalSchema),
    BigDecimal, Uuid, Date, TimeMillis, TimeMicros, TimestampMillis, TimestampMicros, TimestampNanos, LocalTimestampMillis, LocalTimestampMicros, LocalTimestampNanos, Duration, Ref { name: Name },
}
impl Clone for AvroSchema { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn has_null(us: Seq<AvroSchema>) -> bool { exists|i: int| 0 <= i < us.len() && (#[trigger] us[i]) is Null }
/// null or something else
pub open spec fn optional(s: AvroSchema) -> bool { s matches AvroSchema::Union(u) && u.schemas@.len() == 2 && has_null(u.schemas@) }
pub open spec fn any_null(s: AvroSchema) -> bool { s matches AvroSchema::Union(u) && has_null(u.schemas@) }
/// the something else
pub open spec fn other(us: Seq<AvroSchema>) -> int { if us[0] is Null { 1 } else { 0 } }
impl UnionSchema {
    #[verifier::external_body] pub fn is_nullable(&self) -> (r: bool) ensures r == has_null(self.schemas@) { unimplemented!() }
    pub fn variants(&self) -> (r: &[AvroSchema]) ensures r@ == self.schemas@ { self.schemas.as_slice() }
}
impl RecordField { #[verifier::external_body] pub fn is_nullable(&self) -> (r: bool) ensures r == any_null(self.schema) { unimplemented!() } }
/// a name of Avro's
pub open spec fn avro_name(n: Seq<char>) -> bool { n.len() > 0 && !n.contains('.') }
/// what apache_avro makes sure of when it parses a schema (and sizes arrow has room for)
pub open spec fn parsed(s: AvroSchema) -> bool decreases s {
    match s {
        AvroSchema::Array(a) => parsed(*a.items),
        AvroSchema::Map(m) => parsed(*m.types),
        AvroSchema::Union(u) => forall|i: int| 0 <= i < u.schemas@.len() ==> parsed(#[trigger] u.schemas@[i]) && !(u.schemas@[i] is Union) && (u.schemas@.len() == 2 && i == 1 ==> !(u.schemas@[0] is Null && u.schemas@[1] is Null)),
        AvroSchema::Record(r) => forall|k: int| 0 <= k < r.fields@.len() ==> avro_name((#[trigger] r.fields@[k]).name@) && r.lookup@.dom().contains(r.fields@[k].name@) && r.lookup@[r.fields@[k].name@] == k && parsed(r.fields@[k].schema),
        AvroSchema::Fixed(f) => f.size <= i32::MAX,
        _ => true,
    }
}

// ---- where the reader finds the fields ------------------------------------------------------------------------------------------
pub open spec fn indexed(m: Map<Seq<char>, usize>, p: Seq<char>, s: AvroSchema) -> bool decreases s {
    match s {
        AvroSchema::Array(a) => indexed(m, p + ".element"@, *a.items),
        AvroSchema::Union(u) => optional(s) ==> indexed(m, p, u.schemas@[other(u.schemas@)]),
        AvroSchema::Record(r) => forall|k: int| 0 <= k < r.fields@.len() ==> m.dom().contains(path(p, (#[trigger] r.fields@[k]).name@)) && m[path(p, r.fields@[k].name@)] == k && indexed(m, path(p, r.fields@[k].name@), r.fields@[k].schema),
        _ => true,
    }
}
pub open spec fn begins(x: Seq<char>, key: Seq<char>) -> bool { x.len() <= key.len() && forall|i: int| 0 <= i < x.len() ==> key[i] == #[trigger] x[i] }
pub open spec fn same_at(m: Map<Seq<char>, usize>, m2: Map<Seq<char>, usize>, k: Seq<char>) -> bool { m.dom().contains(k) == m2.dom().contains(k) && (m.dom().contains(k) ==> m[k] == m2[k]) }
/// nothing but what is below p differs
pub open spec fn same_outside(m: Map<Seq<char>, usize>, m2: Map<Seq<char>, usize>, p: Seq<char>) -> bool { forall|k: Seq<char>| !begins(p + "."@, k) ==> #[trigger] same_at(m, m2, k) }
pub open spec fn same_below(m: Map<Seq<char>, usize>, m2: Map<Seq<char>, usize>, p: Seq<char>) -> bool { forall|k: Seq<char>| begins(p + "."@, k) ==> #[trigger] same_at(m, m2, k) }
pub proof fn lemma_begins(p: Seq<char>, q: Seq<char>, k: Seq<char>) requires begins(p + "."@ + q, k) ensures begins(p + "."@, k)
{ let x = p + "."@ + q; let y = p + "."@; assert forall|i: int| 0 <= i < y.len() implies k[i] == #[trigger] y[i] by { assert(x[i] == y[i]); } }
pub proof fn lemma_dots() ensures ".element"@ =~= "."@ + "element"@, "."@ =~= seq!['.'] { reveal_strlit(".element"); reveal_strlit("."); reveal_strlit("element"); }
pub proof fn lemma_below(m: Map<Seq<char>, usize>, m2: Map<Seq<char>, usize>, p: Seq<char>, s: AvroSchema)
    requires p.len() > 0, indexed(m, p, s), same_below(m, m2, p)
    ensures indexed(m2, p, s)
    decreases s
{
    lemma_dots();
    match s {
        AvroSchema::Array(a) => {
            let q = p + ".element"@; assert(q == p + "."@ + "element"@);
            assert(same_below(m, m2, q)) by { assert forall|k: Seq<char>| begins(q + "."@, k) implies same_at(m, m2, k) by { assert(q + "."@ == p + "."@ + ("element"@ + "."@)); lemma_begins(p, "element"@ + "."@, k); } }
            lemma_below(m, m2, q, *a.items);
        }
        AvroSchema::Union(u) => { if optional(s) { lemma_below(m, m2, p, u.schemas@[other(u.schemas@)]); } }
        AvroSchema::Record(r) => {
            assert forall|j: int| 0 <= j < r.fields@.len() implies m2.dom().contains(path(p, (#[trigger] r.fields@[j]).name@)) && m2[path(p, r.fields@[j].name@)] == j && indexed(m2, path(p, r.fields@[j].name@), r.fields@[j].schema) by {
                let n = r.fields@[j].name@; let q = path(p, n);
                assert(begins(p + "."@, q)); assert(same_at(m, m2, q));
                assert(same_below(m, m2, q)) by { assert forall|k: Seq<char>| begins(q + "."@, k) implies same_at(m, m2, k) by { assert(q + "."@ == p + "."@ + (n + "."@)); lemma_begins(p, n + "."@, k); } }
                lemma_below(m, m2, q, r.fields@[j].schema);
            }
        }
        _ => {}
    }
}
/// names without dots keep what is below them apart
pub proof fn lemma_apart(q: Seq<char>, a: Seq<char>, b: Seq<char>, k: Seq<char>)
    requires avro_name(a), avro_name(b), begins(q + a + "."@, k), begins(q + b + "."@, k)
    ensures a == b
{
    lemma_dots();
    let (x, y) = (q + a + "."@, q + b + "."@); let n = q.len() as int;
    assert(x[n + a.len()] == '.'); assert(y[n + b.len()] == '.');
    if a.len() < b.len() { assert(y[n + a.len()] == b[a.len() as int]); assert(k[n + a.len()] == '.'); assert(b.contains('.')); }
    else if b.len() < a.len() { assert(x[n + b.len()] == a[b.len() as int]); assert(k[n + b.len()] == '.'); assert(a.contains('.')); }
    else { assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(x[n + i] == a[i]); assert(y[n + i] == b[i]); assert(k[n + i] == x[n + i]); assert(k[n + i] == y[n + i]); } assert(a =~= b); }
}
pub proof fn lemma_no_dot(q: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires avro_name(b)
    ensures !begins(q + a + "."@, q + b)
{
    lemma_dots(); let x = q + a + "."@; let k = q + b; let n = q.len() as int;
    if begins(x, k) { assert(x[n + a.len()] == '.'); assert(k[n + a.len()] == b[a.len() as int]); assert(b.contains('.')); }
}
pub open spec fn prefix(p: Seq<char>) -> Seq<char> { if p.len() == 0 { p } else { p + "."@ } }
/// one field's names added below it: the others' stay
pub proof fn lemma_field(m: Map<Seq<char>, usize>, m2: Map<Seq<char>, usize>, p: Seq<char>, r: RecordSchema, i: int)
    requires parsed(AvroSchema::Record(r)), 0 <= i < r.fields@.len(), same_outside(m, m2, path(p, r.fields@[i].name@)),
        forall|k: int| 0 <= k < r.fields@.len() ==> m.dom().contains(path(p, (#[trigger] r.fields@[k]).name@)) && m[path(p, r.fields@[k].name@)] == k,
        forall|k: int| 0 <= k < i ==> indexed(m, path(p, (#[trigger] r.fields@[k]).name@), r.fields@[k].schema)
    ensures forall|k: int| 0 <= k < r.fields@.len() ==> m2.dom().contains(path(p, (#[trigger] r.fields@[k]).name@)) && m2[path(p, r.fields@[k].name@)] == k,
        forall|k: int| 0 <= k < i ==> indexed(m2, path(p, (#[trigger] r.fields@[k]).name@), r.fields@[k].schema)
{
    let q = prefix(p); let a = r.fields@[i].name@;
    assert(avro_name(a)); assert(path(p, a) =~= q + a);
    assert forall|k: int| 0 <= k < r.fields@.len() implies m2.dom().contains(path(p, (#[trigger] r.fields@[k]).name@)) && m2[path(p, r.fields@[k].name@)] == k && (k < i ==> indexed(m2, path(p, r.fields@[k].name@), r.fields@[k].schema)) by {
        let b = r.fields@[k].name@; assert(avro_name(b)); assert(path(p, b) =~= q + b);
        lemma_no_dot(q, a, b); assert(same_at(m, m2, q + b));
        if k < i {
            assert(a != b) by { assert(r.lookup@[r.fields@[i].name@] == i); assert(r.lookup@[r.fields@[k].name@] == k); }
            assert(same_below(m, m2, q + b)) by { assert forall|x: Seq<char>| begins(q + b + "."@, x) implies same_at(m, m2, x) by { if begins(q + a + "."@, x) { lemma_apart(q, a, b, x); } } }
            lemma_below(m, m2, q + b, r.fields@[k].schema);
        }
    }
}
pub proof fn lemma_cancel(q: Seq<char>, a: Seq<char>, b: Seq<char>) requires a != b ensures q + a != q + b
{ if q + a == q + b { assert((q + a).len() == q.len() + a.len()); assert((q + b).len() == q.len() + b.len()); assert(a.len() == b.len()); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert((q + a)[q.len() + i] == a[i]); assert((q + b)[q.len() + i] == b[i]); } assert(a =~= b); } }
pub proof fn lemma_at(e: Seq<(&String, &usize)>, m: Map<Seq<char>, usize>, k: Seq<char>) requires lists::<String, usize>(e, m, |k: Seq<char>| true), m.dom().contains(k) ensures exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0@ == k && *e[i].1 == m[k]
{ let p = |k: Seq<char>| true; assert(p(k)); let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.k() == k; assert(e[i].0@ == k); }
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::child_schema_lookup
@attr
#[verifier::exec_allows_no_decreases_clause]
@rule path Result Result
@rule each
@rule transparent_fmt
@loops 2
@closures 2
@spec
    requires parsed(*schema), parent_field_name@.len() > 0
    ensures ret is Ok, indexed(final(schema_lookup)@, parent_field_name@, *schema), same_outside(old(schema_lookup)@, final(schema_lookup)@, parent_field_name@)
@start
    let ghost p = parent_field_name@; let ghost m0 = schema_lookup@; let ghost r = schema->Record_0;
    proof { lemma_dots(); }
@closure 0
    |$1: &&AvroSchema| -> (r: bool) ensures r == !(**vx_a0 is Null)
@loop 0 pre
    let ghost e = vx_it0@; let ghost mut vx_i: int = 0;
@loop 0
    invariant 0 <= vx_i <= e.len(), vx_it0@ == e.skip(vx_i), p == parent_field_name@, same_outside(m0, schema_lookup@, p),
        forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && i != j ==> (#[trigger] e[i]).0@ != (#[trigger] e[j]).0@,
        forall|j: int| 0 <= j < vx_i ==> schema_lookup@.dom().contains(p + "."@ + (#[trigger] e[j]).0@) && schema_lookup@[p + "."@ + e[j].0@] == *e[j].1,
    ensures vx_i == e.len()
    decreases vx_it0@.len()
@loop 0 start
    let ghost m1 = schema_lookup@;
    proof { lemma_dots(); let n = e[vx_i].0@; let q = p + "."@ + n; assert(begins(p + "."@, q));
        assert forall|j: int| 0 <= j < e.len() && j != vx_i implies #[trigger] (p + "."@ + e[j].0@) != q by { lemma_cancel(p + "."@, e[j].0@, n); }
        vx_i = vx_i + 1; }
@loop 0 end
    proof { let q = p + "."@ + e[vx_i - 1].0@; assert(begins(p + "."@, q)); assert forall|k: Seq<char>| !begins(p + "."@, k) implies #[trigger] same_at(m0, schema_lookup@, k) by { assert(same_at(m0, m1, k)); assert(k != q); } }
@loop 0 post
    proof { assert forall|k: int| 0 <= k < r.fields@.len() implies schema_lookup@.dom().contains(path(p, (#[trigger] r.fields@[k]).name@)) && schema_lookup@[path(p, r.fields@[k].name@)] == k by { lemma_at(e, r.lookup@, r.fields@[k].name@); } }
@loop 1 pre
    let ghost mut vx_i: int = 0;
@loop 1
    invariant p == parent_field_name@, p.len() > 0, *schema == AvroSchema::Record(r), parsed(*schema), 0 <= vx_i <= r.fields@.len(), vx_it1@ == r.fields@.skip(vx_i).map_values(|x: RecordField| &x), same_outside(m0, schema_lookup@, p),
        forall|k: int| 0 <= k < r.fields@.len() ==> schema_lookup@.dom().contains(path(p, (#[trigger] r.fields@[k]).name@)) && schema_lookup@[path(p, r.fields@[k].name@)] == k,
        forall|k: int| 0 <= k < vx_i ==> indexed(schema_lookup@, path(p, (#[trigger] r.fields@[k]).name@), r.fields@[k].schema)
    ensures vx_i == r.fields@.len()
    decreases vx_it1@.len()
@loop 1 start
    let ghost m1 = schema_lookup@; proof { assert(*field == r.fields@[vx_i]); }
@loop 1 end
    proof { let q = path(p, r.fields@[vx_i].name@); assert(same_outside(m1, schema_lookup@, q)); lemma_field(m1, schema_lookup@, p, r, vx_i);
        assert(same_outside(m0, schema_lookup@, p)) by { assert forall|k: Seq<char>| !begins(p + "."@, k) implies same_at(m0, schema_lookup@, k) by { assert(same_at(m0, m1, k)); assert(!begins(q + "."@, k) ==> same_at(m1, schema_lookup@, k)); if begins(q + "."@, k) { assert(q + "."@ == p + "."@ + (r.fields@[vx_i].name@ + "."@)); lemma_begins(p, r.fields@[vx_i].name@ + "."@, k); } } }
        vx_i = vx_i + 1; }
@after Self::child_schema_lookup(&sub_parent_field_name, &schema.items
    proof { let q = p + ".element"@; assert(sub_parent_field_name@ =~= q);
        assert forall|k: Seq<char>| !begins(p + "."@, k) implies #[trigger] same_at(m0, schema_lookup@, k) by { if begins(q + "."@, k) { assert(q + "."@ == p + "."@ + ("element"@ + "."@)); lemma_begins(p, "element"@ + "."@, k); } } }
//@end

//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::schema_lookup
@rule path Result Result
@rule path CoreError::from vx_core_err
@loops 1
@spec
    requires parsed(schema)
    ensures ret is Ok <==> schema is Record, ret matches Ok(m) ==> indexed(m@, Seq::empty(), schema)
@start
    let ghost s = schema; let ghost r = s->Record_0;
@loop 0 pre
    let ghost mut vx_i: int = 0; proof { assert forall|k: int| 0 <= k < r.fields@.len() implies path(Seq::empty(), (#[trigger] r.fields@[k]).name@) == r.fields@[k].name@ by {} }
@loop 0
    invariant s == AvroSchema::Record(r), parsed(s), 0 <= vx_i <= r.fields@.len(), vx_it0@ == r.fields@.skip(vx_i),
        forall|k: int| 0 <= k < r.fields@.len() ==> lookup@.dom().contains(path(Seq::empty(), (#[trigger] r.fields@[k]).name@)) && lookup@[path(Seq::empty(), r.fields@[k].name@)] == k,
        forall|k: int| 0 <= k < vx_i ==> indexed(lookup@, path(Seq::empty(), (#[trigger] r.fields@[k]).name@), r.fields@[k].schema)
    ensures vx_i == r.fields@.len()
    decreases vx_it0@.len()
@loop 0 start
    let ghost m1 = lookup@; proof { assert(field == r.fields@[vx_i]); }
@loop 0 end
    proof { lemma_field(m1, lookup@, Seq::empty(), r, vx_i); vx_i = vx_i + 1; }
//@end

// ---- the types of a schema -------------------------------------------------------------------------------------------------------
/// which schemas have a type
pub open spec fn mappable(s: AvroSchema) -> bool decreases s {
    match s {
        AvroSchema::Ref { name } => false, AvroSchema::BigDecimal => false,
        AvroSchema::Array(a) => mappable(*a.items), AvroSchema::Map(m) => mappable(*m.types),
        AvroSchema::Union(u) => if optional(s) { mappable(u.schemas@[other(u.schemas@)]) } else { forall|i: int| 0 <= i < u.schemas@.len() ==> mappable(#[trigger] u.schemas@[i]) },
        AvroSchema::Record(r) => forall|k: int| 0 <= k < r.fields@.len() ==> mappable((#[trigger] r.fields@[k]).schema),
        _ => true,
    }
}
/// the type a schema is read as
pub open spec fn maps(s: AvroSchema, dt: DataType) -> bool decreases s, 0nat {
    match s {
        AvroSchema::Null => dt is Null, AvroSchema::Boolean => dt is Boolean, AvroSchema::Int => dt is Int32, AvroSchema::Long => dt is Int64, AvroSchema::Float => dt is Float32, AvroSchema::Double => dt is Float64,
        AvroSchema::Bytes => dt is Binary, AvroSchema::String => dt is Utf8, AvroSchema::Enum(_) => dt is Utf8,
        AvroSchema::Fixed(f) => dt == DataType::FixedSizeBinary(f.size as i32), AvroSchema::Uuid => dt == DataType::FixedSizeBinary(16),
        AvroSchema::Date => dt is Date32, AvroSchema::TimeMillis => dt == DataType::Time32(TimeUnit::Millisecond), AvroSchema::TimeMicros => dt == DataType::Time64(TimeUnit::Microsecond),
        AvroSchema::TimestampMillis | AvroSchema::LocalTimestampMillis => dt == DataType::Timestamp(TimeUnit::Millisecond, None),
        AvroSchema::TimestampMicros | AvroSchema::LocalTimestampMicros => dt == DataType::Timestamp(TimeUnit::Microsecond, None),
        AvroSchema::TimestampNanos | AvroSchema::LocalTimestampNanos => dt == DataType::Timestamp(TimeUnit::Nanosecond, None),
        AvroSchema::Array(a) => dt matches DataType::List(f) && mapsf(*a.items, *f, "element"@, false),
        AvroSchema::Union(u) => if optional(s) { maps(u.schemas@[other(u.schemas@)], dt) } else { dt is Union },
        AvroSchema::Record(r) => dt matches DataType::Struct(fs) && fs.s().len() == r.fields@.len() && forall|k: int| #![trigger r.fields@[k]] #![trigger fs.v@[k]] 0 <= k < r.fields@.len() ==> mapsf(r.fields@[k].schema, *fs.v@[k], r.fields@[k].name@, false),
        AvroSchema::Map(_) => dt matches DataType::Dictionary(k, _) && *k is Utf8,
        AvroSchema::Decimal(_) => dt is Decimal128, AvroSchema::Duration => dt is Duration,
        AvroSchema::BigDecimal => false, AvroSchema::Ref { name } => false,
    }
}
pub open spec fn mapsf(s: AvroSchema, f: Field, n: Seq<char>, nullable: bool) -> bool decreases s, 1nat { maps(s, f.dt) && f.name@ == n && f.nullable == (nullable || optional(s)) }
/// the columns of a record
pub open spec fn reads(s: AvroSchema, fs: Seq<Field>) -> bool {
    s matches AvroSchema::Record(r) && fs.len() == r.fields@.len() && forall|k: int| #![trigger r.fields@[k]] #![trigger fs[k]] 0 <= k < fs.len() ==> mapsf(r.fields@[k].schema, fs[k], r.fields@[k].name@, any_null(r.fields@[k].schema))
}
impl Field {
    #[verifier::external_body] pub fn new(n: &str, dt: DataType, nullable: bool) -> (r: Field) ensures r.name@ == n@, r.dt == dt, r.nullable == nullable { unimplemented!() }
    #[verifier::external_body] pub fn set_metadata(&mut self, m: VMap<String, String>) ensures *final(self) == (Field { metadata: m, ..*old(self) }) { unimplemented!() }
}
impl Fields { #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() } }
impl UnionFields { #[verifier::external_body] pub fn new(ids: core::ops::Range<i8>, fs: Vec<Field>) -> UnionFields { unimplemented!() } }
pub trait VxPropsOr { fn vx_props(self) -> VMap<String, String>; }
impl VxPropsOr for Option<VMap<String, String>> { #[verifier::external_body] fn vx_props(self) -> VMap<String, String> { unimplemented!() /* unwrap_or_default */ } }
impl VxFromIter<core::result::Result<Field, CoreError>> for core::result::Result<Fields, CoreError> {
    open spec fn from_seq(s: Seq<core::result::Result<Field, CoreError>>, r: Self) -> bool { match r { Ok(v) => v.s().len() == s.len() && (forall|i: int| #![trigger s[i]] #![trigger v.v@[i]] 0 <= i < s.len() ==> s[i] == Ok::<Field, CoreError>(*v.v@[i])), Err(e) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Err } }
}
#[verifier::external_body] pub fn vx_core_err<E>(e: E) -> CoreError { unimplemented!() /* CoreError::from(e) */ }
#[verifier::external_body] pub fn vx_union_duplicate() -> AvroErr { unimplemented!() /* apache_avro::Error::GetUnionDuplicate */ }
//@fn crates/core/src/avro_to_arrow/schema.rs external_props
@rule path HashMap VMap
@trusted
@spec
    ensures true
//@end
pub open spec fn nameable(dt: DataType) -> bool { !(dt is Map) && !(dt is RunEndEncoded) && !(dt is Utf8View) && !(dt is BinaryView) && !(dt is ListView) && !(dt is LargeListView) }
//@fn crates/core/src/avro_to_arrow/schema.rs default_field_name
@spec
    requires nameable(*dt)
//@end
//@fn crates/core/src/avro_to_arrow/schema.rs schema_to_field_with_props
@attr
#[verifier::exec_allows_no_decreases_clause]
@rule path Result Result
@rule path CoreError::from vx_core_err
@rule path HashMap VMap
@rule method unwrap_or_default vx_props
@rule path apache_avro::Error::GetUnionDuplicate vx_union_duplicate()
@spec
    requires parsed(*schema)
    ensures ret is Ok <==> mappable(*schema), ret matches Ok(f) ==> maps(*schema, f.dt) && f.nullable == (nullable || optional(*schema)) && (name matches Some(n) ==> f.name@ == n@)
@closures 4
@before let data_type
    proof {
        let sc: AvroSchema = *schema;
        match sc {
            AvroSchema::Array(a) => { assert(field_type is List); assert(mapsf(*a.items, *field_type->List_0, "element"@, false)); }
            AvroSchema::Record(r) => { assert(field_type is Struct); let fs = field_type->Struct_0; assert forall|k: int| #![trigger r.fields@[k]] #![trigger fs.v@[k]] 0 <= k < r.fields@.len() implies mapsf(r.fields@[k].schema, *fs.v@[k], r.fields@[k].name@, false) by { } }
            AvroSchema::Union(u) => { if optional(*schema) { assert(maps(u.schemas@[other(u.schemas@)], field_type)); } assert(maps(*schema, field_type)); }
            _ => { assert(maps(*schema, field_type)); }
        }
        assert(maps(*schema, field_type));
    }
@after let data_type
    let ghost ty = data_type;
@closure 0
    |$1: &&AvroSchema| -> (r: bool) ensures r == !(**vx_a0 is Null)
@closure 1
    |$1: &AvroSchema| -> (r: Result<Field>) requires parsed(*s) ensures r is Ok <==> mappable(*s)
@closure 2
    |$1: &RecordField| -> (r: Result<Field>) requires parsed(field.schema) ensures r is Ok <==> mappable(field.schema), r matches Ok(f) ==> mapsf(field.schema, f, field.name@, false)
@closure 3
    || -> (r: &str) requires nameable(ty)
//@end

//@fn crates/core/src/avro_to_arrow/schema.rs schema_to_field
@rule path Result Result
@rule path apache_avro::Schema AvroSchema
@rule path Default::default vx_no_props
@spec
    requires parsed(*schema)
    ensures true
//@end
pub fn vx_no_props() -> (r: Option<VMap<String, String>>) ensures r is None { None }
//@fn crates/core/src/avro_to_arrow/schema.rs to_arrow_schema
@rule path Result Result
@rule path apache_avro::Schema AvroSchema
@loops 1
@spec
    requires parsed(*avro_schema)
    ensures *avro_schema is Record ==> (ret is Ok <==> mappable(*avro_schema)), ret matches Ok(a) ==> (*avro_schema is Record ==> reads(*avro_schema, a.fields.fields_of()))
@start
    let ghost r = (*avro_schema)->Record_0;
@loop 0 pre
    let ghost mut vx_i: int = 0;
@loop 0
    invariant *avro_schema == AvroSchema::Record(r), parsed(*avro_schema), 0 <= vx_i <= r.fields@.len(), vx_it0@ == r.fields@.skip(vx_i).map_values(|x: RecordField| &x), schema_fields@.len() == vx_i,
        forall|k: int| #![trigger r.fields@[k]] #![trigger schema_fields@[k]] 0 <= k < vx_i ==> mappable(r.fields@[k].schema) && mapsf(r.fields@[k].schema, schema_fields@[k], r.fields@[k].name@, any_null(r.fields@[k].schema))
    ensures vx_i == r.fields@.len()
    decreases vx_it0@.len()
@loop 0 start
    proof { assert(*field == r.fields@[vx_i]); }
@loop 0 end
    proof { vx_i = vx_i + 1; }
//@end
//@fn crates/core/src/avro_to_arrow/arrow_array_reader.rs AvroArrowArrayReader::try_new
@rule path Result Result
@spec
    requires parsed(*writer_schema)
    ensures ret is Ok <==> *writer_schema is Record && mappable(*writer_schema),
        ret matches Ok(a) ==> a.values == values && reads(*writer_schema, a.schema.fields.fields_of()) && (projection is None ==> a.wf())
@before Ok(Self
    proof { lemma_wf(schema_lookup@, *writer_schema, schema.fields); }
//@end

// ---- decoded values fit the type their schema is read as ----------------------------------------------------------------------------
/// v is a value of the schema
pub open spec fn of(s: AvroSchema, v: Value) -> bool decreases v, s {
    match s {
        AvroSchema::Null => v is Null, AvroSchema::Boolean => v is Boolean, AvroSchema::Int => v is Int, AvroSchema::Long => v is Long, AvroSchema::Float => v is Float, AvroSchema::Double => v is Double,
        AvroSchema::Bytes => v is Bytes, AvroSchema::String => v is String, AvroSchema::Enum(_) => v is Enum, AvroSchema::Fixed(f) => v matches Value::Fixed(n, b) && n == f.size && b@.len() == f.size, AvroSchema::Uuid => v is Uuid,
        AvroSchema::Date => v is Date, AvroSchema::TimeMillis => v is TimeMillis, AvroSchema::TimeMicros => v is TimeMicros,
        AvroSchema::TimestampMillis => v is TimestampMillis, AvroSchema::TimestampMicros => v is TimestampMicros, AvroSchema::TimestampNanos => v is TimestampNanos,
        AvroSchema::LocalTimestampMillis => v is LocalTimestampMillis, AvroSchema::LocalTimestampMicros => v is LocalTimestampMicros, AvroSchema::LocalTimestampNanos => v is LocalTimestampNanos,
        AvroSchema::Array(a) => v matches Value::Array(x) && forall|i: int| 0 <= i < x@.len() ==> of(*a.items, #[trigger] x@[i]),
        AvroSchema::Record(r) => v matches Value::Record(x) && x@.len() == r.fields@.len() && forall|k: int| 0 <= k < x@.len() ==> of(r.fields@[k].schema, (#[trigger] x@[k]).1),
        AvroSchema::Union(u) => v matches Value::Union(i, b) && i < u.schemas@.len() && of(u.schemas@[i as int], *b),
        AvroSchema::Map(_) => v is Map, AvroSchema::Decimal(_) => v is Decimal, AvroSchema::BigDecimal => v is BigDecimal, AvroSchema::Duration => v is Duration,
        AvroSchema::Ref { name } => true,
    }
}
pub proof fn lemma_made(s: AvroSchema, dt: DataType) requires parsed(s), maps(s, dt) ensures made(dt) decreases s
{
    match s {
        AvroSchema::Array(a) => { let f = *dt->List_0; assert(mapsf(*a.items, f, "element"@, false)); lemma_made(*a.items, f.dt); }
        AvroSchema::Union(u) => { if optional(s) { assert(parsed(u.schemas@[other(u.schemas@)])); lemma_made(u.schemas@[other(u.schemas@)], dt); } }
        AvroSchema::Record(r) => { let fs = dt->Struct_0; assert forall|k: int| 0 <= k < fs.v@.len() implies made((#[trigger] fs.v@[k]).dt) by { assert(mapsf(r.fields@[k].schema, *fs.v@[k], r.fields@[k].name@, false)); lemma_made(r.fields@[k].schema, fs.v@[k].dt); } }
        _ => {}
    }
}
pub proof fn lemma_indexed(m: Map<Seq<char>, usize>, p: Seq<char>, s: AvroSchema, dt: DataType) requires maps(s, dt), indexed(m, p, s) ensures indexed_dt(m, p, dt) decreases s
{
    match s {
        AvroSchema::Array(a) => { let f = *dt->List_0; assert(mapsf(*a.items, f, "element"@, false)); lemma_dots(); assert(p + ".element"@ =~= p + "."@ + f.name@); lemma_indexed(m, p + ".element"@, *a.items, f.dt); }
        AvroSchema::Union(u) => { if optional(s) { lemma_indexed(m, p, u.schemas@[other(u.schemas@)], dt); } }
        AvroSchema::Record(r) => { let fs = dt->Struct_0; assert forall|k: int| 0 <= k < fs.v@.len() implies m.dom().contains(path(p, (#[trigger] fs.v@[k]).name@)) && m[path(p, fs.v@[k].name@)] == k && indexed_dt(m, path(p, fs.v@[k].name@), fs.v@[k].dt) by {
            assert(mapsf(r.fields@[k].schema, *fs.v@[k], r.fields@[k].name@, false)); lemma_indexed(m, path(p, fs.v@[k].name@), r.fields@[k].schema, fs.v@[k].dt); } }
        _ => {}
    }
}
pub proof fn lemma_wf(m: Map<Seq<char>, usize>, s: AvroSchema, fs: Fields)
    requires parsed(s), mappable(s), indexed(m, Seq::empty(), s), reads(s, fs.fields_of()) ensures made(DataType::Struct(fs)), indexed_dt(m, Seq::empty(), DataType::Struct(fs))
{
    let r = s->Record_0; let e = Seq::<char>::empty();
    assert(fs.fields_of().len() == fs.s().len());
    assert forall|k: int| 0 <= k < fs.v@.len() implies made((#[trigger] fs.v@[k]).dt) && m.dom().contains(path(e, fs.v@[k].name@)) && m[path(e, fs.v@[k].name@)] == k && indexed_dt(m, path(e, fs.v@[k].name@), fs.v@[k].dt) by {
        assert(fs.fields_of()[k] == *fs.v@[k]); let f = r.fields@[k];
        assert(mapsf(f.schema, *fs.v@[k], f.name@, any_null(f.schema)));
        assert(parsed(f.schema));
        lemma_made(f.schema, fs.v@[k].dt); lemma_indexed(m, path(e, f.name@), f.schema, fs.v@[k].dt);
    }
}
/// a value of the schema is a row of the type it is read as
pub proof fn lemma_row(s: AvroSchema, fs: Fields, v: Value) requires parsed(s), mappable(s), reads(s, fs.fields_of()), of(s, v) ensures v matches Value::Record(r) && full_row(fs, r@)
{
    let rs = s->Record_0; let x = v->Record_0@;
    assert(fs.fields_of().len() == fs.s().len());
    assert forall|k: int| 0 <= k < x.len() implies fitsf(*fs.s()[k], (#[trigger] x[k]).1) by {
        assert(fs.fields_of()[k] == *fs.s()[k]); let f = rs.fields@[k];
        assert(mapsf(f.schema, *fs.s()[k], f.name@, any_null(f.schema)));
        assert(parsed(f.schema)); assert(mappable(f.schema));
        lemma_fits(f.schema, fs.s()[k].dt, x[k].1);
    }
}
pub proof fn lemma_plain(s: AvroSchema, v: Value) requires !(s is Union), mappable(s), of(s, v) ensures !(v is Union), (v is Null <==> s is Null)
{ }
pub proof fn lemma_fits(s: AvroSchema, dt: DataType, v: Value) requires parsed(s), mappable(s), maps(s, dt), of(s, v) ensures fits(dt, v), !any_null(s) && !(dt is Null) ==> !nil(v) decreases s
{
    match s {
        AvroSchema::Union(u) => {
            let i = v->Union_0 as int; let b = *v->Union_1;
            assert(parsed(u.schemas@[i]));
            if optional(s) {
                let o = other(u.schemas@); assert(parsed(u.schemas@[o])); assert(mappable(u.schemas@[o]));
                if i == o { lemma_plain(u.schemas@[o], b); lemma_fits(u.schemas@[o], dt, b); } else { assert(u.schemas@[i] is Null); assert(of(u.schemas@[i], b)); assert(b is Null); }
            } else {
                assert(mappable(u.schemas@[i]));
                lemma_plain(u.schemas@[i], b);
                assert(dt is Union);
                assert(fits_plain(dt, b));
            }
        }
        AvroSchema::Array(a) => { let f = *dt->List_0; assert(mapsf(*a.items, f, "element"@, false)); let x = v->Array_0@; assert forall|i: int| 0 <= i < x.len() implies fitsf(f, #[trigger] x[i]) by { lemma_fits(*a.items, f.dt, x[i]); } }
        AvroSchema::Record(r) => { let fs = dt->Struct_0; let x = v->Record_0@; assert forall|k: int| 0 <= k < x.len() implies fitsf(*fs.s()[k], (#[trigger] x[k]).1) by { assert(parsed(r.fields@[k].schema)); assert(mapsf(r.fields@[k].schema, *fs.v@[k], r.fields@[k].name@, false)); lemma_fits(r.fields@[k].schema, fs.v@[k].dt, x[k].1); } }
        _ => {}
    }
}
}
