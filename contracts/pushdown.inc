//@include reader.inc
verus! {
//@rules reset
//@rule opaque_fmt
//@rule eq_ops
//@rule method iter vx_iter
//@rule method into vx_into
//@rule method to_string vx_to_string
//@rule method map_or vx_map_or
//@rule method is_ok_and vx_is_ok_and
//@rule path Arc VArc
//@rule path HashMap VMap
//@rule path InputPartitions HudiReadConfig::InputPartitions
//@rule path Arc<HudiTable> Table
//@rule path SchemaRef VArc<Schema>
//@rule path HudiFilter Filter
//@rule path HudiTable Table
//@rule path Result DfResult
//@rule path Execution vx_execution
//@rule path dynExecutionPlan VPlan
//@rule path dynSession VSession
//@rule path Default::default vx_default
//@prop C15
// ---- DataFusion's expressions (its source, version 45) ---------------------------------------------------
#[verifier::external_body] pub struct VOther { _p: () }
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub enum Operator { Eq, NotEq, Lt, LtEq, Gt, GtEq, Plus, Minus, Multiply, Divide, Modulo, And, Or, IsDistinctFrom, IsNotDistinctFrom, RegexMatch, RegexIMatch, RegexNotMatch, RegexNotIMatch, LikeMatch, ILikeMatch, NotLikeMatch, NotILikeMatch, BitwiseAnd, BitwiseOr, BitwiseXor, BitwiseShiftRight, BitwiseShiftLeft, StringConcat, AtArrow, ArrowAt }
pub struct Column { pub name: String }
pub struct BinaryExpr { pub left: Box<Expr>, pub op: Operator, pub right: Box<Expr> }
pub struct Between { pub expr: Box<Expr>, pub negated: bool, pub low: Box<Expr>, pub high: Box<Expr> }
pub enum Expr {
    Alias(VOther), Column(Column), ScalarVariable(VOther), Literal(ScalarValue), BinaryExpr(BinaryExpr), Like(VOther), SimilarTo(VOther), Not(Box<Expr>), IsNotNull(Box<Expr>), IsNull(Box<Expr>), IsTrue(Box<Expr>), IsFalse(Box<Expr>), IsUnknown(Box<Expr>),
    IsNotTrue(Box<Expr>), IsNotFalse(Box<Expr>), IsNotUnknown(Box<Expr>), Negative(Box<Expr>), Between(Between), Case(VOther), Cast(VOther), TryCast(VOther), ScalarFunction(VOther), AggregateFunction(VOther), WindowFunction(VOther), InList(VOther), Exists(VOther),
    InSubquery(VOther), ScalarSubquery(VOther), Wildcard(VOther), GroupingSet(VOther), Placeholder(VOther), OuterReferenceColumn(VOther), Unnest(VOther),
}
pub enum ScalarValue {
    Null, Boolean(Option<bool>), Float16(VOther), Float32(VOther), Float64(VOther), Decimal128(VOther), Decimal256(VOther), Int8(Option<i8>), Int16(Option<i16>), Int32(Option<i32>), Int64(Option<i64>), UInt8(Option<u8>), UInt16(Option<u16>), UInt32(Option<u32>), UInt64(Option<u64>),
    Utf8(Option<String>), Utf8View(Option<String>), LargeUtf8(Option<String>), Binary(VOther), BinaryView(VOther), FixedSizeBinary(VOther), LargeBinary(VOther), FixedSizeList(VOther), List(VOther), LargeList(VOther), Struct(VOther), Map(VOther), Date32(Option<i32>), Date64(Option<i64>),
    Time32Second(VOther), Time32Millisecond(VOther), Time64Microsecond(VOther), Time64Nanosecond(VOther), TimestampSecond(VOther), TimestampMillisecond(VOther), TimestampMicrosecond(VOther), TimestampNanosecond(VOther), IntervalYearMonth(VOther), IntervalDayTime(VOther), IntervalMonthDayNano(VOther),
    DurationSecond(VOther), DurationMillisecond(VOther), DurationMicrosecond(VOther), DurationNanosecond(VOther), Union(VOther), Dictionary(VOther),
}
impl Clone for Expr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Column { pub fn name(&self) -> (r: &str) ensures r@ == self.name@ { self.name.as_str() } }
/// a comparison with its sides exchanged
pub open spec fn mirrored(o: Operator) -> Option<Operator> { match o { Operator::Eq => Some(Operator::Eq), Operator::NotEq => Some(Operator::NotEq), Operator::Lt => Some(Operator::Gt), Operator::LtEq => Some(Operator::GtEq), Operator::Gt => Some(Operator::Lt), Operator::GtEq => Some(Operator::LtEq), _ => None } }
impl Operator { #[verifier::external_body] pub fn swap(&self) -> (r: Option<Operator>) ensures comparison(*self) is Some ==> r == mirrored(*self), comparison(*self) is None ==> (r matches Some(o) ==> comparison(o) is None) { unimplemented!() } }
pub open spec fn comparison(o: Operator) -> Option<ExprOperator> { match o { Operator::Eq => Some(ExprOperator::Eq), Operator::NotEq => Some(ExprOperator::Ne), Operator::Lt => Some(ExprOperator::Lt), Operator::LtEq => Some(ExprOperator::Lte), Operator::Gt => Some(ExprOperator::Gt), Operator::GtEq => Some(ExprOperator::Gte), _ => None } }

// ---- what an expression says of a row: SQL's three-valued logic --------------------------------------------
/// the row's value in the column of that name
pub type VRec = spec_fn(Seq<char>) -> Option<Cell>;
/// the value of a literal; of any other expression, of a row
pub uninterp spec fn lit_cell(s: ScalarValue) -> Option<Cell>;
pub uninterp spec fn other_cell(e: Expr, row: VRec) -> Option<Cell>;
pub uninterp spec fn other_holds(e: Expr, row: VRec) -> Option<bool>;
pub open spec fn value(e: Expr, row: VRec) -> Option<Cell> { match e { Expr::Column(c) => row(c.name@), Expr::Literal(s) => lit_cell(s), _ => other_cell(e, row) } }
pub open spec fn compared(op: ExprOperator, a: Option<Cell>, b: Option<Cell>) -> Option<bool> { match (a, b) { (Some(x), Some(y)) => Some(accepts(op, cell_order(x, y))), _ => None } }
pub open spec fn not3(a: Option<bool>) -> Option<bool> { match a { Some(x) => Some(!x), None => None } }
pub open spec fn sql_and(a: Option<bool>, b: Option<bool>) -> Option<bool> { if a == Some(false) || b == Some(false) { Some(false) } else if a is None || b is None { None } else { Some(true) } }
pub open spec fn sql_or(a: Option<bool>, b: Option<bool>) -> Option<bool> { not3(sql_and(not3(a), not3(b))) }
pub open spec fn holds(e: Expr, row: VRec) -> Option<bool> decreases e {
    match e {
        Expr::BinaryExpr(b) => match comparison(b.op) { Some(op) => compared(op, value(*b.left, row), value(*b.right, row)), None => if b.op == Operator::And { sql_and(holds(*b.left, row), holds(*b.right, row)) } else if b.op == Operator::Or { sql_or(holds(*b.left, row), holds(*b.right, row)) } else { other_holds(e, row) } },
        Expr::Not(x) => not3(holds(*x, row)),
        Expr::Between(b) => { let r = sql_and(compared(ExprOperator::Gte, value(*b.expr, row), value(*b.low, row)), compared(ExprOperator::Lte, value(*b.expr, row), value(*b.high, row))); if b.negated { not3(r) } else { r } },
        _ => other_holds(e, row),
    }
}
pub broadcast axiom fn ax_mirror(a: Cell, b: Cell) ensures (#[trigger] cell_order(a, b)) == (match cell_order(b, a) { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
/// the table's columns' types, by name
pub type VTypes = spec_fn(Seq<char>) -> DataType;
pub uninterp spec fn scalar_type(s: ScalarValue) -> DataType;
pub uninterp spec fn scalar_text(s: ScalarValue) -> Seq<char>;
pub uninterp spec fn null_payload(s: ScalarValue) -> bool;
pub open spec fn is_null_scalar(s: ScalarValue) -> bool {
    match s { ScalarValue::Null => true, ScalarValue::Boolean(o) => o is None, ScalarValue::Int8(o) => o is None, ScalarValue::Int16(o) => o is None, ScalarValue::Int32(o) => o is None, ScalarValue::Int64(o) => o is None, ScalarValue::UInt8(o) => o is None, ScalarValue::UInt16(o) => o is None, ScalarValue::UInt32(o) => o is None, ScalarValue::UInt64(o) => o is None,
        ScalarValue::Utf8(o) => o is None, ScalarValue::Utf8View(o) => o is None, ScalarValue::LargeUtf8(o) => o is None, ScalarValue::Date32(o) => o is None, ScalarValue::Date64(o) => o is None, _ => null_payload(s) }
}
/// the kinds of literals whose text arrow casts back to the same value
pub open spec fn texted(s: ScalarValue) -> bool { s is Boolean || s is Int8 || s is Int16 || s is Int32 || s is Int64 || s is UInt8 || s is UInt16 || s is UInt32 || s is UInt64 || s is Float32 || s is Float64 || s is Utf8 || s is LargeUtf8 || s is Utf8View || s is Date32 }
pub broadcast axiom fn ax_texted(s: ScalarValue, t: DataType) requires texted(s), !is_null_scalar(s), scalar_type(s) == t ensures #[trigger] literal(scalar_text(s), t) == lit_cell(s);
pub broadcast axiom fn ax_null(s: ScalarValue) ensures is_null_scalar(s) == ((#[trigger] lit_cell(s)) is None);
impl ScalarValue { #[verifier::external_body] pub fn is_null(&self) -> (r: bool) ensures r == is_null_scalar(*self) { unimplemented!() } }
impl VxDisp for ScalarValue { open spec fn disp(&self) -> Seq<char> { scalar_text(*self) } }
/// DataFusion's coercion: a literal compared with a column has the column's type
pub open spec fn coerced_sides(a: Expr, b: Expr, tys: VTypes) -> bool { (a matches Expr::Column(c) && b matches Expr::Literal(s) ==> scalar_type(s) == tys(c.name@)) && (a matches Expr::Literal(s) && b matches Expr::Column(c) ==> scalar_type(s) == tys(c.name@)) }
pub open spec fn coerced(e: Expr, tys: VTypes) -> bool decreases e {
    match e { Expr::BinaryExpr(b) => coerced_sides(*b.left, *b.right, tys) && coerced(*b.left, tys) && coerced(*b.right, tys), Expr::Not(x) => coerced(*x, tys), Expr::Between(b) => coerced_sides(*b.expr, *b.low, tys) && coerced_sides(*b.expr, *b.high, tys), _ => true }
}
/// what a filter says of a row
pub open spec fn means(f: Filter, tys: VTypes, row: VRec) -> Option<bool> { compared(f.operator, row(f.field_name@), literal(f.field_value@, tys(f.field_name@))) }
/// a row of which the expression holds satisfies the filter
pub open spec fn implied(e: Expr, f: Filter) -> bool { forall|tys: VTypes, row: VRec| coerced(e, tys) && holds(e, row) == Some(true) ==> #[trigger] means(f, tys, row) == Some(true) }
/// the filter holds exactly where the comparison does
pub open spec fn agrees(e: Expr, f: Filter) -> bool { forall|tys: VTypes, row: VRec| coerced(e, tys) ==> #[trigger] means(f, tys, row) == holds(e, row) }
//@fn crates/datafusion/src/util/expr.rs literal_to_string
@spec
    ensures ret matches Some(t) ==> texted(*literal) && !is_null_scalar(*literal) && t@ == scalar_text(*literal)
//@end
//@fn crates/datafusion/src/util/expr.rs binary_expr_to_filter
@spec
    ensures ret matches Some(f) ==> agrees(Expr::BinaryExpr(*binary_expr), f)
@start
    broadcast use {ax_mirror, ax_texted, ax_null};
    proof { lemma_tokens(); reveal_with_fuel(holds, 2); }
//@end
//@fn crates/datafusion/src/util/expr.rs not_expr_to_filter
@spec
    ensures ret matches Some(f) ==> agrees(Expr::Not(Box::new(*not_expr)), f)
@start
    proof { reveal_with_fuel(holds, 3); reveal_with_fuel(coerced, 3); }
@closure 0
    |$1: Filter| -> (r: Option<Filter>) ensures r matches Some(n) && n.field_name == $1.field_name && n.field_value == $1.field_value && (forall|o: Ordering| accepts(n.operator, o) == !accepts($1.operator, o))
//@end
pub type VTriple = (String, String, String);
/// the triple writes a filter that follows from the expression
pub open spec fn triple_from(e: Expr, t: VTriple) -> bool { exists|f: Filter| #[trigger] writes(f, (t.0@, t.1@, t.2@)) && implied(e, f) }
pub open spec fn from_some(es: Seq<Expr>, t: VTriple) -> bool { exists|j: int| 0 <= j < es.len() && #[trigger] triple_from(es[j], t) }
impl Filter { pub fn vx_into(self) -> (r: VTriple) ensures writes(self, (r.0@, r.1@, r.2@)) { VxTriple::from(self) } }
impl<T> VIter<T> {
    /// what the closure gives for some item
    #[verifier::external_body] pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: VIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), Some(r@[k]))
    { unimplemented!() }
}
//@fn crates/datafusion/src/util/expr.rs exprs_to_filters
@spec
    ensures forall|k: int| 0 <= k < ret@.len() ==> from_some(exprs@, #[trigger] ret@[k])
@start
    proof { assert forall|e: Expr, f: Filter, t: VTriple| #![trigger implied(e, f), writes(f, (t.0@, t.1@, t.2@))] implied(e, f) && writes(f, (t.0@, t.1@, t.2@)) implies triple_from(e, t) by {} }
@closure 0
    |$1: &Expr| -> (r: Option<Filter>) ensures r matches Some(f) ==> implied(*$1, f)
@closure 1
    |$1: Filter| -> (r: VTriple) ensures writes($1, (r.0@, r.1@, r.2@))
//@end

// ---- the table, to a query engine ---------------------------------------------------------------------------
#[verifier::external_body] pub struct Timeline { _p: () }
#[verifier::external_body] pub struct FileSystemView { _p: () }
#[verifier::external_body] pub struct VRuntime { _p: () }
#[verifier::external_body] #[derive(Debug)] pub struct DataFusionError { _p: () }
pub type DfResult<T, E = DataFusionError> = core::result::Result<T, E>;
#[verifier::external_body] pub fn vx_execution(s: String) -> (r: DataFusionError) { unimplemented!() }
//@type crates/core/src/table/mod.rs Table
//@type crates/datafusion/src/lib.rs HudiDataSource
impl Clone for Table { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() /* an Arc's clone */ } }
impl VxCfgTo for usize { open spec fn can(v: HudiConfigValue) -> bool { v is UInteger } open spec fn is(v: HudiConfigValue, r: usize) -> bool { v == HudiConfigValue::UInteger(r) } }
pub trait VxIsOkAnd<T> { spec fn okay(self) -> Option<T>; fn vx_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> bool requires self.okay() matches Some(x) ==> f.requires((x,)); }
impl<T, E> VxIsOkAnd<T> for core::result::Result<T, E> {
    open spec fn okay(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } }
    fn vx_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) ensures match self { Ok(x) => f.ensures((x,), r), Err(_) => !r } { match self { Ok(x) => f(x), Err(_) => false } }
}
pub trait VxMapOr<T> { spec fn opt(self) -> Option<T>; fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> U requires self.opt() matches Some(x) ==> f.requires((x,)); }
impl<T> VxMapOr<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) ensures match self { Some(x) => f.ensures((x,), r), None => r == d } { match self { Some(x) => f(x), None => d } }
}
/// the table cannot be read, or the engine refuses the query for reasons of its own
pub uninterp spec fn refused() -> bool;
/// the table's partition columns (C13), its columns' types
pub uninterp spec fn partition_columns(tb: Table) -> Seq<Field>;
pub uninterp spec fn types_of(tb: Table) -> VTypes;
/// a file slice that a snapshot of the table has (C05); one of its rows
pub uninterp spec fn live(tb: Table, s: FileSlice) -> bool;
pub uninterp spec fn row_of(tb: Table, s: FileSlice, row: VRec) -> bool;
pub type VText3 = (Seq<char>, Seq<char>, Seq<char>);
/// the triple writes a filter on a partition column, with a literal of its type
pub open spec fn bindable(tb: Table, t: VText3) -> bool { exists|f: Filter, s: Schema, b: SchemableFilter| #[trigger] writes(f, t) && s.fs() == partition_columns(tb) && #[trigger] bound(b, f, s) }
/// no row of the slice satisfies the filter the triple writes
pub open spec fn left_out(tb: Table, s: FileSlice, t: VText3) -> bool { exists|f: Filter| #[trigger] writes(f, t) && forall|row: VRec| row_of(tb, s, row) ==> #[trigger] means(f, types_of(tb), row) != Some(true) }
pub open spec fn in_parts(parts: Seq<Seq<FileSlice>>, s: FileSlice) -> bool { exists|i: int, k: int| 0 <= i < parts.len() && 0 <= k < parts[i].len() && #[trigger] parts[i][k] == s }
/// live slices, all but those a filter leaves out (C05, C13, C16)
pub open spec fn planned(tb: Table, ts: Seq<VText3>, parts: Seq<Seq<FileSlice>>) -> bool {
    &&& forall|s: FileSlice| #[trigger] in_parts(parts, s) ==> live(tb, s)
    &&& forall|s: FileSlice| #[trigger] live(tb, s) ==> in_parts(parts, s) || exists|k: int| 0 <= k < ts.len() && left_out(tb, s, #[trigger] ts[k])
}
pub open spec fn parts_of(v: Seq<Vec<FileSlice>>) -> Seq<Seq<FileSlice>> { v.map_values(|p: Vec<FileSlice>| p@) }
pub open spec fn texts3(v: Seq<(&str, &str, &str)>) -> Seq<VText3> { v.map_values(|t: (&str, &str, &str)| (t.0@, t.1@, t.2@)) }
pub open spec fn owned3(v: Seq<VTriple>) -> Seq<VText3> { v.map_values(|t: VTriple| (t.0@, t.1@, t.2@)) }
//@fn crates/core/src/table/mod.rs Table::get_file_slices_splits
@rule path Result Result
@trusted
@spec
    ensures match ret { Ok(v) => planned(*self, texts3(filters@), parts_of(v@)), Err(_) => refused() || exists|i: int| 0 <= i < filters@.len() && !bindable(*self, #[trigger] texts3(filters@)[i]) }
//@end
//@fn crates/core/src/table/mod.rs Table::get_partition_schema
@rule path Result Result
@trusted
@spec
    ensures match ret { Ok(s) => s.fs() == partition_columns(*self), Err(_) => refused() }
//@end
impl Table {
    #[verifier::external_body] pub fn register_storage(&self, r: VArc<VRuntime>) { unimplemented!() }
    #[verifier::external_body] pub fn base_url(&self) -> (r: Url) ensures r == table_url(*self) { unimplemented!() }
}
pub uninterp spec fn table_url(tb: Table) -> Url;
#[verifier::external_body] pub struct Url { _p: () }
impl Url {
    pub uninterp spec fn scheme_text(&self) -> Seq<char>;
    pub uninterp spec fn authority_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn scheme(&self) -> (r: &str) ensures r@ == self.scheme_text() { unimplemented!() }
    #[verifier::external_body] pub fn authority(&self) -> (r: &str) ensures r@ == self.authority_text() { unimplemented!() }
}
pub open spec fn store_text(u: Url) -> Seq<char> { u.scheme_text() + "://"@ + u.authority_text() }
//@fn crates/core/src/storage/util.rs get_scheme_authority
@rule transparent_fmt
@spec
    ensures ret@ == store_text(*url)
@start
    proof { assert forall|x: Seq<char>| #[trigger] (Seq::<char>::empty() + x) == x by { assert(Seq::<char>::empty() + x =~= x); } }
//@end
/// the URL of a path below another (C18: join_url_segments and lemma_spot in the storage unit)
pub uninterp spec fn below(u: Url, path: Seq<char>) -> Url;
#[verifier::external_body] pub fn join_url_segments(base_url: &Url, segments: &[&str]) -> (r: core::result::Result<Url, VReadError>) requires segments@.len() == 1 ensures match r { Ok(u) => u == below(*base_url, segments@[0]@), Err(_) => refused() } { unimplemented!() }
pub trait StrTupleRef { fn as_strs(&self) -> Vec<(&str, &str, &str)>; }
//@fn crates/core/src/util/mod.rs StrTupleRef for Vec::as_strs
@header impl StrTupleRef for Vec<VTriple>
@spec
    ensures texts3(ret@) == owned3(self@), ret@.len() == self@.len()
@closure 0
    |$1: &VTriple| -> (r: (&str, &str, &str)) ensures r.0@ == $1.0@, r.1@ == $1.1@, r.2@ == $1.2@
//@end
//@fn crates/datafusion/src/lib.rs HudiDataSource::get_input_partitions
@spec
    ensures true
//@end
//@fn crates/datafusion/src/lib.rs HudiDataSource::retain_partition_filters
@loops 1
@spec
    ensures match ret { Ok(v) => forall|k: int| #![trigger v@[k]] #![trigger owned3(v@)[k]] 0 <= k < v@.len() ==> filters@.contains(v@[k]) && bindable(self.table, owned3(v@)[k]), Err(_) => refused() }
@closure 1
    |$1: Filter| -> (r: bool) ensures r ==> exists|b: SchemableFilter| #[trigger] bound(b, $1, partition_schema)
@loop 0 pre
    let ghost all = filters@; let ghost mut n: int = 0;
@loop 0
    invariant 0 <= n <= all.len(), vx_it0@ == all.skip(n), partition_schema.fs() == partition_columns(self.table),
        forall|k: int| 0 <= k < partition_filters@.len() ==> all.contains(#[trigger] partition_filters@[k]) && bindable(self.table, owned3(partition_filters@)[k]),
    decreases vx_it0@.len()
@loop 0 start
    let ghost before = partition_filters@;
    proof { assert(all[n] == (field, op, value)); n = n + 1; assert(all.skip(n - 1).drop_first() =~= all.skip(n)); }
//@end

// ---- what the provider reports of a filter ---------------------------------------------------------------------
/// the table's schema (Table::get_schema, table unit); None: it cannot be read
pub uninterp spec fn table_schema(tb: Table) -> Option<Schema>;
//@fn crates/core/src/table/mod.rs Table::get_schema
@rule path Result Result
@trusted
@spec
    ensures match ret { Ok(s) => table_schema(*self) == Some(s), Err(_) => table_schema(*self) is None }
//@end
pub uninterp spec fn no_columns() -> Schema;
impl Schema { #[verifier::external_body] pub fn empty() -> (r: Schema) ensures r == no_columns(), r.fs().len() == 0 { unimplemented!() } }
/// the schema the provider reports
pub open spec fn provider_schema(tb: Table) -> VArc<Schema> { VArc { v: match table_schema(tb) { Some(s) => s, None => no_columns() } } }
// std::thread (the closure's code does not panic: it is verified too) and a tokio runtime
#[verifier::external_body] #[derive(Debug)] pub struct VPanic { _p: () }
pub struct VJoin<T> { pub v: T }
impl<T> VJoin<T> { pub fn join(self) -> (r: core::result::Result<T, VPanic>) ensures r == Ok::<T, VPanic>(self.v) { Ok(self.v) } }
pub fn vx_spawn<T, F: FnOnce() -> T>(f: F) -> (r: VJoin<T>) requires f.requires(()) ensures f.ensures((), r.v) { VJoin { v: f() } }
pub struct VTokio { }
impl VTokio {
    pub fn new() -> (r: core::result::Result<VTokio, VPanic>) ensures r is Ok { Ok(VTokio { }) }
    pub fn block_on<T>(&self, v: T) -> (r: T) ensures r == v { v }
}
pub trait VxResultElse<T, E>: Sized { spec fn res(self) -> core::result::Result<T, E>; fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) requires self.res() matches Err(e) ==> f.requires((e,)) ensures match self.res() { Ok(x) => r == x, Err(e) => f.ensures((e,), r) }; }
impl<T, E> VxResultElse<T, E> for core::result::Result<T, E> { open spec fn res(self) -> core::result::Result<T, E> { self } fn vx_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) { match self { Ok(x) => x, Err(e) => f(e) } } }
impl VArc<Schema> { #[verifier::external_body] pub fn column_with_name(&self, n: &String) -> (r: Option<(usize, &Field)>) ensures (r is Some) == (find(self.v.fs(), n@) < self.v.fs().len()) { unimplemented!() } }
//@fn crates/datafusion/src/lib.rs TableProvider for HudiDataSource::schema
@rule path thread::spawn vx_spawn
@rule path tokio::runtime::Runtime VTokio
@rule path SchemaRef::from VArc::new
@rule method unwrap_or_else vx_unwrap_or_else
@closures 2
@spec
    ensures ret == provider_schema(self.table)
@closure 0
    || -> (r: Result<Schema>) ensures match r { Ok(s) => table_schema(table) == Some(s), Err(_) => table_schema(table) is None }
@closure 1
    |$1: CoreError| -> (r: Schema) ensures r == no_columns()
//@end
#[derive(PartialEq, Eq, Structural)]
pub enum TableProviderFilterPushDown { Unsupported, Inexact, Exact }
//@fn crates/datafusion/src/lib.rs HudiDataSource::is_supported_operator
@spec
    ensures ret ==> comparison(*op) is Some
//@end
//@fn crates/datafusion/src/lib.rs HudiDataSource::is_supported_operand
@spec
    ensures ret ==> expr is Column || expr is Literal
//@end
//@fn crates/datafusion/src/lib.rs HudiDataSource::can_push_down
@spec
    ensures true
    decreases expr
//@end
/// the engine evaluates every filter itself
//@fn crates/datafusion/src/lib.rs TableProvider for HudiDataSource::supports_filters_pushdown
@spec
    ensures ret matches Ok(v) && v@.len() == filters@.len() && forall|i: int| 0 <= i < v@.len() ==> !(#[trigger] v@[i] is Exact)
@closure 0
    |$1: &&Expr| -> (r: DfResult<TableProviderFilterPushDown>) ensures r matches Ok(x) && !(x is Exact)
//@end

// ---- the scan --------------------------------------------------------------------------------------------------
#[verifier::external_body] pub struct VParquetOptions { _p: () }
impl Clone for VParquetOptions { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct VExecOptions { pub parquet: VParquetOptions }
pub struct VConfigOptions { pub execution: VExecOptions }
#[verifier::external_body] pub struct VExecProps { _p: () }
#[verifier::external_body] pub struct VSession { _p: () }
impl VSession {
    #[verifier::external_body] pub fn runtime_env(&self) -> (r: &VArc<VRuntime>) { unimplemented!() }
    #[verifier::external_body] pub fn config_options(&self) -> (r: &VConfigOptions) { unimplemented!() }
    #[verifier::external_body] pub fn execution_props(&self) -> (r: &VExecProps) { unimplemented!() }
}
/// where an object is in its store
#[verifier::external_body] pub struct VObjPath { _p: () }
impl Clone for VObjPath { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the place of the object a URL names; of a text that is a path
pub uninterp spec fn place(u: Url) -> VObjPath;
pub uninterp spec fn place_of_text(s: Seq<char>) -> VObjPath;
pub struct ListingTableUrl { pub at: VObjPath }
impl ListingTableUrl {
    #[verifier::external_body] pub fn parse(u: &Url) -> (r: DfResult<ListingTableUrl>) ensures match r { Ok(l) => l.at == place(*u), Err(_) => refused() } { unimplemented!() }
    pub fn prefix(&self) -> (r: &VObjPath) ensures *r == self.at { &self.at }
}
pub struct VObjectMeta { pub location: VObjPath, pub size: u64 }
pub struct PartitionedFile { pub object_meta: VObjectMeta }
impl PartitionedFile { #[verifier::external_body] pub fn new(path: &str, size: u64) -> (r: PartitionedFile) ensures r.object_meta.location == place_of_text(path@), r.object_meta.size == size { unimplemented!() } }
pub struct ObjectStoreUrl { pub text: String }
impl ObjectStoreUrl { #[verifier::external_body] pub fn parse(s: String) -> (r: DfResult<ObjectStoreUrl>) ensures match r { Ok(u) => u.text@ == s@, Err(_) => refused() } { unimplemented!() } }
pub struct FileScanConfig { pub url: ObjectStoreUrl, pub schema: VArc<Schema>, pub groups: Vec<Vec<PartitionedFile>>, pub projection: Option<Vec<usize>>, pub limit: Option<usize> }
impl FileScanConfig {
    pub fn new(url: ObjectStoreUrl, schema: VArc<Schema>) -> (r: Self) ensures r.url == url, r.schema == schema, r.groups@.len() == 0, r.projection is None, r.limit is None { FileScanConfig { url, schema, groups: Vec::new(), projection: None, limit: None } }
    #[verifier::external_body] pub fn with_file_groups(self, g: Vec<Vec<PartitionedFile>>) -> (r: Self) ensures r == (FileScanConfig { groups: g, ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn with_projection(self, p: Option<Vec<usize>>) -> (r: Self) ensures r == (FileScanConfig { projection: p, ..self }) { unimplemented!() }
    #[verifier::external_body] pub fn with_limit(self, l: Option<usize>) -> (r: Self) ensures r == (FileScanConfig { limit: l, ..self }) { unimplemented!() }
}
pub struct TableParquetOptions { pub global: VParquetOptions, pub column_specific_options: FormatOptions, pub key_value_metadata: FormatOptions }
/// a predicate the parquet reader may skip rows by
#[verifier::external_body] pub struct VPhysExpr { _p: () }
impl VPhysExpr { pub uninterp spec fn says(&self, row: VRec) -> Option<bool>; }
pub struct DFSchema { pub s: VArc<Schema> }
impl DFSchema { #[verifier::external_body] pub fn try_from(s: VArc<Schema>) -> (r: DfResult<DFSchema>) ensures match r { Ok(d) => d.s == s, Err(_) => refused() } { unimplemented!() } }
#[verifier::external_body] pub fn create_physical_expr(e: &Expr, s: &DFSchema, p: &VExecProps) -> (r: DfResult<VArc<VPhysExpr>>) ensures match r { Ok(x) => forall|row: VRec| #[trigger] x.v.says(row) == holds(*e, row), Err(_) => refused() } { unimplemented!() }
pub struct VPlan { pub conf: FileScanConfig, pub predicate: Option<VArc<VPhysExpr>> }
pub struct ParquetExecBuilder { pub plan: VPlan }
impl ParquetExecBuilder {
    pub fn new_with_options(conf: FileScanConfig, o: TableParquetOptions) -> (r: Self) ensures r.plan.conf == conf, r.plan.predicate is None { ParquetExecBuilder { plan: VPlan { conf, predicate: None } } }
    #[verifier::external_body] pub fn with_predicate(self, p: VArc<VPhysExpr>) -> (r: Self) ensures r.plan.conf == self.plan.conf, r.plan.predicate == Some(p) { unimplemented!() }
    pub fn build_arc(self) -> (r: VArc<VPlan>) ensures r.v == self.plan { VArc::new(self.plan) }
}
pub open spec fn conj(a: Expr, b: Expr) -> Expr { Expr::BinaryExpr(BinaryExpr { left: Box::new(a), op: Operator::And, right: Box::new(b) }) }
impl Expr { #[verifier::external_body] pub fn and(self, o: Expr) -> (r: Expr) ensures r == conj(self, o) { unimplemented!() } }
/// acc: what each item in turn is folded into
pub open spec fn folds<T, F: Fn(T, T) -> T>(f: F, s: Seq<T>, acc: Seq<T>) -> bool { acc.len() == s.len() && acc[0] == s[0] && forall|i: int| 0 < i < s.len() ==> f.ensures((acc[i - 1], s[i]), #[trigger] acc[i]) }
impl<T> VIter<T> {
    #[verifier::external_body] pub fn reduce<F: Fn(T, T) -> T>(self, f: F) -> (r: Option<T>)
        requires forall|a: T, b: T| #[trigger] f.requires((a, b)),
        ensures match r { None => self@.len() == 0, Some(x) => self@.len() > 0 && exists|acc: Seq<T>| #[trigger] folds(f, self@, acc) && x == acc.last() }
    { unimplemented!() }
}
pub open spec fn all_hold(es: Seq<Expr>, row: VRec) -> bool { forall|i: int| 0 <= i < es.len() ==> holds(#[trigger] es[i], row) == Some(true) }
/// e holds of every row of which all the expressions hold
pub open spec fn follows(es: Seq<Expr>, e: Expr) -> bool { forall|row: VRec| all_hold(es, row) ==> #[trigger] holds(e, row) == Some(true) }
pub broadcast proof fn lemma_folds<F: Fn(Expr, Expr) -> Expr>(f: F, s: Seq<Expr>, acc: Seq<Expr>)
    requires #[trigger] folds(f, s, acc), s.len() > 0, forall|a: Expr, b: Expr, r: Expr| #[trigger] f.ensures((a, b), r) ==> r == conj(a, b)
    ensures follows(s, acc.last())
{
    assert forall|row: VRec| all_hold(s, row) implies #[trigger] holds(acc.last(), row) == Some(true) by { lemma_fold_at(f, s, acc, row, s.len() - 1); }
}
pub proof fn lemma_fold_at<F: Fn(Expr, Expr) -> Expr>(f: F, s: Seq<Expr>, acc: Seq<Expr>, row: VRec, i: int)
    requires folds(f, s, acc), 0 <= i < s.len(), all_hold(s, row), forall|a: Expr, b: Expr, r: Expr| #[trigger] f.ensures((a, b), r) ==> r == conj(a, b)
    ensures holds(acc[i], row) == Some(true)
    decreases i
{ if i > 0 { lemma_fold_at(f, s, acc, row, i - 1); assert(holds(s[i], row) == Some(true)); assert(acc[i] == conj(acc[i - 1], s[i])); } else { assert(holds(s[0], row) == Some(true)); } }
/// the file of a slice is its base file, where the table has it, of the size listed
pub open spec fn size_of(s: FileSlice) -> u64 { match s.base_file.file_metadata { Some(m) => m.size as u64, None => 0 } }
pub open spec fn file_of(tb: Table, f: PartitionedFile, s: FileSlice) -> bool { f.object_meta.location == place(below(table_url(tb), base_path_of(s))) && f.object_meta.size == size_of(s) }
pub open spec fn files_of(tb: Table, g: Seq<PartitionedFile>, p: Seq<FileSlice>, n: int) -> bool { g.len() == n && forall|k: int| 0 <= k < n ==> file_of(tb, #[trigger] g[k], p[k]) }
pub open spec fn groups_of(tb: Table, g: Seq<Vec<PartitionedFile>>, p: Seq<Seq<FileSlice>>, n: int) -> bool { g.len() == n && forall|i: int| 0 <= i < n ==> files_of(tb, (#[trigger] g[i])@, p[i], p[i].len() as int) }
/// a plan of filters that follow from those of the query
pub open spec fn plan_from(tb: Table, es: Seq<Expr>, ts: Seq<VTriple>, parts: Seq<Seq<FileSlice>>) -> bool { planned(tb, owned3(ts), parts) && forall|k: int| 0 <= k < ts.len() ==> from_some(es, #[trigger] ts[k]) }
pub open spec fn scans(tb: Table, es: Seq<Expr>, plan: VPlan) -> bool { exists|ts: Seq<VTriple>, parts: Seq<Seq<FileSlice>>| #[trigger] plan_from(tb, es, ts, parts) && groups_of(tb, plan.conf.groups@, parts, parts.len() as int) }
pub open spec fn same_projection(a: Option<Vec<usize>>, b: Option<&Vec<usize>>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => x@ == y@, _ => false } }
//@fn crates/datafusion/src/lib.rs TableProvider for HudiDataSource::scan
@spec
    ensures match ret {
        Ok(p) => scans(self.table, filters@, p.v) && p.v.conf.schema == provider_schema(self.table) && p.v.conf.url.text@ == store_text(table_url(self.table)) && same_projection(p.v.conf.projection, projection) && p.v.conf.limit == limit
            && (p.v.predicate matches Some(x) ==> forall|row: VRec| all_hold(filters@, row) ==> #[trigger] x.v.says(row) == Some(true)),
        Err(_) => refused() }
@start
    broadcast use lemma_folds;
@closure 3
    |$1: &FileMetadata| -> (r: usize) ensures r == $1.size
@closure 4
    |$1: Expr, $2: Expr| -> (r: Expr) ensures r == conj($1, $2)
@loop 0 pre
    let ghost all = file_slices@; let ghost mut n: int = 0; let ghost ts = pushdown_filters@; let ghost parts = parts_of(all);
    proof { assert(plan_from(self.table, filters@, ts, parts)); }
@loop 0
    invariant 0 <= n <= all.len(), vx_it0@ == all.skip(n), parts == parts_of(all), base_url == table_url(self.table), groups_of(self.table, parquet_file_groups@, parts, n),
    ensures n == all.len(),
    decreases vx_it0@.len()
@loop 0 start
    let ghost part = all[n]@; let ghost mut m: int = 0;
    proof { assert(file_slice_vec == all[n]); assert(all.skip(n).drop_first() =~= all.skip(n + 1)); n = n + 1; }
@loop 1
    invariant 0 <= m <= part.len(), vx_it1@ == part.skip(m), base_url == table_url(self.table), files_of(self.table, parquet_file_group_vec@, part, m),
    ensures m == part.len(),
    decreases vx_it1@.len()
@loop 1 start
    proof { assert(f == part[m]); assert(part.skip(m).drop_first() =~= part.skip(m + 1)); m = m + 1; }
//@end
/// what a user sees: a row of the table that is in no file of the scan does not satisfy the query's predicate
pub proof fn no_row_lost(tb: Table, es: Seq<Expr>, ts: Seq<VTriple>, parts: Seq<Seq<FileSlice>>, s: FileSlice, row: VRec)
    requires plan_from(tb, es, ts, parts), forall|j: int| 0 <= j < es.len() ==> coerced(#[trigger] es[j], types_of(tb)), live(tb, s), row_of(tb, s, row), !in_parts(parts, s)
    ensures !all_hold(es, row)
{
    let k = choose|k: int| 0 <= k < owned3(ts).len() && left_out(tb, s, #[trigger] owned3(ts)[k]);
    let t = (ts[k].0@, ts[k].1@, ts[k].2@);
    let f = choose|f: Filter| #[trigger] writes(f, t) && forall|row: VRec| row_of(tb, s, row) ==> #[trigger] means(f, types_of(tb), row) != Some(true);
    assert(from_some(es, ts[k]));
    let j = choose|j: int| 0 <= j < es.len() && #[trigger] triple_from(es[j], ts[k]);
    let g = choose|g: Filter| #[trigger] writes(g, t) && implied(es[j], g);
    writes_unique(f, g, t);
    assert(means(f, types_of(tb), row) == means(g, types_of(tb), row));
    if all_hold(es, row) { assert(holds(es[j], row) == Some(true)); }
}
}
