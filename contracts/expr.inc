//@include prelude.rs
//@include collections.rs
//@include error.rs
verus! {
//@rule method to_string vx_to_string
//@rule method iter vx_iter
//@rule method into vx_into
//@rule method eq_ignore_ascii_case vx_eq_ignore_ascii_case
//@rule path Into<String> VxIntoStr
//@rule path Unsupported CoreError::Unsupported
//@rule path FmtResult VFmtResult
//@rule path Formatter VFmt

// ---- assumed: std fmt, str -------------------------------------------------------------------
/// a Formatter, by what has been written to it
#[verifier::external_body]
pub struct VFmt<'a> { _p: core::marker::PhantomData<&'a ()> }
impl<'a> View for VFmt<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub type VFmtResult = core::result::Result<(), core::fmt::Error>;
/// write!(f, ..)
#[verifier::external_body]
pub fn vx_write(f: &mut VFmt, s: String) -> (r: VFmtResult) ensures r is Ok ==> final(f)@ == old(f)@ + s@ { unimplemented!() }
pub trait VxEqIgnoreCase { fn vx_eq_ignore_ascii_case(&self, o: &str) -> bool; }
impl VxEqIgnoreCase for str { #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (ascii_lower(self@) == ascii_lower(o@)) { self.eq_ignore_ascii_case(o) } }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures match r { Some(u) => exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), Some(u)), None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), None) }
    { unimplemented!() /* find_map */ }
}
/// `impl Into<String>`: String and &str
pub trait VxIntoStr: Sized { spec fn text(self) -> Seq<char>; fn vx_into(self) -> (r: String) ensures r@ == self.text(); }
impl VxIntoStr for String { open spec fn text(self) -> Seq<char> { self@ } fn vx_into(self) -> (r: String) { self } }
impl VxIntoStr for &str { open spec fn text(self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { self.into() } }

//@prop C14 C13
// ---- operators -------------------------------------------------------------------------------
//@type crates/core/src/expr/mod.rs ExprOperator structural
pub open spec fn token(op: ExprOperator) -> Seq<char> {
    match op { ExprOperator::Eq => seq!['='], ExprOperator::Ne => seq!['!', '='], ExprOperator::Lt => seq!['<'], ExprOperator::Lte => seq!['<', '='], ExprOperator::Gt => seq!['>'], ExprOperator::Gte => seq!['>', '='] }
}
/// what a comparison accepts, by the order of the value to the literal
pub open spec fn accepts(op: ExprOperator, o: Ordering) -> bool {
    match op { ExprOperator::Eq => o == Ordering::Equal, ExprOperator::Ne => o != Ordering::Equal, ExprOperator::Lt => o == Ordering::Less, ExprOperator::Lte => o != Ordering::Greater, ExprOperator::Gt => o == Ordering::Greater, ExprOperator::Gte => o != Ordering::Less }
}
pub open spec fn is_token(s: Seq<char>) -> bool { exists|op: ExprOperator| #[trigger] token(op) == s }
impl VxDisp for ExprOperator { open spec fn disp(&self) -> Seq<char> { token(*self) } }
pub proof fn lemma_tokens()
    ensures forall|s: Seq<char>, op: ExprOperator| #![trigger ascii_lower(s), token(op)] ascii_lower(token(op)) == ascii_lower(s) <==> token(op) == s,
        forall|a: ExprOperator, b: ExprOperator| #![trigger token(a), token(b)] token(a) == token(b) ==> a == b,
        "="@ == token(ExprOperator::Eq), "!="@ == token(ExprOperator::Ne), "<"@ == token(ExprOperator::Lt), "<="@ == token(ExprOperator::Lte), ">"@ == token(ExprOperator::Gt), ">="@ == token(ExprOperator::Gte),
{
    reveal_strlit("="); reveal_strlit("!="); reveal_strlit("<"); reveal_strlit("<="); reveal_strlit(">"); reveal_strlit(">=");
    assert("="@ =~= token(ExprOperator::Eq)); assert("!="@ =~= token(ExprOperator::Ne)); assert("<"@ =~= token(ExprOperator::Lt)); assert("<="@ =~= token(ExprOperator::Lte)); assert(">"@ =~= token(ExprOperator::Gt)); assert(">="@ =~= token(ExprOperator::Gte));
    assert forall|s: Seq<char>, op: ExprOperator| #![trigger ascii_lower(s), token(op)] ascii_lower(token(op)) == ascii_lower(s) <==> token(op) == s by {
        let t = token(op);
        if ascii_lower(t) == ascii_lower(s) {
            assert(ascii_lower(t).len() == t.len() && ascii_lower(s).len() == s.len());
            assert forall|i: int| 0 <= i < t.len() implies t[i] == s[i] by { assert(ascii_lower(t)[i] == ascii_lower_char(t[i])); assert(ascii_lower(s)[i] == ascii_lower_char(s[i])); lemma_lower_symbol(s[i]); }
            assert(t =~= s);
        }
    }
    assert forall|a: ExprOperator, b: ExprOperator| #![trigger token(a), token(b)] token(a) == token(b) implies a == b by { assert(token(a).len() == token(b).len()); assert(token(a)[0] == token(b)[0]); if token(a).len() == 2 { assert(token(a)[1] == token(b)[1]); } }
}
/// the table the source gives, as a sequence
pub proof fn lemma_pairs()
    ensures "="@ == token(ExprOperator::Eq), "!="@ == token(ExprOperator::Ne), "<"@ == token(ExprOperator::Lt), "<="@ == token(ExprOperator::Lte), ">"@ == token(ExprOperator::Gt), ">="@ == token(ExprOperator::Gte),
        forall|ps: Seq<(&'static str, ExprOperator)>| #![trigger pairs_ok(ps)] ps.len() == 6 && (forall|i: int| 0 <= i < 6 ==> (#[trigger] ps[i]).0@ == token(ps[i].1)) && (forall|i: int, j: int| 0 <= i < j < 6 ==> (#[trigger] ps[i]).1 != (#[trigger] ps[j]).1) ==> pairs_ok(ps)
{
    lemma_tokens();
    assert forall|ps: Seq<(&'static str, ExprOperator)>| #![trigger pairs_ok(ps)] ps.len() == 6 && (forall|i: int| 0 <= i < 6 ==> (#[trigger] ps[i]).0@ == token(ps[i].1)) && (forall|i: int, j: int| 0 <= i < j < 6 ==> (#[trigger] ps[i]).1 != (#[trigger] ps[j]).1) implies pairs_ok(ps) by {
        let a = ps[0].1; let b = ps[1].1; let c = ps[2].1; let d = ps[3].1; let e = ps[4].1; let f = ps[5].1;
    }
}
pub proof fn lemma_lower_symbol(c: char) ensures ascii_lower_char(c) == c || 'a' <= ascii_lower_char(c) <= 'z' {}
//@fn crates/core/src/expr/mod.rs Display for ExprOperator::fmt
@spec
    ensures ret is Ok ==> final(f)@ == old(f)@ + token(*self)
@start
    proof { lemma_tokens(); assert forall|x: Seq<char>| #[trigger] (Seq::<char>::empty() + x) == x by { assert(Seq::<char>::empty() + x =~= x); } }
//@end
pub open spec fn pairs_ok(ps: Seq<(&'static str, ExprOperator)>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).0@ == token(ps[i].1)
    &&& forall|op: ExprOperator| #![trigger token(op)] exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).1 == op
}
//@type crates/core/src/expr/mod.rs ExprOperator::TOKEN_OP_PAIRS proof=lemma_pairs ensures pairs_ok(ExprOperator_TOKEN_OP_PAIRS@)
//@rule path ExprOperator::TOKEN_OP_PAIRS ExprOperator_TOKEN_OP_PAIRS
//@fn crates/core/src/expr/mod.rs ExprOperator::negate
@spec
    ensures ret matches Some(n) && (forall|o: Ordering| accepts(n, o) == !accepts(*self, o))
//@end
/// the negation is determined by what it accepts, so negating twice restores the operator
pub proof fn negate_involutive(a: ExprOperator, b: ExprOperator, c: ExprOperator)
    requires forall|o: Ordering| accepts(b, o) == !accepts(a, o), forall|o: Ordering| accepts(c, o) == !accepts(b, o)
    ensures c == a
{
    assert(accepts(a, Ordering::Less) == accepts(c, Ordering::Less) && accepts(a, Ordering::Equal) == accepts(c, Ordering::Equal) && accepts(a, Ordering::Greater) == accepts(c, Ordering::Greater)) by { let x = accepts(b, Ordering::Less); let y = accepts(b, Ordering::Equal); let z = accepts(b, Ordering::Greater); }
}
//@fn crates/core/src/expr/mod.rs FromStr for ExprOperator::from_str
@rule opaque_fmt
@spec
    ensures match ret { Ok(op) => token(op) == s@, Err(_) => !is_token(s@) }
@closure 0
    |$1: &(&'static str, ExprOperator)| -> (r: Option<ExprOperator>) ensures r == (if ascii_lower((*$1).0@) == ascii_lower(s@) { Some((*$1).1) } else { None })
@start
    proof { lemma_tokens(); }
//@end

// ---- filters ---------------------------------------------------------------------------------
//@type crates/core/src/expr/filter.rs Filter clone
//@type crates/core/src/expr/filter.rs FilterField
/// f is the filter that the triple (column, token, literal) writes
pub open spec fn writes(f: Filter, t: (Seq<char>, Seq<char>, Seq<char>)) -> bool { f.field_name@ == t.0 && token(f.operator) == t.1 && f.field_value@ == t.2 }
//@fn crates/core/src/expr/filter.rs Filter::negate
@spec
    ensures ret matches Some(n) && n.field_name == self.field_name && n.field_value == self.field_value && (forall|o: Ordering| accepts(n.operator, o) == !accepts(self.operator, o))
@closure 0
    |$1: ExprOperator| -> (r: Filter) ensures r.field_name == self.field_name, r.field_value == self.field_value, r.operator == $1
//@end
/// the impl From<Filter> for (String, String, String)
pub struct VxTriple;
//@fn crates/core/src/expr/filter.rs From<Filter> for ::from
@rule path Self (String,String,String)
@header impl VxTriple
@spec
    ensures writes(filter, (ret.0@, ret.1@, ret.2@))
//@end
//@fn crates/core/src/expr/filter.rs TryFrom<(&str, &str, &str)> for Filter::try_from
@spec
    ensures match ret { Ok(f) => writes(f, (binary_expr_tuple.0@, binary_expr_tuple.1@, binary_expr_tuple.2@)), Err(_) => !is_token(binary_expr_tuple.1@) }
//@end
//@fn crates/core/src/expr/filter.rs from_str_tuples
@spec
    ensures match ret { Ok(fs) => fs@.len() == tuples@.len() && (forall|i: int| 0 <= i < fs@.len() ==> writes(#[trigger] fs@[i], (tuples@[i].0@, tuples@[i].1@, tuples@[i].2@))), Err(_) => exists|i: int| 0 <= i < tuples@.len() && !is_token((#[trigger] tuples@[i]).1@) }
@closure 0
    |$1: &(&str, &str, &str)| -> (r: Result<Filter>) ensures match r { Ok(f) => writes(f, ((*$1).0@, (*$1).1@, (*$1).2@)), Err(_) => !is_token((*$1).1@) }
//@end
//@fn crates/core/src/expr/filter.rs FilterField::new
@spec
    ensures ret.name@ == name.text()
//@end
//@fn crates/core/src/expr/filter.rs FilterField::name
@spec
    ensures ret@ == self.name@
//@end
//@fn crates/core/src/expr/filter.rs FilterField::eq
@spec
    ensures writes(ret, (self.name@, token(ExprOperator::Eq), value.text())), ret.operator == ExprOperator::Eq
//@end
//@fn crates/core/src/expr/filter.rs FilterField::ne
@spec
    ensures writes(ret, (self.name@, token(ExprOperator::Ne), value.text())), ret.operator == ExprOperator::Ne
//@end
//@fn crates/core/src/expr/filter.rs FilterField::lt
@spec
    ensures writes(ret, (self.name@, token(ExprOperator::Lt), value.text())), ret.operator == ExprOperator::Lt
//@end
//@fn crates/core/src/expr/filter.rs FilterField::lte
@spec
    ensures writes(ret, (self.name@, token(ExprOperator::Lte), value.text())), ret.operator == ExprOperator::Lte
//@end
//@fn crates/core/src/expr/filter.rs FilterField::gt
@spec
    ensures writes(ret, (self.name@, token(ExprOperator::Gt), value.text())), ret.operator == ExprOperator::Gt
//@end
//@fn crates/core/src/expr/filter.rs FilterField::gte
@spec
    ensures writes(ret, (self.name@, token(ExprOperator::Gte), value.text())), ret.operator == ExprOperator::Gte
//@end
//@fn crates/core/src/expr/filter.rs col
@spec
    ensures ret.name@ == name.text()
//@end
/// the filter of a triple is unique: however it is built, it is the same filter
pub proof fn writes_unique(f: Filter, g: Filter, t: (Seq<char>, Seq<char>, Seq<char>))
    requires writes(f, t), writes(g, t)
    ensures f.field_name@ == g.field_name@, f.operator == g.operator, f.field_value@ == g.field_value@
{ lemma_tokens(); assert(token(f.operator) == token(g.operator)); }

// ---- evaluation: arrow by assumed contract -----------------------------------------------------
/// one value of a column, of the column's type
#[verifier::external_body] pub struct Cell { _p: () }
/// the order of two values of one type (arrow's total order, used by all six kernels)
pub uninterp spec fn cell_order(a: Cell, b: Cell) -> Ordering;
#[verifier::external_body] pub struct DataType { _p: () }
#[verifier::external_body] pub struct ArrayRef { _p: () }
#[verifier::external_body] pub struct StringArray { _p: () }
#[verifier::external_body] pub struct BooleanArray { _p: () }
/// a literal read as a value of a type; None when the cast fails
pub uninterp spec fn literal(s: Seq<char>, t: DataType) -> Option<Cell>;
/// the column an array-like value holds (a scalar holds one), None for null
pub trait VxColumn { spec fn cells(&self) -> Seq<Option<Cell>>; spec fn ty(&self) -> DataType; }
impl VxColumn for ArrayRef { uninterp spec fn cells(&self) -> Seq<Option<Cell>>; uninterp spec fn ty(&self) -> DataType; }
impl<T: VxColumn> VxColumn for Scalar<T> { open spec fn cells(&self) -> Seq<Option<Cell>> { self.inner.cells() } open spec fn ty(&self) -> DataType { self.inner.ty() } }
/// the kernels take columns of this type
pub uninterp spec fn comparable(t: DataType) -> bool;
impl BooleanArray { pub uninterp spec fn bits(&self) -> Seq<Option<bool>>; }
impl StringArray { pub uninterp spec fn strs(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn from(v: Vec<&str>) -> (r: StringArray) ensures r.strs().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.strs()[i] == v@[i]@ { unimplemented!() } }
pub struct Scalar<T> { pub inner: T }
impl<T> Scalar<T> { #[verifier::external_body] pub fn new(x: T) -> (r: Scalar<T>) ensures r.inner == x { unimplemented!() } }
impl Clone for Scalar<ArrayRef> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct CastOptions { pub safe: bool, pub format_options: FormatOptions }
#[derive(Clone, Copy)] pub struct FormatOptions;
pub fn vx_default() -> (r: FormatOptions) { FormatOptions }
//@rule path Default::default vx_default
#[verifier::external_body] #[derive(Debug)] pub struct VArrowError { _p: () }
pub uninterp spec fn core_arrow(e: VArrowError) -> CoreError;
impl VArrowError { #[verifier::external_body] pub fn vx_into(self) -> (r: CoreError) ensures r == core_arrow(self) { unimplemented!() } }
/// cast of strings with safe = false: every value converts, or it is an error
#[verifier::external_body]
pub fn cast_with_options(a: &StringArray, t: &DataType, o: &CastOptions) -> (r: core::result::Result<ArrayRef, VArrowError>)
    ensures !o.safe ==> match r { Ok(c) => c.ty() == *t && c.cells().len() == a.strs().len() && (forall|i: int| 0 <= i < a.strs().len() ==> #[trigger] c.cells()[i] == literal(a.strs()[i], *t) && c.cells()[i] is Some), Err(_) => exists|i: int| 0 <= i < a.strs().len() && literal(#[trigger] a.strs()[i], *t) is None } { unimplemented!() }
/// a comparison kernel: row by row, null where the row is null
pub open spec fn kernel(op: ExprOperator, l: Seq<Option<Cell>>, r: Option<Cell>, out: Seq<Option<bool>>) -> bool {
    out.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] out[i]) == (match (l[i], r) { (Some(a), Some(b)) => Some(accepts(op, cell_order(a, b))), _ => None })
}
#[verifier::external_body] pub fn eq<A: VxColumn + ?Sized>(a: &A, b: &Scalar<ArrayRef>) -> (r: core::result::Result<BooleanArray, VArrowError>) ensures a.ty() == b.inner.ty() && comparable(a.ty()) ==> r is Ok, r matches Ok(o) ==> kernel(ExprOperator::Eq, a.cells(), b.inner.cells()[0], o.bits()) { unimplemented!() }
#[verifier::external_body] pub fn neq<A: VxColumn + ?Sized>(a: &A, b: &Scalar<ArrayRef>) -> (r: core::result::Result<BooleanArray, VArrowError>) ensures a.ty() == b.inner.ty() && comparable(a.ty()) ==> r is Ok, r matches Ok(o) ==> kernel(ExprOperator::Ne, a.cells(), b.inner.cells()[0], o.bits()) { unimplemented!() }
#[verifier::external_body] pub fn lt<A: VxColumn + ?Sized>(a: &A, b: &Scalar<ArrayRef>) -> (r: core::result::Result<BooleanArray, VArrowError>) ensures a.ty() == b.inner.ty() && comparable(a.ty()) ==> r is Ok, r matches Ok(o) ==> kernel(ExprOperator::Lt, a.cells(), b.inner.cells()[0], o.bits()) { unimplemented!() }
#[verifier::external_body] pub fn lt_eq<A: VxColumn + ?Sized>(a: &A, b: &Scalar<ArrayRef>) -> (r: core::result::Result<BooleanArray, VArrowError>) ensures a.ty() == b.inner.ty() && comparable(a.ty()) ==> r is Ok, r matches Ok(o) ==> kernel(ExprOperator::Lte, a.cells(), b.inner.cells()[0], o.bits()) { unimplemented!() }
#[verifier::external_body] pub fn gt<A: VxColumn + ?Sized>(a: &A, b: &Scalar<ArrayRef>) -> (r: core::result::Result<BooleanArray, VArrowError>) ensures a.ty() == b.inner.ty() && comparable(a.ty()) ==> r is Ok, r matches Ok(o) ==> kernel(ExprOperator::Gt, a.cells(), b.inner.cells()[0], o.bits()) { unimplemented!() }
#[verifier::external_body] pub fn gt_eq<A: VxColumn + ?Sized>(a: &A, b: &Scalar<ArrayRef>) -> (r: core::result::Result<BooleanArray, VArrowError>) ensures a.ty() == b.inner.ty() && comparable(a.ty()) ==> r is Ok, r matches Ok(o) ==> kernel(ExprOperator::Gte, a.cells(), b.inner.cells()[0], o.bits()) { unimplemented!() }
//@rule path dynDatum implVxColumn
#[verifier::external_body] pub struct Field { _p: () }
impl Field {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn ty(&self) -> DataType;
    #[verifier::external_body] pub fn data_type(&self) -> (r: &DataType) ensures *r == self.ty() { unimplemented!() }
    #[verifier::external_body] pub fn name(&self) -> (r: &String) ensures r@ == self.nm() { unimplemented!() }
}
impl Clone for Field { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Schema { _p: () }
impl Schema {
    pub uninterp spec fn fs(&self) -> Seq<Field>;
    /// the first field of that name
    #[verifier::external_body] pub fn field_with_name(&self, n: &str) -> (r: core::result::Result<&Field, VArrowError>)
        ensures match r { Ok(f) => is_field(self.fs(), n@, *f), Err(_) => forall|i: int| 0 <= i < self.fs().len() ==> (#[trigger] self.fs()[i]).nm() != n@ } { unimplemented!() }
}
pub open spec fn is_field(fs: Seq<Field>, n: Seq<char>, f: Field) -> bool { exists|i: int| 0 <= i < fs.len() && #[trigger] fs[i] == f && f.nm() == n && forall|j: int| 0 <= j < i ==> (#[trigger] fs[j]).nm() != n }
//@type crates/core/src/expr/filter.rs SchemableFilter
/// a filter bound to the column it names, its literal converted to the column's type
pub open spec fn bound(s: SchemableFilter, f: Filter, schema: Schema) -> bool {
    is_field(schema.fs(), f.field_name@, s.field) && s.operator == f.operator && s.value.inner.ty() == s.field.ty() && s.value.inner.cells().len() == 1 && s.value.inner.cells()[0] == literal(f.field_value@, s.field.ty()) && s.value.inner.cells()[0] is Some
}
pub open spec fn unbindable(f: Filter, schema: Schema) -> bool {
    (forall|i: int| 0 <= i < schema.fs().len() ==> (#[trigger] schema.fs()[i]).nm() != f.field_name@)
    || (exists|c: Field| is_field(schema.fs(), f.field_name@, c) && #[trigger] literal(f.field_value@, c.ty()) is None)
}
/// Vec::from(&[T; N])
#[verifier::external_body] pub fn vx_vec_from_ref<'a, const N: usize>(a: &[&'a str; N]) -> (r: Vec<&'a str>) ensures r@ == a@ { a.to_vec() }
//@fn crates/core/src/expr/filter.rs SchemableFilter::cast_value
@rule opaque_fmt
@rule path Vec::from vx_vec_from_ref
@spec
    ensures match ret { Ok(s) => s.inner.ty() == *data_type && s.inner.cells().len() == 1 && s.inner.cells()[0] == literal(value@[0]@, *data_type) && s.inner.cells()[0] is Some, Err(_) => literal(value@[0]@, *data_type) is None }
//@end
//@fn crates/core/src/expr/filter.rs TryFrom<(Filter, &Schema)> for SchemableFilter::try_from
@rule opaque_fmt
@spec
    ensures match ret { Ok(s) => bound(s, vx_arg0.0, *vx_arg0.1), Err(_) => unbindable(vx_arg0.0, *vx_arg0.1) }
//@end
//@fn crates/core/src/expr/filter.rs SchemableFilter::apply_comparsion
@spec
    ensures value.ty() == self.value.inner.ty() && comparable(value.ty()) ==> ret is Ok, ret matches Ok(b) ==> kernel(self.operator, value.cells(), self.value.inner.cells()[0], b.bits())
//@end
/// evaluating a filter accepts row i exactly when the comparison it writes holds for the row
pub proof fn evaluate(f: Filter, schema: Schema, s: SchemableFilter, col: Seq<Option<Cell>>, out: Seq<Option<bool>>, i: int, lit: Cell)
    requires bound(s, f, schema), kernel(s.operator, col, s.value.inner.cells()[0], out), 0 <= i < col.len(), literal(f.field_value@, s.field.ty()) == Some(lit)
    ensures out[i] == (match col[i] { Some(a) => Some(accepts(f.operator, cell_order(a, lit))), None => None })
{}
}
